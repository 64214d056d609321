#!/bin/bash
# check.sh PROPERTY: builds the simulator, the runner and mapeditr from /repo's
# working tree, then searches for violations of one property.
# check.sh setup: only builds.  check.sh replay FILE [trace]: repeats a recorded history.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS LD_PRELOAD
here=$(cd "$(dirname "$0")" && pwd) || exit 2
cd "$here" || exit 2
b=$here/.build
mkdir -p "$b" evidence replays || exit 2
build() {
	gcc -O2 -g -Wall -Wextra -Wno-unused-parameter -fPIC -shared -fno-builtin-malloc -o "$b/libsim.so.new" simlib/sim.c -ldl -lpthread || return 1
	mv -f "$b/libsim.so.new" "$b/libsim.so" || return 1
	cargo build -q --release --offline --manifest-path runner/Cargo.toml --target-dir "$b/target" || return 1
	# cargo compares only mtimes: without its fingerprint the crate is always recompiled
	rm -rf "$b"/target/release/.fingerprint/mapeditr-*
	# the same program with a callback on every edge, for finer thread switches
	CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true cargo rustc -q --release --offline --manifest-path /repo/Cargo.toml --target-dir "$b/target" --bin mapeditr -- \
		-C passes=sancov-module -C llvm-args=-sanitizer-coverage-level=3 -C llvm-args=-sanitizer-coverage-trace-pc-guard -C link-arg=-Wl,--unresolved-symbols=ignore-all || return 1
	cp -f "$b/target/release/mapeditr" "$b/mapeditr-edges.new" && mv -f "$b/mapeditr-edges.new" "$b/mapeditr-edges" || return 1
	rm -rf "$b"/target/release/.fingerprint/mapeditr-*
	CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true cargo build -q --release --offline --manifest-path /repo/Cargo.toml --target-dir "$b/target" || return 1
}
(
	flock 9 || exit 1
	build >"$b/build.log" 2>&1
) 9>"$b/lock" || { cat "$b/build.log"; echo "build failed" >&2; exit 2; }
export MSIM_ROOT=$here
case "$1" in
	setup) exit 0 ;;
	replay) shift; exec "$b/target/release/runner" replay "$@" ;;
	*) exec "$b/target/release/runner" check "$1" ;;
esac
