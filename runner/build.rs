fn main() {
	// only the runtime library is needed; there may be no development symlink
	println!("cargo:rustc-link-lib=dylib=sqlite3");
}
