//! Runs one simulated execution: the shipped binary under the preloaded
//! simulator, configured through a shared memory file.
use std::collections::BTreeMap;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

pub const SHM: usize = 192 << 20;
const MAGIC: u64 = 0x4d41504544534d31;

// operation classes
pub const OPEN: u32 = 1;
pub const READ: u32 = 2;
pub const WRITE: u32 = 3;
pub const TRUNC: u32 = 4;
pub const SYNC: u32 = 5;
pub const UNLINK: u32 = 6;
pub const LOCK: u32 = 7;
pub const MALLOC: u32 = 8;
pub const STDIN: u32 = 9;
pub const STDOUT: u32 = 10;
pub const STEP: u32 = 0;
pub const THREAD: u32 = 12;
pub const FUTEX: u32 = 13;
pub const DISK: u32 = 14;
pub const MUT: u32 = 15;
pub const CLS: [&str; 16] = ["step", "open", "read", "write", "truncate", "sync", "unlink", "lock", "malloc", "stdin", "stdout", "stat", "thread", "futex", "disk-op", "disk-mutation"];
// fault kinds
pub const ERR: u32 = 1;
pub const ERR_AFTER: u32 = 2;
pub const SHORT: u32 = 3;
pub const CRASH: u32 = 4;
pub const CRASH_AFTER: u32 = 5;
pub const STALL: u32 = 6;
pub const SPURIOUS: u32 = 7;
pub const TORN_CRASH: u32 = 8;
pub const GARBLE: u32 = 9;
pub const KINDS: [&str; 10] = ["", "error", "error-after-effect", "short-transfer", "crash-before", "crash-after", "stall", "spurious-wakeup", "torn-write-crash", "garbled-page"];

// record types
pub const R_WRITE: u32 = 1;
pub const R_TRUNC: u32 = 2;
pub const R_CREATE: u32 = 3;
pub const R_UNLINK: u32 = 4;
pub const R_FSYNC: u32 = 5;
pub const R_DSYNC: u32 = 6;
pub const R_OUT: u32 = 7;
pub const R_IN: u32 = 8;
pub const R_OPEN: u32 = 9;
pub const R_SWITCH: u32 = 11;
pub const R_THREAD: u32 = 14;
pub const R_GAME: u32 = 15;
pub const R_STRAY: u32 = 16;
pub const R_RENAME: u32 = 19;
pub const R_INREQ: u32 = 20;
pub const R_OOM: u32 = 22;
pub const R_CHMOD: u32 = 23;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Fault { pub cls: u32, pub kind: u32, pub index: u64, pub arg: u64, pub count: u64 }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct InChunk { pub delay: u64, pub kind: u64, pub data: Vec<u8> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct GameOp { pub write: bool, pub upgrade: bool, pub at: u64, pub hold: u64, pub tries: u64, pub retry: u64, pub path: String, pub rows: Vec<(i64, Option<Vec<u8>>)> }

/// Everything but the program, its arguments and the disk.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Env {
	pub seed: u64, pub hash_seed: u64, pub preempt_ppm: u64, pub explicit: bool,
	pub switches: Vec<(u64, u64)>,
	pub step_ns: u64, pub lat_ns: u64, pub sync_ns: u64, pub mono_base: u64, pub real_base: u64,
	pub max_steps: u64, pub max_vtime: u64, pub capacity: u64, /* heap limit, 0 for none */ pub heap: u64, pub malloc_yield: bool,
	/// priorities instead of a coin; edges of the program yield for that many hits
	pub pct: bool, pub fine: u64,
	pub faults: Vec<Fault>, pub input: Vec<InChunk>, pub game: Vec<GameOp>,
}
/// What differs between one user's machine and another's.
fn machine(id: u64) -> Vec<(&'static str, &'static str)> {
	let mut r = crate::rng::Rng::new(id ^ 0x3ac1);
	let mut v = vec![("HOME", *r.pick(&["/sim", "/sim/w", "/sim/home"])), ("LANG", *r.pick(&["C", "C.UTF-8", "de_DE.UTF-8", "tr_TR.UTF-8"]))];
	for (k, vals) in [("TZ", ["UTC", "Asia/Kolkata"]), ("TERM", ["dumb", "xterm-256color"]), ("USER", ["root", "minetest"]), ("COLUMNS", ["40", "200"]), ("CI", ["1", "true"]), ("NO_COLOR", ["1", ""])] {
		if r.chance(40) { v.push((k, *r.pick(&vals))) }
	}
	v
}
impl Env {
	pub fn calm(seed: u64) -> Env {
		Env { seed, hash_seed: seed ^ 77, preempt_ppm: 0, explicit: false, switches: vec![], step_ns: 200, lat_ns: 2000, sync_ns: 20000,
			mono_base: 50_000_000_000, real_base: 1_700_000_000_000_000_000, max_steps: 40_000_000, max_vtime: 20 * 86400 * 1_000_000_000,
			capacity: u64::MAX / 2, heap: 0, malloc_yield: false, pct: false, fine: 0, faults: vec![], input: vec![], game: vec![] }
	}
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node { pub dir: bool, pub mode: u64, pub data: Vec<u8> }
pub type Disk = BTreeMap<String, Node>;
pub fn file(data: Vec<u8>) -> Node { Node { dir: false, mode: 0o644, data } }
pub fn dir() -> Node { Node { dir: true, mode: 0o755, data: vec![] } }

#[derive(Clone, Debug)]
pub struct Rec { pub typ: u32, pub step: u64, pub vtime: u64, pub tid: u32, pub a: u32, pub b: u64, pub c: u64, pub off: usize, pub len: usize }

#[derive(Clone, Debug, PartialEq)]
pub enum End { Exit(i32), Crash, Deadlock, Limit, Signal(i32), Harness(String) }

#[derive(Clone)]
pub struct Out {
	pub end: End, pub recs: Vec<Rec>, pub log: Vec<u8>,
	pub steps: u64, pub vtime: u64, pub ev_hash: u64, pub sched_hash: u64, pub switches: u64, pub preempts: u64,
	pub counts: [u64; 16], pub fired: Vec<u64>, pub full: u64, pub threads_alive: u32, pub max_alloc: u64, pub max_live: u64, pub edges: Vec<u16>,
	pub stdout: String, pub stderr: String,
}
impl Out {
	pub fn data(&self, r: &Rec) -> &[u8] { &self.log[r.off..r.off + r.len] }
	pub fn done(&self) -> bool { self.lines().iter().any(|l| l == "info: Done.") }
	pub fn error(&self) -> bool { self.lines().iter().any(|l| l.starts_with("error: ")) }
	/// Console output as lines, progress updates split off at carriage returns.
	pub fn lines(&self) -> Vec<String> {
		self.stdout.split(|c| c == '\n' || c == '\r').filter(|l| !l.is_empty()).map(|l| l.strip_prefix("Proceed? (Y/n): ").unwrap_or(l).to_string()).filter(|l| !l.is_empty()).collect()
	}
	/// Record index just after the output that completes the line "info: Done."
	pub fn done_at(&self) -> Option<usize> {
		let mut acc = String::new();
		for (i, r) in self.recs.iter().enumerate() {
			if r.typ == R_OUT && r.a == 1 {
				acc.push_str(&String::from_utf8_lossy(self.data(r)));
				if acc.contains("info: Done.\n") { return Some(i + 1) }
			}
		}
		None
	}
	/// Program offsets of the calls whose allocation was made to fail.
	pub fn oom_sites(&self) -> Vec<u64> { self.recs.iter().filter(|r| r.typ == R_OOM).map(|r| r.c).collect() }
	pub fn panicked(&self) -> bool { self.stderr.contains("panicked at") }
	pub fn switch_list(&self) -> Vec<(u64, u64)> {
		self.recs.iter().filter(|r| r.typ == R_SWITCH).map(|r| (r.b, r.c)).collect()
	}
}

pub struct Sim { fd: i32, mem: *mut u8, pub bin: String, pub fbin: String, pub lib: String }
unsafe impl Send for Sim {}

impl Sim {
	pub fn new(bin: &str, fbin: &str, lib: &str) -> Sim {
		unsafe {
			let name = std::ffi::CString::new("mapeditr-sim").unwrap();
			let fd = libc::memfd_create(name.as_ptr(), 0);
			assert!(fd >= 0, "memfd_create");
			assert!(libc::ftruncate(fd, SHM as i64) == 0, "ftruncate");
			let mem = libc::mmap(std::ptr::null_mut(), SHM, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
			assert!(mem != libc::MAP_FAILED, "mmap");
			Sim { fd, mem: mem as *mut u8, bin: bin.into(), fbin: fbin.into(), lib: lib.into() }
		}
	}

	pub fn run(&mut self, args: &[String], disk: &Disk, env: &Env) -> Out {
		let mut b = Vec::with_capacity(1 << 16);
		let p = |b: &mut Vec<u8>, v: u64| b.extend_from_slice(&v.to_le_bytes());
		let pb = |b: &mut Vec<u8>, d: &[u8]| {
			b.extend_from_slice(&(d.len() as u64).to_le_bytes());
			b.extend_from_slice(d);
			while b.len() % 8 != 0 { b.push(0) }
		};
		for v in [env.seed, env.hash_seed, env.preempt_ppm, env.explicit as u64, env.step_ns, env.lat_ns, env.sync_ns,
			env.mono_base, env.real_base, env.max_steps, env.max_vtime, env.capacity, env.malloc_yield as u64, env.pct as u64, env.fine, env.heap] { p(&mut b, v) }
		let mut sw = vec![];
		for (s, t) in &env.switches { sw.extend_from_slice(&s.to_le_bytes()); sw.extend_from_slice(&t.to_le_bytes()) }
		pb(&mut b, &sw);
		assert!(env.faults.len() <= 30 && env.input.len() <= 16 && env.game.len() <= 12 && disk.len() <= 40);
		p(&mut b, env.faults.len() as u64);
		for f in &env.faults { for v in [f.cls as u64, f.kind as u64, f.index, f.arg, f.count] { p(&mut b, v) } }
		p(&mut b, env.input.len() as u64);
		for c in &env.input { p(&mut b, c.delay); p(&mut b, c.kind); pb(&mut b, &c.data) }
		p(&mut b, env.game.len() as u64);
		for g in &env.game {
			for v in [if g.upgrade { 2 } else { g.write as u64 }, g.at, g.hold, g.tries, g.retry] { p(&mut b, v) }
			pb(&mut b, g.path.as_bytes());
			p(&mut b, g.rows.len() as u64);
			for (k, d) in &g.rows { p(&mut b, *k as u64); p(&mut b, d.is_none() as u64); pb(&mut b, d.as_deref().unwrap_or(&[])) }
		}
		p(&mut b, disk.len() as u64);
		for (path, n) in disk {
			p(&mut b, n.dir as u64);
			pb(&mut b, path.as_bytes());
			p(&mut b, n.mode);
			pb(&mut b, &n.data);
		}
		let log_off = (8192 + b.len() + 4095) & !4095;
		assert!(log_off + (8 << 20) < SHM, "input too large");
		let mem = unsafe { std::slice::from_raw_parts_mut(self.mem, SHM) };
		mem[..8192].fill(0);
		mem[..8].copy_from_slice(&MAGIC.to_le_bytes());
		mem[8..16].copy_from_slice(&(b.len() as u64).to_le_bytes());
		mem[16..24].copy_from_slice(&(log_off as u64).to_le_bytes());
		mem[8192..8192 + b.len()].copy_from_slice(&b);

		let st = Command::new(if env.fine > 0 && !self.fbin.is_empty() { &self.fbin } else { &self.bin }).args(args).env_clear()
			.env("LD_PRELOAD", &self.lib).env("SIM_FD", self.fd.to_string())
			.env("SQLITE_TMPDIR", "/sim/tmp").env("RUST_BACKTRACE", "0")
			.env("PATH", "/usr/bin:/bin").env("TMPDIR", "/sim/tmp").envs(machine(env.hash_seed))
			.current_dir("/").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null())
			.status();
		let h64 = |o: usize| u64::from_le_bytes(mem[o..o + 8].try_into().unwrap());
		let h32 = |o: usize| u32::from_le_bytes(mem[o..o + 4].try_into().unwrap());
		// struct sim_hdr
		let log_len = h64(24) as usize;
		let (steps, vtime, ev_hash, sched_hash, switches, preempts) = (h64(32), h64(40), h64(48), h64(56), h64(64), h64(72));
		let mut counts = [0; 16];
		for i in 0..16 { counts[i] = h64(80 + 8 * i) }
		let fired: Vec<u64> = (0..32).map(|i| h64(208 + 8 * i)).collect();
		let o = 208 + 256;
		let (verdict, code, alive) = (h32(o), h32(o + 4), h32(o + 8));
		let max_alloc = h64(o + 16);
		let max_live = h64(o + 32);
		let end = match st {
			Err(e) => End::Harness(format!("cannot start: {e}")),
			Ok(st) => match (verdict, st.code(), st.signal()) {
				(_, _, Some(libc::SIGALRM)) => End::Harness("real time limit".into()),
				(0, _, Some(s)) => End::Signal(s),
				(1, Some(c), _) if c as u32 == (code & 255) => End::Exit(c),
				(2, Some(96), _) => End::Crash,
				(3, Some(97), _) => End::Deadlock,
				(4, Some(98), _) => End::Limit,
				(v, c, s) => End::Harness(format!("verdict {v} code {c:?} signal {s:?}")),
			}
		};
		let edges: Vec<u16> = if env.fine > 0 { (0..32768u32).filter(|k| mem[4096 + *k as usize / 8] >> (k & 7) & 1 != 0).map(|k| k as u16).collect() } else { vec![] };
		let log = mem[log_off..log_off + log_len].to_vec();
		let mut recs = vec![];
		let mut i = 0;
		let (mut so, mut se) = (vec![], vec![]);
		while i + 48 <= log.len() {
			let g32 = |o: usize| u32::from_le_bytes(log[i + o..i + o + 4].try_into().unwrap());
			let g64 = |o: usize| u64::from_le_bytes(log[i + o..i + o + 8].try_into().unwrap());
			let len = g32(4) as usize;
			let r = Rec { typ: g32(0), step: g64(8), vtime: g64(16), tid: g32(24), a: g32(28), b: g64(32), c: g64(40), off: i + 48, len };
			if r.typ == R_OUT {
				if r.a == 1 { so.extend_from_slice(&log[r.off..r.off + len]) } else { se.extend_from_slice(&log[r.off..r.off + len]) }
			}
			recs.push(r);
			i += 48 + (len + 7) / 8 * 8;
		}
		Out { end, recs, log, steps, vtime: vtime.max(0), ev_hash, sched_hash, switches, preempts, counts, full: fired[31], fired, threads_alive: alive, max_alloc, max_live, edges,
			stdout: String::from_utf8_lossy(&so).into_owned(), stderr: String::from_utf8_lossy(&se).into_owned() }
	}
}

/// Symbol table of the program, to name the place of a failed allocation.
pub struct Symbols(Vec<(u64, String)>);
impl Symbols {
	pub fn load(path: &str) -> Symbols {
		let mut v = vec![];
		let b = std::fs::read(path).unwrap_or_default();
		let g = |o: usize, n: usize| -> u64 { b.get(o..o + n).map_or(0, |s| s.iter().rev().fold(0, |a, x| a << 8 | *x as u64)) };
		if b.len() > 64 && &b[..4] == b"\x7fELF" && b[4] == 2 {
			let (sh, es, n) = (g(40, 8) as usize, g(58, 2) as usize, g(60, 2) as usize);
			for i in 0..n {
				let h = sh + i * es;
				if g(h + 4, 4) != 2 { continue }
				let (off, size, link) = (g(h + 24, 8) as usize, g(h + 32, 8) as usize, g(h + 40, 4) as usize);
				let str = g(sh + link * es + 24, 8) as usize;
				for k in 0..size / 24 {
					let e = off + k * 24;
					if g(e + 4, 1) & 15 != 2 { continue }
					let s = str + g(e, 4) as usize;
					let name: Vec<u8> = b.get(s..).unwrap_or(&[]).iter().take_while(|c| **c != 0).cloned().collect();
					v.push((g(e + 8, 8), String::from_utf8_lossy(&name).into_owned()));
				}
			}
		}
		v.sort();
		Symbols(v)
	}
	pub fn name(&self, a: u64) -> String {
		let i = self.0.partition_point(|x| x.0 <= a);
		if i == 0 { return format!("{a:#x}") }
		self.0[i - 1].1.clone()
	}
}
