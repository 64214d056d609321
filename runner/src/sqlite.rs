//! Minimal binding to the system SQLite, for building and reading map files.
use std::ffi::{c_char, c_int, c_void, CString};
use std::ptr::null_mut;

#[repr(C)] pub struct Db { _p: [u8; 0] }
#[repr(C)] pub struct Stmt { _p: [u8; 0] }
extern "C" {
	fn sqlite3_open_v2(f: *const c_char, db: *mut *mut Db, flags: c_int, vfs: *const c_char) -> c_int;
	fn sqlite3_close(db: *mut Db) -> c_int;
	fn sqlite3_exec(db: *mut Db, sql: *const c_char, cb: *mut c_void, a: *mut c_void, e: *mut *mut c_char) -> c_int;
	fn sqlite3_prepare_v2(db: *mut Db, sql: *const c_char, n: c_int, st: *mut *mut Stmt, tail: *mut *const c_char) -> c_int;
	fn sqlite3_step(st: *mut Stmt) -> c_int;
	fn sqlite3_reset(st: *mut Stmt) -> c_int;
	fn sqlite3_finalize(st: *mut Stmt) -> c_int;
	fn sqlite3_bind_int64(st: *mut Stmt, i: c_int, v: i64) -> c_int;
	fn sqlite3_bind_blob(st: *mut Stmt, i: c_int, p: *const c_void, n: c_int, d: isize) -> c_int;
	fn sqlite3_column_int64(st: *mut Stmt, i: c_int) -> i64;
	fn sqlite3_column_type(st: *mut Stmt, i: c_int) -> c_int;
	fn sqlite3_column_blob(st: *mut Stmt, i: c_int) -> *const u8;
	fn sqlite3_column_text(st: *mut Stmt, i: c_int) -> *const c_char;
	fn sqlite3_column_bytes(st: *mut Stmt, i: c_int) -> c_int;
	fn sqlite3_serialize(db: *mut Db, schema: *const c_char, size: *mut i64, flags: u32) -> *mut u8;
	fn sqlite3_deserialize(db: *mut Db, schema: *const c_char, d: *mut u8, sz: i64, buf: i64, flags: u32) -> c_int;
	fn sqlite3_free(p: *mut c_void);
	fn sqlite3_malloc64(n: u64) -> *mut u8;
}

pub struct Conn(*mut Db);
impl Drop for Conn { fn drop(&mut self) { unsafe { sqlite3_close(self.0); } } }

impl Conn {
	pub fn open(path: &str, write: bool) -> Result<Conn, String> {
		let c = CString::new(path).unwrap();
		let mut db = null_mut();
		let rc = unsafe { sqlite3_open_v2(c.as_ptr(), &mut db, if write { 2 | 4 } else { 1 }, std::ptr::null()) };
		let conn = Conn(db);
		if rc != 0 { return Err(format!("open: {rc}")) }
		Ok(conn)
	}
	pub fn memory() -> Conn { Conn::open(":memory:", true).unwrap() }
	pub fn load(bytes: &[u8]) -> Result<Conn, String> {
		let c = Conn::memory();
		if bytes.is_empty() { return Ok(c) }
		unsafe {
			let p = sqlite3_malloc64(bytes.len() as u64);
			if p.is_null() { return Err("memory".into()) }
			std::ptr::copy_nonoverlapping(bytes.as_ptr(), p, bytes.len());
			let m = CString::new("main").unwrap();
			let rc = sqlite3_deserialize(c.0, m.as_ptr(), p, bytes.len() as i64, bytes.len() as i64, 1 | 2);
			if rc != 0 { return Err(format!("deserialize: {rc}")) }
		}
		Ok(c)
	}
	pub fn exec(&self, sql: &str) -> Result<(), i32> {
		let c = CString::new(sql).unwrap();
		let rc = unsafe { sqlite3_exec(self.0, c.as_ptr(), null_mut(), null_mut(), null_mut()) };
		if rc == 0 { Ok(()) } else { Err(rc) }
	}
	fn prep(&self, sql: &str) -> Result<*mut Stmt, i32> {
		let c = CString::new(sql).unwrap();
		let mut st = null_mut();
		let rc = unsafe { sqlite3_prepare_v2(self.0, c.as_ptr(), -1, &mut st, null_mut()) };
		if rc == 0 { Ok(st) } else { Err(rc) }
	}
	pub fn insert(&self, rows: &[(i64, &[u8])]) -> Result<(), i32> {
		let st = self.prep("INSERT OR REPLACE INTO blocks (pos, data) VALUES (?, ?)")?;
		for (k, d) in rows {
			unsafe {
				sqlite3_bind_int64(st, 1, *k);
				// an empty slice must still be bound as a blob
				sqlite3_bind_blob(st, 2, if d.is_empty() { b"x".as_ptr() } else { d.as_ptr() } as *const c_void, d.len() as c_int, 0);
				let rc = sqlite3_step(st);
				if rc != 101 { sqlite3_finalize(st); return Err(rc) }
				sqlite3_reset(st);
			}
		}
		unsafe { sqlite3_finalize(st); }
		Ok(())
	}
	pub fn rows(&self) -> Result<Vec<(i64, Vec<u8>)>, i32> {
		let st = self.prep("SELECT pos, data FROM blocks")?;
		let mut v = vec![];
		loop {
			let rc = unsafe { sqlite3_step(st) };
			if rc == 101 { break }
			if rc != 100 { unsafe { sqlite3_finalize(st); } return Err(rc) }
			unsafe { v.push((sqlite3_column_int64(st, 0), blob(st, 1))) }
		}
		unsafe { sqlite3_finalize(st); }
		Ok(v)
	}
	pub fn text(&self, sql: &str) -> Result<Vec<String>, i32> {
		let st = self.prep(sql)?;
		let mut v = vec![];
		loop {
			let rc = unsafe { sqlite3_step(st) };
			if rc == 101 { break }
			if rc != 100 { unsafe { sqlite3_finalize(st); } return Err(rc) }
			unsafe { let _ = sqlite3_column_type(st, 0); let p = sqlite3_column_text(st, 0); v.push(if p.is_null() { String::new() } else { std::ffi::CStr::from_ptr(p).to_string_lossy().into_owned() }) }
		}
		unsafe { sqlite3_finalize(st); }
		Ok(v)
	}
	pub fn bytes(&self) -> Vec<u8> {
		let m = CString::new("main").unwrap();
		let mut n = 0i64;
		unsafe {
			let p = sqlite3_serialize(self.0, m.as_ptr(), &mut n, 0);
			if p.is_null() { return vec![] }
			let v = std::slice::from_raw_parts(p, n as usize).to_vec();
			sqlite3_free(p as *mut c_void);
			v
		}
	}
}
unsafe fn blob(st: *mut Stmt, i: c_int) -> Vec<u8> {
	let p = sqlite3_column_blob(st, i);
	let n = sqlite3_column_bytes(st, i) as usize;
	if p.is_null() || n == 0 { vec![] } else { std::slice::from_raw_parts(p, n).to_vec() }
}
