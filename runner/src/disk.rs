//! Disk images reconstructed from the mutation log of a run: what a later
//! process finds after a kill or a power loss at any point.
use crate::rng::Rng;
use crate::sim::*;
use crate::sqlite::Conn;
use std::collections::BTreeMap;

pub type Rows = BTreeMap<i64, Vec<u8>>;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Loss { Kill, None, All, Subset(u64), Prefix(u64) }

/// Where in the log the machine stops and what the disk keeps.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Cut { pub at: usize, pub loss: Loss, pub torn: u64, pub keep_dir: bool }

#[derive(Clone)]
enum Pend { Write(u64, Vec<u8>), /// new size, position in the log
Trunc(u64, usize) }
#[derive(Clone)]
struct F { durable: Vec<u8>, pend: Vec<Pend>, cur: Vec<u8>, mode: u64 }

fn put(v: &mut Vec<u8>, off: u64, d: &[u8]) {
	let end = off as usize + d.len();
	if v.len() < end { v.resize(end, 0) }
	v[off as usize..end].copy_from_slice(d);
}

fn dirop(d: &mut BTreeMap<String, u32>, op: u32, p: &str, id: u32) {
	match op {
		R_CREATE => { d.insert(p.into(), id); }
		R_UNLINK => { d.remove(p); }
		_ => { d.retain(|_, v| *v != id); d.insert(p.into(), id); }
	}
}

/// `at` = number of log records that happened. Only records of this disk's
/// mutations matter. Files are identified by the ids sim.c assigned: initial
/// nodes are numbered in the order of `disk`.
pub fn image(disk: &Disk, out: &Out, cut: Cut) -> Disk {
	let mut files: BTreeMap<u32, F> = BTreeMap::new();
	// directory entries: durable view and current view
	let mut cur: BTreeMap<String, u32> = BTreeMap::new();
	let mut next = 0u32;
	for (p, n) in disk {
		if !n.dir {
			files.insert(next, F { durable: n.data.clone(), pend: vec![], cur: n.data.clone(), mode: n.mode });
			cur.insert(p.clone(), next);
		}
		next += 1;
	}
	let mut durdir = cur.clone();
	let mut dirops: Vec<(u32, String, u32, usize)> = vec![]; // pending directory changes
	let n = cut.at.min(out.recs.len());
	for (i, r) in out.recs[..n].iter().enumerate() {
		match r.typ {
			R_WRITE => {
				let f = files.get_mut(&r.a).expect("write to unknown file");
				let mut d = out.data(r);
				if i + 1 == n && cut.torn < 1000 && cut.loss == Loss::Kill { d = &d[..d.len() * cut.torn as usize / 1000] }
				put(&mut f.cur, r.b, d);
				f.pend.push(Pend::Write(r.b, d.to_vec()));
			}
			R_TRUNC => {
				let f = files.get_mut(&r.a).unwrap();
				f.cur.resize(r.b as usize, 0);
				f.pend.push(Pend::Trunc(r.b, i));
			}
			R_CREATE => {
				files.insert(r.a, F { durable: vec![], pend: vec![], cur: vec![], mode: 0o644 });
				let p = String::from_utf8_lossy(out.data(r)).into_owned();
				cur.insert(p.clone(), r.a);
				dirops.push((R_CREATE, p, r.a, i));
			}
			R_UNLINK => {
				let p = String::from_utf8_lossy(out.data(r)).into_owned();
				cur.remove(&p);
				dirops.push((R_UNLINK, p, r.a, i));
			}
			R_RENAME => {
				let p = String::from_utf8_lossy(out.data(r)).into_owned();
				cur.retain(|_, v| *v != r.a);
				cur.insert(p.clone(), r.a);
				dirops.push((R_RENAME, p, r.a, i));
			}
			R_FSYNC => {
				let Some(f) = files.get_mut(&r.a) else { continue };
				// metadata reaches the disk in order: a durable truncation
				// implies the directory changes before it
				let tr = f.pend.iter().filter_map(|p| match p { Pend::Trunc(_, s) => Some(*s), _ => None }).max();
				for p in f.pend.drain(..) {
					match p { Pend::Write(off, d) => put(&mut f.durable, off, &d), Pend::Trunc(n, _) => f.durable.resize(n as usize, 0) }
				}
				debug_assert!(f.durable == f.cur);
				if let Some(tr) = tr {
					let k = dirops.iter().take_while(|d| d.3 < tr).count();
					for (op, p, id, _) in dirops.drain(..k) { dirop(&mut durdir, op, &p, id) }
				}
			}
			R_DSYNC => { durdir = cur.clone(); dirops.clear() }
			_ => {}
		}
	}
	let mut res: Disk = disk.iter().filter(|(_, n)| n.dir).map(|(p, n)| (p.clone(), n.clone())).collect();
	if cut.loss == Loss::Kill {
		for (p, id) in &cur { let f = &files[id]; res.insert(p.clone(), Node { dir: false, mode: f.mode, data: f.cur.clone() }); }
		return res;
	}
	let mut rng = Rng::new(match cut.loss { Loss::Subset(s) | Loss::Prefix(s) => s, _ => 1 });
	// directory: a prefix of the pending changes reached the disk
	let keep = if cut.keep_dir { dirops.len() } else {
		match cut.loss { Loss::None => 0, Loss::All => dirops.len(), _ => rng.usize(dirops.len() + 1) }
	};
	let mut dirv = durdir;
	for (op, p, id, _) in &dirops[..keep] {
		dirop(&mut dirv, *op, p, *id)
	}
	let metacut = dirops.get(keep).map_or(usize::MAX, |d| d.3);
	for (p, id) in &dirv {
		let f = &files[id];
		let mut d = f.durable.clone();
		let cutoff = match cut.loss { Loss::None => 0, Loss::All => usize::MAX, Loss::Prefix(_) => rng.usize(f.pend.len() + 1), _ => usize::MAX };
		let pct = 10 + rng.below(80);
		for (k, w) in f.pend.iter().enumerate() {
			let all = match cut.loss { Loss::All => true, Loss::Prefix(_) | Loss::None => { if k >= cutoff { break } true } , _ => false };
			match w {
				Pend::Trunc(n, s) => if *s < metacut && (all || rng.chance(pct)) { d.resize(*n as usize, 0) },
				Pend::Write(off, data) => {
					if all { put(&mut d, *off, data); continue }
					// whole sectors survive or vanish independently
					let whole = rng.chance(30);
					let keepw = rng.chance(pct);
					let (mut a, end) = (*off as usize, *off as usize + data.len());
					while a < end {
						let e = ((a / 512 + 1) * 512).min(end);
						if if whole { keepw } else { rng.chance(pct) } { put(&mut d, a as u64, &data[a - *off as usize..e - *off as usize]) }
						a = e;
					}
				}
			}
		}
		res.insert(p.clone(), Node { dir: false, mode: f.mode, data: d });
	}
	res
}

/// Disk after the process ended (nothing lost).
pub fn after(disk: &Disk, out: &Out) -> Disk {
	image(disk, out, Cut { at: usize::MAX, loss: Loss::Kill, torn: 1000, keep_dir: true })
}

/// Opens a map file from an image with real SQLite, letting it recover from a
/// journal if there is one. Returns the rows and the integrity verdict.
pub fn recover(disk: &Disk, path: &str, scratch: &str, integrity: bool) -> Result<Rows, String> {
	let conn = reopen(disk, path, scratch)?;
	let rows = conn.rows().map_err(|e| format!("reading rows: sqlite error {e}"))?;
	let mut m = Rows::new();
	for (k, d) in rows { if m.insert(k, d).is_some() { return Err(format!("row {k} twice")) } }
	if integrity {
		let t = conn.text("PRAGMA integrity_check").map_err(|e| format!("integrity check: sqlite error {e}"))?;
		if t != ["ok"] { return Err(format!("integrity check: {}", t.join("; ").chars().take(300).collect::<String>())) }
	}
	Ok(m)
}

/// Everything in a map database that is not the content of table blocks.
pub fn facts(disk: &Disk, path: &str, scratch: &str) -> Result<Vec<String>, String> {
	let c = reopen(disk, path, scratch)?;
	let e = |e: i32| format!("sqlite error {e}");
	let mut v = c.text("SELECT 'schema: ' || type || ' ' || name || ' on ' || tbl_name || ': ' || ifnull(sql, '') FROM sqlite_master ORDER BY 1").map_err(e)?;
	for t in c.text("SELECT name FROM sqlite_master WHERE type = 'table' AND name <> 'blocks' ORDER BY 1").map_err(e)? {
		let cols = c.text(&format!("SELECT 'quote(\"' || name || '\")' FROM pragma_table_info('{t}')")).map_err(e)?;
		if cols.is_empty() { continue }
		for r in c.text(&format!("SELECT {} FROM \"{t}\" ORDER BY 1", cols.join(" || ',' || "))).map_err(e)? { v.push(format!("table {t}: {r}")) }
	}
	for t in c.text("SELECT DISTINCT 'row type ' || typeof(pos) || '/' || typeof(data) FROM blocks").map_err(e)? { if t != "row type integer/blob" { v.push(t) } }
	let b = c.bytes();
	if b.len() >= 100 {
		let u = |i: usize| u32::from_be_bytes(b[i..i + 4].try_into().unwrap());
		v.push(format!("page size {}", u16::from_be_bytes([b[16], b[17]])));
		v.push(format!("file format versions {} {}, reserved {}", b[18], b[19], b[20]));
		v.push(format!("default cache size {}", u(48)));
		v.push(format!("auto-vacuum {} {}", u(52) != 0, u(64)));
		v.push(format!("encoding {}", u(56)));
		v.push(format!("user version {}", u(60)));
		v.push(format!("application id {}", u(68)));
	}
	Ok(v)
}

fn reopen(disk: &Disk, path: &str, scratch: &str) -> Result<Conn, String> {
	let main = disk.get(path).ok_or("map file missing")?;
	let jr = format!("{path}-journal");
	let wal = format!("{path}-wal");
	let has = disk.get(&jr).map_or(false, |n| !n.data.is_empty()) || disk.contains_key(&wal);
	if !has { return Conn::load(&main.data) }
		let base = path.rsplit('/').next().unwrap();
		let dirp = path[..path.len() - base.len()].to_string();
		let _ = std::fs::remove_dir_all(scratch);
		std::fs::create_dir_all(scratch).map_err(|e| e.to_string())?;
		for (p, n) in disk {
			if !n.dir && p.starts_with(&dirp) && p[dirp.len()..].starts_with(base) {
				std::fs::write(format!("{scratch}/{}", &p[dirp.len()..]), &n.data).map_err(|e| e.to_string())?;
			}
		}
		Conn::open(&format!("{scratch}/{base}"), true)
}

/// How a map database is laid out on disk.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct DbOpt { pub page: u64, pub cache: u64, pub shuffle: u64, pub free: u64, pub autovac: u64, pub rowid: bool, pub extra_table: bool, pub user: u64 }
impl Default for DbOpt { fn default() -> Self { DbOpt { page: 4096, cache: 0, shuffle: 0, free: 0, autovac: 0, rowid: true, extra_table: false, user: 0 } } }

pub fn build_db(rows: &Rows, o: &DbOpt) -> Vec<u8> {
	let c = Conn::memory();
	c.exec(&format!("PRAGMA page_size = {}", o.page)).unwrap();
	if o.autovac > 0 { c.exec(&format!("PRAGMA auto_vacuum = {}", o.autovac)).unwrap() }
	let mut ur = Rng::new(o.user);
	if o.user != 0 && ur.chance(20) { c.exec(&format!("PRAGMA encoding = '{}'", *ur.pick(&["UTF-16le", "UTF-16be"]))).unwrap() }
	c.exec("BEGIN").unwrap();
	if o.extra_table { c.exec("CREATE TABLE junk (a INTEGER PRIMARY KEY, b BLOB)").unwrap() }
	c.exec("CREATE TABLE `blocks` (`pos` INT PRIMARY KEY, `data` BLOB)").unwrap();
	let mut v: Vec<(i64, &[u8])> = rows.iter().map(|(k, d)| (*k, &d[..])).collect();
	if o.shuffle != 0 { Rng::new(o.shuffle).shuffle(&mut v) }
	if o.free > 0 {
		let mut r = Rng::new(o.free);
		let junk: Vec<Vec<u8>> = (0..o.free).map(|_| { let n = 100 + r.usize(6000); r.bytes(n) }).collect();
		let jr: Vec<(i64, &[u8])> = junk.iter().enumerate().map(|(i, d)| (i as i64 + (1 << 40), &d[..])).collect();
		let h = v.len() / 2;
		c.insert(&v[..h]).unwrap();
		c.insert(&jr).unwrap();
		c.insert(&v[h..]).unwrap();
		c.exec(&format!("DELETE FROM blocks WHERE pos BETWEEN {} AND {}", 1i64 << 40, (1i64 << 40) + o.free as i64 - 1)).unwrap();
	} else { c.insert(&v).unwrap() }
	if o.extra_table { c.exec("INSERT INTO junk VALUES (1, x'0102')").unwrap() }
	c.exec("COMMIT").unwrap();
	if o.cache > 0 { c.exec(&format!("PRAGMA default_cache_size = {}", o.cache)).unwrap() }
	if o.user != 0 {
		// what other software keeps in the same database
		if ur.chance(60) { c.exec(&format!("PRAGMA user_version = {}", ur.below(1 << 31))).unwrap() }
		if ur.chance(40) { c.exec(&format!("PRAGMA application_id = {}", ur.below(1 << 31))).unwrap() }
		for sql in ["CREATE TABLE notes (id INTEGER PRIMARY KEY AUTOINCREMENT, t TEXT, n REAL); INSERT INTO notes (t, n) VALUES ('one', 1.5), ('two', NULL), (x'00ff', 3); DELETE FROM notes WHERE id = 2",
			"CREATE TABLE kv (k TEXT PRIMARY KEY, v) WITHOUT ROWID; INSERT INTO kv VALUES ('backend', 'sqlite3'), ('seed', 42)",
			"CREATE VIEW keys AS SELECT pos FROM blocks", "CREATE INDEX bylen ON blocks (length(data))",
			"CREATE TABLE log (what); CREATE TRIGGER tr AFTER DELETE ON log BEGIN INSERT INTO log VALUES ('gone'); END; INSERT INTO log VALUES ('a')",
			"ANALYZE", "CREATE TABLE nodes (pos INT PRIMARY KEY, data BLOB); INSERT INTO nodes SELECT pos, data FROM blocks LIMIT 2"] {
			if ur.chance(35) { c.exec(sql).unwrap() }
		}
	}
	c.bytes()
}
