//! Independent mapblock reader and writer (format versions 25 to 29), written
//! from Minetest's world_format.txt, and the canonical form used to compare
//! mapblocks by meaning.
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::{Read, Write};

pub type Name = Vec<u8>;

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Meta { pub vars: BTreeMap<Vec<u8>, (Vec<u8>, bool)>, pub inv: Vec<u8> }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Obj { pub kind: u8, pub pos: [i32; 3], pub data: Vec<u8> }

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Block {
	pub version: u8,
	pub flags: u8,
	pub light: u16,
	pub ts: u32,
	/// distinct names; `nodes` holds indices into it
	pub names: Vec<Name>,
	pub nodes: Vec<u16>,
	pub p1: Vec<u8>,
	pub p2: Vec<u8>,
	pub meta: BTreeMap<u16, Meta>,
	pub objs: Vec<Obj>,
	pub timers: Vec<(u16, u32, u32)>,
}

pub enum Parsed { Good(Block), Grey(String), Corrupt(String) }

pub const END_INV: &[u8] = b"EndInventory\n";

impl Block {
	pub fn generated(&self) -> bool { self.flags & 8 == 0 }
	pub fn name_at(&self, i: usize) -> &Name { &self.names[self.nodes[i] as usize] }
	pub fn id_for(&mut self, name: &[u8]) -> u16 {
		if let Some(i) = self.names.iter().position(|n| n == name) { return i as u16 }
		self.names.push(name.to_vec());
		(self.names.len() - 1) as u16
	}
	/// Names numbered by first use, unused names dropped, empty metadata
	/// dropped, objects and timers sorted: equal blocks have equal forms.
	pub fn canon(mut self) -> Block {
		let mut map: HashMap<Name, u16> = HashMap::new();
		let mut tr = vec![u16::MAX; self.names.len()];
		let mut names = vec![];
		for n in &mut self.nodes {
			let o = *n as usize;
			if tr[o] == u16::MAX {
				let nm = &self.names[o];
				tr[o] = *map.entry(nm.clone()).or_insert_with(|| { names.push(nm.clone()); (names.len() - 1) as u16 });
			}
			*n = tr[o];
		}
		self.names = names;
		self.meta.retain(|_, m| !(m.vars.is_empty() && m.inv.starts_with(END_INV)));
		self.objs.sort();
		self.timers.sort();
		self
	}
	/// First differences between two canonical blocks, as (field, text).
	pub fn diff(&self, o: &Block) -> Vec<(&'static str, String)> {
		let mut d = vec![];
		if self.version != o.version { d.push(("version", format!("version {} instead of {}", o.version, self.version))) }
		if self.flags != o.flags { d.push(("flags", format!("flags {:#x} instead of {:#x}", o.flags, self.flags))) }
		if self.light != o.light && self.version >= 27 { d.push(("light", format!("lighting {:#x} instead of {:#x}", o.light, self.light))) }
		if self.ts != o.ts { d.push(("timestamp", format!("timestamp {} instead of {}", o.ts, self.ts))) }
		let bad: Vec<usize> = (0..4096).filter(|&i| self.name_at(i) != o.name_at(i)).collect();
		if let Some(&i) = bad.first() {
			d.push(("nodes", format!("{} nodes differ, first at index {} ({},{},{}): {:?} instead of {:?}", bad.len(), i,
				i & 15, i >> 4 & 15, i >> 8, lossy(o.name_at(i)), lossy(self.name_at(i)))));
		}
		for (nm, a, b) in [("param1", &self.p1, &o.p1), ("param2", &self.p2, &o.p2)] {
			let bad: Vec<usize> = (0..4096).filter(|&i| a[i] != b[i]).collect();
			if let Some(&i) = bad.first() {
				d.push((nm, format!("{} {} values differ, first at index {}: {} instead of {}", bad.len(), nm, i, b[i], a[i])));
			}
		}
		if self.meta != o.meta {
			let keys: BTreeSet<u16> = self.meta.keys().chain(o.meta.keys()).cloned().collect();
			for k in keys {
				if self.meta.get(&k) != o.meta.get(&k) {
					d.push(("metadata", format!("metadata at index {}: {} instead of {}", k, mtxt(o.meta.get(&k)), mtxt(self.meta.get(&k)))));
					break;
				}
			}
		}
		if self.objs != o.objs {
			let miss: Vec<_> = self.objs.iter().filter(|x| !o.objs.contains(x)).collect();
			let extra: Vec<_> = o.objs.iter().filter(|x| !self.objs.contains(x)).collect();
			d.push(("objects", format!("{} objects instead of {}; missing {}, unexpected {}", o.objs.len(), self.objs.len(),
				miss.first().map_or("none".into(), |x| otxt(x)), extra.first().map_or("none".into(), |x| otxt(x)))));
		}
		if self.timers != o.timers {
			d.push(("timers", format!("{} timers instead of {}", o.timers.len(), self.timers.len())));
		}
		d
	}
}
fn otxt(o: &Obj) -> String {
	format!("type {} at {:?} {:?}", o.kind, o.pos, lossy(&o.data[..o.data.len().min(60)]))
}
fn mtxt(m: Option<&Meta>) -> String {
	match m {
		None => "absent".into(),
		Some(m) => {
			let mut s = String::from("{");
			for (k, (v, p)) in m.vars.iter().take(4) {
				s += &format!("{:?}={:?}({} bytes{}) ", lossy(k), lossy(&v[..v.len().min(20)]), v.len(), if *p { ", private" } else { "" });
			}
			s + &format!("inv {:?} ({} bytes)}}", lossy(&m.inv[..m.inv.len().min(120)]), m.inv.len())
		}
	}
}
pub fn lossy(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }

// ------------------------------------------------------------------ reading
struct Rd<'a> { b: &'a [u8], i: usize }
type R<T> = Result<T, String>;
impl<'a> Rd<'a> {
	fn take(&mut self, n: usize) -> R<&'a [u8]> {
		if self.b.len() - self.i < n { return Err("truncated".into()) }
		let s = &self.b[self.i..self.i + n];
		self.i += n;
		Ok(s)
	}
	fn u8(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
	fn u16(&mut self) -> R<u16> { let s = self.take(2)?; Ok(u16::from_be_bytes([s[0], s[1]])) }
	fn u32(&mut self) -> R<u32> { let s = self.take(4)?; Ok(u32::from_be_bytes(s.try_into().unwrap())) }
	fn zlib(&mut self, limit: u64) -> R<Vec<u8>> {
		let mut out = vec![];
		let mut d = flate2::read::ZlibDecoder::new(&self.b[self.i..]);
		(&mut d).take(limit).read_to_end(&mut out).map_err(|e| format!("zlib: {e}"))?;
		if out.len() as u64 >= limit { return Err("zlib: too long".into()) }
		self.i += d.total_in() as usize;
		Ok(out)
	}
}

pub fn unzstd(b: &[u8], limit: usize) -> R<Vec<u8>> {
	let mut d = zstd::stream::Decoder::new(b).map_err(|e| format!("zstd: {e}"))?;
	let mut out = vec![];
	(&mut d).take(limit as u64).read_to_end(&mut out).map_err(|e| format!("zstd: {e}"))?;
	if out.len() >= limit { return Err("zstd: too long".into()) }
	Ok(out)
}

/// Header check used by wholesale copies: version known and generated bit.
pub fn header_generated(b: &[u8]) -> Option<bool> {
	if b.len() < 2 || !(25..=29).contains(&b[0]) { return None }
	if b[0] < 29 { return Some(b[1] & 8 == 0) }
	let mut d = zstd::stream::Decoder::new(&b[1..]).ok()?;
	let mut f = [0u8; 1];
	d.read_exact(&mut f).ok()?;
	Some(f[0] & 8 == 0)
}

type Memo = HashMap<(u64, u64, usize), std::rc::Rc<(R<Block>, Vec<String>)>>;
thread_local! { static MEMO: std::cell::RefCell<Memo> = Default::default(); }

/// The same rows are read over and over.
fn memo(data: &[u8]) -> std::rc::Rc<(R<Block>, Vec<String>)> {
	let k = (crate::rng::fnv(data), crate::rng::fnv(&data[data.len() / 3..]), data.len());
	MEMO.with(|m| {
		let mut m = m.borrow_mut();
		if let Some(r) = m.get(&k) { return r.clone() }
		let mut grey = vec![];
		let r = parse_inner(data, &mut grey);
		let r = std::rc::Rc::new((r, grey));
		if m.len() > 1500 { m.clear() }
		m.insert(k, r.clone());
		r
	})
}

/// What can be read, however doubtful.
pub fn loose(data: &[u8]) -> Option<Block> { memo(data).0.clone().ok() }

pub fn parse(data: &[u8]) -> Parsed {
	let r = memo(data);
	match &r.0 {
		Err(e) => Parsed::Corrupt(e.clone()),
		Ok(_) if !r.1.is_empty() => Parsed::Grey(r.1.join("; ")),
		Ok(b) => Parsed::Good(b.clone()),
	}
}

fn parse_inner(data: &[u8], grey: &mut Vec<String>) -> R<Block> {
	let mut r = Rd { b: data, i: 0 };
	let version = r.u8()?;
	if !(25..=29).contains(&version) { return Err(format!("unsupported version {version}")) }
	let un;
	if version >= 29 {
		un = unzstd(&data[1..], 64 << 20)?;
		r = Rd { b: &un, i: 0 };
	}
	let flags = r.u8()?;
	let light = if version >= 27 { r.u16()? } else { 0xffff };
	let mut ts = 0;
	let mut ids: Vec<(u16, Name)> = vec![];
	if version >= 29 { ts = r.u32()?; ids = nimap(&mut r)?; }
	if r.u8()? != 2 || r.u8()? != 2 { return Err("content or params width".into()) }
	let nd: Vec<u8> = if version >= 29 { r.take(16384)?.to_vec() } else {
		let v = r.zlib(1 << 20)?;
		if v.len() < 16384 { return Err("node data too short".into()) }
		if v.len() > 16384 { return Err("node data too long".into()) }
		v
	};
	let meta = if version >= 29 { metas(&mut r, grey)? } else {
		let v = r.zlib(64 << 20)?;
		let mut q = Rd { b: &v, i: 0 };
		let m = metas(&mut q, grey)?;
		if q.i != v.len() { grey.push("trailing metadata bytes".into()) }
		m
	};
	if version < 28 && meta.values().any(|m| m.vars.values().any(|v| v.1)) { grey.push("private metadata in an old version".into()) }
	if r.u8()? != 0 { return Err("static object version".into()) }
	let mut objs = vec![];
	for _ in 0..r.u16()? {
		let kind = r.u8()?;
		let pos = [r.u32()? as i32, r.u32()? as i32, r.u32()? as i32];
		let n = r.u16()? as usize;
		objs.push(Obj { kind, pos, data: r.take(n)?.to_vec() });
	}
	if version < 29 { ts = r.u32()?; ids = nimap(&mut r)?; }
	if r.u8()? != 10 { return Err("timer record length".into()) }
	let mut timers = vec![];
	for _ in 0..r.u16()? {
		let t = (r.u16()?, r.u32()?, r.u32()?);
		if t.0 >= 4096 { return Err("timer position".into()) }
		timers.push(t);
	}
	if r.i != r.b.len() { grey.push("trailing bytes".into()) }

	let mut names: Vec<Name> = vec![];
	let mut map = vec![u32::MAX; 65536];
	let mut seen: HashMap<&Name, u16> = HashMap::new();
	for (id, n) in &ids {
		if map[*id as usize] != u32::MAX { grey.push(format!("node id {id} named twice")) }
		if seen.contains_key(n) { grey.push(format!("two ids for {}", lossy(n))) }
		names.push(n.clone());
		seen.insert(n, (names.len() - 1) as u16);
		map[*id as usize] = names.len() as u32 - 1;
	}
	let mut nodes = Vec::with_capacity(4096);
	for i in 0..4096 {
		let id = u16::from_be_bytes([nd[2 * i], nd[2 * i + 1]]);
		match map[id as usize] {
			u32::MAX => return Err(format!("node id {id} has no name")),
			x => nodes.push(x as u16),
		}
	}
	Ok(Block { version, flags, light, ts, names, nodes, p1: nd[8192..12288].to_vec(), p2: nd[12288..].to_vec(), meta, objs, timers })
}

fn nimap(r: &mut Rd) -> R<Vec<(u16, Name)>> {
	if r.u8()? != 0 { return Err("name-id map version".into()) }
	let n = r.u16()?;
	let mut v = vec![];
	for _ in 0..n {
		let id = r.u16()?;
		let l = r.u16()? as usize;
		v.push((id, r.take(l)?.to_vec()));
	}
	Ok(v)
}

fn metas(r: &mut Rd, grey: &mut Vec<String>) -> R<BTreeMap<u16, Meta>> {
	let v = r.u8()?;
	if v > 2 { return Err("metadata version".into()) }
	let mut m = BTreeMap::new();
	if v == 0 { return Ok(m) }
	for _ in 0..r.u16()? {
		let pos = r.u16()?;
		let mut e = Meta::default();
		for _ in 0..r.u32()? {
			let n = r.u16()? as usize;
			let k = r.take(n)?.to_vec();
			let n = r.u32()? as usize;
			let val = r.take(n)?.to_vec();
			let pr = if v >= 2 { r.u8()? } else { 0 };
			if pr > 1 { grey.push("private flag".into()) }
			if e.vars.insert(k, (val, pr != 0)).is_some() { grey.push("variable twice".into()) }
		}
		let rest = &r.b[r.i..];
		let end = rest.windows(END_INV.len()).position(|w| w == END_INV).ok_or("no EndInventory")?;
		e.inv = r.take(end + END_INV.len())?.to_vec();
		// MapEditr looks for the bytes anywhere; Minetest wants a whole line.
		if end > 0 && rest[end - 1] != b'\n' { grey.push("EndInventory inside a line".into()) }
		if pos >= 4096 { return Err("metadata position".into()) }
		if m.insert(pos, e).is_some() { grey.push("metadata position twice".into()) }
	}
	Ok(m)
}

// ------------------------------------------------------------------ writing
#[derive(Clone, Debug)]
pub struct EncOpt { pub perm: u64, pub unused: Vec<Name>, pub gap: u8, pub level: i32 }
impl Default for EncOpt { fn default() -> Self { EncOpt { perm: 0, unused: vec![], gap: 0, level: 3 } } }

pub fn s16(o: &mut Vec<u8>, s: &[u8]) { o.extend_from_slice(&(s.len() as u16).to_be_bytes()); o.extend_from_slice(s) }
pub fn s32(o: &mut Vec<u8>, s: &[u8]) { o.extend_from_slice(&(s.len() as u32).to_be_bytes()); o.extend_from_slice(s) }

pub fn zlib(b: &[u8], level: i32) -> Vec<u8> {
	let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(level.clamp(0, 9) as u32));
	e.write_all(b).unwrap();
	e.finish().unwrap()
}

/// The parts of an encoded block, so that damage can be placed precisely.
pub struct Parts { pub version: u8, pub flags: u8, pub light: u16, pub ts: u32, pub nimap: Vec<u8>, pub widths: [u8; 2], pub nodes: Vec<u8>, pub meta: Vec<u8>, pub objs: Vec<u8>, pub timers: Vec<u8>, pub level: i32, pub tail: Vec<u8> }

pub fn parts(b: &Block, opt: &EncOpt) -> Parts {
	let mut names: Vec<(usize, Name)> = b.names.iter().cloned().enumerate().collect();
	let base = names.len();
	for (i, u) in opt.unused.iter().enumerate() {
		if !b.names.contains(u) { names.push((base + i, u.clone())) }
	}
	if opt.perm != 0 { Rng::new(opt.perm).shuffle(&mut names) }
	let mut id_of = HashMap::new();
	let mut nimap = vec![0u8];
	nimap.extend_from_slice(&(names.len() as u16).to_be_bytes());
	let mut next = 0u16;
	for (k, (idx, n)) in names.iter().enumerate() {
		match opt.gap {
			1 if k % 2 == 1 => next += 3,
			// the highest id a mapblock can hold, on the last name or on half of them
			2 if k + 1 == names.len() => next = next.max(4095),
			3 if k == names.len() / 2 => next = next.max((4096 - names.len() + k) as u16),
			_ => {}
		}
		id_of.insert(*idx, next);
		nimap.extend_from_slice(&next.to_be_bytes());
		s16(&mut nimap, n);
		next += 1;
	}
	let mut nd = Vec::with_capacity(16384);
	let mut table = vec![None; 65536];
	for (k, v) in &id_of { if *k < 65536 { table[*k] = Some(*v) } }
	for &n in &b.nodes { nd.extend_from_slice(&table[n as usize].unwrap().to_be_bytes()) }
	nd.extend_from_slice(&b.p1);
	nd.extend_from_slice(&b.p2);
	let mut meta = vec![];
	if b.meta.is_empty() { meta.push(0) } else {
		let mv = if b.version >= 28 { 2 } else { 1 };
		meta.push(mv);
		meta.extend_from_slice(&(b.meta.len() as u16).to_be_bytes());
		for (p, m) in &b.meta {
			meta.extend_from_slice(&p.to_be_bytes());
			meta.extend_from_slice(&(m.vars.len() as u32).to_be_bytes());
			for (k, (v, pr)) in &m.vars {
				s16(&mut meta, k);
				s32(&mut meta, v);
				if mv >= 2 { meta.push(*pr as u8) }
			}
			meta.extend_from_slice(&m.inv);
		}
	}
	let mut objs = vec![0u8];
	objs.extend_from_slice(&(b.objs.len() as u16).to_be_bytes());
	for o in &b.objs {
		objs.push(o.kind);
		for c in o.pos { objs.extend_from_slice(&c.to_be_bytes()) }
		s16(&mut objs, &o.data);
	}
	let mut timers = vec![10u8];
	timers.extend_from_slice(&(b.timers.len() as u16).to_be_bytes());
	for t in &b.timers {
		timers.extend_from_slice(&t.0.to_be_bytes());
		timers.extend_from_slice(&t.1.to_be_bytes());
		timers.extend_from_slice(&t.2.to_be_bytes());
	}
	Parts { version: b.version, flags: b.flags, light: b.light, ts: b.ts, nimap, widths: [2, 2], nodes: nd, meta, objs, timers, level: opt.level, tail: vec![] }
}

impl Parts {
	pub fn join(&self) -> Vec<u8> {
		let mut o = vec![self.version];
		if self.version >= 29 {
			let mut i = vec![self.flags];
			i.extend_from_slice(&self.light.to_be_bytes());
			i.extend_from_slice(&self.ts.to_be_bytes());
			i.extend_from_slice(&self.nimap);
			i.extend_from_slice(&self.widths);
			i.extend_from_slice(&self.nodes);
			i.extend_from_slice(&self.meta);
			i.extend_from_slice(&self.objs);
			i.extend_from_slice(&self.timers);
			i.extend_from_slice(&self.tail);
			o.extend_from_slice(&zstd::stream::encode_all(&i[..], self.level).unwrap());
		} else {
			o.push(self.flags);
			if self.version >= 27 { o.extend_from_slice(&self.light.to_be_bytes()) }
			o.extend_from_slice(&self.widths);
			o.extend_from_slice(&zlib(&self.nodes, self.level));
			o.extend_from_slice(&zlib(&self.meta, self.level));
			o.extend_from_slice(&self.objs);
			o.extend_from_slice(&self.ts.to_be_bytes());
			o.extend_from_slice(&self.nimap);
			o.extend_from_slice(&self.timers);
			o.extend_from_slice(&self.tail);
		}
		o
	}
}

pub fn encode(b: &Block, opt: &EncOpt) -> Vec<u8> { parts(b, opt).join() }

// ------------------------------------------------------------- coordinates
pub fn key_of(p: [i32; 3]) -> i64 { p[0] as i64 + p[1] as i64 * 4096 + p[2] as i64 * 16777216 }
pub fn pos_of(key: i64) -> [i32; 3] {
	// inverse by rounding to the nearest multiple
	let z = (key + 2048 * 4096 + 2048).div_euclid(16777216);
	let r = key - z * 16777216;
	let y = (r + 2048).div_euclid(4096);
	[(r - y * 4096) as i32, y as i32, z as i32]
}
