//! Reference model of every command, at the level of single nodes. It shares
//! nothing with MapEditr's code: selections are decided per node position.
use crate::codec::*;
use crate::disk::Rows;
use std::collections::{BTreeMap, BTreeSet};

pub type P3 = [i32; 3];

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Cmd {
	pub name: String,
	pub area: Option<(P3, P3)>,
	pub invert: bool,
	pub offset: Option<P3>,
	pub node: Option<String>,
	pub nodes: Vec<String>,
	pub new_node: Option<String>,
	pub object: Option<String>,
	pub items: Option<Vec<String>>,
	pub item: Option<String>,
	pub new_item: Option<String>,
	pub delete: bool,
	pub delete_meta: bool,
	pub key: Option<String>,
	pub value: Option<String>,
	pub param2: Option<u8>,
	/// full argument list after the map path, instead of the fields above
	pub raw: Option<Vec<String>>,
}

impl Cmd {
	pub fn args(&self, yes: bool, map: &str, input: &str) -> Vec<String> {
		let mut a: Vec<String> = vec![];
		if yes { a.push("-y".into()) }
		a.push(map.into());
		if let Some(r) = &self.raw { a.extend(r.iter().map(|s| if s == "@INPUT" { input.to_string() } else { s.clone() })); return a }
		a.push(self.name.clone());
		let mut pos = |o: &Option<String>| if let Some(s) = o { a.push(s.clone()) };
		match self.name.as_str() {
			"replacenodes" => { pos(&self.node); pos(&self.new_node) }
			"fill" => pos(&self.new_node),
			"replaceininv" => { pos(&self.item); pos(&self.new_item) }
			"setmetavar" => { pos(&self.key); pos(&self.value) }
			"setparam2" => pos(&self.param2.map(|v| v.to_string())),
			"overlay" => pos(&Some(input.to_string())),
			_ => {}
		}
		if let Some((p, q)) = self.area {
			for (n, v) in [("--p1", p), ("--p2", q)] { a.push(n.into()); a.extend(v.iter().map(|c| c.to_string())) }
		}
		if self.invert { a.push("--invert".into()) }
		if let Some(o) = self.offset { a.push("--offset".into()); a.extend(o.iter().map(|c| c.to_string())) }
		if self.delete { a.push("--delete".into()) }
		if self.delete_meta { a.push("--deletemeta".into()) }
		if !matches!(self.name.as_str(), "replacenodes") { if let Some(n) = &self.node { a.push("--node".into()); a.push(n.clone()) } }
		if let Some(o) = &self.object { a.push("--obj".into()); a.push(o.clone()) }
		if let Some(i) = &self.items { a.push("--items".into()); a.extend(i.iter().cloned()) }
		if !self.nodes.is_empty() { a.push("--nodes".into()); a.extend(self.nodes.iter().cloned()) }
		a
	}
	fn bounds(&self) -> Option<(P3, P3)> {
		self.area.map(|(a, b)| {
			let mut lo = a; let mut hi = a;
			for i in 0..3 { lo[i] = a[i].min(b[i]); hi[i] = a[i].max(b[i]) }
			(lo, hi)
		})
	}
}

pub fn inside(b: &(P3, P3), p: P3) -> bool { (0..3).all(|i| b.0[i] <= p[i] && p[i] <= b.1[i]) }

/// What may be stored under a key after a command that reported Done.
#[derive(Clone, Debug)]
pub enum Expect {
	Absent,
	Bytes(Vec<u8>),          // exactly these bytes (the block is outside the selection)
	Sem(Block),              // this meaning
	SemSrc(Block, Block),    // this content; fields the manual leaves open from either block
	OneOf(Vec<Vec<u8>>),     // byte-wise one of these (or the same meaning)
	Any,                     // data of doubtful validity: anything
}

pub struct Model {
	pub expect: BTreeMap<i64, Expect>,
	/// reported figures, as inclusive ranges
	pub counts: Vec<(u64, u64)>,
	pub skipped: (u64, u64),
	/// keys whose content could not be taken for granted
	pub grey: BTreeSet<i64>,
	/// keys whose content changes
	pub touched: u64,
}

enum Sel { None, All, Part(Vec<bool>) }

/// Which of the 4096 nodes of a block are selected.
fn select(key: i64, b: &Option<(P3, P3)>, invert: bool) -> Sel {
	let b = match b { None => return Sel::All, Some(b) => b };
	let p = pos_of(key);
	let lo = [p[0] * 16, p[1] * 16, p[2] * 16];
	let hi = [lo[0] + 15, lo[1] + 15, lo[2] + 15];
	let full = inside(b, lo) && inside(b, hi);
	let apart = (0..3).any(|i| hi[i] < b.0[i] || lo[i] > b.1[i]);
	if full { return if invert { Sel::None } else { Sel::All } }
	if apart { return if invert { Sel::All } else { Sel::None } }
	Sel::Part((0..4096).map(|i| inside(b, [lo[0] + (i & 15), lo[1] + (i >> 4 & 15), lo[2] + (i >> 8)]) != invert).collect())
}
impl Sel {
	fn has(&self, i: usize) -> bool { match self { Sel::None => false, Sel::All => true, Sel::Part(v) => v[i] } }
	fn none(&self) -> bool { match self { Sel::None => true, Sel::All => false, Sel::Part(v) => !v.iter().any(|x| *x) } }
	fn all(&self) -> bool { matches!(self, Sel::All) }
}

fn contains(h: &[u8], n: &[u8]) -> bool { n.is_empty() || h.windows(n.len()).any(|w| w == n) }

/// Damaged block in the selection: must it be reported as skipped?
fn must_report(data: &[u8], search: &[Vec<u8>]) -> bool {
	match data.first() {
		None => true,
		Some(&v) if v <= 28 && !search.is_empty() => search.iter().any(|s| { let mut t = vec![]; s16(&mut t, s); contains(data, &t) }),
		_ => true,
	}
}

pub fn in_block(key: i64, o: &Obj) -> bool {
	let p = pos_of(key);
	(0..3).all(|i| { let n = round_pos(o.pos[i]); n.div_euclid(16) == p[i] as i64 })
}
/// Object coordinates are in 1/1000 nodes times BS (10): nearest node.
fn round_pos(v: i32) -> i64 { (v as i64 + 5000).div_euclid(10000) }

pub enum Decoded { Good(Block), Grey, Corrupt }
pub fn decode(key: i64, d: &[u8]) -> Decoded {
	match parse(d) {
		Parsed::Good(b) => if b.objs.iter().all(|o| in_block(key, o)) { Decoded::Good(b.canon()) } else { Decoded::Grey },
		Parsed::Grey(_) => Decoded::Grey,
		Parsed::Corrupt(_) => Decoded::Corrupt,
	}
}

pub fn lua_entity(o: &Obj) -> Option<(Vec<u8>, Vec<u8>)> {
	if o.kind != 7 || o.data.len() < 3 || o.data[0] != 1 { return None }
	let n = u16::from_be_bytes([o.data[1], o.data[2]]) as usize;
	let name = o.data.get(3..3 + n)?.to_vec();
	let r = &o.data[3 + n..];
	let l = u32::from_be_bytes(r.get(..4)?.try_into().ok()?) as usize;
	Some((name, r.get(4..4 + l)?.to_vec()))
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }
fn item_name(d: &[u8]) -> Vec<u8> {
	if !d.starts_with(b"return") { return d.to_vec() }
	let pats: [&[u8]; 2] = [b"itemstring=\"", b"[\"itemstring\"] = \""];
	for p in pats {
		if let Some(i) = find(d, p) {
			return d[i + p.len()..].iter().take_while(|c| **c != b' ' && **c != b'"').cloned().collect()
		}
	}
	vec![]
}

/// Inventory text after replaceininv, and the number of stacks affected.
pub fn inv_replace(inv: &[u8], item: &[u8], new: Option<&[u8]>, delete: bool, delmeta: bool) -> (Vec<u8>, u64) {
	let mut out = vec![];
	let mut n = 0;
	for line in inv.split_inclusive(|c| *c == b'\n') {
		let body = line.strip_suffix(b"\n").unwrap_or(line);
		let w: Vec<&[u8]> = body.splitn(5, |c| *c == b' ').collect();
		if w.len() >= 2 && w[0] == b"Item" && w[1] == item {
			n += 1;
			if delete { out.extend_from_slice(b"Empty") } else {
				out.extend_from_slice(b"Item ");
				out.extend_from_slice(new.unwrap_or(item));
				let parts: Vec<&[u8]> = if delmeta { w.iter().skip(2).take(2).cloned().collect() } else { w[2..].to_vec() };
				for p in parts { out.push(b' '); out.extend_from_slice(p) }
			}
			out.push(b'\n');
		} else { out.extend_from_slice(line) }
	}
	(if n > 0 { out } else { inv.to_vec() }, n)
}

/// Inventories compared by meaning: default count 1 and wear 0 may be left out.
pub fn inv_norm(inv: &[u8]) -> Vec<u8> {
	let mut o = vec![];
	for line in inv.split(|c| *c == b'\n') {
		let w: Vec<&[u8]> = line.splitn(5, |c| *c == b' ').collect();
		if w.len() >= 2 && w[0] == b"Item" {
			let c = *w.get(2).unwrap_or(&&b"1"[..]);
			let r = *w.get(3).unwrap_or(&&b"0"[..]);
			o.extend_from_slice(b"Item ");
			o.extend_from_slice(w[1]);
			o.push(b' '); o.extend_from_slice(c);
			o.push(b' '); o.extend_from_slice(r);
			if let Some(m) = w.get(4) { o.push(b' '); o.extend_from_slice(m) }
		} else { o.extend_from_slice(line) }
		o.push(b'\n');
	}
	o
}
pub fn norm_invs(mut b: Block) -> Block {
	for m in b.meta.values_mut() { m.inv = inv_norm(&m.inv) }
	b
}

pub fn is_overlay_offset(c: &Cmd) -> bool { c.name == "overlay" && c.offset.map_or(false, |o| o != [0, 0, 0]) }

pub fn apply(c: &Cmd, rows: &Rows, irows: &Rows) -> Model {
	let mut m = Model { expect: BTreeMap::new(), counts: vec![], skipped: (0, 0), grey: BTreeSet::new(), touched: 0 };
	let b = c.bounds();
	let sb = |o: &Option<String>| o.as_ref().map(|s| s.as_bytes().to_vec());
	for (k, d) in rows { m.expect.insert(*k, Expect::Bytes(d.clone())); }
	match c.name.as_str() {
		"vacuum" => {}
		"deleteblocks" => for k in rows.keys() {
			let b = b.unwrap();
			let p = pos_of(*k);
			let lo = [p[0] * 16, p[1] * 16, p[2] * 16];
			let hi = [lo[0] + 15, lo[1] + 15, lo[2] + 15];
			let inn = inside(&b, lo) && inside(&b, hi);
			let out = (0..3).any(|i| hi[i] < b.0[i] || lo[i] > b.1[i]);
			if if c.invert { out } else { inn } { m.expect.insert(*k, Expect::Absent); m.touched += 1 }
		},
		"clone" => shift_copy(&mut m, rows, rows, b, c.offset.unwrap()),
		"overlay" if is_overlay_offset(c) => shift_copy(&mut m, rows, irows, b, c.offset.unwrap()),
		"overlay" => overlay(&mut m, rows, irows, &b, c.invert),
		_ => {
			let search: Vec<Vec<u8>> = match c.name.as_str() {
				"replacenodes" | "deletemeta" | "deletetimers" | "setparam2" => sb(&c.node).into_iter().collect(),
				"replaceininv" | "setmetavar" => c.nodes.iter().map(|s| s.as_bytes().to_vec()).collect(),
				"deleteobjects" => if c.items.is_some() { vec![b"__builtin:item".to_vec()] } else { sb(&c.object).into_iter().collect() },
				_ => vec![],
			};
			let nc = if c.name == "replaceininv" { 2 } else { 1 };
			m.counts = vec![(0, 0); nc];
			for (k, d) in rows {
				let sel = select(*k, &b, c.invert);
				if sel.none() { continue }
				match decode(*k, d) {
					Decoded::Corrupt => {
						m.skipped.1 += 1;
						if must_report(d, &search) { m.skipped.0 += 1 }
					}
					Decoded::Grey => {
						m.grey.insert(*k);
						m.expect.insert(*k, Expect::Any);
						m.skipped.1 += 1;
						for x in &mut m.counts { x.1 += 100_000 }
					}
					Decoded::Good(mut bl) => {
						let orig = bl.clone();
						edit(c, *k, &mut bl, &sel, &mut m.counts);
						let bl = bl.canon();
						if bl != orig { m.touched += 1 }
						m.expect.insert(*k, Expect::Sem(bl));
					}
				}
			}
		}
	}
	m
}

fn edit(c: &Cmd, key: i64, b: &mut Block, sel: &Sel, counts: &mut Vec<(u64, u64)>) {
	let id = |b: &Block, n: &str| b.names.iter().position(|x| x == n.as_bytes()).map(|x| x as u16);
	let mut add = |i: usize, n: u64| { counts[i].0 += n; counts[i].1 += n };
	match c.name.as_str() {
		"fill" => {
			if !b.generated() { return }
			let n = b.id_for(c.new_node.as_ref().unwrap().as_bytes());
			for i in 0..4096 { if sel.has(i) { b.nodes[i] = n; add(0, 1) } }
		}
		"replacenodes" => {
			if let Some(o) = id(b, c.node.as_ref().unwrap()) {
				let n = b.id_for(c.new_node.as_ref().unwrap().as_bytes());
				for i in 0..4096 { if sel.has(i) && b.nodes[i] == o { b.nodes[i] = n; add(0, 1) } }
			}
		}
		"setparam2" => {
			let o = match &c.node { None => None, Some(n) => match id(b, n) { None => return, x => x } };
			for i in 0..4096 {
				if sel.has(i) && o.map_or(true, |o| b.nodes[i] == o) { b.p2[i] = c.param2.unwrap(); add(0, 1) }
			}
		}
		"deletemeta" => {
			let o = match &c.node { None => None, Some(n) => match id(b, n) { None => return, x => x } };
			let nodes = &b.nodes;
			let n0 = b.meta.len();
			b.meta.retain(|p, _| !(sel.has(*p as usize) && o.map_or(true, |o| nodes[*p as usize] == o)));
			add(0, (n0 - b.meta.len()) as u64);
		}
		"setmetavar" | "replaceininv" => {
			let ids: Vec<u16> = c.nodes.iter().filter_map(|n| id(b, n)).collect();
			if !c.nodes.is_empty() && ids.is_empty() { return }
			for (p, me) in b.meta.iter_mut() {
				if !sel.has(*p as usize) || !(c.nodes.is_empty() || ids.contains(&b.nodes[*p as usize])) { continue }
				if c.name == "setmetavar" {
					let k = c.key.as_ref().unwrap().as_bytes();
					if let Some(v) = me.vars.get_mut(k) {
						if c.delete { me.vars.remove(k); } else { v.0 = c.value.as_ref().unwrap().as_bytes().to_vec() }
						add(0, 1);
					}
				} else {
					let (inv, n) = inv_replace(&me.inv, c.item.as_ref().unwrap().as_bytes(), c.new_item.as_ref().map(|s| s.as_bytes()), c.delete, c.delete_meta);
					me.inv = inv;
					add(0, n);
					if n > 0 { add(1, 1) }
				}
			}
		}
		"deleteobjects" => {
			let bb = c.bounds();
			let n0 = b.objs.len();
			b.objs.retain(|o| {
				if let Some(bb) = &bb {
					let r = [round_pos(o.pos[0]), round_pos(o.pos[1]), round_pos(o.pos[2])];
					let inn = (0..3).all(|i| bb.0[i] as i64 <= r[i] && r[i] <= bb.1[i] as i64);
					if inn == c.invert { return true }
				}
				if let Some(items) = &c.items {
					return match lua_entity(o) {
						Some((n, d)) if n == b"__builtin:item" => !(items.is_empty() || items.iter().any(|i| i.as_bytes() == &item_name(&d)[..])),
						_ => true,
					}
				}
				if let Some(name) = &c.object { return lua_entity(o).map_or(true, |(n, _)| n != name.as_bytes()) }
				false
			});
			add(0, (n0 - b.objs.len()) as u64);
		}
		"deletetimers" => {
			let o = match &c.node { None => None, Some(n) => match id(b, n) { None => return, x => x } };
			let nodes = &b.nodes;
			let n0 = b.timers.len();
			b.timers.retain(|t| !(sel.has(t.0 as usize) && o.map_or(true, |o| nodes[t.0 as usize] == o)));
			add(0, (n0 - b.timers.len()) as u64);
		}
		x => panic!("model: unknown command {x} for block {key}"),
	}
}

/// clone, and overlay with an offset.
fn shift_copy(m: &mut Model, rows: &Rows, src: &Rows, b: Option<(P3, P3)>, off: P3) {
	let mut cache: BTreeMap<i64, Option<Block>> = BTreeMap::new();
	let mut greysrc: BTreeSet<i64> = BTreeSet::new();
	for (k, d) in src {
		match decode(*k, d) {
			Decoded::Good(bl) => { cache.insert(*k, if bl.generated() { Some(bl) } else { None }); }
			Decoded::Grey => { greysrc.insert(*k); }
			Decoded::Corrupt => {}
		}
	}
	let dstb = b.map(|(lo, hi)| ([lo[0] + off[0], lo[1] + off[1], lo[2] + off[2]], [hi[0] + off[0], hi[1] + off[1], hi[2] + off[2]]));
	for (k, d) in rows {
		let sel = select(*k, &dstb, false);
		if sel.none() { continue }
		let mut bl = match decode(*k, d) {
			Decoded::Corrupt => {
				m.skipped.1 += 1;
				if header_generated(d) == Some(true) { m.skipped.0 += 1 }
				continue
			}
			Decoded::Grey => { m.grey.insert(*k); m.expect.insert(*k, Expect::Any); m.skipped.1 += 1; continue }
			Decoded::Good(b) => b,
		};
		if !bl.generated() { m.expect.insert(*k, Expect::Sem(bl)); continue }
		let orig = bl.clone();
		let p = pos_of(*k);
		let mut fuzzy = false;
		for i in 0..4096usize {
			if !sel.has(i) { continue }
			let a = [p[0] * 16 + (i & 15) as i32 - off[0], p[1] * 16 + (i >> 4 & 15) as i32 - off[1], p[2] * 16 + (i >> 8) as i32 - off[2]];
			let sp = [a[0].div_euclid(16), a[1].div_euclid(16), a[2].div_euclid(16)];
			let sk = key_of(sp);
			if greysrc.contains(&sk) { fuzzy = true; break }
			if let Some(Some(s)) = cache.get(&sk) {
				let si = (a[0] - sp[0] * 16 + (a[1] - sp[1] * 16) * 16 + (a[2] - sp[2] * 16) * 256) as usize;
				let n = bl.id_for(s.name_at(si));
				bl.nodes[i] = n;
				bl.p1[i] = s.p1[si];
				bl.p2[i] = s.p2[si];
				bl.meta.remove(&(i as u16));
				if let Some(me) = s.meta.get(&(si as u16)) {
					let mut me = me.clone();
					strip_private(&mut me, bl.version);
					bl.meta.insert(i as u16, me);
				}
			}
		}
		if fuzzy { m.grey.insert(*k); m.expect.insert(*k, Expect::Any); continue }
		let bl = bl.canon();
		if bl != orig { m.touched += 1 }
		m.expect.insert(*k, Expect::Sem(bl));
	}
}

/// Formats before 28 cannot store private flags.
fn strip_private(m: &mut Meta, version: u8) {
	if version < 28 { for v in m.vars.values_mut() { v.1 = false } }
}

fn overlay(m: &mut Model, rows: &Rows, src: &Rows, b: &Option<(P3, P3)>, invert: bool) {
	for (k, sd) in src {
		let sel = select(*k, b, invert);
		if sel.none() { continue }
		if sel.all() {
			let old = rows.get(k);
			match (decode(*k, sd), header_generated(sd)) {
				(Decoded::Good(s), _) => if s.generated() {
					if old != Some(sd) { m.touched += 1 }
					m.expect.insert(*k, Expect::OneOf(vec![sd.clone()]));
				} else if let Some(o) = old { m.expect.insert(*k, Expect::OneOf(vec![o.clone()])); },
				(Decoded::Grey, _) => { m.grey.insert(*k); m.expect.insert(*k, Expect::Any); m.skipped.1 += 1 }
				(Decoded::Corrupt, h) => {
					// a wholesale copy does not look inside; refusing it is fine, too
					m.skipped.1 += 1;
					if h == Some(true) || (h.is_none() && sd.len() >= 2 && sd[0] == 29) {
						if let Some(o) = old { m.expect.insert(*k, Expect::OneOf(vec![o.clone(), sd.clone()])); }
						else { m.expect.insert(*k, Expect::Any); }
						m.grey.insert(*k);
					}
				}
			}
			continue
		}
		let dd = match rows.get(k) { None => continue, Some(d) => d };
		match (decode(*k, sd), decode(*k, dd)) {
			(Decoded::Corrupt, Decoded::Corrupt) | (Decoded::Corrupt, Decoded::Good(_)) | (Decoded::Good(_), Decoded::Corrupt) => {
				m.skipped.1 += 1;
				if header_generated(sd) == Some(true) && header_generated(dd) == Some(true) { m.skipped.0 += 1 }
			}
			(Decoded::Grey, _) | (_, Decoded::Grey) => { m.grey.insert(*k); m.expect.insert(*k, Expect::Any); m.skipped.1 += 1 }
			(Decoded::Good(s), Decoded::Good(d)) => {
				if !s.generated() || !d.generated() { m.expect.insert(*k, Expect::Sem(d)); continue }
				let mut r = d.clone();
				for i in 0..4096 {
					if !sel.has(i) { continue }
					let n = r.id_for(s.name_at(i));
					r.nodes[i] = n;
					r.p1[i] = s.p1[i];
					r.p2[i] = s.p2[i];
					r.meta.remove(&(i as u16));
					if let Some(me) = s.meta.get(&(i as u16)) { r.meta.insert(i as u16, me.clone()); }
				}
				m.touched += 1;
				m.expect.insert(*k, Expect::SemSrc(r.canon(), s));
			}
		}
	}
}

/// Compares an actual map with the model. Returns (class, text) per mismatch.
pub fn compare(m: &Model, rows: &Rows, after: &Rows) -> Vec<(&'static str, i64, String)> {
	let mut v = vec![];
	let keys: BTreeSet<i64> = m.expect.keys().chain(after.keys()).chain(rows.keys()).cloned().collect();
	for k in keys {
		let got = after.get(&k);
		let pre = format!("mapblock {:?} (key {k})", pos_of(k));
		match m.expect.get(&k) {
			Some(Expect::Any) => {}
			None | Some(Expect::Absent) => if got.is_some() {
				v.push((if rows.contains_key(&k) { "not-deleted" } else { "created" }, k, format!("{pre} exists but should not")))
			},
			Some(e) => {
				let g = match got { None => { v.push(("missing", k, format!("{pre} is gone"))); continue } Some(g) => g };
				match e {
					Expect::Bytes(b) => if g != b {
						v.push(("bytes", k, format!("{pre} was rewritten or changed although it is outside the selection or unreadable ({} bytes instead of {}){}", g.len(), b.len(), bytes_diff(k, b, g))))
					},
					Expect::OneOf(l) => if !l.iter().any(|b| same_meaning(b, g)) {
						v.push(("content", k, format!("{pre} is not the expected copy{}", bytes_diff(k, &l[0], g))))
					},
					Expect::Sem(b) => sem(&pre, k, b, None, g, &mut v),
					Expect::SemSrc(b, s) => sem(&pre, k, b, Some(s), g, &mut v),
					_ => {}
				}
			}
		}
	}
	v
}

fn sem(pre: &str, k: i64, want: &Block, alt: Option<&Block>, got: &[u8], v: &mut Vec<(&'static str, i64, String)>) {
	let g = match parse(got) {
		Parsed::Good(g) => g,
		Parsed::Grey(e) | Parsed::Corrupt(e) => { v.push(("malformed", k, format!("{pre} is not a well-formed mapblock: {e}"))); return }
	};
	let g = norm_invs(g.canon());
	let mut w = norm_invs(want.clone());
	if let Some(a) = alt {
		if g.version == a.version { w.version = a.version }
		if g.flags == a.flags { w.flags = a.flags }
		if g.light == a.light { w.light = a.light }
		if g.ts == a.ts { w.ts = a.ts }
		if g.objs == a.objs { w.objs = a.objs.clone() }
		if g.timers == a.timers { w.timers = a.timers.clone() }
		if w.version < 28 { for m in w.meta.values_mut() { strip_private(m, w.version) } }
	}
	for (f, t) in w.diff(&g) { v.push((f, k, format!("{pre}: {t}"))) }
}

fn bytes_diff(k: i64, want: &[u8], got: &[u8]) -> String {
	let _ = k;
	match (parse(want), parse(got)) {
		(Parsed::Good(a), Parsed::Good(b)) => a.canon().diff(&b.canon()).first().map_or("; same meaning".into(), |x| format!("; {}", x.1)),
		(Parsed::Good(_), _) => "; no longer a well-formed mapblock".into(),
		_ => String::new(),
	}
}

pub fn same_meaning(a: &[u8], b: &[u8]) -> bool {
	if a == b { return true }
	match (loose(a), loose(b)) { (Some(x), Some(y)) => x.canon() == y.canon(), _ => false }
}
pub fn same_rows(a: &Rows, b: &Rows) -> bool {
	a.len() == b.len() && a.iter().zip(b).all(|((k, d), (l, e))| k == l && same_meaning(d, e))
}
