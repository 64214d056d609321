//! Seeded generators: maps, commands, environments, faults.
use crate::codec::*;
use crate::disk::*;
use crate::model::*;
use crate::rng::Rng;
use crate::sim::*;
use std::collections::BTreeMap;

pub const NAMES: [&str; 12] = ["air", "default:stone", "default:dirt", "default:chest", "default:furnace", "default:sign_wall", "default:stone_block", "default:ston", "mymod:x1", "mymod:lamp_on", "a:b", "ignore"];
pub const ITEMS: [&str; 6] = ["default:stone", "default:pick", "default:stone_block", "tools:axe", "mymod:x1", "default:ston"];
pub const ENTS: [&str; 4] = ["__builtin:item", "mobs:cow", "mobs:cow2", "boats:boat"];
pub const VARS: [&str; 5] = ["infotext", "formspec", "owner", "text", "secret"];

#[derive(Clone, Copy)]
pub struct WorldCfg { pub max_blocks: usize, pub meta: u64, pub objs: u64, pub timers: u64, pub big_meta: u64, pub one_var: bool, pub ungenerated: u64, pub odd_palette: u64 }
impl Default for WorldCfg { fn default() -> Self { WorldCfg { max_blocks: 14, meta: 50, objs: 40, timers: 30, big_meta: 2, one_var: false, ungenerated: 10, odd_palette: 12 } } }

pub fn inv(r: &mut Rng) -> Vec<u8> {
	if r.chance(30) { return END_INV.to_vec() }
	let mut o = vec![];
	let many = r.chance(4);
	for l in 0..if many { 2 + r.below(4) } else { 1 + r.below(2) } {
		let n = if many { 20 + r.below(80) } else { r.below(7) };
		let list = if r.chance(8) { ["", "Item", "my_list", "list:with:colon", "Empty", "EndInventoryList", "default:stone"][r.usize(7)] } else { ["main", "fuel", "src", "dst", "craft"][l as usize] };
		let width = if r.chance(10) { r.below(40) } else { r.below(4) };
		o.extend_from_slice(format!("List {list} {n}\nWidth {width}\n").as_bytes());
		for _ in 0..n {
			if r.chance(25) { o.extend_from_slice(b"Empty\n"); continue }
			o.extend_from_slice(b"Item ");
			o.extend_from_slice(r.pick(&ITEMS).as_bytes());
			let d = r.below(4);
			if d >= 1 { o.extend_from_slice(format!(" {}", if d > 1 && r.chance(40) { 1 } else { 2 + r.below(98) }).as_bytes()) }
			if d >= 2 { o.extend_from_slice(format!(" {}", if d > 2 && r.chance(40) { 0 } else { 1 + r.below(65535) }).as_bytes()) }
			if d >= 3 {
				let m: &[u8] = [&b"\x01desc\x02a b c\x03"[..], b"\"return { 1 }\"", b"\x01k\x02Item default:stone 5\x03", b"x", b"\x01color\x02#FF00FF\x03 tail  end"][r.usize(5)];
				o.push(b' ');
				o.extend_from_slice(m);
			}
			o.push(b'\n');
		}
		o.extend_from_slice(b"EndInventoryList\n");
	}
	o.extend_from_slice(END_INV);
	o
}

pub fn text(r: &mut Rng, max: usize) -> Vec<u8> {
	let n = r.usize(max + 1);
	if r.chance(15) { return r.bytes(n) }
	(0..n).map(|_| *r.pick(b"abcdefghij XYZ0123456789_:;[]{}\"\\\n\x01\x02\xc3\xa9")).collect()
}

fn entity(r: &mut Rng) -> (u8, Vec<u8>) {
	if r.chance(10) { let n = r.usize(30); return ([5u8, 0, 100][r.usize(3)], r.bytes(n)) }
	let mut d = vec![if r.chance(8) { *r.pick(&[0u8, 0, 2, 3, 255]) } else { 1 }];
	let name = *r.pick(&ENTS);
	s16(&mut d, name.as_bytes());
	let it = *r.pick(&ITEMS);
	let mut cnt = if r.chance(50) { String::new() } else { format!(" {}", 1 + r.below(99)) };
	if !cnt.is_empty() && r.chance(30) {
		cnt.push_str(&format!(" {}", r.below(65536)));
		if r.chance(50) { cnt.push_str(" \\u0001desc\\u0002a b\\u0003") }
	}
	let data = if name == "__builtin:item" {
		match r.below(7) {
			0 => it.to_string(),
			1 => format!("return {{[\"itemstring\"] = \"{it}{cnt}\", [\"age\"] = 100}}"),
			2 => format!("return {{[\"age\"] = 4.5, [\"itemstring\"] = \"{it}{cnt}\"}}"),
			3 => format!("return {{itemstring=\"{it}{cnt}\",age=7}}"),
			4 => format!("return {{age=400,itemstring=\"{it}{cnt}\"}}"),
			5 => "return {}".to_string(),
			_ => format!("return {{[\"itemstring\"] = \"\", [\"note\"] = \"{it}\"}}"),
		}
	} else if r.chance(20) { format!("return {{itemstring=\"{it}\"}}") } else { format!("state {}", r.below(1000)) };
	s32(&mut d, data.as_bytes());
	let n = if r.chance(1) { 30_000 + r.usize(35_000) - d.len() } else { r.usize(24) };
	d.extend_from_slice(&r.bytes(n));
	// the same data under another type of object
	(if r.chance(3) { [5u8, 0, 6, 8, 100, 255][r.usize(6)] } else { 7 }, d)
}

pub fn block(r: &mut Rng, pos: P3, cfg: &WorldCfg, ver_bias: u8) -> (Block, EncOpt) {
	let version = if r.chance(75) { ver_bias } else { [25, 27, 28, 28, 29, 29, 29, 26][r.usize(8)] };
	let mut flags = [0u8, 1, 2, 4, 6, 3][r.usize(6)];
	if r.chance(8) { flags |= (r.below(256) as u8) & 0xf7 }
	if r.chance(cfg.ungenerated) { flags |= 8 }
	let odd = r.chance(cfg.odd_palette);
	let mut names: Vec<Name> = vec![];
	let k = if odd && r.chance(8) { 1500 + r.usize(2597) } else { 1 + r.usize(if odd { 120 } else { 6 }) };
	for i in 0..k {
		let n = if i < 7 || !odd { r.pick(&NAMES).as_bytes().to_vec() } else { { let mut n = format!("mod{}:n_{}", i % 7, i); if k < 1000 && r.chance(2) { n.push_str(&"x".repeat(100 + r.usize(1000))) } n.into_bytes() } };
		if i >= 7 && odd || !names.contains(&n) { names.push(n) }
	}
	let k = names.len() as u64;
	let mut nodes = vec![0u16; 4096];
	match if k > 1000 { 4 } else { r.below(4) } {
		0 => {}
		4 => for i in 0..4096 { nodes[i] = (i as u64 % k) as u16 },
		1 => for i in 0..4096 { nodes[i] = ((i as u64 >> 8) * k / 16) as u16 },
		2 => { let mut q = r.fork(); for i in 0..4096 { if q.below(9) == 0 { nodes[i] = q.below(k) as u16 } } }
		_ => { let mut q = r.fork(); for n in nodes.iter_mut() { *n = q.below(k) as u16 } }
	}
	let fillp = |r: &mut Rng| -> Vec<u8> {
		match r.below(3) { 0 => vec![r.below(256) as u8; 4096], 1 => { let b = r.below(256) as u8; let s = 1 + r.below(50) as usize; (0..4096).map(|i| if i % s == 0 { b } else { 0 }).collect() } _ => r.bytes(4096) }
	};
	let p1 = fillp(r);
	let p2 = fillp(r);
	let mut meta = BTreeMap::new();
	if r.chance(cfg.meta) {
		let crowd = r.chance(1) && r.chance(40);
		for i in 0..if crowd { 1000 + r.below(3097) } else if r.chance(3) { 60 + r.below(300) } else { 1 + r.below(7) } {
			if crowd {
				meta.insert(((i * 1237) % 4096) as u16, Meta { vars: BTreeMap::from([(r.pick(&VARS).as_bytes().to_vec(), (format!("{i}").into_bytes(), false))]), inv: if r.chance(5) { inv(r) } else { END_INV.to_vec() } });
				continue;
			}
			let p = if r.chance(25) { [0u16, 15, 240, 3840, 4095][r.usize(5)] } else { r.below(4096) as u16 };
			let mut m = Meta { vars: BTreeMap::new(), inv: inv(r) };
			let lots = !cfg.one_var && r.chance(1);
			for _ in 0..if lots { 30 + r.below(300) } else { r.below(if cfg.one_var { 2 } else { 4 }) } {
				let key = if r.chance(if lots { 90 } else { 8 }) { text(r, 12) } else { r.pick(&VARS).as_bytes().to_vec() };
				let val = if r.chance(cfg.big_meta) { let n = if r.chance(15) { 120_000 + r.usize(300_000) } else { 3000 + r.usize(120_000) }; if r.chance(50) { r.bytes(n) } else { vec![b'q'; n] } } else { text(r, 40) };
				let private = version >= 28 && r.chance(25);
				m.vars.insert(key, (val, private));
				if cfg.one_var && m.vars.len() > 1 { m.vars.pop_first(); }
			}
			if m.vars.is_empty() && m.inv.starts_with(END_INV) { m.vars.insert(b"infotext".to_vec(), (b"hi".to_vec(), false)); }
			meta.insert(p, m);
		}
	}
	let mut objs = vec![];
	if r.chance(cfg.objs) {
		let crowd = r.chance(1) && r.chance(60);
		for _ in 0..if crowd { 900 + r.below(2500) } else if r.chance(3) { 50 + r.below(600) } else { 1 + r.below(6) } {
			let (kind, mut data) = entity(r);
			if crowd && data.len() > 300 { data.truncate(300) }
			let mut p = [0; 3];
			for a in 0..3 {
				let n = pos[a] * 16 + r.below(16) as i32;
				p[a] = n * 10000 + match r.below(5) { 0 => -5000, 1 => 4999, 2 => 0, _ => r.range(-5000, 4999) as i32 };
			}
			objs.push(Obj { kind, pos: p, data });
		}
	}
	let mut timers: Vec<(u16, u32, u32)> = vec![];
	if r.chance(cfg.timers) {
		let crowd = r.chance(1);
		for i in 0..if crowd { 900 + r.below(3197) } else if r.chance(3) { 100 + r.below(400) } else { 1 + r.below(6) } {
			let p = if crowd { (i * 1237 % 4096) as u16 } else { r.below(4096) as u16 };
			let (t, e) = (match r.below(5) { 0 => 0, 1 => r.next() as u32, _ => r.below(1 << 20) as u32 }, if r.chance(20) { 0 } else { r.next() as u32 });
			if crowd || !timers.iter().any(|t| t.0 == p) { timers.push((p, t, e)) }
		}
	}
	let light = if version >= 27 { r.below(65536) as u16 } else { 0xffff };
	let ts = match r.below(6) { 0 => 0, 1 => 0xffff_ffff, _ => r.next() as u32 };
	let b = Block { version, flags, light, ts, names, nodes, p1, p2, meta, objs, timers };
	let mut unused = vec![];
	if r.chance(15) { for _ in 0..1 + r.below(3) { let n = r.pick(&NAMES).as_bytes().to_vec(); if !unused.contains(&n) { unused.push(n) } } }
	let opt = EncOpt { perm: if r.chance(60) { 1 + r.below(1 << 40) } else { 0 }, unused, gap: if r.chance(12) && k < 1000 { [1, 1, 2, 3][r.usize(4)] } else { 0 }, level: if version >= 29 { 1 + r.below(5) as i32 } else { 1 + r.below(9) as i32 } };
	(b, opt)
}

#[derive(Clone, Debug)]
pub struct World { pub rows: Rows, pub base: P3, pub dim: P3 }

pub fn base_pos(r: &mut Rng) -> P3 {
	let mut p = [0; 3];
	match r.below(5) {
		0 => {}
		1 => for c in &mut p { *c = r.range(-2, 1) as i32 },
		2 => for c in &mut p { *c = r.range(-40, 40) as i32 },
		3 => for c in &mut p { *c = r.range(-1930, 1925) as i32 },
		_ => for c in &mut p { *c = *r.pick(&[-1937, -1, 0, -2, 1933, 1933, 127, -128]) },
	}
	p
}

pub fn world(r: &mut Rng, cfg: &WorldCfg) -> World {
	let base = base_pos(r);
	world_at(r, cfg, base)
}
pub fn world_at(r: &mut Rng, cfg: &WorldCfg, base: P3) -> World {
	let mut dim = [1; 3];
	let want = 1 + r.usize(cfg.max_blocks);
	for _ in 0..20 {
		let a = r.usize(3);
		if (dim[0] * dim[1] * dim[2]) as usize * (dim[a] as usize + 1) / dim[a] as usize <= want && dim[a] < 5 { dim[a] += 1 }
	}
	let mut rows = Rows::new();
	let bias = [28u8, 29, 29, 28, 25, 27][r.usize(6)];
	let hole = if r.chance(50) { 0 } else { 20 };
	for z in 0..dim[2] { for y in 0..dim[1] { for x in 0..dim[0] {
		if r.chance(hole) { continue }
		let p = [base[0] + x, base[1] + y, base[2] + z];
		let (b, o) = block(r, p, cfg, bias);
		rows.insert(key_of(p), encode(&b, &o));
	} } }
	if r.chance(25) {
		let p = base_pos(r);
		let (b, o) = block(r, p, cfg, bias);
		rows.entry(key_of(p)).or_insert_with(|| encode(&b, &o));
	}
	World { rows, base, dim }
}

pub fn dbopt(r: &mut Rng) -> DbOpt {
	DbOpt {
		page: *r.pick(&[4096u64, 4096, 4096, 1024, 512, 8192, 65536]),
		cache: if r.chance(35) { *r.pick(&[10u64, 12, 20, 40]) } else { 0 },
		shuffle: if r.chance(50) { 1 + r.below(1 << 30) } else { 0 },
		free: if r.chance(25) { 1 + r.below(12) } else { 0 },
		autovac: if r.chance(10) { 1 + r.below(2) } else { 0 },
		rowid: true,
		extra_table: r.chance(8),
		user: 0,
	}
}

/// An area near the world, often aligned to blocks.
pub fn area(r: &mut Rng, w: &World) -> (P3, P3) {
	let mut a = [0; 3];
	let mut b = [0; 3];
	let style = r.below(10);
	for i in 0..3 {
		let lo = w.base[i] * 16;
		let hi = (w.base[i] + w.dim[i]) * 16 - 1;
		let (mut p, mut q);
		match style {
			0 => { p = lo - 20; q = hi + 20 }
			1..=3 => { // block aligned
				let k = w.base[i] + r.range(-1, w.dim[i] as i64) as i32;
				let n = r.range(0, w.dim[i] as i64) as i32;
				p = k * 16; q = (k + n) * 16 + 15;
			}
			4 => { // off by one from alignment
				let k = w.base[i] + r.range(-1, w.dim[i] as i64) as i32;
				p = k * 16 + r.range(-1, 1) as i32; q = p + 15 + 16 * r.range(0, 1) as i32 + r.range(-1, 1) as i32;
			}
			5 => { p = lo + r.range(-2, 17) as i32; q = p + r.range(0, 6) as i32 }
			_ => { p = r.range(lo as i64 - 12, hi as i64 + 12) as i32; q = r.range(lo as i64 - 12, hi as i64 + 12) as i32 }
		}
		p = p.clamp(-31000, 31000);
		q = q.clamp(-31000, 31000);
		a[i] = p;
		b[i] = q;
	}
	if r.chance(1) { a = [-31000; 3]; b = [31000; 3] }
	else if r.chance(7) {
		// one node, often in a corner of a mapblock, often one that holds something
		let keys: Vec<i64> = w.rows.keys().cloned().collect();
		let k = if keys.is_empty() || r.chance(30) { w.base } else { pos_of(*r.pick(&keys)) };
		let corner = r.chance(40);
		for i in 0..3 { a[i] = (k[i] * 16 + if corner { *r.pick(&[0, 15]) } else { r.range(0, 15) as i32 }).clamp(-31000, 31000) }
		b = a;
	}
	(a, b)
}

pub const COMMANDS: [&str; 12] = ["clone", "deleteblocks", "deletemeta", "deleteobjects", "deletetimers", "fill", "overlay", "replaceininv", "replacenodes", "setmetavar", "setparam2", "vacuum"];

/// Names that occur in the map's blocks.
pub fn present(rows: &Rows) -> Vec<String> {
	let mut v: Vec<String> = vec![];
	for d in rows.values() {
		if let Parsed::Good(b) = parse(d) {
			let l = b.names.len();
			for n in b.names.iter().take(8).chain([8, 12, 70, l / 2, 256, 300, l - 1].iter().filter_map(|i| b.names.get(*i).filter(|_| l > 8))) { if let Ok(s) = String::from_utf8(n.clone()) { if !v.contains(&s) { v.push(s) } } }
		}
		if v.len() > 18 { break }
	}
	v
}

pub fn command(r: &mut Rng, name: &str, w: &World, has_input: bool) -> Cmd {
	let pres = present(&w.rows);
	let node = |r: &mut Rng| -> String { if r.chance(75) && !pres.is_empty() { r.pick(&pres).clone() } else { r.pick(&NAMES).to_string() } };
	let mut c = Cmd { name: name.into(), ..Default::default() };
	let opt_area = |r: &mut Rng, c: &mut Cmd, pct: u64| {
		if r.chance(pct) { c.area = Some(area(r, w)); c.invert = r.chance(35) }
	};
	let nodes = |r: &mut Rng, c: &mut Cmd| {
		if r.chance(50) {
			let k = if r.chance(15) { 4 + r.below(6) } else { 1 + r.below(3) };
			for _ in 0..k { let n = node(r); c.nodes.push(n) }
			let mut seen = vec![];
			c.nodes.retain(|n| { let f = !seen.contains(n); seen.push(n.clone()); f });
		}
	};
	let offset = |r: &mut Rng| -> P3 {
		let mut o = [0; 3];
		match r.below(6) {
			0 => { let a = r.usize(3); o[a] = r.range(-20, 20) as i32 }
			1 => for c in &mut o { *c = 16 * r.range(-2, 2) as i32 },
			2 => for c in &mut o { *c = r.range(-1, 1) as i32 },
			_ => for c in &mut o { *c = r.range(-36, 36) as i32 },
		}
		// from one mapblock of the map to another, however far
		if r.chance(12) && w.rows.len() > 1 {
			let keys: Vec<i64> = w.rows.keys().cloned().collect();
			let (p, q) = (pos_of(*r.pick(&keys)), pos_of(*r.pick(&keys)));
			let slack = *r.pick(&[0i64, 0, 1, 15]);
			for i in 0..3 { o[i] = (q[i] - p[i]) * 16 + r.range(-slack, slack) as i32 }
		}
		o
	};
	match name {
		"clone" => {
			c.area = Some(area(r, w));
			let o = offset(r);
			c.offset = Some(fit(c.area.unwrap(), o));
		}
		"deleteblocks" => { c.area = Some(area(r, w)); c.invert = r.chance(35) }
		"deletemeta" | "deletetimers" => { opt_area(r, &mut c, 60); if r.chance(45) { c.node = Some(node(r)) } }
		"deleteobjects" => {
			opt_area(r, &mut c, 60);
			match r.below(4) {
				0 => {}
				1 => c.object = Some(r.pick(&["mobs:cow", "mobs:cow2", "boats:boat", "mobs:co"]).to_string()),
				2 => c.items = Some(vec![]),
				_ => { let mut v = vec![]; let n = if r.chance(25) { 3 + r.below(5) } else { 1 + r.below(2) }; for _ in 0..n { v.push(r.pick(&ITEMS).to_string()) } v.dedup(); c.items = Some(v) }
			}
		}
		"fill" => { c.area = Some(area(r, w)); c.invert = r.chance(35); c.new_node = Some(node(r)) }
		"overlay" => {
			assert!(has_input);
			opt_area(r, &mut c, 75);
			if !c.invert && r.chance(50) {
				let o = offset(r);
				c.offset = Some(match c.area { Some(a) => fit(a, o), None => o });
			} else if r.chance(10) { c.offset = Some([0, 0, 0]) }
		}
		"replaceininv" => {
			let i = r.usize(ITEMS.len());
			c.item = Some(ITEMS[i].into());
			match r.below(5) {
				0 => c.delete = true,
				1 => c.delete_meta = true,
				2 => { c.delete_meta = true; c.new_item = Some(r.pick(&ITEMS).to_string()) }
				_ => c.new_item = Some(ITEMS[(i + 1 + r.usize(ITEMS.len() - 1)) % ITEMS.len()].into()),
			}
			nodes(r, &mut c);
			opt_area(r, &mut c, 50);
		}
		"replacenodes" => {
			c.node = Some(node(r));
			loop { let n = node(r); if Some(&n) != c.node.as_ref() { c.new_node = Some(n); break } if pres.len() < 2 { c.new_node = Some("other:node".into()); break } }
			opt_area(r, &mut c, 60);
		}
		"setmetavar" => {
			c.key = Some(r.pick(&VARS).to_string());
			if r.chance(12) {
				let mut keys = vec![];
				for d in w.rows.values().take(6) {
					if let Parsed::Good(b) = parse(d) {
						for m in b.meta.values().take(20) { for k in m.vars.keys().take(6) {
							if let Ok(k) = String::from_utf8(k.clone()) { if !k.is_empty() && !k.starts_with('-') && !k.contains('\0') { keys.push(k) } }
						} }
					}
				}
				if !keys.is_empty() { c.key = Some(r.pick(&keys).clone()) }
			}
			if r.chance(35) { c.delete = true } else { c.value = Some(if r.chance(4) { "long ".repeat(1 + r.usize(20_000)) } else { r.pick(&["v", "new value", "x=1;y=2", "\u{e9}t\u{e9}", "0"]).to_string() }) }
			nodes(r, &mut c);
			opt_area(r, &mut c, 50);
		}
		"setparam2" => {
			c.param2 = Some(r.below(256) as u8);
			opt_area(r, &mut c, 70);
			if c.area.is_none() || r.chance(50) { c.node = Some(node(r)) }
		}
		"vacuum" => {}
		x => panic!("no generator for {x}"),
	}
	c
}
/// Keeps a destination inside the map.
/// A command that, by the model, changes something; sometimes one that may not.
pub fn telling(r: &mut Rng, name: &str, w: &World, irows: Option<&Rows>) -> Cmd {
	let mut c = command(r, name, w, irows.is_some());
	if name == "vacuum" || w.rows.is_empty() || r.chance(10) { return c }
	let none = Rows::new();
	let want = if r.chance(60) { 2 } else { 1 };
	let mut best = 0;
	for k in 0..8 {
		let d = if k == 0 { c.clone() } else { command(r, name, w, irows.is_some()) };
		let t = crate::model::apply(&d, &w.rows, irows.unwrap_or(&none)).touched;
		if t > best { best = t; c = d }
		if best >= want { break }
	}
	c
}

pub fn fit(a: (P3, P3), mut o: P3) -> P3 {
	for i in 0..3 {
		let (lo, hi) = (a.0[i].min(a.1[i]), a.0[i].max(a.1[i]));
		if hi + o[i] < -31000 || lo + o[i] > 31000 { o[i] = -o[i] }
		if hi + o[i] < -31000 || lo + o[i] > 31000 { o[i] = 0 }
	}
	o
}

/// Scheduling, clocks and speeds; no faults.
pub fn env(r: &mut Rng) -> Env {
	let mut e = Env::calm(r.next());
	e.hash_seed = r.next();
	e.preempt_ppm = *r.pick(&[0u64, 200, 2000, 20_000, 100_000, 400_000]);
	e.step_ns = *r.pick(&[20u64, 200, 200, 2000, 30_000]);
	e.lat_ns = *r.pick(&[0u64, 500, 2000, 2000, 50_000, 1_000_000]);
	e.sync_ns = *r.pick(&[0u64, 20_000, 20_000, 500_000, 30_000_000]);
	if r.chance(10) { e.lat_ns = 15_000_000; e.sync_ns = 200_000_000 }
	e.mono_base = *r.pick(&[0u64, 1_000_000_000, 50_000_000_000, 86400_000_000_000 * 400]) + r.below(2_000_000_000);
	e.real_base = *r.pick(&[0u64, 1_700_000_000_000_000_000, 946_684_800_000_000_000]) + r.below(1_000_000_000);
	// any second of 1970 to 2100
	if r.chance(40) { e.real_base = r.below(4_102_444_800) * 1_000_000_000 + r.below(1_000_000_000) }
	e.malloc_yield = r.chance(15);
	e.pct = r.chance(35);
	if r.chance(12) {
		// switches at the program's own branches
		e.fine = *r.pick(&[1u64, 2, 5, 20, 100]);
		e.preempt_ppm = *r.pick(&[400u64, 2000, 20_000, 100_000]);
	}
	if r.chance(6) { e.faults.push(suspend(r)) }
	if r.chance(15) { e.faults.push(Fault { cls: FUTEX, kind: SPURIOUS, index: r.below(12), arg: 0, count: 1 + r.below(3) }) }
	e
}

/// The whole machine sleeps for hours or days.
pub fn suspend(r: &mut Rng) -> Fault {
	let n = *r.pick(&[60u64, 400, 4000]);
	Fault { cls: STEP, kind: STALL, index: r.below(n), arg: *r.pick(&[1_000u64, 7_000, 100_000, 500_000]) * 1_000_000_000, count: 1 }
}

/// Stalls: the machine or a device stops for a while.
pub fn stalls(r: &mut Rng, e: &mut Env, counts: &[u64; 16]) {
	for _ in 0..1 + r.below(3) {
		let cls = *r.pick(&[STDOUT, STDOUT, READ, WRITE, SYNC, STEP, LOCK, MUT, THREAD]);
		let n = if cls == STEP { 3000 } else { counts[cls as usize].max(1) };
		e.faults.push(Fault { cls, kind: STALL, index: r.below(n), arg: *r.pick(&[1_000_000u64, 30_000_000, 700_000_000, 4_000_000_000, 60_000_000_000]), count: 1 + r.below(4) });
	}
}

/// One failing operation (or a stretch of them) among those the same run
/// performed undisturbed.
pub fn fault(r: &mut Rng, counts: &[u64; 16], kinds: &[u32]) -> Fault {
	for _ in 0..30 {
		let cls = *r.pick(kinds);
		let n = counts[cls as usize];
		if n == 0 { continue }
		let index = match r.below(8) { 0 | 1 => n - 1 - r.below(n.min(4)), 2..=4 => n / 2 + r.below(n - n / 2), _ => r.below(n) };
		let count = match r.below(6) { 0 => 1 << 40, 1 => 2 + r.below(6), _ => 1 };
		let after = r.chance(20);
		let (kind, arg) = match cls {
			OPEN => (ERR, *r.pick(&[13u64, 24, 23, 5, 28, 30, 40, 116])),
			READ => if r.chance(30) { (SHORT, *r.pick(&[0u64, 1, 500, 900, 999])) } else { (ERR, *r.pick(&[5u64, 4, 5, 116, 110, 12])) },
			WRITE => if r.chance(30) { (SHORT, *r.pick(&[0u64, 1, 500, 900, 999])) } else { (if after { ERR_AFTER } else { ERR }, *r.pick(&[5u64, 28, 122, 4, 27, 30, 116])) },
			TRUNC | SYNC => (if after { ERR_AFTER } else { ERR }, *r.pick(&[5u64, 28, 30, 116])),
			UNLINK => (if after { ERR_AFTER } else { ERR }, *r.pick(&[5u64, 13, 30, 16])),
			LOCK => (ERR, *r.pick(&[11u64, 13, 37, 5])),
			MALLOC => (ERR, 12),
			STDOUT => match r.below(3) { 0 => (SHORT, *r.pick(&[0u64, 300, 900])), _ => (ERR, *r.pick(&[32u64, 5, 28])) },
			_ => (ERR, 5),
		};
		// an endless EINTR would be a caller's endless retry
		let count = if arg == 4 && matches!(kind, ERR | ERR_AFTER) { count.min(3) } else { count };
		return Fault { cls, kind, index, arg, count };
	}
	Fault { cls: READ, kind: ERR, index: 0, arg: 5, count: 1 }
}

pub fn cutspec(r: &mut Rng) -> crate::scen::CutSpec {
	let loss = match r.below(9) { 0..=3 => Loss::Kill, 4 => Loss::None, 5 => Loss::All, 6 | 7 => Loss::Subset(r.next()), _ => Loss::Prefix(r.next()) };
	crate::scen::CutSpec { frac: if r.chance(20) { 1_000_000 - r.below(120_000) } else { r.below(1_000_001) }, after_done: false, loss,
		torn: if r.chance(40) { r.below(1000) } else { 1000 }, keep_dir: r.chance(30) }
}

/// A damaged version of a stored block.
pub fn damage(r: &mut Rng, d: &[u8]) -> Vec<u8> {
	let mut v = d.to_vec();
	let good = match parse(d) { Parsed::Good(b) => Some(b), _ => None };
	match r.below(if good.is_some() { 24 } else { 9 }) {
		0 => return vec![],
		1 => { v.truncate(1 + r.usize(v.len())); return v }
		2 => { let n = 1 + r.usize(60); let mut x = r.bytes(n); if r.chance(60) { x[0] = 25 + r.below(5) as u8 } return x }
		3 => { if v.is_empty() { return v } v[0] = *r.pick(&[0u8, 1, 24, 30, 31, 255, 26, 27, 28, 29, 25]); return v }
		4 | 5 => { for _ in 0..1 + r.below(4) { if v.is_empty() { break } let i = r.usize(v.len()); v[i] ^= 1 << r.below(8) } return v }
		6 => { let i = r.usize(v.len() + 1); let n = 1 + r.usize(30); let x = r.bytes(n); for (k, b) in x.into_iter().enumerate() { v.insert((i + k).min(v.len()), b) } return v }
		7 => { if v.len() > 4 { let i = r.usize(v.len() - 2); let n = 1 + r.usize(v.len() - i - 1); v.drain(i..i + n); } return v }
		8 => { v.truncate(1 + r.usize(4)); return v }
		_ => {}
	}
	let b = good.unwrap();
	let mut p = parts(&b, &EncOpt { perm: r.next() | 1, unused: vec![], gap: 0, level: 1 });
	match r.below(20) {
		0 => { p.nimap = vec![0, 0, 0] }
		1 => { // a used id without a name
			let mut ids = vec![0u8]; ids.extend_from_slice(&1u16.to_be_bytes()); ids.extend_from_slice(&[0, 0]); s16(&mut ids, b"air"); p.nimap = ids;
			let i = r.usize(4096); p.nodes[2 * i..2 * i + 2].copy_from_slice(&(1 + r.below(65535) as u16).to_be_bytes());
		}
		2 => { let k = 1 + r.below(255) as u8; p.nimap[0] = k }
		3 => { let n = u16::from_be_bytes([p.nimap[1], p.nimap[2]]).wrapping_add(*r.pick(&[1u16, 40, 60000])); p.nimap[1..3].copy_from_slice(&n.to_be_bytes()) }
		4 => { let i = r.usize(2); p.widths[i] = *r.pick(&[0u8, 1, 3, 255]) }
		5 => { let n = r.usize(16384); p.nodes.truncate(n) }
		6 => { let n = 1 + r.usize(200); let x = r.bytes(n); p.nodes.extend_from_slice(&x) }
		7 => { p.meta[0] = *r.pick(&[3u8, 9, 255]) }
		8 => { // metadata position outside the block
			let mut m = vec![if b.version >= 28 { 2u8 } else { 1 }]; m.extend_from_slice(&1u16.to_be_bytes()); m.extend_from_slice(&(*r.pick(&[4096u16, 5000, 65535, 40000])).to_be_bytes());
			m.extend_from_slice(&1u32.to_be_bytes()); s16(&mut m, b"infotext"); s32(&mut m, b"x"); if b.version >= 28 { m.push(0) } m.extend_from_slice(END_INV); p.meta = m;
		}
		9 => { // huge declared lengths
			let mut m = vec![if b.version >= 28 { 2u8 } else { 1 }]; m.extend_from_slice(&(*r.pick(&[1u16, 65535])).to_be_bytes()); m.extend_from_slice(&3u16.to_be_bytes());
			m.extend_from_slice(&(*r.pick(&[1u32, 0xffff_ffff, 0x7fff_ffff])).to_be_bytes()); s16(&mut m, b"k"); m.extend_from_slice(&(*r.pick(&[0xffff_ffffu32, 0x7fff_ffff, 0x8000_0000])).to_be_bytes()); m.extend_from_slice(b"zz"); p.meta = m;
		}
		10 => { let mut m = vec![2u8, 0, 1, 0, 9, 0, 0, 0, 0]; m.extend_from_slice(b"List main 0\nEndInventoryList\n"); p.meta = m }
		11 => { p.objs[0] = 1 + r.below(255) as u8 }
		12 => { p.objs[1..3].copy_from_slice(&[0xff, 0xff]) }
		13 => { // object coordinates at the extremes
			let mut o = vec![0u8, 0, 1, 7]; for _ in 0..3 { o.extend_from_slice(&(*r.pick(&[i32::MAX, i32::MIN, i32::MAX - 3, 0])).to_be_bytes()) } s16(&mut o, b"\x01\x00\x08mobs:cow\x00\x00\x00\x00"); p.objs = o;
		}
		14 => { p.timers[0] = *r.pick(&[0u8, 9, 11, 255]) }
		15 => { p.timers = vec![10, 0xff, 0xff, 0, 1] }
		16 => { let mut t = vec![10u8, 0, 1]; t.extend_from_slice(&(*r.pick(&[4096u16, 65535, 9999])).to_be_bytes()); t.extend_from_slice(&[0; 8]); p.timers = t }
		17 => { let n = 1 + r.usize(40); p.tail = r.bytes(n) }
		18 => { // sparse ids, up to the largest
			let mut ids = vec![0u8]; ids.extend_from_slice(&2u16.to_be_bytes());
			for (id, n) in [(0u16, &b"air"[..]), (*r.pick(&[65535u16, 65534, 5000, 4096, 32768]), b"default:stone")] { ids.extend_from_slice(&id.to_be_bytes()); s16(&mut ids, n) }
			p.nimap = ids;
			let idb = [p.nimap[p.nimap.len() - 17], p.nimap[p.nimap.len() - 16]];
			for i in 0..4096 { let x = if i % 3 == 0 { idb } else { [0, 0] }; p.nodes[2 * i..2 * i + 2].copy_from_slice(&x) }
		}
		_ => { // the same name under two ids, or an id twice
			let mut ids = vec![0u8]; ids.extend_from_slice(&3u16.to_be_bytes());
			let twice = r.chance(50);
			for (id, n) in [(0u16, &b"air"[..]), (if twice { 0 } else { 1 }, b"default:stone"), (2, if twice { b"default:dirt" } else { b"default:stone" })] { ids.extend_from_slice(&id.to_be_bytes()); s16(&mut ids, n) }
			p.nimap = ids;
			for i in 0..4096 { p.nodes[2 * i] = 0; p.nodes[2 * i + 1] = [0u8, 2, if twice { 0 } else { 1 }][i % 3] }
		}
	}
	p.join()
}
