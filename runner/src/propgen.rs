//! One scenario per property and seed.
use crate::codec::*;
use crate::disk::*;
use crate::eval::*;
use crate::gen::*;
use crate::model::*;
use crate::rng::*;
use crate::scen::*;
use crate::sim::*;
use std::collections::BTreeMap;

pub const PROPS: [&str; 22] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C24", "C25"];
const EDITS: [&str; 11] = ["clone", "deleteblocks", "deletemeta", "deleteobjects", "deletetimers", "fill", "overlay", "replaceininv", "replacenodes", "setmetavar", "setparam2"];
const DISKISH: [u32; 8] = [READ, READ, WRITE, WRITE, SYNC, TRUNC, UNLINK, OPEN];

/// Another map near the first.
fn input(r: &mut Rng, w: &World, cfg: &WorldCfg) -> Rows {
	let mut b = w.base;
	for c in &mut b { *c = (*c + r.range(-1, 1) as i32).clamp(-1937, 1933) }
	let mut rows = world_at(r, cfg, b).rows;
	if r.chance(30) { for (k, d) in w.rows.iter() { if r.chance(40) { rows.entry(*k).or_insert_with(|| d.clone()); } } }
	rows
}
fn cfg_for(name: &str) -> WorldCfg {
	let mut c = WorldCfg::default();
	match name {
		"deleteobjects" => c.objs = 75,
		"deletetimers" => c.timers = 75,
		"deletemeta" | "setmetavar" | "replaceininv" => c.meta = 80,
		_ => {}
	}
	c
}

struct Gen { r: Rng, w: World, sc: Scenario }
fn start(prop: &str, seed: u64, names: &[&str], tweak: impl Fn(&mut WorldCfg)) -> (Gen, Cmd) {
	let mut r = Rng::new(seed);
	let name = *r.pick(names);
	let mut cfg = cfg_for(name);
	tweak(&mut cfg);
	let w = world(&mut r, &cfg);
	let irows = if name == "overlay" { Some(input(&mut r, &w, &cfg)) } else { None };
	let cmd = telling(&mut r, name, &w, irows.as_ref());
	let (opt, iopt) = (dbopt(&mut r), dbopt(&mut r));
	let sc = Scenario { prop: prop.into(), kind: name.into(), seed, rows: w.rows.clone(), irows, opt, iopt, extra: Disk::new(), steps: vec![], nums: BTreeMap::new() };
	(Gen { r, w, sc }, cmd)
}
impl Gen {
	fn step(&self, cmd: &Cmd, env: Env) -> Step {
		// now and then the world is named instead of its map file
		let m = mix(env.seed ^ 0xd1);
		let (map, input) = (if m % 8 == 0 { "/sim/w" } else { MAP }, if m % 10 < 2 { "/sim/in" } else { IMAP });
		Step { cmd: cmd.clone(), yes: true, map: map.into(), input: input.into(), env, cuts: vec![] }
	}
	fn num(&mut self, k: &str, v: u64) { self.sc.nums.insert(k.into(), v); }
}
fn total(d: &Disk) -> u64 { d.values().map(|n| n.data.len() as u64).sum() }

/// A map with more mapblocks than any cache holds, stretched along one axis.
fn long_world(r: &mut Rng, n: usize, meta_pct: u64, one_var: bool) -> (World, usize) {
	let shape = if n < 1030 { r.below(4) } else { r.below(6) };
	let (axis, dim) = match shape {
		// two or three layers, each larger than the cache
		4 | 5 => { let l = 2 + r.usize(2); let m = 1030 + r.usize(40); if shape == 4 { (1, [m as i32, l as i32, 1]) } else { let a = 1 + r.usize(40); (2, [a as i32, (m / a + 1) as i32, l as i32]) } }
		0 => (0usize, [n.min(3000) as i32, 1, 1]),
		1 => { let a = 1 + r.usize(3); (1, [a as i32, (n / a) as i32, 1]) }
		_ => { let a = 1 + r.usize(4); let b = 1 + r.usize(4); (2, [a as i32, b as i32, (n / a / b).max(2) as i32]) }
	};
	let mut base = [0; 3];
	for i in 0..3 { base[i] = r.range(-1900, 1900 - dim[i] as i64) as i32 }
	let ver = [28u8, 29][r.usize(2)];
	let mut rows = Rows::new();
	// neighbours differ; far apart, contents come back
	let pool: Vec<Vec<u8>> = (0..90 + r.below(60)).map(|_| {
		let id = r.below(1000);
		let names = vec![b"air".to_vec(), format!("u:n{id}").into_bytes(), b"default:stone".to_vec()];
		let mut nodes = vec![(id % 3) as u16; 4096];
		for _ in 0..6 { nodes[r.usize(4096)] = r.below(3) as u16 }
		let mut meta = BTreeMap::new();
		if r.chance(meta_pct) { meta.insert(r.below(4096) as u16, Meta { vars: [(b"infotext".to_vec(), (format!("{id}").into_bytes(), false))].into_iter().collect(), inv: END_INV.to_vec() }); }
		let b = Block { version: ver, flags: if r.chance(2) { 8 } else { 0 }, light: 0xffff, ts: 0, names, nodes, p1: vec![id as u8; 4096], p2: vec![(id >> 4) as u8; 4096], meta, objs: vec![], timers: vec![] };
		encode(&b.canon(), &EncOpt { perm: 0, unused: vec![], gap: 0, level: 1 })
	}).collect();
	let full = if meta_pct >= 50 && n < 1030 { Some(WorldCfg { max_blocks: 1, meta: 30, objs: 75, timers: 60, big_meta: 0, one_var, ..WorldCfg::default() }) } else { None };
	for z in 0..dim[2] { for y in 0..dim[1] { for x in 0..dim[0] {
		let p = [base[0] + x, base[1] + y, base[2] + z];
		let d = match &full {
			// objects know where they are, so no two mapblocks can share them
			Some(cfg) if r.chance(30) => { let (b, o) = block(r, p, cfg, ver); encode(&b, &o) }
			_ => pool[r.usize(pool.len())].clone(),
		};
		rows.insert(key_of(p), d);
	} } }
	(World { rows, base, dim }, axis)
}
fn long(prop: &str, seed: u64, name: &str) -> Scenario {
	let mut r = Rng::new(seed ^ 0x10c);
	let n = 1150 + r.usize(700);
	let (w, axis) = long_world(&mut r, n, 5, false);
	let mut lo = [0; 3];
	let mut hi = [0; 3];
	for i in 0..3 { lo[i] = w.base[i] * 16 + r.range(-3, 3) as i32; hi[i] = (w.base[i] + w.dim[i]) * 16 - 1 + r.range(-3, 3) as i32 }
	let per = (w.rows.len() as i32) / w.dim[axis];
	let far = 1030 / per + 1;
	let span = w.dim[axis] - 1;
	let mut o = [0; 3];
	let blocks = if far < span && r.chance(75) { r.range(far as i64, span as i64) as i32 } else { r.range(1, span.max(1) as i64) as i32 };
	// short steps between large layers, long ones along rows
	o[axis] = if w.dim[axis] <= 3 && r.chance(70) { r.range(1, 20) as i32 } else { blocks * 16 } + if w.dim[axis] > 3 && r.chance(60) { r.range(-7, 7) as i32 } else { 0 };
	if r.chance(50) { o[axis] = -o[axis] }
	if r.chance(40) { let a = (axis + 1 + r.usize(2)) % 3; o[a] = r.range(-9, 9) as i32 }
	let mut cmd = Cmd { name: name.into(), area: Some((lo, hi)), offset: Some(o), ..Default::default() };
	let irows = if name == "overlay" { Some(w.rows.clone()) } else { None };
	if name == "overlay" && r.chance(30) { cmd.area = None }
	let env = env(&mut r);
	Scenario { prop: prop.into(), kind: format!("{name}, map larger than the cache"), seed, rows: w.rows, irows, opt: DbOpt::default(), iopt: DbOpt::default(), extra: Disk::new(),
		steps: vec![Step { cmd, yes: true, map: MAP.into(), input: IMAP.into(), env: Env { preempt_ppm: 200, malloc_yield: false, ..env }, cuts: vec![] }], nums: BTreeMap::new() }
}

/// Now and then a map of hundreds or thousands of mapblocks.
fn start_any(prop: &str, seed: u64, names: &[&str], pct: u64, tweak: impl Fn(&mut WorldCfg)) -> (Gen, Cmd) {
	let mut r = Rng::new(seed ^ 0xb16);
	if !r.chance(pct) { return start(prop, seed, names, tweak) }
	let name = *r.pick(names);
	if r.chance(if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05") { 5 } else { 3 }) { return start_wide(r, prop, seed, name) }
	let n = match r.below(4) { 0 => 40 + r.usize(200), 1 => 250 + r.usize(300), 2 => 500 + r.usize(600), _ => 1030 + r.usize(500) };
	let (w, _) = long_world(&mut r, n, if matches!(name, "deletemeta" | "setmetavar" | "replaceininv" | "deleteobjects" | "deletetimers") { 60 } else { 5 }, prop == "C05");
	let irows = if name == "overlay" { Some(w.rows.iter().map(|(k, _)| (*k, w.rows.values().nth(r.usize(3).min(w.rows.len() - 1)).unwrap().clone())).collect()) } else { None };
	let mut cmd = command(&mut r, name, &w, irows.is_some());
	if let Some(a) = cmd.area.as_mut() {
		// nearly everything, so that many mapblocks change
		if r.chance(75) { for i in 0..3 { a.0[i] = (w.base[i] * 16 - 3).max(-31000); a.1[i] = ((w.base[i] + w.dim[i]) * 16 + 2).min(31000) } cmd.invert = false }
		if let Some(o) = cmd.offset { cmd.offset = Some(fit(*a, o)) }
	}
	if matches!(name, "replacenodes" | "setparam2") { cmd.node = Some("default:stone".into()); if name == "replacenodes" && cmd.new_node == cmd.node { cmd.new_node = Some("a:b".into()) } }
	if name == "setmetavar" { cmd.key = Some("infotext".into()) }
	let (opt, iopt) = (DbOpt { page: *r.pick(&[4096u64, 4096, 1024]), cache: *r.pick(&[0u64, 10, 50]), ..DbOpt::default() }, DbOpt::default());
	let sc = Scenario { prop: prop.into(), kind: format!("{name}, large map"), seed, rows: w.rows.clone(), irows, opt, iopt, extra: Disk::new(), steps: vec![], nums: BTreeMap::new() };
	(Gen { r, w, sc }, cmd)
}

/// Thousands of small mapblocks, nearly all of which the command changes.
fn start_wide(mut r: Rng, prop: &str, seed: u64, name: &str) -> (Gen, Cmd) {
	let n = match name { "clone" | "overlay" => 1500 + r.usize(1500), "deleteblocks" | "vacuum" => 2000 + r.usize(10_000), _ => 2000 + r.usize(3500) };
	let (a, b) = (8 + r.usize(16), 8 + r.usize(16));
	let dim = [a as i32, b as i32, (n / a / b + 1) as i32];
	let base = dim.map(|d| r.range(-1900, 1900 - d as i64) as i32);
	let rich = matches!(name, "deletemeta" | "setmetavar" | "replaceininv" | "deleteobjects" | "deletetimers");
	let cfg = WorldCfg { meta: 100, objs: 100, timers: 100, ungenerated: 0, big_meta: 0, odd_palette: 0, one_var: true, ..WorldCfg::default() };
	let ver = [28u8, 29][r.usize(2)];
	let pool: Vec<Vec<u8>> = (0..12).map(|i| {
		if rich && i < 6 { let (b, o) = block(&mut r, base, &cfg, ver); return encode(&b, &o) }
		let mut nodes = vec![(i % 3) as u16; 4096];
		nodes[r.usize(4096)] = (i + 1) as u16 % 3;
		let b = Block { version: ver, flags: 0, light: 0xffff, ts: 0, names: vec![b"air".to_vec(), b"default:stone".to_vec(), b"default:dirt".to_vec()], nodes, p1: vec![i as u8; 4096], p2: vec![0; 4096], meta: BTreeMap::new(), objs: vec![], timers: vec![] };
		encode(&b.canon(), &EncOpt { perm: 0, unused: vec![], gap: 0, level: 1 })
	}).collect();
	let mut rows = Rows::new();
	for z in 0..dim[2] { for y in 0..dim[1] { for x in 0..dim[0] { rows.insert(key_of([base[0] + x, base[1] + y, base[2] + z]), r.pick(&pool).clone()); } } }
	let w = World { rows, base, dim };
	let irows = if name == "overlay" { Some(w.rows.keys().map(|k| (*k, r.pick(&pool).clone())).collect()) } else { None };
	let mut cmd = command(&mut r, name, &w, irows.is_some());
	if let Some(a) = cmd.area.as_mut() {
		for i in 0..3 { a.0[i] = w.base[i] * 16; a.1[i] = (w.base[i] + w.dim[i]) * 16 - 1 }
		cmd.invert = false;
		if let Some(o) = cmd.offset { cmd.offset = Some(fit(*a, o)) }
	}
	if matches!(name, "replacenodes" | "setparam2") { cmd.node = Some("default:stone".into()); if name == "replacenodes" && cmd.new_node == cmd.node { cmd.new_node = Some("a:b".into()) } }
	if name == "setmetavar" { cmd.key = Some("infotext".into()) }
	let (opt, iopt) = (DbOpt { page: *r.pick(&[4096u64, 4096, 1024]), cache: if w.rows.len() < 2500 && !rich { *r.pick(&[0u64, 10]) } else { 0 }, ..DbOpt::default() }, DbOpt::default());
	let sc = Scenario { prop: prop.into(), kind: format!("{name}, thousands of mapblocks"), seed, rows: w.rows.clone(), irows, opt, iopt, extra: Disk::new(), steps: vec![], nums: BTreeMap::new() };
	(Gen { r, w, sc }, cmd)
}

pub fn make(ctx: &mut Ctx, prop: &str, seed: u64) -> Scenario {
	match prop {
		"C01" => {
			let (mut g, cmd) = start_any(prop, seed, &EDITS, 4, |_| {});
			if g.r.chance(50) { g.sc.opt.cache = *g.r.pick(&[10u64, 10, 12, 16, 30]) }
			let mut e = env(&mut g.r);
			let n = 6 + g.r.below(10);
			g.num("cuts", n);
			if g.r.chance(25) {
				let b = ctx.baseline(&g.sc.rows, g.sc.irows.as_ref(), &g.sc.opt, &g.sc.iopt, &cmd);
				let f = fault(&mut g.r, &b.out.counts, &[READ, WRITE, SYNC, TRUNC, MALLOC, STDOUT, STDOUT]);
				e.faults.push(f);
				g.num("kill_only", 1);
			}
			let st = g.step(&cmd, e);
			g.sc.steps.push(st);
			g.sc
		}
		"C02" => {
			let (mut g, cmd) = start_any(prop, seed, &EDITS, 2, |_| {});
			let mut e = env(&mut g.r);
			let n = 4 + g.r.below(8);
			g.num("cuts", n);
			g.num("after_done", 1);
			if g.r.chance(40) {
				let b = ctx.baseline(&g.sc.rows, g.sc.irows.as_ref(), &g.sc.opt, &g.sc.iopt, &cmd);
				stalls(&mut g.r, &mut e, &b.out.counts);
				if g.r.chance(40) {
					let cls = *g.r.pick(&[WRITE, READ, STDOUT]);
					let n = b.out.counts[cls as usize].max(1);
					e.faults.push(Fault { cls, kind: SHORT, index: g.r.below(n), arg: g.r.below(1000), count: 1 });
				}
			}
			let st = g.step(&cmd, e);
			g.sc.steps.push(st);
			g.sc
		}
		"C03" => {
			let mut r0 = Rng::new(seed ^ 0x03);
			let kind = r0.below(24);
			// where a mapblock may rightly be absent, a failed read is easily mistaken for that
			let copies = (matches!(kind, 3..=6 | 20..=23) && r0.chance(60) || matches!(kind, 2 | 7..=10 | 14) && r0.chance(35));
			let few = copies && r0.chance(35);
			let (mut g, mut cmd) = start_any(prop, seed, if copies { &["overlay", "overlay", "clone"] } else { &EDITS }, 2, |c| if few { c.max_blocks = 2 });
			// mapblocks partly outside the area are written elsewhere
			if copies && cmd.name == "overlay" && cmd.area.is_some() && cmd.offset.map_or(true, |o| o == [0; 3]) && g.r.chance(55) { cmd.invert = true }
			if g.r.chance(30) { g.sc.opt.cache = 10 }
			if copies && g.r.chance(60) { g.sc.iopt.page = 512; g.sc.opt.page = *g.r.pick(&[512u64, 1024]) }
			let mut e = env(&mut g.r);
			let b = ctx.baseline(&g.sc.rows, g.sc.irows.as_ref(), &g.sc.opt, &g.sc.iopt, &cmd);
			match kind {
				0 | 1 => {
					let t = total(&g.sc.disk());
					let grow = total(&after(&g.sc.disk(), &b.out)).max(t) - t;
					let peak: u64 = b.out.recs.iter().filter(|r| r.typ == R_WRITE).map(|r| r.len as u64).sum::<u64>().max(grow) + 1;
					e.capacity = t + g.r.below(peak);
				}
				2 => { let d = g.sc.disk(); let mut n = d[MAP].clone(); n.mode = 0o444; g.sc.extra.insert(MAP.into(), n); }
				3 | 20..=23 => { let n = b.out.counts[READ as usize].max(1); e.faults.push(Fault { cls: READ, kind: GARBLE, index: if g.r.chance(60) { n / 3 + g.r.below(n - n / 3) } else { g.r.below(n) }, arg: 0, count: *g.r.pick(&[1u64, 1, 3, 1 << 40]) }) }
				k => {
					let kinds: &[u32] = match k { 4..=6 => &[READ], 7 | 8 => &[WRITE, SYNC, TRUNC], 9 | 10 => &[LOCK], 11 | 12 => &[MALLOC], 13 => &[STDOUT], 14 => &[OPEN, UNLINK], _ => &[READ, WRITE, SYNC, TRUNC, UNLINK, OPEN, LOCK, MALLOC] };
					for _ in 0..if g.r.chance(25) { 1 + g.r.below(3) } else { 1 } { let f = fault(&mut g.r, &b.out.counts, kinds); e.faults.push(f) }
				}
			}
			let st = g.step(&cmd, e);
			g.sc.steps.push(st);
			g.sc
		}
		"C04" => {
			let (mut g, cmd) = start_any(prop, seed, &COMMANDS, 2, |_| {});
			if g.r.chance(30) { g.sc.opt.cache = 10 }
			let mut e = env(&mut g.r);
			let mut cuts = vec![];
			if g.r.chance(65) {
				let mut c = cutspec(&mut g.r);
				if g.r.chance(60) { c.frac = 700_000 + g.r.below(300_000) }
				cuts.push(c);
			} else {
				let b = ctx.baseline(&g.sc.rows, g.sc.irows.as_ref(), &g.sc.opt, &g.sc.iopt, &cmd);
				for _ in 0..1 + g.r.below(2) { let f = fault(&mut g.r, &b.out.counts, &[READ, WRITE, SYNC, TRUNC, UNLINK, OPEN, LOCK, MALLOC, STDOUT]); e.faults.push(f) }
				if g.r.chance(30) { let mut c = cutspec(&mut g.r); c.loss = Loss::Kill; cuts.push(c) }
			}
			let mut s0 = g.step(&cmd, e);
			s0.cuts = cuts;
			let mut e1 = env(&mut g.r);
			e1.faults.clear();
			let s1 = g.step(&cmd, e1);
			g.sc.steps = vec![s0, s1];
			g.sc
		}
		"C05" => {
			let (mut g, cmd) = start_any(prop, seed, &COMMANDS, 2, |c| { c.one_var = true; c.max_blocks = 10; c.odd_palette = 3 });
			if g.r.chance(30) { g.sc.opt.cache = 10 }
			let b = ctx.baseline(&g.sc.rows, g.sc.irows.as_ref(), &g.sc.opt, &g.sc.iopt, &cmd);
			let mut e = env(&mut g.r);
			e.lat_ns = *g.r.pick(&[500u64, 2000, 20_000]);
			e.hash_seed = 4242;
			let scale = b.out.vtime.max(1) * e.lat_ns.max(200) / 2000;
			let n = 1 + g.r.below(6);
			let mut t = 0;
			let mkeys: Vec<i64> = g.sc.rows.keys().cloned().collect();
			let ikeys: Vec<i64> = g.sc.irows.as_ref().map_or(vec![], |r| r.keys().cloned().collect());
			for _ in 0..n {
				t += g.r.below(scale.max(2) * 2 / (n + 1) + 1);
				let on_input = g.sc.irows.is_some() && g.r.chance(55);
				let write = g.r.chance(if on_input { 90 } else { 65 });
				let keys = if on_input { &ikeys } else { &mkeys };
				let mut rows: Vec<(i64, Option<Vec<u8>>)> = vec![];
				if write {
					// one transaction that touches mapblocks in several ways, so that
					// seeing only part of it shows
					let (wide, n) = if g.r.chance(50) { (true, 2 + g.r.below(5)) } else { (false, 1 + g.r.below(if on_input { 5 } else { 3 })) };
					for _ in 0..n {
						let k = if !keys.is_empty() && g.r.chance(if wide { 50 } else { 75 }) { *g.r.pick(keys) } else { let p = g.w.base; key_of([p[0] + g.r.range(-1, 3) as i32, p[1] + g.r.range(-1, 2) as i32, p[2] + if wide { g.r.range(-1, 2) as i32 } else { 0 }]) };
						if rows.iter().any(|x| x.0 == k) { continue }
						let src = if on_input { g.sc.irows.as_ref().unwrap() } else { &g.sc.rows };
						let d = if g.r.chance(if wide { 6 } else { 20 }) { None } else if wide && !keys.is_empty() && g.r.chance(75) {
							Some(src[g.r.pick(keys)].clone())
						} else {
							let cfg = WorldCfg { one_var: true, odd_palette: 3, ungenerated: 5, big_meta: 0, ..cfg_for(&cmd.name) };
							let (bl, o) = block(&mut g.r, pos_of(k), &cfg, 29);
							Some(encode(&bl, &o))
						};
						rows.push((k, d));
					}
				}
				let hold = if g.r.chance(50) { g.r.below(scale / 2 + 1) } else { 0 };
				let (tries, retry) = (1 + g.r.below(30), g.r.below(scale / 4 + 1000));
				e.game.push(GameOp { write, upgrade: write && g.r.chance(30), at: t, hold, tries, retry, path: if on_input { IMAP } else { MAP }.into(), rows });
			}
			if g.r.chance(15) {
				let f = fault(&mut g.r, &b.out.counts, &[LOCK, READ, WRITE, SYNC]);
				e.faults.push(f);
			}
			if g.r.chance(60) {
				// the command is held up around taking or giving up a lock, long
				// enough for whole transactions of the other client
				for _ in 0..1 + g.r.below(2) {
					let n = b.out.counts[LOCK as usize].max(1) * if g.r.chance(60) { 1 } else { 2 };
					e.faults.push(Fault { cls: LOCK, kind: STALL, index: g.r.below(n), arg: scale * (1 + g.r.below(6)) + e.sync_ns * 8, count: 1 });
				}
				if g.r.chance(60) { e.game[0].at = g.r.below(e.lat_ns * 60); e.game[0].hold /= 4 }
			}
			let ask = g.r.chance(20);
			if ask {
				// the other client goes on while the question is on the screen
				let d = g.r.below(scale * 3 + 1000);
				e.input = vec![InChunk { delay: d, kind: 0, data: b"y\n".to_vec() }];
			}
			let mut st = g.step(&cmd, e);
			st.yes = !ask;
			g.sc.steps.push(st);
			g.sc
		}
		"C06" => {
			let (mut g, cmd) = start(prop, seed, &COMMANDS, |c| c.max_blocks = 6);
			let mut e = env(&mut g.r);
			let r = &mut g.r;
			let ch = |d: u64, s: &[u8]| InChunk { delay: d, kind: 0, data: s.to_vec() };
			let delay = *r.pick(&[0u64, 1_000_000, 600_000_000, 90_000_000_000]);
			let inp: Vec<InChunk> = match r.below(16) {
				0 | 1 => vec![ch(delay, b"y\n")],
				2 => vec![ch(delay, b"Y\n")],
				3 => vec![ch(delay, b"  y \r\n")],
				4 => vec![ch(delay, b"yes\n")],
				5 | 6 => vec![ch(delay, b"n\n")],
				7 => vec![ch(delay, b"\n")],
				8 => vec![],
				9 => vec![InChunk { delay, kind: 1, data: vec![5] }],
				10 => vec![InChunk { delay, kind: 1, data: vec![4] }, ch(delay, if r.chance(50) { b"y\n" } else { b"n\n" })],
				11 => vec![ch(delay, b"\xff\xfey\n")],
				12 => vec![ch(delay, b"y"), ch(delay, b"\n")],
				13 => vec![ch(delay, b"n"), ch(delay, b"o\ny\n")],
				14 => vec![ch(delay, b"y"), InChunk { delay, kind: 1, data: vec![5] }],
				_ => { let t = text(r, 8); vec![ch(delay, &t), ch(0, b"\n")] }
			};
			e.input = inp;
			if r.chance(35) {
				// a thread is held up on its way out
				e.faults.push(Fault { cls: THREAD, kind: STALL, index: 1, arg: *r.pick(&[1_000_000u64, 1_000_000_000, 100_000_000_000]), count: 4 });
			}
			if r.chance(15) {
				let idx = r.below(6);
				e.faults.push(Fault { cls: STDOUT, kind: ERR, index: idx, arg: *r.pick(&[32u64, 5]), count: 1 << 40 });
			}
			if r.chance(12) {
				let cls = *r.pick(&[READ, LOCK, OPEN, MALLOC]);
				let n = match cls { MALLOC => 3000, READ => 12, _ => 6 };
				e.faults.push(Fault { cls, kind: ERR, index: r.below(n), arg: *r.pick(&[5u64, 12, 13]), count: 1 });
			}
			if r.chance(10) { let cls = *r.pick(&[STDIN, STDOUT, STEP]); let n = if cls == STEP { 4000 } else { 5 }; e.faults.push(Fault { cls, kind: CRASH, index: r.below(n), arg: 0, count: 1 }) }
			let mut st = g.step(&cmd, e);
			st.yes = false;
			g.sc.steps.push(st);
			g.sc
		}
		"C07" => c07(seed),
		"C09" => {
			let (mut g, cmd) = start_any(prop, seed, &["overlay"], 1, |c| c.max_blocks = 8);
			let mut e = env(&mut g.r);
			if g.r.chance(45) {
				// the input map was left behind by a crashed edit
				let iw = World { rows: g.sc.irows.clone().unwrap(), base: g.w.base, dim: g.w.dim };
				let name = *g.r.pick(&["replacenodes", "fill", "setparam2", "deletemeta", "deleteblocks"]);
				let c0 = command(&mut g.r, name, &iw, false);
				if g.r.chance(70) { g.sc.iopt.cache = 10 }
				let e0 = env(&mut g.r);
				let mut s0 = g.step(&c0, e0);
				s0.map = IMAP.into();
				let mut c = cutspec(&mut g.r);
				if g.r.chance(50) { c.loss = Loss::Kill }
				if g.r.chance(60) { c.frac = 600_000 + g.r.below(390_000) }
				s0.cuts = vec![c];
				g.sc.steps.push(s0);
			}
			let b = ctx.baseline(&g.sc.rows, g.sc.irows.as_ref(), &g.sc.opt, &g.sc.iopt, &cmd);
			if g.r.chance(50) { let f = fault(&mut g.r, &b.out.counts, &DISKISH); e.faults.push(f) }
			if g.r.chance(15) { let f = fault(&mut g.r, &b.out.counts, &[MALLOC, STDOUT, LOCK]); e.faults.push(f) }
			if g.r.chance(15) {
				let k = *g.sc.irows.as_ref().unwrap().keys().next().unwrap_or(&0);
				let at = g.r.below(b.out.vtime.max(1));
				let hold = g.r.below(b.out.vtime.max(1));
				let d = g.r.bytes(50);
				e.game.push(GameOp { write: true, upgrade: g.r.chance(25), at, hold, tries: 5, retry: 100_000, path: IMAP.into(), rows: vec![(k, Some(d))] });
			}
			let mut s1 = g.step(&cmd, e);
			if g.r.chance(40) { let mut c = cutspec(&mut g.r); c.loss = Loss::Kill; s1.cuts = vec![c] }
			g.sc.steps.push(s1);
			g.sc
		}
		"C10" => {
			let (mut g, cmd) = start_any(prop, seed, &["vacuum"], 2, |c| c.max_blocks = 18);
			if g.r.chance(60) { g.sc.opt.free = 1 + g.r.below(20) }
			if g.r.chance(35) {
				// rows that are no mapblocks, at keys that are no positions
				for _ in 0..1 + g.r.below(4) {
					let k = match g.r.below(4) { 0 => i64::MAX - g.r.below(3) as i64, 1 => i64::MIN + g.r.below(3) as i64, 2 => g.r.next() as i64, _ => key_of([g.w.base[0], g.w.base[1] - 1 - g.r.below(3) as i32, g.w.base[2]]) };
					let n = *g.r.pick(&[0usize, 1, 2, 5, 300, 70_000]);
					let d = g.r.bytes(n);
					g.sc.rows.insert(k, d);
				}
			}
			let mut e = env(&mut g.r);
			let n = 5 + g.r.below(8);
			g.num("cuts", n);
			let b = ctx.baseline(&g.sc.rows, None, &g.sc.opt, &g.sc.iopt, &cmd);
			match g.r.below(10) {
				0..=4 => {}
				5 | 6 => {
					g.num("kill_only", 1);
					let t = total(&g.sc.disk());
					e.capacity = t + g.r.below(t * 2 + 1);
				}
				_ => {
					g.num("kill_only", 1);
					for _ in 0..1 + g.r.below(2) { let f = fault(&mut g.r, &b.out.counts, &[READ, WRITE, WRITE, SYNC, TRUNC, UNLINK, OPEN, LOCK, MALLOC]); e.faults.push(f) }
				}
			}
			let st = g.step(&cmd, e);
			g.sc.steps.push(st);
			g.sc
		}
		"C19" => {
			let mut r0 = Rng::new(seed ^ 0x19);
			let (mut g, cmd) = if r0.chance(3) {
				// enough mapblocks for progress at every stage
				let sc = long(prop, seed, *r0.pick(&["clone", "fill", "overlay"]));
				let w = World { rows: sc.rows.clone(), base: [0; 3], dim: [1; 3] };
				let mut cmd = sc.steps[0].cmd.clone();
				if cmd.name == "fill" { cmd.offset = None; cmd.new_node = Some("air".into()) }
				(Gen { r: r0, w, sc: Scenario { steps: vec![], ..sc } }, cmd)
			} else { start_any(prop, seed, &COMMANDS, 1, |_| {}) };
			let mut e = env(&mut g.r);
			// clocks fast enough for many timed updates
			match g.r.below(5) {
				0 => e.step_ns = 3_000_000,
				1 => { e.lat_ns = 40_000_000; e.sync_ns = 800_000_000 }
				2 => { e.lat_ns = 600_000_000; e.sync_ns = 3_000_000_000 }
				3 => e.step_ns = 400_000,
				_ => {}
			}
			if g.r.chance(30) && !g.sc.rows.is_empty() {
				let keys: Vec<i64> = g.sc.rows.keys().cloned().collect();
				for _ in 0..1 + g.r.below(3) { let k = *g.r.pick(&keys); let v = damage(&mut g.r, &g.sc.rows[&k]); g.sc.rows.insert(k, v); }
			}
			let b = ctx.baseline(&g.sc.rows, g.sc.irows.as_ref(), &g.sc.opt, &g.sc.iopt, &cmd);
			if g.r.chance(60) { stalls(&mut g.r, &mut e, &b.out.counts) }
			if g.r.chance(25) { let i = g.r.below(8); e.faults.push(Fault { cls: FUTEX, kind: SPURIOUS, index: i, arg: 0, count: 1 + g.r.below(4) }) }
			if g.r.chance(25) { let i = g.r.below(6); let a = g.r.below(1000); e.faults.push(Fault { cls: STDOUT, kind: SHORT, index: i, arg: a, count: 1 + g.r.below(5) }) }
			if g.r.chance(10) { let i = g.r.below(6); e.faults.push(Fault { cls: STDOUT, kind: ERR, index: i, arg: 4, count: 1 + g.r.below(3) }) }
			if g.r.chance(15) { let i = g.r.below(b.out.counts[STDOUT as usize] + 2); let a = *g.r.pick(&[32u64, 5, 28]); let c = *g.r.pick(&[1u64, 1, 1 << 40]); e.faults.push(Fault { cls: STDOUT, kind: ERR, index: i, arg: a, count: c }) }
			let mut st = g.step(&cmd, e);
			if g.r.chance(20) {
				st.yes = false;
				let d = *g.r.pick(&[0u64, 3_000_000, 700_000_000, 7_200_000_000_000]);
				st.env.input = vec![InChunk { delay: d, kind: 0, data: b"y\n".to_vec() }];
				if g.r.chance(30) { st.env.input = vec![InChunk { delay: d, kind: 0, data: b"y".to_vec() }, InChunk { delay: d, kind: 0, data: b"\n".to_vec() }] }
			}
			g.sc.steps.push(st);
			g.sc
		}
		"C20" => {
			let mut r0 = Rng::new(seed ^ 0x20);
			if r0.chance(2) {
				let mut sc = long(prop, seed, if r0.chance(50) { "clone" } else { "overlay" });
				sc.iopt = DbOpt { shuffle: 99, page: 1024, cache: 10, ..DbOpt::default() };
				return sc
			}
			let (mut g, cmd) = start_any(prop, seed, &EDITS, 2, |_| {});
			if g.r.chance(40) { g.sc.iopt.cache = 10 }
			let mut e = env(&mut g.r);
			e.malloc_yield = g.r.chance(30);
			if g.r.chance(30) { let b = ctx.sc_cmd_base(&g.sc, &cmd); stalls(&mut g.r, &mut e, &b.out.counts) }
			if g.r.chance(25) { let f = suspend(&mut g.r); e.faults.push(f) }
			let st = g.step(&cmd, e);
			g.sc.steps.push(st);
			g.sc
		}
		"C24" => {
			let (mut g, first) = start(prop, seed, &COMMANDS, |c| c.max_blocks = 8);
			g.sc.opt.user = g.r.next() | 1;
			if g.sc.irows.is_none() && g.r.chance(40) { g.sc.irows = Some(input(&mut g.r, &g.w, &WorldCfg::default())) }
			let other = build_db(&Rows::new(), &DbOpt { user: 7, ..DbOpt::default() });
			for dirp in ["/sim/w", "/sim/in"] {
				if dirp == "/sim/in" && g.sc.irows.is_none() { continue }
				for (n, d, mode) in [("world.mt", &b"backend = sqlite3\ngameid = minetest\n"[..], 0o644), ("map_meta.txt", b"seed = 1\n[end_of_params]\n", 0o600), ("players.sqlite", &other, 0o644), ("map.sqlite.bak", b"", 0o444), ("map.sqlite-old", b"x", 0o644), ("map.sqlite-journal.txt", b"note", 0o640), ("debug.txt", b"", 0o666)] {
					if g.r.chance(50) { g.sc.extra.insert(format!("{dirp}/{n}"), Node { dir: false, mode, data: d.to_vec() }); }
				}
			}
			if g.r.chance(30) { let mut n = g.sc.disk()[MAP].clone(); n.mode = *g.r.pick(&[0o600u64, 0o660, 0o666, 0o640]); g.sc.extra.insert(MAP.into(), n); }
			if g.r.chance(25) && !g.sc.rows.is_empty() {
				let keys: Vec<i64> = g.sc.rows.keys().cloned().collect();
				for _ in 0..1 + g.r.below(3) { let k = *g.r.pick(&keys); let v = damage(&mut g.r, &g.sc.rows[&k]); g.sc.rows.insert(k, v); }
			}
			let n = 1 + g.r.below(4);
			for k in 0..n {
				let cmd = if k == 0 { first.clone() } else { let name = loop { let x = *g.r.pick(&COMMANDS); if x != "overlay" || g.sc.irows.is_some() { break x } }; telling(&mut g.r, name, &g.w, g.sc.irows.as_ref()) };
				let mut e = env(&mut g.r);
				let mut cuts = vec![];
				match g.r.below(10) {
					0..=2 => cuts.push(cutspec(&mut g.r)),
					3 | 4 => {
						let b = ctx.baseline(&g.sc.rows, g.sc.irows.as_ref(), &g.sc.opt, &g.sc.iopt, &cmd);
						let f = fault(&mut g.r, &b.out.counts, &[READ, WRITE, SYNC, TRUNC, UNLINK, OPEN, LOCK, MALLOC, STDOUT]);
						e.faults.push(f);
					}
					5 => { let t = total(&g.sc.disk()); e.capacity = t + g.r.below(t + 1) }
					_ => {}
				}
				let mut st = g.step(&cmd, e);
				if g.r.chance(20) { st.map = "/sim/w".into(); st.input = "/sim/in".into() }
				st.cuts = cuts;
				g.sc.steps.push(st);
			}
			g.sc
		}
		"C25" => {
			let mut r = Rng::new(seed);
			let name = *r.pick(&COMMANDS);
			let copies = matches!(name, "clone" | "overlay");
			let n = if copies { 3500 + r.usize(700) } else { 1200 + r.usize(900) };
			let (w, axis) = long_world(&mut r, n, 20, false);
			let all = (w.base.map(|v| v * 16), [0, 1, 2].map(|i| (w.base[i] + w.dim[i]) * 16 - 1));
			let mut w = w;
			if !copies && r.chance(40) {
				// incompressible params, so that the stored data is what takes the room
				let mut pool = vec![];
				for _ in 0..20 {
					let d = r.pick(&w.rows.values().collect::<Vec<_>>()).to_vec();
					if let Parsed::Good(mut b) = parse(&d) { b.p1 = r.bytes(4096); b.p2 = r.bytes(4096); pool.push(encode(&b, &EncOpt { perm: 0, unused: vec![], gap: 0, level: 1 })) }
				}
				if !pool.is_empty() { for d in w.rows.values_mut() { *d = r.pick(&pool).clone() } }
			}
			let mut cmd = command(&mut r, name, &w, true);
			cmd.invert = false;
			if cmd.area.is_some() || matches!(name, "fill" | "clone" | "deleteblocks") { cmd.area = Some(all) }
			if let Some(i) = cmd.area.as_mut().filter(|_| r.chance(20)) { for k in 0..3 { i.0[k] -= r.below(20) as i32; i.1[k] += r.below(20) as i32 } }
			if matches!(name, "replacenodes" | "setparam2") { cmd.node = Some(if r.chance(50) { "default:stone" } else { "air" }.into()); if cmd.new_node == cmd.node { cmd.new_node = Some("a:b".into()) } }
			if name == "setmetavar" { cmd.key = Some("infotext".into()) }
			if copies {
				let mut o = [0; 3];
				o[axis] = r.range(-40, 40) as i32;
				for k in 0..3 { if r.chance(30) { o[k] = r.range(-20, 20) as i32 } }
				cmd.offset = if name == "overlay" && r.chance(20) { None } else { Some(o) };
			}
			if let Some(a) = cmd.area.as_mut() { for k in 0..3 { a.0[k] = a.0[k].clamp(-31000, 31000); a.1[k] = a.1[k].clamp(-31000, 31000) } }
			if let (Some(a), Some(o)) = (cmd.area, cmd.offset) { cmd.offset = Some(fit(a, o)) }
			let mut sc = Scenario { prop: prop.into(), kind: format!("{name} on {} mapblocks", w.rows.len()), seed, irows: if name == "overlay" { Some(w.rows.clone()) } else { None }, rows: w.rows,
				opt: DbOpt { page: *r.pick(&[4096u64, 4096, 1024]), cache: *r.pick(&[0u64, 0, 10]), ..DbOpt::default() }, iopt: DbOpt::default(), extra: Disk::new(), steps: vec![], nums: BTreeMap::new() };
			let e = env(&mut r);
			sc.steps = vec![Step { cmd, yes: true, map: MAP.into(), input: IMAP.into(), env: Env { preempt_ppm: e.preempt_ppm.min(1000), malloc_yield: false, fine: 0, ..e }, cuts: vec![] }];
			sc
		}
		_ => history(prop, seed),
	}
}

fn history(prop: &str, seed: u64) -> Scenario {
	let mut r = Rng::new(seed);
	let own: &[&str] = match prop {
		"C11" => &["fill", "replacenodes", "setparam2"],
		"C12" => &["deletemeta", "setmetavar", "replaceininv"],
		"C13" => &["deleteobjects", "deletetimers"],
		"C14" => &["deleteblocks"],
		"C15" => &["clone"],
		"C16" => &["overlay"],
		_ => &EDITS,
	};
	if prop == "C15" && r.chance(6) || prop == "C16" && r.chance(4) || prop == "C17" && r.chance(1) {
		return long(prop, seed, if prop == "C16" { "overlay" } else { "clone" })
	}
	if matches!(prop, "C08" | "C11" | "C12" | "C13" | "C14" | "C18") && r.chance(3) {
		let (mut g, cmd) = start_any(prop, seed, own, 100, |_| {});
		if matches!(prop, "C08" | "C18") {
			// anything from a few mapblocks to all of them
			let pct = *g.r.pick(&[1u64, 10, 40, 90, 100]);
			let kinds: Vec<Vec<u8>> = (0..12).map(|_| { let n = g.r.usize(g.sc.rows.len()); let d = g.sc.rows.values().nth(n).unwrap().clone(); damage(&mut g.r, &d) }).collect();
			for d in g.sc.rows.values_mut() { if g.r.chance(pct) { *d = g.r.pick(&kinds).clone() } }
			if g.r.chance(30) { if let Some(i) = g.sc.irows.as_mut() { for d in i.values_mut() { if g.r.chance(pct) { *d = g.r.pick(&kinds).clone() } } } }
		}
		let e = env(&mut g.r);
		let st = g.step(&cmd, Env { preempt_ppm: e.preempt_ppm.min(2000), malloc_yield: false, ..e });
		g.sc.steps.push(st);
		return g.sc
	}
	let mut cfg = WorldCfg::default();
	match prop {
		"C11" => { cfg.meta = 20; cfg.objs = 10; cfg.timers = 10; cfg.odd_palette = 20 }
		"C12" => cfg.meta = 85,
		"C13" => { cfg.objs = 75; cfg.timers = 60 }
		"C14" => { cfg.max_blocks = 40; cfg.meta = 5; cfg.objs = 5; cfg.timers = 5 }
		"C17" => { cfg.big_meta = 12; cfg.odd_palette = 35; cfg.meta = 65; cfg.max_blocks = 8 }
		_ => {}
	}
	let w = world(&mut r, &cfg);
	let need = prop == "C16" || matches!(prop, "C08" | "C17" | "C18") && r.chance(40) || r.chance(10);
	let irows = if need { Some(input(&mut r, &w, &cfg)) } else { None };
	let mut sc = Scenario { prop: prop.into(), kind: "history".into(), seed, rows: w.rows.clone(), irows, opt: dbopt(&mut r), iopt: dbopt(&mut r), extra: Disk::new(), steps: vec![], nums: BTreeMap::new() };
	let n = if prop == "C17" { 3 + r.below(6) } else { 1 + r.below(4) };
	for k in 0..n {
		let name = loop {
			let x = if r.chance(if own.len() > 3 { 100 } else { 60 }) || k + 1 == n { *r.pick(own) } else { *r.pick(&COMMANDS) };
			if x != "overlay" || sc.irows.is_some() { break x }
		};
		let cmd = telling(&mut r, name, &w, sc.irows.as_ref());
		let mut e = env(&mut r);
		let mut cuts = vec![];
		if k + 1 < n {
			match r.below(10) {
				0 | 1 => cuts.push(cutspec(&mut r)),
				2 | 3 => {
					let mut c = [0u64; 16];
					for (cls, m) in [(OPEN, 5u64), (READ, 25), (WRITE, 25), (TRUNC, 2), (SYNC, 4), (UNLINK, 2), (LOCK, 12), (MALLOC, 8000), (STDOUT, 8)] { c[cls as usize] = m }
					let f = fault(&mut r, &c, &[READ, WRITE, SYNC, TRUNC, UNLINK, OPEN, LOCK, MALLOC, STDOUT]);
					e.faults.push(f);
				}
				_ => {}
			}
		}
		sc.steps.push(Step { cmd, yes: true, map: MAP.into(), input: IMAP.into(), env: e, cuts });
	}
	let dmg = match prop { "C08" => 100, "C18" | "C17" => 30, _ => 8 };
	if r.chance(dmg) {
		let keys: Vec<i64> = sc.rows.keys().cloned().collect();
		if !keys.is_empty() {
			for _ in 0..1 + r.below(3) { let k = *r.pick(&keys); let v = damage(&mut r, &sc.rows[&k]); sc.rows.insert(k, v); }
		}
		if let Some(i) = sc.irows.as_mut() {
			let keys: Vec<i64> = i.keys().cloned().collect();
			if !keys.is_empty() && r.chance(50) { let k = *r.pick(&keys); let v = damage(&mut r, &i[&k]); i.insert(k, v); }
		}
		if prop == "C08" && r.chance(30) { let k = r.below(n); sc.nums.insert(format!("damage{k}"), r.next() | 1); }
	}
	sc
}

fn s(v: &[&str]) -> Vec<String> { v.iter().map(|x| x.to_string()).collect() }

/// Requests that must be refused, and some on the edge that must not be.
fn c07(seed: u64) -> Scenario {
	let mut r = Rng::new(seed);
	let cfg = WorldCfg { max_blocks: 5, ..WorldCfg::default() };
	let w = world(&mut r, &cfg);
	let irows = Some(input(&mut r, &w, &cfg));
	let mut sc = Scenario { prop: "C07".into(), kind: String::new(), seed, rows: w.rows.clone(), irows, opt: dbopt(&mut r), iopt: dbopt(&mut r), extra: Disk::new(), steps: vec![], nums: BTreeMap::new() };
	let mut e = env(&mut r);
	let mut map = MAP.to_string();
	let mut inputp = IMAP.to_string();
	let mut valid = false;
	let ok3 = || vec!["1".to_string(), "2".into(), "3".into()];
	let n3 = |r: &mut Rng, f: &dyn Fn(&mut Rng) -> i64| -> Vec<String> { (0..3).map(|_| f(r).to_string()).collect() };
	let mut raw: Vec<String>;
	let top = r.below(10);
	if top < 5 {
		// bad arguments
		let mut area = |r: &mut Rng| -> Vec<String> { let mut v = s(&["--p1"]); v.extend(n3(r, &|r| r.range(-100, 100))); v.push("--p2".into()); v.extend(n3(r, &|r| r.range(-100, 100))); v };
		let far = |r: &mut Rng| *r.pick(&[31001i64, -31001, 32767, -32768, 40000, 2147483647, -2147483648]);
		let bad_name = |r: &mut Rng| r.pick(&["stone", "Default:stone", "default:sto ne", "default:st-one", "", "mod-a:x", "a:b:c", "default:stone\u{e9}", "air2", "\u{e9}:x", "default stone", " air"]).to_string();
		let (k, v): (&str, Vec<String>) = match r.below(31) {
			0 => { let mut v = s(&["fill"]); v.extend(area(&mut r)); let b = far(&mut r); let i = 2 + r.usize(3); v[i] = b.to_string(); v.push("air".into()); ("corner outside the map", v) }
			1 => { let mut v = s(&["deleteblocks"]); v.extend(area(&mut r)); let b = far(&mut r); let i = 6 + r.usize(3); v[i] = b.to_string(); ("corner outside the map", v) }
			2 => { let mut v = s(&["replacenodes", "air", "a:b"]); v.extend(area(&mut r)); let b = far(&mut r); let i = 8 + r.usize(3); v[i] = b.to_string(); ("corner outside the map", v) }
			3 => ("invert without area", s(*r.pick(&[&["replacenodes", "air", "a:b", "--invert"][..], &["deletemeta", "--invert"], &["deleteobjects", "--invert"], &["deletetimers", "--node", "air", "--invert"], &["overlay", "@INPUT", "--invert"], &["setmetavar", "infotext", "x", "--invert"], &["replaceininv", "a:b", "a:c", "--invert"], &["setparam2", "--node", "air", "3", "--invert"]]))),
			4 => { let mut v = s(*r.pick(&[&["clone"][..], &["overlay", "@INPUT"]])); if v.len() == 1 || r.chance(30) { v.extend(area(&mut r)) } v.push("--offset".into()); let mut o = ok3(); let i = r.usize(3); o[i] = (*r.pick(&[62001i64, -62001, 70000, -2147483648, 2147483647])).to_string(); v.extend(o); ("offset too large", v) }
			5 => { let mut v = s(&["clone"]); v.extend(area(&mut r)); v.push("--offset".into()); let mut o = ok3(); let i = r.usize(3); o[i] = (*r.pick(&[61990i64, -61990, 62000, -62000, 31200, -31200])).to_string(); v.extend(o); ("destination outside the map", v) }
			6 => { let n = bad_name(&mut r); let mut v = s(&["fill"]); v.extend(area(&mut r)); v.push(n); ("bad node name", v) }
			7 => { let n = bad_name(&mut r); ("bad node name", if r.chance(50) { vec!["replacenodes".into(), n, "a:b".into()] } else { vec!["replacenodes".into(), "air".into(), n] }) }
			8 => { let n = bad_name(&mut r); ("bad node name", vec![(*r.pick(&["deletemeta", "deletetimers"])).into(), "--node".into(), n]) }
			9 => { let n = bad_name(&mut r); ("bad item or object name", vec!["deleteobjects".into(), (*r.pick(&["--obj", "--items"])).into(), n]) }
			10 => { let n = bad_name(&mut r); ("bad item name", if r.chance(50) { vec!["replaceininv".into(), n, "a:b".into()] } else { vec!["replaceininv".into(), "a:b".into(), n] }) }
			11 => { let n = bad_name(&mut r); ("bad node name", vec!["setmetavar".into(), "infotext".into(), "x".into(), "--nodes".into(), "air".into(), n]) }
			12 => ("same node twice", s(&["replacenodes", "a:b", "a:b"])),
			13 => ("same item twice", s(&["replaceininv", "a:b", "a:b"])),
			14 => ("items and object", s(&["deleteobjects", "--obj", "a:b", "--items", "a:c"])),
			15 => ("setparam2 without selection", s(&["setparam2", "5"])),
			16 => { let v = r.pick(&["256", "-1", "x", "300", "", "1.5", "0x10"]).to_string(); ("bad param2", vec!["setparam2".into(), "--node".into(), "air".into(), v]) }
			17 => ("delete with a value", s(&["setmetavar", "infotext", "x", "--delete"])),
			18 => ("neither value nor delete", s(&["setmetavar", "infotext"])),
			19 => ("neither item nor delete", s(&["replaceininv", "a:b"])),
			20 => ("new item and delete", s(&["replaceininv", "a:b", "a:c", "--delete"])),
			21 => { let mut v = s(&["overlay", "@INPUT"]); v.extend(area(&mut r)); v.extend(s(&["--invert", "--offset", "1", "0", "0"])); ("inverted overlay with offset", v) }
			22 => { let mut v = s(&["overlay", "@INPUT"]); v.extend(area(&mut r)); v.push("--offset".into()); let mut o = ok3(); let i = r.usize(3); o[i] = (*r.pick(&[62000i64, -62000])).to_string(); v.extend(o); ("destination outside the map", v) }
			23 => { let mut v = s(&["fill", "--p1", "1", "2", "x", "--p2", "0", "0", "0", "air"]); if r.chance(50) { v[4] = "99999999999".into() } ("bad number", v) }
			24 => ("half an area", s(*r.pick(&[&["fill", "--p1", "0", "0", "0", "air"][..], &["deletemeta", "--p2", "0", "0", "0"], &["clone", "--p1", "0", "0", "0", "--offset", "1", "1", "1"]]))),
			25 => ("missing argument", s(*r.pick(&[&["fill", "air"][..], &["clone", "--p1", "0", "0", "0", "--p2", "1", "1", "1"], &["deleteblocks"], &["replacenodes", "air"], &["overlay"], &["setparam2", "--node", "air"], &["setmetavar"]]))),
			26 => ("unknown command", s(*r.pick(&[&["frobnicate"][..], &["fil"], &[]]))),
			27 => ("unknown option", s(*r.pick(&[&["vacuum", "--now"][..], &["deletemeta", "--invert", "--frob"], &["vacuum", "extra"], &["fill", "--node", "air"]]))),
			29 => ("empty value", s(&["setmetavar", "infotext", ""])),
			28 => ("two coordinates", s(&["deletemeta", "--p1", "1", "2", "--p2", "1", "2", "3"])),
			_ => { let mut v = s(&["clone"]); v.extend(area(&mut r)); v.push("--offset".into()); v.extend(s(&["a", "b", "c"])); ("bad offset", v) }
		};
		sc.kind = k.into();
		raw = v;
	} else if top < 8 {
		// unusable files
		raw = match r.below(6) { 0 => s(&["vacuum"]), 1 => s(&["deletemeta"]), 2 => s(&["replacenodes", "air", "a:b"]), 3 => s(&["overlay", "@INPUT"]), 4 => s(&["fill", "--p1", "0", "0", "0", "--p2", "50", "50", "50", "air"]), _ => s(&["deleteobjects"]) };
		let over = raw[0] == "overlay";
		let on_input = over && r.chance(70);
		let target = if on_input { IMAP } else { MAP };
		let gone = Node { dir: false, mode: 0o7777, data: vec![] };
		let good = sc.disk()[MAP].data.clone();
		let db = |sql: &[&str], r: &mut Rng| -> Vec<u8> { let c = crate::sqlite::Conn::memory(); let p = [512, 1024, 4096][r.usize(3)]; let _ = c.exec(&format!("PRAGMA page_size = {p}")); for q in sql { c.exec(q).unwrap() } c.bytes() };
		let (k, n): (&str, Node) = match r.below(12) {
			0 => ("map file absent", gone),
			1 => { if on_input { inputp = "/sim/in/nothing".into() } else { map = "/sim/none/x".into() } ("path absent", gone) }
			2 => ("empty file", file(vec![])),
			3 => ("text file", file(b"hello world, this is not a database\n".repeat(1 + r.usize(100)))),
			4 => { let n = 100 + r.usize(6000); ("random bytes", file(r.bytes(n))) }
			5 => ("other table name", file(db(&["CREATE TABLE nodes (pos INT PRIMARY KEY, data BLOB)"], &mut r))),
			6 => ("other columns", file(db(&[*r.pick(&["CREATE TABLE blocks (posx INT, posy INT, posz INT, data BLOB, PRIMARY KEY (posx, posy, posz))", "CREATE TABLE blocks (pos INT, data BLOB)", "CREATE TABLE blocks (pos TEXT PRIMARY KEY, data BLOB)", "CREATE TABLE blocks (pos INT PRIMARY KEY, data TEXT)", "CREATE TABLE blocks (pos INT PRIMARY KEY, mtime INT, data BLOB)", "CREATE TABLE blocks (pos INT PRIMARY KEY)", "CREATE TABLE blocks (data BLOB, pos INT PRIMARY KEY)", "CREATE TABLE blocks (key INT PRIMARY KEY, data BLOB)", "CREATE TABLE blocks (pos INT PRIMARY KEY, value BLOB)", "CREATE TABLE blocks (pos INT, data BLOB PRIMARY KEY)"])], &mut r))),
			7 => ("no table", file(db(&["CREATE TABLE x (a)"], &mut r))),
			8 => { let n = 16 + r.usize(500); ("truncated header", file(good[..n.min(good.len())].to_vec())) }
			9 => { let mut g = good.clone(); for b in &mut g[..16] { *b ^= 0x55 } ("damaged header", file(g)) }
			10 => { sc.extra.insert(target.into(), Node { dir: true, mode: 0o755, data: vec![] }); ("directory without a map", Node { dir: true, mode: 0o755, data: vec![] }) }
			_ => { let mut g = good.clone(); let k = 100.min(g.len()); g[100 - 1 + 1 - 1] = 0; for b in &mut g[k..(k + 12)] { *b = 0xee } ("damaged first page", file(g)) }
		};
		sc.kind = format!("{}: {k}", if on_input { "input map" } else { "main map" });
		sc.extra.insert(target.into(), n);
	} else {
		valid = true;
		let edge = |r: &mut Rng| r.pick(&[-31000i64, -30999, -16, -1, 0, 15, 30999, 31000]).to_string();
		let corners = |r: &mut Rng| -> Vec<String> { let mut v = s(&["--p1"]); for _ in 0..3 { v.push(edge(r)) } v.push("--p2".into()); for _ in 0..3 { v.push(edge(r)) } v };
		let v: Vec<String> = match r.below(26) {
			18 | 19 => { let mut v = s(*r.pick(&[&["deletemeta"][..], &["deleteblocks"], &["deleteobjects"], &["deletetimers"], &["replacenodes", "air", "ignore"], &["setparam2", "--node", "air", "7"], &["replaceininv", "a:b", "a:c"], &["setmetavar", "infotext", "x"], &["overlay", "@INPUT"]])); v.extend(corners(&mut r)); if r.chance(40) { v.push("--invert".into()) } v }
			20 => { let mut v = s(&["fill"]); v.extend(corners(&mut r)); v.push("air".into()); if r.chance(50) { v.push("--invert".into()) } v }
			21..=24 => {
				// an offset as large as the area leaves room for
				let mut v = s(if r.chance(60) { &["clone"][..] } else { &["overlay", "@INPUT"] });
				v.extend(corners(&mut r));
				let mut o = s(&["--offset"]);
				for i in 0..3 {
					let at = v.len() - 7;
					let (a, b) = (v[at + i].parse::<i64>().unwrap(), v[at + 4 + i].parse::<i64>().unwrap());
					let (lo, hi) = (-31000 - a.min(b), 31000 - a.max(b));
					o.push(r.pick(&[lo, hi, lo / 2, hi / 2, (lo + hi) / 2, 0.clamp(lo, hi)]).to_string());
				}
				v.extend(o);
				v
			}
			25 => { let mut v = s(&["overlay", "@INPUT", "--offset"]); for _ in 0..3 { v.push(r.pick(&[-62000i64, -61999, -31001, -1, 0, 1, 31001, 61999, 62000]).to_string()) } v }
			0 => s(&["fill", "--p1", "-31000", "-31000", "-31000", "--p2", "-31000", "31000", "31000", "air"]),
			1 => s(&["deletemeta", "--p1", "31000", "31000", "31000", "--p2", "-31000", "-31000", "-31000", "--invert"]),
			2 => s(&["clone", "--p1", "-31000", "0", "0", "--p2", "-31000", "0", "0", "--offset", "62000", "0", "0"]),
			3 => s(&["clone", "--p1", "31000", "5", "5", "--p2", "31000", "5", "5", "--offset", "-62000", "-3", "7"]),
			4 => s(&["setparam2", "--node", "air", "0"]),
			5 => s(&["setparam2", "--node", "default:stone", "255"]),
			6 => s(&["replacenodes", "mod_1:Abc_9", "ignore"]),
			7 => s(&["replaceininv", "a:b", "--deletemeta"]),
			8 => s(&["replaceininv", "a:b", "a:c", "--deletemeta", "--nodes", "default:chest", "default:furnace"]),
			9 => s(&["deleteobjects", "--items"]),
			10 => s(&["deleteobjects", "--items", "a:b", "default:stone"]),
			11 => s(&["setmetavar", "infotext", "--delete", "--nodes", "default:chest"]),
			12 => s(&["overlay", "@INPUT", "--offset", "0", "0", "0", "--p1", "0", "0", "0", "--p2", "5", "5", "5", "--invert"]),
			13 => s(&["overlay", "@INPUT", "--offset", "62000", "0", "0"]),
			14 => s(&["vacuum"]),
			15 => s(&["deletetimers", "--p1", "0", "0", "0", "--p2", "0", "0", "0"]),
			16 => s(&["replacenodes", "air", "ignore", "--p1", "-31000", "-80", "-31000", "--p2", "31000", "200", "31000"]),
			_ => s(&["setmetavar", "infotext", "-", "--nodes", "a:b", "air"]),
		};
		sc.kind = "valid request".into();
		if r.chance(40) { map = "/sim/w".into(); inputp = "/sim/in".into() }
		raw = v;
	}
	let mut pre = vec![];
	if !valid {
		// whatever else goes wrong meanwhile
		if r.chance(30) { let cls = *r.pick(&[READ, LOCK, OPEN, MALLOC, STDOUT]); let n = match cls { MALLOC => 2500, _ => 6 }; e.faults.push(Fault { cls, kind: ERR, index: r.below(n), arg: *r.pick(&[5u64, 12, 11]), count: 1 }) }
		if r.chance(15) { pre.push("prompt") }
	}
	let yes = pre.is_empty();
	if !yes { e.input = vec![InChunk { delay: 0, kind: 0, data: b"y\n".to_vec() }] }
	raw.retain(|_| true);
	sc.nums.insert("valid".into(), valid as u64);
	sc.steps.push(Step { cmd: Cmd { name: "request".into(), raw: Some(raw), ..Default::default() }, yes, map, input: inputp, env: e, cuts: vec![] });
	sc
}

/// Histories that exhibit the findings listed for a property.
pub fn known_cases(ctx: &mut Ctx, prop: &str) -> Vec<Scenario> {
	let mut v = vec![];
	if prop != "C03" { return v }
	for version in [29u8, 28] {
		let mut r = Rng::new(77 + version as u64);
		let cfg = WorldCfg { max_blocks: 1, meta: 100, objs: 0, timers: 100, big_meta: 0, ungenerated: 0, odd_palette: 0, ..WorldCfg::default() };
		let (b, o) = block(&mut r, [0, 0, 0], &cfg, version);
		let mut sc = Scenario { prop: prop.into(), kind: "known finding".into(), seed: 0, rows: Rows::new(), irows: None, opt: DbOpt::default(), iopt: DbOpt::default(), extra: Disk::new(), steps: vec![], nums: BTreeMap::new() };
		sc.rows.insert(key_of([0, 0, 0]), encode(&Block { version, ..b }, &o));
		let cmd = Cmd { name: "deletetimers".into(), ..Default::default() };
		let n = ctx.baseline(&sc.rows, None, &sc.opt, &sc.iopt, &cmd).out.counts[MALLOC as usize];
		for index in (0..n).rev() {
			let mut e = Env::calm(5);
			e.faults.push(Fault { cls: MALLOC, kind: ERR, index, arg: 12, count: 1 });
			v.push(Scenario { steps: vec![Step { cmd: cmd.clone(), yes: true, map: MAP.into(), input: IMAP.into(), env: e, cuts: vec![] }], ..sc.clone() });
		}
	}
	v
}
