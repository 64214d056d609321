//! Runs scenarios under the simulator and decides the properties on them.
use crate::disk::*;
use crate::model::*;
use crate::rng::*;
use crate::scen::*;
use crate::sim::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Violation { pub class: String, pub text: String, pub pin: Option<(usize, CutSpec)> }
pub type Verdict = Result<(), Violation>;
pub fn bad<T>(class: &str, text: String) -> Result<T, Violation> { Err(Violation { class: class.into(), text, pin: None }) }

#[derive(Default)]
pub struct Stats {
	pub scenarios: u64, pub runs: u64, pub baselines: u64, pub cuts: u64, pub vtime: u64, pub steps: u64,
	pub preempts: u64, pub switches: u64,
	pub faults: BTreeMap<String, u64>, pub probes: BTreeMap<String, u64>,
	pub scheds: HashSet<u64>, pub events: HashSet<u64>, pub images: HashSet<u64>, pub nontrivial: HashSet<u64>,
	pub harness: BTreeMap<String, u64>, pub stray: u64, pub edges: HashSet<u16>, pub fine_runs: u64, pub max_alloc: u64, pub nondet: u64, pub detchecks: u64,
}
impl Stats {
	pub fn merge(&mut self, o: Stats) {
		self.scenarios += o.scenarios; self.runs += o.runs; self.baselines += o.baselines; self.cuts += o.cuts; self.vtime += o.vtime; self.steps += o.steps;
		self.preempts += o.preempts; self.switches += o.switches; self.stray += o.stray; self.nondet += o.nondet; self.detchecks += o.detchecks;
		self.max_alloc = self.max_alloc.max(o.max_alloc);
		for (k, v) in o.faults { *self.faults.entry(k).or_default() += v }
		for (k, v) in o.probes { *self.probes.entry(k).or_default() += v }
		for (k, v) in o.harness { *self.harness.entry(k).or_default() += v }
		self.scheds.extend(o.scheds); self.edges.extend(o.edges); self.fine_runs += o.fine_runs; self.events.extend(o.events); self.images.extend(o.images); self.nontrivial.extend(o.nontrivial);
	}
	pub fn probe(&mut self, k: &str) { *self.probes.entry(k.into()).or_default() += 1 }
}

pub struct Base { pub out: Out, pub rows: Rows, pub irows_same: bool, pub done: bool }

pub struct Ctx { pub sim: Sim, pub scratch: String, cache: HashMap<u64, Rc<Base>>, pub st: Stats, pub harness_now: bool, pub ev: u64, syms: Option<Symbols> }

fn hash_rows(r: &Rows) -> u64 { r.iter().fold(7, |h, (k, d)| mix(h ^ *k as u64).wrapping_mul(31).wrapping_add(fnv(d))) }

impl Ctx {
	pub fn new(bin: &str, fbin: &str, lib: &str, id: usize) -> Ctx {
		let dir = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm".to_string() } else { std::env::temp_dir().to_string_lossy().into_owned() };
		Ctx { sim: Sim::new(bin, fbin, lib), scratch: format!("{dir}/mapeditr-sim-{}-{id}", std::process::id()), cache: HashMap::new(), st: Stats::default(), harness_now: false, ev: 0, syms: None }
	}
	/// Where in the program allocations were made to fail.
	pub fn oom_text(&mut self, out: &Out) -> String {
		let bin = self.sim.bin.clone();
		let sy = self.syms.get_or_insert_with(|| Symbols::load(&bin));
		out.oom_sites().iter().map(|a| sy.name(*a)).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(" and ")
	}
	pub fn run(&mut self, st: &Step, disk: &Disk) -> Out {
		let out = self.sim.run(&st.cmd.args(st.yes, &st.map, &st.input), disk, &st.env);
		self.note(&out, &st.env);
		out
	}
	fn note(&mut self, out: &Out, env: &Env) {
		let s = &mut self.st;
		s.runs += 1;
		s.vtime += out.vtime;
		s.steps += out.steps;
		s.preempts += out.preempts;
		s.switches += out.switches;
		s.max_alloc = s.max_alloc.max(out.max_alloc);
		if env.fine > 0 { s.edges.extend(out.edges.iter().cloned()); s.fine_runs += 1 }
		s.scheds.insert(out.sched_hash);
		s.events.insert(out.ev_hash);
		self.ev = mix(self.ev ^ out.ev_hash);
		for (i, f) in env.faults.iter().enumerate() {
			if out.fired[i] > 0 { *s.faults.entry(format!("{} on {}", KINDS[f.kind as usize], CLS[f.cls as usize])).or_default() += out.fired[i].min(1 << 20) }
		}
		if out.full > 0 { *s.faults.entry("disk full".into()).or_default() += out.full }
		for r in &out.recs {
			if r.typ == R_STRAY { s.stray += 1; }
			if r.typ == R_GAME && r.a >= 2 { *s.probes.entry(["", "", "second client: read", "second client: commit", "second client: busy", "second client: read then commit"][r.a.min(5) as usize].into()).or_default() += 1 }
		}
		if let End::Harness(e) = &out.end { *s.harness.entry(e.clone()).or_default() += 1; self.harness_now = true }
	}
	/// What the command does when left alone: one calm, fault-free run.
	pub fn baseline(&mut self, rows: &Rows, irows: Option<&Rows>, opt: &DbOpt, iopt: &DbOpt, cmd: &Cmd) -> Rc<Base> {
		let mut h = hash_rows(rows);
		if let Some(i) = irows { h = mix(h ^ hash_rows(i).rotate_left(17)) }
		h = mix(h ^ fnv(format!("{cmd:?}{opt:?}{iopt:?}").as_bytes()));
		if let Some(b) = self.cache.get(&h) { return b.clone() }
		let sc = Scenario { prop: String::new(), kind: String::new(), seed: 0, rows: rows.clone(), irows: irows.cloned(), opt: opt.clone(), iopt: iopt.clone(), extra: Disk::new(), steps: vec![], nums: BTreeMap::new() };
		let disk = sc.disk();
		let mut env = Env::calm(1);
		env.hash_seed = 4242;
		let out = self.sim.run(&cmd.args(true, MAP, IMAP), &disk, &env);
		self.st.baselines += 1;
		if let End::Harness(e) = &out.end { *self.st.harness.entry(e.clone()).or_default() += 1; self.harness_now = true }
		let img = after(&disk, &out);
		let got = recover(&img, MAP, &self.scratch, false).unwrap_or_default();
		let irows_same = irows.is_none() || img.get(IMAP) == disk.get(IMAP);
		let b = Rc::new(Base { done: out.done() && !out.error() && out.end == End::Exit(0), rows: got, irows_same, out });
		if self.cache.len() > 200 { self.cache.clear() }
		self.cache.insert(h, b.clone());
		b
	}
	pub fn sc_base(&mut self, sc: &Scenario, k: usize) -> Rc<Base> {
		self.baseline(&sc.rows, sc.irows.as_ref(), &sc.opt, &sc.iopt, &sc.steps[k].cmd)
	}
	pub fn sc_cmd_base(&mut self, sc: &Scenario, cmd: &Cmd) -> Rc<Base> {
		self.baseline(&sc.rows, sc.irows.as_ref(), &sc.opt, &sc.iopt, cmd)
	}
	pub fn rows_of(&mut self, d: &Disk, integrity: bool) -> Result<Rows, String> {
		recover(d, MAP, &self.scratch, integrity)
	}
	fn seen_image(&mut self, d: &Disk) {
		let mut h = 1u64;
		for (p, n) in d { if !n.dir { h = mix(h ^ fnv(p.as_bytes()) ^ fnv(&n.data).rotate_left(9)) } }
		self.st.images.insert(h);
	}
}

impl Drop for Ctx { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.scratch); } }

/// Record positions at which cutting makes a difference.
pub fn resolve(out: &Out, c: &CutSpec) -> Option<Cut> {
	let from = if c.after_done { out.done_at()? } else { 0 };
	let mut idx: Vec<usize> = out.recs.iter().enumerate().skip(from)
		.filter(|(_, r)| matches!(r.typ, R_WRITE | R_TRUNC | R_CREATE | R_UNLINK | R_FSYNC | R_DSYNC | R_RENAME) || (r.typ == R_OUT && r.a == 1)).map(|(i, _)| i + 1).collect();
	idx.insert(0, from);
	let at = idx[((c.frac.min(1_000_000) as u128 * (idx.len() as u128 - 1) + 500_000) / 1_000_000) as usize];
	Some(Cut { at, loss: c.loss, torn: c.torn, keep_dir: c.keep_dir })
}
pub fn image_at(disk: &Disk, out: &Out, c: &CutSpec) -> Option<Disk> { Some(image(disk, out, resolve(out, c)?)) }

fn cut_text(c: &CutSpec) -> String {
	match c.loss { Loss::Kill => if c.torn < 1000 { "process killed during a write".into() } else { "process killed".into() }, l => format!("power loss ({l:?})") }
}
fn auto_cuts(sc: &Scenario, st: &Step) -> Vec<CutSpec> {
	if !st.cuts.is_empty() { return st.cuts.clone() }
	let mut r = Rng::new(sc.seed ^ 0xc07);
	(0..sc.num("cuts")).map(|_| {
		let mut c = crate::gen::cutspec(&mut r);
		if sc.num("kill_only") > 0 { c.loss = Loss::Kill }
		if sc.num("after_done") > 0 { c.after_done = true; c.keep_dir = true; c.torn = 1000; c.frac = if r.chance(60) { 0 } else { r.below(1_000_001) } }
		c
	}).collect()
}

pub fn failing(env: &Env) -> bool { env.capacity < u64::MAX / 2 || env.faults.iter().any(|f| !matches!(f.kind, STALL | SPURIOUS)) }
pub fn fired(out: &Out, env: &Env, cls: u32) -> bool { env.faults.iter().enumerate().any(|(i, f)| f.cls == cls && !matches!(f.kind, STALL | SPURIOUS) && out.fired[i] > 0) }

pub fn tail(out: &Out) -> String {
	let l = out.lines();
	let n = l.len();
	let mut s: Vec<String> = l[n.saturating_sub(3)..].iter().map(|x| x.chars().take(110).collect()).collect();
	if !out.stderr.is_empty() { s.push(format!("stderr: {}", out.stderr.lines().take(2).collect::<Vec<_>>().join(" / ").chars().take(200).collect::<String>())) }
	format!("[end {:?}; console: {}]", out.end, s.join(" | "))
}

pub fn eval(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	ctx.harness_now = false;
	let v = match sc.prop.as_str() {
		"C01" => c01(ctx, sc),
		"C02" => c02(ctx, sc),
		"C03" => c03(ctx, sc),
		"C04" => c04(ctx, sc),
		"C05" => c05(ctx, sc),
		"C06" => c06(ctx, sc),
		"C07" => c07(ctx, sc),
		"C09" => c09(ctx, sc),
		"C10" => c10(ctx, sc),
		"C19" => crate::proto::c19(ctx, sc),
		"C20" => c20(ctx, sc),
		"C24" => c24(ctx, sc),
		"C25" => c25(ctx, sc),
		"C08" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" => crate::hist::history(ctx, sc),
		p => panic!("no oracle for {p}"),
	};
	if ctx.harness_now { return Ok(()) }
	v
}

/// Either all of the old map or all of the new map.
fn which(rows: &Rows, r0: &Rows, r1: &Rows) -> Option<u8> {
	if rows == r0 { Some(0) } else if rows == r1 || same_rows(rows, r1) { Some(1) } else { None }
}
pub fn mixture(rows: &Rows, r0: &Rows, r1: &Rows) -> String {
	let keys: BTreeSet<i64> = rows.keys().chain(r0.keys()).chain(r1.keys()).cloned().collect();
	let (mut old, mut new, mut other) = (0, 0, vec![]);
	for k in keys {
		let (g, a, b) = (rows.get(&k), r0.get(&k), r1.get(&k));
		if a == b && g == a { continue }
		let isb = match (g, b) { (Some(g), Some(b)) => same_meaning(g, b), (None, None) => true, _ => false };
		if g == a { old += 1 } else if isb { new += 1 } else { other.push(crate::codec::pos_of(k)) }
	}
	format!("{old} changed mapblocks have their old content, {new} their new content, {} something else{}", other.len(), other.first().map_or(String::new(), |p| format!(" (first {p:?})")))
}

fn c01(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let st = &sc.steps[0];
	let base = ctx.sc_base(sc, 0);
	let disk = sc.disk();
	let out = ctx.run(st, &disk);
	if ctx.harness_now { return Ok(()) }
	// C03 decides what a failed allocation may do to an edit reported as Done
	if !out.oom_sites().is_empty() && (out.done() || said_skipped(&out)) { ctx.st.probe("allocation failure survived"); return Ok(()) }
	let changes = base.rows != sc.rows;
	if !changes { ctx.st.probe("command changes nothing") }
	for c in auto_cuts(sc, st) {
		let Some(img) = image_at(&disk, &out, &c) else { continue };
		ctx.st.cuts += 1;
		ctx.seen_image(&img);
		let pin = Some((0, c));
		let rows = match ctx.rows_of(&img, true) {
			Ok(r) => r,
			Err(e) => return Err(Violation { class: "database-damaged".into(), pin, text: format!("{} during `{}`: {e}", cut_text(&c), st.cmd.name) }),
		};
		match which(&rows, &sc.rows, &base.rows) {
			Some(w) => {
				if changes {
					ctx.st.probe(if w == 0 { "recovered old map" } else { "recovered new map" });
					if img.iter().any(|(p, n)| p.ends_with("-journal") && !n.data.is_empty()) { ctx.st.probe("journal present at recovery"); }
					let h = mix(out.ev_hash ^ resolve(&out, &c).unwrap().at as u64);
					ctx.st.nontrivial.insert(h);
				}
			}
			None => return Err(Violation { class: "mixture".into(), pin, text: format!("{} during `{}`: {} {}", cut_text(&c), st.cmd.name, mixture(&rows, &sc.rows, &base.rows), tail(&out)) }),
		}
	}
	Ok(())
}

fn c02(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let st = &sc.steps[0];
	let base = ctx.sc_base(sc, 0);
	let disk = sc.disk();
	let out = ctx.run(st, &disk);
	if ctx.harness_now || !out.done() || out.error() { ctx.st.probe("no Done"); return Ok(()) }
	let changes = base.rows != sc.rows;
	for c in auto_cuts(sc, st) {
		let Some(img) = image_at(&disk, &out, &c) else { continue };
		ctx.st.cuts += 1;
		ctx.seen_image(&img);
		let pin = Some((0, c));
		let rows = match ctx.rows_of(&img, true) {
			Ok(r) => r,
			Err(e) => return Err(Violation { class: "database-damaged".into(), pin, text: format!("{} after `{}` reported Done: {e}", cut_text(&c), st.cmd.name) }),
		};
		if which(&rows, &base.rows, &base.rows).is_none() {
			return Err(Violation { class: "done-not-durable".into(), pin, text: format!("{} after `{}` printed 'Done.': {} {}", cut_text(&c), st.cmd.name, mixture(&rows, &sc.rows, &base.rows), tail(&out)) })
		}
		if changes { ctx.st.nontrivial.insert(mix(out.ev_hash ^ resolve(&out, &c).unwrap().at as u64 ^ fnv(format!("{:?}", c.loss).as_bytes()))); }
	}
	Ok(())
}

/// A mapblock was reported as left out (only possible without a message where there is no terminal).
fn said_skipped(out: &Out) -> bool { out.stdout.contains("Skipped") }
fn said(out: &Out) -> bool { out.error() || !out.stderr.trim().is_empty() }

fn c03(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let st = &sc.steps[0];
	let base = ctx.sc_base(sc, 0);
	let disk = sc.disk();
	let out = ctx.run(st, &disk);
	if ctx.harness_now { return Ok(()) }
	let any = out.full > 0 || st.env.faults.iter().enumerate().any(|(i, f)| !matches!(f.kind, STALL | SPURIOUS) && out.fired[i] > 0);
	let (mal, term) = (fired(&out, &st.env, MALLOC), fired(&out, &st.env, STDOUT));
	match out.end {
		End::Deadlock | End::Limit => return bad("hang", format!("`{}` does not end {}", st.cmd.name, tail(&out))),
		End::Signal(s) if s != 6 || !mal => return bad("killed", format!("`{}` died of signal {s} {}", st.cmd.name, tail(&out))),
		_ => {}
	}
	let img = after(&disk, &out);
	ctx.seen_image(&img);
	let rows = match ctx.rows_of(&img, true) { Ok(r) => r, Err(e) => return bad("database-damaged", format!("after `{}`: {e} {}", st.cmd.name, tail(&out))) };
	let w = which(&rows, &sc.rows, &base.rows);
	let success = out.done(); // every edit says so last
	let r1 = which(&rows, &base.rows, &base.rows).is_some();
	if !r1 && w != Some(0) && !success && !out.oom_sites().is_empty() {
		let at = ctx.oom_text(&out);
		if !at.split(" and ").any(|s| s.starts_with("sqlite3")) { return bad("memory-as-damage", format!("allocation failed outside the database, in {at}: `{}` wrote all but a mapblock, and then failed for another reason: {} {}", st.cmd.name, mixture(&rows, &sc.rows, &base.rows), tail(&out))) }
	}
	if success && !r1 && !out.oom_sites().is_empty() && !st.env.faults.iter().enumerate().any(|(i, f)| !matches!(f.kind, STALL | SPURIOUS) && f.cls != MALLOC && out.fired[i] > 0) && out.full == 0 {
		let at = ctx.oom_text(&out);
		if !at.split(" and ").any(|s| s.starts_with("sqlite3")) { return bad("memory-as-damage", format!("allocation failed outside the database, in {at}: `{}` reported Done with a mapblock left out: {} {}", st.cmd.name, mixture(&rows, &sc.rows, &base.rows), tail(&out))) }
	}
	if w.is_none() { return bad(if success { "false-done" } else { "partial" }, format!("`{}`: {} {}", st.cmd.name, mixture(&rows, &sc.rows, &base.rows), tail(&out))) }
	if success && !r1 { return bad("false-done", format!("`{}` printed Done without error but left the map unchanged {}", st.cmd.name, tail(&out))) }
	if !success && base.done && !said(&out) && !mal && !term { return bad("silent", format!("`{}` failed without any message {}", st.cmd.name, tail(&out))) }
	if any && base.rows != sc.rows {
		ctx.st.nontrivial.insert(out.ev_hash);
		ctx.st.probe(if success { "fault survived, edit complete" } else if w == Some(0) { "fault reported, map unchanged" } else { "fault reported after commit" });
	}
	if !any { ctx.st.probe("no fault fired") }
	Ok(())
}

fn c04(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let (a, b) = (&sc.steps[0], &sc.steps[1]);
	let mut disk = sc.disk();
	let out = ctx.run(a, &disk);
	if ctx.harness_now { return Ok(()) }
	let img = match a.cuts.first() { Some(c) => match image_at(&disk, &out, c) { Some(i) => { ctx.st.cuts += 1; i } None => return Ok(()) }, None => after(&disk, &out) };
	// read-only files become writable again once the fault is over
	disk = img;
	for n in disk.values_mut() { n.mode |= 0o200 }
	ctx.seen_image(&disk);
	let rec = match ctx.rows_of(&disk, true) { Ok(r) => r, Err(_) => { ctx.st.probe("unrecoverable image"); return Ok(()) } };
	let base = ctx.baseline(&rec, sc.irows.as_ref(), &sc.opt, &sc.iopt, &b.cmd);
	if !base.done { return Ok(()) }
	let out2 = ctx.run(b, &disk);
	if ctx.harness_now { return Ok(()) }
	let hot = disk.iter().any(|(p, n)| p.ends_with("-journal") && !n.data.is_empty());
	if hot { ctx.st.probe("rerun found a journal") }
	if !(out2.done() && !out2.error()) || out2.end != End::Exit(0) {
		return bad("rerun-fails", format!("after a run of `{}` that ended {}, running it again {}", a.cmd.name, tail(&out), tail(&out2)))
	}
	let img2 = after(&disk, &out2);
	let rows = match ctx.rows_of(&img2, true) { Ok(r) => r, Err(e) => return bad("database-damaged", format!("after the second run: {e}")) };
	if which(&rows, &base.rows, &base.rows).is_none() {
		return bad("rerun-differs", format!("second run of `{}`: {} {}", b.cmd.name, mixture(&rows, &rec, &base.rows), tail(&out2)))
	}
	if hot || out.end != End::Exit(0) || !out.done() || !a.cuts.is_empty() { if base.rows != rec { ctx.st.nontrivial.insert(mix(out.ev_hash ^ out2.ev_hash.rotate_left(7))); } }
	Ok(())
}

/// Serializability of the command among the second client's transactions.
fn c05(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let st = &sc.steps[0];
	let disk = sc.disk();
	let out = ctx.run(st, &disk);
	if ctx.harness_now { return Ok(()) }
	match out.end {
		End::Deadlock | End::Limit => return bad("hang", format!("`{}` does not end next to another client {}", st.cmd.name, tail(&out))),
		End::Signal(s) => return bad("killed", format!("signal {s} {}", tail(&out))),
		_ => {}
	}
	let img = after(&disk, &out);
	let end_rows = match ctx.rows_of(&img, true) { Ok(r) => r, Err(e) => return bad("database-damaged", e) };
	let end_irows = match &sc.irows { None => None, Some(_) => match recover(&img, IMAP, &ctx.scratch, false) { Ok(r) => Some(r), Err(e) => return bad("database-damaged", e) } };
	// history of the other client: committed operations in order
	#[derive(Debug)]
	struct Op { i: usize, snap: Option<Vec<(i64, u64, u64)>>, after_done: bool, maybe: bool }
	let done_at = out.done_at().unwrap_or(usize::MAX);
	let mut ops: Vec<Op> = vec![];
	let mut started: Option<(usize, usize)> = None;
	let mut busy = 0;
	for (ri, r) in out.recs.iter().enumerate() {
		if r.typ != R_GAME { continue }
		match r.a {
			1 => started = Some((r.b as usize, ri)),
			2 | 5 => {
				let d = out.data(r);
				let snap = d.chunks(24).map(|c| (i64::from_le_bytes(c[..8].try_into().unwrap()), u64::from_le_bytes(c[8..16].try_into().unwrap()), u64::from_le_bytes(c[16..24].try_into().unwrap()))).collect();
				ops.push(Op { i: r.b as usize, snap: Some(snap), after_done: started.map_or(false, |s| s.1 >= done_at), maybe: false });
				started = None;
			}
			3 => { ops.push(Op { i: r.b as usize, snap: None, after_done: started.map_or(false, |s| s.1 >= done_at), maybe: false }); started = None }
			4 => busy += 1,
			_ => {}
		}
	}
	// an operation cut off by the end of the process may have committed
	if let Some((i, _)) = started { if st.env.game[i].write && out.end != End::Exit(0) { ops.push(Op { i, snap: None, after_done: false, maybe: true }) } }
	let success = out.done() && !out.error();
	if !success && !said(&out) { return bad("silent", format!("`{}` failed without any message {}", st.cmd.name, tail(&out))) }
	let n = ops.len();
	let first_after = ops.iter().position(|o| o.after_done).unwrap_or(n);
	let places: Vec<Option<usize>> = if success { (0..=first_after).map(Some).collect() } else {
		// a fault after the commit point makes the command report a failure for an edit that stands
		let hit = st.env.faults.iter().enumerate().any(|(i, f)| !matches!(f.kind, STALL | SPURIOUS) && out.fired[i] > 0);
		let mut v = vec![None];
		if hit { v.extend((0..=n).map(Some)) }
		v
	};
	let mut why = String::new();
	for skip_last in [false, true] {
		if skip_last && !ops.last().map_or(false, |o| o.maybe) { continue }
		for place in &places {
			let (mut s, mut si) = (sc.rows.clone(), sc.irows.clone());
			let mut ok = true;
			for idx in 0..=n {
				if *place == Some(idx) {
					let b = ctx.baseline(&s, si.as_ref(), &sc.opt, &sc.iopt, &st.cmd);
					if !b.done { ok = false; why = "the command fails on this order".into(); break }
					s = b.rows.clone();
				}
				if idx == n { break }
				let o = &ops[idx];
				if o.maybe && skip_last { continue }
				let g = &st.env.game[o.i];
				let target = if g.path == IMAP { si.as_mut().unwrap() } else { &mut s };
				if let Some(snap) = &o.snap {
					let want: Vec<(i64, u64, u64)> = target.iter().map(|(k, d)| (*k, fnv(d), d.len() as u64)).collect();
					if &want != snap {
						let same = sc.num("loose") > 0;
						if !same { ok = false; why = format!("reader {} saw a different state", o.i); break }
					}
				}
				if o.snap.is_none() || g.upgrade {
					for (k, d) in &g.rows { match d { Some(d) => { target.insert(*k, d.clone()); } None => { target.remove(k); } } }
				}
			}
			if ok && !(s == end_rows || same_rows(&s, &end_rows)) { ok = false; why = format!("final map differs: {}", mixture(&end_rows, &sc.rows, &s)) }
			if ok && si != end_irows { ok = false; why = "final input map differs".into() }
			if ok {
				if n > 0 { ctx.st.nontrivial.insert(out.ev_hash); }
				if busy > 0 { ctx.st.probe("lock conflict met by the other client") }
				ctx.st.probe(match place { None => "command failed, no effect", Some(0) => "command before all other transactions", Some(p) if *p == n => "command after all other transactions", _ => "command between other transactions" });
				return Ok(())
			}
		}
	}
	bad("not-serializable", format!("`{}` {} next to {} committed operations of another client (busy {busy} times) matches no serial order; last tried: {why} {}", st.cmd.name, if success { "reported Done" } else { "failed" }, n, tail(&out)))
}

/// The user's answer as the terminal delivers it; None = unreadable.
fn answer(out: &Out) -> (Vec<u8>, bool) {
	let mut v = vec![];
	let mut err = false;
	for r in &out.recs {
		if r.typ == R_IN {
			if r.a == 2 { v.extend_from_slice(out.data(r)) }
			if r.a == 1 && r.b != 4 { err = true }
			if r.a == 0 { break }
			if v.contains(&b'\n') { break }
		}
	}
	(v, err)
}
pub fn mutation(r: &Rec) -> bool { matches!(r.typ, R_WRITE | R_TRUNC | R_CREATE | R_UNLINK | R_RENAME) }

fn same_files(a: &Disk, b: &Disk) -> Option<String> {
	for (p, n) in a { if !n.dir { match b.get(p) { None => return Some(format!("{p} is gone")), Some(m) => if m.data != n.data { return Some(format!("{p} changed")) } } } }
	for (p, n) in b { if !n.dir && !a.contains_key(p) { return Some(format!("{p} was created")) } }
	None
}

fn c06(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let st = &sc.steps[0];
	let base = ctx.sc_base(sc, 0);
	let disk = sc.disk();
	let out = ctx.run(st, &disk);
	if ctx.harness_now { return Ok(()) }
	// the answer becomes known with the last input record before the edit
	let mut line: Vec<u8> = vec![];
	let mut yes_at = usize::MAX;
	let mut asked = false;
	for (i, r) in out.recs.iter().enumerate() {
		if r.typ == R_INREQ { asked = true }
		if r.typ == R_IN && yes_at == usize::MAX {
			if r.a == 2 { line.extend_from_slice(out.data(r)) }
			let end = r.a == 0 || line.contains(&b'\n');
			if end {
				let l = line.split(|c| *c == b'\n').next().unwrap_or(&[]);
				let s = String::from_utf8_lossy(l).into_owned();
				if matches!(s.trim(), "y" | "Y") { yes_at = i }
				break
			}
		}
	}
	if let Some((i, r)) = out.recs.iter().enumerate().find(|(_, r)| mutation(r)) {
		if i < yes_at {
			return bad("changed-before-yes", format!("`{}` changed a file (record {i}, type {}) before the user answered yes (input so far {:?}) {}", st.cmd.name, r.typ, String::from_utf8_lossy(&line), tail(&out)))
		}
	}
	let img = after(&disk, &out);
	if yes_at == usize::MAX {
		if let Some(d) = same_files(&disk, &img) { return bad("changed-without-yes", format!("`{}`: {d} although the answer was {:?} {}", st.cmd.name, String::from_utf8_lossy(&line), tail(&out))) }
		if out.done() { return bad("done-without-yes", format!("`{}` reports Done although the answer was {:?}", st.cmd.name, String::from_utf8_lossy(&line))) }
		if matches!(out.end, End::Deadlock | End::Limit) { return bad("hang", format!("`{}` hangs after the answer {:?} {}", st.cmd.name, String::from_utf8_lossy(&line), tail(&out))) }
		if asked { ctx.st.nontrivial.insert(out.ev_hash); ctx.st.probe("answer was not yes") }
	} else if !failing(&st.env) {
		let rows = match ctx.rows_of(&img, true) { Ok(r) => r, Err(e) => return bad("database-damaged", e) };
		if base.done && (!out.done() || which(&rows, &base.rows, &base.rows).is_none()) {
			return bad("yes-ignored", format!("`{}` answered yes: {} {}", st.cmd.name, mixture(&rows, &sc.rows, &base.rows), tail(&out)))
		}
		ctx.st.nontrivial.insert(out.ev_hash);
		ctx.st.probe("answer was yes");
	}
	let _ = answer;
	Ok(())
}

fn c07(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let st = &sc.steps[0];
	let disk = sc.disk();
	let out = ctx.run(st, &disk);
	if ctx.harness_now { return Ok(()) }
	let what = format!("{:?}", st.cmd.args(st.yes, &st.map, &st.input).iter().map(|s| s.chars().take(40).collect::<String>()).collect::<Vec<_>>());
	let oom = out.end == End::Signal(6) && fired(&out, &st.env, MALLOC);
	if matches!(out.end, End::Deadlock | End::Limit | End::Signal(_)) && !oom { return bad("hang", format!("{} ({what}) {}", sc.kind, tail(&out))) }
	let img = after(&disk, &out);
	if sc.num("valid") > 0 {
		let refused = if st.cmd.raw.as_ref().map_or(false, |r| r.iter().any(|a| a == "-h" || a == "--help" || a == "-V")) { false } else { !out.done() || out.error() };
		if refused { return bad("valid-refused", format!("{} ({what}) {}", sc.kind, tail(&out))) }
		ctx.st.probe("valid request accepted");
		ctx.st.nontrivial.insert(out.ev_hash);
		return Ok(())
	}
	if let Some(d) = same_files(&disk, &img) { return bad("refused-changed", format!("{} ({what}): {d} {}", sc.kind, tail(&out))) }
	if let Some(r) = out.recs.iter().find(|r| mutation(r)) { return bad("refused-changed", format!("{} ({what}): a file was touched (record type {}) {}", sc.kind, r.typ, tail(&out))) }
	if out.done() { return bad("not-refused", format!("{} ({what}) {}", sc.kind, tail(&out))) }
	if !said(&out) && !failing(&st.env) { return bad("silent", format!("{} ({what}) {}", sc.kind, tail(&out))) }
	ctx.st.probe(&format!("refused: {}", sc.kind));
	ctx.st.nontrivial.insert(out.ev_hash);
	Ok(())
}

fn c09(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let mut disk = sc.disk();
	for (k, st) in sc.steps.iter().enumerate() {
		let out = ctx.run(st, &disk);
		if ctx.harness_now { return Ok(()) }
		let img = match st.cuts.first() { Some(c) => match image_at(&disk, &out, c) { Some(i) => { ctx.st.cuts += 1; i } None => return Ok(()) }, None => after(&disk, &out) };
		let over = st.cmd.name == "overlay" && st.map != IMAP;
		if over {
			let hot = disk.iter().any(|(p, n)| p.starts_with("/sim/in/") && p.ends_with("-journal") && !n.data.is_empty());
			if hot { ctx.st.probe("input map with a journal") }
			let names: BTreeMap<u32, String> = disk.iter().enumerate().map(|(i, (p, _))| (i as u32, p.clone()))
				.chain(out.recs.iter().filter(|r| r.typ == R_CREATE).map(|r| (r.a, String::from_utf8_lossy(out.data(r)).into_owned()))).collect();
			for r in &out.recs {
				let game = match r.typ { R_WRITE | R_TRUNC | R_OPEN => r.c != 0, R_CREATE | R_UNLINK | R_RENAME => r.b != 0, _ => continue };
				let p = names.get(&r.a).cloned().unwrap_or_default();
				if game || !p.starts_with("/sim/in/") { continue }
				if mutation(r) { return bad("input-changed", format!("step {k} `overlay` {} {p} {}", ["", "wrote to", "truncated", "created", "deleted"].get(r.typ as usize).unwrap_or(&"renamed"), tail(&out))) }
				if r.typ == R_OPEN && (r.b & 3) != 0 { return bad("input-opened-for-writing", format!("step {k} `overlay` opened {p} with flags {:#x} {}", r.b, tail(&out))) }
			}
			// without another client the files must also be literally the same
			if st.env.game.iter().all(|g| !g.path.starts_with("/sim/in/")) {
				for (p, n) in &disk { if p.starts_with("/sim/in/") && !n.dir && img.get(p).map(|m| &m.data) != Some(&n.data) { return bad("input-changed", format!("step {k}: {p} differs {}", tail(&out))) } }
				if let Some(p) = img.keys().find(|p| p.starts_with("/sim/in/") && !disk.contains_key(*p)) { return bad("input-changed", format!("step {k}: {p} was created {}", tail(&out))) }
			}
			ctx.st.nontrivial.insert(out.ev_hash);
			ctx.st.probe(if out.done() { "overlay done" } else { "overlay failed or cut off" });
		}
		disk = img;
	}
	Ok(())
}

fn c10(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let st = &sc.steps[0];
	let disk = sc.disk();
	let out = ctx.run(st, &disk);
	if ctx.harness_now { return Ok(()) }
	match out.end {
		End::Deadlock | End::Limit => return bad("hang", format!("vacuum does not end {}", tail(&out))),
		End::Signal(s) if !(s == 6 && fired(&out, &st.env, MALLOC)) => return bad("killed", format!("signal {s} {}", tail(&out))),
		_ => {}
	}
	for c in auto_cuts(sc, st) {
		let Some(img) = image_at(&disk, &out, &c) else { continue };
		ctx.st.cuts += 1;
		ctx.seen_image(&img);
		let pin = Some((0, c));
		match ctx.rows_of(&img, true) {
			Err(e) => return Err(Violation { class: "database-damaged".into(), pin, text: format!("{} during vacuum: {e}", cut_text(&c)) }),
			Ok(r) => if r != sc.rows { return Err(Violation { class: "rows-changed".into(), pin, text: format!("{} during vacuum: {}", cut_text(&c), mixture(&r, &sc.rows, &sc.rows)) }) },
		}
		ctx.st.nontrivial.insert(mix(out.ev_hash ^ resolve(&out, &c).unwrap().at as u64));
	}
	let img = after(&disk, &out);
	match ctx.rows_of(&img, true) {
		Err(e) => return bad("database-damaged", format!("after vacuum: {e} {}", tail(&out))),
		Ok(r) => if r != sc.rows { return bad("rows-changed", format!("after vacuum: {} {}", mixture(&r, &sc.rows, &sc.rows), tail(&out))) },
	}
	let success = out.done() && !out.error();
	if success && !fired(&out, &st.env, STDOUT) {
		// what a vacuum of the same rows needs
		let want = { let c = crate::sqlite::Conn::load(&disk[MAP].data).unwrap(); let _ = c.exec("VACUUM"); c.bytes().len() };
		let got = img[MAP].data.len();
		if got > want + 2 * sc.opt.page as usize { return bad("not-compacted", format!("vacuum reported Done but the file has {got} bytes, {want} suffice {}", tail(&out))) }
		ctx.st.probe("vacuum completed");
		if !failing(&st.env) || out.full > 0 || st.env.faults.iter().enumerate().any(|(i, _)| out.fired[i] > 0) { ctx.st.nontrivial.insert(out.ev_hash); }
	} else if !success {
		let term = fired(&out, &st.env, STDOUT) || fired(&out, &st.env, MALLOC);
		if !said(&out) && !term { return bad("silent", format!("vacuum failed without an error {}", tail(&out))) }
		if !failing(&st.env) { return bad("not-done", format!("vacuum fails without any fault {}", tail(&out))) }
		ctx.st.probe("vacuum failed visibly");
		ctx.st.nontrivial.insert(out.ev_hash);
		// still usable
		let mut d2 = img.clone();
		for n in d2.values_mut() { n.mode |= 0o200 }
		let again = Step { env: Env::calm(3), cuts: vec![], ..st.clone() };
		let o2 = ctx.run(&again, &d2);
		if !(o2.done() && !o2.error()) { return bad("unusable", format!("after a failed vacuum {} another one {}", tail(&out), tail(&o2))) }
	}
	Ok(())
}

fn c20(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let base = ctx.sc_base(sc, 0);
	let disk = sc.disk();
	let st = &sc.steps[0];
	let want = crate::proto::messages(&base.out);
	let out = ctx.run(st, &disk);
	if ctx.harness_now { return Ok(()) }
	let alt = Scenario { opt: sc.iopt.clone(), irows: sc.irows.clone(), iopt: sc.opt.clone(), ..sc.clone() };
	let d2 = alt.disk();
	let mut env2 = st.env.clone();
	let mut r = Rng::new(sc.seed ^ 0x20);
	env2.hash_seed = r.next();
	let s2 = Step { env: Env { seed: r.next(), ..env2 }, ..st.clone() };
	let out2 = ctx.run(&s2, &d2);
	if ctx.harness_now { return Ok(()) }
	for (o, d, l) in [(&out, &disk, "this layout, schedule and clock"), (&out2, &d2, "another page size, cache size, row order and hash seed")] {
		let img = after(d, o);
		let rows = match ctx.rows_of(&img, true) { Ok(r) => r, Err(e) => return bad("database-damaged", format!("{e} {}", tail(o))) };
		if base.done != (o.done() && !o.error()) { return bad("outcome-depends", format!("`{}` under {l}: {} but normally {}", st.cmd.name, tail(o), tail(&base.out))) }
		if !(rows == base.rows || same_rows(&rows, &base.rows)) { return bad("content-depends", format!("`{}` under {l}: {} {}", st.cmd.name, mixture(&rows, &sc.rows, &base.rows), tail(o))) }
		let got = crate::proto::messages(o);
		if got != want { return bad("report-depends", format!("`{}` under {l} prints {got:?} instead of {want:?}", st.cmd.name)) }
		if base.rows != sc.rows { ctx.st.nontrivial.insert(o.ev_hash); }
		let spill = o.done_at().map_or(false, |_| o.recs.iter().any(|r| r.typ == R_WRITE && r.a == map_id(d)) && first_commit_write(o, d));
		if spill { ctx.st.probe("page cache spilled before commit") }
	}
	Ok(())
}
fn map_id(d: &Disk) -> u32 { d.keys().position(|p| p == MAP).unwrap_or(0) as u32 }
/// Was the map file written before "Committing..." was printed?
fn first_commit_write(o: &Out, d: &Disk) -> bool {
	let id = map_id(d);
	let mut acc = String::new();
	for r in &o.recs {
		if r.typ == R_WRITE && r.a == id { return true }
		if r.typ == R_OUT && r.a == 1 { acc.push_str(&String::from_utf8_lossy(o.data(r))); if acc.contains("Committing") { return false } }
	}
	false
}

/// Nothing but the rows of the map: not the rest of the database, not the rest of the disk.
fn c24(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let mut disk = sc.disk();
	let scratch = ctx.scratch.clone();
	let want = match facts(&disk, MAP, &scratch) { Ok(f) => f, Err(e) => panic!("facts of a new map: {e}") };
	let journal = format!("{MAP}-journal");
	for (k, st) in sc.steps.iter().enumerate() {
		let out = ctx.run(st, &disk);
		if ctx.harness_now { return Ok(()) }
		let name = &st.cmd.name;
		let names: BTreeMap<u32, String> = disk.iter().enumerate().map(|(i, (p, _))| (i as u32, p.clone()))
			.chain(out.recs.iter().filter(|r| r.typ == R_CREATE).map(|r| (r.a, String::from_utf8_lossy(out.data(r)).into_owned()))).collect();
		let own = |p: &str| p == MAP || p == journal || p.starts_with("/sim/tmp/");
		for r in &out.recs {
			let p = names.get(&r.a).cloned().unwrap_or_default();
			match r.typ {
				R_WRITE | R_TRUNC if !own(&p) => return bad("other-file", format!("step {k} `{name}` wrote to {p} {}", tail(&out))),
				R_CREATE | R_UNLINK if !own(&p) => return bad("other-file", format!("step {k} `{name}` {} {p} {}", if r.typ == R_CREATE { "created" } else { "deleted" }, tail(&out))),
				R_UNLINK if p == MAP => return bad("other-file", format!("step {k} `{name}` deleted the map {}", tail(&out))),
				R_RENAME => return bad("other-file", format!("step {k} `{name}` renamed {p} to {} {}", String::from_utf8_lossy(out.data(r)), tail(&out))),
				R_CHMOD if p != journal && !p.starts_with("/sim/tmp/") => return bad("other-file", format!("step {k} `{name}` changed the permissions of {p} to {:o} {}", r.b, tail(&out))),
				R_OPEN if !own(&p) && (r.b & 3) != 0 => return bad("other-file", format!("step {k} `{name}` opened {p} for writing {}", tail(&out))),
				R_STRAY => return bad("other-file", format!("step {k} `{name}` tried to change {} outside the world {}", String::from_utf8_lossy(out.data(r)), tail(&out))),
				_ => {}
			}
		}
		let cut = st.cuts.first();
		let img = match cut { Some(c) => match image_at(&disk, &out, c) { Some(i) => { ctx.st.cuts += 1; i } None => return Ok(()) }, None => after(&disk, &out) };
		ctx.seen_image(&img);
		let orderly = cut.is_none() && out.end == End::Exit(0) && !failing(&st.env);
		for (p, n) in &disk {
			if n.dir || p == MAP || p == &journal || p.starts_with("/sim/tmp/") { continue }
			match img.get(p) { Some(m) if m.data == n.data => {} _ => return bad("other-file", format!("step {k} `{name}`: {p} is gone or differs {}", tail(&out))) }
		}
		if !img.contains_key(MAP) { return bad("other-file", format!("step {k} `{name}`: the map is gone {}", tail(&out))) }
		for p in img.keys() {
			if disk.contains_key(p) { continue } // an empty journal may stay where nothing is written
			if orderly || !own(p) { return bad("left-behind", format!("step {k} `{name}` {}left {p} behind {}", if orderly { "ended normally and " } else { "" }, tail(&out))) }
		}
		let got = match facts(&img, MAP, &scratch) { Ok(f) => f, Err(e) => return bad("database-damaged", format!("step {k} `{name}`: {e} {}", tail(&out))) };
		if got != want {
			let gone = want.iter().find(|x| !got.contains(x));
			let new = got.iter().find(|x| !want.contains(x));
			return bad("database-settings", format!("step {k} `{name}`: {:?} became {:?} {}", gone, new, tail(&out)))
		}
		if img.get(MAP).map(|n| &n.data) != disk.get(MAP).map(|n| &n.data) { ctx.st.nontrivial.insert(mix(out.ev_hash ^ fnv(format!("{:?}", cut).as_bytes()))); ctx.st.probe(if cut.is_some() { "cut off, file changed" } else if orderly { "completed, file changed" } else { "faulted, file changed" }) } else { ctx.st.probe("file unchanged") }
		disk = img;
		for n in disk.values_mut() { n.mode |= 0o200 }
	}
	Ok(())
}

/// What a command may need: SQLite's page caches, the keys of the mapblocks, and for the
/// commands that copy twice the mapblocks they mean to remember.
pub fn heap_limit(cmd: &Cmd, blocks: usize) -> u64 {
	(9 << 20) + 100 * blocks as u64 + if matches!(cmd.name.as_str(), "clone" | "overlay") { 2 * 1024 * 17_500 } else { 0 }
}

fn c25(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let mut st = sc.steps[0].clone();
	let n = sc.rows.len() + sc.irows.as_ref().map_or(0, |r| r.len());
	st.env.heap = heap_limit(&st.cmd, n);
	let disk = sc.disk();
	let out = ctx.run(&st, &disk);
	if ctx.harness_now { return Ok(()) }
	let oom = out.recs.iter().filter(|r| r.typ == R_OOM).count();
	if oom > 0 { return bad("memory", format!("`{}` on {} mapblocks needs more than {} bytes of memory {}", st.cmd.name, n, st.env.heap, tail(&out))) }
	if !failing(&st.env) && (out.end != End::Exit(0) || !out.done() || out.error()) { return bad("not-done", format!("`{}` on {} mapblocks {}", st.cmd.name, n, tail(&out))) }
	ctx.st.probe(&format!("{}, at most {} MB", st.cmd.name, (out.max_live >> 20) + 1));
	ctx.st.nontrivial.insert(out.ev_hash);
	Ok(())
}
