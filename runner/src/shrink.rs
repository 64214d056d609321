//! Reduces a failing scenario while it keeps failing in the same way.
use crate::disk::*;
use crate::eval::*;
use crate::model::Cmd;
use crate::scen::*;
use crate::sim::*;
use std::time::Instant;

pub struct Shrink<'a> { pub ctx: &'a mut Ctx, pub class: String, pub best: Scenario, pub v: Violation, pub end: Instant, pub tried: u64, pub kept: u64 }

impl<'a> Shrink<'a> {
	fn over(&self) -> bool { Instant::now() >= self.end }
	fn test(&mut self, sc: Scenario) -> bool {
		if self.over() || sc == self.best { return false }
		self.tried += 1;
		let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval(self.ctx, &sc)));
		if let Ok(Err(v)) = r {
			if v.class == self.class && !self.ctx.harness_now { self.best = sc; self.v = v; self.kept += 1; return true }
		}
		false
	}
	fn with(&mut self, f: impl FnOnce(&mut Scenario)) -> bool { let mut s = self.best.clone(); f(&mut s); self.test(s) }

	/// ddmin over a list reachable in the scenario.
	fn list<T: Clone>(&mut self, get: impl Fn(&Scenario) -> Vec<T>, set: impl Fn(&mut Scenario, Vec<T>), min: usize) {
		let mut chunk = get(&self.best).len();
		while chunk >= 1 {
			let mut i = 0;
			loop {
				let cur = get(&self.best);
				if i >= cur.len() || self.over() { break }
				let e = (i + chunk).min(cur.len());
				let mut v = cur[..i].to_vec();
				v.extend_from_slice(&cur[e..]);
				if v.len() >= min && self.with(|s| set(s, v)) { continue }
				i = e;
			}
			if chunk == 1 { break }
			chunk = (chunk / 2).max(1);
		}
	}

	pub fn go(&mut self) {
		if let Some((k, c)) = self.v.pin { self.with(|s| { s.steps[k].cuts = vec![c]; }); }
		let many = self.best.steps.len() > 1 && !matches!(self.best.prop.as_str(), "C04");
		if many {
			self.with(|s| { for k in 0..s.steps.len() { s.nums.remove(&format!("damage{k}")); } });
			if !self.best.nums.keys().any(|k| k.starts_with("damage")) { self.list(|s| s.steps.clone(), |s, v| s.steps = v, 1) }
		}
		for k in 0..self.best.steps.len() {
			self.list(|s| s.steps[k].env.faults.clone(), |s, v| s.steps[k].env.faults = v, 0);
			self.list(|s| s.steps[k].env.game.clone(), |s, v| s.steps[k].env.game = v, 0);
			self.with(|s| s.steps[k].env.preempt_ppm = 0);
			self.with(|s| s.steps[k].env.malloc_yield = false);
			self.with(|s| s.steps[k].env.capacity = u64::MAX / 2);
			if self.best.steps.len() > 1 && self.best.prop != "C04" { self.with(|s| s.steps[k].cuts.clear()); }
			for j in 0..self.best.steps[k].cuts.len() {
				for l in [Loss::None, Loss::All, Loss::Kill] { if self.best.steps[k].cuts.get(j).map_or(false, |c| c.loss != l && c.loss != Loss::Kill) { self.with(|s| s.steps[k].cuts[j].loss = l); } }
				self.with(|s| s.steps[k].cuts[j].torn = 1000);
			}
		}
		self.with(|s| s.opt = DbOpt::default());
		self.with(|s| s.iopt = DbOpt::default());
		self.with(|s| { s.opt.free = 0; s.opt.shuffle = 0; s.opt.extra_table = false });
		self.list(|s| s.rows.iter().map(|(a, b)| (*a, b.clone())).collect(), |s, v| s.rows = v.into_iter().collect(), 0);
		if self.best.irows.is_some() {
			self.with(|s| s.irows = None);
			if self.best.irows.is_some() { self.list(|s| s.irows.as_ref().unwrap().iter().map(|(a, b)| (*a, b.clone())).collect(), |s, v| s.irows = Some(v.into_iter().collect()), 0) }
		}
		if self.best.prop != "C07" { self.list(|s| s.extra.iter().map(|(a, b)| (a.clone(), b.clone())).collect(), |s, v| s.extra = v.into_iter().collect(), 0) }
		// faults may fall away only now that the map is small
		for k in 0..self.best.steps.len() {
			self.list(|s| s.steps[k].env.faults.clone(), |s, v| s.steps[k].env.faults = v, 0);
			self.list(|s| s.steps[k].env.game.clone(), |s, v| s.steps[k].env.game = v, 0);
			for j in 0..self.best.steps[k].env.game.len() {
				self.list(|s| s.steps[k].env.game[j].rows.clone(), |s, v| s.steps[k].env.game[j].rows = v, 0);
				self.with(|s| { s.steps[k].env.game[j].hold = 0 });
			}
			self.args(k);
			let calm = Env::calm(1);
			self.with(|s| { let e = &mut s.steps[k].env; e.lat_ns = calm.lat_ns; e.sync_ns = calm.sync_ns; e.step_ns = calm.step_ns });
			self.with(|s| { let e = &mut s.steps[k].env; e.mono_base = calm.mono_base; e.real_base = calm.real_base });
			self.with(|s| { s.steps[k].env.hash_seed = 1 });
			for j in 0..self.best.steps[k].env.faults.len() {
				self.with(|s| { s.steps[k].env.faults[j].count = 1 });
				// earlier occurrences make shorter stories
				let idx = self.best.steps[k].env.faults[j].index;
				for d in [idx, idx / 2, idx / 4, 1] { if d > 0 && self.best.steps[k].env.faults[j].index >= d { self.with(|s| { s.steps[k].env.faults[j].index -= d }); } }
			}
		}
		self.blocks();
		self.schedule();
	}

	/// Optional arguments that do not matter.
	fn args(&mut self, k: usize) {
		fn c(s: &mut Scenario, k: usize) -> &mut Cmd { &mut s.steps[k].cmd }
		if self.best.steps[k].cmd.raw.is_some() { return }
		let name = self.best.steps[k].cmd.name.clone();
		if !matches!(name.as_str(), "fill" | "clone" | "deleteblocks") { self.with(|s| { c(s, k).area = None; c(s, k).invert = false }); }
		self.with(|s| c(s, k).invert = false);
		if name != "clone" { self.with(|s| c(s, k).offset = None); }
		if !matches!(name.as_str(), "replacenodes") { self.with(|s| c(s, k).node = None); }
		self.list(|s| s.steps[k].cmd.nodes.clone(), |s, v| s.steps[k].cmd.nodes = v, 0);
	}

	/// Replace rows by an equally failing plainer block.
	fn blocks(&mut self) {
		let keys: Vec<i64> = self.best.rows.keys().cloned().collect();
		if keys.len() > 40 { return }
		for k in keys {
			if self.over() { return }
			let b = match crate::codec::parse(&self.best.rows[&k]) { crate::codec::Parsed::Good(b) => b, _ => continue };
			let enc = |b: &crate::codec::Block| crate::codec::encode(&b.clone().canon(), &crate::codec::EncOpt { perm: 0, unused: vec![], gap: 0, level: 6 });
			let mut cur = b;
			if !self.with(|s| { s.rows.insert(k, enc(&cur)); }) && self.best.rows[&k] != enc(&cur) { continue }
			for f in 0..6 {
				let mut n = cur.clone();
				match f {
					0 => n.objs.clear(),
					1 => n.timers.clear(),
					2 => n.meta.clear(),
					3 => { n.p1 = vec![0; 4096]; n.p2 = vec![0; 4096] }
					4 => { n.ts = 0; n.light = 0xffff }
					_ => { let f = n.nodes[0]; for x in n.nodes.iter_mut() { *x = f } }
				}
				if self.with(|s| { s.rows.insert(k, enc(&n)); }) { cur = n }
			}
		}
	}

	/// Turn the seeded schedule into an explicit list of thread switches and
	/// drop those that do not matter.
	fn schedule(&mut self) {
		if matches!(self.best.prop.as_str(), "C20") || self.best.steps.len() != 1 || self.best.steps[0].env.preempt_ppm == 0 || self.best.steps[0].env.explicit { return }
		let disk = self.best.disk();
		let out = self.ctx.run(&self.best.steps[0].clone(), &disk);
		let sw = out.switch_list();
		if sw.len() > 3000 { return }
		if self.with(|s| { let e = &mut s.steps[0].env; e.explicit = true; e.switches = sw }) {
			self.list(|s| s.steps[0].env.switches.clone(), |s, v| s.steps[0].env.switches = v, 0);
		}
	}
}

