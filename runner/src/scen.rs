//! A scenario: everything that decides one simulated history. Written out as a
//! replay file and read back from one.
use crate::disk::*;
use crate::json::*;
use crate::model::*;
use crate::sim::*;
use std::collections::BTreeMap;

/// A cut whose place in the log is a fraction of the interesting records.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct CutSpec { pub frac: u64, pub after_done: bool, pub loss: Loss, pub torn: u64, pub keep_dir: bool }

#[derive(Clone, Debug, PartialEq)]
pub struct Step {
	pub cmd: Cmd,
	pub yes: bool,
	pub map: String,
	pub input: String,
	pub env: Env,
	/// what the next step (or the final check) finds: the disk at these cuts
	pub cuts: Vec<CutSpec>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
	pub prop: String,
	pub kind: String,
	pub seed: u64,
	pub rows: Rows,
	pub irows: Option<Rows>,
	pub opt: DbOpt,
	pub iopt: DbOpt,
	/// files other than the two maps; a map path given here replaces the map
	pub extra: Disk,
	pub steps: Vec<Step>,
	pub nums: BTreeMap<String, u64>,
}

pub const MAP: &str = "/sim/w/map.sqlite";
pub const IMAP: &str = "/sim/in/map.sqlite";

impl Scenario {
	pub fn num(&self, k: &str) -> u64 { self.nums.get(k).copied().unwrap_or(0) }
	pub fn disk(&self) -> Disk {
		let mut d = Disk::new();
		for p in ["/sim", "/sim/tmp", "/sim/w"] { d.insert(p.into(), dir()); }
		d.insert(MAP.into(), file(build_db(&self.rows, &self.opt)));
		if let Some(r) = &self.irows {
			d.insert("/sim/in".into(), dir());
			d.insert(IMAP.into(), file(build_db(r, &self.iopt)));
		}
		for (p, n) in &self.extra {
			if n.mode == 0o7777 { d.remove(p); } else { d.insert(p.clone(), n.clone()); }
		}
		d
	}
}

// -------------------------------------------------------------------- JSON
fn p3(p: &P3) -> J { J::A(p.iter().map(|v| J::S(v.to_string())).collect()) }
fn up3(j: &J) -> P3 { let v: Vec<i32> = j.a().iter().map(|x| x.s().parse().unwrap_or(0)).collect(); [v[0], v[1], v[2]] }
fn os(s: &Option<String>) -> J { s.as_ref().map_or(J::Null, |s| J::S(s.clone())) }
fn uos(j: &J) -> Option<String> { if let J::S(s) = j { Some(s.clone()) } else { None } }
fn ls(v: &[String]) -> J { J::A(v.iter().map(|s| J::S(s.clone())).collect()) }
fn uls(j: &J) -> Vec<String> { j.a().iter().map(|x| x.s().to_string()).collect() }

pub fn cmd_json(c: &Cmd) -> J {
	let mut v = vec![("name", J::S(c.name.clone()))];
	if let Some((a, b)) = &c.area { v.push(("area", J::A(vec![p3(a), p3(b)]))) }
	if c.invert { v.push(("invert", true.into())) }
	if let Some(o) = &c.offset { v.push(("offset", p3(o))) }
	for (k, s) in [("node", &c.node), ("new_node", &c.new_node), ("object", &c.object), ("item", &c.item), ("new_item", &c.new_item), ("key", &c.key), ("value", &c.value)] {
		if s.is_some() { v.push((k, os(s))) }
	}
	if !c.nodes.is_empty() { v.push(("nodes", ls(&c.nodes))) }
	if let Some(i) = &c.items { v.push(("items", ls(i))) }
	if c.delete { v.push(("delete", true.into())) }
	if c.delete_meta { v.push(("delete_meta", true.into())) }
	if let Some(p) = c.param2 { v.push(("param2", (p as u64).into())) }
	if let Some(r) = &c.raw { v.push(("raw", ls(r))) }
	obj(v)
}
fn ucmd(j: &J) -> Cmd {
	Cmd {
		name: j.get("name").s().into(),
		area: match j.get("area") { J::A(v) => Some((up3(&v[0]), up3(&v[1]))), _ => None },
		invert: j.get("invert").b(),
		offset: match j.get("offset") { o @ J::A(_) => Some(up3(o)), _ => None },
		node: uos(j.get("node")), nodes: uls(j.get("nodes")), new_node: uos(j.get("new_node")), object: uos(j.get("object")),
		items: match j.get("items") { i @ J::A(_) => Some(uls(i)), _ => None },
		item: uos(j.get("item")), new_item: uos(j.get("new_item")),
		delete: j.get("delete").b(), delete_meta: j.get("delete_meta").b(),
		key: uos(j.get("key")), value: uos(j.get("value")),
		param2: match j.get("param2") { J::U(v) => Some(*v as u8), _ => None },
		raw: match j.get("raw") { r @ J::A(_) => Some(uls(r)), _ => None },
	}
}

pub fn env_json(e: &Env) -> J {
	obj(vec![
		("seed", e.seed.into()), ("hash_seed", e.hash_seed.into()), ("preempt_ppm", e.preempt_ppm.into()), ("explicit", e.explicit.into()),
		("switches", J::A(e.switches.iter().flat_map(|(a, b)| [J::U(*a), J::U(*b)]).collect())),
		("step_ns", e.step_ns.into()), ("lat_ns", e.lat_ns.into()), ("sync_ns", e.sync_ns.into()), ("mono_base", e.mono_base.into()), ("real_base", e.real_base.into()),
		("max_steps", e.max_steps.into()), ("max_vtime", e.max_vtime.into()), ("capacity", e.capacity.into()), ("heap", e.heap.into()), ("malloc_yield", e.malloc_yield.into()), ("pct", e.pct.into()), ("fine", e.fine.into()),
		("faults", J::A(e.faults.iter().map(|f| obj(vec![("on", CLS[f.cls as usize].into()), ("kind", KINDS[f.kind as usize].into()), ("index", f.index.into()), ("arg", f.arg.into()), ("count", f.count.into())])).collect())),
		("input", J::A(e.input.iter().map(|c| obj(vec![("delay", c.delay.into()), ("kind", c.kind.into()), ("data", hex(&c.data).into())])).collect())),
		("game", J::A(e.game.iter().map(|g| obj(vec![("write", g.write.into()), ("upgrade", g.upgrade.into()), ("at", g.at.into()), ("hold", g.hold.into()), ("tries", g.tries.into()), ("retry", g.retry.into()), ("path", g.path.clone().into()),
			("rows", J::A(g.rows.iter().map(|(k, d)| obj(vec![("key", k.to_string().into()), ("data", d.as_ref().map_or(J::Null, |d| hex(d).into()))])).collect()))])).collect())),
	])
}
fn uenv(j: &J) -> Env {
	let u = |k: &str| j.get(k).u();
	let idx = |t: &[&str], s: &str| t.iter().position(|x| *x == s).unwrap_or(0) as u32;
	Env {
		seed: u("seed"), hash_seed: u("hash_seed"), preempt_ppm: u("preempt_ppm"), explicit: j.get("explicit").b(),
		switches: j.get("switches").a().chunks(2).map(|c| (c[0].u(), c[1].u())).collect(),
		step_ns: u("step_ns"), lat_ns: u("lat_ns"), sync_ns: u("sync_ns"), mono_base: u("mono_base"), real_base: u("real_base"),
		max_steps: u("max_steps"), max_vtime: u("max_vtime"), capacity: u("capacity"), heap: u("heap"), malloc_yield: j.get("malloc_yield").b(), pct: j.get("pct").b(), fine: u("fine"),
		faults: j.get("faults").a().iter().map(|f| Fault { cls: idx(&CLS, f.get("on").s()), kind: idx(&KINDS, f.get("kind").s()), index: f.get("index").u(), arg: f.get("arg").u(), count: f.get("count").u() }).collect(),
		input: j.get("input").a().iter().map(|c| InChunk { delay: c.get("delay").u(), kind: c.get("kind").u(), data: unhex(c.get("data").s()) }).collect(),
		game: j.get("game").a().iter().map(|g| GameOp { write: g.get("write").b(), upgrade: g.get("upgrade").b(), at: g.get("at").u(), hold: g.get("hold").u(), tries: g.get("tries").u(), retry: g.get("retry").u(), path: g.get("path").s().into(),
			rows: g.get("rows").a().iter().map(|r| (r.get("key").s().parse().unwrap_or(0), match r.get("data") { J::S(s) => Some(unhex(s)), _ => None })).collect() }).collect(),
	}
}
fn rows_json(r: &Rows) -> J { J::O(r.iter().map(|(k, d)| (k.to_string(), J::S(hex(d)))).collect()) }
fn urows(j: &J) -> Rows { match j { J::O(m) => m.iter().map(|(k, d)| (k.parse().unwrap_or(0), unhex(d.s()))).collect(), _ => Rows::new() } }
fn opt_json(o: &DbOpt) -> J {
	obj(vec![("page", o.page.into()), ("cache", o.cache.into()), ("shuffle", o.shuffle.into()), ("free", o.free.into()), ("autovac", o.autovac.into()), ("rowid", o.rowid.into()), ("extra_table", o.extra_table.into()), ("user", o.user.into())])
}
fn uopt(j: &J) -> DbOpt {
	DbOpt { page: j.get("page").u(), cache: j.get("cache").u(), shuffle: j.get("shuffle").u(), free: j.get("free").u(), autovac: j.get("autovac").u(), rowid: j.get("rowid").b(), extra_table: j.get("extra_table").b(), user: j.get("user").u() }
}
fn cut_json(c: &CutSpec) -> J {
	let (l, s) = match c.loss { Loss::Kill => ("kill", 0), Loss::None => ("power-only-synced", 0), Loss::All => ("power-all", 0), Loss::Subset(s) => ("power-subset", s), Loss::Prefix(s) => ("power-prefix", s) };
	obj(vec![("frac_ppm", c.frac.into()), ("after_done", c.after_done.into()), ("loss", l.into()), ("loss_seed", s.into()), ("torn", c.torn.into()), ("keep_dir", c.keep_dir.into())])
}
fn ucut(j: &J) -> CutSpec {
	let s = j.get("loss_seed").u();
	CutSpec { frac: j.get("frac_ppm").u(), after_done: j.get("after_done").b(), torn: j.get("torn").u(), keep_dir: j.get("keep_dir").b(),
		loss: match j.get("loss").s() { "power-only-synced" => Loss::None, "power-all" => Loss::All, "power-subset" => Loss::Subset(s), "power-prefix" => Loss::Prefix(s), _ => Loss::Kill } }
}

impl Scenario {
	pub fn json(&self) -> J {
		obj(vec![
			("property", self.prop.clone().into()), ("kind", self.kind.clone().into()), ("seed", self.seed.into()),
			("rows", rows_json(&self.rows)), ("input_rows", self.irows.as_ref().map_or(J::Null, rows_json)),
			("layout", opt_json(&self.opt)), ("input_layout", opt_json(&self.iopt)),
			("extra_files", J::O(self.extra.iter().map(|(p, n)| (p.clone(), obj(vec![("dir", n.dir.into()), ("mode", n.mode.into()), ("data", hex(&n.data).into())]))).collect())),
			("steps", J::A(self.steps.iter().map(|s| obj(vec![
				("command", cmd_json(&s.cmd)), ("arguments", ls(&s.cmd.args(s.yes, &s.map, &s.input))), ("yes", s.yes.into()), ("map", s.map.clone().into()), ("input", s.input.clone().into()),
				("env", env_json(&s.env)), ("cuts", J::A(s.cuts.iter().map(cut_json).collect()))])).collect())),
			("nums", J::O(self.nums.iter().map(|(k, v)| (k.clone(), J::U(*v))).collect())),
		])
	}
	pub fn from_json(j: &J) -> Scenario {
		Scenario {
			prop: j.get("property").s().into(), kind: j.get("kind").s().into(), seed: j.get("seed").u(),
			rows: urows(j.get("rows")), irows: match j.get("input_rows") { J::Null => None, r => Some(urows(r)) },
			opt: uopt(j.get("layout")), iopt: uopt(j.get("input_layout")),
			extra: match j.get("extra_files") { J::O(m) => m.iter().map(|(p, n)| (p.clone(), Node { dir: n.get("dir").b(), mode: n.get("mode").u(), data: unhex(n.get("data").s()) })).collect(), _ => Disk::new() },
			steps: j.get("steps").a().iter().map(|s| Step { cmd: ucmd(s.get("command")), yes: s.get("yes").b(), map: s.get("map").s().into(), input: s.get("input").s().into(),
				env: uenv(s.get("env")), cuts: s.get("cuts").a().iter().map(ucut).collect() }).collect(),
			nums: match j.get("nums") { J::O(m) => m.iter().map(|(k, v)| (k.clone(), v.u())).collect(), _ => BTreeMap::new() },
		}
	}
}
