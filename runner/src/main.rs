//! Deterministic simulation of MapEditr: seeded search, minimisation, replay.
mod codec;
mod disk;
mod eval;
mod gen;
mod hist;
mod json;
mod model;
mod propgen;
mod proto;
mod rng;
mod scen;
mod shrink;
mod sim;
mod sqlite;

use eval::*;
use json::*;
use scen::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn root() -> String { std::env::var("MSIM_ROOT").unwrap_or("/verif".into()) }
fn bin() -> String { std::env::var("MSIM_BIN").unwrap_or(format!("{}/.build/target/release/mapeditr", root())) }
fn fbin() -> String { let p = std::env::var("MSIM_FBIN").unwrap_or(format!("{}/.build/mapeditr-edges", root())); if std::path::Path::new(&p).is_file() { p } else { String::new() } }
fn lib() -> String { std::env::var("MSIM_LIB").unwrap_or(format!("{}/.build/libsim.so", root())) }
fn envu(k: &str, d: u64) -> u64 { std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d) }

struct Known { prop: String, class: String, text: String }
/// Lines "known: property=C00 class=... match=<text to the end of the line>".
/// Lines "fixed: ..." are a record and suppress nothing.
fn known(prop: &str) -> Vec<Known> {
	let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
	t.lines().filter_map(|l| {
		let r = l.strip_prefix("known: property=")?;
		let (p, r) = r.split_once(" class=")?;
		let (c, m) = r.split_once(" match=")?;
		if p != prop || m.is_empty() { return None }
		Some(Known { prop: p.into(), class: c.into(), text: m.into() })
	}).collect()
}

fn scen_seed(seed: u64, prop: &str, i: u64) -> u64 { rng::mix(rng::mix(seed.wrapping_mul(0x9e37_79b9) ^ rng::fnv(prop.as_bytes())).wrapping_add(i.wrapping_mul(0x9e37_79b9_7f4a_7c15))) }

fn safe_eval(ctx: &mut Ctx, sc: &Scenario) -> Result<Verdict, String> {
	std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| eval(ctx, sc))).map_err(|e| e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())
}

/// A case in words, without the bulk of its map.
fn sample(sc: &Scenario) -> J {
	obj(vec![("seed", sc.seed.into()), ("kind", sc.kind.clone().into()), ("mapblocks", (sc.rows.len() as u64).into()), ("input_mapblocks", sc.irows.as_ref().map_or(J::Null, |r| (r.len() as u64).into())),
		("page_size", sc.opt.page.into()), ("page_cache", sc.opt.cache.into()),
		("steps", J::A(sc.steps.iter().map(|s| {
			let J::O(mut e) = env_json(&s.env) else { unreachable!() };
			e.remove("switches");
			if let Some(J::A(g)) = e.get_mut("game") { for x in g { if let J::O(m) = x { let n = m.get("rows").map_or(0, |r| r.a().len()); m.insert("rows".into(), (n as u64).into()); } } }
			obj(vec![("arguments", J::A(s.cmd.args(s.yes, &s.map, &s.input).into_iter().map(J::S).collect())), ("env", J::O(e)), ("cuts", (s.cuts.len() as u64).into())])
		}).collect()))])
}

fn rule(prop: &str) -> &'static str {
	match prop {
		"C01" => "seeded command, map, schedule, clock, fault and 6-15 crash points per run; non-trivial: the command changes the map and the (event history, cut) pair is new",
		"C02" => "seeded command run that printed Done, then 4-11 crash points after Done; non-trivial: the edit changes the map and the (event history, cut, loss) triple is new",
		"C03" => "seeded command with one to four failing operations, a full disk or a read-only map; non-trivial: a fault really fired, the edit changes the map, and the event history is new",
		"C04" => "a cut-off or failed run followed by the same command; non-trivial: distinct event history of the pair in which the second run had to complete",
		"C05" => "seeded command next to 1-6 read or write transactions of a second SQLite client at seeded instants; non-trivial: at least one of them committed and the event history is new",
		"C06" => "seeded answer, delay, terminal fault or crash at the prompt; non-trivial: the question was asked or the answer given, new event history",
		"C07" => "seeded bad request, unusable file or edge-valid request; non-trivial: new event history that reached the verdict",
		"C08" => "history of 1-4 commands on a map with damaged mapblocks, with crashes, faults and further damage in between; non-trivial: a judged step with a change or a damaged mapblock in its selection, new (event history, command)",
		"C09" => "overlay runs (after a crash in half of them) with faults and cuts; non-trivial: new event history of an overlay run",
		"C10" => "vacuum of a seeded layout with crash points, faults or a full disk; non-trivial: new (event history, cut)",
		"C19" => "seeded schedule, clock speed, stalls and terminal faults; non-trivial: new (event history, schedule)",
		"C20" => "one scenario under two different layouts, hash seeds, schedules and clocks; non-trivial: the command changes the map, new event history",
		"C25" => "one command on 1200-4200 mapblocks under a heap limit; non-trivial: new event history of a run that finished",
		"C24" => "history of 1-4 commands with crashes, faults and full disks next to other files and other tables; non-trivial: a run that changed the map file, new (event history, cut)",
		_ => "history of commands with crashes, faults and damage between them, every completed judged step compared with the reference model; non-trivial: the judged step changes the map and (event history, command) is new",
	}
}

struct Found { i: u64, sc: Scenario, v: Violation }

fn check(prop: &str, secs: u64, threads: usize, seed: u64) -> i32 {
	let t0 = Instant::now();
	let tier = if std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough") { "thorough" } else { "quick" };
	let end = t0 + Duration::from_secs(secs);
	// on a slow or busy machine the search goes on until it has seen at least this many seeds
	let least = envu("MSIM_LEAST", 0);
	let last = t0 + Duration::from_secs(secs.max(envu("MSIM_LAST", 420)));
	let maxi = envu("MSIM_MAX", u64::MAX);
	let next = AtomicU64::new(envu("MSIM_FIRST", 0));
	let stop = AtomicBool::new(false);
	let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
	let knownhits: Mutex<Vec<String>> = Mutex::new(vec![]);
	let stats: Mutex<Stats> = Mutex::new(Stats::default());
	let samples: Mutex<Vec<(u64, J)>> = Mutex::new(vec![]);
	let kn = known(prop);
	if !kn.is_empty() {
		// show each listed finding on the tree as it is
		let mut ctx = Ctx::new(&bin(), &fbin(), &lib(), 902);
		for sc in propgen::known_cases(&mut ctx, prop) {
			if let Ok(Err(v)) = safe_eval(&mut ctx, &sc) {
				if let Some(k) = kn.iter().find(|k| k.class == v.class && v.text.contains(&k.text)) {
					let line = format!("KNOWN-FINDING: property={} {}: {}", k.prop, k.class, k.text);
					let mut l = knownhits.lock().unwrap();
					if !l.contains(&line) { l.push(line) }
					break
				}
			}
		}
	}
	// debugging: count all violations instead of stopping at the first
	let all = std::env::var("MSIM_ALL").is_ok();
	let groups: Mutex<std::collections::BTreeMap<String, (u64, u64, String)>> = Mutex::new(Default::default());
	std::thread::scope(|s| {
		for id in 0..threads {
			let (next, stop, found, stats, samples, kn, knownhits, groups) = (&next, &stop, &found, &stats, &samples, &kn, &knownhits, &groups);
			s.spawn(move || {
				let mut ctx = Ctx::new(&bin(), &fbin(), &lib(), id);
				loop {
					let now = Instant::now();
					if stop.load(SeqCst) || now >= last || now >= end && next.load(SeqCst) >= least { break }
					let i = next.fetch_add(1, SeqCst);
					if i >= maxi { break }
					let sseed = scen_seed(seed, prop, i);
					let sc = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| propgen::make(&mut ctx, prop, sseed))) {
						Ok(s) => s,
						Err(_) => { *ctx.st.harness.entry("generator panicked".into()).or_default() += 1; continue }
					};
					if let Ok(k) = std::env::var("MSIM_KIND") { if !sc.kind.contains(&k) { continue } }
					ctx.ev = 0;
					let before = ctx.st.nontrivial.len();
					let v = safe_eval(&mut ctx, &sc);
					ctx.st.scenarios += 1;
					let ev = ctx.ev;
					if ctx.harness_now && std::env::var("MSIM_DEBUG").is_ok() { eprintln!("not judged, seed {sseed}") }
					if i < 400 && ctx.st.nontrivial.len() > before {
						let mut l = samples.lock().unwrap();
						if l.len() < 3 { l.push((i, sample(&sc))) }
					}
					match v {
						Err(e) => { *ctx.st.harness.entry(format!("runner panicked: {e}")).or_default() += 1; if std::env::var("MSIM_DEBUG").is_ok() { eprintln!("runner panic, seed {sseed}: {e}") } }
						Ok(Ok(())) => {
							if i % 50 == 7 && !ctx.harness_now {
								ctx.ev = 0;
								let again = safe_eval(&mut ctx, &sc);
								ctx.st.detchecks += 1;
								if ctx.ev != ev || !matches!(again, Ok(Ok(()))) { ctx.st.nondet += 1; if std::env::var("MSIM_DEBUG").is_ok() { eprintln!("nondeterministic, seed {sseed}") } }
							}
						}
						Ok(Err(v)) => {
							// the verdict must come back, event for event, before it counts
							ctx.ev = 0;
							let again = safe_eval(&mut ctx, &sc);
							match again {
								Ok(Err(v2)) if v2.class == v.class && ctx.ev == ev => {
									if let Some(k) = kn.iter().find(|k| k.class == v.class && v.text.contains(&k.text)) {
										let line = format!("KNOWN-FINDING: property={} {}: {}", k.prop, k.class, k.text);
										let mut l = knownhits.lock().unwrap();
										if !l.contains(&line) { l.push(line) }
									} else if all {
										let key = format!("{} {}", v.class, sc.steps.iter().map(|s| s.cmd.name.as_str()).collect::<std::collections::BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(","));
										let mut g = groups.lock().unwrap();
										let n = g.entry(key).or_insert((0u64, sseed, v.text.clone()));
										n.0 += 1;
									} else {
										found.lock().unwrap().push(Found { i, sc, v });
										stop.store(true, SeqCst);
									}
								}
								_ => { ctx.st.nondet += 1; if std::env::var("MSIM_DEBUG").is_ok() { eprintln!("verdict not repeatable, seed {sseed}: {} {}", v.class, v.text) } }
							}
						}
					}
				}
				stats.lock().unwrap().merge(std::mem::take(&mut ctx.st));
			});
		}
	});
	let search_s = t0.elapsed().as_secs_f64();
	let mut code = 0;
	for (k, (n, s, t)) in groups.into_inner().unwrap() { println!("{n:>6} x {k}: seed {s}: {t}") }
	let st = stats.into_inner().unwrap();
	for l in knownhits.into_inner().unwrap() { println!("{l}") }
	let mut found = found.into_inner().unwrap();
	found.sort_by_key(|f| f.i);
	let mut mini = J::Null;
	let mut violations = 0u64;
	for f in found {
		let mut ctx = Ctx::new(&bin(), &fbin(), &lib(), 900);
		let (mut sc, mut v) = (f.sc.clone(), f.v.clone());
		let t = Instant::now();
		let dl = t + Duration::from_secs(envu("MSIM_SHRINK", 40));
		let (tried, kept) = {
			let mut s = shrink::Shrink { ctx: &mut ctx, class: v.class.clone(), best: sc.clone(), v: v.clone(), end: dl, tried: 0, kept: 0 };
			s.go();
			sc = s.best; v = s.v;
			(s.tried, s.kept)
		};
		let mut path = None;
		for (s, v) in [(&sc, &v), (&f.sc, &f.v)] {
			ctx.ev = 0;
			let r = safe_eval(&mut ctx, s);
			if !matches!(&r, Ok(Err(x)) if x.class == v.class) { continue }
			let p = write_replay(prop, f.i, seed, s, v, ctx.ev);
			let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["replay", &p]).output();
			if o.map_or(false, |o| o.status.code() == Some(1)) { path = Some(p); break }
		}
		match path {
			Some(p) => {
				violations += 1;
				println!("violated: {} ({}), scenario seed {}, iteration {} of VERIF_SEED={seed}", v.class, f.sc.kind, f.sc.seed, f.i);
				println!("  {}", v.text);
				println!("  minimised in {:.1} s, {tried} candidates tried, {kept} kept: {} steps, {} mapblocks, {} faults, {} scheduled switches", t.elapsed().as_secs_f64(), sc.steps.len(), sc.rows.len(), sc.steps.iter().map(|s| s.env.faults.len()).sum::<usize>(), sc.steps.iter().map(|s| s.env.switches.len()).sum::<usize>());
				println!("VIOLATION property={prop} replay={p}");
				mini = obj(vec![("class", v.class.clone().into()), ("text", v.text.clone().into()), ("replay", p.into())]);
				code = 1;
				break
			}
			None => println!("a verdict could not be replayed in a fresh process and is not reported: {} {}", f.v.class, f.v.text),
		}
	}
	let wall = t0.elapsed().as_secs_f64();
	let m = |m: &std::collections::BTreeMap<String, u64>| J::O(m.iter().map(|(k, v)| (k.clone(), J::U(*v))).collect());
	let mut samples = samples.into_inner().unwrap();
	samples.sort_by_key(|s| s.0);
	let per_h = |n: u64| J::U((n as f64 / search_s.max(0.001) * 3600.0) as u64);
	let cov = obj(vec![
		("evaluations", st.scenarios.into()),
		("distinct_nontrivial", (st.nontrivial.len() as u64).into()),
		("rule", rule(prop).into()),
		("samples", J::A(samples.into_iter().map(|s| s.1).collect())),
		("simulated_runs", st.runs.into()),
		("undisturbed_reference_runs", st.baselines.into()),
		("seeds_per_hour", per_h(st.scenarios)),
		("simulated_runs_per_hour", per_h(st.runs + st.baselines)),
		("simulated_time_s", J::U(st.vtime / 1_000_000_000)),
		("simulated_steps", st.steps.into()),
		("crash_points_recovered", st.cuts.into()),
		("thread_switches", st.switches.into()),
		("preemptions", st.preempts.into()),
		("runs_with_edge_yields", st.fine_runs.into()),
		("program_edges_reached", (st.edges.len() as u64).into()),
		("faults_fired", m(&st.faults)),
		("distinct_schedules", (st.scheds.len() as u64).into()),
		("distinct_event_histories", (st.events.len() as u64).into()),
		("distinct_disk_images_recovered", (st.images.len() as u64).into()),
		("probes", m(&st.probes)),
		("largest_allocation", st.max_alloc.into()),
		("calls_outside_the_simulator", st.stray.into()),
		("determinism_rechecks", st.detchecks.into()),
		("determinism_mismatches", st.nondet.into()),
		("runs_not_judged", m(&st.harness)),
		("violation", mini),
		("real_code", J::A(["mapeditr release binary built from /repo (unmodified, overflow checks on)", "libsqlite3 as linked by it", "Rust std threads, channels and mutexes", "the second client's SQLite connection"].iter().map(|s| (*s).into()).collect())),
		("stubs", J::A(["file system and record locks (in-memory disk with mutation log)", "thread scheduling, futexes, clocks and sleeps", "stdin, stdout, stderr", "getrandom", "malloc failure and size accounting (real allocator below)"].iter().map(|s| (*s).into()).collect())),
	]);
	let e = obj(vec![("property", prop.into()), ("tier", tier.into()), ("seed", seed.into()), ("level", "exploration".into()), ("coverage", cov), ("wall_s", J::F(wall)), ("violations", violations.into()),
		("assumptions", J::A(["disk: whole 512-byte sectors survive or vanish, un-synced data may be lost in any combination, directory changes reach the disk in order", "the scheduler preempts at intercepted calls and allocations, not between single machine instructions", "the system's SQLite is part of the program under test and assumed representative of the shipped one"].iter().map(|s| (*s).into()).collect()))]);
	let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
	if let Err(x) = std::fs::write(format!("{}/evidence/{prop}.json", root()), e.text() + "\n") { eprintln!("evidence: {x}"); return 2 }
	println!("{prop}: {} scenarios, {} runs, {} crash points, {} distinct non-trivial, {} schedules, {:.0} s simulated, {:.1} s{}", st.scenarios, st.runs + st.baselines, st.cuts, st.nontrivial.len(), st.scheds.len(), st.vtime as f64 / 1e9, wall,
		if st.harness.is_empty() && st.nondet == 0 { String::new() } else { format!(", not judged: {:?}, not repeatable: {}", st.harness, st.nondet) });
	let lost: u64 = st.harness.values().sum();
	if code == 0 && (st.scenarios == 0 || lost * 2 > st.runs + st.baselines) { eprintln!("the simulator could not judge enough runs"); return 2 }
	code
}

fn write_replay(prop: &str, i: u64, seed: u64, sc: &Scenario, v: &Violation, ev: u64) -> String {
	let dir = format!("{}/replays", root());
	let _ = std::fs::create_dir_all(&dir);
	let p = format!("{dir}/{prop}-{seed}-{i}.json");
	let j = obj(vec![("violation", obj(vec![("class", v.class.clone().into()), ("text", v.text.clone().into()), ("event_hash", ev.into())])), ("scenario", sc.json())]);
	std::fs::write(&p, j.text() + "\n").expect("replay file");
	p
}

fn replay(path: &str, trace: bool) -> i32 {
	let j = match std::fs::read_to_string(path).map_err(|e| e.to_string()).and_then(|t| json::parse(&t)) { Ok(j) => j, Err(e) => { eprintln!("{path}: {e}"); return 2 } };
	let sc = Scenario::from_json(j.get("scenario"));
	let mut ctx = Ctx::new(&bin(), &fbin(), &lib(), 901);
	let r = eval(&mut ctx, &sc);
	if trace { show(&mut ctx, &sc) }
	match r {
		Err(v) => {
			let same = v.class == j.get("violation").get("class").s() && ctx_ev(&ctx, trace) .map_or(true, |e| e == j.get("violation").get("event_hash").u());
			println!("{}: {}", v.class, v.text);
			println!("{}", if same { "same violation, same event history as recorded" } else { "violated, but not in the recorded way" });
			println!("VIOLATION property={} replay={path}", sc.prop);
			if same { 1 } else { 3 }
		}
		Ok(()) => { println!("property {} holds on this history{}", sc.prop, if ctx.harness_now { " (not judged)" } else { "" }); 0 }
	}
}
fn ctx_ev(c: &Ctx, trace: bool) -> Option<u64> { if trace { None } else { Some(c.ev) } }

/// Prints what happens in every step.
fn show(ctx: &mut Ctx, sc: &Scenario) {
	let mut disk = sc.disk();
	let kind = |rows: &disk::Rows| for (k, d) in rows.iter().take(40) {
		println!("  mapblock {:?}: {} bytes, {}", codec::pos_of(*k), d.len(), match codec::parse(d) { codec::Parsed::Good(b) => format!("good, version {} flags {} names {} metadata {} objects {} timers {}", b.version, b.flags, b.names.len(), b.meta.len(), b.objs.len(), b.timers.len()), codec::Parsed::Grey(s) => format!("doubtful: {s}"), codec::Parsed::Corrupt(s) => format!("corrupt: {s}") });
	};
	kind(&sc.rows);
	for (k, st) in sc.steps.iter().enumerate() {
		println!("step {k}: mapeditr {:?}", st.cmd.args(st.yes, &st.map, &st.input));
		let out = ctx.run(st, &disk);
		for r in &out.recs {
			let d = out.data(r);
			let t = match r.typ {
				1 => format!("write file {} offset {} length {}{}", r.a, r.b, r.len, if r.c != 0 { " (second client)" } else { "" }),
				2 => format!("truncate file {} to {}", r.a, r.b),
				3 => format!("create {} as file {}", String::from_utf8_lossy(d), r.a),
				4 => format!("delete {}", String::from_utf8_lossy(d)),
				5 => format!("sync file {}", r.a), 6 => "sync directory".into(),
				7 => format!("output {}: {:?}", r.a, String::from_utf8_lossy(d)),
				8 => format!("input {} {} {:?}", r.a, r.b, String::from_utf8_lossy(d)),
				9 => format!("open file {} flags {:#x}{}", r.a, r.b, if r.c != 0 { " (second client)" } else { "" }),
				10 => format!("FAULT {} ({} #{})", r.a, KINDS.get(r.b as usize).unwrap_or(&"?"), r.c),
				11 => format!("switch to thread {}{}", r.c, if r.a != 0 { " (preempted)" } else { "" }),
				22 => format!("allocation of {} bytes fails, called from program offset {:#x}", r.b, r.c),
				15 => format!("second client: operation {} {}", r.b, ["", "starts", "has read", "has committed", "failed or busy"].get(r.a as usize).unwrap_or(&"?")),
				t => format!("record {t} a={} b={} c={} {:?}", r.a, r.b, r.c, String::from_utf8_lossy(&d[..d.len().min(80)])),
			};
			println!("  step {:>8} t={:>14} ns thread {}: {t}", r.step, r.vtime, r.tid);
		}
		println!("  end {:?}, {} steps, stderr {:?}", out.end, out.steps, out.stderr);
		let img = match st.cuts.first() { Some(c) => image_at(&disk, &out, c), None => Some(disk::after(&disk, &out)) };
		match img { Some(i) => disk = i, None => return }
		match ctx.rows_of(&disk, true) { Ok(r) => { println!("  map afterwards:"); kind(&r) }, Err(e) => println!("  map afterwards: {e}") }
	}
}
use sim::KINDS;

fn main() {
	let a: Vec<String> = std::env::args().collect();
	// children get the same addresses every time, where that is allowed
	unsafe { libc::personality(0x0040000); }
	std::panic::set_hook(Box::new(|i| if std::env::var("MSIM_DEBUG").is_ok() { eprintln!("{i}") }));
	let g = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
	let code = match g(1) {
		"check" if propgen::PROPS.contains(&g(2)) => {
			let tier = std::env::var("VERIF_TIER").unwrap_or_default();
			let secs = envu("MSIM_SECS", if tier == "thorough" { 600 } else { 40 });
			check(g(2), secs, envu("MSIM_THREADS", std::thread::available_parallelism().map_or(4, |n| n.get() as u64)) as usize, envu("VERIF_SEED", 1))
		}
		"replay" => replay(g(2), g(3) == "trace"),
		"one" => {
			// debugging: one scenario by its own seed
			let mut ctx = Ctx::new(&bin(), &fbin(), &lib(), 902);
			let sc = propgen::make(&mut ctx, g(2), g(3).parse().unwrap());
			let t = Instant::now();
			let r = eval(&mut ctx, &sc);
			println!("{} {r:?} {:?} ev {:x}", sample(&sc).text(), t.elapsed(), ctx.ev);
			if g(4) == "trace" { show(&mut ctx, &sc) }
			if g(4) == "rows" { for (n, r) in [("map", Some(&sc.rows)), ("input", sc.irows.as_ref())] { for (k, d) in r.into_iter().flatten() {
				let p = match codec::parse(d) { codec::Parsed::Good(b) => format!("good flags {:x} v{}", b.flags, b.version), codec::Parsed::Grey(g) => format!("grey {g}"), codec::Parsed::Corrupt(e) => format!("corrupt {e:?}") };
				println!("{n} {k} {:?} {} bytes {:02x?} {:?} {p}", codec::pos_of(*k), d.len(), &d[..d.len().min(40)], codec::header_generated(d));
			} } }
			0
		}
		_ => { eprintln!("usage: runner check PROPERTY | replay FILE [trace] | one PROPERTY SEED [trace]"); 2 }
	};
	std::process::exit(code);
}
