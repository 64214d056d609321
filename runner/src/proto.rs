//! The console: messages, progress lines, and the oracle for C19.
use crate::eval::*;
use crate::scen::*;
use crate::sim::*;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Prog { Query(u64), Edit { pct: f64, bars: usize, elapsed: u64 }, Busy { elapsed: u64 } }

fn clock(s: &str) -> Option<u64> {
	let p: Vec<&str> = s.split(':').collect();
	if p.len() < 2 || p.len() > 3 { return None }
	let mut t = 0u64;
	for (i, x) in p.iter().enumerate() {
		if x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit()) || (i > 0 && x.len() != 2) { return None }
		let v: u64 = x.parse().ok()?;
		if i > 0 && v > 59 { return None }
		t = t * 60 + v;
	}
	Some(t)
}

/// A complete progress update, nothing before or after it.
pub fn progress(l: &str) -> Option<Prog> {
	if let Some(r) = l.strip_prefix("Querying mapblocks... ") {
		return r.strip_suffix(" found.")?.parse().ok().map(Prog::Query)
	}
	if let Some(r) = l.strip_prefix("Processing... ") { return Some(Prog::Busy { elapsed: clock(r.strip_suffix(" elapsed")?)? }) }
	let r = l.strip_prefix('[')?;
	let (bar, r) = r.split_once("] ")?;
	let bars = bar.bytes().take_while(|b| *b == b'=').count();
	if !bar.bytes().skip(bars).all(|b| b == b' ') { return None }
	let (pct, r) = r.split_once("% | ")?;
	let (el, r) = r.split_once(" elapsed | ")?;
	let rem = r.strip_suffix(" remaining")?;
	if rem != "--:--" { clock(rem)?; }
	Some(Prog::Edit { pct: pct.parse().ok()?, bars, elapsed: clock(el)? })
}

/// Everything printed that is not a progress update, in order.
pub fn messages(out: &Out) -> Vec<String> { out.lines().into_iter().filter(|l| progress(l).is_none()).collect() }

/// Checks the stream of progress updates.
fn stream(out: &Out, finished: bool, cmd: &str) -> Result<(), (String, String)> {
	let (mut q, mut e, mut el): (Option<u64>, Option<f64>, u64) = (None, None, 0);
	let mut last_total = None;
	let (mut any_edit, mut any_busy) = (false, false);
	// a '\r' starts an update; it must end before the next message begins
	for piece in out.stdout.split('\n') {
		for (i, seg) in piece.split('\r').enumerate() {
			if seg.is_empty() { continue }
			let p = progress(seg);
			if i > 0 && p.is_none() { return Err(("garbled".into(), format!("progress update {seg:?} is mixed with other output"))) }
			if i == 0 && p.is_some() && false { return Err(("garbled".into(), seg.into())) }
			match p {
				None => {}
				Some(Prog::Query(n)) => {
					if e.is_some() { return Err(("stage-order".into(), "querying progress after editing progress".into())) }
					if q.map_or(false, |q| n < q) { return Err(("progress-decreases".into(), format!("{n} mapblocks found after {}", q.unwrap()))) }
					q = Some(n);
					last_total = Some(n);
				}
				Some(Prog::Edit { pct, bars, elapsed }) => {
					any_edit = true;
					if !(0.0..=100.0).contains(&pct) || bars > 25 { return Err(("beyond-100".into(), format!("progress {pct} % with {bars} bars"))) }
					if (bars as f64 - pct / 4.0).abs() > 1.01 { return Err(("bar".into(), format!("{bars} of 25 bars at {pct} %"))) }
					if e.map_or(false, |e| pct < e) { return Err(("progress-decreases".into(), format!("{pct} % after {} %", e.unwrap()))) }
					if elapsed < el { return Err(("progress-decreases".into(), format!("elapsed {elapsed} s after {el} s"))) }
					if elapsed > out.vtime / 1_000_000_000 + 1 { return Err(("elapsed".into(), format!("elapsed {elapsed} s in a run of {} s", out.vtime / 1_000_000_000))) }
					e = Some(pct);
					el = elapsed;
				}
				Some(Prog::Busy { elapsed }) => {
					any_busy = true;
					if elapsed < el { return Err(("progress-decreases".into(), format!("elapsed {elapsed} s after {el} s"))) }
					el = elapsed;
				}
			}
		}
	}
	// both ends of a stage are always shown
	if finished && (cmd != "vacuum" && (q.is_none() || e.is_none()) || cmd == "vacuum" && !any_busy) { return Err(("no-progress".into(), format!("it ended without showing {}", if q.is_none() && cmd != "vacuum" { "how many mapblocks it found" } else { "any progress of the editing" }))) }
	if finished && any_edit {
		if let (Some(n), Some(p)) = (last_total, e) {
			if n > 0 && p != 100.0 { return Err(("not-100".into(), format!("editing {n} mapblocks completed with the progress at {p} %"))) }
		}
	}
	Ok(())
}

pub fn c19(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let st = &sc.steps[0];
	let base = ctx.sc_base(sc, 0);
	let disk = sc.disk();
	let out = ctx.run(st, &disk);
	if ctx.harness_now { return Ok(()) }
	let broken = st.env.faults.iter().enumerate().any(|(i, f)| f.cls == STDOUT && f.kind == ERR && f.arg != 4 && out.fired[i] > 0);
	match out.end {
		End::Deadlock => return bad("deadlock", format!("`{}`: every thread waits {}", st.cmd.name, tail(&out))),
		End::Limit => return bad("hang", format!("`{}` does not end within {} s of simulated time {}", st.cmd.name, out.vtime / 1_000_000_000, tail(&out))),
		End::Signal(s) => return bad("killed", format!("`{}`: signal {s} {}", st.cmd.name, tail(&out))),
		_ => {}
	}
	let img = crate::disk::after(&disk, &out);
	let rows = match ctx.rows_of(&img, true) { Ok(r) => r, Err(e) => return bad("database-damaged", format!("{e} {}", tail(&out))) };
	let old = rows == sc.rows;
	let new = rows == base.rows || crate::model::same_rows(&rows, &base.rows);
	if broken {
		if !old && !new { return bad("partial", format!("`{}` with a broken terminal: {} {}", st.cmd.name, mixture(&rows, &sc.rows, &base.rows), tail(&out))) }
		if out.done() && !out.error() && base.done && !new { return bad("partial", format!("`{}` printed Done with a broken terminal but the map is unchanged {}", st.cmd.name, tail(&out))) }
		ctx.st.probe(if new && !old { "terminal broke, edit complete" } else { "terminal broke, map unchanged" });
		ctx.st.nontrivial.insert(out.ev_hash);
		return Ok(())
	}
	if out.end != End::Exit(0) || out.panicked() != base.out.panicked() { return bad("crashed", format!("`{}` {}", st.cmd.name, tail(&out))) }
	if !new { return bad("outcome-differs", format!("`{}`: {} {}", st.cmd.name, mixture(&rows, &sc.rows, &base.rows), tail(&out))) }
	// garbled output first: it explains differing messages
	if let Err((c, t)) = stream(&out, base.done, &st.cmd.name) { return bad(&c, format!("`{}`: {t}", st.cmd.name)) }
	renewed(ctx, st, &out)?;
	// the number of mapblocks found is known when querying ends, whoever runs first
	let found = |o: &Out| o.lines().iter().filter_map(|l| match progress(l) { Some(Prog::Query(n)) => Some(n), _ => None }).last();
	if base.done && out.done() && found(&out) != found(&base.out) {
		return bad("found", format!("`{}` found {:?} mapblocks by its last message on querying, {:?} on a quiet machine {}", st.cmd.name, found(&out), found(&base.out), tail(&out)))
	}
	// every mapblock that was changed has been found, and none was found that is not there
	if let (true, Some(n)) = (base.done && out.done(), found(&out)) {
		let changed = base.rows.iter().filter(|(k, v)| sc.rows.get(*k) != Some(*v)).count() + sc.rows.keys().filter(|k| !base.rows.contains_key(*k)).count();
		let most = sc.rows.len().max(sc.irows.as_ref().map_or(0, |r| r.len()));
		if (n as usize) < changed || n as usize > most { return bad("found", format!("`{}` changed {changed} mapblocks of a map of {most} and says it found {n} {}", st.cmd.name, tail(&out))) }
		if changed > 0 { ctx.st.probe("number of mapblocks found judged") }
	}
	// updates and questions are shown when they are made
	if !st.env.faults.iter().any(|f| f.cls == STDOUT) {
		let mut acc = String::new();
		for r in &out.recs {
			if r.typ == R_OUT && r.a == 1 {
				let t = String::from_utf8_lossy(out.data(r)).into_owned();
				if t.matches('\r').count() > 1 { return bad("held-back", format!("`{}` shows updates only together with later ones: {t:?} {}", st.cmd.name, tail(&out))) }
				acc.push_str(&t);
			}
			if r.typ == R_IN && !st.yes && !acc.contains("Proceed? (Y/n): ") { return bad("held-back", format!("`{}` waits for an answer before it shows the question {}", st.cmd.name, tail(&out))) }
		}
	}
	let (mut got, want) = (messages(&out), messages(&base.out));
	if !st.yes {
		// the run asks first; the rest must be the same
		let prompts = out.stdout.matches("Proceed? (Y/n): ").count();
		if prompts != 1 { return bad("prompt", format!("`{}` asked {prompts} times {}", st.cmd.name, tail(&out))) }
		let n = got.iter().position(|l| want.first().map_or(false, |w| w == l)).unwrap_or(got.len());
		if n == 0 { return bad("messages", format!("`{}` without -y prints no warning", st.cmd.name)) }
		got.drain(..n);
	}
	if got != want { return bad("messages", format!("`{}` printed {:?} instead of {:?}", st.cmd.name, got, want)) }
	if out.done() {
		if got.last().map(|s| s.as_str()) != Some("info: Done.") { return bad("messages", format!("`{}`: Done is not the last message: {got:?}", st.cmd.name)) }
		let mut n: BTreeMap<&str, u32> = BTreeMap::new();
		for l in &got { *n.entry(l).or_default() += 1 }
		if let Some((l, k)) = n.iter().find(|(_, k)| **k > 1) { return bad("messages", format!("`{}` printed {l:?} {k} times", st.cmd.name)) }
	}
	if let Some((w, _)) = report(&st.cmd.name) {
		let k = got.iter().filter(|l| l.starts_with("info: ") && shape(l, w)).count();
		if base.done && k != 1 { return bad("messages", format!("`{}` printed its result {k} times: {got:?}", st.cmd.name)) }
	}
	let p = out.lines().iter().filter(|l| progress(l).is_some()).count();
	ctx.st.probe(match p { 0 => "no progress line", 1..=4 => "1-4 progress lines", 5..=20 => "5-20 progress lines", _ => "more than 20 progress lines" });
	ctx.st.nontrivial.insert(mix2(out.ev_hash, out.sched_hash));
	Ok(())
}

/// Where slow reads and writes leave the console plenty of time, the progress is renewed.
fn renewed(ctx: &mut Ctx, st: &Step, out: &Out) -> Verdict {
	let e = &st.env;
	if e.pct || e.step_ns > 2000 || e.lat_ns < 15_000_000 || st.env.faults.iter().any(|f| f.kind == STALL) || st.cmd.name == "vacuum" { return Ok(()) }
	let bound = (20 * (600_000_000 + 3 * (e.lat_ns + e.sync_ns))).max(5_000_000_000);
	let mut last: Option<(u64, String)> = None;
	let mut seen = 0;
	for r in out.recs.iter().filter(|r| r.typ == R_OUT && r.a == 1) {
		let t = String::from_utf8_lossy(out.data(r)).into_owned();
		let kind = |s: &str| s.trim_start_matches('\r').bytes().next().filter(|_| s.split('\r').any(|x| progress(x.trim_end_matches('\n')).is_some()));
		if let (Some((v, l)), Some(k)) = (&last, kind(&t)) {
			if kind(l) == Some(k) {
				seen += 1;
				if r.vtime - v > bound { return bad("stale-progress", format!("`{}` shows nothing between {l:?} and {t:?}, {} s later, although it reads and writes all the time {}", st.cmd.name, (r.vtime - v) / 1_000_000_000, tail(out))) }
			}
		}
		if kind(&t).is_some() { last = Some((r.vtime, t)) }
	}
	if seen > 0 { ctx.st.probe("renewal of progress judged") }
	Ok(())
}
fn mix2(a: u64, b: u64) -> u64 { crate::rng::mix(a ^ b.rotate_left(31)) }

/// The result line of a command: words with {} for numbers; count of numbers.
pub fn report(cmd: &str) -> Option<(&'static str, usize)> {
	Some(match cmd {
		"fill" => ("{} nodes filled.", 1),
		"replacenodes" => ("{} nodes replaced.", 1),
		"setparam2" => ("Set param2 of {} nodes.", 1),
		"deleteobjects" => ("Deleted {} objects.", 1),
		"deletetimers" => ("Deleted {} node timers.", 1),
		"deletemeta" => ("Deleted metadata from {} nodes.", 1),
		"setmetavar" => ("Set metadata variable of {} nodes.", 1),
		"replaceininv" => ("Replaced {} itemstacks in {} nodes.", 2),
		_ => return None,
	})
}
/// Numbers of a line of that shape.
pub fn figures(line: &str, pat: &str) -> Option<Vec<(f64, f64)>> {
	let l: Vec<&str> = line.strip_prefix("info: ")?.split(' ').collect();
	let p: Vec<&str> = pat.split(' ').collect();
	if l.len() != p.len() { return None }
	let mut v = vec![];
	for (a, b) in l.iter().zip(&p) {
		if *b == "{}" { v.push(number(a)?) } else if a != b { return None }
	}
	Some(v)
}
fn shape(line: &str, pat: &str) -> bool { figures(line, pat).is_some() }
/// An abbreviated number and its rounding error.
pub fn number(s: &str) -> Option<(f64, f64)> {
	let (m, u) = match s.as_bytes().last()? { b'k' => (&s[..s.len() - 1], 1e3), b'M' => (&s[..s.len() - 1], 1e6), b'B' => (&s[..s.len() - 1], 1e9), b'T' => (&s[..s.len() - 1], 1e12), _ => (s, 1.0) };
	let v: f64 = m.parse().ok()?;
	let dec = m.split_once('.').map_or(0, |x| x.1.len()) as i32;
	let tol = if u == 1.0 && dec == 0 { 0.0 } else { 0.501 * 10f64.powi(-dec) * u + v * u * 1e-6 };
	Some((v * u, tol))
}
