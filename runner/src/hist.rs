//! Histories of commands with crashes and failures in between; every command
//! that reports Done is compared with the reference model (C08, C11-C18).
use crate::codec::*;
use crate::disk::*;
use crate::eval::*;
use crate::gen;
use crate::model::*;
use crate::proto;
use crate::rng::*;
use crate::scen::*;
use crate::sim::*;

fn judged(prop: &str, cmd: &str) -> bool {
	match prop {
		"C11" => matches!(cmd, "fill" | "replacenodes" | "setparam2"),
		"C12" => matches!(cmd, "deletemeta" | "setmetavar" | "replaceininv"),
		"C13" => matches!(cmd, "deleteobjects" | "deletetimers"),
		"C14" => cmd == "deleteblocks",
		"C15" => cmd == "clone",
		"C16" => cmd == "overlay",
		_ => true,
	}
}

/// Did the block lose or gain something where the model keeps the old value?
fn lost(old: &Block, want: &Block, got: &Block) -> Option<String> {
	for i in 0..4096 {
		if want.name_at(i) == old.name_at(i) && got.name_at(i) != old.name_at(i) { return Some(format!("node {i} was {:?} and is {:?}", lossy(old.name_at(i)), lossy(got.name_at(i)))) }
		if want.p1[i] == old.p1[i] && got.p1[i] != old.p1[i] { return Some(format!("param1 of node {i}")) }
		if want.p2[i] == old.p2[i] && got.p2[i] != old.p2[i] { return Some(format!("param2 of node {i}")) }
	}
	for (p, m) in &old.meta {
		match (want.meta.get(p), got.meta.get(p)) {
			(Some(w), None) if w == m => return Some(format!("metadata of node {p} is gone")),
			(Some(w), Some(g)) => {
				if w.inv == m.inv && inv_norm(&g.inv) != inv_norm(&m.inv) { return Some(format!("inventory of node {p}")) }
				for (k, v) in &m.vars { if w.vars.get(k) == Some(v) && g.vars.get(k) != Some(v) { return Some(format!("variable {:?} of node {p}", lossy(k))) } }
			}
			_ => {}
		}
	}
	for (p, _) in &got.meta { if !old.meta.contains_key(p) && !want.meta.contains_key(p) { return Some(format!("metadata appeared at node {p}")) } }
	for o in &want.objs { if old.objs.contains(o) && !got.objs.contains(o) { return Some("an object changed or is gone".into()) } }
	for o in &got.objs { if !want.objs.contains(o) && !old.objs.contains(o) { return Some("an object appeared".into()) } }
	for t in &want.timers { if old.timers.contains(t) && !got.timers.contains(t) { return Some("a timer changed or is gone".into()) } }
	for t in &got.timers { if !want.timers.contains(t) && !old.timers.contains(t) { return Some("a timer appeared".into()) } }
	None
}

pub fn history(ctx: &mut Ctx, sc: &Scenario) -> Verdict {
	let prop = sc.prop.as_str();
	let mut disk = sc.disk();
	for (k, st) in sc.steps.iter().enumerate() {
		let mut rows = match ctx.rows_of(&disk, true) { Ok(r) => r, Err(_) => { ctx.st.probe("unrecoverable map"); return Ok(()) } };
		let d = sc.num(&format!("damage{k}"));
		if d > 0 && !rows.is_empty() {
			// bad sectors strike between two commands
			let mut r = Rng::new(d);
			let keys: Vec<i64> = rows.keys().cloned().collect();
			for _ in 0..1 + r.below(3) { let key = *r.pick(&keys); let v = gen::damage(&mut r, &rows[&key]); rows.insert(key, v); }
			disk.retain(|p, _| !p.starts_with(MAP));
			disk.insert(MAP.into(), file(build_db(&rows, &sc.opt)));
			ctx.st.probe("damage between commands");
		}
		let irows = match disk.get(IMAP) { None => Rows::new(), Some(_) => match recover(&disk, IMAP, &ctx.scratch, false) { Ok(r) => r, Err(_) => return Ok(()) } };
		let out = ctx.run(st, &disk);
		if ctx.harness_now { return Ok(()) }
		let cut = st.cuts.first();
		let img = match cut { Some(c) => match image_at(&disk, &out, c) { Some(i) => { ctx.st.cuts += 1; i } None => return Ok(()) }, None => after(&disk, &out) };
		let success = out.done() && !out.error();
		let name = st.cmd.name.as_str();
		let j = judged(prop, name);
		if j && !failing(&st.env) {
			let panicked = out.panicked() || matches!(out.end, End::Signal(_));
			if panicked && (prop == "C08" || cut.is_none()) { return bad(if prop == "C08" { "aborted" } else { "not-done" }, format!("step {k} `{name}` on a valid map crashes {}", tail(&out))) }
			if out.end != End::Exit(0) || !success { return bad("not-done", format!("step {k} `{name}` does not complete {}", tail(&out))) }
			if prop == "C08" && out.max_alloc > 256 << 20 { return bad("allocation", format!("step {k} `{name}` requests {} bytes at once", out.max_alloc)) }
		} else if j && prop == "C08" && matches!(out.end, End::Deadlock | End::Limit) { return bad("hang", format!("step {k} `{name}` {}", tail(&out))) }
		if j && success && cut.is_none() && name != "vacuum" && out.oom_sites().is_empty() {
			let now = match ctx.rows_of(&img, true) { Ok(r) => r, Err(e) => return bad("database-damaged", format!("step {k} `{name}`: {e}")) };
			let m = apply(&st.cmd, &rows, &irows);
			let diffs = compare(&m, &rows, &now);
			ctx.st.probe(&format!("judged {name}"));
			if m.touched > 0 || (prop == "C08" && m.skipped.1 > 0) { ctx.st.nontrivial.insert(mix(out.ev_hash ^ fnv(format!("{:?}", st.cmd).as_bytes()))); }
			let ctxt = format!("step {k} {:?}", st.cmd.args(st.yes, "MAP", "INPUT"));
			match prop {
				"C17" => {
					for (class, key, text) in &diffs {
						let hit = match *class {
							"malformed" | "version" => true,
							"bytes" => true,
							"flags" | "light" | "timestamp" => true,
							"missing" | "created" | "not-deleted" => false,
							_ => false,
						};
						if hit { return bad(class, format!("{ctxt}: {text}")) }
						let _ = key;
					}
					let s = skipped(&out);
					if s.0 - s.1 > m.skipped.1 as f64 { return bad("refused", format!("{ctxt}: {} mapblocks were taken for damaged, at most {} are {}", s.0, m.skipped.1, tail(&out))) }
					for (key, e) in &m.expect {
						let (want, old, got) = match (e, rows.get(key), now.get(key)) { (Expect::Sem(w), Some(o), Some(g)) => (w, o, g), _ => continue };
						if let (Parsed::Good(o), Parsed::Good(g)) = (parse(old), parse(got)) {
							if let Some(t) = lost(&o.canon(), want, &g.canon()) { return bad("lost", format!("{ctxt}: mapblock {:?}: {t}", pos_of(*key))) }
						}
					}
				}
				"C18" => {
					if m.touched > 0 && now == rows && m.grey.is_empty() && irows != rows {
						// everything the model wanted to change is still old
						if m.expect.iter().any(|(k, e)| match e { Expect::Absent => rows.contains_key(k), Expect::Sem(b) => rows.get(k).map_or(false, |d| matches!(parse(d), Parsed::Good(o) if norm_invs(o.clone().canon()) != norm_invs(b.clone()))), _ => false }) {
							return bad("done-without-effect", format!("{ctxt}: reported Done, but nothing was committed {}", tail(&out)))
						}
					}
					counts(&st.cmd, &m, &out, &ctxt, ctx)?;
				}
				_ => {
					for (class, key, text) in &diffs {
						if *class == "bytes" && prop != "C08" {
							if let (Some(a), Some(b)) = (rows.get(key), now.get(key)) { if same_meaning(a, b) { continue } }
						}
						return bad(class, format!("{ctxt}: {text}"))
					}
					if prop == "C08" {
						let n = skipped(&out);
						if n.0 + n.1 < m.skipped.0 as f64 { return bad("not-reported", format!("{ctxt}: {} damaged mapblocks were skipped, {} reported {}", m.skipped.0, n.0, tail(&out))) }
						if m.skipped.0 > 0 { ctx.st.probe("damaged blocks reported") }
					}
				}
			}
		} else if j { ctx.st.probe(if cut.is_some() { "step cut off" } else if success { "vacuum step" } else { "step failed" }) }
		disk = img;
		for n in disk.values_mut() { n.mode |= 0o200 }
	}
	Ok(())
}

fn skipped(out: &Out) -> (f64, f64) {
	for l in out.lines() {
		if let Some(v) = proto::figures(&l, "Skipped {} invalid/unsupported mapblocks.") { return v[0] }
	}
	(0.0, 0.0)
}

fn counts(cmd: &Cmd, m: &Model, out: &Out, ctxt: &str, ctx: &mut Ctx) -> Verdict {
	let s = skipped(out);
	if s.0 + s.1 < m.skipped.0 as f64 || s.0 - s.1 > m.skipped.1 as f64 {
		return bad("skipped", format!("{ctxt}: {} mapblocks reported as skipped, really {}..{}", s.0, m.skipped.0, m.skipped.1))
	}
	if let Some((pat, _)) = proto::report(&cmd.name) {
		let v = match out.lines().iter().find_map(|l| proto::figures(l, pat)) {
			None => return bad("no-report", format!("{ctxt}: no line {pat:?} {}", tail(out))),
			Some(v) => v,
		};
		for (i, ((x, tol), (lo, hi))) in v.iter().zip(&m.counts).enumerate() {
			if x + tol < *lo as f64 || x - tol > *hi as f64 {
				return bad("count", format!("{ctxt}: figure {} of {pat:?} is {x}, really {lo}{}", i + 1, if hi > lo { format!("..{hi}") } else { String::new() }))
			}
			if *lo > 0 { ctx.st.probe("nonzero count agreed") }
		}
	}
	Ok(())
}
