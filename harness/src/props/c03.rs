//! C03: the same program, seed and host calls give the same play, in every process and build.
use super::c02::fail;
use crate::runner::{Ctx, Out, Prop, Tier, guard};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use serde_json::{Value as J, json};

pub const PROP: Prop = Prop {
    id: "C03",
    rule: "one program (generated with tied list values and random features, untyped, or corpus) compiled and played along one generated history three times in this process and, for some, once in a process of the debug build; everything shown and stored compared after every call; non-trivial = at least four calls and two lines of text",
    cases: |t| if t == Tier::Quick { 36_000 } else { 900_000 },
    run,
    builds: &["release"],
    peer: Some("debug"),
};

struct Run {
    name: String,
    src: String,
    json: String,
    log: Vec<String>,
    lines: usize,
}

fn canon(j: &J) -> J {
    match j {
        J::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            k.sort();
            J::Object(k.into_iter().map(|k| (k.clone(), canon(&m[k]))).collect())
        }
        J::Array(a) => J::Array(a.iter().map(canon).collect()),
        x => x.clone(),
    }
}

fn play(t: &mut Tape) -> Result<Run, String> {
    match guard(|| play_(t)) {
        Ok(r) => r.map_err(|e| e.to_string()),
        // another property's business, unless only some runs do it
        Err(p) => Err(format!("panics: {p}")),
    }
}

fn play_(t: &mut Tape) -> Result<Run, &'static str> {
    let p = match t.weighted(&[6, 3]) {
        0 => any_prg(
            t,
            |t| {
                let mut c = swarm(t, &[8, 16, 30]);
                c.lists = c.lists || t.chance(1, 2);
                c.ties = t.chance(2, 3);
                if t.chance(2, 3) {
                    with_random(&mut c);
                }
                if t.chance(1, 3) {
                    c.externals = t.range(1, 3);
                    c.ext_fallback = 5;
                }
                c.missing = *t.pick(&[0, 0, 12]);
                c
            },
            2,
        )
        .map_err(|_| "program refused by the compiler")?,
        _ => wild_prg(t).map_err(|_| "program refused by the compiler")?,
    };
    let mut log = vec![];
    let mut r = rig(t, &p, true);
    let seed = t.below(1000) as i32;
    if !p.generated {
        r.observe = false;
    }
    let mut s = Session::rigged(&p, seed, &r).map_err(|_| "story does not load")?;
    let mut lines = 0;
    let w = Weights { max: 2, ..HOST };
    for _ in 0..t.range(4, 26) {
        let Some(op) = next_op(t, &s, &p, &w) else { break };
        let x = s.apply(&op);
        if s.out_of_fuel() {
            return Err("runs away");
        }
        if matches!(op, Op::Cont | Op::Max) && x.contains("\\n") {
            lines += 1;
        }
        log.push(format!("{op:?} -> {x}"));
        for e in settle(s.events()) {
            log.push(format!("  {e}"));
        }
        for (k, v) in observe(&mut s.story, &p) {
            log.push(format!("  {k}: {v}"));
        }
        match s.story.save_state() {
            Ok(x) => match serde_json::from_str::<J>(&x) {
                Ok(j) => log.push(format!("  saved: {}", canon(&j))),
                Err(_) => log.push("  saved: not JSON".into()),
            },
            Err(e) => log.push(format!("  not saved: {e}")),
        }
        if s.story.has_error() {
            if t.chance(1, 2) || log.len() > 4000 {
                break;
            }
            let op = Op::Reset;
            log.push(format!("{op:?} -> {}", s.apply(&op)));
        }
    }
    Ok(Run { name: p.name.clone(), src: p.src, json: p.json, log, lines })
}

/// first line that differs, with what led to it
fn differ(a: &[String], b: &[String]) -> Option<String> {
    let i = a.iter().zip(b).position(|(x, y)| x != y).or(if a.len() != b.len() { Some(a.len().min(b.len())) } else { None })?;
    let none = "(nothing)".to_string();
    let (x, y) = (a.get(i).unwrap_or(&none), b.get(i).unwrap_or(&none));
    let call = a[..i.min(a.len())].iter().rev().find(|l| !l.starts_with("  ")).cloned().unwrap_or_default();
    // only the surroundings of the difference
    let c = x.bytes().zip(y.bytes()).position(|(p, q)| p != q).unwrap_or(0).saturating_sub(60);
    let cut = |s: &str| s.chars().skip(c).take(200).collect::<String>();
    Some(format!("after {call}\n  one: {}\n  two: {}", cut(x), cut(y)))
}

fn kind(d: &str) -> &str {
    let l = d.lines().nth(1).unwrap_or("");
    if l.contains("saved") { "saved state" } else if l.contains("choices:") { "choices" } else { "transcript" }
}

fn run(idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let a = match play(t) {
        Ok(a) => a,
        Err(e) if e.starts_with("panics") => return Out::Skip("panics"),
        Err(e) => return Out::Skip(if e == "runs away" { "runs away" } else { "story not available" }),
    };
    ctx.detail = a.src.clone();
    let calls: Vec<String> = a.log.iter().filter(|l| !l.starts_with("  ")).cloned().collect();
    let rec = t.rec.clone();
    for _ in 0..2 {
        match play(&mut Tape::replay(rec.clone())) {
            Err(e) => return fail(ctx, &calls, "second run", &format!("the first run worked, this one: {e}")),
            Ok(b) => {
                if a.src != b.src || a.name != b.name {
                    return fail(ctx, &calls, "harness", "another program");
                }
                if a.json != b.json {
                    return fail(ctx, &calls, "compiled output", "the same source compiled twice in one process differs");
                }
                if let Some(d) = differ(&a.log, &b.log) {
                    return fail(ctx, &calls, &format!("same process: {}", kind(&d)), &d);
                }
            }
        }
    }
    if idx % 4 == 0 {
        ctx.label("runs in a process of the debug build");
        let ans = ctx.peer.as_mut().unwrap().ask(&json!({ "prop": "C03", "tape": rec }));
        match ans {
            None => return fail(ctx, &calls, "debug build", "the process of the debug build died"),
            Some(j) => {
                if let Some(e) = j["error"].as_str() {
                    return fail(ctx, &calls, "debug build", e);
                }
                if j["json"].as_str() != Some(a.json.as_str()) {
                    return fail(ctx, &calls, "compiled output", "the two builds compile the same source differently");
                }
                let log: Vec<String> = j["log"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                if let Some(d) = differ(&a.log, &log) {
                    return fail(ctx, &calls, &format!("debug build: {}", kind(&d)), &d);
                }
            }
        }
    }
    ctx.detail += &format!("\n// {}", calls.join("\n// "));
    Out::Pass { nontrivial: calls.len() >= 4 && a.lines >= 2, digest: hash_str(&(a.json + &calls.join("\n"))) }
}

pub fn serve(req: &J) -> J {
    let tape: Vec<u32> = req["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
    match play(&mut Tape::replay(tape)) {
        Ok(r) => json!({ "json": r.json, "log": r.log }),
        Err(e) => json!({ "error": e }),
    }
}
