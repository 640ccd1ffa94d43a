//! C15: malformed stories and saves are refused with an error, and leave the story usable.
use super::c02::fail;
use crate::jsonmut::damage;
use crate::runner::{Ctx, Out, Prop, Tier, clip, guard};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::story::Story;
use serde_json::{Value as J, json};

pub const PROP: Prop = Prop {
    id: "C15",
    rule: "story documents and saves (of corpus, generated and untyped programs, taken along generated histories with flows, threads and errors) damaged structurally or textually, cut off at every byte, foreign, random or deeply nested, given to Story::new and to load_state by the default loader here and by the streaming loader in a process built with overflow checks: Ok or Err, no panic, no death, bounded steps and time; after a refused load and a reset the story plays like a fresh one; non-trivial = at least one document that is refused and one that differs from a valid one by damage to its structure",
    cases: |t| if t == Tier::Quick { 50_000 } else { 2_000_000 },
    run,
    builds: &["release"],
    peer: Some("stream"),
};

/// thread CPU time in ms
fn cpu() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts);
        ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
    }
}

/// far beyond what any of these documents needs
const SLOW: u64 = 20_000;

#[derive(PartialEq, Clone, Debug)]
enum Load {
    Ok,
    Refused,
    Bad(String),
}

fn judge(r: Result<Result<(), String>, String>, t0: u64) -> Load {
    if bladeink::verif_hooks::fuel_exhausted() {
        return Load::Bad("does not come to an end".into());
    }
    if cpu() - t0 > SLOW {
        return Load::Bad(format!("takes {} ms", cpu() - t0));
    }
    match r {
        Ok(Ok(())) => Load::Ok,
        Ok(Err(_)) => Load::Refused,
        Err(p) => Load::Bad(format!("panics: {p}")),
    }
}

fn construct(doc: &str) -> Load {
    bladeink::verif_hooks::set_story_seed(Some(7));
    bladeink::verif_hooks::set_fuel(Some(1_000_000));
    let t0 = cpu();
    let r = guard(|| Story::new(doc).map(|_| ()).map_err(|e| e.to_string()));
    judge(r, t0)
}

fn load(s: &mut Story, save: &str) -> Load {
    bladeink::verif_hooks::set_fuel(Some(1_000_000));
    let t0 = cpu();
    let r = guard(|| s.load_state(save).map_err(|e| e.to_string()));
    judge(r, t0)
}

fn program(t: &mut Tape) -> Option<Prg> {
    match t.weighted(&[6, 2]) {
        0 => any_prg(
            t,
            |t| {
                let mut c = swarm(t, &[4, 8, 16, 30]);
                if t.chance(1, 3) {
                    with_random(&mut c);
                }
                c.externals = *t.pick(&[0, 0, 1]);
                c.missing = *t.pick(&[0, 0, 0, 10]);
                c
            },
            2,
        )
        .ok(),
        _ => wild_prg(t).ok(),
    }
}

/// A session that has come some way, with its saves on the way.
fn walk(t: &mut Tape, p: &Prg, max: usize) -> Result<(Session, Vec<String>, Vec<String>), String> {
    let mut s = Session::new(p, 7)?;
    s.fuel = s.fuel.min(6_000);
    let mut log = vec![];
    let mut saves = vec![];
    let w = Weights { save: 0, load: 0, reset: 0, max: 2, ..HOST };
    for _ in 0..t.range(0, max) {
        let Some(op) = next_op(t, &s, p, &w) else { break };
        let x = s.apply(&op);
        log.push(format!("{op:?} -> {}", clip(&x, 200)));
        if s.out_of_fuel() {
            break;
        }
        if t.chance(1, 3)
            && let Ok(x) = s.story.save_state()
        {
            saves.push(x);
        }
    }
    if let Ok(x) = s.story.save_state() {
        saves.push(x);
    }
    Ok((s, saves, log))
}

/// Text without any story in it
fn noise(t: &mut Tape) -> String {
    let deep = |t: &mut Tape, open: &str, close: &str| {
        let n = *t.pick(&[10usize, 100, 126, 127, 128, 129, 200, 1000, 10_000, 200_000]);
        let half = t.chance(1, 2);
        format!("{}{}", open.repeat(n), if half { String::new() } else { close.repeat(n) })
    };
    match t.below(6) {
        0 => {
            let n = t.range(0, 40);
            (0..n).map(|_| char::from_u32(t.below(0x300) as u32).unwrap_or('x')).collect()
        }
        1 => {
            let n = t.range(0, 60);
            (0..n).map(|_| *t.pick(&["{", "}", "[", "]", ",", ":", "\"", "\"a\"", "1", "-", "null", "true", "\"inkVersion\"", "\"root\"", "\"listDefs\"", "21", "\"#n\"", "\"->\"", "\"^x\"", "\\", " ", "\n", ".5", "1e9", "\u{e9}"])).collect()
        }
        2 => {
            // a bomb where content is expected
            let (o, c) = *t.pick(&[("[", "]"), ("[", ",null]"), ("{\"a\":", "}"), ("[{\"a\":", "}]"), ("[[],", "]"), ("{\"list\":", "}"), ("{\"->\":", "}"), ("[\"^x\",", ",null]"), ("[{\"#n\":", "}]"), ("{\"#f\":", "}")]);
            let b = deep(t, o, c);
            match t.below(4) {
                0 => b,
                1 => format!("{{\"inkVersion\":21,\"root\":{b},\"listDefs\":{{}}}}"),
                2 => format!("{{\"inkVersion\":21,\"root\":[\"done\",null],\"listDefs\":{b}}}"),
                _ => format!("{{\"inkVersion\":{b}"),
            }
        }
        3 => {
            let v = crate::jsonmut::atom(t);
            let (a, b) = (crate::jsonmut::atom(t), crate::jsonmut::atom(t));
            json!({"inkVersion": v, "root": a, "listDefs": b}).to_string()
        }
        4 => {
            let mut m = vec![];
            for _ in 0..t.range(0, 8) {
                m.push(crate::jsonmut::atom(t));
            }
            let mut decl = vec![];
            for _ in 0..t.range(0, 8) {
                decl.push(crate::jsonmut::atom(t));
            }
            json!({"inkVersion": 21, "root": [m, {"global decl": decl}], "listDefs": {"L": {"a": crate::jsonmut::atom(t)}}}).to_string()
        }
        _ => {
            let d = if t.chance(1, 2) { "DEFAULT_FLOW" } else { "x" };
            let mut cs = crate::jsonmut::atom(t);
            if t.chance(1, 2) {
                cs = json!({"threads": [{"callstack": [crate::jsonmut::atom(t)], "threadIndex": crate::jsonmut::atom(t)}], "threadCounter": 0});
            }
            json!({"flows": {d: {"callstack": cs, "outputStream": [crate::jsonmut::atom(t)], "currentChoices": [crate::jsonmut::atom(t)]}}, "currentFlowName": d, "variablesState": crate::jsonmut::atom(t), "evalStack": [], "visitCounts": crate::jsonmut::atom(t), "turnIndices": {}, "turnIdx": crate::jsonmut::atom(t), "storySeed": 1, "previousRandom": 0, "inkSaveVersion": 10, "inkFormatVersion": 21})
                .to_string()
        }
    }
}

/// all prefixes of a short document, a sample of those of a long one
fn prefixes(t: &mut Tape, doc: &str) -> Vec<String> {
    let mut v = vec![];
    let step = (doc.len() / 1500).max(1);
    let mut i = t.below(step);
    while i < doc.len() {
        if doc.is_char_boundary(i) {
            v.push(doc[..i].to_string());
        }
        i += step;
    }
    v
}

fn documents(t: &mut Tape, src: &str, kinds: &mut Vec<&'static str>) -> Vec<String> {
    match t.weighted(&[30, 5, 1]) {
        0 => (0..8)
            .map(|_| {
                let (s, k) = damage(t, src);
                kinds.extend(k);
                s
            })
            .collect(),
        1 => (0..8).map(|_| noise(t)).collect(),
        _ => prefixes(t, src),
    }
}

fn stories(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let Some(p) = program(t) else { return Out::Skip("program refused by the compiler") };
    let mut kinds = vec![];
    let docs = documents(t, &p.json, &mut kinds);
    let mut refused = 0;
    let mut answers = vec![];
    for d in &docs {
        ctx.detail = clip(d, 3000);
        let r = construct(d);
        if let Load::Bad(m) = &r {
            return Out::Fail(format!("story: {}", crate::runner::panic_kind(m)), m.clone());
        }
        refused += (r == Load::Refused) as usize;
        answers.push(r);
    }
    if let Some(o) = remote(ctx, "story", "", &docs) {
        return o;
    }
    for k in &kinds {
        ctx.label(&format!("story: {k}"));
    }
    ctx.label_n("story documents loaded", docs.len() as u64);
    ctx.label_n("story documents refused", refused as u64);
    let structural = kinds.iter().any(|k| *k != "nothing") || docs.len() > 8;
    Out::Pass { nontrivial: refused > 0 && structural, digest: hash_str(&docs.concat()) }
}

/// the same in the process with the streaming loader
fn remote(ctx: &mut Ctx, what: &str, story: &str, docs: &[String]) -> Option<Out> {
    let peer = ctx.peer.as_mut().unwrap();
    let mut bad = None;
    match peer.ask(&json!({"prop": "C15", "what": what, "story": story, "docs": docs})) {
        Some(a) => {
            if let Some(i) = a["at"].as_u64() {
                bad = Some((i as usize, a["bad"].as_str().unwrap_or("").to_string()));
            }
        }
        None => {
            // which one was it?
            for (i, d) in docs.iter().enumerate() {
                if peer.ask(&json!({"prop": "C15", "what": what, "story": story, "docs": [d]})).is_none() {
                    bad = Some((i, "the process died".into()));
                    break;
                }
            }
            if bad.is_none() {
                bad = Some((0, "the process died, on all of the documents together".into()));
            }
        }
    }
    let (i, m) = bad?;
    ctx.detail = clip(&docs[i], 3000);
    Some(Out::Fail(format!("{what}, streaming build: {}", crate::runner::panic_kind(&m)), m))
}

fn saves(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let Some(p) = program(t) else { return Out::Skip("program refused by the compiler") };
    ctx.detail = if p.src.len() < 3000 { p.src.clone() } else { p.name.clone() };
    let Ok(Ok((_, saves, log))) = guard(|| walk(t, &p, 16)) else { return Out::Skip("panics, or does not load") };
    if saves.is_empty() {
        return Out::Skip("cannot be saved");
    }
    // the keys come in no particular order
    let save = canon(&t.pick(&saves).clone());
    let mut kinds = vec![];
    let docs = if t.chance(1, 12) {
        // saves of another story
        let Some(q) = program(t) else { return Out::Skip("program refused by the compiler") };
        let Ok(Ok((_, other, _))) = guard(|| walk(t, &q, 12)) else { return Out::Skip("panics, or does not load") };
        ctx.label("saves of another story");
        kinds.push("foreign");
        other.iter().map(|x| canon(x)).collect()
    } else {
        documents(t, &save, &mut kinds)
    };
    let show = |d: &str| format!("{}\n// {}\nsave: {}", if p.src.len() < 3000 { &p.src } else { &p.name }, log.join("\n// "), clip(d, 3000));
    // into a story that is somewhere in the middle
    let start = t.rec.len();
    let Ok(Ok((s, ..))) = guard(|| walk(t, &p, 6)) else { return Out::Skip("panics, or does not load") };
    let rec = t.rec[start..].to_vec();
    let mut s = Some(s);
    let mut refused = 0;
    for d in &docs {
        ctx.detail = show(d);
        if s.is_none() {
            let Ok(Ok((x, ..))) = guard(|| walk(&mut Tape::replay(rec.clone()), &p, 6)) else { return Out::Skip("panics, or does not load") };
            s = Some(x);
        }
        let mut x = s.take().unwrap();
        let r = load(&mut x.story, d);
        if let Load::Bad(m) = &r {
            return Out::Fail(format!("save: {}", crate::runner::panic_kind(m)), m.clone());
        }
        refused += (r == Load::Refused) as usize;
        // a refused save may be followed by another
        if r == Load::Refused && docs.len() > 8 && t.chance(9, 10) || r == Load::Refused && t.chance(1, 6) {
            s = Some(x);
            continue;
        }
        if let Some(o) = fresh(t, &p, x, &r, ctx) {
            return o;
        }
    }
    ctx.detail = show(docs.first().map(|x| x.as_str()).unwrap_or(""));
    if let Some(o) = remote(ctx, "save", &p.json, &docs) {
        ctx.detail = format!("{}\n{}", p.json, ctx.detail);
        return o;
    }
    for k in &kinds {
        ctx.label(&format!("save: {k}"));
    }
    ctx.label_n("saves loaded", docs.len() as u64);
    ctx.label_n("saves refused", refused as u64);
    let structural = kinds.iter().any(|k| *k != "nothing") || docs.len() > 8;
    Out::Pass { nontrivial: refused > 0 && structural, digest: hash_str(&docs.concat()) }
}

/// reset after the load: the story plays like a fresh one
fn fresh(t: &mut Tape, p: &Prg, mut x: Session, r: &Load, ctx: &mut Ctx) -> Option<Out> {
    let after = if *r == Load::Refused { "refused" } else { "accepted" };
    match guard(|| x.apply(&Op::Reset)) {
        Ok(e) if e.starts_with("ok") => {}
        Ok(e) => return Some(Out::Fail(format!("reset after {after}"), format!("the story cannot be reset after a load that was {after}: {e}"))),
        Err(e) => return Some(Out::Fail(format!("reset after {after}"), format!("reset panics after a load that was {after}: {e}"))),
    }
    let Ok(Ok(mut y)) = guard(|| Session::new(p, 7)) else { return None };
    (x.fuel, y.fuel) = (6_000, 6_000);
    let mut log = vec![];
    let w = Weights { save: 0, load: 0, reset: 0, max: 2, ..HOST };
    x.events();
    y.events();
    for _ in 0..t.range(1, 8) {
        let Some(op) = next_op(t, &y, p, &w) else { break };
        let (a, b) = (guard(|| y.apply(&op)), guard(|| x.apply(&op)));
        if y.out_of_fuel() || x.out_of_fuel() && b.is_ok() {
            break;
        }
        let (Ok(a), b) = (a, b) else { break };
        let b = b.unwrap_or_else(|e| format!("panics: {e}"));
        log.push(format!("{op:?} -> {a}"));
        if a != b {
            return Some(fail(ctx, &log, &format!("play after {after}"), &format!("fresh: {a}\nreset: {b}")));
        }
        let (a, b) = (guard(|| observe(&mut y.story, p)), guard(|| observe(&mut x.story, p)));
        let (Ok(a), Ok(b)) = (a, b) else { break };
        if let Some(d) = diff(&a, &b) {
            return Some(fail(ctx, &log, &format!("play after {after}"), &format!("fresh, reset: {d:?}")));
        }
        let (a, b) = (y.story.save_state().map(|x| canon(&x)).map_err(|e| e.to_string()), x.story.save_state().map(|x| canon(&x)).map_err(|e| e.to_string()));
        if a != b {
            return Some(fail(ctx, &log, &format!("saved after {after}"), &format!("fresh: {a:?}\nreset: {b:?}")));
        }
    }
    ctx.label(if *r == Load::Refused { "resets after a refused load" } else { "resets after an accepted load" });
    None
}

fn canon(s: &str) -> String {
    fn go(j: &J) -> J {
        match j {
            J::Object(m) => {
                let mut k: Vec<&String> = m.keys().collect();
                k.sort();
                J::Object(k.into_iter().map(|k| (k.clone(), go(&m[k]))).collect())
            }
            J::Array(a) => J::Array(a.iter().map(go).collect()),
            x => x.clone(),
        }
    }
    serde_json::from_str::<J>(s).map(|j| go(&j).to_string()).unwrap_or_default()
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    if t.chance(1, 2) { stories(t, ctx) } else { saves(t, ctx) }
}

/// On the stack of an ordinary thread, and half of it
pub fn serve(req: &J) -> J {
    let req = req.clone();
    match std::thread::Builder::new().stack_size(1 << 20).spawn(move || answer(&req)).map(|h| h.join()) {
        Ok(Ok(j)) => j,
        _ => json!({ "at": 0, "bad": "panics: outside of the guard" }),
    }
}

fn answer(req: &J) -> J {
    let docs: Vec<&str> = req["docs"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("")).collect()).unwrap_or_default();
    let save = req["what"] == "save";
    let mut story = None;
    for (i, d) in docs.iter().enumerate() {
        let r = if save {
            if story.is_none() {
                bladeink::verif_hooks::set_story_seed(Some(7));
                story = guard(|| Story::new(req["story"].as_str().unwrap_or("")).ok()).ok().flatten();
            }
            let Some(mut s) = story.take() else { return json!({}) };
            let r = load(&mut s, d);
            if r == Load::Refused {
                story = Some(s);
            }
            r
        } else {
            construct(d)
        };
        if let Load::Bad(m) = r {
            return json!({ "at": i, "bad": m });
        }
    }
    json!({})
}
