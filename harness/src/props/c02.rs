//! C02: a loaded save plays on exactly like the story it was taken from.
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::session::*;
use crate::tape::{Tape, hash_str};

pub const PROP: Prop = Prop {
    id: "C02",
    rule: "one program (generated or corpus), one host history, saves at generated points of it, each loaded into a fresh story and played in lockstep with the original; non-trivial = at least one save taken after the story produced something and at least two further operations compared",
    cases: |t| if t == Tier::Quick { 150_000 } else { 3_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

fn visible(o: Obs) -> Obs {
    // messages of past calls are not part of a save
    o.into_iter().filter(|(k, _)| k != "errors" && k != "warnings").collect()
}

fn has_nan(o: &Obs) -> bool {
    o.iter().any(|(_, v)| v.contains("NaN"))
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let p = match any_prg(
        t,
        |t| {
            let mut c = swarm(t, &[6, 12, 25, 40]);
            if t.chance(1, 2) {
                with_random(&mut c);
            }
            c
        },
        2,
    ) {
        Ok(p) => p,
        Err((src, e)) => {
            if std::env::var("SHOWREF").is_ok() { println!("{src}\n!! {e}"); }
            ctx.label(&format!("refused: {}", super::c01::strip(&e)));
            return Out::Skip("program refused by the compiler");
        }
    };
    ctx.detail = if p.generated { p.src.clone() } else { p.name.clone() };
    let mut a = match Session::new(&p, 11) {
        Ok(a) => a,
        Err(_) => return Out::Skip("story does not load"),
    };
    let mut log: Vec<String> = vec![];
    let w = HOST;
    let multi = t.chance(1, 3);
    let w = Weights { switch: if multi { w.switch } else { 0 }, remove: if multi { w.remove } else { 0 }, ..w };
    let mut compared = 0;
    let mut spoke = false;
    let mut saves = 0;
    let phases = t.range(1, 3);
    for _ in 0..phases {
        let n = t.range(0, 12);
        for _ in 0..n {
            let Some(op) = next_op(t, &a, &p, &w) else { break };
            let r = a.apply(&op);
            log.push(format!("{op:?} -> {r}"));
            if a.out_of_fuel() {
                return Out::Skip("runs away");
            }
            spoke |= matches!(op, Op::Cont | Op::Max);
        }
        if a.story.has_error() {
            break;
        }
        if has_nan(&observe(&mut a.story, &p)) {
            break;
        }
        log.push("SAVE and load into a fresh story".into());
        let text = match a.story.save_state() {
            Ok(x) => x,
            Err(e) => return fail(ctx, &log, "save fails", &e.to_string()),
        };
        let mut b = Session::new(&p, 99).unwrap();
        if t.chance(1, 4) {
            // the story that loads has a past of its own
            for _ in 0..t.range(1, 8) {
                let Some(op) = next_op(t, &b, &p, &w) else { break };
                let r = b.apply(&op);
                log.push(format!("  in the other story: {op:?} -> {r}"));
                if b.out_of_fuel() {
                    return Out::Skip("runs away");
                }
            }
            if b.story.has_error() {
                b = Session::new(&p, 99).unwrap();
            } else {
                ctx.label("loads into a used story");
            }
        }
        if let Err(e) = b.story.load_state(&text) {
            return fail(ctx, &log, "load fails", &e.to_string());
        }
        saves += 1;
        b.flow = a.flow.clone();
        let (oa, ob) = (visible(observe(&mut a.story, &p)), visible(observe(&mut b.story, &p)));
        if let Some((k, d)) = diff(&oa, &ob) {
            return fail(ctx, &log, &format!("state after load: {k}"), &d);
        }
        match (save_json(&a.story), save_json(&b.story)) {
            (Ok(x), Ok(y)) => {
                if let Some(d) = jdiff(&x, &y, "save") {
                    return fail(ctx, &log, "saving again", &d);
                }
            }
            (x, y) => return fail(ctx, &log, "saving again fails", &format!("{x:?} {y:?}")),
        }
        let n = t.range(1, 14);
        for _ in 0..n {
            let Some(op) = next_op(t, &a, &p, &w) else { break };
            let ra = a.apply(&op);
            if a.out_of_fuel() {
                return Out::Skip("runs away");
            }
            let rb = b.apply(&op);
            log.push(format!("{op:?} -> {ra}"));
            if ra != rb {
                return fail(ctx, &log, "result after load", &format!("original {ra} | loaded {rb}"));
            }
            let (oa, ob) = (visible(observe(&mut a.story, &p)), visible(observe(&mut b.story, &p)));
            if let Some((k, d)) = diff(&oa, &ob) {
                return fail(ctx, &log, &format!("later: {k}"), &d);
            }
            compared += 1;
            if has_nan(&oa) {
                // known finding: a NaN does not survive a save
                break;
            }
            spoke |= matches!(op, Op::Cont | Op::Max);
            if a.story.has_error() {
                break;
            }
        }
        if a.story.has_error() {
            break;
        }
        if let (Ok(x), Ok(y)) = (save_json(&a.story), save_json(&b.story)) {
            if let Some(d) = jdiff(&x, &y, "save") {
                return fail(ctx, &log, "later save", &d);
            }
        }
    }
    ctx.label_n("saves loaded", saves);
    ctx.label_n("operations compared after a load", compared);
    ctx.detail += &format!("\n// {}", log.join("\n// "));
    Out::Pass { nontrivial: spoke && compared >= 2, digest: hash_str(&(p.json + &log.join("\n"))) }
}

pub fn fail(ctx: &mut Ctx, log: &[String], kind: &str, msg: &str) -> Out {
    let m = format!("{msg}\n history:\n  {}", log.join("\n  "));
    let _ = ctx;
    Out::Fail(kind.to_string(), m)
}

/// plays a line, saves, loads, compares
pub fn finding(j: &serde_json::Value) -> i32 {
    let src = j["src"].as_str().unwrap_or("");
    let Ok(json) = crate::drive::compile(src) else { return 2 };
    let p = raw_prg("finding", src.into(), json);
    let Ok(mut a) = Session::new(&p, 11) else { return 2 };
    a.apply(&Op::Cont);
    let mut b = Session::new(&p, 99).unwrap();
    let Ok(text) = a.story.save_state() else { return 1 };
    if b.story.load_state(&text).is_err() {
        return 1;
    }
    let (oa, ob) = (visible(observe(&mut a.story, &p)), visible(observe(&mut b.story, &p)));
    if diff(&oa, &ob).is_some() || a.apply(&Op::Cont) != b.apply(&Op::Cont) { 1 } else { 0 }
}
