//! C17: reset equals fresh construction; a jump with reset keeps only variables and counts.
use super::c02::fail;
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use serde_json::{Value as J, json};

pub const PROP: Prop = Prop {
    id: "C17",
    rule: "one program, an arbitrary host history (errors, flows, loads, jumps, evaluations), then reset, and the story plays in lockstep with a newly constructed one; or a jump with call-stack reset, in lockstep with a story that never had the abandoned call stack; non-trivial = at least three calls before and two compared calls after a reset or jump",
    cases: |t| if t == Tier::Quick { 110_000 } else { 2_500_000 },
    run,
    builds: &["release"],
    peer: None,
};

fn look(s: &mut Session, p: &Prg) -> (Obs, Option<J>) {
    (observe(&mut s.story, p), save_json(&s.story).ok())
}

fn same(a: &mut Session, b: &mut Session, p: &Prg) -> Option<(String, String)> {
    let (x, y) = (look(a, p), look(b, p));
    if let Some((k, d)) = diff(&x.0, &y.0) {
        return Some((k, d));
    }
    match (&x.1, &y.1) {
        (Some(m), Some(n)) => jdiff(m, n, "save").map(|d| ("save".into(), d)),
        (None, None) => None,
        _ => Some(("save".into(), "only one of the two can be saved".into())),
    }
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let p = match any_prg(
        t,
        |t| {
            let mut c = swarm(t, &[6, 12, 25]);
            if t.chance(1, 3) {
                with_random(&mut c);
            }
            if t.chance(1, 2) {
                c.externals = t.range(1, 3);
            }
            if t.chance(1, 4) {
                c.raw_int = FAULT_INT;
            }
            c
        },
        2,
    ) {
        Ok(p) => p,
        Err(_) => return Out::Skip("program refused by the compiler"),
    };
    ctx.detail = if p.generated { p.src.clone() } else { p.name.clone() };
    let rg = rig(t, &p, false);
    let Ok(mut a) = Session::rigged(&p, 11, &rg) else {
        return Out::Skip("story does not load");
    };
    let fresh_flow = save_json(&a.story).ok().and_then(|j| j["flows"]["DEFAULT_FLOW"].as_object().cloned());
    let mut log: Vec<String> = vec![format!("{rg:?}")];
    let w = Weights { jump: 3, save: 1, load: 1, reset: 0, eval: 2, ..HOST };
    let (mut did, mut cmp) = (0u64, 0u64);
    for _ in 0..t.range(1, 3) {
        for _ in 0..t.range(0, 14) {
            let Some(op) = next_op(t, &a, &p, &w) else { break };
            let r = a.apply(&op);
            log.push(format!("{op:?} -> {r}"));
            if a.out_of_fuel() {
                if t.chance(1, 2) {
                    return Out::Skip("runs away");
                }
                // stopped by the step limit: an error like any other, reset has to cope
                break;
            }
            did += 1;
        }
        if a.story.has_error() {
            ctx.label("error before the reset");
        }
        let mut b;
        let mut jumped = false;
        if t.chance(2, 3) || p.jumps.is_empty() || a.story.has_error() {
            b = Session::rigged(&p, 11, &rg).unwrap();
            if let Err(e) = a.story.reset_state() {
                return fail(ctx, &log, "reset fails", &e.to_string());
            }
            a.flow = b.flow.clone();
            a.events();
            b.events();
            log.push("RESET, next to a new story".into());
            ctx.label("resets");
        } else {
            // the same variables and counts, but nothing on the call stack
            let Some(Ok(mut j)) = Some(save_json(&a.story)) else { return Out::Skip("cannot save") };
            a.flow = j["currentFlowName"].as_str().unwrap_or("DEFAULT_FLOW").to_string();
            let Some(fresh) = &fresh_flow else { return Out::Skip("cannot save") };
            let counter = j["flows"].get(&a.flow).map(|f| f["callstack"]["threadCounter"].clone());
            let shown = j["flows"].get(&a.flow).map(|f| f["outputStream"].clone());
            j["flows"][&a.flow] = J::Object(fresh.clone());
            // what is on screen stays there until the next continue; thread numbers go on
            j["flows"][&a.flow]["outputStream"] = shown.unwrap_or_else(|| json!([]));
            j["flows"][&a.flow]["callstack"]["threadCounter"] = counter.unwrap_or(json!(0));
            j.as_object_mut().unwrap().remove("currentDivertTarget");
            b = Session::rigged(&p, 11, &rg).unwrap();
            if let Err(e) = b.story.load_state(&j.to_string()) {
                return fail(ctx, &log, "load fails", &e.to_string());
            }
            b.flow = a.flow.clone();
            b.saved = a.saved.clone();
            let before = observe(&mut a.story, &p);
            let path = t.pick(&p.jumps).clone();
            let op = Op::Jump(path.clone(), true);
            let ra = a.apply(&op);
            let rb = b.apply(&op);
            log.push(format!("{op:?} -> {ra}, next to a story without a call stack"));
            if ra != rb {
                return fail(ctx, &log, "jump", &format!("{ra} | {rb}"));
            }
            if !ra.starts_with("ok") {
                return fail(ctx, &log, "jump refused", &ra);
            }
            let after = observe(&mut a.story, &p);
            for (x, y) in before.iter().zip(&after) {
                let keep = x.0.starts_with("variable") || (x.0.starts_with("visits of ") && !path.starts_with(&x.0[10..]) && !x.0[10..].starts_with(&path));
                if keep && x != y {
                    return fail(ctx, &log, "jump changes the store", &format!("{}: {} | {}", x.0, x.1, y.1));
                }
            }
            if let Ok(j) = save_json(&a.story) {
                let th = &j["flows"][&a.flow]["callstack"]["threads"];
                if th.as_array().map(|x| x.len()) != Some(1) || th[0]["callstack"].as_array().map(|x| x.len()) != Some(1) {
                    return fail(ctx, &log, "call stack kept", &format!("after the jump the save still has {th}"));
                }
            }
            a.events();
            b.events();
            jumped = true;
            ctx.label("jumps with reset");
        }
        if let Some((k, d)) = same(&mut a, &mut b, &p) {
            return fail(ctx, &log, &format!("at once: {k}"), &d);
        }
        for _ in 0..t.range(2, 12) {
            let Some(op) = next_op(t, &b, &p, &w) else { break };
            if matches!(op, Op::Save | Op::Load) {
                // each has texts of its own
                continue;
            }
            let ra = a.apply(&op);
            if a.out_of_fuel() {
                return Out::Skip("runs away");
            }
            let rb = b.apply(&op);
            log.push(format!("{op:?} -> {rb}"));
            if ra != rb {
                return fail(ctx, &log, "later result", &format!("{ra} | expected {rb}"));
            }
            let (mut ea, mut eb) = (settle(a.events()), settle(b.events()));
            if jumped {
                // assigning the value a variable already holds may or may not be announced, and
                // that differs between a value just loaded and one assigned before
                ea.retain(|e| !e.starts_with("notify"));
                eb.retain(|e| !e.starts_with("notify"));
            }
            if ea != eb {
                return fail(ctx, &log, "callbacks", &format!("{ea:?} | expected {eb:?}"));
            }
            if let Some((k, d)) = same(&mut a, &mut b, &p) {
                return fail(ctx, &log, &format!("later: {k}"), &d);
            }
            cmp += 1;
        }
        if let Ok(x) = b.story.save_state() {
            a.saved = Some(x);
        }
    }
    ctx.label_n("calls compared", cmp);
    ctx.detail += &format!("\n// {}", log.join("\n// "));
    Out::Pass { nontrivial: did >= 3 && cmp >= 2, digest: hash_str(&(p.json + &log.join("\n"))) }
}
