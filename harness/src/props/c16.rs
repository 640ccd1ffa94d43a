//! C16: evaluating an Ink function from the host.
use super::c01::{eval_of, mval};
use super::c02::fail;
use crate::ink::interp::Interp;
use crate::ink::value::V;
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::value_type::ValueType;
use serde_json::Value as J;

pub const PROP: Prop = Prop {
    id: "C16",
    rule: "one generated program and host history on twin stories, one of which also has functions evaluated between the host's calls; results against the reference interpreter and against a repetition, state and save before and after, twins in lockstep later; non-trivial = at least two evaluations inside a history with at least two compared calls after the first",
    cases: |t| if t == Tier::Quick { 130_000 } else { 3_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

/// the save without what the evaluated functions may count
fn without(mut j: J, fns: &[String]) -> J {
    for k in ["visitCounts", "turnIndices"] {
        if let Some(m) = j.get_mut(k).and_then(|m| m.as_object_mut()) {
            m.retain(|n, _| !fns.iter().any(|f| n == f || n.starts_with(&format!("{f}."))));
        }
    }
    j
}

fn look(s: &mut Session, p: &Prg) -> (Obs, Option<J>) {
    (observe(&mut s.story, p), save_json(&s.story).ok())
}

/// the pending output: what an evaluation may never touch
fn pending(o: &Obs) -> Obs {
    o.iter().take_while(|x| !x.0.starts_with("variable ")).cloned().collect()
}

/// What the reference interpreter says, given the present variables and counts.
fn model(s: &Session, p: &Prg, f: &str, args: &[ValueType]) -> Option<String> {
    let mut it = Interp::new(p.prog.clone()?).ok()?;
    for g in &p.globals {
        it.globals.insert(g.clone(), to_v(&s.story.get_variable(g)?)?);
    }
    for u in &p.paths {
        let n = s.story.get_visit_count_at_path_string(u).ok()?;
        it.visits.insert(u.clone(), n);
    }
    let bound = s.bound.clone();
    it.ext = Some(Box::new(move |n: &str, a: &[V]| {
        if !bound.iter().any(|b| b == n) {
            return None;
        }
        let ints: Vec<i32> = a.iter().map(|v| match v {
            V::Int(i) => *i,
            V::Bool(b) => *b as i32,
            _ => 0,
        }).collect();
        Some(V::Int(ext_value(n, &ints, 0)))
    }));
    let a = args.iter().map(to_v).collect::<Option<Vec<_>>>()?;
    let (text, v) = it.host_call(f, a).ok()?;
    let v = match v {
        V::Void => None,
        v => Some(mval(&v)),
    };
    Some(format!("ok {v:?} text {text:?}"))
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let counts = t.chance(1, 3);
    let c = {
        let mut c = swarm(t, &[8, 16, 30]);
        c.functions = true;
        c.max_knots = t.range(1, 4);
        c.min_fns = t.range(1, 2);
        c.counts = counts;
        if t.chance(1, 4) {
            with_random(&mut c);
        }
        if t.chance(1, 2) {
            c.externals = t.range(1, 2);
        }
        c
    };
    let p = match gen_prg(t, c) {
        Ok(p) => p,
        Err(_) => return Out::Skip("program refused by the compiler"),
    };
    ctx.detail = p.src.clone();
    if p.funcs().is_empty() {
        return Out::Skip("no functions");
    }
    let quiet = traceless(&p);
    let fns: Vec<String> = p.units.iter().filter(|u| u.role == crate::ink::genp::Role::Fn).map(|u| u.path.clone()).collect();
    let mut rg = rig(t, &p, false);
    rg.observe = false;
    let (Ok(mut a), Ok(mut b)) = (Session::rigged(&p, 11, &rg), Session::rigged(&p, 11, &rg)) else {
        return Out::Skip("story does not load");
    };
    let mut log: Vec<String> = vec![format!("{rg:?}")];
    let w = Weights { eval: 0, save: 1, load: 1, reset: 1, ..HOST };
    let (mut evals, mut after, mut against) = (0u64, 0u64, 0u64);
    for _ in 0..t.range(3, 22) {
        for _ in 0..if t.chance(2, 3) { t.range(1, 2) } else { 0 } {
            if b.story.has_error() {
                break;
            }
            let funcs = p.funcs();
            let f = *t.pick(&funcs);
            let Some(args) = args_for(t, f, &b, &p) else { continue };
            let pure_ = quiet.contains(&f.path);
            let op = Op::Eval(f.path.clone(), args.clone());
            let want = if counts || !pure_ { None } else { model(&b, &p, &f.path, &args) };
            let before = look(&mut b, &p);
            b.events();
            let r = b.apply(&op);
            if b.out_of_fuel() {
                return Out::Skip("runs away");
            }
            log.push(format!("  {op:?} -> {r}{}", if pure_ { "" } else { " (both)" }));
            let x = look(&mut b, &p);
            if r.starts_with("err") || b.story.has_error() {
                // a fault inside the function: the story has an error now
                ctx.label("faulty evaluations");
                return Out::Pass { nontrivial: false, digest: 0 };
            }
            let (ob, oa) = if pure_ { (before.0.clone(), x.0.clone()) } else { (pending(&before.0), pending(&x.0)) };
            if let Some((k, d)) = diff(&ob, &oa) {
                return fail(ctx, &log, &format!("evaluation changes {k}"), &format!("before | after: {d}"));
            }
            evals += 1;
            if pure_ {
                if let (Some(m), Some(n)) = (before.1, x.1)
                    && let Some(d) = jdiff(&without(m, &fns), &without(n, &fns), "save")
                {
                    return fail(ctx, &log, "evaluation changes the save", &format!("before | after: {d}"));
                }
                if let Some(want) = want {
                    against += 1;
                    let got = match r.strip_prefix("ok Some(\"l:()") {
                        Some(rest) => format!("ok Some(\"{}\"){}", eval_of("l:()"), rest.split_once("\")").map(|x| x.1).unwrap_or("")),
                        None => r.clone(),
                    };
                    if got != want {
                        return fail(ctx, &log, "result of the evaluation", &format!("reference {want} | engine {got}"));
                    }
                }
                if t.chance(1, 6) && r.starts_with("ok Some") {
                    // an argument the function does not take is no part of its result
                    let mut more = args.clone();
                    more.insert(0, ValueType::Int(77));
                    let r2 = b.apply(&Op::Eval(f.path.clone(), more));
                    if r2 != r {
                        return fail(ctx, &log, "evaluation with an argument too many", &format!("without {r} | with {r2}"));
                    }
                }
                if t.chance(1, 2) {
                    let r2 = b.apply(&op);
                    if r2 != r {
                        return fail(ctx, &log, "repeated evaluation", &format!("first {r} | then {r2}"));
                    }
                }
            } else {
                let ra = a.apply(&op);
                if ra != r {
                    return fail(ctx, &log, "evaluation in the twin", &format!("with earlier evaluations {r} | without {ra}"));
                }
            }
        }
        let Some(op) = next_op(t, &a, &p, &w) else { break };
        let ra = a.apply(&op);
        if a.out_of_fuel() {
            return Out::Skip("runs away");
        }
        let rb = b.apply(&op);
        log.push(format!("{op:?} -> {ra}"));
        if ra != rb {
            return fail(ctx, &log, "later result", &format!("without evaluations {ra} | with {rb}"));
        }
        let (oa, ob) = (look(&mut a, &p), look(&mut b, &p));
        if let Some((k, d)) = diff(&oa.0, &ob.0) {
            return fail(ctx, &log, &format!("later: {k}"), &format!("without | with: {d}"));
        }
        if let (Some(m), Some(n)) = (oa.1, ob.1)
            && let Some(d) = jdiff(&without(m, &fns), &without(n, &fns), "save")
        {
            return fail(ctx, &log, "later save", &format!("without | with: {d}"));
        }
        if evals > 0 {
            after += 1;
        }
        if a.story.has_error() {
            break;
        }
    }
    ctx.label_n("evaluations", evals);
    ctx.label_n("evaluations against the reference", against);
    ctx.detail += &format!("\n// {}", log.join("\n// "));
    Out::Pass { nontrivial: evals >= 2 && after >= 2, digest: hash_str(&(p.json + &log.join("\n"))) }
}
