//! C09: a refused host call changes nothing.
use super::c02::fail;
use crate::runner::{Ctx, Out, Prop, Tier, guard};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::value_type::ValueType;
use std::cell::RefCell;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C09",
    rule: "one program and host history on twin stories, one of which also receives calls that must be refused; state, save text and callbacks are compared before and after each refused call and between the twins after every later call; non-trivial = at least three refused calls followed by at least two compared calls",
    cases: |t| if t == Tier::Quick { 110_000 } else { 2_500_000 },
    run,
    builds: &["release"],
    peer: None,
};

/// a save text no story can accept
fn bad_save(t: &mut Tape, s: &Session) -> String {
    let mut j = save_json(&s.story).unwrap_or_default();
    match t.below(9) {
        0 => String::new(),
        1 => "not a save".into(),
        2 => "{}".into(),
        3 => "[1,2]".into(),
        4 => {
            j["inkSaveVersion"] = 3.into();
            j.to_string()
        }
        5 => {
            j["flows"] = 7.into();
            j.to_string()
        }
        6 => {
            j["turnIdx"] = "x".into();
            j.to_string()
        }
        7 => {
            j["visitCounts"] = 1.into();
            j.to_string()
        }
        _ => {
            let mut x = s.story.save_state().unwrap_or_default();
            let mut k = x.len() / 2;
            while !x.is_char_boundary(k) {
                k -= 1;
            }
            x.truncate(k);
            x
        }
    }
}

fn unknown(t: &mut Tape, p: &Prg) -> String {
    match t.below(7) {
        0 => "no_such_thing".into(),
        1 if !p.paths.is_empty() => format!("{}.no_such_thing", t.pick(&p.paths)),
        2 if !p.paths.is_empty() => format!("{}.99", t.pick(&p.paths)),
        3 => "0.no_such.3".into(),
        4 if !p.paths.is_empty() => format!("{}x", t.pick(&p.paths)),
        5 => "no.such.thing".into(),
        _ => "nosuch.0".into(),
    }
}

/// a name that no global variable has
fn undeclared<'a>(t: &mut Tape, p: &'a Prg) -> &'a str {
    match t.below(5) {
        0 => "",
        1 => p.units.iter().flat_map(|u| &u.params).map(|x| x.0.as_str()).find(|n| !p.globals.iter().any(|g| g == n)).unwrap_or(" "),
        2 => p.paths.iter().find(|n| !p.globals.contains(n)).map(|n| n.as_str()).unwrap_or("no_such_var"),
        _ => "no_such_var",
    }
}

/// A call that has to be refused: its description and what it returned.
fn refused(t: &mut Tape, s: &mut Session, p: &Prg) -> Option<(String, Result<(), String>)> {
    let e = |r: Result<(), bladeink::story_error::StoryError>| r.map_err(|e| e.to_string());
    let divert = p.globals.iter().filter_map(|g| s.story.get_variable(g)).find(|v| matches!(v, ValueType::DivertTarget(_)));
    let n = s.story.get_current_choices().len();
    let st = &mut s.story;
    Some(match t.below(20) {
        0 | 1 if !st.can_continue() => match t.below(2) {
            0 => ("cont".into(), e(st.cont().map(|_| ()))),
            _ => ("continue_async".into(), e(st.continue_async(5.0))),
        },
        2 | 3 => {
            let i = *t.pick(&[n, n + 1, n + 100, usize::MAX]);
            (format!("choose_choice_index({i}) of {n}"), e(st.choose_choice_index(i)))
        }
        4 => ("set_variable(undeclared)".into(), e(st.set_variable(undeclared(t, p), &ValueType::Int(3)))),
        5 => ("observe_variable(undeclared)".into(), e(st.observe_variable(undeclared(t, p), watch("!", &s.log)))),
        6 | 7 => {
            let f = *t.pick(&["no_such_fn", "", "  ", "\t"]);
            let mut text = "kept".to_string();
            let r = e(st.evaluate_function(f, None, &mut text).map(|_| ()));
            (format!("evaluate_function({f:?})"), r)
        }
        8 => {
            let d = divert?;
            let funcs = p.funcs();
            let f = funcs.first()?;
            let mut a = vec![ValueType::Int(1); f.params.len()];
            a.push(d);
            ("evaluate_function with a divert target".into(), e(st.evaluate_function(&f.path, Some(&a), &mut String::new()).map(|_| ())))
        }
        9 => {
            let d = divert?;
            let j = p.jumps.first()?;
            ("choose_path_string with a divert target".into(), e(st.choose_path_string(j, t.chance(1, 2), Some(&vec![d]))))
        }
        10..=12 => {
            let u = unknown(t, p);
            let r = t.chance(1, 2);
            let a = vec![ValueType::Int(1)];
            let args = if t.chance(1, 3) { Some(&a) } else { None };
            (format!("choose_path_string({u:?}, {r})"), e(st.choose_path_string(&u, r, args)))
        }
        13 | 14 => {
            let f = *t.pick(&["DEFAULT_FLOW", "absent", "", "F1", "F2", "F3"]);
            // only names that are not flows now
            let live = save_json(st).ok()?["flows"].as_object()?.contains_key(f);
            if f != "DEFAULT_FLOW" && live {
                return None;
            }
            (format!("remove_flow({f:?})"), e(st.remove_flow(f)))
        }
        15 | 16 => {
            let stranger = watch("!", &s.log);
            let g = p.globals.first();
            let other = p.globals.iter().find(|g| !s.observed.contains(g));
            match t.below(5) {
                4 => {
                    let o = s.observer.clone()?;
                    ("remove_variable_observer(registered elsewhere)".into(), e(st.remove_variable_observer(&o, Some(other?))))
                }
                0 => ("remove_variable_observer(stranger, all)".into(), e(st.remove_variable_observer(&stranger, None))),
                1 => ("remove_variable_observer(stranger, v)".into(), e(st.remove_variable_observer(&stranger, Some(g?)))),
                2 => ("remove_variable_observer(stranger, undeclared)".into(), e(st.remove_variable_observer(&stranger, Some("no_such_var")))),
                _ => {
                    let o = s.observer.clone()?;
                    ("remove_variable_observer(registered, undeclared)".into(), e(st.remove_variable_observer(&o, Some("no_such_var"))))
                }
            }
        }
        17 => {
            let f = Rc::new(RefCell::new(Ext { log: s.log.clone(), safe: true, count: 1000 }));
            let n = s.bound.first()?;
            (format!("bind_external_function({n}) again"), e(st.bind_external_function(n, f, t.chance(1, 2))))
        }
        18 => ("unbind_external_function(unknown)".into(), e(st.unbind_external_function("no_such_fn"))),
        19 => {
            let b = bad_save(t, s);
            let r = e(s.story.load_state(&b));
            (format!("load_state({})", b.chars().take(60).collect::<String>()), r)
        }
        _ => return None,
    })
}

fn look(s: &mut Session, p: &Prg) -> (Obs, Option<serde_json::Value>) {
    (observe(&mut s.story, p), save_json(&s.story).ok())
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let p = match any_prg(
        t,
        |t| {
            let mut c = swarm(t, &[6, 12, 25]);
            if t.chance(1, 3) {
                with_random(&mut c);
            }
            if t.chance(1, 2) {
                c.externals = t.range(1, 3);
            }
            c
        },
        2,
    ) {
        Ok(p) => p,
        Err(_) => return Out::Skip("program refused by the compiler"),
    };
    ctx.detail = if p.generated { p.src.clone() } else { p.name.clone() };
    let rg = rig(t, &p, true);
    let (Ok(mut a), Ok(mut b)) = (Session::rigged(&p, 11, &rg), Session::rigged(&p, 11, &rg)) else {
        return Out::Skip("story does not load");
    };
    let mut log: Vec<String> = vec![format!("{rg:?}")];
    let w = Weights { save: 1, load: 1, reset: 1, ..HOST };
    let (mut calls, mut after) = (0u64, 0u64);
    for _ in 0..t.range(3, 24) {
        for _ in 0..if t.chance(1, 2) { t.range(1, 3) } else { 0 } {
            let before = look(&mut b, &p);
            let r = match guard(|| refused(t, &mut b, &p)) {
                Ok(r) => r,
                Err(e) => return fail(ctx, &log, "panic in a call that should be refused", &format!("{e:?}")),
            };
            let Some((what, r)) = r else { continue };
            let kind: String = what.split('(').next().unwrap().into();
            log.push(format!("  REFUSED? {what} -> {r:?}"));
            if r.is_ok() {
                return fail(ctx, &log, &format!("accepted: {kind}"), &format!("{what} is not refused"));
            }
            let x = look(&mut b, &p);
            if let Some((k, d)) = diff(&before.0, &x.0) {
                return fail(ctx, &log, &format!("changed by {kind}: {k}"), &format!("{what}: before | after: {d}"));
            }
            if let (Some(m), Some(n)) = (&before.1, &x.1)
                && let Some(d) = jdiff(m, n, "save")
            {
                return fail(ctx, &log, &format!("save changed by {kind}"), &format!("{what}: before | after: {d}"));
            }
            let ev = b.events();
            if !ev.is_empty() {
                return fail(ctx, &log, &format!("callbacks by {kind}"), &format!("{what} calls back: {ev:?}"));
            }
            ctx.label(&kind);
            calls += 1;
        }
        let Some(op) = next_op(t, &a, &p, &w) else { break };
        let ra = a.apply(&op);
        if a.out_of_fuel() {
            return Out::Skip("runs away");
        }
        let rb = b.apply(&op);
        log.push(format!("{op:?} -> {ra}"));
        if ra != rb {
            return fail(ctx, &log, "result", &format!("without refused calls {ra} | with them {rb}"));
        }
        let (ea, eb) = (settle(a.events()), settle(b.events()));
        if ea != eb {
            return fail(ctx, &log, "callbacks", &format!("without {ea:?} | with {eb:?}"));
        }
        let (oa, ob) = (look(&mut a, &p), look(&mut b, &p));
        if let Some((k, d)) = diff(&oa.0, &ob.0) {
            return fail(ctx, &log, &format!("later: {k}"), &d);
        }
        if let (Some(m), Some(n)) = (&oa.1, &ob.1)
            && let Some(d) = jdiff(m, n, "save")
        {
            return fail(ctx, &log, "later save", &d);
        }
        if calls > 0 {
            after += 1;
        }
    }
    ctx.label_n("refused calls", calls);
    ctx.detail += &format!("\n// {}", log.join("\n// "));
    Out::Pass { nontrivial: calls >= 3 && after >= 2, digest: hash_str(&(p.json + &log.join("\n"))) }
}
