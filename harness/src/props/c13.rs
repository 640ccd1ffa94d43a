//! C13: every error and warning is delivered once.
use super::c02::fail;
use crate::ink::interp::*;
use crate::ink::value::{Fault, V};
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::story::Story;
use bladeink::verif_hooks as vh;
use std::cell::RefCell;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C13",
    rule: "two kinds of cases: (a) a generated program with reads of missing variables, lookups of missing targets and faulty expressions at generated places, where the reference interpreter knows which message is raised how often in which turn; (b) any program (untyped, corpus, generated) on twin stories with and without a handler; non-trivial = at least two messages (a) or at least one message and three compared continues (b)",
    cases: |t| if t == Tier::Quick { 120_000 } else { 4_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

/// The messages one call left behind: errors, warnings.
type Left = (Vec<String>, Vec<String>);

fn take(s: &Story, handler: bool, log: &Log) -> Left {
    if handler {
        let l: Vec<String> = log.borrow_mut().drain(..).collect();
        let of = |k: &str| l.iter().filter_map(|m| m.strip_prefix(k)).map(|m| m.trim().to_string()).collect();
        (of("error "), of("warning "))
    } else {
        let of = |l: &[String]| l.iter().map(|m| m.trim().to_string()).collect();
        (of(s.get_current_errors()), of(s.get_current_warnings()))
    }
}

fn subject(m: &str) -> String {
    if let Some(i) = m.find("'zz") {
        return m[i + 1..].split('\'').next().unwrap().to_string();
    }
    if m.contains("Failed to find container") {
        return "zzgone".into();
    }
    if m.contains("Version of ink") {
        return "version".into();
    }
    m.to_string()
}

/// one line, possibly in slices
fn line(s: &mut Story, t: &mut Tape, sliced: bool) -> Result<String, String> {
    if !(sliced && t.chance(2, 3)) {
        return s.cont().map_err(|e| e.to_string());
    }
    loop {
        vh::set_slice_steps(Some(t.range(1, 9) as u64));
        let r = s.continue_async(1.0);
        vh::set_slice_steps(None);
        if let Err(e) = r {
            return Err(e.to_string());
        }
        match s.get_current_text() {
            Ok(x) => return Ok(x),
            Err(_) if t.chance(1, 6) => return s.cont().map_err(|e| e.to_string()),
            Err(_) => {}
        }
    }
}

fn run(idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    if idx % 3 == 0 { twins(t, ctx) } else { modelled(t, ctx) }
}

fn modelled(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let c = {
        let mut c = swarm(t, &[6, 12, 25]);
        c.functions = c.functions || t.chance(1, 2);
        c.missing = *t.pick(&[4, 8, 16]);
        c.faults = if t.chance(1, 2) { *t.pick(&[15, 40]) } else { 0 };
        c
    };
    let mut p = match gen_prg(t, c) {
        Ok(p) => p,
        Err((src, e)) => {
            ctx.detail = src;
            return Out::Fail("compile error".into(), e);
        }
    };
    ctx.detail = p.src.clone();
    let prog = p.prog.clone().unwrap();
    if !p.json.contains("\"^->\":\"zzgone\"") {
        return Out::Skip("no variable with a dangling target");
    }
    p.json = p.json.replace("\"^->\":\"zzgone\"", "\"^->\":\"no.where\"");
    let version = t.chance(1, 6) && p.json.contains("\"inkVersion\":21");
    if version {
        p.json = p.json.replacen("\"inkVersion\":21", "\"inkVersion\":20", 1);
        ctx.label("version mismatch");
    }
    let Ok(mut s) = new_story(&p, 7) else { return Out::Skip("story does not load") };
    let log: Log = Default::default();
    let mut handler = t.chance(1, 2);
    let late = if !handler && t.chance(1, 3) { Some(t.range(1, 3)) } else { None };
    let set = |s: &mut Story| s.set_error_handler(Rc::new(RefCell::new(Handler { log: log.clone() })));
    if handler {
        set(&mut s);
    }
    let sliced = t.chance(1, 3);
    let whole = handler && t.chance(1, 5);
    let mut it = match Interp::new(prog.clone()) {
        Ok(i) => i,
        Err(_) => return Out::Skip("global declaration faults"),
    };
    let mut hist: Vec<String> = vec![format!("handler {handler}, slices {sliced}, version warning {version}")];
    let mut total = 0usize;
    let (mut from, mut doomed) = (0usize, false);
    let mut extra: Vec<String> = if version { vec!["version".into()] } else { vec![] };
    let mut resets = 0;
    for turn in 0..9 {
        if late == Some(turn) && !s.has_error() {
            set(&mut s);
            handler = true;
            hist.push("handler set".into());
        }
        // a function called by the host
        if t.chance(1, 5) && turn > 0 && !doomed {
            let fns = p.funcs();
            if !fns.is_empty() {
                let f = *t.pick(&fns);
                if f.params.iter().all(|x| x.1 == crate::ink::ast::PKind::Val) {
                    let args: Option<Vec<(bladeink::value_type::ValueType, V)>> = f
                        .params
                        .iter()
                        .map(|x| {
                            let v = value_for(t, Some(x.2), None)?;
                            to_v(&v).map(|m| (v, m))
                        })
                        .collect();
                    if let Some(args) = args {
                        let n = it.warn_log.len();
                        let r = it.host_call(&f.path, args.iter().map(|a| a.1.clone()).collect());
                        let bad = match r {
                            Ok(_) => false,
                            Err(Fault::Error(_)) => true,
                            Err(_) => break,
                        };
                        let want: Vec<String> = it.warn_log.drain(n..).map(|w| w.0).collect();
                        log.borrow_mut().clear();
                        vh::set_fuel(Some(crate::drive::FUEL));
                        let vals: Vec<_> = args.into_iter().map(|a| a.0).collect();
                        let mut text = String::new();
                        let r = s.evaluate_function(&f.path, Some(&vals), &mut text);
                        hist.push(format!("evaluate {} -> {}", f.path, if r.is_ok() { "ok" } else { "err" }));
                        let (e, w) = take(&s, handler, &log);
                        hist.push(format!("  errors {e:?} warnings {w:?}"));
                        let w: Vec<String> = w.iter().map(|m| subject(m)).collect();
                        if e.len() != bad as usize {
                            return fail(ctx, &hist, "errors of an evaluation", &format!("{} expected, {e:?}", bad as usize));
                        }
                        if handler && w != want || !handler && !w.iter().all(|x| want.contains(x)) {
                            return fail(ctx, &hist, "warnings of an evaluation", &format!("expected {want:?}, got {w:?}"));
                        }
                        if !handler && bad == r.is_ok() {
                            return fail(ctx, &hist, "result of an evaluation", &format!("{} errors and {:?}", e.len(), r.is_ok()));
                        }
                        total += e.len() + w.len();
                        ctx.label("evaluations");
                        if bad {
                            break;
                        }
                    }
                }
            }
        }
        let m = if doomed { Err(Fault::Error("in the text of the choice".into())) } else { it.run_turn() };
        doomed = false;
        let (fault, m) = match m {
            Ok(m) => (false, m),
            Err(Fault::Error(e)) => {
                hist.push(format!("// the turn fails: {e}"));
                (true, Turn { lines: vec![], status: Status::Fell, either: false })
            }
            Err(_) => {
                ctx.label("turn left open");
                break;
            }
        };
        let want: Vec<(String, usize)> = it.warn_log[from..].to_vec();
        let extras = std::mem::take(&mut extra);
        let mut got: Vec<String> = vec![];
        let mut errors: Vec<String> = vec![];
        let mut delivered = 0usize;
        vh::set_fuel(Some(crate::drive::FUEL));
        let mut first = true;
        while s.can_continue() {
            if !log.borrow().is_empty() {
                return fail(ctx, &hist, "message outside a continue", &format!("{:?}", log.borrow()));
            }
            let r = if whole { s.continue_maximally().map_err(|e| e.to_string()) } else { line(&mut s, t, sliced) };
            if vh::fuel_exhausted() {
                return Out::Fail("engine runs away".into(), format!("{hist:?}"));
            }
            let (e, mut w) = take(&s, handler, &log);
            hist.push(format!("continue -> {r:?}, errors {e:?}, warnings {w:?}"));
            if first && !extras.is_empty() {
                first = false;
                match w.iter().position(|m| subject(m) == "version") {
                    Some(i) => {
                        w.remove(i);
                    }
                    None => return fail(ctx, &hist, "version warning lost", ""),
                }
            }
            if handler != r.is_ok() && !e.is_empty() {
                return fail(ctx, &hist, "result with an error", &format!("handler {handler}, {r:?}"));
            }
            if let Err(x) = &r
                && (e.is_empty() || !x.contains(&e[0]))
            {
                return fail(ctx, &hist, "Err without an error", x);
            }
            // (which of two warnings of one continue comes first is not this property's business)
            if !whole && let Some(window) = want.get(got.len()..got.len() + w.len()) {
                let mut rest = std::mem::take(&mut w);
                for (n, _) in window {
                    if let Some(i) = rest.iter().position(|m| subject(m) == *n) {
                        w.push(rest.remove(i));
                    }
                }
                w.append(&mut rest);
            }
            for m in &w {
                let n = subject(m);
                let k = got.len();
                match want.get(k) {
                    None => return fail(ctx, &hist, "warning too often", &format!("{m}; raised in this turn: {want:?}")),
                    Some(x) if x.0 != n => return fail(ctx, &hist, "another warning", &format!("{m}; expected {:?}", x.0)),
                    Some(x) if !whole && x.1 < delivered => {
                        return fail(ctx, &hist, "warning late", &format!("{m} was raised after {} finished lines, {delivered} were delivered before this continue", x.1));
                    }
                    _ => {}
                }
                got.push(n);
            }
            errors.extend(e);
            if let Ok(x) = &r
                && (!clean(x.trim_end_matches('\n')).is_empty() || s.get_current_tags().is_ok_and(|x| !x.is_empty()))
            {
                delivered += 1;
            }
            if errors.len() > 0 {
                break;
            }
        }
        if got.len() < want.len() {
            return fail(ctx, &hist, "warning lost", &format!("{:?} was not delivered", want[got.len()]));
        }
        total += got.len() + errors.len();
        ctx.label_n("warnings", got.len() as u64);
        ctx.label_n("errors", errors.len() as u64);
        let wanted = match (fault, &m.status) {
            (true, _) => errors.len() == 1,
            (_, Status::Fell) if !m.either => errors.len() == 1,
            (_, Status::Choices) => errors.is_empty(),
            (_, Status::Done) if !m.either => errors.is_empty(),
            _ => errors.len() <= 1,
        };
        if !wanted {
            return fail(ctx, &hist, "number of errors", &format!("{errors:?}; the turn fails {fault}, ends {:?}", m.status));
        }
        from = it.warn_log.len();
        if !errors.is_empty() {
            // stopped for good
            if s.can_continue() || !s.get_current_choices().is_empty() {
                return fail(ctx, &hist, "the story goes on after an error", "");
            }
            if s.cont().is_ok() || s.can_continue() {
                return fail(ctx, &hist, "continuing after an error", "");
            }
            if !log.borrow().is_empty() {
                return fail(ctx, &hist, "message delivered again", &format!("{:?}", log.borrow()));
            }
            if !handler && (!s.has_error() || s.get_current_errors().len() != errors.len()) {
                return fail(ctx, &hist, "the error is not readable", &format!("{:?}, has_error {}", s.get_current_errors(), s.has_error()));
            }
            if resets == 2 {
                break;
            }
            resets += 1;
            if handler && !p.jumps.is_empty() && !whole && t.chance(1, 2) {
                let j = t.pick(&p.jumps).clone();
                if it.jump(&j).is_err() {
                    break;
                }
                hist.push(format!("jump {j}"));
                from = it.warn_log.len();
                if let Err(e) = s.choose_path_string(&j, true, None) {
                    return fail(ctx, &hist, "redirecting after an error", &e.to_string());
                }
            } else {
                if !handler && !p.jumps.is_empty() && t.chance(1, 3) {
                    // without a handler the error stays until the reset
                    let j = t.pick(&p.jumps).clone();
                    let r = s.choose_path_string(&j, true, None);
                    hist.push(format!("jump {j} -> {r:?}"));
                    if !s.has_error() || s.get_current_errors().len() != errors.len() {
                        return fail(ctx, &hist, "the error is not readable any more", &format!("{:?}", s.get_current_errors()));
                    }
                }
                if let Err(e) = s.reset_state() {
                    return fail(ctx, &hist, "reset fails", &e.to_string());
                }
                hist.push("reset".into());
                it = Interp::new(prog.clone()).unwrap();
                from = 0;
            }
            if s.has_error() || !s.get_current_errors().is_empty() || !s.get_current_warnings().is_empty() || !log.borrow().is_empty() {
                return fail(ctx, &hist, "messages outlive the reset", &format!("{:?} {:?} {:?}", s.get_current_errors(), s.get_current_warnings(), log.borrow()));
            }
            continue;
        }
        if it.choices.len() != s.get_current_choices().len() {
            return fail(ctx, &hist, "choices", &format!("{} expected, {}", it.choices.len(), s.get_current_choices().len()));
        }
        if m.status != Status::Choices || it.choices.is_empty() {
            if resets == 2 {
                break;
            }
            resets += 1;
            if s.reset_state().is_err() {
                break;
            }
            hist.push("reset".into());
            it = Interp::new(prog.clone()).unwrap();
            from = 0;
            if !s.get_current_warnings().is_empty() || !log.borrow().is_empty() {
                return fail(ctx, &hist, "messages outlive the reset", &format!("{:?} {:?}", s.get_current_warnings(), log.borrow()));
            }
            continue;
        }
        let k = t.below(it.choices.len());
        hist.push(format!("choose {k}"));
        match it.choose(k) {
            Ok(()) => {}
            Err(Fault::Error(_)) => doomed = true,
            Err(_) => break,
        }
        if let Err(e) = s.choose_choice_index(k) {
            return fail(ctx, &hist, "choose", &e.to_string());
        }
    }
    ctx.detail += &format!("\n// {}", hist.join("\n// "));
    Out::Pass { nontrivial: total >= 2, digest: hash_str(&(p.json + &hist.join("\n"))) }
}

/// The same history with and without a handler, and with or without slices.
fn twins(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let p = if t.chance(1, 2) {
        wild_prg(t).ok()
    } else {
        any_prg(
            t,
            |t| {
                let mut c = swarm(t, &[8, 16, 30]);
                with_random(&mut c);
                c.missing = *t.pick(&[0, 8]);
                c.faults = *t.pick(&[0, 30]);
                c
            },
            3,
        )
        .ok()
    };
    let Some(p) = p else { return Out::Skip("program refused by the compiler") };
    ctx.detail = p.src.clone();
    let (Ok(mut a), Ok(mut b)) = (new_story(&p, 5), new_story(&p, 5)) else { return Out::Skip("story does not load") };
    for s in [&mut a, &mut b] {
        s.set_allow_external_function_fallbacks(true);
        let log: Log = Default::default();
        for (n, _) in &p.exts {
            let e = Ext { log: log.clone(), safe: true, count: 0 };
            let _ = s.bind_external_function(n, Rc::new(RefCell::new(e)), true);
        }
    }
    let log: Log = Default::default();
    // warnings of the construction
    let fresh = b.get_current_warnings().to_vec();
    if a.get_current_warnings() != fresh {
        return Out::Fail("construction".into(), "two new stories have different warnings".into());
    }
    a.set_error_handler(Rc::new(RefCell::new(Handler { log: log.clone() })));
    let mut hist: Vec<String> = vec![];
    let (mut n, mut total) = (0, 0);
    'turns: for _ in 0..8 {
        let mut lines = 0;
        while a.can_continue() {
            lines += 1;
            if lines > 60 {
                break 'turns;
            }
            vh::set_fuel(Some(crate::drive::FUEL));
            log.borrow_mut().clear();
            let ra = line(&mut a, t, true);
            if vh::fuel_exhausted() {
                return Out::Skip("runs away");
            }
            let (ea, wa) = take(&a, true, &log);
            vh::set_fuel(Some(crate::drive::FUEL));
            let rb = b.cont().map_err(|e| e.to_string());
            if vh::fuel_exhausted() {
                return Out::Skip("runs away");
            }
            let (eb, wb) = take(&b, false, &log);
            hist.push(format!("continue -> {ra:?} errors {ea:?} warnings {wa:?}"));
            n += 1;
            if ra.as_ref().is_err_and(|e| e.contains("Missing function binding")) {
                return Out::Skip("missing binding");
            }
            if ra.is_err() {
                return fail(ctx, &hist, "Err although there is a handler", &format!("{ra:?}"));
            }
            if ea != eb {
                return fail(ctx, &hist, "errors differ", &format!("with a handler {ea:?} | without {eb:?}"));
            }
            if wa != wb {
                return fail(ctx, &hist, "warnings differ", &format!("with a handler {wa:?} | without {wb:?}"));
            }
            if rb.is_err() == eb.is_empty() {
                return fail(ctx, &hist, "result without a handler", &format!("{rb:?}, errors {eb:?}"));
            }
            if rb.is_ok() && ra != rb {
                return fail(ctx, &hist, "text differs", &format!("with a handler {ra:?} | without {rb:?}"));
            }
            total += ea.len() + wa.len();
            if ea.len() > 1 {
                return fail(ctx, &hist, "more than one error", &format!("{ea:?}"));
            }
            if !ea.is_empty() {
                ctx.label("errors");
                for (s, h) in [(&mut a, true), (&mut b, false)] {
                    if s.can_continue() || !s.get_current_choices().is_empty() || s.cont().is_ok() {
                        return fail(ctx, &hist, "the story goes on after an error", &format!("handler {h}"));
                    }
                    if !h && s.get_current_errors().len() != eb.len() {
                        return fail(ctx, &hist, "the error is not readable", &format!("{:?}", s.get_current_errors()));
                    }
                }
                if !log.borrow().is_empty() {
                    return fail(ctx, &hist, "message delivered again", &format!("{:?}", log.borrow()));
                }
                let (ra, rb) = (a.reset_state(), b.reset_state());
                hist.push("reset".into());
                if ra.is_err() != rb.is_err() {
                    return fail(ctx, &hist, "reset", &format!("{ra:?} {rb:?}"));
                }
                if ra.is_err() {
                    break 'turns;
                }
                if b.has_error() || !b.get_current_errors().is_empty() {
                    return fail(ctx, &hist, "errors outlive the reset", &format!("{:?}", b.get_current_errors()));
                }
                // declarations may warn again
                log.borrow_mut().clear();
                continue 'turns;
            }
        }
        let (ca, cb) = (a.get_current_choices(), b.get_current_choices());
        if ca.len() != cb.len() {
            return fail(ctx, &hist, "choices differ", &format!("{} {}", ca.len(), cb.len()));
        }
        if !log.borrow().is_empty() {
            return fail(ctx, &hist, "message outside a continue", &format!("{:?}", log.borrow()));
        }
        if ca.is_empty() {
            if p.jumps.is_empty() {
                break;
            }
            let j = t.pick(&p.jumps).clone();
            let (ra, rb) = (a.choose_path_string(&j, true, None), b.choose_path_string(&j, true, None));
            hist.push(format!("jump {j}"));
            if ra.is_err() || rb.is_err() {
                break;
            }
            continue;
        }
        let k = t.below(ca.len());
        hist.push(format!("choose {k}"));
        if a.choose_choice_index(k).is_err() || b.choose_choice_index(k).is_err() {
            return fail(ctx, &hist, "choose", "");
        }
    }
    ctx.detail += &format!("\n// {}", hist.join("\n// "));
    Out::Pass { nontrivial: total >= 1 && n >= 3, digest: hash_str(&(p.json + &hist.join("\n"))) }
}
