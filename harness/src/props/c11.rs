//! C11: what variable observers receive, and when.
use super::c02::fail;
use crate::drive::vt;
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::verif_hooks as vh;
use std::collections::{BTreeMap, BTreeSet};

pub const PROP: Prop = Prop {
    id: "C11",
    rule: "one program and host history with several observers that come and go; every notification is checked against the variable values before and after each continue (blocking or sliced) and host assignment; in half of the programs every assignment changes the value, so that a notification is required exactly when the value differs; non-trivial = at least two notifications and two continues checked",
    cases: |t| if t == Tier::Quick { 130_000 } else { 3_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

type Vals = BTreeMap<String, String>;

fn values(s: &Session, p: &Prg) -> Vals {
    p.globals.iter().map(|g| (g.clone(), s.story.get_variable(g).map(|v| flat(vt(&v))).unwrap_or_default())).collect()
}

fn flat(v: String) -> String {
    if v.starts_with("l:()") { "l:()".into() } else { v }
}

#[derive(PartialEq, Clone, Copy)]
enum Kind {
    /// notified if and only if the value differs
    Exact,
    /// notified if the value differs, never twice
    Usual,
    /// several continues: the last notification counts
    Several,
    /// at most one notification, with the current value
    AtMost,
}

struct Judge<'a> {
    watched: &'a BTreeSet<(usize, String)>,
    before: &'a Vals,
    after: &'a Vals,
}

impl Judge<'_> {
    fn check(&self, events: &[String], kind: Kind) -> Result<u64, (String, String)> {
        let mut n = 0;
        let mut seen: BTreeMap<(usize, String), Vec<String>> = BTreeMap::new();
        let mut notified = false;
        for e in events {
            let Some(r) = e.strip_prefix("notify") else {
                if notified && kind != Kind::Several {
                    return Err(("too early".into(), format!("a notification comes before the continue's work is done: {events:?}")));
                }
                continue;
            };
            notified = true;
            let (k, r) = r.split_once(' ').unwrap();
            let (var, val) = r.split_once(" = ").unwrap();
            let k: usize = k.parse().unwrap();
            if !self.watched.contains(&(k, var.to_string())) {
                return Err(("not registered".into(), format!("observer {k} does not observe {var}, yet it is told: {e}")));
            }
            seen.entry((k, var.into())).or_default().push(flat(val.to_string()));
            n += 1;
        }
        for w in self.watched {
            let none = vec![];
            let got = seen.get(w).unwrap_or(&none);
            let (b, a) = (&self.before[&w.1], &self.after[&w.1]);
            let who = format!("observer {} of {} ({b} before, {a} after): {got:?}", w.0, w.1);
            if kind != Kind::AtMost && b != a && got.is_empty() {
                return Err(("missing notification".into(), format!("no notification of a changed variable: {who}")));
            }
            if kind != Kind::Several && got.len() > 1 {
                return Err(("notified twice".into(), format!("more than one notification: {who}")));
            }
            if let Some(l) = got.last()
                && l != a
            {
                return Err(("wrong value".into(), format!("the notified value is not the final one: {who}")));
            }
            if kind == Kind::Exact && b == a && !got.is_empty() {
                return Err(("nothing changed".into(), format!("a variable that was not changed is reported: {who}")));
            }
        }
        Ok(n)
    }
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let mono = t.chance(1, 2);
    let p = match any_prg(
        t,
        |t| {
            let mut c = swarm(t, &[6, 12, 25]);
            c.mono = mono;
            if t.chance(1, 4) && !mono {
                with_random(&mut c);
            }
            if t.chance(1, 2) {
                c.externals = t.range(1, 3);
            }
            c
        },
        if mono { 0 } else { 2 },
    ) {
        Ok(p) => p,
        Err(_) => return Out::Skip("program refused by the compiler"),
    };
    ctx.detail = if p.generated { p.src.clone() } else { p.name.clone() };
    if p.globals.is_empty() {
        return Out::Skip("no variables");
    }
    let mut rg = rig(t, &p, true);
    rg.observe = false;
    let Ok(mut s) = Session::rigged(&p, 11, &rg) else {
        return Out::Skip("story does not load");
    };
    let obs: Vec<Observer> = (0..3).map(|k| watch(&k.to_string(), &s.log)).collect();
    let mut watched: BTreeSet<(usize, String)> = BTreeSet::new();
    let mut log: Vec<String> = vec![format!("{rg:?}")];
    for g in &p.globals {
        if t.chance(3, 4) {
            s.story.observe_variable(g, obs[0].clone()).unwrap();
            watched.insert((0, g.clone()));
        }
    }
    let w = Weights { max: 0, set: 4, save: 1, load: 1, reset: 1, ..HOST };
    let sliced = t.chance(1, 2);
    let (mut notes, mut conts) = (0, 0);
    for _ in 0..t.range(4, 30) {
        // observers come and go
        if t.chance(1, 6) {
            let k = t.below(obs.len());
            let g = t.pick(&p.globals).clone();
            let had = watched.contains(&(k, g.clone()));
            if !had {
                log.push(format!("observer {k} observes {g}"));
                if let Err(e) = s.story.observe_variable(&g, obs[k].clone()) {
                    return fail(ctx, &log, "observe_variable fails", &e.to_string());
                }
                watched.insert((k, g));
            } else if t.chance(2, 3) {
                log.push(format!("observer {k} leaves {g}"));
                if let Err(e) = s.story.remove_variable_observer(&obs[k], Some(&g)) {
                    return fail(ctx, &log, "remove_variable_observer fails", &e.to_string());
                }
                watched.remove(&(k, g));
            } else {
                log.push(format!("observer {k} leaves"));
                if let Err(e) = s.story.remove_variable_observer(&obs[k], None) {
                    return fail(ctx, &log, "remove_variable_observer fails", &e.to_string());
                }
                watched.retain(|x| x.0 != k);
            }
            ctx.label("observers added or removed");
        }
        let Some(op) = next_op(t, &s, &p, &w) else { break };
        let before = values(&s, &p);
        let mut events = vec![];
        let r = if matches!(op, Op::Cont) && sliced && t.chance(1, 2) {
            vh::set_fuel(Some(crate::drive::FUEL));
            loop {
                vh::set_slice_steps(Some(t.range(1, 9) as u64));
                let r = s.story.continue_async(1.0);
                vh::set_slice_steps(None);
                match r {
                    Err(e) => break format!("err {e}"),
                    Ok(()) => match s.story.get_current_text() {
                        Ok(x) => break format!("ok {x:?}"),
                        Err(_) => {
                            let e = s.events();
                            if let Some(n) = e.iter().find(|x| x.starts_with("notify")) {
                                return fail(ctx, &log, "notified inside a line", &format!("during an unfinished continue: {n}"));
                            }
                            events.extend(e);
                        }
                    },
                }
            }
        } else {
            s.apply(&op)
        };
        if s.out_of_fuel() {
            return Out::Skip("runs away");
        }
        log.push(format!("{op:?} -> {r}"));
        events.extend(s.events());
        // messages go to the handler after the line, notifications after those
        let after = values(&s, &p);
        let j = Judge { watched: &watched, before: &before, after: &after };
        let kind = match &op {
            Op::Cont => {
                conts += 1;
                if mono { Kind::Exact } else { Kind::Usual }
            }
            Op::Eval(..) | Op::Max => Kind::Several,
            Op::Set(..) => Kind::Usual,
            Op::Reset | Op::Load => Kind::AtMost,
            _ => Kind::Exact,
        };
        if r.starts_with("err") && matches!(op, Op::Cont | Op::Eval(..)) {
            // not a completed continue
            if !rg.handler {
                break;
            }
            continue;
        }
        match j.check(&events, kind) {
            Ok(n) => notes += n,
            Err((k, m)) => return fail(ctx, &log, &k, &m),
        }
        if let Op::Set(n, _) = &op {
            for wd in watched.iter().filter(|x| x.1 == *n) {
                if !events.iter().any(|e| e.starts_with(&format!("notify{} {n} = ", wd.0))) {
                    return fail(ctx, &log, "assignment not notified", &format!("observer {} of {n} is not told of a host assignment", wd.0));
                }
            }
            if let Some(e) = events.iter().find(|e| !e.contains(&format!(" {n} = "))) {
                return fail(ctx, &log, "assignment of another variable", &format!("setting {n} calls back: {e}"));
            }
        }
    }
    ctx.label_n("notifications checked", notes);
    ctx.label_n("continues checked", conts);
    if mono {
        ctx.label("programs whose assignments all change the value");
    }
    ctx.detail += &format!("\n// {}", log.join("\n// "));
    Out::Pass { nontrivial: notes >= 2 && conts >= 2, digest: hash_str(&(p.json + &log.join("\n"))) }
}
