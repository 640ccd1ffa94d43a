//! C10: flows over disjoint knots and variables do not influence one another.
use super::c02::fail;
use crate::drive;
use crate::ink::ast::{Block, Dest, In, Item, Prog, S, Tail, Target};
use crate::ink::genp::{self, Cfg, Role};
use crate::ink::print;
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::verif_hooks as vh;
use serde_json::Value as J;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C10",
    rule: "two or three generated programs over disjoint names joined into one story, one flow each; every flow's transcript recorded alone, then replayed under generated interleavings (all of them for two flows with up to four calls each) with no-op switches, saves, loads, slices and removals between the calls; non-trivial = two flows with at least three compared calls each and at least two switches between them",
    cases: |t| if t == Tier::Quick { 32_000 } else { 1_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

#[derive(Clone, Debug)]
struct Step {
    op: Op,
    result: String,
    after: Obs,
}

/// One flow's program part and its recorded transcript.
struct Part {
    view: Prg,
    main: String,
    name: String,
    before: Obs,
    steps: Vec<Step>,
    /// what the flow was switched to with, after the jump to its own knot
    flow_json: Option<J>,
}

fn cfg(t: &mut Tape, prefix: &str) -> Cfg {
    let mut c = swarm(t, &[6, 12, 20]);
    c.prefix = prefix.into();
    c.root_knot = true;
    c.turns = false;
    c.max_knots = t.range(0, 3);
    if t.chance(1, 3) {
        c.raw_in = &["~ra|rb|rc", "~once|rd"];
        c.raw_stmt = &["{shuffle once:\n- SH1\n- SH2\n- SH3\n}", "{stopping shuffle:\n- SH4\n- SH5\n}"];
    }
    c
}

/// what the host sees of this part while its flow is the current one
fn look(s: &mut Session, v: &Prg) -> Obs {
    observe(&mut s.story, v)
}

fn slice(s: &mut Session, t: &mut Tape) -> String {
    vh::set_fuel(Some(drive::FUEL));
    for _ in 0..400 {
        vh::set_slice_steps(Some(t.range(1, 12) as u64));
        let r = s.story.continue_async(1.0);
        vh::set_slice_steps(None);
        if let Err(e) = r {
            return format!("err {e}");
        }
        if let Ok(x) = s.story.get_current_text() {
            return res::<_, String>(Ok(x));
        }
        // switching in the middle is refused, and changes nothing
        if t.chance(1, 6) && s.story.switch_flow("other").is_ok() {
            return "switched in the middle of a line".into();
        }
    }
    res(s.story.cont())
}

fn record(t: &mut Tape, p: &Prg, v: &Prg, main: &str, name: &str, len: usize) -> Result<Part, Out> {
    let Ok(mut s) = Session::new(p, 5) else { return Err(Out::Skip("story does not load")) };
    let mut part = Part { view: v.clone(), main: main.into(), name: name.into(), before: look(&mut s, v), steps: vec![], flow_json: None };
    let w = Weights { switch: 0, remove: 0, save: 0, load: 0, reset: 0, eval: 1, jump: 1, set: 1, max: 2, ..PLAY };
    for i in 0..len {
        let op = if i == 0 {
            Op::Jump(main.into(), true)
        } else {
            match next_op(t, &s, v, &w) {
                Some(o) => o,
                None => break,
            }
        };
        let result = s.apply(&op);
        if s.out_of_fuel() {
            return Err(Out::Skip("runs away"));
        }
        if s.story.has_error() {
            break;
        }
        part.steps.push(Step { op, result, after: look(&mut s, v) });
        part.flow_json = save_json(&s.story).ok().map(|j| j["flows"]["DEFAULT_FLOW"].clone());
    }
    Ok(part)
}

struct World<'a> {
    p: &'a Prg,
    s: Session,
    at: Vec<usize>,
    gone: Vec<bool>,
    hist: Vec<String>,
    switches: usize,
    current: Option<usize>,
}

type Bad = (String, String);

impl World<'_> {
    fn expect(&mut self, parts: &[Part], i: usize, what: &str) -> Result<(), Bad> {
        let p = &parts[i];
        let want = if self.at[i] == 0 { &p.before } else { &p.steps[self.at[i] - 1].after };
        let got = look(&mut self.s, &p.view);
        match diff(want, &got) {
            Some((k, d)) => Err((format!("{what}: {k}"), format!("flow {} after {} calls, alone | here: {d}", p.name, self.at[i]))),
            None => Ok(()),
        }
    }
    fn go(&mut self, parts: &[Part], i: usize, t: &mut Tape) -> Result<(), Bad> {
        if self.current == Some(i) && !t.chance(1, 8) {
            return Ok(());
        }
        if self.current != Some(i) {
            self.switches += 1;
        }
        let n = parts[i].name.clone();
        if n == "DEFAULT_FLOW" && t.chance(1, 2) {
            self.s.apply(&Op::Default);
            self.hist.push("switch to the default flow".into());
        } else {
            let r = self.s.apply(&Op::Switch(n.clone()));
            self.hist.push(format!("switch to {n} -> {r}"));
            if r.starts_with("err") {
                return Err(("switch fails".into(), r));
            }
        }
        self.current = Some(i);
        self.expect(parts, i, "after the switch")
    }
    fn step(&mut self, parts: &[Part], i: usize, t: &mut Tape) -> Result<(), Bad> {
        self.go(parts, i, t)?;
        let st = &parts[i].steps[self.at[i]];
        let r = if matches!(st.op, Op::Cont) && t.chance(1, 5) { slice(&mut self.s, t) } else { self.s.apply(&st.op) };
        self.hist.push(format!("{}: {:?} -> {r}", parts[i].name, st.op));
        if r != st.result {
            return Err(("result".into(), format!("flow {}, {:?}: alone {} | here {r}", parts[i].name, st.op, st.result)));
        }
        self.at[i] += 1;
        self.expect(parts, i, "after the call")
    }
    fn save_load(&mut self, fresh: bool) -> Result<(), Bad> {
        let text = match self.s.story.save_state() {
            Ok(x) => x,
            Err(e) => return Err(("save fails".into(), e.to_string())),
        };
        if fresh {
            let mut n = Session::new(self.p, 5).map_err(|e| ("new story".to_string(), e))?;
            n.flow = self.s.flow.clone();
            self.s = n;
        }
        self.hist.push(format!("save and load{}", if fresh { " in a new story" } else { "" }));
        self.s.story.load_state(&text).map_err(|e| ("load fails".to_string(), e.to_string()))
    }
    /// every flow that is still there is as its last call left it
    fn all(&mut self, parts: &[Part], t: &mut Tape) -> Result<(), Bad> {
        let back = self.current;
        for i in 0..parts.len() {
            // a flow that was never switched to does not exist yet
            if !self.gone[i] && self.at[i] > 0 {
                self.go(parts, i, t)?;
            }
        }
        if let Some(i) = back
            && !self.gone[i]
        {
            self.go(parts, i, t)?;
        }
        Ok(())
    }
}

fn play(t: &mut Tape, p: &Prg, parts: &[Part], order: &[usize], noise: bool) -> Result<(usize, usize, Vec<usize>), (Bad, Vec<String>)> {
    let Ok(s) = Session::new(p, 5) else { return Ok((0, 0, vec![])) };
    let mut w = World { p, s, at: vec![0; parts.len()], gone: vec![false; parts.len()], hist: vec![], switches: 0, current: None };
    if parts[0].name == "DEFAULT_FLOW" {
        w.current = Some(0);
    }
    let mut steps = 0;
    let mut run = |w: &mut World, t: &mut Tape| -> Result<(), Bad> {
        for i in order {
            if noise {
                match t.weighted(&[12, 2, 1, 2, 1, 1]) {
                    1 => w.save_load(true)?,
                    2 => w.save_load(false)?,
                    3 => w.all(parts, t)?,
                    4 => {
                        // a flow of its own, opened and removed
                        let n = "passing";
                        let back = w.s.flow.clone();
                        w.s.apply(&Op::Switch(n.into()));
                        if t.chance(1, 2) {
                            w.s.apply(&Op::Cont);
                        }
                        if w.s.story.has_error() {
                            return Ok(());
                        }
                        w.hist.push("a passing flow".into());
                        // visits of the root belong to no part, those of a part do: only removed before it ran
                        let r = w.s.apply(&Op::Remove(n.into()));
                        if r.starts_with("err") {
                            return Err(("removing a flow".into(), r));
                        }
                        if w.s.flow != back {
                            w.s.apply(&if back == "DEFAULT_FLOW" { Op::Default } else { Op::Switch(back) });
                        }
                    }
                    5 => {
                        // one flow ends early
                        let c: Vec<usize> = (0..parts.len()).filter(|k| !w.gone[*k] && w.at[*k] > 0 && parts[*k].name != "DEFAULT_FLOW").collect();
                        if !c.is_empty() && t.chance(1, 2) {
                            let k = *t.pick(&c);
                            let r = w.s.apply(&Op::Remove(parts[k].name.clone()));
                            w.hist.push(format!("remove {} -> {r}", parts[k].name));
                            if r.starts_with("err") {
                                return Err(("removing a flow".into(), r));
                            }
                            w.gone[k] = true;
                            if w.current == Some(k) {
                                w.current = None;
                            }
                            if t.chance(1, 3) {
                                // a new flow of that name begins anew
                                w.s.apply(&Op::Switch(parts[k].name.clone()));
                                let head = |o: &Obs| o.iter().filter(|x| ["can_continue", "current text", "current tags", "current path", "choices"].contains(&x.0.as_str())).cloned().collect::<Obs>();
                                let got = look(&mut w.s, &parts[k].view);
                                if let Some((f, d)) = diff(&head(&parts[k].before), &head(&got)) {
                                    return Err((format!("a flow opened again: {f}"), format!("fresh | here: {d}")));
                                }
                                if t.chance(1, 2) {
                                    w.s.apply(&Op::Cont);
                                }
                                let r = w.s.apply(&Op::Remove(parts[k].name.clone()));
                                w.hist.push(format!("opened and removed again -> {r}"));
                                w.current = None;
                            }
                            w.all(parts, t)?;
                        }
                    }
                    _ => {}
                }
            }
            if w.gone[*i] || w.at[*i] >= parts[*i].steps.len() {
                continue;
            }
            w.step(parts, *i, t)?;
            if vh::fuel_exhausted() {
                return Ok(());
            }
            steps += 1;
        }
        w.all(parts, t)?;
        // the flows as saved
        let text = w.s.story.save_state().map_err(|e| ("save fails".to_string(), e.to_string()))?;
        let j: J = serde_json::from_str(&text).map_err(|e| ("save".to_string(), e.to_string()))?;
        for (k, part) in parts.iter().enumerate() {
            if w.gone[k] {
                if j["flows"].get(&part.name).is_some() {
                    return Err(("removed flow".into(), format!("{} is still saved", part.name)));
                }
            } else if w.at[k] == part.steps.len()
                && w.at[k] > 0
                && let Some(f) = &part.flow_json
            {
                let (f, g) = (strip(f), strip(&j["flows"][&part.name]));
                if let Some(d) = jdiff(&f, &g, "flow") {
                    return Err(("saved flow".into(), format!("{}: alone | here: {d}", part.name)));
                }
            }
        }
        Ok(())
    };
    match run(&mut w, t) {
        Ok(()) => Ok((steps, w.switches, w.at)),
        Err(b) => Err((b, w.hist)),
    }
}

/// thread numbers depend on how a flow was begun
fn strip(j: &J) -> J {
    let mut j = j.clone();
    fn walk(j: &mut J) {
        match j {
            J::Object(m) => {
                for k in ["threadCounter", "threadIndex", "originalThreadIndex"] {
                    m.remove(k);
                }
                if let Some(J::Object(x)) = m.get_mut("choiceThreads") {
                    let v: Vec<J> = x.values().cloned().collect();
                    m.insert("choiceThreads".into(), J::Array(v));
                }
                m.values_mut().for_each(walk);
            }
            J::Array(a) => a.iter_mut().for_each(walk),
            _ => {}
        }
    }
    walk(&mut j);
    j
}

fn orders(a: usize, b: usize) -> Vec<Vec<usize>> {
    if a == 0 {
        return vec![vec![1; b]];
    }
    if b == 0 {
        return vec![vec![0; a]];
    }
    let mut v = vec![];
    for (f, rest) in [(0, orders(a - 1, b)), (1, orders(a, b - 1))] {
        for mut r in rest {
            r.insert(0, f);
            v.push(r);
        }
    }
    v
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let all = t.chance(1, 8);
    let n = if all || t.chance(2, 3) { 2 } else { 3 };
    let mut prog = Prog::default();
    let mut views = vec![];
    for prefix in ["aa", "bb", "cc"].iter().take(n) {
        let c = cfg(t, prefix);
        let (q, units, globals) = genp::program(t, c);
        let mut v = Prg { name: prefix.to_string(), generated: true, ..Default::default() };
        v.globals = globals.iter().map(|g| g.0.clone()).collect();
        v.types = globals.iter().map(|g| Some(g.1)).collect();
        v.paths = units.iter().filter(|u| u.role != Role::Fn).map(|u| u.path.clone()).collect();
        v.paths.push(format!("{prefix}main"));
        v.jumps = units.iter().filter(|u| u.role == Role::Main && u.params.is_empty()).map(|u| u.path.clone()).collect();
        v.units = units;
        views.push(v);
        prog.lists.extend(q.lists);
        prog.consts.extend(q.consts);
        prog.vars.extend(q.vars);
        prog.knots.extend(q.knots);
    }
    let line = S::Line { body: vec![In::T("root".into())], tags: vec![], tail: Tail::Divert(Dest { to: Target::Done, args: vec![] }) };
    prog.root = Rc::new(Block { items: vec![Item::S(line)] });
    let src = print::program(&prog);
    ctx.detail = src.clone();
    let json = match drive::compile(&src) {
        Ok(j) => j,
        Err(_) => return Out::Skip("program refused by the compiler"),
    };
    let mut p = Prg { name: "flows".into(), src, json, generated: true, prog: Some(Rc::new(prog)), ..Default::default() };
    for v in &views {
        p.globals.extend(v.globals.iter().cloned());
        p.types.extend(v.types.iter().cloned());
        p.paths.extend(v.paths.iter().cloned());
    }
    // names that are awkward, too
    let default = t.chance(1, 2);
    let mut parts = vec![];
    for (i, v) in views.iter().enumerate() {
        let name = if i == 0 && default { "DEFAULT_FLOW" } else { ["alpha", "β \"quoted\"", "gamma.delta"][i] };
        let len = if all { t.range(1, 4) } else { t.range(2, 12) };
        match record(t, &p, v, &format!("{}main", v.name), name, len) {
            Ok(x) => parts.push(x),
            Err(o) => return o,
        }
    }
    let show = |parts: &[Part]| -> Vec<String> {
        parts.iter().map(|q| format!("flow {} ({}): {}", q.name, q.main, q.steps.iter().map(|s| format!("{:?} -> {}", s.op, s.result)).collect::<Vec<_>>().join("; "))).collect()
    };
    let (mut steps, mut switches) = (0, 0);
    let mut digest = String::new();
    let list: Vec<(Vec<usize>, bool)> = if all {
        ctx.label("cases with all interleavings");
        orders(parts[0].steps.len(), parts[1].steps.len()).into_iter().map(|o| (o, false)).collect()
    } else {
        let mut o: Vec<usize> = parts.iter().enumerate().flat_map(|(i, q)| vec![i; q.steps.len()]).collect();
        t.shuffle(&mut o);
        vec![(o, t.chance(4, 5))]
    };
    let m = list.len() as u64;
    let mut ok = false;
    for (o, noise) in list {
        digest += &format!("{o:?}{noise}");
        match play(t, &p, &parts, &o, noise) {
            Ok((a, b, at)) => {
                steps += a;
                switches += b;
                ok |= at.iter().filter(|x| **x >= 3).count() >= 2 && b >= 2;
            }
            Err(((k, d), hist)) => {
                let mut h = show(&parts);
                h.push(format!("order {o:?}"));
                h.extend(hist);
                return fail(ctx, &h, &k, &d);
            }
        }
    }
    ctx.label_n("interleavings", m);
    ctx.label_n("compared calls", steps as u64);
    ctx.label_n("switches", switches as u64);
    ctx.detail += &format!("\n// {}", show(&parts).join("\n// "));
    Out::Pass { nontrivial: ok, digest: hash_str(&(p.json + &digest + &show(&parts).join("\n"))) }
}
