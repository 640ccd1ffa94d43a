//! C12: when, how often and with what external functions are called.
use super::c01::{eval_of, mval, strip};
use super::c02::fail;
use crate::drive::vt;
use crate::ink::interp::*;
use crate::ink::value::{Fault, V};
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::story::Story;
use bladeink::story::external_functions::ExternalFunction;
use bladeink::value_type::ValueType;
use bladeink::verif_hooks as vh;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C12",
    rule: "one generated program with external calls in every position, played along generated choices with generated bindings next to the reference interpreter, which knows the arguments, the order and the finished lines before every call; non-trivial = at least two bound or fallback calls executed and two lines delivered",
    cases: |t| if t == Tier::Quick { 200_000 } else { 6_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ret {
    Int,
    Float,
    Str,
    Nothing,
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Bind {
    safe: bool,
    ret: Ret,
}

/// The value depends on the arguments, and for unsafe functions on the number of earlier calls.
fn value(name: &str, args: &[String], count: i32, b: &Bind) -> V {
    let h = (hash_str(&format!("{name}({})", args.join(","))) % 17) as i32 + if b.safe { 0 } else { 20 * count };
    match b.ret {
        Ret::Int => V::Int(h),
        Ret::Float => V::Float(h as f32 * 0.5),
        Ret::Str => V::Str(format!("r{h}")),
        Ret::Nothing => V::Void,
    }
}

/// what happened on the host's side, in order
#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Call(String, Vec<String>),
    Line,
}

type Log2 = Rc<RefCell<Vec<Seen>>>;

struct Host {
    log: Log2,
    bind: Bind,
    count: i32,
}

impl ExternalFunction for Host {
    fn call(&mut self, name: &str, args: Vec<ValueType>) -> Option<ValueType> {
        let a: Vec<String> = args.iter().map(|v| eval_of(&vt(v))).collect();
        self.log.borrow_mut().push(Seen::Call(name.into(), a.clone()));
        let v = value(name, &a, self.count, &self.bind);
        self.count += 1;
        match v {
            V::Int(i) => Some(ValueType::Int(i)),
            V::Float(f) => Some(ValueType::Float(f)),
            V::Str(s) => Some(ValueType::new::<&str>(&s)),
            _ => None,
        }
    }
}

fn key(text: &str, tags: &[String]) -> Option<(String, Vec<String>)> {
    let t = clean(text.trim_end_matches('\n'));
    if t.is_empty() && tags.is_empty() { None } else { Some((t, tags.to_vec())) }
}

fn fell(e: &str) -> bool {
    e.contains("ran out of content") || e.contains("unexpectedly reached end of content")
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let unsafe_too = t.chance(2, 3);
    let quiet = t.chance(4, 5);
    let c = {
        let mut c = swarm(t, &[6, 12, 25]);
        c.functions = true;
        c.externals = t.range(1, 3);
        c.ext_types = t.chance(1, 2);
        c.ext_fallback = *t.pick(&[0, 5, 10]);
        c.ext_quiet = quiet && unsafe_too;
        c.ext_rate = 8;
        if unsafe_too {
            c.tags = false;
            c.choice_tags = false;
        }
        c
    };
    let p = match gen_prg(t, c) {
        Ok(p) => p,
        Err((src, e)) => {
            ctx.detail = src;
            return Out::Fail(format!("compile error: {}", strip(&e)), e);
        }
    };
    ctx.detail = p.src.clone();
    let prog = p.prog.clone().unwrap();
    // bindings
    let mut used = vec![];
    if let Ok(j) = serde_json::from_str::<serde_json::Value>(&p.json) {
        externals(&j["root"], &mut used);
    }
    let used: BTreeSet<String> = used.into_iter().map(|x| x.0).collect();
    let mut binds: BTreeMap<String, Bind> = BTreeMap::new();
    for (n, _) in &p.exts {
        if t.chance(3, 4) {
            let ret = [Ret::Int, Ret::Float, Ret::Str, Ret::Nothing][t.weighted(&[8, 1, 1, 1])];
            binds.insert(n.clone(), Bind { safe: !(unsafe_too && t.chance(2, 3)), ret });
        }
    }
    let allow = !t.chance(1, 5);
    let log: Log2 = Default::default();
    let hosts: RefCell<BTreeMap<String, Rc<RefCell<Host>>>> = Default::default();
    let bind = |s: &mut Story, n: &str, b: Bind| -> Result<(), String> {
        let h = hosts.borrow_mut().entry(n.to_string()).or_insert_with(|| Rc::new(RefCell::new(Host { log: log.clone(), bind: b, count: 0 }))).clone();
        s.bind_external_function(n, h, b.safe).map_err(|e| e.to_string())
    };
    let messages: Log = Default::default();
    let handler = t.chance(1, 3);
    let open = |binds: &BTreeMap<String, Bind>| -> Result<Story, String> {
        let mut s = new_story(&p, 7)?;
        s.set_allow_external_function_fallbacks(allow);
        for (n, b) in binds {
            bind(&mut s, n, *b)?;
        }
        if handler {
            s.set_error_handler(Rc::new(RefCell::new(Handler { log: messages.clone() })));
        }
        Ok(s)
    };
    let Ok(mut s) = open(&binds) else { return Out::Skip("story does not load") };
    let mut hist: Vec<String> = vec![format!("bindings {binds:?}, fallbacks {allow}, handler {handler}")];
    vh::set_fuel(Some(crate::drive::FUEL));
    // missing bindings
    let has_fallback = |n: &str| prog.knots.iter().any(|k| k.name == n);
    let missing: Vec<String> = used.iter().filter(|n| !binds.contains_key(*n) && (!allow || !has_fallback(n))).cloned().collect();
    if !missing.is_empty() {
        for _ in 0..t.range(1, 2) {
            let r = res(s.cont());
            hist.push(format!("cont with {missing:?} unbound -> {r}"));
            if !r.starts_with("err") || missing.iter().any(|m| !r.contains(&format!("{m}"))) {
                return fail(ctx, &hist, "missing binding", &format!("{missing:?} have neither binding nor fallback, yet the continue returned {r}"));
            }
        }
        if !log.borrow().is_empty() {
            return fail(ctx, &hist, "calls before the bindings are there", &format!("{:?}", log.borrow()));
        }
        ctx.label("stories with a missing binding");
        for m in &missing {
            let b = Bind { safe: !(unsafe_too && t.chance(2, 3)), ret: Ret::Int };
            if let Err(e) = bind(&mut s, m, b) {
                return fail(ctx, &hist, "binding late", &e);
            }
            binds.insert(m.clone(), b);
        }
        hist.push(format!("bound: {binds:?}"));
    }
    // the model
    let mut it = match Interp::new(prog.clone()) {
        Ok(i) => i,
        Err(_) => return Out::Skip("global declaration faults"),
    };
    it.unsafe_ext = binds.iter().filter(|(_, b)| !b.safe).map(|x| x.0.clone()).collect();
    let mut counts: BTreeMap<String, i32> = BTreeMap::new();
    let bs = binds.clone();
    it.ext = Some(Box::new(move |n: &str, a: &[V]| {
        let b = bs.get(n)?;
        let a: Vec<String> = a.iter().map(mval).collect();
        let c = counts.entry(n.to_string()).or_insert(0);
        *c += 1;
        Some(value(n, &a, *c - 1, b))
    }));
    let sliced = t.chance(1, 3);
    let saving = t.chance(1, 4);
    let (mut calls, mut lines_seen, mut from) = (0usize, 0usize, 0usize);
    for turn in 0..7 {
        let m = it.run_turn();
        let (fault, m) = match m {
            Ok(m) => (None, m),
            Err(Fault::Error(e)) if e.contains("unsafe external") => (Some(e), Turn { lines: vec![], status: Status::Fell, either: false }),
            Err(_) => {
                ctx.label("turn left open");
                break;
            }
        };
        log.borrow_mut().clear();
        messages.borrow_mut().clear();
        vh::set_fuel(Some(crate::drive::FUEL));
        let mut el = vec![];
        let mut err: Option<String> = None;
        while s.can_continue() {
            let r = if sliced && t.chance(2, 3) {
                loop {
                    vh::set_slice_steps(Some(t.range(1, 9) as u64));
                    let r = s.continue_async(1.0);
                    vh::set_slice_steps(None);
                    if let Err(e) = r {
                        break Err(e.to_string());
                    }
                    if let Ok(x) = s.get_current_text() {
                        break Ok(x);
                    }
                }
            } else {
                s.cont().map_err(|e| e.to_string())
            };
            if vh::fuel_exhausted() {
                return Out::Fail("engine runs away".into(), format!("{hist:?}"));
            }
            match r {
                Ok(x) => {
                    let tags = s.get_current_tags().unwrap_or_default();
                    hist.push(format!("continue -> {x:?} {tags:?}"));
                    if let Some(k) = key(&x, &tags) {
                        el.push(k);
                        log.borrow_mut().push(Seen::Line);
                    }
                }
                Err(e) => {
                    hist.push(format!("continue -> err {e}"));
                    err = Some(e);
                    break;
                }
            }
            if let Some(e) = messages.borrow().iter().find(|e| e.starts_with("error")) {
                hist.push(format!("handler: {e}"));
                err = Some(e.clone());
                break;
            }
            if saving && fault.is_none() && t.chance(1, 3) {
                let Ok(text) = s.save_state() else { return fail(ctx, &hist, "save fails", "") };
                let Ok(mut s2) = open(&binds) else { return Out::Skip("story does not load") };
                if let Err(e) = s2.load_state(&text) {
                    return fail(ctx, &hist, "load fails", &e.to_string());
                }
                s = s2;
                hist.push("saved and loaded".into());
            }
        }
        // the calls
        let want: Vec<&ExtCall> = it.ext_log[from..].iter().collect();
        let seen = log.borrow().clone();
        let is_unsafe = |n: &str| binds.get(n).is_some_and(|b| !b.safe);
        let mut delivered = 0;
        let mut k = 0;
        let uns: Vec<&&ExtCall> = want.iter().filter(|c| is_unsafe(&c.name)).collect();
        for e in &seen {
            match e {
                Seen::Line => delivered += 1,
                Seen::Call(n, a) if is_unsafe(n) => {
                    let Some(w) = uns.get(k) else {
                        return fail(ctx, &hist, "unsafe call too often", &format!("{n}({a:?}) is not one of the calls {uns:?}"));
                    };
                    let wa: Vec<String> = w.args.iter().map(mval).collect();
                    if w.name != *n || wa != *a {
                        return fail(ctx, &hist, "unsafe call differs", &format!("called {n}({a:?}), expected {}({wa:?})", w.name));
                    }
                    if delivered < w.lines {
                        return fail(ctx, &hist, "called before the line was delivered", &format!("{n}({a:?}) comes after {} finished lines, {delivered} were delivered", w.lines));
                    }
                    k += 1;
                }
                _ => {}
            }
        }
        if k < uns.len() {
            return fail(ctx, &hist, "unsafe call missing", &format!("{:?} was not called", uns[k]));
        }
        let mut i = 0;
        for e in &seen {
            if let (Seen::Call(n, a), Some(w)) = (e, want.get(i))
                && w.name == *n
                && w.args.iter().map(mval).collect::<Vec<_>>() == *a
            {
                i += 1;
            }
        }
        if i < want.len() {
            return fail(ctx, &hist, "call missing or out of order", &format!("expected {:?}, seen {seen:?}", want[i]));
        }
        calls += want.len();
        lines_seen += el.len();
        if let Some(f) = fault {
            ctx.label("unsafe call inside a string");
            match &err {
                Some(e) if e.contains("could not be called") => break,
                e => return fail(ctx, &hist, "unsafe call inside a string", &format!("{f}: engine reports {e:?}")),
            }
        }
        // printing nothing leaves blanks that the model has no token for
        if binds.values().any(|b| b.ret == Ret::Nothing) {
            el.iter_mut().for_each(|l| l.0 = l.0.replace(' ', ""));
        }
        let squeeze = |l: (String, Vec<String>)| if binds.values().any(|b| b.ret == Ret::Nothing) { (l.0.replace(' ', ""), l.1) } else { l };
        let ml: Vec<_> = m.lines.iter().filter_map(|l| key(&l.text, &l.tags)).map(squeeze).collect();
        if let Some(e) = &err
            && !fell(e)
        {
            return fail(ctx, &hist, "engine error", &format!("{e}; model {ml:?}"));
        }
        if err.is_none() || el.len() != ml.len() {
            // the text of a failing continue is not read here
            if ml[..el.len().min(ml.len())] != el[..] || err.is_none() && ml != el {
                return fail(ctx, &hist, "output", &format!("model {ml:?}\n engine {el:?}"));
            }
        }
        let ec: Vec<(String, Vec<String>)> = s.get_current_choices().iter().map(|c| (clean(&c.text), c.tags.clone())).collect();
        let mc: Vec<_> = it.choices.iter().map(|c| (clean(&c.text), c.tags.clone())).collect();
        if ec != mc {
            return fail(ctx, &hist, "choices", &format!("model {mc:?}\n engine {ec:?}"));
        }
        let ok = match (&m.status, &err) {
            (Status::Fell, None) => m.either,
            (Status::Done, Some(_)) => m.either,
            (Status::Choices, Some(_)) => false,
            _ => true,
        };
        if !ok {
            return fail(ctx, &hist, "status", &format!("model {:?} engine {err:?}", m.status));
        }
        for g in &p.globals {
            let a = it.globals.get(g).map(mval).unwrap_or("-".into());
            let b = s.get_variable(g).map(|v| eval_of(&vt(&v))).unwrap_or("-".into());
            if a != b {
                return fail(ctx, &hist, "global", &format!("{g}: model {a} engine {b}"));
            }
        }
        if m.status != Status::Choices || it.choices.is_empty() || turn == 6 {
            break;
        }
        let k = t.below(it.choices.len());
        hist.push(format!("choose {k}"));
        from = it.ext_log.len(); // the text of the choice may already call
        if it.choose(k).is_err() {
            break;
        }
        if let Err(e) = s.choose_choice_index(k) {
            return fail(ctx, &hist, "choose", &e.to_string());
        }
    }
    ctx.label_n("calls", calls as u64);
    ctx.label_n("calls of unsafe functions", it.ext_log.iter().filter(|c| it.unsafe_ext.contains(&c.name)).count() as u64);
    ctx.label_n("unsafe calls after a finished line", it.ext_log.iter().filter(|c| it.unsafe_ext.contains(&c.name) && c.lines > 0).count() as u64);
    ctx.detail += &format!("\n// {}", hist.join("\n// "));
    Out::Pass { nontrivial: calls >= 2 && lines_seen >= 2, digest: hash_str(&(p.json + &hist.join("\n"))) }
}
