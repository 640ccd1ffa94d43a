//! C04: faults of the story are errors; nothing panics; arithmetic wraps.
use super::c02::fail;
use crate::ink::wild;
use crate::runner::{Ctx, Out, Prop, Tier, guard, panic_kind};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::story::external_functions::ExternalFunction;
use bladeink::value_type::ValueType;
use std::cell::RefCell;
use std::rc::Rc;

/// steps per call: a program that goes round with tunnels or threads copies
/// an ever larger call stack
const FUEL: u64 = 4_000;

pub const PROP: Prop = Prop {
    id: "C04",
    rule: "an untyped random program, a typed program with faulty operands or a mutated corpus source that compiles, under a random host history with valid and invalid calls, in the release and in the debug build; or integer expressions over extreme values against a 32-bit wrapping model; or a planted fault that must be reported; non-trivial = an error was reported, or at least 5 calls were made, or a wrapping operation was evaluated",
    cases: |t| if t == Tier::Quick { 250_000 } else { 4_000_000 },
    run,
    builds: &["release", "debug"],
    peer: None,
};

struct OddExt {
    k: usize,
    n: usize,
}

impl ExternalFunction for OddExt {
    fn call(&mut self, _: &str, args: Vec<ValueType>) -> Option<ValueType> {
        self.n += 1;
        match self.k {
            0 => Some(ValueType::Int(i32::MAX)),
            1 => None,
            2 => Some(ValueType::new::<&str>("ext")),
            3 => args.into_iter().next(),
            4 => Some(ValueType::Float(f32::NAN)),
            5 => Some(ValueType::Bool(true)),
            _ => Some(ValueType::Int(self.n as i32)),
        }
    }
}

fn odd_value(t: &mut Tape, s: &Session, p: &Prg) -> ValueType {
    match t.below(8) {
        0 => ValueType::Int(*t.pick(&[0, 1, -1, i32::MAX, i32::MIN, 3])),
        1 => ValueType::Bool(t.chance(1, 2)),
        2 => ValueType::Float(*t.pick(&[0.0, -1.5, f32::INFINITY, f32::NAN, 1e30])),
        3 => ValueType::new::<&str>(*t.pick(&["", "x", "12", "\n", "3.5"])),
        4..=6 if !p.globals.is_empty() => {
            let g = t.pick(&p.globals).clone();
            s.story.get_variable(&g).unwrap_or(ValueType::Int(0))
        }
        _ => ValueType::Int(2),
    }
}

fn odd_path(t: &mut Tape, p: &Prg) -> String {
    let base = if p.paths.is_empty() || t.chance(1, 4) {
        t.pick(&["", "0", "nothing", ".^", "global decl", "k0.s0", "0.c-0", "a.b.c", "..", "-1", "0.g-0", "99"]).to_string()
    } else {
        t.pick(&p.paths).clone()
    };
    match t.below(4) {
        0 => format!("{base}.{}", t.pick(&["0", "c-0", "g-0", "1", "5", "s0", "0.0", "0.c-0", "c-0.0", "^", "b"])),
        _ => base,
    }
}

/// One random call, valid or not; its result as text.
pub fn wild_call(t: &mut Tape, s: &mut Session, p: &Prg, log: &mut Vec<String>) -> String {
    bladeink::verif_hooks::set_fuel(Some(FUEL));
    let n = s.story.get_current_choices().len();
    let can = s.story.can_continue();
    let (what, r) = match t.weighted(&[if can { 14 } else { 1 }, 3, if n > 0 { 10 } else { 1 }, 3, 2, 2, 2, 3, 2, 2, 3, 2, 1]) {
        0 => ("cont".to_string(), s.apply(&Op::Cont)),
        1 => ("max".to_string(), s.apply(&Op::Max)),
        2 => {
            let i = if n > 0 && !t.chance(1, 12) { t.below(n) } else { n + t.below(3) };
            (format!("choose {i}"), s.apply(&Op::Choose(i)))
        }
        3 => {
            let path = odd_path(t, p);
            let args: Option<Vec<ValueType>> = if t.chance(1, 3) { Some((0..t.range(1, 2)).map(|_| odd_value(t, s, p)).collect()) } else { None };
            let reset = !t.chance(1, 3);
            (format!("jump {path} {reset} {}", args.as_ref().map(|a| a.len()).unwrap_or(0)), if path.is_empty() { "not called".into() } else { res(s.story.choose_path_string(&path, reset, args.as_ref())) })
        }
        4 => {
            let f = t.pick(FLOWS).to_string();
            (format!("switch {f}"), s.apply(&if t.chance(1, 4) { Op::Default } else { Op::Switch(f) }))
        }
        5 => {
            let f = t.pick(&["F1", "F2", "F3", "DEFAULT_FLOW", "none"]).to_string();
            (format!("remove {f}"), s.apply(&Op::Remove(f)))
        }
        6 => {
            let g = if p.globals.is_empty() || t.chance(1, 10) { "nothing".to_string() } else { t.pick(&p.globals).clone() };
            let v = odd_value(t, s, p);
            (format!("set {g} {}", crate::drive::vt(&v)), s.apply(&Op::Set(g, v)))
        }
        7 => {
            let f = if p.paths.is_empty() || t.chance(1, 12) { "nothing".to_string() } else { t.pick(&p.paths).clone() };
            let a: Vec<ValueType> = (0..t.below(3)).map(|_| odd_value(t, s, p)).collect();
            (format!("evaluate {f} with {} values", a.len()), s.apply(&Op::Eval(f, a)))
        }
        8 => ("save".to_string(), s.apply(&Op::Save)),
        9 => ("load".to_string(), s.apply(&Op::Load)),
        10 => {
            let path = odd_path(t, p);
            let g = p.globals.first().cloned().unwrap_or_default();
            let r = match t.below(7) {
                0 => res(s.story.get_visit_count_at_path_string(&path)),
                1 => res(s.story.tags_for_content_at_path(&path)),
                2 => res(s.story.get_global_tags()),
                3 => format!("ok {:?}", s.story.get_current_path()),
                4 => format!("ok {}", s.story.build_string_of_hierarchy().len()),
                5 => {
                    let o = watch("x", &s.log);
                    let a = res(s.story.observe_variable(&g, o.clone()));
                    let w = t.below(3);
                    let b = match w {
                        0 => res(s.story.remove_variable_observer(&o, Some(&g))),
                        1 => res(s.story.remove_variable_observer(&o, None)),
                        _ => res(s.story.remove_variable_observer(&o, Some("nothing"))),
                    };
                    format!("{a} {b}")
                }
                _ => {
                    let e = t.pick(&["e0", "e1", "nothing"]).to_string();
                    if t.chance(1, 2) {
                        res(s.story.unbind_external_function(&e))
                    } else {
                        let k = t.below(7);
                        res(s.story.bind_external_function(&e, Rc::new(RefCell::new(OddExt { k, n: 0 })), t.chance(1, 2)))
                    }
                }
            };
            (format!("look {path}"), r)
        }
        11 => {
            bladeink::verif_hooks::set_slice_steps(Some(t.range(1, 8) as u64));
            let r = res(s.story.continue_async(1.0));
            let mut r2 = r.clone();
            for _ in 0..t.below(4) {
                r2 = match t.below(4) {
                    0 => s.apply(&Op::Cont),
                    1 => res(s.story.get_current_text()),
                    2 => res(s.story.get_current_tags()),
                    _ => res(s.story.continue_async(1.0)),
                };
            }
            bladeink::verif_hooks::set_slice_steps(None);
            // finish it
            let r3 = if s.story.can_continue() { res(s.story.continue_async(1e9)) } else { String::new() };
            (format!("continue in slices: {r}, {r2}"), r3)
        }
        _ => ("reset".to_string(), s.apply(&Op::Reset)),
    };
    log.push(format!("{what} -> {r}"));
    r
}

fn play(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let p = if t.chance(1, 5) {
        let mut c = swarm(t, &[6, 12, 25]);
        c.raw_int = &["(4 / @V)", "(7 mod @V)", "(2147483647 + @V)", "(@V * 65536)", "(1 / (@V - @V))", "(-2147483648 - @V)", "INT(1.0 / 0.0)", "(@V * @V)"];
        c.externals = t.range(0, 2);
        match gen_prg(t, c) {
            Ok(p) => p,
            Err(_) => return Out::Skip("program refused by the compiler"),
        }
    } else {
        match wild_prg(t) {
            Ok(p) => p,
            Err(e) => {
                ctx.detail = e;
                return Out::Skip("program refused by the compiler");
            }
        }
    };
    ctx.detail = p.src.clone();
    let mut log: Vec<String> = vec![];
    let fallback = !t.chance(1, 4);
    let handler = t.chance(1, 2);
    let odd: Vec<Option<(usize, bool)>> = p.exts.iter().map(|_| if t.chance(1, 2) { Some((t.below(7), t.chance(1, 2))) } else { None }).collect();
    let open = |p: &Prg| -> Result<Session, String> {
        let mut s = Session::rigged(p, 5, &Rig { handler, ..Default::default() })?;
        s.fuel = FUEL;
        s.story.set_allow_external_function_fallbacks(fallback);
        for ((n, _), o) in p.exts.iter().zip(&odd) {
            if let Some((k, safe)) = o {
                s.story.bind_external_function(n, Rc::new(RefCell::new(OddExt { k: *k, n: 0 })), *safe).map_err(|e| e.to_string())?;
            }
        }
        Ok(s)
    };
    let mut s = match guard(|| open(&p)) {
        Ok(Ok(s)) => s,
        // C06: what the compiler accepts, loads
        Ok(Err(_)) => return Out::Skip("story does not load"),
        Err(e) => return fail(ctx, &log, &panic_kind(&e), &format!("panic in Story::new: {e}")),
    };
    let (mut n, mut errs) = (0u64, 0u64);
    for _ in 0..t.range(3, 22) {
        let mut l = vec![];
        let r = match guard(|| wild_call(t, &mut s, &p, &mut l)) {
            Ok(r) => r,
            Err(e) => {
                log.extend(l);
                return fail(ctx, &log, &panic_kind(&e), &format!("panic: {e}"));
            }
        };
        log.extend(l);
        n += 1;
        if s.out_of_fuel() {
            ctx.label("stopped by the step limit");
            break;
        }
        if r.starts_with("err") || s.story.has_error() {
            errs += 1;
            if t.chance(1, 4) {
                break;
            }
        }
    }
    // whatever happened: a reset makes it a new story
    if errs > 0 || s.out_of_fuel() {
        let counted = odd.iter().flatten().any(|(k, _)| *k > 5) || log.iter().any(|l| l.starts_with("look"));
        bladeink::verif_hooks::set_fuel(Some(FUEL));
        match guard(|| res(s.story.reset_state())) {
            Ok(r) if r.starts_with("ok") => {}
            Ok(r) => return fail(ctx, &log, "reset fails", &r),
            Err(e) => return fail(ctx, &log, &panic_kind(&e), &format!("panic in reset: {e}")),
        }
        s.flow = "DEFAULT_FLOW".into();
        log.push("RESET, next to a new story".into());
        // (what the declarations of a story report when it is made has no
        // handler yet to go to)
        let noisy = handler && open(&p).map(|f| !f.story.get_current_warnings().is_empty() || f.story.has_error()).unwrap_or(true);
        if !counted && !noisy {
            let Ok(mut f) = open(&p) else { return Out::Skip("story does not load") };
            s.events();
            f.events();
            for _ in 0..t.range(1, 8) {
                let (a, b) = (observe(&mut s.story, &p), observe(&mut f.story, &p));
                if let Some((k, d)) = diff(&a, &b) {
                    return fail(ctx, &log, &format!("after reset: {k}"), &d);
                }
                let Some(op) = next_op(t, &f, &p, &PLAY) else { break };
                let r = match guard(|| (s.apply(&op), s.out_of_fuel(), f.apply(&op))) {
                    Ok(r) => r,
                    Err(e) => return fail(ctx, &log, &panic_kind(&e), &format!("panic: {e}")),
                };
                log.push(format!("{op:?} -> {}", r.2));
                if r.1 {
                    break;
                }
                if r.0 != r.2 {
                    return fail(ctx, &log, "after reset: result", &format!("{} | expected {}", r.0, r.2));
                }
                let (a, b) = (s.events(), f.events());
                if a != b {
                    return fail(ctx, &log, "after reset: messages", &format!("{a:?} | expected {b:?}"));
                }
                ctx.label("calls compared after a reset");
            }
        }
    }
    ctx.label_n("calls", n);
    ctx.label_n("errors reported", errs);
    ctx.detail += &format!("\n// {}", log.join("\n// "));
    Out::Pass { nontrivial: errs > 0 || n >= 5, digest: hash_str(&(p.src + &log.join("\n"))) }
}

/// integer expression with its value; None = division by zero
fn int_expr(t: &mut Tape, d: usize, vars: &[(String, i32)], wraps: &mut u64) -> (String, Option<i32>) {
    if d == 0 || t.chance(1, 5) {
        if t.chance(1, 2) {
            let v = t.pick(vars);
            return (v.0.clone(), Some(v.1));
        }
        let n = *t.pick(&[0i32, 1, 2, -1, 3, 7, 46341, 65536, i32::MAX, -i32::MAX, 1_000_000_007]);
        return (format!("{n}"), Some(n));
    }
    if t.chance(1, 6) {
        let (a, x) = int_expr(t, d - 1, vars, wraps);
        if x == Some(i32::MIN) {
            *wraps += 1;
        }
        return (format!("(-({a} + 0))"), x.map(|x| x.wrapping_neg()));
    }
    let (a, x) = int_expr(t, d - 1, vars, wraps);
    let (b, y) = int_expr(t, d - 1, vars, wraps);
    let o = *t.pick(&["+", "-", "*", "+", "-", "*", "/", "%"]);
    let v = match (x, y) {
        (Some(x), Some(y)) => {
            let (v, w) = match o {
                "+" => { let r = x.overflowing_add(y); (Some(r.0), r.1) }
                "-" => { let r = x.overflowing_sub(y); (Some(r.0), r.1) }
                "*" => { let r = x.overflowing_mul(y); (Some(r.0), r.1) }
                "/" => (if y == 0 { None } else { Some(x.wrapping_div(y)) }, y == -1 && x == i32::MIN),
                _ => (if y == 0 { None } else { Some(x.wrapping_rem(y)) }, y == -1 && x == i32::MIN),
            };
            if w {
                *wraps += 1;
            }
            v
        }
        _ => None,
    };
    (format!("({a} {o} {b})"), v)
}

fn arithmetic(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let mut vars: Vec<(String, i32)> = (0..3).map(|i| (format!("v{i}"), *t.pick(&[0, 1, -1, 5, i32::MAX, -i32::MAX, 65537, -46341]))).collect();
    let mut src: String = vars.iter().map(|(n, v)| format!("VAR {n} = {v}\n")).collect();
    src += "VAR fl = 0\n";
    let mut want: Vec<Option<i32>> = vec![];
    let mut wraps = 0;
    for k in 0..t.range(1, 6) {
        let (e, v) = int_expr(t, 3, &vars, &mut wraps);
        match t.below(5) {
            0 => {
                let i = t.below(vars.len());
                src += &format!("~ {} = {e}\nR{k} {{{}}}\n", vars[i].0, vars[i].0);
                if let Some(v) = v {
                    vars[i].1 = v;
                }
                want.push(v);
            }
            1 => {
                let i = t.below(vars.len());
                let plus = t.chance(1, 2);
                let r = v.map(|v| if plus { vars[i].1.overflowing_add(v) } else { vars[i].1.overflowing_sub(v) });
                src += &format!("~ {} {}= {e}\nR{k} {{{}}}\n", vars[i].0, if plus { '+' } else { '-' }, vars[i].0);
                if let Some((x, w)) = r {
                    vars[i].1 = x;
                    wraps += w as u64;
                }
                want.push(r.map(|r| r.0));
            }
            2 => {
                let i = t.below(vars.len());
                let plus = t.chance(1, 2);
                src += &format!("~ {}{}\nR{k} {{{}}}\n", vars[i].0, if plus { "++" } else { "--" }, vars[i].0);
                let (x, w) = if plus { vars[i].1.overflowing_add(1) } else { vars[i].1.overflowing_sub(1) };
                vars[i].1 = x;
                wraps += w as u64;
                want.push(Some(x));
            }
            3 => {
                src += &format!("R{k} {{twice({e})}}\n");
                let r = v.map(|v| v.wrapping_mul(2));
                want.push(r);
            }
            _ => {
                src += &format!("R{k} {{{e}}}\n");
                want.push(v);
            }
        }
        if want.last() == Some(&None) {
            break;
        }
    }
    src += "-> DONE\n=== function twice(x)\n~ return x * 2\n";
    ctx.detail = src.clone();
    let json = match crate::drive::compile(&src) {
        Ok(j) => j,
        Err(e) => return Out::Fail("arithmetic refused".into(), e),
    };
    let p = raw_prg("arithmetic", src, json);
    let handler = t.chance(1, 2);
    let mut s = Session::rigged(&p, 1, &Rig { handler, ..Default::default() }).unwrap();
    s.fuel = FUEL;
    for (k, w) in want.iter().enumerate() {
        // the first line is read ahead to the second newline only
        let r = match guard(|| s.apply(&Op::Cont)) {
            Ok(r) => r,
            Err(e) => return Out::Fail(panic_kind(&e), format!("panic: {e}")),
        };
        match w {
            Some(v) => {
                let x = format!("ok {:?}", format!("R{k} {v}\n"));
                let last = want.get(k + 1) == Some(&None);
                if r != x && !(last && r.starts_with("err")) {
                    return Out::Fail("wrong value".into(), format!("{r} | expected {x}"));
                }
                if last && r.starts_with("err") {
                    break;
                }
            }
            None => {
                let seen = if handler { s.events().iter().any(|e| e.starts_with("error")) } else { r.starts_with("err") };
                if !seen {
                    return Out::Fail("division by zero not reported".into(), r);
                }
            }
        }
    }
    ctx.label_n("wrapping operations", wraps);
    Out::Pass { nontrivial: wraps > 0 || want.contains(&None), digest: hash_str(&p.src) }
}

/// a fault and whether it must be an error
const FAULTS: &[&str] = &[
    "{1 / zero}", "{7 mod zero}", "{7 % zero}", "~ num = 1 / zero", "{\"a\" * 2}", "{\"a\" - \"b\"}", "{Lst * 2}", "{2 - Lst}", "{num ? 3}", "{not \"a\"}", "-> num", "~ num = nothing_returned()",
    "{1 + nothing_returned()}", "{RANDOM(5, 1)}", "{(-> knot) + 1}", "{LIST_COUNT(3)}", "{POW(\"a\", 2)}", "{FLOOR(\"a\")}", "{Lst < 3}", "{-> knot: yes}", "~ num = (1 / zero) + 1", "~ SEED_RANDOM(\"a\")",
    "{LIST_RANGE(3, 1, 2)}", "{LIST_RANDOM(4)}", "{TURNS_SINCE(num)}", "{MIN(\"a\", \"b\")}", "{-\"a\"}", "{missing_ext(1)}", "->->", "-> num ->", "{lst_none(3) + \"x\" - 1}",
    "~ nowhere = 3", "~ nowhere += 2", "~ nowhere++", "~ late = num", "~ bump(nowhere)", "{bump(nowhere)}", "~ num = bump(late)",
];

fn t_late(f: &str) -> bool {
    f.contains("late")
}

fn planted(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let f = *t.pick(FAULTS);
    let mut src = String::from("EXTERNAL missing_ext(a)\nLIST Lst = one, two\nVAR zero = 0\nVAR num = 3\n");
    let pre = t.below(3);
    for i in 0..pre {
        src += &format!("before {i}\n");
    }
    let flow = f.starts_with("->");
    let place = t.below(if flow { 4 } else { 8 });
    match place {
        0 => src += &format!("{f}\n"),
        1 => src += &format!("{{zero == 0:\n    {f}\n}}\n"),
        2 => src += &format!("* [go]\n    {f}\n"),
        3 => src += &format!("{{stopping:\n- {f}\n}}\n"),
        4 => src += "-> tun ->\n",
        5 => src += "{fun()}\n",
        6 => src += "~ fun()\n",
        _ => src += "<- thr\n",
    }
    src += "after\n-> DONE\n";
    if !f.contains("missing_ext") {
        src = src.replacen("EXTERNAL missing_ext(a)\n", "", 1);
    }
    // declared where the flow never comes
    let unused = "{zero == 1:\n    ~ temp late = 1\n}";
    let late = t.chance(1, 2);
    if late {
        src = src.replacen("after\n", &format!("{unused}\nafter\n"), 1);
    }
    src += "=== function bump(ref r)\n~ r = r + 1\n~ return r\n";
    let at = |here: &[usize]| match here.contains(&place) {
        true if late && t_late(f) => format!("{f}\n{unused}"),
        true => f.to_string(),
        false => "x".to_string(),
    };
    src += &format!(
        "=== knot\nin knot\n-> DONE\n=== function nothing_returned()\n~ zero = zero\n=== function lst_none(x)\n~ return Lst(x)\n=== tun\n{}\n->->\n=== thr\n{}\n-> DONE\n=== function fun()\n{}\n",
        at(&[4]),
        at(&[7]),
        at(&[5, 6])
    );
    ctx.detail = src.clone();
    let json = match crate::drive::compile(&src) {
        Ok(j) => j,
        Err(_) => return Out::Skip("program refused by the compiler"),
    };
    let p = raw_prg("planted fault", src, json);
    let handler = t.chance(1, 2);
    let mut s = Session::rigged(&p, 1, &Rig { handler, ..Default::default() }).unwrap();
    s.fuel = FUEL;
    if f.contains("missing_ext") {
        s.story.set_allow_external_function_fallbacks(t.chance(1, 2));
    }
    let mut log = vec![];
    for round in 0..2 {
        let mut seen = false;
        for _ in 0..12 {
            let op = if s.story.can_continue() {
                if t.chance(1, 4) && !f.contains("bump(") { Op::Max } else { Op::Cont }
            } else if !s.story.get_current_choices().is_empty() {
                Op::Choose(0)
            } else {
                break;
            };
            let r = match guard(|| s.apply(&op)) {
                Ok(r) => r,
                Err(e) => return fail(ctx, &log, &panic_kind(&e), &format!("panic: {e}")),
            };
            log.push(format!("{op:?} -> {r}"));
            if s.out_of_fuel() {
                return Out::Skip("runs away");
            }
            let ev = s.events();
            seen = handler && ev.iter().any(|e| e.starts_with("error")) || r.starts_with("err");
            // reading a missing variable is a warning in the reference engine
            if f.contains("bump(") {
                seen |= ev.iter().any(|e| e.starts_with("warning")) || !s.story.get_current_warnings().is_empty();
            }
            if seen {
                break;
            }
        }
        if !seen {
            return fail(ctx, &log, "fault not reported", &format!("{f} was executed but never reported (round {round})"));
        }
        if let Err(e) = s.story.reset_state() {
            return fail(ctx, &log, "reset fails", &e.to_string());
        }
        log.push("reset".into());
    }
    ctx.label("planted faults reported");
    Out::Pass { nontrivial: true, digest: hash_str(&p.src) }
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    match t.weighted(&[7, 2, 1]) {
        0 => play(t, ctx),
        1 => arithmetic(t, ctx),
        _ => planted(t, ctx),
    }
}

#[allow(unused)]
fn unused() {
    let _ = wild::INTS;
}
