//! C18: dropping a story gives back all memory; resets and loads do not accumulate any.
use super::c04::wild_call;
use crate::alloc::live;
use crate::jsonmut::damage;
use crate::runner::{Ctx, Out, Prop, Tier, guard};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::story::Story;

pub const PROP: Prop = Prop {
    id: "C18",
    rule: "live heap bytes of the process before and after: (a) a story is constructed, taken through a generated host history (saves, loads, resets, flows, jumps, evaluations, slices, errors, observers, externals) and dropped, the same four times; (b) one story goes through the same generated history again and again, with a reset or a load of one save between; (c) a story or save that is refused; growth in each repetition is a leak; non-trivial = at least six calls and one line of text per repetition, or a refused document",
    cases: |t| if t == Tier::Quick { 240_000 } else { 4_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

fn program(t: &mut Tape) -> Option<Prg> {
    match t.weighted(&[3, 2]) {
        0 => any_prg(
            t,
            |t| {
                let mut c = swarm(t, &[6, 12, 25]);
                if t.chance(1, 3) {
                    with_random(&mut c);
                }
                c.externals = *t.pick(&[0, 0, 1, 2]);
                c.missing = *t.pick(&[0, 0, 8]);
                c.faults = *t.pick(&[0, 0, 30]);
                c
            },
            3,
        )
        .ok(),
        _ => wild_prg(t).ok(),
    }
}

struct Did {
    log: Vec<String>,
    lines: usize,
}

/// a life of a story, from construction to drop
fn life(t: &mut Tape, p: &Prg, keep: bool) -> Result<Did, String> {
    let mut d = Did { log: vec![], lines: 0 };
    let r = rig(t, p, true);
    let mut s = Session::rigged(p, 5, &r)?;
    s.fuel = s.fuel.min(6_000);
    let wild = t.chance(1, 2);
    let w = Weights { save: 2, load: 2, reset: 1, ..HOST };
    let mut scrap = vec![];
    for _ in 0..t.range(3, 30) {
        if wild && t.chance(2, 3) {
            let x = wild_call(t, &mut s, p, &mut scrap);
            d.lines += x.contains("\\n") as usize;
        } else {
            let Some(op) = next_op(t, &s, p, &w) else { break };
            let x = s.apply(&op);
            d.lines += x.contains("\\n") as usize;
            if keep {
                scrap.push(format!("{op:?} -> {}", crate::runner::clip(&x, 200)));
            }
        }
        s.events();
        if s.out_of_fuel() {
            break;
        }
    }
    d.log = if keep { scrap } else { vec![String::new(); scrap.len()] };
    Ok(d)
}

/// Live bytes added by each of `n` runs of `f` on the same tape
fn growth(n: usize, rec: &[u32], mut f: impl FnMut(&mut Tape) -> bool) -> Option<Vec<(i64, i64)>> {
    let mut v = vec![];
    for _ in 0..n {
        let a = live();
        let ok = {
            let mut t = Tape::replay(rec.to_vec());
            matches!(guard(|| f(&mut t)), Ok(true))
        };
        if !ok {
            return None;
        }
        let b = live();
        v.push((b.0 - a.0, b.1 - a.1));
    }
    Some(v)
}

fn each(g: &[(i64, i64)]) -> bool {
    g.iter().all(|x| x.0 > 0)
}

fn lives(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let Some(p) = program(t) else { return Out::Skip("program refused by the compiler") };
    ctx.detail = if p.generated || p.src.len() < 3000 { p.src.clone() } else { p.name.clone() };
    let start = t.rec.len();
    let Ok(Ok(d)) = guard(|| life(t, &p, true)) else { return Out::Skip("panics, or does not load") };
    ctx.detail += &format!("\n// {}", d.log.join("\n// "));
    let rec = t.rec[start..].to_vec();
    let Some(g) = growth(3, &rec, |t| life(t, &p, false).is_ok()) else { return Out::Skip("panics, or does not load") };
    if each(&g[1..]) {
        // once more, to be sure
        let g = growth(5, &rec, |t| life(t, &p, false).is_ok()).unwrap_or_default();
        if g.len() == 5 && each(&g) {
            return Out::Fail("drop".into(), format!("bytes and blocks left after each of five identical lives of a story: {g:?}\n{}", d.log.join("\n")));
        }
    }
    Out::Pass { nontrivial: d.log.len() >= 6 && d.lines >= 1, digest: hash_str(&(p.json + &d.log.join("\n"))) }
}

fn turn(t: &mut Tape, s: &mut Session, p: &Prg, log: Option<&mut Vec<String>>) -> usize {
    let w = Weights { save: 0, load: 0, ..HOST };
    let mut n = 0;
    let mut l = vec![];
    for _ in 0..t.range(1, 14) {
        let Some(op) = next_op(t, s, p, &w) else { break };
        let x = s.apply(&op);
        if log.is_some() {
            l.push(format!("{op:?} -> {}", crate::runner::clip(&x, 200)));
        }
        n += 1;
        if s.out_of_fuel() {
            break;
        }
    }
    if let Some(log) = log {
        log.extend(l);
    }
    s.events();
    n
}

fn one_instance(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let Some(p) = program(t) else { return Out::Skip("program refused by the compiler") };
    ctx.detail = if p.generated || p.src.len() < 3000 { p.src.clone() } else { p.name.clone() };
    let mut r = rig(t, &p, false);
    r.handler = true;
    let mut log = vec![format!("{r:?}")];
    let Ok(Ok(mut s)) = guard(|| Session::rigged(&p, 5, &r)) else { return Out::Skip("panics, or does not load") };
    s.fuel = s.fuel.min(6_000);
    let by_load = t.chance(1, 2);
    if guard(|| turn(t, &mut s, &p, Some(&mut log))).is_err() {
        return Out::Skip("panics, or does not load");
    }
    let mut save = String::new();
    if by_load {
        match s.story.save_state() {
            Ok(j) => save = j,
            Err(_) => return Out::Skip("cannot be saved"),
        }
    }
    let what = if by_load { "load" } else { "reset" };
    // now and then nothing but the reset or load
    let still = t.chance(1, 6);
    let start = t.rec.len();
    let mut calls = 0;
    let mut cycle = |t: &mut Tape, s: &mut Session, log: Option<&mut Vec<String>>| -> bool {
        bladeink::verif_hooks::set_story_seed(Some(5));
        let n = if still { 3 } else { turn(t, s, &p, log) };
        calls = n;
        bladeink::verif_hooks::set_fuel(Some(6_000));
        let ok = if by_load { s.story.load_state(&save).is_ok() } else { s.story.reset_state().is_ok() };
        s.flow = "DEFAULT_FLOW".into();
        s.saved = None;
        s.events();
        ok
    };
    if !matches!(guard(|| cycle(t, &mut s, Some(&mut log))), Ok(true)) {
        return Out::Skip("panics, or does not load");
    }
    log.push(what.into());
    ctx.detail += &format!("\n// {}", log.join("\n// "));
    let rec = t.rec[start..].to_vec();
    let Some(mut g) = growth(4, &rec, |t| cycle(t, &mut s, None)) else { return Out::Skip("panics, or does not load") };
    if each(&g[1..]) {
        match growth(12, &rec, |t| cycle(t, &mut s, None)) {
            Some(x) => g.extend(x),
            None => return Out::Skip("panics, or does not load"),
        }
        if each(&g[1..]) {
            return Out::Fail(what.into(), format!("bytes and blocks more after each identical history and {what} on one story: {g:?}\n{}", log.join("\n")));
        }
    }
    Out::Pass { nontrivial: calls >= 2, digest: hash_str(&(p.json + &log.join("\n"))) }
}

fn refused(t: &mut Tape, ctx: &mut Ctx) -> Out {
    let Some(p) = program(t) else { return Out::Skip("program refused by the compiler") };
    let story = t.chance(1, 2);
    let Ok(Ok(mut s)) = guard(|| Session::new(&p, 5)) else { return Out::Skip("panics, or does not load") };
    s.fuel = 6_000;
    let mut log = vec![];
    if guard(|| turn(t, &mut s, &p, Some(&mut log))).is_err() {
        return Out::Skip("panics, or does not load");
    }
    let doc = if story {
        p.json.clone()
    } else {
        match s.story.save_state() {
            Ok(j) => j,
            Err(_) => return Out::Skip("cannot be saved"),
        }
    };
    let (bad, kinds) = damage(t, &doc);
    if bad.len() > doc.len() + 10_000 {
        return Out::Skip("very large document");
    }
    ctx.detail = bad.clone();
    let mut was = false;
    let g = growth(4, &[], |_| {
        bladeink::verif_hooks::set_fuel(Some(6_000));
        was = if story { Story::new(&bad).is_err() } else { s.story.load_state(&bad).is_err() };
        true
    });
    let Some(g) = g else { return Out::Skip("panics, or does not load") };
    if each(&g[1..]) {
        let g = growth(8, &[], |_| {
            bladeink::verif_hooks::set_fuel(Some(6_000));
            let _ = if story { Story::new(&bad).is_err() } else { s.story.load_state(&bad).is_err() };
            true
        });
        if let Some(g) = g
            && each(&g)
        {
            return Out::Fail("refused document".into(), format!("bytes and blocks left after each attempt to load the document ({}refused): {g:?}", if was { "" } else { "not " }));
        }
    }
    ctx.label(if was { "refused document" } else { "damaged document accepted" });
    Out::Pass { nontrivial: was && !kinds.is_empty(), digest: hash_str(&bad) }
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    match t.weighted(&[5, 4, 1]) {
        0 => lives(t, ctx),
        1 => one_instance(t, ctx),
        _ => refused(t, ctx),
    }
}
