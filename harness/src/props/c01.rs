//! C01: the compiled story against the reference interpreter.
use crate::drive::{self, End, Play};
use crate::ink::{genp, interp::*, print, style, value::*};
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::tape::{Tape, hash_str};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C01",
    rule: "one generated Ink program played along generated choice paths next to the reference interpreter; non-trivial = at least two turns or four lines compared",
    cases: |t| if t == Tier::Quick { 160_000 } else { 3_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

pub fn mval(v: &V) -> String {
    match v {
        V::Bool(b) => format!("b:{b}"),
        V::Int(i) => format!("i:{i}"),
        V::Float(f) => format!("f:{f:?}"),
        V::Str(s) => format!("s:{s}"),
        V::List(l) => {
            if l.items.is_empty() {
                "l:()".into()
            } else {
                let mut it: Vec<String> = l.items.iter().map(|((o, i), v)| format!("{o}.{i}={v}")).collect();
                it.sort();
                format!("l:({})", it.join(","))
            }
        }
        V::Target(p) => format!("d:{p}"),
        V::Ref(..) => "ptr".into(),
        V::Void => "-".into(),
    }
}

pub fn eval_of(s: &str) -> String {
    // empty lists are compared without origins here
    if s.starts_with("l:()") { "l:()".into() } else { s.to_string() }
}

fn key(text: &str, tags: &[String]) -> Option<(String, Vec<String>)> {
    let t = clean(text.trim_end_matches('\n'));
    if t.is_empty() && tags.is_empty() { None } else { Some((t, tags.to_vec())) }
}

pub fn cfg(t: &mut Tape) -> genp::Cfg {
    let mut c = genp::Cfg { size: [6, 12, 25, 45][t.weighted(&[2, 4, 4, 1])], ..Default::default() };
    // swarm: switch features off at random so that the others get room
    for f in [
        &mut c.threads, &mut c.tunnels, &mut c.functions, &mut c.lists, &mut c.floats, &mut c.seqs, &mut c.glue, &mut c.tags,
        &mut c.choice_tags, &mut c.conds, &mut c.temps, &mut c.divert_vars, &mut c.labels, &mut c.counts, &mut c.exotic,
    ] {
        if !t.chance(1, 2) {
            *f = false;
        }
    }
    c.max_knots = t.range(1, 4);
    c
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let cfg = cfg(t);
    let (p, units, globals) = genp::program(t, cfg);
    let mut src = print::program(&p);
    if t.chance(1, 3) {
        src = style::restyle(&src, t);
    }
    ctx.detail = src.clone();
    let json = match drive::compile(&src) {
        Ok(j) => j,
        Err(e) => return Out::Fail(format!("compile error: {}", strip(&e)), format!("valid program refused: {e}")),
    };
    let p = Rc::new(p);
    let mut digest = hash_str(&src);
    let mut turns = 0;
    let mut lines = 0;
    let paths = if turns == 0 { 2 } else { 1 };
    for pi in 0..paths {
        let mut it = match Interp::new(p.clone()) {
            Ok(i) => i,
            Err(Fault::Error(_)) | Err(Fault::Ambiguous(_)) => return Out::Skip("global declaration faults"),
            Err(Fault::Fuel) => return Out::Skip("model fuel"),
        };
        let mut d = match Play::new(&json, 7) {
            Ok(d) => d,
            Err(e) => return Out::Fail("load error".into(), format!("compiled story does not load: {e}")),
        };
        let mut trail = vec![];
        let mut picks: Vec<String> = vec![];
        for turn in 0..8 {
            let m = match it.run_turn() {
                Ok(m) => m,
                Err(Fault::Error(e)) => {
                    // outside the domain (a fault in the story): stop comparing here
                    ctx.label("turn faults in model");
                    let _ = e;
                    break;
                }
                Err(Fault::Ambiguous(_)) => {
                    ctx.label("turn left open by the rules");
                    break;
                }
                Err(Fault::Fuel) => {
                    ctx.label("model fuel");
                    break;
                }
            };
            let r = d.turn();
            if r.end == End::Fuel {
                return Out::Fail("engine runs away".into(), format!("picks {picks:?}: the model ends the turn, the engine does not"));
            }
            let ml: Vec<_> = m.lines.iter().filter_map(|l| key(&l.text, &l.tags)).collect();
            let el: Vec<_> = r.lines.iter().filter_map(|l| key(&l.text, &l.tags)).collect();
            let at = format!("after picks {picks:?}");
            if ml != el {
                return Out::Fail("lines".into(), format!("{at}: lines differ\n model:  {ml:?}\n engine: {el:?}\n engine end {:?}", r.end));
            }
            let mc: Vec<_> = it.choices.iter().map(|c| (clean(&c.text), c.tags.clone())).collect();
            let ec: Vec<_> = r.choices.iter().map(|c| (c.text.clone(), c.tags.clone())).collect();
            if mc != ec {
                return Out::Fail("choices".into(), format!("{at}: choices differ\n model:  {mc:?}\n engine: {ec:?} end {:?}", r.end));
            }
            let ok = match (&m.status, &r.end) {
                (Status::Choices, End::Choices) => true,
                (Status::Done, End::Done) => true,
                (Status::Fell, End::Err(e)) => fell(e),
                (Status::Fell, End::Done) => m.either,
                (Status::Done, End::Err(e)) => m.either && fell(e),
                _ => false,
            };
            if !ok {
                return Out::Fail(format!("status {:?}", m.status), format!("{at}: status model {:?} engine {:?}", m.status, r.end));
            }
            for (g, _) in &globals {
                let a = it.globals.get(g).map(mval).unwrap_or("-".into());
                let b = eval_of(&d.var(g));
                if a != b {
                    return Out::Fail("global".into(), format!("{at}: global {g}: model {a} engine {b}"));
                }
            }
            for u in &units {
                let a = it.visits.get(&u.path).copied().unwrap_or(0);
                let b = d.story.get_visit_count_at_path_string(&u.path);
                match b {
                    Ok(b) if a == b => {}
                    b => return Out::Fail("visits".into(), format!("{at}: visits of {}: model {a} engine {b:?}", u.path)),
                }
            }
            turns += 1;
            lines += ml.len();
            trail.push(format!("{ml:?} {mc:?} {:?}", m.status));
            if m.status != Status::Choices || it.choices.is_empty() {
                ctx.label(match m.status {
                    Status::Done => "story ends",
                    Status::Fell => "story runs out",
                    Status::Choices => "only fallback",
                });
                break;
            }
            if turn == 7 {
                break;
            }
            let k = t.below(it.choices.len());
            picks.push(format!("{k}:{}", it.choices[k].text));
            match it.choose(k) {
                Ok(()) => {}
                Err(_) => break,
            }
            if let Err(e) = d.story.choose_choice_index(k) {
                return Out::Fail("choose".into(), format!("{at}: choosing {k} fails: {e}"));
            }
        }
        for l in &it.labels_seen {
            ctx.label(l);
        }
        digest ^= hash_str(&trail.join("\n")).rotate_left(pi);
        ctx.detail += &format!("\n// picks: {picks:?}");
    }
    Out::Pass { nontrivial: turns >= 2 || lines >= 4, digest }
}

fn fell(e: &str) -> bool {
    e.contains("ran out of content") || e.contains("unexpectedly reached end of content")
}

/// error text without names and numbers
pub fn strip(e: &str) -> String {
    let mut o = String::new();
    let mut q = false;
    for c in e.chars() {
        if c == '\'' || c == '"' || c == '`' {
            q = !q;
            o.push('_');
        } else if !q && !c.is_ascii_digit() {
            o.push(c);
        }
    }
    o.chars().take(80).collect()
}
