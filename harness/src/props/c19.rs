//! C19: every piece of story content is addressable by its own path.
use crate::jsonmut::tree;
use crate::refs::{Key, Tree};
use crate::runner::{Ctx, Out, Prop, Tier, guard};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use serde_json::{Value as J, json};
use std::collections::BTreeMap;

pub const PROP: Prop = Prop {
    id: "C19",
    rule: "corpus stories (both compilers), compiled generated and untyped programs, and generated content trees: (a) the audit hook checks for every object path -> object, path -> text -> path, equality and hash, the same for the relative paths of sampled pairs (near, far, and across knots) and for written targets, and its listing is compared with an independent reading of the story JSON; (b) positions held by the state after a generated history equal those of a fresh and of the same story loaded from its save; paths of content and of the state's own position, jumped to, lead there; non-trivial = at least 20 objects and 20 relative paths audited, or two saves compared",
    cases: |t| if t == Tier::Quick { 130_000 } else { 2_500_000 },
    run,
    builds: &["release"],
    peer: None,
};

const NAMES: &[&str] = &["a", "b", "k", "c-0", "g-0", "s", "0x", "1a", "^x", "-1", "b c", "\u{e9}t\u{e9}", "#x", "->", "s0", "$r1", "a'", "+", "1e3", "x^", "global decl"];

fn leaf(t: &mut Tape) -> J {
    t.pick(&[json!("^text"), json!("\n"), json!(7), json!(1.5), json!("ev"), json!("done"), json!({"VAR?": "x"}), json!({"->": "a"}), json!({"*": ".^.a", "flg": 4}), json!({"^->": "a"}), json!("<>"), json!("#"), json!({"CNT?": "a"}), json!(true), json!("void")]).clone()
}

fn tree_prg(t: &mut Tape) -> Prg {
    let mut budget = *t.pick(&[10usize, 40, 120]);
    let d = t.range(1, 8);
    let mut root = tree(t, d, &mut budget, NAMES, &leaf);
    // plain lines for the end
    if t.chance(1, 2) {
        root.as_array_mut().unwrap().insert(0, json!("\n"));
    }
    let j = json!({"inkVersion": 21, "root": root, "listDefs": {}});
    raw_prg("content tree", j.to_string(), j.to_string())
}

/// pairs of the listing, near and far
fn pairs(t: &mut Tape, tr: &Tree, order: &[usize], n: usize) -> Vec<(usize, usize)> {
    let rank: BTreeMap<usize, usize> = order.iter().enumerate().map(|(r, i)| (*i, r)).collect();
    let depth = |mut x: usize| {
        let mut d = 0;
        while x != 0 {
            x = tr.nodes[x].parent;
            d += 1;
        }
        d
    };
    let mut v = vec![];
    for _ in 0..n {
        let a = t.below(order.len());
        let b = if t.chance(1, 3) {
            t.below(order.len())
        } else {
            // up a few, then down
            let mut x = order[a];
            for _ in 0..t.range(0, depth(x).min(5)) {
                x = tr.nodes[x].parent;
            }
            for _ in 0..t.range(0, 5) {
                let Some(c) = &tr.nodes[x].cont else { break };
                let kids: Vec<usize> = c.content.iter().copied().chain(c.named.values().copied()).collect();
                if kids.is_empty() {
                    break;
                }
                x = *t.pick(&kids);
            }
            rank[&x]
        };
        // seen from a leaf itself, its own path is that of what holds it
        if a == b && tr.nodes[order[a]].cont.is_none() {
            continue;
        }
        v.push((a, b));
    }
    v
}

/// the places in the order of the hook's walk
fn order(tr: &Tree) -> Vec<usize> {
    fn go(tr: &Tree, n: usize, v: &mut Vec<usize>) {
        v.push(n);
        let Some(c) = &tr.nodes[n].cont else { return };
        for k in &c.content {
            go(tr, *k, v);
        }
        for k in c.named.values() {
            if !matches!(tr.nodes[*k].key, Key::Index(_)) {
                go(tr, *k, v);
            }
        }
    }
    let mut v = vec![];
    go(tr, 0, &mut v);
    v
}

/// what an object of the JSON is, in the hook's words; None: not compared
fn words(n: &crate::refs::Node) -> Option<(&'static str, Option<String>)> {
    if n.cont.is_some() {
        return Some(("container", None));
    }
    match &n.leaf {
        J::Bool(b) => Some(("bool", Some(b.to_string()))),
        J::Number(x) => match x.as_i64() {
            Some(i) => Some(("int", Some(i.to_string()))),
            None => Some(("float", Some(format!("{:08x}", (x.as_f64()? as f32).to_bits())))),
        },
        J::String(s) => {
            if let Some(r) = s.strip_prefix('^') {
                Some(("string", Some(format!("{r:?}"))))
            } else if s == "\n" {
                Some(("string", Some(format!("{s:?}"))))
            } else {
                None
            }
        }
        J::Object(o) => {
            for (k, what) in [("^->", "divert target"), ("^var", "variable pointer"), ("->", "divert"), ("f()", "divert"), ("->t->", "divert"), ("x()", "divert"), ("*", "choice point"), ("VAR?", "variable reference"), ("CNT?", "variable reference"), ("list", "list")] {
                if let Some(v) = o.get(k) {
                    let text = match k {
                        "VAR?" => v.as_str().map(|s| s.to_string()),
                        "*" => Some(format!("flags {}", o.get("flg").and_then(|f| f.as_i64()).unwrap_or(0))),
                        _ => None,
                    };
                    return Some((what, text));
                }
            }
            None
        }
        _ => None,
    }
}

/// there is no object at the position: past the end, or in an empty container
fn void(l: &str) -> bool {
    match (l.split_once(" index "), l.rsplit_once(" at ")) {
        (Some((a, _)), Some((_, b))) => a == b || b == "nothing",
        _ => true,
    }
}

fn audit(t: &mut Tape, p: &Prg, ctx: &mut Ctx) -> Out {
    let tr = match Tree::parse(&p.json) {
        Ok(x) => x,
        Err(_) => return Out::Skip("not a story"),
    };
    if !tr.doubled.is_empty() {
        return if p.name == "content tree" { Out::Skip("two containers of one name") } else { Out::Fail("doubled".into(), format!("two containers of one name in one place: {:?}", tr.doubled)) };
    }
    let s = match guard(|| new_story(p, 3)) {
        Ok(Ok(s)) => s,
        _ => return Out::Skip("story does not load"),
    };
    let ord = order(&tr);
    let n = if ord.len() < 12 { 144 } else { *t.pick(&[100usize, 300, 1000]) };
    let ps = if ord.len() < 12 {
        // all of them
        let k = ord.len();
        (0..k * k).map(|i| (i / k, i % k)).filter(|(a, b)| a != b || tr.nodes[ord[*a]].cont.is_some()).collect()
    } else {
        pairs(t, &tr, &ord, n)
    };
    let a = s.verif_audit(&ps);
    if let Some((k, m)) = a.problems.first() {
        return Out::Fail(format!("audit: {k}"), format!("{m}\n({} in all)", a.problems.len()));
    }
    // the same listing, read from the JSON
    if a.entries.len() != ord.len() {
        return Out::Fail("listing".into(), format!("{} objects in the story, {} in its JSON", a.entries.len(), ord.len()));
    }
    let refs: BTreeMap<usize, crate::refs::Ref> = tr.refs().into_iter().map(|r| (r.at, r)).collect();
    let mut led = 0;
    for (e, i) in a.entries.iter().zip(&ord) {
        let at = tr.path(*i);
        if e.at != at {
            return Out::Fail("listing".into(), format!("the object at '{}' is at '{at}' in the JSON", e.at));
        }
        if e.path != e.at {
            return Out::Fail("listing".into(), format!("the object at '{}' reports the path '{}'", e.at, e.path));
        }
        let node = &tr.nodes[*i];
        if let Some((kind, text)) = words(node)
            && (e.kind != kind || text.as_ref().is_some_and(|x| *x != e.text))
        {
            return Out::Fail("listing".into(), format!("at '{at}' the story has {} {}, the JSON {}", e.kind, e.text, node.leaf));
        }
        if let Some(c) = &node.cont {
            let mut named: Vec<&String> = c.named.keys().collect();
            named.sort();
            // counting only the start is not counting
            let flags = if c.flags == 4 { 0 } else { c.flags };
            let want = format!("{:?} flags {} length {} named {:?}", c.name, flags, c.content.len(), named);
            if e.text != want {
                return Out::Fail("listing".into(), format!("the container at '{at}' is {}, in the JSON {want}", e.text));
            }
        }
        if let Some(r) = refs.get(i) {
            let position = matches!(r.kind, "divert" | "function call" | "tunnel");
            let indexed = r.path.rsplit('.').next().and_then(|c| c.parse::<usize>().ok());
            let want = tr.resolve(r.at, &r.path).and_then(|x| match indexed {
                Some(i) if position => Some(format!("{}#{i}", tr.path(tr.nodes[x].parent))),
                _ if position => tr.nodes[x].cont.as_ref().map(|_| format!("{}#0", tr.path(x))),
                _ if r.cont => tr.nodes[x].cont.as_ref().map(|_| tr.path(x)),
                _ => Some(tr.path(x)),
            });
            if want.is_some() && e.target != want {
                return Out::Fail("target".into(), format!("the {} '{}' at '{at}' leads to {:?}, by the JSON to {want:?}", r.kind, r.path, e.target));
            }
            led += want.is_some() as usize;
        }
    }
    ctx.label_n("objects audited", a.entries.len() as u64);
    ctx.label_n("relative paths audited", a.relative as u64);
    ctx.label_n("targets compared", led as u64);
    // jumps to some of them
    let mut jumps = 0;
    let mut s = s;
    for _ in 0..4 {
        let e = t.pick(&a.entries);
        if e.at.is_empty() {
            continue;
        }
        if !matches!(guard(|| s.choose_path_string(&e.path, true, None)), Ok(Ok(()))) {
            continue;
        }
        jumps += 1;
        let pos = s.verif_positions();
        let Some(l) = pos.iter().find_map(|l| l.strip_prefix("flow DEFAULT_FLOW thread 0 element 0: ")) else { continue };
        let there = l.ends_with(&format!(" at '{}'", e.at)) || l.starts_with(&format!("'{}' index 0 ", e.at)) && e.kind == "container";
        if !there {
            return Out::Fail("jump".into(), format!("after a jump to '{}' the story is at {l}", e.path));
        }
        if void(l) {
            continue;
        }
        let Some(cur) = s.get_current_path() else { continue };
        let mut q = match new_story(p, 3) {
            Ok(q) => q,
            Err(_) => break,
        };
        if let Err(e2) = q.choose_path_string(&cur, true, None) {
            return Out::Fail("jump".into(), format!("the current path '{cur}' after a jump to '{}' is refused: {e2}", e.path));
        }
        let there = q.verif_positions().iter().find_map(|l| l.strip_prefix("flow DEFAULT_FLOW thread 0 element 0: ").map(|x| x.to_string()));
        if there.as_deref() != Some(l) {
            return Out::Fail("jump".into(), format!("after a jump to '{}' the story is at {l}; its current path '{cur}' leads to {there:?}", e.path));
        }
    }
    ctx.label_n("jumps compared", jumps);
    Out::Pass { nontrivial: a.entries.len() >= 20 && a.relative >= 20, digest: hash_str(&p.json) }
}

fn positions(t: &mut Tape, p: &Prg, ctx: &mut Ctx) -> Out {
    let Ok(Ok(mut s)) = guard(|| Session::new(p, 7)) else { return Out::Skip("story does not load") };
    s.fuel = s.fuel.min(6_000);
    let w = Weights { save: 0, load: 1, reset: 0, jump: 2, ..HOST };
    let mut log = vec![];
    let (mut cmp, mut held) = (0, 0);
    for _ in 0..t.range(4, 24) {
        let Some(op) = next_op(t, &s, p, &w) else { break };
        let r = match guard(|| s.apply(&op)) {
            Ok(r) => r,
            Err(_) => return Out::Skip("panics"),
        };
        log.push(format!("{op:?} -> {}", crate::runner::clip(&r, 200)));
        if s.out_of_fuel() {
            break;
        }
        if t.chance(1, 3) {
            let Ok(j) = s.story.save_state() else { continue };
            let before = s.story.verif_positions();
            held += before.iter().filter(|l| !l.ends_with("nowhere") && !l.ends_with("nothing")).count();
            ctx.detail += &format!("\n// {}", log.join("\n// "));
            let Ok(mut q) = new_story(p, 7) else { continue };
            for (what, story) in [("a new story", &mut q), ("the same story", &mut s.story)] {
                if let Err(e) = story.load_state(&j) {
                    return Out::Fail("load".into(), format!("{what} does not load the save: {e}\n{}", log.join("\n")));
                }
                let after = story.verif_positions();
                if before != after {
                    let d = before.iter().zip(&after).find(|(a, b)| a != b).map_or_else(|| format!("{} positions, then {}", before.len(), after.len()), |(a, b)| format!("{a}\nthen   {b}"));
                    return Out::Fail("position".into(), format!("before {d}\nin {what} loaded from the save, after\n{}", log.join("\n")));
                }
            }
            // the place it is at, as a host would note it down
            if let Some(cur) = s.story.get_current_path() {
                let flow = before.iter().filter(|l| l.starts_with(&format!("flow {} thread ", s.flow)) && l.contains(" element ")).next_back().cloned().unwrap_or_default();
                if flow.split_once(": ").is_none_or(|x| void(x.1)) {
                    continue;
                }
                let Ok(mut q) = new_story(p, 7) else { continue };
                match q.choose_path_string(&cur, true, None) {
                    Err(e) => return Out::Fail("current path".into(), format!("the current path '{cur}' is refused: {e}\n{}", log.join("\n"))),
                    Ok(()) => {
                        let there = q.verif_positions().iter().find_map(|l| l.strip_prefix("flow DEFAULT_FLOW thread 0 element 0: ").map(|x| x.to_string())).unwrap_or_default();
                        if flow.split_once(": ").is_none_or(|(_, x)| x != there) {
                            return Out::Fail("current path".into(), format!("{flow}\nbut its path '{cur}' leads to {there}\n{}", log.join("\n")));
                        }
                    }
                }
            }
            cmp += 1;
        }
    }
    ctx.label_n("saves compared", cmp);
    ctx.label_n("positions compared", held as u64);
    Out::Pass { nontrivial: cmp >= 2, digest: hash_str(&(p.json.clone() + &log.join("\n"))) }
}

/// a program in which one knot, stitch or label has an unusual name
fn renamed(t: &mut Tape) -> Option<Prg> {
    let mild = t.chance(2, 3);
    let src = crate::ink::wild::program(t, mild);
    let word = |c: char| c.is_ascii_alphanumeric() || c == '_';
    let mut names: Vec<String> = vec![];
    for l in src.lines() {
        let l = l.trim();
        if l.starts_with('=') {
            let l = l.trim_start_matches('=').trim_start();
            let l = l.strip_prefix("function ").unwrap_or(l);
            names.push(l.chars().take_while(|c| word(*c)).collect());
        } else if let Some(l) = l.trim_start_matches(['*', '+', '-', ' ']).strip_prefix('(') {
            names.push(l.chars().take_while(|c| word(*c)).collect());
        }
    }
    names.retain(|n| !n.is_empty());
    if names.is_empty() {
        return None;
    }
    let old = t.pick(&names).clone();
    let new = if t.chance(1, 4) { t.pick(&names).clone() } else { t.pick(&["0", "5", "12x", "a.b", "0.1", "x.", "_", "g_0", "c", "s", "b", "functional", "n", "DONE", "1_0", "00", "else", "^", "root"]).to_string() };
    let mut out = String::new();
    let mut w = String::new();
    for c in src.chars().chain(['\n']) {
        if word(c) {
            w.push(c);
        } else {
            out += if w == old { &new } else { &w };
            w.clear();
            out.push(c);
        }
    }
    let json = crate::runner::guard(|| crate::drive::compile(&out)).ok()?.ok()?;
    Some(raw_prg("renamed", out, json))
}

fn run(idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let all = playable();
    if (idx as usize) < all.len() {
        // each corpus story at least once
        let p = all[idx as usize].clone();
        ctx.detail = p.name.clone();
        return audit(t, &p, ctx);
    }
    let what = t.weighted(&[8, 5, 6, 1]);
    let p = match what {
        0 => any_prg(
            t,
            |t| {
                let mut c = swarm(t, &[6, 12, 25, 50]);
                if t.chance(1, 3) {
                    with_random(&mut c);
                }
                c
            },
            3,
        )
        .ok(),
        1 => wild_prg(t).ok(),
        2 => Some(tree_prg(t)),
        _ => renamed(t),
    };
    let Some(p) = p else { return Out::Skip("program refused by the compiler") };
    ctx.detail = if p.generated || p.src.len() < 3000 { p.src.clone() } else { p.name.clone() };
    if what >= 2 || t.chance(2, 5) { audit(t, &p, ctx) } else { positions(t, &p, ctx) }
}
