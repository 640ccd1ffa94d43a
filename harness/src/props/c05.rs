//! C05: this compiler's corpus stories against the reference compiler's.
use crate::drive::{End, FUEL, Line, choices, vt};
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::story::Story;
use bladeink::verif_hooks as vh;
use std::collections::{BTreeSet, VecDeque};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C05",
    rule: "the first cases are one corpus pair each: every choice path, breadth first, up to the bound; the others are random walks on a random pair with a random seed; in both, the story of this compiler and the reference story are played on the same runtime and compared after every turn; non-trivial = both stories loaded and at least one turn with text, choices or an error compared",
    cases: |t| if t == Tier::Quick { 30_000 } else { 1_500_000 },
    run,
    builds: &["release"],
    peer: None,
};

#[derive(Clone, PartialEq)]
struct State {
    lines: Vec<Line>,
    choices: Vec<Line>,
    end: End,
    vars: Vec<String>,
    /// what an external function was called with
    calls: Vec<String>,
}

struct Side {
    story: Story,
    log: Log,
    globals: Vec<String>,
}

impl Side {
    fn new(p: &Prg, globals: &[String], seed: i32) -> Result<Side, String> {
        vh::set_story_seed(Some(seed));
        vh::set_fuel(Some(FUEL));
        let mut story = crate::runner::guard(|| Story::new(&p.json)).unwrap_or_else(|e| Err(bladeink::story_error::StoryError::BadJson(e))).map_err(|e| e.to_string())?;
        let log: Log = Default::default();
        let mut used = vec![];
        if let Ok(j) = serde_json::from_str::<serde_json::Value>(&p.json) {
            externals(&j["root"], &mut used);
        }
        for (n, _) in used {
            let e = std::rc::Rc::new(std::cell::RefCell::new(Ext { log: log.clone(), safe: true, count: 0 }));
            let _ = story.bind_external_function(&n, e, true);
        }
        Ok(Side { story, log, globals: globals.to_vec() })
    }

    fn turn(&mut self) -> State {
        vh::set_fuel(Some(FUEL));
        let mut lines = vec![];
        let mut end = None;
        while self.story.can_continue() {
            let r = crate::runner::guard(|| self.story.cont());
            match r {
                Ok(Ok(text)) => lines.push(Line { text, tags: self.story.get_current_tags().unwrap_or_default() }),
                Ok(Err(_)) if vh::fuel_exhausted() => {
                    end = Some(End::Fuel);
                    break;
                }
                Ok(Err(_)) => {
                    lines.push(Line { text: self.story.get_current_text().unwrap_or_default(), tags: self.story.get_current_tags().unwrap_or_default() });
                    // the wording names content paths, which may differ
                    end = Some(End::Err(String::new()));
                    break;
                }
                Err(e) => {
                    end = Some(End::Err(format!("panic {e}")));
                    break;
                }
            }
        }
        let choices = choices(&self.story);
        let end = end.unwrap_or(if choices.is_empty() { End::Done } else { End::Choices });
        let vars = self.globals.iter().map(|g| format!("{g} = {}", self.story.get_variable(g).map(|v| canon(&vt(&v))).unwrap_or_else(|| "-".into()))).collect();
        let calls = std::mem::take(&mut *self.log.borrow_mut());
        State { lines, choices, end, vars, calls }
    }
}

/// A divert target's text depends on how the compiler lays content out.
fn canon(v: &str) -> String {
    match v.strip_prefix("d:") {
        Some(p) => format!("d:{}", p.split('.').filter(|c| c.parse::<usize>().is_err()).collect::<Vec<_>>().join(".")),
        None => v.to_string(),
    }
}

fn same(name: &str, ours: &State, refr: &State, globals_end: bool) -> Option<(&'static str, String)> {
    let _ = name;
    if ours.lines != refr.lines {
        return Some(("lines", format!("this compiler {:?}\n reference     {:?}", ours.lines, refr.lines)));
    }
    if ours.choices != refr.choices {
        return Some(("choices", format!("this compiler {:?}\n reference     {:?}", ours.choices, refr.choices)));
    }
    if ours.end != refr.end {
        return Some(("ending", format!("this compiler {:?}\n reference     {:?}", ours.end, refr.end)));
    }
    if ours.calls != refr.calls {
        return Some(("external calls", format!("this compiler {:?}\n reference     {:?}", ours.calls, refr.calls)));
    }
    if globals_end {
        for (a, b) in ours.vars.iter().zip(&refr.vars) {
            if a != b {
                return Some(("variables", format!("this compiler {a}\n reference     {b}")));
            }
        }
    }
    None
}

fn shuffles(json: &str) -> bool {
    json.contains("\"seq\"")
}

struct Two {
    a: Side,
    b: Side,
}

impl Two {
    fn new(p: &Pair, seed: i32) -> Result<Two, (String, String)> {
        let o = p.ours.as_ref().ok_or(("does not compile".to_string(), format!("{}: this compiler refuses a source the reference compiler accepts", p.name)))?;
        let r = p.reference.as_ref().unwrap();
        let mut g: Vec<String> = r.globals.iter().chain(&o.globals).cloned().collect();
        g.sort();
        g.dedup();
        let b = Side::new(r, &g, seed).map_err(|e| ("skip".to_string(), e))?;
        let a = Side::new(o, &g, seed).map_err(|e| ("load error".to_string(), format!("{}: {e}", p.name)))?;
        Ok(Two { a, b })
    }

    /// plays one turn on both
    fn turn(&mut self, p: &Pair, trail: &[usize], ctx: &mut Ctx) -> Result<State, Out> {
        let (x, y) = (self.a.turn(), self.b.turn());
        ctx.label("turns compared");
        if let Some((what, msg)) = same(&p.name, &x, &y, true) {
            return Err(Out::Fail(format!("{what} in {}", p.name), format!("{} after choices {trail:?}: {what} differ\n {msg}", p.name)));
        }
        Ok(y)
    }
}

/// what the story says along a fixed way of choosing, for every seed
fn outcomes(p: &Prg, seeds: i32) -> Result<BTreeSet<String>, String> {
    let mut out = BTreeSet::new();
    for seed in 0..seeds {
        let mut s = Side::new(p, &[], seed)?;
        let mut text = String::new();
        for k in 0..6 {
            let t = s.turn();
            text += &format!("{:?}{:?}{:?};", t.lines.iter().map(|l| &l.text).collect::<Vec<_>>(), t.choices.iter().map(|l| &l.text).collect::<Vec<_>>(), t.end);
            if t.choices.is_empty() {
                break;
            }
            let _ = s.story.choose_choice_index(k % t.choices.len());
        }
        out.insert(text);
    }
    Ok(out)
}

fn pairs() -> Vec<Pair> {
    corpus().iter().filter(|p| p.reference.is_some()).cloned().collect()
}

thread_local! {
    static PAIRS: Rc<Vec<Pair>> = Rc::new(pairs());
}

fn run(idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let v = PAIRS.with(|v| v.clone());
    let n = v.len() as u64;
    if n < 100 {
        return Out::Fail("corpus".into(), format!("only {n} corpus pairs found"));
    }
    if idx < n {
        return exhaustive(&v[idx as usize], ctx);
    }
    // larger stories have more paths
    let weights: Vec<usize> = v.iter().map(|p| p.src.len().min(40_000) / 40 + 2).collect();
    let p = &v[if t.chance(1, 3) { t.below(v.len()) } else { t.weighted(&weights) }];
    let seed = t.range(0, 1_000_000) as i32;
    ctx.detail = format!("{} seed {seed}", p.name);
    if shuffles(&p.reference.as_ref().unwrap().json) {
        return Out::Skip("shuffles are compared over all seeds");
    }
    let mut two = match Two::new(p, seed) {
        Ok(x) => x,
        Err((k, _)) if k == "skip" => return Out::Skip("the reference story does not load"),
        Err((k, m)) => return Out::Fail(k, m),
    };
    let mut trail = vec![];
    let mut digest = hash_str(&p.name);
    let mut content = false;
    for _ in 0..t.range(4, 60) {
        let s = match two.turn(p, &trail, ctx) {
            Ok(s) => s,
            Err(o) => return o,
        };
        content |= !s.lines.is_empty() || !s.choices.is_empty() || s.end != End::Done;
        if s.choices.is_empty() || s.end != End::Choices {
            break;
        }
        let c = t.below(s.choices.len());
        trail.push(c);
        digest = digest.wrapping_mul(31).wrapping_add(c as u64 + 1);
        let (x, y) = (two.a.story.choose_choice_index(c), two.b.story.choose_choice_index(c));
        if x.is_ok() != y.is_ok() {
            return Out::Fail(format!("choosing in {}", p.name), format!("{} after {trail:?}: this compiler {x:?}, reference {y:?}", p.name));
        }
    }
    ctx.detail += &format!(" choices {trail:?}");
    // a place to jump to, known to both
    if t.chance(1, 3) {
        let paths: Vec<&String> = p.reference.as_ref().unwrap().jumps.iter().collect();
        if !paths.is_empty() {
            let to = (*t.pick(&paths)).clone();
            ctx.detail += &format!(" then to {to}");
            if let Ok(mut two) = Two::new(p, seed) {
                let (x, y) = (two.a.story.choose_path_string(&to, true, None), two.b.story.choose_path_string(&to, true, None));
                if x.is_ok() != y.is_ok() {
                    return Out::Fail(format!("jump in {}", p.name), format!("{} to {to}: this compiler {x:?}, reference {y:?}", p.name));
                }
                ctx.label("jumps compared");
                for _ in 0..6 {
                    let s = match two.turn(p, &trail, ctx) {
                        Ok(s) => s,
                        Err(Out::Fail(k, m)) => return Out::Fail(k, format!("after a jump to {to}: {m}")),
                        Err(o) => return o,
                    };
                    if s.choices.is_empty() || s.end != End::Choices {
                        break;
                    }
                    let c = t.below(s.choices.len());
                    if two.a.story.choose_choice_index(c).is_err() || two.b.story.choose_choice_index(c).is_err() {
                        break;
                    }
                }
            }
        }
    }
    Out::Pass { nontrivial: content, digest }
}

fn exhaustive(p: &Pair, ctx: &mut Ctx) -> Out {
    ctx.detail = format!("{}: all paths", p.name);
    let (nodes, depth) = if ctx.tier == Tier::Quick { (600, 40) } else { (20_000, 80) };
    let r = p.reference.as_ref().unwrap();
    if shuffles(&r.json) {
        let Some(o) = &p.ours else { return Out::Fail("does not compile".into(), p.name.clone()) };
        match (outcomes(o, 3000), outcomes(r, 3000)) {
            (Ok(a), Ok(b)) => {
                ctx.label_n("shuffle outcomes", b.len() as u64);
                if a != b {
                    let x = a.difference(&b).next();
                    let y = b.difference(&a).next();
                    return Out::Fail(format!("shuffle outcomes in {}", p.name), format!("{}: over 3000 seeds, only this compiler's story gives {x:?}, only the reference gives {y:?}", p.name));
                }
            }
            (Err(e), _) => return Out::Fail("load error".into(), format!("{}: {e}", p.name)),
            _ => return Out::Skip("the reference story does not load"),
        }
        return Out::Pass { nontrivial: true, digest: hash_str(&p.name) };
    }
    let mut todo: VecDeque<Vec<usize>> = VecDeque::from([vec![]]);
    let mut seen = 0;
    let mut content = false;
    while let Some(path) = todo.pop_front() {
        seen += 1;
        if seen > nodes {
            ctx.label("bound reached");
            break;
        }
        let mut two = match Two::new(p, 11) {
            Ok(x) => x,
            Err((k, _)) if k == "skip" => return Out::Skip("the reference story does not load"),
            Err((k, m)) => return Out::Fail(k, m),
        };
        let mut last = None;
        for i in 0..=path.len() {
            let s = match two.turn(p, &path[..i], ctx) {
                Ok(s) => s,
                Err(o) => return o,
            };
            content |= !s.lines.is_empty() || !s.choices.is_empty() || s.end != End::Done;
            if i < path.len() {
                let c = path[i];
                let (x, y) = (two.a.story.choose_choice_index(c), two.b.story.choose_choice_index(c));
                if x.is_ok() != y.is_ok() {
                    return Out::Fail(format!("choosing in {}", p.name), format!("{} {path:?}: this compiler {x:?}, reference {y:?}", p.name));
                }
            }
            last = Some(s);
        }
        let s = last.unwrap();
        if s.end == End::Choices && path.len() < depth {
            for c in 0..s.choices.len() {
                let mut q = path.clone();
                q.push(c);
                todo.push_back(q);
            }
        }
    }
    if todo.is_empty() {
        ctx.label("stories explored completely");
    }
    Out::Pass { nontrivial: content, digest: hash_str(&p.name) }
}
