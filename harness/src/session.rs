//! Host sessions on real stories: programs, host operations, observations.
use crate::drive::{self, FUEL, vt};
use crate::ink::genp::{self, Cfg, Role, Ty, Unit};
use crate::ink::print;
use crate::tape::Tape;
use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink::story::external_functions::ExternalFunction;
use bladeink::story::variable_observer::VariableObserver;
use bladeink::value_type::ValueType;
use serde_json::Value as J;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Prg {
    pub name: String,
    pub src: String,
    pub json: String,
    pub globals: Vec<String>,
    pub types: Vec<Option<Ty>>,
    /// knots, stitches (and labels of generated programs)
    pub paths: Vec<String>,
    /// places a host may jump to without arguments
    pub jumps: Vec<String>,
    pub units: Vec<Unit>,
    pub exts: Vec<(String, usize)>,
    pub generated: bool,
    pub prog: Option<Rc<crate::ink::ast::Prog>>,
}

impl Prg {
    /// nothing keeps an untyped program from calling itself (every line copies its whole call stack)
    pub fn runs_away(&self) -> bool {
        matches!(self.name.as_str(), "wild" | "mutated corpus")
    }
    pub fn funcs(&self) -> Vec<&Unit> {
        self.units.iter().filter(|u| u.role == Role::Fn && !self.exts.iter().any(|e| e.0 == u.path)).collect()
    }
}

pub const RAND_IN: &[&str] = &["~ra|rb|rc", "RANDOM(1, 9)", "LIST_RANDOM(LIST_ALL(@L))", "~once|{RANDOM(1, 3)}|rd", "LIST_RANDOM(@L)"];
pub const RAND_INT: &[&str] = &["RANDOM(0, 5)", "RANDOM(1, 20)", "LIST_COUNT(LIST_RANDOM(LIST_ALL(@L)))"];
pub const RAND_STMT: &[&str] = &["~ SEED_RANDOM(42)", "~ @V = RANDOM(0, 7)", "{shuffle once:\n- SH1\n- SH2\n- SH3\n}", "{stopping shuffle:\n- SH4\n- SH5\n}", "~ @L = LIST_RANDOM(LIST_ALL(@L))", "~ @L = LIST_RANDOM(@L)"];

/// integers that may fault
pub const FAULT_INT: &[&str] = &["(4 / @V)", "(7 mod @V)", "INT(@V / (@V - 1))", "(1 / (@V - @V))"];

/// random features on and off
pub fn swarm(t: &mut Tape, sizes: &[usize]) -> Cfg {
    let mut c = Cfg { size: *t.pick(sizes), ..Default::default() };
    for f in [
        &mut c.threads, &mut c.tunnels, &mut c.functions, &mut c.lists, &mut c.floats, &mut c.seqs, &mut c.glue, &mut c.tags,
        &mut c.choice_tags, &mut c.conds, &mut c.temps, &mut c.divert_vars, &mut c.labels, &mut c.counts, &mut c.exotic,
    ] {
        if !t.chance(2, 3) {
            *f = false;
        }
    }
    c.max_knots = t.range(1, 4);
    c
}

pub fn with_random(c: &mut Cfg) {
    c.raw_in = RAND_IN;
    c.raw_int = RAND_INT;
    c.raw_stmt = RAND_STMT;
}

/// A generated program, compiled. Err: the compiler refused it.
pub fn gen_prg(t: &mut Tape, cfg: Cfg) -> Result<Prg, (String, String)> {
    let (p, units, globals) = genp::program(t, cfg);
    let src = print::program(&p);
    match drive::compile(&src) {
        Ok(json) => {
            let paths = units.iter().filter(|u| u.role != Role::Fn).map(|u| u.path.clone()).collect();
            let jumps = units.iter().filter(|u| u.role == Role::Main && u.params.is_empty()).map(|u| u.path.clone()).collect();
            Ok(Prg {
                name: "generated".into(),
                src,
                json,
                types: globals.iter().map(|g| Some(g.1)).collect(),
                globals: globals.into_iter().map(|g| g.0).collect(),
                paths,
                jumps,
                units,
                exts: p.externals.clone(),
                generated: true,
                prog: Some(Rc::new(p)),
            })
        }
        Err(e) => Err((src, e)),
    }
}

fn meta(p: &mut Prg) {
    let Ok(v) = serde_json::from_str::<J>(&p.json) else { return };
    let Some(root) = v["root"].as_array() else { return };
    let Some(J::Object(named)) = root.last() else { return };
    for (k, c) in named {
        let Some(a) = c.as_array() else { continue };
        if k == "global decl" {
            for x in a {
                if let Some(n) = x.get("VAR=").and_then(|n| n.as_str()) {
                    p.globals.push(n.to_string());
                    p.types.push(None);
                }
            }
            continue;
        }
        if k.starts_with('#') {
            continue;
        }
        let param = |a: &Vec<J>| a.first().is_some_and(|x| x.get("temp=").is_some());
        p.paths.push(k.clone());
        if !param(a) {
            p.jumps.push(k.clone());
        }
        if let Some(J::Object(sub)) = a.last() {
            for (s, c) in sub {
                let Some(b) = c.as_array() else { continue };
                if s.starts_with("c-") || s.starts_with("g-") {
                    continue;
                }
                p.paths.push(format!("{k}.{s}"));
                if !param(b) {
                    p.jumps.push(format!("{k}.{s}"));
                }
            }
        }
    }
}

pub fn externals(j: &J, out: &mut Vec<(String, usize)>) {
    match j {
        J::Array(a) => a.iter().for_each(|x| externals(x, out)),
        J::Object(o) => {
            if let Some(n) = o.get("x()").and_then(|n| n.as_str()) {
                let e = (n.to_string(), o.get("exArgs").and_then(|x| x.as_u64()).unwrap_or(0) as usize);
                if !out.iter().any(|x| x.0 == e.0) {
                    out.push(e);
                }
            }
            o.values().for_each(|x| externals(x, out));
        }
        _ => {}
    }
}

/// A program of unknown structure: what can be read off its story JSON.
pub fn raw_prg(name: &str, src: String, json: String) -> Prg {
    let mut p = Prg { name: name.into(), src, json, ..Default::default() };
    meta(&mut p);
    if let Ok(j) = serde_json::from_str::<J>(&p.json) {
        externals(&j["root"], &mut p.exts);
    }
    p
}

/// An untyped program, or a mutated corpus source, that the compiler accepts.
pub fn wild_prg(t: &mut Tape) -> Result<Prg, String> {
    let (name, src) = if t.chance(1, 4) {
        let c = corpus();
        let i = t.below(c.len());
        let n = t.range(1, 3);
        ("mutated corpus", crate::ink::wild::mutate(t, &c[i].src, n))
    } else {
        let mild = t.chance(2, 3);
        ("wild", crate::ink::wild::program(t, mild))
    };
    match crate::runner::guard(|| drive::compile(&src)) {
        Ok(Ok(json)) => Ok(raw_prg(name, src, json)),
        Ok(Err(e)) => Err(format!("{e}\n{src}")),
        Err(e) => Err(format!("panic {e}\n{src}")),
    }
}

#[derive(Clone)]
pub struct Pair {
    pub name: String,
    pub src: String,
    pub ours: Option<Prg>,
    pub reference: Option<Prg>,
}

fn walk(d: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<_> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, out);
        } else if p.extension().is_some_and(|e| e == "ink") {
            out.push(p);
        }
    }
}

pub const CORPUS_DIR: &str = "/repo/conformance-tests/inkfiles";

thread_local! {
    static CORPUS: RefCell<Option<Rc<Vec<Pair>>>> = const { RefCell::new(None) };
    static PLAYABLE: RefCell<Option<Rc<Vec<Prg>>>> = const { RefCell::new(None) };
}

pub fn read_text(p: &std::path::Path) -> Option<String> {
    let b = std::fs::read(p).ok()?;
    Some(String::from_utf8_lossy(&b).trim_start_matches('\u{feff}').to_string())
}

/// compile a corpus file, with its includes
pub fn compile_file(path: &std::path::Path) -> Option<String> {
    let src = read_text(path)?;
    let dir = path.parent()?.to_path_buf();
    crate::runner::guard(|| {
        bladeink_compiler::Compiler::new().compile_with_file_handler(&src, |n: &str| {
            read_text(&dir.join(n)).ok_or_else(|| bladeink_compiler::CompilerError::invalid_source("no such file".to_string()))
        })
    })
    .ok()?
    .ok()
}

/// All corpus sources, with this compiler's and the reference compiler's story.
pub fn corpus() -> Rc<Vec<Pair>> {
    CORPUS.with(|c| {
        if let Some(v) = &*c.borrow() {
            return v.clone();
        }
        let mut files = vec![];
        walk(std::path::Path::new(CORPUS_DIR), &mut files);
        let mut v = vec![];
        for f in files {
            let name = f.strip_prefix(CORPUS_DIR).unwrap().display().to_string();
            let src = read_text(&f).unwrap_or_default();
            let mk = |json: String, what: &str| {
                let mut p = Prg { name: format!("{name} ({what})"), src: src.clone(), json, ..Default::default() };
                meta(&mut p);
                p
            };
            let ours = compile_file(&f).map(|j| mk(j, "this compiler"));
            let rf = std::path::PathBuf::from(format!("{}.json", f.display()));
            let reference = read_text(&rf).map(|j| mk(j, "reference compiler"));
            v.push(Pair { name, src, ours, reference });
        }
        let r = Rc::new(v);
        *c.borrow_mut() = Some(r.clone());
        r
    })
}

/// Every corpus story under both compilers.
pub fn playable() -> Rc<Vec<Prg>> {
    PLAYABLE.with(|c| {
        if let Some(v) = &*c.borrow() {
            return v.clone();
        }
        let mut v = vec![];
        for p in corpus().iter() {
            v.extend(p.ours.clone());
            v.extend(p.reference.clone());
        }
        let r = Rc::new(v);
        *c.borrow_mut() = Some(r.clone());
        r
    })
}

/// generated program (most of the time) or a corpus story
pub fn any_prg(t: &mut Tape, cfg: impl FnOnce(&mut Tape) -> Cfg, corpus_in_10: usize) -> Result<Prg, (String, String)> {
    if t.chance(corpus_in_10, 10) {
        let v = playable();
        Ok(t.pick(&v).clone())
    } else {
        let c = cfg(t);
        gen_prg(t, c)
    }
}

pub fn new_story(p: &Prg, seed: i32) -> Result<Story, String> {
    bladeink::verif_hooks::set_story_seed(Some(seed));
    bladeink::verif_hooks::set_fuel(Some(FUEL));
    let mut s = Story::new(&p.json).map_err(|e| e.to_string())?;
    s.set_allow_external_function_fallbacks(true);
    Ok(s)
}

#[derive(Clone)]
pub enum Op {
    Cont,
    Max,
    Choose(usize),
    Jump(String, bool),
    Switch(String),
    Default,
    Remove(String),
    Set(String, ValueType),
    Save,
    /// load the text saved last (by this session's own story)
    Load,
    Reset,
    Eval(String, Vec<ValueType>),
}

impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Op::Cont => write!(f, "cont"),
            Op::Max => write!(f, "continue_maximally"),
            Op::Choose(i) => write!(f, "choose({i})"),
            Op::Jump(p, r) => write!(f, "jump({p}, reset_call_stack={r})"),
            Op::Switch(n) => write!(f, "switch_flow({n:?})"),
            Op::Default => write!(f, "switch_to_default_flow"),
            Op::Remove(n) => write!(f, "remove_flow({n:?})"),
            Op::Set(n, v) => write!(f, "set_variable({n}, {})", vt(v)),
            Op::Save => write!(f, "save"),
            Op::Load => write!(f, "load(last save)"),
            Op::Reset => write!(f, "reset"),
            Op::Eval(n, a) => write!(f, "evaluate_function({n}, {:?})", a.iter().map(vt).collect::<Vec<_>>()),
        }
    }
}

pub type Log = Rc<RefCell<Vec<String>>>;

pub struct Watch {
    pub tag: String,
    pub log: Log,
}

impl VariableObserver for Watch {
    fn changed(&mut self, n: &str, v: &ValueType) {
        self.log.borrow_mut().push(format!("notify{} {n} = {}", self.tag, vt(v)));
    }
}

pub type Observer = Rc<RefCell<dyn VariableObserver>>;

pub fn watch(tag: &str, log: &Log) -> Observer {
    Rc::new(RefCell::new(Watch { tag: tag.into(), log: log.clone() }))
}

pub struct Handler {
    pub log: Log,
}

impl ErrorHandler for Handler {
    fn error(&mut self, m: &str, k: ErrorType) {
        self.log.borrow_mut().push(format!("{} {m}", if k == ErrorType::Error { "error" } else { "warning" }));
    }
}

/// What a bound external returns: look-ahead-safe ones depend on their
/// arguments only, the others also on how often they were called.
pub struct Ext {
    pub log: Log,
    pub safe: bool,
    pub count: i32,
}

pub fn ext_value(name: &str, a: &[i32], count: i32) -> i32 {
    let mut h: i32 = name.bytes().map(|b| b as i32).sum::<i32>() % 5;
    for (i, x) in a.iter().enumerate() {
        h += (i as i32 + 2) * (x.rem_euclid(50));
    }
    h % 17 + count * 20
}

impl ExternalFunction for Ext {
    fn call(&mut self, name: &str, args: Vec<ValueType>) -> Option<ValueType> {
        let a: Vec<String> = args.iter().map(vt).collect();
        self.log.borrow_mut().push(format!("call {name}({})", a.join(", ")));
        let ints: Vec<i32> = args.iter().map(|v| match v {
            ValueType::Int(i) => *i,
            ValueType::Bool(b) => *b as i32,
            _ => 0,
        }).collect();
        let r = ext_value(name, &ints, self.count);
        if !self.safe {
            self.count += 1;
        }
        Some(ValueType::Int(r))
    }
}

/// Bindings, observers and handler of a session.
#[derive(Clone, Default, Debug)]
pub struct Rig {
    /// per external of the program: unbound, or bound (safe?)
    pub bind: Vec<Option<bool>>,
    pub observe: bool,
    /// this one is not observed
    pub skip: usize,
    pub handler: bool,
}

pub fn rig(t: &mut Tape, p: &Prg, unsafe_too: bool) -> Rig {
    Rig {
        bind: p.exts.iter().map(|_| if t.chance(4, 5) { Some(!(unsafe_too && t.chance(1, 2))) } else { None }).collect(),
        observe: t.chance(3, 4),
        skip: t.below(6),
        handler: t.chance(1, 2),
    }
}

pub struct Session {
    pub story: Story,
    pub saved: Option<String>,
    pub flow: String,
    pub log: Log,
    pub observer: Option<Observer>,
    pub bound: Vec<String>,
    pub observed: Vec<String>,
    pub fuel: u64,
}

pub fn res<T: std::fmt::Debug, E: std::fmt::Display>(r: Result<T, E>) -> String {
    match r {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => format!("err {e}"),
    }
}

impl Session {
    pub fn new(p: &Prg, seed: i32) -> Result<Session, String> {
        Ok(Session { story: new_story(p, seed)?, saved: None, flow: "DEFAULT_FLOW".into(), log: Default::default(), observer: None, bound: vec![], observed: vec![], fuel: if p.runs_away() { 6_000 } else { FUEL } })
    }
    pub fn rigged(p: &Prg, seed: i32, r: &Rig) -> Result<Session, String> {
        let mut s = Session::new(p, seed)?;
        for ((n, _), b) in p.exts.iter().zip(&r.bind) {
            if let Some(safe) = b {
                let e = Rc::new(RefCell::new(Ext { log: s.log.clone(), safe: *safe, count: 0 }));
                s.story.bind_external_function(n, e, *safe).map_err(|e| e.to_string())?;
                s.bound.push(n.clone());
            }
        }
        if r.observe {
            let o = watch("", &s.log);
            for (i, g) in p.globals.iter().enumerate() {
                if i != r.skip {
                    s.story.observe_variable(g, o.clone()).map_err(|e| e.to_string())?;
                    s.observed.push(g.clone());
                }
            }
            s.observer = Some(o);
        }
        if r.handler {
            s.story.set_error_handler(Rc::new(RefCell::new(Handler { log: s.log.clone() })));
        }
        Ok(s)
    }
    /// what the callbacks received since the last call
    pub fn events(&mut self) -> Vec<String> {
        std::mem::take(&mut *self.log.borrow_mut())
    }
    pub fn out_of_fuel(&self) -> bool {
        bladeink::verif_hooks::fuel_exhausted()
    }
    /// The call and what it returned, as text.
    pub fn apply(&mut self, op: &Op) -> String {
        bladeink::verif_hooks::set_fuel(Some(self.fuel));
        let s = &mut self.story;
        match op {
            Op::Cont => res(s.cont()),
            Op::Max => res(s.continue_maximally()),
            Op::Choose(i) => res(s.choose_choice_index(*i)),
            Op::Jump(p, r) => res(s.choose_path_string(p, *r, None)),
            Op::Switch(n) => {
                let r = s.switch_flow(n);
                if r.is_ok() {
                    self.flow = n.clone();
                }
                res(r)
            }
            Op::Default => {
                s.switch_to_default_flow();
                self.flow = "DEFAULT_FLOW".into();
                "ok".into()
            }
            Op::Remove(n) => {
                let r = s.remove_flow(n);
                if r.is_ok() && self.flow == *n {
                    self.flow = "DEFAULT_FLOW".into();
                }
                res(r)
            }
            Op::Set(n, v) => res(s.set_variable(n, v)),
            Op::Save => match s.save_state() {
                Ok(j) => {
                    self.saved = Some(j);
                    "ok".into()
                }
                Err(e) => format!("err {e}"),
            },
            Op::Load => match &self.saved {
                Some(j) => {
                    let r = s.load_state(j);
                    if r.is_ok()
                        && let Some(n) = serde_json::from_str::<J>(j).ok().and_then(|v| v["currentFlowName"].as_str().map(|x| x.to_string()))
                    {
                        self.flow = n;
                    }
                    res(r)
                }
                None => "nothing saved".into(),
            },
            Op::Reset => {
                let r = s.reset_state();
                if r.is_ok() {
                    self.flow = "DEFAULT_FLOW".into();
                }
                res(r)
            }
            Op::Eval(n, a) => {
                let mut text = String::new();
                let a = if a.is_empty() { None } else { Some(a) };
                match s.evaluate_function(n, a, &mut text) {
                    Ok(v) => format!("ok {:?} text {text:?}", v.as_ref().map(vt)),
                    Err(e) => format!("err {e}"),
                }
            }
        }
    }
}

pub type Obs = Vec<(String, String)>;

/// Everything a host can see without changing anything.
pub fn observe(s: &mut Story, p: &Prg) -> Obs {
    let mut o: Obs = vec![
        ("can_continue".into(), s.can_continue().to_string()),
        ("current text".into(), res(s.get_current_text())),
        ("current tags".into(), res(s.get_current_tags())),
        ("current path".into(), format!("{:?}", s.get_current_path())),
        (
            "choices".into(),
            s.get_current_choices().iter().map(|c| format!("{:?} {:?} #{}", c.text, c.tags, c.index.borrow())).collect::<Vec<_>>().join("; "),
        ),
        ("errors".into(), format!("{:?}", s.get_current_errors())),
        ("warnings".into(), format!("{:?}", s.get_current_warnings())),
    ];
    store(s, p, &mut o);
    o
}

/// Global variables and visit counts.
pub fn store(s: &Story, p: &Prg, o: &mut Obs) {
    for g in &p.globals {
        o.push((format!("variable {g}"), s.get_variable(g).map(|v| vt(&v)).unwrap_or("-".into())));
    }
    for u in &p.paths {
        o.push((format!("visits of {u}"), res(s.get_visit_count_at_path_string(u))));
    }
}

pub fn diff(a: &Obs, b: &Obs) -> Option<(String, String)> {
    for (x, y) in a.iter().zip(b.iter()) {
        if x != y {
            let k = x.0.split(' ').next().unwrap_or("").to_string();
            return Some((k, format!("{}: {} | {}", x.0, x.1, y.1)));
        }
    }
    None
}

pub fn save_json(s: &Story) -> Result<J, String> {
    let t = s.save_state().map_err(|e| e.to_string())?;
    serde_json::from_str(&t).map_err(|e| format!("save is not JSON: {e}"))
}

/// first difference between two JSON values, as a path
pub fn jdiff(a: &J, b: &J, at: &str) -> Option<String> {
    match (a, b) {
        (J::Object(x), J::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{at}.{k}: only in the first ({v})")),
                    Some(w) => {
                        if let Some(d) = jdiff(v, w, &format!("{at}.{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, w) in y {
                if !x.contains_key(k) {
                    return Some(format!("{at}.{k}: only in the second ({w})"));
                }
            }
            None
        }
        (J::Array(x), J::Array(y)) => {
            for (i, (v, w)) in x.iter().zip(y.iter()).enumerate() {
                if let Some(d) = jdiff(v, w, &format!("{at}[{i}]")) {
                    return Some(d);
                }
            }
            if x.len() != y.len() { Some(format!("{at}: lengths {} | {}", x.len(), y.len())) } else { None }
        }
        _ => {
            if a == b { None } else { Some(format!("{at}: {a} | {b}")) }
        }
    }
}

pub fn value_for(t: &mut Tape, ty: Option<Ty>, cur: Option<ValueType>) -> Option<ValueType> {
    let k = match (ty, &cur) {
        (Some(Ty::Int), _) | (None, Some(ValueType::Int(_))) => 0,
        (Some(Ty::Bool), _) | (None, Some(ValueType::Bool(_))) => 1,
        (Some(Ty::Float), _) | (None, Some(ValueType::Float(_))) => 2,
        (Some(Ty::Str), _) | (None, Some(ValueType::String(_))) => 3,
        (Some(Ty::List), _) | (None, Some(ValueType::List(_))) => 4,
        _ => 5,
    };
    Some(match k {
        0 => ValueType::Int(t.below(9) as i32),
        1 => ValueType::Bool(t.chance(1, 2)),
        2 => ValueType::Float(t.below(16) as f32 * 0.25),
        3 => ValueType::new::<&str>(*t.pick(&["host", "", "a b"])),
        _ => return cur,
    })
}

pub struct Weights {
    pub cont: usize,
    pub max: usize,
    pub choose: usize,
    pub jump: usize,
    pub switch: usize,
    pub remove: usize,
    pub set: usize,
    pub save: usize,
    pub load: usize,
    pub reset: usize,
    pub eval: usize,
}

pub const PLAY: Weights = Weights { cont: 12, max: 2, choose: 8, jump: 0, switch: 0, remove: 0, set: 0, save: 0, load: 0, reset: 0, eval: 0 };
pub const HOST: Weights = Weights { cont: 12, max: 2, choose: 8, jump: 1, switch: 2, remove: 1, set: 2, save: 0, load: 0, reset: 0, eval: 1 };

pub const FLOWS: &[&str] = &["F1", "F2", "F3"];

/// A host call that the present state allows; None: nothing left to do.
pub fn next_op(t: &mut Tape, s: &Session, p: &Prg, w: &Weights) -> Option<Op> {
    let can = s.story.can_continue();
    let nch = s.story.get_current_choices().len();
    let funcs = p.funcs();
    let jump_ok = !p.jumps.is_empty();
    let list = [
        if can { w.cont } else { 0 },
        if can { w.max } else { 0 },
        if nch > 0 && !can { w.choose } else { 0 },
        if jump_ok { if !can && nch == 0 { w.jump * 6 } else { w.jump } } else { 0 },
        w.switch,
        w.remove,
        if p.globals.is_empty() { 0 } else { w.set },
        w.save,
        if s.saved.is_some() { w.load } else { 0 },
        w.reset,
        if funcs.is_empty() { 0 } else { w.eval },
    ];
    if list.iter().sum::<usize>() == 0 {
        return None;
    }
    Some(match t.weighted(&list) {
        0 => Op::Cont,
        1 => Op::Max,
        2 => Op::Choose(t.below(nch)),
        3 => Op::Jump(t.pick(&p.jumps).clone(), !t.chance(1, 4)),
        4 => {
            if t.chance(1, 4) {
                Op::Default
            } else {
                Op::Switch(t.pick(FLOWS).to_string())
            }
        }
        5 => Op::Remove(t.pick(FLOWS).to_string()),
        6 => {
            let i = t.below(p.globals.len());
            let g = p.globals[i].clone();
            match value_for(t, p.types[i], s.story.get_variable(&g)) {
                Some(v) => Op::Set(g, v),
                None => Op::Cont,
            }
        }
        7 => Op::Save,
        8 => Op::Load,
        9 => Op::Reset,
        _ => {
            let f = *t.pick(&funcs);
            Op::Eval(f.path.clone(), args_for(t, f, s, p)?)
        }
    })
}

pub fn args_for(t: &mut Tape, f: &Unit, s: &Session, p: &Prg) -> Option<Vec<ValueType>> {
    use crate::ink::ast::PKind;
    let mut a = vec![];
    for (_, k, ty) in &f.params {
        if *k != PKind::Val {
            return None;
        }
        match ty {
            Ty::List => {
                let l = p.globals.iter().zip(&p.types).filter(|(_, ty)| **ty == Some(Ty::List)).map(|(g, _)| g).next()?;
                a.push(s.story.get_variable(l)?);
            }
            Ty::Target => return None,
            _ => a.push(value_for(t, Some(*ty), None)?),
        }
    }
    Some(a)
}

/// observer notifications of one call come in no particular order
pub fn settle(mut e: Vec<String>) -> Vec<String> {
    let mut n: Vec<String> = e.iter().filter(|x| x.starts_with("notify")).cloned().collect();
    e.retain(|x| !x.starts_with("notify"));
    n.sort();
    e.extend(n);
    e
}

/// Functions that leave no trace in the story: pure, and without alternatives
/// or random values anywhere below them.
pub fn traceless(p: &Prg) -> Vec<String> {
    let Some(prog) = &p.prog else { return vec![] };
    let texts: Vec<(String, String)> = prog.knots.iter().filter(|k| k.is_fn).map(|k| (k.name.clone(), format!("{:?}", k.body))).collect();
    let mut bad: Vec<String> = texts.iter().filter(|(_, b)| b.contains("Seq(") || b.contains("SeqBlock(") || b.contains("Raw(")).map(|x| x.0.clone()).collect();
    loop {
        let more: Vec<String> = texts.iter().filter(|(n, b)| !bad.contains(n) && bad.iter().any(|x| b.contains(&format!("Call(\"{x}\"")))).map(|x| x.0.clone()).collect();
        if more.is_empty() {
            break;
        }
        bad.extend(more);
    }
    p.funcs().iter().filter(|u| u.pure_ && !bad.contains(&u.path)).map(|u| u.path.clone()).collect()
}

pub fn to_v(v: &ValueType) -> Option<crate::ink::value::V> {
    use crate::ink::value::{L, V};
    Some(match v {
        ValueType::Bool(b) => V::Bool(*b),
        ValueType::Int(i) => V::Int(*i),
        ValueType::Float(f) => V::Float(*f),
        ValueType::String(s) => V::Str(s.string.clone()),
        ValueType::DivertTarget(p) => V::Target(p.to_string()),
        ValueType::List(l) => {
            let mut r = L { items: Default::default(), names: l.get_origin_names().into_iter().collect() };
            for (k, v) in &l.items {
                let n = k.get_full_name();
                let (o, i) = n.split_once('.')?;
                r.items.insert((o.into(), i.into()), *v);
                r.names.insert(o.into());
            }
            V::List(r)
        }
        ValueType::VariablePointer(_) => return None,
    })
}
