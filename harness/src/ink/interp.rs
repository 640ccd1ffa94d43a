//! Reference interpreter over the AST. It knows nothing of containers, paths,
//! snapshots, patches or JSON: flow is a stack of structured continuations per
//! frame, output is one token list per turn, rendered into lines at the end.
use super::ast::*;
use super::value::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone)]
enum K {
    /// rest of a block
    Block(Rc<Block>, usize),
    /// rest of a branch of a conditional or sequence block
    Branch(Rc<Block>, usize),
    Nl,
    /// remaining tunnels of a chain, then the final divert
    Chain(Rc<(Vec<Dest>, Option<Dest>)>, usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK {
    Base,
    Tunnel,
    Function,
}

type Pos = (String, String);

#[derive(Clone)]
struct Frame {
    kind: FK,
    temps: BTreeMap<Id, V>,
    ks: Vec<K>,
    pos: Pos,
    /// start of this function's output (buffer depth, index) until it printed
    fstart: Option<usize>,
    obase: usize,
}

#[derive(Clone)]
struct Thread {
    frames: Vec<Frame>,
}

#[derive(Clone, Debug)]
enum Tok {
    T(String),
    Nl(usize),
    BTag,
    ETag,
}

#[derive(Clone, Default)]
struct Buf {
    toks: Vec<Tok>,
    glue: bool,
    /// everything before this was delivered already
    floor: usize,
    /// a tag was opened while glue was pending: that glue then swallows every later
    /// line end of the turn, as in the reference runtime
    stuck: bool,
}

fn blank(s: &str) -> bool {
    s.chars().all(|c| c == ' ' || c == '\t')
}

impl Buf {
    fn newline(&mut self, mark: usize) {
        if self.glue || self.stuck {
            return;
        }
        if !self.toks[self.floor..].iter().any(|t| matches!(t, Tok::T(_))) {
            return;
        }
        for t in self.toks[self.floor..].iter().rev() {
            match t {
                Tok::T(s) if blank(s) => continue,
                Tok::Nl(_) => return,
                _ => break,
            }
        }
        self.toks.push(Tok::Nl(mark));
    }
    fn glue(&mut self) {
        let mut cut = None;
        for (i, t) in self.toks.iter().enumerate().skip(self.floor).rev() {
            match t {
                Tok::T(s) if blank(s) => {}
                Tok::Nl(_) => cut = Some(i),
                _ => break,
            }
        }
        if let Some(i) = cut {
            self.toks.truncate(i);
        }
        self.glue = true;
    }
    fn raw(&self) -> String {
        self.toks
            .iter()
            .map(|t| match t {
                Tok::T(s) => s.as_str(),
                Tok::Nl(_) => "\n",
                _ => "",
            })
            .collect()
    }
}

pub struct MChoice {
    pub text: String,
    pub tags: Vec<String>,
    choice: Choice,
    thread: Thread,
    path: Option<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct MLine {
    pub text: String,
    pub tags: Vec<String>,
    /// ended by a newline
    pub nl: bool,
    /// index of the globals snapshot taken when its newline was written
    pub mark: Option<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Choices,
    Done,
    /// ran out of content: the story must report an error
    Fell,
}

pub struct Turn {
    pub lines: Vec<MLine>,
    pub status: Status,
    /// Done and Fell are both acceptable
    pub either: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ExtCall {
    pub name: String,
    pub args: Vec<V>,
    /// number of newline tokens written in this turn before the call
    pub turn: i32,
    pub in_string: bool,
    /// finished lines of this turn that come before the call
    pub lines: usize,
}

struct Loc {
    ks: Vec<K>,
    pos: Pos,
}

pub type ExtFn = Box<dyn FnMut(&str, &[V]) -> Option<V>>;

pub struct Interp {
    p: Rc<Prog>,
    threads: Vec<Thread>,
    bufs: Vec<Buf>,
    pub globals: BTreeMap<Id, V>,
    consts: BTreeMap<Id, V>,
    pub visits: BTreeMap<String, i32>,
    pub turns: BTreeMap<String, i32>,
    choice_visits: HashMap<usize, i32>,
    seqs: HashMap<usize, i32>,
    pub turn_index: i32,
    pub choices: Vec<MChoice>,
    pending: Vec<MChoice>,
    safe_exit: bool,
    ended: bool,
    ret: Option<V>,
    fuel: usize,
    labels: HashMap<String, Loc>,
    choice_paths: HashMap<usize, String>,
    pub ext: Option<ExtFn>,
    pub ext_log: Vec<ExtCall>,
    /// warnings raised: what is missing, and the finished lines before it in this turn
    pub warn_log: Vec<(String, usize)>,
    /// externals that may not be called ahead of their time
    pub unsafe_ext: std::collections::BTreeSet<String>,
    /// snapshots of the globals at every newline written, if wanted
    pub marks: Vec<BTreeMap<Id, V>>,
    pub keep_marks: bool,
    /// how to read E::Src
    pub second_reading: bool,
    pub labels_seen: std::collections::BTreeSet<&'static str>,
    stopped: bool,
    /// a group offered nothing, or a fallback was taken: whether the turn then
    /// ends or runs out of content is left open
    exact: Option<String>,
    open_end: bool,
    /// the flow last passed a gather, not a divert: a loose end there counts as an end
    gathered: bool,
}

enum Flow {
    Next,
    Divert(Dest),
}

impl Interp {
    pub fn new(p: Rc<Prog>) -> R<Interp> {
        let mut it = Interp {
            p: p.clone(),
            threads: vec![],
            bufs: vec![Buf::default()],
            globals: BTreeMap::new(),
            consts: BTreeMap::new(),
            visits: BTreeMap::new(),
            turns: BTreeMap::new(),
            choice_visits: HashMap::new(),
            seqs: HashMap::new(),
            turn_index: -1,
            choices: vec![],
            pending: vec![],
            safe_exit: false,
            ended: false,
            ret: None,
            fuel: 20000,
            labels: HashMap::new(),
            choice_paths: HashMap::new(),
            ext: None,
            ext_log: vec![],
            warn_log: vec![],
            unsafe_ext: Default::default(),
            marks: vec![],
            keep_marks: false,
            second_reading: false,
            labels_seen: Default::default(),
            stopped: false,
            exact: None,
            open_end: false,
            gathered: false,
        };
        let root = p.root.clone();
        it.index(&root, &mut vec![], &(String::new(), String::new()), "");
        for k in &p.knots {
            it.index(&k.body, &mut vec![], &(k.name.clone(), String::new()), &format!("{}.", k.name));
            for s in &k.stitches {
                it.index(&s.body, &mut vec![], &(k.name.clone(), s.name.clone()), &format!("{}.{}.", k.name, s.name));
            }
        }
        it.threads = vec![Thread { frames: vec![it.frame(FK::Base, ("".into(), "".into()))] }];
        it.top().ks.push(K::Block(root, 0));
        for l in &p.lists {
            let mut v = L { items: Default::default(), names: [l.name.clone()].into() };
            for (n, x, on) in &l.items {
                if *on {
                    v.items.insert((l.name.clone(), n.clone()), *x);
                }
            }
            it.globals.insert(l.name.clone(), V::List(v));
        }
        for (n, e) in &p.consts {
            let v = it.eval(e)?;
            it.consts.insert(n.clone(), v);
        }
        for (n, e) in &p.vars {
            let v = it.eval(e)?;
            it.globals.insert(n.clone(), v);
        }
        // tags at the top of the file also stand above the first line
        for t in &p.global_tags {
            it.bufs[0].toks.push(Tok::BTag);
            it.bufs[0].toks.push(Tok::T(t.clone()));
            it.bufs[0].toks.push(Tok::ETag);
        }
        Ok(it)
    }

    fn index(&mut self, b: &Rc<Block>, outer: &mut Vec<K>, pos: &Pos, prefix: &str) {
        for (i, it) in b.items.iter().enumerate() {
            match it {
                Item::Gather(Some(l)) => {
                    let mut ks = outer.clone();
                    ks.push(K::Block(b.clone(), i));
                    self.labels.insert(format!("{}{}", prefix, l), Loc { ks, pos: pos.clone() });
                }
                Item::Group(cs) => {
                    for c in cs {
                        if let Some(l) = &c.label {
                            self.choice_paths.insert(c.id, format!("{}{}", prefix, l));
                        }
                        outer.push(K::Block(b.clone(), i + 1));
                        self.index(&c.body, outer, pos, prefix);
                        outer.pop();
                    }
                }
                Item::S(S::Cond(br)) | Item::S(S::Switch(_, br)) => {
                    // only choice labels are found in there
                    for (_, bb) in br {
                        outer.push(K::Branch(b.clone(), i + 1));
                        self.index(bb, outer, pos, prefix);
                        outer.pop();
                    }
                }
                _ => {}
            }
        }
    }

    fn frame(&self, kind: FK, pos: Pos) -> Frame {
        Frame { kind, temps: BTreeMap::new(), ks: vec![], pos, fstart: None, obase: self.bufs.len() }
    }
    fn top(&mut self) -> &mut Frame {
        self.threads.last_mut().unwrap().frames.last_mut().unwrap()
    }
    fn buf(&mut self) -> &mut Buf {
        self.bufs.last_mut().unwrap()
    }

    // ---- output ----
    fn text(&mut self, s: &str) {
        if !blank(s) {
            self.buf().glue = false;
            let depth = self.bufs.len();
            for f in self.threads.last_mut().unwrap().frames.iter_mut().rev() {
                if f.kind != FK::Function {
                    break;
                }
                if f.obase == depth {
                    f.fstart = None;
                }
            }
        }
        self.buf().toks.push(Tok::T(s.to_string()));
    }
    fn newline(&mut self) {
        let depth = self.bufs.len();
        let f = self.top();
        // a function drops newlines until it has printed something
        if f.kind == FK::Function && f.fstart.is_some() && f.obase == depth {
            return;
        }
        let mut mark = 0;
        if self.keep_marks && depth == 1 {
            mark = self.marks.len();
            self.marks.push(self.globals.clone());
        }
        self.buf().newline(mark);
    }
    fn tags(&mut self, tags: &[Vec<In>]) -> R<()> {
        for t in tags {
            let b = self.buf();
            b.stuck |= b.glue;
            b.toks.push(Tok::BTag);
            self.inl(t)?;
            self.buf().toks.push(Tok::ETag);
        }
        Ok(())
    }
    /// content evaluated to a plain string
    fn string(&mut self, v: &[In]) -> R<String> {
        self.bufs.push(Buf::default());
        let r = self.inl(v);
        let b = self.bufs.pop().unwrap();
        r?;
        Ok(b.raw())
    }

    // ---- inline content ----
    fn inl(&mut self, v: &[In]) -> R<Flow> {
        self.burn()?;
        for x in v {
            match x {
                In::T(s) => self.text(s),
                In::Glue => self.buf().glue(),
                In::E(e) => {
                    let r = self.eval(e)?;
                    if r != V::Void {
                        let s = show(&r);
                        self.text(&s);
                    }
                }
                In::Cond(c, y, n) => {
                    let c = self.eval(c)?;
                    let f = if truthy(&c)? {
                        self.inl(y)?
                    } else if let Some(n) = n {
                        self.inl(n)?
                    } else {
                        Flow::Next
                    };
                    if let Flow::Divert(d) = f {
                        return Ok(Flow::Divert(d));
                    }
                }
                In::Seq(k, id, items) => {
                    if let Some(i) = self.seq(*k, *id, items.len())
                        && let Flow::Divert(d) = self.inl(&items[i])?
                    {
                        return Ok(Flow::Divert(d));
                    }
                }
                In::Divert(d) => return Ok(Flow::Divert(d.clone())),
            }
        }
        Ok(Flow::Next)
    }

    fn seq(&mut self, k: SeqKind, id: usize, n: usize) -> Option<usize> {
        let c = self.seqs.entry(id).or_insert(0);
        let i = *c as usize;
        *c += 1;
        if i >= 1 {
            self.labels_seen.insert("sequence-repeated");
        }
        match k {
            SeqKind::Stopping => Some(i.min(n - 1)),
            SeqKind::Cycle => Some(i % n),
            SeqKind::Once => (i < n).then_some(i),
        }
    }

    fn burn(&mut self) -> R<()> {
        if self.fuel == 0 {
            return Err(Fault::Fuel);
        }
        self.fuel -= 1;
        Ok(())
    }

    // ---- variables ----
    fn lookup(&mut self, n: &str) -> R<V> {
        if let Some(v) = self.top().temps.get(n).cloned() {
            return match v {
                V::Ref(None, g) => self.globals.get(&g).cloned().ok_or(Fault::Error("ref".into())),
                V::Ref(Some(f), t) => self.threads.last().unwrap().frames[f].temps.get(&t).cloned().ok_or(Fault::Error("ref".into())),
                v => Ok(v),
            };
        }
        if let Some(v) = self.globals.get(n) {
            return Ok(v.clone());
        }
        if let Some(v) = self.consts.get(n) {
            return Ok(v.clone());
        }
        err("unknown variable")
    }
    fn assign(&mut self, n: &str, mut v: V) -> R<()> {
        if v == V::Void {
            return err("assigning nothing");
        }
        // an empty list keeps the origins of the list it replaces
        if let V::List(l) = &mut v
            && l.items.is_empty()
            && let Ok(V::List(old)) = self.lookup(n)
        {
            l.names = old.origins();
        }
        match self.top().temps.get(n).cloned() {
            Some(V::Ref(None, g)) => {
                self.globals.insert(g, v);
            }
            Some(V::Ref(Some(f), t)) => {
                self.threads.last_mut().unwrap().frames[f].temps.insert(t, v);
            }
            Some(_) => {
                self.top().temps.insert(n.to_string(), v);
            }
            None => {
                if self.globals.insert(n.to_string(), v).is_none() {
                    return err("unknown variable");
                }
            }
        }
        Ok(())
    }

    // ---- expressions ----
    pub fn eval(&mut self, e: &E) -> R<V> {
        self.burn()?;
        let p = self.p.clone();
        let defs = &p.lists;
        Ok(match e {
            E::Int(i) => V::Int(*i),
            E::Float(f) => V::Float(*f),
            E::Bool(b) => V::Bool(*b),
            E::Str(s) => V::Str(self.string(s)?),
            // variables that are never declared are called zz...
            E::Var(n) if n.starts_with("zz") && n != "zzv" && !self.top().temps.contains_key(n) => self.warn(n),
            E::Var(n) | E::ListName(n) => self.lookup(n)?,
            E::Un(op, a) => {
                let a = self.eval(a)?;
                unary(defs, op, &a)?
            }
            E::Bin(op, a, b) => {
                let a = self.eval(a)?;
                let b = self.eval(b)?;
                binary(defs, op, &a, &b)?
            }
            E::Target(t) => V::Target(t.clone()),
            E::Read(path) => V::Int(self.visits.get(path).copied().unwrap_or(0)),
            E::TurnsSince(path) => V::Int(self.turns.get(path).map(|t| self.turn_index - t).unwrap_or(-1)),
            E::List(items) => {
                let mut l = L::default();
                for (o, i) in items {
                    let v = def_items(defs, o).get(&(o.clone(), i.clone())).copied();
                    l.items.insert((o.clone(), i.clone()), v.ok_or(Fault::Error("item".into()))?);
                }
                V::List(l)
            }
            E::ListFromInt(l, n) => {
                let n = self.eval(n)?;
                list_from_int(defs, l, &n)?
            }
            E::Raw(_) => return Err(Fault::Ambiguous("raw".into())),
            E::Src(_, a, b) => match b {
                Some(b) if self.second_reading => self.eval(b)?,
                _ => self.eval(a)?,
            },
            E::Builtin(n, args) => {
                let mut a = vec![];
                for x in args {
                    a.push(self.eval(x)?);
                }
                match *n {
                    // of a target that is not there
                    "TURNS_SINCE" => {
                        self.warn("zzgone");
                        V::Int(-1)
                    }
                    "READ_COUNT" => self.warn("zzgone"),
                    "TURNS" => V::Int(self.turn_index + 1),
                    "CHOICE_COUNT" => V::Int(self.pending.len() as i32),
                    "LIST_RANGE" => list_range(&a[0], &a[1], &a[2])?,
                    "MIN" | "MAX" | "POW" => binary(defs, n, &a[0], &a[1])?,
                    n => unary(defs, n, &a[0])?,
                }
            }
            E::Call(n, args) => self.call(n, args)?,
        })
    }

    fn args(&mut self, ps: &[Param], args: &[E]) -> R<Vec<(Id, V)>> {
        let mut out = vec![];
        for (i, p) in ps.iter().enumerate() {
            let v = match (p.kind, &args[i]) {
                (PKind::Ref, E::Var(n)) => {
                    let fi = self.threads.last().unwrap().frames.len() - 1;
                    match self.top().temps.get(n) {
                        Some(V::Ref(a, b)) => V::Ref(*a, b.clone()),
                        Some(_) => V::Ref(Some(fi), n.clone()),
                        None => V::Ref(None, n.clone()),
                    }
                }
                (_, e) => self.eval(e)?,
            };
            out.push((p.name.clone(), v));
        }
        if out.iter().any(|x| x.1 == V::Void) {
            return err("passing nothing");
        }
        Ok(out)
    }

    /// calls a function from the host: (printed text, value)
    pub fn host_call(&mut self, n: &str, args: Vec<V>) -> R<(String, V)> {
        self.fuel = 20000;
        let p = self.p.clone();
        let k = p.knots.iter().find(|k| k.name == n).unwrap();
        let saved = std::mem::replace(&mut self.bufs, vec![Buf::default()]);
        let bound = k.params.iter().map(|p| p.name.clone()).zip(args).collect();
        let pos = (String::new(), String::from("<host>"));
        let r = self.invoke(k, bound, Some(pos));
        let b = std::mem::replace(&mut self.bufs, saved).pop().unwrap();
        let r = r?;
        let lines = render(&b.toks);
        let s: String = lines.iter().map(|l| if l.nl { format!("{}\n", l.text) } else { l.text.clone() }).collect();
        Ok((s, r))
    }

    fn warn(&mut self, n: &str) -> V {
        let toks = &self.bufs[0].toks;
        let last = toks.iter().rposition(|t| matches!(t, Tok::Nl(_)));
        let lines = last.map_or(0, |i| render(&toks[..=i]).iter().filter(|l| !l.text.is_empty() || !l.tags.is_empty()).count());
        self.warn_log.push((n.to_string(), lines));
        V::Int(0)
    }

    fn call(&mut self, n: &str, args: &[E]) -> R<V> {
        let p = self.p.clone();
        if let Some((_, _)) = p.externals.iter().find(|x| x.0 == n) {
            let mut a = vec![];
            for x in args {
                a.push(self.eval(x)?);
            }
            let in_string = self.bufs.len() > 1;
            let mut lines = 0;
            if self.unsafe_ext.contains(n) {
                if in_string {
                    return err("unsafe external in a string");
                }
                // a finished line is delivered before the call: nothing joins it later
                let b = &mut self.bufs[0];
                let last = b.toks.iter().rposition(|t| matches!(t, Tok::Nl(_)));
                if let Some(i) = last {
                    if b.toks[i..].iter().all(|t| matches!(t, Tok::Nl(_)) || matches!(t, Tok::T(s) if blank(s))) {
                        b.floor = i + 1;
                    }
                    lines = render(&b.toks[..=i]).iter().filter(|l| !l.text.is_empty() || !l.tags.is_empty()).count();
                }
            }
            let mut ext = self.ext.take();
            let r = ext.as_mut().and_then(|f| f(n, &a));
            self.ext = ext;
            if let Some(v) = r {
                self.ext_log.push(ExtCall { name: n.into(), args: a, turn: self.turn_index, in_string, lines });
                return Ok(v);
            }
            // fall back to the ink function of that name
            let k = p.knots.iter().find(|k| k.name == n).ok_or(Fault::Error("unbound".into()))?;
            let bound = k.params.iter().map(|p| p.name.clone()).zip(a).collect();
            return self.invoke(k, bound, None);
        }
        let k = p.knots.iter().find(|k| k.name == n).ok_or(Fault::Error("unknown function".into()))?;
        let bound = self.args(&k.params, args)?;
        self.invoke(k, bound, None)
    }

    fn invoke(&mut self, k: &Knot, bound: Vec<(Id, V)>, host_pos: Option<Pos>) -> R<V> {
        let depth = self.threads.last().unwrap().frames.len();
        if depth > 60 {
            return Err(Fault::Fuel);
        }
        // what the host's own call prints is not trimmed
        let host = host_pos.is_some();
        let from = host_pos.unwrap_or(self.top().pos.clone());
        let to = (k.name.clone(), String::new());
        self.enter(&from, &to);
        let mut f = self.frame(FK::Function, to);
        f.fstart = if host { None } else { Some(self.bufs.last().unwrap().toks.len()) };
        f.temps = bound.into_iter().collect();
        f.ks.push(K::Block(k.body.clone(), 0));
        self.threads.last_mut().unwrap().frames.push(f);
        self.ret = None;
        while self.threads.last().unwrap().frames.len() > depth {
            if self.ret.is_some() || self.top().ks.is_empty() {
                self.labels_seen.insert("function");
                let start = if host { usize::MAX } else { self.top().fstart.unwrap_or(0) };
                let b = self.buf();
                let start = start.max(b.floor);
                while b.toks.len() > start {
                    match b.toks.last().unwrap() {
                        Tok::T(s) if blank(s) => {}
                        Tok::Nl(_) => {}
                        _ => break,
                    }
                    b.toks.pop();
                }
                self.threads.last_mut().unwrap().frames.pop();
                break;
            }
            self.step()?;
        }
        Ok(self.ret.take().unwrap_or(V::Void))
    }

    // ---- visits ----
    fn count(&mut self, path: &str) {
        *self.visits.entry(path.to_string()).or_insert(0) += 1;
        self.turns.insert(path.to_string(), self.turn_index);
    }
    fn enter(&mut self, from: &Pos, to: &Pos) {
        if let Some(p) = self.exact.take() {
            // arriving by `->-> target` visits the target, not what it lies in
            if p == to.0 || p == format!("{}.{}", to.0, to.1) {
                self.count(&p);
            }
            return;
        }
        if to.0.is_empty() {
            return;
        }
        if from.0 != to.0 {
            let k = to.0.clone();
            self.count(&k);
        }
        if !to.1.is_empty() && from != to {
            let s = format!("{}.{}", to.0, to.1);
            self.count(&s);
        }
    }

    fn resolve(&mut self, d: &Dest) -> R<String> {
        match &d.to {
            Target::Path(p) => Ok(p.clone()),
            Target::Var(v) => match self.lookup(v)? {
                V::Target(t) => Ok(t),
                _ => err("not a divert target"),
            },
            _ => unreachable!(),
        }
    }

    /// sends the current frame to a destination
    fn divert(&mut self, d: &Dest) -> R<()> {
        match d.to {
            Target::End => {
                self.labels_seen.insert("end");
                self.pending.clear();
                self.threads.truncate(1);
                self.threads[0].frames.truncate(1);
                self.threads[0].frames[0].ks.clear();
                self.safe_exit = true;
                self.ended = true;
                self.stopped = true;
                return Ok(());
            }
            Target::Done => {
                if self.threads.len() > 1 {
                    self.threads.pop();
                } else {
                    self.safe_exit = true;
                    self.stopped = true;
                }
                return Ok(());
            }
            _ => {}
        }
        let path = self.resolve(d)?;
        self.gathered = false;
        self.goto(&path, &d.args)
    }

    fn params_of(&self, path: &str) -> Vec<Param> {
        for k in &self.p.knots {
            if k.name == path {
                return k.params.clone();
            }
            for s in &k.stitches {
                if format!("{}.{}", k.name, s.name) == path {
                    return s.params.clone();
                }
            }
        }
        vec![]
    }

    pub fn goto(&mut self, path: &str, args: &[E]) -> R<()> {
        let ps = self.params_of(path);
        let bound = self.args(&ps, args)?;
        let from = self.top().pos.clone();
        for (n, v) in bound {
            self.top().temps.insert(n, v);
        }
        let p = self.p.clone();
        for k in &p.knots {
            if k.name == path {
                // a knot without own content starts in its first stitch
                let auto = k.body.items.is_empty() && !k.stitches.is_empty();
                let mut to = (k.name.clone(), String::new());
                let body = if auto {
                    self.enter(&from, &to);
                    let f2 = to.clone();
                    to.1 = k.stitches[0].name.clone();
                    self.enter(&f2, &to);
                    k.stitches[0].body.clone()
                } else {
                    self.enter(&from, &to);
                    k.body.clone()
                };
                let f = self.top();
                f.pos = to;
                f.ks = vec![K::Block(body, 0)];
                return Ok(());
            }
            for s in &k.stitches {
                if format!("{}.{}", k.name, s.name) == path {
                    let to = (k.name.clone(), s.name.clone());
                    self.enter(&from, &to);
                    let f = self.top();
                    f.pos = to;
                    f.ks = vec![K::Block(s.body.clone(), 0)];
                    return Ok(());
                }
            }
        }
        if let Some(loc) = self.labels.get(path) {
            let (ks, to) = (loc.ks.clone(), loc.pos.clone());
            self.enter(&from, &to);
            let f = self.top();
            f.pos = to;
            f.ks = ks;
            return Ok(());
        }
        Err(Fault::Ambiguous(format!("unknown target {}", path)))
    }

    // ---- statements ----
    fn step(&mut self) -> R<()> {
        self.burn()?;
        let Some(k) = self.top().ks.pop() else {
            // end of a frame of the flow: the thread ends
            if self.threads.len() > 1 {
                self.threads.pop();
            } else {
                self.stopped = true;
            }
            return Ok(());
        };
        match k {
            K::Nl => self.newline(),
            K::Chain(c, i) => self.chain(c, i)?,
            K::Block(b, i) | K::Branch(b, i) if i >= b.items.len() => {}
            K::Block(b, i) => {
                self.top().ks.push(K::Block(b.clone(), i + 1));
                self.item(&b, i, false)?;
            }
            K::Branch(b, i) => {
                self.top().ks.push(K::Branch(b.clone(), i + 1));
                self.item(&b, i, true)?;
            }
        }
        Ok(())
    }

    fn chain(&mut self, c: Rc<(Vec<Dest>, Option<Dest>)>, i: usize) -> R<()> {
        if i < c.0.len() {
            self.top().ks.push(K::Chain(c.clone(), i + 1));
            self.labels_seen.insert("tunnel");
            let d = &c.0[i];
            let path = self.resolve(d)?;
            let ps = self.params_of(&path);
            let bound = self.args(&ps, &d.args)?;
            let pos = self.top().pos.clone();
            let mut f = self.frame(FK::Tunnel, pos);
            f.temps = bound.into_iter().collect();
            if self.threads.last().unwrap().frames.len() > 60 {
                return Err(Fault::Fuel);
            }
            let temps = f.temps.clone();
            self.threads.last_mut().unwrap().frames.push(f);
            self.goto_plain(&path)?;
            self.top().temps.extend(temps);
            Ok(())
        } else if let Some(d) = &c.1 {
            self.divert(d)
        } else {
            Ok(())
        }
    }

    fn goto_plain(&mut self, path: &str) -> R<()> {
        // parameters are bound by the caller
        let ps = self.params_of(path);
        let dummy: Vec<E> = ps.iter().map(|_| E::Int(0)).collect();
        let saved: Vec<(Id, Option<V>)> = ps.iter().map(|p| (p.name.clone(), self.top().temps.get(&p.name).cloned())).collect();
        // ref parameters want a variable; bind them by hand
        let bad = ps.iter().any(|p| p.kind == PKind::Ref);
        if bad {
            return Err(Fault::Ambiguous("ref parameter of a knot".into()));
        }
        self.goto(path, &dummy)?;
        for (n, v) in saved {
            if let Some(v) = v {
                self.top().temps.insert(n, v);
            }
        }
        Ok(())
    }

    fn tail(&mut self, t: &Tail, had_text: bool) -> R<()> {
        match t {
            Tail::None => self.newline(),
            Tail::Divert(d) => {
                if had_text {
                    self.text(" ");
                }
                self.divert(d)?;
            }
            Tail::Tunnel(ts, last) => {
                if had_text {
                    self.text(" ");
                }
                // only a line with text ends after the tunnel
                if had_text {
                    self.top().ks.push(K::Nl);
                }
                self.chain(Rc::new((ts.clone(), last.clone())), 0)?;
            }
            Tail::TunnelReturn => {
                if had_text {
                    self.text(" ");
                }
                self.tunnel_return(None)?;
            }
        }
        Ok(())
    }

    fn tunnel_return(&mut self, d: Option<&Dest>) -> R<()> {
        if self.top().kind != FK::Tunnel {
            return err("->-> outside a tunnel");
        }
        let over = match d {
            Some(d) => {
                let path = self.resolve(d)?;
                let ps = self.params_of(&path);
                Some((path, self.args(&ps, &d.args)?))
            }
            None => None,
        };
        let pos = self.top().pos.clone();
        self.threads.last_mut().unwrap().frames.pop();
        if let Some((path, bound)) = over {
            self.labels_seen.insert("tunnel-onwards");
            self.top().pos = pos;
            self.exact = Some(path.clone());
            self.goto_plain(&path)?;
            for (n, v) in bound {
                self.top().temps.insert(n, v);
            }
        }
        Ok(())
    }

    fn has_call(e: &E) -> bool {
        match e {
            E::Call(..) | E::ListFromInt(..) | E::Builtin(..) | E::TurnsSince(..) => true,
            E::Un(_, a) | E::Src(_, a, _) => Self::has_call(a),
            E::Bin(_, a, b) => Self::has_call(a) || Self::has_call(b),
            _ => false,
        }
    }

    fn item(&mut self, b: &Rc<Block>, i: usize, branch: bool) -> R<()> {
        match &b.items[i] {
            Item::Gather(l) => {
                self.gathered = true;
                if let Some(l) = l {
                    let (k, s) = self.top().pos.clone();
                    let path = [k.as_str(), s.as_str(), l.as_str()].iter().filter(|x| !x.is_empty()).cloned().collect::<Vec<_>>().join(".");
                    self.count(&path);
                }
            }
            Item::Group(cs) => {
                let last = i + 1 == b.items.len();
                let before = self.pending.len();
                for c in cs {
                    self.offer(c)?;
                }
                self.open_end |= self.pending.len() == before;
                if !(branch && last) {
                    // flow never runs on past a group of choices
                    self.top().ks.clear();
                }
            }
            Item::S(s) => self.stmt(s)?,
        }
        Ok(())
    }

    fn stmt(&mut self, s: &S) -> R<()> {
        match s {
            S::Comment(_) => {}
            S::Raw(_) => return Err(Fault::Ambiguous("raw".into())),
            S::Line { body, tags, tail } => {
                if let Flow::Divert(d) = self.inl(body)? {
                    return self.divert(&d);
                }
                if !tags.is_empty() && !body.is_empty() {
                    // the blank in front of the tag
                    self.text(" ");
                }
                self.tags(tags)?;
                if matches!(tail, Tail::None) && body.is_empty() {
                    return Ok(()); // a line of tags belongs to the next line
                }
                self.tail(tail, !body.is_empty())?;
            }
            S::Thread(d) => {
                self.labels_seen.insert("thread");
                let t = self.threads.last().unwrap().clone();
                let path = self.resolve(d)?;
                let ps = self.params_of(&path);
                let bound = self.args(&ps, &d.args)?;
                self.threads.push(t);
                if self.threads.len() > 30 {
                    return Err(Fault::Fuel);
                }
                self.goto_plain(&path)?;
                for (n, v) in bound {
                    self.top().temps.insert(n, v);
                }
            }
            S::TunnelRet(d) => self.tunnel_return(d.as_ref())?,
            S::Ret(e) => {
                let v = match e {
                    Some(e) => self.eval(e)?,
                    None => V::Void,
                };
                self.ret = Some(v);
            }
            S::Temp(n, e) => {
                let v = self.eval(e)?;
                if v == V::Void {
                    return err("assigning nothing");
                }
                self.top().temps.insert(n.clone(), v);
                if Self::has_call(e) {
                    self.newline();
                }
            }
            S::Assign(n, op, e) => {
                let p = self.p.clone();
                let v = match *op {
                    "=" => self.eval(e)?,
                    "++" | "--" => {
                        let x = self.lookup(n)?;
                        binary(&p.lists, if *op == "++" { "+" } else { "-" }, &x, &V::Int(1))?
                    }
                    o => {
                        let x = self.lookup(n)?;
                        let y = self.eval(e)?;
                        binary(&p.lists, &o[..1], &x, &y)?
                    }
                };
                self.assign(n, v)?;
                if Self::has_call(e) {
                    self.newline();
                }
            }
            S::Do(e) => {
                self.eval(e)?;
                self.newline();
            }
            S::Cond(br) => {
                for (c, b) in br {
                    let take = match c {
                        Some(c) => {
                            let v = self.eval(c)?;
                            truthy(&v)?
                        }
                        None => true,
                    };
                    if take {
                        return self.branch(Some(b));
                    }
                }
                self.branch(None)?;
            }
            S::Switch(e, br) => {
                let p = self.p.clone();
                let v = self.eval(e)?;
                for (c, b) in br {
                    let take = match c {
                        Some(c) => {
                            let x = self.eval(c)?;
                            truthy(&binary(&p.lists, "==", &v, &x)?)?
                        }
                        None => true,
                    };
                    if take {
                        return self.branch(Some(b));
                    }
                }
                self.branch(None)?;
            }
            S::SeqBlock(k, id, bs) => {
                let i = self.seq(*k, *id, bs.len());
                let b = i.map(|i| bs[i].clone());
                self.branch(b.as_ref())?;
            }
        }
        Ok(())
    }

    fn branch(&mut self, b: Option<&Rc<Block>>) -> R<()> {
        self.top().ks.push(K::Nl);
        if let Some(b) = b {
            self.newline();
            self.top().ks.push(K::Branch(b.clone(), 0));
        }
        Ok(())
    }

    // ---- choices ----
    fn string_tags(&mut self, v: &[In], tags: &[Vec<In>]) -> R<(String, Vec<String>)> {
        let s = self.string(v)?;
        let mut t = vec![];
        for x in tags {
            t.push(clean(&self.string(x)?));
        }
        Ok((s, t))
    }

    fn offer(&mut self, c: &Choice) -> R<()> {
        let mut text = String::new();
        let mut tags = vec![];
        if !c.fallback {
            let (s, t) = self.string_tags(&c.start, &c.start_tags)?;
            text.push_str(&s);
            tags.extend(t);
            if let Some(o) = &c.only {
                if !c.start_tags.is_empty() {
                    // `start # tag [only]`: the blank before the tag
                    text.push(' ');
                }
                let (s, t) = self.string_tags(o, &c.only_tags)?;
                text.push_str(&s);
                tags.extend(t);
            }
        }
        let mut ok = true;
        for e in &c.conds {
            let v = self.eval(e)?;
            ok &= truthy(&v)?;
        }
        if !c.sticky && self.choice_visits.get(&c.id).copied().unwrap_or(0) > 0 {
            ok = false;
            self.labels_seen.insert("once-only-spent");
        }
        if !ok {
            return Ok(());
        }
        let thread = self.threads.last().unwrap().clone();
        let path = self.choice_paths.get(&c.id).cloned();
        self.pending.push(MChoice { text: text.trim_matches([' ', '\t']).to_string(), tags, choice: c.clone(), thread, path });
        Ok(())
    }

    fn take(&mut self, c: MChoice) -> R<()> {
        self.threads = vec![c.thread];
        *self.choice_visits.entry(c.choice.id).or_insert(0) += 1;
        if let Some(p) = &c.path {
            self.count(p);
        }
        self.pending.clear();
        self.stopped = false;
        self.safe_exit = false;
        let ch = c.choice;
        let f = self.top();
        f.ks.push(K::Block(ch.body.clone(), 0));
        if ch.fallback {
            // `* ->` prints nothing itself
            match &ch.tail {
                Tail::None => self.newline(),
                t => self.tail(t, false)?,
            }
            return Ok(());
        }
        self.inl(&ch.start)?;
        if !ch.start.is_empty() && !ch.start_tags.is_empty() {
            self.text(" ");
        }
        self.tags(&ch.start_tags)?;
        if ch.only.is_some() {
            if let Flow::Divert(d) = self.inl(&ch.end)? {
                return self.divert(&d);
            }
        }
        if !ch.end_tags.is_empty() {
            self.text(" ");
        }
        self.tags(&ch.end_tags)?;
        let had = !ch.start.is_empty() || (ch.only.is_some() && !ch.end.is_empty());
        self.tail(&ch.tail, had)
    }

    pub fn choose(&mut self, i: usize) -> R<()> {
        let c = self.choices.remove(i);
        self.choices.clear();
        self.turn_index += 1;
        self.bufs = vec![Buf::default()];
        self.fuel = 20000;
        self.take(c)
    }

    /// host jump (`choose_path_string` with a call-stack reset)
    pub fn jump(&mut self, path: &str) -> R<()> {
        let pos = (String::new(), String::new());
        let f = self.frame(FK::Base, pos);
        self.threads = vec![Thread { frames: vec![f] }];
        self.choices.clear();
        self.pending.clear();
        self.turn_index += 1;
        self.stopped = false;
        self.safe_exit = false;
        self.ended = false;
        self.fuel = 20000;
        self.bufs = vec![Buf::default()];
        self.goto(path, &[])
    }

    pub fn is_ended(&self) -> bool {
        self.ended
    }

    /// Runs until the story stops for a choice or for good.
    pub fn run_turn(&mut self) -> R<Turn> {
        self.open_end = false;
        loop {
            while !self.stopped {
                self.step()?;
            }
            if !self.pending.is_empty() && self.pending.iter().all(|c| c.choice.fallback) {
                self.labels_seen.insert("fallback");
                let c = self.pending.remove(0);
                self.take(c)?;
                self.open_end = true;
                continue;
            }
            break;
        }
        let lines = render(&self.bufs[0].toks);
        let n = self.threads.len();
        let f = self.threads.last().unwrap().frames.last().unwrap();
        let root_done = n == 1 && f.kind == FK::Base && f.pos.0.is_empty();
        let status = if !self.pending.is_empty() {
            Status::Choices
        } else if self.safe_exit || root_done {
            Status::Done
        } else {
            Status::Fell
        };
        self.choices = std::mem::take(&mut self.pending).into_iter().filter(|c| !c.choice.fallback).collect();
        let either = (self.open_end || self.gathered) && status != Status::Choices;
        Ok(Turn { lines, status, either })
    }
}

/// collapses runs of blanks and trims
pub fn clean(s: &str) -> String {
    let mut o = String::new();
    let mut gap = false;
    for c in s.chars() {
        if c == ' ' || c == '\t' {
            gap = true;
        } else {
            if gap && !o.is_empty() {
                o.push(' ');
            }
            gap = false;
            o.push(c);
        }
    }
    o
}

fn render(toks: &[Tok]) -> Vec<MLine> {
    let mut lines = vec![];
    let (mut text, mut tags, mut tag) = (String::new(), vec![], None::<String>);
    for t in toks {
        match t {
            Tok::T(s) => match &mut tag {
                Some(t) => t.push_str(s),
                None => text.push_str(s),
            },
            Tok::BTag => tag = Some(String::new()),
            Tok::ETag => tags.push(clean(&tag.take().unwrap_or_default())),
            Tok::Nl(m) => {
                let l = MLine { text: clean(&text), tags: std::mem::take(&mut tags), nl: true, mark: Some(*m) };
                text.clear();
                lines.push(l);
            }
        }
    }
    let l = MLine { text: clean(&text), tags, nl: false, mark: None };
    if !l.text.is_empty() || !l.tags.is_empty() {
        lines.push(l);
    }
    lines
}
