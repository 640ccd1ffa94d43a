//! Program generator: well-typed, terminating programs of the Ink core.
//!
//! Termination by construction: diverts that are not behind a choice only go to
//! later units, tunnels and functions only call later tunnels / functions.
use super::ast::*;
use crate::tape::Tape;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Int,
    Bool,
    Str,
    Float,
    List,
    Target,
}

#[derive(Clone)]
pub struct Cfg {
    pub size: usize,
    pub max_knots: usize,
    pub choices: bool,
    pub threads: bool,
    pub tunnels: bool,
    pub functions: bool,
    pub lists: bool,
    pub floats: bool,
    pub seqs: bool,
    pub glue: bool,
    pub tags: bool,
    pub choice_tags: bool,
    pub conds: bool,
    pub temps: bool,
    pub divert_vars: bool,
    pub labels: bool,
    pub externals: usize,
    /// how many in ten externals have a fallback function
    pub ext_fallback: usize,
    pub ends: bool,
    /// names get this prefix, so several programs can be joined
    pub prefix: String,
    /// functions may change globals
    pub impure: bool,
    /// read counts / TURNS_SINCE / TURNS in expressions
    pub counts: bool,
    /// unicode and punctuation in text
    pub exotic: bool,
    /// diverts back to earlier units behind choices
    pub loops: bool,
    /// source snippets outside the reference interpreter's language; `@L` is a
    /// list name, `@V` a numeric global, `@K` a main knot
    pub raw_in: &'static [&'static str],
    pub raw_int: &'static [&'static str],
    pub raw_stmt: &'static [&'static str],
    /// items of different lists share values
    pub ties: bool,
    /// assignments only ever increase integer variables
    pub mono: bool,
    /// at least so many functions
    pub min_fns: usize,
    /// parameters of externals of all types
    pub ext_types: bool,
    /// no externals inside strings, choice texts and tags
    pub ext_quiet: bool,
    /// weight of external calls among statements
    pub ext_rate: usize,
    /// one in so many integer expressions reads a variable that is not there (0: none)
    pub missing: usize,
    /// one in so many integer expressions is an error (0: none)
    pub faults: usize,
    /// the root block becomes the knot `<prefix>main`
    pub root_knot: bool,
    /// TURNS and TURNS_SINCE
    pub turns: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            size: 30,
            max_knots: 4,
            choices: true,
            threads: true,
            tunnels: true,
            functions: true,
            lists: true,
            floats: true,
            seqs: true,
            glue: true,
            tags: true,
            choice_tags: true,
            conds: true,
            temps: true,
            divert_vars: true,
            labels: true,
            externals: 0,
            ext_fallback: 10,
            ends: true,
            prefix: String::new(),
            impure: true,
            counts: true,
            exotic: true,
            loops: true,
            raw_in: &[],
            raw_int: &[],
            raw_stmt: &[],
            ties: false,
            mono: false,
            min_fns: 0,
            ext_types: false,
            ext_quiet: false,
            ext_rate: 0,
            missing: 0,
            faults: 0,
            root_knot: false,
            turns: true,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Role {
    Main,
    Tunnel,
    Thread,
    Fn,
}

#[derive(Clone, Debug)]
pub struct Unit {
    pub path: String,
    pub role: Role,
    pub params: Vec<(String, PKind, Ty)>,
    pub ret: Option<Ty>,
    pub prints: bool,
    pub pure_: bool,
    knot: usize,
}

#[derive(Clone, Default)]
struct Scope {
    /// names readable here, by type
    vars: Vec<(String, Ty)>,
    temps: Vec<(String, Ty)>,
}

#[derive(Clone)]
struct Ctx {
    unit: usize,
    role: Role,
    depth: usize,
    /// the block may simply end: something outside continues
    can_fall: bool,
    in_cond: bool,
    scope: Scope,
}

pub struct Gen<'t> {
    pub t: &'t mut Tape,
    pub cfg: Cfg,
    pub p: Prog,
    pub units: Vec<Unit>,
    pub globals: Vec<(String, Ty)>,
    left: isize,
    next: usize,
    seq_id: usize,
    choice_id: usize,
    /// full paths whose counts may be read
    countable: Vec<String>,
    targets: Vec<String>,
    unit_prefix: String,
    used_thread: bool,
    lists_ready: bool,
    no_calls: bool,
    nest: usize,
    /// inside a string: no externals
    hush: bool,
    /// unit and name of variables that are read but never declared
    zz: Vec<(usize, String)>,
}

const WORDS: &[&str] = &["apple", "brook", "cloud", "dune", "ember", "fern", "grove", "hill", "iris", "jade"];
const EXOTIC: &[&str] = &["naïve", "日本", "ça", "it's", "well,", "so;", "(aside)", "50%", "a+b", "“quoted”", "Zoë", "é", "wait...", "why?", "no!"];

impl<'t> Gen<'t> {
    pub fn new(t: &'t mut Tape, cfg: Cfg) -> Gen<'t> {
        let left = cfg.size as isize;
        Gen {
            t,
            cfg,
            p: Prog::default(),
            units: vec![],
            globals: vec![],
            left,
            next: 0,
            seq_id: 0,
            choice_id: 0,
            countable: vec![],
            targets: vec![],
            unit_prefix: String::new(),
            used_thread: false,
            lists_ready: false,
            no_calls: false,
            nest: 0,
            hush: false,
            zz: vec![],
        }
    }

    fn name(&mut self, k: &str) -> String {
        self.next += 1;
        format!("{}{}{}", self.cfg.prefix, k, self.next)
    }

    fn words(&mut self, tag: &str) -> String {
        self.next += 1;
        let mut s = format!("{}{}{}", self.cfg.prefix, tag, self.next);
        for _ in 0..self.t.below(3) {
            s.push(' ');
            if self.cfg.exotic && self.t.chance(1, 8) {
                s.push_str(*self.t.pick(EXOTIC));
            } else {
                s.push_str(*self.t.pick(WORDS));
            }
        }
        s
    }

    // ---------- program ----------
    pub fn program(mut self) -> (Prog, Vec<Unit>, Vec<(String, Ty)>) {
        self.declare();
        let root_ends = self.t.chance(1, 3) || self.cfg.root_knot;
        let mut knots: Vec<Knot> = vec![];
        let units = self.units.clone();
        for (n, k) in self.p.externals.clone() {
            let lists = self.lists_ready;
            let params = (0..k)
                .map(|i| {
                    let ty = if self.cfg.ext_types { [Ty::Int, Ty::Str, Ty::Bool, Ty::Float, Ty::List][self.t.weighted(&[3, 2, 1, 1, if lists { 1 } else { 0 }])] } else { Ty::Int };
                    (format!("a{i}"), PKind::Val, ty)
                })
                .collect();
            self.units.push(Unit { path: n, role: Role::Fn, params, ret: Some(Ty::Int), prints: false, pure_: true, knot: usize::MAX });
        }
        // bodies of functions first, so their purity and text are known
        let mut bodies: Vec<Option<Rc<Block>>> = vec![None; units.len()];
        for (i, u) in units.iter().enumerate().rev() {
            if u.role == Role::Fn {
                bodies[i] = Some(self.function(i));
            }
        }
        // then the flow
        for (i, u) in units.iter().enumerate().rev() {
            if u.role != Role::Fn {
                bodies[i] = Some(self.unit_body(i));
            }
        }
        let root = {
            self.unit_prefix = if self.cfg.root_knot { format!("{}main.", self.cfg.prefix) } else { String::new() };
            let ctx = Ctx { unit: usize::MAX, role: Role::Main, depth: 0, can_fall: !root_ends, in_cond: false, scope: Scope { vars: self.globals.clone(), temps: vec![] } };
            self.left = self.left.max(self.cfg.size as isize / 3);
            Rc::new(self.block(&ctx))
        };
        // declared, but never run
        let zz = self.zz.clone();
        let declare = |unit: usize, b: Rc<Block>| {
            let temps: Vec<Item> = zz.iter().filter(|z| z.0 == unit).map(|z| Item::S(S::Temp(z.1.clone(), E::Int(0)))).collect();
            if temps.is_empty() {
                return b;
            }
            let mut items = vec![Item::S(S::Cond(vec![(Some(E::Bool(false)), Rc::new(Block { items: temps }))]))];
            items.extend(b.items.iter().cloned());
            Rc::new(Block { items })
        };
        if self.cfg.missing > 0 {
            for (i, b) in bodies.iter_mut().enumerate() {
                *b = b.take().map(|b| declare(i, b));
            }
        }
        let root = declare(usize::MAX, root);
        if self.cfg.root_knot {
            let name = format!("{}main", self.cfg.prefix);
            knots.push(Knot { name: name.clone(), params: vec![], is_fn: false, body: root, stitches: vec![] });
            let start = S::Line { body: vec![], tags: vec![], tail: Tail::Divert(Dest { to: Target::Path(name), args: vec![] }) };
            self.p.root = Rc::new(Block { items: vec![Item::S(start)] });
        } else {
            self.p.root = root;
        }
        let mk = |u: &Unit| u.params.iter().map(|(n, k, _)| Param { name: n.clone(), kind: *k }).collect::<Vec<_>>();
        for (i, u) in units.iter().enumerate() {
            if u.knot != i {
                continue;
            }
            let mut k = Knot { name: u.path.clone(), params: mk(u), is_fn: u.role == Role::Fn, body: bodies[i].take().unwrap(), stitches: vec![] };
            for (j, s) in units.iter().enumerate() {
                if s.knot == i && j != i {
                    k.stitches.push(Stitch { name: s.path.split('.').next_back().unwrap().to_string(), params: mk(s), body: bodies[j].take().unwrap() });
                }
            }
            knots.push(k);
        }
        for (n, k) in self.p.externals.clone() {
            if self.t.chance(self.cfg.ext_fallback, 10) {
                let mut b = Block::default();
                if self.t.chance(1, 4) {
                    let w = self.words("X");
                    b.items.push(Item::S(S::Line { body: vec![In::T(w)], tags: vec![], tail: Tail::None }));
                }
                let mut e = E::Int(self.t.below(9) as i32);
                let ints: Vec<bool> = self.units.iter().find(|u| u.path == n).unwrap().params.iter().map(|p| p.2 == Ty::Int).collect();
                for i in (0..k).filter(|i| ints[*i]) {
                    e = E::Bin(*self.t.pick(&["+", "-"]), Box::new(e), Box::new(E::Var(format!("a{i}"))));
                }
                // now and then it calls the function of its own name
                if k > 0 && ints[0] && self.t.chance(1, 4) {
                    let a = || Box::new(E::Var("a0".into()));
                    let stop = E::Bin("||", Box::new(E::Bin("<=", a(), Box::new(E::Int(0)))), Box::new(E::Bin(">", a(), Box::new(E::Int(3)))));
                    let ret = Block { items: vec![Item::S(S::Ret(Some(e.clone())))] };
                    b.items.push(Item::S(S::Cond(vec![(Some(stop), Rc::new(ret))])));
                    let mut args: Vec<E> = (0..k).map(|i| E::Var(format!("a{i}"))).collect();
                    args[0] = E::Bin("-", a(), Box::new(E::Int(1)));
                    e = E::Bin("+", Box::new(E::Int(1)), Box::new(E::Call(n.clone(), args)));
                }
                b.items.push(Item::S(S::Ret(Some(e))));
                let params = (0..k).map(|i| Param { name: format!("a{i}"), kind: PKind::Val }).collect();
                knots.push(Knot { name: n, params, is_fn: true, body: Rc::new(b), stitches: vec![] });
            }
        }
        if self.cfg.missing > 0 {
            self.p.vars.push(("zzv".into(), E::Target("zzgone".into())));
            let end = S::Line { body: vec![], tags: vec![], tail: Tail::Divert(Dest { to: Target::End, args: vec![] }) };
            knots.push(Knot { name: "zzgone".into(), params: vec![], is_fn: false, body: Rc::new(Block { items: vec![Item::S(end)] }), stitches: vec![] });
        }
        self.p.knots = knots;
        let units = self.units.clone();
        (self.p, units, self.globals)
    }

    fn declare(&mut self) {
        if self.cfg.lists && self.t.chance(1, 2) {
            let n = self.t.range(1, 2);
            let mut v = 1;
            for _ in 0..n {
                let name = self.name("Lst");
                let k = self.t.range(1, 4);
                let mut items = vec![];
                for _ in 0..k {
                    let it = self.name("it");
                    if self.t.chance(1, 5) {
                        v += self.t.range(1, 3) as i32;
                    }
                    items.push((it, v, self.t.chance(1, 2)));
                    v += 1;
                }
                self.p.lists.push(ListDef { name: name.clone(), items });
                self.globals.push((name, Ty::List));
                v = if self.cfg.ties { 1 } else { v + 5 };
            }
            self.lists_ready = true;
        }
        if self.t.chance(1, 4) {
            let n = self.name("CON");
            let v = self.t.range(0, 20) as i32;
            self.p.consts.push((n.clone(), E::Int(v)));
        }
        let nv = self.t.range(1, 4);
        for _ in 0..nv {
            let mut w = vec![5, 2, 2];
            w.push(if self.cfg.floats { 1 } else { 0 });
            w.push(if self.lists_ready { 2 } else { 0 });
            let (ty, e) = match self.t.weighted(&w) {
                0 => (Ty::Int, E::Int(self.t.below(10) as i32 - 2)),
                1 => (Ty::Bool, E::Bool(self.t.chance(1, 2))),
                2 => (Ty::Str, E::Str(vec![In::T(self.words("s"))])),
                3 => (Ty::Float, E::Float(self.t.range(1, 20) as f32 * 0.25)),
                _ => (Ty::List, self.list_lit()),
            };
            let n = self.name("v");
            self.p.vars.push((n.clone(), e));
            self.globals.push((n, ty));
        }
        for _ in 0..self.cfg.externals {
            let n = self.name("ext");
            let k = self.t.below(3);
            self.p.externals.push((n, k));
        }
        if self.cfg.tags && self.t.chance(1, 6) {
            self.p.global_tags.push(format!("gtag {}", self.t.below(9)));
        }
        let nk = self.t.range(0, self.cfg.max_knots) + self.cfg.min_fns;
        for i in 0..nk {
            let mut w = vec![6];
            w.push(if self.cfg.tunnels { 3 } else { 0 });
            w.push(if self.cfg.threads { 2 } else { 0 });
            w.push(if self.cfg.functions { 4 } else { 0 });
            let role = [Role::Main, Role::Tunnel, Role::Thread, Role::Fn][self.t.weighted(&w)];
            let role = if i + self.cfg.min_fns >= nk { Role::Fn } else { role };
            let path = self.name(match role {
                Role::Main => "kn",
                Role::Tunnel => "tun",
                Role::Thread => "thr",
                Role::Fn => "fn",
            });
            let mut params = vec![];
            if self.t.chance(1, 3) || role == Role::Fn {
                for _ in 0..self.t.range(0, 2) {
                    let ty = match self.t.weighted(&[4, 2, 1]) {
                        0 => Ty::Int,
                        1 => Ty::Str,
                        _ => Ty::Bool,
                    };
                    let kind = if role == Role::Fn && ty == Ty::Int && self.cfg.impure && self.t.chance(1, 3) { PKind::Ref } else { PKind::Val };
                    params.push((self.name("p"), kind, ty));
                }
                if role == Role::Tunnel && self.cfg.divert_vars && self.t.chance(1, 4) {
                    params.push((self.name("d"), PKind::Divert, Ty::Target));
                }
            }
            let ret = if role == Role::Fn {
                match self.t.weighted(&[4, 2, 2, 2]) {
                    0 => Some(Ty::Int),
                    1 => Some(Ty::Str),
                    2 => Some(Ty::Bool),
                    _ => None,
                }
            } else {
                None
            };
            let id = self.units.len();
            let prints = role == Role::Fn && self.t.chance(1, 3);
            let pure_ = role == Role::Fn && !(self.cfg.impure && self.t.chance(1, 2)) && !params.iter().any(|p| p.1 == PKind::Ref);
            self.units.push(Unit { path: path.clone(), role, params, ret, prints, pure_, knot: id });
            if role == Role::Main && self.t.chance(1, 4) {
                for _ in 0..self.t.range(1, 2) {
                    let s = self.name("st");
                    self.units.push(Unit { path: format!("{}.{}", path, s), role, params: vec![], ret: None, prints: false, pure_: false, knot: id });
                }
            }
        }
        for u in &self.units {
            if u.role != Role::Fn {
                self.countable.push(u.path.clone());
            }
        }
        if self.cfg.divert_vars {
            let ts: Vec<String> = self.units.iter().filter(|u| u.role == Role::Main && u.params.is_empty()).map(|u| u.path.clone()).collect();
            if !ts.is_empty() && self.t.chance(1, 4) {
                // the variable always holds the last unit, so a divert through it goes forward
                let n = self.name("dv");
                let last = ts.last().unwrap().clone();
                self.p.vars.push((n.clone(), E::Target(last)));
                self.globals.push((n, Ty::Target));
            }
        }
    }

    fn list_lit(&mut self) -> E {
        let mut v = vec![];
        for d in self.p.lists.clone() {
            for (n, _, _) in &d.items {
                if self.t.chance(1, 3) {
                    v.push((d.name.clone(), n.clone()));
                }
            }
        }
        E::List(v)
    }

    // ---------- units ----------
    fn scope_of(&self, u: &Unit) -> Scope {
        let mut s = Scope { vars: self.globals.clone(), temps: vec![] };
        for (n, _, ty) in &u.params {
            s.temps.push((n.clone(), *ty));
        }
        s
    }

    fn function(&mut self, i: usize) -> Rc<Block> {
        let u = self.units[i].clone();
        let mut ctx = Ctx { unit: i, role: Role::Fn, depth: 0, can_fall: true, in_cond: false, scope: self.scope_of(&u) };
        let mut b = Block::default();
        for _ in 0..self.t.below(3) {
            let s = self.fn_stmt(&mut ctx, &u);
            b.items.extend(s.into_iter().map(Item::S));
        }
        if u.prints {
            for _ in 0..[1, 2, 3][self.t.weighted(&[6, 2, 1])] {
                let w = self.words("F");
                let mut body = vec![In::T(w)];
                if self.t.chance(1, 3) {
                    body.push(In::T(" ".into()));
                    body.push(In::E(self.expr(&ctx, Ty::Int, 1)));
                } else if self.cfg.conds && self.t.chance(1, 4) {
                    let c = self.expr(&ctx, Ty::Bool, 1);
                    let (x, y) = (self.words("F"), self.words("F"));
                    let w = self.words("F");
                    body = vec![In::T(format!("{w} "))];
                    if self.t.chance(1, 2) {
                        // a blank of its own, which ends the text if nothing follows
                        body = vec![In::T(w), In::E(self.expr(&ctx, Ty::Int, 0)), In::T(" ".into())];
                    }
                    body.push(In::Cond(c, vec![In::T(x)], if self.t.chance(1, 2) { Some(vec![In::T(y)]) } else { None }));
                }
                b.items.push(Item::S(S::Line { body, tags: vec![], tail: Tail::None }));
            }
        }
        if let Some(ty) = u.ret {
            if self.cfg.conds && self.t.chance(1, 3) {
                let c = self.expr(&ctx, Ty::Bool, 1);
                let x = self.expr(&ctx, ty, 1);
                let blk = Rc::new(Block { items: vec![Item::S(S::Ret(Some(x)))] });
                b.items.push(Item::S(S::Cond(vec![(Some(c), blk)])));
            }
            let x = self.expr(&ctx, ty, 2);
            b.items.push(Item::S(S::Ret(Some(x))));
        } else if b.items.is_empty() {
            if u.pure_ || self.globals.iter().all(|g| g.1 != Ty::Int) {
                let n = self.name("t");
                b.items.push(Item::S(S::Temp(n, E::Int(1))));
            } else {
                let n = self.globals.iter().find(|g| g.1 == Ty::Int).unwrap().0.clone();
                b.items.push(Item::S(S::Assign(n, "+=", E::Int(1))));
            }
        }
        Rc::new(b)
    }

    fn fn_stmt(&mut self, ctx: &mut Ctx, u: &Unit) -> Vec<S> {
        match self.t.weighted(&[4, if self.cfg.temps { 2 } else { 0 }, if self.cfg.conds { 1 } else { 0 }]) {
            0 => {
                let refs: Vec<String> = u.params.iter().filter(|p| p.1 == PKind::Ref).map(|p| p.0.clone()).collect();
                if !refs.is_empty() {
                    let n = self.t.pick(&refs).clone();
                    if self.cfg.mono {
                        return vec![S::Assign(n, "+=", E::Int(1))];
                    }
                    let e = self.expr(ctx, Ty::Int, 1);
                    vec![S::Assign(n, *self.t.pick(&["=", "+="]), e)]
                } else if !u.pure_ {
                    self.assign(ctx, false)
                } else {
                    vec![]
                }
            }
            1 => vec![self.temp(ctx)],
            _ => {
                let c = self.expr(ctx, Ty::Bool, 1);
                let mut sub = ctx.clone();
                let s = self.fn_stmt_flat(&mut sub, u);
                if s.is_empty() { vec![] } else { vec![S::Cond(vec![(Some(c), Rc::new(Block { items: s.into_iter().map(Item::S).collect() }))])] }
            }
        }
    }

    fn fn_stmt_flat(&mut self, ctx: &mut Ctx, u: &Unit) -> Vec<S> {
        if u.pure_ { vec![] } else { self.assign(ctx, false) }
    }

    fn unit_body(&mut self, i: usize) -> Rc<Block> {
        let u = self.units[i].clone();
        // a knot with stitches may have no content of its own
        if u.knot == i && u.params.is_empty() && self.units.iter().any(|s| s.knot == i && s.path != u.path) && self.t.chance(1, 3) {
            return Rc::new(Block::default());
        }
        self.unit_prefix = format!("{}.", u.path);
        let ctx = Ctx { unit: i, role: u.role, depth: 0, can_fall: u.role == Role::Thread, in_cond: false, scope: self.scope_of(&u) };
        self.left = self.left.max(self.cfg.size as isize / 6);
        let mut b = self.block(&ctx);
        if let Some(v) = self.echo(&ctx, &u.path) {
            for (k, x) in v.into_iter().enumerate() {
                b.items.insert(k, Item::S(x));
            }
        }
        if u.role == Role::Tunnel && self.t.chance(1, 5) {
            // start with a line, so that the tunnel has text
            let l = self.line(&ctx);
            b.items.insert(0, Item::S(l));
        }
        Rc::new(b)
    }

    /// a unit that notes how often or how long ago it was reached and joins the
    /// note to the line before it, so the counting is done while looking ahead
    fn echo(&mut self, ctx: &Ctx, path: &str) -> Option<Vec<S>> {
        let ints: Vec<String> = self.globals.iter().filter(|g| g.1 == Ty::Int).map(|g| g.0.clone()).collect();
        if !self.cfg.glue || !self.cfg.counts || !self.cfg.turns || self.cfg.mono || ctx.role != Role::Main || ints.is_empty() || !self.t.chance(1, 4) {
            return None;
        }
        let v = self.t.pick(&ints).clone();
        let mut what = vec![path.to_string()];
        what.extend(self.countable.iter().cloned());
        let c = if self.t.chance(1, 2) { path.to_string() } else { self.t.pick(&what).clone() };
        let e = match self.t.weighted(&[3, 2, 1]) {
            0 => E::TurnsSince(c),
            1 => E::Read(c),
            _ => E::Builtin("TURNS", vec![]),
        };
        let w = self.words("G");
        let body = vec![In::Glue, In::T(format!(" {w} ")), In::E(E::Var(v.clone()))];
        Some(vec![S::Assign(v, "=", e), S::Line { body, tags: vec![], tail: Tail::None }])
    }

    // ---------- blocks ----------
    fn block(&mut self, ctx: &Ctx) -> Block {
        let mut ctx = ctx.clone();
        let mut b = Block::default();
        let want_fall = ctx.can_fall;
        // stitches and knots always start with a line: no choice is ever their first element
        if ctx.depth == 0 {
            let l = self.line(&ctx);
            b.items.push(Item::S(l));
        }
        let mut groups = 0;
        loop {
            let n = self.t.below(3);
            for _ in 0..n {
                if self.left <= 0 {
                    break;
                }
                let s = self.stmt(&mut ctx);
                b.items.extend(s);
            }
            let more = self.cfg.choices && self.left > 0 && groups < 2 && ctx.depth < 3 && !ctx.in_cond && self.t.chance(if ctx.depth == 0 { 2 } else { 1 }, 3);
            if !more {
                break;
            }
            groups += 1;
            let gather = self.t.chance(2, 3);
            let g = self.group(&ctx, gather);
            b.items.push(Item::Group(g));
            if !gather {
                return b;
            }
            let label = if self.cfg.labels && self.t.chance(1, 3) { Some(self.label()) } else { None };
            b.items.push(Item::Gather(label));
            // a gather is never left without content
            let l = self.line(&ctx);
            b.items.push(Item::S(l));
        }
        if !want_fall || (self.cfg.loops && self.t.chance(1, 6)) {
            self.terminate(&mut b, &ctx);
        }
        if b.items.is_empty() && ctx.depth > 0 && self.t.chance(1, 2) {
            let l = self.line(&ctx);
            b.items.push(Item::S(l));
        }
        b
    }

    fn label(&mut self) -> String {
        let l = self.name("lb");
        let full = format!("{}{}", self.unit_prefix, l);
        self.countable.push(full);
        l
    }

    /// ends a block for good
    fn terminate(&mut self, b: &mut Block, ctx: &Ctx) {
        let with_text = self.t.chance(1, 3);
        let body = if with_text { vec![In::T(self.words("T"))] } else { vec![] };
        let tail = match ctx.role {
            Role::Tunnel if ctx.depth == 0 || self.t.chance(2, 3) => {
                if self.t.chance(1, 6)
                    && let Some(d) = self.forward_dest(ctx)
                    && d.args.is_empty()
                {
                    b.items.push(Item::S(S::TunnelRet(Some(d))));
                    return;
                }
                if !with_text {
                    b.items.push(Item::S(S::TunnelRet(None)));
                    return;
                }
                Tail::TunnelReturn
            }
            Role::Thread => Tail::Divert(Dest { to: Target::Done, args: vec![] }),
            _ => {
                let d = if ctx.depth > 0 && self.cfg.loops && !ctx.in_cond && self.t.chance(1, 2) { self.any_dest(ctx) } else { self.forward_dest(ctx) };
                match d {
                    Some(d) => Tail::Divert(d),
                    None => Tail::Divert(Dest { to: if self.cfg.ends && self.t.chance(1, 2) { Target::End } else { Target::Done }, args: vec![] }),
                }
            }
        };
        b.items.push(Item::S(S::Line { body, tags: vec![], tail }));
    }

    fn dest_to(&mut self, ctx: &Ctx, i: usize) -> Dest {
        let u = self.units[i].clone();
        let mut args = vec![];
        for (_, k, ty) in &u.params {
            args.push(match k {
                PKind::Divert => {
                    let ts: Vec<String> = self.units.iter().filter(|v| v.role == Role::Main && v.params.is_empty()).map(|v| v.path.clone()).collect();
                    match ts.last() {
                        Some(t) => E::Target(t.clone()),
                        None => E::Target(u.path.clone()),
                    }
                }
                _ => self.expr(ctx, *ty, 1),
            });
        }
        Dest { to: Target::Path(u.path.clone()), args }
    }

    /// a later main unit
    fn forward_dest(&mut self, ctx: &Ctx) -> Option<Dest> {
        let from = if ctx.unit == usize::MAX { 0 } else { ctx.unit + 1 };
        let from = if ctx.role == Role::Main { from } else { 0 };
        let c: Vec<usize> = (from..self.units.len()).filter(|i| self.units[*i].role == Role::Main).collect();
        if c.is_empty() || self.t.chance(1, 4) {
            return None;
        }
        let i = *self.t.pick(&c);
        Some(self.dest_to(ctx, i))
    }

    /// any main unit; only behind a choice
    fn any_dest(&mut self, ctx: &Ctx) -> Option<Dest> {
        let c: Vec<usize> = (0..self.units.len()).filter(|i| self.units[*i].role == Role::Main).collect();
        let targets: Vec<String> = self.targets.clone();
        if !targets.is_empty() && self.t.chance(1, 4) {
            let t = self.t.pick(&targets).clone();
            return Some(Dest { to: Target::Path(t), args: vec![] });
        }
        if c.is_empty() {
            return None;
        }
        let i = *self.t.pick(&c);
        Some(self.dest_to(ctx, i))
    }

    fn group(&mut self, ctx: &Ctx, gather: bool) -> Vec<Choice> {
        let n = self.t.range(1, 3);
        let mut v = vec![];
        let mut sub = ctx.clone();
        sub.depth += 1;
        sub.can_fall = gather || ctx.can_fall;
        for _ in 0..n {
            let c = self.choice(&sub, ctx);
            v.push(c);
        }
        let safe = v.iter().any(|c| c.sticky && c.conds.is_empty());
        if !safe && self.t.chance(5, 6) {
            if self.t.chance(1, 2) {
                v[n - 1].sticky = true;
                v[n - 1].conds.clear();
            } else {
                self.choice_id += 1;
                // fallbacks are followed without the player: only forward from here
                let mut fb = sub.clone();
                fb.in_cond = true;
                let tail = if sub.can_fall && self.t.chance(1, 2) {
                    Tail::None
                } else {
                    match (ctx.role, self.forward_dest(ctx)) {
                        (Role::Main, Some(d)) => Tail::Divert(d),
                        _ => Tail::Divert(Dest { to: Target::Done, args: vec![] }),
                    }
                };
                let mut body = Block::default();
                if matches!(tail, Tail::None) {
                    // `* ->` with a body
                    let l = self.line(&fb);
                    body.items.push(Item::S(l));
                }
                v.push(Choice {
                    id: self.choice_id,
                    sticky: self.t.chance(3, 4),
                    label: None,
                    conds: vec![],
                    start: vec![],
                    only: None,
                    end: vec![],
                    start_tags: vec![],
                    only_tags: vec![],
                    end_tags: vec![],
                    tail,
                    body: Rc::new(body),
                    fallback: true,
                });
            }
        }
        v
    }

    fn choice_text(&mut self, ctx: &Ctx, tag: &str) -> Vec<In> {
        let hush = self.hush;
        self.hush |= self.cfg.ext_quiet;
        let v = self.choice_text2(ctx, tag);
        self.hush = hush;
        v
    }

    fn choice_text2(&mut self, ctx: &Ctx, tag: &str) -> Vec<In> {
        let mut v = vec![In::T(self.words(tag))];
        match self.t.weighted(&[6, 1, if self.cfg.seqs { 1 } else { 0 }]) {
            1 => {
                v.push(In::T(" ".into()));
                v.push(In::E(self.quiet_expr(ctx, Ty::Int, 1)));
            }
            2 => {
                v.push(In::T(" ".into()));
                let s = self.inline_seq(ctx, false);
                v.push(s);
            }
            _ => {}
        }
        v
    }

    /// shown twice: its alternatives would be compiled twice (known finding), so none here
    fn start_text(&mut self, ctx: &Ctx) -> Vec<In> {
        let save = std::mem::replace(&mut self.cfg.seqs, false);
        let v = self.choice_text(ctx, "C");
        self.cfg.seqs = save;
        v
    }

    fn quiet_expr(&mut self, ctx: &Ctx, ty: Ty, d: usize) -> E {
        self.expr(ctx, ty, d)
    }

    fn tag(&mut self, ctx: &Ctx) -> Vec<In> {
        let mut v = vec![In::T(self.words("t"))];
        if self.t.chance(1, 6) {
            v.push(In::T(" ".into()));
            v.push(In::E(self.expr(ctx, Ty::Int, 0)));
        }
        v
    }

    fn choice(&mut self, sub: &Ctx, ctx: &Ctx) -> Choice {
        self.left -= 1;
        self.choice_id += 1;
        let id = self.choice_id;
        let sticky = self.t.chance(1, 3);
        let label = if self.cfg.labels && self.t.chance(1, 6) { Some(self.label()) } else { None };
        let mut conds = vec![];
        if self.t.chance(1, 4) {
            for _ in 0..self.t.range(1, 2) {
                conds.push(self.quiet_expr(ctx, Ty::Bool, 1));
            }
        }
        let (mut start, mut only, mut end) = (vec![], None, vec![]);
        match self.t.weighted(&[4, 2, 2, 2]) {
            0 => start = self.start_text(ctx),
            1 => only = Some(self.choice_text(ctx, "O")),
            2 => {
                only = Some(self.choice_text(ctx, "O"));
                end = self.choice_text(ctx, "E");
            }
            _ => {
                start = self.start_text(ctx);
                if self.t.chance(3, 4) {
                    start.push(In::T(" ".into()));
                }
                let o = self.choice_text(ctx, "O");
                // sometimes the rest of a word: `Get[ out]ting`
                end = if self.t.chance(1, 4) { vec![] } else { vec![In::T(" ".into())] };
                end.extend(self.choice_text(ctx, "E"));
                only = Some(o);
            }
        }
        let (mut st, mut ot, mut et) = (vec![], vec![], vec![]);
        if self.cfg.choice_tags && self.t.chance(1, 6) {
            let two = |g: &mut Self| {
                let n = if g.t.chance(1, 3) { 2 } else { 1 };
                (0..n).map(|_| g.tag(ctx)).collect::<Vec<_>>()
            };
            match (start.is_empty(), &only) {
                (false, None) => st = two(self),
                (true, Some(_)) => {
                    if self.t.chance(1, 2) || end.is_empty() {
                        ot = two(self);
                    } else {
                        et = two(self);
                    }
                }
                (false, Some(_)) => {
                    if self.t.chance(1, 2) {
                        ot = two(self);
                    }
                    if !end.is_empty() && self.t.chance(1, 2) {
                        et = two(self);
                    }
                    if self.t.chance(1, 2) {
                        st = two(self);
                        if matches!(start.last(), Some(In::T(x)) if x == " ") {
                            start.pop();
                        }
                    }
                }
                _ => {}
            }
        }
        let mut tail = Tail::None;
        let mut body = Block::default();
        let plain = st.is_empty() && ot.is_empty() && et.is_empty();
        if plain && self.t.chance(1, 4) {
            let d = if sub.role == Role::Main || sub.role == Role::Thread { if self.cfg.loops { self.any_dest(ctx) } else { self.forward_dest(ctx) } } else { None };
            if let Some(d) = d {
                tail = Tail::Divert(d);
            }
        }
        if matches!(tail, Tail::None) {
            body = self.block(sub);
        }
        Choice { id, sticky, label, conds, start, only, end, start_tags: st, only_tags: ot, end_tags: et, tail, body: Rc::new(body), fallback: false }
    }

    // ---------- statements ----------
    fn line(&mut self, ctx: &Ctx) -> S {
        self.left -= 1;
        let mut body = vec![];
        if self.cfg.glue && self.t.chance(1, 14) {
            body.push(In::Glue);
        }
        let inlines = self.t.weighted(&[6, 3, 1]);
        // sometimes the line starts with a `{...}`
        let mut bare = inlines > 0 && self.t.chance(1, 6);
        if !bare {
            body.push(In::T(self.words("L")));
        }
        for _ in 0..inlines {
            let x = self.inline(ctx);
            // no text run ends in a blank before a line end
            if !std::mem::take(&mut bare) && !self.t.chance(1, 6) {
                body.push(In::T(" ".into()));
            }
            body.push(x);
            if self.t.chance(1, 3) {
                let w = self.words("x");
                body.push(In::T(if self.t.chance(1, 4) { w } else { format!(" {}", w) }));
            }
        }
        if self.cfg.glue && self.t.chance(1, 12) {
            body.push(In::Glue);
            return S::Line { body, tags: vec![], tail: Tail::None };
        }
        let mut tags = vec![];
        if self.cfg.tags && ctx.role != Role::Fn && self.t.chance(1, 8) {
            for _ in 0..self.t.range(1, 2) {
                tags.push(self.tag(ctx));
            }
        }
        S::Line { body, tags, tail: Tail::None }
    }

    fn inline(&mut self, ctx: &Ctx) -> In {
        self.nest += 1;
        let r = match self.t.weighted(&[4, if self.cfg.conds { 2 } else { 0 }, if self.cfg.seqs { 2 } else { 0 }, if self.cfg.raw_in.is_empty() { 0 } else { 3 }]) {
            0 => {
                let ty = self.show_ty();
                In::E(self.expr_print(ctx, ty, 2))
            }
            1 => {
                let c = self.expr(ctx, Ty::Bool, 1);
                let y = self.branch_text(ctx);
                let n = if self.t.chance(1, 2) { Some(self.branch_text(ctx)) } else { None };
                In::Cond(c, y, n)
            }
            2 => self.inline_seq(ctx, true),
            _ => match self.raw(self.cfg.raw_in) {
                Some(s) => In::E(E::Raw(s)),
                None => self.inline_seq(ctx, true),
            },
        };
        self.nest -= 1;
        r
    }

    /// a raw snippet with its placeholders filled in
    fn raw(&mut self, from: &'static [&'static str]) -> Option<String> {
        let mut s = self.t.pick(from).to_string();
        while s.contains("@L") {
            if self.p.lists.is_empty() {
                return None;
            }
            let n = self.p.lists[self.t.below(self.p.lists.len())].name.clone();
            s = s.replacen("@L", &n, 1);
        }
        while s.contains("@V") {
            let v: Vec<String> = self.globals.iter().filter(|g| g.1 == Ty::Int).map(|g| g.0.clone()).collect();
            if v.is_empty() {
                return None;
            }
            let n = self.t.pick(&v).clone();
            s = s.replacen("@V", &n, 1);
        }
        while s.contains("@K") {
            let v: Vec<String> = self.units.iter().filter(|u| u.role == Role::Main && u.params.is_empty()).map(|u| u.path.clone()).collect();
            if v.is_empty() {
                return None;
            }
            let n = self.t.pick(&v).clone();
            s = s.replacen("@K", &n, 1);
        }
        Some(s)
    }

    fn show_ty(&mut self) -> Ty {
        let f = if self.cfg.floats { 1 } else { 0 };
        let l = if self.lists_ready { 2 } else { 0 };
        [Ty::Int, Ty::Str, Ty::Bool, Ty::Float, Ty::List][self.t.weighted(&[4, 2, 1, f, l])]
    }

    fn branch_text(&mut self, ctx: &Ctx) -> Vec<In> {
        let mut v = vec![In::T(self.words("b"))];
        if self.t.chance(1, 12) {
            v.insert(0, In::T(" ".into()));
        }
        if self.nest < 3 && self.t.chance(1, 5) {
            v.push(In::T(" ".into()));
            let x = self.inline(ctx);
            v.push(x);
        }
        if self.t.chance(1, 8) {
            v.push(In::T(" ".into()));
        }
        v
    }

    fn inline_seq(&mut self, ctx: &Ctx, nested: bool) -> In {
        self.seq_id += 1;
        let id = self.seq_id;
        let k = *self.t.pick(&[SeqKind::Stopping, SeqKind::Cycle, SeqKind::Once]);
        let n = self.t.range(2, 3);
        let mut items = vec![];
        for _ in 0..n {
            let x = if nested && self.t.chance(1, 10) { vec![] } else if nested { self.branch_text(ctx) } else { vec![In::T(self.words("q"))] };
            items.push(x);
        }
        In::Seq(k, id, items)
    }

    fn assign(&mut self, ctx: &mut Ctx, calls: bool) -> Vec<S> {
        let mut cand: Vec<(String, Ty)> = ctx.scope.vars.iter().chain(ctx.scope.temps.iter()).cloned().collect();
        cand.retain(|(_, t)| *t != Ty::Target && (!self.cfg.mono || *t == Ty::Int));
        if ctx.role == Role::Fn {
            // value parameters stay as they are; temporaries are fine
            let u = self.units[ctx.unit].clone();
            cand.retain(|(n, _)| !u.params.iter().any(|p| p.0 == *n));
            if u.pure_ {
                cand.retain(|(n, _)| !self.globals.iter().any(|g| g.0 == *n));
            }
        }
        if cand.is_empty() {
            return vec![];
        }
        let (n, ty) = self.t.pick(&cand).clone();
        // a function that prints, called inside a larger expression
        if calls && self.cfg.functions && !self.cfg.mono && ctx.role != Role::Fn && self.t.chance(1, 6) {
            let c: Vec<usize> = (0..self.units.len()).filter(|i| self.units[*i].role == Role::Fn && self.units[*i].ret == Some(ty) && self.units[*i].prints).collect();
            if !c.is_empty() && matches!(ty, Ty::Int | Ty::Str) {
                let i = *self.t.pick(&c);
                if let Some(e) = self.call(ctx, i) {
                    let k = if ty == Ty::Int { E::Int(self.t.below(9) as i32) } else { E::Str(vec![In::T(self.words("s"))]) };
                    let e = if self.t.chance(2, 3) { E::Bin("+", Box::new(k), Box::new(e)) } else { e };
                    let op = if ty == Ty::Int { *self.t.pick(&["=", "+=", "-="]) } else { "=" };
                    return vec![S::Assign(n, op, e)];
                }
            }
        }
        let save = self.no_calls;
        self.no_calls = !calls && self.no_calls;
        let s = match ty {
            Ty::Int if self.cfg.mono => match self.t.below(2) {
                0 => S::Assign(n, "+=", E::Int(self.t.range(1, 3) as i32)),
                _ => S::Assign(n, "++", E::Int(1)),
            },
            Ty::Int => match self.t.weighted(&[3, 2, 1, 1, 1]) {
                0 => S::Assign(n, "=", self.expr(ctx, ty, 2)),
                1 => S::Assign(n, "+=", self.expr(ctx, ty, 1)),
                2 => S::Assign(n, "-=", self.expr(ctx, ty, 1)),
                3 => S::Assign(n, "++", E::Int(1)),
                _ => S::Assign(n, "--", E::Int(1)),
            },
            Ty::List => match self.t.weighted(&[2, 3, 2]) {
                0 => S::Assign(n, "=", self.expr(ctx, ty, 1)),
                1 => S::Assign(n, "+=", self.list_lit()),
                _ => S::Assign(n, "-=", self.list_lit()),
            },
            Ty::Str if self.t.chance(1, 4) => S::Assign(n, "=", E::Str(vec![In::T(self.words("s"))])),
            _ => S::Assign(n, "=", self.expr(ctx, ty, 1)),
        };
        self.no_calls = save;
        vec![s]
    }

    fn temp(&mut self, ctx: &mut Ctx) -> S {
        let ty = match self.t.weighted(&[4, 2, 1]) {
            0 => Ty::Int,
            1 => Ty::Str,
            _ => Ty::Bool,
        };
        let e = self.expr(ctx, ty, 1);
        let n = self.name("tmp");
        ctx.scope.temps.push((n.clone(), ty));
        S::Temp(n, e)
    }

    fn stmt(&mut self, ctx: &mut Ctx) -> Vec<Item> {
        let c = &self.cfg;
        let flow = !ctx.in_cond;
        let w = [
            10,
            5,
            if c.temps && flow { 2 } else { 0 },
            if c.conds && self.nest < 2 { 3 } else { 0 },
            if c.seqs && self.nest < 2 { 2 } else { 0 },
            if c.tunnels { 3 } else { 0 },
            if c.threads && !ctx.in_cond && ctx.role == Role::Main { 2 } else { 0 },
            if c.functions { 2 } else { 0 },
            if c.tags { 1 } else { 0 },
            if flow { 1 } else { 0 },
            1,
            if c.raw_stmt.is_empty() { 0 } else { 4 },
            c.ext_rate,
        ];
        match self.t.weighted(&w) {
            0 => vec![Item::S(self.line(ctx))],
            1 => self.assign(ctx, true).into_iter().map(Item::S).collect(),
            2 => vec![Item::S(self.temp(ctx))],
            3 => vec![Item::S(self.cond(ctx))],
            4 => {
                self.seq_id += 1;
                let id = self.seq_id;
                let k = *self.t.pick(&[SeqKind::Stopping, SeqKind::Cycle, SeqKind::Once]);
                let n = self.t.range(1, 3);
                let mut bs = vec![];
                for _ in 0..n {
                    bs.push(self.branch(ctx));
                }
                vec![Item::S(S::SeqBlock(k, id, bs))]
            }
            5 => self.tunnel(ctx),
            6 => {
                let c: Vec<usize> = (0..self.units.len()).filter(|i| self.units[*i].role == Role::Thread).collect();
                if c.is_empty() {
                    return vec![];
                }
                self.used_thread = true;
                let i = *self.t.pick(&c);
                let d = self.dest_to(ctx, i);
                vec![Item::S(S::Thread(d))]
            }
            7 => {
                let min = if ctx.role == Role::Fn { ctx.unit + 1 } else { 0 };
                let c: Vec<usize> = (min..self.units.len()).filter(|i| self.units[*i].role == Role::Fn).collect();
                if c.is_empty() {
                    return vec![];
                }
                let i = *self.t.pick(&c);
                match self.call(ctx, i) {
                    Some(e) => vec![Item::S(S::Do(e))],
                    None => vec![],
                }
            }
            8 => {
                let t = self.tag(ctx);
                let mut v = vec![Item::S(S::Line { body: vec![], tags: vec![t], tail: Tail::None })];
                v.push(Item::S(self.line(ctx)));
                v
            }
            9 => {
                // an inline conditional divert at the end of a line
                if ctx.role != Role::Main || !self.cfg.conds {
                    return vec![];
                }
                match self.forward_dest(ctx) {
                    Some(d) => {
                        let c = self.expr(ctx, Ty::Bool, 1);
                        let w = self.words("D");
                        let body = if self.t.chance(1, 2) { vec![In::T(format!("{} ", w)), In::Cond(c, vec![In::Divert(d)], None)] } else { vec![In::Cond(c, vec![In::Divert(d)], None)] };
                        vec![Item::S(S::Line { body, tags: vec![], tail: Tail::None })]
                    }
                    None => vec![],
                }
            }
            10 => vec![Item::S(S::Comment(self.words("note")))],
            12 => self.ext_stmt(ctx),
            _ => match self.raw(self.cfg.raw_stmt) {
                Some(s) => s.split('\n').map(|l| Item::S(S::Raw(l.to_string()))).collect(),
                None => vec![],
            },
        }
    }

    /// an external call in some position, often right after a line
    fn ext_stmt(&mut self, ctx: &mut Ctx) -> Vec<Item> {
        let c: Vec<usize> = (0..self.units.len()).filter(|i| self.units[*i].knot == usize::MAX).collect();
        if c.is_empty() {
            return vec![];
        }
        let i = *self.t.pick(&c);
        let Some(e) = self.call(ctx, i) else { return vec![] };
        let mut v = vec![];
        if self.t.chance(1, 2) {
            v.push(Item::S(self.line(ctx)));
        }
        let ints: Vec<String> = self.globals.iter().filter(|g| g.1 == Ty::Int).map(|g| g.0.clone()).collect();
        let line = |body| Item::S(S::Line { body, tags: vec![], tail: Tail::None });
        let w = self.words("V");
        match self.t.below(7) {
            0 => v.push(Item::S(S::Do(e))),
            1 if !ints.is_empty() => {
                let n = self.t.pick(&ints).clone();
                v.push(Item::S(S::Assign(n, *self.t.pick(&["=", "+="]), e)));
            }
            2 => v.push(line(vec![In::E(e)])),
            3 => v.push(line(vec![In::T(format!("{w} ")), In::E(e)])),
            4 if self.cfg.glue => v.push(line(vec![In::Glue, In::T(format!(" {w} ")), In::E(e)])),
            5 if self.cfg.conds => {
                let c = E::Bin(">", Box::new(e), Box::new(E::Int(6)));
                v.push(line(vec![In::Cond(c, vec![In::T(w)], None)]));
            }
            _ => {
                if self.cfg.conds && self.nest < 2 {
                    let c = E::Bin("<", Box::new(e), Box::new(E::Int(9)));
                    let b = self.branch(ctx);
                    v.push(Item::S(S::Cond(vec![(Some(c), b)])));
                } else {
                    v.push(Item::S(S::Do(e)));
                }
            }
        }
        v
    }

    fn branch(&mut self, ctx: &Ctx) -> Rc<Block> {
        let mut sub = ctx.clone();
        sub.in_cond = true;
        sub.can_fall = true;
        self.nest += 1;
        let mut b = Block::default();
        let n = self.t.range(1, 2);
        for _ in 0..n {
            let s = self.stmt(&mut sub);
            b.items.extend(s);
        }
        if !b.items.iter().any(|i| !matches!(i, Item::S(S::Comment(_)))) {
            let l = self.line(&sub);
            b.items.push(Item::S(l));
        }
        // a branch may leave for a later unit
        if ctx.role == Role::Main && self.nest == 1 && self.t.chance(1, 8)
            && let Some(d) = self.forward_dest(ctx)
        {
            b.items.push(Item::S(S::Line { body: vec![], tags: vec![], tail: Tail::Divert(d) }));
        }
        self.nest -= 1;
        Rc::new(b)
    }

    fn cond(&mut self, ctx: &Ctx) -> S {
        match self.t.weighted(&[3, 3, 2, 2]) {
            0 => {
                let c = self.expr(ctx, Ty::Bool, 1);
                S::Cond(vec![(Some(c), self.branch(ctx))])
            }
            1 => {
                let c = self.expr(ctx, Ty::Bool, 1);
                let a = self.branch(ctx);
                let b = self.branch(ctx);
                S::Cond(vec![(Some(c), a), (None, b)])
            }
            2 => {
                let mut v = vec![];
                for _ in 0..self.t.range(2, 3) {
                    let c = self.expr(ctx, Ty::Bool, 1);
                    v.push((Some(c), self.branch(ctx)));
                }
                if self.t.chance(1, 2) {
                    v.push((None, self.branch(ctx)));
                }
                S::Cond(v)
            }
            _ => {
                let e = self.expr(ctx, Ty::Int, 1);
                let mut v = vec![];
                for i in 0..self.t.range(1, 3) {
                    v.push((Some(E::Int(i as i32)), self.branch(ctx)));
                }
                if self.t.chance(1, 2) {
                    v.push((None, self.branch(ctx)));
                }
                S::Switch(e, v)
            }
        }
    }

    fn tunnel(&mut self, ctx: &Ctx) -> Vec<Item> {
        let min = if ctx.role == Role::Tunnel { ctx.unit + 1 } else { 0 };
        let c: Vec<usize> = (min..self.units.len()).filter(|i| self.units[*i].role == Role::Tunnel).collect();
        if c.is_empty() || ctx.role == Role::Thread {
            return vec![];
        }
        let mut ds = vec![];
        let i = *self.t.pick(&c);
        ds.push(self.dest_to(ctx, i));
        if self.t.chance(1, 6) {
            let j = *self.t.pick(&c);
            ds.push(self.dest_to(ctx, j));
        }
        let text = self.t.chance(1, 4);
        let body = if text { vec![In::T(self.words("U"))] } else { vec![] };
        let last = None;
        vec![Item::S(S::Line { body, tags: vec![], tail: Tail::Tunnel(ds, last) })]
    }

    // ---------- expressions ----------
    fn vars_of(&self, ctx: &Ctx, ty: Ty) -> Vec<String> {
        ctx.scope.vars.iter().chain(ctx.scope.temps.iter()).filter(|v| v.1 == ty).map(|v| v.0.clone()).collect()
    }

    fn call(&mut self, ctx: &Ctx, i: usize) -> Option<E> {
        let u = self.units[i].clone();
        let mut args = vec![];
        for (_, k, ty) in &u.params {
            match k {
                PKind::Ref => {
                    let vs: Vec<String> = self.vars_of(ctx, *ty);
                    // value parameters of functions and constants are no targets
                    let vs: Vec<String> = vs.into_iter().filter(|v| self.globals.iter().any(|g| g.0 == *v) || v.contains("tmp")).collect();
                    if vs.is_empty() || (ctx.role == Role::Fn && self.units[ctx.unit].pure_) {
                        return None;
                    }
                    let v = self.t.pick(&vs).clone();
                    args.push(E::Var(v));
                }
                _ => args.push(self.expr(ctx, *ty, 0)),
            }
        }
        Some(E::Call(u.path, args))
    }

    fn expr_print(&mut self, ctx: &Ctx, ty: Ty, d: usize) -> E {
        let min = if ctx.role == Role::Fn { ctx.unit + 1 } else { 0 };
        let c: Vec<usize> = (min..self.units.len()).filter(|i| self.units[*i].role == Role::Fn && !(self.hush && !self.p.externals.is_empty())).collect();
        if !c.is_empty() && self.t.chance(1, 3) {
            let i = *self.t.pick(&c);
            if let Some(e) = self.call(ctx, i) {
                return e;
            }
        }
        self.expr(ctx, ty, d)
    }

    /// side-effect order is left to right, so calls may stand anywhere
    pub fn expr_for(&mut self, unit: usize, role: Role, scope_vars: Vec<(String, Ty)>, ty: Ty, d: usize) -> E {
        let ctx = Ctx { unit, role, depth: 0, can_fall: true, in_cond: false, scope: Scope { vars: scope_vars, temps: vec![] } };
        self.expr(&ctx, ty, d)
    }

    fn expr(&mut self, ctx: &Ctx, ty: Ty, d: usize) -> E {
        let vs = self.vars_of(ctx, ty);
        if !vs.is_empty() && self.t.chance(1, 3) {
            return E::Var(self.t.pick(&vs).clone());
        }
        // calls of functions that print nothing
        if d > 0 && !self.no_calls && self.t.chance(1, 6) {
            let min = if ctx.role == Role::Fn { ctx.unit + 1 } else { 0 };
            let caller_pure = ctx.role == Role::Fn && self.units[ctx.unit].pure_;
            let c: Vec<usize> =
                (min..self.units.len()).filter(|i| self.units[*i].role == Role::Fn && self.units[*i].ret == Some(ty) && !self.units[*i].prints && (!caller_pure || self.units[*i].pure_) && !(self.hush && !self.p.externals.is_empty())).collect();
            if !c.is_empty() {
                let i = *self.t.pick(&c);
                if let Some(e) = self.call(ctx, i) {
                    return e;
                }
            }
        }
        let b = |e| Box::new(e);
        if ty == Ty::Int && !self.no_calls {
            if self.cfg.missing > 0 && self.t.chance(1, self.cfg.missing) {
                if self.t.chance(1, 3) {
                    return E::Builtin(*self.t.pick(&["TURNS_SINCE", "READ_COUNT"]), vec![E::Var("zzv".into())]);
                }
                let n = self.name("zz");
                self.zz.push((ctx.unit, n.clone()));
                return E::Var(n);
            }
            if self.cfg.faults > 0 && self.t.chance(1, self.cfg.faults) {
                return match self.t.below(3) {
                    0 => E::Bin("/", b(E::Int(4)), b(E::Int(0))),
                    1 => E::Bin("-", b(E::Str(vec![In::T("a".into())])), b(E::Int(1))),
                    _ => E::Bin("mod", b(E::Int(7)), b(E::Int(0))),
                };
            }
        }
        match ty {
            Ty::Int => {
                if d == 0 {
                    return E::Int(self.t.below(12) as i32);
                }
                if !self.cfg.raw_int.is_empty() && self.t.chance(1, 4) {
                    if let Some(s) = self.raw(self.cfg.raw_int) {
                        return E::Raw(s);
                    }
                }
                let rc = if self.cfg.counts && !self.countable.is_empty() { 2 } else { 0 };
                let ls = if self.lists_ready { 1 } else { 0 };
                match self.t.weighted(&[4, 3, 2, 1, 1, rc, if rc > 0 && self.cfg.turns { 1 } else { 0 }, ls, if self.p.consts.is_empty() { 0 } else { 1 }, if self.cfg.counts && self.cfg.turns { 1 } else { 0 }]) {
                    0 => E::Int(self.t.below(12) as i32),
                    1 => {
                        let op = *self.t.pick(&["+", "-", "*"]);
                        E::Bin(op, b(self.expr(ctx, ty, d - 1)), b(self.expr(ctx, ty, d - 1)))
                    }
                    2 => {
                        let op = *self.t.pick(&["/", "%", "mod"]);
                        E::Bin(op, b(self.expr(ctx, ty, d - 1)), b(E::Int(self.t.range(1, 5) as i32)))
                    }
                    3 => E::Builtin(*self.t.pick(&["MIN", "MAX"]), vec![self.expr(ctx, ty, d - 1), self.expr(ctx, ty, d - 1)]),
                    4 => E::Un("-", b(self.expr(ctx, ty, d - 1))),
                    5 => {
                        let c = self.countable.clone();
                        E::Read(self.t.pick(&c).clone())
                    }
                    6 => {
                        let c: Vec<String> = self.countable.clone();
                        E::TurnsSince(self.t.pick(&c).clone())
                    }
                    7 => {
                        let l = self.expr(ctx, Ty::List, d - 1);
                        E::Builtin(*self.t.pick(&["LIST_COUNT", "LIST_VALUE"]), vec![l])
                    }
                    8 => E::Var(self.p.consts[0].0.clone()),
                    _ => E::Builtin("TURNS", vec![]),
                }
            }
            Ty::Bool => {
                if d == 0 {
                    return E::Bool(self.t.chance(1, 2));
                }
                let ls = if self.lists_ready { 1 } else { 0 };
                match self.t.weighted(&[1, 5, 2, 1, 1, ls]) {
                    0 => E::Bool(self.t.chance(1, 2)),
                    1 => {
                        let op = *self.t.pick(&["==", "!=", "<", ">", "<=", ">="]);
                        E::Bin(op, b(self.expr(ctx, Ty::Int, d)), b(self.expr(ctx, Ty::Int, d - 1)))
                    }
                    2 => {
                        let op = *self.t.pick(&["&&", "||", "and", "or"]);
                        E::Bin(op, b(self.expr(ctx, ty, d - 1)), b(self.expr(ctx, ty, d - 1)))
                    }
                    3 => E::Un("not", b(self.expr(ctx, ty, d - 1))),
                    4 => {
                        let op = *self.t.pick(&["==", "!="]);
                        E::Bin(op, b(self.expr(ctx, Ty::Str, d - 1)), b(self.expr(ctx, Ty::Str, d - 1)))
                    }
                    _ => {
                        let op = *self.t.pick(&["?", "!?", "has", "hasnt", "=="]);
                        E::Bin(op, b(self.expr(ctx, Ty::List, d - 1)), b(self.expr(ctx, Ty::List, d - 1)))
                    }
                }
            }
            Ty::Str => match if d == 0 { 0 } else { self.t.weighted(&[3, 1, 1, if d > 1 { 1 } else { 0 }]) } {
                0 => E::Str(vec![In::T(self.words("s"))]),
                1 => E::Bin("+", b(E::Str(vec![In::T(self.words("s"))])), b(self.expr(ctx, Ty::Str, d - 1))),
                2 => E::Str(vec![In::T(format!("{} ", self.words("s"))), In::E(self.expr(ctx, Ty::Int, 0))]),
                _ => {
                    let hush = self.hush;
        self.hush |= self.cfg.ext_quiet;
                    let w = format!("{} ", self.words("s"));
                    let e = self.expr(ctx, Ty::Int, 1);
                    self.hush = hush;
                    E::Str(vec![In::T(w), In::E(e)])
                }
            },
            Ty::Float => {
                if d == 0 || self.t.chance(1, 2) {
                    return E::Float(self.t.range(1, 20) as f32 * 0.25);
                }
                let op = *self.t.pick(&["+", "-", "*"]);
                E::Bin(op, b(self.expr(ctx, ty, d - 1)), b(self.expr(ctx, ty, d - 1)))
            }
            Ty::List => match if d == 0 { 0 } else { self.t.weighted(&[3, 2, 1, 1]) } {
                0 => self.list_lit(),
                1 => {
                    let op = *self.t.pick(&["+", "-", "^"]);
                    E::Bin(op, b(self.expr(ctx, ty, d - 1)), b(self.list_lit()))
                }
                2 => E::Builtin(*self.t.pick(&["LIST_MIN", "LIST_MAX", "LIST_ALL", "LIST_INVERT"]), vec![self.expr(ctx, ty, d - 1)]),
                _ => {
                    let ds: Vec<String> = self.p.lists.iter().map(|l| l.name.clone()).collect();
                    let n = self.t.pick(&ds).clone();
                    E::ListFromInt(n, b(E::Int(self.t.range(1, 8) as i32)))
                }
            },
            Ty::Target => {
                let vs = self.vars_of(ctx, Ty::Target);
                match vs.first() {
                    Some(v) => E::Var(v.clone()),
                    None => E::Int(0),
                }
            }
        }
    }
}

/// Generates one program.
pub fn program(t: &mut Tape, cfg: Cfg) -> (Prog, Vec<Unit>, Vec<(String, Ty)>) {
    Gen::new(t, cfg).program()
}
