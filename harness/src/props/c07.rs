//! C07: expressions against an independent evaluator.
use super::c01::{eval_of, mval, strip};
use crate::drive::{self, FUEL, vt};
use crate::ink::ast::*;
use crate::ink::interp::*;
use crate::ink::print;
use crate::ink::value::Fault;
use crate::runner::{Ctx, Out, Prop, Tier};
use crate::tape::{Tape, hash_str};
use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink::verif_hooks as vh;
use std::cell::RefCell;
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C07",
    rule: "one generated program of up to six units, each some assignments and then one expression that is printed, stored, passed through a function, branched on and switched on, evaluated by the real compiler and runtime and by the reference evaluator; non-trivial = at least one expression with two operators or a list operator compared",
    cases: |t| if t == Tier::Quick { 60_000 } else { 4_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    Int,
    Float,
    Bool,
    Str,
    List,
}

struct G {
    lists: Vec<ListDef>,
    ints: Vec<&'static str>,
    /// list variables besides the list names
    lvars: Vec<&'static str>,
    /// item names used by one list only may stand alone
    bare: Vec<(Id, Id)>,
    faults: bool,
    /// operators written
    ops: usize,
    listops: usize,
    alt: bool,
    inline: bool,
    temps: Vec<(Id, T)>,
    consts: Vec<(Id, T)>,
}

const BIN: &[(&str, u8, u8)] = &[
    // operator, class in this compiler's reading, class in the reference compiler's
    ("||", 1, 1),
    ("&&", 2, 1),
    ("==", 3, 2),
    ("!=", 3, 2),
    ("<", 4, 2),
    (">", 4, 2),
    ("<=", 4, 2),
    (">=", 4, 2),
    ("?", 4, 3),
    ("!?", 4, 3),
    ("^", 4, 3),
    ("+", 5, 4),
    ("-", 5, 5),
    ("*", 6, 6),
    ("/", 6, 7),
    ("%", 6, 8),
];

fn class(op: &str, second: bool) -> u8 {
    let x = BIN.iter().find(|b| b.0 == op).unwrap();
    if second { x.2 } else { x.1 }
}

/// the tree of `a op b op c ...` by one table, all classes left-associative
fn climb(atoms: &[E], ops: &[&'static str], second: bool) -> E {
    if ops.is_empty() {
        return atoms[0].clone();
    }
    // the last operator of the lowest class is the root
    let low = ops.iter().map(|o| class(o, second)).min().unwrap();
    let i = ops.iter().rposition(|o| class(o, second) == low).unwrap();
    E::Bin(ops[i], Box::new(climb(&atoms[..=i], &ops[..i], second)), Box::new(climb(&atoms[i + 1..], &ops[i + 1..], second)))
}

fn shape(e: &E) -> String {
    match e {
        E::Bin(o, a, b) => format!("({} {o} {})", shape(a), shape(b)),
        e => text(e),
    }
}

/// the text an E stands for
fn text(e: &E) -> String {
    match e {
        E::Src(s, ..) => s.clone(),
        e => print::expr(e),
    }
}

fn src(s: String, e: E) -> E {
    E::Src(s, Box::new(e), None)
}

impl G {
    fn lit(&mut self, t: &mut Tape, ty: T) -> E {
        match ty {
            T::Int => {
                let v = match t.weighted(&[10, 6, 3, 1]) {
                    0 => t.range(0, 5) as i32,
                    1 => t.range(0, 24) as i32 - 12,
                    2 => *t.pick(&[100, -100, 255, 1000, 4096, -4096, 65536]),
                    _ => *t.pick(&[i32::MAX, i32::MIN + 1, i32::MAX - 1, 1 << 30, -(1 << 30)]),
                };
                E::Int(v)
            }
            T::Float => {
                let v = match t.weighted(&[10, 4, 2]) {
                    0 => t.range(0, 16) as f32 * 0.25,
                    1 => t.range(0, 80) as f32 * 0.125 - 5.0,
                    _ => *t.pick(&[0.5f32, 1024.5, -2048.25, 1.0, 100.0, -0.5]),
                };
                E::Float(v)
            }
            T::Bool => E::Bool(t.chance(1, 2)),
            T::Str => {
                let s = *t.pick(&["", "a", "b", "ab", "abc", "a b", "1", "2", "1.5", "true", "é", "Ab", "0", "bc", "x y z"]);
                E::Str(if s.is_empty() { vec![] } else { vec![In::T(s.into())] })
            }
            T::List => self.list_lit(t),
        }
    }

    fn item(&mut self, t: &mut Tape) -> (Id, Id) {
        let l = t.below(self.lists.len());
        let l = &self.lists[l];
        let i = t.below(l.items.len());
        (l.name.clone(), l.items[i].0.clone())
    }

    fn item_text(&self, t: &mut Tape, o: &Id, i: &Id) -> String {
        if self.bare.contains(&(o.clone(), i.clone())) && t.chance(1, 2) { i.clone() } else { format!("{o}.{i}") }
    }

    fn list_of(&mut self, t: &mut Tape, items: Vec<(Id, Id)>) -> E {
        let names: Vec<String> = items.iter().map(|(o, i)| self.item_text(t, o, i)).collect();
        let alone = names.len() == 1 && t.chance(1, 2);
        let s = if alone { names[0].clone() } else { format!("({})", names.join(if t.chance(1, 4) { "," } else { ", " })) };
        src(s, E::List(items))
    }

    fn list_lit(&mut self, t: &mut Tape) -> E {
        let n = t.weighted(&[2, 3, 3, 2, 1]);
        let mut items = vec![];
        for _ in 0..n {
            let it = self.item(t);
            if !items.contains(&it) {
                items.push(it);
            }
        }
        self.list_of(t, items)
    }

    fn var(&mut self, t: &mut Tape, ty: T) -> E {
        let temps: Vec<Id> = self.temps.iter().filter(|x| x.1 == ty).map(|x| x.0.clone()).collect();
        if !temps.is_empty() && t.chance(1, 3) {
            return E::Var(t.pick(&temps).clone());
        }
        let consts: Vec<Id> = self.consts.iter().filter(|x| x.1 == ty).map(|x| x.0.clone()).collect();
        if !consts.is_empty() && t.chance(1, 5) {
            return E::Var(t.pick(&consts).clone());
        }
        match ty {
            T::Int => E::Var((*t.pick(&self.ints)).into()),
            T::Float => E::Var((*t.pick(&["f0", "f1"])).into()),
            T::Bool => E::Var((*t.pick(&["b0", "b1"])).into()),
            T::Str => E::Var((*t.pick(&["s0", "s1", "s2"])).into()),
            T::List => {
                if t.chance(1, 4) {
                    let l = t.below(self.lists.len());
                    E::ListName(self.lists[l].name.clone())
                } else {
                    E::Var((*t.pick(&self.lvars)).into())
                }
            }
        }
    }

    fn atom(&mut self, t: &mut Tape, ty: T) -> E {
        if t.chance(3, 5) { self.var(t, ty) } else { self.lit(t, ty) }
    }

    fn num(&mut self, t: &mut Tape) -> T {
        *t.pick(&[T::Int, T::Int, T::Float, T::Bool])
    }

    fn any(&mut self, t: &mut Tape) -> T {
        *t.pick(&[T::Int, T::Float, T::Bool, T::Str, T::List])
    }

    fn scalar(&mut self, t: &mut Tape) -> T {
        *t.pick(&[T::Int, T::Float, T::Bool, T::Str])
    }

    /// whether the operand may stand without parentheses
    fn plain(e: &E) -> bool {
        match e {
            E::Src(s, ..) => s.starts_with('(') && Self::closes(s) || s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.') || Self::call(s),
            E::Int(i) => *i >= 0,
            E::Float(f) => *f >= 0.0 && !f.is_sign_negative(),
            E::Bin(..) | E::Un(..) => false,
            _ => true,
        }
    }

    /// the text is a call and nothing else
    fn call(s: &str) -> bool {
        match s.find('(') {
            Some(i) if i > 0 => s[..i].chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && Self::closes(&s[i..]),
            _ => false,
        }
    }

    /// the parenthesis that opens the text closes at its very end
    fn closes(s: &str) -> bool {
        let (mut d, mut q) = (0, false);
        for (i, c) in s.char_indices() {
            match c {
                '"' => q = !q,
                '(' if !q => d += 1,
                ')' if !q => {
                    d -= 1;
                    if d == 0 {
                        return i + 1 == s.len();
                    }
                }
                _ => {}
            }
        }
        false
    }

    fn operand(&mut self, t: &mut Tape, e: &E) -> String {
        let s = text(e);
        if Self::plain(e) {
            // `(x)` for a bare name would be a list
            let name = s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '.') && !s.starts_with(|c: char| c.is_ascii_digit());
            if !name && !s.starts_with('(') && t.chance(1, 12) { format!("({s})") } else { s }
        } else {
            let pad = if t.chance(1, 8) { " " } else { "" };
            format!("({pad}{s}{pad})")
        }
    }

    fn spell(&mut self, t: &mut Tape, op: &'static str) -> (String, bool) {
        let alias = match op {
            "&&" => "and",
            "||" => "or",
            "%" => "mod",
            "?" => "has",
            "!?" => "hasnt",
            o => return (o.into(), false),
        };
        if t.chance(1, 2) || op == "||" && self.inline { (alias.into(), true) } else { (op.into(), false) }
    }

    fn join(&mut self, t: &mut Tape, l: &str, op: &'static str, r: &str) -> String {
        let (o, word) = self.spell(t, op);
        let tight = !word && t.chance(1, 6) && !r.starts_with(['-', '!', '>', '=', '?', '<']) && !matches!(op, "<" | "||" | "!?" | "?" | "-") ;
        if tight { format!("{l}{o}{r}") } else { format!("{l} {o} {r}") }
    }

    fn bin(&mut self, t: &mut Tape, op: &'static str, a: E, b: E) -> E {
        self.ops += 1;
        if matches!(op, "?" | "!?" | "^") {
            self.listops += 1;
        }
        let (l, r) = (self.operand(t, &a), self.operand(t, &b));
        let s = self.join(t, &l, op, &r);
        src(s, E::Bin(op, Box::new(a), Box::new(b)))
    }

    fn un(&mut self, t: &mut Tape, op: &'static str, a: E) -> E {
        self.ops += 1;
        let s = self.operand(t, &a);
        let s = match op {
            "not" if t.chance(1, 3) => format!("!{s}"),
            "not" => format!("not {s}"),
            _ => format!("{op}{s}"),
        };
        // a list or call keeps its parentheses
        src(s, E::Un(op, Box::new(a)))
    }

    fn fun(&mut self, t: &mut Tape, name: &'static str, a: Vec<E>) -> E {
        self.ops += 1;
        if name.starts_with("LIST") {
            self.listops += 1;
        }
        let sep = if t.chance(1, 6) { "," } else { ", " };
        let s = format!("{name}({})", a.iter().map(text).collect::<Vec<_>>().join(sep));
        src(s, E::Builtin(name, a))
    }

    fn ex(&mut self, t: &mut Tape, ty: T, d: usize) -> E {
        if d == 0 {
            return self.atom(t, ty);
        }
        let d = d - 1;
        match ty {
            T::Int => match t.weighted(&[3, 10, 2, 2, 3, 3, 2, 2, 1, 2]) {
                0 => self.atom(t, T::Int),
                1 => {
                    let op = *t.pick(&["+", "-", "*", "/", "%"]);
                    let (x, y) = (self.intish(t), self.intish(t));
                    let a = self.ex(t, x, d);
                    let b = self.ex(t, y, d);
                    if matches!(op, "/" | "%") && !self.faults {
                        // a divisor that is not zero
                        let two = self.fun(t, "MAX", vec![b, E::Int(1)]);
                        return self.bin(t, op, a, two);
                    }
                    self.bin(t, op, a, b)
                }
                2 => {
                    let op = *t.pick(&["MIN", "MAX"]);
                    let a = vec![self.ex(t, T::Int, d), self.ex(t, T::Int, d)];
                    self.fun(t, op, a)
                }
                3 => {
                    let a = self.ex(t, T::Int, d);
                    self.un(t, "-", a)
                }
                4 => {
                    let x = self.num(t);
                    let a = self.ex(t, x, d);
                    self.fun(t, "INT", vec![a])
                }
                5 => {
                    let f = *t.pick(&["LIST_COUNT", "LIST_VALUE"]);
                    let a = self.ex(t, T::List, d);
                    self.fun(t, f, vec![a])
                }
                6 => {
                    let f = *t.pick(&["FLOOR", "CEILING"]);
                    let a = self.ex(t, T::Int, d);
                    self.fun(t, f, vec![a])
                }
                7 => {
                    let a = self.ex(t, T::List, d);
                    self.un(t, "not", a)
                }
                8 => self.chain(t, d),
                _ => {
                    let a = self.ex(t, T::Int, d);
                    self.idcall(a)
                }
            },
            T::Float => match t.weighted(&[3, 10, 3, 2, 3, 2, 2, 2]) {
                0 => self.atom(t, T::Float),
                1 => {
                    let op = *t.pick(&["+", "-", "*", "/", "%"]);
                    let other = self.num(t);
                    let (a, b) = (self.ex(t, T::Float, d), self.ex(t, other, d));
                    if t.chance(1, 2) { self.bin(t, op, a, b) } else { self.bin(t, op, b, a) }
                }
                2 => {
                    let op = *t.pick(&["MIN", "MAX"]);
                    let other = self.num(t);
                    let mut a = vec![self.ex(t, T::Float, d), self.ex(t, other, d)];
                    if t.chance(1, 2) {
                        a.swap(0, 1);
                    }
                    self.fun(t, op, a)
                }
                3 => {
                    let x = self.num(t);
                    let y = self.num(t);
                    let a = vec![self.ex(t, x, d), self.ex(t, y, d.min(1))];
                    self.fun(t, "POW", a)
                }
                4 => {
                    let x = self.num(t);
                    let a = self.ex(t, x, d);
                    self.fun(t, "FLOAT", vec![a])
                }
                5 => {
                    let f = *t.pick(&["FLOOR", "CEILING"]);
                    let a = self.ex(t, T::Float, d);
                    self.fun(t, f, vec![a])
                }
                6 => {
                    let a = self.ex(t, T::Float, d);
                    self.un(t, "-", a)
                }
                _ => self.chain(t, d),
            },
            T::Bool => match t.weighted(&[2, 6, 4, 4, 3, 4, 5, 5, 3, 2]) {
                0 => self.atom(t, T::Bool),
                1 => {
                    let op = *t.pick(&["<", ">", "<=", ">=", "==", "!="]);
                    let (x, y) = (self.num(t), self.num(t));
                    let (a, b) = (self.ex(t, x, d), self.ex(t, y, d));
                    self.bin(t, op, a, b)
                }
                2 => {
                    let op = *t.pick(&["==", "!="]);
                    let y = self.scalar(t);
                    let (a, b) = (self.ex(t, T::Str, d), self.ex(t, y, d));
                    if t.chance(1, 2) { self.bin(t, op, a, b) } else { self.bin(t, op, b, a) }
                }
                3 => {
                    let op = *t.pick(&["&&", "||"]);
                    let (x, y) = (self.num(t), self.num(t));
                    let (a, b) = (self.ex(t, x, d), self.ex(t, y, d));
                    self.bin(t, op, a, b)
                }
                4 => {
                    let x = self.num(t);
                    let a = self.ex(t, x, d);
                    self.un(t, "not", a)
                }
                5 => {
                    let op = *t.pick(&["?", "!?"]);
                    let x = self.scalar(t);
                    let (a, b) = (self.ex(t, T::Str, d), self.ex(t, x, d));
                    if x == T::Str || t.chance(2, 3) { self.bin(t, op, a, b) } else { self.bin(t, op, b, a) }
                }
                6 => {
                    let op = *t.pick(&["?", "!?"]);
                    let (a, b) = (self.ex(t, T::List, d), self.ex(t, T::List, d));
                    self.bin(t, op, a, b)
                }
                7 => {
                    let op = *t.pick(&["==", "!=", "<", ">", "<=", ">="]);
                    let (a, b) = (self.ex(t, T::List, d), self.ex(t, T::List, d));
                    self.listops += 1;
                    self.bin(t, op, a, b)
                }
                8 => {
                    let op = *t.pick(&["&&", "||"]);
                    let y = self.any(t);
                    let (a, b) = (self.ex(t, T::List, d), self.ex(t, y, d));
                    if t.chance(1, 2) { self.bin(t, op, a, b) } else { self.bin(t, op, b, a) }
                }
                _ => self.chain(t, d),
            },
            T::Str => match t.weighted(&[3, 6, 4]) {
                0 => self.atom(t, T::Str),
                1 => {
                    let y = self.scalar(t);
                    let (a, b) = (self.ex(t, T::Str, d), self.ex(t, y, d));
                    if t.chance(1, 2) { self.bin(t, "+", a, b) } else { self.bin(t, "+", b, a) }
                }
                _ => {
                    let y = self.any(t);
                    let was = std::mem::replace(&mut self.inline, true);
                    let e = self.ex(t, y, d.min(1));
                    self.inline = was;
                    // no string literal inside a string literal
                    if text(&e).contains('"') {
                        return E::Str(vec![In::T("q".into())]);
                    }
                    self.ops += 1;
                    let v = vec![In::T((*t.pick(&["p", "q "])).into()), In::E(e), In::T((*t.pick(&["z", " w"])).into())];
                    E::Str(v)
                }
            },
            T::List => match t.weighted(&[3, 7, 4, 3, 3, 4, 3, 3, 1]) {
                0 => self.atom(t, T::List),
                1 => {
                    let op = *t.pick(&["+", "-", "^"]);
                    let (a, b) = (self.ex(t, T::List, d), self.ex(t, T::List, d));
                    self.listops += 1;
                    self.bin(t, op, a, b)
                }
                2 => {
                    let op = *t.pick(&["+", "-"]);
                    let a = self.ex(t, T::List, d);
                    let b = if t.chance(2, 3) { E::Int(t.range(0, 4) as i32 - 1) } else { self.ex(t, T::Int, d.min(1)) };
                    self.listops += 1;
                    self.bin(t, op, a, b)
                }
                3 => {
                    let f = *t.pick(&["LIST_MIN", "LIST_MAX"]);
                    let a = self.ex(t, T::List, d);
                    self.fun(t, f, vec![a])
                }
                4 => {
                    let f = *t.pick(&["LIST_ALL", "LIST_INVERT"]);
                    let a = self.ex(t, T::List, d);
                    self.fun(t, f, vec![a])
                }
                5 => {
                    let a = self.ex(t, T::List, d);
                    let mut b = vec![];
                    for _ in 0..2 {
                        b.push(match t.weighted(&[4, 3, 2]) {
                            0 => E::Int(t.range(0, 9) as i32),
                            1 => self.ex(t, T::List, d.min(1)),
                            _ => self.ex(t, T::Int, d.min(1)),
                        });
                    }
                    let hi = b.pop().unwrap();
                    let lo = b.pop().unwrap();
                    self.fun(t, "LIST_RANGE", vec![a, lo, hi])
                }
                6 => {
                    let l = t.below(self.lists.len());
                    let l = self.lists[l].name.clone();
                    let n = if t.chance(2, 3) { E::Int(t.range(0, 8) as i32) } else { self.ex(t, T::Int, d.min(1)) };
                    self.ops += 1;
                    self.listops += 1;
                    src(format!("{l}({})", text(&n)), E::ListFromInt(l, Box::new(n)))
                }
                7 => self.list_chain(t, d),
                _ => {
                    let a = self.ex(t, T::List, d);
                    self.idcall(a)
                }
            },
        }
    }

    fn intish(&mut self, t: &mut Tape) -> T {
        if t.chance(1, 6) { T::Bool } else { T::Int }
    }

    fn idcall(&mut self, a: E) -> E {
        src(format!("idf({})", text(&a)), E::Call("idf".into(), vec![a]))
    }

    /// operands and operators in a row, without parentheses
    fn row(&mut self, t: &mut Tape, atoms: Vec<E>, ops: Vec<&'static str>) -> E {
        self.ops += ops.len();
        let mut s = String::new();
        for (i, a) in atoms.iter().enumerate() {
            // `not x` and `-x` bind tighter than any operator
            let o = match a {
                E::Src(s, e, _) if matches!(**e, E::Un(..)) => s.clone(),
                a => self.operand(t, a),
            };
            s = if i == 0 { o } else { self.join(t, &s, ops[i - 1], &o) };
        }
        let (a, b) = (climb(&atoms, &ops, false), climb(&atoms, &ops, true));
        if shape(&a) == shape(&b) {
            E::Src(s, Box::new(a), None)
        } else {
            self.alt = true;
            E::Src(s, Box::new(a), Some(Box::new(b)))
        }
    }

    fn chain(&mut self, t: &mut Tape, d: usize) -> E {
        let n = t.range(2, 4);
        let mut atoms = vec![];
        let mut ops = vec![];
        for i in 0..=n {
            let ty = self.num(t);
            let op = if i < n { *t.pick(&["+", "-", "*", "+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||"]) } else { "+" };
            let a = if i > 0 && matches!(ops[i - 1], "/" | "%") && !self.faults {
                E::Int(t.range(1, 7) as i32)
            } else if t.chance(1, 5) {
                self.ex(t, ty, d.min(1))
            } else {
                self.atom(t, ty)
            };
            let a = if t.chance(1, 8) {
                let op = if ty == T::Bool || t.chance(1, 2) { "not" } else { "-" };
                self.un(t, op, a)
            } else {
                a
            };
            atoms.push(a);
            if i < n {
                ops.push(op);
            }
        }
        self.row(t, atoms, ops)
    }

    fn list_chain(&mut self, t: &mut Tape, d: usize) -> E {
        let n = t.range(2, 3);
        let mut atoms = vec![];
        let mut ops = vec![];
        for i in 0..=n {
            atoms.push(if t.chance(1, 5) { self.ex(t, T::List, d.min(1)) } else { self.atom(t, T::List) });
            if i < n {
                ops.push(*t.pick(&["+", "-", "^"]));
            }
        }
        self.listops += n;
        self.row(t, atoms, ops)
    }

    /// statements that build the same list in `name`, from its items in this order
    fn recipe(&mut self, t: &mut Tape, name: &str, items: &[(Id, Id)]) -> Vec<S> {
        let mut order: Vec<(Id, Id)> = items.to_vec();
        t.shuffle(&mut order);
        let set = |x: E| S::Assign(name.into(), "=", x);
        match t.below(4) {
            0 => vec![set(self.list_of(t, order))],
            1 => {
                let mut v = vec![set(E::List(vec![]))];
                for i in order {
                    let e = self.list_of(t, vec![i]);
                    v.push(S::Assign(name.into(), "+=", e));
                }
                v
            }
            2 => {
                // more items than wanted, and the rest taken out again
                let mut all = order.clone();
                let mut extra = vec![];
                for _ in 0..t.range(1, 3) {
                    let i = self.item(t);
                    if !order.contains(&i) && !extra.contains(&i) {
                        extra.push(i.clone());
                        all.push(i);
                    }
                }
                t.shuffle(&mut all);
                let (a, b) = (self.list_of(t, all), self.list_of(t, extra));
                let e = self.bin(t, "-", a, b);
                vec![set(e)]
            }
            _ => {
                let k = t.range(1, order.len());
                let (a, b) = (order[..k].to_vec(), order[k - 1..].to_vec());
                let (a, b) = (self.list_of(t, a), self.list_of(t, b));
                let e = self.bin(t, "+", a, b);
                vec![set(e)]
            }
        }
    }
}

struct Unit {
    /// knots that must all give the same result
    knots: Vec<String>,
    /// judged against the model
    model: bool,
    alt: bool,
}

struct Errs(Rc<RefCell<Vec<String>>>);
impl ErrorHandler for Errs {
    fn error(&mut self, message: &str, ty: ErrorType) {
        if ty == ErrorType::Error {
            self.0.borrow_mut().push(message.into());
        }
    }
}

fn blk(items: Vec<S>) -> Rc<Block> {
    Rc::new(Block { items: items.into_iter().map(Item::S).collect() })
}

fn line(v: Vec<In>) -> S {
    S::Line { body: v, tags: vec![], tail: Tail::None }
}

fn program(t: &mut Tape) -> (Prog, Vec<Unit>, G) {
    let mut lists = vec![];
    let mut all_names: Vec<Id> = vec![];
    let tied = t.chance(1, 3);
    for (li, name) in ["kin", "abe", "zoo"].iter().enumerate().take(t.range(1, 3)) {
        let mut items: Vec<(Id, i32, bool)> = vec![];
        let mut v = 0;
        let plain = t.chance(1, 2);
        for n in ["m", "c", "x", "a", "t"].iter().take(t.range(2, 5)) {
            v = if plain || t.chance(1, 2) { v + 1 } else { v + t.range(1, 4) as i32 };
            if !plain && t.chance(1, 10) && v > 3 {
                // values need not rise
                let w = t.range(0, 3) as i32;
                if !items.iter().any(|i| i.1 == w) {
                    items.push((format!("{n}{}", if t.chance(1, 4) { "s".into() } else { li.to_string() }), w, t.chance(1, 3)));
                    continue;
                }
            }
            let val = if tied && !items.is_empty() && t.chance(1, 6) { items[0].1 } else { v };
            items.push((format!("{n}{}", if t.chance(1, 4) { "s".into() } else { li.to_string() }), val, t.chance(1, 3)));
        }
        all_names.extend(items.iter().map(|i| i.0.clone()));
        lists.push(ListDef { name: name.to_string(), items });
    }
    let bare = lists.iter().flat_map(|l: &ListDef| l.items.iter().map(|i| (l.name.clone(), i.0.clone()))).filter(|x| all_names.iter().filter(|n| **n == x.1).count() == 1).collect();
    let mut g = G {
        lists,
        ints: vec!["i0", "i1", "i2"],
        lvars: vec!["l0", "l1", "l2"],
        bare,
        faults: t.chance(1, 6),
        ops: 0,
        listops: 0,
        alt: false,
        inline: false,
        temps: vec![],
        consts: vec![],
    };
    let mut p = Prog { lists: g.lists.clone(), ..Default::default() };
    for (n, ty) in [("CI", T::Int), ("CF", T::Float), ("CS", T::Str), ("CB", T::Bool)] {
        if t.chance(1, 2) {
            let e = g.lit(t, ty);
            p.consts.push((n.into(), e));
            g.consts.push((n.into(), ty));
        }
    }
    for (n, ty) in [
        ("i0", T::Int), ("i1", T::Int), ("i2", T::Int), ("f0", T::Float), ("f1", T::Float), ("b0", T::Bool), ("b1", T::Bool),
        ("s0", T::Str), ("s1", T::Str), ("s2", T::Str), ("l0", T::List), ("l1", T::List), ("l2", T::List), ("h0", T::List),
    ] {
        let e = match g.lit(t, ty) {
            // `VAR x = a` would be the item a: keep the list
            E::Src(s, e, _) if matches!(*e, E::List(_)) && !s.starts_with('(') => E::Src(format!("({s})"), e, None),
            e => e,
        };
        p.vars.push((n.into(), e));
    }
    for r in ["r0", "r1", "r2", "r3", "r4"] {
        p.vars.push((r.into(), E::Int(0)));
    }
    let param = |n: &str, kind| Param { name: n.into(), kind };
    p.knots.push(Knot { name: "idf".into(), params: vec![param("v", PKind::Val)], is_fn: true, body: blk(vec![S::Ret(Some(E::Var("v".into())))]), stitches: vec![] });
    p.knots.push(Knot {
        name: "putf".into(),
        params: vec![param("d", PKind::Ref), param("v", PKind::Val)],
        is_fn: true,
        body: blk(vec![S::Assign("d".into(), "=", E::Var("v".into()))]),
        stitches: vec![],
    });
    p.root = blk(vec![line(vec![In::T("start".into())])]);
    let mut units = vec![];
    let n = t.range(1, 6);
    for k in 0..n {
        let depth = t.range(1, 4);
        g.temps.clear();
        g.alt = false;
        let twins = t.chance(1, 3);
        if twins {
            g.lvars = vec!["h0", "h0", "h0", "l0"];
        } else {
            g.lvars = vec!["l0", "l1", "l2"];
        }
        let mut pre = vec![];
        for i in 0..t.weighted(&[3, 3, 2, 2, 1]) {
            match t.weighted(&[3, 4, 2, 2, 3]) {
                0 => {
                    let ty = g.any(t);
                    let e = g.ex(t, ty, 1);
                    let n = format!("tmp{i}");
                    pre.push(S::Temp(n.clone(), e));
                    g.temps.push((n, ty));
                }
                1 => {
                    let ty = g.any(t);
                    let e = g.ex(t, ty, 1);
                    if let E::Var(n) = g.gvar(t, ty) {
                        pre.push(S::Assign(n, "=", e));
                    }
                }
                2 => {
                    let n = *t.pick(&["i0", "i1", "f0", "f1"]);
                    let op = *t.pick(&["++", "--"]);
                    pre.push(S::Assign(n.into(), op, E::Int(1)));
                }
                3 => {
                    let op = *t.pick(&["+=", "-="]);
                    let (n, ty) = *t.pick(&[("i0", T::Int), ("f0", T::Float), ("f1", T::Int), ("i2", T::Int)]);
                    let e = g.ex(t, ty, 1);
                    pre.push(S::Assign(n.into(), op, e));
                }
                _ => {
                    let op = *t.pick(&["+=", "-=", "="]);
                    let n = *t.pick(&["l0", "l1", "l2"]);
                    let e = if op == "=" && t.chance(1, 2) { E::List(vec![]) } else { g.ex(t, T::List, 1) };
                    pre.push(S::Assign(n.into(), op, e));
                }
            }
        }
        let mut ty = g.any(t);
        if twins && t.chance(1, 2) {
            ty = T::List;
        }
        // the text must be fit for every position
        g.inline = true;
        let e = if t.chance(1, 6) && !twins { g.chain(t, depth) } else { g.ex(t, ty, depth) };
        g.inline = false;
        // sometimes what comes before is run in look-ahead that is kept
        let ahead = t.chance(1, 4);
        let mut first = vec![In::T("v (".into()), In::E(e.clone()), In::T(")".into())];
        if ahead {
            pre.insert(0, line(vec![In::T("p".into())]));
            first.insert(0, In::Glue);
        }
        let mut post = vec![line(first), S::Assign("r0".into(), "=", e.clone())];
        if t.chance(1, 3) {
            post.push(line(vec![In::Cond(e.clone(), vec![In::T("yes".into())], Some(vec![In::T("no".into())]))]));
        }
        if t.chance(1, 3) {
            post.push(S::Assign("r1".into(), "=", E::Call("idf".into(), vec![e.clone()])));
        }
        if t.chance(1, 4) {
            post.push(S::Do(E::Call("putf".into(), vec![E::Var("r2".into()), e.clone()])));
        }
        if t.chance(1, 4) {
            let other = g.ex(t, ty, 1);
            post.push(S::Switch(e.clone(), vec![(Some(other), blk(vec![S::Assign("r3".into(), "=", E::Int(1))])), (None, blk(vec![S::Assign("r3".into(), "=", E::Int(2))]))]));
        }
        if t.chance(1, 4) {
            post.push(S::Cond(vec![(Some(e.clone()), blk(vec![S::Assign("r4".into(), "=", E::Int(1))])), (None, blk(vec![S::Assign("r4".into(), "=", E::Int(2))]))]));
        }
        let mut unit = Unit { knots: vec![], model: true, alt: g.alt };
        let post_src: Vec<S> = post;
        let copies = if twins { 3 } else { 1 };
        let mut items = vec![];
        if twins {
            let want = t.range(2, 4);
            for _ in 0..8 {
                let i = g.item(t);
                if !items.contains(&i) && items.len() < want {
                    items.push(i);
                }
            }
        }
        for c in 0..copies {
            let mut body = pre.clone();
            if twins {
                body.extend(g.recipe(t, "h0", &items));
            }
            body.extend(post_src.iter().cloned());
            body.push(line(vec![In::T("end ".into())]).clone());
            if let Some(S::Line { tail, .. }) = body.last_mut() {
                *tail = Tail::Divert(Dest { to: Target::Done, args: vec![] });
            }
            let name = format!("e{k}{}", ["", "b", "c"][c]);
            p.knots.push(Knot { name: name.clone(), params: vec![], is_fn: false, body: blk(body), stitches: vec![] });
            unit.knots.push(name);
        }
        units.push(unit);
    }
    (p, units, g)
}

impl G {
    fn gvar(&mut self, t: &mut Tape, ty: T) -> E {
        let v = match ty {
            T::Int => *t.pick(&["i0", "i1", "i2"]),
            T::Float => *t.pick(&["f0", "f1"]),
            T::Bool => *t.pick(&["b0", "b1"]),
            T::Str => *t.pick(&["s0", "s1", "s2"]),
            T::List => *t.pick(&["l0", "l1", "l2"]),
        };
        E::Var(v.into())
    }
}

type Seen = (Vec<String>, Vec<(String, String)>);

fn real(json: &str, knot: &str, names: &[String]) -> Result<Result<Seen, String>, String> {
    vh::set_story_seed(Some(7));
    vh::set_fuel(Some(FUEL));
    let mut s = Story::new(json).map_err(|e| e.to_string())?;
    let errs = Rc::new(RefCell::new(vec![]));
    s.set_error_handler(Rc::new(RefCell::new(Errs(errs.clone()))));
    s.choose_path_string(knot, true, None).map_err(|e| e.to_string())?;
    let mut lines = vec![];
    while s.can_continue() {
        let l = s.cont().map_err(|e| e.to_string())?;
        let l = clean(l.trim_end_matches('\n'));
        if !l.is_empty() {
            lines.push(l);
        }
        if let Some(e) = errs.borrow().first() {
            return Ok(Err(e.clone()));
        }
    }
    let vars = names.iter().map(|n| (n.clone(), s.get_variable(n).map(|v| eval_of(&vt(&v))).unwrap_or_else(|| "-".into()))).collect();
    Ok(Ok((lines, vars)))
}

fn model(p: &Rc<Prog>, knot: &str, names: &[String], second: bool) -> Result<Seen, Fault> {
    let mut it = Interp::new(p.clone())?;
    it.second_reading = second;
    it.jump(knot)?;
    let turn = it.run_turn()?;
    let lines = turn.lines.iter().map(|l| clean(l.text.trim_end_matches('\n'))).filter(|l| !l.is_empty()).collect();
    let vars = names.iter().map(|n| (n.clone(), it.globals.get(n).map(mval).unwrap_or_else(|| "-".into()))).collect();
    Ok((lines, vars))
}

fn differs(a: &Seen, b: &Seen) -> Option<String> {
    if a.0 != b.0 {
        return Some(format!("lines {:?} vs {:?}", a.0, b.0));
    }
    for (x, y) in a.1.iter().zip(&b.1) {
        if x != y {
            return Some(format!("{} is {} vs {}", x.0, x.1, y.1));
        }
    }
    None
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let (p, units, g) = program(t);
    let text = print::program(&p);
    ctx.detail = text.clone();
    let json = match drive::compile(&text) {
        Ok(j) => j,
        Err(e) => return Out::Fail(format!("compile error: {}", strip(&e)), format!("valid program refused: {e}")),
    };
    let p = Rc::new(p);
    let names: Vec<String> = p.vars.iter().map(|v| v.0.clone()).chain(p.lists.iter().map(|l| l.name.clone())).collect();
    let mut compared = 0;
    for u in &units {
        let mut seen: Vec<Result<Seen, String>> = vec![];
        for k in &u.knots {
            let r = match real(&json, k, &names) {
                Ok(r) => r,
                Err(e) => return Out::Fail("host call fails".into(), format!("knot {k}: {e}")),
            };
            let first = model(&p, k, &names, false);
            let second = if u.alt { Some(model(&p, k, &names, true)) } else { None };
            let judge = |m: &Result<Seen, Fault>| -> Option<String> {
                match (m, &r) {
                    (Err(Fault::Ambiguous(_)), _) | (Err(Fault::Fuel), _) => None,
                    (Err(Fault::Error(_)), Err(_)) => None,
                    (Err(Fault::Error(e)), Ok(s)) => Some(format!("the rules give no value ({e}), the engine gives {:?} and {:?}", s.0, s.1.iter().filter(|x| x.0.starts_with('r')).collect::<Vec<_>>())),
                    (Ok(m), Err(e)) => Some(format!("the rules give {:?}, the engine an error: {e}", m.0)),
                    (Ok(m), Ok(s)) => differs(m, s),
                }
            };
            let open = |m: &Result<Seen, Fault>| matches!(m, Err(Fault::Ambiguous(_)) | Err(Fault::Fuel));
            let mut bad = judge(&first);
            if let Some(s) = &second {
                if open(&first) || open(s) {
                    bad = None;
                } else if let (Some(_), None) = (&bad, judge(s)) {
                    ctx.label("the other reading of operator precedence");
                    bad = None;
                }
            }
            if open(&first) {
                ctx.label("left open by the rules");
            } else if u.model {
                compared += 1;
                ctx.label(if first.is_err() { "faults compared" } else { "values compared" });
                if u.alt {
                    ctx.label("operator rows with two readings");
                }
            }
            if let Some(b) = bad {
                let kind = if first.is_err() {
                    "value where an error is due"
                } else if r.is_err() {
                    "error instead of a value"
                } else {
                    "value"
                };
                return Out::Fail(kind.into(), format!("knot {k}, rules vs engine: {b}"));
            }
            seen.push(r);
        }
        // the same list built in another order
        for (i, s) in seen.iter().enumerate().skip(1) {
            ctx.label("same list, other order");
            match (&seen[0], s) {
                (Ok(a), Ok(b)) => {
                    if let Some(d) = differs(a, b) {
                        return Out::Fail("depends on insertion order".into(), format!("knots {} and {} build the same list in another order: {d}", u.knots[0], u.knots[i]));
                    }
                }
                (Err(_), Err(_)) => {}
                (a, b) => return Out::Fail("depends on insertion order".into(), format!("knots {} and {}: {a:?} vs {b:?}", u.knots[0], u.knots[i])),
            }
        }
    }
    Out::Pass { nontrivial: compared > 0 && (g.ops >= 2 || g.listops > 0), digest: hash_str(&text) }
}
