//! Values and operators as the Ink documentation and the reference engine
//! define them, written from scratch over ordered sets.
use super::ast::ListDef;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Bool(bool),
    Int(i32),
    Float(f32),
    List(L),
    Str(String),
    Target(String),
    /// reference parameter: global name or (frame index, temp name)
    Ref(Option<usize>, String),
    Void,
}

/// items: (origin, item) -> value; origins matter only while empty
#[derive(Clone, Debug, Default, PartialEq)]
pub struct L {
    pub items: BTreeMap<(String, String), i32>,
    pub names: BTreeSet<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// the Ink rules give no value: the story must report an error
    Error(String),
    /// the rules leave the result open; the case is not judged
    Ambiguous(String),
    /// the program ran too long for the model
    Fuel,
}

pub type R<T> = Result<T, Fault>;

pub fn err<T>(s: &str) -> R<T> {
    Err(Fault::Error(s.to_string()))
}

impl L {
    pub fn origins(&self) -> BTreeSet<String> {
        if self.items.is_empty() { self.names.clone() } else { self.items.keys().map(|k| k.0.clone()).collect() }
    }
    pub fn min(&self) -> Option<i32> {
        self.items.values().min().copied()
    }
    pub fn max(&self) -> Option<i32> {
        self.items.values().max().copied()
    }
    fn only(&self, v: Option<i32>) -> R<L> {
        let mut l = L::default();
        if let Some(v) = v {
            for (k, x) in &self.items {
                if *x == v {
                    l.items.insert(k.clone(), *x);
                }
            }
        }
        if l.items.len() > 1 {
            return Err(Fault::Ambiguous("tie between list items".into()));
        }
        Ok(l)
    }
    pub fn ordered(&self) -> Vec<(&(String, String), i32)> {
        let mut v: Vec<_> = self.items.iter().map(|(k, x)| (k, *x)).collect();
        v.sort_by(|a, b| (a.1, &a.0.0).cmp(&(b.1, &b.0.0)));
        v
    }
}

pub fn def_items(defs: &[ListDef], origin: &str) -> BTreeMap<(String, String), i32> {
    let mut m = BTreeMap::new();
    for d in defs {
        if d.name == origin {
            for (n, v, _) in &d.items {
                m.insert((d.name.clone(), n.clone()), *v);
            }
        }
    }
    m
}

pub fn show(v: &V) -> String {
    match v {
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Float(f) => f.to_string(),
        V::Str(s) => s.clone(),
        V::Target(t) => format!("DivertTargetValue({})", t),
        V::List(l) => l.ordered().iter().map(|(k, _)| k.1.clone()).collect::<Vec<_>>().join(", "),
        V::Ref(..) => "<ref>".into(),
        V::Void => String::new(),
    }
}

pub fn truthy(v: &V) -> R<bool> {
    Ok(match v {
        V::Bool(b) => *b,
        V::Int(i) => *i != 0,
        V::Float(f) => *f != 0.0,
        V::Str(s) => !s.is_empty(),
        V::List(l) => !l.items.is_empty(),
        _ => return err("no truth value"),
    })
}

fn rank(v: &V) -> R<u8> {
    Ok(match v {
        V::Bool(_) | V::Int(_) => 0,
        V::Float(_) => 1,
        V::List(_) => 2,
        V::Str(_) => 3,
        V::Target(_) => 4,
        _ => return err("operand without type"),
    })
}

fn as_int(v: &V) -> R<i32> {
    match v {
        V::Bool(b) => Ok(*b as i32),
        V::Int(i) => Ok(*i),
        _ => err("not an int"),
    }
}

fn as_float(v: &V) -> R<f32> {
    match v {
        V::Float(f) => Ok(*f),
        o => Ok(as_int(o)? as f32),
    }
}

pub fn unary(defs: &[ListDef], op: &str, a: &V) -> R<V> {
    if let V::Void = a {
        return err("void operand");
    }
    if let V::List(l) = a {
        return Ok(match op {
            // the reference engine answers with an int here
            "not" | "!" => V::Int(l.items.is_empty() as i32),
            "LIST_COUNT" => V::Int(l.items.len() as i32),
            "LIST_MIN" => V::List(l.only(l.min())?),
            "LIST_MAX" => V::List(l.only(l.max())?),
            "LIST_VALUE" => V::Int(l.max().unwrap_or(0)),
            "LIST_ALL" | "LIST_INVERT" => {
                let mut r = L::default();
                for o in l.origins() {
                    for (k, v) in def_items(defs, &o) {
                        if op == "LIST_ALL" || !l.items.contains_key(&k) {
                            r.items.insert(k, v);
                        }
                    }
                }
                V::List(r)
            }
            _ => return err("list operand"),
        });
    }
    match rank(a)? {
        0 => {
            let i = as_int(a)?;
            Ok(match op {
                "-" => V::Int(i.wrapping_neg()),
                "not" | "!" => V::Bool(i == 0),
                "FLOOR" | "CEILING" | "INT" => V::Int(i),
                "FLOAT" => V::Float(i as f32),
                _ => return err("int operand"),
            })
        }
        1 => {
            let f = as_float(a)?;
            Ok(match op {
                "-" => V::Float(-f),
                "not" | "!" => V::Bool(f == 0.0),
                "FLOOR" => V::Float(f.floor()),
                "CEILING" => V::Float(f.ceil()),
                "INT" => V::Int(f as i32),
                "FLOAT" => V::Float(f),
                _ => return err("float operand"),
            })
        }
        _ => err("operand type"),
    }
}

pub fn binary(defs: &[ListDef], op: &str, a: &V, b: &V) -> R<V> {
    let op = match op {
        "and" => "&&",
        "or" => "||",
        "mod" => "%",
        "has" => "?",
        "hasnt" => "!?",
        o => o,
    };
    if matches!(a, V::Void) || matches!(b, V::Void) {
        return err("void operand");
    }
    if matches!(a, V::List(_)) || matches!(b, V::List(_)) {
        return list_binary(defs, op, a, b);
    }
    match rank(a)?.max(rank(b)?) {
        0 => {
            let (x, y) = (as_int(a)?, as_int(b)?);
            Ok(match op {
                "+" => V::Int(x.wrapping_add(y)),
                "-" => V::Int(x.wrapping_sub(y)),
                "*" => V::Int(x.wrapping_mul(y)),
                "/" | "%" if y == 0 => return err("division by zero"),
                "/" | "%" if x == i32::MIN && y == -1 => return Err(Fault::Ambiguous("MIN / -1".into())),
                "/" => V::Int(x.wrapping_div(y)),
                "%" => V::Int(x.wrapping_rem(y)),
                "==" => V::Bool(x == y),
                "!=" => V::Bool(x != y),
                "<" => V::Bool(x < y),
                ">" => V::Bool(x > y),
                "<=" => V::Bool(x <= y),
                ">=" => V::Bool(x >= y),
                "&&" => V::Bool(x != 0 && y != 0),
                "||" => V::Bool(x != 0 || y != 0),
                "MIN" => V::Int(x.min(y)),
                "MAX" => V::Int(x.max(y)),
                "POW" => V::Float((x as f32).powf(y as f32)),
                _ => return err("int operands"),
            })
        }
        1 => {
            let (x, y) = (as_float(a)?, as_float(b)?);
            Ok(match op {
                "+" => V::Float(x + y),
                "-" => V::Float(x - y),
                "*" => V::Float(x * y),
                "/" => V::Float(x / y),
                "%" => V::Float(x % y),
                "==" => V::Bool(x == y),
                "!=" => V::Bool(x != y),
                "<" => V::Bool(x < y),
                ">" => V::Bool(x > y),
                "<=" => V::Bool(x <= y),
                ">=" => V::Bool(x >= y),
                "&&" => V::Bool(x != 0.0 && y != 0.0),
                "||" => V::Bool(x != 0.0 || y != 0.0),
                "MIN" => V::Float(x.min(y)),
                "MAX" => V::Float(x.max(y)),
                "POW" => V::Float(x.powf(y)),
                _ => return err("float operands"),
            })
        }
        3 => {
            if matches!(a, V::Target(_)) || matches!(b, V::Target(_)) {
                return err("target and string");
            }
            let (x, y) = (show(a), show(b));
            Ok(match op {
                "+" => V::Str(x + &y),
                "==" => V::Bool(x == y),
                "!=" => V::Bool(x != y),
                "?" => V::Bool(x.contains(&y)),
                "!?" => V::Bool(!x.contains(&y)),
                _ => return err("string operands"),
            })
        }
        _ => match (op, a, b) {
            ("==", V::Target(x), V::Target(y)) => Ok(V::Bool(x == y)),
            ("!=", V::Target(x), V::Target(y)) => Ok(V::Bool(x != y)),
            _ => err("target operands"),
        },
    }
}

fn list_binary(defs: &[ListDef], op: &str, a: &V, b: &V) -> R<V> {
    if let ("+" | "-", V::List(l), V::Int(n)) = (op, a, b) {
        let d = if op == "+" { *n as i64 } else { -(*n as i64) };
        let mut r = L::default();
        for (k, v) in &l.items {
            let want = *v as i64 + d;
            let mut hits: Vec<_> = def_items(defs, &k.0).into_iter().filter(|(_, x)| *x as i64 == want).collect();
            if hits.len() > 1 {
                return Err(Fault::Ambiguous("two items with the same value".into()));
            }
            if let Some((k, v)) = hits.pop() {
                r.items.insert(k, v);
            }
        }
        return Ok(V::List(r));
    }
    let (x, y) = match (a, b) {
        (V::List(x), V::List(y)) => (x, y),
        _ => {
            return match op {
                "&&" => Ok(V::Bool(truthy(a)? && truthy(b)?)),
                "||" => Ok(V::Bool(truthy(a)? || truthy(b)?)),
                _ => err("list and non-list"),
            };
        }
    };
    let subset = |p: &L, q: &L| p.items.keys().all(|k| q.items.contains_key(k));
    let has = !x.items.is_empty() && !y.items.is_empty() && subset(y, x);
    Ok(match op {
        "+" => {
            let mut r = x.clone();
            r.items.extend(y.items.iter().map(|(k, v)| (k.clone(), *v)));
            V::List(r)
        }
        "-" => {
            let mut r = L { items: BTreeMap::new(), names: x.origins() };
            for (k, v) in &x.items {
                if !y.items.contains_key(k) {
                    r.items.insert(k.clone(), *v);
                }
            }
            V::List(r)
        }
        "^" => {
            let mut r = L::default();
            for (k, v) in &x.items {
                if y.items.contains_key(k) {
                    r.items.insert(k.clone(), *v);
                }
            }
            V::List(r)
        }
        "?" => V::Bool(has),
        "!?" => V::Bool(!has),
        "==" => V::Bool(x.items.len() == y.items.len() && subset(x, y)),
        "!=" => V::Bool(!(x.items.len() == y.items.len() && subset(x, y))),
        ">" => V::Bool(match (x.min(), y.max()) {
            (None, _) => false,
            (_, None) => true,
            (Some(p), Some(q)) => p > q,
        }),
        "<" => V::Bool(match (x.max(), y.min()) {
            (_, None) => false,
            (None, _) => true,
            (Some(p), Some(q)) => p < q,
        }),
        ">=" => V::Bool(if x.items.is_empty() {
            false
        } else if y.items.is_empty() {
            true
        } else {
            x.min() >= y.min() && x.max() >= y.max()
        }),
        "<=" => V::Bool(if y.items.is_empty() {
            false
        } else if x.items.is_empty() {
            true
        } else {
            x.max() <= y.max() && x.min() <= y.min()
        }),
        "&&" => V::Bool(!x.items.is_empty() && !y.items.is_empty()),
        "||" => V::Bool(!x.items.is_empty() || !y.items.is_empty()),
        _ => return err("list operands"),
    })
}

pub fn list_range(l: &V, lo: &V, hi: &V) -> R<V> {
    let V::List(l) = l else { return err("LIST_RANGE of a non-list") };
    let mut r = L { items: BTreeMap::new(), names: l.origins() };
    if l.items.is_empty() {
        return Ok(V::List(L::default()));
    }
    let lo = match lo {
        V::Int(i) => *i,
        V::List(m) => m.min().unwrap_or(0),
        _ => return Err(Fault::Ambiguous("LIST_RANGE bound".into())),
    };
    let hi = match hi {
        V::Int(i) => *i,
        V::List(m) => m.max().unwrap_or(i32::MAX),
        _ => return Err(Fault::Ambiguous("LIST_RANGE bound".into())),
    };
    for (k, v) in &l.items {
        if *v >= lo && *v <= hi {
            r.items.insert(k.clone(), *v);
        }
    }
    Ok(V::List(r))
}

pub fn list_from_int(defs: &[ListDef], list: &str, n: &V) -> R<V> {
    let V::Int(n) = n else { return err("list from a non-int") };
    let hits: Vec<_> = def_items(defs, list).into_iter().filter(|(_, v)| v == n).collect();
    if hits.len() > 1 {
        return Err(Fault::Ambiguous("two items with the same value".into()));
    }
    Ok(V::List(L { items: hits.into_iter().collect(), names: BTreeSet::new() }))
}
