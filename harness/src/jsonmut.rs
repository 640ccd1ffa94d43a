//! Structural and textual damage to JSON documents.
use crate::tape::Tape;
use serde_json::{Value as J, json};

/// every key and token the loaders know, and some they do not
const KEYS: &[&str] = &[
    "inkVersion", "root", "listDefs", "#n", "#f", "^->", "^var", "ci", "->", "f()", "->t->", "x()", "var", "c", "exArgs", "*", "flg", "VAR?", "CNT?", "VAR=", "temp=", "re", "#", "list", "origins", "originalChoicePath",
    "text", "index", "originalThreadIndex", "targetPath", "tags", "flows", "currentFlowName", "variablesState", "evalStack", "currentDivertTarget", "visitCounts", "turnIndices", "turnIdx", "storySeed", "previousRandom",
    "inkSaveVersion", "inkFormatVersion", "callstack", "threads", "threadCounter", "threadIndex", "previousContentObject", "cPath", "idx", "exp", "type", "temp", "outputStream", "currentChoices", "choiceThreads",
    "callstackThreads", "currentCallstack", "DEFAULT_FLOW", "", "zz",
];

const TOKENS: &[&str] = &[
    "ev", "out", "/ev", "du", "pop", "~ret", "->->", "str", "/str", "nop", "choiceCnt", "turn", "turns", "readc", "rnd", "srnd", "visit", "seq", "thread", "done", "end", "listInt", "range", "lrnd", "#", "/#", "<>", "\n",
    "void", "+", "-", "/", "*", "%", "_", "==", ">", "<", ">=", "<=", "!=", "!", "&&", "||", "MIN", "MAX", "POW", "FLOOR", "CEILING", "INT", "FLOAT", "?", "!?", "L^", "LIST_MIN", "LIST_MAX", "LIST_ALL", "LIST_COUNT",
    "LIST_VALUE", "LIST_INVERT", "^", "^a", "^\n", "", "^^", "\u{e9}", "zz", "^->", "G<", "G>", "^ ", "\t",
];

const PATHS: &[&str] = &["", ".", ".^", ".^.^.^.^.^.^.^.^.^.^.^.^.^.^.^.^.^", "0", "0.0", "0.99", "99", "nowhere", "a.b", ".^.0", ".^.c-0", "0.c-0", "0.g-0", "..", ".0", "-1", "^", "^.^", "99999999999999999999", "4294967295", "global decl", "0.", ".^."];

/// Pointers to all nodes
fn nodes(j: &J) -> Vec<String> {
    fn go(j: &J, at: &str, v: &mut Vec<String>) {
        v.push(at.to_string());
        match j {
            J::Array(a) => a.iter().enumerate().for_each(|(i, x)| go(x, &format!("{at}/{i}"), v)),
            J::Object(o) => o.iter().for_each(|(k, x)| go(x, &format!("{at}/{}", k.replace('~', "~0").replace('/', "~1")), v)),
            _ => {}
        }
    }
    let mut v = vec![];
    go(j, "", &mut v);
    v
}

pub fn atom(t: &mut Tape) -> J {
    match t.below(12) {
        0 => J::Null,
        1 => json!(t.chance(1, 2)),
        2 => json!(*t.pick(&[0i64, 1, -1, 2, 5, 7, 100, 1000])),
        3 => json!(*t.pick(&[i32::MAX as i64, i32::MIN as i64, u32::MAX as i64, 1 << 31, 1 << 32, i64::MAX, i64::MIN, (1 << 53) + 1, -(1i64 << 31) - 1])),
        4 => json!(*t.pick(&[0.5f64, -0.0, 1e300, -1e300, 1e10, 3.4e38, 1e-300, 2147483648.5])),
        5 => json!(u64::MAX),
        6 | 7 => json!(*t.pick(TOKENS)),
        8 => json!(*t.pick(PATHS)),
        9 => json!([]),
        10 => json!({}),
        _ => match t.below(8) {
            0 => json!([null]),
            1 => json!([[], null]),
            2 => json!({ *t.pick(KEYS): 0 }),
            3 => json!({ *t.pick(KEYS): *t.pick(PATHS) }),
            4 => json!({ *t.pick(KEYS): [], *t.pick(KEYS): true }),
            5 => json!({ "list": { *t.pick(&["a", "", ".", "a.b", "L.a", "a.b.c"]): *t.pick(&[0, 1, -1, i32::MAX]) } }),
            6 => json!({ "list": {}, "origins": [*t.pick(&["", "L", "L0", "nowhere"])] }),
            _ => json!([{ "#n": *t.pick(&["", "a", "0", ".", "a.b", "^"]), "#f": *t.pick(&[0, 1, 7, -1]) }]),
        },
    }
}

fn text(t: &mut Tape, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match t.below(7) {
        0 => c.truncate(t.below(c.len() + 1)),
        1 => {
            let i = t.below(c.len() + 1);
            c.insert(i, *t.pick(&['.', '^', '0', ' ', '\n', '\u{e9}', '"', '-', '\0']));
        }
        2 if !c.is_empty() => {
            c.remove(t.below(c.len()));
        }
        3 => return t.pick(PATHS).to_string(),
        4 => return t.pick(TOKENS).to_string(),
        5 => return format!("{s}.{}", t.pick(&["0", "1", "9", "^", "c-0", "", "99999999999"])),
        _ => {
            let mut p: Vec<&str> = s.split('.').collect();
            let i = t.below(p.len());
            p[i] = *t.pick(&["0", "1", "7", "^", "zz", "", "-1", "18446744073709551615", "18446744073709551616"]);
            return p.join(".");
        }
    }
    c.into_iter().collect()
}

fn parent<'a>(j: &'a mut J, at: &str) -> Option<(&'a mut J, String)> {
    let i = at.rfind('/')?;
    let k = at[i + 1..].replace("~1", "/").replace("~0", "~");
    Some((j.pointer_mut(&at[..i])?, k))
}

/// One structural edit; the kind of edit
pub fn edit(t: &mut Tape, j: &mut J) -> &'static str {
    let n = nodes(j);
    // the deep nodes are by far the most: give the upper levels a share
    let at = if t.chance(1, 3) {
        let d = t.range(1, 4);
        let up: Vec<&String> = n.iter().filter(|p| p.matches('/').count() <= d).collect();
        (*t.pick(&up)).clone()
    } else {
        t.pick(&n).clone()
    };
    match t.weighted(&[5, 4, 2, 2, 4, 4, 3, 1, 4]) {
        0 => match parent(j, &at) {
            Some((J::Array(a), k)) => {
                a.remove(k.parse().unwrap());
                "delete"
            }
            Some((J::Object(o), k)) => {
                o.remove(&k);
                "delete"
            }
            _ => {
                *j = atom(t);
                "retype"
            }
        },
        1 => {
            *j.pointer_mut(&at).unwrap() = atom(t);
            "retype"
        }
        2 => match parent(j, &at) {
            Some((J::Array(a), k)) => {
                let k: usize = k.parse().unwrap();
                let x = a[k].clone();
                for _ in 0..*t.pick(&[1, 1, 2, 30]) {
                    a.insert(k, x.clone());
                }
                "duplicate"
            }
            _ => "nothing",
        },
        3 => {
            let b = t.pick(&n).clone();
            if at.starts_with(&b) || b.starts_with(&at) {
                return "nothing";
            }
            let x = j.pointer(&at).unwrap().clone();
            let y = std::mem::replace(j.pointer_mut(&b).unwrap(), x);
            *j.pointer_mut(&at).unwrap() = y;
            "swap"
        }
        4 => {
            let b = t.pick(&n).clone();
            let x = j.pointer(&b).unwrap().clone();
            *j.pointer_mut(&at).unwrap() = x;
            "copy"
        }
        5 => {
            // a number or a string of its own kind
            let leaves: Vec<&String> = n.iter().filter(|p| matches!(j.pointer(p), Some(J::Number(_) | J::String(_)))).collect();
            if leaves.is_empty() {
                return "nothing";
            }
            let at = (*t.pick(&leaves)).clone();
            let x = j.pointer_mut(&at).unwrap();
            *x = match &*x {
                J::Number(v) => {
                    let v = v.as_i64().unwrap_or(0);
                    json!(match t.below(6) {
                        0 => v.wrapping_add(1),
                        1 => v.wrapping_sub(1),
                        2 => v.wrapping_neg(),
                        3 => *t.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MIN as i64 - 1, u32::MAX as i64 + 1, i64::MAX]),
                        4 => v + 10,
                        _ => -1,
                    })
                }
                J::String(s) => json!(text(t, &s.clone())),
                _ => unreachable!(),
            };
            "tweak"
        }
        6 => {
            // a key renamed or added
            let objs: Vec<&String> = n.iter().filter(|p| matches!(j.pointer(p), Some(J::Object(_)))).collect();
            if objs.is_empty() {
                return "nothing";
            }
            let at = (*t.pick(&objs)).clone();
            let Some(J::Object(o)) = j.pointer_mut(&at) else { unreachable!() };
            let keys: Vec<String> = o.keys().cloned().collect();
            if keys.is_empty() || t.chance(1, 3) {
                let v = atom(t);
                o.insert(t.pick(KEYS).to_string(), v);
                "add key"
            } else {
                let k = t.pick(&keys).clone();
                let v = o.remove(&k).unwrap();
                let new = if t.chance(1, 2) { t.pick(KEYS).to_string() } else { text(t, &k) };
                o.insert(new, v);
                "rename key"
            }
        }
        7 => {
            let x = j.pointer_mut(&at).unwrap();
            let mut y = std::mem::take(x);
            for _ in 0..*t.pick(&[1, 2, 40]) {
                y = match t.below(2) {
                    0 => json!([y]),
                    _ => json!([y, null]),
                };
            }
            *x = y;
            "wrap"
        }
        _ => match parent(j, &at) {
            Some((J::Array(a), k)) => {
                let x = atom(t);
                a.insert(k.parse().unwrap(), x);
                "insert"
            }
            Some((J::Object(o), _)) => {
                let v = atom(t);
                o.insert(t.pick(KEYS).to_string(), v);
                "add key"
            }
            _ => "nothing",
        },
    }
}

/// One edit of the text; the kind of edit
pub fn edit_text(t: &mut Tape, s: &mut String) -> &'static str {
    let mut b = std::mem::take(s).into_bytes();
    let i = t.below(b.len() + 1);
    let kind = match t.below(8) {
        0 | 1 => {
            b.truncate(i);
            "truncate"
        }
        2 => {
            if i < b.len() {
                b[i] = *t.pick(b"{}[],:\"\\ \n0-9.eEtfn^\0\x7f");
            }
            "byte"
        }
        3 => {
            b.insert(i, *t.pick(b"{}[],:\"\\ \n0-9.eEtfn^\0\x7f"));
            "byte"
        }
        4 => {
            let n = (i + t.range(1, 12)).min(b.len());
            b.drain(i..n);
            "cut"
        }
        5 => {
            let x: &[u8] = *t.pick(&[b"\\u0000".as_slice(), b"\\ud800", b"\\u", b"\\x", b"//", b"/**/", b"1e999", b"-", b"--1", b"0x1", b"NaN", b"Infinity", b"tru", b"nul", b"\xef\xbb\xbf", "\u{1F600}".as_bytes(), b"1.", b".5", b"01", b"1e", b"\"\"", b"{\"a\":1,\"a\":2}"]);
            b.splice(i..i, x.iter().copied());
            "splice"
        }
        6 => {
            let k = *t.pick(&[200usize, 3000, 100_000]);
            let x: &[u8] = *t.pick(&[b"[".as_slice(), b"{\"a\":", b"[[],", b"{\"\":[", b"\"", b"]", b"}", b"-", b"9", b" ", b"\\"]);
            let y: Vec<u8> = x.iter().copied().cycle().take(x.len() * k).collect();
            b.splice(i..i, y);
            "bomb"
        }
        _ => {
            let n = b.len();
            let j = t.below(n + 1);
            let l = t.range(1, 60).min(n - j);
            let x = b[j..j + l].to_vec();
            b.splice(i..i, x);
            "repeat"
        }
    };
    *s = String::from_utf8(b).unwrap_or_else(|e| String::from_utf8_lossy(e.as_bytes()).into_owned());
    kind
}

/// A damaged copy of a document
pub fn damage(t: &mut Tape, src: &str) -> (String, Vec<&'static str>) {
    let mut kinds = vec![];
    let mut s = src.to_string();
    let n = *t.pick(&[1usize, 1, 1, 2, 4]);
    if t.chance(4, 5)
        && let Ok(mut j) = serde_json::from_str::<J>(src)
    {
        for _ in 0..n {
            kinds.push(edit(t, &mut j));
        }
        s = j.to_string();
    }
    if kinds.is_empty() || t.chance(1, 12) {
        for _ in 0..n.min(2) {
            kinds.push(edit_text(t, &mut s));
        }
    }
    (s, kinds)
}

/// a content tree without any control flow
pub fn tree(t: &mut Tape, depth: usize, budget: &mut usize, names: &[&str], leaf: &dyn Fn(&mut Tape) -> J) -> J {
    let n = *t.pick(&[0usize, 1, 1, 2, 3, 5, 12]);
    let mut used: Vec<String> = vec![];
    let mut v = vec![];
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        if depth > 0 && t.chance(1, 2) {
            let mut c = tree(t, depth - 1, budget, names, leaf);
            if t.chance(1, 3) {
                let name = t.pick(names).to_string();
                if !used.contains(&name) {
                    used.push(name.clone());
                    let a = c.as_array_mut().unwrap();
                    let last = a.last_mut().unwrap();
                    if last.is_null() {
                        *last = json!({});
                    }
                    last["#n"] = json!(name);
                }
            }
            v.push(c);
        } else {
            v.push(leaf(t));
        }
    }
    let mut named = serde_json::Map::new();
    if t.chance(1, 3) {
        for _ in 0..t.range(1, 3) {
            if *budget == 0 || depth == 0 {
                break;
            }
            *budget -= 1;
            let name = t.pick(names).to_string();
            if !used.contains(&name) {
                used.push(name.clone());
                let x = tree(t, depth - 1, budget, names, leaf);
                named.insert(name, x);
            }
        }
    }
    if t.chance(1, 3) {
        named.insert("#f".into(), json!(t.range(0, 7)));
    }
    v.push(if named.is_empty() { J::Null } else { J::Object(named) });
    J::Array(v)
}
