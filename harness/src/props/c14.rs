//! C14: the default loader and the streaming loader build the same story from the same document.
use crate::runner::{Ctx, Out, Prop, Tier, clip, guard};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use serde_json::{Map, Value as J, json};

pub const PROP: Prop = Prop {
    id: "C14",
    rule: "one document, loaded by the default loader here and by the streaming loader in a process built with stream-json-parser: same audit listing (place, kind, text, path, target and flags of every object), list definitions, global tags, and the same transcript, visible state and save after every call of one generated history; documents: corpus (both compilers), compiled generated and untyped programs, generated content trees, with odd characters put into texts and names, each as compiled or written again with other escapes, number forms and white space; the rewritten document must also load like the original; non-trivial = at least 12 objects and either two calls or a rewritten document",
    cases: |t| if t == Tier::Quick { 60_000 } else { 1_500_000 },
    run,
    builds: &["release"],
    peer: Some("stream"),
};

const NAMES: &[&str] = &["a", "b", "k", "c-0", "g-0", "s", "list", "text", "c", "var", "ci", "re", "index", "originalChoicePath", "targetPath", "origins", "exArgs", "flg", "\u{e9}t\u{e9}", "\u{65e5}\u{672c}", "\u{10437}", "s0", "$r1", "global decl", "x y", "q\"q", "b\\b", "t\tt"];

/// every form of content a compiler writes
fn leaf(t: &mut Tape) -> J {
    const WORDS: &[&str] = &[
        "ev", "out", "/ev", "du", "pop", "~ret", "->->", "str", "/str", "nop", "choiceCnt", "turn", "turns", "readc", "rnd", "srnd", "visit", "seq", "thread", "done", "end", "listInt", "range", "lrnd", "#", "/#", "<>", "\n",
        "void", "+", "-", "/", "*", "%", "_", "==", ">", "<", ">=", "<=", "!=", "!", "&&", "||", "MIN", "MAX", "POW", "FLOOR", "CEILING", "INT", "FLOAT", "?", "!?", "L^", "LIST_MIN", "LIST_MAX", "LIST_ALL", "LIST_COUNT",
        "LIST_VALUE", "LIST_INVERT",
    ];
    const NAME: &[&str] = &["x", "list", "\u{e9}", "c", "\u{10437}x"];
    const PATH: &[&str] = &["a", "0", ".^.a", ".^.^.0", "k.s", "0.c-0", ".^", "\u{e9}t\u{e9}.0", "list.0"];
    match t.below(16) {
        0 | 1 => json!(format!("^{}", odd(t, 12))),
        2 => json!("\n"),
        3 => json!(t.pick(WORDS)),
        4 => json!(*t.pick(&[0, 1, -1, 7, 10, 100, i32::MAX, i32::MIN, -20, 1_000_000])),
        5 => json!(*t.pick(&[0.0, -0.0, 1.0, 0.5, -2.25, 1e10, 3.0e38, 1e-10, 0.1, 123456.79, 1e-45, 16777217.0, 3.14159274])),
        6 => json!(t.chance(1, 2)),
        7 => json!({"^->": t.pick(PATH)}),
        8 => {
            if t.chance(1, 3) {
                json!({"^var": t.pick(NAME)})
            } else {
                json!({"^var": t.pick(NAME), "ci": *t.pick(&[-1, 0, 1, 5])})
            }
        }
        9 | 10 => {
            let mut m = Map::new();
            let what = *t.pick(&["->", "->", "f()", "->t->", "x()"]);
            let var = what != "x()" && t.chance(1, 4);
            m.insert(what.into(), json!(if var || what == "x()" { *t.pick(NAME) } else { *t.pick(PATH) }));
            if var {
                m.insert("var".into(), json!(true));
            }
            let (c, n) = (t.chance(1, 4), t.range(0, 3));
            let arg = what == "x()" && n > 0;
            // either order
            if arg && t.chance(1, 2) {
                m.insert("exArgs".into(), json!(n));
            }
            if c {
                m.insert("c".into(), json!(true));
            }
            if arg {
                m.insert("exArgs".into(), json!(n));
            }
            J::Object(m)
        }
        11 => json!({"*": t.pick(PATH), "flg": t.range(0, 31)}),
        12 => json!({"VAR?": t.pick(NAME)}),
        13 => json!({"CNT?": t.pick(PATH)}),
        14 => {
            let k = *t.pick(&["VAR=", "temp="]);
            if t.chance(1, 2) { json!({k: t.pick(NAME), "re": true}) } else { json!({k: t.pick(NAME)}) }
        }
        _ => match t.below(4) {
            0 => json!({"#": odd(t, 6)}),
            1 => json!({"list": {}, "origins": ["L"]}),
            2 => json!({"list": {}, "origins": ["L", "M\u{e9}"]}),
            _ => {
                let mut m = Map::new();
                for i in ["L.a", "L.b", "M\u{e9}.a", "M\u{e9}.\u{1d49c}", "L.list"] {
                    if t.chance(1, 2) {
                        m.insert(i.into(), json!(t.range(0, 9)));
                    }
                }
                json!({ "list": m })
            }
        },
    }
}

const ODD: &[char] = &[
    '\t', '"', '\\', '/', '\u{1}', '\u{8}', '\u{c}', '\r', '\u{b}', '\u{1f}', '\u{7f}', '\u{85}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{fffe}', '\u{1f600}', '\u{10ffff}', '\u{10000}', '\u{d7ff}', '\u{e000}', '\u{e9}', '\u{65e5}',
    '\u{200b}', '\u{3000}', '\u{0}', 'u', 'n', 'b', '^', ',', ':', '{', '}', '[', ']', '#', '\'', ' ', 'A', '0', '\n', '\u{301}',
];

fn odd(t: &mut Tape, max: usize) -> String {
    let n = t.range(0, max);
    let mut s = String::new();
    for _ in 0..n {
        match t.below(12) {
            0 => s += *t.pick(&["\\n", "\\u0041", "\\\"", "\\\\", "\\ud83d\\ude00", "\"}", "\",\"", "\\t"]),
            1 | 2 => s.push((b'a' + t.below(26) as u8) as char),
            3 => s.push(loop {
                if let Some(c) = char::from_u32(t.below(0x110000) as u32) {
                    break c;
                }
            }),
            _ => s.push(*t.pick(ODD)),
        }
    }
    s
}

fn tree_prg(t: &mut Tape) -> Prg {
    let mut budget = *t.pick(&[6usize, 20, 60, 120]);
    let d = t.range(0, 8);
    let mut root = crate::jsonmut::tree(t, d, &mut budget, NAMES, &leaf);
    // deep, as far as the default loader goes
    if t.chance(1, 12) {
        let n = t.range(1, 110);
        for _ in 0..n {
            root = match t.below(3) {
                0 => json!([root, null]),
                1 => json!([{"a": root}]),
                _ => json!([json!("^x"), root, {"#f": 1}]),
            };
        }
    }
    let defs = if t.chance(1, 4) { json!({}) } else { json!({"L": {"a": 1, "b": 2, "list": 5}, "M\u{e9}": {"a": *t.pick(&[1, -3, i32::MAX]), "\u{1d49c}": 4}, "N": {}}) };
    let v = *t.pick(&[21, 21, 21, 20, 19, 18]);
    let j = json!({"inkVersion": v, "root": root, "listDefs": defs});
    raw_prg("content tree", j.to_string(), j.to_string())
}

/// Puts odd characters into texts, and renames a variable or a list item.
pub fn decorate(t: &mut Tape, j: &mut J) {
    fn texts(t: &mut Tape, j: &mut J, rate: usize) {
        match j {
            J::String(s) if s.starts_with('^') => {
                if t.chance(rate, 10) {
                    let o = odd(t, 4);
                    let mut c: Vec<char> = s.chars().collect();
                    let at = t.range(1, c.len());
                    c.splice(at..at, o.chars());
                    *s = c.into_iter().collect();
                }
            }
            J::Array(a) => a.iter_mut().for_each(|x| texts(t, x, rate)),
            J::Object(o) => o.values_mut().for_each(|x| {
                if x.is_array() {
                    texts(t, x, rate)
                }
            }),
            _ => {}
        }
    }
    let rate = *t.pick(&[1, 4, 9]);
    texts(t, &mut j["root"], rate);
    // a name, everywhere it stands
    fn rename(j: &mut J, old: &str, new: &str) {
        match j {
            J::Array(a) => a.iter_mut().for_each(|x| rename(x, old, new)),
            J::Object(o) => {
                for k in ["VAR?", "VAR=", "temp=", "^var"] {
                    if o.get(k).and_then(|x| x.as_str()) == Some(old) {
                        o[k] = json!(new);
                    }
                }
                o.values_mut().for_each(|x| rename(x, old, new));
            }
            _ => {}
        }
    }
    let mut names = vec![];
    fn find(j: &J, names: &mut Vec<String>) {
        match j {
            J::Array(a) => a.iter().for_each(|x| find(x, names)),
            J::Object(o) => {
                for k in ["VAR=", "temp="] {
                    if let Some(n) = o.get(k).and_then(|x| x.as_str()) {
                        names.push(n.to_string());
                    }
                }
                o.values().for_each(|x| find(x, names));
            }
            _ => {}
        }
    }
    if t.chance(1, 2) {
        find(&j["root"], &mut names);
        if !names.is_empty() {
            let old = t.pick(&names).clone();
            let new = format!("{old}{}", t.pick(&["\u{e9}", "\u{65e5}", "\u{10437}", "_", "list"]));
            rename(&mut j["root"], &old, &new);
        }
    }
    if t.chance(1, 3)
        && let Some(d) = j["listDefs"].as_object()
        && !d.is_empty()
    {
        let d: Vec<(String, Vec<String>)> = d.iter().map(|(k, v)| (k.clone(), v.as_object().map(|v| v.keys().cloned().collect()).unwrap_or_default())).collect();
        let (l, items) = t.pick(&d).clone();
        let suffix = *t.pick(&["\u{e9}", "\u{65e5}", "\u{10437}"]);
        fn keys(j: &mut J, f: &dyn Fn(&str) -> Option<String>) {
            match j {
                J::Array(a) => a.iter_mut().for_each(|x| keys(x, f)),
                J::Object(o) => {
                    if let Some(J::Object(l)) = o.get_mut("list") {
                        *l = std::mem::take(l).into_iter().map(|(k, v)| (f(&k).unwrap_or(k), v)).collect();
                    }
                    o.values_mut().for_each(|x| keys(x, f));
                }
                _ => {}
            }
        }
        if !items.is_empty() {
            let i = t.pick(&items).clone();
            let full = format!("{l}.{i}");
            let new = format!("{i}{suffix}");
            let o = j["listDefs"][&l].as_object_mut().unwrap();
            *o = std::mem::take(o).into_iter().map(|(k, v)| if k == i { (new.clone(), v) } else { (k, v) }).collect();
            keys(&mut j["root"], &|k| if k == full { Some(format!("{l}.{new}")) } else { None });
            rename(&mut j["root"], &full, &format!("{l}.{new}"));
        }
    }
}

/// How a document is written.
struct Style {
    spaces: usize,
    esc: usize,
    upper: bool,
    nums: bool,
    braces: bool,
}

fn gap(t: &mut Tape, st: &Style, depth: usize, out: &mut String) {
    match st.spaces {
        0 => {}
        1 => {
            out.push('\n');
            out.push_str(&"  ".repeat(depth));
        }
        2 => {
            out.push_str("\r\n");
            out.push_str(&"\t".repeat(depth));
        }
        3 => out.push(' '),
        _ => {
            if t.chance(1, 2) {
                for _ in 0..t.range(1, 3) {
                    out.push(*t.pick(&[' ', '\n', '\t', '\r']));
                }
            }
        }
    }
}

fn string(t: &mut Tape, st: &Style, s: &str, out: &mut String) {
    out.push('"');
    let hex = |c: char, out: &mut String| {
        let mut b = [0u16; 2];
        for u in c.encode_utf16(&mut b) {
            *out += &if st.upper { format!("\\u{u:04X}") } else { format!("\\u{u:04x}") };
        }
    };
    for c in s.chars() {
        let any = st.esc == 3 && t.chance(1, 6);
        match c {
            _ if any => hex(c, out),
            '"' => *out += "\\\"",
            '\\' => *out += "\\\\",
            '/' if st.esc >= 2 && t.chance(1, 2) => *out += "\\/",
            '\n' => *out += "\\n",
            '\r' => *out += "\\r",
            '\t' => *out += "\\t",
            '\u{8}' => *out += "\\b",
            '\u{c}' => *out += "\\f",
            c if (c as u32) < 0x20 => hex(c, out),
            '\u{7f}' if st.esc >= 1 => hex(c, out),
            c if !c.is_ascii() && (st.esc == 1 || st.esc >= 2 && t.chance(1, 2)) => hex(c, out),
            c => out.push(c),
        }
    }
    out.push('"');
}

fn number(t: &mut Tape, st: &Style, n: &serde_json::Number, out: &mut String) {
    let s = n.to_string();
    if !st.nums || !n.is_f64() || t.chance(1, 3) {
        *out += &s;
        return;
    }
    let f = n.as_f64().unwrap();
    let forms = [format!("{f:e}"), format!("{f:E}"), format!("{f:?}"), s.replace("e", "E"), if s.contains(['e', 'E']) { s.clone() } else { format!("{s}00") }, if s.contains(['e', 'E']) { s.clone() } else { format!("{s}e0") }, if s.contains(['e', 'E']) { s.clone() } else { format!("{s}E+0") }, {
        let e = format!("{f:e}");
        match e.split_once('e') {
            // 1.5e3 as 15e2
            Some((m, x)) if m.contains('.') => {
                let d = m.split('.').nth(1).unwrap().len() as i32;
                format!("{}e{}", m.replace('.', "").trim_start_matches('0'), x.parse::<i32>().unwrap() - d)
            }
            _ => e,
        }
    }];
    let x = t.pick(&forms).clone();
    // only forms of the very same number that are still not integers
    let same = |x: &str| serde_json::from_str::<serde_json::Number>(x).is_ok_and(|y| y.is_f64() && y.as_f64().map(f64::to_bits) == Some(f.to_bits()));
    *out += if same(&x) { &x } else { &s };
}

fn write(t: &mut Tape, st: &Style, j: &J, depth: usize, out: &mut String) {
    match j {
        J::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(t, st, depth + 1, out);
                if x.is_null() && i + 1 == a.len() && st.braces && t.chance(1, 2) {
                    *out += "{}";
                } else {
                    write(t, st, x, depth + 1, out);
                }
                if st.spaces > 3 {
                    gap(t, st, depth + 1, out);
                }
            }
            gap(t, st, depth, out);
            out.push(']');
        }
        J::Object(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(t, st, depth + 1, out);
                string(t, st, k, out);
                if st.spaces > 3 {
                    gap(t, st, depth, out);
                }
                out.push(':');
                match st.spaces {
                    0 => {}
                    1..=3 => out.push(' '),
                    _ => gap(t, st, depth, out),
                }
                write(t, st, x, depth + 1, out);
                if st.spaces > 3 {
                    gap(t, st, depth, out);
                }
            }
            if !o.is_empty() {
                gap(t, st, depth, out);
            }
            out.push('}');
        }
        J::String(s) => string(t, st, s, out),
        J::Number(n) => number(t, st, n, out),
        x => *out += &x.to_string(),
    }
}

/// equal as far as a story can tell
fn alike(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(x), J::Number(y)) => x == y || x.is_f64() && y.is_f64() && x.as_f64().map(|x| x as f32) == y.as_f64().map(|y| y as f32),
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| alike(x, y)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, x), (l, y))| k == l && alike(x, y)),
        _ => a == b,
    }
}

struct Seen {
    listing: Vec<String>,
    log: Vec<String>,
}

#[cfg(bladeink_verif_audit)]
fn listing(s: &bladeink::story::Story) -> Vec<String> {
    let a = s.verif_audit(&[]);
    let mut listing: Vec<String> = a.entries.iter().map(|e| format!("{}: {} {} ({}) -> {:?}", e.at, e.kind, e.text, e.path, e.target)).collect();
    listing.extend(s.verif_list_definitions());
    listing
}

/// Built without the audit hook: only the play is compared.
#[cfg(not(bladeink_verif_audit))]
fn listing(_: &bladeink::story::Story) -> Vec<String> {
    vec![]
}

/// Everything the loader built, and a play of it.
fn look(json: &str, tape: &[u32], play: bool) -> Result<Seen, String> {
    let p = raw_prg("document", String::new(), json.to_string());
    let r = guard(|| -> Result<Seen, String> {
        let s = new_story(&p, 11)?;
        Ok(Seen { listing: listing(&s), log: vec![] })
    });
    let mut seen = match r {
        Ok(r) => r?,
        Err(e) => return Err(format!("panics: {e}")),
    };
    if play {
        let mut log = vec![];
        if let Err(e) = guard(|| plays(&p, &mut Tape::replay(tape.to_vec()), &mut log)) {
            log.push(format!("panics: {e}"));
        }
        seen.log = log;
    }
    Ok(seen)
}

fn plays(p: &Prg, t: &mut Tape, log: &mut Vec<String>) {
    let r = rig(t, p, true);
    let mut s = match Session::rigged(p, 11, &r) {
        Ok(s) => s,
        Err(e) => return log.push(e),
    };
    s.fuel = s.fuel.min(6_000);
    log.push(format!("{:?}", s.story.get_global_tags().map_err(|e| e.to_string())));
    let w = Weights { max: 2, ..HOST };
    for _ in 0..t.range(3, 16) {
        let Some(op) = next_op(t, &s, p, &w) else { break };
        let x = s.apply(&op);
        log.push(format!("{op:?} -> {x}"));
        if s.out_of_fuel() {
            log.push("runs away".into());
            return;
        }
        for e in settle(s.events()) {
            log.push(format!("  {e}"));
        }
        for (k, v) in observe(&mut s.story, p) {
            log.push(format!("  {k}: {v}"));
        }
        match s.story.save_state() {
            Ok(x) => log.push(format!("  saved: {}", serde_json::from_str::<J>(&x).map(|j| canon(&j).to_string()).unwrap_or_default())),
            Err(e) => log.push(format!("  not saved: {e}")),
        }
        if s.story.has_error() {
            let op = Op::Reset;
            log.push(format!("{op:?} -> {}", s.apply(&op)));
        }
    }
}

fn canon(j: &J) -> J {
    match j {
        J::Object(m) => {
            let mut k: Vec<&String> = m.keys().collect();
            k.sort();
            J::Object(k.into_iter().map(|k| (k.clone(), canon(&m[k]))).collect())
        }
        J::Array(a) => J::Array(a.iter().map(canon).collect()),
        x => x.clone(),
    }
}

fn differ(a: &[String], b: &[String]) -> Option<String> {
    let i = a.iter().zip(b).position(|(x, y)| x != y).or(if a.len() != b.len() { Some(a.len().min(b.len())) } else { None })?;
    let none = "(nothing)".to_string();
    let (x, y) = (a.get(i).unwrap_or(&none), b.get(i).unwrap_or(&none));
    let c = x.chars().zip(y.chars()).position(|(p, q)| p != q).unwrap_or(0).saturating_sub(60);
    let cut = |s: &str| s.chars().skip(c).take(240).collect::<String>();
    Some(format!("  default:   {}\n  streaming: {}", cut(x), cut(y)))
}

fn run(idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let all = playable();
    let p = if (idx as usize) < 2 * all.len() {
        // each corpus story at least twice
        all[idx as usize % all.len()].clone()
    } else {
        let p = match t.weighted(&[6, 4, 8]) {
            0 => any_prg(
                t,
                |t| {
                    let mut c = swarm(t, &[6, 12, 25]);
                    c.lists = c.lists || t.chance(1, 3);
                    if t.chance(1, 4) {
                        with_random(&mut c);
                    }
                    c
                },
                4,
            )
            .ok(),
            1 => wild_prg(t).ok(),
            _ => Some(tree_prg(t)),
        };
        match p {
            Some(p) => p,
            None => return Out::Skip("program refused by the compiler"),
        }
    };
    let first = (idx as usize) < all.len();
    let mut doc = p.json.clone();
    let mut rewritten = false;
    if !first && let Ok(mut j) = serde_json::from_str::<J>(&p.json) {
        if p.name != "content tree" && t.chance(2, 3) {
            decorate(t, &mut j);
            doc = j.to_string();
        }
        if t.chance(4, 5) {
            let st = Style { spaces: t.weighted(&[3, 2, 1, 1, 3]), esc: t.below(4), upper: t.chance(1, 2), nums: t.chance(1, 2), braces: t.chance(1, 4) };
            let mut s = String::new();
            write(t, &st, &j, 0, &mut s);
            if t.chance(1, 4) {
                s.insert_str(0, *t.pick(&["\n", "  ", "\t\r\n"]));
                s += *t.pick(&["\n", " ", "\r\n\t"]);
            }
            rewritten = true;
            ctx.label("documents written in another way");
            match serde_json::from_str::<J>(&s) {
                // braces may stand for null at the end
                Ok(k) if st.braces || alike(&k, &j) => {}
                Err(e) if e.to_string().contains("recursion") => return Out::Skip("nested too deeply"),
                _ => return Out::Fail("harness".into(), format!("the document was not rewritten faithfully\n{s}")),
            }
            // the same for one loader
            let (a, b) = (look(&doc, &[], false), look(&s, &[], false));
            if let (Ok(a), Ok(b)) = (&a, &b) {
                if let Some(d) = differ(&a.listing, &b.listing) {
                    return Out::Fail("rewritten".into(), format!("the default loader builds another story from the same document written in another way (first as it was, then rewritten)\n{d}"));
                }
            } else if a.is_ok() != b.is_ok() {
                return Out::Fail("rewritten".into(), format!("the default loader takes only one of two ways to write a document: {:?} {:?}", a.err(), b.err()));
            }
            doc = s;
        }
    }
    ctx.detail = clip(&doc, 4000);
    let n = t.range(20, 120);
    let tape: Vec<u32> = (0..n).map(|_| t.u32()).collect();
    let a = look(&doc, &tape, true);
    let ans = ctx.peer.as_mut().unwrap().ask(&json!({ "prop": "C14", "json": doc, "tape": tape }));
    let Some(ans) = ans else { return Out::Fail("process".into(), "the process with the streaming loader died".into()) };
    let strings = |k: &str| -> Vec<String> { ans[k].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default() };
    let a = match (a, ans["error"].as_str()) {
        (Ok(a), None) => a,
        (Ok(_), Some(e)) => return Out::Fail("refused".into(), format!("only the streaming loader refuses the story: {e}")),
        (Err(e), None) if !e.starts_with("panics") => return Out::Fail("accepted".into(), format!("only the default loader refuses the story: {e}")),
        (Err(_), _) => return Out::Skip("the story does not load"),
    };
    if let Some(d) = differ(&a.listing, &strings("listing")) {
        return Out::Fail("content".into(), d);
    }
    let log = strings("log");
    if a.log.iter().chain(&log).any(|l| l.starts_with("panics")) {
        return Out::Skip("panics");
    }
    if let Some(d) = differ(&a.log, &log) {
        return Out::Fail("play".into(), d);
    }
    ctx.label_n("objects compared", a.listing.len() as u64);
    let calls = a.log.iter().filter(|l| !l.starts_with("  ")).count();
    Out::Pass { nontrivial: (a.listing.len() >= 12 || cfg!(not(bladeink_verif_audit))) && (calls >= 2 || rewritten), digest: hash_str(&doc) }
}

pub fn serve(req: &J) -> J {
    let tape: Vec<u32> = req["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0) as u32).collect()).unwrap_or_default();
    match look(req["json"].as_str().unwrap_or(""), &tape, true) {
        Ok(s) => json!({ "listing": s.listing, "log": s.log }),
        Err(e) => json!({ "error": e }),
    }
}
