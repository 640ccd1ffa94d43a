//! Untyped programs: every construct with every operand, most of them nonsense
//! that compiles and fails at run time. Sources only, there is no model of them.
use crate::tape::Tape;

pub struct Wild<'a> {
    t: &'a mut Tape,
    out: String,
    knots: usize,
    /// parameters of every knot and function: name, arity
    funcs: Vec<(String, usize)>,
    tunnels: Vec<(String, usize)>,
    labels: usize,
    mild: bool,
}

const VARS: &[&str] = &["i0", "i1", "i2", "b0", "f0", "str0", "d0", "l0", "l1", "L0", "L1", "t0", "t1", "i0", "i1", "l0"];
pub const INTS: &[&str] = &["0", "1", "2", "3", "7", "-1", "2147483647", "-2147483647", "(-2147483647 - 1)", "65536", "1000000", "46341", "-3"];
const FLOATS: &[&str] = &["0.0", "1.5", "-2.25", "100000000.0", "0.1", "340000000000000000000000000000000000000.0"];
const STRS: &[&str] = &["\"\"", "\"a\"", "\"b c\"", "\"12\"", "\"3.5\"", "\"a{i0}b\"", "\"{l0}\"", "\"x{t0}\""];
const BIN: &[&str] = &["+", "-", "*", "/", "%", "mod", "==", "!=", "<", ">", "<=", ">=", "&&", "and", "or", "?", "!?", "has", "hasnt", "^", "/", "%", "*", "-", "+"];
const CALLS: &[(&str, usize)] = &[
    ("RANDOM", 2), ("SEED_RANDOM", 1), ("POW", 2), ("MIN", 2), ("MAX", 2), ("FLOOR", 1), ("CEILING", 1), ("INT", 1), ("FLOAT", 1),
    ("LIST_COUNT", 1), ("LIST_MIN", 1), ("LIST_MAX", 1), ("LIST_ALL", 1), ("LIST_INVERT", 1), ("LIST_VALUE", 1), ("LIST_RANDOM", 1),
    ("LIST_RANGE", 3), ("TURNS", 0), ("CHOICE_COUNT", 0), ("TURNS_SINCE", 1), ("READ_COUNT", 1), ("L0", 1), ("L1", 1), ("L0", 0),
];

impl Wild<'_> {
    fn knot(&mut self) -> String {
        let k = self.t.below(self.knots);
        match self.t.below(8) {
            0 => format!("k{k}.s0"),
            _ => format!("k{k}"),
        }
    }
    fn target(&mut self) -> String {
        match self.t.below(8) {
            0 => "DONE".into(),
            1 => "END".into(),
            2 => "d0".into(),
            3 if self.labels > 0 => format!("lb{}", self.t.below(self.labels)),
            _ => self.knot(),
        }
    }
    pub fn expr(&mut self, d: usize) -> String {
        if d == 0 || self.t.chance(1, 4) {
            return match self.t.below(14) {
                0..=3 => self.t.pick(VARS).to_string(),
                4..=6 => self.t.pick(INTS).to_string(),
                7 => self.t.pick(FLOATS).to_string(),
                8 => self.t.pick(STRS).to_string(),
                9 => self.t.pick(&["true", "false"]).to_string(),
                10 => self.t.pick(&["()", "(a)", "(a, b)", "(L1.c)", "(d, a)", "b", "L1.e"]).to_string(),
                11 => format!("-> {}", self.knot()),
                12 => self.knot(),
                _ => {
                    if self.mild || self.t.chance(4, 5) {
                        "c0".into()
                    } else {
                        self.t.pick(&["c0", "nothing", "x", "y", "lb0"]).to_string()
                    }
                }
            };
        }
        match self.t.below(8) {
            0..=3 => {
                let (a, o) = (self.expr(d - 1), self.t.pick(BIN).to_string());
                let b = self.expr(d - 1);
                if self.t.chance(1, 3) { format!("{a} {o} {b}") } else { format!("({a} {o} {b})") }
            }
            4 => {
                let a = self.expr(d - 1);
                format!("{}{a}", self.t.pick(&["-", "not ", "!", "- "]))
            }
            _ => self.call(d - 1),
        }
    }
    fn call(&mut self, d: usize) -> String {
        let (n, k) = if self.t.chance(1, 2) && !self.funcs.is_empty() {
            let i = self.t.below(self.funcs.len());
            self.funcs[i].clone()
        } else {
            let (n, k) = *self.t.pick(CALLS);
            (n.to_string(), k)
        };
        self.with_args(&n, k, d)
    }
    fn with_args(&mut self, n: &str, k: usize, d: usize) -> String {
        let k = if !self.mild && self.t.chance(1, 20) { self.t.below(4) } else { k };
        let by_var = n == "f1" && self.t.chance(5, 6);
        let a: Vec<String> = (0..k)
            .map(|i| if by_var && i == 0 { self.t.pick(VARS).to_string() } else { self.expr(d) })
            .collect();
        format!("{n}({})", a.join(", "))
    }
    fn inline(&mut self, d: usize) -> String {
        match self.t.below(10) {
            0..=2 => "w".into(),
            3..=5 => format!("{{{}}}", self.expr(2)),
            6 if d > 0 => format!("{{{}:{}|{}}}", self.expr(2), self.text(d - 1), self.text(d - 1)),
            7 if d > 0 => {
                let m = self.t.pick(&["", "&", "!", "~"]).to_string();
                format!("{{{m}{}|{}}}", self.text(d - 1), self.text(d - 1))
            }
            8 => "<>".into(),
            _ => "a b".into(),
        }
    }
    fn text(&mut self, d: usize) -> String {
        (0..self.t.range(1, 3)).map(|_| self.inline(d)).collect::<Vec<_>>().join(" ")
    }
    fn divert(&mut self) -> String {
        match self.t.below(9) {
            0 if !self.tunnels.is_empty() => {
                let (n, k) = self.t.pick(&self.tunnels.clone()).clone();
                let c = if k == 0 { n } else { self.with_args(&n, k, 1) };
                format!("-> {c} ->")
            }
            1 => format!("-> {} ->", self.target()),
            2 => "->->".into(),
            3 => format!("->-> {}", self.knot()),
            4 => format!("<- {}", self.knot()),
            5 if !self.tunnels.is_empty() => {
                let (n, k) = self.t.pick(&self.tunnels.clone()).clone();
                let c = if k == 0 { n } else { self.with_args(&n, k, 1) };
                format!("-> {c}")
            }
            _ => format!("-> {}", self.target()),
        }
    }
    fn pad(&mut self, ind: usize) {
        for _ in 0..ind {
            self.out.push_str("    ");
        }
    }
    fn line(&mut self, ind: usize, s: &str) {
        self.pad(ind);
        self.out.push_str(s);
        self.out.push('\n');
    }
    fn stmt(&mut self, ind: usize, d: usize, in_fn: bool) {
        match self.t.below(if in_fn { 13 } else { 20 }) {
            0..=2 => {
                let mut s = self.text(2);
                if self.t.chance(1, 6) {
                    s += &format!(" # {}", self.text(1));
                }
                if !in_fn && self.t.chance(1, 6) {
                    s += &format!(" {}", self.divert());
                }
                self.line(ind, &s);
            }
            3 | 4 => {
                let v = if self.t.chance(1, 2) { self.t.pick(&["i0", "i1", "i2"]).to_string() } else { self.t.pick(VARS).to_string() };
                let e = self.expr(2);
                let o = self.t.pick(&["=", "=", "=", "+=", "-="]).to_string();
                self.line(ind, &format!("~ {v} {o} {e}"));
            }
            5 => {
                let s = format!("~ {}{}", self.t.pick(&["i0", "i1", "t0", "l0"]), self.t.pick(&["++", "--"]));
                self.line(ind, &s);
            }
            6 => {
                let e = self.expr(2);
                let s = format!("~ temp {} = {e}", self.t.pick(&["t0", "t1"]));
                self.line(ind, &s);
            }
            7 | 8 => {
                let c = self.call(2);
                self.line(ind, &format!("~ {c}"));
            }
            9 => {
                let s = if self.t.chance(1, 3) { "~ return".to_string() } else { format!("~ return {}", self.expr(2)) };
                if in_fn || !self.mild && self.t.chance(1, 6) {
                    self.line(ind, &s);
                }
            }
            10 | 11 if d > 0 => {
                let e = self.expr(2);
                if self.t.chance(1, 2) {
                    self.line(ind, &format!("{{ {e}:"));
                    self.stmt(ind + 1, d - 1, in_fn);
                    if self.t.chance(1, 2) {
                        self.line(ind, "- else:");
                        self.stmt(ind + 1, d - 1, in_fn);
                    }
                } else {
                    let h = if self.t.chance(1, 2) { format!("{{ {e}:") } else { "{".into() };
                    self.line(ind, &h);
                    for _ in 0..self.t.range(1, 2) {
                        let e = self.expr(1);
                        self.line(ind, &format!("- {e}:"));
                        self.stmt(ind + 1, d - 1, in_fn);
                    }
                }
                self.line(ind, "}");
            }
            12 if d > 0 => {
                let m = self.t.pick(&["stopping", "cycle", "once", "shuffle", "shuffle once", "stopping shuffle"]).to_string();
                self.line(ind, &format!("{{ {m}:"));
                for _ in 0..self.t.range(1, 2) {
                    self.line(ind, "-");
                    self.stmt(ind + 1, d - 1, in_fn);
                }
                self.line(ind, "}");
            }
            13..=15 => {
                let s = self.divert();
                self.line(ind, &s);
            }
            16..=18 if d > 0 => {
                for _ in 0..self.t.range(1, 3) {
                    let mut s = self.t.pick(&["*", "+"]).to_string();
                    if self.t.chance(1, 8) {
                        s += &format!(" (lb{})", self.labels);
                        self.labels += 1;
                    }
                    if self.t.chance(1, 3) {
                        s += &format!(" {{ {} }}", self.expr(2));
                    }
                    s += " ";
                    match self.t.below(5) {
                        0 => s += &format!("{} [{}] {}", self.text(1), self.text(1), self.text(1)),
                        1 => s += &format!("[{}]", self.text(1)),
                        2 => {
                            let k = self.target();
                            s += &format!("-> {k}");
                        }
                        _ => s += &self.text(1),
                    }
                    if self.t.chance(1, 8) {
                        s += &format!(" # {}", self.text(0));
                    }
                    self.line(ind, &s);
                    if self.t.chance(2, 3) {
                        self.stmt(ind + 1, d - 1, in_fn);
                    }
                }
                if self.t.chance(1, 2) {
                    self.line(ind, "- w");
                }
            }
            _ => self.line(ind, "w"),
        }
    }
    fn temps(&mut self) {
        self.line(0, "~ temp t0 = 0");
        self.line(0, "~ temp t1 = (a)");
    }
    fn block(&mut self, n: usize, in_fn: bool) {
        let at = if self.mild { 0 } else { self.t.weighted(&[6, 3, 1]) };
        if at == 0 {
            self.temps();
        }
        for _ in 0..n {
            self.stmt(0, 2, in_fn);
        }
        // not set when the block uses them
        if at == 1 {
            self.temps();
        }
    }
}

/// mild: fewer constructs that a compiler should refuse
pub fn program(t: &mut Tape, mild: bool) -> String {
    let knots = t.range(1, 3);
    let mut w = Wild { t, out: String::new(), knots, funcs: vec![], tunnels: vec![], labels: 0, mild };
    w.funcs = vec![("f0".into(), 1), ("f1".into(), 1), ("f2".into(), 0), ("f3".into(), 2), ("e0".into(), 1), ("e1".into(), 0)];
    w.tunnels = vec![("n0".into(), 0), ("n1".into(), 1), ("n2".into(), 1)];
    let pre = [
        "EXTERNAL e0(a)", "EXTERNAL e1()", "CONST c0 = 5", "LIST L0 = a, (b), c", "LIST L1 = (d = 3), c = 3, e = 9", "VAR b0 = true", "VAR f0 = 1.5",
        "VAR str0 = \"str\"", "VAR d0 = -> k0", "VAR l0 = (a, c)", "VAR l1 = ()", "VAR i2 = 3",
    ];
    for p in pre {
        w.line(0, p);
    }
    for v in ["i0", "i1"] {
        let x = w.t.pick(INTS).to_string().replace("(-2147483647 - 1)", "-2147483647");
        w.line(0, &format!("VAR {v} = {x}"));
    }
    let n = w.t.range(1, 5);
    w.block(n, false);
    if w.t.chance(4, 5) {
        let x = w.knot();
        w.line(0, &format!("-> {x}"));
    }
    for k in 0..knots {
        w.line(0, &format!("=== k{k} ==="));
        let n = w.t.range(1, 4);
        w.block(n, false);
        if w.t.chance(3, 4) {
            let x = w.target();
            w.line(0, &format!("-> {x}"));
        }
        w.line(0, "= s0");
        let n = w.t.range(0, 2);
        w.block(n, false);
        w.line(0, "w");
        if w.t.chance(3, 4) {
            let x = w.target();
            w.line(0, &format!("-> {x}"));
        }
    }
    for (h, i) in [("=== n0 ===", false), ("=== n1(x) ===", false), ("=== n2(-> x) ===", false)] {
        w.line(0, h);
        let n = w.t.range(0, 2);
        w.block(n, i);
        let x = w.t.pick(&["->->", "->->", "->->", "-> x", "w", "->-> k0"]).to_string();
        w.line(0, &x);
    }
    for (h, k) in [("f0(x)", 1), ("f1(ref x)", 1), ("f2()", 0), ("f3(x, y)", 2)] {
        w.line(0, &format!("=== function {h} ==="));
        let n = w.t.range(0, 2);
        w.block(n, true);
        if k == 1 && h.contains("ref") && w.t.chance(2, 3) {
            let e = w.expr(1);
            w.line(0, &format!("~ x = {e}"));
        }
        if w.t.chance(2, 3) {
            let e = w.expr(2);
            w.line(0, &format!("~ return {e}"));
        } else if w.t.chance(1, 2) {
            w.line(0, "w");
        } else {
            w.line(0, "~ i0 = i0");
        }
    }
    if w.t.chance(2, 3) {
        w.line(0, "=== function e0(a) ===\n~ return a");
        w.line(0, "=== function e1() ===\n~ return 1");
    }
    w.out
}

/// Tokens of a source, with the blanks kept.
pub fn tokens(s: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in s.chars() {
        let word = c.is_alphanumeric() || c == '_';
        match v.last_mut() {
            Some(l) if word && l.chars().all(|x| x.is_alphanumeric() || x == '_') => l.push(c),
            Some(l) if c == ' ' && l.starts_with(' ') => l.push(c),
            Some(l) if (l == "-" || l == "<" || l == "=" || l == ">" || l == "-" || l == "==") && ("->=".contains(c)) => l.push(c),
            _ => v.push(c.to_string()),
        }
    }
    v
}

const ODD: &[&str] = &[
    "{", "}", "[", "]", "(", ")", "|", ":", "#", "->", "->->", "<-", "<>", "~", "*", "+", "-", "=", "===", "//", "/*", "*/", "\\", "\"", ",", ".", "?", "!", "&", "$", "else",
    "function", "temp", "VAR", "LIST", "CONST", "EXTERNAL", "INCLUDE", "return", "ref", "DONE", "END", "not", "\n", "\n\n", "    ", "\t", "é", "€", "\u{1F600}", "0", "-1", "2147483648",
    "99999999999999999999", "1.5", "1e5", ".5", "true", "\u{0}", "\r\n", "TODO:", "^", "mod", "has",
];

/// A few random edits of a source: lines and tokens deleted, doubled, moved,
/// replaced by others of the same source or by odd ones.
pub fn mutate(t: &mut Tape, s: &str, edits: usize) -> String {
    let mut s = s.to_string();
    for _ in 0..edits {
        if t.chance(1, 2) {
            let mut l: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
            let i = t.below(l.len());
            match t.below(6) {
                0 => {
                    l.remove(i);
                }
                1 => {
                    let x = l[i].clone();
                    l.insert(i, x);
                }
                2 => {
                    let j = t.below(l.len());
                    l.swap(i, j);
                }
                3 => {
                    let j = t.below(l.len());
                    let x = l[j].clone();
                    l.insert(i, x);
                }
                4 => l[i] = format!("{}{}", t.pick(&["    ", "- ", "* ", "~ ", "  ", "= ", "{ ", "-> "]), l[i]),
                _ => l[i] = l[i].trim_start().to_string(),
            }
            s = l.join("\n");
        } else {
            let mut k = tokens(&s);
            if k.is_empty() {
                return s;
            }
            let i = t.below(k.len());
            match t.below(7) {
                0 => {
                    k.remove(i);
                }
                1 => {
                    let x = k[i].clone();
                    k.insert(i, x);
                }
                2 => {
                    let j = t.below(k.len());
                    k.swap(i, j);
                }
                3 => {
                    let j = t.below(k.len());
                    k[i] = k[j].clone();
                }
                4 => k[i] = t.pick(ODD).to_string(),
                5 => k.insert(i, t.pick(ODD).to_string()),
                _ => {
                    // numbers and operators, which keep the shape
                    if k[i].chars().all(|c| c.is_ascii_digit()) {
                        k[i] = t.pick(INTS).to_string();
                    } else {
                        k.insert(i, t.pick(ODD).to_string());
                    }
                }
            }
            s = k.concat();
        }
    }
    s
}
