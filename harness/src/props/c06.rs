//! C06: the compiler is total and deterministic, and what it returns is well formed.
use crate::ink::genp::Role;
use crate::ink::wild;
use crate::refs::Tree;
use crate::runner::{Ctx, Out, Prop, Tier, guard, panic_kind};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::story::Story;
use bladeink_compiler::{Compiler, CompilerError, CompilerOptions};

pub const PROP: Prop = Prop {
    id: "C06",
    rule: "texts: corpus sources and generated programs with byte, token and line edits, splices of two of them, token soup, nesting and repetition, files including one another, and valid programs in which one name is replaced by an unknown one; each is compiled twice; a returned story is loaded and every reference in its JSON looked up by an independent reader; non-trivial = the story has a reference, or the compiler refused the text naming a line or an unknown name",
    cases: |t| if t == Tier::Quick { 300_000 } else { 3_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

fn cpu() -> f64 {
    unsafe {
        let mut u: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_THREAD, &mut u);
        (u.ru_utime.tv_sec + u.ru_stime.tv_sec) as f64 + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) as f64 * 1e-6
    }
}

struct Input {
    kind: &'static str,
    src: String,
    files: Vec<(String, String)>,
    /// it must be refused, and why
    refused: Option<String>,
    count_all: bool,
}

const SOUP: &[&str] = &[
    "{", "}", "[", "]", "(", ")", "|", ":", "#", "->", "->->", "<-", "<>", "~ ", "* ", "+ ", "- ", "=", "== ", "=== ", "//", "/*", "*/", "\\", "\"", ",", ".", "?", "!", "&", "$", "else", "- else:",
    "function ", "temp ", "VAR ", "LIST ", "CONST ", "EXTERNAL ", "INCLUDE ", "return ", "ref ", "DONE", "END", "not ", "\n", "\n", "\n", "\n", " ", " ", "    ", "\t", "\u{e9}", "\u{20ac}", "\u{1F600}", "0", "1", "-1",
    "2147483648", "1.5", "1e5", ".5", "true", "\u{0}", "\r\n", "TODO:", "^", "mod ", "has ", "a", "b", "k", "x", "k.s", "f(", "a = 1", "x = 2", "k ==", "stopping:", "cycle:", "once:", "shuffle:", "TURNS_SINCE(", "LIST_COUNT(",
    "->x", "-> k", "-> END", "hello", " and ", "||", "&&", "==", "!=", "+=", "++", "--", "-=", "<=", "%", "\u{feff}", "\u{2028}", "\u{a0}",
];

const DEEP: &[(&str, &str)] = &[
    ("(", ")"), ("{", "}"), ("{a:", "}"), ("{a|", "}"), ("{&a|", "}"), ("{!a|", "}"), ("{~a|", "}"), ("not ", ""), ("!", ""), ("-", ""), ("- ", ""), ("* ", ""), ("+ ", ""), ("{\n- x:\n", "}\n"),
    ("{x:\n", "}\n"), ("{x:\n- 1:\n", "}\n"), ("{stopping:\n- ", "}\n"), ("\"{", "}\""), ("f(", ")"), ("x + ", ""), ("x ? ", ""), ("-> ", ""), ("->-> ", ""), ("[", "]"), ("# ", ""), ("<>", ""), ("|", ""),
    ("/*", "*/"), ("//", ""), ("=", ""), ("{x:a|{x:b|", "}}"), ("{x:a|", "}"), ("x.", ""), ("(a, ", ")"), ("~ ", ""), ("\\", ""), ("{x}{x}", ""), ("* {x} ", ""), ("(x) ", ""), ("-> k -> ", ""), ("TURNS_SINCE(-> ", ")"),
    ("{{x:", "}}"), ("* [", "]"), ("* a\n*", ""), ("- - * ", "\n"), ("x(", ""), ("{x:{x:", ""),
];

const FRAME: &[(&str, &str)] = &[
    ("", ""), ("~ x = ", ""), ("{", "}"), ("* ", ""), ("VAR y = ", ""), ("=== ", ""), ("LIST l = ", ""), ("* {", "} a"), ("CONST c = ", ""), ("- ", ""), ("EXTERNAL ", ""), ("~ return ", ""), ("-> k(", ")"), ("\"", "\""), ("{x:", "}"),
    ("INCLUDE ", ""), ("<- ", ""), ("* a [", "] b"), ("text # ", ""), ("{x: a|", "}"), ("~ f(", ")"), ("= ", ""), ("~ temp t = ", ""), ("{stopping:\n- ", "\n}"), ("{\n- ", ": a\n}"),
];

fn deep(t: &mut Tape, quick: bool) -> Input {
    let n = *t.pick(&[3usize, 10, 24, 24, 60, 300, 2000, if quick { 4000 } else { 20000 }]);
    let (a, b) = *t.pick(DEEP);
    let (p, q) = *t.pick(FRAME);
    let mut s = String::from("VAR x = 1\nhello\n");
    s += p;
    for _ in 0..n {
        s += a;
    }
    s += *t.pick(&["x", "", "1", "a\n", "\n"]);
    if !t.chance(1, 4) {
        for _ in 0..n {
            s += b;
        }
    }
    s += q;
    s += "\n-> END\n== k\nbye\n-> END\n== function f(z)\n~ return z\n";
    Input { kind: "nesting", src: s, files: vec![], refused: None, count_all: true }
}

/// the place, in characters, of every name a `->`, `<-` or call refers to
fn uses(src: &str, fns: &[String]) -> Vec<(usize, usize, String)> {
    let mut v = vec![];
    let mut base = 0;
    for line in src.split_inclusive('\n') {
        let tr = line.trim_start();
        let head = tr.starts_with("==") || tr.starts_with("EXTERNAL") || (tr.starts_with("= ") && !tr.contains("->"));
        if !head {
            for pat in ["->", "<-"] {
                let mut at = 0;
                while let Some(i) = line[at..].find(pat) {
                    let s = at + i + 2;
                    at = s;
                    let r = line[s..].trim_start();
                    let s = line.len() - r.len();
                    let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.')).unwrap_or(r.len());
                    let name = &r[..e];
                    if e > 0 && name != "DONE" && name != "END" && !name.starts_with(|c: char| c.is_ascii_digit()) {
                        v.push((base + s, base + s + e, format!("{pat} {name}")));
                    }
                }
            }
            for f in fns {
                let mut at = 0;
                let pat = format!("{f}(");
                while let Some(i) = line[at..].find(&pat) {
                    let s = at + i;
                    at = s + 1;
                    if s == 0 || !line[..s].ends_with(|c: char| c.is_ascii_alphanumeric() || c == '_' || c == '.') {
                        v.push((base + s, base + s + f.len(), format!("call of {f}")));
                    }
                }
            }
        }
        base += line.len();
    }
    v
}

/// the place of every variable of `names` inside braces or on a `~` line
fn variables(src: &str, names: &[String]) -> Vec<(usize, usize, String)> {
    let mut v = vec![];
    let mut base = 0;
    for line in src.split_inclusive('\n') {
        let tilde = line.trim_start().starts_with('~');
        let (mut depth, mut quoted) = (0, false);
        let b = line.as_bytes();
        let mut i = 0;
        while i < b.len() {
            match b[i] {
                b'{' => depth += 1,
                b'}' => depth -= 1,
                b'"' => quoted = !quoted,
                _ => {}
            }
            let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.';
            if word(b[i]) && (i == 0 || !word(b[i - 1])) {
                let e = (i..b.len()).find(|j| !word(b[*j])).unwrap_or(b.len());
                let w = &line[i..e];
                // `{v: ...}` and `{v}`, and not a word of a branch's text
                let code = tilde && !quoted || depth == 1 && line[..i].trim_end().ends_with('{') && matches!(b.get(e), Some(b'}' | b':'));
                if code && names.iter().any(|n| n == w) && !line[..i].trim_end().ends_with("->") && b.get(e) != Some(&b'(') {
                    v.push((base + i, base + e, format!("variable {w}")));
                }
                i = e;
                continue;
            }
            i += 1;
        }
        base += line.len();
    }
    v
}

fn bytes(t: &mut Tape, s: &str) -> String {
    let mut b = s.as_bytes().to_vec();
    for _ in 0..t.range(1, 4) {
        if b.is_empty() {
            break;
        }
        let i = t.below(b.len());
        match t.below(6) {
            0 => b[i] = t.below(256) as u8,
            1 => {
                b.remove(i);
            }
            2 => b.insert(i, t.range(0, 127) as u8),
            3 => b[i] ^= 1 << t.below(7),
            4 => b.truncate(i),
            _ => {
                let j = (i + t.range(1, 40)).min(b.len());
                b.drain(i..j);
            }
        }
    }
    String::from_utf8_lossy(&b).into_owned()
}

fn base(t: &mut Tape) -> String {
    match t.below(4) {
        0 | 1 => {
            let c = corpus();
            let i = t.below(c.len());
            c[i].src.clone()
        }
        2 => {
            let c = swarm(t, &[6, 12, 25]);
            match gen_prg(t, c) {
                Ok(p) => p.src,
                Err((s, _)) => s,
            }
        }
        _ => {
            let mild = t.chance(1, 2);
            wild::program(t, mild)
        }
    }
}

fn edited(t: &mut Tape, s: &str) -> String {
    if t.chance(1, 3) {
        bytes(t, s)
    } else {
        let n = t.range(1, 5);
        wild::mutate(t, s, n)
    }
}

fn input(t: &mut Tape, quick: bool) -> Input {
    let plain = |kind, src| Input { kind, src, files: vec![], refused: None, count_all: true };
    match t.weighted(&[6, 3, 3, 2, 2, 1]) {
        0 => {
            let b = base(t);
            plain("edited", edited(t, &b))
        }
        1 => {
            // one unknown name
            let mut c = swarm(t, &[6, 12, 25]);
            c.functions = true;
            let Ok(p) = gen_prg(t, c) else { return plain("edited", "x".into()) };
            let mut fns: Vec<String> = p.units.iter().filter(|u| u.role == Role::Fn).map(|u| u.path.clone()).collect();
            fns.extend(["TURNS_SINCE", "LIST_COUNT", "MIN", "RANDOM"].map(String::from));
            let mut u = uses(&p.src, &fns);
            if t.chance(1, 2) {
                let names: Vec<String> = p.globals.iter().map(|g| g.to_string()).collect();
                u = variables(&p.src, &names);
            }
            if u.is_empty() {
                return plain("as generated", p.src);
            }
            let (a, b, what) = u[t.below(u.len())].clone();
            let old = &p.src[a..b];
            let new = match t.below(4) {
                _ if what.starts_with("variable") => "nosuch_q".to_string(),
                0 | 1 => "nosuch_q".to_string(),
                2 => format!("{old}.nosuch_q"),
                _ => match old.rsplit_once('.') {
                    Some((k, _)) => format!("{k}.nosuch_q"),
                    None => format!("nosuch_q.{old}"),
                },
            };
            let src = format!("{}{new}{}", &p.src[..a], &p.src[b..]);
            Input { kind: "unknown name", src, files: vec![], refused: Some(format!("{what} became {new}")), count_all: true }
        }
        2 => {
            let n = t.range(1, 40);
            let mut s = String::new();
            for _ in 0..n {
                s += *t.pick(SOUP);
                if t.chance(1, 5) {
                    s += "\n";
                }
            }
            plain("soup", s)
        }
        3 => {
            let (a, b) = (base(t), base(t));
            let (la, lb): (Vec<&str>, Vec<&str>) = (a.split('\n').collect(), b.split('\n').collect());
            let (i, j) = (t.below(la.len() + 1), t.below(lb.len() + 1));
            let s = if t.chance(1, 2) {
                format!("{}\n{}", la[..i].join("\n"), lb[j..].join("\n"))
            } else {
                let (i, mut j) = (t.below(a.len() + 1), t.below(b.len() + 1));
                while !b.is_char_boundary(j) {
                    j -= 1;
                }
                format!("{}{}", String::from_utf8_lossy(&a.as_bytes()[..i]), &b[j..])
            };
            plain("spliced", s)
        }
        4 => deep(t, quick),
        _ => {
            // files
            let names = ["a.ink", "b.ink", "c/d.ink"];
            let mut files = vec![];
            for n in names {
                let mut s = if t.chance(1, 2) { base(t) } else { "text\n".into() };
                if t.chance(1, 2) {
                    s = edited(t, &s);
                }
                if t.chance(1, 3) {
                    s += &format!("\nINCLUDE {}\n", t.pick(&["a.ink", "b.ink", "d.ink", "c/d.ink", "nothing.ink", ""]));
                }
                files.push((n.to_string(), s));
            }
            let mut src = base(t);
            for _ in 0..t.range(1, 2) {
                let l: Vec<&str> = src.split('\n').collect();
                let i = t.below(l.len() + 1);
                let mut l: Vec<String> = l.iter().map(|s| s.to_string()).collect();
                l.insert(i, format!("{}INCLUDE {}", t.pick(&["", "  "]), t.pick(&["a.ink", "b.ink", "c/d.ink", "nothing.ink"])));
                src = l.join("\n");
            }
            Input { kind: "files", src, files, refused: None, count_all: true }
        }
    }
}

fn file<'a>(i: &'a Input, n: &str) -> Option<&'a str> {
    i.files.iter().find(|f| f.0 == n || f.0.ends_with(&format!("/{n}"))).map(|f| f.1.as_str())
}

fn compile(i: &Input) -> Result<String, CompilerError> {
    let o = CompilerOptions { count_all_visits: i.count_all, source_filename: None };
    Compiler::with_options(o).compile_with_file_handler(&i.src, |n: &str| {
        file(i, n).map(String::from).ok_or_else(|| CompilerError::invalid_source(format!("no file {n}")))
    })
}

fn stats(i: &Input) -> bool {
    let c = Compiler::new().compile_to_stats_with_file_handler(&i.src, |n: &str| {
        file(i, n).map(String::from).ok_or_else(|| CompilerError::invalid_source(format!("no file {n}")))
    });
    c.is_ok()
}

fn lines(s: &str) -> usize {
    s.split('\n').count()
}

fn run(_: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let mut i = input(t, ctx.tier == Tier::Quick);
    i.count_all = !t.chance(1, 5);
    ctx.detail = format!("{}: {} bytes\n{}", i.kind, i.src.len(), crate::runner::clip(&i.src, 3000));
    for (n, s) in &i.files {
        ctx.detail += &format!("\n--- {n}\n{}", crate::runner::clip(s, 1500));
    }
    ctx.label(i.kind);
    let digest = hash_str(&i.src);
    let start = cpu();
    let r = match guard(|| compile(&i)) {
        Ok(r) => r,
        Err(p) => return Out::Fail(panic_kind(&p), format!("the compiler panics: {p}")),
    };
    let took = cpu() - start;
    if took > 20.0 {
        return Out::Fail("slow".into(), format!("compiling {} bytes took {took:.1} s of CPU time", i.src.len()));
    }
    if t.chance(1, 10)
        && let Err(p) = guard(|| stats(&i))
    {
        return Out::Fail(panic_kind(&p), format!("counting the statistics of the text panics: {p}"));
    }
    match guard(|| compile(&i)) {
        Ok(r2) if r2 == r => {}
        Ok(r2) => {
            let show = |r: &Result<String, CompilerError>| match r {
                Ok(s) => format!("a story: {}", crate::runner::clip(s, 1500)),
                Err(e) => format!("the error {e}"),
            };
            return Out::Fail("not deterministic".into(), format!("compiled twice, the same text gave\n {}\n {}", show(&r), show(&r2)));
        }
        Err(p) => return Out::Fail(panic_kind(&p), format!("the compiler panics the second time: {p}")),
    }
    let json = match r {
        Err(e) => {
            let (CompilerError::InvalidSource { file, line, .. } | CompilerError::UnsupportedFeature { file, line, .. }) = &e;
            ctx.label("refused");
            if let Some(l) = line {
                let text = file.as_ref().and_then(|f| self::file(&i, f)).unwrap_or(&i.src);
                if *l == 0 || *l > lines(text) {
                    return Out::Fail("line".into(), format!("the error names line {l} of a text of {} lines: {e}", lines(text)));
                }
                ctx.label("refused with a line");
            }
            return Out::Pass { nontrivial: line.is_some() || i.refused.is_some(), digest };
        }
        Ok(j) => j,
    };
    ctx.label("compiled");
    let tree = match Tree::parse(&json) {
        Ok(t) => t,
        Err(e) => return Out::Fail("json".into(), format!("the compiled story is not readable: {e}\n{}", crate::runner::clip(&json, 2000))),
    };
    match guard(|| Story::new(&json).err().map(|e| e.to_string())) {
        Ok(None) => {}
        Ok(Some(e)) => return Out::Fail("load".into(), format!("the compiled story does not load: {e}\n{}", crate::runner::clip(&json, 3000))),
        Err(p) => return Out::Fail(format!("load {}", panic_kind(&p)), format!("loading the compiled story panics: {p}\n{}", crate::runner::clip(&json, 3000))),
    }
    let refs = tree.refs();
    for r in &refs {
        if let Some(m) = tree.dangling(r) {
            return Out::Fail(format!("dangling {}", r.kind), format!("{m}\n{}", crate::runner::clip(&json, 3000)));
        }
    }
    if let Some(d) = tree.doubled.first() {
        return Out::Fail("two of one name".into(), format!("two containers are called {d}\n{}", crate::runner::clip(&json, 3000)));
    }
    if let Some(m) = tree.unknown_variables().first() {
        return Out::Fail("unknown variable".into(), format!("{m}\n{}", crate::runner::clip(&json, 3000)));
    }
    if let Some(w) = &i.refused {
        return Out::Fail("unknown name accepted".into(), format!("{w}, which the compiler accepted\n{}", crate::runner::clip(&json, 3000)));
    }
    ctx.label_n("references looked up", refs.len() as u64);
    Out::Pass { nontrivial: !refs.is_empty(), digest }
}
