//! C20: the command-line tool speaks its protocol and shows what the library produces.
use crate::runner::{Ctx, Out, Prop, Tier, clip, guard};
use crate::session::*;
use crate::tape::{Tape, hash_str};
use bladeink::story::Story;
use bladeink::story::errors::{ErrorHandler, ErrorType};
use bladeink_compiler::{Compiler, CompilerError, CompilerOptions};
use serde_json::Value as J;
use std::cell::RefCell;
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::rc::Rc;

pub const PROP: Prop = Prop {
    id: "C20",
    rule: "the rinklecate binary, run on generated sources and story documents (odd characters in text, tags, choices, messages and file names; INCLUDEs, byte order marks) with scripted input (choices, numbers out of range, help, blank lines, diverts to known and hostile paths, noise, early end, quit) in plain and JSON mode, and to compile: stdout in JSON mode must parse as objects of the documented kinds and equal, event for event, what the library produces for the same program and input; plain output likewise, to the byte; written files equal the library's output; refused sources exit non-zero and report the library's message with file and line; non-trivial = a play with at least one text and one line of input, or a compilation",
    cases: |t| if t == Tier::Quick { 110_000 } else { 1_000_000 },
    run,
    builds: &["release"],
    peer: None,
};

/// One object on stdout, or what the library did
#[derive(Clone, PartialEq, Debug)]
enum Ev {
    Text(String),
    Tags(Vec<String>),
    Issues(Vec<String>),
    Choices(Vec<(String, Vec<String>)>),
    Need,
    Help,
    Close,
    End,
    Compiled(bool),
    Exported,
    Stats(Vec<u64>),
}

const STATS: &[&str] = &["words", "knots", "stitches", "functions", "choices", "gathers", "diverts"];

fn strings(j: &J) -> Result<Vec<String>, String> {
    j.as_array().ok_or("not an array")?.iter().map(|x| x.as_str().map(|s| s.to_string()).ok_or_else(|| "not a string".to_string())).collect()
}

/// stdout of JSON mode
fn parse(out: &[u8]) -> Result<Vec<Ev>, String> {
    let text = std::str::from_utf8(out).map_err(|e| format!("stdout is not UTF-8: {e}"))?;
    let mut v = vec![];
    let mut it = serde_json::Deserializer::from_str(text).into_iter::<J>();
    loop {
        let at = it.byte_offset();
        let around = || clip(&String::from_utf8_lossy(&out[at..]), 300);
        let j = match it.next() {
            None => break,
            Some(Ok(j)) => j,
            Some(Err(e)) => return Err(format!("stdout is not a sequence of JSON objects: {e}\nfrom: {:?}", around())),
        };
        let Some(o) = j.as_object() else { return Err(format!("not an object: {j}")) };
        let [(k, x)] = o.iter().collect::<Vec<_>>()[..] else { return Err(format!("not of a documented kind: {j}")) };
        let bad = |e: String| format!("not of a documented kind ({e}): {j}");
        v.push(match k.as_str() {
            "text" => Ev::Text(x.as_str().ok_or_else(|| bad("text is no string".into()))?.to_string()),
            "tags" => Ev::Tags(strings(x).map_err(bad)?),
            "issues" => Ev::Issues(strings(x).map_err(bad)?),
            "choices" => {
                let mut c = vec![];
                for x in x.as_array().ok_or_else(|| bad("no array".into()))? {
                    let text = x["text"].as_str().ok_or_else(|| bad("choice without text".into()))?.to_string();
                    let tags = if x["tags"].is_null() { vec![] } else { strings(&x["tags"]).map_err(bad)? };
                    if !x["tag_count"].is_null() && x["tag_count"].as_u64() != Some(tags.len() as u64) {
                        return Err(bad("tag_count is not the number of tags".into()));
                    }
                    if x.as_object().unwrap().keys().any(|k| !["text", "tags", "tag_count"].contains(&k.as_str())) {
                        return Err(bad("unknown key in a choice".into()));
                    }
                    c.push((text, tags));
                }
                Ev::Choices(c)
            }
            "needInput" => Ev::Need,
            "cmdOutput" if x.is_string() => Ev::Help,
            "close" => Ev::Close,
            "end" => Ev::End,
            "compile-success" => Ev::Compiled(x.as_bool().ok_or_else(|| bad("no truth value".into()))?),
            "export-complete" => Ev::Exported,
            "stats" => Ev::Stats(STATS.iter().map(|k| x[k].as_u64().unwrap_or(u64::MAX)).collect()),
            _ => return Err(bad("unknown kind".into())),
        });
        if matches!(k.as_str(), "needInput" | "close" | "end" | "export-complete") && *x != J::Bool(true) {
            return Err(format!("not of a documented kind: {j}"));
        }
    }
    Ok(v)
}

#[derive(Default)]
struct Messages(Vec<String>);

impl ErrorHandler for Messages {
    fn error(&mut self, message: &str, _: ErrorType) {
        self.0.push(message.to_string());
    }
}

#[derive(Clone)]
enum In {
    Choice(usize),
    Range(String),
    Blank,
    Help(String),
    Quit(String),
    Divert(String),
    Noise(String),
}

/// What the library does with a story and a script of input
struct Lib {
    events: Vec<Ev>,
    plain: String,
    messages: Vec<String>,
    /// lines of input, as given
    input: String,
    used: usize,
    /// a call failed: the tool gives up with this message
    failed: Option<String>,
}

fn library(t: &mut Tape, p: &Prg, keep: bool) -> Result<Lib, &'static str> {
    let mut s = new_story(p, 9).map_err(|_| "story does not load")?;
    bladeink::verif_hooks::set_fuel(Some(20_000));
    let h = Rc::new(RefCell::new(Messages::default()));
    s.set_error_handler(h.clone());
    let mut l = Lib { events: vec![], plain: String::new(), messages: vec![], input: String::new(), used: 0, failed: None };
    let lines = t.range(0, 14);
    'story: loop {
        while s.can_continue() {
            let r = s.cont().and_then(|x| Ok((x, s.get_current_tags()?)));
            if bladeink::verif_hooks::fuel_exhausted() {
                return Err("runs away");
            }
            let (text, tags) = match r {
                Ok(x) => x,
                Err(e) => {
                    l.failed = Some(e.to_string());
                    return Ok(l);
                }
            };
            l.plain += &text;
            l.events.push(Ev::Text(text));
            if !tags.is_empty() {
                l.plain += &format!("# tags: {}\n", tags.join(", "));
                l.events.push(Ev::Tags(tags));
            }
            let m = std::mem::take(&mut h.borrow_mut().0);
            if !m.is_empty() {
                l.messages.extend(m.iter().cloned());
                l.events.push(Ev::Issues(m));
            }
            if l.plain.len() > 1 << 20 {
                return Err("runs away");
            }
        }
        let choices = s.get_current_choices();
        if choices.is_empty() {
            if keep {
                l.events.push(Ev::End);
                l.plain += "--- End of story ---\n";
            }
            break;
        }
        l.plain.push('\n');
        for (i, c) in choices.iter().enumerate() {
            l.plain += &format!("{}: {}\n", i + 1, c.text);
            if !c.tags.is_empty() {
                l.plain += &format!("# tags: {}\n", c.tags.join(", "));
            }
        }
        l.events.push(Ev::Choices(choices.iter().map(|c| (c.text.clone(), c.tags.clone())).collect()));
        loop {
            l.events.push(Ev::Need);
            l.plain += "?> ";
            if l.used >= lines {
                l.events.push(Ev::Close);
                l.plain += "<User input stream closed.>\n";
                break 'story;
            }
            l.used += 1;
            let i = input(t, &s, p, choices.len());
            let pad = |t: &mut Tape, x: &str| format!("{}{x}{}", t.pick(&["", "", "", " ", "\t"]).to_owned(), t.pick(&["", "", "", " ", "\r"]).to_owned());
            let line = match &i {
                In::Choice(n) => format!("{}{}", t.pick(&["", "", "", "0"]).to_owned(), n + 1),
                In::Range(x) | In::Help(x) | In::Quit(x) | In::Noise(x) => x.clone(),
                In::Blank => String::new(),
                In::Divert(x) => format!("->{}{x}", t.pick(&[" ", "  ", "\t"]).to_owned()),
            };
            l.input += &pad(t, &line);
            l.input.push('\n');
            match i {
                In::Choice(n) => {
                    if let Err(e) = s.choose_choice_index(n) {
                        l.failed = Some(e.to_string());
                        return Ok(l);
                    }
                    break;
                }
                In::Divert(path) => {
                    if let Err(e) = s.choose_path_string(&path, true, None) {
                        l.messages.push(e.to_string());
                        l.events.push(Ev::Issues(vec![path, e.to_string()]));
                    }
                    break;
                }
                In::Help(_) => {
                    l.events.push(Ev::Help);
                    l.plain += HELP;
                }
                In::Quit(_) => break 'story,
                In::Range(_) | In::Blank | In::Noise(_) => {}
            }
        }
    }
    Ok(l)
}

/// stands for whatever the tool prints as help
const HELP: &str = "\u{1}help\u{1}\n";

const HOSTILE: &[char] = &['"', '\\', '\'', '{', '}', '[', ']', '\u{1}', '\u{8}', '\u{1b}', '\u{7f}', '\u{e9}', '\u{65e5}', '\u{1f600}', '.', '^', '/', '%', '0', 'a', 'n', 'u', '\u{0}', '\u{feff}', '\u{200b}', '<', '>', ',', ':', '#', '-', '~'];

fn input(t: &mut Tape, s: &Story, p: &Prg, n: usize) -> In {
    let _ = s;
    match t.weighted(&[14, 2, 2, 2, 1, 3, 2]) {
        0 => In::Choice(t.below(n)),
        1 => In::Range(match t.below(6) {
            0 => "0".to_string(),
            1 => format!("{}", n + 1),
            2 => format!("{}", n + 1 + t.below(1000)),
            3 => "18446744073709551616".to_string(),
            4 => "99999999999999999999999999999999".to_string(),
            _ => format!("-{}", t.below(5)),
        }),
        2 => In::Blank,
        3 => In::Help(t.pick(&["help", "HELP", "Help"]).to_string()),
        4 => In::Quit(t.pick(&["quit", "exit", "QUIT", "Exit"]).to_string()),
        5 => {
            let known: Vec<&String> = p.paths.iter().chain(p.jumps.iter()).filter(|x| !x.is_empty() && !x.contains(char::is_whitespace)).collect();
            if !known.is_empty() && t.chance(1, 2) {
                return In::Divert((*t.pick(&known)).clone());
            }
            let len = t.range(1, 8);
            let mut x: String = (0..len).map(|_| *t.pick(HOSTILE)).collect();
            if t.chance(1, 4) && !known.is_empty() {
                x = format!("{}{x}", t.pick(&known));
            }
            In::Divert(x)
        }
        _ => {
            let len = t.range(1, 8);
            let x: String = (0..len).map(|_| *t.pick(HOSTILE)).collect();
            let x = x.trim().to_string();
            // nothing that means something
            if x.is_empty() || x.starts_with("->") || x.trim_start_matches('+').parse::<usize>().is_ok() { In::Noise("what?".into()) } else { In::Noise(x) }
        }
    }
}

struct Ran {
    out: Vec<u8>,
    err: String,
    code: Option<i32>,
}

fn tool(dir: &Path, args: &[String], input: &[u8]) -> Result<Ran, String> {
    use std::os::unix::process::CommandExt;
    let errs = dir.join(".stderr");
    let mut c = Command::new(crate::runner::bin("cli"));
    c.args(args).current_dir(dir).stdin(Stdio::piped()).stdout(Stdio::piped());
    c.stderr(std::fs::File::create(&errs).map_err(|e| e.to_string())?);
    unsafe {
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: 10, rlim_max: 10 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 1 << 26, rlim_max: 1 << 26 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
            Ok(())
        });
    }
    let mut p = c.spawn().map_err(|e| format!("cannot start the tool: {e}"))?;
    {
        // shorter than what a pipe holds
        let mut i = p.stdin.take().unwrap();
        let _ = i.write_all(input);
    }
    let mut out = vec![];
    let o = p.stdout.take().unwrap();
    let _ = o.take(16 << 20).read_to_end(&mut out);
    if out.len() == 16 << 20 {
        let _ = p.kill();
    }
    let st = p.wait().map_err(|e| e.to_string())?;
    let err = String::from_utf8_lossy(&std::fs::read(&errs).unwrap_or_default()).into_owned();
    Ok(Ran { out, err, code: st.code() })
}

thread_local! {
    static DIR: Scratch = Scratch::new();
}

struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let all = crate::runner::verif_dir().join("work/c20");
        // left behind by processes that are gone
        for e in std::fs::read_dir(&all).into_iter().flatten().flatten() {
            if e.file_name().to_str().is_some_and(|n| !Path::new("/proc").join(n).exists()) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
        let d = all.join(std::process::id().to_string());
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// characters that are text anywhere
fn odd(t: &mut Tape) -> String {
    const C: &[&str] = &[
        "\"", "'", "\\\\", "\\\"", "\\n", "\\u0041", "\t", "\u{1}", "\u{8}", "\u{c}", "\u{b}", "\u{1b}[31m", "\u{1f}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{e9}", "\u{65e5}", "\u{1f600}", "\u{10ffff}", "\u{2028}", "\u{feff}", "\u{200b}", "\u{fffd}", "\u{0}", ",", ":", "%s", "&lt;", "\"}", "\", \"",
        "$",
    ];
    let n = t.range(1, 3);
    (0..n).map(|_| *t.pick(C)).collect()
}

fn showy(t: &mut Tape) -> String {
    let mut s = String::new();
    let word = |t: &mut Tape| {
        let mut w = String::new();
        for _ in 0..t.range(1, 4) {
            match t.below(3) {
                0 => w += &odd(t),
                1 => w += t.pick(&["word", "Two words", "x"]).to_owned(),
                _ => w += t.pick(&[" ", "\u{e9}t\u{e9} ", "."]).to_owned(),
            }
        }
        format!("A{w}z")
    };
    if t.chance(1, 3) {
        s += &format!("# {}\n", word(t));
    }
    if t.chance(1, 3) {
        s += &format!("VAR v = \"{}\"\n", t.pick(&["\u{e9}", "a b", "\u{1f600}", "\u{1}", "t\tt"]));
        s += "-> k0\n";
    } else {
        s += "VAR v = 5\n-> k0\n";
    }
    let knots = t.range(1, 3);
    for k in 0..knots {
        s += &format!("=== k{k} ===\n");
        for _ in 0..t.range(0, 4) {
            s += &word(t);
            if t.chance(1, 4) {
                s += "{v}";
            }
            for _ in 0..*t.pick(&[0, 0, 1, 2]) {
                s += &format!(" # {}", word(t));
            }
            if t.chance(1, 6) {
                s += "<>";
            }
            s.push('\n');
        }
        for _ in 0..t.range(0, 3) {
            s += t.pick(&["* ", "+ "]).to_owned();
            s += &word(t);
            if t.chance(1, 3) {
                s += &format!("[{}]{}", word(t), word(t));
            }
            for _ in 0..*t.pick(&[0, 0, 1, 2]) {
                s += &format!(" # {}", word(t));
            }
            s.push('\n');
            if t.chance(1, 2) {
                s += &format!("    {}\n", word(t));
            }
            s += &format!("    -> {}\n", t.pick(&["END", "k0", "DONE"]));
        }
        match t.below(6) {
            0 => s += "- \n",
            1 => s += "-> END\n",
            2 => s += &format!("-> k{}\n", (k + 1) % knots.max(1)),
            // runs out
            3 => {}
            4 => s += &format!("{{ v / 0 }}{}\n", word(t)),
            _ => s += "-> DONE\n",
        }
    }
    s
}

/// odd characters in the middle of words
fn odden(t: &mut Tape, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let at: Vec<usize> = (1..c.len()).filter(|i| c[i - 1].is_ascii_lowercase() && (c[*i].is_ascii_lowercase() || c[*i] == ' ')).collect();
    if at.is_empty() {
        return s.to_string();
    }
    let mut ins: Vec<(usize, String)> = (0..t.range(1, 6)).map(|_| (*t.pick(&at), odd(t))).collect();
    ins.sort();
    let mut out = String::new();
    for (i, ch) in c.iter().enumerate() {
        for (j, x) in &ins {
            if *j == i {
                out += x;
            }
        }
        out.push(*ch);
    }
    out
}

const NAMES: &[&str] = &["main", "a b", "q\"q", "b\\s", "\u{e9}t\u{e9}", "\u{1f600}", "new\nline", "t\tt", "it's", "{x}", "main.v2", "UP", "c\u{1}c", "..x", "m$%"];

struct Source {
    text: String,
    /// included files
    parts: Vec<(String, String)>,
}

fn source(t: &mut Tape) -> Source {
    let text = match t.weighted(&[5, 3, 3, 2]) {
        0 => showy(t),
        1 => {
            let c = {
                let mut c = swarm(t, &[4, 8, 16, 25]);
                c.missing = *t.pick(&[0, 0, 8]);
                c.externals = *t.pick(&[0, 0, 0, 1]);
                c
            };
            gen_prg(t, c).map(|p| p.src).unwrap_or_else(|(_, s)| s)
        }
        2 => {
            let mild = t.chance(2, 3);
            crate::ink::wild::program(t, mild)
        }
        _ => {
            let c = corpus();
            let s = t.pick(&c[..]).src.clone();
            if t.chance(1, 2) && s.len() < 20_000 { crate::ink::wild::mutate(t, &s, 2) } else { s }
        }
    };
    let mut text = if t.chance(1, 2) { odden(t, &text) } else { text };
    let mut parts = vec![];
    if t.chance(1, 5) {
        let name = t.pick(&["part.ink", "sub dir/p.ink", "p\u{e9}.ink", "p\"p.ink", "d/p.txt"]).to_string();
        let part = match t.below(4) {
            0 => format!("=== in_part ===\nIn a part{}\n-> DONE\n", odd(t)),
            1 => "VAR part_x = 3\n".to_string(),
            2 => "=== broken part ===\n{ -> }\n".to_string(),
            _ => format!("Line of a part{}\n", odd(t)),
        };
        text = format!("INCLUDE {name}\n{text}");
        if t.chance(4, 5) {
            parts.push((name, part));
        }
    }
    if t.chance(1, 12) {
        text = text.replace('\n', "\r\n");
    }
    Source { text, parts }
}

/// as the tool does it
fn compile(src: &Source, file: &str) -> Result<Result<String, CompilerError>, String> {
    guard(|| {
        let c = Compiler::with_options(CompilerOptions { count_all_visits: true, source_filename: Some(file.to_string()) });
        c.compile_with_file_handler(&src.text, |n: &str| src.parts.iter().find(|x| x.0 == n).map(|x| x.1.clone()).ok_or_else(|| CompilerError::invalid_source(format!("{MISSING}{n}"))))
    })
}

/// what the tool says about a missing file is its own
const MISSING: &str = "no such file: ";

fn write_all(dir: &Path, files: &[(String, String)]) -> Result<(), String> {
    for e in std::fs::read_dir(dir).map_err(|e| e.to_string())?.flatten() {
        let p = e.path();
        let _ = if p.is_dir() { std::fs::remove_dir_all(&p) } else { std::fs::remove_file(&p) };
    }
    for (n, s) in files {
        let p = dir.join(n);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d).map_err(|e| e.to_string())?;
        }
        std::fs::write(&p, s).map_err(|e| format!("{n:?}: {e}"))?;
    }
    Ok(())
}

/// issues between other events, in any order
fn merge(v: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    for e in v {
        match (e, out.last_mut()) {
            (Ev::Issues(a), Some(Ev::Issues(b))) => {
                b.extend(a.iter().cloned());
                b.sort();
            }
            (Ev::Issues(a), _) => {
                let mut a = a.clone();
                a.sort();
                out.push(Ev::Issues(a));
            }
            _ => out.push(e.clone()),
        }
    }
    out
}

/// does the tool's sequence show what the library did?
fn compare(tool: &[Ev], lib: &[Ev], ended: bool) -> Result<(), String> {
    // the words of a failed divert are the tool's own
    let mut i = 0;
    let lib_diverts = |e: &Ev| matches!(e, Ev::Issues(v) if v.len() == 2);
    let (a, b) = (merge(tool), merge(lib));
    for e in &b {
        let Some(x) = a.get(i) else { return Err(format!("missing: {e:?}")) };
        let ok = match (e, x) {
            (Ev::Issues(want), Ev::Issues(got)) => got == want || lib_diverts(e) && got.len() == 1 && want.iter().all(|w| got[0].contains(w.as_str())),
            _ => e == x,
        };
        if !ok {
            return Err(format!("library: {}\ntool:    {}", clip(&format!("{e:?}"), 600), clip(&format!("{x:?}"), 600)));
        }
        i += 1;
    }
    if ended && i < a.len() {
        return Err(format!("the tool shows more: {}", clip(&format!("{:?}", a[i]), 600)));
    }
    Ok(())
}

fn args_text(args: &[String], input: &str) -> String {
    format!("rinklecate {}\ninput: {input:?}", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "))
}

fn flags(t: &mut Tape, letters: &[char]) -> Vec<String> {
    let mut l = letters.to_vec();
    if t.chance(1, 6) {
        l.push('v');
    }
    if t.chance(1, 6) {
        l.push('c');
    }
    t.shuffle(&mut l);
    if t.chance(1, 2) {
        l.iter().map(|c| format!("-{c}")).collect()
    } else if l.is_empty() {
        vec![]
    } else {
        vec![format!("-{}", l.iter().collect::<String>())]
    }
}

fn play(t: &mut Tape, ctx: &mut Ctx, dir: &Path) -> Out {
    let mut files = vec![];
    let stem = if t.chance(1, 3) { *t.pick(NAMES) } else { "story" };
    let (p, file, from_source);
    if t.chance(2, 5) {
        // a story document
        let q = match t.below(3) {
            0 => any_prg(t, |t| swarm(t, &[4, 8, 16]), 10).ok(),
            1 => any_prg(t, |t| swarm(t, &[4, 8, 16, 25]), 0).ok(),
            _ => wild_prg(t).ok(),
        };
        let Some(mut q) = q else { return Out::Skip("program refused by the compiler") };
        if t.chance(2, 3)
            && let Ok(mut j) = serde_json::from_str::<J>(&q.json)
        {
            super::c14::decorate(t, &mut j);
            if t.chance(1, 8) {
                j["inkVersion"] = serde_json::json!(20);
            }
            q = raw_prg("document", String::new(), j.to_string());
        }
        let ext = *t.pick(&[".ink.json", ".json", ".JSON"]);
        file = format!("{stem}{ext}");
        let bom = if t.chance(1, 6) { "\u{feff}" } else { "" };
        files.push((file.clone(), format!("{bom}{}", q.json)));
        p = q;
        from_source = false;
    } else {
        let src = source(t);
        file = format!("{stem}{}", t.pick(&[".ink", ".ink", ".txt", ""]));
        let json = match compile(&src, &file) {
            Ok(Ok(j)) => j,
            _ => return Out::Skip("program refused by the compiler"),
        };
        let bom = if t.chance(1, 6) { "\u{feff}" } else { "" };
        p = raw_prg("source", src.text.clone(), json);
        files.push((file.clone(), format!("{bom}{}", src.text)));
        files.extend(src.parts);
        from_source = true;
    }
    let (json, keep) = (t.chance(2, 3), t.chance(1, 3));
    let mut l = vec![];
    if from_source || t.chance(1, 4) {
        l.push('p');
    }
    if json {
        l.push('j');
    }
    if keep {
        l.push('k');
    }
    let mut args = flags(t, &l);
    let at = t.below(args.len() + 1);
    args.insert(at, if t.chance(1, 3) { dir.join(&file).display().to_string() } else { file.clone() });
    let lib = match guard(|| library(t, &p, keep)) {
        Ok(Ok(l)) => l,
        Ok(Err(e)) => return Out::Skip(e),
        Err(_) => return Out::Skip("panics"),
    };
    ctx.detail = format!("{}\n---\n{}", clip(&files[0].1, 3000), args_text(&args, &lib.input));
    if let Err(e) = write_all(dir, &files) {
        return Out::Fail("harness".into(), e);
    }
    let r = match tool(dir, &args, lib.input.as_bytes()) {
        Ok(r) => r,
        Err(e) => return Out::Fail("harness".into(), e),
    };
    let detail = format!("\nstdout: {:?}\nstderr: {:?}\nexit: {:?}", clip(&String::from_utf8_lossy(&r.out), 1500), clip(&r.err, 600), r.code);
    let lucky = ["\"rnd\"", "\"lrnd\"", "\"seq\""].iter().any(|x| p.json.contains(x));
    if json {
        ctx.label("plays in JSON mode");
        let mut got = match parse(&r.out) {
            Ok(v) => v,
            Err(e) => return Out::Fail("JSON".into(), e + &detail),
        };
        if from_source {
            if got.first() != Some(&Ev::Compiled(true)) {
                return Out::Fail("JSON: compile-success".into(), format!("compiled by the library, but the tool says {:?}{detail}", got.first()));
            }
            got.remove(0);
        }
        if !lucky && let Err(e) = compare(&got, &lib.events, lib.failed.is_none()) {
            return Out::Fail("JSON: shown".into(), e + &detail);
        }
    } else {
        ctx.label("plays in plain mode");
        let Ok(text) = std::str::from_utf8(&r.out) else { return Out::Fail("plain".into(), format!("stdout is not UTF-8{detail}")) };
        if !lucky {
            if let Err(e) = plainly(text, &lib.plain, lib.failed.is_none()) {
                return Out::Fail("plain: shown".into(), e + &detail);
            }
            for m in &lib.messages {
                if !r.err.contains(m.as_str()) {
                    return Out::Fail("plain: messages".into(), format!("not on stderr: {m:?}{detail}"));
                }
            }
        }
    }
    if !lucky {
        match (&lib.failed, r.code) {
            (None, Some(0)) => {}
            (Some(_), Some(c)) if c != 0 => {}
            (f, c) => return Out::Fail("exit".into(), format!("exit status {c:?}, where the library's play ended with {f:?}{detail}")),
        }
    }
    for e in &lib.events {
        match e {
            Ev::Issues(_) => ctx.label("issues"),
            Ev::Tags(_) => ctx.label("tags"),
            Ev::Choices(_) => ctx.label("choices"),
            Ev::Close => ctx.label("early end of input"),
            Ev::Help => ctx.label("help"),
            _ => {}
        }
    }
    let lines = lib.events.iter().filter(|e| matches!(e, Ev::Text(_))).count();
    Out::Pass { nontrivial: lines >= 1 && lib.used >= 1 && !lucky, digest: hash_str(&format!("{}{}{args:?}", p.json, lib.input)) }
}

/// plain output: to the byte, but for the words of the help
fn plainly(tool: &str, lib: &str, ended: bool) -> Result<(), String> {
    let mut rest = tool;
    let err = |want: &str, rest: &str| {
        let c = want.char_indices().zip(rest.chars()).find(|((_, a), b)| a != b).map(|((i, _), _)| i).unwrap_or(want.len().min(rest.len()));
        let c = (0..=c.saturating_sub(30)).rev().find(|i| want.is_char_boundary(*i) && rest.is_char_boundary(*i)).unwrap_or(0);
        format!("library: {:?}\ntool:    {:?}", clip(&want[c..], 300), clip(&rest[c..], 300))
    };
    for (i, part) in lib.split(HELP).enumerate() {
        if i > 0 {
            // a line of help
            let Some(n) = rest.find('\n') else { return Err("no help".into()) };
            rest = &rest[n + 1..];
        }
        let Some(r) = rest.strip_prefix(part) else { return Err(err(part, rest)) };
        rest = r;
    }
    if ended && !rest.is_empty() {
        return Err(format!("the tool shows more: {:?}", clip(rest, 300)));
    }
    Ok(())
}

fn compiles(t: &mut Tape, ctx: &mut Ctx, dir: &Path) -> Out {
    let src = source(t);
    let stem = if t.chance(1, 2) { *t.pick(NAMES) } else { "story" };
    let file = format!("{stem}{}", t.pick(&[".ink", ".ink", ".ink", ".txt", "", ".a.ink"]));
    let want = match compile(&src, &file) {
        Ok(r) => r,
        Err(_) => return Out::Skip("panics"),
    };
    let bom = if t.chance(1, 6) { "\u{feff}" } else { "" };
    let mut files = vec![(file.clone(), format!("{bom}{}", src.text))];
    files.extend(src.parts.clone());
    let json = t.chance(1, 2);
    let stats = t.chance(1, 8);
    let mut l = vec![];
    if json {
        l.push('j');
    }
    if stats {
        l.push('s');
    }
    let mut args = flags(t, &l);
    // where to?
    let base = match file.rfind('.') {
        Some(i) => &file[..i],
        None => &file,
    };
    let mut out = format!("{base}.ink.json");
    if t.chance(2, 3) {
        out = t.pick(&["out.json", "o ut.ink.json", "d\u{e9}.json", "x"]).to_string();
        args.push("-o".into());
        args.push(if t.chance(1, 2) { dir.join(&out).display().to_string() } else { out.clone() });
    }
    args.push(if t.chance(1, 3) { dir.join(&file).display().to_string() } else { file.clone() });
    if out == file {
        return Out::Skip("would overwrite its input");
    }
    let before = t.chance(1, 2);
    if before {
        files.push((out.clone(), "old ".repeat(t.below(20_000))));
    }
    ctx.detail = format!("{}\n---\n{}", clip(&files[0].1, 3000), args_text(&args, ""));
    if let Err(e) = write_all(dir, &files) {
        return Out::Fail("harness".into(), e);
    }
    let r = match tool(dir, &args, b"") {
        Ok(r) => r,
        Err(e) => return Out::Fail("harness".into(), e),
    };
    let detail = format!("\nstdout: {:?}\nstderr: {:?}\nexit: {:?}", clip(&String::from_utf8_lossy(&r.out), 1500), clip(&r.err, 600), r.code);
    let got = if json {
        match parse(&r.out) {
            Ok(v) => v,
            Err(e) => return Out::Fail("JSON".into(), e + &detail),
        }
    } else {
        vec![]
    };
    if stats {
        ctx.label("statistics");
        let want = guard(|| {
            let c = Compiler::with_options(CompilerOptions { count_all_visits: true, source_filename: Some(file.clone()) });
            c.compile_to_stats_with_file_handler(&src.text, |n: &str| src.parts.iter().find(|x| x.0 == n).map(|x| x.1.clone()).ok_or_else(|| CompilerError::invalid_source(format!("{MISSING}{n}"))))
        });
        let Ok(want) = want else { return Out::Skip("panics") };
        return match want {
            Ok(s) => {
                let n: Vec<u64> = [s.words, s.knots, s.stitches, s.functions, s.choices, s.gathers, s.diverts].iter().map(|x| *x as u64).collect();
                let text = String::from_utf8_lossy(&r.out);
                let shown = if json { got == vec![Ev::Stats(n.clone())] } else { text.lines().map(|l| l.rsplit(' ').next().unwrap_or("").parse::<u64>().unwrap_or(u64::MAX)).collect::<Vec<_>>() == n };
                if !shown || r.code != Some(0) {
                    return Out::Fail("statistics".into(), format!("by the library {n:?}{detail}"));
                }
                Out::Pass { nontrivial: true, digest: hash_str(&src.text) }
            }
            Err(e) => refused(ctx, &e, &r, json, &got, &detail, true),
        };
    }
    match want {
        Ok(want) => {
            ctx.label("compilations");
            if r.code != Some(0) {
                return Out::Fail("exit".into(), format!("the library compiles it{detail}"));
            }
            if json && got != vec![Ev::Compiled(true), Ev::Exported] {
                return Out::Fail("JSON: compile".into(), format!("{got:?}{detail}"));
            }
            match std::fs::read(dir.join(&out)) {
                Ok(x) if x == want.as_bytes() => {}
                Ok(x) => return Out::Fail("output".into(), format!("{out:?} is not what the library writes\nlibrary: {}\ntool:    {}{detail}", clip(&want, 500), clip(&String::from_utf8_lossy(&x), 500))),
                Err(e) => return Out::Fail("output".into(), format!("{out:?}: {e}{detail}")),
            }
        }
        Err(e) => {
            let o = refused(ctx, &e, &r, json, &got, &detail, false);
            if matches!(o, Out::Fail(..)) {
                return o;
            }
            // nothing is written over
            if before && std::fs::read_to_string(dir.join(&out)).ok() != files.last().map(|f| f.1.clone()) {
                return Out::Fail("output".into(), format!("a refused source, yet {out:?} was changed{detail}"));
            }
        }
    }
    Out::Pass { nontrivial: true, digest: hash_str(&format!("{}{args:?}", src.text)) }
}

#[allow(clippy::too_many_arguments)]
fn refused(ctx: &mut Ctx, e: &CompilerError, r: &Ran, json: bool, got: &[Ev], detail: &str, stats: bool) -> Out {
    ctx.label("refused sources");
    if r.code == Some(0) || r.code.is_none() {
        return Out::Fail("exit".into(), format!("the library refuses the source: {e}{detail}"));
    }
    let (m, f, n) = match e {
        CompilerError::InvalidSource { message, file, line } | CompilerError::UnsupportedFeature { message, file, line } => (message, file, line),
    };
    let reported = if json {
        if !stats && got.first() != Some(&Ev::Compiled(false)) {
            return Out::Fail("JSON: compile-success".into(), format!("the library refuses the source: {e}{detail}"));
        }
        got.iter().filter_map(|x| if let Ev::Issues(v) = x { Some(v.join("\n")) } else { None }).collect::<Vec<_>>().join("\n")
    } else {
        r.err.clone()
    };
    if f.is_some() && n.is_some() {
        ctx.label("refused with file and line");
    }
    let mut want = vec![];
    if let Some((_, n)) = m.split_once(MISSING) {
        want.push(n.to_string());
    } else {
        want.push(m.clone());
    }
    want.extend(f.clone());
    let mut rest = reported.clone();
    for w in want {
        if !rest.contains(&w) {
            return Out::Fail("report".into(), format!("{w:?} of the library's message {:?} is not reported{detail}", e.to_string()));
        }
        // The line is looked for in what neither the message nor the file says.
        rest = rest.replace(&w, " ");
    }
    if let Some(n) = n
        && !rest.split(|c: char| !c.is_ascii_digit()).any(|x| x == n.to_string())
    {
        return Out::Fail("report: line".into(), format!("line {n} of the library's message {:?} is not reported{detail}", e.to_string()));
    }
    Out::Pass { nontrivial: true, digest: hash_str(&e.to_string()) }
}

fn run(_idx: u64, t: &mut Tape, ctx: &mut Ctx) -> Out {
    let dir = DIR.with(|d| d.0.clone());
    if t.chance(2, 3) { play(t, ctx, &dir) } else { compiles(t, ctx, &dir) }
}
