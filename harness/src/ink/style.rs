//! A text-level rewrite of a printed program that Ink says changes nothing:
//! indentation, blank and comment lines, trailing blanks and comments, line
//! endings, marker spacing, header variants, declarations further down.
use crate::tape::Tape;

const COMMENTS: &[&str] = &["// note", "//", "// * not a choice", "// -> nowhere {", "/* block */", "/**/", "/* - x: { */", "// \"quoted", "// === no_knot ==="];
const OWN_LINES: &[&str] = &["", "   ", "\t", "// note", "    // - else:", "/* a\n   * b\n   -> c { */", "/* one */", "// }", "\t// + [x]"];

fn is_decl(l: &str) -> bool {
    ["VAR ", "CONST ", "LIST ", "EXTERNAL "].iter().any(|k| l.starts_with(k))
}

fn ident(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_'
}

/// `* * x` -> `**x`, `- - x` -> `--x`
fn markers(l: &str, tight: bool) -> String {
    let Some(m) = l.chars().next().filter(|c| "*+-".contains(*c)) else { return l.to_string() };
    let mut rest = l;
    let mut n = 0;
    loop {
        let Some(r) = rest.strip_prefix(m) else { break };
        if r.starts_with('>') || !(r.is_empty() || r.starts_with(' ')) {
            break;
        }
        rest = r.trim_start_matches(' ');
        n += 1;
    }
    if n == 0 {
        return l.to_string();
    }
    let head: String = std::iter::repeat_n(m, n).collect();
    let glued = tight && !rest.starts_with(['-', '>', '*', '+', '<', '/']);
    if rest.is_empty() || glued { format!("{head}{rest}") } else { format!("{head} {rest}") }
}

fn header(l: &str, k: usize) -> String {
    let body = l.trim_matches('=').trim();
    match k {
        0 => format!("== {body}"),
        1 => format!("== {body} =="),
        2 => format!("==={body}==="),
        3 => format!("=== {body}   ="),
        4 => format!("====== {body} ======"),
        _ => format!("==  {body}"),
    }
}

/// `-> kn` -> `->kn`
fn arrows(l: &str) -> String {
    let mut out = String::new();
    let mut rest = l;
    while let Some(i) = rest.find("-> ").into_iter().chain(rest.find("<- ")).min() {
        out.push_str(&rest[..i + 2]);
        rest = &rest[i + 2..];
        if rest[1..].starts_with(ident) {
            rest = &rest[1..];
        }
    }
    out.push_str(rest);
    out
}

/// Apply `f` to what is an expression on this line: after `~` or the `=` of a
/// declaration, in a block header, a branch header, a choice's conditions.
fn code_parts(l: &str, f: impl Fn(&str) -> String) -> String {
    if l.starts_with("VAR ") || l.starts_with("CONST ") || l.starts_with('~') {
        return match l.find('=') {
            Some(i) if !l.starts_with('~') => format!("{}{}", &l[..i + 1], f(&l[i + 1..])),
            _ => format!("~{}", f(&l[1..])),
        };
    }
    if (l.starts_with("{ ") || l.starts_with("- ")) && l.ends_with(':') {
        return format!("{}{}:", &l[..2], f(&l[2..l.len() - 1]));
    }
    if l.starts_with(['*', '+'])
        && let Some(i) = l.find("{ ")
        && l[..i].chars().all(|c| "*+ ()_".contains(c) || c.is_ascii_alphanumeric())
        && let Some(j) = l[i..].find(" }")
    {
        return format!("{}{}{}", &l[..i + 2], f(&l[i + 2..i + j]), &l[i + j..]);
    }
    l.to_string()
}

const OPS: &[&str] = &[" + ", " * ", " / ", " % ", " == ", " != ", " < ", " > ", " <= ", " >= ", " && ", " || ", " = ", " += ", " -= ", " - "];

/// Other blanks around operators, parentheses and commas, outside strings.
fn respace(e: &str, k: usize) -> String {
    let mut out = String::new();
    for (n, part) in e.split('"').enumerate() {
        if n > 0 {
            out.push('"');
        }
        if n % 2 == 1 {
            out.push_str(part);
            continue;
        }
        let mut p = part.to_string();
        if k < 2 {
            for op in OPS {
                let tight = op.trim();
                let mut s = String::new();
                let mut rest = p.as_str();
                while let Some(i) = rest.find(op) {
                    s.push_str(&rest[..i]);
                    let after = &rest[i + op.len()..];
                    // a sign or an arrow stays apart, and so does what would close a comment
                    if after.starts_with(['-', '/', '*', '>']) || after.is_empty() {
                        s.push_str(op);
                    } else if k == 0 {
                        s.push_str(tight);
                    } else {
                        s.push_str(&format!("  {tight}\t"));
                    }
                    rest = after;
                }
                s.push_str(rest);
                p = s;
            }
        } else {
            p = p.replace(", ", " ,  ").replace('(', "( ").replace(')', " )").replace("(  )", "()").replace("-> ", "->");
        }
        out.push_str(&p);
    }
    out
}

pub fn restyle(src: &str, t: &mut Tape) -> String {
    // what this rewrite does at all
    let mut on = [false; 12];
    for f in on.iter_mut() {
        *f = t.chance(1, 3);
    }
    let [indent, trail, extra, spacing, heads, decls, arrow, crlf, eof, join, exprs, tabs] = on;
    let mut lines: Vec<String> = src.lines().map(|s| s.to_string()).collect();
    if decls {
        // only declarations that stand at the top are known to be such
        let n = lines.iter().take_while(|l| is_decl(l) || l.starts_with('#')).count();
        let (mut moved, mut kept) = (vec![], vec![]);
        for l in lines.drain(..n) {
            if is_decl(&l) { moved.push(l) } else { kept.push(l) }
        }
        kept.append(&mut lines);
        kept.append(&mut moved);
        lines = kept;
    }
    if join {
        // a branch's first line may stand next to its dash
        let mut i = 0;
        while i + 1 < lines.len() {
            let head = lines[i].trim();
            let next = lines[i + 1].trim_start();
            let branch = head == "-" || (head.starts_with("- ") && head.ends_with(':'));
            let deeper = lines[i + 1].len() - next.len() > lines[i].len() - lines[i].trim_start().len();
            let plain = next.starts_with(['L', 'T', '~']) || next.starts_with("-> ");
            let after = head.trim_start_matches(['-', ' ']);
            let gather = head.starts_with('-') && (after.is_empty() || after.starts_with('(') && after.ends_with(')') || branch && deeper);
            if (branch && deeper && plain || gather && next.starts_with("{")) && t.chance(1, 2) {
                let l = format!("{} {}", lines[i], next);
                lines[i] = l;
                lines.remove(i + 1);
            }
            i += 1;
        }
    }
    let mode = t.below(4);
    let mut out: Vec<String> = vec![];
    for l in &lines {
        let bare = l.trim_start();
        let lead = &l[..l.len() - bare.len()];
        let mut b = bare.to_string();
        if heads && bare.starts_with("===") {
            b = header(bare, t.below(6));
        } else if heads && bare.starts_with("= ") {
            if t.chance(1, 2) {
                b = format!("={}", &bare[2..]);
            }
        } else if spacing {
            if t.chance(1, 2) {
                b = markers(&b, t.chance(1, 2));
            }
            if b.starts_with("~ ") && t.chance(1, 2) {
                b = if t.chance(1, 2) { format!("~{}", &b[2..]) } else { format!("~   {}", &b[2..]) };
            }
            if b.starts_with("{ ") && b.ends_with(':') && b[2..].starts_with(ident) && t.chance(1, 2) {
                b = format!("{{{} :", &b[2..b.len() - 1]);
            }
            if is_decl(&b) && !b.starts_with("EXTERNAL") && t.chance(1, 2) {
                b = if t.chance(1, 2) { b.replacen(" = ", "=", 1) } else { b.replacen(" = ", "   =  ", 1).replacen(' ', "   ", 1) };
            }
        }
        if exprs && t.chance(1, 2) && !b.contains("//") {
            let k = t.below(3);
            b = code_parts(&b, |c| respace(c, k));
        }
        if tabs && t.chance(1, 2) {
            // the blank after a keyword or marker
            let at = b.find(' ').filter(|i| b[..*i].chars().all(|c| c.is_ascii_uppercase() || "*+-=~".contains(c)) && !b[..*i].is_empty());
            // (an upper case word may also be text: that is left alone)
            if let Some(i) = at.filter(|i| is_decl(&b) || b[..*i].chars().all(|c| "*+-=~".contains(c))) {
                b = format!("{}{}{}", &b[..i], ["\t", " \t"][t.below(2)], &b[i + 1..]);
            }
        }
        if arrow && t.chance(1, 2) {
            b = arrows(&b);
        }
        let lead = if indent {
            match mode {
                0 => String::new(),
                1 => "\t".repeat(lead.len() / 4),
                2 => " ".repeat(t.below(9)),
                _ => ["", " ", "\t", "  \t", "      "][t.below(5)].to_string(),
            }
        } else {
            lead.to_string()
        };
        if extra && t.chance(1, 4) {
            out.push(t.pick(OWN_LINES).to_string());
        }
        // a blank at the end of a choice's text is part of the text
        let tail = if trail && b.starts_with(['*', '+']) {
            if t.chance(1, 4) { t.pick(COMMENTS).to_string() } else { String::new() }
        } else if trail && t.chance(1, 3) {
            match t.below(3) {
                0 => ["  ", "\t", " \t "][t.below(3)].to_string(),
                1 => format!(" {}", t.pick(COMMENTS)),
                _ => format!("{}{}", ["", "\t"][t.below(2)], t.pick(COMMENTS)),
            }
        } else {
            String::new()
        };
        out.push(format!("{lead}{b}{tail}"));
    }
    let mut s = out.join("\n");
    if eof {
        s.push_str(["", "\n\n\n", "\n// the end", "\n   ", "\n/* end */"][t.below(5)]);
    } else {
        s.push('\n');
    }
    if crlf { s.replace('\n', "\r\n") } else { s }
}
