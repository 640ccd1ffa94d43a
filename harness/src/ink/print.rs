//! AST -> Ink source, in canonical well-indented form.
use super::ast::*;

fn prec(op: &str) -> u8 {
    match op {
        "&&" | "and" | "||" | "or" => 1,
        "==" | "!=" | "<" | ">" | "<=" | ">=" => 2,
        "?" | "has" | "!?" | "hasnt" | "^" => 3,
        "+" | "-" => 4,
        "*" | "/" | "%" | "mod" => 5,
        _ => 9,
    }
}

fn canon(op: &str) -> &str {
    match op {
        "and" => "&&",
        "or" => "||",
        "mod" => "%",
        "has" => "?",
        "hasnt" => "!?",
        o => o,
    }
}

/// Whether a child may stand unparenthesised: only where every reading of the
/// Ink documentation and of the reference compiler agrees.
fn bare_ok(parent: &str, child: &E, right: bool) -> bool {
    match child {
        E::Bin(c, _, _) => {
            let (p, c) = (canon(parent), canon(c));
            match (p, c) {
                // left-associative chains of the same operator
                (a, b) if a == b && !right => matches!(a, "+" | "-" | "*" | "&&" | "||"),
                ("+", "*") => true,
                ("-", "*") => true,
                ("+", "/") | ("-", "/") | ("+", "%") | ("-", "%") => true,
                (_, "+" | "-" | "*" | "/" | "%") if prec(p) == 2 => true,
                (_, x) if prec(p) == 1 && prec(x) == 2 => true,
                (_, "?" | "!?") if prec(p) == 1 => true,
                _ => false,
            }
        }
        E::Un(u, _) => *u == "not" && prec(parent) == 1 && !right,
        // a negative literal prints as a unary minus
        E::Int(i) => *i >= 0,
        E::Float(f) => *f >= 0.0,
        E::ListName(_) => true,
        _ => true,
    }
}

pub fn float_lit(f: f32) -> String {
    let s = format!("{}", f);
    if s.contains('.') { s } else { format!("{}.0", s) }
}

pub fn expr(e: &E) -> String {
    match e {
        E::Int(i) => i.to_string(),
        E::Float(f) => float_lit(*f),
        E::Bool(b) => b.to_string(),
        E::Str(s) => format!("\"{}\"", inl(s)),
        E::Var(v) => v.clone(),
        E::Un(op, x) => {
            let simple = matches!(**x, E::Var(_) | E::Call(..) | E::Builtin(..) | E::Bool(_) | E::Read(_) | E::TurnsSince(_) | E::ListFromInt(..))
                || matches!(**x, E::Int(i) if i >= 0);
            let inner = if simple { expr(x) } else { format!("({})", expr_in_parens(x)) };
            if *op == "not" { format!("not {}", inner) } else { format!("{}{}", op, inner) }
        }
        E::Bin(op, a, b) => {
            let l = if bare_ok(op, a, false) { expr(a) } else { format!("({})", expr_in_parens(a)) };
            let r = if bare_ok(op, b, true) { expr(b) } else { format!("({})", expr_in_parens(b)) };
            format!("{} {} {}", l, op, r)
        }
        E::Call(n, a) => format!("{}({})", n, a.iter().map(expr).collect::<Vec<_>>().join(", ")),
        E::Raw(s) | E::Src(s, ..) => s.clone(),
        E::Builtin(n, a) => format!("{}({})", n, a.iter().map(expr).collect::<Vec<_>>().join(", ")),
        E::Target(t) => format!("-> {}", t),
        E::Read(p) => p.clone(),
        E::TurnsSince(p) => format!("TURNS_SINCE(-> {})", p),
        E::List(v) => format!("({})", v.iter().map(|(o, i)| format!("{}.{}", o, i)).collect::<Vec<_>>().join(", ")),
        E::ListFromInt(l, x) => format!("{}({})", l, expr(x)),
        E::ListName(l) => l.clone(),
    }
}

/// `(x)` for a bare name would be a list literal
fn expr_in_parens(e: &E) -> String {
    match e {
        E::Var(_) | E::Read(_) => format!("{} + 0", expr(e)),
        _ => expr(e),
    }
}

pub fn text(t: &str) -> String {
    t.to_string()
}

pub fn dest(d: &Dest) -> String {
    let t = match &d.to {
        Target::Path(p) => p.clone(),
        Target::Var(v) => v.clone(),
        Target::End => "END".into(),
        Target::Done => "DONE".into(),
    };
    if d.args.is_empty() { t } else { format!("{}({})", t, d.args.iter().map(expr).collect::<Vec<_>>().join(", ")) }
}

pub fn inl(v: &[In]) -> String {
    let mut s = String::new();
    for i in v {
        match i {
            In::T(t) => s.push_str(&text(t)),
            In::Glue => s.push_str("<>"),
            // `||` would read as an alternative there
            In::E(e) => {
                // `{!` opens a once-only sequence
                let x = expr(e).replace(" || ", " or ");
                let x = match x.strip_prefix('!') {
                    Some(r) => format!("not {r}"),
                    None => x,
                };
                s.push_str(&format!("{{{x}}}"));
            }
            In::Cond(c, y, n) => {
                s.push_str(&format!("{{{}:{}", expr(c), inl(y)));
                if let Some(n) = n {
                    s.push_str(&format!("|{}", inl(n)));
                }
                s.push('}');
            }
            In::Seq(k, _, items) => {
                s.push('{');
                s.push_str(match k {
                    SeqKind::Stopping => "",
                    SeqKind::Cycle => "&",
                    SeqKind::Once => "!",
                });
                s.push_str(&items.iter().map(|x| inl(x)).collect::<Vec<_>>().join("|"));
                s.push('}');
            }
            In::Divert(d) => s.push_str(&format!("-> {}", dest(d))),
        }
    }
    s
}

fn tags(v: &[Vec<In>]) -> String {
    v.iter().map(|t| format!("# {} ", inl(t))).collect::<String>().trim_end().to_string()
}

fn tail(t: &Tail) -> String {
    match t {
        Tail::None => String::new(),
        Tail::Divert(d) => format!("-> {}", dest(d)),
        Tail::Tunnel(ts, last) => {
            let mut s = ts.iter().map(|d| format!("-> {} ", dest(d))).collect::<String>();
            match last {
                Some(d) => s.push_str(&format!("-> {}", dest(d))),
                None => s.push_str("->"),
            }
            s
        }
        Tail::TunnelReturn => "->->".into(),
    }
}

fn join_sp(parts: &[String]) -> String {
    parts.iter().filter(|p| !p.is_empty()).cloned().collect::<Vec<_>>().join(" ")
}

pub struct Out {
    pub s: String,
}

impl Out {
    fn line(&mut self, ind: usize, s: &str) {
        for _ in 0..ind {
            self.s.push_str("    ");
        }
        self.s.push_str(s);
        self.s.push('\n');
    }

    fn stmt(&mut self, s: &S, ind: usize, depth: usize) {
        match s {
            S::Line { body, tags: t, tail: tl } => {
                let l = join_sp(&[inl(body).trim_end().to_string(), tail(tl), tags(t)]);
                self.line(ind, &l);
            }
            S::Thread(d) => self.line(ind, &format!("<- {}", dest(d))),
            S::TunnelRet(None) => self.line(ind, "->->"),
            S::TunnelRet(Some(d)) => self.line(ind, &format!("->-> {}", dest(d))),
            S::Ret(None) => self.line(ind, "~ return"),
            S::Ret(Some(e)) => self.line(ind, &format!("~ return {}", expr(e))),
            S::Temp(n, e) => self.line(ind, &format!("~ temp {} = {}", n, expr(e))),
            S::Assign(n, op, e) => match *op {
                "++" | "--" => self.line(ind, &format!("~ {}{}", n, op)),
                o => self.line(ind, &format!("~ {} {} {}", n, o, expr(e))),
            },
            S::Do(e) => self.line(ind, &format!("~ {}", expr(e))),
            S::Raw(c) => self.line(ind, c),
            S::Comment(c) => self.line(ind, &format!("// {}", c)),
            S::Cond(br) => {
                if br[0].0.is_some() && (br.len() == 1 || (br.len() == 2 && br[1].0.is_none())) {
                    self.line(ind, &format!("{{ {}:", expr(br[0].0.as_ref().unwrap())));
                    self.block(&br[0].1, ind + 1, depth);
                    if br.len() == 2 {
                        self.line(ind, "- else:");
                        self.block(&br[1].1, ind + 1, depth);
                    }
                    self.line(ind, "}");
                } else {
                    self.line(ind, "{");
                    for (c, b) in br {
                        match c {
                            Some(c) => self.line(ind + 1, &format!("- {}:", expr(c))),
                            None => self.line(ind + 1, "- else:"),
                        }
                        self.block(b, ind + 2, depth);
                    }
                    self.line(ind, "}");
                }
            }
            S::Switch(e, br) => {
                self.line(ind, &format!("{{ {}:", expr(e)));
                for (c, b) in br {
                    match c {
                        Some(c) => self.line(ind + 1, &format!("- {}:", expr(c))),
                        None => self.line(ind + 1, "- else:"),
                    }
                    self.block(b, ind + 2, depth);
                }
                self.line(ind, "}");
            }
            S::SeqBlock(k, _, bs) => {
                self.line(
                    ind,
                    match k {
                        SeqKind::Stopping => "{ stopping:",
                        SeqKind::Cycle => "{ cycle:",
                        SeqKind::Once => "{ once:",
                    },
                );
                for b in bs {
                    self.line(ind + 1, "-");
                    self.block(b, ind + 2, depth);
                }
                self.line(ind, "}");
            }
        }
    }

    pub fn block(&mut self, b: &Block, ind: usize, depth: usize) {
        let mut i = 0;
        while i < b.items.len() {
            match &b.items[i] {
                Item::S(s) => self.stmt(s, ind, depth),
                Item::Group(cs) => {
                    for c in cs {
                        self.choice(c, ind, depth);
                    }
                }
                Item::Gather(l) => {
                    let mut h = "- ".repeat(depth + 1).trim_end().to_string();
                    if let Some(l) = l {
                        h = format!("{} ({})", h, l);
                    }
                    // a gather's own text line goes on the same line
                    if let Some(Item::S(S::Line { body, tags: t, tail: tl })) = b.items.get(i + 1) {
                        let l = join_sp(&[h, inl(body).trim_end().to_string(), tail(tl), tags(t)]);
                        self.line(ind, &l);
                        i += 1;
                    } else {
                        self.line(ind, &h);
                    }
                }
            }
            i += 1;
        }
    }

    fn choice(&mut self, c: &Choice, ind: usize, depth: usize) {
        let mark = if c.sticky { "+ " } else { "* " };
        let mut h = mark.repeat(depth + 1).trim_end().to_string();
        if let Some(l) = &c.label {
            h = format!("{} ({})", h, l);
        }
        for e in &c.conds {
            h = format!("{} {{ {} }}", h, expr(e));
        }
        h.push(' ');
        if c.fallback {
            match &c.tail {
                Tail::None => h.push_str("->"),
                t => h.push_str(&tail(t)),
            }
        } else {
            h.push_str(&inl(&c.start));
            if !c.start_tags.is_empty() {
                h.push(' ');
                h.push_str(&tags(&c.start_tags));
                h.push(' ');
            }
            if let Some(o) = &c.only {
                h.push('[');
                h.push_str(&inl(o));
                if !c.only_tags.is_empty() {
                    h.push(' ');
                    h.push_str(&tags(&c.only_tags));
                }
                h.push(']');
                h.push_str(&inl(&c.end));
            }
            let t = tail(&c.tail);
            if !t.is_empty() {
                h = format!("{} {}", h.trim_end(), t);
            }
            if !c.end_tags.is_empty() {
                h = format!("{} {}", h.trim_end(), tags(&c.end_tags));
            }
        }
        self.line(ind, h.trim_end());
        self.block(&c.body, ind + 1, depth + 1);
    }
}

fn params(p: &[Param]) -> String {
    if p.is_empty() {
        return String::new();
    }
    let v: Vec<String> = p
        .iter()
        .map(|p| match p.kind {
            PKind::Val => p.name.clone(),
            PKind::Ref => format!("ref {}", p.name),
            PKind::Divert => format!("-> {}", p.name),
        })
        .collect();
    format!("({})", v.join(", "))
}

pub fn program(p: &Prog) -> String {
    let mut o = Out { s: String::new() };
    for t in &p.global_tags {
        o.line(0, &format!("# {}", t));
    }
    for (n, k) in &p.externals {
        let a: Vec<String> = (0..*k).map(|i| format!("a{}", i)).collect();
        o.line(0, &format!("EXTERNAL {}({})", n, a.join(", ")));
    }
    for l in &p.lists {
        let mut next = 1;
        let items: Vec<String> = l
            .items
            .iter()
            .map(|(n, v, on)| {
                let s = if *v == next { n.clone() } else { format!("{} = {}", n, v) };
                next = v + 1;
                if *on { format!("({})", s) } else { s }
            })
            .collect();
        o.line(0, &format!("LIST {} = {}", l.name, items.join(", ")));
    }
    for (n, e) in &p.consts {
        o.line(0, &format!("CONST {} = {}", n, expr(e)));
    }
    for (n, e) in &p.vars {
        o.line(0, &format!("VAR {} = {}", n, expr(e)));
    }
    o.block(&p.root, 0, 0);
    for k in &p.knots {
        let ps = params(&k.params);
        let head = if k.is_fn {
            format!("=== function {}{} ===", k.name, if ps.is_empty() { "()".into() } else { ps })
        } else {
            format!("=== {}{} ===", k.name, ps)
        };
        o.line(0, &head);
        o.block(&k.body, 0, 0);
        for s in &k.stitches {
            o.line(0, &format!("= {}{}", s.name, params(&s.params)));
            o.block(&s.body, 0, 0);
        }
    }
    o.s
}
