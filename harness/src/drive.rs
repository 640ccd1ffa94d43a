//! Driving the real compiler and runtime.
use bladeink::story::Story;
use bladeink::value_type::ValueType;
use bladeink_compiler::Compiler;

pub const FUEL: u64 = 60_000;

pub fn compile(src: &str) -> Result<String, String> {
    Compiler::new().compile(src).map_err(|e| e.to_string())
}

/// Canonical text of a value: type and content, lists in (origin, item) order.
pub fn vt(v: &ValueType) -> String {
    match v {
        ValueType::Bool(b) => format!("b:{b}"),
        ValueType::Int(i) => format!("i:{i}"),
        ValueType::Float(f) => format!("f:{f:?}"),
        ValueType::String(s) => format!("s:{}", s.string),
        ValueType::List(l) => {
            let mut it: Vec<String> = l.items.iter().map(|(k, v)| format!("{}={v}", k.get_full_name())).collect();
            it.sort();
            if it.is_empty() {
                let mut n = l.get_origin_names();
                n.sort();
                n.dedup();
                format!("l:()@{}", n.join(","))
            } else {
                format!("l:({})", it.join(","))
            }
        }
        ValueType::DivertTarget(p) => format!("d:{p}"),
        ValueType::VariablePointer(_) => "ptr".into(),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Line {
    pub text: String,
    pub tags: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Choices,
    Done,
    Err(String),
    /// the step-fuel hook stopped it
    Fuel,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Turn {
    pub lines: Vec<Line>,
    pub choices: Vec<Line>,
    pub end: End,
}

impl Turn {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for l in &self.lines {
            s += &format!("  {:?} {:?}\n", l.text, l.tags);
        }
        for l in &self.choices {
            s += &format!("  * {:?} {:?}\n", l.text, l.tags);
        }
        s += &format!("  [{:?}]", self.end);
        s
    }
}

pub struct Play {
    pub story: Story,
}

pub fn choices(s: &Story) -> Vec<Line> {
    s.get_current_choices().iter().map(|c| Line { text: c.text.clone(), tags: c.tags.clone() }).collect()
}

impl Play {
    pub fn new(json: &str, seed: i32) -> Result<Play, String> {
        bladeink::verif_hooks::set_story_seed(Some(seed));
        bladeink::verif_hooks::set_fuel(Some(FUEL));
        let s = Story::new(json).map_err(|e| e.to_string())?;
        Ok(Play { story: s })
    }
    /// One `cont`; Err(End) when it fails.
    pub fn line(&mut self) -> Result<Line, End> {
        match self.story.cont() {
            Ok(text) => match self.story.get_current_tags() {
                Ok(tags) => Ok(Line { text, tags }),
                Err(e) => Err(End::Err(format!("tags: {e}"))),
            },
            Err(e) => {
                if bladeink::verif_hooks::fuel_exhausted() {
                    Err(End::Fuel)
                } else {
                    Err(End::Err(e.to_string()))
                }
            }
        }
    }
    /// Continues until a choice, the end or an error.
    pub fn turn(&mut self) -> Turn {
        bladeink::verif_hooks::set_fuel(Some(FUEL));
        let mut lines = vec![];
        while self.story.can_continue() {
            match self.line() {
                Ok(l) => lines.push(l),
                Err(e) => {
                    // the text of the failing line is still there
                    let t = self.story.get_current_text().unwrap_or_default();
                    let g = self.story.get_current_tags().unwrap_or_default();
                    lines.push(Line { text: t, tags: g });
                    return Turn { lines, choices: choices(&self.story), end: e };
                }
            }
        }
        let choices = choices(&self.story);
        let end = if choices.is_empty() { End::Done } else { End::Choices };
        Turn { lines, choices, end }
    }
    pub fn var(&self, n: &str) -> String {
        self.story.get_variable(n).map(|v| vt(&v)).unwrap_or_else(|| "-".into())
    }
}
