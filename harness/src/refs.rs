//! A reading of a compiled story's JSON that shares no code with the engine:
//! the content tree, and what each path in it names.
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Key {
    Root,
    Index(usize),
    Name(String),
}

#[derive(Clone, Debug)]
pub struct Node {
    pub parent: usize,
    pub key: Key,
    /// None: a leaf
    pub cont: Option<Cont>,
    pub leaf: J,
}

#[derive(Clone, Debug, Default)]
pub struct Cont {
    pub name: Option<String>,
    pub content: Vec<usize>,
    pub named: BTreeMap<String, usize>,
    pub flags: i64,
}

pub struct Tree {
    pub nodes: Vec<Node>,
    pub lists: BTreeMap<String, BTreeMap<String, i64>>,
    /// containers of the same name in the same place
    pub doubled: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ref {
    pub at: usize,
    pub kind: &'static str,
    pub path: String,
    /// a container has to be there
    pub cont: bool,
}

impl Tree {
    pub fn parse(json: &str) -> Result<Tree, String> {
        let j: J = serde_json::from_str(json.trim_start_matches('\u{feff}')).map_err(|e| e.to_string())?;
        let mut t = Tree { nodes: vec![], lists: BTreeMap::new(), doubled: vec![] };
        if let Some(l) = j["listDefs"].as_object() {
            for (k, v) in l {
                let m = v.as_object().map(|o| o.iter().map(|(a, b)| (a.clone(), b.as_i64().unwrap_or(0))).collect()).unwrap_or_default();
                t.lists.insert(k.clone(), m);
            }
        }
        let root = j["root"].as_array().ok_or("no root array")?;
        t.add(root, 0, Key::Root);
        Ok(t)
    }

    fn add(&mut self, a: &[J], parent: usize, key: Key) -> usize {
        let me = self.nodes.len();
        let own = match &key {
            Key::Name(n) => Some(n.clone()),
            _ => None,
        };
        self.nodes.push(Node { parent, key, cont: Some(Cont::default()), leaf: J::Null });
        let mut c = Cont { name: own, ..Default::default() };
        let (last, content) = match a.split_last() {
            Some((l, c)) => (l, c),
            None => (&J::Null, a),
        };
        for (i, x) in content.iter().enumerate() {
            let id = self.child(x, me, Key::Index(i));
            c.content.push(id);
            if let Some(n) = self.nodes[id].cont.as_ref().and_then(|c| c.name.clone())
                && c.named.insert(n.clone(), id).is_some()
            {
                self.doubled.push(format!("{} in {}", n, self.path(me)));
            }
        }
        if let J::Object(o) = last {
            for (k, v) in o {
                match k.as_str() {
                    "#f" => c.flags = v.as_i64().unwrap_or(0),
                    "#n" => c.name = v.as_str().map(|s| s.to_string()),
                    _ => {
                        let id = self.child(v, me, Key::Name(k.clone()));
                        if c.named.insert(k.clone(), id).is_some() {
                            self.doubled.push(format!("{} in {}", k, self.path(me)));
                        }
                    }
                }
            }
        }
        self.nodes[me].cont = Some(c);
        me
    }

    fn child(&mut self, x: &J, parent: usize, key: Key) -> usize {
        match x {
            J::Array(a) => self.add(a, parent, key),
            x => {
                self.nodes.push(Node { parent, key, cont: None, leaf: x.clone() });
                self.nodes.len() - 1
            }
        }
    }

    /// by indices and names, down from the root
    pub fn path(&self, mut n: usize) -> String {
        let mut v = vec![];
        while n != 0 {
            match &self.nodes[n].key {
                Key::Index(i) => match self.nodes[n].cont.as_ref().and_then(|c| c.name.clone()) {
                    Some(name) => v.push(name),
                    None => v.push(i.to_string()),
                },
                Key::Name(s) => v.push(s.clone()),
                Key::Root => {}
            }
            n = self.nodes[n].parent;
        }
        v.reverse();
        v.join(".")
    }

    pub fn resolve(&self, from: usize, path: &str) -> Option<usize> {
        let (mut at, rest) = match path.strip_prefix('.') {
            Some(r) => (from, r),
            None => (0, path),
        };
        if rest.is_empty() {
            return Some(at);
        }
        for c in rest.split('.') {
            if c == "^" {
                if at == 0 {
                    return None;
                }
                at = self.nodes[at].parent;
                continue;
            }
            let k = self.nodes[at].cont.as_ref()?;
            at = match c.parse::<usize>() {
                Ok(i) => *k.content.get(i)?,
                Err(_) => *k.named.get(c)?,
            };
        }
        Some(at)
    }

    pub fn refs(&self) -> Vec<Ref> {
        let mut v = vec![];
        for (at, n) in self.nodes.iter().enumerate() {
            let J::Object(o) = &n.leaf else { continue };
            let var = o.get("var").and_then(|x| x.as_bool()).unwrap_or(false);
            for (k, kind, cont) in [
                ("->", "divert", false),
                ("f()", "function call", true),
                ("->t->", "tunnel", true),
                ("*", "choice target", true),
                ("CNT?", "read count", true),
                ("^->", "divert target value", false),
            ] {
                if let Some(p) = o.get(k).and_then(|p| p.as_str()) {
                    if var && matches!(k, "->" | "f()" | "->t->") {
                        continue;
                    }
                    v.push(Ref { at, kind, path: p.to_string(), cont });
                }
            }
        }
        v
    }

    /// None: it names existing content
    pub fn dangling(&self, r: &Ref) -> Option<String> {
        let here = || self.path(r.at);
        match self.resolve(r.at, &r.path) {
            None => Some(format!("{} '{}' at {} names nothing", r.kind, r.path, here())),
            Some(t) => {
                let indexed = r.path.rsplit('.').next().is_some_and(|c| c.parse::<usize>().is_ok());
                if self.nodes[t].cont.is_none() && (r.cont || !indexed) {
                    return Some(format!("{} '{}' at {} names {}, which is not a container", r.kind, r.path, here(), self.nodes[t].leaf));
                }
                None
            }
        }
    }

    /// the knot (or the root) a node belongs to
    fn top(&self, mut n: usize) -> usize {
        while n != 0 && !(self.nodes[n].parent == 0 && matches!(self.nodes[n].key, Key::Name(_))) {
            n = self.nodes[n].parent;
        }
        n
    }

    /// variables that are read or assigned but exist nowhere
    pub fn unknown_variables(&self) -> Vec<String> {
        let mut globals: BTreeSet<String> = BTreeSet::new();
        let mut temps: BTreeSet<(usize, String)> = BTreeSet::new();
        for (l, items) in &self.lists {
            for i in items.keys() {
                globals.insert(i.clone());
                globals.insert(format!("{l}.{i}"));
            }
        }
        let decl = self.nodes[0].cont.as_ref().and_then(|c| c.named.get("global decl").copied());
        for (i, n) in self.nodes.iter().enumerate() {
            if let Some(v) = n.leaf.get("VAR=").and_then(|v| v.as_str())
                && decl.is_some_and(|d| self.nodes[i].parent == d)
                && n.leaf.get("re").is_none()
            {
                globals.insert(v.to_string());
            }
            if let Some(v) = n.leaf.get("temp=").and_then(|v| v.as_str()) {
                temps.insert((self.top(i), v.to_string()));
            }
        }
        let mut bad = vec![];
        for (i, n) in self.nodes.iter().enumerate() {
            let mut look = |what: &str, name: &str| {
                if !globals.contains(name) && !temps.contains(&(self.top(i), name.to_string())) {
                    bad.push(format!("{what} '{name}' at {} is declared nowhere", self.path(i)));
                }
            };
            for k in ["VAR?", "^var"] {
                if let Some(v) = n.leaf.get(k).and_then(|v| v.as_str()) {
                    look("variable", v);
                }
            }
            for k in ["VAR=", "temp="] {
                if let Some(v) = n.leaf.get(k).and_then(|v| v.as_str())
                    && n.leaf.get("re").is_some()
                {
                    look("assigned variable", v);
                }
            }
            if n.leaf.get("var").and_then(|x| x.as_bool()) == Some(true) {
                for k in ["->", "f()", "->t->"] {
                    if let Some(v) = n.leaf.get(k).and_then(|v| v.as_str()) {
                        look("divert variable", v);
                    }
                }
            }
        }
        bad
    }
}
