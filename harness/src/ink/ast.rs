//! Typed AST of the Ink core that the generator produces, the printer writes
//! as source text, and the reference interpreter executes.
use std::rc::Rc;

pub type Id = String;

#[derive(Clone, Debug)]
pub enum E {
    Int(i32),
    Float(f32),
    Bool(bool),
    Str(Vec<In>),
    Var(Id),
    Un(&'static str, Box<E>),
    Bin(&'static str, Box<E>, Box<E>),
    /// call of an ink function or an external
    Call(Id, Vec<E>),
    Builtin(&'static str, Vec<E>),
    Target(String),
    Read(String),
    TurnsSince(String),
    List(Vec<(Id, Id)>),
    ListFromInt(Id, Box<E>),
    /// reading a list definition by its name
    ListName(Id),
    /// source text that the reference interpreter does not know
    Raw(String),
    /// this source text, which reads as the first tree by the one table of operator
    /// precedences and as the second by the other
    Src(String, Box<E>, Option<Box<E>>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SeqKind {
    Stopping,
    Cycle,
    Once,
}

#[derive(Clone, Debug)]
pub enum In {
    T(String),
    Glue,
    E(E),
    Cond(E, Vec<In>, Option<Vec<In>>),
    Seq(SeqKind, usize, Vec<Vec<In>>),
    /// only as the last piece of the last brace of a line
    Divert(Dest),
}

#[derive(Clone, Debug)]
pub enum Target {
    Path(String),
    Var(Id),
    End,
    Done,
}

#[derive(Clone, Debug)]
pub struct Dest {
    pub to: Target,
    pub args: Vec<E>,
}

#[derive(Clone, Debug)]
pub enum Tail {
    None,
    Divert(Dest),
    /// `-> a -> b ->` (None) or `-> a -> b` (tunnels then a divert)
    Tunnel(Vec<Dest>, Option<Dest>),
    TunnelReturn,
}

#[derive(Clone, Debug)]
pub enum S {
    Line { body: Vec<In>, tags: Vec<Vec<In>>, tail: Tail },
    Thread(Dest),
    /// `->->` optionally with an override target
    TunnelRet(Option<Dest>),
    Ret(Option<E>),
    Temp(Id, E),
    /// op is "=", "+=", "-=", "++", "--"
    Assign(Id, &'static str, E),
    Do(E),
    Cond(Vec<(Option<E>, Rc<Block>)>),
    Switch(E, Vec<(Option<E>, Rc<Block>)>),
    SeqBlock(SeqKind, usize, Vec<Rc<Block>>),
    Comment(String),
    Raw(String),
}

#[derive(Clone, Debug)]
pub enum Item {
    S(S),
    Group(Vec<Choice>),
    /// gather; the rest of the line follows as an ordinary item
    Gather(Option<Id>),
}

#[derive(Debug, Default)]
pub struct Block {
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Choice {
    pub id: usize,
    pub sticky: bool,
    pub label: Option<Id>,
    pub conds: Vec<E>,
    pub start: Vec<In>,
    pub only: Option<Vec<In>>,
    pub end: Vec<In>,
    pub start_tags: Vec<Vec<In>>,
    pub only_tags: Vec<Vec<In>>,
    pub end_tags: Vec<Vec<In>>,
    pub tail: Tail,
    pub body: Rc<Block>,
    pub fallback: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum PKind {
    Val,
    Ref,
    Divert,
}

#[derive(Clone, Debug)]
pub struct Param {
    pub name: Id,
    pub kind: PKind,
}

#[derive(Debug)]
pub struct Stitch {
    pub name: Id,
    pub params: Vec<Param>,
    pub body: Rc<Block>,
}

#[derive(Debug)]
pub struct Knot {
    pub name: Id,
    pub params: Vec<Param>,
    pub is_fn: bool,
    pub body: Rc<Block>,
    pub stitches: Vec<Stitch>,
}

#[derive(Clone, Debug)]
pub struct ListDef {
    pub name: Id,
    /// item, value, initially in
    pub items: Vec<(Id, i32, bool)>,
}

#[derive(Debug, Default)]
pub struct Prog {
    pub lists: Vec<ListDef>,
    pub consts: Vec<(Id, E)>,
    pub vars: Vec<(Id, E)>,
    pub externals: Vec<(Id, usize)>,
    pub global_tags: Vec<String>,
    pub root: Rc<Block>,
    pub knots: Vec<Knot>,
}
