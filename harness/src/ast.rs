//! Grammar syntax trees. Both the reference interpreter (model.rs) and the
//! builder of real matchers (real.rs) work from these.

use crate::re::{Flags, Re};

pub const MSGS: [&str; 4] = ["first problem", "second problem", "third problem", "fourth \"problem\": é"];

#[derive(Debug, Clone, PartialEq)]
pub enum Text {
    S(String),
    /// the value of a variable
    Var(String),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Span {
    /// min..
    From(usize),
    /// min..max (the end is the maximum)
    Excl(usize, usize),
    /// min..=max
    Incl(usize, usize),
    /// ..max
    To(usize),
    /// ..
    Full,
}

impl Span {
    pub fn bounds(&self) -> (usize, usize) {
        match *self {
            Span::From(a) => (a, usize::MAX),
            Span::Excl(a, b) | Span::Incl(a, b) => (a, b),
            Span::To(b) => (0, b),
            Span::Full => (0, usize::MAX),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum CatchAct {
    /// Turn a plain failure into "nothing consumed", pass fatal errors on
    Recover,
    /// Turn a fatal error into a plain failure
    Soften,
    /// Turn both into "nothing consumed"
    Swallow,
}

/// What a matcher of the user's own can answer, apart from tokens
#[derive(Debug, Clone, PartialEq)]
pub enum Own {
    /// Consume so many characters without a token, or fail if they aren't there
    Skip(usize),
    /// Go on with the next iteration of the loop with this name
    Continue(String),
    /// End the program or loop
    Stop,
    /// Nothing at all
    Nothing,
    /// End the loop with this name, or its iteration, and hand over what was found
    Jump { leave: bool, label: String, load: Load },
    /// A token for so many characters
    Token(String, usize),
}

/// What a matcher of the user's own found before it jumps, for so many characters
#[derive(Debug, Clone, PartialEq)]
pub enum Load {
    Skip(usize),
    Token(String, usize),
    /// a token around one token, of which only the inner one is to stay
    Inner(String, usize),
}

impl Load {
    pub fn count(&self) -> usize {
        match self {
            Load::Skip(n) | Load::Token(_, n) | Load::Inner(_, n) => *n,
        }
    }
}

/// What a reference may be given
#[derive(Debug, Clone, PartialEq)]
pub enum To {
    Name(String),
    /// a variable: with a name in it, or a matcher
    Var(String),
    M(Box<G>),
}

#[derive(Debug, Clone, PartialEq)]
pub enum G {
    Own(Own),
    Eq(Option<String>, Text),
    Re(Option<String>, Re, Flags),
    Seq(Option<String>, String, String, String),
    Prog(Option<String>, Vec<G>),
    Switch(Option<String>, Vec<G>),
    Loop(Option<String>, Span, Vec<G>),
    Opt(Box<G>),
    Not(Box<G>),
    Discard(Box<G>),
    Flat(Option<String>, Box<G>),
    Expand(Box<G>),
    Pin(Option<String>, Text, Option<Box<G>>),
    Store(String, Box<G>),
    StoreStr(String, String),
    Ref(String),
    /// all the other forms of references
    RefAs(Option<String>, To),
    /// a sequence with delimiters out of variables
    SeqOf(Option<String>, Text, Text, Text),
    Register(Vec<G>),
    SetScope(Box<G>),
    /// scope given from outside, by index
    SetScopeWith(usize, Box<G>),
    Break(String),
    Error(usize),
    Panic(usize),
    AssertIf(Box<G>, usize),
    AssertIfNot(Box<G>, usize),
    FatalIf(Box<G>, usize),
    FatalIfNot(Box<G>, usize),
    MapName(Box<G>, String),
    MapAttrs(Box<G>, Vec<(String, String)>),
    MapFail(Box<G>),
    Catch(Box<G>, CatchAct),
    Debug(usize, Option<Box<G>>),
    /// callbacks that only take notes, with a number: those of a map (for both results), or of a catch
    Spy(usize, bool, Box<G>),
    Null,
}

impl G {
    pub fn eq(s: &str) -> G {
        G::Eq(None, Text::S(s.to_string()))
    }
    pub fn children(&self) -> Vec<&G> {
        match self {
            G::Prog(_, v) | G::Switch(_, v) | G::Loop(_, _, v) | G::Register(v) => v.iter().collect(),
            G::Opt(g)
            | G::Not(g)
            | G::Discard(g)
            | G::Flat(_, g)
            | G::Expand(g)
            | G::Store(_, g)
            | G::SetScope(g)
            | G::SetScopeWith(_, g)
            | G::AssertIf(g, _)
            | G::AssertIfNot(g, _)
            | G::FatalIf(g, _)
            | G::FatalIfNot(g, _)
            | G::MapName(g, _)
            | G::MapAttrs(g, _)
            | G::MapFail(g)
            | G::RefAs(_, To::M(g))
            | G::Spy(_, _, g)
            | G::Catch(g, _) => vec![g],
            G::Pin(_, _, g) => g.iter().map(|g| &**g).collect(),
            G::Debug(_, g) => g.iter().map(|g| &**g).collect(),
            _ => vec![],
        }
    }
    pub fn any(&self, f: &dyn Fn(&G) -> bool) -> bool {
        f(self) || self.children().iter().any(|c| c.any(f))
    }
    pub fn size(&self) -> usize {
        1 + self.children().iter().map(|c| c.size()).sum::<usize>()
    }
    pub fn is_consuming(&self) -> bool {
        match self {
            G::Pin(..) | G::Null | G::Register(_) | G::StoreStr(..) => false,
            G::Debug(_, g) => g.as_ref().map_or(false, |g| g.is_consuming()),
            G::Opt(g) | G::Discard(g) | G::Store(_, g) | G::Flat(_, g) | G::Expand(g) | G::SetScope(g) | G::SetScopeWith(_, g) => g.is_consuming(),
            _ => true,
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    S(String),
    M(G),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Grammar {
    pub root: G,
    /// Named rules, registered before the parse starts
    pub rules: Vec<(String, G)>,
    /// Scopes given from outside to SetScopeWith
    pub scopes: Vec<Vec<(String, Val)>>,
}

impl Grammar {
    pub fn of(root: G) -> Grammar {
        Grammar { root, rules: vec![], scopes: vec![] }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Case {
    pub g: Grammar,
    pub input: String,
    pub file: String,
    /// Window, if it isn't the whole input
    pub window: Option<(usize, usize)>,
}

impl Case {
    pub fn new(g: Grammar, input: String) -> Case {
        Case { g, input, file: String::new(), window: None }
    }
    pub fn show(&self) -> String {
        let mut s = format!("grammar {:?}", self.g.root);
        if !self.g.rules.is_empty() {
            s.push_str(&format!(" rules {:?}", self.g.rules));
        }
        if !self.g.scopes.is_empty() {
            s.push_str(&format!(" scopes {:?}", self.g.scopes));
        }
        s.push_str(&format!(" input {:?}", self.input));
        if let Some(w) = self.window {
            s.push_str(&format!(" window {:?}", w));
        }
        if !self.file.is_empty() {
            s.push_str(&format!(" file {:?}", self.file));
        }
        s
    }
}
