//! Builds the library's own matchers from a grammar and runs them.

use crate::ast::*;
use crate::dump::{Outcome, D};
use adextopa_core::matcher::{Matcher, MatcherFailure, MatcherRef, MatcherSuccess};
use adextopa_core::matchers::program::{MatchAction, ProgramPattern};
use adextopa_core::parser::{Parser, ParserRef};
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::VariableType;
use adextopa_core::scope_context::{ScopeContext, ScopeContextRef};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef};
use adextopa_core::*;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const OUT_OF_FUEL: &str = "harness: out of fuel";
pub const TOO_DEEP: &str = "harness: recursion too deep";

#[derive(Clone)]
pub struct Fuel {
    full: usize,
    left: Rc<Cell<usize>>,
    used: Rc<Cell<usize>>,
    depth: Rc<Cell<usize>>,
}

impl Fuel {
    pub fn new(n: usize) -> Fuel {
        Fuel { full: n, left: Rc::new(Cell::new(n)), used: Rc::new(Cell::new(0)), depth: Rc::new(Cell::new(0)) }
    }
    pub fn used(&self) -> usize {
        self.used.get()
    }
}

/// Passes everything on to the matcher inside, and counts how often it is used
struct Counted {
    inner: MatcherRef,
    name: String,
    fuel: Fuel,
    deep: bool,
}

impl Matcher for Counted {
    fn before_exec(&self, _: MatcherRef, _: ParserContextRef, _: ScopeContextRef) {}
    fn exec(&self, _: MatcherRef, c: ParserContextRef, s: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
        let f = &self.fuel;
        if f.left.get() == 0 {
            panic!("{}", OUT_OF_FUEL);
        }
        f.left.set(f.left.get() - 1);
        f.used.set(f.used.get() + 1);
        if self.deep {
            if f.depth.get() > 400 {
                panic!("{}", TOO_DEEP);
            }
            f.depth.set(f.depth.get() + 1);
        }
        let r = self.inner.borrow().exec(self.inner.clone(), c, s);
        if self.deep {
            f.depth.set(f.depth.get() - 1);
        }
        r
    }
    fn get_name(&self) -> &str {
        &self.name
    }
    fn set_name(&mut self, n: &str) {
        self.name = n.to_string();
        self.inner.borrow_mut().set_name(n);
    }
    fn add_pattern(&mut self, p: MatcherRef) {
        self.inner.borrow_mut().add_pattern(p);
    }
    fn get_children(&self) -> Option<Vec<MatcherRef>> {
        self.inner.borrow().get_children()
    }
    fn to_string(&self) -> String {
        Matcher::to_string(&**self.inner.borrow())
    }
    fn has_custom_name(&self) -> bool {
        self.inner.borrow().has_custom_name()
    }
    fn is_consuming(&self) -> bool {
        self.inner.borrow().is_consuming()
    }
}

/// A matcher that is not one of the library's
struct Custom(Own, Option<Notes>);

pub type Notes = Rc<RefCell<Vec<String>>>;

fn note_var(v: Option<VariableType>) -> String {
    match v {
        None => "-".into(),
        Some(VariableType::String(s)) => format!("{:?}", s),
        Some(VariableType::Token(t)) => {
            let t = t.borrow();
            let r = t.get_matched_range();
            format!("{}{:?}", t.get_name(), (r.start, r.end))
        }
        Some(VariableType::Matcher(_)) => "matcher".into(),
    }
}

fn note(notes: &Notes, what: String, c: &ParserContextRef, s: &ScopeContextRef) {
    let c = c.borrow();
    let mut line = format!("{} {}..{}", what, c.offset.start, c.offset.end);
    for v in crate::model::NOTED {
        line.push_str(&format!(" {} {}", note_var(s.borrow().get(v)), note_var(c.get_scope_variable(v))));
    }
    notes.borrow_mut().push(line);
}

fn note_token(t: &TokenRef) -> String {
    let short = |t: &TokenRef| {
        let t = t.borrow();
        let r = t.get_matched_range();
        format!("{}{:?}", t.get_name(), (r.start, r.end))
    };
    let k = t.borrow();
    let r = k.get_captured_range();
    let kids: Vec<String> = k.get_children().iter().map(short).collect();
    format!("{}/{:?}[{}]", short(t), (r.start, r.end), kids.join(" "))
}

fn note_failure(notes: &Notes, id: usize, f: &MatcherFailure, c: &ParserContextRef, s: &ScopeContextRef) {
    let what = match f {
        MatcherFailure::Fail => format!("{} failed", id),
        MatcherFailure::Error(e) => {
            let m = if e.range.is_none() { "~" } else { e.message.as_str() };
            format!("{} fatal {:?} {:?}", id, m, e.range.map(|r| (r.start, r.end)))
        }
    };
    note(notes, what, c, s);
}

impl Matcher for Custom {
    fn exec(&self, this: MatcherRef, c: ParserContextRef, s: ScopeContextRef) -> Result<MatcherSuccess, MatcherFailure> {
        self.before_exec(this.clone(), c.clone(), s.clone());
        if let Some(notes) = &self.1 {
            note(notes, format!("{:?}", self.0), &c, &s);
        }
        let r = match &self.0 {
            Own::Continue(l) => Ok(MatcherSuccess::Continue((l.clone(), Box::new(MatcherSuccess::None)))),
            Own::Stop => Ok(MatcherSuccess::Stop),
            Own::Nothing => Ok(MatcherSuccess::None),
            Own::Jump { leave, label, load } => {
                let c = c.borrow();
                let p = c.get_parser();
                let source = p.borrow().get_source().to_string();
                let w = &source[c.offset.start..c.offset.end];
                match w.char_indices().map(|c| c.0).chain(Some(w.len())).nth(load.count()) {
                    None => Err(MatcherFailure::Fail),
                    Some(len) => {
                        let r = SourceRange::new(c.offset.start, c.offset.start + len);
                        let found = Box::new(match load {
                            Load::Skip(_) => MatcherSuccess::Skip(len as isize),
                            Load::Token(name, _) => MatcherSuccess::Token(StandardToken::new(&p, name.clone(), r)),
                            Load::Inner(name, _) => {
                                let outer = StandardToken::new(&p, "Outer".into(), r);
                                let inner = StandardToken::new(&p, name.clone(), r);
                                inner.borrow_mut().set_parent(Some(outer.clone()));
                                outer.borrow_mut().set_children(vec![inner]);
                                MatcherSuccess::ProxyChildren(outer)
                            }
                        });
                        Ok(if *leave { MatcherSuccess::Break((label.clone(), found)) } else { MatcherSuccess::Continue((label.clone(), found)) })
                    }
                }
            }
            Own::Skip(n) | Own::Token(_, n) => {
                let c = c.borrow();
                let p = c.get_parser();
                let source = p.borrow().get_source().to_string();
                let w = &source[c.offset.start..c.offset.end];
                let len = w.char_indices().map(|c| c.0).chain(Some(w.len())).nth(*n);
                match (len, &self.0) {
                    (None, _) => Err(MatcherFailure::Fail),
                    (Some(len), Own::Token(name, _)) => {
                        Ok(MatcherSuccess::Token(StandardToken::new(&p, name.clone(), SourceRange::new(c.offset.start, c.offset.start + len))))
                    }
                    (Some(len), _) => Ok(MatcherSuccess::Skip(len as isize)),
                }
            }
        };
        self.after_exec(this, c, s);
        r
    }
    fn get_name(&self) -> &str {
        "Custom"
    }
    fn set_name(&mut self, _: &str) {}
    fn add_pattern(&mut self, _: MatcherRef) {
        panic!("no patterns here");
    }
    fn get_children(&self) -> Option<Vec<MatcherRef>> {
        None
    }
    fn to_string(&self) -> String {
        format!("{:?}", self.0)
    }
}

/// A text that is given or fetched, as a `Fetchable` of the harness' own
#[derive(Debug)]
enum Any {
    S(String),
    F(matchers::fetch::FetchPattern),
}

impl Any {
    fn of(t: &Text) -> Any {
        match t {
            Text::S(t) => Any::S(t.clone()),
            Text::Var(v) => Any::F(matchers::fetch::FetchPattern::new(v)),
        }
    }
}

impl matchers::fetch::Fetchable for Any {
    fn fetch_value(&self, c: ParserContextRef, s: ScopeContextRef) -> matchers::fetch::FetchableType {
        match self {
            Any::S(t) => matchers::fetch::FetchableType::String(t.clone()),
            Any::F(f) => f.fetch_value(c, s),
        }
    }
}

pub struct Builder {
    pub fuel: Fuel,
    /// 0: constructors that take all patterns, 1: patterns added one by one, 2: the macros,
    /// 3: equal parts of the grammar are one matcher, 4: children put in place of others
    pub style: u8,
    /// the library's matchers alone, without the counters
    pub raw: bool,
    known: RefCell<std::collections::HashMap<String, MatcherRef>>,
    /// where callbacks and matchers of one's own take notes
    pub notes: Option<Notes>,
    pub scopes: Vec<ScopeContextRef>,
}

macro_rules! with_msg {
    ($i:expr, $mac:ident, $m:expr) => {
        match $i {
            0 => $mac!($m, "first problem"),
            1 => $mac!($m, "second problem"),
            2 => $mac!($m, "third problem"),
            _ => $mac!($m, "fourth \"problem\": é"),
        }
    };
}

// The name of these is written in the source, so there is one use for each name in gen::NAMES
macro_rules! by_name {
    ($n:expr, $else:expr, $mac:ident ! ($($args:tt)*)) => {
        match $n.as_str() {
            "Alpha" => $mac!("Alpha"; $($args)*),
            "Beta" => $mac!("Beta"; $($args)*),
            "alpha" => $mac!("alpha"; $($args)*),
            "Größe" => $mac!("Größe"; $($args)*),
            "x1" => $mac!("x1"; $($args)*),
            "AlphaBeta" => $mac!("AlphaBeta"; $($args)*),
            _ => $else,
        }
    };
}

// A loop that has a name and a range
macro_rules! Span {
    ($n:literal; $s:expr, $($args:tt)*) => {
        match $s {
            Span::From(0) => Loop!($n; $($args)*),
            Span::From(a) => Loop!(a..; $n; $($args)*),
            Span::Excl(a, b) => Loop!(a..b; $n; $($args)*),
            Span::Incl(a, b) => Loop!(a..=b; $n; $($args)*),
            Span::To(b) => Loop!(..b; $n; $($args)*),
            Span::Full => Loop!(..; $n; $($args)*),
        }
    };
}

fn spans(ps: Vec<MatcherRef>, s: Span) -> MatcherRef {
    match s {
        Span::From(a) => ProgramPattern::new_loop(ps, a..),
        Span::Excl(a, b) => ProgramPattern::new_loop(ps, a..b),
        Span::Incl(a, b) => ProgramPattern::new_loop(ps, a..=b),
        Span::To(b) => ProgramPattern::new_loop(ps, ..b),
        Span::Full => ProgramPattern::new_loop(ps, ..),
    }
}

fn spans_named(ps: Vec<MatcherRef>, n: String, s: Span) -> MatcherRef {
    match s {
        Span::From(a) => ProgramPattern::new_loop_with_name_and_range(ps, n, a..),
        Span::Excl(a, b) => ProgramPattern::new_loop_with_name_and_range(ps, n, a..b),
        Span::Incl(a, b) => ProgramPattern::new_loop_with_name_and_range(ps, n, a..=b),
        Span::To(b) => ProgramPattern::new_loop_with_name_and_range(ps, n, ..b),
        Span::Full => ProgramPattern::new_loop_with_name_and_range(ps, n, ..),
    }
}

fn spans_blank(s: Span) -> MatcherRef {
    match s {
        Span::From(a) => ProgramPattern::new_blank_loop(a..),
        Span::Excl(a, b) => ProgramPattern::new_blank_loop(a..b),
        Span::Incl(a, b) => ProgramPattern::new_blank_loop(a..=b),
        Span::To(b) => ProgramPattern::new_blank_loop(..b),
        Span::Full => ProgramPattern::new_blank_loop(..),
    }
}

fn add_all(m: MatcherRef, name: &Option<String>, ps: Vec<MatcherRef>) -> MatcherRef {
    {
        let mut b = m.borrow_mut();
        if let Some(n) = name {
            b.set_name(n);
        }
        for p in ps {
            b.add_pattern(p);
        }
    }
    m
}

fn fill(m: MatcherRef, ps: Vec<MatcherRef>) -> MatcherRef {
    for (i, p) in ps.into_iter().enumerate() {
        m.borrow_mut().set_child(i, p);
    }
    m
}

impl Builder {
    pub fn new(style: u8, fuel: usize) -> Builder {
        Builder { fuel: Fuel::new(fuel), style, raw: false, known: Default::default(), notes: None, scopes: vec![] }
    }

    fn counted(&self, m: MatcherRef, deep: bool) -> MatcherRef {
        if self.raw {
            return m;
        }
        let name = m.borrow().get_name().to_string();
        Rc::new(RefCell::new(Box::new(Counted { inner: m, name, fuel: self.fuel.clone(), deep })))
    }

    fn list(&self, v: &[G]) -> Vec<MatcherRef> {
        v.iter().map(|g| self.build(g)).collect()
    }

    fn holes(&self, ps: &[MatcherRef]) -> Vec<MatcherRef> {
        ps.iter().map(|_| Panic!("a matcher that was replaced")).collect()
    }

    fn seq(&self, name: &Option<String>, stop: bool, v: &[G]) -> MatcherRef {
        let act = || if stop { MatchAction::Stop } else { MatchAction::Continue };
        let ps = self.list(v);
        match (self.style, name) {
            (4, _) => {
                let m = match name {
                    None => ProgramPattern::new_program(self.holes(&ps), act()),
                    Some(n) => ProgramPattern::new_program_with_name(self.holes(&ps), n.clone(), act()),
                };
                fill(m, ps)
            }
            (0, None) => ProgramPattern::new_program(ps, act()),
            (0, Some(n)) => ProgramPattern::new_program_with_name(ps, n.clone(), act()),
            (2, None) if ps.len() < 4 => match (stop, ps.as_slice()) {
                (false, [a]) => Program!(a.clone()),
                (false, [a, b]) => Program!(a.clone(), b.clone()),
                (false, [a, b, c]) => Program!(a.clone(), b.clone(), c.clone()),
                (true, [a]) => Switch!(a.clone()),
                (true, [a, b]) => Switch!(a.clone(), b.clone()),
                (true, [a, b, c]) => Switch!(a.clone(), b.clone(), c.clone()),
                (false, _) => Program!(),
                (true, _) => Switch!(),
            },
            (2, Some(n)) if matches!(ps.len(), 1..=3) => {
                let other = || add_all(ProgramPattern::new_blank_program(act()), name, ps.clone());
                match (stop, ps.as_slice()) {
                    (false, [a]) => by_name!(n, other(), Program!(a.clone())),
                    (false, [a, b]) => by_name!(n, other(), Program!(a.clone(), b.clone())),
                    (false, [a, b, c]) => by_name!(n, other(), Program!(a.clone(), b.clone(), c.clone())),
                    (true, [a]) => by_name!(n, other(), Switch!(a.clone())),
                    (true, [a, b]) => by_name!(n, other(), Switch!(a.clone(), b.clone())),
                    (true, [a, b, c]) => by_name!(n, other(), Switch!(a.clone(), b.clone(), c.clone())),
                    _ => unreachable!(),
                }
            }
            _ => add_all(ProgramPattern::new_blank_program(act()), name, ps),
        }
    }

    fn repeat(&self, name: &Option<String>, s: Span, v: &[G]) -> MatcherRef {
        let ps = self.list(v);
        match (self.style, name) {
            (4, _) => {
                let m = match name {
                    None => spans(self.holes(&ps), s),
                    Some(n) => spans_named(self.holes(&ps), n.clone(), s),
                };
                fill(m, ps)
            }
            (0, None) => spans(ps, s),
            (0, Some(n)) => spans_named(ps, n.clone(), s),
            (2, None) if ps.len() == 1 => {
                let p = ps[0].clone();
                match s {
                    Span::From(a) => Loop!(a..; p),
                    Span::Excl(a, b) => Loop!(a..b; p),
                    Span::Incl(a, b) => Loop!(a..=b; p),
                    Span::To(b) => Loop!(..b; p),
                    Span::Full => Loop!(p),
                }
            }
            (2, None) if ps.len() == 2 => {
                let (p, q) = (ps[0].clone(), ps[1].clone());
                match s {
                    Span::From(a) => Loop!(a..; p, q),
                    Span::Excl(a, b) => Loop!(a..b; p, q),
                    Span::Incl(a, b) => Loop!(a..=b; p, q),
                    Span::To(b) => Loop!(..b; p, q),
                    Span::Full => Loop!(p, q),
                }
            }
            (2, Some(n)) if matches!(ps.len(), 1..=2) => {
                let other = || add_all(spans_blank(s), name, ps.clone());
                match ps.as_slice() {
                    [a] => by_name!(n, other(), Span!(s, a.clone())),
                    [a, b] => by_name!(n, other(), Span!(s, a.clone(), b.clone())),
                    _ => unreachable!(),
                }
            }
            _ => add_all(spans_blank(s), name, ps),
        }
    }

    pub fn build(&self, g: &G) -> MatcherRef {
        if self.style != 3 {
            return self.make(g);
        }
        let key = format!("{:?}", g);
        let known = self.known.borrow().get(&key).cloned();
        known.unwrap_or_else(|| {
            let m = self.make(g);
            self.known.borrow_mut().insert(key, m.clone());
            m
        })
    }

    fn around(&self, g: &G, make: impl FnOnce(MatcherRef) -> MatcherRef) -> MatcherRef {
        let inner = self.build(g);
        if self.style == 4 {
            let m = make(Panic!("a matcher that was replaced"));
            m.borrow_mut().set_child(0, inner);
            m
        } else {
            make(inner)
        }
    }

    /// With the macro, where that is not how it is built anyway
    fn with_macro(&self, g: &G) -> Option<MatcherRef> {
        use adextopa_core::matchers::fetch;
        let leaf = |m: MatcherRef| Some(self.counted(m, false));
        match g {
            G::Eq(None, Text::S(s)) => leaf(Equals!(s.clone())),
            G::Eq(None, Text::Var(v)) => leaf(Equals!(fetch::FetchPattern::new(v))),
            G::Re(n, re, f) if f.render().is_empty() => {
                let re = re.render();
                leaf(match n {
                    None => Matches!(&re),
                    Some(n) => Matches!(n; &re),
                })
            }
            G::Seq(None, a, b, e) => leaf(Sequence!(a.clone(), b.clone(), e.clone())),
            G::Seq(Some(n), a, b, e) => leaf(Sequence!(n; a.clone(), b.clone(), e.clone())),
            G::Flat(Some(n), g) => {
                let m = self.build(g);
                Some(by_name!(n, return None, ProxyChildren!(m)))
            }
            G::Pin(None, Text::S(o), None) if o.is_empty() => leaf(Pin!()),
            G::Pin(Some(n), Text::S(o), None) if o.is_empty() => leaf(Pin!(n;)),
            G::Pin(Some(n), Text::S(o), None) => leaf(Pin!(n, o.clone();)),
            G::Pin(Some(n), Text::Var(o), None) => leaf(Pin!(n, fetch::FetchPattern::new(o);)),
            G::Pin(None, Text::S(o), Some(g)) if o.is_empty() => Some(Pin!(self.build(g))),
            G::Pin(Some(n), Text::S(o), Some(g)) if o.is_empty() => Some(Pin!(n; self.build(g))),
            G::Pin(Some(n), Text::S(o), Some(g)) => Some(Pin!(n, o.clone(); self.build(g))),
            G::Pin(Some(n), Text::Var(o), Some(g)) => Some(Pin!(n, fetch::FetchPattern::new(o); self.build(g))),
            G::Store(n, g) => Some(Store!(n; self.build(g))),
            G::StoreStr(n, s) if s == "a" => leaf(match n.as_str() {
                "v" => Store!("v"; "a"),
                "w" => Store!("w"; "a"),
                "z" => Store!("z"; "a"),
                _ => return None,
            }),
            G::Register(v) if matches!(v.len(), 1..=3) => leaf(match self.list(v).as_slice() {
                [a] => Register!(a.clone()),
                [a, b] => Register!(a.clone(), b.clone()),
                [a, b, c] => Register!(a.clone(), b.clone(), c.clone()),
                _ => unreachable!(),
            }),
            G::Debug(1, Some(g)) => Some(Debug!(self.build(g))),
            G::Debug(1, None) => leaf(Debug!()),
            G::Debug(2, Some(g)) => Some(Debug!(2; self.build(g))),
            G::Debug(2, None) => leaf(Debug!(2;)),
            G::Debug(3, Some(g)) => Some(Debug!(3; self.build(g))),
            G::Debug(3, None) => leaf(Debug!(3;)),
            _ => None,
        }
    }

    fn make(&self, g: &G) -> MatcherRef {
        use adextopa_core::matchers::{
            equals::EqualsPattern, fetch::FetchPattern, matches::MatchesPattern, pin::PinPattern,
            proxy_children::ProxyChildrenPattern, r#ref::RefPattern, register::RegisterPattern, sequence::SequencePattern,
            store::StorePattern,
        };
        let leaf = |m: MatcherRef| self.counted(m, false);
        if self.style == 2 {
            if let Some(m) = self.with_macro(g) {
                return m;
            }
        }
        match g {
            G::Eq(None, Text::S(s)) => leaf(EqualsPattern::new(s.clone())),
            G::Eq(None, Text::Var(v)) => leaf(EqualsPattern::new(FetchPattern::new(v))),
            G::Eq(Some(n), Text::S(s)) => {
                if self.style == 2 {
                    leaf(Equals!(n; s))
                } else {
                    leaf(EqualsPattern::new_with_name(n, s.clone()))
                }
            }
            G::Eq(Some(n), Text::Var(v)) => leaf(EqualsPattern::new_with_name(n, FetchPattern::new(v))),
            G::Re(n, re, f) => {
                let r = re.compile(*f);
                leaf(match n {
                    None => MatchesPattern::new(r),
                    Some(n) => MatchesPattern::new_with_name(n, r),
                })
            }
            G::Seq(n, a, b, e) => leaf(match n {
                None => SequencePattern::new(a.clone(), b.clone(), e.clone()),
                Some(n) => SequencePattern::new_with_name(n, a.clone(), b.clone(), e.clone()),
            }),
            G::SeqOf(n, a, b, e) => {
                let (a, b, e) = (Any::of(a), Any::of(b), Any::of(e));
                leaf(match (n, a, b, e) {
                    (None, Any::F(a), Any::F(b), Any::F(e)) => SequencePattern::new(a, b, e),
                    (None, a, b, e) => SequencePattern::new(a, b, e),
                    (Some(n), a, b, e) => SequencePattern::new_with_name(n, a, b, e),
                })
            }
            G::Prog(n, v) => self.seq(n, false, v),
            G::Switch(n, v) => self.seq(n, true, v),
            G::Loop(n, s, v) => self.repeat(n, *s, v),
            G::Opt(g) => self.around(g, |m| Optional!(m)),
            G::Not(g) => self.around(g, |m| Not!(m)),
            G::Discard(g) => self.around(g, |m| Discard!(m)),
            G::Flat(None, g) => self.around(g, |m| ProxyChildren!(m)),
            G::Flat(Some(n), g) => self.around(g, |m| ProxyChildrenPattern::new_with_name(m, n)),
            G::Expand(g) => self.around(g, |m| ExpandRange!(m)),
            G::Pin(n, o, g) => {
                let inner = g.as_ref().map(|g| self.build(g));
                let plain = inner.is_none();
                let m = match (n, o) {
                    (None, Text::S(o)) => PinPattern::new(inner, o.clone()),
                    (None, Text::Var(o)) => PinPattern::new(inner, FetchPattern::new(o)),
                    (Some(n), Text::S(o)) => PinPattern::new_with_name(inner, n, o.clone()),
                    (Some(n), Text::Var(o)) => PinPattern::new_with_name(inner, n, FetchPattern::new(o)),
                };
                if plain {
                    leaf(m)
                } else {
                    m
                }
            }
            G::Store(n, g) => StorePattern::new_as_matcher_type(n, self.build(g)),
            G::StoreStr(n, s) => leaf(StorePattern::new_as_string_type(n, s)),
            G::Ref(n) => self.counted(RefPattern::new(n.clone()), true),
            G::RefAs(n, to) => {
                let m = match (n.clone(), to) {
                    (None, To::Name(t)) => Ref!(t.clone()),
                    (Some(n), To::Name(t)) => Ref!(n; t.clone()),
                    (None, To::Var(v)) => Ref!(FetchPattern::new(v)),
                    (Some(n), To::Var(v)) => Ref!(n; FetchPattern::new(v)),
                    (None, To::M(g)) => Ref!(self.build(g)),
                    (Some(n), To::M(g)) => Ref!(n; self.build(g)),
                };
                self.counted(m, true)
            }
            G::Register(v) => {
                let m = RegisterPattern::new_blank();
                for p in self.list(v) {
                    m.borrow_mut().add_pattern(p);
                }
                leaf(m)
            }
            G::SetScope(g) => self.around(g, |m| SetScope!(m)),
            G::SetScopeWith(k, g) => self.around(g, |m| SetScope!(self.scopes[*k].clone(), m)),
            G::Break(l) => leaf(if l.is_empty() { Break!() } else { Break!(l) }),
            G::Own(o) => leaf(Rc::new(RefCell::new(Box::new(Custom(o.clone(), self.notes.clone()))))),
            G::Error(m) => leaf(Error!(MSGS[*m])),
            G::Panic(m) => leaf(Panic!(MSGS[*m])),
            G::AssertIf(g, m) => with_msg!(*m, AssertIf, self.build(g)),
            G::AssertIfNot(g, m) => with_msg!(*m, AssertIfNot, self.build(g)),
            G::FatalIf(g, m) => with_msg!(*m, FatalIf, self.build(g)),
            G::FatalIfNot(g, m) => with_msg!(*m, FatalIfNot, self.build(g)),
            G::MapName(g, n) => {
                let n = n.clone();
                self.around(g, |m| {
                    Map!(m, move |t: TokenRef, _, _| {
                        t.borrow_mut().set_name(&n);
                        Ok(MatcherSuccess::Token(t))
                    })
                })
            }
            G::MapAttrs(g, attrs) => {
                let attrs = attrs.clone();
                self.around(g, |m| Map!(m, move |t: TokenRef, _, _| {
                    for (k, v) in &attrs {
                        let has = t.borrow().has_attribute(k);
                        if !has {
                            t.borrow_mut().set_attribute(k, v);
                        }
                    }
                    Ok(MatcherSuccess::Token(t))
                }))
            }
            G::MapFail(g) => self.around(g, |m| Map!(m, |_, _, _| Err(MatcherFailure::Fail))),
            G::Catch(g, act) => {
                let act = act.clone();
                self.around(g, |m| Catch!(m, move |_, failure| match (failure, &act) {
                    (MatcherFailure::Fail, CatchAct::Recover | CatchAct::Swallow) => Ok(MatcherSuccess::Skip(0)),
                    (MatcherFailure::Error(_), CatchAct::Swallow) => Ok(MatcherSuccess::Skip(0)),
                    (MatcherFailure::Error(_), CatchAct::Soften) => Err(MatcherFailure::Fail),
                    (f, _) => Err(f),
                }))
            }
            G::Spy(id, true, g) => {
                let (id, notes) = (*id, self.notes.clone());
                // The scope is not given to these; that of the context is
                self.around(g, |m| {
                    Catch!(m, move |c: ParserContextRef, f| {
                        if let Some(notes) = &notes {
                            let s = c.borrow().get_scope();
                            note_failure(notes, id, &f, &c, &s);
                        }
                        Err(f)
                    })
                })
            }
            G::Spy(id, false, g) => {
                let (id, notes) = (*id, self.notes.clone());
                let other = notes.clone();
                self.around(g, |m| {
                    Map!(
                        m,
                        move |t: TokenRef, c: ParserContextRef, s: ScopeContextRef| {
                            if let Some(notes) = &notes {
                                note(notes, format!("{} took {}", id, note_token(&t)), &c, &s);
                            }
                            Ok(MatcherSuccess::Token(t))
                        },
                        move |f, c: ParserContextRef, s: ScopeContextRef| {
                            if let Some(notes) = &other {
                                note_failure(notes, id, &f, &c, &s);
                            }
                            Err(f)
                        }
                    )
                })
            }
            G::Debug(mode, g) => {
                use adextopa_core::matchers::debug::DebugPattern;
                match g {
                    Some(g) if self.style == 4 => {
                        let m = DebugPattern::new_with_debug_mode(None, *mode);
                        m.borrow_mut().set_child(0, self.build(g));
                        m
                    }
                    Some(g) if *mode == 1 => DebugPattern::new(Some(self.build(g))),
                    Some(g) => DebugPattern::new_with_debug_mode(Some(self.build(g)), *mode),
                    None if *mode == 1 => leaf(DebugPattern::new(None)),
                    None => leaf(DebugPattern::new_with_debug_mode(None, *mode)),
                }
            }
            // A fetch that is put where matchers go does nothing
            G::Null if self.style == 0 => leaf(Rc::new(RefCell::new(Box::new(Fetch!("nothing.of_this"))))),
            G::Null => leaf(Null!()),
        }
    }
}

pub fn dump(t: &TokenRef) -> D {
    dump_d(t, 0)
}

fn dump_d(t: &TokenRef, depth: usize) -> D {
    assert!(depth < 2000, "token tree is too deep to be a tree");
    let k = t.borrow();
    let parent = k.get_parent().map(|p| {
        let p = p.borrow();
        let r = p.get_matched_range();
        (p.get_name().clone(), (r.start, r.end))
    });
    let flags = [1u8, 2, 4, 8, 16, 32, 64, 128].iter().filter(|f| k.flags_enabled(**f)).sum();
    D {
        name: k.get_name().clone(),
        cap: (k.get_captured_range().start, k.get_captured_range().end),
        mat: (k.get_matched_range().start, k.get_matched_range().end),
        value: k.get_value().clone(),
        captured: k.get_captured_value().clone(),
        matched: k.get_matched_value().clone(),
        attrs: k.get_attributes().iter().map(|(a, b)| (a.clone(), b.clone())).collect(),
        flags,
        parent,
        kids: k.get_children().iter().map(|c| dump_d(c, depth + 1)).collect(),
    }
}

/// Break the cycles between parents and children, so that memory is released
pub fn release(t: &TokenRef) {
    let kids = match t.try_borrow_mut() {
        Ok(mut k) => {
            k.set_parent(None);
            std::mem::take(k.get_children_mut())
        }
        Err(_) => return,
    };
    for k in &kids {
        release(k);
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        "panic".into()
    }
}

pub fn guard(f: impl FnOnce() -> Outcome) -> Outcome {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => o,
        Err(p) => {
            let s = panic_text(p);
            if s.starts_with("harness:") {
                Outcome::Runaway(s)
            } else {
                Outcome::Crash(s)
            }
        }
    }
}

pub fn outcome(r: Result<TokenRef, MatcherFailure>) -> Outcome {
    match r {
        Ok(t) => {
            let d = dump(&t);
            release(&t);
            Outcome::Token(d)
        }
        Err(MatcherFailure::Fail) => Outcome::Fail,
        Err(MatcherFailure::Error(e)) => Outcome::Fatal(e.message, e.range.map(|r| (r.start, r.end))),
    }
}

/// Everything needed to parse the same input several times
pub struct Ready {
    pub parser: ParserRef,
    pub root: MatcherRef,
    pub rules: Vec<(String, MatcherRef)>,
    pub window: Option<(usize, usize)>,
    pub fuel: Fuel,
    pub builder: Builder,
}

pub fn ready(case: &Case, style: u8, fuel: usize) -> Ready {
    ready_as(case, style, false, fuel)
}

pub fn ready_as(case: &Case, style: u8, raw: bool, fuel: usize) -> Ready {
    let mut b = Builder::new(style, fuel);
    b.raw = raw;
    ready_from(case, b)
}

pub fn ready_from(case: &Case, mut b: Builder) -> Ready {
    for vars in &case.g.scopes {
        let s = ScopeContext::new();
        for (n, v) in vars {
            if let Val::S(v) = v {
                s.borrow_mut().set(n, VariableType::String(v.clone()));
            }
        }
        b.scopes.push(s);
    }
    for (k, vars) in case.g.scopes.iter().enumerate() {
        for (n, v) in vars {
            if let Val::M(g) = v {
                let m = b.build(g);
                b.scopes[k].borrow_mut().set(n, VariableType::Matcher(m));
            }
        }
    }
    let root = b.build(&case.g.root);
    let rules = case.g.rules.iter().map(|(n, g)| (n.clone(), b.build(g))).collect();
    let parser = if case.file.is_empty() { Parser::new(&case.input) } else { Parser::new_with_file_name(&case.input, &case.file) };
    Ready { parser, root, rules, window: case.window, fuel: b.fuel.clone(), builder: b }
}

impl Ready {
    pub fn context(&self) -> ParserContextRef {
        match self.window {
            None => ParserContext::new(&self.parser, "Test"),
            Some((a, b)) => ParserContext::new_with_offset(&self.parser, SourceRange::new(a, b), "Test"),
        }
    }
    /// The same matchers on the text of another case
    pub fn parse_text(&self, case: &Case) -> Outcome {
        let parser = if case.file.is_empty() { Parser::new(&case.input) } else { Parser::new_with_file_name(&case.input, &case.file) };
        self.parse_with(|| match case.window {
            None => ParserContext::new(&parser, "Test"),
            Some((a, b)) => ParserContext::new_with_offset(&parser, SourceRange::new(a, b), "Test"),
        })
    }
    pub fn parse(&self) -> Outcome {
        self.parse_with(|| self.context())
    }
    fn parse_with(&self, context: impl FnOnce() -> ParserContextRef) -> Outcome {
        self.fuel.left.set(self.fuel.full);
        self.fuel.depth.set(0);
        guard(|| {
            let c = context();
            for (n, m) in &self.rules {
                c.borrow().register_matcher_with_name(n, m.clone());
            }
            let r = outcome(ParserContext::tokenize(c.clone(), self.root.clone()));
            // rules registered in a scope refer to that scope's owner
            c
                .borrow()
                .get_scope()
                .borrow_mut()
                .pop();
            r
        })
    }
}

pub const FUEL: usize = 60_000;

pub fn run(case: &Case) -> Outcome {
    run_styled(case, 1)
}

pub fn run_styled(case: &Case, style: u8) -> Outcome {
    guard(|| ready(case, style, FUEL).parse())
}
