//! Random grammars, and inputs that have a fair chance of matching them.

use crate::ast::*;
use crate::re::{self, Flags};
use crate::src::Src;
use std::collections::HashMap;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
#[repr(usize)]
pub enum K {
    Eq,
    Re,
    Seq,
    Prog,
    Switch,
    Loop,
    Opt,
    Not,
    Discard,
    Flat,
    Expand,
    Pin,
    Store,
    StoreStr,
    EqVar,
    Ref,
    Register,
    SetScope,
    SetScopeWith,
    Break,
    Error,
    Panic,
    AssertIf,
    AssertIfNot,
    FatalIf,
    FatalIfNot,
    MapName,
    MapAttrs,
    MapFail,
    Catch,
    Debug,
    Null,
    Own,
    RefAs,
    SeqVar,
    Spy,
}
const NK: usize = 36;

#[derive(Clone)]
pub struct Cfg {
    pub w: [u32; NK],
    pub depth: usize,
    pub pieces: &'static [&'static str],
    /// chance in 8 that a matcher which can have a name has one
    pub names: usize,
    pub rules: usize,
    pub multiline: bool,
}

pub const ASCII: &[&str] = &["a", "b", "ab", "c", "1", "aa", "(", ")", " ", "12"];
pub const MIXED: &[&str] = &["a", "b", "é", "日", "ab", "1", "日本", "\n", "ß", " ", "🎈", "aé"];
pub const LINES: &[&str] = &["a", "b", "\n", "\r\n", "\n", "\r", "é", "ab", " ", "1", "日"];
pub const NAMES: &[&str] = &["Alpha", "Beta", "alpha", "Größe", "x1", "AlphaBeta"];
pub const VARS: &[&str] = &["v", "w", "z"];

pub fn weights(list: &[(K, u32)]) -> [u32; NK] {
    let mut w = [0; NK];
    for (k, n) in list {
        w[*k as usize] = *n;
    }
    w
}

impl Cfg {
    pub fn new(list: &[(K, u32)]) -> Cfg {
        Cfg { w: weights(list), depth: 4, pieces: ASCII, names: 2, rules: 0, multiline: false }
    }
    pub fn depth(mut self, d: usize) -> Cfg {
        self.depth = d;
        self
    }
    pub fn pieces(mut self, p: &'static [&'static str]) -> Cfg {
        self.pieces = p;
        self
    }
    pub fn names(mut self, n: usize) -> Cfg {
        self.names = n;
        self
    }
    pub fn rules(mut self, n: usize) -> Cfg {
        self.rules = n;
        self
    }
    pub fn with(mut self, list: &[(K, u32)]) -> Cfg {
        for (k, n) in list {
            self.w[*k as usize] = *n;
        }
        self
    }
}

/// The core of the language: enough to write any context-free grammar
pub fn core() -> Cfg {
    Cfg::new(&[
        (K::Eq, 8),
        (K::Re, 3),
        (K::Seq, 1),
        (K::Prog, 5),
        (K::Switch, 4),
        (K::Loop, 4),
        (K::Opt, 2),
        (K::Not, 1),
        (K::Discard, 2),
        (K::Flat, 1),
    ])
}

/// Everything
pub fn full() -> Cfg {
    core().rules(2).with(&[
        (K::Expand, 1),
        (K::Pin, 1),
        (K::Store, 1),
        (K::StoreStr, 1),
        (K::EqVar, 1),
        (K::Ref, 2),
        (K::Register, 1),
        (K::SetScope, 1),
        (K::Break, 1),
        (K::Error, 1),
        (K::Panic, 1),
        (K::AssertIf, 1),
        (K::AssertIfNot, 1),
        (K::FatalIf, 1),
        (K::FatalIfNot, 1),
        (K::MapName, 1),
        (K::MapAttrs, 1),
        (K::MapFail, 1),
        (K::Catch, 1),
        (K::Null, 1),
        (K::Own, 1),
        (K::RefAs, 1),
        (K::SeqVar, 1),
    ])
}

pub struct Gen<'c> {
    pub cfg: &'c Cfg,
    pub rule_names: Vec<String>,
    pub vars: Vec<String>,
    loops: Vec<String>,
    pub scopes: usize,
    spies: usize,
    budget: usize,
}

fn is_leaf(k: usize) -> bool {
    matches!(
        k,
        x if x == K::Eq as usize
            || x == K::Re as usize
            || x == K::Seq as usize
            || x == K::StoreStr as usize
            || x == K::EqVar as usize
            || x == K::Ref as usize
            || x == K::Break as usize
            || x == K::Error as usize
            || x == K::Panic as usize
            || x == K::Null as usize
            || x == K::Own as usize
            || x == K::SeqVar as usize
    )
}

fn kind(i: usize) -> K {
    // SAFETY: every value below NK is a variant
    assert!(i < NK);
    unsafe { std::mem::transmute(i) }
}

impl<'c> Gen<'c> {
    pub fn new(cfg: &'c Cfg) -> Gen<'c> {
        Gen { cfg, rule_names: vec![], vars: vec![], loops: vec![], scopes: 0, spies: 0, budget: 40 }
    }

    pub fn piece(&self, s: &mut Src) -> String {
        s.pick(self.cfg.pieces).to_string()
    }

    pub fn literal(&self, s: &mut Src) -> String {
        let n = s.weighted(&[6, 2, 1]) + 1;
        (0..n).map(|_| self.piece(s)).collect()
    }

    fn name(&self, s: &mut Src) -> Option<String> {
        if s.chance(self.cfg.names, 8) {
            Some(s.pick(NAMES).to_string())
        } else {
            None
        }
    }

    pub fn span(&self, s: &mut Src) -> Span {
        match s.weighted(&[3, 2, 3, 3, 1, 1]) {
            0 => Span::From(1),
            1 => Span::From(0),
            2 => {
                let a = s.range(0, 3);
                Span::Excl(a, (a + s.range(0, 3)).max(1))
            }
            3 => {
                let a = s.range(0, 3);
                Span::Incl(a, (a + s.range(0, 3)).max(1))
            }
            4 => Span::To(s.range(1, 4)),
            _ => match s.below(3) {
                0 => Span::Full,
                1 => Span::From(2),
                _ => Span::From(3),
            },
        }
    }

    fn list(&mut self, s: &mut Src, depth: usize, lo: usize) -> Vec<G> {
        let n = lo + s.weighted(&[3, 4, 2, 1]);
        (0..n).map(|_| self.gen(s, depth)).collect()
    }

    fn sub(&mut self, s: &mut Src, depth: usize) -> Box<G> {
        Box::new(self.gen(s, depth.saturating_sub(1)))
    }

    pub fn leaf(&mut self, s: &mut Src) -> G {
        self.make(s, K::Eq, 0)
    }

    pub fn regex(&self, s: &mut Src) -> re::Re {
        re::gen(s, 2, &['a', 'b', 'c', '1', 'é', '(', ' ', '日'])
    }

    pub fn delims(&self, s: &mut Src) -> (String, String, String) {
        let (a, b) = *s.pick(&[("\"", "\""), ("(", ")"), ("<<", ">>"), ("'", "'"), ("a", "b"), ("/*", "*/"), ("é", "é"), ("ab", "ba"), ("<!--", "-->"), ("{", "end"), ("é(", ")"), ("a", "→")]);
        let e = *s.pick(&["\\", "", "\\\\", "!", "é", "a"]);
        let e = if e == b { "\\" } else { e };
        (a.to_string(), b.to_string(), e.to_string())
    }

    pub fn gen(&mut self, s: &mut Src, depth: usize) -> G {
        let mut w = self.cfg.w;
        if depth == 0 || self.budget == 0 {
            for (i, x) in w.iter_mut().enumerate() {
                if !is_leaf(i) {
                    *x = 0;
                }
            }
            if w.iter().all(|x| *x == 0) {
                w[0] = 1;
            }
        }
        if self.rule_names.is_empty() {
            w[K::Ref as usize] = 0;
        }
        if self.loops.is_empty() {
            w[K::Break as usize] = w[K::Break as usize].min(1);
        }
        if self.vars.is_empty() {
            w[K::EqVar as usize] = 0;
            w[K::SeqVar as usize] = 0;
        }
        if self.scopes == 0 {
            w[K::SetScopeWith as usize] = 0;
        }
        self.budget = self.budget.saturating_sub(1);
        let k = kind(s.weighted(&w));
        self.make(s, k, depth)
    }

    pub fn make(&mut self, s: &mut Src, k: K, depth: usize) -> G {
        let d = depth.saturating_sub(1);
        match k {
            K::Eq => {
                let n = self.name(s);
                G::Eq(n, Text::S(self.literal(s)))
            }
            K::EqVar => {
                let n = self.name(s);
                let mut v = if self.vars.is_empty() { "v".to_string() } else { s.pick(&self.vars).clone() };
                if self.cfg.w[K::RefAs as usize] > 0 && !self.rule_names.is_empty() && s.chance(1, 12) {
                    // a matcher isn't a text
                    v = s.pick(&self.rule_names).clone();
                }
                G::Eq(n, Text::Var(v))
            }
            K::Re => {
                let n = self.name(s);
                let r = self.regex(s);
                let f = if s.chance(1, 6) {
                    Flags { i: s.chance(1, 2), s: s.chance(1, 2), m: s.chance(1, 2), u: s.chance(1, 3) }
                } else {
                    Flags::default()
                };
                G::Re(n, r, f)
            }
            K::Seq => {
                let n = self.name(s);
                let (a, b, e) = self.delims(s);
                G::Seq(n, a, b, e)
            }
            K::SeqVar => {
                let n = self.name(s);
                let (a, b, e) = self.delims(s);
                let mut or = |g: &Self, s: &mut Src, t: String| {
                    if !g.vars.is_empty() && s.chance(1, 2) {
                        Text::Var(s.pick(&g.vars).clone())
                    } else if !g.rule_names.is_empty() && s.chance(1, 30) {
                        Text::Var(s.pick(&g.rule_names).clone())
                    } else {
                        Text::S(t)
                    }
                };
                let a = or(self, s, a);
                let b = if s.chance(1, 2) { a.clone() } else { or(self, s, b) };
                let e = or(self, s, e);
                G::SeqOf(n, a, b, e)
            }
            K::RefAs => {
                let n = if s.chance(1, 3) { Some(s.pick(NAMES).to_string()) } else { None };
                if let Some(n) = &n {
                    if s.chance(1, 2) {
                        self.rule_names.push(n.clone());
                    }
                }
                let to = match s.weighted(&[3, 3, 2, 3]) {
                    1 if !self.rule_names.is_empty() => To::Var(s.pick(&self.rule_names).clone()),
                    2 if !self.vars.is_empty() => To::Var(s.pick(&self.vars).clone()),
                    0 if !self.rule_names.is_empty() => To::Name(s.pick(&self.rule_names).clone()),
                    _ => To::M(self.sub(s, depth)),
                };
                G::RefAs(n, to)
            }
            K::Prog => {
                let n = self.name(s);
                G::Prog(n, self.list(s, d, 1))
            }
            K::Switch => {
                let n = self.name(s);
                G::Switch(n, self.list(s, d, 1))
            }
            K::Loop => {
                let n = self.name(s);
                let span = self.span(s);
                self.loops.push(n.clone().unwrap_or_else(|| "Loop".into()));
                let v = self.list(s, d, 1);
                self.loops.pop();
                G::Loop(n, span, v)
            }
            K::Opt => G::Opt(self.sub(s, depth)),
            K::Not => G::Not(self.sub(s, depth)),
            K::Discard => G::Discard(self.sub(s, depth)),
            K::Flat => {
                let n = if s.chance(1, 6) { self.name(s) } else { None };
                G::Flat(n, self.sub(s, depth))
            }
            K::Expand => G::Expand(self.sub(s, depth)),
            K::Pin => {
                let n = self.name(s);
                let o = self.pin_offset(s);
                let g = if s.chance(1, 8) { None } else { Some(self.sub(s, depth)) };
                G::Pin(n, o, g)
            }
            K::Store => {
                let v = s.pick(VARS).to_string();
                let g = self.sub(s, depth);
                let f = *s.pick(&["matched_value", "captured_value", "matched_value", "captured_value", "matched_value", "captured_value", "start", "end", "captured_start", "captured_end", "range", "captured_range"]);
                self.vars.push(format!("{}.{}", v, f));
                G::Store(v, g)
            }
            K::StoreStr => {
                let v = s.pick(VARS).to_string();
                self.vars.push(v.clone());
                let t = if self.cfg.w[K::RefAs as usize] > 0 && !self.rule_names.is_empty() && s.chance(1, 3) {
                    s.pick(&self.rule_names).clone()
                } else if self.cfg.w[K::SeqVar as usize] > 0 && s.chance(1, 4) {
                    self.delims(s).1
                } else {
                    self.literal(s)
                };
                G::StoreStr(v, t)
            }
            K::Ref => G::Ref(s.pick(&self.rule_names).clone()),
            K::Register => {
                let n = s.range(1, 2);
                let v: Vec<G> = (0..n)
                    .map(|_| {
                        let mut g = self.gen(s, d);
                        let nm = s.pick(NAMES).to_string();
                        match &mut g {
                            G::Eq(n, _) | G::Re(n, ..) | G::Prog(n, _) | G::Switch(n, _) | G::Loop(n, ..) | G::Seq(n, ..) => {
                                *n = Some(nm.clone());
                            }
                            _ => g = G::Prog(Some(nm.clone()), vec![g]),
                        }
                        self.rule_names.push(nm);
                        g
                    })
                    .collect();
                G::Register(v)
            }
            K::SetScope => G::SetScope(self.sub(s, depth)),
            K::SetScopeWith => {
                let k = s.below(self.scopes);
                G::SetScopeWith(k, self.sub(s, depth))
            }
            K::Break => {
                let l = match s.weighted(&[3, 3, 1]) {
                    0 => String::new(),
                    1 if !self.loops.is_empty() => s.pick(&self.loops).clone(),
                    1 => String::new(),
                    _ => s.pick(NAMES).to_string(),
                };
                G::Break(l)
            }
            K::Error => G::Error(s.below(4)),
            K::Panic => G::Panic(s.below(4)),
            K::AssertIf => G::AssertIf(self.sub(s, depth), s.below(4)),
            K::AssertIfNot => G::AssertIfNot(self.sub(s, depth), s.below(4)),
            K::FatalIf => G::FatalIf(self.sub(s, depth), s.below(4)),
            K::FatalIfNot => G::FatalIfNot(self.sub(s, depth), s.below(4)),
            K::MapName => G::MapName(self.sub(s, depth), s.pick(NAMES).to_string()),
            K::MapAttrs => {
                let g = self.sub(s, depth);
                let k = *s.pick(&["key", "other", "__value"]);
                let v = self.piece(s);
                G::MapAttrs(g, vec![(k.to_string(), v)])
            }
            K::MapFail => G::MapFail(self.sub(s, depth)),
            K::Catch => {
                let a = s.pick(&[CatchAct::Recover, CatchAct::Soften, CatchAct::Swallow]).clone();
                G::Catch(self.sub(s, depth), a)
            }
            K::Spy => {
                let id = self.spies;
                self.spies += 1;
                let catch = s.chance(1, 3);
                G::Spy(id, catch, self.sub(s, depth))
            }
            K::Debug => {
                let m = s.range(0, 3);
                let g = if s.chance(1, 6) { None } else { Some(self.sub(s, depth)) };
                G::Debug(m, g)
            }
            K::Null => G::Null,
            K::Own => G::Own(match s.weighted(&[3, 6, 2, 1, 3, 5]) {
                0 => Own::Skip(s.range(0, 2)),
                1 => match s.weighted(&[3, 3, 1]) {
                    1 if !self.loops.is_empty() => Own::Continue(s.pick(&self.loops).clone()),
                    2 => Own::Continue(s.pick(NAMES).to_string()),
                    _ => Own::Continue(String::new()),
                },
                2 => Own::Stop,
                3 => Own::Nothing,
                5 => {
                    let label = match s.weighted(&[3, 3, 1]) {
                        1 if !self.loops.is_empty() => s.pick(&self.loops).clone(),
                        2 => s.pick(NAMES).to_string(),
                        _ => String::new(),
                    };
                    let load = match s.below(3) {
                        0 => Load::Skip(s.range(0, 2)),
                        1 => Load::Token(s.pick(NAMES).to_string(), s.range(1, 2)),
                        _ => Load::Inner(s.pick(NAMES).to_string(), s.range(1, 2)),
                    };
                    Own::Jump { leave: s.chance(1, 2), label, load }
                }
                _ => Own::Token(s.pick(NAMES).to_string(), s.range(1, 2)),
            }),
        }
    }

    pub fn pin_offset(&mut self, s: &mut Src) -> Text {
        let places: Vec<&String> = self.vars.iter().filter(|v| v.ends_with("start") || v.ends_with("end") || v.ends_with("range")).collect();
        if !places.is_empty() && s.chance(1, 2) {
            return Text::Var((*s.pick(&places)).clone());
        }
        if !self.rule_names.is_empty() && s.chance(1, 30) {
            return Text::Var(s.pick(&self.rule_names).clone());
        }
        let n = s.range(0, 4);
        let m = s.range(0, 5);
        let t = match s.weighted(&[6, 3, 3, 1, 2, 1, 1, 1]) {
            0 => String::new(),
            1 => format!("+{}", n),
            2 => format!("-{}", n),
            3 => format!("{}", n),
            4 => format!("+{}..+{}", n, m),
            5 => format!("{}..{}", n, n + m),
            6 => format!("..+{}", m),
            _ => format!("-{}..", n),
        };
        Text::S(t)
    }

    pub fn grammar(&mut self, s: &mut Src) -> Grammar {
        let nr = if self.cfg.rules > 0 { s.below(self.cfg.rules + 1) } else { 0 };
        for i in 0..nr {
            self.rule_names.push(format!("rule{}", i));
        }
        let ns = if self.cfg.w[K::SetScopeWith as usize] > 0 { s.range(0, 2) } else { 0 };
        self.scopes = ns;
        let scopes = (0..ns)
            .map(|_| {
                let n = s.range(0, 2);
                (0..n).map(|_| (s.pick(VARS).to_string(), Val::S(self.literal(s)))).collect::<Vec<_>>()
            })
            .collect::<Vec<_>>();
        for v in scopes.iter().flatten() {
            self.vars.push(v.0.clone());
        }
        let depth = self.cfg.depth;
        let root = match s.weighted(&[5, 2, 1]) {
            0 => self.make(s, K::Prog, depth),
            1 if self.cfg.w[K::Loop as usize] > 0 => self.make(s, K::Loop, depth),
            _ => self.gen(s, depth),
        };
        let names: Vec<String> = (0..nr).map(|i| format!("rule{}", i)).collect();
        let rules = names
            .into_iter()
            .map(|n| {
                self.budget = self.budget.max(8);
                // Rules consume something before they refer to anything
                let g = if s.chance(3, 4) {
                    let mut v = vec![self.leaf(s)];
                    let body = self.gen(s, depth.saturating_sub(2));
                    v.push(if s.chance(1, 2) { G::Opt(Box::new(body)) } else { body });
                    G::Prog(None, v)
                } else {
                    self.gen(s, depth.saturating_sub(2))
                };
                (n, g)
            })
            .collect();
        Grammar { root, rules, scopes }
    }
}

struct Sampler<'a> {
    rules: HashMap<&'a str, &'a G>,
    vars: HashMap<String, String>,
    scopes: Vec<HashMap<&'a str, &'a G>>,
    scope: Option<usize>,
    steps: usize,
}

pub fn sample(s: &mut Src, g: &Grammar) -> String {
    let mut x = Sampler { rules: HashMap::new(), vars: HashMap::new(), scopes: vec![], scope: None, steps: 0 };
    for (n, r) in &g.rules {
        x.rules.insert(n, r);
    }
    for sc in &g.scopes {
        x.scopes.push(HashMap::new());
        for (n, v) in sc {
            match v {
                Val::S(v) => {
                    x.vars.insert(n.clone(), v.clone());
                }
                Val::M(g) => {
                    x.scopes.last_mut().unwrap().insert(n, g);
                }
            }
        }
    }
    x.find_named(&g.root);
    for (_, r) in &g.rules {
        x.find_named(r);
    }
    let mut out = String::new();
    x.go(s, &g.root, &mut out, 0);
    out
}

impl<'a> Sampler<'a> {
    fn find_named(&mut self, g: &'a G) {
        match g {
            G::Eq(Some(n), _) | G::Re(Some(n), ..) | G::Seq(Some(n), ..) | G::Prog(Some(n), _) | G::Switch(Some(n), _) | G::Loop(Some(n), ..) | G::RefAs(Some(n), _) | G::SeqOf(Some(n), ..) => {
                self.rules.entry(n).or_insert(g);
            }
            _ => {}
        }
        for c in g.children() {
            self.find_named(c);
        }
    }

    fn sequence(&self, s: &mut Src, a: &str, b: &str, e: &str, out: &mut String) {
        out.push_str(a);
        let n = s.range(0, 4);
        for _ in 0..n {
            match s.weighted(&[4, 2, 1, 1]) {
                0 => out.push_str(s.pick(&["x", "y", "é", " ", "日", "1"])),
                1 if !e.is_empty() => {
                    out.push_str(e);
                    out.push_str(s.pick(&["n", b, e, "é"]));
                }
                2 => out.push_str(a),
                _ => out.push_str(s.pick(&["q", "\\", "\n"])),
            }
        }
        if !s.chance(1, 10) {
            out.push_str(b);
        }
    }

    fn go(&mut self, s: &mut Src, g: &'a G, out: &mut String, depth: usize) {
        self.steps += 1;
        if self.steps > 300 || depth > 40 || out.len() > 400 {
            return;
        }
        match g {
            G::Eq(_, Text::S(t)) => out.push_str(t),
            G::Eq(_, Text::Var(v)) => {
                let n = v.split('.').next().unwrap();
                if let Some(t) = self.vars.get(n) {
                    out.push_str(&t.clone());
                }
            }
            G::Re(_, re, _) => out.push_str(&re.sample(s)),
            G::Seq(_, a, b, e) => self.sequence(s, a, b, e, out),
            G::SeqOf(_, a, b, e) => {
                let v = [a, b, e].map(|t| match t {
                    Text::S(t) => t.clone(),
                    Text::Var(v) => self.vars.get(v.split('.').next().unwrap()).cloned().unwrap_or_default(),
                });
                self.sequence(s, &v[0], &v[1], &v[2], out)
            }
            G::RefAs(_, To::Name(n)) => {
                if let Some(g) = self.rules.get(n.as_str()).copied() {
                    self.go(s, g, out, depth + 1);
                }
            }
            G::RefAs(_, To::Var(n)) => {
                let named = self.vars.get(n.split('.').next().unwrap()).and_then(|t| self.rules.get(t.as_str()).copied());
                if let Some(g) = named.or(self.rules.get(n.as_str()).copied()) {
                    self.go(s, g, out, depth + 1);
                }
            }
            G::Prog(_, v) => {
                for g in v {
                    self.go(s, g, out, depth + 1);
                }
            }
            G::Switch(_, v) => {
                let i = s.below(v.len().max(1));
                if let Some(g) = v.get(i) {
                    self.go(s, g, out, depth + 1);
                }
            }
            G::Loop(_, span, v) => {
                let (lo, hi) = span.bounds();
                let n = match s.weighted(&[3, 3, 3, 1, 1]) {
                    0 => lo,
                    1 => hi.min(lo + 2),
                    2 => lo + 1,
                    3 => lo.saturating_sub(1),
                    _ => hi.saturating_add(1).min(lo + 4),
                };
                for _ in 0..n.min(6) {
                    for g in v {
                        self.go(s, g, out, depth + 1);
                    }
                }
            }
            G::Opt(g) | G::Catch(g, _) => {
                if !s.chance(1, 3) {
                    self.go(s, g, out, depth + 1);
                }
            }
            G::Not(g) => {
                if s.chance(1, 5) {
                    self.go(s, g, out, depth + 1);
                }
            }
            G::Own(own @ (Own::Skip(_) | Own::Token(..) | Own::Jump { .. })) => {
                let n = match own {
                    Own::Skip(n) | Own::Token(_, n) => *n,
                    Own::Jump { load, .. } => load.count(),
                    _ => 0,
                };
                for _ in 0..n {
                    out.push_str(s.pick(&["a", "é", "日", ";"]));
                }
            }
            G::Pin(..) => {}
            G::Store(n, g) => {
                let at = out.len();
                self.go(s, g, out, depth + 1);
                let t = out[at..].to_string();
                self.vars.insert(n.clone(), t);
            }
            G::StoreStr(n, v) => {
                self.vars.insert(n.clone(), v.clone());
            }
            G::Ref(n) => {
                let found = match self.scope {
                    Some(k) => self.scopes[k].get(n.as_str()).copied(),
                    None => None,
                };
                if let Some(g) = found.or(self.rules.get(n.as_str()).copied()) {
                    self.go(s, g, out, depth + 1);
                }
            }
            G::SetScopeWith(k, g) => {
                let outer = self.scope.replace(*k);
                self.go(s, g, out, depth + 1);
                self.scope = outer;
            }
            G::AssertIf(g, _) | G::FatalIf(g, _) | G::MapFail(g) => {
                if s.chance(1, 4) {
                    self.go(s, g, out, depth + 1);
                }
            }
            G::Register(_) => {}
            other => {
                for c in other.children() {
                    self.go(s, c, out, depth + 1);
                }
            }
        }
    }
}

/// Change a text in a few places
pub fn mutate(s: &mut Src, t: &str, pieces: &[&str]) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let n = s.range(1, 3);
    for _ in 0..n {
        let at = s.below(v.len() + 1);
        match s.weighted(&[3, 3, 3, 1, 1]) {
            0 => {
                let p: Vec<char> = s.pick(pieces).chars().collect();
                v.splice(at..at, p);
            }
            1 => {
                if at < v.len() {
                    v.remove(at);
                }
            }
            2 => {
                let p: Vec<char> = s.pick(pieces).chars().collect();
                let end = (at + 1).min(v.len());
                v.splice(at..end, p);
            }
            3 => v.truncate(at),
            _ => {
                let end = (at + s.range(1, 4)).min(v.len());
                let part: Vec<char> = v[at..end].to_vec();
                v.splice(at..at, part);
            }
        }
    }
    v.into_iter().collect()
}

pub fn input(s: &mut Src, g: &Grammar, cfg: &Cfg) -> String {
    let mut t = sample(s, g);
    match s.weighted(&[4, 4, 2, 1]) {
        0 => {}
        1 => t = mutate(s, &t, cfg.pieces),
        2 => t.push_str(&s.text(cfg.pieces, 1, 3)),
        _ => t = s.text(cfg.pieces, 0, 8),
    }
    t
}

/// A window into a longer text that has the given text inside it
pub fn window(s: &mut Src, inner: &str, pieces: &[&str]) -> (String, (usize, usize)) {
    let pre = s.text(pieces, 0, 4);
    let post = s.text(pieces, 0, 4);
    let a = pre.len();
    let b = a + inner.len();
    (format!("{}{}{}", pre, inner, post), (a, b))
}

pub fn case(s: &mut Src, cfg: &Cfg) -> Case {
    let mut g = Gen::new(cfg);
    let grammar = g.grammar(s);
    let text = input(s, &grammar, cfg);
    let mut c = Case::new(grammar, text);
    if s.chance(1, 6) {
        let (t, w) = window(s, &c.input, cfg.pieces);
        c.input = t;
        c.window = Some(w);
    }
    if s.chance(1, 8) {
        c.file = "some/file.txt".into();
    }
    c
}
