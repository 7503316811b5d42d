//! The grammar script language: syntax trees, a generator, a renderer that varies
//! everything that must not matter, what a script means (as a grammar for the
//! reference interpreter), and a recogniser that is independent of the library.

use crate::ast::*;
use crate::re::{self, Flags, Re};
use crate::src::Src;
use regex::Regex;
use std::sync::OnceLock;

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mod {
    No,
    Opt,
    Not,
    /// both at once, which is an error that doesn't stop the parser
    Both(bool),
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Rep {
    Star,
    Plus,
    Num(usize),
    From(usize),
    Range(usize, usize),
}

impl Rep {
    pub fn span(self) -> Span {
        match self {
            Rep::Star => Span::Excl(0, usize::MAX),
            Rep::Plus => Span::Excl(1, usize::MAX),
            Rep::Num(n) => Span::Excl(0, n),
            Rep::From(n) => Span::Excl(n, usize::MAX),
            Rep::Range(a, b) => Span::Excl(a, b),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Expr {
    Eq(String),
    Re(Re, Flags),
    Seq(String, String, String),
    Ref(String),
    Switch(Vec<Pat>),
    Prog(Vec<Pat>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Def {
    pub outer: Mod,
    pub inner: Mod,
    pub expr: Expr,
    pub attrs: Vec<(String, String)>,
    pub rep: Option<Rep>,
}

impl Def {
    pub fn of(expr: Expr) -> Def {
        Def { outer: Mod::No, inner: Mod::No, expr, attrs: vec![], rep: None }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Pat {
    pub captured: bool,
    pub name: Option<String>,
    pub def: Def,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Item {
    Assign(String, Def),
    Alias(String, String),
    /// names (and what they are called here), from a path, which is the file with that index
    Import(Vec<(String, Option<String>)>, String, usize),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Script {
    /// attributes but the version
    pub header: Option<Vec<(String, String)>>,
    pub items: Vec<Item>,
    pub pats: Vec<Pat>,
}

impl Script {
    pub fn name(&self) -> Option<&str> {
        self.header.as_ref().and_then(|h| h.iter().rev().find(|a| a.0 == "name")).map(|a| a.1.as_str())
    }
    pub fn size(&self) -> usize {
        fn d(d: &Def) -> usize {
            1 + match &d.expr {
                Expr::Switch(v) | Expr::Prog(v) => v.iter().map(|p| self::Pat::size(p)).sum(),
                _ => 0,
            }
        }
        self.pats.iter().map(|p| p.size()).sum::<usize>()
            + self
                .items
                .iter()
                .map(|i| match i {
                    Item::Assign(_, x) => d(x),
                    _ => 1,
                })
                .sum::<usize>()
    }
}

impl Script {
    /// Every pattern, from the outside in
    pub fn each(&mut self, f: &mut dyn FnMut(&mut Pat)) {
        fn def(d: &mut Def, f: &mut dyn FnMut(&mut Pat)) {
            if let Expr::Switch(v) | Expr::Prog(v) = &mut d.expr {
                for p in v {
                    f(p);
                    def(&mut p.def, f);
                }
            }
        }
        for i in &mut self.items {
            if let Item::Assign(_, d) = i {
                def(d, f);
            }
        }
        for p in &mut self.pats {
            f(p);
            def(&mut p.def, f);
        }
    }
    /// Every definition, from the outside in
    pub fn each_def(&mut self, f: &mut dyn FnMut(&mut Def)) {
        for i in &mut self.items {
            if let Item::Assign(_, d) = i {
                f(d);
            }
        }
        self.each(&mut |p| f(&mut p.def));
    }
}

impl Pat {
    pub fn of(e: Expr) -> Pat {
        Pat { captured: true, name: None, def: Def::of(e) }
    }
    pub fn hidden(e: Expr) -> Pat {
        Pat { captured: false, name: None, def: Def::of(e) }
    }
    pub fn size(&self) -> usize {
        1 + match &self.def.expr {
            Expr::Switch(v) | Expr::Prog(v) => v.iter().map(|p| p.size()).sum(),
            _ => 0,
        }
    }
}

// ---------------------------------------------------------------- meaning

pub fn lower_def(d: &Def, name: Option<&str>, assigned: Option<&str>) -> G {
    let n = name.map(|s| s.to_string());
    let mut g = match &d.expr {
        Expr::Eq(t) => G::Eq(n, Text::S(t.clone())),
        Expr::Re(r, f) => G::Re(n, r.clone(), *f),
        Expr::Seq(a, b, e) => G::Seq(n, a.clone(), b.clone(), e.clone()),
        Expr::Ref(r) => match n {
            Some(n) => G::MapName(Box::new(G::Ref(r.clone())), n),
            None => G::Ref(r.clone()),
        },
        Expr::Switch(v) => G::Switch(n, v.iter().map(lower).collect()),
        Expr::Prog(v) => G::Prog(n, v.iter().map(lower).collect()),
    };
    if let Some(a) = assigned {
        if !matches!(d.expr, Expr::Ref(_) | Expr::Switch(_)) {
            g = G::MapName(Box::new(g), a.to_string());
        }
    }
    if !d.attrs.is_empty() {
        let mut attrs: Vec<(String, String)> = vec![];
        for (k, v) in &d.attrs {
            attrs.retain(|x| x.0 != *k);
            attrs.push((k.clone(), v.clone()));
        }
        g = G::MapAttrs(Box::new(g), attrs);
    }
    let modify = |m: Mod, g: G| match m {
        Mod::No | Mod::Both(_) => g,
        Mod::Opt => G::Opt(Box::new(g)),
        Mod::Not => G::Not(Box::new(g)),
    };
    g = modify(d.inner, g);
    if let Some(r) = d.rep {
        g = G::Loop(None, r.span(), vec![g]);
    }
    modify(d.outer, g)
}

pub fn lower(p: &Pat) -> G {
    let g = lower_def(&p.def, p.name.as_deref(), None);
    if p.captured {
        g
    } else {
        G::Discard(Box::new(g))
    }
}

/// What a set of script files (the first one is the main one) means. Imports of file k use scope k.
pub fn meaning(files: &[Script], name: &str) -> Grammar {
    let mut scopes = vec![];
    for f in files {
        scopes.push(defs(files, f));
    }
    Grammar { root: root(files, 0, name), rules: vec![], scopes }
}

pub fn root(files: &[Script], k: usize, name: &str) -> G {
    let body = G::Prog(None, files[k].pats.iter().map(lower).collect());
    G::Prog(Some(name.to_string()), vec![G::SetScopeWith(k, Box::new(G::Flat(None, Box::new(body))))])
}

fn defs(files: &[Script], f: &Script) -> Vec<(String, Val)> {
    let mut out: Vec<(String, Val)> = vec![];
    for i in &f.items {
        match i {
            Item::Assign(n, d) => out.push((n.clone(), Val::M(lower_def(d, None, Some(n))))),
            Item::Alias(n, m) => out.push((n.clone(), Val::M(G::Ref(m.clone())))),
            Item::Import(names, _, k) => {
                for (n, to) in names {
                    let called = to.as_ref().unwrap_or(n);
                    let g = if n == "_" {
                        root(files, *k, called)
                    } else {
                        // The definition itself, not its name: bound when it is imported
                        match find(files, *k, n) {
                            Some(g) => G::SetScopeWith(*k, Box::new(G::MapName(Box::new(g), called.clone()))),
                            None => G::Ref("not there".into()),
                        }
                    };
                    out.push((called.clone(), Val::M(g)));
                }
            }
        }
    }
    out
}

/// The last definition of a name in a file
pub fn find(files: &[Script], k: usize, name: &str) -> Option<G> {
    defs(files, &files[k]).into_iter().rev().find(|d| d.0 == name).and_then(|d| match d.1 {
        Val::M(g) => Some(g),
        _ => None,
    })
}

// ---------------------------------------------------------------- generation

pub const NAMES: &[&str] = &["A", "B", "Word", "b_1", "$x", "_y", "C$", "word", "a", "Word2", "import", "as", "from", "Program", "SwitchMatcher", "List", "adextopa"];
pub const LITS: &[&str] = &["a", "b", "1", " ", "ab", "é", "日", "'", "\\", "//", "<", ">", "]", "|", "}", "\n", "-->", "#", "=", "x", "aa", "\\'", ")", "🙂"];
pub const PIECES: &[&str] = &["a", "b", "1", " ", "ab", "é", "日", "x", "'", "\\", "/", "<", ">", "\n", "c", "-->", "#"];

pub struct Sg {
    pub names: Vec<String>,
    pub budget: usize,
    pub plain: bool,
    pub attrs: bool,
    pub named: bool,
}

impl Sg {
    pub fn new() -> Sg {
        Sg { names: vec![], budget: 14, plain: false, attrs: true, named: false }
    }

    pub fn literal(&self, s: &mut Src) -> String {
        if self.plain {
            return s.pick(&["a", "b", "c", "ab"]).to_string();
        }
        let n = s.weighted(&[0, 6, 3, 1]).max(1);
        (0..n).map(|_| *s.pick(LITS)).collect()
    }

    pub fn regex(&self, s: &mut Src) -> Re {
        let d = s.range(0, 2);
        let r = re::gen(s, d, &['a', 'b', '1', 'é', ' ', '/', '\'', '.', '[', '>', '\\', '-', ']', '"', 'A']);
        // empty regexes are an error of their own
        r
    }

    pub fn value(&self, s: &mut Src) -> String {
        let n = s.range(0, 4);
        (0..n).map(|_| *s.pick(&["v", "1", " ", "'", "\\", "é", "\n", "=", ">", "日", "b='c'", "\\\\", "|"])).collect()
    }

    pub fn attributes(&self, s: &mut Src) -> Vec<(String, String)> {
        let n = s.range(1, 3);
        (0..n)
            .map(|_| (s.pick(&["k", "name", "hello_w", "a1", "x+y", "é", "1", "K", "version"]).to_string(), self.value(s)))
            .collect()
    }

    pub fn expr(&mut self, s: &mut Src, depth: usize) -> Expr {
        self.budget = self.budget.saturating_sub(1);
        let nest = if depth == 0 || self.budget == 0 { 0 } else { 3 };
        let refs = if self.names.is_empty() { 0 } else { 4 };
        match s.weighted(&[5, 4, 1, refs, nest, nest]) {
            0 => Expr::Eq(self.literal(s)),
            1 => {
                let f = if s.chance(1, 4) {
                    Flags { i: s.chance(1, 2), s: s.chance(1, 2), m: s.chance(1, 3), u: s.chance(1, 4) }
                } else {
                    Flags::default()
                };
                Expr::Re(self.regex(s), f)
            }
            2 => {
                let (a, b) = *s.pick(&[("(", ")"), ("\"", "\""), ("'", "'"), ("/*", "*/"), ("<!--", "-->"), ("a", "b"), ("é", "]")]);
                let e = *s.pick(&["\\", "", "é", "'", "\\\\"]);
                Expr::Seq(a.into(), b.into(), e.into())
            }
            3 => Expr::Ref(if s.chance(1, 30) { "nowhere".into() } else { s.pick(&self.names).clone() }),
            4 => {
                let n = s.range(1, 4);
                Expr::Switch((0..n).map(|_| self.pat(s, depth - 1)).collect())
            }
            _ => {
                let n = s.range(1, 4);
                Expr::Prog((0..n).map(|_| self.pat(s, depth - 1)).collect())
            }
        }
    }

    pub fn rep(&self, s: &mut Src) -> Rep {
        match s.below(5) {
            0 => Rep::Star,
            1 => Rep::Plus,
            2 => Rep::Num(s.range(0, 4)),
            3 => Rep::From(s.range(0, 3)),
            _ => {
                let a = s.range(0, 3);
                Rep::Range(a, a + s.range(0, 3))
            }
        }
    }

    pub fn def(&mut self, s: &mut Src, depth: usize) -> Def {
        let expr = self.expr(s, depth);
        let m = |s: &mut Src| match s.weighted(&[14, 3, 1]) {
            0 => Mod::No,
            1 => Mod::Opt,
            _ => Mod::Not,
        };
        let inner = m(s);
        let rep = if s.chance(1, 4) { Some(self.rep(s)) } else { None };
        let outer = m(s);
        let attrs = if self.attrs && s.chance(1, 5) { self.attributes(s) } else { vec![] };
        Def { outer, inner, expr, attrs, rep }
    }

    pub fn pat(&mut self, s: &mut Src, depth: usize) -> Pat {
        let captured = !s.chance(1, 4);
        let name = if captured && self.named && s.chance(1, 3) { Some(s.pick(&["q", "é x", "it's", "\\", "Name"]).to_string()) } else { None };
        Pat { captured, name, def: self.def(s, depth) }
    }

    pub fn script(&mut self, s: &mut Src) -> Script {
        let n = s.weighted(&[2, 2, 2, 2, 1]);
        // Names are known before the definitions, so that these can refer to each other
        let mut names: Vec<String> = vec![];
        for _ in 0..n {
            names.push(s.pick(NAMES).to_string());
        }
        self.names.extend(names.iter().cloned());
        let mut items = vec![];
        for name in &names {
            if s.chance(1, 6) {
                let to = s.pick(&self.names).clone();
                items.push(Item::Alias(name.clone(), to));
                continue;
            }
            self.budget = self.budget.max(4);
            let mut d = self.def(s, 2);
            if let Expr::Prog(v) = &mut d.expr {
                // Most rules consume something before they refer to anything
                if s.chance(3, 4) {
                    let e = Expr::Eq(self.literal(s));
                    v.insert(0, Pat { captured: s.chance(1, 2), name: None, def: Def { outer: Mod::No, inner: Mod::No, expr: e, attrs: vec![], rep: None } });
                }
            }
            items.push(Item::Assign(name.clone(), d));
        }
        let header = if !items.is_empty() || s.chance(1, 5) {
            let mut h = vec![];
            if s.chance(1, 4) {
                h.push(("name".to_string(), s.pick(&["Root", "é", "x y", "A", "it's"]).to_string()));
            }
            if s.chance(1, 6) {
                h.extend(self.attributes(s).into_iter().filter(|a| a.0 != "name"));
            }
            Some(h)
        } else {
            None
        };
        let n = s.range(1, 4);
        self.budget = self.budget.max(6);
        let pats = (0..n).map(|_| self.pat(s, 3)).collect();
        Script { header, items, pats }
    }
}

// ---------------------------------------------------------------- rendering

/// How to write what must not matter: not at all, or with the given choices
pub struct Style<'a, 'b> {
    pub noise: Option<&'a mut Src<'b>>,
    pub out: String,
    /// where the mistakes are: range and message
    pub marks: Vec<(usize, usize, &'static str)>,
    /// range of the version attribute, and of the scope header
    pub version: (usize, usize),
    in_head: bool,
    pub head: (usize, usize),
    pub version_text: Option<&'a str>,
}

pub const BOTH: &str = "Can not use ? and ! at the same time in this context. Use one or the other, not both.";
pub const UNDERSCORE: &str = "Attribute names can not start with an underscore";
pub const UNQUOTED: &str = "Malformed attribute detected. Attribute value is not single-quoted. The proper format for an attribute is: name='value'";
/// The first character of an attribute value that is written without quotes
pub const BARE: char = '\u{e000}';

const WSN: &[&str] = &["", " ", "\n", "\t", "\r\n", "  \n ", "\u{a0}", "\u{3000}", "\u{b}", "\r"];
const WS: &[&str] = &["", " ", "\t", "  ", "\u{a0}", "\u{c}"];
const COMMENTS: &[&str] = &["# x", "#", "# <='a'>", "# --> (<A>)", "#'", "# é日", "## [ {", "#\t\\"];

impl<'a, 'b> Style<'a, 'b> {
    fn any(&mut self, list: &[&str]) {
        if let Some(s) = self.noise.as_mut() {
            if s.chance(1, 3) {
                let w = *s.pick(list);
                self.out.push_str(w);
            }
        }
    }
    /// optional whitespace
    fn n0(&mut self) {
        self.any(WSN)
    }
    /// optional whitespace, but no line ending
    fn w0(&mut self) {
        self.any(WS)
    }
    /// whitespace that keeps two words apart
    fn n1(&mut self) {
        match self.noise.as_mut() {
            Some(s) => {
                let w = *s.pick(&[" ", "\n", "\t", "\r\n", "  ", "\u{2003}", " \n\n"]);
                self.out.push_str(w);
            }
            None => self.out.push(' '),
        }
    }
    /// whitespace and comments between the items of a scope
    fn gap(&mut self, apart: bool) {
        match self.noise.as_mut() {
            None => self.out.push_str(if apart { "\n" } else { "" }),
            Some(s) => {
                let n = s.weighted(&[5, 2, 1]);
                if apart || s.chance(1, 3) {
                    let w = *s.pick(&[" ", "\n", "\t", "\r\n", "\n\n"]);
                    self.out.push_str(w);
                }
                for _ in 0..n {
                    let w = *s.pick(WSN);
                    self.out.push_str(w);
                    let c = *s.pick(COMMENTS);
                    self.out.push_str(c);
                    let e = *s.pick(&["\n", "\r\n", "\r", "\n\n"]);
                    self.out.push_str(e);
                }
                if s.chance(1, 4) {
                    let w = *s.pick(WSN);
                    self.out.push_str(w);
                }
            }
        }
    }

    pub fn quoted(&mut self, t: &str) {
        self.out.push('\'');
        for c in t.chars() {
            let extra = match self.noise.as_mut() {
                Some(s) => s.chance(1, 20),
                None => false,
            };
            if c == '\'' || c == '\\' || extra {
                self.out.push('\\');
            }
            self.out.push(c);
        }
        self.out.push('\'');
    }

    pub fn regex(&mut self, r: &Re, f: Flags) {
        self.out.push('/');
        let mut inside = false;
        let text = r.render();
        let mut cs = text.chars();
        while let Some(c) = cs.next() {
            match c {
                '\\' => {
                    self.out.push(c);
                    if let Some(d) = cs.next() {
                        self.out.push(d);
                    }
                }
                '/' => {
                    let extra = match self.noise.as_mut() {
                        Some(s) => s.chance(1, 2),
                        None => true,
                    };
                    if !inside || extra {
                        self.out.push('\\');
                    }
                    self.out.push('/');
                }
                _ => {
                    if c == '[' {
                        inside = true;
                    }
                    if c == ']' {
                        inside = false;
                    }
                    self.out.push(c);
                }
            }
        }
        self.out.push('/');
        let mut flags: Vec<char> = f.render().chars().collect();
        if let Some(s) = self.noise.as_mut() {
            if flags.len() > 1 && s.chance(1, 2) {
                flags.reverse();
            }
        }
        self.out.extend(flags);
    }

    fn modifier(&mut self, m: Mod) {
        match m {
            Mod::No => {}
            Mod::Opt => self.out.push('?'),
            Mod::Not => self.out.push('!'),
            Mod::Both(not_first) => {
                let at = self.out.len();
                self.out.push_str(if not_first { "!?" } else { "?!" });
                self.marks.push((at, at + 2, BOTH));
            }
        }
    }

    pub fn rep(&mut self, r: Rep) {
        match r {
            Rep::Star => self.out.push('*'),
            Rep::Plus => self.out.push('+'),
            Rep::Num(n) => {
                self.out.push('{');
                self.w0();
                self.number(n);
                self.w0();
                self.out.push('}');
            }
            Rep::From(n) => {
                self.out.push('{');
                self.w0();
                self.number(n);
                self.w0();
                self.out.push(',');
                self.w0();
                self.out.push('}');
            }
            Rep::Range(a, b) => {
                self.out.push('{');
                self.w0();
                self.number(a);
                self.w0();
                self.out.push(',');
                self.w0();
                self.number(b);
                self.w0();
                self.out.push('}');
            }
        }
    }

    fn number(&mut self, n: usize) {
        if let Some(s) = self.noise.as_mut() {
            if s.chance(1, 10) {
                self.out.push_str("00");
            }
        }
        self.out.push_str(&n.to_string());
    }

    pub fn attributes(&mut self, attrs: &[(String, String)], apart: bool) {
        for (i, (k, v)) in attrs.iter().enumerate() {
            if i == 0 && apart {
                self.n1();
            } else if i > 0 && self.noise.is_none() {
                self.out.push(' ');
            } else if i > 0 {
                self.n0();
            }
            let at = self.out.len();
            self.out.push_str(k);
            let name = (at, self.out.len());
            self.w0();
            self.out.push('=');
            self.w0();
            if let Some(bare) = v.strip_prefix(BARE) {
                let at = self.out.len();
                self.out.push_str(bare);
                self.marks.push((at, self.out.len(), UNQUOTED));
            } else {
                self.quoted(v);
            }
            if k == "version" && self.in_head {
                self.version = (at, self.out.len());
            }
            if k.starts_with('_') {
                self.marks.push((name.0, name.1, UNDERSCORE));
            }
        }
        if !attrs.is_empty() {
            self.n0();
        }
    }

    pub fn def(&mut self, d: &Def) {
        self.modifier(d.outer);
        self.out.push('<');
        self.modifier(d.inner);
        self.n0();
        let mut apart = false;
        match &d.expr {
            Expr::Eq(t) => {
                self.out.push('=');
                self.quoted(t);
            }
            Expr::Re(r, f) => {
                self.regex(r, *f);
                apart = true;
            }
            Expr::Seq(a, b, e) => {
                self.out.push('%');
                self.n0();
                self.quoted(a);
                self.n0();
                self.out.push(',');
                self.n0();
                self.quoted(b);
                self.n0();
                self.out.push(',');
                self.n0();
                self.quoted(e);
            }
            Expr::Ref(n) => {
                self.out.push_str(n);
                apart = true;
            }
            Expr::Switch(v) => {
                self.out.push('[');
                for (i, p) in v.iter().enumerate() {
                    if i > 0 {
                        self.out.push('|');
                    }
                    self.n0();
                    self.pat(p);
                    self.n0();
                }
                self.out.push(']');
            }
            Expr::Prog(v) => {
                self.out.push('{');
                for p in v {
                    self.n0();
                    self.pat(p);
                }
                self.n0();
                self.out.push('}');
            }
        }
        self.n0();
        self.attributes(&d.attrs, apart);
        self.out.push('>');
        if let Some(r) = d.rep {
            self.rep(r);
        }
    }

    pub fn pat(&mut self, p: &Pat) {
        if p.captured {
            self.out.push('(');
            self.n0();
            if let Some(n) = &p.name {
                self.out.push('?');
                self.quoted(n);
                self.n0();
            }
            self.def(&p.def);
            self.n0();
            self.out.push(')');
        } else {
            self.def(&p.def);
        }
    }

    pub fn script(&mut self, x: &Script) {
        // Comments may come first, but need something after them
        if let Some(h) = &x.header {
            self.gap(false);
            self.head.0 = self.out.len();
            self.in_head = true;
            self.out.push_str("<!--[adextopa ");
            self.w0();
            let at = match self.noise.as_mut() {
                Some(s) => s.below(h.len() + 1),
                None => 0,
            };
            // The last version is the one that counts
            let at = at.max(h.iter().rposition(|a| a.0 == "version").map_or(0, |n| n + 1));
            let mut attrs = h.clone();
            if let Some(v) = self.version_text {
                attrs.insert(at, ("version".into(), v.into()));
            }
            self.attributes(&attrs, false);
            self.out.push(']');
            self.head.1 = self.out.len();
            self.in_head = false;
            let mut word = false;
            for i in &x.items {
                self.gap(word);
                word = false;
                match i {
                    Item::Assign(n, d) => {
                        self.out.push_str(n);
                        self.n0();
                        self.out.push('=');
                        self.n0();
                        self.def(d);
                    }
                    Item::Alias(n, m) => {
                        self.out.push_str(n);
                        self.n0();
                        self.out.push('=');
                        self.n0();
                        self.out.push_str(m);
                        word = true;
                    }
                    Item::Import(names, path, _) => {
                        self.out.push_str("import");
                        self.w0();
                        self.out.push('{');
                        for (i, (n, to)) in names.iter().enumerate() {
                            if i > 0 {
                                self.n1();
                            } else {
                                self.n0();
                            }
                            self.out.push_str(n);
                            if let Some(t) = to {
                                self.n1();
                                self.out.push_str("as");
                                self.n1();
                                self.out.push_str(t);
                            }
                            let comma = match self.noise.as_mut() {
                                // Without one, the next name must not look like another "as"
                                Some(s) => names.get(i + 1).map_or(false, |n| n.0 == "as") || s.chance(2, 3),
                                None => i + 1 < names.len(),
                            };
                            if comma {
                                self.out.push(',');
                            }
                        }
                        self.n0();
                        self.out.push('}');
                        self.w0();
                        self.out.push_str("from");
                        self.w0();
                        self.quoted(path);
                    }
                }
            }
            self.gap(false);
            self.out.push_str("-->");
        }
        for p in &x.pats {
            self.gap(false);
            self.pat(p);
        }
        if !x.pats.is_empty() {
            self.gap(false);
        } else {
            self.n0();
        }
    }
}

impl<'a, 'b> Style<'a, 'b> {
    pub fn new(noise: Option<&'a mut Src<'b>>) -> Style<'a, 'b> {
        Style { noise, out: String::new(), marks: vec![], version: (0, 0), in_head: false, head: (0, 0), version_text: Some("1") }
    }
}

pub fn plain(x: &Script) -> String {
    let mut st = Style::new(None);
    st.script(x);
    st.out
}

pub fn noisy(s: &mut Src, x: &Script) -> String {
    let mut st = Style::new(Some(s));
    st.script(x);
    st.out
}

// ---------------------------------------------------------------- recogniser

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Answer {
    Valid,
    Invalid,
    /// Not part of the claim
    Unsure,
}

struct Rec<'t> {
    t: &'t str,
    p: usize,
    /// fits the syntax, but can't be built
    wrong: bool,
    unsure: bool,
    import: bool,
}

type Step = Option<()>;

fn rx(cell: &'static OnceLock<Regex>, r: &str) -> &'static Regex {
    cell.get_or_init(|| Regex::new(r).unwrap())
}

macro_rules! lex {
    ($self:expr, $r:expr) => {{
        static R: OnceLock<Regex> = OnceLock::new();
        $self.lexeme(rx(&R, concat!("^(?:", $r, ")")))
    }};
}

impl<'t> Rec<'t> {
    fn rest(&self) -> &'t str {
        &self.t[self.p..]
    }
    fn lexeme(&mut self, r: &Regex) -> Option<&'t str> {
        let rest = self.rest();
        let m = r.find(rest)?;
        self.p += m.end();
        Some(&rest[..m.end()])
    }
    fn is(&mut self, t: &str) -> Step {
        if self.rest().starts_with(t) {
            self.p += t.len();
            Some(())
        } else {
            None
        }
    }
    fn n0(&mut self) {
        lex!(self, r"\s*");
    }
    fn w0(&mut self) {
        lex!(self, r"[^\S\n\r]*");
    }
    fn string(&mut self) -> Option<String> {
        let at = self.p;
        self.is("'")?;
        let mut out = String::new();
        loop {
            let c = match self.rest().chars().next() {
                Some(c) => c,
                None => {
                    self.p = at;
                    return None;
                }
            };
            self.p += c.len_utf8();
            match c {
                '\'' => return Some(out),
                '\\' => {
                    if let Some(d) = self.rest().chars().next() {
                        self.p += d.len_utf8();
                        out.push(d);
                    }
                }
                c => out.push(c),
            }
        }
    }
    fn identifier(&mut self) -> Option<&'t str> {
        lex!(self, "[a-zA-Z$_][a-zA-Z0-9$_]*")
    }

    fn attributes(&mut self) -> Result<Vec<(String, String)>, ()> {
        let mut out = vec![];
        loop {
            let at = self.p;
            let name = match lex!(self, r"[\w+_]+") {
                Some(n) => n,
                None => break,
            };
            self.w0();
            if self.is("=").is_none() {
                self.p = at;
                break;
            }
            self.w0();
            if lex!(self, r"[^'\s]").is_some() {
                return Err(());
            }
            let v = match self.string() {
                Some(v) => v,
                None => {
                    self.p = at;
                    break;
                }
            };
            if name.starts_with('_') {
                self.wrong = true;
            }
            out.push((name.to_string(), v));
            self.n0();
        }
        Ok(out)
    }

    fn regex(&mut self) -> Step {
        self.is("/")?;
        let mut text = String::new();
        let mut any = false;
        loop {
            if let Some(x) = lex!(self, r"[^/\\\[]+") {
                text.push_str(x);
                any = true;
            }
            if let Some(x) = lex!(self, r"\\[^\n]") {
                text.push_str(if x == "\\/" { "/" } else { x });
                any = true;
                continue;
            }
            if self.is("/").is_some() {
                break;
            }
            if self.rest().starts_with('[') {
                any = true;
                let a = self.p;
                let mut cs = self.rest().char_indices().skip(1);
                let mut end = None;
                while let Some((i, c)) = cs.next() {
                    match c {
                        '\\' => {
                            cs.next();
                        }
                        ']' => {
                            end = Some(i + 1);
                            break;
                        }
                        _ => {}
                    }
                }
                self.p += end?;
                text.push_str(&self.t[a..self.p].replace("\\\\", "\u{0}").replace("\\/", "/").replace('\u{0}', "\\\\"));
                continue;
            }
            return None;
        }
        let flags = lex!(self, "[imsU]*").unwrap_or("");
        if !any {
            self.wrong = true;
        }
        let full = if flags.is_empty() { text } else { format!("(?{}){}", flags, text) };
        if Regex::new(&full).is_err() {
            self.wrong = true;
        }
        Some(())
    }

    fn matcher(&mut self) -> Step {
        let c = self.rest().chars().next()?;
        match c {
            '/' => self.regex(),
            '=' => {
                self.is("=")?;
                if self.string()?.is_empty() {
                    self.wrong = true;
                }
                Some(())
            }
            '%' => {
                self.is("%")?;
                self.n0();
                let a = self.string()?;
                lex!(self, r"\s*,\s*")?;
                let b = self.string()?;
                lex!(self, r"\s*,\s*")?;
                self.string()?;
                if a.is_empty() || b.is_empty() {
                    self.wrong = true;
                }
                Some(())
            }
            '[' => {
                self.is("[")?;
                let mut n = 0;
                loop {
                    self.n0();
                    if self.rest().starts_with(']') {
                        if n == 0 {
                            self.unsure = true;
                        }
                        return self.is("]");
                    }
                    self.pattern()?;
                    n += 1;
                    self.n0();
                    if self.is("|").is_none() {
                        return self.is("]");
                    }
                    // A separator after the last one is not documented
                    let at = self.p;
                    self.n0();
                    if self.rest().starts_with(']') {
                        self.unsure = true;
                    }
                    self.p = at;
                }
            }
            '{' => {
                self.is("{")?;
                let mut n = 0;
                loop {
                    self.n0();
                    if self.is("}").is_some() {
                        if n == 0 {
                            self.unsure = true;
                        }
                        return Some(());
                    }
                    self.pattern()?;
                    n += 1;
                }
            }
            _ => self.identifier().map(|_| ()),
        }
    }

    fn definition(&mut self) -> Step {
        if lex!(self, r"[?!]").is_some() {}
        self.is("<")?;
        if lex!(self, r"[?!]").is_some() {}
        self.n0();
        self.matcher()?;
        self.n0();
        self.attributes().ok()?;
        self.is(">")?;
        if lex!(self, r"[*+]").is_some() {
            return Some(());
        }
        let at = self.p;
        if self.is("{").is_some() {
            // What isn't a repeat specifier may be something else
            if self.range().is_none() {
                self.p = at;
            }
        }
        Some(())
    }

    fn range(&mut self) -> Step {
        self.w0();
        let a = lex!(self, r"\d+")?;
        self.w0();
        let mut b = None;
        if self.is(",").is_some() {
            self.w0();
            b = lex!(self, r"\d+");
            self.w0();
        }
        self.is("}")?;
        let x = a.parse::<usize>();
        match (x, b.map(|b| b.parse::<usize>())) {
            (Ok(_), None) => {}
            (Ok(a), Some(Ok(b))) if a <= b => {}
            _ => self.wrong = true,
        }
        Some(())
    }

    fn pattern(&mut self) -> Step {
        if self.is("(").is_some() {
            self.n0();
            let at = self.p;
            if self.is("?").is_none() || self.string().is_none() {
                self.p = at;
            }
            self.n0();
            self.definition()?;
            self.n0();
            return self.is(")");
        }
        self.definition()
    }

    fn comment(&mut self) -> Step {
        lex!(self, r"#[^\r\n]*").map(|_| ())
    }

    fn import_statement(&mut self) -> Step {
        self.is("import")?;
        self.w0();
        self.is("{")?;
        let mut n = 0;
        loop {
            self.n0();
            if self.is("}").is_some() {
                break;
            }
            self.identifier()?;
            n += 1;
            let at = self.p;
            if lex!(self, r"\s+as\s+").is_none() || self.identifier().is_none() {
                self.p = at;
            }
            let _ = self.is(",");
        }
        if n == 0 {
            return None;
        }
        self.w0();
        self.is("from")?;
        self.w0();
        self.string()?;
        self.import = true;
        Some(())
    }

    fn header(&mut self) -> Step {
        self.is("<!--[adextopa")?;
        if !self.rest().starts_with(|c: char| c.is_whitespace()) {
            self.unsure = true;
        }
        self.w0();
        let attrs = self.attributes().ok()?;
        self.is("]")?;
        match attrs.iter().rev().find(|a| a.0 == "version") {
            None => self.wrong = true,
            Some(v) => {
                if v.1.parse::<usize>().is_err() {
                    self.wrong = true;
                }
            }
        }
        loop {
            self.n0();
            if self.is("-->").is_some() {
                return Some(());
            }
            if self.comment().is_some() {
                continue;
            }
            let at = self.p;
            if self.import_statement().is_some() {
                continue;
            }
            self.p = at;
            self.identifier()?;
            self.n0();
            self.is("=")?;
            self.n0();
            if self.identifier().is_none() {
                self.definition()?;
            }
        }
    }

    fn script(&mut self) -> Step {
        loop {
            let at = self.p;
            self.n0();
            if self.comment().is_none() {
                self.p = at;
                break;
            }
        }
        self.n0();
        let mut header = false;
        if self.rest().starts_with("<!--[adextopa") {
            self.header()?;
            header = true;
        }
        let mut some = false;
        loop {
            self.n0();
            if self.rest().is_empty() {
                break;
            }
            if self.comment().is_some() {
                // In a script without a header, the comments at the top belong to no scope
                some = true;
                continue;
            }
            self.pattern()?;
            some = true;
        }
        if header || some {
            Some(())
        } else {
            None
        }
    }
}

/// Does the text follow the syntax, and can it be built (from a string, where imports are forbidden)?
pub fn recognise(t: &str) -> Answer {
    let mut r = Rec { t, p: 0, wrong: false, unsure: false, import: false };
    let fits = r.script().is_some();
    if r.unsure {
        return Answer::Unsure;
    }
    if fits && !r.wrong && !r.import {
        Answer::Valid
    } else {
        Answer::Invalid
    }
}
