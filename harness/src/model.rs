//! Reference interpreter for grammars. Plain recursive evaluation over an arena of tokens;
//! it shares no code with the library.

use crate::ast::*;
use crate::dump::{Outcome, D};
use std::collections::{BTreeMap, HashMap};

type R = (usize, usize);

#[derive(Debug, Clone)]
struct Tok {
    name: String,
    cap: R,
    mat: R,
    attrs: BTreeMap<String, String>,
    err: bool,
    pin: bool,
    parent: Option<usize>,
    kids: Vec<usize>,
}

#[derive(Debug, Clone)]
enum Ok_ {
    Tok(usize),
    Proxy(usize),
    Skip(i64),
    /// a matcher of one's own had nothing to say: no token, no space
    Nothing,
    Break(String, Option<Box<Ok_>>),
    Continue(String, Option<Box<Ok_>>),
    Stop,
}

#[derive(Debug, Clone)]
enum Er {
    Fail,
    Fatal(String, Option<R>),
    /// outside of the domain of the property
    Reject(&'static str),
}

type Res = Result<Ok_, Er>;

/// How one run through the items of a program or loop went
enum Flow {
    End,
    Break(String, Option<Box<Ok_>>),
    Continue(String, Option<Box<Ok_>>),
    Stop,
}

#[derive(Clone, Copy)]
struct Cx {
    start: usize,
    end: usize,
    /// start of the enclosing program, loop or switch
    encl: Option<usize>,
}

#[derive(Clone)]
enum Var<'g> {
    Tok(usize),
    Str(String),
    M(&'g G),
}

#[derive(Default, Debug, Clone)]
pub struct Seen {
    pub max_iter: usize,
    pub loop_fail_min: usize,
    pub loop_hit_max: usize,
    pub switch_later: usize,
    pub breaks: usize,
    pub continues: usize,
    pub stops: usize,
    pub skips: usize,
    pub refs: usize,
    pub errors: usize,
    pub fatals: usize,
    pub partial: usize,
    pub stores: usize,
    pub fetches: usize,
    pub pins_ok: usize,
    pub pins_fail: usize,
    pub prog_rollback: usize,
    pub escapes: usize,
    pub zero_width_iter: usize,
    pub steps: usize,
    /// uses of matchers without children, and of references
    pub leaves: usize,
    pub max_depth: usize,
    /// what callbacks and matchers of one's own noted
    pub notes: Vec<String>,
}

pub struct Model<'g> {
    src: &'g str,
    file: &'g str,
    toks: Vec<Tok>,
    scopes: Vec<HashMap<String, Var<'g>>>,
    stacks: Vec<Vec<usize>>,
    depth: usize,
    poison: Option<&'static str>,
    max_steps: usize,
    max_depth: usize,
    watch: bool,
    pub seen: Seen,
}

/// The variables that go into notes
pub const NOTED: [&str; 2] = ["v", "w"];

pub const MAX_STEPS: usize = 4000;
pub const MAX_DEPTH: usize = 60;

/// Line and column of both ends of a range; lines end with \r\n, \n or \r.
pub fn lines_and_columns(src: &str, r: R) -> ((usize, usize), (usize, usize)) {
    let at = |off: usize| {
        let b = src.as_bytes();
        let (mut line, mut begin, mut i) = (1, 0, 0);
        while i < off {
            if b[i] == b'\r' && i + 1 < off && b[i + 1] == b'\n' {
                i += 2;
                line += 1;
                begin = i;
            } else if b[i] == b'\r' || b[i] == b'\n' {
                i += 1;
                line += 1;
                begin = i;
            } else {
                i += 1;
            }
        }
        (line, off - begin + 1)
    };
    let (l1, c1) = at(r.0);
    let (l2, c2) = at(r.1);
    ((l1, l2), (c1, c2.max(c1)))
}

pub fn inside_crlf(src: &str, at: usize) -> bool {
    let b = src.as_bytes();
    at > 0 && at < b.len() && b[at - 1] == b'\r' && b[at] == b'\n'
}

pub fn error_string(src: &str, file: &str, msg: &str, r: R) -> String {
    let ((l1, l2), (c1, c2)) = lines_and_columns(src, r);
    let l = if l1 == l2 { l1.to_string() } else { format!("{}-{}", l1, l2) };
    let c = if c1 == c2 { c1.to_string() } else { format!("{}-{}", c1, c2) };
    format!("Error: {}@[{}:{}]: {}", file, l, c, msg)
}

#[derive(Debug, Clone)]
pub enum Verdict {
    Known(Outcome),
    Reject(&'static str),
}

struct Build {
    me: usize,
    start: usize,
    pos: usize,
    kids: Vec<usize>,
    cap: Option<R>,
    mat: Option<R>,
    end: usize,
}

fn hull(h: &mut Option<R>, r: R) {
    *h = Some(match *h {
        None => r,
        Some((a, b)) => (a.min(r.0), b.max(r.1)),
    });
}

impl<'g> Model<'g> {
    pub fn run(case: &'g Case) -> (Verdict, Seen) {
        Model::run_with(case, MAX_STEPS, MAX_DEPTH)
    }

    pub fn run_with(case: &'g Case, max_steps: usize, max_depth: usize) -> (Verdict, Seen) {
        Model::run_noting(case, max_steps, max_depth, false)
    }

    pub fn run_noting(case: &'g Case, max_steps: usize, max_depth: usize, watch: bool) -> (Verdict, Seen) {
        let mut m = Model {
            max_steps,
            max_depth,
            watch,
            src: &case.input,
            file: &case.file,
            toks: vec![],
            scopes: vec![],
            stacks: vec![vec![]],
            depth: 0,
            poison: None,
            seen: Seen::default(),
        };
        for vars in &case.g.scopes {
            m.stacks.push(vec![]);
            let k = m.stacks.len() - 1;
            for (n, v) in vars {
                match v {
                    Val::S(v) => m.set(k, n, Var::Str(v.clone())),
                    Val::M(g) => m.set(k, n, Var::M(g)),
                }
            }
        }
        for (n, g) in &case.g.rules {
            m.set(0, n, Var::M(g));
        }
        let (start, end) = case.window.unwrap_or((0, case.input.len()));
        let cx = Cx { start, end, encl: None };
        let r = m.ev(&case.g.root, cx, 0);
        let v = match r {
            Err(Er::Reject(why)) => Verdict::Reject(why),
            Err(Er::Fail) => Verdict::Known(Outcome::Fail),
            Err(Er::Fatal(msg, r)) => Verdict::Known(Outcome::Fatal(msg, r)),
            Ok(Ok_::Tok(t)) | Ok(Ok_::Proxy(t)) => Verdict::Known(Outcome::Token(m.root(t))),
            Ok(Ok_::Break(_, Some(b))) | Ok(Ok_::Continue(_, Some(b))) => match *b {
                Ok_::Tok(t) => Verdict::Known(Outcome::Token(m.root(t))),
                _ => Verdict::Known(Outcome::Fail),
            },
            Ok(_) => Verdict::Known(Outcome::Fail),
        };
        match m.poison {
            Some(why) => (Verdict::Reject(why), m.seen),
            None => (v, m.seen),
        }
    }

    fn note_var(&self, v: Option<Var<'g>>) -> String {
        match v {
            None => "-".into(),
            Some(Var::Str(s)) => format!("{:?}", s),
            Some(Var::Tok(t)) => format!("{}{:?}", self.toks[t].name, self.toks[t].mat),
            Some(Var::M(_)) => "matcher".into(),
        }
    }

    /// What someone who is called sees: the cursor, the window, and variables
    fn note(&mut self, what: String, cx: Cx, scope: usize) {
        if !self.watch {
            return;
        }
        let mut line = format!("{} {}..{}", what, cx.start, cx.end);
        for v in NOTED {
            line.push_str(&format!(" {} {}", self.note_var(self.get(scope, v)), self.note_var(self.get(0, v))));
        }
        self.seen.notes.push(line);
    }

    fn note_token(&self, t: usize) -> String {
        let k = &self.toks[t];
        let kids: Vec<String> = k.kids.iter().map(|c| format!("{}{:?}", self.toks[*c].name, self.toks[*c].mat)).collect();
        format!("{}{:?}/{:?}[{}]", k.name, k.mat, k.cap, kids.join(" "))
    }

    fn root(&mut self, t: usize) -> D {
        // Errors recorded anywhere below move to the end of the root's children
        let mut found = vec![];
        for k in self.toks[t].kids.clone() {
            self.hoist(k, &mut found);
        }
        self.toks[t].kids.extend(found);
        self.dump(t)
    }

    fn hoist(&mut self, t: usize, found: &mut Vec<usize>) {
        let kids = self.toks[t].kids.clone();
        for k in &kids {
            self.hoist(*k, found);
        }
        let (errs, rest): (Vec<usize>, Vec<usize>) = kids.iter().partition(|k| self.toks[**k].err);
        found.extend(errs);
        self.toks[t].kids = rest;
    }

    fn slice(&self, r: R) -> String {
        self.src.get(r.0..r.1).unwrap_or("").to_string()
    }

    fn value(&self, t: usize) -> String {
        match self.toks[t].attrs.get("__value") {
            Some(v) => v.clone(),
            None => self.slice(self.toks[t].cap),
        }
    }

    fn dump(&self, t: usize) -> D {
        let k = &self.toks[t];
        D {
            name: k.name.clone(),
            cap: k.cap,
            mat: k.mat,
            value: self.value(t),
            captured: if k.pin { self.value(t) } else { self.slice(k.cap) },
            matched: self.slice(k.mat),
            attrs: k.attrs.clone(),
            flags: if k.err { 2 } else { 0 },
            parent: k.parent.map(|p| (self.toks[p].name.clone(), self.toks[p].mat)),
            kids: k.kids.iter().map(|c| self.dump(*c)).collect(),
        }
    }

    fn new_tok(&mut self, name: &str, cap: R, mat: R) -> usize {
        self.toks.push(Tok {
            name: name.to_string(),
            cap,
            mat,
            attrs: BTreeMap::new(),
            err: false,
            pin: false,
            parent: None,
            kids: vec![],
        });
        self.toks.len() - 1
    }

    fn message(&mut self, msg: &str, r: R) -> String {
        if inside_crlf(self.src, r.0) || inside_crlf(self.src, r.1) {
            self.poison = Some("position between \\r and \\n");
        }
        if r.0 > r.1 {
            self.poison = Some("position before the start of the program");
        }
        error_string(self.src, self.file, msg, r)
    }

    fn error_tok(&mut self, msg: &str, r: R) -> usize {
        self.seen.errors += 1;
        let t = self.new_tok("Error", r, r);
        let s = self.message(msg, r);
        self.toks[t].attrs.insert("__message".into(), s);
        self.toks[t].err = true;
        t
    }

    fn set(&mut self, ctx: usize, name: &str, v: Var<'g>) {
        if self.stacks[ctx].is_empty() {
            self.scopes.push(HashMap::new());
            let id = self.scopes.len() - 1;
            self.stacks[ctx].push(id);
        }
        let top = *self.stacks[ctx].last().unwrap();
        self.scopes[top].insert(name.to_string(), v);
    }

    fn get(&self, ctx: usize, name: &str) -> Option<Var<'g>> {
        self.stacks[ctx].iter().rev().find_map(|s| self.scopes[*s].get(name).cloned())
    }

    fn text(&mut self, t: &Text, scope: usize) -> Result<String, Er> {
        match t {
            Text::S(s) => Ok(s.clone()),
            Text::Var(path) => {
                self.seen.fetches += 1;
                let (name, field) = match path.split_once('.') {
                    Some((a, b)) => (a, Some(b)),
                    None => (path.as_str(), None),
                };
                match (self.get(scope, name), field) {
                    (Some(Var::Str(s)), None) => Ok(s),
                    (Some(Var::M(_)), _) => {
                        self.seen.fatals += 1;
                        Err(Er::Fatal("~".into(), None))
                    }
                    (Some(Var::Tok(t)), Some(f)) => {
                        let k = &self.toks[t];
                        Ok(match f {
                            "captured_value" => self.value(t),
                            "matched_value" => self.slice(k.mat),
                            "start" => k.mat.0.to_string(),
                            "end" => k.mat.1.to_string(),
                            "captured_start" => k.cap.0.to_string(),
                            "captured_end" => k.cap.1.to_string(),
                            "range" => format!("{}..{}", k.mat.0, k.mat.1),
                            "captured_range" => format!("{}..{}", k.cap.0, k.cap.1),
                            _ => return Err(Er::Reject("unknown field")),
                        })
                    }
                    _ => Err(Er::Reject("unusable variable")),
                }
            }
        }
    }

    fn has_error(&self, t: usize) -> bool {
        self.toks[t].kids.iter().any(|k| self.toks[*k].err || self.has_error(*k))
    }

    fn add(&mut self, b: &mut Build, t: usize, advance: bool, forward: bool) -> Result<(), Er> {
        if !self.toks[t].err {
            if advance && forward && !self.has_error(t) && self.toks[t].mat.1 == b.pos {
                return Err(Er::Reject("token that does not move forward"));
            }
        } else if self.toks[t].mat.0 == self.toks[t].mat.1 {
            if let Some((s, _)) = b.mat {
                let e = self.toks[t].mat.1;
                self.toks[t].mat = (s, e);
                self.toks[t].cap = (s, e);
            }
        }
        if advance {
            hull(&mut b.cap, self.toks[t].cap);
            hull(&mut b.mat, self.toks[t].mat);
            b.pos = self.toks[t].mat.1;
        }
        self.toks[t].parent = Some(b.me);
        b.kids.push(t);
        Ok(())
    }

    fn spread(&mut self, b: &mut Build, t: usize, advance: bool) -> Result<(), Er> {
        let advance = advance && !self.toks[t].pin;
        if advance {
            hull(&mut b.cap, self.toks[t].cap);
            hull(&mut b.mat, self.toks[t].mat);
        }
        for k in self.toks[t].kids.clone() {
            if !self.toks[k].pin {
                self.add(b, k, advance, false)?;
            }
        }
        if advance {
            b.pos = self.toks[t].mat.1;
        }
        Ok(())
    }

    fn skip(&mut self, b: &mut Build, n: i64) -> Result<(), Er> {
        if n < 0 {
            return Err(Er::Reject("negative skip"));
        }
        if n > 0 {
            self.seen.skips += 1;
        }
        b.pos += n as usize;
        if b.pos > b.end {
            // An alternative that looked behind a pin was thrown away
            return Err(Er::Reject("cursor outside of the window"));
        }
        hull(&mut b.mat, (b.start, b.pos));
        Ok(())
    }

    fn finish(&mut self, b: Build) -> Res {
        match (b.cap, b.mat) {
            (Some(c), Some(m)) if !b.kids.is_empty() => {
                let t = &mut self.toks[b.me];
                t.kids = b.kids;
                t.cap = c;
                t.mat = m;
                Ok(Ok_::Tok(b.me))
            }
            _ => Err(Er::Fail),
        }
    }

    /// One attempt at the items of a program or loop, in order
    fn items(&mut self, b: &mut Build, items: &'g [G], cx: Cx, scope: usize) -> Result<Flow, Er> {
        for g in items {
            let inner = Cx { start: b.pos, end: cx.end, encl: Some(b.start) };
            match self.ev(g, inner, scope)? {
                Ok_::Tok(t) => {
                    if !self.toks[t].pin {
                        let c = g.is_consuming();
                        self.add(b, t, c, c)?;
                    }
                }
                Ok_::Proxy(t) => {
                    if !self.toks[t].pin {
                        self.spread(b, t, g.is_consuming())?;
                    }
                }
                Ok_::Skip(n) => {
                    if g.is_consuming() {
                        self.skip(b, n)?;
                    }
                }
                Ok_::Nothing => {}
                Ok_::Break(name, data) => return Ok(Flow::Break(name, data)),
                Ok_::Continue(name, data) => return Ok(Flow::Continue(name, data)),
                Ok_::Stop => return Ok(Flow::Stop),
            }
        }
        Ok(Flow::End)
    }

    fn take_payload(&mut self, b: &mut Build, data: Option<Box<Ok_>>) -> Result<(), Er> {
        match data.map(|d| *d) {
            Some(Ok_::Tok(t)) => {
                let adv = !self.toks[t].pin;
                self.add(b, t, adv, false)
            }
            Some(Ok_::Proxy(t)) => self.spread(b, t, true),
            Some(Ok_::Skip(n)) => self.skip(b, n),
            _ => Ok(()),
        }
    }

    fn open(&mut self, name: &str, cx: Cx) -> Build {
        let me = self.new_tok(name, (cx.start, cx.start), (cx.start, cx.start));
        Build { me, start: cx.start, pos: cx.start, kids: vec![], cap: None, mat: None, end: cx.end }
    }

    fn program(&mut self, name: &str, items: &'g [G], cx: Cx, scope: usize) -> Res {
        let mut b = self.open(name, cx);
        match self.items(&mut b, items, cx, scope) {
            Ok(Flow::End) => self.finish(b),
            Ok(Flow::Stop) => {
                self.seen.stops += 1;
                self.finish(b)
            }
            Ok(Flow::Break(label, data)) => {
                self.take_payload(&mut b, data)?;
                self.finish(b).map(|t| Ok_::Break(label, Some(Box::new(t))))
            }
            Ok(Flow::Continue(label, data)) => {
                self.take_payload(&mut b, data)?;
                self.finish(b).map(|t| Ok_::Continue(label, Some(Box::new(t))))
            }
            Err(e) => {
                if !b.kids.is_empty() {
                    self.seen.prog_rollback += 1;
                }
                Err(e)
            }
        }
    }

    fn looped(&mut self, name: &str, span: Span, items: &'g [G], cx: Cx, scope: usize) -> Res {
        let (min, max) = span.bounds();
        let mut b = self.open(name, cx);
        let mut count = 0;
        while count < max {
            let before = b.pos;
            let kids = b.kids.len();
            match self.items(&mut b, items, cx, scope) {
                Ok(Flow::End) => {}
                Ok(Flow::Stop) => {
                    self.seen.stops += 1;
                    break;
                }
                Ok(Flow::Continue(label, data)) => {
                    self.take_payload(&mut b, data)?;
                    if !label.is_empty() && label != name {
                        let done = self.finish(b)?;
                        return Ok(Ok_::Continue(label, Some(Box::new(done))));
                    }
                    self.seen.continues += 1;
                }
                Ok(Flow::Break(label, data)) => {
                    self.seen.breaks += 1;
                    self.take_payload(&mut b, data)?;
                    let done = self.finish(b)?;
                    if label.is_empty() || label == name {
                        return Ok(done);
                    }
                    return Ok(Ok_::Break(label, Some(Box::new(done))));
                }
                Err(Er::Fail) => {
                    if b.pos > before || b.kids.len() > kids {
                        self.seen.partial += 1;
                    }
                    break;
                }
                Err(e) => return Err(e),
            }
            if b.pos == before {
                self.seen.zero_width_iter += 1;
                count = count.max(min);
                break;
            }
            count += 1;
            self.seen.max_iter = self.seen.max_iter.max(count);
        }
        if count == max {
            self.seen.loop_hit_max += 1;
        }
        if min == 0 && count == 0 && b.kids.is_empty() {
            return Ok(Ok_::Skip(0));
        }
        if count < min {
            self.seen.loop_fail_min += 1;
            return Err(Er::Fail);
        }
        self.finish(b)
    }

    fn switch(&mut self, name: &str, items: &'g [G], cx: Cx, scope: usize) -> Res {
        self.open(name, cx);
        for (i, g) in items.iter().enumerate() {
            let inner = Cx { encl: Some(cx.start), ..cx };
            let r = self.ev(g, inner, scope);
            if i > 0 && r.is_ok() {
                self.seen.switch_later += 1;
            }
            match r {
                Ok(Ok_::Tok(t)) | Ok(Ok_::Proxy(t)) if self.toks[t].pin => continue,
                Ok(Ok_::Skip(0) | Ok_::Nothing) => continue,
                Ok(Ok_::Skip(n)) if n < 0 => return Err(Er::Reject("negative skip")),
                // What it would stop is unclear
                Ok(Ok_::Stop) => return Err(Er::Reject("an alternative that stops")),
                Err(Er::Fail) => continue,
                other => return other,
            }
        }
        Err(Er::Fail)
    }

    fn ev(&mut self, g: &'g G, cx: Cx, scope: usize) -> Res {
        self.seen.steps += 1;
        if self.seen.steps > self.max_steps {
            return Err(Er::Reject("too many steps"));
        }
        if cx.start > cx.end || !self.src.is_char_boundary(cx.start) || !self.src.is_char_boundary(cx.end) {
            return Err(Er::Reject("cursor outside of the window"));
        }
        self.depth += 1;
        self.seen.max_depth = self.seen.max_depth.max(self.depth);
        if self.depth > self.max_depth {
            self.depth -= 1;
            return Err(Er::Reject("too deep"));
        }
        let r = self.ev2(g, cx, scope);
        self.depth -= 1;
        r
    }

    fn sequence(&mut self, name: &str, window: &str, cx: Cx, open: &str, close: &str, esc: &str) -> Res {
        match sequence(window, open, close, esc) {
            None => Err(Er::Fail),
            Some((inner_end, value, escaped)) => {
                self.seen.escapes += escaped;
                let cap = (cx.start + open.len(), cx.start + inner_end);
                let mat = (cx.start, cx.start + inner_end + close.len());
                let t = self.new_tok(name, cap, mat);
                self.toks[t].attrs.insert("__value".into(), value);
                Ok(Ok_::Tok(t))
            }
        }
    }

    fn refer(&mut self, n: &str, cx: Cx, scope: usize) -> Res {
        match self.get(scope, n) {
            Some(Var::M(target)) => {
                self.seen.refs += 1;
                self.ev(target, cx, scope)
            }
            _ => {
                self.seen.fatals += 1;
                Err(Er::Fatal(format!("~{}", n), None))
            }
        }
    }

    fn register(&mut self, g: &'g G, scope: usize) {
        let name = match g {
            G::Eq(n, _) | G::Re(n, ..) | G::Seq(n, ..) | G::Prog(n, _) | G::Switch(n, _) | G::Loop(n, ..) | G::Flat(n, _) | G::Pin(n, ..) | G::RefAs(n, _) | G::SeqOf(n, ..) => n,
            _ => return,
        };
        if let Some(n) = name {
            self.set(scope, n, Var::M(g));
        }
    }

    fn ev2(&mut self, g: &'g G, cx: Cx, scope: usize) -> Res {
        self.register(g, scope);
        if matches!(
            g,
            G::Eq(..) | G::Re(..) | G::Seq(..) | G::SeqOf(..) | G::RefAs(..) | G::StoreStr(..) | G::Ref(_) | G::Register(_) | G::Break(_) | G::Own(_) | G::Error(_) | G::Panic(_) | G::Null | G::Pin(_, _, None) | G::Debug(_, None)
        ) {
            self.seen.leaves += 1;
        }
        let name = |n: &Option<String>, d: &str| n.clone().unwrap_or_else(|| d.to_string());
        let window = &self.src[cx.start..cx.end];
        match g {
            G::Null => Ok(Ok_::Skip(0)),
            G::Eq(n, t) => {
                let p = self.text(t, scope)?;
                if !p.is_empty() && self.src[cx.start..cx.end].starts_with(&p) {
                    let r = (cx.start, cx.start + p.len());
                    Ok(Ok_::Tok(self.new_tok(&name(n, "Equals"), r, r)))
                } else {
                    Err(Er::Fail)
                }
            }
            G::Re(n, re, flags) => match re.match_prefix(window, *flags) {
                m if re.crate_errs(window, *flags, m) => Err(Er::Reject("a known finding of P02")),
                None => Err(Er::Fail),
                Some(0) => Ok(Ok_::Skip(0)),
                Some(len) => {
                    let r = (cx.start, cx.start + len);
                    Ok(Ok_::Tok(self.new_tok(&name(n, "Matches"), r, r)))
                }
            },
            G::Seq(n, open, close, esc) => self.sequence(&name(n, "Sequence"), window, cx, open, close, esc),
            G::SeqOf(n, open, close, esc) => {
                let open = self.text(open, scope)?;
                let close = if open.is_empty() { return Err(Er::Reject("empty delimiter")) } else { self.text(close, scope)? };
                let esc = if close.is_empty() { return Err(Er::Reject("empty delimiter")) } else { self.text(esc, scope)? };
                self.sequence(&name(n, "Sequence"), window, cx, &open, &close, &esc)
            }
            G::Prog(n, items) => self.program(&name(n, "Program"), items, cx, scope),
            G::Switch(n, items) => self.switch(&name(n, "Switch"), items, cx, scope),
            G::Loop(n, span, items) => self.looped(&name(n, "Loop"), *span, items, cx, scope),
            G::Opt(g) => match self.ev(g, cx, scope) {
                Err(Er::Fail) => Ok(Ok_::Skip(0)),
                r => r,
            },
            G::Not(g) => match self.ev(g, cx, scope) {
                Err(Er::Fail) => Ok(Ok_::Skip(0)),
                Ok(Ok_::Skip(0)) => Ok(Ok_::Skip(0)),
                Ok(other @ (Ok_::Break(..) | Ok_::Continue(..) | Ok_::Stop | Ok_::Nothing)) => Ok(other),
                Ok(_) => Err(Er::Fail),
                r => r,
            },
            G::Discard(g) => match self.ev(g, cx, scope)? {
                Ok_::Tok(t) | Ok_::Proxy(t) => Ok(self.discarded(cx, t)),
                Ok_::Continue(label, Some(data)) => match *data {
                    Ok_::Tok(t) | Ok_::Proxy(t) => Ok(Ok_::Continue(label, Some(Box::new(self.discarded(cx, t))))),
                    other => Ok(Ok_::Continue(label, Some(Box::new(other)))),
                },
                Ok_::Break(label, Some(data)) => match *data {
                    Ok_::Tok(t) | Ok_::Proxy(t) => Ok(Ok_::Break(label, Some(Box::new(self.discarded(cx, t))))),
                    other => Ok(Ok_::Break(label, Some(Box::new(other)))),
                },
                other => Ok(other),
            },
            G::Flat(_, g) => match self.ev(g, cx, scope)? {
                Ok_::Tok(t) => Ok(self.flat(t)),
                Ok_::Continue(label, Some(data)) => match *data {
                    Ok_::Tok(t) => Ok(Ok_::Continue(label, Some(Box::new(self.flat(t))))),
                    other => Ok(Ok_::Continue(label, Some(Box::new(other)))),
                },
                Ok_::Break(label, Some(data)) => match *data {
                    Ok_::Tok(t) => Ok(Ok_::Break(label, Some(Box::new(self.flat(t))))),
                    other => Ok(Ok_::Break(label, Some(Box::new(other)))),
                },
                other => Ok(other),
            },
            G::Expand(g) => match self.ev(g, cx, scope)? {
                Ok_::Tok(t) => {
                    let r = self.toks[t].mat;
                    let w = self.new_tok("ExpandRange", r, r);
                    self.toks[w].kids.push(t);
                    self.toks[t].parent = Some(w);
                    Ok(Ok_::Proxy(w))
                }
                Ok_::Proxy(t) => {
                    self.toks[t].cap = self.toks[t].mat;
                    Ok(Ok_::Proxy(t))
                }
                other => Ok(other),
            },
            G::Pin(n, off, g) => {
                let o = self.text(off, scope)?;
                let r = match pin_window(&o, cx.start, cx.end) {
                    None => None,
                    Some(r) => self.src.get(r.0..r.1).map(|_| r),
                };
                let r = match r {
                    None => {
                        self.seen.pins_fail += 1;
                        return Err(Er::Fail);
                    }
                    Some(r) => r,
                };
                let out = match g {
                    Some(g) => self.ev(g, Cx { start: r.0, end: r.1, ..cx }, scope),
                    None => {
                        let t = self.new_tok(&name(n, "Pin"), r, r);
                        self.toks[t].pin = true;
                        Ok(Ok_::Tok(t))
                    }
                };
                if out.is_ok() {
                    self.seen.pins_ok += 1;
                } else {
                    self.seen.pins_fail += 1;
                }
                out
            }
            G::Store(n, g) => {
                let r = self.ev(g, cx, scope)?;
                if let Ok_::Tok(t) = r {
                    self.seen.stores += 1;
                    self.set(scope, n, Var::Tok(t));
                }
                Ok(r)
            }
            G::StoreStr(n, v) => {
                self.seen.stores += 1;
                self.set(scope, n, Var::Str(v.clone()));
                Ok(Ok_::Skip(0))
            }
            G::Ref(n) | G::RefAs(_, To::Name(n)) => self.refer(n, cx, scope),
            G::RefAs(_, To::M(g)) => {
                self.seen.refs += 1;
                self.ev(g, cx, scope)
            }
            G::RefAs(_, To::Var(path)) => match self.get(scope, path.split('.').next().unwrap()) {
                Some(Var::M(target)) => {
                    self.seen.refs += 1;
                    self.ev(target, cx, scope)
                }
                _ => {
                    let n = self.text(&Text::Var(path.clone()), scope)?;
                    self.refer(&n, cx, scope)
                }
            },
            G::Register(v) => {
                for g in v {
                    self.register(g, scope);
                }
                Ok(Ok_::Skip(0))
            }
            G::SetScope(g) => {
                self.scopes.push(HashMap::new());
                let id = self.scopes.len() - 1;
                self.stacks[scope].push(id);
                let r = self.ev(g, cx, scope);
                self.stacks[scope].pop();
                r
            }
            G::SetScopeWith(k, g) => self.ev(g, cx, k + 1),
            G::Break(label) => Ok(Ok_::Break(label.clone(), None)),
            G::Own(own) => {
              if self.watch {
                self.note(format!("{:?}", own), cx, scope);
              }
              match own {
                Own::Continue(label) => Ok(Ok_::Continue(label.clone(), None)),
                Own::Stop => Ok(Ok_::Stop),
                Own::Nothing => Ok(Ok_::Nothing),
                Own::Jump { leave, label, load } => {
                    let len = match window.char_indices().map(|c| c.0).chain(Some(window.len())).nth(load.count()) {
                        Some(len) => len,
                        None => return Err(Er::Fail),
                    };
                    let r = (cx.start, cx.start + len);
                    let found = Some(Box::new(match load {
                        Load::Skip(_) => Ok_::Skip(len as i64),
                        Load::Token(name, _) => Ok_::Tok(self.new_tok(name, r, r)),
                        Load::Inner(name, _) => {
                            let outer = self.new_tok("Outer", r, r);
                            let inner = self.new_tok(name, r, r);
                            self.toks[outer].kids.push(inner);
                            self.toks[inner].parent = Some(outer);
                            Ok_::Proxy(outer)
                        }
                    }));
                    Ok(if *leave { Ok_::Break(label.clone(), found) } else { Ok_::Continue(label.clone(), found) })
                }
                Own::Skip(n) | Own::Token(_, n) => {
                    let len = match window.char_indices().map(|c| c.0).chain(Some(window.len())).nth(*n) {
                        Some(len) => len,
                        None => return Err(Er::Fail),
                    };
                    match own {
                        Own::Token(name, _) => {
                            let r = (cx.start, cx.start + len);
                            Ok(Ok_::Tok(self.new_tok(name, r, r)))
                        }
                        _ => Ok(Ok_::Skip(len as i64)),
                    }
                }
              }
            }
            G::Error(m) => Ok(Ok_::Tok(self.error_tok(MSGS[*m], (cx.start, cx.start)))),
            G::Panic(m) => {
                let r = (cx.encl.unwrap_or(cx.start), cx.start);
                self.fatal(*m, r)
            }
            G::AssertIf(g, m) => match self.ev(g, cx, scope) {
                Ok(Ok_::Tok(t)) | Ok(Ok_::Proxy(t)) => {
                    let r = self.toks[t].mat;
                    Ok(Ok_::Tok(self.error_tok(MSGS[*m], r)))
                }
                Err(Er::Fail) => Ok(Ok_::Skip(0)),
                other => other,
            },
            G::AssertIfNot(g, m) => match self.ev(g, cx, scope) {
                Ok(Ok_::Tok(_)) | Ok(Ok_::Proxy(_)) => Ok(Ok_::Skip(0)),
                Err(Er::Fail) => Ok(Ok_::Tok(self.error_tok(MSGS[*m], (cx.start, cx.start)))),
                other => other,
            },
            G::FatalIf(g, m) => match self.ev(g, cx, scope) {
                Ok(Ok_::Tok(t)) | Ok(Ok_::Proxy(t)) => {
                    let r = self.toks[t].mat;
                    self.fatal(*m, r)
                }
                Err(Er::Fail) => Ok(Ok_::Skip(0)),
                other => other,
            },
            G::FatalIfNot(g, m) => match self.ev(g, cx, scope) {
                Ok(Ok_::Tok(_)) | Ok(Ok_::Proxy(_)) => Ok(Ok_::Skip(0)),
                Err(Er::Fail) => self.fatal(*m, (cx.start, cx.end)),
                other => other,
            },
            G::MapName(g, n) => {
                let r = self.ev(g, cx, scope)?;
                match r {
                    Ok_::Tok(t) | Ok_::Proxy(t) => {
                        self.toks[t].name = n.clone();
                        Ok(Ok_::Tok(t))
                    }
                    other => Ok(other),
                }
            }
            G::MapAttrs(g, attrs) => {
                let r = self.ev(g, cx, scope)?;
                match r {
                    Ok_::Tok(t) | Ok_::Proxy(t) => {
                        for (k, v) in attrs {
                            self.toks[t].attrs.entry(k.clone()).or_insert_with(|| v.clone());
                        }
                        Ok(Ok_::Tok(t))
                    }
                    other => Ok(other),
                }
            }
            G::MapFail(g) => match self.ev(g, cx, scope)? {
                Ok_::Tok(_) | Ok_::Proxy(_) => Err(Er::Fail),
                other => Ok(other),
            },
            G::Catch(g, act) => match (self.ev(g, cx, scope), act) {
                (Err(Er::Fail), CatchAct::Recover | CatchAct::Swallow) => Ok(Ok_::Skip(0)),
                (Err(Er::Fatal(..)), CatchAct::Swallow) => Ok(Ok_::Skip(0)),
                (Err(Er::Fatal(..)), CatchAct::Soften) => Err(Er::Fail),
                (r, _) => r,
            },
            G::Spy(id, catch, g) => {
                let r = self.ev(g, cx, scope);
                if self.watch {
                    match &r {
                        Ok(Ok_::Tok(t)) | Ok(Ok_::Proxy(t)) if !catch => self.note(format!("{} took {}", id, self.note_token(*t)), cx, scope),
                        Err(Er::Fail) => self.note(format!("{} failed", id), cx, if *catch { 0 } else { scope }),
                        Err(Er::Fatal(m, r)) => self.note(format!("{} fatal {:?} {:?}", id, if m.starts_with('~') { "~" } else { m }, r), cx, if *catch { 0 } else { scope }),
                        _ => {}
                    }
                }
                match r {
                    Ok(Ok_::Proxy(t)) if !catch => Ok(Ok_::Tok(t)),
                    r => r,
                }
            }
            G::Debug(_, g) => match g {
                Some(g) => self.ev(g, cx, scope),
                None => Ok(Ok_::Skip(0)),
            },
        }
    }

    fn fatal(&mut self, m: usize, r: R) -> Res {
        self.seen.fatals += 1;
        Err(Er::Fatal(self.message(MSGS[m], r), Some(r)))
    }

    fn errors_in(&self, t: usize, out: &mut Vec<usize>) {
        if self.toks[t].err {
            out.push(t);
        }
        for k in &self.toks[t].kids {
            self.errors_in(*k, out);
        }
    }

    /// An error stays what it is, anything else gives way to its children
    fn flat(&self, t: usize) -> Ok_ {
        if self.toks[t].err {
            Ok_::Tok(t)
        } else {
            Ok_::Proxy(t)
        }
    }

    /// What is left of a token that is thrown away: the space it took, and its errors
    fn discarded(&mut self, cx: Cx, t: usize) -> Ok_ {
        let end = self.toks[t].mat.1;
        let mut errs = vec![];
        self.errors_in(t, &mut errs);
        if errs.is_empty() {
            return Ok_::Skip(end as i64 - cx.start as i64);
        }
        let r = (cx.start, end);
        let w = self.new_tok("Error", r, r);
        self.toks[w].kids = errs;
        Ok_::Tok(w)
    }
}

/// End of the inside, the unescaped inside, and how many escapes it had
pub fn sequence(w: &str, open: &str, close: &str, esc: &str) -> Option<(usize, String, usize)> {
    if !w.starts_with(open) {
        return None;
    }
    let mut i = open.len();
    let mut value = String::new();
    let mut escapes = 0;
    loop {
        let rest = &w[i..];
        if rest.starts_with(close) {
            return Some((i, value, escapes));
        }
        let c = if !esc.is_empty() && rest.starts_with(esc) {
            escapes += 1;
            i += esc.len();
            w[i..].chars().next()?
        } else {
            rest.chars().next()?
        };
        value.push(c);
        i += c.len_utf8();
    }
}

pub fn pin_window(o: &str, start: usize, end: usize) -> Option<R> {
    let (a, b) = match o.split_once("..") {
        Some((a, b)) => (a, Some(b)),
        None => (o, None),
    };
    let at = |s: &str, from: usize, default: usize| -> Option<usize> {
        if matches!(s, "" | "+" | "-" | "+0" | "-0") {
            return Some(default);
        }
        if let Some(n) = s.strip_prefix('+') {
            return from.checked_add(n.parse().ok()?);
        }
        if let Some(n) = s.strip_prefix('-') {
            return from.checked_sub(n.parse().ok()?);
        }
        s.parse().ok()
    };
    let start = at(a, start, start)?;
    let end = match b {
        Some(b) => at(b, start, end)?,
        None => end,
    };
    Some((start, end))
}
