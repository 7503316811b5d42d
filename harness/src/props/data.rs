//! P11 lines and columns, P12 variables and scopes, P16 visitors, P17 tokens, P22 files,
//! P23 text forms of tokens and matchers.

use super::core::*;
use crate::ast::*;
use crate::dump::{Outcome, D};
use crate::engine::{Obs, Verdict};
use crate::gen::{self, K};
use crate::model;
use crate::re::{Flags, Re};
use crate::real;
use crate::src::Src;
use adextopa_core::matcher::{Matcher, MatcherRef};
use adextopa_core::matchers::pin::PinToken;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::{Parser, ParserRef};
use adextopa_core::parser_context::ParserContext;
use adextopa_core::scope::{Scope, ScopeRef, VariableType};
use adextopa_core::scope_context::ScopeContext;
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef};
use adextopa_core::token_visitor::TokenVisitor;
use adextopa_core::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

fn b<T>(x: T) -> Box<T> {
    Box::new(x)
}

/// Any panic of the library is a failure
fn safely(f: impl FnOnce() -> Verdict) -> Verdict {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => v,
        Err(e) => fail(format!("panic: {}", real::panic_text(e))),
    }
}

// ---------------------------------------------------------------- P11

pub fn p11(s: &mut Src, obs: &mut Obs) -> Verdict {
    let n = count(s, 16, 900);
    let text: String = (0..n).map(|_| *s.pick(gen::LINES)).collect();
    let at: Vec<usize> = text.char_indices().map(|c| c.0).chain(Some(text.len())).filter(|i| !model::inside_crlf(&text, *i)).collect();
    let x = *s.pick(&at);
    let y = *s.pick(&at);
    let r = (x.min(y), x.max(y));
    let file = s.text(&["a", "/", "é.x"], 0, 3);
    let msg = s.text(&["m", " ", "é", "\n", "]:"], 0, 4);
    // The position is one in the whole source, also when only a part of it is parsed
    let part = s.chance(1, 4);
    let p = *s.pick(&at);
    let q = *s.pick(&at);
    obs.case(format!("source {:?} file {:?} message {:?} range {:?} part {:?}", text, file, msg, r, if part { Some((p, q)) } else { None }));
    let lines = text.replace("\r\n", "\n").chars().filter(|c| *c == '\n' || *c == '\r').count() + 1;
    obs.nontrivial_if(lines >= 3 && r.1 > 0 && r.0 != r.1);
    obs.label_if(lines >= 40, "forty lines or more");
    safely(|| {
        let parser = if file.is_empty() { Parser::new(&text) } else { Parser::new_with_file_name(&text, &file) };
        let cx = if part { ParserContext::new_with_offset(&parser, SourceRange::new(p.min(q), p.max(q)), "T") } else { ParserContext::new(&parser, "T") };
        let c = cx.borrow();
        let range = SourceRange::new(r.0, r.1);
        let (l, k) = model::lines_and_columns(&text, r);
        if c.get_lines(&range) != l {
            return fail(format!("lines {:?}, expected {:?}", c.get_lines(&range), l));
        }
        if c.get_columns(&range) != k {
            return fail(format!("columns {:?}, expected {:?}", c.get_columns(&range), k));
        }
        if c.get_lines_and_columns(&range) != (l, k) {
            return fail(format!("{:?}, expected {:?}", c.get_lines_and_columns(&range), (l, k)));
        }
        let want = model::error_string(&text, &file, &msg, r);
        let got = c.get_error_as_string(&msg, &range);
        if got != want {
            return fail(format!("{:?}, expected {:?}", got, want));
        }
        // Going back from line and column to the offset gives the same place
        let mut starts = vec![0];
        let bytes = text.as_bytes();
        for i in 0..bytes.len() {
            if bytes[i] == b'\n' || (bytes[i] == b'\r' && bytes.get(i + 1) != Some(&b'\n')) {
                starts.push(i + 1);
            }
        }
        let one = SourceRange::new(r.0, r.0);
        let (ln, _) = c.get_lines(&one);
        let (co, _) = c.get_columns(&one);
        if starts.get(ln - 1).map(|x| x + co - 1) != Some(r.0) {
            return fail(format!("offset {} has line {} and column {}, which is another place", r.0, ln, co));
        }
        if range.to_string(&parser) != text[r.0..r.1] {
            return fail(format!("text of {:?} is {:?}", r, range.to_string(&parser)));
        }
        Verdict::Pass
    })
}

// ---------------------------------------------------------------- P12

fn show(v: &Option<VariableType>, toks: &[TokenRef], ms: &[MatcherRef]) -> String {
    match v {
        None => "nothing".into(),
        Some(VariableType::String(s)) => format!("s{}", s),
        Some(VariableType::Token(t)) => format!("t{:?}", toks.iter().position(|x| Rc::ptr_eq(x, t))),
        Some(VariableType::Matcher(t)) => format!("m{:?}", ms.iter().position(|x| Rc::ptr_eq(x, t))),
    }
}

fn scopes_history(s: &mut Src, obs: &mut Obs) -> Verdict {
    let parser = Parser::new("some text");
    let toks: Vec<TokenRef> = (0..3).map(|i| StandardToken::new(&parser, format!("T{}", i), SourceRange::new(i, i + 1))).collect();
    let ms: Vec<MatcherRef> = vec![Equals!("a"), Matches!("b"), Null!()];
    let names = ["a", "b", "c", "a b", "é", "A", "ab"];
    let cx = ParserContext::new(&parser, "T");
    let direct = s.chance(1, 2);
    let sc = if direct { ScopeContext::new() } else { cx.borrow().get_scope() };
    let sub = cx.borrow().clone_with_name("other");
    // Model: all scopes ever made, and the stack of those in use
    let mut made: Vec<(ScopeRef, HashMap<String, String>)> = vec![];
    let mut stack: Vec<usize> = vec![];
    let n = count(s, 14, 300);
    let mut ops = vec![];
    for _ in 0..n {
        ops.push((s.weighted(&[5, 5, 3, 3, 1, 1, 1]), s.below(names.len()), s.below(3), s.below(8)));
    }
    obs.case(format!("scope operations {:?} through a {}", ops, if direct { "scope stack" } else { "parser context" }));
    obs.nontrivial_if(n >= 6);
    safely(|| {
        for (i, (op, name, val, x)) in ops.iter().enumerate() {
            let name = names[*name];
            let mut missing = String::new();
            match op {
                0 => {
                    let want = stack.iter().rev().find_map(|k| made[*k].1.get(name)).cloned().unwrap_or("nothing".into());
                    let got = if direct {
                        sc.borrow().get(name)
                    } else if *x % 2 == 0 {
                        cx.borrow().get_scope_variable(name)
                    } else {
                        sub.borrow().get_scope_variable(name)
                    };
                    let got = show(&got, &toks, &ms);
                    if got != want {
                        return fail(format!("operation {}: {} is {}, expected {}", i, name, got, want));
                    }
                    if !direct {
                        let m = cx.borrow().get_registered_matcher(name).map(VariableType::Matcher);
                        let m = show(&m, &toks, &ms);
                        let want = if want.starts_with('m') { want } else { "nothing".into() };
                        if m != want {
                            return fail(format!("operation {}: matcher {} is {}, expected {}", i, name, m, want));
                        }
                    }
                }
                1 => {
                    let (v, w) = match x % 3 {
                        0 => (VariableType::String(format!("{}{}", val, i)), format!("s{}{}", val, i)),
                        1 => (VariableType::Token(toks[*val].clone()), format!("tSome({})", val)),
                        _ => (VariableType::Matcher(ms[*val].clone()), format!("mSome({})", val)),
                    };
                    if stack.is_empty() {
                        made.push((Scope::new(), HashMap::new()));
                        stack.push(made.len() - 1);
                        missing = "first".into();
                    }
                    let old = made[*stack.last().unwrap()].1.insert(name.to_string(), w).unwrap_or("nothing".into());
                    let got = if direct { sc.borrow_mut().set(name, v) } else { cx.borrow_mut().set_scope_variable(name, v) };
                    let got = show(&got, &toks, &ms);
                    if got != old {
                        return fail(format!("operation {}: setting {} gave {} as its old value, expected {}", i, name, got, old));
                    }
                    if missing == "first" {
                        // The stack made a scope of its own; get hold of it
                        let own = sc.borrow_mut().pop().unwrap();
                        sc.borrow_mut().push(own.clone());
                        let k = *stack.last().unwrap();
                        made[k].0 = own;
                    }
                }
                2 => {
                    let new = Scope::new();
                    sc.borrow_mut().push(new.clone());
                    made.push((new, HashMap::new()));
                    stack.push(made.len() - 1);
                }
                3 => {
                    let got = sc.borrow_mut().pop();
                    match (got, stack.pop()) {
                        (None, None) => {}
                        (Some(g), Some(k)) if Rc::ptr_eq(&g, &made[k].0) => {}
                        (g, k) => return fail(format!("operation {}: popped {} scope, expected {:?}", i, if g.is_some() { "another" } else { "no" }, k)),
                    }
                }
                4 if !made.is_empty() => {
                    // A scope that was in use before, or still is, comes back
                    let k = x % made.len();
                    let again = made[k].0.clone();
                    sc.borrow_mut().push(again);
                    stack.push(k);
                }
                5 if !made.is_empty() => {
                    let k = x % made.len();
                    let sk = made[k].0.borrow();
                    let want = made[k].1.get(name).cloned().unwrap_or("nothing".into());
                    let got = show(&sk.get(name).cloned(), &toks, &ms);
                    if got != want || sk.contains_key(name) != (want != "nothing") {
                        return fail(format!("operation {}: scope {} has {} = {}, expected {}", i, k, name, got, want));
                    }
                }
                6 if !direct => {
                    let m = &ms[*val];
                    if stack.is_empty() {
                        continue;
                    }
                    let top = *stack.last().unwrap();
                    match x % 4 {
                        0 => {
                            cx.borrow().register_matcher_with_name(name, m.clone());
                            made[top].1.insert(name.to_string(), format!("mSome({})", val));
                        }
                        1 => {
                            cx.borrow().register_matcher(m.clone());
                            let n = m.borrow().get_name().to_string();
                            made[top].1.insert(n, format!("mSome({})", val));
                        }
                        2 => {
                            cx.borrow().register_matchers(vec![m.clone(), ms[0].clone()]);
                            let n = m.borrow().get_name().to_string();
                            made[top].1.insert(n, format!("mSome({})", val));
                            made[top].1.insert("Equals".into(), "mSome(0)".into());
                        }
                        _ => {
                            cx.borrow().register_matchers_with_names(HashMap::from([(name, m.clone())]));
                            made[top].1.insert(name.to_string(), format!("mSome({})", val));
                        }
                    }
                }
                _ => {}
            }
        }
        for name in names.iter().chain(&["Equals", "Matches", "Null"]) {
            let want = stack.iter().rev().find_map(|k| made[*k].1.get(*name)).cloned().unwrap_or("nothing".into());
            let got = show(&sc.borrow().get(name), &toks, &ms);
            if got != want {
                return fail(format!("in the end {} is {}, expected {}", name, got, want));
            }
        }
        Verdict::Pass
    })
}

fn backreference(s: &mut Src, obs: &mut Obs) -> Verdict {
    // heredoc-like: <<WORD ... WORD, nested in scopes that don't leak
    let words = ["END", "é", "aa", "a", "x1"];
    let depth = s.range(1, 4);
    let mut text = String::new();
    let mut stack = vec![];
    let shape: Vec<usize> = (0..depth).map(|_| s.weighted(&[3, 2, 1])).collect();
    for _ in 0..depth {
        let w = *s.pick(&words);
        text.push_str(&format!("<{}>", w));
        stack.push(w);
    }
    let mut ok = true;
    for (i, w) in stack.iter().enumerate().rev() {
        // Which word does the end of this level have to repeat? A store in the same scope replaces the one before it.
        let mut last = i;
        while shape.get(last + 1) == Some(&1) {
            last += 1;
        }
        let need = stack[last];
        let _ = w;
        let have = if s.chance(1, 6) { *s.pick(&words) } else { need };
        ok &= have == need;
        text.push_str(&format!("</{}>", have));
    }
    let word = || G::Re(Some("Word".into()), Re::Rep(b(Re::Class(false, vec![('a', 'z'), ('A', 'Z'), ('0', '9'), ('é', 'é')])), 1, None, true), Flags::default());
    let field = *s.pick(&["v.matched_value", "v.captured_value"]);
    let mut g = G::Null;
    for i in (0..depth).rev() {
        let mut items = vec![lit("<"), G::Store("v".into(), b(word())), lit(">")];
        if i + 1 < depth {
            items.push(g);
        }
        items.push(lit("</"));
        items.push(G::Eq(Some("Back".into()), Text::Var(field.into())));
        items.push(lit(">"));
        let level = prog(items);
        g = match shape[i] {
            1 if i > 0 => level,
            2 => G::Opt(b(G::SetScope(b(G::Flat(None, b(level)))))),
            _ => G::SetScope(b(level)),
        };
    }
    // Under an optional the whole level may be missing, so only ask for a clear answer without one
    let c = Case::new(Grammar::of(prog(vec![lit("^"), g, lit("$")])), format!("^{}$", text));
    obs.case(c.show());
    obs.nontrivial_if(depth >= 2);
    let got = real::run_styled(&c, s.below(5) as u8);
    if let Some((e, _)) = expect(&c, obs) {
        if let Verdict::Fail(m) = agree(&e, &got) {
            return fail(m);
        }
    }
    if shape.contains(&2) {
        return Verdict::Pass;
    }
    obs.label(if ok { "repeats the right word" } else { "repeats another word" });
    match got {
        Outcome::Token(_) if ok => Verdict::Pass,
        Outcome::Fail if !ok => Verdict::Pass,
        o => fail(format!("words repeated {}: got {}", if ok { "correctly" } else { "wrongly" }, o.brief())),
    }
}

/// Each part of a stored token is what the token itself says
fn fields(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg = gen::core().with(&[(K::Seq, 6), (K::Discard, 5), (K::Prog, 8), (K::MapAttrs, 2)]).depth(3).pieces(gen::MIXED);
    let g = crate::gen::Gen::new(&cfg).gen(s, 3);
    let text = format!("^{}", gen::sample(s, &Grammar::of(g.clone())));
    let alone = Case::new(Grammar::of(prog(vec![lit("^"), g.clone()])), text.clone());
    obs.case(alone.show());
    let t = match expect(&alone, obs) {
        Some((Outcome::Token(d), _)) if d.kids.len() == 2 => d.kids[1].clone(),
        _ => {
            obs.label("nothing to store");
            return Verdict::Pass;
        }
    };
    let source = &text[..];
    let end = expect(&alone, obs).and_then(|e| e.0.token().map(|d| d.mat.1)).unwrap_or(t.mat.1);
    let n = s.range(1, 4);
    let mut items = vec![lit("^"), G::Store("v".into(), b(g))];
    let mut want = vec![];
    let mut input = source[..end].to_string();
    for _ in 0..n {
        let (f, v) = match s.below(8) {
            0 => ("captured_value", t.value.clone()),
            1 => ("matched_value", source[t.mat.0..t.mat.1].to_string()),
            2 => ("start", t.mat.0.to_string()),
            3 => ("end", t.mat.1.to_string()),
            4 => ("captured_start", t.cap.0.to_string()),
            5 => ("captured_end", t.cap.1.to_string()),
            6 => ("range", format!("{}..{}", t.mat.0, t.mat.1)),
            _ => ("captured_range", format!("{}..{}", t.cap.0, t.cap.1)),
        };
        if v.is_empty() {
            continue;
        }
        // Literals with nothing in them match nothing
        items.push(lit("="));
        items.push(G::Eq(Some("Field".into()), Text::Var(format!("v.{}", f))));
        input.push('=');
        want.push((input.len(), input.len() + v.len()));
        input.push_str(&v);
    }
    let c = Case::new(Grammar::of(prog(items)), input.clone());
    obs.case(c.show());
    // What was matched may be matched otherwise with more text behind it
    match expect(&c, obs) {
        Some((Outcome::Token(d), _)) if d.kids.len() > 1 && d.kids[1].mat == t.mat => {}
        _ => return Verdict::Pass,
    }
    obs.nontrivial_if(!want.is_empty() && (t.cap != t.mat || t.value != source[t.cap.0..t.cap.1]));
    match real::run_styled(&c, s.below(5) as u8) {
        Outcome::Token(d) => {
            let got: Vec<(usize, usize)> = d.kids.iter().filter(|k| k.name == "Field").map(|k| k.mat).collect();
            if got != want {
                return fail(format!("fields at {:?}, expected {:?}", got, want));
            }
            Verdict::Pass
        }
        o => fail(format!("the fields of {:?} {:?} {:?} are others: {}", t.cap, t.mat, t.value, o.brief())),
    }
}

/// Rules that are used under several definitions of the names they use
#[derive(Default)]
struct Names {
    /// The stack of the context, and those of the scopes given from outside
    stacks: Vec<Vec<BTreeMap<&'static str, String>>>,
    text: String,
    uses: usize,
    changes: usize,
}

impl Names {
    fn get(&self, k: usize, n: &str) -> Option<&String> {
        self.stacks[k].iter().rev().find_map(|m| m.get(n))
    }
    fn set(&mut self, k: usize, n: &'static str, v: String) {
        if self.stacks[k].is_empty() {
            self.stacks[k].push(BTreeMap::new());
        }
        self.changes += 1;
        self.stacks[k].last_mut().unwrap().insert(n, v);
    }
    fn blocks(&mut self, s: &mut Src, k: usize, depth: usize, uses: bool) -> Vec<G> {
        let n = s.range(1, 4);
        let mut v = vec![];
        for _ in 0..n {
            match s.weighted(&[3, 3, if uses { 6 } else { 0 }, if depth > 0 { 3 } else { 0 }, if depth > 0 { 3 } else { 0 }, if depth > 0 { 2 } else { 0 }]) {
                0 => {
                    let t = s.pick(&["a", "b", "ab", "é"]).to_string();
                    self.set(k, "X", t.clone());
                    v.push(G::Register(vec![G::Eq(Some("X".into()), Text::S(t))]));
                }
                1 => {
                    let t = s.pick(&["1", "2", "12", "日"]).to_string();
                    self.set(k, "V", t.clone());
                    v.push(G::StoreStr("V".into(), t));
                }
                2 => match (self.get(k, "X").cloned(), self.get(k, "V").cloned()) {
                    (Some(x), Some(t)) => {
                        self.uses += 1;
                        self.text.push_str(&x);
                        self.text.push_str(&t);
                        v.push(G::Ref(s.pick(&["R", "Q"]).to_string()));
                    }
                    _ => {}
                },
                3 => {
                    self.stacks[k].push(BTreeMap::new());
                    let was = self.text.len();
                    let inner = self.blocks(s, k, depth - 1, uses);
                    self.stacks[k].pop();
                    let g = G::SetScope(b(prog(inner)));
                    // A program that only defines doesn't match
                    v.push(if was == self.text.len() { G::Opt(b(g)) } else { g });
                }
                4 => {
                    let to = s.range(1, self.stacks.len() - 1);
                    let was = self.text.len();
                    let inner = self.blocks(s, to, depth - 1, uses);
                    let g = G::SetScopeWith(to - 1, b(prog(inner)));
                    v.push(if was == self.text.len() { G::Opt(b(g)) } else { g });
                }
                _ => {
                    // A scope that fails after it defined something
                    self.stacks[k].push(BTreeMap::new());
                    let mut inner = self.blocks(s, k, depth - 1, false);
                    self.stacks[k].pop();
                    inner.push(lit("no"));
                    let g = G::SetScope(b(prog(inner)));
                    v.push(if s.chance(1, 2) { G::Opt(b(g)) } else { G::Not(b(g)) });
                }
            }
        }
        v
    }
}

fn dynamic(s: &mut Src, obs: &mut Obs) -> Verdict {
    let scopes = s.range(1, 2);
    let mut n = Names { stacks: vec![vec![BTreeMap::new()]; scopes + 1], ..Names::default() };
    // The scopes from outside know the rules too
    let (x, v) = (G::Ref("X".into()), G::Eq(Some("Back".into()), Text::Var("V".into())));
    let rule = match s.below(4) {
        0 => prog(vec![x, v]),
        1 => G::Switch(None, vec![prog(vec![G::Not(b(lit("no"))), x, v])]),
        2 => prog(vec![G::Opt(b(x)), G::Store("t".into(), b(v))]),
        _ => G::Loop(None, Span::Incl(1, 1), vec![x, v]),
    };
    let rules = vec![("R".to_string(), rule), ("Q".to_string(), G::Ref("R".into()))];
    let mut given = vec![];
    for k in 0..scopes {
        let mut vars: Vec<(String, Val)> = rules.iter().map(|(n, g)| (n.clone(), Val::M(g.clone()))).collect();
        if s.chance(1, 2) {
            let t = s.pick(&["a", "b", "ab", "é"]).to_string();
            n.stacks[k + 1][0].insert("X", t.clone());
            vars.push(("X".into(), Val::M(G::eq(&t))));
        }
        if s.chance(1, 2) {
            let t = s.pick(&["1", "2", "12", "日"]).to_string();
            n.stacks[k + 1][0].insert("V", t.clone());
            vars.push(("V".into(), Val::S(t)));
        }
        given.push(vars);
    }
    let mut items = vec![lit("^")];
    if s.chance(3, 4) {
        n.set(0, "X", "a".into());
        n.set(0, "V", "1".into());
        items.push(G::Register(vec![G::Eq(Some("X".into()), Text::S("a".into()))]));
        items.push(G::StoreStr("V".into(), "1".into()));
    }
    for _ in 0..s.range(1, 3) {
        items.extend(n.blocks(s, 0, 3, true));
    }
    items.push(lit("$"));
    let text = if s.chance(1, 8) { gen::mutate(s, &n.text, &["a", "b", "1", "2", "é"]) } else { n.text.clone() };
    let c = Case { g: Grammar { root: prog(items), rules, scopes: given }, ..Case::new(Grammar::of(G::Null), format!("^{}$", text)) };
    let (uses, changes) = (n.uses, n.changes);
    obs.label_if(uses > 1, "names used under several definitions");
    let labels = |e: &Outcome| if e.is_token() { "definitions: token" } else { "definitions: other" };
    let v = differential_case(s, obs, &c, |_, e| e.is_token());
    if let Some((e, _)) = expect(&c, obs) {
        obs.label(labels(&e));
    }
    let _ = changes;
    v
}

pub fn p12(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[3, 3, 4, 2, 4]) {
        4 => dynamic(s, obs),
        0 => scopes_history(s, obs),
        1 => backreference(s, obs),
        3 => fields(s, obs),
        _ => {
            let cfg = gen::core().rules(3).names(3).with(&[(K::Store, 5), (K::StoreStr, 4), (K::EqVar, 8), (K::Ref, 5), (K::RefAs, 3), (K::SeqVar, 2), (K::Register, 3), (K::SetScope, 5), (K::SetScopeWith, 3), (K::Prog, 8)]).depth(5).pieces(gen::MIXED);
            differential(s, obs, &cfg, |seen, e| e.is_token() && seen.stores + seen.refs > 0 && seen.fetches + seen.refs > 0)
        }
    }
}

// ---------------------------------------------------------------- P16

struct Node {
    name: String,
    kids: Vec<Node>,
}

fn make_tree(s: &mut Src, names: &[&str], depth: usize, left: &mut usize) -> Node {
    let name = s.pick(names).to_string();
    let n = if depth == 0 || *left == 0 { 0 } else { s.weighted(&[3, 3, 3, 2, 1]) };
    let mut kids = vec![];
    for _ in 0..n {
        if *left > 0 {
            *left -= 1;
            kids.push(make_tree(s, names, depth - 1, left));
        }
    }
    Node { name, kids }
}

fn real_tree(n: &Node, p: &ParserRef, parent: Option<&TokenRef>, order: &mut Vec<(String, TokenRef)>) -> TokenRef {
    let t = StandardToken::new(p, n.name.clone(), SourceRange::new(0, 1));
    t.borrow_mut().set_parent(parent.cloned());
    order.push((n.name.clone(), t.clone()));
    let v: Vec<TokenRef> = n.kids.iter().map(|k| real_tree(k, p, Some(&t), order)).collect();
    t.borrow_mut().set_children(v);
    t
}

fn show_tree(n: &Node) -> String {
    if n.kids.is_empty() {
        n.name.clone()
    } else {
        format!("{}({})", n.name, n.kids.iter().map(show_tree).collect::<Vec<_>>().join(" "))
    }
}

pub fn p16(s: &mut Src, obs: &mut Obs) -> Verdict {
    let names = ["A", "B", "C", "AB", "é", "*", "a", "É"];
    let mut left = count(s, 14, 250);
    let (lo, hi) = if s.chance(1, 10) { (20, 40) } else { (1, 6) };
    let depth = s.range(lo, hi);
    let tree = make_tree(s, &names, depth, &mut left);
    let n = s.range(0, 5);
    let hooks: Vec<(&str, Option<usize>)> = (0..n).map(|_| (*s.pick(&["A", "B", "*", "C", "AB", "Z", "é", "a", "É", "ABC", ""]), if s.chance(1, 6) { Some(s.below(4)) } else { None })).collect();
    obs.case(format!("visit {} with hooks {:?} (name, the call that fails)", show_tree(&tree), hooks));
    safely(|| {
        let p = Parser::new("x");
        let mut order = vec![];
        let root = real_tree(&tree, &p, None, &mut order);
        // expected calls: (hook, token)
        let mut want: Vec<(usize, usize)> = vec![];
        let mut calls = vec![0; n];
        let mut err = None;
        for (i, (name, _)) in order.iter().enumerate() {
            let h = hooks.iter().position(|h| h.0 == name).or_else(|| hooks.iter().position(|h| h.0 == "*"));
            if let Some(h) = h {
                want.push((h, i));
                calls[h] += 1;
                if hooks[h].1 == Some(calls[h] - 1) {
                    err = Some(h);
                    break;
                }
            }
        }
        obs.nontrivial_if(want.len() >= 3);
        obs.label_if(err.is_some(), "a hook fails");
        let got: RefCell<Vec<(usize, usize)>> = RefCell::new(vec![]);
        let mut v = TokenVisitor::new();
        for (h, (name, fails)) in hooks.iter().enumerate() {
            let mut calls = 0;
            let got = &got;
            let order = &order;
            v.add_visitor(
                name,
                Box::new(move |t: TokenRef| {
                    let i = order.iter().position(|o| Rc::ptr_eq(&o.1, &t)).unwrap_or(usize::MAX);
                    got.borrow_mut().push((h, i));
                    calls += 1;
                    if *fails == Some(calls - 1) {
                        Err(ParseError::new_with_range(&format!("stop {}", h), SourceRange::new(h, h + 1)))
                    } else {
                        Ok(())
                    }
                }),
            );
        }
        let r = v.visit(root.clone());
        drop(v);
        real::release(&root);
        let got = got.into_inner();
        if got != want {
            let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
            return fail(format!("call {} should be (hook, token) {:?}, was {:?} ({} calls, expected {})", at, want.get(at), got.get(at), got.len(), want.len()));
        }
        match (r, err) {
            (Ok(()), None) => Verdict::Pass,
            (Err(e), Some(h)) if e.message == format!("stop {}", h) && e.range == Some(SourceRange::new(h, h + 1)) => Verdict::Pass,
            (r, e) => fail(format!("visit gave {:?}, expected the failure of hook {:?}", r, e)),
        }
    })
}

// ---------------------------------------------------------------- P17

#[derive(Clone)]
struct T {
    name: String,
    cap: (usize, usize),
    mat: (usize, usize),
    value: Option<String>,
    captured: String,
    matched: String,
    attrs: BTreeMap<String, String>,
    flags: u8,
    kids: Vec<usize>,
    parent: Option<usize>,
    pin: bool,
}

pub fn p17(s: &mut Src, obs: &mut Obs) -> Verdict {
    let text = s.text(gen::MIXED, 1, 8);
    let at: Vec<usize> = text.char_indices().map(|c| c.0).chain(Some(text.len())).collect();
    let names = ["A", "B", "AB", "é", "Name", "a", "name", "É"];
    let keys = ["k", "key", "__value", "__matched_value", "__message", "K", "kk", "é"];
    let vals = ["", "v", "é", "other"];
    let count_t = s.range(1, 5);
    let range = |s: &mut Src| {
        let (a, z) = (*s.pick(&at), *s.pick(&at));
        (a.min(z), a.max(z))
    };
    let made: Vec<(bool, usize, (usize, usize), Option<(usize, usize)>)> =
        (0..count_t).map(|_| (s.chance(1, 3), s.below(names.len()), range(s), if s.chance(1, 2) { Some(range(s)) } else { None })).collect();
    let n = count(s, 16, 200);
    let mut ops = vec![];
    for _ in 0..n {
        ops.push((s.below(18), s.below(count_t), s.below(count_t), s.below(8), s.below(5), s.raw() as u8, range(s)));
    }
    obs.case(format!("source {:?} tokens {:?} operations {:?}", text, made, ops));
    obs.nontrivial_if(n >= 6);
    safely(|| {
        let p = Parser::new(&text);
        let mut real_t: Vec<TokenRef> = vec![];
        let mut m: Vec<T> = vec![];
        for (pin, name, a, z) in &made {
            let name = names[*name].to_string();
            let r = |x: (usize, usize)| SourceRange::new(x.0, x.1);
            real_t.push(match (pin, z) {
                (false, None) => StandardToken::new(&p, name.clone(), r(*a)),
                (false, Some(z)) => StandardToken::new_with_matched_range(&p, name.clone(), r(*a), r(*z)),
                (true, None) => PinToken::new(&p, name.clone(), r(*a)),
                (true, Some(z)) => PinToken::new_with_matched_range(&p, name.clone(), r(*a), r(*z)),
            });
            let z = z.unwrap_or(*a);
            m.push(T {
                name,
                cap: *a,
                mat: z,
                value: None,
                captured: text[a.0..a.1].to_string(),
                matched: text[z.0..z.1].to_string(),
                attrs: BTreeMap::new(),
                flags: 0,
                kids: vec![],
                parent: None,
                pin: *pin,
            });
        }
        let id = |t: &TokenRef| real_t.iter().position(|x| Rc::ptr_eq(x, t));
        let mut problem = None;
        for (i, (op, x, y, k, v, flag, r)) in ops.iter().enumerate() {
            let (x, y) = (*x, *y);
            let sr = SourceRange::new(r.0, r.1);
            let pin = m[x].pin;
            let tr = real_t[x].clone();
            match op {
                0 => {
                    tr.borrow_mut().set_name(names[*k]);
                    m[x].name = names[*k].to_string();
                }
                1 => {
                    tr.borrow_mut().set_value(vals[*v % 4]);
                    m[x].value = Some(vals[*v % 4].to_string()).filter(|v| !v.is_empty());
                }
                2 => {
                    // For a pin, a range and its text are separate
                    tr.borrow_mut().set_captured_range(sr);
                    m[x].cap = *r;
                    if !pin {
                        m[x].captured = text[r.0..r.1].to_string();
                    }
                }
                3 => {
                    tr.borrow_mut().set_matched_range(sr);
                    m[x].mat = *r;
                    if !pin {
                        m[x].matched = text[r.0..r.1].to_string();
                    }
                }
                4 => {
                    tr.borrow_mut().set_captured_value(vals[*v % 4]);
                    m[x].captured = vals[*v % 4].to_string();
                }
                5 => {
                    tr.borrow_mut().set_matched_value(vals[*v % 4]);
                    m[x].matched = vals[*v % 4].to_string();
                }
                6 | 7 => {
                    let got = tr.borrow_mut().set_attribute(keys[*k], vals[*v % 4]);
                    let want = m[x].attrs.insert(keys[*k].to_string(), vals[*v % 4].to_string());
                    if got != want {
                        problem = Some(format!("setting attribute {} gave {:?} as its old value, expected {:?}", keys[*k], got, want));
                    }
                }
                8 => {
                    tr.borrow_mut().set_flags(*flag);
                    m[x].flags = *flag;
                }
                9 => {
                    tr.borrow_mut().enable_flags(*flag);
                    m[x].flags |= *flag;
                }
                10 => {
                    tr.borrow_mut().disable_flags(*flag);
                    m[x].flags &= !*flag;
                }
                11 | 12 => {
                    tr.borrow_mut().add_child(real_t[y].clone());
                    m[x].kids.push(y);
                }
                13 => {
                    let kids = if *k % 2 == 0 { vec![] } else { vec![y, (y + 1) % count_t] };
                    tr.borrow_mut().set_children(kids.iter().map(|k| real_t[*k].clone()).collect());
                    m[x].kids = kids;
                }
                14 => {
                    let parent = if *k == 0 { None } else { Some(y) };
                    tr.borrow_mut().set_parent(parent.map(|y| real_t[y].clone()));
                    m[x].parent = parent;
                }
                15 => {
                    if let Some(first) = m[x].kids.first().copied() {
                        tr.borrow_mut().get_children_mut().remove(0);
                        m[x].kids.remove(0);
                        let _ = first;
                    }
                }
                16 => {
                    *tr.borrow_mut().get_captured_range_mut() = sr;
                    m[x].cap = *r;
                }
                _ => {
                    *tr.borrow_mut().get_matched_range_mut() = sr;
                    m[x].mat = *r;
                }
            }
            if problem.is_none() {
                problem = compare(&real_t, &m, x, &id).map(|d| format!("after operation {}: {}", i, d));
            }
            if problem.is_some() {
                break;
            }
        }
        for x in 0..count_t {
            if problem.is_none() {
                problem = compare(&real_t, &m, x, &id);
            }
            for y in 0..count_t {
                let same = m[x].name == m[y].name && m[x].cap == m[y].cap && m[x].mat == m[y].mat;
                if problem.is_none() && (**real_t[x].borrow() == **real_t[y].borrow()) != same {
                    problem = Some(format!("tokens {} and {}: equality is {}", x, y, !same));
                }
            }
        }
        for t in &real_t {
            t.borrow_mut().set_parent(None);
            t.borrow_mut().set_children(vec![]);
        }
        match problem {
            Some(p) => fail(p),
            None => Verdict::Pass,
        }
    })
}

thread_local! {
    static PATTERNS: RefCell<HashMap<&'static str, regex::Regex>> = RefCell::new(HashMap::new());
}

fn compare(real_t: &[TokenRef], m: &[T], x: usize, id: &dyn Fn(&TokenRef) -> Option<usize>) -> Option<String> {
    let t = &m[x];
    {
        let f = real_t[x].borrow_mut().get_flags();
        if f != t.flags {
            return Some(format!("flags {:#x}, expected {:#x}", f, t.flags));
        }
    }
    let r = real_t[x].borrow();
    let captured = if t.pin { t.attrs.get("__value").unwrap_or(&t.captured) } else { &t.captured };
    let matched = if t.pin { t.attrs.get("__matched_value").unwrap_or(&t.matched) } else { &t.matched };
    let value = t.attrs.get("__value").or(t.value.as_ref()).unwrap_or(&t.captured);
    let same = |what: &str, a: &str, b: &str| if a == b { None } else { Some(format!("{} of token {} is {:?}, expected {:?}", what, x, a, b)) };
    let range = |a: &SourceRange, b: (usize, usize)| (a.start, a.end) == b;
    if let Some(d) = same("name", r.get_name(), &t.name)
        .or(same("value", r.get_value(), value))
        .or(same("captured value", r.get_captured_value(), captured))
        .or(same("matched value", r.get_matched_value(), matched))
    {
        return Some(d);
    }
    if !range(r.get_captured_range(), t.cap) || !range(r.get_matched_range(), t.mat) {
        return Some(format!("ranges of token {}: {} {}, expected {:?} {:?}", x, r.get_captured_range(), r.get_matched_range(), t.cap, t.mat));
    }
    let attrs: BTreeMap<String, String> = r.get_attributes().iter().map(|(a, b)| (a.clone(), b.clone())).collect();
    if attrs != t.attrs {
        return Some(format!("attributes of token {}: {:?}, expected {:?}", x, attrs, t.attrs));
    }
    for k in ["k", "key", "__value", "absent", "K", "kk", "é", ""] {
        let w = t.attrs.get(k);
        if r.get_attribute(k) != w || r.has_attribute(k) != w.is_some() {
            return Some(format!("attribute {}: {:?}, expected {:?}", k, r.get_attribute(k), w));
        }
        for v in ["", "v", "é"] {
            if r.attribute_equals(k, v) != (w.map(|w| w.as_str()) == Some(v)) {
                return Some(format!("attribute {} equals {:?} is {}", k, v, r.attribute_equals(k, v)));
            }
        }
    }
    for f in [1u8, 2, 4, 6, 0x80, 0xff, 0] {
        if r.flags_enabled(f) != (t.flags & f != 0) {
            return Some(format!("flags {:#x} enabled in {:#x}: {}", f, t.flags, r.flags_enabled(f)));
        }
    }
    let kids: Vec<Option<usize>> = r.get_children().iter().map(id).collect();
    if kids != t.kids.iter().map(|k| Some(*k)).collect::<Vec<_>>() {
        return Some(format!("children of token {}: {:?}, expected {:?}", x, kids, t.kids));
    }
    if r.get_parent().as_ref().map(id) != t.parent.map(Some) {
        return Some(format!("parent of token {} is not the one set", x));
    }
    if r.should_discard() != t.pin {
        return Some(format!("token {} should_discard {}", x, r.should_discard()));
    }
    if t.kids.contains(&x) {
        // Only a token that isn't its own child can be asked about its children by name while it is borrowed
    }
    for n in ["A", "B", "AB", "é", "Z", "a", "name", "Name", "NAME", "É", ""] {
        let want = t.kids.iter().find(|k| m[**k].name == n).copied();
        let got = r.find_child(n);
        if got.as_ref().map(id) != want.map(Some) {
            return Some(format!("child {} of token {}: {:?}, expected {:?}", n, x, got.as_ref().map(id), want));
        }
        if r.has_child(n) != want.is_some() {
            return Some(format!("token {} has child {}: {}", x, n, r.has_child(n)));
        }
    }
    for (re, f) in [("^A", (|n: &str| n.starts_with('A')) as fn(&str) -> bool), ("B", |n| n.contains('B')), ("^.$", |n| n.chars().count() == 1), ("z", |_| false)] {
        let want = t.kids.iter().find(|k| f(&m[**k].name)).copied();
        let got = PATTERNS.with(|p| r.find_child_fuzzy(p.borrow_mut().entry(re).or_insert_with(|| regex::Regex::new(re).unwrap())));
        if got.as_ref().map(id) != want.map(Some) {
            return Some(format!("child like {} of token {}: {:?}, expected {:?}", re, x, got.as_ref().map(id), want));
        }
    }
    None
}

// ---------------------------------------------------------------- P22

pub struct Scratch(pub std::path::PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicUsize, Ordering};
        static N: AtomicUsize = AtomicUsize::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() { std::path::PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let d = base.join(format!("adx-files-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        if std::fs::create_dir_all(&d).is_ok() {
            return Scratch(d);
        }
        let d = std::env::temp_dir().join(d.file_name().unwrap());
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn p22(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg = gen::core().with(&[(K::AssertIf, 2), (K::Panic, 1), (K::Error, 1)]).depth(3).pieces(gen::LINES);
    let mut c = gen::case(s, &cfg);
    c.window = None;
    let mode = s.weighted(&[8, 1, 1, 1]);
    let big = s.chance(1, 40);
    if big {
        let n = s.range(1, 4000);
        let t = s.text(gen::LINES, 1, 8);
        c.input.push_str(&t.repeat(n));
    }
    obs.case(format!("{} {}", ["read from a file", "missing file", "file that is not text", "directory"][mode], c.show().chars().take(3000).collect::<String>()));
    obs.nontrivial_if(mode > 0 || c.input.len() > 4);
    obs.label(["a file", "a missing file", "not valid text", "a directory"][mode]);
    let dir = Scratch::new();
    let name = dir.0.join(*s.pick(&["in.txt", "é x.txt", "noext"]));
    let file = name.to_str().unwrap().to_string();
    // What the file held before, and was read as
    let before = s.chance(1, 4).then(|| {
        let mut v: Vec<char> = c.input.chars().collect();
        if s.chance(1, 2) {
            v.reverse();
        } else if !v.is_empty() {
            let at = s.below(v.len());
            v[at] = if v[at] == 'a' { 'b' } else { 'a' };
        } else {
            v.push('a');
        }
        v.into_iter().collect::<String>()
    });
    if let Some(t) = &before {
        obs.label("a file that changed");
        let _ = std::fs::write(&name, t);
        match Parser::new_from_file(&file) {
            Ok(p) if p.borrow().get_source() == t => {}
            Ok(_) => return fail("the source is not the first text of the file"),
            Err(e) => return fail(format!("the file could not be read: {}", e)),
        }
        let _ = std::fs::remove_file(&name);
    }
    let _ = match mode {
        0 => std::fs::write(&name, &c.input),
        1 => Ok(()),
        2 => std::fs::write(&name, [c.input.as_bytes(), &[0xff, 0xfe, b'a']].concat()),
        _ => std::fs::create_dir(&name),
    };
    safely(|| match (Parser::new_from_file(&file), mode) {
        (Ok(p), 0) => {
            if p.borrow().get_source() != &c.input {
                return fail("the source is not the text of the file");
            }
            c.file = file.clone();
            let a = real::run(&c);
            let mut r = real::ready(&c, 1, real::FUEL);
            r.parser = p;
            let z = r.parse();
            agree(&a, &z)
        }
        (Err(_), 1..) => Verdict::Pass,
        (Ok(_), _) => fail("a file that cannot be read gave a parser"),
        (Err(e), _) => fail(format!("the file could not be read: {}", e)),
    })
}

// ---------------------------------------------------------------- P23

pub fn p23(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg = gen::full().with(&[(K::Debug, 2)]).pieces(gen::MIXED);
    let mut c = gen::case(s, &cfg);
    let debug = s.chance(1, 2);
    if debug {
        // The debug mode of the context prints text around the cursor
        let mode = s.range(1, 3);
        c.g.root = G::Debug(mode, Some(b(c.g.root.clone())));
    }
    obs.case(c.show());
    let (e, _) = match expect(&c, obs) {
        Some(x) => x,
        None => return Verdict::Pass,
    };
    safely(|| {
        let r = real::ready(&c, 2, real::FUEL);
        let text = Matcher::to_string(&**r.root.borrow());
        if text.is_empty() {
            return fail("a matcher has no text form");
        }
        let cx = r.context();
        for (n, m) in &r.rules {
            cx.borrow().register_matcher_with_name(n, m.clone());
        }
        let res = ParserContext::tokenize(cx.clone(), r.root.clone());
        if let Ok(t) = &res {
            let d = real::dump(t);
            obs.nontrivial_if(d.count() >= 3);
            let shown = format!("{:?}", t.borrow());
            if shown != format!("{}", t.borrow()) {
                return fail("the two text forms of a token differ");
            }
            let mut missing = None;
            let mut at = 0;
            d.walk(&mut |k: &D, _| {
                // In order: name, ranges, value
                if missing.is_some() {
                    return;
                }
                let mut parts = vec![format!("{}(", k.name), format!("ValueRange({}, {})", k.cap.0, k.cap.1), format!("RawRange({}, {})", k.mat.0, k.mat.1)];
                // What has several lines is moved to the right
                if !k.value.contains('\n') {
                    parts.push(format!("Value({})", k.value));
                }
                if !k.matched.contains('\n') {
                    parts.push(format!("RawValue({})", k.matched));
                }
                for part in parts {
                    match shown[at..].find(&part) {
                        Some(i) => at += i + part.len(),
                        None => missing = Some(part),
                    }
                }
            });
            if let Some(p) = missing {
                return fail(format!("the text form of the tokens lacks {:?}", p));
            }
            let rows = shown.matches("ValueRange(").count();
            if rows != d.count() {
                return fail(format!("the text form of {} tokens shows {}", d.count(), rows));
            }
            let mut lost = None;
            d.walk(&mut |k: &D, _| {
                for (n, v) in &k.attrs {
                    if !v.contains('\n') && !shown.contains(&format!("{:?}: {:?}", n, v)) {
                        lost = Some(n.clone());
                    }
                }
            });
            if let Some(n) = lost {
                return fail(format!("the text form of the tokens lacks the attribute {:?}", n));
            }
        }
        let o = real::outcome(res);
        cx.borrow().get_scope().borrow_mut().pop();
        agree(&e, &o)
    })
}

