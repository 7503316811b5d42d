//! Parse contexts: histories of what a caller or a matcher of its own does with them.

use super::core::*;
use crate::ast::*;
use crate::engine::{Obs, Verdict};
use crate::gen;
use crate::re;
use crate::real::{self, Builder};
use crate::src::Src;
use adextopa_core::matcher::MatcherRef;
use adextopa_core::parser::{Parser, ParserRef};
use adextopa_core::parser_context::{ParserContext, ParserContextRef};
use adextopa_core::scope::{Scope, VariableType};
use adextopa_core::source_range::SourceRange;
use adextopa_core::token::{StandardToken, TokenRef};
use adextopa_core::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone)]
enum V {
    S(String),
    T(usize),
    M(usize),
}

/// What is known about one context
#[derive(Clone)]
struct Known {
    name: String,
    start: usize,
    end: usize,
    debug: usize,
    stack: Vec<usize>,
    source: usize,
    /// shared between a context and its clones
    vars: usize,
}

struct World {
    texts: Vec<String>,
    parsers: Vec<ParserRef>,
    real: Vec<ParserContextRef>,
    known: Vec<Known>,
    scopes: Vec<Vec<BTreeMap<String, V>>>,
    tokens: Vec<TokenRef>,
    matchers: Vec<MatcherRef>,
}

const SMALL: &[&str] = &["a", "b", "é", "ab", "日", "1"];
const NAMES: &[&str] = &["a", "b", "Equals", "Größe", "Alpha", "", "a.b", "rule"];

fn same(a: &Option<VariableType>, b: Option<&V>, w: &World) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(VariableType::String(a)), Some(V::S(b))) => a == b,
        (Some(VariableType::Token(a)), Some(V::T(b))) => Rc::ptr_eq(a, &w.tokens[*b]),
        (Some(VariableType::Matcher(a)), Some(V::M(b))) => Rc::ptr_eq(a, &w.matchers[*b]),
        _ => false,
    }
}

impl World {
    fn var(&self, i: usize, name: &str) -> Option<&V> {
        self.scopes[self.known[i].vars].iter().rev().find_map(|s| s.get(name))
    }

    fn put(&mut self, i: usize, name: &str, v: V) -> Option<V> {
        let stack = &mut self.scopes[self.known[i].vars];
        if stack.is_empty() {
            stack.push(BTreeMap::new());
        }
        stack.last_mut().unwrap().insert(name.to_string(), v)
    }

    fn compare(&self) -> Result<(), String> {
        for (i, (r, k)) in self.real.iter().zip(&self.known).enumerate() {
            let c = r.borrow();
            let bad = |what: String| Err(format!("context {}: {}", i, what));
            if c.name != k.name {
                return bad(format!("name {:?}, expected {:?}", c.name, k.name));
            }
            if (c.offset.start, c.offset.end) != (k.start, k.end) {
                return bad(format!("cursor {}, expected {:?}", c.offset, (k.start, k.end)));
            }
            if c.debug_mode_level() != k.debug || c.is_debug_mode() != (k.debug > 0) {
                return bad(format!("debug mode {} {}, expected {}", c.debug_mode_level(), c.is_debug_mode(), k.debug));
            }
            if !Rc::ptr_eq(&c.get_parser(), &self.parsers[k.source]) || !Rc::ptr_eq(&c.parser, &self.parsers[k.source]) {
                return bad("has another parser".into());
            }
            let top = c.get_top_token_from_stack();
            let ok = match (&top, k.stack.last()) {
                (None, None) => true,
                (Some(a), Some(b)) => Rc::ptr_eq(a, &self.tokens[*b]),
                _ => false,
            };
            if !ok {
                return bad(format!("another token on top of the stack: {:?}", top.map(|t| t.borrow().get_name().clone())));
            }
            for n in NAMES {
                let (got, want) = (c.get_scope_variable(n), self.var(i, n));
                if !same(&got, want, self) {
                    return bad(format!("variable {:?} is {:?}", n, got.is_some()));
                }
                if !same(&c.get_scope().borrow().get(n), want, self) {
                    return bad(format!("variable {:?} differs in the scope", n));
                }
                let m = c.get_registered_matcher(n);
                let ok = match (&m, want) {
                    (Some(a), Some(V::M(b))) => Rc::ptr_eq(a, &self.matchers[*b]),
                    (None, Some(V::M(_))) => false,
                    (None, _) => true,
                    _ => false,
                };
                if !ok {
                    return bad(format!("registered matcher {:?}", n));
                }
            }
            for (j, o) in self.known.iter().enumerate() {
                if Rc::ptr_eq(&c.get_scope(), &self.real[j].borrow().get_scope()) != (o.vars == k.vars) {
                    return bad(format!("shares its scope with {} or not", j));
                }
            }
        }
        Ok(())
    }
}

fn boundaries(t: &str) -> Vec<usize> {
    t.char_indices().map(|c| c.0).chain(Some(t.len())).collect()
}

fn place(s: &mut Src, t: &str) -> usize {
    *s.pick(&boundaries(t))
}

/// A text that is at this place, or nearly so
fn near(s: &mut Src, t: &str, at: usize, end: usize) -> String {
    let rest: Vec<char> = t[at..].chars().collect();
    let n = s.range(0, 4).min(rest.len());
    let mut p: String = rest[..n].iter().collect();
    match s.weighted(&[6, 2, 1, 1, 1]) {
        0 => p,
        1 => {
            p.push_str(s.pick(gen::MIXED));
            p
        }
        2 => gen::mutate(s, &p, gen::MIXED),
        3 => t[at..].to_string(),
        _ => t.get(at..end).unwrap_or("").to_string(),
    }
}

pub fn p26(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut w = World { texts: vec![], parsers: vec![], real: vec![], known: vec![], scopes: vec![], tokens: vec![], matchers: vec![] };
    let mut ops: Vec<String> = vec![];
    for _ in 0..2 {
        let n = count(s, 8, 60);
        let t = s.text(SMALL, 2, n + 2);
        w.parsers.push(Parser::new(&t));
        w.texts.push(t);
    }
    for i in 0..3 {
        let r = SourceRange::new_blank();
        w.tokens.push(StandardToken::new(&w.parsers[0], format!("T{}", i), r));
    }
    w.matchers = vec![Equals!("a"), Equals!("Größe"; "b"), Equals!("Alpha"; "c"), Program!("rule"; Equals!("d"))];
    let matcher_names = ["Equals", "Größe", "Alpha", "rule"];
    let cfg = gen::core().names(0).depth(3).pieces(SMALL);
    // What happens is decided first, so that a case can be described before it runs
    let mut plan: Vec<Vec<u32>> = vec![];
    for _ in 0..3 + count(s, 12, 57) {
        plan.push((0..24).map(|_| s.raw()).collect());
    }
    obs.case(format!("texts {:?}, {} operations {:?}", w.texts, plan.len(), plan.iter().map(|p| p[0] >> 24).collect::<Vec<_>>()));
    let (mut clones, mut effects, mut found, mut parses) = (0, 0, 0, 0);
    let first = [0u32; 24];
    for choices in Some(&first[..]).into_iter().chain(plan.iter().map(|v| &v[..])) {
        let s = &mut Src::new(choices);
        let op = if w.real.is_empty() { 0 } else { s.weighted(&[1, 5, 3, 2, 2, 2, 2, 3, 2, 1, 4, 5, 3, 2, 4, 1]) };
        let i = s.below(w.real.len().max(1));
        let text = w.known.get(i).map(|k| w.texts[k.source].clone()).unwrap_or_default();
        let name = s.pick(NAMES).to_string();
        let what = match op {
            0 => {
                let p = s.below(2);
                let t = &w.texts[p];
                let (mut a, mut b) = (0, t.len());
                let ctx = if s.chance(1, 2) {
                    a = place(s, t);
                    b = place(s, t);
                    ParserContext::new_with_offset(&w.parsers[p], SourceRange::new(a, b), &name)
                } else {
                    ParserContext::new(&w.parsers[p], &name)
                };
                w.real.push(ctx);
                w.scopes.push(vec![]);
                w.known.push(Known { name: name.clone(), start: a, end: b, debug: 0, stack: vec![], source: p, vars: w.scopes.len() - 1 });
                format!("new {:?} over text {} {:?}", name, p, (a, b))
            }
            1 => {
                let c = w.real[i].borrow().clone_with_name(&name);
                w.real.push(c);
                w.known.push(Known { name: name.clone(), ..w.known[i].clone() });
                clones += 1;
                format!("clone {} as {:?}", i, name)
            }
            2 | 3 => {
                let (a, b) = (place(s, &text), place(s, &text));
                let how = s.below(5);
                let mut c = w.real[i].borrow_mut();
                let k = &mut w.known[i];
                match how {
                    0 => {
                        c.set_start(a);
                        k.start = a;
                    }
                    1 => {
                        c.set_end(b);
                        k.end = b;
                    }
                    2 => {
                        c.set_offset(SourceRange::new(a, b));
                        (k.start, k.end) = (a, b);
                    }
                    3 => {
                        // put back into order
                        let (a, b) = (k.start.min(k.end), k.start.max(k.end));
                        c.set_offset(SourceRange::new(a, b));
                        (k.start, k.end) = (a, b);
                    }
                    _ => {
                        c.offset.start = a;
                        k.start = a;
                    }
                }
                effects += 1;
                format!("cursor of {} is {:?}", i, (k.start, k.end))
            }
            4 => {
                let m = s.below(4);
                w.real[i].borrow_mut().set_debug_mode(m);
                w.known[i].debug = m;
                effects += 1;
                format!("debug mode of {} is {}", i, m)
            }
            5 => {
                let t = s.below(w.tokens.len());
                w.real[i].borrow_mut().push_token_to_stack(w.tokens[t].clone());
                w.known[i].stack.push(t);
                effects += 1;
                format!("{} gets token {}", i, t)
            }
            6 => {
                w.real[i].borrow_mut().pop_token_from_stack();
                w.known[i].stack.pop();
                effects += 1;
                format!("{} loses a token", i)
            }
            7 | 8 => {
                let (v, rv) = match s.below(3) {
                    0 => {
                        let t = s.pick(gen::MIXED).to_string();
                        (V::S(t.clone()), VariableType::String(t))
                    }
                    1 => {
                        let t = s.below(w.tokens.len());
                        (V::T(t), VariableType::Token(w.tokens[t].clone()))
                    }
                    _ => {
                        let t = s.below(w.matchers.len());
                        (V::M(t), VariableType::Matcher(w.matchers[t].clone()))
                    }
                };
                let before = w.put(i, &name, v);
                let got = w.real[i].borrow_mut().set_scope_variable(&name, rv);
                effects += 1;
                if !same(&got, before.as_ref(), &w) {
                    return fail(format!("{:?}; setting {:?} in {} gives another value back", ops, name, i));
                }
                format!("{} sets {:?}", i, name)
            }
            9 => {
                let scope = w.real[i].borrow().get_scope();
                let id = w.known[i].vars;
                if s.chance(1, 2) {
                    scope.borrow_mut().push(Scope::new());
                    w.scopes[id].push(BTreeMap::new());
                    format!("{} gets a scope", i)
                } else {
                    let had = scope.borrow_mut().pop().is_some();
                    if had != w.scopes[id].pop().is_some() {
                        return fail(format!("{:?}; {} had a scope or not", ops, i));
                    }
                    format!("{} loses a scope", i)
                }
            }
            10 => {
                effects += 1;
                let how = s.below(4);
                let (m, m2) = (s.below(w.matchers.len()), s.below(w.matchers.len()));
                let (r, r2) = (w.matchers[m].clone(), w.matchers[m2].clone());
                let c = w.real[i].clone();
                match how {
                    0 => {
                        c.borrow().register_matcher(r);
                        w.put(i, matcher_names[m], V::M(m));
                    }
                    1 => {
                        c.borrow().register_matcher_with_name(&name, r);
                        w.put(i, &name, V::M(m));
                    }
                    2 => {
                        c.borrow().register_matchers(vec![r, r2]);
                        w.put(i, matcher_names[m], V::M(m));
                        w.put(i, matcher_names[m2], V::M(m2));
                    }
                    _ => {
                        let other = s.pick(NAMES).to_string();
                        let mut map = HashMap::new();
                        map.insert(name.as_str(), r);
                        map.insert(other.as_str(), r2);
                        c.borrow().register_matchers_with_names(map);
                        w.put(i, &name, V::M(m));
                        w.put(i, &other, V::M(m2));
                    }
                }
                format!("{} registers {} {} ({})", i, m, m2, how)
            }
            11 | 12 => {
                let k = w.known[i].clone();
                if k.start > k.end {
                    continue;
                }
                let c = w.real[i].borrow();
                match s.below(4) {
                    0 => {
                        let p = near(s, &text, k.start, k.end);
                        let fits = !p.is_empty() && text[k.start..k.end].starts_with(&p);
                        let want = if fits { Some(SourceRange::new(k.start, k.start + p.len())) } else { None };
                        found += fits as usize;
                        let got = c.matches_str(&p);
                        if got != want {
                            return fail(format!("{:?}; {:?} at {:?} of {:?}: {:?}, expected {:?}", ops, p, (k.start, k.end), text, got, want));
                        }
                        format!("{} looks for {:?}", i, p)
                    }
                    1 => {
                        let at = place(s, &text);
                        let p = near(s, &text, at, k.end.max(at));
                        let fits = !p.is_empty() && at < k.end && text[at..k.end].starts_with(&p);
                        let want = if fits { Some(SourceRange::new(at, at + p.len())) } else { None };
                        found += fits as usize;
                        let got = c.matches_str_at_offset(&p, at);
                        if got != want {
                            return fail(format!("{:?}; {:?} from {} in {:?} of {:?}: {:?}, expected {:?}", ops, p, at, (k.start, k.end), text, got, want));
                        }
                        format!("{} looks for {:?} at {}", i, p, at)
                    }
                    2 => {
                        let re = re::gen(s, 2, &['a', 'b', 'é', '日', '1']);
                        let f = re::Flags { i: s.chance(1, 4), ..Default::default() };
                        let window = &text[k.start..k.end];
                        let m = re.match_prefix(window, f);
                        if re.crate_errs(window, f, m) {
                            continue;
                        }
                        found += m.is_some() as usize;
                        let want = m.map(|n| SourceRange::new(k.start, k.start + n));
                        let got = c.matches_regexp(&re.compile(f));
                        if got != want {
                            return fail(format!("{:?}; {} on {:?}: {:?}, expected {:?}", ops, re.render(), window, got, want));
                        }
                        format!("{} looks for {}", i, re.render())
                    }
                    _ => {
                        let n = s.range(0, 12);
                        let mut want = String::new();
                        for ch in text[k.start..k.end].chars() {
                            if want.len() + ch.len_utf8() > n {
                                break;
                            }
                            want.push(ch);
                        }
                        let got = c.debug_range(n);
                        if got != want {
                            return fail(format!("{:?}; {} bytes from {:?} of {:?}: {:?}, expected {:?}", ops, n, (k.start, k.end), text, got, want));
                        }
                        format!("{} shows {}", i, n)
                    }
                }
            }
            13 | 14 => {
                let k = w.known[i].clone();
                if k.start > k.end {
                    continue;
                }
                let depth = s.below(3);
                let g = grammar_only(s, &cfg, depth);
                let c = Case { window: Some((k.start, k.end)), ..Case::new(Grammar::of(g), text.clone()) };
                let e = match expect(&c, obs) {
                    Some((e, _)) => e,
                    None => continue,
                };
                parses += e.is_token() as usize;
                let m = Builder::new(1, real::FUEL).build(&c.g.root);
                let ctx = w.real[i].clone();
                let got = real::guard(|| real::outcome(ParserContext::tokenize(ctx, m)));
                if let Verdict::Fail(why) = agree(&e, &got) {
                    return fail(format!("{:?}; {:?} in {:?} of {:?}: {}", ops, c.g.root, (k.start, k.end), text, why));
                }
                format!("{} parses {:?}", i, c.g.root)
            }
            _ => {
                let (a, b) = (s.range(0, 70), s.range(0, 70));
                let r = SourceRange::new(a, b);
                let copy = r.clone_with_len(b);
                let p = &w.texts[0];
                let (x, y) = (a.min(p.len()).min(b.min(p.len())), b.min(p.len()));
                let want = p.get(x..y).unwrap_or("").to_string();
                let got = SourceRange::to_string(&r, &w.parsers[0]);
                if format!("{}", r) != format!("[{}-{}]", a, b) || copy != SourceRange::new(a, a + b) || got != want {
                    return fail(format!("range {:?} is {} {:?} {:?}, expected {:?}", r, r, copy, got, want));
                }
                format!("range {:?}", (a, b))
            }
        };
        obs.case(what.clone());
        ops.push(what);
        if let Err(why) = w.compare() {
            return fail(format!("after {:?}: {}", ops, why));
        }
    }
    obs.label_if(clones > 0, "clones");
    obs.label_if(found > 0, "found something");
    obs.label_if(parses > 0, "parsed to a token");
    obs.nontrivial_if(clones > 0 && effects >= 3 && found + parses > 0);
    Verdict::Pass
}
