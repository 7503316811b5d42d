//! P08 tree geometry, P09 recorded errors, P10 fatal errors, P13 pins, P15 repeatability,
//! P19 windows, P20 recursive grammars, P21 termination.

use super::core::*;
use crate::ast::*;
use crate::dump::{diff, Outcome, D};
use crate::engine::{Obs, Verdict};
use crate::gen::{self, Cfg, Gen, K};
use crate::model::{self, Verdict as MV};
use crate::re::{Flags, Re};
use crate::real;
use crate::src::Src;
use adextopa_core::parser_context::ParserContext;
use adextopa_core::token::TokenRef;
use std::collections::HashSet;
use std::rc::Rc;

fn b<T>(x: T) -> Box<T> {
    Box::new(x)
}

fn plain(c: char) -> Re {
    Re::Lit(c)
}

// ---------------------------------------------------------------- P08

fn geometry(t: &TokenRef, d: &D, seen: &mut HashSet<*const ()>) -> Result<(), String> {
    if !seen.insert(Rc::as_ptr(t) as *const ()) {
        return Err(format!("{} at {:?} appears twice in the tree", d.name, d.mat));
    }
    let k = t.borrow();
    let kids = k.get_children();
    let m = *k.get_matched_range();
    let c = *k.get_captured_range();
    if m.start > m.end || c.start > c.end || c.start < m.start || c.end > m.end {
        return Err(format!("{}: captured range {} is not inside of matched range {}", d.name, c, m));
    }
    let mut last = m.start;
    for (i, x) in kids.iter().enumerate() {
        let y = x.borrow();
        let r = *y.get_matched_range();
        if r.start < last {
            return Err(format!("child {} of {} at {} starts before {} where the one before it ends", i, d.name, r, last));
        }
        if r.end > m.end {
            return Err(format!("child {} at {} is not inside of its parent {} at {}", i, r, d.name, m));
        }
        last = r.end;
        match y.get_parent() {
            None => return Err(format!("child {} of {} has no parent", y.get_name(), d.name)),
            Some(p) if !Rc::ptr_eq(&p, t) => {
                return Err(format!("the parent of child {} {} of {} {} is another token: {} {}", y.get_name(), r, d.name, m, p.borrow().get_name(), p.borrow().get_matched_range()))
            }
            _ => {}
        }
    }
    for (x, e) in kids.iter().zip(&d.kids) {
        geometry(x, e, seen)?;
    }
    Ok(())
}

pub fn p08(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg = match s.weighted(&[4, 2, 1]) {
        0 => gen::core().rules(2).with(&[(K::Store, 1), (K::SetScope, 1), (K::Ref, 2), (K::Break, 2), (K::Flat, 4), (K::MapName, 2), (K::MapAttrs, 1), (K::Catch, 1), (K::Register, 1), (K::Loop, 5), (K::FatalIf, 1)]),
        1 => gen::core().with(&[(K::Flat, 8), (K::Loop, 8), (K::Break, 4), (K::Prog, 8)]),
        _ => gen::core().with(&[(K::Expand, 3), (K::Flat, 3)]),
    }
    .depth(5)
    .pieces(gen::MIXED);
    let c = gen::case(s, &cfg);
    let style = s.below(5) as u8;
    obs.case(format!("style {} {}", style, c.show()));
    let (e, _) = match expect(&c, obs) {
        Some(x) => x,
        None => return Verdict::Pass,
    };
    let mut problem = None;
    let got = real::guard(|| {
        let r = real::ready(&c, style, real::FUEL);
        let cx = r.context();
        for (n, m) in &r.rules {
            cx.borrow().register_matcher_with_name(n, m.clone());
        }
        let res = ParserContext::tokenize(cx.clone(), r.root.clone());
        if let (Ok(t), Outcome::Token(d)) = (&res, &e) {
            let k = t.borrow();
            if k.get_parent().is_some() {
                problem = Some("the outermost token has a parent".to_string());
            }
            drop(k);
            if let Err(m) = geometry(t, d, &mut HashSet::new()) {
                problem = Some(m);
            }
        }
        let o = real::outcome(res);
        cx.borrow().get_scope().borrow_mut().pop();
        o
    });
    if let Outcome::Token(d) = &got {
        obs.nontrivial_if(d.count() >= 5);
        obs.label_if(d.count() >= 5, "five tokens or more");
    }
    if let Some(p) = problem {
        return fail(format!("{} in {}", p, got.brief().chars().take(300).collect::<String>()));
    }
    agree(&e, &got)
}

// ---------------------------------------------------------------- P09

pub fn p09(s: &mut Src, obs: &mut Obs) -> Verdict {
    if s.chance(1, 2) {
        let cfg = gen::core().rules(1).with(&[(K::Error, 5), (K::AssertIf, 4), (K::AssertIfNot, 4), (K::Discard, 4), (K::Flat, 4), (K::MapName, 1), (K::MapAttrs, 1), (K::SetScope, 1), (K::Store, 1), (K::Break, 1), (K::Expand, 1)]).depth(5).pieces(gen::LINES);
        let c = gen::case(s, &cfg);
        let style = s.below(5) as u8;
        obs.case(format!("style {} {}", style, c.show()));
        let (e, seen) = match expect(&c, obs) {
            Some(x) => x,
            None => return Verdict::Pass,
        };
        obs.nontrivial_if(e.is_token() && seen.errors > 0);
        obs.label_if(e.is_token() && seen.errors > 1, "more than one error recorded");
        let got = real::run_styled(&c, style);
        if let Outcome::Token(d) = &got {
            for k in &d.kids {
                let mut bad = None;
                k.walk(&mut |t, depth| {
                    if depth > 0 && t.flags & 2 != 0 {
                        bad = Some(format!("error {:?} at {:?} is below the outermost token's children", t.attrs.get("__message"), t.mat));
                    }
                });
                if let Some(b) = bad {
                    return fail(b);
                }
            }
        }
        return agree(&e, &got);
    }
    // Rows of items in nested parentheses; `!` and `?` are errors that don't stop the parse
    let n = count(s, 8, 150).max(1);
    let mut text = String::from("^a");
    let mut open = 0usize;
    let mut want = vec![];
    for _ in 0..n {
        match s.weighted(&[6, 3, 2, 2, 2, 2]) {
            0 => text.push_str(s.pick(&["a", "é", "日"])),
            1 => {
                want.push((text.len(), text.len() + 1, "first problem"));
                text.push('!');
            }
            2 if open < 12 => {
                open += 1;
                text.push_str("(a");
            }
            3 if open > 0 => {
                open -= 1;
                text.push(')');
            }
            4 => {
                want.push((text.len(), text.len() + 2, "second problem"));
                text.push_str("??");
            }
            _ => text.push_str(s.pick(&["\n", "\r\n", "\r"])),
        }
    }
    while open > 0 {
        open -= 1;
        text.push(')');
    }
    // Two of these next to each other would be one line ending
    if text.contains("\r\n") && s.chance(1, 2) {
        obs.label("with \\r\\n");
    }
    let wrap = s.below(5);
    let q = if s.chance(1, 2) { lit("??") } else { prog(vec![lit("?"), lit("?")]) };
    let q = if s.chance(1, 3) { G::Flat(None, b(prog(vec![q]))) } else { q };
    let item = vec![
        G::AssertIf(b(lit("!")), 0),
        G::AssertIf(b(q), 1),
        G::Re(None, Re::Class(false, vec![('a', 'a'), ('é', 'é'), ('日', '日')]), Flags::default()),
        G::Re(Some("Newline".into()), Re::Class(false, vec![('\r', '\r'), ('\n', '\n')]), Flags::default()),
        G::Ref("group".into()),
    ];
    let items = G::Loop(None, Span::From(0), vec![G::Switch(None, item)]);
    let group = prog(vec![lit("("), items.clone(), lit(")")]);
    let group = match wrap {
        0 => group,
        1 => G::Discard(b(group)),
        2 => G::Flat(None, b(group)),
        3 => G::MapName(b(group), "Group".into()),
        _ => G::SetScope(b(G::Opt(b(group)))),
    };
    let mut c = Case::new(Grammar { root: prog(vec![lit("^"), items]), rules: vec![("group".into(), group)], scopes: vec![] }, text);
    if s.chance(1, 2) {
        c.file = "dir/name.ext".into();
    }
    obs.case(c.show());
    obs.nontrivial_if(want.len() >= 2);
    obs.label(match want.len() {
        0 => "no error",
        1 => "one error",
        _ => "several errors",
    });
    let d = match real::run(&c) {
        Outcome::Token(d) => d,
        o => return fail(format!("recorded errors must not stop the parse, got {}", o.brief())),
    };
    let mut got: Vec<(usize, usize, String)> = vec![];
    let mut deep = 0;
    d.walk(&mut |t, depth| {
        if t.flags & 2 != 0 {
            if depth != 1 {
                deep += 1;
            }
            got.push((t.mat.0, t.mat.1, t.attrs.get("__message").cloned().unwrap_or_default()));
        }
    });
    got.sort();
    let want: Vec<(usize, usize, String)> = want.iter().map(|w| (w.0, w.1, model::error_string(&c.input, &c.file, w.2, (w.0, w.1)))).collect();
    if got != want {
        return fail(format!("errors {:?}, expected {:?}", got, want));
    }
    if deep > 0 {
        return fail("an error is not a child of the outermost token");
    }
    if d.mat != (0, c.input.len()) {
        return fail(format!("parse stopped at {:?} of {}", d.mat, c.input.len()));
    }
    Verdict::Pass
}

// ---------------------------------------------------------------- P10

/// Put a grammar somewhere inside of others
fn bury(s: &mut Src, g: &mut Gen, mut x: G, depth: usize) -> (G, usize) {
    let mut layers = 0;
    for _ in 0..depth {
        layers += 1;
        x = match s.below(16) {
            0 => G::Opt(b(x)),
            1 => G::Not(b(x)),
            2 => G::Discard(b(x)),
            3 => G::Flat(None, b(x)),
            4 => prog(vec![G::Opt(b(g.leaf(s))), x, g.leaf(s)]),
            5 => G::Switch(None, vec![x, g.leaf(s), G::Null]),
            6 => G::Loop(None, Span::From(0), vec![x]),
            7 => G::MapName(b(x), "Alpha".into()),
            8 => G::Store("v".into(), b(x)),
            9 => G::SetScope(b(x)),
            10 => G::AssertIf(b(x), s.below(4)),
            11 => G::AssertIfNot(b(x), s.below(4)),
            12 => G::FatalIf(b(x), s.below(4)),
            13 => G::FatalIfNot(b(x), s.below(4)),
            14 => G::Expand(b(x)),
            _ => G::Loop(None, Span::Incl(1, 3), vec![x, G::Opt(b(g.leaf(s)))]),
        };
    }
    (x, layers)
}

pub fn p10(s: &mut Src, obs: &mut Obs) -> Verdict {
    if s.chance(2, 5) {
        let cfg = gen::full().with(&[(K::Panic, 3), (K::FatalIf, 4), (K::FatalIfNot, 4), (K::Catch, 5), (K::Pin, 0)]).pieces(gen::LINES);
        return differential(s, obs, &cfg, |seen, e| seen.fatals > 0 || matches!(e, Outcome::Fatal(..)));
    }
    let cfg = gen::core().pieces(gen::LINES).names(0);
    let mut g = Gen::new(&cfg);
    let m = s.below(4);
    let head: Vec<String> = (0..s.range(1, 3)).map(|_| g.literal(s)).collect();
    let here: String = head.concat();
    let t = g.literal(s);
    let x = match s.weighted(&[3, 3, 2, 2]) {
        0 => G::Panic(m),
        1 => G::FatalIf(b(lit(&t)), m),
        2 => G::FatalIfNot(b(lit("\u{1}")), m),
        _ => G::Ref("nothing_of_this_name".into()),
    };
    let deep = s.range(0, 7);
    let (x, layers) = bury(s, &mut g, x, deep);
    let mut items: Vec<G> = head.iter().map(|t| lit(t)).collect();
    items.push(x);
    items.push(G::Opt(b(lit(&t))));
    // Whatever surrounds it, and whatever alternatives there would have been
    let all = G::Re(None, Re::Rep(b(Re::Any), 1, None, true), Flags { s: true, ..Flags::default() });
    let inner = prog(items);
    let outer = s.range(0, 4);
    let (root, more) = bury(s, &mut g, inner, outer);
    let mut root = G::Switch(None, vec![root, all]);
    let catch = if s.chance(1, 4) { Some(s.pick(&[CatchAct::Recover, CatchAct::Soften, CatchAct::Swallow]).clone()) } else { None };
    if let Some(a) = &catch {
        root = prog(vec![G::Switch(None, vec![G::Catch(b(root), a.clone()), G::Eq(Some("After".into()), Text::S(here.clone()))])]);
    }
    let c = Case::new(Grammar::of(root), format!("{}{}", here, t));
    obs.case(c.show());
    let (e, seen) = match expect(&c, obs) {
        Some(x) => x,
        None => return Verdict::Pass,
    };
    if seen.fatals == 0 {
        // A generated sibling failed first
        obs.label("not reached");
        return agree(&e, &real::run(&c));
    }
    obs.nontrivial_if(layers + more >= 3);
    let got = real::run(&c);
    match catch {
        None | Some(CatchAct::Recover) => {
            obs.label("must abort the parse");
            match &got {
                Outcome::Fatal(..) => {}
                o => return fail(format!("a fatal error was reached, but the parse gave {}", o.brief())),
            }
        }
        Some(_) => {
            obs.label("intercepted");
            if matches!(got, Outcome::Fatal(..)) {
                return fail("a fatal error that was intercepted still ended the parse");
            }
        }
    }
    agree(&e, &got)
}

// ---------------------------------------------------------------- P13

pub fn p13(s: &mut Src, obs: &mut Obs) -> Verdict {
    if s.chance(2, 5) {
        let cfg = gen::core().rules(1).with(&[(K::Pin, 8), (K::Store, 3), (K::SetScope, 1), (K::Flat, 2), (K::Break, 1), (K::EqVar, 1), (K::Expand, 1), (K::Debug, 1), (K::Opt, 4), (K::Discard, 3)]).pieces(gen::MIXED);
        return differential(s, obs, &cfg, |seen, _| seen.pins_ok > 0);
    }
    // Some text, then a look at another place from there, then the rest
    let head: Vec<String> = (0..s.range(1, 4)).map(|_| s.text(gen::MIXED, 1, 2)).collect();
    let rest = s.text(gen::MIXED, 1, 6);
    let text = format!("{}{}", head.concat(), rest);
    let here = head.concat().len();
    let len = text.len();
    let n = s.range(0, len + 2);
    let m = s.range(0, len + 2);
    let which = s.below(head.len());
    let from: usize = head[..which].iter().map(|h| h.len()).sum();
    let to = from + head[which].len();
    let mut stored = false;
    let (off, a, z): (Text, Option<usize>, Option<usize>) = match s.weighted(&[3, 3, 3, 2, 2, 2, 2, 2, 2, 3, 2]) {
        0 => (Text::S(String::new()), Some(here), Some(len)),
        1 => (Text::S(format!("{}", n)), Some(n), Some(len)),
        2 => (Text::S(format!("-{}", n)), here.checked_sub(n), Some(len)),
        3 => (Text::S(format!("+{}", n)), Some(here + n), Some(len)),
        4 => (Text::S(format!("{}..{}", n, n + m)), Some(n), Some(n + m)),
        5 => (Text::S(format!("-{}..+{}", n, m)), here.checked_sub(n), here.checked_sub(n).map(|x| if m == 0 { len } else { x + m })),
        6 => (Text::S(format!("..{}", m)), Some(here), Some(m)),
        7 => (Text::S(format!("{}..", n)), Some(n), Some(len)),
        8 => (Text::S("+0..-0".to_string()), Some(here), Some(len)),
        9 => {
            stored = true;
            let f = *s.pick(&["range", "captured_range"]);
            (Text::Var(format!("v.{}", f)), Some(from), Some(to))
        }
        _ => {
            stored = true;
            let (f, at) = *s.pick(&[("start", from), ("end", to), ("captured_start", from), ("captured_end", to)]);
            (Text::Var(format!("v.{}", f)), Some(at), Some(len))
        }
    };
    let look = G::Re(Some("Look".into()), Re::Rep(b(Re::Any), 1, None, true), Flags { s: true, ..Flags::default() });
    let empty = s.chance(1, 5);
    let named = if s.chance(1, 4) { Some("Mark".to_string()) } else { None };
    let pin = G::Pin(named, off, if empty { None } else { Some(b(look)) });
    // Inside of something that adds nothing of its own
    let mut pin = pin;
    let (mut hidden, mut optional) = (false, false);
    for _ in 0..s.weighted(&[4, 2, 1]) {
        pin = match s.below(5) {
            0 => {
                optional = true;
                G::Opt(b(pin))
            }
            1 => {
                hidden = true;
                G::Discard(b(pin))
            }
            2 => G::SetScope(b(pin)),
            3 => G::Store("w".into(), b(pin)),
            _ => G::Debug(0, Some(b(pin))),
        };
        obs.label("wrapped");
    }
    let mut items = vec![];
    for (i, h) in head.iter().enumerate() {
        let l = lit(h);
        items.push(if stored && i == which { G::Store("v".into(), b(l)) } else { l });
    }
    items.push(pin);
    items.push(G::Re(Some("Tail".into()), Re::Rep(b(Re::Any), 1, None, true), Flags { s: true, ..Flags::default() }));
    let mut c = Case::new(Grammar::of(prog(items)), text.clone());
    if s.chance(1, 3) {
        c.input.push_str("more");
        c.window = Some((0, len));
        obs.label("in a window");
    }
    obs.case(c.show());
    let ok = match (a, z) {
        (Some(a), Some(z)) => c.input.get(a..z).filter(|t| empty || !t.is_empty()).map(|_| (a, z)),
        _ => None,
    };
    obs.nontrivial_if(ok.map_or(false, |r| r.0 != here));
    obs.label(match ok {
        None => "nothing to look at",
        Some(r) if r.0 < here => "looks back",
        Some(r) if r.0 > here => "looks ahead",
        _ => "looks here",
    });
    match (real::run_styled(&c, s.below(5) as u8), ok) {
        (Outcome::Fail, None) if !optional => Verdict::Pass,
        (Outcome::Token(d), r) if r.is_some() || optional => {
            let mut want = vec![];
            let mut at = 0;
            for h in &head {
                want.push(leaf("Equals", at, at + h.len()));
                at += h.len();
            }
            if let (Some(r), false, false) = (r, empty, hidden) {
                want.push(leaf("Look", r.0, r.1));
            }
            want.push(leaf("Tail", here, len));
            if kids(&d) != want {
                return fail(format!("expected {:?}, got {:?}", want, kids(&d)));
            }
            if d.mat != (0, len) {
                return fail(format!("whole match {:?}, expected {:?}", d.mat, (0, len)));
            }
            Verdict::Pass
        }
        (o, r) => fail(format!("pin at {:?}: got {}", r, o.brief())),
    }
}

// ---------------------------------------------------------------- P15

fn named_ref(g: &G) -> bool {
    matches!(g, G::RefAs(Some(_), _))
}

pub fn p15(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg = gen::full().pieces(gen::MIXED);
    let c = gen::case(s, &cfg);
    let other = gen::case(s, &cfg).input;
    obs.case(format!("{} then {:?}", c.show(), other));
    let (e, seen) = match expect(&c, obs) {
        Some(x) => x,
        None => return Verdict::Pass,
    };
    obs.nontrivial_if(seen.steps > 8 && (e.is_token() || matches!(e, Outcome::Fatal(..))));
    let a = real::ready(&c, 0, real::FUEL);
    let first = a.parse();
    if let Verdict::Fail(m) = agree(&e, &first) {
        return fail(m);
    }
    let same = |what: &str, o: Outcome| match diff(&first, &o) {
        None => Ok(()),
        Some(d) => Err(format!("{}: {}", what, d)),
    };
    let mut run = || -> Result<(), String> {
        same("second parse with the same matchers", a.parse())?;
        // The same matchers on another text in between
        let mut oc = c.clone();
        oc.input = other.clone();
        oc.window = None;
        let mut between = real::ready(&oc, 0, real::FUEL);
        between.root = a.root.clone();
        between.rules = a.rules.clone();
        between.fuel = a.fuel.clone();
        // what is stored in a scope that is given from outside stays there
        let given = |g: &G| matches!(g, G::SetScopeWith(..));
        match model::Model::run(&oc).0 {
            MV::Known(e) if !oc.g.root.any(&given) && !oc.g.rules.iter().any(|r| r.1.any(&given)) => {
                obs.label("another text in between");
                if let Verdict::Fail(m) = agree(&e, &between.parse()) {
                    return Err(format!("on the text in between: {}", m));
                }
            }
            // a reference that names itself after its target never ends
            _ if oc.g.root.any(&named_ref) || oc.g.rules.iter().any(|r| r.1.any(&named_ref)) => {}
            _ => {
                let _ = between.parse();
            }
        }
        same("parse after the matchers were used on another text", a.parse())?;
        same("patterns added one by one", real::run_styled(&c, 1))?;
        same("built with the macros", real::run_styled(&c, 2))?;
        same("equal parts are one matcher", real::run_styled(&c, 3))?;
        same("children replaced", real::run_styled(&c, 4))?;
        Ok(())
    };
    if let Err(m) = run() {
        if m.contains("out of fuel") {
            return Verdict::Pass;
        }
        return fail(m);
    }
    // Debug wrappers at random places change nothing
    let mut wrapped = 0;
    let mut put = |g: G| {
        if s.chance(1, 5) && !matches!(g, G::Register(_)) {
            wrapped += 1;
            G::Debug(s.below(4), Some(Box::new(g)))
        } else {
            g
        }
    };
    let g2 = map_grammar(&c.g, &mut |g| {
        // Matchers that are registered by name are found by that name
        let v = match g {
            G::Register(v) => return G::Register(v.into_iter().map(|x| if let G::Debug(_, Some(y)) = x { *y } else { x }).collect()),
            g => g,
        };
        put(v)
    });
    if wrapped > 0 {
        let d = Case { g: g2, ..c.clone() };
        if let Some((e2, _)) = expect(&d, obs) {
            obs.label("with debug wrappers");
            let got = real::run_styled(&d, 1);
            if let Some(x) = diff(&first, &got) {
                // Position of a fatal error may say which program it is in; debug is transparent there too
                return fail(format!("debug wrappers changed the result: {} ({})", x, d.show()));
            }
            if let Some(x) = diff(&e2, &got) {
                return fail(x);
            }
        }
    }
    Verdict::Pass
}

// ---------------------------------------------------------------- P19

fn has_position_text(g: &Grammar) -> bool {
    let bad = |g: &G| match g {
        G::Pin(_, Text::S(t), _) => t.bytes().next().map_or(false, |b| b.is_ascii_digit()) || t.split_once("..").map_or(false, |x| x.1.bytes().next().map_or(false, |b| b.is_ascii_digit())) || t.starts_with('-'),
        G::Pin(_, Text::Var(_), _) => true,
        G::Eq(_, Text::Var(v)) | G::RefAs(_, To::Var(v)) => v.ends_with("start") || v.ends_with("end") || v.ends_with("range"),
        G::SeqOf(_, a, b, e) => [a, b, e].iter().any(|t| matches!(t, Text::Var(v) if v.ends_with("start") || v.ends_with("end") || v.ends_with("range"))),
        _ => false,
    };
    g.root.any(&bad) || g.rules.iter().any(|r| r.1.any(&bad))
}

pub fn p19(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg = gen::full().with(&[(K::Panic, 0), (K::FatalIf, 0), (K::FatalIfNot, 0), (K::Re, 5), (K::Seq, 2)]).pieces(if s.chance(1, 2) { gen::MIXED } else { gen::LINES });
    let mut g = Gen::new(&cfg);
    let grammar = g.grammar(s);
    let text = gen::input(s, &grammar, &cfg);
    let far = s.chance(1, 8);
    let (n, m) = if far { (s.range(0, 200), s.range(0, 200)) } else { (s.range(0, 4), s.range(0, 4)) };
    let pre: String = (0..n).map(|_| *s.pick(cfg.pieces)).collect();
    let post: String = (0..m).map(|_| *s.pick(cfg.pieces)).collect();
    let alone = Case::new(grammar.clone(), text.clone());
    let inside = Case { window: Some((pre.len(), pre.len() + text.len())), input: format!("{}{}{}", pre, text, post), ..alone.clone() };
    obs.case(inside.show());
    if has_position_text(&grammar) {
        obs.label("speaks of absolute positions");
        return Verdict::Pass;
    }
    let (e, _) = match expect(&alone, obs) {
        Some(x) => x,
        None => return Verdict::Pass,
    };
    if expect(&inside, obs).is_none() {
        return Verdict::Pass;
    }
    // Does anything look at the text before the window, like a pin that went too far back?
    let x = real::run(&alone);
    let y = real::run(&inside);
    obs.nontrivial_if(x.is_token() && n > 0 && m > 0);
    let x = match x {
        Outcome::Token(d) => Outcome::Token(d.shift(pre.len()).without_messages()),
        o => o,
    };
    let y = match y {
        Outcome::Token(d) => {
            Outcome::Token(d.without_messages())
        }
        o => o,
    };
    // Pins may leave the window
    let pins = grammar.root.any(&|g| matches!(g, G::Pin(..))) || grammar.rules.iter().any(|r| r.1.any(&|g| matches!(g, G::Pin(..))));
    if pins {
        obs.label("has pins");
        return match expect(&inside, obs) {
            Some((e2, _)) => match e2 {
                Outcome::Token(d) => agree(&Outcome::Token(d.without_messages()), &y),
                o => agree(&o, &y),
            },
            None => Verdict::Pass,
        };
    }
    let _ = e;
    agree(&x, &y)
}

// ---------------------------------------------------------------- P20

#[derive(Debug, Clone, PartialEq)]
enum Json {
    Atom(String),
    List(Vec<Json>),
    Map(Vec<(String, Json)>),
}

fn json_make(s: &mut Src, depth: usize, wide: usize) -> Json {
    let k = if depth == 0 { 0 } else { s.weighted(&[4, 3, 3]) };
    match k {
        0 => Json::Atom(match s.below(5) {
            0 => "null".into(),
            1 => "true".into(),
            2 => format!("{}", s.below(1000)),
            3 => format!("-{}.{}", s.below(100), s.below(100)),
            _ => format!("\"{}\"", s.text(&["a", "é", " ", "]", "\\\"", ",", "\\\\"], 0, 4)),
        }),
        1 => {
            let n = count(s, 3, wide);
            Json::List((0..n).map(|_| json_make(s, depth - 1, 4)).collect())
        }
        _ => {
            let n = count(s, 3, wide);
            Json::Map((0..n).map(|_| (s.text(&["k", "é", "}", ":"], 0, 3), json_make(s, depth - 1, 4))).collect())
        }
    }
}

fn json_text(s: &mut Src, j: &Json, out: &mut String) {
    fn ws(s: &mut Src, out: &mut String) {
        let w = *s.pick(&["", "", " ", "\n", " \t "]);
        out.push_str(w);
    }
    match j {
        Json::Atom(a) => out.push_str(a),
        Json::List(v) => {
            out.push('[');
            ws(s, out);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    ws(s, out);
                }
                json_text(s, x, out);
                let w = *s.pick(&["", "", " "]);
                out.push_str(w);
            }
            out.push(']');
        }
        Json::Map(v) => {
            out.push('{');
            ws(s, out);
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    let w = *s.pick(&["", "", " ", "\n"]);
                    out.push_str(w);
                }
                out.push_str(&format!("\"{}\":", k));
                let w = *s.pick(&["", "", " "]);
                out.push_str(w);
                json_text(s, x, out);
                let w = *s.pick(&["", "", " "]);
                out.push_str(w);
            }
            out.push('}');
        }
    }
}

/// A parser written by hand, for the same language; gives the end of the value as well
fn json_parse(t: &str, at: usize) -> Option<(Json, usize)> {
    let b = t.as_bytes();
    let ws = |mut i: usize| {
        while i < b.len() && matches!(b[i], b' ' | b'\n' | b'\t') {
            i += 1;
        }
        i
    };
    let string = |i: usize| -> Option<usize> {
        if b.get(i) != Some(&b'"') {
            return None;
        }
        let mut i = i + 1;
        loop {
            match *b.get(i)? {
                b'"' => return Some(i + 1),
                b'\\' => {
                    b.get(i + 1)?;
                    i += 1;
                    i += t[i..].chars().next()?.len_utf8();
                }
                _ => i += 1,
            }
        }
    };
    let digits = |mut i: usize| {
        let a = i;
        while i < b.len() && b[i].is_ascii_digit() {
            i += 1;
        }
        if i > a {
            Some(i)
        } else {
            None
        }
    };
    match b.get(at)? {
        b'[' => {
            let mut v = vec![];
            let mut i = ws(at + 1);
            if let Some((x, e)) = json_parse(t, i) {
                v.push(x);
                i = ws(e);
                while b.get(i) == Some(&b',') {
                    let (x, e) = match json_parse(t, ws(i + 1)) {
                        Some(r) => r,
                        None => return None,
                    };
                    v.push(x);
                    i = ws(e);
                }
            }
            if b.get(i) == Some(&b']') {
                Some((Json::List(v), i + 1))
            } else {
                None
            }
        }
        b'{' => {
            let mut v = vec![];
            let mut i = ws(at + 1);
            let pair = |i: usize| -> Option<((String, Json), usize)> {
                let e = string(i)?;
                if b.get(e) != Some(&b':') {
                    return None;
                }
                let (x, z) = json_parse(t, ws(e + 1))?;
                Some(((t[i + 1..e - 1].to_string(), x), ws(z)))
            };
            if let Some((p, e)) = pair(i) {
                v.push(p);
                i = e;
                while b.get(i) == Some(&b',') {
                    let (p, e) = pair(ws(i + 1))?;
                    v.push(p);
                    i = e;
                }
            }
            if b.get(i) == Some(&b'}') {
                Some((Json::Map(v), i + 1))
            } else {
                None
            }
        }
        b'"' => string(at).map(|e| (Json::Atom(t[at..e].to_string()), e)),
        _ => {
            for w in ["null", "true"] {
                if t[at..].starts_with(w) {
                    return Some((Json::Atom(w.to_string()), at + w.len()));
                }
            }
            let i = if b[at] == b'-' { at + 1 } else { at };
            let mut e = digits(i)?;
            if b.get(e) == Some(&b'.') {
                if let Some(z) = digits(e + 1) {
                    e = z;
                }
            }
            Some((Json::Atom(t[at..e].to_string()), e))
        }
    }
}

fn json_grammar() -> Vec<(String, G)> {
    let class = |r: &[(char, char)]| Re::Class(false, r.to_vec());
    let re = |n: &str, r: Re| G::Re(Some(n.to_string()), r, Flags::default());
    let ws = || G::Discard(b(G::Re(None, Re::Rep(b(Re::Class(false, vec![(' ', ' '), ('\n', '\n'), ('\t', '\t')])), 0, None, true), Flags::default())));
    let hide = |t: &str| G::Discard(b(lit(t)));
    let dig = || Re::Rep(b(class(&[('0', '9')])), 1, None, true);
    let num = Re::Cat(vec![Re::Rep(b(plain('-')), 0, Some(1), true), dig(), Re::Rep(b(Re::Cat(vec![plain('.'), dig()])), 0, Some(1), true)]);
    let seq = || G::Seq(Some("String".into()), "\"".into(), "\"".into(), "\\".into());
    let val = || G::Ref("value".into());
    let pair = G::Prog(Some("Pair".into()), vec![seq(), hide(":"), ws(), val(), ws()]);
    let list = |name: &str, open: &str, close: &str, item: G| {
        G::Prog(
            Some(name.to_string()),
            vec![
                G::Eq(None, Text::S(open.to_string())),
                ws(),
                G::Opt(b(G::Flat(None, b(prog(vec![item.clone(), G::Opt(b(G::Flat(None, b(G::Loop(Some(format!("{}More", name)), Span::From(0), vec![G::Flat(None, b(prog(vec![hide(","), ws(), item])))]))))) ]))))),
                hide(close),
            ],
        )
    };
    vec![
        (
            "value".into(),
            G::Switch(
                Some("Value".into()),
                vec![
                    list("List", "[", "]", G::Flat(None, b(prog(vec![val(), ws()])))),
                    list("Map", "{", "}", pair),
                    seq(),
                    G::Eq(Some("Word".into()), Text::S("null".into())),
                    G::Eq(Some("Word".into()), Text::S("true".into())),
                    re("Number", num),
                ],
            ),
        ),
    ]
}

fn json_of(d: &D) -> Option<Json> {
    match d.name.as_str() {
        "List" => Some(Json::List(d.kids.iter().skip(1).map(json_of).collect::<Option<_>>()?)),
        "Map" => Some(Json::Map(
            d.kids
                .iter()
                .skip(1)
                .map(|p| {
                    if p.name == "Pair" && p.kids.len() == 2 && p.kids[0].name == "String" {
                        Some((p.kids[0].captured.clone(), json_of(&p.kids[1])?))
                    } else {
                        None
                    }
                })
                .collect::<Option<_>>()?,
        )),
        "String" | "Word" | "Number" => Some(Json::Atom(d.matched.clone())),
        _ => None,
    }
}

fn parens_expect(t: &[u8], at: usize) -> (usize, usize) {
    // (end, groups) of a row of balanced groups
    let (mut i, mut n) = (at, 0);
    while t.get(i) == Some(&b'(') {
        let (e, m) = parens_expect(t, i + 1);
        if t.get(e) != Some(&b')') {
            break;
        }
        i = e + 1;
        n += m + 1;
    }
    (i, n)
}

pub fn p20(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[5, 3, 2]) {
        0 => {
            let wide = if s.chance(1, 12) { 120 } else { 4 };
            let depth = s.range(0, 5);
            let j = json_make(s, depth, wide);
            let mut text = String::new();
            json_text(s, &j, &mut text);
            let broken = s.chance(1, 3);
            if broken {
                text = gen::mutate(s, &text, &["[", "]", "{", "}", ",", ":", "\"", "\\", "1", "n", " "]);
            }
            let c = Case::new(Grammar { root: prog(vec![lit("^"), G::Ref("value".into())]), rules: json_grammar(), scopes: vec![] }, format!("^{}", text));
            obs.case(format!("a value of a data language: {:?}", text));
            let want = json_parse(&c.input, 1);
            obs.nontrivial_if(matches!(&want, Some((Json::List(v), _)) if !v.is_empty()) || matches!(&want, Some((Json::Map(v), _)) if !v.is_empty()) || (broken && text.len() > 10));
            obs.label(if want.is_some() { "in the language" } else { "not in the language" });
            match (real::run_styled(&c, s.below(5) as u8), want) {
                (Outcome::Fail, None) => Verdict::Pass,
                (Outcome::Token(d), Some((w, end))) => {
                    let got = d.kids.get(1).and_then(json_of);
                    if got.as_ref() != Some(&w) {
                        return fail(format!("expected {:?}, got {:?} from {}", w, got, d.brief()));
                    }
                    if d.mat != (0, end) {
                        return fail(format!("matched {:?}, expected to end at {}", d.mat, end));
                    }
                    Verdict::Pass
                }
                (o, w) => fail(format!("expected {:?}, got {}", w, o.brief())),
            }
        }
        1 => {
            // Balanced parentheses, also deep ones
            let n = count(s, 12, 120);
            let mut text = String::new();
            let deep = s.chance(1, 10);
            if deep {
                let d = s.range(1, 60);
                text.push_str(&"(".repeat(d));
                text.push_str(&")".repeat(d));
            } else {
                let mut open = 0;
                for _ in 0..n {
                    if s.chance(1, 2) && open > 0 {
                        text.push(')');
                        open -= 1;
                    } else if open < 50 {
                        text.push('(');
                        open += 1;
                    }
                }
                if s.chance(3, 4) {
                    text.push_str(&")".repeat(open));
                }
            }
                    let group = G::Prog(Some("Group".into()), vec![lit("("), G::Opt(b(G::Ref("row".into()))), lit(")")]);
            let row = G::Flat(None, b(G::Loop(None, Span::From(1), vec![G::Ref("group".into())])));
            let c = Case::new(Grammar { root: prog(vec![lit("^"), G::Opt(b(G::Ref("row".into())))]), rules: vec![("group".into(), group), ("row".into(), row)], scopes: vec![] }, format!("^{}", text));
            obs.case(format!("parentheses {:?}", text));
            let (end, groups) = parens_expect(text.as_bytes(), 0);
            obs.nontrivial_if(groups >= 3);
            match real::run(&c) {
                Outcome::Token(d) => {
                    let mut seen = 0;
                    let mut bad = false;
                    d.walk(&mut |t, _| {
                        if t.name == "Group" {
                            seen += 1;
                            let m = &t.matched;
                            bad |= parens_expect(m.as_bytes(), 0).0 != m.len();
                        }
                    });
                    if (d.mat.1, seen) != (end + 1, groups) || bad {
                        return fail(format!("expected {} groups up to {}, got {} up to {}", groups, end + 1, seen, d.mat.1));
                    }
                    Verdict::Pass
                }
                o => fail(o.brief()),
            }
        }
        _ => {
            // Mutually recursive rules of any shape
            let cfg = gen::core().rules(4).with(&[(K::Ref, 7), (K::RefAs, 3), (K::Store, 1), (K::StoreStr, 1), (K::Register, 1)]).depth(4);
            differential(s, obs, &cfg, |seen, _| seen.refs >= 3)
        }
    }
}

// ---------------------------------------------------------------- P21

pub fn p21(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg: Cfg = match s.weighted(&[3, 3, 2]) {
        0 => gen::full(),
        1 => gen::Cfg::new(&[(K::Eq, 5), (K::Re, 3), (K::Loop, 9), (K::Opt, 6), (K::Not, 4), (K::Null, 3), (K::Discard, 2), (K::Prog, 3), (K::Switch, 3), (K::Pin, 2), (K::Catch, 2), (K::StoreStr, 1), (K::AssertIf, 1), (K::AssertIfNot, 1), (K::Flat, 2), (K::Break, 1), (K::Seq, 2)]).depth(6),
        _ => gen::core().rules(4).with(&[(K::Ref, 8)]),
    };
    let c = gen::case(s, &cfg);
    obs.case(c.show());
    let (e, seen) = match expect(&c, obs) {
        Some(x) => x,
        None => return Verdict::Pass,
    };
    obs.nontrivial_if(seen.max_iter >= 2 || seen.zero_width_iter > 0 || seen.refs >= 2);
    obs.label_if(seen.zero_width_iter > 0, "a repetition of nothing");
    let budget = seen.leaves * 4 + 64;
    let mut used = 0;
    let got = real::guard(|| {
        let r = real::ready(&c, 1, budget);
        let o = r.parse();
        used = r.fuel.used();
        o
    });
    if let Outcome::Runaway(w) = &got {
        return fail(format!("the reference needs {} uses of a basic matcher; after {} the library was not done ({})", seen.leaves, budget, w));
    }
    if matches!(got, Outcome::Crash(_)) {
        return fail(format!("{}", got.brief()));
    }
    let _ = (e, used);
    Verdict::Pass
}
