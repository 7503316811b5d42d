//! Matchers that are changed between parses.

use super::core::*;
use crate::ast::*;
use crate::dump::Outcome;
use crate::engine::{Obs, Verdict};
use crate::gen::{self, Gen, K};
use crate::real;
use crate::src::Src;
use adextopa_core::matcher::MatcherRef;
use std::rc::Rc;

/// The children that the matcher for this node has, for those that tell
fn kids_mut(g: &mut G) -> Vec<&mut G> {
    match g {
        G::Prog(_, v) | G::Switch(_, v) | G::Loop(_, _, v) | G::Register(v) => v.iter_mut().collect(),
        G::Opt(g)
        | G::Not(g)
        | G::Discard(g)
        | G::Flat(_, g)
        | G::Expand(g)
        | G::Store(_, g)
        | G::SetScope(g)
        | G::SetScopeWith(_, g)
        | G::AssertIf(g, _)
        | G::AssertIfNot(g, _)
        | G::FatalIf(g, _)
        | G::FatalIfNot(g, _)
        | G::MapName(g, _)
        | G::MapAttrs(g, _)
        | G::MapFail(g)
        | G::Spy(_, _, g)
        | G::Catch(g, _) => vec![g],
        G::Pin(_, _, g) => g.iter_mut().map(|g| &mut **g).collect(),
        G::Debug(_, g) => g.iter_mut().map(|g| &mut **g).collect(),
        _ => vec![],
    }
}

fn own_name(g: &G) -> String {
    let or = |n: &Option<String>, d: &str| n.clone().unwrap_or_else(|| d.to_string());
    match g {
        G::Own(_) => "Custom".into(),
        G::Eq(n, _) => or(n, "Equals"),
        G::Re(n, ..) => or(n, "Matches"),
        G::Seq(n, ..) | G::SeqOf(n, ..) => or(n, "Sequence"),
        G::Prog(n, _) => or(n, "Program"),
        G::Switch(n, _) => or(n, "Switch"),
        G::Loop(n, ..) => or(n, "Loop"),
        G::Flat(n, _) => or(n, "Flatten"),
        G::Pin(n, ..) => or(n, "Pin"),
        G::RefAs(n, _) => or(n, "Ref"),
        G::Ref(_) => "Ref".into(),
        G::Store(n, _) | G::StoreStr(n, _) => n.clone(),
        _ => String::new(),
    }
}

/// Does the matcher go by a name that it was given?
fn named(g: &G) -> bool {
    match g {
        G::Eq(n, _) | G::Re(n, ..) | G::Seq(n, ..) | G::SeqOf(n, ..) | G::Prog(n, _) | G::Switch(n, _) | G::Loop(n, ..) | G::Flat(n, _) | G::Pin(n, ..) | G::RefAs(n, _) => n.is_some(),
        G::Store(..) | G::StoreStr(..) => true,
        _ => false,
    }
}

/// What giving a matcher a name does
fn rename(g: &mut G, new: &str) {
    let but = |d: &str| if new == d { None } else { Some(new.to_string()) };
    match g {
        G::Eq(n, _) => *n = but("Equals"),
        G::Re(n, ..) => *n = but("Matches"),
        G::Seq(n, ..) | G::SeqOf(n, ..) => *n = but("Sequence"),
        G::Pin(n, ..) => *n = but("Pin"),
        G::Prog(n, _) | G::Switch(n, _) | G::Loop(n, ..) | G::Flat(n, _) | G::RefAs(n, _) => *n = Some(new.to_string()),
        G::Store(n, _) | G::StoreStr(n, _) => *n = new.to_string(),
        G::Ref(t) => *g = G::RefAs(Some(new.to_string()), To::Name(t.clone())),
        // These have no name of their own
        _ => {
            if !matches!(g, G::Register(_)) {
                for k in kids_mut(g) {
                    rename(k, new);
                }
            }
        }
    }
}

/// A random node that can be reached through `get_children`, and its matcher
fn walk<'a>(s: &mut Src, mut g: &'a mut G, mut m: MatcherRef) -> (&'a mut G, MatcherRef) {
    loop {
        let n = g.children().len();
        let stop = n == 0 || matches!(g, G::RefAs(..)) || s.chance(1, 3);
        if stop {
            return (g, m);
        }
        let i = s.below(n);
        let next = match m.borrow().get_children() {
            Some(v) if v.len() == n => v[i].clone(),
            other => panic!("{} children in place of {}", other.map_or(0, |v| v.len()), n),
        };
        g = kids_mut(g).swap_remove(i);
        m = next;
    }
}

fn same_shape(g: &G, m: &MatcherRef) -> Result<(), String> {
    let want = own_name(g);
    if !want.is_empty() && m.borrow().get_name() != want {
        return Err(format!("the name is {:?}, expected {:?}", m.borrow().get_name(), want));
    }
    if m.borrow().has_custom_name() != named(g) {
        return Err(format!("{:?} says it has {} name of its own", m.borrow().get_name(), if named(g) { "no" } else { "a" }));
    }
    if matches!(g, G::RefAs(..)) {
        return Ok(());
    }
    let kids = m.borrow().get_children().unwrap_or_default();
    if kids.len() != g.children().len() {
        return Err(format!("{:?} has {} children, expected {}", m.borrow().get_name(), kids.len(), g.children().len()));
    }
    if m.borrow().is_consuming() != g.is_consuming() {
        return Err(format!("{:?} says it is {}consuming", m.borrow().get_name(), if g.is_consuming() { "not " } else { "" }));
    }
    for (a, b) in g.children().iter().zip(&kids) {
        same_shape(a, b)?;
    }
    Ok(())
}

const NEW_NAMES: &[&str] = &["Alpha", "Beta", "Größe", "x1", "Equals", "Matches", "Loop", "Program", "Switch", "v", "w", "rule0"];

pub fn p25(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg = match s.weighted(&[4, 3, 2]) {
        0 => gen::core().names(6).depth(4),
        1 => gen::full().depth(4).with(&[(K::Debug, 1)]),
        _ => gen::core().rules(3).with(&[(K::Ref, 6), (K::RefAs, 2), (K::Register, 2), (K::Break, 2), (K::Store, 3), (K::EqVar, 3), (K::Discard, 3), (K::Not, 3)]).names(5).depth(4),
    };
    let mut c = gen::case(s, &cfg);
    let style = s.pick(&[0u8, 1, 2, 4]).clone();
    let raw = s.chance(2, 3);
    obs.case(format!("style {}{} {}", style, if raw { " raw" } else { "" }, c.show()));
    let ready = real::ready_as(&c, style, raw, real::FUEL);
    let mut changes = 0;
    let mut before: Option<Outcome> = None;
    for round in 0..s.range(2, 7) {
        if round > 0 {
            // The matchers that can be changed: the root's and the rules'
            let rules = c.g.rules.len();
            let (top, m) = match s.below(rules + 2) {
                i if i < rules => (&mut c.g.rules[i].1, ready.rules[i].1.clone()),
                _ => (&mut c.g.root, ready.root.clone()),
            };
            let (g, m) = walk(s, top, m);
            let mut maker = Gen::new(&cfg);
            maker.rule_names = ready.rules.iter().map(|r| r.0.clone()).collect();
            maker.vars = gen::VARS.iter().map(|v| v.to_string()).collect();
            maker.scopes = c.g.scopes.len();
            let fresh = |s: &mut Src, maker: &mut Gen| {
                let depth = s.below(3);
                let g = maker.gen(s, depth);
                let m = ready.builder.build(&g);
                (g, m)
            };
            let n = g.children().len();
            let can_set = n > 0 && !matches!(g, G::RefAs(..) | G::Pin(..) | G::Store(..) | G::Register(_));
            let can_add = matches!(g, G::Prog(..) | G::Switch(..) | G::Loop(..) | G::Register(_));
            match s.weighted(&[if can_set { 4 } else { 0 }, if can_add { 3 } else { 0 }, 2]) {
                0 if can_set => {
                    let i = s.below(n);
                    let (ng, nm) = fresh(s, &mut maker);
                    obs.case(format!("child {} of {:?} is now {:?}", i, g, ng));
                    *kids_mut(g).swap_remove(i) = ng;
                    m.borrow_mut().set_child(i, nm.clone());
                    let now = m.borrow().get_children().unwrap_or_default();
                    if now.len() != n || !Rc::ptr_eq(&now[i], &nm) {
                        return fail("the child that was set is not there");
                    }
                    obs.label("child set");
                }
                1 if can_add => {
                    let (ng, nm) = fresh(s, &mut maker);
                    obs.case(format!("{:?} gets {:?}", g, ng));
                    match g {
                        G::Prog(_, v) | G::Switch(_, v) | G::Loop(_, _, v) | G::Register(v) => v.push(ng),
                        _ => unreachable!(),
                    }
                    m.borrow_mut().add_pattern(nm.clone());
                    let now = m.borrow().get_children().unwrap_or_default();
                    if now.len() != n + 1 || !Rc::ptr_eq(&now[n], &nm) {
                        return fail("the pattern that was added is not there");
                    }
                    obs.label("pattern added");
                }
                _ => {
                    let name = s.pick(NEW_NAMES).to_string();
                    obs.case(format!("{:?} is called {:?}", g, name));
                    rename(g, &name);
                    m.borrow_mut().set_name(&name);
                    obs.label("name set");
                }
            }
            changes += 1;
            if s.chance(1, 2) {
                c.input = gen::input(s, &c.g, &cfg);
                c.window = None;
                obs.case(format!("text {:?}", c.input));
            } else {
                obs.case("same text".into());
            }
        }
        if raw {
            let tops = c.g.rules.iter().map(|r| &r.1).chain(Some(&c.g.root));
            for (g, m) in tops.zip(ready.rules.iter().map(|r| &r.1).chain(Some(&ready.root))) {
                if let Err(why) = same_shape(g, m) {
                    return fail(format!("after {} changes: {}", changes, why));
                }
            }
        }
        let (e, seen) = match expect(&c, obs) {
            Some(x) => x,
            None => continue,
        };
        let got = ready.parse_text(&c);
        match agree(&e, &got) {
            Verdict::Fail(why) => return fail(format!("after {} changes, on {:?}: {}", changes, c.input, why)),
            _ => {}
        }
        let known = matches!(e, Outcome::Token(_) | Outcome::Fatal(..));
        obs.nontrivial_if(changes > 0 && seen.steps > 4 && known && before.as_ref().map_or(false, |b| *b != e));
        before = Some(e);
    }
    Verdict::Pass
}
