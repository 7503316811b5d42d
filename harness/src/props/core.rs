//! What the properties of the parser share.

use crate::ast::*;
use crate::dump::{diff, Outcome, D};
use crate::engine::{Obs, Verdict};
use crate::gen::{self, Cfg, Gen};
use crate::model::{Model, Seen, Verdict as MV};
use crate::real;
use crate::src::Src;

/// What the reference says, or None if the case is outside of what the properties speak about
pub fn expect(c: &Case, obs: &mut Obs) -> Option<(Outcome, Seen)> {
    expect_with(c, obs, crate::model::MAX_STEPS, crate::model::MAX_DEPTH)
}

pub fn expect_with(c: &Case, obs: &mut Obs, steps: usize, depth: usize) -> Option<(Outcome, Seen)> {
    let (v, seen) = Model::run_with(c, steps, depth);
    match v {
        MV::Known(o) => Some((o, seen)),
        MV::Reject(why) => {
            obs.label(why);
            None
        }
    }
}

pub fn agree(e: &Outcome, g: &Outcome) -> Verdict {
    match diff(e, g) {
        None => Verdict::Pass,
        Some(d) => {
            let (x, y): (String, String) = (e.brief().chars().take(300).collect(), g.brief().chars().take(300).collect());
            Verdict::Fail(format!("{}; expected {} got {}", d, x, y))
        }
    }
}

pub fn fail<T: Into<String>>(t: T) -> Verdict {
    Verdict::Fail(t.into())
}

/// Compare the library with the reference on one generated case
pub fn differential(s: &mut Src, obs: &mut Obs, cfg: &Cfg, interesting: fn(&Seen, &Outcome) -> bool) -> Verdict {
    let c = gen::case(s, cfg);
    differential_case(s, obs, &c, interesting)
}

pub fn differential_case(s: &mut Src, obs: &mut Obs, c: &Case, interesting: fn(&Seen, &Outcome) -> bool) -> Verdict {
    let style = s.below(5) as u8;
    obs.case(format!("style {} {}", style, c.show()));
    let (e, seen) = match expect(c, obs) {
        Some(x) => x,
        None => return Verdict::Pass,
    };
    obs.label(match &e {
        Outcome::Token(_) => "result: token",
        Outcome::Fail => "result: no match",
        _ => "result: fatal error",
    });
    obs.nontrivial_if(interesting(&seen, &e));
    agree(&e, &real::run_styled(c, style))
}

/// Shape of an expected token tree for hand-written expectations
pub fn leaf(name: &str, a: usize, b: usize) -> (String, (usize, usize)) {
    (name.to_string(), (a, b))
}

pub fn kids(d: &D) -> Vec<(String, (usize, usize))> {
    d.kids.iter().map(|k| (k.name.clone(), k.mat)).collect()
}

/// A count that is small most of the time and now and then large
pub fn count(s: &mut Src, small: usize, large: usize) -> usize {
    match s.weighted(&[12, 4, 1]) {
        0 => s.range(0, small),
        1 => s.range(0, small * 3),
        _ => s.range(small, large),
    }
}

pub fn lit(t: &str) -> G {
    G::eq(t)
}

pub fn prog(v: Vec<G>) -> G {
    G::Prog(None, v)
}

pub fn grammar_only(s: &mut Src, cfg: &Cfg, depth: usize) -> G {
    let mut g = Gen::new(cfg);
    g.gen(s, depth)
}

/// Change every node of a grammar, from the leaves up
pub fn map_g(g: &G, f: &mut dyn FnMut(G) -> G) -> G {
    let mut list = |v: &Vec<G>, f: &mut dyn FnMut(G) -> G| v.iter().map(|x| map_g(x, f)).collect::<Vec<_>>();
    let h = match g {
        G::Prog(n, v) => G::Prog(n.clone(), list(v, f)),
        G::Switch(n, v) => G::Switch(n.clone(), list(v, f)),
        G::Loop(n, s, v) => G::Loop(n.clone(), *s, list(v, f)),
        G::Register(v) => G::Register(list(v, f)),
        G::Opt(x) => G::Opt(Box::new(map_g(x, f))),
        G::Not(x) => G::Not(Box::new(map_g(x, f))),
        G::Discard(x) => G::Discard(Box::new(map_g(x, f))),
        G::Flat(n, x) => G::Flat(n.clone(), Box::new(map_g(x, f))),
        G::Expand(x) => G::Expand(Box::new(map_g(x, f))),
        G::Store(n, x) => G::Store(n.clone(), Box::new(map_g(x, f))),
        G::SetScope(x) => G::SetScope(Box::new(map_g(x, f))),
        G::SetScopeWith(k, x) => G::SetScopeWith(*k, Box::new(map_g(x, f))),
        G::AssertIf(x, m) => G::AssertIf(Box::new(map_g(x, f)), *m),
        G::AssertIfNot(x, m) => G::AssertIfNot(Box::new(map_g(x, f)), *m),
        G::FatalIf(x, m) => G::FatalIf(Box::new(map_g(x, f)), *m),
        G::FatalIfNot(x, m) => G::FatalIfNot(Box::new(map_g(x, f)), *m),
        G::MapName(x, n) => G::MapName(Box::new(map_g(x, f)), n.clone()),
        G::MapAttrs(x, a) => G::MapAttrs(Box::new(map_g(x, f)), a.clone()),
        G::MapFail(x) => G::MapFail(Box::new(map_g(x, f))),
        G::Catch(x, a) => G::Catch(Box::new(map_g(x, f)), a.clone()),
        G::RefAs(n, To::M(x)) => G::RefAs(n.clone(), To::M(Box::new(map_g(x, f)))),
        G::Spy(n, c, x) => G::Spy(*n, *c, Box::new(map_g(x, f))),
        G::Pin(n, o, x) => G::Pin(n.clone(), o.clone(), x.as_ref().map(|x| Box::new(map_g(x, f)))),
        G::Debug(m, x) => G::Debug(*m, x.as_ref().map(|x| Box::new(map_g(x, f)))),
        other => other.clone(),
    };
    f(h)
}

pub fn map_grammar(g: &Grammar, f: &mut dyn FnMut(G) -> G) -> Grammar {
    Grammar {
        root: map_g(&g.root, f),
        rules: g.rules.iter().map(|(n, r)| (n.clone(), map_g(r, f))).collect(),
        scopes: g
            .scopes
            .iter()
            .map(|v| {
                v.iter()
                    .map(|(n, v)| match v {
                        Val::M(r) => (n.clone(), Val::M(map_g(r, f))),
                        v => (n.clone(), v.clone()),
                    })
                    .collect()
            })
            .collect(),
    }
}
