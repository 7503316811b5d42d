//! P04 programs, P05 switches, P06 loops, P07 optional/not/discard, P14 breaks, P18 flatten and map.

use super::core::*;
use crate::ast::*;
use crate::dump::{Outcome, D};
use crate::engine::{Obs, Verdict};
use crate::gen::{self, Cfg, Gen, K};
use crate::model::{Model, Verdict as MV};
use crate::re::{Flags, Re};
use crate::real;
use crate::src::Src;

pub fn p04(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[2, 4, 2]) {
        0 => {
            // A row of literals, some of them discarded
            let n = count(s, 4, 200).max(1);
            let mut items = vec![];
            let mut text = String::new();
            let mut want = vec![];
            let mut cap: Option<(usize, usize)> = None;
            let mut last = 0;
            let pieces = gen::MIXED;
            let broken = if s.chance(1, 3) { Some(s.below(n)) } else { None };
            for i in 0..n {
                let t = s.text(pieces, 1, 2);
                let hide = s.chance(1, 4);
                let at = (text.len(), text.len() + t.len());
                items.push(if hide { G::Discard(Box::new(lit(&t))) } else { lit(&t) });
                if !hide {
                    want.push(leaf("Equals", at.0, at.1));
                    cap = Some(cap.map_or(at, |c| (c.0, at.1)));
                }
                if broken == Some(i) {
                    text.push('#');
                } else {
                    text.push_str(&t);
                    last = text.len();
                }
            }
            let tail = s.text(pieces, 0, 2);
            let first = if matches!(items[0], G::Discard(_)) { 0 } else { cap.map_or(0, |c| c.0) };
            let c = Case::new(Grammar::of(prog(items)), format!("{}{}", text, tail));
            obs.case(c.show());
            obs.nontrivial_if(n >= 3);
            let fails = broken.is_some() || want.is_empty();
            obs.label(if fails { "program fails" } else { "program matches" });
            match real::run(&c) {
                Outcome::Fail if fails => Verdict::Pass,
                Outcome::Token(d) if !fails => {
                    if kids(&d) != want {
                        fail(format!("children {:?}, expected {:?}", kids(&d), want))
                    } else if d.mat != (first, last) || Some(d.cap) != cap {
                        fail(format!("ranges {:?} {:?}, expected {:?} {:?}", d.mat, d.cap, (first, last), cap))
                    } else {
                        Verdict::Pass
                    }
                }
                o => fail(format!("expected {}, got {}", if fails { "no match" } else { "a token" }, o.brief())),
            }
        }
        1 => {
            let cfg = gen::Cfg::new(&[(K::Eq, 8), (K::Re, 3), (K::Seq, 1), (K::Prog, 8), (K::Switch, 2), (K::Opt, 2), (K::Discard, 2), (K::Loop, 1), (K::Flat, 1), (K::Own, 1)]).depth(5);
            differential(s, obs, &cfg, |seen, e| (e.is_token() && seen.steps >= 5) || seen.prog_rollback > 0)
        }
        _ => {
            // A program that fails part way leaves no trace: what comes next starts where it started
            let cfg = gen::Cfg::new(&[(K::Eq, 6), (K::Re, 2), (K::Prog, 5), (K::Opt, 1), (K::Discard, 1), (K::Switch, 1)]).depth(3).names(0);
            let mut g = Gen::new(&cfg);
            let body = g.make(s, K::Prog, 3);
            let fallback = Re::Rep(Box::new(Re::Any), 1, None, true);
            let never = G::Re(None, Re::Class(false, vec![('\u{1}', '\u{1}')]), Flags::default());
            let mut broken = vec![body.clone(), never];
            if s.chance(1, 3) {
                broken.insert(0, G::Opt(Box::new(lit("a"))));
            }
            let text = gen::sample(s, &Grammar::of(body)) + &s.text(gen::ASCII, 0, 2);
            let all = G::Re(None, fallback, Flags { s: true, ..Flags::default() });
            let c = Case::new(Grammar::of(prog(vec![lit("^"), G::Switch(None, vec![prog(broken), all.clone()])])), format!("^{}", text));
            let d = Case::new(Grammar::of(prog(vec![lit("^"), all])), c.input.clone());
            obs.case(c.show());
            obs.nontrivial_if(text.len() > 2);
            agree(&real::run(&d), &real::run(&c))
        }
    }
}

pub fn p05(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[3, 4, 3]) {
        0 => {
            let n = count(s, 5, 120).max(1);
            let al = &["a", "b", "é", "ab"];
            let alts: Vec<String> = (0..n).map(|_| s.text(al, 1, 3)).collect();
            let text = if s.chance(1, 4) { s.text(al, 0, 5) } else { format!("{}{}", s.pick(&alts).clone(), s.text(al, 0, 2)) };
            let named = s.chance(1, 2);
            let items: Vec<G> = alts.iter().enumerate().map(|(i, t)| G::Eq(if named { Some(format!("alt{}", i)) } else { None }, Text::S(t.clone()))).collect();
            let c = Case::new(Grammar::of(G::Switch(None, items)), text.clone());
            obs.case(c.show());
            let want = alts.iter().position(|a| text.starts_with(a.as_str()));
            obs.nontrivial_if(want.map_or(false, |w| w > 0));
            obs.label(match want {
                None => "no alternative matches",
                Some(0) => "first alternative",
                _ => "later alternative",
            });
            match (real::run(&c), want) {
                (Outcome::Fail, None) => Verdict::Pass,
                (Outcome::Token(d), Some(i)) => {
                    let name = if named { format!("alt{}", i) } else { "Equals".to_string() };
                    if d.name != name || d.mat != (0, alts[i].len()) {
                        fail(format!("expected alternative {} {:?}, got {}", i, alts[i], d.brief()))
                    } else {
                        Verdict::Pass
                    }
                }
                (o, w) => fail(format!("expected alternative {:?}, got {}", w, o.brief())),
            }
        }
        1 => {
            let cfg = gen::Cfg::new(&[(K::Eq, 8), (K::Re, 3), (K::Seq, 1), (K::Prog, 5), (K::Switch, 8), (K::Opt, 2), (K::Not, 1), (K::Discard, 2), (K::Loop, 2), (K::Flat, 1), (K::Error, 1), (K::Null, 1)])
                .depth(4)
                .pieces(&["a", "b", "ab", "aa", "c"]);
            differential(s, obs, &cfg, |seen, _| seen.switch_later > 0)
        }
        _ => {
            // More alternatives after the one that matched change nothing; nor do ones before that cannot match
            let cfg = gen::core().depth(3).pieces(&["a", "b", "ab", "é"]);
            let mut g = Gen::new(&cfg);
            let n = s.range(1, 4);
            let alts: Vec<G> = (0..n).map(|_| g.gen(s, 2)).collect();
            let extra = g.gen(s, 2);
            let before = s.chance(1, 2);
            let never = G::Re(None, Re::Class(false, vec![('\u{1}', '\u{1}')]), Flags::default());
            let mut more = alts.clone();
            if before {
                let at = s.below(more.len() + 1);
                let prefix = vec![G::Opt(Box::new(extra)), never];
                more.insert(at, prog(prefix));
            } else {
                more.push(extra);
            }
            let text = gen::sample(s, &Grammar::of(G::Switch(None, alts.clone()))) + &s.text(cfg.pieces, 0, 3);
            let mk = |v: Vec<G>| Case::new(Grammar::of(prog(vec![lit("^"), G::Switch(None, v)])), format!("^{}", text));
            let (a, b) = (mk(alts), mk(more));
            obs.case(format!("{} and {}", a.show(), b.show()));
            let x = real::run(&a);
            if x == Outcome::Fail && !before {
                return Verdict::Pass;
            }
            obs.nontrivial_if(x.is_token());
            agree(&x, &real::run(&b))
        }
    }
}

pub fn p06(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[4, 4, 2]) {
        0 => {
            let gcfg = gen::core();
            let g = Gen::new(&gcfg);
            let mut span = g.span(s);
            let big = s.chance(1, 16);
            if big {
                let a = s.range(0, 300);
                let b = a + s.range(0, 300);
                span = *s.pick(&[Span::From(a), Span::Incl(a, b.max(1)), Span::Excl(a, b.max(1)), Span::To(b.max(1)), Span::Full]);
            }
            let (min, max) = span.bounds();
            let there = match s.weighted(&[2, 2, 2, 1, 1, 2]) {
                0 => min,
                1 => max.min(min + 5),
                2 => max.saturating_add(1).min(min + 6),
                3 => min.saturating_sub(1),
                4 => 0,
                _ => {
                    let hi = if big { 700 } else { 8 };
                    s.range(0, hi)
                }
            };
            let unit = s.text(&["a", "é", "b", "日"], 1, 2);
            // A unit of two parts makes an iteration of two matchers
            let two = s.chance(1, 3);
            let items = if two { vec![lit(&unit), G::Discard(Box::new(lit(",")))] } else { vec![lit(&unit)] };
            let cell = if two { format!("{},", unit) } else { unit.clone() };
            let named = if s.chance(1, 4) { Some("Row".to_string()) } else { None };
            let name = named.clone().unwrap_or_else(|| "Loop".into());
            let root = prog(vec![lit("<"), G::Loop(named, span, items), G::Opt(Box::new(lit(">")))]);
            let c = Case::new(Grammar::of(root), format!("<{}>", cell.repeat(there)));
            obs.case(c.show());
            let n = there.min(max);
            let fails = n < min;
            obs.nontrivial_if(there > 1);
            obs.label(if fails {
                "fewer than the minimum"
            } else if there > max {
                "more than the maximum"
            } else if n == min {
                "exactly the minimum"
            } else {
                "between"
            });
            match real::run_styled(&c, s.below(5) as u8) {
                Outcome::Fail if fails => Verdict::Pass,
                Outcome::Token(d) if !fails => {
                    let end = 1 + n * cell.len();
                    let mut want = vec![leaf("Equals", 0, 1)];
                    if n > 0 {
                        want.push(leaf(&name, 1, end));
                    }
                    if there <= max {
                        want.push(leaf("Equals", end, end + 1));
                    }
                    if kids(&d) != want {
                        return fail(format!("{} iterations of {:?}: expected {:?}, got {:?}", there, span, want, kids(&d)));
                    }
                    if n > 0 {
                        let inner: Vec<_> = (0..n).map(|i| leaf("Equals", 1 + i * cell.len(), 1 + i * cell.len() + unit.len())).collect();
                        if kids(&d.kids[1]) != inner {
                            return fail(format!("iterations {:?}, expected {:?}", kids(&d.kids[1]).len(), inner.len()));
                        }
                    }
                    Verdict::Pass
                }
                o => fail(format!("{} there, {:?} wanted: got {}", there, span, o.brief().chars().take(300).collect::<String>())),
            }
        }
        1 => {
            let cfg = gen::Cfg::new(&[(K::Eq, 8), (K::Re, 2), (K::Prog, 3), (K::Switch, 3), (K::Loop, 8), (K::Opt, 2), (K::Discard, 2), (K::Not, 1), (K::Flat, 1), (K::Own, 1)])
                .depth(4)
                .pieces(&["a", "b", "ab", ",", "é"]);
            differential(s, obs, &cfg, |seen, _| seen.max_iter >= 2 || seen.loop_fail_min > 0)
        }
        _ => {
            // Iterations that consume nothing
            let cfg = gen::Cfg::new(&[(K::Eq, 4), (K::Re, 3), (K::Loop, 8), (K::Opt, 5), (K::Not, 3), (K::Null, 2), (K::Discard, 2), (K::Prog, 2)])
                .depth(4)
                .pieces(&["a", "b", "ab"]);
            differential(s, obs, &cfg, |seen, _| seen.zero_width_iter > 0)
        }
    }
}

fn tail() -> G {
    G::Re(Some("Tail".into()), Re::Rep(Box::new(Re::Any), 1, None, true), Flags { s: true, ..Flags::default() })
}

/// Discarding hides tokens, but neither errors, nor does it move the cursor elsewhere
fn discarded_errors(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg = gen::core().with(&[(K::Error, 5), (K::Pin, 5), (K::Own, 1)]).depth(3).names(1).pieces(gen::MIXED);
    let g = Gen::new(&cfg).gen(s, 3);
    let rest = Grammar::of(g.clone());
    let text = if s.chance(2, 3) { gen::sample(s, &rest) } else { gen::input(s, &rest, &cfg) };
    let text = format!("^{}{}", text, s.text(cfg.pieces, 0, 3));
    let with = |x: G| Case::new(Grammar::of(prog(vec![lit("^"), x, G::Opt(Box::new(tail()))])), text.clone());
    let plain = with(g.clone());
    obs.case(plain.show());
    if expect(&plain, obs).is_none() {
        return Verdict::Pass;
    }
    let base = real::run(&plain);
    let dis = real::run(&with(G::Discard(Box::new(g))));
    let seen = |o: &Outcome| {
        let d = o.token()?;
        let mut errors = vec![];
        d.walk(&mut |k: &D, _| {
            if k.flags & adextopa_core::token::IS_ERROR != 0 {
                errors.push(k.attrs.get("__message").cloned());
            }
        });
        errors.sort();
        let tail = d.kids.iter().find(|k| k.name == "Tail").map(|k| k.mat);
        Some((errors, tail))
    };
    let (a, b) = (seen(&base), seen(&dis));
    if let Some((errors, _)) = &a {
        obs.nontrivial_if(!errors.is_empty());
        obs.label_if(!errors.is_empty(), "errors in what is discarded");
        if a != b {
            return fail(format!("errors and tail are {:?}, discarded {:?}", a, b));
        }
    }
    Verdict::Pass
}

pub fn p07(s: &mut Src, obs: &mut Obs) -> Verdict {
    if s.chance(2, 5) {
        let cfg = gen::Cfg::new(&[(K::Eq, 8), (K::Re, 3), (K::Prog, 4), (K::Switch, 2), (K::Loop, 2), (K::Opt, 6), (K::Not, 6), (K::Discard, 6), (K::Flat, 1), (K::Seq, 1), (K::Own, 1)]).depth(5);
        return differential(s, obs, &cfg, |seen, e| e.is_token() && seen.steps > 6);
    }
    if s.chance(1, 4) {
        return discarded_errors(s, obs);
    }
    // The library against itself: what `g` does alone says what optional, not and discard must do
    let cfg = gen::core().with(&[(K::Opt, 3), (K::Discard, 3)]).depth(3).names(1).pieces(gen::MIXED);
    let mut gg = Gen::new(&cfg);
    let g = gg.gen(s, 3);
    let rest = Grammar::of(g.clone());
    let text = if s.chance(2, 3) { gen::sample(s, &rest) } else { gen::input(s, &rest, &cfg) };
    let text = format!("^{}{}", text, s.text(cfg.pieces, 0, 2));
    let tail = || G::Opt(Box::new(tail()));
    let with = |x: G| Case::new(Grammar::of(prog(vec![lit("^"), x, tail()])), text.clone());
    let plain = with(g.clone());
    obs.case(plain.show());
    if expect(&plain, obs).is_none() {
        return Verdict::Pass;
    }
    let base = real::run(&plain);
    let none = real::run(&Case::new(Grammar::of(prog(vec![lit("^"), tail()])), text.clone()));
    let b = |g: &G| Box::new(g.clone());
    let tail_of = |o: &Outcome| o.token().and_then(|d| d.kids.last().filter(|k| k.name == "Tail").map(|k| k.mat));
    let consumed = match (&base, tail_of(&base)) {
        (Outcome::Token(_), Some(r)) => r.0 > 1,
        (Outcome::Token(_), None) => text.len() > 1,
        _ => false,
    };
    obs.nontrivial_if(consumed);
    obs.label(match &base {
        Outcome::Token(_) if consumed => "inner matches",
        Outcome::Token(_) => "inner matches nothing",
        _ => "inner does not match",
    });
    let opt = real::run(&with(G::Opt(b(&g))));
    let not = real::run(&with(G::Not(b(&g))));
    let notnot = real::run(&with(G::Not(Box::new(G::Not(b(&g))))));
    let dis = real::run(&with(G::Discard(b(&g))));
    match &base {
        Outcome::Token(d) => {
            if let Verdict::Fail(m) = agree(&base, &opt) {
                return fail(format!("optional changed a match: {}", m));
            }
            let dd = match &dis {
                Outcome::Token(dd) => dd,
                o => return fail(format!("discard made it {}", o.brief())),
            };
            let mut want = vec![kids(d)[0].clone()];
            if let Some(r) = tail_of(&base) {
                want.push(leaf("Tail", r.0, r.1));
            }
            if kids(dd) != want {
                return fail(format!("discarded: children {:?}, expected {:?}", kids(dd), want));
            }
            if consumed {
                if not != Outcome::Fail {
                    return fail(format!("not matched although its matcher does: {}", not.brief()));
                }
                if let Verdict::Fail(m) = agree(&none, &notnot) {
                    return fail(format!("not not should match without consuming: {}", m));
                }
            }
        }
        Outcome::Fail => {
            for (what, o) in [("optional", &opt), ("not", &not)] {
                if let Verdict::Fail(m) = agree(&none, o) {
                    return fail(format!("{} of something that does not match: {}", what, m));
                }
            }
            if dis != Outcome::Fail {
                return fail(format!("discard of something that does not match: {}", dis.brief()));
            }
        }
        o => return fail(o.brief()),
    }
    Verdict::Pass
}

pub fn p14(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[4, 3]) {
        0 => {
            // Rows of cells: `;` ends a row (inner loop), `!` ends everything (outer loop)
            let own = s.chance(1, 2);
            // Names that look alike are still two names
            let (outer_name, inner_name) = *s.pick(&[("Outer", "Inner"), ("Row", "RowCells"), ("RowCells", "Row"), ("Rows", "rows"), ("Cells", "ells"), ("Loop", "Loop2"), ("é", "e"), ("A", "A B")]);
            let inner_label = if own { "".to_string() } else { inner_name.to_string() };
            let inner = G::Loop(
                Some(inner_name.into()),
                Span::From(0),
                vec![G::Switch(
                    None,
                    vec![
                        prog(vec![lit("!"), G::Break(outer_name.into())]),
                        prog(vec![lit(";"), G::Break(inner_label)]),
                        lit("a"),
                        lit("é"),
                    ],
                )],
            );
            let outer = G::Loop(Some(outer_name.into()), Span::From(0), vec![inner]);
            let text = match s.below(10) {
                0 => s.text(&["a", "é", ";", "a", "a", "é"], 30, 200) + "!a;",
                _ => s.text(&["a", "é", ";", "a", "!"], 1, 14),
            };
            let c = Case::new(Grammar::of(prog(vec![lit("<"), outer, tail()])), format!("<{}$", text));
            obs.case(c.show());
            // Rows as a plain split would give them
            let mut rows: Vec<Vec<(usize, usize, bool)>> = vec![];
            let mut row = vec![];
            let mut at = 1;
            let mut stopped = false;
            for ch in text.chars() {
                let r = (at, at + ch.len_utf8(), ch == ';' || ch == '!');
                at = r.1;
                row.push(r);
                if ch == '!' {
                    stopped = true;
                    break;
                }
                if ch == ';' {
                    rows.push(std::mem::take(&mut row));
                }
            }
            if !row.is_empty() {
                rows.push(row);
            }
            obs.nontrivial_if(stopped && rows.len() >= 2);
            obs.label_if(stopped, "outer loop ended by a break");
            let d = match real::run(&c) {
                Outcome::Token(d) => d,
                o => return fail(o.brief()),
            };
            if d.kids.len() != 3 || d.kids[1].name != outer_name || d.kids[2].mat != (at, c.input.len()) {
                return fail(format!("expected rows to end at {}, got {}", at, d.brief()));
            }
            let got: Vec<Vec<(usize, usize, bool)>> =
                d.kids[1].kids.iter().map(|r| r.kids.iter().map(|k| (k.mat.0, k.mat.1, k.name == "Program")).collect()).collect();
            if got != rows {
                return fail(format!("rows {:?}, expected {:?}", got, rows));
            }
            Verdict::Pass
        }
        _ => {
            let cfg = gen::Cfg::new(&[(K::Eq, 8), (K::Re, 1), (K::Prog, 5), (K::Switch, 4), (K::Loop, 6), (K::Opt, 2), (K::Discard, 2), (K::Break, 5), (K::Flat, 1), (K::Not, 1), (K::Ref, 1), (K::Own, 1)])
                .depth(5)
                .names(3)
                .pieces(&["a", "b", "ab", ";", "é"]);
            differential(s, obs, &cfg, |seen, e| seen.breaks > 0 && e.is_token())
        }
    }
}

pub fn p18(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[4, 4]) {
        0 => {
            let cfg = gen::Cfg::new(&[
                (K::Eq, 8),
                (K::Re, 2),
                (K::Seq, 1),
                (K::Prog, 5),
                (K::Switch, 2),
                (K::Loop, 3),
                (K::Opt, 2),
                (K::Discard, 2),
                (K::Flat, 6),
                (K::Expand, 3),
                (K::MapName, 3),
                (K::MapAttrs, 3),
                (K::MapFail, 2),
                (K::Catch, 2),
                (K::Own, 1),
            ])
            .depth(5)
            .pieces(gen::MIXED);
            let c = gen::case(s, &cfg);
            let used = c.g.root.any(&|g| matches!(g, G::Flat(..) | G::Expand(_) | G::MapName(..) | G::MapAttrs(..) | G::Catch(..)));
            let token = used && expect(&c, obs).map_or(false, |e| e.0.is_token());
            obs.nontrivial_if(token);
            differential_case(s, obs, &c, |_, _| false)
        }
        _ => {
            // Flattening a program into the one around it is the same as writing its items there
            let cfg = gen::core().depth(3).with(&[(K::Discard, 4)]).pieces(gen::MIXED);
            let mut g = Gen::new(&cfg);
            let n = s.range(1, 3);
            let a: Vec<G> = (0..n).map(|_| g.gen(s, 2)).collect();
            let n = s.range(1, 3);
            let b: Vec<G> = (0..n).map(|_| g.gen(s, 2)).collect();
            let inner = prog(b.clone());
            let inner = if s.chance(1, 3) { G::Flat(None, Box::new(prog(vec![G::Flat(None, Box::new(inner))]))) } else { G::Flat(None, Box::new(inner)) };
            let mut flat = vec![lit("^")];
            flat.extend(a.clone());
            flat.push(inner);
            flat.push(G::Opt(Box::new(tail())));
            let mut plain = vec![lit("^")];
            plain.extend(a.clone());
            plain.extend(b.clone());
            plain.push(G::Opt(Box::new(tail())));
            let text = format!("^{}{}", gen::sample(s, &Grammar::of(prog([a, b.clone()].concat()))), s.text(cfg.pieces, 0, 2));
            let x = Case::new(Grammar::of(prog(plain)), text.clone());
            let y = Case::new(Grammar::of(prog(flat)), text.clone());
            obs.case(y.show());
            // A program that collects nothing does not match, so the inner one has to collect something
            let alone = Case::new(y.g.clone(), text);
            let (e, _) = match expect(&alone, obs) {
                Some(e) => e,
                None => return Verdict::Pass,
            };
            if !e.is_token() {
                obs.label("inner program does not match");
                return Verdict::Pass;
            }
            obs.nontrivial();
            let (p, q) = (real::run(&x), real::run(&y));
            let (p, q) = match (p, q) {
                (Outcome::Token(p), Outcome::Token(q)) => (p, q),
                (p, q) => return fail(format!("written out: {}, flattened: {}", p.brief(), q.brief())),
            };
            if kids(&p) != kids(&q) {
                return fail(format!("written out: {}, flattened: {}", p.brief(), q.brief()));
            }
            if q.kids.iter().any(|k| k.parent != Some((q.name.clone(), q.mat))) {
                return fail(format!("a flattened child has another parent: {}", q.brief()));
            }
            Verdict::Pass
        }
    }
}

/// What a program or loop does with the answers of matchers that are not the library's
pub fn p24(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[3, 5, 3]) {
        0 => {
            // A row is cells up to `;`, and then `,`. With `!` the row is over, and no `,` follows.
            let (outer_name, inner_name) = *s.pick(&[("Outer", "Inner"), ("Row", "RowCells"), ("Rows", "rows"), ("Loop2", "Loop3"), ("é", "e")]);
            let mut next = G::Own(Own::Continue(outer_name.into()));
            for _ in 0..s.below(3) {
                next = match s.below(4) {
                    0 => G::Switch(None, vec![lit("zz"), next]),
                    1 => G::Opt(Box::new(next)),
                    2 => G::SetScope(Box::new(next)),
                    _ => G::MapName(Box::new(next), "n".into()),
                };
            }
            let inner = G::Loop(
                Some(inner_name.into()),
                Span::From(0),
                vec![G::Switch(None, vec![prog(vec![lit("!"), next]), prog(vec![lit(";"), G::Break(String::new())]), lit("a"), lit("é")])],
            );
            let after = G::Discard(Box::new(lit(",")));
            let outer = G::Loop(Some(outer_name.into()), Span::From(0), vec![inner, after]);
            let n = count(s, 6, 120);
            let mut text = String::from("<");
            let mut rows: Vec<Vec<(usize, usize)>> = vec![];
            let mut early = 0;
            for _ in 0..n {
                let mut row = vec![];
                for _ in 0..s.below(4) {
                    let t = *s.pick(&["a", "é"]);
                    row.push((text.len(), text.len() + t.len()));
                    text.push_str(t);
                }
                row.push((text.len(), text.len() + 1));
                if s.chance(1, 2) {
                    text.push('!');
                    early += 1;
                } else {
                    text.push_str(";,");
                }
                rows.push(row);
            }
            let end = text.len();
            text.push('$');
            let mut items = vec![lit("<"), outer, tail()];
            if rows.is_empty() {
                items[1] = G::Opt(Box::new(items[1].clone()));
            }
            let c = Case::new(Grammar::of(prog(items)), text);
            obs.case(c.show());
            obs.nontrivial_if(early >= 1 && rows.len() >= 2);
            obs.label_if(early > 0, "iteration ended early");
            let d = match real::run(&c) {
                Outcome::Token(d) => d,
                o => return fail(o.brief()),
            };
            let at = if rows.is_empty() { 1 } else { 2 };
            if d.kids.len() != at + 1 || d.kids[at].mat != (end, end + 1) {
                return fail(format!("expected rows to end at {}, got {}", end, d.brief()));
            }
            let got: Vec<Vec<(usize, usize)>> = if rows.is_empty() {
                vec![]
            } else {
                d.kids[1].kids.iter().map(|r| r.kids.iter().map(|k| k.mat).collect()).collect()
            };
            if got != rows {
                return fail(format!("rows {:?}, expected {:?}", got, rows));
            }
            Verdict::Pass
        }
        1 => {
            let cfg = gen::Cfg::new(&[
                (K::Eq, 6),
                (K::Own, 6),
                (K::Prog, 5),
                (K::Switch, 3),
                (K::Loop, 6),
                (K::Opt, 2),
                (K::Discard, 2),
                (K::Break, 1),
                (K::Flat, 1),
                (K::Not, 1),
                (K::Ref, 1),
                (K::MapName, 1),
                (K::Store, 1),
                (K::SetScope, 1),
                (K::Catch, 1),
                (K::Expand, 1),
                (K::Debug, 1),
            ])
            .depth(5)
            .names(3)
            .pieces(&["a", "b", "ab", ";", "é"]);
            differential(s, obs, &cfg, |seen, e| (seen.continues > 0 || seen.stops > 0 || seen.skips > 0) && e.is_token())
        }
        _ => {
            // A matcher that answers with nothing is as if it weren't there, and so is what follows a stop
            let cfg = gen::core().depth(3).with(&[(K::Own, 2), (K::Break, 1)]).pieces(gen::MIXED);
            let g = grammar_only(s, &cfg, 3);
            let rest: Vec<G> = (0..s.below(3)).map(|_| grammar_only(s, &cfg, 2)).collect();
            let text = format!("^{}{}", gen::sample(s, &Grammar::of(g.clone())), s.text(cfg.pieces, 0, 2));
            let plain = Case::new(Grammar::of(prog(vec![lit("^"), g.clone(), G::Opt(Box::new(tail()))])), text.clone());
            let stop = s.chance(1, 2);
            let mut items = vec![lit("^"), g, G::Opt(Box::new(tail()))];
            if stop {
                items.push(G::Own(Own::Stop));
                items.extend(rest);
            }
            let mut places = 0;
            let other = if stop {
                prog(items)
            } else {
                map_g(&prog(items), &mut |g| match g {
                    G::Prog(n, mut v) => {
                        if s.chance(1, 2) {
                            places += 1;
                            let at = s.below(v.len() + 1);
                            v.insert(at, G::Own(Own::Nothing));
                        }
                        G::Prog(n, v)
                    }
                    G::Switch(n, mut v) => {
                        if s.chance(1, 2) {
                            places += 1;
                            let at = s.below(v.len() + 1);
                            v.insert(at, G::Own(Own::Nothing));
                        }
                        G::Switch(n, v)
                    }
                    g => g,
                })
            };
            let c = Case::new(Grammar::of(other), text);
            obs.case(c.show());
            let x = match expect(&plain, obs) {
                Some((e, _)) => e,
                None => return Verdict::Pass,
            };
            obs.nontrivial_if(x.is_token() && (stop || places > 0));
            agree(&real::run(&plain), &real::run(&c))
        }
    }
}

/// Callbacks and matchers of one's own, and what each of them is shown
pub fn p27(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut cfg = Cfg::new(&[
        (K::Eq, 14),
        (K::Re, 2),
        (K::Seq, 1),
        (K::Prog, 8),
        (K::Switch, 5),
        (K::Loop, 5),
        (K::Opt, 2),
        (K::Not, 2),
        (K::Discard, 2),
        (K::Flat, 2),
        (K::Expand, 1),
        (K::Pin, 1),
        (K::Store, 3),
        (K::StoreStr, 3),
        (K::EqVar, 2),
        (K::Ref, 3),
        (K::RefAs, 1),
        (K::Register, 1),
        (K::SetScope, 2),
        (K::SetScopeWith, 1),
        (K::Break, 1),
        (K::Error, 1),
        (K::Panic, 1),
        (K::AssertIf, 1),
        (K::AssertIfNot, 1),
        (K::FatalIf, 1),
        (K::FatalIfNot, 1),
        (K::MapName, 1),
        (K::MapAttrs, 1),
        (K::MapFail, 1),
        (K::Catch, 1),
        (K::Debug, 1),
        (K::Null, 1),
        (K::Own, 3),
        (K::Spy, 4),
    ])
    .rules(2);
    if s.chance(1, 3) {
        cfg = cfg.pieces(crate::gen::MIXED);
    }
    let mut c = gen::case(s, &cfg);
    if s.chance(7, 8) {
        let mut id = 100;
        let share = s.range(2, 6);
        c.g = map_grammar(&c.g, &mut |g| {
            if !s.chance(1, share) {
                return g;
            }
            id += 1;
            G::Spy(id, s.chance(1, 3), Box::new(g))
        });
    }
    let style = s.below(5) as u8;
    obs.case(format!("style {} {}", style, c.show()));
    let (v, seen) = Model::run_noting(&c, crate::model::MAX_STEPS, crate::model::MAX_DEPTH, true);
    let e = match v {
        MV::Known(o) => o,
        MV::Reject(why) => {
            obs.label(why);
            return Verdict::Pass;
        }
    };
    obs.nontrivial_if(seen.notes.len() >= 4);
    obs.label_if(seen.notes.iter().any(|n| n.contains(" took ")), "a token was shown");
    obs.label_if(seen.notes.iter().any(|n| n.contains(" failed ")), "a failure was shown");
    obs.label_if(seen.notes.iter().any(|n| n.contains(" fatal ")), "a fatal error was shown");
    obs.label_if(seen.notes.len() >= 20, "20 calls or more");
    let notes: real::Notes = Default::default();
    let g = real::guard(|| {
        let mut b = real::Builder::new(style, real::FUEL);
        b.notes = Some(notes.clone());
        real::ready_from(&c, b).parse()
    });
    if let v @ Verdict::Fail(_) = agree(&e, &g) {
        return v;
    }
    let got = notes.borrow();
    for (k, (e, g)) in seen.notes.iter().zip(got.iter()).enumerate() {
        if e != g {
            return fail(format!("call {}: expected `{}`, got `{}`", k, e, g));
        }
    }
    if seen.notes.len() != got.len() {
        return fail(format!("expected {} calls, got {}", seen.notes.len(), got.len()));
    }
    Verdict::Pass
}

/// Grammars that mean the same, one place at a time. `item` says that the node is one of the items
/// of a program or loop. What is None stays as it is.
fn alike(s: &mut Src, g: &G, item: bool, vars: bool, fresh: &mut usize, rules: &mut Vec<(String, G)>) -> Option<(G, &'static str)> {
    let never = || G::Re(None, Re::Class(false, vec![('\u{1}', '\u{1}')]), Flags::default());
    // Fails, or answers with a token that takes space
    let solid = |g: &G| matches!(g, G::Eq(..) | G::Seq(..) | G::Prog(..));
    let text = |g: &G| matches!(g, G::Eq(..) | G::Seq(..));
    // Has no effect but its result
    let pure = |g: &G| !g.any(&|g| !matches!(g, G::Eq(_, Text::S(_)) | G::Re(..) | G::Seq(..) | G::Prog(..) | G::Switch(..) | G::Loop(..) | G::Opt(_) | G::Not(_) | G::Discard(_) | G::Flat(..) | G::Expand(_) | G::Error(_) | G::MapName(..)));
    let b = |g: &G| Box::new(g.clone());
    *fresh += 1;
    let name = format!("fresh{}", fresh);
    Some(match s.below(12) {
        0 if g.is_consuming() => {
            rules.push((name.clone(), g.clone()));
            (G::Ref(name), "a rule of its own")
        }
        1 if g.is_consuming() => (G::RefAs(None, To::M(b(g))), "a reference"),
        2 if !vars => (G::SetScope(b(g)), "a scope of its own"),
        3 => (G::Store(name, b(g)), "stored"),
        4 if solid(g) || matches!(g, G::Panic(_)) => {
            let mut v = vec![g.clone()];
            if s.chance(1, 2) {
                v.insert(0, never());
            }
            if s.chance(1, 2) {
                v.insert(0, G::Null);
            }
            (G::Switch(None, v), "the only alternative that matches")
        }
        5 if g.is_consuming() => (G::Spy(900, true, b(g)), "a catch that passes on what it gets"),
        6 if solid(g) => (G::Spy(901, false, b(g)), "a map that passes on what it gets"),
        7 if item && solid(g) => (G::Flat(None, Box::new(prog(vec![g.clone()]))), "a flattened program of one item"),
        8 => (G::Debug(0, Some(b(g))), "debug"),
        _ => match g {
            G::Prog(n, v) | G::Loop(n, _, v) => {
                let is_loop = matches!(g, G::Loop(..));
                let again = |v: Vec<G>| match g {
                    G::Loop(n, span, _) => G::Loop(n.clone(), *span, v),
                    _ => G::Prog(n.clone(), v),
                };
                match s.below(5) {
                    0 if v.len() >= 2 && !is_loop => {
                        let at = s.below(v.len());
                        let to = s.range(at + 1, v.len());
                        // An error widens what the program around it has captured
                        let errs = |g: &G| matches!(g, G::Error(_) | G::AssertIf(..) | G::AssertIfNot(..) | G::Ref(_) | G::RefAs(..));
                        if !solid(&v[at]) || v[at..to].iter().any(|g| g.any(&errs)) {
                            return None;
                        }
                        let mut w = v[..at].to_vec();
                        w.push(G::Flat(None, Box::new(prog(v[at..to].to_vec()))));
                        w.extend_from_slice(&v[to..]);
                        (G::Prog(n.clone(), w), "items in a flattened program")
                    }
                    1 if is_loop && v.len() == 1 => match g {
                        G::Loop(n, Span::From(0), v) if solid(&v[0]) => (G::Opt(Box::new(G::Loop(n.clone(), Span::From(1), v.clone()))), "an optional repetition"),
                        G::Loop(n, Span::Incl(1, 1), v) if text(&v[0]) => {
                            (G::MapName(Box::new(prog(v.clone())), n.clone().unwrap_or("Loop".into())), "a repetition of one")
                        }
                        G::Loop(n, Span::From(a), v) => (G::Loop(n.clone(), Span::Incl(*a, 9_999), v.clone()), "a maximum that is out of reach"),
                        _ => return None,
                    },
                    2 => {
                        let mut v = v.clone();
                        let at = s.below(v.len() + 1);
                        v.insert(
                            at,
                            match s.below(5) {
                                0 => G::Null,
                                1 => G::StoreStr(name, "x".into()),
                                2 => G::Register(vec![]),
                                3 => G::Opt(Box::new(never())),
                                _ => G::Not(Box::new(never())),
                            },
                        );
                        (again(v), "an item without effect")
                    }
                    _ => {
                        let like = s.pick(v).clone();
                        if !pure(&like) {
                            return None;
                        }
                        let failing = prog(vec![like, never()]);
                        let mut v = v.clone();
                        let at = s.below(v.len() + 1);
                        v.insert(at, if s.chance(1, 2) { G::Opt(Box::new(failing)) } else { G::Not(Box::new(failing)) });
                        (again(v), "an attempt that fails")
                    }
                }
            }
            G::Switch(n, v) => match s.below(3) {
                0 if v.len() >= 2 => {
                    let at = s.below(v.len());
                    let to = s.range(at + 1, v.len());
                    let mut w = v[..at].to_vec();
                    w.push(G::Switch(None, v[at..to].to_vec()));
                    w.extend_from_slice(&v[to..]);
                    (G::Switch(n.clone(), w), "alternatives of alternatives")
                }
                1 => {
                    let mut v = v.clone();
                    let again = s.pick(&v).clone();
                    let first = v.iter().position(|x| *x == again).unwrap();
                    if !pure(&again) {
                        return None;
                    }
                    let at = s.range(first + 1, v.len());
                    v.insert(at, again);
                    (G::Switch(n.clone(), v), "an alternative a second time")
                }
                _ => {
                    let like = s.pick(v).clone();
                    if !pure(&like) {
                        return None;
                    }
                    let mut v = v.clone();
                    let at = s.below(v.len() + 1);
                    v.insert(at, if text(&like) && s.chance(1, 2) { G::MapFail(Box::new(like)) } else { prog(vec![like, never()]) });
                    (G::Switch(n.clone(), v), "an alternative that fails late")
                }
            },
            G::Opt(x) => match s.below(2) {
                0 => (G::Opt(b(g)), "optional twice"),
                1 if x.is_consuming() => (G::Catch(x.clone(), CatchAct::Recover), "optional by a catch"),
                _ => return None,
            },
            G::Catch(x, CatchAct::Recover) if x.is_consuming() => (G::Opt(x.clone()), "a catch as optional"),
            G::Flat(..) => (G::Flat(None, b(g)), "flattened twice"),
            G::Expand(..) => (G::Expand(b(g)), "expanded twice"),
            G::Discard(x) => match s.below(4) {
                0 => (G::Discard(b(g)), "discarded twice"),
                1 => (G::Discard(Box::new(G::Flat(None, x.clone()))), "flattened and discarded"),
                2 => (G::Discard(Box::new(G::Expand(x.clone()))), "expanded and discarded"),
                3 if solid(x) => (G::Discard(Box::new(G::MapName(x.clone(), "Other".into()))), "renamed and discarded"),
                _ => return None,
            },
            G::Eq(None, Text::S(t)) => (G::MapName(Box::new(G::Re(None, Re::Cat(t.chars().map(Re::Lit).collect()), Flags::default())), "Equals".into()), "a literal as a regex"),
            _ => return None,
        },
    })
}

/// Apply `alike` at random places
fn all_alike(s: &mut Src, g: &G, item: bool, vars: bool, share: usize, fresh: &mut usize, rules: &mut Vec<(String, G)>, used: &mut Vec<&'static str>) -> G {
    let mut list = |s: &mut Src, v: &Vec<G>, item: bool| v.iter().map(|x| all_alike(s, x, item, vars, share, fresh, rules, used)).collect::<Vec<_>>();
    let mut h = match g {
        G::Prog(n, v) => G::Prog(n.clone(), list(s, v, true)),
        G::Loop(n, r, v) => G::Loop(n.clone(), *r, list(s, v, true)),
        G::Switch(n, v) => G::Switch(n.clone(), list(s, v, false)),
        G::Opt(x) => G::Opt(Box::new(all_alike(s, x, item, vars, share, fresh, rules, used))),
        other => {
            let kids = other.children().len();
            if kids == 0 {
                other.clone()
            } else {
                // One child, which is changed in place
                let inner = all_alike(s, other.children()[0], false, vars, share, fresh, rules, used);
                replace_child(other, inner)
            }
        }
    };
    while s.chance(1, share) {
        match alike(s, &h, item, vars, fresh, rules) {
            Some((x, why)) => {
                h = x;
                used.push(why);
            }
            None => break,
        }
    }
    h
}

fn replace_child(g: &G, x: G) -> G {
    let b = Box::new(x);
    match g {
        G::Not(_) => G::Not(b),
        G::Discard(_) => G::Discard(b),
        G::Flat(n, _) => G::Flat(n.clone(), b),
        G::Expand(_) => G::Expand(b),
        G::Store(n, _) => G::Store(n.clone(), b),
        G::SetScope(_) => G::SetScope(b),
        G::AssertIf(_, m) => G::AssertIf(b, *m),
        G::AssertIfNot(_, m) => G::AssertIfNot(b, *m),
        G::FatalIf(_, m) => G::FatalIf(b, *m),
        G::FatalIfNot(_, m) => G::FatalIfNot(b, *m),
        G::MapName(_, n) => G::MapName(b, n.clone()),
        G::MapAttrs(_, a) => G::MapAttrs(b, a.clone()),
        G::MapFail(_) => G::MapFail(b),
        G::Catch(_, a) => G::Catch(b, a.clone()),
        G::Pin(n, o, Some(_)) => G::Pin(n.clone(), o.clone(), Some(b)),
        other => other.clone(),
    }
}

/// Where an error is said to begin depends on the program around it, which is not what this is about
fn plain_errors(o: Outcome) -> Outcome {
    fn tail(m: &str) -> String {
        m.splitn(3, ": ").last().unwrap_or("").to_string()
    }
    fn clean(d: &mut D) {
        if d.flags & 2 != 0 {
            d.parent = None;
            d.cap = (0, 0);
            d.mat = (0, 0);
            d.value.clear();
            d.captured.clear();
            d.matched.clear();
            if let Some(m) = d.attrs.get_mut("__message") {
                *m = tail(m);
            }
        }
        d.parent = d.parent.take().map(|(n, _)| (n, (0, 0)));
        for k in d.kids.iter_mut() {
            clean(k);
        }
    }
    match o {
        Outcome::Token(mut d) => {
            clean(&mut d);
            Outcome::Token(d)
        }
        Outcome::Fatal(m, _) => Outcome::Fatal(tail(&m), None),
        o => o,
    }
}

/// Ways to write the same grammar
pub fn p28(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut cfg = gen::core().rules(2).with(&[
        (K::Ref, 2),
        (K::Expand, 1),
        (K::Break, 1),
        (K::Error, 1),
        (K::Panic, 1),
        (K::AssertIf, 1),
        (K::AssertIfNot, 1),
        (K::FatalIf, 1),
        (K::FatalIfNot, 1),
        (K::MapName, 1),
        (K::MapAttrs, 1),
        (K::MapFail, 1),
        (K::Catch, 1),
        (K::Null, 1),
    ]);
    if s.chance(1, 3) {
        cfg = cfg.pieces(gen::MIXED);
    }
    let vars = s.chance(1, 2);
    if vars {
        cfg = cfg.with(&[(K::Store, 3), (K::StoreStr, 2), (K::EqVar, 3), (K::SeqVar, 1), (K::SetScope, 2), (K::RefAs, 1), (K::Register, 1)]).names(0);
    }
    let c = gen::case(s, &cfg);
    let share = s.range(2, 8);
    let (mut fresh, mut rules, mut used) = (0, vec![], vec![]);
    let mut d = c.clone();
    d.g.root = all_alike(s, &c.g.root, false, vars, share, &mut fresh, &mut rules, &mut used);
    d.g.rules = c.g.rules.iter().map(|(n, g)| (n.clone(), all_alike(s, g, false, vars, share, &mut fresh, &mut rules, &mut used))).collect();
    d.g.rules.extend(rules);
    obs.case(format!("{} and {}", c.show(), d.show()));
    for why in &used {
        obs.label(why);
    }
    let e = match (expect(&c, obs), expect_with(&d, obs, 8 * crate::model::MAX_STEPS, 4 * crate::model::MAX_DEPTH)) {
        (Some((e, _)), Some(_)) => e,
        _ => return Verdict::Pass,
    };
    obs.nontrivial_if(!used.is_empty() && (matches!(e, Outcome::Fatal(..)) || e.token().map_or(false, |d| d.count() >= 3)));
    agree(&plain_errors(real::run(&c)), &plain_errors(real::run(&d)))
}
