//! P01 token text, P02 leaves, P03 sequences.

use super::core::*;
use crate::ast::*;
use crate::dump::{Outcome, D};
use crate::engine::{Obs, Verdict};
use crate::gen::{self, Gen, K};
use crate::re::{self, Flags, Re};
use crate::real;
use crate::src::Src;

/// Laws that hold for each token of any tree
pub fn token_text(d: &D, src: &str) -> Result<(), String> {
    let mut bad = None;
    d.walk(&mut |t, _| {
        if bad.is_some() {
            return;
        }
        let at = |r: (usize, usize)| if r.0 <= r.1 { src.get(r.0..r.1).map(|s| s.to_string()) } else { None };
        match at(t.mat) {
            None => bad = Some(format!("matched range {:?} of {} is not a range of whole characters of the source", t.mat, t.name)),
            Some(x) if x != t.matched => bad = Some(format!("matched text of {} is {:?}, the source has {:?} at {:?}", t.name, t.matched, x, t.mat)),
            _ => {}
        }
        match at(t.cap) {
            None => bad = Some(format!("captured range {:?} of {} is not a range of whole characters of the source", t.cap, t.name)),
            Some(x) if x != t.captured => bad = Some(format!("captured text of {} is {:?}, the source has {:?} at {:?}", t.name, t.captured, x, t.cap)),
            _ => {}
        }
        if t.cap.0 < t.mat.0 || t.cap.1 > t.mat.1 {
            bad = Some(format!("captured range {:?} of {} is not inside of its matched range {:?}", t.cap, t.name, t.mat));
        }
        let v = t.attrs.get("__value").unwrap_or(&t.captured);
        if *v != t.value {
            bad = Some(format!("value of {} is {:?}, expected {:?}", t.name, t.value, v));
        }
    });
    match bad {
        Some(b) => Err(b),
        None => Ok(()),
    }
}

pub fn p01(s: &mut Src, obs: &mut Obs) -> Verdict {
    let cfg = gen::full().with(&[(K::Pin, 0), (K::Panic, 0), (K::FatalIf, 0), (K::FatalIfNot, 0), (K::Seq, 3), (K::Re, 5)]).pieces(gen::MIXED);
    let mut c = gen::case(s, &cfg);
    if s.chance(1, 3) {
        // Far from the start of the source
        let n = count(s, 10, 400);
        let pre: String = (0..n).map(|_| *s.pick(gen::MIXED)).collect();
        let (a, b) = c.window.unwrap_or((0, c.input.len()));
        c.window = Some((a + pre.len(), b + pre.len()));
        c.input = format!("{}{}", pre, c.input);
    }
    obs.case(c.show());
    let (e, _) = match expect(&c, obs) {
        Some(x) => x,
        None => return Verdict::Pass,
    };
    let got = real::run(&c);
    if let Outcome::Token(d) = &got {
        obs.label("result: token");
        obs.nontrivial_if(d.count() >= 3 && d.matched.len() != d.matched.chars().count());
        if let Err(m) = token_text(d, &c.input) {
            return fail(m);
        }
        let (a, b) = c.window.unwrap_or((0, c.input.len()));
        let mut out = None;
        d.walk(&mut |t, _| {
            if t.mat.0 < a || t.mat.1 > b {
                out = Some(format!("{} at {:?} is outside of the text to parse {:?}", t.name, t.mat, (a, b)));
            }
        });
        if let Some(o) = out {
            return fail(o);
        }
    }
    agree(&e, &got)
}

fn anchored(s: &mut Src, r: Re) -> Re {
    match s.weighted(&[8, 1, 1]) {
        0 => r,
        1 => Re::Cat(vec![Re::Start, r]),
        _ => Re::Cat(vec![r, Re::End]),
    }
}

/// One literal or regular expression, at one place of one text
pub fn p02(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[3, 4, 3]) {
        0 => {
            let t = match s.below(8) {
                0 => s.text(gen::MIXED, 20, 300),
                _ => s.text(gen::MIXED, 1, 4),
            };
            let near = match s.weighted(&[4, 3, 2]) {
                0 => t.clone(),
                1 => gen::mutate(s, &t, gen::MIXED),
                _ => {
                    let mut v: Vec<char> = t.chars().collect();
                    v.pop();
                    v.into_iter().collect()
                }
            };
            let pre = s.text(gen::MIXED, 0, 5);
            let mid = format!("{}{}", near, s.text(gen::MIXED, 0, 3));
            // What follows the window may well complete the literal
            let post = if s.chance(1, 2) { t.chars().rev().take(1).collect() } else { s.text(gen::MIXED, 0, 3) };
            let mut c = Case::new(Grammar::of(G::Eq(None, Text::S(t.clone()))), format!("{}{}{}", pre, mid, post));
            let (a, b) = (pre.len(), pre.len() + mid.len());
            c.window = Some((a, b));
            obs.case(c.show());
            obs.nontrivial_if(a > 0 && b < c.input.len());
            let got = real::run(&c);
            let want = mid.starts_with(&t);
            obs.label(if want { "literal matches" } else { "literal does not match" });
            match got {
                Outcome::Token(d) if want => {
                    if d.mat != (a, a + t.len()) || d.cap != d.mat || d.value != t || d.matched != t || !d.kids.is_empty() || d.name != "Equals" {
                        fail(format!("literal matched as {} with value {:?}", d.brief(), d.value))
                    } else {
                        Verdict::Pass
                    }
                }
                Outcome::Fail if !want => Verdict::Pass,
                o => fail(format!("literal should {}match, got {}", if want { "" } else { "not " }, o.brief())),
            }
        }
        1 => {
            let r = re::gen(s, 3, &['a', 'b', 'c', '1', 'é', '(', ' ', '日', '\n']);
            let r = anchored(s, r);
            let found = s.chance(1, 400);
            let r = if found {
                // The known finding: (?:\daa|a)aa
                let a = || Re::Lit('a');
                Re::Cat(vec![Re::Alt(vec![Re::Cat(vec![Re::Digit, a(), a()]), a()]), a(), a()])
            } else {
                r
            };
            let f = if s.chance(1, 3) {
                Flags { i: s.chance(1, 2), s: s.chance(1, 2), m: s.chance(1, 2), u: s.chance(1, 3) }
            } else {
                Flags::default()
            };
            let mut mid = r.sample(s);
            if found {
                mid = "1aaaa".into();
            } else if s.chance(1, 2) {
                mid = gen::mutate(s, &mid, gen::MIXED);
            }
            if f.i && s.chance(1, 2) {
                mid = mid.to_uppercase();
            }
            if s.chance(1, 4) {
                mid = format!("{}{}", s.text(gen::MIXED, 1, 1), mid);
            }
            mid.push_str(&s.text(gen::MIXED, 0, 3));
            let pre = s.text(gen::MIXED, 0, 4);
            let post = if s.chance(1, 2) { r.sample(s) } else { s.text(gen::MIXED, 0, 3) };
            let mut c = Case::new(Grammar::of(G::Re(None, r.clone(), f)), format!("{}{}{}", pre, mid, post));
            let (a, b) = (pre.len(), pre.len() + mid.len());
            c.window = Some((a, b));
            obs.case(format!("/{}/{} {}", r.render(), f.render(), c.show()));
            let want = r.match_prefix(&mid, f);
            let known = r.crate_errs(&mid, f, want);
            let want = want.filter(|n| *n > 0);
            obs.nontrivial_if(want.is_some());
            obs.label(if want.is_some() { "regex matches" } else { "regex does not match" });
            match (real::run(&c), want) {
                (Outcome::Token(d), Some(n)) => {
                    if d.mat != (a, a + n) || d.cap != d.mat || d.value != mid[..n] || d.name != "Matches" {
                        fail(format!("regex should match {:?}, matched {} {:?}", &mid[..n], d.brief(), d.value))
                    } else {
                        Verdict::Pass
                    }
                }
                (Outcome::Fail, None) => Verdict::Pass,
                (Outcome::Fail, Some(_)) if known => Verdict::Known("regex-suffix"),
                (o, w) => fail(format!("regex should match {:?} bytes, got {}", w, o.brief())),
            }
        }
        _ => {
            let cfg = gen::Cfg::new(&[(K::Eq, 4), (K::Re, 5), (K::Prog, 3), (K::Switch, 2), (K::Loop, 2), (K::Discard, 1), (K::EqVar, 1), (K::StoreStr, 1)]).depth(3).pieces(gen::MIXED);
            differential(s, obs, &cfg, |seen, e| e.is_token() && seen.leaves >= 3)
        }
    }
}

pub fn p03(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[4, 3, 3]) {
        0 => {
            // Write a text with delimiters and escapes, and read it back
            let (open, close, esc) = *s.pick(&[
                ("\"", "\"", "\\"),
                ("(", ")", "\\"),
                ("<<", ">>", "\\"),
                ("/*", "*/", "!"),
                ("'", "'", "\\\\"),
                ("é", "é", "\\"),
                ("日", "本", "é"),
                ("begin", "end", "%%"),
                ("{{{", "}}}", "ß"),
            ]);
            let big = s.chance(1, 12);
            let n = if big { s.range(50, 800) } else { s.range(0, 8) };
            let alphabet: Vec<&str> = vec!["x", "y", "é", "日", " ", "\n", "🎈", "1", open, close, esc];
            let mut content = String::new();
            for _ in 0..n {
                let p = *s.pick(&alphabet);
                content.push_str(p);
            }
            let special: Vec<char> = close.chars().chain(esc.chars()).collect();
            let mut raw = String::new();
            for ch in content.chars() {
                if special.contains(&ch) {
                    raw.push_str(esc);
                    obs.label("escape");
                }
                raw.push(ch);
            }
            let pre = s.text(gen::MIXED, 0, 3);
            let tail = s.text(&["x", close, esc, "é", open], 0, 3);
            let mut c = Case::new(
                Grammar::of(G::Seq(None, open.into(), close.into(), esc.into())),
                format!("{}{}{}{}{}", pre, open, raw, close, tail),
            );
            c.window = Some((pre.len(), c.input.len()));
            let a = pre.len();
            let inner = (a + open.len(), a + open.len() + raw.len());
            let whole = (a, inner.1 + close.len());
            let cut = s.chance(1, 6);
            if cut {
                // The end delimiter isn't completely inside of the window
                let mut w = inner.1;
                if close.chars().count() > 1 && s.chance(1, 2) {
                    w += close.chars().next().unwrap().len_utf8();
                }
                c.window = Some((a, w));
            }
            obs.case(c.show());
            obs.nontrivial_if(content.chars().any(|ch| special.contains(&ch)) && content.len() > 2);
            match real::run(&c) {
                Outcome::Fail if cut => Verdict::Pass,
                Outcome::Token(d) if !cut => {
                    if d.value != content {
                        fail(format!("the inside reads as {:?}, expected {:?}", d.value, content))
                    } else if d.mat != whole || d.cap != inner {
                        fail(format!("ranges {:?} {:?}, expected {:?} {:?}", d.mat, d.cap, whole, inner))
                    } else if d.captured != raw || d.matched != c.input[whole.0..whole.1] {
                        fail(format!("texts {:?} {:?}", d.captured, d.matched))
                    } else {
                        Verdict::Pass
                    }
                }
                o => fail(format!("expected {}, got {}", if cut { "no match" } else { "a token" }, o.brief())),
            }
        }
        1 => {
            // Any delimiters, any text
            let (a, b, e) = match s.below(3) {
                0 => Gen::new(&gen::core()).delims(s),
                _ => {
                    let al = &["a", "b", "ab", "é", "\\", "日"];
                    (s.text(al, 1, 2), s.text(al, 1, 2), s.text(al, 0, 2))
                }
            };
            if b == e {
                return Verdict::Pass;
            }
            let al: Vec<&str> = vec!["a", "b", "x", "é", "日", "\\", "\n", &b, &e, &a];
            let mut t = a.clone();
            let n = count(s, 8, 60);
            for _ in 0..n {
                let p = *s.pick(&al);
                t.push_str(p);
            }
            if s.chance(2, 3) {
                t.push_str(&b);
            }
            t.push_str(&s.text(&["x", "a", "é"], 0, 2));
            if s.chance(1, 8) {
                t = gen::mutate(s, &t, gen::MIXED);
            }
            let mut c = Case::new(Grammar::of(G::Seq(None, a, b, e)), t);
            if s.chance(1, 3) {
                let (x, w) = gen::window(s, &c.input.clone(), &["a", "b", "é", "\\"]);
                c.input = x;
                c.window = Some(w);
            }
            differential_case(s, obs, &c, |seen, e| e.is_token() && seen.escapes > 0)
        }
        _ => {
            let cfg = gen::Cfg::new(&[(K::Seq, 6), (K::SeqVar, 2), (K::StoreStr, 2), (K::Store, 1), (K::Eq, 3), (K::Prog, 3), (K::Loop, 3), (K::Switch, 2), (K::Discard, 1), (K::Opt, 1), (K::Flat, 1)]).pieces(gen::MIXED).depth(3);
            differential(s, obs, &cfg, |seen, e| e.is_token() && seen.escapes > 0)
        }
    }
}
