//! A small regular expression language with its own backtracking matcher. It
//! renders to the syntax of the `regex` crate, and serves as the reference for it.

use crate::src::Src;

#[derive(Debug, Clone, PartialEq)]
pub enum Re {
    Lit(char),
    Any,
    Class(bool, Vec<(char, char)>),
    Digit,
    Space,
    Word,
    NotSpace,
    Cat(Vec<Re>),
    Alt(Vec<Re>),
    /// body, min, max, greedy
    Rep(Box<Re>, usize, Option<usize>, bool),
    End,
    Start,
}

#[derive(Debug, Clone, Copy, PartialEq, Default)]
pub struct Flags {
    pub i: bool,
    pub s: bool,
    pub m: bool,
    pub u: bool,
}

impl Flags {
    pub fn render(&self) -> String {
        let mut f = String::new();
        if self.i {
            f.push('i');
        }
        if self.m {
            f.push('m');
        }
        if self.s {
            f.push('s');
        }
        if self.u {
            f.push('U');
        }
        f
    }
}

fn esc(c: char, out: &mut String) {
    if "\\.+*?()|[]{}^$#&-~/".contains(c) && c != '/' && c != '#' {
        out.push('\\');
    }
    match c {
        '\n' => out.push_str("\\n"),
        '\t' => out.push_str("\\t"),
        '\r' => out.push_str("\\r"),
        c => out.push(c),
    }
}

impl Re {
    pub fn render(&self) -> String {
        let mut s = String::new();
        self.render_into(&mut s);
        s
    }
    fn render_into(&self, o: &mut String) {
        match self {
            Re::Lit(c) => esc(*c, o),
            Re::Any => o.push('.'),
            Re::Class(neg, rs) => {
                o.push('[');
                if *neg {
                    o.push('^');
                }
                for (a, b) in rs {
                    esc(*a, o);
                    if a != b {
                        o.push('-');
                        esc(*b, o);
                    }
                }
                o.push(']');
            }
            Re::Digit => o.push_str("\\d"),
            Re::Space => o.push_str("\\s"),
            Re::Word => o.push_str("\\w"),
            Re::NotSpace => o.push_str("\\S"),
            Re::Cat(v) => {
                for r in v {
                    let group = matches!(r, Re::Alt(_));
                    if group {
                        o.push_str("(?:");
                    }
                    r.render_into(o);
                    if group {
                        o.push(')');
                    }
                }
            }
            Re::Alt(v) => {
                for (i, r) in v.iter().enumerate() {
                    if i > 0 {
                        o.push('|');
                    }
                    r.render_into(o);
                }
            }
            Re::Rep(b, min, max, greedy) => {
                let atom = matches!(
                    **b,
                    Re::Lit(_) | Re::Any | Re::Class(..) | Re::Digit | Re::Space | Re::Word | Re::NotSpace
                );
                if !atom {
                    o.push_str("(?:");
                }
                b.render_into(o);
                if !atom {
                    o.push(')');
                }
                match (*min, *max) {
                    (0, None) => o.push('*'),
                    (1, None) => o.push('+'),
                    (0, Some(1)) => o.push('?'),
                    (m, None) => o.push_str(&format!("{{{},}}", m)),
                    (m, Some(n)) => o.push_str(&format!("{{{},{}}}", m, n)),
                }
                if !greedy {
                    o.push('?');
                }
            }
            Re::End => o.push('$'),
            Re::Start => o.push('^'),
        }
    }

    pub fn nullable(&self) -> bool {
        match self {
            Re::Cat(v) => v.iter().all(|r| r.nullable()),
            Re::Alt(v) => v.iter().any(|r| r.nullable()),
            Re::Rep(b, min, _, _) => *min == 0 || b.nullable(),
            Re::End | Re::Start => true,
            _ => false,
        }
    }

    /// Length (in bytes) of the match at the start of `text`, leftmost-first.
    pub fn match_prefix(&self, text: &str, flags: Flags) -> Option<usize> {
        let chars: Vec<char> = text.chars().collect();
        let mut steps = 0usize;
        let end = m(self, &chars, 0, flags, &mut steps, &mut |p, _| Some(p))?;
        Some(chars[..end].iter().map(|c| c.len_utf8()).sum())
    }

    pub fn compile(&self, f: Flags) -> regex::Regex {
        let mut b = regex::RegexBuilder::new(&self.render());
        b.case_insensitive(f.i).multi_line(f.m).dot_matches_new_line(f.s).swap_greed(f.u);
        b.build().expect("generated regex")
    }

    /// Does the regex crate itself, on this text alone, find something else at its start? Version
    /// 1.5.5 can miss a match when what all matches end with also comes earlier.
    pub fn crate_errs(&self, text: &str, f: Flags, want: Option<usize>) -> bool {
        thread_local! {
            static KNOWN: std::cell::RefCell<std::collections::HashMap<String, regex::Regex>> = Default::default();
        }
        let key = format!("{}/{}", self.render(), f.render());
        KNOWN.with(|k| {
            let mut k = k.borrow_mut();
            if k.len() > 2000 {
                k.clear();
            }
            let r = k.entry(key).or_insert_with(|| self.compile(f));
            r.find(text).filter(|m| m.start() == 0).map(|m| m.end()) != want
        })
    }

    /// A string this expression is likely to match.
    pub fn sample(&self, s: &mut Src) -> String {
        match self {
            Re::Lit(c) => c.to_string(),
            Re::Any => s.pick(&["a", "b", "1", " ", "é"]).to_string(),
            Re::Class(neg, rs) => {
                if *neg {
                    for c in ["x", "a", "b", "1", " "] {
                        let ch = c.chars().next().unwrap();
                        if !rs.iter().any(|(a, b)| *a <= ch && ch <= *b) {
                            return c.to_string();
                        }
                    }
                    "z".to_string()
                } else {
                    let (a, b) = *s.pick(rs);
                    if s.chance(1, 2) { b } else { a }.to_string()
                }
            }
            Re::Digit => s.pick(&["1", "0", "7"]).to_string(),
            Re::Space => s.pick(&[" ", "\n", "\t"]).to_string(),
            Re::Word => s.pick(&["a", "b", "1", "_", "é"]).to_string(),
            Re::NotSpace => s.pick(&["a", "(", "1", "日"]).to_string(),
            Re::Cat(v) => v.iter().map(|r| r.sample(s)).collect(),
            Re::Alt(v) => {
                let i = s.below(v.len());
                v[i].sample(s)
            }
            Re::Rep(b, min, max, _) => {
                let hi = max.unwrap_or(min + 3).min(min + 3);
                let n = s.range(*min, hi);
                (0..n).map(|_| b.sample(s)).collect()
            }
            Re::End | Re::Start => String::new(),
        }
    }
}

fn fold(c: char) -> char {
    let mut l = c.to_lowercase();
    match (l.next(), l.next()) {
        (Some(x), None) => x,
        _ => c,
    }
}

fn one(r: &Re, c: char, f: Flags) -> Option<bool> {
    Some(match r {
        Re::Lit(l) => *l == c || (f.i && fold(*l) == fold(c)),
        Re::Any => f.s || c != '\n',
        Re::Class(neg, rs) => {
            let mut inside = rs.iter().any(|(a, b)| *a <= c && c <= *b);
            if f.i && !inside {
                let lower = fold(c);
                let upper = c.to_uppercase().next().unwrap();
                inside = rs
                    .iter()
                    .any(|(a, b)| (*a <= lower && lower <= *b) || (*a <= upper && upper <= *b));
            }
            inside != *neg
        }
        Re::Digit => c.is_ascii_digit(),
        Re::Space => c.is_whitespace(),
        Re::NotSpace => !c.is_whitespace(),
        Re::Word => c.is_alphanumeric() || c == '_',
        _ => return None,
    })
}

type K<'a> = &'a mut dyn FnMut(usize, &mut usize) -> Option<usize>;

fn m(r: &Re, t: &[char], p: usize, f: Flags, steps: &mut usize, k: K) -> Option<usize> {
    *steps += 1;
    if *steps > 2_000_000 {
        return None;
    }
    match r {
        Re::Cat(v) => cat(v, t, p, f, steps, k),
        Re::Alt(v) => {
            for a in v {
                if let Some(e) = m(a, t, p, f, steps, k) {
                    return Some(e);
                }
            }
            None
        }
        Re::Rep(b, min, max, greedy) => rep(b, *min, *max, *greedy != f.u, t, p, f, steps, k, 0),
        Re::End => {
            if p == t.len() || (f.m && t[p] == '\n') {
                k(p, steps)
            } else {
                None
            }
        }
        Re::Start => {
            if p == 0 || (f.m && t[p - 1] == '\n') {
                k(p, steps)
            } else {
                None
            }
        }
        _ => {
            if p < t.len() && one(r, t[p], f).unwrap() {
                k(p + 1, steps)
            } else {
                None
            }
        }
    }
}

fn cat(v: &[Re], t: &[char], p: usize, f: Flags, steps: &mut usize, k: K) -> Option<usize> {
    if v.is_empty() {
        return k(p, steps);
    }
    m(&v[0], t, p, f, steps, &mut |q, st| cat(&v[1..], t, q, f, st, k))
}

#[allow(clippy::too_many_arguments)]
fn rep(
    b: &Re,
    min: usize,
    max: Option<usize>,
    greedy: bool,
    t: &[char],
    p: usize,
    f: Flags,
    steps: &mut usize,
    k: K,
    n: usize,
) -> Option<usize> {
    let can_more = max.map_or(true, |x| n < x);
    if n < min {
        return m(b, t, p, f, steps, &mut |q, st| rep(b, min, max, greedy, t, q, f, st, k, n + 1));
    }
    if greedy {
        if can_more {
            let r = m(b, t, p, f, steps, &mut |q, st| {
                if q == p {
                    return None;
                }
                rep(b, min, max, greedy, t, q, f, st, k, n + 1)
            });
            if r.is_some() {
                return r;
            }
        }
        k(p, steps)
    } else {
        if let Some(e) = k(p, steps) {
            return Some(e);
        }
        if can_more {
            return m(b, t, p, f, steps, &mut |q, st| {
                if q == p {
                    return None;
                }
                rep(b, min, max, greedy, t, q, f, st, k, n + 1)
            });
        }
        None
    }
}

pub fn gen(s: &mut Src, depth: usize, lits: &[char]) -> Re {
    let w: &[u32] = if depth == 0 { &[12, 4, 6, 4, 4, 4, 2, 0, 0, 0, 1] } else { &[12, 2, 6, 4, 2, 4, 2, 10, 8, 12, 1] };
    match s.weighted(w) {
        0 => Re::Lit(*s.pick(lits)),
        1 => Re::Any,
        2 => {
            let neg = s.chance(1, 4);
            // Some classes are of characters that mean something elsewhere
            let odd = s.chance(1, 4);
            let n = if odd { s.range(1, 5) } else { s.range(1, 3) };
            let rs = (0..n)
                .map(|_| {
                    if odd && s.chance(3, 4) {
                        let c = *s.pick(&['/', ']', '[', '\\', '-', '^', '.', '\'', '(', ')', '|', '#', '>']);
                        (c, c)
                    } else {
                        *s.pick(&[('a', 'c'), ('b', 'b'), ('x', 'z'), ('0', '9'), ('é', 'é'), ('日', '日'), ('A', 'C'), (' ', ' ')])
                    }
                })
                .collect();
            Re::Class(neg, rs)
        }
        3 => Re::Digit,
        4 => Re::Space,
        5 => Re::Word,
        6 => Re::NotSpace,
        7 => {
            let n = s.range(2, 3);
            Re::Cat((0..n).map(|_| gen(s, depth - 1, lits)).collect())
        }
        8 => {
            let n = s.range(2, 3);
            Re::Alt((0..n).map(|_| gen(s, depth - 1, lits)).collect())
        }
        10 => {
            if s.chance(1, 2) {
                Re::Start
            } else {
                Re::End
            }
        }
        _ => {
            let b = gen(s, depth - 1, lits);
            // Expressions that repeat something empty are a corner where engines differ
            if b.nullable() {
                return b;
            }
            let (min, max) = *s.pick(&[(1, None), (0, None), (0, Some(1)), (2, Some(3)), (1, Some(2)), (2, None)]);
            let greedy = !s.chance(1, 4);
            Re::Rep(Box::new(b), min, max, greedy)
        }
    }
}
