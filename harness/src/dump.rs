//! The observable result of a parse, in a form shared by the model and the
//! real library.

use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub struct D {
    pub name: String,
    pub cap: (usize, usize),
    pub mat: (usize, usize),
    pub value: String,
    pub captured: String,
    pub matched: String,
    pub attrs: BTreeMap<String, String>,
    pub flags: u8,
    /// name and matched range of the parent
    pub parent: Option<(String, (usize, usize))>,
    pub kids: Vec<D>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Token(D),
    Fail,
    Fatal(String, Option<(usize, usize)>),
    /// The library panicked
    Crash(String),
    /// More work than the reference needed, by a large factor
    Runaway(String),
}

impl D {
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a D, usize)) {
        self.walk_d(f, 0)
    }
    fn walk_d<'a>(&'a self, f: &mut dyn FnMut(&'a D, usize), d: usize) {
        f(self, d);
        for k in &self.kids {
            k.walk_d(f, d + 1);
        }
    }
    pub fn count(&self) -> usize {
        1 + self.kids.iter().map(|k| k.count()).sum::<usize>()
    }
    pub fn shift(&self, by: usize) -> D {
        let mv = |r: (usize, usize)| (r.0 + by, r.1 + by);
        D {
            cap: mv(self.cap),
            mat: mv(self.mat),
            parent: self.parent.as_ref().map(|(n, r)| (n.clone(), mv(*r))),
            kids: self.kids.iter().map(|k| k.shift(by)).collect(),
            ..self.clone()
        }
    }
    /// The tree without attributes that hold line and column numbers
    pub fn without_messages(&self) -> D {
        let mut d = self.clone();
        d.attrs.remove("__message");
        d.kids = d.kids.iter().map(|k| k.without_messages()).collect();
        d
    }
    pub fn brief(&self) -> String {
        let mut s = format!("{}[{}-{}]", self.name, self.mat.0, self.mat.1);
        if self.cap != self.mat {
            s.push_str(&format!("/[{}-{}]", self.cap.0, self.cap.1));
        }
        if !self.kids.is_empty() {
            s.push('(');
            s.push_str(&self.kids.iter().map(|k| k.brief()).collect::<Vec<_>>().join(" "));
            s.push(')');
        }
        s
    }
}

impl Outcome {
    pub fn brief(&self) -> String {
        match self {
            Outcome::Token(d) => d.brief(),
            Outcome::Fail => "no match".into(),
            o => format!("{:?}", o),
        }
    }
    pub fn is_token(&self) -> bool {
        matches!(self, Outcome::Token(_))
    }
    pub fn token(&self) -> Option<&D> {
        match self {
            Outcome::Token(d) => Some(d),
            _ => None,
        }
    }
}

fn diff_tok(a: &D, b: &D, path: &str) -> Option<String> {
    let here = format!("{}/{}", path, a.name);
    macro_rules! cmp {
        ($f:ident, $n:expr) => {
            if a.$f != b.$f {
                return Some(format!("{} of {}: expected {:?}, got {:?}", $n, here, a.$f, b.$f));
            }
        };
    }
    cmp!(name, "name");
    cmp!(mat, "matched range");
    cmp!(cap, "captured range");
    cmp!(value, "value");
    cmp!(captured, "captured value");
    cmp!(matched, "matched value");
    cmp!(attrs, "attributes");
    cmp!(flags, "flags");
    if a.kids.len() != b.kids.len() {
        return Some(format!(
            "children of {}: expected [{}], got [{}]",
            here,
            a.kids.iter().map(|k| k.brief()).collect::<Vec<_>>().join(" "),
            b.kids.iter().map(|k| k.brief()).collect::<Vec<_>>().join(" ")
        ));
    }
    for (i, (x, y)) in a.kids.iter().zip(&b.kids).enumerate() {
        if let Some(d) = diff_tok(x, y, &format!("{}#{}", here, i)) {
            return Some(d);
        }
    }
    cmp!(parent, "parent");
    None
}

/// First difference between what is expected and what the library did
pub fn diff(expected: &Outcome, got: &Outcome) -> Option<String> {
    match (expected, got) {
        (Outcome::Token(a), Outcome::Token(b)) => diff_tok(a, b, ""),
        (Outcome::Fail, Outcome::Fail) => None,
        (Outcome::Fatal(m1, r1), Outcome::Fatal(m2, r2)) => {
            // A prefix of '~' stands for a message that only has to contain the rest
            let ok = match m1.strip_prefix('~') {
                Some(part) => m2.contains(part),
                None => m1 == m2,
            };
            if ok && r1 == r2 {
                None
            } else {
                Some(format!("fatal error: expected {:?} {:?}, got {:?} {:?}", m1, r1, m2, r2))
            }
        }
        _ => Some(format!("expected {}, got {}", expected.brief(), got.brief())),
    }
}
