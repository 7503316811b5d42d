//! Properties of the grammar script language.

use super::core::*;
use crate::ast::*;
use crate::dump::{diff, Outcome};
use crate::engine::{Obs, Verdict};
use crate::gen;
use crate::model;
use crate::real::{self, Ready};
use crate::script::{self as sc, *};
use crate::src::Src;
use adextopa_core::matcher::MatcherRef;
use adextopa_core::parse_error::ParseError;
use adextopa_core::parser::Parser;
use adextopa_core::scope::VariableType;
use adextopa_core::script::current::parser::{compile_script, compile_script_from_file, compile_script_from_str};
use std::panic::{catch_unwind, AssertUnwindSafe};

type R = (usize, usize);

pub enum Compiled {
    Ok(MatcherRef),
    Err(Vec<(String, Option<R>)>),
    Crash(String),
}

impl Compiled {
    fn brief(&self) -> String {
        match self {
            Compiled::Ok(_) => "a matcher".into(),
            Compiled::Err(e) => format!("errors {:?}", e),
            Compiled::Crash(m) => format!("panic: {}", m),
        }
    }
}

fn guarded(f: impl FnOnce() -> Result<MatcherRef, Vec<ParseError>>) -> Compiled {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(m)) => Compiled::Ok(m),
        Ok(Err(e)) => Compiled::Err(e.into_iter().map(|e| (e.message, e.range.map(|r| (r.start, r.end)))).collect()),
        Err(p) => Compiled::Crash(real::panic_text(p)),
    }
}

pub fn compile(text: &str, name: &str) -> Compiled {
    guarded(|| compile_script_from_str(text, name.to_string(), 0))
}

pub fn compile_file(file: &str) -> Compiled {
    guarded(|| compile_script_from_file(file, 0))
}

pub fn run(m: &MatcherRef, input: &str) -> Outcome {
    let r = Ready { parser: Parser::new(input), root: m.clone(), rules: vec![], window: None, fuel: real::Fuel::new(1), builder: real::Builder::new(0, 1) };
    r.parse()
}

/// What is wrong with the errors of a compile, if anything
fn sane(text: &str, errors: &[(String, Option<R>)]) -> Option<String> {
    if errors.is_empty() {
        return Some("failed without an error".into());
    }
    for (m, r) in errors {
        if m.is_empty() {
            return Some("an error has no message".into());
        }
        if let Some((a, b)) = r {
            if a > b || *b > text.len() || !text.is_char_boundary(*a) || !text.is_char_boundary(*b) {
                return Some(format!("range {}..{} of error {:?} is not a part of the script", a, b, m));
            }
        }
    }
    None
}

const STEPS: usize = 20_000;
const DEPTH: usize = 150;

fn case_of(files: &[Script], name: &str, input: String) -> Case {
    Case::new(meaning(files, name), input)
}

fn input_for(s: &mut Src, g: &Grammar) -> String {
    let mut t = gen::sample(s, g);
    match s.weighted(&[5, 3, 2, 1]) {
        0 => {}
        1 => t = gen::mutate(s, &t, PIECES),
        2 => t.push_str(&s.text(PIECES, 1, 3)),
        _ => t = s.text(PIECES, 0, 8),
    }
    t
}

fn name_of(s: &mut Src, x: &Script) -> (String, String) {
    let given = s.pick(&["Script", "Main", "é"]).to_string();
    let root = x.name().map(|n| n.to_string()).unwrap_or_else(|| given.clone());
    (given, root)
}

fn classify(obs: &mut Obs, e: &Outcome) {
    obs.label(match e {
        Outcome::Token(_) => "result: token",
        Outcome::Fail => "result: no match",
        _ => "result: fatal error",
    });
}

/// Run a compiled script on a few inputs and compare with the reference
fn differential_script(s: &mut Src, obs: &mut Obs, sg: &mut Sg, inputs: usize) -> Verdict {
    let x = sg.script(s);
    let (given, root) = name_of(s, &x);
    let text = sc::noisy(s, &x);
    let g = meaning(&[x.clone()], &root);
    let ins: Vec<String> = (0..inputs).map(|_| input_for(s, &g)).collect();
    obs.case(format!("script {:?} inputs {:?}", text, ins));
    let m = match compile(&text, &given) {
        Compiled::Ok(m) => m,
        c => return fail(format!("a valid script does not compile: {}", c.brief())),
    };
    for input in ins {
        let c = Case::new(g.clone(), input);
        let (e, seen) = match expect_with(&c, obs, STEPS, DEPTH) {
            Some(x) => x,
            None => continue,
        };
        classify(obs, &e);
        obs.nontrivial_if(seen.steps > 12 && e.is_token());
        let v = agree(&e, &run(&m, &c.input));
        if let Verdict::Fail(m) = v {
            return fail(format!("on {:?}: {}", c.input, m));
        }
    }
    Verdict::Pass
}

// ---------------------------------------------------------------- S02

pub fn s02(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut sg = Sg::new();
    sg.plain = s.chance(1, 2);
    differential_script(s, obs, &mut sg, 3)
}

/// The same script under two spellings, on the same texts
fn same_meaning(a: &MatcherRef, b: &MatcherRef, inputs: &[String]) -> Verdict {
    for i in inputs {
        let (x, y) = (run(a, i), run(b, i));
        if let Some(d) = diff(&x, &y) {
            return fail(format!("on {:?}: {}", i, d));
        }
    }
    Verdict::Pass
}

/// Inputs on which a grammar certainly ends, with what it gives
fn settled(g: &Grammar, inputs: &[String], obs: &mut Obs) -> Vec<(String, Outcome, model::Seen)> {
    let mut out = vec![];
    for i in inputs {
        let c = Case::new(g.clone(), i.clone());
        if let Some((e, seen)) = expect_with(&c, obs, STEPS, DEPTH) {
            out.push((i.clone(), e, seen));
        }
    }
    out
}

// ---------------------------------------------------------------- S01

const SOUP: &[&str] = &[
    "<!--[adextopa ", "version='1'", "]", "-->", "<", ">", "{", "}", "[", "|", "(", ")", "?'", "'", "?", "!", "=", "='a'", "/", "/a/", "\\", "%", "%'a','b','\\\\'", ",", "*", "+",
    "{1,2}", "{3}", "{2,1}", "{99999999999999999999}", "A", "A=", "A=<='x'>", "import { A } from 'x'", "import { _ as B } from './y'", "from", " as ", "#", "# c\n", "\n", " ", "\t", "\r\n", "é", "日", "🙂", "\u{0}",
    "_x='1'", "k='v'", "k=v", "k=", "<A>", "(<A>)", "<{", "}>", "<[", "]>", "(?'n'<='a'>)", "_", "<='", "</", "<%", "i", "imsU", "</(/>", "</[/>", "</a{2,1}/>", "</a**/>", "\u{feff}", "<!--", "adextopa", "version='x'", "name='N'",
];

pub fn s01(s: &mut Src, obs: &mut Obs) -> Verdict {
    let text = match s.weighted(&[4, 4, 1, 2]) {
        0 => {
            let n = count(s, 12, 60);
            (0..n).map(|_| *s.pick(SOUP)).collect::<String>()
        }
        1 => {
            let x = Sg::new().script(s);
            let t = sc::noisy(s, &x);
            let n = s.range(1, 3);
            (0..n).fold(t, |t, _| gen::mutate(s, &t, SOUP))
        }
        2 => {
            let n = count(s, 10, 60);
            let (a, b) = *s.pick(&[("<{", "}>"), ("(<{", "}>)"), ("<[", "]>"), ("(<[", "|<='a'>]>)"), ("<{", ""), ("(", ")"), ("[", "]"), ("# \n", ""), ("<='a'>", ""), ("A=", ""), ("import {", "}")]);
            let mid = *s.pick(&["<='a'>", "</a/>", "", "<A>", "x", "<='", "#"]);
            let head = *s.pick(&["", "<!--[adextopa version='1']", "<!--[adextopa version='1']-->"]);
            obs.label_if(n > 15, "deeply nested");
            format!("{}{}{}{}", head, a.repeat(n), mid, b.repeat(n))
        }
        _ => s.text(&["a", "<", ">", "'", "/", "\\", "=", "(", ")", "[", "]", "{", "}", "#", "%", "é", "\n", " ", "-", "!", "?", "1", ",", "_", "*", "|"], 0, 30),
    };
    obs.case(format!("script {:?}", text));
    obs.nontrivial_if(text.len() > 8);
    match compile(&text, "Script") {
        Compiled::Ok(m) => {
            obs.label("compiles");
            // References may go around in circles; without any, it must be usable
            let names = text.contains('A') || text.contains('<') && text.chars().any(|c| c.is_ascii_alphabetic() || c == '_' || c == '$');
            if !names || !text.contains("adextopa") {
                let inputs = ["", "a", "é x", "ab'\\"];
                for i in inputs {
                    if let o @ (Outcome::Crash(_) | Outcome::Runaway(_)) = run(&m, i) {
                        return fail(format!("the compiled script on {:?}: {}", i, o.brief()));
                    }
                }
            }
            Verdict::Pass
        }
        Compiled::Err(e) => {
            obs.label("is rejected");
            match sane(&text, &e) {
                None => Verdict::Pass,
                Some(w) => fail(w),
            }
        }
        Compiled::Crash(m) => fail(format!("compiling panics: {}", m)),
    }
}

// ---------------------------------------------------------------- S03

pub fn s03(s: &mut Src, obs: &mut Obs) -> Verdict {
    if s.chance(1, 4) {
        return bad_range(s, obs);
    }
    let n = count(s, 6, 150);
    // What is repeated, what one iteration reads, and the token it gives
    let (inner, unit, token) = match s.below(6) {
        0 => (Expr::Eq("ab".into()), "ab", "Equals"),
        1 => (Expr::Re(crate::re::Re::Class(false, vec![('a', 'c')]), Default::default()), "b", "Matches"),
        2 => (Expr::Seq("(".into(), ")".into(), "\\".into()), "(é\\))", "Sequence"),
        3 => (Expr::Ref("W".into()), "日", "W"),
        4 => (Expr::Switch(vec![Pat::of(Expr::Eq("x".into())), Pat::of(Expr::Eq("é".into()))]), "é", "Equals"),
        _ => (Expr::Prog(vec![Pat::hidden(Expr::Eq("-".into())), Pat::of(Expr::Eq("v".into()))]), "-v", "Program"),
    };
    let rep = match s.below(6) {
        0 => Rep::Star,
        1 => Rep::Plus,
        2 => Rep::Num((n + s.range(0, 4)).saturating_sub(2)),
        3 => Rep::From((n + s.range(0, 4)).saturating_sub(2)),
        4 => {
            let a = (n + s.range(0, 4)).saturating_sub(3);
            Rep::Range(a, a + s.range(0, 4))
        }
        _ => Rep::Range(s.range(0, n), n + s.range(0, 2)),
    };
    let (lo, hi) = match rep {
        Rep::Star => (0, usize::MAX),
        Rep::Plus => (1, usize::MAX),
        Rep::Num(m) => (0, m),
        Rep::From(a) => (a, usize::MAX),
        Rep::Range(a, b) => (a, b),
    };
    let mut d = Def::of(inner);
    d.rep = Some(rep);
    let x = Script {
        header: Some(vec![]),
        items: vec![Item::Assign("W".into(), Def::of(Expr::Eq("日".into())))],
        pats: vec![Pat::of(Expr::Eq("<".into())), Pat { captured: true, name: None, def: d }, Pat::of(Expr::Eq(">".into()))],
    };
    let text = sc::noisy(s, &x);
    let input = format!("<{}>", unit.repeat(n));
    obs.case(format!("script {:?} on {} times {:?}", text, n, unit));
    obs.nontrivial_if(n >= 2 || n < lo || n > hi);
    obs.label(if n < lo { "too few" } else if n > hi { "too many" } else { "in range" });
    obs.label_if(n == lo || n == hi, "at a bound");
    let m = match compile(&text, "Script") {
        Compiled::Ok(m) => m,
        c => return fail(format!("a valid script does not compile: {}", c.brief())),
    };
    let fits = lo <= n && n <= hi;
    match run(&m, &input) {
        Outcome::Token(t) if fits => {
            let mut want: Vec<(String, R)> = vec![("Equals".into(), (0, 1))];
            if n > 0 {
                want.push(("Loop".into(), (1, 1 + n * unit.len())));
            }
            want.push(("Equals".into(), (1 + n * unit.len(), input.len())));
            if kids(&t) != want {
                return fail(format!("expected {:?}, got {:?}", want, kids(&t)));
            }
            if n > 0 {
                let l = &t.kids[1];
                let each: Vec<(String, R)> = (0..n).map(|i| leaf(token, 1 + i * unit.len(), 1 + (i + 1) * unit.len())).collect();
                if kids(l) != each {
                    return fail(format!("expected {} iterations, got {:?}", n, kids(l)));
                }
            }
            Verdict::Pass
        }
        Outcome::Fail if !fits => Verdict::Pass,
        o => fail(format!("{} repetitions of {:?}..{:?}: {}", n, lo, hi, o.brief())),
    }
}

/// Repeat specifiers that make no sense must not compile
fn bad_range(s: &mut Src, obs: &mut Obs) -> Verdict {
    let a = s.range(1, 30);
    let b = s.below(a);
    let w = s.text(&[" ", "\t"], 0, 2);
    let spec = match s.below(9) {
        0 | 1 => format!("{{{}{},{}{}}}", w, a, w, b),
        2 => format!("{{{}}}", w),
        3 => format!("{{,{}{}}}", w, a),
        4 => format!("{{{},{},{}}}", b, w, a),
        5 => format!("{{{}x}}", a),
        6 => format!("{{{}", a),
        7 => "{99999999999999999999}".to_string(),
        _ => format!("{{{} 9{}}}", b, a),
    };
    let assigned = s.chance(1, 3);
    let nested = s.chance(1, 3);
    let def = if nested { format!("<{{<='b'>(<='a'>{})}}>", spec) } else { format!("<='a'>{}", spec) };
    let text = if assigned { format!("<!--[adextopa version='1'] X={} -->(<='z'>)", def) } else { format!("(<='z'>)({})", def) };
    obs.case(format!("script {:?}", text));
    obs.nontrivial();
    obs.label("bad range");
    match compile(&text, "Script") {
        Compiled::Err(e) => match sane(&text, &e) {
            None => Verdict::Pass,
            Some(w) => fail(w),
        },
        c => fail(format!("expected errors, got {}", c.brief())),
    }
}

// ---------------------------------------------------------------- S04

const WORDS: &[&str] = &["A", "B1", "_c", "$d", "Equals", "Loop", "Matches", "E_$9", "Root", "import_", "as", "from"];

pub fn s04(s: &mut Src, obs: &mut Obs) -> Verdict {
    match s.weighted(&[3, 3, 1]) {
        0 => {
            let mut sg = Sg::new();
            sg.plain = true;
            sg.names = WORDS[..s.range(1, 4)].iter().map(|n| n.to_string()).collect();
            differential_script(s, obs, &mut sg, 3)
        }
        1 => words(s, obs),
        _ => shuffled(s, obs),
    }
}

/// Definitions of distinct words, some through others, in any order, some defined more than once
fn words(s: &mut Src, obs: &mut Obs) -> Verdict {
    let n = s.range(1, WORDS.len());
    // How each name is defined: by a literal of its own, or by an earlier name (as such, or as a definition)
    let mut how: Vec<(usize, usize)> = vec![];
    for i in 0..n {
        how.push((if i == 0 { 0 } else { s.below(3) }, s.below(i.max(1))));
    }
    let lit = |i: usize| format!("{}é", (b'a' + i as u8) as char);
    let define = |i: usize| match how[i] {
        (0, _) => Item::Assign(WORDS[i].into(), Def::of(Expr::Eq(lit(i)))),
        (1, j) => Item::Alias(WORDS[i].into(), WORDS[j].into()),
        (_, j) => Item::Assign(WORDS[i].into(), Def::of(Expr::Ref(WORDS[j].into()))),
    };
    let mut items: Vec<Item> = vec![];
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, s.below(i + 1));
    }
    for i in order {
        let at = s.below(items.len() + 1);
        if s.chance(1, 4) {
            // An earlier definition of the same name doesn't count
            let e = Expr::Eq("zz".into());
            items.push(Item::Assign(WORDS[i].into(), Def::of(e)));
        } else {
            items.insert(at, Item::Assign("unused".into(), Def::of(Expr::Eq("u".into()))));
        }
        items.push(define(i));
    }
    let m = count(s, 6, 40);
    let mut pats = vec![];
    let mut input = String::new();
    let mut want: Vec<(String, R)> = vec![];
    for _ in 0..m {
        let i = s.below(n);
        let hidden = s.chance(1, 5);
        pats.push(if hidden { Pat::hidden(Expr::Ref(WORDS[i].into())) } else { Pat::of(Expr::Ref(WORDS[i].into())) });
        let mut j = i;
        while how[j].0 > 0 {
            j = how[j].1;
        }
        let a = input.len();
        input.push_str(&lit(j));
        if !hidden {
            want.push((WORDS[j].into(), (a, input.len())));
        }
    }
    let undefined = s.chance(1, 6);
    if undefined {
        pats.push(Pat::of(Expr::Ref("nothing".into())));
    }
    if pats.is_empty() {
        pats.push(Pat::hidden(Expr::Eq("a".into())));
        input.push('a');
    }
    let x = Script { header: Some(vec![]), items, pats };
    let text = sc::noisy(s, &x);
    obs.case(format!("script {:?} on {:?}", text, input));
    obs.nontrivial_if(m >= 2 && n >= 2);
    obs.label_if(undefined, "undefined name");
    let c = match compile(&text, "Script") {
        Compiled::Ok(m) => m,
        c => return fail(format!("a valid script does not compile: {}", c.brief())),
    };
    match run(&c, &input) {
        Outcome::Fatal(m, _) if undefined && m.contains("nothing") => Verdict::Pass,
        Outcome::Token(t) if !undefined && kids(&t) == want => Verdict::Pass,
        Outcome::Fail if !undefined && want.is_empty() => Verdict::Pass,
        o => fail(format!("expected {:?}, got {}", if undefined { vec![] } else { want }, o.brief())),
    }
}

/// The order of the definitions of different names doesn't matter
fn shuffled(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut sg = Sg::new();
    sg.plain = s.chance(1, 2);
    let mut x = sg.script(s);
    let mut seen: Vec<String> = vec![];
    x.items.retain(|i| match i {
        Item::Assign(n, _) | Item::Alias(n, _) => {
            let new = !seen.contains(n);
            seen.push(n.clone());
            new
        }
        _ => true,
    });
    let mut y = x.clone();
    for i in (1..y.items.len()).rev() {
        let j = s.below(i + 1);
        y.items.swap(i, j);
    }
    let g = meaning(&[x.clone()], x.name().unwrap_or("Script"));
    let ins: Vec<String> = (0..3).map(|_| input_for(s, &g)).collect();
    let (a, b) = (sc::plain(&x), sc::plain(&y));
    obs.case(format!("script {:?} and {:?} on {:?}", a, b, ins));
    let ok = settled(&g, &ins, obs);
    obs.nontrivial_if(x.items.len() >= 2 && a != b && ok.iter().any(|o| o.1.is_token()));
    match (compile(&a, "Script"), compile(&b, "Script")) {
        (Compiled::Ok(m), Compiled::Ok(n)) => same_meaning(&m, &n, &ok.into_iter().map(|o| o.0).collect::<Vec<_>>()),
        (a, b) => fail(format!("a valid script does not compile: {} {}", a.brief(), b.brief())),
    }
}

// ---------------------------------------------------------------- S05

struct Files {
    dir: super::data::Scratch,
    /// relative to the directory
    names: Vec<&'static str>,
}

const FILES: &[&[&str]] = &[&["main.adext", "a.adext", "b.adext", "c.adext"], &["x/main", "x/lib/a.script", "lib é/b", "lib é/deep/c d"], &["1", "2", "3", "4"]];

impl Files {
    fn path(&self, k: usize) -> std::path::PathBuf {
        self.dir.0.join(self.names[k])
    }
    fn write(&self, k: usize, text: &[u8]) {
        let p = self.path(k);
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        std::fs::write(p, text).expect("write a script");
    }
}

/// From one file to another, written in one of several ways
fn path_between(s: &mut Src, names: &[&str], from: usize, to: usize, dir: &std::path::Path) -> String {
    let up = names[from].matches('/').count();
    let rel = format!("{}{}", "../".repeat(up), names[to]);
    match s.weighted(&[4, 2, 1, 1, 1]) {
        0 => rel,
        1 => format!("./{}", rel),
        2 => format!("{}/{}", dir.display(), names[to]),
        3 => format!(".//{}", rel.replacen('/', "//", 1)),
        _ => format!("{}../{}/{}", "../".repeat(up), dir.file_name().unwrap().to_str().unwrap(), names[to]),
    }
}

/// An acyclic graph of up to four files. The first one reaches all those that are marked.
fn graph(s: &mut Src, names: &[&str], dir: &std::path::Path) -> (Vec<Script>, Vec<bool>) {
    let n = s.range(1, 4);
    let mut files: Vec<Script> = vec![];
    // From the last one to the first, so that what can be imported is known
    for k in (0..n).rev() {
        let mut sg = Sg::new();
        sg.budget = 8;
        sg.plain = s.chance(2, 3);
        let mut imports = vec![];
        if k + 1 < n {
            let m = s.range(1, 2);
            for i in 0..m {
                // The one after it at least, so that most files are reached
                let to = if i == 0 { k + 1 } else { s.range(k + 1, n - 1) };
                let f: &Script = &files[to - k - 1];
                let mut known: Vec<String> = vec![];
                for i in &f.items {
                    match i {
                        Item::Assign(n, _) | Item::Alias(n, _) => known.push(n.clone()),
                        Item::Import(v, _, _) => known.extend(v.iter().map(|(n, a)| a.clone().unwrap_or_else(|| n.clone()))),
                    }
                }
                let c = s.range(1, 3);
                let mut v = vec![];
                for _ in 0..c {
                    let other = s.pick(&["R1", "R2", "Word", "A", "$x"]).to_string();
                    if known.is_empty() || s.chance(1, 3) {
                        v.push(("_".to_string(), Some(other)));
                    } else {
                        let name = s.pick(&known).clone();
                        v.push((name, if s.chance(1, 2) { Some(other) } else { None }));
                    }
                }
                for (n, a) in &v {
                    sg.names.push(a.clone().unwrap_or_else(|| n.clone()));
                }
                imports.push(Item::Import(v, path_between(s, names, k, to, dir), to));
            }
        }
        let imported = sg.names.clone();
        let mut x = sg.script(s);
        if !imports.is_empty() {
            x.header.get_or_insert_with(Vec::new);
            for i in imports {
                let at = if s.chance(2, 3) { 0 } else { s.below(x.items.len() + 1) };
                x.items.insert(at, i);
            }
            // Most scripts use what they import
            if s.chance(3, 4) {
                let r = Expr::Ref(s.pick(&imported).clone());
                let at = s.below(x.pats.len() + 1);
                x.pats.insert(at, Pat::of(r));
            }
        }
        files.insert(0, x);
    }
    // indices in imports are absolute already
    let mut reached = vec![false; n];
    let mut todo = vec![0];
    while let Some(k) = todo.pop() {
        if reached[k] {
            continue;
        }
        reached[k] = true;
        for i in &files[k].items {
            if let Item::Import(_, _, to) = i {
                todo.push(*to);
            }
        }
    }
    (files, reached)
}

pub fn s05(s: &mut Src, obs: &mut Obs) -> Verdict {
    let names: Vec<&'static str> = s.pick(FILES).to_vec();
    let dir = super::data::Scratch::new();
    let fs = Files { dir, names };
    let place = fs.dir.0.to_str().unwrap().to_string();
    let mode = s.weighted(&[5, 3, 1]);
    let kind = s.below(9);
    let changes = s.chance(1, 4);
    let (mut files, reached) = graph(s, &fs.names, &fs.dir.0);
    let good = (files.clone(), reached.clone());
    let mut bad: Option<(usize, Vec<u8>)> = None;
    let mut what = "a graph of scripts";
    if mode == 1 {
        let at: Vec<usize> = (0..files.len()).filter(|k| reached[*k]).collect();
        let k = *s.pick(&at);
        let n = files.len();
        let first = fs.names[k].matches('/').count();
        let add = |files: &mut Vec<Script>, names: Vec<(String, Option<String>)>, path: String, s: &mut Src| {
            let x = &mut files[k];
            x.header.get_or_insert_with(Vec::new);
            let at = s.below(x.items.len() + 1);
            x.items.insert(at, Item::Import(names, path, 0));
        };
        match kind {
            0 => {
                what = "a missing file";
                add(&mut files, vec![("_".into(), Some("Q".into()))], "no/such/file".into(), s);
            }
            1 => {
                what = "a directory";
                add(&mut files, vec![("_".into(), Some("Q".into()))], ".".into(), s);
            }
            2 => {
                what = "a circular import";
                // Back to any of the files that lead here: the first one always does
                let to = if s.chance(1, 2) { k } else { 0 };
                let p = path_between(s, &fs.names, k, to, &fs.dir.0);
                add(&mut files, vec![("_".into(), Some("Q".into()))], p, s);
            }
            3 => {
                what = "an unknown name";
                let to = if k + 1 < n { k + 1 } else { 3 };
                if to >= n {
                    fs.write(to, b"<!--[adextopa version='1'] Known=<='a'> -->(<Known>)");
                }
                let p = path_between(s, &fs.names, k, to, &fs.dir.0);
                add(&mut files, vec![("Unknown".into(), if s.chance(1, 2) { Some("Q".into()) } else { None })], p, s);
            }
            4 => {
                what = "a root pattern without a name";
                fs.write(3, b"(<='a'>)");
                if n > 3 {
                    files[3] = Script { header: None, items: vec![], pats: vec![Pat::of(Expr::Eq("a".into()))] };
                    if k == 3 {
                        return Verdict::Pass;
                    }
                    // what was imported from there may be gone; it is an error anyhow
                }
                let p = path_between(s, &fs.names, k, 3, &fs.dir.0);
                add(&mut files, vec![("_".into(), None)], p, s);
            }
            5 => {
                what = "a script with a syntax error";
                let t = s.pick(&["<='a'", "<!--[adextopa version='1'] A=<='a'>", "(<=''>)", "<!--[adextopa]-->", "", "hello", "(</(/>)", "<='a' k=v>", "<?!='a'>"]).as_bytes().to_vec();
                bad = Some((k, t));
            }
            6 => {
                what = "a file that is not text";
                bad = Some((k, vec![b'(', b'<', b'=', b'\'', 0xff, b'\'', b'>', b')']));
            }
            7 => {
                what = "an import in a string";
            }
            _ => {
                what = "a place whose name is not text";
                use std::os::unix::ffi::OsStrExt;
                let odd = fs.dir.0.join(std::ffi::OsStr::from_bytes(b"odd\xff"));
                let _ = std::fs::create_dir(&odd);
                let _ = std::fs::write(odd.join("x"), "<!--[adextopa version='1']-->(<='a'>)");
                let _ = std::os::unix::fs::symlink(&odd, fs.dir.0.join("odd"));
                add(&mut files, vec![("_".into(), Some("Q".into()))], format!("{}/odd/x", fs.dir.0.display()), s);
            }
        }
        let _ = first;
    }
    let mut texts: Vec<String> = vec![];
    for (k, x) in files.iter().enumerate() {
        let t = sc::noisy(s, x);
        fs.write(k, t.as_bytes());
        texts.push(t);
    }
    if let Some((k, t)) = &bad {
        fs.write(*k, t);
    }
    // The name of the file is the name of the root pattern; several ways to say it
    let file = match s.weighted(&[4, 1, 1]) {
        0 => fs.path(0).to_str().unwrap().to_string(),
        1 => format!("{}/./{}", place, fs.names[0]),
        _ => {
            let depth = std::env::current_dir().map(|d| d.components().count()).unwrap_or(1);
            format!("{}{}", "../".repeat(depth - 1), fs.path(0).to_str().unwrap().trim_start_matches('/'))
        }
    };
    // What the files become after they were compiled once: the same graph unbroken, or another
    let next = if changes {
        let (f, r) = if mode == 1 && s.chance(1, 2) { good } else { graph(s, &fs.names, &fs.dir.0) };
        let t: Vec<String> = f.iter().map(|x| sc::noisy(s, x)).collect();
        let g = meaning(&f, f[0].name().unwrap_or(&file));
        let ins: Vec<String> = (0..2).map(|_| input_for(s, &g)).collect();
        Some((r, t, g, ins))
    } else {
        None
    };
    let root = files[0].name().map(|n| n.to_string()).unwrap_or_else(|| file.clone());
    let clean = |t: &str| t.replace(&place, "DIR");
    let graph_text = |texts: &[String]| (0..texts.len()).map(|k| format!("{}: {:?}", fs.names[k], clean(&texts[k]))).collect::<Vec<_>>().join(" ");
    let later = next.as_ref().map_or(String::new(), |n| format!(" then {} on {:?}", graph_text(&n.1), n.3));
    let show = || graph_text(&texts);
    // The files change, and are compiled again
    let changed = |obs: &mut Obs| -> Verdict {
        let (r, t, g, ins) = match &next {
            Some(n) => n,
            None => return Verdict::Pass,
        };
        obs.label("files that change");
        for (k, t) in t.iter().enumerate() {
            fs.write(k, t.as_bytes());
        }
        let ok = settled(g, ins, obs);
        let m = match compile_file(&file) {
            Compiled::Ok(m) => m,
            c => return fail(format!("after a change of the files: valid scripts do not compile: {}", clean(&c.brief()))),
        };
        obs.nontrivial_if(r.iter().filter(|r| **r).count() > 1);
        for (i, e, _) in ok {
            if let Verdict::Fail(m) = agree(&e, &run(&m, &i)) {
                return fail(clean(&format!("after a change of the files: on {:?}: {}", i, m)));
            }
        }
        Verdict::Pass
    };
    if mode == 1 {
        obs.case(format!("{} {}{}{}", what, show(), bad.as_ref().map_or(String::new(), |b| format!(" replaced {}: {:?}", b.0, String::from_utf8_lossy(&b.1))), later));
        obs.label(what);
        obs.nontrivial();
        let c = if what == "an import in a string" {
            match texts.iter().find(|t| t.contains("from")) {
                Some(t) if files[0].items.iter().any(|i| matches!(i, Item::Import(..))) => {
                    let _ = t;
                    compile(&texts[0], "Script")
                }
                _ => return Verdict::Pass,
            }
        } else {
            compile_file(&file)
        };
        if what == "a place whose name is not text" {
            // Errors are fine, and so would be a matcher
            if let Compiled::Crash(m) = compile_file(&format!("{}/odd/x", place)) {
                return fail(format!("{}: compiling it panics: {}", what, clean(&m)));
            }
            if let Compiled::Ok(_) = c {
                return changed(obs);
            }
        }
        return match c {
            Compiled::Err(e) if !e.is_empty() && e.iter().all(|e| !e.0.is_empty()) => changed(obs),
            c => fail(format!("{}: expected errors, got {}", what, c.brief())),
        };
    }
    let g = meaning(&files, &root);
    let ins: Vec<String> = (0..3).map(|_| input_for(s, &g)).collect();
    obs.case(format!("{} on {:?}{}", show(), ins, later));
    obs.label(["1 file", "2 files", "3 files", "4 files"][reached.iter().filter(|r| **r).count() - 1]);
    let ok = settled(&g, &ins, obs);
    let m = match compile_file(&file) {
        Compiled::Ok(m) => m,
        c => return fail(format!("valid scripts do not compile: {}", clean(&c.brief()))),
    };
    if mode == 2 && !files[0].items.iter().any(|i| matches!(i, Item::Import(..))) {
        obs.label("file and string");
        return match compile(&texts[0], &file) {
            Compiled::Ok(n) => same_meaning(&m, &n, &ok.into_iter().map(|o| o.0).collect::<Vec<_>>()),
            c => fail(format!("compiles from a file, but not from a string: {}", c.brief())),
        };
    }
    for (i, e, seen) in &ok {
        classify(obs, e);
        obs.nontrivial_if(files.len() > 1 && seen.refs > 0 && e.is_token());
        if let Verdict::Fail(m) = agree(e, &run(&m, i)) {
            return fail(clean(&format!("on {:?}: {}", i, m)));
        }
    }
    if let v @ Verdict::Fail(_) = changed(obs) {
        return v;
    }
    // What was compiled before stays as it was
    if next.is_some() {
        for (i, e, _) in &ok {
            if let Verdict::Fail(m) = agree(e, &run(&m, i)) {
                return fail(clean(&format!("what was compiled before a change of the files, on {:?}: {}", i, m)));
            }
        }
    }
    Verdict::Pass
}

// ---------------------------------------------------------------- S06

pub fn s06(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut sg = Sg::new();
    sg.plain = s.chance(1, 3);
    let x = sg.script(s);
    let a = sc::plain(&x);
    let g = meaning(&[x.clone()], x.name().unwrap_or("Script"));
    let ins: Vec<String> = (0..2).map(|_| input_for(s, &g)).collect();
    let b = sc::noisy(s, &x);
    let c = sc::noisy(s, &x);
    obs.case(format!("script {:?} and {:?} and {:?} on {:?}", a, b, c, ins));
    let ok = settled(&g, &ins, obs);
    obs.nontrivial_if(a != b && b != c && ok.iter().any(|o| o.1.is_token()));
    obs.label_if(b.contains('#') && b.contains('\n'), "with a comment");
    let ins: Vec<String> = ok.into_iter().map(|o| o.0).collect();
    match (compile(&a, "Script"), compile(&b, "Script"), compile(&c, "Script")) {
        (Compiled::Ok(x), Compiled::Ok(y), Compiled::Ok(z)) => match same_meaning(&x, &y, &ins) {
            Verdict::Pass => same_meaning(&x, &z, &ins),
            v => v,
        },
        (x, y, z) => fail(format!("does not compile in each spelling: {} / {} / {}", x.brief(), y.brief(), z.brief())),
    }
}

// ---------------------------------------------------------------- S07

pub fn s07(s: &mut Src, obs: &mut Obs) -> Verdict {
    let keys = ["k", "name", "x+y", "é", "1", "K", "version", "a_b", "captured_range"];
    let gen = |s: &mut Src, sg: &Sg| -> Vec<(String, String)> {
        let n = s.weighted(&[1, 3, 2, 1]);
        (0..n).map(|_| (s.pick(&keys).to_string(), sg.value(s))).collect()
    };
    let sg = Sg::new();
    // A chain of names: the attributes that are closer to the text win
    let n = s.range(0, 4);
    let base = s.below(4);
    let mut items = vec![];
    let mut layers: Vec<Vec<(String, String)>> = vec![];
    let (expr, text) = match base {
        0 => (Expr::Eq("ab".into()), "ab"),
        1 => (Expr::Re(crate::re::Re::Lit('é'), Default::default()), "é"),
        2 => (Expr::Seq("(".into(), ")".into(), "\\".into()), "(x)"),
        _ => (Expr::Prog(vec![Pat::of(Expr::Eq("p".into())), Pat::hidden(Expr::Eq("q".into()))]), "pq"),
    };
    let mut d = Def::of(expr);
    d.attrs = gen(s, &sg);
    layers.push(d.attrs.clone());
    for i in 0..n {
        items.push(Item::Assign(WORDS[i].into(), d));
        d = Def::of(Expr::Ref(WORDS[i].into()));
        d.attrs = gen(s, &sg);
        if s.chance(1, 6) {
            d.inner = Mod::Opt;
        }
        layers.push(d.attrs.clone());
    }
    let times = s.range(0, 3);
    if times > 0 {
        d.rep = Some(Rep::Plus);
    }
    let x = Script { header: Some(if s.chance(1, 3) { gen(s, &sg).into_iter().filter(|a| a.0 != "version" && a.0 != "name").collect() } else { vec![] }), items, pats: vec![Pat { captured: true, name: None, def: d }] };
    let script = sc::noisy(s, &x);
    let mut want: std::collections::BTreeMap<String, String> = Default::default();
    for l in &layers {
        let mut mine: std::collections::BTreeMap<String, String> = Default::default();
        for (k, v) in l {
            mine.insert(k.clone(), v.clone());
        }
        for (k, v) in mine {
            want.entry(k).or_insert(v);
        }
    }
    let input = text.repeat(times.max(1));
    obs.case(format!("script {:?} on {:?}", script, input));
    obs.nontrivial_if(want.len() >= 2);
    obs.label_if(layers.iter().map(|l| l.len()).sum::<usize>() > want.len(), "given more than once");
    let m = match compile(&script, "Script") {
        Compiled::Ok(m) => m,
        c => return fail(format!("a valid script does not compile: {}", c.brief())),
    };
    match run(&m, &input) {
        Outcome::Token(t) => {
            let got: Vec<&crate::dump::D> = match t.kids.first() {
                Some(l) if times > 0 => l.kids.iter().collect(),
                Some(k) => vec![k],
                None => vec![],
            };
            if got.len() != times.max(1) {
                return fail(format!("expected {} tokens, got {}", times.max(1), t.brief()));
            }
            for k in got {
                let mut attrs = k.attrs.clone();
                // The library keeps the text of a sequence there
                attrs.remove("__value");
                if attrs != want {
                    return fail(format!("attributes {:?}, expected {:?}", k.attrs, want));
                }
                if let Some(c) = k.kids.iter().find(|c| !c.attrs.is_empty()) {
                    return fail(format!("a child got attributes {:?}", c.attrs));
                }
            }
            if !t.attrs.is_empty() || times > 0 && !t.kids[0].attrs.is_empty() {
                return fail("attributes on an outer token");
            }
            Verdict::Pass
        }
        o => fail(format!("expected a token, got {}", o.brief())),
    }
}

// ---------------------------------------------------------------- S08

const BREAKS: &[&str] = &[
    "<", ">", "(", ")", "[", "]", "{", "}", "|", "'", "/", "\\", "=", "?", "!", "*", "+", "#", "\n", " ", ",", "%", "a", "1", "é", "''", "='a'", "<='b'>", "(<='b'>)", "-->", "<!--[adextopa version='1']", "A", "A=B", "import", "_", "as", "k='v'",
    "_k='v'", "k=v", "{1}", "{2,1}", "{1,}", "//", "/a/", "# c\n", "version='1'", "version='x'", "?!", "!?",
];

// Every form of the language, in little space
const SMALL: &[&str] = &[
    "(<='a'>)",
    "<='a'>",
    r"(<='a\'b'>)",
    "(</a/>)",
    r"(</a\/[b]/i>)",
    "(</a/imsu>)",
    "(<%'a','b','c'>)",
    "(<%'a', 'b', ''>)",
    "(?<='a'>)",
    "(!<='a'>)",
    "(<?='a'>)",
    "(<!='a'>)",
    "(<='a'>*)",
    "(<='a'>+)",
    "(<='a'>{2})",
    "(<='a'>{1,2})",
    "(<='a'>{1,})",
    "(<='a'>{ 1 , 2 })",
    "(?<A>)",
    "(?'A'<='a'>)",
    "( ?'A b' <='a'> )",
    "(<='a' x='1'>)",
    "(<='a' x='1' y='2'>)",
    "(<='a' name = 'A' >*)",
    "(<[<='a'>|</b/>]>)",
    "(<[(<='a'>)|(?</b/>+)]>)",
    "(<[ (<='a'>) | <='c'> ] x='1'>)",
    "(<{(<='a'>)<='b'>}>)",
    "(<{ <='a'> (</b/>) }>{1,2})",
    "(<='a'>) # a comment\n<='b'>",
    "# a\n(<='a'>)",
    "<!--[adextopa version='1']-->\n(<='a'>)",
    "<!--[adextopa version='1']\nA = <='a'>\n-->\n(<A>)",
    "<!--[adextopa version='1']\nA=?<='a'>\nB=A\n-->(<B>)",
    "<!--[adextopa version='1']\nA = <[<='a'>|</b/>] x='1'>+ # c\n-->\n(<A>)(<A>)",
    "<!--[adextopa version='1' x='2']-->(<='a'>) <='b'>",
    "<!--[adextopa name='N' version='1']A=<{(<A>)}>-->(<A>)",
    "<!--[adextopa version='1']\nimport { A, B as C } from './nowhere'\n-->(<A>)",
];

pub fn s08(s: &mut Src, obs: &mut Obs) -> Verdict {
    // Small scripts are changed in one place mostly, so that most such changes are made in a run
    let small = s.chance(5, 6);
    let t = if small {
        s.pick(SMALL).to_string()
    } else {
        let mut sg = Sg::new();
        sg.plain = s.chance(1, 2);
        sg.budget = 6;
        let x = sg.script(s);
        if s.chance(1, 2) {
            sc::plain(&x)
        } else {
            sc::noisy(s, &x)
        }
    };
    let n = s.weighted(if small { &[1, 40, 4, 1] } else { &[1, 6, 3, 1] });
    let text = (0..n).fold(t, |t, _| {
        // one change at a time
        let mut v: Vec<char> = t.chars().collect();
        let mut at = s.below(v.len() + 1);
        let kind = s.below(8);
        if kind > 3 {
            // at or next to a character with a meaning
            let marks: Vec<usize> = (0..v.len()).filter(|i| "<>()[]{}|,=!?*+%'/-#".contains(v[*i])).collect();
            if !marks.is_empty() {
                at = *s.pick(&marks);
            }
        }
        // any character that can be typed, and some that look like others
        let any = |s: &mut Src| -> char {
            // the ones that aren't letters or digits more often
            let c = if s.chance(2, 3) { s.below(43) + 62 } else { s.below(62) };
            if c < 62 {
                char::from(b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"[c])
            } else if c < 95 {
                char::from(b" !\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"[c - 62])
            } else {
                ['\t', '\n', '\r', '\u{b}', '\u{c}', '\u{a0}', '\u{2028}', '\u{feff}', 'é', '，'][c - 95]
            }
        };
        match kind {
            4 => v.insert(at, any(s)),
            5 if at < v.len() => v[at] = any(s),
            6 if at + 1 < v.len() => v.swap(at, at + 1),
            7 if at < v.len() => {
                let c = v[at];
                let to = s.below(v.len() + 1);
                if s.chance(1, 2) {
                    v.remove(at);
                }
                v.insert(to.min(v.len()), c);
            }
            0 => {
                let p: Vec<char> = s.pick(BREAKS).chars().collect();
                v.splice(at..at, p);
            }
            1 if at < v.len() => {
                v.remove(at);
            }
            2 => {
                let p: Vec<char> = s.pick(BREAKS).chars().collect();
                let end = (at + 1).min(v.len());
                v.splice(at..end, p);
            }
            _ => {
                let end = (at + s.range(1, 6)).min(v.len());
                v.drain(at.min(end)..end);
            }
        }
        v.into_iter().collect()
    });
    obs.case(format!("script {:?}", text));
    let want = sc::recognise(&text);
    obs.nontrivial_if(n > 0 && want != Answer::Unsure && text.len() > 10);
    obs.label(match want {
        Answer::Valid => "valid",
        Answer::Invalid => "invalid",
        Answer::Unsure => "unsure",
    });
    match (want, compile(&text, "Script")) {
        (_, Compiled::Crash(m)) => fail(format!("compiling panics: {}", m)),
        (Answer::Unsure, _) => Verdict::Pass,
        (Answer::Valid, Compiled::Ok(_)) => Verdict::Pass,
        (Answer::Invalid, Compiled::Err(e)) => match sane(&text, &e) {
            None => Verdict::Pass,
            Some(w) => fail(w),
        },
        (Answer::Valid, c) => fail(format!("a valid script does not compile: {}", c.brief())),
        (Answer::Invalid, _) => fail("an invalid script compiles"),
    }
}

// ---------------------------------------------------------------- S09

const CHARS: &[&str] = &["a", "b", "'", "\\", "/", "\"", "<", ">", "(", ")", "[", "]", "{", "}", "|", "#", "=", "%", "?", "!", "*", "+", "-->", "\n", "\r", "\t", " ", "é", "日", "🙂", "\u{301}", "\u{feff}", "\u{0}", "\u{a0}", "0", "_", "$", ",", "n"];

pub fn s09(s: &mut Src, obs: &mut Obs) -> Verdict {
    let spell = |s: &mut Src, e: Expr, hidden: bool| -> String {
        let assigned = s.chance(1, 3);
        let x = if assigned {
            Script { header: Some(vec![]), items: vec![Item::Assign("A".into(), Def::of(e))], pats: vec![Pat { captured: !hidden, name: None, def: Def::of(Expr::Ref("A".into())) }] }
        } else {
            Script { header: None, items: vec![], pats: vec![Pat { captured: !hidden, name: None, def: Def::of(e) }] }
        };
        if s.chance(1, 2) {
            sc::plain(&x)
        } else {
            sc::noisy(s, &x)
        }
    };
    let kind = s.weighted(&[3, 3, 2]);
    let (script, inputs, want): (String, Vec<String>, Vec<Option<(usize, String, String)>>) = match kind {
        0 => {
            let n = count(s, 4, 40).max(1);
            let t: String = (0..n).map(|_| *s.pick(CHARS)).collect();
            let script = spell(s, Expr::Eq(t.clone()), false);
            let cut: String = t.chars().take(t.chars().count() - 1).collect();
            let extra = s.pick(CHARS);
            let ins = vec![t.clone(), format!("{}{}", t, extra), cut, gen::mutate(s, &t, CHARS)];
            let want = ins.iter().map(|i| if i.starts_with(&t) { Some((t.len(), t.clone(), t.clone())) } else { None }).collect();
            obs.nontrivial_if(t.contains(|c| c == '\'' || c == '\\'));
            (script, ins, want)
        }
        1 => {
            let sg = Sg::new();
            let r = sg.regex(s);
            let f = crate::re::Flags { i: s.chance(1, 4), s: s.chance(1, 4), m: s.chance(1, 4), u: s.chance(1, 6) };
            let script = spell(s, Expr::Re(r.clone(), f), false);
            let a = r.sample(s);
            let b = r.sample(s);
            let mut ins = vec![a.clone(), gen::mutate(s, &b, PIECES), format!("{}{}", b, a), a.to_uppercase()];
            // Those are a known finding of P02
            ins.retain(|i| !r.crate_errs(i, f, r.match_prefix(i, f)));
            let want = ins
                .iter()
                .map(|i| match r.match_prefix(i, f) {
                    Some(n) if n > 0 => Some((n, i[..n].to_string(), i[..n].to_string())),
                    _ => None,
                })
                .collect();
            obs.nontrivial_if(r.render().len() > 3);
            (script, ins, want)
        }
        _ => {
            let d = |s: &mut Src, lo: usize| -> String {
                let n = s.range(lo, 2);
                (0..n).map(|_| *s.pick(&["'", "\\", "\"", "(", ")", "-->", "é", "/", "|", "日", "*", "<"])).collect()
            };
            let (a, b) = (d(s, 1), d(s, 1));
            let e = d(s, 0);
            let script = spell(s, Expr::Seq(a.clone(), b.clone(), e.clone()), false);
            let pieces = [a.as_str(), b.as_str(), e.as_str(), "x", "é", "\\"];
            let body: String = (0..s.range(0, 5)).map(|_| *s.pick(&pieces)).collect();
            let ins = vec![format!("{}{}{}", a, body, b), format!("{}{}", a, body), format!("{}{}{}x", a, body, b), body.clone()];
            let want = ins.iter().map(|i| model::sequence(i, &a, &b, &e).map(|(n, v, _)| (n + b.len(), i[..n + b.len()].to_string(), v))).collect();
            obs.nontrivial_if(!body.is_empty() && !e.is_empty());
            (script, ins, want)
        }
    };
    obs.case(format!("script {:?} on {:?}", script, inputs));
    obs.label(["a literal", "a regex", "a sequence"][kind]);
    let m = match compile(&script, "Script") {
        Compiled::Ok(m) => m,
        c => return fail(format!("a valid script does not compile: {}", c.brief())),
    };
    for (i, w) in inputs.iter().zip(&want) {
        let ok = match (run(&m, i), w) {
            (Outcome::Fail, None) => Ok(()),
            (Outcome::Token(t), Some((n, matched, value))) => match t.kids.as_slice() {
                [k] if k.mat == (0, *n) && k.matched == *matched && (k.value == *value) => Ok(()),
                _ => Err(format!("{:?}", t)),
            },
            (o, _) => Err(o.brief()),
        };
        if let Err(o) = ok {
            return fail(format!("on {:?}: expected {:?}, got {}", i, w, o));
        }
    }
    Verdict::Pass
}

// ---------------------------------------------------------------- S10

pub fn s10(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut sg = Sg::new();
    sg.budget = 8;
    let mut x = sg.script(s);
    let kind = s.weighted(&[4, 3, 2]);
    // Choose the places before the script is written
    let mut total = 0;
    x.each_def(&mut |_| total += 1);
    let mut fatal: Option<usize> = None;
    let mut version: Option<&'static str> = Some("1");
    match kind {
        0 => {
            // Mistakes that don't stop the parser
            let n = s.range(1, 4);
            for _ in 0..n {
                let at = s.below(total);
                let how = s.below(4);
                let key = s.pick(&["_x", "_", "__", "_1é", "_+_"]).to_string();
                let before = s.chance(1, 2);
                let mut i = 0;
                x.each_def(&mut |d| {
                    if i == at {
                        match how {
                            0 => d.outer = Mod::Both(before),
                            1 => d.inner = Mod::Both(before),
                            _ => {
                                let p = if before { 0 } else { d.attrs.len() };
                                d.attrs.insert(p, (key.clone(), "v".into()));
                            }
                        }
                    }
                    i += 1;
                });
            }
        }
        1 => {
            let at = s.below(total);
            let v = format!("{}{}", BARE, s.pick(&["v", "1", "\"x\"", "é日", "/", "a>", "#"]));
            let before = s.chance(1, 2);
            let mut i = 0;
            x.each_def(&mut |d| {
                if i == at {
                    let p = if before { 0 } else { d.attrs.len() };
                    d.attrs.insert(p, ("k".into(), v.clone()));
                }
                i += 1;
            });
            fatal = Some(at);
        }
        _ => {
            let h = x.header.get_or_insert_with(Vec::new);
            h.retain(|a| a.0 != "version");
            let earlier = if s.chance(1, 2) { s.range(1, 2) } else { 0 };
            for _ in 0..earlier {
                // Of several versions the last one counts
                let at = s.below(h.len() + 1);
                h.insert(at, ("version".into(), s.pick(&["1", "x", "", "77"]).to_string()));
            }
            version = *s.pick(&[None, Some("x"), Some(""), Some("1.0"), Some("-1"), Some("1é"), Some(" 1"), Some("99999999999999999999")]);
            if version.is_none() {
                h.retain(|a| a.0 != "version");
            }
        }
    }
    let mut st = Style::new(if s.chance(3, 4) { Some(s) } else { None });
    st.version_text = version;
    st.script(&x);
    let (text, marks, head, vat) = (st.out, st.marks, st.head, st.version);
    obs.case(format!("script {:?}", text));
    obs.nontrivial_if(text.len() > 20);
    let errors = match compile(&text, "Script") {
        Compiled::Err(e) => e,
        c => return fail(format!("expected errors, got {}", c.brief())),
    };
    if let Some(w) = sane(&text, &errors) {
        return fail(w);
    }
    let mut want: Vec<(String, R)> = vec![];
    match kind {
        0 => {
            obs.label("mistakes that are collected");
            obs.label_if(marks.len() > 1, "several mistakes");
            want = marks.iter().map(|m| (m.2.to_string(), (m.0, m.1))).collect();
        }
        1 => {
            obs.label("an unquoted value");
            let _ = fatal;
            let m = marks.iter().find(|m| m.2 == UNQUOTED).unwrap();
            // Up to the next quote or whitespace
            let end = text[m.0..].find(|c: char| c == '\'' || c.is_whitespace()).map_or(text.len(), |n| m.0 + n);
            want.push((m.2.to_string(), (m.0, end)));
        }
        _ => {
            obs.label("a wrong version");
            match version {
                None => want.push(("Adextopa scope must have a 'version' attribute".into(), head)),
                Some(_) => want.push(("Adextopa 'version' attribute must be a valid integer number".into(), vat)),
            }
        }
    }
    if version.is_none() {
        // The scope, or at least what is in brackets
        if let [(m, Some(r))] = errors.as_slice() {
            if r.0 == head.0 && r.1 >= head.1 && *m == model::error_string(&text, "", &want[0].0, *r) {
                return Verdict::Pass;
            }
        }
    }
    let mut want: Vec<(String, Option<R>)> = want.into_iter().map(|(m, r)| (model::error_string(&text, "", &m, r), Some(r))).collect();
    let mut got = errors.clone();
    want.sort_by(|a, b| a.1.cmp(&b.1));
    got.sort_by(|a, b| a.1.cmp(&b.1));
    if got != want {
        return fail(format!("expected {:?}, got {:?}", want, errors));
    }
    Verdict::Pass
}

// ---------------------------------------------------------------- S11

pub fn s11(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut sg = Sg::new();
    sg.named = true;
    sg.plain = s.chance(2, 3);
    let x = sg.script(s);
    let (given, root) = name_of(s, &x);
    let text = sc::noisy(s, &x);
    let g = meaning(&[x.clone()], &root);
    // What the library does instead: the known finding
    let mut y = x.clone();
    let mut named = 0;
    let mut refs = 0;
    y.each(&mut |p| {
        if p.name.is_some() {
            named += 1;
            p.name = match p.def.expr {
                Expr::Ref(_) => {
                    refs += 1;
                    None
                }
                _ => Some("Name".into()),
            };
        }
    });
    let h = meaning(&[y], &root);
    let ins: Vec<String> = (0..3).map(|_| input_for(s, &g)).collect();
    obs.case(format!("script {:?} on {:?}", text, ins));
    obs.label_if(named > 0, "with named captures");
    obs.label_if(refs > 0, "with named references");
    let m = match compile(&text, &given) {
        Compiled::Ok(m) => m,
        c => return fail(format!("a valid script does not compile: {}", c.brief())),
    };
    let mut known = false;
    for i in ins {
        let (c, d) = (Case::new(g.clone(), i.clone()), Case::new(h.clone(), i.clone()));
        let (e, _) = match expect_with(&c, obs, STEPS, DEPTH) {
            Some(x) => x,
            None => continue,
        };
        obs.nontrivial_if(named > 0 && e.is_token());
        let got = run(&m, &i);
        if diff(&e, &got).is_none() {
            continue;
        }
        if let Some((k, _)) = expect_with(&d, obs, STEPS, DEPTH) {
            if diff(&k, &got).is_none() {
                known = true;
                continue;
            }
        }
        if let Verdict::Fail(m) = agree(&e, &got) {
            return fail(format!("on {:?}: {}", i, m));
        }
    }
    if known {
        Verdict::Known("capture-name")
    } else {
        Verdict::Pass
    }
}

// ---------------------------------------------------------------- S12

pub fn s12(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut sg = Sg::new();
    let x = sg.script(s);
    let mut text = sc::noisy(s, &x);
    let broken = s.chance(1, 4);
    if broken {
        text = gen::mutate(s, &text, BREAKS);
    }
    let g = meaning(&[x.clone()], x.name().unwrap_or("Script"));
    let ins: Vec<String> = (0..4).map(|_| input_for(s, &g)).collect();
    obs.case(format!("script {:?} on {:?}", text, ins));
    let a = compile(&text, "Script");
    let (b, quiet) = crate::engine::stderr_of(|| compile(&text, "Script"));
    let (c, log) = crate::engine::stderr_of(|| {
        guarded(|| compile_script_from_str(&text, "Script".into(), adextopa_core::script::current::parser::FLAG_LOG_STDERR))
    });
    if !quiet.is_empty() {
        return fail(format!("without logging there is a log {:?}", quiet));
    }
    let want: String = match &c {
        Compiled::Err(errors) => errors.iter().map(|e| format!("{}\n", e.0)).collect(),
        _ => String::new(),
    };
    if log != want {
        return fail(format!("the log is {:?}, expected {:?}", log, want));
    }
    match (a, b, c) {
        (Compiled::Ok(a), Compiled::Ok(b), Compiled::Ok(c)) => {
            if broken {
                return Verdict::Pass;
            }
            let ok = settled(&g, &ins, obs);
            let first: Vec<Outcome> = ok.iter().map(|o| run(&a, &o.0)).collect();
            obs.nontrivial_if(first.iter().filter(|o| o.is_token()).count() >= 2);
            // In another order, again, with another copy, and after other texts
            for (k, o) in ok.iter().enumerate().rev() {
                for (how, m) in [("run again", &a), ("compiled again", &b), ("compiled with logging", &c)] {
                    if let Some(d) = diff(&first[k], &run(m, &o.0)) {
                        return fail(format!("{} on {:?}: {}", how, o.0, d));
                    }
                }
            }
            Verdict::Pass
        }
        (Compiled::Err(a), Compiled::Err(b), Compiled::Err(c)) => {
            obs.label("is rejected");
            if a == b && b == c {
                Verdict::Pass
            } else {
                fail(format!("errors differ: {:?} {:?} {:?}", a, b, c))
            }
        }
        (a, b, c) => fail(format!("compiles differ: {} / {} / {}", a.brief(), b.brief(), c.brief())),
    }
}

// ---------------------------------------------------------------- S13

/// Another way to say the same, at a random place. None if it does not fit there.
fn said_differently(s: &mut Src, x: &mut Script, fresh: &mut usize) -> Option<&'static str> {
    let never = || Pat::hidden(Expr::Re(crate::re::Re::Class(false, vec![('\u{1}', '\u{1}')]), Default::default()));
    let mut pats = 0;
    x.each(&mut |_| pats += 1);
    let at = s.below(pats);
    *fresh += 1;
    let name = format!("Fresh_{}", fresh);
    let kind = s.below(10);
    let solid = |d: &Def| d.outer == Mod::No && d.inner == Mod::No && d.rep.is_none() && matches!(d.expr, Expr::Eq(_) | Expr::Seq(..) | Expr::Prog(_));
    let pick = s.below(1 << 16);
    let mut done = None;
    let mut item = None;
    let mut k = 0;
    // The children of one node, or the patterns of the script itself
    let list = |v: &mut Vec<Pat>, choice: bool| -> Option<&'static str> {
        let at = pick % (v.len() + 1);
        match kind {
            6 if !choice => {
                // An attempt that fails, or a look ahead at what isn't there
                let like = v[pick % v.len()].clone();
                let mut d = Def::of(Expr::Prog(vec![like, never()]));
                let m = if pick & 256 == 0 { Mod::Opt } else { Mod::Not };
                if pick & 512 == 0 {
                    d.outer = m;
                } else {
                    d.inner = m;
                }
                v.insert(at, Pat { captured: pick & 1024 == 0, name: None, def: d });
                Some("an attempt that fails")
            }
            6 => {
                let like = v[pick % v.len()].clone();
                v.insert(at, Pat { captured: pick & 1024 == 0, name: None, def: Def::of(Expr::Prog(vec![like, never()])) });
                Some("an alternative that fails late")
            }
            7 if choice => {
                let from = pick % v.len();
                let to = from + 1 + (pick / 64) % (v.len() - from);
                let some: Vec<Pat> = v.splice(from..to, []).collect();
                v.insert(from, Pat::of(Expr::Switch(some)));
                Some("alternatives of alternatives")
            }
            8 if choice => {
                let from = pick % v.len();
                let again = v[from].clone();
                let to = from + 1 + (pick / 64) % (v.len() - from);
                v.insert(to, again);
                Some("an alternative a second time")
            }
            _ => None,
        }
    };
    if kind >= 6 && pick % 7 == 0 {
        return list(&mut x.pats, false);
    }
    x.each(&mut |p| {
        k += 1;
        if k - 1 != at || done.is_some() {
            return;
        }
        let d = &mut p.def;
        done = match kind {
            // Hidden, so that the name the token gets does not show
            0 if !p.captured || matches!(d.expr, Expr::Ref(_) | Expr::Switch(_)) => {
                let def = std::mem::replace(d, Def::of(Expr::Ref(name.clone())));
                item = Some(Item::Assign(name.clone(), def));
                Some("a definition of its own")
            }
            1 => match &mut d.expr {
                Expr::Ref(n) => {
                    let to = std::mem::replace(n, name.clone());
                    item = Some(Item::Alias(name.clone(), to));
                    Some("another name for it")
                }
                _ => None,
            },
            2 if d.rep.is_none() && d.inner != d.outer && (d.inner == Mod::No || d.outer == Mod::No) => {
                std::mem::swap(&mut d.inner, &mut d.outer);
                Some("the modifier in the other place")
            }
            3 => match d.rep {
                Some(Rep::Star) => {
                    d.rep = Some(Rep::From(0));
                    Some("a repetition written with numbers")
                }
                Some(Rep::Plus) => {
                    d.rep = Some(Rep::From(1));
                    Some("a repetition written with numbers")
                }
                Some(Rep::Num(n)) if n > 0 => {
                    d.rep = Some(Rep::Range(0, n));
                    Some("a repetition written with a range")
                }
                Some(Rep::From(n)) => {
                    d.rep = Some(Rep::Range(n, 9_999_999));
                    Some("a maximum that is out of reach")
                }
                _ => None,
            },
            4 if !p.captured && solid(d) => {
                let inner = Pat { captured: pick & 1 == 0 || !matches!(d.expr, Expr::Eq(_)), name: None, def: d.clone() };
                if !inner.captured {
                    return;
                }
                *d = Def::of(Expr::Prog(vec![inner]));
                Some("grouped")
            }
            5 if solid(d) && d.attrs.is_empty() => {
                let mut v = vec![Pat::of(d.expr.clone())];
                if pick & 1 == 0 {
                    v.insert(0, never());
                }
                *d = Def::of(Expr::Switch(v));
                Some("the only alternative")
            }
            9 if d.outer == Mod::Opt => {
                let def = std::mem::replace(d, Def::of(Expr::Ref(name.clone())));
                if !p.captured || matches!(def.expr, Expr::Ref(_) | Expr::Switch(_)) {
                    d.outer = Mod::Opt;
                    item = Some(Item::Assign(name.clone(), def));
                    Some("optional twice")
                } else {
                    *d = def;
                    None
                }
            }
            _ => match &mut d.expr {
                Expr::Switch(v) => list(v, true),
                Expr::Prog(v) => list(v, false),
                _ => None,
            },
        };
    });
    if let Some(i) = item {
        x.header.get_or_insert_with(Vec::new);
        let at = s.below(x.items.len() + 1);
        x.items.insert(at, i);
    }
    done
}

pub fn s13(s: &mut Src, obs: &mut Obs) -> Verdict {
    let mut sg = Sg::new();
    sg.plain = s.chance(1, 2);
    let mut x = sg.script(s);
    // An attempt at a name that is not there is an error and not a failure
    x.each_def(&mut |d| {
        if matches!(&d.expr, Expr::Ref(n) if n == "nowhere") {
            d.expr = Expr::Eq("a".into());
        }
    });
    let apart = s.chance(1, 8);
    if apart {
        // What is imported has the name it is imported under; an alternative has its own if it is not
        x.items.retain(|i| matches!(i, Item::Assign(_, d) if d.rep.is_none() && !matches!(d.expr, Expr::Ref(_) | Expr::Switch(_))));
        let names: Vec<String> = x.items.iter().filter_map(|i| if let Item::Assign(n, _) = i { Some(n.clone()) } else { None }).collect();
        if names.is_empty() {
            obs.label("nothing to import");
            return Verdict::Pass;
        }
        let mut k = 0;
        x.each_def(&mut |d| {
            if let Expr::Ref(n) = &mut d.expr {
                if !names.contains(n) {
                    k += 1;
                    *n = names[k % names.len()].clone();
                }
            }
        });
    }
    if apart && x.name().is_none() {
        x.header.get_or_insert_with(Vec::new).push(("name".into(), "Root".into()));
    }
    let mut y = x.clone();
    let mut fresh = 0;
    let mut used = vec![];
    for _ in 0..s.range(if apart { 0 } else { 1 }, 5) {
        if let Some(why) = said_differently(s, &mut y, &mut fresh) {
            used.push(why);
        }
    }
    let name = x.name().unwrap_or("Script").to_string();
    let (g, h) = (meaning(&[x.clone()], &name), meaning(&[y.clone()], &name));
    let ins: Vec<String> = (0..3).map(|_| input_for(s, &g)).collect();
    let a = sc::plain(&x);
    let scratch;
    let (b, n) = if apart {
        used.push("imported");
        scratch = super::data::Scratch::new();
        let mut main = y.clone();
        let mut names: Vec<(String, Option<String>)> = vec![];
        for i in &y.items {
            if let Item::Assign(n, _) = i {
                if !names.iter().any(|x| x.0 == *n) {
                    names.push((n.clone(), None));
                }
            }
        }
        if y.items.iter().any(|i| !matches!(i, Item::Assign(_, d) if d.rep.is_none() && !matches!(d.expr, Expr::Ref(_) | Expr::Switch(_)))) {
            obs.label("other names for what is imported");
            return Verdict::Pass;
        }
        let lib = Script { header: Some(vec![]), items: std::mem::take(&mut main.items), pats: vec![Pat::of(Expr::Eq("x".into()))] };
        main.header.get_or_insert_with(Vec::new);
        main.items.push(Item::Import(names, "./lib".into(), 1));
        std::fs::write(scratch.0.join("lib"), sc::plain(&lib)).expect("write a script");
        let file = scratch.0.join("main");
        let text = sc::plain(&main);
        std::fs::write(&file, &text).expect("write a script");
        (format!("{} with {}", text, sc::plain(&lib)), compile_file(file.to_str().unwrap()))
    } else {
        let b = sc::plain(&y);
        let n = compile(&b, "Script");
        (b, n)
    };
    obs.case(format!("script {:?} and {:?} on {:?}", a, b, ins));
    for why in &used {
        obs.label(why);
    }
    let m = compile(&a, "Script");
    let (m, n) = match (m, n) {
        (Compiled::Ok(m), Compiled::Ok(n)) => (m, n),
        (m, n) => return fail(format!("does not compile in both forms: {} / {}", m.brief(), n.brief())),
    };
    let ok = settled(&g, &ins, obs);
    let ins: Vec<String> = ok.iter().map(|o| o.0.clone()).collect();
    let both = settled(&h, &ins, obs);
    obs.nontrivial_if(!used.is_empty() && both.iter().any(|o| o.1.is_token()));
    for (i, _, _) in &both {
        let strip = |o: Outcome| match o {
            // The place of an error depends on what is around it
            Outcome::Fatal(m, _) => Outcome::Fatal(m, None),
            o => o,
        };
        if let Some(d) = diff(&strip(run(&m, i)), &strip(run(&n, i))) {
            return fail(format!("on {:?}: {}", i, d));
        }
    }
    Verdict::Pass
}

// ---------------------------------------------------------------- S14

/// A grammar of the caller around two scripts
fn host(s: &mut Src, files: &[Script], own: &[String], depth: usize) -> G {
    let mut sub = |s: &mut Src| Box::new(host(s, files, own, depth + 1));
    let kind = if depth > 2 { s.weighted(&[5, 5, 2, 2]) } else { s.weighted(&[4, 4, 1, 2, 6, 3, 2, 1, 1, 1, 1, 1]) };
    match kind {
        0 => G::Ref(format!("Script{}", s.below(2))),
        1 => {
            let k = s.below(2);
            let names: Vec<String> = defined(&files[k]);
            let g = match names.len() {
                0 => G::Ref(format!("Script{}", k)),
                _ if s.chance(1, 6) => G::Prog(None, vec![G::Ref(s.pick(&names).clone()), G::Ref(s.pick(&names).clone())]),
                _ if s.chance(1, 12) => G::Ref(s.pick(NAMES).to_string()),
                _ => G::Ref(s.pick(&names).clone()),
            };
            G::SetScopeWith(k, Box::new(g))
        }
        2 if !own.is_empty() => G::Ref(s.pick(own).clone()),
        2 | 3 => G::Eq(None, Text::S(s.pick(&["a", "b", "1", " "]).to_string())),
        4 => {
            let n = s.range(2, 3);
            let v = (0..n).map(|_| *sub(s)).collect();
            G::Prog(if s.chance(1, 3) { Some("Host".into()) } else { None }, v)
        }
        5 => {
            let n = s.range(2, 3);
            G::Switch(None, (0..n).map(|_| *sub(s)).collect())
        }
        6 => {
            let span = s.pick(&[Span::From(0), Span::From(1), Span::Incl(0, 2), Span::Excl(1, 4)]).clone();
            G::Loop(None, span, vec![*sub(s)])
        }
        7 => G::Opt(sub(s)),
        8 => G::Not(sub(s)),
        9 => G::Flat(None, sub(s)),
        10 => G::Discard(sub(s)),
        _ => G::Store("Word".into(), sub(s)),
    }
}

fn defined(x: &Script) -> Vec<String> {
    x.items
        .iter()
        .filter_map(|i| match i {
            Item::Assign(n, _) | Item::Alias(n, _) => Some(n.clone()),
            _ => None,
        })
        .collect()
}

pub fn s14(s: &mut Src, obs: &mut Obs) -> Verdict {
    let plain = s.chance(2, 3);
    let mut files = vec![];
    let mut texts = vec![];
    let mut names = vec![];
    for _ in 0..2 {
        let mut sg = Sg::new();
        sg.plain = plain;
        sg.budget = 8;
        let x = sg.script(s);
        let (given, root) = name_of(s, &x);
        let noisy = s.chance(1, 8);
        texts.push((if noisy { sc::noisy(s, &x) } else { sc::plain(&x) }, given));
        names.push(root);
        files.push(x);
    }
    // Rules of the caller, some with names that the scripts have too
    let mut own: Vec<(String, G)> = vec![];
    for _ in 0..s.below(3) {
        let mut all: Vec<String> = files.iter().flat_map(defined).collect();
        all.push("Word".into());
        let n = s.pick(&all).clone();
        own.push((n, G::Eq(None, Text::S(s.pick(&["a", "b", "c"]).to_string()))));
    }
    let own_names: Vec<String> = own.iter().map(|o| o.0.clone()).collect();
    let mut g = meaning(&files, &names[0]);
    g.rules = (0..2).map(|k| (format!("Script{}", k), sc::root(&files, k, &names[k]))).chain(own.clone()).collect();
    g.root = host(s, &files, &own_names, 0);
    let ins: Vec<String> = (0..3).map(|_| input_for(s, &g)).collect();
    obs.case(format!("scripts {:?} grammar {:?} rules {:?} on {:?}", texts, g.root, own, ins));
    let mut b = real::Builder::new(0, real::FUEL);
    let mut rules = vec![];
    for (k, (text, given)) in texts.iter().enumerate() {
        let parser = Parser::new(text);
        let r = catch_unwind(AssertUnwindSafe(|| compile_script(parser, given.clone(), None, 0)));
        let (cx, m, scope) = match r {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => return fail(format!("valid script {} does not compile: {:?}", k, e)),
            Err(p) => return fail(format!("panic: {}", real::panic_text(p))),
        };
        if cx.borrow().get_parser().borrow().get_source() != text {
            return fail(format!("the context of script {} is about another text", k));
        }
        let others = ["Script", "Main", "é", "_", "", names[k].as_str()];
        for n in NAMES.iter().chain(&others).map(|n| n.to_string()).chain(defined(&files[k])) {
            let known = defined(&files[k]).contains(&n);
            let found = matches!(scope.borrow().get(&n), Some(VariableType::Matcher(_)));
            if known != found {
                return fail(format!("the scope of script {} {} {:?}", k, if found { "has" } else { "lacks" }, n));
            }
        }
        if m.borrow().get_name() != names[k] {
            return fail(format!("the matcher of script {} is called {:?}", k, m.borrow().get_name()));
        }
        b.scopes.push(scope);
        rules.push((format!("Script{}", k), m));
    }
    let root = b.build(&g.root);
    for (n, r) in &own {
        rules.push((n.clone(), b.build(r)));
    }
    for (input, e, seen) in settled(&g, &ins, obs) {
        classify(obs, &e);
        obs.nontrivial_if(e.is_token() && seen.refs > 1);
        let r = Ready { parser: Parser::new(&input), root: root.clone(), rules: rules.clone(), window: None, fuel: b.fuel.clone(), builder: real::Builder::new(0, 1) };
        if let Verdict::Fail(m) = agree(&e, &r.parse()) {
            return fail(format!("on {:?}: {}", input, m));
        }
    }
    Verdict::Pass
}
