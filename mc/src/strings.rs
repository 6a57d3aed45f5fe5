//! Token streams that need not be Rust: templates with a hole filled with all
//! short token strings, and single-token edits of declarations.
use crate::explore::*;
use crate::tok::*;

/// One unit per entry (a unit may be several tokens, as `::`).
pub const UNITS: &[&str] = &[
    "A", "x", ",", ";", ":", "::", "=", "<", ">", "->", "()", "{}", "[]", "#", "!", "&", "'a", "1", "\"C\"", "struct", "enum",
    "union", "fn", "const", "static", "type", "use", "impl", "trait", "mod", "extern", "crate", "unsafe", "async", "default",
    "pub", "where", "for", "mut", "self", "as", "dyn", "in", "_", "-", "+", "*", "?", ".", "@", "|", "(A)", "{x: A}", "[a]",
    "(self)", "{A}", "(crate)", "⟦A⟧", "(x: A)", "#[a]", "{ fn f(); }", "=>", "'", "r#fn", "(A, B)", "(in a)", "m!", "T: A",
];
/// A smaller alphabet for longer strings.
pub const UNITS_S: &[&str] = &[
    "A", ",", ";", ":", "::", "=", "<", ">", "->", "()", "{}", "#[a]", "!", "&", "'a", "1", "fn", "const", "unsafe", "extern",
    "pub", "where", "for", "mut", "self", "crate", "static", "type", "impl", "(A)", "-",
];

/// `HOLE` is replaced.
pub const TEMPLATES: &[&str] = &[
    "HOLE",
    "struct S { HOLE }",
    "struct S ( HOLE ) ;",
    "struct S HOLE",
    "struct S < HOLE > ;",
    "struct S < T : HOLE > ;",
    "struct S < T HOLE ( A ) ;",
    "struct S where HOLE { }",
    "struct S ( A ) where HOLE ;",
    "struct S where T : HOLE ;",
    "struct S ( A ) HOLE",
    "struct S { x : HOLE }",
    "struct S ( pub HOLE , A ) ;",
    "struct HOLE",
    "enum E { HOLE }",
    "enum E { A HOLE }",
    "enum E { A = HOLE }",
    "enum E HOLE",
    "union U { HOLE }",
    "union HOLE",
    "fn f ( HOLE ) { }",
    "fn f ( x : HOLE ) { }",
    "fn f ( & HOLE ) { }",
    "fn f ( ) HOLE",
    "fn f ( ) -> HOLE { }",
    "fn f HOLE { }",
    "fn HOLE",
    "impl HOLE",
    "impl A HOLE { }",
    "impl A { HOLE }",
    "impl A for HOLE { }",
    "impl < T HOLE { }",
    "trait A HOLE",
    "trait A { HOLE }",
    "trait A : HOLE { }",
    "mod m { HOLE }",
    "mod HOLE",
    "extern { HOLE }",
    "extern HOLE",
    "unsafe HOLE",
    "default HOLE",
    "async HOLE",
    "const HOLE",
    "const A : B HOLE",
    "const A : HOLE = 1 ;",
    "static HOLE",
    "type HOLE",
    "type A HOLE",
    "type A = HOLE ;",
    "use HOLE",
    "use HOLE ;",
    "m ! HOLE",
    "macro_rules ! HOLE",
    "extern crate HOLE",
    "# HOLE struct S ;",
    "# [ HOLE ] struct S ;",
    "# [ a HOLE ] struct S ;",
    "pub HOLE",
    "pub HOLE struct S ;",
    "HOLE struct S ;",
    "HOLE fn f ( ) { }",
    "HOLE { }",
    "HOLE ;",
    "mod m { struct S ; HOLE struct T ; }",
    "mod m { HOLE fn f ( ) { } }",
    "impl A { HOLE fn f ( ) { } }",
    "extern { static HOLE ; }",
];

fn fill(t: &[Tok], h: &[Tok]) -> Toks {
    let mut o = vec![];
    for x in t {
        match x {
            Tok::I("HOLE") => o.extend(h.iter().cloned()),
            Tok::G(d, b) => o.push(Tok::G(*d, fill(b, h))),
            x => o.push(x.clone()),
        }
    }
    o
}

pub fn unit(s: &str) -> Toks {
    match s {
        "'" => vec![Tok::P('\'', true)],
        s => lx(s),
    }
}

pub fn template(ch: &mut Ch, max: usize, units: &'static [&'static str], templates: &'static [&'static str]) -> Toks {
    let t = lx(ch.all(templates));
    let n = ch.free(max + 1);
    let mut h = vec![];
    for _ in 0..n {
        h.extend(unit(ch.all(units)));
    }
    fill(&t, &h)
}

/// Number of tokens, groups included.
pub fn count(t: &[Tok]) -> usize {
    t.iter().map(|x| if let Tok::G(_, b) = x { 1 + count(b) } else { 1 }).sum()
}

/// Applies `f` to the list that holds token number `i` and its index there.
pub fn at(t: &mut Toks, i: usize, f: &mut dyn FnMut(&mut Toks, usize)) {
    fn go(t: &mut Toks, n: &mut usize, i: usize, f: &mut dyn FnMut(&mut Toks, usize)) -> bool {
        let mut k = 0;
        while k < t.len() {
            if *n == i {
                f(t, k);
                return true;
            }
            *n += 1;
            if let Tok::G(_, b) = &mut t[k] {
                if go(b, n, i, f) {
                    return true;
                }
            }
            k += 1;
        }
        false
    }
    let mut n = 0;
    go(t, &mut n, i, f);
}

const REPL: &[&str] = &["A", ",", ";", ":", "=", "<", ">", "-", "()", "{}", "#[a]", "!", "&", "1", "fn", "where", "for", "mut", "pub", "::"];

/// One edit of a stream: delete, duplicate, swap, replace, insert, unwrap a
/// group, change a delimiter.
pub fn mutate(ch: &mut Ch, t: &mut Toks) {
    let n = count(t);
    let i = ch.free(n);
    let op = ch.free(6 + 2 * REPL.len() + 4);
    at(t, i, &mut |v, k| match op {
        0 => {
            v.remove(k);
        }
        1 => {
            let x = v[k].clone();
            v.insert(k, x);
        }
        2 => {
            if k + 1 < v.len() {
                v.swap(k, k + 1)
            }
        }
        3 => {
            if let Tok::G(_, b) = &v[k] {
                let b = b.clone();
                v.splice(k..k + 1, b);
            }
        }
        4 => v.truncate(k),
        5 => {
            v.drain(..k);
        }
        j if j < 10 => {
            if let Tok::G(d, _) = &mut v[k] {
                *d = [D::P, D::B, D::C, D::N][j - 6];
            }
        }
        j => {
            let j = j - 10;
            let r = unit(REPL[j / 2]);
            if j % 2 == 0 {
                v.splice(k..k + 1, r);
            } else {
                v.splice(k..k, r);
            }
        }
    });
}
