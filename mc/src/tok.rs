//! Token trees as plain data. Equality ignores the spacing of punctuation
//! (structure); `exact` compares it (losslessness).
use proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};
use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{Hash, Hasher};
use std::sync::Mutex;

pub type S = &'static str;
pub type Toks = Vec<Tok>;

static GLOBAL: Mutex<Option<HashMap<String, S>>> = Mutex::new(None);
thread_local! {
    static LOCAL: RefCell<HashMap<String, S>> = RefCell::new(HashMap::new());
    static LEX: RefCell<HashMap<S, Toks>> = RefCell::new(HashMap::new());
    static LITS: RefCell<HashMap<S, Literal>> = RefCell::new(HashMap::new());
}

pub fn intern(s: &str) -> S {
    LOCAL.with(|l| {
        if let Some(x) = l.borrow().get(s) {
            return *x;
        }
        let mut g = GLOBAL.lock().unwrap();
        let g = g.get_or_insert_with(HashMap::new);
        let r = match g.get(s) {
            Some(x) => *x,
            None => {
                let x: S = Box::leak(s.to_string().into_boxed_str());
                g.insert(s.to_string(), x);
                x
            }
        };
        l.borrow_mut().insert(s.to_string(), r);
        r
    })
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum D {
    P,
    B,
    C,
    N,
}
impl D {
    pub fn pm(self) -> Delimiter {
        match self {
            D::P => Delimiter::Parenthesis,
            D::B => Delimiter::Bracket,
            D::C => Delimiter::Brace,
            D::N => Delimiter::None,
        }
    }
    pub fn of(d: Delimiter) -> D {
        match d {
            Delimiter::Parenthesis => D::P,
            Delimiter::Bracket => D::B,
            Delimiter::Brace => D::C,
            Delimiter::None => D::N,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Tok {
    I(S),
    P(char, bool),
    L(S),
    G(D, Toks),
}

impl PartialEq for Tok {
    fn eq(&self, o: &Tok) -> bool {
        match (self, o) {
            (Tok::I(a), Tok::I(b)) => a == b,
            (Tok::P(a, _), Tok::P(b, _)) => a == b,
            (Tok::L(a), Tok::L(b)) => a == b,
            (Tok::G(d, a), Tok::G(e, b)) => d == e && a == b,
            _ => false,
        }
    }
}
impl Eq for Tok {}
impl Hash for Tok {
    fn hash<H: Hasher>(&self, h: &mut H) {
        match self {
            Tok::I(a) => {
                0u8.hash(h);
                a.hash(h)
            }
            Tok::P(a, _) => {
                1u8.hash(h);
                a.hash(h)
            }
            Tok::L(a) => {
                2u8.hash(h);
                a.hash(h)
            }
            Tok::G(d, a) => {
                3u8.hash(h);
                d.hash(h);
                a.hash(h)
            }
        }
    }
}

pub fn exact(a: &[Tok], b: &[Tok]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Tok::P(c, j), Tok::P(d, k)) => c == d && j == k,
            (Tok::G(d, p), Tok::G(e, q)) => d == e && exact(p, q),
            _ => x == y,
        })
}

/// Hash including spacing.
pub fn xhash(t: &[Tok]) -> u64 {
    fn go(t: &[Tok], h: &mut std::collections::hash_map::DefaultHasher) {
        t.len().hash(h);
        for x in t {
            match x {
                Tok::P(c, j) => {
                    1u8.hash(h);
                    c.hash(h);
                    j.hash(h)
                }
                Tok::G(d, a) => {
                    3u8.hash(h);
                    d.hash(h);
                    go(a, h)
                }
                x => x.hash(h),
            }
        }
    }
    let mut h = std::collections::hash_map::DefaultHasher::new();
    go(t, &mut h);
    h.finish()
}

pub fn id(s: S) -> Tok {
    Tok::I(s)
}
pub fn p(c: char) -> Tok {
    Tok::P(c, false)
}

pub fn pm_ident(s: &str) -> Ident {
    match s.strip_prefix("r#") {
        Some(r) => Ident::new_raw(r, Span::call_site()),
        None => Ident::new(s, Span::call_site()),
    }
}

pub fn pm_tok(t: &Tok) -> TokenTree {
    match t {
        Tok::I(s) => pm_ident(s).into(),
        Tok::P(c, j) => Punct::new(*c, if *j { Spacing::Joint } else { Spacing::Alone }).into(),
        Tok::L(s) => LITS
            .with(|l| l.borrow_mut().entry(s).or_insert_with(|| s.parse::<Literal>().unwrap()).clone())
            .into(),
        Tok::G(d, v) => Group::new(d.pm(), to_stream(v)).into(),
    }
}

pub fn to_stream(v: &[Tok]) -> TokenStream {
    v.iter().map(pm_tok).collect()
}
pub fn to_trees(v: &[Tok]) -> Vec<TokenTree> {
    v.iter().map(pm_tok).collect()
}

pub fn tok(t: &TokenTree) -> Tok {
    match t {
        TokenTree::Ident(i) => Tok::I(intern(&i.to_string())),
        TokenTree::Punct(q) => Tok::P(q.as_char(), q.spacing() == Spacing::Joint),
        TokenTree::Literal(l) => Tok::L(intern(&l.to_string())),
        TokenTree::Group(g) => Tok::G(D::of(g.delimiter()), from_stream(g.stream())),
    }
}
pub fn from_stream(s: TokenStream) -> Toks {
    s.into_iter().map(|t| tok(&t)).collect()
}
pub fn from_trees(s: &[TokenTree]) -> Toks {
    s.iter().map(tok).collect()
}

/// Lexes source text (cached). `⟦ ⟧` write an invisible group.
pub fn lx(s: &str) -> Toks {
    let s = intern(s);
    if let Some(v) = LEX.with(|l| l.borrow().get(s).cloned()) {
        return v;
    }
    let v = if s.contains('⟦') {
        let t = s.replace('⟦', " __NG![").replace('⟧', "]");
        unng(from_stream(t.parse().unwrap_or_else(|e| panic!("lex {s}: {e}"))))
    } else {
        from_stream(s.parse().unwrap_or_else(|e| panic!("lex {s}: {e}")))
    };
    LEX.with(|l| l.borrow_mut().insert(s, v.clone()));
    v
}
fn unng(v: Toks) -> Toks {
    let mut out = Toks::new();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            Tok::I("__NG!") => unreachable!(),
            Tok::I("__NG") => {
                if let Tok::G(_, b) = &v[i + 2] {
                    out.push(Tok::G(D::N, unng(b.clone())));
                }
                i += 3;
                continue;
            }
            Tok::G(d, b) => out.push(Tok::G(*d, unng(b.clone()))),
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out
}

/// Respaces as if the text had been written with as little white space as possible.
pub fn tighten(v: &mut Toks) {
    for i in 0..v.len() {
        let next = match v.get(i + 1) {
            Some(Tok::P(c, _)) => Some(*c),
            _ => None,
        };
        match &mut v[i] {
            Tok::P(c, j) => {
                if let Some(n) = next {
                    if !*j && !matches!((*c, n), (':', ':') | ('=', '=') | ('=', '>') | ('!', '=') | ('-', '>')) {
                        *j = true;
                    }
                }
            }
            Tok::G(_, b) => tighten(b),
            _ => {}
        }
    }
}

pub fn show(v: &[Tok]) -> String {
    let mut s = String::new();
    for t in v {
        match t {
            Tok::I(x) | Tok::L(x) => {
                s.push_str(x);
                s.push(' ');
            }
            Tok::P(c, j) => {
                s.push(*c);
                if !*j {
                    s.push(' ');
                }
            }
            Tok::G(d, b) => {
                let (o, c) = match d {
                    D::P => ("( ", ") "),
                    D::B => ("[ ", "] "),
                    D::C => ("{ ", "} "),
                    D::N => ("⟦ ", "⟧ "),
                };
                s.push_str(o);
                s.push_str(&show(b));
                s.push_str(c);
            }
        }
    }
    s
}

/// Like `show`, regardless of spacing.
pub fn shown(v: &[Tok]) -> String {
    let mut s = String::new();
    for t in v {
        match t {
            Tok::I(x) | Tok::L(x) => s.push_str(x),
            Tok::P(c, _) => s.push(*c),
            Tok::G(..) => s.push_str(&show1(t)),
        }
        s.push(' ');
    }
    s
}
fn show1(t: &Tok) -> String {
    match t {
        Tok::G(d, b) => {
            let (o, c) = match d {
                D::P => ("( ", ")"),
                D::B => ("[ ", "]"),
                D::C => ("{ ", "}"),
                D::N => ("⟦ ", "⟧"),
            };
            format!("{o}{}{c}", shown(b))
        }
        t => shown(std::slice::from_ref(t)),
    }
}
