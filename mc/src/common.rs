//! Calls into the implementation and the oracles shared by several properties.
use crate::explore::*;
use crate::gen::{self, Cx};
use crate::model::*;
use crate::obs;
use crate::tok::*;
use proc_macro2::TokenStream;
use quote::ToTokens;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Out {
    Item(venial::Item),
    Error(venial::Error),
    Panic(String),
}
impl Out {
    pub fn name(&self) -> String {
        match self {
            Out::Item(_) => "accepted".into(),
            Out::Error(e) => format!("error value `{e}`"),
            Out::Panic(m) => format!("panic `{}`", m.chars().take(160).collect::<String>()),
        }
    }
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default()
    })
}
pub fn parse(ts: TokenStream) -> Out {
    match guard(|| venial::parse_item(ts)) {
        Ok(Ok(i)) => Out::Item(i),
        Ok(Err(e)) => Out::Error(e),
        Err(m) => Out::Panic(m),
    }
}
pub fn parse_toks(t: &[Tok]) -> Out {
    parse(to_stream(t))
}
pub fn print(i: &impl ToTokens) -> Result<Toks, String> {
    guard(|| from_stream(i.to_token_stream()))
}

/// Parses a declaration that has to be accepted.
pub fn accept(cx: &mut Ctx, t: &[Tok]) -> Option<venial::Item> {
    cx.impl_runs += 1;
    match parse_toks(t) {
        Out::Item(i) => Some(i),
        o => {
            cx.fail(t, format!("supported declaration not accepted: {}", o.name()));
            None
        }
    }
}
/// Parses; a rejection is somebody else's property.
pub fn accept_quiet(cx: &mut Ctx, t: &[Tok]) -> Option<venial::Item> {
    cx.impl_runs += 1;
    match parse_toks(t) {
        Out::Item(i) => Some(i),
        _ => {
            cx.skipped += 1;
            None
        }
    }
}

pub fn odds_of(odds: &[(u32, String)], mask: u32) -> Option<String> {
    odds.iter().find(|o| o.0 & mask != 0).map(|o| o.1.clone())
}

/// Structure reported = structure declared, for the observations in `mask`.
pub fn check_structure(cx: &mut Ctx, it: &It, t: &[Tok], mask: u32) -> Option<venial::Item> {
    let i = accept(cx, t)?;
    let (got, odds) = match guard(|| obs::item(&i)) {
        Ok(x) => x,
        Err(m) => {
            cx.fail(t, format!("reading the parsed item panicked: {m}"));
            return None;
        }
    };
    if let Some(d) = diff(it, &got, mask) {
        cx.fail(t, d);
    } else if let Some(o) = odds_of(&odds, mask) {
        cx.fail(t, format!("inconsistent report: {o}"));
    }
    cx.outcome(shape(&got));
    Some(i)
}

/// A hash of what was reported, to count distinct outcomes.
pub fn shape(it: &It) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    it.hash(&mut h);
    h.finish()
}

/// Ok implies lossless.
pub fn check_lossless(cx: &mut Ctx, i: &venial::Item, t: &[Tok]) {
    match print(i) {
        Ok(o) => {
            if !exact(&o, t) {
                cx.fail(t, format!("printed differently: {}", show(&o)));
            }
        }
        Err(m) => cx.fail(t, format!("printing panicked: {m}")),
    }
}

/// Puts an item into a container, between neighbours.
pub fn wrap(it: It, w: usize) -> It {
    if w == 0 {
        return it;
    }
    let lead = |s: &str| parse_model(s);
    let (name, items) = match w {
        1 => ("mod", vec![lead("struct P ;"), it, lead("# [ z ] fn q ( ) { }")]),
        2 => ("impl", vec![lead("fn p ( ) { }"), it, lead("# [ z ] type Q = R ;")]),
        3 => ("trait", vec![lead("fn p ( ) ;"), it, lead("# [ z ] type Q ;")]),
        _ => ("extern", vec![lead("fn p ( ) ;"), it, lead("# [ z ] fn q ( ) ;")]),
    };
    let kind = match name {
        "mod" => Kind::Mod { unsaf: false, name: "w", body: Some((vec![], items)) },
        "impl" => Kind::Impl { unsaf: false, gen: None, tr: None, ty: lx("W"), wh: None, inner: vec![], items },
        "trait" => {
            Kind::Trait { unsaf: false, name: "W", gen: None, bound: None, wh: None, inner: vec![], items }
        }
        _ => Kind::ExtB { unsaf: false, abi: None, inner: vec![], items },
    };
    It { attrs: vec![], vis: vec![], kind }
}
/// Hand-written models of the fixed neighbours.
fn parse_model(s: &str) -> It {
    let z = vec![gen::attr_of("z", false)];
    let f = |name: S, body: bool| {
        Kind::Fn(Func {
            quals: Quals::default(),
            name,
            gen: None,
            params: List::new(),
            ret: None,
            wh: None,
            body: if body { Some(vec![]) } else { None },
        })
    };
    let (attrs, kind) = match s {
        "struct P ;" => (vec![], Kind::Struct { name: "P", gen: None, wh: None, flds: Flds::Unit, semi: true }),
        "fn p ( ) { }" => (vec![], f("p", true)),
        "fn p ( ) ;" => (vec![], f("p", false)),
        "# [ z ] fn q ( ) { }" => (z, f("q", true)),
        "# [ z ] fn q ( ) ;" => (z, f("q", false)),
        "# [ z ] type Q = R ;" => (z, Kind::Alias { name: "Q", bound: None, ty: Some(lx("R")) }),
        "# [ z ] type Q ;" => (z, Kind::Alias { name: "Q", bound: None, ty: None }),
        _ => panic!(),
    };
    It { attrs, vis: vec![], kind }
}
/// Containers (see `wrap`) in which a kind can stand.
pub fn wraps(kind: &str) -> &'static [usize] {
    match kind {
        "fn" | "type" | "macro" => &[0, 1, 2, 3, 4],
        "const" => &[0, 1, 2, 3],
        "static" => &[0, 1, 4],
        _ => &[0, 1],
    }
}
pub fn cx_of(w: usize) -> Cx {
    [Cx::Top, Cx::Mod, Cx::Impl, Cx::Trait, Cx::Ext][w]
}

pub type ItemCheck = fn(&It, &Toks, &mut Ctx);

#[derive(Clone, Copy)]
pub struct Bounds {
    /// deviations with the full alphabets, minimal / rich skeleton
    pub full: usize,
    pub full_rich: usize,
    /// deviations with the small alphabets
    pub small: usize,
    pub small_rich: usize,
}

/// Bounds as (minimal/full, rich/full, minimal/small, rich/small) alphabets: of the
/// quick run, of its second build, and of the thorough run.
pub fn bounds(th: bool, quick: [usize; 4], second: [usize; 4], thorough: [usize; 4]) -> Bounds {
    let [full, full_rich, small, small_rich] = if th {
        thorough
    } else if std::env::var_os("VMC_SECOND").is_some() {
        second
    } else {
        quick
    };
    Bounds { full, full_rich, small, small_rich }
}

/// The declaration grammar: every kind in every container, both spacings.
pub fn grammar(kinds: &'static [&'static str], b: Bounds, check: ItemCheck) -> Vec<Space> {
    let mk = move |name: &str, k: usize| {
        space(name, k, move |ch, cx| {
            let kind = *ch.all(kinds);
            let ws = wraps(kind);
            let w = *ch.all(ws);
            let tight = ch.free(2) == 1;
            let it = wrap(gen::item(ch, kind, cx_of(w), 2), w);
            let mut t = it.toks();
            if tight {
                tighten(&mut t);
            }
            cx.input(&t);
            check(&it, &t, cx);
        })
    };
    let mut v = vec![];
    if b.full > 0 {
        v.push(mk("grammar/min/full", b.full));
    }
    if b.full_rich > 0 {
        v.push(mk("grammar/rich/full", b.full_rich).rich());
    }
    if b.small > 0 {
        v.push(mk("grammar/min/small", b.small).small());
    }
    if b.small_rich > 0 {
        v.push(mk("grammar/rich/small", b.small_rich).rich().small());
    }
    v
}
