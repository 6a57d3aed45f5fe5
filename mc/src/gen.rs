//! Generators of declarations, driven by a chooser. The domain is supported
//! Rust syntax; `/verif/domain` re-parses it with syn as a cross-check.
use crate::explore::Ch;
use crate::model::*;
use crate::tok::*;

// Alphabets: the first entries are the core used by deep, small-alphabet spaces.

pub const TYPES: &[&str] = &[
    "A",
    "a::B<C, D>",
    "Box<dyn Fn(A, B) -> C>",
    "(A, B)",
    "&'a mut [T; N]",
    "<T as A<B, C>>::D",
    "fn(A, B) -> C",
    "T<<U as V>::W>",
    "crate::a::B",
    "A<{ x; y }, 'a, B = C>",
    // full
    "()",
    "(A,)",
    "[A]",
    "[A; 3]",
    "[A; { 1 << 2 }]",
    "[[u8; 2]; 3]",
    "&A",
    "&&A",
    "&'static str",
    "&'a mut A",
    "&'a [&'b str]",
    "*const A",
    "*mut [A]",
    "!",
    "_",
    "Self",
    "Self::Out",
    "self::A",
    "super::A",
    "super::super::A<B>",
    "::std::vec::Vec<T>",
    "Vec<T>",
    "Vec<Vec<T>>",
    "A<B<C<D<E>>>>",
    "A<B<C>, D<E>, F>",
    "HashMap<K, V,>",
    "A<>",
    "A<'_>",
    "A<'a, 'b>",
    "A<1>",
    "A<-1>",
    "A<\"s\">",
    "A<'c'>",
    "A<true>",
    "A<{ N + 1 }>",
    "A<{ a > b }, C>",
    "A<{ || -> b { c } }>",
    "A<B = C>",
    "A<B = C, D = E<F>>",
    "A<B: C + D>",
    "A<B: C, D = E>",
    "A<B<'a> = C>",
    "Vec::<T>",
    "a::B::<C, D>::E",
    "a::B<C>::D<E>",
    "r#type",
    "r#type::r#fn<r#struct>",
    "union",
    "default",
    "auto",
    "macro_rules",
    "where_",
    "dyn A",
    "dyn A + B",
    "dyn A + 'a",
    "dyn ::a::B",
    "dyn for<'a> Fn(&'a A) -> &'a B",
    "dyn for<> Fn() -> B",
    "for<> fn(A)",
    "dyn for<'a, 'b: 'a> A<'a, 'b>",
    "&dyn A",
    "&'a (dyn A + B)",
    "(dyn A + B)",
    "Box<dyn A + B>",
    "Box<dyn for<'a> Fn(&'a A) -> B + Send>",
    "Box<dyn FnOnce()>",
    "impl A",
    "impl A<B = C> + 'a",
    "impl Iterator<Item = (A, B)>",
    "impl for<'a> Fn(&'a A) -> impl B",
    "fn()",
    "fn(A)",
    "fn(a: A, _: B)",
    "fn() -> fn() -> A",
    "fn(fn(A) -> B) -> C",
    "unsafe fn(A)",
    "extern \"C\" fn(A, ...) -> B",
    "unsafe extern fn()",
    "for<'a> fn(&'a A) -> &'a B",
    "Option<fn(A) -> Result<B, C>>",
    "Option<unsafe extern \"C\" fn(A) -> B>",
    "A<fn() -> B, C>",
    "A<fn(B) -> C<D>, E>",
    "<A>::B",
    "<A as B>::C::D",
    "<A as B>::C<D>",
    "<Vec<A> as B>::C",
    "<<A as B>::C as D>::E",
    "<fn() -> A as B>::C",
    "<[A; N] as B<{ N }>>::C",
    "[<A as B>::C; N]",
    "(A, B<C, D>, [E; 2])",
    "(fn(A) -> B, C)",
    "m!(a, b; c)",
    "m![a; b]",
    "a::m!(b)",
    "A<m!(b, c)>",
    "(A)",
    "((A, B), (C,))",
    "A<(B, C), [D; 2]>",
    "A<[B; { c; d }]>",
    "A<B, { c }, D>",
    "A<dyn B<C> + D, E>",
    "A<dyn Fn(B) -> C, D>",
    "A<dyn Fn() -> B<C, D>, E>",
    "A<impl Fn() -> B>",
    "A<for<'a> fn(&'a B) -> C, D>",
    "A<&'a B, &mut C>",
    "A<*const B, !>",
];
const TY_CORE: usize = 6;

/// Types that cannot follow `impl` directly without being read as something else.
fn impl_self_ok(s: &str, has_gen: bool) -> bool {
    has_gen || !s.starts_with('<')
}

pub const BOUNDS: &[&str] = &[
    "A",
    "A<B, C> + 'a",
    "Fn(A, B) -> C",
    "for<'a> Fn(&'a A) -> B<C>",
    "",
    "?Sized",
    // full
    "'a",
    "'a + A",
    "A + B",
    "A + B + ?Sized",
    "A +",
    "(A)",
    "(?Sized) + B",
    "::a::B",
    "a::B<C>",
    "A<B = C>",
    "A<B = C, D: E>",
    "A<B<C>>",
    "A<{ N }>",
    "A<{ x; y }, B>",
    "A<'a>",
    "A<1>",
    "Fn()",
    "Fn() -> A",
    "Fn() -> A + 'a",
    "Fn(A) -> B<C, D> + E",
    "FnOnce(fn(A) -> B) -> fn() -> C",
    "A<fn() -> B, C>",
    "A<<B as C>::D>",
    "A<dyn Fn(B) -> C>",
    "for<'a, 'b: 'a> A<'a, 'b>",
    "for<'a> A<&'a B> + C",
    "A<[B; 2], (C, D)>",
    "r#type",
    "A<Item = B> + C<Item = D>",
    "Fn(&A) -> &B",
    "Fn(A) -> (B, C)",
    "Fn(A) -> [B; 2]",
];
const B_CORE: usize = 4;

pub const DEFAULTS: &[&str] = &["A = B", "A<B> = C<D>", "Fn() -> A = fn() -> B", "= A", "?Sized = (A, B)", "A + 'a = &'a B"];

pub const CONST_TYS: &[&str] = &["usize", "bool = { a > b }", "u8 = 3", "[u8; 2]", "A<B> = C", "i8 = -1", "a::B = { c; d }", "&'static str", "char = 'c'", "bool = true"];

pub const LIFE_BOUNDS: &[&str] = &["'b", "'b + 'c", "", "'static", "'b +"];

pub const LEFTS: &[&str] = &[
    "T",
    "T::Item",
    "for<'a> &'a T",
    "<T as A<B, C>>::D",
    "'a",
    "Vec<T>",
    // full
    "Self",
    "Self::A::B",
    "::a::B",
    "a::b::C<D::E>",
    "::a::B<C>::D",
    "&'a T",
    "&T",
    "(A, B)",
    "[T]",
    "[T; N]",
    "*const T",
    "fn(A) -> B",
    "fn() -> a::B",
    "dyn Fn(A) -> B",
    "for<'a> fn(&'a A) -> B",
    "for<'a, 'b: 'a> T",
    "for<'a> A<'a>",
    "<T>::A",
    "<<A as B>::C as D>::E",
    "Vec::<T>",
    "A<B = C>",
    "A<B: C>",
    "A<{ a::B }>",
    "A<{ N }, 1>",
    "T::r#type",
    "r#type",
    "!",
    "A<fn() -> B>",
    "<T as A>::B<C>",
    "crate::A",
    "'static",
];
const L_CORE: usize = 4;

/// Text between the brackets.
pub const ATTRS: &[&str] = &[
    "a",
    "a(b, c = \"d\")",
    "a = \"x\"",
    "a::b[c]",
    // full
    "a::b",
    "::a::b",
    "a::b::c",
    "a()",
    "a {}",
    "a { b; c }",
    "a::b(c)",
    "a::b = c",
    "a = b::c!(\"d\")",
    "a = -1",
    "a = [1, 2]",
    "a = (1)",
    "a = b == c",
    "doc = \" text\"",
    "cfg(all(a, not(b)))",
    "a(#[b] c)",
    "a(= b)",
    "unsafe(no_mangle)",
    "r#type",
    "derive(A, B)",
    "struct_(pub)",
    "a([b])",
    "a[= b]",
    "::a",
    "::a(b)",
    "::a = b",
    "crate::a",
    "self::a = 1",
    "super::b::c {}",
    "r#a::r#b",
];
const A_CORE: usize = 3;
/// Attributes with invisible groups (as `#[doc = $x]` gives), not expressible as text.
pub const ATTRS_NG: &[&str] = &["a = ⟦\"x\"⟧", "a = ⟦b + c⟧", "a = ⟦b⟧ + ⟦c⟧", "a(⟦b⟧)", "a(b = ⟦c⟧, ⟦d, e⟧)", "a::b = ⟦⟧", "a[⟦(b)⟧]"];

pub const VISS: &[&str] =
    &["", "pub", "pub(crate)", "pub(in a::b)", "crate", "pub(self)", "pub(super)", "pub(in self)", "pub(in crate::a)", "pub(in super)", "pub(in crate::b::c::d::e::f)", "pub(in ::a)"];
const V_CORE: usize = 4;

pub const NAMES: &[&str] = &[
    "A",
    "r#struct",
    "union",
    // full
    "_x",
    "r#type",
    "r#fn",
    "r#where",
    "r#mut",
    "r#const",
    "r#pub",
    "r#for",
    "r#impl",
    "r#unsafe",
    "r#extern",
    "r#static",
    "default",
    "auto",
    "macro_rules",
    "structs",
    "crates",
    "pub_",
    "fn_",
    "é",
    "x1",
    "selfish",
];
const N_CORE: usize = 1;

pub const INITS: &[&str] = &[
    "1",
    "1 << 3",
    "a < b",
    "{ x; y }",
    "|x| -> A { x }",
    // full
    "a > b",
    "a >> 1",
    "a - b",
    "a <= b",
    "a >= b",
    "a == b",
    "a = b",
    "a < b && c > d",
    "a as u8 < b",
    "A::<B, C>::new()",
    "Vec::<Vec<T>>::new()",
    "<A as B>::C",
    "<A as B<C, D>>::e(f, g)",
    "if a < b { 1 } else { 2 }",
    "match x { A => 1, _ => 2 }",
    "S { a: 1, b: 2 }",
    "[0; 3]",
    "&[1, 2]",
    "\"s\"",
    "-1",
    "!a",
    "*p",
    "a..=b",
    "..",
    "|a, b| a - b",
    "move || {}",
    "m!(a; b)",
    "m! { a; b }",
    "unsafe { x }",
    "f as fn(A) -> B",
    "async {}",
    "loop {}",
    "a.b.c(d)?",
    "a::b",
    "('a', b'c', 1.0)",
    "x <- y",
    "a >>= 1",
    "struct_",
    "static_",
];
const I_CORE: usize = 3;

pub const USES: &[&str] = &[
    "a::b",
    "a::{self, b as c, d::{e, f::*}}",
    "a as _",
    // full
    "a",
    "::a",
    "a::*",
    "*",
    "{a, b}",
    "{}",
    "a::{}",
    "a as b",
    "a::{b, c,}",
    "crate::a",
    "self::a",
    "super::super::a",
    "a::r#type",
    "::{a, b}",
    "::*",
    "r#struct::r#enum as r#fn",
    "union",
];
const U_CORE: usize = 2;

pub const BODIES: &[&str] = &["", "a; b", "where_ { c } -> d < e", "#![x] struct S;", "$x:expr => { $x };", "a, b", "; ;", "=> <"];

pub const ABIS: &[&str] = &["\"C\"", "r\"system\"", "\"\""];

pub const DISCS: &[&str] = &["1", "(a + b)", "X", "{ 1 }", "\"s\"", "'c'", "0x1f", "b'a'", "[1]", "true", "1.5", "(a, b)", "()"];

pub const TRAITS: &[&str] = &[
    "A",
    "a::B<C, D>",
    "Fn(A) -> B",
    "::a::B",
    "!A",
    "const A",
    "A<dyn for<'a> Fn(&'a B)>",
    "A<for<> fn()>",
    "A<{ N }>",
    "A<B = C>",
    "A<<B as C>::D>",
    "A<fn() -> B>",
    "r#for",
    "A<for<'a> fn(&'a B) -> C>",
    "Fn(A) -> fn() -> B",
    "A<'a>",
];

pub const LIFES: &[&str] = &["a", "static", "_", "r#for", "self_"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cx {
    Top,
    Mod,
    Impl,
    Trait,
    Ext,
}

pub const KINDS: &[&str] = &[
    "struct", "enum", "union", "fn", "const", "static", "type", "use", "macro", "impl", "trait", "mod", "extern", "crate",
];

pub fn attr_of(s: &str, bang: bool) -> Attr {
    let t = lx(s);
    let mut path = vec![];
    let mut i = 0;
    while i < t.len() && !matches!(t[i], Tok::G(..) | Tok::P('=', _)) {
        path.push(t[i].clone());
        i += 1;
    }
    let val = match t.get(i) {
        None => AVal::Empty,
        Some(Tok::G(d, b)) => AVal::Group(*d, b.clone()),
        Some(_) => AVal::Eq(t[i + 1..].to_vec()),
    };
    Attr { bang, path, val }
}
fn attrs_n(ch: &mut Ch, bang: bool, max: usize) -> Attrs {
    let n = if ch.rich { 1 } else { 0 };
    let i = ch.pick(max + 1);
    let n = if i == 0 {
        n
    } else if i <= n {
        i - 1
    } else {
        i
    };
    (0..n).map(|_| attr_of(ch.of(ATTRS, A_CORE), bang)).collect()
}
pub fn attrs(ch: &mut Ch) -> Attrs {
    let m = if ch.small { 2 } else { 3 };
    attrs_n(ch, false, m)
}
pub fn inner(ch: &mut Ch) -> Attrs {
    let m = if ch.small { 1 } else { 2 };
    attrs_n(ch, true, m)
}
pub fn vis(ch: &mut Ch) -> Vis {
    // rich: `pub` comes first
    let n = if ch.small { V_CORE } else { VISS.len() };
    let i = ch.pick(n);
    let i = if ch.rich {
        match i {
            0 => 1,
            1 => 0,
            i => i,
        }
    } else {
        i
    };
    lx(VISS[i])
}
pub fn name(ch: &mut Ch) -> S {
    ch.of(NAMES, N_CORE)
}
/// A name from the alphabet, or a default that tells positions apart.
fn name_or(ch: &mut Ch, d: S) -> S {
    let n = if ch.small { N_CORE } else { NAMES.len() };
    match ch.pick(n) {
        0 => d,
        i => NAMES[i],
    }
}
pub fn ty(ch: &mut Ch) -> Toks {
    lx(ch.of(TYPES, TY_CORE))
}
pub fn bound(ch: &mut Ch) -> Toks {
    lx(ch.of(BOUNDS, B_CORE))
}
fn trail(ch: &mut Ch, n: usize) -> bool {
    n > 0 && ch.opt()
}
const TN: [S; 8] = ["T", "U", "V", "W", "X", "Y", "Z", "T8"];
const LN: [S; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];

pub fn gparam(ch: &mut Ch, i: usize) -> GP {
    // by default: lifetime first, then types, then a const when rich
    let kinds: [GK; 3] = if ch.rich && i == 0 {
        [GK::Life, GK::Ty, GK::Const]
    } else {
        [GK::Ty, GK::Life, GK::Const]
    };
    let kind = kinds[ch.pick(3)];
    match kind {
        GK::Life => GP {
            kind,
            name: match ch.pick(if ch.small { 1 } else { 3 }) {
                0 => LN[i % 8],
                1 => "r#for",
                _ => "static_",
            },
            bound: if ch.opt() { Some(lx(ch.of(LIFE_BOUNDS, 2))) } else { None },
        },
        GK::Ty => {
            let name = name_or(ch, TN[i % 8]);
            let n = if ch.small { B_CORE } else { BOUNDS.len() + DEFAULTS.len() };
            let j = ch.pick(n + 1);
            let b = |j: usize| if j < BOUNDS.len() { lx(BOUNDS[j]) } else { lx(DEFAULTS[j - BOUNDS.len()]) };
            let bound = if ch.rich {
                if j == n {
                    None
                } else {
                    Some(b(j))
                }
            } else if j == 0 {
                None
            } else {
                Some(b(j - 1))
            };
            GP { kind, name, bound }
        }
        GK::Const => GP { kind, name: name_or(ch, "N"), bound: Some(lx(ch.of(CONST_TYS, 2))) },
    }
}
pub fn glist(ch: &mut Ch, max: usize) -> List<GP> {
    let n = ch.len(1, max);
    let items: Vec<GP> = (0..n).map(|i| gparam(ch, i)).collect();
    let trail = trail(ch, n);
    List { items, trail }
}
pub fn gen(ch: &mut Ch) -> Gen {
    if ch.opt() {
        Some(glist(ch, 3))
    } else {
        None
    }
}
pub fn pred(ch: &mut Ch) -> Pred {
    let n = if ch.small { L_CORE } else { LEFTS.len() };
    let i = ch.pick(n);
    let l = LEFTS[i];
    let life = l.starts_with('\'');
    Pred { left: lx(l), bound: if life { lx(ch.of(LIFE_BOUNDS, 2)) } else { bound(ch) } }
}
pub fn wlist(ch: &mut Ch, max: usize) -> List<Pred> {
    let n = ch.len(1, max);
    let items: Vec<Pred> = (0..n).map(|_| pred(ch)).collect();
    let trail = trail(ch, n);
    List { items, trail }
}
pub fn wh(ch: &mut Ch) -> Wh {
    if ch.opt() {
        Some(wlist(ch, 3))
    } else {
        None
    }
}
const FN_: [S; 8] = ["x", "y", "z", "w", "v", "u", "t", "s"];
fn crate_path(t: &Toks) -> bool {
    matches!((t.first(), t.get(1)), (Some(Tok::P(':', _)), Some(Tok::P(':', _))))
}
pub fn tfield(ch: &mut Ch) -> TF {
    let a = attrs(ch);
    let mut vis = vis(ch);
    let ty = ty(ch);
    if vis.first() == Some(&id("crate")) && crate_path(&ty) {
        vis = lx("pub"); // `crate ::a::B` is a path
    }
    TF { attrs: a, vis, ty }
}
pub fn nfield(ch: &mut Ch, i: usize) -> NF {
    NF { attrs: attrs(ch), vis: vis(ch), name: name_or(ch, FN_[i % 8]), ty: ty(ch) }
}
pub fn tfields(ch: &mut Ch, max: usize) -> List<TF> {
    let n = ch.len(1, max);
    let items: Vec<TF> = (0..n).map(|_| tfield(ch)).collect();
    let trail = trail(ch, n);
    List { items, trail }
}
pub fn nfields(ch: &mut Ch, max: usize) -> List<NF> {
    let n = ch.len(1, max);
    let items: Vec<NF> = (0..n).map(|i| nfield(ch, i)).collect();
    let trail = trail(ch, n);
    List { items, trail }
}
const VN: [S; 8] = ["A", "B", "C", "D", "E", "F", "G", "H"];
pub fn variant(ch: &mut Ch, i: usize) -> Variant {
    let attrs = attrs(ch);
    // a visibility on a variant is accepted syntactically
    let v = if ch.small { vec![] } else { lx(["", "pub", "pub(crate)", "crate"][ch.pick(4)]) };
    let name = name_or(ch, VN[i % 8]);
    let flds = match ch.pick(3) {
        0 => Flds::Unit,
        1 => Flds::Tuple(tfields(ch, 2)),
        _ => Flds::Named(nfields(ch, 2)),
    };
    let disc = if ch.opt() { Some(lx(ch.of(DISCS, 2))) } else { None };
    Variant { attrs, vis: v, name, flds, disc }
}
pub fn variants(ch: &mut Ch, max: usize) -> List<Variant> {
    let n = ch.len(1, max);
    let items: Vec<Variant> = (0..n).map(|i| variant(ch, i)).collect();
    let trail = trail(ch, n);
    List { items, trail }
}
pub fn param(ch: &mut Ch, i: usize) -> Param {
    let attrs = attrs(ch);
    let recv = if i == 0 { ch.pick(2) == 1 } else { false };
    if recv {
        let amp = ch.opt();
        Param::Recv {
            attrs,
            amp,
            life: if amp && ch.opt() { Some(ch.of(LIFES, 1)) } else { None },
            mutt: ch.opt(),
        }
    } else {
        let mutt = ch.opt();
        let n = if ch.small { 2 } else { NAMES.len() + 2 };
        let name = match ch.pick(n) {
            0 => FN_[i % 8],
            1 => "self",
            2 => "_",
            j => NAMES[j - 2],
        };
        Param::Typed { attrs, mutt, name, ty: ty(ch) }
    }
}
pub fn params(ch: &mut Ch, max: usize) -> List<Param> {
    let n = ch.len(1, max);
    let items: Vec<Param> = (0..n).map(|i| param(ch, i)).collect();
    let trail = trail(ch, n);
    List { items, trail }
}
pub fn quals(ch: &mut Ch) -> Quals {
    Quals {
        default: ch.pick(2) == 1,
        konst: ch.opt(),
        asyn: ch.pick(2) == 1,
        unsaf: ch.opt(),
        ext: if ch.opt() { Some(if ch.opt() { Some(ch.of(ABIS, 1)) } else { None }) } else { None },
    }
}
pub fn func(ch: &mut Ch, cx: Cx) -> Func {
    let quals = quals(ch);
    let name = name_or(ch, "f");
    let gen = gen(ch);
    let params = params(ch, 3);
    let ret = if ch.opt() { Some(ty(ch)) } else { None };
    let wh = wh(ch);
    let semi_default = matches!(cx, Cx::Trait | Cx::Ext);
    let body = if (ch.pick(2) == 1) != semi_default { None } else { Some(lx(ch.of(BODIES, 2))) };
    Func { quals, name, gen, params, ret, wh, body }
}
pub fn konst(ch: &mut Ch, stat: bool) -> Kind {
    let mutt = stat && ch.opt();
    let name = match ch.pick(if ch.small { 1 } else { NAMES.len() + 1 }) {
        0 => "X",
        1 => "_",
        j => NAMES[j - 1],
    };
    let name = if stat && name == "_" { "X" } else { name };
    let ty = ty(ch);
    // an initializer is the default
    let n = if ch.small { I_CORE } else { INITS.len() };
    let j = ch.pick(n + 1);
    Kind::Konst { stat, mutt, name, ty, init: if j == n { None } else { Some(lx(INITS[j])) } }
}
pub fn alias(ch: &mut Ch) -> Kind {
    let name = name_or(ch, "Al");
    let bound = if ch.opt() { Some(bound(ch)) } else { None };
    let ty = if ch.pick(2) == 0 { Some(ty(ch)) } else { None };
    Kind::Alias { name, bound, ty }
}
pub fn mac(ch: &mut Ch) -> Kind {
    let (name, decl): (S, Option<S>) = match ch.pick(if ch.small { 2 } else { 6 }) {
        0 => ("m", None),
        1 => ("macro_rules", Some("n")),
        2 => ("r#try", None),
        3 => ("macro_rules", Some("r#fn")),
        4 => ("m", Some("union")),
        _ => ("auto", None),
    };
    let delim = [D::C, D::P, D::B][ch.pick(3)];
    Kind::Mac { name, decl, delim, body: lx(ch.of(BODIES, 2)), semi: delim != D::C }
}
fn members(ch: &mut Ch, cx: Cx, depth: usize) -> Vec<It> {
    if depth == 0 {
        return vec![];
    }
    let n = ch.len(0, if ch.small { 1 } else { 2 });
    (0..n).map(|i| item_any(ch, cx, depth - 1, i)).collect()
}
pub fn kinds_in(cx: Cx) -> &'static [&'static str] {
    match cx {
        Cx::Top | Cx::Mod => KINDS,
        Cx::Impl | Cx::Trait => &["fn", "const", "type", "macro"],
        Cx::Ext => &["fn", "static", "type", "macro"],
    }
}
fn item_any(ch: &mut Ch, cx: Cx, depth: usize, i: usize) -> It {
    let ks = kinds_in(cx);
    let k = ks[(ch.pick(ks.len()) + i * 3) % ks.len()];
    item(ch, k, cx, depth)
}

/// An item of the given kind.
pub fn item(ch: &mut Ch, kind: &str, cx: Cx, depth: usize) -> It {
    let a = attrs(ch);
    let v = if matches!(kind, "impl" | "macro") { vec![] } else { vis(ch) };
    let k = match kind {
        "struct" => {
            let name = name_or(ch, "S");
            let gen = gen(ch);
            let wh = wh(ch);
            let flds = match ch.pick(3) {
                0 => Flds::Named(nfields(ch, 3)),
                1 => Flds::Tuple(tfields(ch, 3)),
                _ => Flds::Unit,
            };
            let semi = !matches!(flds, Flds::Named(_));
            Kind::Struct { name, gen, wh, flds, semi }
        }
        "enum" => Kind::Enum { name: name_or(ch, "E"), gen: gen(ch), wh: wh(ch), vars: variants(ch, 3) },
        "union" => Kind::Union { name: name_or(ch, "U"), gen: gen(ch), wh: wh(ch), flds: nfields(ch, 3) },
        "fn" => Kind::Fn(func(ch, cx)),
        "const" => konst(ch, false),
        "static" => konst(ch, true),
        "type" => alias(ch),
        "use" => Kind::Use(lx(ch.of(USES, U_CORE))),
        "macro" => mac(ch),
        "impl" => {
            let unsaf = ch.opt();
            let gen = gen(ch);
            let tr = if ch.opt() { Some(lx(ch.of(TRAITS, 3))) } else { None };
            let n = if ch.small { TY_CORE } else { TYPES.len() };
            let t = TYPES[ch.pick(n)];
            let t = if tr.is_none() && !impl_self_ok(t, gen.is_some()) { "A" } else { t };
            let wh = wh(ch);
            Kind::Impl { unsaf, gen, tr, ty: lx(t), wh, inner: inner(ch), items: members(ch, Cx::Impl, depth) }
        }
        "trait" => Kind::Trait {
            unsaf: ch.opt(),
            name: name_or(ch, "Tr"),
            gen: gen(ch),
            bound: if ch.opt() { Some(bound(ch)) } else { None },
            wh: wh(ch),
            inner: inner(ch),
            items: members(ch, Cx::Trait, depth),
        },
        "mod" => Kind::Mod {
            unsaf: ch.opt(),
            name: name_or(ch, "m"),
            body: if ch.pick(2) == 0 { Some((inner(ch), members(ch, Cx::Mod, depth))) } else { None },
        },
        "extern" => Kind::ExtB {
            unsaf: ch.opt(),
            abi: if ch.opt() { Some(*ch.of(ABIS, 1)) } else { None },
            inner: inner(ch),
            items: members(ch, Cx::Ext, depth),
        },
        "crate" => {
            let name = match ch.pick(if ch.small { 2 } else { 4 }) {
                0 => "a",
                1 => "self",
                2 => "r#type",
                _ => "std",
            };
            let alias = match ch.pick(if ch.small { 3 } else { 5 }) {
                0 => None,
                1 => Some("b"),
                2 => Some("_"),
                3 => Some("r#fn"),
                _ => Some("union"),
            };
            Kind::ExtC { name, alias }
        }
        _ => panic!("kind {kind}"),
    };
    It { attrs: a, vis: v, kind: k }
}
