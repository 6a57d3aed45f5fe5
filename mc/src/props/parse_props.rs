//! C01-C09, C11, C21: what parsing reports.
use crate::common::*;
use crate::explore::*;
use crate::gen::{self, *};
use crate::model::*;
use crate::strings;
use crate::tok::*;
use crate::Prop;

pub fn go(cx: &mut Ctx, it: &It, tight: bool, check: ItemCheck) {
    let mut t = it.toks();
    if tight {
        tighten(&mut t);
    }
    cx.input(&t);
    check(it, &t, cx);
}

pub fn st(name: S, gen: Gen, wh: Wh, flds: Flds) -> It {
    let semi = !matches!(flds, Flds::Named(_));
    It { attrs: vec![], vis: vec![], kind: Kind::Struct { name, gen, wh, flds, semi } }
}
pub fn bare(kind: Kind) -> It {
    It { attrs: vec![], vis: vec![], kind }
}
pub fn l<T>(items: Vec<T>, trail: bool) -> List<T> {
    let trail = trail && !items.is_empty();
    List { items, trail }
}
pub fn tfd(ty: Toks) -> TF {
    TF { attrs: vec![], vis: vec![], ty }
}
pub fn nfd(name: S, ty: Toks) -> NF {
    NF { attrs: vec![], vis: vec![], name, ty }
}
pub fn var(name: S, flds: Flds, disc: Option<Toks>) -> Variant {
    Variant { attrs: vec![], vis: vec![], name, flds, disc }
}
pub fn fun(name: S, params: List<Param>) -> Func {
    Func { quals: Quals::default(), name, gen: None, params, ret: None, wh: None, body: Some(vec![]) }
}
pub fn par(name: S, ty: Toks) -> Param {
    Param::Typed { attrs: vec![], mutt: false, name, ty }
}
pub fn gty(name: S, bound: Option<Toks>) -> GP {
    GP { kind: GK::Ty, name, bound }
}

pub const LENS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];

/// Long lists of every kind, with contents that depend on the position.
pub fn long(kinds: &'static [usize], check: ItemCheck) -> Space {
    space("long lists", 0, move |ch, cx| {
        let which = *ch.all(kinds);
        let n = *ch.all(LENS);
        let trail = ch.free(2) == 1;
        let nm = |p: &str, i: usize| intern(&format!("{p}{i}"));
        let ty = |i: usize| lx(TYPES[i * 7 % TYPES.len()]);
        let at = |i: usize| if i % 5 == 3 { vec![attr_of(ATTRS[i % ATTRS.len()], false)] } else { vec![] };
        let vs = |i: usize| if i % 4 == 2 { lx("pub(crate)") } else { vec![] };
        let nfs = |n: usize| l((0..n).map(|i| NF { attrs: at(i), vis: vs(i), name: nm("f", i), ty: ty(i) }).collect(), trail);
        let tfs = |n: usize| l((0..n).map(|i| TF { attrs: at(i), vis: vs(i), ty: ty(i) }).collect(), trail);
        let member = |i: usize| {
            let kind = match i % 4 {
                0 => Kind::Fn(Func { body: None, ..fun(nm("f", i), List::new()) }),
                1 => Kind::Alias { name: nm("T", i), bound: None, ty: Some(ty(i)) },
                2 => Kind::Mac { name: nm("m", i), decl: None, delim: D::P, body: vec![], semi: true },
                _ => Kind::Fn(fun(nm("f", i), List::new())),
            };
            It { attrs: at(i), vis: vec![], kind }
        };
        let it = match which {
            0 => st("S", None, None, Flds::Tuple(tfs(n))),
            1 => st("S", None, None, Flds::Named(nfs(n))),
            2 => bare(Kind::Enum {
                name: "E",
                gen: None,
                wh: None,
                vars: l(
                    (0..n)
                        .map(|i| {
                            let f = match i % 6 {
                                1 => Flds::Tuple(tfs(i % 3)),
                                2 => Flds::Named(nfs(i % 3)),
                                _ => Flds::Unit,
                            };
                            Variant {
                                attrs: at(i),
                                vis: vec![],
                                name: nm("V", i),
                                flds: f,
                                disc: if i % 3 == 0 { Some(vec![Tok::L(nm("", i))]) } else { None },
                            }
                        })
                        .collect(),
                    trail,
                ),
            }),
            3 => bare(Kind::Union { name: "U", gen: None, wh: None, flds: nfs(n) }),
            4 => bare(Kind::Fn(fun(
                "f",
                l((0..n).map(|i| Param::Typed { attrs: at(i), mutt: i % 3 == 1, name: nm("a", i), ty: ty(i) }).collect(), trail),
            ))),
            5 => st(
                "S",
                Some(l(
                    (0..n)
                        .map(|i| GP {
                            kind: if i % 7 == 5 { GK::Const } else if i % 5 == 4 { GK::Life } else { GK::Ty },
                            name: nm("T", i),
                            bound: if i % 7 == 5 {
                                Some(lx("usize"))
                            } else if i % 5 == 4 {
                                None
                            } else if i % 2 == 1 {
                                Some(lx(BOUNDS[i % BOUNDS.len()]))
                            } else {
                                None
                            },
                        })
                        .collect(),
                    trail,
                )),
                None,
                Flds::Unit,
            ),
            6 => st(
                "S",
                None,
                Some(l(
                    (0..n)
                        .map(|i| Pred { left: lx(LEFTS[i * 5 % LEFTS.len()]), bound: lx(BOUNDS[i % BOUNDS.len()]) })
                        .collect(),
                    trail,
                )),
                Flds::Named(nfs(1)),
            ),
            7 => It {
                attrs: (0..n).map(|i| attr_of(ATTRS[i % ATTRS.len()], false)).collect(),
                ..st("S", None, None, Flds::Unit)
            },
            8 => bare(Kind::Mod {
                unsaf: false,
                name: "m",
                body: Some(((0..if trail { 3 } else { 0 }).map(|i| attr_of(ATTRS[i], true)).collect(), (0..n).map(member).collect())),
            }),
            9 => bare(Kind::Impl {
                unsaf: false,
                gen: None,
                tr: None,
                ty: lx("A"),
                wh: None,
                inner: (0..if trail { 3 } else { 0 }).map(|i| attr_of(ATTRS[i], true)).collect(),
                items: (0..n).map(member).collect(),
            }),
            10 => bare(Kind::Trait {
                unsaf: false,
                name: "A",
                gen: None,
                bound: None,
                wh: None,
                inner: (0..if trail { 3 } else { 0 }).map(|i| attr_of(ATTRS[i], true)).collect(),
                items: (0..n).map(member).collect(),
            }),
            11 => bare(Kind::ExtB { unsaf: false, abi: None, inner: vec![], items: (0..n).map(member).collect() }),
            12 => bare(Kind::Mod {
                unsaf: false,
                name: "m",
                body: Some(((0..n).map(|i| attr_of(ATTRS[i % ATTRS.len()], true)).collect(), vec![])),
            }),
            13 => {
                // deep nesting of angle brackets in a type
                let mut t = "A".to_string();
                for i in 0..n {
                    t = if i % 2 == 0 { format!("B<{t}>") } else { format!("C<{t}, D>") };
                }
                st("S", None, None, Flds::Tuple(l(vec![tfd(lx(&t)), tfd(lx("Z"))], trail)))
            }
            14 => {
                // deep nesting of modules
                let mut it = st("S", None, None, Flds::Unit);
                for i in 0..n.min(200) {
                    it = bare(Kind::Mod { unsaf: false, name: nm("m", i), body: Some((vec![], vec![it])) });
                }
                it
            }
            15 => bare(Kind::Konst {
                stat: trail,
                mutt: false,
                name: "X",
                ty: lx("A"),
                init: Some((0..2 * n + 1).map(|i| if i % 2 == 0 { Tok::L(nm("", i)) } else { p(['<', '+', '>', '-'][i / 2 % 4]) }).collect()),
            }),
            17 | 18 | 19 | 20 => {
                // many inner attributes, before no member (or one)
                let inner: Attrs = (0..n).map(|i| attr_of(ATTRS[i % ATTRS.len()], true)).collect();
                let items: Vec<It> = if trail { vec![member(0)] } else { vec![] };
                bare(match which {
                    17 => Kind::Impl { unsaf: false, gen: None, tr: None, ty: lx("A"), wh: None, inner, items },
                    18 => Kind::Trait { unsaf: false, name: "A", gen: None, bound: None, wh: None, inner, items },
                    19 => Kind::ExtB { unsaf: false, abi: None, inner, items },
                    _ => Kind::Mod { unsaf: false, name: "m", body: Some((inner, items)) },
                })
            }
            21 => {
                // a long impl header
                let ty = lx(&format!("B{}", "::c".repeat(n)));
                bare(Kind::Impl {
                    unsaf: false,
                    gen: None,
                    tr: if trail { Some(lx(&format!("{}A{}", "T<".repeat(n), ">".repeat(n)))) } else { None },
                    ty,
                    wh: None,
                    inner: vec![],
                    items: vec![],
                })
            }
            22 => {
                // a long body of a function or macro
                let body: Toks = (0..n).flat_map(|i| if i % 3 == 0 { lx("a ;") } else { vec![Tok::G([D::P, D::B, D::C][i % 3], vec![Tok::I(nm("b", i))])] }).collect();
                bare(if trail {
                    Kind::Fn(Func { body: Some(body), ..fun("f", List::new()) })
                } else {
                    Kind::Mac { name: "m", decl: None, delim: D::C, body, semi: false }
                })
            }
            _ => bare(Kind::Use((0..2 * n + 1).flat_map(|i| if i % 2 == 0 { vec![Tok::I(nm("p", i))] } else { lx("::") }).collect())),
        };
        go(cx, &it, false, check);
    })
}
/// One element out of the grammar at every place of a list, among plain ones,
/// next to its equal, or repeated throughout.
pub fn special(kinds: &'static [usize], k: usize, rich_k: usize, check: ItemCheck) -> Vec<Space> {
    let mk = |name: &str, k: usize, far: bool| {
        space(name, k, move |ch, cx| {
            let which = *ch.all(kinds);
            let sizes: &[usize] = match () {
                _ if far => &[66, 258],
                _ if ch.rich && (8..12).contains(&which) => &[2, 5],
                _ => &[2, 3, 4, 5, 6, 9, 17],
            };
            let n = *ch.all(sizes);
            let mode = if far { 0 } else { ch.free(3) };
            let at = if far {
                n - 1
            } else if mode == 2 {
                0
            } else if n < 6 {
                ch.free(n)
            } else {
                [1, n / 2, n - 1][ch.free(3)]
            };
            let trail = !far && ch.free(2) == 1;
            let here = |i: usize| mode == 2 || i == at || (mode == 1 && i == at + 1);
            fn fill<T: Clone>(n: usize, here: impl Fn(usize) -> bool, x: T, plain: impl Fn(usize) -> T) -> Vec<T> {
                (0..n).map(|i| if here(i) { x.clone() } else { plain(i) }).collect()
            }
            let nm = |p: &str, i: usize| intern(&format!("{p}{i}"));
            let nfs = |ch: &mut Ch| {
                let x = gen::nfield(ch, 0);
                l(fill(n, here, x, |i| nfd(nm("f", i), lx("A"))), trail)
            };
            let tfs = |ch: &mut Ch| {
                let x = gen::tfield(ch);
                l(fill(n, here, x, |_| tfd(lx("A"))), trail)
            };
            let members = |ch: &mut Ch, c: Cx| {
                let kind = *ch.all(gen::kinds_in(c));
                let x = gen::item(ch, kind, c, 1);
                fill(n, here, x, |i| bare(Kind::Fn(Func { body: None, ..fun(nm("f", i), List::new()) })))
            };
            let attrs = |ch: &mut Ch, bang: bool| {
                let x = attr_of(ch.all(ATTRS), bang);
                fill(n, here, x, |_| attr_of("p", bang))
            };
            let gens = |ch: &mut Ch| {
                let x = gen::gparam(ch, 0);
                Some(l(fill(n, here, x, |i| gty(nm("T", i), None)), trail))
            };
            let preds = |ch: &mut Ch| {
                let x = gen::pred(ch);
                Some(l(fill(n, here, x, |i| Pred { left: vec![Tok::I(nm("T", i))], bound: lx("A") }), trail))
            };
            let params = |ch: &mut Ch| {
                let x = gen::param(ch, if mode == 0 { at } else { 1 });
                l(fill(n, here, x, |i| par(nm("x", i), lx("A"))), trail)
            };
            let en = |vars: List<Variant>| Kind::Enum { name: "E", gen: None, wh: None, vars };
            let it = match which {
                0 => st("S", None, None, Flds::Tuple(tfs(ch))),
                1 => st("S", None, None, Flds::Named(nfs(ch))),
                2 => {
                    let x = gen::variant(ch, 0);
                    bare(en(l(fill(n, here, x, |i| var(nm("V", i), Flds::Unit, None)), trail)))
                }
                3 => bare(Kind::Union { name: "U", gen: None, wh: None, flds: nfs(ch) }),
                4 => {
                    let f = Kind::Fn(fun("f", params(ch)));
                    if n % 2 == 0 { bare(f) } else { bare(Kind::Impl { unsaf: false, gen: None, tr: None, ty: lx("A"), wh: None, inner: vec![], items: vec![bare(f)] }) }
                }
                5 => {
                    let g = gens(ch);
                    carrier(ch.free(CARRIERS), g, None)
                }
                6 => {
                    let w = preds(ch);
                    carrier(ch.free(CARRIERS), None, w)
                }
                7 => {
                    let a = attrs(ch, false);
                    match decorated(ch.free(POSITIONS), a, vec![], lx("A")) {
                        Some(it) => it,
                        None => return,
                    }
                }
                8 => bare(Kind::Mod { unsaf: false, name: "m", body: Some((vec![], members(ch, Cx::Mod))) }),
                9 => bare(Kind::Impl { unsaf: false, gen: None, tr: None, ty: lx("A"), wh: None, inner: vec![], items: members(ch, Cx::Impl) }),
                10 => bare(Kind::Trait { unsaf: false, name: "A", gen: None, bound: None, wh: None, inner: vec![], items: members(ch, Cx::Trait) }),
                11 => bare(Kind::ExtB { unsaf: false, abi: None, inner: vec![], items: members(ch, Cx::Ext) }),
                12 => {
                    let inner = attrs(ch, true);
                    let items = if trail { vec![bare(Kind::Fn(fun("f", List::new())))] } else { vec![] };
                    bare(match ch.free(4) {
                        0 => Kind::Impl { unsaf: false, gen: None, tr: None, ty: lx("A"), wh: None, inner, items },
                        1 => Kind::Trait { unsaf: false, name: "A", gen: None, bound: None, wh: None, inner, items },
                        2 => Kind::ExtB { unsaf: false, abi: None, inner, items },
                        _ => Kind::Mod { unsaf: false, name: "m", body: Some((inner, items)) },
                    })
                }
                13 => {
                    let f = tfs(ch);
                    bare(en(l(vec![var("V", Flds::Unit, None), var("W", Flds::Tuple(f), Some(lx("1")))], trail)))
                }
                _ => {
                    let f = nfs(ch);
                    bare(en(l(vec![var("V", Flds::Named(f), None), var("W", Flds::Unit, None)], trail)))
                }
            };
            go(cx, &it, false, check);
        })
    };
    let mut v = vec![mk("special elements/min", k, false), mk("special elements/far", k, true)];
    if rich_k > 0 {
        v.push(mk("special elements/rich", rich_k, false).rich());
    }
    v
}
pub const ALL_SPECIAL: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14];
/// Types, bounds and paths of size `n`: families whose members differ only in size.
pub const SCALED: usize = 18;
pub fn scaled(f: usize, n: usize) -> Toks {
    let rep = |s: &str| s.repeat(n);
    lx(&match f {
        0 => format!("a{}", rep("::b")),
        1 => format!("::a{}", rep("::b<C, D>")),
        2 => format!("A<{}B>", rep("B, ")),
        3 => format!("A<{}>", rep("'a, B = C, ")),
        4 => format!("{}A", rep("&'a mut ")),
        5 => format!("{}A", rep("fn(B) -> ")),
        6 => format!("{}A{}", rep("<"), rep(" as B>::C")),
        7 => format!("{}A{}", rep("B<"), rep(">")),
        8 => format!("{}A{}", rep("B<fn() -> "), rep(", C>")),
        9 => format!("dyn A{}", rep(" + B<C>")),
        10 => format!("for<{}'z> fn() -> A", rep("'a, ")),
        11 => format!("{}A{}", rep("["), rep("; 1]")),
        12 => format!("Box<dyn Fn({}A) -> B>", rep("A, ")),
        14 => format!("dyn A{}", rep(" + for<'a> B<'a>")),
        15 => format!("{}A", rep("for<'a> fn(&'a B) -> ")),
        16 => format!("{}A{}", rep("(B, "), rep(")")),
        17 => format!("A<{}1>", rep("{ B }, -1, ")),
        _ => format!("a{}", rep("::b::<C>::d")),
    })
}
pub fn scaled_bound(f: usize, n: usize) -> Option<Toks> {
    Some(match f {
        9 => lx(&format!("A{}", " + B<C>".repeat(n))),
        14 => lx(&format!("A{}", " + for<'a> B<'a>".repeat(n))),
        15 => lx(&format!("Fn() -> {}A", "for<'a> fn(&'a B) -> ".repeat(n))),
        10 => lx(&format!("for<{}'z> A<'z>", "'a, ".repeat(n))),
        5 => lx(&format!("Fn() -> {}A", "fn(B) -> ".repeat(n))),
        12 => lx(&format!("Fn({}A) -> B", "A, ".repeat(n))),
        0 | 1 | 2 | 3 | 7 | 8 | 13 | 17 => scaled(f, n),
        _ => return None,
    })
}
pub const SIZES: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 64, 65, 130, 258];
pub fn scaled_space(check: ItemCheck) -> Space {
    scaled_to(SIZES, check)
}
pub fn scaled_to(sizes: &'static [usize], check: ItemCheck) -> Space {
    space("scaled types in all positions", 0, move |ch, cx| {
        let f = ch.free(SCALED);
        let n = *ch.all(sizes);
        let pos = ch.free(TYPE_POS + BOUND_POS);
        if pos < TYPE_POS {
            go(cx, &type_at(pos, scaled(f, n)), n % 2 == 1, check);
        } else {
            let Some(b) = scaled_bound(f, n) else { return };
            go(cx, &bound_at(pos - TYPE_POS, b), n % 2 == 1, check);
        }
    })
}
pub const ALL_LONG: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22];

// ---------------------------------------------------------------- C01

fn lossless(_it: &It, t: &Toks, cx: &mut Ctx) {
    if let Some(i) = accept(cx, t) {
        check_lossless(cx, &i, t);
        cx.outcome(xhash(t));
    }
}
fn any_lossless(t: &Toks, cx: &mut Ctx) {
    cx.input(t);
    cx.impl_runs += 1;
    match parse_toks(t) {
        Out::Item(i) => {
            check_lossless(cx, &i, t);
            cx.outcome(xhash(t));
        }
        _ => cx.rejected += 1,
    }
}
pub fn c01(th: bool) -> Prop {
    let b = bounds(th, [3, 1, 4, 3], [2, 1, 4, 2], [3, 2, 5, 3]);
    let mut v = grammar(KINDS, b, lossless);
    v.push(long(ALL_LONG, lossless));
    v.extend(special(ALL_SPECIAL, 1, 1, lossless));
    v.push(type_space(lossless, 2));
    v.push(scaled_space(lossless));
    v.push(space("strings", 0, move |ch, cx| {
        let t = strings::template(ch, if th { 3 } else { 2 }, strings::UNITS, strings::TEMPLATES);
        any_lossless(&t, cx);
    }));
    // as bounded_lifetime makes them: the apostrophe not joined to the name
    for rich in [false, true] {
        let sp = space(if rich { "loose apostrophes/rich" } else { "loose apostrophes/min" }, 1, |ch, cx| {
            let kind = *ch.all(KINDS);
            let it = gen::item(ch, kind, Cx::Top, 2);
            fn loose(t: &mut Toks) {
                for x in t {
                    match x {
                        Tok::P('\'', j) => *j = false,
                        Tok::G(_, b) => loose(b),
                        _ => (),
                    }
                }
            }
            let mut t = it.toks();
            loose(&mut t);
            any_lossless(&t, cx);
        });
        v.push(if rich { sp.rich() } else { sp });
    }
    v.push(space("strings/long", 0, move |ch, cx| {
        let t = strings::template(ch, if th { 4 } else { 3 }, strings::UNITS_S, strings::TEMPLATES);
        any_lossless(&t, cx);
    }));
    for rich in [false, true] {
        let sp = space(if rich { "edits/rich" } else { "edits/min" }, 1, move |ch, cx| {
            let kind = *ch.all(KINDS);
            let it = gen::item(ch, kind, Cx::Top, 2);
            let mut t = it.toks();
            strings::mutate(ch, &mut t);
            any_lossless(&t, cx);
        });
        v.push(if rich { sp.rich().small() } else { sp.small() });
    }
    Prop {
        id: "C01",
        spaces: v,
        rule: "declarations from the grammar (all kinds, containers and spacings within the deviation bound), long and deep lists, all types in all positions, lifetimes with detached apostrophes, all short token strings in all templates, all single-token edits of declarations; every accepted input must print back token for token including spacing, and every declaration must be accepted",
    }
}

// ---------------------------------------------------------------- C03

fn kind_only(it: &It, t: &Toks, cx: &mut Ctx) {
    if let Some(i) = check_structure(cx, it, t, cls::KIND) {
        let want = it.name();
        let got = i.name().map(|n| intern(&n.to_string()));
        if want != got {
            cx.fail(t, format!("declares {want:?}, name() gives {got:?}"));
        }
        // the kind as the public API classifies it
        let k = [
            ("struct", i.as_struct().is_some()),
            ("enum", i.as_enum().is_some()),
            ("union", i.as_union().is_some()),
            ("fn", i.as_function().is_some()),
            ("const", i.as_constant().map_or(false, |c| !c.is_static())),
            ("static", i.as_constant().map_or(false, |c| c.is_static())),
            ("type", i.as_type_alias().is_some()),
            ("use", i.as_use_declaration().is_some()),
            ("macro", i.as_macro().is_some()),
            ("impl", i.as_impl().is_some()),
            ("trait", i.as_trait().is_some()),
            ("mod", i.as_module().is_some()),
            ("extern block", i.as_extern_block().is_some()),
            ("extern crate", i.as_extern_crate().is_some()),
        ];
        for (n, is) in k {
            if is != (n == it.kind_name()) {
                cx.fail(t, format!("declares {}, but as {n}: {is}", it.kind_name()));
            }
        }
    }
}

/// Valid Rust that the parser is known to reject. Listed in known_findings.txt.
pub const KNOWN_REJECTED: &[&str] = &[
    "struct S<T = i32>(T);",
    "struct S<#[a] T>(T);",
    "type F<T> = Vec<T>;",
    "a::b! {}",
    "union! {}",
    "default! {}",
    "extern \"C\" { safe fn f(); }",
    "trait A = B;",
    "auto trait A {}",
    "pub impl A {}",
    "fn f((a, b): (A, B)) {}",
    "fn f(&a: &A) {}",
    "extern \"C\" { fn f(a: A, ...); }",
    "impl <T as X>::Y {}",
    "impl A { default const X: u8 = 1; }",
    "impl A { default type X = u8; }",
    "default impl A for B {}",
    "struct S<T> where m!(T): A { t: T }",
    "⟦pub⟧ struct S;",
];

pub fn c03(th: bool) -> Prop {
    let b = bounds(th, [3, 1, 4, 2], [2, 1, 4, 2], [3, 2, 5, 3]);
    let mut v = vec![];
    // every combination of qualifiers, in every container
    v.push(space("fn qualifiers", 0, |ch, cx| {
        let w = ch.free(5);
        let tight = ch.free(2) == 1;
        let q = Quals {
            default: ch.free(2) == 1,
            konst: ch.free(2) == 1,
            asyn: ch.free(2) == 1,
            unsaf: ch.free(2) == 1,
            ext: [None, Some(None), Some(Some("\"C\"")), Some(Some("r#\"x\"#"))][ch.free(4)],
        };
        let vis = lx(ch.all(VISS));
        let attrs = if ch.free(2) == 1 { vec![attr_of("a", false)] } else { vec![] };
        let name = *ch.all(&["f", "union", "default", "r#fn", "auto"]);
        let body = if ch.free(2) == 1 { None } else { Some(vec![]) };
        let gen = if ch.free(2) == 1 { Some(l(vec![gty("T", None)], false)) } else { None };
        let it = It { attrs, vis, kind: Kind::Fn(Func { quals: q, name, gen, params: List::new(), ret: None, wh: None, body }) };
        go(cx, &wrap(it, w), tight, kind_only);
    }));
    // every other declaration that shares a prefix with functions
    v.push(space("shared prefixes", 0, |ch, cx| {
        let n = *ch.all(NAMES);
        let unsaf = ch.free(2) == 1;
        let abi = [None, Some("\"C\""), Some("r\"x\"")][ch.free(3)];
        let vis = lx(ch.all(VISS));
        let attrs = if ch.free(2) == 1 { vec![attr_of("a", false)] } else { vec![] };
        let kind = match ch.free(10) {
            0 => Kind::Konst { stat: false, mutt: false, name: n, ty: lx("fn() -> A"), init: Some(lx("b")) },
            1 => Kind::Konst { stat: true, mutt: unsaf, name: n, ty: lx("A"), init: Some(lx("b")) },
            2 => Kind::ExtB { unsaf, abi, inner: vec![], items: vec![] },
            3 => Kind::ExtC { name: n, alias: if unsaf { Some("b") } else { None } },
            4 => Kind::Trait { unsaf, name: n, gen: None, bound: None, wh: None, inner: vec![], items: vec![] },
            5 => Kind::Mod { unsaf, name: n, body: None },
            6 => Kind::Mod { unsaf, name: n, body: Some((vec![], vec![])) },
            7 => Kind::Impl { unsaf, gen: None, tr: Some(lx("A")), ty: vec![Tok::I(n)], wh: None, inner: vec![], items: vec![] },
            8 => Kind::Alias { name: n, bound: None, ty: Some(lx("A")) },
            _ => Kind::Konst { stat: false, mutt: false, name: "_", ty: lx("A"), init: Some(lx("fn_")) },
        };
        let vis = if matches!(kind, Kind::Impl { .. }) { vec![] } else { vis };
        let it = It { attrs, vis, kind };
        let ws = wraps(match it.kind_name() {
            "extern block" => "extern",
            k => k,
        });
        let w = *ch.all(ws);
        go(cx, &wrap(it, w), false, kind_only);
    }));
    // every name for every kind, also as macro
    v.push(space("names", 0, |ch, cx| {
        let n = *ch.all(NAMES);
        let gen = if ch.free(2) == 1 { Some(l(vec![gty("T", None)], false)) } else { None };
        let vis = lx(ch.all(&["", "pub", "crate"]));
        let kind = match ch.free(8) {
            0 => Kind::Struct { name: n, gen, wh: None, flds: Flds::Unit, semi: true },
            1 => Kind::Struct { name: n, gen, wh: None, flds: Flds::Tuple(List::new()), semi: true },
            2 => Kind::Struct { name: n, gen, wh: None, flds: Flds::Named(List::new()), semi: false },
            3 => Kind::Enum { name: n, gen, wh: None, vars: List::new() },
            4 => Kind::Union { name: n, gen, wh: None, flds: List::new() },
            5 => Kind::Fn(Func { gen, ..fun(n, List::new()) }),
            6 => Kind::Trait { unsaf: false, name: n, gen, bound: None, wh: None, inner: vec![], items: vec![] },
            _ => {
                // a macro may have any name that is not an item keyword
                let n = if matches!(n, "union" | "default") { "macro_" } else { n };
                Kind::Mac { name: n, decl: None, delim: D::P, body: vec![], semi: true }
            }
        };
        let vis = if matches!(kind, Kind::Mac { .. }) { vec![] } else { vis };
        let it = It { attrs: vec![], vis, kind };
        let w = *ch.all(wraps(it.kind_name()));
        go(cx, &wrap(it, w), false, kind_only);
    }));
    v.extend(grammar(KINDS, b, kind_only));
    v.push(long(&[0, 2, 8, 9, 10, 11, 14, 21, 22], kind_only));
    v.push(space("known findings", 0, |ch, cx| {
        let s = *ch.all(KNOWN_REJECTED);
        let t = lx(s);
        cx.input(&t);
        cx.impl_runs += 1;
        match parse_toks(&t) {
            Out::Item(i) => check_lossless(cx, &i, &t),
            _ => {
                if known("C03", s) {
                    cx.known.push(format!("rejected: {s}"));
                } else {
                    cx.fail(&t, "valid declaration rejected and not a listed finding");
                }
            }
        }
    }));
    Prop {
        id: "C03",
        spaces: v,
        rule: "all fn qualifier combinations x visibility x container; all declarations sharing their prefixes x all names; the declaration grammar; each must be accepted with the declared kind, name and qualifiers (item and all members)",
    }
}

/// Whether a finding is listed in the committed file.
pub fn known(prop: &str, what: &str) -> bool {
    let f = include_str!("../../../known_findings.txt");
    f.lines().any(|l| l.strip_prefix("known: ").map_or(false, |l| l.strip_prefix(&format!("property={prop} ")) == Some(what)))
}

// ---------------------------------------------------------------- C04

fn fields_only(it: &It, t: &Toks, cx: &mut Ctx) {
    check_structure(cx, it, t, cls::FIELD | cls::DISC);
}
pub fn c04(th: bool) -> Prop {
    let b = bounds(th, [3, 2, 5, 3], [2, 2, 4, 2], [3, 2, 6, 4]);
    let mut v = grammar(&["struct", "enum", "union"], b, fields_only);
    v.push(type_space(fields_only, 2));
    v.push(scaled_space(fields_only));
    v.push(long(&[0, 1, 2, 3, 13], fields_only));
    v.extend(special(&[0, 1, 2, 3, 13, 14], if th { 2 } else { 1 }, 1, fields_only));
    // all pairs of neighbouring types, in all field positions
    v.push(space("type pairs", 0, |ch, cx| {
        let shape = ch.free(5);
        let (a, b) = (lx(ch.all(TYPES)), lx(ch.all(TYPES)));
        let m = ch.free(4);
        let (trail, tight) = (m & 1 == 1, m & 2 == 2);
        let tup = |a: Toks, b: Toks| l(vec![tfd(a), tfd(b)], trail);
        let nam = |a: Toks, b: Toks| l(vec![nfd("x", a), nfd("y", b)], trail);
        let it = match shape {
            0 => st("S", None, None, Flds::Tuple(tup(a, b))),
            1 => st("S", None, None, Flds::Named(nam(a, b))),
            2 => bare(Kind::Enum {
                name: "E",
                gen: None,
                wh: None,
                vars: l(vec![var("A", Flds::Tuple(tup(a, b)), Some(lx("1"))), var("B", Flds::Unit, None)], trail),
            }),
            3 => bare(Kind::Enum {
                name: "E",
                gen: None,
                wh: None,
                vars: l(vec![var("Z", Flds::Unit, None), var("A", Flds::Named(nam(a, b)), None)], trail),
            }),
            _ => bare(Kind::Union { name: "U", gen: None, wh: None, flds: nam(a, b) }),
        };
        go(cx, &it, tight, fields_only);
    }));
    // which element owns which attribute, visibility and separator
    v.push(space("ownership", 0, |ch, cx| {
        let shape = ch.free(3);
        let n = 1 + ch.free(3);
        let trail = ch.free(2) == 1;
        let a = |ch: &mut Ch, i: usize| -> Attrs {
            (0..ch.free(3)).map(|j| attr_of(["p", "q(r)", "s = \"t\"", "u::v"][(i + j) % 4], false)).collect()
        };
        let vs = |ch: &mut Ch| lx(["", "pub", "pub(crate)", "crate"][ch.free(4)]);
        let it = match shape {
            0 => {
                let f = (0..n).map(|i| TF { attrs: a(ch, i), vis: vs(ch), ty: lx(["(A, B)", "crate::C", "D"][i]) }).collect();
                st("S", None, None, Flds::Tuple(l(f, trail)))
            }
            1 => {
                let f = (0..n)
                    .map(|i| NF { attrs: a(ch, i), vis: vs(ch), name: ["x", "r#pub", "union"][i], ty: lx(["(A, B)", "crate::C", "D"][i]) })
                    .collect();
                st("S", None, None, Flds::Named(l(f, trail)))
            }
            _ => {
                let f = (0..n)
                    .map(|i| {
                        let attrs = a(ch, i);
                        let flds = [
                            Flds::Unit,
                            Flds::Tuple(List::new()),
                            Flds::Tuple(l(vec![TF { attrs: vec![attr_of("z", false)], vis: vec![], ty: lx("A") }], true)),
                            Flds::Named(l(vec![nfd("x", lx("A"))], false)),
                        ][ch.free(4)]
                        .clone();
                        Variant { attrs, vis: vec![], name: ["A", "r#fn", "B"][i], flds, disc: [None, Some(lx("1")), Some(lx("(a, b)"))][ch.free(3)].clone() }
                    })
                    .collect();
                bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(f, trail) })
            }
        };
        go(cx, &it, false, fields_only);
    }));
    Prop {
        id: "C04",
        spaces: v,
        rule: "structs, enums and unions from the grammar; all pairs of neighbouring field types; all assignments of attributes, visibilities, field shapes and values to up to 3 neighbours; lists up to 300 elements; reported fields and variants must equal the declared ones",
    }
}

// ---------------------------------------------------------------- C05

fn generics_only(it: &It, t: &Toks, cx: &mut Ctx) {
    check_structure(cx, it, t, cls::GEN);
}
pub const CARRIERS: usize = 10;
/// Something that has this parameter list and where clause.
pub fn carrier(i: usize, gen: Gen, wh: Wh) -> It {
    bare(match i {
        0 => Kind::Struct { name: "S", gen, wh, flds: Flds::Named(l(vec![nfd("x", lx("A<B>"))], false)), semi: false },
        1 => Kind::Struct { name: "S", gen, wh, flds: Flds::Tuple(l(vec![tfd(lx("A<B>"))], false)), semi: true },
        2 => Kind::Struct { name: "S", gen, wh, flds: Flds::Unit, semi: true },
        3 => Kind::Enum { name: "E", gen, wh, vars: l(vec![var("A", Flds::Unit, None)], true) },
        4 => Kind::Union { name: "U", gen, wh, flds: l(vec![nfd("x", lx("A"))], true) },
        5 => Kind::Fn(Func { gen, wh, ret: Some(lx("A")), ..fun("f", l(vec![par("x", lx("A<B>"))], false)) }),
        6 => Kind::Fn(Func { gen, wh, body: None, ..fun("f", List::new()) }),
        7 => Kind::Trait { unsaf: false, name: "Tr", gen, bound: Some(lx("A<B>")), wh, inner: vec![], items: vec![] },
        8 => Kind::Impl { unsaf: false, gen, tr: Some(lx("A<B>")), ty: lx("C<D>"), wh, inner: vec![], items: vec![] },
        _ => Kind::Trait { unsaf: false, name: "Tr", gen, bound: None, wh, inner: vec![], items: vec![] },
    })
}
/// All generic parameters of the alphabets.
pub fn all_params() -> Vec<GP> {
    let mut v = vec![];
    for n in ["a", "static", "_", "static_", "r#for"] {
        v.push(GP { kind: GK::Life, name: n, bound: None });
    }
    for b in LIFE_BOUNDS {
        v.push(GP { kind: GK::Life, name: "a", bound: Some(lx(b)) });
    }
    for n in ["T", "r#const", "union", "default", "_T"] {
        v.push(gty(n, None));
    }
    for b in BOUNDS.iter().chain(DEFAULTS) {
        v.push(gty("T", Some(lx(b))));
    }
    for b in CONST_TYS {
        v.push(GP { kind: GK::Const, name: "N", bound: Some(lx(b)) });
    }
    v
}
pub fn few_params() -> Vec<GP> {
    vec![
        GP { kind: GK::Life, name: "a", bound: None },
        GP { kind: GK::Life, name: "b", bound: Some(lx("'c + 'd")) },
        gty("T", None),
        gty("U", Some(lx("A<B, C>"))),
        gty("V", Some(lx("Fn(A) -> B"))),
        gty("W", Some(lx(""))),
        gty("X", Some(lx("A<B> = C<D>"))),
        GP { kind: GK::Const, name: "N", bound: Some(lx("usize")) },
        GP { kind: GK::Const, name: "M", bound: Some(lx("bool = { a > b }")) },
    ]
}
pub fn c05(th: bool) -> Prop {
    let b = bounds(th, [3, 1, 4, 3], [2, 1, 4, 2], [3, 2, 5, 3]);
    let mut v = vec![];
    v.push(space("parameter lists", 0, move |ch, cx| {
        let (gen, long) = match ch.free(3) {
            0 => {
                // one or two arbitrary parameters
                let all = all_params();
                let n = ch.free(3);
                (l((0..n).map(|_| ch.all(&all).clone()).collect(), ch.free(2) == 1), n == 2)
            }
            _ => {
                let few = few_params();
                let n = 3 + ch.free(if th { 2 } else { 1 });
                (l((0..n).map(|_| ch.all(&few).clone()).collect(), ch.free(2) == 1), true)
            }
        };
        let c = if long && !th { [0, 5, 8][ch.free(3)] } else { ch.free(CARRIERS) };
        let wh = if ch.free(2) == 1 { Some(l(vec![Pred { left: lx("T::A"), bound: lx("B<C>") }], false)) } else { None };
        go(cx, &carrier(c, Some(gen), wh), ch.free(2) == 1, generics_only);
    }));
    v.push(space("predicates", 0, move |ch, cx| {
        let c = ch.free(CARRIERS);
        let q = Pred { left: lx(ch.all(LEFTS)), bound: lx(ch.all(BOUNDS)) };
        let m = ch.free(8);
        let mut ps = vec![q];
        if m & 1 == 1 {
            ps.push(Pred { left: lx("U::V"), bound: lx("W") });
        }
        let gen = if m & 4 == 4 { Some(l(vec![gty("T", Some(lx("A<B>")))], false)) } else { None };
        go(cx, &carrier(c, gen, Some(l(ps, m & 2 == 2))), m % 3 == 1, generics_only);
    }));
    v.push(space("predicate lists", 0, move |ch, cx| {
        let n = ch.free(if th { 4 } else { 3 });
        let ps: Vec<Pred> = (0..n)
            .map(|_| {
                let j = ch.free(10);
                Pred { left: lx(LEFTS[j * 3 % 10]), bound: lx(["A", "", "Fn() -> B<C>", "A<B = C> + 'a", "for<'a> A<'a>"][ch.free(5)]) }
            })
            .collect();
        let trail = ch.free(2) == 1;
        let c = if n > 2 { 0 } else { ch.free(CARRIERS) };
        go(cx, &carrier(c, None, Some(l(ps, trail))), false, generics_only);
    }));
    v.push(space("predicate parsing", 0, move |ch, cx| {
        let (le, bo) = (lx(ch.all(LEFTS)), lx(ch.all(BOUNDS)));
        let mut t = le.clone();
        t.push(p(':'));
        t.extend(bo.iter().cloned());
        if ch.free(2) == 1 {
            tighten(&mut t);
        }
        cx.input(&t);
        cx.impl_runs += 1;
        match guard(|| venial::WhereClausePredicate::parse(to_stream(&t))) {
            Ok(q) => {
                let got = crate::obs::pred(&q);
                if got != (Pred { left: le, bound: bo }) {
                    cx.fail(&t, format!("predicate split into `{}` and `{}`", show(&got.left), show(&got.bound)));
                }
            }
            Err(m) => cx.fail(&t, format!("predicate not accepted: {m}")),
        }
    }));
    v.extend(grammar(&["struct", "enum", "union", "fn", "trait", "impl"], b, generics_only));
    v.push(type_space(generics_only, 2));
    v.push(long(&[5, 6], generics_only));
    v.extend(special(&[5, 6], if th { 2 } else { 1 }, 1, generics_only));
    v.push(scaled_space(generics_only));
    Prop {
        id: "C05",
        spaces: v,
        rule: "all parameter lists of up to 2 arbitrary and 3-4 representative parameters, all left sides x bounds, all lists of representative predicates, on every carrier (struct shapes, enum, union, fn with body or semicolon, trait, impl) and in both spacings; reported lists must equal the declared ones",
    }
}

// ---------------------------------------------------------------- C06

fn fn_only(it: &It, t: &Toks, cx: &mut Ctx) {
    check_structure(cx, it, t, cls::FN);
}
pub fn c06(th: bool) -> Prop {
    let b = bounds(th, [3, 2, 5, 3], [2, 2, 4, 2], [3, 2, 6, 4]);
    let mut v = vec![];
    v.push(space("parameters", 0, move |ch, cx| {
        let w = *ch.all(&[0usize, 2, 3, 4]);
        let n = ch.free(4);
        let mut ps = vec![];
        for i in 0..n {
            let attrs = |k: usize| -> Attrs { (0..k).map(|j| attr_of(["p", "q(r)"][j], false)).collect() };
            if i == 0 {
                let j = ch.free(14);
                let a = attrs(ch.free(3));
                ps.push(match j {
                    0 => Param::Typed { attrs: a, mutt: false, name: "x", ty: lx("A") },
                    1 => Param::Typed { attrs: a, mutt: true, name: "x", ty: lx("&'a mut A") },
                    2 => Param::Recv { attrs: a, amp: false, life: None, mutt: false },
                    3 => Param::Recv { attrs: a, amp: false, life: None, mutt: true },
                    4 => Param::Recv { attrs: a, amp: true, life: None, mutt: false },
                    5 => Param::Recv { attrs: a, amp: true, life: None, mutt: true },
                    6 => Param::Recv { attrs: a, amp: true, life: Some("a"), mutt: false },
                    7 => Param::Recv { attrs: a, amp: true, life: Some("static"), mutt: true },
                    8 => Param::Typed { attrs: a, mutt: false, name: "self", ty: lx("Pin<&mut Self>") },
                    9 => Param::Typed { attrs: a, mutt: true, name: "self", ty: lx("Box<Self>") },
                    10 => Param::Typed { attrs: a, mutt: false, name: "self", ty: lx("::a::B") },
                    11 => Param::Typed { attrs: a, mutt: false, name: "_", ty: lx("fn(A) -> B") },
                    12 => Param::Typed { attrs: a, mutt: false, name: "r#mut", ty: lx("A<B, C>") },
                    _ => Param::Typed { attrs: a, mutt: true, name: "r#type", ty: lx("(A, B)") },
                });
            } else {
                let j = ch.free(5);
                let a = attrs(if n < 3 { ch.free(2) } else { 0 });
                ps.push(Param::Typed {
                    attrs: a,
                    mutt: j == 1,
                    name: [["y", "mut_", "self_", "_", "union"], ["z", "w", "r#fn", "_", "default"], ["u", "v", "_", "s", "t"]][i - 1][j],
                    ty: lx(["A", "&mut B", "Fn_<C, D>", "fn(A, B) -> C", "impl Fn(A) -> B"][j]),
                });
            }
        }
        let trail = n > 0 && ch.free(2) == 1;
        let r = ch.free(4);
        let ret = [None, Some("A"), Some("fn() -> A<B>"), Some("impl A<B = C> + 'a")][r].map(lx);
        let wh = if ch.free(2) == 1 { Some(l(vec![Pred { left: lx("T::A"), bound: lx("B") }], r == 2)) } else { None };
        let body = if ch.free(2) == 1 { None } else { Some(lx("a; b")) };
        let it = bare(Kind::Fn(Func { ret, wh, body, ..fun("f", List { items: ps, trail }) }));
        go(cx, &wrap(it, w), r == 1, fn_only);
    }));
    v.push(space("types", 0, |ch, cx| {
        let ty = lx(ch.all(TYPES));
        let pos = ch.free(4);
        let ps = match pos {
            0 => l(vec![par("x", ty.clone())], false),
            1 => l(vec![par("x", ty.clone()), par("y", lx("B"))], true),
            2 => l(vec![Param::Recv { attrs: vec![], amp: true, life: None, mutt: false }, par("x", ty.clone())], true),
            _ => List::new(),
        };
        let ret = if pos == 3 { Some(ty) } else { None };
        let wh = if ch.free(2) == 1 { Some(l(vec![Pred { left: lx("T"), bound: lx("B") }], false)) } else { None };
        let body = if ch.free(2) == 1 { None } else { Some(vec![]) };
        let it = bare(Kind::Fn(Func { ret, wh, body, ..fun("f", ps) }));
        let w = *ch.all(&[0usize, 2, 3, 4]);
        go(cx, &wrap(it, w), ch.free(2) == 1, fn_only);
    }));
    v.push(space("qualifiers", 0, |ch, cx| {
        let q = Quals {
            default: ch.free(2) == 1,
            konst: ch.free(2) == 1,
            asyn: ch.free(2) == 1,
            unsaf: ch.free(2) == 1,
            ext: [None, Some(None), Some(Some("\"C\"")), Some(Some("r\"system\"")), Some(Some("\"a-b c\""))][ch.free(5)],
        };
        let name = *ch.all(NAMES);
        let it = It { attrs: vec![], vis: lx(["", "pub"][ch.free(2)]), kind: Kind::Fn(Func { quals: q, ..fun(name, List::new()) }) };
        let w = ch.free(5);
        go(cx, &wrap(it, w), false, fn_only);
    }));
    v.extend(grammar(&["fn"], b, fn_only));
    v.push(type_space(fn_only, 2));
    v.push(scaled_space(fn_only));
    v.push(long(&[4, 22], fn_only));
    v.extend(special(&[4], 2, if th { 2 } else { 1 }, fn_only));
    Prop {
        id: "C06",
        spaces: v,
        rule: "all lists of up to 3 parameters over every receiver and typed form x trailing comma x return x where x body, all types as parameter and return type, all qualifier subsets and ABIs x names, in every container; reported signature must equal the declared one",
    }
}

// ---------------------------------------------------------------- C07

fn members_only(it: &It, t: &Toks, cx: &mut Ctx) {
    check_structure(cx, it, t, cls::MEMBER);
}
pub const MOD_POOL: &[&str] = &[
    "struct A ;",
    "struct A ( pub B , C ) ;",
    "struct A { x : B }",
    "# [ a ] pub enum E < T > where T : U { A , B ( C ) = 1 , }",
    "union U { x : A , }",
    "fn f ( ) { }",
    "pub const unsafe extern \"C\" fn f < T > ( x : T ) -> A { b ; c }",
    "const A : u8 = 1 << 3 ;",
    "static mut A : B = a < b ;",
    "# [ a ] # [ b ( c ) ] type A = B < C > ;",
    "use a :: { b , c } ;",
    "m ! { a ; b }",
    "m ! ( a ) ;",
    "m ! [ a ] ;",
    "macro_rules ! m { ( ) => { } ; }",
    "impl < T > A for B < T > where T : C { fn f ( & self ) { } }",
    "unsafe impl A for B { }",
    "trait A : B { # ! [ x ] type C ; # [ y ] fn f ( ) ; }",
    "unsafe trait A { }",
    "mod m ;",
    "# [ a ] mod m { # ! [ b ] struct C ; }",
    "unsafe mod m { }",
    "extern { fn f ( ) ; static A : B ; }",
    "unsafe extern \"C\" { }",
    "extern crate a ;",
    "pub extern crate a as b ;",
    "crate fn f ( ) { }",
    "async fn f ( ) { }",
];
pub const IMPL_POOL: &[&str] = &[
    "fn f ( ) { }",
    "# [ a ] pub fn f ( & self ) -> A where T : B { c }",
    "default const async unsafe extern \"C\" fn f < T > ( x : T ) ;",
    "const A : B = c < d ;",
    "const A : B ;",
    "pub ( crate ) const _ : A = { b ; c } ;",
    "type A = B < C > ;",
    "# [ a ] # [ b ( c ) ] type A : B = C ;",
    "type A ;",
    "m ! { a }",
    "m ! ( a ) ;",
    "# [ a ] m ! [ b ] ;",
    "unsafe fn f ( x : A , ) { }",
];
pub const EXT_POOL: &[&str] = &["static A : B ;", "# [ a ] pub static mut A : B ;", "extern \"C\" fn f ( x : A ) -> B ;", "static A : B = c ;"];

/// A container header (without body), as written and as a model.
pub fn c07(th: bool) -> Prop {
    let mut v = vec![];
    // All sequences of members. Oracle: each member is what parsing it alone gives, and prints as written.
    v.push(space("member sequences", 0, move |ch, cx| {
        let cont = ch.free(4);
        let pool: Vec<&str> = match cont {
            0 => MOD_POOL.to_vec(),
            3 => IMPL_POOL.iter().filter(|s| !s.contains("const A") && !s.contains("const _")).chain(EXT_POOL).copied().collect(),
            _ => IMPL_POOL.to_vec(),
        };
        let n = ch.free(4);
        let nin = ch.free(if n == 3 && !th { 2 } else { 3 });
        let mut body = vec![];
        for i in 0..nin {
            body.extend(lx(["# ! [ p ]", "# ! [ q ( r ) ]"][i]));
        }
        let ms: Vec<Toks> = (0..n).map(|_| lx(ch.all(&pool))).collect();
        for m in &ms {
            body.extend(m.iter().cloned());
        }
        let mut t = lx(["mod w", "impl W", "trait W", "extern \"C\""][cont]);
        t.push(Tok::G(D::C, body));
        cx.input(&t);
        let Some(i) = accept(cx, &t) else { return };
        let (got, odds) = crate::obs::item(&i);
        if let Some(o) = odds_of(&odds, cls::MEMBER) {
            cx.fail(&t, o);
            return;
        }
        let (inner, items) = match &got.kind {
            Kind::Mod { body: Some((a, b)), .. } if cont == 0 => (a, b),
            Kind::Impl { inner, items, .. } if cont == 1 => (inner, items),
            Kind::Trait { inner, items, .. } if cont == 2 => (inner, items),
            Kind::ExtB { inner, items, .. } if cont == 3 => (inner, items),
            k => {
                cx.fail(&t, format!("not reported as the container written: {k:?}"));
                return;
            }
        };
        let want_inner: Attrs = (0..nin).map(|i| attr_of(["p", "q(r)"][i], true)).collect();
        if *inner != want_inner {
            cx.fail(&t, format!("inner attributes declared: {nin}; reported: {inner:?}"));
        }
        if items.len() != n {
            cx.fail(&t, format!("{n} members declared, {} reported", items.len()));
            return;
        }
        for (k, m) in ms.iter().enumerate() {
            if &items[k].toks() != m {
                cx.fail(&t, format!("member {k} declared: {}; reported: {}", show(m), show(&items[k].toks())));
                return;
            }
            // some members are not items of their own (a static without value is)
            if let Out::Item(alone) = parse_toks(m) {
                let (a, _) = crate::obs::item(&alone);
                if a != items[k] {
                    cx.fail(&t, format!("member {k} differs from the same declaration alone: {:?}", diff(&a, &items[k], !0)));
                    return;
                }
            } else {
                cx.fail(m, "member not accepted as an item of its own");
            }
        }
        cx.outcome(shape(&got));
    }));
    v.push(space("impl headers", 0, |ch, cx| {
        let tr = match ch.free(TRAITS.len() + 1) {
            0 => None,
            i => Some(lx(TRAITS[i - 1])),
        };
        let t = *ch.all(TYPES);
        let gen = [None, Some(List::new()), Some(l(vec![gty("T", Some(lx("A<B>"))), gty("U", None)], false))][ch.free(3)].clone();
        if gen.is_none() && tr.is_none() && t.starts_with('<') {
            return; // known finding: `impl <T as X>::Y {}`
        }
        let wh = if ch.free(2) == 1 { Some(l(vec![Pred { left: lx("T::A"), bound: lx("B<C>") }], true)) } else { None };
        let unsaf = ch.free(2) == 1;
        let items = vec![bare(Kind::Fn(fun("f", List::new())))];
        let it = bare(Kind::Impl { unsaf, gen, tr, ty: lx(t), wh, inner: vec![], items });
        go(cx, &it, unsaf, members_only);
    }));
    v.push(space("trait headers", 0, |ch, cx| {
        let bound = match ch.free(BOUNDS.len() + 1) {
            0 => None,
            i => Some(lx(BOUNDS[i - 1])),
        };
        let gen = [None, Some(List::new()), Some(l(vec![gty("T", Some(lx("A<B>"))), gty("U", None)], true))][ch.free(3)].clone();
        let wh = [None, Some(List::new()), Some(l(vec![Pred { left: lx("T::A"), bound: lx("B<C>") }], true))][ch.free(3)].clone();
        let unsaf = ch.free(2) == 1;
        let name = *ch.all(NAMES);
        let items = if ch.free(2) == 1 { vec![bare(Kind::Alias { name: "C", bound: None, ty: None })] } else { vec![] };
        let it = bare(Kind::Trait { unsaf, name, gen, bound, wh, inner: vec![], items });
        go(cx, &it, unsaf, members_only);
    }));
    // containers in containers
    v.push(space("nesting", 0, move |ch, cx| {
        fn m(ch: &mut Ch, depth: usize) -> It {
            let inner: Attrs = (0..ch.free(2)).map(|_| attr_of("i", true)).collect();
            let outer: Attrs = (0..ch.free(2)).map(|_| attr_of("o", false)).collect();
            let vis = vec![];
            if depth == 0 {
                return match ch.free(3) {
                    0 => It { attrs: outer, vis, kind: Kind::Mod { unsaf: false, name: "m", body: None } },
                    1 => It {
                        attrs: outer,
                        vis,
                        kind: Kind::Trait { unsaf: false, name: "T", gen: None, bound: None, wh: None, inner, items: vec![bare(Kind::Fn(fun("g", List::new())))] },
                    },
                    _ => It { attrs: outer, vis, kind: Kind::ExtB { unsaf: false, abi: None, inner, items: vec![] } },
                };
            }
            let n = ch.free(3);
            let items = (0..n).map(|_| m(ch, depth - 1)).collect();
            It { attrs: outer, vis, kind: Kind::Mod { unsaf: false, name: "m", body: Some((inner, items)) } }
        }
        let it = m(ch, if th { 2 } else { 1 });
        let it = bare(Kind::Mod { unsaf: false, name: "top", body: Some((vec![], vec![it])) });
        go(cx, &it, false, members_only);
    }));
    let b = bounds(th, [3, 1, 5, 3], [2, 1, 4, 2], [3, 2, 5, 3]);
    v.extend(grammar(&["mod", "impl", "trait", "extern"], b, members_only));
    v.push(type_space(members_only, 2));
    v.push(scaled_space(members_only));
    v.push(long(&[8, 9, 10, 11, 14, 17, 18, 19, 20, 21], members_only));
    v.extend(special(&[8, 9, 10, 11], 1, 1, members_only));
    Prop {
        id: "C07",
        spaces: v,
        rule: "all sequences of up to 3 members from pools (28 module items, 13 associated items, extern members) x inner attributes in each container, compared with the members parsed alone; all impl and trait headers; nested containers; the container grammar",
    }
}

// ---------------------------------------------------------------- C08

fn const_only(it: &It, t: &Toks, cx: &mut Ctx) {
    check_structure(cx, it, t, cls::CONST);
}
pub fn c08(th: bool) -> Prop {
    let mut v = vec![];
    v.push(space("const and static", 0, move |ch, cx| {
        let k = ch.free(3);
        let ty = lx(ch.all(TYPES));
        let init = match ch.free(INITS.len() + 1) {
            0 => None,
            i => Some(lx(INITS[i - 1])),
        };
        let ws = wraps(if k == 0 { "const" } else { "static" });
        let w = *ch.all(ws);
        let it = bare(Kind::Konst { stat: k > 0, mutt: k == 2, name: "X", ty, init });
        go(cx, &wrap(it, w), ch.free(2) == 1, const_only);
    }));
    v.push(space("const names", 0, move |ch, cx| {
        let k = ch.free(3);
        let name = match ch.free(NAMES.len() + 1) {
            0 => "_",
            i => NAMES[i - 1],
        };
        if name == "_" && k > 0 {
            return;
        }
        let vis = lx(ch.all(VISS));
        let attrs = if ch.free(2) == 1 { vec![attr_of("a", false)] } else { vec![] };
        let init = [None, Some(lx("1")), Some(lx("a < b"))][ch.free(3)].clone();
        let w = *ch.all(wraps(if k == 0 { "const" } else { "static" }));
        let it = It { attrs, vis, kind: Kind::Konst { stat: k > 0, mutt: k == 2, name, ty: lx("A<B>"), init } };
        go(cx, &wrap(it, w), false, const_only);
    }));
    // two declarations in a row: an initializer must not run into the next one
    v.push(space("initializer pairs", 0, move |ch, cx| {
        let (a, b) = (lx(ch.all(INITS)), lx(ch.all(INITS)));
        let m = ch.free(4);
        let items = vec![
            bare(Kind::Konst { stat: m & 1 == 1, mutt: false, name: "X", ty: lx("A"), init: Some(a) }),
            bare(Kind::Konst { stat: m & 2 == 2, mutt: false, name: "Y", ty: lx("B<C>"), init: Some(b) }),
        ];
        let it = bare(Kind::Mod { unsaf: false, name: "m", body: Some((vec![], items)) });
        go(cx, &it, m == 3, const_only);
    }));
    v.push(space("aliases", 0, move |ch, cx| {
        let bound = match ch.free(BOUNDS.len() + 1) {
            0 => None,
            i => Some(lx(BOUNDS[i - 1])),
        };
        let ty = match ch.free(TYPES.len() + 1) {
            0 => None,
            i => Some(lx(TYPES[i - 1])),
        };
        let w = *ch.all(wraps("type"));
        let it = bare(Kind::Alias { name: "X", bound, ty });
        go(cx, &wrap(it, w), w == 1, const_only);
    }));
    // contents are opaque: every short token string, up to the semicolon
    v.push(space("token strings", 0, move |ch, cx| {
        const E: &[&str] = &["a", "1", "<", ">", "=", "-", "::", "( a ; b )", "{ a ; b }", "[ a ; b ]", "⟦a⟧", "⟦a + b⟧", "⟦⟧", "'a", "\"s\"", ",", "where", "for", "fn", "self", "as", "!", "|", "#", ".", "const", "in", "_", ":", "&", "⟦< ;⟧", "?", "+"];
        let n = 1 + ch.free(3);
        let alpha: &[&str] = if n < 3 || th { E } else { &E[..24] };
        let mut d = vec![];
        for _ in 0..n {
            d.extend(lx(ch.all(alpha)));
        }
        // `==`, `=>` and the like are not taken apart
        let kind = match ch.free(7) {
            k @ 0..=2 => Kind::Konst { stat: k > 0, mutt: k == 2, name: "X", ty: lx("A<B>"), init: Some(d) },
            3 => Kind::Mac { name: "m", decl: None, delim: D::C, body: d, semi: false },
            4 => Kind::Mac { name: "m", decl: Some("n"), delim: D::P, body: d, semi: true },
            5 => Kind::Konst { stat: false, mutt: false, name: "_", ty: lx("A"), init: Some(vec![Tok::G(D::C, d)]) },
            _ => Kind::Use(d),
        };
        if matches!(&kind, Kind::Use(d) if d.iter().any(|x| matches!(x, Tok::P('<' | '>', _)))) {
            return; // no angle brackets in import trees
        }
        let it = bare(kind);
        let w = *ch.all(&wraps(match &it.kind { Kind::Konst { stat: false, .. } => "const", Kind::Konst { .. } => "static", Kind::Mac { .. } => "macro", _ => "use" })[..2]);
        go(cx, &wrap(it, w), n % 2 == 0, const_only);
    }));
    v.push(space("import trees", 0, move |ch, cx| {
        const E: &[&str] = &["a", "self", "super", "crate", "as", "{ a , b }", "{ self , b :: { self } }", "*", "_", "r#type", "Self", "{ }"];
        let n = 1 + ch.free(if th { 5 } else { 4 });
        let lead = ch.free(2) == 1;
        let mut d = if lead { lx("::") } else { vec![] };
        let alpha: &[&str] = if n < 4 || th { E } else { &E[..8] };
        for i in 0..n {
            let x = *ch.all(alpha);
            let before = i > 0 && x != "as" && d.last() != Some(&id("as"));
            if before {
                d.extend(lx("::"));
            }
            d.extend(lx(x));
        }
        let vis = lx(["", "pub", "pub(self)"][ch.free(3)]);
        let w = *ch.all(wraps("use"));
        go(cx, &wrap(It { attrs: vec![], vis, kind: Kind::Use(d) }, w), n % 2 == 0, const_only);
    }));
    v.push(space("uses, macros, crates", 0, move |ch, cx| {
        let vis = lx(ch.all(VISS));
        let attrs: Attrs = (0..ch.free(3)).map(|i| attr_of(["a", "b(c)"][i], false)).collect();
        let tight = ch.free(2) == 1;
        match ch.free(3) {
            0 => {
                let it = It { attrs, vis, kind: Kind::Use(lx(ch.all(USES))) };
                let w = *ch.all(wraps("use"));
                go(cx, &wrap(it, w), tight, const_only);
            }
            1 => {
                let name = *ch.all(&["m", "macro_rules", "r#try", "auto", "println", "vec"]);
                let decl = *ch.all(&[None, Some("n"), Some("r#fn"), Some("union")]);
                let delim = [D::C, D::P, D::B][ch.free(3)];
                let body = lx(ch.all(BODIES));
                let it = It { attrs, vis: vec![], kind: Kind::Mac { name, decl, delim, body, semi: delim != D::C } };
                let w = *ch.all(wraps("macro"));
                go(cx, &wrap(it, w), tight, const_only);
            }
            _ => {
                let name = *ch.all(&["a", "self", "r#type", "std", "union"]);
                let alias = *ch.all(&[None, Some("b"), Some("_"), Some("r#fn"), Some("_x"), Some("union")]);
                let it = It { attrs, vis, kind: Kind::ExtC { name, alias } };
                let w = *ch.all(wraps("crate"));
                go(cx, &wrap(it, w), tight, const_only);
            }
        }
    }));
    let b = bounds(th, [3, 2, 5, 3], [2, 2, 4, 2], [3, 3, 7, 5]);
    v.extend(grammar(&["const", "static", "type", "use", "macro", "crate"], b, const_only));
    v.push(type_space(const_only, 2));
    v.push(scaled_space(const_only));
    v.push(long(&[15, 16, 22], const_only));
    Prop {
        id: "C08",
        spaces: v,
        rule: "all types x initializers for const, static and static mut in every container; all pairs of initializers in consecutive declarations; all names; all bounds x aliased types; all import trees; all macro names, delimiters and bodies; all extern crate forms; reported parts must equal the declared ones",
    }
}

// ---------------------------------------------------------------- C09

pub fn attr_accessors(cx: &mut Ctx, t: &[Tok], a: &venial::Attribute) {
    let path = from_trees(&a.path);
    let idents: Vec<&Tok> = path.iter().filter(|t| matches!(t, Tok::I(_))).collect();
    let single = a.get_single_path_segment().map(|i| intern(&i.to_string()));
    if path.len() == 1 {
        if single.map(Tok::I).as_ref() != path.first() {
            cx.fail(t, format!("single path segment of `{}` given as {single:?}", show(&path)));
        }
    } else if idents.len() > 1 && single.is_some() {
        cx.fail(t, format!("path `{}` has several segments, but a single one is given: {single:?}", show(&path)));
    }
    let val = from_trees(a.get_value_tokens());
    let want = match &a.value {
        venial::AttributeValue::Empty => vec![],
        venial::AttributeValue::Group(_, v) => from_trees(v),
        venial::AttributeValue::Equals(_, v) => from_trees(v),
    };
    if !exact(&val, &want) || !exact(&from_trees(a.value.get_value_tokens()), &want) {
        cx.fail(t, format!("value tokens `{}` given as `{}`", show(&want), show(&val)));
    }
}
fn attrs_only(it: &It, t: &Toks, cx: &mut Ctx) {
    if let Some(i) = check_structure(cx, it, t, cls::ATTR) {
        for a in i.attributes() {
            attr_accessors(cx, t, a);
        }
    }
}
pub const POSITIONS: usize = 27;
/// An item whose part number `i` carries these attributes and this visibility.
pub fn decorated(i: usize, attrs: Attrs, vis: Vis, ty: Toks) -> Option<It> {
    let z = |k: Kind| It { attrs: vec![attr_of("z", false)], vis: vec![], kind: k };
    let f = |attrs: Attrs, vis: Vis| TF { attrs, vis, ty: ty.clone() };
    let n = |attrs: Attrs, vis: Vis| NF { attrs, vis, name: "x", ty: ty.clone() };
    let t0 = TF { attrs: vec![attr_of("z", false)], vis: lx("pub"), ty: lx("Z") };
    let n0 = NF { attrs: vec![attr_of("z", false)], vis: lx("pub"), name: "z", ty: lx("Z") };
    let dec = |k: Kind| It { attrs: attrs.clone(), vis: vis.clone(), kind: k };
    let en = |v: Variant| Kind::Enum { name: "E", gen: None, wh: None, vars: l(vec![var("Y", Flds::Unit, None), v, var("Z", Flds::Unit, None)], false) };
    Some(match i {
        0 => dec(Kind::Struct { name: "S", gen: None, wh: None, flds: Flds::Unit, semi: true }),
        1 => dec(en(var("A", Flds::Unit, None))),
        2 => dec(Kind::Union { name: "U", gen: None, wh: None, flds: l(vec![n0], false) }),
        3 => dec(Kind::Fn(fun("f", List::new()))),
        4 => dec(Kind::Konst { stat: false, mutt: false, name: "X", ty, init: Some(lx("1")) }),
        5 => dec(Kind::Konst { stat: true, mutt: true, name: "X", ty, init: Some(lx("1")) }),
        6 => dec(Kind::Alias { name: "X", bound: None, ty: Some(ty) }),
        7 => dec(Kind::Use(lx("a::b"))),
        8 if vis.is_empty() => dec(Kind::Mac { name: "m", decl: None, delim: D::P, body: vec![], semi: true }),
        9 if vis.is_empty() => dec(Kind::Impl { unsaf: true, gen: None, tr: None, ty: lx("A"), wh: None, inner: vec![], items: vec![] }),
        10 => dec(Kind::Trait { unsaf: true, name: "T", gen: None, bound: None, wh: None, inner: vec![], items: vec![] }),
        11 => dec(Kind::Mod { unsaf: false, name: "m", body: None }),
        12 => dec(Kind::ExtB { unsaf: true, abi: None, inner: vec![], items: vec![] }),
        13 => dec(Kind::ExtC { name: "a", alias: None }),
        14 => z(Kind::Struct { name: "S", gen: None, wh: None, flds: Flds::Tuple(l(vec![f(attrs, vis), t0], false)), semi: true }),
        15 => z(Kind::Struct { name: "S", gen: None, wh: None, flds: Flds::Tuple(l(vec![t0, f(attrs, vis)], true)), semi: true }),
        16 => z(Kind::Struct { name: "S", gen: None, wh: None, flds: Flds::Named(l(vec![n(attrs, vis), n0], false)), semi: false }),
        17 => z(Kind::Struct { name: "S", gen: None, wh: None, flds: Flds::Named(l(vec![n0, n(attrs, vis)], true)), semi: false }),
        18 => z(Kind::Union { name: "U", gen: None, wh: None, flds: l(vec![n0, n(attrs, vis)], false) }),
        19 => z(en(Variant { attrs, vis, name: "A", flds: Flds::Unit, disc: Some(lx("1")) })),
        20 => z(en(Variant { attrs, vis, name: "A", flds: Flds::Tuple(l(vec![t0], false)), disc: None })),
        21 => z(en(var("A", Flds::Tuple(l(vec![t0, f(attrs, vis)], false)), None))),
        22 => z(en(var("A", Flds::Named(l(vec![n(attrs, vis), n0], true)), None))),
        23 if vis.is_empty() => z(Kind::Fn(fun(
            "f",
            l(
                vec![
                    Param::Recv { attrs: attrs.clone(), amp: true, life: None, mutt: false },
                    Param::Typed { attrs: vec![], mutt: false, name: "y", ty: ty.clone() },
                    Param::Typed { attrs, mutt: true, name: "x", ty },
                ],
                false,
            ),
        ))),
        24 => wrap(dec(Kind::Fn(fun("f", List::new()))), 2),
        25 => wrap(dec(Kind::Alias { name: "X", bound: None, ty: Some(ty) }), 3),
        26 => wrap(dec(Kind::Konst { stat: true, mutt: false, name: "X", ty, init: None }), 4),
        _ => return None,
    })
}
pub fn c09(th: bool) -> Prop {
    let mut v = vec![];
    v.push(space("attribute paths", 0, move |ch, cx| {
        const SEG: &[&str] = &["a", "crate", "self", "super", "r#type", "union", "doc", "derive", "cfg", "_x", "Self", "as", "fn"];
        let mut path = if ch.free(2) == 1 { "::".to_string() } else { String::new() };
        let n = 1 + ch.free(if th { 4 } else { 3 });
        for k in 0..n {
            if k > 0 {
                path += "::";
            }
            path += if k < 3 { ch.all(SEG) } else { "z" };
        }
        let a = attr_of(&(path + ch.all(&["", "(b)", "[]", " { c, d = \"e\" }", " = 1", " = b::c(d) + e", " ="])), false);
        let pos = *ch.all(&[0usize, 1, 14, 16, 20]);
        if let Some(it) = decorated(pos, vec![attr_of("y", false), a], lx(["", "pub"][ch.free(2)]), lx("A")) {
            go(cx, &it, n % 2 == 0, attrs_only);
        }
    }));
    v.push(space("attributes x positions", 0, move |ch, cx| {
        let pos = ch.free(POSITIONS);
        let n = ch.free(3);
        let attrs: Attrs = (0..n).map(|_| attr_of(ch.all(ATTRS), false)).collect();
        let vis = lx(ch.all(&["", "pub(crate)"]));
        let m = ch.free(2);
        if let Some(it) = decorated(pos, attrs, vis, lx("(A, B)")) {
            go(cx, &it, m == 1, attrs_only);
        }
    }));
    v.push(space("invisible groups in attributes", 0, move |ch, cx| {
        let pos = ch.free(POSITIONS);
        let mut attrs = vec![attr_of(ch.all(ATTRS_NG), false)];
        match ch.free(3) {
            1 => attrs.insert(0, attr_of(ch.all(ATTRS), false)),
            2 => attrs.push(attr_of(ch.all(ATTRS), false)),
            _ => {}
        }
        if let Some(it) = decorated(pos, attrs, vec![], lx("(A, B)")) {
            go(cx, &it, false, attrs_only);
        }
    }));
    v.push(space("visibility x positions", 0, move |ch, cx| {
        let pos = ch.free(POSITIONS);
        let attrs: Attrs = (0..ch.free(2)).map(|_| attr_of("a", false)).collect();
        let vis = lx(ch.all(VISS));
        let ty = lx(ch.all(TYPES));
        if vis.first() == Some(&id("crate")) && matches!(ty.first(), Some(Tok::P(':', _))) {
            return; // `crate ::a::B` is a path
        }
        let m = ch.free(2);
        if let Some(it) = decorated(pos, attrs, vis, ty) {
            go(cx, &it, m == 1, attrs_only);
        }
    }));
    v.push(space("scaled attributes and visibilities", 0, move |ch, cx| {
        let pos = ch.free(POSITIONS);
        let n = *ch.all(SIZES);
        let rep = |s: &str| s.repeat(n);
        let (a, vis) = match ch.free(7) {
            0 => (format!("a{}", rep("::b")), String::new()),
            1 => (format!("::a{} = c", rep("::b")), String::new()),
            2 => (format!("a{}(c)", rep("::b")), String::new()),
            3 => (format!("a({})", rep("b = \"c\", d, ")), String::new()),
            4 => (format!("a = b{}", rep(" + c(d)")), String::new()),
            5 => (format!("a{}b{}", rep("("), rep(")")), String::new()),
            _ => ("a".into(), format!("pub(in a{})", rep("::b"))),
        };
        if a == "ab" {
            return;
        }
        if let Some(it) = decorated(pos, vec![attr_of(&a, false), attr_of("z", false)], lx(&vis), lx("(A, B)")) {
            go(cx, &it, n % 2 == 1, attrs_only);
        }
    }));
    v.push(space("inner attributes", 0, move |ch, cx| {
        let cont = ch.free(4);
        let n = ch.free(3);
        let inner: Attrs = (0..n).map(|_| attr_of(ch.all(ATTRS), true)).collect();
        let outer: Attrs = (0..ch.free(3)).map(|i| attr_of(["a", "b = \"c\""][i], false)).collect();
        let items = match ch.free(2) {
            0 if outer.is_empty() => vec![],
            _ => vec![It { attrs: outer, vis: vec![], kind: Kind::Fn(Func { body: None, ..fun("f", List::new()) }) }],
        };
        let it = bare(match cont {
            0 => Kind::Mod { unsaf: false, name: "m", body: Some((inner, items)) },
            1 => Kind::Impl { unsaf: false, gen: None, tr: None, ty: lx("A"), wh: None, inner, items },
            2 => Kind::Trait { unsaf: false, name: "T", gen: None, bound: None, wh: None, inner, items },
            _ => Kind::ExtB { unsaf: false, abi: None, inner, items },
        });
        go(cx, &it, n == 1, attrs_only);
    }));
    let b = bounds(th, [3, 1, 4, 2], [2, 1, 4, 2], [3, 2, 5, 3]);
    v.extend(grammar(KINDS, b, attrs_only));
    v.push(long(&[7, 17, 18, 19, 20, 0, 1, 2, 4], attrs_only));
    v.extend(special(ALL_SPECIAL, 1, 1, attrs_only));
    Prop {
        id: "C09",
        spaces: v,
        rule: "all pairs of attribute forms x all positions; all short attribute paths x values; all visibility forms x all types x all positions; inner attributes of every container; the declaration grammar; reported attributes (owner, order, path, value) and visibility must equal the declared ones, and the attribute accessors must agree",
    }
}

// ---------------------------------------------------------------- C11

const COMPLEX: &[&str] = &["1 + 2", "- 1", "a :: b", "f ( )", "1 as u8", "! x", "A ( b )", "m ! ( )", "[ 1 ] [ 0 ]", "x . y", "{ 1 } + 2", "a < b", "& x"];
const WIDE: &[&str] = &[
    "-", "+", "!", "&", "*", "@", "%", "^", "|", "<", ">", "=", ".", ":", "?", "#", "$", // 17 marks, then values
    "1", "1i8", "1u8", "1i16", "1u16", "1i32", "1u32", "1i64", "1u64", "1i128", "1u128", "1isize", "1usize", "1f32", "1.0f64", "1.0", "0x1F", "0b1", "0o7",
    "1_000", "0", "\"s\"", "b\"s\"", "c\"s\"", "r\"s\"", "'c'", "b'c'", "a", "A", "true", "false", "self", "Self", "crate", "super", "u8", "const", "unsafe",
    "as", "if", "fn", "in", "mut", "ref", "dyn", "move", "async", "await", "return", "_", "r#fn", "()", "(1)", "(a, b)", "[]", "[1]", "{}", "{ 1 }", "{ a; b }",
];
pub fn c11(th: bool) -> Prop {
    let mut v = vec![];
    v.push(space("discriminant assignments", 0, move |ch, cx| {
        let n = 1 + ch.free(3);
        let mut vars = vec![];
        let mut complex: Vec<(usize, Toks)> = vec![];
        for i in 0..n {
            let j = ch.free(if n == 3 && !th { 9 } else { 1 + DISCS.len() + COMPLEX.len() });
            let d = if j == 0 {
                None
            } else if n == 3 && !th {
                Some(lx(["1", "(a + b)", "X", "{ 1 }", "1 + 2", "- 1", "a :: b", "f ( )"][j - 1]))
            } else if j <= DISCS.len() {
                Some(lx(DISCS[j - 1]))
            } else {
                Some(lx(COMPLEX[j - 1 - DISCS.len()]))
            };
            if let Some(d) = &d {
                if d.len() > 1 {
                    complex.push((i, d.clone()));
                }
            }
            let f = ch.free(if n == 3 { 3 } else { 4 });
            let flds = [
                Flds::Unit,
                Flds::Tuple(l(vec![tfd(lx("A<B, C>"))], false)),
                Flds::Named(l(vec![nfd("x", lx("A"))], true)),
                Flds::Tuple(List::new()),
            ][f]
                .clone();
            let attrs = if i == 1 { vec![attr_of("a = 1 + 2", false)] } else { vec![] };
            vars.push(Variant { attrs, vis: vec![], name: ["A", "r#fn", "C"][i], flds, disc: d });
        }
        let trail = ch.free(2) == 1;
        let it = bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vars, trail) });
        let mut t = it.toks();
        if ch.free(2) == 1 {
            tighten(&mut t);
        }
        check_disc(cx, &it, &t, &complex);
    }));
    // every expression of two or three tokens
    v.push(space("token strings", 0, move |ch, cx| {
        const T: &[&str] = &["a", "1", "-", "+", "!", "&", ".", "::", "<", ">", "=", "( )", "[ 1 ]", "{ }", "unsafe", "as", "\"s\"", "?", "| |", "#", "r#fn", "* *", "'a"];
        let n = 2 + ch.free(2);
        let mut d = vec![];
        for _ in 0..n {
            d.extend(lx(ch.all(T)));
        }
        // a group first, or a literal, makes a value of its own only if nothing follows
        let shape = ch.free(if n == 2 || th { 5 } else { 2 });
        let e = [Flds::Unit, Flds::Tuple(l(vec![tfd(lx("A"))], false)), Flds::Unit, Flds::Named(l(vec![nfd("x", lx("A"))], false)), Flds::Unit][shape].clone();
        let v = var("V", e, Some(d.clone()));
        let (vars, at) = match shape {
            0 | 1 => (vec![v], 0),
            2 => (vec![v, var("W", Flds::Unit, None)], 0),
            3 => (vec![var("U", Flds::Unit, Some(lx("1"))), v], 1),
            _ => (vec![var("U", Flds::Tuple(l(vec![tfd(lx("A"))], true)), None), v, var("W", Flds::Unit, Some(lx("2")))], 1),
        };
        let it = bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vars, shape % 2 == 0) });
        let t = it.toks();
        check_disc(cx, &it, &t, &[(at, d)]);
    }));
    // one or two tokens of a wide alphabet
    v.push(space("token pairs", 0, move |ch, cx| {
        let n = 1 + ch.free(2);
        let mut d = lx(ch.all(if n == 1 { &WIDE[17..] } else { WIDE }));
        if n == 2 {
            d.extend(lx(ch.all(WIDE)));
        }
        let v = var("V", [Flds::Unit, Flds::Tuple(l(vec![tfd(lx("A"))], false))][ch.free(2)].clone(), Some(d.clone()));
        let vars = match ch.free(3) {
            0 => vec![v],
            1 => vec![v, var("W", Flds::Unit, None)],
            _ => vec![var("V", Flds::Unit, Some(lx("1"))), v, var("W", Flds::Unit, Some(lx("2")))],
        };
        let at = if vars.len() == 3 { 1 } else { 0 };
        let it = bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vars, ch.free(2) == 1) });
        let mut t = it.toks();
        if ch.free(2) == 1 {
            tighten(&mut t);
        }
        check_disc(cx, &it, &t, &if d.len() > 1 { vec![(at, d)] } else { vec![] });
    }));
    // values that came through macro variables
    v.push(space("invisible groups", 0, move |ch, cx| {
        const NG: &[&str] = &["⟦⟧", "⟦1⟧", "⟦a⟧", "⟦-1⟧", "⟦a + b⟧", "⟦a::b⟧", "⟦⟦1⟧⟧", "⟦⟦-1⟧⟧", "⟦(1)⟧", "⟦{ 1 }⟧", "⟦1, 2⟧", "⟦\"s\"⟧", "⟦,⟧", "⟦= 1⟧"];
        let mut d = lx(ch.all(NG));
        match ch.free(3) {
            0 => {}
            1 => d.extend(lx(ch.all(WIDE))),
            _ => d.splice(0..0, lx(ch.all(WIDE))).for_each(drop),
        }
        let complex = d.len() > 1;
        let v = var("V", [Flds::Unit, Flds::Tuple(l(vec![tfd(lx("A"))], false)), Flds::Named(l(vec![nfd("x", lx("A"))], false))][ch.free(3)].clone(), Some(d.clone()));
        let vars = match ch.free(4) {
            0 => vec![v],
            1 => vec![v, var("W", Flds::Unit, None)],
            2 => vec![v, var("W", Flds::Unit, Some(lx("⟦2⟧")))],
            _ => vec![var("V", Flds::Unit, Some(lx("1"))), v, var("W", Flds::Unit, Some(lx("2")))],
        };
        let it = bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vars, ch.free(2) == 1) });
        let t = it.toks();
        cx.input(&t);
        if complex {
            cx.impl_runs += 1;
            match parse_toks(&t) {
                Out::Error(_) => {}
                o => cx.fail(&t, format!("enum with a complex discriminant: expected an error value, got {}", o.name())),
            }
        } else {
            check_structure(cx, &it, &t, cls::DISC);
        }
    }));
    // position of the offending variant in a long enum; header decorations
    v.push(space("position", 0, move |ch, cx| {
        let n = *ch.all(&[1usize, 2, 3, 5, 8, 17, 40]);
        let at = ch.free(n + 1);
        let c = lx(ch.all(COMPLEX));
        let m = ch.free(4);
        let vars: Vec<Variant> = (0..n)
            .map(|i| {
                let d = if i == at {
                    Some(c.clone())
                } else if i % 2 == 0 {
                    Some(vec![Tok::L(intern(&i.to_string()))])
                } else {
                    None
                };
                var(intern(&format!("V{i}")), Flds::Unit, d)
            })
            .collect();
        let complex = if at < n { vec![(at, c)] } else { vec![] };
        let mut it = bare(Kind::Enum {
            name: "E",
            gen: if m & 1 == 1 { Some(l(vec![gty("T", Some(lx("A<B>")))], false)) } else { None },
            wh: if m & 2 == 2 { Some(l(vec![Pred { left: lx("T::A"), bound: lx("B") }], false)) } else { None },
            vars: l(vars, m > 1),
        });
        if m == 3 {
            it.attrs = vec![attr_of("repr(u8)", false)];
            it.vis = lx("pub");
        }
        let t = it.toks();
        check_disc(cx, &it, &t, &complex);
    }));
    let b = bounds(th, [3, 2, 5, 3], [2, 1, 4, 2], [4, 2, 6, 4]);
    v.extend(grammar(&["enum"], b, |it, t, cx| {
        check_structure(cx, it, t, cls::DISC);
    }));
    v.push(long(&[2], |it, t, cx| {
        check_structure(cx, it, t, cls::DISC);
    }));
    Prop {
        id: "C11",
        spaces: v,
        rule: "all assignments of no, single-token or complex discriminants to up to 3 variants x field shapes; every position of a complex discriminant in enums up to 40 variants; all pairs of tokens of a wide alphabet; simple ones must be recorded with their variant, complex ones must give an error value whose span lies on such a discriminant",
    }
}
fn check_disc(cx: &mut Ctx, it: &It, t: &[Tok], complex: &[(usize, Toks)]) {
    cx.input(t);
    if complex.is_empty() {
        check_structure(cx, it, t, cls::DISC | cls::FIELD);
        return;
    }
    // parse from text, so that tokens have locations
    cx.impl_runs += 1;
    let text = to_stream(t).to_string();
    let ts: proc_macro2::TokenStream = text.parse().unwrap();
    let spans = disc_spans(&ts);
    match parse(ts) {
        Out::Error(e) => {
            let r = e.span().byte_range();
            let ok = spans.iter().any(|(s, multi)| *multi && r.start >= s.start && r.end <= s.end && r.end > r.start);
            if !ok {
                cx.fail(t, format!("error span {r:?} of `{text}` is not on a complex discriminant ({spans:?})"));
            }
            if e.to_string().is_empty() || e.to_compile_error().is_empty() {
                cx.fail(t, "error has no message");
            }
            cx.outcome(r.start as u64);
        }
        o => cx.fail(t, format!("enum with a complex discriminant: expected an error value, got {}", o.name())),
    }
    proc_macro2::extra::invalidate_current_thread_spans();
}
/// Byte ranges of the discriminants of an enum written with a brace group last.
fn disc_spans(ts: &proc_macro2::TokenStream) -> Vec<(std::ops::Range<usize>, bool)> {
    use proc_macro2::TokenTree as T;
    let body = match ts.clone().into_iter().last() {
        Some(T::Group(g)) => g.stream(),
        _ => return vec![],
    };
    let mut out: Vec<(std::ops::Range<usize>, bool)> = vec![];
    let mut cur: Option<Vec<std::ops::Range<usize>>> = None;
    let mut end = |c: &mut Option<Vec<std::ops::Range<usize>>>| {
        if let Some(v) = c.take() {
            if !v.is_empty() {
                out.push((v[0].start..v.last().unwrap().end, v.len() > 1));
            }
        }
    };
    for t in body {
        match &t {
            T::Punct(q) if q.as_char() == ',' => end(&mut cur),
            T::Punct(q) if q.as_char() == '=' && cur.is_none() => cur = Some(vec![]),
            t => {
                if let Some(v) = &mut cur {
                    v.push(t.span().byte_range())
                }
            }
        }
    }
    end(&mut cur);
    out
}

// ---------------------------------------------------------------- C21

/// Items in which a type (or bound, for `BOUND_POS`) stands in position `i`.
pub const TYPE_POS: usize = 29;
pub fn type_at(i: usize, ty: Toks) -> It {
    let f = |params, ret, semi, wh| {
        bare(Kind::Fn(Func { ret, wh, body: if semi { None } else { Some(lx("x")) }, ..fun("f", params) }))
    };
    let w = || Some(l(vec![Pred { left: lx("Z"), bound: lx("Y") }], false));
    match i {
        0 => st("S", None, None, Flds::Tuple(l(vec![tfd(ty)], false))),
        1 => st("S", None, w(), Flds::Tuple(l(vec![tfd(ty), tfd(lx("Z"))], false))),
        2 => st("S", None, None, Flds::Tuple(l(vec![tfd(lx("Z")), TF { attrs: vec![], vis: lx("pub"), ty }], true))),
        3 => st("S", None, None, Flds::Named(l(vec![nfd("x", ty)], false))),
        4 => st("S", None, w(), Flds::Named(l(vec![nfd("x", ty), nfd("y", lx("Z"))], true))),
        5 => bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vec![var("A", Flds::Tuple(l(vec![tfd(ty)], true)), Some(lx("1"))), var("B", Flds::Unit, None)], false) }),
        6 => bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vec![var("A", Flds::Named(l(vec![nfd("x", ty), nfd("y", lx("Z"))], false)), None)], true) }),
        7 => bare(Kind::Union { name: "U", gen: None, wh: None, flds: l(vec![nfd("x", ty), nfd("y", lx("Z"))], false) }),
        8 => f(l(vec![par("x", ty)], false), None, false, None),
        9 => f(l(vec![par("x", ty), par("y", lx("Z"))], true), Some(lx("Z")), true, None),
        10 => f(l(vec![Param::Recv { attrs: vec![], amp: true, life: None, mutt: true }, par("x", ty)], true), None, false, w()),
        11 => f(List::new(), Some(ty), false, None),
        12 => f(List::new(), Some(ty), true, None),
        13 => f(l(vec![par("x", lx("Z"))], false), Some(ty), false, w()),
        14 => f(List::new(), Some(ty), true, w()),
        15 => bare(Kind::Konst { stat: false, mutt: false, name: "X", ty, init: Some(lx("a = b")) }),
        16 => bare(Kind::Konst { stat: true, mutt: true, name: "X", ty, init: None }),
        17 => bare(Kind::Alias { name: "X", bound: None, ty: Some(ty) }),
        18 => bare(Kind::Alias { name: "X", bound: Some(lx("Z<Y = W>")), ty: Some(ty) }),
        19 => bare(Kind::Impl { unsaf: false, gen: Some(List::new()), tr: None, ty, wh: None, inner: vec![], items: vec![] }),
        20 => bare(Kind::Impl { unsaf: false, gen: None, tr: Some(lx("Z<Y>")), ty, wh: w(), inner: vec![], items: vec![] }),
        21 => {
            let mut t = lx("Z<");
            t.extend(ty);
            t.push(p('>'));
            bare(Kind::Impl { unsaf: false, gen: None, tr: Some(t), ty: lx("Y"), wh: None, inner: vec![], items: vec![] })
        }
        22 => st("S", None, Some(l(vec![Pred { left: ty, bound: lx("Z") }], false)), Flds::Named(List::new())),
        23 => st("S", None, Some(l(vec![Pred { left: lx("Y"), bound: lx("Z") }, Pred { left: ty, bound: lx("'a") }], true)), Flds::Unit),
        24 => {
            // default of a generic parameter
            let mut b = lx("Z =");
            b.extend(ty);
            st("S", Some(l(vec![gty("T", Some(b)), gty("U", None)], false)), None, Flds::Unit)
        }
        // left sides of predicates, after a binder
        25 => {
            let mut left = lx("for<'a>");
            left.extend(ty);
            st("S", None, Some(l(vec![Pred { left, bound: lx("Z<Y>") }], false)), Flds::Named(List::new()))
        }
        26 => {
            let mut left = lx("for<'a, 'b: 'a>");
            left.extend(ty);
            f(List::new(), None, true, Some(l(vec![Pred { left, bound: lx("Z") }, Pred { left: lx("Y::X"), bound: lx("W") }], true)))
        }
        27 => bare(Kind::Impl {
            unsaf: false,
            gen: None,
            tr: Some(lx("Z")),
            ty: lx("Y"),
            wh: Some(l(vec![Pred { left: ty, bound: lx("for<'a> Z<'a>") }], false)),
            inner: vec![],
            items: vec![],
        }),
        _ => {
            // second of three members, in a module
            wrap(bare(Kind::Konst { stat: false, mutt: false, name: "X", ty, init: Some(lx("a < b")) }), 1)
        }
    }
}
pub const BOUND_POS: usize = 15;
pub fn bound_at(i: usize, b: Toks) -> It {
    let g = |b: Toks| Some(l(vec![gty("T", Some(b)), gty("U", None)], false));
    let g1 = |b: Toks| Some(l(vec![gty("Z", None), gty("T", Some(b))], true));
    let w = |b: Toks, trail| Some(l(vec![Pred { left: lx("T::V"), bound: b }], trail));
    match i {
        0 => carrier(0, g(b), None),
        1 => carrier(1, g1(b), None),
        2 => carrier(3, Some(l(vec![gty("T", Some(b))], false)), None),
        3 => carrier(5, g(b), None),
        4 => carrier(8, g(b), None),
        5 => carrier(0, None, w(b, false)),
        6 => carrier(1, None, w(b, true)),
        7 => carrier(2, None, w(b, false)),
        8 => carrier(5, None, Some(l(vec![Pred { left: lx("T"), bound: b }, Pred { left: lx("U"), bound: lx("V") }], false))),
        9 => carrier(6, None, w(b, false)),
        10 => carrier(8, None, w(b, false)),
        11 => bare(Kind::Trait { unsaf: false, name: "Tr", gen: None, bound: Some(b), wh: None, inner: vec![], items: vec![] }),
        12 => bare(Kind::Trait { unsaf: false, name: "Tr", gen: None, bound: Some(b), wh: w(lx("Z"), false), inner: vec![], items: vec![] }),
        13 => bare(Kind::Alias { name: "X", bound: Some(b), ty: Some(lx("Z<Y = W>")) }),
        _ => bare(Kind::Alias { name: "X", bound: Some(b), ty: None }),
    }
}

/// All type expressions of a small grammar up to a nesting depth.
pub fn tree(ch: &mut Ch, depth: usize) -> Toks {
    tree_s(ch, depth, 1)
}
/// The same; second subexpressions only up to depth `side`.
pub fn tree_s(ch: &mut Ch, depth: usize, side: usize) -> Toks {
    fn put(parts: &[&str], subs: Vec<Toks>) -> Toks {
        let s = parts.join(" HOLE ");
        let mut subs = subs.into_iter();
        fn fill(t: Toks, subs: &mut dyn Iterator<Item = Toks>) -> Toks {
            let mut o = vec![];
            for x in t {
                match x {
                    Tok::I("HOLE") => o.extend(subs.next().unwrap()),
                    Tok::G(d, b) => o.push(Tok::G(d, fill(b, subs))),
                    x => o.push(x),
                }
            }
            o
        }
        fill(lx(&s), &mut subs)
    }
    if depth == 0 {
        return lx("A");
    }
    let (deep, flat) = (depth - 1, side.min(depth - 1));
    match ch.free(18) {
        0 => lx("A"),
        1 => put(&["A<", ">"], vec![tree_s(ch, deep, side)]),
        2 => put(&["A<", ",", ">"], vec![tree_s(ch, deep, side), tree_s(ch, flat, side)]),
        3 => put(&["(", ",", ")"], vec![tree_s(ch, deep, side), tree_s(ch, flat, side)]),
        4 => put(&["[", "; N]"], vec![tree_s(ch, deep, side)]),
        5 => put(&["&'a", ""], vec![tree_s(ch, deep, side)]),
        6 => put(&["fn(", ") ->", ""], vec![tree_s(ch, flat, side), tree_s(ch, deep, side)]),
        7 => put(&["dyn Fn(", ") ->", "+ 'a"], vec![tree_s(ch, flat, side), tree_s(ch, deep, side)]),
        8 => put(&["<", "as B<", ">>::C"], vec![tree_s(ch, deep, side), tree_s(ch, flat, side)]),
        9 => put(&["A<B =", ", C = D>"], vec![tree_s(ch, deep, side)]),
        10 => put(&["A<{ x; y },", ">"], vec![tree_s(ch, deep, side)]),
        11 => put(&["a::B::<", ">::C"], vec![tree_s(ch, deep, side)]),
        12 => put(&["impl for<'a> Fn(&'a", ") ->", ""], vec![tree_s(ch, deep, side), tree_s(ch, flat, side)]),
        13 => put(&["for<'a> fn(&'a", ")"], vec![tree_s(ch, deep, side)]),
        14 => put(&["*const", ""], vec![tree_s(ch, deep, side)]),
        15 => put(&["dyn for<'a> A<'a,", "> + Send"], vec![tree_s(ch, deep, side)]),
        16 => put(&["A<'a,", ", B: C>"], vec![tree_s(ch, deep, side)]),
        _ => put(&["<", ">::C<D>"], vec![tree_s(ch, deep, side)]),
    }
}

fn types_only(it: &It, t: &Toks, cx: &mut Ctx) {
    check_structure(cx, it, t, cls::TYPE);
}
pub fn type_space(check: ItemCheck, trees: usize) -> Space {
    space("types and bounds in all positions", 0, move |ch, cx| {
        let tight = ch.free(2) == 1;
        match ch.free(3) {
            0 => {
                let ty = lx(ch.all(TYPES));
                let i = ch.free(TYPE_POS);
                go(cx, &type_at(i, ty), tight, check);
            }
            1 => {
                let b = lx(ch.all(BOUNDS));
                let i = ch.free(BOUND_POS);
                go(cx, &bound_at(i, b), tight, check);
            }
            _ => {
                let ty = tree(ch, trees);
                let i = ch.free(TYPE_POS);
                go(cx, &type_at(i, ty), tight, check);
            }
        }
    })
}
pub fn c21(th: bool) -> Prop {
    let mut v = vec![];
    v.push(type_space(types_only, 2));
    v.push(space("deep trees in all positions", 0, move |ch, cx| {
        let i = ch.free(TYPE_POS);
        let ty = tree_s(ch, 3, if th { 1 } else { 0 });
        go(cx, &type_at(i, ty), false, types_only);
    }));
    v.push(scaled_space(types_only));
    v.push(space("import trees", 0, move |ch, cx| {
        let a = lx(ch.all(USES));
        let w = ch.free(2);
        let it = It { attrs: vec![], vis: lx(["", "pub"][ch.free(2)]), kind: Kind::Use(a) };
        go(cx, &wrap(it, w), ch.free(2) == 1, types_only);
    }));
    v.push(space("bound trees", 0, move |ch, cx| {
        let ty = tree(ch, if th { 2 } else { 1 });
        let mut b = match ch.free(4) {
            0 => lx("A +"),
            1 => lx("Fn(A) ->"),
            2 => lx("for<'a> Fn() ->"),
            _ => vec![],
        };
        let k = ch.free(2);
        if k == 0 {
            b.extend(lx("B<"));
            b.extend(ty);
            b.push(p('>'));
        } else {
            b.extend(lx("B< C ="));
            b.extend(ty);
            b.extend(lx(", D > + 'a"));
        }
        let i = ch.free(BOUND_POS);
        go(cx, &bound_at(i, b), ch.free(2) == 1, types_only);
    }));
    v.push(space("left sides and headers", 0, move |ch, cx| {
        let tight = ch.free(2) == 1;
        let it = match ch.free(3) {
            0 => {
                let c = ch.free(CARRIERS);
                carrier(c, None, Some(l(vec![Pred { left: lx(ch.all(LEFTS)), bound: lx(ch.all(BOUNDS)) }], ch.free(2) == 1)))
            }
            1 => bare(Kind::Impl {
                unsaf: false,
                gen: None,
                tr: Some(lx(ch.all(TRAITS))),
                ty: lx(ch.all(TYPES)),
                wh: None,
                inner: vec![],
                items: vec![],
            }),
            _ => bare(Kind::Impl {
                unsaf: false,
                gen: Some(l(vec![gty("T", None)], false)),
                tr: None,
                ty: lx(ch.all(TYPES)),
                wh: if ch.free(2) == 1 { Some(l(vec![Pred { left: lx("T"), bound: lx("B") }], false)) } else { None },
                inner: vec![],
                items: vec![],
            }),
        };
        go(cx, &it, tight, types_only);
    }));
    // types as generic arguments, read back through the path interpretation
    v.push(space("generic arguments", 0, move |ch, cx| {
        let (a, b) = (lx(ch.all(TYPES)), lx(ch.all(TYPES)));
        let m = ch.free(4);
        let mut t = lx("X<");
        if m & 1 == 1 {
            t.extend(lx("K ="));
        }
        t.extend(a.iter().cloned());
        t.push(p(','));
        t.extend(b.iter().cloned());
        if m & 2 == 2 {
            t.push(p(','));
        }
        t.push(p('>'));
        cx.input(&t);
        cx.impl_runs += 1;
        let te = venial::TypeExpr { tokens: to_trees(&t) };
        match guard(|| te.as_path()) {
            Ok(Some(path)) => {
                let args = path.segments.first().and_then(|s| s.generic_args.as_ref());
                let got: Vec<(bool, Toks)> = args
                    .map(|a| {
                        a.args
                            .items()
                            .map(|g| match g {
                                venial::GenericArg::Lifetime { lifetime } => (false, vec![Tok::P('\'', true), Tok::I(intern(&lifetime.name.to_string()))]),
                                venial::GenericArg::Binding { ty, .. } => (true, crate::obs::ty(ty)),
                                venial::GenericArg::TypeOrConst { expr } => (false, crate::obs::ty(expr)),
                            })
                            .collect()
                    })
                    .unwrap_or_default();
                let want = vec![(m & 1 == 1, a), (false, b)];
                if got != want {
                    cx.fail(&t, format!("arguments reported: {}", got.iter().map(|g| show(&g.1)).collect::<Vec<_>>().join(" | ")));
                }
            }
            Ok(None) => cx.fail(&t, "path not recognised"),
            Err(m) => cx.fail(&t, format!("panic: {m}")),
        }
    }));
    v.push(long(&[13, 21, 16], types_only));
    let b = bounds(th, [3, 1, 4, 2], [2, 1, 4, 2], [3, 2, 5, 3]);
    v.extend(grammar(KINDS, b, types_only));
    Prop {
        id: "C21",
        spaces: v,
        rule: "every type of the alphabet and every type tree of an 18-production grammar up to the depth bound in 29 positions, every bound in 15 positions, every left side, header and import tree, every pair of generic arguments, both spacings; the captured tokens must be exactly the declared ones",
    }
}
