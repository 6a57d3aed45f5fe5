//! C13, C14, C15, C17, C18, C20: building, editing, accessors, errors.
use super::parse_props::*;
use crate::common::*;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::obs;
use crate::tok::*;
use crate::Prop;
use proc_macro2::{Ident, Punct, Spacing, Span, TokenStream, TokenTree};
use quote::ToTokens;
use venial as v;

// ---------------------------------------------------------------- C13

pub const DECLS: usize = 5;
/// A struct (three shapes), enum or union.
fn decl(i: usize, gen: Gen, wh: Wh) -> It {
    let mut it = carrier(i, gen, wh);
    it.attrs = vec![attr_of("a(b)", false)];
    it.vis = lx("pub(crate)");
    it
}
pub fn start_gens() -> Vec<Gen> {
    let f = few_params();
    vec![
        None,
        Some(List::new()),
        Some(l(vec![f[2].clone()], false)),
        Some(l(vec![f[2].clone()], true)),
        Some(l(vec![f[0].clone()], false)),
        Some(l(vec![f[1].clone()], true)),
        Some(l(vec![f[7].clone()], false)),
        Some(l(vec![f[0].clone(), f[3].clone()], false)),
        Some(l(vec![f[4].clone(), f[8].clone()], true)),
        Some(l(vec![f[0].clone(), f[1].clone(), f[6].clone(), f[5].clone(), f[7].clone()], false)),
        Some(l(vec![f[2].clone(), f[3].clone(), gty("T", None)], true)),
    ]
}
pub fn start_whs() -> Vec<Wh> {
    let q = |a: &str, b: &str| Pred { left: lx(a), bound: lx(b) };
    vec![
        None,
        Some(List::new()),
        Some(l(vec![q("T", "A")], false)),
        Some(l(vec![q("T::V", "for<'a> Fn(A) -> B<C, D>")], true)),
        Some(l(vec![q("'a", "'b"), q("Vec<T>", "")], false)),
        Some(l(vec![q("T", "A"), q("T", "A"), q("<T as A<B, C>>::D", "E<F = G>")], true)),
        Some(l(vec![q("T", ""), q("W", "A"), q("U", ""), q("X0", "")], false)),
    ]
}
pub enum Op {
    Param(GP),
    Pred(Pred),
}
fn ops(step: usize) -> Vec<Op> {
    let n = |s: &str| intern(&format!("{s}{step}"));
    vec![
        Op::Param(GP { kind: GK::Life, name: n("l"), bound: None }),
        Op::Param(GP { kind: GK::Ty, name: n("X"), bound: None }),
        Op::Param(GP { kind: GK::Const, name: n("C"), bound: Some(lx("usize")) }),
        Op::Pred(Pred { left: lx(&format!("T{step}::A")), bound: lx("B") }),
        Op::Param(GP { kind: GK::Ty, name: n("Y"), bound: Some(lx("A<B, C> + 'a")) }),
        Op::Pred(Pred { left: lx(&format!("'l{step}")), bound: lx("'m") }),
        Op::Param(GP { kind: GK::Life, name: n("k"), bound: Some(lx("'b + 'c")) }),
        Op::Pred(Pred { left: lx("for<'a> &'a T"), bound: lx("Fn(&'a A) -> B<C> + 'a") }),
        Op::Pred(Pred { left: lx("Vec::<T>"), bound: lx("") }),
        Op::Param(GP { kind: GK::Ty, name: n("Z"), bound: Some(lx("")) }),
    ]
}
pub fn make_param(g: &GP) -> v::GenericParam {
    let b = || to_trees(g.bound.as_ref().unwrap());
    match (g.kind, g.bound.is_some()) {
        (GK::Life, false) => v::GenericParam::lifetime(g.name),
        (GK::Life, true) => v::GenericParam::bounded_lifetime(g.name, b()),
        (GK::Ty, false) => v::GenericParam::ty(g.name),
        (GK::Ty, true) => v::GenericParam::bounded_ty(g.name, b()),
        (GK::Const, _) => v::GenericParam::const_param(g.name, b()),
    }
}
pub fn make_pred(q: &Pred) -> v::WhereClausePredicate {
    let mut t = q.left.clone();
    t.push(p(':'));
    t.extend(q.bound.iter().cloned());
    v::WhereClausePredicate::parse(to_stream(&t))
}
pub fn add_param(gen: &mut Gen, g: &GP) {
    let l = gen.get_or_insert_with(List::new);
    if g.kind == GK::Life {
        l.items.insert(0, g.clone());
    } else {
        l.items.push(g.clone());
    }
}
pub fn add_pred(wh: &mut Wh, q: &Pred) {
    wh.get_or_insert_with(List::new).items.push(q.clone());
}
fn parts(it: &mut It) -> (&mut Gen, &mut Wh) {
    match &mut it.kind {
        Kind::Struct { gen, wh, .. } | Kind::Enum { gen, wh, .. } | Kind::Union { gen, wh, .. } => (gen, wh),
        _ => panic!(),
    }
}
/// The lists may or may not end with a comma; take that from the result.
fn same_trail(want: &mut It, got: &It) {
    let mut got = got.clone();
    let (g, w) = parts(&mut got);
    let (g, w) = (g.clone(), w.clone());
    let (a, b) = parts(want);
    if let (Some(a), Some(g)) = (a, g) {
        a.trail = g.trail && !a.items.is_empty();
    }
    if let (Some(b), Some(w)) = (b, w) {
        b.trail = w.trail && !b.items.is_empty();
    }
}
fn build(i: v::Item, op: &Op) -> v::Item {
    match (i, op) {
        (v::Item::Struct(x), Op::Param(g)) => v::Item::Struct(x.with_param(make_param(g))),
        (v::Item::Enum(x), Op::Param(g)) => v::Item::Enum(x.with_param(make_param(g))),
        (v::Item::Union(x), Op::Param(g)) => v::Item::Union(x.with_param(make_param(g))),
        (v::Item::Struct(x), Op::Pred(q)) => v::Item::Struct(x.with_where_predicate(make_pred(q))),
        (v::Item::Enum(x), Op::Pred(q)) => v::Item::Enum(x.with_where_predicate(make_pred(q))),
        (v::Item::Union(x), Op::Pred(q)) => v::Item::Union(x.with_where_predicate(make_pred(q))),
        _ => panic!("not a type declaration"),
    }
}
fn derive(i: &v::Item, tr: &Toks) -> v::WhereClause {
    match i {
        v::Item::Struct(x) => x.create_derive_where_clause(to_stream(tr)),
        v::Item::Enum(x) => x.create_derive_where_clause(to_stream(tr)),
        v::Item::Union(x) => x.create_derive_where_clause(to_stream(tr)),
        _ => panic!("not a type declaration"),
    }
}
fn show_pred(q: &Pred) -> String {
    format!("{}: {}", shown(&q.left), shown(&q.bound))
}
fn check_derive(cx: &mut Ctx, t: &Toks, it: &It, i: &v::Item, tr: &Toks) {
    derive_for(cx, t, it, i, tr);
    // also for what the declaration itself demands, and is named after
    let mut m = it.clone();
    let (g, w) = parts(&mut m);
    let mut more: Vec<Toks> = vec![];
    for g in g.iter().flat_map(|g| &g.items) {
        if g.kind == GK::Ty {
            more.extend(g.bound.clone());
            more.push(vec![Tok::I(g.name)]);
        }
    }
    for q in w.iter().flat_map(|w| &w.items) {
        more.push(q.bound.clone());
        more.push(q.left.clone());
    }
    let mut seen: Vec<Toks> = vec![tr.clone(), vec![]];
    for tr in more {
        if !seen.contains(&tr) {
            derive_for(cx, t, it, i, &tr);
            seen.push(tr);
        }
    }
}
fn derive_for(cx: &mut Ctx, t: &Toks, it: &It, i: &v::Item, tr: &Toks) {
    let mut m = it.clone();
    let (g, w) = parts(&mut m);
    let mut want: Vec<String> = w.iter().flat_map(|w| w.items.iter().map(show_pred)).collect();
    let own = want.clone();
    for g in g.iter().flat_map(|g| &g.items) {
        if g.kind == GK::Ty {
            want.push(show_pred(&Pred { left: vec![Tok::I(g.name)], bound: tr.clone() }));
        }
    }
    want.sort();
    let wc = match guard(|| derive(i, tr)) {
        Ok(w) => w,
        Err(m) => return cx.fail(t, format!("create_derive_where_clause panicked: {m}")),
    };
    let order: Vec<String> = obs::wlist(&wc).items.iter().map(show_pred).collect();
    let mut got = order.clone();
    got.sort();
    if got != want {
        return cx.fail(t, format!("derive where clause for `{}`: expected {want:?}, got {got:?}", shown(tr)));
    }
    // the declared predicates keep their order
    let mut k = 0;
    for q in &order {
        if k < own.len() && *q == own[k] {
            k += 1;
        }
    }
    if k < own.len() {
        return cx.fail(t, format!("derive where clause reorders the declared predicates: {order:?}"));
    }
    // usable in an impl
    let mut u = lx("impl A for B");
    match print(&wc) {
        Ok(o) => u.extend(o),
        Err(m) => return cx.fail(t, format!("printing the where clause panicked: {m}")),
    }
    u.push(Tok::G(D::C, vec![]));
    match parse_toks(&u) {
        Out::Item(v::Item::Impl(im)) => {
            let back: Vec<String> = im.where_clause.iter().flat_map(|w| obs::wlist(w).items).map(|q| show_pred(&q)).collect();
            if back != order {
                cx.fail(t, format!("derive where clause `{}` reads back as {back:?}", show(&u)));
            }
        }
        o => cx.fail(t, format!("derive where clause `{}` does not read back: {}", show(&u), o.name())),
    }
}
/// The item must be exactly `want` (up to trailing commas of the two lists).
fn check_built(cx: &mut Ctx, input: &Toks, want: &It, i: &v::Item, text: bool) {
    let (got, odds) = match guard(|| obs::item(i)) {
        Ok(x) => x,
        Err(m) => return cx.fail(input, format!("reading the edited item panicked: {m}")),
    };
    let mut want = want.clone();
    same_trail(&mut want, &got);
    if let Some(d) = diff(&want, &got, cls::ALL) {
        return cx.fail(input, format!("after the additions: {d}"));
    }
    if let Some(o) = odds_of(&odds, cls::ALL) {
        return cx.fail(input, format!("after the additions: {o}"));
    }
    let o = match print(i) {
        Ok(o) => o,
        Err(m) => return cx.fail(input, format!("printing panicked: {m}")),
    };
    if o != want.toks() {
        return cx.fail(input, format!("prints as `{}`, expected `{}`", show(&o), show(&want.toks())));
    }
    match parse_toks(&o) {
        Out::Item(b) => {
            if let Some(d) = diff(&want, &obs::item(&b).0, cls::ALL) {
                return cx.fail(input, format!("printed and parsed again: {d}"));
            }
        }
        x => return cx.fail(input, format!("result `{}` does not parse: {}", show(&o), x.name())),
    }
    if text {
        let s = i.to_token_stream().to_string();
        match s.parse::<TokenStream>() {
            Ok(ts) => match parse(ts) {
                Out::Item(b) => {
                    if let Some(d) = diff(&want, &obs::item(&b).0, cls::ALL) {
                        cx.fail(input, format!("written as text `{s}` and parsed again: {d}"));
                    }
                }
                x => cx.fail(input, format!("result text `{s}` does not parse: {}", x.name())),
            },
            Err(_) => cx.fail(input, format!("result text `{s}` cannot be lexed")),
        }
    }
    cx.outcome(shape(&got));
}
const DERIVED: &[&str] = &["Tr", "a::Tr<B, C>", "Tr + 'a", "for<'a> Tr<'a>", "?Sized", "Fn() -> A"];
pub fn c13(th: bool) -> Prop {
    let mut v = vec![];
    v.push(space("additions", 0, move |ch, cx| {
        let d = ch.free(DECLS);
        let (g, w) = (ch.all(&start_gens()).clone(), ch.all(&start_whs()).clone());
        let mut it = decl(d, g, w);
        let t = it.toks();
        let mut i = match accept(cx, &t) {
            Some(i) => i,
            None => return,
        };
        let n = ch.free(if th { 4 } else { 3 });
        let mut hist = t.clone();
        let mut text = true;
        for step in 0..n {
            let o = ops(step);
            let o = if n < 3 { ch.all(&o) } else { ch.all(&o[..7]) };
            match o {
                Op::Param(g) => {
                    add_param(parts(&mut it).0, g);
                    // (known finding, see the space below)
                    text &= !(g.kind == GK::Life && g.bound.is_some());
                    hist.push(Tok::I("ADD"));
                    pgp(g, &mut hist);
                }
                Op::Pred(q) => {
                    add_pred(parts(&mut it).1, q);
                    hist.push(Tok::I("ADD_WHERE"));
                    hist.extend(q.left.iter().cloned());
                    hist.push(p(':'));
                    hist.extend(q.bound.iter().cloned());
                }
            }
            i = match guard(|| build(i, o)) {
                Ok(i) => i,
                Err(m) => return cx.fail(&hist, format!("addition panicked: {m}")),
            };
        }
        cx.input(&hist);
        check_built(cx, &hist, &it, &i, text && n < 3);
        if n < 2 {
            for tr in DERIVED {
                check_derive(cx, &hist, &it, &i, &lx(tr));
            }
        } else {
            check_derive(cx, &hist, &it, &i, &lx(DERIVED[1]));
        }
    }));
    // long sequences over a small alphabet, on the lists themselves too
    v.push(space("long additions", 0, move |ch, cx| {
        let base = ch.free(4);
        let n = ch.free(if th { 8 } else { 6 });
        let mut gen: Gen = [None, Some(List::new()), Some(l(vec![few_params()[0].clone(), gty("T", None)], false)), Some(l(vec![gty("T", None)], true))][base].clone();
        let mut wh: Wh = [None, Some(List::new()), None, Some(l(vec![Pred { left: lx("T"), bound: lx("A") }], true))][base].clone();
        let it0 = decl(base, gen.clone(), wh.clone());
        let mut i = match accept(cx, &it0.toks()) {
            Some(i) => i,
            None => return,
        };
        let mut hist = it0.toks();
        let (mut gl, mut wl) = (v::GenericParamList::default(), v::WhereClause::default());
        let (mut gm, mut wm): (Gen, Wh) = (Some(List::new()), Some(List::new()));
        for step in 0..n {
            let o = &ops(step)[ch.free(4)];
            hist.push(Tok::I(["LIFETIME", "TYPE", "CONST", "WHERE"][ops(step).iter().position(|x| std::mem::discriminant(x) == std::mem::discriminant(o)).unwrap_or(0)]));
            match o {
                Op::Param(g) => {
                    pgp(g, &mut hist);
                    add_param(&mut gen, g);
                    add_param(&mut gm, g);
                    gl = gl.with_param(make_param(g));
                }
                Op::Pred(q) => {
                    hist.extend(q.left.iter().cloned());
                    add_pred(&mut wh, q);
                    add_pred(&mut wm, q);
                    wl = if wl.items.is_empty() { v::WhereClause::from_predicate(make_pred(q)) } else { wl.with_predicate(make_pred(q)) };
                }
            }
            i = match guard(|| build(i, o)) {
                Ok(i) => i,
                Err(m) => return cx.fail(&hist, format!("addition panicked: {m}")),
            };
        }
        cx.input(&hist);
        check_built(cx, &hist, &decl(base, gen, wh), &i, n < 5);
        if obs::glist(&gl).items != gm.as_ref().unwrap().items {
            cx.fail(&hist, format!("list built from scratch: {:?}", print(&gl).map(|o| show(&o))));
        }
        if obs::wlist(&wl).items != wm.as_ref().unwrap().items {
            cx.fail(&hist, format!("where clause built from scratch: {:?}", print(&wl).map(|o| show(&o))));
        }
        obs::odd_clear();
        check_derive(cx, &hist, &decl(base, obs::gen(&i.generic_params().cloned()), obs_wh(&i)), &i, &lx("Tr"));
    }));
    // bounds of all forms and sizes, derived and added
    v.push(space("bounds", 0, move |ch, cx| {
        let b = match ch.free(BOUNDS.len() + 1) {
            0 => match scaled_bound(ch.free(SCALED), *ch.all(SIZES)) {
                Some(b) => b,
                None => return,
            },
            i => lx(BOUNDS[i - 1]),
        };
        let base = ch.free(4);
        let gen: Gen = [None, Some(List::new()), Some(l(vec![few_params()[0].clone(), gty("T", None)], false)), Some(l(vec![gty("T", None), gty("U", Some(lx("A")))], true))][base].clone();
        let wh: Wh = [None, Some(List::new()), None, Some(l(vec![Pred { left: lx("T"), bound: lx("A") }], true))][base].clone();
        let mut it = decl(base, gen, wh);
        let Some(mut i) = accept(cx, &it.toks()) else { return };
        let mut hist = it.toks();
        hist.extend(b.iter().cloned());
        cx.input(&hist);
        derive_for(cx, &hist, &it, &i, &b);
        let q = Pred { left: lx("X::Y"), bound: b.clone() };
        let g = gty("X", Some(b.clone()));
        for o in [Op::Param(g), Op::Pred(q)] {
            match &o {
                Op::Param(g) => add_param(parts(&mut it).0, g),
                Op::Pred(q) => add_pred(parts(&mut it).1, q),
            }
            i = match guard(|| build(i, &o)) {
                Ok(i) => i,
                Err(m) => return cx.fail(&hist, format!("addition panicked: {m}")),
            };
        }
        check_built(cx, &hist, &it, &i, true);
        cx.outcome(xhash(&hist));
    }));
    // parameters of every kind, and their classification
    v.push(space("constructors", 0, move |ch, cx| {
        let mut all: Vec<GP> = all_params().into_iter().filter(|g| !(g.kind == GK::Const && g.bound.is_none())).collect();
        all.push(GP { kind: GK::Const, name: "N", bound: Some(vec![]) });
        for (f, n) in [(2usize, 6usize), (7, 20), (12, 4)] {
            all.push(gty("T", Some(scaled(f, n))));
            all.push(GP { kind: GK::Const, name: "N", bound: Some(scaled(f, n)) });
        }
        for name in super::part_props::NAMES.iter().filter(|n| !n.starts_with("r#")) {
            all.push(GP { kind: GK::Ty, name, bound: None });
            all.push(GP { kind: GK::Const, name, bound: Some(lx("A")) });
            if name.is_ascii() {
                all.push(GP { kind: GK::Life, name, bound: None });
            }
        }
        let g = ch.all(&all).clone();
        if g.name.starts_with("r#") {
            return;
        }
        let mut t = vec![];
        pgp(&g, &mut t);
        cx.input(&t);
        cx.impl_runs += 1;
        let x = match guard(|| make_param(&g)) {
            Ok(x) => x,
            Err(m) => return cx.fail(&t, format!("constructor panicked: {m}")),
        };
        if obs::gp(&x) != g {
            cx.fail(&t, format!("constructed parameter is {:?}", obs::gp(&x)));
        }
        if (x.is_lifetime(), x.is_ty(), x.is_const()) != (g.kind == GK::Life, g.kind == GK::Ty, g.kind == GK::Const) {
            cx.fail(&t, "kind of the constructed parameter");
        }
        match print(&x) {
            Ok(o) if o == t => {}
            o => cx.fail(&t, format!("constructed parameter prints as {:?}", o.map(|o| show(&o)))),
        }
        obs::odd_clear();
        // added to a declaration
        if g.kind == GK::Const && g.bound == Some(vec![]) {
            return;
        }
        let d = ch.free(DECLS);
        let base = ch.all(&start_gens()).clone();
        let mut it = decl(d, base, None);
        if let Some(i) = accept(cx, &it.toks()) {
            add_param(parts(&mut it).0, &g);
            match guard(|| build(i, &Op::Param(g.clone()))) {
                Ok(i) => check_built(cx, &t, &it, &i, !(g.kind == GK::Life && g.bound.is_some())),
                Err(m) => cx.fail(&t, format!("addition panicked: {m}")),
            }
        }
    }));
    v.push(space("known findings", 0, move |_ch, cx| {
        // the apostrophe made by bounded_lifetime is not joined to the name
        let what = "GenericParam::bounded_lifetime text";
        let g = GP { kind: GK::Life, name: "a", bound: Some(lx("'b")) };
        let mut t = vec![];
        pgp(&g, &mut t);
        cx.input(&t);
        cx.impl_runs += 1;
        let s = make_param(&g).to_token_stream().to_string();
        let back = s.parse::<TokenStream>().map(from_stream);
        if back.as_ref().ok() != Some(&t) {
            if known("C13", what) {
                cx.known.push(format!("{what}: written as `{s}`, which is not a lifetime"));
            } else {
                cx.fail(&t, format!("bounded_lifetime is written as `{s}`"));
            }
        }
    }));
    Prop {
        id: "C13",
        spaces: v,
        rule: "all sequences of up to 2 (3) additions from 10 kinds on 5 declaration shapes x 11 parameter lists x 6 where clauses, all sequences of up to 5 (7) additions from 4 kinds, and every constructor with every bound; the result must be the reference lists, everything else unchanged, print as expected, parse back (from tokens and from text), and give the right derive where clause",
    }
}
fn obs_wh(i: &v::Item) -> Wh {
    match i {
        v::Item::Struct(x) => obs::wh(&x.where_clause),
        v::Item::Enum(x) => obs::wh(&x.where_clause),
        v::Item::Union(x) => obs::wh(&x.where_clause),
        _ => None,
    }
}

// ---------------------------------------------------------------- C14

/// The arguments that name these parameters.
fn args_of(l: &[GP]) -> Vec<Toks> {
    l.iter()
        .map(|g| match g.kind {
            GK::Life => vec![Tok::P('\'', true), Tok::I(g.name)],
            _ => vec![Tok::I(g.name)],
        })
        .collect()
}
/// Splits `< a , b , >` at its commas.
fn split_args(t: &Toks) -> Option<Vec<Toks>> {
    if t.len() < 2 || t[0] != p('<') || t[t.len() - 1] != p('>') {
        return None;
    }
    let mut o = vec![];
    let mut cur = vec![];
    for x in &t[1..t.len() - 1] {
        if *x == p(',') {
            if cur.is_empty() {
                return None;
            }
            o.push(std::mem::take(&mut cur));
        } else {
            cur.push(x.clone());
        }
    }
    if !cur.is_empty() {
        o.push(cur);
    }
    Some(o)
}
fn check_args(cx: &mut Ctx, t: &Toks, params: &[GP], a: v::InlineGenericArgs<'_>, list: &v::GenericParamList, joint: bool) {
    let want = args_of(params);
    let o = match print(&a) {
        Ok(o) => o,
        Err(m) => return cx.fail(t, format!("printing inline arguments panicked: {m}")),
    };
    let split = split_args(&o);
    if split.as_ref() != Some(&want) {
        return cx.fail(t, format!("inline arguments are `{}`", show(&o)));
    }
    // a lifetime is an apostrophe joined to its name
    let detached = |o: &Toks| o.iter().any(|x| matches!(x, Tok::P('\'', false)));
    if joint && detached(&o) {
        return cx.fail(t, format!("apostrophe of a lifetime detached in `{}`", show(&o)));
    }
    let own = match guard(|| a.to_owned_args()) {
        Ok(o) => o,
        Err(m) => return cx.fail(t, format!("to_owned_args panicked: {m}")),
    };
    let o = match print(&own) {
        Ok(o) => o,
        Err(m) => return cx.fail(t, format!("printing owned arguments panicked: {m}")),
    };
    if own.tk_turbofish_colons.is_some() || split_args(&o).as_ref() != Some(&want) || (joint && detached(&o)) {
        return cx.fail(t, format!("owned arguments are `{}`", show(&o)));
    }
    let seps = |p: &mut dyn Iterator<Item = &Punct>| -> Vec<(char, bool)> { p.map(|p| (p.as_char(), p.spacing() == Spacing::Joint)).collect() };
    if seps(&mut own.args.punct()) != seps(&mut list.params.punct()) {
        return cx.fail(t, format!("owned arguments are `{}`: not the separators of the parameters", show(&o)));
    }
    if own.args.len() != params.len() {
        return cx.fail(t, format!("{} owned arguments for {} parameters", own.args.len(), params.len()));
    }
    for (x, g) in own.args.items().zip(params) {
        let ok = match x {
            v::GenericArg::Lifetime { lifetime } => g.kind == GK::Life && lifetime.name == g.name,
            v::GenericArg::TypeOrConst { expr } => g.kind != GK::Life && from_trees(&expr.tokens) == [Tok::I(g.name)],
            _ => false,
        };
        if !ok {
            return cx.fail(t, format!("parameter {} becomes argument {x:?}", g.name));
        }
    }
}
fn check_queries<'a>(
    cx: &mut Ctx,
    t: &Toks,
    params: &[GP],
    life: impl Iterator<Item = &'a v::GenericParam>,
    ty: impl Iterator<Item = &'a v::GenericParam>,
    co: impl Iterator<Item = &'a v::GenericParam>,
) {
    let f = |k: GK| -> Vec<GP> { params.iter().filter(|g| g.kind == k).cloned().collect() };
    let o = |it: &mut dyn Iterator<Item = &'a v::GenericParam>| -> Vec<GP> { it.map(obs::gp).collect() };
    let (mut life, mut ty, mut co) = (life, ty, co);
    let got = (o(&mut life), o(&mut ty), o(&mut co));
    obs::odd_clear();
    if got != (f(GK::Life), f(GK::Ty), f(GK::Const)) {
        cx.fail(t, format!("parameters by kind: {got:?}"));
    }
}
fn args_only(it: &It, t: &Toks, cx: &mut Ctx) {
    cx.impl_runs += 1;
    let i = match accept_quiet(cx, t) {
        Some(i) => i,
        None => return,
    };
    check_item_args(cx, t, it, &i, true);
    cx.outcome(shape(it));
}
fn check_item_args(cx: &mut Ctx, t: &Toks, it: &It, i: &v::Item, joint: bool) {
    let none = vec![];
    let gen = it.gen().and_then(|g| g.as_ref());
    let params = gen.map_or(&none, |g| &g.items);
    if let Some(g) = i.generic_params() {
        check_args(cx, t, params, g.as_inline_args(), g, joint);
        for (x, g) in g.params.items().zip(params) {
            if (x.is_lifetime(), x.is_ty(), x.is_const()) != (g.kind == GK::Life, g.kind == GK::Ty, g.kind == GK::Const) {
                cx.fail(t, format!("kind of parameter {}", g.name));
            }
        }
    } else if gen.is_some() {
        cx.fail(t, "parameter list lost");
    }
    macro_rules! q {
        ($x:expr) => {{
            let x = $x;
            check_queries(cx, t, params, x.get_lifetime_params(), x.get_type_params(), x.get_const_params());
            match (x.get_inline_generic_args(), gen) {
                (None, None) => {}
                (Some(a), Some(_)) => check_args(cx, t, params, a, i.generic_params().unwrap(), joint),
                (a, _) => cx.fail(t, format!("inline arguments given: {}, parameters declared: {}", a.is_some(), gen.is_some())),
            }
        }};
    }
    match i {
        v::Item::Struct(x) => q!(x),
        v::Item::Enum(x) => q!(x),
        v::Item::Union(x) => q!(x),
        _ => {}
    }
}
pub fn c14(th: bool) -> Prop {
    let b = bounds(th, [3, 1, 4, 2], [2, 1, 4, 2], [3, 2, 5, 3]);
    let mut v = vec![];
    v.push(space("parameter lists", 0, move |ch, cx| {
        let gen = match ch.free(3) {
            0 => {
                let all = all_params();
                let n = ch.free(3);
                Some(l((0..n).map(|_| ch.all(&all).clone()).collect(), ch.free(2) == 1))
            }
            1 => {
                let few = few_params();
                let n = 3 + ch.free(if th { 3 } else { 2 });
                Some(l((0..n).map(|_| ch.all(&few).clone()).collect(), ch.free(2) == 1))
            }
            _ => None,
        };
        let n = gen.as_ref().map_or(0, |g| g.items.len());
        let c = if n > 3 { 0 } else { *ch.all(&[0usize, 3, 4, 5, 8, 2, 1]) };
        let tight = n < 3 && ch.free(2) == 1;
        go(cx, &carrier(c, gen, None), tight, args_only);
    }));
    v.push(space("names", 0, move |ch, cx| {
        // no name makes a parameter of another kind
        let kind = ch.all(&[GK::Ty, GK::Life, GK::Const]).clone();
        let name = *ch.all(super::part_props::NAMES);
        if kind == GK::Life && (name.starts_with("r#") || !name.is_ascii()) {
            return;
        }
        let bound = match kind {
            GK::Const => Some(lx("u8")),
            GK::Life => [None, Some(lx("'b"))][ch.free(2)].clone(),
            GK::Ty => [None, Some(lx("A<B>"))][ch.free(2)].clone(),
        };
        let g = GP { kind, name, bound };
        let mut items = vec![g];
        for k in 0..ch.free(3) {
            let o = ch.all(&few_params()).clone();
            if k == 0 {
                items.push(o);
            } else {
                items.insert(0, o);
            }
        }
        let c = *ch.all(&[0usize, 3, 4]);
        go(cx, &carrier(c, Some(l(items, ch.free(2) == 1)), None), false, args_only);
    }));
    v.push(space("parameters built by hand", 0, move |ch, cx| {
        // not only what the parser or the builders make: a constant with no
        // type yet, a type with an empty bound
        let n = 1 + ch.free(3);
        let mut list = v::GenericParamList { tk_l_bracket: Punct::new('<', Spacing::Alone), params: Default::default(), tk_r_bracket: Punct::new('>', Spacing::Alone) };
        let mut params = vec![];
        let mut t = vec![];
        for k in 0..n {
            let kind = ch.all(&[GK::Ty, GK::Life, GK::Const]).clone();
            let name = intern(&format!("p{k}"));
            let bound = ch.all(&[None, Some("A"), Some("")]).map(lx);
            let comma = ch.all(&[None, Some(Spacing::Alone), Some(Spacing::Joint)]).map(|s| Punct::new(',', s));
            let g = GP { kind: kind.clone(), name, bound: bound.clone() };
            t.extend(Toks::from(vec![Tok::I(name)]));
            let id = |s: &str| Ident::new(s, Span::call_site());
            list.params.push(
                v::GenericParam {
                    tk_prefix: match kind {
                        GK::Ty => None,
                        GK::Life => Some(Punct::new('\'', Spacing::Joint).into()),
                        GK::Const => Some(id("const").into()),
                    },
                    name: id(name),
                    bound: bound.as_ref().map(|b| v::GenericBound { tk_colon: Punct::new(':', Spacing::Alone), tokens: to_stream(b).into_iter().collect() }),
                },
                comma,
            );
            params.push(g);
        }
        cx.input(&t);
        cx.impl_runs += 1;
        for (x, g) in list.params.items().zip(&params) {
            if (x.is_lifetime(), x.is_ty(), x.is_const()) != (g.kind == GK::Life, g.kind == GK::Ty, g.kind == GK::Const) {
                cx.fail(&t, format!("kind of parameter {}", g.name));
            }
        }
        check_args(cx, &t, &params, list.as_inline_args(), &list, true);
        if let Some(v::Item::Struct(mut s)) = accept_quiet(cx, &lx("struct S;")) {
            s.generic_params = Some(list);
            let kinds = |k: GK| -> Vec<S> { params.iter().filter(|g| g.kind == k).map(|g| g.name).collect() };
            let names = |it: &mut dyn Iterator<Item = &v::GenericParam>| -> Vec<S> { it.map(|g| intern(&g.name.to_string())).collect() };
            let got = (names(&mut s.get_lifetime_params()), names(&mut s.get_type_params()), names(&mut s.get_const_params()));
            if got != (kinds(GK::Life), kinds(GK::Ty), kinds(GK::Const)) {
                cx.fail(&t, format!("parameters by kind: {got:?}"));
            }
        }
        cx.outcome(n as u64);
    }));
    v.push(space("after additions", 0, move |ch, cx| {
        let d = ch.free(DECLS);
        let mut it = decl(d, ch.all(&start_gens()).clone(), None);
        let mut i = match accept_quiet(cx, &it.toks()) {
            Some(i) => i,
            None => return,
        };
        let n = ch.free(if th { 5 } else { 4 });
        let mut joint = true;
        for step in 0..n {
            let o: Vec<Op> = ops(step).into_iter().filter(|o| matches!(o, Op::Param(_))).collect();
            let o = ch.all(&o);
            if let Op::Param(g) = o {
                add_param(parts(&mut it).0, g);
                joint &= !(g.kind == GK::Life && g.bound.is_some());
            }
            i = build(i, o);
        }
        let t = it.toks();
        cx.input(&t);
        cx.impl_runs += 1;
        check_item_args(cx, &t, &it, &i, joint);
        cx.outcome(shape(&it));
    }));
    v.extend(grammar(&["struct", "enum", "union", "fn", "trait", "impl"], b, args_only));
    v.push(long(&[5], args_only));
    Prop {
        id: "C14",
        spaces: v,
        rule: "all parameter lists of up to 2 arbitrary and 3-5 representative parameters on every carrier, after all sequences of up to 3 (4) added parameters, built by hand (constants without a type, any separators), and lists of up to 300: printed and owned arguments must name the parameters in order and the kind queries must partition them",
    }
}

// ---------------------------------------------------------------- C15

/// Separators that can be told apart.
const SEPS: &[(char, bool)] = &[(',', true), (';', false), ('|', true)];
type Ref = Vec<(S, Option<(char, bool)>)>;
fn sep(c: Option<(char, bool)>) -> Option<Punct> {
    c.map(|(c, j)| Punct::new(c, if j { Spacing::Joint } else { Spacing::Alone }))
}
fn check_list(cx: &mut Ctx, hist: &Toks, l: &v::Punctuated<Ident>, want: &Ref) {
    let n = want.len();
    let sp = |q: &Punct| (q.as_char(), q.spacing() == Spacing::Joint);
    let d = (',', false);
    let items: Vec<String> = l.items().map(|i| i.to_string()).collect();
    let wi: Vec<&str> = want.iter().map(|x| x.0).collect();
    if items != wi {
        return cx.fail(hist, format!("items {items:?}, expected {wi:?}"));
    }
    if l.len() != n || l.is_empty() != (n == 0) || l.iter().count() != n {
        return cx.fail(hist, format!("length {} (empty: {}), expected {n}", l.len(), l.is_empty()));
    }
    // separators: every item but the last has one; the last only if given
    let mut ws: Vec<(char, bool)> = want.iter().map(|x| x.1.unwrap_or(d)).collect();
    if n > 0 && want[n - 1].1.is_none() {
        ws.pop();
    }
    let gs: Vec<(char, bool)> = l.punct().map(sp).collect();
    if gs != ws {
        return cx.fail(hist, format!("separators {gs:?}, expected {ws:?}"));
    }
    for (i, (s, c)) in want.iter().enumerate() {
        let (x, q) = &l[i];
        if x != s {
            return cx.fail(hist, format!("element {i} is {x}"));
        }
        if (i + 1 < n || c.is_some()) && sp(q) != c.unwrap_or(d) {
            return cx.fail(hist, format!("separator {i} is {q}"));
        }
    }
    let mut wt = vec![];
    for (i, (s, c)) in want.iter().enumerate() {
        wt.push(Tok::I(s));
        if i + 1 < n || c.is_some() {
            let (c, j) = c.unwrap_or(d);
            wt.push(Tok::P(c, j));
        }
    }
    match print(l) {
        Ok(o) if exact(&o, &wt) => {}
        o => return cx.fail(hist, format!("prints as {:?}, expected `{}`", o.map(|o| show(&o)), show(&wt))),
    }
    if let Ok(s) = guard(|| format!("{l:?}")) {
        if s.matches("Ident").count() != n && !wi.iter().all(|w| s.contains(w)) {
            cx.fail(hist, format!("Debug output {s}"));
        }
    }
    cx.outcome(xhash(&wt));
}
pub fn c15(th: bool) -> Prop {
    let mut v = vec![];
    let body = move |ch: &mut Ch, cx: &mut Ctx, max: usize, nsep: usize| {
        const NM: &[S] = &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j"];
        let mut hist = vec![];
        // from scratch, or from what a parsed list contains
        let start = ch.free(7);
        let (mut l, mut want): (v::Punctuated<Ident>, Ref) = match start {
            0 => (v::Punctuated::new(), vec![]),
            1 => (v::Punctuated::default(), vec![]),
            k => {
                let src = ["struct S ( ) ;", "struct S ( A ) ;", "struct S ( A , ) ;", "struct S ( A , B ) ;", "struct S ( A , B , ) ;"][k - 2];
                hist.extend(lx(src));
                let s = match parse_toks(&lx(src)) {
                    Out::Item(v::Item::Struct(s)) => s,
                    o => return cx.fail_s(src.into(), o.name()),
                };
                let f = match &s.fields {
                    v::Fields::Tuple(f) => f.fields.clone(),
                    _ => return cx.fail_s(src.into(), "not a tuple struct".to_string()),
                };
                let l = v::Punctuated {
                    inner: f.inner.iter().map(|(x, q)| (pm_ident(&x.ty.tokens[0].to_string()), q.clone())).collect(),
                    skip_last: f.skip_last,
                };
                let c = Some((',', false));
                (l, [vec![], vec![("A", None)], vec![("A", c)], vec![("A", c), ("B", None)], vec![("A", c), ("B", c)]][k - 2].clone())
            }
        };
        let n = ch.free(max + 1);
        for step in 0..n {
            let x = NM[step];
            let len = want.len();
            let o = ch.free(len + 3);
            let c = if o == len + 2 { None } else { [None, Some(SEPS[0]), Some(SEPS[1]), Some(SEPS[2])][ch.free(nsep + 1)] };
            if o == 0 {
                hist.push(Tok::I("push"));
                l.push(pm_ident(x), sep(c));
                want.push((x, c));
            } else if o <= len + 1 {
                let at = o - 1;
                hist.push(Tok::I("insert"));
                hist.push(Tok::L(intern(&at.to_string())));
                if let Err(m) = guard(|| l.insert(at, pm_ident(x), sep(c))) {
                    return cx.fail(&hist, format!("insert panicked: {m}"));
                }
                want.insert(at, (x, c));
            } else {
                hist.push(Tok::I("insert_past_end"));
                let at = len + 1 + step % 3;
                if guard(|| l.insert(at, pm_ident(x), Some(Punct::new(',', Spacing::Alone)))).is_ok() {
                    return cx.fail(&hist, format!("insert at {at} of {len} did not panic"));
                }
            }
            hist.push(Tok::I(x));
            if let Some((c, j)) = c {
                hist.push(Tok::P(c, j));
            }
        }
        cx.input(&hist);
        cx.impl_runs += 1;
        check_list(cx, &hist, &l, &want);
        let cl = l.clone();
        check_list(cx, &hist, &cl, &want);
    };
    v.push(space("histories", 0, move |ch, cx| body(ch, cx, if th { 5 } else { 4 }, 2)));
    v.push(space("deeper histories", 0, move |ch, cx| body(ch, cx, if th { 6 } else { 5 }, 1)));
    v.push(space("long lists", 0, move |ch, cx| {
        // append n, then one insertion anywhere interesting, then one push
        let n = *ch.all(LENS);
        let mode = ch.free(4);
        let nm = |i: usize| intern(&format!("x{i}"));
        let mut l = v::Punctuated::new();
        let mut want: Ref = vec![];
        for i in 0..n {
            let c = match mode {
                0 => None,
                1 => Some((',', false)),
                2 => [None, Some((';', true))][i % 2],
                _ => [Some(('|', false)), None, None][i % 3],
            };
            if mode == 3 && i % 4 == 1 {
                let at = want.len() / 2;
                l.insert(at, pm_ident(nm(i)), sep(c));
                want.insert(at, (nm(i), c));
            } else {
                l.push(pm_ident(nm(i)), sep(c));
                want.push((nm(i), c));
            }
        }
        let hist = vec![Tok::I("len"), Tok::L(intern(&n.to_string())), Tok::L(intern(&mode.to_string()))];
        check_list(cx, &hist, &l, &want);
        let at = [0, n / 2, n.saturating_sub(1), n][ch.free(4)];
        let c = [None, Some((';', false))][ch.free(2)];
        l.insert(at, pm_ident("y"), sep(c));
        want.insert(at, ("y", c));
        check_list(cx, &hist, &l, &want);
        l.push(pm_ident("z"), sep(c));
        want.push(("z", c));
        cx.input(&want.iter().map(|w| Tok::I(w.0)).collect::<Vec<_>>());
        cx.impl_runs += 1;
        check_list(cx, &hist, &l, &want);
        if guard(|| l.insert(n + 3 + at, pm_ident("w"), None)).is_ok() {
            cx.fail(&hist, "insert past the end did not panic");
        }
        check_list(cx, &hist, &l, &want);
    }));
    Prop {
        id: "C15",
        spaces: v,
        rule: "all histories of up to 4 (5) pushes, inserts (every index, also past the end) with 3 kinds of separator or none, and of up to 5 (6) with one kind, from new, default and parsed lists; lists up to 302: items, separators, length, indexing and printing must equal the reference after each history",
    }
}

// ---------------------------------------------------------------- C17

const MESSAGES: &[&str] = &[
    "a", "", "two words", "\"quoted\"", "back\\slash", "line\nbreak", "tab\t", "cr\r\n", "nul\0", "é ☃ 𝄞", "{}", "{0} {{}}", "%s", "'", "//", "/* */", "\u{7f}\u{1b}[0m",
    "#\"", "r#\"x\"#", "\\n", "\\u{41}", "compile_error!{\"x\"}", "\u{202e}x", "\u{feff}", " lead", "trail ", "\u{1}", "a\\", "\\\"", "$x", "`a`", "\u{301}",
];
/// Value of a string literal.
fn unescape(s: &str) -> Option<String> {
    if let Some(r) = s.strip_prefix('r') {
        let n = r.chars().take_while(|c| *c == '#').count();
        let r = r.get(n..r.len() - n)?;
        return Some(r.strip_prefix('"')?.strip_suffix('"')?.to_string());
    }
    let r = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut o = String::new();
    let mut it = r.chars().peekable();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            'r' => o.push('\r'),
            't' => o.push('\t'),
            '0' => o.push('\0'),
            '\\' => o.push('\\'),
            '"' => o.push('"'),
            '\'' => o.push('\''),
            'x' => {
                let h: String = [it.next()?, it.next()?].iter().collect();
                o.push(u8::from_str_radix(&h, 16).ok()? as char)
            }
            'u' => {
                it.next()?;
                let mut h = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        '_' => {}
                        c => h.push(c),
                    }
                }
                o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?)
            }
            '\n' => {
                while it.peek().map_or(false, |c| c.is_whitespace()) {
                    it.next();
                }
            }
            _ => return None,
        }
    }
    Some(o)
}
type Msg = (String, std::ops::Range<usize>);
const MAKERS: usize = 9;
/// An error with one message, and where it has to be located.
fn make_err(k: usize, msg: &str, src: &[TokenTree]) -> (v::Error, Msg) {
    let r = |a: usize, b: usize| src[a].span().byte_range().start..src[b].span().byte_range().end;
    let call = Span::call_site().byte_range();
    let ts = |a: usize, b: usize| src[a..b].iter().cloned().collect::<TokenStream>();
    let (e, at) = match k {
        0 => (v::Error::new(msg), call),
        1 => (v::Error::new_at_span(src[1].span(), msg), r(1, 1)),
        2 => (v::Error::new_at_tokens(ts(1, 4), msg.to_string()), r(1, 3)),
        3 => (v::Error::new_at_tokens(&src[2], msg), r(2, 2)),
        4 => (v::Error::new_at_tokens(TokenStream::new(), msg), call),
        5 => (v::Error::new_at_span(src[4].span(), msg.to_string()), r(4, 4)),
        6 => (v::Error::new_at_tokens(ts(3, 5), format_args!("{msg}")), r(3, 4)),
        7 => (v::Error::new_at_tokens(ts(0, src.len()), msg), r(0, src.len() - 1)),
        _ => (v::Error::new(msg.to_string()), call),
    };
    (e, (msg.to_string(), at))
}
fn check_err(cx: &mut Ctx, what: &Toks, e: &v::Error, want: &[Msg]) {
    let got = match guard(|| (e.to_string(), e.span().byte_range(), e.to_compile_error())) {
        Ok(g) => g,
        Err(m) => return cx.fail(what, format!("reading the error panicked: {m}")),
    };
    match guard(|| (format!("{e:?}"), format!("{e:#?}"))) {
        Err(m) => return cx.fail(what, format!("debug formatting panicked: {m}")),
        Ok(d) => {
            for d in [d.0, d.1] {
                let mut at = 0;
                for (m, _) in want {
                    let q = format!("{m:?}");
                    let q = &q[1..q.len() - 1];
                    match d[at..].find(q) {
                        Some(k) => at += k + q.len(),
                        None => return cx.fail(what, format!("debug text {d} does not show {m:?} in its place")),
                    }
                }
            }
        }
    }
    if got.0 != want[0].0 {
        return cx.fail(what, format!("displays as {:?}, first message is {:?}", got.0, want[0].0));
    }
    if got.1 != want[0].1 {
        return cx.fail(what, format!("span() is {:?}, first message is at {:?}", got.1, want[0].1));
    }
    // invocations: compile_error ! group [;]
    let v: Vec<TokenTree> = got.2.into_iter().collect();
    let mut i = 0;
    let mut k = 0;
    while i < v.len() {
        let first = i;
        let mut name = String::new();
        while i < v.len() && !matches!(&v[i], TokenTree::Punct(q) if q.as_char() == '!') {
            if let TokenTree::Ident(x) = &v[i] {
                name = x.to_string();
            }
            i += 1;
        }
        let g = match v.get(i + 1) {
            Some(TokenTree::Group(g)) if name == "compile_error" => g.clone(),
            _ => return cx.fail(what, format!("invocation {k} is not compile_error!{{..}}")),
        };
        let body: Vec<TokenTree> = g.stream().into_iter().collect();
        let lit = match body.as_slice() {
            [TokenTree::Literal(l)] => l.to_string(),
            _ => return cx.fail(what, format!("invocation {k} has body {}", g.stream())),
        };
        if k >= want.len() {
            return cx.fail(what, format!("more than {} invocations", want.len()));
        }
        let (m, at) = &want[k];
        if unescape(&lit).as_ref() != Some(m) {
            return cx.fail(what, format!("message {k} is {m:?}, rendered as {lit}"));
        }
        let a = v[first].span().byte_range().start;
        let b = g.span().byte_range().end;
        if (a..b) != *at {
            return cx.fail(what, format!("message {k} belongs at {at:?}, rendered at {a}..{b}"));
        }
        for t in v[first..=i + 1].iter().chain(&body) {
            let r = t.span().byte_range();
            if r.start < at.start || r.end > at.end {
                return cx.fail(what, format!("message {k} belongs at {at:?}, token {t} lies at {r:?}"));
            }
        }
        i += 2;
        if matches!(v.get(i), Some(TokenTree::Punct(q)) if q.as_char() == ';') {
            i += 1;
        } else if g.delimiter() != proc_macro2::Delimiter::Brace {
            return cx.fail(what, format!("invocation {k} is neither braced nor terminated: it cannot stand as an item"));
        }
        k += 1;
    }
    if k != want.len() {
        cx.fail(what, format!("{k} invocations for {} messages", want.len()));
    }
}
fn err_src() -> Vec<TokenTree> {
    let ts: TokenStream = "        alpha beta ( gamma ) :: delta [ 1 ]".parse().unwrap();
    ts.into_iter().collect()
}
pub fn c17(th: bool) -> Prop {
    let mut v = vec![];
    v.push(space("messages", 0, move |ch, cx| {
        let (a, b) = (*ch.all(MESSAGES), *ch.all(MESSAGES));
        let (j, k) = (ch.free(MAKERS), ch.free(MAKERS + 1));
        let src = err_src();
        let what = vec![Tok::I("error"), Tok::L(intern(&format!("{a:?}"))), Tok::L(intern(&j.to_string())), Tok::L(intern(&format!("{b:?}"))), Tok::L(intern(&k.to_string()))];
        cx.input(&what);
        cx.impl_runs += 1;
        let (mut e, m) = make_err(j, a, &src);
        let mut want = vec![m];
        if k < MAKERS {
            let (f, m) = make_err(k, b, &src);
            check_err(cx, &what, &f, &[m.clone()]);
            e.combine(f);
            want.push(m);
        }
        check_err(cx, &what, &e, &want);
        cx.outcome(xhash(&what));
        proc_macro2::extra::invalidate_current_thread_spans();
    }));
    v.push(space("combinations", 0, move |ch, cx| {
        // all orders of combining: each step merges two neighbours
        let n = 1 + ch.free(if th { 5 } else { 4 });
        let src = err_src();
        let mut what = vec![];
        let mut v: Vec<(v::Error, Vec<Msg>)> = (0..n)
            .map(|i| {
                let k = ch.free(if n < 4 { MAKERS } else { 5 });
                what.push(Tok::L(intern(&k.to_string())));
                let (e, m) = make_err(k, ["zero", "one \"1\"", "two\n", "three", "four"][i], &src);
                (e, vec![m])
            })
            .collect();
        while v.len() > 1 {
            // any ordered pair
            let len = v.len();
            let c = ch.free(len * (len - 1));
            let (a, mut b) = (c / (len - 1), c % (len - 1));
            if b >= a {
                b += 1;
            }
            what.push(Tok::I(intern(&format!("c{a}_{b}"))));
            let (f, m) = v[b].clone();
            v[a].0.combine(f);
            v[a].1.extend(m);
            v.remove(b);
        }
        cx.input(&what);
        cx.impl_runs += 1;
        check_err(cx, &what, &v[0].0, &v[0].1);
        let cl = v[0].0.clone();
        check_err(cx, &what, &cl, &v[0].1);
        cx.outcome(xhash(&what));
        proc_macro2::extra::invalidate_current_thread_spans();
    }));
    v.push(space("equal messages", 0, move |ch, cx| {
        // messages that say the same, at the same place or not, are still messages of their own
        let n = 1 + ch.free(if th { 6 } else { 5 });
        let src = err_src();
        let mut what = vec![];
        let mut v: Vec<(v::Error, Vec<Msg>)> = (0..n)
            .map(|_| {
                let (k, m) = (if n < 5 { ch.free(2) * 2 } else { 2 }, ch.free(2));
                what.push(Tok::L(intern(&k.to_string())));
                let text = ["", "same"][m];
                what.push(Tok::L(intern(&format!("{text:?}"))));
                let (e, m) = make_err(k, text, &src);
                (e, vec![m])
            })
            .collect();
        while v.len() > 1 {
            let len = v.len();
            let c = if n == 6 { ch.free(len - 1) } else { ch.free(len * (len - 1)) };
            let (a, mut b) = if n == 6 { (c, c) } else { (c / (len - 1), c % (len - 1)) };
            if b >= a {
                b += 1;
            }
            what.push(Tok::I(intern(&format!("c{a}_{b}"))));
            let (f, m) = v[b].clone();
            v[a].0.combine(f);
            v[a].1.extend(m);
            v.remove(b);
        }
        cx.input(&what);
        cx.impl_runs += 1;
        check_err(cx, &what, &v[0].0, &v[0].1);
        cx.outcome(xhash(&what));
        proc_macro2::extra::invalidate_current_thread_spans();
    }));
    v.push(space("reuse", 0, move |ch, cx| {
        // combining an error with its own clone, and many messages
        let n = *ch.all(LENS);
        let dbl = ch.free(2) == 1;
        let src = err_src();
        let what = vec![Tok::L(intern(&n.to_string())), Tok::I(if dbl { "doubled" } else { "once" })];
        let (mut e, m) = make_err(n % MAKERS, "first", &src);
        let mut want = vec![m];
        for i in 0..n {
            let (f, m) = make_err(i % MAKERS, &format!("m{i} {}", MESSAGES[i % MESSAGES.len()]), &src);
            e.combine(f);
            want.push(m);
        }
        if dbl {
            let c = e.clone();
            check_err(cx, &what, &c, &want);
            e.combine(c);
            want.extend(want.clone());
        }
        cx.input(&what);
        cx.impl_runs += 1;
        check_err(cx, &what, &e, &want);
        proc_macro2::extra::invalidate_current_thread_spans();
    }));
    v.push(space("located at items", 0, move |ch, cx| {
        // tokens of parsed items
        let s = *ch.all(MOD_POOL);
        let msg = *ch.all(MESSAGES);
        let ts: TokenStream = format!("         {s}").parse().unwrap();
        let all: Vec<TokenTree> = ts.clone().into_iter().collect();
        let at = all[0].span().byte_range().start..all.last().unwrap().span().byte_range().end;
        let what = lx(s);
        cx.input(&what);
        cx.impl_runs += 1;
        if let Out::Item(i) = parse(ts) {
            let e = v::Error::new_at_tokens(&i, msg);
            check_err(cx, &what, &e, &[(msg.to_string(), at.clone())]);
            let e = v::Error::new_at_span(i.span(), msg);
            check_err(cx, &what, &e, &[(msg.to_string(), at)]);
        }
        proc_macro2::extra::invalidate_current_thread_spans();
    }));
    v.push(space("long messages", 0, move |ch, cx| {
        let n = *ch.all(&[1usize, 15, 16, 17, 31, 32, 33, 63, 64, 65, 79, 80, 81, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 999, 1000, 1001, 1023, 1024, 1025, 4096, 5000, 65535, 65536, 65537, 100000]);
        let unit = *ch.all(&["a", "é", "word ", "line\n", "\"", "\\", "☃𝄞 ", "\t", "\0"]);
        let k = ch.free(MAKERS);
        let msg: String = unit.chars().cycle().take(n).collect();
        let src = err_src();
        let what = vec![Tok::L(intern(&n.to_string())), Tok::L(intern(&format!("{unit:?}"))), Tok::L(intern(&k.to_string()))];
        cx.input(&what);
        cx.impl_runs += 1;
        let (mut e, m) = make_err(k, &msg, &src);
        check_err(cx, &what, &e, &[m.clone()]);
        let (f, m2) = make_err((k + 1) % MAKERS, &msg, &src);
        e.combine(f);
        check_err(cx, &what, &e, &[m, m2]);
        cx.outcome(xhash(&what));
        proc_macro2::extra::invalidate_current_thread_spans();
    }));
    v.push(space("located in two files", 0, move |ch, cx| {
        // the first tokens from one file, the others from another: no span covers all
        let (n, k) = (2 + ch.free(3), 1 + ch.free(3));
        let msg = *ch.all(MESSAGES);
        let back = ch.free(2) == 1;
        let second = ch.free(2) == 1;
        let a = err_src();
        let b: Vec<TokenTree> = "                         second ( file ) :: here".parse::<TokenStream>().unwrap().into_iter().collect();
        let (a, b) = if back { (b, a) } else { (a, b) };
        let ts: Vec<TokenTree> = a[..k.min(n - 1)].iter().chain(&b[..n - k.min(n - 1)]).cloned().collect();
        let what = vec![Tok::L(intern(&format!("{n}{k}{back}{second}"))), Tok::L(intern(&format!("{msg:?}")))];
        cx.input(&what);
        cx.impl_runs += 1;
        let (x, y) = (ts[0].span().byte_range(), ts[ts.len() - 1].span().byte_range());
        let e = v::Error::new_at_tokens(ts.iter().cloned().collect::<TokenStream>(), msg);
        let e = if second {
            let mut f = v::Error::new("first");
            f.combine(e);
            f
        } else {
            e
        };
        match guard(|| (e.to_string(), e.span().byte_range(), e.to_compile_error())) {
            Err(m) => cx.fail(&what, format!("reading the error panicked: {m}")),
            Ok((d, at, ts)) => {
                if d != if second { "first" } else { msg } {
                    cx.fail(&what, format!("displays as {d:?}"));
                }
                if !second && at != x && at != y {
                    cx.fail(&what, format!("span() is {at:?}, the message is at {x:?} and {y:?}"));
                }
                let v: Vec<TokenTree> = ts.into_iter().collect();
                let semi = |t: &TokenTree| matches!(t, TokenTree::Punct(q) if q.as_char() == ';');
                let mut from = 0;
                if second {
                    from = v.iter().position(|t| matches!(t, TokenTree::Group(_))).map_or(0, |k| k + 1);
                    from += v.get(from).map_or(false, semi) as usize;
                }
                let v = &v[from..];
                match (v.first(), v.iter().rev().find(|t| !semi(t))) {
                    (Some(p), Some(q)) if p.span().byte_range().start == x.start && q.span().byte_range().end == y.end => {}
                    _ => cx.fail(&what, format!("the message belongs from {x:?} to {y:?}, rendered at {:?}", v.iter().map(|t| t.span().byte_range()).collect::<Vec<_>>())),
                }
            }
        }
        cx.outcome(xhash(&what));
        proc_macro2::extra::invalidate_current_thread_spans();
    }));
    Prop {
        id: "C17",
        spaces: v,
        rule: "all pairs of 32 messages x 9 constructors; all ways of combining up to 4 (5) errors in any order x constructors; up to 602 messages; messages of up to 100000 characters; errors located at whole parsed items and at tokens of two files: rendering must be one compile_error per message, in order, with the exact text, inside and spanning its location",
    }
}

// ---------------------------------------------------------------- C18

fn accessors(it: &It, t: &Toks, cx: &mut Ctx) {
    let i = match accept_quiet(cx, t) {
        Some(i) => i,
        None => return,
    };
    if let Err(m) = guard(|| accessors0(it, t, cx, i)) {
        cx.fail(t, format!("an accessor panicked: {m}"));
    }
}
fn accessors0(it: &It, t: &Toks, cx: &mut Ctx, mut i: v::Item) {
    let s = |i: &Ident| intern(&i.to_string());
    // shared accessors, against what parsing reported (comparison with the
    // declaration itself is the business of the parsing properties)
    let (got, _) = obs::item(&i);
    macro_rules! fail {
        ($($a:tt)*) => { return cx.fail(t, format!($($a)*)) };
    }
    if obs::attrs(i.attributes()) != got.attrs || got.attrs != it.attrs {
        fail!("attributes() gives {} attributes, {} declared", i.attributes().len(), it.attrs.len());
    }
    let g = i.generic_params().map(obs::glist);
    if g.as_ref() != it.gen().and_then(|g| g.as_ref()) {
        fail!("generic_params() gives {g:?}");
    }
    if i.name().as_ref().map(s) != it.name() {
        fail!("name() gives {:?}, declared {:?}", i.name(), it.name());
    }
    let kinds = [
        ("struct", i.as_struct().is_some()),
        ("enum", i.as_enum().is_some()),
        ("union", i.as_union().is_some()),
        ("fn", i.as_function().is_some()),
        ("const", i.as_constant().is_some()),
        ("type", i.as_type_alias().is_some()),
        ("use", i.as_use_declaration().is_some()),
        ("macro", i.as_macro().is_some()),
        ("impl", i.as_impl().is_some()),
        ("trait", i.as_trait().is_some()),
        ("mod", i.as_module().is_some()),
        ("extern block", i.as_extern_block().is_some()),
        ("extern crate", i.as_extern_crate().is_some()),
    ];
    let k = if it.kind_name() == "static" { "const" } else { it.kind_name() };
    for (n, is) in kinds {
        if is != (n == k) {
            fail!("a {k}, but the view as {n} is there: {is}");
        }
    }
    // the views are the item itself
    let views: [Option<Result<Toks, String>>; 13] = [
        i.as_struct().map(print),
        i.as_enum().map(print),
        i.as_union().map(print),
        i.as_function().map(print),
        i.as_constant().map(print),
        i.as_type_alias().map(print),
        i.as_use_declaration().map(print),
        i.as_macro().map(print),
        i.as_impl().map(print),
        i.as_trait().map(print),
        i.as_module().map(print),
        i.as_extern_block().map(print),
        i.as_extern_crate().map(print),
    ];
    let whole = print(&i);
    for v in views.iter().flatten() {
        if *v != whole {
            fail!("the view prints as {:?}", v.as_ref().map(|o| show(o)));
        }
    }
    match (&i, &it.kind) {
        (v::Item::Struct(x), Kind::Struct { flds, .. }) => {
            let (names, tys): (Vec<String>, Vec<Toks>) = match flds {
                Flds::Unit => (vec![], vec![]),
                Flds::Tuple(l) => ((0..l.items.len()).map(|i| i.to_string()).collect(), l.items.iter().map(|f| f.ty.clone()).collect()),
                Flds::Named(l) => (l.items.iter().map(|f| f.name.to_string()).collect(), l.items.iter().map(|f| f.ty.clone()).collect()),
            };
            let n: Vec<String> = x.field_names().into_iter().collect();
            if n != names {
                fail!("field_names() gives {n:?}, declared {names:?}");
            }
            let n: Vec<TokenTree> = x.field_tokens().into_iter().collect();
            let ok = n.len() == names.len()
                && n.iter().zip(&names).all(|(t, n)| match t {
                    TokenTree::Ident(i) => matches!(flds, Flds::Named(_)) && i == n,
                    TokenTree::Literal(l) => matches!(flds, Flds::Tuple(_)) && l.to_string() == *n,
                    _ => false,
                });
            if !ok {
                fail!("field_tokens() gives {n:?}, declared {names:?}");
            }
            let n: Vec<Toks> = x.field_types().into_iter().map(obs::ty).collect();
            if n != tys {
                fail!("field_types() gives {:?}", n.iter().map(|t| show(t)).collect::<Vec<_>>());
            }
        }
        (v::Item::Enum(x), Kind::Enum { vars, .. }) => {
            let unit = |v: &Variant| matches!(v.flds, Flds::Unit);
            if x.is_c_enum() != vars.items.iter().all(unit) {
                fail!("is_c_enum() is {}", x.is_c_enum());
            }
            if x.variants.len() != vars.items.len() {
                fail!("{} variants", x.variants.len());
            }
            for (x, v) in x.variants.items().zip(&vars.items) {
                if x.is_empty_variant() != unit(v) {
                    fail!("is_empty_variant() of {} is {}", v.name, x.is_empty_variant());
                }
                let want = match &v.flds {
                    Flds::Tuple(l) if l.items.len() == 1 => Some(l.items[0].clone()),
                    _ => None,
                };
                let got = x.get_single_type().map(obs::tf);
                if got != want {
                    fail!("get_single_type() of {} is {got:?}", v.name);
                }
            }
        }
        _ => {}
    }
    // mutable accessors reach the item itself
    let mut m = it.clone();
    let a = attr_of("added(x)", false);
    let donor = match parse_toks(&lx("#[added(x)] struct D<'d, D: E> ;")) {
        Out::Item(v::Item::Struct(d)) => d,
        _ => return,
    };
    i.attributes_mut().push(donor.attributes[0].clone());
    m.attrs.push(a);
    if let Some(d) = diff(&m, &obs::item(&i).0, cls::ALL) {
        fail!("after attributes_mut().push(): {d}");
    }
    i.attributes_mut().clear();
    m.attrs.clear();
    match (i.generic_params_mut().is_some(), m.gen().map_or(false, |g| g.is_some())) {
        (true, true) => {
            *i.generic_params_mut().unwrap() = donor.generic_params.clone().unwrap();
            let g = Some(obs::glist(donor.generic_params.as_ref().unwrap()));
            match &mut m.kind {
                Kind::Struct { gen, .. } | Kind::Enum { gen, .. } | Kind::Union { gen, .. } | Kind::Trait { gen, .. } | Kind::Impl { gen, .. } => *gen = g,
                Kind::Fn(f) => f.gen = g,
                _ => {}
            }
        }
        (false, false) => {}
        (a, b) => fail!("generic_params_mut() there: {a}, declared: {b}"),
    }
    if let Some(d) = diff(&m, &obs::item(&i).0, cls::ALL) {
        fail!("after edits through attributes_mut() and generic_params_mut(): {d}");
    }
    obs::odd_clear();
    cx.outcome(shape(it));
}
pub fn c18(th: bool) -> Prop {
    let b = bounds(th, [2, 1, 4, 3], [2, 1, 4, 2], [3, 2, 5, 3]);
    let mut v = vec![];
    v.push(space("shapes", 0, move |ch, cx| {
        // all field shapes of up to 4 (5) variants or fields
        let which = ch.free(3);
        let n = ch.free(if th { 6 } else { 5 });
        let trail = ch.free(2) == 1;
        let it = match which {
            0 => {
                let vars = (0..n)
                    .map(|i| {
                        let f = [
                            Flds::Unit,
                            Flds::Tuple(List::new()),
                            Flds::Named(List::new()),
                            Flds::Tuple(l(vec![tfd(lx("A<B, C>"))], i % 2 == 1)),
                            Flds::Tuple(l(vec![tfd(lx("A")), tfd(lx("(B, C)"))], i % 2 == 0)),
                            Flds::Named(l(vec![nfd("x", lx("A"))], i % 2 == 0)),
                        ][ch.free(6)]
                        .clone();
                        let d = [None, Some(lx("1"))][if n < 4 { ch.free(2) } else { i % 2 }].clone();
                        var(["A", "B", "C", "D", "E"][i], f, d)
                    })
                    .collect();
                bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vars, trail) })
            }
            k => {
                let tys = ["A", "(A, B)", "fn() -> C<D, E>", "&'a [u8; 2]"];
                let ty: Vec<&str> = (0..n).map(|_| *ch.all(&tys)).collect();
                let f = if k == 1 {
                    Flds::Tuple(l(ty.iter().map(|t| tfd(lx(t))).collect(), trail))
                } else {
                    Flds::Named(l(ty.iter().enumerate().map(|(i, t)| nfd(["x", "r#type", "union", "a1", "_0"][i], lx(t))).collect(), trail))
                };
                st("S", None, None, f)
            }
        };
        go(cx, &it, false, accessors);
    }));
    v.push(space("names", 0, move |ch, cx| {
        // names are given as they are
        let name = *ch.all(super::part_props::NAMES);
        let other = *ch.all(&["x", "r#type", "union"]);
        let it = match ch.free(9) {
            0 => st(name, None, None, Flds::Unit),
            1 => st("S", None, None, Flds::Named(l(vec![nfd(name, lx("A")), nfd(other, lx("B"))], true))),
            2 => st("S", None, None, Flds::Named(l(vec![nfd(other, lx("A")), nfd(name, lx("B<C>"))], false))),
            3 => st("S", None, None, Flds::Tuple(l(vec![tfd(lx(name)), tfd(lx(other))], false))),
            4 => bare(Kind::Enum { name, gen: None, wh: None, vars: l(vec![var(other, Flds::Unit, None)], false) }),
            5 => bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vec![var(name, Flds::Unit, None), var(other, Flds::Unit, Some(lx("1")))], false) }),
            6 => bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vec![var(name, Flds::Tuple(l(vec![tfd(lx(other))], false)), None)], false) }),
            7 => bare(Kind::Enum { name: "E", gen: None, wh: None, vars: l(vec![var(other, Flds::Tuple(l(vec![tfd(lx(name))], true)), None), var(name, Flds::Named(List::new()), None)], false) }),
            _ => bare(Kind::Mod { unsaf: false, name, body: None }),
        };
        go(cx, &it, false, accessors);
    }));
    v.extend(grammar(KINDS, b, accessors));
    v.extend(special(&[0, 1, 2, 5, 7], 1, 0, accessors));
    v.push(space("locations", 0, move |ch, cx| {
        // name() and field_tokens() give the identifiers written in the source
        let k = ch.free(KINDS.len() + 1);
        let s = *ch.all(if k == 0 { MOD_POOL } else { donors(KINDS[k - 1]) });
        let ts: TokenStream = format!("   {s}").parse().unwrap();
        let t = lx(s);
        cx.input(&t);
        cx.impl_runs += 1;
        if let Out::Item(i) = parse(ts.clone()) {
            let mut idents = vec![];
            fn go(ts: TokenStream, o: &mut Vec<(String, std::ops::Range<usize>)>) {
                for t in ts {
                    match t {
                        TokenTree::Ident(i) => o.push((i.to_string(), i.span().byte_range())),
                        TokenTree::Group(g) => go(g.stream(), o),
                        _ => {}
                    }
                }
            }
            go(ts, &mut idents);
            let known = |i: &Ident| idents.contains(&(i.to_string(), i.span().byte_range()));
            if let Some(n) = i.name() {
                if !known(&n) {
                    cx.fail(&t, format!("name() gives {n} at {:?}", n.span().byte_range()));
                }
            }
            if let v::Item::Struct(x) = &i {
                for f in x.field_tokens() {
                    if let TokenTree::Ident(n) = f {
                        if !known(&n) {
                            cx.fail(&t, format!("field_tokens() gives {n} at {:?}", n.span().byte_range()));
                        }
                    }
                }
            }
        }
        proc_macro2::extra::invalidate_current_thread_spans();
    }));
    v.push(long(&[0, 1, 2, 5, 7], accessors));
    Prop {
        id: "C18",
        spaces: v,
        rule: "declarations of the grammar, all shapes of up to 4 (5) fields or variants, lists up to 300: every accessor must agree with the declaration, and edits through the mutable accessors must reach exactly that part",
    }
}

// ---------------------------------------------------------------- C20

/// Donors of parts, per kind.
fn donors(kind: &str) -> &'static [&'static str] {
    match kind {
        "struct" => &[
            "# [ da ] # [ db ( dc ) ] pub ( super ) struct Dn < 'd , Dt : Db , const Dc : u8 > where Dt : Dw < Dx > , { # [ df ] pub dx : Dy < Dz , Dz > , dw : Dv }",
            "struct Du ;",
            "pub struct Dt < > ( # [ q ] pub Da , Db < Dc > , ) where Dd : De , Df : Dg ;",
            "struct De { }",
        ],
        "enum" => &["# [ da ] pub enum Dn < Dt > where Dt : Du { # [ dv ] Da ( Db , ) = 7 , Dc { dx : Dy } , Dz , }", "enum De { }", "enum Df { Dg = ( 1 ) }"],
        "union" => &["# [ da ] pub union Dn < Dt > where Dt : Du { # [ df ] pub dx : Dy < Dz > , dw : Dv , }", "union De { }"],
        "fn" => &[
            "# [ da ] pub ( super ) default const async unsafe extern \"D\" fn dn < 'd , Dt > ( # [ dp ] & 'd mut self , mut dx : Dy < Dz , Dw > , ) -> Dr < Ds > where Dt : Du { dbody ; }",
            "fn de ( ) ;",
            "fn dg ( dh : Di , dj : Dk ) -> Dl ;",
        ],
        "const" | "static" => &["# [ da ] pub const dn : Dt < Du , Dv > = d1 << d2 ;", "static mut de : Df ;", "static dg : Dh = di ;"],
        "type" => &["# [ da ] pub type Dn : Db < Dc > = Dd < De , Df > ;", "type Dg ;", "type Dh = Di ;", "type Dj : ;"],
        "use" => &["# [ da ] pub use da :: { db , dc } ;", "use :: dd ;"],
        "macro" => &["# [ da ] dm ! { db ; dc }", "macro_rules ! dn ( dd ) ;", "de ! [ ] ;"],
        "impl" => &[
            "# [ da ] unsafe impl < 'd , Dt > Dr < Dt > for Ds < Dt > where Dt : Du { # ! [ di ] fn df ( ) { } # [ dg ] type Dh = Dj ; const dk : Dl = 1 ; }",
            "impl Dm { }",
            "impl < > Dq where { # ! [ dk ] }",
            "impl Dn for Do_ { dp ! { } }",
        ],
        "trait" => &["# [ da ] pub unsafe trait Dn < Dt > : Db < Dc > + 'd where Dt : Du { # ! [ di ] fn df ( ) ; # [ dg ] type Dh ; }", "trait De { }", "trait Df : { }", "trait Dg < > : Dh where { # ! [ dj ] }"],
        "mod" => &["# [ da ] pub unsafe mod dn { # ! [ di ] struct Ds ; # [ dg ] use dh ; }", "mod de ;", "mod df { }", "mod dj { # ! [ dk ] }"],
        "extern block" => &["# [ da ] pub unsafe extern \"D\" { # ! [ di ] static ds : Dt ; # [ dg ] fn dh ( ) ; }", "extern { }", "extern { # ! [ dk ] }"],
        _ => &["# [ da ] pub extern crate dn as db ;", "extern crate de ;"],
    }
}
/// Model and implementation of one edit; false if it does not apply.
#[allow(clippy::too_many_lines)]
fn edit(op: usize, j: usize, i: &mut v::Item, m: &mut It, d: &v::Item, dm: &It) -> bool {
    // common parts
    match op {
        0 => {
            m.attrs = dm.attrs.clone();
            *i.attributes_mut() = d.attributes().clone();
            return true;
        }
        1 => {
            m.attrs.extend(dm.attrs.clone());
            i.attributes_mut().extend(d.attributes().clone());
            return !dm.attrs.is_empty();
        }
        2 => {
            if j >= m.attrs.len() {
                return false;
            }
            m.attrs.remove(j);
            i.attributes_mut().remove(j);
            return true;
        }
        _ => {}
    }
    macro_rules! swap {
        // plain fields: (op, model place, impl place) pairs
        ($o:expr; $( $n:expr => $a:expr, $b:expr; )*) => {
            match $o { $( $n => { $a; $b; true } )* _ => false }
        };
    }
    let named = |l: &mut v::Punctuated<v::NamedField>, ml: &mut List<NF>, dl: &v::Punctuated<v::NamedField>, dml: &List<NF>, op: usize| -> bool {
        let k = j.min(dml.items.len().saturating_sub(1));
        if op == 40 && !dml.items.is_empty() {
            // push
            let c = Some(Punct::new(',', Spacing::Alone));
            l.push(dl[k].0.clone(), if j % 2 == 0 { None } else { c });
            ml.items.push(dml.items[k].clone());
            ml.trail = j % 2 == 1;
            return true;
        }
        if op == 41 && !dml.items.is_empty() && j < ml.items.len() {
            l.insert(j, dl[k].0.clone(), None);
            ml.items.insert(j, dml.items[k].clone());
            return true;
        }
        if dml.items.is_empty() || j >= ml.items.len() {
            return false;
        }
        let (x, mx, dx, dmx) = (&mut l[j].0, &mut ml.items[j], &dl[k].0, &dml.items[k]);
        swap! { op;
            42 => x.name = dx.name.clone(), mx.name = dmx.name;
            43 => x.ty = dx.ty.clone(), mx.ty = dmx.ty.clone();
            44 => x.attributes = dx.attributes.clone(), mx.attrs = dmx.attrs.clone();
            45 => x.vis_marker = dx.vis_marker.clone(), mx.vis = dmx.vis.clone();
            46 => *x = dx.clone(), *mx = dmx.clone();
        }
    };
    let members = |n: usize| j < n;
    match (i, &mut m.kind, d, &dm.kind) {
        (v::Item::Struct(x), Kind::Struct { name, gen, wh, flds, semi }, v::Item::Struct(dx), Kind::Struct { name: dn, gen: dg, wh: dw, flds: df, semi: ds }) => {
            let r = swap! { op;
                3 => x.name = dx.name.clone(), *name = dn;
                4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
                5 => x.generic_params = dx.generic_params.clone(), *gen = dg.clone();
                6 => x.where_clause = dx.where_clause.clone(), *wh = dw.clone();
                7 => (x.fields = dx.fields.clone(), x.tk_semicolon = dx.tk_semicolon.clone()), (*flds = df.clone(), *semi = *ds);
            };
            if r {
                return true;
            }
            match (&mut x.fields, flds, &dx.fields, df) {
                (v::Fields::Named(a), Flds::Named(b), v::Fields::Named(c), Flds::Named(d)) => named(&mut a.fields, b, &c.fields, d, op),
                (v::Fields::Tuple(a), Flds::Tuple(b), v::Fields::Tuple(c), Flds::Tuple(d)) => {
                    if d.items.is_empty() || j >= b.items.len() {
                        return false;
                    }
                    let k = j.min(d.items.len() - 1);
                    let (x, mx, dx, dmx) = (&mut a.fields[j].0, &mut b.items[j], &c.fields[k].0, &d.items[k]);
                    swap! { op;
                        43 => x.ty = dx.ty.clone(), mx.ty = dmx.ty.clone();
                        44 => x.attributes = dx.attributes.clone(), mx.attrs = dmx.attrs.clone();
                        45 => x.vis_marker = dx.vis_marker.clone(), mx.vis = dmx.vis.clone();
                        46 => *x = dx.clone(), *mx = dmx.clone();
                    }
                }
                _ => false,
            }
        }
        (v::Item::Enum(x), Kind::Enum { name, gen, wh, vars }, v::Item::Enum(dx), Kind::Enum { name: dn, gen: dg, wh: dw, vars: dv }) => {
            if swap! { op;
                3 => x.name = dx.name.clone(), *name = dn;
                4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
                5 => x.generic_params = dx.generic_params.clone(), *gen = dg.clone();
                6 => x.where_clause = dx.where_clause.clone(), *wh = dw.clone();
                7 => x.variants = dx.variants.clone(), *vars = dv.clone();
            } {
                return true;
            }
            if op == 8 && !dv.items.is_empty() {
                x.variants.push(dx.variants[0].0.clone(), None);
                vars.items.push(dv.items[0].clone());
                vars.trail = false;
                return true;
            }
            if dv.items.is_empty() || j >= vars.items.len() {
                return false;
            }
            let k = j.min(dv.items.len() - 1);
            let (x, mx, dx, dmx) = (&mut x.variants[j].0, &mut vars.items[j], &dx.variants[k].0, &dv.items[k]);
            swap! { op;
                9 => x.name = dx.name.clone(), mx.name = dmx.name;
                10 => x.fields = dx.fields.clone(), mx.flds = dmx.flds.clone();
                11 => x.value = dx.value.clone(), mx.disc = dmx.disc.clone();
                12 => x.attributes = dx.attributes.clone(), mx.attrs = dmx.attrs.clone();
                13 => *x = dx.clone(), *mx = dmx.clone();
                14 => x.value = None, mx.disc = None;
            }
        }
        (v::Item::Union(x), Kind::Union { name, gen, wh, flds }, v::Item::Union(dx), Kind::Union { name: dn, gen: dg, wh: dw, flds: df }) => {
            if swap! { op;
                3 => x.name = dx.name.clone(), *name = dn;
                4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
                5 => x.generic_params = dx.generic_params.clone(), *gen = dg.clone();
                6 => x.where_clause = dx.where_clause.clone(), *wh = dw.clone();
                7 => x.fields = dx.fields.clone(), *flds = df.clone();
            } {
                return true;
            }
            named(&mut x.fields.fields, flds, &dx.fields.fields, df, op)
        }
        (v::Item::Function(x), Kind::Fn(f), v::Item::Function(dx), Kind::Fn(df)) => {
            if swap! { op;
                3 => x.name = dx.name.clone(), f.name = df.name;
                4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
                5 => x.generic_params = dx.generic_params.clone(), f.gen = df.gen.clone();
                6 => x.where_clause = dx.where_clause.clone(), f.wh = df.wh.clone();
                7 => x.params = dx.params.clone(), f.params = df.params.clone();
                8 => x.qualifiers = dx.qualifiers.clone(), f.quals = df.quals.clone();
                9 => (x.body = dx.body.clone(), x.tk_semicolon = dx.tk_semicolon.clone()), f.body = df.body.clone();
                10 => (x.return_ty = dx.return_ty.clone(), x.tk_return_arrow = dx.tk_return_arrow.clone()), f.ret = df.ret.clone();
            } {
                return true;
            }
            if df.params.items.is_empty() || j >= f.params.items.len() {
                return false;
            }
            let k = j.min(df.params.items.len() - 1);
            if op == 11 {
                x.params[j].0 = dx.params[k].0.clone();
                f.params.items[j] = df.params.items[k].clone();
                return true;
            }
            match (&mut x.params[j].0, &mut f.params.items[j], &dx.params[k].0, &df.params.items[k]) {
                (v::FnParam::Typed(x), Param::Typed { attrs, mutt, name, ty }, v::FnParam::Typed(dx), Param::Typed { attrs: da, mutt: dm, name: dn, ty: dt }) => swap! { op;
                    12 => x.name = dx.name.clone(), *name = dn;
                    13 => x.ty = dx.ty.clone(), *ty = dt.clone();
                    14 => x.attributes = dx.attributes.clone(), *attrs = da.clone();
                    15 => x.tk_mut = dx.tk_mut.clone(), *mutt = *dm;
                },
                (v::FnParam::Receiver(x), Param::Recv { attrs, amp, life, mutt }, v::FnParam::Receiver(dx), Param::Recv { attrs: da, amp: dp, life: dl, mutt: dm }) => swap! { op;
                    12 => (x.tk_ref = dx.tk_ref.clone(), x.lifetime = dx.lifetime.clone()), (*amp = *dp, *life = *dl);
                    14 => x.attributes = dx.attributes.clone(), *attrs = da.clone();
                    15 => x.tk_mut = dx.tk_mut.clone(), *mutt = *dm;
                },
                _ => false,
            }
        }
        (v::Item::Constant(x), Kind::Konst { stat, mutt, name, ty, init }, v::Item::Constant(dx), Kind::Konst { stat: ds, mutt: dmm, name: dn, ty: dt, init: di }) => swap! { op;
            3 => x.name = dx.name.clone(), *name = dn;
            4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
            5 => x.ty = dx.ty.clone(), *ty = dt.clone();
            6 => (x.initializer = dx.initializer.clone(), x.tk_equals = dx.tk_equals.clone()), *init = di.clone();
            7 => (x.tk_const_or_static = dx.tk_const_or_static.clone(), x.tk_mut = dx.tk_mut.clone()), (*stat = *ds, *mutt = *dmm);
        },
        (v::Item::TypeAlias(x), Kind::Alias { name, bound, ty }, v::Item::TypeAlias(dx), Kind::Alias { name: dn, bound: db, ty: dt }) => swap! { op;
            3 => x.name = dx.name.clone(), *name = dn;
            4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
            5 => x.bound = dx.bound.clone(), *bound = db.clone();
            6 => (x.initializer_ty = dx.initializer_ty.clone(), x.tk_equals = dx.tk_equals.clone()), *ty = dt.clone();
        },
        (v::Item::UseDeclaration(x), Kind::Use(t), v::Item::UseDeclaration(dx), Kind::Use(dt)) => swap! { op;
            4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
            5 => x.import_tree = dx.import_tree.clone(), *t = dt.clone();
        },
        (v::Item::Macro(x), Kind::Mac { name, decl, delim, body, semi }, v::Item::Macro(dx), Kind::Mac { name: dn, decl: dd, delim: de, body: db, semi: ds }) => swap! { op;
            3 => x.name = dx.name.clone(), *name = dn;
            5 => x.tk_declared_name = dx.tk_declared_name.clone(), *decl = *dd;
            6 => x.inner_tokens = dx.inner_tokens.clone(), *body = db.clone();
            7 => (x.tk_braces_or_parens = dx.tk_braces_or_parens.clone(), x.tk_semicolon = dx.tk_semicolon.clone()), (*delim = *de, *semi = *ds);
        },
        (v::Item::Impl(x), Kind::Impl { unsaf, gen, tr, ty, wh, inner, items }, v::Item::Impl(dx), Kind::Impl { unsaf: du, gen: dg, tr: dt, ty: ds, wh: dw, inner: di, items: dit }) => {
            if swap! { op;
                5 => x.impl_generic_params = dx.impl_generic_params.clone(), *gen = dg.clone();
                6 => x.where_clause = dx.where_clause.clone(), *wh = dw.clone();
                7 => x.self_ty = dx.self_ty.clone(), *ty = ds.clone();
                8 => (x.trait_ty = dx.trait_ty.clone(), x.tk_for = dx.tk_for.clone()), *tr = dt.clone();
                9 => x.body_items = dx.body_items.clone(), *items = dit.clone();
                10 => x.inner_attributes = dx.inner_attributes.clone(), *inner = di.clone();
                11 => x.tk_unsafe = dx.tk_unsafe.clone(), *unsaf = *du;
                12 => x.body_items.extend(dx.body_items.clone()), items.extend(dit.clone());
            } {
                return true;
            }
            if !members(items.len()) {
                return false;
            }
            match op {
                13 => {
                    x.body_items.remove(j);
                    items.remove(j);
                    true
                }
                14 if !dit.is_empty() => {
                    x.body_items[j] = dx.body_items[j % dit.len()].clone();
                    items[j] = dit[j % dit.len()].clone();
                    true
                }
                _ => false,
            }
        }
        (
            v::Item::Trait(x),
            Kind::Trait { unsaf, name, gen, bound, wh, inner, items },
            v::Item::Trait(dx),
            Kind::Trait { unsaf: du, name: dn, gen: dg, bound: db, wh: dw, inner: di, items: dit },
        ) => {
            if swap! { op;
                3 => x.name = dx.name.clone(), *name = dn;
                4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
                5 => x.generic_params = dx.generic_params.clone(), *gen = dg.clone();
                6 => x.where_clause = dx.where_clause.clone(), *wh = dw.clone();
                7 => x.bound = dx.bound.clone(), *bound = db.clone();
                9 => x.body_items = dx.body_items.clone(), *items = dit.clone();
                10 => x.inner_attributes = dx.inner_attributes.clone(), *inner = di.clone();
                11 => x.tk_unsafe = dx.tk_unsafe.clone(), *unsaf = *du;
                12 => x.body_items.extend(dx.body_items.clone()), items.extend(dit.clone());
            } {
                return true;
            }
            if op == 13 && members(items.len()) {
                x.body_items.remove(j);
                items.remove(j);
                return true;
            }
            false
        }
        (v::Item::Module(x), Kind::Mod { unsaf, name, body }, v::Item::Module(dx), Kind::Mod { unsaf: du, name: dn, body: db }) => {
            if swap! { op;
                3 => x.name = dx.name.clone(), *name = dn;
                4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
                5 => x.tk_unsafe = dx.tk_unsafe.clone(), *unsaf = *du;
                6 => (x.tk_braces = dx.tk_braces.clone(), x.tk_semicolon = dx.tk_semicolon.clone(), x.members = dx.members.clone(), x.inner_attributes = dx.inner_attributes.clone()), *body = db.clone();
            } {
                return true;
            }
            if let (Some((inner, items)), Some((di, dit))) = (body, db) {
                if swap! { op;
                    9 => x.members = dx.members.clone(), *items = dit.clone();
                    10 => x.inner_attributes = dx.inner_attributes.clone(), *inner = di.clone();
                    12 => x.members.extend(dx.members.clone()), items.extend(dit.clone());
                } {
                    return true;
                }
                if op == 13 && members(items.len()) {
                    x.members.remove(j);
                    items.remove(j);
                    return true;
                }
            }
            false
        }
        (v::Item::ExternBlock(x), Kind::ExtB { unsaf, abi, inner, items }, v::Item::ExternBlock(dx), Kind::ExtB { unsaf: du, abi: da, inner: di, items: dit }) => {
            if swap! { op;
                4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
                5 => x.tk_unsafe = dx.tk_unsafe.clone(), *unsaf = *du;
                6 => x.extern_abi = dx.extern_abi.clone(), *abi = *da;
                9 => x.body_items = dx.body_items.clone(), *items = dit.clone();
                10 => x.inner_attributes = dx.inner_attributes.clone(), *inner = di.clone();
                12 => x.body_items.extend(dx.body_items.clone()), items.extend(dit.clone());
            } {
                return true;
            }
            if op == 13 && members(items.len()) {
                x.body_items.remove(j);
                items.remove(j);
                return true;
            }
            false
        }
        (v::Item::ExternCrate(x), Kind::ExtC { name, alias }, v::Item::ExternCrate(dx), Kind::ExtC { name: dn, alias: da }) => swap! { op;
            3 => x.name = dx.name.clone(), *name = dn;
            4 => x.vis_marker = dx.vis_marker.clone(), m.vis = dm.vis.clone();
            5 => (x.alias = dx.alias.clone(), x.tk_as = dx.tk_as.clone(), x.tk_underscore = dx.tk_underscore.clone()), *alias = *da;
        },
        _ => false,
    }
}
const EDITS: usize = 47;
fn edits(it: &It, t: &Toks, cx: &mut Ctx, ch: &mut Ch, n: usize) {
    let mut i = match accept_quiet(cx, t) {
        Some(i) => i,
        None => return,
    };
    let ds = donors(it.kind_name());
    let mut m = it.clone();
    let before = i.clone();
    match print(&before) {
        Ok(o) if exact(&o, t) => {}
        o => return cx.fail(t, format!("a clone prints as {:?}", o.map(|o| show(&o)))),
    }
    let mut hist = t.clone();
    for _ in 0..n {
        let src = *ch.all(ds);
        let d = match parse_toks(&lx(src)) {
            Out::Item(d) => d,
            o => return cx.fail_s(src.into(), format!("not accepted: {}", o.name())),
        };
        let dm = obs::item(&d).0;
        let op = ch.free(EDITS);
        let j = if (2..3).contains(&op) || op > 7 { ch.free(3) } else { 0 };
        if !edit(op, j, &mut i, &mut m, &d, &dm) {
            return;
        }
        hist.extend([Tok::I("EDIT"), Tok::L(intern(&op.to_string())), Tok::L(intern(&j.to_string()))]);
        hist.extend(lx(src));
        // the donor is not affected
        match print(&d) {
            Ok(o) if o == lx(src) => {}
            o => return cx.fail(&hist, format!("the item a part was taken from prints as {:?}", o.map(|o| show(&o)))),
        }
    }
    cx.input(&hist);
    cx.impl_runs += 1;
    let want = m.toks();
    match print(&i) {
        Ok(o) if o == want => {}
        o => return cx.fail(&hist, format!("prints as {:?}, expected `{}`", o.map(|o| show(&o)), show(&want))),
    }
    match print(&i.clone()) {
        Ok(o) if o == want => {}
        o => return cx.fail(&hist, format!("clone of the edited item prints as {:?}", o.map(|o| show(&o)))),
    }
    match print(&before) {
        Ok(o) if exact(&o, t) => {}
        o => return cx.fail(&hist, format!("the clone made before the edits prints as {:?}", o.map(|o| show(&o)))),
    }
    if let Ok(g) = guard(|| obs::item(&i).0) {
        if let Some(d) = diff(&m, &g, cls::ALL) {
            return cx.fail(&hist, format!("after the edits: {d}"));
        }
    }
    cx.outcome(xhash(&want));
}
pub fn c20(th: bool) -> Prop {
    let mut v = vec![];
    for (name, rich, small, k, n) in [
        ("one edit/min/full", false, false, 1, 1),
        ("one edit/rich/full", true, false, 1, 1),
        ("one edit/min/small", false, true, if th { 3 } else { 2 }, 1),
        ("one edit/rich/small", true, true, if th { 2 } else { 1 }, 1),
        ("two edits/min", false, true, if th { 1 } else { 0 }, 2),
        ("two edits/rich", true, true, if th { 1 } else { 0 }, 2),
    ] {
        let sp = space(name, k, move |ch, cx| {
            let kind = *ch.all(KINDS);
            let it = crate::gen::item(ch, kind, Cx::Top, 2);
            edits(&it, &it.toks(), cx, ch, n);
        });
        let sp = if rich { sp.rich() } else { sp };
        v.push(if small { sp.small() } else { sp });
    }
    v.push(space("donors edited by donors", 0, move |ch, cx| {
        let kind = *ch.all(KINDS);
        let kind = match kind {
            "extern" => "extern block",
            "crate" => "extern crate",
            k => k,
        };
        let t = lx(ch.all(donors(kind)));
        let it = match parse_toks(&t) {
            Out::Item(i) => obs::item(&i).0,
            _ => return,
        };
        edits(&it, &t, cx, ch, if th { 3 } else { 2 });
    }));
    // builders keep everything else too
    v.push(space("struct shapes", 0, move |ch, cx| {
        let shapes = |i: usize| match i {
            0 => Flds::Unit,
            1 => Flds::Tuple(List::new()),
            2 => Flds::Tuple(l(vec![tfd(lx("A")), TF { attrs: vec![attr_of("a", false)], vis: lx("pub"), ty: lx("B<C, D>") }], true)),
            3 => Flds::Named(List::new()),
            _ => Flds::Named(l(vec![nfd("x", lx("A<B, C>")), nfd("y", lx("D"))], false)),
        };
        let (a, b) = (ch.free(5), ch.free(5));
        let wh = |k: usize| start_whs()[k].clone();
        let (w, g) = (ch.free(6), ch.free(11));
        let from = st("S", start_gens()[g].clone(), wh(w), shapes(a));
        let to = st("R", None, None, shapes(b));
        let (x, y) = match (accept_quiet(cx, &from.toks()), accept_quiet(cx, &to.toks())) {
            (Some(v::Item::Struct(x)), Some(v::Item::Struct(y))) => (x, y),
            _ => return,
        };
        let before = v::Item::Struct(x.clone());
        let mut x = x;
        x.fields = y.fields.clone();
        let mut m = from.clone();
        if let Kind::Struct { flds, semi, .. } = &mut m.kind {
            *flds = shapes(b);
            if b >= 3 {
                *semi = false;
            }
        }
        let t = from.toks();
        let mut h = t.clone();
        h.push(Tok::I("FIELDS"));
        h.extend(to.toks());
        cx.input(&h);
        cx.impl_runs += 1;
        match print(&x) {
            Ok(o) if o == m.toks() => {
                if b >= 3 {
                    match parse_toks(&o) {
                        Out::Item(z) => {
                            if let Some(d) = diff(&m, &obs::item(&z).0, cls::ALL) {
                                cx.fail(&h, format!("printed and parsed again: {d}"));
                            }
                        }
                        z => cx.fail(&h, format!("`{}` does not parse: {}", show(&o), z.name())),
                    }
                }
            }
            o => cx.fail(&h, format!("prints as {:?}, expected `{}`", o.map(|o| show(&o)), show(&m.toks()))),
        }
        match print(&before) {
            Ok(o) if exact(&o, &t) => {}
            o => cx.fail(&h, format!("the clone made before prints as {:?}", o.map(|o| show(&o)))),
        }
        cx.outcome(xhash(&m.toks()));
    }));
    Prop {
        id: "C20",
        spaces: v,
        rule: "every declaration of the grammar with every single part replaced by that of every donor, all pairs of edits, all changes of a struct's field shape x where clause x parameters: printing must give the declaration with exactly those parts replaced, and clones and donors must be unaffected",
    }
}
