//! C02, C10, C12, C16, C19: locations, consumption, rejection, paths, spacing.
use super::parse_props::*;
use crate::common::*;
use crate::explore::*;
use crate::gen::{self, *};
use crate::model::*;
use crate::obs;
use crate::strings;
use crate::tok::*;
use crate::Prop;
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::ops::Range;

// ---------------------------------------------------------------- C02

type Loc = (String, Range<usize>);
/// Every token with its location, groups before their contents.
pub fn locs(ts: TokenStream, o: &mut Vec<Loc>) {
    for t in ts {
        match &t {
            TokenTree::Group(g) => {
                let d = D::of(g.delimiter());
                let mut r = g.span_open().byte_range();
                r.end = g.span_close().byte_range().end;
                o.push((format!("{d:?}"), g.span().byte_range()));
                o.push((format!("delimiters {d:?}"), r));
                locs(g.stream(), o);
            }
            t => o.push((t.to_string(), t.span().byte_range())),
        }
    }
}
fn hull(ts: TokenStream) -> Option<Range<usize>> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let (a, b) = (v.first()?.span().byte_range(), v.last()?.span().byte_range());
    Some(a.start..b.end)
}
/// Whether the first and the last token are in one file, so that there is a span from one to the other.
fn joins(ts: TokenStream) -> bool {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    match (v.first(), v.last()) {
        (Some(a), Some(b)) => a.span().join(b.span()).is_some(),
        _ => false,
    }
}
struct Spans<'a> {
    bad: &'a mut Option<String>,
    n: u64,
}
impl Spans<'_> {
    fn at(&mut self, what: &str, span: Span, t: &impl ToTokens) {
        let ts = t.to_token_stream();
        if let Some(h) = hull(ts.clone()) {
            self.n += 1;
            let got = span.byte_range();
            let wrong = if joins(ts) { got != h } else { got.start != h.start };
            if wrong && h.start < h.end && self.bad.is_none() {
                *self.bad = Some(format!("span() of {what} `{}` is {got:?}, its tokens lie at {h:?}", t.to_token_stream()));
            }
        }
    }
    fn attrs(&mut self, a: &[venial::Attribute]) {
        for a in a {
            self.at("attribute", a.span(), a);
            self.at("attribute value", a.value.span(), &a.value);
        }
    }
    fn vis(&mut self, v: &Option<venial::VisMarker>) {
        if let Some(v) = v {
            self.at("visibility", v.span(), v);
        }
    }
    fn ty(&mut self, t: &venial::TypeExpr) {
        self.at("type", t.span(), t);
        if let (Ok(Some(p)), None) = (guard(|| t.as_path()), &self.bad) {
            let (mut a, mut b) = (vec![], vec![]);
            locs(p.to_token_stream(), &mut a);
            locs(t.to_token_stream(), &mut b);
            if a != b {
                *self.bad = Some(format!("the path read from `{}` prints its tokens at {a:?}", t.to_token_stream()));
            }
        }
    }
    fn constant(&mut self, c: &venial::Constant) {
        self.attrs(&c.attributes);
        self.vis(&c.vis_marker);
        self.ty(&c.ty);
    }
    fn alias(&mut self, c: &venial::TypeAlias) {
        self.attrs(&c.attributes);
        self.vis(&c.vis_marker);
        if let Some(t) = &c.initializer_ty {
            self.ty(t);
        }
        if let Some(b) = &c.bound {
            self.bound(b);
        }
    }
    fn impl_members(&mut self, v: &[venial::ImplMember]) {
        use venial::ImplMember as M;
        for m in v {
            match m {
                M::AssocFunction(f) => self.func(f),
                M::AssocConstant(c) => self.constant(c),
                M::AssocType(c) => self.alias(c),
                M::Macro(c) => self.attrs(&c.attributes),
                _ => {}
            }
        }
    }
    fn bound(&mut self, b: &venial::GenericBound) {
        self.at("bound", b.span(), b);
    }
    fn gen(&mut self, g: &Option<venial::GenericParamList>) {
        if let Some(g) = g {
            self.at("generic parameters", g.span(), g);
            for p in g.params.items() {
                self.at("generic parameter", p.span(), p);
                if let Some(b) = &p.bound {
                    self.bound(b);
                }
            }
        }
    }
    fn wh(&mut self, w: &Option<venial::WhereClause>) {
        if let Some(w) = w {
            self.at("where clause", w.span(), w);
            for p in w.items.items() {
                self.at("predicate", p.span(), p);
                self.bound(&p.bound);
            }
        }
    }
    fn named(&mut self, f: &venial::NamedFields) {
        for f in f.fields.items() {
            self.at("field", f.span(), f);
            self.attrs(&f.attributes);
            self.vis(&f.vis_marker);
            self.ty(&f.ty);
        }
    }
    fn fields(&mut self, f: &venial::Fields) {
        self.at("fields", f.span(), f);
        match f {
            venial::Fields::Unit => {}
            venial::Fields::Tuple(l) => {
                for f in l.fields.items() {
                    self.at("tuple field", f.span(), f);
                    self.attrs(&f.attributes);
                    self.vis(&f.vis_marker);
                    self.ty(&f.ty);
                }
            }
            venial::Fields::Named(l) => self.named(l),
        }
    }
    fn func(&mut self, f: &venial::Function) {
        self.at("function", f.span(), f);
        self.attrs(&f.attributes);
        self.vis(&f.vis_marker);
        self.gen(&f.generic_params);
        self.wh(&f.where_clause);
        if let Some(t) = &f.return_ty {
            self.ty(t);
        }
        for p in f.params.items() {
            match p {
                venial::FnParam::Receiver(r) => self.attrs(&r.attributes),
                venial::FnParam::Typed(t) => {
                    self.attrs(&t.attributes);
                    self.ty(&t.ty);
                }
            }
        }
    }
    fn item(&mut self, i: &venial::Item) {
        use venial::{Item as I, TraitMember as T};
        self.at("item", i.span(), i);
        self.attrs(i.attributes());
        match i {
            I::Struct(x) => {
                self.at("struct", x.span(), x);
                self.vis(&x.vis_marker);
                self.gen(&x.generic_params);
                self.wh(&x.where_clause);
                self.fields(&x.fields);
            }
            I::Enum(x) => {
                self.at("enum", x.span(), x);
                self.vis(&x.vis_marker);
                self.gen(&x.generic_params);
                self.wh(&x.where_clause);
                for v in x.variants.items() {
                    self.at("variant", v.span(), v);
                    self.attrs(&v.attributes);
                    self.vis(&v.vis_marker);
                    self.fields(&v.fields);
                    if let Some(d) = &v.value {
                        self.at("discriminant", d.span(), d);
                    }
                }
            }
            I::Union(x) => {
                self.at("union", x.span(), x);
                self.vis(&x.vis_marker);
                self.gen(&x.generic_params);
                self.wh(&x.where_clause);
                self.named(&x.fields);
            }
            I::Function(x) => self.func(x),
            I::Constant(x) => self.constant(x),
            I::TypeAlias(x) => self.alias(x),
            I::UseDeclaration(x) => {
                self.vis(&x.vis_marker);
                self.ty(&x.import_tree)
            }
            I::Impl(x) => {
                self.gen(&x.impl_generic_params);
                self.wh(&x.where_clause);
                self.ty(&x.self_ty);
                if let Some(t) = &x.trait_ty {
                    self.ty(t);
                }
                self.attrs(&x.inner_attributes);
                self.impl_members(&x.body_items);
            }
            I::Trait(x) => {
                self.vis(&x.vis_marker);
                self.gen(&x.generic_params);
                self.wh(&x.where_clause);
                if let Some(b) = &x.bound {
                    self.bound(b);
                }
                self.attrs(&x.inner_attributes);
                for m in &x.body_items {
                    match m {
                        T::AssocFunction(f) => self.func(f),
                        T::AssocConstant(c) => self.constant(c),
                        T::AssocType(c) => self.alias(c),
                        T::Macro(c) => self.attrs(&c.attributes),
                        _ => {}
                    }
                }
            }
            I::Module(x) => {
                self.vis(&x.vis_marker);
                self.attrs(&x.inner_attributes);
                for m in &x.members {
                    self.item(m);
                }
            }
            I::ExternBlock(x) => {
                self.vis(&x.vis_marker);
                self.attrs(&x.inner_attributes);
                self.impl_members(&x.body_items);
            }
            _ => {}
        }
    }
}

fn located(_it: &It, t: &Toks, cx: &mut Ctx) {
    // leading padding, so that no token lies where the call site does
    let text = format!("      {}", show(t));
    match text.parse() {
        Ok(ts) => located_stream(t, ts, true, cx),
        Err(_) => cx.skipped += 1,
    }
    proc_macro2::extra::invalidate_current_thread_spans();
}

/// The tokens that are not at the call site.
fn placed(t: &impl ToTokens) -> Vec<Loc> {
    let mut v = vec![];
    locs(t.to_token_stream(), &mut v);
    v.retain(|l| l.1.end > 0);
    v
}
fn names(t: &venial::GenericParamList) -> Vec<Loc> {
    let mut v = vec![];
    for p in t.params.items() {
        if p.is_lifetime() {
            v.extend(placed(&p.tk_prefix));
        }
        v.extend(placed(&p.name));
    }
    v
}
fn words(t: &impl ToTokens) -> Vec<Loc> {
    let mut v = placed(t);
    v.retain(|l| !matches!(l.0.as_str(), "<" | ">" | ","));
    v
}
/// What is derived from a declaration keeps the locations of the tokens it takes over.
fn derived(i: &venial::Item, want: &[Loc]) -> Option<String> {
    macro_rules! go {
        ($x:expr) => {{
            let x = $x;
            let y = x
                .clone()
                .with_param(venial::GenericParam::lifetime("zq"))
                .with_param(venial::GenericParam::const_param("ZC", to_trees(&lx("u8"))))
                .with_param(venial::GenericParam::bounded_ty("ZT", to_trees(&lx("Copy"))))
                .with_where_predicate(venial::WhereClausePredicate::parse(to_stream(&lx("ZT: Sized"))));
            if placed(&y) != want {
                return Some(format!("after adding parameters and a predicate the tokens lie at {:?}", placed(&y)));
            }
            let d = placed(&x.create_derive_where_clause(to_stream(&lx("Tr"))));
            if !d.starts_with(&placed(&x.where_clause)) {
                return Some(format!("the predicates of the derived where clause lie at {d:?}"));
            }
            &x.generic_params
        }};
    }
    use venial::Item as I;
    let g = match i {
        I::Struct(x) => go!(x),
        I::Enum(x) => go!(x),
        I::Union(x) => go!(x),
        I::Function(x) => &x.generic_params,
        I::Trait(x) => &x.generic_params,
        I::Impl(x) => &x.impl_generic_params,
        _ => return None,
    };
    if let Some(g) = g {
        let a = g.as_inline_args();
        let _ = a.span();
        for v in [words(&a), words(&a.to_owned_args())] {
            if v != names(g) {
                return Some(format!("the inline arguments lie at {v:?}, the parameters at {:?}", names(g)));
            }
        }
    }
    None
}

fn located_stream(t: &Toks, ts: TokenStream, unit: bool, cx: &mut Ctx) {
    let mut want = vec![];
    locs(ts.clone(), &mut want);
    cx.impl_runs += 1;
    if let Out::Item(i) = parse(ts.clone()) {
        let r = guard(|| {
            let mut got = vec![];
            locs(i.to_token_stream(), &mut got);
            let mut cl = vec![];
            locs(i.clone().into_token_stream(), &mut cl);
            let mut bad = None;
            let mut s = Spans { bad: &mut bad, n: 0 };
            s.item(&i);
            let n = s.n;
            if bad.is_none() && unit {
                let h = hull(ts.clone()).unwrap_or(0..0);
                if i.span().byte_range() != h {
                    bad = Some(format!("span() of the item is {:?}, it lies at {h:?}", i.span().byte_range()));
                }
                bad = bad.or_else(|| derived(&i, &want));
            }
            (got, cl, bad, n)
        });
        match r {
            Err(m) => cx.fail(t, format!("printing or span() panicked: {m}")),
            Ok((got, cl, bad, n)) => {
                if got != want {
                    let k = (0..got.len().min(want.len())).find(|k| got[*k] != want[*k]);
                    let e = (String::new(), 0..0);
                    let k = k.unwrap_or(got.len().min(want.len()));
                    cx.fail(t, format!("token written {:?} is printed {:?}", want.get(k).unwrap_or(&e), got.get(k).unwrap_or(&e)));
                } else if cl != got {
                    cx.fail(t, "a clone prints other locations");
                }
                if let Some(b) = bad {
                    cx.fail(t, b);
                }
                cx.outcome(n << 32 | want.len() as u64);
            }
        }
    } else {
        cx.skipped += 1;
    }
}

/// Tokens from two files (or one, backwards): what a macro gets from another macro.
const ORIGINS: usize = 5;
fn mixed(t: &Toks, how: usize, cx: &mut Ctx) {
    fn count(ts: TokenStream) -> usize {
        ts.into_iter().map(|t| if let TokenTree::Group(g) = &t { 1 + count(g.stream()) } else { 1 }).sum()
    }
    fn go(ts: TokenStream, n: &mut usize, f: &dyn Fn(usize) -> Span) -> TokenStream {
        ts.into_iter()
            .map(|t| {
                let sp = f(*n);
                *n += 1;
                let mut t = match t {
                    TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), n, f))),
                    t => t,
                };
                t.set_span(sp);
                t
            })
            .collect()
    }
    let ts = to_stream(t);
    let n = count(ts.clone());
    let file = |pad: usize| -> Vec<Span> {
        let mut s = " ".repeat(pad);
        for _ in 0..n {
            s.push_str("xy ");
        }
        s.parse::<TokenStream>().unwrap().into_iter().map(|t| t.span()).collect()
    };
    let (a, b) = (file(6), file(5 * n + 50));
    let place = |k: usize| match how {
        0 => [a[k], b[k]][k % 2],
        1 => a[n - 1 - k],
        2 => [a[k], b[k]][(k > 0) as usize],
        3 => [a[k], b[k]][(k + 1 == n) as usize],
        _ => [a[k], Span::call_site()][k % 2],
    };
    let ts = go(ts, &mut 0, &place);
    located_stream(t, ts, false, cx);
    proc_macro2::extra::invalidate_current_thread_spans();
}
pub fn c02(th: bool) -> Prop {
    let b = if th {
        Bounds { full: 2, full_rich: 2, small: 4, small_rich: 3 }
    } else {
        Bounds { full: 2, full_rich: 1, small: 4, small_rich: 2 }
    };
    let mut v = grammar(KINDS, b, located);
    v.push(long(ALL_LONG, located));
    v.push(type_space(located, 1));
    v.push(crate::props::parse_props::scaled_to(&[1, 2, 3, 5, 8, 16, 17, 33], located));
    for (name, k, rich) in [("origins/min", if th { 2 } else { 1 }, false), ("origins/rich", 1, true)] {
        let s = space(name, k, move |ch, cx| {
            let kind = *ch.all(KINDS);
            let w = *ch.all(wraps(kind));
            let how = ch.free(ORIGINS);
            let it = wrap(gen::item(ch, kind, cx_of(w), 2), w);
            let t = it.toks();
            cx.input(&[&t[..], &[id(intern(&how.to_string()))]].concat());
            mixed(&t, how, cx);
        });
        v.push(if rich { s.rich() } else { s });
    }
    v.push(space("strings", 0, move |ch, cx| {
        let t = strings::template(ch, if th { 3 } else { 2 }, strings::UNITS_S, strings::TEMPLATES);
        cx.input(&t);
        located(&bare(Kind::Use(vec![])), &t, cx);
    }));
    Prop {
        id: "C02",
        spaces: v,
        rule: "declarations from the grammar, long lists, all types and bounds in all positions and all short token strings in templates, lexed from text so that every token has its own location, or put together from two files (alternating, backwards, only the first or last token, half of them at the call site); every printed token, group and delimiter must lie where it was written, and span() of the item and of every part must be the hull of its tokens",
    }
}

// ---------------------------------------------------------------- C10

pub enum Cons {
    Item(venial::Item, Toks),
    No(String),
}
pub fn consume(t: &[Tok]) -> Cons {
    let mut it = to_stream(t).into_iter().peekable();
    match guard(|| venial::consume_item(&mut it)) {
        Ok(Ok(i)) => Cons::Item(i, it.map(|t| tok(&t)).collect()),
        Ok(Err(e)) => Cons::No(format!("error value `{e}`")),
        Err(m) => Cons::No(format!("panic `{m}`")),
    }
}
/// Any stream: what is consumed and what is left make up the input, and
/// whole-stream parsing agrees.
fn any_consume(t: &Toks, cx: &mut Ctx) {
    cx.input(t);
    cx.impl_runs += 2;
    let whole = parse_toks(t);
    match consume(t) {
        Cons::Item(i, rest) => {
            let mut o = match print(&i) {
                Ok(o) => o,
                Err(m) => return cx.fail(t, format!("printing panicked: {m}")),
            };
            let n = o.len();
            o.extend(rest.iter().cloned());
            if !exact(&o, t) {
                cx.fail(t, format!("consumed `{}`, left `{}`", show(&o[..n]), show(&rest)));
            }
            match (&whole, rest.is_empty()) {
                (Out::Item(w), true) => {
                    if obs::item(w).0 != obs::item(&i).0 {
                        cx.fail(t, "consuming and parsing report different items");
                    }
                }
                (Out::Item(_), false) => cx.fail(t, format!("parsed as a whole, but consuming leaves `{}`", show(&rest))),
                (o, true) => cx.fail(t, format!("consumed completely, but parsing gives {}", o.name())),
                _ => {}
            }
            cx.outcome(xhash(&rest) ^ n as u64);
        }
        Cons::No(m) => {
            cx.rejected += 1;
            if let Out::Item(_) = whole {
                cx.fail(t, format!("parsed as a whole, but not consumed: {m}"));
            }
        }
    }
}
/// `;` after these could be taken as their own.
fn open_ended(it: &It) -> bool {
    matches!(&it.kind, Kind::Struct { semi: false, flds: Flds::Unit | Flds::Tuple(_), .. })
}
fn consume_exact(it: &It, t: &Toks, tail: &Toks, cx: &mut Ctx) {
    let mut all = t.clone();
    all.extend(tail.iter().cloned());
    cx.input(&all);
    cx.impl_runs += 1;
    match consume(&all) {
        Cons::Item(i, rest) => {
            match print(&i) {
                Ok(o) if exact(&o, t) && exact(&rest, tail) => {}
                Ok(o) => cx.fail(&all, format!("first item is `{}`; consumed `{}`, left `{}`", show(t), show(&o), show(&rest))),
                Err(m) => cx.fail(&all, format!("printing panicked: {m}")),
            }
            if let Some(d) = diff(it, &obs::item(&i).0, cls::ALL) {
                cx.fail(&all, format!("consumed item differs: {d}"));
            }
            cx.outcome(xhash(&all));
        }
        Cons::No(m) => cx.fail(&all, format!("first item `{}` not consumed: {m}", show(t))),
    }
}
pub fn c10(th: bool) -> Prop {
    let mut v = vec![];
    // all sequences of declarations
    v.push(space("sequences", 0, move |ch, cx| {
        let n = ch.free(if th { 5 } else { 4 });
        let tight = ch.free(2) == 1;
        let its: Vec<Toks> = (0..n)
            .map(|_| {
                let mut t = lx(ch.all(MOD_POOL));
                if tight {
                    tighten(&mut t);
                }
                t
            })
            .collect();
        // the iterator may have been advanced and peeked at before
        let used = ch.free(2) == 1;
        let all: Toks = its.concat();
        cx.input(&all);
        cx.impl_runs += n as u64;
        let mut it = if used {
            let mut pre = lx("x : { }");
            pre.extend(all.iter().cloned());
            let mut it = to_stream(&pre).into_iter().peekable();
            it.by_ref().take(3).count();
            it
        } else {
            to_stream(&all).into_iter().peekable()
        };
        for (k, w) in its.iter().enumerate() {
            if used {
                it.peek();
            }
            match guard(|| venial::consume_item(&mut it)) {
                Ok(Ok(i)) => {
                    let alone = match parse_toks(w) {
                        Out::Item(x) => obs::item(&x).0,
                        o => return cx.fail(w, format!("not parsed alone: {}", o.name())),
                    };
                    match print(&i) {
                        Ok(o) if exact(&o, w) => {}
                        o => return cx.fail(&all, format!("item {k} is `{}`, consumed {:?}", show(w), o.map(|o| show(&o)))),
                    }
                    if alone != obs::item(&i).0 {
                        return cx.fail(&all, format!("item {k} `{}` differs from parsing it alone", show(w)));
                    }
                }
                Ok(Err(e)) => return cx.fail(&all, format!("item {k} `{}` not consumed: {e}", show(w))),
                Err(m) => return cx.fail(&all, format!("item {k} `{}` not consumed: {m}", show(w))),
            }
        }
        let rest: Toks = it.map(|t| tok(&t)).collect();
        if !rest.is_empty() {
            cx.fail(&all, format!("after {n} items `{}` is left", show(&rest)));
        }
        cx.outcome(xhash(&all));
    }));
    // long sequences
    v.push(space("long sequences", 0, move |ch, cx| {
        let n = *ch.all(LENS);
        let step = 1 + ch.free(5);
        let first = ch.free(MOD_POOL.len());
        if n > 40 && first % 8 != 0 {
            return;
        }
        let its: Vec<Toks> = (0..n).map(|i| lx(MOD_POOL[(first + i * step) % MOD_POOL.len()])).collect();
        let all: Toks = its.concat();
        cx.input(&all);
        cx.impl_runs += n as u64;
        let mut it = to_stream(&all).into_iter().peekable();
        for (k, w) in its.iter().enumerate() {
            match guard(|| venial::consume_item(&mut it)) {
                Ok(Ok(i)) => match print(&i) {
                    Ok(o) if exact(&o, w) => {}
                    o => return cx.fail(&all, format!("item {k} is `{}`, consumed {:?}", show(w), o.map(|o| show(&o)))),
                },
                Ok(Err(e)) => return cx.fail(&all, format!("item {k} `{}` not consumed: {e}", show(w))),
                Err(m) => return cx.fail(&all, format!("item {k} `{}` not consumed: {m}", show(w))),
            }
        }
        let rest: Toks = it.map(|t| tok(&t)).collect();
        if !rest.is_empty() {
            cx.fail(&all, format!("after {n} items `{}` is left", show(&rest)));
        }
        cx.outcome(xhash(&all));
    }));
    // every declaration, followed by anything
    const TAILS: &[&str] = &[
        "", "A", ",", ";", ":", "::", "=", "<", ">", "->", "()", "{}", "[]", "#", "#[a]", "!", "&", "'a", "1", "struct S ;", "fn f() {}",
        "where", "for", "pub", "pub(crate) x", "crate", "unsafe", "const", "async", "default", "extern", "extern crate a ;", "union",
        "as b", "; struct S ;", "= 1 ;", "where T : A { }", ": A { }", "< T >", "-> A { }", "impl A { }", "#![a]", "m ! { }", "! ( ) ;", "mut",
        "⟦A⟧", ". . .", "type", "{ } { }", "\"C\"", "use a ; use b ;",
    ];
    for (rich, small, k) in [(false, false, if th { 2 } else { 1 }), (true, false, 1), (false, true, if th { 3 } else { 2 })] {
        let sp = space(&format!("tails/{}{}", if rich { "rich" } else { "min" }, if small { "/small" } else { "" }), k, move |ch, cx| {
            let kind = *ch.all(KINDS);
            let tail = lx(ch.all(TAILS));
            let it = gen::item(ch, kind, Cx::Top, 2);
            if matches!(tail.first(), Some(Tok::P(';', _))) && open_ended(&it) {
                return;
            }
            consume_exact(&it, &it.toks(), &tail, cx);
        });
        let sp = if rich { sp.rich() } else { sp };
        v.push(if small { sp.small() } else { sp });
    }
    // a declaration followed by all short strings
    v.push(space("tails/strings", 0, move |ch, cx| {
        let t = lx(ch.all(MOD_POOL));
        let n = ch.free(if th { 4 } else { 3 });
        let mut tail = vec![];
        for _ in 0..n {
            tail.extend(lx(ch.all(strings::UNITS_S)));
        }
        let it = match parse_toks(&t) {
            Out::Item(i) => obs::item(&i).0,
            o => return cx.fail(&t, format!("not accepted: {}", o.name())),
        };
        if matches!(tail.first(), Some(Tok::P(';', _))) && open_ended(&it) {
            return;
        }
        consume_exact(&it, &t, &tail, cx);
    }));
    // what is left keeps its locations
    v.push(space("locations of the rest", 0, move |ch, cx| {
        let t = lx(ch.all(MOD_POOL));
        let tail = if ch.free(2) == 0 { lx(ch.all(TAILS)) } else { lx(ch.all(MOD_POOL)) };
        let all = [&t[..], &tail[..]].concat();
        cx.input(&all);
        let ts: TokenStream = match format!("      {}", show(&all)).parse() {
            Ok(x) => x,
            Err(_) => return,
        };
        cx.impl_runs += 1;
        let mut it = ts.clone().into_iter().peekable();
        if let Ok(Ok(i)) = guard(|| venial::consume_item(&mut it)) {
            let (mut want, mut got) = (vec![], vec![]);
            locs(ts, &mut want);
            locs(i.to_token_stream(), &mut got);
            let n = got.len();
            locs(it.collect(), &mut got);
            if want != got {
                cx.fail(&all, format!("the {n} tokens of the item and the rest lie at {got:?}, written at {want:?}"));
            }
            cx.outcome(n as u64);
        } else {
            cx.fail(&all, "the first item is not consumed");
        }
        proc_macro2::extra::invalidate_current_thread_spans();
    }));
    // an enum that is reported as an error is consumed all the same
    v.push(space("after an error", 0, move |ch, cx| {
        let t = lx(ch.all(&[
            "enum E { A = 1 + 1 }",
            "enum E { A , B = - 1 , C }",
            "pub enum E < T > where T : A { A ( T ) = a :: b , B }",
            "#[a] enum E { #[b] A { x : A } = f ( ) , }",
            "enum E { A = 1 2 , B = 3 4 }",
        ]));
        let tail = if ch.free(2) == 0 { lx(ch.all(TAILS)) } else { lx(ch.all(MOD_POOL)) };
        let all = [&t[..], &tail[..]].concat();
        cx.input(&all);
        cx.impl_runs += 1;
        let mut it = to_stream(&all).into_iter().peekable();
        match guard(|| venial::consume_item(&mut it)) {
            Ok(Err(_)) => {
                let rest: Toks = it.map(|t| tok(&t)).collect();
                if !exact(&rest, &tail) {
                    cx.fail(&all, format!("the enum is an error, but `{}` is left", show(&rest)));
                }
                cx.outcome(xhash(&rest));
            }
            Ok(Ok(_)) => cx.fail(&all, "a complex discriminant is accepted"),
            Err(m) => cx.fail(&all, format!("panicked: {m}")),
        }
    }));
    v.push(space("strings", 0, move |ch, cx| {
        let t = strings::template(ch, if th { 3 } else { 2 }, strings::UNITS, strings::TEMPLATES);
        any_consume(&t, cx);
    }));
    for rich in [false, true] {
        let sp = space(if rich { "edits/rich" } else { "edits/min" }, if rich && !th { 0 } else { 1 }, move |ch, cx| {
            let kind = *ch.all(KINDS);
            let it = gen::item(ch, kind, Cx::Top, 2);
            let mut t = it.toks();
            strings::mutate(ch, &mut t);
            any_consume(&t, cx);
        });
        v.push(if rich { sp.rich().small() } else { sp.small() });
    }
    Prop {
        id: "C10",
        spaces: v,
        rule: "all sequences of up to 3 (4) declarations consumed one by one, from a fresh or already advanced and peeked iterator; sequences of up to 300 declarations; every declaration of the grammar followed by every tail; representative declarations followed by all short token strings; locations of item and rest for pairs of declarations and tails; enums reported as errors followed by declarations and tails; all short strings in templates and all single-token edits: consumed tokens plus remaining tokens must be the input, and parsing the whole stream must succeed exactly when consuming leaves nothing",
    }
}

// ---------------------------------------------------------------- C12

/// Terminates, is deterministic, and accepts only what it prints back.
fn decided(t: &Toks, cx: &mut Ctx) {
    cx.input(t);
    cx.impl_runs += 2;
    let (a, b) = (parse_toks(t), parse_toks(t));
    match (&a, &b) {
        (Out::Item(x), Out::Item(y)) => {
            check_lossless(cx, x, t);
            if obs::item(x).0 != obs::item(y).0 {
                cx.fail(t, "two runs report different items");
            }
            cx.outcome(xhash(t));
        }
        (Out::Error(x), Out::Error(y)) => {
            cx.rejected += 1;
            if x.to_string() != y.to_string() {
                cx.fail(t, "two runs give different errors");
            }
        }
        (Out::Panic(_), Out::Panic(_)) => cx.rejected += 1,
        _ => cx.fail(t, format!("two runs differ: {} and {}", a.name(), b.name())),
    }
}
fn rejected(t: &Toks, why: &str, cx: &mut Ctx) {
    cx.input(t);
    cx.impl_runs += 1;
    match parse_toks(t) {
        Out::Item(i) => cx.fail(t, format!("accepted although malformed ({why}); prints as `{}`", print(&i).map(|o| show(&o)).unwrap_or_default())),
        _ => {
            cx.rejected += 1;
            cx.outcome(why.len() as u64);
        }
    }
}
/// Positions of tokens in the top-level list for which `f` holds.
fn top(t: &Toks, f: impl Fn(&Tok) -> bool) -> Vec<usize> {
    (0..t.len()).filter(|i| f(&t[*i])).collect()
}
/// Streams that are malformed because of one defect, with the defect's name.
fn defects(it: &It) -> Vec<(Toks, String)> {
    let mut o: Vec<(Toks, String)> = vec![];
    let t = it.toks();
    let kind = it.kind_name();
    let mut add = |t: Toks, w: &str| o.push((t, format!("{kind}: {w}")));
    let header = {
        let mut h = It { kind: Kind::Mod { unsaf: false, name: "x", body: None }, ..it.clone() }.toks();
        h.truncate(h.len() - 3);
        h
    };
    // no item
    add(header.clone(), "attributes and visibility only");
    // leftover tokens after a complete item
    for x in ["A", ",", "1", ")", "#[a]", ":", "struct S ;", "{ }"] {
        if x == ")" {
            continue;
        }
        let mut u = t.clone();
        u.extend(lx(x));
        // `{ }` or an identifier after a struct without semicolon could only ever be leftover too
        add(u, "leftover tokens");
    }
    if !open_ended(it) {
        let mut u = t.clone();
        u.push(p(';'));
        add(u, "leftover semicolon");
    }
    let without = |i: usize| {
        let mut u = t.clone();
        u.remove(i);
        u
    };
    let replaced = |i: usize, x: Tok| {
        let mut u = t.clone();
        u[i] = x;
        u
    };
    let kw = |s: &'static str| top(&t, move |x| *x == Tok::I(s));
    // the last token: body or semicolon
    let last = t.len() - 1;
    match &it.kind {
        Kind::Konst { .. } | Kind::Alias { .. } | Kind::Use(_) | Kind::ExtC { .. } | Kind::Fn(Func { body: None, .. }) | Kind::Mod { body: None, .. } => {
            add(without(last), "missing semicolon");
            add(replaced(last, p(',')), "comma instead of semicolon");
        }
        Kind::Mac { semi: true, delim: D::P, .. } => add(without(last), "missing semicolon"),
        Kind::Fn(_) | Kind::Mod { .. } | Kind::Impl { .. } | Kind::Trait { .. } | Kind::ExtB { .. } | Kind::Enum { .. } | Kind::Union { .. } => {
            add(without(last), "missing body");
            if let Tok::G(_, b) = &t[last] {
                for d in [D::P, D::B] {
                    add(replaced(last, Tok::G(d, b.clone())), "wrong delimiter around the body");
                }
            }
        }
        Kind::Struct { flds: Flds::Named(_), .. } => {
            if let Tok::G(_, b) = &t[last] {
                add(replaced(last, Tok::G(D::B, b.clone())), "brackets around the fields");
            }
        }
        _ => {}
    }
    // the name
    let key = match kind {
        "struct" => "struct",
        "enum" => "enum",
        "union" => "union",
        "fn" => "fn",
        "trait" => "trait",
        "mod" => "mod",
        "type" => "type",
        "extern crate" => "crate",
        "const" => "const",
        "static" => "static",
        _ => "",
    };
    if !key.is_empty() {
        let mut ks = kw(key);
        if kind == "fn" {
            ks.truncate(1);
        }
        // the keyword of the item itself: after the visibility
        let start = header.len();
        if let Some(k) = ks.into_iter().find(|k| *k >= start) {
            let n = if let Kind::Konst { mutt: true, .. } = &it.kind { k + 2 } else { k + 1 };
            // (any identifier, even a keyword, can serve as the name)
            if t.get(n + 1) != Some(&Tok::I("where")) {
                add(without(n), "missing name");
            }
            add(replaced(n, Tok::L("1")), "literal instead of a name");
            add(replaced(n, Tok::G(D::C, vec![])), "block instead of a name");
            // (a type that starts with `::` brings a colon of its own)
            if matches!(&it.kind, Kind::Konst { ty, .. } if !matches!(ty.first(), Some(Tok::P(':', _)))) {
                add(without(n + 1), "missing colon");
            }
            if kind == "const" {
                let mut u = t.clone();
                u.insert(k + 1, id("mut"));
                add(u, "const mut");
            }
        }
    }
    // inner attribute in outer position
    {
        let mut u = lx("#![a]");
        u.extend(t.iter().cloned());
        add(u, "inner attribute in outer position");
        if !it.attrs.is_empty() {
            let mut u = t.clone();
            for (i, x) in lx("#![a]").into_iter().enumerate() {
                u.insert(2 + i, x);
            }
            add(u, "inner attribute after an outer one");
        }
    }
    // visibility where none is allowed
    if matches!(it.kind, Kind::Impl { .. } | Kind::Mac { .. }) {
        for x in ["pub", "pub(crate)", "crate"] {
            let n = header.len();
            let mut u = t[..n].to_vec();
            u.extend(lx(x));
            u.extend(t[n..].iter().cloned());
            add(u, "visibility on an impl or macro");
        }
    }
    // an unmatched closing angle bracket
    match &it.kind {
        Kind::Struct { gen, .. } | Kind::Enum { gen, .. } | Kind::Union { gen, .. } | Kind::Trait { gen, .. } => {
            let mut m = it.clone();
            if let Kind::Struct { gen, .. } | Kind::Enum { gen, .. } | Kind::Union { gen, .. } | Kind::Trait { gen, .. } = &mut m.kind {
                *gen = None;
            }
            let mut without_gen = m.toks();
            let k = header.len() + if matches!(&it.kind, Kind::Trait { unsaf: true, .. }) { 3 } else { 2 };
            let mut g = vec![];
            pgen(gen, &mut g);
            if g.is_empty() {
                without_gen.insert(k, p('>'));
                add(without_gen, "closing angle bracket without an opening one");
            } else {
                let mut u = without_gen.clone();
                let mut gg = g.clone();
                gg.push(p('>'));
                u.splice(k..k, gg);
                add(u, "closing angle bracket twice");
                let mut u = without_gen.clone();
                u.splice(k..k, g[1..].to_vec());
                add(u, "opening angle bracket missing");
                // never closed: nothing follows it either
                let mut u = t[..k].to_vec();
                u.extend(g[..g.len() - 1].iter().cloned());
                add(u, "parameter list never closed");
            }
        }
        _ => {}
    }
    // lists in groups
    let group = |f: &dyn Fn(&mut Toks)| {
        let mut u = t.clone();
        for x in u.iter_mut().rev() {
            if let Tok::G(_, b) = x {
                f(b);
                break;
            }
        }
        u
    };
    let elems: Option<(usize, &str)> = match &it.kind {
        Kind::Struct { flds: Flds::Named(f), wh: _, .. } => Some((f.items.len(), "field")),
        Kind::Struct { flds: Flds::Tuple(f), wh: None, .. } => Some((f.items.len(), "tuple field")),
        Kind::Enum { vars, .. } => Some((vars.items.len(), "variant")),
        Kind::Union { flds, .. } => Some((flds.items.len(), "field")),
        _ => None,
    };
    if let Some((n, what)) = elems {
        add(group(&|b| b.insert(0, p(','))), &format!("comma before the first {what}"));
        if n > 0 {
            // commas that separate elements: those outside angle brackets
            add(
                group(&|b| {
                    if matches!(b.last(), Some(Tok::P(',', _))) {
                        b.push(p(','))
                    } else {
                        b.extend([p(','), p(',')])
                    }
                }),
                &format!("doubled comma after a {what}"),
            );
        }
    }
    o
}
/// Malformed streams listed by hand: `X` stands for a defect.
const MALFORMED: &[&str] = &[
    // parts of fields
    "struct S { : A }",
    "struct S { x }",
    "struct S { x , y : A }",
    "struct S { x A }",
    "struct S { x : }",
    "struct S { x : , y : A }",
    "struct S { x : A , , y : B }",
    "struct S { , }",
    "struct S { 1 : A }",
    "struct S { pub : A }",
    "struct S { # [ a ] }",
    "struct S { x : A , # [ a ] }",
    "struct S { x : A , pub }",
    "struct S { # ! [ a ] x : A }",
    "struct S { x = A }",
    "struct S { x : A } ;",
    "struct S ( A , , B ) ;",
    "struct S ( , ) ;",
    "struct S ( , A ) ;",
    "struct S ( # [ a ] ) ;",
    "struct S ( A , pub ) ;",
    "struct S ( A , # [ a ] pub ) ;",
    "struct S ( # ! [ a ] A ) ;",
    "struct S [ A ] ;",
    "struct S",
    "struct S = A ;",
    "struct S : A { }",
    "struct S ( A ) { }",
    "struct S { } ( A ) ;",
    "struct S ; ;",
    "struct S < T { x : T }",
    "struct S < T",
    "struct S < , > ;",
    "struct S < T , , U > ;",
    "struct S < T U > ;",
    "struct S < 1 > ;",
    "struct S < const > ;",
    "struct S < : A > ;",
    "struct S T > ;",
    "struct S where T : A",
    "union U { : A }",
    "union U { x }",
    "union U { x : A , , }",
    "union U ;",
    "union U ( A ) ;",
    "union U",
    "union ;",
    // variants
    "enum E { A B }",
    "enum E { A ( X ) B }",
    "enum E { A { x : X } B }",
    "enum E { A ( X ) ( Y ) }",
    "enum E { A ( X ) { x : Y } }",
    "enum E { A = 1 ; B }",
    "enum E { A , , B }",
    "enum E { , A }",
    "enum E { , }",
    "enum E { 1 }",
    "enum E { A : B }",
    "enum E { # [ a ] }",
    "enum E { A , # [ a ] }",
    "enum E { # ! [ a ] A }",
    "enum E { A [ X ] }",
    "enum E { A { x } }",
    "enum E { A ( , ) }",
    "enum E { A = }",
    "enum E",
    "enum E ;",
    "enum E ( A ) ;",
    "enum E [ A ]",
    "enum { A }",
    "enum E < T { A }",
    "enum E T > { A }",
    "enum E { A } ;",
    // functions
    "fn f",
    "fn f ;",
    "fn f { }",
    "fn ( ) { }",
    "fn f ( )",
    "fn f ( ) [ ]",
    "fn f [ ] { }",
    "fn f { } { }",
    "fn f ( ) -> A",
    "fn f ( ) { } ;",
    "fn f ( ) ; { }",
    "fn f ( ) { } { }",
    "fn f ( x ) { }",
    "fn f ( x , y : A ) { }",
    "fn f ( : A ) { }",
    "fn f ( x : ) { }",
    "fn f ( x : , y : A ) { }",
    "fn f ( x A ) { }",
    "fn f ( x : A , , y : B ) { }",
    "fn f ( , ) { }",
    "fn f ( , x : A ) { }",
    "fn f ( 1 : A ) { }",
    "fn f ( A ) { }",
    "fn f ( mut ) { }",
    "fn f ( mut : A ) { }",
    "fn f ( & ) { }",
    "fn f ( & A ) { }",
    "fn f ( & x : A ) { }",
    "fn f ( & mut x : A ) { }",
    "fn f ( & 'a ) { }",
    "fn f ( & 'a x : A ) { }",
    "fn f ( & self x : A ) { }",
    "fn f ( & self , , x : A ) { }",
    "fn f ( self x : A ) { }",
    "fn f ( mut self x : A ) { }",
    "fn f ( & self : A ) { }",
    "fn f ( & mut self : A ) { }",
    "fn f ( # [ a ] ) { }",
    "fn f ( x : A , # [ a ] ) { }",
    "fn f ( # ! [ a ] x : A ) { }",
    "fn f < T ( ) { }",
    "fn f T > ( ) { }",
    "fn f < , > ( ) { }",
    "fn f < T , , U > ( ) { }",
    "fn f ( ) where T : A",
    "fn f ( ) - A { }",
    "fn f ( ) - + A { }",
    "fn f ( ) - : A { }",
    "fn f ( ) - , A { }",
    "fn f ( ) = > A { }",
    "fn f ( ) > A { }",
    "fn f ( ) : A { }",
    "fn f ( ) = A ;",
    "fn f ( ) A { }",
    "fn fn f ( ) { }",
    "unsafe unsafe fn f ( ) { }",
    "fn unsafe f ( ) { }",
    "async const fn f ( ) { }",
    "unsafe const fn f ( ) { }",
    "unsafe async fn f ( ) { }",
    "extern unsafe fn f ( ) { }",
    "const default fn f ( ) { }",
    "async pub fn f ( ) { }",
    "async",
    "default",
    "unsafe",
    "async struct S ;",
    "default struct S ;",
    "unsafe struct S ;",
    "unsafe enum E { }",
    "unsafe static A : B = c ;",
    "unsafe type A = B ;",
    "unsafe use a ;",
    "const struct S ;",
    "const unsafe trait A { }",
    "const unsafe impl A { }",
    "async impl A { }",
    "const unsafe A : B = c ;",
    "async unsafe extern { }",
    // consts, aliases, uses
    "const A = 1 ;",
    "const A : B = 1",
    "const A : B",
    "const A",
    "const : A = 1 ;",
    "const mut A : B = 1 ;",
    "const A : B = 1 ; ;",
    "const",
    "const A B = 1 ;",
    "const 1 : A = 2 ;",
    "static A = 1 ;",
    "static A : B = 1",
    "static A : B",
    "static mut : A = 1 ;",
    "static mut mut A : B = 1 ;",
    "static",
    "static mut",
    "static fn f ( ) { }",
    "type A = B",
    "type A",
    "type = B ;",
    "type",
    "type A B ;",
    "type A = B ; ;",
    "type A : B",
    "use a",
    "use",
    "use a :: b ; c",
    "extern crate a",
    "extern crate ;",
    "extern crate",
    "extern crate a as ;",
    "extern crate a b ;",
    "extern crate a as b c ;",
    "extern crate 1 ;",
    "extern crate a :: b ;",
    "extern crate { }",
    "extern",
    "extern \"C\"",
    "extern \"C\" ;",
    "extern \"C\" crate a ;",
    "extern \"C\" \"D\" { }",
    "extern ( )",
    "extern [ ]",
    "extern { } ;",
    "extern A { }",
    // macros
    "m",
    "m !",
    "m ! ;",
    "m ! a",
    "m ! ( )",
    "m ( ) ;",
    "m ! ( ) ; ;",
    "m ! { } { }",
    "! ( ) ;",
    "m ! a b { }",
    "pub m ! { }",
    "crate m ! { }",
    // impls and traits
    "impl",
    "impl A",
    "impl A ;",
    "impl A ( )",
    "impl A [ ]",
    "impl A { } ;",
    "impl A { } { }",
    "impl A where T : B",
    "impl < T A { }",
    "impl < T , , U > A { }",
    "pub impl A { }",
    "impl A { A }",
    "impl A { ; }",
    "impl A { , }",
    "impl A { # [ a ] }",
    "impl A { pub }",
    "impl A { fn f ( ) { } # [ a ] }",
    "impl A { fn f ( ) { } # ! [ a ] fn g ( ) { } }",
    "impl A { fn f ( ) { } , fn g ( ) { } }",
    "impl A { struct S ; }",
    "impl A { enum E { } }",
    "impl A { union U { x : A } }",
    "impl A { mod m { } }",
    "impl A { use a ; }",
    "impl A { trait B { } }",
    "impl A { impl B { } }",
    "impl A { extern crate a ; }",
    "impl A { extern { } }",
    "impl A { static B : C = d ; }",
    "impl A { static mut B : C = d ; }",
    "impl A { const mut B : C = d ; }",
    "impl A { const B = d ; }",
    "impl A { unsafe type B = C ; }",
    "impl A { async const B : C = d ; }",
    "impl A { x : A }",
    "impl A { pub m ! { } }",
    "trait { }",
    "trait",
    "trait A",
    "trait A ;",
    "trait A ( )",
    "trait A : B",
    "trait A { } ;",
    "trait A < T { }",
    "trait A T > { }",
    "trait A = B { }",
    "trait A { static B : C ; }",
    "trait A { struct S ; }",
    "trait A { mod m ; }",
    "trait A { use a ; }",
    "trait A { enum E { } }",
    "trait A { impl B { } }",
    "trait A { trait B { } }",
    "trait A { extern crate a ; }",
    "trait A { extern { } }",
    "trait A { const mut B : C ; }",
    "trait A { ; }",
    "trait A { fn f ( ) ; # [ a ] }",
    "trait A { fn f ( ) ; # ! [ a ] }",
    "trait A { type B }",
    "trait A { const B : C }",
    "trait A { fn f ( ) }",
    "extern { struct S ; }",
    "extern { mod m ; }",
    "extern { use a ; }",
    "extern { impl A { } }",
    "extern { trait A { } }",
    "extern { static A }",
    "extern { static A : B }",
    "extern { fn f ( ) }",
    "extern { # [ a ] }",
    "extern { ; }",
    "extern { static mut : A ; }",
    // modules
    "mod m",
    "mod",
    "mod ;",
    "mod { }",
    "mod m ( )",
    "mod m [ ]",
    "mod m { } ;",
    "mod m : A { }",
    "mod 1 { }",
    "mod m { A }",
    "mod m { ; }",
    "mod m { , }",
    "mod m { struct S }",
    "mod m { struct S ; # [ a ] }",
    "mod m { # [ a ] }",
    "mod m { struct S ; # ! [ a ] }",
    "mod m { pub }",
    "mod m { x : A }",
    "mod m { 1 }",
    "mod m { fn f ( ) }",
    "mod m { const A : B }",
    "mod m { m ! }",
    "mod m { struct S ; } struct T ;",
    // attributes and visibility
    "",
    "#",
    "# [ a ]",
    "# [ a ] # [ b ]",
    "# struct S ;",
    "# ( a ) struct S ;",
    "# { a } struct S ;",
    "# [ a ] [ b ] struct S ;",
    "# a struct S ;",
    "# ! [ a ] struct S ;",
    "# [ b ] # ! [ a ] struct S ;",
    "# ! struct S ;",
    "# [ a ( b ) c ] struct S ;",
    "# [ a ( b ) ( c ) ] struct S ;",
    "# [ a ( b ) = c ] struct S ;",
    "! [ a ] struct S ;",
    "struct # [ a ] S ;",
    "struct S # [ a ] ;",
    "pub",
    "pub ( crate )",
    "crate",
    "pub # [ a ] struct S ;",
    "pub pub struct S ;",
    "pub crate struct S ;",
    "crate pub struct S ;",
    "pub ( crate ) pub struct S ;",
    "pub { } struct S ;",
    "pub ( ) struct S ;",
    "pub ( a ) struct S ;",
    "pub ( crate a ) struct S ;",
    "pub ( self a ) struct S ;",
    "pub ( super :: a ) struct S ;",
    "pub ( crate , ) struct S ;",
    "pub ( crate crate ) fn f ( ) { }",
    "pub ( 1 ) enum E { }",
    "pub [ a ] struct S ;",
    "( crate ) struct S ;",
    "struct pub S ;",
    // nothing that starts an item
    "A",
    "A ;",
    "1",
    ";",
    ",",
    "{ }",
    "( )",
    "[ ]",
    ": A",
    "= 1 ;",
    "< T >",
    "'a",
    "\"s\"",
    "where T : A { }",
    "for x in y { }",
    "if a { }",
    "let x = 1 ;",
    "x : A",
    "A { }",
    "A ( ) ;",
    "a :: b ;",
    "self",
    "mut x",
    "_",
    "r#struct S ;",
    "structs S ;",
    "r#fn f ( ) { }",
    "r#mod m { }",
    "r#pub struct S ;",
    "Struct S ;",
];

/// Declarations that lack what their kind requires next...
const HEADS: &[&str] = &[
    "struct", "struct S", "struct S < T >", "enum", "enum E", "enum E < T >", "union U", "union U < T >", "fn", "fn f",
    "fn f < T >", "fn f ( )", "fn f ( x : A )", "unsafe", "unsafe fn", "const fn f", "async", "default", "trait", "trait A", "trait A < T >", "mod", "mod m",
    "unsafe mod m", "extern", "extern \"C\"", "extern crate", "extern crate a", "extern crate a as", "extern crate a as b", "m !", "macro_rules !",
    "macro_rules ! a", "m ! ( a )", "static", "static A", "static mut A", "const", "const A", "type", "type A", "pub", "pub ( crate )", "# [ a ]", "# [ a ] pub", "crate",
];
/// ... and cannot get it from these.
const TAILS: &[&str] = &[
    ",", "+ A ;", "1", "\"s\" { }", "'a { }", ". x ;", "? { }", "- A ;", "- - A { }", "| a | { }", "@ x ;", "* ( A ) ;", "/ { }", "& A ;", "[ ] ;", "[ a ] { }", "$ x", "% ;", "\"C\" ;",
    ", { }", ", ;", "^ { }", "~ ;", "> { }", "> ;", "1 ;", "1 { }", "# { }", "+ { }",
];
pub fn c12(th: bool) -> Prop {
    let mut v = vec![];
    v.push(space("unfinished, followed by something", 0, |ch, cx| {
        let (h, tl) = (*ch.all(HEADS), *ch.all(TAILS));
        if (h == "extern" && matches!(tl, "\"s\" { }" | "1 { }")) || (tl == "[ ] ;" && matches!(h, "m !" | "macro_rules !" | "macro_rules ! a")) {
            return;
        }
        let t = match ch.free(4) {
            0 => format!("{h} {tl}"),
            1 => format!("{h} {tl} struct T ;"),
            2 => format!("mod m {{ {h} {tl} }}"),
            _ => format!("mod m {{ fn f ( ) ; {h} {tl} }}"),
        };
        let t = lx(&t);
        rejected(&t, h, cx);
        if let Cons::Item(..) = consume(&t) {
            cx.fail(&t, "consuming an item accepted this");
        }
    }));
    v.push(space("malformed by hand", 0, |ch, cx| {
        let s = *ch.all(MALFORMED);
        let mut t = lx(s);
        if ch.free(2) == 1 {
            tighten(&mut t);
        }
        rejected(&t, s, cx);
    }));
    // every bracketed part in every bracket that cannot stand there
    v.push(space("wrong delimiters", 0, |ch, cx| {
        // before, after, contents, brackets that are right
        const T: &[(&str, &str, &[&str], &str)] = &[
            ("struct S", "", &["", "x: A", "pub x: A, y: B,"], "{("),
            ("struct S", ";", &["", "A", "A, B"], "("),
            ("struct S<T> where T: A", "", &["", "x: A"], "{"),
            ("enum E", "", &["", "A", "A, B = 1"], "{"),
            ("enum E<T> where T: A", "", &["", "A"], "{"),
            ("union U", "", &["x: A", "x: A, y: B,"], "{"),
            ("union U<T> where T: A", "", &["x: A"], "{"),
            ("mod m", "", &["", "struct S;", "#![a]"], "{"),
            ("unsafe mod m", "", &[""], "{"),
            ("trait A", "", &["", "fn f();", "#![a]"], "{"),
            ("unsafe trait A<T>: B where T: C", "", &["", "type X;"], "{"),
            ("impl A", "", &["", "fn f() {}"], "{"),
            ("impl<T> A for B where T: C", "", &["", "type X = Y;"], "{"),
            ("extern", "", &["", "fn f();"], "{"),
            ("extern \"C\"", "", &["", "static A: B;"], "{"),
            ("unsafe extern \"C\"", "", &["", "fn f();"], "{"),
            ("fn f", "{}", &["", "x: A", "&self", "self, x: A,"], "("),
            ("fn f", ";", &["", "x: A"], "("),
            ("fn f<T>", "-> A {}", &["", "x: A"], "("),
            ("extern \"C\" fn f", "{}", &["", "x: A"], "("),
            ("fn f()", "", &["", "x", "x; y"], "{"),
            ("fn f() -> A", "", &["", "x"], "{"),
            ("fn f() where T: A", "", &["", "x"], "{"),
            ("m!", "", &["", "x"], "{"),
            ("m!", ";", &["", "x"], "(["),
            ("macro_rules! m", "", &["() => {}"], "{"),
            ("#", "struct S;", &["a", "a(b)", "a = 1"], "["),
            ("#[a] #", "fn f() {}", &["a", "a(b)"], "["),
            ("pub", "struct S;", &["crate", "self", "in a::b"], "("),
            ("pub", "fn f() {}", &["crate", "super"], "("),
        ];
        let (a, b, body, right) = *ch.all(T);
        let body = *ch.all(body);
        let d = *ch.all(&[(D::P, '('), (D::B, '['), (D::C, '{'), (D::N, ' ')]);
        if right.contains(d.1) {
            return;
        }
        let mut t = lx(a);
        t.push(Tok::G(d.0, lx(body)));
        t.extend(lx(b));
        let t = match ch.free(2) {
            0 => t,
            _ => {
                let mut o = lx("mod w");
                o.push(Tok::G(D::C, t));
                o
            }
        };
        rejected(&t, &show(&t), cx);
    }));
    // an inner attribute after outer ones, wherever attributes can stand
    v.push(space("inner attribute among outer ones", 0, move |ch, cx| {
        let i = ch.free(POSITIONS);
        let n = 1 + ch.free(if th { 7 } else { 5 });
        let at = 1 + ch.free(n);
        let m = 1 + ch.free(2);
        let outer = |k: usize| crate::gen::attr_of(["a", "b(c)", "d = 1", "e::f", "g[h]"][k % 5], false);
        let mut attrs: Vec<_> = (0..n).map(outer).collect();
        for k in 0..m {
            attrs.insert(at + k, crate::gen::attr_of(["x", "y(z)"][k], true));
        }
        let vis = lx(["", "pub"][ch.free(2)]);
        if let Some(it) = decorated(i, attrs, vis, lx("A")) {
            let t = it.toks();
            rejected(&t, "inner attribute after outer ones", cx);
        }
    }));
    // one defect anywhere in a longer list
    v.push(space("lists with one defect", 0, move |ch, cx| {
        // (before, after), elements that cannot take in what follows them, other elements, elements of which none is one
        const FN: &[(&str, &str)] = &[("fn f(", ") {}"), ("fn f<T>(", ") -> A;"), ("impl A { fn f(", ") {} }"), ("trait A { fn f(", "); }"), ("extern { fn f(", "); }"), ("mod m { pub fn f(", ") {} }")];
        const GEN: &[(&str, &str)] = &[
            ("struct S<", ">;"),
            ("struct S<", "> { x: A }"),
            ("enum E<", "> {}"),
            ("union U<", "> { x: A }"),
            ("fn f<", ">() {}"),
            ("impl<", "> A {}"),
            ("impl<", "> A for B {}"),
            ("trait A<", "> {}"),
            ("type A<", "> = B;"),
            ("trait A { type B<", ">; }"),
            ("impl A { fn f<", ">() {} }"),
        ];
        const NAMED: &[(&str, &str)] = &[("struct S {", "}"), ("struct S<T> where T: A {", "}"), ("union U {", "}"), ("enum E { A {", "} }"), ("enum E { B, A {", "} = 1, C }"), ("mod m { struct S {", "} }")];
        const TUP: &[(&str, &str)] = &[("struct S(", ");"), ("struct S<T>(", ") where T: A;"), ("enum E { A(", ") }"), ("enum E { B, A(", ") = 1, C }")];
        const VAR: &[(&str, &str)] = &[("enum E {", "}"), ("pub enum E<T> where T: A {", "}"), ("mod m { enum E {", "} }")];
        type L = (&'static [(&'static str, &'static str)], &'static [&'static str], &'static [&'static str], &'static [&'static str]);
        const T: &[L] = &[
            (FN, &[], &["x: A", "#[a] y: B<C, D>", "mut z: &'a C", "self: A"], &["x", ": A", "1: A", "mut", "mut: A", "&x: A", "&mut x: A", "#![a] x: A", "#(a) x: A", "&", "&'a", "&'a x", "self A", "& self: A", "&'a mut self: A", "mut self x", "(x): A", "x = A"]),
            (GEN, &["'a", "T", "r#U"], &["'a", "T", "const N: A", "'b: 'a + 'c", "U: A<B, C> + D", "V = A", "const M: A = 1", "W: A = B<C, D>"], &["1", "const", "const: A", ": A", "= A", "#", "(T)", "T U", "'a T", "T 1", "T (A)", "T { A }"]),
            (NAMED, &[], &["x: A", "pub y: B<C, D>", "#[a] z: &'a [C; 2]", "r#w: fn(A, B) -> C"], &[": A", "x", "x A", "1: A", "pub", "pub: A", "#[a]", "#![a] x: A", "x = A", "'a: A", "(x): A", "#(a) x: A", "x (A)"]),
            (TUP, &[], &["A", "pub B<C, D>", "#[a] &'a [C; 2]", "pub(crate) fn(A, B) -> C"], &["#[a] #![a] A", "#(a) A", "#![a] A"]),
            (VAR, &["A", "B(X, Y)", "#[a] C { x: X, y: Y }", "D = 1", "E(X) = 2", "F {} = { 3 }"], &["A", "B(X, Y)", "#[a] C { x: X, y: Y }", "D = 1", "E(X) = 2"], &["1", "A: B", "A(X)(Y)", "A[X]", "#![a] A", "A { x }", "A =", "#[a]", "= 1", "A 1", "'a", "A = 1 = 2", "A(X) {}", "{}", "(X)", "A { x: X } (Y)", "A -> B", "A; B"]),
        ];
        let (around, tight, pool, bad) = *ch.all(T);
        let (a, b) = *ch.all(around);
        let n = 1 + ch.free(if th { 12 } else { 7 });
        let r = ch.free(pool.len());
        let mut v: Vec<String> = (0..n).map(|j| pool[(r + j) % pool.len()].to_string()).collect();
        let mut seps = vec![","; n - 1];
        let trail = ch.free(2) == 1;
        let what = ch.free(3);
        match what {
            // a comma too many
            0 => {
                let at = ch.free(n + usize::from(trail));
                if at == 0 {
                    v[0].insert_str(0, ", ");
                } else if at == n {
                    v[n - 1].push(',');
                } else {
                    seps[at - 1] = ", ,";
                }
            }
            // something else than a comma, or nothing
            1 => {
                let first: &[&str] = if around.as_ptr() == FN.as_ptr() { &["self", "mut self", "&self", "&mut self", "&'a self", "&'a mut self", "#[a] &'a mut self"] } else { tight };
                if n == 1 || first.is_empty() {
                    return;
                }
                let at = if around.as_ptr() == FN.as_ptr() { 0 } else { ch.free(n - 1) };
                v[at] = ch.all(first).to_string();
                seps[at] = *ch.all(&["", ";", ".", "+", "- >"]);
            }
            _ => {
                let x = *ch.all(bad);
                let at = ch.free(n);
                // (after `=`, a comma is taken for the value)
                if x == "A =" && (at + 1 < n || trail) {
                    return;
                }
                v[at] = x.to_string();
            }
        }
        let mut s = a.to_string();
        for (i, x) in v.iter().enumerate() {
            s = format!("{s} {x} {}", if i + 1 < n { seps[i] } else if trail { "," } else { "" });
        }
        s = format!("{s} {b}");
        let t = lx(&s);
        rejected(&t, &s, cx);
    }));
    // what was read before, and how it ended, does not matter
    for rich in [false, true] {
        let sp = space(if rich { "histories/rich" } else { "histories/min" }, 0, move |ch, cx| {
            const ERR: &[&str] = &["enum E { A = 1 + 2 }", "mod m { enum E { A = - 1 } }", "mod m { mod n { enum E { A , B ( X ) = a . b , } } }", "# [ a ] pub enum E < T > where T : A { A = b :: c }"];
            let j = ch.free(MALFORMED.len() + ERR.len() + KINDS.len());
            let before = if j < MALFORMED.len() {
                lx(MALFORMED[j])
            } else if j < MALFORMED.len() + ERR.len() {
                lx(ERR[j - MALFORMED.len()])
            } else {
                gen::item(ch, KINDS[j - MALFORMED.len() - ERR.len()], Cx::Top, 2).toks()
            };
            let kind = *ch.all(KINDS);
            let n = *ch.all(&[1usize, 2, 140]);
            let it = gen::item(ch, kind, Cx::Top, 2);
            let t = it.toks();
            let mut shown = before.clone();
            shown.extend(t.iter().cloned());
            cx.input(&shown);
            cx.impl_runs += n as u64;
            let outcome = |t: &Toks| match parse_toks(t) {
                Out::Panic(_) => "panic".to_string(),
                o => o.name(),
            };
            let first = outcome(&before);
            for i in 1..n {
                if i % 3 == 0 {
                    consume(&before);
                    continue;
                }
                let o = outcome(&before);
                if o != first {
                    cx.fail(&before, format!("read {} times: first {first}, then {o}", i + 1));
                    return;
                }
            }
            if let Some(i) = check_structure(cx, &it, &t, cls::ALL) {
                check_lossless(cx, &i, &t);
            }
        });
        v.push(if rich { sp.rich() } else { sp });
    }
    // parts of lists
    v.push(space("wrong delimiters in lists", 0, |ch, cx| {
        const T: &[(&str, &str, &[&str])] = &[
            ("enum E { A", "}", &["[x]", "⟦x⟧", "⟦x: A⟧", "[]", "⟦⟧"]),
            ("enum E { B, A", ", C }", &["[x]", "⟦x⟧", "⟦x: A⟧", "[]"]),
            ("enum E { #", "A }", &["(a)", "{ a }", "⟦a⟧"]),
            ("struct S { #", "x: A }", &["(a)", "{ a }", "⟦a⟧"]),
            ("struct S(#", "A);", &["(a)", "{ a }", "⟦a⟧"]),
            ("fn f(#", "x: A) {}", &["(a)", "{ a }", "⟦a⟧"]),
            ("mod m { #!", "}", &["(a)", "{ a }", "⟦a⟧"]),
            ("impl A { #!", "}", &["(a)", "{ a }", "⟦a⟧"]),
            ("impl A { #", "fn f() {} }", &["(a)", "{ a }", "⟦a⟧"]),
            ("trait A { #", "type T; }", &["(a)", "{ a }", "⟦a⟧"]),
            ("extern { #", "fn f(); }", &["(a)", "{ a }", "⟦a⟧"]),
            ("struct S { pub", "x: A }", &["[crate]", "{ crate }", "⟦crate⟧", "[in a]"]),
            ("impl A { pub", "fn f() {} }", &["[crate]", "{ crate }", "⟦crate⟧"]),
            ("trait A { fn f", "; }", &["[]", "{ x: A }", "⟦x: A⟧"]),
            ("extern { fn f", "; }", &["[]", "{ x: A }", "⟦x: A⟧"]),
            ("impl A { fn f()", "}", &["[x]", "(x)", "⟦x⟧"]),
            ("impl A { m!", "}", &["[x]", "(x)", "⟦x⟧"]),
        ];
        let (a, b, mid) = *ch.all(T);
        let s = format!("{a} {} {b}", ch.all(mid));
        let t = lx(&s);
        rejected(&t, &s, cx);
    }));
    // the same, as a member between others (its own tokens cannot be completed by its neighbours)
    v.push(space("malformed after another defect-free item", 0, |ch, cx| {
        let s = *ch.all(MALFORMED);
        let pre = *ch.all(&["# [ a ]", "pub", "# [ a ] pub ( crate )"]);
        let t0 = lx(s);
        if matches!(t0.first(), Some(Tok::I("pub" | "crate")) | Some(Tok::P('#', _)) | Some(Tok::P('!', _)) | Some(Tok::G(..)) | Some(Tok::P(':', _)) | Some(Tok::P('<', _))) {
            return;
        }
        let mut t = lx(pre);
        t.extend(t0);
        rejected(&t, s, cx);
    }));
    v.push(space("malformed in a container", 0, |ch, cx| {
        let s = *ch.all(MALFORMED);
        let (a, b) = *ch.all(&[("mod m {", "}"), ("mod m { struct S ;", "}"), ("mod m {", "fn g ( ) { } }"), ("impl A {", "}"), ("impl A { fn g ( ) { }", "}"), ("trait A {", "}"), ("trait A { type T ;", "}"), ("extern {", "}"), ("extern { fn g ( ) ;", "}"), ("mod m { mod n {", "} }"), ("mod m { impl A {", "} }")]);
        let inside = ["", "# ! [ a ] struct S ;", "mod m { struct S ; } struct T ;"];
        // an unfinished item before another one may be completed by it
        if inside.contains(&s) || (b.starts_with("fn") && s == "impl A ;") || (b.starts_with("fn") && !matches!(s.as_bytes().last(), Some(b';' | b'}'))) {
            return;
        }
        rejected(&lx(&format!("{a} {s} {b}")), s, cx);
    }));
    for (name, rich, small, k) in [
        ("defects/min", false, false, if th { 2 } else { 1 }),
        ("defects/rich", true, false, 1),
        ("defects/small", false, true, if th { 3 } else { 2 }),
        ("defects/rich/small", true, true, if th { 2 } else { 1 }),
    ] {
        let sp = space(name, k, move |ch, cx| {
            let kind = *ch.all(KINDS);
            let it = gen::item(ch, kind, Cx::Top, 2);
            let ds = defects(&it);
            let (t, w) = ch.all(&ds).clone();
            rejected(&t, &w, cx);
        });
        let sp = if rich { sp.rich() } else { sp };
        v.push(if small { sp.small() } else { sp });
    }
    v.push(space("strings", 0, move |ch, cx| {
        let t = strings::template(ch, if th { 3 } else { 2 }, strings::UNITS, strings::TEMPLATES);
        decided(&t, cx);
    }));
    v.push(space("strings/long", 0, move |ch, cx| {
        let t = strings::template(ch, if th { 4 } else { 3 }, strings::UNITS_S, strings::TEMPLATES);
        decided(&t, cx);
    }));
    // large inputs terminate too
    v.push(long(ALL_LONG, |_, t, cx| decided(t, cx)));
    v.push(scaled_space(|_, t, cx| decided(t, cx)));
    for rich in [false, true] {
        let sp = space(if rich { "edits/rich" } else { "edits/min" }, if rich && !th { 0 } else { 1 }, move |ch, cx| {
            let kind = *ch.all(KINDS);
            let it = gen::item(ch, kind, Cx::Top, 2);
            let mut t = it.toks();
            strings::mutate(ch, &mut t);
            decided(&t, cx);
        });
        v.push(if rich { sp.rich().small() } else { sp.small() });
    }
    Prop {
        id: "C12",
        spaces: v,
        rule: "all short token strings in all templates and all single-token edits of declarations: parsing must terminate, agree with itself on a second run, and accept only what prints back; whatever was read before, and however often; every declaration of the grammar with each single defect of the listed classes, lists with one defect at any place, parts in the wrong kind of brackets, inner attributes among outer ones, and a table of malformed streams, must be rejected",
    }
}

// ---------------------------------------------------------------- C16

const PATH_ARGS: &[&str] = &[
    "'a",
    "A",
    "B = C",
    "a::B<C, D>",
    "1",
    "{ x; y }",
    "fn(A) -> B",
    "&'a A",
    "'static",
    "(A, B)",
    "[A; 2]",
    "dyn A + 'a",
    "-1",
    "B = fn(A, C) -> D<E>",
    "B = &'a C<D, E>",
    "<A as B<C, D>>::E",
    "'_",
    "Fn() -> A",
    "::a::B",
    "r#type = A",
    "\"s\"",
    "true",
    "impl A<B, C>",
    "a::b = C_",
    "*const A",
    "A<B<C<D>>>",
    "Vec::<A>",
    "'r#a",
    "'r#static",
    "'staticx",
    "'_a",
    "'A",
    "'é",
];
#[derive(Clone, PartialEq, Debug)]
enum Arg {
    Life(Toks),
    Bind(S, Toks),
    Other(Toks),
}
fn arg_of(s: &str) -> Arg {
    let t = lx(s);
    match t.as_slice() {
        [Tok::P('\'', _), Tok::I(_)] => Arg::Life(t),
        [Tok::I(n), Tok::P('=', _), rest @ ..] => Arg::Bind(n, rest.to_vec()),
        _ => Arg::Other(t),
    }
}
struct Seg {
    name: S,
    /// turbofish, arguments, trailing comma
    args: Option<(bool, Vec<Arg>, bool)>,
}
fn path_toks(lead: bool, segs: &[Seg]) -> Toks {
    let c2 = [Tok::P(':', true), Tok::P(':', false)];
    let mut o = vec![];
    for (i, s) in segs.iter().enumerate() {
        if i > 0 || lead {
            o.extend(c2.iter().cloned());
        }
        o.push(Tok::I(s.name));
        if let Some((fish, args, trail)) = &s.args {
            if *fish {
                o.extend(c2.iter().cloned());
            }
            o.push(p('<'));
            for (j, a) in args.iter().enumerate() {
                match a {
                    Arg::Life(t) | Arg::Other(t) => o.extend(t.iter().cloned()),
                    Arg::Bind(n, t) => {
                        o.push(Tok::I(n));
                        o.push(p('='));
                        o.extend(t.iter().cloned());
                    }
                }
                if j + 1 < args.len() || *trail {
                    o.push(p(','));
                }
            }
            o.push(p('>'));
        }
    }
    o
}
/// as_path of these tokens, obtained in one of several ways.
fn as_path(t: &Toks, how: usize) -> Result<Option<venial::Path>, String> {
    let ty = match how {
        0 => venial::TypeExpr { tokens: to_trees(t) },
        1 => venial::TypeExpr { tokens: to_trees(&[Tok::G(D::N, t.clone())]) },
        _ => {
            let it = st("S", None, None, Flds::Named(l(vec![nfd("x", t.clone()), nfd("y", lx("Z"))], false)));
            match parse_toks(&it.toks()) {
                Out::Item(venial::Item::Struct(s)) => s.field_types().into_iter().next().unwrap().clone(),
                o => return Err(format!("struct with this field type not accepted: {}", o.name())),
            }
        }
    };
    guard(|| ty.as_path())
}
fn check_path(cx: &mut Ctx, lead: bool, segs: &[Seg], how: usize, tight: bool) {
    let mut t = path_toks(lead, segs);
    if tight {
        tighten(&mut t);
    }
    cx.input(&t);
    cx.impl_runs += 1;
    let p = match as_path(&t, how) {
        Ok(Some(p)) => p,
        Ok(None) => return cx.fail(&t, "a path, but not read as one"),
        Err(m) => return cx.fail(&t, format!("as_path panicked: {m}")),
    };
    match print(&p) {
        Ok(o) if exact(&o, &t) => {}
        o => return cx.fail(&t, format!("path prints as {:?}", o.map(|o| show(&o)))),
    }
    if p.segments.len() != segs.len() {
        return cx.fail(&t, format!("{} segments instead of {}", p.segments.len(), segs.len()));
    }
    for (i, (g, w)) in p.segments.iter().zip(segs).enumerate() {
        if g.ident != w.name {
            return cx.fail(&t, format!("segment {i} is {}", g.ident));
        }
        if g.tk_separator_colons.is_some() != (i > 0 || lead) {
            return cx.fail(&t, format!("separator before segment {i} misreported"));
        }
        match (&g.generic_args, &w.args) {
            (None, None) => {}
            (Some(g), Some((fish, args, trail))) => {
                if g.tk_turbofish_colons.is_some() != *fish {
                    return cx.fail(&t, format!("turbofish of segment {i} misreported"));
                }
                let got = obs::list(&g.args, |a| match a {
                    venial::GenericArg::Lifetime { lifetime } => Arg::Life(vec![Tok::P(lifetime.tk_apostrophe.as_char(), true), Tok::I(intern(&lifetime.name.to_string()))]),
                    venial::GenericArg::Binding { ident, tk_equals, ty } => {
                        if tk_equals.as_char() == '=' {
                            Arg::Bind(intern(&ident.to_string()), from_trees(&ty.tokens))
                        } else {
                            Arg::Other(vec![])
                        }
                    }
                    venial::GenericArg::TypeOrConst { expr } => Arg::Other(from_trees(&expr.tokens)),
                });
                obs::odd_clear();
                if got.items != *args || got.trail != (*trail && !args.is_empty()) {
                    return cx.fail(&t, format!("arguments of segment {i}: written {args:?}, reported {:?}", got.items));
                }
            }
            _ => return cx.fail(&t, format!("arguments of segment {i} misreported")),
        }
    }
    cx.outcome(xhash(&t));
}
const NON_PATHS: &[&str] = &[
    "&A",
    "&'a A",
    "&mut A",
    "&'a mut a::B<C>",
    "&&A",
    "*const A",
    "*mut a::B",
    "()",
    "(A)",
    "(A, B)",
    "(a::B<C>,)",
    "[A]",
    "[A; 3]",
    "[a::B<C>; N]",
    "!",
    "dyn A",
    "dyn A<B>",
    "dyn A + B",
    "dyn a::B<C> + 'a",
    "dyn ::a::B",
    "dyn for<'a> Fn(&'a A) -> B",
    "dyn for<'a> A<'a>",
    "dyn 'a + A",
    "dyn (A)",
    "impl A",
    "impl A<B = C>",
    "impl ::a::B",
    "impl A + 'a",
    "impl for<'a> A<'a>",
    "impl Fn(A) -> B",
    "fn()",
    "fn(A, B) -> C",
    "fn() -> a::B<C>",
    "unsafe fn(A)",
    "extern \"C\" fn(A)",
    "extern fn()",
    "unsafe extern \"C\" fn(A, ...) -> B",
    "for<'a> fn(&'a A)",
    "for<'a, 'b: 'a> fn(&'a A) -> &'b B",
    "for<'a> unsafe extern \"C\" fn()",
    "for<'a> A<'a>",
    "for<'a> Fn(&'a A)",
    "<A>::B",
    "<A as B>::C",
    "<A as b::C<D, E>>::F",
    "<A as B>::C<D>",
    "<<A as B>::C as D>::E",
    "<[A; N] as B>::C",
    "A + B",
    "A<B> + 'a",
    "",
    "m!(a)",
    "a::m![b]",
    "'a",
];
const PATH_UNITS: &[&str] = &[
    "a", "::", "<", ">", ",", "=", "'a", "B", "(A)", "{A}", "[A]", "&", "-", "1", ":", "!", "dyn", "+", "⟦A⟧", "'", "fn", "*", "a::b<C>",
];
pub fn c16(th: bool) -> Prop {
    let mut v = vec![];
    let names: &'static [S] = &["a", "r#type", "Self", "crate", "super", "union", "B", "self", "dyn_", "é"];
    v.push(space("segments", 0, move |ch, cx| {
        let lead = ch.free(2) == 1;
        let n = 1 + ch.free(3);
        let shapes: &[&[&str]] = &[&[], &["A"], &["'a", "B = C"], &["fn() -> A", "{ x }", "'b"]];
        let segs: Vec<Seg> = (0..n)
            .map(|i| {
                let name = if n < 3 { *ch.all(names) } else { names[(i * 3 + 1) % names.len()] };
                let a = ch.free(if n < 3 { 9 } else { 7 });
                let args = if a == 0 {
                    None
                } else {
                    let a = a - 1;
                    let s = shapes[a / 2];
                    Some((a % 2 == 1, s.iter().map(|s| arg_of(s)).collect::<Vec<_>>(), s.len() == 2))
                };
                Seg { name, args }
            })
            .collect();
        let how = ch.free(3);
        let tight = ch.free(2) == 1;
        check_path(cx, lead, &segs, how, tight);
    }));
    v.push(space("arguments", 0, move |ch, cx| {
        let n = ch.free(if th { 4 } else { 3 });
        let args: Vec<Arg> = (0..n).map(|_| arg_of(ch.all(PATH_ARGS))).collect();
        let fish = ch.free(2) == 1;
        let trail = n > 0 && ch.free(2) == 1;
        let shape = if n < 3 { ch.free(4) } else { 1 };
        let how = if n < 3 { ch.free(3) } else { 2 };
        let s = |name: S| Seg { name, args: None };
        let a = Seg { name: "X", args: Some((fish, args, trail)) };
        let (lead, segs) = match shape {
            0 => (false, vec![a]),
            1 => (true, vec![s("m"), a]),
            2 => (false, vec![a, s("Y")]),
            _ => (false, vec![s("m"), a, Seg { name: "Z", args: Some((false, vec![arg_of("'b"), arg_of("C = D")], false)) }]),
        };
        check_path(cx, lead, &segs, how, fish && trail);
    }));
    v.push(space("long", 0, move |ch, cx| {
        let n = 1 + *ch.all(LENS);
        let which = ch.free(3);
        let nm = |i: usize| intern(&format!("p{i}"));
        let segs: Vec<Seg> = match which {
            0 => (0..n).map(|i| Seg { name: nm(i), args: None }).collect(),
            1 => (0..n)
                .map(|i| Seg { name: nm(i), args: if i % 3 == 1 { Some((i % 2 == 0, vec![arg_of(PATH_ARGS[i % PATH_ARGS.len()])], false)) } else { None } })
                .collect(),
            _ => vec![Seg { name: "X", args: Some((false, (0..n).map(|i| arg_of(PATH_ARGS[i % PATH_ARGS.len()])).collect(), n % 2 == 0)) }],
        };
        let how = ch.free(3);
        check_path(cx, n % 2 == 1, &segs, how, false);
    }));
    v.push(space("not paths", 0, move |ch, cx| {
        let s = *ch.all(NON_PATHS);
        let mut t = lx(s);
        if ch.free(2) == 1 {
            tighten(&mut t);
        }
        let how = ch.free(if t.is_empty() { 2 } else { 3 });
        cx.input(&t);
        cx.impl_runs += 1;
        match as_path(&t, how) {
            Ok(None) => cx.outcome(0),
            Ok(Some(p)) => cx.fail(&t, format!("not a path type, but read as {:?}", print(&p).map(|o| show(&o)))),
            Err(m) => cx.fail(&t, format!("as_path panicked: {m}")),
        }
    }));
    v.push(space("all types", 0, move |ch, cx| {
        // whatever is returned prints back
        let t = if ch.free(2) == 0 { lx(ch.all(TYPES)) } else { tree(ch, if th { 3 } else { 2 }) };
        let how = ch.free(3);
        cx.input(&t);
        cx.impl_runs += 1;
        match as_path(&t, how) {
            Ok(None) => {
                if plain_path(&t) {
                    cx.fail(&t, "a path, but not read as one");
                }
            }
            Ok(Some(p)) => match print(&p) {
                Ok(o) if exact(&o, &t) => {
                    if !plain_path(&t) && t != lx("_") {
                        cx.fail(&t, "not a path type, but read as one");
                    }
                }
                o => cx.fail(&t, format!("path prints as {:?}", o.map(|o| show(&o)))),
            },
            Err(m) => cx.fail(&t, format!("as_path panicked: {m}")),
        }
        cx.outcome(plain_path(&t) as u64);
    }));
    v.push(space("paths with something before or after", 0, move |ch, cx| {
        const NAMES: &[&str] = &["a", "Self", "self", "crate", "super", "r#type", "Fn", "FnMut", "FnOnce", "Box", "Vec", "Option", "str", "u8", "T", "union", "auto", "default", "r#Self_", "macro_rules", "self_", "é"];
        const AFTER: &[&str] = &[
            "(A)", "()", "{ x }", "{}", "[A]", "[]", "⟦A⟧", "⟦⟧", "B", "1", "\"s\"", "'a", "+ A", "+", "= A", "!", "! ()", "-> A", "(A) -> B", "() -> A<B>", "as A", ": A", ",", ", A", ";", "? ", "::", ":: ()", ":: {}", ":: *", ":: 1", "&", "| A", ":: + A", "> A", "> ", "where A: B", "for A", ":", "= ",
            "::<A> B", "<A> B", "<A> (B)", "<A> {}", "<A>>", "<A> <B>", "::<A> ::<B>", "<A", "<", "::<",
        ];
        const BEFORE: &[&str] = &["&", "&'a", "&mut", "*const", "*mut", "mut", "dyn", "impl", "for<'a>", "fn", "?", "!", "~", "'a", "'a +", "1", "()", "(A)", "{}", "[A]", "⟦A⟧", "<A>", "<A as B>", "as", "B", "=", "+", ",", "-", ": ", "->", "dyn ::a +", "unsafe", "extern", "const"];
        let name = *ch.all(NAMES);
        let path = match ch.free(6) {
            0 => name.to_string(),
            1 => format!("::{name}"),
            2 => format!("x::{name}"),
            3 => format!("{name}::y"),
            4 => format!("{name}<A, B>"),
            _ => format!("x::<A>::{name}::<'a, B = C>"),
        };
        let t = match ch.free(2) {
            0 => lx(&format!("{path} {}", ch.all(AFTER))),
            _ => lx(&format!("{} {path}", ch.all(BEFORE))),
        };
        cx.input(&t);
        cx.impl_runs += 1;
        for how in 0..2 {
            match as_path(&t, how) {
                Ok(None) => {
                    if plain_path(&t) {
                        cx.fail(&t, "a path, but not read as one");
                    }
                }
                Ok(Some(p)) => match print(&p) {
                    Ok(o) if exact(&o, &t) => {}
                    o => cx.fail(&t, format!("path prints as {:?}", o.map(|o| show(&o)))),
                },
                Err(_) => cx.rejected += 1,
            }
        }
    }));
    v.push(space("token strings", 0, move |ch, cx| {
        // not necessarily types: whatever is returned prints back
        let n = 1 + ch.free(if th { 6 } else { 5 });
        let mut t: Toks = vec![];
        let alpha = if n < 5 { PATH_UNITS } else { &PATH_UNITS[..if n == 5 { 14 } else { 9 }] };
        for _ in 0..n {
            t.extend(strings::unit(ch.all(alpha)));
        }
        cx.input(&t);
        cx.impl_runs += 1;
        // one invisible group around the whole is not part of the path
        let (t, hows) = match t.as_slice() {
            [Tok::G(D::N, b)] => (b.clone(), 1..2),
            _ => (t, 0..2),
        };
        for how in hows {
            match as_path(&t, how) {
                Ok(None) => {
                    if plain_path(&t) {
                        cx.fail(&t, "a path, but not read as one");
                    }
                }
                Ok(Some(p)) => match print(&p) {
                    Ok(o) if exact(&o, &t) => {}
                    o => cx.fail(&t, format!("path prints as {:?}", o.map(|o| show(&o)))),
                },
                Err(_) => cx.rejected += 1,
            }
        }
    }));
    Prop {
        id: "C16",
        spaces: v,
        rule: "all paths of up to 3 segments x argument lists, all argument lists of up to 2 (3) arguments in 4 places, paths of up to 301 segments or arguments, directly, in an invisible group and as a parsed field type; all non-path types of a table; all types of the alphabet and type grammar; all strings of up to 5 (6) path-like units: as_path must succeed exactly on paths, report their parts and print back",
    }
}
/// Reference decision: identifiers (not dyn, impl, for, fn...) joined by `::`
/// with balanced generic arguments.
fn plain_path(t: &[Tok]) -> bool {
    let mut i = 0;
    let c2 = |i: usize| matches!((t.get(i), t.get(i + 1)), (Some(Tok::P(':', true)), Some(Tok::P(':', _))));
    if c2(i) {
        i += 2;
    }
    loop {
        match t.get(i) {
            Some(Tok::I("dyn" | "impl" | "for" | "fn" | "unsafe" | "extern" | "_")) => return false,
            Some(Tok::I(_)) => i += 1,
            _ => return false,
        }
        let mut j = i;
        if c2(j) {
            j += 2;
        }
        if matches!(t.get(j), Some(Tok::P('<', _))) {
            let mut d = 0;
            loop {
                match t.get(j) {
                    Some(Tok::P('<', _)) => d += 1,
                    Some(Tok::P('>', _)) if !matches!(t[j - 1], Tok::P('-', _)) => d -= 1,
                    None => return false,
                    _ => {}
                }
                j += 1;
                if d == 0 {
                    break;
                }
            }
            i = j;
        }
        if i == t.len() {
            return true;
        }
        if !c2(i) {
            return false;
        }
        i += 2;
    }
}

// ---------------------------------------------------------------- C19

/// Applies `f` to the type, bound and left-side slots, in order.
pub fn slots(it: &mut It, f: &mut dyn FnMut(&mut Toks, bool)) {
    fn gen(g: &mut Gen, f: &mut dyn FnMut(&mut Toks, bool)) {
        if let Some(l) = g {
            for g in &mut l.items {
                if let Some(b) = &mut g.bound {
                    f(b, g.kind == GK::Life);
                }
            }
        }
    }
    fn wh(w: &mut Wh, f: &mut dyn FnMut(&mut Toks, bool)) {
        if let Some(l) = w {
            for q in &mut l.items {
                let life = matches!(q.left.first(), Some(Tok::P('\'', _)));
                f(&mut q.left, life);
                f(&mut q.bound, life);
            }
        }
    }
    fn nf(l: &mut List<NF>, f: &mut dyn FnMut(&mut Toks, bool)) {
        for x in &mut l.items {
            f(&mut x.ty, false);
        }
    }
    fn flds(x: &mut Flds, f: &mut dyn FnMut(&mut Toks, bool)) {
        match x {
            Flds::Unit => {}
            Flds::Tuple(l) => {
                for x in &mut l.items {
                    f(&mut x.ty, false);
                }
            }
            Flds::Named(l) => nf(l, f),
        }
    }
    match &mut it.kind {
        Kind::Struct { gen: g, wh: w, flds: x, .. } => {
            gen(g, f);
            wh(w, f);
            flds(x, f);
        }
        Kind::Enum { gen: g, wh: w, vars, .. } => {
            gen(g, f);
            wh(w, f);
            for v in &mut vars.items {
                flds(&mut v.flds, f);
            }
        }
        Kind::Union { gen: g, wh: w, flds: x, .. } => {
            gen(g, f);
            wh(w, f);
            nf(x, f);
        }
        Kind::Fn(x) => {
            gen(&mut x.gen, f);
            for q in &mut x.params.items {
                if let Param::Typed { ty, .. } = q {
                    f(ty, false);
                }
            }
            if let Some(r) = &mut x.ret {
                f(r, false);
            }
            wh(&mut x.wh, f);
        }
        Kind::Konst { ty, init, .. } => {
            f(ty, false);
            if let Some(i) = init {
                f(i, false);
            }
        }
        Kind::Alias { bound, ty, .. } => {
            if let Some(b) = bound {
                f(b, false);
            }
            if let Some(t) = ty {
                f(t, false);
            }
        }
        Kind::Impl { gen: g, tr, ty, wh: w, items, .. } => {
            gen(g, f);
            if let Some(t) = tr {
                f(t, false);
            }
            f(ty, false);
            wh(w, f);
            for i in items {
                slots(i, f);
            }
        }
        Kind::Trait { gen: g, bound, wh: w, items, .. } => {
            gen(g, f);
            if let Some(b) = bound {
                f(b, false);
            }
            wh(w, f);
            for i in items {
                slots(i, f);
            }
        }
        Kind::Mod { body: Some((_, items)), .. } | Kind::ExtB { items, .. } => {
            for i in items {
                slots(i, f);
            }
        }
        _ => {}
    }
}
/// Punctuation tokens whose spacing carries no meaning (first of two colons
/// and apostrophes excluded), by number.
fn flippable(t: &[Tok], n: &mut usize, o: &mut Vec<usize>) {
    for i in 0..t.len() {
        let me = *n;
        *n += 1;
        match &t[i] {
            Tok::P('\'', _) => {}
            Tok::P(':', _) if matches!(t.get(i + 1), Some(Tok::P(':', _))) => {}
            Tok::P(..) => o.push(me),
            Tok::G(_, b) => flippable(b, n, o),
            _ => {}
        }
    }
}
fn all_spacing(t: &mut Toks, joint: bool) {
    for i in 0..t.len() {
        let next_colon = matches!(t.get(i + 1), Some(Tok::P(':', _)));
        match &mut t[i] {
            Tok::P('\'', _) => {}
            Tok::P(':', _) if next_colon => {}
            Tok::P(_, j) => *j = joint,
            Tok::G(_, b) => all_spacing(b, joint),
            _ => {}
        }
    }
}
fn same(cx: &mut Ctx, it: &It, t: &Toks, how: &str) {
    cx.input(t);
    cx.impl_runs += 1;
    match parse_toks(t) {
        Out::Item(i) => {
            let got = match guard(|| obs::item(&i)) {
                Ok(g) => g.0,
                Err(m) => return cx.fail(t, format!("reading the item panicked: {m}")),
            };
            if let Some(d) = diff(it, &got, cls::ALL) {
                cx.fail(t, format!("{how}: {d}"));
            }
            cx.outcome(shape(&got));
        }
        o => cx.fail(t, format!("{how}: {}", o.name())),
    }
}
fn spacing(it: &It, t: &Toks, cx: &mut Ctx, ch: &mut Ch) {
    match ch.free(5) {
        0 => {
            let mut t = t.clone();
            all_spacing(&mut t, false);
            same(cx, it, &t, "all punctuation alone");
        }
        1 => {
            let mut t = t.clone();
            all_spacing(&mut t, true);
            same(cx, it, &t, "all punctuation joint");
        }
        2 => {
            let mut t = t.clone();
            tighten(&mut t);
            same(cx, it, &t, "written tightly");
        }
        3 => {
            // through source text
            match show(t).parse::<TokenStream>() {
                Ok(ts) => {
                    let u = from_stream(ts);
                    if u == *t {
                        same(cx, it, &u, "lexed from text");
                    } else {
                        cx.skipped += 1;
                    }
                }
                Err(_) => cx.skipped += 1,
            }
        }
        _ => {
            let mut v = vec![];
            flippable(t, &mut 0, &mut v);
            if v.is_empty() {
                return;
            }
            let i = *ch.all(&v);
            let mut t = t.clone();
            strings::at(&mut t, i, &mut |v, k| {
                if let Tok::P(_, j) = &mut v[k] {
                    *j = !*j
                }
            });
            same(cx, it, &t, &format!("spacing of token {i} flipped"));
        }
    }
}
fn grouped(it: &It, cx: &mut Ctx, ch: &mut Ch) {
    let mut n = 0;
    let mut idx = vec![];
    slots(&mut it.clone(), &mut |t, life| {
        if !life && !t.is_empty() {
            idx.push(n);
        }
        n += 1;
    });
    if idx.is_empty() {
        return;
    }
    // one slot, or all of them
    let which = ch.free(idx.len() + 1);
    let mut m = it.clone();
    let mut n = 0;
    slots(&mut m, &mut |t, life| {
        if !life && !t.is_empty() && (which == idx.len() || idx[which] == n) {
            *t = vec![Tok::G(D::N, std::mem::take(t))];
        }
        n += 1;
    });
    same(cx, &m, &m.toks(), "type or bound in an invisible group");
}
pub fn c19(th: bool) -> Prop {
    let mut v = vec![];
    for (name, rich, small, k) in [
        ("min/full", false, false, if th { 2 } else { 1 }),
        ("rich/full", true, false, 1),
        ("min/small", false, true, if th { 3 } else { 2 }),
        ("rich/small", true, true, if th { 2 } else { 1 }),
    ] {
        for part in 0..2 {
            let sp = space(&format!("{}/{name}", ["spacing", "groups"][part]), k, move |ch, cx| {
                let kind = *ch.all(KINDS);
                let ws = wraps(kind);
                let w = *ch.all(ws);
                let it = wrap(gen::item(ch, kind, cx_of(w), 2), w);
                if part == 0 {
                    spacing(&it, &it.toks(), cx, ch);
                } else {
                    grouped(&it, cx, ch);
                }
            });
            let sp = if rich { sp.rich() } else { sp };
            v.push(if small { sp.small() } else { sp });
        }
    }
    v.push(space("spacing/types and bounds", 0, move |ch, cx| {
        let it = match ch.free(3) {
            0 => {
                let ty = lx(ch.all(TYPES));
                type_at(ch.free(TYPE_POS), ty)
            }
            1 => {
                let b = lx(ch.all(BOUNDS));
                bound_at(ch.free(BOUND_POS), b)
            }
            _ => {
                let ty = tree(ch, if th { 2 } else { 1 });
                type_at(ch.free(TYPE_POS), ty)
            }
        };
        if ch.free(2) == 0 {
            spacing(&it, &it.toks(), cx, ch);
        } else {
            grouped(&it, cx, ch);
        }
    }));
    // where predicates parsed on their own, and paths
    v.push(space("spacing/predicate and path", 0, move |ch, cx| {
        if ch.free(2) == 0 {
            let (le, bo) = (lx(ch.all(LEFTS)), lx(ch.all(BOUNDS)));
            let mut t = le.clone();
            t.push(p(':'));
            t.extend(bo.iter().cloned());
            let mut f = vec![];
            flippable(&t, &mut 0, &mut f);
            if f.is_empty() {
                return;
            }
            let i = *ch.all(&f);
            strings::at(&mut t, i, &mut |v, k| {
                if let Tok::P(_, j) = &mut v[k] {
                    *j = !*j
                }
            });
            cx.input(&t);
            cx.impl_runs += 1;
            match guard(|| venial::WhereClausePredicate::parse(to_stream(&t))) {
                Ok(q) => {
                    let got = obs::pred(&q);
                    if got != (Pred { left: le, bound: bo }) {
                        cx.fail(&t, format!("predicate split into `{}` and `{}`", show(&got.left), show(&got.bound)));
                    }
                }
                Err(m) => cx.fail(&t, format!("predicate not accepted: {m}")),
            }
        } else {
            let t = lx(ch.all(TYPES));
            let mut f = vec![];
            flippable(&t, &mut 0, &mut f);
            if f.is_empty() {
                return;
            }
            let i = *ch.all(&f);
            let mut u = t.clone();
            strings::at(&mut u, i, &mut |v, k| {
                if let Tok::P(_, j) = &mut v[k] {
                    *j = !*j
                }
            });
            cx.input(&u);
            cx.impl_runs += 2;
            let sig = |t: &Toks| -> String {
                match as_path(t, 0) {
                    Ok(Some(p)) => p
                        .segments
                        .iter()
                        .map(|s| {
                            format!(
                                "{} {} {:?};",
                                s.tk_separator_colons.is_some(),
                                s.ident,
                                s.generic_args.as_ref().map(|g| {
                                    g.args
                                        .items()
                                        .map(|a| match a {
                                            venial::GenericArg::Lifetime { lifetime } => format!("'{}", lifetime.name),
                                            venial::GenericArg::Binding { ident, ty, .. } => format!("{ident} = {}", shown(&from_trees(&ty.tokens))),
                                            venial::GenericArg::TypeOrConst { expr } => shown(&from_trees(&expr.tokens)),
                                        })
                                        .collect::<Vec<_>>()
                                })
                            )
                        })
                        .collect(),
                    Ok(None) => "none".into(),
                    Err(m) => format!("panic {m}"),
                }
            };
            let (a, b) = (sig(&t), sig(&u));
            if a != b {
                cx.fail(&u, format!("as_path depends on spacing: {a} / {b}"));
            }
        }
    }));
    Prop {
        id: "C19",
        spaces: v,
        rule: "every declaration of the grammar with all punctuation alone, all joint, tight, lexed from text, and with the spacing of each single punctuation token flipped (except the first of two colons and apostrophes); every type, bound and left-side slot (and all at once) put into an invisible group; all types and bounds in all positions: the reported structure must be the declared one",
    }
}
