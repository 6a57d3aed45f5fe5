//! C22, C23: the parts of an item on their own: printing and debug output.
use super::parse_props::*;
use crate::common::*;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::tok::*;
use crate::Prop;
use quote::ToTokens;
use std::fmt::Debug;
use venial as v;

// ---------------------------------------------------------------- walking

/// Visits every part of an item together with its declaration.
trait Visit {
    fn part(&mut self, what: &str, x: &(impl ToTokens + Debug + Clone), want: Toks);
}
fn tk<T: ?Sized>(f: impl Fn(&T, &mut Toks), x: &T) -> Toks {
    let mut o = vec![];
    f(x, &mut o);
    o
}
fn after_colon(b: &[Tok]) -> Toks {
    let mut o = vec![p(':')];
    o.extend(b.iter().cloned());
    o
}
fn attrs(w: &mut impl Visit, a: &[v::Attribute], m: &Attrs) {
    for (a, m) in a.iter().zip(m) {
        w.part("attribute", a, tk(|x, o| pattrs(std::slice::from_ref(x), o), m));
        w.part("attribute value", &a.value, tk(paval, &m.val));
    }
}
fn vis(w: &mut impl Visit, a: &Option<v::VisMarker>, m: &Vis) {
    if let Some(a) = a {
        w.part("visibility", a, m.clone());
    }
}
fn typ(w: &mut impl Visit, what: &str, t: &v::TypeExpr, m: &Toks) {
    w.part(what, t, m.clone());
    if let Ok(Some(path)) = guard(|| t.as_path()) {
        let m = match m.as_slice() {
            [Tok::G(D::N, b)] => b,
            _ => m,
        };
        w.part("path", &path, m.clone());
        // the segments, and their argument lists, make up the path
        let mut rest = m.as_slice();
        for seg in &path.segments {
            let colons = if seg.tk_separator_colons.is_some() { 2 } else { 0 };
            let turbo = |a: &v::GenericArgList| if a.tk_turbofish_colons.is_some() { 2 } else { 0 };
            let inner = |a: &v::GenericArgList| from_stream(a.args.to_token_stream()).len();
            let n = colons + 1 + seg.generic_args.as_ref().map_or(0, |a| turbo(a) + 2 + inner(a));
            let (now, later) = rest.split_at(n.min(rest.len()));
            w.part("path segment", seg, now.to_vec());
            if let Some(a) = &seg.generic_args {
                let list = &now[(colons + 1).min(now.len())..];
                w.part("argument list", a, list.to_vec());
                let mut args = &list[(turbo(a) + 1).min(list.len())..list.len().max(1) - 1];
                w.part("arguments", &a.args, args.to_vec());
                for (x, _) in a.args.iter() {
                    let k = from_stream(x.to_token_stream()).len();
                    w.part("argument", x, args[..k.min(args.len())].to_vec());
                    args = &args[(k + 1).min(args.len())..];
                }
            }
            rest = later;
        }
        if !rest.is_empty() {
            w.part("path", &path, rest.to_vec());
        }
    }
}
fn gen(w: &mut impl Visit, g: &Option<v::GenericParamList>, m: &Gen) {
    if let (Some(g), Some(ml)) = (g, m) {
        w.part("parameter list", g, tk(pgen, m));
        w.part("parameters", &g.params, tk(|l, o| plist(l, o, pgp), ml));
        for (x, m) in g.params.items().zip(&ml.items) {
            w.part("generic parameter", x, tk(pgp, m));
            if let (Some(b), Some(m)) = (&x.bound, &m.bound) {
                w.part("bound of a parameter", b, after_colon(m));
            }
        }
    }
}
fn wh(w: &mut impl Visit, g: &Option<v::WhereClause>, m: &Wh) {
    if let (Some(g), Some(ml)) = (g, m) {
        w.part("where clause", g, tk(pwh, m));
        w.part("predicates", &g.items, tk(|l, o| plist(l, o, ppred), ml));
        for (x, m) in g.items.items().zip(&ml.items) {
            w.part("predicate", x, tk(ppred, m));
            w.part("bound of a predicate", &x.bound, after_colon(&m.bound));
        }
    }
}
fn named(w: &mut impl Visit, l: &v::NamedFields, m: &List<NF>) {
    w.part("named fields", l, tk(pnf, m));
    w.part("named field list", &l.fields, tk(|l, o| plist(l, o, pnf1), m));
    for (x, m) in l.fields.items().zip(&m.items) {
        w.part("named field", x, tk(pnf1, m));
        attrs(w, &x.attributes, &m.attrs);
        vis(w, &x.vis_marker, &m.vis);
        typ(w, "field type", &x.ty, &m.ty);
    }
}
fn fields(w: &mut impl Visit, f: &v::Fields, m: &Flds) {
    w.part("fields", f, tk(pflds, m));
    match (f, m) {
        (v::Fields::Tuple(l), Flds::Tuple(ml)) => {
            w.part("tuple fields", l, tk(pflds, m));
            w.part("tuple field list", &l.fields, tk(|l, o| plist(l, o, ptf1), ml));
            for (x, m) in l.fields.items().zip(&ml.items) {
                w.part("tuple field", x, tk(ptf1, m));
                attrs(w, &x.attributes, &m.attrs);
                vis(w, &x.vis_marker, &m.vis);
                typ(w, "field type", &x.ty, &m.ty);
            }
        }
        (v::Fields::Named(l), Flds::Named(m)) => named(w, l, m),
        _ => {}
    }
}
fn func(w: &mut impl Visit, f: &v::Function, m: &It) {
    w.part("function", f, m.toks());
    attrs(w, &f.attributes, &m.attrs);
    vis(w, &f.vis_marker, &m.vis);
    if let Kind::Fn(m) = &m.kind {
        w.part("qualifiers", &f.qualifiers, tk(pquals, &m.quals));
        gen(w, &f.generic_params, &m.gen);
        wh(w, &f.where_clause, &m.wh);
        w.part("function parameters", &f.params, tk(|l, o| plist(l, o, pparam), &m.params));
        for (x, m) in f.params.items().zip(&m.params.items) {
            w.part("function parameter", x, tk(pparam, m));
            match (x, m) {
                (v::FnParam::Receiver(x), Param::Recv { attrs: a, life, .. }) => {
                    w.part("receiver", x, tk(pparam, m));
                    attrs(w, &x.attributes, a);
                    if let (Some(l), Some(m)) = (&x.lifetime, life) {
                        w.part("lifetime", l, vec![Tok::P('\'', true), Tok::I(m)]);
                    }
                }
                (v::FnParam::Typed(x), Param::Typed { attrs: a, ty, .. }) => {
                    w.part("typed parameter", x, tk(pparam, m));
                    attrs(w, &x.attributes, a);
                    typ(w, "parameter type", &x.ty, &ty);
                }
                _ => {}
            }
        }
        if let (Some(t), Some(m)) = (&f.return_ty, &m.ret) {
            typ(w, "return type", t, &m);
        }
    }
}
fn konst(w: &mut impl Visit, x: &v::Constant, m: &It) {
    w.part("constant", x, m.toks());
    attrs(w, &x.attributes, &m.attrs);
    vis(w, &x.vis_marker, &m.vis);
    if let Kind::Konst { ty, init, .. } = &m.kind {
        typ(w, "type of a constant", &x.ty, &ty);
        if let (Some(i), Some(m)) = (&x.initializer, init) {
            w.part("initializer", i, m.clone());
        }
    }
}
fn alias(w: &mut impl Visit, x: &v::TypeAlias, m: &It) {
    w.part("type alias", x, m.toks());
    attrs(w, &x.attributes, &m.attrs);
    vis(w, &x.vis_marker, &m.vis);
    if let Kind::Alias { bound, ty, .. } = &m.kind {
        if let (Some(b), Some(m)) = (&x.bound, bound) {
            w.part("bound of an associated type", b, after_colon(m));
        }
        if let (Some(t), Some(m)) = (&x.initializer_ty, ty) {
            typ(w, "aliased type", t, &m);
        }
    }
}
fn mac(w: &mut impl Visit, x: &v::Macro, m: &It) {
    w.part("macro", x, m.toks());
    attrs(w, &x.attributes, &m.attrs);
}
fn impl_member(w: &mut impl Visit, x: &v::ImplMember, m: &It) {
    w.part("impl member", x, m.toks());
    match x {
        v::ImplMember::AssocFunction(x) => func(w, x, m),
        v::ImplMember::AssocConstant(x) => konst(w, x, m),
        v::ImplMember::AssocType(x) => alias(w, x, m),
        v::ImplMember::Macro(x) => mac(w, x, m),
        _ => {}
    }
}
fn trait_member(w: &mut impl Visit, x: &v::TraitMember, m: &It) {
    w.part("trait member", x, m.toks());
    match x {
        v::TraitMember::AssocFunction(x) => func(w, x, m),
        v::TraitMember::AssocConstant(x) => konst(w, x, m),
        v::TraitMember::AssocType(x) => alias(w, x, m),
        v::TraitMember::Macro(x) => mac(w, x, m),
        _ => {}
    }
}
fn walk(w: &mut impl Visit, i: &v::Item, m: &It) {
    use v::Item as I;
    w.part("item", i, m.toks());
    match (i, &m.kind) {
        (I::Struct(x), Kind::Struct { gen: g, wh: q, flds, .. }) => {
            w.part("struct", x, m.toks());
            attrs(w, &x.attributes, &m.attrs);
            vis(w, &x.vis_marker, &m.vis);
            gen(w, &x.generic_params, g);
            wh(w, &x.where_clause, q);
            fields(w, &x.fields, flds);
        }
        (I::Enum(x), Kind::Enum { gen: g, wh: q, vars, .. }) => {
            w.part("enum", x, m.toks());
            attrs(w, &x.attributes, &m.attrs);
            vis(w, &x.vis_marker, &m.vis);
            gen(w, &x.generic_params, g);
            wh(w, &x.where_clause, q);
            w.part("variants", &x.variants, tk(|l, o| plist(l, o, pvar), vars));
            for (x, m) in x.variants.items().zip(&vars.items) {
                w.part("variant", x, tk(pvar, m));
                attrs(w, &x.attributes, &m.attrs);
                vis(w, &x.vis_marker, &m.vis);
                fields(w, &x.fields, &m.flds);
                if let (Some(d), Some(m)) = (&x.value, &m.disc) {
                    let mut o = vec![p('=')];
                    o.extend(m.iter().cloned());
                    w.part("discriminant", d, o);
                }
            }
        }
        (I::Union(x), Kind::Union { gen: g, wh: q, flds, .. }) => {
            w.part("union", x, m.toks());
            attrs(w, &x.attributes, &m.attrs);
            vis(w, &x.vis_marker, &m.vis);
            gen(w, &x.generic_params, g);
            wh(w, &x.where_clause, q);
            named(w, &x.fields, flds);
        }
        (I::Function(x), _) => func(w, x, m),
        (I::Constant(x), _) => konst(w, x, m),
        (I::TypeAlias(x), _) => alias(w, x, m),
        (I::Macro(x), _) => mac(w, x, m),
        (I::UseDeclaration(x), Kind::Use(t)) => {
            w.part("use", x, m.toks());
            attrs(w, &x.attributes, &m.attrs);
            vis(w, &x.vis_marker, &m.vis);
            w.part("import tree", &x.import_tree, t.clone());
        }
        (I::Impl(x), Kind::Impl { gen: g, wh: q, tr, ty, inner, items, .. }) => {
            w.part("impl", x, m.toks());
            attrs(w, &x.attributes, &m.attrs);
            gen(w, &x.impl_generic_params, g);
            wh(w, &x.where_clause, q);
            if let (Some(t), Some(m)) = (&x.trait_ty, tr) {
                typ(w, "implemented trait", t, &m);
            }
            typ(w, "self type", &x.self_ty, &ty);
            attrs(w, &x.inner_attributes, inner);
            for (x, m) in x.body_items.iter().zip(items) {
                impl_member(w, x, m);
            }
        }
        (I::Trait(x), Kind::Trait { gen: g, wh: q, bound, inner, items, .. }) => {
            w.part("trait", x, m.toks());
            attrs(w, &x.attributes, &m.attrs);
            vis(w, &x.vis_marker, &m.vis);
            gen(w, &x.generic_params, g);
            wh(w, &x.where_clause, q);
            if let (Some(b), Some(m)) = (&x.bound, bound) {
                w.part("supertraits", b, after_colon(m));
            }
            attrs(w, &x.inner_attributes, inner);
            for (x, m) in x.body_items.iter().zip(items) {
                trait_member(w, x, m);
            }
        }
        (I::Module(x), Kind::Mod { body, .. }) => {
            w.part("module", x, m.toks());
            attrs(w, &x.attributes, &m.attrs);
            vis(w, &x.vis_marker, &m.vis);
            if let Some((inner, items)) = body {
                attrs(w, &x.inner_attributes, inner);
                for (x, m) in x.members.iter().zip(items) {
                    walk(w, x, m);
                }
            }
        }
        (I::ExternBlock(x), Kind::ExtB { inner, items, .. }) => {
            w.part("extern block", x, m.toks());
            attrs(w, &x.attributes, &m.attrs);
            vis(w, &x.vis_marker, &m.vis);
            attrs(w, &x.inner_attributes, inner);
            for (x, m) in x.body_items.iter().zip(items) {
                impl_member(w, x, m);
            }
        }
        (I::ExternCrate(x), _) => {
            w.part("extern crate", x, m.toks());
            attrs(w, &x.attributes, &m.attrs);
            vis(w, &x.vis_marker, &m.vis);
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- C22

struct Prints {
    /// print after each of many tokens
    prefixes: bool,
    bad: Option<String>,
    parts: u64,
    exact: bool,
}
impl Visit for Prints {
    fn part(&mut self, what: &str, x: &(impl ToTokens + Debug + Clone), want: Toks) {
        if self.bad.is_some() {
            return;
        }
        self.parts += 1;
        let same = |a: &Toks, b: &Toks| if self.exact { exact(a, b) } else { a == b };
        let got = from_stream(x.to_token_stream());
        if !same(&got, &want) {
            self.bad = Some(format!("{what} prints as `{}`, written `{}`", show(&got), show(&want)));
            return;
        }
        // after other tokens, twice, and from a clone
        // after anything: what stands before must not matter
        for pre in if self.prefixes { PREFIXES } else { &PREFIXES[..1] } {
            let mut w = lx(pre);
            let mut ts = to_stream(&w);
            x.to_tokens(&mut ts);
            x.clone().to_tokens(&mut ts);
            w.extend(want.iter().cloned());
            w.extend(want.iter().cloned());
            let got = from_stream(ts);
            if !same(&got, &w) {
                self.bad = Some(format!("{what} appended twice to `{pre}` gives `{}`, expected `{}`", show(&got), show(&w)));
                return;
            }
        }
        if !same(&from_stream(x.clone().into_token_stream()), &want) {
            self.bad = Some(format!("{what} is converted to other tokens than it prints"));
        }
    }
}
const PREFIXES: &[&str] = &["pre { }", "x,", ";", "<", "a:", "=", "where", "pub", "#", "-", "> >", "1", "A::", "+", "&", "where A: B"];
fn parts_print(it: &It, t: &Toks, cx: &mut Ctx) {
    parts_printed(it, t, cx, false)
}
fn parts_print_anywhere(it: &It, t: &Toks, cx: &mut Ctx) {
    parts_printed(it, t, cx, true)
}
fn parts_printed(it: &It, t: &Toks, cx: &mut Ctx, prefixes: bool) {
    let i = match accept_quiet(cx, t) {
        Some(i) => i,
        None => return,
    };
    let mut w = Prints { prefixes, bad: None, parts: 0, exact: exact(t, &it.toks()) };
    if let Err(m) = guard(|| walk(&mut w, &i, it)) {
        return cx.fail(t, format!("printing a part panicked: {m}"));
    }
    if let Some(b) = w.bad {
        cx.fail(t, b);
    }
    cx.outcome(w.parts << 32 | t.len() as u64);
}
pub fn c22(th: bool) -> Prop {
    let b = if th {
        Bounds { full: 2, full_rich: 1, small: 4, small_rich: 2 }
    } else {
        Bounds { full: 1, full_rich: 1, small: 3, small_rich: 1 }
    };
    let mut v = grammar(KINDS, b, parts_print);
    v.push(space("after other tokens", 1, |ch, cx| {
        let kind = *ch.all(KINDS);
        let it = crate::gen::item(ch, kind, Cx::Top, 2);
        go(cx, &it, false, parts_print_anywhere);
    }));
    v.push(space("after other tokens/rich", 1, |ch, cx| {
        let kind = *ch.all(KINDS);
        let it = crate::gen::item(ch, kind, Cx::Top, 2);
        go(cx, &it, false, parts_print_anywhere);
    }).rich().small());
    v.push(long(ALL_LONG, parts_print));
    v.push(type_space(parts_print, 2));
    v.push(scaled_space(parts_print));
    Prop {
        id: "C22",
        spaces: v,
        rule: "declarations from the grammar, long lists, all types and bounds in all positions; every part of each of them that can be printed (items, members, attributes and their values, visibilities, parameter lists, parameters, bounds, where clauses, predicates, fields, variants, discriminants, function parameters, receivers, qualifiers, types, initializers, import trees, separated lists) must print as exactly the tokens declared for it, alone, after each of a list of other tokens, twice in a row and from a clone",
    }
}

// ---------------------------------------------------------------- C23

/// The words (identifiers, literals) of a declaration.
fn words(t: &[Tok], o: &mut std::collections::BTreeMap<String, usize>) {
    for x in t {
        match x {
            // the keyword of a where clause is not shown, its predicates are
            Tok::I("where") => {}
            Tok::I(s) => *o.entry(s.to_string()).or_default() += 1,
            Tok::L(s) => *o.entry(s.to_string()).or_default() += 1,
            Tok::G(_, b) => words(b, o),
            Tok::P(..) => {}
        }
    }
}
struct Debugs {
    bad: Option<String>,
    parts: u64,
}
impl Visit for Debugs {
    fn part(&mut self, what: &str, x: &(impl ToTokens + Debug + Clone), want: Toks) {
        if self.bad.is_some() {
            return;
        }
        self.parts += 1;
        let pretty = want.len() < 30 || what == "item";
        let (a, b) = (format!("{x:?}"), if pretty { format!("{x:#?}") } else { String::new() });
        if format!("{:?}", x.clone()) != a {
            self.bad = Some(format!("debug text of {what} changes"));
        }
        let mut w = Default::default();
        words(&want, &mut w);
        for (s, n) in w {
            for text in [&a, &b].into_iter().take(if b.is_empty() { 1 } else { 2 }) {
                if count_word(text, &s) < n {
                    self.bad = Some(format!("debug text of {what} `{}` shows {s} {} times, it is written {n} times: {a}", show(&want), count_word(text, &s)));
                    return;
                }
            }
        }
    }
}
/// Occurrences not adjoining a character of a longer word.
fn count_word(text: &str, w: &str) -> usize {
    let word = |c: Option<char>| c.is_some_and(|c| c.is_alphanumeric() || c == '_');
    let find = |w: &str| {
        text.match_indices(w)
            .filter(|(i, _)| {
                let first = w.chars().next();
                let last = w.chars().next_back();
                !(word(first) && word(text[..*i].chars().next_back())) && !(word(last) && word(text[i + w.len()..].chars().next()))
            })
            .count()
    };
    // a literal may be shown quoted
    let q = format!("{w:?}");
    let q = &q[1..q.len() - 1];
    find(w) + if q != w { find(q) } else { 0 }
}
fn parts_debug(it: &It, t: &Toks, cx: &mut Ctx) {
    let i = match accept_quiet(cx, t) {
        Some(i) => i,
        None => return,
    };
    let mut w = Debugs { bad: None, parts: 0 };
    if let Err(m) = guard(|| walk(&mut w, &i, it)) {
        return cx.fail(t, format!("formatting a part for debugging panicked: {m}"));
    }
    if let Some(b) = w.bad {
        cx.fail(t, b);
    }
    cx.outcome(w.parts << 32 | t.len() as u64);
}
pub fn c23(th: bool) -> Prop {
    let b = if th {
        Bounds { full: 2, full_rich: 1, small: 3, small_rich: 2 }
    } else {
        Bounds { full: 1, full_rich: 1, small: 2, small_rich: 1 }
    };
    let mut v = grammar(KINDS, b, parts_debug);
    v.push(type_space(parts_debug, 1));
    v.push(scaled_to(&SIZES[..SIZES.len() - 2], parts_debug));
    v.push(space("contents of groups", 0, move |ch, cx| {
        let t = lx(ch.all(OPAQUE));
        let n = if ch.free(2) == 0 { ch.free(24) } else { *ch.all(LENS) };
        let wrap = ch.free(4);
        let mut h: Toks = vec![];
        for i in 0..n {
            h.push(match i % 3 {
                0 => Tok::I(intern(&format!("w{i}"))),
                1 => Tok::L(intern(&format!("{i}"))),
                _ => Tok::G(D::P, vec![Tok::I(intern(&format!("v{i}")))]),
            });
        }
        // deep inside
        for k in 0..wrap * 5 {
            h = vec![Tok::I(intern(&format!("d{k}"))), Tok::G(if k % 2 == 0 { D::B } else { D::C }, h)];
        }
        let t = subst(&t, &h);
        cx.input(&t);
        cx.impl_runs += 1;
        let i = match accept_quiet(cx, &t) {
            Some(i) => i,
            None => return,
        };
        let mut w = Debugs { bad: None, parts: 0 };
        if let Err(m) = guard(|| w.part("item", &i, t.clone())) {
            return cx.fail(&t, format!("formatting for debugging panicked: {m}"));
        }
        if let Some(b) = w.bad {
            cx.fail(&t, b);
        }
        cx.outcome(n as u64);
    }));
    Prop {
        id: "C23",
        spaces: v,
        rule: "declarations from the grammar, all types and bounds in all positions, opaque groups of up to 300 tokens and 15 levels; formatting every part of each of them for debugging, compact and pretty, must not panic, must give the same text again and for a clone, and must show every identifier and literal (other than the where keyword) at least as often as it was written in that part",
    }
}

// ---------------------------------------------------------------- C24

/// Words that have a meaning in some position; never renamed.
const KEYWORDS: &[&str] = &[
    "as", "async", "await", "auto", "break", "const", "continue", "crate", "default", "dyn", "else", "enum", "extern", "false", "fn", "for",
    "if", "impl", "in", "let", "loop", "macro_rules", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct",
    "super", "trait", "true", "type", "union", "unsafe", "use", "where", "while", "_",
];
/// Any name is as good as any other, those that look like something included.
pub const NAMES: &[&str] = &[
    "union", "default", "auto", "macro_rules", "safe", "raw", "r#fn", "r#struct", "r#where", "r#pub", "r#for", "r#const", "r#mut", "r#union", "r#default", "r#x",
    "selfish", "myself", "mutable", "amut", "whereas", "nowhere", "constant", "formal", "publish", "republic", "external", "informal", "types", "model", "superb", "crates", "dynamic", "fnord", "implicit", "unsafety", "asynchronous", "user", "structure", "traits", "inner", "statics", "SELF", "Mut",
    "é", "变", "_x", "__", "x1", "Const", "FN", "Where", "Option", "Box", "Vec", "Result", "Copy", "Sized", "String", "u8", "bool", "str", "usize", "f32", "doc",
    "derive", "cfg", "cfg_attr", "test", "inline", "allow", "repr", "path", "feature", "all", "not", "std", "core", "main", "T", "a", "static_", "function", "Fn", "FnOnce", "PhantomData", "item",
    "None", "Some", "Ok", "Err", "new", "drop", "clone", "Clone", "Debug", "Default", "Send", "Drop", "Deref", "Pin", "Rc", "Arc", "char", "i32", "u64", "Item", "Output", "Target", "this", "self_", "Self_", "ref_", "dyn_", "as_", "fn_", "r#type", "r#dyn", "r#use", "r#impl", "r#as", "r#unsafe", "r#async", "r#gen", "gen", "where_", "for_", "pub_", "mut_", "const_", "unsafe_", "extern_", "X", "A", "B", "_a", "a1",
    "a_very_long_name_that_nobody_would_ever_write_in_a_program_but_that_the_language_allows_and_so_does_every_tool_that_reads_programs_in_it",
];
/// Names of macros and attributes that tools know about.
pub const KNOWN: &[&str] = &[
    "thread_local", "println", "vec", "include", "include_str", "compile_error", "concat", "env", "assert", "format", "quote", "lazy_static", "bitflags", "cfg_if", "todo", "unreachable", "panic", "matches", "global_asm", "stringify",
    "must_use", "deprecated", "no_mangle", "link", "link_name", "export_name", "macro_use", "macro_export", "proc_macro", "proc_macro_derive", "automatically_derived", "warn", "deny", "forbid", "expect", "track_caller", "target_feature",
    "non_exhaustive", "serde", "default", "skip", "rename", "cold", "global_allocator", "ignore", "should_panic", "recursion_limit", "crate_name", "no_std", "rustfmt", "clippy", "bench", "type_length_limit", "instruction_set", "used", "debugger_visualizer", "diagnostic",
];
/// Every ABI that Rust knows or knew.
const ABIS: &[&str] = &[
    "\"Rust\"", "\"C\"", "\"C-unwind\"", "\"system\"", "\"system-unwind\"", "\"cdecl\"", "\"stdcall\"", "\"fastcall\"", "\"vectorcall\"", "\"thiscall\"", "\"aapcs\"", "\"win64\"", "\"sysv64\"",
    "\"efiapi\"", "\"rust-intrinsic\"", "\"rust-call\"", "\"rust-cold\"", "\"unadjusted\"", "\"platform-intrinsic\"", "\"ptx-kernel\"", "\"x86-interrupt\"", "\"avr-interrupt\"", "\"wasm\"", "\"C-cmse-nonsecure-call\"", "\"nonsense\"",
];
const LITERALS: &[&str] = &[
    "0", "1", "2", "1u8", "0xFF", "0b1", "1_000", "340282366920938463463374607431768211455u128", "1.5", "2.0f32", "1e9", "\"\"", "\"s\"", "\"C\"", "\"a b\"", "\"//\"", "\"\\n\"", "\"\\\"\"",
    "b\"x\"", "b'x'", "'c'", "'\\''", "'\"'", "r\"raw\"", "r#\"r\"a\"w\"#", "br\"x\"", "c\"x\"", "\"é\"", "\"}\"", "\";\"", "\",\"",
    "';'", "','", "'='", "':'", "'<'", "'>'", "'{'", "'}'", "'('", "'#'", "'!'", "'&'", "'-'", "'*'", "'\\\\'", "' '", "'a'", "'é'", "b';'", "b','", "\"<\"", "\">\"", "\"=\"", "\":\"", "\"::\"", "\"->\"", "\"#\"", "\"where\"", "\"for\"", "\"self\"", "\"pub\"", "\"{\"", "\"'\"", "\"\\0\"", "0u8", "0.", "1f64", "1_u8", "0o7", "1E-3",
];
/// Groups whose contents the parser has no business with.
const OPAQUE: &[&str] = &[
    "fn f ( ) { HOLE }",
    "# [ a ] pub fn f < T > ( & self , x : A ) -> B where T : U { HOLE }",
    "mod m { fn f ( ) { HOLE } struct S ; }",
    "impl A { fn f ( ) { HOLE } const X : A = B ; }",
    "trait A { fn f ( ) { HOLE } fn g ( ) ; }",
    "m ! { HOLE }",
    "m ! ( HOLE ) ;",
    "m ! [ HOLE ] ;",
    "macro_rules ! m { HOLE }",
    "macro_rules ! m ( HOLE ) ;",
    "impl A { m ! ( HOLE ) ; fn f ( ) { } }",
    "# [ a ( HOLE ) ] struct S ;",
    "# [ a [ HOLE ] ] struct S ;",
    "# [ a :: b { HOLE } ] struct S ;",
    "mod m { # ! [ a ( HOLE ) ] fn f ( ) { } }",
    "struct S { # [ a ( HOLE ) ] x : A , y : B }",
    "fn f ( # [ a ( HOLE ) ] self ) { }",
    "enum E { A = { HOLE } , B }",
    "enum E { A = ( HOLE ) , B }",
    "const A : B = { HOLE } ;",
    "const A : B = f ( HOLE ) ;",
    "static A : B = [ HOLE ] ;",
    "const A : [ B ; { HOLE } ] = c ;",
    "struct S ( [ HOLE ] , B ) ;",
    "struct S ( ( HOLE ) , B ) ;",
    "struct S { x : [ HOLE ] , y : ( HOLE ) }",
    "struct S { x : A < { HOLE } > , y : B }",
    "struct S < const N : A = { HOLE } , T > ;",
    "struct S < T : Fn ( HOLE ) , U > ;",
    "fn f ( x : [ HOLE ] , y : A ) -> ( HOLE ) { }",
    "fn f ( ) -> [ HOLE ] where T : Fn ( HOLE ) -> A ;",
    "struct S where [ HOLE ] : A , ( HOLE ) : B ;",
    "type A = ( HOLE ) ;",
    "type A = [ HOLE ] ;",
    "impl ( HOLE ) { }",
    "impl A < ( HOLE ) > for [ HOLE ] { }",
    "trait A : Fn ( HOLE ) { type B : Fn ( HOLE ) ; }",
    "use a :: { HOLE } ;",
];

/// `ZQN` and `ZQM` stand for names, `"ZQL"` for a literal.
const PAIRS: &[&str] = &[
    "# [ ZQN = \"ZQL\" ] struct S ;",
    "# [ ZQN ( \"ZQL\" ) ] pub struct S { x : A }",
    "# [ ZQN ( ZQM ) ] enum E { A , B }",
    "# [ ZQN :: ZQM ] fn f ( ) { }",
    "# [ ZQN ( ZQM = b ) ] mod m ;",
    "# [ ZQN = ZQM ] impl A { }",
    "mod m { # ! [ ZQN = \"ZQL\" ] }",
    "struct S { # [ ZQN = \"ZQL\" ] x : A }",
    "struct S ( # [ ZQN ( ZQM ) ] A ) ;",
    "enum E { # [ ZQN ] ZQM , B = 1 }",
    "fn f ( # [ ZQN ] ZQM : A ) ;",
    "ZQN ! { ZQM }",
    "ZQN ! ( \"ZQL\" ) ;",
    "ZQN ! ZQM { a }",
    "impl A { ZQN ! { ZQM } fn f ( ) { } }",
    "struct ZQN { ZQM : A }",
    "struct S { ZQN : ZQM }",
    "struct S < ZQN : ZQM > ( A ) ;",
    "struct ZQN < ZQM > ( ZQM ) ;",
    "struct S < const ZQN : ZQM > where ZQM : ZQN ;",
    "struct S < 'a , ZQN > where ZQN : ZQM , 'a : 'b ;",
    "enum E { ZQN = \"ZQL\" , B }",
    "enum ZQN { ZQM , A ( ZQM ) }",
    "union ZQN { ZQM : A }",
    "fn ZQN ( ZQM : A ) -> B { }",
    "fn ZQN ( self , x : ZQM ) -> ZQM where ZQN : A ;",
    "const ZQN : ZQM = a ;",
    "const ZQN : A = \"ZQL\" ;",
    "static ZQN : ZQM = b ;",
    "type ZQN = ZQM ;",
    "mod ZQN { fn ZQM ( ) { } }",
    "trait ZQN : ZQM { }",
    "trait ZQN { fn ZQM ( ) ; }",
    "impl ZQN for ZQM { }",
    "impl < ZQN > A < ZQN > for B < ZQM > { }",
    "use ZQN :: ZQM ;",
    "use ZQN as ZQM ;",
    "use a :: { ZQN , ZQM } ;",
    "extern crate ZQN as ZQM ;",
    "extern \"ZQL\" fn ZQN ( ) { }",
];
fn replace(t: &mut Toks, a: S, b: S) {
    for x in t {
        match x {
            Tok::I("ZQN") => *x = Tok::I(a),
            Tok::I("ZQM") => *x = Tok::I(b),
            Tok::L("\"ZQL\"") => *x = Tok::L(b),
            Tok::G(_, b2) => replace(b2, a, b),
            _ => {}
        }
    }
}

fn view(i: &v::Item) -> Result<String, String> {
    guard(|| crate::obs::item(i)).map(|(m, o)| {
        let o: Vec<_> = o.iter().filter(|o| o.0 & cls::ALL != 0).collect();
        format!("{m:?} {o:?}")
    })
}
fn debug_toks(t: &[Tok]) -> String {
    t.iter().map(|t| format!("{t:?}")).collect::<Vec<_>>().join(", ")
}
/// `t` must be read like the declaration whose view is `want`.
fn reads_as(cx: &mut Ctx, t: &Toks, want: &str, like: &str) {
    cx.input(t);
    cx.impl_runs += 1;
    match parse_toks(t) {
        Out::Item(i) => {
            match view(&i) {
                Ok(got) if got == want => {}
                Ok(got) => cx.fail(t, format!("read differently from {like}: {got} instead of {want}")),
                Err(m) => cx.fail(t, format!("reading the parsed item panicked: {m}")),
            }
            check_lossless(cx, &i, t);
        }
        o => cx.fail(t, format!("not accepted, but {like} is: {}", o.name())),
    }
}
fn places(t: &[Tok], n: &mut usize, life: bool, prev: Option<&Tok>, o: &mut Vec<(usize, Tok, bool, bool, bool)>) {
    let mut prev = prev.cloned();
    let _ = life;
    for (i, x) in t.iter().enumerate() {
        let here = *n;
        *n += 1;
        match x {
            Tok::G(_, b) => places(b, n, false, None, o),
            Tok::I(s) if !KEYWORDS.contains(s) => {
                let life = matches!(prev, Some(Tok::P('\'', _)));
                let bang = matches!(t.get(i + 1), Some(Tok::P('!', _)));
                o.push((here, x.clone(), life, bang, false));
            }
            Tok::L(_) => o.push((here, x.clone(), false, false, matches!(prev, Some(Tok::I("extern"))))),
            _ => {}
        }
        prev = Some(x.clone());
    }
}
fn set(t: &Toks, i: usize, x: Tok) -> Toks {
    let mut t = t.clone();
    crate::strings::at(&mut t, i, &mut |v, k| v[k] = x.clone());
    t
}
fn renamed(_it: &It, t: &Toks, cx: &mut Ctx) {
    let mut all = vec![];
    places(t, &mut 0, false, None, &mut all);
    let mut same = t.clone();
    for (i, old, life, bang, abi) in &all {
        let (mark, shown): (Tok, String) = match old {
            Tok::I(_) => (Tok::I("ZQMARK"), "\"ZQMARK\"".into()),
            _ => (Tok::L("\"ZQMARK\""), "\"\\\"ZQMARK\\\"\"".into()),
        };
        let base = set(t, *i, mark);
        cx.impl_runs += 1;
        let want = match parse_toks(&base) {
            Out::Item(x) => match view(&x) {
                Ok(w) => w,
                Err(_) => continue,
            },
            o => {
                cx.fail(&base, format!("not accepted, but {} is: {}", show(t), o.name()));
                continue;
            }
        };
        let like = show(&base);
        let cands = if let Tok::I(_) = old { NAMES } else { LITERALS };
        for c in cands {
            if *life && (c.starts_with("r#") || !c.is_ascii()) || *bang && matches!(*c, "macro_rules") || *abi && !c.ends_with(['"', '#']) || *abi && c.starts_with(['b', 'c']) {
                continue;
            }
            let x = if let Tok::I(_) = old { Tok::I(c) } else { Tok::L(c) };
            reads_as(cx, &set(t, *i, x), &want.replace(&shown, &format!("{c:?}")), &like);
        }
        for c in if *abi { ABIS } else { &[] } {
            reads_as(cx, &set(t, *i, Tok::L(c)), &want.replace(&shown, &format!("{c:?}")), &like);
        }
        for c in if *bang { KNOWN } else { &[] } {
            reads_as(cx, &set(t, *i, Tok::I(c)), &want.replace(&shown, &format!("{c:?}")), &like);
        }
        if let (Tok::I(_), false) = (old, *bang) {
            same = set(&same, *i, Tok::I(intern(&format!("ZQ{i}QZ"))));
        }
        cx.outcome(want.len() as u64);
    }
    // one name for everything
    cx.impl_runs += 1;
    if let Out::Item(x) = parse_toks(&same) {
        if let Ok(want) = view(&x) {
            for c in ["x", "T", "union", "default"] {
                let (mut w, mut u) = (want.clone(), same.clone());
                for (i, old, _, bang, _) in &all {
                    if let (Tok::I(_), false) = (old, *bang) {
                        w = w.replace(&format!("\"ZQ{i}QZ\""), &format!("{c:?}"));
                        u = set(&u, *i, Tok::I(c));
                    }
                }
                reads_as(cx, &u, &w, &show(&same));
            }
        }
    }
}
fn subst(t: &[Tok], h: &[Tok]) -> Toks {
    let mut o = vec![];
    for x in t {
        match x {
            Tok::I("HOLE") => o.extend(h.iter().cloned()),
            Tok::G(d, b) => o.push(Tok::G(*d, subst(b, h))),
            x => o.push(x.clone()),
        }
    }
    o
}
pub fn c24(th: bool) -> Prop {
    let b = bounds(th, [1, 0, 2, 0], [1, 0, 1, 0], [1, 1, 2, 1]);
    let mut v = grammar(KINDS, b, renamed);
    v.push(
        space("rich declarations renamed", 0, move |ch, cx| {
            let kind = *ch.all(KINDS);
            let w = *ch.all(wraps(kind));
            let it = wrap(crate::gen::item(ch, kind, cx_of(w), 2), w);
            go(cx, &it, false, renamed);
        })
        .rich(),
    );
    v.push(space("types and bounds renamed", 0, move |ch, cx| {
        if ch.free(2) == 0 {
            let ty = lx(ch.all(TYPES));
            let i = ch.free(TYPE_POS);
            go(cx, &type_at(i, ty), false, renamed);
        } else {
            let b = lx(ch.all(BOUNDS));
            let i = ch.free(BOUND_POS);
            go(cx, &bound_at(i, b), false, renamed);
        }
    }));
    v.push(space("two at once", 0, move |ch, cx| {
        // no pair of name and literal, or of names, means anything either
        let t = lx(ch.all(PAIRS));
        let known: Vec<&str> = NAMES.iter().chain(KNOWN).copied().collect();
        cx.impl_runs += 1;
        let want = match parse_toks(&t) {
            Out::Item(i) => view(&i).unwrap_or_default(),
            o => return cx.fail(&t, format!("supported declaration not accepted: {}", o.name())),
        };
        let lit = want.contains("ZQL");
        let a = *ch.all(&known);
        if a == "macro_rules" && show(&t).contains("ZQN !") {
            return;
        }
        let second = if lit { LITERALS } else { NAMES };
        let b = second[ch.free(second.len())];
        let abi = show(&t).contains("extern");
        if abi && (!b.ends_with(['"', '#']) || b.starts_with(['b', 'c'])) {
            return;
        }
        let mut u = t.clone();
        replace(&mut u, a, b);
        let w = want.replace("\"ZQN\"", &format!("{a:?}")).replace("\"ZQM\"", &format!("{b:?}")).replace("\"\\\"ZQL\\\"\"", &format!("{b:?}"));
        reads_as(cx, &u, &w, &show(&t));
        cx.outcome(lit as u64);
    }));
    let n = if th { 3 } else { 2 };
    v.push(space("contents of groups", 0, move |ch, cx| {
        let t = lx(ch.all(OPAQUE));
        let n = ch.free(n + 1);
        let mut h = vec![];
        for _ in 0..n {
            h.extend(crate::strings::unit(ch.all(if n > 2 { crate::strings::UNITS_S } else { crate::strings::UNITS })));
        }
        if n == 0 && ch.free(2) == 1 {
            // as long as a real body
            for i in 0..400 {
                h.extend(crate::strings::unit(crate::strings::UNITS[i * 5 % crate::strings::UNITS.len()]));
            }
        }
        cx.impl_runs += 1;
        match parse_toks(&t) {
            Out::Item(i) => {
                let want = view(&i).unwrap_or_default().replace(&debug_toks(&[Tok::I("HOLE")]), &debug_toks(&h));
                reads_as(cx, &subst(&t, &h), &want, &show(&t));
                cx.outcome(h.len() as u64);
            }
            o => cx.fail(&t, format!("supported declaration not accepted: {}", o.name())),
        }
    }));
    Prop {
        id: "C24",
        spaces: v,
        rule: "declarations from the grammar and all types and bounds in all positions, with every single name replaced by each of a list of names (contextual keywords, raw names, names of standard items, non-ASCII, long), every literal by each of a list of literals, and all names by one; pairs of names, or of a name and a literal, in 40 templates; groups that venial passes through filled with every short token string: what is reported must be what is reported for a marker in that place, with the marker replaced, and printing must give the input back",
    }
}
