//! Reads the implementation's result into the model's terms.
use crate::model::*;
use crate::tok::*;
use proc_macro2::{Ident, Punct, TokenTree};
use std::cell::RefCell;
use venial as v;

thread_local! {
    /// Parts that contradict each other (class, description).
    static ODD: RefCell<Vec<(u32, String)>> = RefCell::new(vec![]);
}
fn odd(c: u32, s: impl Into<String>) {
    ODD.with(|o| o.borrow_mut().push((c, s.into())));
}
fn s(i: &Ident) -> S {
    intern(&i.to_string())
}
fn kwd(c: u32, i: &Ident, want: &str) {
    if i != want {
        odd(c, format!("keyword `{want}` recorded as `{i}`"));
    }
}
fn okw(c: u32, i: &Option<Ident>, want: &str) -> bool {
    if let Some(i) = i {
        kwd(c, i, want);
    }
    i.is_some()
}
fn pun(c: u32, q: &Punct, want: char) {
    if q.as_char() != want {
        odd(c, format!("punctuation `{want}` recorded as `{}`", q.as_char()));
    }
}
fn opun(c: u32, q: &Option<Punct>, want: char) -> bool {
    if let Some(q) = q {
        pun(c, q, want);
    }
    q.is_some()
}
fn delim(c: u32, g: &v::GroupSpan, want: D) {
    if D::of(g.delimiter) != want {
        odd(c, format!("delimiter {want:?} recorded as {:?}", g.delimiter));
    }
}

pub fn attrs(a: &[v::Attribute]) -> Attrs {
    a.iter()
        .map(|a| {
            pun(cls::ATTR, &a.tk_hash, '#');
            opun(cls::ATTR, &a.tk_bang, '!');
            delim(cls::ATTR, &a.tk_brackets, D::B);
            let want: &[TokenTree] = match &a.value {
                v::AttributeValue::Group(_, t) | v::AttributeValue::Equals(_, t) => t,
                v::AttributeValue::Empty => &[],
            };
            if from_trees(a.get_value_tokens()) != from_trees(want) {
                odd(cls::ATTR, "get_value_tokens disagrees with the value");
            }
            let one = a.get_single_path_segment().map(|i| i.to_string());
            match &a.path[..] {
                [TokenTree::Ident(i)] if one.as_ref() != Some(&i.to_string()) => odd(cls::ATTR, format!("single path segment of `{i}` is {one:?}")),
                p if one.is_some() && p.iter().filter(|t| matches!(t, TokenTree::Ident(_))).count() > 1 => odd(cls::ATTR, "single path segment of a longer path"),
                _ => {}
            }
            Attr {
                bang: a.tk_bang.is_some(),
                path: from_trees(&a.path),
                val: match &a.value {
                    v::AttributeValue::Group(g, t) => AVal::Group(D::of(g.delimiter), from_trees(t)),
                    v::AttributeValue::Equals(q, t) => {
                        pun(cls::ATTR, q, '=');
                        AVal::Eq(from_trees(t))
                    }
                    v::AttributeValue::Empty => AVal::Empty,
                },
            }
        })
        .collect()
}
pub fn vis(m: &Option<v::VisMarker>) -> Vis {
    let mut o = vec![];
    if let Some(m) = m {
        o.push(tok(&m.tk_token1));
        if let Some(t) = &m.tk_token2 {
            o.push(tok(t));
        }
    }
    o
}
pub fn list<A, B>(l: &v::Punctuated<A>, mut f: impl FnMut(&A) -> B) -> List<B> {
    let n = l.len();
    let items: Vec<B> = l.items().map(&mut f).collect();
    let np = l.punct().count();
    if items.len() != n || (np != n && np + 1 != n) {
        odd(cls::ALL, format!("list of length {n} has {} items and {np} separators", items.len()));
    }
    for q in l.punct() {
        pun(cls::ALL, q, ',');
    }
    List { items, trail: n > 0 && np == n }
}
pub fn bound(b: &v::GenericBound) -> Toks {
    pun(cls::GEN, &b.tk_colon, ':');
    from_trees(&b.tokens)
}
pub fn gp(g: &v::GenericParam) -> GP {
    let kind = match &g.tk_prefix {
        None => GK::Ty,
        Some(TokenTree::Punct(q)) if q.as_char() == '\'' => GK::Life,
        Some(TokenTree::Ident(i)) if i == "const" => GK::Const,
        Some(t) => {
            odd(cls::GEN, format!("generic parameter prefix {t}"));
            GK::Ty
        }
    };
    if (g.is_lifetime(), g.is_ty(), g.is_const()) != (kind == GK::Life, kind == GK::Ty, kind == GK::Const) {
        odd(cls::GEN, format!("kind queries disagree with the prefix of parameter `{}`", g.name));
    }
    GP { kind, name: s(&g.name), bound: g.bound.as_ref().map(bound) }
}
pub fn glist(g: &v::GenericParamList) -> List<GP> {
    pun(cls::GEN, &g.tk_l_bracket, '<');
    pun(cls::GEN, &g.tk_r_bracket, '>');
    list(&g.params, gp)
}
pub fn gen(g: &Option<v::GenericParamList>) -> Gen {
    g.as_ref().map(glist)
}
pub fn pred(q: &v::WhereClausePredicate) -> Pred {
    Pred { left: from_trees(&q.left_side), bound: bound(&q.bound) }
}
pub fn wlist(w: &v::WhereClause) -> List<Pred> {
    kwd(cls::GEN, &w.tk_where, "where");
    list(&w.items, pred)
}
pub fn wh(w: &Option<v::WhereClause>) -> Wh {
    w.as_ref().map(wlist)
}
pub fn ty(t: &v::TypeExpr) -> Toks {
    from_trees(&t.tokens)
}
pub fn nf(l: &v::NamedFields) -> List<NF> {
    delim(cls::FIELD, &l.tk_braces, D::C);
    list(&l.fields, |f| {
        pun(cls::FIELD, &f.tk_colon, ':');
        NF { attrs: attrs(&f.attributes), vis: vis(&f.vis_marker), name: s(&f.name), ty: ty(&f.ty) }
    })
}
pub fn tf(f: &v::TupleField) -> TF {
    TF { attrs: attrs(&f.attributes), vis: vis(&f.vis_marker), ty: ty(&f.ty) }
}
pub fn flds(f: &v::Fields) -> Flds {
    match f {
        v::Fields::Unit => Flds::Unit,
        v::Fields::Tuple(l) => {
            delim(cls::FIELD, &l.tk_parens, D::P);
            Flds::Tuple(list(&l.fields, tf))
        }
        v::Fields::Named(l) => Flds::Named(nf(l)),
    }
}
fn func(f: &v::Function) -> It {
    let q = &f.qualifiers;
    okw(cls::FN, &q.tk_default, "default");
    okw(cls::FN, &q.tk_const, "const");
    okw(cls::FN, &q.tk_async, "async");
    okw(cls::FN, &q.tk_unsafe, "unsafe");
    okw(cls::FN, &q.tk_extern, "extern");
    kwd(cls::FN, &f.tk_fn_keyword, "fn");
    delim(cls::FN, &f.tk_params_parens, D::P);
    if q.tk_extern.is_none() && q.extern_abi.is_some() {
        odd(cls::FN, "abi without extern");
    }
    if let Some([a, b]) = &f.tk_return_arrow {
        pun(cls::FN, a, '-');
        pun(cls::FN, b, '>');
    }
    if f.tk_return_arrow.is_some() != f.return_ty.is_some() {
        odd(cls::FN, "return arrow and return type disagree");
    }
    if opun(cls::FN, &f.tk_semicolon, ';') == f.body.is_some() {
        odd(cls::FN, "body and semicolon disagree");
    }
    if let Some(b) = &f.body {
        if D::of(b.delimiter()) != D::C {
            odd(cls::FN, "body is not a block");
        }
    }
    It {
        attrs: attrs(&f.attributes),
        vis: vis(&f.vis_marker),
        kind: Kind::Fn(Func {
            quals: Quals {
                default: q.tk_default.is_some(),
                konst: q.tk_const.is_some(),
                asyn: q.tk_async.is_some(),
                unsaf: q.tk_unsafe.is_some(),
                ext: q.tk_extern.as_ref().map(|_| q.extern_abi.as_ref().map(|a| intern(&a.to_string()))),
            },
            name: s(&f.name),
            gen: gen(&f.generic_params),
            params: list(&f.params, |x| match x {
                v::FnParam::Receiver(r) => {
                    kwd(cls::FN, &r.tk_self, "self");
                    okw(cls::FN, &r.tk_mut, "mut");
                    opun(cls::FN, &r.tk_ref, '&');
                    Param::Recv {
                        attrs: attrs(&r.attributes),
                        amp: r.tk_ref.is_some(),
                        life: r.lifetime.as_ref().map(|l| {
                            pun(cls::FN, &l.tk_apostrophe, '\'');
                            s(&l.name)
                        }),
                        mutt: r.tk_mut.is_some(),
                    }
                }
                v::FnParam::Typed(t) => {
                    pun(cls::FN, &t.tk_colon, ':');
                    Param::Typed {
                        attrs: attrs(&t.attributes),
                        mutt: okw(cls::FN, &t.tk_mut, "mut"),
                        name: s(&t.name),
                        ty: ty(&t.ty),
                    }
                }
            }),
            ret: f.return_ty.as_ref().map(ty),
            wh: wh(&f.where_clause),
            body: f.body.as_ref().map(|b| from_stream(b.stream())),
        }),
    }
}
fn konst(c: &v::Constant) -> It {
    let k = cls::CONST;
    let stat = c.tk_const_or_static == "static";
    if !stat {
        kwd(k, &c.tk_const_or_static, "const");
    }
    if stat != c.is_static() {
        odd(k, "is_static disagrees with the keyword");
    }
    pun(k, &c.tk_colon, ':');
    pun(k, &c.tk_semicolon, ';');
    if opun(k, &c.tk_equals, '=') != c.initializer.is_some() {
        odd(k, "equals sign and initializer disagree");
    }
    It {
        attrs: attrs(&c.attributes),
        vis: vis(&c.vis_marker),
        kind: Kind::Konst {
            stat,
            mutt: okw(k, &c.tk_mut, "mut"),
            name: s(&c.name),
            ty: ty(&c.ty),
            init: c.initializer.as_ref().map(|i| from_trees(&i.tokens)),
        },
    }
}
fn alias(a: &v::TypeAlias) -> It {
    let k = cls::CONST;
    kwd(k, &a.tk_type, "type");
    pun(k, &a.tk_semicolon, ';');
    if opun(k, &a.tk_equals, '=') != a.initializer_ty.is_some() {
        odd(k, "equals sign and aliased type disagree");
    }
    It {
        attrs: attrs(&a.attributes),
        vis: vis(&a.vis_marker),
        kind: Kind::Alias {
            name: s(&a.name),
            bound: a.bound.as_ref().map(bound),
            ty: a.initializer_ty.as_ref().map(ty),
        },
    }
}
fn mac(m: &v::Macro) -> It {
    let k = cls::CONST;
    pun(k, &m.tk_bang, '!');
    It {
        attrs: attrs(&m.attributes),
        vis: vec![],
        kind: Kind::Mac {
            name: s(&m.name),
            decl: m.tk_declared_name.as_ref().map(s),
            delim: D::of(m.tk_braces_or_parens.delimiter),
            body: from_trees(&m.inner_tokens),
            semi: opun(k, &m.tk_semicolon, ';'),
        },
    }
}
fn impl_member(m: &v::ImplMember) -> It {
    match m {
        v::ImplMember::AssocFunction(x) => func(x),
        v::ImplMember::AssocConstant(x) => konst(x),
        v::ImplMember::AssocType(x) => alias(x),
        v::ImplMember::Macro(x) => mac(x),
        _ => panic!("unknown impl member kind"),
    }
}
fn trait_member(m: &v::TraitMember) -> It {
    match m {
        v::TraitMember::AssocFunction(x) => func(x),
        v::TraitMember::AssocConstant(x) => konst(x),
        v::TraitMember::AssocType(x) => alias(x),
        v::TraitMember::Macro(x) => mac(x),
        _ => panic!("unknown trait member kind"),
    }
}

fn item0(i: &v::Item) -> It {
    match i {
        v::Item::Struct(x) => {
            kwd(cls::KIND, &x.tk_struct, "struct");
            It {
                attrs: attrs(&x.attributes),
                vis: vis(&x.vis_marker),
                kind: Kind::Struct {
                    name: s(&x.name),
                    gen: gen(&x.generic_params),
                    wh: wh(&x.where_clause),
                    flds: flds(&x.fields),
                    semi: opun(cls::FIELD, &x.tk_semicolon, ';'),
                },
            }
        }
        v::Item::Enum(x) => {
            kwd(cls::KIND, &x.tk_enum, "enum");
            delim(cls::FIELD, &x.tk_braces, D::C);
            It {
                attrs: attrs(&x.attributes),
                vis: vis(&x.vis_marker),
                kind: Kind::Enum {
                    name: s(&x.name),
                    gen: gen(&x.generic_params),
                    wh: wh(&x.where_clause),
                    vars: list(&x.variants, |q| Variant {
                        attrs: attrs(&q.attributes),
                        vis: vis(&q.vis_marker),
                        name: s(&q.name),
                        flds: flds(&q.fields),
                        disc: q.value.as_ref().map(|d| {
                            pun(cls::DISC, &d.tk_equal, '=');
                            vec![tok(&d.value)]
                        }),
                    }),
                },
            }
        }
        v::Item::Union(x) => {
            kwd(cls::KIND, &x.tk_union, "union");
            It {
                attrs: attrs(&x.attributes),
                vis: vis(&x.vis_marker),
                kind: Kind::Union {
                    name: s(&x.name),
                    gen: gen(&x.generic_params),
                    wh: wh(&x.where_clause),
                    flds: nf(&x.fields),
                },
            }
        }
        v::Item::Function(x) => func(x),
        v::Item::Constant(x) => konst(x),
        v::Item::TypeAlias(x) => alias(x),
        v::Item::Macro(x) => mac(x),
        v::Item::UseDeclaration(x) => {
            kwd(cls::CONST, &x.tk_use, "use");
            pun(cls::CONST, &x.tk_semicolon, ';');
            It { attrs: attrs(&x.attributes), vis: vis(&x.vis_marker), kind: Kind::Use(ty(&x.import_tree)) }
        }
        v::Item::Impl(x) => {
            let k = cls::MEMBER;
            kwd(k, &x.tk_impl, "impl");
            delim(k, &x.tk_braces, D::C);
            if okw(k, &x.tk_for, "for") != x.trait_ty.is_some() {
                odd(k, "for keyword and trait disagree");
            }
            It {
                attrs: attrs(&x.attributes),
                vis: vec![],
                kind: Kind::Impl {
                    unsaf: okw(k, &x.tk_unsafe, "unsafe"),
                    gen: gen(&x.impl_generic_params),
                    tr: x.trait_ty.as_ref().map(ty),
                    ty: ty(&x.self_ty),
                    wh: wh(&x.where_clause),
                    inner: attrs(&x.inner_attributes),
                    items: x.body_items.iter().map(impl_member).collect(),
                },
            }
        }
        v::Item::Trait(x) => {
            let k = cls::MEMBER;
            kwd(k, &x.tk_trait, "trait");
            delim(k, &x.tk_braces, D::C);
            It {
                attrs: attrs(&x.attributes),
                vis: vis(&x.vis_marker),
                kind: Kind::Trait {
                    unsaf: okw(k, &x.tk_unsafe, "unsafe"),
                    name: s(&x.name),
                    gen: gen(&x.generic_params),
                    bound: x.bound.as_ref().map(bound),
                    wh: wh(&x.where_clause),
                    inner: attrs(&x.inner_attributes),
                    items: x.body_items.iter().map(trait_member).collect(),
                },
            }
        }
        v::Item::Module(x) => {
            let k = cls::MEMBER;
            kwd(k, &x.tk_mod, "mod");
            if opun(k, &x.tk_semicolon, ';') == x.tk_braces.is_some() {
                odd(k, "module has both or neither of body and semicolon");
            }
            if x.tk_braces.is_none() && !(x.members.is_empty() && x.inner_attributes.is_empty()) {
                odd(k, "module without body has members");
            }
            if let Some(g) = &x.tk_braces {
                delim(k, g, D::C);
            }
            It {
                attrs: attrs(&x.attributes),
                vis: vis(&x.vis_marker),
                kind: Kind::Mod {
                    unsaf: okw(k, &x.tk_unsafe, "unsafe"),
                    name: s(&x.name),
                    body: x
                        .tk_braces
                        .as_ref()
                        .map(|_| (attrs(&x.inner_attributes), x.members.iter().map(item0).collect())),
                },
            }
        }
        v::Item::ExternBlock(x) => {
            let k = cls::MEMBER;
            kwd(k, &x.tk_extern, "extern");
            delim(k, &x.tk_braces, D::C);
            It {
                attrs: attrs(&x.attributes),
                vis: vis(&x.vis_marker),
                kind: Kind::ExtB {
                    unsaf: okw(k, &x.tk_unsafe, "unsafe"),
                    abi: x.extern_abi.as_ref().map(|a| intern(&a.to_string())),
                    inner: attrs(&x.inner_attributes),
                    items: x.body_items.iter().map(impl_member).collect(),
                },
            }
        }
        v::Item::ExternCrate(x) => {
            let k = cls::CONST;
            kwd(k, &x.tk_extern, "extern");
            kwd(k, &x.tk_crate, "crate");
            pun(k, &x.tk_semicolon, ';');
            okw(k, &x.tk_underscore, "_");
            if x.alias.is_some() && x.tk_underscore.is_some() {
                odd(k, "extern crate has two aliases");
            }
            let a = x.alias.as_ref().or(x.tk_underscore.as_ref());
            if okw(k, &x.tk_as, "as") != a.is_some() {
                odd(k, "as keyword and alias disagree");
            }
            It {
                attrs: attrs(&x.attributes),
                vis: vis(&x.vis_marker),
                kind: Kind::ExtC { name: s(&x.name), alias: a.map(s) },
            }
        }
        _ => panic!("unknown item kind"),
    }
}

pub fn item(i: &v::Item) -> (It, Vec<(u32, String)>) {
    ODD.with(|o| o.borrow_mut().clear());
    let it = item0(i);
    (it, ODD.with(|o| std::mem::take(&mut *o.borrow_mut())))
}
pub fn odd_clear() -> Vec<(u32, String)> {
    ODD.with(|o| std::mem::take(&mut *o.borrow_mut()))
}
