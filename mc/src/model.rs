//! Reference model: what a declaration consists of, how it is written, and
//! which part of it each property talks about.
use crate::tok::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum AVal {
    Empty,
    Group(D, Toks),
    Eq(Toks),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Attr {
    pub bang: bool,
    pub path: Toks,
    pub val: AVal,
}
pub type Attrs = Vec<Attr>;
/// `pub`, `pub` + group, `crate`; empty when not written.
pub type Vis = Toks;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct List<T> {
    pub items: Vec<T>,
    pub trail: bool,
}
impl<T> List<T> {
    pub fn new() -> Self {
        List { items: vec![], trail: false }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum GK {
    Life,
    Ty,
    Const,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct GP {
    pub kind: GK,
    pub name: S,
    pub bound: Option<Toks>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Pred {
    pub left: Toks,
    pub bound: Toks,
}
pub type Gen = Option<List<GP>>;
pub type Wh = Option<List<Pred>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct TF {
    pub attrs: Attrs,
    pub vis: Vis,
    pub ty: Toks,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct NF {
    pub attrs: Attrs,
    pub vis: Vis,
    pub name: S,
    pub ty: Toks,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Flds {
    Unit,
    Tuple(List<TF>),
    Named(List<NF>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Variant {
    pub attrs: Attrs,
    pub vis: Vis,
    pub name: S,
    pub flds: Flds,
    pub disc: Option<Toks>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Quals {
    pub default: bool,
    pub konst: bool,
    pub asyn: bool,
    pub unsaf: bool,
    pub ext: Option<Option<S>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Param {
    Recv { attrs: Attrs, amp: bool, life: Option<S>, mutt: bool },
    Typed { attrs: Attrs, mutt: bool, name: S, ty: Toks },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Func {
    pub quals: Quals,
    pub name: S,
    pub gen: Gen,
    pub params: List<Param>,
    pub ret: Option<Toks>,
    pub wh: Wh,
    /// None: `;`
    pub body: Option<Toks>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Struct { name: S, gen: Gen, wh: Wh, flds: Flds, semi: bool },
    Enum { name: S, gen: Gen, wh: Wh, vars: List<Variant> },
    Union { name: S, gen: Gen, wh: Wh, flds: List<NF> },
    Fn(Func),
    Konst { stat: bool, mutt: bool, name: S, ty: Toks, init: Option<Toks> },
    Alias { name: S, bound: Option<Toks>, ty: Option<Toks> },
    Use(Toks),
    Mac { name: S, decl: Option<S>, delim: D, body: Toks, semi: bool },
    Impl { unsaf: bool, gen: Gen, tr: Option<Toks>, ty: Toks, wh: Wh, inner: Attrs, items: Vec<It> },
    Trait { unsaf: bool, name: S, gen: Gen, bound: Option<Toks>, wh: Wh, inner: Attrs, items: Vec<It> },
    Mod { unsaf: bool, name: S, body: Option<(Attrs, Vec<It>)> },
    ExtB { unsaf: bool, abi: Option<S>, inner: Attrs, items: Vec<It> },
    ExtC { name: S, alias: Option<S> },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct It {
    pub attrs: Attrs,
    pub vis: Vis,
    pub kind: Kind,
}

// ---------------------------------------------------------------- printing

pub fn pattrs(a: &[Attr], o: &mut Toks) {
    for a in a {
        o.push(p('#'));
        if a.bang {
            o.push(p('!'));
        }
        let mut b = a.path.clone();
        paval(&a.val, &mut b);
        o.push(Tok::G(D::B, b));
    }
}
pub fn paval(a: &AVal, b: &mut Toks) {
    match a {
        AVal::Empty => {}
        AVal::Group(d, t) => b.push(Tok::G(*d, t.clone())),
        AVal::Eq(t) => {
            b.push(p('='));
            b.extend(t.iter().cloned());
        }
    }
}
pub fn plist<T>(l: &List<T>, o: &mut Toks, mut f: impl FnMut(&T, &mut Toks)) {
    for (i, x) in l.items.iter().enumerate() {
        f(x, o);
        if i + 1 < l.items.len() || l.trail {
            o.push(p(','));
        }
    }
}
pub fn pgp(g: &GP, o: &mut Toks) {
    match g.kind {
        GK::Life => o.push(Tok::P('\'', true)),
        GK::Const => o.push(id("const")),
        GK::Ty => {}
    }
    o.push(id(g.name));
    if let Some(b) = &g.bound {
        o.push(p(':'));
        o.extend(b.iter().cloned());
    }
}
pub fn pgen(g: &Gen, o: &mut Toks) {
    if let Some(l) = g {
        o.push(p('<'));
        plist(l, o, pgp);
        o.push(p('>'));
    }
}
pub fn pwh(w: &Wh, o: &mut Toks) {
    if let Some(l) = w {
        o.push(id("where"));
        plist(l, o, ppred);
    }
}
pub fn ppred(q: &Pred, o: &mut Toks) {
    o.extend(q.left.iter().cloned());
    o.push(p(':'));
    o.extend(q.bound.iter().cloned());
}
pub fn pnf1(f: &NF, o: &mut Toks) {
    pattrs(&f.attrs, o);
    o.extend(f.vis.iter().cloned());
    o.push(id(f.name));
    o.push(p(':'));
    o.extend(f.ty.iter().cloned());
}
pub fn pnf(l: &List<NF>, o: &mut Toks) {
    let mut b = vec![];
    plist(l, &mut b, pnf1);
    o.push(Tok::G(D::C, b));
}
pub fn ptf1(f: &TF, o: &mut Toks) {
    pattrs(&f.attrs, o);
    o.extend(f.vis.iter().cloned());
    o.extend(f.ty.iter().cloned());
}
pub fn pvar(v: &Variant, o: &mut Toks) {
    pattrs(&v.attrs, o);
    o.extend(v.vis.iter().cloned());
    o.push(id(v.name));
    pflds(&v.flds, o);
    if let Some(d) = &v.disc {
        o.push(p('='));
        o.extend(d.iter().cloned());
    }
}
pub fn pquals(q: &Quals, o: &mut Toks) {
    kw(q.default, "default", o);
    kw(q.konst, "const", o);
    kw(q.asyn, "async", o);
    kw(q.unsaf, "unsafe", o);
    if let Some(a) = &q.ext {
        o.push(id("extern"));
        if let Some(a) = a {
            o.push(Tok::L(a));
        }
    }
}
pub fn pparam(q: &Param, o: &mut Toks) {
    match q {
        Param::Recv { attrs, amp, life, mutt } => {
            pattrs(attrs, o);
            if *amp {
                o.push(p('&'));
            }
            if let Some(l) = life {
                o.push(Tok::P('\'', true));
                o.push(id(l));
            }
            kw(*mutt, "mut", o);
            o.push(id("self"));
        }
        Param::Typed { attrs, mutt, name, ty } => {
            pattrs(attrs, o);
            kw(*mutt, "mut", o);
            o.push(id(name));
            o.push(p(':'));
            o.extend(ty.iter().cloned());
        }
    }
}
pub fn pflds(f: &Flds, o: &mut Toks) {
    match f {
        Flds::Unit => {}
        Flds::Tuple(l) => {
            let mut b = vec![];
            plist(l, &mut b, ptf1);
            o.push(Tok::G(D::P, b));
        }
        Flds::Named(l) => pnf(l, o),
    }
}
fn kw(c: bool, s: S, o: &mut Toks) {
    if c {
        o.push(id(s));
    }
}
fn pbody(inner: &Attrs, items: &[It]) -> Tok {
    let mut b = vec![];
    pattrs(inner, &mut b);
    for i in items {
        i.print(&mut b);
    }
    Tok::G(D::C, b)
}
impl It {
    pub fn toks(&self) -> Toks {
        let mut o = vec![];
        self.print(&mut o);
        o
    }
    pub fn print(&self, o: &mut Toks) {
        pattrs(&self.attrs, o);
        o.extend(self.vis.iter().cloned());
        match &self.kind {
            Kind::Struct { name, gen, wh, flds, semi } => {
                o.push(id("struct"));
                o.push(id(name));
                pgen(gen, o);
                if let Flds::Named(_) = flds {
                    pwh(wh, o);
                    pflds(flds, o);
                } else {
                    pflds(flds, o);
                    pwh(wh, o);
                }
                if *semi {
                    o.push(p(';'));
                }
            }
            Kind::Enum { name, gen, wh, vars } => {
                o.push(id("enum"));
                o.push(id(name));
                pgen(gen, o);
                pwh(wh, o);
                let mut b = vec![];
                plist(vars, &mut b, pvar);
                o.push(Tok::G(D::C, b));
            }
            Kind::Union { name, gen, wh, flds } => {
                o.push(id("union"));
                o.push(id(name));
                pgen(gen, o);
                pwh(wh, o);
                pnf(flds, o);
            }
            Kind::Fn(f) => {
                pquals(&f.quals, o);
                o.push(id("fn"));
                o.push(id(f.name));
                pgen(&f.gen, o);
                let mut b = vec![];
                plist(&f.params, &mut b, pparam);
                o.push(Tok::G(D::P, b));
                if let Some(r) = &f.ret {
                    o.push(Tok::P('-', true));
                    o.push(p('>'));
                    o.extend(r.iter().cloned());
                }
                pwh(&f.wh, o);
                match &f.body {
                    Some(b) => o.push(Tok::G(D::C, b.clone())),
                    None => o.push(p(';')),
                }
            }
            Kind::Konst { stat, mutt, name, ty, init } => {
                o.push(id(if *stat { "static" } else { "const" }));
                kw(*mutt, "mut", o);
                o.push(id(name));
                o.push(p(':'));
                o.extend(ty.iter().cloned());
                if let Some(i) = init {
                    o.push(p('='));
                    o.extend(i.iter().cloned());
                }
                o.push(p(';'));
            }
            Kind::Alias { name, bound, ty } => {
                o.push(id("type"));
                o.push(id(name));
                if let Some(b) = bound {
                    o.push(p(':'));
                    o.extend(b.iter().cloned());
                }
                if let Some(t) = ty {
                    o.push(p('='));
                    o.extend(t.iter().cloned());
                }
                o.push(p(';'));
            }
            Kind::Use(t) => {
                o.push(id("use"));
                o.extend(t.iter().cloned());
                o.push(p(';'));
            }
            Kind::Mac { name, decl, delim, body, semi } => {
                o.push(id(name));
                o.push(p('!'));
                if let Some(d) = decl {
                    o.push(id(d));
                }
                o.push(Tok::G(*delim, body.clone()));
                if *semi {
                    o.push(p(';'));
                }
            }
            Kind::Impl { unsaf, gen, tr, ty, wh, inner, items } => {
                kw(*unsaf, "unsafe", o);
                o.push(id("impl"));
                pgen(gen, o);
                if let Some(t) = tr {
                    o.extend(t.iter().cloned());
                    o.push(id("for"));
                }
                o.extend(ty.iter().cloned());
                pwh(wh, o);
                o.push(pbody(inner, items));
            }
            Kind::Trait { unsaf, name, gen, bound, wh, inner, items } => {
                kw(*unsaf, "unsafe", o);
                o.push(id("trait"));
                o.push(id(name));
                pgen(gen, o);
                if let Some(b) = bound {
                    o.push(p(':'));
                    o.extend(b.iter().cloned());
                }
                pwh(wh, o);
                o.push(pbody(inner, items));
            }
            Kind::Mod { unsaf, name, body } => {
                kw(*unsaf, "unsafe", o);
                o.push(id("mod"));
                o.push(id(name));
                match body {
                    Some((a, i)) => o.push(pbody(a, i)),
                    None => o.push(p(';')),
                }
            }
            Kind::ExtB { unsaf, abi, inner, items } => {
                kw(*unsaf, "unsafe", o);
                o.push(id("extern"));
                if let Some(a) = abi {
                    o.push(Tok::L(a));
                }
                o.push(pbody(inner, items));
            }
            Kind::ExtC { name, alias } => {
                o.push(id("extern"));
                o.push(id("crate"));
                o.push(id(name));
                if let Some(a) = alias {
                    o.push(id("as"));
                    o.push(id(a));
                }
                o.push(p(';'));
            }
        }
    }
}

// -------------------------------------------------------------- projections

/// Classes of observations; a property compares those it speaks about.
pub mod cls {
    pub const KIND: u32 = 1; // kind, name, qualifiers
    pub const FIELD: u32 = 2;
    pub const DISC: u32 = 4;
    pub const GEN: u32 = 8;
    pub const FN: u32 = 16;
    pub const MEMBER: u32 = 32;
    pub const CONST: u32 = 64;
    pub const ATTR: u32 = 128;
    pub const TYPE: u32 = 256;
    pub const ALL: u32 = !0;
}
use cls::*;

pub type Proj = Vec<(u32, String)>;

fn jattrs(c: u32, w: &str, a: &Attrs, o: &mut Proj) {
    for (i, a) in a.iter().enumerate() {
        o.push((
            c | ATTR,
            format!(
                "{w}.attr[{i}] bang={} path={} value={}",
                a.bang,
                shown(&a.path),
                match &a.val {
                    AVal::Empty => "empty".into(),
                    AVal::Group(d, t) => format!("group {:?} {}", d, shown(t)),
                    AVal::Eq(t) => format!("equals {}", shown(t)),
                }
            ),
        ));
    }
}
fn jvis(c: u32, w: &str, v: &Vis, o: &mut Proj) {
    o.push((c | ATTR, format!("{w}.vis={}", shown(v))));
}
fn jty(c: u32, w: &str, t: &Toks, o: &mut Proj) {
    o.push((c | TYPE, format!("{w}={}", shown(t))));
}
fn jlist<T>(c: u32, w: &str, l: &List<T>, o: &mut Proj) {
    o.push((c, format!("{w}.len={} trailing_comma={}", l.items.len(), l.trail)));
}
fn jgen(w: &str, g: &Gen, o: &mut Proj) {
    match g {
        None => o.push((GEN, format!("{w}.generics=none"))),
        Some(l) => {
            jlist(GEN, &format!("{w}.generics"), l, o);
            for (i, g) in l.items.iter().enumerate() {
                o.push((GEN, format!("{w}.generics[{i}] {:?} {}", g.kind, g.name)));
                match &g.bound {
                    None => o.push((GEN, format!("{w}.generics[{i}].bound=none"))),
                    Some(b) => jty(GEN, &format!("{w}.generics[{i}].bound"), b, o),
                }
            }
        }
    }
}
fn jwh(w: &str, g: &Wh, o: &mut Proj) {
    match g {
        None => o.push((GEN, format!("{w}.where=none"))),
        Some(l) => {
            jlist(GEN, &format!("{w}.where"), l, o);
            for (i, g) in l.items.iter().enumerate() {
                jty(GEN, &format!("{w}.where[{i}].left"), &g.left, o);
                jty(GEN, &format!("{w}.where[{i}].bound"), &g.bound, o);
            }
        }
    }
}
fn jnf(w: &str, l: &List<NF>, o: &mut Proj) {
    jlist(FIELD, w, l, o);
    for (i, f) in l.items.iter().enumerate() {
        let w = format!("{w}[{i}]");
        jattrs(FIELD, &w, &f.attrs, o);
        jvis(FIELD, &w, &f.vis, o);
        o.push((FIELD, format!("{w}.name={}", f.name)));
        jty(FIELD, &format!("{w}.ty"), &f.ty, o);
    }
}
fn jflds(w: &str, f: &Flds, o: &mut Proj) {
    match f {
        Flds::Unit => o.push((FIELD, format!("{w}.unit"))),
        Flds::Tuple(l) => {
            o.push((FIELD, format!("{w}.tuple")));
            jlist(FIELD, w, l, o);
            for (i, f) in l.items.iter().enumerate() {
                let w = format!("{w}[{i}]");
                jattrs(FIELD, &w, &f.attrs, o);
                jvis(FIELD, &w, &f.vis, o);
                jty(FIELD, &format!("{w}.ty"), &f.ty, o);
            }
        }
        Flds::Named(l) => {
            o.push((FIELD, format!("{w}.named")));
            jnf(w, l, o)
        }
    }
}
fn jitems(w: &str, inner: &Attrs, items: &[It], o: &mut Proj) {
    jattrs(MEMBER, &format!("{w}.inner"), inner, o);
    o.push((MEMBER, format!("{w}.inner.len={}", inner.len())));
    o.push((MEMBER, format!("{w}.members={}", items.len())));
    for (i, x) in items.iter().enumerate() {
        let mut q = vec![];
        x.proj(&format!("{w}.member[{i}]"), &mut q);
        o.extend(q.into_iter().map(|(c, s)| (c | MEMBER, s)));
    }
}
impl It {
    pub fn kind_name(&self) -> &'static str {
        match &self.kind {
            Kind::Struct { .. } => "struct",
            Kind::Enum { .. } => "enum",
            Kind::Union { .. } => "union",
            Kind::Fn(_) => "fn",
            Kind::Konst { stat: false, .. } => "const",
            Kind::Konst { .. } => "static",
            Kind::Alias { .. } => "type",
            Kind::Use(_) => "use",
            Kind::Mac { .. } => "macro",
            Kind::Impl { .. } => "impl",
            Kind::Trait { .. } => "trait",
            Kind::Mod { .. } => "mod",
            Kind::ExtB { .. } => "extern block",
            Kind::ExtC { .. } => "extern crate",
        }
    }
    /// What `Item::name` documents.
    pub fn name(&self) -> Option<S> {
        match &self.kind {
            Kind::Struct { name, .. }
            | Kind::Enum { name, .. }
            | Kind::Union { name, .. }
            | Kind::Konst { name, .. }
            | Kind::Alias { name, .. }
            | Kind::Mac { name, .. }
            | Kind::Trait { name, .. }
            | Kind::Mod { name, .. }
            | Kind::ExtC { name, .. } => Some(name),
            Kind::Fn(f) => Some(f.name),
            Kind::Use(_) | Kind::Impl { .. } | Kind::ExtB { .. } => None,
        }
    }
    pub fn gen(&self) -> Option<&Gen> {
        match &self.kind {
            Kind::Struct { gen, .. }
            | Kind::Enum { gen, .. }
            | Kind::Union { gen, .. }
            | Kind::Trait { gen, .. }
            | Kind::Impl { gen, .. } => Some(gen),
            Kind::Fn(f) => Some(&f.gen),
            _ => None,
        }
    }
    pub fn proj(&self, w: &str, o: &mut Proj) {
        o.push((KIND, format!("{w} is {}", self.kind_name())));
        if let Some(n) = self.name() {
            o.push((KIND, format!("{w}.name={n}")));
        }
        o.push((ATTR, format!("{w}.attrs={}", self.attrs.len())));
        jattrs(0, w, &self.attrs, o);
        jvis(0, w, &self.vis, o);
        match &self.kind {
            Kind::Struct { gen, wh, flds, semi, .. } => {
                jgen(w, gen, o);
                jwh(w, wh, o);
                jflds(&format!("{w}.fields"), flds, o);
                o.push((FIELD, format!("{w}.semicolon={semi}")));
            }
            Kind::Enum { gen, wh, vars, .. } => {
                jgen(w, gen, o);
                jwh(w, wh, o);
                jlist(FIELD, &format!("{w}.variants"), vars, o);
                for (i, v) in vars.items.iter().enumerate() {
                    let w = format!("{w}.variant[{i}]");
                    jattrs(FIELD, &w, &v.attrs, o);
                    jvis(FIELD, &w, &v.vis, o);
                    o.push((FIELD | DISC, format!("{w}.name={}", v.name)));
                    jflds(&format!("{w}.fields"), &v.flds, o);
                    o.push((FIELD | DISC, format!("{w}.value={:?}", v.disc.as_ref().map(|d| shown(d)))));
                }
            }
            Kind::Union { gen, wh, flds, .. } => {
                jgen(w, gen, o);
                jwh(w, wh, o);
                jnf(&format!("{w}.fields"), flds, o);
            }
            Kind::Fn(f) => {
                let q = &f.quals;
                o.push((
                    KIND | FN,
                    format!(
                        "{w}.qualifiers default={} const={} async={} unsafe={} extern={:?}",
                        q.default, q.konst, q.asyn, q.unsaf, q.ext
                    ),
                ));
                o.push((FN, format!("{w}.fn_name={}", f.name)));
                jgen(w, &f.gen, o);
                jlist(FN, &format!("{w}.params"), &f.params, o);
                for (i, q) in f.params.items.iter().enumerate() {
                    let w = format!("{w}.param[{i}]");
                    match q {
                        Param::Recv { attrs, amp, life, mutt } => {
                            jattrs(FN, &w, attrs, o);
                            o.push((FN, format!("{w} receiver ref={amp} life={life:?} mut={mutt}")));
                        }
                        Param::Typed { attrs, mutt, name, ty } => {
                            jattrs(FN, &w, attrs, o);
                            o.push((FN, format!("{w} typed mut={mutt} name={name}")));
                            jty(FN, &format!("{w}.ty"), ty, o);
                        }
                    }
                }
                match &f.ret {
                    None => o.push((FN, format!("{w}.ret=none"))),
                    Some(t) => jty(FN, &format!("{w}.ret"), t, o),
                }
                jwh(w, &f.wh, o);
                o.push((FN, format!("{w}.body={:?}", f.body.as_ref().map(|b| shown(b)))));
            }
            Kind::Konst { stat, mutt, name, ty, init } => {
                o.push((CONST, format!("{w} static={stat} mut={mutt} name={name}")));
                jty(CONST, &format!("{w}.ty"), ty, o);
                o.push((CONST, format!("{w}.init={:?}", init.as_ref().map(|b| shown(b)))));
            }
            Kind::Alias { name, bound, ty } => {
                o.push((CONST, format!("{w} alias {name}")));
                match bound {
                    None => o.push((CONST, format!("{w}.bound=none"))),
                    Some(t) => jty(CONST, &format!("{w}.bound"), t, o),
                }
                match ty {
                    None => o.push((CONST, format!("{w}.ty=none"))),
                    Some(t) => jty(CONST, &format!("{w}.ty"), t, o),
                }
            }
            Kind::Use(t) => jty(CONST, &format!("{w}.tree"), t, o),
            Kind::Mac { name, decl, delim, body, semi } => {
                o.push((CONST, format!("{w} macro {name} declared={decl:?} delim={delim:?} semicolon={semi} body={}", shown(body))));
            }
            Kind::Impl { unsaf, gen, tr, ty, wh, inner, items } => {
                o.push((MEMBER, format!("{w}.unsafe={unsaf}")));
                jgen(w, gen, o);
                match tr {
                    None => o.push((MEMBER, format!("{w}.trait=none"))),
                    Some(t) => jty(MEMBER, &format!("{w}.trait"), t, o),
                }
                jty(MEMBER, &format!("{w}.self_ty"), ty, o);
                jwh(w, wh, o);
                jitems(w, inner, items, o);
            }
            Kind::Trait { unsaf, name, gen, bound, wh, inner, items } => {
                o.push((MEMBER, format!("{w}.unsafe={unsaf} name={name}")));
                jgen(w, gen, o);
                match bound {
                    None => o.push((MEMBER, format!("{w}.supertraits=none"))),
                    Some(t) => jty(MEMBER, &format!("{w}.supertraits"), t, o),
                }
                jwh(w, wh, o);
                jitems(w, inner, items, o);
            }
            Kind::Mod { unsaf, name, body } => {
                o.push((MEMBER, format!("{w}.unsafe={unsaf} name={name} body={}", body.is_some())));
                if let Some((a, i)) = body {
                    jitems(w, a, i, o);
                }
            }
            Kind::ExtB { unsaf, abi, inner, items } => {
                o.push((MEMBER, format!("{w}.unsafe={unsaf} abi={abi:?}")));
                jitems(w, inner, items, o);
            }
            Kind::ExtC { name, alias } => {
                o.push((CONST, format!("{w} extern crate {name} as {alias:?}")));
            }
        }
    }
}

/// First difference between the two items among the observations of `mask`.
pub fn diff(want: &It, got: &It, mask: u32) -> Option<String> {
    if want == got {
        return None;
    }
    let (mut a, mut b) = (vec![], vec![]);
    want.proj("item", &mut a);
    got.proj("item", &mut b);
    let f = |v: Proj| -> Vec<String> { v.into_iter().filter(|x| x.0 & mask != 0).map(|x| x.1).collect() };
    let (a, b) = (f(a), f(b));
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            let q = |s: Option<&String>| s.cloned().unwrap_or("nothing".into());
            return Some(format!("declared: {}; reported: {}", q(x), q(y)));
        }
    }
    None
}
