//! The rewrites applied to an extracted function body.  Each one is counted and reported.
//!
//!   chain        iterator chains over slices, vectors, ranges, array literals and ordered maps, in `for` or with a
//!                terminal (collect/any/all/position/fold/count/sum), become index loops with the closures inlined
//!   panic        assert!/assert_eq!/assert_ne!/panic!/unreachable!/unimplemented! become calls that must be proved
//!                unreachable (or, in `abort` functions, calls that end execution under a proved frame condition)
//!   entry        map.entry(k).and_modify(f).or_insert(v) becomes remove/modify/insert on the same map
//!   mapindex     BTreeMap becomes the trusted ordered-map shim BMap
//!   smallvec     SmallVec becomes Vec, smallvec! becomes vec!
//!   float        f64 becomes F, float literals become exact rationals, `x as f64` becomes F::of_u64
//!   pattern      array patterns become indexing
//!   optmap       Option::map with a closure on last()/first()/get() becomes a match
//!   opassign     `a += b` on non-primitive operands becomes the AddAssign method call (where the template asks for it)
//!   string       format!(..) becomes an opaque string; print macros are dropped
//!   mutself      a `mut self` receiver becomes a local copy
use crate::template::FnSpec;
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Rw<'a> {
    pub spec: &'a FnSpec,
    pub loops: usize,
    pub closures: usize,
    pub fresh: usize,
    pub counts: BTreeMap<&'static str, usize>,
    pub errors: Vec<String>,
    /// the items outlive the listing of a map
    pub hold: bool,
    pub ret_option: bool,
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

// ------------------------------------------------------------------------------------------------ types
pub fn map_type(t: &mut Type, counts: &mut BTreeMap<&'static str, usize>) {
    struct V<'b>(&'b mut BTreeMap<&'static str, usize>);
    impl<'b> VisitMut for V<'b> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            visit_mut::visit_type_mut(self, t);
            let new: Option<Type> = match t {
                Type::Path(p) => {
                    let seg = p.path.segments.last().unwrap().clone();
                    match seg.ident.to_string().as_str() {
                        "SmallVec" => {
                            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                                match a.args.first() {
                                    Some(GenericArgument::Type(Type::Array(arr))) => {
                                        *self.0.entry("smallvec").or_default() += 1;
                                        let e = &arr.elem;
                                        Some(parse_quote!(Vec<#e>))
                                    }
                                    _ => None,
                                }
                            } else {
                                None
                            }
                        }
                        "f64" => {
                            *self.0.entry("float").or_default() += 1;
                            Some(parse_quote!(F))
                        }
                        "Result" if p.path.segments.len() > 1 && p.path.segments[p.path.segments.len() - 2].ident == "io" => match &seg.arguments {
                            PathArguments::AngleBracketed(a) if a.args.len() == 1 => {
                                let t = &a.args[0];
                                Some(parse_quote!(Result<#t, IoError>))
                            }
                            _ => None,
                        },
                        "BTreeMap" => {
                            let args = &seg.arguments;
                            Some(parse_quote!(BMap #args))
                        }
                        "Box" => {
                            if let PathArguments::AngleBracketed(a) = &seg.arguments {
                                match a.args.first() {
                                    Some(GenericArgument::Type(Type::TraitObject(o))) => iter_item(o.bounds.iter()).map(|i| parse_quote!(Vec<#i>)),
                                    _ => None,
                                }
                            } else {
                                None
                            }
                        }
                        _ => None,
                    }
                }
                Type::ImplTrait(o) if norm(&o.to_token_stream().to_string()) == "implAsRef<str>" => Some(parse_quote!(VPath)),
                Type::ImplTrait(o) => iter_item(o.bounds.iter()).map(|i| parse_quote!(Vec<#i>)),
                _ => None,
            };
            if let Some(n) = new {
                *t = n;
            }
        }
    }
    V(counts).visit_type_mut(t);
}

/// the types inside a function's generics (bounds and where clause)
pub fn map_generics(g: &mut Generics, counts: &mut BTreeMap<&'static str, usize>) {
    struct T<'b>(&'b mut BTreeMap<&'static str, usize>);
    impl<'b> VisitMut for T<'b> {
        fn visit_type_mut(&mut self, t: &mut Type) {
            map_type(t, self.0);
        }
    }
    T(counts).visit_generics_mut(g);
}

fn iter_item<'x>(b: impl Iterator<Item = &'x TypeParamBound>) -> Option<Type> {
    for x in b {
        if let TypeParamBound::Trait(t) = x {
            let s = t.path.segments.last()?;
            if s.ident == "Iterator" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    for g in a.args.iter() {
                        if let GenericArgument::Binding(b) = g {
                            return Some(b.ty.clone());
                        }
                    }
                }
            }
        }
    }
    None
}

// ------------------------------------------------------------------------------------------------ items of a loop
#[derive(Clone)]
enum Item {
    Val(TokenStream),
    Ref(TokenStream), // tokens of a place; the item is a shared reference to it
    RefMut(TokenStream),
    Tuple(Vec<Item>),
    RefTo(Box<Item>),
}

impl Item {
    fn tokens(&self) -> TokenStream {
        match self {
            Item::Val(t) => t.clone(),
            Item::Ref(t) => quote!(&#t),
            Item::RefMut(t) => quote!(&mut #t),
            Item::Tuple(v) => {
                let x: Vec<_> = v.iter().map(|i| i.tokens()).collect();
                quote!((#(#x),*))
            }
            Item::RefTo(i) => {
                let t = i.tokens();
                quote!(&#t)
            }
        }
    }
}

struct Stage {
    name: String,
    args: Vec<Expr>,
}

enum Source {
    Place { e: Expr, kind: SrcKind },
    Range { lo: Expr, hi: Expr, incl: bool },
    ArrayLit(Vec<Expr>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum SrcKind {
    Iter,
    IterMut,
    Value,
    MapIter,
    MapKeys,
    MapValues,
    MapValue,
}

struct Chain {
    src: Source,
    stages: Vec<Stage>,
}

const STAGES: &[&str] = &["enumerate", "skip", "take", "rev", "map", "filter", "zip", "cloned", "copied", "flatten", "flat_map", "iter", "iter_mut", "drain", "into_iter", "keys", "values", "skip_while", "par_iter", "members"];
const TERMINALS: &[&str] = &["collect", "any", "all", "position", "fold", "count", "sum", "for_each", "next", "last_item", "unzip"];

impl<'a> Rw<'a> {
    fn bump(&mut self, k: &'static str) {
        *self.counts.entry(k).or_default() += 1;
    }
    fn id(&mut self, base: &str) -> Ident {
        self.fresh += 1;
        format_ident!("{}{}", base, self.fresh)
    }

    fn is_map(&self, e: &Expr) -> bool {
        let last = match strip(e) {
            Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            Expr::Field(f) => match &f.member {
                Member::Named(i) => Some(i.to_string()),
                _ => None,
            },
            Expr::Index(i) => return self.is_map(&i.expr),
            _ => None,
        };
        last.map_or(false, |l| self.spec.maps.contains(&l))
    }

    /// places whose indexing is an overloaded operator (an extracted `index` method)
    fn is_vidx(&self, e: &Expr) -> bool {
        let last = match strip(e) {
            Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
            Expr::Field(f) => match &f.member {
                Member::Named(i) => Some(i.to_string()),
                _ => None,
            },
            _ => None,
        };
        last.map_or(false, |l| self.spec.vidx.contains(&l))
    }

    fn is_iter_fn(&self, e: &Expr) -> bool {
        // calls of functions that return iterators (they return Vec after extraction)
        match strip(e) {
            Expr::MethodCall(m) => self.spec.iterfns.contains(&m.method.to_string()),
            _ => false,
        }
    }

    /// Decompose `src.stage(..).stage(..)`; None when the expression is not an iterator chain.
    fn chain(&mut self, e: &Expr) -> Option<Chain> {
        let e = strip(e);
        match e {
            Expr::Range(r) => {
                let lo = r.from.as_deref()?.clone();
                let hi = r.to.as_deref()?.clone();
                Some(Chain { src: Source::Range { lo, hi, incl: matches!(r.limits, RangeLimits::Closed(_)) }, stages: vec![] })
            }
            Expr::Array(a) => Some(Chain { src: Source::ArrayLit(a.elems.iter().cloned().collect()), stages: vec![] }),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if self.is_iter_fn(e) {
                    return Some(Chain { src: Source::Place { e: e.clone(), kind: SrcKind::Value }, stages: vec![] });
                }
                if !STAGES.contains(&name.as_str()) {
                    return None;
                }
                let args: Vec<Expr> = m.args.iter().cloned().collect();
                match name.as_str() {
                    "iter" | "iter_mut" | "into_iter" | "drain" | "keys" | "values" | "par_iter" if !matches!(strip(&m.receiver), Expr::Range(_)) => {
                        let map = self.is_map(&m.receiver);
                        // the receiving end of a channel yields what was sent
                        if let Expr::Path(p) = strip(&m.receiver) {
                            if name == "iter" && p.path.get_ident().map_or(false, |i| self.spec.recv.contains(&i.to_string())) {
                                let r = &m.receiver;
                                self.bump("channel");
                                return Some(Chain { src: Source::Place { e: parse_quote!(#r.received()), kind: SrcKind::Value }, stages: vec![] });
                            }
                        }
                        if name == "par_iter" {
                            self.bump("par");
                        }
                        let kind = match (name.as_str(), map) {
                            ("iter", false) | ("par_iter", false) => SrcKind::Iter,
                            ("iter_mut", false) => SrcKind::IterMut,
                            ("into_iter", false) | ("drain", false) => SrcKind::Value,
                            ("iter", true) => SrcKind::MapIter,
                            ("keys", true) => SrcKind::MapKeys,
                            ("values", true) => SrcKind::MapValues,
                            ("into_iter", true) => SrcKind::MapValue,
                            _ => {
                                self.errors.push(format!("unsupported iterator source .{name}() on {}", m.receiver.to_token_stream()));
                                return None;
                            }
                        };
                        if let Expr::Array(a) = strip(&m.receiver) {
                            return Some(Chain { src: Source::ArrayLit(a.elems.iter().cloned().collect()), stages: vec![] });
                        }
                        Some(Chain { src: Source::Place { e: (*m.receiver).clone(), kind }, stages: vec![] })
                    }
                    "into_iter" => self.chain(&m.receiver),
                    // the members of a JSON array, in order
                    "members" if m.args.is_empty() => Some(Chain { src: Source::Place { e: e.clone(), kind: SrcKind::Iter }, stages: vec![] }),
                    _ => {
                        let mut c = self.chain(&m.receiver)?;
                        c.stages.push(Stage { name, args });
                        Some(c)
                    }
                }
            }
            _ => None,
        }
    }

    fn for_source(&mut self, e: &Expr) -> Option<Chain> {
        if let Some(c) = self.chain(e) {
            return Some(c);
        }
        match strip(e) {
            Expr::Reference(r) => {
                let kind = if self.is_map(&r.expr) { SrcKind::MapIter } else if r.mutability.is_some() { SrcKind::IterMut } else { SrcKind::Iter };
                Some(Chain { src: Source::Place { e: (*r.expr).clone(), kind }, stages: vec![] })
            }
            Expr::Path(_) | Expr::Field(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Try(_) | Expr::Index(_) => {
                let kind = if self.is_map(e) { SrcKind::MapValue } else { SrcKind::Value };
                Some(Chain { src: Source::Place { e: e.clone(), kind }, stages: vec![] })
            }
            _ => None,
        }
    }

    /// `let` bindings for a pattern against an item.
    fn bind(&mut self, p: &Pat, it: &Item) -> TokenStream {
        match p {
            Pat::Wild(_) => quote!(),
            Pat::Type(t) => self.bind(&t.pat, it),
            Pat::Ident(i) => {
                let n = &i.ident;
                let m = &i.mutability;
                let t = it.tokens();
                quote!(let #m #n = #t;)
            }
            Pat::Reference(r) => match it {
                Item::Ref(t) | Item::RefMut(t) => self.bind(&r.pat, &Item::Val(t.clone())),
                Item::RefTo(i) => {
                    let i = (**i).clone();
                    self.bind(&r.pat, &i)
                }
                Item::Val(t) => self.bind(&r.pat, &Item::Val(quote!(*#t))),
                _ => {
                    self.errors.push("reference pattern on a tuple".into());
                    quote!()
                }
            },
            Pat::Tuple(tp) => {
                let mut o = quote!();
                for (k, q) in tp.elems.iter().enumerate() {
                    let ix = Index::from(k);
                    let sub = match it {
                        Item::Tuple(v) => v[k].clone(),
                        Item::Val(t) => Item::Val(quote!((#t).#ix)),
                        Item::Ref(t) => Item::Ref(quote!((#t).#ix)),
                        Item::RefMut(t) => Item::RefMut(quote!((#t).#ix)),
                        Item::RefTo(i) => match &**i {
                            Item::Tuple(v) => match &v[k] {
                                Item::Val(t) => Item::Ref(t.clone()),
                                x => Item::RefTo(Box::new(x.clone())),
                            },
                            Item::Val(t) => Item::Ref(quote!((#t).#ix)),
                            Item::Ref(t) => Item::Ref(quote!((#t).#ix)),
                            x => x.clone(),
                        },
                    };
                    o.extend(self.bind(q, &sub));
                }
                o
            }
            Pat::Slice(sp) if self.spec.arrmove && matches!(it, Item::Val(_)) && sp.elems.iter().all(|q| matches!(q, Pat::Ident(_))) => {
                // an array taken apart by value
                self.bump("pattern");
                let el = &sp.elems;
                let f = format_ident!("arr{}", el.len());
                let t = it.tokens();
                quote!(let (#el) = #f(#t);)
            }
            Pat::Slice(sp) => {
                self.bump("pattern");
                let mut o = quote!();
                for (k, q) in sp.elems.iter().enumerate() {
                    let ix = Index::from(k);
                    let sub = match it {
                        Item::Val(t) => Item::Val(quote!((#t)[#ix])),
                        Item::Ref(t) => Item::Ref(quote!((#t)[#ix])),
                        Item::RefTo(i) => match &**i {
                            Item::Ref(t) | Item::Val(t) => Item::Ref(quote!((#t)[#ix])),
                            _ => {
                                self.errors.push("slice pattern".into());
                                return quote!();
                            }
                        },
                        _ => {
                            self.errors.push("slice pattern".into());
                            return quote!();
                        }
                    };
                    o.extend(self.bind(q, &sub));
                }
                o
            }
            _ => {
                self.errors.push(format!("unsupported pattern {}", p.to_token_stream()));
                quote!()
            }
        }
    }

    /// Array patterns nested in `p` replaced by names; the statements that take those apart.
    fn name_slices(&mut self, p: &mut Pat, inner: bool) -> TokenStream {
        match p {
            Pat::Slice(sp) if inner && sp.elems.iter().all(|q| matches!(q, Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none()) || matches!(q, Pat::Wild(_))) => {
                let v = self.id("__p");
                let it = Item::Val(quote!(#v));
                let q = Pat::Slice(sp.clone());
                let o = self.bind(&q, &it);
                *p = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: v.clone(), subpat: None });
                o
            }
            Pat::TupleStruct(t) => t.pat.elems.iter_mut().map(|q| self.name_slices(q, true)).collect(),
            Pat::Tuple(t) => t.elems.iter_mut().map(|q| self.name_slices(q, true)).collect(),
            Pat::Reference(r) => self.name_slices(&mut r.pat, true),
            _ => quote!(),
        }
    }

    /// Loops over the chain, calling `k` on each item, as statements.  `guard` is an extra loop condition.
    fn emit(&mut self, c: Chain, guard: TokenStream, k: &mut dyn FnMut(&mut Self, Item) -> TokenStream) -> TokenStream {
        self.bump("chain");
        let n = self.loops;
        self.loops += 1;
        let (lo, hi, i) = (format_ident!("__lo{n}"), format_ident!("__hi{n}"), format_ident!("__i{n}"));
        let src = format_ident!("__s{n}");
        let take = self.spec.loops.get(&n).map_or(false, |l| l.mode == "take");
        let gd = if guard.is_empty() { quote!() } else { quote!(&& #guard) };
        let lend: TokenStream = format!("__lend!({n});").parse().unwrap();
        let aft: TokenStream = format!("__aft!({n});").parse().unwrap();
        let mut item: Item;
        let mut setup;
        match c.src {
            Source::ArrayLit(elems) => {
                if !self.spec.keep_arrays {
                    // unrolled: the loop body once per literal element
                    self.loops = n; // no loop is emitted
                    let mut o = quote!();
                    if !c.stages.is_empty() {
                        self.errors.push("stages on an array literal".into());
                    }
                    for e in elems {
                        let mut e = e;
                        self.visit_expr_mut(&mut e);
                        let save = self.loops;
                        let body = k(self, to_item(&e));
                        let _ = save;
                        o.extend(quote!({ #body }));
                    }
                    return o;
                }
                setup = quote!(let #src = [#(#elems),*]; let #hi: usize = #src.len(););
                setup.extend(quote!(let #lo: usize = 0;));
                item = Item::Val(quote!(#src[__IDX]));
            }
            Source::Range { lo: a, hi: b, incl } => {
                let (mut a, mut b) = (a, b);
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut b);
                let b = if incl { quote!((#b) + 1) } else { quote!(#b) };
                let suffix = int_suffix_hint(&a, &b);
                let _ = suffix;
                setup = quote!(let __r = #a; let #hi = #b; let #lo = if __r < #hi { __r } else { #hi };);
                item = Item::Val(quote!(__IDX));
            }
            Source::Place { e, kind } => {
                let mut e = e;
                self.visit_expr_mut(&mut e);
                let simple = matches!(strip(&e), Expr::Path(_) | Expr::Field(_));
                match kind {
                    SrcKind::Iter | SrcKind::IterMut => {
                        let place = if simple {
                            setup = quote!();
                            quote!(#e)
                        } else if kind == SrcKind::Iter {
                            setup = quote!(let #src = &#e;);
                            quote!(#src)
                        } else {
                            setup = quote!(let #src = &mut #e;);
                            quote!(#src)
                        };
                        setup.extend(quote!(let #hi: usize = (#place).len(); let #lo: usize = 0;));
                        item = if kind == SrcKind::Iter { Item::Ref(quote!((#place)[__IDX])) } else { Item::RefMut(quote!((#place)[__IDX])) };
                    }
                    SrcKind::Value if take => {
                        setup = quote!(let mut #src = #e; let #hi: usize = (#src).len(); let #lo: usize = 0;);
                        item = Item::Val(quote!(#src.remove(0)));
                    }
                    SrcKind::Value => {
                        setup = quote!(let #src = #e; let #hi: usize = (#src).len(); let #lo: usize = 0;);
                        item = Item::Val(quote!(#src[__IDX]));
                    }
                    SrcKind::MapIter | SrcKind::MapKeys | SrcKind::MapValues | SrcKind::MapValue => {
                        self.bump("mapindex");
                        if kind == SrcKind::MapValue && take {
                            setup = quote!(let mut #src = (#e).into_pairs(); let #hi: usize = (#src).len(); let #lo: usize = 0;);
                            item = Item::Val(quote!(#src.remove(0)));
                        } else if kind == SrcKind::MapValue {
                            setup = quote!(let #src = (#e).into_pairs(); let #hi: usize = (#src).len(); let #lo: usize = 0;);
                            item = Item::Val(quote!(#src[__IDX]));
                        } else {
                            let how = if self.hold { quote!(ref_pairs) } else { quote!(pairs) };
                            setup = quote!(let #src = (#e).#how(); let #hi: usize = (#src).len(); let #lo: usize = 0;);
                            item = match kind {
                                SrcKind::MapIter if self.hold => Item::Tuple(vec![Item::Val(quote!(#src[__IDX].0)), Item::Val(quote!(#src[__IDX].1))]),
                                SrcKind::MapIter => Item::Tuple(vec![Item::Ref(quote!(#src[__IDX].0)), Item::Ref(quote!(*#src[__IDX].1))]),
                                SrcKind::MapKeys => Item::Ref(quote!(#src[__IDX].0)),
                                _ => Item::Ref(quote!(*#src[__IDX].1)),
                            };
                        }
                    }
                }
            }
        }
        // index-space stages come before the first value stage
        let mut rev = false;
        let mut base: Option<TokenStream> = None; // enumerate base: index = pos - base
        let mut stages = std::collections::VecDeque::from(c.stages);
        let mut lo_e = quote!(#lo);
        let mut hi_e = quote!(#hi);
        // index stages behind one-to-one stages act on the positions all the same
        let mut at = 0;
        while let Some(s) = stages.get(at) {
            match s.name.as_str() {
                "map" | "indexed" => at += 1,
                "cloned" | "copied" if at > 0 => at += 1,
                "skip" | "take" => {
                    let s = stages.remove(at).unwrap();
                    let mut a = s.args[0].clone();
                    self.visit_expr_mut(&mut a);
                    if s.name == "skip" && !rev {
                        let nlo = self.id("__lo_");
                        setup.extend(quote!(let #nlo = if (#a) < #hi_e - #lo_e { #lo_e + (#a) } else { #hi_e };));
                        lo_e = quote!(#nlo);
                    } else if s.name == "take" && !rev {
                        let nhi = self.id("__hi_");
                        setup.extend(quote!(let #nhi = if (#a) < #hi_e - #lo_e { #lo_e + (#a) } else { #hi_e };));
                        hi_e = quote!(#nhi);
                    } else if s.name == "take" {
                        let nlo = self.id("__lo_");
                        setup.extend(quote!(let #nlo = if (#a) < #hi_e - #lo_e { #hi_e - (#a) } else { #lo_e };));
                        lo_e = quote!(#nlo);
                    } else {
                        let nhi = self.id("__hi_");
                        setup.extend(quote!(let #nhi = if (#a) < #hi_e - #lo_e { #hi_e - (#a) } else { #lo_e };));
                        hi_e = quote!(#nhi);
                    }
                }
                "rev" if base.is_none() || at == 0 => {
                    stages.remove(at);
                    rev = !rev;
                }
                "enumerate" if base.is_none() => {
                    stages.remove(at);
                    let b = if rev { hi_e.clone() } else { lo_e.clone() };
                    base = Some(b.clone());
                    let pos = if rev { quote!(#b - 1 - __IDX) } else { quote!(__IDX - #b) };
                    let pos = if b.to_string() == lo.to_string() && !rev { quote!(__IDX) } else { pos };
                    if at > 0 {
                        // the value is a product of the stages before
                        stages.insert(at, Stage { name: "indexed".into(), args: vec![parse2(pos).unwrap()] });
                        at += 1;
                    } else {
                        item = Item::Tuple(vec![Item::Val(pos), item]);
                    }
                }
                "cloned" | "copied" => {
                    stages.pop_front();
                    item = match item {
                        Item::Ref(t) => Item::Val(t),
                        x => x,
                    };
                }
                "zip" if at == 0 => {
                    let s = stages.pop_front().unwrap();
                    match self.for_source(&s.args[0]) {
                        Some(Chain { src: Source::Place { e, kind }, stages: st }) if st.is_empty() && !rev => {
                            let mut e = e;
                            self.visit_expr_mut(&mut e);
                            let z = self.id("__z");
                            let nhi = self.id("__hi_");
                            let zi = match kind {
                                SrcKind::Iter => {
                                    setup.extend(quote!(let #z = &#e;));
                                    Item::Ref(quote!((#z)[__IDX - #lo_e]))
                                }
                                SrcKind::MapValues => {
                                    setup.extend(quote!(let #z = (#e).pairs();));
                                    Item::Ref(quote!(*#z[__IDX - #lo_e].1))
                                }
                                _ => {
                                    setup.extend(quote!(let #z = #e;));
                                    Item::Val(quote!((#z)[__IDX - #lo_e]))
                                }
                            };
                            setup.extend(quote!(let #nhi = if #z.len() < #hi_e - #lo_e { #lo_e + #z.len() } else { #hi_e };));
                            hi_e = quote!(#nhi);
                            item = Item::Tuple(vec![item, zi]);
                        }
                        _ => self.errors.push("unsupported zip".into()),
                    }
                }
                _ => break,
            }
        }
        // value stages, inlined around the continuation
        let cur = self.id("__x");
        let idx = quote!(#cur);
        let mut item = subst_idx(&item, &idx);
        let mut stages: Vec<Stage> = stages.into_iter().collect();
        for s in stages.iter_mut().filter(|s| s.name == "indexed") {
            let p = subst_idx(&Item::Val(s.args[0].to_token_stream()), &idx).tokens();
            s.args = vec![parse2(p).unwrap()];
        }
        let mut name_it = quote!();
        if take {
            // the item leaves the sequence once
            if let Item::Val(t) = &item {
                let n = self.id("__t");
                name_it = quote!(let #n = #t;);
                item = Item::Val(quote!(#n));
            }
        }
        let body = self.value_stages(&stages, item, k);
        let body = quote!(#name_it #body);
        let ty = quote!();
        let _ = ty;
        let inv: TokenStream = format!("__inv!({n}{}, {lo_e}, {hi_e}, {i});", if rev { " rev" } else { "" }).parse().unwrap();
        if rev {
            quote! {
                #setup
                let mut #i = #hi_e;
                while #i > #lo_e #gd {
                    #inv
                    #i = #i - 1;
                    let #cur = #i;
                    #body
                    #lend
                }
                #aft
            }
        } else {
            quote! {
                #setup
                let mut #i = #lo_e;
                while #i < #hi_e #gd {
                    #inv
                    let #cur = #i;
                    #i = #i + 1;
                    #body
                    #lend
                }
                #aft
            }
        }
    }

    fn value_stages(&mut self, st: &[Stage], item: Item, k: &mut dyn FnMut(&mut Self, Item) -> TokenStream) -> TokenStream {
        if st.is_empty() {
            return k(self, item);
        }
        let s = &st[0];
        match s.name.as_str() {
            "map" => match closure(&s.args[0]) {
                Some((params, body)) => {
                    let b = self.bind(&params[0], &item);
                    let mut body = body;
                    self.visit_expr_mut(&mut body);
                    let (pre, it) = self.value_item(body);
                    let rest = self.value_stages(&st[1..], it, k);
                    quote!(#b #pre #rest)
                }
                None => {
                    // a function value
                    let f = &s.args[0];
                    let t = item.tokens();
                    let v = self.id("__m");
                    let rest = self.value_stages(&st[1..], Item::Val(quote!(#v)), k);
                    quote!(let #v = (#f)(#t); #rest)
                }
            },
            "filter" => match closure(&s.args[0]) {
                Some((params, body)) => {
                    // give the item a name so that the filter closure and the rest share it
                    let b = self.bind(&params[0], &Item::RefTo(Box::new(item.clone())));
                    let mut body = body;
                    self.visit_expr_mut(&mut body);
                    let c = self.id("__c");
                    let rest = self.value_stages(&st[1..], item, k);
                    quote!(let #c = { #b #body }; if #c { #rest })
                }
                None => {
                    self.errors.push("filter without a closure".into());
                    quote!()
                }
            },
            "flatten" if self.spec.flatvec => {
                // an iterator of vectors: an inner index loop
                let v = self.id("__f");
                let t = item.tokens();
                let c = Chain { src: Source::Place { e: parse2(quote!(#v)).unwrap(), kind: if matches!(item, Item::Ref(_)) { SrcKind::Iter } else { SrcKind::Value } }, stages: vec![] };
                let st1 = &st[1..];
                let inner = self.emit(c, quote!(), &mut |me, it| me.value_stages(st1, it, k));
                quote!(let #v = & #t; #inner)
            }
            "flatten" => {
                let v = self.id("__f");
                let t = item.tokens();
                let it = match &item {
                    Item::Ref(_) => Item::Ref(quote!(*#v)),
                    _ => Item::Val(quote!(#v)),
                };
                let rest = self.value_stages(&st[1..], it, k);
                quote!(if let Some(#v) = #t { #rest })
            }
            "cloned" | "copied" => {
                let it = match item {
                    Item::Ref(t) => Item::Val(t),
                    x => x,
                };
                self.value_stages(&st[1..], it, k)
            }
            "flat_map" => match closure(&s.args[0]) {
                Some((params, body)) => {
                    let b = self.bind(&params[0], &item);
                    match self.chain(&body) {
                        Some(c) => {
                            let st1 = &st[1..];
                            let inner = self.emit(c, quote!(), &mut |me, it| me.value_stages(st1, it, k));
                            quote!(#b #inner)
                        }
                        None => {
                            self.errors.push("flat_map body is not a chain".into());
                            quote!()
                        }
                    }
                }
                None => quote!(),
            },
            "indexed" => {
                let p = s.args[0].to_token_stream();
                self.value_stages(&st[1..], Item::Tuple(vec![Item::Val(p), item]), k)
            }
            "enumerate" | "skip" | "take" | "rev" | "zip" => {
                self.errors.push(format!("{} after a value stage", s.name));
                quote!()
            }
            x => {
                self.errors.push(format!("unsupported stage {x}"));
                quote!()
            }
        }
    }

    fn value_item(&mut self, e: Expr) -> (TokenStream, Item) {
        match strip(&e) {
            Expr::Tuple(t) => {
                let mut pre = quote!();
                let mut v = vec![];
                for x in t.elems.iter() {
                    let (p, i) = self.value_item(x.clone());
                    pre.extend(p);
                    v.push(i);
                }
                (pre, Item::Tuple(v))
            }
            Expr::Path(p) => (quote!(), Item::Val(quote!(#p))),
            Expr::Block(b) if b.label.is_none() && b.block.stmts.len() >= 1 => {
                let (last, init) = b.block.stmts.split_last().unwrap();
                match last {
                    Stmt::Expr(x) => {
                        let (p, i) = self.value_item(x.clone());
                        (quote!(#(#init)* #p), i)
                    }
                    _ => {
                        let n = self.id("__m");
                        (quote!(let #n = #e;), Item::Val(quote!(#n)))
                    }
                }
            }
            _ => {
                let n = self.id("__m");
                (quote!(let #n = #e;), Item::Val(quote!(#n)))
            }
        }
    }

    /// A whole chain expression with terminal, as a block expression.
    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !TERMINALS.contains(&name.as_str()) {
            return None;
        }
        let c = self.chain(&m.receiver)?;
        if c.stages.is_empty() && matches!(c.src, Source::Range { .. }) && name != "collect" && name != "for_each" && name != "fold" && name != "all" && name != "any" {
            return None;
        }
        let n = self.loops;
        let acc = format_ident!("__a{n}");
        let args: Vec<Expr> = m.args.iter().cloned().collect();
        let ts: TokenStream = match name.as_str() {
            "collect" if self.spec.loops.get(&n).map_or(false, |l| l.acc.starts_with("BMap")) => {
                // collecting pairs into an ordered map inserts them in order
                let l = self.emit(c, quote!(), &mut |me, it| match it {
                    Item::Tuple(v) if v.len() == 2 => {
                        let (a, b) = (v[0].tokens(), v[1].tokens());
                        quote!(#acc.insert(#a, #b);)
                    }
                    x => {
                        let t = x.tokens();
                        let v = me.id("__kv");
                        quote!(let #v = #t; #acc.insert(#v.0, #v.1);)
                    }
                });
                let ty: TokenStream = self.spec.loops[&n].acc.parse().unwrap();
                quote!({ let mut #acc: #ty = BMap::new(); #l #acc })
            }
            "unzip" => {
                let (a0, a1) = (format_ident!("__a{n}l"), format_ident!("__a{n}r"));
                let l = self.emit(c, quote!(), &mut |me, it| match it {
                    Item::Tuple(v) if v.len() == 2 => {
                        let (a, b) = (v[0].tokens(), v[1].tokens());
                        quote!(#a0.push(#a); #a1.push(#b);)
                    }
                    x => {
                        let t = x.tokens();
                        let v = me.id("__kv");
                        quote!(let #v = #t; #a0.push(#v.0); #a1.push(#v.1);)
                    }
                });
                quote!({ let mut #a0 = Vec::new(); let mut #a1 = Vec::new(); #l (#a0, #a1) })
            }
            "collect" => {
                let l = self.emit(c, quote!(), &mut |_me, it| {
                    let t = it.tokens();
                    quote!(#acc.push(#t);)
                });
                let ty: TokenStream = match self.spec.loops.get(&n) {
                    Some(l) if !l.acc.is_empty() => format!(": {}", l.acc).parse().unwrap(),
                    _ => quote!(),
                };
                quote!({ let mut #acc #ty = Vec::new(); #l #acc })
            }
            "count" => {
                let l = self.emit(c, quote!(), &mut |_me, _it| quote!(#acc = #acc + 1;));
                quote!({ let mut #acc: usize = 0; #l #acc })
            }
            "sum" => {
                let l = self.emit(c, quote!(), &mut |_me, it| {
                    let t = it.tokens();
                    quote!(#acc = #acc + #t;)
                });
                quote!({ let mut #acc = F::zero(); #l #acc })
            }
            "any" | "all" | "position" => {
                let (params, body) = closure(&args[0])?;
                match name.as_str() {
                    "any" => {
                        let l = self.emit(c, quote!(!#acc), &mut |me, it| {
                            let b = me.bind(&params[0], &it);
                            let mut body = body.clone();
                            me.visit_expr_mut(&mut body);
                            quote!(#b if #body { #acc = true; })
                        });
                        quote!({ let mut #acc = false; #l #acc })
                    }
                    "all" => {
                        let l = self.emit(c, quote!(#acc), &mut |me, it| {
                            let b = me.bind(&params[0], &it);
                            let mut body = body.clone();
                            me.visit_expr_mut(&mut body);
                            quote!(#b if !(#body) { #acc = false; })
                        });
                        quote!({ let mut #acc = true; #l #acc })
                    }
                    _ => {
                        let i = format_ident!("__i{n}");
                        if c.stages.iter().any(|s| s.name != "x") {
                            self.errors.push("position after stages".into());
                        }
                        let l = self.emit(c, quote!(#acc.is_none()), &mut |me, it| {
                            let b = me.bind(&params[0], &it);
                            let mut body = body.clone();
                            me.visit_expr_mut(&mut body);
                            quote!(#b if #body { #acc = Some(#i - 1); })
                        });
                        quote!({ let mut #acc: Option<usize> = None; #l #acc })
                    }
                }
            }
            "fold" => {
                let mut init = args[0].clone();
                self.visit_expr_mut(&mut init);
                let (params, body) = closure(&args[1])?;
                let l = self.emit(c, quote!(), &mut |me, it| {
                    let b0 = me.bind(&params[0], &Item::Val(quote!(#acc)));
                    let b = me.bind(&params[1], &it);
                    let mut body = body.clone();
                    me.visit_expr_mut(&mut body);
                    quote!(#b0 #b #acc = #body;)
                });
                quote!({ let mut #acc = #init; #l #acc })
            }
            "for_each" => {
                let (params, body) = closure(&args[0])?;
                let l = self.emit(c, quote!(), &mut |me, it| {
                    let b = me.bind(&params[0], &it);
                    let mut body = body.clone();
                    me.visit_expr_mut(&mut body);
                    quote!(#b { #body })
                });
                quote!({ #l })
            }
            "next" => {
                self.hold = true;
                let l = self.emit(c, quote!(#acc.is_none()), &mut |_me, it| {
                    let t = it.tokens();
                    quote!(#acc = Some(#t);)
                });
                self.hold = false;
                let ty: TokenStream = match self.spec.loops.get(&n) { Some(l) if !l.acc.is_empty() => format!(": {}", l.acc).parse().unwrap(), _ => quote!() };
                quote!({ let mut #acc #ty = None; #l #acc })
            }
            _ => return None,
        };
        match parse2(ts.clone()) {
            Ok(e) => Some(e),
            Err(x) => {
                self.errors.push(format!("internal: {x} in {ts}"));
                None
            }
        }
    }

    fn panic_stmt(&mut self) -> Expr {
        unit_panic(self.panic_call())
    }

    fn panic_call(&mut self) -> Expr {
        self.bump("panic");
        match &self.spec.abort {
            Some(_) => parse_quote!(__abort_value),
            None => parse_quote!(vpanic()),
        }
    }

    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = || m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect::<Vec<Expr>>());
        match name.as_str() {
            "assert" | "debug_assert" => {
                let a = args()?;
                let mut c = a[0].clone();
                self.visit_expr_mut(&mut c);
                let p = self.panic_stmt();
                Some(parse_quote!({ if !(#c) { #p; } }))
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                let a = args()?;
                let (mut x, mut y) = (a[0].clone(), a[1].clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut y);
                let p = self.panic_stmt();
                if name == "assert_ne" {
                    Some(parse_quote!({ if #x == #y { #p; } }))
                } else {
                    Some(parse_quote!({ if !(#x == #y) { #p; } }))
                }
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(self.panic_call()),
            "format" if self.spec.text => {
                let a = args()?;
                let t = self.text(&a, "")?;
                Some(parse_quote!(#t.text()))
            }
            "write" | "writeln" if self.spec.text => {
                let mut a = args()?;
                let mut w = a.remove(0);
                self.visit_expr_mut(&mut w);
                let t = self.text(&a, if name == "writeln" { "\n" } else { "" })?;
                Some(parse_quote!(#w.put(#t)))
            }
            "format" => {
                self.bump("string");
                Some(parse_quote!(opaque_string()))
            }
            "println" | "print" | "eprintln" => {
                self.bump("string");
                Some(parse_quote!(()))
            }
            "smallvec" | "vec" => {
                if name == "smallvec" {
                    self.bump("smallvec");
                }
                if let Some(a) = args() {
                    let mut a = a;
                    for x in a.iter_mut() {
                        self.visit_expr_mut(x);
                    }
                    let v = self.id("__v");
                    return Some(if a.is_empty() { parse_quote!(Vec::new()) } else { parse_quote!({ let mut #v = Vec::new(); #(#v.push(#a);)* #v }) });
                }
                // vec![x; n]
                let s: ExprRepeat = {
                    let t = m.tokens.clone();
                    parse2(quote!([#t])).ok()?
                };
                let (mut x, mut n) = ((*s.expr).clone(), (*s.len).clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut n);
                Some(parse_quote!(vec_repeat(#x, #n)))
            }
            _ => None,
        }
    }

    /// formatted text: the pieces of the format string and the arguments, in order
    fn text(&mut self, a: &[Expr], end: &str) -> Option<TokenStream> {
        let f = match a.first() {
            None => String::new(),
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
            _ => return None,
        };
        let mut rest = a.iter().skip(1);
        let mut o = quote!(VText::new());
        let mut lit = String::new();
        let mut cs = f.chars().peekable();
        while let Some(c) = cs.next() {
            match c {
                '{' if cs.peek() == Some(&'{') => { cs.next(); lit.push('{'); }
                '}' if cs.peek() == Some(&'}') => { cs.next(); lit.push('}'); }
                '{' => {
                    let mut h = String::new();
                    loop { match cs.next()? { '}' => break, x => h.push(x) } }
                    let (n, sp) = match h.split_once(':') { Some((n, sp)) => (n.to_string(), sp.to_string()), None => (h, String::new()) };
                    let mut e: Expr = if n.is_empty() { rest.next()?.clone() } else { parse_str(&n).ok().filter(|e| matches!(e, Expr::Path(_)))? };
                    self.visit_expr_mut(&mut e);
                    if !lit.is_empty() { o = quote!(#o.lit(#lit)); lit.clear(); }
                    o = if sp.is_empty() { quote!(#o.show(&(#e))) }
                        else if sp == "?" { quote!(#o.debug(&(#e))) }
                        else if let Some(p) = sp.strip_prefix('.').and_then(|p| p.parse::<usize>().ok()) { quote!(#o.show_to(&(#e), #p)) }
                        else { return None };
                }
                x => lit.push(x),
            }
        }
        if rest.next().is_some() { return None; }
        lit.push_str(end);
        if !lit.is_empty() { o = quote!(#o.lit(#lit)); }
        self.bump("text");
        Some(o)
    }

    fn entry(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let t = m.method.to_string();
        if t != "or_insert" && t != "or_insert_with" {
            return None;
        }
        let (modify, ent) = match strip(&m.receiver) {
            Expr::MethodCall(x) if x.method == "and_modify" => (Some(x.args[0].clone()), strip(&x.receiver).clone()),
            x => (None, x.clone()),
        };
        let ent = match ent {
            Expr::MethodCall(x) if x.method == "entry" => x,
            _ => return None,
        };
        self.bump("entry");
        let map = {
            let mut r = (*ent.receiver).clone();
            self.visit_expr_mut(&mut r);
            r
        };
        let mut key = ent.args[0].clone();
        self.visit_expr_mut(&mut key);
        let mut val = if t == "or_insert_with" { closure(&m.args[0])?.1 } else { m.args[0].clone() };
        self.visit_expr_mut(&mut val);
        let (kk, cur) = (self.id("__k"), self.id("__cur"));
        let md = match modify {
            Some(c) => {
                let (params, mut body) = closure(&c)?;
                self.visit_expr_mut(&mut body);
                let p = match &params[0] {
                    Pat::Ident(i) => i.ident.clone(),
                    _ => return None,
                };
                quote!({ let #p = &mut #cur; #body; })
            }
            None => quote!(),
        };
        let val2 = if t == "or_insert" {
            let v = self.id("__v");
            Some((quote!(let #v = #val;), quote!(#v)))
        } else {
            None
        };
        let (pre, val) = val2.unwrap_or((quote!(), quote!(#val)));
        // Entry evaluates the key, then (for or_insert) the default before looking at the map
        let ts = quote!({ let #kk = #key; #pre match #map.remove(&#kk) { Some(__old) => { let mut #cur = __old; #md #map.insert(#kk, #cur); } None => { #map.insert(#kk, #val); } } });
        parse2(ts).ok()
    }
}

fn unit_panic(e: Expr) -> Expr {
    if norm(&e.to_token_stream().to_string()) == "__abort_value" {
        return parse_quote!(__abort_unit);
    }
    if let Expr::Call(c) = &e {
        let f = norm(&c.func.to_token_stream().to_string());
        if f == "vpanic" {
            return parse_quote!(vpanic_unit());
        }
    }
    e
}

fn int_suffix_hint(_a: &Expr, _b: &TokenStream) -> Option<String> {
    None
}

fn subst_idx(it: &Item, idx: &TokenStream) -> Item {
    fn s(t: &TokenStream, idx: &TokenStream) -> TokenStream {
        use proc_macro2::TokenTree::*;
        t.clone()
            .into_iter()
            .map(|x| match x {
                Ident(i) if i == "__IDX" => idx.clone(),
                Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), s(&g.stream(), idx));
                    n.set_span(g.span());
                    TokenStream::from(Group(n))
                }
                o => TokenStream::from(o),
            })
            .collect()
    }
    match it {
        Item::Val(t) => Item::Val(s(t, idx)),
        Item::Ref(t) => Item::Ref(s(t, idx)),
        Item::RefMut(t) => Item::RefMut(s(t, idx)),
        Item::Tuple(v) => Item::Tuple(v.iter().map(|i| subst_idx(i, idx)).collect()),
        Item::RefTo(i) => Item::RefTo(Box::new(subst_idx(i, idx))),
    }
}

fn to_item(e: &Expr) -> Item {
    match strip(e) {
        Expr::Tuple(t) => Item::Tuple(t.elems.iter().map(to_item).collect()),
        x => Item::Val(quote!(#x)),
    }
}

pub fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn closure(e: &Expr) -> Option<(Vec<Pat>, Expr)> {
    match strip(e) {
        Expr::Closure(c) if !has_exit(&c.body) => Some((c.inputs.iter().cloned().collect(), (*c.body).clone())),
        _ => None,
    }
}

pub fn float_lit(s: &str) -> Option<TokenStream> {
    // exact decimal -> numerator / denominator
    let s = s.trim_end_matches("_f64").trim_end_matches("f64").replace('_', "");
    let (mant, exp) = match s.find(|c| c == 'e' || c == 'E') {
        Some(k) => (s[..k].to_string(), s[k + 1..].parse::<i32>().ok()?),
        None => (s.clone(), 0),
    };
    let (ip, fp) = match mant.find('.') {
        Some(k) => (mant[..k].to_string(), mant[k + 1..].to_string()),
        None => (mant, String::new()),
    };
    let fp = fp.trim_end_matches('0').to_string();
    let mut num: i128 = format!("{ip}{fp}").parse().ok()?;
    let mut e = exp - fp.len() as i32;
    let mut den: i128 = 1;
    while e > 0 {
        num = num.checked_mul(10)?;
        e -= 1;
    }
    while e < 0 {
        den = den.checked_mul(10)?;
        e += 1;
    }
    let (n, d) = (proc_macro2::Literal::i128_unsuffixed(num), proc_macro2::Literal::i128_unsuffixed(den));
    Some(quote!(F::lit(#n, #d)))
}

impl<'a> VisitMut for Rw<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        map_type(t, &mut self.counts);
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        for s in std::mem::take(&mut b.stmts) {
            // array patterns in let
            if let Stmt::Local(l) = &s {
                let (pat, ty) = match &l.pat {
                    Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                    p => (p.clone(), None),
                };
                let mut pat = pat;
                let mut e0 = l.init.as_ref().map(|i| (*i.1).clone());
                if let (Pat::Slice(sp), Some(e)) = (&pat, &mut e0) {
                    // an array of tuples taken apart at once: a tuple does the same and can be moved out of
                    if sp.elems.iter().any(|q| matches!(q, Pat::Tuple(_))) && tuplify(e) {
                        let el = sp.elems.clone();
                        pat = parse_quote!((#el));
                        self.bump("pattern");
                        let mut e = e.clone();
                        self.visit_expr_mut(&mut e);
                        out.push(parse_quote!(let #pat = #e;));
                        continue;
                    }
                }
                if let (true, Pat::Slice(sp), Some(e)) = (self.spec.arrmove, &pat, &e0) {
                    // an array taken apart by value
                    let el = sp.elems.clone();
                    let f = format_ident!("arr{}", el.len());
                    self.bump("pattern");
                    let mut e = e.clone();
                    self.visit_expr_mut(&mut e);
                    out.push(parse_quote!(let (#el) = #f(#e);));
                    continue;
                }
                if has_slice(&pat) {
                    let mut e = e0.clone().unwrap();
                    self.visit_expr_mut(&mut e);
                    let tmp = self.id("__p");
                    let ann = ty.map(|mut t| {
                        map_type(&mut t, &mut self.counts);
                        quote!(: #t)
                    });
                    let item = match strip(&e) {
                        Expr::Array(a) if matches!(&pat, Pat::Slice(_)) => {
                            // let [a, b] = [x, y]: evaluate in order
                            let names: Vec<Ident> = a.elems.iter().map(|_| self.id("__p")).collect();
                            let vals: Vec<&Expr> = a.elems.iter().collect();
                            let pre = quote!(#(let #names = #vals;)*);
                            let mut binds = quote!();
                            if let Pat::Slice(sp) = &pat {
                                for (q, n) in sp.elems.iter().zip(names.iter()) {
                                    binds.extend(self.bind(q, &Item2::Val(quote!(#n))));
                                }
                            }
                            self.bump("pattern");
                            out.extend(parse_stmts(quote!(#pre #binds)));
                            continue;
                        }
                        _ => Item2::Val(quote!(#tmp)),
                    };
                    let b = self.bind(&pat, &item);
                    out.extend(parse_stmts(quote!(let #tmp #ann = #e; #b)));
                    continue;
                }
            }
            // statement macros
            let mac = match &s {
                Stmt::Semi(Expr::Macro(m), _) => Some((m.mac.clone(), true)),
                Stmt::Expr(Expr::Macro(m)) => Some((m.mac.clone(), false)),
                Stmt::Item(Item::Macro(m)) => Some((m.mac.clone(), true)),
                _ => None,
            };
            use syn::Item;
            if let Some((m, semi)) = mac {
                let n = m.path.segments.last().unwrap().ident.to_string();
                if n.starts_with("__") {
                    out.push(s);
                    continue;
                }
                if let Some(e) = self.macro_expr(&m) {
                    match (&e, semi) {
                        (Expr::Block(bb), true) => out.extend(bb.block.stmts.clone()),
                        (_, true) => out.push(Stmt::Semi(unit_panic(e), Default::default())),
                        (_, false) => out.push(Stmt::Expr(e)),
                    }
                    continue;
                }
            }
            let mut s = s;
            self.visit_stmt_mut(&mut s);
            match s {
                Stmt::Expr(Expr::Block(bb)) if bb.attrs.iter().any(|a| a.path.is_ident("splice")) => out.extend(bb.block.stmts),
                Stmt::Semi(Expr::Block(bb), _) if bb.attrs.iter().any(|a| a.path.is_ident("splice")) => out.extend(bb.block.stmts),
                s => out.push(s),
            }
        }
        b.stmts = out;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // array patterns inside other patterns: a name, taken apart afterwards
        if let Expr::Match(m) = e {
            for a in m.arms.iter_mut() {
                let pre = self.name_slices(&mut a.pat, false);
                if !pre.is_empty() {
                    if a.guard.is_some() {
                        self.errors.push("array pattern with a guard".into());
                    }
                    let b = &a.body;
                    a.body = Box::new(parse_quote!({ #pre #b }));
                }
            }
        }
        if let Expr::If(f) = e {
            if let Expr::Let(l) = &mut *f.cond {
                let pre = self.name_slices(&mut l.pat, false);
                if !pre.is_empty() {
                    let st = f.then_branch.stmts.clone();
                    f.then_branch = parse_quote!({ #pre #(#st)* });
                }
            }
        }
        let new: Option<Expr> = match e {
            Expr::Macro(m) => {
                let mac = m.mac.clone();
                let n = mac.path.segments.last().unwrap().ident.to_string();
                if n.starts_with("__") {
                    return;
                }
                let r = self.macro_expr(&mac);
                if r.is_none() {
                    self.errors.push(format!("unsupported macro {n}!"));
                }
                r
            }
            Expr::MethodCall(m) => {
                let m = m.clone();
                if let Some(x) = self.entry(&m) {
                    Some(x)
                } else if let Some(x) = self.terminal(&m) {
                    Some(x)
                } else {
                    match m.method.to_string().as_str() {
                        // an unwrap that the contract allows to abort
                        "unwrap" | "expect" if self.spec.unwraps => {
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            self.bump("unwrap");
                            let u = self.id("__u");
                            Some(parse_quote!({ let #u = #r; __abort_let; VUnwrap::vunwrap(#u, Ghost(__abort_c)) }))
                        }
                        "expect" => {
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            Some(parse_quote!(#r.unwrap()))
                        }
                        "try_into" if m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(c) if c.method == "collect") => {
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            self.bump("try_into");
                            Some(parse_quote!(arr_from(#r)))
                        }
                        // every item of X sent through the channel, in whatever order the threads get to it
                        "for_each_with" if m.args.len() == 2 => {
                            let ok = match (strip(&m.receiver), closure(&m.args[1])) {
                                (Expr::MethodCall(x), Some((ps, body))) if x.method == "into_par_iter" && x.args.is_empty() && ps.len() == 2 => {
                                    let (a, b) = (ps[0].to_token_stream().to_string(), ps[1].to_token_stream().to_string());
                                    let mut body = body;
                                    while let Expr::Block(bl) = &body {
                                        body = match bl.block.stmts.as_slice() {
                                            [Stmt::Expr(e)] | [Stmt::Semi(e, _)] => e.clone(),
                                            _ => break,
                                        };
                                    }
                                    match &body {
                                        Expr::MethodCall(u) if u.method == "expect" || u.method == "unwrap" => norm(&u.receiver.to_token_stream().to_string()) == norm(&format!("{a}.send({b})")),
                                        _ => false,
                                    }
                                }
                                _ => false,
                            };
                            if ok {
                                let mut x = match strip(&m.receiver) { Expr::MethodCall(x) => (*x.receiver).clone(), _ => unreachable!() };
                                self.visit_expr_mut(&mut x);
                                let s = m.args[0].clone();
                                self.bump("channel");
                                Some(parse_quote!(deliver(#x, #s)))
                            } else {
                                self.errors.push("for_each_with other than sending every item".into());
                                None
                            }
                        }
                        "par_extend" if m.args.len() == 1 => {
                            let a = m.args[0].clone();
                            if self.chain(&a).is_some() {
                                let mut r = (*m.receiver).clone();
                                self.visit_expr_mut(&mut r);
                                let mut a2: Expr = parse_quote!((#a).collect());
                                self.visit_expr_mut(&mut a2);
                                let v = self.id("__v");
                                Some(parse_quote!({ let #v = #a2; #r.par_extend(#v) }))
                            } else {
                                None
                            }
                        }
                        "extend" if m.args.len() == 1 => {
                            // vec.extend(chain)
                            let a = m.args[0].clone();
                            if let Some(c) = self.chain(&a) {
                                let mut r = (*m.receiver).clone();
                                self.visit_expr_mut(&mut r);
                                let l = self.emit(c, quote!(), &mut |_me, it| {
                                    let t = it.tokens();
                                    quote!(#r.push(#t);)
                                });
                                parse2(quote!({ #l })).ok()
                            } else {
                                None
                            }
                        }
                        "map" if m.args.len() == 1 && matches!(strip(&m.receiver), Expr::MethodCall(q) if ["last", "first", "get"].contains(&q.method.to_string().as_str())) && closure(&m.args[0]).is_some() => {
                            // Option<&T>::map(closure) spelled out
                            let (params, body) = closure(&m.args[0]).unwrap();
                            if has_exit(&body) {
                                self.errors.push("return or ? in a closure".into());
                            }
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            let x = self.id("__x");
                            let b = self.bind(&params[0], &Item2::Ref(quote!(*#x)));
                            let mut body = body.clone();
                            self.visit_expr_mut(&mut body);
                            self.bump("optmap");
                            parse2(quote!(match #r { Some(#x) => Some({ #b #body }), None => None })).ok()
                        }
                        // an optional value mapped, or its absence filled in, by a closure: spelled out
                        "map" if m.args.len() == 1 && matches!(strip(&m.receiver), Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.spec.optmaps.contains(&i.to_string()))) && closure(&m.args[0]).is_some() => {
                            let (params, body) = closure(&m.args[0]).unwrap();
                            if has_exit(&body) {
                                self.errors.push("return or ? in a closure".into());
                            }
                            let r = (*m.receiver).clone();
                            let x = self.id("__x");
                            let b = self.bind(&params[0], &Item2::Val(quote!(#x)));
                            let mut body = body.clone();
                            self.visit_expr_mut(&mut body);
                            self.bump("optmap");
                            parse2(quote!(match #r { Some(#x) => Some({ #b #body }), None => None })).ok()
                        }
                        "unwrap_or_else" if m.args.len() == 1 && closure(&m.args[0]).map_or(false, |c| c.0.is_empty()) => {
                            let (_, mut body) = closure(&m.args[0]).unwrap();
                            if has_exit(&body) {
                                self.errors.push("return or ? in a closure".into());
                            }
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            self.visit_expr_mut(&mut body);
                            let x = self.id("__x");
                            self.bump("optmap");
                            parse2(quote!(match #r { Some(#x) => #x, None => { #body } })).ok()
                        }
                        "map" if self.spec.array_map && m.args.len() == 1 && self.chain(&Expr::MethodCall(m.clone())).is_none() => {
                            // [a,b,c,d].map(|x| ..) on a 4-array place
                            let (params, body) = closure(&m.args[0]).unwrap();
                            let mut r = (*m.receiver).clone();
                            self.visit_expr_mut(&mut r);
                            let mut elems = vec![];
                            for kk in 0..4usize {
                                let ix = Index::from(kk);
                                let b = self.bind(&params[0], &Item2::Val(quote!((#r)[#ix])));
                                let mut body = body.clone();
                                self.visit_expr_mut(&mut body);
                                elems.push(quote!({ #b #body }));
                            }
                            parse2(quote!([#(#elems),*])).ok()
                        }
                        _ => None,
                    }
                }
            }
            Expr::ForLoop(f) => {
                let f = f.clone();
                match self.for_source(&f.expr) {
                    Some(c) => {
                        let pat = f.pat.clone();
                        let body = f.body.clone();
                        if has_continue(&body) && matches!(c.src, Source::ArrayLit(_)) {
                            self.errors.push("continue/break in an unrolled loop".into());
                        }
                        let l = self.emit(c, quote!(), &mut |me, it| {
                            let b = me.bind(&pat, &it);
                            let mut body = body.clone();
                            me.visit_block_mut(&mut body);
                            close(&mut body);
                            let st = &body.stmts;
                            quote!(#b #(#st)*)
                        });
                        match parse2::<Expr>(quote!({ #l })) {
                            Ok(x) => Some(x),
                            Err(er) => {
                                self.errors.push(format!("internal: {er}: {l}"));
                                None
                            }
                        }
                    }
                    None => {
                        self.errors.push(format!("unsupported for source {}", f.expr.to_token_stream()));
                        None
                    }
                }
            }
            Expr::While(w) => {
                let n = self.loops;
                self.loops += 1;
                let mut w = w.clone();
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                close(&mut w.body);
                let inv = parse_stmts(format!("__inv!({n});").parse().unwrap());
                let lend = parse_stmts(format!("__lend!({n});").parse().unwrap());
                let mut st = inv;
                st.extend(w.body.stmts.clone());
                st.extend(lend);
                w.body.stmts = st;
                Some(Expr::While(w))
            }
            Expr::Try(t) => {
                // `?` is spelled out, with the error conversion as a call of the extracted From implementation
                let mut x = (*t.expr).clone();
                self.visit_expr_mut(&mut x);
                self.bump("try");
                let (v, er) = (self.id("__ok"), self.id("__er"));
                if self.ret_option {
                    Some(parse_quote!(match #x { Some(#v) => #v, None => return None }))
                } else {
                    Some(parse_quote!(match #x { Ok(#v) => #v, Err(#er) => return Err(VFrom::vfrom(#er)) }))
                }
            }
            Expr::Loop(w) => {
                let n = self.loops;
                self.loops += 1;
                let mut w = w.clone();
                self.visit_block_mut(&mut w.body);
                close(&mut w.body);
                let mut st = parse_stmts(format!("__inv!({n});").parse().unwrap());
                st.extend(w.body.stmts.clone());
                st.extend(parse_stmts(format!("__lend!({n});").parse().unwrap()));
                w.body.stmts = st;
                Some(Expr::Loop(w))
            }
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                self.bump("float");
                match float_lit(&f.to_string()) {
                    Some(t) => parse2(t).ok(),
                    None => {
                        self.errors.push(format!("float literal {f}"));
                        None
                    }
                }
            }
            Expr::Cast(c) if matches!(&*c.ty, Type::Path(p) if p.path.is_ident("f64")) => {
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                self.bump("float");
                Some(parse_quote!(F::of_u64((#x) as u64)))
            }
            Expr::AssignOp(a) if self.spec.opassign && matches!(a.op, BinOp::AddEq(_)) => {
                let (mut l, mut r) = ((*a.left).clone(), (*a.right).clone());
                self.visit_expr_mut(&mut l);
                self.visit_expr_mut(&mut r);
                self.bump("opassign");
                Some(parse_quote!((#l).add_assign(#r)))
            }
            Expr::Index(ix) if self.is_vidx(&ix.expr) || matches!(&*ix.index, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) => {
                let (mut x, mut i) = ((*ix.expr).clone(), (*ix.index).clone());
                self.visit_expr_mut(&mut x);
                self.visit_expr_mut(&mut i);
                self.bump("index_op");
                Some(parse_quote!((*(#x).index(#i))))
            }
            // a slice of a byte string literal: the array of its bytes
            Expr::Reference(r) => match &*r.expr {
                Expr::Index(ix) => match (&*ix.expr, &*ix.index) {
                    (Expr::Lit(ExprLit { lit: Lit::ByteStr(b), .. }), Expr::Range(rg)) if rg.from.is_none() && rg.to.is_none() => {
                        let v = b.value();
                        Some(parse_quote!(&[#(#v),*]))
                    }
                    _ => None,
                },
                _ => None,
            },
            Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if self.spec.ghostargs.iter().any(|g| norm(&p.to_token_stream().to_string()) == g.0)) => {
                // an erased argument
                let mut c = c.clone();
                let f = norm(&c.func.to_token_stream().to_string());
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                self.bump("ghostarg");
                for g in self.spec.ghostargs.iter().filter(|g| g.0 == f) {
                    c.args.push(parse_str(&g.1).unwrap());
                }
                self.visit_expr_mut(&mut c.func);
                *e = Expr::Call(c);
                return;
            }
            Expr::Call(c) => {
                // iterator-returning functions: Box::new(chain) becomes the collected Vec
                if let Expr::Path(p) = &*c.func {
                    let name = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
                    if name == "DMatrix::from_iterator" && c.args.len() == 3 {
                        let a = c.args[2].clone();
                        if self.chain(&a).is_some() {
                            let (r, k) = (c.args[0].clone(), c.args[1].clone());
                            let mut e2: Expr = parse_quote!(DMatrix::from_vec_columns(#r, #k, (#a).collect()));
                            if let Expr::Call(c2) = &mut e2 {
                                for x in c2.args.iter_mut() {
                                    self.visit_expr_mut(x);
                                }
                            }
                            *e = e2;
                            return;
                        }
                    }
                    if (name == "std::cmp::max_by" || name == "std::cmp::min_by") && c.args.len() == 3 {
                        // max_by(a, b, cmp): b unless a compares greater; min_by: a unless it does
                        if let Some((params, body)) = closure(&c.args[2]) {
                            let (mut a, mut b, mut body) = (c.args[0].clone(), c.args[1].clone(), body);
                            self.visit_expr_mut(&mut a);
                            self.visit_expr_mut(&mut b);
                            self.visit_expr_mut(&mut body);
                            let (x, y) = (self.id("__x"), self.id("__y"));
                            let bx = self.bind(&params[0], &Item2::Ref(quote!(#x)));
                            let by = self.bind(&params[1], &Item2::Ref(quote!(#y)));
                            self.bump("max_by");
                            let (g, l) = if name.ends_with("max_by") { (quote!(#x), quote!(#y)) } else { (quote!(#y), quote!(#x)) };
                            match parse2::<Expr>(quote!({ let #x = #a; let #y = #b; match ({ #bx #by #body }) { Ordering::Greater => #g, _ => #l } })) {
                                Ok(n) => *e = n,
                                Err(er) => self.errors.push(format!("internal: {er}")),
                            }
                            return;
                        }
                    }
                    // closures handed to a function: named, with the contract of the template
                    if !self.spec.closures.is_empty() && c.args.iter().any(|a| matches!(strip(a), Expr::Closure(_))) {
                        let mut c = c.clone();
                        let mut pre = quote!();
                        for a in c.args.iter_mut() {
                            if !matches!(strip(a), Expr::Closure(_)) {
                                self.visit_expr_mut(a);
                                continue;
                            }
                            let n = self.closures;
                            let nl = proc_macro2::Literal::usize_unsuffixed(n);
                            self.closures += 1;
                            let cs = match self.spec.closure(n) {
                                Some(s) => s.clone(),
                                None => {
                                    self.errors.push(format!("closure {n} has no contract"));
                                    return;
                                }
                            };
                            let (params, mut body) = match closure(a) {
                                Some(x) if x.0.len() == cs.params.len() => x,
                                _ => {
                                    self.errors.push(format!("closure {n} does not fit its contract"));
                                    return;
                                }
                            };
                            self.visit_expr_mut(&mut body);
                            let mut args = vec![];
                            let mut binds = quote!();
                            for (p, (nm, ty)) in params.iter().zip(&cs.params) {
                                let i = format_ident!("{}", nm);
                                let t: Type = parse_str(ty).unwrap();
                                args.push(quote!(#i: #t));
                                if norm(&p.to_token_stream().to_string()) != *nm {
                                    let b = self.bind(p, &Item2::Val(quote!(#i)));
                                    binds.extend(b);
                                }
                            }
                            self.bump("closure");
                            let v = format_ident!("__c{}", n);
                            pre.extend(quote!(let #v = |#(#args),*| -> __ClRet { __clb!(#nl); #binds #body }; __cla!(#nl);));
                            *a = parse_quote!(#v);
                        }
                        match parse2::<Expr>(quote!({ #pre #c })) {
                            Ok(x) => *e = x,
                            Err(er) => self.errors.push(format!("internal: {er}")),
                        }
                        return;
                    }
                    if name == "Box::new" && c.args.len() == 1 {
                        let a = c.args[0].clone();
                        if self.chain(&a).is_some() {
                            let mut e2: Expr = parse_quote!((#a).collect());
                            self.visit_expr_mut(&mut e2);
                            *e = e2;
                            return;
                        }
                    }
                }
                None
            }
            _ => None,
        };
        match new {
            Some(x) => *e = x,
            None => visit_mut::visit_expr_mut(self, e),
        }
        // path renames
        if let Expr::Path(p) = e {
            let name = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            let r: Option<&str> = match name.as_str() {
                "SmallVec::new" => Some("Vec::new"),
                "SmallVec::from" => Some("vec_from"),
                "BTreeMap::new" => Some("BMap::new"),
                "Vec::with_capacity" => Some("Vec::with_capacity"),
                "std::mem::take" => Some("bmap_take"),
                "std::u32::MAX" => Some("u32::MAX"),
                "std::usize::MAX" => Some("usize::MAX"),
                "std::f64::EPSILON" => Some("F_EPSILON"),
                "f64::EPSILON" => Some("F_EPSILON"),
                _ => None,
            };
            if name == "FRAC_PI_4" || name == "std::f64::consts::FRAC_PI_4" {
                *e = parse_quote!(F::frac_pi_4());
                return;
            }
            if self.spec.fconsts.contains(&name) {
                *e = parse_quote!(#p());
                return;
            }
            if let Some(r) = r {
                let q: Path = parse_str(r).unwrap();
                p.path = q;
            }
        }
    }
}

use self::Item as Item2;

pub fn has_slice(p: &Pat) -> bool {
    match p {
        Pat::Slice(_) => true,
        Pat::Tuple(t) => t.elems.iter().any(has_slice),
        Pat::Reference(r) => has_slice(&r.pat),
        Pat::Type(t) => has_slice(&t.pat),
        _ => false,
    }
}

/// `return` or `?` in a closure body would leave the wrong function once inlined.
fn has_exit(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// array literals in the result positions of a match, if or block become tuples
fn tuplify(e: &mut Expr) -> bool {
    match e {
        Expr::Paren(p) => tuplify(&mut p.expr),
        Expr::Array(a) => {
            let el = a.elems.clone();
            *e = parse_quote!((#el));
            true
        }
        Expr::Match(m) => m.arms.iter_mut().all(|a| tuplify(&mut a.body)),
        Expr::Block(b) => match b.block.stmts.last_mut() {
            Some(Stmt::Expr(x)) => tuplify(x),
            _ => false,
        },
        Expr::If(i) => {
            (match i.then_branch.stmts.last_mut() {
                Some(Stmt::Expr(x)) => tuplify(x),
                _ => false,
            }) && i.else_branch.as_mut().map_or(false, |x| tuplify(&mut x.1))
        }
        _ => false,
    }
}

/// a loop body's last expression (of type unit) as a statement
fn close(b: &mut Block) {
    if let Some(Stmt::Expr(_)) = b.stmts.last() {
        if let Some(Stmt::Expr(e)) = b.stmts.pop() {
            b.stmts.push(Stmt::Semi(e, Default::default()));
        }
    }
}

fn has_continue(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) {
            self.0 = true
        }
        fn visit_expr_break(&mut self, _: &'a ExprBreak) {
            self.0 = true
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

pub fn parse_stmts(ts: TokenStream) -> Vec<Stmt> {
    let b: Block = parse2(quote!({ #ts })).unwrap_or_else(|e| panic!("{e}: {ts}"));
    b.stmts
}

/// Bindings for an array pattern in a parameter.
pub fn bind_param(rw: &mut Rw, p: &Pat, name: &Ident) -> TokenStream {
    rw.bind(p, &Item::Val(quote!(#name)))
}

#[allow(dead_code)]
fn unused(_: Span) {}
