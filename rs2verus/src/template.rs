//! Template expansion: locates the functions named by the directives, rewrites them and joins them with their contracts.
use crate::print;
use crate::rewrite::{self, has_slice, map_type, norm, Rw};
use proc_macro2::{Ident, TokenStream};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::Path;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone, Debug)]
pub struct LoopSpec {
    pub mode: String,
    pub inv: String,
    pub start: String,
    pub end: String,
    pub after: String,
    pub before: String,
    pub acc: String,
}
#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub name: Option<String>,
    pub abort: Option<String>,
    pub opassign: bool,
    pub unwraps: bool,
    pub array_map: bool,
    pub keep_arrays: bool,
    pub text: bool,
    pub flatvec: bool,
    pub arrmove: bool,
    pub isolate: bool,
    pub hoist: bool,
    pub nopub: bool,
    pub attrs: Vec<String>,
    pub params: Option<Vec<String>>,
    pub ret: Option<String>,
    pub maps: BTreeSet<String>,
    pub iterfns: BTreeSet<String>,
    pub vidx: BTreeSet<String>,
    pub fconsts: BTreeSet<String>,
    pub renames: Vec<(String, String)>,
    pub spec: String,
    pub loops: HashMap<usize, LoopSpec>,
    pub start: String,
    pub ghosts: Vec<(bool, String, String)>, // (before, anchor, text)
    /// contracts of closures passed to functions, by position (`*`: all others): parameters, return, contract, text after its binding
    pub closures: HashMap<String, ClosureSpec>,
    pub ptypes: Vec<(String, String)>,
    /// names of channel receivers; erased arguments added to calls; erased parameters
    pub recv: BTreeSet<String>,
    pub optmaps: BTreeSet<String>,
    pub ghostargs: Vec<(String, String)>,
    pub ghostparams: Vec<String>,
}
#[derive(Default, Clone, Debug)]
pub struct ClosureSpec {
    pub params: Vec<(String, String)>,
    pub ret: String,
    pub spec: String,
    pub begin: String,
    pub after: String,
}
impl FnSpec {
    pub fn closure(&self, n: usize) -> Option<&ClosureSpec> {
        self.closures.get(&n.to_string()).or_else(|| self.closures.get("*"))
    }
}
/// replaces the names of constants by their values
struct Inline<'a>(&'a HashMap<String, Expr>);
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(x) = self.0.get(&i.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn read(root: &str, file: &str) -> std::result::Result<(File, String), String> {
    let p = format!("{root}/{file}");
    let text = std::fs::read_to_string(&p).map_err(|e| format!("{file}: {e}"))?;
    let f = parse_file(&text).map_err(|e| format!("{file}: {e}"))?;
    Ok((f, text))
}

fn ty_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", ty_name(&r.elem)),
        Type::Array(a) => format!("[{};{}]", ty_name(&a.elem), a.len.to_token_stream()),
        _ => t.to_token_stream().to_string(),
    }
}

/// `Self::Output` in a signature is the impl's associated type
struct AssocOut<'a>(&'a [ImplItem]);
impl<'a> VisitMut for AssocOut<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            if p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" {
                for i in self.0 {
                    if let ImplItem::Type(a) = i {
                        if a.ident == p.path.segments[1].ident {
                            *t = a.ty.clone();
                            return;
                        }
                    }
                }
            }
        }
    }
}

fn find_fn(items: &[Item], path: &str) -> Vec<(Signature, Block)> {
    let mut out = vec![];
    let (tr, rest) = match path.split_once(" for ") {
        Some((a, b)) => (Some(a.trim()), b.trim()),
        None => (None, path),
    };
    let segs: Vec<&str> = rest.split("::").collect();
    for it in items {
        match it {
            Item::Mod(m) => {
                if let Some((_, items)) = &m.content {
                    if segs.len() > 1 && m.ident == segs[0] {
                        let sub = match tr {
                            Some(t) => format!("{t} for {}", segs[1..].join("::")),
                            None => segs[1..].join("::"),
                        };
                        out.extend(find_fn(items, &sub));
                    }
                }
            }
            Item::Fn(f) if segs.len() == 1 && tr.is_none() && f.sig.ident == segs[0] => out.push((f.sig.clone(), (*f.block).clone())),
            Item::Impl(im) if segs.len() == 2 && ty_name(&im.self_ty) == segs[0] => {
                let t = im.trait_.as_ref().map(|t| norm(&t.1.to_token_stream().to_string()));
                let ok = match (tr, t) {
                    (None, None) => true,
                    (Some(a), Some(b)) => norm(a) == b || b.rsplit("::").next() == Some(&norm(a)),
                    _ => false,
                };
                if ok {
                    for i in &im.items {
                        if let ImplItem::Method(m) = i {
                            if m.sig.ident == segs[1] {
                                let mut sig = m.sig.clone();
                                AssocOut(&im.items).visit_signature_mut(&mut sig);
                                out.push((sig, m.block.clone()));
                            }
                        }
                    }
                }
            }
            Item::Trait(t) if segs.len() == 2 && tr.is_none() && t.ident == segs[0] => {
                for i in &t.items {
                    if let TraitItem::Method(m) = i {
                        if m.sig.ident == segs[1] {
                            if let Some(b) = &m.default {
                                out.push((m.sig.clone(), b.clone()));
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    out
}

/// a type parameter called F would clash with the shim's F
fn rename_generic(sig: &mut Signature, block: &mut Block) {
    struct R;
    impl VisitMut for R {
        fn visit_ident_mut(&mut self, i: &mut Ident) {
            if i == "F" {
                *i = format_ident!("FnT");
            }
        }
    }
    if sig.generics.type_params().any(|t| t.ident == "F") {
        R.visit_signature_mut(sig);
        R.visit_block_mut(block);
    }
}

struct RenameSelf;
impl VisitMut for RenameSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = format_ident!("__self");
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        fn go(t: TokenStream) -> TokenStream {
            t.into_iter()
                .map(|x| match x {
                    proc_macro2::TokenTree::Ident(i) if i == "self" => quote!(__self),
                    proc_macro2::TokenTree::Group(g) => {
                        let n = proc_macro2::Group::new(g.delimiter(), go(g.stream()));
                        TokenStream::from(proc_macro2::TokenTree::Group(n))
                    }
                    o => TokenStream::from(o),
                })
                .collect()
        }
        m.tokens = go(m.tokens.clone());
    }
}

/// Inserts `__ghost!(k);` around the innermost statement containing the anchor text.
fn insert_ghost(b: &mut Block, before: bool, anchor: &str, k: usize) -> usize {
    struct V<'a> {
        before: bool,
        a: &'a str,
        k: usize,
        n: usize,
    }
    impl<'a> VisitMut for V<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut out = vec![];
            for mut s in std::mem::take(&mut b.stmts) {
                let has = norm(&s.to_token_stream().to_string()).contains(self.a);
                let n0 = self.n;
                if has {
                    visit_mut::visit_stmt_mut(self, &mut s);
                }
                if has && self.n == n0 {
                    self.n += 1;
                    let k = self.k;
                    let g: Stmt = rewrite::parse_stmts(format!("__ghost!({k});").parse().unwrap()).remove(0);
                    if self.before {
                        out.push(g);
                        out.push(s);
                    } else {
                        out.push(s);
                        out.push(g);
                    }
                } else {
                    out.push(s);
                }
            }
            b.stmts = out;
        }
    }
    let a = norm(anchor);
    let mut v = V { before, a: &a, k, n: 0 };
    v.visit_block_mut(b);
    v.n
}

/// `match (a, b) {..}` as a statement: the parts are named first, in their order of evaluation
fn hoist_tuples(b: &mut Block) {
    struct V(usize);
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            let mut out = vec![];
            for mut s in std::mem::take(&mut b.stmts) {
                visit_mut::visit_stmt_mut(self, &mut s);
                if let Stmt::Expr(Expr::Match(m)) | Stmt::Semi(Expr::Match(m), _) = &mut s {
                    if let Expr::Tuple(t) = &mut *m.expr {
                        for e in t.elems.iter_mut() {
                            let v = quote::format_ident!("__h{}", self.0);
                            self.0 += 1;
                            out.extend(rewrite::parse_stmts(quote!(let #v = #e;)));
                            *e = parse_quote!(#v);
                        }
                    }
                }
                out.push(s);
            }
            b.stmts = out;
        }
    }
    V(0).visit_block_mut(b);
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Ctx<'a> {
    root: &'a str,
    vac: bool,
    meta: Vec<String>,
    fconsts: BTreeSet<String>,
    gmaps: BTreeSet<String>,
    gvidx: BTreeSet<String>,
    giter: BTreeSet<String>,
    /// unit whose contracts are taken as given (its bodies are verified there)
    unit: Option<String>,
    /// functions whose bodies are left out (undecided)
    skip: BTreeSet<String>,
    inline: HashMap<String, Expr>,
    /// constants the templates name themselves
    consts: BTreeSet<String>,
    /// those an extracted body mentions besides
    auto: String,
}

/// the constants of the source which a body mentions and no template takes
fn auto_consts(cx: &mut Ctx, file: &str, block: &Block) {
    fn walk(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                proc_macro2::TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if s.len() > 2 && s.chars().all(|c| c.is_ascii_uppercase() || c.is_ascii_digit() || c == '_') {
                        out.insert(s);
                    }
                }
                _ => {}
            }
        }
    }
    fn files(d: &Path, out: &mut Vec<std::path::PathBuf>) {
        let mut v: Vec<_> = std::fs::read_dir(d).into_iter().flatten().flatten().map(|e| e.path()).collect();
        v.sort();
        for p in v {
            if p.is_dir() {
                files(&p, out);
            } else if p.extension().map_or(false, |e| e == "rs") {
                out.push(p);
            }
        }
    }
    let mut names = BTreeSet::new();
    walk(block.to_token_stream(), &mut names);
    for n in names {
        if cx.consts.contains(&n) {
            continue;
        }
        let mut at = vec![file.to_string()];
        let mut all = vec![];
        files(Path::new(cx.root), &mut all);
        at.extend(all.iter().filter_map(|p| p.strip_prefix(cx.root).ok()).map(|p| p.to_string_lossy().into_owned()));
        for f in at {
            let hit = read(cx.root, &f).map_or(false, |(x, _)| matches!(find_item(&x.items, "const", &n), Some(Item::Const(_))));
            if hit {
                if let Ok(t) = emit_item(cx, "const", &f, &n, &[]) {
                    cx.consts.insert(n.clone());
                    cx.auto.push_str(&t);
                    cx.auto.push('\n');
                }
                break;
            }
        }
    }
}

/// names of the constants that the template, or one it includes, takes
fn named_consts(text: &str, dir: &Path, out: &mut BTreeSet<String>, seen: &mut BTreeSet<String>) {
    for l in text.lines() {
        let w: Vec<&str> = match l.trim().strip_prefix("//@@") {
            Some(d) => d.split_whitespace().collect(),
            None => continue,
        };
        match (w.first(), w.get(1), w.get(2)) {
            (Some(&"include"), Some(f), _) | (Some(&"import"), Some(f), _) => {
                if seen.insert(f.to_string()) {
                    if let Ok(t) = std::fs::read_to_string(dir.join(f)) {
                        named_consts(&t, dir, out, seen);
                    }
                }
            }
            (Some(&"const"), _, Some(n)) | (Some(&"inline"), _, Some(n)) => {
                out.insert(n.to_string());
            }
            _ => {}
        }
    }
}

fn emit_fn(cx: &mut Ctx, sp: &mut FnSpec) -> std::result::Result<String, String> {
    if let Some(u) = cx.unit.clone() {
        return emit_body(cx, sp, Some(format!("\"proved_in\":{}", json_str(&u))));
    }
    if cx.skip.contains(&sp.path) {
        return emit_body(cx, sp, Some("\"not_decided\":\"the verifier does not accept its text\"".into()));
    }
    let mut sp2 = sp.clone();
    match emit_body(cx, &mut sp2, None) {
        Ok(s) => Ok(s),
        Err(e) => emit_body(cx, sp, Some(format!("\"not_decided\":{}", json_str(&e)))).map_err(|e2| format!("{e}; {e2}")),
    }
}

/// `given`: why the body is left out
fn emit_body(cx: &mut Ctx, sp: &mut FnSpec, given: Option<String>) -> std::result::Result<String, String> {
    let (file, _text) = read(cx.root, &sp.file)?;
    let found = find_fn(&file.items, &sp.path);
    if found.len() != 1 {
        return Err(format!("{}: {} functions named {}", sp.file, found.len(), sp.path));
    }
    if given.is_none() {
        if let Some((_, b)) = found.first() {
            let b = b.clone();
            auto_consts(cx, &sp.file, &b);
        }
    }
    sp.fconsts.extend(cx.fconsts.iter().cloned());
    sp.maps.extend(cx.gmaps.iter().cloned());
    sp.vidx.extend(cx.gvidx.iter().cloned());
    sp.iterfns.extend(cx.giter.iter().cloned());
    let (mut sig, mut block) = found.into_iter().next().unwrap();
    let line = sig.ident.span().start().line;
    let what = format!("{} {}", sp.file, sp.path);
    rename_generic(&mut sig, &mut block);
    if given.is_some() {
        block = parse_quote!({});
        sp.ghosts.clear();
    }
    if sp.hoist {
        hoist_tuples(&mut block);
    }
    for (k, (before, anchor, _)) in sp.ghosts.iter().enumerate() {
        if anchor == "<final>" || anchor == "<tail>" {
            continue;
        }
        let n = insert_ghost(&mut block, *before, anchor, k);
        if n != 1 {
            return Err(format!("{what}: the statement `{anchor}` occurs {n} times"));
        }
    }
    for k in 0..sp.ghosts.len() {
        if sp.ghosts[k].1 == "<final>" {
            let g: Stmt = rewrite::parse_stmts(format!("__ghost!({k});").parse().unwrap()).remove(0);
            let n = block.stmts.len();
            match block.stmts.last() {
                Some(Stmt::Expr(_)) => block.stmts.insert(n - 1, g),
                _ => block.stmts.push(g),
            }
        }
    }
    // `tail`: proof text after the value of the body has been computed
    for k in 0..sp.ghosts.len() {
        if sp.ghosts[k].1 == "<tail>" {
            let g = format!("__ghost!({k});");
            match block.stmts.pop() {
                Some(Stmt::Expr(e)) => {
                    let g: TokenStream = g.parse().unwrap();
                    block.stmts.extend(rewrite::parse_stmts(quote!(let __r = #e; #g __r)));
                }
                Some(s) => {
                    block.stmts.push(s);
                    block.stmts.extend(rewrite::parse_stmts(g.parse().unwrap()));
                }
                None => block.stmts.extend(rewrite::parse_stmts(g.parse().unwrap())),
            }
        }
    }
    if !cx.inline.is_empty() {
        Inline(&cx.inline).visit_block_mut(&mut block);
    }
    for (a, b) in &sp.ptypes {
        let mut hit = 0;
        for x in sig.inputs.iter_mut() {
            if let FnArg::Typed(t) = x {
                if norm(&t.ty.to_token_stream().to_string()) == *a {
                    t.ty = parse_str(b).map_err(|e| format!("{e}"))?;
                    hit += 1;
                }
            }
        }
        if hit != 1 {
            return Err(format!("{what}: {hit} parameters of type {a}"));
        }
        // the type parameter it stood for
        let gp: Vec<GenericParam> = sig.generics.params.iter().filter(|g| !matches!(g, GenericParam::Type(t) if t.ident == a.as_str())).cloned().collect();
        if gp.len() != sig.generics.params.len() {
            sig.generics = Generics { params: gp.into_iter().collect(), where_clause: None, lt_token: None, gt_token: None };
        }
    }
    let spec = sp.clone();
    let mut rw = Rw { spec: &spec, loops: 0, closures: 0, fresh: 0, counts: BTreeMap::new(), errors: vec![], hold: false, ret_option: matches!(&sig.output, ReturnType::Type(_, t) if ty_name(t) == "Option") };
    rewrite::map_generics(&mut sig.generics, &mut rw.counts);
    // parameters
    let mut pre = quote!();
    let mut params: Vec<TokenStream> = vec![];
    let mut idx = 0;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                if r.reference.is_none() && r.mutability.is_some() {
                    *rw.counts.entry("mutself").or_default() += 1;
                    RenameSelf.visit_block_mut(&mut block);
                    pre.extend(quote!(let mut __self = self;));
                    params.push(quote!(self));
                } else {
                    let l = r.reference.as_ref().and_then(|x| x.1.clone());
                    params.push(match (r.reference.is_some(), r.mutability.is_some()) {
                        (true, true) => quote!(& #l mut self),
                        (true, false) => quote!(& #l self),
                        _ => quote!(self),
                    });
                }
            }
            FnArg::Typed(t) => {
                map_type(&mut t.ty, &mut rw.counts);
                let canon = match &sp.params {
                    Some(p) => Some(format_ident!("{}", p.get(idx).ok_or(format!("{what}: the signature has more parameters than its contract"))?)),
                    None => None,
                };
                idx += 1;
                let ty = &t.ty;
                match &*t.pat {
                    Pat::Ident(i) => {
                        let n = canon.clone().unwrap_or(i.ident.clone());
                        params.push(quote!(#n: #ty));
                        if i.mutability.is_some() {
                            let o = &i.ident;
                            pre.extend(quote!(let mut #o = #n;));
                        } else if n != i.ident {
                            let o = &i.ident;
                            pre.extend(quote!(let #o = #n;));
                        }
                    }
                    p if has_slice(p) || matches!(p, Pat::Tuple(_) | Pat::Wild(_) | Pat::Reference(_)) => {
                        let n = canon.clone().unwrap_or(format_ident!("__arg{}", idx - 1));
                        params.push(quote!(#n: #ty));
                        let b = rewrite::bind_param(&mut rw, p, &n);
                        pre.extend(b);
                    }
                    p => return Err(format!("{what}: unsupported parameter {}", p.to_token_stream())),
                }
            }
        }
    }
    for g in &sp.ghostparams {
        let t: TokenStream = g.parse().map_err(|e| format!("{e}"))?;
        params.push(t);
    }
    if let Some(p) = &sp.params {
        if p.len() != idx {
            return Err(format!("{what}: the signature has {idx} parameters, its contract {}", p.len()));
        }
    }
    let mut ret = quote!();
    let mut wrap = false;
    if let ReturnType::Type(_, t) = &mut sig.output {
        if matches!(&**t, Type::ImplTrait(_)) {
            wrap = true;
        }
        map_type(t, &mut rw.counts);
        let r = format_ident!("{}", sp.ret.clone().unwrap_or("r".into()));
        ret = quote!(-> (#r: #t));
    }
    if let Some(g) = given {
        let name = format_ident!("{}", sp.name.clone().unwrap_or(sig.ident.to_string()));
        let gens = &sig.generics;
        let wh = &sig.generics.where_clause;
        let vis = if sp.nopub { quote!() } else { quote!(pub) };
        let head = print::print(&quote!(#vis fn #name #gens (#(#params),*) #ret #wh));
        cx.meta.push(format!("{{\"given\":{},\"file\":{},\"line\":{line},{g}}}", json_str(&sp.path), json_str(&sp.file)));
        return Ok(format!("#[verifier::external_body]\n{}\n{}\n{{ unimplemented!() }}\n", head.trim(), sp.spec));
    }
    if wrap {
        if let Some(Stmt::Expr(e)) = block.stmts.last_mut() {
            let e2 = e.clone();
            *e = parse_quote!((#e2).collect());
        }
    }
    for (a, b) in &sp.renames {
        let _ = (a, b);
    }
    rw.visit_block_mut(&mut block);
    if !rw.errors.is_empty() {
        return Err(format!("{what}: {}", rw.errors.join("; ")));
    }
    let nloops = rw.loops;
    if sp.loops.len() != nloops || (0..nloops).any(|n| !sp.loops.contains_key(&n)) {
        return Err(format!("{what}: the function has {nloops} loops, its contract covers {}", sp.loops.len()));
    }
    let stmts = &block.stmts;
    let body = print::print(&quote!({ #pre #(#stmts)* }));
    let mut body = body.trim().to_string();
    for m in ["__inv", "__lend", "__ghost", "__aft", "__clb", "__cla"] {
        for t in [" ! (", " !(", "! ("] {
            body = body.replace(&format!("{m}{t}"), &format!("{m}!("));
        }
    }
    for n in 0..rw.closures {
        let c = sp.closure(n).ok_or(format!("{what}: closure {n} has no contract"))?;
        let f = |m: &str| [format!("{m}!({n})"), format!("{m}!({n} )")];
        let pats = f("__clb");
        let at = pats.iter().find_map(|p| body.find(p.as_str())).ok_or(format!("{what}: closure {n} not found"))?;
        let semi = at + body[at..].find(';').unwrap() + 1;
        let open = body[..at].rfind('{').unwrap();
        let ret = body[..open].rfind("__ClRet").ok_or(format!("{what}: closure {n} has no return type"))?;
        body = format!("{}({})\n{}\n{{\n{}\n{}", &body[..ret], c.ret, c.spec.trim_end(), c.begin, &body[semi..]);
        let pats = f("__cla");
        let at = pats.iter().find_map(|p| body.find(p.as_str())).ok_or(format!("{what}: closure {n} not found"))?;
        let semi = at + body[at..].find(';').unwrap() + 1;
        body = format!("{}\n{}\n{}", &body[..at], c.after.replace("__c", &format!("__c{n}")), &body[semi..]);
    }
    if let Some(g) = &sp.abort {
        body = body.replace("__abort_let", &format!("let ghost __abort_c = {g}"));
        body = body.replace("__abort_value", &format!("{{ let ghost __abort_c = {g}; vabort(Ghost(__abort_c)) }}"));
        body = body.replace("__abort_unit", &format!("{{ let ghost __abort_c = {g}; vabort_unit(Ghost(__abort_c)) }}"));
    }
    // invariants
    for n in 0..nloops {
        let l = &sp.loops[&n];
        let at = body
            .find(&format!("__inv!({n},"))
            .or_else(|| body.find(&format!("__inv!({n} ")))
            .or_else(|| body.find(&format!("__inv!({n})")))
            .ok_or(format!("{what}: loop {n} not found"))?;
        let end = at + body[at..].find(';').unwrap() + 1;
        let marker = body[at..end].to_string();
        let inner: Vec<String> = marker[marker.find('(').unwrap() + 1..marker.rfind(')').unwrap()].split(',').map(|s| s.trim().to_string()).collect();
        let open = body[..at].rfind('{').unwrap();
        let mut inv = String::new();
        let has_dec = l.inv.lines().any(|x| x.trim_start().starts_with("decreases"));
        let auto = inner.len() == 4;
        let user = l.inv.trim();
        let (user_exb, user_inv, user_rest) = split_inv(user);
        if !user_exb.is_empty() {
            inv.push_str(&format!("\n{user_exb}"));
        }
        if auto {
            let (lo, hi, i) = (&inner[1], &inner[2], &inner[3]);
            inv.push_str(&format!("\n invariant\n  {lo} <= {i}, {i} <= {hi},\n"));
        } else if !user_inv.is_empty() {
            inv.push_str("\n invariant\n");
        }
        inv.push_str(&user_inv);
        inv.push('\n');
        inv.push_str(&user_rest);
        if auto && !has_dec {
            let rev = marker.contains("rev");
            let _ = rev;
            if inner[0].ends_with("rev") {
                inv.push_str(&format!("\n decreases {} - {}\n", inner[3], inner[1]));
            } else {
                inv.push_str(&format!("\n decreases {} - {}\n", inner[2], inner[3]));
            }
        }
        let mut head = body[..open].to_string();
        if !l.before.is_empty() {
            let w = head.rfind("while ").ok_or(format!("{what}: loop {n} is not a counted loop"))?;
            head.insert_str(w, &format!("{}\n", l.before));
        }
        let tail = body[end..].to_string();
        body = format!("{head}{inv} {{\n{}\n{tail}", l.start);
        // end marker
        let pats = [format!("__lend!({n})"), format!("__lend!({n} )")];
        let at = pats.iter().find_map(|p| body.find(p.as_str()).map(|a| (a, p.len()))).ok_or(format!("{what}: end of loop {n} not found"))?;
        let semi = at.0 + body[at.0..].find(';').unwrap() + 1;
        body = format!("{}\n{}\n{}", &body[..at.0], l.end, &body[semi..]);
        let pats = [format!("__aft!({n})"), format!("__aft!({n} )")];
        match pats.iter().find_map(|p| body.find(p.as_str())) {
            Some(at) => {
                let semi = at + body[at..].find(';').unwrap() + 1;
                body = format!("{}\n{}\n{}", &body[..at], l.after, &body[semi..]);
            }
            None if l.after.is_empty() => {}
            None => return Err(format!("{what}: loop {n} is not a counted loop")),
        }
    }
    for (k, (_, anchor, text)) in sp.ghosts.iter().enumerate() {
        let pats = [format!("__ghost!({k})"), format!("__ghost!({k} )")];
        let at = pats.iter().find_map(|p| body.find(p.as_str())).ok_or(format!("{what}: lost the statement `{anchor}`"))?;
        let semi = at + body[at..].find(';').unwrap() + 1;
        body = format!("{}\n{}\n{}", &body[..at], text, &body[semi..]);
        // the copies of an unrolled loop body
        while let Some(at) = pats.iter().find_map(|p| body.find(p.as_str())) {
            let semi = at + body[at..].find(';').unwrap() + 1;
            body = format!("{}\n{}\n{}", &body[..at], text, &body[semi..]);
        }
    }
    let open = body.find('{').unwrap() + 1;
    let vac = if cx.vac { "\n assert(false);" } else { "" };
    body = format!("{}\n{}{vac}\n{}", &body[..open], sp.start, &body[open..]);
    let name = format_ident!("{}", sp.name.clone().unwrap_or(sig.ident.to_string()));
    let gens = &sig.generics;
    let wh = &sig.generics.where_clause;
    let vis = if sp.nopub { quote!() } else { quote!(pub) };
    let head = print::print(&quote!(#vis fn #name #gens (#(#params),*) #ret #wh));
    let attrs: String = sp.attrs.iter().map(|a| format!("{a}\n")).collect();
    let iso = if nloops > 0 && !sp.isolate { "#[verifier::loop_isolation(false)]\n" } else { "" };
    let counts: Vec<String> = rw.counts.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect();
    cx.meta.push(format!(
        "{{\"function\":{},\"file\":{},\"line\":{line},\"name\":{},\"loops\":{nloops},\"abort\":{},\"rewrites\":{{{}}}}}",
        json_str(&sp.path),
        json_str(&sp.file),
        json_str(&name.to_string()),
        sp.abort.as_ref().map(|a| json_str(a)).unwrap_or("null".into()),
        counts.join(",")
    ));
    Ok(format!("//@fn {} {}:{line}\n{attrs}{iso}{}\n{}\n{body}\n//@endfn\n", sp.path.replace(' ', "~"), sp.file, head.trim(), sp.spec))
}

/// the invariant_except_break section, invariant lines and the rest (ensures / decreases)
fn split_inv(s: &str) -> (String, String, String) {
    let mut parts = [String::new(), String::new(), String::new()];
    let mut k = 1;
    for l in s.lines() {
        let t = l.trim_start();
        if t.starts_with("invariant_except_break") {
            k = 0;
        } else if t.starts_with("decreases") || t.starts_with("ensures") {
            k = 2;
        }
        parts[k].push_str(l);
        parts[k].push('\n');
    }
    let [a, b, c] = parts;
    (a.trim_end().to_string(), b.trim_end().to_string(), c)
}

fn find_item<'a>(items: &'a [Item], kind: &str, name: &str) -> Option<&'a Item> {
    for it in items {
        let hit = match it {
            Item::Struct(s) => kind == "struct" && s.ident == name,
            Item::Enum(s) => kind == "enum" && s.ident == name,
            Item::Const(s) => kind == "const" && s.ident == name,
            Item::Mod(m) => {
                if let Some((_, i)) = &m.content {
                    if let Some(x) = find_item(i, kind, name) {
                        return Some(x);
                    }
                }
                false
            }
            _ => false,
        };
        if hit {
            return Some(it);
        }
    }
    None
}

fn emit_item(cx: &mut Ctx, kind: &str, file: &str, name: &str, opts: &[String]) -> std::result::Result<String, String> {
    let (f, _) = read(cx.root, file)?;
    let mut it = find_item(&f.items, kind, name).cloned().ok_or(format!("{file}: no {kind} {name}"))?;
    let mut counts = BTreeMap::new();
    let derive: Vec<String> = opts.iter().filter_map(|o| o.strip_prefix("derive=")).flat_map(|d| d.split(',').map(|s| s.to_string()).collect::<Vec<_>>()).collect();
    let keep: Option<Vec<String>> = opts.iter().filter_map(|o| o.strip_prefix("only=")).next().map(|d| d.split(',').map(|s| s.to_string()).collect());
    let attrs = match &it {
        Item::Struct(s) => s.attrs.clone(),
        Item::Enum(s) => s.attrs.clone(),
        _ => vec![],
    };
    let has: String = attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>().join(" ");
    let must: Vec<String> = opts.iter().filter_map(|o| o.strip_prefix("has=")).flat_map(|d| d.split(',').map(|s| s.to_string()).collect::<Vec<_>>()).collect();
    // `+Copy`: every field is Copy, so that the derived Clone copies
    for d in must.iter().chain(derive.iter()) {
        if !d.starts_with('+') && d != "Structural" && !has.contains(d.as_str()) {
            return Err(format!("{file}: {name} does not derive {d} any more"));
        }
    }
    let dv = if derive.is_empty() { String::new() } else { format!("#[derive({})]\n", derive.join(", ").replace('+', "")) };
    let subst: Vec<(String, String)> = opts.iter().filter_map(|o| o.strip_prefix("subst=")).flat_map(|d| d.split(',').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>()).collect();
    let mut dropped: Vec<String> = vec![];
    let out = match &mut it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            if let (Some(k), Fields::Named(n)) = (&keep, &mut s.fields) {
                let all = std::mem::take(&mut n.named);
                for fld in all {
                    let id = fld.ident.as_ref().unwrap().to_string();
                    if k.contains(&id) {
                        n.named.push(fld);
                    } else {
                        dropped.push(id);
                    }
                }
            }
            for fld in s.fields.iter_mut() {
                fld.attrs.clear();
                fld.vis = parse_quote!(pub);
                map_type(&mut fld.ty, &mut counts);
                for (a, b) in &subst {
                    if norm(&fld.ty.to_token_stream().to_string()) == *a {
                        fld.ty = parse_str(b).map_err(|e| format!("{e}"))?;
                    }
                }
            }
            dv + &print::print(&s.to_token_stream())
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for fld in v.fields.iter_mut() {
                    fld.attrs.clear();
                    map_type(&mut fld.ty, &mut counts);
                }
            }
            dv + &print::print(&s.to_token_stream())
        }
        Item::Const(c) => {
            if matches!(&*c.ty, Type::Path(p) if p.path.is_ident("f64")) {
                let lit = match rewrite::strip(&c.expr) {
                    Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => f.to_string(),
                    _ => return Err(format!("{file}: {name} is not a literal")),
                };
                let t = rewrite::float_lit(&lit).ok_or(format!("{file}: {name} literal {lit}"))?;
                cx.fconsts.insert(name.to_string());
                let ts = t.to_string();
                let inner = ts[ts.find('(').unwrap() + 1..ts.rfind(')').unwrap()].to_string();
                let (n, d) = inner.split_once(',').unwrap();
                format!("pub open spec fn {name}_real() -> real {{ {}real / {}real }}\n#[allow(non_snake_case)]\npub fn {name}() -> (r: F) ensures r@ == {name}_real() {{ F::lit({n}, {d}) }}\n", n.trim(), d.trim())
            } else {
                c.attrs.clear();
                c.vis = parse_quote!(pub);
                print::print(&c.to_token_stream())
            }
        }
        _ => unreachable!(),
    };
    let dr: Vec<String> = dropped.iter().map(|d| json_str(d)).collect();
    cx.meta.push(format!("{{\"{kind}\":{},\"file\":{},\"dropped_fields\":[{}]}}", json_str(name), json_str(file), dr.join(",")));
    Ok(out)
}

pub fn expand(text: &str, root: &str, dir: &Path, vac: bool, skip: BTreeSet<String>) -> std::result::Result<(String, String), String> {
    let mut cx = Ctx { root, vac, meta: vec![], fconsts: BTreeSet::new(), gmaps: BTreeSet::new(), gvidx: BTreeSet::new(), giter: BTreeSet::new(), unit: None, skip, inline: HashMap::new(), consts: BTreeSet::new(), auto: String::new() };
    named_consts(text, dir, &mut cx.consts, &mut BTreeSet::new());
    let mut out = expand_in(text, dir, &mut cx, &mut BTreeSet::new())?;
    if !cx.auto.is_empty() {
        out.push_str(&format!("verus! {{\n{}}}\n", cx.auto));
    }
    Ok((out, format!("[{}]\n", cx.meta.join(",\n"))))
}

fn expand_in(text: &str, dir: &Path, cx: &mut Ctx, seen: &mut BTreeSet<String>) -> std::result::Result<String, String> {
    let mut out = String::new();
    let mut cur: Option<FnSpec> = None;
    enum Sink {
        None,
        Spec,
        LoopInv(usize),
        LoopStart(usize),
        LoopEnd(usize),
        LoopAfter(usize),
        LoopBefore(usize),
        Start,
        Ghost(usize),
        Closure(String),
        ClosureAfter(String),
        ClosureStart(String),
    }
    let mut sink = Sink::None;
    for (ln, l) in text.lines().enumerate() {
        let t = l.trim();
        if let Some(d) = t.strip_prefix("//@@") {
            let d = d.trim();
            let (w, rest) = d.split_once(char::is_whitespace).unwrap_or((d, ""));
            let rest = rest.trim();
            let err = |m: &str| format!("template line {}: {m}: {d}", ln + 1);
            match w {
                "include" => {
                    if seen.insert(rest.to_string()) {
                        let p = dir.join(rest);
                        let s = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
                        out.push_str(&expand_in(&s, dir, cx, seen)?);
                    }
                }
                "import" => {
                    let (f, u) = rest.split_once(' ').ok_or(err("file and unit"))?;
                    if seen.insert(f.to_string()) {
                        let p = dir.join(f);
                        let s = std::fs::read_to_string(&p).map_err(|e| format!("{}: {e}", p.display()))?;
                        let old = cx.unit.replace(u.trim().to_string());
                        out.push_str(&expand_in(&s, dir, cx, seen)?);
                        cx.unit = old;
                    }
                }
                "gmaps" => cx.gmaps.extend(rest.split(',').map(|s| s.trim().to_string())),
                "gvidx" => cx.gvidx = rest.split(',').map(|s| s.trim().to_string()).collect(),
                "giter" => cx.giter.extend(rest.split(',').map(|s| s.trim().to_string())),
                "inline" => {
                    let (file, name) = rest.split_once(' ').ok_or(err("file and name"))?;
                    let (f, _) = read(cx.root, file)?;
                    match find_item(&f.items, "const", name.trim()) {
                        Some(Item::Const(c)) => {
                            cx.inline.insert(name.trim().to_string(), (*c.expr).clone());
                        }
                        _ => return Err(err("no such constant")),
                    }
                }
                "struct" | "enum" | "const" => {
                    let a: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
                    if a.len() < 2 {
                        return Err(err("needs a file and a name"));
                    }
                    out.push_str(&emit_item(cx, w, &a[0], &a[1], &a[2..])?);
                    out.push('\n');
                }
                "fn" => {
                    let (file, r) = rest.split_once(char::is_whitespace).ok_or(err("needs a path"))?;
                    // options are the trailing words k=v or known flags
                    let mut path = vec![];
                    let mut s = FnSpec { file: file.to_string(), ..Default::default() };
                    for x in r.split_whitespace() {
                        match x {
                            "opassign" => s.opassign = true,
                            "unwraps" => s.unwraps = true,
                            "array_map" => s.array_map = true,
                            "keep_arrays" => s.keep_arrays = true,
                            "text" => s.text = true,
                            "flatvec" => s.flatvec = true,
                            "arrmove" => s.arrmove = true,
                            "isolate" => s.isolate = true,
                            "hoist" => s.hoist = true,
                            "nopub" => s.nopub = true,
                            _ if x.starts_with("name=") => s.name = Some(x[5..].to_string()),
                            _ => path.push(x),
                        }
                    }
                    s.path = path.join(" ");
                    cur = Some(s);
                    sink = Sink::Spec;
                }
                "endfn" => {
                    let mut s = cur.take().ok_or(err("no fn"))?;
                    out.push_str(&emit_fn(cx, &mut s)?);
                    sink = Sink::None;
                }
                _ => {
                    let s = cur.as_mut().ok_or(err("outside fn"))?;
                    let list = || rest.split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty());
                    match w {
                        "params" => s.params = Some(list().collect()),
                        "ret" => s.ret = Some(rest.to_string()),
                        "maps" => s.maps.extend(list()),
                        "vidx" => s.vidx.extend(list()),
                        "optmap" => s.optmaps.extend(list()),
                        "recv" => s.recv.extend(list()),
                        "ghostarg" => {
                            let (a, b) = rest.split_once("=>").ok_or(err("path => argument"))?;
                            s.ghostargs.push((norm(a), b.trim().to_string()));
                        }
                        "ghostparam" => s.ghostparams.push(rest.to_string()),
                        "iterfns" => s.iterfns.extend(list()),
                        "attr" => s.attrs.push(rest.to_string()),
                        "abort" => s.abort = Some(rest.to_string()),
                        "spec" => sink = Sink::Spec,
                        "loop" => {
                            let a: Vec<&str> = rest.split_whitespace().collect();
                            let n: usize = a[0].parse().map_err(|_| err("number"))?;
                            s.loops.entry(n).or_default().mode = a.get(1).unwrap_or(&"").to_string();
                            sink = Sink::LoopInv(n);
                        }
                        "acc" => {
                            let (n, t) = rest.split_once(' ').ok_or(err("type"))?;
                            let n: usize = n.parse().map_err(|_| err("number"))?;
                            s.loops.entry(n).or_default().acc = t.to_string();
                        }
                        "loopstart" => sink = Sink::LoopStart(rest.parse().map_err(|_| err("number"))?),
                        "loopend" => sink = Sink::LoopEnd(rest.parse().map_err(|_| err("number"))?),
                        "loopbefore" => sink = Sink::LoopBefore(rest.parse().map_err(|_| err("number"))?),
                        "loopafter" => sink = Sink::LoopAfter(rest.parse().map_err(|_| err("number"))?),
                        "start" => sink = Sink::Start,
                        // closure N name: type, .. -> name: type
                        "closure" => {
                            let (n, r) = rest.split_once(' ').ok_or(err("signature"))?;
                            let (ps, rt) = r.split_once("->").ok_or(err("return"))?;
                            let c = s.closures.entry(n.to_string()).or_default();
                            c.params = ps.split(',').filter_map(|x| x.split_once(':')).map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).collect();
                            c.ret = rt.trim().to_string();
                            sink = Sink::Closure(n.to_string());
                        }
                        "closurestart" => sink = Sink::ClosureStart(rest.to_string()),
                        "closureafter" => sink = Sink::ClosureAfter(rest.to_string()),
                        "ptype" => {
                            let (a, b) = rest.split_once("=>").ok_or(err("type => type"))?;
                            s.ptypes.push((norm(a), b.trim().to_string()));
                        }
                        "final" | "tail" => {
                            s.ghosts.push((true, format!("<{w}>"), String::new()));
                            sink = Sink::Ghost(s.ghosts.len() - 1);
                        }
                        "before" | "after" => {
                            let a = rest.trim_matches('`').to_string();
                            s.ghosts.push((w == "before", a, String::new()));
                            sink = Sink::Ghost(s.ghosts.len() - 1);
                        }
                        _ => return Err(err("unknown directive")),
                    }
                }
            }
            continue;
        }
        match cur.as_mut() {
            None => {
                // a lemma of an imported file is proved in its own unit
                let lemma = t.strip_prefix("pub proof fn ").or_else(|| t.strip_prefix("proof fn "));
                if let (Some(u), Some(r)) = (&cx.unit, lemma) {
                    let name: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                    cx.meta.push(format!("{{\"given\":{},\"file\":\"\",\"line\":0,\"proved_in\":{}}}", json_str(&format!("lemma {name}")), json_str(u)));
                    out.push_str("#[verifier::external_body] /* proved in its unit */ ");
                }
                out.push_str(l);
                out.push('\n');
            }
            Some(s) => {
                let dst = match &sink {
                    Sink::None => return Err(format!("template line {}: text outside a section", ln + 1)),
                    Sink::Spec => &mut s.spec,
                    Sink::LoopInv(n) => &mut s.loops.get_mut(n).unwrap().inv,
                    Sink::LoopStart(n) => &mut s.loops.entry(*n).or_default().start,
                    Sink::LoopEnd(n) => &mut s.loops.entry(*n).or_default().end,
                    Sink::LoopBefore(n) => &mut s.loops.entry(*n).or_default().before,
                    Sink::LoopAfter(n) => &mut s.loops.entry(*n).or_default().after,
                    Sink::Start => &mut s.start,
                    Sink::Ghost(k) => &mut s.ghosts[*k].2,
                    Sink::Closure(n) => &mut s.closures.get_mut(n).unwrap().spec,
                    Sink::ClosureStart(n) => &mut s.closures.entry(n.clone()).or_default().begin,
                    Sink::ClosureAfter(n) => &mut s.closures.entry(n.clone()).or_default().after,
                };
                dst.push_str(l);
                dst.push('\n');
            }
        }
    }
    if cur.is_some() {
        return Err("template ends inside a function".into());
    }
    Ok(out)
}
