use crate::template::{Anchor, Overlay};
use proc_macro2::{Span, TokenStream, TokenTree};
use std::collections::HashMap;
use std::path::Path;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct Source {
    text: String,
    file: syn::File,
    features: Vec<String>,
}
pub struct Rendered {
    pub text: String,
    pub line: usize,
    pub loops: Vec<String>,
    pub calls: Vec<String>,
    pub rewrites: Vec<String>,
}
#[derive(Clone)]
struct Tok {
    s: String,
    a: usize,
    b: usize,
}
type Paths = [(String, String)];

fn flat(ts: TokenStream, out: &mut Vec<Tok>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                    proc_macro2::Delimiter::Brace => ("{", "}"),
                    proc_macro2::Delimiter::Bracket => ("[", "]"),
                    proc_macro2::Delimiter::None => ("", ""),
                };
                let r = g.span_open().byte_range();
                out.push(Tok { s: o.into(), a: r.start, b: r.end });
                flat(g.stream(), out);
                let r = g.span_close().byte_range();
                out.push(Tok { s: c.into(), a: r.start, b: r.end });
            }
            t => {
                let r = t.span().byte_range();
                out.push(Tok { s: t.to_string(), a: r.start, b: r.end });
            }
        }
    }
}
fn toks(s: &str) -> Result<Vec<String>, String> {
    let ts: TokenStream = s.parse().map_err(|e| format!("anchor `{s}`: {e}"))?;
    let mut v = vec![];
    flat(ts, &mut v);
    Ok(v.into_iter().map(|t| t.s).collect())
}
fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}
fn range<T: Spanned>(t: &T) -> (usize, usize) {
    rng(t.span())
}
fn cfg_on(attrs: &[syn::Attribute], features: &[String]) -> bool {
    attrs.iter().all(|a| !a.path().is_ident("cfg") || match &a.meta {
        syn::Meta::List(l) => cfg_eval(&syn::parse2::<syn::Meta>(l.tokens.clone()).expect("cfg"), features),
        _ => true,
    })
}
fn cfg_eval(m: &syn::Meta, features: &[String]) -> bool {
    match m {
        syn::Meta::Path(p) => p.is_ident("debug_assertions") || p.is_ident("unix"),
        syn::Meta::NameValue(nv) => {
            if nv.path.is_ident("feature") {
                if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                    return features.contains(&s.value());
                }
            }
            false
        }
        syn::Meta::List(l) => {
            let inner = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .expect("cfg list");
            if l.path.is_ident("not") {
                !cfg_eval(&inner[0], features)
            } else if l.path.is_ident("all") {
                inner.iter().all(|m| cfg_eval(m, features))
            } else {
                inner.iter().any(|m| cfg_eval(m, features))
            }
        }
    }
}
fn type_name(t: &syn::Type) -> String {
    match t {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        syn::Type::Slice(r) => format!("[{}]", type_name(&r.elem)),
        t => quote::quote!(#t).to_string().replace(' ', ""),
    }
}

struct Edits<'a> {
    src: &'a Source,
    paths: &'a Paths,
    v: Vec<(usize, usize, i32, String)>,
    rewrites: Vec<String>,
    loops: Vec<(usize, usize, String)>, // start of the loop expression, end, kind
    bodies: Vec<(usize, usize, usize)>, // of each loop: where invariants go, where the body begins and ends
    calls: Vec<String>,
    stmts: Vec<(usize, usize)>,
    lets: Vec<(usize, usize, Vec<String>)>,
    unsupported: Vec<String>,
    mut_params: Vec<String>, // parameters of type &mut [T]
    byref: Option<String>,   // a parameter passed by value that is treated as a mutable reference
    hoisted: Vec<String>,
}
impl<'a> Edits<'a> {
    fn new(src: &'a Source, paths: &'a Paths) -> Self {
        Self { src, paths, v: vec![], rewrites: vec![], loops: vec![], bodies: vec![], calls: vec![], stmts: vec![], lets: vec![], unsupported: vec![], mut_params: vec![], byref: None, hoisted: vec![] }
    }
    fn rep(&mut self, a: usize, b: usize, s: &str) {
        self.v.push((a, b, 0, s.to_string()));
    }
    fn ins(&mut self, a: usize, s: &str) {
        self.v.push((a, a, 0, s.to_string()));
    }
    /// among insertions at the same place, lower ones come first
    fn ins_at(&mut self, a: usize, order: i32, s: &str) {
        self.v.push((a, a, order, s.to_string()));
    }
    fn body_of(&mut self, b: &syn::Block) {
        let (x, y) = range(b);
        self.bodies.push((x, x + 1, y - 1));
    }
    /// R.iter().map(|p| B).collect() and R.iter().for_each(|p| B) as loops
    fn chain(&mut self, e: &syn::Expr) -> bool {
        let syn::Expr::MethodCall(m) = e else { return false };
        let (collect, step) = match (m.method.to_string().as_str(), &*m.receiver) {
            ("collect", syn::Expr::MethodCall(r)) if r.method == "map" => (true, r),
            ("for_each", _) => (false, m),
            _ => return false,
        };
        let (Some(syn::Expr::Closure(c)), syn::Expr::MethodCall(src)) = (step.args.first(), &*step.receiver) else { return false };
        if !(src.method == "iter" || src.method == "into_iter") || !src.args.is_empty() || c.inputs.len() != 1 || leaves(&c.body) {
            return false;
        }
        let n = self.loops.len() + 1;
        let (a, end) = range(e);
        let (_, xe) = range(src);
        let (b0, b1) = range(&*c.body);
        let pat = self.src.text[range(&c.inputs[0]).0..range(&c.inputs[0]).1].to_string();
        self.loops.push((a, end, if collect { "map".into() } else { "for_each".into() }));
        self.bodies.push((xe + 1, xe + 2, b1 + 1));
        let simple = matches!(&*src.receiver, syn::Expr::Path(_) | syn::Expr::Field(_) | syn::Expr::MethodCall(_) | syn::Expr::Index(_) | syn::Expr::Paren(_));
        let (ra, rb) = range(&*src.receiver);
        if !simple && !collect {
            self.ins_at(a, -4, &format!("{{ let src{n} = &"));
            self.ins_at(rb, -2, &format!("; for {pat} in it{n}: src{n}"));
            self.note("E.iter().for_each(..) => { let s = &E; s.iter().for_each(..) }");
        }
        let _ = ra;
        self.rep(xe, xe + 1, " ");
        self.rep(xe + 1, xe + 2, "{");
        if collect {
            let to = m.turbofish.as_ref().map_or(String::new(), |t| {
                let (x, y) = range(&t.args);
                format!("::<{}>", &self.src.text[x..y])
            });
            self.ins_at(a, -3, &format!("{{ let mut out{n} = Vec::new(); "));
            self.ins_at(a, -1, &format!("for {pat} in it{n}: "));
            self.rep(xe + 2, b0, &format!("let item{n} = "));
            self.rep(b1, b1 + 1, &format!("; out{n}.push(item{n}); "));
            self.rep(b1 + 1, b1 + 2, "}");
            self.rep(b1 + 2, end, &format!(" crate::vf::IntoVx{to}::into_vx(out{n}) }}"));
            self.note("E.iter().map(|x| B).collect() => { let mut out = Vec::new(); for x in E.iter() { let item = B; out.push(item); } out.into() }");
            self.calls.push("map.collect".into());
        } else {
            if simple {
                self.ins_at(a, -1, &format!("for {pat} in it{n}: "));
            }
            self.rep(xe + 2, b0, "");
            self.rep(b1, end, if simple { "; }" } else { "; } }" });
            self.bodies.last_mut().unwrap().2 = b1;
            self.note("E.iter().for_each(|x| B) => for x in E.iter() { B; }");
            self.calls.push("for_each".into());
        }
        self.visit_expr(&src.receiver);
        self.visit_expr(&c.body);
        true
    }
    fn note(&mut self, s: &str) {
        if !self.rewrites.iter().any(|r| r == s) {
            self.rewrites.push(s.into());
        }
    }
    fn attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let (x, y) = range(a);
            self.rep(x, y, "");
        }
    }
    fn apply(mut self, from: usize, to: usize) -> String {
        // An edit strictly inside a replaced range is dropped with it.
        let big: Vec<(usize, usize)> = self.v.iter().filter(|e| e.1 > e.0).map(|e| (e.0, e.1)).collect();
        let mut keep: Vec<(usize, (usize, usize, i32, String))> = vec![];
        for (n, e) in self.v.drain(..).enumerate() {
            let inside = big.iter().any(|b| {
                let same = *b == (e.0, e.1);
                !same && b.0 <= e.0 && e.1 <= b.1 && !(e.0 == e.1 && (e.0 == b.0 || e.0 == b.1))
            });
            if !inside && e.0 >= from && e.1 <= to {
                keep.push((n, e));
            }
        }
        keep.sort_by_key(|(n, e)| (e.0, e.1, e.2, *n));
        keep.dedup_by(|x, y| x.1 .0 < x.1 .1 && (x.1 .0, x.1 .1) == (y.1 .0, y.1 .1));
        let mut out = String::new();
        let mut pos = from;
        for (_, (a, b, _, s)) in keep {
            if a < pos {
                panic!("overlapping edits at {}: {}", a, &self.src.text[a..b.min(a + 60)]);
            }
            out.push_str(&self.src.text[pos..a]);
            out.push_str(&s);
            pos = b;
        }
        out.push_str(&self.src.text[pos..to]);
        out
    }
    fn path_prefix(&mut self, segs: &[(String, usize, usize)]) {
        for (from, to) in self.paths {
            let f: Vec<&str> = from.split("::").collect();
            if !from.starts_with('.') && segs.len() >= f.len() && f.iter().zip(segs).all(|(a, b)| *a == b.0) {
                let (a, b) = (segs[0].1, segs[f.len() - 1].2);
                self.rep(a, b, to);
                self.note(&format!("path {from} => {to}"));
                return;
            }
        }
    }
}
/// whether evaluating the expression may leave the function
fn leaves(e: &syn::Expr) -> bool {
    struct L(bool);
    impl<'x> Visit<'x> for L {
        fn visit_expr(&mut self, e: &'x syn::Expr) {
            self.0 |= matches!(e, syn::Expr::Return(_) | syn::Expr::Try(_));
            visit::visit_expr(self, e);
        }
    }
    let mut l = L(false);
    l.visit_expr(e);
    l.0
}
fn bound(p: &syn::Pat) -> Vec<String> {
    struct B(Vec<String>);
    impl<'x> Visit<'x> for B {
        fn visit_pat_ident(&mut self, i: &'x syn::PatIdent) {
            self.0.push(i.ident.to_string());
            visit::visit_pat_ident(self, i);
        }
    }
    let mut b = B(vec![]);
    b.visit_pat(p);
    b.0
}
fn stmt_attrs(s: &syn::Stmt) -> &[syn::Attribute] {
    match s {
        syn::Stmt::Local(l) => &l.attrs,
        syn::Stmt::Macro(m) => &m.attrs,
        syn::Stmt::Item(_) => &[],
        syn::Stmt::Expr(e, _) => expr_attrs(e),
    }
}
fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    match e {
        syn::Expr::Block(x) => &x.attrs,
        syn::Expr::If(x) => &x.attrs,
        syn::Expr::MethodCall(x) => &x.attrs,
        syn::Expr::Call(x) => &x.attrs,
        syn::Expr::Return(x) => &x.attrs,
        syn::Expr::ForLoop(x) => &x.attrs,
        syn::Expr::Match(x) => &x.attrs,
        syn::Expr::Assign(x) => &x.attrs,
        syn::Expr::Path(x) => &x.attrs,
        syn::Expr::Macro(x) => &x.attrs,
        syn::Expr::Unsafe(x) => &x.attrs,
        _ => &[],
    }
}
impl<'a, 'x> Visit<'x> for Edits<'a> {
    fn visit_path(&mut self, p: &'x syn::Path) {
        let segs: Vec<_> = p.segments.iter().map(|s| { let (a, b) = range(&s.ident); (s.ident.to_string(), a, b) }).collect();
        self.path_prefix(&segs);
        visit::visit_path(self, p);
    }
    fn visit_type_path(&mut self, t: &'x syn::TypePath) {
        let last = t.path.segments.last().unwrap();
        if last.ident == "SmallVec" {
            if let syn::PathArguments::AngleBracketed(g) = &last.arguments {
                if let Some(syn::GenericArgument::Type(syn::Type::Array(arr))) = g.args.first() {
                    let (a, b) = range(t);
                    let (ea, eb) = range(&*arr.elem);
                    self.rep(a, ea, "Vec<");
                    self.rep(eb, b, ">");
                    self.note("SmallVec<[T; N]> => Vec<T>");
                    self.visit_type(&arr.elem);
                    return;
                }
            }
        }
        visit::visit_type_path(self, t);
    }
    fn visit_macro(&mut self, m: &'x syn::Macro) {
        if m.path.is_ident("smallvec") {
            let (a, b) = range(&m.path);
            self.rep(a, b, "vec");
            self.note("smallvec! => vec!");
            return;
        }
        let (a, b) = range(m);
        let name = m.path.segments.last().unwrap().ident.to_string();
        match name.as_str() {
            "panic" | "todo" | "unreachable" | "unimplemented" => {
                self.rep(a, b, "crate::vf::panics()");
                self.note("panic!/todo!/unreachable! => crate::vf::panics(), which must not be reached");
            }
            "runtime_agnostic_block_on" => {
                let (pa, _) = range(&m.path);
                let pb = rng(m.bang_token.span).1;
                self.rep(pa, pb, "");
                self.note("runtime_agnostic_block_on!(e) => (e)");
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" => {
                let mut parts: Vec<Vec<TokenTree>> = vec![vec![]];
                for t in m.tokens.clone() {
                    if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
                        parts.push(vec![]);
                    } else {
                        parts.last_mut().unwrap().push(t);
                    }
                }
                let text = |p: &Vec<TokenTree>| match (p.first(), p.last()) {
                    (Some(x), Some(y)) => self.src.text[rng(x.span()).0..rng(y.span()).1].to_string(),
                    _ => String::new(),
                };
                if parts.len() >= 2 {
                    let (l, r) = (text(&parts[0]), text(&parts[1]));
                    let op = if name == "assert_ne" { "!=" } else { "==" };
                    self.rep(a, b, &format!("crate::vf::check(({l}) {op} ({r}))"));
                    self.note("assert_eq!(a, b) => crate::vf::check(a == b), which must be true");
                }
            }
            "assert" | "debug_assert" => {
                let mut first: Vec<TokenTree> = vec![];
                for t in m.tokens.clone() {
                    if matches!(&t, TokenTree::Punct(p) if p.as_char() == ',') {
                        break;
                    }
                    first.push(t);
                }
                if let (Some(x), Some(y)) = (first.first(), first.last()) {
                    let cond = self.src.text[rng(x.span()).0..rng(y.span()).1].to_string();
                    self.rep(a, b, &format!("crate::vf::check({cond})"));
                    self.note("assert!(c) => crate::vf::check(c), which must be true");
                }
            }
            _ => {}
        }
    }
    fn visit_item_use(&mut self, u: &'x syn::ItemUse) {
        let mut segs = vec![];
        let mut t = &u.tree;
        loop {
            match t {
                syn::UseTree::Path(p) => {
                    let (a, b) = range(&p.ident);
                    segs.push((p.ident.to_string(), a, b));
                    t = &p.tree;
                }
                syn::UseTree::Name(n) => {
                    let (a, b) = range(&n.ident);
                    segs.push((n.ident.to_string(), a, b));
                    break;
                }
                _ => break,
            }
        }
        self.path_prefix(&segs);
    }
    fn visit_stmt(&mut self, s: &'x syn::Stmt) {
        let at = stmt_attrs(s);
        let (a, b) = range(s);
        if !cfg_on(at, &self.src.features) {
            self.rep(a, b, "");
            return;
        }
        self.attrs(at);
        self.stmts.push((a, b));
        if let syn::Stmt::Local(l) = s {
            self.lets.push((a, b, bound(&l.pat)));
        }
        if let syn::Stmt::Item(syn::Item::Const(c)) = s {
            let (a, b) = range(&c.const_token);
            self.rep(a, b, "let");
            self.note("const item inside a function => let");
            self.lets.push((range(s).0, range(s).1, vec![c.ident.to_string()]));
        }
        if let syn::Stmt::Item(syn::Item::Type(_)) = s {
            let (a, b) = range(s);
            self.hoisted.push(self.src.text[a..b].to_string());
            self.rep(a, b, "");
            self.note("type alias inside a function => before the function");
            return;
        }
        visit::visit_stmt(self, s);
    }
    fn visit_field_value(&mut self, f: &'x syn::FieldValue) {
        if !cfg_on(&f.attrs, &self.src.features) {
            let (a, mut b) = range(f);
            if self.src.text[b..].trim_start().starts_with(',') {
                b += self.src.text[b..].find(',').unwrap() + 1;
            }
            self.rep(a, b, "");
            return;
        }
        self.attrs(&f.attrs);
        visit::visit_field_value(self, f);
    }
    fn visit_arm(&mut self, f: &'x syn::Arm) {
        if !cfg_on(&f.attrs, &self.src.features) {
            let (a, b) = range(f);
            self.rep(a, b, "");
            return;
        }
        self.attrs(&f.attrs);
        visit::visit_arm(self, f);
    }
    fn visit_fn_arg(&mut self, f: &'x syn::FnArg) {
        if let syn::FnArg::Typed(t) = f {
            self.attrs(&t.attrs);
        }
        visit::visit_fn_arg(self, f);
    }
    fn visit_expr(&mut self, e: &'x syn::Expr) {
        if self.chain(e) {
            return;
        }
        match e {
            syn::Expr::Await(w) => {
                let (_, b0) = range(&*w.base);
                let (_, b) = range(e);
                self.rep(b0, b, "");
                self.note(".await removed");
                self.visit_expr(&w.base);
                return;
            }
            syn::Expr::Async(x) => {
                let (a, _) = range(e);
                let (b, _) = range(&x.block);
                self.rep(a, b, "");
                self.note("async block => block");
                self.visit_block(&x.block);
                return;
            }
            syn::Expr::Unary(syn::ExprUnary { op: syn::UnOp::Neg(n), expr, .. }) => {
                let int = matches!(&**expr, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(_), .. }));
                if !int {
                    let (a, b) = rng(n.span);
                    self.rep(a, b, "crate::fl::neg(");
                    let (_, b) = range(e);
                    self.ins(b, ")");
                    self.note("unary minus on a float => crate::fl::neg");
                }
            }
            syn::Expr::Reference(r) if r.mutability.is_some() && self.byref.is_some() => {
                if let syn::Expr::Path(p) = &*r.expr {
                    if p.path.get_ident().is_some_and(|i| Some(i.to_string()) == self.byref) {
                        let (a, b) = range(e);
                        let n = self.byref.clone().unwrap();
                        self.rep(a, b, &n);
                        return;
                    }
                }
            }
            syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::ByteStr(l), .. }) => {
                let (a, b) = range(e);
                let items: Vec<String> = l.value().iter().map(|x| format!("{x}u8")).collect();
                self.rep(a, b, &format!("(&[{}])", items.join(", ")));
                self.note("b\"..\" => (&[..])");
            }
            syn::Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if name == "collect" {
                    let to = m.turbofish.as_ref().map_or(String::new(), |t| {
                        let (x, y) = range(&t.args);
                        self.src.text[x..y].to_string()
                    });
                    if let syn::Expr::MethodCall(inner) = &*m.receiver {
                        if inner.method == "into_iter" && inner.args.is_empty() && to.starts_with("Result<Vec<_>") {
                            let (a, b) = range(&*inner.receiver);
                            let (_, end) = range(e);
                            self.ins(a, "crate::vf::all_ok(");
                            self.rep(b, end, ")");
                            self.note(".into_iter().collect::<Result<Vec<_>, _>>() => crate::vf::all_ok");
                            visit::visit_expr(self, &inner.receiver);
                            return;
                        }
                    }
                }
                if (name == "or_insert_with" || name == "or_insert") && m.args.len() == 1 {
                    if let (syn::Expr::MethodCall(en), arg) = (&*m.receiver, &m.args[0]) {
                        let body = match arg {
                            syn::Expr::Closure(c) if name == "or_insert_with" && c.inputs.is_empty() && !leaves(&c.body) => Some(&*c.body),
                            x if name == "or_insert" => Some(x),
                            _ => None,
                        };
                        let simple = matches!(&*en.receiver, syn::Expr::Path(_));
                        if let (true, true, 1, Some(body)) = (en.method == "entry", simple, en.args.len(), body) {
                            let map = self.src.text[range(&*en.receiver).0..range(&*en.receiver).1].to_string();
                            let (a, end) = range(e);
                            let (ka, kb) = range(&en.args[0]);
                            let (ba, bb) = range(body);
                            self.rep(a, ka, "{ let key__ = ");
                            let early = name == "or_insert";
                            self.rep(kb, ba, &if early { "; let val__ = ".to_string() } else { format!("; if !{map}.contains_key(&key__) {{ let val__ = ") });
                            self.rep(bb, end, &if early { format!("; if !{map}.contains_key(&key__) {{ {map}.insert(key__, val__); }} {map}.get(&key__).unwrap() }}") } else { format!("; {map}.insert(key__, val__); }} {map}.get(&key__).unwrap() }}") });
                            self.note("m.entry(k).or_insert_with(|| v) => { if !m.contains_key(&k) { m.insert(k, v); } m.get(&k).unwrap() }");
                            self.calls.push(name);
                            self.calls.push("entry".into());
                            self.visit_expr(&en.args[0]);
                            self.visit_expr(body);
                            return;
                        }
                    }
                }
                if (name == "min" || name == "max") && m.args.is_empty() {
                    if let syn::Expr::MethodCall(inner) = &*m.receiver {
                        if inner.method == "iter" {
                            let (a, b) = range(&*inner.receiver);
                            let (_, end) = range(e);
                            self.ins(a, &format!("crate::vf::slice_{name}(&"));
                            self.rep(b, end, ")");
                            self.note(".iter().min()/.max() => crate::vf::slice_min/slice_max");
                            self.calls.push(format!("iter.{name}"));
                            visit::visit_expr(self, &inner.receiver);
                            return;
                        }
                    }
                }
                for (from, to) in self.paths {
                    if from.strip_prefix('.') == Some(&name) {
                        let (a, b) = range(&m.method);
                        self.rep(a, b, to);
                        self.note(&format!("method {from}() => .{to}()"));
                    }
                }
                self.calls.push(name);
            }
            syn::Expr::Call(c) => {
                if let syn::Expr::Path(p) = &*c.func {
                    self.calls.push(p.path.segments.last().unwrap().ident.to_string());
                    let full: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if full.join("::") == "futures::executor::block_on" {
                        let (a, b) = range(&*c.func);
                        self.rep(a, b, "");
                        self.note("futures::executor::block_on(e) => (e)");
                        for x in &c.args {
                            self.visit_expr(x);
                        }
                        return;
                    }
                }
            }
            syn::Expr::Macro(m) => self.calls.push(format!("{}!", m.mac.path.segments.last().unwrap().ident)),
            syn::Expr::ForLoop(f) => {
                let (a, b) = range(e);
                let n = self.loops.len() + 1;
                self.loops.push((a, b, "for".into()));
                self.body_of(&f.body);
                let (pa, pb) = range(&*f.pat);
                let (ea, eb) = range(&*f.expr);
                let mut done = false;
                if let syn::Expr::MethodCall(en) = &*f.expr {
                    if let (true, syn::Expr::MethodCall(it), syn::Pat::Tuple(pt)) = (en.method == "enumerate", &*en.receiver, &*f.pat) {
                        if it.method == "iter" && pt.elems.len() == 2 {
                            let (ra, rb) = range(&*it.receiver);
                            let recv = self.src.text[ra..rb].to_string();
                            let idx = self.src.text[range(&pt.elems[0]).0..range(&pt.elems[0]).1].to_string();
                            let el = self.src.text[range(&pt.elems[1]).0..range(&pt.elems[1]).1].to_string();
                            let ivar = if idx == "_" { format!("idx{n}") } else { idx };
                            self.rep(pa, pb, &ivar);
                            self.ins(ra, &format!("it{n}: 0..("));
                            self.rep(rb, eb, ").len()");
                            let bo = range(&f.body).0 + 1;
                            self.ins(bo, &format!(" let {el} = &({recv})[{ivar}];"));
                            self.note("for (i, x) in E.iter().enumerate() => for i in 0..E.len() { let x = &E[i]; .. }");
                            done = true;
                        }
                    }
                }
                let over = match &*f.expr {
                    syn::Expr::Reference(r) if r.mutability.is_some() => Some(&*r.expr),
                    syn::Expr::MethodCall(m) if m.method == "iter_mut" && m.args.is_empty() => Some(&*m.receiver),
                    syn::Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.mut_params.contains(&i.to_string())) => Some(&*f.expr),
                    _ => None,
                };
                if let (Some(r), syn::Pat::Ident(_)) = (over, &*f.pat) {
                    let (ra, rb) = range(r);
                    let recv = self.src.text[ra..rb].to_string();
                    let el = self.src.text[pa..pb].to_string();
                    let ivar = format!("idx{n}");
                    self.rep(pa, pb, &ivar);
                    self.rep(ea, ra, "");
                    self.ins(ra, &format!("it{n}: 0..("));
                    self.ins(rb, ").len()");
                    self.rep(rb, eb, "");
                    let bo = range(&f.body).0 + 1;
                    self.ins_at(bo, 5, &format!(" let {el} = &mut ({recv})[{ivar}];"));
                    self.note("for x in &mut E => for i in 0..E.len() { let x = &mut E[i]; .. }");
                    visit::visit_expr(self, r);
                    self.visit_block(&f.body);
                    return;
                }
                if !done {
                    self.ins(ea, &format!("it{n}: "));
                }
                visit::visit_expr(self, &f.expr);
                self.visit_block(&f.body);
                return;
            }
            syn::Expr::While(w) => {
                let (a, b) = range(e);
                let kind = if matches!(&*w.cond, syn::Expr::Let(_)) { "while let" } else { "while" };
                self.loops.push((a, b, kind.into()));
                self.body_of(&w.body);
                if let syn::Expr::Let(l) = &*w.cond {
                    let (x, y) = range(&w.body);
                    let (_, head) = range(&w.while_token);
                    let mut pe = Edits::new(self.src, self.paths);
                    pe.visit_pat(&l.pat);
                    let (pa, pb) = range(&*l.pat);
                    let pat = pe.apply(pa, pb);
                    let mut ee = Edits::new(self.src, self.paths);
                    ee.visit_expr(&l.expr);
                    let (xa, xb) = range(&*l.expr);
                    let ex = ee.apply(xa, xb);
                    self.rep(head - "while".len(), x, "loop ");
                    self.ins_at(x + 1, -20, &format!(" match {ex} {{ {pat} => {{"));
                    self.ins_at(y - 1, 20, "} _ => break, } ");
                    self.note("while let P = E { B } => loop { match E { P => { B } _ => break } }");
                    self.visit_block(&w.body);
                    return;
                }
            }
            syn::Expr::Loop(w) => {
                let (a, b) = range(e);
                self.loops.push((a, b, "loop".into()));
                self.body_of(&w.body);
            }
            syn::Expr::Closure(_) => self.calls.push("closure".into()),
            syn::Expr::Unsafe(_) => self.calls.push("unsafe".into()),
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_stmt_macro(&mut self, m: &'x syn::StmtMacro) {
        self.calls.push(format!("{}!", m.mac.path.segments.last().unwrap().ident));
        self.visit_macro(&m.mac);
    }
    fn visit_attribute(&mut self, _: &'x syn::Attribute) {}
}

struct Found<'a> {
    attrs: &'a [syn::Attribute],
    sig: &'a syn::Signature,
    block: &'a syn::Block,
    imp: Option<&'a syn::ItemImpl>,
}

impl Source {
    pub fn load(p: &Path, features: &[String]) -> Self {
        let text = std::fs::read_to_string(p).unwrap_or_default();
        let file = syn::parse_file(&text).unwrap_or_else(|e| {
            eprintln!("{}: {e}", p.display());
            syn::File { shebang: None, attrs: vec![], items: vec![] }
        });
        Self { text, file, features: features.to_vec() }
    }
    fn items(&self) -> impl Iterator<Item = &syn::Item> {
        self.file.items.iter().filter(|i| {
            let a = match i {
                syn::Item::Fn(x) => &x.attrs,
                syn::Item::Impl(x) => &x.attrs,
                syn::Item::Struct(x) => &x.attrs,
                syn::Item::Enum(x) => &x.attrs,
                syn::Item::Const(x) => &x.attrs,
                syn::Item::Type(x) => &x.attrs,
                syn::Item::Trait(x) => &x.attrs,
                syn::Item::Mod(x) => &x.attrs,
                syn::Item::Static(x) => &x.attrs,
                _ => return true,
            };
            cfg_on(a, &self.features)
        })
    }
    fn find(&self, path: &str) -> Option<Found<'_>> {
        let (ty, name) = path.rsplit_once("::").map_or((None, path), |(a, b)| (Some(a), b));
        let Some(ty) = ty else {
            return self.items().find_map(|i| match i {
                syn::Item::Fn(f) if f.sig.ident == name => Some(Found { attrs: &f.attrs, sig: &f.sig, block: &f.block, imp: None }),
                _ => None,
            });
        };
        let (ty, tr) = ty.split_once(" as ").map_or((ty, None), |(a, b)| (a, Some(b)));
        for i in self.items() {
            let syn::Item::Impl(imp) = i else { continue };
            if type_name(&imp.self_ty) != ty {
                continue;
            }
            match (&imp.trait_, tr) {
                (None, None) => {}
                (Some((_, p, _)), Some(t)) => {
                    let last = p.segments.last().unwrap();
                    let full = quote::quote!(#last).to_string().replace(' ', "");
                    if last.ident != t && full != t {
                        continue;
                    }
                }
                _ => continue,
            }
            for it in &imp.items {
                if let syn::ImplItem::Fn(f) = it {
                    if f.sig.ident == name && cfg_on(&f.attrs, &self.features) {
                        return Some(Found { attrs: &f.attrs, sig: &f.sig, block: &f.block, imp: Some(imp) });
                    }
                }
            }
        }
        None
    }
    fn header(&self, imp: &syn::ItemImpl, inherent: bool, paths: &Paths) -> String {
        let mut e = Edits::new(self, paths);
        e.visit_generics(&imp.generics);
        if let Some((_, p, f)) = &imp.trait_ {
            if inherent {
                let (a, _) = range(p);
                let (_, b) = range(f);
                e.rep(a, b, "");
            } else {
                e.visit_path(p);
            }
        }
        e.visit_type(&imp.self_ty);
        let (a, _) = range(&imp.impl_token);
        let (b, _) = rng(imp.brace_token.span.open());
        e.apply(a, b)
    }
    pub fn impl_header(&self, what: &str, paths: &Paths) -> Result<String, String> {
        let (ty, tr) = what.split_once(" as ").map_or((what, None), |(a, b)| (a, Some(b)));
        for i in self.items() {
            if let syn::Item::Impl(imp) = i {
                let t = imp.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                if type_name(&imp.self_ty) == ty && t.as_deref() == tr {
                    return Ok(self.header(imp, false, paths));
                }
            }
        }
        Err(format!("no impl {what}"))
    }
    fn ret(&self, sig: &syn::Signature, e: &mut Edits) {
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let (a, b) = range(&**t);
            e.ins(a, "(ret: ");
            e.ins(b, ")");
        }
    }
    pub fn traitdef(&self, name: &str, specs: &HashMap<String, String>, paths: &Paths) -> Result<String, String> {
        let Some(t) = self.items().find_map(|i| match i {
            syn::Item::Trait(t) if t.ident == name => Some(t),
            _ => None,
        }) else {
            return Err(format!("no trait {name}"));
        };
        let mut e = Edits::new(self, paths);
        for it in &t.items {
            if let syn::TraitItem::Fn(f) = it {
                e.attrs(&f.attrs);
                e.visit_signature(&f.sig);
                self.ret(&f.sig, &mut e);
                if let Some(s) = specs.get(&f.sig.ident.to_string()) {
                    let (_, b) = range(&f.sig);
                    e.ins(b, &format!("\n{s}"));
                }
            }
        }
        let extra = specs.get("trait").cloned().unwrap_or_default();
        let (o, _) = rng(t.brace_token.span.open());
        e.ins(o + 1, &format!("\n{extra}"));
        let (a, _) = range(&t.trait_token);
        let (_, b) = range(t);
        Ok(format!("pub {}", e.apply(a, b)))
    }
    fn vis(&self, v: &syn::Visibility, e: &mut Edits, at: usize) {
        match v {
            syn::Visibility::Inherited => e.ins(at, "pub "),
            v => {
                let (a, b) = range(v);
                e.rep(a, b, "pub");
            }
        }
    }
    pub fn item(&self, kind: &str, name: &str, extra: &[&str], paths: &Paths) -> Result<String, String> {
        let derive = if extra.is_empty() { String::new() } else { format!("#[derive({})]\n", extra.join(", ")) };
        for i in self.items() {
            let mut e = Edits::new(self, paths);
            let (a, b) = match (kind, i) {
                ("struct", syn::Item::Struct(s)) if s.ident == name => {
                    e.attrs(&s.attrs);
                    e.visit_generics(&s.generics);
                    for f in &s.fields {
                        if !cfg_on(&f.attrs, &self.features) {
                            let (x, mut y) = range(f);
                            if self.text[y..].trim_start().starts_with(',') {
                                y += self.text[y..].find(',').unwrap() + 1;
                            }
                            e.rep(x, y, "");
                            continue;
                        }
                        e.attrs(&f.attrs);
                        let at = f.ident.as_ref().map_or(range(&f.ty).0, |i| range(i).0);
                        self.vis(&f.vis, &mut e, at);
                        e.visit_type(&f.ty);
                    }
                    (range(&s.struct_token).0, range(s).1)
                }
                ("enum", syn::Item::Enum(s)) if s.ident == name => {
                    for v in &s.variants {
                        e.attrs(&v.attrs);
                        for f in &v.fields {
                            e.attrs(&f.attrs);
                            e.visit_type(&f.ty);
                        }
                    }
                    (range(&s.enum_token).0, range(s).1)
                }
                ("const", syn::Item::Const(s)) if s.ident == name => {
                    e.visit_type(&s.ty);
                    e.visit_expr(&s.expr);
                    if let Some(v) = extra.iter().find_map(|x| x.strip_prefix("exec=")) {
                        // computed by executable code: give the verifier its value as a proof obligation
                        let (tb, ea, eb, end) = (range(&*s.ty).1, range(&*s.expr).0, range(&*s.expr).1, range(s).1);
                        e.rep(tb, ea, &format!(" ensures {name} == {v} {{ "));
                        e.rep(eb, end, " }");
                        return Ok(format!("pub exec {}", e.apply(range(&s.const_token).0, end)));
                    }
                    if let Some(v) = extra.iter().find_map(|x| x.strip_prefix("ensures=")) {
                        let (tb, ea, eb, end) = (range(&*s.ty).1, range(&*s.expr).0, range(&*s.expr).1, range(s).1);
                        e.rep(tb, ea, &format!(" ensures {v} {{ "));
                        e.rep(eb, end, " }");
                        return Ok(format!("pub exec {}", e.apply(range(&s.const_token).0, end)));
                    }
                    (range(&s.const_token).0, range(s).1)
                }
                ("type", syn::Item::Type(s)) if s.ident == name => {
                    e.visit_type(&s.ty);
                    (range(&s.type_token).0, range(s).1)
                }
                _ => continue,
            };
            return Ok(format!("{derive}pub {}", e.apply(a, b)));
        }
        Err(format!("no {kind} {name}"))
    }
    pub fn function(&self, path: &str, ov: &Overlay, paths: &Paths) -> Result<Rendered, String> {
        let f = self.find(path).ok_or_else(|| format!("no function {path}"))?;
        let _ = f.attrs;
        let ext = ov.opts.contains_key("extern");
        let mut e = Edits::new(self, paths);
        for p in &f.sig.inputs {
            if let syn::FnArg::Typed(t) = p {
                if let (syn::Pat::Ident(i), syn::Type::Reference(r)) = (&*t.pat, &*t.ty) {
                    if r.mutability.is_some() && matches!(&*r.elem, syn::Type::Slice(_)) {
                        e.mut_params.push(i.ident.to_string());
                    }
                }
            }
        }
        if let Some(name) = ov.opts.get("byref") {
            for p in &f.sig.inputs {
                if let syn::FnArg::Typed(t) = p {
                    if let syn::Pat::Ident(i) = &*t.pat {
                        if i.ident == name.as_str() && !matches!(&*t.ty, syn::Type::Reference(_)) {
                            let (a, b) = range(&*t.pat);
                            e.rep(a, b, name);
                            let (a, _) = range(&*t.ty);
                            e.ins(a, "&mut ");
                            e.byref = Some(name.clone());
                            e.note("by-value reader `mut src: R`, used as `&mut src` only => `src: &mut R`");
                        }
                    }
                }
            }
        }
        e.visit_signature(f.sig);
        self.ret(f.sig, &mut e);
        if let Some(a) = &f.sig.asyncness {
            let (x, y) = range(a);
            e.rep(x, y, "");
            e.note("async removed");
        }
        let (start, _) = range(f.sig);
        let (bo, be) = range(f.block);
        let drop = ov.opts.contains_key("drop");
        let inherent = ov.opts.contains_key("inherent");
        let trait_impl = f.imp.is_some_and(|i| i.trait_.is_some()) && !drop && !inherent;
        if drop {
            let (a, b) = range(&f.sig.ident);
            e.rep(a, b, "drop_elab");
            e.note("Drop::drop => inherent method drop_elab, called where the value goes out of scope");
        }
        if !ov.spec.trim().is_empty() {
            e.ins(bo, &format!("\n{}", ov.spec));
        }
        if ext {
            e.rep(bo, be, "{ unimplemented!() }");
        } else {
            let rt = match &f.sig.output {
                syn::ReturnType::Type(_, ty) if !matches!(**ty, syn::Type::ImplTrait(_)) => {
                    let mut te = Edits::new(self, paths);
                    te.visit_type(ty);
                    let (a, b) = range(&**ty);
                    format!(": {}", te.apply(a, b))
                }
                _ => String::new(),
            };
            self.body(f.block, ov, &mut e, bo, be, &rt)?;
        }
        let (loops, calls) = {
            let mut c: Vec<String> = e.calls.clone();
            c.sort();
            c.dedup();
            (e.loops.iter().map(|l| l.2.clone()).collect(), c)
        };
        if inherent {
            e.note("method of a trait => inherent method");
        }
        let rewrites = e.rewrites.clone();
        let hoisted = e.hoisted.clone();
        let mut text = e.apply(start, be);
        if let (true, Some(imp)) = (inherent, f.imp) {
            for it in &imp.items {
                if let syn::ImplItem::Type(t) = it {
                    let (a, b) = range(&t.ty);
                    text = text.replace(&format!("Self::{}", t.ident), &self.text[a..b]);
                }
            }
        }
        let mut out = String::new();
        for h in &hoisted {
            if f.imp.is_some() {
                return Err("unsupported: type alias inside a method".into());
            }
            out.push_str(h);
            out.push('\n');
        }
        let bare = ov.opts.contains_key("bare");
        if let (Some(imp), false) = (f.imp, bare) {
            out.push_str(&self.header(imp, drop || inherent, paths));
            out.push_str(" {\n");
        }
        if ext {
            out.push_str("#[verifier::external_body]\n");
        }
        out.push_str(&ov.attrs);
        if !trait_impl {
            out.push_str("pub ");
        }
        out.push_str(&text);
        if f.imp.is_some() && !bare {
            out.push_str("\n}");
        }
        Ok(Rendered { text: out, line: f.sig.span().start().line, loops, calls, rewrites })
    }
    fn body(&self, block: &syn::Block, ov: &Overlay, e: &mut Edits, bo: usize, be: usize, rt: &str) -> Result<(), String> {
        e.visit_block(block);
        if let Some(u) = e.unsupported.first() {
            if ov.substs.is_empty() {
                return Err(format!("unsupported: {u}"));
            }
        }
        let mut tl = vec![];
        let ts: TokenStream = self.text[bo..be].parse().map_err(|e| format!("{e}"))?;
        flat(ts, &mut tl);
        // proc_macro2's fallback spans are relative to a source map: find the offset of this parse.
        let base = tl[0].a;
        for t in &mut tl {
            t.a = t.a - base + bo;
            t.b = t.b - base + bo;
        }
        for (from, to) in &ov.substs {
            let want = toks(from)?;
            let mut hits = 0;
            let mut i = 0;
            while i + want.len() <= tl.len() {
                if (0..want.len()).all(|k| tl[i + k].s == want[k]) {
                    e.rep(tl[i].a, tl[i + want.len() - 1].b, to);
                    hits += 1;
                    i += want.len();
                } else {
                    i += 1;
                }
            }
            if hits == 0 {
                return Err(format!("substitution anchor `{from}` not found"));
            }
            e.note(&format!("manual: `{from}` => `{to}`"));
        }
        let stmt_at = |e: &Edits, pat: &str, n: usize| -> Result<(usize, usize), String> {
            let want = toks(pat)?;
            let mut seen = 0;
            for (a, b) in &e.stmts {
                let Some(k) = tl.iter().position(|t| t.a == *a) else { continue };
                if k + want.len() <= tl.len() && (0..want.len()).all(|j| tl[k + j].s == want[j]) {
                    seen += 1;
                    if seen == n {
                        return Ok((*a, *b));
                    }
                }
            }
            Err(format!("anchor `{pat}` #{n} not found"))
        };
        let lp = |e: &Edits, n: usize| -> Result<((usize, usize), (usize, usize, usize)), String> {
            let l = e.loops.get(n.wrapping_sub(1)).ok_or_else(|| format!("no loop {n}"))?;
            Ok(((l.0, l.1), e.bodies[n - 1]))
        };
        let tail = block.stmts.last().and_then(|s| match s {
            syn::Stmt::Expr(x, None) if cfg_on(expr_attrs(x), &self.features) => Some(range(x)),
            syn::Stmt::Macro(m) if m.semi_token.is_none() => Some(range(m)),
            _ => None,
        });
        if ov.opts.contains_key("vacuity") {
            e.ins(bo + 1, "\nproof { assert(false); } // vacuity-probe\n");
            for (_, a, _) in e.bodies.clone() {
                e.ins(a, "\nproof { assert(false); } // vacuity-probe\n");
            }
        }
        for (a, text) in &ov.inserts {
            let t = format!("\n{text}");
            match a {
                Anchor::Begin => e.ins(bo + 1, &t),
                Anchor::Tail => e.ins_at(tail.map_or(be - 1, |x| x.0), -11, &t),
                Anchor::RetBind => match tail {
                    Some((a, b)) => {
                        e.ins_at(a, -10, &format!("let ret__{rt} = "));
                        e.ins_at(b, 10, &format!(";{t} ret__"));
                    }
                    None => e.ins(be - 1, &t),
                },
                Anchor::LoopInv(n) => { let p = lp(e, *n)?.1 .0; e.ins(p, &t) }
                Anchor::LoopBegin(n) => { let p = lp(e, *n)?.1 .1; e.ins(p, &t) }
                Anchor::LoopHead(n) => { let p = lp(e, *n)?.1 .1; e.ins_at(p, -30, &t) }
                Anchor::LoopEnd(n) => { let p = lp(e, *n)?.1 .2; e.ins(p, &t) }
                Anchor::BeforeLoop(n) => { let p = lp(e, *n)?.0 .0; e.ins_at(p, -2, &t) }
                Anchor::AfterLoop(n) => {
                    lp(e, *n)?;
                    let p = if e.loops[n - 1].2 == "map" { e.bodies[n - 1].2 + 1 } else { e.loops[n - 1].1 };
                    e.ins(p, &t)
                }
                Anchor::AfterLet(name, n) => {
                    let p = e.lets.iter().filter(|l| l.2.contains(name)).nth(n - 1).ok_or_else(|| format!("no let {name} #{n}"))?.1;
                    e.ins(p, &t)
                }
                Anchor::Before(p, n) => { let p = stmt_at(e, p, *n)?.0; e.ins_at(p, -11, &t) }
                Anchor::After(p, n) => { let p = stmt_at(e, p, *n)?.1; e.ins_at(p, 11, &t) }
            }
        }
        Ok(())
    }
}
