//! Mechanical extraction of functions from /repo for the Verus layer.
//!
//! usage: extract JOBFILE      (line based, see `main`)
//! Every rewrite below is a local, semantics-preserving desugaring (documented in DESIGN.md):
//!   R1 `for` over ranges, slices, zips, enumerations, reversals -> `while` with an index
//!   R2 iterator chains ending in collect/product/sum/any/all/position/count -> `while`
//!   R3 `unsafe {}` -> plain block; attributes and doc comments dropped
//!   R4 assert!/assert_eq!/debug_assert!/panic!/unreachable! -> call of `vx_panic()` guarded by the negated condition
//!   R5 `vec![x; n]` -> `vx_vec(x, n)`; `&s[a..b]` -> `vx_sub(&s, a, b)`; `a |= b` on flags -> `a = a.vx_or(b)`
//!   R6 ghost memory argument appended to the functions named in the job
//!   R7 raw pointer types and casts between them -> the prelude's pointer type
//!   R8 Arc::get_mut(..).expect(..) -> vx_arc_mut; copy_nonoverlapping -> vx_copy_to
//!   R9 (flag ptrs) reads and writes through raw pointers -> vx_read/vx_write on the ghost memory; slices made from raw
//!      parts -> vx_slice (values now in memory) / vx_slice_mut + vx_store after the call that fills them; size_of -> vx_size_of
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{quote, ToTokens, format_ident};
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
enum Item_ { Tuple(Vec<Item_>), Ref(TokenStream), Val(TokenStream) }
impl Item_ {
    fn tokens(&self) -> TokenStream {
        match self {
            Item_::Tuple(v) => { let t: Vec<_> = v.iter().map(|x| x.tokens()).collect(); quote!{ ( #(#t),* ) } }
            Item_::Ref(p) => quote!{ & #p },
            Item_::Val(p) => quote!{ #p },
        }
    }
}

/// bind pattern to item; `amp`: the item is seen through one extra reference (filter closures)
fn bind(pat: &Pat, item: &Item_, amp: bool, out: &mut Vec<TokenStream>) -> std::result::Result<(), String> {
    match pat {
        Pat::Wild(_) => Ok(()),
        Pat::Paren(p) => bind(&p.pat, item, amp, out),
        Pat::Type(p) => bind(&p.pat, item, amp, out),
        Pat::Tuple(t) => match item {
            Item_::Tuple(v) if v.len() == t.elems.len() => {
                for (p, i) in t.elems.iter().zip(v) { bind(p, i, amp, out)?; }
                Ok(())
            }
            Item_::Ref(p) => {
                // reference to a tuple: components by reference
                for (k, q) in t.elems.iter().enumerate() {
                    let ix = Index::from(k);
                    bind(q, &Item_::Ref(quote!{ #p . #ix }), false, out)?;
                }
                Ok(())
            }
            _ => { let e = item.tokens(); out.push(quote!{ let #t = #e ; }); Ok(()) }
        },
        Pat::Reference(r) => {
            if amp {
                // &x against &item : x = item
                match item {
                    Item_::Ref(p) if matches!(&*r.pat, Pat::Ident(_)) => { let q = &r.pat; out.push(quote!{ let #q = #p ; }); Ok(()) }
                    _ => bind(&r.pat, item, false, out),
                }
            } else {
                match item {
                    Item_::Ref(p) => bind(&r.pat, &Item_::Val(p.clone()), false, out),
                    Item_::Val(p) => bind(&r.pat, &Item_::Val(quote!{ * #p }), false, out),
                    Item_::Tuple(_) => Err("reference pattern on tuple".into()),
                }
            }
        }
        Pat::Ident(_) => {
            let e = item.tokens();
            if amp { out.push(quote!{ let #pat = & #e ; }) } else { out.push(quote!{ let #pat = #e ; }) }
            Ok(())
        }
        _ => Err(format!("pattern {}", pat.to_token_stream())),
    }
}

struct Ra { setup: Vec<TokenStream>, len: TokenStream, kind: RaKind }
enum RaKind {
    Slice(TokenStream), Range(TokenStream), Zip(Box<Ra>, Box<Ra>), Enum(Box<Ra>), Rev(Box<Ra>, TokenStream), Copied(Box<Ra>),
    Map(Box<Ra>, Pat, Expr), Skip(Box<Ra>, TokenStream), Take(Box<Ra>), StepBy(Box<Ra>, TokenStream),
    Offs(syn::Ident, syn::Ident),
}
/// the iterator with a verified `next` a chain draws from
fn offs_of(k: &RaKind) -> Option<(syn::Ident, syn::Ident)> { match k { RaKind::Offs(i, o) => Some((i.clone(), o.clone())), RaKind::Enum(x) | RaKind::Map(x, _, _) => offs_of(&x.kind), _ => None } }
fn range_only(k: &RaKind) -> bool { match k { RaKind::Range(_) => true, RaKind::Map(x, _, _) | RaKind::Rev(x, _) => range_only(&x.kind), _ => false } }
impl Ra {
    fn item(&self, k: &TokenStream, pre: &mut Vec<TokenStream>, n: &mut usize) -> std::result::Result<Item_, String> {
        Ok(match &self.kind {
            RaKind::Slice(s) => Item_::Ref(quote!{ #s [ #k ] }),
            RaKind::Range(a) => Item_::Val(if a.to_string() == "0" { quote!{ #k } } else { quote!{ ( #a + #k ) } }),
            RaKind::Zip(x, y) => Item_::Tuple(vec![x.item(k, pre, n)?, y.item(k, pre, n)?]),
            RaKind::Enum(x) => Item_::Tuple(vec![Item_::Val(k.clone()), x.item(k, pre, n)?]),
            RaKind::Rev(x, l) => x.item(&quote!{ (#l - 1 - #k) }, pre, n)?,
            RaKind::Skip(x, s) => x.item(&quote!{ (#k + #s) }, pre, n)?,
            RaKind::StepBy(x, s) => x.item(&quote!{ (#k * #s) }, pre, n)?,
            RaKind::Take(x) => x.item(k, pre, n)?,
            RaKind::Offs(_, o) => Item_::Val(quote!{ #o . unwrap () }),
            RaKind::Copied(x) => match x.item(k, pre, n)? { Item_::Ref(p) => Item_::Val(p), Item_::Val(p) => Item_::Val(quote!{ * #p }), t => t },
            RaKind::Map(x, pat, body) => {
                let it = x.item(k, pre, n)?;
                let mut b = vec![];
                bind(pat, &it, false, &mut b)?;
                let m = format_ident!("__m{}", *n); *n += 1;
                pre.push(quote!{ let #m = { #(#b)* #body } ; });
                Item_::Val(quote!{ #m })
            }
        })
    }
}

struct Tr { next: usize, tmp: usize, errs: Vec<String>, mem: Vec<String>, flags: HashMap<String, String>, rename: HashMap<String, String>, refs: Vec<String>, ptrs: bool, ptrvars: Vec<String>, mslices: Vec<String> }
/// A.iter_offsets() / A.axis_offsets(k), or a zip of such: (iterator, item) names with the expression, and the item tree
fn offs_leaves(e: &Expr, id: usize) -> Option<(Vec<(syn::Ident, syn::Ident, Expr)>, Item_)> {
    fn go(e: &Expr, id: usize, out: &mut Vec<(syn::Ident, syn::Ident, Expr)>) -> Option<Item_> {
        match strip_paren(e) {
            Expr::MethodCall(m) if m.method == "iter_offsets" || m.method == "axis_offsets" => {
                let n = out.len(); let sfx = if n == 0 { String::new() } else { format!("_{}", n) };
                let (i, o) = (format_ident!("__it{}{}", id, sfx), format_ident!("__o{}{}", id, sfx));
                out.push((i, o.clone(), strip_paren(e).clone()));
                Some(Item_::Val(quote!{ #o . unwrap () }))
            }
            Expr::MethodCall(m) if m.method == "zip" && m.args.len() == 1 => {
                let a = go(&m.receiver, id, out)?; let b = go(&m.args[0], id, out)?;
                Some(Item_::Tuple(vec![a, b]))
            }
            _ => None,
        }
    }
    let mut v = vec![]; let t = go(e, id, &mut v)?; Some((v, t))
}


fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(p) => strip_paren(&p.expr), _ => e } }
fn is_place(e: &Expr) -> bool {
    match strip_paren(e) { Expr::Path(_) => true, Expr::Field(f) => is_place(&f.base), _ => false }
}

/// last segment of a called path
fn callee(e: &Expr) -> Option<(String, &ExprCall)> {
    match strip_block(e) { Expr::Call(c) => if let Expr::Path(p) = &*c.func { p.path.segments.last().map(|x| (x.ident.to_string(), c)) } else { None }, _ => None }
}
/// `unsafe { e }` and `(e)` -> e
fn strip_block(e: &Expr) -> &Expr {
    match strip_paren(e) {
        Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] { Stmt::Expr(x, None) => strip_block(x), _ => e },
        Expr::Block(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] { Stmt::Expr(x, None) => strip_block(x), _ => e },
        x => x,
    }
}
impl Tr {
    fn is_ptr(&self, e: &Expr) -> bool {
        match strip_block(e) {
            Expr::Path(p) => p.path.get_ident().map(|i| self.ptrvars.contains(&i.to_string())).unwrap_or(false),
            Expr::Cast(c) => matches!(&*c.ty, Type::Ptr(_)),
            Expr::MethodCall(m) => { let n = m.method.to_string();
                n == "data_ptr" || n == "data_ptr_mut" || n == "as_mut_ptr" || n == "as_ptr" || (["byte_offset", "add", "offset", "sub", "byte_add"].contains(&n.as_str()) && self.is_ptr(&m.receiver)) }
            _ => false,
        }
    }
    fn ra(&mut self, e: &Expr, id: usize) -> Option<Ra> {
        match strip_paren(e) {
            Expr::Range(r) => {
                let a = r.start.as_ref()?; let b = r.end.as_ref()?;
                let (sa, sb) = (format_ident!("__a{}", self.tmp), format_ident!("__b{}", self.tmp)); self.tmp += 1;
                let zero = matches!(&**a, Expr::Lit(l) if l.to_token_stream().to_string() == "0");
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                let at = if zero { quote!{ 0 } } else { quote!{ #sa } };
                let mut setup = vec![];
                if !zero { setup.push(quote!{ let #sa = #a ; }); }
                setup.push(quote!{ let #sb = #b ; });
                let len = if incl { quote!{ vx_len_incl(#at, #sb) } } else if zero { quote!{ #sb } } else { quote!{ vx_len(#at, #sb) } };
                let ln = format_ident!("__l{}", self.tmp); self.tmp += 1;
                setup.push(quote!{ let #ln = #len ; });
                Some(Ra { setup, len: quote!{ #ln }, kind: RaKind::Range(at) })
            }
            Expr::Reference(r) => {
                if let Expr::Index(_) = strip_paren(&r.expr) { return self.slice(&Expr::Reference(r.clone())); }
                self.slice(&r.expr)
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("iter", 0) => self.slice(&m.receiver),
                    ("iter_offsets", 0) | ("axis_offsets", 1) => {
                        let (i, o) = (format_ident!("__it{}", id), format_ident!("__o{}", id));
                        let mut x = strip_paren(e).clone();
                        visit_mut::visit_expr_mut(self, &mut x);
                        Some(Ra { setup: vec![quote!{ let mut #i = #x ; }], len: quote!{ vx_none }, kind: RaKind::Offs(i, o) })
                    }
                    ("into_iter", 0) => { let x = self.slice(&m.receiver)?; let len = x.len.clone(); Some(Ra { setup: vec![], len, kind: RaKind::Copied(Box::new(x)) }.hoist()) }
                    ("chars", 0) | ("bytes", 0) => None,
                    ("enumerate", 0) => { let x = self.ra(&m.receiver, id)?; let len = x.len.clone(); Some(Ra { setup: vec![], len, kind: RaKind::Enum(Box::new(x)) }.hoist()) }
                    ("copied", 0) | ("cloned", 0) => { let x = self.ra(&m.receiver, id)?; let len = x.len.clone(); Some(Ra { setup: vec![], len, kind: RaKind::Copied(Box::new(x)) }.hoist()) }
                    ("rev", 0) => {
                        let x = self.ra(&m.receiver, id)?;
                        let l = format_ident!("__l{}", self.tmp); self.tmp += 1;
                        let len = x.len.clone();
                        let mut r = Ra { setup: vec![], len: quote!{ #l }, kind: RaKind::Rev(Box::new(x), quote!{ #l }) }.hoist();
                        r.setup.push(quote!{ let #l = #len ; });
                        Some(r)
                    }
                    ("zip", 1) => {
                        let x = self.ra(&m.receiver, id)?; let y = self.ra_or_slice(&m.args[0], id)?;
                        let l = format_ident!("__l{}", self.tmp); self.tmp += 1;
                        let (lx, ly) = (x.len.clone(), y.len.clone());
                        let mut r = Ra { setup: vec![], len: quote!{ #l }, kind: RaKind::Zip(Box::new(x), Box::new(y)) }.hoist();
                        r.setup.push(quote!{ let #l = if #lx < #ly { #lx } else { #ly } ; });
                        Some(r)
                    }
                    ("skip", 1) => {
                        let x = self.ra(&m.receiver, id)?; let a = &m.args[0];
                        let (l, s) = (format_ident!("__l{}", self.tmp), format_ident!("__a{}", self.tmp)); self.tmp += 1;
                        let lx = x.len.clone();
                        let mut r = Ra { setup: vec![], len: quote!{ #l }, kind: RaKind::Skip(Box::new(x), quote!{ #s }) }.hoist();
                        r.setup.push(quote!{ let #s = #a ; let #l = if #lx > #s { #lx - #s } else { 0 } ; });
                        Some(r)
                    }
                    ("take", 1) => {
                        let x = self.ra(&m.receiver, id)?; let a = &m.args[0];
                        let (l, s) = (format_ident!("__l{}", self.tmp), format_ident!("__a{}", self.tmp)); self.tmp += 1;
                        let lx = x.len.clone();
                        let mut r = Ra { setup: vec![], len: quote!{ #l }, kind: RaKind::Take(Box::new(x)) }.hoist();
                        r.setup.push(quote!{ let #s = #a ; let #l = if #lx < #s { #lx } else { #s } ; });
                        Some(r)
                    }
                    ("step_by", 1) => {
                        let x = self.ra(&m.receiver, id)?; let a = &m.args[0];
                        let (l, s) = (format_ident!("__l{}", self.tmp), format_ident!("__a{}", self.tmp)); self.tmp += 1;
                        let lx = x.len.clone();
                        let mut r = Ra { setup: vec![], len: quote!{ #l }, kind: RaKind::StepBy(Box::new(x), quote!{ #s }) }.hoist();
                        r.setup.push(quote!{ let #s = #a ; let #l = if #lx == 0 { 0 } else { (#lx - 1) / #s + 1 } ; });
                        Some(r)
                    }
                    ("map", 1) => {
                        let x = self.ra(&m.receiver, id)?;
                        if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                            if c.inputs.len() != 1 { return None; }
                            let mut body = (*c.body).clone();
                            self.visit_expr_mut(&mut body);
                            let len = x.len.clone();
                            Some(Ra { setup: vec![], len, kind: RaKind::Map(Box::new(x), c.inputs[0].clone(), body) }.hoist())
                        } else { None }
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn ra_or_slice(&mut self, e: &Expr, id: usize) -> Option<Ra> {
        if let Some(r) = self.ra(e, id) { return Some(r); }
        match strip_paren(e) {
            Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) => self.slice(e),
            _ => None,
        }
    }
    fn slice(&mut self, e: &Expr) -> Option<Ra> {
        let mut e = e.clone();
        if is_place(&e) {
            let p = strip_paren(&e);
            return Some(Ra { setup: vec![], len: quote!{ #p . len () }, kind: RaKind::Slice(quote!{ #p }) });
        }
        self.visit_expr_mut(&mut e);
        // iterating a subslice `&x[a..b]` or a getter call
        let s = format_ident!("__s{}", self.tmp); self.tmp += 1;
        Some(Ra { setup: vec![quote!{ let #s = #e ; }], len: quote!{ #s . len () }, kind: RaKind::Slice(quote!{ #s }) })
    }

    /// chain with optional trailing filters; returns (ra, filters)
    fn chain(&mut self, e: &Expr, id: usize) -> Option<(Ra, Vec<(Pat, Expr)>, Vec<(Pat, Expr, bool)>)> {
        // outermost adapters first: map* (after filter), filter*
        if let Expr::MethodCall(m) = strip_paren(e) {
            let nm = m.method.to_string();
            if nm == "filter" && m.args.len() == 1 {
                if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                    let (ra, mut f, maps) = self.chain(&m.receiver, id)?;
                    if !maps.is_empty() { return None; }
                    let mut body = (*c.body).clone();
                    self.visit_expr_mut(&mut body);
                    f.push((c.inputs[0].clone(), body));
                    return Some((ra, f, maps));
                }
                return None;
            }
            if nm == "map" && m.args.len() == 1 {
                if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                    if has_filter(&m.receiver) {
                        let (ra, f, mut maps) = self.chain(&m.receiver, id)?;
                        let mut body = (*c.body).clone();
                        self.visit_expr_mut(&mut body);
                        maps.push((c.inputs[0].clone(), body, false));
                        return Some((ra, f, maps));
                    }
                }
            }
            if nm == "filter_map" && m.args.len() == 1 {
                if let Expr::Closure(c) = strip_paren(&m.args[0]) {
                    let (ra, f, mut maps) = self.chain(&m.receiver, id)?;
                    let mut body = (*c.body).clone();
                    self.visit_expr_mut(&mut body);
                    maps.push((c.inputs[0].clone(), body, true));
                    return Some((ra, f, maps));
                }
                return None;
            }
            if (nm == "copied" || nm == "cloned") && has_filter(&m.receiver) {
                let (ra, f, maps) = self.chain(&m.receiver, id)?;
                let len = ra.len.clone();
                return Some((Ra { setup: vec![], len, kind: RaKind::Copied(Box::new(ra)) }.hoist(), f, maps));
            }
        }
        let ra = self.ra(e, id)?;
        Some((ra, vec![], vec![]))
    }

    fn new_id(&mut self) -> usize { let i = self.next; self.next += 1; i }

    /// build `setup; let mut k = 0; while k < len { item bindings; BODY }` ; BODY made from the item
    fn looped(&mut self, id: usize, e: &Expr, init: TokenStream, fin: TokenStream,
              body: impl FnOnce(&mut Tr, Item_) -> std::result::Result<TokenStream, String>) -> Option<Expr> {
        let (ra, filters, maps) = self.chain(e, id)?;
        let k = format_ident!("__i{}", id);
        let kt = quote!{ #k };
        let mut pre = vec![];
        let mut n = self.tmp; 
        let item = match ra.item(&quote!{ (#k - 1) }, &mut pre, &mut n) { Ok(i) => i, Err(x) => { self.errs.push(x); return None } };
        self.tmp = n;
        let mut fl = vec![];
        let mut cur = item.clone();
        for (p, c) in &filters {
            let mut b = vec![];
            let through = if let (RaKind::Copied(_), Item_::Val(v)) = (&ra.kind, &cur) { Item_::Val(v.clone()) } else { cur.clone() };
            if let Err(x) = bind(p, &through, true, &mut b) { self.errs.push(x); return None }
            fl.push(quote!{ let __keep = { #(#b)* #c } ; if !__keep { continue ; } });
        }
        for (p, c, opt) in &maps {
            let mut b = vec![];
            if let Err(x) = bind(p, &cur, false, &mut b) { self.errs.push(x); return None }
            let m = format_ident!("__m{}", self.tmp); self.tmp += 1;
            fl.push(if *opt { quote!{ let #m = match { #(#b)* #c } { Some(__x) => __x , None => { continue ; } } ; } } else { quote!{ let #m = { #(#b)* #c } ; } });
            cur = Item_::Val(quote!{ #m });
        }
        let setup = &ra.setup; let len = &ra.len;
        let bd = match body(self, cur) { Ok(b) => b, Err(x) => { self.errs.push(x); return None } };
        let (mb, ml, me, ma) = markers(id);
        // an index over a range has the range's own type
        let kty = if range_only(&ra.kind) { quote!{} } else { quote!{ : usize } };
        let ts = if let Some((it, o)) = offs_of(&ra.kind) { quote!{ {
            #(#setup)* #init let mut #k : usize = 0 ;
            #mb
            loop { #ml let #o = #it . next () ; if #o . is_none () { break ; } #k = #k + 1 ; #(#pre)* #(#fl)* #bd #me }
            #ma
            #fin
        } } } else { quote!{ {
            #(#setup)* #init let mut #k #kty = 0 ;
            #mb
            while #kt < #len { #ml #k = #k + 1 ; #(#pre)* #(#fl)* #bd #me }
            #ma
            #fin
        } } };
        match syn::parse2::<Expr>(ts.clone()) { Ok(e) => Some(e), Err(x) => { self.errs.push(format!("{} in {}", x, ts)); None } }
    }
}
fn has_filter(e: &Expr) -> bool {
    match strip_paren(e) { Expr::MethodCall(m) => m.method == "filter" || m.method == "filter_map" || has_filter(&m.receiver), _ => false }
}
impl Ra { fn hoist(mut self) -> Ra {
    let mut s = vec![];
    match &mut self.kind {
        RaKind::Zip(x, y) => { s.append(&mut x.setup); s.append(&mut y.setup); }
        RaKind::Enum(x) | RaKind::Rev(x, _) | RaKind::Copied(x) | RaKind::Map(x, _, _) | RaKind::Skip(x, _) | RaKind::Take(x) | RaKind::StepBy(x, _) => s.append(&mut x.setup),
        _ => {}
    }
    s.append(&mut self.setup); self.setup = s; self
} }

fn markers(id: usize) -> (TokenStream, TokenStream, TokenStream, TokenStream) {
    let i = proc_macro2::Literal::usize_unsuffixed(id);
    (quote!{ __vx_before!(#i); }, quote!{ __vx_loop!(#i); }, quote!{ __vx_end!(#i); }, quote!{ __vx_after!(#i); })
}

fn lit_one(e: &Expr) -> bool { e.to_token_stream().to_string() == "()" }

impl VisitMut for Tr {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // attributes on expressions are dropped
        match e {
            Expr::ForLoop(f) => {
                let id = self.new_id();
                let pat = (*f.pat).clone();
                let iter = (*f.expr).clone();
                let label = f.label.clone();
                if label.is_some() { self.errs.push("labelled loop".into()); return; }
                let mut body = f.body.clone();
                let (mb, ml, me, ma) = markers(id);
                // plain ranges keep their natural counter
                let it = strip_paren(&iter).clone();
                let (range, rev) = match &it {
                    Expr::Range(r) => (Some(r.clone()), false),
                    Expr::MethodCall(m) if m.method == "rev" => match strip_paren(&m.receiver) { Expr::Range(r) => (Some(r.clone()), true), _ => (None, false) },
                    _ => (None, false),
                };
                if let Some(r) = range {
                    if let (Some(a), Some(b)) = (r.start.clone(), r.end.clone()) {
                        let (mut a, mut b) = (*a, *b);
                        self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b);
                        self.visit_block_mut(&mut body);
                        let stmts = &body.stmts;
                        let (k, en) = (format_ident!("__i{}", id), format_ident!("__e{}", id));
                        let incl = matches!(r.limits, RangeLimits::Closed(_));
                        let bind = if let Pat::Wild(_) = pat { quote!{} } else { quote!{ let #pat = #k ; } };
                        let ts = if !rev && !incl {
                            quote!{ { let #en = #b ; let mut #k = #a ; #mb while #k < #en { #ml #bind #k = #k + 1 ; #(#stmts)* #me } #ma } }
                        } else if !rev {
                            // inclusive: counts b - a + 1 values without forming b + 1
                            let dn = format_ident!("__done{}", id);
                            quote!{ { let #en = #b ; let mut #k = #a ; let mut #dn = #k > #en ; #mb while !#dn { #ml #bind if #k == #en { #dn = true ; } else { #k = #k + 1 ; } #(#stmts)* #me } #ma } }
                        } else if !incl {
                            quote!{ { let #en = #a ; let mut #k = #b ; #mb while #k > #en { #ml #k = #k - 1 ; #bind #(#stmts)* #me } #ma } }
                        } else {
                            self.errs.push("inclusive reversed range".into()); quote!{ {} }
                        };
                        match syn::parse2(ts) { Ok(x) => *e = x, Err(x) => self.errs.push(x.to_string()) }
                        return;
                    }
                }
                // iterators with a verified `next`: EXPR[.enumerate()]
                let (base, en) = match &it {
                    Expr::MethodCall(m) if m.method == "enumerate" => (strip_paren(&m.receiver).clone(), true),
                    x => (x.clone(), false),
                };
                // ... and zips of them: next() of each in turn, ending with the first that ends
                if let Some((mut leaves, tree)) = offs_leaves(&base, id) {
                    for (_, _, x) in leaves.iter_mut() { self.visit_expr_mut(x); }
                    self.visit_block_mut(&mut body);
                    let stmts = &body.stmts;
                    let k = format_ident!("__i{}", id);
                    let item = if en { Item_::Tuple(vec![Item_::Val(quote!{ (#k - 1) }), tree]) } else { tree };
                    let mut bs = vec![];
                    if let Err(x) = bind(&pat, &item, false, &mut bs) { self.errs.push(x); return; }
                    let inits = leaves.iter().map(|(i, _, x)| quote!{ let mut #i = #x ; });
                    let nexts = leaves.iter().map(|(i, o, _)| quote!{ let #o = #i . next () ; if #o . is_none () { break ; } });
                    let ts = quote!{ { #(#inits)* let mut #k : usize = 0 ; #mb
                        loop { #ml #(#nexts)* #k = #k + 1 ; #(#bs)* #(#stmts)* #me } #ma } };
                    match syn::parse2(ts) { Ok(x) => *e = x, Err(x) => self.errs.push(x.to_string()) }
                    return;
                }
                let iter2 = match strip_paren(&iter) {
                    // `for x in v` by value: elements are copied out in order
                    Expr::Path(_) | Expr::Field(_) => { let v = strip_paren(&iter).clone(); syn::parse2::<Expr>(if self.refs.contains(&v.to_token_stream().to_string()) { quote!{ #v . iter () } } else { quote!{ #v . into_iter () } }).unwrap() }
                    _ => iter.clone(),
                };
                let r = self.looped(id, &iter2, quote!{}, quote!{}, |s, item| {
                    let mut b = vec![];
                    bind(&pat, &item, false, &mut b)?;
                    s.visit_block_mut(&mut body);
                    let stmts = &body.stmts;
                    Ok(quote!{ #(#b)* #(#stmts)* })
                });
                match r { Some(x) => *e = x, None => self.errs.push(format!("for loop over {}", iter.to_token_stream())) }
                return;
            }
            Expr::While(w) => {
                let id = self.new_id();
                self.visit_expr_mut(&mut w.cond);
                self.visit_block_mut(&mut w.body);
                let (mb, ml, me, ma) = markers(id);
                let (c, st) = (&w.cond, &w.body.stmts);
                let ts = quote!{ { #mb while #c { #ml #(#st)* #me } #ma } };
                match syn::parse2(ts) { Ok(x) => *e = x, Err(x) => self.errs.push(x.to_string()) }
                return;
            }
            Expr::Loop(w) => {
                let id = self.new_id();
                self.visit_block_mut(&mut w.body);
                let (mb, ml, me, _ma) = markers(id);
                let st = &w.body.stmts;
                let ts = quote!{ { #mb loop { #ml #(#st)* #me } } };
                match syn::parse2(ts) { Ok(x) => *e = x, Err(x) => self.errs.push(x.to_string()) }
                return;
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let recv = (*m.receiver).clone();
                let sinks = ["collect", "product", "sum", "any", "all", "position", "count", "fold"];
                let chainlike = |r: &Expr| -> bool { is_chain(r) };
                if sinks.contains(&name.as_str()) && chainlike(&recv) {
                    // whole-slice products have one verified helper
                    if name == "product" {
                        if let Expr::MethodCall(mm) = strip_paren(&recv) {
                            if mm.method == "iter" {
                                let mut s = (*mm.receiver).clone();
                                let place = is_place(&s);
                                self.visit_expr_mut(&mut s);
                                let ts = if place { quote!{ vx_product(& #s) } } else { quote!{ vx_product(#s) } };
                                *e = syn::parse2(ts).unwrap();
                                return;
                            }
                        }
                    }
                    let id = self.new_id();
                    let v = format_ident!("__v{}", id);
                    let arg = m.args.first().cloned();
                    let r = match name.as_str() {
                        // collect::<Option<Vec<_>>>(): the first None ends the loop
                        "collect" if m.turbofish.as_ref().map(|t| t.to_token_stream().to_string().replace(' ', "").starts_with("::<Option<Vec<")).unwrap_or(false) => {
                            let nn = format_ident!("__none{}", id);
                            self.looped(id, &recv, quote!{ let mut #v = Vec::new(); let mut #nn = false; }, quote!{ if #nn { None } else { Some(#v) } }, |_, it| { let t = it.tokens(); Ok(quote!{ match #t { Some(__x) => #v . push( __x ) , None => { #nn = true ; break ; } } }) })
                        }
                        "collect" => self.looped(id, &recv, quote!{ let mut #v = Vec::new(); }, quote!{ #v }, |_, it| { let t = it.tokens(); Ok(quote!{ #v . push( #t ) ; }) }),
                        "product" => self.looped(id, &recv, quote!{ let mut #v = 1; }, quote!{ #v }, |_, it| { let t = deref(&it); Ok(quote!{ #v = #v * #t ; }) }),
                        "sum" => self.looped(id, &recv, quote!{ let mut #v = 0; }, quote!{ #v }, |_, it| { let t = deref(&it); Ok(quote!{ #v = #v + #t ; }) }),
                        "count" => self.looped(id, &recv, quote!{ let mut #v : usize = 0; }, quote!{ #v }, |_, _| Ok(quote!{ #v = #v + 1 ; })),
                        // fold(init, |acc, x| body): the accumulator is replaced by each body's value
                        "fold" if m.args.len() == 2 => match strip_paren(&m.args[1]).clone() {
                            Expr::Closure(c) if c.inputs.len() == 2 => {
                                let (mut init, ap, pat, mut b) = (m.args[0].clone(), c.inputs[0].clone(), c.inputs[1].clone(), (*c.body).clone());
                                self.visit_expr_mut(&mut init);
                                self.looped(id, &recv, quote!{ let mut #v = #init; }, quote!{ #v }, move |s, it| {
                                    let mut bs = vec![];
                                    bind(&pat, &it, false, &mut bs)?;
                                    s.visit_expr_mut(&mut b);
                                    Ok(quote!{ let #ap = #v; #(#bs)* #v = #b ; })
                                })
                            }
                            _ => None,
                        },
                        "any" | "all" | "position" => {
                            if let Some(Expr::Closure(c)) = arg.as_ref().map(|a| strip_paren(a).clone()) {
                                let pat = c.inputs[0].clone(); let mut b = (*c.body).clone();
                                let nm = name.clone();
                                let init = match nm.as_str() { "any" => quote!{ let mut #v = false; }, "all" => quote!{ let mut #v = true; }, _ => quote!{ let mut #v : Option<usize> = None; } };
                                let k = format_ident!("__i{}", id);
                                self.looped(id, &recv, init, quote!{ #v }, move |s, it| {
                                    let mut bs = vec![];
                                    bind(&pat, &it, false, &mut bs)?;
                                    s.visit_expr_mut(&mut b);
                                    Ok(match nm.as_str() {
                                        "any" => quote!{ let __t = { #(#bs)* #b }; if __t { #v = true; break; } },
                                        "all" => quote!{ let __t = { #(#bs)* #b }; if !__t { #v = false; break; } },
                                        _ => quote!{ let __t = { #(#bs)* #b }; if __t { #v = Some(#k - 1); break; } },
                                    })
                                })
                            } else { None }
                        }
                        _ => None,
                    };
                    match r { Some(x) => *e = x, None => self.errs.push(format!("iterator chain {}", m.to_token_stream())) }
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
                if let Expr::MethodCall(m) = e {
                    let nm = m.method.to_string();
                    if ["min", "max", "abs", "unsigned_abs", "saturating_neg", "saturating_sub", "saturating_add", "rem_euclid", "div_euclid", "signum", "pow", "to_vec", "swap"].contains(&nm.as_str()) {
                        m.method = format_ident!("vx_{}", nm);
                    }
                    if nm == "then_some" && m.args.len() == 1 { let (c, a) = (m.receiver.clone(), m.args[0].clone()); let r = format_ident!("__t{}", self.tmp); self.tmp += 1;
                        *e = syn::parse2(quote!{ { let #r = #a ; if #c { Some(#r) } else { None } } }).unwrap(); return; }
                    if nm == "is_multiple_of" && m.args.len() == 1 { let (c, a) = (m.receiver.clone(), m.args[0].clone()); *e = syn::parse2(quote!{ vx_is_multiple_of(#c, #a) }).unwrap(); return; }
                    if nm == "expect" || nm == "unwrap" {
                        if let Expr::Call(c) = strip_paren(&m.receiver) { if let Expr::Path(p) = &*c.func {
                            if c.args.len() == 1 && p.path.segments.last().map(|x| x.ident == "get_mut").unwrap_or(false) && p.path.segments.iter().any(|x| x.ident == "Arc") {
                                let a = match strip_paren(&c.args[0]) { Expr::Reference(r) => { let x = &r.expr; quote!{ & #x } } x => quote!{ #x } };
                                *e = syn::parse2(quote!{ vx_arc_mut ( #a ) }).unwrap(); return;
                            }
                        } }
                    }
                    if nm == "expect" { m.method = format_ident!("unwrap"); m.args.clear(); }
                    if let Some(r) = self.rename.get(&nm) { m.method = format_ident!("{}", r); }
                    if self.mem.contains(&nm) { m.args.push(syn::parse2(quote!{ Tracked(mem) }).unwrap()); }
                }
                return;
            }
            Expr::Call(c) => {
                visit_mut::visit_expr_call_mut(self, c);
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let last = segs.last().cloned().unwrap_or_default();
                    let two = if segs.len() >= 2 { format!("{}::{}", segs[segs.len() - 2], last) } else { String::new() };
                    if self.ptrs && last == "from_raw_parts" && c.args.len() == 2 { let (a, b) = (&c.args[0], &c.args[1]); *e = syn::parse2(quote!{ vx_slice ( #a, #b, Tracked(mem) ) }).unwrap(); return; }
                    if self.ptrs && last == "from_raw_parts_mut" && c.args.len() == 2 { let (a, b) = (&c.args[0], &c.args[1]); *e = syn::parse2(quote!{ vx_slice_mut ( #a, #b, Tracked(mem) ) }).unwrap(); return; }
                    if last == "size_of" && c.args.is_empty() { let g = &p.path.segments.last().unwrap().arguments; *e = syn::parse2(quote!{ vx_size_of #g () }).unwrap(); return; }
                    if last == "copy_nonoverlapping" && c.args.len() == 3 {
                        let (a, b, n) = (&c.args[0], &c.args[1], &c.args[2]);
                        *e = syn::parse2(quote!{ ( #a ) . vx_copy_to ( #b, #n, Tracked(mem) ) }).unwrap(); return;
                    }
                    // module prefixes of functions are dropped: the verified text is one module
                    if segs.len() >= 2 && segs[..segs.len() - 1].iter().all(|x| x.chars().next().map(|c| c.is_lowercase()).unwrap_or(false)) && self.flags.contains_key("ptrs") {
                        let l = p.path.segments.last().unwrap().clone();
                        c.func = Box::new(syn::parse2(quote!{ #l }).unwrap());
                    }
                    if self.mem.contains(&last) || self.mem.contains(&two) { c.args.push(syn::parse2(quote!{ Tracked(mem) }).unwrap()); }
                }
                return;
            }
            Expr::Unary(u) if self.ptrs && matches!(u.op, UnOp::Deref(_)) && self.is_ptr(&u.expr) => {
                let mut x = (*u.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = syn::parse2(quote!{ ( #x ) . vx_read ( Tracked(mem) ) }).unwrap();
                return;
            }
            Expr::Assign(a) if self.ptrs && matches!(strip_paren(&a.left), Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is_ptr(&u.expr)) => {
                let mut x = if let Expr::Unary(u) = strip_paren(&a.left) { (*u.expr).clone() } else { unreachable!() };
                let mut v = (*a.right).clone();
                self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut v);
                // Rust evaluates the assigned value before the place
                let t = format_ident!("__w{}", self.tmp); self.tmp += 1;
                *e = syn::parse2(quote!{ { let #t = #v ; ( #x ) . vx_write ( #t , Tracked(mem) ) ; } }).unwrap();
                return;
            }
            Expr::Unsafe(u) => {
                let mut b = u.block.clone();
                self.visit_block_mut(&mut b);
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
                return;
            }
            Expr::Binary(b) => {
                if let BinOp::BitOrAssign(_) = b.op {
                    if self.flags.contains_key("or_assign") {
                        let (l, r) = (b.left.clone(), b.right.clone());
                        *e = syn::parse2(quote!{ #l = #l . vx_or ( #r ) }).unwrap();
                        return;
                    }
                }
                if self.ptrs { if let Expr::Unary(u) = strip_paren(&b.left) { if matches!(u.op, UnOp::Deref(_)) && self.is_ptr(&u.expr) {
                    let op: Option<TokenStream> = match b.op { BinOp::AddAssign(_) => Some(quote!{+}), BinOp::SubAssign(_) => Some(quote!{-}), BinOp::MulAssign(_) => Some(quote!{*}), _ => None };
                    if let Some(op) = op {
                        let (mut x, mut v) = ((*u.expr).clone(), (*b.right).clone());
                        self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut v);
                        *e = syn::parse2(quote!{ ( #x ) . vx_write ( ( #x ) . vx_read ( Tracked(mem) ) #op ( #v ) , Tracked(mem) ) }).unwrap();
                        return;
                    }
                } } }
                let op: Option<TokenStream> = match b.op { BinOp::AddAssign(_) => Some(quote!{+}), BinOp::SubAssign(_) => Some(quote!{-}), BinOp::MulAssign(_) => Some(quote!{*}),
                    BinOp::DivAssign(_) => Some(quote!{/}), BinOp::RemAssign(_) => Some(quote!{%}), _ => None };
                visit_mut::visit_expr_binary_mut(self, b);
                // slices of dimensions are compared element by element
                let sh = |x: &Expr| matches!(strip_paren(x), Expr::MethodCall(m) if m.method == "shape" || m.method == "strides");
                if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (sh(&b.left) || sh(&b.right)) {
                    let (l, r) = (b.left.clone(), b.right.clone());
                    *e = syn::parse2(if matches!(b.op, BinOp::Eq(_)) { quote!{ vx_eq ( #l , #r ) } } else { quote!{ !vx_eq ( #l , #r ) } }).unwrap();
                    return;
                }
                if let Some(op) = op {
                    let (l, r) = (b.left.clone(), b.right.clone());
                    *e = syn::parse2(quote!{ #l = #l #op ( #r ) }).unwrap();
                }
                return;
            }
            Expr::Reference(r) => {
                // &s[a..b]
                if let Expr::Index(ix) = strip_paren(&r.expr) {
                    if let Expr::Range(rg) = strip_paren(&ix.index) {
                        let (mut base, rg) = ((*ix.expr).clone(), rg.clone());
                        let place = is_place(&base);
                        self.visit_expr_mut(&mut base);
                        let a = match rg.start { Some(a) => { let mut a = *a; self.visit_expr_mut(&mut a); quote!{ #a } } None => quote!{ 0 } };
                        let b = match rg.end { Some(b) => { let mut b = *b; self.visit_expr_mut(&mut b); quote!{ #b } } None => quote!{ #base . len() } };
                        let br = if place { quote!{ & #base } } else { quote!{ #base } };
                        *e = syn::parse2(quote!{ vx_sub(#br, #a, #b) }).unwrap();
                        return;
                    }
                }
            }
            Expr::Index(ix) => {
                // s[a..b] used as a place (method receiver): same subslice
                if let Expr::Range(rg) = strip_paren(&ix.index) {
                    let (mut base, rg) = ((*ix.expr).clone(), rg.clone());
                    let place = is_place(&base);
                    self.visit_expr_mut(&mut base);
                    let a = match rg.start { Some(a) => { let mut a = *a; self.visit_expr_mut(&mut a); quote!{ #a } } None => quote!{ 0 } };
                    let b = match rg.end { Some(b) => { let mut b = *b; self.visit_expr_mut(&mut b); quote!{ #b } } None => quote!{ #base . len() } };
                    let br = if place { quote!{ & #base } } else { quote!{ #base } };
                    *e = syn::parse2(quote!{ vx_sub(#br, #a, #b) }).unwrap();
                    return;
                }
            }
            Expr::Cast(c) => {
                if let Type::Ptr(_) = &*c.ty {
                    let mut x = (*c.expr).clone();
                    self.visit_expr_mut(&mut x);
                    if let Type::Ptr(p) = &*c.ty {
                        let el = &p.elem;
                        *e = if el.to_token_stream().to_string() == "u8" { x } else { syn::parse2(quote!{ (#x) . vx_cast :: < #el > () }).unwrap() };
                    }
                    return;
                }
            }
            Expr::Macro(m) => {
                if let Some(ts) = self.mac(&m.mac) { match syn::parse2::<Expr>(ts) { Ok(x) => *e = x, Err(x) => self.errs.push(x.to_string()) } return; }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if self.ptrs { if let Some(i) = &l.init {
            let pat = match &l.pat { Pat::Type(t) => &*t.pat, p => p };
            if let Pat::Ident(id) = pat {
                let nm = id.ident.to_string();
                if self.is_ptr(&i.expr) { self.ptrvars.push(nm.clone()); } else { self.ptrvars.retain(|x| *x != nm); }
                if callee(&i.expr).map(|(n, _)| n == "from_raw_parts_mut").unwrap_or(false) {
                    self.mslices.push(nm);
                    if let Pat::Ident(id) = &mut l.pat { id.mutability = Some(Default::default()); }
                }
            }
        } }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            // a call that is handed a slice made by from_raw_parts_mut: its writes reach the memory when it returns
            let mut stores = vec![];
            if !self.mslices.is_empty() {
                let args = match &mut s { Stmt::Expr(Expr::Call(c), _) => Some(&mut c.args), Stmt::Expr(Expr::MethodCall(c), _) => Some(&mut c.args), _ => None };
                if let Some(args) = args { for a in args.iter_mut() { if let Expr::Path(p) = strip_paren(a) { if let Some(i) = p.path.get_ident() { if self.mslices.contains(&i.to_string()) {
                    let i = i.clone();
                    stores.push(quote!{ #i . vx_store ( Tracked(mem) ) ; });
                    *a = syn::parse2(quote!{ #i . vx_mut () }).unwrap();
                } } } } }
            }
            self.visit_stmt_mut(&mut s);
            if !stores.is_empty() { if let Stmt::Expr(_, semi) = &mut s { if semi.is_none() { *semi = Some(Default::default()); } } }
            out.push(s);
            for st in stores { out.push(syn::parse2(st).unwrap()); }
        }
        b.stmts = out;
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(ts) = self.mac(&m.mac) {
                match syn::parse2::<Expr>(ts) { Ok(x) => *s = Stmt::Expr(x, m.semi_token.or(Some(Default::default()))), Err(x) => self.errs.push(x.to_string()) }
                return;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
        // `let &x = ...` style statements are left alone
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Reference(o) = t { if o.elem.to_token_stream().to_string() == "dyn DTypeOps" { *t = syn::parse2(quote!{ Ops }).unwrap(); return; } }
        if let Type::Ptr(p) = t {
            let el = p.elem.to_token_stream().to_string();
            *t = if el == "u8" { syn::parse2(quote!{ VPtr }).unwrap() } else { let e = &p.elem; syn::parse2(quote!{ VTPtr<#e> }).unwrap() };
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear(); }
}
fn deref(i: &Item_) -> TokenStream { match i { Item_::Ref(p) => quote!{ #p }, x => x.tokens() } }
fn is_chain(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if n == "iter" || n == "into_iter" || n == "iter_offsets" || n == "axis_offsets" { return true; }
            ["enumerate", "copied", "cloned", "rev", "zip", "map", "filter", "filter_map", "skip", "take", "step_by"].contains(&n.as_str()) && is_chain(&m.receiver)
        }
        Expr::Range(_) => true,
        _ => false,
    }
}
impl Tr {
    fn mac(&mut self, m: &Macro) -> Option<TokenStream> {
        let name = m.path.segments.last()?.ident.to_string();
        let parse_args = || -> Option<Vec<Expr>> {
            m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
        };
        match name.as_str() {
            "assert" | "debug_assert" => { let mut a = parse_args()?; self.visit_expr_mut(&mut a[0]); let c = &a[0]; Some(quote!{ if !(#c) { vx_panic() } }) }
            "assert_eq" | "debug_assert_eq" => { let mut a = parse_args()?; self.visit_expr_mut(&mut a[0]); self.visit_expr_mut(&mut a[1]); let (x, y) = (&a[0], &a[1]); Some(quote!{ if !((#x) == (#y)) { vx_panic() } }) }
            "panic" | "unreachable" | "unimplemented" | "todo" => Some(quote!{ vx_panic_any() }),
            "vec" => {
                let ts = m.tokens.clone();
                if ts.is_empty() { return Some(quote!{ Vec::new() }); }
                if let Ok(r) = syn::parse2::<ExprRepeat>({ quote!{ [ #ts ] } }) {
                    let (mut x, mut n) = ((*r.expr).clone(), (*r.len).clone());
                    self.visit_expr_mut(&mut x); self.visit_expr_mut(&mut n);
                    return Some(quote!{ vx_vec(#x, #n) });
                }
                let mut a = parse_args()?;
                for x in a.iter_mut() { self.visit_expr_mut(x); }
                match a.len() {
                    1 => { let x = &a[0]; Some(quote!{ vx_vec1(#x) }) }
                    2 => { let (x, y) = (&a[0], &a[1]); Some(quote!{ vx_vec2(#x, #y) }) }
                    3 => { let (x, y, z) = (&a[0], &a[1], &a[2]); Some(quote!{ vx_vec3(#x, #y, #z) }) }
                    _ => None,
                }
            }
            "format" => Some(quote!{ vx_msg() }),
            "matches" => None,
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- finding items
fn find_fn(items: &[syn::Item], target: &str) -> Option<(ItemFn, Option<Type>)> {
    let (ty, name) = match target.rsplit_once("::") { Some((t, n)) => (Some(t.to_string()), n), None => (None, target) };
    for it in items {
        match it {
            syn::Item::Fn(f) if ty.is_none() && f.sig.ident == name => return Some((f.clone(), None)),
            syn::Item::Impl(im) => if let Some(t) = &ty {
                let st = im.self_ty.to_token_stream().to_string().replace(' ', "");
                if st == *t { for x in &im.items { if let ImplItem::Fn(f) = x { if f.sig.ident == name {
                    return Some((ItemFn { attrs: vec![], vis: f.vis.clone(), sig: f.sig.clone(), block: Box::new(f.block.clone()) }, Some((*im.self_ty).clone())));
                } } } }
            },
            syn::Item::Mod(m) => {
                if m.ident == "tests" { continue; }
                if let Some((_, its)) = &m.content { if let Some(x) = find_fn(its, target) { return Some(x); } }
            }
            // nested functions
            _ => {}
        }
    }
    // functions nested in bodies
    for it in items { if let syn::Item::Fn(f) = it { if ty.is_none() {
        for s in &f.block.stmts { if let Stmt::Item(i) = s { if let Some(x) = find_fn(std::slice::from_ref(i), target) { return Some(x); } } }
    } } }
    None
}
fn find_struct(items: &[syn::Item], name: &str) -> Option<syn::Item> {
    for it in items { match it {
        syn::Item::Struct(s) if s.ident == name => return Some(it.clone()),
        syn::Item::Enum(s) if s.ident == name => return Some(it.clone()),
        syn::Item::Const(s) if s.ident == name => return Some(it.clone()),
        syn::Item::Mod(m) if m.ident != "tests" => if let Some((_, its)) = &m.content { if let Some(x) = find_struct(its, name) { return Some(x); } },
        _ => {}
    } }
    None
}

// ---------------------------------------------------------------- printing
struct Pr { out: String, ind: usize }
impl Pr {
    fn nl(&mut self) { while self.out.ends_with(' ') { self.out.pop(); } if !self.out.ends_with('\n') { self.out.push('\n'); } for _ in 0..self.ind { self.out.push_str("    "); } }
    fn ts(&mut self, ts: TokenStream, brace: bool) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            // markers
            if let TokenTree::Ident(id) = &v[i] {
                let s = id.to_string();
                if s.starts_with("__vx_") && i + 2 < v.len() {
                    if let (TokenTree::Punct(p), TokenTree::Group(g)) = (&v[i + 1], &v[i + 2]) { if p.as_char() == '!' {
                        self.nl(); self.out.push_str(&format!("@@{} {}@@", &s[5..], g.stream())); self.nl();
                        i += 3;
                        if i < v.len() { if let TokenTree::Punct(p) = &v[i] { if p.as_char() == ';' { i += 1; } } }
                        continue;
                    } }
                }
            }
            match &v[i] {
                TokenTree::Group(g) => {
                    let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                    if g.delimiter() == Delimiter::Brace {
                        let toks: Vec<TokenTree> = g.stream().into_iter().collect();
                        // loop specification goes before the brace
                        let mut rest = g.stream();
                        if let Some(TokenTree::Ident(id)) = toks.first() { if id == "__vx_loop" {
                            if let TokenTree::Group(n) = &toks[2] { self.nl(); self.out.push_str(&format!("@@loop {}@@", n.stream())); self.nl(); }
                            rest = toks[4..].iter().cloned().collect();
                        } }
                        self.out.push('{'); self.ind += 1; self.nl();
                        self.ts(rest, true);
                        self.ind -= 1; self.nl(); self.out.push('}');
                        let cont = matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x == "else") || matches!(v.get(i + 1), Some(TokenTree::Punct(_)));
                        if brace && !cont { self.nl(); } else { self.out.push(' '); }
                    } else {
                        if self.out.ends_with(' ') && o == "(" && i > 0 { if let TokenTree::Ident(x) = &v[i - 1] { let k = x.to_string(); if !["if", "while", "match", "in", "return", "let", "as"].contains(&k.as_str()) { self.out.pop(); } } }
                        self.out.push_str(o); self.ts(g.stream(), false);
                        while self.out.ends_with(' ') { self.out.pop(); }
                        self.out.push_str(c); self.out.push(' ');
                    }
                }
                TokenTree::Punct(p) => {
                    let ch = p.as_char();
                    if (ch == ';' || ch == ',' || ch == '.' || ch == '?') && self.out.ends_with(' ') { self.out.pop(); }
                    self.out.push(ch);
                    if ch == ';' && brace { self.nl(); }
                    else if p.spacing() == Spacing::Alone && ch != '.' && ch != '&' && ch != '!' { self.out.push(' '); }
                    else if ch == '!' && p.spacing() == Spacing::Alone { }
                }
                TokenTree::Ident(x) => { self.out.push_str(&x.to_string()); self.out.push(' '); }
                TokenTree::Literal(l) => { self.out.push_str(&l.to_string()); self.out.push(' '); }
            }
            i += 1;
        }
    }
}
fn print(ts: TokenStream) -> String { let mut p = Pr { out: String::new(), ind: 0 }; p.ts(ts, true); p.out }

/// a single-rule macro_rules item of the function itself: its uses are replaced by its body (parameters substituted)
struct LocalMac { name: String, params: Vec<String>, body: TokenStream }
fn local_mac(m: &ItemMacro) -> Option<LocalMac> {
    use proc_macro2::{TokenTree, Delimiter};
    let name = m.ident.as_ref()?.to_string();
    let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
    let (TokenTree::Group(pat), TokenTree::Group(body)) = (ts.first()?, ts.get(3)?) else { return None };
    if ts.len() > 5 || body.delimiter() != Delimiter::Brace { return None; }
    let pt: Vec<TokenTree> = pat.stream().into_iter().collect();
    let mut params = vec![]; let mut i = 0;
    while i < pt.len() {
        if pt[i].to_string() != "$" { return None; }
        params.push(pt.get(i + 1)?.to_string());
        if pt.get(i + 2)?.to_string() != ":" { return None; }
        i += 4;
        if i < pt.len() { if pt[i].to_string() != "," { return None; } i += 1; }
    }
    Some(LocalMac { name, params, body: body.stream() })
}
fn subst(ts: TokenStream, params: &[String], args: &[TokenStream]) -> TokenStream {
    use proc_macro2::{TokenTree, Group};
    let v: Vec<TokenTree> = ts.into_iter().collect(); let mut out = TokenStream::new(); let mut i = 0;
    while i < v.len() {
        if v[i].to_string() == "$" && i + 1 < v.len() { if let Some(k) = params.iter().position(|p| *p == v[i + 1].to_string()) { out.extend(args[k].clone()); i += 2; continue; } }
        match &v[i] { TokenTree::Group(g) => { let mut h = Group::new(g.delimiter(), subst(g.stream(), params, args)); h.set_span(g.span()); out.extend([TokenTree::Group(h)]); } t => out.extend([t.clone()]) }
        i += 1;
    }
    out
}
struct Expand(Vec<LocalMac>);
impl Expand {
    fn go(&self, m: &Macro) -> Option<Expr> {
        let n = m.path.get_ident()?.to_string(); let d = self.0.iter().find(|d| d.name == n)?;
        let mut args = vec![TokenStream::new()]; 
        for t in m.tokens.clone() { if t.to_string() == "," { args.push(TokenStream::new()); } else { args.last_mut().unwrap().extend([t]); } }
        if args.len() != d.params.len() { return None; }
        syn::parse2(subst(d.body.clone(), &d.params, &args)).ok()
    }
}
impl VisitMut for Expand {
    fn visit_expr_mut(&mut self, e: &mut Expr) { if let Expr::Macro(m) = e { if let Some(x) = self.go(&m.mac) { *e = x; } } visit_mut::visit_expr_mut(self, e); }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) { if let Stmt::Macro(m) = s { if let Some(x) = self.go(&m.mac) { *s = Stmt::Expr(x, m.semi_token); } } visit_mut::visit_stmt_mut(self, s); }
}
fn main() {
    // job lines, tab separated:  ROOT path
    //   fn <file> <Type::name|name> [mem=a,b,c] [memself] [flags=or_assign,...] [rename=a:b,..]
    //   struct <file> <Name>
    let job = std::fs::read_to_string(std::env::args().nth(1).expect("job file")).unwrap();
    let mut root = String::from("/repo");
    let mut cache: HashMap<String, std::result::Result<File, String>> = HashMap::new();
    for line in job.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        if f.is_empty() || f[0].is_empty() { continue; }
        if f[0] == "root" { root = f[1].to_string(); continue; }
        let path = format!("{}/{}", root, f[1]);
        let file = cache.entry(path.clone()).or_insert_with(|| {
            let s = std::fs::read_to_string(&path).map_err(|e| e.to_string())?;
            syn::parse_file(&s).map_err(|e| e.to_string())
        });
        let head = format!("%%{}\t{}\t{}", f[0], f[1], f[2]);
        let file = match file { Ok(x) => x, Err(e) => { println!("{}\terr\tcannot parse {}: {}", head, f[1], e.replace('\n', " ")); continue; } };
        let mut tr = Tr { next: 0, tmp: 0, errs: vec![], mem: vec![], flags: HashMap::new(), rename: HashMap::new(), refs: vec![], ptrs: false, ptrvars: vec![], mslices: vec![] };
        let mut memself = false;
        for o in &f[3..] {
            if let Some(x) = o.strip_prefix("mem=") { tr.mem = x.split(',').map(|s| s.to_string()).collect(); }
            if *o == "memself" { memself = true; }
            if let Some(x) = o.strip_prefix("flags=") { for k in x.split(',') { tr.flags.insert(k.into(), "1".into()); } }
            if tr.flags.contains_key("ptrs") { tr.ptrs = true; }
            if let Some(x) = o.strip_prefix("rename=") { for k in x.split(',') { if let Some((a, b)) = k.split_once(':') { tr.rename.insert(a.into(), b.into()); } } }
        }
        match f[0] {
            "fn" => match find_fn(&file.items, f[2]) {
                None => println!("{}\terr\tfunction not found", head),
                Some((mut func, _)) => {
                    func.attrs.clear();
                    func.sig.unsafety = None; func.sig.constness = None;
                    if memself { func.sig.inputs.push(syn::parse2(quote!{ Tracked(mem): Tracked<&mut Mem> }).unwrap()); }
                    let macs: Vec<LocalMac> = func.block.stmts.iter().filter_map(|s| if let Stmt::Item(Item::Macro(m)) = s { local_mac(m) } else { None }).collect();
                    if !macs.is_empty() { Expand(macs).visit_block_mut(&mut func.block); }
                    // nested items are extracted separately
                    func.block.stmts.retain(|s| !matches!(s, Stmt::Item(_)));
                    for a in func.sig.inputs.iter() { if let FnArg::Typed(t) = a { if let (Type::Reference(r), Pat::Ident(i)) = (&*t.ty, &*t.pat) {
                        let ts = r.elem.to_token_stream().to_string();
                        if matches!(&*r.elem, Type::Slice(_)) || ts.starts_with("Vec <") { tr.refs.push(i.ident.to_string()); } } } }
                    for a in func.sig.inputs.iter() { if let FnArg::Typed(t) = a { if let (Type::Ptr(_), Pat::Ident(i)) = (&*t.ty, &*t.pat) { tr.ptrvars.push(i.ident.to_string()); } } }
                    for a in func.sig.inputs.iter_mut() { if let FnArg::Typed(t) = a { tr.visit_type_mut(&mut t.ty); } }
                    if let ReturnType::Type(_, t) = &mut func.sig.output { tr.visit_type_mut(t); }
                    tr.visit_block_mut(&mut func.block);
                    if !tr.errs.is_empty() { println!("{}\terr\tunsupported: {}", head, tr.errs.join(" | ").replace('\n', " ")); continue; }
                    let sig = func.sig.to_token_stream();
                    let body = func.block.stmts.iter().map(|s| s.to_token_stream()).collect::<TokenStream>();
                    println!("{}\tok\t{}", head, tr.next);
                    println!("{}", print(sig));
                    println!("%%body");
                    println!("{}", print(body));
                    println!("%%end");
                }
            },
            _ => match find_struct(&file.items, f[2]) {
                None => println!("{}\terr\titem not found", head),
                Some(mut s) => {
                    tr.visit_item_mut(&mut s);
                    println!("{}\tok\t0", head);
                    println!("{}", print(s.to_token_stream()));
                    println!("%%body");
                    println!("%%end");
                }
            },
        }
        let _ = lit_one;
    }
}
