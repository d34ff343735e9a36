//! The fixed list of source-to-source rewrites applied to every extracted
//! function. Each is an identity on behaviour (documented in DESIGN.md).
use proc_macro2::{TokenStream, TokenTree};
use quote::{ToTokens, format_ident, quote};
use std::collections::BTreeSet;
use syn::punctuated::Punctuated;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Desugar {
    opts: BTreeSet<String>,
    pub log: Vec<String>,
    pub problems: Vec<String>,
    pub ret_ty: Option<String>,
    depth: usize,
    hint: Option<String>,
}

const RENAMES: &[&str] = &[
    "as_deref", "rsplit_once", "split_once", "into_owned", "into", "rfind", "starts_with", "ends_with",
    "trim", "strip_prefix", "strip_suffix", "parse", "join", "unwrap_or_default", "wrap_err", "into_diagnostic",
    "trim_start", "trim_end", "chars", "char_indices", "bytes", "split", "lines", "is_alphabetic", "is_alphanumeric", "unwrap_or_default_", "to_owned", "leak", "extend", "to_vec", "is_char_boundary", "entry", "to_lowercase", "replace",
    "as_bytes", "rmatch_indices", "to_ascii_lowercase", "to_uppercase", "trim_matches", "replacen",
];
// Library functions whose contract is on a stand-in.
const PATHS: &[(&str, &str)] = &[
    ("u32::from_str_radix", "crate::stubs::v_u32_radix"),
    ("i64::from_str_radix", "crate::stubs::v_i64_radix"),
    ("u64::from_str_radix", "crate::stubs::v_u64_radix"),
    ("miette::Report", "crate::stubs::Report"),
    ("miette::Result", "crate::stubs::MResult"),
    ("std::mem::take", "crate::stubs::v_take"),
    ("std::env::current_dir", "crate::stubs::v_current_dir"),
    ("String::leak", "crate::stubs::v_leak_str"),
    ("std::collections::HashSet", "crate::stubs::HashSet"),
    ("std::collections::HashMap", "crate::stubs::HashMap"),
    ("Value::from", "crate::stubs::v_value_from"),
    ("std::num::ParseIntError", "crate::stubs::NumError"),
    ("serde_json::to_value", "crate::stubs::v_to_value"),
    ("std::fs::read_to_string", "crate::stubs::v_read_to_string"),
    ("fs::read_to_string", "crate::stubs::v_read_to_string"),
    ("fs::write", "crate::stubs::v_fs_write"),
    ("std::fs::write", "crate::stubs::v_fs_write"),
    ("fs::create_dir_all", "crate::stubs::v_fs_create_dir_all"),
    ("std::fs::create_dir_all", "crate::stubs::v_fs_create_dir_all"),
    ("std::process::exit", "crate::stubs::v_exit"),
    ("io::stdin", "crate::stubs::v_stdin"),
    ("std::io::stdin", "crate::stubs::v_stdin"),
    ("serde_json::to_string_pretty", "crate::stubs::v_pretty"),
    ("io::ErrorKind", "crate::stubs::ErrorKind"),
    ("io::ErrorKind::BrokenPipe", "crate::stubs::ErrorKind::BrokenPipe"),
];
// Stand-ins that act on the effect log: they get it as an extra argument.
const EFFECTS: &[&str] = &["v_fs_write", "v_fs_create_dir_all", "v_exit"];
const RESULTS: &[&str] = &["map_err", "with_context", "context", "v_context", "wrap_err_with", "wrap_err", "v_wrap_err", "ok_or", "ok_or_else", "canonicalize"];
const SOURCES: &[&str] = &["iter", "iter_mut", "into_iter", "values", "keys", "chars", "bytes", "char_indices", "lines", "split", "values_mut", "schemas", "rmatch_indices"];
const SOURCE_ADAPT: &[&str] = &["rev", "skip", "take", "zip", "peekable"];
const ADAPT: &[&str] = &["map", "filter", "filter_map", "cloned", "copied", "enumerate"];

// Some(&x) -> Some(__r_x), and the statement that copies x out.
fn deref_pat(p: &mut Pat) -> Option<Stmt> {
    if let Pat::TupleStruct(t) = p
        && t.path.is_ident("Some") && t.elems.len() == 1
        && let Pat::Reference(r) = &t.elems[0]
        && let Pat::Ident(id) = &*r.pat
    {
        let rn = format_ident!("__r_{}", id.ident);
        let id = id.clone();
        t.elems[0] = parse_quote!(#rn);
        return Some(parse_quote!(let #id = *#rn;));
    }
    None
}
fn is_continue(e: &Expr) -> bool {
    match e {
        Expr::Continue(c) => c.label.is_none(),
        Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => matches!(&b.block.stmts[0], Stmt::Expr(x, _) if is_continue(x)),
        _ => false,
    }
}
// A loop body whose `continue`s skip the rest of the body -> the rest under the
// opposite condition.
fn uncontinue(stmts: Vec<Stmt>, hit: &mut bool) -> Vec<Stmt> {
    let mut out = vec![];
    let mut it = stmts.into_iter();
    while let Some(s) = it.next() {
        match &s {
            Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    if let Some((_, els)) = &init.diverge && is_continue(els) {
                        let rest = uncontinue(it.collect(), hit);
                        let (p, x) = (&l.pat, &init.expr);
                        *hit = true;
                        out.push(parse_quote!(if let #p = #x { #(#rest)* }));
                        return out;
                    }
                    if let Expr::Match(m) = &*init.expr
                        && m.arms.iter().filter(|a| is_continue(&a.body)).count() + 1 == m.arms.len()
                    {
                        let rest = uncontinue(it.collect(), hit);
                        let p = &l.pat;
                        let mut m = m.clone();
                        for a in m.arms.iter_mut() {
                            let b = &a.body;
                            *a.body = if is_continue(b) { parse_quote!({}) } else { parse_quote!({ let #p = #b; #(#rest)* }) };
                            a.comma = Some(Default::default());
                        }
                        *hit = true;
                        out.push(Stmt::Expr(Expr::Match(m), None));
                        return out;
                    }
                }
            }
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none()
                && i.then_branch.stmts.last().is_some_and(|s| matches!(s, Stmt::Expr(x, _) if is_continue(x))) =>
            {
                let rest = uncontinue(it.collect(), hit);
                let mut i = i.clone();
                i.then_branch.stmts.pop();
                i.else_branch = Some((Default::default(), parse_quote!({ #(#rest)* })));
                *hit = true;
                out.push(Stmt::Expr(Expr::If(i), None));
                return out;
            }
            Stmt::Expr(x, _) if is_continue(x) => { *hit = true; return out; }
            _ => {}
        }
        out.push(s);
    }
    out
}
struct Inline { f: Ident, c: ExprClosure, calls: usize, other: bool, dry: bool }
impl VisitMut for Inline {
    fn visit_local_mut(&mut self, l: &mut Local) {
        // A rebinding of the closure's name, or of anything it captures, rules the rewrite out.
        struct B<'a>(&'a Inline, bool);
        impl<'a, 'b> syn::visit::Visit<'b> for B<'a> {
            fn visit_pat_ident(&mut self, p: &'b PatIdent) {
                if p.ident == self.0.f || mentions(&self.0.c.body, &p.ident) { self.1 = true; }
            }
        }
        let mut x = B(self, false);
        syn::visit::Visit::visit_pat(&mut x, &l.pat);
        let hit = x.1;
        if hit { self.other = true; }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(k) = e
            && matches!(&*k.func, Expr::Path(p) if p.path.is_ident(&self.f)) && k.args.len() == self.c.inputs.len()
        {
            self.calls += 1;
            for a in k.args.iter_mut() { visit_mut::visit_expr_mut(self, a); }
            if !self.dry {
                let mut st: Vec<Stmt> = vec![];
                let n = k.args.len();
                let names: Vec<Ident> = (0..n).map(|i| format_ident!("__a{}", i)).collect();
                for (x, a) in names.iter().zip(k.args.iter()) { st.push(parse_quote!(let #x = #a;)); }
                for (x, p) in names.iter().zip(self.c.inputs.iter()) {
                    match p {
                        Pat::Type(t) => { let (q, ty) = (&t.pat, &t.ty); st.push(parse_quote!(let #q: #ty = #x;)); }
                        q => st.push(parse_quote!(let #q = #x;)),
                    }
                }
                let body = &self.c.body;
                *e = parse_quote!({ #(#st)* #body });
            }
            return;
        }
        if matches!(e, Expr::Path(p) if p.path.is_ident(&self.f)) { self.other = true; }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn mentions(e: &Expr, id: &Ident) -> bool {
    struct M<'a>(&'a Ident, bool);
    impl<'a, 'b> syn::visit::Visit<'b> for M<'a> {
        fn visit_path(&mut self, p: &'b Path) { if p.is_ident(self.0) { self.1 = true; } }
    }
    let mut m = M(id, false);
    syn::visit::Visit::visit_expr(&mut m, e);
    m.1
}
fn ends_with_control(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true; }
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

impl Desugar {
    pub fn new(opts: BTreeSet<String>) -> Self {
        Desugar { opts, log: vec![], problems: vec![], ret_ty: None, depth: 0, hint: None }
    }
    fn note(&mut self, s: &str) { if !self.log.iter().any(|x| x == s) { self.log.push(s.into()); } }

    /// Apply closure or function path `f` to expression `arg`.
    fn apply(&mut self, f: &Expr, arg: TokenStream) -> Option<Expr> {
        match f {
            Expr::Closure(c) => {
                if c.inputs.len() != 1 { return None; }
                if ends_with_control(&c.body) { return None; }
                let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                let b = &c.body;
                // Each `&` of the pattern is a dereference of the argument.
                let (mut q, mut a) = (p.clone(), quote!(#arg));
                while let Pat::Reference(r) = q { q = *r.pat; a = quote!(*(#a)); }
                if let Pat::Ident(_) = &q {
                    return Some(parse_quote!({ let #q = #a; #b }));
                }
                Some(parse_quote!({ let #p = #arg; #b }))
            }
            Expr::Path(p) => Some(parse_quote!(#p(#arg))),
            _ => None,
        }
    }
    fn apply0(&self, f: &Expr) -> Option<Expr> {
        match f {
            Expr::Closure(c) if c.inputs.is_empty() => {
                if ends_with_control(&c.body) { return None; }
                Some((*c.body).clone())
            }
            Expr::Path(p) => Some(parse_quote!(#p())),
            _ => None,
        }
    }

    /// Split an iterator chain into (source expression, adapters).
    fn split_chain(&self, e: &Expr) -> Option<(Expr, Vec<(String, Vec<Expr>)>)> {
        let mut adapters = vec![];
        let mut cur = e.clone();
        loop {
            match cur {
                Expr::MethodCall(m) => {
                    let name = m.method.to_string();
                    if ADAPT.contains(&name.as_str()) {
                        adapters.push((name, m.args.iter().cloned().collect()));
                        cur = (*m.receiver).clone();
                        continue;
                    }
                    let n2 = name.strip_prefix("v_").unwrap_or(&name).to_string();
                    if SOURCES.contains(&n2.as_str()) || SOURCE_ADAPT.contains(&n2.as_str()) {
                        // The receiver must bottom out in a source.
                        if SOURCE_ADAPT.contains(&n2.as_str()) {
                            let mut r = (*m.receiver).clone();
                            loop {
                                match &r {
                                    Expr::MethodCall(mm) => {
                                        let rn = mm.method.to_string();
                                        let rn = rn.strip_prefix("v_").unwrap_or(&rn).to_string();
                                        if SOURCES.contains(&rn.as_str()) { break; }
                                        if !SOURCE_ADAPT.contains(&rn.as_str()) { return None; }
                                        r = (*mm.receiver).clone();
                                    }
                                    _ => return None,
                                }
                            }
                        }
                        adapters.reverse();
                        return Some((Expr::MethodCall(m), adapters));
                    }
                    return None;
                }
                Expr::Path(ref p) if !adapters.is_empty() || self.opts.contains(&format!("itersrc {}", p.path.to_token_stream())) => {
                    if !self.opts.contains(&format!("itersrc {}", p.path.to_token_stream())) { return None; }
                    adapters.reverse();
                    return Some((parse_quote!(#p.v_rest()), adapters));
                }
                Expr::Paren(p) if matches!(&*p.expr, Expr::Range(_)) => { adapters.reverse(); return Some(((*p.expr).clone(), adapters)); }
                _ => return None,
            }
        }
    }

    fn chain_loop(&mut self, e: &Expr, sink: impl FnOnce(&mut Self, Ident) -> Option<TokenStream>) -> Option<(TokenStream, TokenStream, bool)> {
        let (src, adapters) = self.split_chain(e)?;
        let d = self.depth;
        let sfx = if d == 0 { String::new() } else { d.to_string() };
        let x = format_ident!("__x{}", sfx);
        // build from inside out: first compute the identifiers
        let mut cur = x.clone();
        let mut steps: Vec<(String, Ident, Ident, Vec<Expr>)> = vec![];
        let mut pre = TokenStream::new();
        for (i, (n, a)) in adapters.iter().enumerate() {
            let nxt = format_ident!("__y{}_{}", i, sfx);
            if n == "filter" { steps.push((n.clone(), cur.clone(), cur.clone(), a.clone())); }
            else { steps.push((n.clone(), cur.clone(), nxt.clone(), a.clone())); cur = nxt; }
        }
        let mut body = sink(self, cur)?;
        for (n, inp, outp, a) in steps.into_iter().rev() {
            body = match n.as_str() {
                "map" => { let v = self.apply(&a[0], quote!(#inp))?; quote!(let #outp = #v; #body) }
                "filter" => { let v = self.apply(&a[0], quote!(&#inp))?; quote!(if #v { #body }) }
                "filter_map" => { let v = self.apply(&a[0], quote!(#inp))?; quote!(if let Some(#outp) = #v { #body }) }
                "cloned" | "copied" => quote!(let #outp = #inp.clone(); #body),
                "enumerate" => {
                    let c = format_ident!("__i{}", sfx);
                    pre.extend(quote!(let mut #c: usize = 0;));
                    quote!(let #outp = (#c, #inp); #c = #c + 1; #body)
                }
                _ => return None,
            };
        }
        let l = quote!(for #x in #src { #body });
        Some((pre, l, true))
    }

    fn try_chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let name = name.strip_prefix("v_").unwrap_or(&name).to_string();
        let name = name.as_str();
        let sfx = if self.depth == 0 { String::new() } else { self.depth.to_string() };
        let v = format_ident!("__v{}", sfx);
        let r = format_ident!("__r{}", sfx);
        match name {
            "collect" => {
                let ty = m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string()).or_else(|| self.hint.clone()).unwrap_or_default();
                let ty = ty.replace(' ', "");
                if let Expr::MethodCall(c) = &*m.receiver && c.method == "chain" && ty.starts_with("Vec<") {
                    let x = format_ident!("__c{}", sfx);
                    let body: Block = parse_quote!({ #v.push(#x); });
                    let st = self.spread_for(&parse_quote!(#x), &m.receiver, &body)?;
                    self.note("iterator chain collect -> loop");
                    return Some(parse_quote!({ let mut #v = Vec::new(); #(#st)* #v }));
                }
                let src_adapt = self.split_chain(&m.receiver)?;
                if ty.starts_with("Result") || ty.starts_with("Option") {
                    // collect::<Result<Vec<_>, E>>(): stop at the first failure.
                    let (ok, bad) = if ty.starts_with("Result") {
                        (quote!(Ok(__k) => #v.push(__k)), quote!(Err(__e) => { #r = Some(__e); break; }))
                    } else { return None };
                    let (pre, l, _) = self.chain_loop(&m.receiver, |_, cur| Some(quote!(match #cur { #ok, #bad })))?;
                    self.note("iterator chain collect::<Result> -> loop");
                    return Some(parse_quote!({ let mut #v = Vec::new(); let mut #r = None; #pre #l match #r { Some(__e) => Err(__e), None => Ok(#v) } }));
                }
                if src_adapt.1.is_empty() && !ty.starts_with("HashSet") && !ty.starts_with("String") && !ty.starts_with("HashMap") && self.opts.contains("keep_plain_collect") { return None; }
                let (init, push): (TokenStream, Box<dyn Fn(Ident) -> TokenStream>) = if ty.starts_with("HashSet") {
                    let v2 = v.clone();
                    (quote!(HashSet::new()), Box::new(move |c| quote!(#v2.insert(#c);)))
                } else if ty.starts_with("String") || ty.starts_with("std::string::String") {
                    let v2 = v.clone();
                    (quote!(String::new()), Box::new(move |c| quote!(#v2.v_push_piece(#c);)))
                } else if ty.starts_with("HashMap") || ty.starts_with("Map<") {
                    let v2 = v.clone();
                    let t = if ty.starts_with("HashMap") { quote!(HashMap::new()) } else { quote!(Map::new()) };
                    (t, Box::new(move |c| quote!({ let (__k, __w) = #c; #v2.insert(__k, __w); })))
                } else {
                    let v2 = v.clone();
                    (quote!(Vec::new()), Box::new(move |c| quote!(#v2.push(#c);)))
                };
                let ann: TokenStream = if ty.starts_with("Vec<") && !ty.contains('_') { let t: TokenStream = ty.parse().ok()?; quote!(: #t) } else { quote!() };
                let (pre, l, _) = self.chain_loop(&m.receiver, |_, cur| Some(push(cur)))?;
                self.note("iterator chain collect -> loop");
                Some(parse_quote!({ let mut #v #ann = #init; #pre #l #v }))
            }
            "retain" if m.args.len() == 1 => {
                let rc = &m.receiver;
                let c = self.apply(&m.args[0], quote!(&__x))?;
                self.note("retain -> loop");
                Some(parse_quote!({ let __k = crate::stubs::v_take(&mut #rc); for __x in __k { let __keep = #c; if __keep { #rc.push(__x); } } }))
            }
            "partition" if m.args.len() == 1 => {
                let Expr::MethodCall(i) = &*m.receiver else { return None };
                if i.method != "into_iter" { return None; }
                let rc = &i.receiver;
                let c = self.apply(&m.args[0], quote!(&__x))?;
                self.note("into_iter().partition -> loop");
                Some(parse_quote!({ let mut __pa = Vec::new(); let mut __pb = Vec::new(); for __x in #rc { let __keep = #c; if __keep { __pa.push(__x); } else { __pb.push(__x); } } (__pa, __pb) }))
            }
            "sort_by" | "sort_by_key" if m.args.len() == 1 => {
                let rc = &m.receiver;
                self.note("sort_by: the comparator is dropped (any permutation)");
                Some(parse_quote!(crate::stubs::v_sort(&mut #rc)))
            }
            "any" | "all" if m.args.len() == 1 => {
                let f = m.args[0].clone();
                let is_any = name == "any";
                let (pre, l, _) = self.chain_loop(&m.receiver, |s, cur| {
                    let c = s.apply(&f, quote!(#cur))?;
                    Some(if is_any { quote!(if #c { #r = true; break; }) } else { quote!(if !#c { #r = false; break; }) })
                })?;
                let init = if is_any { quote!(false) } else { quote!(true) };
                self.note("iterator any/all -> loop");
                Some(parse_quote!({ let mut #r = #init; #pre #l #r }))
            }
            "find" | "position" if m.args.len() == 1 => {
                let f = m.args[0].clone();
                if !matches!(f, Expr::Closure(_)) { return None; }
                let is_find = name == "find";
                let i = format_ident!("__p{}", sfx);
                let (pre, l, _) = self.chain_loop(&m.receiver, |s, cur| {
                    Some(if is_find {
                        let c = s.apply(&f, quote!(&#cur))?;
                        quote!(if #c { #r = Some(#cur); break; })
                    } else {
                        let c = s.apply(&f, quote!(#cur))?;
                        quote!(if #c { #r = Some(#i); break; } #i = #i + 1;)
                    })
                })?;
                self.note("iterator find/position -> loop");
                let pi = if is_find { quote!() } else { quote!(let mut #i: usize = 0;) };
                Some(parse_quote!({ let mut #r = None; #pi #pre #l #r }))
            }
            "find_map" if m.args.len() == 1 => {
                let f = m.args[0].clone();
                let (pre, l, _) = self.chain_loop(&m.receiver, |s, cur| {
                    let c = s.apply(&f, quote!(#cur))?;
                    Some(quote!(if let Some(__w) = #c { #r = Some(__w); break; }))
                })?;
                self.note("iterator find_map -> loop");
                Some(parse_quote!({ let mut #r = None; #pre #l #r }))
            }
            "count" if m.args.is_empty() && self.split_chain(&m.receiver).is_some_and(|c| !c.1.is_empty()) => {
                let c = format_ident!("__c{}", sfx);
                let (pre, l, _) = self.chain_loop(&m.receiver, |_, _| Some(quote!(#c = crate::stubs::v_inc(#c);)))?;
                self.note("iterator count -> loop");
                Some(parse_quote!({ let mut #c: usize = 0; #pre #l #c }))
            }
            "count" if m.args.is_empty() && matches!(&*m.receiver, Expr::MethodCall(k) if k.method == "split") => {
                let rc = &m.receiver;
                self.note("split(..).count() -> number of pieces");
                Some(parse_quote!(#rc.len()))
            }
            "min" | "max" if m.args.is_empty() => {
                let op = if name == "min" { quote!(<) } else { quote!(>=) };
                let (pre, l, _) = self.chain_loop(&m.receiver, |_, cur| Some(quote!(match #r { None => { #r = Some(#cur); } Some(__w) => { if #cur #op __w { #r = Some(#cur); } } })))?;
                self.note("iterator min/max -> loop");
                Some(parse_quote!({ let mut #r = None; #pre #l #r }))
            }
            _ => None,
        }
    }

    /// `for PAT in A.chain(B) BODY` and friends, as one statement per part.
    fn spread_for(&mut self, pat: &Pat, src: &Expr, body: &Block) -> Option<Vec<Stmt>> {
        match src {
            Expr::MethodCall(m) if m.method == "chain" && m.args.len() == 1 => {
                let mut a = self.spread_for(pat, &m.receiver, body).unwrap_or_else(|| { let r = &m.receiver; vec![parse_quote!(for #pat in #r #body)] });
                let x = &m.args[0];
                let b = self.spread_for(pat, x, body).unwrap_or_else(|| vec![parse_quote!(for #pat in #x #body)]);
                a.extend(b);
                self.note("for over chain() -> one loop per part");
                Some(a)
            }
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "").ends_with("iter::once") => {
                let x = &c.args[0];
                let st = &body.stmts;
                Some(vec![parse_quote!({ let #pat = #x; #(#st)* })])
            }
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => {
                let x = format_ident!("__m{}", self.depth);
                let v = self.apply(&m.args[0], quote!(#x))?;
                let r = &m.receiver;
                let st = &body.stmts;
                self.note("for over map() -> let in the body");
                Some(vec![parse_quote!(for #x in #r { let #pat = #v; #(#st)* })])
            }
            Expr::MethodCall(m) if m.method == "flatten" && self.opts.contains("optflat") => {
                let Expr::MethodCall(im) = &*m.receiver else { return None };
                let r = &im.receiver;
                let (how, inner) = if im.method == "iter_mut" { (quote!(&mut #r), quote!(iter_mut)) } else if im.method == "iter" { (quote!(&#r), quote!(iter)) } else { return None };
                self.note("for over an optional vector's flatten() -> if let + for");
                Some(vec![parse_quote!(if let Some(__f) = #how { for #pat in __f.#inner() #body })])
            }
            _ => None,
        }
    }

    fn try_option(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let rc = &m.receiver;
        // A receiver that is a Result by the method that made it.
        let res = self.opts.contains(&format!("result {name}"))
            || matches!(&**rc, Expr::MethodCall(k) if RESULTS.contains(&k.method.to_string().as_str()));
        let out: Expr = match (name.as_str(), m.args.len()) {
            ("is_some_and", 1) => { let b = self.apply(&m.args[0], quote!(__o))?; parse_quote!(match #rc { Some(__o) => #b, None => false }) }
            ("is_none_or", 1) => { let b = self.apply(&m.args[0], quote!(__o))?; parse_quote!(match #rc { Some(__o) => #b, None => true }) }
            ("with_context", 1) => { let b = self.apply0(&m.args[0])?; self.note("with_context(|| x) -> context(x)"); return Some(parse_quote!(#rc.v_context(#b))); }
            ("context", 1) => { let b = &m.args[0]; return Some(parse_quote!(#rc.v_context(#b))); }
            ("is_ok_and", 1) => { let b = self.apply(&m.args[0], quote!(__o))?; parse_quote!(match #rc { Ok(__o) => #b, Err(_) => false }) }
            ("map", 1) => {
                let b = self.apply(&m.args[0], quote!(__o))?;
                if res { parse_quote!(match #rc { Ok(__o) => Ok(#b), Err(__e) => Err(__e) }) }
                else { parse_quote!(match #rc { Some(__o) => Some(#b), None => None }) }
            }
            ("and_then", 1) => {
                let b = self.apply(&m.args[0], quote!(__o))?;
                if res { parse_quote!(match #rc { Ok(__o) => #b, Err(__e) => Err(__e) }) }
                else { parse_quote!(match #rc { Some(__o) => #b, None => None }) }
            }
            ("or_else", 1) => { let b = self.apply0(&m.args[0])?; parse_quote!(match #rc { Some(__o) => Some(__o), None => #b }) }
            ("unwrap_or_else", 1) => {
                if res { let b = self.apply(&m.args[0], quote!(__e))?; parse_quote!(match #rc { Ok(__o) => __o, Err(__e) => #b }) }
                else { let b = self.apply0(&m.args[0])?; parse_quote!(match #rc { Some(__o) => __o, None => #b }) }
            }
            ("unwrap_or", 1) => { let b = &m.args[0]; if res { parse_quote!(match #rc { Ok(__o) => __o, Err(_) => #b }) } else { parse_quote!(match #rc { Some(__o) => __o, None => #b }) } }
            ("ok_or_else", 1) => { let b = self.apply0(&m.args[0])?; parse_quote!(match #rc { Some(__o) => Ok(__o), None => Err(#b) }) }
            ("ok_or", 1) => { let b = &m.args[0]; parse_quote!(match #rc { Some(__o) => Ok(__o), None => Err(#b) }) }
            ("map_err", 1) => { let b = self.apply(&m.args[0], quote!(__e))?; parse_quote!(match #rc { Ok(__o) => Ok(__o), Err(__e) => Err(#b) }) }
            ("wrap_err_with", 1) => { let b = self.apply0(&m.args[0])?; parse_quote!(match #rc { Ok(__o) => Ok(__o), Err(__e) => Err(crate::stubs::Report::v_wrap_err(__e, #b)) }) }
            ("ok", 0) => parse_quote!(match #rc { Ok(__o) => Some(__o), Err(_) => None }),
            ("map_or", 2) => { let d = &m.args[0]; let b = self.apply(&m.args[1], quote!(__o))?; parse_quote!(match #rc { Some(__o) => #b, None => #d }) }
            ("map_or_else", 2) => { let d = self.apply0(&m.args[0])?; let b = self.apply(&m.args[1], quote!(__o))?; parse_quote!(match #rc { Some(__o) => #b, None => #d }) }
            ("filter", 1) => { let b = self.apply(&m.args[0], quote!(&__o))?; parse_quote!(match #rc { Some(__o) => if #b { Some(__o) } else { None }, None => None }) }
            ("then", 1) => { let b = self.apply0(&m.args[0])?; parse_quote!(if #rc { Some(#b) } else { None }) }
            _ => return None,
        };
        self.note("Option/Result combinator -> match");
        Some(out)
    }

    /// The text a format string and its arguments stand for.
    fn text_of(&mut self, args: Vec<Expr>) -> Option<Expr> {
        let mut it = args.iter();
        let Some(Expr::Lit(ExprLit { lit: Lit::Str(fs), .. })) = it.next() else { return None };
        let rest: Vec<Expr> = it.cloned().collect();
        let s = fs.value();
        let mut acc: Expr = parse_quote!(crate::stubs::v_empty());
        let mut lit = String::new();
        let cs: Vec<char> = s.chars().collect();
        let mut i = 0;
        let mut pos = 0;
        while i < cs.len() {
            match cs[i] {
                '{' if cs.get(i + 1) == Some(&'{') => { lit.push('{'); i += 2; }
                '}' if cs.get(i + 1) == Some(&'}') => { lit.push('}'); i += 2; }
                '{' => {
                    let end = (i..cs.len()).find(|&j| cs[j] == '}')?;
                    let inner: String = cs[i + 1..end].iter().collect();
                    let (inner, dbg) = match inner.strip_suffix(":?") { Some(x) => (x.to_string(), true), None => (inner, false) };
                    if inner.contains(':') { return Some(parse_quote!(crate::stubs::v_opaque_string())); }
                    let a: Expr = if inner.is_empty() { let e = rest.get(pos)?.clone(); pos += 1; e }
                        else if let Ok(n) = inner.parse::<usize>() { rest.get(n)?.clone() }
                        else { let id = format_ident!("{}", inner); parse_quote!(#id) };
                    if !lit.is_empty() { acc = parse_quote!(crate::stubs::vcat(#acc, #lit)); lit.clear(); }
                    acc = if dbg { parse_quote!(crate::stubs::vcat_s(#acc, crate::stubs::VDbg::dbg(&#a))) }
                        else { parse_quote!(crate::stubs::vcat_s(#acc, crate::stubs::VDisp::disp(&(#a)))) };
                    i = end + 1;
                }
                c => { lit.push(c); i += 1; }
            }
        }
        if !lit.is_empty() { acc = parse_quote!(crate::stubs::vcat(#acc, #lit)); }
        Some(acc)
    }

    fn mac(&mut self, mac: &Macro) -> Option<Expr> {
        let name = mac.path.segments.last()?.ident.to_string();
        match name.as_str() {
            "format" => {
                self.note("format! -> concatenation");
                if self.opts.contains("opaque_format") { return Some(parse_quote!(crate::stubs::v_opaque_string())); }
                let args: Punctuated<Expr, Token![,]> = mac.parse_body_with(Punctuated::parse_terminated).ok()?;
                self.text_of(args.into_iter().collect())
            }
            "println" | "eprintln" | "print" | "eprint" if self.opts.contains("world") => {
                self.note("println!/eprintln! -> effect stand-ins on the output log");
                let args: Punctuated<Expr, Token![,]> = mac.parse_body_with(Punctuated::parse_terminated).ok()?;
                let mut t: Expr = if args.is_empty() { parse_quote!(crate::stubs::v_empty()) } else { self.text_of(args.into_iter().collect())? };
                if name.ends_with("ln") { t = parse_quote!(crate::stubs::vcat(#t, "\n")); }
                let f = if name.starts_with('e') { format_ident!("v_eprint") } else { format_ident!("v_print") };
                Some(parse_quote!(crate::stubs::#f(__w, #t)))
            }
            "write" | "writeln" if self.opts.contains("world") => {
                let args: Punctuated<Expr, Token![,]> = mac.parse_body_with(Punctuated::parse_terminated).ok()?;
                let mut args: Vec<Expr> = args.into_iter().collect();
                if args.is_empty() { return None; }
                let dst = args.remove(0).to_token_stream().to_string().replace(' ', "");
                if !["io::stdout()", "std::io::stdout()"].contains(&dst.as_str()) { return None; }
                self.note("write!(stdout) -> effect stand-in on the output log");
                let mut t: Expr = if args.is_empty() { parse_quote!(crate::stubs::v_empty()) } else { self.text_of(args)? };
                if name == "writeln" { t = parse_quote!(crate::stubs::vcat(#t, "\n")); }
                Some(parse_quote!(crate::stubs::v_write_out(__w, #t)))
            }
            "env" => { self.note("env! -> some text"); Some(parse_quote!(crate::stubs::v_opaque_str())) }
            "matches" => {
                struct M { e: Expr, p: Pat, g: Option<Expr> }
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?; i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse()?) } else { None };
                        let _ = i.parse::<Option<Token![,]>>();
                        Ok(M { e, p, g })
                    }
                }
                let m: M = mac.parse_body().ok()?;
                self.note("matches! -> match");
                let (e, p) = (m.e, m.p);
                Some(match m.g { Some(g) => parse_quote!(match #e { #p if #g => true, _ => false }), None => parse_quote!(match #e { #p => true, _ => false }) })
            }
            "miette" => { self.note("miette! -> opaque report"); Some(parse_quote!(crate::stubs::v_report())) }
            "bail" => { self.note("bail! -> return Err(opaque report)"); Some(parse_quote!(return Err(crate::stubs::v_report()))) }
            "vec" => {
                struct Rep { e: Expr, n: Expr }
                impl syn::parse::Parse for Rep {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> { let e = i.parse()?; i.parse::<Token![;]>()?; Ok(Rep { e, n: i.parse()? }) }
                }
                if let Ok(r) = mac.parse_body::<Rep>() {
                    let (e, n) = (r.e, r.n);
                    self.note("vec![x; n] -> helper");
                    return Some(parse_quote!(crate::stubs::v_vec_rep(#e, #n)));
                }
                let args: Punctuated<Expr, Token![,]> = mac.parse_body_with(Punctuated::parse_terminated).ok()?;
                let mut args = args;
                for a in args.iter_mut() { self.visit_expr_mut(a); }
                let a: Vec<_> = args.iter().collect();
                if a.is_empty() { return Some(parse_quote!(Vec::new())); }
                Some(parse_quote!({ let mut __w = Vec::new(); #(__w.push(#a);)* __w }))
            }
            "unreachable" => Some(parse_quote!(vstd::pervasive::unreached())),
            "debug_assert" => None,
            _ => None,
        }
    }
}

/// `break`/`continue`/`?`-free at the level of the loop itself.
fn leaves_loop(b: &Block) -> bool {
    struct V { depth: usize, hit: bool }
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { if self.depth == 0 { self.hit = true; } }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { if self.depth == 0 { self.hit = true; } }
        fn visit_expr_for_loop(&mut self, e: &'a ExprForLoop) { self.depth += 1; visit::visit_expr_for_loop(self, e); self.depth -= 1; }
        fn visit_expr_while(&mut self, e: &'a ExprWhile) { self.depth += 1; visit::visit_expr_while(self, e); self.depth -= 1; }
        fn visit_expr_loop(&mut self, e: &'a ExprLoop) { self.depth += 1; visit::visit_expr_loop(self, e); self.depth -= 1; }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V { depth: 0, hit: false };
    syn::visit::Visit::visit_block(&mut v, b);
    v.hit
}

fn flatten_and(e: Expr, out: &mut Vec<Expr>) {
    match e {
        Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => { flatten_and(*b.left, out); flatten_and(*b.right, out); }
        Expr::Paren(p) if has_let(&p.expr) => flatten_and(*p.expr, out),
        e => out.push(e),
    }
}
fn has_let(e: &Expr) -> bool {
    match e { Expr::Let(_) => true, Expr::Binary(b) if matches!(b.op, BinOp::And(_)) => has_let(&b.left) || has_let(&b.right), Expr::Paren(p) => has_let(&p.expr), _ => false }
}

impl VisitMut for Desugar {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        // `let f = |a: T| e;` where f is only called: each call -> { let a: T = arg; e }
        let mut i = 0;
        while i < b.stmts.len() {
            let mut hit = None;
            if let Stmt::Local(l) = &b.stmts[i]
                && let Pat::Ident(id) = &l.pat
                && let Some(init) = &l.init && init.diverge.is_none()
                && let Expr::Closure(c) = &*init.expr
                && !ends_with_control(&c.body)
                && c.inputs.iter().all(|p| matches!(p, Pat::Ident(_)) || matches!(p, Pat::Type(t) if matches!(&*t.pat, Pat::Ident(_))))
            { hit = Some((id.ident.clone(), c.clone())); }
            if let Some((f, c)) = hit {
                let mut v = Inline { f, c, calls: 0, other: false, dry: true };
                for s in b.stmts[i + 1..].iter_mut() { v.visit_stmt_mut(s); }
                if !v.other && v.calls > 0 {
                    v.dry = false;
                    for s in b.stmts[i + 1..].iter_mut() { v.visit_stmt_mut(s); }
                    self.note("local closure that is only called -> its body at each call");
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        // `let it = CHAIN; for p in it BODY` -> `for p in CHAIN BODY` (adjacent, single use).
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            let mut hit = None;
            if let Stmt::Local(l) = &b.stmts[i]
                && let Pat::Ident(id) = &l.pat
                && let Some(init) = &l.init
                && let Expr::MethodCall(m) = &*init.expr
                && m.method == "chain"
                && let Stmt::Expr(Expr::ForLoop(f), _) = &b.stmts[i + 1]
                && let Expr::Path(p) = &*f.expr
                && p.path.is_ident(&id.ident)
            { hit = Some((*init.expr).clone()); }
            if let Some(e) = hit {
                if let Stmt::Expr(Expr::ForLoop(f), _) = &mut b.stmts[i + 1] { *f.expr = e; }
                b.stmts.remove(i);
            }
            i += 1;
        }
        let mut out = vec![];
        for s in std::mem::take(&mut b.stmts) {
            if let Stmt::Expr(Expr::ForLoop(f), _) = &s
                && f.label.is_none() && !leaves_loop(&f.body)
                && matches!(&*f.expr, Expr::MethodCall(m) if m.method == "chain")
                && let Some(v) = self.spread_for(&f.pat.clone(), &f.expr.clone(), &f.body.clone())
            { out.extend(v); continue; }
            out.push(s);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        // serde_json::Map is called JMap in the stand-ins (vstd's spec Map has the name).
        if p.segments.first().is_some_and(|s| s.ident == "Map") { p.segments[0].ident = format_ident!("JMap"); }
        let n = p.segments.len();
        // Iterators over characters are one stand-in type.
        if p.segments.last().is_some_and(|s| s.ident == "Peekable" || s.ident == "Chars" || s.ident == "CharIndices") {
            *p = parse_quote!(crate::stubs::VChars);
            return;
        }
        let txt: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let txt = txt.join("::");
        if p.segments.iter().take(n - 1).all(|s| s.arguments.is_empty())
            && let Some((_, to)) = PATHS.iter().find(|(f, _)| *f == txt)
        {
            self.note("library path -> stand-in with a contract");
            let args = p.segments.last().unwrap().arguments.clone();
            *p = syn::parse_str(to).unwrap();
            p.segments.last_mut().unwrap().arguments = args;
            visit_mut::visit_path_mut(self, p);
            return;
        }
        for i in 1..n { if p.segments[i - 1].ident == "serde_json" && p.segments[i].ident == "Map" { p.segments[i].ident = format_ident!("JMap"); } }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // Macro statements (bail!(..); etc.)
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.mac(&m.mac) {
                let mut e = e;
                visit_mut::visit_expr_mut(self, &mut e);
                *s = Stmt::Expr(e, m.semi_token);
                return;
            }
        }
        // `if` as a statement with value unit keeps its (lack of) semicolon.
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        let old = self.hint.take();
        if let Pat::Type(t) = &l.pat { self.hint = Some(t.ty.to_token_stream().to_string()); }
        visit_mut::visit_local_mut(self, l);
        self.hint = old;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // Top-down: macros and let-chains first.
        if let Expr::Macro(m) = e
            && let Some(n) = self.mac(&m.mac)
        {
            *e = n;
        }
        if let Expr::If(i) = e
            && has_let(&i.cond) && !matches!(&*i.cond, Expr::Let(_))
        {
            self.note("let-chain -> nested if");
            let mut parts = vec![];
            flatten_and((*i.cond).clone(), &mut parts);
            let els = i.else_branch.as_ref().map(|(_, e)| (**e).clone());
            let then = i.then_branch.clone();
            // Group leading non-let conjuncts.
            let mut groups: Vec<Expr> = vec![];
            for p in parts {
                let is_let = matches!(p, Expr::Let(_));
                if !is_let && groups.last().is_some_and(|g| !matches!(g, Expr::Let(_))) {
                    let g = groups.pop().unwrap();
                    groups.push(parse_quote!(#g && #p));
                } else { groups.push(p); }
            }
            let mut cur: Block = then;
            for (k, g) in groups.into_iter().rev().enumerate() {
                let _ = k;
                let ex: Expr = match &els {
                    Some(e) => parse_quote!(if #g #cur else #e),
                    None => parse_quote!(if #g #cur),
                };
                cur = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(ex, None)] };
            }
            if let Some(Stmt::Expr(x, _)) = cur.stmts.pop() { *e = x; }
        }
        // The error printer that is installed is not part of the contract.
        if let Expr::Call(c) = e && c.func.to_token_stream().to_string().replace(' ', "") == "miette::set_hook" {
            self.note("miette::set_hook(..) -> stand-in (which printer is installed is dropped)");
            *e = parse_quote!(crate::stubs::v_set_hook());
        }
        // Some(&x) patterns: bind the reference, then copy.
        if let Expr::If(i) = e
            && let Expr::Let(l) = &mut *i.cond
            && let Some(st) = deref_pat(&mut l.pat)
        {
            self.note("Some(&x) pattern -> bind the reference, then copy");
            i.then_branch.stmts.insert(0, st);
        }
        if let Expr::Match(m) = e {
            for a in &mut m.arms {
                if a.guard.is_none() && let Some(st) = deref_pat(&mut a.pat) {
                    let b = &a.body;
                    *a.body = parse_quote!({ #st #b });
                    self.note("Some(&x) pattern -> bind the reference, then copy");
                }
            }
        }
        if let Expr::ForLoop(f) = e {
            let mut hit = false;
            f.body.stmts = uncontinue(std::mem::take(&mut f.body.stmts), &mut hit);
            if hit { self.note("continue -> the rest of the body under the opposite condition"); }
        }
        if let Expr::ForLoop(f) = e
            && let Pat::Reference(r) = &*f.pat
            && let Pat::Ident(id) = &*r.pat
        {
            let rn = format_ident!("__r_{}", id.ident);
            let p = &id;
            let st: Stmt = parse_quote!(let #p = *#rn;);
            f.body.stmts.insert(0, st);
            *f.pat = parse_quote!(#rn);
        }
        // for (i, &b) in .. / for &(a, b) in ..: bind the references, then copy.
        if let Expr::ForLoop(f) = e {
            let mut st: Vec<Stmt> = vec![];
            match &mut *f.pat {
                Pat::Tuple(t) => for p in t.elems.iter_mut() {
                    if let Pat::Reference(r) = p && let Pat::Ident(id) = &*r.pat {
                        let rn = format_ident!("__r_{}", id.ident);
                        st.push(parse_quote!(let #id = *#rn;));
                        *p = parse_quote!(#rn);
                    }
                },
                Pat::Reference(r) if matches!(&*r.pat, Pat::Tuple(_)) => {
                    let t = &r.pat;
                    st.push(parse_quote!(let #t = *__r_t;));
                    *f.pat = parse_quote!(__r_t);
                }
                _ => {}
            }
            if !st.is_empty() { st.append(&mut f.body.stmts); f.body.stmts = st; self.note("reference patterns in for -> bind the reference, then copy"); }
        }
        // `for p in src.filter(..)/filter_map(..) { body }`: the test moves into the body.
        if let Expr::ForLoop(f) = e
            && f.label.is_none()
            && let Expr::MethodCall(m) = &*f.expr
            && (m.method == "filter" || m.method == "filter_map")
        {
            let (pat, body, ex) = (f.pat.clone(), f.body.clone(), (*f.expr).clone());
            let stmts = &body.stmts;
            if let Some((pre, l, _)) = self.chain_loop(&ex, |_, cur| Some(quote!(let #pat = #cur; #(#stmts)*))) && pre.is_empty() {
                *e = parse_quote!(#l);
                self.note("for over filter()/filter_map() -> the test in the body");
            }
        }
        // Iterator chains: rewrite before children so that closures become blocks.
        if let Expr::MethodCall(m) = e {
            let hint = self.hint.clone();
            let m2 = m.clone();
            if let Some(n) = self.try_chain(&m2) {
                self.hint = None;
                *e = n;
                self.depth += 1;
                visit_mut::visit_expr_mut(self, e);
                self.depth -= 1;
                self.hint = hint;
                return;
            }
            if let Some(n) = self.try_option(&m2) {
                *e = n;
                visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        // `for p in &x` is `for p in x.iter()` by definition of IntoIterator for &C.
        if let Expr::ForLoop(f) = e
            && let Expr::Reference(r) = &*f.expr
            && r.mutability.is_none()
        {
            let x = &r.expr;
            *f.expr = parse_quote!(#x.iter());
            self.note("for _ in &x -> x.iter()");
        }
        // `for p in x` over a reference-typed variable: only where the overlay says so.
        if let Expr::ForLoop(f) = e
            && let Expr::Path(p) = &*f.expr
            && self.opts.contains(&format!("iter {}", p.path.to_token_stream()))
        {
            let x = &f.expr;
            *f.expr = parse_quote!(#x.iter());
            self.note("for _ in x (x a reference) -> x.iter()");
        }
        if let Expr::ForLoop(f) = e
            && let Expr::MethodCall(m) = &mut *f.expr
            && m.args.is_empty() && (m.method == "enumerate" || m.method == "rev")
        {
            m.method = format_ident!("v_{}", m.method);
            if m.method == "v_enumerate"
                && let Expr::MethodCall(r) = &*m.receiver
                && r.args.is_empty() && r.method == "iter"
            {
                m.method = format_ident!("v_iter_enum");
                m.receiver = r.receiver.clone();
            }
            self.note("for over enumerate()/rev() -> indexed vector");
        }
        let saved = self.hint.take();
        visit_mut::visit_expr_mut(self, e);
        self.hint = saved;
        if let Expr::MethodCall(m) = e {
            let n = m.method.to_string();
            if (n == "len" || n == "is_empty") && m.args.is_empty()
                && self.opts.contains(&format!("strlen {}", m.receiver.to_token_stream().to_string().replace(' ', "")))
            {
                m.method = format_ident!("v_{}", n);
            }
            if (n == "min" || n == "max") && m.args.len() == 1 { m.method = format_ident!("v_{}", n); }
            if n == "contains" && m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(l) if matches!(l.lit, Lit::Char(_) | Lit::Str(_))) {
                m.method = format_ident!("v_has");
            } else if (RENAMES.contains(&n.as_str()) && !self.opts.contains(&format!("keep {n}"))) || self.opts.contains(&format!("rename {n}")) {
                m.method = format_ident!("v_{}", n);
                if n == "replace" && matches!(&m.args[0], Expr::Lit(l) if matches!(l.lit, Lit::Str(_))) { m.method = format_ident!("v_replace_all"); }
            }
        }
        // src.field.borrow_mut() / .borrow(): the field of the log.
        if let Expr::MethodCall(m) = e
            && self.opts.contains("log") && m.args.is_empty()
            && (m.method == "borrow_mut" || m.method == "borrow" || m.method == "v_borrow")
            && let Expr::Field(fd) = &*m.receiver
            && let Expr::Path(_) = &*fd.base
        {
            let mem = &fd.member;
            *e = parse_quote!(__w.#mem);
            self.note("RefCell fields -> fields of a log passed as an extra argument");
        }
        if let Expr::Call(c) = e
            && (self.opts.contains("world") || self.opts.contains("log"))
            && let Expr::Path(p) = &*c.func
            && let Some(seg) = p.path.segments.last()
            && (EFFECTS.contains(&seg.ident.to_string().as_str()) || (p.path.segments.len() == 1 && self.opts.contains(&format!("wcall {}", seg.ident))))
        {
            c.args.insert(0, parse_quote!(__w));
            self.note("effects are recorded in a log passed as an extra argument");
        }
        // (a..=b).contains(&x)
        if let Expr::MethodCall(m) = e
            && (m.method == "contains" || m.method == "v_contains") && m.args.len() == 1
            && let Expr::Paren(p) = &*m.receiver
            && let Expr::Range(r) = &*p.expr
            && let (Some(a), Some(z)) = (&r.start, &r.end)
            && let Expr::Reference(x) = &m.args[0]
        {
            let x = &x.expr;
            self.note("range.contains(&x) -> comparisons");
            *e = match r.limits {
                RangeLimits::Closed(_) => parse_quote!((#a <= #x && #x <= #z)),
                RangeLimits::HalfOpen(_) => parse_quote!((#a <= #x && #x < #z)),
            };
        }
        // x.by_ref().take(n).collect()
        if let Expr::MethodCall(m) = e
            && m.method == "collect"
            && let Expr::MethodCall(t) = &*m.receiver
            && t.method == "take" && t.args.len() == 1
            && let Expr::MethodCall(b) = &*t.receiver
            && b.method == "by_ref"
        {
            let (x, n) = (&b.receiver, &t.args[0]);
            self.note("by_ref().take(n).collect() -> v_take_str(n)");
            *e = parse_quote!(#x.v_take_str(#n));
        }
        // x as _
        if let Expr::Cast(c) = e && matches!(&*c.ty, Type::Infer(_)) { *e = (*c.expr).clone(); }
        // String + &str
        if let Expr::Binary(b) = e
            && matches!(b.op, BinOp::Add(_))
            && (matches!(&*b.right, Expr::Reference(_)) || matches!(&*b.right, Expr::MethodCall(m) if m.method.to_string().starts_with("v_slice_")))
        {
            let (l, r) = (&b.left, &b.right);
            self.note("String + &str -> v_concat");
            *e = parse_quote!(crate::text::v_concat(#l, #r));
        }
        // X == Some(literal)
        if let Expr::Binary(b) = e
            && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_))
            && let Expr::Call(c) = &*b.right
            && matches!(&*c.func, Expr::Path(p) if p.path.is_ident("Some")) && c.args.len() == 1
        {
            let (inner, by_ref) = match &c.args[0] { Expr::Reference(r) => ((*r.expr).clone(), true), x => (x.clone(), false) };
            if let Expr::Lit(l) = &inner {
                let x = &b.left;
                let is_str = matches!(l.lit, Lit::Str(_));
                let test: Expr = if is_str { parse_quote!(crate::stubs::v_str_eq(&__q, &#l)) }
                    else if by_ref { parse_quote!(*__q == #l) } else { parse_quote!(__q == #l) };
                let eq: Expr = parse_quote!((match #x { Some(__q) => #test, None => false }));
                self.note("x == Some(literal) -> match");
                *e = if matches!(b.op, BinOp::Eq(_)) { eq } else { parse_quote!(!#eq) };
            }
        }
        // String comparison: against a literal always, otherwise where the overlay says so.
        if let Expr::Binary(b) = e
            && matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_))
        {
            let lit = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
            let other_lit = |x: &Expr| matches!(x, Expr::Lit(l) if !matches!(l.lit, Lit::Str(_))) || matches!(x, Expr::Path(p) if p.path.is_ident("None"));
            let txt = b.left.to_token_stream().to_string().replace(' ', "");
            if lit(&b.left) || lit(&b.right) || self.opts.contains(&format!("streq {txt}"))
                || (self.opts.contains("streq") && !other_lit(&b.left) && !other_lit(&b.right))
            {
                self.note("string == -> v_str_eq (content comparison)");
                let (l, r) = (&b.left, &b.right);
                let c: Expr = parse_quote!(crate::stubs::v_str_eq(&#l, &#r));
                *e = if matches!(b.op, BinOp::Eq(_)) { c } else { parse_quote!(!#c) };
            }
        }
        // text.get(a..b)
        if let Expr::MethodCall(m) = e
            && m.method == "get" && m.args.len() == 1 && self.opts.contains("str_slice")
            && let Expr::Range(r) = &m.args[0]
            && let (Some(a), Some(z), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits)
        {
            let rc = &m.receiver;
            *e = parse_quote!(#rc.v_get(#a, #z));
            self.note("text.get(a..b) -> stand-in");
        }
        // a[x..y] on strings/slices is left to the overlay; string slicing gets a named helper.
        if let Expr::Index(ix) = e
            && matches!(&*ix.index, Expr::Range(_)) && self.opts.contains("str_slice")
        {
            let b = &ix.expr;
            if let Expr::Range(r) = &*ix.index {
                let n: Expr = match (&r.start, &r.end, &r.limits) {
                    (Some(a), Some(z), RangeLimits::HalfOpen(_)) => parse_quote!(#b.v_slice(#a, #z)),
                    (Some(a), None, _) => parse_quote!(#b.v_slice_from(#a)),
                    (None, Some(z), RangeLimits::HalfOpen(_)) => parse_quote!(#b.v_slice_to(#z)),
                    _ => return,
                };
                *e = n;
                self.note("string slice -> helper with bounds precondition");
            }
        }
        if let Expr::Reference(r) = e
            && let Expr::MethodCall(m) = &*r.expr
            && m.method.to_string().starts_with("v_slice")
        {
            *e = (*r.expr).clone();
        }
    }
}

#[allow(dead_code)]
fn unused(_: TokenTree) {}
