//! vx: mechanical extractor. Reads named items from /repo/src, applies a fixed
//! list of semantics-preserving desugarings (see DESIGN.md, "Extraction"), and
//! splices in the contracts of /verif/specs. Output: one Verus crate.
mod desugar;

use proc_macro2::TokenStream;
use quote::{ToTokens, quote};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Debug, Default, Clone)]
struct FnSpec {
    name: String,
    ret: Option<String>,
    spec: String,
    start: String,
    loops: BTreeMap<usize, String>,
    loop_start: BTreeMap<usize, String>,
    loop_end: BTreeMap<usize, String>,
    loop_after: BTreeMap<usize, String>,
    loop_before: BTreeMap<usize, String>,
    at: Vec<(bool, String, String)>, // (after?, fragment, text)
    closures: BTreeMap<usize, (String, String)>, // type, contract
    opts: BTreeSet<String>,
    repl: Vec<(String, String)>,
    sig: Option<String>,
    params: Option<Vec<String>>,
}

#[derive(Debug)]
enum Piece {
    Verbatim(String),
    Type(String, Vec<String>),
    Const(String),
    Fn(FnSpec),
}

#[derive(Debug)]
struct Module {
    name: String,
    src: String,
    pieces: Vec<Piece>,
}

fn parse_spec(path: &Path) -> Module {
    let text = fs::read_to_string(path).unwrap();
    let mut module = Module { name: String::new(), src: String::new(), pieces: vec![] };
    let mut verb = String::new();
    let mut cur: Option<FnSpec> = None;
    // which section of cur receives text
    #[derive(Clone)]
    enum Sec { Spec, Start, Loop(usize), LStart(usize), LEnd(usize), LAfter(usize), LBefore(usize), At(usize), Closure(usize), Sig }
    let mut sec = Sec::Spec;
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match cmd {
                "module" => {
                    let (a, b) = rest.split_once(' ').expect("module NAME SRC");
                    module.name = a.into();
                    module.src = b.trim().into();
                }
                "type" => {
                    module.pieces.push(Piece::Verbatim(std::mem::take(&mut verb)));
                    let mut it = rest.split_whitespace().map(String::from);
                    module.pieces.push(Piece::Type(it.next().unwrap(), it.collect()));
                }
                "const" => {
                    module.pieces.push(Piece::Verbatim(std::mem::take(&mut verb)));
                    module.pieces.push(Piece::Const(rest.into()));
                }
                "fn" => {
                    assert!(cur.is_none(), "nested //@fn at {rest}");
                    module.pieces.push(Piece::Verbatim(std::mem::take(&mut verb)));
                    cur = Some(FnSpec { name: rest.into(), ..Default::default() });
                    sec = Sec::Spec;
                }
                "end" => {
                    module.pieces.push(Piece::Fn(cur.take().expect("//@end without fn")));
                }
                "note" => {}
                _ => {
                    let c = cur.as_mut().unwrap_or_else(|| panic!("directive {cmd} outside fn"));
                    match cmd {
                        "ret" => c.ret = Some(rest.into()),
                        "opt" => { c.opts.insert(rest.into()); }
                        "params" => c.params = Some(rest.split_whitespace().map(String::from).collect()),
                        "sig" => sec = Sec::Sig,
                        "spec" => sec = Sec::Spec,
                        "start" => sec = Sec::Start,
                        "loop" => sec = Sec::Loop(rest.parse().unwrap()),
                        "loop-start" => sec = Sec::LStart(rest.parse().unwrap()),
                        "loop-end" => sec = Sec::LEnd(rest.parse().unwrap()),
                        "loop-before" => sec = Sec::LBefore(rest.parse().unwrap()),
                        "closure" => {
                            let (n, ty) = rest.split_once(' ').expect("closure N TYPE");
                            let n = n.parse().unwrap();
                            c.closures.insert(n, (ty.into(), String::new()));
                            sec = Sec::Closure(n);
                        }
                        "loop-after" => sec = Sec::LAfter(rest.parse().unwrap()),
                        "before" | "after" => {
                            c.at.push((cmd == "after", rest.replace(char::is_whitespace, ""), String::new()));
                            sec = Sec::At(c.at.len() - 1);
                        }
                        "replace" => {
                            let (a, b) = match rest.trim_end().strip_suffix(" =>") { Some(a) => (a, ""), None => rest.split_once(" => ").expect("replace A => B") };
                            c.repl.push((a.into(), b.into()));
                        }
                        _ => panic!("unknown directive {cmd}"),
                    }
                }
            }
            continue;
        }
        match &mut cur {
            None => { verb.push_str(line); verb.push('\n'); }
            Some(c) => {
                let dst = match sec {
                    Sec::Spec => &mut c.spec,
                    Sec::Start => &mut c.start,
                    Sec::Loop(n) => c.loops.entry(n).or_default(),
                    Sec::LStart(n) => c.loop_start.entry(n).or_default(),
                    Sec::LEnd(n) => c.loop_end.entry(n).or_default(),
                    Sec::LAfter(n) => c.loop_after.entry(n).or_default(),
                    Sec::LBefore(n) => c.loop_before.entry(n).or_default(),
                    Sec::At(n) => &mut c.at[n].2,
                    Sec::Closure(n) => &mut c.closures.get_mut(&n).unwrap().1,
                    Sec::Sig => c.sig.get_or_insert_with(String::new),
                };
                dst.push_str(line);
                dst.push('\n');
            }
        }
    }
    assert!(cur.is_none(), "unterminated //@fn in {}", path.display());
    module.pieces.push(Piece::Verbatim(verb));
    module
}

// ---------------------------------------------------------------------------
// Finding items in the source
// ---------------------------------------------------------------------------
fn is_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.meta.to_token_stream().to_string().contains("test"))
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        _ => t.to_token_stream().to_string(),
    }
}

struct FoundFn {
    item: ItemFn,
    self_ty: Option<String>,
    impl_generics: Option<Generics>,
    line: (usize, usize),
    assoc: HashMap<String, Type>,
}

fn find_fn(file: &File, name: &str) -> Option<FoundFn> {
    use syn::spanned::Spanned;
    let (ty, tr, fname) = if let Some(r) = name.strip_prefix('<') {
        let (tt, f) = r.split_once(">::")?;
        let (tr, ty) = tt.split_once(" for ")?;
        (Some(ty.to_string()), Some(tr.to_string()), f.to_string())
    } else if let Some((t, f)) = name.rsplit_once("::") {
        (Some(t.to_string()), None, f.to_string())
    } else {
        (None, None, name.to_string())
    };
    let mut found = None;
    for it in &file.items {
        match it {
            Item::Fn(f) if ty.is_none() && f.sig.ident == fname && !is_test_cfg(&f.attrs) => {
                let sp = f.span();
                found = Some(FoundFn { item: f.clone(), self_ty: None, impl_generics: None, line: (sp.start().line, sp.end().line), assoc: HashMap::new() });
            }
            Item::Impl(i) if ty.is_some() && !is_test_cfg(&i.attrs) => {
                if type_name(&i.self_ty) != *ty.as_ref().unwrap() { continue; }
                match (&tr, &i.trait_) {
                    (None, None) => {}
                    (Some(t), Some((_, p, _))) if p.segments.last().unwrap().ident == t => {}
                    _ => continue,
                }
                for ii in &i.items {
                    if let ImplItem::Fn(m) = ii
                        && m.sig.ident == fname && !is_test_cfg(&m.attrs)
                    {
                        let sp = m.span();
                        found = Some(FoundFn {
                            item: ItemFn { attrs: m.attrs.clone(), vis: m.vis.clone(), sig: m.sig.clone(), block: Box::new(m.block.clone()) },
                            self_ty: Some(i.self_ty.to_token_stream().to_string().replace(' ', "")),
                            impl_generics: Some(i.generics.clone()),
                            line: (sp.start().line, sp.end().line),
                            assoc: i.items.iter().filter_map(|x| if let ImplItem::Type(t) = x { Some((t.ident.to_string(), t.ty.clone())) } else { None }).collect(),
                        });
                    }
                }
            }
            _ => {}
        }
    }
    found
}

fn keep_attr(_a: &Attribute) -> bool { false }

struct Assoc<'a>(&'a HashMap<String, Type>);
impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t && p.path.segments.len() == 2 && p.path.segments[0].ident == "Self"
            && let Some(x) = self.0.get(&p.path.segments[1].ident.to_string()) { *t = x.clone(); return; }
        visit_mut::visit_type_mut(self, t);
    }
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.retain(keep_attr); }
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut out = vec![];
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| { out.push(m.path.segments.last().unwrap().ident.to_string()); Ok(()) });
        }
    }
    out
}

fn emit_type(file: &File, name: &str, opts: &[String]) -> Option<String> {
    for it in &file.items {
        let (ident, attrs, mut item) = match it {
            Item::Struct(s) => (s.ident.to_string(), s.attrs.clone(), it.clone()),
            Item::Enum(s) => (s.ident.to_string(), s.attrs.clone(), it.clone()),
            Item::Type(s) => (s.ident.to_string(), s.attrs.clone(), it.clone()),
            _ => continue,
        };
        if ident != name { continue; }
        StripAttrs.visit_item_mut(&mut item);
        let generics;
        match &mut item {
            Item::Struct(s) => {
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() { f.vis = parse_quote!(pub); }
                // drop=a,b: fields that live in the log of the walk instead.
                for o in opts { if let Some(d) = o.strip_prefix("drop=") && let Fields::Named(fs) = &mut s.fields {
                    fs.named = std::mem::take(&mut fs.named).into_iter().filter(|f| !d.split(',').any(|x| f.ident.as_ref().is_some_and(|i| i == x))).collect();
                } }
                generics = s.generics.clone();
            }
            Item::Enum(s) => { s.vis = parse_quote!(pub); generics = s.generics.clone(); }
            Item::Type(s) => { s.vis = parse_quote!(pub); return Some(rustfmt(&item.to_token_stream().to_string())); }
            _ => unreachable!(),
        }
        let (ig, tg, wc) = generics.split_for_impl();
        let ds = derives(&attrs);
        let mut s = String::new();
        let id = format_ident(name);
        if ds.iter().any(|d| d == "Copy") { s.push_str("#[derive(Clone, Copy)]\n"); }
        for o in opts { if let Some(a) = o.strip_prefix("attr=") { s.push_str(&format!("#[{a}]\n")); } }
        let mut t = rustfmt(&item.to_token_stream().to_string());
        // as=FROM:TO: a field type replaced by its stand-in.
        for o in opts { if let Some((a, b)) = o.strip_prefix("as=").and_then(|x| x.split_once(':')) { t = t.replace(a, b); } }
        s.push_str(&t);
        if ds.iter().any(|d| d == "Clone") && !ds.iter().any(|d| d == "Copy") {
            s.push_str(&format!("impl{} Clone for {}{} {} {{\n    #[verifier::external_body]\n    fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}\n}}\n",
                ig.to_token_stream(), id, tg.to_token_stream(), wc.to_token_stream()));
        }
        if ds.iter().any(|d| d == "PartialEq") && !opts.iter().any(|o| o == "noeq") {
            s.push_str(&format!("impl{0} PartialEq for {1}{2} {3} {{\n    #[verifier::external_body]\n    fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }}\n}}\nimpl{0} vstd::std_specs::cmp::PartialEqSpecImpl for {1}{2} {3} {{\n    open spec fn obeys_eq_spec() -> bool {{ true }}\n    open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }}\n}}\n",
                ig.to_token_stream(), id, tg.to_token_stream(), wc.to_token_stream()));
        }
        return Some(s);
    }
    None
}

fn format_ident(s: &str) -> String { s.to_string() }

fn emit_const(file: &File, name: &str) -> Option<String> {
    for it in &file.items {
        let (ident, ty, expr) = match it {
            Item::Const(c) => (c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone()),
            Item::Static(c) => (c.ident.to_string(), (*c.ty).clone(), (*c.expr).clone()),
            _ => continue,
        };
        if ident != name { continue; }
        // &[&str] literal arrays: an exec const whose contract lists the elements.
        if let Expr::Reference(r) = &expr
            && let Expr::Array(a) = &*r.expr
            && a.elems.iter().all(|e| matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })))
        {
            let n = a.elems.len();
            let mut s = format!("pub open spec fn {name}_spec() -> Seq<Seq<char>> {{ seq![{}] }}\n",
                a.elems.iter().map(|e| format!("{}@", e.to_token_stream())).collect::<Vec<_>>().join(", "));
            s.push_str(&format!("pub exec const {name}: &'static [&'static str]\n    ensures {name}@.len() == {n}, {name}_spec().len() == {n},\n"));
            for (i, e) in a.elems.iter().enumerate() {
                s.push_str(&format!("        {name}@[{i}]@ == {0}@, {name}_spec()[{i}] == {0}@,\n", e.to_token_stream()));
            }
            // ... and which strings they are, in any order
            let or = a.elems.iter().map(|e| format!("s == {}@", e.to_token_stream())).collect::<Vec<_>>().join(" || ");
            if n > 0 && n <= 32 {
                s.push_str(&format!("        forall|s: Seq<char>| #[trigger] crate::stubs::has_str({name}@, s) <==> ({or}),\n"));
                s.push_str(&format!("{{ let __c: &'static [&'static str] = {}; proof {{ assert forall|s: Seq<char>| #[trigger] crate::stubs::has_str(__c@, s) <==> ({or}) by {{ {} }} }} __c }}\n", expr.to_token_stream(),
                    a.elems.iter().enumerate().map(|(i, e)| format!("assert(__c@[{i}]@ == {}@);", e.to_token_stream())).collect::<Vec<_>>().join(" ")));
            } else {
                s.push_str(&format!("{{ {} }}\n", expr.to_token_stream()));
            }
            return Some(s);
        }
        // A struct of flags and string slices: its contract lists the fields.
        if let Expr::Struct(st) = &expr {
            let lits = |n: &str| -> Option<Vec<String>> {
                file.items.iter().find_map(|it| match it {
                    Item::Const(c) if c.ident == n => match &*c.expr {
                        Expr::Reference(r) => match &*r.expr { Expr::Array(a) => Some(a.elems.iter().map(|e| e.to_token_stream().to_string()).collect()), _ => None },
                        _ => None,
                    },
                    _ => None,
                })
            };
            let mut ens = vec![];
            let mut proof = String::new();
            for f in &st.fields {
                let Member::Named(id) = &f.member else { return None };
                let ls = match &f.expr {
                    Expr::Path(p) => p.path.get_ident().and_then(|i| lits(&i.to_string())),
                    Expr::Reference(r) => match &*r.expr { Expr::Array(a) => Some(a.elems.iter().map(|e| e.to_token_stream().to_string()).collect()), _ => None },
                    e => { ens.push(format!("{name}.{id} == {}", e.to_token_stream())); continue; }
                };
                let ls = ls?;
                ens.push(format!("{name}.{id}@.len() == {}", ls.len()));
                for (i, l) in ls.iter().enumerate() { ens.push(format!("{name}.{id}@[{i}]@ == {l}@")); }
                if ls.is_empty() { continue; }
                let or = ls.iter().map(|l| format!("s == {l}@")).collect::<Vec<_>>().join(" || ");
                let q = |n: &str| format!("forall|s: Seq<char>| #[trigger] crate::stubs::has_str({n}.{id}@, s) <==> ({or})");
                ens.push(q(name));
                proof.push_str(&format!("assert {} by {{ {} }}\n", q("__c"),
                    ls.iter().enumerate().map(|(i, l)| format!("assert(__c.{id}@[{i}]@ == {l}@);")).collect::<Vec<_>>().join(" ")));
            }
            return Some(format!("pub exec const {name}: {}\n    ensures {},\n{{ let __c = {}; proof {{ {proof} }} __c }}\n", ty.to_token_stream(), ens.join(", "), expr.to_token_stream()));
        }
        struct St;
        impl VisitMut for St {
            fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
                if r.lifetime.is_none() { r.lifetime = Some(parse_quote!('static)); }
                visit_mut::visit_type_reference_mut(self, r);
            }
        }
        let mut ty = ty;
        St.visit_type_mut(&mut ty);
        let ty = ty.to_token_stream().to_string();
        if matches!(&expr, Expr::Reference(r) if matches!(&*r.expr, Expr::Array(_))) {
            return Some(format!("pub exec const {name}: {ty} ensures true {{ {} }}\n", expr.to_token_stream()));
        }
        return Some(format!("pub const {name}: {ty} = {};\n", expr.to_token_stream()));
    }
    None
}

// Formatting is batched: a first pass over all items only records what is to
// be formatted (COLLECT), a few rustfmt processes format it, and the second
// pass looks the results up.
static COLLECT: std::sync::Mutex<Option<Vec<String>>> = std::sync::Mutex::new(None);
static CACHE: std::sync::Mutex<BTreeMap<String, String>> = std::sync::Mutex::new(BTreeMap::new());
fn collecting() -> bool { COLLECT.lock().unwrap().is_some() }
fn format_batch(items: Vec<String>) {
    const SEP: &str = "// __vx_item_separator";
    let n = items.len().div_ceil(8).max(1);
    std::thread::scope(|sc| {
        for chunk in items.chunks(n) {
            sc.spawn(move || {
                let all = chunk.join(&format!("\n{SEP}\n"));
                let out = rustfmt1(&all);
                let parts: Vec<&str> = out.split(&format!("{SEP}\n")).collect();
                if out == all || parts.len() != chunk.len() { return; }
                let mut c = CACHE.lock().unwrap();
                for (a, b) in chunk.iter().zip(parts) { c.insert(a.clone(), b.trim_start_matches('\n').trim_end_matches('\n').to_string() + "\n"); }
            });
        }
    });
}
fn rustfmt(src: &str) -> String {
    if let Some(v) = COLLECT.lock().unwrap().as_mut() { v.push(src.to_string()); return src.to_string(); }
    if let Some(x) = CACHE.lock().unwrap().get(src) { return x.clone(); }
    rustfmt1(src)
}
fn rustfmt1(src: &str) -> String {
    let mut ch = Command::new("rustfmt")
        .args(["--edition", "2024", "--emit", "stdout", "--config", "max_width=100"])
        .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("rustfmt");
    ch.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let o = ch.wait_with_output().unwrap();
    if !o.status.success() || o.stdout.is_empty() { return src.to_string(); }
    String::from_utf8(o.stdout).unwrap()
}

// ---------------------------------------------------------------------------
// Loop marking and statement anchors
// ---------------------------------------------------------------------------
struct Marker<'a> {
    spec: &'a FnSpec,
    next: usize,
    headers: Vec<String>,
    hits: Vec<usize>,
    closures: usize,
    pending: Vec<Stmt>,
}
impl Marker<'_> {
    fn mark_body(&mut self, n: usize, body: &mut Block) {
        let lit = Index::from(n);
        let mut st: Vec<Stmt> = vec![parse_quote!(__vx_loop!(#lit);)];
        if self.spec.loop_start.contains_key(&n) { st.push(parse_quote!(__vx_ls!(#lit);)); }
        st.append(&mut body.stmts);
        if self.spec.loop_end.contains_key(&n) {
            if let Some(Stmt::Expr(_, semi @ None)) = st.last_mut() { *semi = Some(Default::default()); }
            st.push(parse_quote!(__vx_le!(#lit);));
        }
        body.stmts = st;
    }
}
impl VisitMut for Marker<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let n = self.next; self.next += 1;
                self.headers.push(format!("for {} in {}", f.pat.to_token_stream(), f.expr.to_token_stream()));
                visit_mut::visit_expr_mut(self, &mut f.expr);
                let id = quote::format_ident!("__vxit{}", n);
                let ex = &f.expr;
                *f.expr = parse_quote!(#id(#ex));
                self.visit_block_mut(&mut f.body);
                self.mark_body(n, &mut f.body);
                return;
            }
            Expr::While(w) => {
                let n = self.next; self.next += 1;
                self.headers.push(format!("while {}", w.cond.to_token_stream()));
                visit_mut::visit_expr_while_mut(self, w);
                self.mark_body(n, &mut w.body);
                return;
            }
            Expr::Loop(w) => {
                let n = self.next; self.next += 1;
                self.headers.push("loop".into());
                visit_mut::visit_expr_loop_mut(self, w);
                self.mark_body(n, &mut w.body);
                return;
            }
            Expr::Closure(c) => {
                let n = self.closures; self.closures += 1;
                visit_mut::visit_expr_closure_mut(self, c);
                // //@closure N fn(T, ..) -> (o: R): types and contract of the n-th closure.
                if let Some((ty, _)) = self.spec.closures.get(&n)
                    && let Ok(Type::BareFn(t)) = parse_str::<Type>(ty)
                    && t.inputs.len() == c.inputs.len()
                {
                    for (p, a) in c.inputs.iter_mut().zip(&t.inputs) {
                        let q = match &*p { Pat::Type(pt) => (*pt.pat).clone(), q => q.clone() };
                        let ty = &a.ty;
                        *p = Pat::Type(PatType { attrs: vec![], pat: Box::new(q), colon_token: Default::default(), ty: Box::new(ty.clone()) });
                    }
                    if let ReturnType::Type(_, r) = &t.output { c.output = parse_quote!(-> __VxRet_o<#r>); }
                    let b = &c.body;
                    let lit = Index::from(n);
                    *c.body = parse_quote!({ __vx_cl!(#lit); #b });
                    // Bound to a name before the statement, so that proof text can mention it.
                    let f = quote::format_ident!("__f{}", n);
                    let cl = c.clone();
                    self.pending.push(parse_quote!(let #f = #cl;));
                    *e = parse_quote!(#f);
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let outer = std::mem::take(&mut self.pending);
        for mut s in std::mem::take(&mut b.stmts) {
            let txt = s.to_token_stream().to_string().replace(char::is_whitespace, "");
            let mut pre = vec![];
            let mut post = vec![];
            for (i, (after, frag, _)) in self.spec.at.iter().enumerate() {
                if txt.starts_with(frag.as_str()) {
                    self.hits[i] += 1;
                    let lit = Index::from(i);
                    let m: Stmt = parse_quote!(__vx_at!(#lit););
                    if *after { post.push(m) } else { pre.push(m) }
                }
            }
            let before = self.next;
            if let Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), _) = &s
                && self.spec.loop_before.contains_key(&before)
            {
                let lit = Index::from(before);
                pre.push(parse_quote!(__vx_lb!(#lit);));
            }
            self.visit_stmt_mut(&mut s);
            // A loop at statement level: proof text after the loop.
            if let Stmt::Expr(Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_), semi) = &mut s
                && self.spec.loop_after.contains_key(&before)
            {
                let lit = Index::from(before);
                if semi.is_none() { *semi = Some(Default::default()); }
                post.insert(0, parse_quote!(__vx_la!(#lit);));
            }
            out.append(&mut self.pending);
            out.extend(pre);
            out.push(s);
            out.extend(post);
        }
        b.stmts = out;
        self.pending = outer;
    }
}

struct Emitted { text: String, headers: Vec<String>, locals: Vec<String>, params: Vec<String>, problems: Vec<String>, desugars: Vec<String>, line: (usize, usize), src_hash: u64 }

fn rename_tokens(text: &str, map: &HashMap<String, String>) -> String {
    if map.is_empty() { return text.to_string(); }
    let mut out = String::new();
    let mut word = String::new();
    let mut prev_dot = false;
    let flush = |w: &mut String, out: &mut String, dot: bool| {
        if !w.is_empty() {
            match map.get(w.as_str()) { Some(n) if !dot => out.push_str(n), _ => out.push_str(w) }
            w.clear();
        }
    };
    for c in text.chars() {
        if c.is_alphanumeric() || c == '_' { word.push(c); }
        else {
            let had = !word.is_empty();
            flush(&mut word, &mut out, prev_dot);
            if had || !c.is_whitespace() { prev_dot = c == '.'; }
            out.push(c);
        }
    }
    flush(&mut word, &mut out, prev_dot);
    out
}

fn replace_marker(text: &str, name: &str, f: &dyn Fn(usize) -> String, brace: bool) -> String {
    // brace: the marker is the first thing in a block: `{ marker` -> `TEXT {`
    let mut out = String::new();
    let mut rest = text;
    loop {
        let Some(p) = rest.find(&format!("{name}")) else { out.push_str(rest); break; };
        let after = &rest[p + name.len()..];
        let close = after.find(';').unwrap();
        let num: usize = after[..close].chars().filter(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap();
        let before = &rest[..p];
        if brace {
            let b = before.rfind('{').unwrap();
            out.push_str(before[..b].trim_end());
            out.push('\n');
            out.push_str(&f(num));
            out.push_str("{\n");
        } else {
            out.push_str(before);
            out.push_str(&f(num));
        }
        rest = &after[close + 1..];
    }
    out
}

fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

fn pat_idents(p: &Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'a> syn::visit::Visit<'a> for V<'_> {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) { self.0.push(i.ident.to_string()); syn::visit::visit_pat_ident(self, i); }
    }
    syn::visit::Visit::visit_pat(&mut V(out), p);
}

fn emit_fn(found: &FoundFn, spec: &FnSpec, demote: bool, baseline: Option<&Value>) -> Emitted {
    let mut f = found.item.clone();
    StripAttrs.visit_item_fn_mut(&mut f);
    Assoc(&found.assoc).visit_item_fn_mut(&mut f);
    let src_hash = fnv(&f.to_token_stream().to_string());
    f.vis = parse_quote!(pub);
    f.sig.constness = None;
    // The log of effects: a ghost extra parameter.
    if spec.opts.contains("world") { f.sig.inputs.insert(0, parse_quote!(__w: &mut crate::stubs::VWorld)); }
    // What the walk records behind shared references (RefCell fields): an extra parameter.
    if spec.opts.contains("log") { f.sig.inputs.insert(0, parse_quote!(__w: &mut crate::walk::VWalk)); }
    let mut problems = vec![];
    // `impl Into<T>` / `impl AsRef<Path>` parameters: the stand-in traits.
    for a in f.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a
            && let Type::ImplTrait(it) = &mut *t.ty
            && let Some(TypeParamBound::Trait(tb)) = it.bounds.first_mut()
            && let Some(seg) = tb.path.segments.last().cloned()
        {
            if seg.ident == "Into" {
                let ar = &seg.arguments;
                tb.path = parse_quote!(crate::stubs::VInto #ar);
            } else if seg.ident == "AsRef" && seg.arguments.to_token_stream().to_string().replace(' ', "") == "<Path>" {
                tb.path = parse_quote!(crate::stubs::VPathArg);
                struct AR(String);
                impl VisitMut for AR {
                    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
                        syn::visit_mut::visit_expr_method_call_mut(self, m);
                        if m.method == "as_ref" && m.receiver.to_token_stream().to_string() == self.0 { m.method = quote::format_ident!("v_as_path"); }
                    }
                }
                let n = t.pat.to_token_stream().to_string();
                AR(n).visit_block_mut(&mut f.block);
            }
        }
    }

    // Parameter and local names, in binding order (for alpha-renaming overlays).
    let mut params = vec![];
    for a in &f.sig.inputs { if let FnArg::Typed(t) = a { pat_idents(&t.pat, &mut params); } }
    let mut locals = vec![];
    {
        struct L<'a>(&'a mut Vec<String>);
        impl<'a> syn::visit::Visit<'a> for L<'_> {
            fn visit_pat_ident(&mut self, i: &'a PatIdent) { self.0.push(i.ident.to_string()); syn::visit::visit_pat_ident(self, i); }
        }
        syn::visit::Visit::visit_block(&mut L(&mut locals), &f.block);
    }

    // `-> impl Iterator<Item = T>`: the sequence is returned as a Vec<T>.
    let mut iter_ret = false;
    if let ReturnType::Type(_, t) = &mut f.sig.output
        && let Type::ImplTrait(it) = &**t
        && let Some(TypeParamBound::Trait(tb)) = it.bounds.first()
        && let Some(seg) = tb.path.segments.last()
        && seg.ident == "Iterator"
        && let PathArguments::AngleBracketed(ab) = &seg.arguments
        && let Some(GenericArgument::AssocType(at)) = ab.args.first()
    {
        let item = at.ty.clone();
        **t = parse_quote!(Vec<#item>);
        if let Some(Stmt::Expr(e, None)) = f.block.stmts.last_mut()
            && let Expr::MethodCall(m) = e
            && ["map", "filter", "filter_map", "cloned"].contains(&m.method.to_string().as_str())
        { let e2 = e.clone(); *e = parse_quote!(#e2.collect::<Vec<#item>>()); }
        iter_ret = true;
    }
    // D: textual token replacements requested by the overlay (listed in report).
    let mut ds = desugar::Desugar::new(spec.opts.clone());
    ds.ret_ty = match &f.sig.output { ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()), _ => None };
    ds.visit_block_mut(&mut f.block);
    ds.visit_signature_mut(&mut f.sig);
    problems.extend(ds.problems.iter().cloned());
    if iter_ret { ds.log.push("impl Iterator result -> Vec of its items".into()); }

    let mut mk = Marker { spec, next: 0, headers: vec![], hits: vec![0; spec.at.len()], closures: 0, pending: vec![] };
    mk.visit_block_mut(&mut f.block);
    for (i, h) in mk.hits.iter().enumerate() {
        if *h != 1 { problems.push(format!("anchor `{}` matched {} statements", spec.at[i].1, h)); }
    }
    let headers = mk.headers.clone();
    for n in spec.closures.keys() { if *n >= mk.closures { problems.push(format!("closure {n} not found")); } }
    for n in spec.loops.keys() { if *n >= headers.len() { problems.push(format!("loop {n} not found")); } }

    // Alpha-renaming of the overlay text against the recorded names.
    let mut ren: HashMap<String, String> = HashMap::new();
    if let Some(b) = baseline {
        let g = |k: &str| -> Vec<String> { b[k].as_array().map(|a| a.iter().map(|v| v.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
        let (bp, bl, bh) = (g("params"), g("locals"), g("headers"));
        if bp.len() == params.len() {
            for (o, n) in bp.iter().zip(&params) { if o != n { ren.insert(o.clone(), n.clone()); } }
        } else { problems.push("parameter list changed".into()); }
        if bl.len() == locals.len() {
            for (o, n) in bl.iter().zip(&locals) { if o != n && !locals.contains(o) { ren.insert(o.clone(), n.clone()); } }
        }
        if !spec.loops.is_empty() {
            let bh2: Vec<String> = bh.iter().map(|h| rename_tokens(h, &ren)).collect();
            if bh2 != headers { problems.push(format!("loop headers changed: {:?} -> {:?}", bh2, headers)); }
        }
    }
    let rn = |s: &str| rename_tokens(s, &ren);

    // Return binder.
    let mut ret_ty = None;
    if let ReturnType::Type(_, t) = &f.sig.output {
        ret_ty = Some(t.to_token_stream().to_string());
        let r = spec.ret.clone().unwrap_or_else(|| "r".into());
        let id = quote::format_ident!("__VxRet_{}", r);
        let tt = t.clone();
        f.sig.output = parse_quote!(-> #id<#tt>);
    }
    // A body that ends in a loop is left by `return` alone.
    let endless = matches!(f.block.stmts.last(), Some(Stmt::Expr(Expr::Loop(l), _)) if !l.body.to_token_stream().to_string().contains("break"));
    let mut first: Vec<Stmt> = vec![parse_quote!(__vx_spec!(0);)];
    if !spec.start.is_empty() { first.push(parse_quote!(__vx_start!(0);)); }
    if demote || spec.opts.contains("external_body") {
        f.block = parse_quote!({ __vx_spec!(0); unimplemented!() });
    } else {
        if std::env::var("VX_VACUITY").is_ok() {
            // Must-fail variant: the end of the body is claimed unreachable.
            let b = &f.block;
            let st: Vec<Stmt> = match &ret_ty {
                Some(t) => { let t: Type = parse_str(t).unwrap(); parse_quote!(let __vx_out: #t = #b; __vx_vac!(0); __vx_out) }
                None => parse_quote!(let __vx_out = #b; __vx_vac!(0); __vx_out),
            };
            first.extend(st);
            f.block.stmts = first;
        } else {
            first.append(&mut f.block.stmts);
            f.block.stmts = first;
        }
    }
    let item: TokenStream = if let Some(st) = &found.self_ty {
        let ty: Type = parse_str(st).unwrap();
        let (ig, _, wc) = found.impl_generics.as_ref().unwrap().split_for_impl();
        quote!(impl #ig #ty #wc { #f })
    } else { f.to_token_stream() };
    let mut text = rustfmt(&item.to_string());
    if collecting() { return Emitted { text: String::new(), headers, locals, params, problems: vec![], desugars: vec![], line: found.line, src_hash }; }
    // splice
    text = replace_marker(&text, "__vx_spec!", &|_| rn(&spec.spec), true);
    text = replace_marker(&text, "__vx_cl!", &|n| rn(&spec.closures[&n].1), true);
    text = replace_marker(&text, "__vx_start!", &|_| rn(&spec.start), false);
    text = replace_marker(&text, "__vx_loop!", &|n| spec.loops.get(&n).map(|s| rn(s)).unwrap_or_default(), true);
    text = replace_marker(&text, "__vx_ls!", &|n| rn(&spec.loop_start[&n]), false);
    text = replace_marker(&text, "__vx_le!", &|n| rn(&spec.loop_end[&n]), false);
    text = replace_marker(&text, "__vx_la!", &|n| rn(&spec.loop_after[&n]), false);
    text = replace_marker(&text, "__vx_lb!", &|n| rn(&spec.loop_before[&n]), false);
    if endless && text.contains("__vx_vac!") {
        text = text.lines().map(|l| if l.trim_start().starts_with("return ") { format!("proof {{ assert(false); }}\n{l}\n") } else { format!("{l}\n") }).collect();
    }
    text = replace_marker(&text, "__vx_vac!", &|_| "proof { assert(false); }".to_string(), false);
    text = replace_marker(&text, "__vx_at!", &|n| rn(&spec.at[n].2), false);
    for n in 0..headers.len() { text = text.replace(&format!("__vxit{n}("), &format!("it{n}: (")); }
    // -> __VxRet_r<T>  =>  -> (r: T)
    while let Some(p) = text.find("__VxRet_") {
        let rest = &text[p + 8..];
        let lt = rest.find('<').unwrap();
        let name = rest[..lt].trim().to_string();
        let mut depth = 0i32;
        let mut end = 0;
        let bytes: Vec<char> = rest.chars().collect();
        let mut prev = ' ';
        let mut byte = 0;
        for (i, c) in bytes.iter().enumerate() {
            if i >= lt {
                if *c == '<' { depth += 1 }
                if *c == '>' && prev != '-' { depth -= 1; if depth == 0 { end = byte; break; } }
            }
            prev = *c;
            byte += c.len_utf8();
        }
        let ty = rest[lt + 1..end].trim().to_string();
        text = format!("{}({}: {}){}", &text[..p], name, ty, &rest[end + 1..]);
    }
    let mut pre = String::new();
    if demote || spec.opts.contains("external_body") { pre.push_str("#[verifier::external_body]\n"); }
    if !headers.is_empty() && !demote && !spec.opts.contains("loop_isolation") { pre.push_str("#[verifier::loop_isolation(false)]\n"); }
    for o in &spec.opts {
        if let Some(r) = o.strip_prefix("rlimit ") { pre.push_str(&format!("#[verifier::rlimit({r})]\n")); }
        if let Some(r) = o.strip_prefix("attr ") { pre.push_str(&format!("#[{r}]\n")); }
    }
    if found.self_ty.is_some() {
        let p = text.find("pub fn").unwrap_or(0);
        text.insert_str(p, &pre);
    } else { text.insert_str(0, &pre); }
    for (a, b) in &spec.repl {
        if !text.contains(a.as_str()) && !demote { problems.push(format!("replace `{a}` not found")); }
        text = text.replace(a.as_str(), b.as_str());
    }
    Emitted { text, headers, locals, params, problems, desugars: ds.log, line: found.line, src_hash }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut repo = PathBuf::from("/repo");
    let mut specs = PathBuf::from("/verif/specs");
    let mut out = PathBuf::from("/tmp/vxout");
    let mut demote: BTreeSet<String> = BTreeSet::new();
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "--repo" => { repo = args[i + 1].clone().into(); i += 2; }
            "--specs" => { specs = args[i + 1].clone().into(); i += 2; }
            "--out" => { out = args[i + 1].clone().into(); i += 2; }
            "--demote" => { demote.extend(args[i + 1].split(',').filter(|s| !s.is_empty()).map(String::from)); i += 2; }
            a => panic!("unknown arg {a}"),
        }
    }
    fs::create_dir_all(&out).unwrap();
    let baseline: Value = fs::read_to_string(specs.join("anchors.json")).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(json!({}));
    let mut files: Vec<PathBuf> = fs::read_dir(specs.join("mods")).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|e| e == "rs")).collect();
    files.sort();
    let mut lib = fs::read_to_string(specs.join("lib_head.rs")).unwrap();
    for f in ["stubs.rs", "keys.rs", "lex.rs", "tree.rs", "text.rs"] { fs::copy(specs.join(f), out.join(f)).unwrap(); }
    let mut report = vec![];
    let mut fatal: Vec<String> = vec![];
    let mut anchors = serde_json::Map::new();
    for collect in [true, false] {
    if collect { *COLLECT.lock().unwrap() = Some(vec![]); }
    else {
        let items = COLLECT.lock().unwrap().take().unwrap_or_default();
        format_batch(items);
        report.clear(); fatal.clear(); anchors.clear();
    }
    for fpath in &files {
        let mut m = parse_spec(fpath);
        let wcalls: Vec<String> = m.pieces.iter().filter_map(|p| match p { Piece::Fn(f) if f.opts.contains("world") || f.opts.contains("log") => Some(format!("wcall {}", f.name)), _ => None }).collect();
        for p in &mut m.pieces { if let Piece::Fn(f) = p && (f.opts.contains("world") || f.opts.contains("log")) { f.opts.extend(wcalls.iter().cloned()); } }
        let srcp = repo.join(&m.src);
        let src = fs::read_to_string(&srcp).unwrap_or_default();
        let ast = match parse_file(&src) { Ok(a) => a, Err(e) => { fatal.push(format!("{}: {e}", m.src)); parse_file("").unwrap() } };
        let mut text = String::new();
        text.push_str("#![allow(unused, non_snake_case)]\nuse vstd::prelude::*;\nuse crate::stubs::*;\nverus! {\n");
        for p in &m.pieces {
            match p {
                Piece::Verbatim(v) => text.push_str(v),
                Piece::Type(n, o) => match emit_type(&ast, n, o) { Some(t) => text.push_str(&t), None => fatal.push(format!("type {n} not found in {}", m.src)) },
                Piece::Const(n) => match emit_const(&ast, n) { Some(t) => text.push_str(&t), None => fatal.push(format!("const {n} not found in {}", m.src)) },
                Piece::Fn(s) => {
                    let key = format!("{}::{}", m.name, s.name);
                    match find_fn(&ast, &s.name) {
                        None => {
                            report.push(json!({"key": key, "missing": true, "problems": ["function not found"]}));
                        }
                        Some(ff) => {
                            let base = baseline.get(&key);
                            let mut em = emit_fn(&ff, s, demote.contains(&key), base);
                            let mut dem = demote.contains(&key);
                            if !em.problems.is_empty() && !dem {
                                let probs = em.problems.clone();
                                em = emit_fn(&ff, s, true, base);
                                em.problems = probs;
                                dem = true;
                            }
                            let l0 = text.lines().count() + 1;
                            text.push_str(&em.text);
                            if !text.ends_with('\n') { text.push('\n'); }
                            let l1 = text.lines().count();
                            anchors.insert(key.clone(), json!({"params": em.params, "locals": em.locals, "headers": em.headers, "hash": format!("{:016x}", em.src_hash)}));
                            report.push(json!({"key": key, "module": m.name, "name": s.name, "src": m.src, "src_lines": [em.line.0, em.line.1],
                                "gen_file": format!("{}.rs", m.name), "gen_lines": [l0, l1], "demoted": dem, "external_body": s.opts.contains("external_body"),
                                "problems": em.problems, "desugars": em.desugars,
                                "changed": base.is_some_and(|b| b["hash"] != format!("{:016x}", em.src_hash)),
                                "loops": em.headers.len()}));
                        }
                    }
                }
            }
        }
        if collect { continue; }
        text.push_str("\n} // verus!\n");
        fs::write(out.join(format!("{}.rs", m.name)), &text).unwrap();
        lib.push_str(&format!("pub mod {};\n", m.name));
    }
    }
    lib.push_str("fn main() {}\n");
    fs::write(out.join("lib.rs"), lib).unwrap();
    fs::write(out.join("report.json"), serde_json::to_string_pretty(&json!({"functions": report, "fatal": fatal})).unwrap()).unwrap();
    fs::write(out.join("anchors.json"), serde_json::to_string_pretty(&Value::Object(anchors)).unwrap()).unwrap();
}
