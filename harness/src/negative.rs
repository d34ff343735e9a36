//! Cases that must be rejected, and cases with their own oracles.
use crate::canon;
use crate::generate::*;
use crate::model::*;
use crate::print::*;
use crate::props;
use crate::rng::Rng;
use crate::run::*;
use serde_json::{Value, json};
use std::collections::HashSet;

// ---------------------------------------------------------------------------
// Walking a world
// ---------------------------------------------------------------------------
/// Every IDL type position: (the annotated type, namespace, may be joined with
/// the next field).
fn each_tya(w: &mut World, f: &mut dyn FnMut(&mut TyA, &str)) {
    fn inner(t: &mut TyA, ctx: &str, f: &mut dyn FnMut(&mut TyA, &str)) {
        ty(&mut t.ty, ctx, f);
        f(t, ctx);
    }
    fn ty(t: &mut Ty, ctx: &str, f: &mut dyn FnMut(&mut TyA, &str)) {
        match t {
            Ty::Array(x) | Ty::Map(x) => inner(x, ctx, f),
            Ty::Union(ts) => ts.iter_mut().for_each(|x| inner(x, ctx, f)),
            _ => {}
        }
    }
    for file in &mut w.files {
        let FileBody::Idl(i) = &mut file.body else { continue };
        let ns = i.ns();
        if let Head::Schema { main: Some(m), .. } = &mut i.head {
            inner(m, &ns, f);
        }
        for it in &mut i.items {
            match it {
                Item::Type(d) => {
                    let ctx = ns_of(&d.full).to_string();
                    if let Kind::Record { fields, .. } = &mut d.kind {
                        for x in fields {
                            x.joined = false;
                            inner(&mut x.ty, &ctx, f);
                        }
                    }
                }
                Item::Msg(m) => {
                    for x in &mut m.params {
                        inner(&mut x.ty, &ns, f);
                    }
                    if let Some(t) = &mut m.ret {
                        ty(t, &ns, f);
                        // The response itself, seen as an annotated type.
                        let mut a = TyA::bare(t.clone());
                        f(&mut a, &ns);
                        *t = a.ty;
                    }
                }
                Item::Import(_) => {}
            }
        }
    }
}
/// Every reference that the output depends on: with a schema-mode main file the
/// messages of imported protocols are not part of it.
fn each_ref(w: &mut World, f: &mut dyn FnMut(&mut String, &str)) {
    let schema_mode = matches!(&w.files[0].body, FileBody::Idl(Idl { head: Head::Schema { .. }, .. }));
    if schema_mode {
        for file in &mut w.files {
            match &mut file.body {
                FileBody::Idl(i) => i.items.retain(|it| !matches!(it, Item::Msg(_))),
                FileBody::Avpr { msgs, .. } => msgs.clear(),
                FileBody::Avsc(_) => {}
            }
        }
    }
    each_tya(w, &mut |t, ctx| match &mut t.ty {
        Ty::Ref(n) => f(n, ctx),
        Ty::Nullable(x) => {
            if let Ty::Ref(n) = &mut **x {
                f(n, ctx)
            }
        }
        _ => {}
    });
    for file in &mut w.files {
        match &mut file.body {
            FileBody::Idl(i) => {
                let ns = i.ns();
                for it in &mut i.items {
                    if let Item::Msg(m) = it {
                        m.errors.iter_mut().for_each(|e| f(e, &ns));
                    }
                }
            }
            FileBody::Avsc(t) => jrefs(t, "", f),
            FileBody::Avpr { full, types, msgs } => {
                let ns = ns_of(full).to_string();
                types.iter_mut().for_each(|t| jrefs(t, &ns, f));
                for m in msgs {
                    m.params.iter_mut().for_each(|p| jrefs(&mut p.ty, &ns, f));
                    jrefs(&mut m.ret, &ns, f);
                    m.errors.iter_mut().flatten().for_each(|e| jrefs(e, &ns, f));
                }
            }
        }
    }
}
fn jrefs(t: &mut JTy, ctx: &str, f: &mut dyn FnMut(&mut String, &str)) {
    match t {
        JTy::Array(x, _) | JTy::Map(x, _) => jrefs(x, ctx, f),
        JTy::Union(ts) => ts.iter_mut().for_each(|x| jrefs(x, ctx, f)),
        JTy::Ref(n) => f(n, ctx),
        JTy::Def(d) => {
            let ns = ns_of(&d.full).to_string();
            if let JKind::Record { fields, .. } = &mut d.kind {
                fields.iter_mut().for_each(|x| jrefs(&mut x.ty, &ns, f));
            }
        }
        _ => {}
    }
}
fn random_style(r: &mut Rng) -> Style {
    if r.pct(50) { PLAIN } else { WILD }
}
fn must_fail(r: &mut Rng, w: &World, ctx: &Ctx, o: &mut Outcome, what: &str) -> Option<String> {
    let st = random_style(r);
    let (files, _) = render(w, r, st);
    must_fail_files(r, files, ctx, o, what)
}
fn must_fail_files(r: &mut Rng, files: Files, ctx: &Ctx, o: &mut Outcome, what: &str) -> Option<String> {
    let op = Opts { from_str: files.len() == 1 && r.pct(50), ..opts() };
    let schemata_too = r.pct(25);
    let res = idl(ctx, &files, &op);
    o.nontrivial = true;
    o.note = what.to_string();
    let mut text = None;
    match &res {
        Res::Err { text: t, .. } if t != "ok" => text = Some(t.clone()),
        Res::Err { bad_spans, .. } => o.fail(format!("{what}: accepted (and warning spans are wrong: {bad_spans:?})")),
        Res::Panic(p) => o.fail(format!("{what}: panic: {p}")),
        Res::Ok { json, .. } => o.fail(format!("{what}: accepted; output: {json}")),
    }
    if schemata_too && let Res::Ok { json, .. } = schemata(ctx, &files, &op) {
        o.fail(format!("{what}: accepted by idl2schemata; output: {json}"));
    }
    o.files = files;
    text
}

// ---------------------------------------------------------------------------
// P03
// ---------------------------------------------------------------------------
pub fn undefined(r: &mut Rng, idx: u64, ctx: &Ctx, o: &mut Outcome) {
    let mut k = Knobs { refs: 70, defaults: 0, messages: (1, 3), props: 3, docs: 3, foreign_ns: 45, ..BASE };
    if idx % 2 == 0 {
        k = Knobs { files: (1, 3), json_files: 50, back_imports: 15, ..k };
    }
    let mut w = world(r, k);
    let declared: HashSet<String> = collect(&w).0.into_iter().map(|d| d.full).collect();
    let mut total = 0;
    each_ref(&mut w, &mut |_, _| total += 1);
    if total == 0 {
        return;
    }
    let n = r.range(1, 3.min(total));
    let mut chosen = HashSet::new();
    while chosen.len() < n {
        chosen.insert(r.below(total));
    }
    let mut i = 0;
    let mut names: Vec<String> = vec![];
    // Names that differ in their namespace only.
    let same = r.pct(25);
    each_ref(&mut w, &mut |name, c| {
        if chosen.contains(&i) {
            if same {
                *name = format!("no{}.such.Undef", names.len());
                names.push(name.clone());
                i += 1;
                return;
            }
            let mut new = join_name(c, &format!("Undef{}", names.len()));
            match r.below(4) {
                0 => new = format!("no.such.Undef{}", names.len()),
                1 => {
                    // A declared simple name in a namespace where it is not.
                    let full = format!("other.{}", simple_of(name));
                    if !declared.contains(&full) && !names.contains(&full) {
                        new = full;
                    }
                }
                2 => {
                    // The reference's own spelling, one letter off.
                    let full = format!("{name}X{}", names.len());
                    if !declared.contains(&full) && !ns_of(&full).is_empty() {
                        new = full;
                    }
                }
                _ => {}
            }
            names.push(new.clone());
            *name = new;
        }
        i += 1;
    });
    let what = format!("undefined {names:?}");
    if let Some(t) = must_fail(r, &w, ctx, o, &what) {
        for n in &names {
            if !t.contains(n.as_str()) && (same || !t.contains(simple_of(n))) {
                o.fail(format!("{n} is undefined but not named by the error: {t}"));
            }
        }
        if !t.contains("ndefined") {
            o.fail(format!("{what}: rejected for another reason: {t}"));
        }
    }
}

// ---------------------------------------------------------------------------
// P04
// ---------------------------------------------------------------------------
fn records(w: &mut World, need: usize) -> Vec<&mut Vec<Field>> {
    let mut v = vec![];
    for f in &mut w.files {
        if let FileBody::Idl(i) = &mut f.body {
            for it in &mut i.items {
                if let Item::Type(Decl { kind: Kind::Record { fields, .. }, .. }) = it
                    && fields.len() >= need
                {
                    v.push(fields);
                }
            }
        }
    }
    v
}
fn msgs(w: &mut World, need: usize) -> Vec<&mut Msg> {
    let mut v = vec![];
    for f in &mut w.files {
        if let FileBody::Idl(i) = &mut f.body {
            for it in &mut i.items {
                if let Item::Msg(m) = it
                    && m.params.len() >= need
                {
                    v.push(m);
                }
            }
        }
    }
    v
}
fn enums(w: &mut World, need: usize) -> Vec<(&mut Vec<String>, &mut Option<String>)> {
    let mut v = vec![];
    for f in &mut w.files {
        if let FileBody::Idl(i) = &mut f.body {
            for it in &mut i.items {
                if let Item::Type(Decl { kind: Kind::Enum { symbols, default }, .. }) = it
                    && symbols.len() >= need
                {
                    v.push((symbols, default));
                }
            }
        }
    }
    v
}
const RESERVED_NAMES: [&str; 13] = [
    "null", "boolean", "int", "long", "float", "double", "bytes", "string", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid",
];
const BAD_NAMES: [&str; 3] = ["a-b", "x--", "k-1"];
fn bad_union(r: &mut Rng) -> (Ty, String) {
    let b = |t: Ty| TyA::bare(t);
    let arr = |p: &'static str| b(Ty::Array(Box::new(TyA::bare(Ty::Prim(p)))));
    let map = |p: &'static str| b(Ty::Map(Box::new(TyA::bare(Ty::Prim(p)))));
    let pairs: Vec<(TyA, TyA, &str)> = vec![
        (b(Ty::Prim("int")), b(Ty::Prim("int")), "int twice"),
        (b(Ty::Prim("null")), b(Ty::Prim("null")), "null twice"),
        (b(Ty::Prim("string")), b(Ty::Prim("string")), "string twice"),
        (b(Ty::Prim("int")), b(Ty::Logical("date")), "int and date"),
        (b(Ty::Logical("time_ms")), b(Ty::Logical("date")), "time_ms and date"),
        (b(Ty::Logical("timestamp_ms")), b(Ty::Prim("long")), "timestamp_ms and long"),
        (b(Ty::Logical("uuid")), b(Ty::Prim("string")), "uuid and string"),
        (b(Ty::Prim("bytes")), b(Ty::Decimal(4, None)), "bytes and decimal"),
        (b(Ty::Decimal(4, None)), b(Ty::Decimal(5, Some(1))), "two decimals"),
        (arr("int"), arr("string"), "two arrays"),
        (map("int"), map("string"), "two maps"),
        (TyA { props: vec![("p".into(), json!(1))], ty: Ty::Prim("long") }, b(Ty::Prim("long")), "annotated long and long"),
        (TyA { props: vec![("logicalType".into(), json!("date"))], ty: Ty::Prim("int") }, b(Ty::Prim("int")), "int annotated date and int"),
        (b(Ty::Union(vec![b(Ty::Prim("int"))])), b(Ty::Prim("string")), "a union inside"),
        (b(Ty::Nullable(Box::new(Ty::Prim("int")))), b(Ty::Prim("string")), "a nullable inside"),
        (b(Ty::Nullable(Box::new(Ty::Logical("date")))), b(Ty::Prim("boolean")), "a nullable logical inside"),
    ];
    let (x, y, n) = pairs[r.below(pairs.len())].clone();
    let mut v = vec![x, y];
    if r.pct(40) {
        v.insert(r.below(3), b(Ty::Prim("double")));
    }
    if r.pct(30) {
        v.reverse();
    }
    (Ty::Union(v), n.to_string())
}
pub fn ill_formed(r: &mut Rng, idx: u64, ctx: &Ctx, o: &mut Outcome) {
    let mut k = Knobs { fields: (1, 6), decls: (2, 6), messages: (1, 3), schema_mode: 5, props: 4, docs: 4, defaults: 0, ..BASE };
    if idx % 5 == 1 {
        k = Knobs { files: (2, 3), json_files: 0, ..k };
    }
    let mut w = world(r, k);
    let what = match r.below(12) {
        0 | 1 => {
            // A second declaration of the same full name.
            let mut places = vec![];
            for (fi, f) in w.files.iter().enumerate() {
                if let FileBody::Idl(i) = &f.body {
                    for it in &i.items {
                        if let Item::Type(d) = it {
                            places.push((fi, d.full.clone()));
                        }
                    }
                }
            }
            if places.is_empty() {
                return;
            }
            let (fi, full) = r.pick(&places).clone();
            let to = if r.pct(50) { fi } else { r.below(w.files.len()) };
            let kind = match r.below(3) {
                0 => Kind::Fixed(3),
                1 => Kind::Enum { symbols: vec!["Q".into()], default: None },
                _ => Kind::Record { error: false, fields: vec![] },
            };
            let mut d = Decl { full: full.clone(), doc: None, props: vec![], aliases: vec![], kind };
            if r.pct(30) {
                d.doc = Some(Doc { lines: vec!["again".into()], crlf: false });
            }
            if let FileBody::Idl(i) = &mut w.files[to].body {
                let at = r.below(i.items.len() + 1);
                i.items.insert(at, Item::Type(d));
            } else {
                return;
            }
            format!("type {full} declared twice")
        }
        2 => {
            let mut v = records(&mut w, 2);
            if v.is_empty() {
                return;
            }
            let i = r.below(v.len());
            let fs = &mut v[i];
            let (a, b) = (r.below(fs.len() - 1), fs.len() - 1);
            fs[b].name = fs[a].name.clone();
            format!("field {} twice", fs[a].name)
        }
        3 => {
            let mut v = msgs(&mut w, 2);
            if v.is_empty() {
                return;
            }
            let i = r.below(v.len());
            let fs = &mut v[i].params;
            let (a, b) = (0, fs.len() - 1);
            fs[b].name = fs[a].name.clone();
            format!("parameter {} twice", fs[a].name)
        }
        4 => {
            let mut v = enums(&mut w, 1);
            if v.is_empty() {
                return;
            }
            let i = r.below(v.len());
            let s = v[i].0[r.below(v[i].0.len())].clone();
            let at = r.below(v[i].0.len() + 1);
            v[i].0.insert(at, s.clone());
            format!("symbol {s} twice")
        }
        5 => {
            let mut v = enums(&mut w, 0);
            if v.is_empty() {
                return;
            }
            let i = r.below(v.len());
            *v[i].1 = Some("NOT_A_SYMBOL".into());
            "enum default is not a symbol".into()
        }
        6 | 7 | 8 => {
            let mut n = 0;
            each_tya(&mut w, &mut |_, _| n += 1);
            if n == 0 {
                return;
            }
            let at = r.below(n);
            let (u, name) = bad_union(r);
            let mut i = 0;
            each_tya(&mut w, &mut |t, _| {
                if i == at {
                    t.props.clear();
                    t.ty = u.clone();
                }
                i += 1;
            });
            format!("ill-formed union: {name}")
        }
        9 => {
            // Same named type twice in a union.
            let all: Vec<String> = collect(&w).0.into_iter().map(|d| d.full).collect();
            let mut n = 0;
            each_tya(&mut w, &mut |_, _| n += 1);
            if n == 0 {
                return;
            }
            let at = r.below(n);
            let mut i = 0;
            let mut done = None;
            let pick = r.next() as usize;
            each_tya(&mut w, &mut |t, c| {
                if i == at {
                    let ok: Vec<&String> = all.iter().filter(|f| !ns_of(f).is_empty() || c.is_empty()).collect();
                    if !ok.is_empty() {
                        let n = ok[pick % ok.len()].clone();
                        t.props.clear();
                        t.ty = Ty::Union(vec![TyA::bare(Ty::Ref(n.clone())), TyA::bare(Ty::Prim("null")), TyA::bare(Ty::Ref(n.clone()))]);
                        done = Some(n);
                    }
                }
                i += 1;
            });
            let Some(n) = done else { return };
            format!("union with {n} twice")
        }
        10 => {
            let n = *r.pick(&RESERVED_NAMES);
            let full = join_name(*r.pick(&["", "a.b"]), n);
            let d = Decl {
                full: full.clone(),
                doc: None,
                props: vec![],
                aliases: vec![],
                kind: match r.below(3) {
                    0 => Kind::Fixed(3),
                    1 => Kind::Enum { symbols: vec!["Q".into()], default: None },
                    _ => Kind::Record { error: r.pct(50), fields: vec![] },
                },
            };
            if let FileBody::Idl(i) = &mut w.files[0].body {
                i.items.push(Item::Type(d));
            }
            format!("type named {full}")
        }
        _ => {
            let bad = BAD_NAMES[r.below(3)];
            match r.below(4) {
                0 => {
                    let d = Decl {
                        full: join_name(*r.pick(&["", "a.b"]), bad),
                        doc: None,
                        props: vec![],
                        aliases: vec![],
                        kind: match r.below(3) {
                            0 => Kind::Fixed(3),
                            1 => Kind::Enum { symbols: vec!["Q".into()], default: None },
                            _ => Kind::Record { error: r.pct(50), fields: vec![] },
                        },
                    };
                    if let FileBody::Idl(i) = &mut w.files[0].body {
                        i.items.push(Item::Type(d));
                    }
                    format!("type named {bad}")
                }
                1 => {
                    let mut v = records(&mut w, 1);
                    if v.is_empty() {
                        return;
                    }
                    let i = r.below(v.len());
                    let n = v[i].len();
                    v[i][r.below(n)].name = bad.into();
                    format!("field named {bad}")
                }
                2 => {
                    let mut v = msgs(&mut w, 1);
                    if v.is_empty() {
                        return;
                    }
                    let i = r.below(v.len());
                    let n = v[i].params.len();
                    v[i].params[r.below(n)].name = bad.into();
                    format!("parameter named {bad}")
                }
                _ => {
                    let mut v = enums(&mut w, 1);
                    if v.is_empty() {
                        return;
                    }
                    let i = r.below(v.len());
                    let n = v[i].0.len();
                    v[i].0[r.below(n)] = bad.into();
                    *v[i].1 = None;
                    format!("symbol named {bad}")
                }
            }
        }
    };
    must_fail(r, &w, ctx, o, &what);
}

// ---------------------------------------------------------------------------
// P05
// ---------------------------------------------------------------------------
fn reaches_cycle(t: &C, defs: &[CDef]) -> bool {
    fn go(t: &C, defs: &[CDef], path: &mut Vec<String>, clear: &mut HashSet<String>) -> bool {
        match t {
            C::Prim(..) => false,
            C::Array(x, _) | C::Map(x, _) => go(x, defs, path, clear),
            C::Union(ts) => ts.iter().any(|x| go(x, defs, path, clear)),
            C::Named(n) => {
                if path.contains(n) {
                    return true;
                }
                if clear.contains(n) {
                    return false;
                }
                let Some(d) = defs.iter().find(|d| &d.full == n) else { return false };
                if let CKind::Record { fields, .. } = &d.kind {
                    path.push(n.clone());
                    let c = fields.iter().any(|f| go(&f.ty, defs, path, clear));
                    path.pop();
                    if c {
                        return true;
                    }
                }
                clear.insert(n.clone());
                false
            }
        }
    }
    go(t, defs, &mut vec![], &mut HashSet::new())
}
fn perturb(r: &mut Rng, k: &Knobs, v: &Value) -> Value {
    match v {
        Value::Array(a) if !a.is_empty() && r.pct(75) => {
            let mut a = a.clone();
            let i = r.below(a.len());
            a[i] = perturb(r, k, &a[i]);
            Value::Array(a)
        }
        Value::Object(m) if !m.is_empty() && r.pct(75) => {
            let mut m = m.clone();
            let keys: Vec<String> = m.keys().cloned().collect();
            let key = r.pick(&keys).clone();
            if r.pct(30) {
                m.remove(&key);
            } else {
                let x = perturb(r, k, &m[&key]);
                m.insert(key, x);
            }
            Value::Object(m)
        }
        _ => match r.below(8) {
            0 => Value::Null,
            1 => json!(true),
            2 => json!(*r.pick(&[i32::MAX as i64 + 1, i32::MIN as i64 - 1])),
            3 => json!(1.5),
            4 => json!("s"),
            5 => json!([]),
            6 => json!({}),
            _ => value(r, k, 1),
        },
    }
}
pub fn defaults(r: &mut Rng, idx: u64, ctx: &Ctx, o: &mut Outcome) {
    let mut k = Knobs { refs: 45, decls: (2, 6), fields: (1, 4), messages: (0, 1), unions: 15, nullable: 12, schema_mode: 5, props: 3, docs: 3, aliases: 3, ..BASE };
    if idx % 3 == 0 {
        k = Knobs { files: (1, 3), json_files: 50, ..k };
    }
    let mut w = world(r, k);
    let (all, _) = collect(&w);
    let mut places: Vec<(usize, usize, usize)> = vec![];
    for (fi, f) in w.files.iter().enumerate() {
        if let FileBody::Idl(i) = &f.body {
            for (ii, it) in i.items.iter().enumerate() {
                if let Item::Type(Decl { kind: Kind::Record { fields, .. }, .. }) = it {
                    places.extend((0..fields.len()).map(|x| (fi, ii, x)));
                }
            }
        }
    }
    if places.is_empty() {
        return;
    }
    let (fi, ii, xi) = *r.pick(&places);
    let FileBody::Idl(i) = &mut w.files[fi].body else { unreachable!() };
    let Item::Type(d) = &mut i.items[ii] else { unreachable!() };
    let full = d.full.clone();
    let Kind::Record { fields, .. } = &mut d.kind else { unreachable!() };
    fields[xi].default = None;
    let ty = fields[xi].canon().ty;
    let fit = default_for(r, &k, &ty, &all, 3);
    let v = match (r.below(10), &fit) {
        (0..=2, Some(v)) => v.clone(),
        (3..=7, Some(v)) => perturb(r, &k, v),
        _ => value(r, &k, 2),
    };
    fields[xi].default = Some(v.clone());
    let fname = fields[xi].name.clone();
    // The new default also changes what other defaults (of records that
    // contain this one) must give; the meaning is recomputed below.
    let (all, _) = collect(&w);
    let cyc = reaches_cycle(&ty, &all);
    let mut bad: Vec<String> = vec![];
    let mut unknown = cyc && !default_fits(&v, &ty, &all);
    for d in &all {
        if let CKind::Record { fields, .. } = &d.kind {
            for f in fields {
                if let Some(v) = &f.default
                    && !default_fits(v, &f.ty, &all)
                {
                    if reaches_cycle(&f.ty, &all) {
                        unknown = true;
                    } else {
                        bad.push(format!("{}.{}", d.full, f.name));
                    }
                }
            }
        }
    }
    if bad.is_empty() && unknown {
        return;
    }
    if !bad.is_empty() {
        must_fail(r, &w, ctx, o, &format!("default {v} of {full}.{fname} does not fit {ty:?}"));
    } else {
        let st = random_style(r);
        let (files, orphans) = render(&w, r, st);
        let res = idl(ctx, &files, &Opts { from_str: files.len() == 1, ..opts() });
        o.files = files;
        o.nontrivial = true;
        o.note = format!("default {v} of {full}.{fname} fits {ty:?}");
        props::judge(&w, orphans, res, &["default", "nullable-order"], o);
    }
}

// ---------------------------------------------------------------------------
// P07
// ---------------------------------------------------------------------------
pub fn literals(r: &mut Rng, ctx: &Ctx, o: &mut Outcome) {
    let n = r.range(3, 10);
    let mut text = String::from("protocol P {\n");
    let mut want: Vec<(String, Value)> = vec![];
    for i in 0..n {
        let (lit, v) = literal(r);
        text.push_str(&format!("@lit({lit}) fixed F{i}(1);\n"));
        want.push((lit, v));
    }
    text.push_str("}\n");
    let files = vec![("f.avdl".to_string(), text)];
    let res = idl(ctx, &files, &Opts { from_str: true, ..opts() });
    o.files = files;
    o.nontrivial = true;
    match res {
        Res::Ok { json, .. } => {
            for (i, (lit, v)) in want.iter().enumerate() {
                let got = &json["types"][i]["lit"];
                // Exactly the same number: serde_json compares floats by value.
                let same = got == v && got.is_f64() == v.is_f64() && got.as_f64().map(f64::to_bits) == v.as_f64().map(f64::to_bits);
                if !same {
                    o.fail(format!("literal {lit}: want {v}, got {got}"));
                }
            }
        }
        Res::Err { text, .. } => o.fail(format!("valid literals are rejected: {text}")),
        Res::Panic(p) => o.fail(format!("panic: {p}")),
    }
}
fn digits(r: &mut Rng, n: usize, base: u32) -> String {
    (0..n).map(|_| std::char::from_digit(r.below(base as usize) as u32, base).unwrap()).collect()
}
/// A literal and its value.
fn literal(r: &mut Rng) -> (String, Value) {
    let sign = if r.pct(30) { "-" } else { "" };
    match r.below(9) {
        0 => {
            // Decimal integers without leading zero.
            let v = int(r, 64);
            let s = *r.pick(&["", "l", "L"]);
            (format!("{v}{s}"), json!(v))
        }
        1 => {
            let n = r.range(1, 15);
            let h = digits(r, n, 16);
            let v = i64::from_str_radix(&h, 16).unwrap();
            let h = if r.pct(50) { h.to_uppercase() } else { h };
            let x = *r.pick(&["0x", "0X"]);
            (format!("{sign}{x}{h}{}", r.pick(&["", "l", "L"])), json!(if sign == "-" { -v } else { v }))
        }
        2 => {
            let n = r.range(1, 20);
            let d = digits(r, n, 8);
            let v = i64::from_str_radix(&d, 8).unwrap();
            (format!("{sign}0{d}{}", r.pick(&["", "l", "L"])), json!(if sign == "-" { -v } else { v }))
        }
        3 | 4 => {
            // Decimal floats: std's parser is the oracle.
            let (a, b) = (r.range(1, 20), r.range(1, 20));
            let (a, b) = (digits(r, a, 10), digits(r, b, 10));
            let top = if r.pct(50) { 20 } else { 280 };
            let e = format!("{}{}{}", r.pick(&["e", "E"]), r.pick(&["", "-", "+"]), r.below(top));
            let s = match r.below(5) {
                0 => format!("{a}.{b}"),
                1 => format!("{a}.{b}{e}"),
                2 => format!(".{b}"),
                3 => format!("{a}.{e}"),
                _ => format!("{a}{e}"),
            };
            let v: f64 = s.parse().unwrap();
            if !v.is_finite() {
                return ("1".into(), json!(1));
            }
            let s = format!("{sign}{s}{}", r.pick(&["", "", "f", "F", "d", "D"]));
            (s, json!(if sign == "-" { -v } else { v }))
        }
        5 => {
            // Hex floats with at most 53 significant bits: exact scaling.
            let (a, b) = (r.range(1, 5), r.range(1, 8));
            let (a, b) = (digits(r, a, 16), digits(r, b, 16));
            let e = r.below(1800) as i32 - 900;
            let m = u64::from_str_radix(&format!("{a}{b}"), 16).unwrap();
            let v = m as f64 * 2f64.powi(-4 * b.len() as i32) * 2f64.powi(e);
            if m == 0 || !v.is_normal() {
                return ("0".into(), json!(0));
            }
            let p = *r.pick(&["p", "P"]);
            let es = if e >= 0 && r.pct(30) { format!("+{e}") } else { format!("{e}") };
            let x = *r.pick(&["0x", "0X"]);
            (format!("{sign}{x}{a}.{b}{p}{es}"), json!(if sign == "-" { -v } else { v }))
        }
        6 => (r.pick(&["true", "false", "null"]).to_string(), Value::Null).pipe(|(s, _)| {
            let v = match s.as_str() {
                "true" => json!(true),
                "false" => json!(false),
                _ => Value::Null,
            };
            (s, v)
        }),
        _ => {
            // Strings, from escape sequences to the characters they denote.
            let n = r.below(10);
            let (mut s, mut v) = (String::from("\""), String::new());
            for _ in 0..n {
                match r.below(8) {
                    0 => {
                        let (e, c) = *r.pick(&[
                            ("\\n", '\n'),
                            ("\\t", '\t'),
                            ("\\b", '\u{8}'),
                            ("\\r", '\r'),
                            ("\\f", '\u{c}'),
                            ("\\\"", '"'),
                            ("\\'", '\''),
                            ("\\\\", '\\'),
                        ]);
                        s.push_str(e);
                        v.push(c);
                    }
                    1 => {
                        // Octal: up to \377, the longest match counts.
                        let n = r.below(256) as u32;
                        s.push_str(&format!("\\{n:03o}"));
                        v.push(char::from_u32(n).unwrap());
                        if r.pct(40) {
                            let d = *r.pick(&['0', '7', '8', 'x']);
                            s.push(d);
                            v.push(d);
                        }
                    }
                    2 => {
                        // Short octal, followed by what is not an octal digit.
                        let n = r.below(64) as u32;
                        s.push_str(&format!("\\{n:o}"));
                        v.push(char::from_u32(n).unwrap());
                        let d = *r.pick(&['8', '9', 'a', ' ']);
                        s.push(d);
                        v.push(d);
                    }
                    3 => {
                        // Four or more octal digits: \4xx to \7xx take two.
                        let n = r.range(0o40, 0o77) as u32;
                        s.push_str(&format!("\\{n:o}"));
                        v.push(char::from_u32(n).unwrap());
                        let d = *r.pick(&['0', '5', '7']);
                        s.push(d);
                        v.push(d);
                    }
                    4 => {
                        let c = *r.pick(&['A', '\u{e9}', '\u{2028}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '"', '\\', '\n', '\u{0}']);
                        s.push_str(&format!("\\u{:04x}", c as u32));
                        v.push(c);
                    }
                    5 => {
                        let c = char::from_u32(0x10000 + r.below(0x100000) as u32).unwrap();
                        let mut b = [0u16; 2];
                        for u in c.encode_utf16(&mut b) {
                            s.push_str(&if r.pct(50) { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                        }
                        v.push(c);
                    }
                    6 => {
                        let c = *r.pick(&['\u{e9}', '\u{1F600}', '\'', '/', '*', '{', '@']);
                        s.push(c);
                        v.push(c);
                    }
                    _ => {
                        let c = *r.pick(&['a', 'b', 'u', 'n', '0', '7', ' ', '#']);
                        s.push(c);
                        v.push(c);
                    }
                }
            }
            s.push('"');
            (s, json!(v))
        }
    }
}
trait Pipe: Sized {
    fn pipe<T>(self, f: impl FnOnce(Self) -> T) -> T {
        f(self)
    }
}
impl<T> Pipe for T {}
pub fn bad_literals(r: &mut Rng, ctx: &Ctx, o: &mut Outcome) {
    let big = {
        let n = r.range(1, 12);
        digits(r, n, 10)
    };
    let lits: Vec<(String, &str)> = vec![
        ("9223372036854775808".into(), "long overflow"),
        (format!("1{big}9223372036854775808"), "long overflow"),
        ("-9223372036854775809".into(), "long underflow"),
        ("0x8000000000000000".into(), "hex overflow"),
        ("0xFFFFFFFFFFFFFFFF".into(), "hex overflow"),
        ("01000000000000000000000".into(), "octal overflow"),
        (format!("0x1{}0000000000000000", digits(r, 3, 16)), "hex overflow"),
        ("\"unterminated".into(), "unterminated string"),
        ("\"line\nbreak\"".into(), "line break in string"),
        ("\"bad \\q escape\"".into(), "unknown escape"),
        ("\"bad \\u12 escape\"".into(), "short unicode escape"),
        ("\"bad \\8 escape\"".into(), "escape 8"),
        ("1.2.3".into(), "two points"),
        ("tru".into(), "unknown word"),
        ("[1,]".into(), "trailing comma"),
        ("[1 2]".into(), "missing comma"),
        ("{\"a\":1,}".into(), "trailing comma"),
        ("{a:1}".into(), "unquoted key"),
        ("0x".into(), "empty hex"),
        ("09".into(), "digit 9 in octal"),
        ("".into(), "no value"),
    ];
    let u32s: Vec<(String, &str)> = vec![
        ("4294967296".into(), "size overflow"),
        (format!("{}94967296", 43 + r.below(9)), "size overflow"),
        ("-1".into(), "negative size"),
        ("0x100000000".into(), "size overflow"),
        ("040000000000".into(), "size overflow"),
        ("1.0".into(), "fractional size"),
        ("".into(), "no size"),
    ];
    let (text, what) = match r.below(4) {
        0 => {
            let (l, w) = r.pick(&lits).clone();
            (format!("protocol P {{ @x({l}) record R {{ int f; }} }}"), w)
        }
        1 => {
            let (l, w) = r.pick(&lits[..7]).clone();
            (format!("protocol P {{ record R {{ long f = {l}; }} }}"), w)
        }
        2 => {
            let (l, w) = r.pick(&u32s).clone();
            (format!("protocol P {{ fixed R({l}); }}"), w)
        }
        _ => {
            let (l, w) = r.pick(&u32s).clone();
            let l = if r.pct(50) { l } else { format!("5, {l}") };
            (format!("protocol P {{ record R {{ decimal({l}) f; }} }}"), w)
        }
    };
    must_fail_files(r, vec![("f.avdl".into(), text)], ctx, o, what);
}

// ---------------------------------------------------------------------------
// P09
// ---------------------------------------------------------------------------
pub fn annotations(r: &mut Rng, _idx: u64, ctx: &Ctx, o: &mut Outcome) {
    let v = *r.pick(&["\"x\"", "1", "null", "[\"a\"]", "{\"a\": 1}", "true"]);
    let sch = ["doc", "fields", "items", "name", "size", "symbols", "values", "type"];
    let s = |r: &mut Rng, extra: &[&'static str]| {
        let mut all = sch.to_vec();
        all.extend(extra);
        *r.pick(&all)
    };
    let (text, what) = match r.below(15) {
        0 => {
            let n = s(r, &[]);
            (format!("record R {{ int a; }} @{n}({v}) record S {{ R f; }}"), format!("@{n} on a record"))
        }
        1 => {
            let n = s(r, &["default"]);
            (format!("@{n}({v}) enum E {{ A, B }}"), format!("@{n} on an enum"))
        }
        2 => {
            let n = s(r, &[]);
            (format!("@{n}({v}) fixed E (4);"), format!("@{n} on a fixed"))
        }
        3 => {
            let n = *r.pick(&["default", "doc", "name", "type"]);
            (format!("record R {{ int @{n}({v}) a; string b; }}"), format!("@{n} on a field"))
        }
        4 => {
            let n = *r.pick(&["doc", "response", "request", "errors", "one-way"]);
            (format!("@{n}({v}) int m(int x);"), format!("@{n} on a message"))
        }
        5 => {
            let n = s(r, &["namespace", "aliases"]);
            let t = *r.pick(&["int", "array<int>", "map<string>", "string", "date", "decimal(4)", "int?"]);
            (format!("record R {{ @{n}({v}) {t} a; }}"), format!("@{n} on type {t}"))
        }
        6 => {
            let n = *r.pick(&["protocol", "doc", "messages", "types", "errors"]);
            o.note = format!("@{n} on a protocol");
            must_fail_files(r, vec![("f.avdl".into(), format!("@{n}({v}) protocol P {{ }}"))], ctx, o, &format!("@{n} on a protocol"));
            return;
        }
        7 => {
            let bad = *r.pick(&["1", "null", "true", "[\"a\"]", "{}"]);
            let k = *r.pick(&["record R { }", "enum R { A }", "fixed R(2);", "error R { }"]);
            (format!("@namespace({bad}) {k}"), format!("@namespace({bad})"))
        }
        8 => {
            let bad = *r.pick(&["\"a\"", "1", "null", "[1]", "[\"a\", null]", "{}"]);
            let k = *r.pick(&["@aliases(#) record R { }", "@aliases(#) enum R { A }", "@aliases(#) fixed R(2);", "record R { int @aliases(#) a; }"]);
            (k.replace('#', bad), format!("@aliases({bad})"))
        }
        9 => {
            let bad = *r.pick(&["\"up\"", "1", "null", "[\"ascending\"]", "\"\""]);
            (format!("record R {{ int @order({bad}) a; }}"), format!("@order({bad})"))
        }
        10 => {
            let n = *r.pick(&["a", "logicalType", "x.y"]);
            let t = *r.pick(&["T", "T?"]);
            (format!("fixed T(3); record R {{ @{n}({v}) {t} a; }}"), "annotation on a type reference".into())
        }
        11 => {
            let t = *r.pick(&["array<@a(1) T>", "map<@a(1) T>", "union{null, @a(1) T}", "union{@a(1) T, null}"]);
            (format!("fixed T(3); record R {{ {t} a; }}"), "annotation on a nested type reference".into())
        }
        12 => (format!("fixed T(3); @a({v}) T m();"), "annotation on a message that returns a reference".into()),
        13 => {
            let (a, t) = *r.pick(&[
                ("@logicalType(\"uuid\")", "date"),
                ("@precision(9)", "decimal(4)"),
                ("@scale(2)", "decimal(4,1)"),
                ("@logicalType(\"x\")", "decimal(4)"),
                ("@logicalType(\"timestamp-micros\")", "timestamp_ms"),
            ]);
            (format!("record R {{ {a} {t} a; }}"), format!("{a} on {t}"))
        }
        _ => {
            let bad = *r.pick(&["1a", "a..b", ".a", "a.", "a-b", "a b"]);
            let k = *r.pick(&["record R { }", "enum R { A }", "fixed R(2);", "error R { }"]);
            (format!("@namespace(\"{bad}\") {k}"), format!("namespace {bad}"))
        }
    };
    let text = format!("@namespace(\"n.s\") protocol P {{ {text} }}");
    must_fail_files(r, vec![("f.avdl".into(), text)], ctx, o, &what);
}

// ---------------------------------------------------------------------------
// P10
// ---------------------------------------------------------------------------
pub fn json_imports(r: &mut Rng, ctx: &Ctx, o: &mut Outcome) {
    let k = Knobs { files: (2, 3), json_files: 100, decls: (1, 4), fields: (1, 4), docs: 4, props: 6, defaults: 0, ..BASE };
    let w = world(r, k);
    let (mut files, _) = render(&w, r, PLAIN);
    // Objects of the JSON files that are schemas.
    let js: Vec<usize> = (0..files.len()).filter(|&i| !files[i].0.ends_with(".avdl")).collect();
    if js.is_empty() {
        return;
    }
    let fi = *r.pick(&js);
    let mut v: Value = serde_json::from_str(&files[fi].1).unwrap();
    fn schemas(v: &Value, path: &mut Vec<String>, out: &mut Vec<(Vec<String>, String)>) {
        match v {
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    path.push(i.to_string());
                    schemas(x, path, out);
                    path.pop();
                }
            }
            Value::Object(o) => {
                if let Some(Value::String(t)) = o.get("type") {
                    out.push((path.clone(), t.clone()));
                }
                for key in ["types", "items", "values", "fields", "type", "messages", "request", "response", "errors"] {
                    if let Some(x) = o.get(key) {
                        path.push(key.to_string());
                        if key == "messages" {
                            if let Value::Object(ms) = x {
                                for (n, m) in ms {
                                    path.push(n.clone());
                                    schemas(m, path, out);
                                    path.pop();
                                }
                            }
                        } else if key == "fields" || key == "request" {
                            // A field's `type` word may be the name of a type.
                            for (i, f) in x.as_array().into_iter().flatten().enumerate() {
                                if let Some(t) = f.get("type").filter(|t| !t.is_string()) {
                                    path.push(i.to_string());
                                    path.push("type".into());
                                    schemas(t, path, out);
                                    path.pop();
                                    path.pop();
                                }
                            }
                        } else if !x.is_string() {
                            schemas(x, path, out);
                        }
                        path.pop();
                    }
                }
            }
            _ => {}
        }
    }
    let mut found = vec![];
    schemas(&v, &mut vec![], &mut found);
    found.retain(|(_, t)| ["record", "error", "enum", "fixed", "array", "map"].contains(&t.as_str()));
    if found.is_empty() {
        return;
    }
    let (path, t) = r.pick(&found).clone();
    let obj = v.pointer_mut(&path.iter().fold(String::new(), |a, p| format!("{a}/{}", p.replace('~', "~0").replace('/', "~1")))).unwrap().as_object_mut().unwrap();
    let what = match t.as_str() {
        "array" => {
            obj.remove("items");
            "array without items".to_string()
        }
        "map" => {
            obj.remove("values");
            "map without values".to_string()
        }
        _ => match r.below(5) {
            0 => {
                obj.remove("name");
                format!("{t} without name")
            }
            1 => {
                let k = match t.as_str() {
                    "enum" => "symbols",
                    "fixed" => "size",
                    _ => "fields",
                };
                obj.remove(k);
                format!("{t} without {k}")
            }
            2 => {
                let bad = *r.pick(&["1bad", "a b", "a-b", "", "x.1y"]);
                obj.remove("namespace");
                obj.insert("name".into(), json!(bad));
                format!("{t} named {bad:?}")
            }
            3 => {
                obj.insert("type".into(), json!("recrod"));
                "unknown type word".to_string()
            }
            _ => {
                obj.insert("type".into(), json!(*r.pick(&[1, 2])));
                "numeric type".to_string()
            }
        },
    };
    files[fi].1 = serde_json::to_string_pretty(&v).unwrap();
    must_fail_files(r, files, ctx, o, &what);
}

// ---------------------------------------------------------------------------
// P11
// ---------------------------------------------------------------------------
/// Which of several files of the same name an import takes.
/// Files to import from several places: the files, the search directories,
/// what each place holds, and the path as written in the import.
struct Places {
    files: Files,
    search: Vec<&'static str>,
    have: HashSet<&'static str>,
    rel: String,
    here: &'static str,
    nested: bool,
}
fn places(r: &mut Rng) -> Places {
    let kind = r.below(3);
    let (kw, ext) = [("idl", "avdl"), ("protocol", "avpr"), ("schema", "avsc")][kind];
    let body = |tag: &str| match kind {
        0 => format!("protocol X {{ enum T {{ {tag} }} }}"),
        1 => json!({"protocol": "X", "types": [{"type": "enum", "name": "T", "symbols": [tag]}], "messages": {}}).to_string(),
        _ => json!({"type": "enum", "name": "T", "symbols": [tag]}).to_string(),
    };
    let nested = r.pct(50);
    let rel = if r.pct(30) { format!("in/lib.{ext}") } else { format!("lib.{ext}") };
    // The importing file: main, or main/mid/mid.avdl which main imports.
    let here = if nested { "main/mid" } else { "main" };
    let dirs = ["d1", "d2", "d3"];
    let ndirs = r.below(4);
    let mut search: Vec<&'static str> = dirs[..ndirs].to_vec();
    r.shuffle(&mut search);
    let mut files: Files = vec![];
    let import = format!("import {kw} \"{rel}\";");
    if nested {
        files.push(("main/main.avdl".into(), "protocol M { import idl \"mid/mid.avdl\"; record R { T t; } }".into()));
        files.push(("main/mid/mid.avdl".into(), format!("protocol N {{ {import} }}")));
    } else {
        files.push(("main/main.avdl".into(), format!("protocol M {{ {import} record R {{ T t; }} }}")));
    }
    let mut have: HashSet<&'static str> = HashSet::new();
    for (d, tag) in [(here, "HERE"), ("d1", "D1"), ("d2", "D2"), ("d3", "D3"), ("main", "MAIN")] {
        if (d != "main" || nested) && r.pct(45) {
            files.push((format!("{d}/{rel}"), body(tag)));
            have.insert(d);
        }
    }
    Places { files, search, have, rel, here, nested }
}
pub fn import_dirs(r: &mut Rng, ctx: &Ctx, o: &mut Outcome) {
    let Places { files, search, have, rel, here, nested } = places(r);
    // Where it must come from: beside the importing file, then the search
    // directories in the order given.
    let tag = |d: &str| match d {
        "d1" => "D1",
        "d2" => "D2",
        "d3" => "D3",
        _ => "HERE",
    };
    let want = std::iter::once(here).chain(search.iter().copied()).find(|d| have.contains(d)).map(tag);
    let op = Opts { import_dirs: search.iter().map(|d| ctx.dir.join(d)).collect(), ..opts() };
    // One input file among the texts: the others are read from disk.
    let res = idl(ctx, &files, &op);
    o.files = files;
    o.nontrivial = true;
    o.note = format!("import directories {search:?}; nested: {nested}; expected from {want:?}");
    match (want, res) {
        (Some(t), Res::Ok { json, .. }) => {
            let got = &json["types"][0]["symbols"][0];
            if got != t {
                o.fail(format!("the import took {got}, expected {t}"));
            }
        }
        (None, Res::Err { text, .. }) => {
            if !text.contains(&rel) && !text.contains("lib.") {
                o.fail(format!("the error does not name the file that was not found: {text}"));
            }
        }
        (Some(t), Res::Err { text, .. }) => o.fail(format!("the import of {t} is not found: {text}")),
        (None, Res::Ok { json, .. }) => o.fail(format!("an import that exists nowhere is accepted: {json}")),
        (_, Res::Panic(p)) => o.fail(format!("panic: {p}")),
    }
}

// ---------------------------------------------------------------------------
// P13
// ---------------------------------------------------------------------------
const SCRAPS: [&str; 44] = [
    "protocol", "record", "enum", "union", "{", "}", "(", ")", "<", ">", ";", ",", "=", "?", "@", "@x(1)", "\"", "`", "/**", "*/", "/* x */", "//", "\\u", "\\", "\"\\ud83d\"",
    "-", "0x", "1e999", "\u{e9}", "\u{1F600}", "\u{0}", "\r\n", "\u{feff}", "decimal(", "int", "void", "throws", "oneway", "import idl \"nope.avdl\";", "schema int;", "namespace a.b;",
    "\"\\u00\"", "[[", "/** \u{e9}\u{1F600} */",
];
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut t: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        let n = t.len();
        if n == 0 {
            break;
        }
        let a = r.below(n);
        let b = (a + r.range(1, 12)).min(n);
        match r.below(8) {
            0 => {
                t.drain(a..b);
            }
            1 => {
                let x: Vec<char> = t[a..b].to_vec();
                t.splice(a..a, x);
            }
            2 => {
                let x = *r.pick(&SCRAPS);
                t.splice(a..a, x.chars());
            }
            3 => {
                let x = *r.pick(&SCRAPS);
                t.splice(a..b, x.chars());
            }
            4 => t.truncate(a),
            5 => {
                let c = *r.pick(&['\u{e9}', '\u{1F600}', '"', '`', '\\', '{', '}', '@', '\n', '\r', '0', '-', '.']);
                t[a] = c;
            }
            6 => {
                let c = r.below(n);
                t.swap(a, c);
            }
            _ => {
                // Move a whole line.
                let text: String = t.iter().collect();
                let mut ls: Vec<&str> = text.split('\n').collect();
                let i = r.below(ls.len());
                let l = ls.remove(i);
                let j = r.below(ls.len() + 1);
                ls.insert(j, l);
                t = ls.join("\n").chars().collect();
            }
        }
    }
    t.into_iter().collect()
}
pub fn fuzz(r: &mut Rng, idx: u64, ctx: &Ctx, o: &mut Outcome) {
    let mut k = BASE;
    if idx % 3 == 0 {
        k = Knobs { files: (1, 3), json_files: 60, back_imports: 20, ..k };
    }
    let w = world(r, k);
    let st = Style { orphans: r.below(2), ..random_style(r) };
    let (mut files, _) = render(&w, r, st);
    // Not always broken: warnings of valid programs have spans, too.
    if !r.pct(10) {
        let i = r.below(files.len());
        files[i].1 = mutate(r, &files[i].1);
    }
    let op = Opts { debug: true, from_str: files.len() == 1 && r.pct(70), ..opts() };
    let res = if r.pct(30) { schemata(ctx, &files, &op) } else { idl(ctx, &files, &op) };
    o.files = files;
    o.nontrivial = true;
    match res {
        Res::Panic(p) => o.fail(format!("panic: {p}")),
        Res::Err { bad_spans, text, .. } => {
            if !bad_spans.is_empty() {
                o.fail(format!("a diagnostic points outside its text: {bad_spans:?} in {text}"));
            }
            if text.trim().is_empty() {
                o.fail("an error without a message");
            }
        }
        Res::Ok { json, .. } => {
            // Whatever is accepted must be a value that serialises.
            if serde_json::to_string(&json).is_err() {
                o.fail("the output does not serialise");
            }
        }
    }
}

// ---------------------------------------------------------------------------
// P15
// ---------------------------------------------------------------------------
fn same(a: &Res, b: &Res) -> Result<(), String> {
    match (a, b) {
        (Res::Ok { json: a, warnings: x }, Res::Ok { json: b, warnings: y }) => {
            let (a, b) = (serde_json::to_string_pretty(a).unwrap(), serde_json::to_string_pretty(b).unwrap());
            if a != b {
                return Err(format!("outputs differ:\n{a}\n{b}"));
            }
            if x != y {
                return Err(format!("warnings differ:\n{x:?}\n{y:?}"));
            }
            Ok(())
        }
        (Res::Err { text: a, warnings: x, .. }, Res::Err { text: b, warnings: y, .. }) => {
            if a != b {
                return Err(format!("errors differ:\n{a}\n{b}"));
            }
            if x != y {
                return Err(format!("warnings before the error differ:\n{x:?}\n{y:?}"));
            }
            Ok(())
        }
        (Res::Panic(a), Res::Panic(b)) if a == b => Ok(()),
        (Res::Ok { .. }, Res::Err { text, .. }) | (Res::Err { text, .. }, Res::Ok { .. }) => Err(format!("once accepted, once rejected: {text}")),
        _ => Err("panic in one run only".into()),
    }
}
/// One builder, with its import directories, used several times.
fn same_builder(r: &mut Rng, ctx: &Ctx, o: &mut Outcome) {
    let Places { files, search, .. } = places(r);
    let dirs: Vec<_> = search.iter().map(|d| ctx.dir.join(d)).collect();
    let op = Opts { import_dirs: dirs.clone(), ..opts() };
    let fresh = idl(ctx, &files, &op);
    let fresh_s = schemata(ctx, &files, &op);
    let mut b = avdl::Idl::new();
    let mut e = avdl::Idl2Schemata::new();
    for d in &dirs {
        b.import_dir(d);
        e.import_dir(d);
    }
    for n in 1..4 {
        if let Err(e) = same(&fresh, &idl_with(&mut b, &ctx.dir, &files, &opts())) {
            o.fail(format!("use {n} of a builder with import directories: {e}"));
        }
        if let Err(e) = same(&fresh_s, &schemata_with(&mut e, &ctx.dir, &files, &opts())) {
            o.fail(format!("use {n} of a schemata builder with import directories: {e}"));
        }
    }
    o.files = files;
    o.nontrivial = true;
}
pub fn determinism(r: &mut Rng, idx: u64, ctx: &Ctx, o: &mut Outcome) {
    if idx % 8 == 7 {
        return same_builder(r, ctx, o);
    }
    let mut k = Knobs { unions: 30, messages: (1, 5), docs: 20, ..BASE };
    if idx % 3 == 0 {
        k = Knobs { files: (1, 4), json_files: 40, back_imports: 20, ..k };
    }
    let mut w = world(r, k);
    if idx % 3 == 1 {
        // Several mistakes at once: which are reported, and in what order?
        let mut n = 0;
        each_ref(&mut w, &mut |_, _| n += 1);
        let mut i = 0;
        each_ref(&mut w, &mut |name, c| {
            if r.pct(50) {
                *name = join_name(c, &format!("Nope{i}"));
            }
            i += 1;
        });
    }
    let st = Style { orphans: r.below(3), ..WILD };
    let (mut files, _) = render(&w, r, st);
    if idx % 7 == 2 {
        let i = r.below(files.len());
        files[i].1 = mutate(r, &files[i].1);
    }
    o.nontrivial = true;
    let op = || opts();
    let first = idl(ctx, &files, &op());
    for _ in 0..2 {
        if let Err(e) = same(&first, &idl(ctx, &files, &op())) {
            o.fail(format!("two runs on the same input: {e}"));
        }
    }
    // A builder that has compiled other things before.
    let other = vec![("f0.avdl".to_string(), "protocol Q { /** lost */ record Z { int a; /** lost */ } record Y { Nope n; } }".to_string())];
    let mut b = avdl::Idl::new();
    let seq = r.below(4);
    let side = ctx.dir.with_extension("side");
    write_files(&side, &other);
    if seq & 1 == 1 {
        let _ = idl_with(&mut b, &side, &other, &op());
    }
    let once = idl_with(&mut b, &ctx.dir, &files, &op());
    if let Err(e) = same(&first, &once) {
        o.fail(format!("a builder used before: {e}"));
    }
    if seq & 2 == 2 {
        let mut bad = other.clone();
        bad[0].0 = "missing.avdl".into();
        // Compile something with warnings that fails, then a missing file.
        let _ = b.convert(side.join("f0.avdl"));
        if let Res::Err { warnings, .. } = idl_with(&mut b, &side, &bad, &op())
            && !warnings.is_empty()
        {
            o.fail(format!("warnings of an earlier call are left behind: {warnings:?}"));
        }
    }
    // Extraction likewise.
    let s1 = schemata(ctx, &files, &op());
    let mut b = avdl::Idl2Schemata::new();
    let _ = schemata_with(&mut b, &side, &other, &op());
    if let Err(e) = same(&s1, &schemata_with(&mut b, &ctx.dir, &files, &op())) {
        o.fail(format!("extraction twice: {e}"));
    }
    // From a string, in the same directory or not, when nothing is imported.
    if files.len() == 1
        && idx % 7 != 2
        && let Err(e) = same(&first, &idl(ctx, &files, &Opts { from_str: true, ..opts() }))
    {
        o.fail(format!("from a string and from a file: {e}"));
    }
    let _ = std::fs::remove_dir_all(&side);
    o.files = files;
}

// ---------------------------------------------------------------------------
// P16
// ---------------------------------------------------------------------------
pub fn logical(r: &mut Rng, ctx: &Ctx, o: &mut Outcome) {
    let big = |r: &mut Rng| -> u64 { *r.pick(&[0, 1, 2, 3, 9, 10, 38, 1000, 2147483647, 2147483648, 4294967295, 4294967296]) };
    let p = big(r);
    let s = if r.pct(70) { Some(if r.pct(50) { p.wrapping_add(r.below(3) as u64).wrapping_sub(1) & 0xffffffff } else { big(r) }) } else { None };
    let lit = |n: u64, r: &mut Rng| match r.below(4) {
        0 => format!("0x{n:x}"),
        1 if n > 0 => format!("0{n:o}"),
        _ => n.to_string(),
    };
    let args = match s {
        None => lit(p, r),
        Some(s) => format!("{}, {}", lit(p, r), lit(s, r)),
    };
    let sc = s.unwrap_or(0);
    let max = u32::MAX as u64;
    let ok = p >= 1 && p <= max && sc <= p && sc <= max;
    let place = *r.pick(&["record R { # f; }", "record R { array<#> f; }", "record R { union {null, #} f; }", "record R { #? f; }", "# m();", "void m(# x);", "record R { map<array<#>> f; }"]);
    let text = format!("protocol P {{ {} }}", place.replace('#', &format!("decimal({args})")));
    let files = vec![("f.avdl".to_string(), text)];
    if !ok {
        must_fail_files(r, files, ctx, o, &format!("decimal({args})"));
        return;
    }
    let res = idl(ctx, &files, &Opts { from_str: true, ..opts() });
    o.files = files;
    o.nontrivial = true;
    match res {
        Res::Ok { json, .. } => {
            fn find(v: &Value) -> Option<&serde_json::Map<String, Value>> {
                match v {
                    Value::Object(o) if o.get("logicalType") == Some(&json!("decimal")) => Some(o),
                    Value::Object(o) => o.values().find_map(find),
                    Value::Array(a) => a.iter().find_map(find),
                    _ => None,
                }
            }
            match find(&json) {
                None => o.fail(format!("no decimal in {json}")),
                Some(m) => {
                    if m.get("type") != Some(&json!("bytes")) || m.get("precision") != Some(&json!(p)) || m.get("scale").cloned().unwrap_or(json!(0)) != json!(sc) {
                        o.fail(format!("decimal({args}) came out as {m:?}"));
                    }
                }
            }
        }
        Res::Err { text, .. } => {
            // Sizes beyond Java's int may be refused.
            if p <= i32::MAX as u64 && sc <= i32::MAX as u64 {
                o.fail(format!("decimal({args}) is rejected: {text}"));
            }
        }
        Res::Panic(p) => o.fail(format!("panic: {p}")),
    }
}

// ---------------------------------------------------------------------------
// P17
// ---------------------------------------------------------------------------
pub fn messages(r: &mut Rng, ctx: &Ctx, o: &mut Outcome) {
    let k = Knobs { messages: (1, 4), schema_mode: 0, decls: (1, 4), defaults: 0, ..BASE };
    let mut w = world(r, k);
    let what = {
        let mut v = msgs(&mut w, 0);
        if v.is_empty() {
            return;
        }
        let i = r.below(v.len());
        let m = &mut *v[i];
        match r.below(3) {
            0 => {
                m.oneway = true;
                m.errors.clear();
                m.props.clear();
                let t = *r.pick(&["int", "string", "bytes", "double", "boolean"]);
                m.ret = Some(match r.below(6) {
                    0 => Ty::Prim(t),
                    1 => Ty::Union(vec![TyA::bare(Ty::Prim("null"))]),
                    2 => Ty::Nullable(Box::new(Ty::Prim(t))),
                    3 => Ty::Array(Box::new(TyA::bare(Ty::Prim("null")))),
                    4 => Ty::Array(Box::new(TyA::bare(Ty::Prim(t)))),
                    _ => Ty::Logical("date"),
                });
                format!("one-way message {} that returns something", m.name)
            }
            1 => {
                let mut n = m.clone();
                n.props.clear();
                m.params = vec![];
                let f = |name: &str| Field {
                    name: name.into(),
                    ty: TyA::bare(Ty::Prim("int")),
                    doc: None,
                    props: vec![],
                    aliases: vec![],
                    order: None,
                    default: None,
                    joined: false,
                };
                let mut ps = vec![f("p"), f("q"), f("p")];
                if r.pct(50) {
                    ps[2].ty = TyA::bare(Ty::Prim("string"));
                }
                m.params = ps;
                "parameter p twice".to_string()
            }
            _ => {
                m.oneway = false;
                m.errors = vec!["no.such.Err".into()];
                "throws an undefined error".to_string()
            }
        }
    };
    must_fail(r, &w, ctx, o, &what);
}

// ---------------------------------------------------------------------------
// P18
// ---------------------------------------------------------------------------
fn distance(a: &str, b: &str) -> usize {
    let (a, b): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let mut d = vec![vec![0usize; b.len() + 1]; a.len() + 1];
    for i in 0..=a.len() {
        for j in 0..=b.len() {
            d[i][j] = if i == 0 {
                j
            } else if j == 0 {
                i
            } else {
                (d[i - 1][j - 1] + (a[i - 1] != b[j - 1]) as usize).min(d[i - 1][j] + 1).min(d[i][j - 1] + 1)
            };
        }
    }
    d[a.len()][b.len()]
}
fn near(a: &str, b: &str) -> bool {
    distance(a, b) <= if a.len().min(b.len()) <= 4 { 1 } else { 2 }
}
fn edit(r: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..r.range(0, 3) {
        let i = r.below(c.len() + 1);
        let x = *r.pick(&['a', 'e', 'n', 'X', '1', '_', 'o']);
        match r.below(3) {
            0 => c.insert(i, x),
            1 if !c.is_empty() => {
                c.remove(i.min(c.len() - 1));
            }
            _ if !c.is_empty() => {
                let j = i.min(c.len() - 1);
                c[j] = x
            }
            _ => {}
        }
    }
    c.into_iter().collect()
}
pub fn suggestions(r: &mut Rng, ctx: &Ctx, o: &mut Outcome) {
    let prims = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"];
    let pool = ["Person", "Persona", "Item", "Items", "Order", "OrderLine", "E", "Ab", "Status", "Station", "Strings", "Integer", "Flow"];
    let ns = *r.pick(&["", "a.b", "org.example"]);
    let mut names: Vec<String> = vec![];
    for _ in 0..r.range(1, 5) {
        let n = join_name(if r.pct(75) { ns } else { "other" }, *r.pick(&pool));
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let base = if r.pct(30) { (*r.pick(&prims)).to_string() } else { simple_of(r.pick(&names)).to_string() };
    let mut wrong = edit(r, &base);
    if r.pct(20) {
        wrong = wrong.to_uppercase();
    }
    if r.pct(10) {
        wrong = (*r.pick(&["Integer", "str", "Zzzzzz", "void", "decimal", "Long", "bool", "String"])).to_string();
    }
    let ident = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !s.as_bytes()[0].is_ascii_digit();
    let full_wrong = join_name(ns, &wrong);
    if !ident(&wrong) || prims.contains(&wrong.as_str()) || RESERVED_NAMES.contains(&wrong.as_str()) || names.contains(&full_wrong) || (names.contains(&wrong)) {
        return;
    }
    if KEYWORDS.contains(&wrong.as_str()) && wrong != "void" {
        return;
    }
    let mut text = String::new();
    if !ns.is_empty() {
        text.push_str(&format!("@namespace(\"{ns}\") "));
    }
    text.push_str("protocol P { ");
    for n in &names {
        let own = ns_of(n) == ns;
        let id = simple_of(n);
        let at = if own { String::new() } else { format!("@namespace(\"{}\") ", ns_of(n)) };
        text.push_str(&format!("{at}fixed {id}(1); "));
    }
    let id = if wrong == "void" { "`void`".to_string() } else { wrong.clone() };
    text.push_str(&format!("record Using {{ {id} f; }} }}"));
    names.push(join_name(ns, "Using"));
    let files = vec![("f.avdl".to_string(), text)];
    let Some(t) = must_fail_files(r, files, ctx, o, &format!("undefined {wrong}")) else { return };
    // What may be suggested: a primitive or a declared name, by simple name or
    // by full name, within the threshold and as close as any other.
    let mut best: Option<usize> = None;
    let mut cand: Vec<(String, usize)> = vec![];
    for p in prims {
        if near(&wrong, p) {
            cand.push((p.into(), distance(&wrong, p)));
        }
    }
    for n in &names {
        let mut d: Option<usize> = None;
        if near(&full_wrong, n) {
            d = Some(distance(&full_wrong, n));
        }
        if near(&wrong, simple_of(n)) {
            d = Some(d.unwrap_or(99).min(distance(&wrong, simple_of(n))));
        }
        if let Some(d) = d {
            cand.push((n.clone(), d));
        }
    }
    for (_, d) in &cand {
        best = Some(best.map_or(*d, |b: usize| b.min(*d)));
    }
    let got = t.split("did you mean `").nth(1).and_then(|x| x.split('`').next()).map(String::from);
    if wrong == "void" {
        return;
    }
    match (got, best) {
        (Some(g), Some(b)) => {
            if !cand.iter().any(|(n, d)| *n == g && *d == b) {
                o.fail(format!("`{wrong}`: suggested `{g}`, but the closest names are {cand:?}"));
            }
        }
        (Some(g), None) => o.fail(format!("`{wrong}`: suggested `{g}`, which is not close")),
        (None, Some(_)) => o.fail(format!("`{wrong}`: nothing suggested, although {cand:?} are close: {t}")),
        (None, None) => {}
    }
}

// ---------------------------------------------------------------------------
// P19
// ---------------------------------------------------------------------------
pub fn cli(r: &mut Rng, idx: u64, ctx: &Ctx, o: &mut Outcome) {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let Some(bin) = &ctx.bin else { panic!("--bin is needed") };
    let mut k = Knobs { decls: (1, 4), ..BASE };
    if idx % 2 == 0 {
        k = Knobs { files: (1, 3), json_files: 40, ..k };
    }
    let mut w = world(r, k);
    let broken = r.pct(25);
    if broken {
        let mut n = 0;
        each_ref(&mut w, &mut |name, _| {
            if n == 0 {
                *name = "no.such.T".into();
            }
            n += 1;
        });
    }
    let (mut files, _) = {
        let st = Style { orphans: r.below(2), ..PLAIN };
        render(&w, r, st)
    };
    // Imported files may lie in a directory that is only searched.
    let use_dir = files.len() > 1 && files.iter().all(|f| !f.0.contains('/')) && r.pct(40);
    if use_dir {
        for f in files.iter_mut().skip(1) {
            f.0 = format!("lib/{}", f.0);
        }
    }
    let dir = ctx.dir.clone();
    let op = Opts { import_dirs: if use_dir { vec![dir.join("lib")] } else { vec![] }, ..opts() };
    let lib = idl(ctx, &files, &op);
    let libs = schemata(ctx, &files, &op);
    o.nontrivial = true;
    let mut args: Vec<String> = vec!["idl".into()];
    let dirs: Vec<String> = if use_dir { vec!["--import-dir".into(), "lib".into()] } else { vec![] };
    let first = r.pct(50);
    if first {
        args.extend(dirs.clone());
    }
    let mode = r.below(5);
    let stdin_input = mode == 1 || mode == 2;
    let to_file = mode == 0 || mode == 2;
    match mode {
        0 => args.extend(["f0.avdl".into(), "out.json".into()]),
        1 => {
            if r.pct(50) {
                args.push("-".into());
            }
        }
        2 => args.extend(["-".into(), "out.json".into()]),
        3 => args.push("f0.avdl".into()),
        _ => args.extend(["f0.avdl".into(), "-".into()]),
    }
    if !first {
        args.extend(dirs.clone());
    }
    let run = |args: &[String], input: Option<&str>| {
        let mut c = Command::new(bin)
            .args(args)
            .current_dir(&dir)
            .stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() })
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("run avdl");
        if let Some(s) = input {
            let _ = c.stdin.take().unwrap().write_all(s.as_bytes());
        }
        c.wait_with_output().unwrap()
    };
    let out_path = dir.join("out.json");
    let before = "previous content";
    if to_file {
        std::fs::write(&out_path, before).unwrap();
    }
    let out = run(&args, if stdin_input { Some(&files[0].1) } else { None });
    let stdout = String::from_utf8_lossy(&out.stdout).into_owned();
    let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    o.note = format!("avdl {}", args.join(" "));
    match &lib {
        Res::Ok { json, warnings } => {
            let want = serde_json::to_string_pretty(json).unwrap();
            if !out.status.success() {
                o.fail(format!("exit {:?} on a valid program: {stderr}", out.status.code()));
            } else if to_file {
                let got = std::fs::read_to_string(&out_path).unwrap_or_default();
                if got != format!("{want}\n") || !stdout.is_empty() {
                    o.fail(format!("output file: {got:?}; stdout: {stdout:?}; want {want:?} and a line feed in the file only"));
                }
            } else if stdout != want {
                o.fail(format!("stdout: {stdout:?}, want {want:?}"));
            }
            if warnings.is_empty() != stderr.trim().is_empty() {
                o.fail(format!("{} warnings, but standard error says {stderr:?}", warnings.len()));
            }
        }
        Res::Err { .. } => {
            if out.status.code() != Some(1) {
                o.fail(format!("exit {:?} on an invalid program", out.status.code()));
            }
            if !stdout.is_empty() {
                o.fail(format!("an invalid program gives output: {stdout}"));
            }
            if stderr.trim().is_empty() {
                o.fail("an invalid program gives no message");
            }
            if to_file && std::fs::read_to_string(&out_path).unwrap_or_default() != before {
                o.fail("an invalid program changed the output file");
            }
        }
        Res::Panic(p) => o.fail(format!("panic: {p}")),
    }
    // idl2schemata into a new directory.
    let mut args: Vec<String> = vec!["idl2schemata".into()];
    args.extend(dirs);
    args.extend(["f0.avdl".into(), "out/schemas".into()]);
    let out = run(&args, None);
    let mut got: Vec<(String, String)> = vec![];
    if let Ok(d) = std::fs::read_dir(dir.join("out/schemas")) {
        for e in d.flatten() {
            got.push((e.file_name().to_string_lossy().into_owned(), std::fs::read_to_string(e.path()).unwrap()));
        }
    }
    got.sort();
    match &libs {
        Res::Ok { json, .. } => {
            let mut want: std::collections::BTreeMap<String, String> = Default::default();
            for p in json.as_array().unwrap() {
                want.insert(format!("{}.avsc", p[0].as_str().unwrap()), format!("{}\n", serde_json::to_string_pretty(&p[1]).unwrap()));
            }
            let want: Vec<(String, String)> = want.into_iter().collect();
            if !out.status.success() || got != want {
                o.fail(format!("idl2schemata exit {:?}: files {got:?}, want {want:?}", out.status.code()));
            }
        }
        Res::Err { .. } => {
            if out.status.code() != Some(1) || !got.is_empty() {
                o.fail(format!("idl2schemata exit {:?} on an invalid program, files {got:?}", out.status.code()));
            }
        }
        Res::Panic(p) => o.fail(format!("panic: {p}")),
    }
    // Wrong usage.
    if idx % 5 == 0 {
        let bad: [&[&str]; 4] = [&["nope"], &[], &["--nope"], &["idl2schemata"]];
        let args: Vec<String> = r.pick(&bad).iter().map(|s| s.to_string()).collect();
        let out = run(&args, None);
        if out.status.success() || !out.stdout.is_empty() || out.stderr.is_empty() {
            o.fail(format!("avdl {args:?}: exit {:?}, stdout {:?}", out.status.code(), String::from_utf8_lossy(&out.stdout)));
        }
    }
    o.files = files;
    let _ = canon::read;
}
