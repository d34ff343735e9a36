//! Random abstract programs that are valid by construction.
use crate::model::*;
use crate::rng::Rng;
use serde_json::{Map, Value, json};

#[derive(Clone, Copy)]
pub struct Knobs {
    pub decls: (usize, usize),
    pub fields: (usize, usize),
    pub docs: usize,
    pub props: usize,
    pub aliases: usize,
    pub nullable: usize,
    pub defaults: usize,
    pub logical: usize,
    pub messages: (usize, usize),
    pub foreign_ns: usize,
    pub files: (usize, usize),
    pub json_files: usize,
    pub schema_mode: usize,
    pub refs: usize,
    pub unions: usize,
    pub weird_strings: usize,
    pub back_imports: usize,
}
pub const BASE: Knobs = Knobs {
    decls: (1, 6),
    fields: (0, 5),
    docs: 15,
    props: 15,
    aliases: 10,
    nullable: 15,
    defaults: 35,
    logical: 12,
    messages: (0, 3),
    foreign_ns: 30,
    files: (1, 1),
    json_files: 0,
    schema_mode: 10,
    refs: 35,
    unions: 15,
    weird_strings: 20,
    back_imports: 0,
};
const PRIMS: [&str; 8] = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"];
const LOGICALS: [&str; 5] = ["date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid"];
const TYPE_NAMES: [&str; 14] = ["A", "B", "C", "D", "E", "F2", "Foo", "Foo_Bar", "_x", "node", "record", "fixed", "Map", "Long"];
const FIELD_NAMES: [&str; 16] =
    ["a", "b", "c", "d", "e1", "f_2", "_g", "Name", "type", "record", "schema", "string", "namespace", "oneway", "null", "default"];
const NSS: [&str; 5] = ["", "a", "a.b", "c", "org.x_1"];

pub fn props(r: &mut Rng, k: &Knobs, extra: &[&str]) -> Props {
    let mut v: Props = vec![];
    while v.len() < 3 && r.pct(k.props) {
        let base = ["p", "q1", "my-prop", "x.y.z", "java-class", "version"];
        let n = if !extra.is_empty() && r.pct(30) { *r.pick(extra) } else { *r.pick(&base) };
        if v.iter().all(|x| x.0 != n) {
            v.push((n.to_string(), value(r, k, 2)));
        }
    }
    v
}
pub fn string(r: &mut Rng, k: &Knobs) -> String {
    let n = r.below(6);
    (0..n)
        .map(|_| {
            if r.pct(k.weird_strings) {
                *r.pick(&['\n', '\t', '\r', '\u{8}', '\u{c}', '"', '\'', '\\', '\u{e9}', '\u{1F600}', '\u{7f}', '\u{0}', '\u{2028}', '/', '*', '0', '7', '8', 'u', 'n', '\u{10FFFF}', '\u{FFFD}', '\u{D7FF}'])
            } else {
                *r.pick(&['a', 'b', 'x', ' ', 'Z', '1', '_', '.', '-'])
            }
        })
        .collect()
}
pub fn int(r: &mut Rng, bits: u32) -> i64 {
    let edge: &[i64] = if bits == 32 {
        &[0, 1, -1, i32::MAX as i64, i32::MIN as i64, 8, 9, 255]
    } else {
        &[0, 1, -1, i32::MAX as i64 + 1, i32::MIN as i64 - 1, i64::MAX, i64::MIN, 1 << 53, (1 << 53) + 1]
    };
    if r.pct(50) {
        *r.pick(edge)
    } else {
        let s = r.below(bits as usize) as u32;
        (r.next() as i64) >> (63 - s.min(bits - 2))
    }
}
pub fn float(r: &mut Rng) -> f64 {
    if r.pct(50) {
        *r.pick(&[0.0, 0.5, 1.5, -2.25, 1e10, 1e-7, 3.141592653589793, 1e300, 5e-324, 2.2250738585072014e-308, f64::MAX, 1e21, 100.0, -1e-9, 0.1])
    } else {
        let f = f64::from_bits(r.next());
        if f.is_finite() { f } else { 4.75 }
    }
}
pub fn value(r: &mut Rng, k: &Knobs, depth: usize) -> Value {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => Value::Null,
        1 => Value::Bool(r.pct(50)),
        2 => json!(int(r, 32)),
        3 => json!(int(r, 64)),
        4 => json!(float(r)),
        5 => json!(string(r, k)),
        6 => {
            let n = r.below(3);
            Value::Array((0..n).map(|_| value(r, k, depth - 1)).collect())
        }
        _ => {
            let n = r.below(3);
            let mut m = Map::new();
            for _ in 0..n {
                m.insert(string(r, k), value(r, k, depth - 1));
            }
            Value::Object(m)
        }
    }
}
pub fn doc(r: &mut Rng, k: &Knobs) -> Option<Doc> {
    if !r.pct(k.docs) {
        return None;
    }
    let pool = ["A doc.", "x", "see {@link Foo}", "caf\u{e9} \u{1F600}", "a * b ** c", "// not a comment", "\"quoted\" 'text'", "trailing \\ backslash", "@annotation(\"x\")"];
    let n = if r.pct(50) { 1 } else { r.range(2, 4) };
    let mut lines: Vec<String> = vec![];
    for i in 0..n {
        let l = *r.pick(&pool);
        if i > 0 && i + 1 < n && r.pct(25) {
            // Blank, or white space only (which does not count as indentation).
            lines.push(if r.pct(40) { " ".into() } else { String::new() });
        } else if i > 1 && r.pct(25) {
            // Extra indentation beyond the common one (line 1 has none).
            lines.push(if lines[1].trim().is_empty() { l.to_string() } else { format!("  {l}") });
        } else {
            lines.push(l.to_string());
        }
    }
    Some(Doc { lines, crlf: n > 1 && r.pct(15) })
}

/// JSON files are read with serde_json, which rounds some floats by one unit
/// in the last place (a recorded finding); use floats that survive.
pub fn settle(mut v: Value) -> Value {
    for _ in 0..20 {
        let w: Value = serde_json::from_str(&v.to_string()).unwrap();
        if w == v {
            return v;
        }
        v = w;
    }
    if v.is_number() { json!(1.5) } else { Value::Null } // keeps drifting
}
fn settled(a: Attrs) -> Attrs {
    a.into_iter().map(|(k, v)| (k, settle(v))).collect()
}

/// What can be referred to.
#[derive(Clone)]
pub struct Sym {
    pub full: String,
    pub error: bool,
}
pub struct G<'a> {
    pub r: &'a mut Rng,
    pub k: Knobs,
    pub syms: Vec<Sym>,
    /// Avro JSON cannot refer to a null-namespace type inside a namespace, so
    /// messages that end up in such a protocol do not.
    pub no_null_ns: bool,
}
impl G<'_> {
    fn refs(&self, ctx: &str) -> Vec<String> {
        self.syms.iter().filter(|s| !ns_of(&s.full).is_empty() || (ctx.is_empty() && !self.no_null_ns)).map(|s| s.full.clone()).collect()
    }
    pub fn simple_ty(&mut self, ctx: &str, allow_null: bool) -> Ty {
        let refs = self.refs(ctx);
        if !refs.is_empty() && self.r.pct(self.k.refs) {
            return Ty::Ref(self.r.pick(&refs).clone());
        }
        if self.r.pct(self.k.logical) {
            if self.r.pct(50) {
                return Ty::Logical(LOGICALS[self.r.below(5)]);
            }
            let p = self.r.range(1, 40) as u32;
            let s = if self.r.pct(60) { Some(self.r.below(p as usize + 1) as u32) } else { None };
            return Ty::Decimal(p, s);
        }
        loop {
            let p = PRIMS[self.r.below(8)];
            if p != "null" || allow_null {
                return Ty::Prim(p);
            }
        }
    }
    fn key(t: &Ty) -> String {
        match t {
            Ty::Prim(p) => p.to_string(),
            Ty::Logical(_) | Ty::Decimal(..) => match t.canon(&vec![], true) {
                C::Prim(p, _) => p,
                _ => unreachable!(),
            },
            Ty::Array(_) => "array".into(),
            Ty::Map(_) => "map".into(),
            Ty::Ref(n) => n.clone(),
            _ => unreachable!(),
        }
    }
    fn ty_props(&mut self, t: &Ty) -> Props {
        match t {
            Ty::Ref(_) => vec![],
            Ty::Nullable(x) if matches!(**x, Ty::Ref(_)) => vec![],
            _ => {
                let mut p = props(self.r, &self.k, &["order", "default", "precision", "scale", "logicalType"]);
                let base = match t {
                    Ty::Nullable(x) => (**x).clone(),
                    x => x.clone(),
                };
                match base {
                    Ty::Prim(_) => {
                        if self.r.pct(self.k.logical) {
                            p.retain(|x| !["logicalType", "precision", "scale"].contains(&x.0.as_str()));
                            let l = *self.r.pick(&[
                                "date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "local-timestamp-millis",
                                "local-timestamp-micros", "uuid", "decimal", "duration", "my-own",
                            ]);
                            p.push(("logicalType".into(), l.into()));
                            if self.r.pct(60) {
                                let n: i64 = *self.r.pick(&[1, 5, 9, 0, -1, 3000000000, 38]);
                                p.push(("precision".into(), n.into()));
                            }
                            if self.r.pct(50) {
                                let n: i64 = *self.r.pick(&[0, 1, 5, 9, -1, 100]);
                                p.push(("scale".into(), n.into()));
                            }
                            self.r.shuffle(&mut p);
                        }
                    }
                    // Redefining what the keyword says is an error, not a property.
                    Ty::Logical(_) | Ty::Decimal(..) => p.retain(|x| !["logicalType", "precision", "scale"].contains(&x.0.as_str())),
                    _ => {}
                }
                p
            }
        }
    }
    pub fn ty(&mut self, ctx: &str, depth: usize, in_union: bool) -> TyA {
        let roll = self.r.below(100);
        let ty = if depth > 0 && roll < 10 {
            Ty::Array(Box::new(self.ty(ctx, depth - 1, false)))
        } else if depth > 0 && roll < 20 {
            Ty::Map(Box::new(self.ty(ctx, depth - 1, false)))
        } else if depth > 0 && !in_union && roll < 20 + self.k.unions {
            let n = self.r.range(1, 4);
            let mut ts: Vec<TyA> = vec![];
            for _ in 0..n {
                let t = if self.r.pct(20) { TyA::bare(Ty::Prim("null")) } else { self.ty(ctx, depth - 1, true) };
                if ts.iter().all(|x| Self::key(&x.ty) != Self::key(&t.ty)) {
                    ts.push(t);
                }
            }
            Ty::Union(ts)
        } else if !in_union && self.r.pct(self.k.nullable) {
            Ty::Nullable(Box::new(self.simple_ty(ctx, false)))
        } else {
            self.simple_ty(ctx, true)
        };
        let props = if matches!(ty, Ty::Union(_)) && !self.r.pct(10) { vec![] } else { self.ty_props(&ty) };
        TyA { props, ty }
    }
    pub fn fields(&mut self, ctx: &str, n: usize, join: bool) -> Vec<Field> {
        let mut names: Vec<&str> = FIELD_NAMES.to_vec();
        self.r.shuffle(&mut names);
        let mut out: Vec<Field> = vec![];
        for name in names.into_iter().take(n) {
            let joined = join && !out.is_empty() && self.r.pct(20);
            let ty = if joined { out.last().unwrap().ty.clone() } else { self.ty(ctx, 2, false) };
            let aliases = if self.r.pct(self.k.aliases) { vec!["old".into(), "x.older".into()][..self.r.range(1, 2)].to_vec() } else { vec![] };
            out.push(Field {
                name: name.into(),
                ty,
                doc: doc(self.r, &self.k),
                props: props(self.r, &self.k, &["namespace", "items", "logicalType", "symbols"]),
                aliases,
                order: if self.r.pct(self.k.props) { Some(*self.r.pick(&["ascending", "descending", "ignore"])) } else { None },
                default: None,
                joined,
            });
        }
        out
    }
    pub fn decl(&mut self, full: &str, error: bool) -> Decl {
        let ns = ns_of(full).to_string();
        let kind = match if error { 0 } else { self.r.below(4) } {
            0 | 1 => {
                let n = self.r.range(self.k.fields.0, self.k.fields.1);
                Kind::Record { error, fields: self.fields(&ns, n, true) }
            }
            2 => {
                let n = self.r.below(4);
                let mut s: Vec<String> = ["AA", "BB", "C_1", "d", "record", "_E"].iter().map(|x| x.to_string()).collect();
                self.r.shuffle(&mut s);
                s.truncate(n);
                let default = if !s.is_empty() && self.r.pct(40) { Some(self.r.pick(&s).clone()) } else { None };
                Kind::Enum { symbols: s, default }
            }
            _ => Kind::Fixed(*self.r.pick(&[0, 1, 12, 16, 7, 10, 4096, u32::MAX])),
        };
        let extra: &[&str] = match kind {
            Kind::Fixed(_) => &["order", "default", "logicalType"],
            Kind::Enum { .. } => &["order", "logicalType"],
            _ => &["order", "default"],
        };
        let mut p = props(self.r, &self.k, extra);
        if matches!(kind, Kind::Fixed(_)) && self.r.pct(self.k.logical) && p.iter().all(|x| x.0 != "logicalType") {
            p.push(("logicalType".into(), (*self.r.pick(&["duration", "decimal", "uuid"])).into()));
            if self.r.pct(60) {
                p.push(("precision".into(), (*self.r.pick(&[1, 5, 400, -2])).into()));
            }
            if self.r.pct(40) {
                p.push(("scale".into(), (*self.r.pick(&[0, 2, 500])).into()));
            }
        }
        Decl { full: full.into(), doc: doc(self.r, &self.k), props: p, aliases: self.aliases(&ns), kind }
    }
    fn aliases(&mut self, ns: &str) -> Vec<String> {
        let mut v = vec![];
        while v.len() < 3 && self.r.pct(self.k.aliases) {
            let n = *self.r.pick(&["Old", "Older", "Oldest", "record", "string"]);
            // An alias without a namespace is relative to the type's own.
            let a = match self.r.below(3) {
                0 => join_name(ns, n),
                1 => format!("other.ns.{n}"),
                _ => format!("a.{n}"),
            };
            v.push(a);
        }
        v
    }
    pub fn msg(&mut self, name: &str, ctx: &str) -> Msg {
        let n = self.r.below(4);
        let params = self.fields(ctx, n, false);
        let oneway = self.r.pct(15);
        let ret = if oneway || self.r.pct(25) {
            None
        } else {
            Some(loop {
                let t = self.ty(ctx, 2, false).ty;
                if !matches!(t, Ty::Prim("null")) || self.r.pct(30) {
                    break t;
                }
            })
        };
        let is_ref = match &ret {
            Some(Ty::Ref(_)) => true,
            Some(Ty::Nullable(t)) => matches!(**t, Ty::Ref(_)),
            _ => false,
        };
        let p = if is_ref { vec![] } else { props(self.r, &self.k, &["name", "namespace", "aliases", "order", "type", "fields"]) };
        let mut errors = vec![];
        if !oneway {
            let mut errs: Vec<String> =
                self.syms.iter().filter(|s| s.error && (!ns_of(&s.full).is_empty() || (ctx.is_empty() && !self.no_null_ns))).map(|s| s.full.clone()).collect();
            self.r.shuffle(&mut errs);
            while !errs.is_empty() && self.r.pct(40) {
                errors.push(errs.pop().unwrap());
            }
        }
        Msg { name: name.into(), doc: doc(self.r, &self.k), props: p, ret, params, errors, oneway }
    }
}

// ---------------------------------------------------------------------------
// Defaults
// ---------------------------------------------------------------------------
/// A default that fits `t`, or None when none is found within the depth bound.
pub fn default_for(r: &mut Rng, k: &Knobs, t: &C, defs: &[CDef], depth: usize) -> Option<Value> {
    Some(match t {
        C::Prim(p, _) => match p.as_str() {
            "null" => Value::Null,
            "boolean" => json!(r.pct(50)),
            "int" => json!(int(r, 32)),
            "long" => json!(int(r, 64)),
            "float" | "double" => match r.below(5) {
                0 => json!(*r.pick(&["NaN", "Infinity", "-Infinity"])),
                1 => json!(int(r, 32)),
                _ => json!(float(r)),
            },
            _ => json!(string(r, k)),
        },
        C::Array(x, _) => {
            let n = if depth == 0 { 0 } else { r.below(3) };
            Value::Array((0..n).map(|_| default_for(r, k, x, defs, depth - 1)).collect::<Option<_>>()?)
        }
        C::Map(x, _) => {
            let n = if depth == 0 { 0 } else { r.below(3) };
            let mut m = Map::new();
            for _ in 0..n {
                m.insert(string(r, k), default_for(r, k, x, defs, depth - 1)?);
            }
            Value::Object(m)
        }
        C::Union(ts) => {
            if ts.is_empty() {
                return None;
            }
            let i = if r.pct(70) { 0 } else { r.below(ts.len()) };
            default_for(r, k, &ts[i], defs, depth)?
        }
        C::Named(n) => {
            let d = defs.iter().find(|d| &d.full == n)?;
            match &d.kind {
                CKind::Enum { symbols, .. } => json!(symbols.first()?),
                CKind::Fixed(_) => json!(string(r, k)),
                CKind::Record { fields, .. } => {
                    if depth == 0 {
                        return None;
                    }
                    let mut m = Map::new();
                    for f in fields {
                        if f.default.is_none() || r.pct(40) {
                            m.insert(f.name.clone(), default_for(r, k, &f.ty, defs, depth - 1)?);
                        }
                    }
                    Value::Object(m)
                }
            }
        }
    })
}
/// Does `v` fit the type (Avro's field default table; any branch of a union)?
pub fn default_fits(v: &Value, t: &C, defs: &[CDef]) -> bool {
    match t {
        C::Prim(p, _) => match p.as_str() {
            "null" => v.is_null(),
            "boolean" => v.is_boolean(),
            "int" => v.as_i64().is_some_and(|i| i >= i32::MIN as i64 && i <= i32::MAX as i64),
            "long" => v.as_i64().is_some(),
            "float" | "double" => v.is_number() || matches!(v.as_str(), Some("NaN" | "Infinity" | "-Infinity")),
            _ => v.is_string(),
        },
        C::Array(x, _) => v.as_array().is_some_and(|a| a.iter().all(|e| default_fits(e, x, defs))),
        C::Map(x, _) => v.as_object().is_some_and(|a| a.values().all(|e| default_fits(e, x, defs))),
        C::Union(ts) => ts.iter().any(|x| default_fits(v, x, defs)),
        C::Named(n) => match &defs.iter().find(|d| &d.full == n).unwrap().kind {
            CKind::Enum { .. } | CKind::Fixed(_) => v.is_string(),
            CKind::Record { fields, .. } => {
                v.as_object().is_some_and(|o| fields.iter().all(|f| o.get(&f.name).map_or(f.default.is_some(), |x| default_fits(x, &f.ty, defs))))
            }
        },
    }
}
fn fill_defaults(r: &mut Rng, k: &Knobs, items: &mut [Item], all: &mut Vec<CDef>) {
    for it in items.iter_mut() {
        match it {
            Item::Type(d) => {
                if let Kind::Record { fields, .. } = &mut d.kind {
                    for i in 0..fields.len() {
                        if r.pct(k.defaults) {
                            let c = fields[i].canon().ty;
                            let full = d.full.clone();
                            fields[i].default = default_for(r, k, &c, all, 3);
                            let canon = fields[i].canon();
                            if let Some(CDef { kind: CKind::Record { fields: cf, .. }, .. }) = all.iter_mut().find(|x| x.full == full) {
                                cf[i] = canon;
                            }
                        }
                    }
                }
            }
            Item::Msg(m) => {
                for f in &mut m.params {
                    if r.pct(k.defaults / 2) {
                        let c = f.canon().ty;
                        f.default = default_for(r, k, &c, all, 3);
                    }
                }
            }
            Item::Import(_) => {}
        }
    }
}

// ---------------------------------------------------------------------------
// Worlds
// ---------------------------------------------------------------------------
/// One of the declarations becomes much larger than the others.
fn enlarge(r: &mut Rng, w: &mut World) {
    let mut v: Vec<&mut Item> = vec![];
    for f in &mut w.files {
        if let FileBody::Idl(i) = &mut f.body {
            v.extend(i.items.iter_mut().filter(|x| !matches!(x, Item::Import(_))));
        }
    }
    if v.is_empty() {
        return;
    }
    let i = r.below(v.len());
    let n = r.range(17, 300);
    let pad = |fields: &mut Vec<Field>, r: &mut Rng| {
        for j in 0..n {
            fields.push(Field {
                name: format!("pad{j}"),
                ty: TyA::bare(Ty::Prim(PRIMS[r.below(8)])),
                doc: None,
                props: vec![],
                aliases: vec![],
                order: None,
                default: None,
                joined: false,
            });
        }
    };
    match &mut *v[i] {
        Item::Type(Decl { kind: Kind::Record { fields, .. }, .. }) => pad(fields, r),
        Item::Type(Decl { kind: Kind::Enum { symbols, .. }, .. }) => symbols.extend((0..n).map(|j| format!("PAD{j}"))),
        Item::Msg(m) => pad(&mut m.params, r),
        _ => {}
    }
}

pub fn world(r: &mut Rng, k: Knobs) -> World {
    let nfiles = r.range(k.files.0, k.files.1);
    // Kinds: 0 IDL, 1 avsc, 2 avpr.
    let kinds: Vec<usize> = (0..nfiles).map(|i| if i > 0 && r.pct(k.json_files) { r.range(1, 2) } else { 0 }).collect();
    let nss: Vec<&str> = (0..nfiles).map(|_| *r.pick(&NSS)).collect();
    // Names first, so that anything can refer to anything.
    let mut syms: Vec<Sym> = vec![];
    let mut per_file: Vec<Vec<usize>> = vec![];
    for i in 0..nfiles {
        let n = r.range(k.decls.0, k.decls.1);
        let mut mine = vec![];
        for _ in 0..n {
            let ns = if r.pct(k.foreign_ns) { *r.pick(&NSS) } else { nss[i] };
            let full = join_name(ns, *r.pick(&TYPE_NAMES));
            if syms.iter().all(|s| s.full != full) {
                mine.push(syms.len());
                syms.push(Sym { full, error: r.pct(25) });
            }
        }
        per_file.push(mine);
    }
    let mut g = G { r, k, syms, no_null_ns: false };
    let mut files: Vec<WFile> = vec![];
    let mut msg_no = 0;
    for i in 0..nfiles {
        let sub = i > 0 && g.r.pct(30);
        let dir = if sub { "sub/" } else { "" };
        let body = match kinds[i] {
            0 => {
                let schema_mode = g.r.pct(k.schema_mode);
                let mut items: Vec<Item> = vec![];
                for &s in &per_file[i] {
                    let Sym { full, error } = g.syms[s].clone();
                    items.push(Item::Type(g.decl(&full, error)));
                }
                if !schema_mode {
                    let n = g.r.range(k.messages.0, k.messages.1);
                    for _ in 0..n {
                        msg_no += 1;
                        // The same name in two files: the importing file's wins.
                        let name = if nfiles > 1 && g.r.pct(20) && i == 0 { "shared".to_string() } else { format!("m{msg_no}") };
                        if !items.iter().any(|x| matches!(x, Item::Msg(m) if m.name == name)) {
                            g.no_null_ns = !nss[0].is_empty();
                            let m = g.msg(&name, nss[i]);
                            g.no_null_ns = false;
                            items.push(Item::Msg(m));
                        }
                    }
                }
                g.r.shuffle(&mut items);
                let head = if schema_mode {
                    let main = if i == 0 { Some(g.ty(nss[i], 2, false)) } else { None };
                    Head::Schema { ns: nss[i].into(), main }
                } else {
                    let d = doc(g.r, &k);
                    let p = props(g.r, &k, &["aliases", "order", "name", "version"]);
                    Head::Protocol { full: join_name(nss[i], ["P", "Proto_1", "error"][g.r.below(3)]), doc: d, props: p }
                };
                FileBody::Idl(Idl { head, items })
            }
            1 => {
                let mine: Vec<usize> = per_file[i].clone();
                let body = g.json_types(&mine, "");
                FileBody::Avsc(if body.len() == 1 && g.r.pct(70) { body.into_iter().next().unwrap() } else { JTy::Union(body) })
            }
            _ => {
                let mine: Vec<usize> = per_file[i].clone();
                let types = g.json_types(&mine, nss[i]);
                let mut msgs = vec![];
                let n = g.r.below(3);
                for _ in 0..n {
                    msg_no += 1;
                    g.no_null_ns = !nss[0].is_empty();
                    msgs.push(g.json_msg(&format!("m{msg_no}"), nss[i]));
                    g.no_null_ns = false;
                }
                msgs.sort_by(|a, b| a.name.cmp(&b.name));
                FileBody::Avpr { full: join_name(nss[i], "JP"), types, msgs }
            }
        };
        let ext = ["avdl", "avsc", "avpr"][kinds[i]];
        files.push(WFile { path: format!("{dir}f{i}.{ext}"), body });
    }
    // Imports: every file is reachable from file 0 (parents are IDL files with
    // a smaller index), plus extra edges, possibly backwards (cycles).
    let idls: Vec<usize> = (0..nfiles).filter(|&i| kinds[i] == 0).collect();
    let mut edges: Vec<(usize, usize)> = vec![];
    for i in 1..nfiles {
        let parents: Vec<usize> = idls.iter().copied().filter(|&p| p < i).collect();
        edges.push((*g.r.pick(&parents), i));
        if g.r.pct(30) {
            edges.push((*g.r.pick(&parents), i));
        }
    }
    if nfiles > 1 && g.r.pct(k.back_imports) {
        let a = *g.r.pick(&idls);
        let b = *g.r.pick(&idls);
        edges.push((a, b));
    }
    for (a, b) in edges {
        if let FileBody::Idl(f) = &mut files[a].body {
            let at = g.r.below(f.items.len() + 1);
            f.items.insert(at, Item::Import(b));
        }
    }
    let mut w = World { files };
    if g.r.pct(1) {
        enlarge(g.r, &mut w);
    }
    let (mut all, _) = collect(&w);
    for f in &mut w.files {
        if let FileBody::Idl(i) = &mut f.body {
            fill_defaults(g.r, &k, &mut i.items, &mut all);
        }
    }
    w
}

impl G<'_> {
    fn json_attrs(&mut self) -> Attrs {
        settled(attrs(&props(self.r, &self.k, &["order", "default", "locale"])))
    }
    fn json_ty(&mut self, ctx: &str, depth: usize, in_union: bool, todo: &mut Vec<usize>) -> JTy {
        // Define a pending type in place (its second use here is a reference).
        if !todo.is_empty() && self.r.pct(40) {
            let i = self.r.below(todo.len());
            if ctx.is_empty() || self.syms[todo[i]].full.contains('.') {
                let s = todo.remove(i);
                return self.json_def(s, todo);
            }
        }
        let roll = self.r.below(100);
        if depth > 0 && roll < 12 {
            let t = self.json_ty(ctx, depth - 1, false, todo);
            return JTy::Array(Box::new(t), self.json_attrs());
        }
        if depth > 0 && roll < 24 {
            let t = self.json_ty(ctx, depth - 1, false, todo);
            return JTy::Map(Box::new(t), self.json_attrs());
        }
        if depth > 0 && !in_union && roll < 40 {
            let n = self.r.range(1, 3);
            let mut v: Vec<JTy> = vec![];
            let key = |t: &JTy| match t {
                JTy::Prim(p, _) => p.to_string(),
                JTy::Array(..) => "array".into(),
                JTy::Map(..) => "map".into(),
                JTy::Ref(n) => n.clone(),
                JTy::Def(d) => d.full.clone(),
                JTy::Union(_) => "union".into(),
            };
            for _ in 0..n {
                // Never drop a branch that holds a definition.
                let t = self.json_ty(ctx, depth - 1, true, &mut vec![]);
                if v.iter().all(|x| key(x) != key(&t)) {
                    v.push(t);
                }
            }
            return JTy::Union(v);
        }
        let refs = self.refs(ctx);
        if !refs.is_empty() && self.r.pct(self.k.refs) {
            // Only types of other files, or ones that are certainly defined.
            return JTy::Ref(self.r.pick(&refs).clone());
        }
        let p = PRIMS[self.r.below(8)];
        let mut a = self.json_attrs();
        if self.r.pct(self.k.logical) {
            let l = *self.r.pick(&["date", "time-millis", "time-micros", "timestamp-millis", "timestamp-micros", "local-timestamp-millis", "local-timestamp-micros", "uuid", "decimal", "my-own"]);
            a.insert("logicalType".into(), l.into());
            if self.r.pct(60) {
                a.insert("precision".into(), json!(*self.r.pick(&[1i64, 5, 9, 38, -1, 5000000000])));
            }
            if self.r.pct(50) {
                a.insert("scale".into(), json!(*self.r.pick(&[0i64, 1, 5, 100, -1])));
            }
        }
        JTy::Prim(p, a)
    }
    fn json_fields(&mut self, ctx: &str, n: usize, todo: &mut Vec<usize>) -> Vec<JField> {
        let mut names: Vec<&str> = FIELD_NAMES.to_vec();
        self.r.shuffle(&mut names);
        let mut out = vec![];
        for name in names.into_iter().take(n) {
            let ty = self.json_ty(ctx, 2, false, todo);
            let default = if self.r.pct(20) && matches!(ty, JTy::Prim(..)) { default_for(self.r, &self.k, &ty.canon(), &[], 1).map(settle) } else { None };
            out.push(JField {
                name: name.into(),
                ty,
                doc: if self.r.pct(self.k.docs) { Some(string(self.r, &self.k)) } else { None },
                default,
                order: if self.r.pct(self.k.props) { Some(*self.r.pick(&["ascending", "descending", "ignore"])) } else { None },
                aliases: if self.r.pct(self.k.aliases) { vec!["old".into()] } else { vec![] },
                attrs: settled(attrs(&props(self.r, &self.k, &["namespace", "logicalType"]))),
            });
        }
        out
    }
    fn json_def(&mut self, s: usize, todo: &mut Vec<usize>) -> JTy {
        let Sym { full, error } = self.syms[s].clone();
        let ns = ns_of(&full).to_string();
        let d = self.decl(&full, error);
        let kind = match d.kind {
            Kind::Record { error, .. } => {
                let n = self.r.range(self.k.fields.0, self.k.fields.1);
                JKind::Record { error, fields: self.json_fields(&ns, n, todo) }
            }
            Kind::Enum { symbols, default } => JKind::Enum { symbols, default },
            Kind::Fixed(n) => JKind::Fixed(n),
        };
        JTy::Def(Box::new(JDef {
            full,
            doc: if self.r.pct(self.k.docs) { Some(string(self.r, &self.k)) } else { None },
            aliases: d.aliases,
            attrs: settled(attrs(&d.props)),
            kind,
        }))
    }
    fn json_types(&mut self, mine: &[usize], _ctx: &str) -> Vec<JTy> {
        let mut todo = mine.to_vec();
        let mut out = vec![];
        while !todo.is_empty() {
            let s = todo.remove(0);
            out.push(self.json_def(s, &mut todo));
        }
        out
    }
    fn json_msg(&mut self, name: &str, ctx: &str) -> JMsg {
        let n = self.r.below(3);
        let params = self.json_fields(ctx, n, &mut vec![]);
        let oneway = self.r.pct(15);
        let ret = if oneway { JTy::Prim("null", Attrs::new()) } else { self.json_ty(ctx, 1, false, &mut vec![]) };
        let errs: Vec<String> = self.syms.iter().filter(|s| s.error && (!ns_of(&s.full).is_empty() || (ctx.is_empty() && !self.no_null_ns))).map(|s| s.full.clone()).collect();
        let errors = if !oneway && !errs.is_empty() && self.r.pct(30) { Some(vec![JTy::Ref(self.r.pick(&errs).clone())]) } else { None };
        JMsg {
            name: name.into(),
            doc: if self.r.pct(self.k.docs) { Some(string(self.r, &self.k)) } else { None },
            attrs: settled(attrs(&props(self.r, &self.k, &["name", "namespace"]))),
            ret,
            params,
            errors,
            oneway,
        }
    }
}
