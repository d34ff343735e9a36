//! An independent reader of Avro JSON (schemas and protocols), following the
//! naming rules of the Avro specification, and the comparison of two meanings.
use crate::model::*;
use serde_json::{Map, Value};
use std::collections::BTreeMap;

pub struct Reader {
    pub defs: Vec<CDef>,
}
type R<T> = Result<T, String>;
const PRIMS: [&str; 8] = ["null", "boolean", "int", "long", "float", "double", "bytes", "string"];

fn s<'a>(o: &'a Map<String, Value>, k: &str) -> R<Option<&'a str>> {
    match o.get(k) {
        None => Ok(None),
        Some(Value::String(x)) => Ok(Some(x)),
        Some(v) => Err(format!("`{k}` is not a string: {v}")),
    }
}
fn strs(o: &Map<String, Value>, k: &str) -> R<Vec<String>> {
    match o.get(k) {
        None => Ok(vec![]),
        Some(Value::Array(a)) => a.iter().map(|v| v.as_str().map(String::from).ok_or(format!("`{k}` holds a non-string"))).collect(),
        Some(v) => Err(format!("`{k}` is not an array: {v}")),
    }
}
fn rest(o: &Map<String, Value>, known: &[&str]) -> Attrs {
    o.iter().filter(|(k, _)| !known.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect()
}

impl Reader {
    pub fn new() -> Reader {
        Reader { defs: vec![] }
    }
    fn known(&self, n: &str) -> bool {
        self.defs.iter().any(|d| d.full == n)
    }
    pub fn schema(&mut self, v: &Value, ens: &str) -> R<C> {
        match v {
            Value::String(t) => {
                if PRIMS.contains(&t.as_str()) {
                    return Ok(C::Prim(t.clone(), Attrs::new()));
                }
                let full = if t.contains('.') { t.clone() } else { join_name(ens, t) };
                if self.known(&full) {
                    return Ok(C::Named(full));
                }
                if !t.contains('.') && self.known(t) {
                    return Ok(C::Named(t.clone()));
                }
                Err(format!("reference `{t}` (namespace `{ens}`) stands before any definition of it"))
            }
            Value::Array(a) => Ok(C::Union(a.iter().map(|x| self.schema(x, ens)).collect::<R<_>>()?)),
            Value::Object(o) => {
                let Some(Value::String(ty)) = o.get("type") else {
                    return Err(format!("schema object without string `type`: {v}"));
                };
                match ty.as_str() {
                    "array" => {
                        let i = self.schema(o.get("items").ok_or("array without items")?, ens)?;
                        Ok(C::Array(Box::new(i), rest(o, &["type", "items"])))
                    }
                    "map" => {
                        let i = self.schema(o.get("values").ok_or("map without values")?, ens)?;
                        Ok(C::Map(Box::new(i), rest(o, &["type", "values"])))
                    }
                    "record" | "error" | "enum" | "fixed" => self.named(o, ty, ens),
                    p if PRIMS.contains(&p) => Ok(C::Prim(p.into(), norm_attrs(rest(o, &["type"])))),
                    other => Err(format!("unknown schema type `{other}`")),
                }
            }
            _ => Err(format!("not a schema: {v}")),
        }
    }
    fn named(&mut self, o: &Map<String, Value>, ty: &str, ens: &str) -> R<C> {
        let name = s(o, "name")?.ok_or("named type without name")?;
        let full = if name.contains('.') {
            name.to_string()
        } else {
            join_name(s(o, "namespace")?.unwrap_or(ens), name)
        };
        if self.known(&full) {
            return Err(format!("`{full}` is defined twice"));
        }
        let ns = ns_of(&full).to_string();
        let aliases = strs(o, "aliases")?.into_iter().map(|a| if a.contains('.') { a } else { join_name(&ns, &a) }).collect();
        let doc = s(o, "doc")?.map(String::from);
        let kind = match ty {
            "enum" => CKind::Enum { symbols: strs(o, "symbols")?, default: s(o, "default")?.map(String::from) },
            "fixed" => CKind::Fixed(o.get("size").and_then(|v| v.as_u64()).ok_or("fixed without size")?),
            _ => CKind::Record { error: ty == "error", fields: vec![] },
        };
        let keys: &[&str] = match ty {
            "enum" => &["type", "name", "namespace", "doc", "aliases", "symbols", "default"],
            "fixed" => &["type", "name", "namespace", "doc", "aliases", "size"],
            _ => &["type", "name", "namespace", "doc", "aliases", "fields"],
        };
        let at = self.defs.len();
        self.defs.push(CDef { full: full.clone(), doc, aliases, attrs: rest(o, keys), kind });
        if ty == "record" || ty == "error" {
            let Some(Value::Array(fs)) = o.get("fields") else { return Err(format!("record `{full}` without fields")) };
            let fs: Vec<CField> = fs.iter().map(|f| self.field(f, &ns)).collect::<R<_>>()?;
            self.defs[at].kind = CKind::Record { error: ty == "error", fields: fs };
        }
        Ok(C::Named(full))
    }
    fn field(&mut self, v: &Value, ens: &str) -> R<CField> {
        let Value::Object(o) = v else { return Err(format!("field is not an object: {v}")) };
        Ok(CField {
            name: s(o, "name")?.ok_or("field without name")?.to_string(),
            ty: self.schema(o.get("type").ok_or("field without type")?, ens)?,
            doc: s(o, "doc")?.map(String::from),
            default: o.get("default").cloned(),
            order: s(o, "order")?.unwrap_or("ascending").to_string(),
            aliases: strs(o, "aliases")?,
            attrs: rest(o, &["name", "type", "doc", "default", "order", "aliases"]),
        })
    }
    pub fn protocol(mut self, v: &Value) -> R<COut> {
        let Value::Object(o) = v else { return Err("protocol is not an object".into()) };
        let name = s(o, "protocol")?.ok_or("no protocol name")?;
        let full = if name.contains('.') { name.to_string() } else { join_name(s(o, "namespace")?.unwrap_or(""), name) };
        let ns = ns_of(&full).to_string();
        let mut top = vec![];
        let Some(Value::Array(types)) = o.get("types") else { return Err("no `types`".into()) };
        for t in types {
            let n = self.defs.len();
            match self.schema(t, &ns)? {
                C::Named(f) if self.defs.len() > n && self.defs[n].full == f => top.push(f),
                _ => return Err(format!("entry of `types` is not a definition: {t}")),
            }
        }
        let mut messages = BTreeMap::new();
        let Some(Value::Object(ms)) = o.get("messages") else { return Err("no `messages`".into()) };
        for (k, m) in ms {
            let Value::Object(m) = m else { return Err("message is not an object".into()) };
            let Some(Value::Array(req)) = m.get("request") else { return Err("message without request".into()) };
            messages.insert(
                k.clone(),
                CMsg {
                    doc: s(m, "doc")?.map(String::from),
                    request: req.iter().map(|f| self.field(f, &ns)).collect::<R<_>>()?,
                    response: self.schema(m.get("response").ok_or("message without response")?, &ns)?,
                    errors: match m.get("errors") {
                        None => None,
                        Some(Value::Array(a)) => Some(a.iter().map(|x| self.schema(x, &ns)).collect::<R<_>>()?),
                        Some(_) => return Err("errors is not an array".into()),
                    },
                    oneway: match m.get("one-way") {
                        None => false,
                        Some(Value::Bool(b)) => *b,
                        Some(_) => return Err("one-way is not a boolean".into()),
                    },
                    attrs: rest(m, &["doc", "request", "response", "errors", "one-way"]),
                },
            );
        }
        Ok(COut {
            proto: Some((full, s(o, "doc")?.map(String::from), rest(o, &["protocol", "namespace", "doc", "types", "messages"]))),
            defs: self.defs,
            top,
            messages,
            main: None,
        })
    }
    pub fn bare(mut self, v: &Value) -> R<COut> {
        let c = self.schema(v, "")?;
        Ok(COut { proto: None, defs: self.defs, top: vec![], messages: BTreeMap::new(), main: Some(c) })
    }
}
pub fn read(v: &Value) -> R<COut> {
    if v.get("protocol").is_some() { Reader::new().protocol(v) } else { Reader::new().bare(v) }
}

/// One observed difference between what must come out and what did.
#[derive(Clone, Debug)]
pub struct Diff {
    /// Comma-free category, used to attribute the difference to properties.
    pub cat: &'static str,
    pub what: String,
}
pub fn diff(want: &COut, got: &COut) -> Vec<Diff> {
    let mut d = D(vec![]);
    match (&want.proto, &got.proto) {
        (Some(a), Some(b)) => {
            d.eq("namespace", "protocol name", &a.0, &b.0);
            d.eq("doc", "protocol doc", &a.1, &b.1);
            d.eq("props", "protocol properties", &a.2, &b.2);
        }
        (None, None) => {}
        _ => d.add("kind", "protocol/schema kind differs".into()),
    }
    if let (Some(a), Some(b)) = (&want.main, &got.main) {
        d.ty("main schema", a, b);
    }
    for w in &want.defs {
        match got.defs.iter().find(|g| g.full == w.full) {
            None => d.add("missing-type", format!("type `{}` is missing", w.full)),
            Some(g) => d.def(w, g),
        }
    }
    for g in &got.defs {
        if !want.defs.iter().any(|w| w.full == g.full) {
            d.add("extra-type", format!("type `{}` was not declared", g.full));
        }
    }
    if d.0.iter().all(|x| x.cat != "missing-type" && x.cat != "extra-type") {
        let f = |o: &COut| o.defs.iter().map(|x| x.full.clone()).collect::<Vec<_>>();
        d.eq("type-order", "order of definitions", &f(want), &f(got));
        d.eq("type-order", "entries of `types`", &want.top, &got.top);
    }
    for (k, w) in &want.messages {
        match got.messages.get(k) {
            None => d.add("message", format!("message `{k}` is missing")),
            Some(g) => {
                let p = format!("message `{k}`");
                d.eq("doc", &format!("{p} doc"), &w.doc, &g.doc);
                d.eq("props", &format!("{p} properties"), &w.attrs, &g.attrs);
                d.eq("message", &format!("{p} one-way"), &w.oneway, &g.oneway);
                d.fields(&p, &w.request, &g.request, true);
                d.ty_in(&format!("{p} response"), &w.response, &g.response, true);
                match (&w.errors, &g.errors) {
                    (Some(a), Some(b)) => d.eq("message", &format!("{p} errors"), a, b),
                    (None, None) => {}
                    (a, b) => d.add("message", format!("{p} errors: want {a:?}, got {b:?}")),
                }
            }
        }
    }
    for k in got.messages.keys() {
        if !want.messages.contains_key(k) {
            d.add("message", format!("message `{k}` was not declared"));
        }
    }
    d.0
}
struct D(Vec<Diff>);
impl D {
    fn add(&mut self, cat: &'static str, what: String) {
        self.0.push(Diff { cat, what });
    }
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, cat: &'static str, what: &str, a: &T, b: &T) {
        if a != b {
            self.add(cat, format!("{what}: want {a:?}, got {b:?}"));
        }
    }
    fn def(&mut self, w: &CDef, g: &CDef) {
        let p = format!("type `{}`", w.full);
        self.eq("doc", &format!("{p} doc"), &w.doc, &g.doc);
        self.eq("aliases", &format!("{p} aliases"), &w.aliases, &g.aliases);
        self.eq("props", &format!("{p} properties"), &w.attrs, &g.attrs);
        match (&w.kind, &g.kind) {
            (CKind::Record { error: e1, fields: f1 }, CKind::Record { error: e2, fields: f2 }) => {
                self.eq("kind", &format!("{p} error flag"), e1, e2);
                self.fields(&p, f1, f2, false);
            }
            (CKind::Enum { .. }, CKind::Enum { .. }) | (CKind::Fixed(_), CKind::Fixed(_)) => self.eq("symbols", &p, &w.kind, &g.kind),
            _ => self.add("kind", format!("{p}: kind differs")),
        }
    }
    fn fields(&mut self, p: &str, w: &[CField], g: &[CField], msg: bool) {
        let n = |v: &[CField]| v.iter().map(|f| f.name.clone()).collect::<Vec<_>>();
        if n(w) != n(g) {
            self.add(if msg { "message" } else { "fields" }, format!("{p} fields: want {:?}, got {:?}", n(w), n(g)));
            return;
        }
        for (a, b) in w.iter().zip(g) {
            let p = format!("{p} field `{}`", a.name);
            self.ty_in(&p, &a.ty, &b.ty, msg);
            self.eq("doc", &format!("{p} doc"), &a.doc, &b.doc);
            self.eq("default", &format!("{p} default"), &a.default, &b.default);
            self.eq("order", &format!("{p} order"), &a.order, &b.order);
            self.eq("aliases", &format!("{p} aliases"), &a.aliases, &b.aliases);
            self.eq("props", &format!("{p} properties"), &a.attrs, &b.attrs);
        }
    }
    fn ty(&mut self, p: &str, w: &C, g: &C) {
        self.ty_in(p, w, g, false)
    }
    fn ty_in(&mut self, p: &str, w: &C, g: &C, msg: bool) {
        if w == g {
            return;
        }
        match (w, g) {
            (C::Array(a, x), C::Array(b, y)) | (C::Map(a, x), C::Map(b, y)) => {
                self.eq("props", &format!("{p} properties"), x, y);
                self.ty_in(&format!("{p} element"), a, b, msg);
            }
            (C::Prim(a, x), C::Prim(b, y)) if a == b => {
                let l = |m: &Attrs| [m.get("logicalType").cloned(), m.get("precision").cloned(), m.get("scale").cloned()];
                let c = if l(x) != l(y) { "logical" } else { "props" };
                self.eq(c, &format!("{p} attributes"), x, y);
            }
            (C::Union(a), C::Union(b)) if a.len() == b.len() => {
                if a.len() == 2 && a[0] == b[1] && a[1] == b[0] {
                    self.add("nullable-order", format!("{p}: want {w:?}, got {g:?}"));
                } else {
                    for (x, y) in a.iter().zip(b) {
                        self.ty_in(&format!("{p} branch"), x, y, msg);
                    }
                }
            }
            (C::Named(_), C::Named(_)) => self.add("reference", format!("{p}: want {w:?}, got {g:?}")),
            _ => self.add(if msg { "message" } else { "type" }, format!("{p}: want {w:?}, got {g:?}")),
        }
    }
}
