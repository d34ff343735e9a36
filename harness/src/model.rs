//! The abstract programs the generators produce, and the canonical meaning
//! (independent of the code under test) that their JSON output must have.
use serde_json::Value;
use std::collections::{BTreeMap, HashSet};

pub type Props = Vec<(String, Value)>;
pub type Attrs = BTreeMap<String, Value>;

/// A doc comment by its meaning: the lines that must come out, and the line
/// separator used in the source.
#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub lines: Vec<String>,
    pub crlf: bool,
}
impl Doc {
    pub fn text(&self) -> String {
        self.lines.join(if self.crlf { "\r\n" } else { "\n" })
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Prim(&'static str),
    /// IDL keyword, e.g. `timestamp_ms`.
    Logical(&'static str),
    Decimal(u32, Option<u32>),
    Array(Box<TyA>),
    Map(Box<TyA>),
    Union(Vec<TyA>),
    /// Full name (no leading dot for the null namespace).
    Ref(String),
    /// `T?` with T a Prim, Logical, Decimal or Ref.
    Nullable(Box<Ty>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct TyA {
    pub props: Props,
    pub ty: Ty,
}
impl TyA {
    pub fn bare(ty: Ty) -> TyA {
        TyA { props: vec![], ty }
    }
}
#[derive(Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: TyA,
    pub doc: Option<Doc>,
    pub props: Props,
    pub aliases: Vec<String>,
    pub order: Option<&'static str>,
    pub default: Option<Value>,
    /// Printed in the same declaration as the previous field (same type).
    pub joined: bool,
}
#[derive(Clone, Debug)]
pub enum Kind {
    Record { error: bool, fields: Vec<Field> },
    Enum { symbols: Vec<String>, default: Option<String> },
    Fixed(u32),
}
#[derive(Clone, Debug)]
pub struct Decl {
    pub full: String,
    pub doc: Option<Doc>,
    pub props: Props,
    /// Full names.
    pub aliases: Vec<String>,
    pub kind: Kind,
}
#[derive(Clone, Debug)]
pub struct Msg {
    pub name: String,
    pub doc: Option<Doc>,
    pub props: Props,
    /// None is void.
    pub ret: Option<Ty>,
    pub params: Vec<Field>,
    /// Full names.
    pub errors: Vec<String>,
    pub oneway: bool,
}
#[derive(Clone, Debug)]
pub enum Item {
    Type(Decl),
    Msg(Msg),
    /// Index of the imported file in the world.
    Import(usize),
}
#[derive(Clone, Debug)]
pub enum Head {
    Protocol { full: String, doc: Option<Doc>, props: Props },
    /// `namespace ns;` and `schema T;`
    Schema { ns: String, main: Option<TyA> },
}
#[derive(Clone, Debug)]
pub struct Idl {
    pub head: Head,
    pub items: Vec<Item>,
}
impl Idl {
    pub fn ns(&self) -> String {
        match &self.head {
            Head::Protocol { full, .. } => ns_of(full).to_string(),
            Head::Schema { ns, .. } => ns.clone(),
        }
    }
}
#[derive(Clone, Debug)]
pub enum FileBody {
    Idl(Idl),
    /// A JSON schema file: the declared tree (nested definitions inside).
    Avsc(JTy),
    Avpr { full: String, types: Vec<JTy>, msgs: Vec<JMsg> },
}
/// JSON-imported schemas: like Ty, but definitions may be nested.
#[derive(Clone, Debug)]
pub enum JTy {
    Prim(&'static str, Attrs),
    Array(Box<JTy>, Attrs),
    Map(Box<JTy>, Attrs),
    Union(Vec<JTy>),
    Ref(String),
    Def(Box<JDef>),
}
#[derive(Clone, Debug)]
pub struct JField {
    pub name: String,
    pub ty: JTy,
    pub doc: Option<String>,
    pub default: Option<Value>,
    pub order: Option<&'static str>,
    pub aliases: Vec<String>,
    pub attrs: Attrs,
}
#[derive(Clone, Debug)]
pub enum JKind {
    Record { error: bool, fields: Vec<JField> },
    Enum { symbols: Vec<String>, default: Option<String> },
    Fixed(u32),
}
#[derive(Clone, Debug)]
pub struct JDef {
    pub full: String,
    pub doc: Option<String>,
    pub aliases: Vec<String>,
    pub attrs: Attrs,
    pub kind: JKind,
}
#[derive(Clone, Debug)]
pub struct JMsg {
    pub name: String,
    pub doc: Option<String>,
    pub attrs: Attrs,
    pub ret: JTy,
    pub params: Vec<JField>,
    pub errors: Option<Vec<JTy>>,
    pub oneway: bool,
}
#[derive(Clone, Debug)]
pub struct WFile {
    /// Path relative to the world's root directory.
    pub path: String,
    pub body: FileBody,
}
#[derive(Clone, Debug)]
pub struct World {
    /// files[0] is the main file.
    pub files: Vec<WFile>,
}

// ---------------------------------------------------------------------------
// Names
// ---------------------------------------------------------------------------
pub fn ns_of(full: &str) -> &str {
    match full.rfind('.') {
        Some(i) => &full[..i],
        None => "",
    }
}
pub fn simple_of(full: &str) -> &str {
    match full.rfind('.') {
        Some(i) => &full[i + 1..],
        None => full,
    }
}
pub fn join_name(ns: &str, name: &str) -> String {
    if ns.is_empty() { name.to_string() } else { format!("{ns}.{name}") }
}

// ---------------------------------------------------------------------------
// Canonical meaning
// ---------------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Prim(String, Attrs),
    Array(Box<C>, Attrs),
    Map(Box<C>, Attrs),
    Union(Vec<C>),
    Named(String),
}
#[derive(Clone, Debug, PartialEq)]
pub struct CField {
    pub name: String,
    pub ty: C,
    pub doc: Option<String>,
    pub default: Option<Value>,
    pub order: String,
    pub aliases: Vec<String>,
    pub attrs: Attrs,
}
#[derive(Clone, Debug, PartialEq)]
pub enum CKind {
    Record { error: bool, fields: Vec<CField> },
    Enum { symbols: Vec<String>, default: Option<String> },
    Fixed(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub struct CDef {
    pub full: String,
    pub doc: Option<String>,
    pub aliases: Vec<String>,
    pub attrs: Attrs,
    pub kind: CKind,
}
#[derive(Clone, Debug, PartialEq)]
pub struct CMsg {
    pub doc: Option<String>,
    pub attrs: Attrs,
    pub request: Vec<CField>,
    pub response: C,
    pub errors: Option<Vec<C>>,
    pub oneway: bool,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct COut {
    /// Protocol full name, doc, attributes; None for a bare schema.
    pub proto: Option<(String, Option<String>, Attrs)>,
    /// Definitions in the order in which they occur.
    pub defs: Vec<CDef>,
    /// Names of the entries of `types`.
    pub top: Vec<String>,
    pub messages: BTreeMap<String, CMsg>,
    pub main: Option<C>,
}

pub fn attrs(p: &Props) -> Attrs {
    p.iter().cloned().collect()
}
/// `scale` 0 is the same as no scale.
pub fn norm_attrs(mut a: Attrs) -> Attrs {
    if a.get("logicalType").and_then(|v| v.as_str()) == Some("decimal")
        && a.get("scale") == Some(&Value::from(0))
    {
        a.remove("scale");
    }
    a
}
fn logical(kw: &str) -> (&'static str, &'static str) {
    match kw {
        "date" => ("int", "date"),
        "time_ms" => ("int", "time-millis"),
        "timestamp_ms" => ("long", "timestamp-millis"),
        "local_timestamp_ms" => ("long", "local-timestamp-millis"),
        "uuid" => ("string", "uuid"),
        _ => unreachable!(),
    }
}
impl Ty {
    pub fn canon(&self, props: &Props, null_first: bool) -> C {
        match self {
            Ty::Prim(p) => C::Prim(p.to_string(), norm_attrs(attrs(props))),
            Ty::Logical(k) => {
                let (b, l) = logical(k);
                let mut a = attrs(props);
                a.insert("logicalType".into(), l.into());
                C::Prim(b.into(), norm_attrs(a))
            }
            Ty::Decimal(p, s) => {
                let mut a = attrs(props);
                a.insert("logicalType".into(), "decimal".into());
                a.insert("precision".into(), (*p).into());
                a.insert("scale".into(), s.unwrap_or(0).into());
                C::Prim("bytes".into(), norm_attrs(a))
            }
            Ty::Array(t) => C::Array(Box::new(t.canon(true)), attrs(props)),
            Ty::Map(t) => C::Map(Box::new(t.canon(true)), attrs(props)),
            // Annotations on a union are dropped (with a warning).
            Ty::Union(ts) => C::Union(ts.iter().map(|t| t.canon(true)).collect()),
            Ty::Ref(n) => C::Named(n.clone()),
            Ty::Nullable(t) => {
                let n = C::Prim("null".into(), Attrs::new());
                let b = t.canon(props, true);
                C::Union(if null_first { vec![n, b] } else { vec![b, n] })
            }
        }
    }
}
impl TyA {
    pub fn canon(&self, null_first: bool) -> C {
        self.ty.canon(&self.props, null_first)
    }
}
impl Field {
    pub fn canon(&self) -> CField {
        let null_first = match &self.default {
            None | Some(Value::Null) => true,
            Some(_) => false,
        };
        CField {
            name: self.name.clone(),
            ty: self.ty.canon(null_first),
            doc: self.doc.as_ref().map(|d| d.text()),
            default: self.default.clone(),
            order: self.order.unwrap_or("ascending").to_string(),
            aliases: self.aliases.clone(),
            attrs: attrs(&self.props),
        }
    }
}
impl Decl {
    pub fn canon(&self) -> CDef {
        CDef {
            full: self.full.clone(),
            doc: self.doc.as_ref().map(|d| d.text()),
            aliases: self.aliases.clone(),
            attrs: attrs(&self.props),
            kind: match &self.kind {
                Kind::Record { error, fields } => CKind::Record { error: *error, fields: fields.iter().map(|f| f.canon()).collect() },
                Kind::Enum { symbols, default } => CKind::Enum { symbols: symbols.clone(), default: default.clone() },
                Kind::Fixed(n) => CKind::Fixed(*n as u64),
            },
        }
    }
}
impl Msg {
    pub fn canon(&self) -> CMsg {
        CMsg {
            doc: self.doc.as_ref().map(|d| d.text()),
            attrs: attrs(&self.props),
            request: self.params.iter().map(|f| f.canon()).collect(),
            response: match &self.ret {
                None => C::Prim("null".into(), Attrs::new()),
                Some(t) => t.canon(&vec![], true),
            },
            errors: if self.errors.is_empty() { None } else { Some(self.errors.iter().map(|e| C::Named(e.clone())).collect()) },
            oneway: self.oneway,
        }
    }
}
impl JTy {
    pub fn canon(&self) -> C {
        match self {
            JTy::Prim(p, a) => C::Prim(p.to_string(), norm_attrs(a.clone())),
            JTy::Array(t, a) => C::Array(Box::new(t.canon()), a.clone()),
            JTy::Map(t, a) => C::Map(Box::new(t.canon()), a.clone()),
            JTy::Union(ts) => C::Union(ts.iter().map(|t| t.canon()).collect()),
            JTy::Ref(n) => C::Named(n.clone()),
            JTy::Def(d) => C::Named(d.full.clone()),
        }
    }
    /// Definitions nested in this tree, inner before outer.
    pub fn defs(&self, out: &mut Vec<CDef>) {
        match self {
            JTy::Array(t, _) | JTy::Map(t, _) => t.defs(out),
            JTy::Union(ts) => ts.iter().for_each(|t| t.defs(out)),
            JTy::Def(d) => {
                if let JKind::Record { fields, .. } = &d.kind {
                    fields.iter().for_each(|f| f.ty.defs(out));
                }
                out.push(d.canon());
            }
            _ => {}
        }
    }
}
impl JField {
    pub fn canon(&self) -> CField {
        CField {
            name: self.name.clone(),
            ty: self.ty.canon(),
            doc: self.doc.clone(),
            default: self.default.clone(),
            order: self.order.unwrap_or("ascending").to_string(),
            aliases: self.aliases.clone(),
            attrs: self.attrs.clone(),
        }
    }
}
impl JDef {
    pub fn canon(&self) -> CDef {
        CDef {
            full: self.full.clone(),
            doc: self.doc.clone(),
            aliases: self.aliases.clone(),
            attrs: self.attrs.clone(),
            kind: match &self.kind {
                JKind::Record { error, fields } => CKind::Record { error: *error, fields: fields.iter().map(|f| f.canon()).collect() },
                JKind::Enum { symbols, default } => CKind::Enum { symbols: symbols.clone(), default: default.clone() },
                JKind::Fixed(n) => CKind::Fixed(*n as u64),
            },
        }
    }
}
impl JMsg {
    pub fn canon(&self) -> CMsg {
        CMsg {
            doc: self.doc.clone(),
            attrs: self.attrs.clone(),
            request: self.params.iter().map(|f| f.canon()).collect(),
            response: self.ret.canon(),
            errors: self.errors.as_ref().map(|e| e.iter().map(|t| t.canon()).collect()),
            oneway: self.oneway,
        }
    }
}

/// All definitions of the world, in the order in which a reader of the main
/// file meets them (an import counts where it first stands; each file once),
/// and the messages that belong to the main protocol.
pub fn collect(w: &World) -> (Vec<CDef>, BTreeMap<String, CMsg>) {
    fn idl(w: &World, i: usize, seen: &mut HashSet<usize>, defs: &mut Vec<CDef>, imported: &mut BTreeMap<String, CMsg>, own: &mut BTreeMap<String, CMsg>) {
        let FileBody::Idl(f) = &w.files[i].body else { unreachable!() };
        let mut mine = BTreeMap::new();
        for it in &f.items {
            if let Item::Msg(m) = it {
                mine.insert(m.name.clone(), m.canon());
            }
        }
        if i == 0 {
            *own = mine;
        } else {
            imported.extend(mine);
        }
        for it in &f.items {
            match it {
                Item::Type(d) => defs.push(d.canon()),
                Item::Msg(_) => {}
                Item::Import(j) => {
                    if !seen.insert(*j) {
                        continue;
                    }
                    match &w.files[*j].body {
                        FileBody::Idl(_) => idl(w, *j, seen, defs, imported, own),
                        FileBody::Avsc(t) => add(t, defs),
                        FileBody::Avpr { types, msgs, .. } => {
                            types.iter().for_each(|t| add(t, defs));
                            for m in msgs {
                                m.params.iter().for_each(|p| add(&p.ty, defs));
                                add(&m.ret, defs);
                                m.errors.iter().flatten().for_each(|e| add(e, defs));
                            }
                            for m in msgs {
                                imported.insert(m.name.clone(), m.canon());
                            }
                        }
                    }
                }
            }
        }
    }
    fn add(t: &JTy, defs: &mut Vec<CDef>) {
        let mut v = vec![];
        t.defs(&mut v);
        for d in v {
            if !defs.iter().any(|x| x.full == d.full) {
                defs.push(d);
            }
        }
    }
    let mut seen = HashSet::from([0]);
    let (mut defs, mut imported, mut own) = (vec![], BTreeMap::new(), BTreeMap::new());
    idl(w, 0, &mut seen, &mut defs, &mut imported, &mut own);
    imported.extend(own);
    (defs, imported)
}

/// Definition order in a document that lists `roots`: every type where it is
/// first needed.
pub fn inline_order(defs: &[CDef], roots: &[C]) -> (Vec<CDef>, Vec<String>) {
    fn visit(c: &C, defs: &[CDef], out: &mut Vec<CDef>) {
        match c {
            C::Prim(..) => {}
            C::Array(t, _) | C::Map(t, _) => visit(t, defs, out),
            C::Union(ts) => ts.iter().for_each(|t| visit(t, defs, out)),
            C::Named(n) => {
                if out.iter().any(|d| &d.full == n) {
                    return;
                }
                let Some(d) = defs.iter().find(|d| &d.full == n) else { return };
                out.push(d.clone());
                if let CKind::Record { fields, .. } = &d.kind {
                    fields.iter().for_each(|f| visit(&f.ty, defs, out));
                }
            }
        }
    }
    let (mut out, mut top) = (vec![], vec![]);
    for r in roots {
        if let C::Named(n) = r
            && !out.iter().any(|d: &CDef| &d.full == n)
        {
            top.push(n.clone());
        }
        visit(r, defs, &mut out);
    }
    (out, top)
}

/// What `idl` must produce for a world whose main file is a protocol or has a
/// main schema.
pub fn expected(w: &World) -> COut {
    let FileBody::Idl(f) = &w.files[0].body else { unreachable!() };
    let (all, messages) = collect(w);
    match &f.head {
        Head::Protocol { full, doc, props } => {
            let roots: Vec<C> = all.iter().map(|d| C::Named(d.full.clone())).collect();
            let (defs, top) = inline_order(&all, &roots);
            COut { proto: Some((full.clone(), doc.as_ref().map(|d| d.text()), attrs(props))), defs, top, messages, main: None }
        }
        Head::Schema { main, .. } => {
            let c = main.as_ref().unwrap().canon(true);
            let (defs, _) = inline_order(&all, std::slice::from_ref(&c));
            COut { proto: None, defs, top: vec![], messages: BTreeMap::new(), main: Some(c) }
        }
    }
}
