//! Prints abstract programs as IDL text (with randomly chosen spellings that
//! do not change the meaning) and as Avro JSON files.
use crate::model::*;
use crate::rng::Rng;
use serde_json::{Map, Value, json};

#[derive(Clone)]
pub struct Tok {
    pub text: String,
    pub doc: Option<Doc>,
    /// A doc comment directly before this token belongs to a declaration.
    pub slot: bool,
}
/// How wild the spelling may be.
#[derive(Clone, Copy)]
pub struct Style {
    pub comments: bool,
    pub backticks: bool,
    pub escapes: bool,
    pub numbers: bool,
    pub nsforms: bool,
    /// Insert this many doc comments that belong to nothing.
    pub orphans: usize,
    pub shuffle_annotations: bool,
}
pub const PLAIN: Style = Style { comments: false, backticks: false, escapes: false, numbers: false, nsforms: false, orphans: 0, shuffle_annotations: false };
pub const WILD: Style = Style { comments: true, backticks: true, escapes: true, numbers: true, nsforms: true, orphans: 0, shuffle_annotations: true };

pub struct P<'a> {
    pub toks: Vec<Tok>,
    pub rng: &'a mut Rng,
    pub st: Style,
    pending: Option<Doc>,
    pending_slot: bool,
}
pub const KEYWORDS: [&str; 33] = [
    "protocol", "namespace", "import", "idl", "schema", "enum", "fixed", "error", "record", "array", "map", "union", "boolean", "int", "long",
    "float", "double", "string", "bytes", "null", "true", "false", "decimal", "date", "time_ms", "timestamp_ms", "local_timestamp_ms", "uuid",
    "void", "oneway", "throws", "NaN", "Infinity",
];

impl<'a> P<'a> {
    pub fn new(rng: &'a mut Rng, st: Style) -> P<'a> {
        P { toks: vec![], rng, st, pending: None, pending_slot: false }
    }
    fn t(&mut self, s: impl Into<String>) {
        let doc = self.pending.take();
        let slot = std::mem::take(&mut self.pending_slot);
        self.toks.push(Tok { text: s.into(), doc, slot });
    }
    fn slot(&mut self, d: &Option<Doc>) {
        self.pending = d.clone();
        self.pending_slot = true;
    }
    fn ident(&mut self, s: &str) {
        let kw = KEYWORDS.contains(&s);
        if kw || (self.st.backticks && self.rng.pct(15) && !s.contains('-')) {
            self.t(format!("`{s}`"));
        } else {
            self.t(s);
        }
    }
    /// A possibly dotted name.
    fn name(&mut self, s: &str) {
        if !s.contains('.') {
            return self.ident(s);
        }
        let out: Vec<String> = s
            .split('.')
            .map(|seg| if KEYWORDS.contains(&seg) { format!("`{seg}`") } else { seg.to_string() })
            .collect();
        self.t(out.join("."));
    }
    pub fn string(&mut self, s: &str) {
        let t = string_lit(s, self.rng, self.st.escapes);
        self.t(t);
    }
    pub fn json(&mut self, v: &Value) {
        match v {
            Value::Null => self.t("null"),
            Value::Bool(b) => self.t(if *b { "true" } else { "false" }),
            Value::Number(n) => {
                let t = if let Some(i) = n.as_i64() {
                    int_lit(i, self.rng, self.st.numbers)
                } else {
                    float_lit(n.as_f64().unwrap(), self.rng, self.st.numbers)
                };
                self.t(t);
            }
            Value::String(s) => self.string(s),
            Value::Array(a) => {
                self.t("[");
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.json(x);
                }
                self.t("]");
            }
            Value::Object(o) => {
                self.t("{");
                let mut ks: Vec<&String> = o.keys().collect();
                self.rng.shuffle(&mut ks);
                for (i, k) in ks.into_iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.string(k);
                    self.t(":");
                    self.json(&o[k]);
                }
                self.t("}");
            }
        }
    }
    fn annots(&mut self, mut a: Vec<(String, Value)>) {
        if self.st.shuffle_annotations {
            // The relative order of equal names matters (last wins), so keep it.
            let mut names: Vec<String> = a.iter().map(|x| x.0.clone()).collect();
            names.dedup();
            if names.len() == a.len() {
                self.rng.shuffle(&mut a);
            }
        }
        for (k, v) in a {
            self.t("@");
            self.t(k);
            self.t("(");
            self.json(&v);
            self.t(")");
        }
    }
    fn reference(&mut self, full: &str, ctx: &str) {
        let ns = ns_of(full);
        if ns == ctx && (ns.is_empty() || self.rng.pct(70)) {
            self.ident(simple_of(full));
        } else {
            assert!(!ns.is_empty(), "null-namespace type referenced from `{ctx}`");
            self.name(full);
        }
    }
    pub fn ty(&mut self, t: &Ty, ctx: &str) {
        match t {
            Ty::Prim(p) => self.t(*p),
            Ty::Logical(k) => self.t(*k),
            Ty::Decimal(p, s) => {
                self.t("decimal");
                self.t("(");
                let a = uint_lit(*p, self.rng, self.st.numbers);
                self.t(a);
                if let Some(s) = s {
                    self.t(",");
                    let a = uint_lit(*s, self.rng, self.st.numbers);
                    self.t(a);
                }
                self.t(")");
            }
            Ty::Array(x) => {
                self.t("array");
                self.t("<");
                self.tya(x, ctx);
                self.t(">");
            }
            Ty::Map(x) => {
                self.t("map");
                self.t("<");
                self.tya(x, ctx);
                self.t(">");
            }
            Ty::Union(ts) => {
                self.t("union");
                self.t("{");
                for (i, x) in ts.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.tya(x, ctx);
                }
                self.t("}");
            }
            Ty::Ref(n) => self.reference(n, ctx),
            Ty::Nullable(x) => {
                self.ty(x, ctx);
                self.t("?");
            }
        }
    }
    pub fn tya(&mut self, t: &TyA, ctx: &str) {
        self.annots(t.props.clone());
        self.ty(&t.ty, ctx);
    }
    fn var(&mut self, f: &Field, doc: Option<Doc>) {
        self.slot(&doc);
        let mut a = f.props.clone();
        if let Some(o) = f.order {
            let o = match self.rng.below(3) {
                0 => o.to_uppercase(),
                1 => o.to_string(),
                _ => {
                    let mut c = o.chars();
                    c.next().unwrap().to_uppercase().collect::<String>() + c.as_str()
                }
            };
            a.push(("order".into(), o.into()));
        }
        if !f.aliases.is_empty() {
            a.push(("aliases".into(), json!(f.aliases)));
        }
        self.annots(a);
        self.ident(&f.name);
        if let Some(d) = &f.default {
            self.t("=");
            self.json(d);
        }
    }
    fn fields(&mut self, fs: &[Field], ctx: &str) {
        let mut i = 0;
        while i < fs.len() {
            let mut j = i + 1;
            while j < fs.len() && fs[j].joined {
                j += 1;
            }
            let group = &fs[i..j];
            // A doc before the type is the default for every variable.
            let all_doc = group.iter().all(|f| f.doc.is_some());
            let shared = if all_doc && self.rng.pct(70) {
                group[self.rng.below(group.len())].doc.clone()
            } else {
                None
            };
            self.slot(&shared);
            self.tya(&group[0].ty, ctx);
            for (k, f) in group.iter().enumerate() {
                if k > 0 {
                    self.t(",");
                }
                let own = if f.doc == shared && self.rng.pct(80) { None } else { f.doc.clone() };
                self.var(f, own);
            }
            self.t(";");
            i = j;
        }
    }
    /// Annotations and the identifier that give a declaration its full name.
    fn named_head(&mut self, d: &Decl, ctx: &str) -> (Vec<(String, Value)>, String) {
        let mut a = d.props.clone();
        let ns = ns_of(&d.full);
        let simple = simple_of(&d.full).to_string();
        let al: Vec<String> = d
            .aliases
            .iter()
            .map(|x| if ns_of(x) == ns && self.rng.pct(50) { simple_of(x).to_string() } else { x.clone() })
            .collect();
        if !al.is_empty() {
            a.push(("aliases".into(), json!(al)));
        }
        let id = if ns == ctx && (!self.st.nsforms || self.rng.pct(60)) {
            simple
        } else if ns.is_empty() || (self.rng.pct(50)) {
            a.push(("namespace".into(), ns.into()));
            simple
        } else {
            if self.st.nsforms && self.rng.pct(30) {
                // The dotted identifier wins over @namespace.
                a.push(("namespace".into(), "ignored.ns".into()));
            }
            d.full.clone()
        };
        (a, id)
    }
    pub fn decl(&mut self, d: &Decl, ctx: &str) {
        self.slot(&d.doc);
        let (a, id) = self.named_head(d, ctx);
        self.annots(a);
        let ns = ns_of(&d.full).to_string();
        match &d.kind {
            Kind::Record { error, fields } => {
                self.t(if *error { "error" } else { "record" });
                self.name(&id);
                self.t("{");
                self.fields(fields, &ns);
                self.t("}");
            }
            Kind::Enum { symbols, default } => {
                self.t("enum");
                self.name(&id);
                self.t("{");
                for (i, x) in symbols.iter().enumerate() {
                    if i > 0 {
                        self.t(",");
                    }
                    self.ident(x);
                }
                self.t("}");
                if let Some(x) = default {
                    self.t("=");
                    self.ident(x);
                    self.t(";");
                }
            }
            Kind::Fixed(n) => {
                self.t("fixed");
                self.name(&id);
                self.t("(");
                let a = uint_lit(*n, self.rng, self.st.numbers);
                self.t(a);
                self.t(")");
                self.t(";");
            }
        }
    }
    pub fn msg(&mut self, m: &Msg, ctx: &str) {
        self.slot(&m.doc);
        self.annots(m.props.clone());
        match &m.ret {
            None => self.t("void"),
            Some(t) => self.ty(t, ctx),
        }
        self.ident(&m.name);
        self.t("(");
        for (i, p) in m.params.iter().enumerate() {
            if i > 0 {
                self.t(",");
            }
            let before = self.rng.pct(50);
            self.slot(&if before { p.doc.clone() } else { None });
            self.tya(&p.ty, ctx);
            self.var(p, if before { None } else { p.doc.clone() });
        }
        self.t(")");
        if m.oneway {
            self.t("oneway");
        }
        if !m.errors.is_empty() {
            self.t("throws");
            for (i, e) in m.errors.iter().enumerate() {
                if i > 0 {
                    self.t(",");
                }
                self.reference(e, ctx);
            }
        }
        self.t(";");
    }
    pub fn idl(&mut self, f: &Idl, w: &World, me: &str) {
        let ctx = f.ns();
        match &f.head {
            Head::Protocol { full, doc, props } => {
                self.slot(doc);
                let mut a = props.clone();
                let ns = ns_of(full);
                let id = if ns.is_empty() {
                    if self.st.nsforms && self.rng.pct(20) {
                        a.push(("namespace".into(), "".into()));
                    }
                    simple_of(full).to_string()
                } else if self.rng.pct(60) {
                    a.push(("namespace".into(), ns.into()));
                    simple_of(full).to_string()
                } else {
                    if self.st.nsforms && self.rng.pct(30) {
                        a.push(("namespace".into(), "ignored.ns".into()));
                    }
                    full.clone()
                };
                self.annots(a);
                self.t("protocol");
                self.name(&id);
                self.t("{");
            }
            Head::Schema { ns, main } => {
                if !ns.is_empty() {
                    self.t("namespace");
                    self.name(ns);
                    self.t(";");
                }
                if let Some(m) = main {
                    self.t("schema");
                    self.tya(m, &ctx);
                    self.t(";");
                }
            }
        }
        for it in &f.items {
            match it {
                Item::Type(d) => self.decl(d, &ctx),
                Item::Msg(m) => self.msg(m, &ctx),
                Item::Import(j) => {
                    self.t("import");
                    self.t(match &w.files[*j].body {
                        FileBody::Idl(_) => "idl",
                        FileBody::Avsc(_) => "schema",
                        FileBody::Avpr { .. } => "protocol",
                    });
                    let p = relative(me, &w.files[*j].path);
                    self.string(&p);
                    self.t(";");
                }
            }
        }
        if matches!(f.head, Head::Protocol { .. }) {
            self.t("}");
        }
    }
    fn ws(&mut self, need: bool) -> String {
        let mut s = String::new();
        if self.st.comments && self.rng.pct(12) {
            s.push_str(match self.rng.below(5) {
                0 => " // line comment\n",
                1 => "/* block */",
                2 => " /*\n * block { \" ' */ ",
                3 => "/* */",
                _ => "\t// \u{e9}\u{1F600} @x(\n",
            });
        }
        let k = if need && s.is_empty() { self.rng.range(1, 4) } else { self.rng.below(5) };
        match k {
            0 => {}
            1 | 2 => s.push(' '),
            3 => s.push('\n'),
            _ => s.push_str("\n    "),
        }
        s
    }
    /// The text, and the number of doc comments in it that belong to nothing.
    pub fn text(&mut self) -> (String, usize) {
        let mut s = String::new();
        let mut orphans = 0;
        let toks = std::mem::take(&mut self.toks);
        let mut at: Vec<usize> = vec![];
        for _ in 0..self.st.orphans {
            at.push(self.rng.below(toks.len() + 1));
        }
        for (i, t) in toks.iter().enumerate() {
            let need = i > 0 && glue(&toks[i - 1].text, &t.text);
            s.push_str(&self.ws(need));
            // Only where it cannot be taken for a declaration's own comment.
            if at.contains(&i) && (!t.slot || t.doc.is_some()) && i > 0 {
                s.push_str(&format!(" /** orphan {i} */ "));
                s.push_str(&self.ws(false));
                orphans += 1;
            }
            if let Some(d) = &t.doc {
                let r = render_doc(d, self.rng);
                s.push_str(&r);
                s.push_str(&self.ws(false));
            }
            s.push_str(&t.text);
        }
        s.push('\n');
        if at.contains(&toks.len()) {
            s.push_str("/** orphan at end */\n");
            orphans += 1;
        }
        (s, orphans)
    }
}
fn glue(a: &str, b: &str) -> bool {
    let w = |c: char| c.is_alphanumeric() || "_`.-+\u{0}".contains(c);
    match (a.chars().last(), b.chars().next()) {
        (Some(x), Some(y)) => w(x) && w(y) || x == '-' || y == '-',
        _ => false,
    }
}
pub fn relative(me: &str, other: &str) -> String {
    // All files live in one directory or below `sub/`.
    let depth = me.matches('/').count();
    if depth == 0 {
        return other.to_string();
    }
    if let (Some((d1, _)), Some((d2, f2))) = (me.rsplit_once('/'), other.rsplit_once('/'))
        && d1 == d2
    {
        return f2.to_string();
    }
    format!("{}{}", "../".repeat(depth), other)
}
pub fn int_lit(i: i64, rng: &mut Rng, wild: bool) -> String {
    if !wild || i == i64::MIN {
        return i.to_string();
    }
    let mut s = match rng.below(6) {
        0 if i >= 0 => format!("0x{i:x}"),
        1 if i >= 0 => format!("0X{i:X}"),
        2 if i > 0 => format!("0{i:o}"),
        0 | 1 => format!("-0x{:x}", -i),
        _ => i.to_string(),
    };
    if rng.pct(20) {
        s.push(*rng.pick(&['l', 'L']));
    }
    s
}
pub fn uint_lit(i: u32, rng: &mut Rng, wild: bool) -> String {
    match rng.below(8) {
        0 if wild => format!("0x{i:x}"),
        1 if wild => format!("0X{i:X}"),
        2 if wild && i > 0 => format!("0{i:o}"),
        _ => i.to_string(),
    }
}
pub fn float_lit(f: f64, rng: &mut Rng, wild: bool) -> String {
    let mut s = match rng.below(5) {
        0 if wild => format!("{f:e}"),
        1 if wild => format!("{f:E}"),
        2 if wild && f.abs() > 1e-300 && f.abs() < 1e300 => hex_float(f, rng),
        _ => format!("{f:?}"),
    };
    if wild && rng.pct(20) && !s.contains("0x") {
        s.push(*rng.pick(&['f', 'F', 'd', 'D']));
    }
    s
}
/// An exact hexadecimal spelling of f.
fn hex_float(f: f64, rng: &mut Rng) -> String {
    let bits = f.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i64 - 1023;
    let m = bits & ((1 << 52) - 1);
    let sign = if f.is_sign_negative() { "-" } else { "" };
    if rng.pct(50) {
        let frac = format!("{m:013x}");
        let frac = frac.trim_end_matches('0');
        format!("{sign}0x1.{frac}p{e}")
    } else {
        format!("{sign}0x{:x}p{}", m | (1 << 52), e - 52)
    }
}
pub fn string_lit(s: &str, rng: &mut Rng, wild: bool) -> String {
    let q = '"';
    let mut o = String::from(q);
    let cs: Vec<char> = s.chars().collect();
    for (i, &c) in cs.iter().enumerate() {
        let uni = |o: &mut String, rng: &mut Rng| {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                let us = "u";
                let h = if rng.pct(50) { format!("{u:04x}") } else { format!("{u:04X}") };
                o.push_str(&format!("\\{us}{h}"));
            }
        };
        let short = match c {
            '\n' => Some('n'),
            '\r' => Some('r'),
            '\t' => Some('t'),
            '\u{8}' => Some('b'),
            '\u{c}' => Some('f'),
            '\\' => Some('\\'),
            '"' => Some('"'),
            '\'' => Some('\''),
            _ => None,
        };
        let must = matches!(c, '\n' | '\r' | '\\') || c == q || (c as u32) < 32;
        let next_oct = cs.get(i + 1).is_some_and(|d| d.is_digit(8));
        if wild && (c as u32) < 256 && !next_oct && rng.pct(6) {
            o.push_str(&match rng.below(2) {
                0 => format!("\\{:03o}", c as u32),
                _ => format!("\\{:o}", c as u32),
            });
        } else if wild && rng.pct(if must { 25 } else { 6 }) {
            uni(&mut o, rng);
        } else if must || (wild && short.is_some() && rng.pct(50)) {
            match short {
                Some(e) => {
                    o.push('\\');
                    o.push(e);
                }
                None => uni(&mut o, rng),
            }
        } else {
            o.push(c);
        }
    }
    o.push(q);
    o
}
/// A doc comment whose meaning is `d`.
pub fn render_doc(d: &Doc, rng: &mut Rng) -> String {
    let nl = if d.crlf { "\r\n" } else { "\n" };
    let l = &d.lines;
    let ind = *rng.pick(&["", " ", "   ", "\t", "\t  "]);
    match rng.below(4) {
        0 if l.len() == 1 => format!("/** {} */", l[0]),
        1 => {
            let mut s = format!("/**{nl}");
            for x in l {
                s.push_str(&if x.is_empty() { format!("{ind} *{nl}") } else { format!("{ind} * {x}{nl}") });
            }
            s + ind + " */"
        }
        2 => {
            let mut s = format!("/**{nl}");
            for x in l {
                s.push_str(&if x.is_empty() { format!("{ind}**{nl}") } else { format!("{ind}** {x}{nl}") });
            }
            s + ind + " */"
        }
        _ => {
            // Plain lines; those after the first share an indent.
            let ind = if ind.is_empty() { "  " } else { ind };
            let mut s = String::from("/**");
            if rng.pct(50) {
                s.push(' ');
            } else {
                s.push_str(nl);
                s.push_str(ind);
            }
            s.push_str(&l[0]);
            for x in &l[1..] {
                s.push_str(nl);
                if !x.is_empty() {
                    if !x.trim().is_empty() || x.starts_with(ind) {
                        s.push_str(ind);
                    }
                    s.push_str(x);
                }
            }
            s + " */"
        }
    }
}

// ---------------------------------------------------------------------------
// JSON files
// ---------------------------------------------------------------------------
pub struct J<'a> {
    pub rng: &'a mut Rng,
    /// Full names already written in this file.
    pub done: Vec<String>,
    pub wild: bool,
}
impl J<'_> {
    pub fn ty(&mut self, t: &JTy, ens: &str) -> Value {
        match t {
            JTy::Prim(p, a) if a.is_empty() => {
                if self.wild && self.rng.pct(10) {
                    json!({ "type": p })
                } else {
                    json!(p)
                }
            }
            JTy::Prim(p, a) => obj([("type", json!(p))], a),
            JTy::Array(x, a) => {
                let v = self.ty(x, ens);
                obj([("type", json!("array")), ("items", v)], a)
            }
            JTy::Map(x, a) => {
                let v = self.ty(x, ens);
                obj([("type", json!("map")), ("values", v)], a)
            }
            JTy::Union(ts) => Value::Array(ts.iter().map(|x| self.ty(x, ens)).collect()),
            JTy::Ref(n) => json!(self.reference(n, ens)),
            JTy::Def(d) => self.def(d, ens),
        }
    }
    fn reference(&mut self, n: &str, ens: &str) -> String {
        if ns_of(n) == ens && (ens.is_empty() || self.rng.pct(60)) { simple_of(n).to_string() } else { n.to_string() }
    }
    fn def(&mut self, d: &JDef, ens: &str) -> Value {
        let ns = ns_of(&d.full).to_string();
        let mut o = Map::new();
        let simple = simple_of(&d.full);
        if ns == ens && self.rng.pct(50) {
            o.insert("name".into(), json!(simple));
        } else if ns.is_empty() || self.rng.pct(50) {
            o.insert("name".into(), json!(simple));
            o.insert("namespace".into(), json!(ns));
        } else {
            o.insert("name".into(), json!(d.full));
        }
        if let Some(x) = &d.doc {
            o.insert("doc".into(), json!(x));
        }
        if !d.aliases.is_empty() {
            let al: Vec<String> = d.aliases.iter().map(|a| if ns_of(a) == ns && self.rng.pct(50) { simple_of(a).to_string() } else { a.clone() }).collect();
            o.insert("aliases".into(), json!(al));
        }
        for (k, v) in &d.attrs {
            o.insert(k.clone(), v.clone());
        }
        match &d.kind {
            JKind::Record { error, fields } => {
                o.insert("type".into(), json!(if *error { "error" } else { "record" }));
                let fs = fields.iter().map(|f| self.field(f, &ns)).collect();
                o.insert("fields".into(), Value::Array(fs));
            }
            JKind::Enum { symbols, default } => {
                o.insert("type".into(), json!("enum"));
                o.insert("symbols".into(), json!(symbols));
                if let Some(x) = default {
                    o.insert("default".into(), json!(x));
                }
            }
            JKind::Fixed(n) => {
                o.insert("type".into(), json!("fixed"));
                o.insert("size".into(), json!(n));
            }
        }
        Value::Object(o)
    }
    fn field(&mut self, f: &JField, ens: &str) -> Value {
        let mut o = Map::new();
        o.insert("name".into(), json!(f.name));
        o.insert("type".into(), self.ty(&f.ty, ens));
        if let Some(x) = &f.doc {
            o.insert("doc".into(), json!(x));
        }
        if let Some(x) = &f.default {
            o.insert("default".into(), x.clone());
        }
        if let Some(x) = f.order {
            o.insert("order".into(), json!(x));
        }
        if !f.aliases.is_empty() {
            o.insert("aliases".into(), json!(f.aliases));
        }
        for (k, v) in &f.attrs {
            o.insert(k.clone(), v.clone());
        }
        Value::Object(o)
    }
    pub fn file(&mut self, b: &FileBody) -> Value {
        match b {
            FileBody::Avsc(t) => self.ty(t, ""),
            FileBody::Avpr { full, types, msgs } => {
                let ns = ns_of(full).to_string();
                let mut o = Map::new();
                o.insert("protocol".into(), json!(simple_of(full)));
                if !ns.is_empty() {
                    o.insert("namespace".into(), json!(ns));
                }
                let ts = types.iter().map(|t| self.ty(t, &ns)).collect();
                o.insert("types".into(), Value::Array(ts));
                let mut ms = Map::new();
                for m in msgs {
                    let mut x = Map::new();
                    if let Some(d) = &m.doc {
                        x.insert("doc".into(), json!(d));
                    }
                    for (k, v) in &m.attrs {
                        x.insert(k.clone(), v.clone());
                    }
                    let ps = m.params.iter().map(|p| self.field(p, &ns)).collect();
                    x.insert("request".into(), Value::Array(ps));
                    x.insert("response".into(), self.ty(&m.ret, &ns));
                    if let Some(es) = &m.errors {
                        let es = es.iter().map(|e| self.ty(e, &ns)).collect();
                        x.insert("errors".into(), Value::Array(es));
                    }
                    if m.oneway {
                        x.insert("one-way".into(), json!(true));
                    }
                    ms.insert(m.name.clone(), Value::Object(x));
                }
                o.insert("messages".into(), Value::Object(ms));
                Value::Object(o)
            }
            FileBody::Idl(_) => unreachable!(),
        }
    }
}
fn obj<const N: usize>(base: [(&str, Value); N], a: &Attrs) -> Value {
    let mut o = Map::new();
    for (k, v) in base {
        o.insert(k.into(), v);
    }
    for (k, v) in a {
        o.insert(k.clone(), v.clone());
    }
    Value::Object(o)
}

/// All files of a world as text; returns also the orphan count of the IDL files.
pub fn render(w: &World, rng: &mut Rng, st: Style) -> (Vec<(String, String)>, usize) {
    let mut out = vec![];
    let mut orphans = 0;
    for f in &w.files {
        let text = match &f.body {
            FileBody::Idl(i) => {
                let mut p = P::new(rng, st);
                p.idl(i, w, &f.path);
                let (t, n) = p.text();
                orphans += n;
                t
            }
            b => {
                let v = J { rng, done: vec![], wild: true }.file(b);
                serde_json::to_string_pretty(&v).unwrap()
            }
        };
        out.push((f.path.clone(), text));
    }
    (out, orphans)
}
