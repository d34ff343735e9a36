//@module walk src/reader.rs
use crate::schema::*;
use crate::json::*;
use crate::protocol::*;
use crate::resolve::*;
use crate::error::*;
use crate::reader::*;
use crate::idlparser::*;
use crate::lex::*;
use crate::tree::*;
use crate::docs::*;
use std::rc::Rc;
broadcast use {group_string, group_coll, group_json, axiom_vec_ext, axiom_mk_vec, group_lex, group_tree};
pub type Result<T, E = Report> = std::result::Result<T, E>;

// What the walk records on the side: the doc comments used (by token index)
// and the warnings.
//@type SourceInfo drop=consumed_doc_indices,warnings
pub struct VWalk { pub consumed_doc_indices: HashSet<isize>, pub warnings: Vec<Warning> }

//@fn SourceInfo::span
//@spec
    ensures r == (SpanWithSource { offset, length, name: self.name, content: self.source }),
//@end

// Offset and length of the text between two inclusive byte positions.
pub open spec fn off_len(start: int, stop: int) -> (int, int) {
    if start >= 0 && stop >= start { (start, stop - start + 1) } else if start >= 0 { (start, 1) } else { (0, 0) }
}
//@fn span_from_offsets
//@spec
    requires -1 <= start < isize::MAX, -1 <= stop < isize::MAX,
    ensures (r.0 as int, r.1 as int) == off_len(start as int, stop as int),
//@end

//@fn make_diagnostic
//@end
//@fn make_diagnostic_from_token
//@spec
    requires small(token.tk()),
//@end

pub open spec fn mk_span(src: SourceInfo, offset: int, length: int) -> SpanWithSource {
    SpanWithSource { offset: offset as usize, length: length as usize, name: src.name, content: src.source }
}
// The first token of a node, if it has a place in the text.
pub open spec fn place(t: Tok) -> Option<(int, int)> {
    let (o, l) = off_len(t.tk().start, t.tk().stop);
    if l > 0 { Some((o, l)) } else { None }
}
pub open spec fn place_in(t: Tok, src: SourceInfo) -> Option<SpanWithSource> {
    match place(t) { Some((o, l)) => Some(mk_span(src, o, l)), None => None }
}
//@fn span_from_context
//@spec
    ensures r == (match place(ctx.s_start()) { Some((o, l)) => Some((o as usize, l as usize)), None => None }),
//@end

// ---------------------------------------------------------------------------
// Names and JSON values
// ---------------------------------------------------------------------------
pub open spec fn id_text(c: IdentifierContextAll) -> Seq<char> { without(c.s_get_text(), '`') }
//@fn identifier_text
//@spec
    ensures r@ == id_text(*ctx),
//@start
    proof { reveal_strlit(""); }
//@end

pub open spec fn j_lit(c: JsonLiteralContextAll) -> Option<Value> {
    match c.literal {
        None => None,
        Some(t) => {
            let tt = t.tk().tt;
            if tt == Idl_Null { Some(Value::Null) }
            else if tt == Idl_BTrue { Some(Value::Bool(true)) }
            else if tt == Idl_BFalse { Some(Value::Bool(false)) }
            else if tt == Idl_StringLiteral { Some(Value::String(mk_string(str_lit(t.tk().text)))) }
            else if tt == Idl_IntegerLiteral { int_lit(t.tk().text) }
            else if tt == Idl_FloatingPointLiteral { float_lit(t.tk().text) }
            else { None }
        }
    }
}
// The value a JSON node denotes (None: not a value that can be represented).
pub open spec fn j_val(c: JsonValueContextAll) -> Option<Value>
    decreases c.rank(), 0nat
{
    match c.s_jsonObject() {
        Some(o) => match j_obj(*o, o.s_jsonPair_all()@.len()) { Some(m) => Some(Value::Object(mk_jmap(m))), None => None },
        None => match c.s_jsonArray() {
            Some(a) => match j_arr(*a, a.s_jsonValue_all()@.len()) { Some(s) => Some(Value::Array(mk_vec(s))), None => None },
            None => match c.s_jsonLiteral() { Some(l) => j_lit(*l), None => None },
        },
    }
}
// Its first k pairs: a later pair of the same name replaces an earlier one.
pub open spec fn j_obj(o: JsonObjectContextAll, k: nat) -> Option<Map<Seq<char>, Value>>
    decreases o.rank(), k
{
    if k == 0 { Some(Map::empty()) }
    else if k > o.s_jsonPair_all()@.len() { None }
    else {
        let p = o.s_jsonPair_all()@[k - 1];
        match (j_obj(o, (k - 1) as nat), p.name, p.s_jsonValue()) {
            (Some(m), Some(t), Some(v)) => match j_val(*v) { Some(x) => Some(m.insert(str_lit(t.tk().text), x)), None => None },
            _ => None,
        }
    }
}
pub open spec fn j_arr(a: JsonArrayContextAll, k: nat) -> Option<Seq<Value>>
    decreases a.rank(), k
{
    if k == 0 { Some(seq![]) }
    else if k > a.s_jsonValue_all()@.len() { None }
    else {
        match (j_arr(a, (k - 1) as nat), j_val(*a.s_jsonValue_all()@[k - 1])) {
            (Some(s), Some(x)) => Some(s.push(x)),
            _ => None,
        }
    }
}
// A prefix that fails makes the whole fail.
proof fn lemma_j_obj(o: JsonObjectContextAll, k: nat, n: nat)
    requires k <= n, j_obj(o, k) is None,
    ensures j_obj(o, n) is None,
    decreases n
{ if k < n { lemma_j_obj(o, k, (n - 1) as nat); } }
proof fn lemma_j_arr(a: JsonArrayContextAll, k: nat, n: nat)
    requires k <= n, j_arr(a, k) is None,
    ensures j_arr(a, n) is None,
    decreases n
{ if k < n { lemma_j_arr(a, k, (n - 1) as nat); } }

//@fn walk_json_value
//@spec
    ensures
        r is Ok ==> j_val(*ctx) == Some(r->Ok_0),
        r is Err ==> j_val(*ctx) is None,
    decreases ctx.rank(), 0nat,
//@end

//@fn walk_json_literal
//@opt rename as_ref
//@spec
    ensures
        r is Ok ==> j_lit(*ctx) == Some(r->Ok_0),
        r is Err ==> j_lit(*ctx) is None,
//@end

//@fn walk_json_object
//@spec
    ensures
        r is Ok ==> j_obj(*ctx, ctx.s_jsonPair_all()@.len()) is Some && r->Ok_0 == Value::Object(mk_jmap(j_obj(*ctx, ctx.s_jsonPair_all()@.len())->0)),
        r is Err ==> j_obj(*ctx, ctx.s_jsonPair_all()@.len()) is None,
    decreases ctx.rank(), 0nat,
//@loop 0
    invariant
        it0.seq() == ctx.s_jsonPair_all()@,
        j_obj(*ctx, it0.index() as nat) == Some(map@),
//@loop-start 0
    proof {
        let ghost i = it0.index() as nat;
        if j_obj(*ctx, i + 1) is None { lemma_j_obj(*ctx, i + 1, ctx.s_jsonPair_all()@.len()); }
    }
//@end

//@fn walk_json_array
//@spec
    ensures
        r is Ok ==> j_arr(*ctx, ctx.s_jsonValue_all()@.len()) is Some && r->Ok_0 == Value::Array(mk_vec(j_arr(*ctx, ctx.s_jsonValue_all()@.len())->0)),
        r is Err ==> j_arr(*ctx, ctx.s_jsonValue_all()@.len()) is None,
    decreases ctx.rank(), 0nat,
//@loop 0
    invariant
        it0.seq() == ctx.s_jsonValue_all()@,
        j_arr(*ctx, it0.index() as nat) == Some(elements@),
//@loop-start 0
    proof {
        let ghost i = it0.index() as nat;
        if j_arr(*ctx, i + 1) is None { lemma_j_arr(*ctx, i + 1, ctx.s_jsonValue_all()@.len()); }
    }
//@end

// ---------------------------------------------------------------------------
// Results of a walk: the value, the warnings it adds and the comments it uses.
// ---------------------------------------------------------------------------
pub ghost struct Out<T> { pub v: T, pub w: Seq<Warning>, pub d: Set<isize> }
pub open spec fn grown(w0: VWalk, w1: VWalk, w: Seq<Warning>, d: Set<isize>) -> bool {
    w1.warnings@ =~= w0.warnings@ + w && w1.consumed_doc_indices@ =~= w0.consumed_doc_indices@.union(d)
}
pub open spec fn done<T>(r: Result<T>, w0: VWalk, w1: VWalk, o: Option<Out<T>>) -> bool {
    match r {
        Ok(v) => o is Some && v == o->0.v && grown(w0, w1, o->0.w, o->0.d),
        Err(_) => o is None,
    }
}
pub open spec fn mk_ostr(o: Option<Seq<char>>) -> Option<String> { match o { Some(s) => Some(mk_string(s)), None => None } }

// ---------------------------------------------------------------------------
// Warnings
// ---------------------------------------------------------------------------
// The text of a whole node.
pub open spec fn extent(start: Tok, stop: Tok) -> (int, int) {
    off_len(start.tk().start, if stop.tk().stop >= start.tk().start { stop.tk().stop } else { start.tk().stop })
}
pub open spec fn mk_warning(m: Seq<char>, src: SourceInfo, at: (int, int)) -> Warning {
    Warning { message: mk_string(m), span: Some(mk_span(src, at.0, at.1)) }
}
pub open spec fn alias_msg(alias: Seq<char>) -> Seq<char> {
    "Alias \""@ + alias + "\" is not a valid Avro name. While any string is accepted to allow schema evolution to correct illegal names in old schemata, aliases should ideally be valid names."@
}
pub open spec fn alias_warning(alias: Seq<char>, src: SourceInfo, start: Tok, stop: Tok) -> Warning {
    mk_warning(alias_msg(alias), src, extent(start, stop))
}
//@fn Warning::non_standard_alias_name
//@spec
    ensures r.message@ =~= alias_msg(alias@), r.span == Some(mk_span(*src, extent(ctx.s_start(), ctx.s_stop()).0, extent(ctx.s_start(), ctx.s_stop()).1)),
//@end

pub open spec fn union_msg(keys: Seq<Seq<char>>) -> Seq<char> {
    "Annotations on union types are not supported and will be ignored: "@ + joined(keys, ", "@)
}
//@fn Warning::annotations_dropped_on_union
//@spec
    ensures r.message@ =~= union_msg(str_views(annotation_keys@)), r.span == Some(mk_span(*src, extent(ctx.s_start(), ctx.s_stop()).0, extent(ctx.s_start(), ctx.s_stop()).1)),
//@end

pub open spec fn orphan_msg(line: int, column: int) -> Seq<char> {
    "Line "@ + int_dec(line) + ", char "@ + int_dec(column) + ": Ignoring out-of-place documentation comment.\nDid you mean to use a multiline comment ( /* ... */ ) instead?"@
}
pub open spec fn orphan_warning(t: TokV, src: SourceInfo) -> Warning {
    mk_warning(orphan_msg(t.line, t.column + 1), src, off_len(t.start, t.stop))
}
//@fn Warning::out_of_place_doc_comment
//@spec
    requires -1 <= token_start < isize::MAX, -1 <= token_stop < isize::MAX, 0 <= column < isize::MAX,
    ensures r.message@ =~= orphan_msg(line as int, column + 1), r.span == Some(mk_span(*src, off_len(token_start as int, token_stop as int).0, off_len(token_start as int, token_stop as int).1)),
//@end

// ---------------------------------------------------------------------------
// Annotations
// ---------------------------------------------------------------------------
//@type SchemaProperties
//@fn SchemaProperties::new
//@spec
    ensures r == no_props(),
//@end
pub open spec fn no_props() -> SchemaProperties {
    SchemaProperties { namespace: None, aliases: mk_vec(seq![]), order: None, properties: mk_hashmap(Map::empty()) }
}
//@type PropertyContext
//@const SCHEMA_RESERVED
//@const ENUM_RESERVED
//@const FIELD_RESERVED
//@const PROTOCOL_RESERVED
//@const MESSAGE_RESERVED
//@const PROTOCOL_PROPS
//@const NAMED_TYPE_PROPS
//@const ENUM_PROPS
//@const VARIABLE_PROPS
//@const BARE_PROPS
//@const MESSAGE_PROPS

// Where an annotation stands: which of them say something about the element
// itself, and which names are taken by its structure.
pub enum Site { Protocol, Named, Enum, Variable, Type, Message }
pub open spec fn takes_ns(k: Site) -> bool { k is Protocol || k is Named || k is Enum }
pub open spec fn takes_aliases(k: Site) -> bool { k is Named || k is Enum || k is Variable }
pub open spec fn takes_order(k: Site) -> bool { k is Variable }
pub open spec fn structural(k: Site, s: Seq<char>) -> bool {
    match k {
        Site::Protocol => s == "namespace"@ || s == "protocol"@ || s == "doc"@ || s == "messages"@ || s == "types"@ || s == "errors"@,
        Site::Variable => s == "default"@ || s == "doc"@ || s == "name"@ || s == "order"@ || s == "type"@ || s == "aliases"@,
        Site::Message => s == "doc"@ || s == "response"@ || s == "request"@ || s == "errors"@ || s == "one-way"@,
        _ => s == "doc"@ || s == "fields"@ || s == "items"@ || s == "name"@ || s == "namespace"@ || s == "size"@
            || s == "symbols"@ || s == "values"@ || s == "type"@ || s == "aliases"@ || (k is Enum && s == "default"@),
    }
}
pub open spec fn site_of(p: PropertyContext, k: Site) -> bool {
    &&& p.with_namespace == takes_ns(k) && p.with_aliases == takes_aliases(k) && p.with_order == takes_order(k)
    &&& forall|s: Seq<char>| has_str(p.reserved@, s) <==> structural(k, s)
}
pub open spec fn std_alias(s: Seq<char>) -> bool {
    forall|i: int| 0 <= i < split_spec(s, '.').len() ==> valid_name(#[trigger] split_spec(s, '.')[i])
}
// Warnings about the first k of these aliases.
pub open spec fn alias_warnings(a: Seq<Value>, k: nat, src: SourceInfo, p: SchemaPropertyContextAll) -> Seq<Warning>
    decreases k
{
    if k == 0 || k > a.len() { seq![] }
    else {
        let w = alias_warnings(a, (k - 1) as nat, src, p);
        if std_alias(a[k - 1]->String_0@) { w } else { w.push(alias_warning(a[k - 1]->String_0@, src, p.s_start(), p.s_stop())) }
    }
}
pub open spec fn all_strings(a: Seq<Value>) -> bool { forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]) is String }
pub open spec fn strings_of(a: Seq<Value>) -> Seq<String> { Seq::new(a.len(), |i: int| a[i]->String_0) }
pub open spec fn order_of(s: Seq<char>) -> Option<FieldOrder> {
    let u = upper(s);
    if u == "ASCENDING"@ { Some(FieldOrder::Ascending) } else if u == "DESCENDING"@ { Some(FieldOrder::Descending) }
    else if u == "IGNORE"@ { Some(FieldOrder::Ignore) } else { None }
}
// One more annotation. Of several with the same name the last one counts.
pub open spec fn put_prop(a: Out<SchemaProperties>, p: SchemaPropertyContextAll, name: Seq<char>, v: Value, src: SourceInfo, k: Site) -> Option<Out<SchemaProperties>> {
    if takes_ns(k) && name == "namespace"@ {
        match v { Value::String(s) => Some(Out { v: SchemaProperties { namespace: Some(s), ..a.v }, ..a }), _ => None }
    } else if takes_aliases(k) && name == "aliases"@ {
        match v {
            Value::Array(x) => if all_strings(x@) {
                Some(Out { v: SchemaProperties { aliases: mk_vec(strings_of(x@)), ..a.v }, w: a.w + alias_warnings(x@, x@.len(), src, p), ..a })
            } else { None },
            _ => None,
        }
    } else if takes_order(k) && name == "order"@ {
        match v {
            Value::String(s) => match order_of(s@) { Some(o) => Some(Out { v: SchemaProperties { order: Some(o), ..a.v }, ..a }), None => None },
            _ => None,
        }
    } else if structural(k, name) { None }
    else { Some(Out { v: SchemaProperties { properties: mk_hashmap(a.v.properties@.insert(name, v)), ..a.v }, ..a }) }
}
pub open spec fn props(ps: Seq<Rc<SchemaPropertyContextAll>>, n: nat, src: SourceInfo, k: Site) -> Option<Out<SchemaProperties>>
    decreases n
{
    if n == 0 { Some(Out { v: no_props(), w: seq![], d: Set::empty() }) }
    else if n > ps.len() { None }
    else {
        let p = *ps[n - 1];
        match (props(ps, (n - 1) as nat, src, k), p.s_identifier(), p.s_jsonValue()) {
            (Some(a), Some(id), Some(jv)) => match j_val(*jv) { Some(v) => put_prop(a, p, id_text(*id), v, src, k), None => None },
            _ => None,
        }
    }
}
proof fn lemma_props(ps: Seq<Rc<SchemaPropertyContextAll>>, m: nat, n: nat, src: SourceInfo, k: Site)
    requires m <= n, props(ps, m, src, k) is None,
    ensures props(ps, n, src, k) is None,
    decreases n
{ if m < n { lemma_props(ps, m, (n - 1) as nat, src, k); } }
pub open spec fn all_props(ps: Seq<Rc<SchemaPropertyContextAll>>, src: SourceInfo, k: Site) -> Option<Out<SchemaProperties>> { props(ps, ps.len(), src, k) }

//@fn walk_schema_properties
//@opt attr verifier::spinoff_prover
//@opt log
//@opt iter props
//@opt iter arr
//@opt strmatch
//@opt streq
//@opt rename to_uppercase
//@opt rename contains
//@spec
    ensures
        forall|k: Site| #![trigger site_of(pctx, k)] #![trigger all_props(props@, *src, k)]
            site_of(pctx, k) ==> done(r, *old(__w), *final(__w), all_props(props@, *src, k)),
//@loop 0
    invariant
        it0.seq().len() == props@.len(),
        forall|i: int| 0 <= i < props@.len() ==> *(#[trigger] it0.seq()[i]) == props@[i],
        forall|k: Site| #[trigger] site_of(pctx, k) ==> {
            let o = crate::walk::props(props@, it0.index() as nat, *src, k);
            o is Some && result == o->0.v && grown(*old(__w), *__w, o->0.w, o->0.d)
        },
//@loop-start 0
    let ghost w0 = *__w;
    let ghost r0 = result;
    let ghost i = it0.index() as nat;
    proof {
        assert forall|k: Site| #[trigger] site_of(pctx, k) && crate::walk::props(props@, i + 1, *src, k) is None implies all_props(props@, *src, k) is None by {
            lemma_props(props@, i + 1, props@.len(), *src, k);
        }
    }
//@loop-after 1
    proof {
        assert(strings_of(arr@).take(arr@.len() as int) =~= strings_of(arr@));
        assert(aliases == mk_vec(strings_of(arr@)));
    }
//@loop 1
    invariant
        it1.seq().len() == arr@.len(),
        forall|j: int| 0 <= j < arr@.len() ==> *(#[trigger] it1.seq()[j]) == arr@[j],
        forall|j: int| 0 <= j < it1.index() ==> (#[trigger] arr@[j]) is String,
        aliases@ =~= strings_of(arr@).take(it1.index() as int),
        __w.consumed_doc_indices == w0.consumed_doc_indices,
        __w.warnings@ =~= w0.warnings@ + alias_warnings(arr@, it1.index() as nat, *src, **prop),
//@loop 2
    invariant_except_break
        is_standard,
        forall|j: int| 0 <= j < it2.index() ==> valid_name(#[trigger] split_spec(s@, '.')[j]),
    invariant
        it2.seq().len() == split_spec(s@, '.').len(),
        forall|j: int| 0 <= j < it2.seq().len() ==> (#[trigger] it2.seq()[j])@ == split_spec(s@, '.')[j],
    ensures
        is_standard == std_alias(s@),
//@loop-end 0
    proof {
        assert forall|k: Site| #[trigger] site_of(pctx, k) implies {
            let o = crate::walk::props(props@, i + 1, *src, k);
            o is Some && result == o->0.v && grown(*old(__w), *__w, o->0.w, o->0.d)
        } by {
            let a = crate::walk::props(props@, i, *src, k)->0;
            assert(crate::walk::props(props@, i + 1, *src, k) == put_prop(a, **prop, name0, value0, *src, k));
            assert(result.properties == mk_hashmap(result.properties@));
        }
    }
//@after let value =
    let ghost name0 = name@;
    let ghost value0 = value;
//@end

// ---------------------------------------------------------------------------
// Types
// ---------------------------------------------------------------------------
pub open spec fn no_map<V>() -> HashMap<String, V> { mk_hashmap(Map::empty()) }
pub open spec fn logical(lt: LogicalType) -> AvroSchema { AvroSchema::Logical { logical_type: lt, properties: no_map() } }
pub open spec fn prim_type(c: PrimitiveTypeContextAll) -> Option<AvroSchema> {
    match c.typeName {
        None => None,
        Some(t) => {
            let tt = t.tk().tt;
            if tt == Idl_Boolean { Some(AvroSchema::Boolean) }
            else if tt == Idl_Int { Some(AvroSchema::Int) }
            else if tt == Idl_Long { Some(AvroSchema::Long) }
            else if tt == Idl_Float { Some(AvroSchema::Float) }
            else if tt == Idl_Double { Some(AvroSchema::Double) }
            else if tt == Idl_Bytes { Some(AvroSchema::Bytes) }
            else if tt == Idl_String { Some(AvroSchema::String) }
            else if tt == Idl_Null { Some(AvroSchema::Null) }
            else if tt == Idl_Date { Some(logical(LogicalType::Date)) }
            else if tt == Idl_Time { Some(logical(LogicalType::TimeMillis)) }
            else if tt == Idl_Timestamp { Some(logical(LogicalType::TimestampMillis)) }
            else if tt == Idl_LocalTimestamp { Some(logical(LogicalType::LocalTimestampMillis)) }
            else if tt == Idl_UUID { Some(logical(LogicalType::Uuid)) }
            else if tt == Idl_Decimal {
                let scale = match c.scale { None => Some(0u32), Some(s) => u32_lit(s.tk().text) };
                match (c.precision, scale) {
                    (Some(p), Some(s)) => match u32_lit(p.tk().text) {
                        Some(p) => if p > 0 && s <= p { Some(logical(LogicalType::Decimal { precision: p, scale: s })) } else { None },
                        None => None,
                    },
                    _ => None,
                }
            }
            else { None }
        }
    }
}
//@fn walk_primitive_type
//@opt rename as_ref
//@spec
    ensures
        r is Ok ==> prim_type(*ctx) == Some(r->Ok_0),
        r is Err ==> prim_type(*ctx) is None,
//@end

proof fn lemma_no_overwrites(s: AvroSchema, m: Map<Seq<char>, Value>)
    requires m == Map::<Seq<char>, Value>::empty(),
    ensures !overwrites(s, m),
    decreases s,
{
    if let AvroSchema::Union { types, .. } = s {
        assert forall|i: int| 0 <= i < types@.len() implies !overwrites(#[trigger] types@[i], m) by { lemma_no_overwrites(types@[i], m); }
    }
}
proof fn lemma_keys(ks: Seq<Seq<char>>, m: Map<Seq<char>, Value>)
    requires
        forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i]),
        forall|k: Seq<char>| m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]) == k,
    ensures ks.to_set() =~= m.dom(),
{
    assert forall|k: Seq<char>| m.dom().contains(k) implies ks.to_set().contains(k) by {
        let i = choose|i: int| 0 <= i < ks.len() && (#[trigger] ks[i]) == k;
        assert(ks.contains(k));
    }
}
// A name as it is written, standing in namespace ns.
pub open spec fn ref_to(t: Seq<char>, ns: Option<Seq<char>>, span: Option<SpanWithSource>) -> AvroSchema {
    AvroSchema::Reference {
        name: mk_string(name_part(t)),
        namespace: if ns_part(t) is Some { mk_ostr(ns_part(t)) } else { mk_ostr(ns) },
        properties: no_map(),
        span,
    }
}
pub open spec fn base_name(c: NullableTypeContextAll) -> Seq<char> { id_text(*c.s_identifier()->0) }
pub open spec fn base_place(c: NullableTypeContextAll, src: SourceInfo) -> Option<SpanWithSource> { place_in(c.s_identifier()->0.s_start(), src) }
pub open spec fn base_type(c: NullableTypeContextAll, ns: Option<Seq<char>>, src: SourceInfo) -> Option<AvroSchema> {
    match (c.s_primitiveType(), c.s_identifier()) {
        (Some(p), _) => prim_type(*p),
        (None, Some(i)) => Some(ref_to(id_text(*i), ns, place_in(i.s_start(), src))),
        _ => None,
    }
}
pub open spec fn nullable_type(c: NullableTypeContextAll, ns: Option<Seq<char>>, src: SourceInfo) -> Option<AvroSchema> {
    match base_type(c, ns, src) {
        Some(b) =>
            if c.optional is None { Some(b) }
            else if b is Null { None }
            else { Some(AvroSchema::Union { types: mk_vec(seq![AvroSchema::Null, b]), is_nullable_type: true }) },
        None => None,
    }
}
//@fn walk_nullable_type
//@spec
    ensures
        r is Ok ==> nullable_type(*ctx, osv(namespace), *src) == Some(r->Ok_0),
        r is Err ==> nullable_type(*ctx, osv(namespace), *src) is None,
//@after let type_name =
    proof { assert(type_name@ == base_name(*ctx)); }
//@after let base_type =
    proof {
        if ctx.s_primitiveType() is None {
            let ghost t = base_name(*ctx);
            assert(base_type->Reference_name == mk_string(name_part(t)));
            assert(base_type->Reference_namespace == (if ns_part(t) is Some { mk_ostr(ns_part(t)) } else { mk_ostr(osv(namespace)) }));
            assert(base_type->Reference_properties == no_map::<Value>());
            assert(base_type->span == base_place(*ctx, *src));
        }
        assert(crate::walk::base_type(*ctx, osv(namespace), *src) == Some(base_type));
        lemma_vec2(AvroSchema::Null, base_type);
    }
//@end

pub open spec fn some_props(p: SchemaProperties) -> bool { p.properties@ != Map::<Seq<char>, Value>::empty() }
pub open spec fn reference_like(s: AvroSchema) -> bool {
    s is Reference || (s is Union && s->is_nullable_type && exists|i: int| 0 <= i < s->types@.len() && (#[trigger] s->types@[i]) is Reference)
}
// A type s that is annotated with p.
pub open spec fn full_of(p: Out<SchemaProperties>, s: Out<AvroSchema>, src: SourceInfo, c: FullTypeContextAll) -> Option<Out<AvroSchema>> {
    if !some_props(p.v) { Some(Out { v: s.v, w: p.w + s.w, d: p.d.union(s.d) }) }
    else if reference_like(s.v) || overwrites(s.v, p.v.properties@) { None }
    else {
        let w = if s.v is Union && !nullable(s.v) {
            seq![mk_warning(union_msg(sorted_names(p.v.properties@.dom())), src, extent(c.s_start(), c.s_stop()))]
        } else { seq![] };
        Some(Out { v: annotated(s.v, p.v.properties@), w: p.w + s.w + w, d: p.d.union(s.d) })
    }
}
pub open spec fn full_type(c: FullTypeContextAll, ns: Option<Seq<char>>, src: SourceInfo) -> Option<Out<AvroSchema>>
    decreases c.rank(), 0nat
{
    match (all_props(c.s_schemaProperty_all()@, src, Site::Type), c.s_plainType()) {
        (Some(p), Some(pl)) => match plain_type(*pl, ns, src) { Some(s) => full_of(p, s, src, c), None => None },
        _ => None,
    }
}
pub open spec fn plain_type(c: PlainTypeContextAll, ns: Option<Seq<char>>, src: SourceInfo) -> Option<Out<AvroSchema>>
    decreases c.rank(), 0nat
{
    match (c.s_arrayType(), c.s_mapType(), c.s_unionType(), c.s_nullableType()) {
        (Some(a), _, _, _) => match a.s_fullType() {
            Some(f) => match full_type(*f, ns, src) {
                Some(o) => Some(Out { v: AvroSchema::Array { items: Box::new(o.v), properties: no_map() }, w: o.w, d: o.d }),
                None => None,
            },
            None => None,
        },
        (None, Some(m), _, _) => match m.s_fullType() {
            Some(f) => match full_type(*f, ns, src) {
                Some(o) => Some(Out { v: AvroSchema::Map { values: Box::new(o.v), properties: no_map() }, w: o.w, d: o.d }),
                None => None,
            },
            None => None,
        },
        (None, None, Some(u), _) => union_type(*u, ns, src),
        (None, None, None, Some(n)) => match nullable_type(*n, ns, src) { Some(s) => Some(Out { v: s, w: seq![], d: Set::empty() }), None => None },
        _ => None,
    }
}
pub open spec fn array_type(c: ArrayTypeContextAll, ns: Option<Seq<char>>, src: SourceInfo) -> Option<Out<AvroSchema>> {
    match c.s_fullType() {
        Some(f) => match full_type(*f, ns, src) {
            Some(o) => Some(Out { v: AvroSchema::Array { items: Box::new(o.v), properties: no_map() }, w: o.w, d: o.d }),
            None => None,
        },
        None => None,
    }
}
pub open spec fn map_type(c: MapTypeContextAll, ns: Option<Seq<char>>, src: SourceInfo) -> Option<Out<AvroSchema>> {
    match c.s_fullType() {
        Some(f) => match full_type(*f, ns, src) {
            Some(o) => Some(Out { v: AvroSchema::Map { values: Box::new(o.v), properties: no_map() }, w: o.w, d: o.d }),
            None => None,
        },
        None => None,
    }
}
// The first k branches.
pub open spec fn branches(c: UnionTypeContextAll, k: nat, ns: Option<Seq<char>>, src: SourceInfo) -> Option<Out<Seq<AvroSchema>>>
    decreases c.rank(), k
{
    if k == 0 { Some(Out { v: seq![], w: seq![], d: Set::empty() }) }
    else if k > c.s_fullType_all()@.len() { None }
    else {
        match (branches(c, (k - 1) as nat, ns, src), full_type(*c.s_fullType_all()@[k - 1], ns, src)) {
            (Some(a), Some(t)) => Some(Out { v: a.v.push(t.v), w: a.w + t.w, d: a.d.union(t.d) }),
            _ => None,
        }
    }
}
proof fn lemma_branches(c: UnionTypeContextAll, k: nat, n: nat, ns: Option<Seq<char>>, src: SourceInfo)
    requires k <= n, branches(c, k, ns, src) is None,
    ensures branches(c, n, ns, src) is None,
    decreases n
{ if k < n { lemma_branches(c, k, (n - 1) as nat, ns, src); } }
// No union directly in a union; no two branches of the same unnamed type or the same name.
pub open spec fn union_ok(ts: Seq<AvroSchema>) -> bool {
    &&& forall|i: int| 0 <= i < ts.len() ==> !((#[trigger] ts[i]) is Union)
    &&& forall|i: int, j: int| 0 <= i < j < ts.len() ==> union_key(#[trigger] ts[i]) != union_key(#[trigger] ts[j])
}
pub open spec fn union_type(c: UnionTypeContextAll, ns: Option<Seq<char>>, src: SourceInfo) -> Option<Out<AvroSchema>>
    decreases c.rank(), c.s_fullType_all()@.len() + 1
{
    match branches(c, c.s_fullType_all()@.len(), ns, src) {
        Some(b) => if union_ok(b.v) { Some(Out { v: AvroSchema::Union { types: mk_vec(b.v), is_nullable_type: false }, w: b.w, d: b.d }) } else { None },
        None => None,
    }
}

//@fn walk_full_type
//@opt attr verifier::spinoff_prover
//@opt log
//@opt rename sort_unstable
//@spec
    ensures done(r, *old(__w), *final(__w), full_type(*ctx, osv(namespace), *src)),
    decreases ctx.rank(), 0nat,
//@after let schema = walk_plain_type
    let ghost s0 = schema;
    let ghost p0 = props;
    let ghost w1 = *__w;
    let ghost fo = full_type(*ctx, osv(namespace), *src);
//@before let schema = if
    proof {
        assert(fo is Some);
        if fo is Some && some_props(p0) && s0 is Union && !nullable(s0) {
            let ghost w = mk_warning(union_msg(sorted_names(p0.properties@.dom())), *src, extent(ctx.s_start(), ctx.s_stop()));
            assert(__w.warnings@.last().message@ =~= w.message@);
            assert(__w.warnings@.last() == w);
            assert(__w.warnings@ =~= w1.warnings@.push(w));
        } else { assert(*__w == w1); }
        assert(grown(*old(__w), *__w, fo->0.w, fo->0.d));
    }
//@before if let Some(name)
    proof { if props.properties@ =~= Map::<Seq<char>, Value>::empty() { lemma_no_overwrites(schema, props.properties@); } }
//@loop 0
    invariant
        __v@.len() == it0.index(),
        forall|j: int| 0 <= j < __v@.len() ==> props.properties@.dom().contains((#[trigger] __v@[j])@) && __v@[j]@ == it0.seq()[j]@,
        forall|k: Seq<char>| #[trigger] props.properties@.dom().contains(k) ==>
            (exists|j: int| 0 <= j < __v@.len() && (#[trigger] __v@[j])@ == k) || (exists|j: int| __v@.len() <= j < it0.seq().len() && (#[trigger] it0.seq()[j])@ == k),
        forall|i: int, j: int| 0 <= i < j < __v@.len() ==> (#[trigger] __v@[i])@ != (#[trigger] __v@[j])@,
//@loop-start 0
    let ghost v0 = __v@;
//@loop-end 0
    proof {
        assert forall|k: Seq<char>| #[trigger] props.properties@.dom().contains(k) implies
            (exists|j: int| 0 <= j < __v@.len() && (#[trigger] __v@[j])@ == k) || (exists|j: int| __v@.len() <= j < it0.seq().len() && (#[trigger] it0.seq()[j])@ == k) by {
            if exists|j: int| 0 <= j < v0.len() && (#[trigger] v0[j])@ == k {
                let j = choose|j: int| 0 <= j < v0.len() && (#[trigger] v0[j])@ == k;
                assert(__v@[j]@ == k);
            } else {
                let j = choose|j: int| v0.len() <= j < it0.seq().len() && (#[trigger] it0.seq()[j])@ == k;
                if j == v0.len() { assert(__v@[j]@ == k); }
            }
        }
    }
//@after let mut keys
    proof {
        assert forall|k: Seq<char>| props.properties@.dom().contains(k) implies exists|i: int| 0 <= i < keys@.len() && (#[trigger] str_views(keys@)[i]) == k by {
            let i = choose|i: int| 0 <= i < keys@.len() && (#[trigger] keys@[i])@ == k;
            assert(str_views(keys@)[i] == k);
        }
        lemma_keys(str_views(keys@), props.properties@);
        assert(str_views(keys@).no_duplicates());
    }
//@end
//@fn walk_plain_type
//@opt log
//@spec
    ensures done(r, *old(__w), *final(__w), plain_type(*ctx, osv(namespace), *src)),
    decreases ctx.rank(), 0nat,
//@end
//@fn walk_array_type
//@opt log
//@spec
    ensures done(r, *old(__w), *final(__w), array_type(*ctx, osv(namespace), *src)),
    decreases ctx.rank(), 0nat,
//@end
//@fn walk_map_type
//@opt log
//@spec
    ensures done(r, *old(__w), *final(__w), map_type(*ctx, osv(namespace), *src)),
    decreases ctx.rank(), 0nat,
//@end
//@fn walk_union_type
//@opt attr verifier::spinoff_prover
//@opt log
//@spec
    ensures done(r, *old(__w), *final(__w), union_type(*ctx, osv(namespace), *src)),
    decreases ctx.rank(), 0nat,
//@start
    hide(union_key);
//@loop 0
    invariant
        it0.seq() == ctx.s_fullType_all()@,
        branches(*ctx, it0.index() as nat, osv(namespace), *src) is Some,
        types@ =~= branches(*ctx, it0.index() as nat, osv(namespace), *src)->0.v,
        types@.len() == it0.index(),
        grown(*old(__w), *__w, branches(*ctx, it0.index() as nat, osv(namespace), *src)->0.w, branches(*ctx, it0.index() as nat, osv(namespace), *src)->0.d),
//@loop-start 0
    proof {
        let ghost i = it0.index() as nat;
        if branches(*ctx, i + 1, osv(namespace), *src) is None { lemma_branches(*ctx, i + 1, ctx.s_fullType_all()@.len(), osv(namespace), *src); }
    }
//@loop-after 0
    let ghost bs = branches(*ctx, ctx.s_fullType_all()@.len(), osv(namespace), *src);
    let ghost ut = union_type(*ctx, osv(namespace), *src);
    proof {
        assert(bs is Some && types@ == bs->0.v && grown(*old(__w), *__w, bs->0.w, bs->0.d));
        assert(ut == (if union_ok(types@) { Some(Out { v: AvroSchema::Union { types, is_nullable_type: false }, w: bs->0.w, d: bs->0.d }) } else { None })) by {
            assert(mk_vec(types@) == types);
        }
    }
//@loop 1
    invariant
        it1.seq().len() == types@.len(), ft_ctxs@.len() == types@.len(),
        forall|j: int| 0 <= j < types@.len() ==> (#[trigger] it1.seq()[j]).0 == j && *it1.seq()[j].1 == types@[j],
        forall|j: int| 0 <= j < it1.index() ==> !((#[trigger] types@[j]) is Union),
//@loop 2
    invariant
        it2.seq().len() == types@.len(), ft_ctxs@.len() == types@.len(),
        forall|j: int| 0 <= j < types@.len() ==> (#[trigger] it2.seq()[j]).0 == j && *it2.seq()[j].1 == types@[j],
        forall|j: int, l: int| 0 <= j < l < it2.index() ==> union_key(#[trigger] types@[j]) != union_key(#[trigger] types@[l]),
        forall|k: Seq<char>| seen_keys@.contains(k) <==> exists|j: int| 0 <= j < it2.index() && union_key(#[trigger] types@[j]) == k,
//@end

// ---------------------------------------------------------------------------
// Declarations
// ---------------------------------------------------------------------------
pub type TokenAt = spec_fn(int) -> TokV;
pub open spec fn doc_of(tv: TokenAt, t: Tok) -> Option<Seq<char>> { doc_at(tv, t.tk().index) }
pub open spec fn used_at(tv: TokenAt, t: Tok) -> Set<isize> { doc_used(tv, t.tk().index) }

//@fn extract_doc_from_context
//@opt log
//@spec
    ensures
        r == mk_ostr(doc_of(token_stream.tv(), ctx.s_start())),
        grown(*old(__w), *final(__w), seq![], used_at(token_stream.tv(), ctx.s_start())),
//@end

//@fn check_avro_name
//@spec
    ensures r is Ok <==> valid_name(name@),
//@end

// The type of a variable: T? goes with its default.
pub open spec fn ordered(t: AvroSchema, d: Option<Value>) -> AvroSchema {
    if nullable(t) && d is Some && !(d->0 is Null) { AvroSchema::Union { types: mk_vec(seq![t->types@[1], t->types@[0]]), is_nullable_type: true } } else { t }
}
// The default of a variable (None: it cannot be read).
pub open spec fn var_default(c: VariableDeclarationContextAll) -> Option<Option<Value>> {
    match c.s_jsonValue() {
        None => Some(None),
        Some(j) => match j_val(*j) { Some(v) => Some(Some(v)), None => None },
    }
}
pub open spec fn mk_field(name: Seq<char>, t: AvroSchema, doc: Option<Seq<char>>, d: Option<Value>, p: SchemaProperties) -> Field {
    Field { name: mk_string(name), schema: ordered(t, d), doc: mk_ostr(doc), default: d, order: p.order, aliases: p.aliases, properties: p.properties }
}
// A variable in a declaration of type t whose comment is dd.
pub open spec fn variable(c: VariableDeclarationContextAll, t: AvroSchema, dd: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<Field>> {
    match (c.s_identifier(), all_props(c.s_schemaProperty_all()@, src, Site::Variable), var_default(c)) {
        (Some(id), Some(p), Some(d)) => {
            let own = doc_of(tv, c.s_start());
            let doc = if own is Some { own } else { dd };
            if valid_name(id_text(*id)) && (d is Some ==> default_ok(d->0, ordered(t, d))) {
                Some(Out { v: mk_field(id_text(*id), t, doc, d, p.v), w: p.w, d: used_at(tv, c.s_start()).union(p.d) })
            } else { None }
        }
        _ => None,
    }
}
//@fn walk_variable
//@opt log
//@opt opaque_format
//@spec
    ensures done(r, *old(__w), *final(__w), variable(*ctx, *field_type, osv(default_doc), token_stream.tv(), *src)),
//@after let final_type
    proof {
        lemma_vec2(field_type->types@[1], field_type->types@[0]);
        assert(final_type == ordered(*field_type, default_value));
    }
//@end

// The first k variables of a declaration.
pub open spec fn variables(c: FieldDeclarationContextAll, k: nat, t: AvroSchema, dd: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<Seq<Field>>>
    decreases k
{
    if k == 0 { Some(Out { v: seq![], w: seq![], d: Set::empty() }) }
    else if k > c.s_variableDeclaration_all()@.len() { None }
    else {
        match (variables(c, (k - 1) as nat, t, dd, tv, src), variable(*c.s_variableDeclaration_all()@[k - 1], t, dd, tv, src)) {
            (Some(a), Some(f)) => Some(Out { v: a.v.push(f.v), w: a.w + f.w, d: a.d.union(f.d) }),
            _ => None,
        }
    }
}
proof fn lemma_variables(c: FieldDeclarationContextAll, k: nat, n: nat, t: AvroSchema, dd: Option<Seq<char>>, tv: TokenAt, src: SourceInfo)
    requires k <= n, variables(c, k, t, dd, tv, src) is None,
    ensures variables(c, n, t, dd, tv, src) is None,
    decreases n
{ if k < n { lemma_variables(c, k, (n - 1) as nat, t, dd, tv, src); } }
pub open spec fn field_decl(c: FieldDeclarationContextAll, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<Seq<Field>>> {
    match c.s_fullType() {
        Some(f) => match full_type(*f, ns, src) {
            Some(t) => match variables(c, c.s_variableDeclaration_all()@.len(), t.v, doc_of(tv, c.s_start()), tv, src) {
                Some(v) => Some(Out { v: v.v, w: t.w + v.w, d: used_at(tv, c.s_start()).union(t.d).union(v.d) }),
                None => None,
            },
            None => None,
        },
        None => None,
    }
}
//@fn walk_field_declaration
//@opt attr verifier::spinoff_prover
//@opt log
//@spec
    ensures
        r is Ok ==> {
            let o = field_decl(*ctx, osv(namespace), token_stream.tv(), *src);
            o is Some && r->Ok_0@ == o->0.v && grown(*old(__w), *final(__w), o->0.w, o->0.d) && r->Ok_0@.len() == ctx.s_variableDeclaration_all()@.len()
        },
        r is Err ==> field_decl(*ctx, osv(namespace), token_stream.tv(), *src) is None,
//@after let field_type
    let ghost tv = token_stream.tv();
    let ghost dd = doc_of(tv, ctx.s_start());
    let ghost w1 = *__w;
//@loop 0
    invariant
        it0.seq() == ctx.s_variableDeclaration_all()@,
        variables(*ctx, it0.index() as nat, field_type, dd, tv, *src) is Some,
        fields@ =~= variables(*ctx, it0.index() as nat, field_type, dd, tv, *src)->0.v,
        fields@.len() == it0.index(),
        grown(w1, *__w, variables(*ctx, it0.index() as nat, field_type, dd, tv, *src)->0.w, variables(*ctx, it0.index() as nat, field_type, dd, tv, *src)->0.d),
//@loop-start 0
    proof {
        let ghost i = it0.index() as nat;
        if variables(*ctx, i + 1, field_type, dd, tv, *src) is None { lemma_variables(*ctx, i + 1, ctx.s_variableDeclaration_all()@.len(), field_type, dd, tv, *src); }
    }
//@end

// The namespace of a type declared under this identifier: the one it is
// written with, else that of its annotation, else that around it.
pub open spec fn decl_ns(raw: Seq<char>, own: Option<String>, ns: Option<Seq<char>>) -> Option<Seq<char>> {
    if ns_part(raw) is Some { ns_part(raw) } else if own is Some { ov(own) } else { ns }
}
pub open spec fn has_name(s: Seq<Seq<char>>, x: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == x }
// The first k symbols of an enum.
pub open spec fn symbols(c: EnumDeclarationContextAll, k: nat) -> Option<Seq<Seq<char>>>
    decreases k
{
    if k == 0 { Some(seq![]) }
    else if k > c.s_enumSymbol_all()@.len() { None }
    else {
        match (symbols(c, (k - 1) as nat), c.s_enumSymbol_all()@[k - 1].s_identifier()) {
            (Some(a), Some(id)) => if valid_name(id_text(*id)) && !has_name(a, id_text(*id)) { Some(a.push(id_text(*id))) } else { None },
            (Some(a), None) => Some(a),
            _ => None,
        }
    }
}
proof fn lemma_symbols(c: EnumDeclarationContextAll, k: nat, n: nat)
    requires k <= n, symbols(c, k) is None,
    ensures symbols(c, n) is None,
    decreases n
{ if k < n { lemma_symbols(c, k, (n - 1) as nat); } }
// The default symbol, one of syms if there is one.
pub open spec fn enum_default(c: EnumDeclarationContextAll, syms: Seq<Seq<char>>) -> Option<Option<Seq<char>>> {
    match c.s_enumDefault() {
        Some(d) => match d.s_identifier() {
            Some(id) => if has_name(syms, id_text(*id)) { Some(Some(id_text(*id))) } else { None },
            None => Some(None),
        },
        None => Some(None),
    }
}
pub open spec fn strings(s: Seq<Seq<char>>) -> Seq<String> { Seq::new(s.len(), |i: int| mk_string(s[i])) }
pub open spec fn enum_decl(c: EnumDeclarationContextAll, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<AvroSchema>> {
    match (all_props(c.s_schemaProperty_all()@, src, Site::Enum), c.s_identifier(), symbols(c, c.s_enumSymbol_all()@.len())) {
        (Some(p), Some(id), Some(syms)) => {
            let raw = id_text(*id);
            match enum_default(c, syms) {
                Some(d) => if taken_name(name_part(raw)) { None } else {
                    Some(Out {
                        v: AvroSchema::Enum {
                            name: mk_string(name_part(raw)), namespace: mk_ostr(decl_ns(raw, p.v.namespace, ns)), doc: mk_ostr(doc_of(tv, c.s_start())),
                            symbols: mk_vec(strings(syms)), default: mk_ostr(d), aliases: p.v.aliases, properties: p.v.properties },
                        w: p.w, d: used_at(tv, c.s_start()).union(p.d) })
                },
                None => None,
            }
        }
        _ => None,
    }
}
//@fn walk_enum
//@opt log
//@opt opaque_format
//@opt rename contains
//@spec
    ensures done(r, *old(__w), *final(__w), enum_decl(*ctx, osv(enclosing_namespace), token_stream.tv(), *src)),
//@loop 0
    invariant
        it0.seq() == ctx.s_enumSymbol_all()@,
        crate::walk::symbols(*ctx, it0.index() as nat) is Some,
        symbols@ =~= strings(crate::walk::symbols(*ctx, it0.index() as nat)->0),
        forall|k: Seq<char>| seen_symbols@.contains(k) <==> has_name(crate::walk::symbols(*ctx, it0.index() as nat)->0, k),
//@loop-start 0
    let ghost i = it0.index() as nat;
    let ghost s0 = crate::walk::symbols(*ctx, i)->0;
    proof {
        if crate::walk::symbols(*ctx, i + 1) is None { lemma_symbols(*ctx, i + 1, ctx.s_enumSymbol_all()@.len()); }
    }
//@after let sym =
    proof {
        assert(enum_default(*ctx, syms) is None <==> !has_name(syms, sym@));
        assert(!has_name(syms, sym@) ==> enum_decl(*ctx, osv(enclosing_namespace), token_stream.tv(), *src) is None);
        if has_name(syms, sym@) { let j = choose|j: int| 0 <= j < syms.len() && #[trigger] syms[j] == sym@; assert(symbols.svv()[j]@ == sym@); }
    }
//@loop-after 0
    let ghost syms = crate::walk::symbols(*ctx, ctx.s_enumSymbol_all()@.len())->0;
    proof {
        assert forall|k: Seq<char>| has_name(syms, k) <==> (exists|j: int| 0 <= j < symbols@.len() && (#[trigger] symbols@[j])@ == k) by {
            if has_name(syms, k) { let j = choose|j: int| 0 <= j < syms.len() && #[trigger] syms[j] == k; assert(symbols@[j]@ == k); }
            if exists|j: int| 0 <= j < symbols@.len() && (#[trigger] symbols@[j])@ == k { let j = choose|j: int| 0 <= j < symbols@.len() && (#[trigger] symbols@[j])@ == k; assert(syms[j] == k); }
        }
    }
//@loop-end 0
    proof {
        let ghost s1 = crate::walk::symbols(*ctx, i + 1)->0;
        assert forall|k: Seq<char>| seen_symbols@.contains(k) <==> has_name(s1, k) by {
            if s1.len() > s0.len() {
                if has_name(s0, k) { let j = choose|j: int| 0 <= j < s0.len() && #[trigger] s0[j] == k; assert(s1[j] == k); }
                assert(s1[s0.len() as int] == s1.last());
            }
        }
    }
//@end

pub open spec fn fixed_decl(c: FixedDeclarationContextAll, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<AvroSchema>> {
    match (all_props(c.s_schemaProperty_all()@, src, Site::Named), c.s_identifier(), c.size) {
        (Some(p), Some(id), Some(n)) => {
            let raw = id_text(*id);
            match u32_lit(n.tk().text) {
                Some(size) => if taken_name(name_part(raw)) { None } else {
                    Some(Out {
                        v: AvroSchema::Fixed {
                            name: mk_string(name_part(raw)), namespace: mk_ostr(decl_ns(raw, p.v.namespace, ns)), doc: mk_ostr(doc_of(tv, c.s_start())),
                            size, aliases: p.v.aliases, properties: p.v.properties },
                        w: p.w, d: used_at(tv, c.s_start()).union(p.d) })
                },
                None => None,
            }
        }
        _ => None,
    }
}
//@fn walk_fixed
//@opt log
//@opt opaque_format
//@opt rename as_ref
//@spec
    ensures done(r, *old(__w), *final(__w), fixed_decl(*ctx, osv(enclosing_namespace), token_stream.tv(), *src)),
//@end

// The fields of the first k declarations of a record.
pub open spec fn body_fields(b: RecordBodyContextAll, k: nat, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<Seq<Field>>>
    decreases k
{
    if k == 0 { Some(Out { v: seq![], w: seq![], d: Set::empty() }) }
    else if k > b.s_fieldDeclaration_all()@.len() { None }
    else {
        match (body_fields(b, (k - 1) as nat, ns, tv, src), field_decl(*b.s_fieldDeclaration_all()@[k - 1], ns, tv, src)) {
            (Some(a), Some(f)) => Some(Out { v: a.v + f.v, w: a.w + f.w, d: a.d.union(f.d) }),
            _ => None,
        }
    }
}
pub open spec fn distinct(f: Seq<Field>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).name@ != (#[trigger] f[j]).name@ }
// What fails for the first k declarations fails for all.
proof fn lemma_body(b: RecordBodyContextAll, k: nat, n: nat, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo)
    requires k <= n,
    ensures
        body_fields(b, k, ns, tv, src) is None ==> body_fields(b, n, ns, tv, src) is None,
        body_fields(b, n, ns, tv, src) is Some && k <= b.s_fieldDeclaration_all()@.len() ==> body_fields(b, k, ns, tv, src) is Some
            && body_fields(b, k, ns, tv, src)->0.v.is_prefix_of(body_fields(b, n, ns, tv, src)->0.v),
    decreases n
{ if k < n { lemma_body(b, k, (n - 1) as nat, ns, tv, src); } }
pub open spec fn record_decl(c: RecordDeclarationContextAll, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<AvroSchema>> {
    match (all_props(c.s_schemaProperty_all()@, src, Site::Named), c.s_identifier(), c.s_recordBody()) {
        (Some(p), Some(id), Some(b)) => {
            let raw = id_text(*id);
            let own = decl_ns(raw, p.v.namespace, ns);
            match body_fields(*b, b.s_fieldDeclaration_all()@.len(), own, tv, src) {
                Some(f) => if taken_name(name_part(raw)) || !distinct(f.v) { None } else {
                    Some(Out {
                        v: AvroSchema::Record {
                            name: mk_string(name_part(raw)), namespace: mk_ostr(own), doc: mk_ostr(doc_of(tv, c.s_start())),
                            fields: mk_vec(f.v), is_error: c.recordType is Some && c.recordType->0.tk().tt == Idl_Error,
                            aliases: p.v.aliases, properties: p.v.properties },
                        w: p.w + f.w, d: used_at(tv, c.s_start()).union(p.d).union(f.d) })
                },
                None => None,
            }
        }
        _ => None,
    }
}
pub open spec fn un_rc<T>(r: Rc<T>) -> T { *r }
pub open spec fn names_in(f: Seq<Field>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < f.len() && (#[trigger] f[i]).name@ == k }
proof fn lemma_dup(pre: Seq<Field>, x: Field, whole: Seq<Field>)
    requires pre.push(x).is_prefix_of(whole),
    ensures
        names_in(pre, x.name@) ==> !distinct(whole),
        !names_in(pre, x.name@) && distinct(pre) ==> distinct(pre.push(x)),
        forall|k: Seq<char>| #[trigger] names_in(pre.push(x), k) <==> names_in(pre, k) || k == x.name@,
{
    let q = pre.push(x);
    assert forall|k: Seq<char>| #[trigger] names_in(q, k) <==> names_in(pre, k) || k == x.name@ by {
        if names_in(pre, k) { let i = choose|i: int| 0 <= i < pre.len() && (#[trigger] pre[i]).name@ == k; assert(q[i].name@ == k); }
        assert(q[pre.len() as int] == x);
    }
    if names_in(pre, x.name@) {
        let i = choose|i: int| 0 <= i < pre.len() && (#[trigger] pre[i]).name@ == x.name@;
        assert(whole[i] == q[i] && whole[pre.len() as int] == q[pre.len() as int]);
        assert(whole[i].name@ == whole[pre.len() as int].name@);
    }
}
//@fn walk_record
//@opt attr verifier::spinoff_prover
//@opt log
//@opt opaque_format
//@opt rename as_ref
//@spec
    ensures
        r is Ok ==> {
            let o = record_decl(*ctx, ov(*old(namespace)), token_stream.tv(), *src);
            o is Some && r->Ok_0.0 == o->0.v && grown(*old(__w), *final(__w), o->0.w, o->0.d) && *final(namespace) == *old(namespace)
        },
        r is Err ==> record_decl(*ctx, ov(*old(namespace)), token_stream.tv(), *src) is None,
//@start
    hide(field_decl);
    hide(props);
    hide(taken_name);
    let ghost w0 = *__w;
    let ghost ns0 = ov(*namespace);
    let ghost tv = token_stream.tv();
//@loop-before 0
    let ghost w1 = *__w;
    let ghost rd = record_decl(*ctx, ns0, tv, *src);
    let ghost p0 = props;
    let ghost own = ov(record_namespace);
    let ghost bb = un_rc(body);
    let ghost n = bb.s_fieldDeclaration_all()@.len();
    proof {
        assert(own == decl_ns(raw_identifier@, props.namespace, ns0));
        assert(ov(*namespace) == own);
    }
//@loop 0
    invariant
        it0.seq() == bb.s_fieldDeclaration_all()@,
        body_fields(bb, it0.index() as nat, own, tv, *src) is Some,
        fields@ =~= body_fields(bb, it0.index() as nat, own, tv, *src)->0.v,
        grown(w1, *__w, body_fields(bb, it0.index() as nat, own, tv, *src)->0.w, body_fields(bb, it0.index() as nat, own, tv, *src)->0.d),
        distinct(fields@),
        forall|k: Seq<char>| seen_field_names@.contains(k) <==> names_in(fields@, k),
        ov(*namespace) == own,
//@loop-start 0
    let ghost i = it0.index() as nat;
    let ghost f0 = fields@;
    let ghost all = body_fields(bb, n, own, tv, *src);
    proof {
        lemma_body(bb, i + 1, n, own, tv, *src);
        if body_fields(bb, i + 1, own, tv, *src) is None || all is None || !distinct(all->0.v) { assert(rd is None); }
    }
//@loop 1
    invariant
        it1.seq().len() == field_fields@.len(),
        forall|j: int| 0 <= j < field_fields@.len() ==> *(#[trigger] it1.seq()[j]).0 == field_fields@[j],
        distinct(f0 + field_fields@.take(it1.index() as int)),
        forall|k: Seq<char>| seen_field_names@.contains(k) <==> names_in(f0 + field_fields@.take(it1.index() as int), k),
        ov(*namespace) == own,
//@loop-start 1
    let ghost j = it1.index() as int;
    proof {
        let ghost pre = f0 + field_fields@.take(j);
        assert(pre.push(*field) =~= f0 + field_fields@.take(j + 1));
        assert(body_fields(bb, i + 1, own, tv, *src)->0.v == f0 + field_fields@);
        if all is Some {
            assert(pre.push(*field).is_prefix_of(all->0.v));
            lemma_dup(pre, *field, all->0.v);
        } else {
            lemma_dup(pre, *field, pre.push(*field));
        }
    }
//@loop-after 1
    proof { assert(field_fields@.take(field_fields@.len() as int) =~= field_fields@); }
//@end

// A declared type.
pub open spec fn named_decl(c: NamedSchemaDeclarationContextAll, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<AvroSchema>> {
    match (c.s_fixedDeclaration(), c.s_enumDeclaration(), c.s_recordDeclaration()) {
        (Some(f), _, _) => fixed_decl(*f, ns, tv, src),
        (None, Some(e), _) => enum_decl(*e, ns, tv, src),
        (None, None, Some(r)) => record_decl(*r, ns, tv, src),
        _ => None,
    }
}
//@fn walk_named_schema_no_register
//@opt log
//@spec
    ensures
        r is Ok ==> {
            let o = named_decl(*ctx, ov(*old(namespace)), token_stream.tv(), *src);
            o is Some && r->Ok_0.0 == o->0.v && grown(*old(__w), *final(__w), o->0.w, o->0.d) && *final(namespace) == *old(namespace)
        },
        r is Err ==> named_decl(*ctx, ov(*old(namespace)), token_stream.tv(), *src) is None,
//@end

// ---------------------------------------------------------------------------
// Messages
// ---------------------------------------------------------------------------
pub open spec fn result_type(c: ResultTypeContextAll, ns: Option<Seq<char>>, src: SourceInfo) -> Option<Out<AvroSchema>> {
    match (c.s_Void(), c.s_plainType()) {
        (None, Some(p)) => plain_type(*p, ns, src),
        _ => Some(Out { v: AvroSchema::Null, w: seq![], d: Set::empty() }),
    }
}
//@fn walk_result_type
//@opt log
//@spec
    ensures done(r, *old(__w), *final(__w), result_type(*ctx, osv(namespace), *src)),
//@end

// One parameter of a message.
pub open spec fn param(c: FormalParameterContextAll, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<Field>> {
    match (c.s_fullType(), c.s_variableDeclaration()) {
        (Some(f), Some(v)) => match full_type(*f, ns, src) {
            Some(t) => match variable(*v, t.v, doc_of(tv, c.s_start()), tv, src) {
                Some(x) => Some(Out { v: x.v, w: t.w + x.w, d: used_at(tv, c.s_start()).union(t.d).union(x.d) }),
                None => None,
            },
            None => None,
        },
        _ => None,
    }
}
// The first k parameters, all of different names.
pub open spec fn params(c: MessageDeclarationContextAll, k: nat, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<Seq<Field>>>
    decreases k
{
    if k == 0 { Some(Out { v: seq![], w: seq![], d: Set::empty() }) }
    else if k > c.s_formalParameter_all()@.len() { None }
    else {
        match (params(c, (k - 1) as nat, ns, tv, src), param(*c.s_formalParameter_all()@[k - 1], ns, tv, src)) {
            (Some(a), Some(x)) => if names_in(a.v, x.v.name@) { None } else { Some(Out { v: a.v.push(x.v), w: a.w + x.w, d: a.d.union(x.d) }) },
            _ => None,
        }
    }
}
proof fn lemma_params(c: MessageDeclarationContextAll, k: nat, n: nat, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo)
    requires k <= n, params(c, k, ns, tv, src) is None,
    ensures params(c, n, ns, tv, src) is None,
    decreases n
{ if k < n { lemma_params(c, k, (n - 1) as nat, ns, tv, src); } }
// The errors of a throws clause.
pub open spec fn throws(e: Seq<Rc<IdentifierContextAll>>, ns: Option<Seq<char>>, src: SourceInfo) -> Seq<AvroSchema> {
    Seq::new(e.len(), |i: int| ref_to(id_text(*e[i]), ns, place_in(e[i].s_start(), src)))
}
pub open spec fn message_decl(c: MessageDeclarationContextAll, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<(Seq<char>, Message)>> {
    match (all_props(c.s_schemaProperty_all()@, src, Site::Message), c.s_resultType(), c.name) {
        (Some(p), Some(rt), Some(id)) => match (result_type(*rt, ns, src), params(c, c.s_formalParameter_all()@.len(), ns, tv, src)) {
            (Some(resp), Some(ps)) =>
                if some_props(p.v) && reference_like(resp.v) { None }
                else if c.oneway is Some && !(resp.v is Null) { None }
                else {
                    Some(Out {
                        v: (id_text(*id), Message {
                            doc: mk_ostr(doc_of(tv, c.s_start())), properties: p.v.properties, request: mk_vec(ps.v), response: resp.v,
                            errors: if c.errors@.len() > 0 { Some(mk_vec(throws(c.errors@, ns, src))) } else { None },
                            one_way: c.oneway is Some }),
                        w: p.w + resp.w + ps.w, d: used_at(tv, c.s_start()).union(p.d).union(resp.d).union(ps.d) })
                },
            _ => None,
        },
        _ => None,
    }
}
//@fn walk_message
//@opt attr verifier::spinoff_prover
//@opt log
//@opt opaque_format
//@opt rename as_ref
//@spec
    ensures
        r is Ok ==> {
            let o = message_decl(*ctx, osv(namespace), token_stream.tv(), *src);
            o is Some && r->Ok_0.0@ == o->0.v.0 && r->Ok_0.1 == o->0.v.1 && grown(*old(__w), *final(__w), o->0.w, o->0.d)
        },
        r is Err ==> message_decl(*ctx, osv(namespace), token_stream.tv(), *src) is None,
//@start
    hide(props);
    hide(variable);
    hide(full_type);
    hide(plain_type);
    let ghost tv = token_stream.tv();
    let ghost ns = osv(namespace);
//@loop-before 0
    let ghost w1 = *__w;
    let ghost md = message_decl(*ctx, ns, tv, *src);
//@loop 0
    invariant
        it0.seq() == ctx.s_formalParameter_all()@,
        params(*ctx, it0.index() as nat, ns, tv, *src) is Some,
        request_fields@ =~= params(*ctx, it0.index() as nat, ns, tv, *src)->0.v,
        grown(w1, *__w, params(*ctx, it0.index() as nat, ns, tv, *src)->0.w, params(*ctx, it0.index() as nat, ns, tv, *src)->0.d),
        forall|k: Seq<char>| seen_param_names@.contains(k) <==> names_in(request_fields@, k),
//@loop-start 0
    let ghost i = it0.index() as nat;
    let ghost f0 = request_fields@;
    proof {
        if params(*ctx, i + 1, ns, tv, *src) is None { lemma_params(*ctx, i + 1, ctx.s_formalParameter_all()@.len(), ns, tv, *src); }
    }
//@loop-end 0
    proof { lemma_dup(f0, request_fields@.last(), request_fields@); assert(request_fields@ =~= f0.push(request_fields@.last())); }
//@loop 1
    invariant
        it1.seq().len() == ctx.errors@.len(),
        forall|j: int| 0 <= j < ctx.errors@.len() ==> *(#[trigger] it1.seq()[j]) == ctx.errors@[j],
        error_schemas@ =~= throws(ctx.errors@, ns, *src).take(it1.index() as int),
//@loop-after 1
    proof { assert(throws(ctx.errors@, ns, *src).take(ctx.errors@.len() as int) =~= throws(ctx.errors@, ns, *src)); }
//@end

// ---------------------------------------------------------------------------
// Files
// ---------------------------------------------------------------------------
// An item of a file, apart from where it stands.
pub ghost enum Decl { Import(ImportKind, Seq<char>), Type(AvroSchema) }
pub open spec fn decl(i: DeclItem) -> Decl {
    match i {
        DeclItem::Import(e) => Decl::Import(e.kind, e.path@),
        DeclItem::Type(t, _, _) => Decl::Type(*t),
    }
}
pub open spec fn decls(s: Seq<DeclItem>) -> Seq<Decl> { Seq::new(s.len(), |i: int| decl(s[i])) }
pub open spec fn import_kind(tt: int) -> Option<ImportKind> {
    if tt == Idl_IDL { Some(ImportKind::Idl) } else if tt == Idl_Protocol { Some(ImportKind::Protocol) } else if tt == Idl_Schema { Some(ImportKind::Schema) } else { None }
}
pub open spec fn import_items(c: ImportStatementContextAll) -> Seq<Decl> {
    match (c.importType, c.location) {
        (Some(k), Some(l)) => match import_kind(k.tk().tt) { Some(k) => seq![Decl::Import(k, str_lit(l.tk().text))], None => seq![] },
        _ => seq![],
    }
}
//@fn collect_single_import
//@opt rename as_ref
//@spec
    ensures decls(final(decl_items)@) =~= decls(old(decl_items)@) + import_items(*import_ctx),
//@end

pub ghost struct Body { pub items: Seq<Decl>, pub types: Seq<AvroSchema>, pub messages: Map<Seq<char>, Message> }
pub open spec fn no_body() -> Body { Body { items: seq![], types: seq![], messages: Map::empty() } }
// The first k children of a file (or of a protocol: proto). Of several
// messages of the same name the last one counts.
pub open spec fn body(ch: Seq<VChild>, k: nat, proto: bool, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<Body>>
    decreases k
{
    if k == 0 { Some(Out { v: no_body(), w: seq![], d: Set::empty() }) }
    else if k > ch.len() { None }
    else {
        match body(ch, (k - 1) as nat, proto, ns, tv, src) {
            Some(a) => match ch[k - 1] {
                VChild::Import(i) => Some(Out { v: Body { items: a.v.items + import_items(*i), ..a.v }, ..a }),
                VChild::Named(n) => match named_decl(*n, ns, tv, src) {
                    Some(t) => Some(Out { v: Body { items: a.v.items.push(Decl::Type(t.v)), types: a.v.types.push(t.v), ..a.v }, w: a.w + t.w, d: a.d.union(t.d) }),
                    None => None,
                },
                VChild::Message(m) => if !proto { Some(a) } else {
                    match message_decl(*m, ns, tv, src) {
                        Some(t) => Some(Out { v: Body { messages: a.v.messages.insert(t.v.0, t.v.1), ..a.v }, w: a.w + t.w, d: a.d.union(t.d) }),
                        None => None,
                    }
                },
                VChild::Other => Some(a),
            },
            None => None,
        }
    }
}
proof fn lemma_children(ch: Seq<VChild>, k: nat, n: nat, proto: bool, ns: Option<Seq<char>>, tv: TokenAt, src: SourceInfo)
    requires k <= n, body(ch, k, proto, ns, tv, src) is None,
    ensures body(ch, n, proto, ns, tv, src) is None,
    decreases n
{ if k < n { lemma_children(ch, k, (n - 1) as nat, proto, ns, tv, src); } }

pub open spec fn proto_ns(c: ProtocolDeclarationContextAll, p: SchemaProperties) -> Option<Seq<char>> {
    match c.s_identifier() { Some(id) => decl_ns(id_text(*id), p.namespace, None), None => None }
}
pub open spec fn protocol_decl(c: ProtocolDeclarationContextAll, tv: TokenAt, src: SourceInfo) -> Option<Out<(Protocol, Seq<Decl>)>> {
    match (all_props(c.s_schemaProperty_all()@, src, Site::Protocol), c.s_identifier(), c.s_protocolDeclarationBody()) {
        (Some(p), Some(id), Some(b)) => match body(b.s_children(), b.s_children().len(), true, proto_ns(c, p.v), tv, src) {
            Some(o) => if taken_name(name_part(id_text(*id))) { None } else {
                Some(Out {
                    v: (Protocol {
                        name: mk_string(name_part(id_text(*id))), namespace: mk_ostr(proto_ns(c, p.v)), doc: mk_ostr(doc_of(tv, c.s_start())),
                        properties: p.v.properties, types: mk_vec(seq![]), messages: mk_hashmap(o.v.messages) }, o.v.items),
                    w: p.w + o.w, d: used_at(tv, c.s_start()).union(p.d).union(o.d) })
            },
            None => None,
        },
        _ => None,
    }
}
//@fn walk_protocol
//@opt attr verifier::spinoff_prover
//@opt log
//@opt opaque_format
//@spec
    ensures
        r is Ok ==> {
            let o = protocol_decl(*ctx, token_stream.tv(), *src);
            o is Some && r->Ok_0 == o->0.v.0 && decls(final(decl_items)@) =~= decls(old(decl_items)@) + o->0.v.1 && grown(*old(__w), *final(__w), o->0.w, o->0.d)
        },
        r is Err ==> protocol_decl(*ctx, token_stream.tv(), *src) is None,
//@start
    hide(props);
    hide(named_decl);
    hide(message_decl);
    let ghost tv = token_stream.tv();
    let ghost d0 = decls(decl_items@);
//@loop-before 0
    let ghost w1 = *__w;
    let ghost pd = protocol_decl(*ctx, tv, *src);
    let ghost ns = ov(*namespace);
    let ghost ch = un_rc(body).s_children();
//@loop 0
    invariant
        it0.seq() == ch,
        crate::walk::body(ch, it0.index() as nat, true, ns, tv, *src) is Some,
        messages@ =~= crate::walk::body(ch, it0.index() as nat, true, ns, tv, *src)->0.v.messages,
        decls(decl_items@) =~= d0 + crate::walk::body(ch, it0.index() as nat, true, ns, tv, *src)->0.v.items,
        grown(w1, *__w, crate::walk::body(ch, it0.index() as nat, true, ns, tv, *src)->0.w, crate::walk::body(ch, it0.index() as nat, true, ns, tv, *src)->0.d),
        ov(*namespace) == ns,
//@loop-start 0
    let ghost i = it0.index() as nat;
    let ghost before = decl_items@;
    let ghost so_far = crate::walk::body(ch, i, true, ns, tv, *src)->0;
    let ghost now = crate::walk::body(ch, i + 1, true, ns, tv, *src);
    proof {
        if now is None { lemma_children(ch, i + 1, ch.len(), true, ns, tv, *src); }
    }
//@loop-end 0
    proof {
        assert(now is Some);
        match ch[i as int] {
            VChild::Import(c) => { assert(now->0.v.items == so_far.v.items + import_items(*c)); },
            VChild::Named(c) => {
                assert(decl_items@ =~= before.push(decl_items@.last()));
                assert(decls(decl_items@) =~= decls(before).push(decl(decl_items@.last())));
            },
            _ => { assert(decl_items@ =~= before); },
        }
        assert(d0 + now->0.v.items =~= decls(decl_items@));
    }
//@loop-after 0
    proof { assert(messages == mk_hashmap(messages@)); }
//@end

pub ghost struct FileV { pub file: IdlFile, pub items: Seq<Decl> }
pub open spec fn file_ns(c: IdlFileContextAll, ns: Option<Seq<char>>) -> Option<Seq<char>> {
    match c.s_namespaceDeclaration() {
        Some(n) => match n.s_identifier() { Some(id) => Some(id_text(*id)), None => ns },
        None => ns,
    }
}
pub open spec fn main_type(c: IdlFileContextAll) -> Option<Rc<FullTypeContextAll>> {
    match c.s_mainSchemaDeclaration() { Some(m) => m.s_fullType(), None => None }
}
pub open spec fn idl_file(c: IdlFileContextAll, ns0: Option<Seq<char>>, tv: TokenAt, src: SourceInfo) -> Option<Out<FileV>> {
    match c.s_protocolDeclaration() {
        Some(p) => match protocol_decl(*p, tv, src) {
            Some(o) => Some(Out { v: FileV { file: IdlFile::Protocol(o.v.0), items: o.v.1 }, w: o.w, d: o.d }),
            None => None,
        },
        None => match body(c.s_children(), c.s_children().len(), false, file_ns(c, ns0), tv, src) {
            Some(b) => match main_type(c) {
                Some(f) => match full_type(*f, file_ns(c, ns0), src) {
                    Some(t) => Some(Out { v: FileV { file: IdlFile::Schema(t.v), items: b.v.items }, w: b.w + t.w, d: b.d.union(t.d) }),
                    None => None,
                },
                None => Some(Out { v: FileV { file: IdlFile::NamedSchemas(mk_vec(b.v.types)), items: b.v.items }, w: b.w, d: b.d }),
            },
            None => None,
        },
    }
}
//@fn walk_idl_file
//@opt attr verifier::spinoff_prover
//@opt log
//@spec
    ensures
        r is Ok ==> {
            let o = idl_file(*ctx, ov(*old(namespace)), token_stream.tv(), *src);
            o is Some && r->Ok_0 == o->0.v.file && decls(final(decl_items)@) =~= decls(old(decl_items)@) + o->0.v.items && grown(*old(__w), *final(__w), o->0.w, o->0.d)
        },
        r is Err ==> idl_file(*ctx, ov(*old(namespace)), token_stream.tv(), *src) is None,
//@start
    hide(full_type);
    hide(protocol_decl);
    hide(named_decl);
    hide(message_decl);
    let ghost tv = token_stream.tv();
    let ghost d0 = decls(decl_items@);
    let ghost ns0 = ov(*namespace);
//@loop-before 0
    let ghost w1 = *__w;
    let ghost fd = idl_file(*ctx, ns0, tv, *src);
    let ghost ns = ov(*namespace);
    let ghost ch = ctx.s_children();
//@loop 0
    invariant
        it0.seq() == ch,
        body(ch, it0.index() as nat, false, ns, tv, *src) is Some,
        local_schemas@ =~= body(ch, it0.index() as nat, false, ns, tv, *src)->0.v.types,
        decls(decl_items@) =~= d0 + body(ch, it0.index() as nat, false, ns, tv, *src)->0.v.items,
        grown(w1, *__w, body(ch, it0.index() as nat, false, ns, tv, *src)->0.w, body(ch, it0.index() as nat, false, ns, tv, *src)->0.d),
        ov(*namespace) == ns,
//@loop-start 0
    let ghost i = it0.index() as nat;
    let ghost before = decl_items@;
    let ghost so_far = body(ch, i, false, ns, tv, *src)->0;
    let ghost now = body(ch, i + 1, false, ns, tv, *src);
    proof {
        if now is None { lemma_children(ch, i + 1, ch.len(), false, ns, tv, *src); }
    }
//@loop-end 0
    proof {
        assert(now is Some);
        match ch[i as int] {
            VChild::Import(c) => { assert(now->0.v.items == so_far.v.items + import_items(*c)); },
            VChild::Named(c) => {
                assert(decl_items@ =~= before.push(decl_items@.last()));
                assert(decls(decl_items@) =~= decls(before).push(decl(decl_items@.last())));
            },
            _ => { assert(decl_items@ =~= before); },
        }
        assert(d0 + now->0.v.items =~= decls(decl_items@));
    }
//@end

// ---------------------------------------------------------------------------
// Comments that document nothing
// ---------------------------------------------------------------------------
pub open spec fn orphans(tv: TokenAt, n: int, used: Set<isize>, src: SourceInfo) -> Seq<Warning>
    decreases n
{
    if n <= 0 { seq![] }
    else {
        let w = orphans(tv, n - 1, used, src);
        if tv(n - 1).tt == Idl_DocComment && !used.contains((n - 1) as isize) { w.push(orphan_warning(tv(n - 1), src)) } else { w }
    }
}
//@fn collect_orphaned_doc_comment_warnings
//@opt rename borrow
//@spec
    ensures r@ =~= orphans(token_stream.tv(), token_stream.n(), consumed_indices@, *src),
//@loop 0
    invariant
        token_count == token_stream.n() && token_count >= 0,
        it0.seq().len() == token_count,
        warnings@ =~= orphans(token_stream.tv(), it0.index() as int, consumed_indices@, *src),
//@end
