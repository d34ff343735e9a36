//@module import src/import.rs
use crate::schema::*;
use crate::json::*;
use crate::protocol::*;
use crate::resolve::*;
use crate::error::SpanWithSource;
broadcast use {group_string, group_coll, group_json, axiom_jmap_decreases, axiom_vec_ext, axiom_mk_vec, axiom_indexmap_order};
// `use miette::Result`
pub type Result<T, E = Report> = std::result::Result<T, E>;

// ---------------------------------------------------------------------------
// Reading JSON (Avro spec, "Schema Declaration"): the schema a JSON value
// denotes where the enclosing namespace is ns; None where it denotes none.
// ---------------------------------------------------------------------------
pub open spec fn get_str(m: Map<Seq<char>, Value>, k: Seq<char>) -> Option<Seq<char>> {
    if m.dom().contains(k) && m[k] is String { Some(m[k]->String_0@) } else { None }
}
pub open spec fn get_u64(m: Map<Seq<char>, Value>, k: Seq<char>) -> Option<u64> {
    if m.dom().contains(k) && m[k] is Number { m[k]->Number_0.spec_as_u64() } else { None }
}
pub open spec fn get_u32(m: Map<Seq<char>, Value>, k: Seq<char>) -> Option<u32> {
    match get_u64(m, k) { Some(v) => if v <= u32::MAX { Some(v as u32) } else { None }, None => None }
}
pub open spec fn ostr(o: Option<Seq<char>>) -> Option<String> { match o { Some(s) => Some(mk_string(s)), None => None } }
// The strings of an array of strings.
pub open spec fn strs(js: Seq<Value>, n: nat) -> Seq<String>
    decreases n
{
    if n == 0 || n > js.len() { seq![] }
    else if js[n - 1] is String { strs(js, (n - 1) as nat).push(js[n - 1]->String_0) }
    else { strs(js, (n - 1) as nat) }
}
pub open spec fn strs_at(m: Map<Seq<char>, Value>, k: Seq<char>) -> Vec<String> {
    mk_vec(if m.dom().contains(k) && m[k] is Array { strs(m[k]->Array_0@, m[k]->Array_0@.len()) } else { seq![] })
}
// Everything that is not an attribute of the kind is a property.
pub open spec fn extra(m: Map<Seq<char>, Value>, known: Set<Seq<char>>) -> Map<Seq<char>, Value> {
    m.remove_keys(known)
}
pub open spec fn extra_at(m: Map<Seq<char>, Value>, known: Set<Seq<char>>) -> HashMap<String, Value> { mk_hashmap(extra(m, known)) }

pub open spec fn rd_ref(s: Seq<char>, ns: Option<Seq<char>>) -> AvroSchema {
    let i = last_index(s, '.');
    AvroSchema::Reference {
        name: mk_string(if i < 0 { s } else { s.subrange(i + 1, s.len() as int) }),
        namespace: ostr(if i < 0 { ns } else { Some(s.subrange(0, i)) }),
        properties: mk_hashmap(Map::empty()),
        span: None,
    }
}
pub open spec fn rd_string(s: Seq<char>, ns: Option<Seq<char>>) -> AvroSchema {
    match prim_of(s) { Some(p) => prim_schema(p), None => rd_ref(s, ns) }
}
// Name and namespace of a definition. (A dotted name with a namespace attribute
// as well: known finding K1 -- the attribute is taken.)
pub open spec fn rd_name(raw: Seq<char>) -> Seq<char> {
    let i = last_index(raw, '.');
    if i < 0 { raw } else { raw.subrange(i + 1, raw.len() as int) }
}
pub open spec fn rd_ns(m: Map<Seq<char>, Value>, raw: Seq<char>, ns: Option<Seq<char>>) -> Option<Seq<char>> {
    let i = last_index(raw, '.');
    match get_str(m, "namespace"@) {
        Some(n) => Some(n),
        None => if i >= 0 { Some(raw.subrange(0, i)) } else { ns },
    }
}
pub open spec fn rd_prim(m: Map<Seq<char>, Value>, p: PrimitiveType) -> Option<AvroSchema> {
    let plain = extra(m, set!["type"@]);
    match get_str(m, "logicalType"@) {
        Some(l) => {
            let scale = get_u32(m, "scale"@);
            match logical_of(l, get_u32(m, "precision"@), scale) {
                Some(lt) =>
                    if logical_base(lt) == p && (scale is Some || !m.dom().contains("scale"@) || !(lt is Decimal)) {
                        if lt is Decimal {
                            if lt->precision < 1 { None }
                            else { Some(AvroSchema::Logical { logical_type: lt, properties: extra_at(m, set!["type"@, "logicalType"@, "precision"@, "scale"@]) }) }
                        } else { Some(AvroSchema::Logical { logical_type: lt, properties: extra_at(m, set!["type"@, "logicalType"@]) }) }
                    } else { Some(AvroSchema::AnnotatedPrimitive { kind: p, properties: mk_hashmap(plain) }) },
                None => Some(AvroSchema::AnnotatedPrimitive { kind: p, properties: mk_hashmap(plain) }),
            }
        }
        None => if plain == Map::<Seq<char>, Value>::empty() { Some(prim_schema(p)) }
            else { Some(AvroSchema::AnnotatedPrimitive { kind: p, properties: mk_hashmap(plain) }) },
    }
}
pub open spec fn rd_enum(m: Map<Seq<char>, Value>, ns: Option<Seq<char>>) -> Option<AvroSchema> {
    match get_str(m, "name"@) {
        Some(raw) => if m.dom().contains("symbols"@) && m["symbols"@] is Array {
            Some(AvroSchema::Enum {
                name: mk_string(rd_name(raw)),
                namespace: ostr(rd_ns(m, raw, ns)),
                doc: ostr(get_str(m, "doc"@)),
                symbols: strs_at(m, "symbols"@),
                default: ostr(get_str(m, "default"@)),
                aliases: strs_at(m, "aliases"@),
                properties: extra_at(m, set!["type"@, "name"@, "namespace"@, "doc"@, "symbols"@, "default"@, "aliases"@]),
            })
        } else { None },
        None => None,
    }
}
pub open spec fn rd_fixed(m: Map<Seq<char>, Value>, ns: Option<Seq<char>>) -> Option<AvroSchema> {
    match (get_str(m, "name"@), get_u32(m, "size"@)) {
        (Some(raw), Some(size)) => Some(AvroSchema::Fixed {
            name: mk_string(rd_name(raw)),
            namespace: ostr(rd_ns(m, raw, ns)),
            doc: ostr(get_str(m, "doc"@)),
            size,
            aliases: strs_at(m, "aliases"@),
            properties: extra_at(m, set!["type"@, "name"@, "namespace"@, "doc"@, "size"@, "aliases"@]),
        }),
        _ => None,
    }
}
pub open spec fn rd(j: Value, ns: Option<Seq<char>>) -> Option<AvroSchema>
    decreases j, 0nat
{
    match j {
        Value::String(s) => Some(rd_string(s@, ns)),
        Value::Array(js) => match rd_all(js@, js@.len(), ns) {
            Some(q) => Some(AvroSchema::Union { types: mk_vec(q), is_nullable_type: false }),
            None => None,
        },
        Value::Object(o) => rd_obj(o, ns),
        _ => None,
    }
}
pub open spec fn rd_all(js: Seq<Value>, n: nat, ns: Option<Seq<char>>) -> Option<Seq<AvroSchema>>
    decreases js, n
{
    if n == 0 || n > js.len() { Some(seq![]) }
    else {
        match (rd_all(js, (n - 1) as nat, ns), rd(js[n - 1], ns)) {
            (Some(q), Some(s)) => Some(q.push(s)),
            _ => None,
        }
    }
}
pub open spec fn rd_obj(o: JMap<String, Value>, ns: Option<Seq<char>>) -> Option<AvroSchema>
    decreases o, 5nat
{
    let m = o@;
    match get_str(m, "type"@) {
        None => None,
        Some(t) =>
            if t == "record"@ || t == "error"@ { rd_record(o, t, ns) }
            else if t == "enum"@ { rd_enum(m, ns) }
            else if t == "fixed"@ { rd_fixed(m, ns) }
            else if t == "array"@ { rd_array(o, ns) }
            else if t == "map"@ { rd_map(o, ns) }
            else { match prim_of(t) { Some(p) => rd_prim(m, p), None => None } },
    }
}
pub open spec fn rd_array(o: JMap<String, Value>, ns: Option<Seq<char>>) -> Option<AvroSchema>
    decreases o, 4nat
{
    if !o@.dom().contains("items"@) { None } else {
        match rd(o@["items"@], ns) {
            Some(s) => Some(AvroSchema::Array { items: Box::new(s), properties: extra_at(o@, set!["type"@, "items"@]) }),
            None => None,
        }
    }
}
pub open spec fn rd_map(o: JMap<String, Value>, ns: Option<Seq<char>>) -> Option<AvroSchema>
    decreases o, 4nat
{
    if !o@.dom().contains("values"@) { None } else {
        match rd(o@["values"@], ns) {
            Some(s) => Some(AvroSchema::Map { values: Box::new(s), properties: extra_at(o@, set!["type"@, "values"@]) }),
            None => None,
        }
    }
}
// A record: its fields are read in its own namespace.
pub open spec fn rd_record(o: JMap<String, Value>, t: Seq<char>, ns: Option<Seq<char>>) -> Option<AvroSchema>
    decreases o, 4nat
{
    let m = o@;
    match get_str(m, "name"@) {
        None => None,
        Some(raw) => if !(m.dom().contains("fields"@) && m["fields"@] is Array) { None } else {
            match rd_fields(m["fields"@]->Array_0@, m["fields"@]->Array_0@.len(), rd_ns(m, raw, ns)) {
                None => None,
                Some(fs) => Some(AvroSchema::Record {
                    name: mk_string(rd_name(raw)),
                    namespace: ostr(rd_ns(m, raw, ns)),
                    doc: ostr(get_str(m, "doc"@)),
                    fields: mk_vec(fs),
                    is_error: t == "error"@,
                    aliases: strs_at(m, "aliases"@),
                    properties: extra_at(m, set!["type"@, "name"@, "namespace"@, "doc"@, "fields"@, "aliases"@]),
                }),
            }
        },
    }
}
pub open spec fn rd_fields(js: Seq<Value>, n: nat, ns: Option<Seq<char>>) -> Option<Seq<Field>>
    decreases js, n
{
    if n == 0 || n > js.len() { Some(seq![]) }
    else {
        match (rd_fields(js, (n - 1) as nat, ns), rd_field(js[n - 1], ns)) {
            (Some(q), Some(s)) => Some(q.push(s)),
            _ => None,
        }
    }
}
pub open spec fn rd_order(o: Option<Seq<char>>) -> Option<FieldOrder> {
    match o {
        Some(s) => if s == "ascending"@ { Some(FieldOrder::Ascending) } else if s == "descending"@ { Some(FieldOrder::Descending) }
            else if s == "ignore"@ { Some(FieldOrder::Ignore) } else { None },
        None => None,
    }
}
pub open spec fn rd_field(j: Value, ns: Option<Seq<char>>) -> Option<Field>
    decreases j, 0nat
{
    match j {
        Value::Object(o) => match get_str(o@, "name"@) {
            Some(name) => if !o@.dom().contains("type"@) { None } else {
                match rd(o@["type"@], ns) {
                    Some(schema) => Some(Field {
                        name: mk_string(name),
                        schema,
                        doc: ostr(get_str(o@, "doc"@)),
                        default: if o@.dom().contains("default"@) { Some(o@["default"@]) } else { None },
                        order: rd_order(get_str(o@, "order"@)),
                        aliases: strs_at(o@, "aliases"@),
                        properties: extra_at(o@, set!["name"@, "type"@, "doc"@, "default"@, "order"@, "aliases"@]),
                    }),
                    None => None,
                }
            },
            None => None,
        },
        _ => None,
    }
}
pub open spec fn rd_message(j: Value, ns: Option<Seq<char>>) -> Option<Message> {
    match j {
        Value::Object(o) => {
            let m = o@;
            let rq = if m.dom().contains("request"@) && m["request"@] is Array { rd_fields(m["request"@]->Array_0@, m["request"@]->Array_0@.len(), ns) } else { Some(seq![]) };
            let rp = if m.dom().contains("response"@) { rd(m["response"@], ns) } else { Some(AvroSchema::Null) };
            let er = if m.dom().contains("errors"@) && m["errors"@] is Array {
                match rd_all(m["errors"@]->Array_0@, m["errors"@]->Array_0@.len(), ns) { Some(q) => Some(Some(mk_vec(q))), None => None }
            } else { Some(None) };
            match (rq, rp, er) {
                (Some(request), Some(response), Some(errors)) => Some(Message {
                    doc: ostr(get_str(m, "doc"@)),
                    properties: extra_at(m, set!["doc"@, "request"@, "response"@, "errors"@, "one-way"@]),
                    request: mk_vec(request),
                    response,
                    errors,
                    one_way: m.dom().contains("one-way"@) && m["one-way"@] == Value::Bool(true),
                }),
                _ => None,
            }
        },
        _ => None,
    }
}

proof fn lemma_rd_all_none(js: Seq<Value>, n: nat, k: nat, ns: Option<Seq<char>>)
    requires n <= k <= js.len(),
    ensures rd_all(js, n, ns) is None ==> rd_all(js, k, ns) is None,
    decreases k
{
    if n < k { lemma_rd_all_none(js, n, (k - 1) as nat, ns); }
}
proof fn lemma_rd_fields_none(js: Seq<Value>, n: nat, k: nat, ns: Option<Seq<char>>)
    requires n <= k <= js.len(),
    ensures rd_fields(js, n, ns) is None ==> rd_fields(js, k, ns) is None,
    decreases k
{
    if n < k { lemma_rd_fields_none(js, n, (k - 1) as nat, ns); }
}

pub open spec fn strset(s: Seq<&str>) -> Set<Seq<char>> { s.map_values(|k: &str| k@).to_set() }
proof fn lemma_strset(s: Seq<&str>)
    ensures forall|k: Seq<char>| strset(s).contains(k) == has_str(s, k),
{
    let q = s.map_values(|k: &str| k@);
    assert forall|k: Seq<char>| strset(s).contains(k) == has_str(s, k) by {
        if has_str(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == k; assert(q[i] == k); }
        if q.contains(k) { let i = choose|i: int| 0 <= i < q.len() && q[i] == k; assert(s[i]@ == k); }
    }
}
//@fn split_qualified_name
//@spec
    ensures
        r.0@ == rd_name(raw_name@),
        ov(r.1) == (if last_index(raw_name@, '.') < 0 { None::<Seq<char>> } else { Some(raw_name@.subrange(0, last_index(raw_name@, '.'))) }),
//@end

//@fn string_to_schema
//@spec
    ensures r == rd_string(s@, osv(default_namespace)),
//@end

//@fn extract_string_array
//@spec
    ensures r@ == (match value { Some(Value::Array(a)) => strs(a@, a@.len()), _ => seq![] }),
//@loop 0
    invariant
        __v@ == strs(arr@, it0.index() as nat),
//@loop-start 0
    proof { assert(*__x == arr@[it0.index() as int]); }
//@end

//@fn collect_extra_properties
//@opt iter obj
//@opt rename contains
//@spec
    ensures forall|known: Set<Seq<char>>| (forall|k: Seq<char>| known.contains(k) == has_str(known_keys@, k)) ==> r@ == extra(obj@, known),
//@start
    let ghost vx_known = strset(known_keys@);
    proof { lemma_strset(known_keys@); }
//@loop-before 0
    proof { assert(extra(Map::empty(), vx_known) =~= Map::empty()); }
//@loop 0
    invariant
        pre_map(it0.seq(), it0.seq().len() as int) == obj@,
        properties@ == extra(pre_map(it0.seq(), it0.index() as int), vx_known),
//@loop-start 0
    proof {
        let n = it0.index() as int;
        let m = pre_map(it0.seq(), n);
        assert(pre_map(it0.seq(), n + 1) == m.insert(k@, *v));
        if vx_known.contains(k@) { assert(extra(m.insert(k@, *v), vx_known) =~= extra(m, vx_known)); }
        else { assert(extra(m.insert(k@, *v), vx_known) =~= extra(m, vx_known).insert(k@, *v)); }
    }
//@loop-after 0
    proof {
        assert forall|known: Set<Seq<char>>| (forall|k: Seq<char>| known.contains(k) == has_str(known_keys@, k)) implies #[trigger] extra(obj@, known) == properties@ by {
            assert(known =~= vx_known);
        }
    }
//@end

//@fn primitive_from_str
//@opt result map
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == (match prim_of(name@) { Some(p) => Some(prim_schema(p)), None => None }),
//@end

//@fn str_to_primitive_type
//@opt result unwrap_or_else
//@spec
    requires prim_of(name@) is Some,
    ensures r == prim_of(name@)->0,
//@end

//@fn parse_annotated_primitive
//@spec
    requires prim_of(prim@) is Some,
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd_prim(obj@, prim_of(prim@)->0),
//@end

//@fn json_to_schema
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd(*json, osv(default_namespace)),
    decreases json, 1nat,
//@loop-before 0
    proof { assert(vstd::std_specs::vec::spec_vec_len(types) == types@.len()); }

//@loop 0
    invariant_except_break
        __r is None,

        rd_all(types@, it0.index() as nat, osv(default_namespace)) == Some(__v@),
    invariant
        it0.seq().len() == types@.len(), types@.len() <= usize::MAX,
    ensures
        __r is None ==> rd_all(types@, types@.len(), osv(default_namespace)) == Some(__v@),
        __r is Some ==> rd_all(types@, types@.len(), osv(default_namespace)) is None,
//@loop-start 0
    proof {
        assert(*__x == types@[it0.index() as int]);
        assert(decreases_to!(types@ => types@[it0.index() as int]));
        lemma_rd_all_none(types@, it0.index() as nat + 1, types@.len(), osv(default_namespace));
    }
//@end

//@fn object_to_schema
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd_obj(*obj, osv(default_namespace)),
    decreases obj, 5nat,
//@end

//@fn parse_enum
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd_enum(obj@, osv(default_namespace)),
//@end

//@fn parse_fixed
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd_fixed(obj@, osv(default_namespace)),
//@end

//@fn parse_array
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd_array(*obj, osv(default_namespace)),
    decreases obj, 4nat,
//@end

//@fn parse_map
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd_map(*obj, osv(default_namespace)),
    decreases obj, 4nat,
//@end

//@fn parse_record
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd_record(*obj, type_str@, osv(default_namespace)),
    decreases obj, 4nat,
//@loop-before 0
    proof { assert(vstd::std_specs::vec::spec_vec_len(fields_json) == fields_json@.len()); }

//@loop 0
    invariant_except_break
        __r is None,
        __i == it0.index(),
        rd_fields(fields_json@, it0.index() as nat, osv(ns_for_fields)) == Some(__v@),
    invariant
        it0.seq().len() == fields_json@.len(), fields_json@.len() <= usize::MAX,
    ensures
        __r is None ==> rd_fields(fields_json@, fields_json@.len(), osv(ns_for_fields)) == Some(__v@),
        __r is Some ==> rd_fields(fields_json@, fields_json@.len(), osv(ns_for_fields)) is None,
//@loop-start 0
    proof {
        assert(*__x == fields_json@[it0.index() as int]);
        assert(decreases_to!(fields_json@ => fields_json@[it0.index() as int]));
        lemma_rd_fields_none(fields_json@, it0.index() as nat + 1, fields_json@.len(), osv(ns_for_fields));
    }
//@end

//@fn json_to_field
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd_field(*json, osv(default_namespace)),
    decreases json, 1nat,
//@end

//@fn json_to_message
//@spec
    ensures (match r { Ok(s) => Some(s), Err(_) => None }) == rd_message(*json, osv(default_namespace)),
//@loop-before 0
    proof { assert(vstd::std_specs::vec::spec_vec_len(params) == params@.len()); }

//@loop 0
    invariant_except_break
        __r is None,
        __i == it0.index(),
        rd_fields(params@, it0.index() as nat, osv(default_namespace)) == Some(__v@),
    invariant
        it0.seq().len() == params@.len(), params@.len() <= usize::MAX,
    ensures
        __r is None ==> rd_fields(params@, params@.len(), osv(default_namespace)) == Some(__v@),
        __r is Some ==> rd_fields(params@, params@.len(), osv(default_namespace)) is None,
//@loop-start 0
    proof {
        assert(*__x == params@[it0.index() as int]);
        assert(decreases_to!(params@ => params@[it0.index() as int]));
        lemma_rd_fields_none(params@, it0.index() as nat + 1, params@.len(), osv(default_namespace));
    }

//@loop-before 1
    proof { assert(vstd::std_specs::vec::spec_vec_len(errs) == errs@.len()); }

//@loop 1
    invariant_except_break
        __r is None,
        __i == it1.index(),
        rd_all(errs@, it1.index() as nat, osv(default_namespace)) == Some(__v@),
    invariant
        it1.seq().len() == errs@.len(), errs@.len() <= usize::MAX,
    ensures
        __r is None ==> rd_all(errs@, errs@.len(), osv(default_namespace)) == Some(__v@),
        __r is Some ==> rd_all(errs@, errs@.len(), osv(default_namespace)) is None,
//@loop-start 1
    proof {
        assert(*__x == errs@[it1.index() as int]);
        assert(decreases_to!(errs@ => errs@[it1.index() as int]));
        lemma_rd_all_none(errs@, it1.index() as nat + 1, errs@.len(), osv(default_namespace));
    }
//@end

// ---------------------------------------------------------------------------
// Flattening: a schema with each nested definition replaced by a reference, and
// those definitions (themselves flattened), inner ones first.
// ---------------------------------------------------------------------------
pub open spec fn ref_to(name: String, namespace: Option<String>) -> AvroSchema {
    AvroSchema::Reference { name, namespace, properties: mk_hashmap(Map::empty()), span: None }
}
pub open spec fn fl(s: AvroSchema) -> AvroSchema
    decreases s, 0nat
{
    match s {
        AvroSchema::Record { name, namespace, .. } => ref_to(name, namespace),
        AvroSchema::Enum { name, namespace, .. } => ref_to(name, namespace),
        AvroSchema::Fixed { name, namespace, .. } => ref_to(name, namespace),
        AvroSchema::Array { items, properties } => AvroSchema::Array { items: Box::new(fl(*items)), properties },
        AvroSchema::Map { values, properties } => AvroSchema::Map { values: Box::new(fl(*values)), properties },
        AvroSchema::Union { types, is_nullable_type } => AvroSchema::Union { types: mk_vec(fl_all(types@, types@.len())), is_nullable_type },
        _ => s,
    }
}
pub open spec fn fl_all(ts: Seq<AvroSchema>, n: nat) -> Seq<AvroSchema>
    decreases ts, n
{
    if n == 0 || n > ts.len() { seq![] } else { fl_all(ts, (n - 1) as nat).push(fl(ts[n - 1])) }
}
pub open spec fn fl_field(f: Field) -> Field
    decreases f, 0nat
{
    Field { schema: fl(f.schema), ..f }
}
pub open spec fn fl_fields(fs: Seq<Field>, n: nat) -> Seq<Field>
    decreases fs, n
{
    if n == 0 || n > fs.len() { seq![] } else { fl_fields(fs, (n - 1) as nat).push(fl_field(fs[n - 1])) }
}
// The definition itself, with the definitions inside it replaced by references.
pub open spec fn fl_def(s: AvroSchema) -> AvroSchema {
    match s {
        AvroSchema::Record { name, namespace, doc, fields, is_error, aliases, properties } =>
            AvroSchema::Record { name, namespace, doc, fields: mk_vec(fl_fields(fields@, fields@.len())), is_error, aliases, properties },
        _ => s,
    }
}
pub open spec fn defs(s: AvroSchema) -> Seq<AvroSchema>
    decreases s, 0nat
{
    match s {
        AvroSchema::Record { fields, .. } => defs_fields(fields@, fields@.len()).push(fl_def(s)),
        AvroSchema::Enum { .. } => seq![s],
        AvroSchema::Fixed { .. } => seq![s],
        AvroSchema::Array { items, .. } => defs(*items),
        AvroSchema::Map { values, .. } => defs(*values),
        AvroSchema::Union { types, .. } => defs_all(types@, types@.len()),
        _ => seq![],
    }
}
pub open spec fn defs_all(ts: Seq<AvroSchema>, n: nat) -> Seq<AvroSchema>
    decreases ts, n
{
    if n == 0 || n > ts.len() { seq![] } else { defs_all(ts, (n - 1) as nat) + defs(ts[n - 1]) }
}
pub open spec fn defs_fields(fs: Seq<Field>, n: nat) -> Seq<AvroSchema>
    decreases fs, n
{
    if n == 0 || n > fs.len() { seq![] } else { defs_fields(fs, (n - 1) as nat) + defs(fs[n - 1].schema) }
}

//@fn flatten_schema_inner
//@spec
    ensures r == fl(schema), final(collected)@ == old(collected)@ + defs(schema),
    decreases schema,
//@start
    let ghost c0 = collected@;
    let ghost s0 = schema;
    proof { assert(c0 + seq![] =~= c0); }
//@loop-before 0
    let ghost fs = fields@;
//@loop 0
    invariant
        it0.seq() == fs,
        __v@ == fl_fields(fs, it0.index() as nat),
        collected@ == c0 + defs_fields(fs, it0.index() as nat),
//@loop-start 0
    proof { assert(__x == fs[it0.index() as int]); assert(decreases_to!(fs => fs[it0.index() as int])); }
//@loop-after 0
    proof { assert(collected@.push(fl_def(s0)) =~= c0 + defs(s0)); }
//@loop-before 1
    let ghost ts = types@;
//@loop 1
    invariant
        it1.seq() == ts,
        __v@ == fl_all(ts, it1.index() as nat),
        collected@ == c0 + defs_all(ts, it1.index() as nat),
//@loop-start 1
    proof { assert(__x == ts[it1.index() as int]); assert(decreases_to!(ts => ts[it1.index() as int])); }
//@end

//@fn flatten_schema
//@spec
    ensures r.0@ == defs(schema), r.1 == fl(schema),
//@end

// What flattening yields is what the emitter works on: no nested definitions.
pub proof fn lemma_fl_bare(s: AvroSchema)
    ensures bare(fl(s)), forall|i: int| 0 <= i < defs(s).len() ==> is_named(#[trigger] defs(s)[i]) && flat(defs(s)[i]),
    decreases s, 0nat
{
    match s {
        AvroSchema::Record { fields, .. } => {
            lemma_fl_bare_fields(fields@, fields@.len());
            lemma_vec_len(fields);
            let d = fl_def(s);
            assert(d->Record_fields@ == fl_fields(fields@, fields@.len()));
            assert(flat(d) && is_named(d));
            let q = defs_fields(fields@, fields@.len());
            assert(defs(s) == q.push(d));
            assert forall|i: int| 0 <= i < defs(s).len() implies is_named(#[trigger] defs(s)[i]) && flat(defs(s)[i]) by {
                if i < q.len() { assert(q.push(d)[i] == q[i]); }
            }
        }
        AvroSchema::Array { items, properties } => { lemma_fl_bare(*items); assert(defs(s) == defs(*items)); assert(fl(s) == AvroSchema::Array { items: Box::new(fl(*items)), properties }); }
        AvroSchema::Map { values, properties } => { lemma_fl_bare(*values); assert(defs(s) == defs(*values)); assert(fl(s) == AvroSchema::Map { values: Box::new(fl(*values)), properties }); }
        AvroSchema::Union { types, is_nullable_type } => {
            lemma_fl_bare_all(types@, types@.len());
            lemma_vec_len(types);
            assert(defs(s) == defs_all(types@, types@.len()));
            assert(fl(s) == AvroSchema::Union { types: mk_vec(fl_all(types@, types@.len())), is_nullable_type });
        }
        AvroSchema::Enum { .. } => { assert(defs(s) == seq![s]); assert(defs(s)[0] == s); assert(flat(s)); }
        AvroSchema::Fixed { .. } => { assert(defs(s) == seq![s]); assert(defs(s)[0] == s); assert(flat(s)); }
        _ => {}
    }
}
pub proof fn lemma_fl_bare_all(ts: Seq<AvroSchema>, n: nat)
    requires n <= ts.len(),
    ensures fl_all(ts, n).len() == n, forall|i: int| 0 <= i < n ==> bare(#[trigger] fl_all(ts, n)[i]),
        forall|i: int| 0 <= i < defs_all(ts, n).len() ==> is_named(#[trigger] defs_all(ts, n)[i]) && flat(defs_all(ts, n)[i]),
    decreases ts, n
{
    if n > 0 {
        assert(decreases_to!(ts => ts[n - 1]));
        lemma_fl_bare(ts[n - 1]);
        lemma_fl_bare_all(ts, (n - 1) as nat);
        let a = defs_all(ts, (n - 1) as nat);
        let b = defs(ts[n - 1]);
        assert forall|i: int| 0 <= i < defs_all(ts, n).len() implies is_named(#[trigger] defs_all(ts, n)[i]) && flat(defs_all(ts, n)[i]) by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
        }
    }
}
pub proof fn lemma_fl_bare_fields(ts: Seq<Field>, n: nat)
    requires n <= ts.len(),
    ensures fl_fields(ts, n).len() == n, forall|i: int| 0 <= i < n ==> bare((#[trigger] fl_fields(ts, n)[i]).schema),
        forall|i: int| 0 <= i < defs_fields(ts, n).len() ==> is_named(#[trigger] defs_fields(ts, n)[i]) && flat(defs_fields(ts, n)[i]),
    decreases ts, n
{
    if n > 0 {
        assert(decreases_to!(ts => ts[n - 1]));
        lemma_fl_bare(ts[n - 1].schema);
        lemma_fl_bare_fields(ts, (n - 1) as nat);
        let a = defs_fields(ts, (n - 1) as nat);
        let b = defs(ts[n - 1].schema);
        assert forall|i: int| 0 <= i < defs_fields(ts, n).len() implies is_named(#[trigger] defs_fields(ts, n)[i]) && flat(defs_fields(ts, n)[i]) by {
            if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
        }
    }
}

// Flattening loses nothing: where each name stands for its definition again, the
// flattened schema is the schema.
pub open spec fn stands_for(r: AvroSchema, s: AvroSchema, lk: Map<Seq<char>, AvroSchema>) -> bool
    decreases s, 0nat
{
    match s {
        AvroSchema::Record { name, namespace, doc, fields, is_error, aliases, properties } => {
            &&& r == ref_to(name, namespace)
            &&& lk.dom().contains(schema_full(s))
            &&& match lk[schema_full(s)] {
                AvroSchema::Record { name: n2, namespace: ns2, doc: d2, fields: f2, is_error: e2, aliases: a2, properties: p2 } => {
                    &&& n2 == name && ns2 == namespace && d2 == doc && e2 == is_error && a2 == aliases && p2 == properties
                    &&& f2@.len() == fields@.len()
                    &&& fields_stand_for(f2@, fields@, fields@.len(), lk)
                },
                _ => false,
            }
        },
        AvroSchema::Enum { name, namespace, .. } => r == ref_to(name, namespace) && lk.dom().contains(schema_full(s)) && lk[schema_full(s)] == s,
        AvroSchema::Fixed { name, namespace, .. } => r == ref_to(name, namespace) && lk.dom().contains(schema_full(s)) && lk[schema_full(s)] == s,
        AvroSchema::Array { items, properties } => match r { AvroSchema::Array { items: i2, properties: p2 } => p2 == properties && stands_for(*i2, *items, lk), _ => false },
        AvroSchema::Map { values, properties } => match r { AvroSchema::Map { values: i2, properties: p2 } => p2 == properties && stands_for(*i2, *values, lk), _ => false },
        AvroSchema::Union { types, is_nullable_type } => match r {
            AvroSchema::Union { types: t2, is_nullable_type: n2 } => n2 == is_nullable_type && t2@.len() == types@.len() && all_stand_for(t2@, types@, types@.len(), lk),
            _ => false,
        },
        _ => r == s,
    }
}
pub open spec fn all_stand_for(rs: Seq<AvroSchema>, ts: Seq<AvroSchema>, n: nat, lk: Map<Seq<char>, AvroSchema>) -> bool
    decreases ts, n
{
    if n == 0 || n > ts.len() { true } else { all_stand_for(rs, ts, (n - 1) as nat, lk) && stands_for(rs[n - 1], ts[n - 1], lk) }
}
pub open spec fn fields_stand_for(rs: Seq<Field>, ts: Seq<Field>, n: nat, lk: Map<Seq<char>, AvroSchema>) -> bool
    decreases ts, n
{
    if n == 0 || n > ts.len() { true } else {
        &&& fields_stand_for(rs, ts, (n - 1) as nat, lk)
        &&& stands_for(rs[n - 1].schema, ts[n - 1].schema, lk)
        &&& rs[n - 1].name == ts[n - 1].name && rs[n - 1].doc == ts[n - 1].doc && rs[n - 1].default == ts[n - 1].default
        &&& rs[n - 1].order == ts[n - 1].order && rs[n - 1].aliases == ts[n - 1].aliases && rs[n - 1].properties == ts[n - 1].properties
    }
}
pub open spec fn holds_all(lk: Map<Seq<char>, AvroSchema>, ds: Seq<AvroSchema>) -> bool {
    forall|i: int| 0 <= i < ds.len() ==> lk.dom().contains(schema_full(#[trigger] ds[i])) && lk[schema_full(ds[i])] == ds[i]
}
proof fn lemma_holds_split(lk: Map<Seq<char>, AvroSchema>, a: Seq<AvroSchema>, b: Seq<AvroSchema>)
    requires holds_all(lk, a + b),
    ensures holds_all(lk, a), holds_all(lk, b),
{
    assert forall|i: int| 0 <= i < a.len() implies lk.dom().contains(schema_full(#[trigger] a[i])) && lk[schema_full(a[i])] == a[i] by { assert((a + b)[i] == a[i]); }
    assert forall|i: int| 0 <= i < b.len() implies lk.dom().contains(schema_full(#[trigger] b[i])) && lk[schema_full(b[i])] == b[i] by { assert((a + b)[a.len() + i] == b[i]); }
}
pub proof fn lemma_fl_means(s: AvroSchema, lk: Map<Seq<char>, AvroSchema>)
    requires holds_all(lk, defs(s)),
    ensures stands_for(fl(s), s, lk),
    decreases s, 0nat
{
    match s {
        AvroSchema::Record { fields, .. } => {
            let q = defs_fields(fields@, fields@.len());
            let d = fl_def(s);
            assert(defs(s) =~= q + seq![d]);
            lemma_holds_split(lk, q, seq![d]);
            assert(seq![d][0] == d);
            lemma_fl_means_fields(fields@, fields@.len(), lk);
            lemma_fl_bare_fields(fields@, fields@.len());
            lemma_vec_len(fields);
            assert(d->Record_fields@ == fl_fields(fields@, fields@.len()));
            assert(schema_full(d) == schema_full(s));
            assert(d->Record_fields@.subrange(0, fields@.len() as int) =~= fl_fields(fields@, fields@.len()));
            assert(fields_stand_for(d->Record_fields@, fields@, fields@.len(), lk));
            assert(lk[schema_full(s)] == d);
            assert(stands_for(fl(s), s, lk));
        }
        AvroSchema::Enum { .. } => { assert(defs(s) == seq![s]); assert(defs(s)[0] == s); assert(stands_for(fl(s), s, lk)); }
        AvroSchema::Fixed { .. } => { assert(defs(s) == seq![s]); assert(defs(s)[0] == s); assert(stands_for(fl(s), s, lk)); }
        AvroSchema::Array { items, properties } => { assert(defs(s) == defs(*items)); lemma_fl_means(*items, lk); assert(stands_for(fl(s), s, lk)); }
        AvroSchema::Map { values, properties } => { assert(defs(s) == defs(*values)); lemma_fl_means(*values, lk); assert(stands_for(fl(s), s, lk)); }
        AvroSchema::Union { types, is_nullable_type } => {
            lemma_fl_means_all(types@, types@.len(), lk);
            lemma_fl_bare_all(types@, types@.len());
            lemma_vec_len(types);
            assert(fl(s) == AvroSchema::Union { types: mk_vec(fl_all(types@, types@.len())), is_nullable_type });
            assert(fl_all(types@, types@.len()).subrange(0, types@.len() as int) =~= fl_all(types@, types@.len()));
            let v = mk_vec(fl_all(types@, types@.len()));
            assert(v@ == fl_all(types@, types@.len()));
            assert(v@.len() == types@.len());
            assert(all_stand_for(v@, types@, types@.len(), lk));
            assert(stands_for(fl(s), s, lk));
        }
        _ => {}
    }
}
proof fn lemma_fl_means_all(ts: Seq<AvroSchema>, n: nat, lk: Map<Seq<char>, AvroSchema>)
    requires n <= ts.len(), holds_all(lk, defs_all(ts, n)),
    ensures forall|q: Seq<AvroSchema>| q.len() >= n && q.subrange(0, n as int) == fl_all(ts, n) ==> #[trigger] all_stand_for(q, ts, n, lk),
    decreases ts, n
{
    if n > 0 {
        assert(decreases_to!(ts => ts[n - 1]));
        lemma_holds_split(lk, defs_all(ts, (n - 1) as nat), defs(ts[n - 1]));
        lemma_fl_means(ts[n - 1], lk);
        lemma_fl_means_all(ts, (n - 1) as nat, lk);
        lemma_fl_bare_all(ts, (n - 1) as nat);
        assert forall|q: Seq<AvroSchema>| q.len() >= n && q.subrange(0, n as int) == fl_all(ts, n) implies #[trigger] all_stand_for(q, ts, n, lk) by {
            let p = fl_all(ts, (n - 1) as nat);
            assert(fl_all(ts, n) == p.push(fl(ts[n - 1])));
            assert(q.subrange(0, n - 1) =~= p) by { assert forall|i: int| 0 <= i < n - 1 implies q[i] == p[i] by { assert(q.subrange(0, n as int)[i] == q[i]); } }
            assert(q.subrange(0, n as int)[n - 1] == q[n - 1]);
            assert(all_stand_for(q, ts, (n - 1) as nat, lk));
            assert(all_stand_for(q, ts, n, lk) == (all_stand_for(q, ts, (n - 1) as nat, lk) && stands_for(q[n - 1], ts[n - 1], lk)));
        }
    }
}
proof fn lemma_fl_means_fields(ts: Seq<Field>, n: nat, lk: Map<Seq<char>, AvroSchema>)
    requires n <= ts.len(), holds_all(lk, defs_fields(ts, n)),
    ensures forall|q: Seq<Field>| q.len() >= n && q.subrange(0, n as int) == fl_fields(ts, n) ==> #[trigger] fields_stand_for(q, ts, n, lk),
    decreases ts, n
{
    if n > 0 {
        assert(decreases_to!(ts => ts[n - 1]));
        lemma_holds_split(lk, defs_fields(ts, (n - 1) as nat), defs(ts[n - 1].schema));
        lemma_fl_means(ts[n - 1].schema, lk);
        lemma_fl_means_fields(ts, (n - 1) as nat, lk);
        lemma_fl_bare_fields(ts, (n - 1) as nat);
        assert forall|q: Seq<Field>| q.len() >= n && q.subrange(0, n as int) == fl_fields(ts, n) implies #[trigger] fields_stand_for(q, ts, n, lk) by {
            let p = fl_fields(ts, (n - 1) as nat);
            assert(fl_fields(ts, n) == p.push(fl_field(ts[n - 1])));
            assert(q.subrange(0, n - 1) =~= p) by { assert forall|i: int| 0 <= i < n - 1 implies q[i] == p[i] by { assert(q.subrange(0, n as int)[i] == q[i]); } }
            assert(q.subrange(0, n as int)[n - 1] == q[n - 1]);
            assert(fields_stand_for(q, ts, (n - 1) as nat, lk));
            assert(stands_for(q[n - 1].schema, ts[n - 1].schema, lk));
            reveal_with_fuel(fields_stand_for, 2);
        }
    }
}

// ---------------------------------------------------------------------------
// Registering
// ---------------------------------------------------------------------------
pub struct RegV { pub m: Map<Seq<char>, AvroSchema>, pub o: Seq<Seq<char>> }
pub open spec fn regv(r: SchemaRegistry) -> RegV { RegV { m: r.schemas@, o: r.schemas.order() } }
// An already known name keeps its first definition; an invalid name is an error.
pub open spec fn reg_add(r: RegV, t: AvroSchema) -> Option<RegV> {
    if r.m.dom().contains(schema_full(t)) { Some(r) }
    else if valid_name((schema_name(t)->0).0) && valid_namespace((schema_name(t)->0).1) {
        Some(RegV { m: r.m.insert(schema_full(t), t), o: r.o.push(schema_full(t)) })
    } else { None }
}
pub open spec fn reg_all(r: RegV, ts: Seq<AvroSchema>, n: nat) -> Option<RegV>
    decreases n
{
    if n == 0 || n > ts.len() { Some(r) }
    else { match reg_all(r, ts, (n - 1) as nat) { Some(q) => reg_add(q, ts[n - 1]), None => None } }
}
proof fn lemma_reg_none(r: RegV, ts: Seq<AvroSchema>, n: nat, k: nat)
    requires n <= k <= ts.len(),
    ensures reg_all(r, ts, n) is None ==> reg_all(r, ts, k) is None,
    decreases k
{
    if n < k { lemma_reg_none(r, ts, n, (k - 1) as nat); }
}
pub open spec fn all_named(ts: Seq<AvroSchema>) -> bool { forall|i: int| 0 <= i < ts.len() ==> is_named(#[trigger] ts[i]) }

//@fn register_flattened
//@replace registry.lookup(&full_name) => registry.lookup(full_name.as_ref())
//@spec
    requires all_named(types@),
    ensures
        r is Ok <==> reg_all(regv(*old(registry)), types@, types@.len()) is Some,
        r is Ok ==> regv(*final(registry)) == reg_all(regv(*old(registry)), types@, types@.len())->0,
//@start
    let ghost ts = types@;
    let ghost r0 = regv(*registry);
//@loop 0
    invariant
        it0.seq() == ts,
        reg_all(r0, ts, it0.index() as nat) == Some(regv(*registry)),
//@loop-start 0
    proof {
        assert(t == ts[it0.index() as int]);
        lemma_reg_none(r0, ts, it0.index() as nat + 1, ts.len());
    }
//@end

//@fn flatten_and_register
//@spec
    ensures
        r is Ok <==> reg_all(regv(*old(registry)), defs(schema), defs(schema).len()) is Some,
        r is Ok ==> regv(*final(registry)) == reg_all(regv(*old(registry)), defs(schema), defs(schema).len())->0,
//@start
    proof { lemma_fl_bare(schema); }
//@end

// A message's own definitions: of its parameters, its response, its errors.
pub open spec fn err_list(m: Message) -> Seq<AvroSchema> { match m.errors { Some(e) => e@, None => seq![] } }
pub open spec fn msg_defs(m: Message) -> Seq<AvroSchema> {
    defs_fields(m.request@, m.request@.len()) + defs(m.response) + defs_all(err_list(m), err_list(m).len())
}
pub open spec fn msg_flattened(a: Message, b: Message) -> bool {
    &&& b.request@.len() == a.request@.len()
    &&& forall|i: int| 0 <= i < a.request@.len() ==> (#[trigger] b.request@[i]) == fl_field(a.request@[i])
    &&& b.response == fl(a.response)
    &&& b.errors is Some <==> a.errors is Some
    &&& err_list(b).len() == err_list(a).len()
    &&& forall|i: int| 0 <= i < err_list(a).len() ==> (#[trigger] err_list(b)[i]) == fl(err_list(a)[i])
    &&& b.doc == a.doc && b.one_way == a.one_way && b.properties == a.properties
}
proof fn lemma_defs_all_named(ts: Seq<AvroSchema>, fs: Seq<Field>)
    ensures all_named(defs_all(ts, ts.len())), all_named(defs_fields(fs, fs.len())),
{
    lemma_fl_bare_all(ts, ts.len());
    lemma_fl_bare_fields(fs, fs.len());
}

//@fn flatten_and_register_message
//@opt optflat
//@spec
    ensures
        msg_flattened(*old(message), *final(message)),
        r is Ok <==> reg_all(regv(*old(registry)), msg_defs(*old(message)), msg_defs(*old(message)).len()) is Some,
        r is Ok ==> regv(*final(registry)) == reg_all(regv(*old(registry)), msg_defs(*old(message)), msg_defs(*old(message)).len())->0,
//@start
    let ghost m0 = *message;
    let ghost fs = message.request@;
    let ghost es = err_list(*message);
    proof { lemma_defs_all_named(es, fs); lemma_fl_bare(m0.response); }
//@loop 0
    invariant
        it0.seq().len() == fs.len(),
        forall|i: int| 0 <= i < fs.len() ==> *(#[trigger] it0.seq()[i]) == fs[i],
        forall|i: int| 0 <= i < it0.index() ==> *final(#[trigger] it0.seq()[i]) == fl_field(fs[i]),
        types@ == defs_fields(fs, it0.index() as nat),
//@loop-after 0
    let ghost t1 = types@ + defs(m0.response);
//@loop 1
    invariant
        it1.seq().len() == es.len(),
        forall|i: int| 0 <= i < es.len() ==> *(#[trigger] it1.seq()[i]) == es[i],
        forall|i: int| 0 <= i < it1.index() ==> *final(#[trigger] it1.seq()[i]) == fl(es[i]),
        types@ == t1 + defs_all(es, it1.index() as nat),
//@before register_flattened(types
    proof { assert(types@ =~= msg_defs(m0)); }
//@end

//@type ImportContext
//@fn ImportContext::new
//@spec
    ensures r.read_locations@ == Set::<Seq<char>>::empty(), r.import_dirs == import_dirs,
//@end

//@fn ImportContext::mark_imported
//@spec
    ensures
        r == old(self).read_locations@.contains(path@),
        final(self).read_locations@ == old(self).read_locations@.insert(path@),
        final(self).import_dirs == old(self).import_dirs,
//@end

// The first existing place among the importing file's directory and the import
// directories in order.
pub open spec fn place(file: Seq<char>, dir: Seq<char>, dirs: Seq<PathBuf>, n: nat) -> Option<Seq<char>>
    decreases n
{
    if path_exists(path_join(dir, file)) { Some(path_join(dir, file)) }
    else if n == 0 || n > dirs.len() { None }
    else {
        match place(file, dir, dirs, (n - 1) as nat) {
            Some(p) => Some(p),
            None => if path_exists(path_join(dirs[n - 1]@, file)) { Some(path_join(dirs[n - 1]@, file)) } else { None },
        }
    }
}
proof fn lemma_place(file: Seq<char>, dir: Seq<char>, dirs: Seq<PathBuf>, n: nat, k: nat)
    requires n <= k <= dirs.len(),
    ensures place(file, dir, dirs, n) is Some ==> place(file, dir, dirs, k) == place(file, dir, dirs, n),
    decreases k
{
    if n < k { lemma_place(file, dir, dirs, n, (k - 1) as nat); }
}
//@fn ImportContext::resolve_import
//@opt keep join
//@spec
    ensures
        (match r { Ok(p) => Some(p@), Err(_) => None }) == (match place(import_file@, current_dir@, self.import_dirs@, self.import_dirs@.len()) {
            Some(p) => path_canon(p),
            None => None,
        }),
//@loop 0
    invariant
        place(import_file@, current_dir@, self.import_dirs@, it0.index() as nat) is None,
//@loop-start 0
    proof {
        assert(*dir == self.import_dirs@[it0.index() as int]);
        lemma_place(import_file@, current_dir@, self.import_dirs@, it0.index() as nat + 1, self.import_dirs@.len());
    }
//@end

// ---------------------------------------------------------------------------
// Whole files
// ---------------------------------------------------------------------------
//@fn parse_json_with_comments
//@opt external_body
//@replace serde_json::Error => crate::stubs::IoError
//@spec
    ensures (match r { Ok(v) => Some(v), Err(_) => None }) == json_of(input@),
//@end

pub open spec fn file_json(p: Seq<char>) -> Option<Value> {
    match file_text(p) { Some(t) => json_of(t), None => None }
}
// What an imported schema file adds to the registry (None: an error).
pub open spec fn imp_schema(r: RegV, j: Value) -> Option<RegV> {
    match rd(j, None) { Some(s) => reg_all(r, defs(s), defs(s).len()), None => None }
}
//@fn import_schema
//@spec
    ensures
        r is Ok <==> file_json(path@) is Some && imp_schema(regv(*old(registry)), file_json(path@)->0) is Some,
        r is Ok ==> regv(*final(registry)) == imp_schema(regv(*old(registry)), file_json(path@)->0)->0,
//@end

// The types of a protocol file, then the definitions inside its messages, in
// order.
pub open spec fn imp_types(r: RegV, js: Seq<Value>, n: nat, ns: Option<Seq<char>>) -> Option<RegV>
    decreases n
{
    if n == 0 || n > js.len() { Some(r) }
    else {
        match imp_types(r, js, (n - 1) as nat, ns) {
            Some(q) => match rd(js[n - 1], ns) { Some(s) => reg_all(q, defs(s), defs(s).len()), None => None },
            None => None,
        }
    }
}
proof fn lemma_imp_types_none(r: RegV, js: Seq<Value>, n: nat, k: nat, ns: Option<Seq<char>>)
    requires n <= k <= js.len(),
    ensures imp_types(r, js, n, ns) is None ==> imp_types(r, js, k, ns) is None,
    decreases k
{
    if n < k { lemma_imp_types_none(r, js, n, (k - 1) as nat, ns); }
}
pub open spec fn nth_msg(o: JMap<String, Value>, i: int, ns: Option<Seq<char>>) -> Option<Message> {
    rd_message(o@[o.korder()[i]], ns)
}
pub open spec fn imp_msgs(r: RegV, o: JMap<String, Value>, n: nat, ns: Option<Seq<char>>) -> Option<RegV>
    decreases n
{
    if n == 0 || n > o.korder().len() { Some(r) }
    else {
        match imp_msgs(r, o, (n - 1) as nat, ns) {
            Some(q) => match nth_msg(o, n - 1, ns) { Some(m) => reg_all(q, msg_defs(m), msg_defs(m).len()), None => None },
            None => None,
        }
    }
}
proof fn lemma_imp_msgs_none(r: RegV, o: JMap<String, Value>, n: nat, k: nat, ns: Option<Seq<char>>)
    requires n <= k <= o.korder().len(),
    ensures imp_msgs(r, o, n, ns) is None ==> imp_msgs(r, o, k, ns) is None,
    decreases k
{
    if n < k { lemma_imp_msgs_none(r, o, n, (k - 1) as nat, ns); }
}
pub open spec fn proto_ns(j: Value) -> Option<Seq<char>> { match j { Value::Object(o) => get_str(o@, "namespace"@), _ => None } }
pub open spec fn proto_types(j: Value) -> Seq<Value> {
    match j { Value::Object(o) => if o@.dom().contains("types"@) && o@["types"@] is Array { o@["types"@]->Array_0@ } else { seq![] }, _ => seq![] }
}
pub open spec fn proto_msgs(j: Value) -> Option<JMap<String, Value>> {
    match j { Value::Object(o) => if o@.dom().contains("messages"@) && o@["messages"@] is Object { Some(o@["messages"@]->Object_0) } else { None }, _ => None }
}
pub open spec fn imp_proto(r: RegV, j: Value) -> Option<RegV> {
    match imp_types(r, proto_types(j), proto_types(j).len(), proto_ns(j)) {
        Some(q) => match proto_msgs(j) {
            Some(o) => imp_msgs(q, o, o.korder().len(), proto_ns(j)),
            None => Some(q),
        },
        None => None,
    }
}
// The messages read are those of the file, definitions inside them replaced
// by references.
pub open spec fn msgs_read(ms: Map<Seq<char>, Message>, o: JMap<String, Value>, n: int, ns: Option<Seq<char>>) -> bool {
    &&& forall|k: Seq<char>| ms.dom().contains(k) <==> exists|i: int| 0 <= i < n && #[trigger] o.korder()[i] == k
    &&& forall|i: int| 0 <= i < n ==> msg_flattened(nth_msg(o, i, ns)->0, ms[#[trigger] o.korder()[i]])
}
//@fn import_protocol
//@opt iter msgs
//@opt loop_isolation
//@spec
    ensures
        r is Ok <==> file_json(path@) is Some && imp_proto(regv(*old(registry)), file_json(path@)->0) is Some,
        r is Ok ==> {
            let j = file_json(path@)->0;
            &&& regv(*final(registry)) == imp_proto(regv(*old(registry)), j)->0
            &&& match proto_msgs(j) {
                Some(o) => msgs_read(r->Ok_0@, o, o.korder().len() as int, proto_ns(j)),
                None => r->Ok_0@ == Map::<Seq<char>, Message>::empty(),
            }
        },
//@start
    let ghost r0 = regv(*registry);
    let ghost mut r1 = r0;
    let ghost mut jv: Value = arbitrary();
//@before let default_namespace
    proof { jv = json; }
//@loop 0
    invariant
        file_json(path@) == Some(jv), r0 == regv(*old(registry)), osv(default_namespace) == proto_ns(jv),
        it0.seq().len() == types@.len(),
        forall|i: int| 0 <= i < types@.len() ==> (#[trigger] it0.seq()[i]) == (i as usize, &types@[i]),
        types@ == proto_types(jv),
        imp_types(r0, types@, it0.index() as nat, proto_ns(jv)) == Some(regv(*registry)),
//@loop-start 0
    proof {
        assert(it0.seq()[it0.index() as int] == (it0.index() as usize, &types@[it0.index() as int]));
        lemma_imp_types_none(r0, types@, it0.index() as nat + 1, types@.len(), proto_ns(jv));
    }
//@before if let Some(msgs)
    proof { r1 = regv(*registry); }
//@loop 1
    invariant
        file_json(path@) == Some(jv), r0 == regv(*old(registry)), osv(default_namespace) == proto_ns(jv),
        it1.seq().len() == msgs.korder().len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i]).0@ == msgs.korder()[i],
        entries_of(it1.seq(), msgs@),
        proto_msgs(jv) == Some(*msgs),
        imp_types(r0, proto_types(jv), proto_types(jv).len(), proto_ns(jv)) == Some(r1),
        imp_msgs(r1, *msgs, it1.index() as nat, proto_ns(jv)) == Some(regv(*registry)),
        msgs_read(messages@, *msgs, it1.index() as int, proto_ns(jv)),
//@loop-start 1
    let ghost ms0 = messages@;
    proof {
        assert(it1.seq()[it1.index() as int].0@ == msgs.korder()[it1.index() as int]);
        lemma_imp_msgs_none(r1, *msgs, it1.index() as nat + 1, msgs.korder().len(), proto_ns(jv));
    }
//@loop-end 1
    proof {
        let n = it1.index() as int;
        assert(messages@ == ms0.insert(msgs.korder()[n], message));
        assert forall|k: Seq<char>| messages@.dom().contains(k) <==> exists|i: int| 0 <= i < n + 1 && #[trigger] msgs.korder()[i] == k by {
            if k == msgs.korder()[n] {} else if ms0.dom().contains(k) {
                let i = choose|i: int| 0 <= i < n && #[trigger] msgs.korder()[i] == k;
                assert(msgs.korder()[i] == k);
            }
        }
    }
//@end
