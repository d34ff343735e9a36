//@module json src/model/json.rs
use crate::schema::*;
use crate::protocol::*;
use crate::keys::*;
broadcast use {group_string, group_coll, group_json, axiom_jmap_decreases};
//@const COMPLEX_TYPE_NAMES
//@type SchemaLookup

// ---------------------------------------------------------------------------
// Reading names (Avro spec, "Names"): a dotted name is a full name; an undotted
// one is in the enclosing namespace. The empty namespace is the null namespace.
// ---------------------------------------------------------------------------
pub open spec fn nse(ns: Option<Seq<char>>) -> Seq<char> { match ns { Some(n) => n, None => Seq::empty() } }
pub open spec fn fulln(name: Seq<char>, ns: Seq<char>) -> Seq<char> {
    if ns.len() > 0 { ns + seq!['.'] + name } else { name }
}
pub open spec fn read_ref(t: Seq<char>, ens: Seq<char>) -> Seq<char> {
    if t.contains('.') { t } else { fulln(t, ens) }
}
pub open spec fn prim_word(t: Seq<char>) -> bool { exists|p: PrimitiveType| t == prim_name(p) }
// A name the rest of the tool only lets through where it is a plain identifier
// that is not a primitive type's name.
pub open spec fn wf_name(n: Seq<char>) -> bool { !n.contains('.') && !prim_word(n) }
// The one reference JSON cannot express: null namespace, from inside a namespace
// (known finding K4).
pub open spec fn inexpressible(ns: Seq<char>, ens: Seq<char>) -> bool { ns.len() == 0 && ens.len() > 0 }
// JSON value j, standing in namespace ens, is a reference to (ns, name).
pub open spec fn is_ref(j: Value, name: Seq<char>, ns: Seq<char>, ens: Seq<char>) -> bool {
    &&& j is String
    &&& inexpressible(ns, ens) || (read_ref(j->String_0@, ens) == fulln(name, ns) && !prim_word(j->String_0@))
}

proof fn lemma_full(name: Seq<char>, ns: Option<Seq<char>>)
    ensures full(name, ns) == fulln(name, nse(ns)), nse(ns).len() > 0 ==> full(name, ns).contains('.') && !prim_word(full(name, ns)),
{
    if nse(ns).len() > 0 {
        let f = full(name, ns);
        assert(f[nse(ns).len() as int] == '.');
        lemma_prim_words();
        assert(f.contains('.'));
    }
}

proof fn lemma_last_index(s: Seq<char>, c: char)
    ensures
        last_index(s, c) < s.len(),
        last_index(s, c) >= -1,
        last_index(s, c) >= 0 ==> s[last_index(s, c)] == c,
        forall|i: int| last_index(s, c) < i < s.len() ==> s[i] != c,
    decreases s.len()
{
    if s.len() > 0 && s.last() != c {
        lemma_last_index(s.drop_last(), c);
        let l = last_index(s.drop_last(), c);
        assert forall|i: int| l < i < s.len() implies s[i] != c by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}

pub proof fn lemma_has_str(sl: Seq<&str>, sp: Seq<Seq<char>>, x: Seq<char>)
    requires sl.len() == sp.len(), forall|i: int| 0 <= i < sl.len() ==> (#[trigger] sl[i])@ == sp[i],
    ensures has_str(sl, x) == sp.contains(x),
{
    if has_str(sl, x) {
        let i = choose|i: int| 0 <= i < sl.len() && (#[trigger] sl[i])@ == x;
        assert(sp[i] == x);
    }
    if sp.contains(x) {
        let i = choose|i: int| 0 <= i < sp.len() && (#[trigger] sp[i]) == x;
        assert(sl[i]@ == x);
    }
}

//@fn is_schema_type_name
//@opt rename contains
//@spec
    ensures r == (PRIMITIVE_TYPE_NAMES_spec().contains(name@) || COMPLEX_TYPE_NAMES_spec().contains(name@)),
//@start
    let vx_p = PRIMITIVE_TYPE_NAMES;
    let vx_c = COMPLEX_TYPE_NAMES;
    proof {
        lemma_has_str(vx_p@, PRIMITIVE_TYPE_NAMES_spec(), name@);
        lemma_has_str(vx_c@, COMPLEX_TYPE_NAMES_spec(), name@);
    }
//@end

//@fn schema_ref_name
//@spec
    ensures
        !name@.contains('.') && !inexpressible(nse(osv(namespace)), nse(osv(enclosing_namespace)))
            ==> read_ref(r@, nse(osv(enclosing_namespace))) == fulln(name@, nse(osv(namespace))),
        !prim_word(name@) ==> !prim_word(r@),
        r@ == name@ || r@ == full(name@, osv(namespace)),
//@start
    proof { lemma_full(name@, osv(namespace)); }
//@end

//@fn alias_ref_name
//@spec
    ensures
        // An alias keeps its full name when read in the schema's namespace.
        last_index(alias@, '.') > 0 ==> read_ref(r@, nse(osv(schema_namespace))) == alias@,
        last_index(alias@, '.') < 0 ==> r@ == alias@,
//@start
    proof {
        lemma_last_index(alias@, '.');
        let i = last_index(alias@, '.');
        if i > 0 {
            assert(alias@ =~= fulln(alias@.subrange(i + 1, alias@.len() as int), alias@.subrange(0, i)));
            let s = alias@.subrange(i + 1, alias@.len() as int);
            assert(!s.contains('.')) by { if s.contains('.') { let k = s.index_of('.'); assert(alias@[i + 1 + k] == '.'); } }
        }
    }
//@end

// ---------------------------------------------------------------------------
// Reading definitions
// ---------------------------------------------------------------------------
pub open spec fn str_at(m: Map<Seq<char>, Value>, k: Seq<char>, v: Seq<char>) -> bool {
    m.dom().contains(k) && m[k] is String && m[k]->String_0@ == v
}
pub open spec fn opt_str_at(m: Map<Seq<char>, Value>, k: Seq<char>, v: Option<Seq<char>>) -> bool {
    match v { Some(s) => str_at(m, k, s), None => !m.dom().contains(k) }
}
// The namespace a definition object puts its name in.
pub open spec fn read_ns(m: Map<Seq<char>, Value>, ens: Seq<char>) -> Seq<char> {
    if m.dom().contains("namespace"@) && m["namespace"@] is String { m["namespace"@]->String_0@ } else { ens }
}
// A definition header: kind, name in namespace ns, doc.
pub open spec fn is_head(m: Map<Seq<char>, Value>, kind: Seq<char>, name: Seq<char>, ns: Seq<char>, doc: Option<Seq<char>>, ens: Seq<char>) -> bool {
    &&& str_at(m, "type"@, kind)
    &&& str_at(m, "name"@, name)
    &&& (m.dom().contains("namespace"@) ==> m["namespace"@] is String)
    &&& read_ns(m, ens) == ns
    &&& opt_str_at(m, "doc"@, doc)
}
pub open spec fn head_keys() -> Set<Seq<char>> { set!["type"@, "name"@, "namespace"@, "doc"@] }
pub open spec fn strs(vs: Seq<Value>, ss: Seq<String>) -> bool {
    vs.len() == ss.len() && forall|i: int| 0 <= i < ss.len() ==> (#[trigger] vs[i]) is String && vs[i]->String_0@ == ss[i]@
}
// Aliases, read in the namespace of the type they belong to.
pub open spec fn is_alias(v: Value, a: Seq<char>, ns: Seq<char>) -> bool {
    &&& v is String
    &&& last_index(a, '.') > 0 ==> read_ref(v->String_0@, ns) == a
    &&& last_index(a, '.') < 0 ==> v->String_0@ == a
}
pub open spec fn aliases_at(m: Map<Seq<char>, Value>, aliases: Seq<String>, ns: Seq<char>) -> bool {
    if aliases.len() == 0 { !m.dom().contains("aliases"@) }
    else {
        &&& m.dom().contains("aliases"@)
        &&& m["aliases"@] is Array
        &&& m["aliases"@]->Array_0@.len() == aliases.len()
        &&& forall|i: int| 0 <= i < aliases.len() ==> is_alias(#[trigger] m["aliases"@]->Array_0@[i], aliases[i]@, ns)
    }
}
// Everything besides the structural attributes is exactly the property map.
pub open spec fn props_at(m: Map<Seq<char>, Value>, p: Map<Seq<char>, Value>, structural: Set<Seq<char>>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] p.dom().contains(k) ==> m.dom().contains(k) && m[k] == p[k]
    &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> structural.contains(k) || p.dom().contains(k)
}
pub open spec fn no_clash(p: Map<Seq<char>, Value>, structural: Set<Seq<char>>) -> bool {
    forall|k: Seq<char>| #[trigger] p.dom().contains(k) ==> !structural.contains(k)
}

//@fn named_type_preamble
//@spec
    ensures
        old(known_names)@.contains(full(name@, osv(namespace))) ==> r is Err && final(known_names)@ == old(known_names)@
            && (wf_name(name@) ==> is_ref(r->Err_0, name@, nse(osv(namespace)), nse(osv(enclosing_namespace)))),
        !old(known_names)@.contains(full(name@, osv(namespace))) ==> r is Ok
            && final(known_names)@ == old(known_names)@.insert(full(name@, osv(namespace)))
            && is_head(r->Ok_0@, type_str@, name@, nse(osv(namespace)), osv(doc), nse(osv(enclosing_namespace)))
            && (forall|k: Seq<char>| #[trigger] r->Ok_0@.dom().contains(k) ==> head_keys().contains(k)),
//@start
    proof { lemma_keys(); lemma_full(name@, osv(namespace)); }
    let ghost ns0 = nse(osv(namespace));
    let ghost ens0 = nse(osv(enclosing_namespace));
//@before Ok(obj)
    proof {
        assert(str_at(obj@, "type"@, type_str@));
        assert(str_at(obj@, "name"@, name@));
        assert(opt_str_at(obj@, "doc"@, osv(doc)));
        assert(read_ns(obj@, ens0) == ns0);
        assert(forall|k: Seq<char>| #[trigger] obj@.dom().contains(k) ==> head_keys().contains(k));
    }
//@end

//@fn finish_named_type
//@opt iter properties
//@spec
    ensures
        aliases@.len() == 0 ==> final(obj)@ == old(obj)@.union_prefer_right(properties@),
        aliases@.len() > 0 ==> final(obj)@ == old(obj)@.union_prefer_right(properties@).insert("aliases"@, final(obj)@["aliases"@])
            && aliases_at(final(obj)@, aliases@, nse(osv(namespace))),
//@loop 0
    invariant
        entries_of(it0.seq(), properties@), pre_map(it0.seq(), it0.seq().len() as int) == properties@,
        obj@ == old(obj)@.union_prefer_right(pre_map(it0.seq(), it0.index() as int)),
//@loop 1
    invariant
        obj@ == old(obj)@.union_prefer_right(properties@),
        __v@.len() == it1.index(),
        forall|i: int| 0 <= i < it1.index() ==> is_alias(#[trigger] __v@[i], aliases@[i]@, nse(osv(namespace))),
//@end

// ---------------------------------------------------------------------------
// Well-formed schemas: what the rest of the tool guarantees of the schemas it
// passes here (plain names, no property that would shadow an attribute).
// ---------------------------------------------------------------------------
pub open spec fn structural(s: AvroSchema) -> Set<Seq<char>> {
    match s {
        AvroSchema::Record { .. } => set!["type"@, "name"@, "namespace"@, "doc"@, "fields"@, "aliases"@],
        AvroSchema::Enum { .. } => set!["type"@, "name"@, "namespace"@, "doc"@, "symbols"@, "default"@, "aliases"@],
        AvroSchema::Fixed { .. } => set!["type"@, "name"@, "namespace"@, "doc"@, "size"@, "aliases"@],
        AvroSchema::Array { .. } => set!["type"@, "items"@],
        AvroSchema::Map { .. } => set!["type"@, "values"@],
        AvroSchema::Logical { logical_type, .. } =>
            if logical_type is Decimal { set!["type"@, "logicalType"@, "precision"@, "scale"@] } else { set!["type"@, "logicalType"@] },
        _ => set!["type"@],
    }
}
pub open spec fn field_keys() -> Set<Seq<char>> { set!["name"@, "type"@, "doc"@, "default"@, "order"@, "aliases"@] }
pub open spec fn message_keys() -> Set<Seq<char>> { set!["doc"@, "request"@, "response"@, "errors"@, "one-way"@] }
pub open spec fn protocol_keys() -> Set<Seq<char>> { set!["protocol"@, "namespace"@, "doc"@, "types"@, "messages"@] }
pub open spec fn wf(s: AvroSchema) -> bool
    decreases s
{
    &&& schema_name(s) is Some ==> wf_name((schema_name(s)->0).0)
    &&& props_of(s) is Some && !(s is Reference) ==> no_clash(props_of(s)->0, structural(s))
    &&& match s {
        AvroSchema::Record { fields, .. } => forall|i: int| 0 <= i < fields@.len() ==> {
            let f = #[trigger] fields@[i];
            no_clash(f.properties@, field_keys()) && wf(f.schema)
        },
        AvroSchema::Array { items, .. } => wf(*items),
        AvroSchema::Map { values, .. } => wf(*values),
        AvroSchema::Union { types, .. } => forall|i: int| 0 <= i < types@.len() ==> wf(#[trigger] types@[i]),
        _ => true,
    }
}
pub open spec fn wf_field(f: Field) -> bool { no_clash(f.properties@, field_keys()) && wf(f.schema) }
pub open spec fn wf_message(m: Message) -> bool {
    &&& no_clash(m.properties@, message_keys())
    &&& forall|i: int| 0 <= i < m.request@.len() ==> wf_field(#[trigger] m.request@[i])
    &&& wf(m.response)
    &&& m.errors is Some ==> forall|i: int| 0 <= i < m.errors->0@.len() ==> wf(#[trigger] m.errors->0@[i])
}
// A lookup table: every key is the full name of the named type it maps to.
pub open spec fn named_lk(lk: Map<Seq<char>, AvroSchema>) -> bool {
    forall|k: Seq<char>| #[trigger] lk.dom().contains(k) ==> is_named(lk[k])
}
pub open spec fn wf_lk(lk: Map<Seq<char>, AvroSchema>) -> bool {
    forall|k: Seq<char>| #[trigger] lk.dom().contains(k) ==> is_named(lk[k]) && schema_full(lk[k]) == k && wf(lk[k])
}

// ---------------------------------------------------------------------------
// The reader: JSON value j, read in namespace ens when the types in `known`
// have been defined, denotes schema s (references looked up in lk); the result
// is the set of names defined afterwards. A type in `known` may only be
// referred to, any other must be defined in full right there.
// ---------------------------------------------------------------------------
pub open spec fn read_order(m: Map<Seq<char>, Value>) -> Option<FieldOrder> {
    if !m.dom().contains("order"@) { Some(FieldOrder::Ascending) }
    else if m["order"@] is String {
        let o = m["order"@]->String_0@;
        if o == "ascending"@ { Some(FieldOrder::Ascending) }
        else if o == "descending"@ { Some(FieldOrder::Descending) }
        else if o == "ignore"@ { Some(FieldOrder::Ignore) }
        else { None }
    } else { None }
}
pub open spec fn is_uint(v: Value, n: u32) -> bool { v is Number && v->Number_0@ == NumV::PosInt(n as u64) }
pub open spec fn field_attrs(m: Map<Seq<char>, Value>, f: Field) -> bool {
    &&& str_at(m, "name"@, f.name@)
    &&& m.dom().contains("type"@)
    &&& opt_str_at(m, "doc"@, ov(f.doc))
    &&& match f.default { Some(v) => m.dom().contains("default"@) && m["default"@] == v, None => !m.dom().contains("default"@) }
    &&& read_order(m) == Some(match f.order { Some(o) => o, None => FieldOrder::Ascending })
    &&& if f.aliases@.len() == 0 { !m.dom().contains("aliases"@) } else {
            m.dom().contains("aliases"@) && m["aliases"@] is Array && strs(m["aliases"@]->Array_0@, f.aliases@) }
    &&& props_at(m, f.properties@, field_keys())
}
pub open spec fn repr(j: Value, s: AvroSchema, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>) -> Option<Set<Seq<char>>>
    decreases j, (if s is Reference { 2int } else { 1int }), 0nat
{
    let m = j->Object_0@;
    match s {
        AvroSchema::AnnotatedPrimitive { kind, properties } =>
            if j is Object && str_at(m, "type"@, prim_name(kind)) && props_at(m, properties@, structural(s)) { Some(known) } else { None },
        AvroSchema::Logical { logical_type, properties } =>
            if j is Object && str_at(m, "type"@, prim_name(logical_base(logical_type))) && str_at(m, "logicalType"@, logical_name(logical_type))
                && (logical_type is Decimal ==> m.dom().contains("precision"@) && is_uint(m["precision"@], logical_type->precision)
                    && m.dom().contains("scale"@) && is_uint(m["scale"@], logical_type->scale))
                && props_at(m, properties@, structural(s)) { Some(known) } else { None },
        AvroSchema::Array { items, properties } =>
            if j is Object && str_at(m, "type"@, "array"@) && m.dom().contains("items"@) && props_at(m, properties@, structural(s))
                { repr(m["items"@], *items, ens, known, lk) } else { None },
        AvroSchema::Map { values, properties } =>
            if j is Object && str_at(m, "type"@, "map"@) && m.dom().contains("values"@) && props_at(m, properties@, structural(s))
                { repr(m["values"@], *values, ens, known, lk) } else { None },
        AvroSchema::Union { types, .. } =>
            if j is Array && j->Array_0@.len() == types@.len() { repr_all(j->Array_0@, types@, types@.len(), ens, known, lk) } else { None },
        AvroSchema::Reference { name, namespace, .. } => {
            let f = schema_full(s);
            if known.contains(f) || !lk.dom().contains(f) || lk[f] is Reference {
                if is_ref(j, name@, nse(ov(namespace)), ens) { Some(known) } else { None }
            } else { repr(j, lk[f], ens, known, lk) }
        },
        AvroSchema::Record { name, namespace, doc, fields, is_error, aliases, properties } => {
            let ns = nse(ov(namespace));
            if known.contains(schema_full(s)) { if is_ref(j, name@, ns, ens) { Some(known) } else { None } }
            else if j is Object && is_head(m, (if is_error { "error"@ } else { "record"@ }), name@, ns, ov(doc), ens)
                && aliases_at(m, aliases@, ns) && props_at(m, properties@, structural(s))
                && m.dom().contains("fields"@) && m["fields"@] is Array && m["fields"@]->Array_0@.len() == fields@.len() {
                repr_fields(m["fields"@]->Array_0@, fields@, fields@.len(), ns, known.insert(schema_full(s)), lk)
            } else { None }
        },
        AvroSchema::Enum { name, namespace, doc, symbols, default, aliases, properties } => {
            let ns = nse(ov(namespace));
            if known.contains(schema_full(s)) { if is_ref(j, name@, ns, ens) { Some(known) } else { None } }
            else if j is Object && is_head(m, "enum"@, name@, ns, ov(doc), ens)
                && aliases_at(m, aliases@, ns) && props_at(m, properties@, structural(s))
                && m.dom().contains("symbols"@) && m["symbols"@] is Array && strs(m["symbols"@]->Array_0@, symbols@)
                && opt_str_at(m, "default"@, ov(default)) {
                Some(known.insert(schema_full(s)))
            } else { None }
        },
        AvroSchema::Fixed { name, namespace, doc, size, aliases, properties } => {
            let ns = nse(ov(namespace));
            if known.contains(schema_full(s)) { if is_ref(j, name@, ns, ens) { Some(known) } else { None } }
            else if j is Object && is_head(m, "fixed"@, name@, ns, ov(doc), ens)
                && aliases_at(m, aliases@, ns) && props_at(m, properties@, structural(s))
                && m.dom().contains("size"@) && is_uint(m["size"@], size) {
                Some(known.insert(schema_full(s)))
            } else { None }
        },
        _ => if j is String && j->String_0@ == prim_name(schema_prim(s)->0) { Some(known) } else { None },
    }
}
pub open spec fn repr_all(js: Seq<Value>, ts: Seq<AvroSchema>, n: nat, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>) -> Option<Set<Seq<char>>>
    decreases js, 0int, n
{
    if n == 0 { Some(known) } else if n > js.len() || n > ts.len() { None } else {
        match repr_all(js, ts, (n - 1) as nat, ens, known, lk) { Some(k) => repr(js[n - 1], ts[n - 1], ens, k, lk), None => None }
    }
}
pub open spec fn repr_field(j: Value, f: Field, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>) -> Option<Set<Seq<char>>>
    decreases j, 0int, 0nat
{
    if j is Object && field_attrs(j->Object_0@, f) { repr(j->Object_0@["type"@], f.schema, ens, known, lk) } else { None }
}
pub open spec fn repr_fields(js: Seq<Value>, fs: Seq<Field>, n: nat, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>) -> Option<Set<Seq<char>>>
    decreases js, 0int, n
{
    if n == 0 { Some(known) } else if n > js.len() || n > fs.len() { None } else {
        match repr_fields(js, fs, (n - 1) as nat, ens, known, lk) { Some(k) => repr_field(js[n - 1], fs[n - 1], ens, k, lk), None => None }
    }
}
proof fn lemma_all_prefix(a: Seq<Value>, b: Seq<Value>, ts: Seq<AvroSchema>, n: nat, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures repr_all(a, ts, n, ens, known, lk) == repr_all(b, ts, n, ens, known, lk),
    decreases n
{
    if n > 0 { lemma_all_prefix(a, b, ts, (n - 1) as nat, ens, known, lk); }
}
proof fn lemma_fields_prefix(a: Seq<Value>, b: Seq<Value>, fs: Seq<Field>, n: nat, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    ensures repr_fields(a, fs, n, ens, known, lk) == repr_fields(b, fs, n, ens, known, lk),
    decreases n
{
    if n > 0 { lemma_fields_prefix(a, b, fs, (n - 1) as nat, ens, known, lk); }
}
// Names still to be defined: the termination measure of emission.
pub open spec fn lk_names(lk: Map<Seq<char>, AvroSchema>) -> Set<Seq<char>> { lk.dom().map(|k: Seq<char>| schema_full(lk[k])) }
pub open spec fn todo(lk: Map<Seq<char>, AvroSchema>, known: Set<Seq<char>>) -> nat { lk_names(lk).difference(known).len() }
pub open spec fn erank(s: AvroSchema, lk: Map<Seq<char>, AvroSchema>) -> int {
    if is_named(s) && lk_names(lk).contains(schema_full(s)) { 0 } else { 1 }
}
proof fn lemma_todo(lk: Map<Seq<char>, AvroSchema>, known: Set<Seq<char>>, k2: Set<Seq<char>>)
    requires known.subset_of(k2),
    ensures todo(lk, k2) <= todo(lk, known),
        forall|x: Seq<char>| lk_names(lk).contains(x) && !known.contains(x) && k2.contains(x) ==> todo(lk, k2) < todo(lk, known),
{
    let a = lk_names(lk).difference(known);
    let b = lk_names(lk).difference(k2);
    vstd::set_lib::lemma_len_subset(b, a);
    assert forall|x: Seq<char>| lk_names(lk).contains(x) && !known.contains(x) && k2.contains(x) implies b.len() < a.len() by {
        assert(b.subset_of(a.remove(x)));
        vstd::set_lib::lemma_len_subset(b, a.remove(x));
    }
}

//@fn field_to_json
//@opt attr verifier::spinoff_prover
//@spec
    requires named_lk(lookup@),
    ensures
        old(known_names)@.subset_of(final(known_names)@),
        wf_field(*field) && wf_lk(lookup@) ==>
            repr_field(r, *field, nse(osv(enclosing_namespace)), old(known_names)@, lookup@) == Some(final(known_names)@),
    decreases todo(lookup@, old(known_names)@), erank(field.schema, lookup@), field.schema, 1int,
//@start
    proof { lemma_keys(); }
//@loop 0
    invariant
        __v@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] __v@[i]) is String && __v@[i]->String_0@ == field.aliases@[i]@,
//@loop-before 1
    let ghost ob0 = obj@;
//@loop 1
    invariant
        entries_of(it1.seq(), field.properties@), pre_map(it1.seq(), it1.seq().len() as int) == field.properties@,
        obj@ == ob0.union_prefer_right(pre_map(it1.seq(), it1.index() as int)),
//@end

//@fn schema_to_json
//@opt attr verifier::spinoff_prover
//@opt iter properties
//@spec
    requires named_lk(lookup@),
    ensures
        old(known_names)@.subset_of(final(known_names)@),
        wf(*schema) && wf_lk(lookup@) ==>
            repr(r, *schema, nse(osv(enclosing_namespace)), old(known_names)@, lookup@) == Some(final(known_names)@),
    decreases todo(lookup@, old(known_names)@), erank(*schema, lookup@), schema, 0int,
//@start
    proof { lemma_keys(); }
    let ghost ens = nse(osv(enclosing_namespace));
    let ghost k0 = known_names@;
//@loop-before 0
    let ghost ob0 = obj@;
//@loop 0
    invariant
        entries_of(it0.seq(), properties@), pre_map(it0.seq(), it0.seq().len() as int) == properties@,
        obj@ == ob0.union_prefer_right(pre_map(it0.seq(), it0.index() as int)),
//@loop-before 1
    let ghost k1 = known_names@;
//@loop 1
    invariant
        k1 == k0.insert(schema_full(*schema)),
        k1.subset_of(known_names@),
        __v@.len() == it1.index(),
        wf(*schema) && wf_lk(lookup@) ==> repr_fields(__v@, fields@, it1.index() as nat, nse(osv(ns)), k1, lookup@) == Some(known_names@),
//@loop-start 1
    proof {
        lemma_todo(lookup@, k0, known_names@);
        assert(*__x == fields@[it1.index() as int]);
        assert(decreases_to!(*schema => __x.schema));
    }
    let ghost v0 = __v@;
//@loop-end 1
    proof { lemma_fields_prefix(v0, __v@, fields@, it1.index() as nat, nse(osv(ns)), k1, lookup@); }
//@loop 2
    invariant
        __v@.len() == it2.index(),
        forall|i: int| 0 <= i < it2.index() ==> (#[trigger] __v@[i]) is String && __v@[i]->String_0@ == symbols@[i]@,
//@loop-before 3
    let ghost ob0 = obj@;
//@loop 3
    invariant
        entries_of(it3.seq(), properties@), pre_map(it3.seq(), it3.seq().len() as int) == properties@,
        obj@ == ob0.union_prefer_right(pre_map(it3.seq(), it3.index() as int)),
//@loop-before 4
    let ghost ob0 = obj@;
//@loop 4
    invariant
        entries_of(it4.seq(), properties@), pre_map(it4.seq(), it4.seq().len() as int) == properties@,
        obj@ == ob0.union_prefer_right(pre_map(it4.seq(), it4.index() as int)),
//@loop 5
    invariant
        k0.subset_of(known_names@),
        __v@.len() == it5.index(),
        wf(*schema) && wf_lk(lookup@) ==> repr_all(__v@, types@, it5.index() as nat, ens, k0, lookup@) == Some(known_names@),
//@loop-start 5
    proof {
        lemma_todo(lookup@, k0, known_names@);
        assert(*__x == types@[it5.index() as int]);
        assert(decreases_to!(*schema => *__x));
    }
    let ghost v0 = __v@;
//@loop-end 5
    proof { lemma_all_prefix(v0, __v@, types@, it5.index() as nat, ens, k0, lookup@); }
//@loop-before 6
    let ghost ob0 = obj@;
//@loop 6
    invariant
        entries_of(it6.seq(), properties@), pre_map(it6.seq(), it6.seq().len() as int) == properties@,
        obj@ == ob0.union_prefer_right(pre_map(it6.seq(), it6.index() as int)),
//@end

// ---------------------------------------------------------------------------
// Messages
// ---------------------------------------------------------------------------
pub open spec fn message_attrs(m: Map<Seq<char>, Value>, msg: Message) -> bool {
    &&& opt_str_at(m, "doc"@, ov(msg.doc))
    &&& m.dom().contains("request"@) && m["request"@] is Array && m["request"@]->Array_0@.len() == msg.request@.len()
    &&& m.dom().contains("response"@)
    &&& match msg.errors {
            Some(e) => m.dom().contains("errors"@) && m["errors"@] is Array && m["errors"@]->Array_0@.len() == e@.len(),
            None => !m.dom().contains("errors"@),
        }
    &&& if msg.one_way { m.dom().contains("one-way"@) && m["one-way"@] == Value::Bool(true) } else { !m.dom().contains("one-way"@) }
    &&& props_at(m, msg.properties@, message_keys())
}
// A message is read request first, then response, then errors.
pub open spec fn repr_message(j: Value, msg: Message, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>) -> Option<Set<Seq<char>>> {
    let m = j->Object_0@;
    if j is Object && message_attrs(m, msg) {
        match repr_fields(m["request"@]->Array_0@, msg.request@, msg.request@.len(), ens, known, lk) {
            Some(k1) => match repr(m["response"@], msg.response, ens, k1, lk) {
                Some(k2) => match msg.errors {
                    Some(e) => repr_all(m["errors"@]->Array_0@, e@, e@.len(), ens, k2, lk),
                    None => Some(k2),
                },
                None => None,
            },
            None => None,
        }
    } else { None }
}

//@fn message_to_json
//@spec
    requires named_lk(lookup@),
    ensures
        old(known_names)@.subset_of(final(known_names)@),
        wf_message(*msg) && wf_lk(lookup@) ==>
            repr_message(r, *msg, nse(osv(enclosing_namespace)), old(known_names)@, lookup@) == Some(final(known_names)@),
//@start
    proof { lemma_keys(); }
    let ghost ens = nse(osv(enclosing_namespace));
    let ghost k0 = known_names@;
//@loop-before 0
    let ghost ob0 = obj@;
//@loop 0
    invariant
        entries_of(it0.seq(), msg.properties@), pre_map(it0.seq(), it0.seq().len() as int) == msg.properties@,
        obj@ == ob0.union_prefer_right(pre_map(it0.seq(), it0.index() as int)),
//@loop 1
    invariant
        k0.subset_of(known_names@),
        __v@.len() == it1.index(),
        wf_message(*msg) && wf_lk(lookup@) ==> repr_fields(__v@, msg.request@, it1.index() as nat, ens, k0, lookup@) == Some(known_names@),
//@loop-start 1
    proof { assert(*__x == msg.request@[it1.index() as int]); }
    let ghost v0 = __v@;
//@loop-end 1
    proof { lemma_fields_prefix(v0, __v@, msg.request@, it1.index() as nat, ens, k0, lookup@); }
//@loop-before 2
    let ghost k2 = known_names@;
//@loop 2
    invariant
        k2.subset_of(known_names@),
        __v@.len() == it2.index(),
        wf_message(*msg) && wf_lk(lookup@) ==> repr_all(__v@, errors@, it2.index() as nat, ens, k2, lookup@) == Some(known_names@),
//@loop-start 2
    proof { assert(*__x == errors@[it2.index() as int]); }
    let ghost v0 = __v@;
//@loop-end 2
    proof { lemma_all_prefix(v0, __v@, errors@, it2.index() as nat, ens, k2, lookup@); }
//@end

// ---------------------------------------------------------------------------
// Lookup tables
// ---------------------------------------------------------------------------
// No named type is defined inside s.
pub open spec fn bare(s: AvroSchema) -> bool
    decreases s
{
    match s {
        AvroSchema::Record { .. } | AvroSchema::Enum { .. } | AvroSchema::Fixed { .. } => false,
        AvroSchema::Array { items, .. } => bare(*items),
        AvroSchema::Map { values, .. } => bare(*values),
        AvroSchema::Union { types, .. } => forall|i: int| 0 <= i < types@.len() ==> bare(#[trigger] types@[i]),
        _ => true,
    }
}
// ... except s itself.
pub open spec fn flat(s: AvroSchema) -> bool {
    match s {
        AvroSchema::Record { fields, .. } => forall|i: int| 0 <= i < fields@.len() ==> bare((#[trigger] fields@[i]).schema),
        AvroSchema::Enum { .. } | AvroSchema::Fixed { .. } => true,
        _ => bare(s),
    }
}
pub open spec fn ns_or(a: Option<Seq<char>>, b: Option<Seq<char>>) -> Option<Seq<char>> { if a is Some { a } else { b } }
pub open spec fn lk_add(lk: Map<Seq<char>, AvroSchema>, s: AvroSchema, default: Option<Seq<char>>) -> Map<Seq<char>, AvroSchema> {
    if is_named(s) { lk.insert(full((schema_name(s)->0).0, ns_or((schema_name(s)->0).1, default)), s) } else { lk }
}
pub open spec fn lk_of(ts: Seq<AvroSchema>, n: nat, default: Option<Seq<char>>) -> Map<Seq<char>, AvroSchema>
    decreases n
{
    if n == 0 || n > ts.len() { Map::empty() } else { lk_add(lk_of(ts, (n - 1) as nat, default), ts[n - 1], default) }
}

//@fn collect_named_types
//@opt iter fields
//@opt iter types
//@spec
    ensures
        named_lk(old(lookup)@) ==> named_lk(final(lookup)@),
        old(lookup)@.dom().subset_of(final(lookup)@.dom()),
        is_named(*schema) ==> final(lookup)@.dom().contains(full((schema_name(*schema)->0).0, ns_or((schema_name(*schema)->0).1, osv(default_namespace)))),
        flat(*schema) ==> final(lookup)@ == lk_add(old(lookup)@, *schema, osv(default_namespace)),
    decreases schema,
//@loop-before 0
    let ghost l1 = lookup@;
//@loop 0
    invariant
        named_lk(old(lookup)@) ==> named_lk(lookup@),
        l1.dom().subset_of(lookup@.dom()),
        flat(*schema) ==> lookup@ == l1,
//@loop-start 0
    proof { assert(*field == fields@[it0.index() as int]); assert(bare(field.schema) ==> flat(field.schema) && !is_named(field.schema)); }
//@loop 1
    invariant
        named_lk(old(lookup)@) ==> named_lk(lookup@),
        old(lookup)@.dom().subset_of(lookup@.dom()),
        flat(*schema) ==> lookup@ == old(lookup)@,
//@loop-start 1
    proof { assert(*t == types@[it1.index() as int]); assert(flat(*schema) ==> bare(*t)); assert(bare(*t) ==> flat(*t) && !is_named(*t)); }
//@start
    proof {
        match schema {
            AvroSchema::Array { items, .. } => { assert(flat(*schema) ==> bare(**items)); assert(bare(**items) ==> flat(**items) && !is_named(**items)); }
            AvroSchema::Map { values, .. } => { assert(flat(*schema) ==> bare(**values)); assert(bare(**values) ==> flat(**values) && !is_named(**values)); }
            _ => {}
        }
    }
//@end

//@fn build_lookup
//@opt iter types
//@spec
    ensures
        named_lk(r@),
        forall|i: int| 0 <= i < types@.len() && is_named(types@[i]) ==>
            r@.dom().contains(full((schema_name(#[trigger] types@[i])->0).0, ns_or((schema_name(types@[i])->0).1, osv(default_namespace)))),
        (forall|i: int| 0 <= i < types@.len() ==> flat(#[trigger] types@[i])) ==> r@ == lk_of(types@, types@.len(), osv(default_namespace)),
//@loop 0
    invariant
        named_lk(lookup@),
        forall|i: int| 0 <= i < it0.index() && is_named(types@[i]) ==>
            lookup@.dom().contains(full((schema_name(#[trigger] types@[i])->0).0, ns_or((schema_name(types@[i])->0).1, osv(default_namespace)))),
        (forall|i: int| 0 <= i < types@.len() ==> flat(#[trigger] types@[i])) ==> lookup@ == lk_of(types@, it0.index() as nat, osv(default_namespace)),
//@end

// The lookup of a list of flat, well-formed types with distinct names.
pub open spec fn distinct(ts: Seq<AvroSchema>) -> bool {
    forall|i: int, j: int| 0 <= i < j < ts.len() ==> schema_full(#[trigger] ts[i]) != schema_full(#[trigger] ts[j])
}
pub open spec fn wf_types(ts: Seq<AvroSchema>) -> bool {
    forall|i: int| 0 <= i < ts.len() ==> is_named(#[trigger] ts[i]) && flat(ts[i]) && wf(ts[i])
}
pub proof fn lemma_lk(ts: Seq<AvroSchema>, n: nat)
    requires wf_types(ts), n <= ts.len(),
    ensures
        wf_lk(lk_of(ts, n, None)),
        forall|i: int| 0 <= i < n ==> lk_of(ts, n, None).dom().contains(schema_full(#[trigger] ts[i])),
        forall|k: Seq<char>| #[trigger] lk_of(ts, n, None).dom().contains(k) ==> exists|i: int| 0 <= i < n && schema_full(#[trigger] ts[i]) == k,
        distinct(ts) ==> forall|i: int| 0 <= i < n ==> lk_of(ts, n, None)[schema_full(#[trigger] ts[i])] == ts[i],
    decreases n
{
    if n > 0 {
        lemma_lk(ts, (n - 1) as nat);
        let t = ts[n - 1];
        assert(lk_of(ts, n, None) == lk_of(ts, (n - 1) as nat, None).insert(schema_full(t), t));
    }
}

// Reading a schema only adds definitions, and a named type is defined afterwards.
proof fn lemma_mono(j: Value, s: AvroSchema, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>)
    ensures
        repr(j, s, ens, known, lk) is Some ==> known.subset_of(repr(j, s, ens, known, lk)->0)
            && (is_named(s) ==> repr(j, s, ens, known, lk)->0.contains(schema_full(s)))
            && (is_named(s) ==> (j is String <==> known.contains(schema_full(s)))),
    decreases j, (if s is Reference { 2int } else { 1int }), 0nat
{
    match s {
        AvroSchema::Record { fields, namespace, .. } => {
            if !known.contains(schema_full(s)) && j is Object && j->Object_0@.dom().contains("fields"@) && j->Object_0@["fields"@] is Array
                && j->Object_0@["fields"@]->Array_0@.len() == fields@.len() {
                lemma_mono_fields(j->Object_0@["fields"@]->Array_0@, fields@, fields@.len(), nse(ov(namespace)), known.insert(schema_full(s)), lk);
            }
        }
        AvroSchema::Array { items, .. } => if j is Object && j->Object_0@.dom().contains("items"@) { lemma_mono(j->Object_0@["items"@], *items, ens, known, lk); },
        AvroSchema::Map { values, .. } => if j is Object && j->Object_0@.dom().contains("values"@) { lemma_mono(j->Object_0@["values"@], *values, ens, known, lk); },
        AvroSchema::Union { types, .. } => if j is Array { lemma_mono_all(j->Array_0@, types@, types@.len(), ens, known, lk); },
        AvroSchema::Reference { .. } => {
            let f = schema_full(s);
            if known.contains(f) || !lk.dom().contains(f) || lk[f] is Reference {} else { lemma_mono(j, lk[f], ens, known, lk); }
        },
        _ => {}
    }
}
proof fn lemma_mono_all(js: Seq<Value>, ts: Seq<AvroSchema>, n: nat, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>)
    ensures repr_all(js, ts, n, ens, known, lk) is Some ==> known.subset_of(repr_all(js, ts, n, ens, known, lk)->0),
    decreases js, 0int, n
{
    if n == 0 || n > js.len() || n > ts.len() {} else {
        lemma_mono_all(js, ts, (n - 1) as nat, ens, known, lk);
        match repr_all(js, ts, (n - 1) as nat, ens, known, lk) { Some(k) => lemma_mono(js[n - 1], ts[n - 1], ens, k, lk), None => {} }
    }
}
proof fn lemma_mono_fields(js: Seq<Value>, fs: Seq<Field>, n: nat, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>)
    ensures repr_fields(js, fs, n, ens, known, lk) is Some ==> known.subset_of(repr_fields(js, fs, n, ens, known, lk)->0),
    decreases js, 0int, n
{
    if n == 0 || n > js.len() || n > fs.len() {} else {
        lemma_mono_fields(js, fs, (n - 1) as nat, ens, known, lk);
        match repr_fields(js, fs, (n - 1) as nat, ens, known, lk) {
            Some(k) => { let j = js[n - 1]; if j is Object && field_attrs(j->Object_0@, fs[n - 1]) { lemma_mono(j->Object_0@["type"@], fs[n - 1].schema, ens, k, lk); }
                assert(repr_field(j, fs[n - 1], ens, k, lk) is Some ==> k.subset_of(repr_field(j, fs[n - 1], ens, k, lk)->0)); },
            None => {} }
    }
}

// Every name mentioned in s is in `names`.
pub open spec fn closed(s: AvroSchema, names: Set<Seq<char>>) -> bool
    decreases s
{
    match s {
        AvroSchema::Reference { .. } => names.contains(schema_full(s)),
        AvroSchema::Record { fields, .. } => names.contains(schema_full(s)) && forall|i: int| 0 <= i < fields@.len() ==> closed((#[trigger] fields@[i]).schema, names),
        AvroSchema::Enum { .. } | AvroSchema::Fixed { .. } => names.contains(schema_full(s)),
        AvroSchema::Array { items, .. } => closed(*items, names),
        AvroSchema::Map { values, .. } => closed(*values, names),
        AvroSchema::Union { types, .. } => forall|i: int| 0 <= i < types@.len() ==> closed(#[trigger] types@[i], names),
        _ => true,
    }
}
pub open spec fn closed_message(m: Message, names: Set<Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < m.request@.len() ==> closed((#[trigger] m.request@[i]).schema, names)
    &&& closed(m.response, names)
    &&& m.errors is Some ==> forall|i: int| 0 <= i < m.errors->0@.len() ==> closed(#[trigger] m.errors->0@[i], names)
}
// Where everything is defined already, nothing is defined again.
proof fn lemma_closed(j: Value, s: AvroSchema, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>, names: Set<Seq<char>>)
    requires closed(s, names), names.subset_of(known),
    ensures repr(j, s, ens, known, lk) is Some ==> repr(j, s, ens, known, lk)->0 == known,
    decreases s
{
    match s {
        AvroSchema::Array { items, .. } => if j is Object && j->Object_0@.dom().contains("items"@) { lemma_closed(j->Object_0@["items"@], *items, ens, known, lk, names); },
        AvroSchema::Map { values, .. } => if j is Object && j->Object_0@.dom().contains("values"@) { lemma_closed(j->Object_0@["values"@], *values, ens, known, lk, names); },
        AvroSchema::Union { types, .. } => if j is Array && j->Array_0@.len() == types@.len() {
            assert forall|i: int, x: Value| 0 <= i < types@.len() && (#[trigger] repr(x, types@[i], ens, known, lk)) is Some
                implies repr(x, types@[i], ens, known, lk)->0 == known by { lemma_closed(x, types@[i], ens, known, lk, names); }
            lemma_closed_all(j->Array_0@, types@, types@.len(), ens, known, lk);
        },
        _ => {}
    }
}
proof fn lemma_closed_all(js: Seq<Value>, ts: Seq<AvroSchema>, n: nat, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>)
    requires forall|i: int, x: Value| 0 <= i < ts.len() && (#[trigger] repr(x, ts[i], ens, known, lk)) is Some ==> repr(x, ts[i], ens, known, lk)->0 == known,
    ensures repr_all(js, ts, n, ens, known, lk) is Some ==> repr_all(js, ts, n, ens, known, lk)->0 == known,
    decreases n
{
    if n == 0 || n > js.len() || n > ts.len() {} else {
        lemma_closed_all(js, ts, (n - 1) as nat, ens, known, lk);
        assert(repr(js[n - 1], ts[n - 1], ens, known, lk) is Some ==> repr(js[n - 1], ts[n - 1], ens, known, lk)->0 == known);
    }
}
proof fn lemma_closed_fields(js: Seq<Value>, fs: Seq<Field>, n: nat, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>, names: Set<Seq<char>>)
    requires names.subset_of(known), forall|i: int| 0 <= i < fs.len() ==> closed((#[trigger] fs[i]).schema, names),
    ensures repr_fields(js, fs, n, ens, known, lk) is Some ==> repr_fields(js, fs, n, ens, known, lk)->0 == known,
    decreases n
{
    if n == 0 || n > js.len() || n > fs.len() {} else {
        lemma_closed_fields(js, fs, (n - 1) as nat, ens, known, lk, names);
        let j = js[n - 1];
        if j is Object && field_attrs(j->Object_0@, fs[n - 1]) { lemma_closed(j->Object_0@["type"@], fs[n - 1].schema, ens, known, lk, names); }
        assert(repr_field(j, fs[n - 1], ens, known, lk) is Some ==> repr_field(j, fs[n - 1], ens, known, lk)->0 == known);
    }
}
proof fn lemma_closed_message(j: Value, m: Message, ens: Seq<char>, known: Set<Seq<char>>, lk: Map<Seq<char>, AvroSchema>, names: Set<Seq<char>>)
    requires closed_message(m, names), names.subset_of(known),
    ensures repr_message(j, m, ens, known, lk) is Some ==> repr_message(j, m, ens, known, lk)->0 == known,
{
    let o = j->Object_0@;
    lemma_closed_fields(o["request"@]->Array_0@, m.request@, m.request@.len(), ens, known, lk, names);
    lemma_closed(o["response"@], m.response, ens, known, lk, names);
    if m.errors is Some {
        let e = m.errors->0@;
        assert forall|i: int, x: Value| 0 <= i < e.len() && (#[trigger] repr(x, e[i], ens, known, lk)) is Some implies repr(x, e[i], ens, known, lk)->0 == known by {
            lemma_closed(x, e[i], ens, known, lk, names);
        }
        lemma_closed_all(o["errors"@]->Array_0@, e, e.len(), ens, known, lk);
    }
}

// ---------------------------------------------------------------------------
// Protocols: the types in order, those already defined by an earlier one left
// out; the result counts the values read.
// ---------------------------------------------------------------------------
pub open spec fn repr_types(vs: Seq<Value>, ts: Seq<AvroSchema>, n: nat, ens: Seq<char>, lk: Map<Seq<char>, AvroSchema>) -> Option<(Set<Seq<char>>, nat)>
    decreases n
{
    if n == 0 { Some((Set::empty(), 0nat)) } else if n > ts.len() { None } else {
        match repr_types(vs, ts, (n - 1) as nat, ens, lk) {
            Some((k, c)) => if k.contains(schema_full(ts[n - 1])) { Some((k, c)) }
                else if c >= vs.len() { None }
                else { match repr(vs[c as int], ts[n - 1], ens, k, lk) { Some(k2) => Some((k2, c + 1)), None => None } },
            None => None,
        }
    }
}
proof fn lemma_types_prefix(a: Seq<Value>, b: Seq<Value>, ts: Seq<AvroSchema>, n: nat, ens: Seq<char>, lk: Map<Seq<char>, AvroSchema>)
    requires a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i], repr_types(a, ts, n, ens, lk) is Some,
    ensures repr_types(b, ts, n, ens, lk) == repr_types(a, ts, n, ens, lk),
    decreases n
{
    if n > 0 { lemma_types_prefix(a, b, ts, (n - 1) as nat, ens, lk); }
}
pub open spec fn type_names(ts: Seq<AvroSchema>) -> Set<Seq<char>> { ts.map_values(|t: AvroSchema| schema_full(t)).to_set() }
pub open spec fn wf_protocol(p: Protocol) -> bool {
    &&& wf_types(p.types@)
    &&& no_clash(p.properties@, protocol_keys())
    &&& forall|k: Seq<char>| #[trigger] p.messages@.dom().contains(k) ==> wf_message(p.messages@[k])
}
pub open spec fn protocol_attrs(m: Map<Seq<char>, Value>, p: Protocol) -> bool {
    &&& str_at(m, "protocol"@, p.name@)
    &&& (m.dom().contains("namespace"@) ==> m["namespace"@] is String)
    &&& read_ns(m, Seq::empty()) == nse(ov(p.namespace))
    &&& opt_str_at(m, "doc"@, ov(p.doc))
    &&& props_at(m, p.properties@, protocol_keys())
    &&& m.dom().contains("types"@) && m["types"@] is Array
    &&& m.dom().contains("messages"@) && m["messages"@] is Object
    &&& m["messages"@]->Object_0@.dom() == p.messages@.dom()
}

// What a protocol's JSON says.
pub open spec fn proto_written(r: Value, protocol: Protocol) -> bool {
    &&& r is Object
    &&& no_clash(protocol.properties@, protocol_keys()) ==> protocol_attrs(r->Object_0@, protocol)
    &&& wf_protocol(protocol) ==> ({
            let m = r->Object_0@;
            let ens = nse(ov(protocol.namespace));
            let lk = lk_of(protocol.types@, protocol.types@.len(), None);
            let vs = m["types"@]->Array_0@;
            &&& repr_types(vs, protocol.types@, protocol.types@.len(), ens, lk) is Some
            &&& ({
                let (known, used) = repr_types(vs, protocol.types@, protocol.types@.len(), ens, lk)->0;
                &&& used == vs.len()
                &&& (forall|i: int| 0 <= i < protocol.types@.len() ==> known.contains(schema_full(#[trigger] protocol.types@[i])))
                // Messages that mention only declared types define nothing, in whatever order they are read.
                &&& ((forall|k: Seq<char>| #[trigger] protocol.messages@.dom().contains(k) ==> closed_message(protocol.messages@[k], type_names(protocol.types@))) ==>
                    forall|k: Seq<char>| #[trigger] protocol.messages@.dom().contains(k) ==>
                        repr_message(m["messages"@]->Object_0@[k], protocol.messages@[k], ens, known, lk) == Some(known))
            })
        })
}
//@fn protocol_to_json
//@opt attr verifier::spinoff_prover
//@spec
    ensures proto_written(r, *protocol),
//@start
    proof { lemma_keys(); if wf_types(protocol.types@) { lemma_lk(protocol.types@, protocol.types@.len()); } }
    let ghost ens = nse(ov(protocol.namespace));
    let ghost lk = lk_of(protocol.types@, protocol.types@.len(), None);
    let ghost ts = protocol.types@;
//@loop-before 0
    let ghost ob0 = obj@;
    proof { assert(nse(ov(protocol.namespace)).len() == 0 ==> nse(ov(protocol.namespace)) =~= Seq::empty()); }
//@loop 0
    invariant
        entries_of(it0.seq(), protocol.properties@), pre_map(it0.seq(), it0.seq().len() as int) == protocol.properties@,
        obj@ == ob0.union_prefer_right(pre_map(it0.seq(), it0.index() as int)),
//@loop 1
    invariant
        named_lk(lookup@),
        wf_types(ts) ==> lookup@ == lk,
        wf_types(ts) ==> repr_types(__v@, ts, it1.index() as nat, ens, lk) == Some((known_names@, __v@.len())),
        wf_types(ts) ==> forall|i: int| 0 <= i < it1.index() ==> known_names@.contains(schema_full(#[trigger] ts[i])),
//@loop-start 1
    let ghost v0 = __v@;
    let ghost kn0 = known_names@;
    proof { assert(*__x == ts[it1.index() as int]); }
//@loop-end 1
    proof {
        if wf_types(ts) {
            let t = ts[it1.index() as int];
            let last = if __v@.len() > v0.len() { __v@.last() } else { __y0_ };
            lemma_mono(last, t, ens, kn0, lk);
            lemma_types_prefix(v0, __v@, ts, it1.index() as nat, ens, lk);
        }
    }
//@loop-before 2
    let ghost kn = known_names@;
    let ghost wfp = wf_protocol(*protocol);
    let ghost cl = forall|k: Seq<char>| #[trigger] protocol.messages@.dom().contains(k) ==> closed_message(protocol.messages@[k], type_names(ts));
    proof {
        if wf_types(ts) {
            assert(type_names(ts).subset_of(kn)) by {
                assert forall|x: Seq<char>| type_names(ts).contains(x) implies kn.contains(x) by {
                    let q = ts.map_values(|t: AvroSchema| schema_full(t));
                    let i = choose|i: int| 0 <= i < q.len() && q[i] == x;
                    assert(schema_full(ts[i]) == x);
                }
            }
        }
    }
//@loop 2
    invariant
        named_lk(lookup@),
        entries_of(it2.seq(), protocol.messages@),
        wf_types(ts) ==> lookup@ == lk,
        forall|i: int| 0 <= i < it2.index() ==> messages_obj@.dom().contains((#[trigger] it2.seq()[i]).0@),
        forall|k: Seq<char>| #[trigger] messages_obj@.dom().contains(k) ==> protocol.messages@.dom().contains(k),
        cl && wfp ==> known_names@ == kn,
        cl && wfp ==> forall|i: int| 0 <= i < it2.index() ==>
            repr_message(messages_obj@[(#[trigger] it2.seq()[i]).0@], *it2.seq()[i].1, ens, kn, lk) == Some(kn),
//@loop-start 2
    let ghost mo0 = messages_obj@;
    proof { assert(protocol.messages@.dom().contains(it2.seq()[it2.index() as int].0@)); }
//@loop-end 2
    proof {
        let i = it2.index() as int;
        assert(it2.seq()[i].0@ == name@ && *it2.seq()[i].1 == *msg);
        if cl && wfp {
            lemma_closed_message(messages_obj@[name@], *msg, ens, kn, lk, type_names(ts));
            assert(repr_message(messages_obj@[name@], *msg, ens, kn, lk) == Some(kn));
        }
    }
//@loop-after 2
    proof {
        assert(messages_obj@.dom() =~= protocol.messages@.dom()) by {
            assert forall|k: Seq<char>| protocol.messages@.dom().contains(k) implies messages_obj@.dom().contains(k) by {}
        }
    }
//@end
