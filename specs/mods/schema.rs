//@module schema src/model/schema.rs
use crate::json::{flat, bare};
use crate::error::SpanWithSource;
broadcast use {group_string, group_coll, group_json, axiom_vec_ext, axiom_mk_vec};

//@const PRIMITIVE_TYPE_NAMES
//@type FieldOrder
//@type PrimitiveType
//@type ParsePrimitiveTypeError
//@type LogicalType
//@type AvroSchema
//@type Field

// ---------------------------------------------------------------------------
// Full names (Avro spec, "Names")
// ---------------------------------------------------------------------------
pub open spec fn full(name: Seq<char>, ns: Option<Seq<char>>) -> Seq<char> {
    match ns {
        Some(n) => if n.len() > 0 { n + seq!['.'] + name } else { name },
        None => name,
    }
}

//@fn make_full_name
//@spec
    ensures r@ == full(name@, osv(namespace)),
//@start
    proof { reveal_strlit("."); }
//@end

//@fn split_full_name
//@spec
    ensures
        last_index(full_name@, '.') < 0 ==> r.0@ == full_name@ && r.1 is None,
        last_index(full_name@, '.') >= 0 ==> r.1 is Some
            && r.1->0@ == full_name@.subrange(0, last_index(full_name@, '.'))
            && r.0@ == full_name@.subrange(last_index(full_name@, '.') + 1, full_name@.len() as int),
//@end

pub open spec fn prim_name(p: PrimitiveType) -> Seq<char> {
    match p {
        PrimitiveType::Null => "null"@,
        PrimitiveType::Boolean => "boolean"@,
        PrimitiveType::Int => "int"@,
        PrimitiveType::Long => "long"@,
        PrimitiveType::Float => "float"@,
        PrimitiveType::Double => "double"@,
        PrimitiveType::Bytes => "bytes"@,
        PrimitiveType::String => "string"@,
    }
}
pub open spec fn prim_schema(p: PrimitiveType) -> AvroSchema {
    match p {
        PrimitiveType::Null => AvroSchema::Null,
        PrimitiveType::Boolean => AvroSchema::Boolean,
        PrimitiveType::Int => AvroSchema::Int,
        PrimitiveType::Long => AvroSchema::Long,
        PrimitiveType::Float => AvroSchema::Float,
        PrimitiveType::Double => AvroSchema::Double,
        PrimitiveType::Bytes => AvroSchema::Bytes,
        PrimitiveType::String => AvroSchema::String,
    }
}
pub open spec fn schema_prim(s: AvroSchema) -> Option<PrimitiveType> {
    match s {
        AvroSchema::Null => Some(PrimitiveType::Null),
        AvroSchema::Boolean => Some(PrimitiveType::Boolean),
        AvroSchema::Int => Some(PrimitiveType::Int),
        AvroSchema::Long => Some(PrimitiveType::Long),
        AvroSchema::Float => Some(PrimitiveType::Float),
        AvroSchema::Double => Some(PrimitiveType::Double),
        AvroSchema::Bytes => Some(PrimitiveType::Bytes),
        AvroSchema::String => Some(PrimitiveType::String),
        _ => None,
    }
}

pub open spec fn prim_of(s: Seq<char>) -> Option<PrimitiveType> {
    if s == "null"@ { Some(PrimitiveType::Null) }
    else if s == "boolean"@ { Some(PrimitiveType::Boolean) }
    else if s == "int"@ { Some(PrimitiveType::Int) }
    else if s == "long"@ { Some(PrimitiveType::Long) }
    else if s == "float"@ { Some(PrimitiveType::Float) }
    else if s == "double"@ { Some(PrimitiveType::Double) }
    else if s == "bytes"@ { Some(PrimitiveType::Bytes) }
    else if s == "string"@ { Some(PrimitiveType::String) }
    else { None }
}
//@fn PrimitiveType::as_str
//@spec
    ensures r@ == prim_name(*self),
//@end

//@fn PrimitiveType::to_schema
//@spec
    ensures r == prim_schema(*self),
//@end

//@fn <FromStr for PrimitiveType>::from_str
//@spec
    ensures
        r is Ok ==> s@ == prim_name(r->Ok_0),
        r is Err ==> forall|p: PrimitiveType| s@ != prim_name(p),
        (match r { Ok(p) => Some(p), Err(_) => None }) == prim_of(s@),
//@end
impl VFrom for PrimitiveType {
    type E = ParsePrimitiveTypeError;
    open spec fn parsed(s: Seq<char>) -> Option<PrimitiveType> { prim_of(s) }
    fn v_from(s: &str) -> (r: Result<PrimitiveType, ParsePrimitiveTypeError>) { PrimitiveType::from_str(s) }
}

pub open spec fn logical_name(l: LogicalType) -> Seq<char> {
    match l {
        LogicalType::Date => "date"@,
        LogicalType::TimeMillis => "time-millis"@,
        LogicalType::TimeMicros => "time-micros"@,
        LogicalType::TimestampMillis => "timestamp-millis"@,
        LogicalType::TimestampMicros => "timestamp-micros"@,
        LogicalType::LocalTimestampMillis => "local-timestamp-millis"@,
        LogicalType::LocalTimestampMicros => "local-timestamp-micros"@,
        LogicalType::Uuid => "uuid"@,
        LogicalType::Decimal { .. } => "decimal"@,
    }
}
// Base types from the Avro specification, "Logical Types".
pub open spec fn logical_base(l: LogicalType) -> PrimitiveType {
    match l {
        LogicalType::Date | LogicalType::TimeMillis => PrimitiveType::Int,
        LogicalType::TimeMicros | LogicalType::TimestampMillis | LogicalType::TimestampMicros
        | LogicalType::LocalTimestampMillis | LogicalType::LocalTimestampMicros => PrimitiveType::Long,
        LogicalType::Uuid => PrimitiveType::String,
        LogicalType::Decimal { .. } => PrimitiveType::Bytes,
    }
}

//@fn LogicalType::name
//@spec
    ensures r@ == logical_name(*self),
//@end

//@fn LogicalType::expected_base_type
//@spec
    ensures r == logical_base(*self),
//@end

pub open spec fn logical_of(s: Seq<char>, precision: Option<u32>, scale: Option<u32>) -> Option<LogicalType> {
    if s == "date"@ { Some(LogicalType::Date) }
    else if s == "time-millis"@ { Some(LogicalType::TimeMillis) }
    else if s == "time-micros"@ { Some(LogicalType::TimeMicros) }
    else if s == "timestamp-millis"@ { Some(LogicalType::TimestampMillis) }
    else if s == "timestamp-micros"@ { Some(LogicalType::TimestampMicros) }
    else if s == "local-timestamp-millis"@ { Some(LogicalType::LocalTimestampMillis) }
    else if s == "local-timestamp-micros"@ { Some(LogicalType::LocalTimestampMicros) }
    else if s == "uuid"@ { Some(LogicalType::Uuid) }
    else if s == "decimal"@ && precision is Some { Some(LogicalType::Decimal { precision: precision->0, scale: match scale { Some(x) => x, None => 0 } }) }
    else { None }
}
//@fn parse_logical_type
//@spec
    ensures
        r == logical_of(name@, precision, scale),
        r is Some ==> name@ == logical_name(r->0),
        r is Some && r->0 is Decimal ==> precision == Some(r->0->precision)
            && r->0->scale == (match scale { Some(s) => s, None => 0 }),
        r is None ==> forall|l: LogicalType| name@ == logical_name(l) ==> l is Decimal && precision is None,
//@end

//@fn AvroSchema::to_primitive_type
//@spec
    ensures r == schema_prim(*self),
//@end

//@fn AvroSchema::primitive_type_name
//@spec
    ensures osv(r) == (match schema_prim(*self) { Some(p) => Some(prim_name(p)), None => None }),
//@end

pub open spec fn schema_name(s: AvroSchema) -> Option<(Seq<char>, Option<Seq<char>>)> {
    match s {
        AvroSchema::Record { name, namespace, .. } => Some((name@, ov(namespace))),
        AvroSchema::Enum { name, namespace, .. } => Some((name@, ov(namespace))),
        AvroSchema::Fixed { name, namespace, .. } => Some((name@, ov(namespace))),
        AvroSchema::Reference { name, namespace, .. } => Some((name@, ov(namespace))),
        _ => None,
    }
}
pub open spec fn is_named(s: AvroSchema) -> bool { s is Record || s is Enum || s is Fixed }
pub open spec fn schema_full(s: AvroSchema) -> Seq<char> { full((schema_name(s)->0).0, (schema_name(s)->0).1) }

//@fn AvroSchema::full_name
//@spec
    ensures
        r is Some <==> schema_name(*self) is Some,
        r is Some ==> r->0@ == schema_full(*self),
//@end

//@fn AvroSchema::name
//@spec
    ensures
        r is Some <==> is_named(*self),
        r is Some ==> r->0@ == (schema_name(*self)->0).0,
//@end

pub open spec fn union_key(s: AvroSchema) -> Seq<char> {
    match s {
        AvroSchema::Array { .. } => "array"@,
        AvroSchema::Map { .. } => "map"@,
        AvroSchema::Union { .. } => "union"@,
        AvroSchema::AnnotatedPrimitive { kind, .. } => prim_name(kind),
        AvroSchema::Logical { logical_type, .. } => prim_name(logical_base(logical_type)),
        _ => if schema_prim(s) is Some { prim_name(schema_prim(s)->0) } else { schema_full(s) },
    }
}

//@fn AvroSchema::union_type_key
//@spec
    ensures r@ == union_key(*self),
//@end

//@fn AvroSchema::type_description
//@end

pub open spec fn props_of(s: AvroSchema) -> Option<Map<Seq<char>, Value>> {
    match s {
        AvroSchema::Record { properties, .. } => Some(properties@),
        AvroSchema::Enum { properties, .. } => Some(properties@),
        AvroSchema::Fixed { properties, .. } => Some(properties@),
        AvroSchema::Array { properties, .. } => Some(properties@),
        AvroSchema::Map { properties, .. } => Some(properties@),
        AvroSchema::AnnotatedPrimitive { properties, .. } => Some(properties@),
        AvroSchema::Logical { properties, .. } => Some(properties@),
        AvroSchema::Reference { properties, .. } => Some(properties@),
        _ => None,
    }
}
// s2 is s with its property map replaced by p (a bare primitive becomes annotated).
pub open spec fn with_props(s: AvroSchema, p: HashMap<String, Value>) -> AvroSchema {
    match s {
        AvroSchema::Record { name, namespace, doc, fields, is_error, aliases, properties } =>
            AvroSchema::Record { name, namespace, doc, fields, is_error, aliases, properties: p },
        AvroSchema::Enum { name, namespace, doc, symbols, default, aliases, properties } =>
            AvroSchema::Enum { name, namespace, doc, symbols, default, aliases, properties: p },
        AvroSchema::Fixed { name, namespace, doc, size, aliases, properties } =>
            AvroSchema::Fixed { name, namespace, doc, size, aliases, properties: p },
        AvroSchema::Array { items, properties } => AvroSchema::Array { items, properties: p },
        AvroSchema::Map { values, properties } => AvroSchema::Map { values, properties: p },
        AvroSchema::AnnotatedPrimitive { kind, properties } => AvroSchema::AnnotatedPrimitive { kind, properties: p },
        AvroSchema::Logical { logical_type, properties } => AvroSchema::Logical { logical_type, properties: p },
        AvroSchema::Reference { name, namespace, properties, span } => AvroSchema::Reference { name, namespace, properties: p, span },
        _ => if schema_prim(s) is Some { AvroSchema::AnnotatedPrimitive { kind: schema_prim(s)->0, properties: p } } else { s },
    }
}
pub open spec fn merged(s: AvroSchema, p: Map<Seq<char>, Value>) -> AvroSchema {
    let old = match props_of(s) { Some(m) => m, None => Map::empty() };
    with_props(s, mk_hashmap(old.union_prefer_right(p)))
}

//@fn AvroSchema::with_merged_properties
//@spec
    ensures r == merged(self, properties@),
//@start
    proof { assert(Map::<Seq<char>, Value>::empty().union_prefer_right(properties@) =~= properties@); }
//@end

// ---------------------------------------------------------------------------
// Field defaults (Avro spec, "Complex Types: Records", field default table;
// union defaults may match any branch and float/double may be the strings
// NaN/Infinity/-Infinity, as in the Java tools).
// ---------------------------------------------------------------------------
pub open spec fn prim_default_ok(v: Value, p: PrimitiveType) -> bool {
    match p {
        PrimitiveType::Null => v is Null,
        PrimitiveType::Boolean => v is Bool,
        PrimitiveType::Int => v is Number && v->Number_0.spec_as_i64() is Some
            && i32::MIN <= v->Number_0.spec_as_i64()->0 <= i32::MAX,
        PrimitiveType::Long => v is Number && v->Number_0.spec_as_i64() is Some,
        PrimitiveType::Float | PrimitiveType::Double => v is Number
            || (v is String && (v->String_0@ == "NaN"@ || v->String_0@ == "Infinity"@ || v->String_0@ == "-Infinity"@)),
        PrimitiveType::Bytes | PrimitiveType::String => v is String,
    }
}
pub open spec fn default_ok(v: Value, s: AvroSchema) -> bool
    decreases s
{
    match s {
        AvroSchema::Record { fields, .. } => v is Object && forall|i: int| 0 <= i < fields@.len() ==> {
            let f = #[trigger] fields@[i];
            if v->Object_0@.dom().contains(f.name@) { default_ok(v->Object_0@[f.name@], f.schema) }
            else { f.default is Some }
        },
        AvroSchema::Enum { .. } | AvroSchema::Fixed { .. } => v is String,
        AvroSchema::Array { items, .. } => v is Array
            && forall|i: int| 0 <= i < v->Array_0@.len() ==> default_ok(#[trigger] v->Array_0@[i], *items),
        AvroSchema::Map { values, .. } => v is Object
            && forall|k: Seq<char>| #[trigger] v->Object_0@.dom().contains(k) ==> default_ok(v->Object_0@[k], *values),
        AvroSchema::Union { types, .. } => exists|i: int| 0 <= i < types@.len() && default_ok(v, #[trigger] types@[i]),
        AvroSchema::AnnotatedPrimitive { kind, .. } => prim_default_ok(v, kind),
        AvroSchema::Logical { logical_type, .. } => prim_default_ok(v, logical_base(logical_type)),
        AvroSchema::Reference { .. } => true,
        _ => prim_default_ok(v, schema_prim(s)->0),
    }
}
pub open spec fn rank(s: AvroSchema) -> int { if schema_prim(s) is Some { 0 } else { 1 } }

//@fn json_type_description
//@end

//@fn is_json_integer
//@spec
    ensures r == (n@ is PosInt || n@ is NegInt),
//@end

//@fn is_valid_default
//@spec
    ensures r == default_ok(*value, *schema),
    decreases rank(*schema), schema,
//@loop 0
    invariant
        value is Object, obj == value->Object_0, it0.seq().map_values(|f: &Field| *f) == fields@,
        forall|i: int| 0 <= i < it0.index() ==> {
            let f = #[trigger] fields@[i];
            if obj@.dom().contains(f.name@) { default_ok(obj@[f.name@], f.schema) } else { f.default is Some }
        },
//@loop-after 1
            assert(__r == default_ok(*value, *schema));
//@loop 1
    invariant_except_break
        __r,
        forall|i: int| 0 <= i < it1.index() ==> default_ok(#[trigger] arr@[i], **items),
    ensures
        __r == (forall|i: int| 0 <= i < arr@.len() ==> default_ok(#[trigger] arr@[i], **items)),
//@loop-after 2
            assert(__r == default_ok(*value, *schema));
//@loop 2
    invariant_except_break
        __r,
        forall|i: int| 0 <= i < it2.index() ==> default_ok(*(#[trigger] it2.seq()[i]), **values),
    invariant
        values_of(it2.seq(), obj@),
    ensures
        __r == (forall|k: Seq<char>| #[trigger] obj@.dom().contains(k) ==> default_ok(obj@[k], **values)),
//@loop-after 3
            assert(__r == default_ok(*value, *schema));
//@loop 3
    invariant_except_break
        !__r,
        forall|i: int| 0 <= i < it3.index() ==> !default_ok(*value, #[trigger] types@[i]),
    ensures
        __r == (exists|i: int| 0 <= i < types@.len() && default_ok(*value, #[trigger] types@[i])),
//@end

// Nothing depends on its answer (the reader keeps a fixed type's attributes as written either way).
//@fn validate_logical_type_on_fixed
//@opt external_body
//@end

//@fn validate_default
//@opt opaque_format
//@spec
    ensures r is None <==> default_ok(*value, *schema),
    decreases schema,
//@end

// ---------------------------------------------------------------------------
// A field's type with the names in it replaced by what they denote, as far as
// the types registered so far go (None: some name is not known yet). Inside a
// record's own definition its name stays as it is: any value is taken for it.
// ---------------------------------------------------------------------------
pub type Env = Map<Seq<char>, AvroSchema>;
// f looks names up in env.
pub open spec fn resolves<F: Fn(&str) -> Option<AvroSchema>>(f: F, env: Env) -> bool {
    &&& forall|x: &str| #[trigger] f.requires((x,))
    &&& forall|x: &str, o: Option<AvroSchema>| #[trigger] f.ensures((x,), o) ==> o == (if env.dom().contains(x@) { Some(env[x@]) } else { None::<AvroSchema> })
}
pub open spec fn env_of<F: Fn(&str) -> Option<AvroSchema>>(f: F) -> Env { choose|env: Env| resolves(f, env) }
// An assumption on closures: called within its precondition, one returns.
pub axiom fn axiom_closure_returns<F: Fn(&str) -> Option<AvroSchema>>(f: F, x: &str)
    requires f.requires((x,)),
    ensures exists|o: Option<AvroSchema>| f.ensures((x,), o);
pub proof fn lemma_env_of<F: Fn(&str) -> Option<AvroSchema>>(f: F, env: Env)
    requires resolves(f, env),
    ensures env_of(f) == env, resolves(f, env_of(f)),
{
    let e = env_of(f);
    assert forall|k: Seq<char>| (#[trigger] e.dom().contains(k) <==> env.dom().contains(k)) && (e.dom().contains(k) ==> e[k] == env[k]) by {
        let x = mk_str(k);
        assert(f.requires((x,)));
        axiom_closure_returns(f, x);
        let o = choose|o: Option<AvroSchema>| f.ensures((x,), o);
        assert(f.ensures((x,), o));
    }
    assert(e =~= env);
}
pub open spec fn wf_env(env: Env) -> bool {
    forall|k: Seq<char>| #[trigger] env.dom().contains(k) ==> (env[k] is Record || env[k] is Enum || env[k] is Fixed) && schema_full(env[k]) == k && flat(env[k])
}
pub open spec fn reso(s: AvroSchema, env: Env, seen: Set<Seq<char>>) -> Option<AvroSchema>
    decreases env.dom().difference(seen).len(), s, 0nat
        via reso_ends
{
    match s {
        AvroSchema::Reference { .. } => {
            let k = schema_full(s);
            if seen.contains(k) { Some(s) }
            else if !env.dom().contains(k) { None }
            else {
                match env[k] {
                    AvroSchema::Record { fields, .. } => reso_rec(env[k], reso_fields(fields@, fields@.len(), env, seen.insert(k))),
                    t => Some(t),
                }
            }
        },
        AvroSchema::Union { types, is_nullable_type } => match reso_types(types@, types@.len(), env, seen) {
            Some(ts) => Some(AvroSchema::Union { types: mk_vec(ts), is_nullable_type }),
            None => None,
        },
        AvroSchema::Array { items, properties } => match reso(*items, env, seen) {
            Some(t) => Some(AvroSchema::Array { items: Box::new(t), properties }),
            None => None,
        },
        AvroSchema::Map { values, properties } => match reso(*values, env, seen) {
            Some(t) => Some(AvroSchema::Map { values: Box::new(t), properties }),
            None => None,
        },
        _ => Some(s),
    }
}
pub open spec fn reso_rec(s: AvroSchema, fs: Option<Seq<Field>>) -> Option<AvroSchema> {
    match (s, fs) {
        (AvroSchema::Record { name, namespace, doc, fields, is_error, aliases, properties }, Some(f)) =>
            Some(AvroSchema::Record { name, namespace, doc, fields: mk_vec(f), is_error, aliases, properties }),
        _ => None,
    }
}
pub open spec fn reso_types(ts: Seq<AvroSchema>, n: nat, env: Env, seen: Set<Seq<char>>) -> Option<Seq<AvroSchema>>
    decreases env.dom().difference(seen).len(), ts, n
{
    if n == 0 || n > ts.len() { Some(seq![]) }
    else {
        match (reso_types(ts, (n - 1) as nat, env, seen), reso(ts[n - 1], env, seen)) {
            (Some(q), Some(t)) => Some(q.push(t)),
            _ => None,
        }
    }
}
pub open spec fn with_type(f: Field, t: AvroSchema) -> Field {
    Field { name: f.name, schema: t, doc: f.doc, default: f.default, order: f.order, aliases: f.aliases, properties: f.properties }
}
pub open spec fn reso_fields(fs: Seq<Field>, n: nat, env: Env, seen: Set<Seq<char>>) -> Option<Seq<Field>>
    decreases env.dom().difference(seen).len(), fs, n
{
    if n == 0 || n > fs.len() { Some(seq![]) }
    else {
        match (reso_fields(fs, (n - 1) as nat, env, seen), reso(fs[n - 1].schema, env, seen)) {
            (Some(q), Some(t)) => Some(q.push(with_type(fs[n - 1], t))),
            _ => None,
        }
    }
}
pub proof fn lemma_seen(env: Env, seen: Set<Seq<char>>, k: Seq<char>)
    requires env.dom().contains(k), !seen.contains(k),
    ensures env.dom().difference(seen.insert(k)).len() < env.dom().difference(seen).len(),
{
    assert(env.dom().difference(seen.insert(k)) =~= env.dom().difference(seen).remove(k));
    assert(env.dom().difference(seen).contains(k));
}
#[via_fn]
proof fn reso_ends(s: AvroSchema, env: Env, seen: Set<Seq<char>>)
{
    if s is Reference && !seen.contains(schema_full(s)) && env.dom().contains(schema_full(s)) { lemma_seen(env, seen, schema_full(s)); }
}

// The same for a definition.
pub open spec fn reso_top(s: AvroSchema, env: Env, seen: Set<Seq<char>>) -> Option<AvroSchema> {
    match s {
        AvroSchema::Record { fields, .. } => reso_rec(s, reso_fields(fields@, fields@.len(), env, seen.insert(schema_full(s)))),
        _ => reso(s, env, seen),
    }
}
proof fn lemma_reso_types_none(ts: Seq<AvroSchema>, n: nat, k: nat, env: Env, seen: Set<Seq<char>>)
    requires n <= k <= ts.len(),
    ensures reso_types(ts, n, env, seen) is None ==> reso_types(ts, k, env, seen) is None,
    decreases k
{
    if n < k { lemma_reso_types_none(ts, n, (k - 1) as nat, env, seen); }
}
proof fn lemma_reso_fields_none(ts: Seq<Field>, n: nat, k: nat, env: Env, seen: Set<Seq<char>>)
    requires n <= k <= ts.len(),
    ensures reso_fields(ts, n, env, seen) is None ==> reso_fields(ts, k, env, seen) is None,
    decreases k
{
    if n < k { lemma_reso_fields_none(ts, n, (k - 1) as nat, env, seen); }
}

//@fn resolve_for_validation_inner
//@spec
    requires
        resolves(*resolver, env_of(*resolver)), wf_env(env_of(*resolver)),
        flat(*schema), schema is Record ==> !old(visited)@.contains(schema_full(*schema)),
    ensures
        r is Some ==> final(visited)@ == old(visited)@,
        r == reso_top(*schema, env_of(*resolver), old(visited)@),
    decreases env_of(*resolver).dom().difference(old(visited)@).len(), if !(schema is Record || schema is Enum || schema is Fixed) { 1int } else if env_of(*resolver).dom().contains(schema_full(*schema)) { 0int } else { 2int }, schema,
//@start
    let ghost env = env_of(*resolver);
    let ghost seen = visited@;
    proof {
        let k = schema_full(*schema);
        if schema is Record {
            if env.dom().contains(k) { lemma_seen(env, seen, k); }
            else { assert(env.dom().difference(seen.insert(k)) =~= env.dom().difference(seen)); }
        }
    }
//@loop 0
    invariant
        visited@ == seen,
        reso_types(types@, it0.index() as nat, env, seen) == Some(resolved_types@),
//@loop-start 0
    proof {
        assert(*branch == types@[it0.index() as int]);
        assert(bare(*branch));
        assert(decreases_to!(types@ => branch));
        lemma_reso_types_none(types@, it0.index() as nat + 1, types@.len(), env, seen);
    }
//@loop 1
    invariant
        visited@ == seen.insert(schema_full(*schema)),
        reso_fields(fields@, it1.index() as nat, env, visited@) == Some(resolved_fields@),
//@loop-start 1
    proof {
        assert(*field == fields@[it1.index() as int]);
        assert(bare(field.schema));
        assert(decreases_to!(fields@ => field));
        lemma_reso_fields_none(fields@, it1.index() as nat + 1, fields@.len(), env, visited@);
    }
//@before let resolved_items
    proof { assert(bare(**items)); }
//@before let resolved_values
    proof { assert(bare(**values)); }
//@end

//@fn resolve_for_validation
//@spec
    requires
        resolves(*resolver, env_of(*resolver)), wf_env(env_of(*resolver)), flat(*schema),
    ensures
        r == reso_top(*schema, env_of(*resolver), Set::empty()),
//@end

// The default of a field is taken unless it does not fit the field's type, as
// far as that is known.
pub open spec fn field_ok(f: Field, env: Env) -> bool {
    match (f.default, reso(f.schema, env, Set::empty())) {
        (Some(d), Some(t)) => default_ok(d, t),
        _ => true,
    }
}
pub open spec fn bad_fields(fs: Seq<Field>, n: nat, env: Env) -> Seq<Seq<char>>
    decreases n
{
    if n == 0 || n > fs.len() { seq![] }
    else if field_ok(fs[n - 1], env) { bad_fields(fs, (n - 1) as nat, env) }
    else { bad_fields(fs, (n - 1) as nat, env).push(fs[n - 1].name@) }
}
pub open spec fn rec_bad(s: AvroSchema, env: Env) -> Seq<Seq<char>> {
    match s { AvroSchema::Record { fields, .. } => bad_fields(fields@, fields@.len(), env), _ => seq![] }
}
pub open spec fn firsts(v: Seq<(String, String)>) -> Seq<Seq<char>> { v.map_values(|p: (String, String)| p.0@) }
//@fn validate_record_field_defaults
//@spec
    requires
        resolves(resolver, env_of(resolver)), wf_env(env_of(resolver)), flat(*schema),
    ensures
        firsts(r@) == rec_bad(*schema, env_of(resolver)),
//@start
    let ghost env = env_of(resolver);
    proof { assert(firsts(seq![]) =~= seq![]); }
//@loop 0
    invariant
        firsts(errors@) == bad_fields(fields@, it0.index() as nat, env),
//@loop-start 0
    let ghost e0 = errors@;
    proof { assert(*field == fields@[it0.index() as int]); assert(bare(field.schema)); }
//@loop-end 0
    proof {
        if errors@.len() > e0.len() { assert(firsts(errors@) =~= firsts(e0).push(field.name@)); }
    }
//@end
