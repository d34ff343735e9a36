//@module resolve src/resolve.rs
use crate::schema::*;
use crate::json::*;
use crate::error::SpanWithSource;
broadcast use {group_string, group_coll, group_json, axiom_indexmap_order};

//@type SchemaRegistry

// ---------------------------------------------------------------------------
// Names (Java's VALID_NAME): a letter or underscore, then letters, digits, underscores.
// ---------------------------------------------------------------------------
pub open spec fn valid_name(s: Seq<char>) -> bool {
    &&& s.len() > 0
    &&& char_alphabetic(s[0]) || s[0] == '_'
    &&& forall|i: int| 1 <= i < s.len() ==> char_alphanumeric(#[trigger] s[i]) || s[i] == '_'
}
pub open spec fn valid_namespace(ns: Option<Seq<char>>) -> bool {
    match ns {
        Some(n) => n.len() > 0 ==> forall|i: int| 0 <= i < split_spec(n, '.').len() ==> valid_name(#[trigger] split_spec(n, '.')[i]),
        None => true,
    }
}

//@fn is_valid_avro_name
//@opt itersrc chars
//@spec
    ensures r == valid_name(name@),
//@loop 0
    invariant_except_break
        __r,
        forall|i: int| 0 <= i < it0.index() ==> char_alphanumeric(#[trigger] it0.seq()[i]) || it0.seq()[i] == '_',
    invariant
        name@.len() > 0, it0.seq() == name@.drop_first(),
    ensures
        __r == (forall|i: int| 0 <= i < it0.seq().len() ==> char_alphanumeric(#[trigger] it0.seq()[i]) || it0.seq()[i] == '_'),
//@loop-after 0
    proof {
        let t = name@.drop_first();
        assert(forall|i: int| 1 <= i < name@.len() ==> #[trigger] name@[i] == t[i - 1]);
        assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == name@[i + 1]);
    }
//@end

//@fn validate_schema_name
//@opt opaque_format
//@spec
    ensures r is Ok <==> valid_name(name@) && valid_namespace(osv(namespace)),
//@loop 0
    invariant
        it0.seq().len() == split_spec(ns@, '.').len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i])@ == split_spec(ns@, '.')[i],
        forall|i: int| 0 <= i < it0.index() ==> valid_name(#[trigger] split_spec(ns@, '.')[i]),
//@end

//@fn SchemaRegistry::new
//@spec
    ensures r.schemas@ == Map::<Seq<char>, AvroSchema>::empty(), r.schemas.order() == Seq::<Seq<char>>::empty(),
//@end

// `std::mem::take` leaves `Default::default()` behind, which is `new()`.
impl VDefault for SchemaRegistry {
    open spec fn is_default(self) -> bool { self.schemas@ == Map::<Seq<char>, AvroSchema>::empty() && self.schemas.order() == Seq::<Seq<char>>::empty() }
    fn v_default() -> (r: Self) { SchemaRegistry::new() }
}
//@fn SchemaRegistry::reserve
//@spec
    ensures *final(self) == *old(self),
//@end

// The registry maps each full name to the one schema registered under it.
pub open spec fn wf_registry(r: SchemaRegistry) -> bool {
    forall|k: Seq<char>| #[trigger] r.schemas@.dom().contains(k) ==> is_named(r.schemas@[k]) && schema_full(r.schemas@[k]) == k
        && valid_name((schema_name(r.schemas@[k])->0).0) && valid_namespace((schema_name(r.schemas@[k])->0).1)
}

//@fn SchemaRegistry::register
//@opt opaque_format
//@spec
    requires !(schema is Reference),
    ensures
        r is Ok <==> is_named(schema) && valid_name((schema_name(schema)->0).0) && valid_namespace((schema_name(schema)->0).1)
            && !old(self).schemas@.dom().contains(schema_full(schema)),
        r is Ok ==> final(self).schemas@ == old(self).schemas@.insert(schema_full(schema), schema)
            && final(self).schemas.order() == old(self).schemas.order().push(schema_full(schema)),
        r is Err ==> *final(self) == *old(self),
        wf_registry(*old(self)) ==> wf_registry(*final(self)),
//@end

//@fn SchemaRegistry::lookup
//@spec
    ensures r == (if self.schemas@.dom().contains(full_name@) { Some(&self.schemas@[full_name@]) } else { None }),
//@end

pub open spec fn in_order(m: IndexMap<String, AvroSchema>) -> Seq<AvroSchema> {
    Seq::new(m.order().len(), |i: int| m@[m.order()[i]])
}
//@fn SchemaRegistry::schemas
//@spec
    ensures r@.len() == self.schemas.order().len(),
        forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.schemas@[self.schemas.order()[i]],
//@end

//@fn SchemaRegistry::names
//@spec
    ensures r@.len() == self.schemas.order().len(),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.schemas.order()[i],
//@loop 0
    invariant
        it0.seq().len() == self.schemas.order().len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i])@ == self.schemas.order()[i],
        __v@.len() == it0.index(),
        forall|i: int| 0 <= i < it0.index() ==> (#[trigger] __v@[i])@ == self.schemas.order()[i],
//@end

// ---------------------------------------------------------------------------
// References that denote no known type, in walk order.
// ---------------------------------------------------------------------------
pub open spec fn unres(s: AvroSchema, d: Set<Seq<char>>) -> Seq<Seq<char>>
    decreases s, 0nat
{
    match s {
        AvroSchema::Reference { .. } => if d.contains(schema_full(s)) { seq![] } else { seq![schema_full(s)] },
        AvroSchema::Record { fields, .. } => unres_fields(fields@, fields@.len(), d),
        AvroSchema::Array { items, .. } => unres(*items, d),
        AvroSchema::Map { values, .. } => unres(*values, d),
        AvroSchema::Union { types, .. } => unres_types(types@, types@.len(), d),
        _ => seq![],
    }
}
pub open spec fn unres_types(ts: Seq<AvroSchema>, n: nat, d: Set<Seq<char>>) -> Seq<Seq<char>>
    decreases ts, n
{
    if n == 0 || n > ts.len() { seq![] } else { unres_types(ts, (n - 1) as nat, d) + unres(ts[n - 1], d) }
}
pub open spec fn unres_fields(fs: Seq<Field>, n: nat, d: Set<Seq<char>>) -> Seq<Seq<char>>
    decreases fs, n
{
    if n == 0 || n > fs.len() { seq![] } else { unres_fields(fs, (n - 1) as nat, d) + unres(fs[n - 1].schema, d) }
}
pub open spec fn cat(s: Seq<Seq<Seq<char>>>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { cat(s.drop_last()) + s.last() }
}
pub open spec fn names_of(v: Seq<(String, Option<SpanWithSource>)>) -> Seq<Seq<char>> { v.map_values(|p: (String, Option<SpanWithSource>)| p.0@) }
proof fn lemma_cat_step(s: Seq<Seq<Seq<char>>>, n: int)
    requires 0 <= n < s.len(),
    ensures cat(s.subrange(0, n + 1)) == cat(s.subrange(0, n)) + s[n],
{
    assert(s.subrange(0, n + 1).drop_last() =~= s.subrange(0, n));
}
// No unresolved reference: every name mentioned is known.
pub proof fn lemma_unres_closed(s: AvroSchema, d: Set<Seq<char>>)
    ensures closed(s, d) ==> unres(s, d).len() == 0,
        bare(s) && unres(s, d).len() == 0 ==> closed(s, d),
    decreases s, 0nat
{
    match s {
        AvroSchema::Array { items, .. } => { lemma_unres_closed(*items, d); }
        AvroSchema::Map { values, .. } => { lemma_unres_closed(*values, d); }
        AvroSchema::Union { types, .. } => { lemma_unres_types(types@, types@.len(), d); }
        AvroSchema::Record { fields, .. } => { lemma_unres_fields(fields@, fields@.len(), d); }
        _ => {}
    }
}
proof fn lemma_unres_types(ts: Seq<AvroSchema>, n: nat, d: Set<Seq<char>>)
    requires n <= ts.len(),
    ensures (forall|i: int| 0 <= i < n ==> closed(#[trigger] ts[i], d)) ==> unres_types(ts, n, d).len() == 0,
        (forall|i: int| 0 <= i < n ==> bare(#[trigger] ts[i])) && unres_types(ts, n, d).len() == 0 ==> (forall|i: int| 0 <= i < n ==> closed(#[trigger] ts[i], d)),
    decreases ts, n
{
    if n > 0 {
        assert(decreases_to!(ts => ts[n - 1]));
        lemma_unres_closed(ts[n - 1], d);
        lemma_unres_types(ts, (n - 1) as nat, d);
    }
}
proof fn lemma_unres_fields(ts: Seq<Field>, n: nat, d: Set<Seq<char>>)
    requires n <= ts.len(),
    ensures (forall|i: int| 0 <= i < n ==> closed((#[trigger] ts[i]).schema, d)) ==> unres_fields(ts, n, d).len() == 0,
        (forall|i: int| 0 <= i < n ==> bare((#[trigger] ts[i]).schema)) && unres_fields(ts, n, d).len() == 0 ==> (forall|i: int| 0 <= i < n ==> closed((#[trigger] ts[i]).schema, d)),
    decreases ts, n
{
    if n > 0 {
        assert(decreases_to!(ts => ts[n - 1]));
        lemma_unres_closed(ts[n - 1].schema, d);
        lemma_unres_fields(ts, (n - 1) as nat, d);
    }
}

broadcast proof fn lemma_names_push(v: Seq<(String, Option<SpanWithSource>)>, p: (String, Option<SpanWithSource>))
    ensures #[trigger] names_of(v.push(p)) == names_of(v) + seq![p.0@],
{
    assert(names_of(v.push(p)) =~= names_of(v) + seq![p.0@]);
}
//@fn collect_unresolved_refs
//@opt iter fields
//@opt iter types
//@spec
    ensures names_of(final(unresolved)@) == names_of(old(unresolved)@) + unres(*schema, known@.dom()),
    decreases schema,
//@start
    let ghost d = known@.dom();
    let ghost u0 = names_of(unresolved@);
    proof { assert(u0 + seq![] =~= u0); }
    broadcast use lemma_names_push;
//@loop 0
    invariant
        names_of(unresolved@) == u0 + unres_fields(fields@, it0.index() as nat, d),
//@loop-start 0
    proof { assert(*field == fields@[it0.index() as int]); assert(decreases_to!(fields@ => field)); }
//@loop 1
    invariant
        names_of(unresolved@) == u0 + unres_types(types@, it1.index() as nat, d),
//@loop-start 1
    proof { assert(*t == types@[it1.index() as int]); assert(decreases_to!(types@ => t)); }
//@end

//@fn SchemaRegistry::validate_references
//@spec
    ensures names_of(r@) == cat(Seq::new(self.schemas.order().len(), |i: int| unres(self.schemas@[self.schemas.order()[i]], self.schemas@.dom()))),
//@loop-before 0
    let ghost q = Seq::new(self.schemas.order().len(), |i: int| unres(self.schemas@[self.schemas.order()[i]], self.schemas@.dom()));
    proof { assert(q.subrange(0, 0) =~= seq![]); assert(q.subrange(0, q.len() as int) =~= q); assert(names_of(unresolved@) =~= seq![]); }
//@loop 0
    invariant
        it0.seq().len() == self.schemas.order().len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == self.schemas@[self.schemas.order()[i]],
        names_of(unresolved@) == cat(q.subrange(0, it0.index() as int)),
//@loop-start 0
    proof { lemma_cat_step(q, it0.index() as int); assert(*schema == self.schemas@[self.schemas.order()[it0.index() as int]]); }
//@end

//@fn SchemaRegistry::validate_schema
//@spec
    ensures names_of(r@) == unres(*schema, self.schemas@.dom()),
//@start
    proof { assert(names_of(seq![]) =~= seq![]); }
//@end
