// Contract-only stand-ins for everything outside /repo/src that the functions
// under contract call (std collections, serde_json, indexmap, miette, Display).
// EVERYTHING in this module that is `external_body`, `assume_specification` or
// `axiom` is an ASSUMED contract on a dependency; check.py lists each one in
// the evidence as trusted.
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpecImpl;

verus! {

// ---------------------------------------------------------------------------
// Strings: content determines the value.
// ---------------------------------------------------------------------------
pub uninterp spec fn mk_string(s: Seq<char>) -> String;
pub uninterp spec fn mk_str(s: Seq<char>) -> &'static str;

pub broadcast axiom fn axiom_string_ext(s: String)
    ensures mk_string(#[trigger] s@) == s;
pub broadcast axiom fn axiom_mk_string(s: Seq<char>)
    ensures (#[trigger] mk_string(s))@ == s;
pub broadcast axiom fn axiom_str_ext(s: &str)
    ensures mk_str(#[trigger] s@) == s;
pub broadcast axiom fn axiom_mk_str(s: Seq<char>)
    ensures (#[trigger] mk_str(s))@ == s;

pub broadcast axiom fn axiom_string_to_string(s: &String, r: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures::<String>(s, r)
    ensures r@ == s@;
pub broadcast group group_string {
    axiom_string_to_string,

    axiom_string_ext,
    axiom_mk_string,
    axiom_str_ext,
    axiom_mk_str,
}

pub open spec fn ov(o: Option<String>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}
pub open spec fn osv(o: Option<&str>) -> Option<Seq<char>> {
    match o { Some(s) => Some(s@), None => None }
}

pub trait VDisp {
    spec fn dv(&self) -> Seq<char>;
    fn disp(&self) -> (r: String) ensures r@ == self.dv();
}
impl VDisp for str {
    open spec fn dv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { self.to_string() }
}
impl VDisp for String {
    open spec fn dv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { self.clone() }
}
impl<T: VDisp + ?Sized> VDisp for &T {
    open spec fn dv(&self) -> Seq<char> { (**self).dv() }
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { (**self).disp() }
}
// Decimal rendering of machine integers: uninterpreted (only used in messages).
pub uninterp spec fn int_dec(i: int) -> Seq<char>;
impl VDisp for u32 {
    open spec fn dv(&self) -> Seq<char> { int_dec(*self as int) }
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { self.to_string() }
}
impl VDisp for i32 {
    open spec fn dv(&self) -> Seq<char> { int_dec(*self as int) }
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { self.to_string() }
}
impl VDisp for i64 {
    open spec fn dv(&self) -> Seq<char> { int_dec(*self as int) }
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { self.to_string() }
}
impl VDisp for u64 {
    open spec fn dv(&self) -> Seq<char> { int_dec(*self as int) }
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { self.to_string() }
}
impl VDisp for isize {
    open spec fn dv(&self) -> Seq<char> { int_dec(*self as int) }
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { self.to_string() }
}
impl VDisp for usize {
    open spec fn dv(&self) -> Seq<char> { int_dec(*self as int) }
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { self.to_string() }
}

#[verifier::external_body]
pub fn vcat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ {
    let mut a = a; a.push_str(b); a
}
#[verifier::external_body]
pub fn vcat_s(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ {
    let mut a = a; a.push_str(&b); a
}

// The last index of `c` in `s`, or -1.
pub open spec fn last_index(s: Seq<char>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 }
    else if s.last() == c { s.len() - 1 }
    else { last_index(s.drop_last(), c) }
}
pub open spec fn first_index(s: Seq<char>, c: char) -> int
    decreases s.len()
{
    if s.len() == 0 { -1 }
    else if s[0] == c { 0 }
    else { let r = first_index(s.drop_first(), c); if r < 0 { -1 } else { r + 1 } }
}

// str methods that vstd has no contract for, as extension methods (the
// extractor renames `.m(` to `.v_m(` for exactly the list in vx/src/main.rs).
pub trait StrX {
    spec fn xv(&self) -> Seq<char>;
    fn v_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            last_index(self.xv(), c) < 0 ==> r is None,
            last_index(self.xv(), c) >= 0 ==> r is Some
                && (r->0).0@ == self.xv().subrange(0, last_index(self.xv(), c))
                && (r->0).1@ == self.xv().subrange(last_index(self.xv(), c) + 1, self.xv().len() as int);
    fn v_split_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            first_index(self.xv(), c) < 0 ==> r is None,
            first_index(self.xv(), c) >= 0 ==> r is Some
                && (r->0).0@ == self.xv().subrange(0, first_index(self.xv(), c))
                && (r->0).1@ == self.xv().subrange(first_index(self.xv(), c) + 1, self.xv().len() as int);
}
impl StrX for str {
    open spec fn xv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_rsplit_once(&self, c: char) -> (r: Option<(&str, &str)>) { self.rsplit_once(c) }
    #[verifier::external_body]
    fn v_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { self.split_once(c) }
}

pub open spec fn subr(s: Seq<char>, a: int, b: int) -> Seq<char> { s.subrange(a, b) }

pub trait OptStringX {
    spec fn sp(&self) -> Option<Seq<char>>;
    fn v_as_deref(&self) -> (r: Option<&str>)
        ensures osv(r) == self.sp();
}
impl OptStringX for Option<String> {
    open spec fn sp(&self) -> Option<Seq<char>> { ov(*self) }
    fn v_as_deref(&self) -> (r: Option<&str>) {
        match self { Some(s) => Some(s.as_str()), None => None }
    }
}

#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
    where T: std::marker::Destruct
    ensures r == (if a is Some { a } else { b });

// str::to_uppercase
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub trait VUpper { spec fn uv(&self) -> Seq<char>; fn v_to_uppercase(&self) -> (r: String) ensures r@ == upper(self.uv()); }
impl VUpper for str { open spec fn uv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_to_uppercase(&self) -> (r: String) { unimplemented!() } }
// Slices of string literals.
pub trait StrSliceX {
    spec fn slv(&self) -> Seq<&str>;
    fn v_contains(&self, x: &&str) -> (r: bool) ensures r == has_str(self.slv(), x@);
}
impl<'a> StrSliceX for [&'a str] {
    open spec fn slv(&self) -> Seq<&str> { self@ }
    #[verifier::external_body]
    fn v_contains(&self, x: &&str) -> (r: bool) { unimplemented!() }
}
pub trait StringVecX {
    spec fn svv(&self) -> Seq<String>;
    fn v_contains(&self, x: &String) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self.svv().len() && (#[trigger] self.svv()[i])@ == x@);
}
impl StringVecX for Vec<String> {
    open spec fn svv(&self) -> Seq<String> { self@ }
    #[verifier::external_body]
    fn v_contains(&self, x: &String) -> (r: bool) { unimplemented!() }
}
pub open spec fn has_str(s: Seq<&str>, x: Seq<char>) -> bool {
    exists|i: int| 0 <= i < s.len() && (#[trigger] s[i])@ == x
}

// ---------------------------------------------------------------------------
// Collections
// ---------------------------------------------------------------------------
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _p: std::marker::PhantomData<(K, V)> }

impl<K: View, V> View for HashMap<K, V> {
    type V = Map<K::V, V>;
    uninterp spec fn view(&self) -> Map<K::V, V>;
}
pub uninterp spec fn mk_hashmap<K: View, V>(m: Map<K::V, V>) -> HashMap<K, V>;
pub broadcast axiom fn axiom_hashmap_ext<K: View, V>(m: HashMap<K, V>)
    ensures mk_hashmap::<K, V>(#[trigger] m@) == m;
pub broadcast axiom fn axiom_hashmap_decreases<V>(m: HashMap<String, V>, k: Seq<char>)
    ensures m@.dom().contains(k) ==> decreases_to!(m => #[trigger] m@[k]);

impl<K: View, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@),
            r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::V, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    // Some enumeration of the entries, each key exactly once.
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(&K, &V)>) ensures entries_of(r@, self@), pre_map(r@, r@.len() as int) == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<&K>) ensures keys_of(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>) ensures values_of(r@, self@) { unimplemented!() }
}
pub open spec fn entries_of<K: View, V>(r: Seq<(&K, &V)>, m: Map<K::V, V>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0@) && m[r[i].0@] == *r[i].1
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0@ != (#[trigger] r[j]).0@
    &&& forall|k: K::V| m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0@ == k
}
// The map built from the first n entries of an enumeration.
pub open spec fn pre_map<K: View, V>(r: Seq<(&K, &V)>, n: int) -> Map<K::V, V>
    decreases n
{
    if n <= 0 { Map::empty() } else { pre_map(r, n - 1).insert(r[n - 1].0@, *r[n - 1].1) }
}
pub open spec fn keys_of<K: View, V>(r: Seq<&K>, m: Map<K::V, V>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i])@)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i])@ != (#[trigger] r[j])@
    &&& forall|k: K::V| m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i])@ == k
}
pub open spec fn values_of<KV, V>(r: Seq<&V>, m: Map<KV, V>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> exists|k: KV| m.dom().contains(k) && m[k] == *(#[trigger] r[i])
    &&& forall|k: KV| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]) == m[k]
}
impl<K: View, V> Clone for HashMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { _p: std::marker::PhantomData<K> }
impl<K: View> View for HashSet<K> {
    type V = Set<K::V>;
    uninterp spec fn view(&self) -> Set<K::V>;
}
impl<K: View> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures final(self)@ == old(self)@.insert(k@), r == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: bool)
        ensures final(self)@ == old(self)@.remove(k@), r == old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<K::V>::empty()) { unimplemented!() }
}
pub broadcast group group_coll {
    axiom_hashmap_ext,
}

// IndexMap: insertion-ordered entries with distinct keys.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
impl<K: View, V> View for IndexMap<K, V> {
    type V = Map<K::V, V>;
    uninterp spec fn view(&self) -> Map<K::V, V>;
}
impl<K: View, V> IndexMap<K, V> {
    // Keys in insertion order.
    pub uninterp spec fn order(&self) -> Seq<K::V>;
}
pub broadcast axiom fn axiom_indexmap_order<K: View, V>(m: IndexMap<K, V>)
    ensures
        (#[trigger] m.order()).no_duplicates(),
        m.order().to_set() == m@.dom(),
;
impl<K: View, V> IndexMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty(), r.order() == Seq::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            final(self).order() == (if old(self)@.dom().contains(k@) { old(self).order() } else { old(self).order().push(k@) }),
            r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::V, V>::empty()) { unimplemented!() }
    // Iteration is in insertion order.
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(&K, &V)>)
        ensures r@.len() == self.order().len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.order()[i] && *r@[i].1 == self@[self.order()[i]],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<&K>)
        ensures r@.len() == self.order().len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.order()[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>)
        ensures r@.len() == self.order().len(),
            forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[self.order()[i]],
    { unimplemented!() }
}
impl<K: View, V> Clone for IndexMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---------------------------------------------------------------------------
// serde_json
// ---------------------------------------------------------------------------
pub enum NumV { PosInt(u64), NegInt(i64), Float(f64) }

#[verifier::external_body]
pub struct Number { _p: () }
impl View for Number { type V = NumV; uninterp spec fn view(&self) -> NumV; }
pub uninterp spec fn mk_number(v: NumV) -> Number;
pub broadcast axiom fn axiom_number_ext(n: Number) ensures mk_number(#[trigger] n@) == n;
pub broadcast axiom fn axiom_mk_number(v: NumV) ensures (#[trigger] mk_number(v))@ == v;
// serde_json keeps non-negative integers as PosInt, so NegInt is negative.
pub broadcast axiom fn axiom_number_neg(n: Number) ensures (#[trigger] n@) is NegInt ==> n@->NegInt_0 < 0;

impl Number {
    pub open spec fn spec_is_i64(&self) -> bool {
        match self@ { NumV::PosInt(v) => v <= i64::MAX, NumV::NegInt(_) => true, NumV::Float(_) => false }
    }
    pub open spec fn spec_as_i64(&self) -> Option<i64> {
        match self@ { NumV::PosInt(v) => if v <= i64::MAX { Some(v as i64) } else { None },
            NumV::NegInt(v) => Some(v), NumV::Float(_) => None }
    }
    pub open spec fn spec_as_u64(&self) -> Option<u64> {
        match self@ { NumV::PosInt(v) => Some(v), _ => None }
    }
    #[verifier::external_body]
    pub fn is_i64(&self) -> (r: bool) ensures r == self.spec_is_i64() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_u64(&self) -> (r: bool) ensures r == (self@ is PosInt) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_f64(&self) -> (r: bool) ensures r == (self@ is Float) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>) ensures r == self.spec_as_i64() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>) ensures r == self.spec_as_u64() { unimplemented!() }
    #[verifier::external_body]
    pub fn from_u32(v: u32) -> (r: Number) ensures r@ == NumV::PosInt(v as u64) { unimplemented!() }
}
impl VDisp for Number {
    uninterp spec fn dv(&self) -> Seq<char>;
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct JMap<K, V> { _p: std::marker::PhantomData<(K, V)> }
impl<K: View, V> View for JMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
pub uninterp spec fn mk_jmap<K: View, V>(m: Map<K::V, V>) -> JMap<K, V>;
pub broadcast axiom fn axiom_jmap_ext<K: View, V>(m: JMap<K, V>)
    ensures mk_jmap::<K, V>(#[trigger] m@) == m;
pub broadcast axiom fn axiom_jmap_decreases<V>(m: JMap<String, V>, k: Seq<char>)
    ensures m@.dom().contains(k) ==> decreases_to!(m => #[trigger] m@[k]);

impl<K: View, V> JMap<K, V> {
    // The order in which the entries are visited (a function of the value).
    pub uninterp spec fn korder(&self) -> Seq<K::V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::V, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v),
            r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (r: bool)
        ensures r == self@.dom().contains(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@),
            r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K::V, V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Vec<(&K, &V)>) ensures entries_of(r@, self@), pre_map(r@, r@.len() as int) == self@,
            r@.len() == self.korder().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0@ == self.korder()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: Vec<&K>) ensures keys_of(r@, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Vec<&V>) ensures values_of(r@, self@) { unimplemented!() }
}
impl<K: View, V> Clone for JMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

pub enum Value {
    Null,
    Bool(bool),
    Number(Number),
    String(String),
    Array(Vec<Value>),
    Object(JMap<String, Value>),
}
impl Clone for Value {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Value {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Value>)
        ensures r == (match self { Value::Object(o) => if o@.dom().contains(k@) { Some(&o@[k@]) } else { None }, _ => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_null(&self) -> (r: bool) ensures r == (self is Null) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_boolean(&self) -> (r: bool) ensures r == (self is Bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_number(&self) -> (r: bool) ensures r == (self is Number) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_string(&self) -> (r: bool) ensures r == (self is String) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_array(&self) -> (r: bool) ensures r == (self is Array) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_object(&self) -> (r: bool) ensures r == (self is Object) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: Option<&str>)
        ensures r is Some <==> self is String, r is Some ==> r->0@ == self->String_0@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bool(&self) -> (r: Option<bool>)
        ensures r == (match *self { Value::Bool(b) => Some(b), _ => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>)
        ensures r == (match *self { Value::Number(n) => n.spec_as_i64(), _ => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>)
        ensures r == (match *self { Value::Number(n) => n.spec_as_u64(), _ => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_array(&self) -> (r: Option<&Vec<Value>>)
        ensures r == (match self { Value::Array(a) => Some(a), _ => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_object(&self) -> (r: Option<&JMap<String, Value>>)
        ensures r == (match self { Value::Object(a) => Some(a), _ => None }) { unimplemented!() }
}
pub broadcast group group_json {
    axiom_number_ext,
    axiom_mk_number,
    axiom_number_neg,
    axiom_jmap_ext,
}

} // verus!

verus! {
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(String) }
impl<'a> View for Cow<'a, str> {
    type V = Seq<char>;
    open spec fn view(&self) -> Seq<char> { match self { Cow::Borrowed(b) => b@, Cow::Owned(o) => o@ } }
}
impl<'a> Cow<'a, str> {
    #[verifier::external_body]
    pub fn v_into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    pub fn as_ref(&self) -> (r: &str) ensures r@ == self@ { match self { Cow::Borrowed(b) => b, Cow::Owned(o) => o.as_str() } }
}
pub trait VInto<T>: Sized {
    spec fn vi(self) -> T;
    fn v_into(self) -> (r: T) ensures r == self.vi();
}
impl VInto<String> for &str {
    open spec fn vi(self) -> String { mk_string(self@) }
    #[verifier::external_body]
    fn v_into(self) -> (r: String) { unimplemented!() }
}
impl VInto<String> for String { open spec fn vi(self) -> String { self } fn v_into(self) -> (r: String) { self } }
impl VInto<Number> for u32 {
    open spec fn vi(self) -> Number { mk_number(NumV::PosInt(self as u64)) }
    #[verifier::external_body]
    fn v_into(self) -> (r: Number) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_empty() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn v_opaque_string() -> (r: String) { String::new() }
#[verifier::external_body]
pub struct Report { _p: () }
#[verifier::external_body]
pub fn v_report() -> (r: Report) { unimplemented!() }

// Vec<&str>::join and friends: only used to build messages.
pub trait VJoin { spec fn jv(&self) -> Seq<Seq<char>>; fn v_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.jv(), sep@); }
impl VJoin for Vec<&str> { open spec fn jv(&self) -> Seq<Seq<char>> { str_views(self@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<'a> VJoin for [&'a str] { open spec fn jv(&self) -> Seq<Seq<char>> { str_views(self@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl VJoin for Vec<String> { open spec fn jv(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i]@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub open spec fn str_views(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
}
} // verus!
pub mod serde_json { pub use super::{JMap, Number, Value}; }
pub mod miette { pub use super::Report; }
pub mod indexmap { pub use super::IndexMap; }
verus! {
// String comparison compares contents.
pub trait VStr {
    spec fn sv(&self) -> Seq<char>;
    fn vget(&self) -> (r: &str) ensures r@ == self.sv();
}
impl VStr for str { open spec fn sv(&self) -> Seq<char> { self@ } fn vget(&self) -> (r: &str) { self } }
impl VStr for String { open spec fn sv(&self) -> Seq<char> { self@ } fn vget(&self) -> (r: &str) { self.as_str() } }
impl<T: VStr + ?Sized> VStr for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } fn vget(&self) -> (r: &str) { (**self).vget() } }
impl<'a> VStr for Cow<'a, str> {
    open spec fn sv(&self) -> Seq<char> { self@ }
    fn vget(&self) -> (r: &str) { match self { Cow::Borrowed(b) => b, Cow::Owned(o) => o.as_str() } }
}
pub fn v_str_eq<A: VStr + ?Sized, B: VStr + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.sv() == b.sv()) {
    let x = a.vget();
    let y = b.vget();
    x == y
}
}
verus! {
// Option::unwrap_or_default, per default value.
pub trait VUod<T>: Sized {
    spec fn uod(self, r: T) -> bool;
    fn v_unwrap_or_default(self) -> (r: T) ensures self.uod(r);
}
impl<'a> VUod<&'a str> for Option<&'a str> {
    open spec fn uod(self, r: &'a str) -> bool { match self { Some(s) => r == s, None => r@ == Seq::<char>::empty() } }
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> (r: &'a str) { unimplemented!() }
}
impl VUod<String> for Option<String> {
    open spec fn uod(self, r: String) -> bool { match self { Some(s) => r == s, None => r@ == Seq::<char>::empty() } }
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> (r: String) { unimplemented!() }
}
impl<T> VUod<Vec<T>> for Option<Vec<T>> {
    open spec fn uod(self, r: Vec<T>) -> bool { match self { Some(s) => r == s, None => r@ == Seq::<T>::empty() } }
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> (r: Vec<T>) { unimplemented!() }
}
impl<K: View, V> VUod<HashMap<K, V>> for Option<HashMap<K, V>> {
    open spec fn uod(self, r: HashMap<K, V>) -> bool { match self { Some(s) => r == s, None => r@ == Map::<K::V, V>::empty() } }
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> (r: HashMap<K, V>) { unimplemented!() }
}
impl VUod<bool> for Option<bool> {
    open spec fn uod(self, r: bool) -> bool { r == (self == Some(true)) }
    #[verifier::external_body]
    fn v_unwrap_or_default(self) -> (r: bool) { unimplemented!() }
}
}
verus! {
// ---------------------------------------------------------------------------
// Characters of a string. A str has at most isize::MAX bytes.
// ---------------------------------------------------------------------------
pub uninterp spec fn char_alphabetic(c: char) -> bool;
pub uninterp spec fn char_alphanumeric(c: char) -> bool;
pub trait CharX {
    spec fn cv(self) -> char;
    fn v_is_alphabetic(self) -> (r: bool) ensures r == char_alphabetic(self.cv());
    fn v_is_alphanumeric(self) -> (r: bool) ensures r == char_alphanumeric(self.cv());
}
impl CharX for char {
    open spec fn cv(self) -> char { self }
    #[verifier::external_body]
    fn v_is_alphabetic(self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn v_is_alphanumeric(self) -> (r: bool) { unimplemented!() }
}
// str::chars as an iterator value.
#[verifier::external_body]
pub struct VChars { _p: () }
impl View for VChars { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VChars {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_rest(&mut self) -> (r: Vec<char>) ensures r@ == old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn v_enumerate(self) -> (r: Vec<(usize, char)>)
        ensures r@.len() == self@.len(), r@.len() <= isize::MAX,
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, self@[i]) { unimplemented!() }
}
pub trait CharsX {
    spec fn chv(&self) -> Seq<char>;
    fn v_chars(&self) -> (r: VChars) ensures r@ == self.chv();
}
impl CharsX for str {
    open spec fn chv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_chars(&self) -> (r: VChars) { unimplemented!() }
}
pub trait VIterEnum<T> {
    spec fn iev(&self) -> Seq<T>;
    fn v_iter_enum(&self) -> (r: Vec<(usize, &T)>)
        ensures r@.len() == self.iev().len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, &self.iev()[i]);
}
impl<T> VIterEnum<T> for [T] {
    open spec fn iev(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter_enum(&self) -> (r: Vec<(usize, &T)>) { unimplemented!() }
}
impl<T> VIterEnum<T> for Vec<T> {
    open spec fn iev(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_iter_enum(&self) -> (r: Vec<(usize, &T)>) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_vec_rep<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x { unimplemented!() }
pub trait VMinMax: Sized {
    spec fn mi(self) -> int;
    fn v_min(self, o: Self) -> (r: Self) ensures r.mi() == (if self.mi() <= o.mi() { self.mi() } else { o.mi() });
    fn v_max(self, o: Self) -> (r: Self) ensures r.mi() == (if self.mi() >= o.mi() { self.mi() } else { o.mi() });
}
impl VMinMax for usize {
    open spec fn mi(self) -> int { self as int }
    fn v_min(self, o: usize) -> (r: usize) { if self <= o { self } else { o } }
    fn v_max(self, o: usize) -> (r: usize) { if self >= o { self } else { o } }
}
// The pieces of s between occurrences of c.
pub open spec fn split_spec(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    let i = first_index(s, c);
    if i < 0 || i >= s.len() { seq![s] } else { seq![s.subrange(0, i)] + split_spec(s.subrange(i + 1, s.len() as int), c) }
}
pub trait SplitX {
    spec fn spv(&self) -> Seq<char>;
    fn v_split(&self, c: char) -> (r: Vec<&str>)
        ensures r@.len() == split_spec(self.spv(), c).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_spec(self.spv(), c)[i];
}
impl SplitX for str {
    open spec fn spv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_split(&self, c: char) -> (r: Vec<&str>) { unimplemented!() }
}
impl<K: View, V> IndexMap<K, V> {
    #[verifier::external_body]
    pub fn reserve(&mut self, n: usize) ensures *final(self) == *old(self) { unimplemented!() }
}
}
verus! {
// Vectors: content determines the value (capacity is not observable).
pub uninterp spec fn mk_vec<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn axiom_vec_ext<T>(v: Vec<T>)
    ensures mk_vec(#[trigger] v@) == v;
pub broadcast axiom fn axiom_mk_vec<T>(s: Seq<T>)
    ensures s.len() <= usize::MAX ==> (#[trigger] mk_vec(s))@ == s;
pub proof fn lemma_vec2<T>(a: T, b: T)
    ensures forall|v: Vec<T>| (#[trigger] v@).len() == 2 && v@[0] == a && v@[1] == b ==> v == mk_vec(seq![a, b]),
{
    broadcast use axiom_vec_ext;
    assert forall|v: Vec<T>| (#[trigger] v@).len() == 2 && v@[0] == a && v@[1] == b implies v == mk_vec(seq![a, b]) by {
        assert(v@ =~= seq![a, b]);
    }
}
pub proof fn lemma_vec_len<T>(v: Vec<T>)
    ensures v@.len() <= usize::MAX,
{
    assert(vstd::std_specs::vec::spec_vec_len(&v) == v@.len());
}
// str::parse.
pub trait VFrom: Sized {
    type E;
    spec fn parsed(s: Seq<char>) -> Option<Self>;
    fn v_from(s: &str) -> (r: Result<Self, Self::E>)
        ensures (match r { Ok(p) => Some(p), Err(_) => None }) == Self::parsed(s@);
}
pub trait VParse {
    spec fn pav(&self) -> Seq<char>;
    fn v_parse<T: VFrom>(&self) -> (r: Result<T, T::E>)
        ensures (match r { Ok(p) => Some(p), Err(_) => None }) == T::parsed(self.pav());
}
impl VParse for str {
    open spec fn pav(&self) -> Seq<char> { self@ }
    fn v_parse<T: VFrom>(&self) -> (r: Result<T, T::E>) { T::v_from(self) }
}
#[verifier::external_body]
pub fn v_u32_try_from(v: u64) -> (r: Result<u32, ()>)
    ensures v <= u32::MAX ==> r == Ok::<u32, ()>(v as u32), v > u32::MAX ==> r is Err { unimplemented!() }
}
verus! {
pub assume_specification<T>[ std::mem::replace ](a: &mut T, b: T) -> (r: T)
    ensures *final(a) == b, r == *old(a);
// ---------------------------------------------------------------------------
// Paths and the file system. The file system is assumed not to change while a
// conversion runs; what it holds is uninterpreted.
// ---------------------------------------------------------------------------
pub uninterp spec fn path_join(a: Seq<char>, b: Seq<char>) -> Seq<char>;
pub uninterp spec fn path_exists(p: Seq<char>) -> bool;
pub uninterp spec fn path_canon(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn file_text(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn json_of(s: Seq<char>) -> Option<Value>;
#[verifier::external_body]
pub struct IoError { _p: () }
#[verifier::external_body]
pub struct Display { _p: () }
impl VDisp for Display {
    uninterp spec fn dv(&self) -> Seq<char>;
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { unimplemented!() }
}
impl Display {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.dv() { unimplemented!() }
}
#[verifier::external_body]
pub struct Path { _p: () }
impl View for Path { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// An owned path is the same thing as far as contracts go.
pub type PathBuf = Path;
pub uninterp spec fn path_parent(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_disp(p: Seq<char>) -> Seq<char>;
pub uninterp spec fn path_file_name(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_ext(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn os_str(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn path_is_dir(p: Seq<char>) -> bool;
pub uninterp spec fn cwd() -> Option<Seq<char>>;
// The canonical paths of the file system are finitely many.
pub uninterp spec fn fs_paths() -> Set<Seq<char>>;
pub broadcast axiom fn axiom_fs_paths(p: Seq<char>)
    ensures (#[trigger] path_canon(p)) is Some ==> fs_paths().contains(path_canon(p)->0);
#[verifier::external_body]
pub struct OsStr { _p: () }
impl View for OsStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OsStr {
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures osv(r) == os_str(self@) { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn from<S: VStr>(s: S) -> (r: Path) ensures r@ == s.sv() { unimplemented!() }
    #[verifier::external_body]
    pub fn join<S: VStr>(&self, s: S) -> (r: PathBuf) ensures r@ == path_join(self@, s.sv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: Display) ensures r.dv() == path_disp(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == path_exists(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == path_is_dir(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures r is Some <==> path_parent(self@) is Some, r is Some ==> r->0@ == path_parent(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>)
        ensures r is Some <==> path_file_name(self@) is Some, r is Some ==> r->0@ == path_file_name(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsStr>)
        ensures r is Some <==> path_ext(self@) is Some, r is Some ==> r->0@ == path_ext(self@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn canonicalize(&self) -> (r: Result<PathBuf, IoError>)
        ensures r is Ok <==> path_canon(self@) is Some, r is Ok ==> r->Ok_0@ == path_canon(self@)->0 { unimplemented!() }
}
impl Clone for Path {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub fn v_current_dir() -> (r: Result<PathBuf, IoError>)
    ensures r is Ok <==> cwd() is Some, r is Ok ==> r->Ok_0@ == cwd()->0 { unimplemented!() }
#[verifier::external_body]
pub fn v_read_to_string(p: &Path) -> (r: Result<String, IoError>)
    ensures r is Ok <==> file_text(p@) is Some, r is Ok ==> r->Ok_0@ == file_text(p@)->0 { unimplemented!() }
}
verus! {
// ---------------------------------------------------------------------------
// Bytes of a string: UTF-8 lengths, so that byte offsets (len, slicing, find)
// have a meaning over the characters.
// ---------------------------------------------------------------------------
pub open spec fn clen(c: char) -> nat {
    if (c as int) < 0x80 { 1 } else if (c as int) < 0x800 { 2 } else if (c as int) < 0x10000 { 3 } else { 4 }
}
pub open spec fn blen(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}
// The number of characters that end at or before byte b.
pub open spec fn cidx(s: Seq<char>, b: int) -> int
    decreases s.len()
{
    if blen(s) <= b || s.len() == 0 { s.len() as int } else { cidx(s.drop_last(), b) }
}
// Byte b is the start of a character (or the end) of s.
#[verifier::opaque]
pub open spec fn bnd(s: Seq<char>, b: int) -> bool { exists|n: int| 0 <= n <= s.len() && #[trigger] blen(s.take(n)) == b }
pub proof fn lemma_blen_take(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
    ensures n <= blen(s.take(n)) <= blen(s), blen(s.take(n)) == blen(s) ==> n == s.len(), s.take(s.len() as int) == s,
    decreases s.len()
{
    assert(s.take(s.len() as int) =~= s);
    if n < s.len() {
        lemma_blen_take(s.drop_last(), n);
        assert(s.drop_last().take(n) =~= s.take(n));
    } else if n > 0 {
        lemma_blen_take(s.drop_last(), n - 1);
        assert(s.drop_last().take(n - 1) =~= s.drop_last());
    }
}
pub proof fn lemma_cidx(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
    ensures cidx(s, blen(s.take(n)) as int) == n, bnd(s, blen(s.take(n)) as int),
    decreases s.len()
{
    reveal(bnd);
    lemma_blen_take(s, n);
    if n < s.len() {
        lemma_cidx(s.drop_last(), n);
        assert(s.drop_last().take(n) =~= s.take(n));
    }
}
pub proof fn lemma_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_blen_add(a, b.drop_last());
    }
}
// The first n characters are all ASCII: characters and bytes coincide.
pub proof fn lemma_ascii_prefix(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i] as int) < 0x80,
    ensures blen(s.take(n)) == n, cidx(s, n) == n, bnd(s, n),
    decreases n
{
    if n > 0 {
        lemma_ascii_prefix(s, n - 1);
        assert(s.take(n).drop_last() =~= s.take(n - 1));
    } else { assert(s.take(0) =~= Seq::empty()); }
    lemma_cidx(s, n);
}

// Patterns: a character, a string or a set of characters.
pub trait VPat: Sized {
    spec fn at_start(self, s: Seq<char>) -> int;   // characters matched at the start, or -1
    spec fn at_end(self, s: Seq<char>) -> int;
    spec fn within(self, s: Seq<char>) -> bool;
}
impl VPat for char {
    open spec fn at_start(self, s: Seq<char>) -> int { if s.len() > 0 && s[0] == self { 1 } else { -1 } }
    open spec fn at_end(self, s: Seq<char>) -> int { if s.len() > 0 && s.last() == self { 1 } else { -1 } }
    open spec fn within(self, s: Seq<char>) -> bool { s.contains(self) }
}
impl<'a> VPat for &'a str {
    open spec fn at_start(self, s: Seq<char>) -> int { if self@.is_prefix_of(s) { self@.len() as int } else { -1 } }
    open spec fn at_end(self, s: Seq<char>) -> int { if self@.is_suffix_of(s) { self@.len() as int } else { -1 } }
    open spec fn within(self, s: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() && self@.is_prefix_of(#[trigger] s.skip(i)) }
}
impl<const N: usize> VPat for [char; N] {
    open spec fn at_start(self, s: Seq<char>) -> int { if s.len() > 0 && self@.contains(s[0]) { 1 } else { -1 } }
    open spec fn at_end(self, s: Seq<char>) -> int { if s.len() > 0 && self@.contains(s.last()) { 1 } else { -1 } }
    open spec fn within(self, s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && self@.contains(#[trigger] s[i]) }
}
// s without the character c.
pub open spec fn without(s: Seq<char>, c: char) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { s } else if s.last() == c { without(s.drop_last(), c) } else { without(s.drop_last(), c).push(s.last()) }
}
pub trait StrP {
    spec fn pv(&self) -> Seq<char>;
    fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == (p.at_start(self.pv()) >= 0);
    fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == (p.at_end(self.pv()) >= 0);
    fn v_has<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.within(self.pv());
    fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> p.at_start(self.pv()) >= 0, r is Some ==> r->0@ == self.pv().skip(p.at_start(self.pv()));
    fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> p.at_end(self.pv()) >= 0, r is Some ==> r->0@ == self.pv().take(self.pv().len() - p.at_end(self.pv()));
    fn v_len(&self) -> (r: usize) ensures r == blen(self.pv()), r <= isize::MAX;
    fn v_replace(&self, c: char, to: &str) -> (r: String) requires to@.len() == 0 ensures r@ == without(self.pv(), c);
    fn v_slice(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, bnd(self.pv(), a as int), bnd(self.pv(), b as int)
        ensures r@ == self.pv().subrange(cidx(self.pv(), a as int), cidx(self.pv(), b as int));
    fn v_slice_from(&self, a: usize) -> (r: &str)
        requires bnd(self.pv(), a as int)
        ensures r@ == self.pv().skip(cidx(self.pv(), a as int));
    fn v_slice_to(&self, b: usize) -> (r: &str)
        requires bnd(self.pv(), b as int)
        ensures r@ == self.pv().take(cidx(self.pv(), b as int));
    fn v_is_empty(&self) -> (r: bool) ensures r == (self.pv().len() == 0);
    fn v_trim_start(&self) -> (r: &str) ensures r@ == trim_l(self.pv());
    fn v_trim(&self) -> (r: &str) ensures r@ == trim_r(trim_l(self.pv()));
}
// char::is_whitespace
pub uninterp spec fn char_ws(c: char) -> bool;
pub open spec fn trim_l(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && char_ws(s[0]) { trim_l(s.skip(1)) } else { s } }
pub open spec fn trim_r(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && char_ws(s.last()) { trim_r(s.drop_last()) } else { s } }
impl StrP for str {
    open spec fn pv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_has<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn v_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn v_replace(&self, c: char, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_slice(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_is_empty(&self) -> (r: bool) { unimplemented!() }
}
// String building.
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();

// Characters and code points.
pub open spec fn scalar(v: int) -> bool { 0 <= v < 0xD800 || 0xE000 <= v <= 0x10FFFF }
pub assume_specification[ char::from_u32 ](v: u32) -> (r: Option<char>)
    ensures r is Some <==> scalar(v as int), r is Some ==> is_ch(r->0, v as int) && r->0 == ch_of(v as int);
// The character with code point v.
pub open spec fn is_ch(c: char, v: int) -> bool { c as int == v }
pub open spec fn ch_of(v: int) -> char { choose|c: char| #[trigger] is_ch(c, v) }

// Integers in text, as from_str_radix and parse read them.
pub open spec fn dig(c: char, radix: int) -> int {
    let v = if '0' <= c && c <= '9' { c as int - '0' as int }
        else if 'a' <= c && c <= 'z' { c as int - 'a' as int + 10 }
        else if 'A' <= c && c <= 'Z' { c as int - 'A' as int + 10 }
        else { -1 };
    if v < radix { v } else { -1 }
}
pub open spec fn digits(s: Seq<char>, radix: int) -> Option<int>
    decreases s.len()
{
    if s.len() == 0 { Some(0) }
    else {
        match digits(s.drop_last(), radix) {
            Some(v) => if dig(s.last(), radix) < 0 { None } else { Some(v * radix + dig(s.last(), radix)) },
            None => None,
        }
    }
}
pub open spec fn radix_int(s: Seq<char>, radix: int, signed: bool) -> Option<int> {
    if s.len() == 0 { None }
    else if s[0] == '+' || (signed && s[0] == '-') {
        if s.len() == 1 { None }
        else { match digits(s.skip(1), radix) { Some(v) => if s[0] == '-' { Some(-v) } else { Some(v) }, None => None } }
    } else { digits(s, radix) }
}
pub open spec fn in_range(o: Option<int>, lo: int, hi: int) -> Option<int> {
    match o { Some(v) => if lo <= v <= hi { Some(v) } else { None }, None => None }
}
#[verifier::external_body]
pub struct NumError { _p: () }
#[verifier::external_body]
pub fn v_i64_radix(s: &str, radix: u32) -> (r: Result<i64, NumError>)
    requires 2 <= radix <= 36,
    ensures (match r { Ok(v) => Some(v as int), Err(_) => None }) == in_range(radix_int(s@, radix as int, true), i64::MIN as int, i64::MAX as int),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_u32_radix(s: &str, radix: u32) -> (r: Result<u32, NumError>)
    requires 2 <= radix <= 36,
    ensures (match r { Ok(v) => Some(v as int), Err(_) => None }) == in_range(radix_int(s@, radix as int, false), 0, u32::MAX as int),
{ unimplemented!() }
impl VFrom for i64 {
    type E = NumError;
    open spec fn parsed(s: Seq<char>) -> Option<i64> {
        match in_range(radix_int(s, 10, true), i64::MIN as int, i64::MAX as int) { Some(v) => Some(v as i64), None => None }
    }
    #[verifier::external_body]
    fn v_from(s: &str) -> (r: Result<i64, NumError>) { unimplemented!() }
}
impl VFrom for i32 {
    type E = NumError;
    open spec fn parsed(s: Seq<char>) -> Option<i32> {
        match in_range(radix_int(s, 10, true), i32::MIN as int, i32::MAX as int) { Some(v) => Some(v as i32), None => None }
    }
    #[verifier::external_body]
    fn v_from(s: &str) -> (r: Result<i32, NumError>) { unimplemented!() }
}
impl VFrom for u32 {
    type E = NumError;
    open spec fn parsed(s: Seq<char>) -> Option<u32> {
        match in_range(radix_int(s, 10, false), 0, u32::MAX as int) { Some(v) => Some(v as u32), None => None }
    }
    #[verifier::external_body]
    fn v_from(s: &str) -> (r: Result<u32, NumError>) { unimplemented!() }
}
pub uninterp spec fn f64_of(s: Seq<char>) -> Option<f64>;
impl VFrom for f64 {
    type E = NumError;
    open spec fn parsed(s: Seq<char>) -> Option<f64> { f64_of(s) }
    #[verifier::external_body]
    fn v_from(s: &str) -> (r: Result<f64, NumError>) { unimplemented!() }
}
// serde_json::to_value.
pub open spec fn num_i(v: int) -> Number { mk_number(if v >= 0 { NumV::PosInt(v as u64) } else { NumV::NegInt(v as i64) }) }
pub trait VToVal: Sized { spec fn tv(self) -> Value; fn to_val(self) -> (r: Value) ensures r == self.tv(); }
impl VToVal for i64 {
    open spec fn tv(self) -> Value { Value::Number(num_i(self as int)) }
    #[verifier::external_body]
    fn to_val(self) -> (r: Value) { unimplemented!() }
}
impl VToVal for i32 {
    open spec fn tv(self) -> Value { Value::Number(num_i(self as int)) }
    #[verifier::external_body]
    fn to_val(self) -> (r: Value) { unimplemented!() }
}
impl VToVal for u32 {
    open spec fn tv(self) -> Value { Value::Number(num_i(self as int)) }
    #[verifier::external_body]
    fn to_val(self) -> (r: Value) { unimplemented!() }
}
impl<'a> VToVal for &'a str {
    open spec fn tv(self) -> Value { Value::String(mk_string(self@)) }
    #[verifier::external_body]
    fn to_val(self) -> (r: Value) { unimplemented!() }
}
pub fn v_value_from<T: VToVal>(x: T) -> (r: Value) ensures r == x.tv() { x.to_val() }
pub fn v_to_value<T: VToVal>(x: T) -> (r: Result<Value, IoError>) ensures r == Ok::<Value, IoError>(x.tv()) { Ok(x.to_val()) }
impl VChars {
    pub fn peekable(self) -> (r: VChars) ensures r@ == self@ { self }
    #[verifier::external_body]
    pub fn peek(&mut self) -> (r: Option<&char>)
        ensures final(self)@ == old(self)@,
            old(self)@.len() == 0 ==> r is None,
            old(self)@.len() > 0 ==> r is Some && *(r->0) == old(self)@[0] { unimplemented!() }
    // by_ref().take(n).collect::<String>()
    #[verifier::external_body]
    pub fn v_take_str(&mut self, n: usize) -> (r: String)
        ensures
            old(self)@.len() >= n ==> r@ == old(self)@.take(n as int) && final(self)@ == old(self)@.skip(n as int),
            old(self)@.len() < n ==> r@ == old(self)@ && final(self)@ == Seq::<char>::empty() { unimplemented!() }
}
impl Clone for VChars {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
}
}
verus! {
pub open spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\u{000C}' }
pub open spec fn trim_ws(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() > 0 && is_ws(s[0]) { trim_ws(s.skip(1)) } else { s }
}
// s.trim_start_matches(|c| c.is_ascii_whitespace())
#[verifier::external_body]
pub fn v_trim_start_ws(s: &str) -> (r: &str) ensures r@ == trim_ws(s@) { unimplemented!() }
// A double that is a whole number within the u32 range, and that number.
pub uninterp spec fn whole_u32(f: f64) -> Option<u32>;
pub uninterp spec fn num_f64(n: NumV) -> f64;
#[verifier::external_body]
pub fn v_is_whole_u32(f: f64) -> (r: bool) ensures r == (whole_u32(f) is Some) { unimplemented!() }
#[verifier::external_body]
pub fn v_f64_as_u32(f: f64) -> (r: u32) ensures whole_u32(f) is Some ==> r == whole_u32(f)->0 { unimplemented!() }
pub broadcast axiom fn axiom_whole_neg(n: i64)
    ensures n < 0 ==> whole_u32(#[trigger] num_f64(NumV::NegInt(n))) is None;
impl Number {
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<f64>) ensures r == Some(num_f64(self@)) { unimplemented!() }
}
impl PartialEqSpecImpl for Value {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Value) -> bool { *self == *o }
}
impl PartialEq for Value {
    #[verifier::external_body]
    fn eq(&self, o: &Value) -> (r: bool) { unimplemented!() }
}
}

verus! {
// Extend, take, leak, count.
pub trait VExtend<S>: Sized {
    spec fn ext(o: Self, s: S, r: Self) -> bool;
    fn v_extend(&mut self, s: S) ensures Self::ext(*old(self), s, *final(self));
}
impl<K: View, V> VExtend<HashMap<K, V>> for HashMap<K, V> {
    open spec fn ext(o: Self, s: Self, r: Self) -> bool { r@ == o@.union_prefer_right(s@) }
    #[verifier::external_body]
    fn v_extend(&mut self, s: HashMap<K, V>) { unimplemented!() }
}
impl<T> VExtend<Vec<T>> for Vec<T> {
    open spec fn ext(o: Self, s: Self, r: Self) -> bool { r@ == o@ + s@ }
    #[verifier::external_body]
    fn v_extend(&mut self, s: Vec<T>) { unimplemented!() }
}
pub trait VDefault: Sized {
    spec fn is_default(self) -> bool;
    fn v_default() -> (r: Self) ensures r.is_default();
}
impl<T> VDefault for Vec<T> {
    open spec fn is_default(self) -> bool { self@ == Seq::<T>::empty() }
    fn v_default() -> (r: Self) { Vec::new() }
}
impl<K: View, V> VDefault for HashMap<K, V> {
    open spec fn is_default(self) -> bool { self@ == Map::<K::V, V>::empty() }
    fn v_default() -> (r: Self) { HashMap::new() }
}
pub fn v_take<T: VDefault>(a: &mut T) -> (r: T) ensures r == *old(a), final(a).is_default() {
    let d = T::v_default();
    std::mem::replace(a, d)
}
#[verifier::external_body]
pub fn v_leak_str(s: String) -> (r: &'static str) ensures r@ == s@ { unimplemented!() }
pub trait VLeak { spec fn lv(&self) -> Seq<char>; fn v_leak(self) -> (r: &'static str) ensures r@ == self.lv(); }
impl VLeak for String {
    open spec fn lv(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_leak(self) -> (r: &'static str) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_inc(n: usize) -> (r: usize) ensures n < usize::MAX ==> r == n + 1 { unimplemented!() }
// Sorting under some comparison: a permutation.
#[verifier::external_body]
pub fn v_sort<T>(v: &mut Vec<T>)
    ensures final(v)@.len() == old(v)@.len(), final(v)@.to_multiset() == old(v)@.to_multiset() { unimplemented!() }
// Sorting strings: what comes out depends on which strings they are only.
pub uninterp spec fn sorted_names(s: Set<Seq<char>>) -> Seq<Seq<char>>;
pub trait VSortNames { spec fn snv(&self) -> Seq<Seq<char>>;
    fn v_sort_unstable(&mut self)
        ensures old(self).snv().no_duplicates() ==> final(self).snv() == sorted_names(old(self).snv().to_set()), final(self).snv().to_multiset() == old(self).snv().to_multiset(); }
impl VSortNames for Vec<&str> {
    open spec fn snv(&self) -> Seq<Seq<char>> { str_views(self@) }
    #[verifier::external_body] fn v_sort_unstable(&mut self) { unimplemented!() }
}
// An owned vector being consumed by hand.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VIter<T> { _p: std::marker::PhantomData<T> }
impl<T> View for VIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> VIter<T> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.drop_first(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_rest(self) -> (r: Vec<T>) ensures r@ == self@ { unimplemented!() }
}
pub trait VIntoIter<T> { spec fn iv(&self) -> Seq<T>; fn v_into_iter(self) -> (r: VIter<T>) ensures r@ == self.iv(); }
impl<T> VIntoIter<T> for Vec<T> {
    open spec fn iv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn v_into_iter(self) -> (r: VIter<T>) { unimplemented!() }
}
// Reports: what they are made of decides what they are.
pub type MResult<T, E = Report> = std::result::Result<T, E>;
pub uninterp spec fn report_wrap(e: Report, s: Seq<char>) -> Report;
pub trait VContext<S> {
    spec fn ctx(self, s: S) -> Self;
    fn v_context(self, s: S) -> (r: Self) ensures r == self.ctx(s);
}
impl<T, S: VStr> VContext<S> for std::result::Result<T, Report> {
    open spec fn ctx(self, s: S) -> Self { match self { Ok(x) => Ok(x), Err(e) => Err(report_wrap(e, s.sv())) } }
    #[verifier::external_body]
    fn v_context(self, s: S) -> (r: Self) { unimplemented!() }
}
impl<S: VStr> VContext<S> for Report {
    open spec fn ctx(self, s: S) -> Self { report_wrap(self, s.sv()) }
    #[verifier::external_body]
    fn v_context(self, s: S) -> (r: Self) { unimplemented!() }
}
impl Report {
    #[verifier::external_body]
    pub fn v_wrap_err<S: VStr>(self, s: S) -> (r: Report) ensures r == report_wrap(self, s.sv()) { unimplemented!() }
    pub fn new<D: VInto<Report>>(d: D) -> (r: Report) ensures r == d.vi() { d.v_into() }
}
impl VDisp for Report {
    uninterp spec fn dv(&self) -> Seq<char>;
    #[verifier::external_body]
    fn disp(&self) -> (r: String) { unimplemented!() }
}
}

verus! {
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub trait VToVec<T> { spec fn tvv(&self) -> Seq<T>; fn v_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.tvv(); }
impl VToVec<Path> for [Path] {
    open spec fn tvv(&self) -> Seq<Path> { self@ }
    #[verifier::external_body]
    fn v_to_vec(&self) -> (r: Vec<Path>) { unimplemented!() }
}
}

verus! {
pub trait VPathArg { spec fn pv(&self) -> Seq<char>; fn v_as_path(&self) -> (r: &Path) ensures r@ == self.pv(); }
// Walking a directory: in file-name order once sorted, in some order otherwise.
pub uninterp spec fn walk_sorted(dir: Seq<char>) -> Seq<std::result::Result<DirEntry, IoError>>;
#[verifier::external_body]
pub struct DirEntry { _p: () }
impl View for DirEntry { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl DirEntry {
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Path) ensures r@ == self@ { unimplemented!() }
}
pub mod walkdir {
    use super::*;
    #[verifier::external_body]
    pub struct WalkDir { _p: () }
    impl WalkDir {
        pub uninterp spec fn root(&self) -> Seq<char>;
        pub uninterp spec fn sorted(&self) -> bool;
        pub uninterp spec fn some_order(&self) -> Seq<std::result::Result<DirEntry, IoError>>;
        #[verifier::external_body]
        pub fn new(p: &Path) -> (r: WalkDir) ensures r.root() == p@ { unimplemented!() }
        #[verifier::external_body]
        pub fn sort_by_file_name(self) -> (r: WalkDir) ensures r.root() == self.root(), r.sorted() { unimplemented!() }
        #[verifier::external_body]
        pub fn into_iter(self) -> (r: Vec<std::result::Result<DirEntry, IoError>>)
            ensures r@ == (if self.sorted() { walk_sorted(self.root()) } else { self.some_order() }) { unimplemented!() }
    }
}
}

verus! {
pub trait VRsplit {
    spec fn rsv(&self) -> Seq<char>;
    fn v_rsplit(&self, c: char) -> (r: VIter<&str>)
        ensures r@.len() == split_spec(self.rsv(), c).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == split_spec(self.rsv(), c)[r@.len() - 1 - i];
}
impl VRsplit for str {
    open spec fn rsv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_rsplit(&self, c: char) -> (r: VIter<&str>) { unimplemented!() }
}
pub uninterp spec fn ascii_case_eq(a: Seq<char>, b: Seq<char>) -> bool;
pub trait VAsciiCase {
    spec fn acv(&self) -> Seq<char>;
    fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == ascii_case_eq(self.acv(), o@);
}
impl VAsciiCase for str {
    open spec fn acv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
}
pub proof fn lemma_split_some(s: Seq<char>, c: char)
    ensures split_spec(s, c).len() > 0,
{
}
}

// ---------------------------------------------------------------------------
// Effects: what a run printed and wrote, in order. The log is a ghost extra
// argument of the functions that have effects.
// ---------------------------------------------------------------------------
verus! {
pub struct WorldV {
    pub out: Seq<char>,                          // standard output
    pub err: Seq<char>,                          // standard error
    pub files: Seq<(Seq<char>, Seq<char>)>,      // completed writes: path, text
    pub dirs: Seq<Seq<char>>,                    // directories made
    pub faults: nat,                             // I/O operations that failed
    pub closed: bool,                            // the reader of stdout went away
}
#[verifier::external_body]
pub struct VWorld { _p: () }
impl View for VWorld { type V = WorldV; uninterp spec fn view(&self) -> WorldV; }
pub open spec fn w_empty(w: WorldV) -> bool { w.out.len() == 0 && w.err.len() == 0 && w.files.len() == 0 && w.dirs.len() == 0 && w.faults == 0 && !w.closed }

#[verifier::external_body]
pub fn v_print(w: &mut VWorld, t: String) ensures final(w)@ == (WorldV { out: old(w)@.out + t@, ..old(w)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn v_eprint(w: &mut VWorld, t: String) ensures final(w)@ == (WorldV { err: old(w)@.err + t@, ..old(w)@ }) { unimplemented!() }
#[verifier::external_body]
pub fn v_write_out(w: &mut VWorld, t: String) -> (r: Result<(), IoError>)
    ensures
        r is Ok ==> final(w)@ == (WorldV { out: old(w)@.out + t@, ..old(w)@ }),
        r is Err ==> exists|n: int| 0 <= n <= t@.len() && #[trigger] out_part(old(w)@, final(w)@, t@, n)
            && final(w)@.closed == (old(w)@.closed || io_kind(r->Err_0) == ErrorKind::BrokenPipe),
{ unimplemented!() }
pub open spec fn out_part(w0: WorldV, w1: WorldV, t: Seq<char>, n: int) -> bool {
    w1 == (WorldV { out: w0.out + t.take(n), faults: w0.faults + 1, closed: w1.closed, ..w0 })
}
#[verifier::external_body]
pub fn v_fs_write<P: VPathArg, S: VStr>(w: &mut VWorld, p: P, s: S) -> (r: Result<(), IoError>)
    ensures
        r is Ok ==> final(w)@ == (WorldV { files: old(w)@.files.push((p.pv(), s.sv())), ..old(w)@ }),
        r is Err ==> final(w)@ == (WorldV { faults: old(w)@.faults + 1, ..old(w)@ }),
{ unimplemented!() }
#[verifier::external_body]
pub fn v_fs_create_dir_all<P: VPathArg>(w: &mut VWorld, p: P) -> (r: Result<(), IoError>)
    ensures
        r is Ok ==> final(w)@ == (WorldV { dirs: old(w)@.dirs.push(p.pv()), ..old(w)@ }),
        r is Err ==> final(w)@ == (WorldV { faults: old(w)@.faults + 1, ..old(w)@ }),
{ unimplemented!() }
// Leaving the process: nothing was written, and a non-zero status has a report.
pub open spec fn exit_fine(w: WorldV, code: i32) -> bool {
    w.files.len() == 0 && w.dirs.len() == 0 && (code == 0 ==> w.err.len() == 0) && (code != 0 ==> w.out.len() == 0 && w.err.len() > 0)
}
#[verifier::external_body]
pub fn v_exit(w: &mut VWorld, code: i32) -> !
    requires exit_fine(old(w)@, code),
{ unimplemented!() }
// Standard input: None when it cannot be read as UTF-8 text.
pub uninterp spec fn stdin_text() -> Option<Seq<char>>;
#[verifier::external_body]
pub struct VStdin { _p: () }
#[verifier::external_body]
pub fn v_stdin() -> VStdin { unimplemented!() }
impl VStdin {
    #[verifier::external_body]
    pub fn read_to_string(&self, b: &mut String) -> (r: Result<usize, IoError>)
        ensures r is Ok <==> stdin_text() is Some, r is Ok ==> final(b)@ == old(b)@ + stdin_text()->0 { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ErrorKind { BrokenPipe, NotFound, Other }
pub uninterp spec fn io_kind(e: IoError) -> ErrorKind;
impl IoError {
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == io_kind(*self) { unimplemented!() }
}
pub trait VDbg { spec fn gv(&self) -> Seq<char>; fn dbg(&self) -> (r: String) ensures r@ == self.gv(); }
impl VDbg for Report {
    uninterp spec fn gv(&self) -> Seq<char>;
    #[verifier::external_body]
    fn dbg(&self) -> (r: String) { unimplemented!() }
}
impl<T: VDbg + ?Sized> VDbg for &T {
    open spec fn gv(&self) -> Seq<char> { (**self).gv() }
    fn dbg(&self) -> (r: String) { (**self).dbg() }
}
// serde_json::to_string_pretty of a Value cannot fail (keys are strings).
pub uninterp spec fn pretty(v: Value) -> Seq<char>;
#[verifier::external_body]
pub fn v_pretty(v: &Value) -> (r: Result<String, IoError>) ensures r is Ok, r->Ok_0@ == pretty(*v) { unimplemented!() }
#[verifier::external_body]
pub fn v_opaque_str() -> (r: &'static str) { unimplemented!() }
impl VPathArg for Path { open spec fn pv(&self) -> Seq<char> { self@ } fn v_as_path(&self) -> (r: &Path) { self } }
impl VPathArg for String { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_as_path(&self) -> (r: &Path) { unimplemented!() } }
impl VPathArg for str { open spec fn pv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn v_as_path(&self) -> (r: &Path) { unimplemented!() } }
impl<T: VPathArg + ?Sized> VPathArg for &T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } fn v_as_path(&self) -> (r: &Path) { (**self).v_as_path() } }
impl VInto<Path> for &Path { open spec fn vi(self) -> Path { *self } fn v_into(self) -> (r: Path) { self.clone() } }
impl VInto<Path> for Path { open spec fn vi(self) -> Path { self } fn v_into(self) -> (r: Path) { self } }
pub trait VCloned { fn v_cloned(self) -> (r: Option<String>) ensures ov(r) == self.clv(); spec fn clv(self) -> Option<Seq<char>>; }
impl VCloned for Option<&String> {
    open spec fn clv(self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } }
    #[verifier::external_body]
    fn v_cloned(self) -> (r: Option<String>) { unimplemented!() }
}

#[verifier::external_body]
pub fn v_set_hook() -> (r: MResult<()>) ensures r is Ok { unimplemented!() }
// lexopt: a state machine over the arguments.
pub mod lexopt {
    use super::*;
    #[verifier::external_body]
    pub struct OsString { _p: () }
    impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
    // As text: None when it is not UTF-8.
    pub uninterp spec fn os_text(s: OsString) -> Option<Seq<char>>;
    impl OsString {
        #[verifier::external_body]
        pub fn string(self) -> (r: Result<String, Error>)
            ensures r is Ok <==> os_text(self) is Some, r is Ok ==> r->Ok_0@ == os_text(self)->0 { unimplemented!() }
    }
    pub enum Error { MissingValue { option: Option<String> }, Other }
    impl VDisp for Error {
        uninterp spec fn dv(&self) -> Seq<char>;
        #[verifier::external_body]
        fn disp(&self) -> (r: String) { unimplemented!() }
    }
    pub enum Arg { Short(char), Long(&'static str), Value(OsString) }
    impl Arg {
        #[verifier::external_body]
        pub fn unexpected(self) -> (r: Error) { unimplemented!() }
    }
    pub ghost struct Lx { pub id: int }
    pub uninterp spec fn lx_env() -> Lx;
    // Next argument: None at the end or on an error.
    pub enum Step { Arg(Arg), End, Fail }
    pub uninterp spec fn lx_next(s: Lx) -> (Step, Lx);
    pub uninterp spec fn lx_value(s: Lx) -> (Option<OsString>, Lx);
    pub uninterp spec fn lx_left(s: Lx) -> nat;
    // There are finitely many arguments, and each call consumes some.
    pub broadcast axiom fn axiom_lx_next(s: Lx)
        ensures (#[trigger] lx_next(s)).0 is Arg ==> lx_left(lx_next(s).1) < lx_left(s);
    pub broadcast axiom fn axiom_lx_value(s: Lx)
        ensures lx_left((#[trigger] lx_value(s)).1) <= lx_left(s);
    #[verifier::external_body]
    pub struct Parser { _p: () }
    impl View for Parser { type V = Lx; uninterp spec fn view(&self) -> Lx; }
    impl Parser {
        #[verifier::external_body]
        pub fn from_env() -> (r: Parser) ensures r@ == lx_env() { unimplemented!() }
        #[verifier::external_body]
        pub fn next(&mut self) -> (r: Result<Option<Arg>, Error>)
            ensures
                final(self)@ == lx_next(old(self)@).1,
                match r { Ok(Some(a)) => lx_next(old(self)@).0 == Step::Arg(a), Ok(None) => lx_next(old(self)@).0 is End, Err(_) => lx_next(old(self)@).0 is Fail },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn value(&mut self) -> (r: Result<OsString, Error>)
            ensures
                final(self)@ == lx_value(old(self)@).1,
                match r { Ok(a) => lx_value(old(self)@).0 == Some(a), Err(_) => lx_value(old(self)@).0 is None },
        { unimplemented!() }
    }
}
}
