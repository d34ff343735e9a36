// Byte positions in strings: UTF-8 bytes, prefixes, tails, searches.
// Lemmas are proved; `external_body` items are assumed contracts of str methods.
#![allow(unused)]
use vstd::prelude::*;
use crate::stubs::*;
verus! {

// ---------------------------------------------------------------------------
// The UTF-8 encoding.
// ---------------------------------------------------------------------------
pub open spec fn enc(c: char) -> Seq<u8> {
    let v = c as int;
    if v < 0x80 { seq![v as u8] }
    else if v < 0x800 { seq![(0xC0 + v / 64) as u8, (0x80 + v % 64) as u8] }
    else if v < 0x10000 { seq![(0xE0 + v / 4096) as u8, (0x80 + (v / 64) % 64) as u8, (0x80 + v % 64) as u8] }
    else { seq![(0xF0 + v / 262144) as u8, (0x80 + (v / 4096) % 64) as u8, (0x80 + (v / 64) % 64) as u8, (0x80 + v % 64) as u8] }
}
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8>
    decreases s.len()
{
    if s.len() == 0 { seq![] } else { bytes_of(s.drop_last()) + enc(s.last()) }
}
pub proof fn lemma_enc(c: char)
    ensures enc(c).len() == clen(c), clen(c) > 1 ==> forall|i: int| 0 <= i < enc(c).len() ==> (#[trigger] enc(c)[i]) >= 0x80,
        clen(c) == 1 ==> enc(c)[0] < 0x80,
{
    let v = c as int;
    assert(0 <= v <= 0x10FFFF);
    assert(v < 0x800 ==> 0xC0 + v / 64 < 256) by (nonlinear_arith) requires 0 <= v <= 0x10FFFF;
    assert(v < 0x10000 ==> 0xE0 + v / 4096 < 256) by (nonlinear_arith) requires 0 <= v <= 0x10FFFF;
    assert(0xF0 + v / 262144 < 256) by (nonlinear_arith) requires 0 <= v <= 0x10FFFF;
    assert(0 <= v % 64 < 64 && 0 <= (v / 64) % 64 < 64 && 0 <= (v / 4096) % 64 < 64 && v / 64 >= 0 && v / 4096 >= 0 && v / 262144 >= 0) by (nonlinear_arith) requires 0 <= v <= 0x10FFFF;
}
pub proof fn lemma_bytes_len(s: Seq<char>)
    ensures bytes_of(s).len() == blen(s),
    decreases s.len()
{
    if s.len() > 0 { lemma_bytes_len(s.drop_last()); lemma_enc(s.last()); }
}
// An ASCII byte is a whole character.
pub broadcast proof fn lemma_ascii_byte(s: Seq<char>, p: int)
    requires 0 <= p < blen(s), (#[trigger] bytes_of(s)[p]) < 0x80,
    ensures bnd(s, p), bnd(s, p + 1),
    decreases s.len()
{
    reveal(bnd);
    if s.len() > 0 {
        lemma_bytes_len(s);
        lemma_bytes_len(s.drop_last());
        lemma_enc(s.last());
        let b0 = blen(s.drop_last()) as int;
        assert(s.take(s.len() - 1) =~= s.drop_last());
        assert(s.take(s.len() as int) =~= s);
        if p < b0 {
            assert(bytes_of(s)[p] == bytes_of(s.drop_last())[p]);
            lemma_ascii_byte(s.drop_last(), p);
            lemma_bnd_pre(s.drop_last(), s, p);
            lemma_bnd_pre(s.drop_last(), s, p + 1);
        } else {
            assert(bytes_of(s)[p] == enc(s.last())[p - b0]);
            assert(clen(s.last()) == 1);
            assert(blen(s.take(s.len() - 1)) == p);
            assert(blen(s.take(s.len() as int)) == p + 1);
        }
    }
}

// ---------------------------------------------------------------------------
// Boundaries.
// ---------------------------------------------------------------------------
pub broadcast proof fn lemma_bnd_ends(s: Seq<char>)
    ensures #[trigger] bnd(s, 0), bnd(s, blen(s) as int),
{
    reveal(bnd);
    assert(s.take(0) =~= seq![]);
    assert(blen(s.take(0)) == 0);
    assert(s.take(s.len() as int) =~= s);
    assert(blen(s.take(s.len() as int)) == blen(s));
}
pub broadcast proof fn lemma_bnd_end(s: Seq<char>)
    ensures bnd(s, (#[trigger] blen(s)) as int), bnd(s, 0),
{ lemma_bnd_ends(s); }
pub proof fn lemma_cidx_of(s: Seq<char>, b: int)
    requires bnd(s, b),
    ensures 0 <= cidx(s, b) <= s.len(), blen(s.take(cidx(s, b))) == b, 0 <= b <= blen(s),
{
    reveal(bnd);
    let n = choose|n: int| 0 <= n <= s.len() && #[trigger] blen(s.take(n)) == b;
    lemma_cidx(s, n);
    lemma_blen_take(s, n);
}
pub broadcast proof fn lemma_bnd_range(s: Seq<char>, b: int)
    requires #[trigger] bnd(s, b),
    ensures 0 <= b <= blen(s), 0 <= cidx(s, b) <= s.len(),
{ lemma_cidx_of(s, b); }
// A prefix has the boundaries of the text up to its length.
pub broadcast proof fn lemma_bnd_pre(a: Seq<char>, s: Seq<char>, b: int)
    requires #[trigger] a.is_prefix_of(s), #[trigger] bnd(a, b),
    ensures bnd(s, b), 0 <= b <= blen(a) <= blen(s),
{
    lemma_cidx_of(a, b);
    let n = cidx(a, b);
    assert(a.take(n) =~= s.take(n));
    lemma_cidx(s, n);
    assert(s.take(a.len() as int) =~= a);
    lemma_blen_take(s, a.len() as int);
}
pub broadcast proof fn lemma_bnd_down(a: Seq<char>, s: Seq<char>, b: int)
    requires #[trigger] a.is_prefix_of(s), #[trigger] bnd(s, b), b <= blen(a),
    ensures bnd(a, b),
{
    lemma_cidx_of(s, b);
    let n = cidx(s, b);
    assert(s.take(a.len() as int) =~= a);
    if n <= a.len() {
        assert(a.take(n) =~= s.take(n));
        lemma_cidx(a, n);
    } else {
        lemma_blen_take(s.take(n), a.len() as int);
        assert(s.take(n).take(a.len() as int) =~= a);
    }
}
pub broadcast proof fn lemma_pre_trans(a: Seq<char>, b: Seq<char>, s: Seq<char>)
    requires #[trigger] a.is_prefix_of(b), #[trigger] b.is_prefix_of(s),
    ensures a.is_prefix_of(s),
{
    assert forall|i: int| 0 <= i < a.len() implies a[i] == s[i] by {}
}
pub proof fn lemma_pre_len(a: Seq<char>, s: Seq<char>)
    requires a.is_prefix_of(s),
    ensures blen(a) <= blen(s),
{
    assert(s.take(a.len() as int) =~= a);
    lemma_blen_take(s, a.len() as int);
}
pub broadcast proof fn lemma_trim_pre(s: Seq<char>)
    ensures (#[trigger] trim_r(s)).is_prefix_of(s),
    decreases s.len()
{
    if s.len() > 0 && char_ws(s.last()) { lemma_trim_pre(s.drop_last()); }
}
// Positions in the text after byte a.
pub open spec fn tail(s: Seq<char>, a: int) -> Seq<char> { s.skip(cidx(s, a)) }
pub broadcast proof fn lemma_tail(s: Seq<char>, a: int, b: int)
    requires bnd(s, a), #[trigger] bnd(s.skip(cidx(s, a)), b),
    ensures bnd(s, a + b),
{
    lemma_cidx_of(s, a);
    lemma_cidx_of(tail(s, a), b);
    let n = cidx(s, a);
    let m = cidx(tail(s, a), b);
    assert(s.take(n + m) =~= s.take(n) + tail(s, a).take(m));
    lemma_blen_add(s.take(n), tail(s, a).take(m));
    lemma_cidx(s, n + m);
}
pub broadcast proof fn lemma_tail_len(s: Seq<char>, a: int)
    requires bnd(s, a),
    ensures #[trigger] blen(s.skip(cidx(s, a))) == blen(s) - a,
{
    lemma_cidx_of(s, a);
    let n = cidx(s, a);
    assert(s =~= s.take(n) + s.skip(n));
    lemma_blen_add(s.take(n), s.skip(n));
}
// Position b of the text, seen from its tail at a.
pub broadcast proof fn lemma_tail_up(s: Seq<char>, a: int, b: int)
    requires bnd(s, a), #[trigger] bnd(s, b), a <= b,
    ensures bnd(#[trigger] tail(s, a), b - a),
{
    lemma_cidx_of(s, a);
    lemma_cidx_of(s, b);
    let n = cidx(s, a);
    let m = cidx(s, b);
    if m < n {
        lemma_blen_take(s.take(n), m);
        assert(s.take(n).take(m) =~= s.take(m));
    } else {
        assert(s.take(m) =~= s.take(n) + tail(s, a).take(m - n));
        lemma_blen_add(s.take(n), tail(s, a).take(m - n));
        lemma_cidx(tail(s, a), m - n);
    }
}
pub broadcast proof fn lemma_head_len(s: Seq<char>, b: int)
    requires bnd(s, b),
    ensures #[trigger] blen(s.take(cidx(s, b))) == b,
{ lemma_cidx_of(s, b); }
pub broadcast proof fn lemma_suffix(p: Seq<char>, s: Seq<char>)
    requires #[trigger] p.is_suffix_of(s),
    ensures blen(p) <= blen(s), bnd(s, blen(s) - blen(p)),
{
    let n = s.len() - p.len();
    assert(s =~= s.take(n) + p);
    lemma_blen_add(s.take(n), p);
    lemma_cidx(s, n);
}
pub broadcast proof fn lemma_one(c: char)
    ensures #[trigger] blen(seq![c]) == clen(c),
{ assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(blen(Seq::<char>::empty()) == 0); }
// The text ends with c.
pub proof fn lemma_last(s: Seq<char>)
    requires s.len() > 0,
    ensures blen(s) >= clen(s.last()), bnd(s, blen(s) - clen(s.last())),
{
    assert(s.take(s.len() - 1) =~= s.drop_last());
    lemma_cidx(s, s.len() - 1);
}
// Character by character the same lengths: the same boundaries.
pub proof fn lemma_same_lens(a: Seq<char>, b: Seq<char>, n: int)
    requires 0 <= n <= a.len(), a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> clen(#[trigger] a[i]) == clen(b[i]),
    ensures blen(a.take(n)) == blen(b.take(n)),
    decreases n
{
    if n > 0 {
        lemma_same_lens(a, b, n - 1);
        assert(a.take(n).drop_last() =~= a.take(n - 1));
        assert(b.take(n).drop_last() =~= b.take(n - 1));
    } else {
        assert(a.take(0) =~= b.take(0));
    }
}
pub proof fn lemma_same_bnd(a: Seq<char>, b: Seq<char>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> clen(#[trigger] a[i]) == clen(b[i]),
    ensures forall|k: int| #[trigger] bnd(a, k) ==> bnd(b, k),
{
    assert forall|k: int| #[trigger] bnd(a, k) implies bnd(b, k) by {
        lemma_cidx_of(a, k);
        lemma_same_lens(a, b, cidx(a, k));
        lemma_cidx(b, cidx(a, k));
    }
}
pub proof fn lemma_take_take(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
    ensures s.take(n).is_prefix_of(s),
{}
pub broadcast proof fn lemma_take_pre(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(),
    ensures (#[trigger] s.take(n)).is_prefix_of(s),
{}
pub broadcast proof fn lemma_pre_refl(s: Seq<char>, b: int)
    requires #[trigger] bnd(s, b),
    ensures s.is_prefix_of(s),
{}
// What a successful test of the end or the start says.
pub broadcast proof fn lemma_ends_char(c: char, s: Seq<char>)
    requires (#[trigger] c.at_end(s)) >= 0,
    ensures s.len() > 0, s.last() == c, blen(s) >= clen(c), bnd(s, blen(s) - clen(c)),
{ lemma_last(s); }
pub broadcast proof fn lemma_ends_str(p: &str, s: Seq<char>)
    requires (#[trigger] p.at_end(s)) >= 0,
    ensures p@.is_suffix_of(s), blen(s) >= blen(p@), bnd(s, blen(s) - blen(p@)),
{ lemma_suffix(p@, s); }
pub broadcast proof fn lemma_starts_str(p: &str, s: Seq<char>)
    requires (#[trigger] p.at_start(s)) >= 0,
    ensures p@.is_prefix_of(s), blen(s) >= blen(p@), bnd(s, blen(p@) as int),
{ lemma_bnd_ends(p@); lemma_bnd_pre(p@, s, blen(p@) as int); }
pub broadcast proof fn lemma_starts_char(c: char, s: Seq<char>)
    requires (#[trigger] c.at_start(s)) >= 0,
    ensures s.len() > 0, s[0] == c, blen(s) >= clen(c), bnd(s, clen(c) as int),
{
    lemma_one(c);
    assert(seq![c].is_prefix_of(s));
    lemma_bnd_ends(seq![c]);
    lemma_bnd_pre(seq![c], s, clen(c) as int);
}
pub proof fn lemma_cidx_mono(s: Seq<char>, a: int, b: int)
    requires bnd(s, a), bnd(s, b), a <= b,
    ensures cidx(s, a) <= cidx(s, b),
{
    lemma_cidx_of(s, a);
    lemma_cidx_of(s, b);
    let n = cidx(s, a);
    let m = cidx(s, b);
    if m < n {
        lemma_blen_take(s.take(n), m);
        assert(s.take(n).take(m) =~= s.take(m));
    }
}
pub broadcast proof fn lemma_sub_len(s: Seq<char>, a: int, b: int)
    requires bnd(s, a), bnd(s, b), a <= b,
    ensures #[trigger] blen(s.subrange(cidx(s, a), cidx(s, b))) == b - a,
{
    lemma_cidx_mono(s, a, b);
    lemma_cidx_of(s, a);
    lemma_cidx_of(s, b);
    let n = cidx(s, a);
    let m = cidx(s, b);
    assert(s.take(m) =~= s.take(n) + s.subrange(n, m));
    lemma_blen_add(s.take(n), s.subrange(n, m));
}
pub proof fn lemma_first_index(s: Seq<char>, c: char)
    ensures first_index(s, c) >= 0 ==> first_index(s, c) < s.len() && s[first_index(s, c)] == c,
    decreases s.len()
{
    if s.len() > 0 && s[0] != c { lemma_first_index(s.drop_first(), c); }
}
// The first piece, and the pieces of what follows it.
pub proof fn lemma_split_step(s: Seq<char>, c: char)
    ensures
        split_spec(s, c).len() > 0,
        split_spec(s, c)[0].is_prefix_of(s),
        split_spec(s, c).len() > 1 ==> {
            let p = split_spec(s, c)[0];
            p.len() < s.len() && s == p + seq![c] + s.skip(p.len() as int + 1) && split_spec(s.skip(p.len() as int + 1), c) == split_spec(s, c).skip(1)
        },
{
    lemma_first_index(s, c);
    let i = first_index(s, c);
    if !(i < 0 || i >= s.len()) {
        let t = s.subrange(i + 1, s.len() as int);
        assert(t =~= s.skip(i + 1));
        assert(split_spec(s, c) =~= seq![s.subrange(0, i)] + split_spec(t, c));
        assert(split_spec(s, c).skip(1) =~= split_spec(t, c));
        assert(s =~= s.subrange(0, i) + seq![c] + s.skip(i + 1));
    }
}
// A text is at most isize::MAX bytes long.
pub axiom fn axiom_str_len(s: &str)
    ensures blen(s@) <= isize::MAX;
pub broadcast group group_text {
    lemma_sub_len,
    lemma_ends_char,
    lemma_ends_str,
    lemma_starts_str,
    lemma_starts_char,
    lemma_ascii_byte,
    lemma_bnd_end,
    lemma_bnd_range,
    lemma_bnd_pre,
    lemma_bnd_down,
    lemma_pre_trans,
    lemma_trim_pre,
    lemma_tail,
    lemma_tail_len,
    lemma_head_len,
    lemma_suffix,
    lemma_take_pre,
}

// ---------------------------------------------------------------------------
// Methods of str.
// ---------------------------------------------------------------------------
pub trait VPatLen: VPat { spec fn plen(self) -> nat; }
impl VPatLen for char { open spec fn plen(self) -> nat { clen(self) } }
impl<'a> VPatLen for &'a str { open spec fn plen(self) -> nat { blen(self@) } }
// p occurs in s at byte b.
pub open spec fn occurs<P: VPatLen>(p: P, s: Seq<char>, b: int) -> bool { bnd(s, b) && p.at_start(tail(s, b)) >= 0 }

#[verifier::external_body]
pub struct VBytes { _p: () }
impl View for VBytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VBytes {
    #[verifier::external_body]
    pub fn rposition<F: Fn(u8) -> bool>(self, f: F) -> (r: Option<usize>)
        requires forall|b: u8| f.requires((b,)),
        ensures match r {
            None => forall|i: int| 0 <= i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
            Some(p) => p < self@.len() && f.ensures((self@[p as int],), true)
                && (p + 1 < self@.len() ==> f.ensures((self@[p + 1],), false)) && forall|i: int| p < i < self@.len() ==> f.ensures((#[trigger] self@[i],), false),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn v_enumerate(self) -> (r: Vec<(usize, u8)>)
        ensures r@.len() == self@.len(), r@.len() <= isize::MAX,
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, self@[i]) { unimplemented!() }
}
#[verifier::external_body]
pub struct VCharIdx { _p: () }
impl View for VCharIdx { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VCharIdx {
    #[verifier::external_body]
    pub fn nth(self, n: usize) -> (r: Option<(usize, char)>)
        ensures n < self@.len() ==> r == Some((blen(self@.take(n as int)) as usize, self@[n as int])) && blen(self@.take(n as int)) <= isize::MAX,
            n >= self@.len() ==> r is None { unimplemented!() }
}
pub trait TextX {
    spec fn xt(&self) -> Seq<char>;
    fn v_find<P: VPatLen>(&self, p: P) -> (r: Option<usize>)
        ensures
            r is Some ==> occurs(p, self.xt(), r->0 as int) && bnd(self.xt(), r->0 + p.plen()) && r->0 + p.plen() <= blen(self.xt()) <= isize::MAX
                && forall|b: int| 0 <= b < r->0 ==> !#[trigger] occurs(p, self.xt(), b),
            r is None ==> forall|b: int| !#[trigger] occurs(p, self.xt(), b);
    fn v_rfind<P: VPatLen>(&self, p: P) -> (r: Option<usize>)
        ensures
            r is Some ==> occurs(p, self.xt(), r->0 as int) && bnd(self.xt(), r->0 + p.plen()) && r->0 + p.plen() <= blen(self.xt()) <= isize::MAX
                && forall|b: int| b > r->0 ==> !#[trigger] occurs(p, self.xt(), b),
            r is None ==> forall|b: int| !#[trigger] occurs(p, self.xt(), b);
    // find with a predicate
    fn v_find_by<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>)
        requires forall|c: char| f.requires((c,)),
        ensures
            r is None ==> forall|i: int| 0 <= i < self.xt().len() ==> f.ensures((#[trigger] self.xt()[i],), false),
            r is Some ==> bnd(self.xt(), r->0 as int) && r->0 < blen(self.xt()) <= isize::MAX && {
                let n = cidx(self.xt(), r->0 as int);
                n < self.xt().len() && f.ensures((self.xt()[n],), true)
                    && forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] self.xt()[i],), false)
            };
    fn v_rmatch_indices<'a>(&'a self, p: &str) -> (r: Vec<(usize, &'a str)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> occurs(p, self.xt(), (#[trigger] r@[i]).0 as int) && bnd(self.xt(), r@[i].0 + blen(p@))
            && r@[i].0 + blen(p@) <= isize::MAX;
    fn v_get(&self, a: usize, b: usize) -> (r: Option<&str>)
        ensures r is Some <==> a <= b && bnd(self.xt(), a as int) && bnd(self.xt(), b as int),
            r is Some ==> r->0@ == self.xt().subrange(cidx(self.xt(), a as int), cidx(self.xt(), b as int));
    fn v_bytes(&self) -> (r: VBytes) ensures r@ == bytes_of(self.xt()), r@.len() == blen(self.xt()), r@.len() <= isize::MAX;
    fn v_as_bytes(&self) -> (r: &[u8]) ensures r@ == bytes_of(self.xt()), r@.len() == blen(self.xt()), r@.len() <= isize::MAX;
    fn v_char_indices(&self) -> (r: VCharIdx) ensures r@ == self.xt();
    fn v_trim_end(&self) -> (r: &str) ensures r@ == trim_r(self.xt());
    fn v_trim_matches(&self, c: char) -> (r: &str);
    fn v_to_ascii_lowercase(&self) -> (r: String) ensures r@.len() == self.xt().len(), blen(r@) == blen(self.xt()),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == lower(self.xt()[i]) && clen(r@[i]) == clen(self.xt()[i]);
    fn v_replacen(&self, a: &str, b: &str, n: usize) -> (r: String);
    fn v_replace_all(&self, a: &str, b: &str) -> (r: String);
}
// char::to_ascii_lowercase
pub open spec fn lower(c: char) -> char { if 'A' <= c && c <= 'Z' { ch_of(c as int + 32) } else { c } }
impl TextX for str {
    open spec fn xt(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn v_find<P: VPatLen>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_rfind<P: VPatLen>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_find_by<F: Fn(char) -> bool>(&self, f: F) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn v_rmatch_indices<'a>(&'a self, p: &str) -> (r: Vec<(usize, &'a str)>) { unimplemented!() }
    #[verifier::external_body] fn v_get(&self, a: usize, b: usize) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn v_bytes(&self) -> (r: VBytes) { unimplemented!() }
    #[verifier::external_body] fn v_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn v_char_indices(&self) -> (r: VCharIdx) { unimplemented!() }
    #[verifier::external_body] fn v_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_trim_matches(&self, c: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn v_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_replacen(&self, a: &str, b: &str, n: usize) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn v_replace_all(&self, a: &str, b: &str) -> (r: String) { unimplemented!() }
}
impl VChars {
    #[verifier::external_body]
    pub fn take_while<F: Fn(&char) -> bool>(self, f: F) -> (r: VChars)
        requires forall|c: char| f.requires((&c,)),
        ensures r@.is_prefix_of(self@), forall|i: int| 0 <= i < r@.len() ==> f.ensures((&#[trigger] self@[i],), true),
            r@.len() < self@.len() ==> f.ensures((&self@[r@.len() as int],), false) { unimplemented!() }
}
pub open spec fn ascii_alpha(v: int) -> bool { 0x41 <= v <= 0x5A || 0x61 <= v <= 0x7A }
pub open spec fn ascii_digit(v: int) -> bool { 0x30 <= v <= 0x39 }
pub assume_specification[ u8::is_ascii_alphanumeric ](b: &u8) -> (r: bool) ensures r == (ascii_alpha(*b as int) || ascii_digit(*b as int));
pub assume_specification[ char::is_ascii_alphanumeric ](b: &char) -> (r: bool) ensures r == (ascii_alpha(*b as int) || ascii_digit(*b as int));
pub assume_specification[ char::is_ascii_alphabetic ](b: &char) -> (r: bool) ensures r == ascii_alpha(*b as int);
pub assume_specification[ char::is_ascii_digit ](b: &char) -> (r: bool) ensures r == ascii_digit(*b as int);
// v[..b] on vectors and slices.
pub trait VecSlice<T> {
    spec fn vsv(&self) -> Seq<T>;
    fn v_slice_to(&self, b: usize) -> (r: &[T]) requires b <= self.vsv().len() ensures r@ == self.vsv().take(b as int);
}
impl<T> VecSlice<T> for Vec<T> {
    open spec fn vsv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
}
impl<T> VecSlice<T> for [T] {
    open spec fn vsv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_slice_to(&self, b: usize) -> (r: &[T]) { unimplemented!() }
}
impl VJoin for [String] { open spec fn jv(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i]@) } #[verifier::external_body] fn v_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub trait VEnumVec<T>: Sized {
    spec fn evv(self) -> Seq<T>;
    fn v_enumerate(self) -> (r: Vec<(usize, T)>)
        ensures r@.len() == self.evv().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (i as usize, self.evv()[i]);
}
impl<T> VEnumVec<T> for Vec<T> {
    open spec fn evv(self) -> Seq<T> { self@ }
    #[verifier::external_body] fn v_enumerate(self) -> (r: Vec<(usize, T)>) { unimplemented!() }
}
// a + b on strings
#[verifier::external_body]
pub fn v_concat(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
// Decimal integers: digits after an optional minus.
pub axiom fn axiom_int_dec(i: int)
    ensures int_dec(i).len() > 0, forall|k: int| 0 <= k < int_dec(i).len() ==> ascii_digit(#[trigger] int_dec(i)[k] as int) || (k == 0 && int_dec(i)[k] == '-');
}
