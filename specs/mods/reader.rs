//@module reader src/reader.rs
use crate::schema::*;
use crate::json::*;
use crate::protocol::*;
use crate::resolve::*;
use crate::error::*;
broadcast use {group_string, group_coll, group_json, axiom_jmap_decreases, axiom_vec_ext, axiom_mk_vec, axiom_indexmap_order};
pub type Result<T, E = Report> = std::result::Result<T, E>;

// ---------------------------------------------------------------------------
// String literals (Java string escapes, as in the Avro IDL grammar)
// ---------------------------------------------------------------------------
pub open spec fn is_oct(c: char) -> bool { '0' <= c && c <= '7' }
pub open spec fn is_hex(c: char) -> bool { dig(c, 16) >= 0 }
// The number of u's that s starts with.
pub open spec fn us(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() > 0 && s[0] == 'u' { 1 + us(s.skip(1)) } else { 0 }
}
proof fn lemma_us(s: Seq<char>)
    ensures 0 <= us(s) <= s.len(),
    decreases s.len()
{
    if s.len() > 0 && s[0] == 'u' { lemma_us(s.skip(1)); }
}
pub open spec fn hex4(s: Seq<char>) -> bool { s.len() >= 4 && is_hex(s[0]) && is_hex(s[1]) && is_hex(s[2]) && is_hex(s[3]) }
pub open spec fn hexv(s: Seq<char>) -> int { ((dig(s[0], 16) * 16 + dig(s[1], 16)) * 16 + dig(s[2], 16)) * 16 + dig(s[3], 16) }
// A unicode escape at the start of s: its value and its length.
pub open spec fn uni(s: Seq<char>) -> Option<(int, int)> {
    if s.len() >= 2 && s[0] == '\\' && s[1] == 'u' && hex4(s.skip(1 + us(s.skip(1)))) {
        Some((hexv(s.skip(1 + us(s.skip(1)))), 1 + us(s.skip(1)) + 4))
    } else { None }
}
pub open spec fn simple_esc(c: char) -> Option<char> {
    if c == 'n' { Some('\n') } else if c == 'r' { Some('\r') } else if c == 't' { Some('\t') }
    else if c == 'b' { Some('\u{0008}') } else if c == 'f' { Some('\u{000C}') }
    else if c == '\\' || c == '"' || c == '\'' { Some(c) } else { None }
}
pub open spec fn oct_len(s: Seq<char>) -> int {
    if s.len() == 0 || !is_oct(s[0]) { 0 }
    else if s.len() == 1 || !is_oct(s[1]) { 1 }
    else if s.len() == 2 || !is_oct(s[2]) || s[0] > '3' { 2 }
    else { 3 }
}
pub open spec fn octv(s: Seq<char>) -> int { digits(s.take(oct_len(s)), 8)->0 }
pub open spec fn high_sur(v: int) -> bool { 0xD800 <= v <= 0xDBFF }
pub open spec fn low_sur(v: int) -> bool { 0xDC00 <= v <= 0xDFFF }
// The first character (or escape) of a well-formed literal body: what it
// denotes and how long it is. A surrogate that has no partner denotes no
// character; it stays as it is written.
pub open spec fn first(s: Seq<char>) -> (Seq<char>, int) {
    if s[0] != '\\' { (seq![s[0]], 1) }
    else if s.len() == 1 { (seq!['\\'], 1) }
    else if simple_esc(s[1]) is Some { (seq![simple_esc(s[1])->0], 2) }
    else if is_oct(s[1]) { (seq![ch_of(octv(s.skip(1)))], 1 + oct_len(s.skip(1))) }
    else if uni(s) is Some {
        let (v, n) = uni(s)->0;
        if scalar(v) { (seq![ch_of(v)], n) }
        else if high_sur(v) && uni(s.skip(n)) is Some && low_sur((uni(s.skip(n))->0).0) {
            let (w, m) = uni(s.skip(n))->0;
            (seq![ch_of((v - 0xD800) * 0x400 + (w - 0xDC00) + 0x10000)], n + m)
        } else { ("\\u"@ + s.subrange(n - 4, n), n) }
    } else { (seq![], 1) }
}
pub open spec fn first_ok(s: Seq<char>) -> bool {
    s[0] != '\\' || (s.len() > 1 && (simple_esc(s[1]) is Some || is_oct(s[1]) || uni(s) is Some))
}
// Every backslash of s begins an escape sequence of the grammar.
pub open spec fn lit_ok(s: Seq<char>) -> bool
    decreases s.len()
{
    if s.len() == 0 { true }
    else { first_ok(s) && 1 <= first(s).1 <= s.len() && lit_ok(s.skip(first(s).1)) }
}
pub open spec fn unesc(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 || !(1 <= first(s).1 <= s.len()) { seq![] }
    else { first(s).0 + unesc(s.skip(first(s).1)) }
}
proof fn lemma_hex4(s: Seq<char>)
    requires s.len() == 4,
    ensures hex4(s) ==> radix_int(s, 16, false) == Some(hexv(s)),
{
    if hex4(s) {
        let s3 = s.drop_last(); let s2 = s3.drop_last(); let s1 = s2.drop_last();
        assert(s1.drop_last() =~= Seq::<char>::empty());
        assert(s1.last() == s[0] && s2.last() == s[1] && s3.last() == s[2] && s.last() == s[3]);
        assert(digits(Seq::<char>::empty(), 16) == Some(0int));
        assert(digits(s1, 16) == Some(dig(s[0], 16)));
        assert(digits(s2, 16) == Some(dig(s[0], 16) * 16 + dig(s[1], 16)));
        assert(digits(s3, 16) == Some((dig(s[0], 16) * 16 + dig(s[1], 16)) * 16 + dig(s[2], 16)));
        assert(digits(s, 16) == Some(hexv(s)));
    }
}

//@fn try_parse_low_surrogate
//@opt strlen hex
//@spec
    ensures
        uni(old(chars)@) is Some && low_sur((uni(old(chars)@)->0).0) ==>
            r is Some && r->0 == (uni(old(chars)@)->0).0 && final(chars)@ == old(chars)@.skip((uni(old(chars)@)->0).1),
        uni(old(chars)@) is Some && !low_sur((uni(old(chars)@)->0).0) ==> r is None,
        uni(old(chars)@) is None && lit_ok(old(chars)@) ==> r is None,
        r is None ==> final(chars)@ == old(chars)@,
        r is Some ==> low_sur(r->0 as int) && final(chars)@.len() <= old(chars)@.len(),
//@start
    let ghost c0 = chars@;
//@loop-before 0
    let ghost c1 = chars@;
    proof { assert(c1 =~= c0.skip(2)); assert(c0.skip(1).skip(1) =~= c1); assert(c1.skip(0) =~= c1); lemma_us(c1); }
//@loop 0
    invariant
        chars@.len() <= c1.len(),
        chars@ == c1.skip(c1.len() - chars@.len()),
        us(c1) == c1.len() - chars@.len() + us(chars@),
    decreases chars@.len(),
//@loop-end 0
    proof { assert(chars@ =~= c1.skip(c1.len() - chars@.len())); }
//@loop-after 0
    let ghost c2 = chars@;
    proof {
        assert(us(c2) == 0);
        assert(c2 =~= c0.skip(1 + us(c0.skip(1))));
    }
//@after let hex
    proof {
        if uni(c0) is Some {
            assert(hex@ =~= c2.take(4));
            lemma_hex4(hex@);
            lemma_ascii_prefix(hex@, 4);
            assert(hex@.take(4) =~= hex@);
            assert(chars@ =~= c0.skip((uni(c0)->0).1));
        }
    }
//@end

proof fn lemma_oct(s: Seq<char>)
    requires 1 <= s.len() <= 3, forall|i: int| 0 <= i < s.len() ==> is_oct(#[trigger] s[i]),
    ensures digits(s, 8) is Some, 0 <= digits(s, 8)->0 < 512, radix_int(s, 8, false) == digits(s, 8),
{
    let t = s.drop_last();
    let u = t.drop_last();
    assert(is_oct(s[0]));
    assert(is_oct(s.last()));
    assert(digits(Seq::<char>::empty(), 8) == Some(0int));
    if s.len() == 1 { assert(t =~= Seq::<char>::empty()); }
    else if s.len() == 2 {
        assert(u =~= Seq::<char>::empty()); assert(t.last() == s[0]);
        assert(digits(t, 8) == Some(dig(s[0], 8)));
    } else {
        assert(u.drop_last() =~= Seq::<char>::empty()); assert(u.last() == s[0]); assert(t.last() == s[1]);
        assert(is_oct(s[1]));
        assert(digits(u, 8) == Some(dig(s[0], 8)));
        assert(digits(t, 8) == Some(dig(s[0], 8) * 8 + dig(s[1], 8)));
    }
}

//@fn unescape_java
//@opt attr verifier::spinoff_prover
//@opt loop_isolation
//@opt rlimit 60
//@opt strlen s
//@spec
    ensures lit_ok(s@) ==> r@ == unesc(s@),
//@loop-before 0
    let ghost mut cur = chars@;
    proof { reveal_strlit("\\u"); assert(result@ + unesc(chars@) =~= unesc(s@)); }
//@loop 0
    invariant
        cur == chars@,
        lit_ok(s@) ==> lit_ok(chars@),
        lit_ok(s@) ==> result@ + unesc(chars@) == unesc(s@),
    ensures
        lit_ok(s@) ==> result@ =~= unesc(s@),
    decreases chars@.len(),
//@loop-start 0
    let ghost r0 = result@;
    proof {
        assert(cur.len() > 0 && c == cur[0]);
        assert(chars@ =~= cur.skip(1));
        lemma_us(cur.skip(1));
    }
//@loop-before 1
    let ghost c1 = chars@;
    proof { assert(c1 =~= cur.skip(2)); assert(cur.skip(1).skip(1) =~= c1); assert(c1.skip(0) =~= c1); lemma_us(c1); }
//@loop 1
    invariant
        chars@.len() <= c1.len(),
        chars@ == c1.skip(c1.len() - chars@.len()),
        us(c1) == c1.len() - chars@.len() + us(chars@),
    decreases chars@.len(),
//@loop-end 1
    proof { assert(chars@ =~= c1.skip(c1.len() - chars@.len())); }
//@loop-after 1
    let ghost c2 = chars@;
    proof {
        assert(us(c2) == 0);
        assert(c2 =~= cur.skip(1 + us(cur.skip(1))));
        assert(lit_ok(s@) ==> uni(cur) is Some);
    }
//@after let hex
    proof {
        if lit_ok(s@) {
            let n = (uni(cur)->0).1;
            assert(hex@ =~= c2.take(4));
            lemma_hex4(hex@);
            assert(chars@ =~= cur.skip(n));
            assert(hex@ =~= cur.subrange(n - 4, n));
            assert(first(cur).1 == n ==> lit_ok(cur.skip(n)));
        }
    }
//@before let combined
    let ghost c3 = chars@;
//@after let combined
    proof {
        if lit_ok(s@) {
            let (v, n) = uni(cur)->0;
            assert(code_point == v);
            assert(c3 == cur.skip(n));
            if combined is Some {
                if uni(c3) is None { assert(first(cur).1 == n); assert(lit_ok(c3)); assert(false); }
                let (w, m) = uni(c3)->0;
                lemma_us(c3.skip(1));
                assert(chars@ =~= cur.skip(n + m));
                assert(first(cur).1 == n + m);
                assert(scalar(combined->0 as int));
            } else {
                assert(chars@ =~= cur.skip(n));
                assert(first(cur).1 == n);
            }
        }
    }
//@before if let Ok(val)
    proof {
        let q = cur.skip(1);
        assert(octal@ =~= q.take(oct_len(q)));
        assert(chars@ =~= q.skip(oct_len(q)));
        lemma_oct(octal@);
        assert(chars@ =~= cur.skip(1 + oct_len(q)));
    }
//@loop-end 0
    proof {
        if lit_ok(s@) {
            if cur[0] != '\\' {
                assert(chars@ =~= cur.skip(first(cur).1) && result@ =~= r0 + first(cur).0);
            } else if simple_esc(cur[1]) is Some {
                assert(chars@ =~= cur.skip(first(cur).1) && result@ =~= r0 + first(cur).0);
            } else if is_oct(cur[1]) {
                assert(chars@ =~= cur.skip(first(cur).1));
                assert(result@ =~= r0 + first(cur).0);
            } else {
                assert(chars@ =~= cur.skip(first(cur).1));
                assert(result@ =~= r0 + first(cur).0);
            }
            assert((r0 + first(cur).0) + unesc(chars@) =~= r0 + (first(cur).0 + unesc(chars@)));
        }
        cur = chars@;
    }
//@end

//@fn get_string_from_literal
//@opt strlen raw
//@opt str_slice
//@spec
    requires blen(raw@) < 2 || ((raw@[0] as int) < 0x80 && (raw@.last() as int) < 0x80),
    ensures raw@.len() >= 2 && (raw@[0] as int) < 0x80 && (raw@.last() as int) < 0x80 && lit_ok(raw@.subrange(1, raw@.len() - 1))
        ==> r@ == unesc(raw@.subrange(1, raw@.len() - 1)),
//@start
    proof {
        lemma_blen_take(raw@, raw@.len() as int);
        if blen(raw@) >= 2 {
            assert(raw@.len() >= 2) by { if raw@.len() == 1 { assert(blen(raw@.drop_last()) == 0); } }
            lemma_ascii_prefix(raw@, 1);
            lemma_cidx(raw@, raw@.len() - 1);
            assert(raw@.take(raw@.len() - 1) =~= raw@.drop_last());
            lemma_blen_take(raw@, 1);
        }
    }
//@end

// ---------------------------------------------------------------------------
// Integer literals: -? (0x hex | 0 octal | decimal) [lL]?, underscores anywhere
// ---------------------------------------------------------------------------
pub open spec fn all_dig(s: Seq<char>, radix: int) -> bool { forall|i: int| 0 <= i < s.len() ==> dig(#[trigger] s[i], radix) >= 0 }
pub open spec fn core(u: Seq<char>) -> Seq<char> { if u.last() == 'l' || u.last() == 'L' { u.drop_last() } else { u } }
pub open spec fn mag(c: Seq<char>) -> Seq<char> { if c[0] == '-' { c.skip(1) } else { c } }
pub open spec fn is_hexlit(m: Seq<char>) -> bool { m.len() >= 2 && m[0] == '0' && (m[1] == 'x' || m[1] == 'X') }
pub open spec fn mag_ok(m: Seq<char>) -> bool {
    if is_hexlit(m) { m.len() > 2 && all_dig(m.skip(2), 16) } else { m.len() > 0 && all_dig(m, 10) }
}
// What the grammar calls an IntegerLiteral.
pub open spec fn int_tok(t: Seq<char>) -> bool {
    let u = without(t, '_');
    u.len() > 0 && core(u).len() > 0 && mag_ok(mag(core(u)))
}
pub open spec fn mag_val(m: Seq<char>) -> Option<int> {
    if is_hexlit(m) { digits(m.skip(2), 16) } else if m[0] == '0' && m.len() > 1 { digits(m, 8) } else { digits(m, 10) }
}
pub open spec fn int_val(t: Seq<char>) -> Option<int> {
    let c = core(without(t, '_'));
    match mag_val(mag(c)) { Some(v) => Some(if c[0] == '-' { -v } else { v }), None => None }
}
proof fn lemma_digits_nonneg(s: Seq<char>, radix: int)
    requires 2 <= radix,
    ensures digits(s, radix) is Some ==> digits(s, radix)->0 >= 0,
    decreases s.len()
{
    if s.len() > 0 {
        lemma_digits_nonneg(s.drop_last(), radix);
        if digits(s.drop_last(), radix) is Some {
            let v = digits(s.drop_last(), radix)->0;
            assert(v * radix >= 0) by (nonlinear_arith) requires v >= 0, radix >= 2;
        }
    }
}
proof fn lemma_dig_ascii(s: Seq<char>, radix: int)
    requires all_dig(s, radix),
    ensures forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as int) < 0x80 && s[i] != '.' && s[i] != '-' && s[i] != '+',
{
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as int) < 0x80 && s[i] != '.' && s[i] != '-' && s[i] != '+' by { assert(dig(s[i], radix) >= 0); }
}
proof fn lemma_core_ascii(c: Seq<char>)
    requires c.len() > 0, mag_ok(mag(c)),
    ensures forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i] as int) < 0x80 && c[i] != '.', blen(c) == c.len(),
        c.take(c.len() as int) == c,
        !is_hexlit(mag(c)) ==> (mag(c)[0] != '-' && mag(c)[0] != '+'),
        is_hexlit(mag(c)) ==> (mag(c)[2] != '-' && mag(c)[2] != '+'),
{
    let m = mag(c);
    let k: int = if c[0] == '-' { 1 } else { 0 };
    if is_hexlit(m) { lemma_dig_ascii(m.skip(2), 16); assert(m.skip(2)[0] == m[2]); } else { lemma_dig_ascii(m, 10); }
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i] as int) < 0x80 && c[i] != '.' by {
        if i >= k {
            assert(c[i] == m[i - k]);
            if is_hexlit(m) && i >= k + 2 { assert(m[i - k] == m.skip(2)[i - k - 2]); }
        }
    }
    lemma_ascii_prefix(c, c.len() as int);
    assert(c.take(c.len() as int) =~= c);
}

// What a string with one of the prefixes looks like.
pub proof fn lemma_prefixes(s: Seq<char>)
    ensures
        ("0x"@.is_prefix_of(s) || "0X"@.is_prefix_of(s)) == is_hexlit(s),
        ("-0x"@.is_prefix_of(s) || "-0X"@.is_prefix_of(s)) == (s.len() >= 3 && s[0] == '-' && is_hexlit(s.skip(1))),
        "-0"@.is_prefix_of(s) == (s.len() >= 2 && s[0] == '-' && s[1] == '0'),
        ""@ == Seq::<char>::empty(),
{
    reveal_strlit("0x"); reveal_strlit("0X"); reveal_strlit("-0x"); reveal_strlit("-0X"); reveal_strlit("-0"); reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    if is_hexlit(s) {
        assert(s.take(2) =~= "0x"@ || s.take(2) =~= "0X"@);
        assert(s[1] == 'x' ==> "0x"@.is_prefix_of(s));
        assert(s[1] == 'X' ==> "0X"@.is_prefix_of(s));
    }
    if "0x"@.is_prefix_of(s) { assert("0x"@[0] == s[0] && "0x"@[1] == s[1]); }
    if "0X"@.is_prefix_of(s) { assert("0X"@[0] == s[0] && "0X"@[1] == s[1]); }
    if "-0"@.is_prefix_of(s) { assert("-0"@[0] == s[0] && "-0"@[1] == s[1]); }
    if "-0x"@.is_prefix_of(s) { assert("-0x"@[0] == s[0] && "-0x"@[1] == s[1] && "-0x"@[2] == s[2]); }
    if "-0X"@.is_prefix_of(s) { assert("-0X"@[0] == s[0] && "-0X"@[1] == s[1] && "-0X"@[2] == s[2]); }
}
pub proof fn lemma_all_digits(s: Seq<char>, radix: int)
    requires all_dig(s, radix),
    ensures digits(s, radix) is Some,
    decreases s.len()
{
    if s.len() > 0 {
        assert(all_dig(s.drop_last(), radix)) by {
            assert forall|i: int| 0 <= i < s.len() - 1 implies dig(#[trigger] s.drop_last()[i], radix) >= 0 by { assert(dig(s[i], radix) >= 0); }
        }
        lemma_all_digits(s.drop_last(), radix);
        assert(dig(s[s.len() - 1], radix) >= 0);
    }
}

// How each form of literal is read.
proof fn lemma_int_text(c: Seq<char>)
    requires c.len() > 0, mag_ok(mag(c)),
    ensures
        ("0x"@.is_prefix_of(c) || "0X"@.is_prefix_of(c)) == is_hexlit(c),
        ("-0x"@.is_prefix_of(c) || "-0X"@.is_prefix_of(c)) == (c.len() >= 3 && c[0] == '-' && is_hexlit(c.skip(1))),
        "-0"@.is_prefix_of(c) == (c.len() >= 2 && c[0] == '-' && c[1] == '0'),
        !c.contains('.'), blen(c) == c.len(),
        mag_val(mag(c)) is Some ==> mag_val(mag(c))->0 >= 0,
        is_hexlit(c) ==> c[0] != '-' && bnd(c, 2) && cidx(c, 2) == 2 && radix_int(c.skip(2), 16, true) == mag_val(mag(c)),
        c[0] == '-' && is_hexlit(c.skip(1)) ==> bnd(c, 3) && cidx(c, 3) == 3 && radix_int(c.skip(3), 16, true) == mag_val(mag(c)),
        c[0] == '0' && c.len() > 1 && !is_hexlit(c) ==> radix_int(c, 8, true) == mag_val(mag(c)),
        c[0] == '-' && c.len() > 2 && c[1] == '0' && !is_hexlit(c.skip(1)) ==> bnd(c, 1) && cidx(c, 1) == 1 && radix_int(c.skip(1), 8, true) == mag_val(mag(c)),
        mag(c).len() == 1 && mag(c)[0] == '0' ==> mag_val(mag(c)) == Some(0int),
        !is_hexlit(mag(c)) && (c[0] == '-' ==> c.len() <= 2 || c[1] != '0') && (c[0] == '0' ==> c.len() == 1) ==>
            radix_int(c, 10, true) == (match mag_val(mag(c)) { Some(v) => Some(if c[0] == '-' { -v } else { v }), None => None::<int> }),
{
    lemma_core_ascii(c);
    lemma_prefixes(c);
    let m = mag(c);
    if is_hexlit(m) {
        lemma_digits_nonneg(m.skip(2), 16);
        lemma_dig_ascii(m.skip(2), 16);
        assert(m.skip(2)[0] == m[2]);
        if c[0] == '-' { lemma_ascii_prefix(c, 3); assert(c.skip(3) =~= m.skip(2)); } else { lemma_ascii_prefix(c, 2); }
    } else {
        lemma_digits_nonneg(m, 8);
        lemma_digits_nonneg(m, 10);
        lemma_all_digits(m, 10);
        lemma_dig_ascii(m, 10);
        if c[0] == '-' { lemma_ascii_prefix(c, 1); }
        if m.len() == 1 && m[0] == '0' { assert(m.drop_last() =~= Seq::<char>::empty()); assert(digits(m.drop_last(), 10) == Some(0int)); assert(m.last() == '0'); assert(dig('0', 10) == 0); }
    }
}
// The value of an integer literal. (The magnitude 2^63 is taken with a minus
// sign only in decimal.)
pub open spec fn int_lit(t: Seq<char>) -> Option<Value> {
    let m = mag(core(without(t, '_')));
    match int_val(t) {
        Some(v) => if i64::MIN <= v <= i64::MAX && (v == i64::MIN ==> m[0] != '0') { Some(Value::Number(num_i(v))) } else { None },
        None => None,
    }
}
//@fn parse_integer_literal
//@opt attr verifier::spinoff_prover
//@opt strlen number
//@opt str_slice
//@spec
    requires int_tok(text@),
    ensures
        r is Ok ==> int_lit(text@) == Some(r->Ok_0),
        r is Err ==> int_lit(text@) is None,
//@start
    hide(digits);
    hide(radix_int);
    hide(dig);
    hide(blen);
    hide(cidx);
    proof { lemma_prefixes(text@); }
//@after let coerce_to_long
    proof {
        let c = core(without(text@, '_'));
        assert(number@ =~= c);
        lemma_int_text(c);
    }
//@end

//@fn friendly_int_error
//@opt external_body
//@end

// A size, precision or scale: no sign, no suffix.
pub open spec fn u32_lit(t: Seq<char>) -> Option<u32> {
    let u = without(t, '_');
    match int_val(t) {
        Some(v) => if 0 <= v <= u32::MAX && u[0] != '-' && core(u) == u { Some(v as u32) } else { None },
        None => None,
    }
}
//@fn parse_integer_as_u32
//@opt strlen number
//@opt str_slice
//@replace number.trim_start_matches(|c: char| c.is_ascii_whitespace()) => crate::stubs::v_trim_start_ws(&number)
//@spec
    requires int_tok(text@),
    ensures
        r is Ok ==> u32_lit(text@) == Some(r->Ok_0),
        r is Err ==> u32_lit(text@) is None,
//@start
    proof { lemma_prefixes(text@); }
//@after let number
    proof {
        let u = without(text@, '_');
        let c = core(u);
        assert(number@ == u);
        lemma_core_ascii(c);
        lemma_prefixes(u);
        let m = mag(c);
        if is_hexlit(u) { lemma_ascii_prefix(u, 2); }
    }
//@end

// What the lexer calls a string literal and a floating-point literal.
pub open spec fn str_tok(t: Seq<char>) -> bool {
    t.len() >= 2 && (t[0] as int) < 0x80 && (t.last() as int) < 0x80 && lit_ok(t.subrange(1, t.len() - 1))
}
pub open spec fn str_lit(t: Seq<char>) -> Seq<char> { unesc(t.subrange(1, t.len() - 1)) }
pub uninterp spec fn float_tok(t: Seq<char>) -> bool;
pub uninterp spec fn float_lit(t: Seq<char>) -> Option<Value>;
//@fn parse_floating_point_literal
//@opt external_body
//@spec
    requires float_tok(text@),
    ensures
        r is Ok ==> float_lit(text@) == Some(r->Ok_0),
        r is Err ==> float_lit(text@) is None,
//@end

// ---------------------------------------------------------------------------
// Names
// ---------------------------------------------------------------------------
pub open spec fn name_part(s: Seq<char>) -> Seq<char> {
    if last_index(s, '.') < 0 { s } else { s.subrange(last_index(s, '.') + 1, s.len() as int) }
}
pub open spec fn ns_part(s: Seq<char>) -> Option<Seq<char>> {
    if last_index(s, '.') < 0 { None } else { Some(s.subrange(0, last_index(s, '.'))) }
}
//@fn extract_name
//@spec
    ensures r@ == name_part(identifier@),
//@end

//@fn compute_namespace
//@spec
    ensures ov(r) == (if ns_part(identifier@) is Some { ns_part(identifier@) } else { osv(explicit_namespace) }),
//@end

// ---------------------------------------------------------------------------
// Nullable types
// ---------------------------------------------------------------------------
// T? and what it stands for.
pub open spec fn nullable(s: AvroSchema) -> bool { s is Union && s->is_nullable_type && s->types@.len() == 2 }
//@fn is_non_nullable_union
//@spec
    ensures r == (schema is Union && !nullable(*schema)),
//@end

//@fn fix_optional_schema
//@spec
    ensures
        nullable(schema) && default_value is Some && !(*(default_value->0) is Null) ==>
            r is Union && r->is_nullable_type && r->types@ =~= seq![schema->types@[1], schema->types@[0]],
        !(nullable(schema) && default_value is Some && !(*(default_value->0) is Null)) ==> r == schema,
//@end

// ---------------------------------------------------------------------------
// Annotations
// ---------------------------------------------------------------------------
// T or T? for a reference T: what annotations may not be put on.
//@fn is_type_reference
//@spec
    ensures r == (schema is Reference
        || (schema is Union && schema->is_nullable_type && exists|i: int| 0 <= i < schema->types@.len() && (#[trigger] schema->types@[i]) is Reference)),
//@loop 0
    invariant_except_break
        !__r,
        forall|i: int| 0 <= i < it0.index() ==> !(#[trigger] types@[i] is Reference),
    ensures
        __r == (exists|i: int| 0 <= i < types@.len() && (#[trigger] types@[i]) is Reference),
//@end

pub open spec fn json_u32(v: Value) -> Option<u32> {
    match v {
        Value::Number(n) => match n@ {
            NumV::PosInt(i) => if i <= u32::MAX { Some(i as u32) } else { None },
            _ => whole_u32(num_f64(n@)),
        },
        _ => None,
    }
}
//@fn json_value_as_u32
//@replace f >= 0.0 && f <= u32::MAX as f64 && f.fract() == 0.0 => crate::stubs::v_is_whole_u32(f)
//@replace f as u32 => crate::stubs::v_f64_as_u32(f)
//@spec
    ensures r == json_u32(*v),
//@end

// Java's precision and scale are signed 32-bit integers.
pub open spec fn annot_u31(m: Map<Seq<char>, Value>, k: Seq<char>) -> Option<u32> {
    if m.dom().contains(k) && json_u32(m[k]) is Some && json_u32(m[k])->0 <= i32::MAX { json_u32(m[k]) } else { None }
}
// The logical type that annotations m make of a primitive of this kind.
pub open spec fn annot_logical(m: Map<Seq<char>, Value>, kind: PrimitiveType) -> Option<LogicalType> {
    if m.dom().contains("logicalType"@) && m["logicalType"@] is String {
        match logical_of(m["logicalType"@]->String_0@, annot_u31(m, "precision"@), annot_u31(m, "scale"@)) {
            Some(lt) =>
                if logical_base(lt) == kind && !(lt is Decimal && annot_u31(m, "scale"@) is None && m.dom().contains("scale"@)) { Some(lt) }
                else { None },
            None => None,
        }
    } else { None }
}
pub open spec fn used_up(m: Map<Seq<char>, Value>, lt: LogicalType) -> Map<Seq<char>, Value> {
    if lt is Decimal { m.remove("logicalType"@).remove("precision"@).remove("scale"@) } else { m.remove("logicalType"@) }
}
// Recognised exactly when the base type allows it; otherwise kept as written.
pub open spec fn promoted(s: AvroSchema) -> AvroSchema {
    match s {
        AvroSchema::AnnotatedPrimitive { kind, properties } => match annot_logical(properties@, kind) {
            Some(lt) => AvroSchema::Logical { logical_type: lt, properties: mk_hashmap(used_up(properties@, lt)) },
            None => s,
        },
        _ => s,
    }
}
//@fn try_promote_logical_type
//@spec
    ensures r == promoted(schema),
//@end

//@fn apply_properties_to_schema
//@spec
    ensures r == promoted(merged(schema, properties@)),
//@end

// Annotations before T? are T's.
pub open spec fn annotated(s: AvroSchema, p: Map<Seq<char>, Value>) -> AvroSchema {
    if nullable(s) {
        let i: int = if s->types@[0] is Null { 1 } else { 0 };
        AvroSchema::Union { types: mk_vec(s->types@.update(i, promoted(merged(s->types@[i], p)))), is_nullable_type: true }
    } else { promoted(merged(s, p)) }
}
//@fn apply_properties
//@spec
    ensures r == annotated(schema, properties@),
//@end

// An attribute of a logical type keyword that m would change.
pub open spec fn overwrites(s: AvroSchema, m: Map<Seq<char>, Value>) -> bool
    decreases s
{
    match s {
        AvroSchema::Union { types, is_nullable_type } => is_nullable_type && exists|i: int| 0 <= i < types@.len() && overwrites(#[trigger] types@[i], m),
        AvroSchema::Logical { logical_type, .. } =>
            (m.dom().contains("logicalType"@) && m["logicalType"@] != Value::String(mk_string(logical_name(logical_type))))
            || (logical_type is Decimal && m.dom().contains("precision"@) && m["precision"@] != Value::Number(num_i(logical_type->precision as int)))
            || (logical_type is Decimal && m.dom().contains("scale"@) && m["scale"@] != Value::Number(num_i(logical_type->scale as int))),
        _ => false,
    }
}
//@fn overwritten_logical_attribute
//@spec
    ensures r is Some <==> overwrites(*schema, properties@),
    decreases schema,
//@loop 0
    invariant_except_break
        __r is None,
        forall|i: int| 0 <= i < it0.index() ==> !overwrites(#[trigger] types@[i], properties@),
    ensures
        __r is Some == (exists|i: int| 0 <= i < types@.len() && overwrites(#[trigger] types@[i], properties@)),
//@end

//@const INVALID_LOGICAL_TYPE_NAMES
// What the language itself uses as the name of a type.
pub open spec fn taken_name(s: Seq<char>) -> bool {
    prim_of(s) is Some || s == "date"@ || s == "time_ms"@ || s == "timestamp_ms"@ || s == "local_timestamp_ms"@ || s == "uuid"@
}
//@fn is_invalid_type_name
//@opt rename contains
//@spec
    ensures r <==> taken_name(name@),
//@end

// ---------------------------------------------------------------------------
// The result of reading a source text
// ---------------------------------------------------------------------------
//@type Warning
//@type IdlFile
//@type ImportEntry
//@type ImportKind
//@type DeclItem
pub uninterp spec fn warning_report(w: Warning) -> Report;
impl VInto<Report> for Warning {
    open spec fn vi(self) -> Report { warning_report(self) }
    #[verifier::external_body]
    fn v_into(self) -> (r: Report) { unimplemented!() }
}
pub struct Parsed { pub file: IdlFile, pub items: Seq<DeclItem>, pub warnings: Seq<Warning> }
// What the parser makes of a text (None: an error).
pub uninterp spec fn parsed(text: Seq<char>, name: Seq<char>) -> Option<Parsed>;
// Declared types are named and mention others by name only.
pub open spec fn item_ok(i: DeclItem) -> bool { i is Type ==> is_named(*i->Type_0) && flat(*i->Type_0) }
pub open spec fn items_ok(items: Seq<DeclItem>) -> bool {
    forall|i: int| 0 <= i < items.len() ==> item_ok(#[trigger] items[i])
}
//@fn parse_idl_named
//@opt external_body
//@spec
    ensures
        (match r { Ok(p) => Some(Parsed { file: p.0, items: p.1@, warnings: p.2@ }), Err(_) => None }) == parsed(input@, source_name@),
        r is Ok ==> items_ok((r->Ok_0).1@),
//@end
