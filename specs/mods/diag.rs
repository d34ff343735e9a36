//@module diag src/reader.rs
use crate::text::*;
use crate::suggest::{levenshtein, max_edit_distance};
broadcast use {group_string, group_coll, group_text};

//@type SyntaxError
//@type EnrichedError
//@const EXPECTING_SET_TRUNCATION_THRESHOLD
//@const AVRO_KEYWORDS
//@const DECLARATION_KEYWORDS
//@const HUMANIZED_TOKEN_NAMES

// A position of the text, or the one just past it (end of file).
pub open spec fn pos_in(t: Seq<char>, o: int) -> bool { bnd(t, o) || o == blen(t) + 1 }
pub open spec fn span_in(t: Seq<char>, o: int, n: int) -> bool { bnd(t, o) && n >= 0 && pos_in(t, o + n) && blen(t) <= isize::MAX }
// "line L:C what is wrong"
pub open spec fn line_of(m: Seq<char>, l: int, c: int, r: Seq<char>) -> bool {
    m == "line "@ + int_dec(l) + ":"@ + int_dec(c) + " "@ + r
}
pub open spec fn line_msg(m: Seq<char>) -> bool { exists|l: int, c: int, r: Seq<char>| #[trigger] line_of(m, l, c, r) }
// A collected error of text t. A message about `)` is one at a token that starts with an ASCII character.
pub open spec fn err_in(e: SyntaxError, t: Seq<char>) -> bool {
    span_in(t, e.offset as int, e.length as int) && line_msg(e.message@)
        && ("`)`".within(e.message@) ==> pos_in(t, e.offset + 1))
}
pub open spec fn found_in(e: Option<SyntaxError>, t: Seq<char>) -> bool { e is Some ==> span_in(t, e->0.offset as int, e->0.length as int) }
// The start of a "line L:C " message is ASCII.
proof fn lemma_line_prefix(m: Seq<char>, l: int, c: int, r: Seq<char>)
    requires line_of(m, l, c, r),
    ensures
        m.len() >= 5 + int_dec(l).len() + 1 + int_dec(c).len() + 1,
        forall|i: int| 0 <= i < 5 + int_dec(l).len() + 1 + int_dec(c).len() + 1 ==> (#[trigger] m[i] as int) < 0x80,
        m.take(5) == "line "@,
        m.skip(5) == int_dec(l) + ":"@ + int_dec(c) + " "@ + r,
        m.skip(5).skip(int_dec(l).len() as int + 1) == int_dec(c) + " "@ + r,
{
    reveal_strlit("line "); reveal_strlit(":"); reveal_strlit(" ");
    axiom_int_dec(l);
    axiom_int_dec(c);
    assert(m.take(5) =~= "line "@);
    assert(m.skip(5) =~= int_dec(l) + ":"@ + int_dec(c) + " "@ + r);
    assert(m.skip(5).skip(int_dec(l).len() as int + 1) =~= int_dec(c) + " "@ + r);
}

// The steps of extract_line_prefix.
proof fn lemma_at_line(m: Seq<char>, pos: int)
    requires line_msg(m), pos >= 0, pos > 0 ==> !occurs("line ", m, 0),
    ensures pos == 0, cidx(m, 5) == 5, bnd(m, 5), occurs("line ", m, 0),
{
    let (l, c, r) = choose|l: int, c: int, r: Seq<char>| #[trigger] line_of(m, l, c, r);
    reveal_strlit("line ");
    lemma_line_prefix(m, l, c, r);
    lemma_ascii_prefix(m, 0);
    lemma_ascii_prefix(m, 5);
    assert(m.skip(0) =~= m);
    assert("line "@.is_prefix_of(m));
}
proof fn lemma_line_end(m: Seq<char>, colon: int, d: int)
    requires
        line_msg(m),
        occurs(':', m.skip(5), colon), forall|b: int| 0 <= b < colon ==> !#[trigger] occurs(':', m.skip(5), b),
        ({ let t = m.skip(5).skip(cidx(m.skip(5), colon + 1)); let n = cidx(t, d);
            (bnd(t, d) && n < t.len() && !ascii_digit(t[n] as int) && forall|i: int| 0 <= i < n ==> ascii_digit(#[trigger] t[i] as int))
            || (d == blen(t) && forall|i: int| 0 <= i < t.len() ==> ascii_digit(#[trigger] t[i] as int)) }),
    ensures
        bnd(m, 5 + colon + 1 + d + 1), 5 + colon + 1 + d + 1 <= blen(m),
{
    let (l, c, r) = choose|l: int, c: int, r: Seq<char>| #[trigger] line_of(m, l, c, r);
    reveal_strlit("line "); reveal_strlit(":"); reveal_strlit(" ");
    lemma_line_prefix(m, l, c, r);
    axiom_int_dec(l);
    axiom_int_dec(c);
    let ll = int_dec(l).len() as int;
    let cl = int_dec(c).len() as int;
    let a = m.skip(5);
    lemma_ascii_prefix(a, ll);
    assert(a.skip(ll)[0] == ':');
    assert(occurs(':', a, ll));
    if colon < ll {
        lemma_ascii_prefix(a, colon);
        assert(a.skip(colon)[0] == a[colon]);
        assert(a[colon] == int_dec(l)[colon]);
    }
    assert(colon == ll);
    lemma_ascii_prefix(a, ll + 1);
    let t = a.skip(ll + 1);
    assert(t[cl] == ' ');
    let n = cidx(t, d);
    lemma_cidx_of(t, d);
    if n > cl { assert(ascii_digit(t[cl] as int)); }
    assert forall|i: int| 0 <= i < n implies (#[trigger] t[i] as int) < 0x80 by { assert(t[i] == m[5 + ll + 1 + i]); }
    lemma_ascii_prefix(t, n);
    assert(d == n);
    lemma_ascii_prefix(m, 5 + ll + 1 + d + 1);
    lemma_bnd_range(m, 5 + ll + 1 + d + 1);
}
proof fn lemma_enum_len()
    ensures blen("enum"@) == 4,
{
    reveal_strlit("enum");
    lemma_ascii_prefix("enum"@, 4);
    assert("enum"@.take(4) =~= "enum"@);
}
proof fn lemma_keyword_start(k: Seq<char>)
    requires k == "protocol"@ || k == "record"@ || k == "enum"@ || k == "fixed"@ || k == "error"@,
    ensures bnd(k, 1),
{
    reveal_strlit("protocol"); reveal_strlit("record"); reveal_strlit("enum"); reveal_strlit("fixed"); reveal_strlit("error");
    lemma_ascii_prefix(k, 1);
}
proof fn lemma_line_at(s: Seq<char>, pre: Seq<char>, rest: Seq<char>, line: Seq<char>, n: int)
    requires s == pre + rest, line.is_prefix_of(rest), 0 <= n <= line.len(),
    ensures bnd(s, (blen(pre) + blen(line.take(n))) as int), blen(pre) + blen(line.take(n)) <= blen(s),
{
    assert(s.take(pre.len() + n) =~= pre + line.take(n));
    lemma_blen_add(pre, line.take(n));
    lemma_cidx(s, pre.len() + n);
    lemma_bnd_range(s, (blen(pre) + blen(line.take(n))) as int);
}

//@fn is_unterminated_string_lexer_error
//@end
//@fn find_unterminated_string_error
//@spec
    ensures r is Some ==> exists|i: int| 0 <= i < lexer_errors@.len() && *(r->0) == #[trigger] lexer_errors@[i],
//@loop 0
    invariant __r is None,
//@end
//@fn find_closing_brace
//@spec
    ensures r is Some ==> bnd(s@, r->0 as int) && bnd(s@, r->0 + 1),
//@loop 0
    invariant true,
//@end
//@fn split_token_set
//@opt str_slice
//@spec
    ensures true,
//@loop 0
    invariant bnd(set@, start as int), start <= blen(set@), start <= it0.index(), bytes@ == bytes_of(set@), bytes@.len() == blen(set@), blen(set@) <= isize::MAX,
//@end
//@fn extract_expecting_tokens
//@opt str_slice
//@opt rename find
//@opt strlen prefix
//@end
//@fn count_tokens_in_set
//@opt strlen set.trim()
//@end
//@fn extract_quoted_token
//@opt str_slice
//@opt rename find
//@opt strlen prefix
//@end
//@fn extract_no_viable_input
//@opt str_slice
//@opt rename find
//@opt strlen prefix
//@end

//@fn simplify_large_expecting_set
//@end
//@fn build_unexpected_token_error
//@opt opaque_format
//@end
//@fn format_expected_help
//@opt opaque_format
//@opt strlen t
//@loop 0
    invariant true,
//@end
//@fn rewrite_antlr_jargon
//@opt opaque_format
//@end
//@fn humanize_token_name
//@end
//@fn humanize_antlr_message
//@replace .v_replace(internal => .v_replace_all(internal
//@replace .contains(internal) => .v_has(internal)
//@loop 0
    invariant true,
//@end
//@fn sanitize_antlr_message
//@opt opaque_format
//@opt str_slice
//@opt rename find
//@opt strlen "expecting{"
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@loop 0
    invariant true,
//@end
//@fn expecting_set_includes_string_literal
//@loop 0
    invariant true,
//@end
//@fn expecting_set_includes_close_brace
//@opt rename contains
//@end
//@fn looks_like_bare_identifier
//@opt strlen token
//@opt itersrc chars
//@loop 0
    invariant true,
//@end
//@fn append_quoting_hint
//@opt opaque_format
//@end
//@fn suggest_keyword
//@opt strlen kw
//@loop 0
    invariant true,
//@end
//@fn extract_annotation_name
//@opt str_slice
//@opt strlen input
//@closure 0 fn(&char) -> bool
    ensures o ==> (*c as int) < 0x80,
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@before let full_ident
    proof { lemma_ascii_prefix(after_at@, ident_len as int); }
//@loop 0
    invariant bnd(input@, search_from as int),
    decreases search_from,
//@end
//@fn split_trailing_keyword
//@opt str_slice
//@opt strlen kw
//@opt strlen lower
//@opt strlen merged
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@after let lower
    proof { lemma_same_bnd(lower@, merged@); }
//@loop 0
    invariant true,
//@end
//@fn annotation_name_starts_with_keyword
//@end
//@fn extract_trailing_identifier
//@opt str_slice
//@opt strlen input
//@opt strlen word
//@closure 0 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@end
//@fn enrich_antlr_error
//@opt opaque_format
//@end

//@fn extract_line_prefix
//@opt str_slice
//@opt rename find
//@opt strlen after_colon
//@opt strlen msg
//@closure 0 fn(char) -> bool
    ensures o == !ascii_digit(c as int),
//@replace .v_find(__f0) => .v_find_by(__f0)
//@before let after_line
    proof { lemma_at_line(msg@, pos as int); }
//@before let prefix_end
    proof { lemma_line_end(msg@, colon as int, digits_end as int); }
//@spec
    requires line_msg(msg@),
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@end
//@fn line_col_to_byte_offset
//@opt strlen src_line
//@spec
    ensures bnd(source@, r as int), r <= isize::MAX,
//@start
    hide(cidx); hide(blen);
//@loop-before 0
    let ghost parts = split_spec(source@, '\n');
    let ghost mut rest = source@;
    let ghost mut pre = Seq::<char>::empty();
    proof { axiom_str_len(source); assert(blen(pre) == 0) by { reveal_with_fuel(blen, 1); } assert(pre + rest =~= source@); assert(parts.skip(0) =~= parts); }
//@loop 0
    invariant
        it0.seq().len() == parts.len(),
        forall|j: int| 0 <= j < parts.len() ==> (#[trigger] it0.seq()[j]).1@ == parts[j],
        it0.index() < parts.len() ==> source@ == pre + rest && offset == blen(pre) && split_spec(rest, '\n') == parts.skip(it0.index()),
//@loop-start 0
    proof { 
        lemma_split_step(rest, '\n');
        assert(src_line@ == parts.skip(it0.index())[0]);
        assert(src_line@.take(src_line@.len() as int) =~= src_line@);
        lemma_line_at(source@, pre, rest, src_line@, src_line@.len() as int);
        if column < src_line@.len() { lemma_line_at(source@, pre, rest, src_line@, column as int); }
    }
    let ghost ix = it0.index();
//@loop-end 0
    proof {
        if ix + 1 < parts.len() {
            let p = src_line@;
            let nl = seq!['\n'];
            lemma_one('\n');
            lemma_blen_add(p, nl);
            lemma_blen_add(pre, p + nl);
            assert(pre + rest =~= (pre + (p + nl)) + rest.skip(p.len() as int + 1));
            pre = pre + (p + nl);
            rest = rest.skip(p.len() as int + 1);
            assert(parts.skip(ix).skip(1) =~= parts.skip(ix + 1));
        }
    }
//@end
//@fn identify_construct
//@opt str_slice
//@opt strlen trimmed
//@opt strlen before_name
//@closure 0 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@closure 1 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@end
//@fn detect_empty_union
//@opt str_slice
//@opt opaque_format
//@opt strlen trimmed
//@opt strlen before_brace
//@opt strlen "union"
//@spec
    requires err_in(*error, source@),
    ensures found_in(r, source@),
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@end
//@fn detect_empty_type_parameter
//@opt str_slice
//@opt opaque_format
//@opt strlen before
//@opt strlen before_angle
//@opt strlen keyword
//@spec
    requires err_in(*error, source@),
    ensures found_in(r, source@),
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@end
//@fn detect_missing_close_brace_before_declaration
//@opt str_slice
//@opt opaque_format
//@opt strlen before
//@opt strlen before_name
//@closure 0 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@closure 1 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@spec
    requires err_in(*error, source@),
    ensures found_in(r, source@),
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@loop 0
    invariant
        forall|k: int| 0 <= k < brace_stack@.len() ==> bnd(source@, (#[trigger] brace_stack@[k]) as int) && bnd(source@, brace_stack@[k] + 1),
//@end
//@fn detect_fixed_non_integer
//@opt str_slice
//@opt opaque_format
//@opt strlen before_paren
//@closure 0 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@spec
    requires err_in(*error, source@),
    ensures found_in(r, source@),
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@end
//@fn detect_missing_name
//@opt str_slice
//@opt opaque_format
//@opt strlen before
//@closure 0 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@spec
    requires err_in(*error, source@),
    ensures found_in(r, source@),
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@before let capitalized
    proof { lemma_keyword_start(keyword@); }
//@end
//@fn detect_trailing_comma_in_enum
//@opt str_slice
//@opt opaque_format
//@opt strlen before
//@opt strlen before_comma_trimmed
//@opt strlen last_symbol
//@closure 0 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@spec
    requires err_in(*error, source@),
    ensures found_in(r, source@),
//@start
    hide(blen); hide(cidx); hide(trim_r);
    proof { lemma_enum_len(); }
//@loop 0
    invariant true,
//@end
//@fn detect_misspelled_keyword
//@opt str_slice
//@opt opaque_format
//@opt strlen trimmed
//@opt strlen before_name
//@opt strlen candidate
//@closure 0 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@closure 1 fn(u8) -> bool
    ensures !o ==> b < 0x80,
//@spec
    requires err_in(*error, source@),
    ensures found_in(r, source@),
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@end
//@fn detect_unclosed_brace
//@opt str_slice
//@opt opaque_format
//@spec
    requires err_in(*error, source@),
    ensures found_in(r, source@),
//@start
    hide(blen); hide(cidx); hide(trim_r);
//@loop 0
    invariant
        forall|k: int| 0 <= k < brace_stack@.len() ==> bnd(source@, (#[trigger] brace_stack@[k]) as int) && bnd(source@, brace_stack@[k] + 1),
//@end
//@fn refine_errors_with_source
//@opt str_slice
//@spec
    requires forall|i: int| 0 <= i < errors@.len() ==> err_in(#[trigger] errors@[i], source@),
    ensures r is Some ==> errors@.len() > 0 && r->0@.len() > 0
        && forall|i: int| 0 <= i < r->0@.len() ==> span_in(source@, (#[trigger] r->0@[i]).offset as int, r->0@[i].length as int),
//@loop 0
    invariant
        __v@.len() == it0.index(),
        forall|i: int| 0 <= i < __v@.len() ==> span_in(source@, (#[trigger] __v@[i]).offset as int, __v@[i].length as int),
//@end
