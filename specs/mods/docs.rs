//@module docs src/doc_comments.rs
use crate::idlparser::*;
use crate::lex::*;
broadcast use {group_string, group_coll};

// ---------------------------------------------------------------------------
// Which comment documents the token at index i: the nearest one before it,
// with nothing but white space and empty comments in between.
// ---------------------------------------------------------------------------
pub open spec fn doc_pos(t: spec_fn(int) -> TokV, i: int) -> Option<int>
    decreases i
{
    if i <= 0 { None }
    else if t(i - 1).tt == Idl_DocComment { Some(i - 1) }
    else if t(i - 1).tt == Idl_WS || t(i - 1).tt == Idl_EmptyComment { doc_pos(t, i - 1) }
    else { None }
}
pub uninterp spec fn unindented(s: Seq<char>) -> Seq<char>;
// What a comment says: without its delimiters, outer white space and decoration.
pub open spec fn doc_inner(s: Seq<char>) -> Seq<char> {
    if "/**"@.is_prefix_of(s) && "*/"@.is_suffix_of(s.skip(3)) { s.subrange(3, s.len() - 2) } else { s }
}
pub open spec fn doc_text(s: Seq<char>) -> Option<Seq<char>> {
    let t = trim_r(trim_l(doc_inner(s)));
    if t.len() == 0 { None } else { Some(unindented(t)) }
}
pub open spec fn doc_at(t: spec_fn(int) -> TokV, i: int) -> Option<Seq<char>> {
    match doc_pos(t, i) { Some(p) => doc_text(t(p).text), None => None }
}
pub open spec fn doc_used(t: spec_fn(int) -> TokV, i: int) -> Set<isize> {
    match doc_pos(t, i) { Some(p) => set![p as isize], None => Set::empty() }
}

//@fn strip_indents
//@opt external_body
//@spec
    ensures r@ == unindented(doc_comment@),
//@end

//@fn extract_doc_comment
//@opt rename borrow
//@spec
    requires token_index < isize::MAX,
    ensures
        ov(r) == doc_at(token_stream.tv(), token_index as int),
        consumed_indices is Some ==> (*final(consumed_indices->0))@ == (*old(consumed_indices->0))@.union(doc_used(token_stream.tv(), token_index as int)),
//@start
    proof { reveal_strlit("/**"); reveal_strlit("*/"); }
//@before let trimmed
    proof { assert(inner@ =~= doc_inner(text@)); }
//@loop 0
    invariant
        -1 <= i < token_index,
        doc_token_text is None, doc_token_index is None,
        doc_pos(token_stream.tv(), token_index as int) == doc_pos(token_stream.tv(), i + 1),
    decreases i + 1,
//@end
