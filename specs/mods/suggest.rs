//@module suggest src/suggest.rs
broadcast use {group_string, group_coll};

// The Levenshtein distance between the first i characters of a and the first j of b.
pub open spec fn lev(a: Seq<char>, b: Seq<char>, i: nat, j: nat) -> nat
    decreases i + j
{
    if i == 0 { j } else if j == 0 { i } else {
        let cost: nat = if a[i - 1] == b[j - 1] { 0 } else { 1 };
        let s = lev(a, b, (i - 1) as nat, (j - 1) as nat) + cost;
        let d = lev(a, b, (i - 1) as nat, j) + 1;
        let n = lev(a, b, i, (j - 1) as nat) + 1;
        let m = if s <= d { s } else { d };
        if m <= n { m } else { n }
    }
}
pub open spec fn distance(a: Seq<char>, b: Seq<char>) -> nat { lev(a, b, a.len(), b.len()) }
proof fn lemma_lev_bound(a: Seq<char>, b: Seq<char>, i: nat, j: nat)
    ensures lev(a, b, i, j) <= i + j,
    decreases i + j
{
    if i > 0 && j > 0 { lemma_lev_bound(a, b, (i - 1) as nat, j); }
}

//@fn levenshtein
//@spec
    ensures r == distance(a@, b@),
//@loop 0
    invariant
        b_len == b@.len(), b_len <= isize::MAX,
        __v@.len() == it0.index(),
        forall|j: int| 0 <= j < __v@.len() ==> #[trigger] __v@[j] == j,
//@loop 1
    invariant
        a_len == a@.len(), b_len == b@.len(), a_len <= isize::MAX, b_len <= isize::MAX,
        prev_row@.len() == b_len + 1, curr_row@.len() == b_len + 1,
        forall|j: int| 0 <= j <= b_len ==> #[trigger] prev_row@[j] == lev(a@, b@, it1.index() as nat, j as nat),
//@loop 2
    invariant
        curr_row@.len() == b_len + 1,
        forall|j: int| 0 <= j <= it2.index() ==> #[trigger] curr_row@[j] == lev(a@, b@, (i + 1) as nat, j as nat),
//@loop-start 2
    proof {
        assert(j == it2.index());
        lemma_lev_bound(a@, b@, i as nat, j as nat);
        lemma_lev_bound(a@, b@, i as nat, (j + 1) as nat);
        lemma_lev_bound(a@, b@, (i + 1) as nat, j as nat);
    }
//@end

//@fn max_edit_distance
//@spec
    ensures r == (if name_len <= 4 { 1int } else { 2int }),
//@end
