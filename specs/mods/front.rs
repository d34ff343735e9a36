//@module front src/reader.rs
use crate::schema::*;
use crate::error::*;
use crate::reader::*;
use crate::lex::*;
use crate::tree::*;
use crate::text::*;
use crate::diag::*;
use crate::walk::*;
broadcast use {group_string, group_coll, group_lex, group_tree, group_text};
pub type Result<T, E = Report> = std::result::Result<T, E>;

// A shared list of collected errors (Rc<RefCell<Vec<SyntaxError>>>), which is
// only ever added to. Whatever is added is an error of the text; so is
// whatever is read.
#[verifier::external_body]
pub struct ErrCell { _p: () }
impl ErrCell {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn push(&self, e: SyntaxError)
        requires err_in(e, self.text()),
    { unimplemented!() }
}
//@type CollectingErrorListener as=Rc<RefCell<Vec<SyntaxError>>>:ErrCell
// Where the parser says an error is: at a token of the text, at the end of
// the file (stop before start), or nowhere.
pub open spec fn tok_at(t: TokV, s: Seq<char>) -> bool {
    t.start < 0 || (bnd(s, t.start) && (if t.stop >= t.start { bnd(s, t.stop + 1) } else { t.start == blen(s) }))
}
// The character at a position ends at a position.
proof fn lemma_first_end(s: Seq<char>, a: int)
    requires bnd(s, a),
    ensures tail(s, a).len() > 0 ==> bnd(s, a + clen(tail(s, a)[0])), tail(s, a).len() == 0 ==> a == blen(s),
{
    let t = tail(s, a);
    if t.len() > 0 {
        let c = t[0];
        assert(c.at_start(t) >= 0);
        lemma_starts_char(c, t);
        lemma_tail(s, a, clen(c) as int);
    } else {
        lemma_tail_len(s, a);
        assert(t =~= Seq::empty());
        assert(blen(Seq::<char>::empty()) == 0);
    }
}
//@fn <ErrorListener for CollectingErrorListener>::syntax_error
//@opt str_slice
//@replace impl<'a, T: Recognizer<'a>> CollectingErrorListener { => impl CollectingErrorListener {
//@replace _recognizer: &T, => 
//@replace offending_symbol: Option<&<T::TF as TokenFactory<'a>>::Inner>, => offending_symbol: Option<&Tok>,
//@replace _error: Option<&antlr4rust::errors::ANTLRError>, => 
//@replace self.errors.borrow_mut().push( => self.errors.push(
//@spec
    requires
        self.source is Some ==> self.source->0@ == self.errors.text(),
        blen(self.errors.text()) < isize::MAX,
        offending_symbol is Some ==> tok_at((*offending_symbol->0).tk(), self.errors.text()),
//@start
    hide(blen); hide(cidx);
    let ghost t = self.errors.text();
    proof { lemma_bnd_ends(t); }
//@before let length
    proof { lemma_first_end(t, offset as int); }
//@before self.errors.borrow_mut
    proof {
        let m = "line "@ + int_dec(line as int) + ":"@ + int_dec(column as int) + " "@ + display_msg@;
        assert(line_of(m, line as int, column as int, display_msg@));
        assert(Seq::<char>::empty() + "line "@ =~= "line "@);
        assert(""@ + "line "@ =~= "line "@) by { reveal_strlit(""); }
        // Trusted: the parser reports what it calls `)` at a token that starts with an ASCII character.
        assume("`)`".within(m) ==> pos_in(t, offset + 1));
    }
//@end
