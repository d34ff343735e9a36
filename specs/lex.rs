// Tokens and token streams of the ANTLR runtime: what is assumed of them.
#![allow(unused, non_snake_case)]
use vstd::prelude::*;
use crate::stubs::*;
use crate::idlparser::*;
use crate::reader::{int_tok, str_tok, float_tok};
verus! {
#[verifier::external_body]
pub struct Term { _p: () }
// A token of the stream. Its position is where it stands in the source text.
#[verifier::external_body]
pub struct Tok { _p: () }
// Tokens that the grammar takes from one lexer rule only.
#[verifier::external_body]
pub struct IntTok { _p: () }
#[verifier::external_body]
pub struct StrTok { _p: () }
pub ghost struct TokV { pub tt: int, pub text: Seq<char>, pub start: int, pub stop: int, pub index: int, pub line: int, pub column: int }
pub trait Token {
    spec fn tk(&self) -> TokV;
    fn get_token_type(&self) -> (r: i32) ensures r == self.tk().tt;
    fn get_text(&self) -> (r: &str) ensures r@ == self.tk().text;
    fn get_start(&self) -> (r: isize) ensures r == self.tk().start;
    fn get_stop(&self) -> (r: isize) ensures r == self.tk().stop;
    fn get_token_index(&self) -> (r: isize) ensures r == self.tk().index;
    fn get_line(&self) -> (r: isize) ensures r == self.tk().line;
    fn get_column(&self) -> (r: isize) ensures r == self.tk().column;
}
impl Token for Tok {
    uninterp spec fn tk(&self) -> TokV;
    #[verifier::external_body] fn get_token_type(&self) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn get_text(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn get_start(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_stop(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_token_index(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_line(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_column(&self) -> (r: isize) { unimplemented!() }
}
impl Token for IntTok {
    uninterp spec fn tk(&self) -> TokV;
    #[verifier::external_body] fn get_token_type(&self) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn get_text(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn get_start(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_stop(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_token_index(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_line(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_column(&self) -> (r: isize) { unimplemented!() }
}
impl Token for StrTok {
    uninterp spec fn tk(&self) -> TokV;
    #[verifier::external_body] fn get_token_type(&self) -> (r: i32) { unimplemented!() }
    #[verifier::external_body] fn get_text(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn get_start(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_stop(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_token_index(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_line(&self) -> (r: isize) { unimplemented!() }
    #[verifier::external_body] fn get_column(&self) -> (r: isize) { unimplemented!() }
}
pub trait VAsRefBox<T> { spec fn abv(&self) -> &T; fn v_as_ref(&self) -> (r: &T) ensures *r == *self.abv(); }
impl<T> VAsRefBox<T> for Box<T> { open spec fn abv(&self) -> &T { &**self } fn v_as_ref(&self) -> (r: &T) { &**self } }
pub trait VAsRefOpt<T> { spec fn aov(&self) -> Option<&T>; fn v_as_ref(&self) -> (r: Option<&T>) ensures r == self.aov(); }
impl<T> VAsRefOpt<T> for Option<T> { open spec fn aov(&self) -> Option<&T> { match self { Some(x) => Some(x), None => None } } fn v_as_ref(&self) -> (r: Option<&T>) { match self { Some(x) => Some(x), None => None } } }
// The lexer rules of the literals.
pub broadcast axiom fn axiom_tok(t: Tok)
    ensures
        (#[trigger] t.tk()).tt == Idl_IntegerLiteral ==> int_tok(t.tk().text),
        t.tk().tt == Idl_StringLiteral ==> str_tok(t.tk().text),
        t.tk().tt == Idl_FloatingPointLiteral ==> float_tok(t.tk().text);
pub broadcast axiom fn axiom_int_tok(t: IntTok) ensures int_tok((#[trigger] t.tk()).text);
pub broadcast axiom fn axiom_str_tok(t: StrTok) ensures str_tok((#[trigger] t.tk()).text);
// Positions are byte offsets into a text in memory: -1, or small enough for one to be added.
pub open spec fn small(t: TokV) -> bool { -1 <= t.start < isize::MAX && -1 <= t.stop < isize::MAX && -1 <= t.index < isize::MAX && 0 <= t.column < isize::MAX }
pub broadcast axiom fn axiom_tok_small(t: Tok) ensures small(#[trigger] t.tk());
pub broadcast axiom fn axiom_int_tok_small(t: IntTok) ensures small(#[trigger] t.tk());
pub broadcast axiom fn axiom_str_tok_small(t: StrTok) ensures small(#[trigger] t.tk());
pub broadcast group group_lex { axiom_tok, axiom_int_tok, axiom_str_tok, axiom_tok_small, axiom_int_tok_small, axiom_str_tok_small, }
pub trait ParserRuleContext<'a> {
    spec fn s_start(&self) -> Tok;
    spec fn s_stop(&self) -> Tok;
    fn start(&self) -> (r: &Tok) ensures *r == self.s_start();
    fn stop(&self) -> (r: &Tok) ensures *r == self.s_stop();
}
// All tokens of a text, comments and white space included. A tree is only
// ever walked together with the stream it was parsed from, so the indices of
// its tokens lie in the stream.
pub trait TokenFactory<'a> { type Inner: Token; }
pub trait TokenStream<'a> {
    type TF: TokenFactory<'a>;
    spec fn tv(&self) -> spec_fn(int) -> TokV;
    spec fn n(&self) -> int;
    fn get(&self, i: isize) -> (r: &<Self::TF as TokenFactory<'a>>::Inner) requires 0 <= i ensures r.tk() == (self.tv())(i as int), small((self.tv())(i as int));
    fn size(&self) -> (r: isize) ensures r == self.n() && r >= 0;
}
pub struct VTF { pub z: u8 }
impl<'a> TokenFactory<'a> for VTF { type Inner = Tok; }
#[verifier::external_body]
pub struct TS<'a> { _p: std::marker::PhantomData<&'a ()> }
impl<'a> TokenStream<'a> for TS<'a> {
    type TF = VTF;
    uninterp spec fn tv(&self) -> spec_fn(int) -> TokV;
    uninterp spec fn n(&self) -> int;
    #[verifier::external_body]
    fn get(&self, i: isize) -> (r: &<Self::TF as TokenFactory<'a>>::Inner) { unimplemented!() }
    #[verifier::external_body]
    fn size(&self) -> (r: isize) { unimplemented!() }
}
// Text of a token, as an owned string.
pub trait InputData { spec fn idv(&self) -> Seq<char>; fn to_display(&self) -> (r: String) ensures r@ == self.idv(); }
impl InputData for str { open spec fn idv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn to_display(&self) -> (r: String) { unimplemented!() } }
pub trait VBorrow: Sized { fn v_borrow(&self) -> (r: &Self) ensures *r == *self; }
impl<T> VBorrow for T { fn v_borrow(&self) -> (r: &Self) { self } }
} // verus!
