// Written by tools/tree.py from src/generated/idlparser.rs: do not edit.
#![allow(unused, non_snake_case)]
use vstd::prelude::*;
use std::rc::Rc;
use crate::stubs::*;
use crate::lex::*;
verus! {
#[verifier::external_body]
pub struct Node<'a> { _p: std::marker::PhantomData<&'a ()> }

pub struct IdlFileContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> IdlFileContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_EOF(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn EOF(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_EOF() { unimplemented!() }
    pub uninterp spec fn s_protocolDeclaration(&self) -> Option<Rc<ProtocolDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn protocolDeclaration(&self) -> (r: Option<Rc<ProtocolDeclarationContextAll<'a>>>) ensures r == self.s_protocolDeclaration() { unimplemented!() }
    pub uninterp spec fn s_namespaceDeclaration(&self) -> Option<Rc<NamespaceDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn namespaceDeclaration(&self) -> (r: Option<Rc<NamespaceDeclarationContextAll<'a>>>) ensures r == self.s_namespaceDeclaration() { unimplemented!() }
    pub uninterp spec fn s_mainSchemaDeclaration(&self) -> Option<Rc<MainSchemaDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn mainSchemaDeclaration(&self) -> (r: Option<Rc<MainSchemaDeclarationContextAll<'a>>>) ensures r == self.s_mainSchemaDeclaration() { unimplemented!() }
    pub uninterp spec fn s_importStatement_all(&self) -> Vec<Rc<ImportStatementContextAll<'a>>>;
    #[verifier::external_body] pub fn importStatement_all(&self) -> (r: Vec<Rc<ImportStatementContextAll<'a>>>) ensures r == self.s_importStatement_all() { unimplemented!() }
    pub uninterp spec fn s_namedSchemaDeclaration_all(&self) -> Vec<Rc<NamedSchemaDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn namedSchemaDeclaration_all(&self) -> (r: Vec<Rc<NamedSchemaDeclarationContextAll<'a>>>) ensures r == self.s_namedSchemaDeclaration_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
    pub uninterp spec fn s_children(&self) -> Seq<VChild<'a>>;
    #[verifier::external_body] pub fn get_children(&self) -> (r: Vec<VChild<'a>>) ensures r@ == self.s_children() { unimplemented!() }
}
pub uninterp spec fn start_of_IdlFile(c: IdlFileContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_IdlFile(c: IdlFileContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for IdlFileContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_IdlFile(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_IdlFile(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_IdlFile_protocolDeclaration(c: IdlFileContextAll<'_>)
    ensures (#[trigger] c.s_protocolDeclaration()) is Some ==> c.s_protocolDeclaration()->0.rank() < c.rank();
pub broadcast axiom fn axiom_IdlFile_namespaceDeclaration(c: IdlFileContextAll<'_>)
    ensures (#[trigger] c.s_namespaceDeclaration()) is Some ==> c.s_namespaceDeclaration()->0.rank() < c.rank();
pub broadcast axiom fn axiom_IdlFile_mainSchemaDeclaration(c: IdlFileContextAll<'_>)
    ensures (#[trigger] c.s_mainSchemaDeclaration()) is Some ==> c.s_mainSchemaDeclaration()->0.rank() < c.rank();
pub broadcast axiom fn axiom_IdlFile_importStatement_all(c: IdlFileContextAll<'_>, i: int)
    ensures 0 <= i < c.s_importStatement_all()@.len() ==> (#[trigger] c.s_importStatement_all()@[i]).rank() < c.rank();
pub broadcast axiom fn axiom_IdlFile_namedSchemaDeclaration_all(c: IdlFileContextAll<'_>, i: int)
    ensures 0 <= i < c.s_namedSchemaDeclaration_all()@.len() ==> (#[trigger] c.s_namedSchemaDeclaration_all()@[i]).rank() < c.rank();
pub broadcast group group_IdlFile { axiom_IdlFile_protocolDeclaration, axiom_IdlFile_namespaceDeclaration, axiom_IdlFile_mainSchemaDeclaration, axiom_IdlFile_importStatement_all, axiom_IdlFile_namedSchemaDeclaration_all, }
pub struct ProtocolDeclarationContextAll<'a> {
    pub node: Node<'a>,
    pub name: Option<Rc<IdentifierContextAll<'a>>>,
}
impl<'a> ProtocolDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Protocol(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Protocol(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Protocol() { unimplemented!() }
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_protocolDeclarationBody(&self) -> Option<Rc<ProtocolDeclarationBodyContextAll<'a>>>;
    #[verifier::external_body] pub fn protocolDeclarationBody(&self) -> (r: Option<Rc<ProtocolDeclarationBodyContextAll<'a>>>) ensures r == self.s_protocolDeclarationBody() { unimplemented!() }
    pub uninterp spec fn s_DocComment(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn DocComment(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_DocComment() { unimplemented!() }
    pub uninterp spec fn s_schemaProperty_all(&self) -> Vec<Rc<SchemaPropertyContextAll<'a>>>;
    #[verifier::external_body] pub fn schemaProperty_all(&self) -> (r: Vec<Rc<SchemaPropertyContextAll<'a>>>) ensures r == self.s_schemaProperty_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_ProtocolDeclaration(c: ProtocolDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_ProtocolDeclaration(c: ProtocolDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for ProtocolDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_ProtocolDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_ProtocolDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_ProtocolDeclaration_identifier(c: ProtocolDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast axiom fn axiom_ProtocolDeclaration_protocolDeclarationBody(c: ProtocolDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_protocolDeclarationBody()) is Some ==> c.s_protocolDeclarationBody()->0.rank() < c.rank();
pub broadcast axiom fn axiom_ProtocolDeclaration_schemaProperty_all(c: ProtocolDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_schemaProperty_all()@.len() ==> (#[trigger] c.s_schemaProperty_all()@[i]).rank() < c.rank();
pub broadcast group group_ProtocolDeclaration { axiom_ProtocolDeclaration_identifier, axiom_ProtocolDeclaration_protocolDeclarationBody, axiom_ProtocolDeclaration_schemaProperty_all, }
pub struct ProtocolDeclarationBodyContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> ProtocolDeclarationBodyContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_LBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LBrace() { unimplemented!() }
    pub uninterp spec fn s_RBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RBrace() { unimplemented!() }
    pub uninterp spec fn s_importStatement_all(&self) -> Vec<Rc<ImportStatementContextAll<'a>>>;
    #[verifier::external_body] pub fn importStatement_all(&self) -> (r: Vec<Rc<ImportStatementContextAll<'a>>>) ensures r == self.s_importStatement_all() { unimplemented!() }
    pub uninterp spec fn s_namedSchemaDeclaration_all(&self) -> Vec<Rc<NamedSchemaDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn namedSchemaDeclaration_all(&self) -> (r: Vec<Rc<NamedSchemaDeclarationContextAll<'a>>>) ensures r == self.s_namedSchemaDeclaration_all() { unimplemented!() }
    pub uninterp spec fn s_messageDeclaration_all(&self) -> Vec<Rc<MessageDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn messageDeclaration_all(&self) -> (r: Vec<Rc<MessageDeclarationContextAll<'a>>>) ensures r == self.s_messageDeclaration_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
    pub uninterp spec fn s_children(&self) -> Seq<VChild<'a>>;
    #[verifier::external_body] pub fn get_children(&self) -> (r: Vec<VChild<'a>>) ensures r@ == self.s_children() { unimplemented!() }
}
pub uninterp spec fn start_of_ProtocolDeclarationBody(c: ProtocolDeclarationBodyContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_ProtocolDeclarationBody(c: ProtocolDeclarationBodyContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for ProtocolDeclarationBodyContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_ProtocolDeclarationBody(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_ProtocolDeclarationBody(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_ProtocolDeclarationBody_importStatement_all(c: ProtocolDeclarationBodyContextAll<'_>, i: int)
    ensures 0 <= i < c.s_importStatement_all()@.len() ==> (#[trigger] c.s_importStatement_all()@[i]).rank() < c.rank();
pub broadcast axiom fn axiom_ProtocolDeclarationBody_namedSchemaDeclaration_all(c: ProtocolDeclarationBodyContextAll<'_>, i: int)
    ensures 0 <= i < c.s_namedSchemaDeclaration_all()@.len() ==> (#[trigger] c.s_namedSchemaDeclaration_all()@[i]).rank() < c.rank();
pub broadcast axiom fn axiom_ProtocolDeclarationBody_messageDeclaration_all(c: ProtocolDeclarationBodyContextAll<'_>, i: int)
    ensures 0 <= i < c.s_messageDeclaration_all()@.len() ==> (#[trigger] c.s_messageDeclaration_all()@[i]).rank() < c.rank();
pub broadcast group group_ProtocolDeclarationBody { axiom_ProtocolDeclarationBody_importStatement_all, axiom_ProtocolDeclarationBody_namedSchemaDeclaration_all, axiom_ProtocolDeclarationBody_messageDeclaration_all, }
pub struct NamespaceDeclarationContextAll<'a> {
    pub node: Node<'a>,
    pub namespace: Option<Rc<IdentifierContextAll<'a>>>,
}
impl<'a> NamespaceDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Namespace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Namespace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Namespace() { unimplemented!() }
    pub uninterp spec fn s_Semicolon(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Semicolon(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Semicolon() { unimplemented!() }
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_NamespaceDeclaration(c: NamespaceDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_NamespaceDeclaration(c: NamespaceDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for NamespaceDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_NamespaceDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_NamespaceDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_NamespaceDeclaration_identifier(c: NamespaceDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast group group_NamespaceDeclaration { axiom_NamespaceDeclaration_identifier, }
pub struct MainSchemaDeclarationContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> MainSchemaDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Schema(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Schema(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Schema() { unimplemented!() }
    pub uninterp spec fn s_Semicolon(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Semicolon(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Semicolon() { unimplemented!() }
    pub uninterp spec fn s_fullType(&self) -> Option<Rc<FullTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn fullType(&self) -> (r: Option<Rc<FullTypeContextAll<'a>>>) ensures r == self.s_fullType() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_MainSchemaDeclaration(c: MainSchemaDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_MainSchemaDeclaration(c: MainSchemaDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for MainSchemaDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_MainSchemaDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_MainSchemaDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_MainSchemaDeclaration_fullType(c: MainSchemaDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_fullType()) is Some ==> c.s_fullType()->0.rank() < c.rank();
pub broadcast group group_MainSchemaDeclaration { axiom_MainSchemaDeclaration_fullType, }
pub struct IdentifierContextAll<'a> {
    pub node: Node<'a>,
    pub word: Option<Box<Tok>>,
}
impl<'a> IdentifierContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_IdentifierToken(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn IdentifierToken(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_IdentifierToken() { unimplemented!() }
    pub uninterp spec fn s_Protocol(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Protocol(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Protocol() { unimplemented!() }
    pub uninterp spec fn s_Namespace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Namespace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Namespace() { unimplemented!() }
    pub uninterp spec fn s_Import(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Import(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Import() { unimplemented!() }
    pub uninterp spec fn s_IDL(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn IDL(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_IDL() { unimplemented!() }
    pub uninterp spec fn s_Schema(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Schema(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Schema() { unimplemented!() }
    pub uninterp spec fn s_Enum(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Enum(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Enum() { unimplemented!() }
    pub uninterp spec fn s_Fixed(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Fixed(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Fixed() { unimplemented!() }
    pub uninterp spec fn s_Error(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Error(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Error() { unimplemented!() }
    pub uninterp spec fn s_Record(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Record(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Record() { unimplemented!() }
    pub uninterp spec fn s_Array(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Array(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Array() { unimplemented!() }
    pub uninterp spec fn s_Map(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Map(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Map() { unimplemented!() }
    pub uninterp spec fn s_Union(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Union(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Union() { unimplemented!() }
    pub uninterp spec fn s_Boolean(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Boolean(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Boolean() { unimplemented!() }
    pub uninterp spec fn s_Int(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Int(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Int() { unimplemented!() }
    pub uninterp spec fn s_Long(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Long(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Long() { unimplemented!() }
    pub uninterp spec fn s_Float(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Float(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Float() { unimplemented!() }
    pub uninterp spec fn s_Double(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Double(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Double() { unimplemented!() }
    pub uninterp spec fn s_String(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn String(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_String() { unimplemented!() }
    pub uninterp spec fn s_Bytes(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Bytes(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Bytes() { unimplemented!() }
    pub uninterp spec fn s_Null(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Null(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Null() { unimplemented!() }
    pub uninterp spec fn s_BTrue(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn BTrue(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_BTrue() { unimplemented!() }
    pub uninterp spec fn s_BFalse(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn BFalse(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_BFalse() { unimplemented!() }
    pub uninterp spec fn s_Decimal(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Decimal(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Decimal() { unimplemented!() }
    pub uninterp spec fn s_Date(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Date(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Date() { unimplemented!() }
    pub uninterp spec fn s_Time(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Time(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Time() { unimplemented!() }
    pub uninterp spec fn s_Timestamp(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Timestamp(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Timestamp() { unimplemented!() }
    pub uninterp spec fn s_LocalTimestamp(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LocalTimestamp(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LocalTimestamp() { unimplemented!() }
    pub uninterp spec fn s_UUID(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn UUID(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_UUID() { unimplemented!() }
    pub uninterp spec fn s_Void(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Void(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Void() { unimplemented!() }
    pub uninterp spec fn s_Oneway(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Oneway(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Oneway() { unimplemented!() }
    pub uninterp spec fn s_Throws(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Throws(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Throws() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_Identifier(c: IdentifierContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_Identifier(c: IdentifierContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for IdentifierContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_Identifier(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_Identifier(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub struct SchemaPropertyContextAll<'a> {
    pub node: Node<'a>,
    pub name: Option<Rc<IdentifierContextAll<'a>>>,
}
impl<'a> SchemaPropertyContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_At(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn At(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_At() { unimplemented!() }
    pub uninterp spec fn s_LParen(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LParen(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LParen() { unimplemented!() }
    pub uninterp spec fn s_RParen(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RParen(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RParen() { unimplemented!() }
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_jsonValue(&self) -> Option<Rc<JsonValueContextAll<'a>>>;
    #[verifier::external_body] pub fn jsonValue(&self) -> (r: Option<Rc<JsonValueContextAll<'a>>>) ensures r == self.s_jsonValue() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_SchemaProperty(c: SchemaPropertyContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_SchemaProperty(c: SchemaPropertyContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for SchemaPropertyContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_SchemaProperty(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_SchemaProperty(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_SchemaProperty_identifier(c: SchemaPropertyContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast axiom fn axiom_SchemaProperty_jsonValue(c: SchemaPropertyContextAll<'_>)
    ensures (#[trigger] c.s_jsonValue()) is Some ==> c.s_jsonValue()->0.rank() < c.rank();
pub broadcast group group_SchemaProperty { axiom_SchemaProperty_identifier, axiom_SchemaProperty_jsonValue, }
pub struct ImportStatementContextAll<'a> {
    pub node: Node<'a>,
    pub importType: Option<Box<Tok>>,
    pub location: Option<Box<StrTok>>,
}
impl<'a> ImportStatementContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Import(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Import(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Import() { unimplemented!() }
    pub uninterp spec fn s_Semicolon(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Semicolon(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Semicolon() { unimplemented!() }
    pub uninterp spec fn s_StringLiteral(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn StringLiteral(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_StringLiteral() { unimplemented!() }
    pub uninterp spec fn s_Schema(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Schema(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Schema() { unimplemented!() }
    pub uninterp spec fn s_Protocol(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Protocol(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Protocol() { unimplemented!() }
    pub uninterp spec fn s_IDL(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn IDL(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_IDL() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_ImportStatement(c: ImportStatementContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_ImportStatement(c: ImportStatementContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for ImportStatementContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_ImportStatement(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_ImportStatement(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub struct NamedSchemaDeclarationContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> NamedSchemaDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_fixedDeclaration(&self) -> Option<Rc<FixedDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn fixedDeclaration(&self) -> (r: Option<Rc<FixedDeclarationContextAll<'a>>>) ensures r == self.s_fixedDeclaration() { unimplemented!() }
    pub uninterp spec fn s_enumDeclaration(&self) -> Option<Rc<EnumDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn enumDeclaration(&self) -> (r: Option<Rc<EnumDeclarationContextAll<'a>>>) ensures r == self.s_enumDeclaration() { unimplemented!() }
    pub uninterp spec fn s_recordDeclaration(&self) -> Option<Rc<RecordDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn recordDeclaration(&self) -> (r: Option<Rc<RecordDeclarationContextAll<'a>>>) ensures r == self.s_recordDeclaration() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_NamedSchemaDeclaration(c: NamedSchemaDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_NamedSchemaDeclaration(c: NamedSchemaDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for NamedSchemaDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_NamedSchemaDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_NamedSchemaDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_NamedSchemaDeclaration_fixedDeclaration(c: NamedSchemaDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_fixedDeclaration()) is Some ==> c.s_fixedDeclaration()->0.rank() < c.rank();
pub broadcast axiom fn axiom_NamedSchemaDeclaration_enumDeclaration(c: NamedSchemaDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_enumDeclaration()) is Some ==> c.s_enumDeclaration()->0.rank() < c.rank();
pub broadcast axiom fn axiom_NamedSchemaDeclaration_recordDeclaration(c: NamedSchemaDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_recordDeclaration()) is Some ==> c.s_recordDeclaration()->0.rank() < c.rank();
pub broadcast group group_NamedSchemaDeclaration { axiom_NamedSchemaDeclaration_fixedDeclaration, axiom_NamedSchemaDeclaration_enumDeclaration, axiom_NamedSchemaDeclaration_recordDeclaration, }
pub struct FixedDeclarationContextAll<'a> {
    pub node: Node<'a>,
    pub name: Option<Rc<IdentifierContextAll<'a>>>,
    pub size: Option<Box<IntTok>>,
}
impl<'a> FixedDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Fixed(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Fixed(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Fixed() { unimplemented!() }
    pub uninterp spec fn s_LParen(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LParen(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LParen() { unimplemented!() }
    pub uninterp spec fn s_RParen(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RParen(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RParen() { unimplemented!() }
    pub uninterp spec fn s_Semicolon(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Semicolon(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Semicolon() { unimplemented!() }
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_IntegerLiteral(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn IntegerLiteral(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_IntegerLiteral() { unimplemented!() }
    pub uninterp spec fn s_DocComment(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn DocComment(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_DocComment() { unimplemented!() }
    pub uninterp spec fn s_schemaProperty_all(&self) -> Vec<Rc<SchemaPropertyContextAll<'a>>>;
    #[verifier::external_body] pub fn schemaProperty_all(&self) -> (r: Vec<Rc<SchemaPropertyContextAll<'a>>>) ensures r == self.s_schemaProperty_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_FixedDeclaration(c: FixedDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_FixedDeclaration(c: FixedDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for FixedDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_FixedDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_FixedDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_FixedDeclaration_identifier(c: FixedDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast axiom fn axiom_FixedDeclaration_schemaProperty_all(c: FixedDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_schemaProperty_all()@.len() ==> (#[trigger] c.s_schemaProperty_all()@[i]).rank() < c.rank();
pub broadcast group group_FixedDeclaration { axiom_FixedDeclaration_identifier, axiom_FixedDeclaration_schemaProperty_all, }
pub struct EnumDeclarationContextAll<'a> {
    pub node: Node<'a>,
    pub name: Option<Rc<IdentifierContextAll<'a>>>,
}
impl<'a> EnumDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Enum(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Enum(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Enum() { unimplemented!() }
    pub uninterp spec fn s_LBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LBrace() { unimplemented!() }
    pub uninterp spec fn s_RBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RBrace() { unimplemented!() }
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_DocComment(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn DocComment(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_DocComment() { unimplemented!() }
    pub uninterp spec fn s_schemaProperty_all(&self) -> Vec<Rc<SchemaPropertyContextAll<'a>>>;
    #[verifier::external_body] pub fn schemaProperty_all(&self) -> (r: Vec<Rc<SchemaPropertyContextAll<'a>>>) ensures r == self.s_schemaProperty_all() { unimplemented!() }
    pub uninterp spec fn s_enumSymbol_all(&self) -> Vec<Rc<EnumSymbolContextAll<'a>>>;
    #[verifier::external_body] pub fn enumSymbol_all(&self) -> (r: Vec<Rc<EnumSymbolContextAll<'a>>>) ensures r == self.s_enumSymbol_all() { unimplemented!() }
    pub uninterp spec fn s_enumDefault(&self) -> Option<Rc<EnumDefaultContextAll<'a>>>;
    #[verifier::external_body] pub fn enumDefault(&self) -> (r: Option<Rc<EnumDefaultContextAll<'a>>>) ensures r == self.s_enumDefault() { unimplemented!() }
    pub uninterp spec fn s_Comma_all(&self) -> Vec<Rc<Term>>;
    #[verifier::external_body] pub fn Comma_all(&self) -> (r: Vec<Rc<Term>>) ensures r == self.s_Comma_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_EnumDeclaration(c: EnumDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_EnumDeclaration(c: EnumDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for EnumDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_EnumDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_EnumDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_EnumDeclaration_identifier(c: EnumDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast axiom fn axiom_EnumDeclaration_schemaProperty_all(c: EnumDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_schemaProperty_all()@.len() ==> (#[trigger] c.s_schemaProperty_all()@[i]).rank() < c.rank();
pub broadcast axiom fn axiom_EnumDeclaration_enumSymbol_all(c: EnumDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_enumSymbol_all()@.len() ==> (#[trigger] c.s_enumSymbol_all()@[i]).rank() < c.rank();
pub broadcast axiom fn axiom_EnumDeclaration_enumDefault(c: EnumDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_enumDefault()) is Some ==> c.s_enumDefault()->0.rank() < c.rank();
pub broadcast group group_EnumDeclaration { axiom_EnumDeclaration_identifier, axiom_EnumDeclaration_schemaProperty_all, axiom_EnumDeclaration_enumSymbol_all, axiom_EnumDeclaration_enumDefault, }
pub struct EnumSymbolContextAll<'a> {
    pub node: Node<'a>,
    pub name: Option<Rc<IdentifierContextAll<'a>>>,
}
impl<'a> EnumSymbolContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_DocComment(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn DocComment(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_DocComment() { unimplemented!() }
    pub uninterp spec fn s_schemaProperty_all(&self) -> Vec<Rc<SchemaPropertyContextAll<'a>>>;
    #[verifier::external_body] pub fn schemaProperty_all(&self) -> (r: Vec<Rc<SchemaPropertyContextAll<'a>>>) ensures r == self.s_schemaProperty_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_EnumSymbol(c: EnumSymbolContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_EnumSymbol(c: EnumSymbolContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for EnumSymbolContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_EnumSymbol(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_EnumSymbol(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_EnumSymbol_identifier(c: EnumSymbolContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast axiom fn axiom_EnumSymbol_schemaProperty_all(c: EnumSymbolContextAll<'_>, i: int)
    ensures 0 <= i < c.s_schemaProperty_all()@.len() ==> (#[trigger] c.s_schemaProperty_all()@[i]).rank() < c.rank();
pub broadcast group group_EnumSymbol { axiom_EnumSymbol_identifier, axiom_EnumSymbol_schemaProperty_all, }
pub struct EnumDefaultContextAll<'a> {
    pub node: Node<'a>,
    pub defaultSymbolName: Option<Rc<IdentifierContextAll<'a>>>,
}
impl<'a> EnumDefaultContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Equals(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Equals(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Equals() { unimplemented!() }
    pub uninterp spec fn s_Semicolon(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Semicolon(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Semicolon() { unimplemented!() }
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_EnumDefault(c: EnumDefaultContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_EnumDefault(c: EnumDefaultContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for EnumDefaultContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_EnumDefault(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_EnumDefault(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_EnumDefault_identifier(c: EnumDefaultContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast group group_EnumDefault { axiom_EnumDefault_identifier, }
pub struct RecordDeclarationContextAll<'a> {
    pub node: Node<'a>,
    pub recordType: Option<Box<Tok>>,
    pub name: Option<Rc<IdentifierContextAll<'a>>>,
}
impl<'a> RecordDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_recordBody(&self) -> Option<Rc<RecordBodyContextAll<'a>>>;
    #[verifier::external_body] pub fn recordBody(&self) -> (r: Option<Rc<RecordBodyContextAll<'a>>>) ensures r == self.s_recordBody() { unimplemented!() }
    pub uninterp spec fn s_Record(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Record(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Record() { unimplemented!() }
    pub uninterp spec fn s_Error(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Error(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Error() { unimplemented!() }
    pub uninterp spec fn s_DocComment(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn DocComment(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_DocComment() { unimplemented!() }
    pub uninterp spec fn s_schemaProperty_all(&self) -> Vec<Rc<SchemaPropertyContextAll<'a>>>;
    #[verifier::external_body] pub fn schemaProperty_all(&self) -> (r: Vec<Rc<SchemaPropertyContextAll<'a>>>) ensures r == self.s_schemaProperty_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_RecordDeclaration(c: RecordDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_RecordDeclaration(c: RecordDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for RecordDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_RecordDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_RecordDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_RecordDeclaration_identifier(c: RecordDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast axiom fn axiom_RecordDeclaration_recordBody(c: RecordDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_recordBody()) is Some ==> c.s_recordBody()->0.rank() < c.rank();
pub broadcast axiom fn axiom_RecordDeclaration_schemaProperty_all(c: RecordDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_schemaProperty_all()@.len() ==> (#[trigger] c.s_schemaProperty_all()@[i]).rank() < c.rank();
pub broadcast group group_RecordDeclaration { axiom_RecordDeclaration_identifier, axiom_RecordDeclaration_recordBody, axiom_RecordDeclaration_schemaProperty_all, }
pub struct RecordBodyContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> RecordBodyContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_LBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LBrace() { unimplemented!() }
    pub uninterp spec fn s_RBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RBrace() { unimplemented!() }
    pub uninterp spec fn s_fieldDeclaration_all(&self) -> Vec<Rc<FieldDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn fieldDeclaration_all(&self) -> (r: Vec<Rc<FieldDeclarationContextAll<'a>>>) ensures r == self.s_fieldDeclaration_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_RecordBody(c: RecordBodyContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_RecordBody(c: RecordBodyContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for RecordBodyContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_RecordBody(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_RecordBody(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_RecordBody_fieldDeclaration_all(c: RecordBodyContextAll<'_>, i: int)
    ensures 0 <= i < c.s_fieldDeclaration_all()@.len() ==> (#[trigger] c.s_fieldDeclaration_all()@[i]).rank() < c.rank();
pub broadcast group group_RecordBody { axiom_RecordBody_fieldDeclaration_all, }
pub struct FieldDeclarationContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> FieldDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Semicolon(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Semicolon(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Semicolon() { unimplemented!() }
    pub uninterp spec fn s_fullType(&self) -> Option<Rc<FullTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn fullType(&self) -> (r: Option<Rc<FullTypeContextAll<'a>>>) ensures r == self.s_fullType() { unimplemented!() }
    pub uninterp spec fn s_variableDeclaration_all(&self) -> Vec<Rc<VariableDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn variableDeclaration_all(&self) -> (r: Vec<Rc<VariableDeclarationContextAll<'a>>>) ensures r == self.s_variableDeclaration_all() { unimplemented!() }
    pub uninterp spec fn s_Comma_all(&self) -> Vec<Rc<Term>>;
    #[verifier::external_body] pub fn Comma_all(&self) -> (r: Vec<Rc<Term>>) ensures r == self.s_Comma_all() { unimplemented!() }
    pub uninterp spec fn s_DocComment(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn DocComment(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_DocComment() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_FieldDeclaration(c: FieldDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_FieldDeclaration(c: FieldDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for FieldDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_FieldDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_FieldDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_FieldDeclaration_fullType(c: FieldDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_fullType()) is Some ==> c.s_fullType()->0.rank() < c.rank();
pub broadcast axiom fn axiom_FieldDeclaration_variableDeclaration_all(c: FieldDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_variableDeclaration_all()@.len() ==> (#[trigger] c.s_variableDeclaration_all()@[i]).rank() < c.rank();
pub broadcast group group_FieldDeclaration { axiom_FieldDeclaration_fullType, axiom_FieldDeclaration_variableDeclaration_all, }
pub struct VariableDeclarationContextAll<'a> {
    pub node: Node<'a>,
    pub fieldName: Option<Rc<IdentifierContextAll<'a>>>,
}
impl<'a> VariableDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_Equals(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Equals(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Equals() { unimplemented!() }
    pub uninterp spec fn s_DocComment(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn DocComment(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_DocComment() { unimplemented!() }
    pub uninterp spec fn s_schemaProperty_all(&self) -> Vec<Rc<SchemaPropertyContextAll<'a>>>;
    #[verifier::external_body] pub fn schemaProperty_all(&self) -> (r: Vec<Rc<SchemaPropertyContextAll<'a>>>) ensures r == self.s_schemaProperty_all() { unimplemented!() }
    pub uninterp spec fn s_jsonValue(&self) -> Option<Rc<JsonValueContextAll<'a>>>;
    #[verifier::external_body] pub fn jsonValue(&self) -> (r: Option<Rc<JsonValueContextAll<'a>>>) ensures r == self.s_jsonValue() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_VariableDeclaration(c: VariableDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_VariableDeclaration(c: VariableDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for VariableDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_VariableDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_VariableDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_VariableDeclaration_identifier(c: VariableDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast axiom fn axiom_VariableDeclaration_schemaProperty_all(c: VariableDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_schemaProperty_all()@.len() ==> (#[trigger] c.s_schemaProperty_all()@[i]).rank() < c.rank();
pub broadcast axiom fn axiom_VariableDeclaration_jsonValue(c: VariableDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_jsonValue()) is Some ==> c.s_jsonValue()->0.rank() < c.rank();
pub broadcast group group_VariableDeclaration { axiom_VariableDeclaration_identifier, axiom_VariableDeclaration_schemaProperty_all, axiom_VariableDeclaration_jsonValue, }
pub struct MessageDeclarationContextAll<'a> {
    pub node: Node<'a>,
    pub name: Option<Rc<IdentifierContextAll<'a>>>,
    pub oneway: Option<Box<Tok>>,
    pub identifier: Option<Rc<IdentifierContextAll<'a>>>,
    pub errors: Vec<Rc<IdentifierContextAll<'a>>>,
}
impl<'a> MessageDeclarationContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_LParen(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LParen(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LParen() { unimplemented!() }
    pub uninterp spec fn s_RParen(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RParen(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RParen() { unimplemented!() }
    pub uninterp spec fn s_Semicolon(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Semicolon(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Semicolon() { unimplemented!() }
    pub uninterp spec fn s_resultType(&self) -> Option<Rc<ResultTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn resultType(&self) -> (r: Option<Rc<ResultTypeContextAll<'a>>>) ensures r == self.s_resultType() { unimplemented!() }
    pub uninterp spec fn s_identifier_all(&self) -> Vec<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier_all(&self) -> (r: Vec<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier_all() { unimplemented!() }
    pub uninterp spec fn s_Throws(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Throws(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Throws() { unimplemented!() }
    pub uninterp spec fn s_DocComment(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn DocComment(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_DocComment() { unimplemented!() }
    pub uninterp spec fn s_schemaProperty_all(&self) -> Vec<Rc<SchemaPropertyContextAll<'a>>>;
    #[verifier::external_body] pub fn schemaProperty_all(&self) -> (r: Vec<Rc<SchemaPropertyContextAll<'a>>>) ensures r == self.s_schemaProperty_all() { unimplemented!() }
    pub uninterp spec fn s_formalParameter_all(&self) -> Vec<Rc<FormalParameterContextAll<'a>>>;
    #[verifier::external_body] pub fn formalParameter_all(&self) -> (r: Vec<Rc<FormalParameterContextAll<'a>>>) ensures r == self.s_formalParameter_all() { unimplemented!() }
    pub uninterp spec fn s_Oneway(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Oneway(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Oneway() { unimplemented!() }
    pub uninterp spec fn s_Comma_all(&self) -> Vec<Rc<Term>>;
    #[verifier::external_body] pub fn Comma_all(&self) -> (r: Vec<Rc<Term>>) ensures r == self.s_Comma_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_MessageDeclaration(c: MessageDeclarationContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_MessageDeclaration(c: MessageDeclarationContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for MessageDeclarationContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_MessageDeclaration(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_MessageDeclaration(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_MessageDeclaration_resultType(c: MessageDeclarationContextAll<'_>)
    ensures (#[trigger] c.s_resultType()) is Some ==> c.s_resultType()->0.rank() < c.rank();
pub broadcast axiom fn axiom_MessageDeclaration_identifier_all(c: MessageDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_identifier_all()@.len() ==> (#[trigger] c.s_identifier_all()@[i]).rank() < c.rank();
pub broadcast axiom fn axiom_MessageDeclaration_schemaProperty_all(c: MessageDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_schemaProperty_all()@.len() ==> (#[trigger] c.s_schemaProperty_all()@[i]).rank() < c.rank();
pub broadcast axiom fn axiom_MessageDeclaration_formalParameter_all(c: MessageDeclarationContextAll<'_>, i: int)
    ensures 0 <= i < c.s_formalParameter_all()@.len() ==> (#[trigger] c.s_formalParameter_all()@[i]).rank() < c.rank();
pub broadcast group group_MessageDeclaration { axiom_MessageDeclaration_resultType, axiom_MessageDeclaration_identifier_all, axiom_MessageDeclaration_schemaProperty_all, axiom_MessageDeclaration_formalParameter_all, }
pub struct FormalParameterContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> FormalParameterContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_fullType(&self) -> Option<Rc<FullTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn fullType(&self) -> (r: Option<Rc<FullTypeContextAll<'a>>>) ensures r == self.s_fullType() { unimplemented!() }
    pub uninterp spec fn s_variableDeclaration(&self) -> Option<Rc<VariableDeclarationContextAll<'a>>>;
    #[verifier::external_body] pub fn variableDeclaration(&self) -> (r: Option<Rc<VariableDeclarationContextAll<'a>>>) ensures r == self.s_variableDeclaration() { unimplemented!() }
    pub uninterp spec fn s_DocComment(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn DocComment(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_DocComment() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_FormalParameter(c: FormalParameterContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_FormalParameter(c: FormalParameterContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for FormalParameterContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_FormalParameter(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_FormalParameter(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_FormalParameter_fullType(c: FormalParameterContextAll<'_>)
    ensures (#[trigger] c.s_fullType()) is Some ==> c.s_fullType()->0.rank() < c.rank();
pub broadcast axiom fn axiom_FormalParameter_variableDeclaration(c: FormalParameterContextAll<'_>)
    ensures (#[trigger] c.s_variableDeclaration()) is Some ==> c.s_variableDeclaration()->0.rank() < c.rank();
pub broadcast group group_FormalParameter { axiom_FormalParameter_fullType, axiom_FormalParameter_variableDeclaration, }
pub struct ResultTypeContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> ResultTypeContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Void(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Void(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Void() { unimplemented!() }
    pub uninterp spec fn s_plainType(&self) -> Option<Rc<PlainTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn plainType(&self) -> (r: Option<Rc<PlainTypeContextAll<'a>>>) ensures r == self.s_plainType() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_ResultType(c: ResultTypeContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_ResultType(c: ResultTypeContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for ResultTypeContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_ResultType(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_ResultType(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_ResultType_plainType(c: ResultTypeContextAll<'_>)
    ensures (#[trigger] c.s_plainType()) is Some ==> c.s_plainType()->0.rank() < c.rank();
pub broadcast group group_ResultType { axiom_ResultType_plainType, }
pub struct FullTypeContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> FullTypeContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_plainType(&self) -> Option<Rc<PlainTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn plainType(&self) -> (r: Option<Rc<PlainTypeContextAll<'a>>>) ensures r == self.s_plainType() { unimplemented!() }
    pub uninterp spec fn s_schemaProperty_all(&self) -> Vec<Rc<SchemaPropertyContextAll<'a>>>;
    #[verifier::external_body] pub fn schemaProperty_all(&self) -> (r: Vec<Rc<SchemaPropertyContextAll<'a>>>) ensures r == self.s_schemaProperty_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_FullType(c: FullTypeContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_FullType(c: FullTypeContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for FullTypeContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_FullType(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_FullType(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_FullType_plainType(c: FullTypeContextAll<'_>)
    ensures (#[trigger] c.s_plainType()) is Some ==> c.s_plainType()->0.rank() < c.rank();
pub broadcast axiom fn axiom_FullType_schemaProperty_all(c: FullTypeContextAll<'_>, i: int)
    ensures 0 <= i < c.s_schemaProperty_all()@.len() ==> (#[trigger] c.s_schemaProperty_all()@[i]).rank() < c.rank();
pub broadcast group group_FullType { axiom_FullType_plainType, axiom_FullType_schemaProperty_all, }
pub struct PlainTypeContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> PlainTypeContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_arrayType(&self) -> Option<Rc<ArrayTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn arrayType(&self) -> (r: Option<Rc<ArrayTypeContextAll<'a>>>) ensures r == self.s_arrayType() { unimplemented!() }
    pub uninterp spec fn s_mapType(&self) -> Option<Rc<MapTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn mapType(&self) -> (r: Option<Rc<MapTypeContextAll<'a>>>) ensures r == self.s_mapType() { unimplemented!() }
    pub uninterp spec fn s_unionType(&self) -> Option<Rc<UnionTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn unionType(&self) -> (r: Option<Rc<UnionTypeContextAll<'a>>>) ensures r == self.s_unionType() { unimplemented!() }
    pub uninterp spec fn s_nullableType(&self) -> Option<Rc<NullableTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn nullableType(&self) -> (r: Option<Rc<NullableTypeContextAll<'a>>>) ensures r == self.s_nullableType() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_PlainType(c: PlainTypeContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_PlainType(c: PlainTypeContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for PlainTypeContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_PlainType(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_PlainType(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_PlainType_arrayType(c: PlainTypeContextAll<'_>)
    ensures (#[trigger] c.s_arrayType()) is Some ==> c.s_arrayType()->0.rank() < c.rank();
pub broadcast axiom fn axiom_PlainType_mapType(c: PlainTypeContextAll<'_>)
    ensures (#[trigger] c.s_mapType()) is Some ==> c.s_mapType()->0.rank() < c.rank();
pub broadcast axiom fn axiom_PlainType_unionType(c: PlainTypeContextAll<'_>)
    ensures (#[trigger] c.s_unionType()) is Some ==> c.s_unionType()->0.rank() < c.rank();
pub broadcast axiom fn axiom_PlainType_nullableType(c: PlainTypeContextAll<'_>)
    ensures (#[trigger] c.s_nullableType()) is Some ==> c.s_nullableType()->0.rank() < c.rank();
pub broadcast group group_PlainType { axiom_PlainType_arrayType, axiom_PlainType_mapType, axiom_PlainType_unionType, axiom_PlainType_nullableType, }
pub struct NullableTypeContextAll<'a> {
    pub node: Node<'a>,
    pub referenceName: Option<Rc<IdentifierContextAll<'a>>>,
    pub optional: Option<Box<Tok>>,
}
impl<'a> NullableTypeContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_primitiveType(&self) -> Option<Rc<PrimitiveTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn primitiveType(&self) -> (r: Option<Rc<PrimitiveTypeContextAll<'a>>>) ensures r == self.s_primitiveType() { unimplemented!() }
    pub uninterp spec fn s_identifier(&self) -> Option<Rc<IdentifierContextAll<'a>>>;
    #[verifier::external_body] pub fn identifier(&self) -> (r: Option<Rc<IdentifierContextAll<'a>>>) ensures r == self.s_identifier() { unimplemented!() }
    pub uninterp spec fn s_QuestionMark(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn QuestionMark(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_QuestionMark() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_NullableType(c: NullableTypeContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_NullableType(c: NullableTypeContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for NullableTypeContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_NullableType(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_NullableType(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_NullableType_primitiveType(c: NullableTypeContextAll<'_>)
    ensures (#[trigger] c.s_primitiveType()) is Some ==> c.s_primitiveType()->0.rank() < c.rank();
pub broadcast axiom fn axiom_NullableType_identifier(c: NullableTypeContextAll<'_>)
    ensures (#[trigger] c.s_identifier()) is Some ==> c.s_identifier()->0.rank() < c.rank();
pub broadcast group group_NullableType { axiom_NullableType_primitiveType, axiom_NullableType_identifier, }
pub struct PrimitiveTypeContextAll<'a> {
    pub node: Node<'a>,
    pub typeName: Option<Box<Tok>>,
    pub precision: Option<Box<IntTok>>,
    pub scale: Option<Box<IntTok>>,
}
impl<'a> PrimitiveTypeContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Boolean(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Boolean(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Boolean() { unimplemented!() }
    pub uninterp spec fn s_Int(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Int(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Int() { unimplemented!() }
    pub uninterp spec fn s_Long(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Long(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Long() { unimplemented!() }
    pub uninterp spec fn s_Float(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Float(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Float() { unimplemented!() }
    pub uninterp spec fn s_Double(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Double(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Double() { unimplemented!() }
    pub uninterp spec fn s_Bytes(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Bytes(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Bytes() { unimplemented!() }
    pub uninterp spec fn s_String(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn String(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_String() { unimplemented!() }
    pub uninterp spec fn s_Null(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Null(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Null() { unimplemented!() }
    pub uninterp spec fn s_Date(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Date(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Date() { unimplemented!() }
    pub uninterp spec fn s_Time(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Time(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Time() { unimplemented!() }
    pub uninterp spec fn s_Timestamp(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Timestamp(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Timestamp() { unimplemented!() }
    pub uninterp spec fn s_LocalTimestamp(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LocalTimestamp(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LocalTimestamp() { unimplemented!() }
    pub uninterp spec fn s_UUID(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn UUID(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_UUID() { unimplemented!() }
    pub uninterp spec fn s_LParen(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LParen(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LParen() { unimplemented!() }
    pub uninterp spec fn s_RParen(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RParen(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RParen() { unimplemented!() }
    pub uninterp spec fn s_Decimal(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Decimal(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Decimal() { unimplemented!() }
    pub uninterp spec fn s_IntegerLiteral_all(&self) -> Vec<Rc<Term>>;
    #[verifier::external_body] pub fn IntegerLiteral_all(&self) -> (r: Vec<Rc<Term>>) ensures r == self.s_IntegerLiteral_all() { unimplemented!() }
    pub uninterp spec fn s_Comma(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Comma(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Comma() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_PrimitiveType(c: PrimitiveTypeContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_PrimitiveType(c: PrimitiveTypeContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for PrimitiveTypeContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_PrimitiveType(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_PrimitiveType(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub struct ArrayTypeContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> ArrayTypeContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Array(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Array(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Array() { unimplemented!() }
    pub uninterp spec fn s_LT(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LT(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LT() { unimplemented!() }
    pub uninterp spec fn s_GT(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn GT(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_GT() { unimplemented!() }
    pub uninterp spec fn s_fullType(&self) -> Option<Rc<FullTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn fullType(&self) -> (r: Option<Rc<FullTypeContextAll<'a>>>) ensures r == self.s_fullType() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_ArrayType(c: ArrayTypeContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_ArrayType(c: ArrayTypeContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for ArrayTypeContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_ArrayType(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_ArrayType(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_ArrayType_fullType(c: ArrayTypeContextAll<'_>)
    ensures (#[trigger] c.s_fullType()) is Some ==> c.s_fullType()->0.rank() < c.rank();
pub broadcast group group_ArrayType { axiom_ArrayType_fullType, }
pub struct MapTypeContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> MapTypeContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Map(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Map(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Map() { unimplemented!() }
    pub uninterp spec fn s_LT(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LT(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LT() { unimplemented!() }
    pub uninterp spec fn s_GT(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn GT(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_GT() { unimplemented!() }
    pub uninterp spec fn s_fullType(&self) -> Option<Rc<FullTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn fullType(&self) -> (r: Option<Rc<FullTypeContextAll<'a>>>) ensures r == self.s_fullType() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_MapType(c: MapTypeContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_MapType(c: MapTypeContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for MapTypeContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_MapType(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_MapType(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_MapType_fullType(c: MapTypeContextAll<'_>)
    ensures (#[trigger] c.s_fullType()) is Some ==> c.s_fullType()->0.rank() < c.rank();
pub broadcast group group_MapType { axiom_MapType_fullType, }
pub struct UnionTypeContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> UnionTypeContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Union(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Union(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Union() { unimplemented!() }
    pub uninterp spec fn s_LBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LBrace() { unimplemented!() }
    pub uninterp spec fn s_RBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RBrace() { unimplemented!() }
    pub uninterp spec fn s_fullType_all(&self) -> Vec<Rc<FullTypeContextAll<'a>>>;
    #[verifier::external_body] pub fn fullType_all(&self) -> (r: Vec<Rc<FullTypeContextAll<'a>>>) ensures r == self.s_fullType_all() { unimplemented!() }
    pub uninterp spec fn s_Comma_all(&self) -> Vec<Rc<Term>>;
    #[verifier::external_body] pub fn Comma_all(&self) -> (r: Vec<Rc<Term>>) ensures r == self.s_Comma_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_UnionType(c: UnionTypeContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_UnionType(c: UnionTypeContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for UnionTypeContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_UnionType(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_UnionType(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_UnionType_fullType_all(c: UnionTypeContextAll<'_>, i: int)
    ensures 0 <= i < c.s_fullType_all()@.len() ==> (#[trigger] c.s_fullType_all()@[i]).rank() < c.rank();
pub broadcast group group_UnionType { axiom_UnionType_fullType_all, }
pub struct JsonValueContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> JsonValueContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_jsonObject(&self) -> Option<Rc<JsonObjectContextAll<'a>>>;
    #[verifier::external_body] pub fn jsonObject(&self) -> (r: Option<Rc<JsonObjectContextAll<'a>>>) ensures r == self.s_jsonObject() { unimplemented!() }
    pub uninterp spec fn s_jsonArray(&self) -> Option<Rc<JsonArrayContextAll<'a>>>;
    #[verifier::external_body] pub fn jsonArray(&self) -> (r: Option<Rc<JsonArrayContextAll<'a>>>) ensures r == self.s_jsonArray() { unimplemented!() }
    pub uninterp spec fn s_jsonLiteral(&self) -> Option<Rc<JsonLiteralContextAll<'a>>>;
    #[verifier::external_body] pub fn jsonLiteral(&self) -> (r: Option<Rc<JsonLiteralContextAll<'a>>>) ensures r == self.s_jsonLiteral() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_JsonValue(c: JsonValueContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_JsonValue(c: JsonValueContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for JsonValueContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_JsonValue(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_JsonValue(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_JsonValue_jsonObject(c: JsonValueContextAll<'_>)
    ensures (#[trigger] c.s_jsonObject()) is Some ==> c.s_jsonObject()->0.rank() < c.rank();
pub broadcast axiom fn axiom_JsonValue_jsonArray(c: JsonValueContextAll<'_>)
    ensures (#[trigger] c.s_jsonArray()) is Some ==> c.s_jsonArray()->0.rank() < c.rank();
pub broadcast axiom fn axiom_JsonValue_jsonLiteral(c: JsonValueContextAll<'_>)
    ensures (#[trigger] c.s_jsonLiteral()) is Some ==> c.s_jsonLiteral()->0.rank() < c.rank();
pub broadcast group group_JsonValue { axiom_JsonValue_jsonObject, axiom_JsonValue_jsonArray, axiom_JsonValue_jsonLiteral, }
pub struct JsonLiteralContextAll<'a> {
    pub node: Node<'a>,
    pub literal: Option<Box<Tok>>,
}
impl<'a> JsonLiteralContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_StringLiteral(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn StringLiteral(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_StringLiteral() { unimplemented!() }
    pub uninterp spec fn s_IntegerLiteral(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn IntegerLiteral(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_IntegerLiteral() { unimplemented!() }
    pub uninterp spec fn s_FloatingPointLiteral(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn FloatingPointLiteral(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_FloatingPointLiteral() { unimplemented!() }
    pub uninterp spec fn s_BTrue(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn BTrue(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_BTrue() { unimplemented!() }
    pub uninterp spec fn s_BFalse(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn BFalse(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_BFalse() { unimplemented!() }
    pub uninterp spec fn s_Null(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Null(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Null() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_JsonLiteral(c: JsonLiteralContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_JsonLiteral(c: JsonLiteralContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for JsonLiteralContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_JsonLiteral(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_JsonLiteral(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub struct JsonObjectContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> JsonObjectContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_LBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LBrace() { unimplemented!() }
    pub uninterp spec fn s_RBrace(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RBrace(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RBrace() { unimplemented!() }
    pub uninterp spec fn s_jsonPair_all(&self) -> Vec<Rc<JsonPairContextAll<'a>>>;
    #[verifier::external_body] pub fn jsonPair_all(&self) -> (r: Vec<Rc<JsonPairContextAll<'a>>>) ensures r == self.s_jsonPair_all() { unimplemented!() }
    pub uninterp spec fn s_Comma_all(&self) -> Vec<Rc<Term>>;
    #[verifier::external_body] pub fn Comma_all(&self) -> (r: Vec<Rc<Term>>) ensures r == self.s_Comma_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_JsonObject(c: JsonObjectContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_JsonObject(c: JsonObjectContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for JsonObjectContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_JsonObject(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_JsonObject(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_JsonObject_jsonPair_all(c: JsonObjectContextAll<'_>, i: int)
    ensures 0 <= i < c.s_jsonPair_all()@.len() ==> (#[trigger] c.s_jsonPair_all()@[i]).rank() < c.rank();
pub broadcast group group_JsonObject { axiom_JsonObject_jsonPair_all, }
pub struct JsonPairContextAll<'a> {
    pub node: Node<'a>,
    pub name: Option<Box<StrTok>>,
}
impl<'a> JsonPairContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_Colon(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn Colon(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_Colon() { unimplemented!() }
    pub uninterp spec fn s_StringLiteral(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn StringLiteral(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_StringLiteral() { unimplemented!() }
    pub uninterp spec fn s_jsonValue(&self) -> Option<Rc<JsonValueContextAll<'a>>>;
    #[verifier::external_body] pub fn jsonValue(&self) -> (r: Option<Rc<JsonValueContextAll<'a>>>) ensures r == self.s_jsonValue() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_JsonPair(c: JsonPairContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_JsonPair(c: JsonPairContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for JsonPairContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_JsonPair(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_JsonPair(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_JsonPair_jsonValue(c: JsonPairContextAll<'_>)
    ensures (#[trigger] c.s_jsonValue()) is Some ==> c.s_jsonValue()->0.rank() < c.rank();
pub broadcast group group_JsonPair { axiom_JsonPair_jsonValue, }
pub struct JsonArrayContextAll<'a> {
    pub node: Node<'a>,
}
impl<'a> JsonArrayContextAll<'a> {
    pub uninterp spec fn rank(&self) -> nat;
    pub uninterp spec fn s_LBracket(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn LBracket(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_LBracket() { unimplemented!() }
    pub uninterp spec fn s_RBracket(&self) -> Option<Rc<Term>>;
    #[verifier::external_body] pub fn RBracket(&self) -> (r: Option<Rc<Term>>) ensures r == self.s_RBracket() { unimplemented!() }
    pub uninterp spec fn s_jsonValue_all(&self) -> Vec<Rc<JsonValueContextAll<'a>>>;
    #[verifier::external_body] pub fn jsonValue_all(&self) -> (r: Vec<Rc<JsonValueContextAll<'a>>>) ensures r == self.s_jsonValue_all() { unimplemented!() }
    pub uninterp spec fn s_Comma_all(&self) -> Vec<Rc<Term>>;
    #[verifier::external_body] pub fn Comma_all(&self) -> (r: Vec<Rc<Term>>) ensures r == self.s_Comma_all() { unimplemented!() }
    pub uninterp spec fn s_get_text(&self) -> Seq<char>;
    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }
}
pub uninterp spec fn start_of_JsonArray(c: JsonArrayContextAll<'_>) -> Tok;
pub uninterp spec fn stop_of_JsonArray(c: JsonArrayContextAll<'_>) -> Tok;
impl<'a> ParserRuleContext<'a> for JsonArrayContextAll<'a> {
    open spec fn s_start(&self) -> Tok { start_of_JsonArray(*self) }
    open spec fn s_stop(&self) -> Tok { stop_of_JsonArray(*self) }
    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }
    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }
}
pub broadcast axiom fn axiom_JsonArray_jsonValue_all(c: JsonArrayContextAll<'_>, i: int)
    ensures 0 <= i < c.s_jsonValue_all()@.len() ==> (#[trigger] c.s_jsonValue_all()@[i]).rank() < c.rank();
pub broadcast group group_JsonArray { axiom_JsonArray_jsonValue_all, }

// What the children of a file or a protocol body may be.
pub enum VChild<'a> {
    Import(Rc<ImportStatementContextAll<'a>>),
    Named(Rc<NamedSchemaDeclarationContextAll<'a>>),
    Message(Rc<MessageDeclarationContextAll<'a>>),
    Other,
}
impl<'a> Clone for VChild<'a> {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait VDowncast<'a>: Sized { spec fn dc(c: VChild<'a>) -> Option<Rc<Self>>; }
impl<'a> VDowncast<'a> for ImportStatementContextAll<'a> { open spec fn dc(c: VChild<'a>) -> Option<Rc<Self>> { match c { VChild::Import(x) => Some(x), _ => None } } }
impl<'a> VDowncast<'a> for NamedSchemaDeclarationContextAll<'a> { open spec fn dc(c: VChild<'a>) -> Option<Rc<Self>> { match c { VChild::Named(x) => Some(x), _ => None } } }
impl<'a> VDowncast<'a> for MessageDeclarationContextAll<'a> { open spec fn dc(c: VChild<'a>) -> Option<Rc<Self>> { match c { VChild::Message(x) => Some(x), _ => None } } }
impl<'a> VChild<'a> {
    #[verifier::external_body]
    pub fn downcast_rc<T: VDowncast<'a>>(self) -> (r: Result<Rc<T>, VChild<'a>>)
        ensures r is Ok <==> T::dc(self) is Some, r is Ok ==> Some(r->Ok_0) == T::dc(self)
    { unimplemented!() }
}

pub broadcast group group_tree { group_IdlFile, group_ProtocolDeclaration, group_ProtocolDeclarationBody, group_NamespaceDeclaration, group_MainSchemaDeclaration, group_SchemaProperty, group_NamedSchemaDeclaration, group_FixedDeclaration, group_EnumDeclaration, group_EnumSymbol, group_EnumDefault, group_RecordDeclaration, group_RecordBody, group_FieldDeclaration, group_VariableDeclaration, group_MessageDeclaration, group_FormalParameter, group_ResultType, group_FullType, group_PlainType, group_NullableType, group_ArrayType, group_MapType, group_UnionType, group_JsonValue, group_JsonObject, group_JsonPair, group_JsonArray, }
} // verus!
pub mod antlr4rust { pub mod parser_rule_context { pub use crate::lex::ParserRuleContext; } }
