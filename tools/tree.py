#!/usr/bin/env python3
"""Writes specs/tree.rs: stand-ins for the parse-tree types of the generated
parser (src/generated/idlparser.rs). Accessors are pure functions of the node;
every child has a smaller rank than its parent (the tree is finite)."""
import re, sys, os
src = open((sys.argv[1] if len(sys.argv) > 1 else '/repo') + '/src/generated/idlparser.rs').read()
out = []
w = out.append
w('''// Written by tools/tree.py from src/generated/idlparser.rs: do not edit.
#![allow(unused, non_snake_case)]
use vstd::prelude::*;
use std::rc::Rc;
use crate::stubs::*;
use crate::lex::*;
verus! {
#[verifier::external_body]
pub struct Node<'a> { _p: std::marker::PhantomData<&'a ()> }
''')
INT = {'size', 'precision', 'scale'}
STR = {('JsonPair', 'name'), ('ImportStatement', 'location')}
ctxs = re.findall(r"pub trait (\w+)ContextAttrs<'input>.*?\{(.*?)\n\n\}", src, re.S)
names = [c for c, _ in ctxs]
for c, body in ctxs:
    m = re.search(r"pub struct %sContextExt<'input>\{(.*?)\n\}" % c, src, re.S)
    fields = []
    for f, t in re.findall(r"pub (\w+): *(.*?),\n", m.group(1)):
        if t == "Option<TokenType<'input>>" and f != 'doc':
            k = 'IntTok' if f in INT else 'StrTok' if (c, f) in STR else 'Tok'
            fields.append((f, f'Option<Box<{k}>>'))
        elif t in ("Option<Rc<IdentifierContextAll<'input>>>", "Vec<Rc<IdentifierContextAll<'input>>>"):
            fields.append((f, t.replace("'input", "'a")))
    w(f"pub struct {c}ContextAll<'a> {{")
    w("    pub node: Node<'a>,")
    for f, t in fields: w(f"    pub {f}: {t},")
    w("}")
    w(f"impl<'a> {c}ContextAll<'a> {{")
    w("    pub uninterp spec fn rank(&self) -> nat;")
    axioms = []
    for f, ret in re.findall(r"fn (\w+)\(&self\) *-> +(.*?) +where", body):
        ret = ret.replace("'input", "'a")
        if 'TerminalNode' in ret:
            ret = 'Option<Rc<Term>>' if ret.startswith('Option') else 'Vec<Rc<Term>>'
        else:
            child = re.search(r"(\w+)ContextAll", ret).group(1)
            axioms.append((f, child, ret))
        w(f"    pub uninterp spec fn s_{f}(&self) -> {ret};")
        w(f"    #[verifier::external_body] pub fn {f}(&self) -> (r: {ret}) ensures r == self.s_{f}() {{ unimplemented!() }}")
    w("    pub uninterp spec fn s_get_text(&self) -> Seq<char>;")
    w("    #[verifier::external_body] pub fn get_text(&self) -> (r: String) ensures r@ == self.s_get_text() { unimplemented!() }")
    if c in ('IdlFile', 'ProtocolDeclarationBody'):
        w("    pub uninterp spec fn s_children(&self) -> Seq<VChild<'a>>;")
        w("    #[verifier::external_body] pub fn get_children(&self) -> (r: Vec<VChild<'a>>) ensures r@ == self.s_children() { unimplemented!() }")
    w("}")
    w(f"pub uninterp spec fn start_of_{c}(c: {c}ContextAll<'_>) -> Tok;")
    w(f"pub uninterp spec fn stop_of_{c}(c: {c}ContextAll<'_>) -> Tok;")
    w(f"impl<'a> ParserRuleContext<'a> for {c}ContextAll<'a> {{")
    w(f"    open spec fn s_start(&self) -> Tok {{ start_of_{c}(*self) }}")
    w(f"    open spec fn s_stop(&self) -> Tok {{ stop_of_{c}(*self) }}")
    w("    #[verifier::external_body] fn start(&self) -> (r: &Tok) { unimplemented!() }")
    w("    #[verifier::external_body] fn stop(&self) -> (r: &Tok) { unimplemented!() }")
    w("}")
    for f, child, ret in axioms:
        if ret.startswith('Option'):
            w(f"pub broadcast axiom fn axiom_{c}_{f}(c: {c}ContextAll<'_>)\n    ensures (#[trigger] c.s_{f}()) is Some ==> c.s_{f}()->0.rank() < c.rank();")
        else:
            w(f"pub broadcast axiom fn axiom_{c}_{f}(c: {c}ContextAll<'_>, i: int)\n    ensures 0 <= i < c.s_{f}()@.len() ==> (#[trigger] c.s_{f}()@[i]).rank() < c.rank();")
    if axioms:
        w(f"pub broadcast group group_{c} {{ {' '.join(f'axiom_{c}_{f},' for f, _, _ in axioms)} }}")
w('''
// What the children of a file or a protocol body may be.
pub enum VChild<'a> {
    Import(Rc<ImportStatementContextAll<'a>>),
    Named(Rc<NamedSchemaDeclarationContextAll<'a>>),
    Message(Rc<MessageDeclarationContextAll<'a>>),
    Other,
}
impl<'a> Clone for VChild<'a> {
    #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub trait VDowncast<'a>: Sized { spec fn dc(c: VChild<'a>) -> Option<Rc<Self>>; }
impl<'a> VDowncast<'a> for ImportStatementContextAll<'a> { open spec fn dc(c: VChild<'a>) -> Option<Rc<Self>> { match c { VChild::Import(x) => Some(x), _ => None } } }
impl<'a> VDowncast<'a> for NamedSchemaDeclarationContextAll<'a> { open spec fn dc(c: VChild<'a>) -> Option<Rc<Self>> { match c { VChild::Named(x) => Some(x), _ => None } } }
impl<'a> VDowncast<'a> for MessageDeclarationContextAll<'a> { open spec fn dc(c: VChild<'a>) -> Option<Rc<Self>> { match c { VChild::Message(x) => Some(x), _ => None } } }
impl<'a> VChild<'a> {
    #[verifier::external_body]
    pub fn downcast_rc<T: VDowncast<'a>>(self) -> (r: Result<Rc<T>, VChild<'a>>)
        ensures r is Ok <==> T::dc(self) is Some, r is Ok ==> Some(r->Ok_0) == T::dc(self)
    { unimplemented!() }
}
''')
groups = [c for c in names if f'pub broadcast group group_{c} ' in '\n'.join(out)]
w(f"pub broadcast group group_tree {{ {' '.join(f'group_{c},' for c in groups)} }}")
w('} // verus!')
w('''pub mod antlr4rust { pub mod parser_rule_context { pub use crate::lex::ParserRuleContext; } }''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '../specs/tree.rs'), 'w').write('\n'.join(out) + '\n')
