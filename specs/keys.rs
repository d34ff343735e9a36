//! generated by tools/keys.py: pairwise distinctness of the attribute names
use vstd::prelude::*;
verus! {
pub proof fn lemma_keys()
    ensures
        "type"@ != "name"@,
        "type"@ != "namespace"@,
        "type"@ != "doc"@,
        "type"@ != "fields"@,
        "type"@ != "aliases"@,
        "type"@ != "symbols"@,
        "type"@ != "default"@,
        "type"@ != "size"@,
        "type"@ != "items"@,
        "type"@ != "values"@,
        "type"@ != "logicalType"@,
        "type"@ != "precision"@,
        "type"@ != "scale"@,
        "type"@ != "order"@,
        "type"@ != "request"@,
        "type"@ != "response"@,
        "type"@ != "errors"@,
        "type"@ != "one-way"@,
        "type"@ != "protocol"@,
        "type"@ != "types"@,
        "type"@ != "messages"@,
        "name"@ != "namespace"@,
        "name"@ != "doc"@,
        "name"@ != "fields"@,
        "name"@ != "aliases"@,
        "name"@ != "symbols"@,
        "name"@ != "default"@,
        "name"@ != "size"@,
        "name"@ != "items"@,
        "name"@ != "values"@,
        "name"@ != "logicalType"@,
        "name"@ != "precision"@,
        "name"@ != "scale"@,
        "name"@ != "order"@,
        "name"@ != "request"@,
        "name"@ != "response"@,
        "name"@ != "errors"@,
        "name"@ != "one-way"@,
        "name"@ != "protocol"@,
        "name"@ != "types"@,
        "name"@ != "messages"@,
        "namespace"@ != "doc"@,
        "namespace"@ != "fields"@,
        "namespace"@ != "aliases"@,
        "namespace"@ != "symbols"@,
        "namespace"@ != "default"@,
        "namespace"@ != "size"@,
        "namespace"@ != "items"@,
        "namespace"@ != "values"@,
        "namespace"@ != "logicalType"@,
        "namespace"@ != "precision"@,
        "namespace"@ != "scale"@,
        "namespace"@ != "order"@,
        "namespace"@ != "request"@,
        "namespace"@ != "response"@,
        "namespace"@ != "errors"@,
        "namespace"@ != "one-way"@,
        "namespace"@ != "protocol"@,
        "namespace"@ != "types"@,
        "namespace"@ != "messages"@,
        "doc"@ != "fields"@,
        "doc"@ != "aliases"@,
        "doc"@ != "symbols"@,
        "doc"@ != "default"@,
        "doc"@ != "size"@,
        "doc"@ != "items"@,
        "doc"@ != "values"@,
        "doc"@ != "logicalType"@,
        "doc"@ != "precision"@,
        "doc"@ != "scale"@,
        "doc"@ != "order"@,
        "doc"@ != "request"@,
        "doc"@ != "response"@,
        "doc"@ != "errors"@,
        "doc"@ != "one-way"@,
        "doc"@ != "protocol"@,
        "doc"@ != "types"@,
        "doc"@ != "messages"@,
        "fields"@ != "aliases"@,
        "fields"@ != "symbols"@,
        "fields"@ != "default"@,
        "fields"@ != "size"@,
        "fields"@ != "items"@,
        "fields"@ != "values"@,
        "fields"@ != "logicalType"@,
        "fields"@ != "precision"@,
        "fields"@ != "scale"@,
        "fields"@ != "order"@,
        "fields"@ != "request"@,
        "fields"@ != "response"@,
        "fields"@ != "errors"@,
        "fields"@ != "one-way"@,
        "fields"@ != "protocol"@,
        "fields"@ != "types"@,
        "fields"@ != "messages"@,
        "aliases"@ != "symbols"@,
        "aliases"@ != "default"@,
        "aliases"@ != "size"@,
        "aliases"@ != "items"@,
        "aliases"@ != "values"@,
        "aliases"@ != "logicalType"@,
        "aliases"@ != "precision"@,
        "aliases"@ != "scale"@,
        "aliases"@ != "order"@,
        "aliases"@ != "request"@,
        "aliases"@ != "response"@,
        "aliases"@ != "errors"@,
        "aliases"@ != "one-way"@,
        "aliases"@ != "protocol"@,
        "aliases"@ != "types"@,
        "aliases"@ != "messages"@,
        "symbols"@ != "default"@,
        "symbols"@ != "size"@,
        "symbols"@ != "items"@,
        "symbols"@ != "values"@,
        "symbols"@ != "logicalType"@,
        "symbols"@ != "precision"@,
        "symbols"@ != "scale"@,
        "symbols"@ != "order"@,
        "symbols"@ != "request"@,
        "symbols"@ != "response"@,
        "symbols"@ != "errors"@,
        "symbols"@ != "one-way"@,
        "symbols"@ != "protocol"@,
        "symbols"@ != "types"@,
        "symbols"@ != "messages"@,
        "default"@ != "size"@,
        "default"@ != "items"@,
        "default"@ != "values"@,
        "default"@ != "logicalType"@,
        "default"@ != "precision"@,
        "default"@ != "scale"@,
        "default"@ != "order"@,
        "default"@ != "request"@,
        "default"@ != "response"@,
        "default"@ != "errors"@,
        "default"@ != "one-way"@,
        "default"@ != "protocol"@,
        "default"@ != "types"@,
        "default"@ != "messages"@,
        "size"@ != "items"@,
        "size"@ != "values"@,
        "size"@ != "logicalType"@,
        "size"@ != "precision"@,
        "size"@ != "scale"@,
        "size"@ != "order"@,
        "size"@ != "request"@,
        "size"@ != "response"@,
        "size"@ != "errors"@,
        "size"@ != "one-way"@,
        "size"@ != "protocol"@,
        "size"@ != "types"@,
        "size"@ != "messages"@,
        "items"@ != "values"@,
        "items"@ != "logicalType"@,
        "items"@ != "precision"@,
        "items"@ != "scale"@,
        "items"@ != "order"@,
        "items"@ != "request"@,
        "items"@ != "response"@,
        "items"@ != "errors"@,
        "items"@ != "one-way"@,
        "items"@ != "protocol"@,
        "items"@ != "types"@,
        "items"@ != "messages"@,
        "values"@ != "logicalType"@,
        "values"@ != "precision"@,
        "values"@ != "scale"@,
        "values"@ != "order"@,
        "values"@ != "request"@,
        "values"@ != "response"@,
        "values"@ != "errors"@,
        "values"@ != "one-way"@,
        "values"@ != "protocol"@,
        "values"@ != "types"@,
        "values"@ != "messages"@,
        "logicalType"@ != "precision"@,
        "logicalType"@ != "scale"@,
        "logicalType"@ != "order"@,
        "logicalType"@ != "request"@,
        "logicalType"@ != "response"@,
        "logicalType"@ != "errors"@,
        "logicalType"@ != "one-way"@,
        "logicalType"@ != "protocol"@,
        "logicalType"@ != "types"@,
        "logicalType"@ != "messages"@,
        "precision"@ != "scale"@,
        "precision"@ != "order"@,
        "precision"@ != "request"@,
        "precision"@ != "response"@,
        "precision"@ != "errors"@,
        "precision"@ != "one-way"@,
        "precision"@ != "protocol"@,
        "precision"@ != "types"@,
        "precision"@ != "messages"@,
        "scale"@ != "order"@,
        "scale"@ != "request"@,
        "scale"@ != "response"@,
        "scale"@ != "errors"@,
        "scale"@ != "one-way"@,
        "scale"@ != "protocol"@,
        "scale"@ != "types"@,
        "scale"@ != "messages"@,
        "order"@ != "request"@,
        "order"@ != "response"@,
        "order"@ != "errors"@,
        "order"@ != "one-way"@,
        "order"@ != "protocol"@,
        "order"@ != "types"@,
        "order"@ != "messages"@,
        "request"@ != "response"@,
        "request"@ != "errors"@,
        "request"@ != "one-way"@,
        "request"@ != "protocol"@,
        "request"@ != "types"@,
        "request"@ != "messages"@,
        "response"@ != "errors"@,
        "response"@ != "one-way"@,
        "response"@ != "protocol"@,
        "response"@ != "types"@,
        "response"@ != "messages"@,
        "errors"@ != "one-way"@,
        "errors"@ != "protocol"@,
        "errors"@ != "types"@,
        "errors"@ != "messages"@,
        "one-way"@ != "protocol"@,
        "one-way"@ != "types"@,
        "one-way"@ != "messages"@,
        "protocol"@ != "types"@,
        "protocol"@ != "messages"@,
        "types"@ != "messages"@,
{
    reveal_strlit("type"); assert("type"@.len() == 4);
    reveal_strlit("name"); assert("name"@.len() == 4);
    reveal_strlit("namespace"); assert("namespace"@.len() == 9);
    reveal_strlit("doc"); assert("doc"@.len() == 3);
    reveal_strlit("fields"); assert("fields"@.len() == 6);
    reveal_strlit("aliases"); assert("aliases"@.len() == 7);
    reveal_strlit("symbols"); assert("symbols"@.len() == 7);
    reveal_strlit("default"); assert("default"@.len() == 7);
    reveal_strlit("size"); assert("size"@.len() == 4);
    reveal_strlit("items"); assert("items"@.len() == 5);
    reveal_strlit("values"); assert("values"@.len() == 6);
    reveal_strlit("logicalType"); assert("logicalType"@.len() == 11);
    reveal_strlit("precision"); assert("precision"@.len() == 9);
    reveal_strlit("scale"); assert("scale"@.len() == 5);
    reveal_strlit("order"); assert("order"@.len() == 5);
    reveal_strlit("request"); assert("request"@.len() == 7);
    reveal_strlit("response"); assert("response"@.len() == 8);
    reveal_strlit("errors"); assert("errors"@.len() == 6);
    reveal_strlit("one-way"); assert("one-way"@.len() == 7);
    reveal_strlit("protocol"); assert("protocol"@.len() == 8);
    reveal_strlit("types"); assert("types"@.len() == 5);
    reveal_strlit("messages"); assert("messages"@.len() == 8);
    assert("type"@[0] != "name"@[0]);
    assert("type"@[0] != "size"@[0]);
    assert("name"@[0] != "size"@[0]);
    assert("namespace"@[0] != "precision"@[0]);
    assert("fields"@[0] != "values"@[0]);
    assert("fields"@[0] != "errors"@[0]);
    assert("aliases"@[0] != "symbols"@[0]);
    assert("aliases"@[0] != "default"@[0]);
    assert("aliases"@[0] != "request"@[0]);
    assert("aliases"@[0] != "one-way"@[0]);
    assert("symbols"@[0] != "default"@[0]);
    assert("symbols"@[0] != "request"@[0]);
    assert("symbols"@[0] != "one-way"@[0]);
    assert("default"@[0] != "request"@[0]);
    assert("default"@[0] != "one-way"@[0]);
    assert("items"@[0] != "scale"@[0]);
    assert("items"@[0] != "order"@[0]);
    assert("items"@[0] != "types"@[0]);
    assert("values"@[0] != "errors"@[0]);
    assert("scale"@[0] != "order"@[0]);
    assert("scale"@[0] != "types"@[0]);
    assert("order"@[0] != "types"@[0]);
    assert("request"@[0] != "one-way"@[0]);
    assert("response"@[0] != "protocol"@[0]);
    assert("response"@[0] != "messages"@[0]);
    assert("protocol"@[0] != "messages"@[0]);
}
pub proof fn lemma_prim_words()
    ensures
        !"null"@.contains('.'),
        !"boolean"@.contains('.'),
        !"int"@.contains('.'),
        !"long"@.contains('.'),
        !"float"@.contains('.'),
        !"double"@.contains('.'),
        !"bytes"@.contains('.'),
        !"string"@.contains('.'),
{
    reveal_strlit("null");
    reveal_strlit("boolean");
    reveal_strlit("int");
    reveal_strlit("long");
    reveal_strlit("float");
    reveal_strlit("double");
    reveal_strlit("bytes");
    reveal_strlit("string");
}
}
