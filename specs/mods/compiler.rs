//@module compiler src/compiler.rs
use crate::schema::*;
use crate::json::*;
use crate::protocol::*;
use crate::resolve::*;
use crate::import::*;
use crate::suggest::*;
use crate::error::*;
use crate::reader::{DeclItem, IdlFile, ImportKind, ImportEntry, Warning, parsed, Parsed, parse_idl_named, items_ok, item_ok};
broadcast use {group_string, group_coll, group_json, axiom_jmap_decreases, axiom_vec_ext, axiom_mk_vec, axiom_indexmap_order, axiom_fs_paths};

//@type IdlCompiler
//@type CompileOutput
//@type IdlOutput
//@type Idl
//@type NamedSchema
//@type SchemataOutput
//@type Idl2Schemata
//@type CompileContext

// ---------------------------------------------------------------------------
// What compiling does, as a function of the text, its place and the files:
// items in order, each import where it stands, each file once.
// ---------------------------------------------------------------------------
pub struct C {
    pub reg: RegV,
    pub seen: Set<Seq<char>>,
    pub msgs: Map<Seq<char>, Message>,
    pub warn: Seq<Report>,
    pub spans: Seq<(Seq<char>, Option<SpanWithSource>)>,
    pub items: Seq<DeclItem>,
}
pub open spec fn spans_of(v: Seq<(String, Option<SpanWithSource>)>) -> Seq<(Seq<char>, Option<SpanWithSource>)> {
    v.map_values(|p: (String, Option<SpanWithSource>)| (p.0@, p.1))
}
impl CompileContext {
    pub open spec fn cv(self) -> C {
        C {
            reg: regv(self.registry), seen: self.import_ctx.read_locations@, msgs: self.messages@, warn: self.warnings@,
            spans: spans_of(self.json_import_spans@), items: self.imported_items@,
        }
    }
}
pub open spec fn room(seen: Set<Seq<char>>) -> nat { fs_paths().difference(seen).len() }

// The messages of an imported JSON protocol.
pub open spec fn msg_fl(m: Message) -> Message {
    Message {
        doc: m.doc, properties: m.properties, request: mk_vec(fl_fields(m.request@, m.request@.len())), response: fl(m.response),
        errors: match m.errors { Some(e) => Some(mk_vec(fl_all(e@, e@.len()))), None => None }, one_way: m.one_way,
    }
}
pub open spec fn fl_msgs(o: JMap<String, Value>, n: nat, ns: Option<Seq<char>>) -> Map<Seq<char>, Message>
    decreases n
{
    if n == 0 || n > o.korder().len() { Map::empty() }
    else { fl_msgs(o, (n - 1) as nat, ns).insert(o.korder()[n - 1], msg_fl(nth_msg(o, n - 1, ns)->0)) }
}
pub open spec fn file_msgs(j: Value) -> Map<Seq<char>, Message> {
    match proto_msgs(j) { Some(o) => fl_msgs(o, o.korder().len(), proto_ns(j)), None => Map::empty() }
}

// The warnings of an imported file name the file.
pub open spec fn import_name(p: Seq<char>, path: Seq<char>) -> Seq<char> {
    match path_file_name(p) { Some(n) => match os_str(n) { Some(s) => s, None => path }, None => path }
}
pub open spec fn own_reports(ws: Seq<Warning>) -> Seq<Report> { ws.map_values(|w: Warning| w.vi()) }
pub open spec fn wrapped(ws: Seq<Warning>, n: nat, name: Seq<char>) -> Seq<Report>
    decreases n
{
    if n == 0 || n > ws.len() { seq![] } else { wrapped(ws, (n - 1) as nat, name).push(report_wrap(ws[n - 1].vi(), name)) }
}
pub open spec fn dir_of(p: Seq<char>) -> Seq<char> { match path_parent(p) { Some(d) => d, None => "."@ } }
pub open spec fn idl_msgs(f: IdlFile) -> Map<Seq<char>, Message> { match f { IdlFile::Protocol(p) => p.messages@, _ => Map::empty() } }
pub open spec fn add_items(c: C, items: Seq<DeclItem>) -> C { C { items: c.items + items, ..c } }
pub open spec fn can_add(r: RegV, s: AvroSchema) -> bool {
    valid_name((schema_name(s)->0).0) && valid_namespace((schema_name(s)->0).1) && !r.m.dom().contains(schema_full(s))
}
pub open spec fn added(r: RegV, s: AvroSchema) -> RegV { RegV { m: r.m.insert(schema_full(s), s), o: r.o.push(schema_full(s)) } }

pub open spec fn item_run(fuel: nat, item: DeclItem, dir: Seq<char>, dirs: Seq<PathBuf>, c: C) -> (bool, C)
    decreases fuel, 1nat, 0nat
{
    match item {
        DeclItem::Type(s, span, fs) =>
            if can_add(c.reg, *s) {
                let r = added(c.reg, *s);
                (rec_bad(*s, r.m).len() == 0, C { reg: r, ..c })
            } else { (false, c) },
        DeclItem::Import(e) => import_run(fuel, e, dir, dirs, c),
    }
}
pub open spec fn import_run(fuel: nat, e: ImportEntry, dir: Seq<char>, dirs: Seq<PathBuf>, c: C) -> (bool, C)
    decreases fuel, 0nat, 0nat
{
    match place(e.path@, dir, dirs, dirs.len()) {
        None => (false, c),
        Some(q) => match path_canon(q) {
            None => (false, c),
            Some(p) =>
                if c.seen.contains(p) { (true, c) }
                else {
                    let c1 = C { seen: c.seen.insert(p), ..c };
                    match e.kind {
                        ImportKind::Protocol => match file_json(p) {
                            Some(j) => match imp_proto(c1.reg, j) {
                                Some(r) => (true, C { reg: r, msgs: c1.msgs.union_prefer_right(file_msgs(j)), spans: c1.spans.push((path_disp(p), e.span)), ..c1 }),
                                None => (false, c1),
                            },
                            None => (false, c1),
                        },
                        ImportKind::Schema => match file_json(p) {
                            Some(j) => match imp_schema(c1.reg, j) {
                                Some(r) => (true, C { reg: r, spans: c1.spans.push((path_disp(p), e.span)), ..c1 }),
                                None => (false, c1),
                            },
                            None => (false, c1),
                        },
                        ImportKind::Idl => match file_text(p) {
                            Some(t) => match parsed(t, path_disp(p)) {
                                Some(f) => {
                                    let c2 = C {
                                        warn: c1.warn + wrapped(f.warnings, f.warnings.len(), import_name(p, e.path@)),
                                        msgs: c1.msgs.union_prefer_right(idl_msgs(f.file)),
                                        ..c1
                                    };
                                    if fuel == 0 { (false, c2) }
                                    else {
                                        let (ok, c3) = items_run((fuel - 1) as nat, f.items, f.items.len(), dir_of(p), dirs, c2);
                                        if ok { (true, add_items(c3, f.items)) } else { (false, c3) }
                                    }
                                },
                                None => (false, c1),
                            },
                            None => (false, c1),
                        },
                    }
                },
        },
    }
}
pub open spec fn items_run(fuel: nat, items: Seq<DeclItem>, n: nat, dir: Seq<char>, dirs: Seq<PathBuf>, c: C) -> (bool, C)
    decreases fuel, 2nat, n
{
    if n == 0 || n > items.len() { (true, c) }
    else {
        let (ok, c1) = items_run(fuel, items, (n - 1) as nat, dir, dirs, c);
        if ok { item_run(fuel, items[n - 1], dir, dirs, c1) } else { (false, c1) }
    }
}
proof fn lemma_items_fail(fuel: nat, items: Seq<DeclItem>, n: nat, k: nat, dir: Seq<char>, dirs: Seq<PathBuf>, c: C)
    requires n <= k <= items.len(), !items_run(fuel, items, n, dir, dirs, c).0,
    ensures items_run(fuel, items, k, dir, dirs, c) == items_run(fuel, items, n, dir, dirs, c),
    decreases k
{
    if n < k { lemma_items_fail(fuel, items, n, (k - 1) as nat, dir, dirs, c); }
}
// A run and its outcome: on success the state, on failure the warnings so far.
pub open spec fn outcome<T>(run: (bool, C), r: MResult<T>, ctx: CompileContext) -> bool {
    &&& r is Ok <==> run.0
    &&& r is Ok ==> ctx.cv() == run.1
    &&& r is Err ==> ctx.warnings@ == run.1.warn
}

//@fn CompileContext::new
//@spec
    ensures
        r.cv().reg.m == Map::<Seq<char>, AvroSchema>::empty(), r.cv().reg.o == Seq::<Seq<char>>::empty(),
        r.cv().seen == Set::<Seq<char>>::empty(), r.cv().msgs == Map::<Seq<char>, Message>::empty(), r.cv().warn == Seq::<Report>::empty(),
        r.cv().spans == Seq::<(Seq<char>, Option<SpanWithSource>)>::empty(), r.cv().items == Seq::<DeclItem>::empty(),
        r.import_ctx.import_dirs@ == import_dirs@,
//@end

//@fn validate_field_defaults
//@opt opaque_format
//@opt rename into_iter
//@opt itersrc error_iter
//@closure 0 fn(&str) -> Option<AvroSchema>
    ensures o == (if registry.schemas@.dom().contains(full_name@) { Some(registry.schemas@[full_name@]) } else { None::<AvroSchema> }),
//@spec
    requires wf_env(registry.schemas@), flat(*schema),
    ensures r is Ok <==> rec_bad(*schema, registry.schemas@).len() == 0,
//@before let errors
    proof { assert(resolves(__f0, registry.schemas@)); lemma_env_of(__f0, registry.schemas@); }
//@after let errors
    proof { assert(firsts(errors@).len() == errors@.len()); }
//@end

//@fn wrap_import_error
//@opt opaque_format
//@end

proof fn lemma_fl_msgs(o: JMap<String, Value>, n: nat, ns: Option<Seq<char>>)
    requires n <= o.korder().len(),
    ensures
        forall|k: Seq<char>| #[trigger] fl_msgs(o, n, ns).dom().contains(k) ==> exists|i: int| 0 <= i < n && #[trigger] o.korder()[i] == k && fl_msgs(o, n, ns)[k] == msg_fl(nth_msg(o, i, ns)->0),
        forall|i: int| 0 <= i < n ==> fl_msgs(o, n, ns).dom().contains(#[trigger] o.korder()[i]),
    decreases n
{
    if n > 0 {
        lemma_fl_msgs(o, (n - 1) as nat, ns);
        let a = fl_msgs(o, (n - 1) as nat, ns);
        assert forall|k: Seq<char>| #[trigger] fl_msgs(o, n, ns).dom().contains(k) implies exists|i: int| 0 <= i < n && #[trigger] o.korder()[i] == k && fl_msgs(o, n, ns)[k] == msg_fl(nth_msg(o, i, ns)->0) by {
            if k == o.korder()[n - 1] { assert(o.korder()[n - 1] == k); }
            else {
                assert(a.dom().contains(k));
                let i = choose|i: int| 0 <= i < n - 1 && #[trigger] o.korder()[i] == k && a[k] == msg_fl(nth_msg(o, i, ns)->0);
                assert(o.korder()[i] == k);
            }
        }
    }
}
proof fn lemma_msg_fl(a: Message, b: Message)
    requires msg_flattened(a, b),
    ensures b == msg_fl(a),
{
    lemma_fl_len(a.request@, a.request@.len());
    assert(b.request@ =~= fl_fields(a.request@, a.request@.len()));
    match a.errors {
        Some(e) => {
            lemma_fl_all_len(e@, e@.len());
            assert(b.errors->0@ =~= fl_all(e@, e@.len()));
        }
        None => {}
    }
}
proof fn lemma_fl_len(fs: Seq<Field>, n: nat)
    requires n <= fs.len(),
    ensures fl_fields(fs, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] fl_fields(fs, n)[i] == fl_field(fs[i]),
    decreases n
{
    if n > 0 { lemma_fl_len(fs, (n - 1) as nat); }
}
proof fn lemma_fl_all_len(ts: Seq<AvroSchema>, n: nat)
    requires n <= ts.len(),
    ensures fl_all(ts, n).len() == n, forall|i: int| 0 <= i < n ==> #[trigger] fl_all(ts, n)[i] == fl(ts[i]),
    decreases n
{
    if n > 0 { lemma_fl_all_len(ts, (n - 1) as nat); }
}
proof fn lemma_msgs_read(ms: Map<Seq<char>, Message>, o: JMap<String, Value>, ns: Option<Seq<char>>)
    requires msgs_read(ms, o, o.korder().len() as int, ns),
    ensures ms == fl_msgs(o, o.korder().len(), ns),
{
    let n = o.korder().len();
    let f = fl_msgs(o, n, ns);
    lemma_fl_msgs(o, n, ns);
    assert forall|k: Seq<char>| (#[trigger] ms.dom().contains(k) <==> f.dom().contains(k)) && (ms.dom().contains(k) ==> ms[k] == f[k]) by {
        if ms.dom().contains(k) {
            let i = choose|i: int| 0 <= i < n && #[trigger] o.korder()[i] == k;
            assert(f.dom().contains(o.korder()[i]));
        }
        if f.dom().contains(k) {
            let i = choose|i: int| 0 <= i < n && #[trigger] o.korder()[i] == k && f[k] == msg_fl(nth_msg(o, i, ns)->0);
            assert(ms.dom().contains(o.korder()[i]));
            lemma_msg_fl(nth_msg(o, i, ns)->0, ms[o.korder()[i]]);
        }
    }
    assert(ms =~= f);
}

// Registered types stay named, flat and under their own name.
proof fn lemma_env_add(r: RegV, s: AvroSchema)
    requires wf_env(r.m), is_named(s), flat(s),
    ensures wf_env(added(r, s).m), wf_env(r.m.insert(schema_full(s), s)),
{
}
proof fn lemma_env_all(r: RegV, ts: Seq<AvroSchema>, n: nat)
    requires wf_env(r.m), n <= ts.len(), forall|i: int| 0 <= i < ts.len() ==> is_named(#[trigger] ts[i]) && flat(ts[i]),
    ensures reg_all(r, ts, n) is Some ==> wf_env(reg_all(r, ts, n)->0.m),
    decreases n
{
    if n > 0 { lemma_env_all(r, ts, (n - 1) as nat); }
}
proof fn lemma_env_types(r: RegV, js: Seq<Value>, n: nat, ns: Option<Seq<char>>)
    requires wf_env(r.m), n <= js.len(),
    ensures imp_types(r, js, n, ns) is Some ==> wf_env(imp_types(r, js, n, ns)->0.m),
    decreases n
{
    if n > 0 {
        lemma_env_types(r, js, (n - 1) as nat, ns);
        match (imp_types(r, js, (n - 1) as nat, ns), rd(js[n - 1], ns)) {
            (Some(q), Some(s)) => { lemma_fl_bare(s); lemma_env_all(q, defs(s), defs(s).len()); }
            _ => {}
        }
    }
}
proof fn lemma_msg_defs(m: Message)
    ensures forall|i: int| 0 <= i < msg_defs(m).len() ==> is_named(#[trigger] msg_defs(m)[i]) && flat(msg_defs(m)[i]),
{
    lemma_fl_bare_fields(m.request@, m.request@.len());
    lemma_fl_bare(m.response);
    lemma_fl_bare_all(err_list(m), err_list(m).len());
    let a = defs_fields(m.request@, m.request@.len());
    let b = defs(m.response);
    let c = defs_all(err_list(m), err_list(m).len());
    assert forall|i: int| 0 <= i < msg_defs(m).len() implies is_named(#[trigger] msg_defs(m)[i]) && flat(msg_defs(m)[i]) by {
        if i < a.len() { assert(msg_defs(m)[i] == a[i]); }
        else if i < a.len() + b.len() { assert(msg_defs(m)[i] == b[i - a.len()]); }
        else { assert(msg_defs(m)[i] == c[i - a.len() - b.len()]); }
    }
}
proof fn lemma_env_msgs(r: RegV, o: JMap<String, Value>, n: nat, ns: Option<Seq<char>>)
    requires wf_env(r.m), n <= o.korder().len(),
    ensures imp_msgs(r, o, n, ns) is Some ==> wf_env(imp_msgs(r, o, n, ns)->0.m),
    decreases n
{
    if n > 0 {
        lemma_env_msgs(r, o, (n - 1) as nat, ns);
        match (imp_msgs(r, o, (n - 1) as nat, ns), nth_msg(o, n - 1, ns)) {
            (Some(q), Some(m)) => { lemma_msg_defs(m); lemma_env_all(q, msg_defs(m), msg_defs(m).len()); }
            _ => {}
        }
    }
}
pub proof fn lemma_env_import(r: RegV, j: Value)
    requires wf_env(r.m),
    ensures
        imp_schema(r, j) is Some ==> wf_env(imp_schema(r, j)->0.m),
        imp_proto(r, j) is Some ==> wf_env(imp_proto(r, j)->0.m),
{
    match rd(j, None) { Some(s) => { lemma_fl_bare(s); lemma_env_all(r, defs(s), defs(s).len()); } None => {} }
    lemma_env_types(r, proto_types(j), proto_types(j).len(), proto_ns(j));
    match imp_types(r, proto_types(j), proto_types(j).len(), proto_ns(j)) {
        Some(q) => match proto_msgs(j) { Some(o) => { lemma_env_msgs(q, o, o.korder().len(), proto_ns(j)); } None => {} },
        None => {}
    }
}
pub proof fn lemma_room(seen: Set<Seq<char>>, p: Seq<char>)
    requires fs_paths().contains(p), !seen.contains(p),
    ensures room(seen.insert(p)) < room(seen),
{
    assert(fs_paths().difference(seen.insert(p)) =~= fs_paths().difference(seen).remove(p));
    assert(fs_paths().difference(seen).contains(p));
}
pub proof fn lemma_room_sub(a: Set<Seq<char>>, b: Set<Seq<char>>)
    requires a.subset_of(b),
    ensures room(b) <= room(a),
{
    assert(fs_paths().difference(b).subset_of(fs_paths().difference(a)));
    vstd::set_lib::lemma_len_subset(fs_paths().difference(b), fs_paths().difference(a));
}

//@fn resolve_single_import
//@opt opaque_format
//@spec
    requires wf_env(old(ctx).registry.schemas@), items_ok(old(ctx).imported_items@),
    ensures
        forall|fuel: nat| fuel >= room(old(ctx).cv().seen) ==>
            outcome(#[trigger] import_run(fuel, *import, current_dir@, old(ctx).import_ctx.import_dirs@, old(ctx).cv()), r, *final(ctx)),
        r is Ok ==> wf_env(final(ctx).registry.schemas@) && old(ctx).cv().seen.subset_of(final(ctx).cv().seen)
            && final(ctx).import_ctx.import_dirs == old(ctx).import_ctx.import_dirs && items_ok(final(ctx).imported_items@),
    decreases room(old(ctx).cv().seen), 0int,
//@start
    let ghost c0 = ctx.cv();
    let ghost dirs = ctx.import_ctx.import_dirs@;
    proof { if ctx.import_ctx.import_dirs@.len() >= 0 {} }
//@before if ctx.import_ctx.mark_imported
    let ghost p = resolved_path@;
    proof {
        lemma_room_sub(c0.seen, c0.seen.insert(p));
        if c0.seen.contains(p) { assert(c0.seen.insert(p) =~= c0.seen); } else { lemma_room(c0.seen, p); }
    }
//@before match import.kind
    let ghost c1 = C { seen: c0.seen.insert(p), ..c0 };
    proof {
        assert(ctx.cv() == c1);
        match file_json(p) { Some(j) => { lemma_env_import(c0.reg, j); } None => {} }
    }
//@after let imported_messages
    proof {
        let j = file_json(p)->0;
        match proto_msgs(j) { Some(o) => { lemma_msgs_read(imported_messages@, o, proto_ns(j)); } None => {} }
        assert(imported_messages@ == file_msgs(j));
    }
//@loop 0
    invariant
        it0.seq() == import_warnings@,
        ctx.cv() == (C { warn: c1.warn + wrapped(import_warnings@, it0.index() as nat, import_file_name@), ..c1 }),
        ctx.import_ctx.import_dirs@ == dirs, ctx.import_ctx.import_dirs == old(ctx).import_ctx.import_dirs,
        ctx.registry.schemas@ == old(ctx).registry.schemas@,
//@loop-start 0
    let ghost wi = it0.index() as nat;
    let ghost cw = ctx.cv();
//@loop-end 0
    proof {
        assert(w == import_warnings@[wi as int]);
        assert(ctx.cv().warn =~= c1.warn + wrapped(import_warnings@, wi + 1, import_file_name@));
    }
//@loop-after 0
    let ghost cb = ctx.cv();
//@before process_decl_items(
    let ghost c2 = ctx.cv();
    let ghost f = parsed(imported_source@, imported_name@)->0;
    proof {
        assert(cb == (C { warn: c1.warn + wrapped(f.warnings, f.warnings.len(), import_name(p, import.path@)), ..c1 }));
        if f.file is Protocol { assert(c2.msgs =~= c1.msgs.union_prefer_right(idl_msgs(f.file))); }
        else { assert(c1.msgs =~= c1.msgs.union_prefer_right(idl_msgs(f.file))); }
        assert(c2 == (C { warn: c1.warn + wrapped(f.warnings, f.warnings.len(), import_name(p, import.path@)), msgs: c1.msgs.union_prefer_right(idl_msgs(f.file)), ..c1 }));
        assert forall|fuel: nat| fuel >= room(c0.seen) implies
            #[trigger] import_run(fuel, *import, current_dir@, dirs, c0) == ({
                let (ok, c3) = items_run((fuel - 1) as nat, f.items, f.items.len(), dir_of(p), dirs, c2);
                if ok { (true, add_items(c3, f.items)) } else { (false, c3) }
            }) by { assert(room(c1.seen) < room(c0.seen)); }
    }
//@after process_decl_items(
    let ghost c3 = ctx.cv();
    proof {
        assert forall|fuel: nat| fuel >= room(c0.seen) implies #[trigger] import_run(fuel, *import, current_dir@, dirs, c0) == (true, add_items(c3, f.items)) by {
            assert(room(c1.seen) < room(c0.seen));
            let k = (fuel - 1) as nat;
            assert(k >= room(c2.seen));
            assert(items_run(k, f.items, f.items.len(), dir_of(p), dirs, c2) == (true, c3));
        }
    }
//@after match import.kind
    proof {
        if import.kind is Idl {}
        else { assert(ctx.cv().spans =~= c1.spans.push((path_disp(p), import.span))); }
    }
//@end

//@fn process_decl_items
//@opt opaque_format
//@opt iter decl_items
//@replace schema.as_ref().clone() => (**schema).clone()
//@spec
    requires wf_env(old(ctx).registry.schemas@), items_ok(decl_items@), items_ok(old(ctx).imported_items@),
    ensures
        forall|fuel: nat| fuel >= room(old(ctx).cv().seen) ==>
            outcome(#[trigger] items_run(fuel, decl_items@, decl_items@.len(), current_dir@, old(ctx).import_ctx.import_dirs@, old(ctx).cv()), r, *final(ctx)),
        r is Ok ==> wf_env(final(ctx).registry.schemas@) && old(ctx).cv().seen.subset_of(final(ctx).cv().seen)
            && final(ctx).import_ctx.import_dirs == old(ctx).import_ctx.import_dirs && items_ok(final(ctx).imported_items@),
    decreases room(old(ctx).cv().seen), 1int,
//@start
    let ghost c0 = ctx.cv();
    let ghost dirs = ctx.import_ctx.import_dirs@;
//@loop 0
    invariant
        it0.seq().len() == decl_items@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == decl_items@[i],
        c0 == old(ctx).cv(), dirs == old(ctx).import_ctx.import_dirs@, items_ok(decl_items@),
        wf_env(ctx.registry.schemas@), c0.seen.subset_of(ctx.cv().seen), items_ok(ctx.imported_items@),
        ctx.import_ctx.import_dirs == old(ctx).import_ctx.import_dirs,
        forall|fuel: nat| fuel >= room(c0.seen) ==> #[trigger] items_run(fuel, decl_items@, it0.index() as nat, current_dir@, dirs, c0) == (true, ctx.cv()),
//@loop-start 0
    let ghost c1 = ctx.cv();
    proof { lemma_room_sub(c0.seen, ctx.cv().seen); assert(*item == decl_items@[it0.index() as int]); assert(item_ok(*item));
        let ix = it0.index() as nat;
        assert(ix < decl_items@.len());
        assert forall|fuel: nat| fuel >= room(c0.seen) && !item_run(fuel, *item, current_dir@, dirs, c1).0 implies
            #[trigger] items_run(fuel, decl_items@, decl_items@.len(), current_dir@, dirs, c0) == item_run(fuel, *item, current_dir@, dirs, c1) by {
            assert(items_run(fuel, decl_items@, ix, current_dir@, dirs, c0) == (true, c1));
            assert(items_run(fuel, decl_items@, ix + 1, current_dir@, dirs, c0) == item_run(fuel, *item, current_dir@, dirs, c1));
            lemma_items_fail(fuel, decl_items@, ix + 1, decl_items@.len(), current_dir@, dirs, c0);
        }
        if let DeclItem::Import(e) = item {
            assert forall|fuel: nat| fuel >= room(c0.seen) && !import_run(fuel, *e, current_dir@, dirs, c1).0 implies
                #[trigger] items_run(fuel, decl_items@, decl_items@.len(), current_dir@, dirs, c0) == import_run(fuel, *e, current_dir@, dirs, c1) by {
                assert(item_run(fuel, *item, current_dir@, dirs, c1) == import_run(fuel, *e, current_dir@, dirs, c1));
            }
        }
    }
//@loop-end 0
    proof {
        let ix = it0.index() as nat;
        assert forall|fuel: nat| fuel >= room(c0.seen) implies #[trigger] items_run(fuel, decl_items@, ix + 1, current_dir@, dirs, c0) == (true, ctx.cv()) by {
            assert(items_run(fuel, decl_items@, ix, current_dir@, dirs, c0) == (true, c1));
            assert(items_run(fuel, decl_items@, ix + 1, current_dir@, dirs, c0) == item_run(fuel, *item, current_dir@, dirs, c1));
            if let DeclItem::Import(e) = item { assert(item_run(fuel, *item, current_dir@, dirs, c1) == import_run(fuel, *e, current_dir@, dirs, c1)); }
        }
    }
//@before validate_field_defaults(
    proof {
        assert(ctx.cv() == (C { reg: added(c1.reg, **schema), ..c1 }));
        lemma_env_add(c1.reg, **schema);
    }
//@end


// ---------------------------------------------------------------------------
// A whole file: its own warnings, its items, then every default once more now
// that all types are known, and the protocol's parts put together.
// ---------------------------------------------------------------------------
pub open spec fn opv(p: Option<PathBuf>) -> Option<Seq<char>> { match p { Some(q) => Some(q@), None => None } }
pub open spec fn read_start(c: C, f: Parsed, inp: Option<Seq<char>>) -> C {
    C { warn: c.warn + own_reports(f.warnings), seen: match inp { Some(p) => c.seen.insert(p), None => c.seen }, ..c }
}
pub open spec fn defaults_ok(items: Seq<DeclItem>, m: Map<Seq<char>, AvroSchema>) -> bool {
    forall|i: int| 0 <= i < items.len() && #[trigger] items[i] is Type ==> rec_bad(*items[i]->Type_0, m).len() == 0
}
pub open spec fn front(fuel: nat, t: Seq<char>, nm: Seq<char>, dir: Seq<char>, inp: Option<Seq<char>>, dirs: Seq<PathBuf>, c: C) -> (bool, C) {
    match parsed(t, nm) {
        None => (false, c),
        Some(f) => {
            let (ok, c2) = items_run(fuel, f.items, f.items.len(), dir, dirs, read_start(c, f, inp));
            (ok && defaults_ok(f.items, c2.reg.m) && defaults_ok(c2.items, c2.reg.m), c2)
        },
    }
}
pub open spec fn reg_seq(r: RegV) -> Seq<AvroSchema> { Seq::new(r.o.len(), |i: int| r.m[r.o[i]]) }
pub open spec fn file_rel(out: IdlFile, f: IdlFile, c: C) -> bool {
    match f {
        IdlFile::Protocol(p) => {
            &&& out is Protocol
            &&& (Protocol { types: p.types, messages: p.messages, ..out->Protocol_0 }) == p
            &&& out->Protocol_0.types@ == reg_seq(c.reg)
            &&& out->Protocol_0.messages@ == c.msgs.union_prefer_right(p.messages@)
        },
        _ => out == f,
    }
}

//@fn parse_and_resolve
//@opt opaque_format
//@spec
    requires wf_env(old(ctx).registry.schemas@), items_ok(old(ctx).imported_items@),
    ensures
        forall|fuel: nat| fuel >= room(old(ctx).cv().seen) ==> {
            let run = #[trigger] front(fuel, source@, source_name@, input_dir@, opv(input_path), old(ctx).import_ctx.import_dirs@, old(ctx).cv());
            &&& r is Ok <==> run.0
            &&& final(ctx).warnings@ == run.1.warn
            &&& r is Ok ==> regv((r->Ok_0).1) == run.1.reg && spans_of(final(ctx).json_import_spans@) == run.1.spans
                && file_rel((r->Ok_0).0, parsed(source@, source_name@)->0.file, run.1)
        },
        r is Ok ==> wf_env((r->Ok_0).1.schemas@),
//@start
    let ghost c0 = ctx.cv();
    let ghost dirs = ctx.import_ctx.import_dirs@;
    let ghost inp = opv(input_path);
//@after let (idl_file
    let ghost f = parsed(source@, source_name@)->0;
    let ghost c1 = read_start(c0, f, inp);
//@loop 0
    invariant
        it0.seq() == local_warnings@, __v@ == own_reports(local_warnings@.take(it0.index() as int)),
//@loop-end 0
    proof { assert(__v@ =~= own_reports(local_warnings@.take(it0.index() as int + 1))); }
//@before ctx.warnings.v_extend
    proof { assert(local_warnings@.take(local_warnings@.len() as int) =~= local_warnings@); }
//@before process_decl_items(
    proof {
        assert(ctx.cv() == c1);
        lemma_room_sub(c0.seen, c1.seen);
        assert forall|fuel: nat| fuel >= room(c0.seen) implies ({
            let run = items_run(fuel, f.items, f.items.len(), input_dir@, dirs, c1);
            #[trigger] front(fuel, source@, source_name@, input_dir@, inp, dirs, c0) == (run.0 && defaults_ok(f.items, run.1.reg.m) && defaults_ok(run.1.items, run.1.reg.m), run.1)
        }) by {}
    }
//@after process_decl_items(
    let ghost c2 = ctx.cv();
//@loop 2
    invariant
        it2.seq().len() == decl_items@.len(),
        forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == decl_items@[i],
        forall|i: int| 0 <= i < it2.index() && #[trigger] decl_items@[i] is Type ==> rec_bad(*decl_items@[i]->Type_0, c2.reg.m).len() == 0,
//@loop-start 2
    proof { assert(*item == decl_items@[it2.index() as int]); assert(item_ok(*item)); }
//@loop 3
    invariant
        it3.seq().len() == c2.items.len(),
        forall|i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == c2.items[i],
        forall|i: int| 0 <= i < it3.index() && #[trigger] c2.items[i] is Type ==> rec_bad(*c2.items[i]->Type_0, c2.reg.m).len() == 0,
//@loop-start 3
    proof { assert(*item == c2.items[it3.index() as int]); assert(item_ok(*item)); }
//@loop 4
    invariant
        it4.seq().len() == c2.reg.o.len(),
        forall|i: int| 0 <= i < it4.seq().len() ==> *(#[trigger] it4.seq()[i]) == c2.reg.m[c2.reg.o[i]],
        __v@ == reg_seq(c2.reg).take(it4.index() as int),
//@loop-end 4
    proof { assert(__v@ =~= reg_seq(c2.reg).take(it4.index() as int + 1)); }
//@loop-after 4
    proof { assert(reg_seq(c2.reg).take(reg_seq(c2.reg).len() as int) =~= reg_seq(c2.reg)); }
//@end


// ---------------------------------------------------------------------------
// Every name mentioned is known, in the registry and in what the file itself holds.
// ---------------------------------------------------------------------------
pub open spec fn msg_known(m: Message, d: Set<Seq<char>>) -> bool {
    &&& unres(m.response, d).len() == 0
    &&& forall|i: int| 0 <= i < m.request@.len() ==> unres((#[trigger] m.request@[i]).schema, d).len() == 0
    &&& m.errors is Some ==> forall|i: int| 0 <= i < m.errors->0@.len() ==> unres(#[trigger] m.errors->0@[i], d).len() == 0
}
pub open spec fn file_known(f: IdlFile, d: Set<Seq<char>>) -> bool {
    match f {
        IdlFile::Schema(s) => unres(s, d).len() == 0,
        IdlFile::NamedSchemas(ss) => forall|i: int| 0 <= i < ss@.len() ==> unres(#[trigger] ss@[i], d).len() == 0,
        IdlFile::Protocol(p) => forall|k: Seq<char>| #[trigger] p.messages@.dom().contains(k) ==> msg_known(p.messages@[k], d),
    }
}
pub open spec fn reg_known(r: RegV) -> bool {
    forall|i: int| 0 <= i < r.o.len() ==> unres(r.m[#[trigger] r.o[i]], r.m.dom()).len() == 0
}

pub open spec fn spanned(v: Seq<(String, Option<SpanWithSource>)>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).1 is Some }
proof fn lemma_cat_empty(q: Seq<Seq<Seq<char>>>)
    ensures cat(q).len() == 0 <==> forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).len() == 0,
    decreases q.len()
{
    if q.len() > 0 {
        lemma_cat_empty(q.drop_last());
        assert(forall|i: int| 0 <= i < q.len() - 1 ==> q.drop_last()[i] == #[trigger] q[i]);
        if forall|i: int| 0 <= i < q.drop_last().len() ==> (#[trigger] q.drop_last()[i]).len() == 0 {
            assert forall|i: int| 0 <= i < q.len() && q.last().len() == 0 implies (#[trigger] q[i]).len() == 0 by {
                if i < q.len() - 1 { assert(q.drop_last()[i].len() == 0); }
            }
        }
    }
}
//@fn validate_all_references
//@opt opaque_format
//@opt rename into_iter
//@opt itersrc span_iter
//@spec
    ensures r is Ok <==> reg_known(regv(*registry)) && file_known(*idl_file, registry.schemas@.dom()),
//@start
    let ghost d = registry.schemas@.dom();
    let ghost rv = regv(*registry);
//@after let mut unresolved
    let ghost b0 = unresolved@.len() == 0;
    proof {
        let q = Seq::new(registry.schemas.order().len(), |i: int| unres(registry.schemas@[registry.schemas.order()[i]], registry.schemas@.dom()));
        lemma_cat_empty(q);
        assert(names_of(unresolved@).len() == unresolved@.len());
        if b0 {
            assert forall|i: int| 0 <= i < rv.o.len() implies unres(rv.m[#[trigger] rv.o[i]], rv.m.dom()).len() == 0 by { assert(q[i].len() == 0); }
        }
        if reg_known(rv) {
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).len() == 0 by { assert(rv.o[i] == registry.schemas.order()[i]); assert(unres(rv.m[rv.o[i]], rv.m.dom()).len() == 0); }
        }
        assert(b0 == reg_known(rv));
    }
//@loop 0
    invariant
        it0.seq().len() == schemas@.len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == schemas@[i],
        unresolved@.len() == 0 <==> b0 && (forall|i: int| 0 <= i < it0.index() ==> unres(#[trigger] schemas@[i], d).len() == 0),
//@loop-start 0
    proof { assert(*schema == schemas@[it0.index() as int]); let v: Seq<(String, Option<SpanWithSource>)> = seq![]; assert(forall|w: Seq<(String, Option<SpanWithSource>)>| names_of(w).len() == w.len()); }
//@loop 1
    invariant
        values_of(it1.seq(), protocol.messages@),
        unresolved@.len() == 0 <==> b0 && (forall|i: int| 0 <= i < it1.index() ==> msg_known(*(#[trigger] it1.seq()[i]), d)),
//@loop-start 1
    let ghost b1 = unresolved@.len() == 0 && unres(msg.response, d).len() == 0;
    let ghost ms = it1.seq();
    let ghost mi = it1.index();
    proof { assert(*msg == *ms[mi as int]); assert(forall|w: Seq<(String, Option<SpanWithSource>)>| names_of(w).len() == w.len()); }
//@loop 2
    invariant
        it2.seq().len() == msg.request@.len(),
        forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == msg.request@[i],
        unresolved@.len() == 0 <==> b1 && (forall|i: int| 0 <= i < it2.index() ==> unres((#[trigger] msg.request@[i]).schema, d).len() == 0),
//@loop-start 2
    proof { assert(*field == msg.request@[it2.index() as int]); }
//@loop-after 2
    let ghost b2 = unresolved@.len() == 0;
//@loop 3
    invariant
        it3.seq().len() == errors@.len(),
        forall|i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == errors@[i],
        unresolved@.len() == 0 <==> b2 && (forall|i: int| 0 <= i < it3.index() ==> unres(#[trigger] errors@[i], d).len() == 0),
//@loop-start 3
    proof { assert(*err_schema == errors@[it3.index() as int]); }
//@loop-end 1
    proof {
        assert(unresolved@.len() == 0 <==> b1 && msg_known(*msg, d));
    }
//@loop-after 1
    proof {
        let vs = protocol.messages@;
        assert(unresolved@.len() == 0 <==> b0 && file_known(*idl_file, d));
    }
//@after match idl_file
    let ghost good = reg_known(rv) && file_known(*idl_file, d);
    proof { assert(forall|w: Seq<(String, Option<SpanWithSource>)>| names_of(w).len() == w.len()); assert(good <==> unresolved@.len() == 0); }
//@loop 4
    invariant
        it4.seq().len() == 0 <==> good,
        it4.index() == 0 ==> unresolved@.len() == 0 && seen@ == Set::<Seq<char>>::empty(),
        it4.index() > 0 ==> unresolved@.len() > 0,
//@loop 5
    invariant
        __pa@.len() + __pb@.len() == it5.index(),
        spanned(__pa@),
//@loop 9
    invariant
        spanned(it9.seq()),
//@end

// ---------------------------------------------------------------------------
// "Did you mean": the nearest known name within the limit, primitives first.
// ---------------------------------------------------------------------------
pub struct Cand { pub name: Seq<char>, pub dist: nat, pub prim: bool }
pub open spec fn limit(a: Seq<char>, b: Seq<char>) -> nat { if (if blen(a) <= blen(b) { blen(a) } else { blen(b) }) <= 4 { 1 } else { 2 } }
pub open spec fn offer(b: Option<Cand>, c: Cand, lim: nat) -> Option<Cand> {
    if c.dist <= lim && (b is None || c.dist < b->0.dist) { Some(c) } else { b }
}
pub open spec fn simple_of(s: Seq<char>) -> Seq<char> { split_spec(s, '.').last() }
pub open spec fn best_prim(simple: Seq<char>, n: nat) -> Option<Cand>
    decreases n
{
    let ps = PRIMITIVE_TYPE_NAMES_spec();
    if n == 0 || n > ps.len() { None }
    else { offer(best_prim(simple, (n - 1) as nat), Cand { name: ps[n - 1], dist: distance(simple, ps[n - 1]), prim: true }, limit(simple, ps[n - 1])) }
}
pub open spec fn best_known(u: Seq<char>, names: Seq<Seq<char>>, n: nat) -> Option<Cand>
    decreases n
{
    if n == 0 || n > names.len() { best_prim(simple_of(u), PRIMITIVE_TYPE_NAMES_spec().len()) }
    else {
        let f = names[n - 1];
        let a = offer(best_known(u, names, (n - 1) as nat), Cand { name: f, dist: distance(u, f), prim: false }, limit(u, f));
        offer(a, Cand { name: f, dist: distance(simple_of(u), simple_of(f)), prim: false }, limit(simple_of(u), simple_of(f)))
    }
}
pub open spec fn best_text(u: Seq<char>, c: Cand) -> Seq<char> {
    if c.prim && ascii_case_eq(simple_of(u), c.name) { "did you mean `"@ + c.name + "`? (note: Avro primitives are lowercase)"@ }
    else { "did you mean `"@ + c.name + "`?"@ }
}
pub open spec fn candv(b: Option<(String, usize, bool)>) -> Option<Cand> {
    match b { Some(t) => Some(Cand { name: t.0@, dist: t.1 as nat, prim: t.2 }), None => None }
}
// A suggestion is a known name; nothing within its limit is nearer; and there
// is one whenever anything is within its limit.
pub open spec fn near(u: Seq<char>, names: Seq<Seq<char>>, c: Cand) -> bool {
    if c.prim { exists|i: int| 0 <= i < PRIMITIVE_TYPE_NAMES_spec().len() && #[trigger] PRIMITIVE_TYPE_NAMES_spec()[i] == c.name && c.dist == distance(simple_of(u), c.name) && c.dist <= limit(simple_of(u), c.name) }
    else {
        exists|i: int| 0 <= i < names.len() && #[trigger] names[i] == c.name && (
            c.dist == distance(u, c.name) && c.dist <= limit(u, c.name)
            || c.dist == distance(simple_of(u), simple_of(c.name)) && c.dist <= limit(simple_of(u), simple_of(c.name)))
    }
}
proof fn lemma_best_prim(u: Seq<char>, names: Seq<Seq<char>>, n: nat)
    requires n <= PRIMITIVE_TYPE_NAMES_spec().len(),
    ensures
        best_prim(simple_of(u), n) is Some ==> best_prim(simple_of(u), n)->0.prim && near(u, names, best_prim(simple_of(u), n)->0),
        forall|i: int| 0 <= i < n && distance(simple_of(u), #[trigger] PRIMITIVE_TYPE_NAMES_spec()[i]) <= limit(simple_of(u), PRIMITIVE_TYPE_NAMES_spec()[i]) ==>
            best_prim(simple_of(u), n) is Some && best_prim(simple_of(u), n)->0.dist <= distance(simple_of(u), PRIMITIVE_TYPE_NAMES_spec()[i]),
    decreases n
{
    if n > 0 { lemma_best_prim(u, names, (n - 1) as nat); assert(PRIMITIVE_TYPE_NAMES_spec()[n - 1] == PRIMITIVE_TYPE_NAMES_spec()[n - 1]); }
}
proof fn lemma_best_known(u: Seq<char>, names: Seq<Seq<char>>, n: nat)
    requires n <= names.len(),
    ensures
        best_known(u, names, n) is Some ==> near(u, names, best_known(u, names, n)->0),
        forall|c: Cand| c.prim && #[trigger] near(u, names, c) ==> best_known(u, names, n) is Some && best_known(u, names, n)->0.dist <= c.dist,
        forall|i: int| 0 <= i < n && distance(u, #[trigger] names[i]) <= limit(u, names[i]) ==> best_known(u, names, n) is Some && best_known(u, names, n)->0.dist <= distance(u, names[i]),
        forall|i: int| 0 <= i < n && distance(simple_of(u), simple_of(#[trigger] names[i])) <= limit(simple_of(u), simple_of(names[i])) ==>
            best_known(u, names, n) is Some && best_known(u, names, n)->0.dist <= distance(simple_of(u), simple_of(names[i])),
    decreases n
{
    lemma_best_prim(u, names, PRIMITIVE_TYPE_NAMES_spec().len());
    if n > 0 { lemma_best_known(u, names, (n - 1) as nat); assert(names[n - 1] == names[n - 1]); }
}
pub proof fn lemma_suggestion(u: Seq<char>, names: Seq<Seq<char>>)
    ensures
        best_known(u, names, names.len()) is Some ==> near(u, names, best_known(u, names, names.len())->0),
        forall|c: Cand| #[trigger] near(u, names, c) ==> best_known(u, names, names.len()) is Some && best_known(u, names, names.len())->0.dist <= c.dist,
{
    lemma_best_known(u, names, names.len());
}

pub open spec fn misuse(s: Seq<char>) -> Option<Seq<char>> {
    if s == "void"@ { Some("`void` can only be used as a message return type, not as a field or schema type"@) }
    else if s == "decimal"@ { Some("`decimal` requires precision and scale parameters: use `decimal(precision, scale)` syntax"@) }
    else { None }
}
//@fn keyword_misuse_hint
//@opt strmatch
//@spec
    ensures ov(r) == misuse(simple@),
//@end
//@fn suggest_similar_name
//@opt rename rsplit
//@opt rename eq_ignore_ascii_case
//@opt strlen simple
//@opt strlen prim
//@opt strlen unresolved
//@opt strlen registered_full
//@opt strlen registered_simple
//@spec
    ensures
        ov(r) == (match misuse(simple_of(unresolved@)) {
            Some(h) => Some(h),
            None => match best_known(unresolved@, registry.schemas.order(), registry.schemas.order().len()) { Some(c) => Some(best_text(unresolved@, c)), None => None },
        }),
//@start
    let ghost u = unresolved@;
    let ghost names = registry.schemas.order();
    let vx_p = PRIMITIVE_TYPE_NAMES;
//@loop 0
    invariant
        simple@ == simple_of(u),
        it0.seq().len() == 8,
        candv(best) == best_prim(simple@, it0.index() as nat),
//@loop 1
    invariant
        simple@ == simple_of(u),
        it1.seq().len() == names.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> (#[trigger] it1.seq()[i])@ == names[i],
        candv(best) == best_known(u, names, it1.index() as nat),
//@end
// ---------------------------------------------------------------------------
// A compilation is a function of the text, its name and place, the import
// directories and the files: nothing of earlier calls enters.
// ---------------------------------------------------------------------------
pub open spec fn c_empty() -> C {
    C { reg: RegV { m: Map::empty(), o: Seq::empty() }, seen: Set::empty(), msgs: Map::empty(), warn: Seq::empty(), spans: Seq::empty(), items: Seq::empty() }
}
pub open spec fn out_file(f: IdlFile, c: C) -> IdlFile {
    match f {
        IdlFile::Protocol(p) => IdlFile::Protocol(Protocol { types: mk_vec(reg_seq(c.reg)), messages: mk_hashmap(c.msgs.union_prefer_right(p.messages@)), ..p }),
        _ => f,
    }
}
pub open spec fn whole(fuel: nat, t: Seq<char>, nm: Seq<char>, dir: Seq<char>, inp: Option<Seq<char>>, dirs: Seq<PathBuf>) -> (bool, C) {
    let run = front(fuel, t, nm, dir, inp, dirs, c_empty());
    (run.0 && reg_known(run.1.reg) && file_known(out_file(parsed(t, nm)->0.file, run.1), run.1.reg.m.dom()), run.1)
}
pub open spec fn whole_file(fuel: nat, path: Seq<char>, dirs: Seq<PathBuf>) -> (bool, C) {
    match file_text(path) {
        None => (false, c_empty()),
        Some(t) => {
            let d = dir_of(path);
            whole(fuel, t, path_disp(path), match path_canon(d) { Some(q) => q, None => d }, path_canon(path), dirs)
        },
    }
}
pub open spec fn whole_str(fuel: nat, t: Seq<char>, nm: Seq<char>, dirs: Seq<PathBuf>) -> (bool, C) {
    match cwd() { None => (false, c_empty()), Some(d) => whole(fuel, t, nm, d, None, dirs) }
}
pub open spec fn enough() -> nat { room(Set::empty()) }
pub open spec fn compiled(run: (bool, C), f: IdlFile, r: MResult<CompileOutput>, before: Seq<Report>, after: IdlCompiler) -> bool {
    &&& r is Ok <==> run.0
    &&& r is Ok ==> (r->Ok_0).warnings@ == run.1.warn && regv((r->Ok_0).registry) == run.1.reg && (r->Ok_0).idl_file == out_file(f, run.1)
    &&& r is Ok ==> after.accumulated_warnings@ == before
    &&& r is Err ==> after.accumulated_warnings@ == run.1.warn
}
pub open spec fn good_output(o: CompileOutput) -> bool { wf_env(o.registry.schemas@) }

//@fn IdlCompiler::compile
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> compiled(#[trigger] whole(fuel, source@, source_name@, input_dir@, opv(input_path), old(self).import_dirs@),
            parsed(source@, source_name@)->0.file, r, Seq::empty(), *final(self)),
        r is Ok ==> good_output(r->Ok_0) && (r->Ok_0).source@ == source@ && (r->Ok_0).source_name@ == source_name@,
        final(self).import_dirs == old(self).import_dirs,
//@before let (idl_file
    let ghost dirs = self.import_dirs@;
    proof { assert(ctx.cv() == c_empty()); assert(wf_env(ctx.registry.schemas@)); }
//@after let (idl_file
    proof {
        assert forall|fuel: nat| fuel >= enough() implies
            idl_file == #[trigger] out_file(parsed(source@, source_name@)->0.file, front(fuel, source@, source_name@, input_dir@, opv(input_path), dirs, c_empty()).1) by {}
    }
//@end
//@fn IdlCompiler::compile_file
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> compiled(#[trigger] whole_file(fuel, path@, old(self).import_dirs@),
            parsed(file_text(path@)->0, path_disp(path@))->0.file, r, Seq::empty(), *final(self)),
        r is Ok ==> good_output(r->Ok_0),
        final(self).import_dirs == old(self).import_dirs,
//@end
//@fn IdlCompiler::compile_str
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> compiled(#[trigger] whole_str(fuel, source@, name@, old(self).import_dirs@),
            parsed(source@, name@)->0.file, r, Seq::empty(), *final(self)),
        r is Ok ==> good_output(r->Ok_0) && (r->Ok_0).source@ == source@ && (r->Ok_0).source_name@ == name@,
        final(self).import_dirs == old(self).import_dirs,
//@end
//@fn IdlCompiler::new
//@spec
    ensures r.import_dirs@ == Seq::<PathBuf>::empty(), r.accumulated_warnings@ == Seq::<Report>::empty(),
//@end
//@fn IdlCompiler::import_dir
//@spec
    ensures final(self).import_dirs@ == old(self).import_dirs@.push(dir), final(self).accumulated_warnings == old(self).accumulated_warnings,
//@end
//@fn IdlCompiler::drain_warnings
//@spec
    ensures r == old(self).accumulated_warnings, final(self).accumulated_warnings@ == Seq::<Report>::empty(), final(self).import_dirs == old(self).import_dirs,
//@end

// ---------------------------------------------------------------------------
// `idl`: the protocol or the schema as JSON, nothing for bare named types.
// ---------------------------------------------------------------------------
pub open spec fn file_json_ok(j: Value, f: IdlFile, reg: RegV) -> bool {
    let lk = lk_of(reg_seq(reg), reg_seq(reg).len(), None);
    match f {
        IdlFile::Protocol(p) => proto_written(j, p),
        IdlFile::Schema(s) => wf(s) && wf_lk(lk) ==> repr(j, s, Seq::empty(), Set::empty(), lk) is Some,
        IdlFile::NamedSchemas(_) => false,
    }
}
pub open spec fn converted(run: (bool, C), f: IdlFile, r: MResult<IdlOutput>, after: IdlCompiler) -> bool {
    &&& r is Ok <==> run.0 && !(f is NamedSchemas)
    &&& r is Ok ==> (r->Ok_0).warnings@ == run.1.warn && file_json_ok((r->Ok_0).json, out_file(f, run.1), run.1.reg)
    &&& r is Ok ==> after.accumulated_warnings@ == Seq::<Report>::empty()
    &&& r is Err ==> after.accumulated_warnings@ == run.1.warn
}
proof fn lemma_reg_flat(r: SchemaRegistry)
    requires wf_env(r.schemas@),
    ensures forall|i: int| 0 <= i < reg_seq(regv(r)).len() ==> is_named(#[trigger] reg_seq(regv(r))[i]) && flat(reg_seq(regv(r))[i]),
{
    assert forall|i: int| 0 <= i < reg_seq(regv(r)).len() implies is_named(#[trigger] reg_seq(regv(r))[i]) && flat(reg_seq(regv(r))[i]) by {
        let k = r.schemas.order()[i];
        assert(r.schemas.order().to_set().contains(k));
        assert(r.schemas@.dom().contains(k));
    }
}

//@fn Idl::new
//@spec
    ensures r.inner.import_dirs@ == Seq::<PathBuf>::empty(), r.inner.accumulated_warnings@ == Seq::<Report>::empty(),
//@end
//@fn Idl::import_dir
//@spec
    ensures r.inner.import_dirs@ == old(self).inner.import_dirs@.push(dir.vi()), r.inner.accumulated_warnings == old(self).inner.accumulated_warnings, *final(self) == *final(r),
//@end
//@fn Idl::drain_warnings
//@spec
    ensures r == old(self).inner.accumulated_warnings, final(self).inner.accumulated_warnings@ == Seq::<Report>::empty(), final(self).inner.import_dirs == old(self).inner.import_dirs,
//@end
//@fn Idl::convert_impl
//@spec
    requires good_output(compiled),
    ensures
        r is Ok <==> !(compiled.idl_file is NamedSchemas),
        r is Ok ==> (r->Ok_0).warnings == compiled.warnings && file_json_ok((r->Ok_0).json, compiled.idl_file, regv(compiled.registry)) && *final(self) == *old(self),
        r is Err ==> final(self).inner.accumulated_warnings == compiled.warnings && final(self).inner.import_dirs == old(self).inner.import_dirs,
//@loop 0
    invariant
        it0.seq().len() == registry.schemas.order().len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == reg_seq(regv(registry))[i],
        __v@ == reg_seq(regv(registry)).take(it0.index() as int),
//@loop-end 0
    proof { assert(__v@ =~= reg_seq(regv(registry)).take(it0.index() as int + 1)); }
//@before let lookup
    proof {
        assert(registry_schemas@ =~= reg_seq(regv(registry)));
        lemma_reg_flat(registry);
    }
//@end
//@fn Idl::convert_str_named
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> converted(#[trigger] whole_str(fuel, source@, name@, old(self).inner.import_dirs@),
            parsed(source@, name@)->0.file, r, final(self).inner),
        final(self).inner.import_dirs == old(self).inner.import_dirs,
//@end
//@fn Idl::convert_str
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> converted(#[trigger] whole_str(fuel, source@, "<input>"@, old(self).inner.import_dirs@),
            parsed(source@, "<input>"@)->0.file, r, final(self).inner),
        final(self).inner.import_dirs == old(self).inner.import_dirs,
//@end
//@fn Idl::convert
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> converted(#[trigger] whole_file(fuel, path.pv(), old(self).inner.import_dirs@),
            parsed(file_text(path.pv())->0, path_disp(path.pv()))->0.file, r, final(self).inner),
        final(self).inner.import_dirs == old(self).inner.import_dirs,
//@end

// ---------------------------------------------------------------------------
// `idl2schemata`: every registered type, in order, each on its own.
// ---------------------------------------------------------------------------
pub open spec fn extracted_n(out: Seq<NamedSchema>, rs: Seq<AvroSchema>, lk: Map<Seq<char>, AvroSchema>, n: int) -> bool {
    &&& out.len() == n
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] out[i]).name@ == (schema_name(rs[i])->0).0
    &&& forall|i: int| 0 <= i < n && wf(rs[i]) && wf_lk(lk) ==> repr((#[trigger] out[i]).schema, rs[i], Seq::empty(), Set::empty(), lk) is Some
}
pub open spec fn extracted(out: Seq<NamedSchema>, reg: RegV) -> bool {
    let lk = lk_of(reg_seq(reg), reg_seq(reg).len(), None);
    extracted_n(out, reg_seq(reg), lk, reg.o.len() as int)
}
pub open spec fn extraction(run: (bool, C), r: MResult<SchemataOutput>, after: IdlCompiler) -> bool {
    &&& r is Ok <==> run.0
    &&& r is Ok ==> (r->Ok_0).warnings@ == run.1.warn && extracted((r->Ok_0).schemas@, run.1.reg) && after.accumulated_warnings@ == Seq::<Report>::empty()
    &&& r is Err ==> after.accumulated_warnings@ == run.1.warn
}
//@fn Idl2Schemata::new
//@spec
    ensures r.inner.import_dirs@ == Seq::<PathBuf>::empty(), r.inner.accumulated_warnings@ == Seq::<Report>::empty(),
//@end
//@fn Idl2Schemata::import_dir
//@spec
    ensures r.inner.import_dirs@ == old(self).inner.import_dirs@.push(dir.vi()), r.inner.accumulated_warnings == old(self).inner.accumulated_warnings, *final(self) == *final(r),
//@end
//@fn Idl2Schemata::drain_warnings
//@spec
    ensures r == old(self).inner.accumulated_warnings, final(self).inner.accumulated_warnings@ == Seq::<Report>::empty(), final(self).inner.import_dirs == old(self).inner.import_dirs,
//@end
//@fn Idl2Schemata::extract_impl
//@spec
    requires good_output(compiled),
    ensures r.warnings == compiled.warnings, extracted(r.schemas@, regv(compiled.registry)),
//@loop 0
    invariant
        it0.seq().len() == registry.schemas.order().len(),
        forall|i: int| 0 <= i < it0.seq().len() ==> *(#[trigger] it0.seq()[i]) == reg_seq(regv(registry))[i],
        __v@ == reg_seq(regv(registry)).take(it0.index() as int),
//@loop-end 0
    proof { assert(__v@ =~= reg_seq(regv(registry)).take(it0.index() as int + 1)); }
//@before let all_lookup
    let ghost rs = reg_seq(regv(registry));
    proof {
        assert(registry_schemas@ =~= rs);
        lemma_reg_flat(registry);
    }
//@loop 1
    invariant
        it1.seq().len() == rs.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == rs[i],
        extracted_n(schemas@, rs, all_lookup@, it1.index() as int),
//@loop-start 1
    proof { assert(*schema == rs[it1.index() as int]); assert(is_named(rs[it1.index() as int])); }
//@end
//@fn Idl2Schemata::extract_str_named
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> extraction(#[trigger] whole_str(fuel, source@, name@, old(self).inner.import_dirs@), r, final(self).inner),
        final(self).inner.import_dirs == old(self).inner.import_dirs,
//@end
//@fn Idl2Schemata::extract_str
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> extraction(#[trigger] whole_str(fuel, source@, "<input>"@, old(self).inner.import_dirs@), r, final(self).inner),
        final(self).inner.import_dirs == old(self).inner.import_dirs,
//@end
// A directory: its .avdl files in name order, each on its own; the first
// failure ends it, with the warnings so far.
pub open spec fn is_avdl(p: Seq<char>) -> bool { match path_ext(p) { Some(e) => os_str(e) == Some("avdl"@), None => false } }
pub open spec fn avdl_files(w: Seq<std::result::Result<DirEntry, IoError>>, n: nat) -> Seq<Seq<char>>
    decreases n
{
    if n == 0 || n > w.len() { seq![] }
    else {
        let a = avdl_files(w, (n - 1) as nat);
        match w[n - 1] { Ok(e) => if is_avdl(e@) { a.push(e@) } else { a }, Err(_) => a }
    }
}
pub open spec fn dir_files(dir: Seq<char>) -> Seq<Seq<char>> { avdl_files(walk_sorted(dir), walk_sorted(dir).len()) }
pub open spec fn dir_ok(fuel: nat, ps: Seq<Seq<char>>, n: nat, dirs: Seq<PathBuf>) -> bool
    decreases n
{
    n == 0 || n > ps.len() || (dir_ok(fuel, ps, (n - 1) as nat, dirs) && whole_file(fuel, ps[n - 1], dirs).0)
}
// Warnings up to and including the first failing file.
pub open spec fn dir_warn(fuel: nat, ps: Seq<Seq<char>>, n: nat, dirs: Seq<PathBuf>) -> Seq<Report>
    decreases n
{
    if n == 0 || n > ps.len() { seq![] }
    else if dir_ok(fuel, ps, (n - 1) as nat, dirs) { dir_warn(fuel, ps, (n - 1) as nat, dirs) + whole_file(fuel, ps[n - 1], dirs).1.warn }
    else { dir_warn(fuel, ps, (n - 1) as nat, dirs) }
}
pub open spec fn dir_count(fuel: nat, ps: Seq<Seq<char>>, n: nat, dirs: Seq<PathBuf>) -> nat
    decreases n
{
    if n == 0 || n > ps.len() { 0 } else { dir_count(fuel, ps, (n - 1) as nat, dirs) + whole_file(fuel, ps[n - 1], dirs).1.reg.o.len() }
}
pub open spec fn dir_out(fuel: nat, out: Seq<NamedSchema>, ps: Seq<Seq<char>>, n: nat, dirs: Seq<PathBuf>) -> bool
    decreases n
{
    if n == 0 || n > ps.len() { out.len() == 0 }
    else {
        let k = dir_count(fuel, ps, (n - 1) as nat, dirs);
        &&& k <= out.len()
        &&& dir_out(fuel, out.take(k as int), ps, (n - 1) as nat, dirs)
        &&& extracted(out.skip(k as int), whole_file(fuel, ps[n - 1], dirs).1.reg)
    }
}
pub open spec fn dir_done(fuel: nat, ps: Seq<Seq<char>>, dirs: Seq<PathBuf>, r: MResult<SchemataOutput>, after: IdlCompiler) -> bool {
    &&& r is Ok <==> dir_ok(fuel, ps, ps.len(), dirs)
    &&& r is Ok ==> (r->Ok_0).warnings@ == dir_warn(fuel, ps, ps.len(), dirs) && dir_out(fuel, (r->Ok_0).schemas@, ps, ps.len(), dirs)
    &&& r is Err ==> after.accumulated_warnings@ == dir_warn(fuel, ps, ps.len(), dirs)
}
proof fn lemma_dir_fail(fuel: nat, ps: Seq<Seq<char>>, n: nat, k: nat, dirs: Seq<PathBuf>)
    requires n <= k <= ps.len(), !dir_ok(fuel, ps, n, dirs),
    ensures !dir_ok(fuel, ps, k, dirs), dir_warn(fuel, ps, k, dirs) == dir_warn(fuel, ps, n, dirs),
    decreases k
{
    if n < k { lemma_dir_fail(fuel, ps, n, (k - 1) as nat, dirs); }
}
proof fn lemma_dir_count(fuel: nat, out: Seq<NamedSchema>, ps: Seq<Seq<char>>, n: nat, dirs: Seq<PathBuf>)
    requires n <= ps.len(), dir_out(fuel, out, ps, n, dirs),
    ensures out.len() == dir_count(fuel, ps, n, dirs),
    decreases n
{
    if n > 0 {
        let k = dir_count(fuel, ps, (n - 1) as nat, dirs);
        lemma_dir_count(fuel, out.take(k as int), ps, (n - 1) as nat, dirs);
    }
}
pub open spec fn dir_upto(dirs: Seq<PathBuf>, ps: Seq<Seq<char>>, n: nat, ws: Seq<Report>, ss: Seq<NamedSchema>) -> bool {
    forall|fuel: nat| fuel >= enough() ==> #[trigger] dir_ok(fuel, ps, n, dirs) && ws == dir_warn(fuel, ps, n, dirs) && dir_out(fuel, ss, ps, n, dirs)
}
pub open spec fn pathsv(v: Seq<PathBuf>) -> Seq<Seq<char>> { v.map_values(|p: PathBuf| p@) }
//@fn Idl2Schemata::extract_directory
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> #[trigger] dir_done(fuel, dir_files(dir@), old(self).inner.import_dirs@, r, final(self).inner),
        final(self).inner.import_dirs == old(self).inner.import_dirs,
//@start
    let ghost dirs = self.inner.import_dirs@;
    let ghost w = walk_sorted(dir@);
    let ghost ps = dir_files(dir@);
//@loop 0
    invariant
        it0.seq() == w, pathsv(avdl_paths@) == avdl_files(w, it0.index() as nat),
//@loop-end 0
    proof { assert(pathsv(avdl_paths@) =~= avdl_files(w, it0.index() as nat + 1)); }
//@loop-after 0
    proof { assert(ps.len() == avdl_paths@.len()); }
//@loop 1
    invariant
        pathsv(avdl_paths@) == ps,
        it1.seq().len() == avdl_paths@.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == avdl_paths@[i],
        self.inner.import_dirs == old(self).inner.import_dirs,
        dir_upto(dirs, ps, it1.index() as nat, all_warnings@, all_schemas@),
//@loop-start 1
    let ghost ix = it1.index() as nat;
    let ghost w0 = all_warnings@;
    let ghost s0 = all_schemas@;
    proof {
        assert(avdl_path@ == ps[ix as int]);
        assert forall|fuel: nat| fuel >= enough() && !whole_file(fuel, ps[ix as int], dirs).0 implies !#[trigger] dir_ok(fuel, ps, ps.len(), dirs)
            && dir_warn(fuel, ps, ps.len(), dirs) == w0 + whole_file(fuel, ps[ix as int], dirs).1.warn by {
            assert(dir_ok(fuel, ps, ix, dirs));
            lemma_dir_fail(fuel, ps, ix + 1, ps.len(), dirs);
        }
    }
//@loop-end 1
    proof {
        assert forall|fuel: nat| fuel >= enough() implies #[trigger] dir_ok(fuel, ps, ix + 1, dirs) && all_warnings@ == dir_warn(fuel, ps, ix + 1, dirs) && dir_out(fuel, all_schemas@, ps, ix + 1, dirs) by {
            assert(dir_ok(fuel, ps, ix, dirs));
            lemma_dir_count(fuel, s0, ps, ix, dirs);
            let k = dir_count(fuel, ps, ix, dirs);
            assert(all_schemas@.take(k as int) =~= s0);
            assert(all_schemas@.skip(k as int) =~= output.schemas@);
            assert(whole_file(fuel, ps[ix as int], dirs).0);
        }
    }
//@before return Err(e)
    proof {
        assert forall|fuel: nat| fuel >= enough() implies #[trigger] dir_done(fuel, ps, dirs, Err::<SchemataOutput, Report>(e), self.inner) by {
            assert(dir_ok(fuel, ps, ix, dirs));
            assert(!whole_file(fuel, ps[ix as int], dirs).0);
            assert(!dir_ok(fuel, ps, ps.len(), dirs));
        }
    }
//@end
//@fn Idl2Schemata::extract
//@spec
    ensures
        path_is_dir(path.pv()) ==> forall|fuel: nat| fuel >= enough() ==> #[trigger] dir_done(fuel, dir_files(path.pv()), old(self).inner.import_dirs@, r, final(self).inner),
        !path_is_dir(path.pv()) ==> forall|fuel: nat| fuel >= enough() ==> extraction(#[trigger] whole_file(fuel, path.pv(), old(self).inner.import_dirs@), r, final(self).inner),
        final(self).inner.import_dirs == old(self).inner.import_dirs,
//@end
