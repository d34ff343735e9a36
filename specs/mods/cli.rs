//@module cli src/main.rs
use crate::schema::*;
use crate::reader::{IdlFile, parsed};
use crate::compiler::*;
use crate::stubs::lexopt;
use crate::stubs::lexopt::*;
use crate::stubs::lexopt::Arg::*;
broadcast use {group_string, axiom_lx_next, axiom_lx_value};

//@const MAIN_HELP
//@const IDL_HELP
//@const IDL2SCHEMATA_HELP
//@type IdlArgs
//@type Idl2schemataArgs
// ---------------------------------------------------------------------------
// Where output goes.
// ---------------------------------------------------------------------------
pub open spec fn to_stdout(o: Option<Seq<char>>) -> bool { o is None || o->0 == "-"@ }
// The output has the text: standard output without, a file with a final newline.
pub open spec fn delivered(o: Option<Seq<char>>, t: Seq<char>, w0: WorldV, w1: WorldV, ok: bool) -> bool {
    if to_stdout(o) {
        &&& ok ==> w1 == (WorldV { out: w0.out + t, ..w0 }) || (w1.closed && exists|n: int| 0 <= n <= t.len() && #[trigger] out_part(w0, w1, t, n))
        &&& !ok ==> exists|n: int| 0 <= n <= t.len() && #[trigger] out_part(w0, w1, t, n)
    } else {
        &&& ok ==> w1 == (WorldV { files: w0.files.push((o->0, t + "\n"@)), ..w0 })
        &&& !ok ==> w1 == (WorldV { faults: w0.faults + 1, ..w0 })
    }
}
//@fn write_output
//@opt world
//@spec
    ensures delivered(osv(output), content@, old(__w)@, final(__w)@, r is Ok),
//@end

// ---------------------------------------------------------------------------
// The arguments of a subcommand: `--import-dir D` any number of times, then
// texts in order; anything else is refused; help leaves the process.
// ---------------------------------------------------------------------------
pub enum Args { Fine(Seq<Seq<char>>, Seq<Seq<char>>), Bad, Help }
pub open spec fn cli_args(s: Lx, dirs: Seq<Seq<char>>, pos: Seq<Seq<char>>) -> Args
    decreases lx_left(s)
{
    let (st, s1) = lx_next(s);
    match st {
        Step::End => Args::Fine(dirs, pos),
        Step::Fail => Args::Bad,
        Step::Arg(a) => match a {
            Arg::Long(n) =>
                if n@ == "import-dir"@ {
                    match lx_value(s1).0 {
                        None => Args::Bad,
                        Some(v) => match os_text(v) {
                            None => Args::Bad,
                            Some(t) => if lx_left(lx_value(s1).1) < lx_left(s) { cli_args(lx_value(s1).1, dirs.push(t), pos) } else { Args::Bad },
                        },
                    }
                } else if n@ == "help"@ { Args::Help } else { Args::Bad },
            Arg::Short(c) => if c == 'h' { Args::Help } else { Args::Bad },
            Arg::Value(v) => match os_text(v) {
                None => Args::Bad,
                Some(t) => if lx_left(s1) < lx_left(s) { cli_args(s1, dirs, pos.push(t)) } else { Args::Bad },
            },
        },
    }
}
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|x: String| x@) }
pub open spec fn paths(v: Seq<PathBuf>) -> Seq<Seq<char>> { v.map_values(|x: PathBuf| x@) }
pub open spec fn nth(p: Seq<Seq<char>>, i: int) -> Option<Seq<char>> { if i < p.len() { Some(p[i]) } else { None } }
//@fn parse_idl_args
//@opt world
//@opt rename cloned
//@spec
    requires w_empty(old(__w)@),
    ensures
        final(__w)@ == old(__w)@,
        match (r, cli_args(old(parser)@, seq![], seq![])) {
            (Ok(a), Args::Fine(dirs, pos)) => paths(a.import_dirs@) == dirs && ov(a.input) == nth(pos, 0) && ov(a.output) == nth(pos, 1),
            (Err(_), Args::Bad) => true,
            _ => false,
        },
//@start
    let ghost s0 = parser@;
//@loop 0
    invariant
        __w@ == old(__w)@,
        cli_args(s0, seq![], seq![]) == cli_args(parser@, paths(import_dirs@), strs(positionals@)),
    decreases lx_left(parser@)
//@loop-before 0
    proof { assert(paths(import_dirs@) =~= seq![]); assert(strs(positionals@) =~= seq![]); }
//@loop-start 0
    let ghost d0 = paths(import_dirs@);
    let ghost q0 = strs(positionals@);
//@loop-end 0
    proof {
        if import_dirs@.len() == d0.len() { assert(paths(import_dirs@) =~= d0); } else { assert(paths(import_dirs@) =~= d0.push(import_dirs@.last()@)); }
        if positionals@.len() == q0.len() { assert(strs(positionals@) =~= q0); } else { assert(strs(positionals@) =~= q0.push(positionals@.last()@)); }
    }
//@end
//@fn parse_idl2schemata_args
//@opt world
//@opt rename cloned
//@spec
    requires w_empty(old(__w)@),
    ensures
        final(__w)@ == old(__w)@,
        match (r, cli_args(old(parser)@, seq![], seq![])) {
            (Ok(a), Args::Fine(dirs, pos)) => paths(a.import_dirs@) == dirs && pos.len() > 0 && a.input@ == pos[0]
                && (match a.outdir { Some(d) => Some(d@), None => None }) == nth(pos, 1),
            (Err(_), Args::Fine(dirs, pos)) => pos.len() == 0,
            (Err(_), Args::Bad) => true,
            _ => false,
        },
//@start
    let ghost s0 = parser@;
//@loop 0
    invariant
        __w@ == old(__w)@,
        cli_args(s0, seq![], seq![]) == cli_args(parser@, paths(import_dirs@), strs(positionals@)),
    decreases lx_left(parser@)
//@loop-before 0
    proof { assert(paths(import_dirs@) =~= seq![]); assert(strs(positionals@) =~= seq![]); }
//@loop-start 0
    let ghost d0 = paths(import_dirs@);
    let ghost q0 = strs(positionals@);
//@loop-end 0
    proof {
        if import_dirs@.len() == d0.len() { assert(paths(import_dirs@) =~= d0); } else { assert(paths(import_dirs@) =~= d0.push(import_dirs@.last()@)); }
        if positionals@.len() == q0.len() { assert(strs(positionals@) =~= q0); } else { assert(strs(positionals@) =~= q0.push(positionals@.last()@)); }
    }
//@end

// ---------------------------------------------------------------------------
// `idl`: the converted JSON to the output, or nothing and a failure.
// ---------------------------------------------------------------------------
pub open spec fn warn_text(ws: Seq<Report>, n: nat) -> Seq<char>
    decreases n
{
    if n == 0 || n > ws.len() { seq![] } else { warn_text(ws, (n - 1) as nat) + (VDbg::gv(&ws[n - 1]) + "\n"@) }
}
pub open spec fn warned(w: WorldV, ws: Seq<Report>) -> WorldV { WorldV { err: w.err + warn_text(ws, ws.len()), ..w } }
pub open spec fn stdin_name(input: Option<Seq<char>>) -> Seq<char> { match input { Some(s) => s, None => "<stdin>"@ } }
pub open spec fn idl_run(fuel: nat, input: Option<Seq<char>>, dirs: Seq<PathBuf>) -> (bool, C) {
    if to_stdout(input) {
        match stdin_text() { None => (false, c_empty()), Some(t) => whole_str(fuel, t, stdin_name(input), dirs) }
    } else { whole_file(fuel, input->0, dirs) }
}
pub open spec fn idl_file_of(input: Option<Seq<char>>) -> IdlFile {
    if to_stdout(input) { parsed(stdin_text()->0, stdin_name(input))->0.file }
    else { parsed(file_text(input->0)->0, path_disp(input->0))->0.file }
}
pub open spec fn idl_done(run: (bool, C), f: IdlFile, output: Option<Seq<char>>, w0: WorldV, w1: WorldV, ok: bool) -> bool {
    if run.0 && !(f is NamedSchemas) {
        exists|j: crate::stubs::Value| #[trigger] file_json_ok(j, out_file(f, run.1), run.1.reg) && delivered(output, pretty(j), warned(w0, run.1.warn), w1, ok)
    } else { !ok && w1 == warned(w0, run.1.warn) }
}
proof fn lemma_line(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures
        (a + b) + ((Seq::<char>::empty() + c) + "\n"@) == a + (b + (c + "\n"@)),
{
    assert((a + b) + ((Seq::<char>::empty() + c) + "\n"@) =~= a + (b + (c + "\n"@)));
}
//@fn run_idl
//@opt world
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> idl_done(#[trigger] idl_run(fuel, ov(input), import_dirs@), idl_file_of(ov(input)), ov(output), old(__w)@, final(__w)@, r is Ok),
//@start
    let ghost w0 = __w@;
    let ghost inp = ov(input);
    let ghost dirs = import_dirs@;
//@loop 0
    invariant
        __w@ == w0,
        it0.seq().len() == dirs.len(),
        forall|i: int| 0 <= i < dirs.len() ==> *(#[trigger] it0.seq()[i]) == dirs[i],
        builder.inner.import_dirs@ == dirs.take(it0.index() as int),
//@loop-end 0
    proof { assert(dirs.take(it0.index() as int + 1) =~= dirs.take(it0.index() as int).push(dirs[it0.index() as int])); }
//@loop-after 0
    proof { assert(builder.inner.import_dirs@ =~= dirs); }
//@loop 1
    invariant
        it1.seq().len() == idl_output.warnings@.len(),
        forall|i: int| 0 <= i < it1.seq().len() ==> *(#[trigger] it1.seq()[i]) == idl_output.warnings@[i],
        __w@ == (WorldV { err: w0.err + warn_text(idl_output.warnings@, it1.index() as nat), ..w0 }),
//@loop-end 1
    proof { lemma_line(w0.err, warn_text(idl_output.warnings@, it1.index() as nat), VDbg::gv(&w)); }
//@loop 2
    invariant
        it2.seq() == w2,
        __w@ == (WorldV { err: w0.err + warn_text(w2, it2.index() as nat), ..w0 }),
//@loop-end 2
    proof { lemma_line(w0.err, warn_text(w2, it2.index() as nat), VDbg::gv(&w)); }
//@loop-before 2
    let ghost w2 = builder.inner.accumulated_warnings@;
//@end

// ---------------------------------------------------------------------------
// `idl2schemata`: one file per schema, or nothing and a failure.
// ---------------------------------------------------------------------------
pub open spec fn files_of(dir: Seq<char>, out: Seq<NamedSchema>, n: nat) -> Seq<(Seq<char>, Seq<char>)>
    decreases n
{
    if n == 0 || n > out.len() { seq![] }
    else { files_of(dir, out, (n - 1) as nat).push((path_join(dir, out[n - 1].name@ + ".avsc"@), pretty(out[n - 1].schema) + "\n"@)) }
}
pub open spec fn saved(od: Seq<char>, out: Seq<NamedSchema>, w0: WorldV, w1: WorldV, ok: bool) -> bool {
    &&& ok ==> w1 == (WorldV { dirs: w0.dirs.push(od), files: w0.files + files_of(od, out, out.len()), ..w0 })
    &&& !ok ==> (w1 == w0 && path_exists(od) && !path_is_dir(od)) || w1 == (WorldV { faults: w0.faults + 1, ..w0 })
        || exists|n: nat| n < out.len() && w1 == (WorldV { dirs: w0.dirs.push(od), files: w0.files + #[trigger] files_of(od, out, n), faults: w0.faults + 1, ..w0 })
}
pub open spec fn ex_ok(fuel: nat, input: Seq<char>, dirs: Seq<PathBuf>) -> bool {
    if path_is_dir(input) { dir_ok(fuel, dir_files(input), dir_files(input).len(), dirs) } else { whole_file(fuel, input, dirs).0 }
}
pub open spec fn ex_warn(fuel: nat, input: Seq<char>, dirs: Seq<PathBuf>) -> Seq<Report> {
    if path_is_dir(input) { dir_warn(fuel, dir_files(input), dir_files(input).len(), dirs) } else { whole_file(fuel, input, dirs).1.warn }
}
pub open spec fn ex_out(fuel: nat, input: Seq<char>, dirs: Seq<PathBuf>, out: Seq<NamedSchema>) -> bool {
    if path_is_dir(input) { dir_out(fuel, out, dir_files(input), dir_files(input).len(), dirs) } else { extracted(out, whole_file(fuel, input, dirs).1.reg) }
}
pub open spec fn out_dir(o: Option<Seq<char>>) -> Seq<char> { match o { Some(d) => d, None => "."@ } }
pub open spec fn pov(o: Option<PathBuf>) -> Option<Seq<char>> { match o { Some(d) => Some(d@), None => None } }
pub open spec fn ex_done(fuel: nat, input: Seq<char>, outdir: Option<Seq<char>>, dirs: Seq<PathBuf>, w0: WorldV, w1: WorldV, ok: bool) -> bool {
    if ex_ok(fuel, input, dirs) {
        exists|out: Seq<NamedSchema>| #[trigger] ex_out(fuel, input, dirs, out) && saved(out_dir(outdir), out, warned(w0, ex_warn(fuel, input, dirs)), w1, ok)
    } else { !ok && w1 == warned(w0, ex_warn(fuel, input, dirs)) }
}
//@fn run_idl2schemata
//@opt world
//@opt keep join
//@spec
    ensures
        forall|fuel: nat| fuel >= enough() ==> #[trigger] ex_done(fuel, input@, pov(outdir), import_dirs@, old(__w)@, final(__w)@, r is Ok),
//@start
    let ghost w0 = __w@;
    let ghost dirs = import_dirs@;
//@loop 0
    invariant
        __w@ == w0,
        it0.seq().len() == dirs.len(),
        forall|i: int| 0 <= i < dirs.len() ==> *(#[trigger] it0.seq()[i]) == dirs[i],
        builder.inner.import_dirs@ == dirs.take(it0.index() as int),
//@loop-end 0
    proof { assert(dirs.take(it0.index() as int + 1) =~= dirs.take(it0.index() as int).push(dirs[it0.index() as int])); }
//@loop-after 0
    proof { assert(builder.inner.import_dirs@ =~= dirs); }
//@loop 1
    invariant
        it1.seq() == w2,
        __w@ == (WorldV { err: w0.err + warn_text(w2, it1.index() as nat), ..w0 }),
//@loop-end 1
    proof { lemma_line(w0.err, warn_text(w2, it1.index() as nat), VDbg::gv(&w)); }
//@loop-before 1
    let ghost w2 = builder.inner.accumulated_warnings@;
    proof {
        assert forall|fuel: nat| fuel >= enough() implies !(#[trigger] ex_ok(fuel, input@, dirs)) && ex_warn(fuel, input@, dirs) == w2 by {
            assert(path_is_dir(input@) ==> dir_done(fuel, dir_files(input@), dirs, Err::<SchemataOutput, Report>(e), builder.inner));
        }
    }
//@loop 2
    invariant
        it2.seq().len() == schemata_output.warnings@.len(),
        forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == schemata_output.warnings@[i],
        __w@ == (WorldV { err: w0.err + warn_text(schemata_output.warnings@, it2.index() as nat), ..w0 }),
//@loop-end 2
    proof { lemma_line(w0.err, warn_text(schemata_output.warnings@, it2.index() as nat), VDbg::gv(&w)); }
//@loop-after 2
    let ghost w1 = __w@;
    proof { assert(w1 == warned(w0, schemata_output.warnings@)); }
    let ghost out = schemata_output.schemas@;
    proof {
        assert forall|fuel: nat| fuel >= enough() implies (#[trigger] ex_ok(fuel, input@, dirs)) && ex_warn(fuel, input@, dirs) == schemata_output.warnings@ && ex_out(fuel, input@, dirs, out) by {
            assert(path_is_dir(input@) ==> dir_done(fuel, dir_files(input@), dirs, Ok::<SchemataOutput, Report>(schemata_output), builder.inner));
            let run = whole_file(fuel, input@, dirs);
        }
        assert forall|x: Seq<char>| #[trigger] (Seq::<char>::empty() + x) == x by { assert(Seq::<char>::empty() + x =~= x); }
    }
//@loop 3
    invariant
        it3.seq().len() == out.len(),
        forall|i: int| 0 <= i < it3.seq().len() ==> *(#[trigger] it3.seq()[i]) == out[i],
        __w@ == (WorldV { dirs: w1.dirs.push(output_dir@), files: w1.files + files_of(output_dir@, out, it3.index() as nat), ..w1 }),
//@before Ok(())
    proof {
        assert(saved(out_dir(pov(outdir)), out, w1, __w@, true));
        assert forall|fuel: nat| fuel >= enough() implies #[trigger] ex_done(fuel, input@, pov(outdir), import_dirs@, w0, __w@, true) by { assert(ex_ok(fuel, input@, dirs)); }
    }
//@end

// ---------------------------------------------------------------------------
// The command: subcommand and arguments select what runs on what; refused
// arguments run nothing. (`help` and refused subcommands leave the process
// with nothing written; see `exit_fine`.)
// ---------------------------------------------------------------------------
pub open spec fn cmd_done(t: Seq<char>, s: Lx, w0: WorldV, w1: WorldV, ok: bool) -> bool {
    match cli_args(s, seq![], seq![]) {
        Args::Help => false,
        Args::Bad => !ok && w1 == w0,
        Args::Fine(dirs, pos) =>
            if t == "idl"@ {
                exists|ds: Seq<PathBuf>| #[trigger] paths(ds) == dirs && (forall|fuel: nat| fuel >= enough() ==>
                    idl_done(#[trigger] idl_run(fuel, nth(pos, 0), ds), idl_file_of(nth(pos, 0)), nth(pos, 1), w0, w1, ok))
            } else {
                if pos.len() == 0 { !ok && w1 == w0 } else {
                    exists|ds: Seq<PathBuf>| #[trigger] paths(ds) == dirs && (forall|fuel: nat| fuel >= enough() ==>
                        #[trigger] ex_done(fuel, pos[0], nth(pos, 1), ds, w0, w1, ok))
                }
            },
    }
}
pub open spec fn main_done(w0: WorldV, w1: WorldV, ok: bool) -> bool {
    let (st, s1) = lx_next(lx_env());
    match st {
        Step::Arg(Arg::Value(v)) => match os_text(v) {
            None => !ok && w1 == w0,
            Some(t) => (t == "idl"@ || t == "idl2schemata"@) && cmd_done(t, s1, w0, w1, ok),
        },
        Step::Arg(Arg::Short(c)) => (c == 'h' || c == 'V') && ok && w1 == (WorldV { out: w1.out, ..w0 }),
        Step::Arg(Arg::Long(n)) => (n@ == "help"@ || n@ == "version"@) && ok && w1 == (WorldV { out: w1.out, ..w0 }),
        _ => false,
    }
}
//@fn main
//@opt world
//@spec
    requires w_empty(old(__w)@),
    ensures main_done(old(__w)@, final(__w)@, r is Ok),
//@start
    let ghost w0 = __w@;
//@end
