//! One runner per property: a random case from (property, seed, index).
use crate::canon;
use crate::generate::*;
use crate::model::*;
use crate::negative;
use crate::print::*;
use crate::rng::Rng;
use crate::run::*;

pub const ALL: [&str; 19] =
    ["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19"];

pub fn stream(prop: &str, idx: u64) -> u64 {
    let p: u64 = prop[1..].parse().unwrap();
    p.wrapping_mul(1_000_003).wrapping_add(idx.wrapping_mul(101))
}
pub fn run(prop: &str, seed: u64, idx: u64, ctx: &Ctx) -> Outcome {
    let mut r = Rng::new(seed, stream(prop, idx));
    let mut o = Outcome::default();
    let r = &mut r;
    let multi = |k: Knobs, json: usize| Knobs { files: (1, 4), json_files: json, back_imports: 20, ..k };
    match prop {
        "P01" => {
            let k = Knobs { refs: 65, foreign_ns: 45, decls: (2, 8), props: 5, docs: 3, ..BASE };
            let k = if idx % 2 == 0 { k } else { multi(k, 40) };
            model(r, k, PLAIN, ctx, &["missing-type", "extra-type", "type-order", "reference", "namespace"], &mut o);
        }
        "P02" => {
            let k = match idx % 4 {
                0 => BASE,
                1 => Knobs { decls: (4, 10), fields: (2, 8), ..BASE },
                2 => multi(BASE, 40),
                _ => Knobs { schema_mode: 100, ..BASE },
            };
            model(r, k, WILD, ctx, &["*"], &mut o);
        }
        "P03" => match idx % 3 {
            0 => {
                let k = multi(Knobs { refs: 75, foreign_ns: 60, props: 4, docs: 2, ..BASE }, 40);
                model(r, k, PLAIN, ctx, &["missing-type", "reference", "type", "message", "namespace"], &mut o);
            }
            _ => negative::undefined(r, idx, ctx, &mut o),
        },
        "P04" => match idx % 4 {
            0 => {
                let k = Knobs { fields: (1, 7), unions: 40, ..BASE };
                model(r, k, PLAIN, ctx, &["symbols", "fields", "type", "missing-type", "message"], &mut o);
            }
            _ => negative::ill_formed(r, idx, ctx, &mut o),
        },
        "P05" => match idx % 4 {
            0 => {
                let k = Knobs { defaults: 85, fields: (1, 6), ..BASE };
                model(r, k, WILD, ctx, &["default"], &mut o);
            }
            _ => negative::defaults(r, idx, ctx, &mut o),
        },
        "P06" => {
            let k = Knobs { nullable: 80, defaults: 60, unions: 8, fields: (1, 6), ..BASE };
            let k = if idx % 4 == 3 { multi(k, 20) } else { k };
            model(r, k, PLAIN, ctx, &["nullable-order", "type", "default"], &mut o);
        }
        "P07" => match idx % 3 {
            0 => {
                let k = Knobs { props: 70, defaults: 70, weird_strings: 60, docs: 0, messages: (0, 1), ..BASE };
                model(r, k, WILD, ctx, &["props", "default", "symbols", "logical"], &mut o);
            }
            1 => negative::literals(r, ctx, &mut o),
            _ => negative::bad_literals(r, ctx, &mut o),
        },
        "P08" => {
            let k = Knobs { foreign_ns: 75, refs: 60, aliases: 40, docs: 2, props: 4, schema_mode: 25, ..BASE };
            let k = if idx % 2 == 0 { k } else { multi(k, 30) };
            model(r, k, WILD, ctx, &["namespace", "missing-type", "extra-type", "reference", "aliases"], &mut o);
        }
        "P09" => match idx % 3 {
            2 => negative::annotations(r, idx, ctx, &mut o),
            _ => {
                let k = Knobs { props: 65, aliases: 45, logical: 25, ..BASE };
                model(r, k, WILD, ctx, &["props", "aliases", "order", "logical", "symbols", "fields", "kind", "warnings"], &mut o);
            }
        },
        "P10" => match idx % 4 {
            3 => negative::json_imports(r, ctx, &mut o),
            _ => {
                let k = Knobs { files: (2, 4), json_files: 100, props: 30, aliases: 25, docs: 25, logical: 25, ..BASE };
                model(r, k, WILD, ctx, &["*"], &mut o);
            }
        },
        "P11" => match idx % 3 {
            2 => negative::import_dirs(r, ctx, &mut o),
            _ => {
                let k = Knobs { files: (2, 6), json_files: 25, back_imports: 60, decls: (0, 3), props: 4, docs: 4, messages: (0, 3), ..BASE };
                model(r, k, PLAIN, ctx, &["missing-type", "extra-type", "type-order", "message", "reference"], &mut o);
            }
        },
        "P12" => schemata_model(r, idx, ctx, &mut o),
        "P13" => negative::fuzz(r, idx, ctx, &mut o),
        "P14" => {
            let k = Knobs { docs: 70, props: 10, fields: (1, 5), ..BASE };
            let k = if idx % 4 == 3 { multi(k, 20) } else { k };
            let st = Style { orphans: r.below(4), ..WILD };
            model(r, k, st, ctx, &["doc", "warnings"], &mut o);
        }
        "P15" => negative::determinism(r, idx, ctx, &mut o),
        "P16" => match idx % 2 {
            0 => {
                let k = Knobs { logical: 75, props: 25, nullable: 25, ..BASE };
                let k = if idx % 4 == 2 { multi(k, 60) } else { k };
                model(r, k, WILD, ctx, &["logical", "props", "type"], &mut o);
            }
            _ => negative::logical(r, ctx, &mut o),
        },
        "P17" => match idx % 3 {
            2 => negative::messages(r, ctx, &mut o),
            _ => {
                let k = Knobs { messages: (2, 6), decls: (1, 4), fields: (0, 2), ..BASE };
                let k = if idx % 2 == 0 { k } else { multi(k, 30) };
                model(r, k, PLAIN, ctx, &["message", "props", "doc", "type", "reference", "nullable-order"], &mut o);
            }
        },
        "P18" => negative::suggestions(r, ctx, &mut o),
        "P19" => negative::cli(r, idx, ctx, &mut o),
        _ => panic!("unknown property {prop}"),
    }
    o
}

/// Warnings that annotations on unions (which are dropped) must give.
fn union_warnings(w: &World) -> usize {
    fn tya(t: &TyA) -> usize {
        let here = (matches!(t.ty, Ty::Union(_)) && !t.props.is_empty()) as usize;
        here + ty(&t.ty)
    }
    fn ty(t: &Ty) -> usize {
        match t {
            Ty::Array(x) | Ty::Map(x) => tya(x),
            Ty::Union(ts) => ts.iter().map(tya).sum(),
            Ty::Nullable(x) => ty(x),
            _ => 0,
        }
    }
    let mut n = 0;
    for f in &w.files {
        if let FileBody::Idl(i) = &f.body {
            if let Head::Schema { main: Some(m), .. } = &i.head {
                n += tya(m);
            }
            for it in &i.items {
                match it {
                    Item::Type(Decl { kind: Kind::Record { fields, .. }, .. }) => n += fields.iter().filter(|f| !f.joined).map(|f| tya(&f.ty)).sum::<usize>(),
                    Item::Msg(m) => {
                        n += m.params.iter().map(|f| tya(&f.ty)).sum::<usize>();
                        n += m.ret.as_ref().map_or(0, ty);
                    }
                    _ => {}
                }
            }
        }
    }
    n
}
pub fn model(r: &mut Rng, k: Knobs, st: Style, ctx: &Ctx, cats: &[&str], o: &mut Outcome) {
    let w = world(r, k);
    let (files, orphans) = render(&w, r, st);
    let res = idl(ctx, &files, &Opts { from_str: files.len() == 1 && r.pct(50), ..opts() });
    o.files = files;
    o.nontrivial = true;
    judge(&w, orphans, res, cats, o);
}
pub fn judge(w: &World, orphans: usize, res: Res, cats: &[&str], o: &mut Outcome) {
    match res {
        Res::Panic(p) => o.fail(format!("panic on a valid program: {p}")),
        Res::Err { text, bad_spans, .. } if text == "ok" => o.fail(format!("warning points outside its text: {bad_spans:?}")),
        Res::Err { text, .. } => o.fail(format!("a valid program is rejected: {text}")),
        Res::Ok { json, warnings } => {
            let all = cats.contains(&"*");
            if all || cats.contains(&"warnings") {
                let want = orphans + union_warnings(w);
                if warnings.len() != want {
                    o.fail(format!("{want} warnings expected ({orphans} doc comments that belong to nothing), got {warnings:?}"));
                }
            }
            match canon::read(&json) {
                Err(e) => o.fail(format!("the output is not a readable schema: {e}; output: {json}")),
                Ok(got) => {
                    for d in canon::diff(&expected(w), &got) {
                        if all || cats.contains(&d.cat) {
                            o.fail(format!("[{}] {}", d.cat, d.what));
                        }
                    }
                }
            }
        }
    }
}
/// Each extracted schema stands alone and equals the declaration.
fn schemata_model(r: &mut Rng, idx: u64, ctx: &Ctx, o: &mut Outcome) {
    let mut k = Knobs { refs: 55, decls: (1, 7), docs: 8, props: 8, ..BASE };
    if idx % 2 == 1 {
        k = Knobs { files: (1, 4), json_files: 40, back_imports: 20, ..k };
    }
    let mut w = world(r, k);
    // Bare declarations (no protocol, no `schema`) are allowed here.
    if r.pct(25)
        && let FileBody::Idl(f) = &mut w.files[0].body
        && let Head::Schema { main, .. } = &mut f.head
    {
        *main = None;
    }
    let (files, _) = render(&w, r, PLAIN);
    let res = schemata(ctx, &files, &Opts { from_str: files.len() == 1 && r.pct(50), ..opts() });
    o.files = files;
    let (all, _) = collect(&w);
    o.nontrivial = !all.is_empty();
    match res {
        Res::Panic(p) => o.fail(format!("panic on a valid program: {p}")),
        Res::Err { text, .. } => {
            let empty = all.is_empty() && matches!(&w.files[0].body, FileBody::Idl(Idl { head: Head::Schema { main: None, .. }, .. }));
            if !empty {
                o.fail(format!("a valid program is rejected: {text}"));
            }
        }
        Res::Ok { json, .. } => {
            let got: Vec<(String, &serde_json::Value)> =
                json.as_array().unwrap().iter().map(|p| (p[0].as_str().unwrap().to_string(), &p[1])).collect();
            let names: Vec<&str> = got.iter().map(|g| g.0.as_str()).collect();
            let want: Vec<&str> = all.iter().map(|d| simple_of(&d.full)).collect();
            if names != want {
                o.fail(format!("extracted schemas: want {want:?}, got {names:?}"));
                return;
            }
            for (d, (_, v)) in all.iter().zip(got) {
                let root = C::Named(d.full.clone());
                let (defs, _) = inline_order(&all, std::slice::from_ref(&root));
                let want = COut { defs, main: Some(root), ..COut::default() };
                match canon::Reader::new().bare(v) {
                    Err(e) => o.fail(format!("schema `{}` does not stand alone: {e}; {v}", d.full)),
                    Ok(g) => {
                        for x in canon::diff(&want, &g) {
                            o.fail(format!("schema `{}`: [{}] {}", d.full, x.cat, x.what));
                        }
                    }
                }
            }
        }
    }
}
