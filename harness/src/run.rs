//! Compiling through the public API, and the bookkeeping of one case.
use crate::rng::Rng;
use miette::Diagnostic;
use serde_json::Value;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::{Path, PathBuf};

pub type Files = Vec<(String, String)>;

pub struct Ctx {
    pub dir: PathBuf,
    pub bin: Option<PathBuf>,
    pub thorough: bool,
}
#[derive(Default)]
pub struct Outcome {
    pub files: Files,
    /// Did the case exercise what its property is about?
    pub nontrivial: bool,
    pub fails: Vec<String>,
    pub note: String,
}
impl Outcome {
    pub fn fail(&mut self, s: impl Into<String>) {
        let mut s: String = s.into();
        if s.len() > 4000 {
            let mut n = 4000;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
        }
        self.fails.push(s);
    }
}
pub enum Res {
    Ok { json: Value, warnings: Vec<String> },
    Err { text: String, warnings: Vec<String>, bad_spans: Vec<String> },
    Panic(String),
}
impl Res {
    #[allow(dead_code)]
    pub fn err(&self) -> Option<&str> {
        match self {
            Res::Err { text, .. } => Some(text),
            _ => None,
        }
    }
}

fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}
/// Everything a diagnostic says, without layout.
pub fn message(r: &miette::Report) -> String {
    let d: &dyn Diagnostic = r.as_ref();
    let mut s = String::new();
    say(d, &mut s);
    for c in r.chain().skip(1) {
        s.push_str(" | ");
        s.push_str(&c.to_string());
    }
    s
}
fn say(d: &dyn Diagnostic, s: &mut String) {
    s.push_str(&d.to_string());
    if let Some(h) = d.help() {
        s.push_str(&format!(" [help: {h}]"));
    }
    for l in d.labels().into_iter().flatten() {
        s.push_str(&format!(" [at {}+{}: {}]", l.offset(), l.len(), l.label().unwrap_or("")));
    }
    for r in d.related().into_iter().flatten() {
        s.push_str(" && ");
        say(r, s);
    }
    if let Some(x) = d.diagnostic_source() {
        s.push_str(" <- ");
        say(x, s);
    }
}
/// Labels that do not lie inside the text they point into. `texts` are the
/// sources of the case.
pub fn bad_spans(d: &dyn Diagnostic, texts: &[&str], out: &mut Vec<String>) {
    for l in d.labels().into_iter().flatten() {
        let (o, n) = (l.offset(), l.len());
        // One position past the end marks the end of the file.
        let ok = |t: &str| o == t.len() && n <= 1 || o + n <= t.len() && t.is_char_boundary(o) && t.is_char_boundary(o + n);
        match d.source_code() {
            None => out.push(format!("label at {o}+{n} without a source")),
            Some(sc) => {
                let span = *l.inner();
                match sc.read_span(&span, 0, 0) {
                    Err(e) => out.push(format!("label at {o}+{n} is outside its source: {e}")),
                    Ok(_) => {
                        // The whole text, to compare with the case's files.
                        let whole = sc
                            .read_span(&miette::SourceSpan::new(0.into(), 0), 0, usize::MAX / 2)
                            .ok()
                            .map(|c| String::from_utf8_lossy(c.data()).into_owned());
                        match whole {
                            Some(t) if texts.iter().any(|x| *x == t || x.starts_with(&t)) => {
                                let full = texts.iter().filter(|x| x.starts_with(&t)).any(|x| ok(x));
                                if !full {
                                    out.push(format!("label at {o}+{n} is out of bounds or inside a character"));
                                }
                            }
                            _ => out.push(format!("label at {o}+{n} points into a text that is none of the input files")),
                        }
                    }
                }
            }
        }
    }
    for r in d.related().into_iter().flatten() {
        bad_spans(r, texts, out);
    }
    if let Some(x) = d.diagnostic_source() {
        bad_spans(x, texts, out);
    }
}
pub fn write_files(dir: &Path, files: &Files) {
    let _ = std::fs::remove_dir_all(dir);
    for (p, t) in files {
        let f = dir.join(p);
        std::fs::create_dir_all(f.parent().unwrap()).unwrap();
        std::fs::write(f, t).unwrap();
    }
}
fn finish(r: miette::Result<(Value, Vec<miette::Report>)>, drained: Vec<miette::Report>, texts: &[&str], debug: bool) -> Res {
    match r {
        Ok((json, w)) => {
            if debug {
                for x in &w {
                    let _ = format!("{x:?}");
                }
            }
            let mut bad = vec![];
            for x in &w {
                bad_spans(x.as_ref(), texts, &mut bad);
            }
            let warnings: Vec<String> = w.iter().map(message).collect();
            if bad.is_empty() { Res::Ok { json, warnings } } else { Res::Err { text: "ok".into(), warnings, bad_spans: bad } }
        }
        Err(e) => {
            if debug {
                let _ = format!("{e:?}");
                for x in &drained {
                    let _ = format!("{x:?}");
                }
            }
            let mut bad = vec![];
            bad_spans(e.as_ref(), texts, &mut bad);
            for x in &drained {
                bad_spans(x.as_ref(), texts, &mut bad);
            }
            Res::Err { text: message(&e), warnings: drained.iter().map(message).collect(), bad_spans: bad }
        }
    }
}
pub struct Opts {
    pub debug: bool,
    pub import_dirs: Vec<PathBuf>,
    pub from_str: bool,
}
pub fn opts() -> Opts {
    Opts { debug: false, import_dirs: vec![], from_str: false }
}
/// Compiles files[0]; the files are on disk already unless `from_str`.
pub fn idl_with(b: &mut avdl::Idl, dir: &Path, files: &Files, o: &Opts) -> Res {
    let texts: Vec<&str> = files.iter().map(|f| f.1.as_str()).collect();
    let r = guard(|| {
        for d in &o.import_dirs {
            b.import_dir(d.clone());
        }
        let r = if o.from_str { b.convert_str(files[0].1.clone().leak()) } else { b.convert(dir.join(&files[0].0)) };
        let drained = if r.is_err() { b.drain_warnings() } else { vec![] };
        finish(r.map(|x| (x.json, x.warnings)), drained, &texts, o.debug)
    });
    r.unwrap_or_else(Res::Panic)
}
pub fn idl(ctx: &Ctx, files: &Files, o: &Opts) -> Res {
    if !o.from_str {
        write_files(&ctx.dir, files);
    }
    idl_with(&mut avdl::Idl::new(), &ctx.dir, files, o)
}
/// For idl2schemata the JSON is an array of [name, schema].
pub fn schemata_with(b: &mut avdl::Idl2Schemata, dir: &Path, files: &Files, o: &Opts) -> Res {
    let texts: Vec<&str> = files.iter().map(|f| f.1.as_str()).collect();
    let r = guard(|| {
        for d in &o.import_dirs {
            b.import_dir(d.clone());
        }
        let r = if o.from_str { b.extract_str(files[0].1.clone().leak()) } else { b.extract(dir.join(&files[0].0)) };
        let drained = if r.is_err() { b.drain_warnings() } else { vec![] };
        finish(
            r.map(|x| (Value::Array(x.schemas.into_iter().map(|s| Value::Array(vec![s.name.into(), s.schema])).collect()), x.warnings)),
            drained,
            &texts,
            o.debug,
        )
    });
    r.unwrap_or_else(Res::Panic)
}
pub fn schemata(ctx: &Ctx, files: &Files, o: &Opts) -> Res {
    if !o.from_str {
        write_files(&ctx.dir, files);
    }
    schemata_with(&mut avdl::Idl2Schemata::new(), &ctx.dir, files, o)
}
pub fn hash(files: &Files) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for (p, t) in files {
        for b in p.bytes().chain([0]).chain(t.bytes()).chain([1]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}
#[allow(dead_code)]
pub fn pick_files(r: &mut Rng, files: &Files) -> usize {
    r.below(files.len())
}
