//! Drives ginko's library API and records what it does, one JSON line per document or scenario.
//! Nothing is judged here: the recorded lines are checked against the specification by TLC.
use ginko::dts::verif as ast;
use ginko::dts::{
    AnyDirective, Diagnostic, DiagnosticPrinter, FileType, HasSpan, ItemAtCursor, NodeItem,
    NodePayload, Position, Primary, Project, SeverityMap, Span,
};
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::os::unix::ffi::OsStrExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};


fn span(s: Span) -> Value {
    json!([s.start().line(), s.start().character(), s.end().line(), s.end().character()])
}
fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|b| json!(*b)).collect())
}
fn text(s: &str) -> Value {
    bytes(s.as_bytes())
}
fn comps(p: &Path) -> Value {
    Value::Array(
        p.components()
            .filter(|c| !matches!(c, std::path::Component::RootDir))
            .map(|c| bytes(c.as_os_str().as_bytes()))
            .collect(),
    )
}
fn n(k: &str, s: Value, v: Value, c: Vec<Value>) -> Value {
    json!({"k": k, "s": s, "v": v, "c": c})
}
fn nospan() -> Value {
    json!([0, 0, 0, 0])
}
fn limbs(v: u64, count: usize) -> Value {
    Value::Array((0..count).map(|i| json!((v >> (16 * i)) & 0xffff)).collect())
}
fn path_bytes(p: &ast::Path) -> Value {
    let mut s = String::new();
    for el in p.iter() {
        s.push('/');
        s.push_str(&el.name);
        if let Some(u) = &el.unit_address {
            s.push('@');
            s.push_str(u);
        }
    }
    text(&s)
}
fn name_bytes(nm: &ast::NodeName) -> Value {
    let mut s = nm.name.clone();
    if let Some(u) = &nm.unit_address {
        s.push('@');
        s.push_str(u);
    }
    text(&s)
}
fn reference(r: &ast::WithToken<ast::Reference>) -> Value {
    match r.item() {
        ast::Reference::Label(l) => n("reflabel", span(r.span()), text(l), vec![]),
        ast::Reference::Path(p) => n("refpath", span(r.span()), path_bytes(p), vec![]),
    }
}
fn value(v: &ast::PropertyValue) -> Value {
    match v {
        ast::PropertyValue::String(s) => n("str", span(v.span()), text(s.item()), vec![]),
        ast::PropertyValue::Reference(r) => reference(r),
        ast::PropertyValue::Cells(_, cells, _) => n(
            "cells",
            span(v.span()),
            json!([]),
            cells
                .iter()
                .map(|c| match c {
                    ast::Cell::Number(x) => {
                        n("num", span(x.span()), limbs(*x.item() as u64, 2), vec![])
                    }
                    ast::Cell::Reference(r) => reference(r),
                    ast::Cell::Expression => n("expr", nospan(), json!([]), vec![]),
                })
                .collect(),
        ),
        ast::PropertyValue::ByteStrings(_, bs, _) => n(
            "bytestrings",
            span(v.span()),
            json!([]),
            bs.iter()
                .map(|b| n("bytes", span(b.span()), bytes(b.item()), vec![]))
                .collect(),
        ),
    }
}
fn label(l: &Option<ast::WithToken<String>>) -> Vec<Value> {
    l.iter()
        .map(|l| n("label", span(l.span()), text(l.item()), vec![]))
        .collect()
}
fn payload(p: &NodePayload) -> Vec<Value> {
    let mut out: Vec<Value> = p.items.iter().map(item).collect();
    out.push(n("end", span(p.end.span()), json!([]), vec![]));
    out
}
fn item(i: &NodeItem) -> Value {
    match i {
        NodeItem::Property(p) => {
            let mut c = label(&p.label);
            c.push(n("name", span(p.name.span()), text(p.name.item()), vec![]));
            c.extend(p.values.iter().map(value));
            c.push(n("end", span(p.end.span()), json!([]), vec![]));
            n("prop", span(p.span()), json!([]), c)
        }
        NodeItem::Node(nd) => n("node", span(nd.span()), json!([]), node(nd)),
        NodeItem::DeletedNode(t, nm) => n(
            "delnodeitem",
            span(t.span()),
            json!([]),
            vec![n("name", span(nm.span()), name_bytes(nm.item()), vec![])],
        ),
        NodeItem::DeletedProperty(t, nm) => n(
            "delpropitem",
            span(t.span()),
            json!([]),
            vec![n("name", span(nm.span()), text(nm.item()), vec![])],
        ),
    }
}
fn node(nd: &ginko::dts::Node) -> Vec<Value> {
    let mut c = label(&nd.label);
    if let Some(o) = &nd.omit_if_no_ref {
        c.push(n("omitmark", span(o.span()), json!([]), vec![]));
    }
    c.push(n("name", span(nd.name.span()), name_bytes(nd.name.item()), vec![]));
    c.extend(payload(&nd.payload));
    c
}
fn num64(x: &ast::WithToken<u64>) -> Value {
    n("num", span(x.span()), limbs(*x.item(), 4), vec![])
}
fn primary(p: &Primary) -> Value {
    match p {
        Primary::Directive(d) => match d {
            AnyDirective::DtsHeader(t) => n("dts-v1", span(t.span()), json!([]), vec![]),
            AnyDirective::Plugin(t) => n("plugin", span(t.span()), json!([]), vec![]),
            AnyDirective::Memreserve(m) => n("memreserve", nospan(), json!([]), mem(m)),
            AnyDirective::Include(i) => n(
                "include",
                span(i.span()),
                text(i.file_name.item()),
                vec![n("name", span(i.file_name.span()), text(i.file_name.item()), vec![])],
            ),
            AnyDirective::DeletedNode(t, r) => {
                n("delete-node", span(t.span()), json!([]), vec![reference(r)])
            }
            AnyDirective::OmitIfNoRef(t, r) => {
                n("omit-if-no-ref", span(t.span()), json!([]), vec![reference(r)])
            }
        },
        Primary::Root(nd) => n("root", span(nd.span()), json!([]), node(nd)),
        Primary::ReferencedNode(r) => {
            let mut c = vec![reference(&r.reference)];
            c.extend(payload(&r.payload));
            n("refnode", span(r.span()), json!([]), c)
        }
        Primary::CStyleInclude(s) => n("cinclude", nospan(), text(s), vec![]),
    }
}
fn mem(m: &ast::Memreserve) -> Vec<Value> {
    let (a, l) = m.numbers();
    vec![num64(a), num64(l)]
}
fn tree(f: &ast::DtsFile) -> Value {
    n("file", nospan(), json!([]), f.elements.iter().map(primary).collect())
}
fn notree() -> Value {
    n("none", nospan(), json!([]), vec![])
}

fn ascii(s: &str) -> String {
    s.chars()
        .map(|c| if (' '..='~').contains(&c) { c } else { '?' })
        .collect()
}
fn diag(d: &Diagnostic, file: &Path) -> Value {
    let kind = format!("{:?}", d.kind);
    let mut chain: Vec<Value> = vec![];
    let m = match kind.as_str() {
        "IOError" => "io".to_string(),
        "CyclicDependencyError" => {
            if let Some(rest) = d.message.strip_prefix("Cyclic include: ") {
                chain = rest.split(" -> ").map(|p| comps(Path::new(p))).collect();
            }
            "cycle".to_string()
        }
        _ => ascii(&d.message),
    };
    json!({"k": kind, "s": span(d.span()), "m": m, "c": chain,
           "sev": format!("{}", d.severity(&SeverityMap::default())),
           "o": if &*d.source == file { 1 } else { 0 }})
}

/// What a cursor query gives: kind and text of the item; the target of a reference; its documentation
fn query(project: &Project, path: &Path, l: u32, c: u32) -> Value {
    let Some(it) = project.find_at_pos(path, &Position::new(l, c)) else {
        return json!({"k": "none", "v": [], "t": [], "d": []});
    };
    match it {
        ItemAtCursor::Property(p) => json!({"k": "property", "v": text(p.name.item()), "t": [], "d": []}),
        ItemAtCursor::Node(nd) => json!({"k": "node", "v": name_bytes(nd.name.item()), "t": [], "d": []}),
        ItemAtCursor::Label(l) => json!({"k": "label", "v": text(l.item()), "t": [], "d": []}),
        ItemAtCursor::Include(i) => {
            let t: Vec<Value> = i.path().iter().map(|f| json!({"s": [0, 0, 0, 0], "f": comps(f)})).collect();
            json!({"k": "include", "v": text(i.file_name.item()), "t": t, "d": []})
        }
        ItemAtCursor::Reference(r) => {
            let (k, v) = match r {
                ast::Reference::Label(l) => ("reflabel", text(l)),
                ast::Reference::Path(p) => ("refpath", path_bytes(p)),
            };
            let t: Vec<Value> = project
                .get_node_position(path, r)
                .iter()
                .map(|(s, f)| json!({"s": span(*s), "f": comps(f)}))
                .collect();
            let d: Vec<Value> = project.document_reference(path, r).iter().map(|s| text(s)).collect();
            json!({"k": k, "v": v, "t": t, "d": d})
        }
    }
}
fn queries(project: &Project, path: &Path, q: &Value) -> Vec<Value> {
    q.as_array()
        .map(|qs| {
            qs.iter()
                .map(|p| {
                    let (l, c) = (p[0].as_u64().unwrap() as u32, p[1].as_u64().unwrap() as u32);
                    let mut v = query(project, path, l, c);
                    v["l"] = json!(l);
                    v["c"] = json!(c);
                    v
                })
                .collect()
        })
        .unwrap_or_default()
}

fn file_type(s: &str, p: &Path) -> FileType {
    match s {
        "dts" => FileType::DtSource,
        "dtsi" => FileType::DtSourceInclude,
        "overlay" => FileType::DtSourceOverlay,
        "unknown" => FileType::Unknown,
        _ => FileType::from(p),
    }
}

fn render(source: &str, diags: &[Diagnostic]) -> String {
    let code = source.lines().map(|it| it.to_owned()).collect();
    format!(
        "{}",
        DiagnosticPrinter { code, diagnostics: diags, severity_map: SeverityMap::default() }
    )
}

// --- documents -------------------------------------------------------------------------

fn doc(input: &Value) -> Value {
    let path = PathBuf::from(input["name"].as_str().unwrap());
    let src = input["text"].as_str().unwrap().to_string();
    let mut project = Project::default();
    project.add_file_with_text(
        path.clone(),
        src.clone(),
        file_type(input["ft"].as_str().unwrap_or(""), &path),
    );
    let diags: Vec<Diagnostic> = project.get_diagnostics(&path).cloned().collect();
    let root = project.get_root(&path);
    let qs = queries(&project, &path, &input["q"]);
    let printed = root.map(|r| format!("{r}")).unwrap_or_default();
    let rendered = render(&src, &diags);
    json!({
        "ok": if root.is_some() { 1 } else { 0 },
        "tree": root.map(tree).unwrap_or_else(notree),
        "ds": diags.iter().map(|d| diag(d, &path)).collect::<Vec<_>>(),
        "q": qs,
        "pl": printed.len() + rendered.len(),
        "files": project.files().count(),
    })
}

fn empty_doc() -> Value {
    json!({"ok": 0, "tree": notree(), "ds": [], "q": [], "pl": 0, "files": 0})
}

// --- projects --------------------------------------------------------------------------

fn observe(project: &Project, qs: &Value) -> Value {
    let mut paths: Vec<PathBuf> = project.files().map(|p| p.to_path_buf()).collect();
    paths.sort();
    let files: Vec<Value> = paths
        .iter()
        .map(|p| {
            let f = project.get_file(p);
            json!({
                "p": comps(p),
                "ok": if project.get_root(p).is_some() { 1 } else { 0 },
                "has": if project.get_analysis(p).is_some() { 1 } else { 0 },
                "found": if f.is_some() { 1 } else { 0 },
                "ds": f.map(|_| project.get_diagnostics(p).map(|d| diag(d, p)).collect::<Vec<_>>()).unwrap_or_default(),
                "src": text(f.map(|f| f.source().as_str()).unwrap_or("")),
                "q": queries(project, p, qs),
            })
        })
        .collect();
    json!(files)
}

fn abs(root: &str, p: &str) -> PathBuf {
    if p.starts_with('/') { PathBuf::from(p) } else { Path::new(root).join(p) }
}

/// ops: {"o": "write"|"bin"|"mkdir"|"rm"|"link"|"text"|"file"|"remove"|"inc", "p": path, "t": text, "ft": type, "l": list}
fn scenario(input: &Value, root: &str, cwd: &str) -> Value {
    let _ = std::fs::remove_dir_all(root);
    std::fs::create_dir_all(abs(root, cwd)).unwrap();
    std::env::set_current_dir(abs(root, cwd)).unwrap();
    let mut project = Project::default();
    let mut steps = vec![];
    let subst = |s: &str| s.replace("@ROOT@", root);
    for op in input["ops"].as_array().unwrap() {
        let (p, t) = (subst(op["p"].as_str().unwrap_or("")), subst(op["t"].as_str().unwrap_or("")));
        let (p, t) = (p.as_str(), t.as_str());
        let mut res = 1;
        match op["o"].as_str().unwrap() {
            "write" => std::fs::write(abs(root, p), t).unwrap(),
            "bin" => std::fs::write(abs(root, p), [0xffu8, 0xfe, 0x2f]).unwrap(),
            "mkdir" => std::fs::create_dir_all(abs(root, p)).unwrap(),
            "link" => std::os::unix::fs::symlink(t, abs(root, p)).unwrap(),
            "rm" => {
                let q = abs(root, p);
                if std::fs::symlink_metadata(&q).map(|m| m.is_dir()).unwrap_or(false) {
                    std::fs::remove_dir_all(q).unwrap()
                } else {
                    std::fs::remove_file(q).unwrap()
                }
            }
            "text" => {
                let q = abs(root, p);
                let ft = file_type(op["ft"].as_str().unwrap_or(""), &q);
                project.add_file_with_text(q, t.to_string(), ft)
            }
            "file" => res = if project.add_file(p.to_string()).is_ok() { 1 } else { 0 },
            "remove" => project.remove_file(&abs(root, p)),
            "inc" => project.set_include_paths(
                op["l"].as_array().unwrap().iter().map(|s| subst(s.as_str().unwrap())).collect(),
            ),
            other => panic!("unknown op {other}"),
        }
        steps.push(json!({"res": res, "files": observe(&project, &input["q"])}));
    }
    json!(steps)
}

fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "panic".into())
    })
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    let input = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap());
    let out = Arc::new(Mutex::new(std::fs::OpenOptions::new().create(true).append(true).open(&args[3]).unwrap()));
    let skip: usize = args[4].parse().unwrap();
    let limit_s: u64 = args[5].parse().unwrap();
    let root = args.get(6).cloned().unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    // A line that takes too long ends the process: the driver records that and goes on with the next line
    let progress = Arc::new(AtomicU64::new(0));
    let p2 = progress.clone();
    std::thread::spawn(move || {
        let (mut last, mut since) = (u64::MAX, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let now = p2.load(Ordering::SeqCst);
            if now != last {
                last = now;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() >= limit_s {
                std::process::exit(42);
            }
        }
    });
    let worker = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            for line in input.lines().skip(skip) {
                let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
                let mut o = match mode.as_str() {
                    "docs" => {
                        let mut o = match guarded(|| doc(&v)) {
                            Ok(mut o) => {
                                o["p"] = json!(0);
                                o
                            }
                            Err(m) => {
                                let mut o = empty_doc();
                                o["p"] = json!(1);
                                o["pm"] = json!(ascii(&m));
                                o
                            }
                        };
                        o["t"] = text(v["text"].as_str().unwrap());
                        o["f"] = comps(Path::new(v["name"].as_str().unwrap()));
                        o["g"] = v.get("grp").cloned().unwrap_or(json!(-1));
                        o
                    }
                    _ => {
                        let cwd = v["cwd"].as_str().unwrap_or("").to_string();
                        let reps = v["reps"].as_u64().unwrap_or(1);
                        let mut runs: Vec<Value> = vec![];
                        let (mut p, mut pm) = (0, String::new());
                        for _ in 0..reps {
                            match guarded(|| scenario(&v, &root, &cwd)) {
                                Ok(r) => {
                                    if !runs.contains(&r) {
                                        runs.push(r)
                                    }
                                }
                                Err(m) => {
                                    p = 1;
                                    pm = ascii(&m);
                                }
                            }
                        }
                        json!({"p": p, "pm": pm, "runs": runs, "root": root})
                    }
                };
                o["id"] = v["id"].clone();
                let mut f = out.lock().unwrap();
                writeln!(f, "{o}").unwrap();
                progress.fetch_add(1, Ordering::SeqCst);
            }
        })
        .unwrap();
    if worker.join().is_err() {
        std::process::exit(43);
    }
}
