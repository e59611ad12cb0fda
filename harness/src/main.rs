//! `vh`: runs the real `pyo3_bindgen_engine` on one job and projects what it did onto the
//! vocabulary of the TLA+ specification (see /verif/spec).
mod project;
mod streams;

use pyo3::types::PyAnyMethods;
use pyo3_bindgen_engine::{Codegen, Config};
use serde_json::{json, Value};

pub fn config(v: &Value) -> Config {
    let mut cfg = Config::default();
    if let Some(map) = v.as_object() {
        for (k, x) in map {
            let b = x.as_bool();
            match k.as_str() {
                "traverse_submodules" => cfg.traverse_submodules = b.unwrap(),
                "generate_preludes" => cfg.generate_preludes = b.unwrap(),
                "generate_imports" => cfg.generate_imports = b.unwrap(),
                "generate_classes" => cfg.generate_classes = b.unwrap(),
                "generate_type_vars" => cfg.generate_type_vars = b.unwrap(),
                "generate_functions" => cfg.generate_functions = b.unwrap(),
                "generate_properties" => cfg.generate_properties = b.unwrap(),
                "generate_docs" => cfg.generate_docs = b.unwrap(),
                "include_private" => cfg.include_private = b.unwrap(),
                "generate_dependencies" => cfg.generate_dependencies = b.unwrap(),
                "suppress_python_stdout" => cfg.suppress_python_stdout = b.unwrap(),
                "suppress_python_stderr" => cfg.suppress_python_stderr = b.unwrap(),
                "blocklist_names" => {
                    cfg.blocklist_names = x
                        .as_array()
                        .unwrap()
                        .iter()
                        .map(|s| s.as_str().unwrap().to_owned())
                        .collect()
                }
                other => panic!("harness: unknown config key {other}"),
            }
        }
    }
    cfg
}

pub fn setup_python(job: &Value) {
    pyo3::Python::with_gil(|py| {
        let sys = py.import_bound("sys").unwrap();
        let path = sys.getattr("path").unwrap();
        for (i, p) in job["syspath"].as_array().into_iter().flatten().enumerate() {
            path.call_method1("insert", (i, p.as_str().unwrap()))
                .unwrap();
        }
        sys.setattr("dont_write_bytecode", true).unwrap();
    });
}

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_owned()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_owned()
    }
}

/// Runs `f`, mapping Ok/Err/panic to an outcome.
pub fn guarded<T>(
    f: impl FnOnce() -> Result<T, pyo3_bindgen_engine::PyBindgenError>,
) -> Result<T, Value> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(json!({"outcome": "err", "msg": e.to_string()})),
        Err(p) => Err(json!({"outcome": "panic", "msg": panic_text(p)})),
    }
}

fn strs(v: &Value) -> Vec<&str> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_str().unwrap())
        .collect()
}

pub fn apply(cg: Codegen, call: &Value) -> Result<Codegen, Value> {
    let op = call["op"].as_str().unwrap();
    match op {
        "module_name" => guarded(|| cg.module_name(call["name"].as_str().unwrap())),
        "module_names" => guarded(|| cg.module_names(strs(&call["names"]))),
        "module" => guarded(|| {
            pyo3::Python::with_gil(|py| {
                let m = py.import_bound(call["name"].as_str().unwrap())?;
                cg.module(&m)
            })
        }),
        "modules" => guarded(|| {
            pyo3::Python::with_gil(|py| {
                let ms = strs(&call["names"])
                    .into_iter()
                    .map(|n| py.import_bound(n))
                    .collect::<pyo3::PyResult<Vec<_>>>()?;
                cg.modules(&ms)
            })
        }),
        "module_from_str" => guarded(|| {
            cg.module_from_str(
                call["code"].as_str().unwrap(),
                call["name"].as_str().unwrap(),
            )
        }),
        other => panic!("harness: unknown op {other}"),
    }
}

const SNAPSHOT: &str = r#"
import sys
def view(v, deep):
    d = {"id": id(v)}
    if deep:
        for k in ("__doc__", "__name__", "__module__", "__qualname__", "__defaults__", "__kwdefaults__"):
            d[k] = repr(getattr(v, k, None))
        d["ann"] = {k: id(x) for k, x in (getattr(v, "__annotations__", None) or {}).items()}
        if isinstance(v, type):
            d["dict"] = {k: view(x, not isinstance(x, type)) for k, x in dict(v.__dict__).items() if k not in ("__weakref__", "__dict__", "__annotations__")}
    elif isinstance(v, (list, tuple, dict, set)):
        d["repr"] = repr(v)
    return d
def snapshot(names):
    s = {"path": list(sys.path), "out": id(sys.stdout), "err": id(sys.stderr)}
    for m in names:
        if m in sys.modules:
            s[m] = {k: view(v, callable(v)) for k, v in dict(vars(sys.modules[m])).items() if k != "__builtins__"}
    return s
def changes(a, b, names):
    bad = []
    for k, x in a.items():
        y = b.get(k)
        if k not in names:
            if x != y: bad.append(f"sys.{k}")
        elif y is None:
            bad.append(f"{k} is gone")
        else:
            for n in x:
                if x[n] != y.get(n): bad.append(f"{k}.{n} changed")
            for n in y:
                if n not in x and f"{k}.{n}" not in sys.modules: bad.append(f"{k}.{n} appeared")
    return sorted(bad)
"#;

/// Runs the job twice: the bindings are the same, also those of a clone, and the modules in
/// `watch` are as they were.
fn run_twice(job: &Value) -> Value {
    setup_python(job);
    let (scope, before) = pyo3::Python::with_gil(|py| {
        use pyo3::types::PyDict;
        for m in job["pre"].as_array().into_iter().flatten() {
            let _ = py.import_bound(m.as_str().unwrap());
        }
        for m in job["watch"].as_array().into_iter().flatten() {
            let _ = py.import_bound(m.as_str().unwrap());
        }
        let d = PyDict::new_bound(py);
        d.set_item("names", strs(&job["watch"])).unwrap();
        py.run_bound(SNAPSHOT, Some(&d), None).unwrap();
        let before = py
            .eval_bound("snapshot(names)", Some(&d), None)
            .unwrap()
            .unbind();
        (d.unbind(), before)
    });
    let mut plain = job.clone();
    plain["syspath"] = json!([]);
    plain["want_raw"] = json!(true);
    let first = run_job(&plain);
    let second = run_job(&plain);
    let mut out = first.clone();
    let changed = pyo3::Python::with_gil(|py| {
        let d = scope.bind(py);
        d.set_item("a", before).unwrap();
        py.eval_bound("changes(a, snapshot(names), names)", Some(d), None)
            .unwrap()
            .extract::<Vec<String>>()
            .unwrap()
    });
    out["changed"] = json!(changed);
    out["again"] = json!(
        first["facts"] == second["facts"]
            && first["steps"] == second["steps"]
            && first["outcome"] == second["outcome"]
    );
    out["again_text"] = json!(first["raw"] == second["raw"]);
    out
}

fn run_job(job: &Value) -> Value {
    setup_python(job);
    // Modules that somebody else imported before
    pyo3::Python::with_gil(|py| {
        for m in job["pre"].as_array().into_iter().flatten() {
            let _ = py.import_bound(m.as_str().unwrap());
        }
    });
    let mut cg = Codegen::new(config(&job["cfg"]));
    let mut out = json!({"id": job["id"]});
    let mut steps = vec![];
    for call in job["calls"].as_array().unwrap() {
        // A failed `add` consumes the builder; histories that go on after a failure keep a clone.
        let keep = cg.clone();
        match apply(cg, call) {
            Ok(next) => {
                steps.push(json!({"outcome": "ok"}));
                cg = next;
            }
            Err(e) => {
                steps.push(e);
                if job["stop_on_error"].as_bool().unwrap_or(false) {
                    out["steps"] = Value::Array(steps);
                    out["outcome"] = json!("add_failed");
                    return out;
                }
                cg = keep;
            }
        }
    }
    out["steps"] = Value::Array(steps);
    // Additional Python evaluated between parsing and generation (models time passing)
    if let Some(path) = job["build_to"].as_str() {
        match guarded(|| cg.clone().build(path)) {
            Ok(()) => out["build"] = json!({"outcome": "ok"}),
            Err(e) => out["build"] = e,
        }
    }
    let copy = job["watch"].is_array().then(|| cg.clone());
    match guarded(|| cg.generate()) {
        Err(e) => {
            out["outcome"] = e["outcome"].clone();
            out["msg"] = e["msg"].clone();
        }
        Ok(tokens) => {
            let text = tokens.to_string();
            match syn::parse_file(&text) {
                Err(e) => {
                    out["outcome"] = json!("unparsable");
                    out["msg"] = json!(e.to_string());
                    out["text"] = json!(text);
                }
                Ok(file) => {
                    out["outcome"] = json!("ok");
                    out["facts"] = json!(project::facts(&file));
                    out["fns"] = project::callables(&file);
                    if job["want_text"].as_bool().unwrap_or(false) {
                        out["text"] = json!(prettyplease::unparse(&file));
                    }
                    if job["want_raw"].as_bool().unwrap_or(false) {
                        out["raw"] = json!(text);
                    }
                }
            }
        }
    }
    if let Some(copy) = copy {
        let text = guarded(|| copy.generate())
            .map(|t| t.to_string())
            .unwrap_or_default();
        out["clone"] = json!(out["outcome"] != "ok" || json!(text) == out["raw"]);
    }
    if let Some(expr) = job["post_eval"].as_str() {
        out["post"] = pyo3::Python::with_gil(|py| match py.eval_bound(expr, None, None) {
            Ok(v) => json!(v.to_string()),
            Err(e) => json!(format!("!{e}")),
        });
    }
    out
}

fn batch(input: &str, output: &str) {
    use std::io::Write;
    pyo3::prepare_freethreaded_python();
    pyo3::Python::with_gil(|py| {
        for m in ["inspect", "pkgutil", "io", "typing", "functools"] {
            py.import_bound(m).unwrap();
        }
    });
    let text = std::fs::read_to_string(input).unwrap();
    let mut out = std::fs::File::create(output).unwrap();
    let tmp = format!("{output}.one");
    let mut crashes = 0;
    for line in text.lines().filter(|l| !l.is_empty()) {
        // do not wait a minute for each of many jobs that hang
        let patience = if crashes < 3 { 60 } else { 5 };
        let job: Value = serde_json::from_str(line).unwrap();
        let _ = std::fs::remove_file(&tmp);
        let pid = pyo3::Python::with_gil(|_py| unsafe {
            pyo3::ffi::PyOS_BeforeFork();
            let pid = libc::fork();
            if pid == 0 {
                pyo3::ffi::PyOS_AfterFork_Child();
            } else {
                pyo3::ffi::PyOS_AfterFork_Parent();
            }
            pid
        });
        assert!(pid >= 0, "harness: fork failed");
        if pid == 0 {
            unsafe { libc::alarm(job["timeout"].as_u64().unwrap_or(patience) as u32) };
            let result = if job["schedule"].is_array() {
                streams::run(&job)
            } else if job["watch"].is_array() {
                run_twice(&job)
            } else {
                run_job(&job)
            };
            std::fs::write(&tmp, serde_json::to_vec(&result).unwrap()).unwrap();
            unsafe { libc::_exit(0) };
        }
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        let result = std::fs::read(&tmp)
            .ok()
            .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
            .unwrap_or_else(|| json!({"id": job["id"], "outcome": "crash", "msg": format!("wait status {status}")}));
        crashes += (result["outcome"] == "crash") as u32;
        writeln!(out, "{result}").unwrap();
    }
    let _ = std::fs::remove_file(&tmp);
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        // vh job IN.json OUT.json
        "job" => {
            let job: Value = serde_json::from_slice(&std::fs::read(&args[2]).unwrap()).unwrap();
            let out = run_job(&job);
            std::fs::write(&args[3], serde_json::to_vec(&out).unwrap()).unwrap();
        }
        // vh batch JOBS.ndjson OUT.ndjson: every job runs in a child of its own, forked after the
        // interpreter (but none of the job's modules) was started
        "batch" => batch(&args[2], &args[3]),
        // vh facts FILE.rs OUT.json (facts of bindings produced by another route)
        "facts" => {
            let text = std::fs::read_to_string(&args[2]).unwrap();
            let out = match syn::parse_file(&text) {
                Ok(f) => json!({"outcome": "ok", "facts": project::facts(&f)}),
                Err(e) => json!({"outcome": "unparsable", "msg": e.to_string()}),
            };
            std::fs::write(&args[3], serde_json::to_vec(&out).unwrap()).unwrap();
        }
        // vh build OUT MODULE...: what a build script does
        "build" => {
            let r = guarded(|| {
                Codegen::default()
                    .module_names(args[3..].iter().map(String::as_str).collect::<Vec<_>>())?
                    .build(&args[2])
            });
            if let Err(e) = r {
                eprintln!("{e}");
                std::process::exit(1);
            }
        }
        // vh same FILE.rs OUT.json: which pairs of modules a<i> and b<i> have the same tokens
        "same" => {
            use quote::ToTokens;
            let file = syn::parse_file(&std::fs::read_to_string(&args[2]).unwrap()).unwrap();
            let mut mods = std::collections::BTreeMap::new();
            for item in &file.items {
                if let syn::Item::Mod(m) = item {
                    let content = m
                        .content
                        .iter()
                        .flat_map(|c| &c.1)
                        .map(|i| i.to_token_stream().to_string());
                    mods.insert(m.ident.to_string(), content.collect::<Vec<_>>().join("\n"));
                }
            }
            let out: Vec<Value> = mods
                .iter()
                .filter_map(|(n, text)| {
                    let other = mods.get(&format!("b{}", n.strip_prefix('a')?))?;
                    Some(json!({"name": n, "same": text == other, "size": text.len(), "macro": text, "direct": other}))
                })
                .collect();
            std::fs::write(&args[3], json!(out).to_string()).unwrap();
        }
        other => panic!("unknown subcommand {other}"),
    }
}
