//! Runs scripts of steps, each in a process of its own whose interpreter is fresh.
pub use pyo3::prelude::*;
pub use pyo3::types::*;
use std::collections::{HashMap, HashSet};

pub struct Cx {
    pub objs: Vec<Py<PyAny>>,
}

pub type StepFn = for<'py> fn(Python<'py>, &mut Cx) -> PyResult<String>;

/// Value of a Python expression
pub fn ev<'py>(py: Python<'py>, text: &str) -> PyResult<Bound<'py, PyAny>> {
    ev_with(py, &[], text)
}

/// Value of a Python expression that may refer to the objects as o1, o2, ...
pub fn ev_with<'py>(py: Python<'py>, objs: &[Py<PyAny>], text: &str) -> PyResult<Bound<'py, PyAny>> {
    let d = PyDict::new_bound(py);
    for (i, o) in objs.iter().enumerate() {
        d.set_item(format!("o{}", i + 1), o.bind(py))?;
    }
    for m in ["datetime", "pathlib", "ipaddress"] {
        if text.contains(m) {
            d.set_item(m, py.import_bound(m)?)?;
        }
    }
    py.eval_bound(text, Some(&d), None)
}

pub fn poke(py: Python<'_>, m: &str, class: &str, name: &str, value: &str) -> PyResult<String> {
    let mut o = py.import_bound("importlib")?.call_method1("import_module", (m,))?;
    if !class.is_empty() {
        o = o.getattr(class)?;
    }
    o.setattr(name, ev(py, value)?)?;
    Ok("()".into())
}

pub fn canon(o: &Bound<'_, PyAny>) -> String {
    match o.py().import_bound("vlog").and_then(|m| m.call_method1("canon", (o,))).and_then(|s| s.extract()) {
        Ok(s) => s,
        Err(e) => format!("<cannot show: {e}>"),
    }
}

/// The value as Rust sees it
pub trait Show {
    fn show(&self, py: Python<'_>) -> String;
}
macro_rules! show_via_python {
    ($($t:ty),*) => { $(impl Show for $t {
        fn show(&self, py: Python<'_>) -> String {
            canon(self.to_object(py).bind(py))
        }
    })* };
}
show_via_python!(i64, f64, bool, String, u8);
impl Show for () {
    fn show(&self, _: Python<'_>) -> String {
        "()".into()
    }
}
impl<T> Show for Bound<'_, T> {
    fn show(&self, _: Python<'_>) -> String {
        canon(self.as_any())
    }
}
impl Show for std::path::PathBuf {
    fn show(&self, py: Python<'_>) -> String {
        format!("PosixPath({})", canon(self.to_str().unwrap().to_object(py).bind(py)))
    }
}
impl Show for std::net::IpAddr {
    fn show(&self, _: Python<'_>) -> String {
        match self {
            Self::V4(a) => format!("IPv4Address('{a}')"),
            Self::V6(a) => format!("IPv6Address('{a}')"),
        }
    }
}
impl<T: Show> Show for Option<T> {
    fn show(&self, py: Python<'_>) -> String {
        self.as_ref().map_or("None".into(), |x| x.show(py))
    }
}
impl<T: Show> Show for Vec<T> {
    fn show(&self, py: Python<'_>) -> String {
        format!("[{}]", self.iter().map(|x| x.show(py)).collect::<Vec<_>>().join(", "))
    }
}
impl<T: Show> Show for HashSet<T> {
    fn show(&self, py: Python<'_>) -> String {
        let mut v = self.iter().map(|x| x.show(py)).collect::<Vec<_>>();
        v.sort();
        format!("{{{}}}", v.join(", "))
    }
}
impl<K: Show, T: Show> Show for HashMap<K, T> {
    fn show(&self, py: Python<'_>) -> String {
        let mut v = self
            .iter()
            .map(|(k, x)| format!("{}: {}", k.show(py), x.show(py)))
            .collect::<Vec<_>>();
        v.sort();
        format!("{{{}}}", v.join(", "))
    }
}
macro_rules! show_tuple {
    ($($n:ident $i:tt),*) => {
        impl<$($n: Show),*> Show for ($($n,)*) {
            fn show(&self, py: Python<'_>) -> String {
                format!("({})", [$(self.$i.show(py)),*].join(", "))
            }
        }
    };
}
show_tuple!(A 0, B 1);
show_tuple!(A 0, B 1, C 2);
show_tuple!(A 0, B 1, C 2, D 3);
show_tuple!(A 0, B 1, C 2, D 3, E 4);
show_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
show_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
show_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
show_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
show_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
show_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
show_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);

/// Arguments and how they look before the call
pub struct Args<'py>(Vec<(Bound<'py, PyAny>, String)>);
impl<'py> Args<'py> {
    pub fn of(args: &[&Bound<'py, PyAny>]) -> Self {
        Self(args.iter().map(|a| ((*a).clone(), canon(a))).collect())
    }
    /// What the call did to them
    pub fn changes(&self) -> String {
        self.0
            .iter()
            .map(|(a, before)| (before, canon(a)))
            .filter(|(before, now)| *before != now)
            .map(|(before, now)| format!(" !argument {before} became {now}"))
            .collect()
    }
}

fn run_step(py: Python<'_>, cx: &mut Cx, f: StepFn) -> serde_json::Value {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(py, cx)));
    let res = match r {
        Ok(Ok(s)) => format!("ok {s}"),
        Ok(Err(e)) => {
            let v = e.value_bound(py).clone();
            let last = py
                .import_bound("vlog")
                .and_then(|m| m.getattr("last"))
                .and_then(|l| l.get_item(0));
            match last {
                Ok(l) if l.is(&v) => format!("err Boom {v}"),
                _ => format!("err {}", v.get_type().name().map(|n| n.to_string()).unwrap_or_default()),
            }
        }
        Err(_) => "panic".to_owned(),
    };
    let log = py
        .import_bound("vlog")
        .and_then(|m| m.call_method0("take"))
        .and_then(|l| py.import_bound("json")?.call_method1("dumps", (l,))?.extract::<String>())
        .map(|s| serde_json::from_str::<serde_json::Value>(&s).unwrap())
        .unwrap_or_else(|e| serde_json::json!(format!("no log: {e}")));
    serde_json::json!({"log": log, "res": res})
}

/// main SCRIPTS OUT: a script is a line  {"id", "syspath", "steps": [number of step]}
pub fn run_scripts(steps: &[StepFn]) {
    use std::io::Write;
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let mut out = std::fs::File::create(&args[2]).unwrap();
    let tmp = format!("{}.one", args[2]);
    for line in text.lines() {
        let script: serde_json::Value = serde_json::from_str(line).unwrap();
        let _ = std::fs::remove_file(&tmp);
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0);
        if pid == 0 {
            unsafe { libc::alarm(60) };
            pyo3::prepare_freethreaded_python();
            let result = Python::with_gil(|py| {
                let sys = py.import_bound("sys").unwrap();
                sys.setattr("dont_write_bytecode", true).unwrap();
                for (i, p) in script["syspath"].as_array().unwrap().iter().enumerate() {
                    sys.getattr("path").unwrap().call_method1("insert", (i, p.as_str().unwrap())).unwrap();
                }
                let mut cx = Cx { objs: vec![] };
                let seen = script["steps"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|i| run_step(py, &mut cx, steps[i.as_u64().unwrap() as usize]))
                    .collect::<Vec<_>>();
                serde_json::json!({"id": script["id"], "seen": seen})
            });
            std::fs::write(&tmp, serde_json::to_vec(&result).unwrap()).unwrap();
            unsafe { libc::_exit(0) };
        }
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        let result = std::fs::read(&tmp)
            .ok()
            .and_then(|b| serde_json::from_slice::<serde_json::Value>(&b).ok())
            .unwrap_or_else(|| serde_json::json!({"id": script["id"], "crash": status}));
        writeln!(out, "{result}").unwrap();
    }
    let _ = std::fs::remove_file(&tmp);
}
