//! Runs a schedule of threads that bind modules, each of which stops at gates (driver/pylib/vgate.py).
use crate::{apply, config, guarded, setup_python};
use pyo3::prelude::*;
use pyo3_bindgen_engine::Codegen;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::{mpsc, Mutex, OnceLock};
use std::time::Duration;

thread_local! {
    static ME: RefCell<Option<(String, usize, mpsc::Receiver<()>)>> = const { RefCell::new(None) };
}
static EVENTS: OnceLock<Mutex<mpsc::Sender<(usize, String)>>> = OnceLock::new();

fn tell(t: usize, what: &str) {
    EVENTS
        .get()
        .unwrap()
        .lock()
        .unwrap()
        .send((t, what.to_owned()))
        .unwrap();
}

fn one(call: &Value) -> Value {
    let cg = Codegen::new(config(&call["cfg"]));
    match apply(cg, call) {
        Err(e) => e,
        Ok(cg) => match guarded(|| cg.generate()) {
            Err(e) => e,
            Ok(_) => json!({"outcome": "ok"}),
        },
    }
}

pub fn run(job: &Value) -> Value {
    setup_python(job);
    let (tx, rx) = mpsc::channel();
    EVENTS.set(Mutex::new(tx)).ok();
    let text = |v: &Value| v.as_str().unwrap().to_owned();
    let gate = Python::with_gil(|py| {
        let stop = pyo3::types::PyCFunction::new_closure_bound(
            py,
            None,
            None,
            |args, _| -> PyResult<String> {
                let gate: String = args.get_item(0)?.extract()?;
                let who = ME
                    .with_borrow(|me| me.as_ref().map(|m| m.0.clone()))
                    .unwrap_or_default();
                if gate != "?" {
                    args.py().allow_threads(|| {
                        ME.with_borrow(|me| {
                            if let Some((_, t, go)) = me {
                                tell(*t, &gate);
                                let _ = go.recv();
                            }
                        })
                    });
                }
                Ok(who)
            },
        )?;
        let gate = py.import_bound("vgate")?;
        gate.setattr("stop", stop)?;
        let first = pyo3::types::PyDict::new_bound(py);
        for (k, v) in job["first"].as_object().unwrap() {
            first.set_item(k, text(v))?;
        }
        gate.call_method1("start", (first,))?;
        Ok::<_, PyErr>(gate.unbind())
    })
    .expect("harness: vgate");
    let mut running: HashMap<usize, mpsc::Sender<()>> = HashMap::new();
    let mut next: HashMap<usize, usize> = HashMap::new();
    let mut steps = vec![];
    for t in job["schedule"].as_array().unwrap() {
        let t = t.as_u64().unwrap() as usize;
        if let Some(go) = running.get(&t) {
            let _ = go.send(());
        } else {
            let k = next.entry(t).or_insert(0);
            let call = job["plan"][t - 1][*k].clone();
            *k += 1;
            let (go, wait) = mpsc::channel();
            running.insert(t, go);
            let who = format!("{t}{k}");
            std::thread::spawn(move || {
                ME.set(Some((who, t, wait)));
                let result = one(&call);
                tell(t, &format!("={result}"));
            });
        }
        let mut step = match rx.recv_timeout(Duration::from_secs(10)) {
            Err(_) => {
                steps.push(json!({"t": t, "ev": "hang"}));
                break;
            }
            Ok((who, what)) => match what.strip_prefix('=') {
                Some(result) => {
                    running.remove(&who);
                    let result: Value = serde_json::from_str(result).unwrap();
                    json!({"t": who, "ev": result["outcome"], "msg": result["msg"]})
                }
                None => json!({"t": who, "ev": what}),
            },
        };
        Python::with_gil(|py| {
            let dumps = py.import_bound("json").unwrap().getattr("dumps").unwrap();
            let state = gate.bind(py).call_method0("state").unwrap();
            let state: Value =
                serde_json::from_str(&dumps.call1((state,)).unwrap().extract::<String>().unwrap())
                    .unwrap();
            step.as_object_mut()
                .unwrap()
                .extend(state.as_object().unwrap().clone());
        });
        steps.push(step);
    }
    json!({"id": job["id"], "outcome": "ok", "steps": [], "hist": steps})
}
