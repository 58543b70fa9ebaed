//! NDJSON in, NDJSON out, one line per job, in order; panics of the code under test are data.
use serde_json::Value;
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

thread_local! {
    static LAST: RefCell<String> = RefCell::new(String::new());
}

#[derive(Clone, Debug)]
pub enum Out<T> {
    Ok(T),
    Err(String),
    Panic(String),
}
impl<T> Out<T> {
    pub fn status(&self, ok: &str) -> String {
        match self {
            Out::Ok(_) => ok.to_string(),
            Out::Err(e) => format!("err:{e}"),
            Out::Panic(e) => format!("panic:{e}"),
        }
    }
}

/// Harness errors are panics whose message starts with "harness:"; they are re-raised.
pub fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Out<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(v)) => Out::Ok(v),
        Ok(Err(e)) => Out::Err(e),
        Err(_) => {
            let m = LAST.with(|l| l.borrow().clone());
            if m.contains("harness:") {
                panic!("{m}");
            }
            Out::Panic(m)
        }
    }
}

pub fn main_loop(job: fn(&Value) -> Value) {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = i.location().map(|l| format!("{}", l.file())).unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("{m} @ {loc}"));
    }));
    let lines: Vec<String> =
        std::io::stdin().lock().lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect();
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<Option<String>>> = Mutex::new(vec![None; lines.len()]);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    std::thread::scope(|s| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= lines.len() || bad.lock().unwrap().is_some() {
                        break;
                    }
                    let j: Value = serde_json::from_str(&lines[i]).expect("harness: json");
                    eprintln!("START {i}");
                    let r = catch_unwind(AssertUnwindSafe(|| job(&j)));
                    eprintln!("END {i}");
                    match r {
                        Ok(mut v) => {
                            v["id"] = j["id"].clone();
                            res.lock().unwrap()[i] = Some(v.to_string());
                        }
                        Err(_) => {
                            let m = LAST.with(|l| l.borrow().clone());
                            *bad.lock().unwrap() = Some(format!("job #{i} {}: {m}", j["id"]));
                        }
                    }
                })
                .unwrap();
        }
    });
    if let Some(b) = bad.into_inner().unwrap() {
        eprintln!("HARNESS ERROR {b}");
        std::process::exit(2);
    }
    let o = std::io::stdout();
    let mut o = o.lock();
    for r in res.into_inner().unwrap() {
        writeln!(o, "{}", r.unwrap()).unwrap();
    }
}

pub fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap_or_else(|| panic!("harness: array expected, got {v}"))
}
pub fn us(v: &Value) -> usize {
    v.as_u64().unwrap_or_else(|| panic!("harness: unsigned expected, got {v}")) as usize
}
pub fn i6(v: &Value) -> i64 {
    v.as_i64().unwrap_or_else(|| panic!("harness: integer expected, got {v}"))
}
pub fn st(v: &Value) -> &str {
    v.as_str().unwrap_or_else(|| panic!("harness: string expected, got {v}"))
}
