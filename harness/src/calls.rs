//! Many calls at once: batches of files and threads that format one after the
//! other, next to what each text gives in a process of its own.
use crate::{intern, mk_config};
use serde::{Deserialize, Serialize};
use sf_afmt::formatter::Formatter;
use std::collections::HashMap;
use std::io::Write;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::fs::OpenOptionsExt;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Barrier};
use std::time::Duration;

#[derive(Deserialize, Clone)]
pub struct Job {
    pub id: String,
    w: u32,
    i: u32,
    texts: Vec<String>,
    /// a batch: how each file exists ("file", "pipe", "missing", "dir", "bytes") and its text (from 1)
    #[serde(default)]
    files: Vec<(String, usize)>,
    /// order in which the pipes are filled (indices of files, from 1)
    #[serde(default)]
    order: Vec<usize>,
    #[serde(default)]
    pause_ms: u64,
    /// threads: texts (from 1) to format one after the other
    #[serde(default)]
    threads: Vec<Vec<usize>>,
    /// a session: configurations, Formatter objects (configuration, files) and steps
    #[serde(default)]
    confs: Vec<(u32, u32)>,
    #[serde(default)]
    formatters: Vec<(usize, Vec<String>)>,
    #[serde(default)]
    steps: Vec<Step>,
}

/// "one" thread text configuration | "edit" file text (0: removed) | "batch" formatter
#[derive(Deserialize, Serialize, Clone)]
struct Step(String, serde_json::Value, usize, usize);

#[derive(Serialize, Clone)]
struct Res {
    st: String,
    o: usize,
}

#[derive(Serialize)]
struct Rec {
    id: String,
    st: String,
    alone: Vec<Res>,
    files: Vec<(String, usize)>,
    order: Vec<usize>,
    res: Vec<Res>,
    threads: Vec<Vec<usize>>,
    thr: Vec<Vec<Res>>,
    steps: Vec<Step>,
    formatters: Vec<(usize, Vec<String>)>,
    /// what each text gives alone with each configuration
    table: Vec<Vec<Res>>,
    answers: Vec<Vec<Res>>,
}

pub fn failed(line: &str, how: &str) -> String {
    let j: Job = serde_json::from_str(line).unwrap();
    serde_json::to_string(&Rec {
        id: j.id,
        st: how.into(),
        alone: vec![],
        files: j.files,
        order: j.order,
        res: vec![],
        threads: j.threads,
        thr: vec![],
        steps: j.steps,
        formatters: j.formatters,
        table: vec![],
        answers: vec![],
    })
    .unwrap()
}

/// Formats standard input in this process; the parent reads status and output.
pub fn one(w: u32, i: u32) {
    std::panic::set_hook(Box::new(|_| {}));
    let src = std::io::read_to_string(std::io::stdin()).unwrap();
    let r = std::panic::catch_unwind(|| Formatter::format_one(&src, mk_config(w, i)));
    let mut e = std::io::stderr();
    match r {
        Ok(s) => {
            e.write_all(b"K").unwrap();
            e.write_all(s.as_bytes()).unwrap();
        }
        Err(_) => e.write_all(b"E").unwrap(),
    }
}

fn alone(src: &str, w: u32, i: u32) -> Result<String, String> {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["one", &w.to_string(), &i.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    ch.stdin.take().unwrap().write_all(src.as_bytes()).unwrap();
    let out = ch.wait_with_output().unwrap();
    let s = String::from_utf8_lossy(&out.stderr).to_string();
    match s.strip_prefix('K') {
        Some(s) => Ok(s.to_string()),
        None => Err("err".into()),
    }
}

#[derive(Default)]
pub struct State {
    cache: HashMap<(String, u32, u32), Result<String, String>>,
    n: usize,
}

pub fn run(line: &str, st: &mut State, scratch: &str) -> String {
    let j: Job = serde_json::from_str(line).unwrap();
    let mut outs: Vec<String> = vec![];
    let mut res = |r: Result<String, String>| match r {
        Ok(s) => Res { st: "ok".into(), o: intern(&mut outs, &s) },
        Err(_) => Res { st: "err".into(), o: 0 },
    };
    let mut by_itself = |t: &String, w: u32, i: u32| {
        let k = (t.clone(), w, i);
        if !st.cache.contains_key(&k) {
            let v = alone(t, w, i);
            st.cache.insert(k.clone(), v);
        }
        st.cache[&k].clone()
    };
    let al: Vec<Res> =
        if j.confs.is_empty() { j.texts.iter().map(|t| res(by_itself(t, j.w, j.i))).collect() } else { vec![] };
    let table: Vec<Vec<Res>> =
        j.texts.iter().map(|t| j.confs.iter().map(|c| res(by_itself(t, c.0, c.1))).collect()).collect();
    let mut answers: Vec<Vec<Res>> = vec![];
    if !j.steps.is_empty() {
        st.n += 1;
        let d = format!("{scratch}/s{}.{}", std::process::id(), st.n);
        std::fs::create_dir_all(&d).unwrap();
        answers = session(&j, &d).into_iter().map(|v| v.into_iter().map(&mut res).collect()).collect();
        std::fs::remove_dir_all(&d).unwrap();
    }

    let mut batch = vec![];
    let mut order = vec![];
    if !j.files.is_empty() {
        st.n += 1;
        let d = format!("{scratch}/b{}.{}", std::process::id(), st.n);
        std::fs::create_dir_all(&d).unwrap();
        let mut paths: Vec<String> = vec![];
        for (k, (kind, t)) in j.files.iter().enumerate() {
            let mut p = format!("{d}/f{k}.cls");
            match kind.as_str() {
                "file" => std::fs::write(&p, &j.texts[*t - 1]).unwrap(),
                "bytes" => std::fs::write(&p, b"class A { String s = '\xff\xfe'; }\n").unwrap(),
                "dir" => std::fs::create_dir(&p).unwrap(),
                // the file before this one, listed again
                "same" => p = paths[k - 1].clone(),
                "pipe" => {
                    let c = std::ffi::CString::new(std::path::Path::new(&p).as_os_str().as_bytes()).unwrap();
                    assert_eq!(unsafe { mkfifo(c.as_ptr(), 0o600) }, 0);
                }
                _ => {}
            }
            paths.push(p);
        }
        let f = Formatter::new(mk_config(j.w, j.i), paths.clone());
        let done = Arc::new(AtomicBool::new(false));
        let feeder = {
            let (j, paths, done) = (j.clone(), paths.clone(), done.clone());
            std::thread::spawn(move || feed(&j, &paths, &done))
        };
        let r = f.format();
        done.store(true, Ordering::SeqCst);
        order = feeder.join().unwrap();
        batch = r.into_iter().map(&mut res).collect();
        std::fs::remove_dir_all(&d).unwrap();
    }

    let mut thr = vec![];
    if !j.threads.is_empty() {
        let bar = Arc::new(Barrier::new(j.threads.len()));
        let hs: Vec<_> = j
            .threads
            .iter()
            .map(|l| {
                let (l, j, bar) = (l.clone(), j.clone(), bar.clone());
                std::thread::spawn(move || {
                    bar.wait();
                    l.iter()
                        .map(|t| {
                            std::panic::catch_unwind(|| Formatter::format_one(&j.texts[*t - 1], mk_config(j.w, j.i)))
                                .map_err(|_| String::new())
                        })
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        for h in hs {
            thr.push(h.join().unwrap().into_iter().map(&mut res).collect());
        }
    }
    serde_json::to_string(&Rec {
        id: j.id,
        st: "done".into(),
        alone: al,
        files: j.files,
        order,
        res: batch,
        threads: j.threads,
        thr,
        steps: j.steps,
        formatters: j.formatters,
        table,
        answers,
    })
    .unwrap()
}

/// A thread that formats what it is sent.
struct Caller {
    tx: std::sync::mpsc::Sender<(String, u32, u32)>,
    rx: std::sync::mpsc::Receiver<Result<String, String>>,
}

fn caller() -> Caller {
    let (tx, jobs) = std::sync::mpsc::channel::<(String, u32, u32)>();
    let (done, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        for (t, w, i) in jobs {
            let r = std::panic::catch_unwind(|| Formatter::format_one(&t, mk_config(w, i))).map_err(|_| String::new());
            done.send(r).unwrap();
        }
    });
    Caller { tx, rx }
}

/// The answers of the steps of a session, one list for each.
fn session(j: &Job, d: &str) -> Vec<Vec<Result<String, String>>> {
    let mut threads: HashMap<u64, Caller> = HashMap::new();
    let fs: Vec<Formatter> = j
        .formatters
        .iter()
        .map(|(c, files)| {
            let (w, i) = j.confs[*c - 1];
            Formatter::new(mk_config(w, i), files.iter().map(|f| format!("{d}/{f}.cls")).collect())
        })
        .collect();
    j.steps
        .iter()
        .map(|Step(op, a, b, c)| match op.as_str() {
            "one" => {
                let t = threads.entry(a.as_u64().unwrap()).or_insert_with(caller);
                let (w, i) = j.confs[*c - 1];
                t.tx.send((j.texts[*b - 1].clone(), w, i)).unwrap();
                vec![t.rx.recv().unwrap()]
            }
            "edit" => {
                let p = format!("{d}/{}.cls", a.as_str().unwrap());
                if *b == 0 {
                    std::fs::remove_file(p).unwrap();
                } else {
                    std::fs::write(p, &j.texts[*b - 1]).unwrap();
                }
                vec![]
            }
            _ => fs[*b - 1].format(),
        })
        .collect()
}

/// Fills the pipes in the order of the job, as far as there are readers for them.
/// Returns the order in which they were filled.
fn feed(j: &Job, paths: &[String], done: &AtomicBool) -> Vec<usize> {
    let mut left = j.order.clone();
    let mut filled = vec![];
    let mut waited = 0;
    while !left.is_empty() && !done.load(Ordering::SeqCst) {
        // the next one in order; any other only when that has no reader for a while
        let n = if waited > 400 { left.len() } else { 1 };
        let got = (0..n).find_map(|x| {
            std::fs::OpenOptions::new()
                .write(true)
                .custom_flags(O_NONBLOCK)
                .open(&paths[left[x] - 1])
                .ok()
                .map(|h| (x, h))
        });
        match got {
            Some((x, mut h)) => {
                let k = left.remove(x);
                let _ = h.write_all(j.texts[j.files[k - 1].1 - 1].as_bytes());
                drop(h);
                filled.push(k);
                waited = 0;
                std::thread::sleep(Duration::from_millis(j.pause_ms));
            }
            None => {
                waited += 1;
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }
    filled
}

const O_NONBLOCK: i32 = 0o4000;

extern "C" {
    fn mkfifo(p: *const std::os::raw::c_char, mode: u32) -> i32;
}
