//! Recorder: drives the real formatter (path dependency on /repo) and writes
//! what it observed as JSON lines.  It decides nothing: every verdict is taken
//! by TLC on the specifications in /verif/spec.
mod calls;

use serde::{Deserialize, Serialize};
use sf_afmt::formatter::{Config, Formatter};
use std::collections::HashMap;
use std::fs::File;
use std::io::{BufRead, BufReader, BufWriter, Write};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use tree_sitter::{Node, Parser, Tree};

/// A case: one or more formatting runs whose observations belong together.
#[derive(Deserialize, Clone)]
struct Case {
    id: String,
    #[serde(default = "empty")]
    m: serde_json::Value,
    runs: Vec<Run>,
    /// "it"/"ot": token facts of sources / outputs; "cm": comment characters;
    /// "again": also format every output once more
    #[serde(default)]
    want: Vec<String>,
}
#[derive(Deserialize, Clone)]
struct Run {
    n: String,
    src: String,
    #[serde(default = "d80")]
    w: u32,
    #[serde(default = "d2")]
    i: u32,
}
fn empty() -> serde_json::Value {
    serde_json::json!({})
}
fn d80() -> u32 {
    80
}
fn d2() -> u32 {
    2
}

/// kind, text, lower-cased text without white space, parent kind, row, column, end row, end column,
/// 1 if comment, index of the path of ancestor kinds, number of ancestors that
/// start before this token.  Columns in characters.
#[derive(Serialize)]
struct Tok(String, String, String, String, usize, usize, usize, usize, u8, usize, usize);

/// characters, leading spaces, 1 if it ends in white space, index of its content
#[derive(Serialize)]
struct Line(usize, usize, u8, usize);

#[derive(Serialize, Default)]
struct Text {
    err: bool,
    /// ends with exactly one newline
    nl1: bool,
    toks: Vec<Tok>,
    lines: Vec<Line>,
    cm: Vec<Vec<Vec<String>>>,
}

#[derive(Serialize)]
struct Obs {
    n: String,
    w: u32,
    i: u32,
    /// index of the source in texts (from 1)
    s: usize,
    st: String,
    /// index of the output in texts, 0 if none
    o: usize,
    #[serde(skip_serializing_if = "String::is_empty")]
    st2: String,
    /// index of the output of formatting the output again
    o2: usize,
    msg: String,
}

#[derive(Serialize, Default)]
struct Rec {
    id: String,
    m: serde_json::Value,
    runs: Vec<Obs>,
    texts: Vec<Text>,
    paths: Vec<Vec<String>>,
    /// the texts themselves (want "raw")
    #[serde(skip_serializing_if = "Vec::is_empty")]
    outs: Vec<String>,
}

fn parse(src: &str) -> Tree {
    let mut p = Parser::new();
    let l = tree_sitter_sfapex::apex::LANGUAGE;
    p.set_language(&l.into()).unwrap();
    p.parse(src, None).unwrap()
}

fn ccol(src: &str, byte: usize) -> usize {
    let ls = src[..byte].rfind('\n').map(|i| i + 1).unwrap_or(0);
    src[ls..byte].chars().count()
}

struct Intern {
    texts: Vec<String>,
    facts: Vec<Text>,
    lines: HashMap<String, usize>,
    paths: Vec<Vec<String>>,
    pathix: HashMap<Vec<String>, usize>,
    /// end of the last token of the text being walked
    pos: usize,
}

impl Intern {
    fn text(&mut self, s: &str, full: bool, cm: bool) -> usize {
        if let Some(i) = self.texts.iter().position(|x| x == s) {
            if full && self.facts[i].toks.is_empty() && !s.trim().is_empty() {
                self.facts[i] = self.facts_of(s, true, cm);
            }
            return i + 1;
        }
        let f = self.facts_of(s, full, cm);
        self.texts.push(s.to_string());
        self.facts.push(f);
        self.texts.len()
    }
    fn facts_of(&mut self, s: &str, full: bool, cm: bool) -> Text {
        let t = parse(s);
        let mut x = Text {
            err: t.root_node().has_error(),
            nl1: s.ends_with('\n') && !s.ends_with("\n\n"),
            ..Default::default()
        };
        if full {
            let mut path = Vec::new();
            self.pos = 0;
            self.walk(s, t.root_node(), "", &mut path, &mut Vec::new(), &mut x.toks);
            let body = s.strip_suffix('\n').unwrap_or(s);
            for l in body.split('\n') {
                let c = l.trim().to_string();
                let n = self.lines.len() + 1;
                let id = *self.lines.entry(c).or_insert(n);
                x.lines.push(Line(
                    l.chars().count(),
                    l.len() - l.trim_start_matches(' ').len(),
                    (l.trim_end() != l) as u8,
                    id,
                ));
            }
            if cm {
                for k in x.toks.iter().filter(|k| k.8 == 1) {
                    x.cm.push(
                        k.1.split('\n')
                            .map(|l| l.chars().map(|c| c.to_string()).collect())
                            .collect(),
                    );
                }
            }
        }
        x
    }
    fn walk(&mut self, src: &str, n: Node, pk: &str, path: &mut Vec<String>, at: &mut Vec<usize>, v: &mut Vec<Tok>) {
        if n.child_count() == 0 || n.is_extra() {
            let text = &src[n.start_byte()..n.end_byte()];
            if text.trim().is_empty() {
                return;
            }
            let np = self.paths.len() + 1;
            let pi = *self.pathix.entry(path.clone()).or_insert(np);
            if pi == np {
                self.paths.push(path.clone());
            }
            // text that belongs to no leaf of the tree
            let skipped = &src[self.pos..n.start_byte()];
            self.pos = n.end_byte();
            if !skipped.trim().is_empty() {
                let a = n.start_byte() - skipped.trim_start().len();
                let e = a + skipped.trim().len();
                let row = |b: usize| src[..b].matches('\n').count();
                v.push(Tok(
                    "hidden".into(),
                    src[a..e].to_string(),
                    src[a..e].to_lowercase().split_whitespace().collect::<String>(),
                    pk.to_string(),
                    row(a),
                    ccol(src, a),
                    row(e),
                    ccol(src, e),
                    0,
                    pi,
                    at.iter().filter(|&&x| x < a).count().max(1),
                ));
            }
            v.push(Tok(
                n.kind().to_string(),
                text.to_string(),
                text.to_lowercase().split_whitespace().collect::<String>(),
                pk.to_string(),
                n.start_position().row,
                ccol(src, n.start_byte()),
                n.end_position().row,
                ccol(src, n.end_byte()),
                n.is_extra() as u8,
                pi,
                at.iter().filter(|&&x| x < n.start_byte()).count().max(1),
            ));
            return;
        }
        path.push(n.kind().to_string());
        at.push(n.start_byte());
        let mut c = n.walk();
        for ch in n.children(&mut c) {
            self.walk(src, ch, n.kind(), path, at, v);
        }
        path.pop();
        at.pop();
    }
}

/// One formatting run in a thread of its own, as the tool does it.
fn fmt(src: &str, w: u32, i: u32) -> Result<String, String> {
    let s = src.to_string();
    // Config has no constructor for the indent size: go through its serde form.
    let h = std::thread::spawn(move || {
        std::panic::catch_unwind(move || Formatter::format_one(&s, mk_config(w, i)))
    });
    match h.join() {
        Ok(Ok(s)) => Ok(s),
        Ok(Err(e)) | Err(e) => Err(if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "panic".into()
        }),
    }
}

fn mk_config(w: u32, i: u32) -> Config {
    serde_json::from_value(serde_json::json!({"max_width": w, "indent_size": i})).unwrap()
}

fn run_job(j: &Case) -> Rec {
    let want = |s: &str| j.want.iter().any(|x| x == s);
    let (wi, wo, wa, cm) = (want("it"), want("ot"), want("again"), want("cm"));
    let mut it = Intern {
        texts: vec![],
        facts: vec![],
        lines: HashMap::new(),
        paths: vec![],
        pathix: HashMap::new(),
        pos: 0,
    };
    let mut rec = Rec { id: j.id.clone(), m: j.m.clone(), ..Default::default() };
    for r in &j.runs {
        let mut o = Obs {
            n: r.n.clone(),
            w: r.w,
            i: r.i,
            s: it.text(&r.src, wi, cm),
            st: String::new(),
            o: 0,
            st2: String::new(),
            o2: 0,
            msg: String::new(),
        };
        match fmt(&r.src, r.w, r.i) {
            Ok(out) => {
                o.st = "ok".into();
                o.o = it.text(&out, wo, cm);
                if wa {
                    match fmt(&out, r.w, r.i) {
                        Ok(out2) => {
                            o.st2 = "ok".into();
                            o.o2 = it.text(&out2, false, false);
                        }
                        Err(e) => {
                            o.st2 = "err".into();
                            o.msg = e.chars().take(200).collect();
                        }
                    }
                }
            }
            Err(e) => {
                o.st = "err".into();
                o.msg = e.chars().take(200).collect();
            }
        }
        rec.runs.push(o);
    }
    rec.texts = it.facts;
    if want("raw") {
        rec.outs = it.texts;
    }
    rec.paths = it.paths;
    rec
}

fn intern(v: &mut Vec<String>, s: &str) -> usize {
    if let Some(k) = v.iter().position(|x| x == s) {
        return k + 1;
    }
    v.push(s.to_string());
    v.len()
}

fn failed(line: &str, how: &str) -> String {
    let j: Case = serde_json::from_str(line).unwrap();
    let mut r = Rec { id: j.id.clone(), m: j.m.clone(), ..Default::default() };
    for x in &j.runs {
        r.texts.push(Text { err: parse(&x.src).root_node().has_error(), ..Default::default() });
        r.runs.push(Obs {
            n: x.n.clone(),
            w: x.w,
            i: x.i,
            s: r.texts.len(),
            st: how.into(),
            o: 0,
            st2: String::new(),
            o2: 0,
            msg: String::new(),
        });
    }
    serde_json::to_string(&r).unwrap()
}

/// A formatter that needs more than this is recorded as "abort".
fn limit_memory(bytes: u64) {
    extern "C" {
        fn setrlimit(what: i32, limit: *const [u64; 2]) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    assert_eq!(unsafe { setrlimit(RLIMIT_AS, &[bytes, bytes]) }, 0);
}

fn worker(inp: &str, out: &str, calls: bool, scratch: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    limit_memory(4 << 30);
    let mut state = calls::State::default();
    let f = BufReader::new(File::open(inp).unwrap());
    let mut o = BufWriter::new(
        std::fs::OpenOptions::new().create(true).append(true).open(out).unwrap(),
    );
    for line in f.lines() {
        let line = line.unwrap();
        if line.trim().is_empty() {
            continue;
        }
        let r = if calls {
            calls::run(&line, &mut state, scratch)
        } else {
            let j: Case = serde_json::from_str(&line).unwrap();
            serde_json::to_string(&run_job(&j)).unwrap()
        };
        o.write_all(r.as_bytes()).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
    }
}

fn read_lines(p: &str) -> Vec<String> {
    match File::open(p) {
        Ok(f) => BufReader::new(f).lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).collect(),
        Err(_) => vec![],
    }
}

/// rec jobs.jsonl out.jsonl nproc : supervised worker processes; a job that
/// kills its worker is recorded as "abort", one that stalls as "hang".
fn master(inp: &str, out: &str, nproc: usize, scratch: &str, calls: bool) {
    let all = read_lines(inp);
    let me = std::env::current_exe().unwrap();
    let chunks: Vec<Vec<String>> = {
        let mut v = vec![Vec::new(); nproc];
        let per = all.len().div_ceil(nproc).max(1);
        for (i, l) in all.iter().enumerate() {
            v[i / per].push(l.clone());
        }
        v
    };
    let hs: Vec<_> = chunks
        .into_iter()
        .enumerate()
        .map(|(ci, chunk)| {
            let me = me.clone();
            let scratch = scratch.to_string();
            std::thread::spawn(move || {
                let mut done: Vec<String> = Vec::new();
                let mut pos = 0;
                let mut round = 0;
                let mut hangs = 0;
                while pos < chunk.len() {
                    if hangs >= 4 {
                        // the verdict is clear by now; do not wait for the rest
                        done.push(if calls { calls::failed(&chunk[pos], "skip") } else { failed(&chunk[pos], "skip") });
                        pos += 1;
                        continue;
                    }
                    let ji = format!("{scratch}/c{ci}.{round}.in");
                    let jo = format!("{scratch}/c{ci}.{round}.out");
                    std::fs::write(&ji, chunk[pos..].join("\n")).unwrap();
                    File::create(&jo).unwrap();
                    let mut ch = Command::new(&me)
                        .args([if calls { "calls-worker" } else { "worker" }, &ji, &jo, &scratch])
                        .env("MALLOC_ARENA_MAX", "4")
                        .stdout(Stdio::null())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    let mut last = (0u64, Instant::now());
                    let mut how = "abort";
                    loop {
                        if let Some(_st) = ch.try_wait().unwrap() {
                            break;
                        }
                        let len = std::fs::metadata(&jo).map(|m| m.len()).unwrap_or(0);
                        if len != last.0 {
                            last = (len, Instant::now());
                        } else if last.1.elapsed() > Duration::from_secs(30) {
                            how = "hang";
                            hangs += 1;
                            let _ = ch.kill();
                            let _ = ch.wait();
                            break;
                        }
                        std::thread::sleep(Duration::from_millis(5));
                    }
                    let got = read_lines(&jo);
                    pos += got.len();
                    done.extend(got);
                    if pos < chunk.len() {
                        done.push(if calls { calls::failed(&chunk[pos], how) } else { failed(&chunk[pos], how) });
                        pos += 1;
                    }
                    let _ = std::fs::remove_file(&ji);
                    let _ = std::fs::remove_file(&jo);
                    round += 1;
                }
                done
            })
        })
        .collect();
    let mut o = BufWriter::new(File::create(out).unwrap());
    for h in hs {
        for l in h.join().unwrap() {
            o.write_all(l.as_bytes()).unwrap();
            o.write_all(b"\n").unwrap();
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("worker") => worker(&a[2], &a[3], false, &a[4]),
        Some("calls-worker") => worker(&a[2], &a[3], true, &a[4]),
        Some("rec") => master(&a[2], &a[3], a[4].parse().unwrap(), &a[5], false),
        Some("calls") => master(&a[2], &a[3], a[4].parse().unwrap(), &a[5], true),
        Some("one") => calls::one(a[2].parse().unwrap(), a[3].parse().unwrap()),
        Some("sexp") => {
            let s = std::fs::read_to_string(&a[2]).unwrap();
            println!("{}", parse(&s).root_node().to_sexp());
        }
        _ => {
            eprintln!("usage: afmt-rec rec IN OUT NPROC SCRATCH | worker IN OUT | sexp FILE");
            std::process::exit(2);
        }
    }
}
