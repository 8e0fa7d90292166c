//! Runs seeded simulations in worker processes, attributes failures to seeds, minimises the choice
//! list of a failure, writes and replays replay files, and writes the evidence.

use crate::json::{obj, parse, J};
use crate::props::{Prop, PROPS};
use simrt::{hash_bytes, mix};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Vio {
    pub class: String,
    pub detail: String,
}

/// Outcome of one simulated run: was anything non-trivial exercised?
pub type Res = Result<bool, Vio>;

pub fn vio<T>(class: &str, detail: impl Into<String>) -> Result<T, Vio> {
    Err(Vio {
        class: class.into(),
        detail: detail.into(),
    })
}

pub const DEFAULT_BUDGET: u64 = 30_000_000_000;

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<glue::Cancelled>() {
            return;
        }
        let m = i
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let f = i
            .location()
            .map(|l| l.file().rsplit('/').next().unwrap_or("?").to_string())
            .unwrap_or_default();
        let l = i.location().map(|l| l.line()).unwrap_or(0);
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("{f}:{l}: {m}"));
    }));
}

pub fn take_panic() -> String {
    LAST_PANIC
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .unwrap_or_else(|| "unknown panic".into())
}

fn normalise(m: &str) -> String {
    let mut o = String::new();
    let mut last = false;
    for c in m.chars() {
        if c.is_ascii_digit() {
            if !last {
                o.push('#');
            }
            last = true;
        } else {
            o.push(if c.is_control() { ' ' } else { c });
            last = false;
        }
    }
    o.chars().take(90).collect()
}

pub fn panic_vio(what: &str) -> Vio {
    let m = take_panic();
    Vio {
        class: format!("panic {}", normalise(&m)),
        detail: format!("{what}: panicked at {m}"),
    }
}

/// Call `f`; a panic that the simulator did not inject is a violation.
pub fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Vio> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.is::<glue::Cancelled>() {
                vio("stray cancellation", what)
            } else {
                Err(panic_vio(what))
            }
        }
    }
}

/// Call `f`; Ok(None) if the simulator cancelled it.
pub fn cancellable<T>(what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, Vio> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(Some(v)),
        Err(p) => {
            if p.is::<glue::Cancelled>() {
                Ok(None)
            } else {
                Err(panic_vio(what))
            }
        }
    }
}

/// Call `f`; Err(message) if it panicked.
pub fn may_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| take_panic())
}

/// A directory of this process below the one its parent removes.
pub fn own_dir() -> std::path::PathBuf {
    let d = std::env::var("SIM_SCRATCH")
        .map(std::path::PathBuf::from)
        .unwrap_or_else(|_| scratch())
        .join(format!("disk{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

pub fn run_seed(base: u64, prop: &str, run: u64) -> u64 {
    mix(mix(base, hash_bytes(prop.as_bytes())), run)
}

pub struct One {
    pub res: Res,
    pub rec: simrt::RunRecord,
    pub steps: u64,
}

pub fn run_one(p: &Prop, seed: u64, run: u64, choices: Option<Vec<u64>>, trace: bool) -> One {
    crate::qr::warm_up();
    // ... and what dependencies initialise once per process (the hasher's global seed)
    drop(glue::from_bitmap(8, 8, &mut |_, _| false));
    simrt::begin_run(seed, choices, trace);
    simrt::set_step_budget(DEFAULT_BUDGET);
    let s0 = simrt::steps();
    let res = match catch_unwind(AssertUnwindSafe(|| (p.run)(run))) {
        Ok(r) => r,
        Err(e) => {
            if e.is::<glue::Cancelled>() {
                vio("stray cancellation", "an injected cancellation escaped")
            } else {
                Err(panic_vio("run"))
            }
        }
    };
    let steps = simrt::steps() - s0;
    let rec = simrt::end_run();
    One { res, rec, steps }
}

fn find(id: &str) -> &'static Prop {
    PROPS.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

// ---------------------------------------------------------------- worker

/// The `k`-th run of worker `w` of `nw`: every block of `nw` runs is dealt out in a different
/// rotation, so that no worker gets all the expensive strata.
fn run_of(w: u64, nw: u64, k: u64) -> u64 {
    k * nw + (w + simrt::mix(k, 77) % nw) % nw
}

pub fn worker(a: &[String]) {
    let p = find(&a[0]);
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let (base, start, stride, runs, deadline) = (num(1), num(2), num(3), num(4), num(5));
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut n = 0u64;
    let mut steps = 0u64;
    let mut nontrivial = 0u64;
    let mut counters: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut digests = HashSet::new();
    let mut samples = Vec::new();
    let mut failed = None;
    let mut k = 0;
    let mut i = run_of(start, stride, k);
    let mut choices = 0u64;
    while i < runs && t0.elapsed().as_millis() < deadline as u128 {
        {
            let mut o = out.lock();
            let _ = writeln!(o, "B {i}");
            let _ = o.flush();
        }
        let r = run_one(p, run_seed(base, p.id, i), i, None, start == 0 && samples.len() < 2);
        n += 1;
        steps += r.steps;
        choices += r.rec.choices.len() as u64;
        for (k, v) in &r.rec.counters {
            *counters.entry(k).or_insert(0) += v;
        }
        match r.res {
            Ok(nt) => {
                if nt {
                    nontrivial += 1;
                    digests.insert(r.rec.digest);
                    if start == 0 && samples.len() < 2 {
                        let mut t = r.rec.trace.clone();
                        t.truncate(25);
                        samples.push(obj(vec![
                            ("run", J::n(i)),
                            ("steps", J::n(r.steps)),
                            ("trace", J::strs(&t)),
                        ]));
                    }
                }
            }
            // Exploration aid: list every failing run instead of stopping at the first.
            Err(v) if std::env::var("SIM_SURVEY").is_ok() => {
                eprintln!("SURVEY {i} {} :: {}", v.class, v.detail);
            }
            Err(v) => {
                failed = Some(obj(vec![
                    ("run", J::n(i)),
                    ("class", J::s(v.class)),
                    ("detail", J::s(v.detail)),
                    ("choices", J::nums(&r.rec.choices)),
                ]));
            }
        }
        if let Some(f) = &failed {
            println!("V {}", f.line());
            break;
        }
        k += 1;
        i = run_of(start, stride, k);
    }
    let hex: Vec<String> = digests.iter().map(|d| format!("{d:x}")).collect();
    let e = obj(vec![
        ("runs", J::n(n)),
        ("steps", J::n(steps)),
        ("choices", J::n(choices)),
        ("nontrivial", J::n(nontrivial)),
        ("digests", J::s(hex.join(" "))),
        (
            "counters",
            J::Obj(counters.iter().map(|(k, v)| (k.to_string(), J::n(*v))).collect()),
        ),
        (
            "edges",
            J::Arr(simrt::edges_hit().iter().map(|e| J::n(*e as u64)).collect()),
        ),
        ("edges_total", J::n(simrt::edges_total())),
        ("samples", J::Arr(samples)),
    ]);
    println!("E {}", e.line());
    simrt::hard_exit(0)
}

// ---------------------------------------------------------------- single execution (child)

/// Input: a JSON case file.  Runs the prelude (earlier runs whose effects are needed) and the case.
pub fn exec(a: &[String]) {
    let c = parse(&std::fs::read_to_string(&a[0]).unwrap()).expect("bad case file");
    let p = find(c.get("property").str());
    let base = c.get("seed").u64();
    let trace = a.iter().any(|x| x == "--trace");
    for r in c.get("prelude").u64s() {
        let _ = run_one(p, run_seed(base, p.id, r), r, None, false);
    }
    if let Some(i) = a.iter().position(|x| x == "--log") {
        simrt::log_choices_to(std::fs::File::create(&a[i + 1]).unwrap());
    }
    let run = c.get("run").u64();
    let choices = match c.get("choices") {
        J::Null => None,
        x => Some(x.u64s()),
    };
    let r = run_one(p, run_seed(base, p.id, run), run, choices, trace);
    let (ok, class, detail) = match r.res {
        Ok(_) => (true, String::new(), String::new()),
        Err(v) => (false, v.class, v.detail),
    };
    println!(
        "R {}",
        obj(vec![
            ("ok", J::Bool(ok)),
            ("class", J::s(class)),
            ("detail", J::s(detail)),
            ("choices", J::nums(&r.rec.choices)),
            ("digest", J::s(format!("{:x}", r.rec.digest))),
            ("steps", J::n(r.steps)),
            ("trace", J::strs(&r.rec.trace)),
        ])
        .line()
    );
    simrt::hard_exit(0)
}

#[derive(Clone, Debug)]
struct Case {
    prop: String,
    seed: u64,
    run: u64,
    prelude: Vec<u64>,
    choices: Option<Vec<u64>>,
}
impl Case {
    fn json(&self) -> J {
        obj(vec![
            ("property", J::s(self.prop.clone())),
            ("seed", J::n(self.seed)),
            ("run", J::n(self.run)),
            ("prelude", J::nums(&self.prelude)),
            (
                "choices",
                self.choices.as_ref().map(|c| J::nums(c)).unwrap_or(J::Null),
            ),
        ])
    }
}

#[derive(Clone, Debug, Default)]
struct Outcome {
    ok: bool,
    class: String,
    detail: String,
    choices: Option<Vec<u64>>,
    digest: String,
    steps: u64,
    trace: Vec<String>,
}

fn death(code: Option<i32>, sig: Option<i32>, last: &str) -> (String, String) {
    match code {
        Some(70) => ("no progress".into(), format!("step budget exceeded ({last})")),
        Some(71) => ("deadlock".into(), "all callers are blocked".into()),
        Some(72) => ("memory exhausted".into(), "simulated machine ran out of memory".into()),
        Some(c) => ("process ended".into(), format!("exit status {c}")),
        None => (
            "process died".into(),
            format!("signal {}", sig.unwrap_or(0)),
        ),
    }
}

fn scratch() -> std::path::PathBuf {
    let d = std::env::temp_dir().join(format!("rqrr-sim-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&d);
    d
}

fn exec_case(c: &Case, tag: usize, trace: bool, log: bool, limit: Duration) -> Outcome {
    use std::os::unix::process::ExitStatusExt;
    let d = scratch();
    let f = d.join(format!("case{tag}.json"));
    let l = d.join(format!("log{tag}"));
    std::fs::write(&f, c.json().line()).unwrap();
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.env("SIM_SCRATCH", &d);
    cmd.arg("exec").arg(&f);
    if trace {
        cmd.arg("--trace");
    }
    if log {
        cmd.arg("--log").arg(&l);
    }
    let mut ch = cmd
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || {
        let mut res = None;
        let mut last = String::new();
        for line in BufReader::new(so).lines().map_while(Result::ok) {
            if let Some(j) = line.strip_prefix("R ") {
                res = parse(j);
            } else {
                last = line;
            }
        }
        let _ = tx.send((res, last));
    });
    let got = match rx.recv_timeout(limit) {
        Ok(x) => x,
        Err(_) => {
            let _ = ch.kill();
            (None, "killed: wall-clock limit".to_string())
        }
    };
    let st = ch.wait().unwrap();
    match got {
        (Some(j), _) => Outcome {
            ok: j.get("ok") == &J::Bool(true),
            class: j.get("class").str().into(),
            detail: j.get("detail").str().into(),
            choices: Some(j.get("choices").u64s()),
            digest: j.get("digest").str().into(),
            steps: j.get("steps").u64(),
            trace: j.get("trace").arr().iter().map(|x| x.str().to_string()).collect(),
        },
        (None, last) => {
            let (class, detail) = death(st.code(), st.signal(), &last);
            let choices = if log {
                std::fs::read_to_string(&l)
                    .ok()
                    .map(|s| s.lines().filter_map(|x| x.parse().ok()).collect())
            } else {
                None
            };
            Outcome {
                ok: false,
                class,
                detail,
                choices,
                ..Default::default()
            }
        }
    }
}

/// Evaluate candidates in parallel; index of the first that reproduces `class`.
fn first_match(cands: &[Case], class: &str) -> Option<usize> {
    let hits: Vec<bool> = std::thread::scope(|s| {
        let hs: Vec<_> = cands
            .iter()
            .enumerate()
            .map(|(i, c)| {
                s.spawn(move || {
                    let o = exec_case(c, 100 + i, false, false, Duration::from_secs(60));
                    !o.ok && o.class == class
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    hits.iter().position(|x| *x)
}

fn strip(v: &mut Vec<u64>) {
    while v.last() == Some(&0) {
        v.pop();
    }
}

fn minimise(mut c: Case, class: &str, t_end: Instant) -> (Case, u64) {
    let mut evals = 0u64;
    let mut cur = c.choices.clone().unwrap_or_default();
    strip(&mut cur);
    let with = |v: &Vec<u64>| Case {
        choices: Some(v.clone()),
        ..c.clone()
    };
    let weight = |v: &Vec<u64>| (v.len(), v.iter().map(|x| *x as u128).sum::<u128>());
    'outer: loop {
        let before = weight(&cur);
        // structural candidates, big chunks first
        let mut size = cur.len().max(1);
        while size >= 1 {
            let mut pos = 0;
            while pos < cur.len() {
                let mut cands: Vec<Vec<u64>> = Vec::new();
                let mut p = pos;
                while cands.len() < 8 && p < cur.len() {
                    let e = (p + size).min(cur.len());
                    let mut z = cur.clone();
                    z[p..e].iter_mut().for_each(|x| *x = 0);
                    strip(&mut z);
                    if weight(&z) < weight(&cur) {
                        cands.push(z);
                    }
                    let mut del = cur.clone();
                    del.drain(p..e);
                    strip(&mut del);
                    cands.push(del);
                    if size == 1 && cur[p] > 1 {
                        for v in [cur[p] / 2, cur[p] - 1] {
                            let mut r = cur.clone();
                            r[p] = v;
                            cands.push(r);
                        }
                    }
                    p += size;
                }
                if Instant::now() > t_end || evals > 1500 {
                    break 'outer;
                }
                let cs: Vec<Case> = cands.iter().map(with).collect();
                evals += cs.len() as u64;
                match first_match(&cs, class) {
                    Some(k) => {
                        cur = cands[k].clone();
                        // stay at the same position
                    }
                    None => pos = p,
                }
            }
            size /= 2;
        }
        if weight(&cur) >= before {
            break;
        }
    }
    c.choices = Some(cur);
    (c, evals)
}

// ---------------------------------------------------------------- known findings

fn verif_root() -> std::path::PathBuf {
    std::env::var("VERIF_ROOT")
        .map(Into::into)
        .unwrap_or_else(|_| "/verif".into())
}

// ---------------------------------------------------------------- check

enum Msg {
    Begin(usize, u64),
    Fail(usize, J),
    End(usize, J),
    Gone(usize, String),
}

pub fn check(a: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let p = find(&a[0]);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let base: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let getopt = |k: &str| {
        a.iter()
            .position(|x| x == k)
            .and_then(|i| a.get(i + 1))
            .and_then(|s| s.parse::<u64>().ok())
    };
    let runs = getopt("--runs").unwrap_or(if thorough { u64::MAX } else { p.quick_runs });
    let deadline = getopt("--secs").unwrap_or(if thorough { 600 } else { 150 }) * 1000;
    let nw = getopt("--workers").unwrap_or(8) as usize;
    let t0 = Instant::now();
    let (tx, rx) = mpsc::channel();
    let mut kids = Vec::new();
    for w in 0..nw {
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .arg("worker")
            .env("SIM_SCRATCH", scratch())
            .arg(p.id)
            .args([base, w as u64, nw as u64, runs, deadline].map(|x| x.to_string()))
            .stdout(Stdio::piped())
            .stderr(if std::env::var("SIM_SURVEY").is_ok() { Stdio::inherit() } else { Stdio::null() })
            .spawn()
            .unwrap();
        let so = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut last = String::new();
            for l in BufReader::new(so).lines().map_while(Result::ok) {
                let m = match l.split_at(l.len().min(2)) {
                    ("B ", r) => Msg::Begin(w, r.parse().unwrap_or(0)),
                    ("V ", r) => Msg::Fail(w, parse(r).unwrap_or(J::Null)),
                    ("E ", r) => Msg::End(w, parse(r).unwrap_or(J::Null)),
                    _ => {
                        last = l;
                        continue;
                    }
                };
                if tx.send(m).is_err() {
                    return;
                }
            }
            let _ = tx.send(Msg::Gone(w, last));
        });
        kids.push(ch);
    }
    let mut last_run = vec![0u64; nw];
    let mut last_seen = vec![Instant::now(); nw];
    let mut ended = vec![false; nw];
    let mut gone = 0;
    let mut ends = Vec::new();
    // (run, class, detail, choices, worker)
    let mut fail: Option<(u64, String, String, Option<Vec<u64>>, usize)> = None;
    while gone < nw {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok(Msg::Begin(w, i)) => {
                last_run[w] = i;
                last_seen[w] = Instant::now();
            }
            Ok(Msg::Fail(w, j)) => {
                fail = Some((
                    j.get("run").u64(),
                    j.get("class").str().into(),
                    j.get("detail").str().into(),
                    Some(j.get("choices").u64s()),
                    w,
                ));
                break;
            }
            Ok(Msg::End(w, j)) => {
                ended[w] = true;
                ends.push(j);
            }
            Ok(Msg::Gone(w, last)) => {
                gone += 1;
                let st = kids[w].wait().unwrap();
                if !ended[w] {
                    let (c, d) = death(st.code(), st.signal(), &last);
                    fail = Some((last_run[w], c, d, None, w));
                    break;
                }
            }
            Err(_) => {
                for w in 0..nw {
                    if !ended[w] && last_seen[w].elapsed() > Duration::from_secs(400) {
                        fail = Some((
                            last_run[w],
                            "process died".into(),
                            "no answer for 400 s".into(),
                            None,
                            w,
                        ));
                    }
                }
                if fail.is_some() {
                    break;
                }
            }
        }
    }
    for k in &mut kids {
        let _ = k.kill();
        let _ = k.wait();
    }
    // collect what the others had finished (their E lines may be missing when killed)
    while let Ok(m) = rx.try_recv() {
        if let Msg::End(_, j) = m {
            ends.push(j);
        }
    }
    let wall_explore = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut violation = J::Null;
    if let Some((run, class, detail, choices, w)) = fail {
        code = 1;
        let path = report(p, base, run, &class, &detail, choices, w, nw);
        violation = obj(vec![
            ("run", J::n(run)),
            ("class", J::s(class)),
            ("detail", J::s(detail)),
            ("replay", J::s(path)),
        ]);
    } else {
        println!("ok property={} runs={}", p.id, ends.iter().map(|e| e.get("runs").u64()).sum::<u64>());
    }
    evidence(p, &tier, base, &ends, wall_explore, t0.elapsed().as_secs_f64(), violation, a);
    let _ = std::fs::remove_dir_all(scratch());
    code
}

#[allow(clippy::too_many_arguments)]
fn report(
    p: &Prop,
    base: u64,
    run: u64,
    class: &str,
    detail: &str,
    choices: Option<Vec<u64>>,
    w: usize,
    nw: usize,
) -> String {
    eprintln!("violation in run {run}: {class}: {detail}");
    let lim = Duration::from_secs(150);
    let mut case = Case {
        prop: p.id.into(),
        seed: base,
        run,
        prelude: vec![],
        choices: choices.clone(),
    };
    let mut class = class.to_string();
    let mut how = "minimised";
    if case.choices.is_none() {
        // The process died: recover the decisions from a logged re-execution.
        let o = exec_case(&case, 0, false, true, lim);
        if !o.ok {
            case.choices = o.choices;
            class = o.class;
        }
    }
    let mut o = exec_case(&case, 0, false, false, lim);
    if o.ok || o.class != class {
        // Does it need what earlier runs of the same process left behind?
        let mut pre: Vec<u64> = (0..).map(|k| run_of(w as u64, nw as u64, k)).take_while(|r| *r != run).collect();
        let try_pre = |pre: &Vec<u64>| Case {
            prelude: pre.clone(),
            ..case.clone()
        };
        let o2 = exec_case(&try_pre(&pre), 0, false, false, lim);
        if !o2.ok {
            class = o2.class.clone();
            let t_end = Instant::now() + Duration::from_secs(40);
            let mut size = pre.len().div_ceil(2);
            while size >= 1 && Instant::now() < t_end {
                let mut pos = 0;
                while pos < pre.len() && Instant::now() < t_end {
                    let mut q = pre.clone();
                    q.drain(pos..(pos + size).min(pre.len()));
                    if first_match(&[try_pre(&q)], &class).is_some() {
                        pre = q;
                    } else {
                        pos += size;
                    }
                }
                if size == 1 {
                    break;
                }
                size = size.div_ceil(2);
            }
            case.prelude = pre;
            o = o2;
            how = "with the earlier runs it depends on";
        } else {
            how = "not reproduced in a fresh process: the code under test is not deterministic";
        }
    }
    let mut evals = 0;
    if !o.ok {
        let (c, e) = minimise(case, &class, Instant::now() + Duration::from_secs(30));
        case = c;
        evals = e;
    }
    let fin = exec_case(&case, 0, true, false, lim);
    let dir = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{}.json", p.id, base, run));
    let mut j = match case.json() {
        J::Obj(v) => v,
        _ => unreachable!(),
    };
    let (fc, fd) = if fin.ok {
        (class.clone(), detail.to_string())
    } else {
        (fin.class.clone(), fin.detail.clone())
    };
    j.push(("class".into(), J::s(fc.clone())));
    j.push(("detail".into(), J::s(fd.clone())));
    j.push(("digest".into(), J::s(fin.digest.clone())));
    j.push(("steps".into(), J::n(fin.steps)));
    j.push(("how".into(), J::s(how)));
    j.push(("candidates_tried".into(), J::n(evals)));
    j.push(("trace".into(), J::strs(&fin.trace)));
    let _ = std::fs::write(&path, J::Obj(j).pretty());
    println!("{}: {}", fc, fd);
    println!("VIOLATION property={} replay={}", p.id, path.display());
    path.display().to_string()
}

pub fn replay(a: &[String]) -> i32 {
    let c = parse(&std::fs::read_to_string(&a[0]).unwrap()).expect("bad replay file");
    let case = Case {
        prop: c.get("property").str().into(),
        seed: c.get("seed").u64(),
        run: c.get("run").u64(),
        prelude: c.get("prelude").u64s(),
        choices: match c.get("choices") {
            J::Null => None,
            x => Some(x.u64s()),
        },
    };
    let o = exec_case(&case, 0, true, false, Duration::from_secs(300));
    for t in &o.trace {
        println!("  {t}");
    }
    let _ = std::fs::remove_dir_all(scratch());
    if o.ok {
        println!("not reproduced: the run satisfied the property");
        return 0;
    }
    println!("{}: {}", o.class, o.detail);
    println!(
        "digest {} ({}), steps {} ({})",
        o.digest,
        if o.digest == c.get("digest").str() { "as recorded" } else { "differs from the record" },
        o.steps,
        if o.steps == c.get("steps").u64() { "as recorded" } else { "differs from the record" },
    );
    println!("VIOLATION property={} replay={}", case.prop, a[0]);
    1
}

/// Every run of a sample executed twice, in different processes with different neighbours.
pub fn determinism(a: &[String]) -> i32 {
    let n: u64 = a.get(1).and_then(|s| s.parse().ok()).unwrap_or(40);
    let ids: Vec<&str> = if a[0] == "all" {
        PROPS.iter().map(|p| p.id).collect()
    } else {
        vec![a[0].as_str()]
    };
    let mut bad = 0;
    for id in ids {
        let one = |i: u64, pre: Vec<u64>, tag| {
            let o = exec_case(
                &Case {
                    prop: id.into(),
                    seed: 1,
                    run: i,
                    prelude: pre,
                    choices: None,
                },
                tag,
                false,
                false,
                Duration::from_secs(300),
            );
            (o.ok, o.class, o.digest, o.steps, o.choices)
        };
        let mism: Vec<u64> = (0..n)
            .collect::<Vec<_>>()
            .chunks(8)
            .flat_map(|ch| {
                std::thread::scope(|s| {
                    let hs: Vec<_> = ch
                        .iter()
                        .map(|&i| {
                            let one = &one;
                            s.spawn(move || {
                                let t = (i % 8) as usize + 1;
                                let x = one(i, vec![], t);
                                let y = one(i, vec![i + 1, i + 3], t);
                                if x != y && std::env::var("SIM_DIFF").is_ok() {
                                    eprintln!("run {i}: {:?} {} {} steps {} {} choices {:?} {:?}", (x.0, y.0), x.2, y.2, x.3, y.3, x.4.as_ref().map(|c| c.len()), y.4.as_ref().map(|c| c.len()));
                                }
                                (i, x == y)
                            })
                        })
                        .collect();
                    hs.into_iter()
                        .map(|h| h.join().unwrap())
                        .filter(|x| !x.1)
                        .map(|x| x.0)
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        println!("{id}: {n} runs executed twice, {} differ {:?}", mism.len(), mism);
        bad += mism.len();
    }
    let _ = std::fs::remove_dir_all(scratch());
    (bad > 0) as i32
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prop,
    tier: &str,
    base: u64,
    ends: &[J],
    explore: f64,
    wall: f64,
    violation: J,
    a: &[String],
) {
    let sum = |k: &str| ends.iter().map(|e| e.get(k).u64()).sum::<u64>();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut edges = BTreeSet::new();
    let mut digests = HashSet::new();
    let mut samples = Vec::new();
    let mut total = 0;
    for e in ends {
        for (k, v) in e.get("counters").obj() {
            *counters.entry(k.clone()).or_insert(0) += v.u64();
        }
        edges.extend(e.get("edges").u64s());
        digests.extend(e.get("digests").str().split(' ').filter(|s| !s.is_empty()).map(String::from));
        samples.extend(e.get("samples").arr().iter().cloned());
        total = total.max(e.get("edges_total").u64());
    }
    let runs = sum("runs");
    let pick = |pre: &str| {
        J::Obj(
            counters
                .iter()
                .filter(|(k, _)| k.starts_with(pre))
                .map(|(k, v)| (k[pre.len()..].to_string(), J::n(*v)))
                .collect(),
        )
    };
    let per_h = |x: u64| J::n((x as f64 / explore.max(1e-9) * 3600.0) as u64);
    let cov = obj(vec![
        ("evaluations", J::n(runs)),
        ("distinct_nontrivial", J::n(digests.len() as u64)),
        ("rule", J::s(p.rule)),
        ("samples", J::Arr(samples)),
        ("seeds", J::n(runs)),
        ("runs_per_hour", per_h(runs)),
        ("simulated_steps", J::n(sum("steps"))),
        ("simulated_steps_per_hour", per_h(sum("steps"))),
        ("simulated_time_unit", J::s("one executed basic-block edge of rqrr or of the seam implementations")),
        ("decisions_drawn", J::n(sum("choices"))),
        ("fault_kinds_injected", pick("fault:")),
        ("conditions_reached", pick("probe:")),
        ("edges_reached", J::n(edges.len() as u64)),
        ("edges_total", J::n(total)),
        ("distinct_measure", J::s("distinct digests of the whole run: decisions taken, faults fired, results observed (and hand-over points where threads are scheduled)")),
        ("components_real", J::s(p.real)),
        ("components_stub", J::s(p.stub)),
        ("violation", violation.clone()),
    ]);
    let e = obj(vec![
        ("property", J::s(p.id)),
        ("tier", J::s(tier)),
        ("seed", J::n(base)),
        ("level", J::s("exploration")),
        ("coverage", cov),
        ("assumptions", J::Arr(p.assumptions.iter().map(|s| J::s(*s)).collect())),
        ("wall_s", J::Num((wall * 100.0).round() / 100.0)),
        ("violations", J::n((violation != J::Null) as u64)),
    ]);
    if a.iter().any(|x| x == "--no-evidence") {
        println!("{}", e.pretty());
        return;
    }
    let dir = verif_root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", p.id)), e.pretty());
}
