use std::collections::BTreeMap;
use std::sync::Mutex;

/// splitmix64
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x6a09e667f3bcc909);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
}

#[inline(never)]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a ^ b.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[inline(never)]
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &x in b {
        h ^= x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    mix(h, b.len() as u64)
}

struct State {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pos: usize,
    rec: Vec<u64>,
    digest: u64,
    trace: Option<Vec<String>>,
    counters: BTreeMap<&'static str, u64>,
}

static ST: Mutex<Option<State>> = Mutex::new(None);
static LOG: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Write every decision to this file as it is drawn, so that it survives the death of the process.
#[inline(never)]
pub fn log_choices_to(f: std::fs::File) {
    *LOG.lock().unwrap() = Some(f);
}

fn log(v: u64) {
    if let Some(f) = LOG.lock().unwrap().as_mut() {
        use std::io::Write;
        let _ = f.write_all(format!("{v}\n").as_bytes());
    }
}

fn with<T>(f: impl FnOnce(&mut State) -> T) -> T {
    let mut g = ST.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("no run in progress"))
}

/// Start a run whose decisions come from `seed`, or from a recorded choice list.
#[inline(never)]
pub fn begin_run(seed: u64, replay: Option<Vec<u64>>, trace: bool) {
    crate::steps::new_epoch();
    *ST.lock().unwrap_or_else(|e| e.into_inner()) = Some(State {
        rng: Rng::new(seed),
        replay,
        pos: 0,
        rec: Vec::new(),
        digest: 0,
        trace: if trace { Some(Vec::new()) } else { None },
        counters: BTreeMap::new(),
    });
}

pub struct RunRecord {
    pub choices: Vec<u64>,
    pub digest: u64,
    pub trace: Vec<String>,
    pub counters: BTreeMap<&'static str, u64>,
}

#[inline(never)]
pub fn end_run() -> RunRecord {
    let s = ST
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .take()
        .expect("no run");
    RunRecord {
        choices: s.rec,
        digest: s.digest,
        trace: s.trace.unwrap_or_default(),
        counters: s.counters,
    }
}

/// The choices drawn so far (for attributing a crash of the whole process).
#[inline(never)]
pub fn choices_so_far() -> Vec<u64> {
    with(|s| s.rec.clone())
}

/// The only source of decisions: a value below `n`.  0 is always the plainest alternative.
#[inline(never)]
pub fn draw(n: u64) -> u64 {
    with(|s| {
        let v = match &s.replay {
            Some(r) => {
                let v = r.get(s.pos).copied().unwrap_or(0);
                if n == 0 {
                    v
                } else {
                    v % n
                }
            }
            None => {
                if n == 0 {
                    s.rng.next() >> 16
                } else {
                    s.rng.below(n)
                }
            }
        };
        s.pos += 1;
        s.rec.push(v);
        log(v);
        v
    })
}

/// A decision spread evenly over runs: while searching, run number `hint` takes alternative
/// `hint % n`; in a replay the recorded value is used.
#[inline(never)]
pub fn stratum(n: u64, hint: u64) -> u64 {
    with(|s| {
        let v = match &s.replay {
            Some(r) => r.get(s.pos).copied().unwrap_or(0) % n,
            None => {
                s.rng.next();
                hint % n
            }
        };
        s.pos += 1;
        s.rec.push(v);
        log(v);
        v
    })
}

/// True with probability `permille`/1000; the plain alternative is false.
#[inline(never)]
pub fn chance(permille: u64) -> bool {
    draw(1000) >= 1000 - permille.min(1000)
}

#[inline(never)]
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + draw(hi - lo + 1)
}

pub fn pick<T: Copy>(xs: &[T]) -> T {
    xs[draw(xs.len() as u64) as usize]
}

/// A fresh sub-seed: one decision that stands for a whole pseudo-random object.
#[inline(never)]
pub fn subseed() -> u64 {
    draw(1 << 32)
}

#[inline(never)]
pub fn running() -> bool {
    ST.lock().unwrap_or_else(|e| e.into_inner()).is_some()
}

#[inline(never)]
pub fn digest(v: u64) {
    with(|s| s.digest = mix(s.digest, v))
}

#[inline(never)]
pub fn event(f: impl FnOnce() -> String) {
    with(|s| {
        if let Some(t) = &mut s.trace {
            if t.len() < 2000 {
                let x = f();
                t.push(x);
            }
        }
    })
}

/// Count something that actually happened (fault fired, probe reached).
#[inline(never)]
pub fn count(name: &'static str, n: u64) {
    with(|s| *s.counters.entry(name).or_insert(0) += n)
}
