//! Baton scheduler: tasks are real OS threads, but exactly one of them runs at a time and the
//! choice stream decides which, and after how many basic blocks it is preempted.

use crate::choices::draw;
use crate::steps::{guards_of_run, rearm, steps, watch, PREEMPT};
use std::cell::Cell;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::{Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum TS {
    Ready,
    /// Handed the baton but blocked on a lock the simulator does not own.
    Blocked,
    Done,
}

struct Sched {
    current: Option<usize>,
    tasks: Vec<TS>,
    tids: Vec<i32>,
    started: usize,
    gap: u64,
    left: u64,
    switches: u64,
    order: u64,
    foreign_blocks: u64,
    /// Clock at the start of the session: hand-overs are identified relative to it.
    base: u64,
    /// Places preemptions may be aimed at; empty = distances only.
    places: Vec<u32>,
    /// The slice now ending was to end at a place.
    aimed: bool,
}

static S: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

thread_local! {
    static TASK: Cell<Option<usize>> = const { Cell::new(None) };
}

#[derive(Debug, Clone, Default)]
pub struct SchedStats {
    pub switches: u64,
    /// Hash of the sequence of (step, task) handovers: identifies the interleaving.
    pub interleaving: u64,
    pub foreign_blocks: u64,
    pub deadlock: bool,
}

fn lock() -> std::sync::MutexGuard<'static, Option<Sched>> {
    S.lock().unwrap_or_else(|e| e.into_inner())
}

fn arm(s: &mut Sched) {
    // Draw the distance to the next preemption.  0 = run on undisturbed.
    watch(0, 0);
    if s.tasks.contains(&TS::Blocked) {
        // Re-park a task that got its foreign lock as soon as it executes again.
        PREEMPT.store(steps() + 1, Relaxed);
    } else if s.left == 0 {
        PREEMPT.store(u64::MAX, Relaxed);
    } else if !s.places.is_empty() && std::mem::take(&mut s.aimed) && draw(2) == 1 {
        // Somebody has just been stopped at a chosen place: let the others get far.
        PREEMPT.store(u64::MAX, Relaxed);
    } else if !s.places.is_empty() && draw(4) != 0 {
        // Aim at a place in the code: each place that this run has executed is as likely as any
        // other, however seldom it is executed.
        s.left -= 1;
        let g = s.places[draw(s.places.len() as u64) as usize];
        let n = match draw(4) {
            0 | 1 => 1,
            2 => 1 + draw(8),
            _ => 1 + draw(200),
        };
        watch(g, n);
        s.aimed = true;
        PREEMPT.store(u64::MAX, Relaxed);
    } else {
        s.left -= 1;
        let k = draw(16);
        let at = if k == 0 {
            u64::MAX
        } else {
            let d = 1 + draw(s.gap >> (k % 4 * 2));
            steps().saturating_add(d)
        };
        PREEMPT.store(at, Relaxed);
    }
    rearm();
}

fn choose(s: &mut Sched, me: Option<usize>) -> Option<usize> {
    let ready: Vec<usize> = (0..s.tasks.len())
        .filter(|&i| s.tasks[i] == TS::Ready && Some(i) != me)
        .collect();
    if ready.is_empty() {
        return None;
    }
    let k = if ready.len() == 1 {
        0
    } else {
        draw(ready.len() as u64) as usize
    };
    Some(ready[k])
}

fn handed(s: &mut Sched, to: usize) {
    s.switches += 1;
    let at = steps() - s.base;
    s.order = crate::choices::mix(s.order, at.wrapping_mul(31).wrapping_add(to as u64));
    s.current = Some(to);
    crate::choices::event(|| format!("schedule: step {} -> task {}", at, to));
}

/// Called by the clock when the current task has used up its slice.
pub(crate) fn preempt() {
    let Some(me) = TASK.with(|t| t.get()) else {
        PREEMPT.store(u64::MAX, Relaxed);
        return;
    };
    let mut g = lock();
    {
        let Some(s) = g.as_mut() else { return };
        if s.current != Some(me) {
            // We had been written off as blocked; queue up again.
            s.tasks[me] = TS::Ready;
            if s.current.is_none() {
                handed(s, me);
            }
        } else {
            if let Some(n) = choose(s, Some(me)) {
                handed(s, n);
            }
            arm(s);
        }
    }
    CV.notify_all();
    while g.as_ref().map(|s| s.current != Some(me)).unwrap_or(false) {
        g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

fn tid() -> i32 {
    // /proc/thread-self -> <pid>/task/<tid>
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name().and_then(|f| f.to_str().map(|s| s.to_string())))
        .and_then(|s| s.parse().ok())
        .unwrap_or(0)
}

fn os_blocked(tid: i32) -> bool {
    match std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")) {
        Ok(s) => s
            .rsplit(')')
            .next()
            .map(|r| r.trim_start().starts_with('S') || r.trim_start().starts_with('D'))
            .unwrap_or(false),
        Err(_) => false,
    }
}

/// Run the tasks to completion under the seeded scheduler.
/// `gap`: scale (in steps) of the distance between preemptions; `max_preempt`: cap on preemptions.
pub fn run_tasks<'a>(
    tasks: Vec<Box<dyn FnOnce() + Send + 'a>>,
    gap: u64,
    max_preempt: u64,
) -> SchedStats {
    let n = tasks.len();
    let places = if draw(3) == 0 { Vec::new() } else { guards_of_run() };
    *lock() = Some(Sched {
        current: None,
        tasks: vec![TS::Ready; n],
        tids: vec![0; n],
        started: 0,
        gap: gap.max(1),
        left: max_preempt,
        switches: 0,
        order: 0,
        foreign_blocks: 0,
        base: steps(),
        places,
        aimed: false,
    });
    std::thread::scope(|sc| {
        for (i, t) in tasks.into_iter().enumerate() {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    TASK.with(|c| c.set(Some(i)));
                    {
                        let mut g = lock();
                        {
                            let s = g.as_mut().unwrap();
                            s.tids[i] = tid();
                            s.started += 1;
                        }
                        CV.notify_all();
                        while g.as_ref().unwrap().current != Some(i) {
                            g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
                        }
                    }
                    t();
                    let mut g = lock();
                    let s = g.as_mut().unwrap();
                    let mine = s.current == Some(i);
                    s.tasks[i] = TS::Done;
                    if mine {
                        s.current = None;
                        if let Some(nx) = choose(s, None) {
                            handed(s, nx);
                        }
                        arm(s);
                    }
                    drop(g);
                    CV.notify_all();
                })
                .expect("spawn");
        }
        // Wait for all tasks to be parked, then hand out the baton.
        let mut g = lock();
        while g.as_ref().unwrap().started < n {
            g = CV.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        {
            let s = g.as_mut().unwrap();
            if let Some(nx) = choose(s, None) {
                handed(s, nx);
            }
            arm(s);
        }
        CV.notify_all();
        let mut quiet = 0;
        let mut last = (steps(), 0u64);
        let mut dead = 0;
        loop {
            let done = g.as_ref().unwrap().tasks.iter().all(|t| *t == TS::Done);
            if done {
                break;
            }
            let (g2, _) = CV
                .wait_timeout(g, Duration::from_millis(4))
                .unwrap_or_else(|e| e.into_inner());
            g = g2;
            let s = g.as_mut().unwrap();
            let now = (steps(), s.switches);
            if now != last {
                last = now;
                quiet = 0;
                dead = 0;
                continue;
            }
            let blocked = match s.current {
                Some(c) => os_blocked(s.tids[c]),
                None => true,
            };
            if !blocked {
                quiet = 0;
                continue;
            }
            quiet += 1;
            if quiet < 5 {
                continue;
            }
            quiet = 0;
            // The running task waits for something the simulator does not own.
            if let Some(c) = s.current.take() {
                s.tasks[c] = TS::Blocked;
                s.foreign_blocks += 1;
            }
            match choose(s, None) {
                Some(nx) => {
                    handed(s, nx);
                    arm(s);
                    CV.notify_all();
                }
                None => {
                    dead += 1;
                    if dead >= 100 {
                        println!("DEADLOCK");
                        crate::hard_exit(71);
                    }
                }
            }
        }
    });
    PREEMPT.store(u64::MAX, Relaxed);
    watch(0, 0);
    rearm();
    let s = lock().take().unwrap();
    SchedStats {
        switches: s.switches,
        interleaving: s.order,
        foreign_blocks: s.foreign_blocks,
        deadlock: false,
    }
}
