//! A cooperative scheduler for the real map code: exactly one registered thread runs at a time, and control
//! changes hands only at the points the shim (and the workload) offer. The order is decided by a strategy.
use goko::monomap::verif_sync::{self, Point};
use rand::rngs::SmallRng;
use rand::{Rng, SeedableRng};
use std::cell::Cell;
use std::sync::{Condvar, Mutex, MutexGuard};

pub enum Strategy {
    /// Every point switches with the given probability (percent) to a random thread
    Random { switch: u32 },
    /// Random priorities, changed at random steps; a yielding thread goes to the back
    Priority { every: usize },
    /// Replays the given choices (index into the sorted runnable set), then stays with the running thread
    Replay { choices: Vec<usize> },
}

pub struct State {
    pub strategy: Strategy,
    rng: SmallRng,
    running: usize,
    alive: Vec<bool>,
    prio: Vec<u32>,
    spins: Vec<u32>,
    pub steps: usize,
    pub budget: usize,
    pub stuck: bool,
    /// per step: (number of runnable threads, index of the one chosen, index of the one that was running or MAX)
    pub log: Vec<(usize, usize, usize)>,
    started: usize,
    expected: usize,
    pub buffering: bool,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static COND: Condvar = Condvar::new();
thread_local! { static ME: Cell<usize> = Cell::new(usize::MAX); }

fn lock() -> MutexGuard<'static, Option<State>> {
    match STATE.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

fn pick(s: &mut State, me: usize, p: Point, me_alive: bool) -> usize {
    let runnable: Vec<usize> = (0..s.alive.len()).filter(|i| s.alive[*i]).collect();
    if runnable.is_empty() {
        return usize::MAX;
    }
    let cur = if me_alive {
        runnable.iter().position(|i| *i == me).unwrap_or(usize::MAX)
    } else {
        usize::MAX
    };
    // a thread that only spins has to let others run, whatever the strategy says
    if me_alive {
        if p == Point::Yield {
            s.spins[me] += 8;
        } else {
            s.spins[me] += 1;
        }
    }
    let forced = p == Point::Yield || (me_alive && s.spins[me] > 150);
    let choice = match &s.strategy {
        Strategy::Random { switch } => {
            if cur == usize::MAX || forced || s.rng.gen_range(0..100) < *switch {
                s.rng.gen_range(0..runnable.len())
            } else {
                cur
            }
        }
        Strategy::Priority { every } => {
            let every = *every;
            if s.rng.gen_range(0..every) == 0 || s.steps % 400 == 399 {
                let r = runnable[s.rng.gen_range(0..runnable.len())];
                s.prio[r] = s.rng.gen_range(0..1000);
            }
            if forced && me_alive {
                let lo = s.prio.iter().min().cloned().unwrap_or(0);
                s.prio[me] = lo.saturating_sub(1);
                s.spins[me] = 0;
                if lo == 0 {
                    for (i, x) in s.prio.iter_mut().enumerate() {
                        if i != me {
                            *x += 1;
                        }
                    }
                }
            }
            let mut best = 0;
            for (j, r) in runnable.iter().enumerate() {
                if s.prio[*r] > s.prio[runnable[best]] {
                    best = j;
                }
            }
            best
        }
        Strategy::Replay { choices } => {
            let c = choices.get(s.log.len()).cloned();
            match c {
                Some(c) if c < runnable.len() => c,
                _ => {
                    if cur == usize::MAX {
                        0
                    } else if forced {
                        // never an alternative: a spinning thread hands over to the next one
                        (cur + 1) % runnable.len()
                    } else {
                        cur
                    }
                }
            }
        }
    };
    if me_alive && runnable[choice] != me {
        s.spins[me] = 0;
    }
    // a voluntary switch offers no alternatives; where no thread was running they are free
    s.log.push((if forced { 1 } else { runnable.len() }, choice, if forced { choice } else { cur }));
    runnable[choice]
}

fn hook(p: Point) -> bool {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return false;
    }
    let mut g = lock();
    let flush;
    {
        let s = match g.as_mut() {
            Some(s) => s,
            None => return false,
        };
        s.steps += 1;
        if s.steps > s.budget {
            s.stuck = true;
            COND.notify_all();
            drop(g);
            // nothing can be unwound safely from here; the driver ends the process
            loop {
                std::thread::sleep(std::time::Duration::from_secs(3600));
            }
        }
        flush = !s.buffering || s.rng.gen_range(0..10) < 3;
        let next = pick(s, me, p, true);
        s.running = next;
        if next != me {
            COND.notify_all();
        }
    }
    while g.as_ref().map(|s| s.running != me).unwrap_or(false) {
        g = COND.wait(g).unwrap_or_else(|e| e.into_inner());
    }
    flush
}

fn buffer_hook() -> bool {
    let me = ME.with(|m| m.get());
    me != usize::MAX && lock().as_ref().map(|s| s.buffering).unwrap_or(false)
}

/// A scheduling point placed by the workload.
pub fn here() {
    verif_sync::point(Point::User);
}

/// Did a thread of the last run panic?
pub fn panicked() -> bool {
    PANICKED.load(std::sync::atomic::Ordering::SeqCst)
}
static PANICKED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Runs the bodies under the scheduler. Returns the final state, or None if the step budget ran out.
pub fn run(
    strategy: Strategy,
    seed: u64,
    buffering: bool,
    budget: usize,
    bodies: Vec<Box<dyn FnOnce() + Send>>,
) -> Option<Vec<(usize, usize, usize)>> {
    let n = bodies.len();
    let mut rng = SmallRng::seed_from_u64(seed);
    let prio = (0..n).map(|_| rng.gen_range(0..1000)).collect();
    *lock() = Some(State {
        strategy,
        rng,
        running: usize::MAX,
        alive: vec![true; n],
        prio,
        spins: vec![0; n],
        steps: 0,
        budget,
        stuck: false,
        log: vec![],
        started: 0,
        expected: n,
        buffering,
    });
    verif_sync::install(Some((hook, buffer_hook)));
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(std::thread::spawn(move || {
            ME.with(|m| m.set(i));
            {
                let mut g = lock();
                let s = g.as_mut().unwrap();
                s.started += 1;
                if s.started == s.expected {
                    let next = pick(s, usize::MAX, Point::User, false);
                    s.running = next;
                }
                COND.notify_all();
                while g.as_ref().map(|s| s.running != i).unwrap_or(false) {
                    g = COND.wait(g).unwrap_or_else(|e| e.into_inner());
                }
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
            verif_sync::flush();
            ME.with(|m| m.set(usize::MAX));
            let mut g = lock();
            if let Some(s) = g.as_mut() {
                s.alive[i] = false;
                s.steps += 1;
                let next = pick(s, i, Point::User, false);
                s.running = next;
            }
            COND.notify_all();
            drop(g);
            r.is_ok()
        }));
    }
    // wait for all threads, or for the budget to run out
    let mut ok = true;
    {
        let mut g = lock();
        loop {
            let s = g.as_ref().unwrap();
            if s.stuck {
                return None;
            }
            if s.alive.iter().all(|a| !a) {
                break;
            }
            g = COND.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }
    for h in hs {
        ok &= h.join().unwrap_or(false);
    }
    verif_sync::install(None);
    let s = lock().take().unwrap();
    PANICKED.store(!ok, std::sync::atomic::Ordering::SeqCst);
    Some(s.log)
}
