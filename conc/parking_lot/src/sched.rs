//! A scheduler that runs the threads of a program one at a time and explores, by re-execution,
//! every order of their lock acquisitions. Acquisitions that commute (of different locks, or two
//! reads) are explored in one order only (sleep sets). Between a release and the next acquisition a
//! thread does nothing another one could see, so acquisitions are the only points of choice.
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Read,
    ReadRecursive,
    Write,
    Try,
}
/// What a thread is about to do: acquire lock number `0` in mode `1`.
type Op = (usize, Mode);
fn commute(a: Op, b: Op) -> bool {
    let read = |m| matches!(m, Mode::Read | Mode::ReadRecursive);
    a.0 != b.0 || (read(a.1) && read(b.1))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Running,
    Waiting(usize, Mode),
    Done,
}
#[derive(Default)]
struct Lock {
    readers: Vec<usize>,
    writer: Option<usize>,
}
/// A point of choice of the search.
struct Point {
    ops: Vec<Option<Op>>,
    asleep: Vec<bool>,
    chosen: usize,
}
struct State {
    status: Vec<Status>,
    locks: HashMap<usize, Lock>,
    names: HashMap<usize, usize>,
    stack: Vec<Point>,
    depth: usize,
    steps: usize,
    preempt: Option<usize>,
    last: Option<usize>,
    switches: usize,
    deadlock: bool,
    /// The program did something else than before under the same schedule.
    unstable: bool,
    aborted: bool,
    redundant: bool,
    trace: Vec<u8>,
}
struct Shared {
    m: Mutex<State>,
    cv: Vec<Condvar>,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}
fn me() -> Option<(Arc<Shared>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

impl State {
    fn free(&self, t: usize, addr: usize, mode: Mode) -> bool {
        let Some(l) = self.locks.get(&addr) else { return true };
        match mode {
            Mode::Try => true,
            Mode::Write => l.writer.is_none() && l.readers.is_empty(),
            Mode::ReadRecursive => l.writer.is_none(),
            // A reader queues up behind a waiting writer, even one that already reads.
            Mode::Read => {
                l.writer.is_none()
                    && !(l.readers.contains(&t)
                        && self.status.iter().any(|s| *s == Status::Waiting(addr, Mode::Write)))
            }
        }
    }
    fn abort(&mut self, sh: &Shared) {
        self.aborted = true;
        for c in &sh.cv {
            c.notify_all();
        }
    }
    /// No thread is running: picks the next one and lets it go on.
    fn choose(&mut self, sh: &Shared) {
        if self.status.iter().any(|s| *s == Status::Running) {
            return;
        }
        let n = self.status.len();
        if self.status.iter().all(|s| *s == Status::Done) {
            return;
        }
        let mut ops: Vec<Option<Op>> = vec![None; n];
        for t in 0..n {
            if let Status::Waiting(addr, mode) = self.status[t] {
                let k = self.names.len();
                let name = *self.names.entry(addr).or_insert(k);
                if self.free(t, addr, mode) {
                    ops[t] = Some((name, mode));
                }
            }
        }
        if ops.iter().all(|o| o.is_none()) {
            self.deadlock = true;
            self.abort(sh);
            return;
        }
        // over the bound, a thread that can go on does
        let bound = self.preempt.is_some_and(|b| self.switches >= b);
        let t = if self.redundant {
            ops.iter().position(|o| o.is_some()).unwrap()
        } else {
            if self.depth == self.stack.len() {
                let mut asleep: Vec<bool> = match self.stack.last() {
                    Some(p) => {
                        let c = p.ops[p.chosen].unwrap();
                        (0..n).map(|t| p.asleep[t] && ops[t].is_some_and(|o| Some(o) == p.ops[t] && commute(o, c))).collect()
                    }
                    None => vec![false; n],
                };
                // sleep sets are only sound without a bound
                if self.preempt.is_some() {
                    let keep = self.last.filter(|l| bound && ops[*l].is_some());
                    asleep = (0..n).map(|t| keep.is_some_and(|l| l != t)).collect();
                }
                match (0..n).find(|t| ops[*t].is_some() && !asleep[*t]) {
                    Some(chosen) => self.stack.push(Point { ops: ops.clone(), asleep, chosen }),
                    None => self.redundant = true,
                }
            }
            if self.redundant {
                ops.iter().position(|o| o.is_some()).unwrap()
            } else {
                let p = &self.stack[self.depth];
                if p.ops != ops {
                    self.unstable = true;
                    self.abort(sh);
                    return;
                }
                self.depth += 1;
                p.chosen
            }
        };
        if let Some(l) = self.last {
            if l != t && ops[l].is_some() {
                self.switches += 1;
            }
        }
        self.last = Some(t);
        self.steps += 1;
        self.trace.push(t as u8);
        let Status::Waiting(addr, mode) = self.status[t] else { unreachable!() };
        let l = self.locks.entry(addr).or_default();
        match mode {
            Mode::Write => l.writer = Some(t),
            Mode::Read | Mode::ReadRecursive => l.readers.push(t),
            Mode::Try => {}
        }
        self.status[t] = Status::Running;
        sh.cv[t].notify_all();
    }
}
fn wait(sh: &Shared, t: usize, addr: usize, mode: Mode) {
    let mut s = sh.m.lock().unwrap();
    s.status[t] = Status::Waiting(addr, mode);
    s.choose(sh);
    while s.status[t] != Status::Running {
        if s.aborted {
            s.status[t] = Status::Done;
            drop(s);
            std::panic::resume_unwind(Box::new("deadlock"));
        }
        s = sh.cv[t].wait(s).unwrap();
    }
}
pub(crate) fn acquire(addr: usize, mode: Mode) {
    if let Some((sh, t)) = me() {
        if sh.m.lock().unwrap().aborted {
            return;
        }
        wait(&sh, t, addr, mode);
    }
}
pub(crate) fn try_acquire(addr: usize, mode: Mode) -> bool {
    let Some((sh, t)) = me() else { return true };
    wait(&sh, t, addr, Mode::Try);
    let mut s = sh.m.lock().unwrap();
    let l = s.locks.entry(addr).or_default();
    let ok = l.writer.is_none() && (mode != Mode::Write || l.readers.is_empty());
    if ok {
        match mode {
            Mode::Write => l.writer = Some(t),
            _ => l.readers.push(t),
        }
    }
    ok
}
pub(crate) fn release(addr: usize) {
    if let Some((sh, t)) = me() {
        let mut s = sh.m.lock().unwrap();
        let l = s.locks.entry(addr).or_default();
        if l.writer == Some(t) {
            l.writer = None;
        } else if let Some(i) = l.readers.iter().position(|r| *r == t) {
            l.readers.remove(i);
        }
    }
}
/// How many acquisitions were granted so far.
pub fn now() -> usize {
    me().map_or(0, |(sh, _)| sh.m.lock().unwrap().steps)
}

/// What was explored.
#[derive(Default, Debug)]
pub struct Explored {
    pub executions: u64,
    pub redundant: u64,
    pub acquisitions: u64,
    /// Not all was explored: the program's own choices differed between executions.
    pub unstable: bool,
    /// Not all was explored: that would have taken more acquisitions than allowed.
    pub cut: bool,
}

/// Explores every schedule of the program that `make` builds anew for every execution: shared
/// state and the threads' bodies. `each` sees every execution that is not redundant; exploring
/// stops when it fails. With `preempt`, only schedules with at most that many preemptions; with
/// `budget`, no further schedule after that many acquisitions.
pub fn explore<S: Sync + 'static, T: Send, E>(
    preempt: Option<usize>,
    budget: u64,
    make: impl Fn() -> S,
    bodies: &[&(dyn Fn(&S) -> T + Sync)],
    mut each: impl FnMut(&S, Vec<Option<T>>, bool, &[u8]) -> Result<(), E>,
) -> Result<Explored, E> {
    let n = bodies.len();
    let mut stack: Vec<Point> = vec![];
    let mut ex = Explored::default();
    loop {
        let shared = make();
        let sh = Arc::new(Shared {
            m: Mutex::new(State {
                status: vec![Status::Running; n],
                locks: HashMap::new(),
                names: HashMap::new(),
                stack: std::mem::take(&mut stack),
                depth: 0,
                steps: 0,
                preempt,
                last: None,
                switches: 0,
                deadlock: false,
                unstable: false,
                aborted: false,
                redundant: false,
                trace: vec![],
            }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
        });
        let results: Vec<Option<T>> = std::thread::scope(|sc| {
            let hs: Vec<_> = bodies
                .iter()
                .enumerate()
                .map(|(t, b)| {
                    let (sh, shared) = (sh.clone(), &shared);
                    std::thread::Builder::new()
                        .stack_size(4 << 20)
                        .spawn_scoped(sc, move || {
                            ME.with(|m| *m.borrow_mut() = Some((sh.clone(), t)));
                            let r = catch_unwind(AssertUnwindSafe(|| b(shared))).ok();
                            ME.with(|m| *m.borrow_mut() = None);
                            let mut s = sh.m.lock().unwrap();
                            s.status[t] = Status::Done;
                            if !s.aborted {
                                s.choose(&sh);
                            }
                            r
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut s = sh.m.lock().unwrap();
        stack = std::mem::take(&mut s.stack);
        ex.executions += 1;
        ex.acquisitions += s.steps as u64;
        ex.redundant += s.redundant as u64;
        if s.unstable {
            ex.unstable = true;
            return Ok(ex);
        }
        if !s.redundant {
            let (dead, trace) = (s.deadlock, std::mem::take(&mut s.trace));
            drop(s);
            each(&shared, results, dead, &trace)?;
        } else {
            drop(s);
        }
        if ex.acquisitions > budget {
            ex.cut = true;
            return Ok(ex);
        }
        // the next schedule
        loop {
            let Some(p) = stack.last_mut() else { return Ok(ex) };
            p.asleep[p.chosen] = true;
            match (0..n).find(|t| p.ops[*t].is_some() && !p.asleep[*t]) {
                Some(t) => {
                    p.chosen = t;
                    break;
                }
                None => {
                    stack.pop();
                }
            }
        }
    }
}
