//! A scheduler for concurrent calls: it sees each lock acquisition and release of
//! the library (hook kryoptic_locktrace), lets one thread run at a time and decides
//! at each of these points who goes on.  Locks prefer writers, as those of the
//! standard library may: a reader waits while a writer holds or awaits the lock.
use kryoptic_lib::sync::{Mode, Watch, WATCH};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::{Condvar, Mutex};

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    static REC: RefCell<Option<Vec<Value>>> = const { RefCell::new(None) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    New,
    Ready,
    Waiting,
    Running,
    Done,
}

type Op = (usize, &'static str, Mode);

struct Th {
    st: St,
    op: Option<Op>,
    prio: i64,
}

#[derive(Default)]
struct Lk {
    readers: Vec<usize>,
    writer: Option<usize>,
}

struct S {
    on: bool,
    th: Vec<Th>,
    cur: usize,
    locks: BTreeMap<usize, Lk>,
    x: u64,
    p: u64, // chance in 100 to choose at random; 0: by priority
    steps: usize,
    change: Vec<usize>,
    low: i64,
    dead: Option<String>,
}

static SCHED: Mutex<S> = Mutex::new(S {
    on: false,
    th: Vec::new(),
    cur: usize::MAX,
    locks: BTreeMap::new(),
    x: 0,
    p: 0,
    steps: 0,
    change: Vec::new(),
    low: 0,
    dead: None,
});
static CV: Condvar = Condvar::new();

fn short(what: &str) -> String {
    let w = what.split('<').next().unwrap();
    w.rsplit("::").next().unwrap().to_string()
}

impl S {
    fn rnd(&mut self, n: usize) -> usize {
        self.x ^= self.x << 13;
        self.x ^= self.x >> 7;
        self.x ^= self.x << 17;
        (self.x >> 11) as usize % n
    }
    fn free(&self, i: usize) -> bool {
        match self.th[i].op {
            None => true,
            Some((id, _, m)) => {
                let w = self.th.iter().enumerate().any(|(j, t)| {
                    j != i && t.st == St::Waiting && matches!(t.op, Some((o, _, Mode::Write)) if o == id)
                });
                match self.locks.get(&id) {
                    None => m == Mode::Write || !w,
                    Some(l) => match m {
                        Mode::Write => l.writer.is_none() && l.readers.is_empty(),
                        Mode::Read => l.writer.is_none() && !w,
                    },
                }
            }
        }
    }
    fn pick(&mut self) {
        loop {
            let cand: Vec<usize> = (0..self.th.len())
                .filter(|&i| match self.th[i].st {
                    St::Ready => self.free(i) || matches!(self.th[i].op, Some((_, _, Mode::Write))),
                    St::Waiting => self.free(i),
                    _ => false,
                })
                .collect();
            if cand.is_empty() {
                if self.th.iter().any(|t| t.st == St::New || t.st == St::Running) {
                    self.cur = usize::MAX;
                    return;
                }
                if self.th.iter().any(|t| t.st != St::Done) {
                    let d: Vec<String> = (0..self.th.len())
                        .filter(|&i| self.th[i].st != St::Done)
                        .map(|i| {
                            let (id, w, m) = self.th[i].op.unwrap_or((0, "?", Mode::Read));
                            let h: Vec<String> = self
                                .locks
                                .iter()
                                .filter(|(_, l)| l.writer == Some(i) || l.readers.contains(&i))
                                .map(|(k, _)| k.to_string())
                                .collect();
                            format!("thread {} holds [{}] and waits for {} {} ({:?})", i, h.join(","), short(w), id, m)
                        })
                        .collect();
                    self.dead = Some(d.join("; "));
                }
                self.cur = usize::MAX;
                CV.notify_all();
                return;
            }
            self.steps += 1;
            let i = if self.p > 0 {
                let r = self.rnd(100) as u64;
                if r >= self.p && cand.contains(&self.cur) {
                    self.cur
                } else {
                    let n = self.rnd(cand.len());
                    cand[n]
                }
            } else {
                if self.change.contains(&self.steps) && self.cur < self.th.len() {
                    self.low -= 1;
                    self.th[self.cur].prio = self.low;
                }
                *cand.iter().max_by_key(|&&i| self.th[i].prio).unwrap()
            };
            if !self.free(i) {
                self.th[i].st = St::Waiting; // a writer that waits keeps readers out
                continue;
            }
            if let Some((id, _, m)) = self.th[i].op {
                let l = self.locks.entry(id).or_default();
                match m {
                    Mode::Write => l.writer = Some(i),
                    Mode::Read => l.readers.push(i),
                }
            }
            self.th[i].st = St::Running;
            self.cur = i;
            CV.notify_all();
            return;
        }
    }
}

fn point(me: usize, op: Option<Op>, freed: Option<(usize, Mode)>) {
    let mut s = SCHED.lock().unwrap();
    if let Some((id, m)) = freed {
        if let Some(l) = s.locks.get_mut(&id) {
            match m {
                Mode::Write => l.writer = None,
                Mode::Read => {
                    if let Some(p) = l.readers.iter().position(|&x| x == me) {
                        l.readers.remove(p);
                    }
                }
            }
        }
    }
    s.th[me].st = St::Ready;
    s.th[me].op = op;
    s.pick();
    while s.cur != me {
        s = CV.wait(s).unwrap();
    }
}

struct W;
impl Watch for W {
    fn acquire(&self, id: usize, what: &'static str, mode: Mode) {
        REC.with(|r| {
            if let Some(v) = r.borrow_mut().as_mut() {
                v.push(json!([if mode == Mode::Read { "r" } else { "w" }, id, short(what)]));
            }
        });
        let me = ME.get();
        if me != usize::MAX {
            point(me, Some((id, what, mode)), None);
        }
    }
    fn release(&self, id: usize, what: &'static str, mode: Mode) {
        REC.with(|r| {
            if let Some(v) = r.borrow_mut().as_mut() {
                v.push(json!(["u", id, short(what)]));
            }
        });
        let me = ME.get();
        if me != usize::MAX {
            point(me, None, Some((id, mode)));
        }
    }
}

/// watches the locks from now on
pub fn install() {
    let _ = WATCH.set(Box::new(W));
}
pub fn rec_start() {
    REC.with(|r| *r.borrow_mut() = Some(Vec::new()));
}
pub fn rec_pause() -> Option<Vec<Value>> {
    REC.with(|r| r.borrow_mut().take())
}
pub fn rec_resume(v: Option<Vec<Value>>) {
    REC.with(|r| *r.borrow_mut() = v);
}
pub fn rec_stop() -> Vec<Value> {
    REC.with(|r| r.borrow_mut().take()).unwrap_or_default()
}

/// prepares for n threads
pub fn begin(n: usize, c: &Value) {
    install();
    let mut s = SCHED.lock().unwrap();
    let u = |k: &str| c.get(k).and_then(|v| v.as_u64()).unwrap_or(0);
    s.on = true;
    s.x = u("seed").wrapping_mul(0x9E3779B97F4A7C15) | 1;
    for _ in 0..8 {
        s.rnd(2);
    }
    s.p = u("p");
    s.steps = 0;
    s.low = 0;
    s.dead = None;
    s.cur = usize::MAX;
    s.locks.clear();
    s.th = (0..n).map(|_| Th { st: St::New, op: None, prio: 0 }).collect();
    for i in 0..n {
        s.th[i].prio = 1000 + s.rnd(1000) as i64;
    }
    let span = u("span").max(2) as usize;
    s.change = Vec::new();
    for _ in 0..u("d") {
        let x = 1 + s.rnd(span);
        s.change.push(x);
    }
}
/// a thread enters: waits until all have, and for its turn
pub fn enter(me: usize) {
    ME.set(me);
    let mut s = SCHED.lock().unwrap();
    s.th[me].st = St::Ready;
    if s.th.iter().all(|t| t.st != St::New) {
        s.pick();
    }
    while s.cur != me {
        s = CV.wait(s).unwrap();
    }
}
/// a point between two calls
pub fn between() {
    point(ME.get(), None, None);
}
pub fn leave(me: usize) {
    ME.set(usize::MAX);
    let mut s = SCHED.lock().unwrap();
    s.th[me].st = St::Done;
    s.pick();
}
pub fn dead() -> Option<String> {
    SCHED.lock().unwrap().dead.clone()
}
pub fn steps() -> usize {
    SCHED.lock().unwrap().steps
}
