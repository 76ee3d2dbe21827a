//! A controlled world: threads of which exactly one runs at a time, and a scheduler that decides at
//! every channel operation, thread join and explicit step which operation happens next. The code between two
//! scheduling points runs without interruption.
//!
//! An execution follows a `Plan` (the choices of a prefix and the sleep set at its end) and then always
//! takes the first choice that is not asleep; it records the choices, what was left at every node and
//! the footprint of every transition, from which the explorer derives further plans.
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dir {
    Send(u32),
    Recv(u32),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Buffered(Option<usize>),
    Rendezvous,
    Never,
    Timer,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Outcome {
    Message,
    Disconnected,
}

/// What a thread waits for.
#[derive(Clone, Debug)]
enum Point {
    Select { ops: Vec<Dir>, timeout: bool, biased: bool },
    Try { ops: Vec<Dir>, biased: bool },
    Join(u32),
    DropLast(u32),
    Step,
}

/// One transition: thread, alternative, and the other party of a rendezvous with its alternative.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Key {
    pub t: u32,
    pub alt: i16,
    pub with: Option<(u32, u8)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Access {
    Thread(u32),
    Send(u32),
    Recv(u32),
    /// a handle dropped, or both ends looked at
    DropRecv(u32),
    All(u32),
    /// memory shared outside of channels is read, or may be written
    SharedRead,
    SharedWrite,
    /// conflicts with everything (no reduction)
    Any,
}
pub type Footprint = Vec<Access>;

fn conflict(a: Access, b: Access) -> bool {
    use Access::*;
    match (a, b) {
        (Thread(x), Thread(y)) | (Send(x), Send(y)) | (Recv(x), Recv(y)) => x == y,
        (DropRecv(x), Send(y)) | (Send(x), DropRecv(y)) => x == y,
        (All(x), All(y)) => x == y,
        (All(x), Send(y) | Recv(y) | DropRecv(y)) | (Send(y) | Recv(y) | DropRecv(y), All(x)) => x == y,
        (SharedWrite, SharedRead | SharedWrite) | (SharedRead, SharedWrite) | (Any, _) | (_, Any) => true,
        _ => false,
    }
}
pub fn dependent(a: &Footprint, b: &Footprint) -> bool {
    a.iter().any(|x| b.iter().any(|y| conflict(*x, *y)))
}

/// What executions that differ only in the order of independent transitions have in common: for every transition
/// the set of transitions before it, counted per thread.
pub fn class(trace: &[Node]) -> Vec<(Key, Vec<(Key, u32)>)> {
    let fps: Vec<Footprint> =
        trace.iter().map(|n| n.fp.iter().filter(|a| **a != Access::Any).copied().collect()).collect();
    let mut before: Vec<std::collections::BTreeSet<usize>> = vec![];
    for i in 0..trace.len() {
        let mut b = std::collections::BTreeSet::new();
        for j in 0..i {
            if dependent(&fps[i], &fps[j]) {
                b.insert(j);
                b.extend(before[j].iter().copied());
            }
        }
        before.push(b);
    }
    let mut out: Vec<_> = (0..trace.len())
        .map(|i| {
            let mut m: BTreeMap<Key, u32> = BTreeMap::new();
            for j in &before[i] {
                *m.entry(trace[*j].key).or_default() += 1;
            }
            (trace[i].key, m.into_iter().collect::<Vec<_>>())
        })
        .collect();
    out.sort();
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Event {
    Sent(u32),
    Received(u32),
    Timer,
    Panic(String),
    Note(u32, u32),
    Finished,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
enum Status {
    /// runs, or will be run before the next transition
    Run,
    Waiting,
    /// its operation was chosen
    Go(usize, Option<Outcome>),
    /// the other party of a rendezvous still has to hand over the message
    AwaitDeposit(usize),
    Finished,
}
struct Th {
    status: Status,
    point: Option<Point>,
    children: u32,
    chans: u32,
    received: u32,
    reader: bool,
    native: usize,
}
#[derive(Debug)]
struct Ch {
    kind: Kind,
    len: usize,
    senders: i32,
    receivers: i32,
}

#[derive(Clone, Default)]
pub struct Plan {
    pub prefix: Vec<Key>,
    /// transitions asleep at the node of the last choice of the prefix
    pub sleep: Vec<(Key, Footprint)>,
    /// what else remains to be tried at that node
    pub rest: Vec<Key>,
}
pub struct Node {
    pub key: Key,
    pub fp: Footprint,
    pub sleep: Vec<(Key, Footprint)>,
    pub rest: Vec<Key>,
}

struct Inner {
    threads: BTreeMap<u32, Th>,
    chans: BTreeMap<u32, Ch>,
    runnable: VecDeque<u32>,
    cur: Option<u32>,
    plan: Plan,
    trace: Vec<Node>,
    fp: Footprint,
    asleep: bool,
    redundant: bool,
    diverged: Option<String>,
    deadlock: Option<String>,
    over: bool,
    progress: u64,
    events: Vec<(u32, Event)>,
    transitions: u64,
    timer: bool,
    quiescent: bool,
}

pub struct World {
    m: Mutex<Inner>,
    cv: Mutex<BTreeMap<u32, Arc<Condvar>>>,
    done: Condvar,
    /// scheduling points in front of accesses to memory shared outside of channels
    pub steps: bool,
    /// treat all transitions as dependent: no reduction
    pub full: bool,
}

thread_local! {
    static CUR: RefCell<Option<(Arc<World>, u32)>> = const { RefCell::new(None) };
}
pub fn try_current() -> Option<(Arc<World>, u32)> {
    CUR.try_with(|c| c.try_borrow().ok().and_then(|x| x.clone())).ok().flatten()
}
pub fn controlled() -> bool {
    CUR.try_with(|c| c.try_borrow().map(|x| x.is_some()).unwrap_or(false)).unwrap_or(false)
}
pub fn current() -> Arc<World> {
    try_current().expect("channel used outside of a controlled world").0
}
fn me() -> u32 {
    try_current().map(|x| x.1).unwrap_or(0)
}
pub fn enter(w: &Arc<World>, t: u32) {
    CUR.with(|c| *c.borrow_mut() = Some((w.clone(), t)));
}
pub fn leave() {
    CUR.with(|c| *c.borrow_mut() = None);
}

pub struct Run {
    pub trace: Vec<Node>,
    pub events: Vec<(u32, Event)>,
    pub redundant: bool,
    pub diverged: Option<String>,
    pub deadlock: Option<String>,
    pub transitions: u64,
    /// the first timer fired when nothing else could happen
    pub quiescent: bool,
}

impl World {
    pub fn new(plan: Plan, steps: bool, full: bool) -> Arc<World> {
        let w = World {
            m: Mutex::new(Inner {
                threads: BTreeMap::new(),
                chans: BTreeMap::new(),
                runnable: VecDeque::new(),
                cur: Some(0),
                plan,
                trace: vec![],
                fp: vec![],
                asleep: false,
                redundant: false,
                diverged: None,
                deadlock: None,
                over: false,
                progress: 0,
                events: vec![],
                transitions: 0,
                timer: false,
                quiescent: false,
            }),
            cv: Default::default(),
            done: Condvar::new(),
            steps,
            full,
        };
        w.add_thread(0);
        Arc::new(w)
    }
    fn lock(&self) -> MutexGuard<'_, Inner> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn add_thread(&self, t: u32) {
        self.cv.lock().unwrap().insert(t, Arc::new(Condvar::new()));
        self.lock().threads.insert(
            t,
            Th { status: Status::Run, point: None, children: 0, chans: 0, received: 0, reader: false, native: 0 },
        );
    }
    fn wake(&self, t: u32) {
        if let Some(c) = self.cv.lock().unwrap().get(&t) {
            c.notify_all();
        }
    }
    /// A thread is being created by the current one: its identity.
    pub fn spawn(&self) -> u32 {
        let p = me();
        let t = {
            let mut g = self.lock();
            let th = g.threads.get_mut(&p).unwrap();
            th.children += 1;
            p * 8 + th.children
        };
        self.add_thread(t);
        let mut g = self.lock();
        g.runnable.push_back(t);
        g.fp.push(Access::Thread(t));
        t
    }
    pub fn set_native(&self, t: u32, native: usize) {
        self.lock().threads.get_mut(&t).unwrap().native = native;
    }
    pub fn by_native(&self, native: usize) -> Option<u32> {
        self.lock().threads.iter().rev().find(|(_, x)| x.native == native).map(|x| *x.0)
    }
    /// The new thread waits here until it is run for the first time.
    pub fn start(self: &Arc<World>, t: u32) {
        enter(self, t);
        let g = self.lock();
        drop(self.wait(g, t));
    }
    fn wait<'a>(&'a self, mut g: MutexGuard<'a, Inner>, t: u32) -> MutexGuard<'a, Inner> {
        let cv = self.cv.lock().unwrap()[&t].clone();
        while g.cur != Some(t) {
            g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
        }
        g
    }
    /// The thread has ended.
    pub fn finish(&self, t: u32) {
        let mut g = self.lock();
        let th = g.threads.get_mut(&t).unwrap();
        th.status = Status::Finished;
        g.events.push((t, Event::Finished));
        g.progress += 1;
        g.cur = None;
        self.dispatch(&mut g);
        drop(g);
        leave();
    }
    pub fn note(&self, a: u32, b: u32) {
        let t = me();
        self.lock().events.push((t, Event::Note(a, b)));
    }
    pub fn panicked(&self, what: String) {
        let t = me();
        self.lock().events.push((t, Event::Panic(what)));
    }
    /// A scheduling point of a worker in front of its reading memory shared outside of channels.
    pub fn step(&self) {
        if self.steps {
            let t = me();
            self.lock().threads.get_mut(&t).unwrap().reader = true;
            self.point(Point::Step);
            self.lock().fp.push(Access::SharedRead);
        }
    }
    pub fn join(&self, t: u32) {
        self.point(Point::Join(t));
    }

    pub fn new_chan(&self, kind: Kind, len: usize) -> u32 {
        let t = me();
        let mut g = self.lock();
        let th = g.threads.get_mut(&t).unwrap();
        th.chans += 1;
        let id = t * 4096 + th.chans;
        g.chans.insert(id, Ch { kind, len, senders: 1, receivers: 1 });
        id
    }
    pub fn handles(&self, c: u32, s: i32, r: i32) {
        let mut g = self.lock();
        let ch = g.chans.get_mut(&c).unwrap();
        ch.senders += s;
        ch.receivers += r;
    }
    /// Drop a receiver; true if it was the last one.
    pub fn drop_receiver(&self, c: u32) -> bool {
        if controlled() && !std::thread::panicking() {
            let g = self.lock();
            let ch = &g.chans[&c];
            let last = ch.receivers == 1 && ch.senders > 0 && !matches!(ch.kind, Kind::Never | Kind::Timer);
            drop(g);
            if last {
                self.point(Point::DropLast(c));
            }
        }
        let mut g = self.lock();
        g.fp.push(Access::DropRecv(c));
        let ch = g.chans.get_mut(&c).unwrap();
        ch.receivers -= 1;
        if ch.receivers == 0 {
            ch.len = 0;
        }
        ch.receivers == 0
    }
    pub fn len(&self, c: u32) -> usize {
        self.point(Point::Step);
        let mut g = self.lock();
        g.fp.push(Access::All(c));
        match g.chans[&c].kind {
            Kind::Rendezvous => 0,
            _ => g.chans[&c].len,
        }
    }
    pub fn capacity(&self, c: u32) -> Option<usize> {
        match self.lock().chans[&c].kind {
            Kind::Rendezvous => Some(0),
            Kind::Buffered(c) => c,
            _ => Some(1),
        }
    }
    /// The message of a chosen send has been put into the channel.
    pub fn deposited(&self, c: u32) {
        let t = me();
        {
            let mut g = self.lock();
            g.events.push((t, Event::Sent(c)));
            let ch = g.chans.get_mut(&c).unwrap();
            if ch.kind == Kind::Rendezvous {
                let other = g
                    .threads
                    .iter()
                    .find(|(_, x)| {
                        matches!((x.status, &x.point), (Status::AwaitDeposit(i), Some(Point::Select { ops, .. } | Point::Try { ops, .. })) if ops[i] == Dir::Recv(c))
                    })
                    .map(|x| *x.0);
                if let Some(o) = other {
                    let th = g.threads.get_mut(&o).unwrap();
                    let Status::AwaitDeposit(i) = th.status else { unreachable!() };
                    th.status = Status::Go(i, Some(Outcome::Message));
                    th.received += 1;
                    g.runnable.push_back(o);
                    g.events.push((o, Event::Received(c)));
                }
            } else {
                ch.len += 1;
            }
        }
        if self.steps && !std::thread::panicking() {
            // what the sender does next may happen after what the receiver does next
            self.point(Point::Step);
        }
    }
    pub fn select(&self, ops: &[Dir], timeout: bool) -> Option<(usize, Outcome)> {
        self.point(Point::Select { ops: ops.to_vec(), timeout, biased: false })
    }
    pub fn try_select(&self, ops: &[Dir], biased: bool) -> Option<(usize, Outcome)> {
        self.point(Point::Try { ops: ops.to_vec(), biased })
    }

    fn point(&self, p: Point) -> Option<(usize, Outcome)> {
        let t = me();
        let mut g = self.lock();
        assert!(g.cur == Some(t), "a thread runs out of turn");
        let th = g.threads.get_mut(&t).unwrap();
        th.status = Status::Waiting;
        th.point = Some(p);
        g.progress += 1;
        g.cur = None;
        self.dispatch(&mut g);
        let mut g = self.wait(g, t);
        let th = g.threads.get_mut(&t).unwrap();
        let s = th.status;
        th.status = Status::Run;
        th.point = None;
        match s {
            Status::Go(i, Some(o)) => Some((i, o)),
            _ => None,
        }
    }

    /// What thread `t` could do with its `i`-th operation now.
    fn alts(g: &Inner, t: u32, i: usize, d: Dir, out: &mut Vec<Key>) {
        let key = Key { t, alt: i as i16, with: None };
        match d {
            Dir::Send(c) => {
                let ch = &g.chans[&c];
                if ch.receivers <= 0 {
                    out.push(key);
                    return;
                }
                match ch.kind {
                    Kind::Buffered(cap) => {
                        if cap.is_none_or(|n| ch.len < n) {
                            out.push(key)
                        }
                    }
                    Kind::Rendezvous => {
                        let mut virgin = false;
                        for (u, th) in &g.threads {
                            if *u == t || th.status != Status::Waiting {
                                continue;
                            }
                            let Some(Point::Select { ops, .. }) = &th.point else { continue };
                            for (j, o) in ops.iter().enumerate() {
                                if *o == Dir::Recv(c) {
                                    // receivers that have done nothing yet are interchangeable
                                    if ops.len() == 1 && th.received == 0 && th.children == 0 && *u != 0 {
                                        if virgin {
                                            continue;
                                        }
                                        virgin = true;
                                    }
                                    out.push(Key { with: Some((*u, j as u8)), ..key });
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
            Dir::Recv(c) => {
                let ch = &g.chans[&c];
                match ch.kind {
                    Kind::Never => {}
                    Kind::Timer | Kind::Buffered(_) if ch.len > 0 => out.push(key),
                    Kind::Timer => {}
                    _ => {
                        if ch.senders <= 0 {
                            out.push(key)
                        }
                    }
                }
            }
        }
    }
    fn enabled(g: &Inner) -> Vec<Key> {
        let mut out = vec![];
        for (t, th) in &g.threads {
            if th.status != Status::Waiting {
                continue;
            }
            let single = Key { t: *t, alt: 0, with: None };
            match th.point.as_ref().unwrap() {
                Point::Select { ops, timeout, .. } => {
                    for (i, d) in ops.iter().enumerate() {
                        Self::alts(g, *t, i, *d, &mut out);
                    }
                    if *timeout {
                        out.push(Key { alt: -1, ..single });
                    }
                }
                Point::Try { .. } | Point::Step | Point::DropLast(_) => out.push(single),
                Point::Join(u) => {
                    if g.threads[u].status == Status::Finished {
                        out.push(single)
                    }
                }
            }
        }
        out
    }

    /// Decide what happens next. Called with no thread running.
    fn dispatch(&self, g: &mut Inner) {
        if g.over {
            return;
        }
        if let Some(t) = g.runnable.pop_front() {
            g.cur = Some(t);
            self.wake(t);
            return;
        }
        // the previous transition and everything it led to is complete
        let k = g.trace.len();
        if g.transitions > 0 && !g.redundant && k > 0 {
            let fp = std::mem::take(&mut g.fp);
            g.trace[k - 1].fp = fp;
        } else {
            g.fp.clear();
        }
        let en = Self::enabled(g);
        if en.is_empty() {
            g.over = true;
            if g.threads.values().any(|t| t.status != Status::Finished) {
                g.deadlock = Some(Self::describe(g));
            }
            self.done.notify_all();
            return;
        }
        let l = g.plan.prefix.len();
        let key = if g.redundant {
            // end this execution, whatever it does: it was explored elsewhere
            *en.iter().find(|e| e.t == 0).unwrap_or(&en[0])
        } else if k < l {
            let key = g.plan.prefix[k];
            if !en.contains(&key) {
                g.diverged = Some(format!("step {k}: {key:?} is not possible, only {en:?}"));
                g.over = true;
                self.done.notify_all();
                return;
            }
            let sleep = if k + 1 == l { g.plan.sleep.clone() } else { vec![] };
            g.trace.push(Node { key, fp: vec![], sleep, rest: vec![] });
            key
        } else {
            let sleep: Vec<_> = match g.trace.last() {
                Some(n) => n.sleep.iter().filter(|s| !dependent(&s.1, &n.fp)).cloned().collect(),
                None => vec![],
            };
            let cand: Vec<Key> = en.iter().filter(|e| !sleep.iter().any(|s| s.0 == **e)).copied().collect();
            if cand.is_empty() {
                g.redundant = true;
                *en.iter().find(|e| e.t == 0).unwrap_or(&en[0])
            } else {
                g.trace.push(Node { key: cand[0], fp: vec![], sleep, rest: cand[1..].to_vec() });
                cand[0]
            }
        };
        if !g.timer && Self::is_timer(g, key) {
            g.timer = true;
            g.quiescent = en.iter().all(|k| Self::is_timer(g, *k));
        }
        g.transitions += 1;
        if g.transitions > 5000 {
            g.diverged = Some("an execution of more than 5000 operations".into());
            g.over = true;
            self.done.notify_all();
            return;
        }
        self.perform(g, key);
    }

    fn is_timer(g: &Inner, k: Key) -> bool {
        match &g.threads[&k.t].point {
            Some(Point::Select { ops, .. }) => {
                k.alt < 0 || matches!(ops[k.alt as usize], Dir::Recv(c) if g.chans[&c].kind == Kind::Timer)
            }
            _ => false,
        }
    }
    fn perform(&self, g: &mut Inner, key: Key) {
        let t = key.t;
        g.fp.push(Access::Thread(t));
        if self.steps && t != 0 && !g.threads[&t].reader {
            g.fp.push(Access::SharedWrite);
        }
        if self.full {
            g.fp.push(Access::Any);
        }
        let point = g.threads[&t].point.clone().unwrap();
        let go = |g: &mut Inner, t: u32, i: usize, o: Option<Outcome>| {
            g.threads.get_mut(&t).unwrap().status = Status::Go(i, o);
        };
        match point {
            Point::Step | Point::Join(_) => go(g, t, 0, None),
            Point::DropLast(c) => {
                g.fp.push(Access::DropRecv(c));
                go(g, t, 0, None)
            }
            Point::Select { ops, .. } => {
                if key.alt < 0 {
                    go(g, t, 0, None)
                } else {
                    self.op(g, key, ops[key.alt as usize]);
                }
            }
            Point::Try { ops, .. } => {
                let mut alts = vec![];
                for (i, d) in ops.iter().enumerate() {
                    let (Dir::Send(c) | Dir::Recv(c)) = *d;
                    g.fp.push(Access::All(c));
                    Self::alts(g, t, i, *d, &mut alts);
                }
                match alts.first().copied() {
                    Some(a) => self.op(g, a, ops[a.alt as usize]),
                    None => go(g, t, 0, None),
                }
            }
        }
        g.cur = Some(t);
        self.wake(t);
    }
    fn op(&self, g: &mut Inner, key: Key, d: Dir) {
        let t = key.t;
        let out;
        match d {
            Dir::Send(c) => {
                g.fp.push(Access::Send(c));
                let ch = &g.chans[&c];
                if ch.receivers <= 0 {
                    out = Outcome::Disconnected;
                } else {
                    out = Outcome::Message;
                    if let Some((u, j)) = key.with {
                        g.fp.push(Access::Recv(c));
                        g.fp.push(Access::Thread(u));
                        g.threads.get_mut(&u).unwrap().status = Status::AwaitDeposit(j as usize);
                    }
                }
            }
            Dir::Recv(c) => {
                g.fp.push(Access::Recv(c));
                let ch = g.chans.get_mut(&c).unwrap();
                if ch.len > 0 {
                    ch.len -= 1;
                    out = Outcome::Message;
                    let e = if ch.kind == Kind::Timer { Event::Timer } else { Event::Received(c) };
                    g.events.push((t, e));
                    g.threads.get_mut(&t).unwrap().received += 1;
                } else {
                    out = Outcome::Disconnected;
                }
            }
        }
        g.threads.get_mut(&t).unwrap().status = Status::Go(key.alt as usize, Some(out));
    }

    fn describe(g: &Inner) -> String {
        let mut s = vec![];
        for (t, th) in &g.threads {
            if th.status != Status::Finished {
                s.push(format!("thread {t} waits for ever at {:?} ({:?})", th.point, th.status));
            }
        }
        s.join("; ")
    }

    /// Wait for the end of the execution (called from outside of the world).
    pub fn result(&self, limit: std::time::Duration) -> Run {
        let mut g = self.lock();
        let mut last = g.progress;
        while !g.over {
            let (g2, to) = self.done.wait_timeout(g, limit).unwrap_or_else(|e| e.into_inner());
            g = g2;
            if to.timed_out() && !g.over {
                if g.progress == last {
                    g.deadlock = Some(format!(
                        "thread {:?} neither ended nor reached a channel operation within {limit:?}; {}",
                        g.cur,
                        Self::describe(&g)
                    ));
                    g.over = true;
                }
                last = g.progress;
            }
        }
        Run {
            trace: std::mem::take(&mut g.trace),
            events: std::mem::take(&mut g.events),
            redundant: g.redundant,
            diverged: g.diverged.take(),
            deadlock: g.deadlock.take(),
            transitions: g.transitions,
            quiescent: g.quiescent,
        }
    }
}
