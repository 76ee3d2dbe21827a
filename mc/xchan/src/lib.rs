//! A stand-in for `crossbeam-channel` with the same interface. Every channel operation is a
//! scheduling point of a controlled `World` (see world.rs), which runs one thread at a time and decides
//! which operation happens next. `select_macro.rs` and `err.rs` are crossbeam's own, unchanged.
mod err;
mod select_macro;
pub mod world;

pub use err::*;
use std::collections::VecDeque;
use std::fmt;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use world::{current, Dir, Kind, Outcome, World};

struct Chan<T> {
    w: Arc<World>,
    id: u32,
    q: Mutex<VecDeque<T>>,
}

fn chan<T>(kind: Kind, q: VecDeque<T>) -> Arc<Chan<T>> {
    let w = current();
    let id = w.new_chan(kind, q.len());
    Arc::new(Chan { w, id, q: Mutex::new(q) })
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);

pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    let c = chan(Kind::Buffered(None), VecDeque::new());
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let k = if cap == 0 { Kind::Rendezvous } else { Kind::Buffered(Some(cap)) };
    let c = chan(k, VecDeque::new());
    (Sender(c.clone()), Receiver(c))
}
pub fn never<T>() -> Receiver<T> {
    Receiver(chan(Kind::Never, VecDeque::new()))
}
/// A timer: it may fire at any moment.
pub fn at(when: Instant) -> Receiver<Instant> {
    Receiver(chan(Kind::Timer, [when].into()))
}
pub fn after(d: Duration) -> Receiver<Instant> {
    at(Instant::now() + d)
}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.w.handles(self.0.id, 1, 0);
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.w.handles(self.0.id, 0, 1);
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.w.handles(self.0.id, -1, 0);
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if self.0.w.drop_receiver(self.0.id) {
            // the last receiver is gone: what is left in the channel goes with it
            let rest: Vec<T> = self.0.q.lock().unwrap().drain(..).collect();
            drop(rest);
        }
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Sender { .. }")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.pad("Receiver { .. }")
    }
}

impl<T> Sender<T> {
    fn done(&self, o: Outcome, msg: T) -> Result<(), T> {
        match o {
            Outcome::Disconnected => Err(msg),
            _ => {
                self.0.q.lock().unwrap().push_back(msg);
                self.0.w.deposited(self.0.id);
                Ok(())
            }
        }
    }
    pub fn send(&self, msg: T) -> Result<(), SendError<T>> {
        let (_, o) = self.0.w.select(&[Dir::Send(self.0.id)], false).unwrap();
        self.done(o, msg).map_err(SendError)
    }
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        match self.0.w.try_select(&[Dir::Send(self.0.id)], false) {
            Some((_, o)) => self.done(o, msg).map_err(TrySendError::Disconnected),
            None => Err(TrySendError::Full(msg)),
        }
    }
    pub fn send_timeout(&self, msg: T, _: Duration) -> Result<(), SendTimeoutError<T>> {
        match self.0.w.select(&[Dir::Send(self.0.id)], true) {
            Some((_, o)) => self.done(o, msg).map_err(SendTimeoutError::Disconnected),
            None => Err(SendTimeoutError::Timeout(msg)),
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.capacity().is_some_and(|c| self.len() >= c)
    }
    pub fn len(&self) -> usize {
        self.0.w.len(self.0.id)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.w.capacity(self.0.id)
    }
    pub fn same_channel(&self, o: &Sender<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}

impl<T> Receiver<T> {
    fn done(&self, o: Outcome) -> Result<T, RecvError> {
        match o {
            Outcome::Disconnected => Err(RecvError),
            _ => Ok(self.0.q.lock().unwrap().pop_front().expect("message")),
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        let (_, o) = self.0.w.select(&[Dir::Recv(self.0.id)], false).unwrap();
        self.done(o)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        match self.0.w.try_select(&[Dir::Recv(self.0.id)], false) {
            Some((_, o)) => self.done(o).map_err(|_| TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
        match self.0.w.select(&[Dir::Recv(self.0.id)], true) {
            Some((_, o)) => self.done(o).map_err(|_| RecvTimeoutError::Disconnected),
            None => Err(RecvTimeoutError::Timeout),
        }
    }
    pub fn recv_deadline(&self, _: Instant) -> Result<T, RecvTimeoutError> {
        self.recv_timeout(Duration::ZERO)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.capacity().is_some_and(|c| self.len() >= c)
    }
    pub fn len(&self) -> usize {
        self.0.w.len(self.0.id)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.w.capacity(self.0.id)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}

pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}

pub struct SelectedOperation<'a> {
    index: usize,
    outcome: Outcome,
    _p: PhantomData<&'a ()>,
}
impl SelectedOperation<'_> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn send<T>(self, s: &Sender<T>, msg: T) -> Result<(), SendError<T>> {
        s.done(self.outcome, msg).map_err(SendError)
    }
    pub fn recv<T>(self, r: &Receiver<T>) -> Result<T, RecvError> {
        r.done(self.outcome)
    }
}

#[doc(hidden)]
pub mod internal {
    use super::*;
    pub trait SelectHandle {
        fn dir(&self) -> Dir;
        fn world(&self) -> &Arc<World>;
    }
    impl<T> SelectHandle for Sender<T> {
        fn dir(&self) -> Dir {
            Dir::Send(self.0.id)
        }
        fn world(&self) -> &Arc<World> {
            &self.0.w
        }
    }
    impl<T> SelectHandle for Receiver<T> {
        fn dir(&self) -> Dir {
            Dir::Recv(self.0.id)
        }
        fn world(&self) -> &Arc<World> {
            &self.0.w
        }
    }
    type H<'a> = (&'a dyn SelectHandle, usize, *const u8);
    fn made<'a>(h: &[H<'a>], r: Option<(usize, Outcome)>) -> Option<SelectedOperation<'a>> {
        r.map(|(i, outcome)| SelectedOperation { index: h[i].1, outcome, _p: PhantomData })
    }
    fn dirs(h: &[H<'_>], biased: bool) -> (Arc<World>, Vec<Dir>) {
        assert!(!biased || h.len() <= 1, "select_biased is not modelled");
        (h[0].0.world().clone(), h.iter().map(|x| x.0.dir()).collect())
    }
    pub fn select<'a>(h: &mut [H<'a>], biased: bool) -> SelectedOperation<'a> {
        let (w, d) = dirs(h, biased);
        made(h, w.select(&d, false)).unwrap()
    }
    pub fn try_select<'a>(h: &mut [H<'a>], biased: bool) -> Option<SelectedOperation<'a>> {
        let (w, d) = dirs(h, biased);
        made(h, w.try_select(&d, biased))
    }
    pub fn select_timeout<'a>(h: &mut [H<'a>], _: Duration, biased: bool) -> Option<SelectedOperation<'a>> {
        let (w, d) = dirs(h, biased);
        made(h, w.select(&d, true))
    }
}
