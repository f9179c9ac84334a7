//! Model of `async_channel` 1.7 (conformance-checked against the real one by `mc conformance`).
use crate::mc::{self, LeafKind, LeafSlot};
pub use async_channel::{RecvError, SendError, TryRecvError, TrySendError};
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

struct Shared<T> {
    q: Mutex<VecDeque<T>>,
    id: usize,
}

pub struct Sender<T> {
    s: Arc<Shared<T>>,
}
pub struct Receiver<T> {
    s: Arc<Shared<T>>,
    next: LeafSlot,
}

pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    assert!(cap > 0, "capacity cannot be zero");
    make(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}
fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let id = mc::with(|w| w.new_chan(cap));
    let s = Arc::new(Shared { q: Mutex::new(VecDeque::new()), id });
    (Sender { s: s.clone() }, Receiver { s, next: LeafSlot::new() })
}

fn close_chan(id: usize) -> bool {
    mc::try_with(|w| {
        let c = &mut w.chans[id];
        let was = c.closed;
        c.closed = true;
        let n = c.name;
        w.op(3, n, was as u64, true);
        !was
    })
    .unwrap_or(false)
}
fn meta<R>(id: usize, f: impl FnOnce(&mut mc::Chan) -> R) -> R {
    mc::with(|w| f(&mut w.chans[id]))
}
fn observe(id: usize, tag: u64, v: u64) {
    mc::with(|w| {
        let n = w.chans[id].name;
        w.op(tag, n, v, false)
    })
}

fn do_recv<T>(s: &Shared<T>) -> Option<T> {
    let v = s.q.lock().unwrap().pop_front();
    mc::with(|w| {
        let c = &w.chans[s.id];
        let watched = c.peeked_by_sender || c.receivers != 1;
        w.dep(watched);
        let m = w.chans[s.id].q.pop_front();
        let n = w.chans[s.id].name;
        w.op(4, n, m.unwrap_or(0), true);
        if w.cfg.chan_events {
            let cap = w.chans[s.id].cap.unwrap_or(0) as u8;
            w.event(&s.id.to_string(), "chan-recv", &[cap]);
        }
    });
    v
}
fn do_send<T>(s: &Shared<T>, v: T) {
    s.q.lock().unwrap().push_back(v);
    mc::with(|w| {
        let m = w.fresh_name();
        let quiet = w.expected(s.id) && w.chans[s.id].senders == 1;
        w.dep(!quiet);
        let c = &mut w.chans[s.id];
        c.q.push_back(m);
        c.max_len = c.max_len.max(c.q.len());
        let n = c.name;
        w.op(5, n, 0, true);
        w.sent(s.id);
        if w.cfg.chan_events {
            let cap = w.chans[s.id].cap.unwrap_or(0) as u8;
            w.event(&s.id.to_string(), "chan-send", &[cap]);
        }
    });
}

impl<T> Sender<T> {
    pub fn try_send(&self, msg: T) -> Result<(), TrySendError<T>> {
        let (closed, full) = meta(self.s.id, |c| (c.closed, c.cap.map(|n| c.q.len() >= n).unwrap_or(false)));
        if closed {
            observe(self.s.id, 6, 1);
            return Err(TrySendError::Closed(msg));
        }
        if full {
            meta(self.s.id, |c| c.peeked_by_sender = true);
            observe(self.s.id, 6, 2);
            return Err(TrySendError::Full(msg));
        }
        meta(self.s.id, |c| c.peeked_by_sender = true);
        do_send(&self.s, msg);
        Ok(())
    }
    pub fn send(&self, msg: T) -> Send<'_, T> {
        Send { sender: self, msg: Some(msg), slot: LeafSlot::new() }
    }
    pub fn send_blocking(&self, _msg: T) -> Result<(), SendError<T>> {
        panic!("send_blocking is not modelled")
    }
    pub fn close(&self) -> bool {
        close_chan(self.s.id)
    }
    pub fn is_closed(&self) -> bool {
        let v = meta(self.s.id, |c| c.closed);
        observe(self.s.id, 7, v as u64);
        v
    }
    pub fn is_empty(&self) -> bool {
        meta(self.s.id, |c| c.peeked_by_sender = true);
        let v = meta(self.s.id, |c| c.q.is_empty());
        observe(self.s.id, 8, v as u64);
        v
    }
    pub fn is_full(&self) -> bool {
        meta(self.s.id, |c| c.peeked_by_sender = true);
        let v = meta(self.s.id, |c| c.cap.map(|n| c.q.len() >= n).unwrap_or(false));
        observe(self.s.id, 9, v as u64);
        v
    }
    pub fn len(&self) -> usize {
        meta(self.s.id, |c| c.peeked_by_sender = true);
        let v = meta(self.s.id, |c| c.q.len());
        observe(self.s.id, 10, v as u64);
        v
    }
    pub fn capacity(&self) -> Option<usize> {
        meta(self.s.id, |c| c.cap)
    }
    pub fn receiver_count(&self) -> usize {
        let v = meta(self.s.id, |c| c.receivers);
        observe(self.s.id, 9, 100 + v as u64);
        v
    }
    pub fn sender_count(&self) -> usize {
        let v = meta(self.s.id, |c| c.senders);
        observe(self.s.id, 9, 200 + v as u64);
        v
    }
}

impl<T> Receiver<T> {
    /// the checker's name for this channel
    pub fn mc_id(&self) -> usize {
        self.s.id
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let (len, closed) = meta(self.s.id, |c| (c.q.len(), c.closed));
        if len == 0 {
            if closed {
                observe(self.s.id, 11, 1);
                return Err(TryRecvError::Closed);
            }
            mc::with(|w| w.dep(true));
            observe(self.s.id, 11, 2);
            return Err(TryRecvError::Empty);
        }
        do_recv(&self.s).ok_or(TryRecvError::Empty)
    }
    pub fn recv(&self) -> Recv<'_, T> {
        Recv { receiver: self, slot: LeafSlot::new() }
    }
    pub fn recv_blocking(&self) -> Result<T, RecvError> {
        panic!("recv_blocking is not modelled")
    }
    pub fn close(&self) -> bool {
        close_chan(self.s.id)
    }
    pub fn is_closed(&self) -> bool {
        let v = meta(self.s.id, |c| c.closed);
        observe(self.s.id, 7, v as u64);
        v
    }
    pub fn is_empty(&self) -> bool {
        let v = meta(self.s.id, |c| c.q.is_empty());
        observe(self.s.id, 8, v as u64);
        v
    }
    pub fn is_full(&self) -> bool {
        let v = meta(self.s.id, |c| c.cap.map(|n| c.q.len() >= n).unwrap_or(false));
        observe(self.s.id, 9, v as u64);
        v
    }
    pub fn len(&self) -> usize {
        let v = meta(self.s.id, |c| c.q.len());
        observe(self.s.id, 10, v as u64);
        v
    }
    pub fn capacity(&self) -> Option<usize> {
        meta(self.s.id, |c| c.cap)
    }
    pub fn receiver_count(&self) -> usize {
        let v = meta(self.s.id, |c| c.receivers);
        observe(self.s.id, 9, 100 + v as u64);
        v
    }
    pub fn sender_count(&self) -> usize {
        let v = meta(self.s.id, |c| c.senders);
        observe(self.s.id, 9, 200 + v as u64);
        v
    }
}

pub struct Send<'a, T> {
    sender: &'a Sender<T>,
    msg: Option<T>,
    slot: LeafSlot,
}
impl<'a, T> Unpin for Send<'a, T> {}
impl<'a, T> Future for Send<'a, T> {
    type Output = Result<(), SendError<T>>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let id = self.sender.s.id;
        if self.slot.poll(LeafKind::Send(id), cx).is_none() {
            return Poll::Pending;
        }
        let msg = self.msg.take().expect("polled after completion");
        let (closed, full) = meta(id, |c| (c.closed, c.cap.map(|n| c.q.len() >= n).unwrap_or(false)));
        if closed {
            observe(id, 12, 1);
            mc::with(|w| w.op(13, 0, 0, true));
            return Poll::Ready(Err(SendError(msg)));
        }
        assert!(!full, "granted a send on a full channel");
        do_send(&self.sender.s, msg);
        Poll::Ready(Ok(()))
    }
}

pub struct Recv<'a, T> {
    receiver: &'a Receiver<T>,
    slot: LeafSlot,
}
impl<'a, T> Unpin for Recv<'a, T> {}
impl<'a, T> Future for Recv<'a, T> {
    type Output = Result<T, RecvError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let id = self.receiver.s.id;
        if self.slot.poll(LeafKind::Recv(id), cx).is_none() {
            return Poll::Pending;
        }
        Poll::Ready(finish_recv(&self.receiver.s))
    }
}
fn finish_recv<T>(s: &Shared<T>) -> Result<T, RecvError> {
    let len = meta(s.id, |c| c.q.len());
    if len == 0 {
        observe(s.id, 14, 1);
        mc::with(|w| w.op(15, 0, 0, true));
        return Err(RecvError);
    }
    do_recv(s).ok_or(RecvError)
}

impl<T> futures_core::Stream for Receiver<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let id = self.s.id;
        if self.next.poll(LeafKind::Recv(id), cx).is_none() {
            return Poll::Pending;
        }
        Poll::Ready(finish_recv(&self.s).ok())
    }
}
impl<T> futures_core::stream::FusedStream for Receiver<T> {
    fn is_terminated(&self) -> bool {
        meta(self.s.id, |c| c.closed && c.q.is_empty())
    }
}
impl<T> Unpin for Receiver<T> {}

impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        meta(self.s.id, |c| c.senders += 1);
        mc::with(|w| w.op(16, 0, 0, true));
        Sender { s: self.s.clone() }
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        meta(self.s.id, |c| c.receivers += 1);
        mc::with(|w| w.op(17, 0, 0, true));
        Receiver { s: self.s.clone(), next: LeafSlot::new() }
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        let id = self.s.id;
        let _ = mc::try_with(|w| {
            let quiet = w.expected(id) || w.chans[id].senders > 1 || w.chans[id].closed;
            w.dep(!quiet);
            let c = &mut w.chans[id];
            c.senders -= 1;
            if c.senders == 0 {
                c.closed = true;
            }
            let n = c.name;
            w.op(18, n, 0, true);
        });
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let id = self.s.id;
        let _ = mc::try_with(|w| {
            let quiet = w.chans[id].receivers > 1 || w.chans[id].closed;
            w.dep(!quiet);
            let c = &mut w.chans[id];
            c.receivers -= 1;
            if c.receivers == 0 {
                c.closed = true;
            }
            let n = c.name;
            w.op(19, n, 0, true);
        });
    }
}
impl<T> std::fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sender {{ .. }}")
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Receiver {{ .. }}")
    }
}
