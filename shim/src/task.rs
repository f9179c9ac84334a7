use crate::mc::{self, LeafKind, LeafSlot};
pub use real::task::{ready, Context, Poll, Waker};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::time::Duration;

async fn leaf(kind: LeafKind) {
    let mut slot = LeafSlot::new();
    std::future::poll_fn(move |cx| match slot.poll(kind.clone(), cx) {
        Some(_) => Poll::Ready(()),
        None => Poll::Pending,
    })
    .await
}

pub async fn sleep(dur: Duration) {
    let deadline = mc::with(|w| w.now.saturating_add(dur.as_nanos().min(u64::MAX as u128 / 2) as u64));
    leaf(LeafKind::Sleep { deadline }).await
}

/// Timers of the combinators of the real crate.
pub(crate) fn install_timers() {
    real::install_timers(|d| Box::pin(sleep(d)));
}

pub async fn yield_now() {
    leaf(LeafKind::Yield).await
}

/// Runs a future that does not block (the program uses this while building its components).
pub fn block_on<F: Future<Output = T>, T>(f: F) -> T {
    let mut f = Box::pin(f);
    let waker = Waker::noop();
    let mut cx = Context::from_waker(waker);
    for _ in 0..10_000 {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("MC: nested block_on of a blocking future is not modelled");
}

pub struct JoinHandle<T> {
    id: usize,
    out: Arc<Mutex<Option<T>>>,
    slot: LeafSlot,
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> Future for JoinHandle<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let id = self.id;
        if self.slot.poll(LeafKind::Join(id), cx).is_none() {
            return Poll::Pending;
        }
        mc::with(|w| w.op(61, id as u64, 0, true));
        let v = self.out.lock().unwrap().take().expect("joined twice");
        Poll::Ready(v)
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + Send + 'static,
    T: Send + 'static,
{
    spawn_local(f)
}
pub fn spawn_local<F, T>(f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + 'static,
    T: 'static,
{
    let out = Arc::new(Mutex::new(None));
    let o2 = out.clone();
    let id = mc::with(|w| {
        w.add_spawned(Box::pin(async move {
            let v = f.await;
            *o2.lock().unwrap() = Some(v);
        }))
    });
    JoinHandle { id, out, slot: LeafSlot::new() }
}
pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    spawn_local(async move { f() })
}
