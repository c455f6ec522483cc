//! A controlled async runtime: every spawned task is a controlled thread that polls its future and
//! otherwise parks until it is woken or its next timer is due (in virtual time).
use mcstd::mc;
use mcstd::real::sync::Mutex as RMutex;
use mcstd::real::fmt::{self, Debug};
use opentelemetry_sdk::runtime::{Runtime, RuntimeChannel, TrySend, TrySendError};
use futures_core::Stream;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

#[derive(Default)]
struct Inner {
    timers: Vec<(u64, u64, Waker)>,
    next: u64,
    stopped: bool,
    threads: Vec<std::thread::Thread>,
}
#[derive(Clone, Default)]
pub struct McRt(Arc<RMutex<Inner>>);
impl Debug for McRt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("McRt")
    }
}
struct Unpark(std::thread::Thread);
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.0.unpark()
    }
}
impl McRt {
    /// ends all tasks (what dropping a runtime does)
    pub fn stop(&self) {
        let ts: Vec<_> = {
            let mut g = self.0.lock().unwrap();
            g.stopped = true;
            g.threads.drain(..).collect()
        };
        for t in ts {
            t.unpark();
        }
    }
    fn earliest(&self) -> Option<u64> {
        self.0.lock().unwrap().timers.iter().map(|t| t.0).min()
    }
    fn fire(&self) {
        let now = mc::now_ns();
        let due: Vec<Waker> = {
            let mut g = self.0.lock().unwrap();
            let (a, b): (Vec<_>, Vec<_>) = g.timers.drain(..).partition(|t| t.0 <= now);
            g.timers = b;
            a.into_iter().map(|t| t.2).collect()
        };
        for w in due {
            w.wake();
        }
    }
}
impl Runtime for McRt {
    fn spawn<F>(&self, future: F)
    where
        F: Future<Output = ()> + Send + 'static,
    {
        let rt = self.clone();
        std::thread::spawn(move || {
            let me = std::thread::current();
            rt.0.lock().unwrap().threads.push(me.clone());
            let waker = Waker::from(Arc::new(Unpark(me)));
            let mut cx = Context::from_waker(&waker);
            let mut f = Box::pin(future);
            loop {
                if rt.0.lock().unwrap().stopped {
                    return;
                }
                if f.as_mut().poll(&mut cx).is_ready() {
                    return;
                }
                match rt.earliest() {
                    None => std::thread::park(),
                    Some(d) => {
                        let now = mc::now_ns();
                        if d > now {
                            std::thread::park_timeout(Duration::from_nanos(d - now));
                        }
                    }
                }
                rt.fire();
            }
        });
    }
    fn delay(&self, d: Duration) -> impl Future<Output = ()> + Send + 'static {
        Delay { rt: self.clone(), at: mc::now_ns() + d.as_nanos() as u64, id: None }
    }
}
struct Delay {
    rt: McRt,
    at: u64,
    id: Option<u64>,
}
impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.rt.0.lock().unwrap();
        let me = self.id;
        g.timers.retain(|t| Some(t.1) != me);
        if mc::now_ns() >= self.at {
            return Poll::Ready(());
        }
        g.next += 1;
        let id = g.next;
        g.timers.push((self.at, id, cx.waker().clone()));
        drop(g);
        self.id = Some(id);
        Poll::Pending
    }
}
impl Drop for Delay {
    fn drop(&mut self) {
        let me = self.id;
        let old: Vec<_> = {
            let mut g = self.rt.0.lock().unwrap();
            let (a, b): (Vec<_>, Vec<_>) = g.timers.drain(..).partition(|t| Some(t.1) == me);
            g.timers = b;
            a
        };
        drop(old);
    }
}

struct Chan<T> {
    q: VecDeque<T>,
    cap: usize,
    rx: bool,
    tx: bool,
    waker: Option<Waker>,
}
pub struct Tx<T>(Arc<RMutex<Chan<T>>>);
pub struct Rx<T>(Arc<RMutex<Chan<T>>>);
impl<T> Debug for Tx<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Tx")
    }
}
impl<T: Debug + Send> TrySend for Tx<T> {
    type Message = T;
    fn try_send(&self, item: T) -> Result<(), TrySendError> {
        mc::step("channel.try_send");
        let w = {
            let mut g = self.0.lock().unwrap();
            if !g.rx {
                return Err(TrySendError::ChannelClosed);
            }
            if g.q.len() >= g.cap {
                return Err(TrySendError::ChannelFull);
            }
            g.q.push_back(item);
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
        Ok(())
    }
}
impl<T> Drop for Tx<T> {
    fn drop(&mut self) {
        let w = {
            let mut g = self.0.lock().unwrap();
            g.tx = false;
            g.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
}
impl<T: Debug + Send> Stream for Rx<T> {
    type Item = T;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        mc::step("channel.poll");
        let mut g = self.0.lock().unwrap();
        match g.q.pop_front() {
            Some(x) => Poll::Ready(Some(x)),
            None if !g.tx => Poll::Ready(None),
            None => {
                g.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
impl<T> Drop for Rx<T> {
    fn drop(&mut self) {
        let q = {
            let mut g = self.0.lock().unwrap();
            g.rx = false;
            mcstd::real::mem::take(&mut g.q)
        };
        drop(q);
    }
}
impl RuntimeChannel for McRt {
    type Receiver<T: Debug + Send> = Rx<T>;
    type Sender<T: Debug + Send> = Tx<T>;
    fn batch_message_channel<T: Debug + Send>(&self, capacity: usize) -> (Tx<T>, Rx<T>) {
        let c = Arc::new(RMutex::new(Chan { q: VecDeque::new(), cap: capacity, rx: true, tx: true, waker: None }));
        (Tx(c.clone()), Rx(c))
    }
}
