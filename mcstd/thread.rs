pub use std::thread::*;

use crate::mc;
use ::std::boxed::Box;
use ::std::io;
use ::std::string::String;
use ::std::time::Duration;

#[derive(Clone, Debug)]
pub struct Thread {
    real: ::std::thread::Thread,
    mc: Option<usize>,
}

impl Thread {
    pub fn id(&self) -> ThreadId {
        self.real.id()
    }
    pub fn name(&self) -> Option<&str> {
        self.real.name()
    }
    pub fn unpark(&self) {
        match self.mc {
            Some(t) if mc::controlled() => mc::unpark(t),
            _ => self.real.unpark(),
        }
    }
}

pub fn current() -> Thread {
    Thread {
        real: ::std::thread::current(),
        mc: mc::me(),
    }
}

pub fn park() {
    if mc::controlled() {
        mc::park(None)
    } else {
        ::std::thread::park()
    }
}

pub fn park_timeout(d: Duration) {
    if mc::controlled() {
        mc::park(Some(d))
    } else {
        ::std::thread::park_timeout(d)
    }
}

pub fn sleep(d: Duration) {
    if mc::controlled() {
        mc::sleep(d)
    } else {
        ::std::thread::sleep(d)
    }
}

pub fn yield_now() {
    mc::yield_point()
}

pub struct JoinHandle<T> {
    real: ::std::thread::JoinHandle<T>,
    mc: Option<usize>,
}

impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.debug_struct("JoinHandle").finish_non_exhaustive()
    }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        if let Some(t) = self.mc {
            mc::join_wait(t);
        }
        self.real.join()
    }
    pub fn thread(&self) -> Thread {
        Thread {
            real: self.real.thread().clone(),
            mc: self.mc,
        }
    }
    pub fn is_finished(&self) -> bool {
        match self.mc {
            Some(t) if mc::controlled() => mc::is_finished(t),
            _ => self.real.is_finished(),
        }
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}

impl Builder {
    pub fn new() -> Self {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, s: usize) -> Self {
        self.stack = Some(s);
        self
    }
    fn real(&self) -> ::std::thread::Builder {
        let mut b = ::std::thread::Builder::new();
        if let Some(n) = &self.name {
            b = b.name(n.clone());
        }
        if let Some(s) = self.stack {
            b = b.stack_size(s);
        }
        b
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let b = self.real();
        match mc::new_thread(self.name) {
            None => Ok(JoinHandle {
                real: b.spawn(f)?,
                mc: None,
            }),
            Some(t) => {
                let id = t.id;
                let h = b.spawn(move || mc::run_thread(t, f))?;
                mc::point("spawned", 0);
                Ok(JoinHandle {
                    real: h,
                    mc: Some(id),
                })
            }
        }
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        s: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let b = self.real();
        match mc::new_thread(self.name) {
            None => Ok(ScopedJoinHandle {
                real: b.spawn_scoped(s.real, f)?,
                mc: None,
            }),
            Some(t) => {
                let id = t.id;
                s.ids.lock().unwrap().push(id);
                let h = b.spawn_scoped(s.real, move || mc::run_thread(t, f))?;
                mc::point("spawned", 0);
                Ok(ScopedJoinHandle {
                    real: h,
                    mc: Some(id),
                })
            }
        }
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub struct Scope<'scope, 'env: 'scope> {
    real: &'scope ::std::thread::Scope<'scope, 'env>,
    ids: ::std::sync::Mutex<::std::vec::Vec<usize>>,
}

pub struct ScopedJoinHandle<'scope, T> {
    real: ::std::thread::ScopedJoinHandle<'scope, T>,
    mc: Option<usize>,
}

impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        if let Some(t) = self.mc {
            mc::join_wait(t);
        }
        self.real.join()
    }
    pub fn thread(&self) -> Thread {
        Thread {
            real: self.real.thread().clone(),
            mc: self.mc,
        }
    }
    pub fn is_finished(&self) -> bool {
        match self.mc {
            Some(t) if mc::controlled() => mc::is_finished(t),
            _ => self.real.is_finished(),
        }
    }
}

impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Builder::new()
            .spawn_scoped(self, f)
            .expect("failed to spawn thread")
    }
}

pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    ::std::thread::scope(|s| {
        // The wrapper has to live for 'scope; it is tiny, so it is leaked.
        let w: &_ = Box::leak(Box::new(Scope {
            real: s,
            ids: ::std::sync::Mutex::new(::std::vec::Vec::new()),
        }));
        let r = f(w);
        let ids = w.ids.lock().unwrap().clone();
        for id in ids {
            mc::join_wait(id);
        }
        r
    })
}
