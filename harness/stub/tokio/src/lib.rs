//! Stand-in for the parts of tokio the network crate uses: bounded channels, the read-write lock
//! and `join!`, for one thread.  Wake-ups are not modelled: whoever polls may poll anything at any
//! time, so a harness that picks the next poll freely covers every order real wake-ups can give.
//! `join!` asks the hook which of its branches to poll next.
use std::cell::Cell;

std::thread_local! { static ORDER: Cell<fn(usize) -> usize> = Cell::new(|_| 0); }
/// the hook gets the number of branches left to poll in this round and picks one of them
pub fn set_order(f: fn(usize) -> usize) {
    ORDER.with(|o| o.set(f));
}
#[doc(hidden)]
pub fn pick(n: usize) -> usize {
    if n < 2 {
        return 0;
    }
    let k = ORDER.with(|o| o.get())(n);
    if k < n { k } else { 0 }
}

#[doc(hidden)]
pub mod macros {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub enum Maybe<'a, T> {
        Run(Pin<Box<dyn Future<Output = T> + 'a>>),
        Done(Option<T>),
    }
    impl<'a, T> Maybe<'a, T> {
        pub fn new(f: impl Future<Output = T> + 'a) -> Self {
            Maybe::Run(Box::pin(f))
        }
        pub fn take(&mut self) -> T {
            match self {
                Maybe::Done(t) => t.take().unwrap(),
                _ => unreachable!(),
            }
        }
    }
    pub trait Branch {
        /// true when finished
        fn step(&mut self, cx: &mut Context<'_>) -> bool;
    }
    impl<'a, T> Branch for Maybe<'a, T> {
        fn step(&mut self, cx: &mut Context<'_>) -> bool {
            let r = match self {
                Maybe::Run(f) => f.as_mut().poll(cx),
                Maybe::Done(_) => return true,
            };
            match r {
                Poll::Ready(t) => {
                    *self = Maybe::Done(Some(t));
                    true
                }
                Poll::Pending => false,
            }
        }
    }
    pub fn round(bs: &mut [&mut dyn Branch], cx: &mut Context<'_>) -> bool {
        let mut left: Vec<usize> = (0..bs.len()).collect();
        let mut all = true;
        while !left.is_empty() {
            let i = left.remove(super::pick(left.len()));
            all &= bs[i].step(cx);
        }
        all
    }
}
#[macro_export]
macro_rules! join {
    (@ [$(($n:ident $e:expr))*] [$x:ident $($xs:ident)*] $f:expr $(, $r:expr)* $(,)?) => {
        $crate::join!(@ [$(($n $e))* ($x $f)] [$($xs)*] $($r),*)
    };
    (@ [$(($n:ident $e:expr))*] [$($xs:ident)*]) => {{
        $(let mut $n = $crate::macros::Maybe::new($e);)*
        ::std::future::poll_fn(|cx| {
            if $crate::macros::round(&mut [$(&mut $n),*], cx) {
                ::std::task::Poll::Ready(())
            } else {
                ::std::task::Poll::Pending
            }
        }).await;
        ($($n.take(),)*)
    }};
    (biased; $($r:tt)*) => { $crate::join!($($r)*) };
    ($($f:expr),+ $(,)?) => { $crate::join!(@ [] [a b c d e f] $($f),+) };
}

pub mod sync {
    pub mod mpsc {
        use std::cell::RefCell;
        use std::collections::VecDeque;
        use std::future::poll_fn;
        use std::rc::Rc;
        use std::task::{Context, Poll};
        struct Chan<T> {
            q: VecDeque<T>,
            cap: usize,
            senders: usize,
            open: bool,
        }
        pub mod error {
            #[derive(PartialEq, Eq, Clone, Copy)]
            pub struct SendError<T>(pub T);
            #[derive(PartialEq, Eq, Clone, Copy, Debug)]
            pub enum TrySendError<T> {
                Full(T),
                Closed(T),
            }
            #[derive(PartialEq, Eq, Clone, Copy, Debug)]
            pub enum TryRecvError {
                Empty,
                Disconnected,
            }
            impl<T> std::fmt::Debug for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("SendError")
                }
            }
            impl<T> std::fmt::Display for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("channel closed")
                }
            }
            impl<T> std::error::Error for SendError<T> {}
        }
        use error::*;
        pub struct Sender<T>(Rc<RefCell<Chan<T>>>);
        pub struct Receiver<T>(Rc<RefCell<Chan<T>>>);
        pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
            assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
            let c = Rc::new(RefCell::new(Chan { q: VecDeque::new(), cap, senders: 1, open: true }));
            (Sender(c.clone()), Receiver(c))
        }
        impl<T> std::fmt::Debug for Sender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Sender")
            }
        }
        impl<T> std::fmt::Debug for Receiver<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("Receiver")
            }
        }
        impl<T> Clone for Sender<T> {
            fn clone(&self) -> Self {
                self.0.borrow_mut().senders += 1;
                Sender(self.0.clone())
            }
        }
        impl<T> Drop for Sender<T> {
            fn drop(&mut self) {
                self.0.borrow_mut().senders -= 1;
            }
        }
        impl<T> Drop for Receiver<T> {
            fn drop(&mut self) {
                let mut c = self.0.borrow_mut();
                c.open = false;
                let q = std::mem::take(&mut c.q);
                drop(c);
                drop(q);
            }
        }
        impl<T> Sender<T> {
            pub async fn send(&self, t: T) -> Result<(), SendError<T>> {
                let mut t = Some(t);
                poll_fn(move |_| {
                    let mut c = self.0.borrow_mut();
                    if !c.open {
                        return Poll::Ready(Err(SendError(t.take().unwrap())));
                    }
                    if c.q.len() < c.cap {
                        c.q.push_back(t.take().unwrap());
                        return Poll::Ready(Ok(()));
                    }
                    Poll::Pending
                })
                .await
            }
            pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
                let mut c = self.0.borrow_mut();
                if !c.open {
                    return Err(TrySendError::Closed(t));
                }
                if c.q.len() < c.cap {
                    c.q.push_back(t);
                    return Ok(());
                }
                Err(TrySendError::Full(t))
            }
            pub fn is_closed(&self) -> bool {
                !self.0.borrow().open
            }
        }
        impl<T> Receiver<T> {
            pub fn poll_recv(&mut self, _: &mut Context<'_>) -> Poll<Option<T>> {
                match self.try_recv() {
                    Ok(t) => Poll::Ready(Some(t)),
                    Err(TryRecvError::Disconnected) => Poll::Ready(None),
                    Err(TryRecvError::Empty) => Poll::Pending,
                }
            }
            pub async fn recv(&mut self) -> Option<T> {
                poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                let mut c = self.0.borrow_mut();
                match c.q.pop_front() {
                    Some(t) => Ok(t),
                    None if c.senders == 0 || !c.open => Err(TryRecvError::Disconnected),
                    None => Err(TryRecvError::Empty),
                }
            }
            pub fn close(&mut self) {
                self.0.borrow_mut().open = false;
            }
        }
    }

    use std::cell::{Cell, UnsafeCell};
    use std::future::poll_fn;
    use std::ops::{Deref, DerefMut};
    use std::task::Poll;
    /// fair, as the original is: whoever asked first is served first, readers share
    pub struct RwLock<T> {
        held: Cell<isize>,
        next: Cell<u64>,
        wait: UnsafeCell<Vec<(u64, bool)>>,
        t: UnsafeCell<T>,
    }
    pub struct RwLockReadGuard<'a, T>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T>(&'a RwLock<T>);
    #[derive(Debug)]
    pub struct TryLockError(());
    struct Ticket<'a, T>(&'a RwLock<T>, u64, bool);
    impl<T> RwLock<T> {
        pub fn new(t: T) -> Self {
            RwLock { held: Cell::new(0), next: Cell::new(0), wait: UnsafeCell::new(Vec::new()), t: UnsafeCell::new(t) }
        }
        #[allow(clippy::mut_from_ref)]
        fn queue(&self) -> &mut Vec<(u64, bool)> {
            unsafe { &mut *self.wait.get() }
        }
        fn ticket(&self, write: bool) -> Ticket<'_, T> {
            let n = self.next.get();
            self.next.set(n + 1);
            self.queue().push((n, write));
            Ticket(self, n, write)
        }
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            let mut k = None;
            poll_fn(move |_| k.get_or_insert_with(|| self.ticket(false)).poll()).await;
            RwLockReadGuard(self)
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            let mut k = None;
            poll_fn(move |_| k.get_or_insert_with(|| self.ticket(true)).poll()).await;
            RwLockWriteGuard(self)
        }
        pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
            if self.held.get() < 0 || !self.queue().is_empty() {
                return Err(TryLockError(()));
            }
            self.held.set(self.held.get() + 1);
            Ok(RwLockReadGuard(self))
        }
        pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
            if self.held.get() != 0 || !self.queue().is_empty() {
                return Err(TryLockError(()));
            }
            self.held.set(-1);
            Ok(RwLockWriteGuard(self))
        }
        pub fn get_mut(&mut self) -> &mut T {
            self.t.get_mut()
        }
        pub fn into_inner(self) -> T {
            self.t.into_inner()
        }
    }
    impl<T> Ticket<'_, T> {
        fn poll(&mut self) -> Poll<()> {
            let q = self.0.queue();
            let mut i = 0;
            while q[i].0 != self.1 {
                // a reader may overtake readers only
                if self.2 || q[i].1 {
                    return Poll::Pending;
                }
                i += 1;
            }
            let h = self.0.held.get();
            if h < 0 || (self.2 && h > 0) {
                return Poll::Pending;
            }
            self.0.held.set(if self.2 { -1 } else { h + 1 });
            q.remove(i);
            Poll::Ready(())
        }
    }
    impl<T> Drop for Ticket<'_, T> {
        fn drop(&mut self) {
            let n = self.1;
            self.0.queue().retain(|w| w.0 != n);
        }
    }
    impl<T> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.t.get() }
        }
    }
    impl<T> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.t.get() }
        }
    }
    impl<T> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.t.get() }
        }
    }
    impl<T> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            self.0.held.set(self.0.held.get() - 1);
        }
    }
    impl<T> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            self.0.held.set(0);
        }
    }
    /// a lock with one kind of holder
    pub struct Mutex<T>(RwLock<T>);
    pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
    impl<T> Mutex<T> {
        pub fn new(t: T) -> Self {
            Mutex(RwLock::new(t))
        }
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            self.0.write().await
        }
    }
}
