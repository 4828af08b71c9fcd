//! Stand-in for once_cell: the harnesses are single threaded.
pub mod sync {
    use std::cell::UnsafeCell;
    pub struct OnceCell<T>(UnsafeCell<Option<T>>);
    unsafe impl<T: Send + Sync> Sync for OnceCell<T> {}
    impl<T> OnceCell<T> {
        pub const fn new() -> Self {
            Self(UnsafeCell::new(None))
        }
        pub fn get(&self) -> Option<&T> {
            unsafe { (*self.0.get()).as_ref() }
        }
        pub fn set(&self, v: T) -> Result<(), T> {
            if self.get().is_some() {
                return Err(v);
            }
            unsafe { *self.0.get() = Some(v) };
            Ok(())
        }
        pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
            if self.get().is_none() {
                let v = f();
                let _ = self.set(v);
            }
            self.get().unwrap()
        }
        pub fn get_or_try_init<E, F: FnOnce() -> Result<T, E>>(&self, f: F) -> Result<&T, E> {
            if self.get().is_none() {
                let v = f()?;
                let _ = self.set(v);
            }
            Ok(self.get().unwrap())
        }
    }
    pub struct Lazy<T, F = fn() -> T> {
        cell: OnceCell<T>,
        f: F,
    }
    impl<T, F: Fn() -> T> Lazy<T, F> {
        pub const fn new(f: F) -> Self {
            Self { cell: OnceCell::new(), f }
        }
        pub fn force(this: &Self) -> &T {
            this.cell.get_or_init(|| (this.f)())
        }
    }
    impl<T, F: Fn() -> T> std::ops::Deref for Lazy<T, F> {
        type Target = T;
        fn deref(&self) -> &T {
            Lazy::force(self)
        }
    }
}
pub mod unsync {
    pub use super::sync::*;
}
