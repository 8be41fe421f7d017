//! Stand-in for the forked regex-automata git dependency of dd-sds (unreachable offline).
//! dd-sds only uses `util::pool::{Pool, PoolGuard}` from it: a thread-safe pool of scratch values.
pub mod util {
    pub mod pool {
        use std::ops::{Deref, DerefMut};
        use std::sync::Mutex;

        pub struct Pool<T, F, const MAX_POOL_STACKS: usize> {
            create: F,
            stack: Mutex<Vec<Box<T>>>,
        }

        impl<T, F, const N: usize> Pool<T, F, N> {
            pub fn new(create: F) -> Self {
                Pool { create, stack: Mutex::new(Vec::new()) }
            }
        }

        impl<T: Send, F: Fn() -> T, const N: usize> Pool<T, F, N> {
            pub fn get(&self) -> PoolGuard<'_, T, F, N> {
                let value = self.stack.lock().unwrap_or_else(|e| e.into_inner()).pop();
                let value = value.unwrap_or_else(|| Box::new((self.create)()));
                PoolGuard { pool: self, value: Some(value) }
            }
        }

        pub struct PoolGuard<'a, T: Send, F: Fn() -> T, const N: usize> {
            pool: &'a Pool<T, F, N>,
            value: Option<Box<T>>,
        }

        impl<T: Send, F: Fn() -> T, const N: usize> Deref for PoolGuard<'_, T, F, N> {
            type Target = T;
            fn deref(&self) -> &T {
                self.value.as_ref().unwrap()
            }
        }
        impl<T: Send, F: Fn() -> T, const N: usize> DerefMut for PoolGuard<'_, T, F, N> {
            fn deref_mut(&mut self) -> &mut T {
                self.value.as_mut().unwrap()
            }
        }
        impl<T: Send, F: Fn() -> T, const N: usize> Drop for PoolGuard<'_, T, F, N> {
            fn drop(&mut self) {
                if let Some(v) = self.value.take() {
                    let mut stack = self.pool.stack.lock().unwrap_or_else(|e| e.into_inner());
                    if stack.len() < 64 {
                        stack.push(v);
                    }
                }
            }
        }
    }
}
