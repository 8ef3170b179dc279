// Copyright 2018 Developers of the Rand project. Licensed under Apache-2.0 or MIT.
// Verification copy: the thread-local generator of rand 0.7.3 is replaced by one whose words come
// from a hook, so that the random source of the code under test is controlled by the simulator.

//! Thread-local random number generator

use crate::{CryptoRng, Error, RngCore};
use std::sync::atomic::{AtomicUsize, Ordering};

static HOOK: AtomicUsize = AtomicUsize::new(0);

/// Sets the source of all words of `thread_rng`.
pub fn sim_set_source(f: fn() -> u64) {
    HOOK.store(f as usize, Ordering::SeqCst);
}

fn word() -> u64 {
    let h = HOOK.load(Ordering::SeqCst);
    assert!(h != 0, "no random source set");
    let f: fn() -> u64 = unsafe { std::mem::transmute(h) };
    f()
}

/// The generator returned by [`thread_rng`].
#[derive(Copy, Clone, Debug)]
pub struct ThreadRng {
    _not_send: std::marker::PhantomData<*const ()>,
}

/// Retrieve the generator.
pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: std::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (word() >> 32) as u32
    }

    fn next_u64(&mut self) -> u64 {
        word()
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let w = word().to_le_bytes();
            let n = c.len();
            c.copy_from_slice(&w[..n]);
        }
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
