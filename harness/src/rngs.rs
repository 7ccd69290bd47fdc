//! Generators handed to the code under test.

use crate::fw::callback;
use rand_core::{CryptoRng, Error, RngCore};
use refmodel::rng::Rng;

/// One call of a generator method.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Draw {
    Fill(usize),
    TryFill(usize),
    U32,
    U64,
}

/// What a scripted source delivers after its script: something no operation has reason to refuse.
pub fn filler(n: usize) -> u8 {
    let x = (n as u64).wrapping_add(0x9e37_79b9).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    ((x ^ (x >> 31)).wrapping_mul(0x94d0_49bb_1331_11eb) >> 40) as u8
}

/// Calls remembered of one source. An operation that draws without end is ended by the watchdog; until
/// then it must not use up the memory.
pub const REMEMBERED: usize = 1 << 12;

/// Serves a given tape and records every draw. Running off the tape continues with arbitrary bytes but is
/// recorded in `used`.
pub struct Tape {
    pub tape: Vec<u8>,
    pub used: usize,
    pub log: Vec<Draw>,
}

impl Tape {
    pub fn new(tape: &[u8]) -> Self {
        callback(|| Tape { tape: tape.to_vec(), used: 0, log: Vec::new() })
    }
    pub fn take(&mut self, out: &mut [u8]) {
        for b in out.iter_mut() {
            *b = self.tape.get(self.used).copied().unwrap_or_else(|| filler(self.used));
            self.used += 1;
        }
    }
    fn note(&mut self, d: Draw) {
        if self.log.len() < REMEMBERED {
            self.log.push(d);
        }
    }
}

impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        callback(|| {
            self.note(Draw::U32);
            let mut b = [0; 4];
            self.take(&mut b);
            u32::from_le_bytes(b)
        })
    }
    fn next_u64(&mut self) -> u64 {
        callback(|| {
            self.note(Draw::U64);
            let mut b = [0; 8];
            self.take(&mut b);
            u64::from_le_bytes(b)
        })
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        callback(|| {
            self.note(Draw::Fill(dest.len()));
            self.take(dest);
        })
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        callback(|| {
            self.note(Draw::TryFill(dest.len()));
            self.take(dest);
            Ok(())
        })
    }
}
impl CryptoRng for Tape {}

/// An endless recorded stream from the workload generator.
pub struct Stream {
    pub src: Rng,
    pub rec: Vec<u8>,
}
impl Stream {
    pub fn new(src: Rng) -> Self {
        Stream { src, rec: Vec::new() }
    }
}
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        // outside the callback, so that it counts as a failure of the operation
        assert!(self.rec.len() < 1 << 24, "an operation draws without end");
        callback(|| {
            for x in dest.iter_mut() {
                *x = self.src.u64() as u8;
            }
            self.rec.extend_from_slice(dest);
        })
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Stream {}
