//! Generator whose outputs are explorer choices.
use rand::{RngCore, SeedableRng};
use rand_xoshiro::Xoshiro256Plus;
use std::sync::{Arc, Mutex};

/// What one draw may answer.
#[derive(Clone, Copy, Debug)]
pub enum Draw {
    /// raw 32-bit answer
    U32(u32),
    /// raw 64-bit answer
    U64(u64),
}

/// A scripted generator: the n-th draw answers the n-th script element when it exists
/// (a u64 script element answers both kinds of draws: u32 draws take its high half), and the
/// default pseudo-random stream afterwards. The log keeps the kinds of draws made.
#[derive(Clone)]
pub struct ScriptRng {
    pub script: Arc<Vec<Option<u64>>>,
    pub pos: usize,
    pub base: Xoshiro256Plus,
    pub log: Arc<Mutex<Vec<u8>>>,
}

/// no sampler call of the explored scopes legitimately makes that many draws
const HORIZON: usize = 3_000_000;

impl ScriptRng {
    pub fn new(script: Vec<Option<u64>>, seed: u64) -> Self {
        ScriptRng {
            script: Arc::new(script),
            pos: 0,
            base: Xoshiro256Plus::seed_from_u64(seed),
            log: Arc::new(Mutex::new(vec![])),
        }
    }
    fn draw(&mut self, kind: u8) {
        let mut l = self.log.lock().unwrap();
        if l.len() >= HORIZON {
            drop(l);
            panic!("LIVELOCK: more than {HORIZON} random draws in one call");
        }
        l.push(kind);
    }
    fn pick(&mut self) -> Option<u64> {
        let r = self.script.get(self.pos).copied().flatten();
        self.pos += 1;
        r
    }
}

impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 {
        self.draw(32);
        let d = self.base.next_u32();
        match self.pick() {
            Some(v) => (v >> 32) as u32,
            None => d,
        }
    }
    fn next_u64(&mut self) -> u64 {
        self.draw(64);
        let d = self.base.next_u64();
        self.pick().unwrap_or(d)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// raw 64-bit value which makes `gen_index(bound)` (u32 widening-multiply sampling) answer k
pub fn index_raw(k: u32, bound: u32) -> u64 {
    let r = ((k as u64) << 32).div_ceil(bound as u64);
    (r << 32) | 0x8000_0000
}
