//! Fiat-Shamir generator that records everything absorbed and every challenge drawn,
//! and can be told to return chosen challenges instead of the derived ones.
use ark_ff::ToBytes;
use ark_std::rand::{Error, RngCore};
use blake2::Blake2s;
use digest::Digest;
use std::cell::RefCell;
use zero_over_k::rng::FiatShamirRng;

#[derive(Clone, Debug)]
pub enum Ev {
    Init(Vec<u8>),
    Absorb(Vec<u8>),
    /// derived value, value returned
    Draw(u64, u64),
}

#[derive(Default, Clone)]
pub struct Cfg {
    pub modulus: u64,
    /// raw value returned for the i-th draw, when given
    pub script: Vec<Option<u64>>,
    pub first_draw: usize,
}

thread_local! {
    pub static CFG: RefCell<Cfg> = RefCell::new(Cfg::default());
    pub static LOG: RefCell<Vec<Ev>> = RefCell::new(Vec::new());
}

pub struct HFS {
    state: [u8; 32],
    since: u64,
    idx: usize,
}

fn h(parts: &[&[u8]]) -> [u8; 32] {
    let mut d = Blake2s::new();
    for p in parts {
        d.update((p.len() as u64).to_le_bytes());
        d.update(p);
    }
    let mut o = [0u8; 32];
    o.copy_from_slice(&d.finalize());
    o
}

pub fn configure(modulus: u64, script: Vec<Option<u64>>, first_draw: usize) {
    CFG.with(|c| *c.borrow_mut() = Cfg { modulus, script, first_draw });
    LOG.with(|l| l.borrow_mut().clear());
}

pub fn take_log() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

/// derived values of the draws in a log
pub fn draws(log: &[Ev]) -> Vec<u64> {
    log.iter().filter_map(|e| if let Ev::Draw(d, _) = e { Some(*d) } else { None }).collect()
}
pub fn returned(log: &[Ev]) -> Vec<u64> {
    log.iter().filter_map(|e| if let Ev::Draw(_, r) = e { Some(*r) } else { None }).collect()
}

impl RngCore for HFS {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        let o = h(&[&self.state, &self.since.to_le_bytes()]);
        let mut b = [0u8; 16];
        b.copy_from_slice(&o[..16]);
        let (m, over) = CFG.with(|c| {
            let c = c.borrow();
            (c.modulus, c.script.get(self.idx).copied().flatten())
        });
        let derived = (u128::from_le_bytes(b) % m.max(1) as u128) as u64;
        let v = over.unwrap_or(derived);
        LOG.with(|l| l.borrow_mut().push(Ev::Draw(derived, v)));
        self.since += 1;
        self.idx += 1;
        v
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let v = self.next_u64().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl FiatShamirRng for HFS {
    fn initialize<'a, T: 'a + ToBytes>(initial_input: &'a T) -> Self {
        let mut b = vec![];
        initial_input.write(&mut b).unwrap();
        LOG.with(|l| l.borrow_mut().push(Ev::Init(b.clone())));
        let idx = CFG.with(|c| c.borrow().first_draw);
        HFS { state: h(&[b"init", &b]), since: 0, idx }
    }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, new_input: &'a T) {
        let mut b = vec![];
        new_input.write(&mut b).unwrap();
        LOG.with(|l| l.borrow_mut().push(Ev::Absorb(b.clone())));
        self.state = h(&[&self.state, &b]);
        self.since = 0;
    }
}

/// The crate's own generator, recording the first value drawn after each absorption.
pub struct RFS {
    g: zero_over_k::rng::SimpleHashFiatShamirRng<Blake2s, rand_chacha::ChaChaRng>,
    fresh: bool,
    period: usize,
    k: usize,
}
thread_local! {
    static FORCED: RefCell<Vec<Option<[u64; 4]>>> = RefCell::new(vec![]);
}
/// the element handed out in each period instead of the derived one
pub fn force(v: Vec<Option<[u64; 4]>>) {
    FORCED.with(|f| *f.borrow_mut() = v);
}
impl RngCore for RFS {
    fn next_u32(&mut self) -> u32 {
        self.g.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        let v = self.g.next_u64();
        if self.fresh {
            self.fresh = false;
            self.period += 1;
            self.k = 0;
            LOG.with(|l| l.borrow_mut().push(Ev::Draw(v, v)));
        }
        self.k += 1;
        let f = FORCED.with(|f| f.borrow().get(self.period - 1).copied().flatten());
        f.map_or(v, |l| l[(self.k - 1) % 4])
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.g.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.g.try_fill_bytes(dest)
    }
}
impl FiatShamirRng for RFS {
    fn initialize<'a, T: 'a + ToBytes>(initial_input: &'a T) -> Self {
        RFS { g: FiatShamirRng::initialize(initial_input), fresh: true, period: 0, k: 0 }
    }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, new_input: &'a T) {
        self.g.absorb(new_input);
        self.fresh = true;
    }
}
