//! Recorded choices.  A run draws every decision from one of three streams, each seeded from the
//! run's seed, and records what it drew.  Replaying the recorded lists repeats the run exactly.
//! A draw past the end of a replayed list yields 0, which is always the simplest choice (no fault,
//! no context switch, smallest document), so that shrinking a list shrinks the run.

use crate::rng::{mix, Rng};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// documents, options, file-system layout, callback scripts
    Scenario = 0,
    /// which faults strike where
    Fault = 1,
    /// who runs next
    Schedule = 2,
}
pub const KINDS: [Kind; 3] = [Kind::Scenario, Kind::Fault, Kind::Schedule];

const SHARED_CAP: usize = 1 << 16;

struct Stream {
    rng: Option<Rng>,
    list: Vec<u32>,
    pos: usize,
}

/// The three streams of one run.
pub struct Choices {
    streams: [Stream; 3],
    /// a region shared with the parent process, which sees the draws even if this process dies
    shared: Option<*mut u32>,
    /// draws that are not recorded: they follow from one that was
    derived: Option<Rng>,
}

pub type Recorded = [Vec<u32>; 3];

impl Choices {
    pub fn from_seed(seed: u64) -> Self {
        let s = |k: u64| Stream { rng: Some(Rng::new(mix(seed, k))), list: vec![], pos: 0 };
        Choices { streams: [s(1), s(2), s(3)], shared: None, derived: None }
    }
    pub fn from_recorded(r: &Recorded) -> Self {
        let s = |k: usize| Stream { rng: None, list: r[k].clone(), pos: 0 };
        Choices { streams: [s(0), s(1), s(2)], shared: None, derived: None }
    }
    pub fn share(&mut self, p: *mut u32) {
        // what was drawn before counts too
        for (k, s) in self.streams.iter().enumerate() {
            for i in 0..s.pos.min(SHARED_CAP) {
                unsafe {
                    let base = p.add(k * (SHARED_CAP + 1));
                    *base.add(1 + i) = s.list.get(i).copied().unwrap_or(0);
                    *base = i as u32 + 1;
                }
            }
        }
        self.shared = Some(p);
    }
    pub fn shared_len() -> usize {
        3 * (SHARED_CAP + 1) * 4
    }
    /// Read back what another process recorded into a shared region.
    pub fn read_shared(p: *const u32) -> Recorded {
        let one = |k: usize| unsafe {
            let base = p.add(k * (SHARED_CAP + 1));
            let n = (*base as usize).min(SHARED_CAP);
            (0..n).map(|i| *base.add(1 + i)).collect::<Vec<u32>>()
        };
        [one(0), one(1), one(2)]
    }
    pub fn recorded(&self) -> Recorded {
        let f = |k: usize| {
            let s = &self.streams[k];
            s.list[..s.pos.min(s.list.len())].to_vec()
        };
        [f(0), f(1), f(2)]
    }

    /// From here on draw from a generator with this seed, until told otherwise.
    pub fn derive(&mut self, seed: Option<u64>) {
        self.derived = seed.map(Rng::new);
    }

    /// A number below `n`.
    pub fn draw(&mut self, kind: Kind, n: u32) -> u32 {
        let n = n.max(1);
        if let Some(r) = &mut self.derived {
            return ((u128::from(r.next()) * u128::from(n)) >> 64) as u32;
        }
        let s = &mut self.streams[kind as usize];
        let v = match &mut s.rng {
            Some(r) => {
                let v = ((u128::from(r.next()) * u128::from(n)) >> 64) as u32;
                s.list.push(v);
                v
            }
            None => s.list.get(s.pos).copied().unwrap_or(0).min(n - 1),
        };
        if let Some(p) = self.shared {
            if s.pos < SHARED_CAP {
                unsafe {
                    let base = p.add(kind as usize * (SHARED_CAP + 1));
                    *base.add(1 + s.pos) = v;
                    *base = s.pos as u32 + 1;
                }
            }
        }
        s.pos += 1;
        v
    }
    /// True with probability `num`/`den`; the recorded value 0 means false.
    pub fn chance(&mut self, kind: Kind, num: u32, den: u32) -> bool {
        self.draw(kind, den) >= den - num.min(den)
    }

    // shorthands for the scenario stream
    pub fn s(&mut self, n: u32) -> u32 {
        self.draw(Kind::Scenario, n)
    }
    pub fn sc(&mut self, num: u32, den: u32) -> bool {
        self.chance(Kind::Scenario, num, den)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.s(v.len() as u32) as usize;
        &v[i]
    }
}
