//! Choice tape: every random decision of a generator is one recorded draw, so a case is a pure
//! function of its tape. Shrinking edits the tape and regenerates (deleting, zeroing and lowering
//! draws), which keeps every shrunk case inside the generator's domain. Draw 0 is always the
//! simplest option, and an exhausted tape yields zeros.

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

#[derive(Clone)]
pub struct Tape {
    rec: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        Tape {
            rec: vec![],
            pos: 0,
            rng: Some(mix(seed)),
        }
    }
    pub fn replay(rec: Vec<u64>) -> Self {
        Tape {
            rec,
            pos: 0,
            rng: None,
        }
    }
    /// The draws made so far.
    pub fn into_used(mut self) -> Vec<u64> {
        self.rec.truncate(self.pos);
        self.rec
    }
    /// A draw in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match self.rng.as_mut() {
            Some(state) => {
                *state = state.wrapping_add(0x9e37_79b9_7f4a_7c15);
                let r = mix(*state);
                let v = ((u128::from(r) * u128::from(n)) >> 64) as u64;
                self.rec.push(v);
                v
            }
            None => {
                let v = self.rec.get(self.pos).copied().unwrap_or(0);
                if self.pos >= self.rec.len() {
                    self.rec.push(0);
                }
                v.min(n - 1)
            }
        };
        self.pos += 1;
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// Inclusive range, `lo` simplest.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    /// Index into weights; index 0 is simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let mut r = self.draw(w.iter().sum());
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// A list of at least `min` and at most `max` items, `avg` on average beyond `min`
    /// (one continue/stop draw per item, so whole items can be deleted from the tape).
    pub fn list<T>(
        &mut self,
        min: usize,
        max: usize,
        avg: u64,
        mut f: impl FnMut(&mut Tape, usize) -> T,
    ) -> Vec<T> {
        let mut out = vec![];
        while out.len() < max {
            if out.len() >= min && !self.chance(avg, avg + 1) {
                break;
            }
            let i = out.len();
            out.push(f(self, i));
        }
        out
    }
    pub fn script(&mut self, max: usize, avg: u64) -> Vec<u32> {
        self.list(0, max, avg, |t, _| t.draw(1 << 16) as u32)
    }
}

/// Shrink a failing tape: `fails(tape)` regenerates and reruns the case and returns the tape
/// actually used when the case still fails.
pub fn shrink(
    start: Vec<u64>,
    max_evals: usize,
    mut fails: impl FnMut(&[u64]) -> Option<Vec<u64>>,
) -> Vec<u64> {
    let mut best = start;
    let mut evals = 0usize;
    fn better(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a.iter().map(|x| u128::from(*x)).sum::<u128>(), a)
            < (b.len(), b.iter().map(|x| u128::from(*x)).sum::<u128>(), b)
    }
    loop {
        let before = best.clone();
        macro_rules! attempt {
            ($cand:expr) => {{
                let cand: Vec<u64> = $cand;
                let mut ok = false;
                if cand != best && evals < max_evals {
                    evals += 1;
                    if let Some(mut used) = fails(&cand) {
                        while used.last() == Some(&0) {
                            used.pop();
                        }
                        if better(&used, &best) {
                            best = used;
                            ok = true;
                        }
                    }
                }
                ok
            }};
        }
        // truncate
        let mut keep = best.len() / 2;
        while keep < best.len() && evals < max_evals {
            if attempt!(best[..keep].to_vec()) {
                keep = best.len() / 2;
            } else {
                keep += ((best.len() - keep) / 2).max(1);
            }
        }
        // delete and zero blocks
        for size in [64usize, 32, 16, 8, 4, 3, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && evals < max_evals {
                let mut del = best[..i].to_vec();
                del.extend_from_slice(&best[i + size..]);
                if attempt!(del) {
                    continue;
                }
                if best[i..i + size].iter().any(|x| *x != 0) {
                    let mut z = best.clone();
                    z[i..i + size].fill(0);
                    let _ = attempt!(z);
                }
                i += if size > 8 { size / 2 } else { 1 };
            }
        }
        // lower single draws
        let mut i = 0;
        while i < best.len() && evals < max_evals {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] && evals < max_evals {
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if !attempt!(c) {
                    lo = mid + 1;
                }
            }
            i += 1;
        }
        if best == before || evals >= max_evals {
            return best;
        }
    }
}
