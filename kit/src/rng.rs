//! The environment of a sampler: a random generator whose every answer is a
//! choice point, enumerated exhaustively over a finite lattice of words.
use std::cell::RefCell;

/// Word `i` of the `k`-point lattice.  The high bits take the values
/// (i + 1/2) / k; the low 8 bits walk the golden rotation, so that algorithms
/// that read the two ends of one word as two variables (ziggurat tables) see a
/// two-dimensional lattice, which is most even when k is a Fibonacci number.
pub fn word(i: u64, k: u64) -> u64 {
    let hi = (((2 * i + 1) as u128) << 63) / (k as u128);
    let g = ((i as f64 + 0.5) * 0.618_033_988_749_894_9).fract();
    let b = g * 256.0;
    let lo = (b as u64) | (((b.fract() * 16.0) as u64) << 8);
    ((hi as u64) & !0xfff) | (lo & 0xfff)
}

/// A scripted generator: answers come from `choices`, position by position;
/// position `d` has `width(d)` alternatives.
pub struct Script<'a> {
    pub choices: &'a RefCell<Vec<u32>>,
    pub widths: &'a [u32],
    pub alphabet: &'a [u64],
    pub pos: usize,
    pub limit: usize,
}

pub struct Exhausted;

impl<'a> Script<'a> {
    pub fn next_word(&mut self) -> u64 {
        if self.pos >= self.limit {
            std::panic::panic_any("script exhausted");
        }
        let mut c = self.choices.borrow_mut();
        let w = *self.widths.get(self.pos).unwrap_or_else(|| self.widths.last().unwrap());
        if self.pos == c.len() {
            c.push(0);
        }
        let i = c[self.pos];
        self.pos += 1;
        match self.alphabet.get(i as usize) {
            Some(x) => *x,
            None => word(i as u64, w as u64),
        }
    }
}

/// Answers are lattice words, or the listed words if there are any (then every
/// position has one alternative per listed word).
pub struct Tree {
    pub widths: Vec<u32>,
    pub alphabet: Vec<u64>,
    pub limit: usize,
}

pub struct TreeStats {
    pub leaves: u64,
    pub choice_points: u64,
    pub cut_mass: f64,
    pub max_depth: usize,
}

impl Tree {
    pub fn new(widths: &[u32], limit: usize) -> Tree { Tree { widths: widths.to_vec(), alphabet: vec![], limit } }

    pub fn of_words(alphabet: &[u64], limit: usize) -> Tree {
        Tree { widths: vec![alphabet.len() as u32], alphabet: alphabet.to_vec(), limit }
    }

    /// Depth-first enumeration of every answer sequence; `run` executes the
    /// real code once, `leaf` receives its result with the exact weight of the
    /// answer sequence that produced it.  Sequences longer than `limit` are cut
    /// and their total weight reported.
    pub fn explore<T>(
        &self,
        mut run: impl FnMut(&mut Script) -> Result<T, String>,
        mut leaf: impl FnMut(T, f64, &[u32]),
        mut fail: impl FnMut(String, &[u32]),
    ) -> TreeStats {
        let choices = RefCell::new(Vec::<u32>::new());
        let mut st = TreeStats { leaves: 0, choice_points: 0, cut_mass: 0.0, max_depth: 0 };
        let width = |d: usize| *self.widths.get(d).unwrap_or_else(|| self.widths.last().unwrap());
        loop {
            let mut s = Script { choices: &choices, widths: &self.widths, alphabet: &self.alphabet, pos: 0, limit: self.limit };
            let r = run(&mut s);
            let used = s.pos;
            let mut c = choices.borrow_mut();
            c.truncate(used);
            let w: f64 = (0..used).map(|d| 1.0 / width(d) as f64).product();
            st.max_depth = st.max_depth.max(used);
            if st.leaves & 0xfff == 0 {
                crate::HEART.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            }
            match r {
                Ok(v) => {
                    st.leaves += 1;
                    leaf(v, w, &c);
                },
                Err(e) if e.contains("script exhausted") => st.cut_mass += w,
                Err(e) => fail(e, &c),
            }
            // next answer sequence in lexicographic order
            loop {
                match c.pop() {
                    None => return st,
                    Some(i) => {
                        let d = c.len();
                        if i + 1 < width(d) {
                            c.push(i + 1);
                            st.choice_points += 1;
                            break;
                        }
                    },
                }
            }
        }
    }
}
