//! Choice source: every random decision of a case is read from a sequence of
//! integers that proptest generates (and shrinks). Zero always means "the
//! simplest option", and an exhausted sequence keeps yielding zero.

pub struct Src<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Src<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Src { data, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    /// More choices were asked for than there are
    pub fn ran_out(&self) -> bool {
        self.pos > self.data.len()
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.data.len()
    }
    /// Uniform in 0..n, monotone in the raw value.
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; the zero choice is false.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        let i = self.below(items.len());
        &items[i]
    }
    /// Index chosen with the given weights; zero means the first non-zero weight.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut x = self.below(total.max(1) as usize) as u32;
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        weights.iter().position(|w| *w > 0).unwrap_or(0)
    }
    pub fn text(&mut self, alphabet: &[&str], lo: usize, hi: usize) -> String {
        let n = self.range(lo, hi);
        let mut s = String::new();
        for _ in 0..n {
            let a = *self.pick(alphabet);
            s.push_str(a);
        }
        s
    }
}
