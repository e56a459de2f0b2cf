//! Choice tape: every generator draws from a vector of `u32` produced and
//! shrunk by proptest. An exhausted tape yields zeros, and zero always selects
//! the simplest alternative, so deleting or lowering entries simplifies a case.

pub struct Source<'a> {
    tape: &'a [u32],
    pos: usize,
}

impl<'a> Source<'a> {
    pub fn new(tape: &'a [u32]) -> Self {
        Self { tape, pos: 0 }
    }
    pub fn raw(&mut self) -> u32 {
        let v = self.tape.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }
    pub fn exhausted(&self) -> bool {
        self.pos >= self.tape.len()
    }
    /// Uniform in 0..n (0 when n is 0).
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            self.raw();
            return 0;
        }
        (self.raw() as usize) % n
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn byte(&mut self) -> u8 {
        self.raw() as u8
    }
    pub fn u64(&mut self) -> u64 {
        (u64::from(self.raw()) << 32) | u64::from(self.raw())
    }
    /// `n` further choices grown from a single one, for contents longer than a
    /// tape; zero grows zeros.
    pub fn grown(&mut self, n: usize) -> Vec<u32> {
        let mut state = u64::from(self.raw());
        if state == 0 {
            return vec![0; n];
        }
        (0..n)
            .map(|_| {
                state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let z = (state ^ (state >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                let z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                (z >> 32) as u32
            })
            .collect()
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n > 32 {
            let words = self.grown(n.div_ceil(4));
            return words.iter().flat_map(|w| w.to_le_bytes()).take(n).collect();
        }
        let mut out = Vec::with_capacity(n);
        while out.len() < n {
            let w = self.raw().to_le_bytes();
            for b in w {
                if out.len() < n {
                    out.push(b);
                }
            }
        }
        out
    }
    /// True in num out of den cases (false is the simple case).
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        let i = self.below(items.len());
        &items[i]
    }
    /// Index chosen by weights; index 0 is the simple case.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        0
    }
    /// Byte that favours boundary values.
    pub fn edgy_byte(&mut self) -> u8 {
        match self.below(4) {
            0 => self.byte(),
            1 => *self.pick(&[0x00, 0x01, 0x7F, 0x80, 0xFE, 0xFF]),
            2 => 1 << self.below(8),
            _ => self.byte(),
        }
    }
}
