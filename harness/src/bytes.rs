//! Sparse byte array: the reference for file and memory contents.
use std::collections::BTreeMap;

const BLK: u64 = 4096;

#[derive(Clone, Debug, Default)]
pub struct Bytes {
    pub size: u64,
    blocks: BTreeMap<u64, Box<[u8; BLK as usize]>>,
    /// blocks that held data before a shrink
    dropped: std::collections::BTreeSet<u64>,
}

impl Bytes {
    pub fn read_at(&self, off: u64, len: usize) -> Vec<u8> {
        let mut v = vec![0u8; len];
        let mut pos = 0usize;
        while pos < len {
            let a = off + pos as u64;
            let o = (a % BLK) as usize;
            let n = (BLK as usize - o).min(len - pos);
            if let Some(b) = self.blocks.get(&(a / BLK)) {
                v[pos..pos + n].copy_from_slice(&b[o..o + n]);
            }
            pos += n;
        }
        v
    }
    /// Write without touching `size`.
    pub fn put(&mut self, off: u64, src: &[u8]) {
        let mut pos = 0usize;
        while pos < src.len() {
            let a = off + pos as u64;
            let o = (a % BLK) as usize;
            let n = (BLK as usize - o).min(src.len() - pos);
            let b = self
                .blocks
                .entry(a / BLK)
                .or_insert_with(|| Box::new([0u8; BLK as usize]));
            b[o..o + n].copy_from_slice(&src[pos..pos + n]);
            pos += n;
        }
    }
    pub fn write_at(&mut self, off: u64, src: &[u8]) {
        if src.is_empty() {
            return;
        }
        self.put(off, src);
        self.size = self.size.max(off + src.len() as u64);
    }
    pub fn set_len(&mut self, n: u64) {
        if n < self.size {
            let first = n / BLK;
            let o = (n % BLK) as usize;
            let mut tail = self.blocks.split_off(&first);
            self.dropped.extend(tail.keys().copied());
            if o > 0 && let Some(mut b) = tail.remove(&first) {
                b[o..].fill(0);
                self.blocks.insert(first, b);
            }
        }
        self.size = n;
    }
    /// Feed the contents (not stored zero blocks) into a hasher.
    pub fn digest(&self, h: &mut impl std::hash::Hasher) {
        use std::hash::Hash;
        self.size.hash(h);
        for (k, b) in &self.blocks {
            if b.iter().any(|x| *x != 0) {
                k.hash(h);
                b.hash(h);
            }
        }
    }
    /// Ranges (start,end) worth reading back: whole file when small, otherwise
    /// around stored blocks, both ends and a few holes.
    pub fn interesting(&self, size: u64) -> Vec<(u64, u64)> {
        if size <= 1 << 18 {
            return vec![(0, size)];
        }
        let mut r: Vec<(u64, u64)> = vec![(0, 5000), (size.saturating_sub(5000), size)];
        for k in self.blocks.keys().chain(&self.dropped) {
            r.push(((k * BLK).saturating_sub(BLK + 7), (k + 1) * BLK + BLK + 7));
        }
        for k in 1..8u64 {
            let m = size / 8 * k;
            r.push((m, m + 300));
        }
        r.sort();
        let mut out: Vec<(u64, u64)> = vec![];
        for (a, b) in r {
            let b = b.min(size);
            if a >= b {
                continue;
            }
            match out.last_mut() {
                Some(l) if a <= l.1 => l.1 = l.1.max(b),
                _ => out.push((a, b)),
            }
        }
        out
    }
}

/// Deterministic, mostly non-zero data for a write.
pub fn fill(seed: u32, len: usize) -> Vec<u8> {
    if seed % 23 == 0 {
        return vec![0u8; len];
    }
    let mut x = (seed as u64).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        for b in x.to_le_bytes() {
            v.push(b | 1);
        }
    }
    v.truncate(len);
    v
}
