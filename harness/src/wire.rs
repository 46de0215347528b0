//! Encoders for the two wire formats of replays, written from the format description
//! (Blizzard's BitPackedBuffer/VersionedDecoder) and independent of the decoders under test.

/// Bit packed: bits are taken from the low end of each byte, earlier chunks are more significant.
#[derive(Default, Clone, Debug)]
pub struct BitW {
    pub buf: Vec<u8>,
    /// Bits already used of the last byte, 0 = aligned.
    pub used: u32,
}

impl BitW {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn bits(&mut self, n: u32, v: u64) {
        let mut remaining = n;
        while remaining > 0 {
            if self.used == 0 {
                self.buf.push(0);
            }
            let avail = 8 - self.used;
            let take = avail.min(remaining);
            let chunk = (v >> (remaining - take)) & ((1u64 << take) - 1);
            *self.buf.last_mut().unwrap() |= (chunk << self.used) as u8;
            self.used = (self.used + take) % 8;
            remaining -= take;
        }
    }
    pub fn align(&mut self) {
        self.used = 0;
    }
    /// Fills the unused bits up to the byte boundary with the low bits of `v` and aligns.
    pub fn align_with(&mut self, v: u8) {
        if self.used != 0 {
            let free = 8 - self.used;
            self.bits(free, v as u64 & ((1 << free) - 1));
        }
    }
    pub fn aligned_bytes(&mut self, b: &[u8]) {
        self.align();
        self.buf.extend_from_slice(b);
    }
    pub fn bit_len(&self) -> usize {
        if self.used == 0 { self.buf.len() * 8 } else { (self.buf.len() - 1) * 8 + self.used as usize }
    }
}

/// Signed variable length integer.
pub fn vlq(out: &mut Vec<u8>, v: i128) {
    let neg = v < 0;
    let mut m = v.unsigned_abs();
    let mut b = (neg as u8) | (((m & 0x3f) as u8) << 1);
    m >>= 6;
    while m != 0 {
        out.push(b | 0x80);
        b = (m & 0x7f) as u8;
        m >>= 7;
    }
    out.push(b);
}

/// The same, with `extra` redundant (zero) groups at the end.
pub fn vlq_padded(out: &mut Vec<u8>, v: i128, extra: usize) {
    let start = out.len();
    vlq(out, v);
    debug_assert!(out.len() > start);
    for _ in 0..extra {
        let l = out.len() - 1;
        out[l] |= 0x80;
        out.push(0);
    }
}

pub fn v_int(out: &mut Vec<u8>, v: i128) {
    out.push(9);
    vlq(out, v);
}
pub fn v_blob(out: &mut Vec<u8>, b: &[u8]) {
    out.push(2);
    vlq(out, b.len() as i128);
    out.extend_from_slice(b);
}
