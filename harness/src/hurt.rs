//! Damaged and senseless bytes.
use crate::rng::Rng;
use crate::wire::vlq;

/// Numbers that hurt as length, count, index or tag.
const BOMBS: &[i128] = &[
    -1, 0, 1, 2, 63, 64, 127, 128, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000,
    i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 1 << 40, 1 << 60, -(1 << 31), -(1 << 40),
];

pub fn bomb(r: &mut Rng) -> i128 {
    if r.chance(3, 4) { *r.pick(BOMBS) } else { r.next() as i64 as i128 }
}

/// A damaged copy of `b`.
pub fn mutate(b: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut v = b.to_vec();
    for _ in 0..1 + r.below(4) {
        let n = v.len();
        match r.below(12) {
            0 if n > 0 => {
                let i = r.below(n);
                v[i] ^= 1 << r.below(8);
            }
            1 if n > 0 => {
                let i = r.below(n);
                v[i] = r.next() as u8;
            }
            2 if n > 0 => {
                let i = r.below(n);
                v[i] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xfe]);
            }
            3 => {
                // a number instead of whatever was there
                let i = r.below(n + 1);
                let mut x = vec![];
                vlq(&mut x, bomb(r));
                let cut = r.below(3).min(n - i);
                v.splice(i..i + cut, x);
            }
            4 => {
                // a tagged number, blob, array or optional
                let i = r.below(n + 1);
                let mut x = vec![r.below(12) as u8];
                vlq(&mut x, bomb(r));
                v.splice(i..i, x);
            }
            5 => v.truncate(r.below(n + 1)),
            6 if n > 1 => {
                let i = r.below(n);
                let j = i + r.below(n - i);
                let part = v[i..j].to_vec();
                let at = r.below(n);
                v.splice(at..at, part);
            }
            7 if n > 1 => {
                let i = r.below(n);
                let j = i + r.below((n - i).min(8) + 1).min(n - i);
                v.drain(i..j);
            }
            8 => {
                let i = r.below(n + 1);
                let k = 1 + r.below(12);
                let x = vec![*r.pick(&[0xffu8, 0x80, 0, 0x05, 0x81]); k];
                v.splice(i..i, x);
            }
            9 => {
                let k = r.below(20);
                let x = r.bytes(k);
                v.extend(x);
            }
            10 if n >= 4 => {
                let i = r.below(n - 3);
                let x = (bomb(r) as u32).to_le_bytes();
                v[i..i + 4].copy_from_slice(&x);
            }
            _ if n > 0 => {
                let i = r.below(n);
                let k = (1 + r.below(6)).min(n - i);
                for x in &mut v[i..i + k] {
                    *x = 0xff;
                }
            }
            _ => {}
        }
    }
    v
}

/// Bytes without any structure, of a few characters.
pub fn noise(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.below(4),
        1 => r.below(40),
        _ => r.below(400),
    };
    match r.below(5) {
        0 => vec![*r.pick(&[0u8, 0xff, 0x80, 0x7f, 5, 4, 3]); n],
        1 => {
            // looks like the self-describing format
            let mut v = vec![];
            while v.len() < n {
                v.push(*r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 9]));
                let x = if r.chance(2, 3) { r.below(8) as i128 } else { bomb(r) };
                vlq(&mut v, x);
            }
            v
        }
        _ => r.bytes(n),
    }
}

pub fn le32(v: &mut Vec<u8>, x: i64) {
    v.extend_from_slice(&(x as i32).to_le_bytes());
}
