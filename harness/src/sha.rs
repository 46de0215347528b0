//! SHA-256 (FIPS 180-4), independent of the one the library uses.
fn primes(n: usize) -> Vec<u64> {
    let mut p: Vec<u64> = vec![];
    let mut c = 2u64;
    while p.len() < n {
        if p.iter().all(|x| c % x != 0) {
            p.push(c);
        }
        c += 1;
    }
    p
}

/// First 32 bits of the fractional part of the k-th root, by integer search.
fn frac_root(p: u64, k: u32) -> u32 {
    // floor(p^(1/k) * 2^32), so the low word is the fraction
    let (mut lo, mut hi) = (0u128, 1u128 << 40);
    let target = |m: u128| -> bool {
        // m^k <= p * 2^(32k)
        if k == 2 {
            m * m <= (p as u128) << 64
        } else {
            // m < 2^36, m^3 < 2^108
            m * m * m <= (p as u128) << 96
        }
    };
    while hi - lo > 1 {
        let m = (lo + hi) / 2;
        if target(m) { lo = m } else { hi = m }
    }
    lo as u32
}

pub fn sha256_hex(data: &[u8]) -> String {
    static K: std::sync::OnceLock<(Vec<u32>, Vec<u32>)> = std::sync::OnceLock::new();
    let (k, h0) = K.get_or_init(|| {
        let p = primes(64);
        (p.iter().map(|x| frac_root(*x, 3)).collect(), p[..8].iter().map(|x| frac_root(*x, 2)).collect())
    });
    let mut h: Vec<u32> = h0.clone();
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for block in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(block[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v: [u32; 8] = h.clone().try_into().unwrap();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(maj);
            v = [t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().map(|x| format!("{x:08x}")).collect()
}

/// Days since 1970-01-01 to (year, month, day) in the proleptic Gregorian calendar, by walking.
pub fn civil(days: i64) -> (i64, u32, u32) {
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    // 400 years are 146097 days
    let mut y = 1970 + 400 * days.div_euclid(146_097);
    let mut d = days.rem_euclid(146_097);
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < n {
            break;
        }
        d -= n;
        y += 1;
    }
    let months = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let mut m = 0;
    while d >= months[m] {
        d -= months[m];
        m += 1;
    }
    (y, m as u32 + 1, d as u32 + 1)
}

#[cfg(test)]
mod tests {
    #[test]
    fn known() {
        assert_eq!(super::sha256_hex(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad");
        assert_eq!(super::sha256_hex(b""), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855");
        assert_eq!(super::civil(19_724), (2024, 1, 2));
    }
}
