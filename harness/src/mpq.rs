//! Writer for MPQ archives as used by replays.

fn table() -> &'static [u32; 0x500] {
    static T: std::sync::OnceLock<[u32; 0x500]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 0x500];
        let mut seed: u64 = 0x0010_0001;
        for i in 0..256usize {
            let mut idx = i;
            for _ in 0..5 {
                seed = (seed * 125 + 3) % 0x2AAAAB;
                let a = (seed & 0xFFFF) << 16;
                seed = (seed * 125 + 3) % 0x2AAAAB;
                let b = seed & 0xFFFF;
                t[idx] = (a | b) as u32;
                idx += 0x100;
            }
        }
        t
    })
}

pub fn hash(name: &str, kind: usize) -> u32 {
    let t = table();
    let mut s1: u32 = 0x7FED_7FED;
    let mut s2: u32 = 0xEEEE_EEEE;
    for c in name.to_uppercase().bytes() {
        let v = t[(kind << 8) + c as usize];
        s1 = v ^ s1.wrapping_add(s2);
        s2 = (c as u32).wrapping_add(s1).wrapping_add(s2).wrapping_add(s2 << 5).wrapping_add(3);
    }
    s1
}

fn encrypt(words: &[u32], key: u32) -> Vec<u8> {
    let t = table();
    let mut s1 = key;
    let mut s2: u32 = 0xEEEE_EEEE;
    let mut out = vec![];
    for w in words {
        s2 = s2.wrapping_add(t[0x400 + (s1 & 0xFF) as usize]);
        out.extend_from_slice(&(w ^ s1.wrapping_add(s2)).to_le_bytes());
        s1 = ((!s1 << 0x15).wrapping_add(0x1111_1111)) | (s1 >> 0x0B);
        s2 = w.wrapping_add(s2).wrapping_add(s2 << 5).wrapping_add(3);
    }
    out
}

fn zlib(data: &[u8]) -> Option<Vec<u8>> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![2u8], flate2::Compression::default());
    e.write_all(data).ok()?;
    let out = e.finish().ok()?;
    (out.len() < data.len()).then_some(out)
}

/// How a file is kept: as it is, packed as one unit, or packed in sectors of 4096 bytes.
/// Packing is only ever done where it gains something, as the format says.
fn stored(data: &[u8]) -> (Vec<u8>, u32) {
    const EXISTS: u32 = 0x8000_0000;
    const SINGLE: u32 = 0x0100_0000;
    const PACKED: u32 = 0x0000_0200;
    match crate::rng::fnv(data) % 4 {
        0 => (data.to_vec(), EXISTS | SINGLE),
        1 => match data.chunks(4096).map(zlib).collect::<Option<Vec<_>>>() {
            Some(mut parts) if !parts.is_empty() => {
                // The table has room for a sector after the last full one.
                if data.len() % 4096 == 0 {
                    parts.push(vec![]);
                }
                let mut out = vec![];
                let mut at = 4 * (parts.len() + 1);
                for part in &parts {
                    out.extend_from_slice(&(at as u32).to_le_bytes());
                    at += part.len();
                }
                out.extend_from_slice(&(at as u32).to_le_bytes());
                for part in &parts {
                    out.extend_from_slice(part);
                }
                (out, EXISTS | PACKED)
            }
            _ => (data.to_vec(), EXISTS | SINGLE | PACKED),
        },
        _ => (zlib(data).unwrap_or_else(|| data.to_vec()), EXISTS | SINGLE | PACKED),
    }
}

/// `user_data`: content of the user data block, None for an archive without one.
pub fn archive(user_data: Option<&[u8]>, files: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut out = vec![];
    let mut base = 0usize;
    if let Some(ud) = user_data {
        base = (16 + ud.len()).div_ceil(512).max(1) * 512;
        out.extend_from_slice(b"MPQ\x1b");
        out.extend_from_slice(&((base - 16) as u32).to_le_bytes());
        out.extend_from_slice(&(base as u32).to_le_bytes());
        out.extend_from_slice(&(ud.len() as u32).to_le_bytes());
        out.extend_from_slice(ud);
        out.resize(base, 0);
    }
    let header_len = 32usize;
    let mut body = vec![];
    let mut blocks = vec![];
    for (_, data) in files {
        let (kept, flags) = stored(data);
        blocks.push((header_len + body.len(), kept.len(), data.len(), flags));
        body.extend_from_slice(&kept);
    }
    let n_hash = (files.len() * 2).next_power_of_two().max(4);
    let hash_off = header_len + body.len();
    let block_off = hash_off + n_hash * 16;
    let total = block_off + blocks.len() * 16;
    out.extend_from_slice(b"MPQ\x1a");
    out.extend_from_slice(&(header_len as u32).to_le_bytes());
    out.extend_from_slice(&(total as u32).to_le_bytes());
    out.extend_from_slice(&0u16.to_le_bytes());
    out.extend_from_slice(&3u16.to_le_bytes());
    out.extend_from_slice(&(hash_off as u32).to_le_bytes());
    out.extend_from_slice(&(block_off as u32).to_le_bytes());
    out.extend_from_slice(&(n_hash as u32).to_le_bytes());
    out.extend_from_slice(&(blocks.len() as u32).to_le_bytes());
    debug_assert_eq!(out.len(), base + header_len);
    out.extend_from_slice(&body);
    let mut hashes = vec![[0xffff_ffffu32; 4]; n_hash];
    for (i, (name, _)) in files.iter().enumerate() {
        let mut slot = hash(name, 0) as usize % n_hash;
        while hashes[slot][3] != 0xffff_ffff {
            slot = (slot + 1) % n_hash;
        }
        hashes[slot] = [hash(name, 1), hash(name, 2), 0, i as u32];
    }
    let hw: Vec<u32> = hashes.into_iter().flatten().collect();
    out.extend_from_slice(&encrypt(&hw, hash("(hash table)", 3)));
    let mut bw = vec![];
    for (off, kept, len, flags) in blocks {
        bw.extend_from_slice(&[off as u32, kept as u32, len as u32, flags]);
    }
    out.extend_from_slice(&encrypt(&bw, hash("(block table)", 3)));
    out
}
