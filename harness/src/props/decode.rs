//! D01-D05, D08: decoded values against the encoded ones.
use crate::report::{Case, Run, repo_dir};
use crate::rng::{Rng, fnv, mix};
use crate::schema::*;
use crate::synth::*;
use crate::typed;
use crate::wire::*;
use s2protocol::game_events::{GameEventIteratorState, ReplayGameEvent};
use s2protocol::tracker_events::{ReplayTrackerEvent, TrackertEventIteratorState};
use s2protocol::versions::{protocol75689 as p75, protocol87702 as p87};
use s2protocol::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::path::PathBuf;

// ------------------------------------------------------------------ D01

/// Bit `pos` onwards of the buffer, as the format reads them.
fn bits_at(buf: &[u8], mut pos: usize, n: usize) -> Option<u64> {
    if pos + n > buf.len() * 8 {
        return None;
    }
    let mut v = 0u64;
    let mut left = n;
    while left > 0 {
        let in_byte = pos % 8;
        let take = (8 - in_byte).min(left);
        let chunk = (buf[pos / 8] >> in_byte) as u64 & ((1u64 << take) - 1);
        v = if take == 64 { chunk } else { (v << take) | chunk };
        pos += take;
        left -= take;
    }
    Some(v)
}

fn pos_of(buf: &[u8], t: (&[u8], usize)) -> usize {
    (buf.len() - t.0.len()) * 8 + t.1
}

fn at(buf: &[u8], pos: usize) -> (&[u8], usize) {
    (&buf[pos / 8..], pos % 8)
}

const EMPTY_BITS: &str = "empty bit array reads as one zero byte";

fn check_read<T: PartialEq + std::fmt::Debug>(
    c: &mut Case,
    what: &str,
    buf: &[u8],
    pos: usize,
    want: Option<(T, usize)>,
    got: Result<((&[u8], usize), T), String>,
) {
    c.count(&format!("reads.{what}"), 1);
    match (want, got) {
        (Some((v, end)), Ok((t, g))) => {
            let gp = pos_of(buf, t);
            if v != g || gp != end {
                c.fail(
                    format!("{what}: wrong value or position"),
                    json!({"buf": buf, "bit": pos, "want": format!("{v:?}"), "got": format!("{g:?}"), "want_end": end, "got_end": gp}),
                );
            }
        }
        (None, Err(_)) => c.count("rejected_short_reads", 1),
        (Some((v, _)), Err(e)) => {
            c.fail(format!("{what}: refused"), json!({"buf": buf, "bit": pos, "want": format!("{v:?}"), "error": e}))
        }
        (None, Ok((_, g))) => {
            c.fail(format!("{what}: read past the end"), json!({"buf": buf, "bit": pos, "got": format!("{g:?}")}))
        }
    }
}

fn res<'a, T>(r: S2ProtoResult<(&'a [u8], usize), T>) -> Result<((&'a [u8], usize), T), String> {
    r.map_err(|e| format!("{e:?}"))
}

fn groups_at(buf: &[u8], pos: usize, n: usize) -> Option<Vec<u8>> {
    if pos + n > buf.len() * 8 {
        return None;
    }
    let mut out = vec![];
    let mut p = pos;
    let mut left = n;
    while left > 0 {
        let k = left.min(8);
        out.push(bits_at(buf, p, k)? as u8);
        p += k;
        left -= k;
    }
    Some(out)
}

fn d01_case(c: &mut Case, r: &mut Rng) {
    let len = match r.below(5) {
        0 => r.below(3),
        1 => r.below(12),
        _ if r.chance(1, 60) => r.below(9000),
        _ => r.below(40),
    };
    let long = len > 40;
    let mut buf = match r.below(4) {
        0 => vec![0xff; len],
        1 => vec![0; len],
        _ => r.bytes(len),
    };
    if r.chance(1, 8) && len > 0 {
        let k = r.below(len);
        buf[k] = 1 << r.below(8);
    }
    c.seen(fnv(&buf));
    c.sample(|| json!({"buffer": head(&buf)}));
    for _ in 0..if long { 6 } else { 40 } {
        // bit offsets 0..=7 within the first byte of the given slice
        let pos = r.below(len * 8 + 1);
        if pos / 8 == len && pos % 8 != 0 {
            continue;
        }
        let n = if r.chance(1, 10) { [0, 1, 7, 8, 9, 63, 64][r.below(7)] } else { r.below(65) };
        let input = at(&buf, pos);
        let want = bits_at(&buf, pos, n);
        check_read(c, "take_n_bits_into_i64", &buf, pos, want.map(|v| (v as i64, pos + n)), res(take_n_bits_into_i64(input, n)));
        // packed integers
        let off = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => -(1i64 << r.below(63)),
            3 => i64::MIN,
            _ => r.next() as i64 >> r.below(64),
        };
        check_read(
            c,
            "parse_packed_int",
            &buf,
            pos,
            want.map(|v| (off.wrapping_add(v as i64), pos + n)),
            res(parse_packed_int(input, off, n)),
        );
        // flags
        let bit = bits_at(&buf, pos, 1);
        check_read(c, "parse_bool", &buf, pos, bit.map(|v| (v == 1, pos + 1)), res(parse_bool(input)));
        // single chunks
        let k = r.below(9);
        let chunk = bits_at(&buf, pos, k);
        match (chunk, rtake_n_bits(input, k)) {
            (Some(v), Ok((_, g))) => {
                c.count("reads.rtake_n_bits", 1);
                c.check(v as u8 == g, "rtake_n_bits: wrong value", || json!({"buf": buf, "bit": pos, "n": k, "got": g, "want": v}));
            }
            (Some(v), Err(_)) => c.fail("rtake_n_bits: refused", json!({"buf": buf, "bit": pos, "n": k, "want": v})),
            (None, Ok((_, g))) => {
                c.fail("rtake_n_bits: read past the end", json!({"buf": buf, "bit": pos, "n": k, "got": g}))
            }
            (None, Err(_)) => {}
        }
        // bit arrays
        let m = match r.below(8) {
            0 => 0,
            _ if long => r.below(len * 8 + 60),
            _ => r.below(90),
        };
        let got = res(take_bit_array(input, m));
        if m == 0
            && let Ok((t, g)) = &got
            && *g == vec![0]
            && pos_of(&buf, *t) == pos
        {
            c.fail(EMPTY_BITS, json!({"buf": buf, "bit": pos, "got": g}));
        } else {
            check_read(c, "take_bit_array", &buf, pos, groups_at(&buf, pos, m).map(|v| (v, pos + m)), got);
        }
        check_read(c, "take_unaligned_byte", &buf, pos, bits_at(&buf, pos, 8).map(|v| (v as u8, pos + 8)), res(take_unaligned_byte(input)));
        check_read(c, "take_fourcc", &buf, pos, groups_at(&buf, pos, 32).map(|v| (v, pos + 32)), res(take_fourcc(input)));
        check_read(c, "take_null", &buf, pos, Some(((), pos)), res(take_null(input)));
        check_read(c, "byte_align", &buf, pos, Some(((), pos.div_ceil(8) * 8)), res(byte_align(input)));
        // blobs: length, alignment, bytes
        let lb = [7u32, 8, 9, 11][r.below(4)];
        let want_blob = bits_at(&buf, pos, lb as usize).and_then(|l| {
            let start = (pos + lb as usize).div_ceil(8) * 8;
            groups_at(&buf, start, l as usize * 8).map(|v| (v, start + l as usize * 8))
        });
        if want_blob.as_ref().is_none_or(|w| !w.0.is_empty()) {
            use p87::bit_packed::*;
            match lb {
                7 => check_read(c, "blob7", &buf, pos, want_blob, res(CToonHandle::parse(input)).map(|x| (x.0, x.1.value))),
                8 => check_read(c, "blob8", &buf, pos, want_blob, res(CUserName::parse(input)).map(|x| (x.0, x.1.value))),
                9 => check_read(c, "blob9", &buf, pos, want_blob, res(CHeroHandle::parse(input)).map(|x| (x.0, x.1.value))),
                _ => check_read(c, "blob11", &buf, pos, want_blob, res(CFilePath::parse(input)).map(|x| (x.0, x.1.value))),
            }
        }
    }
    // oversized reads are errors
    let big = 65 + r.below(1000);
    if take_n_bits_into_i64((&[0xffu8; 200][..], 0), big).is_ok() {
        c.fail("take_n_bits_into_i64: more than 64 bits accepted", json!({"n": big}));
    }
}

/// Reading back a written sequence of fields of different widths.
fn d01_sequence(c: &mut Case, r: &mut Rng) {
    enum F {
        I(u32, u64),
        B(bool),
        Bytes(Vec<u8>),
    }
    let mut w = BitW::new();
    let mut fields = vec![];
    for _ in 0..1 + r.below(30) {
        match r.below(5) {
            0 => {
                let b = r.bool();
                w.bits(1, b as u64);
                fields.push(F::B(b));
            }
            1 => {
                let n = 1 + r.below(20);
                let b = r.bytes(n);
                w.bits(8, b.len() as u64);
                w.aligned_bytes(&b);
                fields.push(F::Bytes(b));
            }
            _ => {
                let n = 1 + r.below(64) as u32;
                let v = r.next() >> (64 - n);
                w.bits(n, v);
                fields.push(F::I(n, v));
            }
        }
    }
    let total = w.bit_len();
    let buf = w.buf;
    c.seen(fnv(&buf));
    let mut t: (&[u8], usize) = (&buf, 0);
    for f in &fields {
        let ok = match f {
            F::B(b) => match parse_bool(t) {
                Ok((n, v)) => {
                    t = n;
                    v == *b
                }
                Err(_) => false,
            },
            F::I(n, v) => match take_n_bits_into_i64(t, *n as usize) {
                Ok((n, g)) => {
                    t = n;
                    g as u64 == *v
                }
                Err(_) => false,
            },
            F::Bytes(b) => match p87::bit_packed::CUserName::parse(t) {
                Ok((n, g)) => {
                    t = n;
                    g.value == *b
                }
                Err(_) => false,
            },
        };
        c.count("sequence_fields", 1);
        if !ok {
            c.fail("sequence of fields read differently", json!({"buf": buf, "bit": pos_of(&buf, t)}));
            return;
        }
    }
    c.check(pos_of(&buf, t) == total, "cursor not at the end after a sequence", || json!({"buf": buf, "at": pos_of(&buf, t), "want": total}));
}

pub fn d01(run: &mut Run) {
    run.rule("distinct buffers read at random bit positions with every primitive reader; value and cursor compared with an independent bit model");
    run.assume("bit model: chunks from the low end of each byte, earlier chunks more significant");
    run.need("reads.take_n_bits_into_i64", 10_000);
    run.need("rejected_short_reads", 1000);
    run.part("primitives", 20_000, 6.0, d01_case);
    run.part("sequences", 80_000, 3.0, d01_sequence);
}

// ------------------------------------------------------------------ D02

fn nomres<'a, T>(r: Result<(&'a [u8], T), nom_err::Err>) -> Result<(&'a [u8], T), String> {
    r.map_err(|e| format!("{e:?}"))
}
mod nom_err {
    pub type Err = String;
}

fn head(b: &[u8]) -> &[u8] {
    &b[..b.len().min(400)]
}

macro_rules! chk {
    ($c:expr, $what:expr, $input:expr, $used:expr, $want:expr, $got:expr) => {{
        let got: Result<(&[u8], _), String> = nomres($got.map_err(|e| if $input.len() > 9999 { "refused".to_string() } else { format!("{e:?}") }));
        $c.count(concat!("reads.", $what), 1);
        match ($want, got) {
            (Some(w), Ok((tail, g))) => {
                let used = $input.len() - tail.len();
                if w != g || used != $used {
                    $c.fail(
                        concat!($what, ": wrong value or rest"),
                        json!({"input": head($input), "len": $input.len(), "want": trunc(&format!("{:?}", w), 900), "got": trunc(&format!("{:?}", g), 900), "want_used": $used, "used": used}),
                    );
                }
            }
            (None, Err(_)) => $c.count("rejected", 1),
            (Some(w), Err(e)) => $c.fail(concat!($what, ": refused"), json!({"input": head($input), "len": $input.len(), "want": trunc(&format!("{:?}", w), 900), "error": trunc(&e, 300)})),
            (None, Ok((_, g))) => $c.fail(concat!($what, ": accepted"), json!({"input": head($input), "len": $input.len(), "got": trunc(&format!("{:?}", g), 900)})),
        }
    }};
}

fn d02_case(c: &mut Case, r: &mut Rng) {
    // integers over the whole range and beyond
    for _ in 0..20 {
        let v: i128 = match r.below(8) {
            0 => r.biased(i64::MIN as i128, i64::MAX as i128),
            1 => i64::MIN as i128 + r.below(3) as i128,
            2 => i64::MAX as i128 - r.below(3) as i128,
            3 => {
                // multiples of the group sizes
                let k = 6 + 7 * r.below(10) as u32;
                let p = 1i128 << k.min(63);
                let x = p + r.below(3) as i128 - 1;
                if r.bool() { x } else { -x }
            }
            4 => i64::MAX as i128 + 1 + r.below(5) as i128,
            5 => i64::MIN as i128 - 1 - r.below(5) as i128,
            6 => {
                let x = (r.next() as i128) << r.below(30);
                if r.bool() { x } else { -x }
            }
            _ => r.range(-100, 100) as i128,
        };
        let fits = i64::try_from(v).ok();
        let mut enc = vec![];
        if r.chance(1, 10) {
            vlq_padded(&mut enc, v, 1 + r.below(3));
        } else {
            vlq(&mut enc, v);
        }
        let used = enc.len();
        let n = r.below(4);
        enc.extend(r.bytes(n));
        c.seen(fnv(&enc));
        chk!(c, "parse_vlq_int", &enc[..], used, fits, parse_vlq_int(&enc));
        // cut short at every place
        let cut = r.below(used);
        chk!(c, "parse_vlq_int", &enc[..cut], 0, None::<i64>, parse_vlq_int(&enc[..cut]));
        let mut tagged = vec![9u8];
        tagged.extend_from_slice(&enc);
        chk!(c, "tagged_vlq_int", &tagged[..], used + 1, fits, tagged_vlq_int(&tagged));
        chk!(c, "tagged_vlq_int", &tagged[..cut + 1], 0, None::<i64>, tagged_vlq_int(&tagged[..cut + 1]));
    }
    // never ending number
    let endless = vec![0x80 | (r.next() as u8 | 2); r.below(300) + 1];
    chk!(c, "parse_vlq_int", &endless[..], 0, None::<i64>, parse_vlq_int(&endless));

    let n = match r.below(4000) {
        0 => (1 << 24) + r.below(3) * 77,
        1..=12 => 60_000 + r.below(80_000),
        13..=400 => r.below(5000),
        _ => r.below(40),
    };
    let mut data = r.bytes(n.min(200_000));
    data.resize(n, 0xa5);
    let nt = r.below(5);
    let tail = r.bytes(nt);
    // blob
    let mut enc = vec![];
    v_blob(&mut enc, &data);
    let used = enc.len();
    enc.extend_from_slice(&tail);
    chk!(c, "tagged_blob", &enc[..], used, Some(data.clone()), tagged_blob(&enc));
    let cut = r.below(used);
    chk!(c, "tagged_blob", &enc[..cut], 0, None::<Vec<u8>>, tagged_blob(&enc[..cut]));
    // blob announcing more than there is
    let mut short = vec![2u8];
    vlq(&mut short, (data.len() + tail.len() + 1 + r.below(1 << 20)) as i128);
    short.extend_from_slice(&data);
    short.extend_from_slice(&tail);
    chk!(c, "tagged_blob", &short[..], 0, None::<Vec<u8>>, tagged_blob(&short));
    let mut neg = vec![2u8];
    vlq(&mut neg, -1 - r.below(100) as i128);
    neg.extend_from_slice(&data);
    chk!(c, "tagged_blob", &neg[..], 0, None::<Vec<u8>>, tagged_blob(&neg));
    // bit array: the length counts bits
    let bits = if data.is_empty() { 0 } else { data.len() * 8 - r.below(8) };
    let mut enc = vec![1u8];
    vlq(&mut enc, bits as i128);
    enc.extend_from_slice(&data);
    let used = enc.len();
    enc.extend_from_slice(&tail);
    chk!(c, "tagged_bitarray", &enc[..], used, Some(data.clone()), tagged_bitarray(&enc));
    let cut = r.below(used);
    chk!(c, "tagged_bitarray", &enc[..cut], 0, None::<Vec<u8>>, tagged_bitarray(&enc[..cut]));
    // flags
    let b = if r.chance(1, 4) { r.next() as u8 } else { r.below(2) as u8 };
    let mut enc = vec![6u8, b];
    enc.extend_from_slice(&tail);
    chk!(c, "tagged_bool", &enc[..], 2, Some(b != 0), tagged_bool(&enc));
    chk!(c, "tagged_bool", &enc[..1], 0, None::<bool>, tagged_bool(&enc[..1]));
    // four character codes
    let f = r.bytes(4);
    let mut enc = vec![7u8];
    enc.extend_from_slice(&f);
    enc.extend_from_slice(&tail);
    chk!(c, "tagged_fourcc", &enc[..], 5, Some(u32::from_be_bytes([f[0], f[1], f[2], f[3]])), tagged_fourcc(&enc));
    let cut = r.below(5);
    chk!(c, "tagged_fourcc", &enc[..cut], 0, None::<u32>, tagged_fourcc(&enc[..cut]));
    // tags: only the own tag is accepted
    let t = r.next() as u8;
    let mut any = vec![t];
    any.extend_from_slice(&[2, 0, 0, 0, 0, 0, 0, 0]);
    macro_rules! tagcheck {
        ($name:expr, $tag:expr, $f:expr) => {
            match $f(&any[..]) {
                Ok((rest, _)) => {
                    c.check(t == $tag && rest == &any[1..], concat!($name, ": wrong tag accepted"), || json!({"tag": t}));
                }
                Err(_) => {
                    c.check(t != $tag, concat!($name, ": own tag refused"), || json!({"tag": t}));
                }
            }
            c.check($f(&[][..]).is_err(), concat!($name, ": nothing accepted"), || json!({}));
            c.count("tag_checks", 1);
        };
    }
    tagcheck!("array tag", 0, validate_array_tag);
    tagcheck!("bitarray tag", 1, validate_bitarray_tag);
    tagcheck!("blob tag", 2, validate_blob_tag);
    tagcheck!("choice tag", 3, validate_choice_tag);
    tagcheck!("opt tag", 4, validate_opt_tag);
    tagcheck!("struct tag", 5, validate_struct_tag);
    tagcheck!("bool tag", 6, validate_bool_tag);
    tagcheck!("fourcc tag", 7, validate_fourcc_tag);
    tagcheck!("int tag", 9, validate_int_tag);
    if t != 2 {
        c.check(tagged_blob(&any).is_err(), "blob with another tag accepted", || json!({"tag": t}));
    }
    if t != 9 {
        c.check(tagged_vlq_int(&any).is_err(), "int with another tag accepted", || json!({"tag": t}));
    }
    if t != 6 {
        c.check(tagged_bool(&any).is_err(), "bool with another tag accepted", || json!({"tag": t}));
    }
    if t != 7 {
        c.check(tagged_fourcc(&any).is_err(), "fourcc with another tag accepted", || json!({"tag": t}));
    }
    if t != 1 {
        c.check(tagged_bitarray(&any).is_err(), "bit array with another tag accepted", || json!({"tag": t}));
    }
}

/// Tagged values inside of structures: a wrong tag or a cut anywhere is rejected.
fn d02_struct(c: &mut Case, r: &mut Rng) {
    let o = GenOpts { max_list: 2, max_blob: 8, ..Default::default() };
    let kinds = byta().variants("ReplayTrackerEEventId");
    let kind = kinds[r.below(kinds.len())].1.clone();
    let ev = byta().gen_variant("ReplayTrackerEEventId", &kind, r, &o);
    let mut enc = vec![];
    byta().enc_ver("ReplayTrackerEEventId", &ev, &mut Some(Rng::new(r.next())), &mut enc);
    let used = enc.len();
    let nt = r.below(4);
    enc.extend(r.bytes(nt));
    c.seen(fnv(&enc));
    macro_rules! both {
        ($t:ty) => {
            match <$t>::parse(&enc) {
                Ok((tail, e)) => {
                    let want = byta().dbg("ReplayTrackerEEventId", &ev);
                    let got = format!("{e:?}");
                    c.count("structures", 1);
                    c.check(got == want && enc.len() - tail.len() == used, "structure decoded differently", || {
                        json!({"want": trunc(&want, 600), "got": trunc(&got, 600), "used": enc.len() - tail.len(), "want_used": used})
                    });
                }
                Err(e) => c.fail("structure refused", json!({"want": format!("{ev:?}"), "error": trunc(&format!("{e:?}"), 300)})),
            }
            let cut = r.below(used);
            c.count("structure_cuts", 1);
            c.check(<$t>::parse(&enc[..cut]).is_err(), "structure cut short accepted", || json!({"bytes": &enc[..cut], "ev": format!("{ev:?}")}));
        };
    }
    both!(p87::byte_aligned::ReplayTrackerEEventId);
    both!(p75::byte_aligned::ReplayTrackerEEventId);
}

pub fn d02(run: &mut Run) {
    run.rule("distinct encodings of integers, blobs, flags, codes, bit arrays and structures, complete and cut; value and rest of input compared with the encoded one");
    run.need("reads.parse_vlq_int", 10_000);
    run.need("rejected", 5_000);
    run.need("structures", 2_000);
    run.part("values", 60_000, 6.0, d02_case);
    run.part("structures", 80_000, 4.0, d02_struct);
}

// ------------------------------------------------------------------ D03

pub fn gen_tracker_event(r: &mut Rng, o: &GenOpts) -> V {
    let kinds = byta().variants("ReplayTrackerEEventId");
    let k = kinds[r.below(kinds.len())].1.clone();
    byta().gen_variant("ReplayTrackerEEventId", &k, r, o)
}

pub fn gen_delta(r: &mut Rng) -> u32 {
    match r.below(12) {
        0 => r.below(64) as u32,
        1 => r.below(1 << 14) as u32,
        2 => r.below(1 << 22) as u32,
        3 => [63u32, 64, 0x3fff, 0x4000, 0x3fffff, 0x400000][r.below(6)],
        4 if r.chance(1, 4) => [u32::MAX, r.next() as u32][r.below(2)],
        _ => r.below(6) as u32,
    }
}

pub fn to_json<T: serde::Serialize>(v: &T) -> Value {
    serde_json::to_value(v).expect("harness: to_value")
}

/// All events an iterator state gives, as (loop, event).
pub fn iter_tracker(bytes: &[u8], version: u32) -> Vec<(i64, ReplayTrackerEvent)> {
    let mut st = TrackertEventIteratorState::from(bytes.to_vec());
    let mut out = vec![];
    while let Some(e) = st.get_next_event(version) {
        if let SC2EventType::Tracker { tracker_loop, event } = e {
            out.push((tracker_loop, event));
        }
        if out.len() > 2_000_000 {
            panic!("harness: endless tracker iteration");
        }
    }
    out
}

pub fn iter_game(bytes: &[u8], version: u32) -> Vec<(i64, i64, ReplayGameEvent)> {
    let mut st = GameEventIteratorState::from(bytes.to_vec());
    let (us, ab) = (HashMap::new(), HashMap::new());
    let mut out = vec![];
    while let Some(e) = st.get_next_event(version, &us, &ab) {
        if let SC2EventType::Game { game_loop, user_id, event, .. } = e {
            out.push((game_loop, user_id, event));
        }
        if out.len() > 2_000_000 {
            panic!("harness: endless game iteration");
        }
    }
    out
}

/// Compares a list of delivered events with the expected ones.
pub fn compare_stream(c: &mut Case, what: &str, want: &[Value], got: &[Value], ctx: impl Fn() -> Value) -> bool {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if let Some(d) = subset(w, g, "") {
            c.fail(format!("{what}: event differs"), json!({"index": i, "diff": d, "want": short(w), "ctx": ctx()}));
            return false;
        }
    }
    if want.len() != got.len() {
        let first = want.get(got.len()).or_else(|| got.get(want.len())).map(short);
        c.fail(
            format!("{what}: number of events differs"),
            json!({"want": want.len(), "got": got.len(), "first_extra_or_missing": first, "ctx": ctx()}),
        );
        return false;
    }
    true
}

fn with_loop(l: i64, v: Value) -> Value {
    json!({"loop": l, "event": v})
}

pub fn scratch_dir() -> &'static PathBuf {
    static D: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let base = std::env::var("HARNESS_SCRATCH").unwrap_or_else(|_| format!("/tmp/s2h-{}", std::process::id()));
        let p = PathBuf::from(base);
        std::fs::create_dir_all(&p).expect("harness: scratch");
        p
    })
}

/// A fresh directory for one case; removed when dropped.
pub struct TmpDir(pub PathBuf);
impl TmpDir {
    pub fn new() -> Self {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = scratch_dir().join(format!("c{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("harness: case dir");
        TmpDir(p)
    }
}
impl Drop for TmpDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn pick_build(r: &mut Rng) -> u32 {
    if r.chance(1, 3) { *r.pick(OLD_BUILDS) } else { *r.pick(NEW_BUILDS) }
}

fn d03_case(c: &mut Case, r: &mut Rng) {
    let o = GenOpts { utf8: !r.chance(1, 6), max_list: 9, ..Default::default() };
    let n = 1 + r.below(12);
    let evs: Vec<TEv> = (0..n).map(|_| TEv { delta: gen_delta(r), ev: gen_tracker_event(r, &o) }).collect();
    let (bytes, ends) = enc_tracker(&evs, r);
    c.seen(fnv(&bytes));
    c.count("events_encoded", n as u64);
    for e in &evs {
        c.count(&format!("kind.{}", e.ev.variant()), 1);
    }
    c.sample(|| json!({"events": evs.iter().map(|e| e.ev.variant().to_string()).collect::<Vec<_>>(), "bytes": bytes.len()}));
    // wire structures of both generations
    let mut at = 0;
    for (e, end) in evs.iter().zip(&ends) {
        let want = byta().dbg("ReplayTrackerEEventId", &e.ev);
        macro_rules! one {
            ($t:ty) => {
                match <$t>::parse_event_pair(&bytes[at..]) {
                    Ok((tail, (delta, ev))) => {
                        let got = format!("{ev:?}");
                        if got != want || delta != e.delta || bytes.len() - tail.len() != *end {
                            c.fail("wire event differs", json!({"want": trunc(&want, 700), "got": trunc(&got, 700),
                                "delta": [e.delta, delta], "end": [*end, bytes.len() - tail.len()]}));
                            return;
                        }
                    }
                    Err(err) => {
                        c.fail("wire event refused", json!({"want": trunc(&want, 700), "error": trunc(&format!("{err:?}"), 300)}));
                        return;
                    }
                }
            };
        }
        one!(p75::byte_aligned::ReplayTrackerEEventId);
        one!(p87::byte_aligned::ReplayTrackerEEventId);
        at = *end;
    }
    // iterators
    let want: Vec<Value> = typed::tracker_stream(&evs).into_iter().map(|(l, v)| with_loop(l, v)).collect();
    for v in [*r.pick(OLD_BUILDS), *r.pick(NEW_BUILDS)] {
        let events = iter_tracker(&bytes, v);
        let got: Vec<Value> = events.iter().map(|(l, e)| with_loop(*l, to_json(e))).collect();
        c.count("events_compared", got.len() as u64);
        if !compare_stream(c, "iterated tracker events", &want, &got, || json!({"version": v})) {
            return;
        }
        // the statistics as named values
        for (_, e) in &events {
            let ReplayTrackerEvent::PlayerStats(e) = e else { continue };
            let stored = to_json(&e.stats);
            let stored = stored.as_object().expect("harness: stats");
            let named = e.stats.as_prop_name_value_vec();
            c.count("stats_named", named.len() as u64);
            let mut seen: Vec<String> = vec![];
            for (name, value) in &named {
                let field = name.replace('/', "_");
                if stored.get(&field) != Some(&json!(value)) || seen.contains(&field) {
                    c.fail("named statistic", json!({"name": name, "got": value, "want": stored.get(&field)}));
                    return;
                }
                seen.push(field);
            }
            c.check(seen.len() == stored.len(), "statistics without a name", || json!({"named": seen.len(), "stored": stored.len()}));
        }
    }
}

/// The bulk reader through an archive.
fn d03_bulk(c: &mut Case, r: &mut Rng, n: usize) {
    let o = GenOpts { max_list: 6, ..Default::default() };
    let evs: Vec<TEv> = (0..n).map(|_| TEv { delta: gen_delta(r), ev: gen_tracker_event(r, &o) }).collect();
    let (bytes, _) = enc_tracker(&evs, r);
    let build = pick_build(r);
    let (mut rep, _) = gen_world(r, build, 2);
    if n > 1_000 {
        // the iterators over a long stream
        c.count("long_streams", 1);
        let got: Vec<Value> = iter_tracker(&bytes, build).iter().map(|(l, e)| with_loop(*l, to_json(e))).collect();
        let want: Vec<Value> = typed::tracker_stream(&evs).into_iter().map(|(l, v)| with_loop(l, v)).collect();
        if !compare_stream(c, "long stream of tracker events", &want, &got, || json!({"build": build, "events": n})) {
            return;
        }
    }
    rep.tracker = bytes;
    let file = rep.bytes(r);
    c.seen(fnv(&file));
    let (_, mpq) = match parser::parse(&file) {
        Ok(x) => x,
        Err(e) => panic!("harness: archive not readable: {e:?}"),
    };
    match read_tracker_events("x", &mpq, &file) {
        Err(e) => c.fail("bulk tracker events refused", json!({"error": trunc(&format!("{e:?}"), 300)})),
        Ok(got) => {
            let want: Vec<Value> = evs
                .iter()
                .map(|e| json!({"delta": e.delta, "event": typed::tracker_event(&e.ev).unwrap()}))
                .collect();
            let got: Vec<Value> = got.iter().map(to_json).collect();
            c.count("bulk_events_compared", got.len() as u64);
            compare_stream(c, "bulk tracker events", &want, &got, || json!({"build": build}));
        }
    }
}

/// Re-encoding the sample replays' events and decoding again gives the same.
fn samples() -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = vec![];
    for d in ["assets", "tests"] {
        if let Ok(rd) = std::fs::read_dir(repo_dir().join(d)) {
            for e in rd.flatten() {
                if e.path().extension().is_some_and(|x| x == "SC2Replay") {
                    v.push(e.path());
                }
            }
        }
    }
    v.sort();
    v
}
pub fn sample_replays() -> Vec<PathBuf> {
    samples()
}

fn d03_samples(c: &mut Case, r: &mut Rng) {
    let s = samples();
    if s.is_empty() {
        return;
    }
    let p = &s[r.below(s.len())];
    let (mpq, data) = match read_mpq(p.to_str().unwrap()) {
        Ok(x) => x,
        Err(e) => {
            c.fail("sample replay refused", json!({"file": p, "error": format!("{e:?}")}));
            return;
        }
    };
    let version = match read_protocol_header(&mpq) {
        Ok((_, h)) => h.m_version.m_base_build,
        Err(e) => {
            c.fail("sample replay header refused", json!({"file": p, "error": trunc(&format!("{e:?}"), 300)}));
            return;
        }
    };
    let bulk = match read_tracker_events("x", &mpq, &data) {
        Ok(x) => x,
        Err(e) => {
            c.fail("sample tracker events refused", json!({"file": p, "error": trunc(&format!("{e:?}"), 300)}));
            return;
        }
    };
    let (_, sector) = mpq.read_mpq_file_sector("replay.tracker.events", false, &data).expect("harness: sector");
    let it = iter_tracker(&sector, version);
    c.count("sample_events", it.len() as u64);
    c.seen(fnv(p.to_str().unwrap().as_bytes()));
    // both ways of reading agree, all bytes are used
    let mut l = 0i64;
    c.check(it.len() == bulk.len(), "sample: bulk and iterated tracker events differ in number", || json!({"file": p, "bulk": bulk.len(), "iter": it.len()}));
    for (b, (il, ie)) in bulk.iter().zip(&it) {
        l += b.delta as i64;
        if l != *il || b.event != *ie {
            c.fail("sample: bulk and iterated tracker events differ", json!({"file": p, "loop": [l, *il]}));
            return;
        }
    }
}

pub fn d03(run: &mut Run) {
    run.need("stats_named", 1_000);
    run.rule("distinct encoded tracker streams (random kinds, values, field orders, optional parts) decoded through parse_event_pair, the iterator state and the bulk reader, compared field by field");
    run.assume("the wire schema in harness/schema.json is that of the protocol generations 75689 and 87702");
    run.need("events_compared", 20_000);
    run.need("bulk_events_compared", 1000);
    for k in byta().variants("ReplayTrackerEEventId") {
        run.need(&format!("kind.{}", k.1), 100);
    }
    run.part("streams", 50_000, 8.0, d03_case);
    run.part("bulk", 2_500, 4.0, |c, r| {
        let n = r.below(21);
        d03_bulk(c, r, n)
    });
    run.need("long_streams", 1);
    run.part("long", 2, 6.0, |c, r| {
        let n = 65_600 + r.below(3_000);
        d03_bulk(c, r, n)
    });
    run.part_threads("samples", 4, 3.0, 4, d03_samples);
}

// ------------------------------------------------------------------ D04

pub fn gen_game_event(g: Gen, r: &mut Rng, o: &GenOpts) -> V {
    let k = if r.chance(1, 2) {
        r.pick(typed::GAME_KINDS).to_string()
    } else {
        let kinds = bitp(g).variants("GameEEventId");
        kinds[r.below(kinds.len())].1.clone()
    };
    bitp(g).gen_variant("GameEEventId", &k, r, o)
}

fn no_empty_bits(_: &V) -> bool {
    true
}

fn d04_case(c: &mut Case, r: &mut Rng) {
    let g = if r.bool() { Gen::P87702 } else { Gen::P75689 };
    let o = GenOpts { utf8: !r.chance(1, 6), ..Default::default() };
    let n = 1 + r.below(10);
    let evs: Vec<GEv> =
        (0..n).map(|_| GEv { delta: gen_delta(r), user: r.below(32) as u8, ev: gen_game_event(g, r, &o) }).collect();
    let (bytes, ends) = enc_game(g, &evs, r);
    c.seen(fnv(&bytes));
    c.count("events_encoded", n as u64);
    for e in &evs {
        debug_assert!(no_empty_bits(&e.ev));
        let surfaced = typed::GAME_KINDS.contains(&e.ev.variant());
        if surfaced {
            c.count(&format!("{g:?}.{}", e.ev.variant()), 1);
        } else {
            c.count("kinds_stepped_over", 1);
        }
    }
    c.sample(|| json!({"gen": format!("{g:?}"), "events": evs.iter().map(|e| e.ev.variant().to_string()).collect::<Vec<_>>()}));
    let mut start = 0;
    for (e, end) in evs.iter().zip(&ends) {
        let want = bitp(g).dbg("GameEEventId", &e.ev);
        macro_rules! one {
            ($t:ty) => {
                match <$t>::parse_event_triplet((&bytes[start..], 0)) {
                    Ok((tail, (delta, user, ev))) => {
                        let got = format!("{ev:?}");
                        let gp = pos_of(&bytes, tail);
                        if got != want || delta != e.delta as i64 || user != e.user as i64 || gp != *end * 8 {
                            c.fail("wire event differs", json!({"gen": format!("{g:?}"), "want": trunc(&want, 700), "got": trunc(&got, 700),
                                "delta": [e.delta as i64, delta], "user": [e.user as i64, user], "end": [*end * 8, gp]}));
                            return;
                        }
                    }
                    Err(err) => {
                        c.fail("wire event refused", json!({"gen": format!("{g:?}"), "want": trunc(&want, 700), "error": trunc(&format!("{err:?}"), 300)}));
                        return;
                    }
                }
            };
        }
        match g {
            Gen::P75689 => one!(p75::bit_packed::GameEEventId),
            Gen::P87702 => one!(p87::bit_packed::GameEEventId),
        }
        start = *end;
    }
    let want: Vec<Value> = typed::game_stream(g, &evs)
        .into_iter()
        .map(|(l, u, v)| json!({"loop": l, "user": u, "event": v}))
        .collect();
    let v = match g {
        Gen::P75689 => *r.pick(OLD_BUILDS),
        Gen::P87702 => *r.pick(NEW_BUILDS),
    };
    let got: Vec<Value> =
        iter_game(&bytes, v).iter().map(|(l, u, e)| json!({"loop": l, "user": u, "event": to_json(e)})).collect();
    c.count("events_compared", got.len() as u64);
    compare_stream(c, "iterated game events", &want, &got, || json!({"version": v, "kinds": evs.iter().map(|e| e.ev.variant()).collect::<Vec<_>>()}));
}

fn d04_bulk(c: &mut Case, r: &mut Rng, n: usize) {
    let build = pick_build(r);
    let g = gen_of(build);
    let o = GenOpts::default();
    let evs: Vec<GEv> =
        (0..n).map(|_| GEv { delta: gen_delta(r), user: r.below(32) as u8, ev: gen_game_event(g, r, &o) }).collect();
    let (mut rep, _) = gen_world(r, build, 2);
    rep.game = enc_game(g, &evs, r).0;
    if n > 1_000 {
        // the iterators over a long stream
        c.count("long_streams", 1);
        let got: Vec<Value> = iter_game(&rep.game, build)
            .iter()
            .map(|(l, u, e)| json!({"loop": l, "user": u, "event": to_json(e)}))
            .collect();
        let want: Vec<Value> =
            typed::game_stream(g, &evs).into_iter().map(|(l, u, v)| json!({"loop": l, "user": u, "event": v})).collect();
        if !compare_stream(c, "long stream of game events", &want, &got, || json!({"build": build, "events": n})) {
            return;
        }
    }
    let file = rep.bytes(r);
    c.seen(fnv(&file));
    let (_, mpq) = match parser::parse(&file) {
        Ok(x) => x,
        Err(e) => panic!("harness: archive not readable: {e:?}"),
    };
    match read_game_events("x", &mpq, &file) {
        Err(e) => c.fail("bulk game events refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
        Ok(got) => {
            let want: Vec<Value> = evs
                .iter()
                .filter_map(|e| typed::game_event(g, &e.ev).map(|v| json!({"delta": e.delta, "user_id": e.user, "event": v})))
                .collect();
            let got: Vec<Value> = got.iter().map(to_json).collect();
            c.count("bulk_events_compared", got.len() as u64);
            compare_stream(c, "bulk game events", &want, &got, || json!({"build": build}));
        }
    }
}

fn d04_samples(c: &mut Case, r: &mut Rng) {
    let s = samples();
    if s.is_empty() {
        return;
    }
    let p = &s[r.below(s.len())];
    let Ok((mpq, data)) = read_mpq(p.to_str().unwrap()) else {
        c.fail("sample replay refused", json!({"file": p}));
        return;
    };
    let Ok((_, h)) = read_protocol_header(&mpq) else {
        c.fail("sample replay header refused", json!({"file": p}));
        return;
    };
    let bulk = match read_game_events("x", &mpq, &data) {
        Ok(x) => x,
        Err(e) => {
            c.fail("sample game events refused", json!({"file": p, "error": trunc(&format!("{e:?}"), 300)}));
            return;
        }
    };
    let (_, sector) = mpq.read_mpq_file_sector("replay.game.events", false, &data).expect("harness: sector");
    let it = iter_game(&sector, h.m_version.m_base_build);
    c.count("sample_events", it.len() as u64);
    c.seen(fnv(p.to_str().unwrap().as_bytes()));
    let same = it.len() == bulk.len() && it.iter().zip(&bulk).all(|((_, u, e), b)| *u == b.user_id && *e == b.event);
    c.check(same, "sample: bulk and iterated game events differ", || json!({"file": p, "bulk": bulk.len(), "iter": it.len()}));
}

pub fn d04(run: &mut Run) {
    run.rule("distinct encoded game event streams of both protocol generations (all kinds, random values, optional and nested parts), decoded through parse_event_triplet, the iterator state and the bulk reader, compared field by field");
    run.assume("the wire schema in harness/schema.json is that of the protocol generations 75689 and 87702");
    run.assume("empty bit-packed texts are compared modulo the finding recorded for D01");
    run.need("events_compared", 20_000);
    run.need("bulk_events_compared", 1000);
    run.need("kinds_stepped_over", 5000);
    for k in typed::GAME_KINDS {
        run.need(&format!("P87702.{k}"), 50);
        run.need(&format!("P75689.{k}"), 50);
    }
    run.part("streams", 80_000, 9.0, d04_case);
    run.part("bulk", 2_500, 4.0, |c, r| {
        let n = r.below(21);
        d04_bulk(c, r, n)
    });
    run.part("long", 2, 6.0, |c, r| {
        let n = 65_600 + r.below(3_000);
        d04_bulk(c, r, n)
    });
    run.need("long_streams", 1);
    run.part_threads("samples", 4, 3.0, 4, d04_samples);
}

// ------------------------------------------------------------------ D05

fn d05_case(c: &mut Case, r: &mut Rng, n: usize) {
    let build = pick_build(r);
    let g = gen_of(build);
    let np = r.below(9);
    let (mut rep, _) = gen_world(r, build, np);
    if n > 1_000 {
        c.count("long_streams", 1);
    }
    let o = GenOpts { utf8: !r.chance(1, 8), ..Default::default() };
    let msgs: Vec<GEv> = (0..n)
        .map(|_| {
            let k = if r.chance(2, 3) { "EChat".to_string() } else { bitp(g).variants("GameEMessageId")[r.below(5)].1.clone() };
            GEv { delta: gen_delta(r), user: r.below(32) as u8, ev: bitp(g).gen_variant("GameEMessageId", &k, r, &o) }
        })
        .collect();
    let (mb, ends) = enc_msgs(g, &msgs, r);
    // chat messages on the wire
    let mut start = 0;
    for (e, end) in msgs.iter().zip(&ends) {
        let want = bitp(g).dbg("GameEMessageId", &e.ev);
        macro_rules! one {
            ($t:ty) => {
                match <$t>::parse_event_triplet((&mb[start..], 0)) {
                    Ok((tail, (delta, user, ev))) => {
                        let got = format!("{ev:?}");
                        if got != want || delta != e.delta as i64 || user != e.user as i64 || pos_of(&mb, tail) != *end * 8 {
                            c.fail("wire message differs", json!({"want": trunc(&want, 500), "got": trunc(&got, 500), "delta": [e.delta as i64, delta], "user": [e.user as i64, user]}));
                            return;
                        }
                    }
                    Err(err) => {
                        c.fail("wire message refused", json!({"want": trunc(&want, 500), "error": trunc(&format!("{err:?}"), 300)}));
                        return;
                    }
                }
            };
        }
        match g {
            Gen::P75689 => one!(p75::bit_packed::GameEMessageId),
            Gen::P87702 => one!(p87::bit_packed::GameEMessageId),
        }
        start = *end;
    }
    rep.msgs = mb;
    let file = rep.bytes(r);
    c.seen(fnv(&file));
    c.count(if g == Gen::P75689 { "replays_old" } else { "replays_new" }, 1);
    c.sample(|| json!({"build": build, "bytes": file.len(), "messages": n}));
    let (_, mpq) = match parser::parse(&file) {
        Ok(x) => x,
        Err(e) => panic!("harness: archive not readable: {e:?}"),
    };
    // header
    match read_protocol_header(&mpq) {
        Ok((_, h)) => {
            let want = byta().dbg("ReplaySHeader", &rep.header);
            let got = format!("{h:?}");
            c.count("headers", 1);
            c.check(want == got, "header differs", || json!({"want": want, "got": got}));
        }
        Err(e) => c.fail("header refused", json!({"want": byta().dbg("ReplaySHeader", &rep.header), "error": trunc(&format!("{e:?}"), 300)})),
    }
    // details
    match read_details("x", &mpq, &file) {
        Ok(d) => {
            c.count("details", 1);
            if let Some(diff) = subset(&typed::details(&rep.details), &to_json(&d), "details") {
                c.fail("details differ", json!({"diff": diff}));
            }
        }
        Err(e) => c.fail("details refused", json!({"error": trunc(&format!("{e:?}"), 300)})),
    }
    // lobby
    match read_init_data("x", &mpq, &file) {
        Ok(d) => {
            c.count("lobbies", 1);
            c.check(d.version == build, "lobby data carries another version", || json!({"want": build, "got": d.version}));
            if let Some(diff) = subset(&typed::init_data(g, &rep.init), &to_json(&d), "init_data") {
                c.fail("lobby data differ", json!({"build": build, "diff": diff}));
            }
        }
        Err(e) => c.fail("lobby data refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
    }
    // messages
    match read_message_events("x", &mpq, &file) {
        Ok(m) => {
            let want: Vec<Value> = msgs
                .iter()
                .filter_map(|e| typed::message(g, &e.ev).map(|v| json!({"delta": e.delta, "user_id": e.user, "event": v})))
                .collect();
            let got: Vec<Value> = m.iter().map(to_json).collect();
            c.count("messages", got.len() as u64);
            compare_stream(c, "messages", &want, &got, || json!({"build": build}));
        }
        Err(e) => c.fail("messages refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
    }
}

/// The wire structures on their own, with every byte order of fields, and what follows them.
fn d05_wire(c: &mut Case, r: &mut Rng) {
    let o = GenOpts { utf8: false, ..Default::default() };
    macro_rules! ver {
        ($name:expr, $t:ident) => {{
            let v = byta().gen_named($name, r, &o);
            let mut enc = vec![];
            byta().enc_ver($name, &v, &mut Some(Rng::new(r.next())), &mut enc);
            let used = enc.len();
            enc.extend_from_slice(&[9, 2, 4]);
            let want = byta().dbg($name, &v);
            c.seen(fnv(&enc));
            c.count(concat!("wire.", $name), 1);
            match p87::byte_aligned::$t::parse(&enc) {
                Ok((tail, g)) => {
                    let got = format!("{g:?}");
                    c.check(got == want && enc.len() - tail.len() == used, concat!($name, " differs"), || json!({"want": trunc(&want, 900), "got": trunc(&got, 900)}));
                }
                Err(e) => c.fail(concat!($name, " refused"), json!({"want": trunc(&want, 900), "error": trunc(&format!("{e:?}"), 300)})),
            }
            match p75::byte_aligned::$t::parse(&enc) {
                Ok((tail, g)) => {
                    let got = format!("{g:?}");
                    c.check(got == want && enc.len() - tail.len() == used, concat!($name, " differs (75689)"), || json!({"want": trunc(&want, 900), "got": trunc(&got, 900)}));
                }
                Err(e) => c.fail(concat!($name, " refused (75689)"), json!({"want": trunc(&want, 900), "error": trunc(&format!("{e:?}"), 300)})),
            }
        }};
    }
    ver!("GameSDetails", GameSDetails);
    ver!("ReplaySHeader", ReplaySHeader);
    // lobby data of the newer layout, as wire structure
    let v = bitp(Gen::P87702).gen_named("ReplaySInitData", r, &GenOpts { max_list: 2, utf8: false, ..Default::default() });
    let mut w = BitW::new();
    bitp(Gen::P87702).enc_bits("ReplaySInitData", &v, &mut w);
    let total = w.bit_len();
    let mut buf = w.buf;
    buf.extend_from_slice(&[0xa5, 0x5a]);
    c.seen(mix(fnv(&buf)));
    match p87::bit_packed::ReplaySInitData::parse((&buf, 0)) {
        Ok((t, g)) => {
            let want = bitp(Gen::P87702).dbg("ReplaySInitData", &v);
            let got = format!("{g:?}");
            c.count("wire.ReplaySInitData", 1);
            let k = want.bytes().zip(got.bytes()).take_while(|(a, b)| a == b).count().saturating_sub(80);
            c.check(want == got && pos_of(&buf, t) == total, "ReplaySInitData differs", || {
                json!({"want_from": trunc(&String::from_utf8_lossy(&want.as_bytes()[k.min(want.len())..]), 300), "got_from": trunc(&String::from_utf8_lossy(&got.as_bytes()[k.min(got.len())..]), 300)})
            });
        }
        Err(e) => c.fail("ReplaySInitData refused", json!({"error": trunc(&format!("{e:?}"), 300)})),
    }
}

pub fn d05(run: &mut Run) {
    run.rule("distinct synthetic archives of both generations; header, details, lobby data and messages read from the archive compared field by field with what was encoded, and the wire structures on their own");
    run.assume("the wire schema in harness/schema.json is that of the protocol generations 75689 and 87702");
    run.assume("empty bit-packed texts are compared modulo the finding recorded for D01");
    run.need("replays_old", 100);
    run.need("replays_new", 300);
    run.need("details", 400);
    run.need("messages", 1500);
    run.part("archives", 8_000, 9.0, |c, r| {
        // some replays have no messages at all
        let n = r.below(13);
        if n == 0 {
            c.count("silent_replays", 1);
        }
        d05_case(c, r, n)
    });
    run.part("long", 2, 5.0, |c, r| {
        let n = 65_600 + r.below(3_000);
        d05_case(c, r, n)
    });
    run.need("long_streams", 1);
    run.need("silent_replays", 20);
    run.part("wire", 5_000, 5.0, d05_wire);
}

// ------------------------------------------------------------------ D08

/// The same archive content read under versions around the change of layout.
fn d08_case(c: &mut Case, r: &mut Rng) {
    let build = match r.below(8) {
        0 => 75689,
        1 => 75690,
        2 => 75688,
        3 => *r.pick(OLD_BUILDS),
        4 => *r.pick(NEW_BUILDS),
        5 => r.below(75690) as u32,
        6 => 75690 + r.below(30_000) as u32,
        _ => r.next() as u32,
    };
    let g = gen_of(build);
    let n = 2 + r.below(3);
    let (mut rep, _) = gen_world(r, build, n);
    // the other numbers of the header do not matter
    let other = *r.pick(&[0u32, 75689, 75690, 96883, u32::MAX]);
    rep.header.set("m_version.m_build", V::Int(other as i128));
    rep.header.set("m_data_build_num", V::Int(*r.pick(&[0i128, 75689, 96883])));
    let o = GenOpts::default();
    // events that differ between the layouts, several in a row so that a wrong layout shows
    let mut evs = vec![];
    for _ in 0..3 + r.below(6) {
        let k = *r.pick(&["ECmd", "ECmd", "ESetLobbySlot", "ESelectionDelta", "ECameraUpdate"]);
        evs.push(GEv { delta: r.below(5) as u32, user: r.below(16) as u8, ev: bitp(g).gen_variant("GameEEventId", k, r, &o) });
    }
    rep.game = enc_game(g, &evs, r).0;
    let tevs: Vec<TEv> = (0..3).map(|_| TEv { delta: r.below(5) as u32, ev: gen_tracker_event(r, &o) }).collect();
    rep.tracker = enc_tracker(&tevs, r).0;
    let msgs: Vec<GEv> = (0..3)
        .map(|_| GEv { delta: r.below(5) as u32, user: r.below(16) as u8, ev: bitp(g).gen_variant("GameEMessageId", "EChat", r, &o) })
        .collect();
    rep.msgs = enc_msgs(g, &msgs, r).0;
    let file = rep.bytes(r);
    c.seen(fnv(&file));
    c.count(if build <= 75689 { "old_layout" } else { "new_layout" }, 1);
    c.sample(|| json!({"build": build}));
    let (_, mpq) = match parser::parse(&file) {
        Ok(x) => x,
        Err(e) => panic!("harness: archive not readable: {e:?}"),
    };
    let ctx = || json!({"build": build});
    match read_game_events("x", &mpq, &file) {
        Ok(got) => {
            let want: Vec<Value> = evs
                .iter()
                .filter_map(|e| typed::game_event(g, &e.ev).map(|v| json!({"delta": e.delta, "user_id": e.user, "event": v})))
                .collect();
            compare_stream(c, "bulk game events", &want, &got.iter().map(to_json).collect::<Vec<_>>(), ctx);
        }
        Err(e) => c.fail("bulk game events refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
    }
    match read_tracker_events("x", &mpq, &file) {
        Ok(got) => {
            let want: Vec<Value> =
                tevs.iter().map(|e| json!({"delta": e.delta, "event": typed::tracker_event(&e.ev).unwrap()})).collect();
            compare_stream(c, "bulk tracker events", &want, &got.iter().map(to_json).collect::<Vec<_>>(), ctx);
        }
        Err(e) => c.fail("bulk tracker events refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
    }
    match read_message_events("x", &mpq, &file) {
        Ok(got) => {
            let want: Vec<Value> = msgs
                .iter()
                .filter_map(|e| typed::message(g, &e.ev).map(|v| json!({"delta": e.delta, "user_id": e.user, "event": v})))
                .collect();
            compare_stream(c, "messages", &want, &got.iter().map(to_json).collect::<Vec<_>>(), ctx);
        }
        Err(e) => c.fail("messages refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
    }
    match read_details("x", &mpq, &file) {
        Ok(d) => {
            if let Some(diff) = subset(&typed::details(&rep.details), &to_json(&d), "details") {
                c.fail("details differ", json!({"build": build, "diff": diff}));
            }
        }
        Err(e) => c.fail("details refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
    }
    match read_init_data("x", &mpq, &file) {
        Ok(d) => {
            c.check(d.version == build, "version of the lobby data", || json!({"want": build, "got": d.version}));
            if let Some(diff) = subset(&typed::init_data(g, &rep.init), &to_json(&d), "init_data") {
                c.fail("lobby data differ", json!({"build": build, "diff": diff}));
            }
        }
        Err(e) => c.fail("lobby data refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
    }
    // iterators: state machines and the merged one over the file
    let got: Vec<Value> = iter_game(&rep.game, build).iter().map(|(l, u, e)| json!({"loop": l, "user": u, "event": to_json(e)})).collect();
    let want: Vec<Value> =
        typed::game_stream(g, &evs).into_iter().map(|(l, u, v)| json!({"loop": l, "user": u, "event": v})).collect();
    compare_stream(c, "iterated game events", &want, &got, ctx);
    let got: Vec<Value> = iter_tracker(&rep.tracker, build).iter().map(|(l, e)| with_loop(*l, to_json(e))).collect();
    let want_t: Vec<Value> = typed::tracker_stream(&tevs).into_iter().map(|(l, v)| with_loop(l, v)).collect();
    compare_stream(c, "iterated tracker events", &want_t, &got, ctx);
    let dir = TmpDir::new();
    let path = dir.0.join("a.SC2Replay");
    std::fs::write(&path, &file).expect("harness: write");
    let init: InitData = match (path.clone(), 7u64).try_into() {
        Ok(i) => i,
        Err(e) => {
            let e: S2ProtocolError = e;
            c.fail("lobby data of the file refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)}));
            return;
        }
    };
    c.check(init.version == build, "version reported for the file", || json!({"want": build, "got": init.version}));
    match SC2EventIterator::new(&init, HashMap::new()) {
        Ok(it) => {
            let mut game = vec![];
            for item in it {
                if let SC2EventType::Game { game_loop, user_id, event, .. } = &item.event_type {
                    game.push(json!({"loop": game_loop, "user": user_id, "event": to_json(event)}));
                }
            }
            c.count("merged_iterations", 1);
            compare_stream(c, "game events of the replay iterator", &want, &game, ctx);
        }
        Err(e) => c.fail("replay iterator refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
    }
    match details::Details::try_from(&init) {
        Ok(_) => {}
        Err(e) => c.fail("details of the file refused", json!({"build": build, "error": trunc(&format!("{e:?}"), 300)})),
    }
}

pub fn d08(run: &mut Run) {
    run.rule("distinct archives with base builds on both sides of 75689, with content encoded in the layout of that build, read through every entry point");
    run.assume("the game command and lobby slot layouts are what distinguishes the generations on the wire");
    run.need("old_layout", 150);
    run.need("new_layout", 150);
    run.need("merged_iterations", 300);
    run.part("versions", 6_000, 10.0, d08_case);
}

// ------------------------------------------------------------------ D09

/// Is this the refusal the mismatch calls for?
fn answers(e: &S2ProtocolError, want: &Refusal) -> bool {
    match want {
        Refusal::Missing(n) => matches!(e, S2ProtocolError::MissingField(m) if m == n),
        Refusal::Duplicate(n, t) => matches!(e, S2ProtocolError::DuplicateTag(m, u) if m == n && u == t),
        Refusal::Unknown(t) => matches!(e, S2ProtocolError::UnknownTag(u) if u == t),
        Refusal::Any => true,
    }
}

fn refused<X>(c: &mut Case, what: &str, fault: &str, want: &Refusal, got: Result<X, S2ProtocolError>, data: impl Fn() -> Value) -> bool {
    c.count(&format!("refusals.{fault}"), 1);
    c.count(&format!("in.{what}"), 1);
    match got {
        Ok(_) => {
            c.fail(format!("{what} with {fault} is accepted"), json!({"expected": format!("{want:?}"), "fault": fault, "data": data()}));
            false
        }
        Err(e) if answers(&e, want) => {
            c.seen(fnv(format!("{what}{fault}{want:?}").as_bytes()));
            true
        }
        Err(e) => {
            c.fail(format!("{what} with {fault}: the error names something else"), json!({"expected": format!("{want:?}"), "error": trunc(&format!("{e:?}"), 300), "data": data()}));
            false
        }
    }
}

fn d09_wire(c: &mut Case, r: &mut Rng) {
    let o = GenOpts { utf8: false, max_list: 2, max_blob: 10, opt_pct: 70 };
    macro_rules! ver {
        ($name:expr, $t:ident) => {{
            let v = if $name == "ReplayTrackerEEventId" { gen_tracker_event(r, &o) } else { byta().gen_named($name, r, &o) };
            let enc = |r: &mut Rng| {
                let mut out = vec![];
                byta().enc_ver($name, &v, &mut Some(r.clone()), &mut out);
                out
            };
            if let Some((mut bad, fault, want)) = spoilt(r, enc) {
                if r.bool() {
                    bad.extend_from_slice(&r.bytes(9));
                }
                refused(c, $name, fault, &want, p87::byte_aligned::$t::parse(&bad), || json!(bad));
                refused(c, $name, fault, &want, p75::byte_aligned::$t::parse(&bad), || json!(bad));
            }
            let whole = enc(r);
            let cut = &whole[..r.below(whole.len())];
            refused(c, $name, "its end cut off", &Refusal::Any, p87::byte_aligned::$t::parse(cut), || json!(cut));
            refused(c, $name, "its end cut off", &Refusal::Any, p75::byte_aligned::$t::parse(cut), || json!(cut));
        }};
    }
    ver!("GameSDetails", GameSDetails);
    ver!("ReplaySHeader", ReplaySHeader);
    for _ in 0..6 {
        ver!("ReplayTrackerEEventId", ReplayTrackerEEventId);
    }
    ver!("SVarUint32", SVarUint32);
    macro_rules! packed {
        ($g:expr, $name:expr, $t:ty, $v:expr) => {{
            let v = $v;
            let enc = |_: &mut Rng| {
                let mut w = BitW::new();
                bitp($g).enc_bits($name, &v, &mut w);
                w
            };
            if let Some((w, fault, want)) = spoilt(r, enc) {
                let mut bad = w.buf;
                bad.extend_from_slice(&r.bytes(9));
                refused(c, $name, fault, &want, <$t>::parse((&bad, 0)), || json!(bad));
            }
            let w = enc(r);
            if w.bit_len() > 0 {
                let whole = w.buf.clone();
                let cut = &whole[..r.below(w.bit_len().div_ceil(8))];
                refused(c, $name, "its end cut off", &Refusal::Any, <$t>::parse((cut, 0)), || json!(cut));
            }
        }};
    }
    let small = GenOpts { max_list: 2, max_blob: 10, ..o.clone() };
    packed!(Gen::P87702, "ReplaySInitData", p87::bit_packed::ReplaySInitData, bitp(Gen::P87702).gen_named("ReplaySInitData", r, &small));
    packed!(Gen::P75689, "ReplaySInitData", p75::bit_packed::ReplaySInitData, bitp(Gen::P75689).gen_named("ReplaySInitData", r, &small));
    for _ in 0..8 {
        packed!(Gen::P87702, "GameEEventId", p87::bit_packed::GameEEventId, gen_game_event(Gen::P87702, r, &o));
        packed!(Gen::P75689, "GameEEventId", p75::bit_packed::GameEEventId, gen_game_event(Gen::P75689, r, &o));
        packed!(Gen::P87702, "GameEMessageId", p87::bit_packed::GameEMessageId, bitp(Gen::P87702).gen_named("GameEMessageId", r, &o));
        packed!(Gen::P75689, "GameEMessageId", p75::bit_packed::GameEMessageId, bitp(Gen::P75689).gen_named("GameEMessageId", r, &o));
    }
}

/// The same through the archive readers.
fn d09_archives(c: &mut Case, r: &mut Rng) {
    let build = pick_build(r);
    let g = gen_of(build);
    let np = 1 + r.below(4);
    let (mut rep, _) = gen_world(r, build, np);
    let which = r.below(3);
    let mut header = rep.header_bytes(r);
    let (fault, want) = match which {
        0 => {
            let Some((b, f, w)) = spoilt(r, |r| {
                let mut out = vec![];
                byta().enc_ver("GameSDetails", &rep.details, &mut Some(r.clone()), &mut out);
                out
            }) else {
                return;
            };
            rep.raw = vec![("replay.details", b)];
            (f, w)
        }
        1 => {
            let Some((w, f, want)) = spoilt(r, |_| {
                let mut w = BitW::new();
                bitp(g).enc_bits("ReplaySInitData", &rep.init, &mut w);
                w
            }) else {
                return;
            };
            rep.raw = vec![("replay.initData", w.buf)];
            (f, want)
        }
        _ => {
            let Some((b, f, w)) = spoilt(r, |r| rep.header_bytes(r)) else { return };
            header = b;
            (f, w)
        }
    };
    let file = rep.bytes_with_header(&header, r);
    let (_, mpq) = match parser::parse(&file) {
        Ok(x) => x,
        Err(e) => panic!("harness: archive not readable: {e:?}"),
    };
    c.sample(|| json!({"section": (["details", "init data", "header"][which]), "fault": fault, "expected": format!("{want:?}")}));
    let data = || json!({"build": build, "file": file});
    match which {
        0 => {
            refused(c, "read_details", fault, &want, read_details("x", &mpq, &file), data);
            // The rest of the replay is as it was.
            c.check(read_init_data("x", &mpq, &file).is_ok(), "lobby data refused for what is in the details", data);
        }
        1 => {
            refused(c, "read_init_data", fault, &want, read_init_data("x", &mpq, &file), data);
            c.check(read_details("x", &mpq, &file).is_ok(), "details refused for what is in the lobby data", data);
        }
        _ => {
            refused(c, "read_protocol_header", fault, &want, read_protocol_header(&mpq), data);
            refused(c, "read_details of a bad header", fault, &want, read_details("x", &mpq, &file), data);
            refused(c, "read_init_data of a bad header", fault, &want, read_init_data("x", &mpq, &file), data);
            refused(c, "read_tracker_events of a bad header", fault, &want, read_tracker_events("x", &mpq, &file), data);
            refused(c, "read_game_events of a bad header", fault, &want, read_game_events("x", &mpq, &file), data);
            refused(c, "read_message_events of a bad header", fault, &want, read_message_events("x", &mpq, &file), data);
        }
    }
}

pub fn d09(run: &mut Run) {
    run.rule("distinct combinations of structure, kind of mismatch and the answer it calls for: one node of a valid structure is spoilt (required field left out, field twice, undeclared field tag, undeclared variant, number outside its type, other type, negative count, end cut off) and the decoder's answer compared with it");
    run.assume("the wire schema in harness/schema.json is that of the protocol generations 75689 and 87702");
    run.assume("an optional field given as absent and then again is left open");
    run.need("refusals.required field absent", 300);
    run.need("refusals.field twice", 300);
    run.need("refusals.field of no declared tag", 300);
    run.need("refusals.value of no declared variant", 1000);
    run.need("refusals.number outside its type", 300);
    run.need("refusals.other type", 300);
    run.need("refusals.its end cut off", 1000);
    run.need("in.read_details", 50);
    run.need("in.read_init_data", 50);
    run.need("in.read_protocol_header", 50);
    run.part("wire", 12_000, 7.0, d09_wire);
    run.part("archives", 6_000, 5.0, d09_archives);
}
