//! D06, D07, R01: hostile bytes, cut streams, damaged files.
use crate::alloc;
pub use crate::hurt::*;
use crate::model::*;
use crate::props::decode::*;
use crate::props::state::open;
use crate::report::{Case, Run, watch};
use crate::rng::{Rng, fnv};
use crate::scen::*;
use crate::schema::*;
use crate::synth::*;
use crate::typed;
use crate::wire::*;
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::game_events::GameEventIteratorState;
use s2protocol::tracker_events::TrackertEventIteratorState;
use s2protocol::versions::{protocol75689 as p75, protocol87702 as p87};
use s2protocol::*;
use serde_json::{Value, json};
use std::collections::HashMap;
use std::sync::atomic::Ordering;

// ------------------------------------------------------------------ D06

/// Memory a reader may use for `len` bytes of input.
const MEM_BASE: usize = 4 << 20;
const MEM_PER_BYTE: usize = 2048;

struct Meter {
    mark: isize,
    len: usize,
}
impl Meter {
    fn new(len: usize) -> Self {
        Meter { mark: alloc::mark(), len }
    }
    fn done(self, c: &mut Case, what: &str) {
        let peak = alloc::peak_since(self.mark);
        let allowed = MEM_BASE + self.len * MEM_PER_BYTE;
        let k = match peak {
            0..=65_536 => "peak.to_64k",
            65_537..=262_144 => "peak.to_256k",
            262_145..=1_048_576 => "peak.to_1M",
            _ => "peak.over_1M",
        };
        c.count(k, 1);
        if peak > allowed {
            c.fail(format!("{what}: memory out of proportion"), json!({"input_bytes": self.len, "peak_bytes": peak, "allowed": allowed}));
        }
    }
}

fn outcome<T, E>(c: &mut Case, what: &str, r: &Result<T, E>) {
    c.count(&format!("{what}.{}", if r.is_ok() { "value" } else { "error" }), 1);
}

/// Everything the tracing instrumentation would print is formatted too.
fn traced<T>(on: bool, f: impl FnOnce() -> T) -> T {
    use tracing_subscriber::util::SubscriberInitExt;
    if !on {
        return f();
    }
    let s = tracing_subscriber::fmt().with_max_level(tracing_subscriber::filter::LevelFilter::TRACE).with_writer(std::io::sink).finish();
    let _guard = s.set_default();
    f()
}

fn valid_tracker(r: &mut Rng, n: usize) -> Vec<u8> {
    let o = GenOpts { utf8: !r.chance(1, 4), max_list: 6, ..Default::default() };
    let evs: Vec<TEv> = (0..n).map(|_| TEv { delta: gen_delta(r), ev: gen_tracker_event(r, &o) }).collect();
    enc_tracker(&evs, r).0
}
fn valid_game(g: Gen, r: &mut Rng, n: usize) -> Vec<u8> {
    let o = GenOpts { utf8: !r.chance(1, 4), max_list: 4, ..Default::default() };
    let evs: Vec<GEv> = (0..n).map(|_| GEv { delta: gen_delta(r), user: r.below(32) as u8, ev: gen_game_event(g, r, &o) }).collect();
    enc_game(g, &evs, r).0
}
fn valid_msgs(g: Gen, r: &mut Rng, n: usize) -> Vec<u8> {
    let o = GenOpts { utf8: !r.chance(1, 4), ..Default::default() };
    let evs: Vec<GEv> = (0..n)
        .map(|_| GEv { delta: gen_delta(r), user: r.below(32) as u8, ev: bitp(g).gen_named("GameEMessageId", r, &o) })
        .collect();
    enc_msgs(g, &evs, r).0
}

fn d06_events(c: &mut Case, r: &mut Rng) {
    let trace = r.chance(1, 12);
    let g = if r.bool() { Gen::P75689 } else { Gen::P87702 };
    let n = 1 + r.below(8);
    let kind = r.below(3);
    let bytes = if r.chance(1, 4) {
        noise(r)
    } else {
        let b = match kind {
            0 => valid_tracker(r, n),
            1 => valid_game(g, r, n),
            _ => valid_msgs(g, r, n),
        };
        if r.chance(1, 30) { b } else { mutate(&b, r) }
    };
    c.seen(fnv(&bytes));
    c.count("inputs.events", 1);
    c.count("traced", trace as u64);
    c.sample(|| json!({"bytes": bytes.len(), "kind": kind}));
    let m = Meter::new(bytes.len());
    traced(trace, || match kind {
        0 => {
            for v in [*r.pick(OLD_BUILDS), *r.pick(NEW_BUILDS)] {
                let mut st = TrackertEventIteratorState::from(bytes.clone());
                let mut k = 0;
                while st.get_next_event(v).is_some() {
                    k += 1;
                    if k > bytes.len() {
                        c.fail("more tracker events than bytes", json!({"bytes": bytes, "version": v}));
                        return;
                    }
                }
                c.count("events_out", k as u64);
                // asking again after the end changes nothing
                if st.get_next_event(v).is_some() {
                    c.fail("tracker events go on after the end", json!({"bytes": bytes, "version": v}));
                }
            }
            let mut t = &bytes[..];
            while !t.is_empty() {
                let a = p87::byte_aligned::ReplayTrackerEEventId::parse_event_pair(t);
                let b = p75::byte_aligned::ReplayTrackerEEventId::parse_event_pair(t);
                outcome(c, "tracker_event", &a);
                outcome(c, "tracker_event_old", &b);
                match a {
                    Ok((rest, _)) if rest.len() < t.len() => t = rest,
                    Ok(_) => {
                        c.fail("a tracker event that consumes nothing", json!({"bytes": bytes}));
                        return;
                    }
                    Err(_) => break,
                }
            }
        }
        1 => {
            let (us, ab) = (HashMap::new(), HashMap::new());
            for v in [*r.pick(OLD_BUILDS), *r.pick(NEW_BUILDS)] {
                let mut st = GameEventIteratorState::from(bytes.clone());
                let mut k = 0;
                while st.get_next_event(v, &us, &ab).is_some() {
                    k += 1;
                    if k > bytes.len() {
                        c.fail("more game events than bytes", json!({"bytes": bytes, "version": v}));
                        return;
                    }
                }
                c.count("events_out", k as u64);
                if st.get_next_event(v, &us, &ab).is_some() {
                    c.fail("game events go on after the end", json!({"bytes": bytes, "version": v}));
                }
            }
            let mut t = (&bytes[..], 0usize);
            while !t.0.is_empty() {
                let a = p87::bit_packed::GameEEventId::parse_event_triplet(t);
                let b = p75::bit_packed::GameEEventId::parse_event_triplet(t);
                outcome(c, "game_event", &a);
                outcome(c, "game_event_old", &b);
                match a {
                    Ok((rest, _)) if rest.0.len() < t.0.len() => t = rest,
                    Ok(_) => {
                        c.fail("a game event that consumes nothing", json!({"bytes": bytes}));
                        return;
                    }
                    Err(_) => break,
                }
            }
        }
        _ => {
            let mut t = (&bytes[..], 0usize);
            while !t.0.is_empty() {
                let a = p87::bit_packed::GameEMessageId::parse_event_triplet(t);
                let b = p75::bit_packed::GameEMessageId::parse_event_triplet(t);
                outcome(c, "message", &a);
                outcome(c, "message_old", &b);
                match a {
                    Ok((rest, _)) if rest.0.len() < t.0.len() => t = rest,
                    Ok(_) => {
                        c.fail("a message that consumes nothing", json!({"bytes": bytes}));
                        return;
                    }
                    Err(_) => break,
                }
            }
        }
    });
    m.done(c, "events");
}

/// Archives with damaged sections through the readers.
fn d06_sections(c: &mut Case, r: &mut Rng) {
    let trace = r.chance(1, 10);
    let build = pick_build(r);
    let g = gen_of(build);
    let n = r.below(5);
    let (mut rep, _) = gen_world(r, build, n);
    let (a, b, d) = (1 + r.below(5), 1 + r.below(5), 1 + r.below(5));
    rep.tracker = valid_tracker(r, a);
    rep.game = valid_game(g, r, b);
    rep.msgs = valid_msgs(g, r, d);
    let mut header = rep.header_bytes(r);
    let sections = rep.sections(r);
    for (name, b) in sections {
        if r.chance(1, 2) {
            let x = if r.chance(1, 5) { noise(r) } else { mutate(&b, r) };
            rep.raw.push((name, x));
        }
    }
    if r.chance(1, 3) {
        header = if r.chance(1, 5) { noise(r) } else { mutate(&header, r) };
    }
    let file = rep.bytes_with_header(&header, r);
    c.seen(fnv(&file));
    c.count("inputs.sections", 1);
    c.count("traced", trace as u64);
    let Ok((_, mpq)) = parser::parse(&file) else { panic!("harness: archive not readable") };
    let m = Meter::new(file.len());
    traced(trace, || {
        outcome(c, "header", &read_protocol_header(&mpq));
        if let Some(u) = &mpq.user_data {
            outcome(c, "protocol_header", &s2protocol::protocol_version_decoder::ProtocolHeader::parse(&u.content));
        }
        outcome(c, "details", &read_details("x", &mpq, &file));
        outcome(c, "lobby", &read_init_data("x", &mpq, &file));
        outcome(c, "tracker", &read_tracker_events("x", &mpq, &file));
        outcome(c, "game", &read_game_events("x", &mpq, &file));
        outcome(c, "messages", &read_message_events("x", &mpq, &file));
    });
    m.done(c, "sections");
    // and as a file
    if r.chance(1, 3) {
        let dir = TmpDir::new();
        let path = dir.0.join("a.SC2Replay");
        std::fs::write(&path, &file).expect("harness: write");
        let init = InitData::try_from((path.clone(), 1u64));
        outcome(c, "file", &init);
        if let Ok(init) = init {
            let d = details::Details::try_from(&init);
            outcome(c, "file_details", &d);
            let rows = Vec::<details::PlayerLobbyDetails>::try_from(&init);
            outcome(c, "file_players", &rows);
            if let Ok(rows) = rows {
                for x in rows {
                    let _ = details::PlayerLobbyDetailsFlatRow::from(x);
                }
            }
            let _ = Vec::<UserInitDataFlatRow>::from(&init);
            if let Ok(it) = SC2EventIterator::new(&init, HashMap::new()) {
                let limit = rep.tracker.len() + rep.game.len() + 40_000;
                let k = it.take(limit).count();
                c.count("events_out", k as u64);
                if k >= limit {
                    c.fail("endless iteration", json!({"events": k}));
                }
            }
        }
    }
}

/// Well-formed events of arbitrary content and order through the replay iterator and the collectors.
fn d06_iterate(c: &mut Case, r: &mut Rng) {
    let build = pick_build(r);
    let g = gen_of(build);
    let mut sc = gen_scen_build(r, &Opts { steps: 12, ..Default::default() }, build);
    let o = GenOpts { utf8: !r.chance(1, 4), max_list: 8, ..Default::default() };
    // random events in between those that make sense
    for _ in 0..r.below(25) {
        let at = r.below(sc.tracker.len() + 1);
        sc.tracker.insert(at, TEv { delta: r.below(4) as u32, ev: gen_tracker_event(r, &o) });
    }
    for _ in 0..r.below(25) {
        let at = r.below(sc.game.len() + 1);
        sc.game.insert(at, GEv { delta: r.below(4) as u32, user: r.below(32) as u8, ev: gen_game_event(g, r, &o) });
    }
    // huge deltas add up
    if r.chance(1, 4) {
        for e in sc.tracker.iter_mut() {
            if r.chance(1, 6) {
                e.delta = gen_delta(r);
            }
        }
        for e in sc.game.iter_mut() {
            if r.chance(1, 6) {
                e.delta = gen_delta(r);
            }
        }
    }
    sc.finish(r);
    // positions lists of any length and value
    if r.chance(1, 4) {
        let mut raw = sc.rep.tracker.clone();
        if r.bool() {
            raw = mutate(&raw, r);
        }
        sc.rep.tracker = raw;
    }
    if r.chance(1, 4) {
        sc.rep.game = mutate(&sc.rep.game, r);
    }
    let dir = TmpDir::new();
    let Some((_, _, it)) = open(c, &sc, &dir, r) else { return };
    c.seen(sc.hash());
    c.count("inputs.iterated", 1);
    let len = sc.rep.tracker.len() + sc.rep.game.len();
    let what = r.below(8);
    let m = Meter::new(len * 4);
    let trace = r.chance(1, 25);
    c.count("traced", trace as u64);
    traced(trace, || {
        let k = match what {
            0 => it.collect_into_player_stats_flat_rows().len(),
            1 => it.collect_into_upgrades_flat_rows().len(),
            2 => it.collect_into_unit_born_flat_rows().len(),
            3 => it.collect_into_unit_died_flat_rows().len(),
            4 => it.collect_into_game_cmd_target_points_flat_rows().len(),
            5 => it.collect_into_game_cmd_target_units_flat_rows().len(),
            _ => {
                let mut it = it;
                let mut k = 0;
                while it.next().is_some() {
                    k += 1;
                    if k > len + 10 {
                        c.fail("endless iteration", json!({"events": k, "bytes": len}));
                        break;
                    }
                }
                k
            }
        };
        c.count("events_out", k as u64);
    });
    m.done(c, "iteration");
}

// ---- cached map files

fn d06_maps(c: &mut Case, r: &mut Rng) {
    let kind = r.below(3);
    let mut info = crate::props::cache::gen_info(r);
    let trace = r.chance(1, 40);
    c.count("inputs.maps", 1);
    c.count("traced", trace as u64);
    match kind {
        0 => {
            let mut b = info.bytes(r);
            b = if r.chance(1, 10) { noise(r) } else { mutate(&b, r) };
            if r.chance(1, 6) {
                // every number of the file may be anything
                info.w = bomb(r) as i32 as i64;
                info.h = bomb(r) as i32 as i64;
                info.left = bomb(r) as i32 as i64;
                info.right = bomb(r) as i32 as i64;
                info.bottom = bomb(r) as i32 as i64;
                info.top = bomb(r) as i32 as i64;
                b = info.bytes(r);
            }
            c.seen(fnv(&b));
            let m = Meter::new(b.len());
            let x = traced(trace, || MapInfo::parse(&b));
            outcome(c, "map_info", &x);
            if let Ok((_, i)) = x {
                let _ = (i.cell_dim_map(), i.terrain_dim_map(), i.cell_dim_playable(), i.terrain_dim_playable(), i.cell_left_bottom(), i.cell_right_top(), i.terrain_left_bottom(), i.terrain_right_top());
                // the dimensions decide how much of a height map is read
                let mut t = vec![];
                t.extend_from_slice(b"HMAP\x65\0\0\0");
                le32(&mut t, i.terrain_dim_map().x as i64);
                le32(&mut t, i.terrain_dim_map().y as i64);
                let k = r.below(60);
                t.extend(r.bytes(k));
                outcome(c, "height_map", &T3HeightMap::parse(&t, &i));
            }
            m.done(c, "map info");
        }
        1 => {
            info.w = 1 + r.below(12) as i64;
            info.h = 1 + r.below(12) as i64;
            info.fit(r);
            let b = info.bytes(r);
            let Ok((_, i)) = MapInfo::parse(&b) else { return };
            let hb = crate::props::cache::height_bytes(&info, r);
            let hb = if r.chance(1, 10) { noise(r) } else { mutate(&hb.0, r) };
            c.seen(fnv(&hb));
            let m = Meter::new(hb.len());
            let x = traced(trace, || T3HeightMap::parse(&hb, &i));
            outcome(c, "height_map", &x);
            m.done(c, "height map");
        }
        _ => {
            let h = crate::props::cache::gen_header_file(r);
            let b = h.bytes(r);
            let b = if r.chance(1, 10) { noise(r) } else { mutate(&b, r) };
            c.seen(fnv(&b));
            let m = Meter::new(b.len());
            let x = traced(trace, || DocumentHeader::parse(&b));
            outcome(c, "document_header", &x);
            m.done(c, "document header");
        }
    }
}

/// Every number of a well-formed encoding in turn replaced by one that hurts: the place that trusts
/// a declared length, count or choice is met wherever it is.
fn d06_bombs(c: &mut Case, r: &mut Rng) {
    const HURT: &[i128] = &[-1, 1 << 20, 1 << 31, 1 << 40, 1 << 62, i64::MAX as i128, i64::MIN as i128];
    let g = if r.bool() { Gen::P75689 } else { Gen::P87702 };
    let o = GenOpts { max_list: 4, ..Default::default() };
    let kind = r.below(4);
    c.count("inputs.bombed", 1);
    if kind < 3 {
        let (what, base) = match kind {
            0 => {
                let build = pick_build(r);
                let h = gen_header(r, build);
                let (mut order, mut out) = (None, vec![]);
                byta().enc_ver("ReplaySHeader", &h, &mut order, &mut out);
                ("header", out)
            }
            1 => {
                let d = byta().gen_named("GameSDetails", r, &o);
                let (mut order, mut out) = (None, vec![]);
                byta().enc_ver("GameSDetails", &d, &mut order, &mut out);
                ("details", out)
            }
            _ => ("tracker", valid_tracker(r, 1)),
        };
        c.seen(fnv(&base));
        let step = 1 + base.len() / 400;
        let mut i = r.below(step);
        while i < base.len() {
            let mut end = i;
            while end + 1 < base.len() && base[end] & 0x80 != 0 {
                end += 1;
            }
            let mut x = base[..i].to_vec();
            vlq(&mut x, *r.pick(HURT));
            x.extend_from_slice(&base[end + 1..]);
            let m = Meter::new(x.len());
            match what {
                "header" => outcome(c, "bombed_header", &s2protocol::protocol_version_decoder::ProtocolHeader::parse(&x)),
                "details" => outcome(c, "bombed_details", &p87::byte_aligned::GameSDetails::parse(&x)),
                _ => {
                    outcome(c, "bombed_tracker", &p87::byte_aligned::ReplayTrackerEEventId::parse_event_pair(&x));
                    outcome(c, "bombed_tracker_old", &p75::byte_aligned::ReplayTrackerEEventId::parse_event_pair(&x));
                }
            }
            m.done(c, &format!("bombed {what}"));
            c.count("bombs", 1);
            i += step;
        }
        return;
    }
    let mut w = BitW::new();
    let what = r.below(3);
    match what {
        0 => w.buf = valid_game(g, r, 1),
        1 => w.buf = valid_msgs(g, r, 1),
        _ => {
            let init = bitp(g).gen_named("ReplaySInitData", r, &GenOpts { max_list: 1, ..o });
            bitp(g).enc_bits("ReplaySInitData", &init, &mut w);
        }
    }
    let base = w.buf;
    c.seen(fnv(&base));
    let step = 1 + base.len() / 150;
    let mut i = r.below(step);
    while i < base.len() {
        // a run of ones (or zeros) from any bit on
        let mut x = base.clone();
        let bits = 1 + r.below(40);
        let from = i * 8 + r.below(8);
        let ones = r.chance(3, 4);
        for b in from..(from + bits).min(x.len() * 8) {
            if ones {
                x[b / 8] |= 1 << (b % 8);
            } else {
                x[b / 8] &= !(1 << (b % 8));
            }
        }
        let m = Meter::new(x.len());
        match (what, g) {
            (0, Gen::P87702) => outcome(c, "bombed_game", &p87::bit_packed::GameEEventId::parse_event_triplet((&x, 0))),
            (0, Gen::P75689) => outcome(c, "bombed_game", &p75::bit_packed::GameEEventId::parse_event_triplet((&x, 0))),
            (1, Gen::P87702) => outcome(c, "bombed_message", &p87::bit_packed::GameEMessageId::parse_event_triplet((&x, 0))),
            (1, Gen::P75689) => outcome(c, "bombed_message", &p75::bit_packed::GameEMessageId::parse_event_triplet((&x, 0))),
            (_, Gen::P87702) => outcome(c, "bombed_lobby", &p87::bit_packed::ReplaySInitData::parse((&x, 0))),
            (_, Gen::P75689) => outcome(c, "bombed_lobby", &p75::bit_packed::ReplaySInitData::parse((&x, 0))),
        }
        m.done(c, "bombed bits");
        c.count("bombs", 1);
        i += step;
    }
}

fn d06_primitives(c: &mut Case, r: &mut Rng) {
    let b = noise(r);
    c.seen(fnv(&b));
    c.count("inputs.primitives", 1);
    let m = Meter::new(b.len());
    for _ in 0..6 {
        let i = r.below(b.len() + 1);
        let t = &b[i..];
        let _ = parse_vlq_int(t);
        let _ = tagged_vlq_int(t);
        let _ = tagged_blob(t);
        let _ = tagged_bool(t);
        let _ = tagged_bitarray(t);
        let _ = tagged_fourcc(t);
        let _ = take_fourcc((t, 0));
        let _ = p87::byte_aligned::SVarUint32::parse(t);
        let _ = p87::byte_aligned::ReplaySHeader::parse(t);
        let _ = p87::byte_aligned::GameSDetails::parse(t);
        let bit = if t.is_empty() { 0 } else { r.below(8) };
        let n = r.below(130);
        let off = *r.pick(&[0i64, 1, -1, i64::MIN, i64::MAX, i32::MIN as i64]);
        let _ = take_n_bits_into_i64((t, bit), n);
        let _ = take_bit_array((t, bit), n * 8);
        let _ = parse_packed_int((t, bit), off, n);
        let _ = parse_bool((t, bit));
        let _ = rtake_n_bits((t, bit), n % 9);
        let _ = take_unaligned_byte((t, bit));
        let _ = byte_align((t, bit));
        let _ = peek_bits((t, bit));
        let _ = p87::bit_packed::ReplaySInitData::parse((t, bit));
        let _ = p75::bit_packed::GameSLobbySlot::parse((t, bit));
        let _ = p75::bit_packed::GameSCmdEvent::parse((t, bit));
        let _ = p87::bit_packed::GameSCmdEvent::parse((t, bit));
        let _ = p87::bit_packed::GameSSelectionDeltaEvent::parse((t, bit));
        c.count("primitive_calls", 22);
    }
    let (a, d) = (r.next() as i64, bomb(r) as i64);
    let _ = transform_to_naivetime(a, d);
    let _ = transform_to_naivetime(d, a);
    let _ = convert_tracker_loop_to_seconds(a);
    let _ = convert_game_loop_to_seconds(d);
    m.done(c, "primitives");
}

pub fn d06(run: &mut Run) {
    run.rule("distinct hostile inputs (damaged encodings with length, count, tag and choice bombs, and noise) given to every reader and iterator; each must end in a value or an error, within a CPU limit and a memory bound, in a build with overflow checks");
    run.assume("the archive container around the sections is intact: containers are parsed by the nom-mpq crate (R01 covers damaged files)");
    run.need("inputs.events", 8_000);
    run.need("inputs.sections", 500);
    run.need("inputs.iterated", 300);
    run.need("inputs.maps", 3_000);
    run.need("inputs.primitives", 3_000);
    run.need("inputs.bombed", 300);
    run.need("bombs", 20_000);
    run.need("tracker_event.error", 1_000);
    run.need("game_event.error", 500);
    run.need("lobby.error", 50);
    run.need("details.error", 50);
    run.need("traced", 300);
    watch::CPU_LIMIT_MS.store(30_000, Ordering::SeqCst);
    alloc::LIMIT.store(1 << 30, Ordering::SeqCst);
    run.part("events", 60_000, 10.0, d06_events);
    run.part("sections", 2_500, 8.0, d06_sections);
    run.part("iterate", 1_500, 8.0, d06_iterate);
    run.part("maps", 20_000, 4.0, d06_maps);
    run.part("primitives", 20_000, 6.0, d06_primitives);
    run.part("bombs", 3_000, 8.0, d06_bombs);
    alloc::LIMIT.store(2 << 30, Ordering::SeqCst);
    run.extra.insert("memory_bound".into(), json!({"base": MEM_BASE, "per_input_byte": MEM_PER_BYTE}));
}

// ------------------------------------------------------------------ D07

/// Bytes that no tracker event starts with, whatever follows.
fn bad_tracker(r: &mut Rng) -> (Vec<u8>, &'static str) {
    let mut v = vec![];
    let delta = |v: &mut Vec<u8>, r: &mut Rng| enc_svar_ver(v, r.below(100) as u32, r);
    match r.below(6) {
        0 => {
            // not a choice at all
            v.push(*r.pick(&[0u8, 1, 2, 4, 5, 6, 7, 8, 9, 10, 0x33, 0xff]));
            let x = r.bytes(6);
            v.extend(x);
            (v, "wrong type tag")
        }
        1 => {
            v.push(3);
            vlq(&mut v, *r.pick(&[4i128, 5, 100, -1, 1 << 40]));
            v_int(&mut v, 5);
            (v, "unknown choice")
        }
        2 => {
            delta(&mut v, r);
            v_int(&mut v, 11 + r.below(100) as i128 * 7);
            v.push(5);
            vlq(&mut v, 0);
            (v, "unknown event kind")
        }
        3 => {
            delta(&mut v, r);
            v_int(&mut v, 5); // upgrade
            v.push(5);
            vlq(&mut v, 2);
            vlq(&mut v, 0);
            v_int(&mut v, 1);
            vlq(&mut v, 0);
            v_int(&mut v, 1);
            (v, "duplicate field")
        }
        4 => {
            delta(&mut v, r);
            v_int(&mut v, 5);
            v.push(5);
            vlq(&mut v, 1);
            vlq(&mut v, 0);
            v_int(&mut v, 1);
            (v, "missing fields")
        }
        _ => {
            delta(&mut v, r);
            v_int(&mut v, 5);
            v.push(5);
            vlq(&mut v, 3);
            vlq(&mut v, 1);
            v.push(2);
            vlq(&mut v, 1 << 30);
            (v, "text longer than the rest")
        }
    }
}

fn bad_game(g: Gen, r: &mut Rng) -> (Vec<u8>, &'static str) {
    let known: Vec<i64> = bitp(g).variants("GameEEventId").iter().map(|v| v.0 as i64).collect();
    let unknown: Vec<i64> = (0..128).filter(|i| !known.contains(i)).collect();
    let mut w = BitW::new();
    enc_svar_bits(&mut w, r.below(100) as u32, r);
    w.bits(5, r.below(16) as u64);
    w.bits(7, *r.pick(&unknown) as u64);
    let mut v = w.buf;
    let k = 4 + r.below(20);
    v.extend(r.bytes(k));
    (v, "unassigned event kind")
}

fn d07_streams(c: &mut Case, r: &mut Rng) {
    let o = GenOpts { utf8: !r.chance(1, 6), max_list: 6, ..Default::default() };
    let n = 1 + r.below(9);
    if r.bool() {
        let evs: Vec<TEv> = (0..n).map(|_| TEv { delta: gen_delta(r), ev: gen_tracker_event(r, &o) }).collect();
        let (bytes, ends) = enc_tracker(&evs, r);
        let v = if r.chance(1, 3) { *r.pick(OLD_BUILDS) } else { *r.pick(NEW_BUILDS) };
        let (input, whole, how) = if r.chance(2, 3) {
            let cut = r.below(bytes.len() + 1);
            (bytes[..cut].to_vec(), ends.iter().filter(|e| **e <= cut).count(), "cut")
        } else {
            let k = r.below(n);
            let (start, end) = (if k == 0 { 0 } else { ends[k - 1] }, ends[k]);
            let (bad, how) = bad_tracker(r);
            let mut b = bytes[..start].to_vec();
            b.extend(bad);
            // what follows is well-formed
            b.extend(&bytes[if r.bool() { start } else { end }..]);
            (b, k, how)
        };
        c.seen(fnv(&input));
        c.count(&format!("tracker.{how}"), 1);
        c.sample(|| json!({"kind": "tracker", "how": how, "events": n, "intact": whole}));
        let want: Vec<Value> = typed::tracker_stream(&evs[..whole]).into_iter().map(|(l, v)| json!({"loop": l, "event": v})).collect();
        let got: Vec<Value> = iter_tracker(&input, v).iter().map(|(l, e)| json!({"loop": l, "event": to_json(e)})).collect();
        c.count("intact_events", want.len() as u64);
        compare_stream(c, &format!("tracker events before a damage ({how})"), &want, &got, || json!({"version": v, "events": n}));
        let mut st = TrackertEventIteratorState::from(input.clone());
        while st.get_next_event(v).is_some() {}
        for _ in 0..3 {
            if st.get_next_event(v).is_some() {
                c.fail("tracker events invented after the damage", json!({"how": how}));
                break;
            }
        }
    } else {
        let g = if r.bool() { Gen::P87702 } else { Gen::P75689 };
        let evs: Vec<GEv> = (0..n).map(|_| GEv { delta: gen_delta(r), user: r.below(32) as u8, ev: gen_game_event(g, r, &o) }).collect();
        let (bytes, ends) = enc_game(g, &evs, r);
        let v = match g {
            Gen::P75689 => *r.pick(OLD_BUILDS),
            Gen::P87702 => *r.pick(NEW_BUILDS),
        };
        let (input, whole, how) = if r.chance(2, 3) {
            let cut = r.below(bytes.len() + 1);
            (bytes[..cut].to_vec(), ends.iter().filter(|e| **e <= cut).count(), "cut")
        } else {
            let k = r.below(n);
            let (start, end) = (if k == 0 { 0 } else { ends[k - 1] }, ends[k]);
            let (bad, how) = bad_game(g, r);
            let mut b = bytes[..start].to_vec();
            b.extend(bad);
            b.extend(&bytes[if r.bool() { start } else { end }..]);
            (b, k, how)
        };
        c.seen(fnv(&input));
        c.count(&format!("game.{how}"), 1);
        let want: Vec<Value> =
            typed::game_stream(g, &evs[..whole]).into_iter().map(|(l, u, v)| json!({"loop": l, "user": u, "event": v})).collect();
        let got: Vec<Value> = iter_game(&input, v).iter().map(|(l, u, e)| json!({"loop": l, "user": u, "event": to_json(e)})).collect();
        c.count("intact_events", want.len() as u64);
        compare_stream(c, &format!("game events before a damage ({how})"), &want, &got, || json!({"version": v, "events": n}));
        let (us, ab) = (HashMap::new(), HashMap::new());
        let mut st = GameEventIteratorState::from(input.clone());
        while st.get_next_event(v, &us, &ab).is_some() {}
        for _ in 0..3 {
            if st.get_next_event(v, &us, &ab).is_some() {
                c.fail("game events invented after the damage", json!({"how": how}));
                break;
            }
        }
    }
}

/// One or both sections of a replay end early; the merged iteration still has every intact event of both.
fn d07_replay(c: &mut Case, r: &mut Rng) {
    let steps = 10 + r.below(60);
    let mut sc = gen_scen(r, &Opts { steps, ..Default::default() });
    let (tb, tends) = enc_tracker(&sc.tracker, r);
    let (gb, gends) = enc_game(sc.g, &sc.game, r);
    let which = r.below(3);
    let (mut tcut, mut gcut) = (tb.len(), gb.len());
    if which != 1 && !tb.is_empty() {
        tcut = r.below(tb.len());
    }
    if which != 0 && !gb.is_empty() {
        gcut = r.below(gb.len());
    }
    sc.tracker.truncate(tends.iter().filter(|e| **e <= tcut).count());
    sc.game.truncate(gends.iter().filter(|e| **e <= gcut).count());
    sc.finish(r);
    sc.rep.tracker = tb[..tcut].to_vec();
    sc.rep.game = gb[..gcut].to_vec();
    let dir = TmpDir::new();
    let Some((_, _, mut it)) = open(c, &sc, &dir, r) else { return };
    c.seen(sc.hash());
    c.count(["tracker_section_cut", "game_section_cut", "both_sections_cut"][which], 1);
    drive(c, &sc, &mut it, A_SEQ);
    for _ in 0..3 {
        if it.next().is_some() {
            c.fail("events after the end of a cut replay", json!({"scenario": sc.describe()}));
            break;
        }
    }
}

pub fn d07(run: &mut Run) {
    run.rule("distinct event streams cut at every kind of position or damaged in the middle so that the format can not be read on; delivered events are compared with those completely stored before");
    run.assume("a damage is one the format itself forbids (wrong tag, unknown choice or kind, duplicate or missing field, text past the end)");
    run.need("tracker.cut", 2_000);
    run.need("game.cut", 2_000);
    run.need("tracker.unknown event kind", 60);
    run.need("tracker.duplicate field", 60);
    run.need("game.unassigned event kind", 500);
    run.need("intact_events", 10_000);
    run.need("both_sections_cut", 60);
    run.part("streams", 40_000, 8.0, d07_streams);
    run.part("replays", 1_200, 8.0, d07_replay);
}

