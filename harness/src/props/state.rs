//! S01 to S08: the state machine that replays the events.
use crate::model::*;
use crate::props::decode::TmpDir;
use crate::report::{Case, Run};
use crate::rng::Rng;
use crate::scen::*;
use crate::schema::*;
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::{InitData, SC2EventIterator, SC2EventIteratorItem, SC2ReplayState};
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::path::PathBuf;

/// A scenario on disk and its iterator.
pub fn open(c: &mut Case, sc: &Scen, dir: &TmpDir, r: &mut Rng) -> Option<(PathBuf, InitData, SC2EventIterator)> {
    let path = sc.write(&dir.0, "r.SC2Replay", r);
    let init = match InitData::try_from((path.clone(), 7u64)) {
        Ok(i) => i,
        Err(e) => {
            c.count("not_opened", 1);
            c.sample(|| json!({"not_opened": trunc(&format!("{e:?}"), 300)}));
            return None;
        }
    };
    match SC2EventIterator::new(&init, sc.balance.all.clone()) {
        Ok(it) => Some((path, init, it)),
        Err(e) => {
            c.count("not_opened", 1);
            c.sample(|| json!({"not_opened": trunc(&format!("{e:?}"), 300)}));
            None
        }
    }
}

fn drive_case(c: &mut Case, r: &mut Rng, o: &Opts, aspects: u32) {
    let sc = gen_scen(r, o);
    let dir = TmpDir::new();
    let Some((_, _, mut it)) = open(c, &sc, &dir, r) else { return };
    c.count("replays", 1);
    c.count("tracker_events", sc.t.len() as u64);
    c.count("game_events", sc.gm.len() as u64);
    c.seen(sc.hash());
    c.sample(|| sc.describe());
    drive(c, &sc, &mut it, aspects);
}

fn state_assume(run: &mut Run) {
    run.assume("synthetic replays are stored in the archive layout that nom-mpq reads; unit tags in game events name the current holder of a unit index");
}

pub fn s01(run: &mut Run) {
    run.rule("distinct synthetic replays (tracker and game streams of either generation, with skipped events, equal loops, empty streams and loops beyond 2^24) iterated completely; every delivered item is matched against the stored streams");
    state_assume(run);
    run.need("events_checked", 40_000);
    let o = Opts { steps: 90, ..Default::default() };
    run.part("merge", 2500, 12.0, |c, r| drive_case(c, r, &o, A_SEQ));
    let o = Opts { steps: 9, ..Default::default() };
    run.part("merge short", 2500, 8.0, |c, r| drive_case(c, r, &o, A_SEQ));
    let o = Opts { steps: 100_000, ..Default::default() };
    run.part("merge long", 4, 12.0, |c, r| drive_case(c, r, &o, A_SEQ));
}

pub fn s04(run: &mut Run) {
    run.rule("distinct synthetic replays whose unit registry and hints are compared after every event with a reference model driven by the stored events");
    state_assume(run);
    run.need("events_checked", 40_000);
    run.need("hint.registered", 5_000);
    run.need("hint.unregistered", 1_000);
    run.need("hint.with_creator", 500);
    run.need("hint.with_killer", 300);
    let o = Opts::default();
    run.part("registry", 4000, 14.0, |c, r| drive_case(c, r, &o, A_REG));
    let o = Opts { steps: 6000, ..Default::default() };
    run.part("long games", 14, 12.0, |c, r| drive_case(c, r, &o, A_REG));
}

pub fn s05(run: &mut Run) {
    run.rule("distinct synthetic replays whose selections, control groups and selection marks are compared after every event with a reference model");
    state_assume(run);
    run.need("events_checked", 40_000);
    run.need("selection_changes", 5_000);
    let o = Opts { selections: 45, commands: 6, positions: 4, ..Default::default() };
    run.part("groups", 3500, 14.0, |c, r| drive_case(c, r, &o, A_SEL));
    let o = Opts { steps: 6000, selections: 45, commands: 6, positions: 4, ..Default::default() };
    run.part("long games", 14, 12.0, |c, r| drive_case(c, r, &o, A_SEL));
    let o = Opts { selections: 45, commands: 6, positions: 4, max_players: 2, steps: 200, ..Default::default() };
    run.part("two players", 600, 10.0, |c, r| drive_case(c, r, &o, A_SEL));
}

pub fn s06(run: &mut Run) {
    run.rule("distinct synthetic replays with balance data of several versions; commands, targets, abilities and cameras compared after every event with a reference model");
    state_assume(run);
    run.need("events_checked", 30_000);
    run.need("units_commanded", 3_000);
    run.need("abilities_named", 500);
    run.need("commands_at_known_unit", 200);
    run.need("target_units", 300);
    run.need("target_points", 500);
    let o = Opts { commands: 50, selections: 25, positions: 3, ..Default::default() };
    run.part("commands", 4000, 14.0, |c, r| drive_case(c, r, &o, A_CMD));
    let o = Opts { steps: 6000, commands: 50, selections: 25, positions: 3, ..Default::default() };
    run.part("long games", 14, 12.0, |c, r| drive_case(c, r, &o, A_CMD));
}

fn tags_case(c: &mut Case, r: &mut Rng) {
    use s2protocol::tracker_events::{unit_tag, unit_tag_index, unit_tag_recycle};
    for _ in 0..200 {
        let i = r.biased(0, 0x3fff) as u32;
        let y = r.biased(0, 0x3ffff) as u32;
        let t = unit_tag(i, y);
        let want = i as i64 * 262144 + y as i64;
        if t != want {
            c.fail("unit tag", json!({"index": i, "recycle": y, "got": t, "want": want}));
        }
        let back = (unit_tag_index(want), unit_tag_recycle(want));
        if back != (i, y) {
            c.fail("parts of a unit tag", json!({"tag": want, "got": [back.0, back.1], "want": [i, y]}));
        }
    }
    c.count("tags", 200);
}

fn positions_case(c: &mut Case, r: &mut Rng) {
    use s2protocol::tracker_events::UnitPositionsEvent;
    // the event itself, through JSON so that only its documented fields are relied on
    let first = r.biased(0, 0x3fff) as u32;
    let n = if r.chance(1, 100) { r.below(1500) } else { r.below(12) };
    let mut items = vec![];
    let mut cur = first as i64;
    let mut want = vec![];
    for _ in 0..n {
        let next = if r.chance(3, 4) { cur + r.below(30) as i64 } else { r.below(0x4000) as i64 };
        items.push(next - cur);
        cur = next;
        let (x, y) = (r.biased(-536870912, 536870911) as i64, r.range(0, 255));
        items.push(x);
        items.push(y);
        want.push((next, x * 4, y * 4));
    }
    let tail = r.below(3);
    for _ in 0..tail {
        items.push(r.below(9) as i64);
    }
    let ev: UnitPositionsEvent = serde_json::from_value(json!({"first_unit_index": first, "items": items})).expect("harness: positions event");
    let got: Vec<(i64, i64, i64)> = ev.to_unit_positions_vec().into_iter().map(|p| (p.tag as i64, p.x as i64, p.y as i64)).collect();
    c.count("position_lists", 1);
    if tail == 0 && got != want {
        c.fail("positions of an event", json!({"first": first, "items": items, "got": format!("{got:?}"), "want": format!("{want:?}")}));
    }
    if tail != 0 && got[..n.min(got.len())] != want[..] {
        c.fail("positions before an incomplete one", json!({"first": first, "items": items, "got": format!("{got:?}")}));
    }
}

pub fn s07(run: &mut Run) {
    run.rule("distinct synthetic replays rich in position updates, with all unit positions compared after every event; plus unit tags over their whole range and position lists");
    state_assume(run);
    run.need("events_checked", 30_000);
    run.need("units_moved", 3_000);
    run.need("tags", 50_000);
    let o = Opts { positions: 60, selections: 4, commands: 4, ..Default::default() };
    run.part("positions", 3000, 12.0, |c, r| drive_case(c, r, &o, A_POS));
    let o = Opts { steps: 6000, positions: 60, selections: 4, commands: 4, ..Default::default() };
    run.part("long games", 14, 12.0, |c, r| drive_case(c, r, &o, A_POS));
    run.part("tags", 4000, 4.0, tags_case);
    run.part("lists", 20000, 4.0, positions_case);
}

pub fn s08(run: &mut Run) {
    run.rule("distinct synthetic replays whose player labels of events, units and upgrades and player join are compared after every event with a reference model");
    state_assume(run);
    run.need("events_checked", 30_000);
    run.need("game_events_named", 3_000);
    run.need("game_events_unnamed", 500);
    run.need("upgrades_named", 300);
    let o = Opts { max_players: 12, steps: 70, ..Default::default() };
    run.part("names", 3600, 14.0, |c, r| drive_case(c, r, &o, A_NAME));
    let o = Opts { steps: 6000, max_players: 12, ..Default::default() };
    run.part("long games", 14, 12.0, |c, r| drive_case(c, r, &o, A_NAME));
}

// ------------------------------------------------------------------ S02

/// Units and users in a canonical order, as JSON text.
pub fn state_text(st: &SC2ReplayState) -> String {
    let units: BTreeMap<_, _> = st.units.iter().collect();
    let users: BTreeMap<_, _> = st.user_state.iter().collect();
    serde_json::to_string(&(units, users)).expect("harness: state json")
}
fn item_text(i: &SC2EventIteratorItem) -> String {
    serde_json::to_string(i).expect("harness: item json")
}
struct Trace {
    items: Vec<String>,
    states: Vec<u64>,
}
fn trace(it: &mut SC2EventIterator, max: usize, states: bool) -> Trace {
    let mut t = Trace { items: vec![], states: vec![] };
    while let Some(i) = it.next() {
        t.items.push(item_text(&i));
        if states {
            t.states.push(crate::rng::fnv(state_text(&it.sc2_state).as_bytes()));
        }
        if t.items.len() >= max {
            break;
        }
    }
    t
}

fn first_diff(a: &[String], b: &[String]) -> Value {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            let k = x.bytes().zip(y.bytes()).take_while(|(p, q)| p == q).count();
            let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(60)..(k + 120).min(s.len())]).to_string();
            return json!({"index": i, "want": cut(x), "got": cut(y)});
        }
    }
    json!({"want_len": a.len(), "got_len": b.len()})
}

pub fn gen_filters(r: &mut Rng, sc: &Scen) -> Value {
    let last = sc.t.last().map(|e| e.at).unwrap_or(0).max(sc.gm.last().map(|e| e.at).unwrap_or(0));
    let some_loop = |r: &mut Rng| -> i64 {
        match r.below(4) {
            0 if !sc.t.is_empty() => sc.t[r.below(sc.t.len())].at,
            1 if !sc.gm.is_empty() => sc.gm[r.below(sc.gm.len())].at,
            2 if r.chance(1, 8) => *r.pick(&[-1, -2, -100, i64::MIN, i64::MAX, i64::from(u32::MAX)]),
            _ => r.range(-1, last + 1),
        }
    };
    let player = match r.below(6) {
        0 => Some(r.below(32) as i64),
        1 if !sc.players.is_empty() => sc.players[r.below(sc.players.len())].user_id.map(|x| x as i64),
        2 if !sc.players.is_empty() => Some(sc.players[r.below(sc.players.len())].tracker_id as i64),
        _ => None,
    };
    let name: Option<String> = match r.below(6) {
        0 => Some(r.pick(UNIT_NAMES).to_string()),
        // almost the name of a unit
        2 if r.bool() => {
            let n = r.pick(UNIT_NAMES).to_string();
            Some(match r.below(5) {
                0 => n.to_lowercase(),
                1 => n.to_uppercase(),
                2 => n.chars().take(n.chars().count().saturating_sub(1)).collect(),
                3 => format!("{n} "),
                _ => String::new(),
            })
        }
        1 => sc.t.iter().filter_map(|e| e.json.as_object()?.values().next()?.get("unit_type_name")?.as_str()).next().map(|s| s.to_string()),
        _ => None,
    };
    json!({
        "player_id": player,
        "unit_tag": null,
        "min_loop": if r.chance(1, 3) { Some(some_loop(r)) } else { None },
        "max_loop": if r.chance(1, 3) { Some(some_loop(r)) } else { None },
        "event_type": null,
        "unit_name": name,
        "max_events": if r.chance(1, 3) { Some(r.below(60)) } else { None },
        "include_stats": r.bool(),
    })
}

pub fn filters_of(j: &Value) -> SC2ReplayFilters {
    serde_json::from_value(j.clone()).expect("harness: filters")
}

fn s02_case(c: &mut Case, r: &mut Rng) {
    let o = Opts { steps: 60, ..Default::default() };
    let sc = gen_scen(r, &o);
    let dir = TmpDir::new();
    let Some((_, init, it)) = open(c, &sc, &dir, r) else { return };
    let filters = if r.chance(1, 3) { Some(gen_filters(r, &sc)) } else { None };
    let fresh = |it: SC2EventIterator| match &filters {
        Some(f) => it.with_filters(filters_of(f)),
        None => it,
    };
    c.count("replays", 1);
    c.count("with_filters", filters.is_some() as u64);
    c.seen(sc.hash());
    c.sample(|| sc.describe());
    let ctx = || json!({"scenario": sc.describe(), "filters": filters});
    let want = {
        let mut a = fresh(it);
        trace(&mut a, usize::MAX, true)
    };
    let n = want.items.len();
    // a second iteration of the same replay
    let Ok(b) = SC2EventIterator::new(&init, sc.balance.all.clone()) else {
        c.fail("second iteration not opened", ctx());
        return;
    };
    let again = trace(&mut fresh(b), usize::MAX, true);
    c.count("repeated_events", again.items.len() as u64);
    if again.items != want.items {
        c.fail("a second iteration gives other events", json!({"diff": first_diff(&want.items, &again.items), "ctx": ctx()}));
        return;
    }
    if again.states != want.states {
        c.fail("a second iteration gives other states", ctx());
        return;
    }
    // copies taken in the middle
    let Ok(orig) = SC2EventIterator::new(&init, sc.balance.all.clone()) else { return };
    let mut orig = fresh(orig);
    let mut at = 0usize;
    let stops = 1 + r.below(3);
    for _ in 0..stops {
        if at > n {
            break;
        }
        let stop = at + r.below(n - at + 1);
        let t = trace(&mut orig, stop - at, false);
        if stop > at && t.items[..] != want.items[at..stop] {
            c.fail("events after taking a copy", json!({"diff": first_diff(&want.items[at..stop], &t.items), "at": at, "ctx": ctx()}));
            return;
        }
        if stop == at {
            // trace(.., 0) still takes one event
            if t.items.is_empty() != (at >= n) {
                c.fail("end of the iteration after taking a copy", json!({"at": at, "ctx": ctx()}));
                return;
            }
            at += t.items.len();
        } else {
            at = stop;
        }
        let saved = serde_json::to_string(&orig);
        let saved = match saved {
            Ok(s) => s,
            Err(e) => {
                c.fail("iterator can not be saved", json!({"error": e.to_string(), "ctx": ctx()}));
                return;
            }
        };
        let copies: Vec<(&str, SC2EventIterator)> = match serde_json::from_str::<SC2EventIterator>(&saved) {
            Ok(x) => vec![("restored", x), ("cloned", orig.clone())],
            Err(e) => {
                c.fail("iterator can not be restored", json!({"error": e.to_string(), "ctx": ctx()}));
                return;
            }
        };
        for (what, mut x) in copies {
            if state_text(&x.sc2_state) != state_text(&orig.sc2_state) {
                c.fail(format!("state of a {what} iterator"), json!({"at": at, "ctx": ctx()}));
                return;
            }
            let t = trace(&mut x, usize::MAX, true);
            c.count(what, 1);
            c.count("copied_events", t.items.len() as u64);
            let rest = &want.items[at.min(n)..];
            if t.items[..] != *rest {
                c.fail(format!("events of a {what} iterator"), json!({"at": at, "diff": first_diff(rest, &t.items), "ctx": ctx()}));
                return;
            }
            if t.states[..] != want.states[at.min(n)..] {
                c.fail(format!("states of a {what} iterator"), json!({"at": at, "ctx": ctx()}));
                return;
            }
        }
    }
    let rest = trace(&mut orig, usize::MAX, false);
    if at < n && rest.items[..] != want.items[at..] {
        c.fail("events after taking copies", json!({"at": at, "diff": first_diff(&want.items[at..], &rest.items), "ctx": ctx()}));
    }
}

/// Several iterations of the same and of other replays at the same time.
fn s02_threads(c: &mut Case, r: &mut Rng) {
    let o = Opts { steps: 60, ..Default::default() };
    let dir = TmpDir::new();
    let mut jobs = vec![];
    for k in 0..2 {
        let sc = gen_scen(r, &o);
        let path = sc.write(&dir.0, &format!("r{k}.SC2Replay"), r);
        let Ok(init) = InitData::try_from((path, k as u64)) else { return };
        let Ok(mut it) = SC2EventIterator::new(&init, sc.balance.all.clone()) else { return };
        let want = trace(&mut it, usize::MAX, true);
        c.seen(sc.hash());
        jobs.push((sc, init, want));
    }
    let bad: Vec<String> = std::thread::scope(|s| {
        let mut hs = vec![];
        for k in 0..6 {
            let (sc, init, want) = &jobs[k % jobs.len()];
            let delay = r.below(300) as u64;
            hs.push(s.spawn(move || {
                std::thread::sleep(std::time::Duration::from_micros(delay));
                let Ok(mut it) = SC2EventIterator::new(init, sc.balance.all.clone()) else { return Some("not opened".to_string()) };
                let t = trace(&mut it, usize::MAX, true);
                if t.items != want.items {
                    Some(first_diff(&want.items, &t.items).to_string())
                } else if t.states != want.states {
                    Some("states differ".to_string())
                } else {
                    None
                }
            }));
        }
        hs.into_iter().filter_map(|h| h.join().unwrap_or(Some("panicked".into()))).collect()
    });
    c.count("parallel_iterations", 6);
    if let Some(b) = bad.first() {
        c.fail("an iteration in parallel gives other results", json!({"diff": b, "scenario": jobs[0].0.describe()}));
    }
}

fn s02_samples(c: &mut Case, r: &mut Rng) {
    let s = crate::props::decode::sample_replays();
    if s.is_empty() {
        return;
    }
    let p = &s[r.below(s.len())];
    let Ok(init) = InitData::try_from((p.clone(), 1u64)) else {
        c.fail("sample replay refused", json!({"file": p}));
        return;
    };
    let Ok(mut a) = SC2EventIterator::new(&init, Default::default()) else {
        c.fail("sample replay refused", json!({"file": p}));
        return;
    };
    let lead = 300 + r.below(1500);
    for _ in 0..lead {
        a.next();
    }
    let text = serde_json::to_string(&a).expect("harness: save");
    let Ok(mut b) = serde_json::from_str::<SC2EventIterator>(&text) else {
        c.fail("sample iterator can not be restored", json!({"file": p}));
        return;
    };
    for i in 0..1200 {
        let (x, y) = (a.next().map(|i| item_text(&i)), b.next().map(|i| item_text(&i)));
        if x != y {
            c.fail("sample: events of a restored iterator", json!({"file": p, "at": lead + i}));
            return;
        }
        if x.is_none() {
            break;
        }
        c.count("sample_events", 1);
    }
    if state_text(&a.sc2_state) != state_text(&b.sc2_state) {
        c.fail("sample: states of a restored iterator", json!({"file": p, "at": lead}));
    }
    c.seen(crate::rng::fnv(p.to_string_lossy().as_bytes()) ^ lead as u64);
}

pub fn s02(run: &mut Run) {
    run.rule("distinct synthetic replays iterated twice, copied (cloned, saved as JSON and restored) at random points, with and without filters, and iterated by several threads at once; all items and states compared as JSON text");
    state_assume(run);
    run.need("restored", 500);
    run.need("cloned", 500);
    run.need("copied_events", 8_000);
    run.need("parallel_iterations", 100);
    run.part("copies", 500, 14.0, s02_case);
    run.part_threads("threads", 60, 8.0, 2, s02_threads);
    run.part_threads("samples", 4, 8.0, 4, s02_samples);
}

// ------------------------------------------------------------------ S03

/// Does the stored event pass the filters? Written from what the filters are documented to select.
fn passes(f: &Value, ev: &V, at: i64, user: Option<i64>) -> bool {
    if let Some(m) = f["min_loop"].as_i64()
        && at < m
    {
        return false;
    }
    if let Some(m) = f["max_loop"].as_i64()
        && at > m
    {
        return false;
    }
    let player = f["player_id"].as_i64();
    if let Some(u) = user {
        return player.is_none_or(|p| p == u);
    }
    let p = ev.payload();
    let kind = ev.variant();
    let field = match kind {
        "EUnitBorn" | "EUnitInit" | "EUnitOwnerChange" => Some("m_control_player_id"),
        "EPlayerSetup" | "EUpgrade" | "EPlayerStats" => Some("m_player_id"),
        "EUnitDied" => Some("m_killer_player_id"),
        _ => None,
    };
    if let (Some(want), Some(field)) = (player, field)
        && p.get(field).opt_int() != Some(want as i128)
    {
        return false;
    }
    if let Some(n) = f["unit_name"].as_str()
        && ["EUnitBorn", "EUnitInit", "EUnitTypeChange"].contains(&kind)
        && p.get("m_unit_type_name").bytes() != n.as_bytes()
    {
        return false;
    }
    if kind == "EPlayerStats" && f["include_stats"] != json!(true) {
        return false;
    }
    true
}

fn s03_case(c: &mut Case, r: &mut Rng) {
    let o = Opts { steps: 80, ..Default::default() };
    let sc = gen_scen(r, &o);
    let dir = TmpDir::new();
    let Some((_, init, mut it)) = open(c, &sc, &dir, r) else { return };
    c.count("replays", 1);
    c.seen(sc.hash());
    c.sample(|| sc.describe());
    // everything, with the stored event each item stands for
    let mut all: Vec<(String, u64, V, i64, Option<i64>)> = vec![];
    let mut pos = Pos::default();
    while let Some(i) = it.next() {
        let st = crate::rng::fnv(state_text(&it.sc2_state).as_bytes());
        match locate(&sc, &mut pos, &i, false) {
            Step::T(e) => all.push((item_text(&i), st, e.ev.clone(), e.at, None)),
            Step::G(e) => all.push((item_text(&i), st, e.ev.clone(), e.at, Some(e.user))),
            Step::Lost(..) => {
                c.count("lost_track", 1);
                return;
            }
        }
    }
    for _ in 0..5 {
        let f = gen_filters(r, &sc);
        let mut want: Vec<&(String, u64, V, i64, Option<i64>)> = all.iter().filter(|x| passes(&f, &x.2, x.3, x.4)).collect();
        let matching = want.len();
        if let Some(m) = f["max_events"].as_u64() {
            want.truncate(m as usize);
        }
        let ctx = || json!({"filters": f, "scenario": sc.describe(), "matching": matching});
        let Ok(it) = SC2EventIterator::new(&init, sc.balance.all.clone()) else { return };
        let mut it = it.with_filters(filters_of(&f));
        let mut n = 0;
        while let Some(i) = it.next() {
            let got = item_text(&i);
            match want.get(n) {
                None => {
                    let sig = if f["max_events"].as_u64() == Some(n as u64) && n < matching {
                        "more events than requested"
                    } else {
                        "event that does not match"
                    };
                    c.fail(sig, json!({"at": n, "got": trunc(&got, 300), "ctx": ctx()}));
                    return;
                }
                Some(w) => {
                    if w.0 != got {
                        let skipped = want.iter().skip(n).any(|x| x.0 == got);
                        let sig = if skipped { "matching event missing" } else { "filtered event differs" };
                        c.fail(sig, json!({"at": n, "diff": first_diff(&[w.0.clone()], &[got]), "ctx": ctx()}));
                        return;
                    }
                    if w.1 != crate::rng::fnv(state_text(&it.sc2_state).as_bytes()) {
                        c.fail("state differs from the one without filters", json!({"at": n, "ctx": ctx()}));
                        return;
                    }
                }
            }
            n += 1;
            c.count("events_checked", 1);
        }
        if n != want.len() {
            c.fail("matching event missing", json!({"delivered": n, "expected": want.len(), "ctx": ctx()}));
            return;
        }
        c.count("filters", 1);
        c.count("events_filtered_out", (all.len() - matching) as u64);
        c.count("cut_by_max_events", (matching > want.len()) as u64);
        for k in ["player_id", "unit_name", "min_loop", "max_loop"] {
            c.count(&format!("by.{k}"), !f[k].is_null() as u64);
        }
    }
    // the player filter by name
    if let Ok(d) = s2protocol::details::Details::try_from(&init) {
        let mut f = SC2ReplayFilters::default();
        f.player_id = Some(77);
        f.set_player_id_from_user_name("no such player", &d);
        c.check(f.player_id == Some(77), "unknown player name changes the filter", || json!({"got": f.player_id}));
        let k = r.below(sc.players.len());
        let name = &d.player_list[k].name;
        if d.player_list.iter().filter(|p| p.name == *name).count() == 1 {
            f.set_player_id_from_user_name(name, &d);
            c.count("filters_by_name", 1);
            c.check(f.player_id == sc.players[k].wss, "player filter by name", || json!({"got": f.player_id, "want": sc.players[k].wss}));
        }
    }
}

pub fn s03(run: &mut Run) {
    run.rule("pairs of a synthetic replay and a random filter; delivered items and the state at each of them compared with the unfiltered iteration reduced by an independent predicate");
    run.assume("events without a player, unit name or killer in them pass the respective filter as the code documents (game events have no unit name, completions and positions no player)");
    run.need("events_checked", 20_000);
    run.need("filters", 1_000);
    run.need("cut_by_max_events", 100);
    run.need("by.player_id", 300);
    run.need("by.unit_name", 200);
    run.part("filters", 900, 14.0, s03_case);
}
