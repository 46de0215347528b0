//! E05: values written as JSON and read back.
use crate::props::balance::gen_unit;
use crate::props::decode::{TmpDir, gen_game_event, gen_tracker_event, iter_game, iter_tracker, sample_replays, to_json};
use crate::props::export::TABLES;
use crate::props::files::gen_extreme_replay;
use crate::props::state::{filters_of, gen_filters, open, state_text};
use crate::report::{Case, Run};
use crate::rng::{Rng, fnv};
use crate::scen::*;
use crate::schema::*;
use crate::synth::*;
use s2protocol::details::{Details, PlayerLobbyDetails, PlayerLobbyDetailsFlatRow};
use s2protocol::dir_stats::SC2ReplaysDirStats;
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::game_events::{VersionedBalanceUnit, read_balance_data_from_included_assets};
use s2protocol::init_data::UserInitDataFlatRow;
use s2protocol::{InitData, SC2EventIterator, SC2ReplayState};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::collections::HashMap;
use std::fmt::Debug;

/// All values shown, in an order that does not depend on the order of maps.
fn lines(s: &str) -> Vec<&str> {
    let mut l: Vec<&str> = s.lines().collect();
    l.sort_unstable();
    l
}

/// Writes a value and reads it back, in the ways JSON is stored.
fn trip<T: Serialize + DeserializeOwned + Debug>(c: &mut Case, what: &str, v: &T) {
    let shown = format!("{v:#?}");
    let want = lines(&shown);
    let text = match serde_json::to_string(v) {
        Ok(t) => t,
        Err(e) => return c.fail(format!("{what} cannot be written"), json!({"error": e.to_string(), "value": trunc(&shown, 600)})),
    };
    c.count(&format!("values.{what}"), 1);
    c.seen(fnv(text.as_bytes()));
    let judge = |c: &mut Case, way: &str, back: Result<T, String>| match back {
        Err(e) => c.fail(format!("{what} cannot be read back"), json!({"way": way, "error": e, "json": trunc(&text, 800)})),
        Ok(b) => {
            let got = format!("{b:#?}");
            let got = lines(&got);
            if got != want {
                let k = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
                c.fail(
                    format!("{what} reads back different"),
                    json!({"way": way, "stored": want.get(k).map(|s| trunc(s, 300)), "read": got.get(k).map(|s| trunc(s, 300)), "json": trunc(&text, 600)}),
                );
                return;
            }
            match serde_json::to_value(&b) {
                Ok(j) if j == to_json(v) => {}
                Ok(_) => c.fail(format!("{what} is written differently after being read back"), json!({"json": trunc(&text, 600)})),
                Err(e) => c.fail(format!("{what} cannot be written"), json!({"error": e.to_string(), "after": "reading back"})),
            };
        }
    };
    judge(c, "text", serde_json::from_str(&text).map_err(|e| e.to_string()));
    if text.len() < 20_000 {
        judge(c, "value", serde_json::from_value(to_json(v)).map_err(|e| e.to_string()));
        let pretty = serde_json::to_vec_pretty(v).unwrap_or_default();
        judge(c, "reader", serde_json::from_reader(&pretty[..]).map_err(|e| e.to_string()));
    }
}

fn trip_all<T: Serialize + DeserializeOwned + Debug>(c: &mut Case, what: &str, l: &[T]) {
    for v in l {
        trip(c, what, v);
    }
}

/// Events of all kinds with any values.
fn event_case(c: &mut Case, r: &mut Rng) {
    let build = pick_build(r);
    let g = gen_of(build);
    let o = GenOpts { utf8: r.chance(3, 4), ..Default::default() };
    let t: Vec<TEv> = (0..4).map(|_| TEv { delta: r.below(9) as u32, ev: gen_tracker_event(r, &o) }).collect();
    for (at, e) in iter_tracker(&enc_tracker(&t, r).0, build) {
        trip(c, "tracker event", &e);
        trip(c, "tracker event type", &s2protocol::SC2EventType::Tracker { tracker_loop: at, event: e });
    }
    let gm: Vec<GEv> = (0..4).map(|_| GEv { delta: r.below(9) as u32, user: r.below(16) as u8, ev: gen_game_event(g, r, &o) }).collect();
    for (_, _, e) in iter_game(&enc_game(g, &gm, r).0, build) {
        trip(c, "game event", &e);
    }
}

fn flat_rows(c: &mut Case, it: &SC2EventIterator) {
    for t in &TABLES[1..] {
        let it = it.clone();
        match *t {
            "stats" => trip_all(c, "row.stats", &it.collect_into_player_stats_flat_rows()),
            "upgrades" => trip_all(c, "row.upgrades", &it.collect_into_upgrades_flat_rows()),
            "unit_born" => trip_all(c, "row.unit_born", &it.collect_into_unit_born_flat_rows()),
            "unit_died" => trip_all(c, "row.unit_died", &it.collect_into_unit_died_flat_rows()),
            "cmd_target_point" => trip_all(c, "row.cmd_target_point", &it.collect_into_game_cmd_target_points_flat_rows()),
            "cmd_target_unit" => trip_all(c, "row.cmd_target_unit", &it.collect_into_game_cmd_target_units_flat_rows()),
            o => panic!("harness: table {o}"),
        }
    }
}

/// An iteration stored half way and resumed from what is read back.
fn resume(c: &mut Case, mut it: SC2EventIterator, stop: usize, ctx: &Value) {
    for _ in 0..stop {
        if it.next().is_none() {
            break;
        }
    }
    let Ok(text) = serde_json::to_string(&it) else {
        return c.fail("iteration cannot be written", ctx.clone());
    };
    let mut back: SC2EventIterator = match serde_json::from_str(&text) {
        Ok(b) => b,
        Err(e) => return c.fail("iteration cannot be read back", json!({"error": e.to_string(), "ctx": ctx})),
    };
    c.count("iterations_resumed", 1);
    let mut n = 0;
    loop {
        let (a, b) = (it.next(), back.next());
        if a.as_ref().map(|x| format!("{x:?}")) != b.as_ref().map(|x| format!("{x:?}")) {
            return c.fail(
                "iteration read back goes on differently",
                json!({"stored_after": stop, "item": n, "want": trunc(&format!("{a:?}"), 400), "got": trunc(&format!("{b:?}"), 400), "ctx": ctx}),
            );
        }
        if a.is_none() {
            break;
        }
        n += 1;
    }
    c.count("items_after_resuming", n);
    c.check(state_text(&it.sc2_state) == state_text(&back.sc2_state), "state read back goes on differently", || ctx.clone());
}

fn replay_case(c: &mut Case, r: &mut Rng) {
    let o = if r.bool() {
        Opts { steps: 10 + r.below(60), ..Default::default() }
    } else {
        Opts { steps: 10 + r.below(60), commands: 50, selections: 30, positions: 4, ..Default::default() }
    };
    let sc = gen_scen(r, &o);
    let dir = TmpDir::new();
    let Some((_, init, it)) = open(c, &sc, &dir, r) else { return };
    let ctx = sc.describe();
    c.sample(|| ctx.clone());
    c.count("replays", 1);
    trip(c, "InitData", &init);
    flat_rows(c, &it);
    let mut f = it.clone();
    let every = 1 + r.below(7);
    let mut k = 0;
    while let Some(item) = f.next() {
        k += 1;
        trip(c, "item", &item);
        if k % (every * 9) == 0 {
            trip(c, "state", &f.sc2_state);
            if let Some(u) = f.sc2_state.units.values().next() {
                trip(c, "unit", u);
            }
        }
    }
    // the whole state also behaves the same: this is what is compared, maps in any order
    let st: Result<SC2ReplayState, _> = serde_json::from_str(&serde_json::to_string(&f.sc2_state).unwrap_or_default());
    c.check(st.is_ok_and(|s| state_text(&s) == state_text(&f.sc2_state)), "state reads back different", || ctx.clone());
    let stop = r.below(k + 2);
    let it = if r.chance(1, 3) { it.with_filters(filters_of(&gen_filters(r, &sc))) } else { it };
    resume(c, it, stop, &ctx);
}

/// Lobby and details with extreme values.
fn metadata_case(c: &mut Case, r: &mut Rng) {
    let dir = TmpDir::new();
    let rep = gen_extreme_replay(r);
    let path = dir.0.join("x.SC2Replay");
    std::fs::write(&path, rep.bytes(r)).expect("harness: write");
    let id = if r.chance(1, 6) { u64::MAX } else { r.next() };
    let Ok(init) = InitData::try_from((path, id)) else { return };
    trip(c, "InitData", &init);
    trip_all(c, "row.users", &Vec::<UserInitDataFlatRow>::from(&init));
    if let Ok(d) = Details::try_from(&init) {
        trip(c, "Details", &d);
    }
    if let Ok(l) = Vec::<PlayerLobbyDetails>::try_from(&init) {
        for p in l {
            trip(c, "PlayerLobbyDetails", &p);
            trip(c, "row.details", &PlayerLobbyDetailsFlatRow::from(p));
        }
    }
}

fn other_case(c: &mut Case, r: &mut Rng) {
    let opt = |r: &mut Rng| if r.bool() { Some(*r.pick(&[i64::MIN, -1, 0, 7, 1 << 53, (1 << 53) + 1, i64::MAX])) } else { None };
    let mut j = to_json(&SC2ReplayFilters::default());
    for k in ["unit_tag", "min_loop", "max_loop"] {
        j[k] = json!(opt(r));
    }
    j["player_id"] = json!(if r.bool() { Some(r.below(256)) } else { None });
    j["max_events"] = json!(if r.bool() { Some(*r.pick(&[0u64, 1, u64::MAX])) } else { None });
    j["include_stats"] = json!(r.bool());
    for k in ["event_type", "unit_name"] {
        j[k] = json!(if r.bool() { Some(String::from_utf8_lossy(&gen_text(r, 12)).into_owned()) } else { None });
    }
    let f = filters_of(&j);
    c.check(to_json(&f) == j, "filters are written differently", || json!({"want": j, "got": to_json(&f)}));
    trip(c, "filters", &f);
    let id = format!("U{}", r.below(9));
    match serde_json::from_value::<VersionedBalanceUnit>(gen_unit(r, &id)) {
        Ok(u) => trip(c, "balance unit", &u),
        Err(e) => c.fail("balance unit cannot be read", json!({"error": e.to_string()})),
    }
}

fn recorded_case(c: &mut Case, _r: &mut Rng) {
    let all = sample_replays();
    let path = all[(c.seed % all.len() as u64) as usize].clone();
    let Ok(init) = InitData::try_from((path.clone(), 5u64)) else { return };
    trip(c, "InitData", &init);
    if let Ok(d) = Details::try_from(&init) {
        trip(c, "Details", &d);
    }
    if let Ok(l) = Vec::<PlayerLobbyDetails>::try_from(&init) {
        trip_all(c, "PlayerLobbyDetails", &l);
    }
    let Ok(it) = SC2EventIterator::new(&init, HashMap::new()) else { return };
    let mut n = 0u64;
    for item in it {
        n += 1;
        if n % 23 == 0 {
            trip(c, "item", &item);
        }
        if n > 30_000 {
            break;
        }
    }
    c.count("recorded_items", n);
    if let Some(d) = path.parent()
        && let Ok(s) = SC2ReplaysDirStats::from_directory(&d.display().to_string(), true)
    {
        trip(c, "directory statistics", &s);
    }
}

fn builtin_case(c: &mut Case, _r: &mut Rng) {
    if let Ok(all) = read_balance_data_from_included_assets() {
        let mut keys: Vec<_> = all.keys().cloned().collect();
        keys.sort();
        for k in keys.iter().step_by(7) {
            trip(c, "balance unit", &all[k]);
        }
    }
}

pub fn e05(run: &mut Run) {
    run.rule("distinct values written as JSON text, read back from text, from a JSON value and from a reader, and compared by everything they show; iterations stored half way and resumed");
    run.assume("the version number of a balance unit is kept in the key of its map, not in its JSON");
    for (k, n) in [
        ("tracker event", 3_000), ("game event", 1_500), ("InitData", 500), ("Details", 300), ("PlayerLobbyDetails", 300), ("row.details", 300), ("row.users", 1_000),
        ("row.stats", 30), ("row.upgrades", 30), ("row.unit_born", 300), ("row.unit_died", 100), ("row.cmd_target_point", 10), ("row.cmd_target_unit", 10),
        ("item", 4_000), ("state", 100), ("unit", 100), ("filters", 300), ("balance unit", 1_000), ("directory statistics", 1),
    ] {
        run.need(&format!("values.{k}"), n);
    }
    run.need("iterations_resumed", 100);
    run.need("items_after_resuming", 1_000);
    run.part("events", 1_500, 8.0, event_case);
    run.part("replays", 160, 10.0, replay_case);
    run.part("metadata", 500, 8.0, metadata_case);
    run.part("other values", 400, 4.0, other_case);
    run.part("recordings", 4, 8.0, recorded_case);
    run.part("built-in balance data", 1, 6.0, builtin_case);
}
