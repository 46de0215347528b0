//! E01, E02: exported rows and Arrow files.
use crate::arrowio;
use crate::model::*;
use crate::props::decode::{TmpDir, sample_replays, to_json};
use crate::props::files::{by_file, norm_time, simple_replay};
use crate::props::state::open;
use crate::report::{Case, Run};
use crate::rng::{Rng, fnv};
use crate::scen::*;
use crate::schema::*;
use crate::synth::*;
use s2protocol::arrow_store::{ArrowIpcTypes, WriteArrowIpcProps};
use s2protocol::details::{PlayerLobbyDetails, PlayerLobbyDetailsFlatRow};
use s2protocol::filters::SC2ReplayFilters;
use s2protocol::game_events::VersionedBalanceUnit;
use s2protocol::{InitData, SC2EventIterator, SC2EventType, get_matching_files};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

pub type Abilities = HashMap<(u32, String), VersionedBalanceUnit>;

pub const TABLES: &[&str] = &["details", "stats", "upgrades", "unit_born", "unit_died", "cmd_target_point", "cmd_target_unit"];

fn kind_of(table: &str) -> ArrowIpcTypes {
    match table {
        "details" => ArrowIpcTypes::Details,
        "stats" => ArrowIpcTypes::Stats,
        "upgrades" => ArrowIpcTypes::Upgrades,
        "unit_born" => ArrowIpcTypes::UnitBorn,
        "unit_died" => ArrowIpcTypes::UnitDied,
        "cmd_target_point" => ArrowIpcTypes::CmdTargetPoint,
        "cmd_target_unit" => ArrowIpcTypes::CmdTargetUnit,
        o => panic!("harness: table {o}"),
    }
}

/// Collected rows of one replay, as JSON.
pub fn collect(table: &str, it: SC2EventIterator) -> Vec<Value> {
    macro_rules! rows {
        ($e:expr) => {
            $e.iter().map(|x| to_json(x)).collect()
        };
    }
    match table {
        "stats" => rows!(it.collect_into_player_stats_flat_rows()),
        "upgrades" => rows!(it.collect_into_upgrades_flat_rows()),
        "unit_born" => rows!(it.collect_into_unit_born_flat_rows()),
        "unit_died" => rows!(it.collect_into_unit_died_flat_rows()),
        "cmd_target_point" => rows!(it.collect_into_game_cmd_target_points_flat_rows()),
        "cmd_target_unit" => rows!(it.collect_into_game_cmd_target_units_flat_rows()),
        o => panic!("harness: table {o}"),
    }
}

// ------------------------------------------------------------------ E01

/// Seconds since the start: loops at 68.58391 milliseconds, computed in f32 by the library.
fn seconds_ok(at: i64, got: &Value) -> bool {
    let Some(g) = got.as_u64() else { return false };
    let exact = at.max(0) as f64 * 68.58391 / 1000.0;
    let (lo, hi) = (exact * (1.0 - 1e-6), exact * (1.0 + 1e-6));
    let cap = |x: f64| x.floor().min(u32::MAX as f64) as u64;
    g >= cap(lo) && g <= cap(hi)
}

/// A predicted row; `ability` may be any of those of the commanded units.
struct Want {
    at: i64,
    row: Value,
    abilities: Option<Vec<String>>,
}

fn tracker_rows(out: &mut BTreeMap<&'static str, Vec<Want>>, e: &TE, h: &MHint) {
    let at = e.at;
    let mut push = |t: &'static str, row: Value| out.get_mut(t).unwrap().push(Want { at, row, abilities: None });
    match e.ev.variant() {
        "EPlayerStats" => {
            let mut row = e.json["PlayerStats"]["stats"].clone();
            row["player_id"] = e.json["PlayerStats"]["player_id"].clone();
            push("stats", row);
        }
        "EUpgrade" => {
            let j = &e.json["Upgrade"];
            push("upgrades", json!({"player_id": j["player_id"], "name": j["upgrade_type_name"], "count": j["count"]}));
        }
        "EUnitBorn" => {
            if let MHint::Registered { unit, creator, .. } = h {
                let j = &e.json["UnitBorn"];
                push(
                    "unit_born",
                    json!({"unit_tag_index": j["unit_tag_index"], "unit_tag_recycle": j["unit_tag_recycle"], "unit_type_name": j["unit_type_name"],
                        "control_player_id": j["control_player_id"], "upkeep_player_id": j["upkeep_player_id"],
                        "x": j["x"].as_f64(), "y": j["y"].as_f64(),
                        "creator_unit_tag_index": j["creator_unit_tag_index"], "creator_unit_tag_recycle": j["creator_unit_tag_recycle"],
                        "creator_unit_type_name": creator.as_ref().map(|c| c.name.clone()), "creator_ability_name": j["creator_ability_name"],
                        "player_name": unit.player}),
                );
            }
        }
        k @ ("EUnitDone" | "EUnitTypeChange") => {
            if let MHint::Registered { unit, creator, .. } = h {
                let j = &e.json[&k[1..]];
                push(
                    "unit_born",
                    json!({"unit_tag_index": j["unit_tag_index"], "unit_tag_recycle": j["unit_tag_recycle"], "unit_type_name": unit.name,
                        "control_player_id": unit.user, "upkeep_player_id": unit.user, "x": unit.pos[0], "y": unit.pos[1],
                        "creator_unit_tag_index": null, "creator_unit_tag_recycle": null,
                        "creator_unit_type_name": creator.as_ref().map(|c| c.name.clone()), "creator_ability_name": unit.creator_ability,
                        "player_name": unit.player}),
                );
            }
        }
        "EUnitDied" => {
            if let MHint::Unregistered { killer, killed } = h {
                let j = &e.json["UnitDied"];
                push(
                    "unit_died",
                    json!({"unit_died_name": killed.name, "unit_tag_index": j["unit_tag_index"], "unit_tag_recycle": j["unit_tag_recycle"],
                        "killer_player_id": j["killer_player_id"], "x": j["x"], "y": j["y"],
                        "unit_killer_name": killer.as_ref().map_or("", |k| &k.name),
                        "killer_unit_tag_index": j["killer_unit_tag_index"], "killer_unit_tag_recycle": j["killer_unit_tag_recycle"]}),
                );
            }
        }
        _ => {}
    }
}

fn game_rows(out: &mut BTreeMap<&'static str, Vec<Want>>, e: &GE, h: &MHint, m: &Model) {
    if e.ev.variant() != "ECmd" {
        return;
    }
    let MHint::Abilities { units, target } = h else { return };
    let j = &e.json["Cmd"];
    let table = match e.ev.payload().get("m_data").variant() {
        "TargetPoint" => "cmd_target_point",
        "TargetUnit" => "cmd_target_unit",
        _ => return,
    };
    let a = &j["m_abil"];
    let mut rows: Vec<Want> = vec![];
    for u in units {
        let mut row = json!({"user_id": e.user, "player_name": m.users.get(&e.user).map(|u| u.name.clone()), "cmd_flags": j["m_cmd_flags"],
            "abil_link": a["m_abil_link"], "abil_cmd_index": a["m_abil_cmd_index"], "sequence": j["m_sequence"], "unit_name": u.name});
        if table == "cmd_target_point" {
            let p = &j["m_data"]["TargetPoint"];
            row["target_point_x"] = p["x"].clone();
            row["target_point_y"] = p["y"].clone();
            row["target_point_z"] = p["z"].clone();
            row["unit_group"] = j["m_unit_group"].clone();
        } else {
            let t = &j["m_data"]["TargetUnit"];
            for (k, f) in [("target_unit_flags", "m_target_unit_flags"), ("tag", "m_tag"), ("snapshot_unit_link", "m_snapshot_unit_link"),
                ("snapshot_control_player_id", "m_snapshot_control_player_id"), ("snapshot_upkeep_player_id", "m_snapshot_upkeep_player_id")]
            {
                row[k] = t[f].clone();
            }
            for k in ["x", "y", "z"] {
                row[format!("snapshot_point_{k}")] = t["m_snapshot_point"][k].clone();
            }
            row["target_unit_name"] = json!(target.as_ref().map_or("", |t| &t.name));
        }
        rows.push(Want { at: e.at, row, abilities: Some(m.enriched_abilities.clone()) });
    }
    out.get_mut(table).unwrap().extend(rows);
}

/// Drives a plain iteration for the order of events and predicts all rows.
/// None: the iteration could not be followed (judged by S01).
fn predict(c: &mut Case, sc: &Scen, it: SC2EventIterator) -> Option<BTreeMap<&'static str, Vec<Want>>> {
    let mut model = Model::new(sc);
    let mut pos = Pos::default();
    let mut out: BTreeMap<&'static str, Vec<Want>> = TABLES[1..].iter().map(|t| (*t, vec![])).collect();
    for item in it {
        match locate(sc, &mut pos, &item, false) {
            Step::Lost(..) => {
                c.count("lost_track", 1);
                return None;
            }
            Step::T(e) => {
                let h = model.tracker(e.at, &e.ev);
                tracker_rows(&mut out, e, &h);
            }
            Step::G(e) => {
                let h = model.game(e.at, e.user, &e.ev);
                game_rows(&mut out, e, &h, &model);
            }
        }
    }
    Some(out)
}

fn judge(c: &mut Case, table: &str, want: &[&Want], got: &[Value], id: u64, ctx: &Value) {
    if want.len() != got.len() {
        c.fail(format!("number of {table} rows"), json!({"got": got.len(), "want": want.len(), "ctx": ctx}));
        return;
    }
    // the units of one command come in any order
    let key = |t: &Value, at: i64| (at, t["sequence"].to_string(), t["user_id"].to_string());
    let mut i = 0;
    while i < want.len() {
        let mut n = 1;
        if want[i].abilities.is_some() {
            while i + n < want.len() && key(&want[i + n].row, want[i + n].at) == key(&want[i].row, want[i].at) {
                n += 1;
            }
        }
        let mut left: Vec<&Want> = want[i..i + n].to_vec();
        for g in &got[i..i + n] {
            let mut first = None;
            let fits = left.iter().position(|w| {
                let mut row = w.row.clone();
                row["ext_replay_loop"] = json!(w.at);
                row["ext_fs_id"] = json!(id);
                let mut d = subset(&row, g, "");
                if d.is_none() && !seconds_ok(w.at, &g["ext_replay_seconds"]) {
                    d = Some(format!("ext_replay_seconds {} at loop {}", g["ext_replay_seconds"], w.at));
                }
                if d.is_none()
                    && let Some(a) = &w.abilities
                    && !a.iter().any(|x| g["ability"] == json!(x))
                {
                    d = Some(format!("ability {} expected one of {a:?}", g["ability"]));
                }
                if first.is_none() {
                    first = d.clone();
                }
                d.is_none()
            });
            match fits {
                Some(k) => {
                    left.remove(k);
                }
                None => {
                    c.fail(format!("{table} row"), json!({"diff": first, "row": i, "of": want.len(), "ctx": ctx}));
                    return;
                }
            }
        }
        i += n;
    }
    c.count(&format!("rows.{table}"), want.len() as u64);
}

fn rows_case(c: &mut Case, r: &mut Rng, o: &Opts) {
    let sc = gen_scen(r, o);
    let dir = TmpDir::new();
    let Some((path, init, it)) = open(c, &sc, &dir, r) else { return };
    let ctx = sc.describe();
    c.seen(sc.hash());
    c.sample(|| ctx.clone());
    let Some(want) = predict(c, &sc, it.clone()) else { return };
    c.count("replays", 1);
    // a window of loops, in some cases
    let last = sc.t.iter().map(|e| e.at).chain(sc.gm.iter().map(|e| e.at)).max().unwrap_or(0);
    let (min, max) = match r.below(4) {
        0 => (Some(r.range(0, last)), None),
        1 => {
            let a = r.range(0, last);
            (Some(a), Some(r.range(a, last)))
        }
        _ => (None, None),
    };
    let mut it = it;
    if min.is_some() {
        c.count("windowed", 1);
        let mut f = to_json(&SC2ReplayFilters::default());
        f["min_loop"] = json!(min);
        f["max_loop"] = json!(max);
        f["include_stats"] = json!(true);
        let Ok(f) = serde_json::from_value::<SC2ReplayFilters>(f) else { panic!("harness: filters") };
        it = it.with_filters(f);
    }
    for t in &TABLES[1..] {
        let w: Vec<&Want> = want[t].iter().filter(|w| min.is_none_or(|m| w.at >= m) && max.is_none_or(|m| w.at <= m)).collect();
        let got = collect(t, it.clone());
        judge(c, t, &w, &got, init.ext_fs_id, &json!({"scenario": ctx, "window": [min, max]}));
    }
    let _ = path;
}

/// The recordings shipped with the repository: rows against the items of the iteration.
fn recorded_case(c: &mut Case, r: &mut Rng) {
    let all = sample_replays();
    let path = all[(c.seed % all.len() as u64) as usize].clone();
    let _ = r;
    let Ok(init) = InitData::try_from((path.clone(), 5u64)) else { return };
    let Ok(it) = SC2EventIterator::new(&init, HashMap::new()) else { return };
    let mut n: BTreeMap<&str, usize> = TABLES[1..].iter().map(|t| (*t, 0)).collect();
    let mut loops: BTreeMap<&str, Vec<i64>> = TABLES[1..].iter().map(|t| (*t, vec![])).collect();
    for item in it.clone() {
        let hint = to_json(&item.change_hint);
        let reg = hint.get("Registered").is_some();
        let add = |t: &'static str, at: i64, k: usize, n: &mut BTreeMap<&str, usize>, l: &mut BTreeMap<&str, Vec<i64>>| {
            *n.get_mut(t).unwrap() += k;
            l.get_mut(t).unwrap().extend(std::iter::repeat_n(at, k));
        };
        match &item.event_type {
            SC2EventType::Tracker { tracker_loop, event } => {
                let j = to_json(event);
                let k = j.as_object().and_then(|o| o.keys().next().cloned()).unwrap_or_default();
                match k.as_str() {
                    "PlayerStats" => add("stats", *tracker_loop, 1, &mut n, &mut loops),
                    "Upgrade" => add("upgrades", *tracker_loop, 1, &mut n, &mut loops),
                    "UnitBorn" | "UnitDone" | "UnitTypeChange" if reg => add("unit_born", *tracker_loop, 1, &mut n, &mut loops),
                    "UnitDied" if hint.get("Unregistered").is_some() => add("unit_died", *tracker_loop, 1, &mut n, &mut loops),
                    _ => {}
                }
            }
            SC2EventType::Game { game_loop, event, .. } => {
                let j = to_json(event);
                let k = hint["Abilities"]["units"].as_array().map_or(0, |a| a.len());
                if !j["Cmd"]["m_data"]["TargetPoint"].is_null() {
                    add("cmd_target_point", *game_loop, k, &mut n, &mut loops);
                } else if !j["Cmd"]["m_data"]["TargetUnit"].is_null() {
                    add("cmd_target_unit", *game_loop, k, &mut n, &mut loops);
                }
            }
        }
    }
    for t in &TABLES[1..] {
        let rows = collect(t, it.clone());
        let got: Vec<i64> = rows.iter().map(|x| x["ext_replay_loop"].as_i64().unwrap_or(-1)).collect();
        c.check(got == loops[t], "rows of a recorded replay", || json!({"table": t, "file": path, "got": got.len(), "want": n[t]}));
        c.count("recorded_rows", rows.len() as u64);
    }
    c.count("recordings", 1);
}

pub fn e01(run: &mut Run) {
    run.rule("distinct synthetic replays exported in all six ways, with and without a window of loops; every row compared with one predicted from the stored events and the reference model");
    run.assume("with several units in one command the ability column names the ability of one of them, and their rows come in any order");
    run.assume("seconds are judged within the rounding of single precision");
    run.need("replays", 800);
    for t in &TABLES[1..] {
        run.need(&format!("rows.{t}"), 500);
    }
    run.need("windowed", 200);
    run.need("recorded_rows", 10_000);
    let o = Opts { steps: 120, ..Default::default() };
    run.part("rows", 1500, 12.0, |c, r| rows_case(c, r, &o));
    let o = Opts { commands: 60, selections: 30, positions: 3, ..Default::default() };
    run.part("commands", 500, 8.0, |c, r| rows_case(c, r, &o));
    run.part("recordings", 8, 8.0, recorded_case);
}

// ------------------------------------------------------------------ E02

fn props(limit: usize, process: usize, depth: usize, min: Option<u32>, max: Option<u32>) -> WriteArrowIpcProps {
    WriteArrowIpcProps { scan_max_files: limit, process_max_files: process, traverse_max_depth: depth, min_version: min, max_version: max }
}

/// Exports a directory and lists the rows by table and file (relative path).
pub fn snapshot(
    dir: &Path,
    out: &Path,
    balance: &Abilities,
    serial: bool,
    limit: usize,
    depth: usize,
) -> Result<BTreeMap<String, BTreeMap<String, Vec<Value>>>, String> {
    let limit = limit.min(1_000_000);
    ArrowIpcTypes::handle_arrow_ipc_cmd(dir.to_path_buf(), out.to_path_buf(), &props(limit, limit, depth, None, None), balance, serial)
        .map_err(|e| e.to_string())?;
    let ids: HashMap<u64, String> = get_matching_files(dir.to_path_buf(), limit, depth)
        .map_err(|e| e.to_string())?
        .iter()
        .enumerate()
        .map(|(i, p)| (i as u64, p.strip_prefix(dir).unwrap_or(p).to_string_lossy().into_owned()))
        .collect();
    let mut res = BTreeMap::new();
    for t in TABLES {
        let f = arrowio::read(&out.join(format!("{t}.arrow"))).map_err(|e| format!("{t}: {e}"))?;
        res.insert(t.to_string(), by_file(&f.rows(), &ids));
    }
    Ok(res)
}

/// Rows as they come back from a file: dates are numbers there.
fn comparable(row: &Value) -> Value {
    let mut row = row.clone();
    if let Some(t) = row.get("ext_datetime") {
        let micros = match t {
            Value::Object(o) => o.get("ns").and_then(|n| n.as_str()).and_then(|n| n.parse::<i128>().ok()).map(|n| n.div_euclid(1000)),
            t => norm_time(t).and_then(|s| parse_iso(&s)),
        };
        row["ext_datetime"] = json!(micros.map(|m| m.to_string()));
    }
    row
}

fn parse_iso(s: &str) -> Option<i128> {
    let (d, t) = s.split_once('T')?;
    let (neg, d) = d.strip_prefix('-').map_or((false, d), |x| (true, x));
    let mut p = d.split('-').map(|x| x.parse::<i64>().ok());
    let (mut y, m, d) = (p.next()??, p.next()??, p.next()??);
    if neg {
        y = -y;
    }
    let (t, us) = t.split_once('.')?;
    let mut p = t.split(':').map(|x| x.parse::<i64>().ok());
    let (h, mi, s) = (p.next()??, p.next()??, p.next()??);
    // days from the civil date
    let a = (14 - m) / 12;
    let yy = y + 4800 - a;
    let mm = m + 12 * a - 3;
    let days = d + (153 * mm + 2) / 5 + 365 * yy + yy.div_euclid(4) - yy.div_euclid(100) + yy.div_euclid(400) - 32045 - 2_440_588;
    Some(((days as i128 * 86_400) + (h * 3600 + mi * 60 + s) as i128) * 1_000_000 + us.parse::<i128>().ok()?)
}

/// What a file must hold: per replay id, rows in order. Checks contiguity.
fn compare_file(c: &mut Case, table: &str, path: &Path, want: &BTreeMap<u64, Vec<Value>>, ctx: &Value) -> Option<Vec<u64>> {
    let f = match arrowio::read(path) {
        Ok(f) => f,
        Err(e) => {
            c.fail("exported file not readable", json!({"table": table, "error": e, "ctx": ctx}));
            return None;
        }
    };
    let declared = kind_of(table).schema();
    let fields = |s: &arrow::datatypes::Schema| s.fields().iter().map(|f| format!("{} {:?} {}", f.name(), f.data_type(), f.is_nullable())).collect::<Vec<_>>();
    c.check(fields(&f.schema) == fields(&declared), "schema of the file", || json!({"table": table, "got": fields(&f.schema), "want": fields(&declared)}));
    let mut order: Vec<u64> = vec![];
    let mut got: BTreeMap<u64, Vec<Value>> = BTreeMap::new();
    for row in f.rows() {
        let id = row["ext_fs_id"].as_u64().unwrap_or(u64::MAX);
        if order.last() != Some(&id) {
            if order.contains(&id) {
                c.fail("rows of a replay are scattered", json!({"table": table, "id": id, "ctx": ctx}));
                return None;
            }
            order.push(id);
        }
        got.entry(id).or_default().push(comparable(&row));
    }
    let keys = |m: &BTreeMap<u64, Vec<Value>>| m.iter().filter(|x| !x.1.is_empty()).map(|x| *x.0).collect::<Vec<_>>();
    if keys(&got) != keys(want) {
        c.fail("replays in the file", json!({"table": table, "got": keys(&got), "want": keys(want), "ctx": ctx}));
        return None;
    }
    for (id, rows) in &got {
        let w = &want[id];
        if rows.len() != w.len() {
            c.fail("number of rows of a replay", json!({"table": table, "got": rows.len(), "want": w.len(), "ctx": ctx}));
            return None;
        }
        for (a, b) in rows.iter().zip(w) {
            let b = comparable(b);
            // both ways: no column is lost and none made up
            let d = subset(&b, a, "").or_else(|| subset(a, &b, ""));
            if let Some(d) = d {
                c.fail("row in the file", json!({"table": table, "diff": d, "ctx": ctx}));
                return None;
            }
        }
        c.count(&format!("file_rows.{table}"), rows.len() as u64);
    }
    Some(order)
}

/// The date column holds nanoseconds in 64 bits; rows it cannot hold are left out.
fn fits_in_nanoseconds(t: &Value) -> bool {
    norm_time(t).and_then(|s| parse_iso(&s)).is_some_and(|us| i64::try_from(us * 1000).is_ok())
}

fn collected(path: &Path, id: u64, balance: &Abilities) -> Option<(InitData, BTreeMap<&'static str, Vec<Value>>)> {
    let init = InitData::try_from((path.to_path_buf(), id)).ok()?;
    let mut m: BTreeMap<&'static str, Vec<Value>> = TABLES.iter().map(|t| (*t, vec![])).collect();
    if let Ok(l) = Vec::<PlayerLobbyDetails>::try_from(&init) {
        let rows = l.into_iter().map(|p| to_json(&PlayerLobbyDetailsFlatRow::from(p)));
        m.insert("details", rows.filter(|r| fits_in_nanoseconds(&r["ext_datetime"])).collect());
    }
    if let Ok(it) = SC2EventIterator::new(&init, balance.clone()) {
        for t in &TABLES[1..] {
            m.insert(t, collect(t, it.clone()));
        }
    }
    Some((init, m))
}

fn arrow_case(c: &mut Case, r: &mut Rng, max_files: usize) {
    let dir = TmpDir::new();
    let src = dir.0.join("src");
    let mut balance: Abilities = HashMap::new();
    let mut n = 1 + r.below(max_files);
    let mut written: Vec<PathBuf> = vec![];
    // mostly damaged ones
    let bad = r.chance(1, 6);
    if bad && r.bool() {
        n += 8 + r.below(20);
    }
    for i in 0..n {
        let sub = match r.below(5) {
            0 => src.join("d"),
            1 => src.join("d/e"),
            _ => src.clone(),
        };
        std::fs::create_dir_all(&sub).expect("harness: dir");
        let p = sub.join(format!("r{i}.SC2Replay"));
        match if bad && r.chance(if n > 8 { 9 } else { 7 }, 10) { 9 * r.below(2) } else { r.below(11) } {
            0 => std::fs::write(&p, b"MPQ").expect("harness: write"),
            // empty, a copy of another one
            9 => std::fs::write(&p, b"").expect("harness: write"),
            10 if i > 0 => {
                std::fs::copy(r.pick(&written), &p).expect("harness: copy");
                c.count("copied_replays", 1);
            }
            1 => {
                // a player list without joined players, or without details
                let build = pick_build(r);
                let np = r.below(2);
                let (mut rep, _) = gen_world(r, build, np);
                if r.bool() {
                    rep.drop_sections.push("replay.details");
                }
                std::fs::write(&p, rep.bytes(r)).expect("harness: write");
            }
            _ => {
                let o = if r.bool() {
                    Opts { steps: 5 + r.below(50), ..Default::default() }
                } else {
                    Opts { steps: 10 + r.below(60), commands: 60, selections: 30, ..Default::default() }
                };
                let sc = gen_scen(r, &o);
                balance.extend(sc.balance.all.clone());
                std::fs::write(&p, sc.rep.bytes(r)).expect("harness: write");
            }
        }
        written.push(p);
    }
    std::fs::write(src.join("notes.txt"), b"x").expect("harness: write");
    // ids of the replays found
    let Ok(all) = get_matching_files(src.clone(), 1_000_000, 10) else { return };
    let versions: BTreeSet<u32> = all.iter().filter_map(|p| InitData::try_from((p.clone(), 0u64)).ok().map(|i| i.version)).collect();
    let versions: Vec<u32> = versions.into_iter().collect();
    let bound = |r: &mut Rng| -> Option<u32> {
        match r.below(5) {
            0 | 1 => None,
            4 if r.chance(1, 3) => Some(*r.pick(&[0, 1, 75_689, 75_690, u32::MAX - 1, u32::MAX])),
            _ if versions.is_empty() => Some(90_000),
            2 => Some(versions[r.below(versions.len())]),
            _ => Some((versions[r.below(versions.len())] as i64 + r.range(-1, 1)) as u32),
        }
    };
    for round in 0..2 {
        let (mut min, mut max) = (bound(r), bound(r));
        let mut scan = 1_000_000;
        let mut process = 1_000_000;
        let mut depth = 10;
        if round == 0 {
            (min, max) = (None, None);
        } else {
            match if bad && r.bool() { 1 } else { r.below(4) } {
                0 => scan = r.below(n + 2),
                1 if r.bool() => process = 1 + r.below(2),
                1 if r.chance(1, 4) => process = 0,
                1 => process = r.below(n + 2),
                2 => depth = r.below(4),
                _ => {}
            }
        }
        let ctx = json!({"files": n, "scan": scan, "process": process, "depth": depth, "min": min, "max": max, "versions": versions});
        let Ok(found) = get_matching_files(src.clone(), scan, depth) else { continue };
        let mut sources: Vec<InitData> = vec![];
        let mut want: BTreeMap<&'static str, BTreeMap<u64, Vec<Value>>> = TABLES.iter().map(|t| (*t, BTreeMap::new())).collect();
        for (i, p) in found.iter().enumerate() {
            if sources.len() >= process {
                break;
            }
            let Some((init, rows)) = collected(p, i as u64, &balance) else { continue };
            if min.is_some_and(|m| init.version < m) || max.is_some_and(|m| init.version > m) {
                c.count("replays_outside_versions", 1);
                continue;
            }
            if min == Some(init.version) || max == Some(init.version) {
                c.count("replays_at_a_version_bound", 1);
            }
            for (t, l) in rows {
                want.get_mut(t).unwrap().insert(i as u64, l);
            }
            sources.push(init);
        }
        c.seen(fnv(format!("{}{:?}", ctx, sources.iter().map(|s| &s.ext_fs_sha256).collect::<Vec<_>>()).as_bytes()));
        c.sample(|| ctx.clone());
        let modes: &[bool] = if round == 0 { &[true, false, false] } else { &[false, true] };
        for (k, serial) in modes.iter().enumerate() {
            let out = dir.0.join(format!("out{round}{k}"));
            std::fs::create_dir(&out).expect("harness: dir");
            let threads = 1 + r.below(8);
            let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("harness: pool");
            let p = props(scan, process, depth, min, max);
            let res = pool.install(|| ArrowIpcTypes::handle_arrow_ipc_cmd(src.clone(), out.clone(), &p, &balance, *serial).map_err(|e| e.to_string()));
            c.count(if *serial { "serial_exports" } else { "parallel_exports" }, 1);
            if sources.is_empty() {
                c.check(res.is_err(), "export of nothing succeeds", || ctx.clone());
                c.count("exports_of_nothing", 1);
                continue;
            }
            if let Err(e) = res {
                c.fail("the export fails", json!({"error": e, "serial": serial, "ctx": ctx}));
                return;
            }
            for t in TABLES {
                let Some(order) = compare_file(c, t, &out.join(format!("{t}.arrow")), &want[t], &json!({"serial": serial, "threads": threads, "ctx": ctx})) else { return };
                if !serial && order.len() > 2 {
                    c.count("parallel_tables", 1);
                    if order.windows(2).any(|w| w[0] > w[1]) {
                        c.count("parallel_tables_out_of_order", 1);
                        c.seen(fnv(format!("order {order:?}").as_bytes()));
                    }
                }
            }
            let mut names: Vec<String> = std::fs::read_dir(&out).unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().into_owned()).collect();
            names.sort();
            c.check(names.len() >= TABLES.len(), "files of a snapshot", || json!({"got": names}));
        }
        if sources.is_empty() {
            continue;
        }
        // the individual exports
        let t = TABLES[r.below(TABLES.len())];
        let serial = r.bool();
        let file = dir.0.join(format!("single{round}.arrow"));
        if r.bool() {
            // overwritten, not appended
            std::fs::write(&file, b"something else that was there before, longer than nothing").expect("harness: write");
        }
        let k = kind_of(t);
        let res = match t {
            "details" => k.handle_details_ipc_cmd(sources.clone(), file.clone()),
            "cmd_target_point" | "cmd_target_unit" => k.handle_game_events(sources.clone(), file.clone(), &balance, serial),
            _ => k.handle_tracker_events(sources.clone(), file.clone(), &balance, serial),
        };
        match res {
            Ok(()) => {
                compare_file(c, t, &file, &want[t], &json!({"single": t, "serial": serial, "ctx": ctx}));
                c.count("single_exports", 1);
            }
            Err(e) => c.fail("a single export fails", json!({"error": e.to_string(), "table": t})),
        }
        if r.chance(1, 3) {
            let file = dir.0.join(format!("once{round}.arrow"));
            match ArrowIpcTypes::Details.handle_read_once_write_all(sources.clone(), file.clone()) {
                Ok(()) => {
                    compare_file(c, "details", &file, &want["details"], &json!({"single": "read once", "ctx": ctx}));
                }
                Err(e) => c.fail("a single export fails", json!({"error": e.to_string(), "table": "read once"})),
            }
        }
        // impossible places
        let file = dir.0.join("file");
        std::fs::write(&file, b"x").expect("harness: write");
        let places: Vec<PathBuf> = vec![dir.0.join("missing"), file.clone(), file.join("below")];
        let place = r.pick(&places).clone();
        let p = props(1_000_000, 1_000_000, 10, None, None);
        let res = ArrowIpcTypes::handle_arrow_ipc_cmd(src.clone(), place.clone(), &p, &balance, serial);
        c.check(res.is_err(), "export to an impossible place succeeds", || json!({"place": place}));
        let bad = [dir.0.clone(), dir.0.join("missing/x.arrow"), file.join("x.arrow")];
        let bad = r.pick(&bad).clone();
        let res = match t {
            "details" => k.handle_details_ipc_cmd(sources.clone(), bad.clone()),
            "cmd_target_point" | "cmd_target_unit" => k.handle_game_events(sources.clone(), bad.clone(), &balance, serial),
            _ => k.handle_tracker_events(sources.clone(), bad.clone(), &balance, serial),
        };
        c.check(res.is_err(), "a single export to an impossible place succeeds", || json!({"place": bad, "table": t}));
        c.count("impossible_places", 2);
        c.check(std::fs::read(&file).ok().as_deref() == Some(b"x"), "an unrelated file changed", || json!({}));
    }
}

/// Many writers of one file at the same time, some of them while the file is held by another.
fn writers_case(c: &mut Case, r: &mut Rng) {
    use arrow::array::{ArrayRef, Int64Array, StructArray};
    use arrow::datatypes::{DataType, Field, Schema};
    use s2protocol::ipc_writer::{close_arrow_mutex_writer, open_arrow_mutex_writer, write_to_arrow_mutex_writer};
    let dir = TmpDir::new();
    let file = dir.0.join("w.arrow");
    let fields: Vec<Field> = ["writer", "batch", "row"].iter().map(|n| Field::new(*n, DataType::Int64, false)).collect();
    let schema = Schema::new(fields.clone());
    let w = open_arrow_mutex_writer(file.clone(), schema).expect("harness: writer");
    let threads = 2 + r.below(7);
    let plans: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            (0..1 + r.below(6))
                .map(|_| match r.below(12) {
                    0 => 0,
                    1 => 1,
                    2 if r.chance(1, 8) => 65_530 + r.below(100_000),
                    _ => 1 + r.below(300),
                })
                .collect()
        })
        .collect();
    let hold = r.chance(1, 2).then(|| r.below(30) as u64);
    let barrier = std::sync::Barrier::new(threads + 1);
    let refused = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        let held = hold.map(|_| w.lock().expect("harness: lock"));
        for (t, plan) in plans.iter().enumerate() {
            let (w, barrier, refused, fields) = (&w, &barrier, &refused, fields.clone());
            s.spawn(move || {
                barrier.wait();
                for (b, n) in plan.iter().enumerate() {
                    let col = |f: &dyn Fn(i64) -> i64| std::sync::Arc::new(Int64Array::from_iter_values((0..*n as i64).map(f))) as ArrayRef;
                    let rows = StructArray::new(fields.clone().into(), vec![col(&|_| t as i64), col(&|_| b as i64), col(&|i| i)], None);
                    let got = write_to_arrow_mutex_writer(w, std::sync::Arc::new(rows), *n);
                    if got != (*n > 0).then_some(*n) {
                        refused.lock().unwrap().push((t, b, *n, got));
                    }
                }
            });
        }
        barrier.wait();
        if let Some(ms) = hold {
            std::thread::sleep(std::time::Duration::from_millis(ms));
            c.count("writers_that_had_to_wait", threads as u64);
        }
        drop(held);
    });
    let ctx = json!({"batches": plans, "held_ms": hold});
    c.sample(|| ctx.clone());
    let refused = refused.into_inner().unwrap();
    c.check(refused.is_empty(), "a batch is not reported as written", || json!({"writer, batch, rows, got": format!("{refused:?}"), "ctx": ctx}));
    if let Err(e) = close_arrow_mutex_writer(w) {
        c.fail("the file can not be closed", json!({"error": e.to_string()}));
        return;
    }
    let f = match arrowio::read(&file) {
        Ok(f) => f,
        Err(e) => {
            c.fail("file of many writers not readable", json!({"error": e}));
            return;
        }
    };
    let mut next = vec![0usize; threads];
    let mut order = vec![];
    for b in f.batches.iter().filter(|b| !b.is_empty()) {
        let id = |k: &str| b[0][k].as_i64().unwrap_or(-1);
        let (t, k) = (id("writer") as usize, id("batch") as usize);
        order.push(t);
        let mixed = b.iter().enumerate().any(|(i, x)| [&x["writer"], &x["batch"], &x["row"]] != [&json!(t), &json!(k), &json!(i)]);
        // empty batches leave nothing behind
        while next.get(t).is_some_and(|n| *n < k && plans[t][*n] == 0) {
            next[t] += 1;
        }
        let ok = !mixed && next.get(t) == Some(&k) && plans[t].get(k) == Some(&b.len());
        c.check(ok, "a batch of one writer differs", || json!({"writer": t, "batch": k, "rows": b.len(), "mixed": mixed, "ctx": ctx}));
        if !ok {
            return;
        }
        next[t] += 1;
        c.count("batches_written", 1);
        c.count("rows_written", b.len() as u64);
        c.count("batches_above_65536", (b.len() > 65_536) as u64);
    }
    let left: Vec<usize> = (0..threads).filter(|t| plans[*t][next[*t]..].iter().any(|n| *n > 0)).collect();
    c.check(left.is_empty(), "batches missing in the file", || json!({"writers": left, "ctx": ctx}));
    c.seen(fnv(format!("{order:?}").as_bytes()));
    c.count("contended_files", 1);
}

/// A replay with more rows than fit in 16 bits.
fn large_case(c: &mut Case, r: &mut Rng) {
    let dir = TmpDir::new();
    let (mut rep, _) = simple_replay(r);
    let o = GenOpts::default();
    let mut ev = byta().gen_variant("ReplayTrackerEEventId", "EUpgrade", r, &o);
    let n = 66_000 + r.below(6_000);
    let evs: Vec<TEv> = (0..n)
        .map(|i| {
            ev.set("m_count", V::Int(i as i128));
            TEv { delta: (i % 3) as u32, ev: ev.clone() }
        })
        .collect();
    rep.tracker = enc_tracker(&evs, r).0;
    let path = dir.0.join("large.SC2Replay");
    std::fs::write(&path, rep.bytes(r)).expect("harness: write");
    let Some((init, mut rows)) = collected(&path, 3, &HashMap::new()) else {
        c.fail("large replay refused", json!({"events": n}));
        return;
    };
    let rows = rows.remove("upgrades").unwrap();
    c.check(rows.len() == n, "rows of a large replay", || json!({"got": rows.len(), "want": n}));
    c.seen(fnv(&rep.tracker));
    for serial in [true, false] {
        let file = dir.0.join(format!("{serial}.arrow"));
        match ArrowIpcTypes::Upgrades.handle_tracker_events(vec![init.clone()], file.clone(), &HashMap::new(), serial) {
            Ok(()) => {
                compare_file(c, "upgrades", &file, &BTreeMap::from([(3, rows.clone())]), &json!({"large": n, "serial": serial}));
                c.count("large_tables", 1);
            }
            Err(e) => c.fail("export of a large replay fails", json!({"error": e.to_string()})),
        }
    }
}

/// The declared schemas name the columns of the rows.
fn schema_case(c: &mut Case, _r: &mut Rng) {
    let dir = TmpDir::new();
    for t in TABLES.iter().copied().chain(["users"]) {
        let s = if t == "users" { ArrowIpcTypes::UserInitData.schema() } else { kind_of(t).schema() };
        let names: BTreeSet<String> = s.fields().iter().map(|f| f.name().clone()).collect();
        c.check(names.len() == s.fields().len() && names.contains("ext_fs_id"), "declared schema", || json!({"table": t, "names": names}));
        c.count("schemas", 1);
    }
    let _ = dir;
}

pub fn e02(run: &mut Run) {
    run.rule("distinct directories of generated replays exported serially and in parallel with 1 to 8 workers, under count, depth and version bounds; every file read back and compared row by row with the rows collected from each replay; distinct parallel orders are counted");
    run.assume("the replays of one file may come in any order; their ids are their positions among the files found");
    run.need("serial_exports", 60);
    run.need("parallel_exports", 80);
    run.need("single_exports", 50);
    run.need("impossible_places", 80);
    run.need("exports_of_nothing", 3);
    run.need("replays_at_a_version_bound", 10);
    run.need("replays_outside_versions", 20);
    run.need("parallel_tables", 150);
    run.need("parallel_tables_out_of_order", 10);
    for t in TABLES {
        run.need(&format!("file_rows.{t}"), 60);
    }
    run.need("contended_files", 100);
    run.need("writers_that_had_to_wait", 200);
    run.need("batches_above_65536", 5);
    run.need("large_tables", 2);
    run.need("copied_replays", 10);
    run.part("schemas", 1, 1.0, schema_case);
    run.part("writers", 400, 4.0, writers_case);
    run.part("large tables", 2, 4.0, large_case);
    run.part("directories", 100, 14.0, |c, r| arrow_case(c, r, 8));
    run.part("many replays", 5, 8.0, |c, r| arrow_case(c, r, 40));
}
