//! R01, R02, E03, E04: files and directories.
use crate::mpq;
use crate::props::decode::{TmpDir, gen_delta, gen_tracker_event, sample_replays, to_json};
use crate::props::hostile::mutate;
use crate::report::{Case, Run, guard};
use crate::rng::{Rng, fnv};
use crate::scen::*;
use crate::schema::*;
use crate::sha::*;
use crate::synth::*;
use crate::typed;
use s2protocol::details::{Details, PlayerLobbyDetails, PlayerLobbyDetailsFlatRow};
use s2protocol::dir_stats::{SC2ReplaysDirStats, scan_path, try_read_init_data};
use s2protocol::init_data::UserInitDataFlatRow;
use s2protocol::{InitData, SC2EventIterator, get_matching_files};
use serde_json::{Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

/// A replay with a handful of events that need no scenario.
pub fn simple_replay(r: &mut Rng) -> (Replay, Vec<Player>) {
    let build = pick_build(r);
    let n = r.below(7);
    let (mut rep, players) = gen_world(r, build, n);
    let o = GenOpts::default();
    let evs: Vec<TEv> = (0..r.below(6)).map(|_| TEv { delta: gen_delta(r), ev: gen_tracker_event(r, &o) }).collect();
    rep.tracker = enc_tracker(&evs, r).0;
    (rep, players)
}

// ------------------------------------------------------------------ R01

/// What has to be an error.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Bad {
    /// the file can not be opened as an archive
    File,
    /// no usable header or lobby data
    Init,
    Details,
    Events,
    /// anything but a crash
    Any,
}

/// A damaged file of one kind. None: something that is not a file at all.
fn damaged(r: &mut Rng) -> (&'static str, Bad, Option<Vec<u8>>) {
    let (mut rep, _) = simple_replay(r);
    let cut = |b: Vec<u8>, r: &mut Rng| {
        let n = b.len() * r.below(40) / 100;
        b[..n].to_vec()
    };
    let k = r.below(24);
    match k {
        0 => ("empty", Bad::File, Some(vec![])),
        1 => {
            let n = 1 + r.below(600);
            ("random bytes", Bad::File, Some(r.bytes(n)))
        }
        2 => ("text", Bad::File, Some(b"<html>not a replay</html>\n".repeat(r.below(30)))),
        3 => ("missing", Bad::File, None),
        4 => ("no user data", Bad::Init, {
            rep.no_user_data = true;
            Some(rep.bytes(r))
        }),
        5 => ("other signature", Bad::Init, {
            let mut s = SIGNATURE.to_vec();
            let i = r.below(s.len());
            match r.below(4) {
                0 => s.truncate(i),
                1 => s.push(0),
                2 => s = vec![],
                _ => s[i] ^= 1 << r.below(8),
            }
            rep.header.set("m_signature", V::Bytes(s));
            Some(rep.bytes(r))
        }),
        6 => ("no header", Bad::Init, Some(rep.bytes_with_header(&[], r))),
        7 => ("cut header", Bad::Init, {
            let h = rep.header_bytes(r);
            let h = cut(h, r);
            Some(rep.bytes_with_header(&h, r))
        }),
        8 => ("damaged header", Bad::Any, {
            let h = mutate(&rep.header_bytes(r), r);
            Some(rep.bytes_with_header(&h, r))
        }),
        9 | 10 => ("no init data", Bad::Init, {
            rep.drop_sections.push("replay.initData");
            Some(rep.bytes(r))
        }),
        11 => ("no details", Bad::Details, {
            rep.drop_sections.push("replay.details");
            Some(rep.bytes(r))
        }),
        12 => ("no tracker events", Bad::Events, {
            rep.drop_sections.push("replay.tracker.events");
            Some(rep.bytes(r))
        }),
        13 => ("no game events", Bad::Events, {
            rep.drop_sections.push("replay.game.events");
            Some(rep.bytes(r))
        }),
        14 | 15 => {
            let name = if k == 14 { "replay.initData" } else { "replay.details" };
            let full = rep.sections(&mut r.clone()).into_iter().find(|s| s.0 == name).unwrap().1;
            let b = cut(full, r);
            rep.raw.push((name, b));
            if k == 14 { ("cut init data", Bad::Init, Some(rep.bytes(r))) } else { ("cut details", Bad::Details, Some(rep.bytes(r))) }
        }
        16 => ("empty init data", Bad::Init, {
            rep.raw.push(("replay.initData", vec![]));
            Some(rep.bytes(r))
        }),
        17 => ("empty details", Bad::Details, {
            rep.raw.push(("replay.details", vec![]));
            Some(rep.bytes(r))
        }),
        18 => ("damaged details", Bad::Any, {
            let full = rep.sections(&mut r.clone()).into_iter().find(|s| s.0 == "replay.details").unwrap().1;
            rep.raw.push(("replay.details", mutate(&full, r)));
            Some(rep.bytes(r))
        }),
        19 => ("damaged init data", Bad::Any, {
            let full = rep.sections(&mut r.clone()).into_iter().find(|s| s.0 == "replay.initData").unwrap().1;
            rep.raw.push(("replay.initData", mutate(&full, r)));
            Some(rep.bytes(r))
        }),
        20 => ("random events", Bad::Any, {
            let (a, b) = (r.below(60), r.below(60));
            rep.raw.push(("replay.tracker.events", r.bytes(a)));
            rep.raw.push(("replay.game.events", r.bytes(b)));
            Some(rep.bytes(r))
        }),
        21 => ("no sections", Bad::Init, Some(mpq::archive(Some(&rep.header_bytes(r)), &[]))),
        22 => ("wrong magic", Bad::File, {
            let mut b = rep.bytes(r);
            b[r.below(3)] ^= 0x40;
            Some(b)
        }),
        _ => ("other archive", Bad::Init, Some(mpq::archive(None, &[("MapInfo", b"x".to_vec()), ("replay.details", vec![5, 0])]))),
    }
}

/// Every reader on one path. Returns what succeeded: archive, lobby, details, joined, events.
fn read_all(path: &Path) -> [bool; 5] {
    let p = path.to_path_buf();
    let s = path.to_string_lossy().to_string();
    let mut ok = [false; 5];
    if let Ok((m, b)) = s2protocol::read_mpq(&s) {
        ok[0] = true;
        let _ = s2protocol::read_protocol_header(&m);
        let _ = s2protocol::versions::read_details(&s, &m, &b);
        let _ = s2protocol::versions::read_init_data(&s, &m, &b);
        let _ = s2protocol::versions::read_message_events(&s, &m, &b);
        let _ = s2protocol::versions::read_tracker_events(&s, &m, &b);
        let _ = s2protocol::versions::read_game_events(&s, &m, &b);
    }
    let a = InitData::try_from((p.clone(), 3u64));
    let b = try_read_init_data(&p, 3);
    if a.is_ok() != b.is_ok() && path.to_str().is_some() {
        panic!("the two readers of lobby data disagree: {a:?}");
    }
    if let Ok(init) = a {
        ok[1] = true;
        ok[2] = Details::try_from(&init).is_ok();
        ok[3] = Vec::<PlayerLobbyDetails>::try_from(&init).is_ok();
        if let Ok(it) = SC2EventIterator::new(&init, HashMap::new()) {
            ok[4] = true;
            it.take(500).for_each(drop);
        }
    }
    ok
}

fn odd_case(c: &mut Case, r: &mut Rng) {
    let dir = TmpDir::new();
    let (what, bad, bytes) = damaged(r);
    let mut path = dir.0.join(format!("f{}.SC2Replay", r.below(100)));
    let mut what = what.to_string();
    match &bytes {
        Some(b) => {
            std::fs::write(&path, b).expect("harness: write");
            c.seen(fnv(b));
        }
        None => match r.below(3) {
            0 => {}
            1 => {
                std::fs::create_dir(&path).expect("harness: dir");
                what = "directory".into();
            }
            _ => {
                path = path.join("below").join("x.SC2Replay");
                what = "missing folder".into();
            }
        },
    }
    c.count(&format!("damage.{what}"), 1);
    let ok = read_all(&path);
    c.count("readers_refused", ok.iter().filter(|x| !**x).count() as u64);
    let must_fail: &[usize] = match bad {
        Bad::File => &[0, 1, 2, 3, 4],
        Bad::Init => &[1, 2, 3, 4],
        Bad::Details => &[2, 3, 4],
        Bad::Events => &[4],
        Bad::Any => &[],
    };
    for i in must_fail {
        let names = ["archive", "lobby data", "details", "player list", "events"];
        c.check(!ok[*i], &format!("{} read from a damaged file", names[*i]), || json!({"damage": what, "succeeded": ok}));
    }
    // what is not damaged still reads
    let must_work: &[usize] = match bad {
        Bad::Details => &[0, 1],
        Bad::Events => &[0, 1, 2, 3],
        _ => &[],
    };
    for i in must_work {
        let names = ["archive", "lobby data", "details", "player list", "events"];
        c.check(ok[*i], &format!("{} not read although intact", names[*i]), || json!({"damage": what, "succeeded": ok}));
    }
}

/// File names that are not text.
fn name_case(c: &mut Case, r: &mut Rng) {
    let dir = TmpDir::new();
    let (rep, _) = simple_replay(r);
    let bytes = rep.bytes(r);
    let mut name = vec![b'a'; r.below(3)];
    name.extend([0xff, 0xfe, 0xc3][r.below(3)..].iter());
    name.extend(b".SC2Replay");
    let path = dir.0.join(OsString::from_vec(name));
    std::fs::write(&path, &bytes).expect("harness: write");
    c.seen(fnv(&bytes));
    c.count("names_not_text", 1);
    read_all(&path);
    let good = dir.0.join("good.SC2Replay");
    std::fs::write(&good, &bytes).expect("harness: write");
    for serial in [false, true] {
        let s = scan_path(dir.0.to_str().unwrap(), &HashMap::new(), serial);
        c.check(s.as_ref().is_ok_and(|s| s.total_files == 2 && s.total_supported_replays >= 1), "directory with an odd file name", || json!({"got": format!("{s:?}")}));
    }
}

/// The identity of a replay within exported rows: digest of the file content.
pub fn by_file(rows: &[Value], ids: &HashMap<u64, String>) -> BTreeMap<String, Vec<Value>> {
    let mut out: BTreeMap<String, Vec<Value>> = BTreeMap::new();
    for row in rows {
        let mut row = row.clone();
        let id = row["ext_fs_id"].as_u64().unwrap_or(u64::MAX);
        row["ext_fs_id"] = Value::Null;
        out.entry(ids.get(&id).cloned().unwrap_or_else(|| format!("unknown id {id}"))).or_default().push(row);
    }
    out
}

/// Healthy replays alone and among damaged ones.
fn batch_case(c: &mut Case, r: &mut Rng) {
    let dir = TmpDir::new();
    let (mixed, clean) = (dir.0.join("mixed"), dir.0.join("clean"));
    for d in [&mixed, &clean] {
        std::fs::create_dir_all(d.join("sub")).expect("harness: dir");
    }
    let o = Opts { steps: 30, ..Default::default() };
    let mut good = vec![];
    let mut balance = HashMap::new();
    for i in 0..1 + r.below(4) {
        let sc = gen_scen(r, &o);
        balance.extend(sc.balance.all.clone());
        let name = format!("{}g{i}.SC2Replay", if r.chance(1, 3) { "sub/" } else { "" });
        let bytes = sc.rep.bytes(r);
        for d in [&mixed, &clean] {
            std::fs::write(d.join(&name), &bytes).expect("harness: write");
        }
        good.push(name);
    }
    let mut kinds = vec![];
    let mut unreadable = 0;
    for i in 0..1 + r.below(5) {
        let (what, bad, bytes) = damaged(r);
        let name = format!("{}{}{i}.SC2Replay", if r.chance(1, 3) { "sub/" } else { "" }, *r.pick(&["a", "z", "h"]));
        match bytes {
            Some(b) => std::fs::write(mixed.join(&name), b).expect("harness: write"),
            None => match r.below(3) {
                0 => std::os::unix::fs::symlink("/nonexistent/x.SC2Replay", mixed.join(&name)).expect("harness: link"),
                1 => std::fs::create_dir(mixed.join(&name)).expect("harness: dir"),
                _ => continue,
            },
        }
        c.count(&format!("batch_damage.{what}"), 1);
        if matches!(bad, Bad::File | Bad::Init) {
            unreadable += 1;
        }
        kinds.push((name, what, bad));
    }
    c.count("batches", 1);
    c.count("unreadable_files_in_batches", unreadable);
    let serial = r.bool();
    let run = |d: &Path, tag: &str| -> Result<BTreeMap<String, BTreeMap<String, Vec<Value>>>, String> {
        let out = dir.0.join(format!("out-{tag}"));
        std::fs::create_dir(&out).expect("harness: dir");
        super::export::snapshot(d, &out, &balance, serial, usize::MAX, 10)
    };
    let (a, b) = (run(&clean, "c"), run(&mixed, "m"));
    let ctx = json!({"good": good, "bad": kinds.iter().map(|k| format!("{} {}", k.0, k.1)).collect::<Vec<_>>(), "serial": serial});
    match (a, b) {
        (Ok(a), Ok(b)) => {
            for (table, files) in &a {
                let other = b.get(table).cloned().unwrap_or_default();
                for (f, rows) in files {
                    let sub = other.get(f).cloned().unwrap_or_default();
                    c.count("rows_of_healthy_replays", rows.len() as u64);
                    // the path of the file is the only thing that differs
                    let norm = |rows: &[Value]| -> Vec<Value> {
                        rows.iter()
                            .map(|x| {
                                let mut x = x.clone();
                                if let Some(o) = x.as_object_mut() {
                                    o.remove("ext_fs_file_name");
                                }
                                x
                            })
                            .collect()
                    };
                    c.check(norm(rows) == norm(&sub), "rows of a healthy replay change among damaged ones", || {
                        json!({"table": table, "file": f, "alone": rows.len(), "among": sub.len(), "ctx": ctx})
                    });
                }
                for f in other.keys() {
                    let n = f.as_str();
                    if files.contains_key(f) {
                        continue;
                    }
                    let bad = kinds.iter().find(|k| n.ends_with(&k.0)).map(|k| k.2);
                    c.check(!matches!(bad, None | Some(Bad::File | Bad::Init)), "rows of a damaged file", || json!({"table": table, "file": f, "ctx": ctx}));
                }
            }
        }
        (Ok(_), Err(e)) => c.fail("a damaged file stops the batch", json!({"error": e, "ctx": ctx})),
        (Err(e), _) => {
            c.count("batches_not_exported", 1);
            c.sample(|| json!({"batch": e}));
        }
    }
    let st = |d: &Path| scan_path(d.to_str().unwrap(), &balance, serial);
    match (st(&clean), st(&mixed)) {
        (Ok(a), Ok(b)) => {
            let readable = kinds.iter().filter(|k| matches!(k.2, Bad::Details | Bad::Events | Bad::Any)).count();
            c.check(
                b.total_supported_replays >= a.total_supported_replays && b.total_supported_replays <= a.total_supported_replays + readable,
                "readable replays counted among damaged ones",
                || json!({"alone": to_json(&a), "among": to_json(&b), "ctx": ctx}),
            );
            if kinds.iter().all(|k| matches!(k.2, Bad::File | Bad::Init)) {
                let mut b2 = to_json(&b);
                b2["total_files"] = to_json(&a)["total_files"].clone();
                c.check(b2 == to_json(&a), "statistics change with damaged files", || json!({"alone": to_json(&a), "among": b2, "ctx": ctx}));
                c.count("statistics_compared", 1);
            }
        }
        (a, Err(e)) => c.fail("a damaged file stops the statistics", json!({"error": e.to_string(), "alone": a.is_ok(), "ctx": ctx})),
        _ => {}
    }
}

/// The archive container itself cut or altered. The container is read by the nom-mpq crate.
fn container_case(c: &mut Case, r: &mut Rng) {
    let bytes = if r.chance(1, 8) {
        let all = sample_replays();
        std::fs::read(&all[r.below(all.len())]).expect("harness: sample")
    } else {
        simple_replay(r).0.bytes(r)
    };
    let dir = TmpDir::new();
    let path = dir.0.join("x.SC2Replay");
    let b = match r.below(4) {
        0 => bytes[..r.below(bytes.len())].to_vec(),
        1 => {
            // one of the numbers of the two archive headers
            let mut b = bytes.clone();
            let base = u32::from_le_bytes(b[8..12].try_into().unwrap()) as usize;
            let at = if r.bool() { 4 + 4 * r.below(3) } else { base + 4 * r.below(8) };
            let v = [0u32, 1, 3, 16, 0x7fff_ffff, 0xffff_ffff, r.next() as u32, r.below(5000) as u32][r.below(8)];
            if at + 4 <= b.len() {
                b[at..at + 4].copy_from_slice(&v.to_le_bytes());
            }
            b
        }
        2 => {
            // the tables at the end
            let mut b = bytes.clone();
            let n = b.len();
            for _ in 0..1 + r.below(6) {
                let i = n - 1 - r.below(160.min(n));
                b[i] ^= 1 << r.below(8);
            }
            b
        }
        _ => mutate(&bytes, r),
    };
    std::fs::write(&path, &b).expect("harness: write");
    c.seen(fnv(&b));
    c.count("damaged_containers", 1);
    match guard(|| read_all(&path)) {
        Ok(ok) => c.count(if ok[0] { "containers_opened" } else { "containers_refused" }, 1),
        Err((loc, msg)) => {
            if let Some(i) = loc.find("/nom-mpq-") {
                // which release it is does not matter
                let f = loc[i + 1..].split_once('/').map(|x| x.1).unwrap_or("?");
                let f = f.split(':').next().unwrap_or("?");
                c.count("panics_in_the_archive_reader", 1);
                c.fail(format!("nom-mpq panics in {f} on a damaged container"), json!({"panic": msg, "at": loc}));
            } else {
                std::panic::resume_unwind(Box::new(format!("{loc}: {msg}")));
            }
        }
    }
}

pub fn r01(run: &mut Run) {
    run.rule("distinct damaged files (24 kinds), damaged containers and directories mixing healthy and damaged files, read by every file level reader and batch operation");
    run.assume("panics inside the third-party archive reader on damaged containers are recorded findings; every other panic is a violation");
    run.need("readers_refused", 2_000);
    run.need("batches", 60);
    run.need("rows_of_healthy_replays", 500);
    run.need("unreadable_files_in_batches", 50);
    run.need("statistics_compared", 10);
    run.need("damaged_containers", 1_000);
    run.need("names_not_text", 20);
    run.part("damaged files", 3_000, 8.0, odd_case);
    run.part("names", 40, 4.0, name_case);
    run.part("batches", 120, 8.0, batch_case);
    run.part("containers", 1_500, 6.0, container_case);
}

// ------------------------------------------------------------------ R02

fn iso(micros: i128) -> String {
    let secs = micros.div_euclid(1_000_000);
    let us = micros.rem_euclid(1_000_000);
    let days = secs.div_euclid(86_400) as i64;
    let s = secs.rem_euclid(86_400);
    let (y, m, d) = civil(days);
    let y = format!("{}{:04}", if y < 0 { "-" } else { "" }, y.unsigned_abs());
    format!("{y}-{m:02}-{d:02}T{:02}:{:02}:{:02}.{us:06}", s / 3600, s / 60 % 60, s % 60)
}

/// chrono prints only the digits that are needed.
pub fn norm_time(v: &Value) -> Option<String> {
    let s = v.as_str()?;
    let s = s.strip_prefix('+').unwrap_or(s);
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    if b.len() > 6 && b[6..].bytes().any(|x| x != b'0') {
        return Some(s.to_string());
    }
    Some(format!("{a}.{b:0<6}").chars().take(a.len() + 7).collect())
}

pub fn want_micros(details: &V) -> i128 {
    let (utc, off) = (details.get("m_time_utc").int(), details.get("m_time_local_offset").int());
    utc / 10 - 11_644_473_600_000_000 - off / 10
}

fn tag_eq(got: &Value, want: &Value, what: &str, c: &mut Case, ctx: &Value) -> bool {
    match subset(want, got, what) {
        None => true,
        Some(d) => {
            c.fail(format!("{what} differ from the file"), json!({"diff": d, "ctx": ctx}));
            false
        }
    }
}

/// (region, extension, hashes) of well formed handles given as hex.
fn handle_parts(handles: &[String]) -> (Value, Value, String, bool) {
    let good = |h: &str| h.len() >= 16 && h.bytes().all(|b| b.is_ascii_hexdigit());
    let chars = |h: &str| -> String { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap() as char).collect() };
    let g: Vec<&String> = handles.iter().filter(|h| good(h)).collect();
    let hashes: Vec<&str> = g.iter().map(|h| &h[16..]).collect();
    let (region, ext) = match g.first() {
        None => (Value::Null, Value::Null),
        Some(h) => (json!(chars(&h[12..16])), json!(chars(&h[..8]))),
    };
    (region, ext, hashes.join(","), g.len() == handles.len())
}

fn row_of(d: &Value, want_handles: bool) -> Value {
    let p = &d["player_details"];
    let mut row = json!({
        "player_name": p["name"], "player_toon_region": p["toon"]["region"], "player_toon_program_id": p["toon"]["program_id"],
        "player_toon_realm": p["toon"]["realm"], "player_toon_id": p["toon"]["id"], "player_race": p["race"],
        "player_color_a": p["color"]["a"], "player_color_r": p["color"]["r"], "player_color_g": p["color"]["g"], "player_color_b": p["color"]["b"],
        "player_control": p["control"], "player_team_id": p["team_id"], "player_observe": p["observe"], "player_result": p["result"],
        "player_working_set_slot_id": p["working_set_slot_id"], "player_hero": p["hero"], "title": d["title"],
        "is_blizzard_map": d["game_description"]["is_blizzard_map"], "time_utc": d["time_utc"], "time_local_offset": d["time_local_offset"],
        "lobby_slot_user_id": d["lobby_slot"]["user_id"], "lobby_slot_observe": d["lobby_slot"]["observe"],
        "lobby_slot_map_size_x": d["game_description"]["map_size_x"], "lobby_slot_map_size_y": d["game_description"]["map_size_y"],
        "ext_fs_sha256": d["ext_fs_sha256"], "ext_fs_file_name": d["ext_fs_file_name"], "ext_fs_id": d["ext_fs_id"], "ext_datetime": d["ext_datetime"],
    });
    if want_handles {
        let handles: Vec<String> = d["cache_handles"].as_array().map(|a| a.iter().map(|h| h.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
        let (region, ext, hashes, all) = handle_parts(&handles);
        if all {
            row["cache_handle_region"] = region;
            row["cache_handle_extension"] = ext;
        }
        row["cache_handles"] = json!(hashes);
    }
    row
}

/// A lobby and details with odd combinations of slots, users, players, dates and handles.
pub fn gen_extreme_replay(r: &mut Rng) -> Replay {
    let build = pick_build(r);
    let n = if r.chance(1, 5) { r.below(14) } else { r.below(9) };
    let (mut rep, _) = gen_world(r, build, n);
    // fewer users than slots, clan tags and ratings
    let mut users: Vec<V> = rep.init.get("m_sync_lobby_state").get("m_user_initial_data").list().to_vec();
    users.truncate(r.below(if users.len() > 16 { 32 } else { 17 }));
    for (i, u) in users.iter_mut().enumerate() {
        u.set("m_name", V::text(&format!("lobby{}x{}", i, r.below(100))));
        if r.bool() {
            u.set("m_clan_tag", V::some(V::text(&[format!("tag{i}"), " ".into(), format!(" t{i} "), "\u{0}<é>".into(), "".into()][r.below(5)])));
        }
    }
    rep.init.set("m_sync_lobby_state.m_user_initial_data", V::List(users));
    // names repeat, map sizes and observers vary
    let mut pl: Vec<V> = match rep.details.get("m_player_list") {
        V::Opt(None) => vec![],
        v => v.list().to_vec(),
    };
    if r.chance(1, 3) {
        for p in pl.iter_mut() {
            p.set("m_name", V::text(*r.pick(&["Same", "Other"])));
        }
    }
    // a full lobby, slot ids over their whole range
    let g = rep.generation();
    let at = "m_sync_lobby_state.m_lobby_state.m_slots";
    let mut slots: Vec<V> = rep.init.get("m_sync_lobby_state").get("m_lobby_state").get("m_slots").list().to_vec();
    let full = r.chance(1, 5);
    if full {
        while slots.len() < 31 {
            let mut s = bitp(g).gen_named("GameSLobbySlot", r, &GenOpts { max_list: 1, ..Default::default() });
            s.set("m_working_set_slot_id", if r.bool() { V::none() } else { V::opt_of(Some(100 + slots.len() as i128)) });
            slots.insert(if r.chance(2, 3) { 0 } else { r.below(slots.len() + 1) }, s);
        }
    }
    if full || r.chance(1, 4) {
        let mut ids: Vec<i128> = (0..256).collect();
        r.shuffle(&mut ids);
        for v in slots.iter_mut().chain(pl.iter_mut()) {
            if let V::Opt(Some(id)) = v.get("m_working_set_slot_id") {
                let id = ids[id.int() as usize % 256];
                v.set("m_working_set_slot_id", V::opt_of(Some(id)));
            }
        }
    }
    rep.init.set(at, V::List(slots));
    if r.chance(1, 6) {
        pl.clear();
    }
    rep.details.set("m_player_list", if pl.is_empty() && r.bool() { V::none() } else { V::some(V::List(pl)) });
    let handles: Vec<V> = (0..r.below(4))
        .map(|_| {
            let mut b = if r.bool() { b"s2ma\0\0EU".to_vec() } else { r.bytes(8) };
            b.extend(r.bytes(32));
            if r.chance(1, 5) {
                let n = [0, 1, 7, 8, 9, 39][r.below(6)];
                b.truncate(n);
            }
            V::Bytes(b)
        })
        .collect();
    rep.details.set("m_cache_handles", if handles.is_empty() && r.bool() { V::none() } else { V::some(V::List(handles)) });
    match r.below(6) {
        0 => {
            // odd microseconds around the epoch and leap days
            let base = *r.pick(&[116_444_736_000_000_000i64, 116_444_736_000_000_000 + 951_782_400 * 10_000_000, 130_000_000_000_000_000, 0]);
            rep.details.set("m_time_utc", V::Int((base + r.range(0, 20_000_000)) as i128));
        }
        1 => {
            rep.details.set("m_time_utc", V::Int(r.range(0, i64::MAX) as i128));
        }
        2 => {
            rep.details.set("m_time_utc", V::Int(116_444_736_000_000_000 + r.range(0, 20_000_000_000_000_000) as i128));
            rep.details.set("m_time_local_offset", V::Int(r.range(-56, 56) as i128 * 9_000_000_000));
        }
        _ => {}
    }
    rep
}

fn identity_case(c: &mut Case, r: &mut Rng) {
    let rep = gen_extreme_replay(r);
    let (build, g) = (rep.build, rep.generation());
    let dir = TmpDir::new();
    let sub = dir.0.join(r.pick(&["a b", "Jügend李", "x.y", "-"]));
    std::fs::create_dir(&sub).expect("harness: dir");
    let path = sub.join(format!("{}{}", r.pick(&["r", "spaced name (2)", "ünï", "a\"b", ".r", " r"]), r.pick(&[".SC2Replay", ".SC2Replay", ".SC2Replay", ".SC2Replay ", "", ".sc2replay\n"])));
    let mut bytes = rep.bytes(r);
    if r.chance(1, 20) {
        // files larger than any buffer, the archive ends before the file does
        let n = [65_536, 200_000, 3 << 20][usize::from(r.chance(1, 2)) + usize::from(r.chance(1, 8))] + r.below(9);
        bytes.extend(r.bytes(n));
        c.count("large_files", 1);
    }
    std::fs::write(&path, &bytes).expect("harness: write");
    c.seen(fnv(&bytes));
    c.count("files", 1);
    let id = r.next();
    let ctx = json!({"build": build, "path": path.to_string_lossy(), "len": bytes.len()});
    c.sample(|| ctx.clone());
    let init = match InitData::try_from((path.clone(), id)) {
        Ok(i) => i,
        Err(e) => {
            c.count("not_opened", 1);
            c.sample(|| json!({"not_opened": trunc(&format!("{e:?}"), 300)}));
            return;
        }
    };
    let name = path.to_str().unwrap();
    let meta = json!({"ext_fs_id": id, "ext_fs_file_name": name, "version": build});
    let ij = to_json(&init);
    if !tag_eq(&ij, &meta, "identity of the lobby data", c, &ctx) {
        return;
    }
    let sha = sha256_hex(&bytes);
    c.check(init.ext_fs_sha256.eq_ignore_ascii_case(&sha), "content hash", || json!({"got": init.ext_fs_sha256, "want": sha, "ctx": ctx}));
    // the other ways to read the same
    if let Ok(o) = try_read_init_data(&path, id) {
        c.check(to_json(&o) == ij, "the two readers of lobby data differ", || ctx.clone());
    }
    if let Ok((m, b)) = s2protocol::read_mpq(name) {
        c.check(b == bytes, "bytes of the file", || ctx.clone());
        if let Ok(o) = InitData::new(name, id, &m, &b) {
            c.check(to_json(&o) == ij, "lobby data of an open archive differs", || ctx.clone());
        }
        if let (Ok(a), Ok(d)) = (Details::new(name, id, &m, &b), Details::try_from(&init)) {
            c.check(to_json(&a) == to_json(&d), "details of an open archive differ", || ctx.clone());
        }
    }
    let Ok(det) = Details::try_from(&init) else {
        c.count("details_not_read", 1);
        return;
    };
    let mut want = typed::details(&rep.details);
    want["ext_fs_id"] = json!(id);
    let dj = to_json(&det);
    if !tag_eq(&dj, &want, "details", c, &ctx) {
        return;
    }
    let when = iso(want_micros(&rep.details));
    let got_when = norm_time(&dj["ext_datetime"]);
    c.check(got_when.as_deref() == Some(&when), "date and time of the match", || {
        json!({"got": dj["ext_datetime"], "want": when, "utc": rep.details.get("m_time_utc").int().to_string(), "offset": rep.details.get("m_time_local_offset").int().to_string()})
    });
    c.count("dates_compared", 1);
    // names of the players proper
    let names: Vec<&Value> = want["player_list"].as_array().unwrap().iter().filter(|p| p["observe"] == 0).map(|p| &p["name"]).collect();
    c.check(json!(det.get_player_names()) == json!(names), "names of the players", || json!({"got": det.get_player_names(), "want": names}));
    // the join
    let li = typed::init_data(g, &rep.init);
    let ls = &li["sync_lobby_state"];
    let mut joined = vec![];
    for p in want["player_list"].as_array().unwrap() {
        let w = &p["working_set_slot_id"];
        let slot = ls["lobby_state"]["slots"].as_array().unwrap().iter().find(|s| !w.is_null() && s["working_set_slot_id"] == *w);
        let Some(slot) = slot else {
            c.count("players_without_slot", 1);
            continue;
        };
        let user = slot["user_id"].as_u64().and_then(|u| ls["user_initial_data"].as_array().unwrap().get(u as usize));
        c.count(if user.is_some() { "players_with_user" } else { "players_without_user" }, 1);
        joined.push(json!({
            "player_details": p, "lobby_slot": slot, "title": want["title"], "game_description": ls["game_description"],
            "time_utc": want["time_utc"], "time_local_offset": want["time_local_offset"],
            "user_init_data_name": user.map_or(json!(""), |u| u["name"].clone()),
            "user_init_data_clan_tag": user.map_or(json!(""), |u| if u["clan_tag"].is_null() { json!("") } else { u["clan_tag"].clone() }),
            "cache_handles": want["cache_handles"], "ext_fs_file_name": name, "ext_fs_id": id,
        }));
    }
    let list = match Vec::<PlayerLobbyDetails>::try_from(&init) {
        Ok(l) => l,
        Err(e) => {
            c.fail("player list not read", json!({"error": e.to_string(), "ctx": ctx}));
            return;
        }
    };
    if list.len() != joined.len() {
        c.fail("number of joined players", json!({"got": list.len(), "want": joined.len(), "ctx": ctx}));
        return;
    }
    for (got, want) in list.iter().zip(&joined) {
        let gj = to_json(got);
        if !tag_eq(&gj, want, "joined player", c, &ctx) {
            return;
        }
        c.check(got.ext_fs_sha256.eq_ignore_ascii_case(&sha), "content hash of a player", || json!({"got": got.ext_fs_sha256}));
        c.check(gj["ext_datetime"] == dj["ext_datetime"], "date of a player", || json!({"got": gj["ext_datetime"]}));
        let row = to_json(&PlayerLobbyDetailsFlatRow::from(got.clone()));
        if !tag_eq(&row, &row_of(&gj, true), "row of a player", c, &ctx) {
            return;
        }
        c.count("player_rows", 1);
    }
    let rows: Vec<UserInitDataFlatRow> = (&init).into();
    let users = ls["user_initial_data"].as_array().unwrap();
    c.check(rows.len() == users.len(), "number of user rows", || json!({"got": rows.len(), "want": users.len()}));
    for (i, (row, u)) in rows.iter().zip(users).enumerate() {
        let want = json!({"ext_fs_id": id, "ext_fs_file_name": name, "ext_fs_sha256": init.ext_fs_sha256, "user_index": i, "name": u["name"],
            "clan_tag": if u["clan_tag"].is_null() { json!("") } else { u["clan_tag"].clone() }, "scaled_rating": u["scaled_rating"]});
        if !tag_eq(&to_json(row), &want, "row of a user", c, &ctx) {
            return;
        }
        c.count("user_rows", 1);
    }
}

/// Rows from details that come from elsewhere (JSON): handles can be any text.
fn handle_case(c: &mut Case, r: &mut Rng) {
    let mut d = to_json(&PlayerLobbyDetails::default());
    let handles: Vec<String> = (0..1 + r.below(4))
        .map(|_| match r.below(5) {
            4 => (0..16 + r.below(70)).map(|_| *r.pick(&['0', '7', 'a', 'F', 'C', '9', 'e'])).collect(),
            0 => String::from_utf8_lossy(&gen_text(r, 60)).into_owned(),
            1 => (0..r.below(80)).map(|_| *r.pick(&['0', '7', 'a', 'F', 'g', 'é', ' '])).collect(),
            2 => format!("73326d6100004555{}", "ab".repeat(r.below(33))),
            _ => {
                let n = r.below(45);
                r.bytes(n).iter().map(|b| format!("{b:02x}")).collect()
            }
        })
        .collect();
    d["cache_handles"] = json!(handles);
    let Ok(p) = serde_json::from_value::<PlayerLobbyDetails>(d.clone()) else { panic!("harness: details from json") };
    let row = to_json(&PlayerLobbyDetailsFlatRow::from(p));
    c.seen(fnv(format!("{handles:?}").as_bytes()));
    c.count("handle_lists", 1);
    let (region, ext, hashes, all) = handle_parts(&handles);
    if all {
        let got = json!([row["cache_handle_region"], row["cache_handle_extension"], row["cache_handles"]]);
        c.check(got == json!([region, ext, hashes]), "row of cache handles", || json!({"got": got, "handles": handles}));
        c.count("well_formed_lists", 1);
    } else {
        // the well formed ones are there, in order
        let got: Vec<&str> = row["cache_handles"].as_str().unwrap_or("").split(',').collect();
        let mut at = 0;
        for h in hashes.split(',').filter(|h| !h.is_empty()) {
            match got[at.min(got.len())..].iter().position(|g| *g == h) {
                Some(i) => at += i + 1,
                None => {
                    c.fail("cache handle lost next to a malformed one", json!({"got": got, "missing": h, "handles": handles}));
                    break;
                }
            }
        }
    }
}

pub fn r02(run: &mut Run) {
    run.rule("distinct replay files with generated lobby and details (permuted and missing slots, absent users, malformed cache handles, odd names and dates); identity, details, joins and rows compared with what was stored");
    run.assume("a slot id is used by at most one slot");
    run.need("files", 1_000);
    run.need("dates_compared", 1_000);
    run.need("player_rows", 1_500);
    run.need("user_rows", 5_000);
    run.need("players_without_slot", 200);
    run.need("players_with_user", 400);
    run.need("players_without_user", 200);
    run.need("handle_lists", 2_000);
    run.need("well_formed_lists", 300);
    run.part("identity", 4_000, 12.0, identity_case);
    run.part("cache handles", 10_000, 3.0, handle_case);
}

// ------------------------------------------------------------------ E03

struct Tree {
    /// reached without a link
    must: Vec<(PathBuf, usize)>,
    /// reached through a link
    may: Vec<(PathBuf, usize)>,
    dirs: Vec<(PathBuf, usize)>,
    secret: Vec<PathBuf>,
    log: Vec<String>,
}

fn gen_tree(r: &mut Rng, root: &Path, outside: &Path) -> Tree {
    let mut t = Tree { must: vec![], may: vec![], dirs: vec![(root.to_path_buf(), 1)], secret: vec![], log: vec![] };
    let names = ["a", "Ladder (2)", "ünï李", "x.y", "SC2Replay", " sp ", "-r", "*", "'q'", "."];
    let mut n = 0;
    for _ in 0..r.below(26) {
        let (d, depth) = t.dirs[r.below(t.dirs.len())].clone();
        n += 1;
        let mut stem = format!("{}{n}", r.pick(&names));
        match r.below(40) {
            0 => stem.push(' '),
            1 => stem.push('.'),
            // almost as long as a name can be
            2 => stem.push_str(&"n".repeat(235 - stem.len())),
            3 => stem.insert(0, '.'),
            4 => stem.push_str(".SC2Replay"),
            _ => {}
        }
        let log = match r.below(16) {
            0..=6 => {
                let p = d.join(format!("{stem}.SC2Replay"));
                std::fs::write(&p, if r.bool() { &b"x"[..] } else { b"" }).expect("harness: file");
                t.must.push((p.clone(), depth));
                p
            }
            // (a path cannot be longer than 4096)
            7 | 8 if stem.len() < 60 || depth < 4 => {
                let p = d.join(if r.chance(1, 3) { format!("{stem}.SC2Replay") } else { stem });
                std::fs::create_dir(&p).expect("harness: dir");
                t.dirs.push((p.clone(), depth + 1));
                p
            }
            9 => {
                // a chain of folders
                let mut p = d.clone();
                if stem.len() > 60 {
                    stem = format!("chain{n}");
                }
                let links = if d.as_os_str().len() < 1_000 && r.chance(1, 6) { 8 + r.below(40) } else { 1 + r.below(4) };
                for k in 0..links {
                    p = p.join(format!("{stem}-{k}"));
                    std::fs::create_dir(&p).expect("harness: dir");
                    t.dirs.push((p.clone(), depth + 1 + k));
                    if links > 4 && (k + 1 == links || r.chance(1, 5)) {
                        let f = p.join("deep.SC2Replay");
                        std::fs::write(&f, b"x").expect("harness: file");
                        t.must.push((f, depth + 1 + k));
                    }
                }
                p
            }
            10 | 11 if r.chance(1, 8) => {
                // almost the extension, and no text
                let ext: [&[u8]; 4] = [b"SC2Replay\xff", b"SC2\xffReplay", b"\xffSC2Replay", b"SC2Replay\xe2\x80"];
                let p = d.join(OsString::from_vec([stem.as_bytes(), b".", *r.pick(&ext)].concat()));
                std::fs::write(&p, b"x").expect("harness: file");
                p
            }
            10 | 11 => {
                let ext = ["sc2replay", "SC2Replay.bak", "SC2ReplayX", "xSC2Replay", "SC2Repla", "txt", "SC2Map", "SC2Replay~"];
                let p = d.join(format!("{stem}.{}", r.pick(&ext)));
                std::fs::write(&p, b"x").expect("harness: file");
                p
            }
            12 => {
                let p = d.join(format!("{stem}.SC2Replay"));
                match r.below(3) {
                    0 => std::os::unix::fs::symlink("/nonexistent/y.SC2Replay", &p).expect("harness: link"),
                    1 => {
                        let q = std::ffi::CString::new(p.to_str().unwrap()).unwrap();
                        assert!(unsafe { libc::mkfifo(q.as_ptr(), 0o600) } == 0, "harness: fifo");
                    }
                    _ => {
                        let _sock = std::os::unix::net::UnixListener::bind(&p);
                    }
                }
                p
            }
            13 => {
                // a linked file
                let p = d.join(format!("{stem}.SC2Replay"));
                std::os::unix::fs::symlink(outside.join("real.SC2Replay"), &p).expect("harness: link");
                t.may.push((p.clone(), depth));
                p
            }
            14 => {
                let mut name = stem.into_bytes();
                name.extend([0xff, 0xc3, b'.']);
                name.extend(b"SC2Replay");
                let p = d.join(OsString::from_vec(name));
                std::fs::write(&p, b"x").expect("harness: file");
                t.must.push((p.clone(), depth));
                p
            }
            _ => {
                // a folder that nobody else may read
                let p = d.join(&stem);
                std::fs::create_dir(&p).expect("harness: dir");
                std::fs::write(p.join("s.SC2Replay"), b"x").expect("harness: file");
                t.secret.push(p.clone());
                p
            }
        };
        t.log.push(log.strip_prefix(root).unwrap().to_string_lossy().into_owned());
    }
    // a folder full of replays
    if r.chance(1, 60) {
        let (d, depth) = t.dirs[r.below(t.dirs.len())].clone();
        let n = if r.chance(1, 25) { 10_001 + r.below(2_000) } else { 200 + r.below(900) };
        for k in 0..n {
            let p = d.join(format!("full{k}.SC2Replay"));
            std::fs::write(&p, b"").expect("harness: file");
            t.must.push((p, depth));
        }
        t.log.push(format!("full: {}", t.must.len()));
    }
    // folders linked from the root, also in a circle
    if t.must.len() < 150 && r.chance(1, 4) {
        let p = root.join(format!("loop{n}"));
        let _ = std::os::unix::fs::symlink(root, &p);
        t.log.push("loop".into());
        let inner: Vec<(PathBuf, usize)> = t.must.iter().map(|(x, d)| (p.join(x.strip_prefix(root).unwrap()), d + 1)).collect();
        // a circle can be followed any number of times
        t.may.push((p, usize::MAX));
        t.may.extend(inner);
    }
    t
}

/// Runs with another user's rights on files; None when that is not possible here.
pub fn as_nobody<T>(f: impl FnOnce() -> T) -> T {
    // per thread, and never undone by other threads
    unsafe {
        libc::setfsgid(65534);
        libc::setfsuid(65534);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    unsafe {
        libc::setfsuid(0);
        libc::setfsgid(0);
    }
    match r {
        Ok(v) => v,
        Err(e) => std::panic::resume_unwind(e),
    }
}

/// A path through the folder linked to the root, without its rounds.
fn around(p: &Path, root: &Path) -> Option<PathBuf> {
    let rel = p.strip_prefix(root).ok()?;
    Some(root.join(rel.iter().skip_while(|x| x.to_str().is_some_and(|x| x.starts_with("loop"))).collect::<PathBuf>()))
}

fn scan_case(c: &mut Case, r: &mut Rng) {
    use std::os::unix::fs::PermissionsExt;
    let dir = TmpDir::new();
    let root = dir.0.join("root");
    let outside = dir.0.join("outside");
    for d in [&root, &outside] {
        std::fs::create_dir(d).expect("harness: dir");
    }
    std::fs::write(outside.join("real.SC2Replay"), b"x").expect("harness: file");
    let t = gen_tree(r, &root, &outside);
    for s in &t.secret {
        std::fs::set_permissions(s, std::fs::Permissions::from_mode(0o000)).expect("harness: mode");
    }
    // the way to the case must be open for the other user
    let mut secret_hidden = false;
    if !t.secret.is_empty() {
        for p in [super::decode::scratch_dir().as_path(), &dir.0] {
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
        }
        secret_hidden = as_nobody(|| std::fs::read_dir(&t.secret[0]).is_err() && std::fs::read_dir(&root).is_ok());
        if !secret_hidden && unsafe { libc::geteuid() } == 0 {
            // all rights: the folders are ordinary ones
            c.count("unreadable_folders_not_possible", 1);
        }
        c.count("trees_with_unreadable_folder", secret_hidden as u64);
    }
    c.count("trees", 1);
    c.seen(fnv(t.log.join("|").as_bytes()));
    c.sample(|| json!({"tree": t.log}));
    let circle = t.may.iter().any(|m| m.1 == usize::MAX);
    let may: BTreeSet<&PathBuf> = t.may.iter().map(|m| &m.0).collect();
    for _ in 0..4 {
        let depth = *r.pick(&[0, 1, 2, 3, 4, 7, 10, 10, 16, 17, 33, 64, 1_000, usize::MAX]);
        let must: BTreeSet<&PathBuf> = t.must.iter().filter(|x| x.1 <= depth).map(|x| &x.0).collect();
        let limit = match r.below(5) {
            0 => 0,
            1 => 1,
            2 => must.len() + r.below(2),
            3 => must.len().saturating_sub(1 + r.below(3)),
            _ => 1_000_000,
        };
        let call = || get_matching_files(root.clone(), limit, depth);
        let got = if secret_hidden { as_nobody(call) } else { call() };
        let ctx = json!({"tree": t.log, "depth": depth, "limit": limit, "must": must.len(), "unreadable": secret_hidden});
        let got = match got {
            Ok(g) => g,
            Err(e) => {
                c.fail("the scan fails", json!({"error": e.to_string(), "ctx": ctx}));
                return;
            }
        };
        c.count("scans", 1);
        c.count("files_found", got.len() as u64);
        let set: BTreeSet<&PathBuf> = got.iter().collect();
        c.check(set.len() == got.len(), "a file found twice", || json!({"got": got, "ctx": ctx}));
        c.check(got.len() <= limit, "more files than asked for", || json!({"got": got.len(), "ctx": ctx}));
        for g in &got {
            let rel = g.strip_prefix(&root).map(|x| x.components().count()).unwrap_or(usize::MAX);
            c.check(rel <= depth, "a file deeper than asked for", || json!({"got": g.to_string_lossy(), "ctx": ctx}));
            let ok = must.contains(g)
                || may.contains(g)
                || (circle && around(g, &root).is_some_and(|x| t.must.iter().any(|m| m.0 == x) || may.contains(&x) || (!secret_hidden && t.secret.iter().any(|s| x.starts_with(s)))))
                || (!secret_hidden && t.secret.iter().any(|s| g.starts_with(s)));
            c.check(ok, "something found that is no replay file", || json!({"got": g.to_string_lossy(), "ctx": ctx}));
        }
        let all = t.must.iter().filter(|x| x.1 <= depth).count() + t.may.iter().filter(|x| x.1 <= depth).count() + if secret_hidden { 0 } else { t.secret.len() };
        if limit >= all && !circle {
            for m in &must {
                c.check(set.contains(m), "a replay file not found", || json!({"missing": m.to_string_lossy(), "ctx": ctx}));
            }
            c.count("complete_scans", 1);
        } else {
            c.check(got.len() >= limit.min(must.len()), "fewer files than asked for although there are more", || json!({"got": got.len(), "ctx": ctx}));
            c.count("limited_scans", 1);
        }
    }
    // single paths
    for (p, _) in t.must.iter().take(2) {
        let got = get_matching_files(p.clone(), 1 + r.below(3), 1 + r.below(3));
        c.check(got.as_ref().is_ok_and(|g| g == &vec![p.clone()]), "a single replay file as source", || json!({"got": format!("{got:?}"), "path": p.to_string_lossy()}));
        c.count("single_files", 1);
    }
    for p in [root.join("nothing.SC2Replay"), root.join("nothing"), PathBuf::new()] {
        let got = get_matching_files(p.clone(), 10, 3);
        c.check(got.as_ref().map_or(true, |g| g.is_empty()), "files found at a path that does not exist", || json!({"got": format!("{got:?}")}));
    }
    let other = outside.join("note.txt");
    std::fs::write(&other, b"x").expect("harness: file");
    let got = get_matching_files(other, 10, 3);
    c.check(got.as_ref().is_ok_and(|g| g.is_empty()), "another file as source", || json!({"got": format!("{got:?}")}));
    for s in &t.secret {
        let _ = std::fs::set_permissions(s, std::fs::Permissions::from_mode(0o755));
    }
}

pub fn e03(run: &mut Run) {
    run.rule("distinct directory trees (nested, look-alike, linked, circular, unreadable and odd entries) scanned with many depth and count limits; results compared with what was created");
    run.assume("entries are not changed during a scan; files reached only through links may or may not be listed");
    run.need("scans", 2_000);
    run.need("files_found", 3_000);
    run.need("complete_scans", 500);
    run.need("limited_scans", 300);
    run.need("single_files", 400);
    run.part("trees", 6_000, 10.0, scan_case);
}

// ------------------------------------------------------------------ E04

struct Want {
    files: usize,
    supported: usize,
    with_balance: usize,
    players: BTreeMap<String, usize>,
    maps: BTreeMap<String, usize>,
}

fn top(m: &BTreeMap<String, usize>) -> Vec<(String, usize)> {
    let mut v: Vec<(String, usize)> = m.iter().map(|(k, n)| (k.clone(), *n)).collect();
    v.sort_by(|a, b| b.1.cmp(&a.1).then(a.0.cmp(&b.0)));
    v
}

/// The ten first by count; entries with equal counts at the cut are interchangeable.
fn top_diff(all: &BTreeMap<String, usize>, got: &[(String, usize)]) -> Option<String> {
    let want = top(all);
    let n = want.len().min(10);
    if got.len() != n {
        return Some(format!("{} entries, expected {n}", got.len()));
    }
    let names: BTreeSet<&String> = got.iter().map(|g| &g.0).collect();
    if names.len() != n {
        return Some("an entry twice".into());
    }
    for (i, g) in got.iter().enumerate() {
        if all.get(&g.0) != Some(&g.1) {
            return Some(format!("{:?} counted {} times, expected {:?}", g.0, g.1, all.get(&g.0)));
        }
        if g.1 != want[i].1 {
            return Some(format!("entry {i} has count {}, expected {}", g.1, want[i].1));
        }
    }
    None
}

fn stats_case(c: &mut Case, r: &mut Rng, files: usize) {
    let dir = TmpDir::new();
    let mut w = Want { files: 0, supported: 0, with_balance: 0, players: BTreeMap::new(), maps: BTreeMap::new() };
    let pool = 1 + r.below(30);
    let maps = 1 + r.below(20);
    let odd = ["", " ", "p0 ", "P0", "李", "p\u{301}", "<sp/>", "&lt;A&gt;<sp/>p1", "A.I. 1 (Elite)"];
    let odd_title = ["", " ", "Map 0", "map 0 ", "map 0 LE", "[ESL] map 0", "地图"];
    let mut balance = HashMap::new();
    let known: Vec<u32> = NEW_BUILDS.iter().chain(OLD_BUILDS).copied().filter(|_| r.bool()).collect();
    for b in &known {
        balance.extend(gen_balance(r, *b).all.into_iter().filter(|(k, _)| known.contains(&k.0)));
    }
    let known: BTreeSet<u32> = balance.keys().map(|k: &(u32, String)| k.0).collect();
    let mut names: Vec<(PathBuf, usize)> = vec![];
    for i in 0..files {
        let sub = match r.below(5) {
            0 => dir.0.join(format!("d{}", r.below(3))),
            1 => dir.0.join("d0/e/f"),
            // the tenth level is the last one that is looked at
            2 if r.chance(1, 4) => dir.0.join(["1/2/3/4/5/6/7/8/9", "1/2/3/4/5/6/7/8", "1/2/3/4/5"][r.below(3)]),
            _ => dir.0.clone(),
        };
        std::fs::create_dir_all(&sub).expect("harness: dir");
        let path = sub.join(format!("{}{i}.SC2Replay", r.pick(&["a", "m", "z"])));
        w.files += 1;
        names.push((path.clone(), i));
        if r.chance(1, 8) {
            let (_, bad, bytes) = damaged(r);
            let (Bad::File | Bad::Init, Some(b)) = (bad, bytes) else {
                std::fs::write(&path, b"").expect("harness: write");
                continue;
            };
            std::fs::write(&path, b).expect("harness: write");
            continue;
        }
        let build = pick_build(r);
        let np = r.below(5);
        let (mut rep, _) = gen_world(r, build, np);
        let mut pl: Vec<V> = rep.details.get("m_player_list").list().to_vec();
        // a crowd
        if !pl.is_empty() && r.chance(1, 25) {
            for k in 0..5 + r.below(40) {
                let p = pl[k % np].clone();
                pl.push(p);
            }
        }
        for p in pl.iter_mut() {
            let name = if r.chance(1, 12) { r.pick(&odd).to_string() } else { format!("p{}", (r.below(pool) * r.below(pool)) / pool.max(1)) };
            p.set("m_name", V::text(&name));
            let k = *r.pick(&["ENone", "ENone", "ENone", "ESpectator", "EReferee"]);
            p.set("m_observe", V::Variant(k.into(), None));
        }
        rep.details.set("m_player_list", V::some(V::List(pl.clone())));
        let title = if r.chance(1, 12) { r.pick(&odd_title).to_string() } else { format!("map {}", r.below(maps)) };
        rep.details.set("m_title", V::text(&title));
        // now and then the same replay many times
        let copies = if i == 0 && r.chance(1, 6) { 60 + r.below(300) } else { 1 };
        w.supported += copies;
        if known.contains(&build) {
            w.with_balance += copies;
        }
        if r.chance(1, 12) {
            rep.drop_sections.push("replay.details");
        } else {
            for p in &pl {
                if p.get("m_observe").variant() == "ENone" {
                    *w.players.entry(p.get("m_name").str()).or_default() += copies;
                }
            }
            *w.maps.entry(rep.details.get("m_title").str()).or_default() += copies;
        }
        let bytes = rep.bytes(r);
        std::fs::write(&path, &bytes).expect("harness: write");
        for k in 1..copies {
            w.files += 1;
            std::fs::write(dir.0.join(format!("copy{k}.SC2Replay")), &bytes).expect("harness: write");
        }
        c.count("copies", copies as u64 - 1);
    }
    // other files
    std::fs::write(dir.0.join("readme.txt"), b"x").expect("harness: write");
    c.count("directories", 1);
    c.count("replays", w.supported as u64);
    c.count("damaged", (w.files - w.supported) as u64);
    c.count("more_than_ten_players", (w.players.len() > 10) as u64);
    c.count("more_than_ten_maps", (w.maps.len() > 10) as u64);
    c.seen(fnv(format!("{:?}{:?}", w.players, w.maps).as_bytes()));
    c.sample(|| json!({"files": w.files, "supported": w.supported, "with_balance": w.with_balance, "players": w.players, "maps": w.maps}));
    let mut first: Option<Value> = None;
    for serial in [true, false, false, true] {
        let threads = 1 + r.below(8);
        let pool = rayon::ThreadPoolBuilder::new().num_threads(threads).build().expect("harness: pool");
        let got = pool.install(|| scan_path(dir.0.to_str().unwrap(), &balance, serial).map_err(|e| e.to_string()));
        let s = match got {
            Ok(s) => s,
            Err(e) => {
                c.fail("the statistics fail", json!({"error": e}));
                return;
            }
        };
        c.count(if serial { "serial_runs" } else { "parallel_runs" }, 1);
        let ctx = json!({"files": w.files, "serial": serial, "threads": threads});
        c.check(s.total_files == w.files, "number of files", || json!({"got": s.total_files, "want": w.files, "ctx": ctx}));
        c.check(s.total_supported_replays == w.supported, "number of readable replays", || json!({"got": s.total_supported_replays, "want": w.supported, "ctx": ctx}));
        c.check(s.ability_supported_replays == w.with_balance, "number of replays with known abilities", || json!({"got": s.ability_supported_replays, "want": w.with_balance, "ctx": ctx}));
        if let Some(d) = top_diff(&w.players, &s.top_10_players) {
            c.fail("most frequent players", json!({"diff": d, "got": s.top_10_players, "ctx": ctx}));
        }
        if let Some(d) = top_diff(&w.maps, &s.top_10_maps) {
            c.fail("most frequent maps", json!({"diff": d, "got": s.top_10_maps, "ctx": ctx}));
        }
        let j = to_json(&s);
        match &first {
            None => first = Some(j),
            Some(f) => {
                c.check(f == &j, "repeated runs differ", || json!({"first": f, "now": j, "ctx": ctx}));
            }
        }
    }
}

/// The same through the entry point that uses the built-in balance data.
fn embedded_case(c: &mut Case, r: &mut Rng) {
    let dir = TmpDir::new();
    let all = sample_replays();
    let embedded = [94137u32, 95248, 95299, 95841, 96592, 96826, 96883];
    let (mut n, mut known, mut unknown) = (0, 0, 0);
    for (i, p) in all.iter().enumerate() {
        let b = std::fs::read(p).expect("harness: sample");
        std::fs::write(dir.0.join(format!("s{i}.SC2Replay")), &b).expect("harness: write");
        let Ok(init) = InitData::try_from((p.clone(), 0u64)) else { continue };
        n += 1;
        known += embedded.contains(&init.version) as usize;
    }
    for (i, b) in [94137u32, 96883, 95000, 75689].iter().enumerate() {
        let (rep, _) = gen_world(r, *b, 2);
        std::fs::write(dir.0.join(format!("g{i}.SC2Replay")), rep.bytes(r)).expect("harness: write");
        n += 1;
        known += embedded.contains(b) as usize;
        unknown += !embedded.contains(b) as usize;
    }
    for serial in [true, false] {
        match SC2ReplaysDirStats::from_directory(dir.0.to_str().unwrap(), serial) {
            Ok(s) => {
                c.check(s.total_supported_replays == n, "readable sample replays", || json!({"got": to_json(&s), "want": n}));
                c.check(s.ability_supported_replays == known, "sample replays with built-in abilities", || json!({"got": s.ability_supported_replays, "want": known}));
            }
            Err(e) => c.fail("statistics of the sample replays fail", json!({"error": e.to_string()})),
        }
    }
    c.count("embedded_runs", 1);
    c.count("embedded_unknown", unknown as u64);
}

pub fn e04(run: &mut Run) {
    run.rule("distinct directories of generated and damaged replays summarised serially and in parallel with 1 to 8 workers; every count compared with what was generated");
    run.assume("which of several equally frequent entries make the cut at ten is free, but the same in every run");
    run.need("directories", 30);
    run.need("replays", 500);
    run.need("damaged", 50);
    run.need("more_than_ten_players", 8);
    run.need("more_than_ten_maps", 3);
    run.need("serial_runs", 60);
    run.need("parallel_runs", 60);
    run.need("embedded_runs", 1);
    run.part("directories", 150, 12.0, |c, r| {
        let n = r.below(60);
        stats_case(c, r, n)
    });
    run.part("built-in balance data", 1, 8.0, embedded_case);
}
