//! Expected typed (version independent) values, as JSON, from the value trees of the wire schema.
use crate::schema::*;
use crate::synth::*;
use serde_json::{Map, Value, json};

/// Game event kinds the library surfaces.
pub const GAME_KINDS: &[&str] = &[
    "EDropUser",
    "ECameraSave",
    "ECmd",
    "ESelectionDelta",
    "EControlGroupUpdate",
    "ESelectionSyncCheck",
    "ETriggerChatMessage",
    "EUnitClick",
    "EUnitHighlight",
    "ETriggerReplySelected",
    "ECameraUpdate",
    "ETriggerMouseClicked",
    "ETriggerMouseMoved",
    "ETriggerHotkeyPressed",
    "ETriggerTargetModeUpdate",
    "ETriggerKeyPressed",
    "ETriggerMouseWheel",
    "ETriggerButtonPressed",
    "ECommandManagerState",
    "ECmdUpdateTargetPoint",
    "ECmdUpdateTargetUnit",
];

fn texts_ok(v: &V) -> bool {
    // only used for tracker events, where every blob is a text
    match v {
        V::Bytes(b) => std::str::from_utf8(b).is_ok(),
        V::List(l) => l.iter().all(texts_ok),
        V::Struct(f) => f.iter().all(|x| texts_ok(&x.1)),
        V::Variant(_, Some(p)) => texts_ok(p),
        V::Opt(Some(p)) => texts_ok(p),
        _ => true,
    }
}

/// None: the event can not be surfaced (its name is not a text).
pub fn tracker_event(ev: &V) -> Option<Value> {
    let kind = ev.variant();
    let name = &kind[1..];
    let p = ev.payload();
    let mut j = byta().plain_t(&T::Ref(payload_type(kind)), p, true);
    match kind {
        "EPlayerStats" => {
            let stats = p.get("m_stats");
            let mut m = Map::new();
            if let V::Struct(f) = stats {
                for (n, v) in f {
                    let key = n.strip_prefix("m_score_value_").unwrap_or(n);
                    let mut val = v.int();
                    if key == "food_used" || key == "food_made" {
                        val /= 4096;
                    }
                    m.insert(key.to_string(), num(val));
                }
            }
            j = json!({"player_id": num(p.get("m_player_id").int()), "stats": m});
        }
        "EUpgrade" => {
            j["player_name"] = Value::Null;
            let b = p.get("m_upgrade_type_name").bytes();
            if std::str::from_utf8(b).is_err() {
                j["upgrade_type_name"] = json!(format!("{b:?}"));
            }
            return Some(json!({name: j}));
        }
        "EPlayerSetup" => {
            let t = j["type"].clone();
            j.as_object_mut().unwrap().remove("type");
            j["m_type"] = t;
        }
        _ => {}
    }
    if !texts_ok(ev) {
        return None;
    }
    Some(json!({name: j}))
}

fn payload_type(kind: &str) -> String {
    for (_, n, t) in byta().variants("ReplayTrackerEEventId") {
        if n == kind
            && let Some(T::Ref(r)) = t
        {
            return r.clone();
        }
    }
    panic!("harness: tracker kind {kind}")
}

/// None: not surfaced.
pub fn game_event(g: Gen, ev: &V) -> Option<Value> {
    let kind = ev.variant();
    if !GAME_KINDS.contains(&kind) {
        return None;
    }
    let name = &kind[1..];
    let proto = bitp(g);
    let (_, _, t) = proto.variants("GameEEventId").iter().find(|x| x.1 == kind).unwrap();
    let p = ev.payload();
    let mut j = proto.plain_t(t.as_ref().unwrap(), p, false);
    match kind {
        "ECmd" => {
            if let Some(a) = j.get_mut("m_abil")
                && a.is_object()
            {
                a["ability"] = json!("");
            }
        }
        "ETriggerTargetModeUpdate" => {
            j["ability"] = json!("");
        }
        "ETriggerChatMessage" => {
            let b = p.get("m_chat_message").bytes();
            if std::str::from_utf8(b).is_err() {
                j["m_chat_message"] = json!(format!("InvalidUTF8({b:?})"));
            }
        }
        _ => {}
    }
    if let Some(o) = j.as_object_mut() {
        // coordinates are named without prefix
        let _ = o;
    }
    Some(json!({name: j}))
}

pub fn message(g: Gen, ev: &V) -> Option<Value> {
    if ev.variant() != "EChat" {
        return None;
    }
    let j = bitp(g).plain("GameSChatMessage", ev.payload(), false);
    if std::str::from_utf8(ev.payload().get("m_string").bytes()).is_err() {
        return None;
    }
    Some(json!({"EChat": j}))
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn observe(v: &V) -> u8 {
    match v.variant() {
        "ENone" => 0,
        "ESpectator" => 1,
        "EReferee" => 2,
        o => panic!("harness: observe {o}"),
    }
}

fn s(v: &V) -> Value {
    json!(v.str())
}

pub fn player_details(p: &V) -> Value {
    let toon = p.get("m_toon");
    let fourcc = toon.get("m_program_id").bytes();
    let c = p.get("m_color");
    json!({
        "name": s(p.get("m_name")),
        "toon": {
            "region": num(toon.get("m_region").int()),
            "program_id": u32::from_be_bytes([fourcc[0], fourcc[1], fourcc[2], fourcc[3]]),
            "realm": num(toon.get("m_realm").int()),
            "id": num(toon.get("m_id").int()),
        },
        "race": s(p.get("m_race")),
        "color": {"a": num(c.get("m_a").int()), "r": num(c.get("m_r").int()), "g": num(c.get("m_g").int()), "b": num(c.get("m_b").int())},
        "control": num(p.get("m_control").int()),
        "team_id": num(p.get("m_team_id").int()),
        "handicap": num(p.get("m_handicap").int()),
        "observe": observe(p.get("m_observe")),
        "result": match p.get("m_result").variant() {
            "EUndecided" => "Undecided",
            "EWin" => "Win",
            "ELoss" => "Loss",
            "ETie" => "Tie",
            o => panic!("harness: result {o}"),
        },
        "working_set_slot_id": opt(p.get("m_working_set_slot_id")),
        "hero": s(p.get("m_hero")),
    })
}

fn opt(v: &V) -> Value {
    match v.opt_int() {
        None => Value::Null,
        Some(i) => num(i),
    }
}

/// Integer inside `Opt<struct-or-int>`.
fn plain_bit(g: Gen, ty: &str, v: &V) -> Value {
    bitp(g).plain(ty, v, true)
}

pub fn details(d: &V) -> Value {
    let players = match d.get("m_player_list") {
        V::Opt(None) => vec![],
        v => v.list().iter().map(player_details).collect(),
    };
    let handles: Vec<String> = match d.get("m_cache_handles") {
        V::Opt(None) => vec![],
        v => v.list().iter().map(|b| hex(b.bytes())).collect(),
    };
    let mods: Vec<String> = match d.get("m_mod_paths") {
        V::Opt(None) => vec![],
        v => v.list().iter().map(|b| b.str()).collect(),
    };
    json!({
        "player_list": players,
        "title": s(d.get("m_title")),
        "difficulty": s(d.get("m_difficulty")),
        "thumbnail": {"file": s(d.get("m_thumbnail").get("m_file"))},
        "is_blizzard_map": byta().plain_t(&T::Bool, d.get("m_is_blizzard_map"), true),
        "time_utc": num(d.get("m_time_utc").int()),
        "time_local_offset": num(d.get("m_time_local_offset").int()),
        "restart_as_transition_map": match d.get("m_restart_as_transition_map") {
            V::Opt(None) => Value::Null,
            V::Opt(Some(b)) => json!(**b == V::Bool(true)),
            _ => Value::Null,
        },
        "disable_recover_game": json!(*d.get("m_disable_recover_game") == V::Bool(true)),
        "description": s(d.get("m_description")),
        "image_file_path": s(d.get("m_image_file_path")),
        "campaign_index": num(d.get("m_campaign_index").int()),
        "map_file_name": s(d.get("m_map_file_name")),
        "cache_handles": handles,
        "mini_save": json!(*d.get("m_mini_save") == V::Bool(true)),
        "game_speed": &d.get("m_game_speed").variant()[1..],
        "default_difficulty": num(d.get("m_default_difficulty").int()),
        "mod_paths": mods,
    })
}

fn game_speed(v: &V) -> u8 {
    match v.variant() {
        "ESlower" => 0,
        "ESlow" => 1,
        "ENormal" => 2,
        "EFast" => 3,
        "EFaster" => 4,
        o => panic!("harness: speed {o}"),
    }
}

pub fn user_initial(g: Gen, u: &V) -> Value {
    let mut j = plain_bit(g, "SUserInitialData", u);
    j["race_preference"] = opt_in(u.get("m_race_preference"), "m_race");
    j["team_preference"] = opt_in(u.get("m_team_preference"), "m_team");
    j["observe"] = json!(observe(u.get("m_observe")));
    if let V::Opt(Some(b)) = u.get("m_clan_logo") {
        j["clan_logo"] = json!(b.bytes());
    }
    j
}

fn opt_in(v: &V, f: &str) -> Value {
    opt(v.get(f))
}

pub fn slot(g: Gen, v: &V) -> Value {
    let mut j = plain_bit(g, "GameSLobbySlot", v);
    j["color_pref"] = opt_in(v.get("m_color_pref"), "m_color");
    j["race_pref"] = opt_in(v.get("m_race_pref"), "m_race");
    j["observe"] = json!(observe(v.get("m_observe")));
    if g == Gen::P75689 {
        // not part of the older layout
        for k in ["brutal_plus_difficulty", "a_c_enemy_race", "a_c_enemy_wave_type", "selected_commander_prestige"] {
            j[k] = json!(0);
        }
        j["retry_mutation_indexes"] = json!([]);
    }
    j
}

/// Lobby data without the metadata of the file.
pub fn init_data(g: Gen, v: &V) -> Value {
    let ls = v.get("m_sync_lobby_state");
    let users: Vec<Value> = ls.get("m_user_initial_data").list().iter().map(|u| user_initial(g, u)).collect();
    let gd = ls.get("m_game_description");
    let mut d = plain_bit(g, "GameSGameDescription", gd);
    d["game_speed"] = json!(game_speed(gd.get("m_game_speed")));
    d["cache_handles"] = Value::Array(gd.get("m_cache_handles").list().iter().map(|b| json!(hex(b.bytes()))).collect());
    let st = ls.get("m_lobby_state");
    let mut l = plain_bit(g, "GameSLobbyState", st);
    l["slots"] = Value::Array(st.get("m_slots").list().iter().map(|x| slot(g, x)).collect());
    json!({"sync_lobby_state": {"user_initial_data": users, "game_description": d, "lobby_state": l}})
}

/// (absolute loop, typed event) of every surfaced event.
pub fn tracker_stream(evs: &[TEv]) -> Vec<(i64, Value)> {
    let mut l = 0i64;
    let mut out = vec![];
    for e in evs {
        l += e.delta as i64;
        if let Some(j) = tracker_event(&e.ev) {
            out.push((l, j));
        }
    }
    out
}

pub fn game_stream(g: Gen, evs: &[GEv]) -> Vec<(i64, u8, Value)> {
    let mut l = 0i64;
    let mut out = vec![];
    for e in evs {
        l += e.delta as i64;
        if let Some(j) = game_event(g, &e.ev) {
            out.push((l, e.user, j));
        }
    }
    out
}
