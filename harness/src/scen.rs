//! Scenarios: whole synthetic replays with a plausible (and hostile enough) course of events, plus
//! balance data of several versions.
use crate::rng::Rng;
use crate::schema::*;
use crate::synth::*;
use crate::typed;
use s2protocol::game_events::VersionedBalanceUnit;
use serde_json::{Value, json};
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

pub struct TE {
    pub at: i64,
    pub ev: V,
    pub json: Value,
}
pub struct GE {
    pub at: i64,
    pub user: i64,
    pub ev: V,
    pub json: Value,
}

#[derive(Default, Clone)]
pub struct Balance {
    pub all: HashMap<(u32, String), VersionedBalanceUnit>,
    /// JSON of the units of the replay's own version
    pub own: BTreeMap<String, Value>,
}

pub struct Scen {
    pub build: u32,
    pub g: Gen,
    pub rep: Replay,
    pub players: Vec<Player>,
    pub tracker: Vec<TEv>,
    pub game: Vec<GEv>,
    /// Surfaced events only
    pub t: Vec<TE>,
    pub gm: Vec<GE>,
    pub balance: Balance,
    /// Unit indexes in play
    pub pool: Vec<u32>,
}

pub const UNIT_NAMES: &[&str] = &[
    "Marine", "SCV", "Barracks", "Drone", "Larva", "Egg", "Zergling", "Overlord", "Nexus", "Infestor", "Broodling",
    "MineralField", "MineralField750", "VespeneGeyser", "XelNagaTower", "RichMineralField", "RichMineralField750", "LabMineralField",
    "BeaconArmy", "Probe", "Pylon", "DestructibleDebris6x6", "UnbuildablePlatesDestructible", "Jäger",
    "ZerglingBurrowed", "BanelingCocoon", "SiegeTankSieged", "SupplyDepotLowered", "CommandCenterFlying", "WarpPrismPhasing", "",
    "SupplyDepot", "CommandCenter", "Hatchery", "SpacePlatformGeyser", "LabMineralField750", "MineralField450", "LurkerMPEgg", "marine",
    "DestructibleRockEx1DiagonalHugeBLUR", "Changeling", "LocustMP", "KD8Charge", "OverlordCocoon",
];

pub fn templates() -> &'static BTreeMap<String, Value> {
    static T: OnceLock<BTreeMap<String, Value>> = OnceLock::new();
    T.get_or_init(|| {
        let root = crate::report::repo_dir().join("assets/BalanceData");
        let mut vs: Vec<PathBuf> = std::fs::read_dir(&root).expect("harness: balance assets").filter_map(|e| e.ok()).map(|e| e.path()).collect();
        vs.sort();
        let mut out = BTreeMap::new();
        for n in ["Marine", "SCV", "Barracks", "Armory", "Larva", "Nexus", "BanelingNest", "Probe", "Overlord", "EngineeringBay"] {
            for v in &vs {
                if let Ok(b) = std::fs::read(v.join(format!("{n}.json")))
                    && let Ok(j) = serde_json::from_slice::<Value>(&b)
                {
                    out.insert(n.to_string(), j);
                    break;
                }
            }
        }
        assert!(out.len() >= 8, "harness: balance templates");
        out
    })
}

/// One unit with small ability ids, so that lookups hit and collide.
pub fn gen_unit_json(r: &mut Rng, name: &str) -> Value {
    let t = templates();
    if r.chance(1, 6)
        && let Some(j) = t.get(name)
    {
        return j.clone();
    }
    let mut j = t["Marine"].clone();
    j["@id"] = json!(name);
    let ability = t["Marine"]["abilities"]["ability"][0].clone();
    let command = ability["command"][0].clone();
    let train = t["Barracks"]["trains"]["unit"][0].clone();
    let build = t["SCV"]["builds"]["unit"][0].clone();
    let research = t["Armory"]["researches"]["upgrade"][0].clone();
    let kind = |r: &mut Rng, x: &mut Value| {
        if x["meta"].is_object() && r.chance(1, 3) {
            x["meta"]["@type"] = r.pick(&[json!("passive"), json!("command"), json!("Passive"), Value::Null]).clone();
        }
    };
    let abil = |r: &mut Rng| if r.chance(1, 12) { *r.pick(&[0, 255, 256, 1023, 32767, 32768, 65535]) } else { 1 + r.below(6) };
    let mut abs = vec![];
    for k in 0..1 + r.below(3) {
        let mut a = ability.clone();
        a["@id"] = json!(format!("ab{k}{name}"));
        a["@index"] = if r.chance(1, 8) { Value::Null } else { json!(abil(r)) };
        let mut cmds = vec![];
        for c in 0..r.below(5) {
            let mut x = command.clone();
            x["@id"] = if r.chance(1, 6) { Value::Null } else { json!(if r.chance(1, 12) { r.pick(&["", "Cancel", "Do.1", "None"]).to_string() } else { format!("Do{c}") }) };
            x["@index"] = json!(if r.chance(3, 4) { c } else if r.chance(1, 8) { *r.pick(&[15, 16, 30, 31]) } else { r.below(5) });
            kind(r, &mut x);
            cmds.push(x);
        }
        a["command"] = json!(cmds);
        abs.push(a);
    }
    j["abilities"]["ability"] = json!(abs);
    let entries = |r: &mut Rng, tpl: &Value, what: &str, nullable: bool| -> Vec<Value> {
        (0..r.below(3))
            .map(|k| {
                let mut x = tpl.clone();
                x["@id"] = json!(format!("{what}{k}"));
                x["@ability"] = if nullable && r.chance(1, 6) { Value::Null } else { json!(abil(r)) };
                x["@index"] = if nullable && r.chance(1, 8) { Value::Null } else { json!(r.below(5)) };
                kind(r, &mut x);
                x
            })
            .collect()
    };
    j["trains"] = json!({"unit": entries(r, &train, "Tr", true)});
    j["builds"] = json!({"unit": entries(r, &build, "Bu", true)});
    j["researches"] = if r.chance(1, 3) { Value::Null } else { json!({"upgrade": entries(r, &research, "Re", false)}) };
    j["misc"]["@radius"] = match r.below(16) {
        0..4 => Value::Null,
        4 => json!(r.pick(&[0.0, 0.0009765625, 25.5, 1000.0])),
        _ => json!((1 + r.below(400)) as f64 / 64.0),
    };
    j
}

pub fn gen_balance(r: &mut Rng, build: u32) -> Balance {
    let mut b = Balance::default();
    if r.chance(1, 10) {
        return b;
    }
    let mut names: Vec<&str> = UNIT_NAMES.to_vec();
    if r.bool() {
        r.shuffle(&mut names);
    }
    for n in names.iter().take(1 + r.below(10)) {
        let versions: Vec<u32> = match r.below(4) {
            0 => vec![build],
            1 => vec![build.wrapping_add(1), build],
            2 => vec![build, build.wrapping_sub(1), 95299],
            _ => vec![build.wrapping_add(1), 94137],
        };
        for v in versions {
            let j = gen_unit_json(r, n);
            let u: VersionedBalanceUnit = serde_json::from_value(j.clone()).expect("harness: balance unit");
            b.all.insert((v, n.to_string()), u);
            if v == build {
                b.own.insert(n.to_string(), j);
            }
        }
    }
    b
}

pub fn ability_name(b: &Balance, unit: &str, abil: i128, idx: i128) -> String {
    let Some(u) = b.own.get(unit) else { return String::new() };
    let int = |v: &Value| v.as_i64().map(|x| x as i128);
    let empty = vec![];
    let arr = |v: &'_ Value| -> Vec<Value> { v.as_array().unwrap_or(&empty).clone() };
    for a in arr(&u["abilities"]["ability"]) {
        if int(&a["@index"]) == Some(abil) {
            for c in arr(&a["command"]) {
                if int(&c["@index"]) == Some(idx) {
                    return format!("{}.{}", a["@id"].as_str().unwrap_or(""), c["@id"].as_str().unwrap_or(""));
                }
            }
        }
    }
    for (k, inner, label) in [("trains", "unit", "Train"), ("builds", "unit", "Build"), ("researches", "upgrade", "Research")] {
        for x in arr(&u[k][inner]) {
            if int(&x["@ability"]) == Some(abil) && int(&x["@index"]) == Some(idx) {
                return format!("{label}.{}", x["@id"].as_str().unwrap_or(""));
            }
        }
    }
    String::new()
}

/// All (ability, command) pairs that have a name.
pub fn ability_pairs(b: &Balance) -> Vec<(i128, i128)> {
    let mut out = vec![];
    let int = |v: &Value| v.as_i64().map(|x| x as i128);
    for u in b.own.values() {
        for a in u["abilities"]["ability"].as_array().into_iter().flatten() {
            for c in a["command"].as_array().into_iter().flatten() {
                if let (Some(x), Some(y)) = (int(&a["@index"]), int(&c["@index"])) {
                    out.push((x, y));
                }
            }
        }
        for (k, inner) in [("trains", "unit"), ("builds", "unit"), ("researches", "upgrade")] {
            for x in u[k][inner].as_array().into_iter().flatten() {
                if let (Some(x), Some(y)) = (int(&x["@ability"]), int(&x["@index"])) {
                    out.push((x, y));
                }
            }
        }
    }
    out.retain(|p| p.0 < 65536 && p.1 < 32);
    out
}

pub struct Opts {
    pub steps: usize,
    pub max_players: usize,
    /// bias of the event mix
    pub positions: u32,
    pub commands: u32,
    pub selections: u32,
    pub bad_text: bool,
    pub unsupported: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Self { steps: 90, max_players: 6, positions: 10, commands: 20, selections: 28, bad_text: true, unsupported: true }
    }
}

struct Unit {
    idx: u32,
    recycle: u32,
    alive: bool,
    init: bool,
}

fn weighted(r: &mut Rng, w: &[(u32, &'static str)]) -> &'static str {
    let total: u32 = w.iter().map(|x| x.0).sum();
    let mut k = r.below(total as usize) as u32;
    for (n, s) in w {
        if k < *n {
            return s;
        }
        k -= n;
    }
    unreachable!()
}

pub fn pick_build(r: &mut Rng) -> u32 {
    if r.chance(1, 3) { *r.pick(OLD_BUILDS) } else { *r.pick(NEW_BUILDS) }
}

pub fn gen_scen(r: &mut Rng, o: &Opts) -> Scen {
    let build = pick_build(r);
    gen_scen_build(r, o, build)
}

pub fn gen_scen_build(r: &mut Rng, o: &Opts, build: u32) -> Scen {
    let g = gen_of(build);
    let np = 1 + r.below(o.max_players);
    let (rep, players) = gen_world(r, build, np);
    let balance = gen_balance(r, build);
    // ----- units in play
    let mut idxs: Vec<u32> = vec![];
    // sometimes a whole army, selections and groups are then as large
    let army = r.chance(1, 25);
    let most = if r.chance(1, 4) { 700 } else { 240 };
    for _ in 0..if army { 60 + r.below(most) } else { 4 + r.below(11) } {
        let i = match r.below(6) {
            _ if army => r.below(0x4000) as u32,
            0 => *r.pick(&[0u32, 1, 2, 0x3fff, 0x3ffe, 0x2000, 255, 256]),
            1 => r.below(0x4000) as u32,
            _ => 3 + r.below(40) as u32,
        };
        if !idxs.contains(&i) {
            idxs.push(i);
        }
    }
    let mut units: Vec<Unit> = idxs
        .iter()
        .map(|i| Unit { idx: *i, recycle: *r.pick(&[1u32, 1, 1, 2, 0, 0x1ffff, 0x20000, 0x3fff0]), alive: false, init: false })
        .collect();
    let mut controls: Vec<i128> = players.iter().map(|p| p.tracker_id as i128).collect();
    controls.extend([0, 15, 200, 101, 102]);
    let mut users: Vec<u8> = players.iter().filter_map(|p| p.user_id).collect();
    // mostly players that act, sometimes others
    users.extend(users.clone());
    users.extend(players.iter().filter(|p| p.known()).flat_map(|p| [p.user_id.unwrap(); 4]));
    users.extend([16, 31, 7]);
    let names: Vec<&str> = {
        let mut n: Vec<&str> = balance.own.keys().map(|k| k.as_str()).collect();
        n.extend(balance.own.keys().map(|k| k.as_str()));
        n.extend((0..3).map(|_| *r.pick(UNIT_NAMES)));
        n.extend(balance.own.keys().map(|k| k.as_str()));
        n
    };
    let gen_o = GenOpts { max_list: 5, max_blob: 12, ..Default::default() };
    let bad_o = GenOpts { utf8: false, max_list: 5, max_blob: 12, ..Default::default() };
    let mut tracker = vec![];
    let mut game = vec![];
    let (mut now, mut last_t, mut last_g) = (0i64, 0i64, 0i64);
    let mut next_tid = 100u8;
    // player setups come first in real replays
    let mut setups: Vec<V> = vec![];
    for p in &players {
        if r.chance(5, 6) {
            let mut e = byta().gen_variant("ReplayTrackerEEventId", "EPlayerSetup", r, &gen_o);
            e.set("m_player_id", V::Int(p.tracker_id as i128));
            e.set("m_user_id", V::opt_of(p.user_id.map(|x| x as i128)));
            setups.push(e);
        }
    }
    if r.chance(1, 3) {
        r.shuffle(&mut setups);
    }
    let upfront = r.chance(5, 6);
    if upfront {
        for e in setups.drain(..) {
            tracker.push(TEv { delta: 0, ev: e });
        }
    }
    if army {
        for u in &mut units {
            if r.chance(9, 10) {
                let mut e = byta().gen_variant("ReplayTrackerEEventId", "EUnitBorn", r, &gen_o);
                e.set("m_unit_type_name", V::text(r.pick(&names)));
                e.set("m_unit_tag_index", V::Int(u.idx as i128));
                e.set("m_unit_tag_recycle", V::Int(u.recycle as i128));
                e.set("m_control_player_id", V::Int(*r.pick(&controls)));
                u.alive = true;
                tracker.push(TEv { delta: 0, ev: e });
            }
        }
    }
    let kinds_t: Vec<String> = byta().variants("ReplayTrackerEEventId").iter().map(|k| k.1.clone()).collect();
    let kinds_g: Vec<String> = bitp(g).variants("GameEEventId").iter().map(|k| k.1.clone()).collect();
    let pairs = ability_pairs(&balance);
    let unsupported: Vec<&String> = kinds_g.iter().filter(|k| !typed::GAME_KINDS.contains(&k.as_str())).collect();
    let steps = o.steps / 3 + r.below(o.steps);
    let mut tracker_share = 5u32;
    let only = r.below(24); // a few replays with a single stream or none
    let big = r.chance(1, 12);
    for step in 0..steps {
        if r.chance(1, 12) {
            tracker_share = r.below(11) as u32;
        }
        let is_tracker = match only {
            0 => true,
            1 => false,
            _ => r.chance(tracker_share.max(1), 11),
        };
        now += match r.below(12) {
            0..=3 => 0,
            4..=8 => 1 + r.below(4) as i64,
            9 => r.below(300) as i64,
            10 => r.below(20000) as i64,
            _ if big => [1i64 << 24, (1 << 24) + 1, 0x3fffff, (1 << 30) + 7][r.below(4)],
            _ => 16,
        };
        if is_tracker {
            let delta = now - last_t;
            let delta = if delta > u32::MAX as i64 { continue } else { delta as u32 };
            let ev = if step > 2 && r.chance(1, 8) && !setups.is_empty() {
                setups.pop().unwrap()
            } else {
                gen_tracker_step(r, o, &mut units, &controls, &names, &players, &kinds_t, &gen_o, &bad_o, &mut next_tid)
            };
            tracker.push(TEv { delta, ev });
            last_t = now;
        } else {
            let delta = now - last_g;
            let delta = if delta > u32::MAX as i64 { continue } else { delta as u32 };
            let (user, ev) = gen_game_step(r, o, g, &units, &users, &kinds_g, &unsupported, &gen_o, &pairs);
            game.push(GEv { delta, user, ev });
            last_g = now;
        }
    }
    let mut s = Scen { build, g, rep, players, tracker, game, t: vec![], gm: vec![], balance, pool: idxs };
    s.finish(r);
    s
}

#[allow(clippy::too_many_arguments)]
fn gen_tracker_step(
    r: &mut Rng,
    o: &Opts,
    units: &mut [Unit],
    controls: &[i128],
    names: &[&str],
    players: &[Player],
    kinds: &[String],
    gen_o: &GenOpts,
    bad_o: &GenOpts,
    next_tid: &mut u8,
) -> V {
    if o.bad_text && r.chance(1, 30) {
        let k = r.pick(kinds).clone();
        if ["EUpgrade", "EUnitBorn", "EUnitInit", "EUnitTypeChange"].contains(&k.as_str()) {
            let mut e = byta().gen_variant("ReplayTrackerEEventId", &k, r, bad_o);
            let f = if k == "EUpgrade" { "m_upgrade_type_name" } else { "m_unit_type_name" };
            e.set(f, V::Bytes([b"bad\xff".to_vec(), r.bytes(2)].concat()));
            return e;
        }
    }
    let kind = weighted(
        r,
        &[
            (20, "EUnitBorn"),
            (9, "EUnitInit"),
            (8, "EUnitDone"),
            (9, "EUnitTypeChange"),
            (13, "EUnitDied"),
            (o.positions, "EUnitPosition"),
            (2, "EPlayerSetup"),
            (5, "EUpgrade"),
            (4, "EPlayerStats"),
            (3, "EUnitOwnerChange"),
        ],
    );
    let mut e = byta().gen_variant("ReplayTrackerEEventId", kind, r, gen_o);
    let n = units.len();
    let pick = |r: &mut Rng, units: &[Unit], f: &dyn Fn(&Unit) -> bool| -> usize {
        let v: Vec<usize> = (0..n).filter(|i| f(&units[*i])).collect();
        if v.is_empty() || r.chance(1, 10) { r.below(n) } else { *r.pick(&v) }
    };
    // some unit, alive most of the time, sometimes one nobody knows
    let other = |r: &mut Rng, units: &[Unit]| -> V {
        match r.below(5) {
            0 => V::none(),
            1 => V::opt_of(Some(r.below(0x4000) as i128)),
            _ => {
                let k = pick(r, units, &|u| u.alive);
                V::opt_of(Some(units[k].idx as i128))
            }
        }
    };
    match kind {
        "EUnitBorn" | "EUnitInit" => {
            let k = if kind == "EUnitBorn" && r.chance(1, 4) { pick(r, units, &|u| u.alive) } else { pick(r, units, &|u| !u.alive) };
            if r.chance(9, 10) {
                e.set("m_unit_type_name", V::text(r.pick(names)));
            }
            e.set("m_unit_tag_index", V::Int(units[k].idx as i128));
            e.set("m_unit_tag_recycle", V::Int(units[k].recycle as i128));
            e.set("m_control_player_id", V::Int(*r.pick(controls)));
            if kind == "EUnitBorn" {
                let c = other(r, units);
                e.set("m_creator_unit_tag_index", c);
            } else {
                units[k].init = true;
            }
            units[k].alive = true;
        }
        "EUnitDone" => {
            let k = pick(r, units, &|u| u.init);
            units[k].init = false;
            e.set("m_unit_tag_index", V::Int(units[k].idx as i128));
            e.set("m_unit_tag_recycle", V::Int(units[k].recycle as i128));
        }
        "EUnitTypeChange" => {
            let k = pick(r, units, &|u| u.alive);
            e.set("m_unit_tag_index", V::Int(units[k].idx as i128));
            e.set("m_unit_tag_recycle", V::Int(units[k].recycle as i128));
            if r.chance(9, 10) {
                e.set("m_unit_type_name", V::text(r.pick(names)));
            }
            units[k].alive = true;
        }
        "EUnitOwnerChange" => {
            let k = pick(r, units, &|u| u.alive);
            e.set("m_unit_tag_index", V::Int(units[k].idx as i128));
            e.set("m_control_player_id", V::Int(*r.pick(controls)));
        }
        "EUnitDied" => {
            let k = pick(r, units, &|u| u.alive);
            e.set("m_unit_tag_index", V::Int(units[k].idx as i128));
            e.set("m_unit_tag_recycle", V::Int(units[k].recycle as i128));
            let killer = other(r, units);
            e.set("m_killer_unit_tag_index", killer);
            if r.chance(1, 2) {
                e.set("m_killer_player_id", V::opt_of(Some(*r.pick(controls))));
            }
            units[k].alive = false;
            units[k].init = false;
            units[k].recycle = (units[k].recycle + 1) & 0x3ffff;
        }
        "EUnitPosition" => {
            let mut l: Vec<u32> = units.iter().filter(|u| u.alive).map(|u| u.idx).collect();
            l.extend((0..r.below(3)).map(|_| r.below(0x4000) as u32));
            if r.chance(4, 5) {
                l.sort_unstable();
                l.dedup();
            } else {
                r.shuffle(&mut l);
            }
            let keep = if r.chance(1, 3) { l.len() } else { r.below(l.len() + 1) };
            while l.len() > keep {
                l.remove(r.below(l.len()));
            }
            let first = match r.below(4) {
                0 => 0u32,
                1 => r.below(0x4000) as u32,
                _ => l.first().copied().unwrap_or(5),
            };
            let mut cur = first as i64;
            let mut items = vec![];
            for i in &l {
                items.push(V::Int((*i as i64 - cur) as i128));
                cur = *i as i64;
                for _ in 0..2 {
                    let p = match r.below(8) {
                        0 => r.biased(-536870912, 536870911),
                        _ => r.below(256) as i128,
                    };
                    items.push(V::Int(p));
                }
            }
            e.set("m_first_unit_index", V::Int(first as i128));
            e.set("m_items", V::List(items));
        }
        "EPlayerSetup" => {
            // a late mapping, or one of somebody who is not a known player
            let known: Vec<&Player> = players.iter().filter(|p| p.known()).collect();
            if r.bool() && !known.is_empty() {
                let p = *r.pick(&known);
                let tid = if r.chance(1, 3) && *next_tid < 199 {
                    *next_tid += 1;
                    *next_tid
                } else {
                    p.tracker_id
                };
                // the id of the player's own or a fresh one: never shared by two players
                e.set("m_player_id", V::Int(tid as i128));
                e.set("m_user_id", V::opt_of(p.user_id.map(|x| x as i128)));
            } else {
                e.set("m_user_id", if r.bool() { V::none() } else { V::opt_of(Some(r.range(17, 90) as i128)) });
            }
        }
        "EUpgrade" | "EPlayerStats" => {
            e.set("m_player_id", V::Int(*r.pick(controls)));
        }
        _ => {}
    }
    e
}

#[allow(clippy::too_many_arguments)]
fn gen_game_step(
    r: &mut Rng,
    o: &Opts,
    g: Gen,
    units: &[Unit],
    users: &[u8],
    kinds: &[String],
    unsupported: &[&String],
    gen_o: &GenOpts,
    pairs: &[(i128, i128)],
) -> (u8, V) {
    let user = *r.pick(users);
    let kind = weighted(
        r,
        &[
            (o.selections, "ESelectionDelta"),
            (o.selections, "EControlGroupUpdate"),
            (o.commands, "ECmd"),
            (o.commands / 3 + 1, "ECmdUpdateTargetPoint"),
            (o.commands / 3 + 1, "ECmdUpdateTargetUnit"),
            (4, "ECameraSave"),
            (5, "ECameraUpdate"),
            (5, "other"),
            (if o.unsupported { 4 } else { 0 }, "unsupported"),
        ],
    );
    let kind = match kind {
        "other" => r.pick(kinds).clone(),
        "unsupported" => r.pick(unsupported).to_string(),
        k => k.to_string(),
    };
    let mut e = bitp(g).gen_variant("GameEEventId", &kind, r, gen_o);
    let tag = |u: &Unit| ((u.idx as i128) << 18) | u.recycle as i128;
    let some_tag = |r: &mut Rng| -> i128 {
        if r.chance(1, 12) { r.next() as u32 as i128 } else { tag(&units[r.below(units.len())]) }
    };
    match kind.as_str() {
        "ESelectionDelta" => {
            let id = match r.below(10) {
                0..=6 => 10,
                7 | 8 => r.below(10),
                _ => r.below(16),
            };
            e.set("m_control_group_id", V::Int(id as i128));
            let mut l: Vec<&Unit> = units.iter().filter(|u| u.alive || r.chance(1, 6)).collect();
            r.shuffle(&mut l);
            let keep = match r.below(6) {
                0 => 0,
                1 => l.len(),
                _ => 1 + r.below(4),
            };
            l.truncate(keep);
            let mut tags: Vec<V> = l.iter().map(|u| V::Int(tag(u))).collect();
            if r.chance(1, 10) && !tags.is_empty() {
                // an earlier user of the same index
                let k = r.below(tags.len());
                tags[k] = V::Int(tags[k].int() ^ *r.pick(&[1i128, 2, 3, 0x20000]));
            }
            if r.chance(1, 12) {
                let i = loop {
                    let i = r.below(0x4000) as u32;
                    if units.iter().all(|u| u.idx != i) {
                        break i;
                    }
                };
                tags.push(V::Int(((i as i128) << 18) | 1));
            }
            tags.truncate(511);
            e.set("m_delta.m_add_unit_tags", V::List(tags));
        }
        "EControlGroupUpdate" => {
            let idx = match r.below(20) {
                0 => 11 + r.below(5),
                1 => 9,
                2 => 0,
                _ => r.below(4),
            };
            e.set("m_control_group_index", V::Int(idx as i128));
            if r.chance(1, 3) {
                e.set("m_control_group_update", V::Variant("ERecall".into(), None));
            }
        }
        "ECmd" => {
            if r.chance(9, 10) {
                let mut a = bitp(g).gen_named("GameSCmdAbil", r, gen_o);
                if r.chance(2, 3) && !pairs.is_empty() {
                    let (x, y) = *r.pick(pairs);
                    a.set("m_abil_link", V::Int(x));
                    a.set("m_abil_cmd_index", V::Int(y));
                } else if r.chance(5, 6) {
                    a.set("m_abil_link", V::Int(1 + r.below(7) as i128));
                    a.set("m_abil_cmd_index", V::Int(r.below(6) as i128));
                }
                e.set("m_abil", V::some(a));
            }
            if e.get("m_data").variant() == "TargetUnit" {
                let t = some_tag(r);
                e.get_mut("m_data").get_mut("m_tag");
                e.set("m_data.m_tag", V::Int(t));
            }
        }
        "ECmdUpdateTargetUnit" => {
            let t = some_tag(r);
            e.set("m_target.m_tag", V::Int(t));
        }
        _ => {}
    }
    (user, e)
}

impl Scen {
    /// Encodes the streams and lists what has to be surfaced.
    pub fn finish(&mut self, r: &mut Rng) {
        self.rep.tracker = enc_tracker(&self.tracker, r).0;
        self.rep.game = enc_game(self.g, &self.game, r).0;
        self.t.clear();
        self.gm.clear();
        let mut at = 0i64;
        for e in &self.tracker {
            at += e.delta as i64;
            if let Some(json) = typed::tracker_event(&e.ev) {
                self.t.push(TE { at, ev: e.ev.clone(), json });
            }
        }
        at = 0;
        for e in &self.game {
            at += e.delta as i64;
            if let Some(json) = typed::game_event(self.g, &e.ev) {
                self.gm.push(GE { at, user: e.user as i64, ev: e.ev.clone(), json });
            }
        }
    }
    pub fn write(&self, dir: &Path, name: &str, r: &mut Rng) -> PathBuf {
        let p = dir.join(name);
        std::fs::write(&p, self.rep.bytes(r)).expect("harness: write replay");
        p
    }
    pub fn describe(&self) -> Value {
        json!({"build": self.build, "players": self.players.len(), "tracker_events": self.tracker.len(), "game_events": self.game.len(),
            "balance_units": self.balance.all.len(), "pool": self.pool})
    }
    pub fn hash(&self) -> u64 {
        crate::rng::fnv(&self.rep.tracker) ^ crate::rng::fnv(&self.rep.game).rotate_left(7)
    }
}
