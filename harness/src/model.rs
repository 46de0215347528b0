//! Reference model of the replay state, driven by the stored events, and the observer that compares
//! it with the state the crate exposes after every event.
use crate::report::Case;
use crate::scen::*;
use crate::schema::*;
use crate::typed;
use s2protocol::{SC2EventIterator, SC2EventIteratorItem, SC2EventType, SC2ReplayState};
use serde_json::{Value, json};
use std::collections::BTreeMap;

pub const A_SEQ: u32 = 1;
pub const A_REG: u32 = 2;
pub const A_SEL: u32 = 4;
pub const A_CMD: u32 = 8;
pub const A_POS: u32 = 16;
pub const A_NAME: u32 = 32;

#[derive(Clone, Debug)]
pub struct MUnit {
    pub idx: u32,
    pub last: i64,
    pub user: Option<u8>,
    pub player: Option<String>,
    pub name: String,
    pub pos: [f32; 3],
    pub init: i64,
    pub creator_ability: Option<String>,
    pub radius: f32,
    pub color: [u8; 4],
    pub sel: bool,
    pub ever_sel: bool,
    pub is_init: bool,
    pub cmd: Value,
}

#[derive(Clone, Debug)]
pub struct MUser {
    pub name: String,
    pub groups: Vec<Vec<u32>>,
    pub cam: (i64, i64),
    pub tid: Option<u8>,
    pub tslot: Option<i64>,
}

#[derive(Clone, Debug)]
pub enum MHint {
    Registered { unit: MUnit, creator: Option<MUnit>, fresh_only: bool },
    Positions(Vec<MUnit>),
    TargetPoints(Vec<MUnit>),
    TargetUnits { units: Vec<MUnit>, target: MUnit },
    Unregistered { killer: Option<MUnit>, killed: MUnit },
    Abilities { units: Vec<MUnit>, target: Option<MUnit> },
    Selection { must: Vec<u32>, may: Vec<u32> },
    None,
}

#[derive(Clone)]
pub struct Model<'a> {
    pub sc: &'a Scen,
    pub units: BTreeMap<u32, MUnit>,
    pub users: BTreeMap<i64, MUser>,
    /// The event as enriched
    pub enriched_abilities: Vec<String>,
    pub died: Option<u32>,
}

pub fn tag_index(tag: u32) -> u32 {
    tag / (1 << 18)
}

pub fn default_cmd() -> Value {
    json!({"cmd_flags": 0, "abil": null, "data": "None", "sequence": 0, "other_unit": null, "other_unit_name": null, "unit_group": null})
}

fn fx(v: f32) -> Value {
    json!(v)
}

fn coord(v: &V) -> Value {
    let (x, y, z) = (v.get("x").int() as f32, v.get("y").int() as f32, v.get("z").int() as f32);
    json!([fx(x / 4096.0), fx(-y / 4096.0), fx(z / 4096.0)])
}

fn optj(v: &V) -> Value {
    match v.opt_int() {
        None => Value::Null,
        Some(i) => num(i),
    }
}

fn target_unit(v: &V) -> Value {
    json!({"TargetUnit": {
        "target_unit_flags": num(v.get("m_target_unit_flags").int()),
        "timer": num(v.get("m_timer").int()),
        "tag": num(v.get("m_tag").int()),
        "snapshot_unit_link": num(v.get("m_snapshot_unit_link").int()),
        "snapshot_control_player_id": optj(v.get("m_snapshot_control_player_id")),
        "snapshot_upkeep_player_id": optj(v.get("m_snapshot_upkeep_player_id")),
        "snapshot_point": coord(v.get("m_snapshot_point")),
    }})
}

fn text(v: &V) -> String {
    v.str()
}
fn opt_text(v: &V) -> Option<String> {
    match v {
        V::Opt(None) => None,
        v => Some(v.str()),
    }
}

const WHITE: [u8; 4] = [0xfa, 0xf8, 0xfb, 0xff];
const LGREEN: [u8; 4] = [0x6e, 0xc2, 0x9c, 0xff];
const LBLUE: [u8; 4] = [0x72, 0xc5, 0xdd, 0xff];
const LGRAY: [u8; 4] = [0xf4, 0xf5, 0xf8, 0xff];
const ORANGE: [u8; 4] = [0xeb, 0x79, 0x07, 0xff];

fn color(name: &str, user: u8) -> [u8; 4] {
    match name {
        "VespeneGeyser" | "SpacePlatformGeyser" => LGREEN,
        "LabMineralField" | "LabMineralField750" | "MineralField" | "MineralField450" | "MineralField750" => LBLUE,
        "XelNagaTower" => WHITE,
        "RichMineralField" => [0xea, 0x9e, 0x36, 0xff],
        "RichMineralField750" => ORANGE,
        "DestructibleRockEx1DiagonalHugeBLUR" | "DestructibleDebris6x6" => [0xb2, 0xc5, 0xc5, 0xff],
        "UnbuildablePlatesDestructible" | "Broodling" => LGRAY,
        "Overlord" | "Pylon" | "SupplyDepot" => [0xf7, 0xd4, 0x54, 0xff],
        "SCV" | "Drone" | "Probe" | "Larva" | "Egg" => LGRAY,
        "Hatchery" | "CommandCenter" | "Nexus" => [0xea, 0xa4, 0x83, 0xff],
        "Infestor" => [0xa4, 0x01, 0xed, 0xff],
        _ => match user {
            0 => LGREEN,
            1 => LBLUE,
            2 => LGRAY,
            3 => ORANGE,
            _ => WHITE,
        },
    }
}

impl<'a> Model<'a> {
    pub fn new(sc: &'a Scen) -> Self {
        let d = typed::details(&sc.rep.details);
        let mut users = BTreeMap::new();
        for (i, p) in sc.players.iter().enumerate() {
            if p.known() {
                users.insert(
                    p.user_id.unwrap() as i64,
                    MUser {
                        name: d["player_list"][i]["name"].as_str().unwrap().to_string(),
                        groups: vec![vec![]; 11],
                        cam: (0, 0),
                        tid: None,
                        tslot: None,
                    },
                );
            }
        }
        Self { sc, units: BTreeMap::new(), users, enriched_abilities: vec![], died: None }
    }

    fn player_of(&self, control: i128) -> Option<String> {
        self.users.values().find(|u| u.tid.map(|t| t as i128) == Some(control)).map(|u| u.name.clone())
    }

    fn props(&self, u: &mut MUnit) {
        let base = self.sc.balance.own.get(&u.name).and_then(|j| j["misc"]["@radius"].as_f64()).map(|f| f as f32).unwrap_or(0.45f32);
        u.radius = if u.sel { base * 2.0 } else { base };
        u.color = color(&u.name, u.user.unwrap_or(0));
    }

    fn fresh(&self, at: i64, idx: u32, name: String, user: Option<u8>, pos: [f32; 3]) -> MUnit {
        let mut u = MUnit {
            idx,
            last: at,
            user,
            player: user.and_then(|c| self.player_of(c as i128)),
            name,
            pos,
            init: at,
            creator_ability: None,
            radius: 0.0,
            color: [0; 4],
            sel: false,
            ever_sel: false,
            is_init: false,
            cmd: default_cmd(),
        };
        self.props(&mut u);
        u
    }

    pub fn tracker(&mut self, at: i64, ev: &V) -> MHint {
        self.died = None;
        let p = ev.payload();
        let idx = |p: &V| p.get("m_unit_tag_index").int() as u32;
        let xy = |p: &V| [p.get("m_x").int() as f32, p.get("m_y").int() as f32, 0.0];
        match ev.variant() {
            "EUnitInit" => {
                let mut u = self.fresh(at, idx(p), text(p.get("m_unit_type_name")), Some(p.get("m_control_player_id").int() as u8), xy(p));
                u.is_init = true;
                let known = self.units.contains_key(&u.idx);
                if known {
                    let e = self.units.get_mut(&u.idx).unwrap();
                    e.last = at;
                    e.pos = u.pos;
                    e.is_init = true;
                    e.name = u.name.clone();
                } else {
                    self.units.insert(u.idx, u.clone());
                }
                MHint::Registered { unit: u, creator: None, fresh_only: known }
            }
            "EUnitBorn" => {
                let creator = match p.get("m_creator_unit_tag_index").opt_int() {
                    None => None,
                    Some(c) => self.units.get_mut(&(c as u32)).map(|u| {
                        u.last = at;
                        u.clone()
                    }),
                };
                let i = idx(p);
                if let Some(e) = self.units.get_mut(&i) {
                    e.creator_ability = opt_text(p.get("m_creator_ability_name"));
                    e.last = at;
                    return MHint::Registered { unit: e.clone(), creator, fresh_only: false };
                }
                let u = self.fresh(at, i, text(p.get("m_unit_type_name")), Some(p.get("m_control_player_id").int() as u8), xy(p));
                self.units.insert(i, u.clone());
                MHint::Registered { unit: u, creator, fresh_only: false }
            }
            "EUnitTypeChange" => {
                let i = idx(p);
                let name = text(p.get("m_unit_type_name"));
                if let Some(mut e) = self.units.get(&i).cloned() {
                    let old = e.clone();
                    e.name = name;
                    e.last = at;
                    self.props(&mut e);
                    self.units.insert(i, e.clone());
                    return MHint::Registered { unit: e, creator: Some(old), fresh_only: false };
                }
                let u = self.fresh(at, i, name, None, [0.0; 3]);
                self.units.insert(i, u);
                MHint::None
            }
            "EUnitDone" => {
                let i = idx(p);
                if let Some(mut e) = self.units.get(&i).cloned() {
                    e.last = at;
                    e.is_init = false;
                    self.props(&mut e);
                    self.units.insert(i, e.clone());
                    return MHint::Registered { unit: e, creator: None, fresh_only: false };
                }
                MHint::None
            }
            "EUnitPosition" => {
                let mut cur = p.get("m_first_unit_index").int();
                let mut moved = vec![];
                for t in p.get("m_items").list().chunks_exact(3) {
                    cur += t[0].int();
                    let f = |v: &V| ((v.int() * 4).clamp(i32::MIN as i128, i32::MAX as i128) as i32) as f32 / 4.0;
                    if let Ok(c) = u32::try_from(cur)
                        && let Some(u) = self.units.get_mut(&c)
                    {
                        u.pos = [f(&t[1]), f(&t[2]), 0.0];
                        u.last = at;
                        if !moved.contains(&c) {
                            moved.push(c);
                        }
                    }
                }
                MHint::Positions(moved.iter().map(|i| self.units[i].clone()).collect())
            }
            "EUnitDied" => {
                let i = idx(p);
                self.died = Some(i);
                for u in self.users.values_mut() {
                    for g in u.groups.iter_mut() {
                        g.retain(|t| tag_index(*t) != i);
                    }
                }
                match self.units.remove(&i) {
                    None => MHint::None,
                    Some(killed) => MHint::Unregistered {
                        killer: p.get("m_killer_unit_tag_index").opt_int().and_then(|k| self.units.get(&(k as u32)).cloned()),
                        killed,
                    },
                }
            }
            "EPlayerSetup" => {
                if let Some(uid) = p.get("m_user_id").opt_int()
                    && let Some(u) = self.users.get_mut(&(uid as i64))
                {
                    u.tid = Some(p.get("m_player_id").int() as u8);
                    u.tslot = p.get("m_slot_id").opt_int().map(|x| x as i64);
                }
                MHint::None
            }
            _ => MHint::None,
        }
    }

    fn selected(&self, user: i64) -> Vec<u32> {
        let mut v = vec![];
        if let Some(u) = self.users.get(&user) {
            for t in &u.groups[10] {
                let i = tag_index(*t);
                if self.units.contains_key(&i) {
                    v.push(i);
                }
            }
        }
        v
    }

    /// Replaces the selection of a user.
    fn select(&mut self, at: i64, user: i64, tags: Vec<u32>) -> MHint {
        if !self.users.contains_key(&user) {
            return MHint::Selection { must: vec![], may: vec![] };
        }
        let before: BTreeMap<u32, bool> = self.units.iter().map(|(k, u)| (*k, u.sel)).collect();
        let others: Vec<u32> =
            self.users.iter().filter(|(k, _)| **k != user).flat_map(|(_, u)| u.groups[10].iter().map(|t| tag_index(*t))).collect();
        let mut touched = vec![];
        for i in self.selected(user) {
            let u = self.units.get_mut(&i).unwrap();
            u.last = at;
            if u.sel && !others.contains(&i) {
                u.sel = false;
                u.radius *= 0.5;
            }
            touched.push(i);
        }
        for t in &tags {
            let i = tag_index(*t);
            if let Some(u) = self.units.get_mut(&i) {
                u.last = at;
                u.ever_sel = true;
                if !u.sel {
                    u.sel = true;
                    u.radius *= 2.0;
                }
                touched.push(i);
            }
        }
        self.users.get_mut(&user).unwrap().groups[10] = tags;
        let must = self.units.iter().filter(|(k, u)| before[*k] != u.sel).map(|(k, _)| *k).collect();
        MHint::Selection { must, may: touched }
    }

    pub fn game(&mut self, at: i64, user: i64, ev: &V) -> MHint {
        self.died = None;
        self.enriched_abilities.clear();
        let kind = ev.variant();
        match kind {
            "ECameraSave" | "ECameraUpdate" => {
                let t = ev.payload().get("m_target");
                let t = match t {
                    V::Opt(None) => return MHint::None,
                    V::Opt(Some(t)) => t,
                    t => t,
                };
                if let Some(u) = self.users.get_mut(&user) {
                    u.cam = (t.get("x").int() as i64, t.get("y").int() as i64);
                }
                MHint::None
            }
            "ECmd" => {
                let p = ev.payload();
                let d = p.get("m_data");
                let target = if d.variant() == "TargetUnit" {
                    self.units.get(&tag_index(d.payload().get("m_tag").int() as u32)).cloned()
                } else {
                    None
                };
                let abil = p.get("m_abil");
                let mut units = vec![];
                if let V::Opt(Some(a)) = abil {
                    for i in self.selected(user) {
                        let name = ability_name(&self.sc.balance, &self.units[&i].name, a.get("m_abil_link").int(), a.get("m_abil_cmd_index").int());
                        let data = match d.variant() {
                            "None" => json!("None"),
                            "TargetPoint" => json!({"TargetPoint": coord(d.payload())}),
                            "TargetUnit" => target_unit(d.payload()),
                            _ => json!({"Data": num(d.payload().int())}),
                        };
                        let cmd = json!({
                            "cmd_flags": num(p.get("m_cmd_flags").int()),
                            "abil": {"abil_link": num(a.get("m_abil_link").int()), "ability": name, "abil_cmd_index": num(a.get("m_abil_cmd_index").int()),
                                "abil_cmd_data": optj(a.get("m_abil_cmd_data"))},
                            "data": data,
                            "sequence": num(p.get("m_sequence").int()),
                            "other_unit": optj(p.get("m_other_unit")),
                            "other_unit_name": target.as_ref().map(|t| t.name.clone()),
                            "unit_group": optj(p.get("m_unit_group")),
                        });
                        self.enriched_abilities.push(name);
                        let u = self.units.get_mut(&i).unwrap();
                        u.cmd = cmd;
                        u.last = at;
                        units.push(u.clone());
                    }
                }
                MHint::Abilities { units, target }
            }
            "ECmdUpdateTargetPoint" => {
                let pt = coord(ev.payload().get("m_target"));
                let mut units = vec![];
                for i in self.selected(user) {
                    let u = self.units.get_mut(&i).unwrap();
                    u.cmd["data"] = json!({"TargetPoint": pt});
                    u.cmd["other_unit"] = Value::Null;
                    u.last = at;
                    units.push(u.clone());
                }
                MHint::TargetPoints(units)
            }
            "ECmdUpdateTargetUnit" => {
                let t = ev.payload().get("m_target");
                let Some(target) = self.units.get(&tag_index(t.get("m_tag").int() as u32)).cloned() else { return MHint::None };
                let data = target_unit(t);
                let mut units = vec![];
                for i in self.selected(user) {
                    let u = self.units.get_mut(&i).unwrap();
                    u.cmd["data"] = data.clone();
                    u.last = at;
                    units.push(u.clone());
                }
                MHint::TargetUnits { units, target }
            }
            "ESelectionDelta" => {
                let p = ev.payload();
                let id = p.get("m_control_group_id").int() as usize;
                let tags: Vec<u32> = p.get("m_delta").get("m_add_unit_tags").list().iter().map(|t| t.int() as u32).collect();
                if id == 10 {
                    return self.select(at, user, tags);
                }
                if id < 10
                    && let Some(u) = self.users.get_mut(&user)
                {
                    u.groups[id] = tags;
                }
                MHint::Selection { must: vec![], may: vec![] }
            }
            "EControlGroupUpdate" => {
                let p = ev.payload();
                let id = p.get("m_control_group_index").int() as usize;
                if id > 10 {
                    return MHint::None;
                }
                let op = p.get("m_control_group_update").variant().to_string();
                if op == "ERecall" {
                    let tags = self.users.get(&user).map(|u| u.groups[id].clone()).unwrap_or_default();
                    return self.select(at, user, tags);
                }
                if let Some(u) = self.users.get_mut(&user) {
                    let sel = u.groups[10].clone();
                    if op.ends_with("AndSteal") {
                        for g in u.groups.iter_mut().take(10) {
                            g.retain(|t| !sel.contains(t));
                        }
                    }
                    match op.as_str() {
                        "ESet" | "ESetAndSteal" => u.groups[id] = sel,
                        "EClear" => u.groups[id].clear(),
                        _ => {
                            for t in sel {
                                if !u.groups[id].contains(&t) {
                                    u.groups[id].push(t);
                                }
                            }
                        }
                    }
                }
                MHint::Selection { must: vec![], may: vec![] }
            }
            _ => MHint::None,
        }
    }
}

// ------------------------------------------------------------------ observation

fn unit_reg_diff(m: &MUnit, u: &Value, fresh_only: bool) -> Option<String> {
    let mut want = json!({"tag_index": m.idx, "name": m.name, "is_init": m.is_init, "last_game_loop": m.last, "pos": m.pos.map(fx)});
    if !fresh_only {
        want["user_id"] = json!(m.user);
        want["init_game_loop"] = json!(m.init);
        want["creator_ability_name"] = json!(m.creator_ability);
        want["color"] = json!(m.color);
        if !m.ever_sel {
            want["radius"] = fx(m.radius);
        }
    }
    subset(&want, u, "")
}

fn ids(v: &Value) -> Vec<u32> {
    let mut l: Vec<u32> = v.as_array().map(|a| a.iter().map(|u| u["tag_index"].as_u64().unwrap_or(u64::MAX) as u32).collect()).unwrap_or_default();
    l.sort_unstable();
    l
}

/// Compares a hint for the aspects asked. Returns (signature, detail).
pub fn hint_diff(m: &MHint, model: &Model, hint: &Value, aspects: u32) -> Option<(&'static str, String)> {
    let (name, body) = match hint {
        Value::String(s) => (s.as_str(), &Value::Null),
        Value::Object(o) => {
            let (k, v) = o.iter().next()?;
            (k.as_str(), v)
        }
        _ => return Some(("hint", "odd hint".into())),
    };
    let wrong = |sig: &'static str, want: &str| Some((sig, format!("hint {name}, expected {want}")));
    match m {
        MHint::Registered { unit, creator, fresh_only } if aspects & A_REG != 0 => {
            if name != "Registered" {
                return wrong("hint of a registration", "Registered");
            }
            if let Some(d) = unit_reg_diff(unit, &body["unit"], *fresh_only) {
                return Some(("registered unit in the hint", d));
            }
            match (creator, &body["creator"]) {
                (None, Value::Null) => {}
                (Some(c), b) if !b.is_null() => {
                    if let Some(d) = unit_reg_diff(c, b, false) {
                        return Some(("creator in the hint", d));
                    }
                }
                (c, b) => return Some(("creator in the hint", format!("{} expected {:?}", trunc(&b.to_string(), 200), c.as_ref().map(|x| x.idx)))),
            }
        }
        MHint::Unregistered { killer, killed } if aspects & A_REG != 0 => {
            if name != "Unregistered" {
                return wrong("hint of a death", "Unregistered");
            }
            if let Some(d) = unit_reg_diff(killed, &body["killed"], false) {
                return Some(("killed unit in the hint", d));
            }
            match (killer, &body["killer"]) {
                (None, Value::Null) => {}
                (Some(c), b) if !b.is_null() => {
                    if let Some(d) = unit_reg_diff(c, b, false) {
                        return Some(("killer in the hint", d));
                    }
                }
                (c, b) => return Some(("killer in the hint", format!("{} expected {:?}", trunc(&b.to_string(), 200), c.as_ref().map(|x| x.idx)))),
            }
        }
        MHint::Positions(units) if aspects & A_POS != 0 => {
            if name != "Positions" {
                return wrong("hint of a position update", "Positions");
            }
            let mut got = ids(body);
            got.dedup();
            let mut want: Vec<u32> = units.iter().map(|u| u.idx).collect();
            want.sort_unstable();
            if got != want {
                return Some(("moved units in the hint", format!("{got:?} expected {want:?}")));
            }
            for b in body.as_array().unwrap() {
                let u = units.iter().find(|u| u.idx as u64 == b["tag_index"].as_u64().unwrap()).unwrap();
                if let Some(d) = subset(&json!(u.pos.map(fx)), &b["pos"], "pos") {
                    return Some(("position in the hint", d));
                }
            }
        }
        MHint::TargetPoints(units) if aspects & A_CMD != 0 => {
            if name != "TargetPoints" {
                return wrong("hint of a target point", "TargetPoints");
            }
            return cmd_units(units, body);
        }
        MHint::TargetUnits { units, target } if aspects & A_CMD != 0 => {
            if name != "TargetUnits" {
                return wrong("hint of a target unit", "TargetUnits");
            }
            if body["target"]["tag_index"] != json!(target.idx) || body["target"]["name"] != json!(target.name) {
                return Some(("target in the hint", format!("{} expected {}", body["target"]["tag_index"], target.idx)));
            }
            return cmd_units(units, &body["units"]);
        }
        MHint::Abilities { units, target } if aspects & A_CMD != 0 => {
            if name != "Abilities" {
                return wrong("hint of a command", "Abilities");
            }
            match (target, &body["target"]) {
                (None, Value::Null) => {}
                (Some(t), b) if b["tag_index"] == json!(t.idx) && b["name"] == json!(t.name) => {}
                (t, b) => return Some(("target in the hint", format!("{} expected {:?}", trunc(&b.to_string(), 200), t.as_ref().map(|x| x.idx)))),
            }
            return cmd_units(units, &body["units"]);
        }
        MHint::Selection { must, may } if aspects & A_SEL != 0 => {
            if name != "Selection" {
                return if must.is_empty() && name == "None" { None } else { wrong("hint of a selection", "Selection") };
            }
            let got = ids(body);
            for w in got.windows(2) {
                if w[0] == w[1] {
                    return Some(("unit twice in the selection hint", format!("{got:?}")));
                }
            }
            for x in must {
                if !got.contains(x) {
                    return Some(("unit missing in the selection hint", format!("{x} not in {got:?}")));
                }
            }
            for b in body.as_array().unwrap() {
                let i = b["tag_index"].as_u64().unwrap() as u32;
                if !may.contains(&i) {
                    return Some(("unit in the selection hint that was not touched", format!("{i} in {got:?}")));
                }
                let u = &model.units[&i];
                if b["is_selected"] != json!(u.sel) || subset(&fx(u.radius), &b["radius"], "").is_some() {
                    return Some(("state of a unit in the selection hint", format!("{b} expected selected {} radius {}", u.sel, u.radius)));
                }
            }
        }
        MHint::None => {
            // nothing known changed: no unit may be named
            if name != "None" && aspects & (A_REG | A_CMD) != 0 {
                let regs = ["Registered", "Unregistered"];
                let cmds = ["TargetUnits", "TargetPoints", "Abilities"];
                if aspects & A_REG != 0 && regs.contains(&name) || aspects & A_CMD != 0 && cmds.contains(&name) {
                    return wrong("hint without a change", "None");
                }
            }
        }
        _ => {}
    }
    None
}

fn cmd_units(units: &[MUnit], body: &Value) -> Option<(&'static str, String)> {
    let got: Vec<u32> = body.as_array().map(|a| a.iter().map(|u| u["tag_index"].as_u64().unwrap_or(u64::MAX) as u32).collect()).unwrap_or_default();
    let mut want: Vec<u32> = units.iter().map(|u| u.idx).collect();
    let mut g = got.clone();
    want.sort_unstable();
    g.sort_unstable();
    if g != want {
        return Some(("commanded units in the hint", format!("{g:?} expected {want:?}")));
    }
    for b in body.as_array().unwrap() {
        let u = units.iter().find(|u| u.idx as u64 == b["tag_index"].as_u64().unwrap()).unwrap();
        if let Some(d) = subset(&u.cmd, &b["cmd"], "cmd") {
            return Some(("command of a unit in the hint", d));
        }
        if b["name"] != json!(u.name) {
            return Some(("name of a unit in the hint", format!("{} expected {}", b["name"], u.name)));
        }
    }
    None
}

fn keys_differ(model: &Model, st: &SC2ReplayState) -> Option<String> {
    for k in st.units.keys() {
        if !model.units.contains_key(k) {
            return Some(format!("unit {k} should not be known"));
        }
    }
    for k in model.units.keys() {
        if !st.units.contains_key(k) {
            return Some(format!("unit {k} should be known"));
        }
    }
    None
}

fn sorted(v: &[u32]) -> Vec<u32> {
    let mut v = v.to_vec();
    v.sort_unstable();
    v
}

/// Compares the exposed state. Returns (signature, detail).
pub fn state_diff(model: &Model, st: &SC2ReplayState, aspects: u32, full: bool) -> Option<(&'static str, String)> {
    if aspects & A_REG != 0 {
        if let Some(d) = keys_differ(model, st) {
            return Some(("known units", d));
        }
        if let Some(i) = model.died {
            for (uid, u) in &st.user_state {
                for (n, g) in u.control_groups.iter().enumerate() {
                    if g.iter().any(|t| tag_index(*t) == i) {
                        return Some(("dead unit in a group", format!("unit {i} in group {n} of user {uid}")));
                    }
                }
            }
        }
        for (k, m) in &model.units {
            let u = &st.units[k];
            let bad = if u.tag_index != m.idx {
                Some(format!("tag_index {} of {k}", u.tag_index))
            } else if u.name != m.name {
                Some(format!("name {:?} of {k}, expected {:?}", u.name, m.name))
            } else if u.user_id != m.user {
                Some(format!("user_id {:?} of {k}, expected {:?}", u.user_id, m.user))
            } else if u.init_game_loop != m.init {
                Some(format!("init_game_loop {} of {k}, expected {}", u.init_game_loop, m.init))
            } else if u.last_game_loop != m.last {
                Some(format!("last_game_loop {} of {k}, expected {}", u.last_game_loop, m.last))
            } else if u.is_init != m.is_init {
                Some(format!("is_init {} of {k}", u.is_init))
            } else if u.creator_ability_name != m.creator_ability {
                Some(format!("creator_ability_name {:?} of {k}, expected {:?}", u.creator_ability_name, m.creator_ability))
            } else if u.color != m.color {
                Some(format!("color {:?} of {k} {}, expected {:?}", u.color, m.name, m.color))
            } else if u.pos.0.map(f32::to_bits) != m.pos.map(f32::to_bits) && u.pos.0 != m.pos {
                Some(format!("pos {:?} of {k}, expected {:?}", u.pos, m.pos))
            } else if !m.ever_sel && u.radius.to_bits() != m.radius.to_bits() {
                Some(format!("radius {} of {k}, expected {}", u.radius, m.radius))
            } else {
                None
            };
            if let Some(b) = bad {
                return Some(("attributes of a unit", b));
            }
        }
    }
    if aspects & A_SEL != 0 {
        for (uid, m) in &model.users {
            let Some(u) = st.user_state.get(uid) else { return Some(("players", format!("user {uid} missing"))) };
            for n in 0..11 {
                let got = u.control_groups.get(n).cloned().unwrap_or_default();
                if sorted(&got) != sorted(&m.groups[n]) {
                    let sig = if n == 10 { "selection" } else { "control group" };
                    return Some((sig, format!("user {uid} group {n}: {:?} expected {:?}", sorted(&got), sorted(&m.groups[n]))));
                }
            }
        }
        for (k, m) in &model.units {
            if let Some(u) = st.units.get(k) {
                if u.is_selected != m.sel {
                    return Some(("selection mark", format!("unit {k} is_selected {}, expected {}", u.is_selected, m.sel)));
                }
                if u.radius.to_bits() != m.radius.to_bits() {
                    return Some(("radius of a selectable unit", format!("unit {k} radius {}, expected {} (selected {})", u.radius, m.radius, m.sel)));
                }
            }
        }
    }
    if aspects & A_POS != 0 {
        for (k, m) in &model.units {
            if let Some(u) = st.units.get(k)
                && u.pos.0 != m.pos
            {
                return Some(("position", format!("unit {k} at {:?}, expected {:?}", u.pos, m.pos)));
            }
        }
    }
    if aspects & A_CMD != 0 {
        for (uid, m) in &model.users {
            if let Some(u) = st.user_state.get(uid)
                && (u.camera_pos.x as i64, u.camera_pos.y as i64) != m.cam
            {
                return Some(("camera", format!("user {uid}: {:?} expected {:?}", u.camera_pos, m.cam)));
            }
        }
        if full {
            for (k, m) in &model.units {
                if let Some(u) = st.units.get(k) {
                    let got = serde_json::to_value(&u.cmd).expect("harness: cmd");
                    if let Some(d) = subset(&m.cmd, &got, "cmd") {
                        return Some(("command of a unit", format!("unit {k}: {d}")));
                    }
                }
            }
        }
    }
    if aspects & A_NAME != 0 {
        for (k, m) in &model.units {
            if let Some(u) = st.units.get(k)
                && u.player_name != m.player
            {
                return Some(("player name of a unit", format!("unit {k}: {:?} expected {:?}", u.player_name, m.player)));
            }
        }
        let mut want: Vec<i64> = model.users.keys().copied().collect();
        let mut got: Vec<i64> = st.user_state.keys().copied().collect();
        want.sort_unstable();
        got.sort_unstable();
        if want != got {
            return Some(("players", format!("{got:?} expected {want:?}")));
        }
        for (uid, m) in &model.users {
            let d = &st.user_state[uid].player_lobby_details;
            if d.player_details.name != m.name {
                return Some(("name of a player", format!("user {uid}: {:?} expected {:?}", d.player_details.name, m.name)));
            }
            if d.tracker_setup_player_id != m.tid || d.tracker_setup_slot_id.map(|x| x as i64) != m.tslot {
                return Some((
                    "tracker ids of a player",
                    format!("user {uid}: {:?}/{:?} expected {:?}/{:?}", d.tracker_setup_player_id, d.tracker_setup_slot_id, m.tid, m.tslot),
                ));
            }
        }
    }
    None
}

/// Position within both streams and the last loop delivered.
#[derive(Clone, Default)]
pub struct Pos {
    pub ti: usize,
    pub gi: usize,
    pub last: i64,
    pub n: usize,
}

pub enum Step<'a> {
    T(&'a TE),
    G(&'a GE),
    /// The sequence is not the stored one: (signature, detail)
    Lost(&'static str, String),
}

/// Finds the stored event that a delivered item stands for.
pub fn locate<'a>(sc: &'a Scen, pos: &mut Pos, item: &SC2EventIteratorItem, strict: bool) -> Step<'a> {
    match &item.event_type {
        SC2EventType::Tracker { tracker_loop, event } => {
            let Some(w) = sc.t.get(pos.ti) else { return Step::Lost("event that is not stored", format!("tracker event {}", pos.ti)) };
            if *tracker_loop != w.at {
                return Step::Lost("tracker loop", format!("tracker event {}: loop {tracker_loop} expected {}", pos.ti, w.at));
            }
            if strict {
                let got = serde_json::to_value(event).expect("harness: event");
                if let Some(d) = subset(&strip_names(&w.json), &got, "") {
                    return Step::Lost("tracker event content", format!("tracker event {}: {d}", pos.ti));
                }
                if let Some(g) = sc.gm.get(pos.gi)
                    && g.at < w.at
                {
                    return Step::Lost("order of the streams", format!("tracker event {} at {} before game event {} at {}", pos.ti, w.at, pos.gi, g.at));
                }
                if w.at < pos.last {
                    return Step::Lost("loops go back", format!("{} after {}", w.at, pos.last));
                }
            }
            pos.last = w.at;
            pos.ti += 1;
            pos.n += 1;
            Step::T(w)
        }
        SC2EventType::Game { game_loop, user_id, event, .. } => {
            let Some(w) = sc.gm.get(pos.gi) else { return Step::Lost("event that is not stored", format!("game event {}", pos.gi)) };
            if *game_loop != w.at {
                return Step::Lost("game loop", format!("game event {}: loop {game_loop} expected {}", pos.gi, w.at));
            }
            if strict {
                if *user_id != w.user {
                    return Step::Lost("user of a game event", format!("game event {}: user {user_id} expected {}", pos.gi, w.user));
                }
                let got = serde_json::to_value(event).expect("harness: event");
                if let Some(d) = subset(&strip_names(&w.json), &got, "") {
                    return Step::Lost("game event content", format!("game event {}: {d}", pos.gi));
                }
                if let Some(t) = sc.t.get(pos.ti)
                    && t.at < w.at
                {
                    return Step::Lost("order of the streams", format!("game event {} at {} before tracker event {} at {}", pos.gi, w.at, pos.ti, t.at));
                }
                if w.at < pos.last {
                    return Step::Lost("loops go back", format!("{} after {}", w.at, pos.last));
                }
            }
            pos.last = w.at;
            pos.gi += 1;
            pos.n += 1;
            Step::G(w)
        }
    }
}

/// The parts of an event that the iteration fills in are judged elsewhere.
fn strip_names(j: &Value) -> Value {
    let mut j = j.clone();
    if let Some(o) = j.as_object_mut() {
        for (_, b) in o.iter_mut() {
            if let Some(b) = b.as_object_mut() {
                b.remove("player_name");
                b.remove("ability");
                if let Some(a) = b.get_mut("m_abil").and_then(|a| a.as_object_mut()) {
                    a.remove("ability");
                }
            }
        }
    }
    j
}

/// Iterates to the end while comparing. Returns the number of events delivered.
pub fn drive(c: &mut Case, sc: &Scen, it: &mut SC2EventIterator, aspects: u32) -> usize {
    let mut model = Model::new(sc);
    let mut pos = Pos::default();
    let ctx = |pos: &Pos| json!({"scenario": sc.describe(), "event": pos.n, "tracker": pos.ti, "game": pos.gi});
    if let Some((sig, d)) = state_diff(&model, &it.sc2_state, aspects, true) {
        c.fail(format!("start: {sig}"), json!({"diff": d, "ctx": ctx(&pos)}));
        return 0;
    }
    let total = sc.t.len() + sc.gm.len();
    loop {
        let Some(item) = it.next() else { break };
        if pos.n > total + 3 {
            break;
        }
        let step = locate(sc, &mut pos, &item, aspects & A_SEQ != 0);
        let (hint, kind) = match step {
            Step::Lost(sig, d) => {
                if aspects & A_SEQ != 0 {
                    c.fail(sig, json!({"diff": d, "ctx": ctx(&pos)}));
                } else {
                    c.count("lost_track", 1);
                }
                return pos.n;
            }
            Step::T(e) => {
                let name_of_upgrade = if e.ev.variant() == "EUpgrade" { Some(model.player_of(e.ev.payload().get("m_player_id").int())) } else { None };
                let h = model.tracker(e.at, &e.ev);
                if aspects & A_NAME != 0
                    && let Some(want) = name_of_upgrade
                {
                    c.count("upgrades_named", want.is_some() as u64);
                    if let SC2EventType::Tracker { event, .. } = &item.event_type {
                        let got = serde_json::to_value(event).expect("harness: event");
                        if got["Upgrade"]["player_name"] != json!(want) {
                            c.fail("player name of an upgrade", json!({"got": got["Upgrade"]["player_name"], "want": want, "ctx": ctx(&pos)}));
                            return pos.n;
                        }
                    }
                }
                (h, e.ev.variant().to_string())
            }
            Step::G(e) => {
                let h = model.game(e.at, e.user, &e.ev);
                if aspects & A_NAME != 0
                    && let SC2EventType::Game { player_name, .. } = &item.event_type
                {
                    let want = model.users.get(&e.user).map(|u| u.name.clone());
                    c.count("game_events_named", want.is_some() as u64);
                    c.count("game_events_unnamed", want.is_none() as u64);
                    if *player_name != want {
                        c.fail("player name of a game event", json!({"got": player_name, "want": want, "user": e.user, "ctx": ctx(&pos)}));
                        return pos.n;
                    }
                }
                if aspects & A_CMD != 0
                    && e.ev.variant() == "ECmd"
                    && let SC2EventType::Game { event, .. } = &item.event_type
                {
                    // the event itself carries the ability of a commanded unit
                    let got = serde_json::to_value(event).expect("harness: event");
                    let a = &got["Cmd"]["m_abil"]["ability"];
                    let ab = &model.enriched_abilities;
                    if a.is_string() && !ab.is_empty() && !ab.iter().any(|x| json!(x) == *a) || ab.is_empty() && a.is_string() && a != "" {
                        c.fail("ability named in the command event", json!({"got": a, "units": ab, "ctx": ctx(&pos)}));
                        return pos.n;
                    }
                    c.count("abilities_named", ab.iter().filter(|x| !x.is_empty()).count() as u64);
                    c.count("abilities_unnamed", ab.iter().filter(|x| x.is_empty()).count() as u64);
                }
                (h, e.ev.variant().to_string())
            }
        };
        c.count("events_checked", 1);
        match &hint {
            MHint::Registered { creator, fresh_only, .. } => {
                c.count("hint.registered", 1);
                c.count("hint.with_creator", creator.is_some() as u64);
                c.count("hint.init_of_known_unit", *fresh_only as u64);
            }
            MHint::Unregistered { killer, .. } => {
                c.count("hint.unregistered", 1);
                c.count("hint.with_killer", killer.is_some() as u64);
            }
            MHint::Positions(l) => c.count("units_moved", l.len() as u64),
            MHint::TargetPoints(l) => c.count("target_points", l.len() as u64),
            MHint::TargetUnits { units, .. } => c.count("target_units", units.len() as u64),
            MHint::Abilities { units, target } => {
                c.count("units_commanded", units.len() as u64);
                c.count("commands_at_known_unit", target.is_some() as u64);
            }
            MHint::Selection { must, .. } => c.count("selection_changes", must.len() as u64),
            MHint::None => {}
        }
        let hj = serde_json::to_value(&item.change_hint).expect("harness: hint");
        let stored = hj.as_str().or_else(|| hj.as_object().and_then(|o| o.keys().next().map(|k| k.as_str()))).unwrap_or("");
        if aspects & A_REG != 0 && item.change_hint.variant_name() != stored {
            c.fail("name of a hint", json!({"got": item.change_hint.variant_name(), "want": stored, "ctx": ctx(&pos)}));
            return pos.n;
        }
        let game = matches!(item.event_type, SC2EventType::Game { .. });
        if aspects & A_SEQ != 0 && (item.is_game_event(), item.is_tracker_event()) != (game, !game) {
            c.fail("side of an event", json!({"game": [item.is_game_event(), game], "tracker": item.is_tracker_event(), "ctx": ctx(&pos)}));
            return pos.n;
        }
        if let Some((sig, d)) = hint_diff(&hint, &model, &hj, aspects) {
            c.fail(sig, json!({"event": kind, "diff": d, "ctx": ctx(&pos)}));
            return pos.n;
        }
        let full = kind.starts_with("ECmd") || pos.n % 8 == 0;
        if let Some((sig, d)) = state_diff(&model, &it.sc2_state, aspects, full) {
            c.fail(sig, json!({"event": kind, "diff": d, "ctx": ctx(&pos)}));
            return pos.n;
        }
    }
    if aspects & A_SEQ != 0 && (pos.ti != sc.t.len() || pos.gi != sc.gm.len()) {
        c.fail(
            "stream ended early",
            json!({"tracker": [pos.ti, sc.t.len()], "game": [pos.gi, sc.gm.len()], "ctx": ctx(&pos)}),
        );
    }
    pos.n
}
