//! Synthetic replays: event streams, lobby data and whole archives built from value trees.
use crate::mpq;
use crate::rng::Rng;
use crate::schema::*;
use crate::wire::*;

pub const SIGNATURE: &[u8] = b"StarCraft II replay\x1b11";

/// Base builds used: on both sides of the layout change, known, unknown and extreme ones.
pub const OLD_BUILDS: &[u32] = &[0, 1, 15405, 75688, 75689];
pub const NEW_BUILDS: &[u32] = &[75690, 80949, 83830, 87702, 89634, 91115, 94137, 95299, 96883, 4294967295];

pub fn gen_of(build: u32) -> Gen {
    if build <= 75689 { Gen::P75689 } else { Gen::P87702 }
}

#[derive(Clone, Debug)]
pub struct TEv {
    pub delta: u32,
    pub ev: V,
}
/// Game and message events
#[derive(Clone, Debug)]
pub struct GEv {
    pub delta: u32,
    pub user: u8,
    pub ev: V,
}

fn svar_choice(delta: u32, r: &mut Rng) -> u32 {
    let min = if delta < 64 {
        0
    } else if delta < 1 << 14 {
        1
    } else if delta < 1 << 22 {
        2
    } else {
        3
    };
    if r.chance(1, 6) { min + r.below(4 - min as usize) as u32 } else { min }
}

pub fn enc_svar_bits(w: &mut BitW, delta: u32, r: &mut Rng) {
    let c = svar_choice(delta, r);
    w.bits(2, c as u64);
    w.bits([6, 14, 22, 32][c as usize], delta as u64);
}

pub fn enc_svar_ver(out: &mut Vec<u8>, delta: u32, r: &mut Rng) {
    let c = svar_choice(delta, r);
    out.push(3);
    vlq(out, c as i128);
    v_int(out, delta as i128);
}

pub fn tracker_event_bytes(e: &TEv, r: &mut Rng, out: &mut Vec<u8>) {
    enc_svar_ver(out, e.delta, r);
    let mut order = Some(Rng::new(r.next()));
    byta().enc_ver("ReplayTrackerEEventId", &e.ev, &mut order, out);
}

/// Encoded stream and the end offset of every event.
pub fn enc_tracker(evs: &[TEv], r: &mut Rng) -> (Vec<u8>, Vec<usize>) {
    let mut out = vec![];
    let mut ends = vec![];
    for e in evs {
        tracker_event_bytes(e, r, &mut out);
        ends.push(out.len());
    }
    (out, ends)
}

fn enc_packed(g: Gen, ty: &str, evs: &[GEv], r: &mut Rng) -> (Vec<u8>, Vec<usize>) {
    let mut w = BitW::new();
    let mut ends = vec![];
    for e in evs {
        enc_svar_bits(&mut w, e.delta, r);
        w.bits(5, e.user as u64);
        bitp(g).enc_bits(ty, &e.ev, &mut w);
        w.align_with(if r.bool() { 0 } else { r.next() as u8 });
        ends.push(w.buf.len());
    }
    (w.buf, ends)
}
pub fn enc_game(g: Gen, evs: &[GEv], r: &mut Rng) -> (Vec<u8>, Vec<usize>) {
    enc_packed(g, "GameEEventId", evs, r)
}
pub fn enc_msgs(g: Gen, evs: &[GEv], r: &mut Rng) -> (Vec<u8>, Vec<usize>) {
    enc_packed(g, "GameEMessageId", evs, r)
}

#[derive(Clone, Debug)]
pub struct Replay {
    pub build: u32,
    pub header: V,
    pub details: V,
    pub init: V,
    pub tracker: Vec<u8>,
    pub game: Vec<u8>,
    pub msgs: Vec<u8>,
    pub no_user_data: bool,
    pub drop_sections: Vec<&'static str>,
    /// Raw bytes instead of the encoded section
    pub raw: Vec<(&'static str, Vec<u8>)>,
}

impl Replay {
    pub fn generation(&self) -> Gen {
        gen_of(self.build)
    }
    pub fn header_bytes(&self, r: &mut Rng) -> Vec<u8> {
        let mut out = vec![];
        // field order is free, but every header field is stored
        let mut order = if r.chance(1, 2) { Some(Rng::new(r.next())) } else { None };
        byta().enc_ver("ReplaySHeader", &self.header, &mut order, &mut out);
        out
    }
    pub fn bytes(&self, r: &mut Rng) -> Vec<u8> {
        let header = self.header_bytes(r);
        self.bytes_with_header(&header, r)
    }
    pub fn sections(&self, r: &mut Rng) -> Vec<(&'static str, Vec<u8>)> {
        let mut details = vec![];
        let mut order = Some(Rng::new(r.next()));
        byta().enc_ver("GameSDetails", &self.details, &mut order, &mut details);
        let mut w = BitW::new();
        bitp(self.generation()).enc_bits("ReplaySInitData", &self.init, &mut w);
        let mut files = vec![
            ("replay.details", details),
            ("replay.initData", w.buf),
            ("replay.game.events", self.game.clone()),
            ("replay.tracker.events", self.tracker.clone()),
            ("replay.message.events", self.msgs.clone()),
        ];
        for (n, b) in &self.raw {
            for f in files.iter_mut() {
                if f.0 == *n {
                    f.1 = b.clone();
                }
            }
        }
        files.retain(|f| !self.drop_sections.contains(&f.0));
        files
    }
    pub fn bytes_with_header(&self, header: &[u8], r: &mut Rng) -> Vec<u8> {
        let files = self.sections(r);
        mpq::archive(if self.no_user_data { None } else { Some(header) }, &files)
    }
}

#[derive(Clone, Debug)]
pub struct Player {
    /// Name in the details
    pub name: String,
    pub user_id: Option<u8>,
    pub wss: Option<u8>,
    /// Has a lobby slot with its working set slot id
    pub in_lobby: bool,
    /// Player id in the tracker events
    pub tracker_id: u8,
}

pub fn gen_header(r: &mut Rng, build: u32) -> V {
    let o = GenOpts { utf8: false, max_blob: 20, ..Default::default() };
    let mut h = byta().gen_named("ReplaySHeader", r, &o);
    h.set("m_signature", V::Bytes(SIGNATURE.to_vec()));
    h.set("m_version.m_base_build", V::Int(build as i128));
    if r.chance(3, 4) {
        h.set("m_version.m_build", V::Int(build as i128));
    }
    h
}

pub fn short_name(r: &mut Rng, i: usize) -> String {
    match r.below(30) {
        // no name, one that is not a player's own
        1 => return String::new(),
        2 => return "A.I. 1 (Elite)".into(),
        _ => {}
    }
    match r.below(5) {
        0 => format!("&lt;clan&gt;<sp/>P{i}"),
        1 => format!("Jügend{i}李"),
        _ => format!("Player{i}{}", (b'A' + r.below(26) as u8) as char),
    }
}

/// Lobby and details that belong together, for up to `n` players.
pub fn gen_world(r: &mut Rng, build: u32, n: usize) -> (Replay, Vec<Player>) {
    let g = gen_of(build);
    let o = GenOpts::default();
    let mut ids: Vec<u8> = (0..16).collect();
    r.shuffle(&mut ids);
    let mut wss: Vec<u8> = (0..16).collect();
    r.shuffle(&mut wss);
    if r.bool() {
        ids.sort_unstable();
    }
    if r.bool() {
        wss.sort_unstable();
    }
    if r.chance(1, 3) {
        // slot ids past those of a full lobby
        for id in [16u8, 17, 31, 127, 128, 255] {
            if r.bool() {
                let i = r.below(n.clamp(1, 16));
                wss[i] = id;
            }
        }
    }
    let mut tids: Vec<u8> = (1..=15).collect();
    if r.bool() {
        r.shuffle(&mut tids);
    }
    if n > 0 && r.chance(1, 4) {
        // numbers that no player of a usual match has
        for t in [0u8, 16, 63, 255] {
            if r.bool() {
                let i = r.below(n);
                tids[i] = t;
            }
        }
    }
    let mut players = vec![];
    for i in 0..n {
        players.push(Player {
            name: short_name(r, i),
            user_id: if r.chance(5, 6) { Some(ids[i]) } else { None },
            wss: if r.chance(9, 10) { Some(wss[i]) } else { None },
            in_lobby: r.chance(9, 10),
            tracker_id: tids[i],
        });
    }
    // ----- details
    let mut details = byta().gen_named("GameSDetails", r, &o);
    let mut list = vec![];
    for p in &players {
        let mut d = byta().gen_named("GameSPlayerDetails", r, &o);
        d.set("m_name", V::text(&p.name));
        d.set("m_working_set_slot_id", V::opt_of(p.wss.map(|x| x as i128)));
        list.push(d);
    }
    details.set("m_player_list", V::some(V::List(list)));
    // dates within what the calendar can hold most of the time
    if r.chance(4, 5) {
        details.set("m_time_utc", V::Int(116444736000000000 + r.range(0, 40_000_000_000_000_000) as i128));
        details.set("m_time_local_offset", V::Int(r.range(-14, 14) as i128 * 36_000_000_000));
    }
    let handles = (0..r.below(4)).map(|_| bitp(g).gen_named("GameCCacheHandle", r, &o)).collect();
    if r.chance(4, 5) {
        details.set("m_cache_handles", V::some(V::List(handles)));
    }
    // ----- lobby
    let mut init = bitp(g).gen_named("ReplaySInitData", r, &GenOpts { max_list: 2, ..o.clone() });
    let many = if r.chance(1, 10) { 17 + r.below(15) } else { 16 };
    let users: Vec<V> = (0..many)
        .map(|i| {
            let mut u = bitp(g).gen_named("SUserInitialData", r, &o);
            u.set("m_name", V::text(&format!("user{i}")));
            u
        })
        .collect();
    init.set("m_sync_lobby_state.m_user_initial_data", V::List(users));
    let mut slots = vec![];
    for p in &players {
        if !p.in_lobby || p.wss.is_none() {
            continue;
        }
        let mut s = bitp(g).gen_named("GameSLobbySlot", r, &GenOpts { max_list: 2, ..o.clone() });
        s.set("m_user_id", V::opt_of(p.user_id.map(|x| x as i128)));
        s.set("m_working_set_slot_id", V::opt_of(p.wss.map(|x| x as i128)));
        slots.push(s);
    }
    // empty slots with ids of their own or none
    for k in 0..r.below(3) {
        let mut s = bitp(g).gen_named("GameSLobbySlot", r, &GenOpts { max_list: 2, ..o.clone() });
        s.set("m_user_id", V::none());
        let id = wss[15 - k];
        s.set("m_working_set_slot_id", if r.bool() && players.len() + k < 15 { V::opt_of(Some(id as i128)) } else { V::none() });
        slots.push(s);
    }
    if r.chance(2, 3) {
        r.shuffle(&mut slots);
    }
    init.set("m_sync_lobby_state.m_lobby_state.m_slots", V::List(slots));
    let rep = Replay {
        build,
        header: gen_header(r, build),
        details,
        init,
        tracker: vec![],
        game: vec![],
        msgs: vec![],
        no_user_data: false,
        drop_sections: vec![],
        raw: vec![],
    };
    (rep, players)
}

impl Player {
    /// Is this player part of the iteration's user state?
    pub fn known(&self) -> bool {
        self.in_lobby && self.wss.is_some() && self.user_id.is_some()
    }
}
