//! C01: cached map files.
use crate::mpq;
use crate::hurt::{le32, mutate};
use crate::report::{Case, Run};
use crate::rng::{Rng, fnv};
use crate::schema::*;
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::parser;
use serde_json::json;

#[derive(Clone, Debug)]
pub struct Info {
    pub version: i64,
    pub w: i64,
    pub h: i64,
    pub strings: [Vec<u8>; 4],
    pub left: i64,
    pub bottom: i64,
    pub right: i64,
    pub top: i64,
    pub pad: usize,
}

/// Text without the terminator, sometimes not UTF-8.
fn text0(r: &mut Rng) -> Vec<u8> {
    let mut s = match r.below(6) {
        0 => vec![],
        1 => {
            let n = r.below(12);
            r.bytes(n)
        }
        _ if r.chance(1, 12) => {
            let n = 200 + r.below(2000);
            gen_text(r, n)
        }
        _ => gen_text(r, 14),
    };
    s.retain(|b| *b != 0);
    s
}

impl Info {
    /// Bounds that are consistent with the size.
    pub fn fit(&mut self, r: &mut Rng) {
        self.left = r.range(0, self.w - 1);
        self.right = r.range(self.left + 1, self.w);
        self.bottom = r.range(0, self.h - 1);
        self.top = r.range(self.bottom + 1, self.h);
        if r.chance(1, 5) {
            (self.left, self.bottom, self.right, self.top) = (0, 0, self.w, self.h);
        }
    }
    pub fn bytes(&self, r: &mut Rng) -> Vec<u8> {
        let mut v = b"IpaM".to_vec();
        le32(&mut v, self.version);
        if self.version > 24 {
            v.extend(r.bytes(8));
        }
        le32(&mut v, self.w);
        le32(&mut v, self.h);
        v.extend(r.bytes(8));
        v.extend(vec![0; self.pad]);
        for (i, s) in self.strings.iter().enumerate() {
            v.extend(s);
            v.push(0);
            if i == 1 {
                v.extend(r.bytes(5));
            }
        }
        for x in [self.left, self.bottom, self.right, self.top] {
            le32(&mut v, x);
        }
        v
    }
}

pub fn gen_info(r: &mut Rng) -> Info {
    let dim = |r: &mut Rng| match r.below(5) {
        0 => *r.pick(&[1i64, 2, 255, 256]),
        1 => r.range(1, 6),
        _ => r.range(1, 256),
    };
    let mut strings = [text0(r), text0(r), text0(r), text0(r)];
    // the padding in front of the first text is zeros, so the first text is not empty
    if strings[0].is_empty() {
        strings[0] = b"N".to_vec();
    }
    let mut i = Info {
        version: *r.pick(&[0i64, 1, 23, 24, 25, 26, 38, 39, 1000, -1, i32::MAX as i64, i32::MIN as i64]),
        w: dim(r),
        h: dim(r),
        strings,
        left: 0,
        bottom: 0,
        right: 1,
        top: 1,
        pad: *r.pick(&[0usize, 1, 4, 8, 30]),
    };
    i.fit(r);
    i
}

/// A height map for these dimensions and the heights it stores.
pub fn height_bytes(i: &Info, r: &mut Rng) -> (Vec<u8>, Vec<u8>) {
    let (w, h) = (i.w + 1, i.h + 1);
    let mut v = b"HMAP\x65\0\0\0".to_vec();
    le32(&mut v, w);
    le32(&mut v, h);
    v.extend(r.bytes(16));
    let mut heights = vec![];
    for _ in 0..w * h {
        let k = r.below(5) as u8;
        let x = r.next().to_le_bytes();
        v.extend([x[0], x[1], x[2], x[3], k, x[5]]);
        heights.push(k);
    }
    (v, heights)
}

pub const VOID: &str = "bnet:Void (Mod)/0.0/999,file:Mods/Void.SC2Mod";

pub struct DocFile {
    pub x1: i64,
    pub y1: i64,
    pub e1: i64,
    pub e2: i64,
    pub mods: String,
    pub fields: Vec<(String, Vec<u8>)>,
}
impl DocFile {
    pub fn bytes(&self, r: &mut Rng) -> Vec<u8> {
        let mut v = b"H2CS".to_vec();
        v.extend(r.bytes(12));
        le32(&mut v, self.x1);
        le32(&mut v, self.y1);
        v.extend(r.bytes(4));
        le32(&mut v, self.e1);
        le32(&mut v, self.e2);
        v.extend(r.bytes(12));
        v.extend(self.mods.as_bytes());
        v.push(0);
        v.extend((self.fields.len() as u16).to_le_bytes());
        v.extend([0, 0]);
        for (k, t) in &self.fields {
            v.extend((k.len() as u16).to_le_bytes());
            v.extend(k.as_bytes());
            v.extend(b"SUne");
            v.extend((t.len() as u16).to_le_bytes());
            v.extend(t);
        }
        v
    }
}

pub fn gen_header_file(r: &mut Rng) -> DocFile {
    let mut fields: Vec<(String, Vec<u8>)> = vec![];
    for k in ["DocInfo/Name", "DocInfo/DescLong", "DocInfo/DescShort"] {
        if r.chance(4, 5) {
            let n = *r.pick(&[0usize, 5, 40, 300]);
            let mut t = if r.chance(1, 12) { r.bytes(9) } else { gen_text(r, n) };
            if r.chance(1, 20) {
                let to = *r.pick(&[255usize, 256, 257, 4096, 0x7fff, 0x8000, 0xfffe, 0xffff]);
                while t.len() < to {
                    t.push(b'a' + (t.len() % 26) as u8);
                }
            }
            fields.push((k.to_string(), t));
        }
    }
    let others = if r.chance(1, 25) { 250 + r.below(400) } else { r.below(5) };
    for _ in 0..others {
        let k = match r.below(9) {
            // almost the names of the fields that are kept
            5 => format!("{} ", r.pick(&["DocInfo/Name", "DocInfo/DescLong", "DocInfo/DescShort"])),
            6 => format!(" {}", r.pick(&["DocInfo/Name", "DocInfo/DescLong", "DocInfo/DescShort"])),
            7 => r.pick(&["DocInfo/Name", "DocInfo/DescLong", "DocInfo/DescShort"]).to_lowercase(),
            8 => r.pick(&["Name", "DescLong", "Docinfo/Name", "MapInfo/Name", "DocInfo/DescLong/", "DocInfo/DescShort0", "docInfo\\Name", "DocInfo/Nam"]).to_string(),
            0 => "MapInfo/Player00/Name".to_string(),
            1 => "DocInfo/HowToPlayBasic00".to_string(),
            2 => "DocInfo/Screenshot01".to_string(),
            3 => format!("DocInfo/Name{}", r.below(3)),
            _ => lossy(&gen_text(r, 12)),
        };
        let t = gen_text(r, 20);
        fields.push((k, t));
    }
    r.shuffle(&mut fields);
    let mut num = || r.biased(i32::MIN as i128, i32::MAX as i128) as i64;
    DocFile { x1: num(), y1: num(), e1: num(), e2: num(), mods: VOID.to_string(), fields }
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(b).to_string()
}

fn err<T>(c: &mut Case, what: &str, r: &Result<T, s2protocol::S2ProtocolError>, detail: impl FnOnce() -> serde_json::Value) {
    c.count(&format!("refused.{what}"), r.is_err() as u64);
    if r.is_ok() {
        c.fail(format!("accepted: {what}"), detail());
    }
}

fn info_case(c: &mut Case, r: &mut Rng) {
    let mut i = gen_info(r);
    let b = i.bytes(r);
    let k = r.below(12);
    let extra = r.bytes(k);
    let mut input = b.clone();
    input.extend(&extra);
    c.seen(fnv(&input));
    c.sample(|| json!({"width": i.w, "height": i.h, "bytes": input.len()}));
    match MapInfo::parse(&input) {
        Ok((tail, m)) => {
            c.count("map_infos", 1);
            let got = json!([m.file_version, m.cell_width, m.cell_height, m.first_string, m.second_string, m.third_string, m.fourth_string, m.cell_left, m.cell_bottom, m.cell_right, m.cell_top]);
            let want = json!([i.version, i.w, i.h, lossy(&i.strings[0]), lossy(&i.strings[1]), lossy(&i.strings[2]), lossy(&i.strings[3]), i.left, i.bottom, i.right, i.top]);
            c.check(got == want, "map info differs", || json!({"got": got, "want": want}));
            c.check(tail == extra, "input left after the map info", || json!({"got": tail.len(), "want": extra.len()}));
            let t = (m.terrain_dim_map(), m.cell_dim_map(), m.cell_dim_playable(), m.terrain_dim_playable(), m.cell_left_bottom(), m.cell_right_top());
            let got = [t.0.x, t.0.y, t.1.x, t.1.y, t.2.x, t.2.y, t.3.x, t.3.y, t.4.x, t.4.y, t.5.x, t.5.y].map(|x| x as i64);
            let (pw, ph) = (i.right - i.left, i.top - i.bottom);
            let want = [i.w + 1, i.h + 1, i.w, i.h, pw, ph, pw + 1, ph + 1, i.left, i.bottom, i.right, i.top];
            c.check(got == want, "dimensions of the map", || json!({"got": got, "want": want}));
        }
        Err(e) => c.fail("map info refused", json!({"info": format!("{i:?}"), "error": trunc(&format!("{e:?}"), 200)})),
    }
    // cut anywhere
    let cut = r.below(b.len());
    err(c, "cut map info", &MapInfo::parse(&b[..cut]), || json!({"cut": cut, "of": b.len(), "info": format!("{i:?}")}));
    // another signature
    let mut x = b.clone();
    x[r.below(4)] ^= 1 << r.below(8);
    err(c, "map info signature", &MapInfo::parse(&x), || json!({"bytes": &x[..4]}));
    // inconsistent bounds
    let what = match r.below(8) {
        0 => {
            i.w = 257 + r.biased(0, 0x7000_0000) as i64;
            "too wide"
        }
        1 => {
            i.h = 257 + r.biased(0, 0x7000_0000) as i64;
            "too high"
        }
        2 => {
            i.right = i.w + 1 + r.below(3) as i64;
            "right of the map"
        }
        3 => {
            i.top = i.h + 1 + r.below(3) as i64;
            "above the map"
        }
        4 => {
            i.left = i.right + r.below(3) as i64;
            "no playable width"
        }
        5 => {
            i.bottom = i.top + r.below(3) as i64;
            "no playable height"
        }
        6 => {
            i.left = -1 - r.biased(0, 0x7fff_fffe) as i64;
            "left of the map"
        }
        _ => {
            i.bottom = -1 - r.biased(0, 0x7fff_fffe) as i64;
            "below the map"
        }
    };
    let x = i.bytes(r);
    err(c, &format!("bounds: {what}"), &MapInfo::parse(&x), || json!({"info": format!("{i:?}")}));
}

fn height_case(c: &mut Case, r: &mut Rng) {
    let mut i = gen_info(r);
    if r.chance(9, 10) {
        i.w = 1 + r.below(20) as i64;
        i.h = 1 + r.below(20) as i64;
        i.fit(r);
    }
    let ib = i.bytes(r);
    let Ok((_, m)) = MapInfo::parse(&ib) else {
        c.fail("map info refused", json!({"info": format!("{i:?}")}));
        return;
    };
    let (b, heights) = height_bytes(&i, r);
    let k = r.below(12);
    let extra = r.bytes(k);
    let mut input = b.clone();
    input.extend(&extra);
    c.seen(fnv(&input));
    match T3HeightMap::parse(&input, &m) {
        Ok((tail, t)) => {
            c.count("height_maps", 1);
            c.count("heights", heights.len() as u64);
            c.check((t.width as i64, t.height as i64) == (i.w + 1, i.h + 1), "size of the height map", || json!({"got": [t.width, t.height], "info": format!("{i:?}")}));
            if t.data != heights {
                let at = t.data.iter().zip(&heights).take_while(|(a, b)| a == b).count();
                c.fail("heights differ", json!({"at": at, "got": t.data.get(at), "want": heights.get(at), "sizes": [t.data.len(), heights.len()], "width": i.w + 1}));
            }
            c.check(tail == extra, "input left after the height map", || json!({"got": tail.len(), "want": extra.len()}));
        }
        Err(e) => c.fail("height map refused", json!({"info": format!("{i:?}"), "error": trunc(&format!("{e:?}"), 200)})),
    }
    let cut = r.below(b.len());
    err(c, "cut height map", &T3HeightMap::parse(&b[..cut], &m), || json!({"cut": cut, "of": b.len()}));
    let cut = b.len() - 1;
    err(c, "cut height map", &T3HeightMap::parse(&b[..cut], &m), || json!({"cut": cut, "of": b.len()}));
    let mut x = b.clone();
    x[r.below(4)] ^= 1 << r.below(8);
    err(c, "height map signature", &T3HeightMap::parse(&x, &m), || json!({"bytes": &x[..4]}));
    let mut x = b.clone();
    let at = 32 + r.below(heights.len()) * 6 + 4;
    x[at] = 5 + r.below(251) as u8;
    err(c, "height out of range", &T3HeightMap::parse(&x, &m), || json!({"at": at, "height": x[at]}));
    // of another map: the same number of points or not
    let mut j = i.clone();
    match r.below(3) {
        0 => j.w = if i.w > 1 { i.w - 1 } else { i.w + 1 },
        1 => j.h = if i.h > 1 { i.h - 1 } else { i.h + 1 },
        _ if i.w != i.h => std::mem::swap(&mut j.w, &mut j.h),
        _ => j.w = if i.w > 1 { i.w - 1 } else { i.w + 1 },
    }
    let (x, _) = height_bytes(&j, r);
    err(c, "height map of another size", &T3HeightMap::parse(&x, &m), || json!({"map": [i.w, i.h], "heights": [j.w, j.h]}));
}

fn doc_case(c: &mut Case, r: &mut Rng) {
    let mut d = gen_header_file(r);
    let b = d.bytes(r);
    let k = r.below(12);
    let extra = r.bytes(k);
    let mut input = b.clone();
    input.extend(&extra);
    c.seen(fnv(&input));
    let get = |n: &str| d.fields.iter().find(|f| f.0 == n).map(|f| lossy(&f.1)).unwrap_or_default();
    let want = json!([d.x1, d.y1, d.e1, d.e2, d.mods, get("DocInfo/Name"), get("DocInfo/DescLong"), get("DocInfo/DescShort")]);
    match DocumentHeader::parse(&input) {
        Ok((tail, h)) => {
            c.count("document_headers", 1);
            let got = json!([h.maybe_dimension_x1, h.maybe_dimension_y1, h.some_epoch_1, h.some_epoch_2, h.mod_info, h.name, h.description_long, h.description_short]);
            c.check(got == want, "document header differs", || json!({"got": got, "want": want}));
            c.check(tail == extra, "input left after the document header", || json!({"got": tail.len(), "want": extra.len()}));
        }
        Err(e) => c.fail("document header refused", json!({"fields": d.fields.len(), "error": trunc(&format!("{e:?}"), 200)})),
    }
    let cut = r.below(b.len());
    err(c, "cut document header", &DocumentHeader::parse(&b[..cut]), || json!({"cut": cut, "of": b.len()}));
    let mut x = b.clone();
    x[r.below(4)] ^= 1 << r.below(8);
    err(c, "document header signature", &DocumentHeader::parse(&x), || json!({"bytes": &x[..4]}));
    // more fields announced than stored
    let n = d.fields.len() as u16;
    d.fields.push(("DocInfo/Screenshot02".into(), vec![65; 3]));
    let y = d.bytes(r);
    let full = y.len();
    let last = 2 + "DocInfo/Screenshot02".len() + 4 + 2 + 3;
    err(c, "fewer fields than announced", &DocumentHeader::parse(&y[..full - last]), || json!({"stored": n}));
}

/// The three files of one map in an archive.
fn archive_case(c: &mut Case, r: &mut Rng) {
    let mut i = gen_info(r);
    i.w = 1 + r.below(16) as i64;
    i.h = 1 + r.below(16) as i64;
    i.fit(r);
    let d = gen_header_file(r);
    let (hb, heights) = height_bytes(&i, r);
    let (ib, db) = (i.bytes(r), d.bytes(r));
    let damage = r.below(4);
    let mut files = vec![("MapInfo", ib), ("t3HeightMap", hb), ("DocumentHeader", db)];
    if damage < 3 {
        if r.bool() {
            files[damage].1.truncate(r.below(4));
            files[damage].1.push(1);
        } else {
            files.remove(damage);
        }
    }
    r.shuffle(&mut files);
    let file = mpq::archive(None, &files);
    c.seen(fnv(&file));
    c.count("archives", 1);
    let Ok((_, mpq)) = parser::parse(&file) else { panic!("harness: archive not readable") };
    let m = MapInfo::from_mpq(&mpq, &file);
    let h = DocumentHeader::from_mpq(&mpq, &file);
    c.check(m.is_ok() == (damage != 0), "map info of an archive", || json!({"damaged": damage}));
    c.check(h.is_ok() == (damage != 2), "document header of an archive", || json!({"damaged": damage}));
    if let Ok(m) = m {
        c.check((m.cell_width as i64, m.cell_top as i64) == (i.w, i.top), "map info of an archive differs", || json!({"got": format!("{m:?}")}));
        let t = T3HeightMap::from_mpq(&mpq, &file, &m);
        c.check(t.is_ok() == (damage != 1), "height map of an archive", || json!({"damaged": damage}));
        if let Ok(t) = t {
            c.check(t.data == heights, "height map of an archive differs", || json!({"got": t.data.len(), "want": heights.len()}));
        }
    }
    if let Ok(h) = h {
        let name = d.fields.iter().find(|f| f.0 == "DocInfo/Name").map(|f| lossy(&f.1)).unwrap_or_default();
        c.check(h.name == name, "document header of an archive differs", || json!({"got": h.name, "want": name}));
    }
    let _ = mutate;
}

pub fn c01(run: &mut Run) {
    run.rule("distinct map information, height map and document header files (all sizes, versions, texts, field orders), parsed alone and from archives and compared with what was stored; cut, mislabelled and inconsistent ones must be refused");
    run.assume("the layout of the three files is the one documented by the parsers' own samples");
    run.need("map_infos", 2_000);
    run.need("height_maps", 500);
    run.need("document_headers", 2_000);
    run.need("archives", 200);
    run.need("refused.cut map info", 2_000);
    run.need("refused.cut height map", 500);
    run.need("refused.height out of range", 500);
    run.need("refused.height map of another size", 500);
    run.part("map info", 80_000, 4.0, info_case);
    run.part("height map", 6_000, 8.0, height_case);
    run.part("document header", 40_000, 4.0, doc_case);
    run.part("archives", 4_000, 4.0, archive_case);
}

// ------------------------------------------------------------------ C02

/// Coordinates of one map in its frames.
fn frames_case(c: &mut Case, r: &mut Rng) {
    use s2protocol::cache_handles::map::coords::*;
    let i = gen_info(r);
    let b = i.bytes(r);
    let Ok((_, m)) = MapInfo::parse(&b) else {
        c.fail("map info refused", json!({"info": format!("{i:?}")}));
        return;
    };
    c.sample(|| json!({"width": i.w, "height": i.h, "playable": [i.left, i.bottom, i.right, i.top]}));
    let point = |r: &mut Rng, w: i64| match r.below(6) {
        0 => 0,
        1 => w,
        _ => r.range(0, w),
    } as i32;
    for _ in 0..60 {
        // terrain points
        let (x, y) = (point(r, i.w), point(r, i.h));
        c.seen(fnv(&[x.to_le_bytes(), y.to_le_bytes(), (i.left as i32).to_le_bytes(), (i.bottom as i32).to_le_bytes()].concat()));
        let t = MapTerrainCoord::new(x, y);
        let at = MapCoord::from(t);
        c.count("terrain_points", 1);
        c.check((at.x, at.y) == (x as f32, y as f32), "a terrain point is somewhere else on the map", || json!({"terrain": [x, y], "map": [at.x, at.y]}));
        let back = MapTerrainCoord::from(at);
        c.check((back.x, back.y) == (x, y), "a terrain point does not come back", || json!({"terrain": [x, y], "back": [back.x, back.y]}));
        let p = PlayableTerrainCoord::from_map_terrain(&m, t);
        let want = (x - i.left as i32, y - i.bottom as i32);
        c.check((p.x, p.y) == want, "a terrain point is somewhere else in the playable area", || json!({"terrain": [x, y], "got": [p.x, p.y], "want": want, "info": format!("{i:?}")}));
        // cells
        let (x, y) = (x.min(i.w as i32 - 1), y.min(i.h as i32 - 1));
        let at = MapCoord::from(MapCellCoord::new(x, y));
        c.count("cells", 1);
        c.check((at.x, at.y) == (x as f32 + 0.5, y as f32 + 0.5), "a cell is somewhere else on the map", || json!({"cell": [x, y], "map": [at.x, at.y]}));
        let back = MapCellCoord::from(at);
        c.check((back.x, back.y) == (x, y), "a cell does not come back", || json!({"cell": [x, y], "back": [back.x, back.y]}));
        // positions, with the fractions the replays have
        let fx = *r.pick(&[0u32, 1, 2047, 2048, 2049, 4095]);
        let fy = if r.bool() { r.below(4096) as u32 } else { *r.pick(&[0u32, 2047, 2048, 4095]) };
        let at = MapCoord::new(x as f32 + fx as f32 / 4096.0, y as f32 + fy as f32 / 4096.0);
        c.count("positions", 1);
        let cell = MapCellCoord::from(at);
        c.check((cell.x, cell.y) == (x, y), "a position is in another cell", || json!({"map": [at.x, at.y], "got": [cell.x, cell.y], "want": [x, y]}));
        let near = MapTerrainCoord::from(at);
        let want = (x + (fx >= 2048) as i32, y + (fy >= 2048) as i32);
        c.check((near.x, near.y) == want, "a position is nearest to another terrain point", || json!({"map": [at.x, at.y], "got": [near.x, near.y], "want": want}));
    }
    // the frames of the map itself
    let lb = m.terrain_left_bottom();
    let p = PlayableTerrainCoord::from_map_terrain(&m, lb);
    c.check((p.x, p.y) == (0, 0), "the playable area does not start at its own origin", || json!({"got": [p.x, p.y], "info": format!("{i:?}")}));
    let (cells, points) = (m.cell_dim_map(), m.terrain_dim_map());
    c.check((points.x, points.y) == (cells.x + 1, cells.y + 1), "cells are not bordered by terrain points", || json!({"cells": [cells.x, cells.y], "points": [points.x, points.y]}));
    let far = MapTerrainCoord::new(m.cell_right_top().x, m.cell_right_top().y);
    let p = PlayableTerrainCoord::from_map_terrain(&m, far);
    let d = m.terrain_dim_playable();
    c.check((p.x + 1, p.y + 1) == (d.x, d.y), "the playable area does not end at its own size", || json!({"got": [p.x, p.y], "dim": [d.x, d.y], "info": format!("{i:?}")}));
    c.count("maps", 1);
}

pub fn c02(run: &mut Run) {
    run.rule("distinct points of distinct playable areas: terrain points, cells and positions with the fractions replays have, converted between the map, terrain, cell and playable frames and compared with the frame definitions");
    run.assume("positions are within the map, as MapInfo bounds it (0 to 256)");
    run.need("maps", 1_000);
    run.need("terrain_points", 50_000);
    run.need("positions", 50_000);
    run.part("frames", 100_000, 6.0, frames_case);
}
