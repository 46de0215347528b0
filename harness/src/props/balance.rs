//! B01 and B02: the balance data, built in, as JSON and as XML.
use crate::props::decode::{TmpDir, to_json};
use crate::props::files::as_nobody;
use crate::props::state::open;
use crate::report::{Case, Run, repo_dir};
use crate::rng::{Rng, fnv};
use crate::scen::*;
use crate::schema::*;
use s2protocol::SC2EventIterator;
use s2protocol::game_events::*;
use serde_json::{Map, Value, json};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

type Units = HashMap<(u32, String), VersionedBalanceUnit>;

/// What a balance file may hold, written down from the files' documentation.
#[derive(Clone, Copy)]
enum F {
    /// text, optional text, text that defaults to nothing
    S,
    OS,
    DS,
    /// whole numbers up to a maximum
    U(u64),
    OU(u64),
    DU(u64),
    I,
    OI,
    /// decimal numbers
    R,
    OR,
    /// one part, an optional part, a part that defaults to an empty one, a list of parts
    M(&'static str),
    O(&'static str),
    D(&'static str),
    L(&'static str),
}
use F::*;
const U32: u64 = u32::MAX as u64;
const U16: u64 = u16::MAX as u64;

const PARTS: &[(&str, &[(&str, F)])] = &[
    ("meta", &[("@name", S), ("@tooltip", S), ("@icon", OS), ("@race", OS), ("@hotkey", OS), ("@source", OS), ("@index", OU(U32)), ("@type", OS)]),
    ("life", &[("@start", U(U32)), ("@max", U(U32)), ("@regenRate", OR)]),
    ("shields", &[("@start", U(U32)), ("@max", U(U32)), ("@regenRate", R), ("@delay", OR)]),
    ("start_max", &[("@start", U(U32)), ("@max", U(U32))]),
    ("short_ref", &[("@id", S), ("@name", S)]),
    ("unit_ref", &[("@id", S), ("@name", OS), ("@ability", OU(U16)), ("@index", OI), ("meta", O("meta")), ("cost", O("cost")), ("requires", D("units"))]),
    ("units", &[("unit", L("short_ref"))]),
    ("unit_refs", &[("unit", L("unit_ref"))]),
    ("cost", &[("@minerals", OU(U32)), ("@vespene", OU(U32)), ("@supply", OR), ("@time", OR), ("@energy", OU(U32)), ("@cooldown", OR), ("@life", OU(U32))]),
    ("movement", &[("@type", S), ("@speed", R), ("@acceleration", R), ("@deceleration", R), ("@turnRate", OR)]),
    ("score", &[("@build", OU(U32)), ("@kill", OU(U32))]),
    (
        "misc",
        &[("@radius", OR), ("@cargoSize", OU(U32)), ("@footprint", OS), ("@sightRadius", OR), ("@supply", OR), ("@range", OR), ("@speed", OR),
            ("@targets", OS), ("@count", OU(U32)), ("@cargoCapacity", OU(U32))],
    ),
    ("bonus", &[("@damage", U(U32)), ("@max", U(U32)), ("@type", OS)]),
    ("effect", &[("@id", S), ("@index", U(U32)), ("@radius", R), ("@damage", U(U32)), ("@max", U(U32)), ("@death", S), ("@kind", S), ("bonus", O("bonus"))]),
    ("weapon", &[("@id", S), ("@index", U(U32)), ("meta", M("meta")), ("misc", O("misc")), ("score", O("effect"))]),
    ("weapons", &[("weapon", L("weapon"))]),
    ("attribute", &[("@type", OS)]),
    ("attributes", &[("attribute", L("attribute"))]),
    ("command", &[("@id", OS), ("@index", I), ("meta", M("meta"))]),
    ("ability", &[("@id", S), ("@index", OU(U16)), ("command", L("command"))]),
    ("abilities", &[("ability", L("ability"))]),
    ("upgrade_ref", &[("@id", DS), ("@name", S)]),
    ("needs", &[("unit", L("short_ref")), ("upgrade", L("upgrade_ref"))]),
    ("level", &[("@id", DS), ("@index", DU(U32)), ("meta", M("meta")), ("requires", L("needs")), ("cost", M("cost"))]),
    ("upgrade", &[("@id", S), ("level", L("level"))]),
    ("upgrades", &[("upgrade", L("upgrade"))]),
    ("research", &[("@id", S), ("@ability", U(U16)), ("@index", I), ("meta", M("meta")), ("cost", M("cost"))]),
    ("researches", &[("upgrade", L("research"))]),
    (
        "unit",
        &[("@id", S), ("meta", M("meta")), ("life", M("life")), ("shields", O("shields")), ("armor", M("start_max")), ("shieldArmor", M("start_max")),
            ("requires", D("units")), ("cost", O("cost")), ("researches", O("researches")), ("movement", O("movement")), ("score", M("score")), ("misc", M("misc")),
            ("producer", O("short_ref")), ("attributes", D("attributes")), ("strengths", D("units")), ("weaknesses", D("units")), ("weapons", D("weapons")),
            ("abilities", D("abilities")), ("builds", D("unit_refs")), ("trains", D("unit_refs")), ("upgrades", D("upgrades"))],
    ),
];

fn part(name: &str) -> &'static [(&'static str, F)] {
    PARTS.iter().find(|p| p.0 == name).unwrap_or_else(|| panic!("harness: part {name}")).1
}

fn text(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::from_utf8_lossy(&gen_text(r, 10)).chars().filter(|c| !c.is_control()).collect::<String>().trim().to_string(),
        1 if r.chance(1, 60) => format!("{}{}end", word(r), "Lurker Den ".repeat(20 + r.below(400))),
        1 => r.pick(&["a&b", "x<y", "q\"t'", "é ü", "Огонь", "星际"]).to_string(),
        2 => r.below(2000).to_string(),
        _ => format!("{}{}", word(r), r.below(50)),
    }
}
/// A word without what XML normalizes and file names cannot hold.
fn word(r: &mut Rng) -> String {
    let w: String = r.pick(WORDS).chars().filter(|c| !c.is_control() && *c != '/').collect();
    w.trim().to_string()
}
fn decimal(r: &mut Rng) -> f32 {
    match r.below(6) {
        0 => r.range(-1, 200) as f32,
        1 => r.range(-4_000_000, 4_000_000) as f32 / 4096.0,
        2 => *r.pick(&[0.0f32, -1.0, 2.9531, 999.8437, 0.0004, 0.33, 1e-7, 16777216.0, 3.4e38]),
        _ => r.range(0, 4000) as f32 / 16.0,
    }
}
fn number(r: &mut Rng, max: u64) -> u64 {
    match r.below(8) {
        0 => max,
        1 => 0,
        2 => r.next() % (max + 1),
        _ => r.below(600) as u64,
    }
}
fn index(r: &mut Rng) -> i64 {
    match r.below(10) {
        0 => *r.pick(&[i64::MIN, i64::MAX, -1]),
        _ => r.range(0, 9),
    }
}

/// A part with the values that reading it must give, defaults included.
fn gen_part(r: &mut Rng, name: &str, depth: usize) -> Value {
    let mut m = Map::new();
    for (k, f) in part(name) {
        let some = r.chance(3, 5);
        let v = match f {
            S => json!(text(r)),
            OS if some => json!(text(r)),
            DS if some => json!(text(r)),
            DS => json!(""),
            U(x) => json!(number(r, *x)),
            OU(x) | DU(x) if some => json!(number(r, *x)),
            DU(_) => json!(0),
            I => json!(index(r)),
            OI if some => json!(index(r)),
            R => json!(decimal(r)),
            OR if some => json!(decimal(r)),
            M(p) => gen_part(r, p, depth + 1),
            O(p) if some => gen_part(r, p, depth + 1),
            D(p) if some => gen_part(r, p, depth + 1),
            // an absent part is an empty one
            D(p) => part(p).iter().map(|(k, _)| (k.to_string(), json!([]))).collect::<Map<_, _>>().into(),
            L(p) => {
                let n = if depth < 2 && r.chance(1, 120) {
                    20 + r.below(180)
                } else if r.chance(1, 3) { 0 } else { 1 + r.below(if depth < 3 { 3 } else { 2 }) };
                (0..n).map(|_| gen_part(r, p, depth + 1)).collect()
            }
            _ => Value::Null,
        };
        m.insert(k.to_string(), v);
    }
    Value::Object(m)
}

/// A unit description: what reading its file must give.
pub fn gen_unit(r: &mut Rng, id: &str) -> Value {
    let mut v = gen_part(r, "unit", 0);
    v["@id"] = json!(id);
    v
}

fn escape(s: &str) -> String {
    s.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;").replace('"', "&quot;").replace('\'', "&apos;")
}

fn plain_number(v: &Value) -> String {
    match v {
        Value::Number(n) if n.is_f64() => format!("{}", n.as_f64().unwrap() as f32),
        Value::Number(n) => n.to_string(),
        v => panic!("harness: number {v}"),
    }
}

fn space(r: &mut Rng, out: &mut String) {
    match r.below(4) {
        0 => out.push('\n'),
        1 => out.push_str("\n\t  "),
        2 if r.chance(1, 6) => out.push_str("<!-- a <comment/> -->"),
        _ => {}
    }
}

fn unknown(r: &mut Rng, out: &mut String) {
    match r.below(12) {
        0 => out.push_str("<zzz9 a=\"1\"/>"),
        1 => out.push_str("<zzz8><meta name=\"1\"/>some text<deep><er/></deep></zzz8>"),
        2 => out.push_str("<zzz7>text</zzz7>"),
        _ => {}
    }
}

/// The same part as XML; parts that equal their default are left out or written empty.
fn to_xml(r: &mut Rng, tag: &str, name: &str, v: &Value, extras: bool, out: &mut String) {
    out.push('<');
    out.push_str(tag);
    let mut attrs: Vec<String> = vec![];
    let mut kids: Vec<(&str, &str, &Value)> = vec![];
    for (k, f) in part(name) {
        let x = &v[*k];
        match (f, k.strip_prefix('@')) {
            (_, Some(_)) if x.is_null() => {}
            (DS, Some(_)) if x == "" && r.bool() => {}
            (DU(_), Some(_)) if x == 0 && r.bool() => {}
            (S | OS | DS, Some(a)) => attrs.push(format!("{a}=\"{}\"", escape(x.as_str().unwrap()))),
            (_, Some(a)) => attrs.push(format!("{a}=\"{}\"", plain_number(x))),
            (M(p) | O(p) | D(p) | L(p), None) => kids.push((k, p, x)),
            _ => panic!("harness: table"),
        }
    }
    if extras && r.chance(1, 8) {
        attrs.push("zzz6=\"x\"".into());
    }
    r.shuffle(&mut attrs);
    for a in attrs {
        out.push_str(if r.chance(1, 8) { "\n " } else { " " });
        out.push_str(&a);
    }
    let empty = |x: &Value| x.as_object().is_some_and(|o| !o.is_empty() && o.values().all(|l| l.as_array().is_some_and(|a| a.is_empty())));
    r.shuffle(&mut kids);
    let mut inner = String::new();
    if extras {
        unknown(r, &mut inner);
    }
    for (k, p, x) in kids {
        let default = matches!(part(name).iter().find(|f| f.0 == k).unwrap().1, D(_));
        if x.is_null() || (default && empty(x) && r.bool()) {
            continue;
        }
        if let Some(l) = x.as_array() {
            for e in l {
                space(r, &mut inner);
                to_xml(r, k, p, e, extras, &mut inner);
            }
        } else {
            space(r, &mut inner);
            to_xml(r, k, p, x, extras, &mut inner);
        }
    }
    if extras {
        unknown(r, &mut inner);
    }
    space(r, &mut inner);
    if inner.is_empty() && r.bool() {
        out.push_str("/>");
    } else {
        out.push('>');
        out.push_str(&inner);
        out.push_str("</");
        out.push_str(tag);
        out.push('>');
    }
}

fn unit_xml(r: &mut Rng, v: &Value, extras: bool) -> String {
    let mut s = String::new();
    match r.below(3) {
        0 => s.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"),
        1 => s.push_str("<?xml version='1.0'?>"),
        _ => {}
    }
    to_xml(r, "unit", "unit", v, extras, &mut s);
    if r.bool() {
        s.push('\n');
    }
    s
}

/// Equal as data: numbers compare as 32 bit decimals when they are decimals, absent is null.
fn same(want: &Value, got: &Value, at: &str) -> Option<String> {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => {
            for k in a.keys().chain(b.keys()) {
                let n = Value::Null;
                if let Some(d) = same(a.get(k).unwrap_or(&n), b.get(k).unwrap_or(&n), &format!("{at}.{k}")) {
                    return Some(d);
                }
            }
            None
        }
        (Value::Array(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Some(format!("{at}: {} entries, expected {}", b.len(), a.len()));
            }
            a.iter().zip(b).enumerate().find_map(|(i, (a, b))| same(a, b, &format!("{at}[{i}]")))
        }
        (Value::Number(a), Value::Number(b)) => {
            let eq = if a.is_f64() || b.is_f64() { a.as_f64().map(|x| x as f32) == b.as_f64().map(|x| x as f32) } else { a == b };
            (!eq).then(|| format!("{at}: {b}, expected {a}"))
        }
        _ => (want != got).then(|| format!("{at}: {}, expected {}", short(got), short(want))),
    }
}

fn compare_units(c: &mut Case, what: &str, want: &BTreeMap<(u32, String), Value>, got: &Units, ctx: impl Fn() -> Value) {
    let keys: BTreeSet<(u32, String)> = got.keys().cloned().collect();
    let missing: Vec<_> = want.keys().filter(|k| !keys.contains(*k)).take(5).collect();
    let extra: Vec<_> = keys.iter().filter(|k| !want.contains_key(*k)).take(5).collect();
    if !missing.is_empty() || !extra.is_empty() {
        c.fail(format!("{what}: units missing or made up"), json!({"missing": missing, "extra": extra, "want": want.len(), "got": got.len(), "ctx": ctx()}));
        return;
    }
    for (k, w) in want {
        if let Some(d) = same(w, &to_json(&got[k]), "") {
            c.fail(format!("{what}: unit differs"), json!({"unit": k, "diff": d, "ctx": ctx()}));
            return;
        }
        c.count("units_compared", 1);
        c.seen(fnv(format!("{k:?}{w}").as_bytes()));
    }
}

// ------------------------------------------------------------------ B01

fn embedded_case(c: &mut Case, _r: &mut Rng) {
    let root = repo_dir().join("assets/BalanceData");
    let mut want = BTreeMap::new();
    for v in std::fs::read_dir(&root).expect("harness: assets").filter_map(|e| e.ok()) {
        let Some(version) = v.file_name().to_str().and_then(|s| s.parse::<u32>().ok()) else { continue };
        for f in std::fs::read_dir(v.path()).expect("harness: assets").filter_map(|e| e.ok()) {
            let name = f.file_name().to_string_lossy().trim_end_matches(".json").to_string();
            let j: Value = serde_json::from_slice(&std::fs::read(f.path()).expect("harness: asset")).expect("harness: asset json");
            c.check(j["@id"] == json!(name), "harness asset name", || json!({"file": f.path()}));
            want.insert((version, name), j);
        }
        c.count("versions", 1);
    }
    c.sample(|| json!({"units": want.len()}));
    match read_balance_data_from_included_assets() {
        Ok(got) => {
            compare_units(c, "built-in data", &want, &got, || json!({}));
            for ((v, n), u) in &got {
                c.check(to_json(u)["@id"] == json!(n), "unit filed under another name", || json!({"version": v, "name": n}));
            }
            // written and read back
            let dir = TmpDir::new();
            let one = *want.keys().map(|k| &k.0).nth((c.seed % want.len() as u64) as usize).unwrap();
            let part: Units = got.iter().filter(|(k, _)| k.0 == one).map(|(k, v)| (k.clone(), v.clone())).collect();
            let w: BTreeMap<_, _> = want.iter().filter(|(k, _)| k.0 == one).map(|(k, v)| (k.clone(), v.clone())).collect();
            match write_balance_data_to_json(&dir.0, part).and_then(|_| read_balance_data_from_json_dir(&dir.0)) {
                Ok(back) => compare_units(c, "built-in data read back", &w, &back, || json!({"version": one})),
                Err(e) => c.fail("built-in data not written or read back", json!({"error": e.to_string()})),
            }
        }
        Err(e) => c.fail("built-in data not read", json!({"error": e.to_string()})),
    }
}

fn unit_id(r: &mut Rng, k: usize) -> String {
    match r.below(7) {
        0 => format!("{} {k}", word(r)),
        4 => format!("Odd{k}.json"),
        5 => [format!(".Unit{k}"), format!("Unit{k}.JSON"), format!("Unit{k}."), format!("{k}.json.json")][r.below(4)].clone(),
        1 => format!("Ünit{k}.x"),
        2 => format!("-u@{k}"),
        3 => format!("json{k}"),
        _ => format!("{}{k}", r.pick(UNIT_NAMES)),
    }
}

fn json_case(c: &mut Case, r: &mut Rng) {
    let mut want = BTreeMap::new();
    let mut map: Units = HashMap::new();
    let versions: Vec<u32> = (0..1 + r.below(4)).map(|_| *r.pick(&[0u32, 15405, 75689, 94137, 94138, 941370, u32::MAX])).collect();
    for k in 0..r.below(8) {
        let id = unit_id(r, k);
        for v in &versions {
            if r.chance(2, 3) {
                let j = gen_unit(r, &id);
                map.insert((*v, id.clone()), serde_json::from_value(j.clone()).expect("harness: unit"));
                want.insert((*v, id.clone()), j);
            }
        }
    }
    let dir = TmpDir::new();
    let root = dir.0.join("out");
    if r.bool() {
        // an older export of the same units is replaced
        let mut older = map.clone();
        for (k, u) in older.iter_mut() {
            *u = serde_json::from_value(gen_unit(r, &k.1)).expect("harness: unit");
        }
        if let Err(e) = write_balance_data_to_json(&root, older) {
            c.fail("balance data not written", json!({"error": e.to_string()}));
            return;
        }
    }
    std::fs::create_dir_all(root.join("notes")).expect("harness: dir");
    std::fs::write(root.join("notes/x.json"), b"{").expect("harness: write");
    std::fs::write(root.join("readme.txt"), b"x").expect("harness: write");
    // almost the name of a version
    for d in ["v94137", "94137.bak", "94137a", "94137 ", "0x16fb9", "-1", "4294967296", "94_137", "94137-94138"] {
        if r.chance(1, 3) {
            std::fs::create_dir_all(root.join(d)).expect("harness: dir");
            std::fs::write(root.join(d).join("Other.json"), gen_unit(r, "Other").to_string()).expect("harness: write");
        }
    }
    let ctx = || json!({"versions": versions, "units": want.keys().collect::<Vec<_>>()});
    c.sample(ctx);
    c.count("json_directories", 1);
    if let Err(e) = write_balance_data_to_json(&root, map.clone()) {
        c.fail("balance data not written", json!({"error": e.to_string(), "ctx": ctx()}));
        return;
    }
    match read_balance_data_from_json_dir(&root) {
        Ok(back) => {
            compare_units(c, "balance data read back", &want, &back, ctx);
            for (k, u) in &map {
                c.check(back.get(k).map(|b| format!("{b:?}")) == Some(format!("{u:?}")), "unit read back differs", || json!({"unit": k, "ctx": ctx()}));
            }
        }
        Err(e) => c.fail("balance data not read back", json!({"error": e.to_string(), "ctx": ctx()})),
    }
}

/// The entries of other versions make no difference to an iteration.
fn version_case(c: &mut Case, r: &mut Rng) {
    let o = Opts { steps: 60 + r.below(60), commands: 50, selections: 25, positions: 3, ..Default::default() };
    let sc = gen_scen(r, &o);
    let dir = TmpDir::new();
    let Some((_, init, _)) = open(c, &sc, &dir, r) else { return };
    let own: Units = sc.balance.all.iter().filter(|(k, _)| k.0 == sc.build).map(|(k, v)| (k.clone(), v.clone())).collect();
    // every unit of the replay also under other versions, with other commands
    let mut all = own.clone();
    let others = [sc.build.wrapping_sub(1), sc.build.wrapping_add(1), 94137, 0, u32::MAX];
    for n in UNIT_NAMES {
        let v = *r.pick(&others);
        if v != sc.build {
            all.insert((v, n.to_string()), serde_json::from_value(gen_unit_json(r, n)).expect("harness: unit"));
            c.count("units_of_other_versions", 1);
        }
    }
    let run = |m: Units| -> Option<Vec<String>> { Some(SC2EventIterator::new(&init, m).ok()?.map(|i| serde_json::to_string(&i).unwrap()).collect()) };
    let (Some(a), Some(b)) = (run(own.clone()), run(all)) else { return };
    c.seen(sc.hash());
    c.sample(|| sc.describe());
    c.count("iterations_compared", 1);
    c.count("named_abilities", a.iter().filter(|i| i.contains("\"ability\":\"") && !i.contains("\"ability\":\"\"")).count() as u64);
    let at = a.iter().zip(&b).position(|(x, y)| x != y);
    c.check(a == b, "entries of another version change an iteration", || {
        json!({"at": at, "own": at.map(|i| trunc(&a[i], 400)), "with_others": at.map(|i| trunc(&b[i], 400)), "scenario": sc.describe()})
    });
    // without entries of this version no ability is named
    let none: Units = sc.balance.all.iter().filter(|(k, _)| k.0 != sc.build).map(|(k, v)| (k.clone(), v.clone())).collect();
    if let (Some(x), Some(y)) = (run(none), run(HashMap::new())) {
        c.check(x == y, "entries of another version change an iteration", || json!({"scenario": sc.describe(), "own_entries": 0}));
    }
}

pub fn b01(run: &mut Run) {
    run.rule("distinct balance units compared: every shipped unit file against the built-in map, generated units written and read back, and replays iterated with and without the entries of other versions");
    run.assume("unit ids are usable as file names (no slash, not ending in .json)");
    run.need("versions", 7);
    run.need("units_compared", 8_000);
    run.need("json_directories", 300);
    run.need("iterations_compared", 200);
    run.need("units_of_other_versions", 500);
    run.part("built-in", 1, 10.0, embedded_case);
    run.part("json", 800, 6.0, json_case);
    run.part("versions", 300, 8.0, version_case);
}

// ------------------------------------------------------------------ B02

fn xml_case(c: &mut Case, r: &mut Rng) {
    let dir = TmpDir::new();
    let root = dir.0.join("root");
    std::fs::create_dir_all(&root).expect("harness: dir");
    let mut want = BTreeMap::new();
    let mut files = vec![];
    let mut locked = false;
    for _ in 0..1 + r.below(3) {
        let v = *r.pick(&[75689u32, 94137, 94138, 96883, 0, 7]);
        let vdir = root.join(v.to_string());
        if vdir.exists() {
            continue;
        }
        let bd = vdir.join("BalanceData");
        std::fs::create_dir_all(&bd).expect("harness: dir");
        for k in 0..r.below(7) {
            let id = unit_id(r, k);
            let j = gen_unit(r, &id);
            let extras = r.bool();
            let xml = unit_xml(r, &j, extras);
            // the name of the file does not matter
            let name = if r.bool() { format!("{id}.xml") } else { format!("f{k}.xml") };
            let mut bytes = xml.clone().into_bytes();
            let kind = r.below(24);
            let what = match kind {
                0 => {
                    let end = xml.trim_end().len() - 1;
                    bytes.truncate(r.below(end));
                    "cut"
                }
                1 => {
                    bytes = b"not a description".to_vec();
                    "text"
                }
                2 => {
                    let n = r.below(60);
                    bytes = r.bytes(n);
                    bytes.push(0xff);
                    "bytes"
                }
                3 => {
                    // a required part left out, a number that is none, a number out of range
                    let mut b = j.clone();
                    let (k, p) = *r.pick(&[("life", ""), ("armor", ""), ("misc", ""), ("life", "@max"), ("meta", "@name"), ("armor", "@start")]);
                    let mut s = String::new();
                    if p.is_empty() {
                        b[k] = Value::Null;
                        to_xml(r, "unit", "unit", &b, false, &mut s);
                    } else {
                        b[k][p] = Value::Null;
                        to_xml(r, "unit", "unit", &b, false, &mut s);
                    }
                    bytes = s.into_bytes();
                    "incomplete"
                }
                4 => {
                    let mut b = j.clone();
                    b["life"]["@start"] = json!(*r.pick(&[-1i64, 1 << 33]));
                    let mut s = String::new();
                    to_xml(r, "unit", "unit", &b, false, &mut s);
                    bytes = s.into_bytes();
                    "out of range"
                }
                5 => {
                    // valid but for one byte inside a text
                    let at = bytes.iter().position(|b| *b == b'"').unwrap() + 1;
                    bytes.insert(at, *r.pick(&[0xffu8, 0xc0, 0x80]));
                    "not UTF-8"
                }
                6 => {
                    std::fs::create_dir_all(bd.join(format!("dir{k}.xml"))).expect("harness: dir");
                    "unit"
                }
                _ => "unit",
            };
            files.push(format!("{v}/{name} {what}"));
            let mut p = bd.join(&name);
            if p.exists() {
                continue;
            }
            if kind == 7 {
                p = bd.join(format!("{id}.txt"));
            }
            if kind == 9 {
                // a name that is no text
                p = bd.join(OsString::from_vec([format!("n{k}").as_bytes(), b"\xff\xc3.xml"].concat()));
                c.count("files.odd_name", 1);
            }
            std::fs::write(&p, &bytes).expect("harness: write");
            if kind == 8 {
                use std::os::unix::fs::PermissionsExt;
                std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0)).expect("harness: mode");
                locked = true;
                c.count("files.unreadable", 1);
                continue;
            }
            c.count(&format!("files.{what}"), 1);
            if what == "unit" && kind != 7 {
                want.insert((v, id), j);
            }
        }
        std::fs::write(bd.join("notes.txt"), b"<unit/>").expect("harness: write");
    }
    // what is not a version with balance data
    std::fs::write(root.join("96999"), b"x").expect("harness: write");
    std::fs::create_dir_all(root.join("97000")).expect("harness: dir");
    std::fs::create_dir_all(root.join("latest/BalanceData")).expect("harness: dir");
    let j = gen_unit(r, "Lost");
    std::fs::write(root.join("latest/BalanceData/Lost.xml"), unit_xml(r, &j, false)).expect("harness: write");
    for d in ["v96883", "96883.bak", "96883 ", "-7", "4294967296", "96_883", "96883-PTR"] {
        if r.chance(1, 3) {
            let bd = root.join(d).join("BalanceData");
            std::fs::create_dir_all(&bd).expect("harness: dir");
            let j = gen_unit(r, "Other");
            std::fs::write(bd.join("Other.xml"), unit_xml(r, &j, false)).expect("harness: write");
        }
    }
    let ctx = || json!({"files": files});
    c.sample(ctx);
    c.count("directories", 1);
    if locked {
        // the way to the case must be open for the other user
        use std::os::unix::fs::PermissionsExt;
        for p in [crate::props::decode::scratch_dir().as_path(), &dir.0] {
            let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o755));
        }
        if as_nobody(|| std::fs::read_dir(&root).is_err()) {
            c.count("unreadable_files_not_possible", 1);
            return;
        }
    }
    let read = || traverse_versioned_balance_abilities(&root);
    let got = if locked { as_nobody(read) } else { read() };
    match got {
        Ok(got) => compare_units(c, "balance files", &want, &got, ctx),
        Err(e) => c.fail("the directory of balance files fails", json!({"error": e.to_string(), "ctx": ctx()})),
    }
}

/// The name of an ability: the first match among the unit's own lists.
fn name_case(c: &mut Case, r: &mut Rng) {
    let mut units: HashMap<String, VersionedBalanceUnit> = HashMap::new();
    let mut b = Balance::default();
    for k in 0..1 + r.below(3) {
        let n = format!("U{k}");
        let j = if r.bool() { gen_unit_json(r, &n) } else { gen_unit(r, &n) };
        units.insert(n.clone(), serde_json::from_value(j.clone()).expect("harness: unit"));
        b.own.insert(n, j);
    }
    let mut pairs: Vec<(u16, i64)> = vec![];
    for j in b.own.values() {
        let none = vec![];
        for a in j["abilities"]["ability"].as_array().unwrap_or(&none) {
            for x in a["command"].as_array().unwrap_or(&none) {
                pairs.push((a["@index"].as_u64().unwrap_or(0) as u16, x["@index"].as_i64().unwrap_or(0)));
            }
        }
        for (k, i) in [("trains", "unit"), ("builds", "unit"), ("researches", "upgrade")] {
            for x in j[k][i].as_array().unwrap_or(&none) {
                pairs.push((x["@ability"].as_u64().unwrap_or(0) as u16, x["@index"].as_i64().unwrap_or(0)));
            }
        }
    }
    for _ in 0..10 {
        pairs.push((r.below(8) as u16, r.range(-1, 6)));
    }
    for (a, i) in pairs {
        for n in ["U0", "U1", "U2", "Nobody"] {
            let want = ability_name(&b, n, a as i128, i as i128);
            let got = get_indexed_ability_command_name(&units, n, a, i);
            c.count("names_compared", 1);
            c.count("names_found", !want.is_empty() as u64);
            c.check(want == got, "name of an ability", || json!({"unit": n, "ability": a, "command": i, "want": want, "got": got}));
        }
    }
}

pub fn b02(run: &mut Run) {
    run.rule("distinct unit descriptions read back from generated directories of balance files, mixed with malformed, incomplete, unreadable and unrelated files; every value of every unit compared");
    run.assume("repeated elements of a kind follow each other within their parent, as in the files of the game editor");
    run.need("directories", 300);
    run.need("units_compared", 1_200);
    for k in ["cut", "text", "bytes", "incomplete", "out of range", "not UTF-8", "unreadable"] {
        run.need(&format!("files.{k}"), 10);
    }
    run.need("names_found", 1_000);
    run.part("directories", 3000, 12.0, xml_case);
    run.part("command names", 2000, 4.0, name_case);
}
