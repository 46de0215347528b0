//! Value trees over the wire schema: random generation, encoding in both wire formats, and the two
//! renderings the decoded values are compared against (Debug text of the wire structs, JSON of the
//! typed events).
use crate::rng::Rng;
use crate::wire::*;
use serde_json::{Map, Value, json};
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Int(i128),
    Bool(bool),
    /// Blobs, byte arrays, bit arrays (packed as the decoder returns them)
    Bytes(Vec<u8>),
    /// A bit array of `len` bits read as one integer
    Bits { len: u32, val: u64 },
    /// A bit array of `len` bits returned in groups of 8
    BitVec { len: u32, groups: Vec<u8> },
    List(Vec<V>),
    Struct(Vec<(String, V)>),
    Variant(String, Option<Box<V>>),
    Opt(Option<Box<V>>),
    Null,
}

impl V {
    pub fn get(&self, name: &str) -> &V {
        match self {
            V::Struct(f) => match f.iter().find(|(n, _)| n == name) {
                Some((_, v)) => v,
                None => panic!("harness: no field {name}"),
            },
            V::Variant(_, Some(v)) => v.get(name),
            V::Opt(Some(v)) => v.get(name),
            _ => panic!("harness: get {name} on {self:?}"),
        }
    }
    pub fn get_mut(&mut self, name: &str) -> &mut V {
        match self {
            V::Struct(f) => match f.iter_mut().find(|(n, _)| n == name) {
                Some((_, v)) => v,
                None => panic!("harness: no field {name}"),
            },
            V::Variant(_, Some(v)) => v.get_mut(name),
            V::Opt(Some(v)) => v.get_mut(name),
            _ => panic!("harness: get_mut {name}"),
        }
    }
    /// Dotted path assignment.
    pub fn set(&mut self, path: &str, val: V) -> &mut Self {
        {
            let mut cur = &mut *self;
            for p in path.split('.') {
                cur = cur.get_mut(p);
            }
            *cur = val;
        }
        self
    }
    pub fn int(&self) -> i128 {
        match self {
            V::Int(i) => *i,
            V::Opt(Some(v)) => v.int(),
            _ => panic!("harness: int on {self:?}"),
        }
    }
    pub fn opt_int(&self) -> Option<i128> {
        match self {
            V::Opt(None) => None,
            V::Opt(Some(v)) => Some(v.int()),
            V::Int(i) => Some(*i),
            _ => panic!("harness: opt_int on {self:?}"),
        }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            V::Bytes(b) => b,
            V::Opt(Some(v)) => v.bytes(),
            _ => panic!("harness: bytes on {self:?}"),
        }
    }
    pub fn str(&self) -> String {
        String::from_utf8_lossy(self.bytes()).to_string()
    }
    pub fn list(&self) -> &[V] {
        match self {
            V::List(l) => l,
            V::Opt(Some(v)) => v.list(),
            _ => panic!("harness: list on {self:?}"),
        }
    }
    pub fn variant(&self) -> &str {
        match self {
            V::Variant(n, _) => n,
            _ => panic!("harness: variant on {self:?}"),
        }
    }
    pub fn payload(&self) -> &V {
        match self {
            V::Variant(_, Some(p)) => p,
            _ => panic!("harness: payload on {self:?}"),
        }
    }
    pub fn payload_mut(&mut self) -> &mut V {
        match self {
            V::Variant(_, Some(p)) => p,
            _ => panic!("harness: payload"),
        }
    }
    pub fn some(v: V) -> V {
        V::Opt(Some(Box::new(v)))
    }
    pub fn none() -> V {
        V::Opt(None)
    }
    pub fn opt_of(v: Option<i128>) -> V {
        V::Opt(v.map(|i| Box::new(V::Int(i))))
    }
    pub fn text(s: &str) -> V {
        V::Bytes(s.as_bytes().to_vec())
    }
}

#[derive(Debug)]
pub enum T {
    Int { off: i128, bits: u32 },
    Bool,
    Blob { bits: u32, off: i128 },
    Fixed(usize),
    BitsInt(u32),
    BitsVec(u32),
    ByteArr(u32),
    Arr { off: i128, bits: u32, t: Box<T> },
    Opt(Box<T>),
    Ref(String),
    Fourcc,
    Null,
    Unreadable,
    Struct { fields: Vec<(i64, String, T)>, decl: Vec<String> },
    Enum { bits: u32, variants: Vec<(i64, String, Option<T>)> },
    // self describing only
    Vlq(String),
    VBlob,
    BitArray,
    VArr(Box<T>),
    Choice { variants: Vec<(i64, String, Option<T>)> },
}

pub struct Def {
    pub wrap: bool,
    pub t: T,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Gen {
    P75689,
    P87702,
}

pub struct Proto {
    pub own: HashMap<String, Def>,
    pub base: Option<&'static Proto>,
    pub versioned: bool,
}

fn u(v: &Value, k: &str) -> i64 {
    v[k].as_i64().unwrap_or(0)
}

fn parse_t(v: &Value) -> T {
    let kind = v["k"].as_str().unwrap();
    match kind {
        "int" => T::Int { off: u(v, "off") as i128, bits: u(v, "bits") as u32 },
        "bool" => T::Bool,
        "blob" if v.get("bits").is_some() => {
            T::Blob { bits: u(v, "bits") as u32, off: u(v, "off") as i128 }
        }
        "blob" => T::VBlob,
        "fixed" => T::Fixed(u(v, "bytes") as usize),
        "bitsint" => T::BitsInt(u(v, "bits") as u32),
        "bitsvec" => T::BitsVec(u(v, "bits") as u32),
        "bytes" => T::ByteArr(u(v, "bits") as u32),
        "arr" if v.get("bits").is_some() => T::Arr {
            off: u(v, "off") as i128,
            bits: u(v, "bits") as u32,
            t: Box::new(match &v["t"] {
                Value::String(s) => T::Ref(s.clone()),
                o => parse_t(o),
            }),
        },
        "arr" => T::VArr(Box::new(parse_t(&v["i"]))),
        "opt" => T::Opt(Box::new(parse_t(&v["i"]))),
        "ref" => T::Ref(v["t"].as_str().unwrap().to_string()),
        "fourcc" => T::Fourcc,
        "null" => T::Null,
        "unreadable" => T::Unreadable,
        "bitarray" => T::BitArray,
        "vlq" => T::Vlq(v["ty"].as_str().unwrap().to_string()),
        "struct" => T::Struct {
            fields: v["fields"]
                .as_array()
                .unwrap()
                .iter()
                .map(|f| {
                    let f = f.as_array().unwrap();
                    if f.len() == 3 {
                        (f[0].as_i64().unwrap(), f[1].as_str().unwrap().to_string(), parse_t(&f[2]))
                    } else {
                        (0, f[0].as_str().unwrap().to_string(), parse_t(&f[1]))
                    }
                })
                .collect(),
            decl: v["decl"].as_array().map(|a| a.as_slice()).unwrap_or(&[]).iter().map(|s| s.as_str().unwrap().to_string()).collect(),
        },
        "enum" | "choice" => {
            let variants = v["variants"]
                .as_array()
                .unwrap()
                .iter()
                .map(|f| {
                    (
                        f[0].as_i64().unwrap(),
                        f[1].as_str().unwrap().to_string(),
                        if f[2].is_null() { None } else { Some(parse_t(&f[2])) },
                    )
                })
                .collect();
            if kind == "enum" {
                T::Enum { bits: u(v, "bits") as u32, variants }
            } else {
                T::Choice { variants }
            }
        }
        o => panic!("harness: schema kind {o}"),
    }
}

struct All {
    bp87: Proto,
    ba87: Proto,
}
static ALL: OnceLock<All> = OnceLock::new();
static BP75: OnceLock<Proto> = OnceLock::new();

fn load(root: &Value, key: &str) -> HashMap<String, Def> {
    root[key]
        .as_object()
        .unwrap()
        .iter()
        .map(|(n, d)| (n.clone(), Def { wrap: u(d, "wrap") == 1, t: parse_t(d) }))
        .collect()
}

fn all() -> &'static All {
    ALL.get_or_init(|| {
        let root: Value = serde_json::from_str(include_str!("../schema.json")).unwrap();
        All {
            bp87: Proto { own: load(&root, "87702.bit_packed"), base: None, versioned: false },
            ba87: Proto { own: load(&root, "87702.byte_aligned"), base: None, versioned: true },
        }
    })
}

/// Bit packed schema of a generation.
pub fn bitp(g: Gen) -> &'static Proto {
    match g {
        Gen::P87702 => &all().bp87,
        Gen::P75689 => BP75.get_or_init(|| {
            let root: Value = serde_json::from_str(include_str!("../schema.json")).unwrap();
            Proto { own: load(&root, "75689.bit_packed"), base: Some(&all().bp87), versioned: false }
        }),
    }
}
/// Self describing schema (the same for both generations).
pub fn byta() -> &'static Proto {
    &all().ba87
}

/// What the decoder under test returns for an empty bit array. It is pinned by one of the
/// repository's stable tests (see known_findings, D01), all else compares modulo this.
pub fn empty_bits_repr() -> &'static [u8] {
    static R: OnceLock<Vec<u8>> = OnceLock::new();
    R.get_or_init(|| {
        std::panic::catch_unwind(|| match s2protocol::take_bit_array((&[0u8, 0], 0), 0) {
            Ok((_, v)) if v == vec![0] => v,
            _ => vec![],
        })
        .unwrap_or_default()
    })
}

/// What the reader has to answer to a structure that is not as declared.
#[derive(Clone, Debug, PartialEq)]
pub enum Refusal {
    Missing(String),
    Duplicate(String, i64),
    Unknown(i64),
    Any,
}

struct Plan {
    /// Number of the node to spoil; `usize::MAX` only counts.
    at: usize,
    seen: usize,
    rng: Rng,
    done: Option<(&'static str, Refusal)>,
}

thread_local! {
    static PLAN: std::cell::RefCell<Option<Plan>> = const { std::cell::RefCell::new(None) };
}

fn fault_here(_at: usize) -> bool {
    PLAN.with_borrow_mut(|p| match p {
        Some(p) => {
            p.seen += 1;
            p.done.is_none() && p.seen - 1 == p.at
        }
        None => false,
    })
}
fn fault_rng() -> Rng {
    PLAN.with_borrow_mut(|p| {
        let p = p.as_mut().expect("harness: plan");
        // nothing below the spoilt node is spoilt as well
        p.at = usize::MAX;
        Rng::new(p.rng.next())
    })
}
fn fault_done(what: &'static str, want: Refusal) {
    PLAN.with_borrow_mut(|p| p.as_mut().expect("harness: plan").done = Some((what, want)));
}

/// Runs an encoding twice: counting its nodes, then with one of them spoilt.
/// None when there is nothing to spoil.
pub fn spoilt<B>(r: &mut Rng, enc: impl Fn(&mut Rng) -> B) -> Option<(B, &'static str, Refusal)> {
    let (order, rng) = (r.next(), Rng::new(r.next()));
    let plan = |at| PLAN.set(Some(Plan { at, seen: 0, rng: rng.clone(), done: None }));
    plan(usize::MAX);
    enc(&mut Rng::new(order));
    let n = PLAN.take().expect("harness: plan").seen;
    if n == 0 {
        return None;
    }
    plan(r.below(n));
    let b = enc(&mut Rng::new(order));
    let (what, want) = PLAN.take().expect("harness: plan").done.expect("harness: no node was spoilt");
    Some((b, what, want))
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    /// Longest list generated
    pub max_list: usize,
    pub max_blob: usize,
    /// Percentage of optional fields present
    pub opt_pct: u32,
    /// Texts are valid UTF-8
    pub utf8: bool,
}
impl Default for GenOpts {
    fn default() -> Self {
        Self { max_list: 4, max_blob: 24, opt_pct: 60, utf8: true }
    }
}

pub const WORDS: &[&str] = &[
    "Marine", "Drone", "Larva", "Egg", "Zergling", "Overlord", "Hatchery", "Probe", "Nexus", "CommandCenter",
    "BeaconArmy", "MineralField750", "ñandú", "李", "\u{0}", "a\"b", "x\\y", "line\nbreak", "<sp/>tag", "é", "🦀",
    " ", " x ", "\t", "x\r", "\u{feff}x", "İß", "%s", "null", "0", "\u{e000}", "x\u{0}y", "\u{0}\u{0}", "~", "C:\\a.SC2Map",
];

pub fn gen_text(r: &mut Rng, max: usize) -> Vec<u8> {
    let mut s = String::new();
    match r.below(8) {
        0 => {}
        1 => s.push_str(WORDS[r.below(WORDS.len())]),
        2 => s.push_str(&format!("Unit{}", r.below(40))),
        3 => {
            // random code points
            for _ in 0..r.below(8) {
                if let Some(c) = char::from_u32(r.below(0x11_0000) as u32) {
                    s.push(c);
                }
            }
        }
        4 => {
            while s.len() < max {
                s.push((b'a' + r.below(26) as u8) as char);
            }
        }
        _ => {
            for _ in 0..r.below(12) {
                s.push((0x20 + r.below(95) as u8) as char);
            }
        }
    }
    let mut n = s.len().min(max);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s.truncate(n);
    s.into_bytes()
}

/// The name in a player handle is often not stored; it is then empty.
fn may_be_absent(fields: &[(i64, String, T)], i: usize) -> bool {
    fields[i].1 == "m_name" && fields.iter().any(|x| x.1 == "m_program_id")
}

fn vlq_range(ty: &str) -> (i128, i128) {
    match ty {
        "u8" => (0, 255),
        "i8" => (-128, 127),
        "u16" => (0, 65535),
        "i16" => (-32768, 32767),
        "u32" => (0, u32::MAX as i128),
        "i32" => (i32::MIN as i128, i32::MAX as i128),
        "u64" => (0, i64::MAX as i128),
        "i64" => (i64::MIN as i128, i64::MAX as i128),
        "usize" => (0, i64::MAX as i128),
        o => panic!("harness: vlq type {o}"),
    }
}

impl Proto {
    pub fn def(&self, name: &str) -> &Def {
        match self.own.get(name) {
            Some(d) => d,
            None => match self.base {
                Some(b) => b.def(name),
                None => panic!("harness: no type {name}"),
            },
        }
    }

    pub fn variants(&self, name: &str) -> &Vec<(i64, String, Option<T>)> {
        match &self.def(name).t {
            T::Enum { variants, .. } | T::Choice { variants } => variants,
            _ => panic!("harness: {name} is no enum"),
        }
    }

    pub fn gen_named(&self, name: &str, r: &mut Rng, o: &GenOpts) -> V {
        self.gen_t(&self.def(name).t, r, o)
    }

    /// A random value of a given variant of an enum type.
    pub fn gen_variant(&self, name: &str, variant: &str, r: &mut Rng, o: &GenOpts) -> V {
        for (_, n, p) in self.variants(name) {
            if n == variant {
                return V::Variant(n.clone(), p.as_ref().map(|p| Box::new(self.gen_t(p, r, o))));
            }
        }
        panic!("harness: no variant {name}::{variant}");
    }

    fn len(&self, r: &mut Rng, lo: i128, hi: i128, max: usize) -> usize {
        let hi = hi.min(lo + max as i128);
        match r.below(6) {
            0 => lo as usize,
            1 => hi as usize,
            _ => r.range128(lo, hi.min(lo + 3)) as usize,
        }
    }

    /// A type of a few numbers.
    fn flat(&self, t: &T) -> bool {
        match t {
            T::Int { .. } | T::Bool | T::Fourcc => true,
            T::Vlq(_) => true,
            T::Ref(n) => self.flat(&self.def(n).t),
            T::Struct { fields, .. } => fields.len() <= 5 && fields.iter().all(|f| self.flat(&f.2)),
            _ => false,
        }
    }

    /// The length of a list, now and then a long one when its elements are small.
    fn list_len(&self, t: &T, r: &mut Rng, lo: i128, hi: i128, o: &GenOpts) -> usize {
        if r.chance(1, 40) && self.flat(t) {
            return r.range128(lo, hi.min(lo + 1500)) as usize;
        }
        if !self.flat(t) && r.chance(1, 150) {
            return r.range128(lo, hi.min(lo + 40)) as usize;
        }
        self.len(r, lo, hi, o.max_list)
    }

    pub fn gen_t(&self, t: &T, r: &mut Rng, o: &GenOpts) -> V {
        match t {
            T::Int { off, bits } => {
                let hi = if *bits >= 64 {
                    // 64 bit values are signed, the offset wraps
                    i64::MAX as i128
                } else {
                    off + (1i128 << bits) - 1
                };
                V::Int(r.biased(*off, hi))
            }
            T::Bool => V::Bool(r.bool()),
            T::Blob { bits, off } => {
                let max = (off + (1i128 << bits) - 1).min(if r.chance(1, 60) { 3000 } else { o.max_blob as i128 }) as usize;
                let mut b = if o.utf8 { gen_text(r, max) } else { let n = r.below(max + 1); r.bytes(n) };
                while (b.len() as i128) < *off {
                    b.push(b'x');
                }
                V::Bytes(b)
            }
            T::VBlob => {
                let max = if r.chance(1, 60) { 3000 } else { o.max_blob };
                V::Bytes(if o.utf8 { gen_text(r, max) } else { let n = r.below(max + 1); r.bytes(n) })
            }
            T::Fixed(n) => {
                // cache handles: 40 raw bytes, starting with the extension and region texts
                let mut b = r.bytes(*n);
                if r.chance(1, 25) {
                    b.fill(*r.pick(&[0u8, 0xff, b' ']));
                } else if *n == 40 && r.chance(3, 4) {
                    b[..4].copy_from_slice(b"s2ma");
                    b[4..8].copy_from_slice(&[0, 0, b'U', b'S']);
                }
                V::Bytes(b)
            }
            T::BitsInt(bits) => {
                let max = ((1u64 << bits) - 1).min(63) as usize;
                let len = match r.below(4) {
                    0 => 0,
                    1 => max,
                    _ => r.below(max + 1),
                } as u32;
                let val = if len == 0 { 0 } else { r.next() >> (64 - len) };
                V::Bits { len, val }
            }
            T::BitsVec(bits) => {
                let max = ((1u64 << bits) - 1) as usize;
                let len = match r.below(4) {
                    0 => 0,
                    1 => max,
                    _ => r.below(max.min(70) + 1),
                } as u32;
                let mut groups = r.bytes((len as usize).div_ceil(8));
                if len % 8 != 0 {
                    let l = groups.len() - 1;
                    groups[l] &= (1u8 << (len % 8)) - 1;
                }
                V::BitVec { len, groups }
            }
            T::ByteArr(bits) => {
                let max = if r.chance(1, 20) { 200 } else { o.max_list * 2 };
                let n = self.len(r, 0, (1i128 << bits) - 1, max);
                V::Bytes(r.bytes(n))
            }
            T::Arr { off, bits, t } => {
                let n = self.list_len(t, r, *off, off + (1i128 << bits) - 1, o);
                V::List((0..n).map(|_| self.gen_t(t, r, o)).collect())
            }
            T::VArr(t) => {
                let n = self.list_len(t, r, 0, i64::MAX as i128, o);
                V::List((0..n).map(|_| self.gen_t(t, r, o)).collect())
            }
            T::Opt(t) => {
                if matches!(**t, T::VArr(_)) && self.unreadable(t) {
                    return V::Opt(None);
                }
                if matches!(**t, T::Unreadable) || !r.chance(o.opt_pct, 100) {
                    V::Opt(None)
                } else {
                    V::Opt(Some(Box::new(self.gen_t(t, r, o))))
                }
            }
            T::Ref(n) => self.gen_named(n, r, o),
            T::Fourcc => V::Bytes(r.bytes(4)),
            T::Null => V::Null,
            T::Unreadable => V::Null,
            T::Struct { fields, .. } => V::Struct(
                fields
                    .iter()
                    .map(|(_, n, t)| (n.clone(), self.gen_t(t, r, o)))
                    .collect(),
            ),
            T::Enum { variants, .. } | T::Choice { variants } => {
                let (_, n, p) = r.pick(variants);
                V::Variant(n.clone(), p.as_ref().map(|p| Box::new(self.gen_t(p, r, o))))
            }
            T::Vlq(ty) => {
                let (lo, hi) = vlq_range(ty);
                V::Int(r.biased(lo, hi))
            }
            T::BitArray => V::Null,
        }
    }

    fn unreadable(&self, _t: &T) -> bool {
        false
    }

    // ---------------------------------------------------------------- one deliberate mismatch

    /// The node written against its declaration instead of `enc_ver_t`; what the reader has to say of it.
    fn fault_ver(&self, t: &T, v: &V, f: &mut Rng, r: &mut Option<Rng>, out: &mut Vec<u8>) -> (&'static str, Refusal) {
        fn absent_tag(have: &[i64], f: &mut Rng) -> i64 {
            loop {
                let top = have.iter().max().copied().unwrap_or(0);
                let k = match f.below(5) {
                    0 => top + 1,
                    1 => -1,
                    2 => top + 1 + f.below(40) as i64,
                    3 => f.biased(i64::MIN as i128 / 2, i64::MAX as i128 / 2) as i64,
                    _ => have.get(f.below(have.len().max(1))).copied().unwrap_or(0) + (1i64 << [8, 16, 32][f.below(3)]),
                };
                if !have.contains(&k) {
                    return k;
                }
            }
        }
        // the opening byte of some other type, or of none
        if f.chance(1, 5) && !matches!(t, T::Null | T::Unreadable) {
            let mut whole = vec![];
            self.enc_ver_t(t, v, r, &mut whole);
            let own = whole[0];
            whole[0] = loop {
                let k = if f.chance(1, 5) { f.below(256) as u8 } else { f.below(11) as u8 };
                if k != own {
                    break k;
                }
            };
            out.extend_from_slice(&whole);
            return ("other type", Refusal::Any);
        }
        match (t, v) {
            (T::Vlq(ty), V::Int(_)) => {
                let (lo, hi) = vlq_range(ty);
                let (lo, hi) = (lo.max(i64::MIN as i128), hi.min(i64::MAX as i128));
                let mut k = match f.below(4) {
                    0 => hi + 1,
                    1 => lo - 1,
                    2 => hi + 1 + f.biased(0, i32::MAX as i128),
                    _ => lo - 1 - f.biased(0, i32::MAX as i128),
                };
                if k > i64::MAX as i128 || k < -(i64::MAX as i128) {
                    // the reader takes 64 bits; the widest types are left by their sign or not at all
                    if lo == 0 {
                        k = -1 - f.biased(0, i32::MAX as i128);
                    } else {
                        let mut whole = vec![];
                        self.enc_ver_t(t, v, r, &mut whole);
                        whole[0] = 2;
                        out.extend_from_slice(&whole);
                        return ("other type", Refusal::Any);
                    }
                }
                v_int(out, k);
                ("number outside its type", Refusal::Any)
            }
            (T::Struct { fields, .. }, V::Struct(fv)) => {
                let mut order: Vec<usize> = (0..fields.len()).collect();
                f.shuffle(&mut order);
                let required: Vec<usize> =
                    (0..fields.len()).filter(|i| !matches!(fields[*i].2, T::Opt(_)) && !may_be_absent(fields, *i)).collect();
                let twice: Vec<usize> = (0..fields.len()).filter(|i| !matches!(fv[*i].1, V::Opt(None))).collect();
                let tags: Vec<i64> = fields.iter().map(|x| x.0).collect();
                let kind = f.below(3);
                if kind == 0 && !required.is_empty() {
                    let gone = *f.pick(&required);
                    order.retain(|i| *i != gone);
                    out.push(5);
                    vlq(out, order.len() as i128);
                    for i in order {
                        vlq(out, fields[i].0 as i128);
                        self.enc_ver_t(&fields[i].2, &fv[i].1, r, out);
                    }
                    return ("required field absent", Refusal::Missing(fields[gone].1.clone()));
                }
                if kind == 1 && !twice.is_empty() {
                    let again = *f.pick(&twice);
                    let first = order.iter().position(|i| *i == again).expect("harness: order");
                    let second = first + 1 + f.below(order.len() - first);
                    order.insert(second, again);
                    out.push(5);
                    vlq(out, order.len() as i128);
                    for i in order {
                        vlq(out, fields[i].0 as i128);
                        self.enc_ver_t(&fields[i].2, &fv[i].1, r, out);
                    }
                    return ("field twice", Refusal::Duplicate(fields[again].1.clone(), fields[again].0));
                }
                let k = absent_tag(&tags, f);
                let at = f.below(order.len() + 1);
                out.push(5);
                vlq(out, order.len() as i128 + 1);
                for (n, i) in order.iter().enumerate() {
                    if n == at {
                        vlq(out, k as i128);
                        v_int(out, 0);
                    }
                    vlq(out, fields[*i].0 as i128);
                    self.enc_ver_t(&fields[*i].2, &fv[*i].1, r, out);
                }
                if at == order.len() {
                    vlq(out, k as i128);
                    v_int(out, 0);
                }
                ("field of no declared tag", Refusal::Unknown(k))
            }
            (T::Enum { variants, .. }, _) | (T::Choice { variants }, _) => {
                let tags: Vec<i64> = variants.iter().map(|x| x.0).collect();
                let k = absent_tag(&tags, f);
                out.push(if matches!(t, T::Choice { .. }) { 3 } else { 9 });
                vlq(out, k as i128);
                v_int(out, 0);
                ("value of no declared variant", Refusal::Unknown(k))
            }
            (T::VArr(_), V::List(_)) => {
                out.push(0);
                vlq(out, -1 - f.biased(0, i32::MAX as i128));
                ("negative count", Refusal::Any)
            }
            (T::VBlob, _) => {
                out.push(2);
                vlq(out, -1 - f.biased(0, i32::MAX as i128));
                ("negative count", Refusal::Any)
            }
            (t, v) => {
                let mut whole = vec![];
                self.enc_ver_t(t, v, r, &mut whole);
                whole[0] = 8;
                out.extend_from_slice(&whole);
                ("other type", Refusal::Any)
            }
        }
    }

    // ---------------------------------------------------------------- bit packed encoding

    pub fn enc_bits(&self, name: &str, v: &V, w: &mut BitW) {
        self.enc_bits_t(&self.def(name).t, v, w)
    }

    pub fn enc_bits_t(&self, t: &T, v: &V, w: &mut BitW) {
        if let T::Enum { bits, variants } = t {
            let room = 1i64.checked_shl(*bits).unwrap_or(i64::MAX);
            if (variants.len() as i64) < room && fault_here(w.bit_len()) {
                let mut f = fault_rng();
                let k = loop {
                    let k = f.range(0, room - 1);
                    if !variants.iter().any(|x| x.0 == k) {
                        break k;
                    }
                };
                w.bits(*bits, k as u64);
                fault_done("value of no declared variant", Refusal::Unknown(k));
                return;
            }
        }
        match (t, v) {
            (T::Int { off, bits }, V::Int(i)) => w.bits(*bits, (i - off) as u64),
            (T::Bool, V::Bool(b)) => w.bits(1, *b as u64),
            (T::Blob { bits, off }, V::Bytes(b)) => {
                w.bits(*bits, (b.len() as i128 - off) as u64);
                w.aligned_bytes(b);
            }
            (T::Fixed(_), V::Bytes(b)) => w.aligned_bytes(b),
            (T::BitsInt(bits), V::Bits { len, val }) => {
                w.bits(*bits, *len as u64);
                w.bits(*len, *val);
            }
            (T::BitsVec(bits), V::BitVec { len, groups }) => {
                w.bits(*bits, *len as u64);
                let mut left = *len;
                for g in groups {
                    let n = left.min(8);
                    w.bits(n, *g as u64);
                    left -= n;
                }
            }
            (T::ByteArr(bits), V::Bytes(b)) => {
                w.bits(*bits, b.len() as u64);
                for x in b {
                    w.bits(8, *x as u64);
                }
            }
            (T::Arr { off, bits, t }, V::List(l)) => {
                assert!((l.len() as i128 - off) >> bits == 0, "harness: list of {}", l.len());
                w.bits(*bits, (l.len() as i128 - off) as u64);
                for x in l {
                    self.enc_bits_t(t, x, w);
                }
            }
            (T::Opt(t), V::Opt(o)) => {
                w.bits(1, o.is_some() as u64);
                if let Some(x) = o {
                    self.enc_bits_t(t, x, w);
                }
            }
            (T::Ref(n), v) => self.enc_bits(n, v, w),
            (T::Fourcc, V::Bytes(b)) => {
                for x in b {
                    w.bits(8, *x as u64);
                }
            }
            (T::Null, _) => {}
            (T::Struct { fields, .. }, V::Struct(f)) => {
                for ((_, n, t), (vn, v)) in fields.iter().zip(f) {
                    debug_assert_eq!(n, vn);
                    self.enc_bits_t(t, v, w);
                }
            }
            (T::Enum { bits, variants }, V::Variant(n, p)) => {
                let (tag, _, t) = variants.iter().find(|x| &x.1 == n).expect("harness: variant");
                w.bits(*bits, *tag as u64);
                if let (Some(t), Some(p)) = (t, p) {
                    self.enc_bits_t(t, p, w);
                }
            }
            (t, v) => panic!("harness: enc_bits {t:?} {v:?}"),
        }
    }

    // ---------------------------------------------------------------- self describing encoding

    /// `r` given: fields in random order, absent optional fields written or left out at random.
    pub fn enc_ver(&self, name: &str, v: &V, r: &mut Option<Rng>, out: &mut Vec<u8>) {
        self.enc_ver_t(&self.def(name).t, v, r, out)
    }

    pub fn enc_ver_t(&self, t: &T, v: &V, r: &mut Option<Rng>, out: &mut Vec<u8>) {
        if !matches!(t, T::Ref(_)) && fault_here(out.len()) {
            let mut f = fault_rng();
            let (what, want) = self.fault_ver(t, v, &mut f, r, out);
            fault_done(what, want);
            return;
        }
        match (t, v) {
            (T::Vlq(_), V::Int(i)) => v_int(out, *i),
            (T::VBlob, V::Bytes(b)) => v_blob(out, b),
            (T::Bool, V::Bool(b)) => {
                out.push(6);
                out.push(*b as u8);
            }
            (T::Fourcc, V::Bytes(b)) => {
                out.push(7);
                out.extend_from_slice(b);
            }
            (T::Opt(t), V::Opt(o)) => {
                out.push(4);
                out.push(o.is_some() as u8);
                if let Some(x) = o {
                    self.enc_ver_t(t, x, r, out);
                }
            }
            (T::VArr(t), V::List(l)) => {
                out.push(0);
                vlq(out, l.len() as i128);
                for x in l {
                    self.enc_ver_t(t, x, r, out);
                }
            }
            (T::Ref(n), v) => self.enc_ver(n, v, r, out),
            (T::Struct { fields, .. }, V::Struct(f)) => {
                let mut order: Vec<usize> = (0..fields.len()).collect();
                if let Some(r) = r {
                    if r.chance(2, 3) {
                        r.shuffle(&mut order);
                    }
                    order.retain(|i| {
                        let empty = match &f[*i].1 {
                            V::Opt(None) => true,
                            V::Bytes(b) => b.is_empty() && may_be_absent(fields, *i),
                            _ => false,
                        };
                        !(empty && r.bool())
                    });
                }
                out.push(5);
                vlq(out, order.len() as i128);
                for i in order {
                    vlq(out, fields[i].0 as i128);
                    self.enc_ver_t(&fields[i].2, &f[i].1, r, out);
                }
            }
            (T::Enum { variants, .. }, V::Variant(n, p)) => {
                let (tag, _, t) = variants.iter().find(|x| &x.1 == n).expect("harness: variant");
                v_int(out, *tag as i128);
                if let (Some(t), Some(p)) = (t, p) {
                    self.enc_ver_t(t, p, r, out);
                }
            }
            (T::Choice { variants }, V::Variant(n, p)) => {
                let (tag, _, t) = variants.iter().find(|x| &x.1 == n).expect("harness: variant");
                out.push(3);
                vlq(out, *tag as i128);
                if let (Some(t), Some(p)) = (t, p) {
                    self.enc_ver_t(t, p, r, out);
                }
            }
            (t, v) => panic!("harness: enc_ver {t:?} {v:?}"),
        }
    }

    // ---------------------------------------------------------------- Debug rendering

    pub fn dbg(&self, name: &str, v: &V) -> String {
        let mut s = String::new();
        self.dbg_named(name, v, &mut s);
        s
    }

    fn dbg_named(&self, name: &str, v: &V, s: &mut String) {
        let d = self.def(name);
        if d.wrap {
            s.push_str(name);
            s.push_str(" { value: ");
            self.dbg_t(&d.t, v, name, s);
            s.push_str(" }");
        } else {
            self.dbg_t(&d.t, v, name, s);
        }
    }

    fn dbg_t(&self, t: &T, v: &V, name: &str, s: &mut String) {
        match (t, v) {
            (T::Fourcc, V::Bytes(b)) if self.versioned => {
                s.push_str(&u32::from_be_bytes([b[0], b[1], b[2], b[3]]).to_string())
            }
            (_, V::Int(i)) if !matches!(t, T::Ref(_)) => s.push_str(&i.to_string()),
            (_, V::Bool(b)) if !matches!(t, T::Ref(_)) => s.push_str(&b.to_string()),
            (T::Blob { .. }, V::Bytes(b)) if b.is_empty() => s.push_str(&format!("{:?}", empty_bits_repr())),
            (_, V::Bytes(b)) if !matches!(t, T::Ref(_)) => s.push_str(&format!("{b:?}")),
            (_, V::Bits { val, .. }) if !matches!(t, T::Ref(_)) => s.push_str(&val.to_string()),
            (_, V::BitVec { groups, .. }) if !matches!(t, T::Ref(_)) => {
                if groups.is_empty() {
                    s.push_str(&format!("{:?}", empty_bits_repr()))
                } else {
                    s.push_str(&format!("{groups:?}"))
                }
            }
            (T::Arr { t, .. }, V::List(l)) | (T::VArr(t), V::List(l)) => {
                s.push('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    self.dbg_t(t, x, "", s);
                }
                s.push(']');
            }
            (T::Opt(t), V::Opt(o)) => match o {
                None => s.push_str("None"),
                Some(x) => {
                    s.push_str("Some(");
                    self.dbg_t(t, x, "", s);
                    s.push(')');
                }
            },
            (T::Ref(n), v) => self.dbg_named(n, v, s),
            (T::Null, _) => s.push_str("()"),
            (T::Struct { fields, decl }, V::Struct(f)) => {
                s.push_str(name);
                if decl.is_empty() {
                    return;
                }
                s.push_str(" { ");
                for (i, dn) in decl.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    let k = fields.iter().position(|x| &x.1 == dn).expect("harness: decl");
                    s.push_str(dn);
                    s.push_str(": ");
                    self.dbg_t(&fields[k].2, &f[k].1, "", s);
                }
                s.push_str(" }");
            }
            (T::Enum { variants, .. }, V::Variant(n, p)) | (T::Choice { variants }, V::Variant(n, p)) => {
                s.push_str(n);
                let (_, _, t) = variants.iter().find(|x| &x.1 == n).expect("harness: variant");
                if let (Some(t), Some(p)) = (t, p) {
                    s.push('(');
                    self.dbg_t(t, p, "", s);
                    s.push(')');
                }
            }
            (t, v) => panic!("harness: dbg {t:?} {v:?}"),
        }
    }

    // ---------------------------------------------------------------- generic typed rendering

    /// The value with the field names of the typed (version independent) structures.
    pub fn plain(&self, name: &str, v: &V, strip: bool) -> Value {
        self.plain_t(&T::Ref(name.to_string()), v, strip)
    }

    pub fn plain_t(&self, t: &T, v: &V, strip: bool) -> Value {
        match (t, v) {
            (T::Ref(n), V::List(_) | V::BitVec { .. }) if n == "GameSelectionMaskType" || n == "GameSelectionIndexArrayType" => {
                json!({"value": self.plain_t(&self.def(n).t, v, strip)})
            }
            (T::Ref(n), V::Variant(k, p)) if n == "ELeaveReason" => {
                let _ = p;
                json!(&k[1..])
            }
            (T::Ref(n), v) => self.plain_t(&self.def(n).t, v, strip),
            (T::Fourcc, V::Bytes(b)) => json!(u32::from_be_bytes([b[0], b[1], b[2], b[3]])),
            (_, V::Int(i)) => num(*i),
            (_, V::Bool(b)) => json!(b),
            (T::Blob { .. } | T::VBlob, V::Bytes(b)) => match std::str::from_utf8(b) {
                Ok(s) => json!(s),
                Err(_) => json!({"__bytes": b}),
            },
            (_, V::Bytes(b)) => json!(b),
            (_, V::Bits { val, .. }) => json!(val),
            (_, V::BitVec { groups, .. }) => {
                if groups.is_empty() {
                    json!(empty_bits_repr())
                } else {
                    json!(groups)
                }
            }
            (T::Arr { t, .. } | T::VArr(t), V::List(l)) => {
                Value::Array(l.iter().map(|x| self.plain_t(t, x, strip)).collect())
            }
            (T::Opt(t), V::Opt(o)) => match o {
                None => Value::Null,
                Some(x) => self.plain_t(t, x, strip),
            },
            (T::Null, _) => Value::Null,
            (T::Struct { fields, .. }, V::Struct(f)) => {
                let mut m = Map::new();
                for ((_, n, t), (_, v)) in fields.iter().zip(f) {
                    let key = if strip { n.strip_prefix("m_").unwrap_or(n) } else { n };
                    m.insert(key.to_string(), self.plain_t(t, v, strip));
                }
                Value::Object(m)
            }
            (T::Enum { variants, .. } | T::Choice { variants }, V::Variant(n, p)) => {
                let (_, _, t) = variants.iter().find(|x| &x.1 == n).expect("harness: variant");
                match (t, p) {
                    (Some(T::Null), _) => json!(n),
                    (Some(t), Some(p)) => {
                        let mut m = Map::new();
                        m.insert(n.clone(), self.plain_t(t, p, strip));
                        Value::Object(m)
                    }
                    _ => json!(n),
                }
            }
            (t, v) => panic!("harness: plain {t:?} {v:?}"),
        }
    }
}

pub fn num(i: i128) -> Value {
    if let Ok(x) = i64::try_from(i) {
        json!(x)
    } else {
        json!(i as u64)
    }
}

/// Is `want` contained in `got`? Objects may have further keys in `got`; texts that were stored
/// empty in bit packed data may read as a NUL (see `empty_bits_repr`). Returns the first difference.
pub fn subset(want: &Value, got: &Value, path: &str) -> Option<String> {
    match (want, got) {
        (Value::Object(w), Value::Object(g)) => {
            for (k, v) in w {
                match g.get(k) {
                    None => return Some(format!("{path}.{k}: missing, expected {v}")),
                    Some(x) => {
                        if let Some(d) = subset(v, x, &format!("{path}.{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            None
        }
        (Value::Array(w), Value::Array(g)) => {
            if w.len() != g.len() {
                return Some(format!("{path}: {} elements, expected {}: {} vs {}", g.len(), w.len(), short(got), short(want)));
            }
            for (i, (a, b)) in w.iter().zip(g).enumerate() {
                if let Some(d) = subset(a, b, &format!("{path}[{i}]")) {
                    return Some(d);
                }
            }
            None
        }
        (Value::String(w), Value::String(g)) if w.is_empty() && g == "\u{0}" && empty_bits_repr().len() == 1 => None,
        (Value::Number(a), Value::Number(b)) => {
            let same = a == b
                || match (a.as_i64(), b.as_i64()) {
                    (Some(x), Some(y)) => x == y,
                    _ => a.as_u64().is_some() && a.as_u64() == b.as_u64() || a.as_f64().map(f64::to_bits) == b.as_f64().map(f64::to_bits),
                };
            if same { None } else { Some(format!("{path}: {b}, expected {a}")) }
        }
        (w, g) => {
            if w == g {
                None
            } else {
                Some(format!("{path}: {}, expected {}", short(g), short(w)))
            }
        }
    }
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    trunc(&s, 400)
}
pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…", &s[..e])
}
