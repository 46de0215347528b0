//! L01: the same input under the configurations the library can be built and run with.
use crate::hurt::*;
use crate::props::cache::{gen_header_file, gen_info, height_bytes};
use crate::props::decode::*;
use crate::report::guard;
use crate::rng::{Rng, fnv, mix};
use crate::scen::*;
use crate::schema::*;
use crate::synth::*;
use s2protocol::cache_handles::document_header::DocumentHeader;
use s2protocol::cache_handles::map_info::MapInfo;
use s2protocol::cache_handles::t3_height_map::T3HeightMap;
use s2protocol::game_events::read_balance_data_from_included_assets;
use s2protocol::versions::{protocol75689 as p75, protocol87702 as p87};
use s2protocol::*;
use serde_json::{Value, json};
use std::fmt::Write;
use std::path::Path;

fn gen_either(r: &mut Rng) -> Gen {
    if r.bool() { Gen::P75689 } else { Gen::P87702 }
}

fn streams(r: &mut Rng, out: &mut String) -> &'static str {
    let g = gen_either(r);
    let n = 1 + r.below(6);
    let o = GenOpts {
        utf8: !r.chance(1, 4),
        max_list: 4,
        ..Default::default()
    };
    let spoil = |b: Vec<u8>, r: &mut Rng| if r.bool() { mutate(&b, r) } else { b };
    let versions = [*r.pick(OLD_BUILDS), *r.pick(NEW_BUILDS)];
    match r.below(3) {
        0 => {
            let evs: Vec<TEv> = (0..n)
                .map(|_| TEv {
                    delta: gen_delta(r),
                    ev: gen_tracker_event(r, &o),
                })
                .collect();
            let b = enc_tracker(&evs, r).0;
            let b = spoil(b, r);
            for v in versions {
                writeln!(out, "{:?}", iter_tracker(&b, v)).unwrap();
            }
            writeln!(
                out,
                "{:?}",
                p87::byte_aligned::ReplayTrackerEEventId::parse_event_pair(&b)
            )
            .unwrap();
            "tracker stream"
        }
        1 => {
            let evs: Vec<GEv> = (0..n)
                .map(|_| GEv {
                    delta: gen_delta(r),
                    user: r.below(32) as u8,
                    ev: gen_game_event(g, r, &o),
                })
                .collect();
            let b = enc_game(g, &evs, r).0;
            let b = spoil(b, r);
            for v in versions {
                writeln!(out, "{:?}", iter_game(&b, v)).unwrap();
            }
            writeln!(
                out,
                "{:?}",
                p87::bit_packed::GameEEventId::parse_event_triplet((&b, 0))
            )
            .unwrap();
            writeln!(
                out,
                "{:?}",
                p75::bit_packed::GameEEventId::parse_event_triplet((&b, 0))
            )
            .unwrap();
            "game stream"
        }
        _ => {
            let evs: Vec<GEv> = (0..n)
                .map(|_| GEv {
                    delta: gen_delta(r),
                    user: r.below(32) as u8,
                    ev: bitp(g).gen_named("GameEMessageId", r, &o),
                })
                .collect();
            let b = enc_msgs(g, &evs, r).0;
            let b = spoil(b, r);
            writeln!(
                out,
                "{:?}",
                p87::bit_packed::GameEMessageId::parse_event_triplet((&b, 0))
            )
            .unwrap();
            writeln!(
                out,
                "{:?}",
                p75::bit_packed::GameEMessageId::parse_event_triplet((&b, 0))
            )
            .unwrap();
            "messages"
        }
    }
}

fn sections(r: &mut Rng, out: &mut String) -> &'static str {
    let build = pick_build(r);
    let g = gen_of(build);
    let n = r.below(5);
    let (mut rep, _) = gen_world(r, build, n);
    let o = GenOpts::default();
    let evs: Vec<GEv> = (0..3)
        .map(|_| GEv {
            delta: 1,
            user: r.below(16) as u8,
            ev: bitp(g).gen_named("GameEMessageId", r, &o),
        })
        .collect();
    rep.msgs = enc_msgs(g, &evs, r).0;
    let header = rep.header_bytes(r);
    for (name, b) in rep.sections(r) {
        if r.chance(1, 3) {
            rep.raw.push((name, mutate(&b, r)));
        }
    }
    let header = if r.chance(1, 4) {
        mutate(&header, r)
    } else {
        header
    };
    let file = rep.bytes_with_header(&header, r);
    let (_, mpq) = parser::parse(&file).expect("harness: archive not readable");
    writeln!(out, "{:?}", read_protocol_header(&mpq)).unwrap();
    writeln!(out, "{:?}", read_details("x", &mpq, &file)).unwrap();
    writeln!(out, "{:?}", read_init_data("x", &mpq, &file)).unwrap();
    writeln!(out, "{:?}", read_tracker_events("x", &mpq, &file)).unwrap();
    writeln!(out, "{:?}", read_game_events("x", &mpq, &file)).unwrap();
    writeln!(out, "{:?}", read_message_events("x", &mpq, &file)).unwrap();
    "sections"
}

/// A replay on disk, iterated to its end.
fn replay(r: &mut Rng, out: &mut String, dir: &Path) -> &'static str {
    let steps = 8 + r.below(50);
    let mut sc = gen_scen(
        r,
        &Opts {
            steps,
            ..Default::default()
        },
    );
    sc.finish(r);
    let path = sc.write(dir, "r.SC2Replay", r);
    let init = InitData::try_from((path.clone(), 7u64));
    let place = |v: Value| {
        v.to_string()
            .replace(&dir.to_string_lossy().to_string(), "")
    };
    match init {
        Ok(init) => {
            writeln!(out, "{}", place(to_json(&init))).unwrap();
            match details::Details::try_from(&init) {
                Ok(d) => writeln!(out, "{}", place(to_json(&d))).unwrap(),
                Err(e) => writeln!(out, "{e:?}").unwrap(),
            }
            match Vec::<details::PlayerLobbyDetails>::try_from(&init) {
                Ok(d) => writeln!(out, "{}", place(to_json(&d))).unwrap(),
                Err(e) => writeln!(out, "{e:?}").unwrap(),
            }
            match SC2EventIterator::new(&init, sc.balance.all.clone()) {
                Ok(mut it) => {
                    while let Some(item) = it.next() {
                        writeln!(out, "{}", to_json(&item)).unwrap();
                    }
                    writeln!(out, "{}", place(to_json(&it.sc2_state))).unwrap();
                }
                Err(e) => writeln!(out, "{e:?}").unwrap(),
            }
        }
        Err(e) => writeln!(out, "{e:?}").unwrap(),
    }
    // its directory
    if r.chance(1, 40) {
        match dir_stats::SC2ReplaysDirStats::from_directory(&dir.to_string_lossy(), r.bool()) {
            Ok(s) => writeln!(out, "{}", place(to_json(&s))).unwrap(),
            Err(e) => writeln!(out, "{e:?}").unwrap(),
        }
    }
    let _ = std::fs::remove_file(&path);
    "replay"
}

fn maps(r: &mut Rng, out: &mut String) -> &'static str {
    let mut i = gen_info(r);
    i.w = 1 + r.below(8) as i64;
    i.h = 1 + r.below(8) as i64;
    i.fit(r);
    let b = i.bytes(r);
    let (h, d) = (height_bytes(&i, r).0, gen_header_file(r).bytes(r));
    if let Ok((_, m)) = MapInfo::parse(&b) {
        let h = if r.bool() { mutate(&h, r) } else { h };
        writeln!(out, "{m:?} {:?}", T3HeightMap::parse(&h, &m)).unwrap();
    }
    let (b, d) = if r.bool() {
        (mutate(&b, r), mutate(&d, r))
    } else {
        (b, d)
    };
    writeln!(out, "{:?}", MapInfo::parse(&b)).unwrap();
    writeln!(out, "{:?}", DocumentHeader::parse(&d)).unwrap();
    "map files"
}

/// The embedded balance data, a part of it each time.
fn tables(r: &mut Rng, out: &mut String) -> &'static str {
    match read_balance_data_from_included_assets() {
        Ok(all) => {
            let mut keys: Vec<_> = all.keys().cloned().collect();
            keys.sort();
            writeln!(out, "{}", keys.len()).unwrap();
            for _ in 0..20 {
                let k = r.pick(&keys);
                writeln!(out, "{k:?} {}", to_json(&all[k])).unwrap();
            }
        }
        Err(e) => writeln!(out, "{e:?}").unwrap(),
    }
    "balance tables"
}

/// One input and everything the library says of it.
pub fn item(seed: u64, dir: &Path) -> (&'static str, String) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let mut out = String::new();
    let mut kind = "?";
    let end = guard(|| {
        kind = match r.below(400) {
            0..=139 => streams(r, &mut out),
            140..=239 => sections(r, &mut out),
            240..=319 => replay(r, &mut out, dir),
            320..=398 => maps(r, &mut out),
            _ => tables(r, &mut out),
        };
    });
    if let Err((loc, msg)) = end {
        writeln!(out, "panic at {loc}: {msg}").unwrap();
    }
    (kind, out)
}

fn seeds(seed: u64, n: u64) -> impl Iterator<Item = u64> {
    (0..n).map(move |k| mix(seed ^ mix(k)))
}

pub fn print_items(seed: u64, n: u64) {
    let dir = TmpDir::new();
    crate::report::mute_stdout();
    let mut lines = vec![];
    for s in seeds(seed, n) {
        let (kind, text) = item(s, &dir.0);
        lines.push(
            json!({"kind": kind, "hash": fnv(text.as_bytes()).to_string(), "text": text})
                .to_string(),
        );
    }
    crate::report::unmute_stdout();
    println!("{}", lines.join("\n"));
}

#[cfg(feature = "usual")]
pub use check::l01;

#[cfg(feature = "usual")]
mod check {
    use super::*;
    use crate::report::{Case, Run};
    use std::io::Write as _;
    use std::path::PathBuf;
    use std::sync::atomic::{AtomicU64, Ordering};

    const BATCH: u64 = 24;

    #[derive(Clone)]
    struct Sink;
    static LOGGED: AtomicU64 = AtomicU64::new(0);
    impl std::io::Write for Sink {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            LOGGED.fetch_add(b.len() as u64, Ordering::Relaxed);
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }

    fn differ(c: &mut Case, how: &str, kind: &str, seed: u64, a: &str, b: &str) {
        let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
        let from = |s: &str| {
            trunc(
                &String::from_utf8_lossy(&s.as_bytes()[k.saturating_sub(100).min(s.len())..]),
                400,
            )
        };
        c.fail(
            format!("{kind}: another result {how}"),
            json!({"item": seed.to_string(), "usual_from": from(a), "other_from": from(b)}),
        );
    }

    fn case(c: &mut Case, r: &mut Rng, builds: &[(&str, PathBuf)]) {
        use tracing_subscriber::util::SubscriberInitExt;
        let seed = r.next();
        // each process has a scratch of its own
        let dir = TmpDir::new();
        let usual: Vec<_> = seeds(seed, BATCH).map(|s| item(s, &dir.0)).collect();
        for ((kind, text), s) in usual.iter().zip(seeds(seed, BATCH)) {
            c.seen(fnv(text.as_bytes()));
            c.count(&format!("items.{kind}"), 1);
            c.count("items_with_panic", text.contains("\npanic at") as u64);
            // with everything logged that the build allows
            let log = tracing_subscriber::fmt()
                .with_max_level(tracing_subscriber::filter::LevelFilter::TRACE)
                .with_writer(|| Sink)
                .finish();
            let before = LOGGED.load(Ordering::Relaxed);
            let guard = log.set_default();
            let (_, again) = item(s, &dir.0);
            drop(guard);
            c.count("logged", (LOGGED.load(Ordering::Relaxed) > before) as u64);
            if again != *text {
                differ(c, "when logging is on", kind, s, text, &again);
            }
        }
        for (name, exe) in builds {
            let got = std::process::Command::new(exe)
                .args(["--digest", &seed.to_string(), &BATCH.to_string()])
                .output()
                .expect("harness: digest");
            let lines: Vec<Value> = String::from_utf8_lossy(&got.stdout)
                .lines()
                .filter_map(|l| serde_json::from_str(l).ok())
                .collect();
            if lines.len() as u64 != BATCH {
                c.fail(
                    format!("the {name} build ended early"),
                    json!({"status": format!("{:?}", got.status), "lines": lines.len(), "stderr": trunc(&String::from_utf8_lossy(&got.stderr), 600)}),
                );
                continue;
            }
            for (((kind, text), s), l) in usual.iter().zip(seeds(seed, BATCH)).zip(&lines) {
                c.count(&format!("compared.{name}"), 1);
                if l["hash"] != json!(fnv(text.as_bytes()).to_string()) {
                    differ(
                        c,
                        &format!("from the {name} build"),
                        kind,
                        s,
                        text,
                        l["text"].as_str().unwrap_or(""),
                    );
                }
            }
        }
        let _ = std::io::stdout().flush();
    }

    pub fn l01(run: &mut Run) {
        run.rule("distinct outputs for generated and damaged streams, sections, replays, map files and balance tables; each input is decoded by the library as users get it, again with logging on, and by builds of the same tree without arrow and without tracing, and the complete outputs compared");
        run.assume("levels below info are compiled out by the container reader's own default in every build, so they are not part of the comparison");
        let target = crate::report::verif_dir().join("harness/target");
        let mut builds = vec![];
        for name in ["bare", "off"] {
            let exe = target.join(name).join("debug/harness");
            let log =
                std::fs::read_to_string(target.join(format!("{name}.err"))).unwrap_or_default();
            if exe.exists() && log.is_empty() {
                builds.push((name, exe));
            } else {
                run.part(&format!("{name} build"), 1, 5.0, |c, _| {
                    c.fail(
                        format!("the library does not build in the {name} configuration"),
                        json!({"errors": trunc(&log, 1500)}),
                    );
                });
            }
        }
        for k in [
            "tracker stream",
            "game stream",
            "messages",
            "sections",
            "replay",
            "map files",
        ] {
            run.need(&format!("items.{k}"), 20);
        }
        run.need("items.balance tables", 2);
        run.need("logged", 100);
        if builds.len() == 2 {
            run.need("compared.bare", 1_000);
            run.need("compared.off", 1_000);
        }
        run.part("configurations", 80, 25.0, |c, r| case(c, r, &builds));
    }
}
