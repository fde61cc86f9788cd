//! I01 the port map
use crate::peer::*;
use std::collections::{BTreeMap, HashSet};
use vmlib::*;

fn wire(r: &mut Rng) -> u64 {
    match r.below(6) {
        0 => r.below(4),
        1 => u64::MAX - r.below(3),
        2 => r.below(1 << 16) << 48,
        3 => 10501 + r.below(20),
        _ => r.next(),
    }
}
fn records(b: &[u8]) -> Vec<(u64, u16)> {
    b.chunks_exact(10).map(|c| (u64::from_ne_bytes(c[..8].try_into().unwrap()), u16::from_ne_bytes([c[8], c[9]]))).collect()
}
fn seed_map(r: &mut Rng) -> BTreeMap<u64, u16> {
    let mut m = BTreeMap::new();
    let mut port = *r.pick(&[10501u16, 10501, 12000, 40000]);
    for _ in 0..r.usize(5) {
        port += 1 + r.below(3) as u16;
        m.insert(wire(r), port);
    }
    m
}
fn ask(tmp: &std::path::Path, id: u64) -> Result<u16, Viol> {
    std::env::set_var("TMPDIR", tmp);
    let p = no_panic("get_port", &|| format!("id {id}"), || ipcbus::get_port(id))?;
    p.map_err(|e| Viol { sig: "get-port-error".into(), msg: format!("id {id}: {e:?}") })
}
/// `whole`: a record was added after any partial one
fn check_map(tmp: &std::path::Path, known: &BTreeMap<u64, u16>, whole: bool, w: &str) -> Res {
    let b = std::fs::read(tmp.join("procbus.map")).unwrap_or_default();
    let recs = records(&b);
    ensure!(!whole || b.len() % 10 == 0, "map-format", "{w}: {} bytes in the map", b.len());
    let ids: HashSet<u64> = recs.iter().map(|x| x.0).collect();
    ensure!(ids.len() == recs.len(), "map-duplicate", "{w}: the same id twice in {recs:?}");
    for (id, p) in known {
        ensure!(recs.contains(&(*id, *p)), "map-lost", "{w}: id {id} port {p} is not in {recs:?}");
    }
    Ok(())
}
/// single process histories
fn seq(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    let mut known = seed_map(r);
    let mut bytes: Vec<u8> = known.iter().flat_map(|(a, b)| record(*a, *b)).collect();
    let junk = if r.chance(1, 2) { r.usize(10) } else { 0 };
    bytes.extend(r.bytes(junk));
    let tmp = tmp_with_map(o, &format!("m{i}"), &bytes);
    if known.is_empty() && junk == 0 && r.bool() {
        let _ = std::fs::remove_file(tmp.join("procbus.map"));
    }
    let w = format!("map {known:?} + {junk} bytes");
    let mut assigned = false;
    for _ in 0..1 + r.usize(8) {
        let id = if r.chance(1, 3) && !known.is_empty() { *r.pick(&known.keys().cloned().collect::<Vec<_>>()) } else { wire(r) };
        let p = ask(&tmp, id)?;
        o.eval();
        if let Some(k) = known.get(&id) {
            ensure!(p == *k, "port-changed", "{w}: id {id} had {k}, now {p}");
            o.count("stable");
        } else {
            ensure!(!known.values().any(|k| *k == p), "port-shared", "{w}: id {id} got {p}, in use in {known:?}");
            ensure!(p > 1024, "port-low", "{w}: {p}");
            known.insert(id, p);
            assigned = true;
            o.count("assigned");
        }
        if junk > 0 {
            o.count("partial_record_maps");
        }
    }
    for (id, p) in &known {
        let q = ask(&tmp, *id)?;
        ensure!(q == *p, "port-changed", "{w}: id {id} had {p}, now {q}");
    }
    check_map(&tmp, &known, junk == 0 || assigned, &w)?;
    o.distinct((known, junk));
    let _ = std::fs::remove_dir_all(&tmp);
    Ok(())
}
/// many processes and threads at once
fn conc(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    let known = seed_map(r);
    let bytes: Vec<u8> = known.iter().flat_map(|(a, b)| record(*a, *b)).collect();
    let tmp = tmp_with_map(o, &format!("c{i}"), &bytes);
    let mut ids: Vec<u64> = (0..1 + r.usize(4)).map(|_| wire(r)).collect();
    ids.extend(known.keys().take(2));
    let mut jobs = vec![];
    let n = 3 + r.usize(6);
    for _ in 0..n {
        let id = *r.pick(&ids);
        jobs.push((id, getport_cmd(&tmp, id, None).spawn().expect("spawn")));
    }
    std::env::set_var("TMPDIR", &tmp);
    let th: Vec<_> = (0..3).map(|_| *r.pick(&ids)).map(|id| (id, std::thread::spawn(move || catch(|| ipcbus::get_port(id).ok())))).collect();
    let mut got: Vec<(u64, i64)> = vec![];
    for (id, c) in jobs {
        let out = c.wait_with_output().expect("wait");
        ensure!(out.status.success(), "get-port-crash", "process for id {id}: {:?}", out.status);
        got.push((id, String::from_utf8_lossy(&out.stdout).trim().parse().unwrap_or(-2)));
    }
    for (id, t) in th {
        match t.join().unwrap() {
            Ok(Some(p)) => got.push((id, p as i64)),
            x => return viol("get-port-crash", format!("thread for id {id}: {x:?}")),
        }
    }
    let mut all = known.clone();
    for (id, p) in &got {
        o.eval();
        ensure!(*p > 0, "get-port-error", "id {id}: {p}");
        let p = *p as u16;
        let q = *all.entry(*id).or_insert(p);
        ensure!(p == q, "port-disagree", "map {known:?}: id {id} is {p} for one process and {q} for another; all answers {got:?}");
    }
    let ports: HashSet<u16> = all.values().cloned().collect();
    ensure!(ports.len() == all.len(), "port-shared", "map {known:?}: {all:?}");
    check_map(&tmp, &all, true, "concurrent")?;
    o.add("concurrent_askers", got.len() as u64);
    o.distinct((&known, &got));
    let _ = std::fs::remove_dir_all(&tmp);
    Ok(())
}
/// a process dies at any byte of what it writes
fn crash(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    let mut known = seed_map(r);
    while known.len() < 2 {
        let p = known.values().max().cloned().unwrap_or(10501) + 1;
        known.insert(wire(r), p);
    }
    let bytes: Vec<u8> = known.iter().flat_map(|(a, b)| record(*a, *b)).collect();
    let tmp = tmp_with_map(o, &format!("x{i}"), &bytes);
    let id = loop {
        let x = wire(r);
        if !known.contains_key(&x) {
            break x;
        }
    };
    let k = r.below(bytes.len() as u64 + 11);
    let out = getport_cmd(&tmp, id, Some(k)).spawn().expect("spawn").wait_with_output().expect("wait");
    o.eval();
    let w = format!("map {known:?}: a process asking for id {id} died after writing {k} bytes");
    if out.status.success() {
        o.count("survived");
        if let Ok(p) = String::from_utf8_lossy(&out.stdout).trim().parse::<u16>() {
            known.insert(id, p);
        }
    } else {
        o.count("crashed");
        o.distinct((&known, k));
    }
    let mut ids: Vec<u64> = known.keys().cloned().collect();
    r.shuffle(&mut ids);
    let mut fresh = vec![id, wire(r)];
    fresh.retain(|x| !known.contains_key(x));
    let order = if r.bool() { [fresh, ids].concat() } else { [ids, fresh].concat() };
    for x in order {
        let p = ask(&tmp, x)?;
        o.eval();
        match known.get(&x) {
            Some(q) => ensure!(p == *q, "crash-port-changed", "{w}; then id {x} had {q}, now {p}"),
            None => {
                ensure!(!known.values().any(|q| *q == p), "crash-port-shared", "{w}; then id {x} got {p}");
                known.insert(x, p);
            }
        }
    }
    check_map(&tmp, &known, true, &w)?;
    let _ = std::fs::remove_dir_all(&tmp);
    Ok(())
}
pub static I01: Prop = Prop {
    id: "I01",
    stages: &[
        Stage { name: "sequence", quick: 4000, thorough: 120000, run: seq },
        Stage { name: "concurrent", quick: 400, thorough: 12000, run: conc },
        Stage { name: "crash", quick: 1200, thorough: 30000, run: crash },
    ],
    rule: "histories of port requests over maps of 0-4 earlier buses (with trailing partial records), by one process, by 3-8 processes and 3 threads at once, and with a process killed (file size limit) after any number of written bytes; every answer compared with all earlier answers, and the map file read back. Non-trivial: distinct (map, answers or crash point).",
    assumptions: &["fewer buses than ports"],
    floors: &["stable", "assigned", "partial_record_maps", "concurrent_askers", "crashed", "survived"],
    opts: OPTS,
};
