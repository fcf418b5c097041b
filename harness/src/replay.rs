//! Behaviours of the specification (printed by TLC) stepped through the real code: levels forced, distances from the table.
use crate::dist::*;
use crate::seq::*;
use crate::util::*;
use hnsw_rs::filter::FilterT;
use hnsw_rs::hnsw::*;
use parking_lot::sched;
use serde_json::{json, Value};
use std::io::BufRead;

fn pairs(v: &Value) -> Vec<(i64, i64)> {
    v.as_array().map(|a| a.iter().map(|x| (x[0].as_i64().unwrap(), x[1].as_i64().unwrap())).collect()).unwrap_or_default()
}

pub fn main(a: &Args) {
    let f = std::io::BufReader::new(std::fs::File::open(a.s("in", "")).expect("behaviours"));
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    let mut fo = Forcer::new();
    let mut r = rng(a.u("seed", 1), 3);
    let (mut n, mut skipped) = (0, 0);
    for line in f.lines() {
        let b: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let d: Vec<Vec<i64>> = serde_json::from_value(b["D"].clone()).unwrap();
        let lev: Vec<usize> = serde_json::from_value(b["lev"].clone()).unwrap();
        let p = &b["par"];
        let c = Cfg {
            m: p["M"].as_u64().unwrap() as usize,
            efc: p["efc"].as_u64().unwrap() as usize,
            maxl: 16,
            ext: p["ext"].as_bool().unwrap(),
            keep: p["keep"].as_bool().unwrap(),
            factor: 1.,
            nins: lev.len(),
            nq: 1,
            levels: 0,
            srch: 0.,
        };
        let mut ok = true;
        for l in &lev {
            ok = ok && fo.can(c.m, c.maxl, c.factor, *l, &mut r);
        }
        if !ok {
            skipped += 1;
            continue;
        }
        set_table(d.iter().map(|v| v.iter().map(|x| *x as f32).collect()).collect());
        let res = guard(|| -> Option<(String, String)> {
            let h: Hnsw<u32, MatDist> = make_index(&c, MatDist);
            for (i, l) in lev.iter().enumerate() {
                let s = fo.seed(c.m, c.maxl, c.factor, *l, &mut r);
                sched::reseed_next(s);
                h.insert((&[i as u32], i + 1));
                sched::reseed_next(None);
            }
            let s = snap(&h);
            let fl = |x: f32| if x == x.floor() { x as i64 } else { -1 };
            for (i, l) in lev.iter().enumerate() {
                let pt = match s.pts.iter().find(|p| p.id == i + 1) {
                    Some(p) => p,
                    None => return Some(("store".into(), format!("point {} is not stored", i + 1))),
                };
                if pt.l != *l {
                    return None; // the level could not be forced: not the behaviour
                }
                let want: Vec<Vec<(i64, i64)>> = b["nb"][i].as_array().unwrap().iter().map(pairs).collect();
                let got: Vec<Vec<(i64, i64)>> =
                    pt.nb.iter().map(|v| v.iter().map(|x| (x.0 as i64, fl(f32::from_bits(x.1 as u32)))).collect()).collect();
                if want != got {
                    return Some(("graph".into(), format!("point {}: specification {:?}, code {:?}", i + 1, want, got)));
                }
            }
            let q = [lev.len() as u32];
            let conv = |a: Vec<Neighbour>| -> Vec<(i64, i64)> { a.iter().map(|x| (x.d_id as i64, fl(x.distance))).collect() };
            for k in 1..=lev.len() {
                let want = pairs(&b["ans"][k - 1]);
                let got = conv(h.search(&q, k, k));
                if want != got {
                    return Some(("answer".into(), format!("k {}: specification {:?}, code {:?}", k, want, got)));
                }
            }
            for m in 0..(1usize << lev.len()) {
                let want = pairs(&b["fans"][m]);
                let acc: Vec<usize> = (0..lev.len()).filter(|k| (m >> k) & 1 == 1).map(|k| k + 1).collect();
                let got = conv(h.search_filter(&q, lev.len(), lev.len() + 1, Some(&acc as &dyn FilterT)));
                if want != got {
                    return Some(("filter".into(), format!("accepted {:?}: specification {:?}, code {:?}", acc, want, got)));
                }
            }
            let top = lev.iter().max().unwrap();
            if s.mlo != *top {
                return Some(("entry".into(), format!("highest level {}, entry point at {}", top, s.mlo)));
            }
            Some(("".into(), "".into()))
        });
        match res {
            Ok(None) => skipped += 1,
            Ok(Some((kind, msg))) => {
                n += 1;
                if !kind.is_empty() {
                    out.line(&json!({"kind": kind, "msg": msg, "behaviour": b}));
                }
            }
            Err(e) => {
                n += 1;
                out.line(&json!({"kind": "panic", "msg": e, "behaviour": b}));
            }
        }
    }
    out.flush();
    println!("replayed {} skipped {} mismatches {}", n, skipped, out.n);
}
