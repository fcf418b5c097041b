//! Rayon based operations (parallel search, parallel insertions) with perturbed timing, in thread pools of several sizes.
use crate::dist::*;
use crate::seq::*;
use crate::util::*;
use hnsw_rs::api::AnnT;
use hnsw_rs::hnsw::*;
use parking_lot::sched;
use rand::prelude::*;
use serde_json::{json, Value};

fn pool(n: usize) -> rayon::ThreadPool {
    rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap()
}

/// runs f in another thread; None if it does not come back
fn timed<R: Send + 'static>(secs: u64, f: impl FnOnce() -> R + Send + 'static) -> Option<Result<R, String>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(guard(f));
    });
    rx.recv_timeout(std::time::Duration::from_secs(secs)).ok()
}

/// parallel searches
pub fn main_search(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 20);
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    let mut fo = Forcer::new();
    let mut answers = 0usize;
    for t in 0..n {
        let mut r = rng(seed, t + 5000);
        let r = &mut r;
        let mut c = gen_cfg(r, 24);
        if t % 4 == 0 {
            c.nins = r.gen_range(30..60);
        }
        let nqr = r.gen_range(1..30);
        c.nq = nqr;
        let tot = c.nins + nqr;
        set_table(rand_matrix(r, tot, t % 5 == 4));
        let rows: Vec<Vec<u32>> = (0..tot as u32).map(|i| vec![i]).collect();
        let dm = dist_matrix(&rows, &MatDist);
        let ids = gen_ids(r, c.nins);
        let keys: Keys = ids.iter().enumerate().map(|(i, id)| (*id, i as i64 + 1)).collect();
        let h: std::sync::Arc<Hnsw<'static, u32, MatDist>> = std::sync::Arc::new(make_index(&c, MatDist));
        for i in 0..c.nins {
            if let Some(l) = plan_level(c.levels, c.maxl, c.m, r) {
                let s = fo.seed(c.m, c.maxl, c.factor, l, r);
                sched::reseed_next(s);
            }
            h.insert((&rows[i], ids[i]));
            sched::reseed_next(None);
        }
        let mut prev = Snap::default();
        let mut steps: Vec<Value> = vec![];
        let add = |mut v: Value, prev: &mut Snap| {
            let cur = snap(&h);
            let (chg, add, del) = diff(prev, &cur, &keys);
            v["chg"] = chg;
            v["add"] = add;
            v["del"] = del;
            v["nbp"] = json!(cur.nbp);
            v["cnt"] = json!(cur.cnt);
            v["mlo"] = json!(cur.mlo);
            v["ep"] = json!(cur.ep);
            *prev = cur;
            v
        };
        steps.push(add(json!({"op": "init"}), &mut prev));
        for rep in 0..r.gen_range(1..4) {
            let nreq = match r.gen_range(0..6) {
                0 => 0,
                1 => 1,
                2 => r.gen_range(100..400),
                3 if t % 4 == 1 => r.gen_range(1000..2600),
                _ => r.gen_range(2..60),
            };
            let qs: Vec<usize> = (0..nreq)
                .map(|i| {
                    if rep % 2 == 0 {
                        r.gen_range(0..tot)
                    } else {
                        i % tot
                    }
                })
                .collect();
            let k = r.gen_range(1..8);
            let ef = r.gen_range(1..30);
            let datas: Vec<Vec<u32>> = qs.iter().map(|q| rows[*q].clone()).collect();
            let threads = *[1, 2, 3, 8, 16].choose(r).unwrap();
            let noise = *[0u32, 50, 200, 500].choose(r).unwrap();
            let form = r.gen_range(0..2);
            let seq = guard(|| datas.iter().map(|d| h.search(d, k, ef)).collect::<Vec<_>>());
            sched::set_noise(noise);
            let (h2, d2) = (h.clone(), datas.clone());
            let par = timed(60, move || {
                pool(threads).install(|| {
                    if form == 0 {
                        h2.parallel_search(&d2, k, ef)
                    } else {
                        h2.parallel_search_neighbours(&d2, k, ef)
                    }
                })
            });
            sched::set_noise(0);
            let v = match (seq, par) {
                (Ok(s), Some(Ok(p))) => {
                    answers += p.len();
                    json!({"op": "psrch", "qs": qs.iter().map(|q| q + 1).collect::<Vec<_>>(), "k": k, "ef": ef,
                    "seq": s.iter().map(|a| answer(a, &prev, &keys)).collect::<Vec<_>>(),
                    "par": p.iter().map(|a| answer(a, &prev, &keys)).collect::<Vec<_>>()})
                }
                (Err(e), _) => json!({"op": "panic", "msg": format!("search {}", e)}),
                (_, Some(Err(e))) => json!({"op": "panic", "msg": format!("parallel_search {}", e)}),
                (_, None) => json!({"op": "panic", "msg": "parallel_search does not terminate"}),
            };
            let hang = v["msg"] == "parallel_search does not terminate";
            steps.push(add(v, &mut prev));
            if hang {
                break;
            }
        }
        out.line(&json!({"id": format!("par-{}", t), "par": par_json(&c), "D": dm, "n": c.nins, "rows": rows.iter().map(|x| hex(x)).collect::<Vec<_>>(),
            "ids": ids.iter().map(|x| idtok(*x)).collect::<Vec<_>>(), "cfg": format!("{:?}", c), "steps": steps}));
    }
    out.flush();
    println!("answers {}", answers);
}

/// parallel insertions: the state before and after
pub fn main_insert(a: &Args) {
    let seed = a.u("seed", 1);
    let n = a.u("n", 20);
    let maxn = a.u("maxn", 60) as usize;
    let mut out = Out::new(&a.s("out", "/dev/stdout"));
    for t in 0..n {
        let mut r = rng(seed, t + 9000);
        let r = &mut r;
        let mut c = gen_cfg(r, 24);
        c.nins = r.gen_range(2..=maxn);
        c.maxl = 16;
        c.nq = 1;
        let tot = c.nins + 1;
        set_table(rand_matrix(r, tot, false));
        let rows: Vec<Vec<u32>> = (0..tot as u32).map(|i| vec![i]).collect();
        let dm = dist_matrix(&rows, &MatDist);
        let ids = gen_ids(r, c.nins);
        let keys: Keys = ids.iter().enumerate().map(|(i, id)| (*id, i as i64 + 1)).collect();
        let h: std::sync::Arc<Hnsw<'static, u32, MatDist>> = std::sync::Arc::new(make_index(&c, MatDist));
        let mut prev = Snap::default();
        let mut steps: Vec<Value> = vec![];
        let add = |mut v: Value, prev: &mut Snap| {
            let cur = snap(&h);
            let (chg, add, del) = diff(prev, &cur, &keys);
            v["same"] = json!(false);
            v["chg"] = chg;
            v["add"] = add;
            v["del"] = del;
            v["nbp"] = json!(cur.nbp);
            v["cnt"] = json!(cur.cnt);
            v["mlo"] = json!(cur.mlo);
            v["ep"] = json!(cur.ep);
            *prev = cur;
            v
        };
        steps.push(add(json!({"op": "init"}), &mut prev));
        let first = if r.gen_bool(0.5) { 0 } else { r.gen_range(0..c.nins) };
        let parts = if first == 0 || r.gen_bool(0.5) { vec![0..c.nins] } else { vec![0..first, first..c.nins] };
        let np = parts.len();
        for (pi, part) in parts.into_iter().enumerate() {
            let threads = *[2, 3, 4, 8, 16].choose(r).unwrap();
            let noise = *[0u32, 20, 100, 400].choose(r).unwrap();
            let form = r.gen_range(0..3);
            let datas: Vec<(Vec<u32>, usize)> = part.map(|i| (rows[i].clone(), ids[i])).collect();
            sched::set_noise(noise);
            let h2 = h.clone();
            let ok = timed(60, move || {
                pool(threads).install(|| match form {
                    0 | 1 => {
                        let v: Vec<(&Vec<u32>, usize)> = datas.iter().map(|(d, i)| (d, *i)).collect();
                        h2.parallel_insert(&v)
                    }
                    _ => {
                        let v: Vec<(&[u32], usize)> = datas.iter().map(|(d, i)| (d.as_slice(), *i)).collect();
                        h2.parallel_insert_slice(&v)
                    }
                })
            });
            sched::set_noise(0);
            match ok {
                Some(Ok(_)) => steps.push(add(json!({"op": if pi + 1 == np { "final" } else { "obs" }}), &mut prev)),
                Some(Err(e)) => {
                    steps.push(json!({"op": "fail", "kind": "panic", "msg": e}));
                    break;
                }
                None => {
                    steps.push(json!({"op": "fail", "kind": "nontermination", "msg": "parallel insertion does not terminate"}));
                    break;
                }
            }
        }
        let failed = steps.last().unwrap()["op"] == "fail";
        out.line(&json!({"id": format!("pins-{}", t), "par": par_json(&c), "D": dm, "n": c.nins, "rows": rows.iter().map(|x| hex(x)).collect::<Vec<_>>(),
            "ids": ids.iter().map(|x| idtok(*x)).collect::<Vec<_>>(), "cfg": format!("{:?}", c), "steps": steps}));
        if failed {
            std::mem::forget(h);
            break;
        }
    }
    out.flush();
    println!("sessions {}", out.n);
}
