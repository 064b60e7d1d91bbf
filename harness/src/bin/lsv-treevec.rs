//! Replays histories of list operations into the balanced container and records every answer.
use linesweeper::treevec::TreeVec;
use lsv_harness::json::*;
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};

#[derive(Clone)]
struct Op {
    k: String,
    a: i64,
    b: i64,
    v: Vec<i64>,
}

fn op(k: &str, a: i64, b: i64, v: Vec<i64>) -> Op {
    Op { k: k.to_string(), a, b, v }
}

fn perform<const B: usize>(t: &mut TreeVec<i64, B>, o: &Op) -> Vec<i64> {
    let (a, b) = (o.a as usize, o.b as usize);
    match o.k.as_str() {
        "ins" => {
            for (i, x) in o.v.iter().enumerate() {
                t.insert(a + i, *x);
            }
            vec![]
        }
        "del" => (0..b).map(|_| t.remove(a)).collect(),
        "set" => {
            if o.v[0] % 2 == 0 {
                t[a] = o.v[0];
            } else {
                *t.get_mut(a).unwrap() = o.v[0];
            }
            vec![]
        }
        "add" => {
            let mut old = vec![];
            for x in t.range_mut(a..b) {
                old.push(*x);
                *x += o.v[0];
            }
            old
        }
        "addall" => {
            let mut old = vec![];
            for x in t.iter_mut() {
                old.push(*x);
                *x += o.v[0];
            }
            old
        }
        "get" => match t.get(a) {
            Some(x) => {
                assert_eq!(*x, t[a], "get and index differ");
                vec![*x]
            }
            None => {
                assert!(t.get_mut(a).is_none(), "get and get_mut differ");
                vec![]
            }
        },
        // all ways to write the same range
        "range" => match (a + 2 * b) % 5 {
            0 if b > 0 => t.range(a..=b - 1).copied().collect(),
            1 if b == t.len() => t.range(a..).copied().collect(),
            2 if a == 0 => t.range(..b).copied().collect(),
            3 if a > 0 => t.range((std::ops::Bound::Excluded(a - 1), std::ops::Bound::Excluded(b))).copied().collect(),
            4 => t.range_mut(a..b).map(|x| *x).collect(),
            _ => t.range(a..b).copied().collect(),
        },
        "iter" => t.iter().copied().collect(),
        "len" => vec![t.len() as i64, t.is_empty() as i64],
        "pp" => vec![t.partition_point(|x| x % o.a < o.b) as i64],
        "lt" => vec![t.partition_point(|x| *x < o.a) as i64],
        "copy" => {
            let c: TreeVec<i64, B> = if t.len() % 2 == 0 { t.clone() } else { t.iter().copied().collect() };
            *t = c;
            t.iter().copied().collect()
        }
        "oob" => {
            let mut c = t.clone();
            let r = run::guarded(|| match o.b {
                0 => c.insert(a + 1, 7),
                1 => {
                    c.remove(a);
                }
                _ => {
                    let _ = c.range(0..a + 1).count();
                }
            });
            vec![r.is_err() as i64]
        }
        k => panic!("unknown operation {k}"),
    }
}

fn replay<const B: usize>(ops: &[Op]) -> String {
    let mut t = TreeVec::<i64, B>::new();
    let mut out = vec![];
    for o in ops {
        let r = run::guarded(|| perform(&mut t, o));
        let inv = run::guarded(|| t.check_invariants()).is_ok() as i64;
        let dead = r.is_err();
        let (st, r) = match r {
            Ok(r) => ("ok".to_string(), r),
            Err(e) => (e, vec![]),
        };
        out.push(Obj::new().str("k", &o.k).int("a", o.a).int("b", o.b).raw("v", ints(o.v.iter().copied())).raw("r", ints(r)).int("inv", inv).str("st", &st).end());
        if dead {
            break;
        }
    }
    arr(out)
}

/// A random history; positions stay valid for a list of the length tracked here.
fn history(r: &mut Rng, big: bool, steps: usize) -> Vec<Op> {
    let mut n: i64 = 0;
    let mut next = 1;
    let mut ops = vec![];
    let (chunk, cap) = if big { (3000, 24000) } else { (40, 400) };
    let sorted = r.chance(0.3);
    let mut phase = 0; // growing, shrinking, mixed
    let mut at = 0.5;
    for _ in 0..steps {
        if r.chance(0.08) {
            phase = r.below(3);
            at = *r.pick(&[0.0, 0.02, 0.5, 0.98, 1.0, -1.0]);
        }
        let pos = |r: &mut Rng, n: i64| if at < 0.0 { r.int(0, n) } else { ((n as f64 * at) as i64).min(n) };
        let grow = match phase {
            0 => 0.7,
            1 => 0.05,
            _ => 0.4,
        };
        let x = r.unit();
        if x < grow && n < cap {
            let c = if r.chance(0.4) { r.int(1, chunk) } else { r.int(1, 3) };
            let p = if sorted { n } else { pos(r, n) };
            ops.push(op("ins", p, 0, (next..next + c).collect()));
            next += c;
            n += c;
        } else if x < 0.75 && n > 0 {
            let c = if r.chance(0.4) { r.int(1, chunk).min(n) } else { 1 };
            let p = pos(r, n).min(n - c);
            ops.push(op("del", p, c, vec![]));
            n -= c;
        } else {
            let k = r.below(if big { 12 } else { 16 });
            match k {
                0 => ops.push(op("get", r.int(0, n + 1), 0, vec![])),
                1 if n > 0 => ops.push(op("get", *r.pick(&[0, n - 1, n, n / 2]), 0, vec![])),
                2 | 3 => {
                    let a = r.int(0, n);
                    let b = if r.chance(0.3) { n } else { r.int(a, n).min(a + 300) };
                    if !big || b - a < 1000 {
                        ops.push(op("range", a, b, vec![]));
                    }
                }
                4 => ops.push(op("len", 0, 0, vec![])),
                5 => ops.push(op("pp", r.int(2, 9), r.int(0, 8), vec![])),
                6 | 7 => ops.push(op("lt", r.int(0, next + 1), 0, vec![])),
                8 if n > 0 => ops.push(op("set", r.int(0, n - 1), 0, vec![next])),
                9 => {
                    let a = r.int(0, n);
                    let b = r.int(a, n).min(a + 300);
                    if !sorted {
                        ops.push(op("add", a, b, vec![r.int(1, 5)]));
                    }
                }
                10 => ops.push(op("oob", n + r.int(0, 1), r.int(0, 2), vec![])),
                11 if r.chance(0.15) => ops.push(op("copy", 0, 0, vec![])),
                12 => ops.push(op("addall", 0, 0, vec![r.int(1, 5)])),
                13 | 14 => ops.push(op("iter", 0, 0, vec![])),
                15 => ops.push(op("range", 0, n, vec![])),
                _ => {}
            }
        }
    }
    ops.push(op("iter", 0, 0, vec![]));
    ops
}

fn record(args: &Args, i: u64) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let (b, ops) = match args.mode.as_str() {
        "file" => {
            let l = line(&args.rest[0], i)?;
            let ops = l.get("ops").arr().iter().map(|o| op(o.get("k").str(), o.get("a").int(), o.get("b").int(), o.get("v").ints())).collect();
            (l.get("B").int(), ops)
        }
        "small" => (*r.pick(&[4, 4, 5, 6, 7, 8]), history(&mut r, false, 250)),
        "big" => (128, history(&mut r, true, 60)),
        m => panic!("unknown mode {m}"),
    };
    let o = Obj::new().int("id", i as i64).str("fam", &format!("B={b}")).str("key", &format!("{}-{}-{i}", args.mode, args.seed)).int("B", b);
    if let Some(d) = &args.dead {
        return Some(o.str("st", d).raw("ops", "[]").end());
    }
    let t = match b {
        4 => replay::<4>(&ops),
        5 => replay::<5>(&ops),
        6 => replay::<6>(&ops),
        7 => replay::<7>(&ops),
        8 => replay::<8>(&ops),
        _ => replay::<128>(&ops),
    };
    Some(o.str("st", "ok").raw("ops", t).end())
}

fn main() {
    run::drive(record);
}
