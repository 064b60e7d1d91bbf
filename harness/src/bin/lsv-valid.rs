//! Records which inputs the entry points refuse, and how (P06).  Coordinates are recorded as ranks.
use kurbo::{BezPath, PathEl, Point};
use linesweeper::topology::{BinaryWindingNumber, Topology};
use linesweeper::Error;
use lsv_harness::gen;
use lsv_harness::json::*;
use lsv_harness::ops::{self, OPS, RULES};
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};
use std::collections::BTreeSet;

fn ord(x: f64) -> u64 {
    let b = (x + 0.0).to_bits();
    if b >> 63 == 1 {
        !b
    } else {
        b | 1 << 63
    }
}

fn points(e: &PathEl) -> Vec<Point> {
    match *e {
        PathEl::MoveTo(p) | PathEl::LineTo(p) => vec![p],
        PathEl::QuadTo(a, p) => vec![a, p],
        PathEl::CurveTo(a, b, p) => vec![a, b, p],
        PathEl::ClosePath => vec![],
    }
}

fn kind(e: &PathEl) -> i64 {
    match e {
        PathEl::MoveTo(_) => 0,
        PathEl::LineTo(_) => 1,
        PathEl::QuadTo(..) => 2,
        PathEl::CurveTo(..) => 3,
        PathEl::ClosePath => 4,
    }
}

fn make(k: i64, p: &[Point]) -> PathEl {
    match k {
        0 => PathEl::MoveTo(p[0]),
        1 => PathEl::LineTo(p[0]),
        2 => PathEl::QuadTo(p[0], p[1]),
        3 => PathEl::CurveTo(p[0], p[1], p[2]),
        _ => PathEl::ClosePath,
    }
}

fn from_file(l: &Val, r: &mut Rng) -> [BezPath; 2] {
    let sc = *r.pick(&[1.0, 1.0, 0.1, 1e6, 1e-7]);
    let off = *r.pick(&[0.0, 0.0, -1.5, 100.25]) * sc;
    let num = |v: i64| match v {
        0 => *[f64::NAN, -f64::NAN].get(v as usize).unwrap(),
        -1 => f64::INFINITY,
        -2 => f64::NEG_INFINITY,
        v => v as f64 * sc + off,
    };
    let mut out: Vec<Vec<PathEl>> = vec![vec![]];
    for e in l.get("els").arr() {
        let e = e.ints();
        if e[0] == 9 {
            out.push(vec![]);
        } else {
            let ps: Vec<Point> = e[1..].chunks(2).map(|c| Point::new(num(c[0]), num(c[1]))).collect();
            out.last_mut().unwrap().push(make(e[0], &ps));
        }
    }
    [BezPath::from_vec(out[0].clone()), BezPath::from_vec(out[1].clone())]
}

fn ulp(x: f64, up: bool) -> f64 {
    if up {
        x.next_up()
    } else {
        x.next_down()
    }
}

fn damage(p: &BezPath, r: &mut Rng) -> BezPath {
    let mut els: Vec<PathEl> = p.elements().to_vec();
    if els.len() < 2 {
        return p.clone();
    }
    let i = 1 + r.below(els.len() - 1);
    let ends: Vec<usize> = (1..els.len()).filter(|j| *j + 1 == els.len() || matches!(els[*j + 1], PathEl::MoveTo(_))).collect();
    match r.below(8) {
        // a value that is not finite
        0..=2 => {
            let j = if r.chance(0.2) { 0 } else { i };
            let mut ps = points(&els[j]);
            if !ps.is_empty() {
                let v = *r.pick(&[f64::NAN, f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                let k = r.below(ps.len());
                if r.chance(0.5) {
                    ps[k].x = v;
                } else {
                    ps[k].y = v;
                }
                els[j] = make(kind(&els[j]), &ps);
            }
        }
        // the last element of a subpath is missing
        3 => {
            els.remove(*r.pick(&ends));
        }
        // a subpath ends a tiny bit beside its start
        4 | 5 => {
            let mut j = *r.pick(&ends);
            while matches!(els[j], PathEl::ClosePath) {
                els.remove(j);
                j -= 1;
            }
            let mut s = j;
            while !matches!(els[s], PathEl::MoveTo(_)) {
                s -= 1;
            }
            let mut q = points(&els[s])[0];
            if s < j {
                match r.below(3) {
                    0 => q.x = ulp(q.x, r.chance(0.5)),
                    1 => q.y = ulp(q.y, r.chance(0.5)),
                    _ => {}
                }
                if r.chance(0.5) {
                    els.insert(j + 1, PathEl::LineTo(q));
                } else {
                    let mut ps = points(&els[j]);
                    *ps.last_mut().unwrap() = q;
                    els[j] = make(kind(&els[j]), &ps);
                }
            }
        }
        6 => els.truncate(i),
        _ => els.insert(i, *r.pick(&[PathEl::ClosePath, PathEl::MoveTo(points(&els[0])[0])])),
    }
    BezPath::from_vec(els)
}

fn random(r: &mut Rng) -> [BezPath; 2] {
    let c = match r.below(5) {
        0 | 1 => gen::curve_case(r),
        2 => gen::coincident_case(r),
        _ => gen::int_case(r),
    };
    let mut out = [c.a, c.b];
    for p in out.iter_mut() {
        if p.elements().len() > 40 {
            *p = gen::reclose(&BezPath::from_vec(p.elements()[..40].to_vec()));
        }
    }
    if r.chance(0.65) {
        for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
            let k = r.below(2);
            out[k] = damage(&out[k], r);
        }
    }
    out
}

fn record(args: &Args, i: u64) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let io = match args.mode.as_str() {
        "file" => from_file(&line(&args.rest[0], i)?, &mut r),
        "rand" => random(&mut r),
        m => panic!("unknown mode {m}"),
    };
    let (rule, op) = (r.below(2), r.below(4));
    let key = run::fnv(&[&format!("{io:?} {rule} {op}")]);
    let o = Obj::new().int("id", i as i64).str("fam", &args.mode).str("key", &key);
    let all: Vec<Point> = io.iter().flat_map(|p| p.elements().iter().flat_map(points).collect::<Vec<_>>()).collect();
    let rank = |f: fn(&Point) -> f64| -> Vec<u64> { all.iter().map(f).filter(|v| v.is_finite()).map(ord).collect::<BTreeSet<_>>().into_iter().collect() };
    let (xs, ys) = (rank(|p| p.x), rank(|p| p.y));
    let num = |v: f64, s: &Vec<u64>| {
        if v.is_nan() {
            0
        } else if v.is_infinite() {
            if v > 0.0 { -1 } else { -2 }
        } else {
            s.binary_search(&ord(v)).map_or(-9, |k| k as i64 + 1)
        }
    };
    let xy = |p: Point| [num(p.x, &xs), num(p.y, &ys)];
    let els = arr(io.iter().flat_map(|p| {
        p.elements()
            .iter()
            .map(|e| ints(std::iter::once(kind(e)).chain(points(e).into_iter().flat_map(xy))))
            .chain(std::iter::once("[9]".to_string()))
            .collect::<Vec<_>>()
    }));
    let o = o.raw("els", els);
    if let Some(d) = &args.dead {
        return Some(o.str("st", d).raw("ans", "[]").end());
    }
    let finite = all.iter().all(|p| p.is_finite());
    let eps = if finite { (ops::max_abs(&[&io[0], &io[1]]) * 1e-6).max(1e-9) } else { 1e-6 };
    let open = |s: Point, e: Point| ("open", vec![s, e]);
    let of = |e: Error| match e {
        Error::Infinity => ("inf", vec![]),
        Error::NaN => ("nan", vec![]),
        Error::NonClosedPath(n) => open(n.start_point, n.end_point),
    };
    let ok = ("ok", vec![]);
    let mut ans = vec![];
    let mut st = "ok".to_string();
    for api in ["binary_op", "binary_op_with_eps", "from_paths_binary", "from_paths"] {
        if api != "binary_op" && !finite {
            break;
        }
        let got = run::guarded(|| match api {
            "binary_op" => linesweeper::binary_op(&io[0], &io[1], RULES[rule], OPS[op]).map_or_else(of, |_| ok.clone()),
            "binary_op_with_eps" => linesweeper::binary_op_with_eps(&io[0], &io[1], RULES[rule], OPS[op], eps).map_or_else(of, |_| ok.clone()),
            "from_paths_binary" => Topology::from_paths_binary(&io[0], &io[1], eps).map_or_else(|e| of(e.into()), |_| ok.clone()),
            _ => Topology::<BinaryWindingNumber>::from_paths([(&io[0], true), (&io[1], false)], eps).map_or_else(|e| of(e.into()), |_| ok.clone()),
        });
        match got {
            Ok((k, ps)) => ans.push(Obj::new().str("api", api).str("r", k).raw("p", ints(ps.into_iter().flat_map(xy))).end()),
            Err(e) => st = format!("panic in {api}: {}", &e[..e.len().min(100)]),
        }
    }
    Some(o.str("st", &st).raw("ans", arr(ans)).end())
}

fn main() {
    run::drive(record);
}
