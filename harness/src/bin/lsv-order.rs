//! Records comparisons of two height-monotone curves: the stretches, what the curves measure at many
//! heights, the answers of all queries, and histories of the comparison cache.
use kurbo::{CubicBez, ParamCurve, PathSeg, Point, Vec2};
use linesweeper::curve::{intersect_cubics, CurveInteraction, CurveOrder, Order};
use linesweeper::order::ComparisonCache;
use linesweeper::Segments;
use lsv_harness::json::*;
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};
use lsv_harness::gen;
use lsv_harness::mono::{x_at, x_range};
use std::collections::BTreeSet;

fn lab(o: Order) -> i64 {
    match o {
        Order::Left => -1,
        Order::Ish => 0,
        Order::Right => 1,
    }
}

fn list(o: &CurveOrder) -> Vec<(f64, f64, i64)> {
    o.iter().map(|(a, b, l)| (a, b, lab(l))).collect()
}

fn sorted_cubic(r: &mut Rng, s: f64) -> CubicBez {
    let mut ys: Vec<f64> = (0..4).map(|_| r.range(0.0, s)).collect();
    ys.sort_by(|a, b| a.total_cmp(b));
    if r.chance(0.2) {
        ys[1] = ys[0];
    }
    if r.chance(0.2) {
        ys[2] = ys[3];
    }
    let mut x = || r.range(0.0, s);
    let v = [x(), x(), x(), x()];
    if ys[3] <= ys[0] {
        ys[3] = ys[0] + s;
    }
    CubicBez::new((v[0], ys[0]), (v[1], ys[1]), (v[2], ys[2]), (v[3], ys[3]))
}

fn line(p: Point, q: Point) -> CubicBez {
    CubicBez::new(p, p + (1.0 / 3.0) * (q - p), p + (2.0 / 3.0) * (q - p), q)
}

fn shift(c: &CubicBez, v: Vec2) -> CubicBez {
    CubicBez::new(c.p0 + v, c.p1 + v, c.p2 + v, c.p3 + v)
}

fn grid_cubic(r: &mut Rng, g: i64) -> CubicBez {
    loop {
        let mut ys: Vec<i64> = (0..4).map(|_| r.int(0, g)).collect();
        ys.sort();
        if ys[0] < ys[3] {
            let mut x = || r.int(0, g) as f64;
            let v = [x(), x(), x(), x()];
            return CubicBez::new((v[0], ys[0] as f64), (v[1], ys[1] as f64), (v[2], ys[2] as f64), (v[3], ys[3] as f64));
        }
    }
}

/// Two curves with a common height range, and tolerance and accuracy.
fn pair(r: &mut Rng) -> (&'static str, CubicBez, CubicBez, f64, f64) {
    let s = *r.pick(&[1.0, 10.0, 100.0, 1000.0]);
    let tol = s * *r.pick(&[1e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.05]);
    let acc = tol * *r.pick(&[0.5, 0.5, 0.5, 1.0, 0.25]);
    loop {
        let (fam, a, b) = match r.below(9) {
            0 => ("random", sorted_cubic(r, s), sorted_cubic(r, s)),
            1 => {
                // a shifted copy near the thresholds
                let a = sorted_cubic(r, s);
                let d = tol * *r.pick(&[0.0, 0.4, 0.5, 0.6, 1.0, 1.4, 1.5, 1.6, 2.0, 3.0]) + acc * r.range(-0.2, 0.2);
                let d = if r.chance(0.5) { d } else { -d };
                ("parallel", a, shift(&a, Vec2::new(d, if r.chance(0.7) { 0.0 } else { r.range(-0.1, 0.1) * s })))
            }
            2 => {
                // perturbed copies
                let a = sorted_cubic(r, s);
                let mut j = |p: Point| p + Vec2::new(r.range(-4.0, 4.0) * tol, 0.0);
                ("perturbed", a, CubicBez::new(j(a.p0), j(a.p1), j(a.p2), j(a.p3)))
            }
            3 => {
                // common end points
                let (a, mut b) = (sorted_cubic(r, s), sorted_cubic(r, s));
                b.p0 = a.p0;
                b.p3 = a.p3;
                b.p1.y = b.p1.y.clamp(a.p0.y, a.p3.y);
                b.p2.y = b.p2.y.clamp(b.p1.y, a.p3.y);
                if r.chance(0.5) {
                    b.p1 = a.p1;
                }
                ("common-ends", a, b)
            }
            4 => {
                // a line through a curve, touching or crossing it several times
                let a = sorted_cubic(r, s);
                let (t, u) = (r.range(0.0, 0.5), r.range(0.5, 1.0));
                let (p, q) = (a.eval(t), a.eval(u));
                if q.y <= p.y {
                    continue;
                }
                let v = q - p;
                let d = Vec2::new(tol * r.range(-3.0, 3.0), 0.0);
                ("secant", a, line(p - 0.3 * v + d, q + 0.3 * v + d))
            }
            5 => ("lines", line(Point::new(r.range(0.0, s), 0.0), Point::new(r.range(0.0, s), s)), line(Point::new(r.range(0.0, s), r.range(-0.5, 0.5) * s), Point::new(r.range(0.0, s), s * r.range(0.6, 1.4)))),
            6 => {
                let g = *r.pick(&[2, 4, 8]);
                let k = s / g as f64;
                let f = |c: CubicBez| CubicBez::new((c.p0.to_vec2() * k).to_point(), (c.p1.to_vec2() * k).to_point(), (c.p2.to_vec2() * k).to_point(), (c.p3.to_vec2() * k).to_point());
                ("grid", f(grid_cubic(r, g)), f(grid_cubic(r, g)))
            }
            7 => {
                // almost horizontal
                let h = s * *r.pick(&[1e-6, 1e-4, 1e-2]);
                let f = |mut c: CubicBez| {
                    for p in [&mut c.p0, &mut c.p1, &mut c.p2, &mut c.p3] {
                        p.y *= h / s;
                    }
                    c
                };
                ("flat", f(sorted_cubic(r, s)), f(sorted_cubic(r, s)))
            }
            _ => {
                // pieces of arbitrary curves, as the store cuts them
                let c = gen::curve_case(r);
                let mut sg = Segments::default();
                let k = (s / c.scale) / 100.0;
                let t = kurbo::Affine::scale(k) * kurbo::Affine::translate(-c.off);
                let p = gen::reclose(&(t * c.a));
                let q = gen::reclose(&(t * c.b));
                if sg.add_non_closed_bez_path(&p).is_err() || sg.add_non_closed_bez_path(&q).is_err() || sg.len() < 2 {
                    continue;
                }
                let ix: Vec<_> = sg.indices().filter(|i| !sg[*i].is_horizontal()).collect();
                if ix.len() < 2 {
                    continue;
                }
                let (i, j) = (r.below(ix.len()), r.below(ix.len()));
                ("pieces", sg[ix[i]].to_kurbo_cubic(), sg[ix[j]].to_kurbo_cubic())
            }
        };
        if a.p0.y < a.p3.y && b.p0.y < b.p3.y && a.p0.y.max(b.p0.y) <= a.p3.y.min(b.p3.y) {
            let mx = [a, b].iter().flat_map(|c| [c.p0, c.p1, c.p2, c.p3]).map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max);
            // within the documented limits of floating point
            if tol >= 1e-8 * mx && acc >= 5e-9 * mx {
                return (fam, a, b, tol, acc);
            }
        }
    }
}

struct Ranks(Vec<f64>);
impl Ranks {
    fn of(&self, y: f64) -> i64 {
        self.0.binary_search_by(|p| p.total_cmp(&(y + 0.0))).map_or(-1, |i| i as i64 + 1)
    }
}

fn pair_record(args: &Args, i: u64, o: Obj) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let (fam, a, b, tol, acc) = pair(&mut r);
    let key = run::fnv(&[&format!("{a:?}{b:?}{tol:e}{acc:e}")]);
    let o = o.str("fam", fam).str("key", &key).str("kind", "pair").str("place", &format!("{a:?} {b:?} tol {tol:e} acc {acc:e}"));
    let empty = |o: Obj, st: &str| {
        o.str("st", st).int("acc", 0).int("lo", 0).int("hi", 0).int("s", 0).raw("L", "[]").raw("S", "[]").raw("Q", "[]").raw("F", "[]").raw("W", "[]").raw("H", "[]").int("inv", 1).end()
    };
    if let Some(d) = &args.dead {
        return Some(empty(o, d));
    }
    let (lo, hi) = (a.p0.y.max(b.p0.y), a.p3.y.min(b.p3.y));
    let slop = if hi > lo { (hi - lo) * *r.pick(&[1e-4, 1e-3, 1e-2, 0.05, 0.2, 0.6]) } else { tol };
    let h = hi - lo;
    // everything the code is asked
    let res = run::guarded(|| {
        let c = intersect_cubics(a, b, tol, acc);
        let inv = run::guarded(|| c.check_invariants()).is_ok();
        let l = list(&c);
        let f = list(&c.flip());
        let w = list(&c.clone().with_y_slop(slop));
        let winv = run::guarded(|| c.clone().with_y_slop(slop).check_invariants()).is_ok();
        let mut ys: Vec<f64> = vec![lo, hi];
        for e in &l {
            ys.push(e.0);
            ys.push(e.1);
            ys.push(0.5 * (e.0 + e.1));
        }
        for _ in 0..6 {
            ys.push(r.range(lo, hi).clamp(lo, hi));
        }
        let mut q: Vec<(i64, f64, Vec<f64>, Vec<i64>)> = vec![];
        for y in ys {
            if y < lo || y > hi {
                continue;
            }
            q.push((1, y, vec![], vec![lab(c.order_at(y))]));
            if y < hi {
                let e = c.entry_at(y);
                q.push((2, y, vec![e.0, e.1], vec![lab(e.2)]));
            }
            q.push((3, y, vec![], vec![lab(c.order_after(y))]));
            q.push(match c.next_touch_after(y) {
                None => (4, y, vec![], vec![0]),
                Some(CurveInteraction::Cross(t)) => (4, y, vec![t], vec![1]),
                Some(CurveInteraction::Touch(t)) => (4, y, vec![t], vec![2]),
            });
        }
        (l, f, w, inv && winv, q)
    });
    let (l, f, w, inv, q) = match res {
        Err(e) => return Some(empty(o, &e)),
        Ok(x) => x,
    };
    // measurements, around the heights that matter
    let mut hs: Vec<f64> = vec![lo, hi];
    for e in &l {
        for d in [acc * 1.01, acc * 3.0, h * 1e-3] {
            hs.extend([e.0 + d, e.0 - d, e.1 - d, e.1 + d]);
        }
        hs.push(0.5 * (e.0 + e.1));
    }
    for k in 0..40 {
        hs.push(lo + h * (k as f64 + r.unit()) / 40.0);
    }
    let d = |y: f64| x_at(&b, y) - x_at(&a, y);
    // heights where the distance passes the thresholds
    let n = 200;
    let ds: Vec<f64> = (0..=n).map(|k| d(lo + h * k as f64 / n as f64)).collect();
    for th in [tol + acc, tol - acc, -tol - acc, acc - tol] {
        for k in 0..n {
            if (ds[k] - th) * (ds[k + 1] - th) < 0.0 {
                let (mut u, mut v) = (lo + h * k as f64 / n as f64, lo + h * (k + 1) as f64 / n as f64);
                for _ in 0..40 {
                    let m = 0.5 * (u + v);
                    if (d(m) - th) * (d(u) - th) > 0.0 {
                        u = m;
                    } else {
                        v = m;
                    }
                }
                for e in [1.2, 2.0, 5.0] {
                    hs.push(u + e * acc);
                    hs.push(u - e * acc);
                }
                let st = h / n as f64;
                hs.extend([u + 0.1 * st, u - 0.1 * st]);
            }
        }
    }
    let mx = [a, b].iter().flat_map(|c| [c.p0, c.p1, c.p2, c.p3]).map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max);
    let dy = 8.0 * acc + 1e-12 * mx;
    let mut samples: Vec<(f64, i64, i64)> = vec![];
    for y in hs {
        if !(y >= lo && y <= hi) {
            continue;
        }
        // the difference of the curves over heights within the accuracy of y, each curve on its own
        let (amin, amax) = x_range(&a, (y - dy).max(lo), (y + dy).min(hi));
        let (bmin, bmax) = x_range(&b, (y - dy).max(lo), (y + dy).min(hi));
        let fp = 1e-10 * mx;
        let u = |v: f64| (v / tol * 10000.0).clamp(-1e8, 1e8);
        samples.push((y, u(bmin - amax - fp).floor() as i64, u(bmax - amin + fp).ceil() as i64));
    }
    let mut all: Vec<f64> = vec![lo, hi];
    for v in [&l, &f, &w] {
        all.extend(v.iter().flat_map(|e| [e.0, e.1]));
    }
    all.extend(samples.iter().map(|s| s.0));
    all.extend(q.iter().flat_map(|q| std::iter::once(q.1).chain(q.2.iter().copied())));
    let mut all: Vec<f64> = all.into_iter().map(|x| x + 0.0).collect();
    all.sort_by(|a, b| a.total_cmp(b));
    all.dedup();
    let rk = Ranks(all);
    let st = |v: &Vec<(f64, f64, i64)>| arr(v.iter().map(|e| ints([rk.of(e.0), rk.of(e.1), e.2])));
    let qu = |y: f64| ((y - lo) / slop * 1000.0).round().clamp(-1e9, 1e9) as i64;
    Some(
        o.str("st", "ok")
            .int("acc", (acc / tol * 10000.0).round() as i64)
            .int("lo", rk.of(lo))
            .int("hi", rk.of(hi))
            .int("s", l.first().map_or(0, |e| rk.of(e.0)))
            .raw("L", st(&l))
            .raw("S", arr(samples.iter().map(|s| ints([rk.of(s.0), s.1, s.2]))))
            .raw("Q", arr(q.iter().map(|(k, y, v, a)| ints([*k, rk.of(*y)].into_iter().chain(v.iter().map(|v| rk.of(*v))).chain(a.iter().copied())))))
            .raw("F", st(&f))
            .raw("W", st(&w))
            // heights of L and W in thousandths of the slop
            .raw("H", format!("[{},{}]", arr(l.iter().map(|e| ints([qu(e.0), qu(e.1)]))), arr(w.iter().map(|e| ints([qu(e.0), qu(e.1)])))))
            .int("inv", inv as i64)
            .end(),
    )
}

fn same(a: &[(f64, f64, i64)], b: &[(f64, f64, i64)]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0.to_bits() == y.0.to_bits() && x.1.to_bits() == y.1.to_bits() && x.2 == y.2)
}

/// A history of cache queries; answers are numbered by their exact value.
fn cache_record(args: &Args, i: u64, o: Obj) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let mut sg = Segments::default();
    let n = 2 + r.below(5);
    let s = 100.0;
    while sg.len() < n {
        if r.chance(0.3) {
            let (x0, x1) = (r.range(0.0, s), r.range(0.0, s));
            let y = r.range(0.0, 40.0);
            sg.add_points([(x0, y), (x1, y + r.range(1.0, 60.0))]);
        } else {
            let (_, a, b, _, _) = pair(&mut r);
            for c in [a, b] {
                let mut p = kurbo::BezPath::new();
                p.move_to(c.p0);
                p.curve_to(c.p1, c.p2, c.p3);
                let _ = sg.add_non_closed_bez_path(&p);
            }
        }
    }
    let ix: Vec<_> = sg.indices().filter(|i| !sg[*i].is_horizontal()).collect();
    let tol = *r.pick(&[1e-3, 1e-2, 0.1, 1.0]);
    let acc = tol / 2.0;
    let slop = r.chance(0.5);
    let key = run::fnv(&[&format!("{sg:?}{tol}{slop}")]);
    let o = o.str("fam", "cache").str("key", &key).str("kind", "cache");
    if let Some(d) = &args.dead {
        return Some(o.str("st", d).raw("ops", "[]").raw("flip", "[]").end());
    }
    let mk = || if slop { ComparisonCache::new(tol, acc) } else { ComparisonCache::new_without_y_slop(tol, acc) };
    let mut ids: Vec<Vec<(f64, f64, i64)>> = vec![];
    let mut id = |v: Vec<(f64, f64, i64)>| match ids.iter().position(|w| same(w, &v)) {
        Some(i) => i as i64 + 1,
        None => {
            ids.push(v);
            ids.len() as i64
        }
    };
    let res = run::guarded(|| {
        let mut caches = vec![mk()];
        let mut ops = vec![];
        for _ in 0..24 {
            let (p, q) = (r.below(ix.len()), r.below(ix.len()));
            let (si, sj) = (&sg[ix[p]], &sg[ix[q]]);
            if si.start().y.max(sj.start().y) > si.end().y.min(sj.end().y) {
                continue;
            }
            if r.chance(0.1) && caches.len() < 3 {
                let from = r.below(caches.len());
                let c = caches[from].clone();
                caches.push(c);
                ops.push(ints([0, caches.len() as i64, from as i64 + 1]));
            }
            let k = r.below(caches.len());
            let ans = list(&caches[k].compare_segments(&sg, ix[p], ix[q]));
            let fresh = list(&mk().compare_segments(&sg, ix[p], ix[q]));
            let direct = {
                let c = intersect_cubics(si.to_kurbo_cubic(), sj.to_kurbo_cubic(), tol, acc);
                list(&if slop { c.with_y_slop(tol) } else { c })
            };
            let back = list(&mk().compare_segments(&sg, ix[q], ix[p]).flip());
            ops.push(ints([1, p as i64 + 1, q as i64 + 1, id(ans), id(fresh), id(direct)]).replace(']', &format!(",{},{}]", id(back), k + 1)));
        }
        ops
    });
    match res {
        Err(e) => Some(o.str("st", &e).raw("ops", "[]").raw("flip", "[]").end()),
        Ok(ops) => Some(o.str("st", "ok").raw("ops", arr(ops)).raw("flip", "[]").end()),
    }
}

fn record(args: &Args, i: u64) -> Option<String> {
    let _: BTreeSet<i64> = BTreeSet::new();
    let _ = PathSeg::Line;
    let o = Obj::new().int("id", i as i64);
    match args.mode.as_str() {
        "pair" => pair_record(args, i, o),
        "cache" => cache_record(args, i, o),
        m => panic!("unknown mode {m}"),
    }
}

fn main() {
    run::drive(record);
}
