//! Boolean operations on unions of cells of a small planar complex (spec/CellComplex.tla), placed in
//! the plane by an invertible integer map.  Every vertex of a result must be a lattice point again,
//! so that TraceCells.tla can judge whole results exactly.
use kurbo::{BezPath, PathEl, Point, Vec2};
use lsv_harness::json::*;
use lsv_harness::ops::*;
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};
use lsv_harness::{gen, geo};

/// Corners of cell `k`, in the numbering of the specification: "square": k = i + w * j;
/// "jack": k = s + 4 * (i + w * j).
fn corners(jack: bool, w: i64, k: i64) -> Vec<(i64, i64)> {
    let q = if jack { k / 4 } else { k };
    let (i, j) = (q % w, q / w);
    let c = (2 * i + 1, 2 * j + 1);
    let (a, b, d, e) = ((2 * i, 2 * j), (2 * i, 2 * j + 2), (2 * i + 2, 2 * j + 2), (2 * i + 2, 2 * j));
    if !jack {
        return vec![a, b, d, e];
    }
    match k % 4 {
        0 => vec![a, b, c],
        1 => vec![b, d, c],
        2 => vec![d, e, c],
        _ => vec![e, a, c],
    }
}

const MAPS: [[i64; 4]; 10] = [
    // x' = m0 x + m1 y, y' = m2 x + m3 y; determinants are positive
    [1, 0, 0, 1],
    [1, 0, 0, 1],
    [1, -1, 1, 1],
    [1, 1, -1, 1],
    [0, -1, 1, 0],
    [3, -1, 1, 3],
    [1, 2, 0, 1],
    [1, 0, 2, 1],
    [5, 1, -2, 7],
    [-1, 0, 0, -1],
];

type Ring = Vec<(i64, i64)>;

/// A closed lattice walk along edges of the complex: long and short, doubling back, self-crossing.
fn walk(jack: bool, w: i64, h: i64, r: &mut Rng) -> Ring {
    let (mx, my) = (2 * w, 2 * h);
    let mut p = (2 * r.int(0, w), 2 * r.int(0, h));
    let s = p;
    let mut out = vec![p];
    let n = 2 + r.below(6);
    for _ in 0..n {
        let k = r.int(1, 3);
        let centre = p.0 % 2 != 0;
        let d = if jack && (centre || r.chance(0.4)) {
            // diagonal; an odd number of steps ends in a centre
            let (a, b) = (if r.chance(0.5) { 1 } else { -1 }, if r.chance(0.5) { 1 } else { -1 });
            (a * k, b * k)
        } else if r.chance(0.5) {
            (2 * k * if r.chance(0.5) { 1 } else { -1 }, 0)
        } else {
            (0, 2 * k * if r.chance(0.5) { 1 } else { -1 })
        };
        let q = (p.0 + d.0, p.1 + d.1);
        if q.0 < 0 || q.1 < 0 || q.0 > mx || q.1 > my {
            continue;
        }
        p = q;
        out.push(p);
    }
    if p.0 % 2 != 0 {
        // back to a corner
        p = (p.0 + if p.0 < mx { 1 } else { -1 }, p.1 + if p.1 < my { 1 } else { -1 });
        out.push(p);
    }
    if p.0 != s.0 && p.1 != s.1 {
        out.push(if r.chance(0.5) { (s.0, p.1) } else { (p.0, s.1) });
    }
    gen::dedup(out)
}

/// Bigger pieces with edges along the complex, so that coincident edges overlap partially.
fn pieces(jack: bool, w: i64, h: i64, r: &mut Rng) -> Vec<Ring> {
    let n = 1 + r.below(4);
    let mut out = vec![];
    for _ in 0..n {
        let mut q = match r.below(if jack { 4 } else { 2 }) {
            0 => {
                let (x0, y0) = (r.int(0, w - 1), r.int(0, h - 1));
                let (x1, y1) = (r.int(x0 + 1, w), r.int(y0 + 1, h));
                vec![(2 * x0, 2 * y0), (2 * x0, 2 * y1), (2 * x1, 2 * y1), (2 * x1, 2 * y0)]
            }
            1 => walk(jack, w, h, r),
            2 => {
                // right triangle with a diagonal of k squares
                let k = r.int(1, w.min(h));
                let (x, y) = (2 * r.int(0, w - k), 2 * r.int(0, h - k));
                let mut t = vec![(x, y), (x, y + 2 * k), (x + 2 * k, y + 2 * k), (x + 2 * k, y)];
                t.remove(r.below(4));
                t
            }
            _ => {
                // diamond around a centre or a corner
                let k = r.int(1, w.min(h).max(1));
                let (x, y) = (r.int(0, 2 * w), r.int(0, 2 * h));
                if (x + y) % 2 != 0 || x - k < 0 || y - k < 0 || x + k > 2 * w || y + k > 2 * h || (x + k) % 2 != y % 2 {
                    walk(jack, w, h, r)
                } else {
                    vec![(x - k, y), (x, y + k), (x + k, y), (x, y - k)]
                }
            }
        };
        if r.chance(0.4) {
            q.reverse();
        }
        if q.len() >= 2 {
            out.push(q.clone());
            if r.chance(0.15) {
                if r.chance(0.5) {
                    q.reverse();
                }
                out.push(q);
            }
        }
    }
    out
}

fn mask_shape(jack: bool, w: i64, m: u64, r: &mut Rng, messy: bool) -> Vec<Ring> {
    let mut cells: Vec<(i64, i64)> = vec![];
    for k in 0..64 {
        if m >> k & 1 == 1 {
            let s = if messy && r.chance(0.4) { -1 } else { 1 };
            cells.push((k, s));
            if messy && r.chance(0.08) {
                cells.push((k, if r.chance(0.5) { -s } else { s }));
            }
        }
    }
    if messy {
        for i in (1..cells.len()).rev() {
            cells.swap(i, r.below(i + 1));
        }
    }
    cells
        .into_iter()
        .map(|(k, sg)| {
            let mut c = corners(jack, w, k);
            if sg < 0 {
                c.reverse();
            }
            if messy {
                let n = r.below(c.len());
                c.rotate_left(n);
            }
            c
        })
        .collect()
}

fn record(args: &Args, i: u64) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    // (jack, w, h, mask a, mask b)
    let (jack, w, h, ma, mb): (bool, i64, i64, u64, u64) = match args.mode.as_str() {
        "sq22" if i < 256 => (false, 2, 2, i % 16, i / 16),
        "sq32" if i < 4096 => (false, 3, 2, i % 64, i / 64),
        "sq33" if i < 512 => (false, 3, 3, i, 0),
        "jk11" if i < 256 => (true, 1, 1, i % 16, i / 16),
        "jk21" if i < 65536 => (true, 2, 1, i % 256, i / 256),
        // regions scattered over the 65536 ones (an odd multiplier permutes them)
        "jk22" if i < 65536 => (true, 2, 2, i.wrapping_mul(40503) % 65536, 0),
        "rnd" => {
            let jack = r.chance(0.6);
            let (w, h) = if jack { (r.int(1, 4), r.int(1, 4)) } else { (r.int(2, 7), r.int(2, 7)) };
            let n = (w * h * if jack { 4 } else { 1 }) as u32;
            let d = r.range(0.25, 0.85);
            let mut m = [0u64; 2];
            for x in &mut m {
                for k in 0..n {
                    *x |= (r.chance(d) as u64) << k;
                }
            }
            (jack, w, h, m[0], m[1])
        }
        "poly" => {
            let jack = r.chance(0.6);
            let (w, h) = if jack { (r.int(1, 3), r.int(1, 3)) } else { (r.int(2, 5), r.int(2, 5)) };
            (jack, w, h, 0, 1)
        }
        _ => return None,
    };
    let first = args.rest.iter().find_map(|x| x.strip_prefix("map=")).map(|x| x.parse::<usize>().unwrap());
    let mm = MAPS[first.unwrap_or(r.below(MAPS.len()))];
    let scale = *r.pick(&[1.0, 1.0, 0.5, 10.0, 0.1, 3.3, 1000.0]);
    let off = if r.chance(0.6) { Vec2::ZERO } else { Vec2::new(r.int(-40, 40) as f64 * scale, r.int(-40, 40) as f64 * scale) };
    let eps = match r.below(5) {
        0 | 1 => None,
        2 => Some(1e-6 * scale),
        3 => Some(1e-3 * scale),
        _ => Some(0.01 * scale),
    };
    let messy = r.chance(0.5);
    let (sa, sb) = if args.mode == "poly" {
        let a = pieces(jack, w, h, &mut r);
        let b = if r.chance(0.2) { a.clone() } else if r.chance(0.2) { vec![] } else { pieces(jack, w, h, &mut r) };
        (a, b)
    } else {
        (mask_shape(jack, w, ma, &mut r, messy), mask_shape(jack, w, mb, &mut r, messy))
    };
    let at = |p: (i64, i64)| Point::new((mm[0] * p.0 + mm[1] * p.1) as f64 * scale + off.x, (mm[2] * p.0 + mm[3] * p.1) as f64 * scale + off.y);
    let path = |s: &[Ring]| {
        let mut p = BezPath::new();
        for c in s {
            p.move_to(at(c[0]));
            for q in &c[1..] {
                p.line_to(at(*q));
            }
            p.close_path();
        }
        p
    };
    let (a, b) = (path(&sa), path(&sb));
    let key = run::fnv(&[&a.to_svg(), &b.to_svg(), &eps.map_or("auto".into(), |e: f64| format!("{e:e}"))]);
    let cells = |s: &[Ring]| arr(s.iter().map(|c| ints(c.iter().flat_map(|p| [p.0, p.1]))));
    let o = Obj::new().int("id", i as i64).str("fam", if jack { "jack" } else { "square" }).str("key", &key).str("kind", if jack { "jack" } else { "square" });
    let o = o.str("place", &format!("map {mm:?} scale {scale} off {off:?} eps {eps:?}"));
    if args.rest.iter().any(|x| x == "show") {
        println!("A={}\nB={}", a.to_svg(), b.to_svg());
    }
    let o = o.int("strict", (args.mode != "poly") as i64);
    let o = o.int("w", w).int("h", h).raw("A", cells(&sa)).raw("B", cells(&sb));
    if let Some(d) = &args.dead {
        return Some(o.str("st", d).raw("runs", "[]").end());
    }
    let case = gen::Case { family: "cells", a: a.clone(), b: b.clone(), ints: None, scale, off, eps };
    let e = eps_of(&case);
    let det = (mm[0] * mm[3] - mm[1] * mm[2]) as f64;
    let back = |p: Point| {
        let (x, y) = ((p.x - off.x) / scale, (p.y - off.y) / scale);
        ((mm[3] as f64 * x - mm[1] as f64 * y) / det, (mm[0] as f64 * y - mm[2] as f64 * x) / det)
    };
    let combos: Vec<(usize, usize)> = if mb == 0 { vec![(0, 0), (1, 0)] } else { (0..2).flat_map(|r| (0..4).map(move |o| (r, o))).collect() };
    let runs = arr(combos.into_iter().map(|(rule, op)| {
        let ro = Obj::new().int("r", rule as i64).int("o", op as i64);
        match call(&a, &b, rule, op, eps) {
            Err((st, msg)) => ro.str("st", st).str("msg", &msg).raw("K", "[]").raw("G", "[]").raw("C", "[]").int("lat", 1).end(),
            Ok(cs) => {
                let fl: Vec<_> = cs.contours().map(|k| geo::flatten(&k.path, e)).collect();
                let mut lat = true;
                let rings = arr(cs.contours().map(|k| {
                    let mut ring: Vec<(i64, i64)> = vec![];
                    for el in k.path.elements() {
                        let p = match *el {
                            PathEl::MoveTo(p) | PathEl::LineTo(p) | PathEl::QuadTo(_, p) | PathEl::CurveTo(_, _, p) => p,
                            PathEl::ClosePath => continue,
                        };
                        let (x, y) = back(p);
                        let q = (x.round(), y.round());
                        // a few accuracies, seen through the inverse map
                        lat &= (at((q.0 as i64, q.1 as i64)) - p).hypot() <= 10.0 * e;
                        ring.push((q.0 as i64, q.1 as i64));
                    }
                    ints(gen::dedup(ring).into_iter().flat_map(|p| [p.0, p.1]))
                }));
                ro.str("st", "ok").str("msg", "").raw("K", contours_json(&cs, &fl, e)).raw("G", groups_json(&cs)).raw("C", rings).int("lat", lat as i64).end()
            }
        }
    }));
    Some(o.str("st", "ok").raw("runs", runs).end())
}

fn main() {
    run::drive(record);
}
