//! Replays sequences of additions into the real segment store and records the whole store after each.
//! Coordinates are recorded as ranks (order-preserving and exact).
use kurbo::{BezPath, CubicBez, ParamCurve, PathEl, Point};
use linesweeper::Segments;
use lsv_harness::geo::{self, seg_dist2};
use lsv_harness::json::*;
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};
use lsv_harness::gen;
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
enum Add {
    Poly(Vec<Vec<Point>>),
    Points(Vec<Point>),
    Bez(BezPath, bool),
}

/// Ranks of coordinates, -0.0 and 0.0 being equal.
struct Ranks(Vec<u64>);
fn ord(x: f64) -> u64 {
    let b = (x + 0.0).to_bits();
    if b >> 63 == 1 {
        !b
    } else {
        b | 1 << 63
    }
}
impl Ranks {
    fn new(it: impl Iterator<Item = f64>) -> Self {
        let s: BTreeSet<u64> = it.map(ord).collect();
        Ranks(s.into_iter().collect())
    }
    fn of(&self, x: f64) -> i64 {
        self.0.binary_search(&ord(x)).map_or(-1, |i| i as i64 + 1)
    }
}

struct Seg {
    s: Point,
    e: Point,
    pos: bool,
    next: i64,
    prev: i64,
    mono: bool,
    on: Vec<i64>,
}

struct Step {
    k: &'static str,
    els: Vec<(i64, Point)>,
    rings: Vec<Vec<Point>>,
    res: Option<(Point, Point)>,
    st: String,
    segs: Vec<Seg>,
    enter: Vec<(f64, i64)>,
    exit: Vec<(f64, i64)>,
    miss: Vec<i64>,
    inv: i64,
}

fn curve_of(els: &[PathEl], i: usize, from: Point) -> CubicBez {
    match els[i] {
        PathEl::QuadTo(q, p) => CubicBez::new(from, from + (2.0 / 3.0) * (q - from), p + (2.0 / 3.0) * (q - p), p),
        PathEl::CurveTo(a, b, p) => CubicBez::new(from, a, b, p),
        _ => unreachable!(),
    }
}

fn poly_of(c: CubicBez, n: usize) -> Vec<Point> {
    (0..=n).map(|i| c.eval(i as f64 / n as f64)).collect()
}

fn dist_to(ps: &[Point], p: Point) -> f64 {
    ps.windows(2).map(|w| seg_dist2(p, w[0], w[1])).fold(f64::INFINITY, f64::min).sqrt()
}

fn size_of(c: &CubicBez) -> f64 {
    let m = |f: fn(&Point) -> f64| {
        let v = [f(&c.p0), f(&c.p1), f(&c.p2), f(&c.p3)];
        v.iter().cloned().fold(f64::NEG_INFINITY, f64::max) - v.iter().cloned().fold(f64::INFINITY, f64::min)
    };
    m(|p| p.x).max(m(|p| p.y)) + 1e-9 * (c.p0.to_vec2().hypot())
}

fn perform(s: &mut Segments, a: &Add) -> Step {
    let old = s.len();
    let mut st = Step { k: "", els: vec![], rings: vec![], res: None, st: "ok".into(), segs: vec![], enter: vec![], exit: vec![], miss: vec![], inv: 1 };
    let mut curves: Vec<(i64, CubicBez, Vec<Point>)> = vec![];
    let r = run::guarded(|| match a {
        Add::Poly(v) => {
            let conv: Vec<Vec<(f64, f64)>> = v.iter().map(|r| r.iter().map(|p| (p.x, p.y)).collect()).collect();
            if conv.len() == 1 && old == 0 && conv[0].len() % 2 == 0 {
                *s = Segments::from_closed_polyline(conv[0].clone());
            } else if conv.len() == 1 {
                s.add_closed_polyline(conv[0].clone());
            } else {
                s.add_closed_polylines(conv);
            }
            None
        }
        Add::Points(v) => {
            s.add_points(v.iter().map(|p| (p.x, p.y)));
            None
        }
        Add::Bez(p, true) => s.add_bez_path(p).err(),
        Add::Bez(p, false) => s.add_non_closed_bez_path(p).err(),
    });
    match a {
        Add::Poly(v) => {
            st.k = "poly";
            st.rings = v.clone();
        }
        Add::Points(v) => {
            st.k = "points";
            st.rings = vec![v.clone()];
        }
        Add::Bez(p, closed) => {
            st.k = if *closed { "bez" } else { "open" };
            let els = p.elements();
            let (mut cur, mut start) = (Point::ZERO, Point::ZERO);
            for (i, e) in els.iter().enumerate() {
                match *e {
                    PathEl::MoveTo(q) => {
                        start = q;
                        cur = q;
                        st.els.push((0, q));
                    }
                    PathEl::LineTo(q) => {
                        cur = q;
                        st.els.push((1, q));
                    }
                    PathEl::QuadTo(_, q) | PathEl::CurveTo(_, _, q) => {
                        let c = curve_of(els, i, cur);
                        curves.push((i as i64 + 1, c, poly_of(c, 1500)));
                        cur = q;
                        st.els.push((2, q));
                    }
                    PathEl::ClosePath => {
                        cur = start;
                        st.els.push((4, start));
                    }
                }
            }
        }
    }
    match r {
        Err(e) => {
            st.st = e;
            return st;
        }
        Ok(e) => st.res = e.map(|e| (e.start_point, e.end_point)),
    }
    let num = |i: linesweeper::SegIdx| s.indices().position(|j| j == i).unwrap() as i64 + 1;
    for (i, ix) in s.indices().enumerate() {
        let g = &s[ix];
        let c = g.to_kurbo_cubic();
        let sz = size_of(&c);
        let pl = poly_of(c, 64);
        let mono = g.start() <= g.end() && pl.windows(2).all(|w| w[1].y >= w[0].y - 1e-9 * sz - 1e-14 * c.p0.to_vec2().hypot()) && c.p0 == g.start().to_kurbo() && c.p3 == g.end().to_kurbo();
        let mut on = vec![];
        if i >= old {
            for (id, k, line) in &curves {
                let t = 1e-5 * size_of(k);
                if pl.iter().step_by(7).all(|p| dist_to(line, *p) <= t) {
                    on.push(*id);
                }
            }
        }
        st.segs.push(Seg {
            s: s.oriented_start(ix).to_kurbo(),
            e: s.oriented_end(ix).to_kurbo(),
            pos: s.positively_oriented(ix),
            next: s.contour_next(ix).map_or(0, num),
            prev: s.contour_prev(ix).map_or(0, num),
            mono,
            on,
        });
    }
    if st.res.is_none() {
        for (id, k, line) in &curves {
            if k.p0.y == k.p3.y && k.p1.y == k.p0.y && k.p2.y == k.p0.y {
                continue;
            }
            let t = 1e-5 * size_of(k);
            let new: Vec<Vec<Point>> = s.indices().skip(old).map(|ix| poly_of(s[ix].to_kurbo_cubic(), 500)).collect();
            let t2 = t.max(size_of(k) * 1e-4);
            if !line.iter().step_by(50).all(|p| new.iter().any(|n| dist_to(n, *p) <= t2)) {
                st.miss.push(*id);
            }
        }
    }
    st.enter = s.entrances().iter().map(|(y, i)| (*y, num(*i))).collect();
    st.exit = s.exits().iter().map(|(y, i)| (*y, num(*i))).collect();
    assert_eq!(s.segments().count(), s.len());
    st.inv = run::guarded(|| s.check_invariants()).is_ok() as i64;
    st
}

fn from_file(l: &Val, r: &mut Rng) -> Vec<Add> {
    let sc = *r.pick(&[1.0, 1.0, 0.1, 1e6]);
    let off = *r.pick(&[0.0, 0.0, -1.5, 100.25]);
    let pt = |x: i64, y: i64| Point::new(x as f64 * sc + off, y as f64 * sc - off);
    l.get("ops")
        .arr()
        .iter()
        .map(|o| {
            let els: Vec<Vec<i64>> = o.get("els").arr().iter().map(|e| e.ints()).collect();
            match o.get("k").str() {
                "poly" => {
                    let mut v = vec![vec![]];
                    for e in &els {
                        if e[0] == 0 {
                            v.push(vec![]);
                        } else {
                            v.last_mut().unwrap().push(pt(e[1], e[2]));
                        }
                    }
                    Add::Poly(v)
                }
                "points" => Add::Points(els.iter().map(|e| pt(e[1], e[2])).collect()),
                k => {
                    let mut p = BezPath::new();
                    for e in &els {
                        match e[0] {
                            0 => p.move_to(pt(e[1], e[2])),
                            1 => p.line_to(pt(e[1], e[2])),
                            2 => p.quad_to(pt(e[3], e[4]), pt(e[1], e[2])),
                            3 => p.curve_to(pt(e[3], e[4]), pt(e[5], e[6]), pt(e[1], e[2])),
                            _ => p.close_path(),
                        }
                    }
                    Add::Bez(p, k == "bez")
                }
            }
        })
        .collect()
}

/// Cuts, opens and damages a path in various ways.
fn mangle(p: &BezPath, r: &mut Rng) -> BezPath {
    let mut els: Vec<PathEl> = p.elements().to_vec();
    for _ in 0..r.below(3) {
        if els.len() < 3 {
            break;
        }
        let i = 1 + r.below(els.len() - 1);
        match r.below(4) {
            0 => {
                els.remove(i);
            }
            1 => els.insert(i, PathEl::ClosePath),
            2 => els.truncate(i),
            _ => {
                if let PathEl::MoveTo(q) | PathEl::LineTo(q) | PathEl::QuadTo(_, q) | PathEl::CurveTo(_, _, q) = els[i] {
                    els.insert(i + 1, *r.pick(&[PathEl::LineTo(q), PathEl::MoveTo(q), PathEl::CurveTo(q, q, q), PathEl::QuadTo(q, q)]));
                }
            }
        }
    }
    BezPath::from_vec(els)
}

fn random(r: &mut Rng) -> Vec<Add> {
    (0..1 + r.below(4))
        .map(|_| {
            let c = if r.chance(0.5) { gen::curve_case(r) } else { gen::int_case(r) };
            let mut p = c.a;
            if p.elements().len() > 40 {
                p = BezPath::from_vec(p.elements()[..40].to_vec());
                if r.chance(0.7) {
                    p = gen::reclose(&p);
                }
            }
            match r.below(8) {
                0 => Add::Poly(geo::flatten(&p, 0.2 * c.scale).rings.into_iter().take(3).map(|v| v.into_iter().step_by(3).take(12).collect()).collect()),
                1 => Add::Points(geo::flatten(&p, 0.2 * c.scale).rings.into_iter().flatten().step_by(4).take(15).collect()),
                2 | 3 => Add::Bez(p, true),
                4 => Add::Bez(p, false),
                5 => Add::Bez(mangle(&p, r), false),
                _ => Add::Bez(mangle(&p, r), true),
            }
        })
        .collect()
}

fn record(args: &Args, i: u64) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let adds = match args.mode.as_str() {
        "file" => from_file(&line(&args.rest[0], i)?, &mut r),
        "rand" => random(&mut r),
        m => panic!("unknown mode {m}"),
    };
    let key = run::fnv(&[&format!("{adds:?}")]);
    let o = Obj::new().int("id", i as i64).str("fam", &args.mode).str("key", &key);
    if let Some(d) = &args.dead {
        return Some(o.str("st", d).raw("ops", "[]").end());
    }
    let mut s = Segments::default();
    let mut steps = vec![];
    for a in &adds {
        let st = perform(&mut s, a);
        let bad = st.st != "ok";
        steps.push(st);
        if bad {
            break;
        }
    }
    let pts = || {
        steps.iter().flat_map(|t| {
            t.els.iter().map(|e| e.1).chain(t.rings.iter().flatten().copied()).chain(t.segs.iter().flat_map(|g| [g.s, g.e])).chain(t.res.iter().flat_map(|r| [r.0, r.1]))
        })
    };
    let rx = Ranks::new(pts().map(|p| p.x));
    let ry = Ranks::new(pts().map(|p| p.y));
    let xy = |p: Point| [rx.of(p.x), ry.of(p.y)];
    let ops = arr(steps.iter().map(|t| {
        let subs = if t.k == "poly" || t.k == "points" {
            arr(t.rings.iter().map(|v| ints(v.iter().flat_map(|p| xy(*p)))))
        } else {
            arr(t.els.iter().map(|(k, p)| ints([*k, xy(*p)[0], xy(*p)[1]])))
        };
        let segs = arr(t.segs.iter().map(|g| {
            let v = ints([xy(g.s)[0], xy(g.s)[1], xy(g.e)[0], xy(g.e)[1], g.pos as i64, g.next, g.prev, g.mono as i64]);
            format!("{},{}]", &v[..v.len() - 1], ints(g.on.iter().copied()))
        }));
        let hs = |v: &Vec<(f64, i64)>| ints(v.iter().flat_map(|(y, k)| [ry.of(*y), *k]));
        Obj::new()
            .str("k", t.k)
            .raw("subs", subs)
            .raw("res", t.res.map_or("[]".into(), |(a, b)| ints([xy(a)[0], xy(a)[1], xy(b)[0], xy(b)[1]])))
            .str("st", &t.st)
            .raw("segs", segs)
            .raw("in", hs(&t.enter))
            .raw("out", hs(&t.exit))
            .raw("miss", ints(t.miss.iter().copied()))
            .int("inv", t.inv)
            .end()
    }));
    Some(o.str("st", "ok").raw("ops", ops).end())
}

fn main() {
    run::drive(record);
}
