//! Calls of the boolean operations and projection of their results onto what the specification sees.
use crate::gen::Case;
use crate::geo::{self, Flat};
use crate::json::*;
use crate::run;
use kurbo::{BezPath, PathEl, Point};
use linesweeper::topology::Contours;
use linesweeper::{BinaryOp, FillRule};

pub const RULES: [FillRule; 2] = [FillRule::EvenOdd, FillRule::NonZero];
pub const OPS: [BinaryOp; 4] = [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor];

pub fn inside(rule: usize, w: i32) -> bool {
    if rule == 0 {
        w % 2 != 0
    } else {
        w != 0
    }
}

/// Ok(contours) or a status: "err:.." or "panic".
pub fn call(a: &BezPath, b: &BezPath, rule: usize, op: usize, eps: Option<f64>) -> Result<Contours, (&'static str, String)> {
    match run::guarded(|| match eps {
        None => linesweeper::binary_op(a, b, RULES[rule], OPS[op]),
        Some(e) => linesweeper::binary_op_with_eps(a, b, RULES[rule], OPS[op], e),
    }) {
        Err(p) => Err(("panic", p)),
        Ok(Err(e)) => Err(("err", format!("{e:?}"))),
        Ok(Ok(c)) => Ok(c),
    }
}

pub fn max_abs(ps: &[&BezPath]) -> f64 {
    let mut m: f64 = 0.0;
    for p in ps {
        for el in p.iter() {
            let pts: [Option<Point>; 3] = match el {
                PathEl::MoveTo(p) | PathEl::LineTo(p) => [Some(p), None, None],
                PathEl::QuadTo(p, q) => [Some(p), Some(q), None],
                PathEl::CurveTo(p, q, r) => [Some(p), Some(q), Some(r)],
                PathEl::ClosePath => [None; 3],
            };
            for q in pts.into_iter().flatten() {
                m = m.max(q.x.abs()).max(q.y.abs());
            }
        }
    }
    m
}

/// The accuracy that is in force (the automatic one as documented by property P09: a fixed tiny
/// length or a fixed tiny fraction of the largest coordinate).
pub fn eps_of(c: &Case) -> f64 {
    c.eps.unwrap_or_else(|| (max_abs(&[&c.a, &c.b]) * 1e-8).max(1e-6))
}

/// (closed, finite) of one contour path.
pub fn path_shape(p: &BezPath) -> (bool, bool) {
    let els = p.elements();
    let mut finite = true;
    let mut moves = 0;
    let mut start = Point::ZERO;
    let mut last = Point::ZERO;
    for el in els {
        let pts: Vec<Point> = match *el {
            PathEl::MoveTo(p) => {
                moves += 1;
                start = p;
                vec![p]
            }
            PathEl::LineTo(p) => vec![p],
            PathEl::QuadTo(p, q) => vec![p, q],
            PathEl::CurveTo(p, q, r) => vec![p, q, r],
            PathEl::ClosePath => vec![],
        };
        for q in &pts {
            finite &= q.x.is_finite() && q.y.is_finite();
            last = *q;
        }
    }
    let n_close = els.iter().filter(|e| matches!(e, PathEl::ClosePath)).count();
    let closed = moves == 1
        && matches!(els.first(), Some(PathEl::MoveTo(_)))
        && ((n_close == 1 && matches!(els.last(), Some(PathEl::ClosePath))) || (n_close == 0 && last == start));
    (closed, finite)
}

fn perimeter(f: &Flat) -> f64 {
    f.edges().map(|(a, b)| (b - a).hypot()).sum()
}

/// Sign of the enclosed area, 0 when it is within the accuracy of zero.  Positive means clockwise as
/// seen with y growing downwards.
pub fn area_sign(f: &Flat, eps: f64) -> i64 {
    let o = match f.rings.first().and_then(|r| r.first()) {
        Some(p) => *p,
        None => return 0,
    };
    let a: f64 = f.edges().map(|(p, q)| (p - o).cross(q - o)).sum::<f64>() / 2.0;
    if a.abs() <= 20.0 * eps * perimeter(f) {
        0
    } else if a > 0.0 {
        1
    } else {
        -1
    }
}

pub fn contour_path(c: &Contours) -> BezPath {
    let mut p = BezPath::new();
    for k in c.contours() {
        p.extend(k.path.iter());
    }
    p
}

/// [[parent, outer, closed, finite, area sign], ..] with parents numbered from 1 (0: none).
pub fn contours_json(c: &Contours, flats: &[Flat], eps: f64) -> String {
    arr(c.contours().zip(flats).map(|(k, f)| {
        let (closed, finite) = path_shape(&k.path);
        ints([
            k.parent.map_or(0, |p| p.0 as i64 + 1),
            k.outer as i64,
            closed as i64,
            finite as i64,
            area_sign(f, eps),
        ])
    }))
}

pub fn groups_json(c: &Contours) -> String {
    arr(c.grouped().iter().map(|g| ints(g.iter().map(|i| i.0 as i64 + 1))))
}

/// Contours with a non-zero winding number at p, as a flat list k1,w1,k2,w2,..
pub fn enclosing(flats: &[Flat], p: Point) -> String {
    let mut v = vec![];
    for (i, f) in flats.iter().enumerate() {
        let w = f.winding(p);
        if w != 0 {
            v.push(i as i64 + 1);
            v.push(w as i64);
        }
    }
    ints(v)
}

/// Largest distance from points of the result's boundary to the inputs' boundaries, in tenths of eps
/// (capped at one million).  `inp` is flattened finely.
pub fn deviation(out: &Contours, idx: &geo::EdgeIndex, eps: f64) -> i64 {
    let mut worst: f64 = 0.0;
    for k in out.contours() {
        for seg in k.path.segments() {
            use kurbo::ParamCurve;
            let n = if matches!(seg, kurbo::PathSeg::Line(_)) { 8 } else { 16 };
            for i in 0..=n {
                let p = seg.eval(i as f64 / n as f64);
                let d = idx.dist_above(p, worst);
                if d > worst {
                    worst = d;
                }
            }
        }
    }
    ((worst / eps * 10.0).ceil()).min(1e6) as i64
}

pub fn edge_index(ps: &[&BezPath], tol: f64) -> geo::EdgeIndex {
    let mut inp = Flat::default();
    for p in ps {
        inp.rings.extend(geo::flatten(p, tol).rings);
    }
    let ed: Vec<(Point, Point)> = inp.edges().filter(|(a, b)| a != b).collect();
    let pts: Vec<Point> = inp.rings.iter().flatten().copied().collect();
    geo::EdgeIndex::new(&ed, &pts)
}
