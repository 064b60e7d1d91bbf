//! Choice of sample points: uniform ones and ones hugging input and output boundaries.
use crate::geo::Flat;
use crate::rng::Rng;
use kurbo::{Point, Vec2};

pub fn extent(fs: &[&Flat]) -> f64 {
    let mut e: f64 = 0.0;
    for f in fs {
        if let Some((lo, hi)) = f.bbox() {
            e = e.max((hi - lo).hypot());
        }
    }
    e
}

/// Candidate points, not yet filtered by distance.
pub fn candidates(rng: &mut Rng, fs: &[&Flat], n: usize, margin: f64) -> Vec<Point> {
    let mut lo = Point::new(f64::INFINITY, f64::INFINITY);
    let mut hi = Point::new(-f64::INFINITY, -f64::INFINITY);
    for f in fs {
        if let Some((l, h)) = f.bbox() {
            lo = Point::new(lo.x.min(l.x), lo.y.min(l.y));
            hi = Point::new(hi.x.max(h.x), hi.y.max(h.y));
        }
    }
    if !lo.x.is_finite() || !hi.x.is_finite() {
        return vec![Point::ZERO];
    }
    let d = (hi - lo) * 0.04 + Vec2::new(4.0 * margin, 4.0 * margin);
    lo -= d;
    hi += d;
    let edges: Vec<Vec<(Point, Point)>> = fs.iter().map(|f| f.edges().filter(|(a, b)| a != b).collect()).collect();
    let mut out = Vec::with_capacity(n);
    for i in 0..n {
        if i % 3 == 0 {
            out.push(Point::new(rng.range(lo.x, hi.x), rng.range(lo.y, hi.y)));
        } else {
            let k = rng.below(edges.len());
            if edges[k].is_empty() {
                continue;
            }
            let (a, b) = *rng.pick(&edges[k]);
            let t = if rng.chance(0.5) { 0.5 } else { rng.unit() };
            let v = b - a;
            let nrm = Vec2::new(-v.y, v.x) / v.hypot();
            let mut r = margin * rng.range(1.05, 4.0);
            if rng.chance(0.3) {
                r *= 20.0;
            }
            let s = if rng.chance(0.5) { 1.0 } else { -1.0 };
            out.push(a + t * v + s * r * nrm);
        }
    }
    out
}

/// Points in the corners between crossing edges (just outside the margin), where small faces are.
pub fn at_crossings(rng: &mut Rng, fs: &[Flat], n: usize, margin: f64) -> Vec<Point> {
    let edges: Vec<(Point, Point)> = fs.iter().flat_map(|f| f.edges().filter(|(a, b)| a != b).collect::<Vec<_>>()).collect();
    let mut out = vec![];
    if edges.len() < 2 {
        return out;
    }
    for _ in 0..8 * n {
        if out.len() >= n {
            break;
        }
        let (a, b) = *rng.pick(&edges);
        let (c, d) = *rng.pick(&edges);
        let (u, v) = (b - a, d - c);
        let x = u.cross(v);
        if x == 0.0 {
            continue;
        }
        let t = (c - a).cross(v) / x;
        let s = (c - a).cross(u) / x;
        if !(-0.001..=1.001).contains(&t) || !(-0.001..=1.001).contains(&s) {
            continue;
        }
        let p = a + t * u;
        let th = rng.range(0.0, 6.28318);
        let mut r = margin * rng.range(1.1, 6.0);
        if rng.chance(0.3) {
            r *= 10.0;
        }
        out.push(p + r * Vec2::new(th.cos(), th.sin()));
    }
    out
}
