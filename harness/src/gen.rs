//! Input generators.  A case is a pair of shapes.  "Integer" cases are polygons with small integer
//! vertices, placed in the plane by an exact scale and offset, so that the specification can compute
//! exact winding numbers from the same integers; "curve" cases are arbitrary closed Bezier paths.
use crate::rng::Rng;
use kurbo::{Affine, BezPath, Point, Shape, Vec2};

pub type Ring = Vec<(i64, i64)>;

#[derive(Clone, Debug)]
pub struct Case {
    pub family: &'static str,
    pub a: BezPath,
    pub b: BezPath,
    /// integer rings of a and b, when the case is exact
    pub ints: Option<(Vec<Ring>, Vec<Ring>)>,
    pub scale: f64,
    pub off: Vec2,
    /// None: use the automatic accuracy
    pub eps: Option<f64>,
}

impl Case {
    pub fn svg(&self) -> (String, String) {
        (self.a.to_svg(), self.b.to_svg())
    }
}

fn ring_path(path: &mut BezPath, r: &Ring, scale: f64, off: Vec2, close: bool) {
    if r.is_empty() {
        return;
    }
    let f = |p: &(i64, i64)| Point::new(p.0 as f64 * scale + off.x, p.1 as f64 * scale + off.y);
    path.move_to(f(&r[0]));
    for p in &r[1..] {
        path.line_to(f(p));
    }
    if close {
        path.close_path();
    } else {
        path.line_to(f(&r[0]));
    }
}

pub fn rings_path(rs: &[Ring], scale: f64, off: Vec2, rng: &mut Rng) -> BezPath {
    let mut p = BezPath::new();
    for r in rs {
        let close = rng.chance(0.7);
        ring_path(&mut p, r, scale, off, close);
    }
    p
}

// ---------------------------------------------------------------- integer families

fn rand_ring(rng: &mut Rng, g: i64, n: usize) -> Ring {
    (0..n).map(|_| (rng.int(0, g), rng.int(0, g))).collect()
}

fn rectilinear_ring(rng: &mut Rng, g: i64, n: usize) -> Ring {
    let mut r: Ring = vec![];
    let (mut x, mut y) = (rng.int(0, g), rng.int(0, g));
    let (x0, y0) = (x, y);
    r.push((x, y));
    for i in 0..n {
        if i % 2 == 0 {
            x = rng.int(0, g);
        } else {
            y = rng.int(0, g);
        }
        r.push((x, y));
    }
    // close with axis-aligned moves
    if x != x0 && y != y0 {
        r.push((x0, y));
    }
    dedup(r)
}

pub fn dedup(mut r: Ring) -> Ring {
    r.dedup();
    while r.len() > 1 && r.first() == r.last() {
        r.pop();
    }
    r
}

fn rect(x0: i64, y0: i64, x1: i64, y1: i64) -> Ring {
    vec![(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
}

fn diamond(cx: i64, cy: i64, r: i64) -> Ring {
    vec![(cx, cy - r), (cx + r, cy), (cx, cy + r), (cx - r, cy)]
}

fn maybe_rev(rng: &mut Rng, mut r: Ring) -> Ring {
    if rng.chance(0.5) {
        r.reverse();
    }
    if !r.is_empty() {
        let k = rng.below(r.len());
        r.rotate_left(k);
    }
    r
}

fn squares(x0: i64, y0: i64, size: i64, offset: i64, slant: i64, count: i64) -> Vec<Ring> {
    let mut ret = vec![];
    for i in 0..count {
        for j in 0..count {
            let (x, y) = (x0 + i * offset, y0 + j * offset);
            ret.push(vec![(x, y), (x, y + size), (x + size, y + size + slant), (x + size, y + slant)]);
        }
    }
    ret
}

/// Extra collinear vertices on lattice points of edges.
fn subdivide(rng: &mut Rng, r: &Ring) -> Ring {
    fn gcd(a: i64, b: i64) -> i64 {
        if b == 0 {
            a.abs()
        } else {
            gcd(b, a % b)
        }
    }
    let mut out = vec![];
    for i in 0..r.len() {
        let (p, q) = (r[i], r[(i + 1) % r.len()]);
        out.push(p);
        let g = gcd(q.0 - p.0, q.1 - p.1);
        if g > 1 && rng.chance(0.5) {
            let k = rng.int(1, g - 1);
            out.push((p.0 + (q.0 - p.0) / g * k, p.1 + (q.1 - p.1) / g * k));
        }
    }
    out
}

fn tiling(rng: &mut Rng, n: i64, density: f64) -> Vec<Ring> {
    let mut out = vec![];
    for i in 0..n {
        for j in 0..n {
            if rng.chance(density) {
                let (x, y) = (2 * i, 2 * j);
                let r = match rng.below(8) {
                    0 => vec![(x, y), (x + 2, y), (x + 2, y + 2)],
                    1 => vec![(x, y), (x + 2, y + 2), (x, y + 2)],
                    2 => vec![(x, y), (x + 2, y), (x, y + 2)],
                    3 => vec![(x + 1, y), (x + 2, y + 1), (x + 1, y + 2), (x, y + 1)],
                    _ => rect(x, y, x + 2, y + 2),
                };
                out.push(maybe_rev(rng, r));
            }
        }
    }
    out
}

fn nested(rng: &mut Rng) -> Vec<Ring> {
    // nested squares/diamonds with touching vertices and shared sides
    let mut out = vec![];
    let (mut x0, mut y0, mut x1, mut y1) = (0, 0, 32, 32);
    let depth = rng.int(2, 5);
    for _ in 0..depth {
        if x1 - x0 < 4 || y1 - y0 < 4 {
            break;
        }
        let r = if rng.chance(0.4) {
            let mx = (x0 + x1) / 2;
            let my = (y0 + y1) / 2;
            vec![(mx, y0), (x1, my), (mx, y1), (x0, my)]
        } else {
            rect(x0, y0, x1, y1)
        };
        out.push(maybe_rev(rng, r));
        // shrink, sometimes keeping a touching side/corner
        let s = |rng: &mut Rng| if rng.chance(0.35) { 0 } else { rng.int(1, 3) };
        x0 += s(rng);
        y0 += s(rng);
        x1 -= s(rng);
        y1 -= s(rng);
    }
    // holes side by side
    for _ in 0..rng.below(4) {
        let r = rng.int(1, 4);
        let (cx, cy) = (rng.int(6, 26), rng.int(6, 26));
        let d = diamond(cx, cy, r);
        out.push(maybe_rev(rng, d));
        if rng.chance(0.6) {
            let d = match rng.below(4) {
                0 => diamond(cx + 2 * r, cy, r),
                1 => diamond(cx, cy + 2 * r, r),
                2 => diamond(cx + r, cy + r, r),
                _ => rect(cx + r, cy, cx + r + 2, cy + 2),
            };
            out.push(maybe_rev(rng, d));
        }
    }
    out
}

fn comb(rng: &mut Rng, teeth: i64, h: i64) -> Vec<Ring> {
    // one polygon with many monotone edges, alternating up and down
    let mut r = vec![];
    for i in 0..teeth {
        r.push((2 * i, rng.int(0, 2)));
        r.push((2 * i + 1, h - rng.int(0, 2)));
    }
    r.push((2 * teeth, h + 3));
    r.push((0, h + 3));
    vec![dedup(r)]
}

fn spikes(rng: &mut Rng, g: i64) -> Ring {
    let mut r = rand_ring(rng, g, 4);
    let k = rng.below(r.len());
    let p = r[k];
    let s = (rng.int(0, g), rng.int(0, g));
    r.insert(k + 1, s);
    r.insert(k + 2, p);
    r
}

fn star_polygon(rng: &mut Rng) -> Ring {
    let n = *rng.pick(&[5usize, 6, 7, 8, 9]);
    let k = 2 + rng.below(2);
    let c = 32.0;
    let r = rng.range(10.0, 30.0);
    let th = rng.range(0.0, 6.28);
    (0..n)
        .map(|i| {
            let a = th + 2.0 * std::f64::consts::PI * ((i * k) % n) as f64 / n as f64;
            ((c + r * a.cos()).round() as i64, (c + r * a.sin()).round() as i64)
        })
        .collect()
}

/// One integer shape; the coordinates stay in 0..=max (max about 400 for the big ones).
pub fn int_shape(rng: &mut Rng, kind: usize, g: i64) -> Vec<Ring> {
    let mut rings: Vec<Ring> = match kind {
        0 => {
            let k = 1 + rng.below(3);
            (0..k)
                .map(|_| {
                    let n = 3 + rng.below(7);
                    rand_ring(rng, g, n)
                })
                .collect()
        }
        1 => {
            let k = 1 + rng.below(3);
            (0..k)
                .map(|_| {
                    let n = 3 + rng.below(9);
                    rectilinear_ring(rng, g, n)
                })
                .collect()
        }
        2 => {
            let k = 1 + rng.below(4);
            (0..k)
                .map(|_| {
                    let (a, b) = (rng.int(0, g), rng.int(0, g));
                    let (c, d) = (rng.int(0, g), rng.int(0, g));
                    let r = rect(a.min(c), b.min(d), a.max(c), b.max(d));
                    maybe_rev(rng, r)
                })
                .collect()
        }
        3 => {
            let k = 1 + rng.below(4);
            (0..k).map(|_| rand_ring(rng, g, 3)).collect()
        }
        4 => {
            let n = 3 + rng.below(4);
            let r = rand_ring(rng, g, n);
            let mut out = vec![r.clone()];
            for _ in 0..1 + rng.below(3) {
                let q = maybe_rev(rng, r.clone());
                out.push(if rng.chance(0.5) { subdivide(rng, &q) } else { q });
            }
            if rng.chance(0.5) {
                let n = 3 + rng.below(3);
                out.push(rand_ring(rng, g, n));
            }
            out
        }
        5 => {
            let n = 2 + rng.below(2) as i64;
            match rng.below(3) {
                0 => squares(0, 0, 30, 40, 0, n),
                1 => squares(20, 20, 30, 40, 0, n),
                _ => squares(5 * rng.int(0, 5), 5 * rng.int(0, 5), 30, 40, 1, n),
            }
        }
        6 => nested(rng),
        7 => {
            let (t, h) = (rng.int(3, 12), rng.int(5, 30));
            comb(rng, t, h)
        }
        8 => {
            let n = rng.int(2, 5);
            let d = rng.range(0.3, 0.9);
            tiling(rng, n, d)
        }
        9 => vec![star_polygon(rng)],
        10 => vec![spikes(rng, g), spikes(rng, g)],
        _ => {
            // slanties
            let n = 2 + rng.below(2) as i64;
            let h = 20 * n;
            let odd = rng.chance(0.5);
            (0..n)
                .map(|i| {
                    let x = 20 * i;
                    if odd {
                        vec![(x + h, 0), (x, h), (x + 10, h), (x + h + 10, 0)]
                    } else {
                        vec![(x, 0), (x + h, h), (x + h + 10, h), (x + 10, 0)]
                    }
                })
                .collect()
        }
    };
    if rng.chance(0.15) {
        rings = rings.iter().map(|r| subdivide(rng, r)).collect();
    }
    let rings: Vec<Ring> = rings.into_iter().map(dedup).filter(|r| r.len() >= 2).collect();
    rings
}

pub const INT_FAMILIES: [&str; 12] = [
    "random-polygon", "rectilinear", "rectangles", "triangles", "repeated-contours", "squares-grid",
    "nested-touching", "comb", "tiling", "star-polygon", "spikes", "slanties",
];

pub fn int_case(rng: &mut Rng) -> Case {
    let k = rng.below(12);
    let g = *rng.pick(&[3i64, 4, 6, 8, 12, 20, 40, 100]);
    let a = int_shape(rng, k, g);
    let kb = if rng.chance(0.6) { k } else { rng.below(12) };
    let mut b = match rng.below(10) {
        0 => a.clone(),
        1 => a.iter().map(|r| { let mut q = r.clone(); q.reverse(); q }).collect(),
        2 => a.iter().map(|r| r.iter().map(|p| (p.1, p.0)).collect()).collect(),
        3 => vec![],
        _ => int_shape(rng, kb, g),
    };
    if rng.chance(0.1) {
        b.extend(a.iter().take(1).cloned());
    }
    int_case_from(rng, INT_FAMILIES[k], a, b)
}

pub fn int_case_from(rng: &mut Rng, family: &'static str, a: Vec<Ring>, b: Vec<Ring>) -> Case {
    let scale = *rng.pick(&[1.0, 1.0, 1.0, 0.5, 0.0078125, 4.0, 1024.0, 0.1, 3.7]);
    let off = if rng.chance(0.7) {
        Vec2::ZERO
    } else {
        Vec2::new(rng.int(-200, 200) as f64 * scale, rng.int(-200, 200) as f64 * scale)
    };
    let eps = match rng.below(6) {
        0 | 1 => None,
        2 => Some(1e-3 * scale),
        3 => Some(1e-2 * scale),
        4 => Some(1e-6 * scale),
        _ => Some(0.03 * scale),
    };
    let pa = rings_path(&a, scale, off, rng);
    let pb = rings_path(&b, scale, off, rng);
    Case { family, a: pa, b: pb, ints: Some((a, b)), scale, off, eps }
}

// ---------------------------------------------------------------- curve families

fn rp(rng: &mut Rng, s: f64) -> Point {
    Point::new(rng.range(0.0, s), rng.range(0.0, s))
}

fn gp(rng: &mut Rng, g: i64, s: f64) -> Point {
    Point::new(rng.int(0, g) as f64 * s, rng.int(0, g) as f64 * s)
}

fn rand_curve(rng: &mut Rng, grid: bool, quads: bool) -> BezPath {
    let mut p = BezPath::new();
    let n = 1 + rng.below(4);
    let mut pt = |rng: &mut Rng| if grid { gp(rng, 10, 10.0) } else { rp(rng, 100.0) };
    let start = pt(rng);
    p.move_to(start);
    for i in 0..=n {
        let end = if i == n { start } else { pt(rng) };
        let (c1, c2) = (pt(rng), pt(rng));
        match rng.below(if quads { 6 } else { 4 }) {
            0 => p.line_to(end),
            4 | 5 => p.quad_to(c1, end),
            _ => p.curve_to(c1, c2, end),
        }
    }
    if rng.chance(0.5) {
        p.close_path();
    }
    p
}

fn round_shape(rng: &mut Rng) -> BezPath {
    let c = if rng.chance(0.5) { gp(rng, 10, 10.0) } else { rp(rng, 100.0) };
    match rng.below(4) {
        0 => kurbo::Circle::new(c, rng.int(1, 5) as f64 * 10.0).to_path(1e-3),
        1 => kurbo::Ellipse::new(c, (rng.range(5.0, 50.0), rng.range(5.0, 50.0)), rng.range(0.0, 3.0)).to_path(1e-3),
        2 => kurbo::RoundedRect::new(c.x, c.y, c.x + rng.range(20.0, 60.0), c.y + rng.range(20.0, 60.0), rng.range(1.0, 10.0))
            .to_path(1e-3),
        _ => {
            // ring
            let r = rng.range(20.0, 45.0);
            let mut p = kurbo::Circle::new(c, r).to_path(1e-3);
            let q = kurbo::Circle::new(c + Vec2::new(rng.range(-5.0, 5.0), 0.0), r * rng.range(0.4, 0.95)).to_path(1e-3);
            p.extend(if rng.chance(0.5) { q.reverse_subpaths() } else { q });
            p
        }
    }
}

fn lens(rng: &mut Rng) -> (BezPath, BezPath) {
    // two shapes that share a curve (or a sub-curve, or a slightly moved copy of it)
    let (p0, p1, p2, p3) = (rp(rng, 100.0), rp(rng, 100.0), rp(rng, 100.0), rp(rng, 100.0));
    let c = kurbo::CubicBez::new(p0, p1, p2, p3);
    let mut a = BezPath::new();
    a.move_to(p0);
    a.curve_to(p1, p2, p3);
    a.line_to(rp(rng, 100.0));
    a.close_path();
    use kurbo::ParamCurve;
    let (t0, t1) = if rng.chance(0.5) { (0.0, 1.0) } else { (rng.range(0.0, 0.4), rng.range(0.6, 1.0)) };
    let d = c.subsegment(t0..t1);
    let d = match rng.below(3) {
        0 => d,
        1 => d, 
        _ => {
            let h = *rng.pick(&[1e-9, 1e-6, 1e-3, 1e-2, 0.3]);
            Affine::translate((rng.range(-h, h), rng.range(-h, h))) * d
        }
    };
    let mut b = BezPath::new();
    if rng.chance(0.5) {
        b.move_to(d.p0);
        b.curve_to(d.p1, d.p2, d.p3);
    } else {
        b.move_to(d.p3);
        b.curve_to(d.p2, d.p1, d.p0);
    }
    b.line_to(rp(rng, 100.0));
    b.close_path();
    (a, b)
}

fn star_curves(n: usize) -> (BezPath, BezPath) {
    fn mul(p: Point, f: f64) -> Point {
        (p.x * f, p.y * f).into()
    }
    let inc = std::f64::consts::PI / (n as f64 * 2.0);
    let mut angle = 0.0;
    let (mut straight, mut bent) = (BezPath::new(), BezPath::new());
    let p = Point::new(50.0, 0.0);
    for i in 0..n {
        let p0 = Affine::rotate(angle) * p;
        let p1 = Affine::rotate(angle + inc) * p;
        let p2 = Affine::rotate(angle + inc + std::f64::consts::PI) * p;
        let p3 = Affine::rotate(angle + std::f64::consts::PI) * p;
        if i % 2 == 0 {
            straight.move_to(p0);
            straight.line_to(p1);
            straight.line_to(p2);
            straight.line_to(p3);
            straight.close_path();
        } else {
            bent.move_to(p0);
            bent.line_to(p1);
            bent.curve_to(mul(p1, 2. / 3.), mul(p0.midpoint(p1), 1. / 3.), mul(p0, 1e-12));
            bent.curve_to(mul(p2.midpoint(p3), 1. / 3.), mul(p2, 2. / 3.), p2);
            bent.line_to(p3);
            bent.curve_to(mul(p3, 2. / 3.), mul(p2.midpoint(p3), 1. / 3.), mul(p0, -1e-12));
            bent.curve_to(mul(p0.midpoint(p1), 1. / 3.), mul(p0, 2. / 3.), p0);
            bent.close_path();
        }
        angle += 2.0 * inc;
    }
    (straight, bent)
}

fn glyph(rng: &mut Rng) -> BezPath {
    let lines: Vec<&str> = include_str!("../../corpus/glyphs.txt").lines().collect();
    let l = *rng.pick(&lines);
    let p = BezPath::from_svg(l).unwrap();
    if rng.chance(0.5) {
        Affine::translate((rng.int(-300, 300) as f64, rng.int(-300, 300) as f64)) * p
    } else {
        p
    }
}

/// Moves every coordinate of every point by a tiny random amount (subpaths stay closed).
pub fn jitter(rng: &mut Rng, p: &BezPath, h: f64) -> BezPath {
    use kurbo::PathEl::*;
    let mut out = BezPath::new();
    let mut start = Point::ZERO;
    let mut start_in = Point::ZERO;
    let mut j = |rng: &mut Rng, q: Point| {
        if rng.chance(0.5) {
            q + Vec2::new(rng.range(-h, h), rng.range(-h, h))
        } else {
            q
        }
    };
    for el in p.iter() {
        match el {
            MoveTo(q) => {
                start_in = q;
                start = j(rng, q);
                out.move_to(start);
            }
            LineTo(q) => out.line_to(if q == start_in { start } else { j(rng, q) }),
            QuadTo(a, q) => out.quad_to(a, if q == start_in { start } else { j(rng, q) }),
            CurveTo(a, b, q) => out.curve_to(a, b, if q == start_in { start } else { j(rng, q) }),
            ClosePath => out.close_path(),
        }
    }
    out
}

pub fn curve_case(rng: &mut Rng) -> Case {
    let (family, mut a, mut b): (&'static str, BezPath, BezPath) = match rng.below(12) {
        0 | 1 => ("random-cubics", rand_curve(rng, false, false), rand_curve(rng, false, false)),
        2 => ("grid-cubics", rand_curve(rng, true, true), rand_curve(rng, true, true)),
        3 | 4 => ("round-shapes", round_shape(rng), round_shape(rng)),
        5 => ("round-vs-random", round_shape(rng), rand_curve(rng, false, true)),
        6 | 7 => {
            let (a, b) = lens(rng);
            ("shared-curve", a, b)
        }
        8 => {
            let n = 2 + rng.below(3);
            let (a, b) = star_curves(n);
            ("star-curves", a, b)
        }
        9 | 10 => {
            let a = glyph(rng);
            let b = if rng.chance(0.2) { a.clone() } else { glyph(rng) };
            ("glyphs", a, b)
        }
        _ => {
            let g = *rng.pick(&[4i64, 8, 12]);
            let k = rng.below(12);
            let ra = int_shape(rng, k, g);
            let k = rng.below(12);
            let rb = int_shape(rng, k, g);
            let a = rings_path(&ra, 1.0, Vec2::ZERO, rng);
            let b = rings_path(&rb, 1.0, Vec2::ZERO, rng);
            let h = *rng.pick(&[1e-9, 1e-7, 1e-5, 1e-3, 1e-2]);
            ("jittered-polygons", jitter(rng, &a, h), jitter(rng, &b, h))
        }
    };
    if rng.chance(0.15) {
        let th = rng.range(0.0, 6.28);
        a = Affine::rotate(th) * a;
        b = Affine::rotate(th) * b;
    }
    if rng.chance(0.1) {
        b = a.clone();
    }
    let s = *rng.pick(&[1.0, 1.0, 1.0, 0.01, 1000.0, 0.125]);
    let off = if rng.chance(0.7) { Vec2::ZERO } else { Vec2::new(rng.range(-500.0, 500.0) * s, rng.range(-500.0, 500.0) * s) };
    let t = Affine::translate(off) * Affine::scale(s);
    a = t * a;
    b = t * b;
    // affine maps can break exact closedness: re-close by construction
    let a = reclose(&a);
    let b = reclose(&b);
    let eps = match rng.below(5) {
        0 => None,
        1 => Some(1e-3 * s),
        2 => Some(1e-2 * s),
        3 => Some(1e-4 * s),
        _ => Some(1e-6 * s),
    };
    Case { family, a, b, ints: None, scale: s, off, eps }
}

/// Makes the end of each subpath bit-equal to its start (closing explicitly).
pub fn reclose(p: &BezPath) -> BezPath {
    use kurbo::PathEl::*;
    let mut els: Vec<kurbo::PathEl> = p.elements().to_vec();
    let mut i = 0;
    while i < els.len() {
        let mut j = i + 1;
        while j < els.len() && !matches!(els[j], MoveTo(_)) {
            j += 1;
        }
        // subpath i..j
        let start = match els[i] {
            MoveTo(q) => q,
            _ => Point::ZERO,
        };
        let mut k = j - 1;
        let explicit = matches!(els[k], ClosePath);
        if explicit && k > i {
            k -= 1;
        }
        let close = |q: Point| if (q - start).hypot() < 1e-9 * (1.0 + start.to_vec2().hypot()) { start } else { q };
        match &mut els[k] {
            LineTo(q) | QuadTo(_, q) | CurveTo(_, _, q) => {
                *q = close(*q);
            }
            _ => {}
        }
        let last = match els[k] {
            LineTo(q) | QuadTo(_, q) | CurveTo(_, _, q) | MoveTo(q) => q,
            _ => start,
        };
        if !explicit && last != start {
            els.insert(j, ClosePath);
            j += 1;
        }
        i = j;
    }
    BezPath::from_vec(els)
}

pub fn any_case(rng: &mut Rng) -> Case {
    if rng.chance(0.6) {
        int_case(rng)
    } else {
        curve_case(rng)
    }
}

impl Case {
    /// Whether the specification can compute this case's winding numbers from the integers: the
    /// margin must be small against the grid.
    pub fn exact_ok(&self, eps: f64, margin: f64) -> bool {
        self.ints.is_some() && margin * eps < 0.7 * self.scale
    }
}

/// All ordered pairs of triangles on the 3x3 lattice (84 * 84).
pub fn triangle_pair(i: u64) -> Option<Case> {
    let mut tris = vec![];
    for a in 0..9i64 {
        for b in a + 1..9 {
            for c in b + 1..9 {
                tris.push([a, b, c]);
            }
        }
    }
    let n = tris.len() as u64;
    if i >= n * n {
        return None;
    }
    let ring = |t: [i64; 3]| -> Ring { t.iter().map(|k| (k % 3, k / 3)).collect() };
    // a fixed permutation, so that a prefix of the indices is spread over the whole space
    let j = (i * 2999) % (n * n);
    let (a, b) = (vec![ring(tris[(j / n) as usize])], vec![ring(tris[(j % n) as usize])]);
    let mut r = Rng::new(i);
    let pa = rings_path(&a, 1.0, Vec2::ZERO, &mut r);
    let pb = rings_path(&b, 1.0, Vec2::ZERO, &mut r);
    Some(Case { family: "triangle-pairs", a: pa, b: pb, ints: Some((a, b)), scale: 1.0, off: Vec2::ZERO, eps: if i % 2 == 0 { None } else { Some(1e-3) } })
}

/// Shapes at all magnitudes and offsets, with the automatic accuracy.
pub fn magnitude_case(rng: &mut Rng) -> Case {
    let mut c = if rng.chance(0.6) { int_case(rng) } else { curve_case(rng) };
    c.eps = None;
    let e = rng.int(-40, 280) as i32;
    let s = if rng.chance(0.8) { 2f64.powi(rng.int(-12, 60) as i32) } else { 2f64.powi(e) };
    // distance from the origin in multiples of the size
    let far = if rng.chance(0.5) { 0.0 } else { 2f64.powi(rng.int(0, 14) as i32) };
    match c.ints.clone() {
        Some((ra, rb)) => {
            // any direction; often all coordinates negative, with the shape just before the axes or far away
            let k = rng.int(-8, 8) as f64;
            let (dx, dy) = *rng.pick(&[(k, 8.0 - k), (k, k - 8.0), (-8.0, -8.0), (-8.0, 0.0), (0.0, -8.0), (8.0, 0.0), (0.0, 8.0)]);
            let low = if rng.chance(0.3) { -(ra.iter().chain(&rb).flatten().map(|p| p.0.max(p.1)).max().unwrap_or(0) as f64) } else { 0.0 };
            c.scale = s;
            c.off = Vec2::new(((dx * far).round() + low) * s, ((dy * far).round() + low) * s);
            c.a = rings_path(&ra, c.scale, c.off, rng);
            c.b = rings_path(&rb, c.scale, c.off, rng);
        }
        None => {
            let (dx, dy) = *rng.pick(&[(1.0, -1.0), (-1.0, 1.0), (-1.0, -1.0), (1.0, 1.0), (-1.0, 0.0), (0.0, -1.0)]);
            let t = Affine::translate(Vec2::new(far * dx, far * dy) * 50.0 * s) * Affine::scale(s);
            c.a = reclose(&(t * &c.a));
            c.b = reclose(&(t * &c.b));
            c.scale *= s;
        }
    }
    c
}

/// Inputs with exactly coincident pieces.
pub fn coincident_case(rng: &mut Rng) -> Case {
    let g = *rng.pick(&[3i64, 4, 6, 8, 12]);
    let (a, b) = match rng.below(6) {
        0 => {
            let k = rng.below(12);
            let a = int_shape(rng, k, g);
            let b = a.iter().map(|r| { let q = maybe_rev(rng, r.clone()); if rng.chance(0.5) { subdivide(rng, &q) } else { q } }).collect();
            (a, b)
        }
        1 => {
            // two tilings of the same grid
            let n = rng.int(2, 5);
            (tiling(rng, n, 0.6), tiling(rng, n, 0.6))
        }
        2 => (int_shape(rng, 1, g), int_shape(rng, 1, g)),
        3 => (int_shape(rng, 2, 4), int_shape(rng, 2, 4)),
        4 => (int_shape(rng, 4, g), int_shape(rng, 4, g)),
        _ => {
            // neighbours sharing one slanted edge, partially overlapping
            let (dx, dy) = (rng.int(-3, 3), rng.int(1, 3));
            let at = |k: i64, s: i64| (20 + dx * k + s, 10 + dy * k);
            let w = rng.int(2, 6);
            let (i0, i1) = (rng.int(0, 3), rng.int(4, 7));
            let (j0, j1) = (rng.int(0, 3), rng.int(4, 7));
            let a = vec![at(i0, 0), at(i1, 0), at(i1, w), at(i0, w)];
            let b = vec![at(j0, 0), at(j1, 0), at(j1, -w), at(j0, -w)];
            (vec![maybe_rev(rng, a)], vec![maybe_rev(rng, b)])
        }
    };
    let mut c = int_case_from(rng, "coincident", a, b);
    // exactly coincident in the plane, not only on the grid
    if c.scale == 0.1 || c.scale == 3.7 {
        let s = 2.0;
        c.eps = c.eps.map(|e| e / c.scale * s);
        c.scale = s;
        c.off = Vec2::ZERO;
        let (ra, rb) = c.ints.clone().unwrap();
        c.a = rings_path(&ra, s, c.off, rng);
        c.b = rings_path(&rb, s, c.off, rng);
    }
    c
}

/// Deep and wide nestings with touching contours.
pub fn nest_case(rng: &mut Rng) -> Case {
    let pick = |rng: &mut Rng| match rng.below(5) {
        0 => {
            let n = rng.int(3, 6);
            let d = rng.range(0.4, 0.9);
            tiling(rng, n, d)
        }
        1 => {
            // concentric rings, many of them
            let n = rng.int(2, 9);
            let s = rng.int(1, 3);
            (0..n).map(|k| { let r = rect(k * s, k * s, 40 - k * s, 40 - k * s); maybe_rev(rng, r) }).collect()
        }
        2 => {
            // many islands in one frame
            let mut v = vec![rect(0, 0, 40, 40)];
            for _ in 0..rng.below(12) {
                let (x, y, r) = (rng.int(2, 38), rng.int(2, 38), rng.int(1, 5));
                v.push(if rng.chance(0.5) { rect(x - r, y - r, x + r, y + r) } else { diamond(x, y, r) });
            }
            v.into_iter().map(|r| maybe_rev(rng, r)).collect()
        }
        _ => nested(rng),
    };
    let a = pick(rng);
    let b = if rng.chance(0.3) { vec![] } else { pick(rng) };
    int_case_from(rng, "nesting", a, b)
}

/// Big inputs: many segments on one line, many crossings in one point, long combs, logo-like paths.
pub fn stress_case(rng: &mut Rng, i: u64) -> Case {
    let simple = |a: BezPath, b: BezPath, eps: Option<f64>, family: &'static str| Case { family, a, b, ints: None, scale: 1.0, off: Vec2::ZERO, eps };
    match i % 8 {
        0 => {
            // wide comb: more than a few hundred segments at one height
            let (t, h) = (rng.int(70, 160), rng.int(20, 60));
            let a = comb(rng, t, h);
            let b = if rng.chance(0.5) { comb(rng, 100, 30) } else { vec![rect(3, 5, 2 * t - 3, h - 5)] };
            int_case_from(rng, "wide-comb", a, b)
        }
        1 => {
            let n = rng.int(8, 12);
            let a = squares(0, 0, 3, 4, 0, n);
            let b = squares(1, 1, 3, 4, rng.int(0, 1), n);
            int_case_from(rng, "squares-field", a, b)
        }
        2 => {
            let n = rng.int(60, 120) as usize;
            let a = vec![rand_ring(rng, 40, n / 2)];
            let b = vec![rand_ring(rng, 40, n / 2)];
            int_case_from(rng, "scribble", a, b)
        }
        3 => {
            let (a, b) = star_curves(3 + rng.below(6));
            simple(a, b, Some(1e-4), "big-star-curves")
        }
        4 => {
            let k = rng.below(8);
            let p = graphite(k);
            let q = if rng.chance(0.5) { graphite_b(k) } else { Affine::translate((rng.range(-5.0, 5.0), rng.range(-5.0, 5.0))) * &p };
            simple(p, reclose(&q), Some(1e-3), "graphite")
        }
        5 => {
            let mut a = BezPath::new();
            let mut b = BezPath::new();
            for k in 0..8 {
                a.extend((Affine::translate((k as f64 * 400.0, 0.0)) * glyph(rng)).iter());
                b.extend((Affine::translate((k as f64 * 400.0 + 100.0, rng.range(-100.0, 100.0))) * glyph(rng)).iter());
            }
            simple(reclose(&a), reclose(&b), None, "text")
        }
        6 => {
            // a fan: all edges through one point
            let n = rng.int(10, 40);
            let mut a = vec![];
            for k in 0..n {
                let (x, y) = (rng.int(-40, 40), rng.int(-40, 40));
                a.push(vec![(50 + x, 50 + y), (50 - x, 50 - y), (50 - x + 1 + k % 3, 50 - y)]);
            }
            let b = vec![rect(20, 20, 80, 80)];
            int_case_from(rng, "fan", a, b)
        }
        _ => {
            let mut a = BezPath::new();
            let mut b = BezPath::new();
            for _ in 0..12 {
                a.extend(round_shape(rng).iter());
                b.extend(round_shape(rng).iter());
            }
            let e = *rng.pick(&[1e-3, 1e-6, 1e-2]);
            simple(reclose(&a), reclose(&b), Some(e), "many-rounds")
        }
    }
}

fn graphite_text(k: usize) -> &'static str {
    match k {
        0 => include_str!("../../corpus/graphite_0.txt"),
        1 => include_str!("../../corpus/graphite_1.txt"),
        2 => include_str!("../../corpus/graphite_2.txt"),
        3 => include_str!("../../corpus/graphite_3.txt"),
        4 => include_str!("../../corpus/graphite_4.txt"),
        5 => include_str!("../../corpus/graphite_5.txt"),
        6 => include_str!("../../corpus/graphite_6.txt"),
        _ => include_str!("../../corpus/graphite_7.txt"),
    }
}

pub fn graphite(k: usize) -> BezPath {
    reclose(&BezPath::from_svg(graphite_text(k).lines().next().unwrap_or("").trim()).unwrap_or_default())
}

pub fn graphite_b(k: usize) -> BezPath {
    reclose(&BezPath::from_svg(graphite_text(k).lines().nth(1).unwrap_or("").trim()).unwrap_or_default())
}

/// Curated cases: one per line, `family|eps or auto|svg a|svg b`.
pub fn file_case(file: &str, i: u64) -> Option<Case> {
    let s = std::fs::read_to_string(file).expect("case file");
    let l = s.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')).nth(i as usize)?;
    let f: Vec<&str> = l.split('|').collect();
    let eps = if f[1] == "auto" { None } else { Some(f[1].parse().expect("eps")) };
    let a = BezPath::from_svg(f[2]).expect("svg");
    let b = BezPath::from_svg(f[3]).expect("svg");
    Some(Case { family: "curated", a, b, ints: None, scale: 1.0, off: Vec2::ZERO, eps })
}

/// Polygons whose vertices are a few accuracies apart.
pub fn tight(r: &mut Rng) -> (BezPath, f64) {
    let eps = *r.pick(&[1e-3, 0.01, 0.1]);
    let g = *r.pick(&[3i64, 6, 12, 30]);
    let q = *r.pick(&[0.25, 0.5, 1.0, 2.0]) * eps;
    let tall = *r.pick(&[1.0, 1.0, 10.0, 100.0]);
    let mut p = BezPath::new();
    let base = Vec2::new(r.range(-10.0, 10.0), r.range(-10.0, 10.0)).round();
    for _ in 0..1 + r.below(4) {
        let n = 3 + r.below(6);
        for k in 0..n {
            let jit = if r.chance(0.3) { r.range(-0.3, 0.3) * eps } else { 0.0 };
            let pt = Point::new(r.int(0, g) as f64 * q + jit, r.int(0, g) as f64 * q * tall) + base;
            if k == 0 {
                p.move_to(pt);
            } else if r.chance(0.15) {
                let (c, d) = (Point::new(r.int(0, g) as f64 * q, r.int(0, g) as f64 * q * tall) + base, Point::new(r.int(0, g) as f64 * q, r.int(0, g) as f64 * q * tall) + base);
                p.curve_to(c, d, pt);
            } else {
                p.line_to(pt);
            }
        }
        p.close_path();
    }
    (p, eps)
}

/// A few smooth curves that come within an accuracy of each other, or cross by less, in between, or
/// that leave a common point in a common direction, or both.
/// (One of more than two can be pushed aside by its neighbours and cross one that is not close enough to be among them.)
pub fn near_case(r: &mut Rng, more: bool) -> Case {
    let eps = *r.pick(&[1e-4, 1e-3, 0.01, 0.1]);
    let kind = *r.pick(&[0, 0, 1, 2]);
    let n = if more { 3 + r.below(2) } else { 2 };
    let h = r.range(20.0, 80.0);
    let off = Vec2::new(r.range(-900.0, 900.0), *r.pick(&[-1.0, 1.0]) * r.range(100.0, 900.0));
    let (sin, cos) = if r.chance(0.5) { (0.0, 1.0) } else { r.range(-0.9, 0.9).sin_cos() };
    let flip = r.chance(0.5);
    let place = |x: f64, y: f64| {
        let y = if flip { -y } else { y };
        Point::new(cos * x - sin * y, sin * x + cos * y) + off
    };
    let mut ps = [BezPath::new(), BezPath::new()];
    let mut mid = 0.0;
    for k in 0..n {
        let side = k as f64 - (n - 1) as f64 / 2.0;
        let skew = r.range(-1.0, 1.0) * side.abs();
        let (a, b, c, d) = match kind {
            0 => {
                let (a, b) = (side * r.range(3.0, 9.0), side * r.range(3.0, 9.0));
                let m = (8.0 * mid - a - b) / 6.0;
                (a, b, m + skew, m - skew)
            }
            1 => (0.0, side * r.range(0.5, 2.0), skew * eps, -skew * 100.0 * eps),
            _ => (0.0, 0.0, side * *r.pick(&[2.0, 10.0, 100.0]) * eps + skew * eps, side * *r.pick(&[2.0, 10.0, 100.0]) * eps),
        };
        mid += r.range(-0.4, 1.2) * eps;
        let p = &mut ps[k % 2];
        p.move_to(place(a, 0.0));
        p.curve_to(place(c, h / 3.0), place(d, h / 1.5), place(b, h));
        let out = if side < 0.0 || (side == 0.0 && r.chance(0.5)) { -1.0 } else { 1.0 };
        let far = 20.0 + 7.0 * k as f64;
        p.line_to(place(b + out * far, h + 3.0 + 5.0 * k as f64));
        p.line_to(place(a + out * far, -3.0 - 5.0 * k as f64));
        p.close_path();
    }
    let [a, b] = ps;
    Case { family: ["near", "near-fan", "near-lens"][kind], a, b, ints: None, scale: 1.0, off: Vec2::ZERO, eps: Some(eps) }
}

/// Long almost parallel lines and curves through common points.
pub fn bundle(r: &mut Rng) -> (BezPath, f64) {
    let eps = *r.pick(&[1e-4, 1e-3, 0.01, 0.1]);
    let mut p = BezPath::new();
    let hubs: Vec<Point> = (0..1 + r.below(3)).map(|_| Point::new(r.range(20.0, 80.0), r.range(20.0, 80.0))).collect();
    for _ in 0..2 + r.below(8) {
        let h = *r.pick(&hubs);
        let t = if r.chance(0.5) { r.range(0.0, 6.3) } else { 1.5708 + r.range(-20.0, 20.0) * eps };
        let v = Vec2::new(t.cos(), t.sin()) * r.range(10.0, 60.0);
        let o = Vec2::new(r.range(-3.0, 3.0) * eps, r.range(-3.0, 3.0) * eps);
        let (a, b) = (h - v + o, h + v * r.range(0.0, 1.2) + o);
        p.move_to(a);
        if r.chance(0.4) {
            p.curve_to(h + o, h + o + Vec2::new(r.range(-9.0, 9.0) * eps, 0.0), b);
        } else {
            p.line_to(b);
        }
        if r.chance(0.7) {
            p.line_to(Point::new(r.range(0.0, 100.0), r.range(0.0, 100.0)));
        }
        p.close_path();
    }
    (p, eps)
}

/// Cases from `tight` and `bundle`.
pub fn tight_case(r: &mut Rng, bundles: bool) -> Case {
    let (a, eps) = if bundles { bundle(r) } else { tight(r) };
    let (a, b) = if r.chance(0.5) {
        {
        let h = eps * *r.pick(&[0.5, 1.0, 3.0]);
        let b = if r.chance(0.5) { reclose(&jitter(r, &a, h)) } else { BezPath::new() };
        (a, b)
    }
    } else {
        // deal the subpaths out to both operands
        let mut ps = [BezPath::new(), BezPath::new()];
        let mut k = 0;
        for el in a.iter() {
            if matches!(el, kurbo::PathEl::MoveTo(_)) {
                k = r.below(2);
            }
            ps[k].push(el);
        }
        let [a, b] = ps;
        (a, b)
    };
    Case { family: if bundles { "bundle" } else { "tight" }, a, b, ints: None, scale: 1.0, off: Vec2::ZERO, eps: Some(eps) }
}
