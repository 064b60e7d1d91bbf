//! Independent geometry used only to *measure* (never to decide): flattening,
//! winding numbers, distances.
use kurbo::{BezPath, PathEl, Point};

/// A flattened path: closed rings of points.
#[derive(Clone, Debug, Default)]
pub struct Flat {
    pub rings: Vec<Vec<Point>>,
}

fn flat_cubic(p0: Point, p1: Point, p2: Point, p3: Point, tol: f64, out: &mut Vec<Point>) {
    // Uniform subdivision with the standard second-difference bound: the chord error of a
    // piece of parameter length h is at most h^2/8 * max|B''|, |B''| <= 6 * max second difference.
    let d1 = (p0.to_vec2() - 2.0 * p1.to_vec2() + p2.to_vec2()).hypot();
    let d2 = (p1.to_vec2() - 2.0 * p2.to_vec2() + p3.to_vec2()).hypot();
    let m = 6.0 * d1.max(d2);
    let n = ((m / (8.0 * tol)).sqrt().ceil()).clamp(1.0, 4000.0) as usize;
    for i in 1..n {
        let t = i as f64 / n as f64;
        let s = 1.0 - t;
        let v = p0.to_vec2() * (s * s * s)
            + p1.to_vec2() * (3.0 * s * s * t)
            + p2.to_vec2() * (3.0 * s * t * t)
            + p3.to_vec2() * (t * t * t);
        out.push(v.to_point());
    }
    out.push(p3);
}

pub fn flatten(path: &BezPath, tol: f64) -> Flat {
    let mut rings = Vec::new();
    let mut cur: Vec<Point> = Vec::new();
    let mut last = Point::ZERO;
    for el in path.iter() {
        match el {
            PathEl::MoveTo(p) => {
                if cur.len() > 1 {
                    rings.push(std::mem::take(&mut cur));
                }
                cur = vec![p];
                last = p;
            }
            PathEl::LineTo(p) => {
                cur.push(p);
                last = p;
            }
            PathEl::QuadTo(p1, p2) => {
                let c1 = last + (2.0 / 3.0) * (p1 - last);
                let c2 = p2 + (2.0 / 3.0) * (p1 - p2);
                flat_cubic(last, c1, c2, p2, tol, &mut cur);
                last = p2;
            }
            PathEl::CurveTo(p1, p2, p3) => {
                flat_cubic(last, p1, p2, p3, tol, &mut cur);
                last = p3;
            }
            PathEl::ClosePath => {
                if let Some(&f) = cur.first() {
                    last = f;
                }
                if cur.len() > 1 {
                    let f = cur[0];
                    rings.push(std::mem::take(&mut cur));
                    cur = vec![f];
                }
            }
        }
    }
    if cur.len() > 1 {
        rings.push(cur);
    }
    Flat { rings }
}

impl Flat {
    pub fn edges(&self) -> impl Iterator<Item = (Point, Point)> + '_ {
        self.rings.iter().flat_map(|r| {
            (0..r.len()).map(move |i| (r[i], r[(i + 1) % r.len()]))
        })
    }
    /// Winding number: +1 for a ring traversed such that the y-up-oriented signed area is positive.
    pub fn winding(&self, p: Point) -> i32 {
        let mut w = 0;
        for (a, b) in self.edges() {
            if (a.y <= p.y) != (b.y <= p.y) {
                let c = (b.x - a.x) * (p.y - a.y) - (b.y - a.y) * (p.x - a.x);
                if b.y > a.y {
                    // upward (in +y) edge: p strictly on its left side (c > 0) counts.
                    if c > 0.0 {
                        w += 1;
                    }
                } else if c < 0.0 {
                    w -= 1;
                }
            }
        }
        w
    }
    pub fn dist(&self, p: Point) -> f64 {
        let mut best = f64::INFINITY;
        for (a, b) in self.edges() {
            let d = seg_dist2(p, a, b);
            if d < best {
                best = d;
            }
        }
        best.sqrt()
    }
    pub fn area(&self) -> f64 {
        self.edges().map(|(a, b)| a.x * b.y - a.y * b.x).sum::<f64>() / 2.0
    }
    pub fn bbox(&self) -> Option<(Point, Point)> {
        let mut it = self.rings.iter().flatten();
        let f = *it.next()?;
        let (mut lo, mut hi) = (f, f);
        for p in it {
            lo.x = lo.x.min(p.x);
            lo.y = lo.y.min(p.y);
            hi.x = hi.x.max(p.x);
            hi.y = hi.y.max(p.y);
        }
        Some((lo, hi))
    }
    pub fn len(&self) -> usize {
        self.rings.iter().map(|r| r.len()).sum()
    }
}

pub fn seg_dist2(p: Point, a: Point, b: Point) -> f64 {
    let d = b - a;
    let l2 = d.hypot2();
    let t = if l2 > 0.0 { ((p - a).dot(d) / l2).clamp(0.0, 1.0) } else { 0.0 };
    (p - (a + t * d)).hypot2()
}

pub fn merge(a: &Flat, b: &Flat) -> Flat {
    let mut rings = a.rings.clone();
    rings.extend(b.rings.iter().cloned());
    Flat { rings }
}

/// Distance and winding number of a path, measured with a flattening that is fine enough for the
/// point at hand: coarse where the point is far from the path, fine only near it.
pub struct Probe<'a> {
    path: &'a BezPath,
    pub coarse: Flat,
    tol0: f64,
    fine: std::cell::OnceCell<Flat>,
    tol1: f64,
}

impl<'a> Probe<'a> {
    pub fn new(path: &'a BezPath, coarse_tol: f64, fine_tol: f64) -> Self {
        let fine_tol = fine_tol.min(coarse_tol);
        Probe { path, coarse: flatten(path, coarse_tol), tol0: coarse_tol, fine: Default::default(), tol1: fine_tol }
    }
    fn fine(&self) -> &Flat {
        self.fine.get_or_init(|| flatten(self.path, self.tol1))
    }
    /// (distance, winding), the winding being reliable when the distance exceeds 10 * fine_tol
    pub fn at(&self, p: Point) -> (f64, i32) {
        let d = self.coarse.dist(p);
        if d > 10.0 * self.tol0 {
            (d, self.coarse.winding(p))
        } else {
            let f = self.fine();
            (f.dist(p), f.winding(p))
        }
    }
}

/// Edges in a uniform grid, for nearest-edge queries.
pub struct EdgeIndex {
    lo: Point,
    cell: f64,
    n: [usize; 2],
    grid: Vec<Vec<(Point, Point)>>,
    all: Vec<(Point, Point)>,
}

impl EdgeIndex {
    pub fn new(edges: &[(Point, Point)], extra: &[Point]) -> Self {
        let mut all: Vec<(Point, Point)> = edges.to_vec();
        if all.is_empty() {
            all = extra.iter().map(|p| (*p, *p)).collect();
        }
        let mut lo = Point::new(f64::INFINITY, f64::INFINITY);
        let mut hi = Point::new(f64::NEG_INFINITY, f64::NEG_INFINITY);
        for p in all.iter().flat_map(|e| [e.0, e.1]) {
            lo = Point::new(lo.x.min(p.x), lo.y.min(p.y));
            hi = Point::new(hi.x.max(p.x), hi.y.max(p.y));
        }
        if all.is_empty() {
            lo = Point::ZERO;
            hi = Point::ZERO;
        }
        let g = ((all.len() as f64).sqrt().ceil()).clamp(1.0, 600.0);
        let cell = ((hi.x - lo.x).max(hi.y - lo.y) / g).max(f64::MIN_POSITIVE);
        let n = [(((hi.x - lo.x) / cell) as usize + 1).min(700), (((hi.y - lo.y) / cell) as usize + 1).min(700)];
        let mut ix = EdgeIndex { lo, cell, n, grid: vec![vec![]; n[0] * n[1]], all: vec![] };
        for &(a, b) in &all {
            let k = (((b - a).hypot() / cell).ceil()).clamp(1.0, 4.0 * g) as usize;
            for j in 0..k {
                let p = a + (b - a) * (j as f64 / k as f64);
                let q = if j + 1 == k { b } else { a + (b - a) * ((j + 1) as f64 / k as f64) };
                let (cp, cq) = (ix.cell_of(p), ix.cell_of(q));
                for x in cp[0].min(cq[0])..=cp[0].max(cq[0]) {
                    for y in cp[1].min(cq[1])..=cp[1].max(cq[1]) {
                        ix.grid[x * n[1] + y].push((p, q));
                    }
                }
            }
        }
        ix.all = all;
        ix
    }
    fn cell_of(&self, p: Point) -> [usize; 2] {
        let f = |v: f64, n: usize| ((v / self.cell).max(0.0) as usize).min(n - 1);
        [f(p.x - self.lo.x, self.n[0]), f(p.y - self.lo.y, self.n[1])]
    }
    /// The distance to the nearest edge, or any number <= `bound` when that distance is <= `bound`.
    pub fn dist_above(&self, p: Point, bound: f64) -> f64 {
        let far = self.cell * 2.0;
        let out = p.x < self.lo.x - far
            || p.y < self.lo.y - far
            || p.x > self.lo.x + self.cell * self.n[0] as f64 + far
            || p.y > self.lo.y + self.cell * self.n[1] as f64 + far;
        if out || !p.is_finite() {
            return self.all.iter().map(|(a, b)| seg_dist2(p, *a, *b)).fold(f64::INFINITY, f64::min).sqrt();
        }
        let c = self.cell_of(p);
        let mut best = f64::INFINITY;
        let (nx, ny) = (self.n[0] as i64, self.n[1] as i64);
        for r in 0..=(nx.max(ny)) {
            // cells at Chebyshev distance r; everything in them is at least (r - 3) cells away
            if best.is_finite() && (r as f64 - 3.0) * self.cell > best.sqrt() {
                break;
            }
            let (cx, cy) = (c[0] as i64, c[1] as i64);
            for x in cx - r..=cx + r {
                if x < 0 || x >= nx {
                    continue;
                }
                let step = if x == cx - r || x == cx + r { 1 } else { (2 * r).max(1) };
                let mut y = cy - r;
                while y <= cy + r {
                    if y >= 0 && y < ny {
                        for (a, b) in &self.grid[(x * ny + y) as usize] {
                            best = best.min(seg_dist2(p, *a, *b));
                        }
                        if best.sqrt() <= bound {
                            return best.sqrt();
                        }
                    }
                    y += step;
                }
            }
        }
        best.sqrt()
    }
}
