//! Height-monotone cubics, measured by plain bisection (independent of the code under test), and ranks.
use kurbo::{CubicBez, ParamCurve};

/// Where a monotone curve reaches height y.
pub fn t_at(c: &CubicBez, y: f64) -> f64 {
    if y >= c.p3.y {
        return 1.0;
    }
    if y <= c.p0.y {
        return 0.0;
    }
    let (mut a, mut b) = (0.0f64, 1.0f64);
    for _ in 0..64 {
        let m = 0.5 * (a + b);
        if c.eval(m).y <= y {
            a = m;
        } else {
            b = m;
        }
    }
    0.5 * (a + b)
}

pub fn x_at(c: &CubicBez, y: f64) -> f64 {
    c.eval(t_at(c, y)).x
}

/// Bounds of x between two heights (a hull of pieces, so never too narrow).
pub fn x_range(c: &CubicBez, y0: f64, y1: f64) -> (f64, f64) {
    let (t0, t1) = (t_at(c, y0), t_at(c, y1));
    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
    for k in 0..8 {
        let d = t1 - t0;
        let s = c.subsegment(t0 + d * k as f64 / 8.0..t0 + d * (k + 1) as f64 / 8.0);
        for p in [s.p0, s.p1, s.p2, s.p3] {
            lo = lo.min(p.x);
            hi = hi.max(p.x);
        }
    }
    (lo, hi)
}

/// Exact order-preserving numbers for coordinates; -0.0 and 0.0 are equal.
#[derive(Default)]
pub struct Ranks(Vec<u64>);
fn ord(x: f64) -> u64 {
    let b = (x + 0.0).to_bits();
    if b >> 63 == 1 {
        !b
    } else {
        b | 1 << 63
    }
}
impl Ranks {
    pub fn new(it: impl Iterator<Item = f64>) -> Self {
        let mut s: Vec<u64> = it.map(ord).collect();
        s.sort();
        s.dedup();
        Ranks(s)
    }
    pub fn of(&self, x: f64) -> i64 {
        self.0.binary_search(&ord(x)).map_or(-1, |i| i as i64 + 1)
    }
}
