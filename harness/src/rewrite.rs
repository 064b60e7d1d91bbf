//! Spells the same path in other ways.
use crate::rng::Rng;
use kurbo::{Affine, BezPath, CubicBez, Line, ParamCurve, PathEl, PathSeg, Point, QuadBez};

#[derive(Clone, Debug)]
pub struct Sub {
    pub start: Point,
    pub segs: Vec<PathSeg>,
    /// 0: all segments, no closing element; 1: all segments and a closing element; 2: a final line is
    /// left to the closing element.
    pub close: usize,
}

fn ends(s: &PathSeg) -> (Point, Point) {
    match s {
        PathSeg::Line(l) => (l.p0, l.p1),
        PathSeg::Quad(q) => (q.p0, q.p2),
        PathSeg::Cubic(c) => (c.p0, c.p3),
    }
}

fn with_ends(s: PathSeg, a: Point, b: Point) -> PathSeg {
    match s {
        PathSeg::Line(_) => PathSeg::Line(Line::new(a, b)),
        PathSeg::Quad(q) => PathSeg::Quad(QuadBez::new(a, q.p1, b)),
        PathSeg::Cubic(c) => PathSeg::Cubic(CubicBez::new(a, c.p1, c.p2, b)),
    }
}

pub fn read(p: &BezPath) -> Vec<Sub> {
    let mut out: Vec<Sub> = vec![];
    let mut pen = Point::ZERO;
    for el in p.elements() {
        if !matches!(el, PathEl::MoveTo(_)) && out.last().is_none_or(|s| s.close != 0) {
            out.push(Sub { start: pen, segs: vec![], close: 0 });
        }
        match *el {
            PathEl::MoveTo(q) => {
                out.push(Sub { start: q, segs: vec![], close: 0 });
                pen = q;
            }
            PathEl::LineTo(q) => {
                out.last_mut().unwrap().segs.push(PathSeg::Line(Line::new(pen, q)));
                pen = q;
            }
            PathEl::QuadTo(a, q) => {
                out.last_mut().unwrap().segs.push(PathSeg::Quad(QuadBez::new(pen, a, q)));
                pen = q;
            }
            PathEl::CurveTo(a, b, q) => {
                out.last_mut().unwrap().segs.push(PathSeg::Cubic(CubicBez::new(pen, a, b, q)));
                pen = q;
            }
            PathEl::ClosePath => {
                let s = out.last_mut().unwrap();
                if pen != s.start {
                    s.segs.push(PathSeg::Line(Line::new(pen, s.start)));
                    s.close = 2;
                } else {
                    s.close = 1;
                }
                pen = s.start;
            }
        }
    }
    out
}

pub fn write(subs: &[Sub]) -> BezPath {
    let mut p = BezPath::new();
    for s in subs {
        p.move_to(s.start);
        let n = s.segs.len();
        for (i, g) in s.segs.iter().enumerate() {
            match g {
                PathSeg::Line(_) if s.close == 2 && i + 1 == n => {}
                PathSeg::Line(l) => p.line_to(l.p1),
                PathSeg::Quad(q) => p.quad_to(q.p1, q.p2),
                PathSeg::Cubic(c) => p.curve_to(c.p1, c.p2, c.p3),
            }
        }
        if s.close != 0 {
            p.close_path();
        }
    }
    p
}

fn reversed(s: &Sub) -> Sub {
    let segs: Vec<PathSeg> = s
        .segs
        .iter()
        .rev()
        .map(|g| match g {
            PathSeg::Line(l) => PathSeg::Line(Line::new(l.p1, l.p0)),
            PathSeg::Quad(q) => PathSeg::Quad(QuadBez::new(q.p2, q.p1, q.p0)),
            PathSeg::Cubic(c) => PathSeg::Cubic(CubicBez::new(c.p3, c.p2, c.p1, c.p0)),
        })
        .collect();
    Sub { start: s.start, segs, close: s.close }
}

fn cut(g: &PathSeg, t: f64) -> [PathSeg; 2] {
    let (a, b) = ends(g);
    let m = g.eval(t);
    [with_ends(g.subsegment(0.0..t), a, m), with_ends(g.subsegment(t..1.0), m, b)]
}

/// Cuts some of the segments that `may` allows.
fn cut_some(s: &mut Sub, r: &mut Rng, p: f64, may: impl Fn(&PathSeg) -> bool) {
    let mut out = vec![];
    for g in &s.segs {
        if may(g) && r.chance(p) {
            let t = if r.chance(0.3) { *r.pick(&[0.5, 0.25, 0.75, 1e-3, 0.999]) } else { r.range(0.02, 0.98) };
            out.extend(cut(g, t));
        } else {
            out.push(*g);
        }
    }
    s.segs = out;
}

fn raise(g: &PathSeg, r: &mut Rng) -> PathSeg {
    match g {
        PathSeg::Line(l) if r.chance(0.4) => PathSeg::Quad(QuadBez::new(l.p0, l.p0.midpoint(l.p1), l.p1)),
        // control points at thirds, or at the ends, or elsewhere on the line
        PathSeg::Line(l) => {
            let (a, b) = *r.pick(&[(1.0 / 3.0, 2.0 / 3.0), (0.0, 1.0), (0.25, 0.75), (0.5, 0.5)]);
            PathSeg::Cubic(CubicBez::new(l.p0, l.eval(a), l.eval(b), l.p1))
        }
        PathSeg::Quad(q) => PathSeg::Cubic(with_cubic_ends(q.raise(), q.p0, q.p2)),
        g => *g,
    }
}

fn with_cubic_ends(c: CubicBez, a: Point, b: Point) -> CubicBez {
    CubicBez::new(a, c.p1, c.p2, b)
}

fn zero(s: &mut Sub, r: &mut Rng) {
    for _ in 0..1 + r.below(2) {
        let i = r.below(s.segs.len() + 1);
        let q = if i == 0 { s.start } else { ends(&s.segs[i - 1]).1 };
        let z = match r.below(3) {
            0 => PathSeg::Line(Line::new(q, q)),
            1 => PathSeg::Quad(QuadBez::new(q, q, q)),
            _ => PathSeg::Cubic(CubicBez::new(q, q, q, q)),
        };
        s.segs.insert(i, z);
    }
}

/// Exactly representable transformations of everything.
pub fn map(subs: &mut [Sub], f: Affine) {
    for s in subs.iter_mut() {
        s.start = f * s.start;
        for g in &mut s.segs {
            *g = f * *g;
        }
    }
}

/// Rewrites one operand; kinds as in Rewrite.tla.
pub fn apply(subs: &mut Vec<Sub>, kind: i64, r: &mut Rng) {
    match kind {
        1 => subs.iter_mut().for_each(|s| *s = reversed(s)),
        2 => subs.iter_mut().for_each(|s| {
            if r.chance(0.5) {
                *s = reversed(s)
            }
        }),
        3 => subs.iter_mut().for_each(|s| {
            if s.segs.len() > 1 {
                let k = r.below(s.segs.len());
                s.segs.rotate_left(k);
                s.start = ends(&s.segs[0]).0;
            }
        }),
        4 => {
            for i in (1..subs.len()).rev() {
                subs.swap(i, r.below(i + 1));
            }
        }
        5 => subs.iter_mut().for_each(|s| cut_some(s, r, 0.4, |g| matches!(g, PathSeg::Line(_)))),
        6 => subs.iter_mut().for_each(|s| cut_some(s, r, 0.5, |g| !matches!(g, PathSeg::Line(_)))),
        7 => subs.iter_mut().for_each(|s| {
            for g in &mut s.segs {
                if r.chance(0.5) {
                    *g = raise(g, r);
                }
            }
        }),
        8 => subs.iter_mut().for_each(|s| s.close = r.below(3)),
        9 => {
            for s in subs.iter_mut() {
                if r.chance(0.5) {
                    zero(s, r);
                }
            }
            if r.chance(0.5) {
                let at = if subs.is_empty() { Point::ZERO } else { subs[r.below(subs.len())].start };
                let k = r.below(subs.len() + 1);
                subs.insert(k, Sub { start: at, segs: vec![], close: r.below(2) });
            }
        }
        10 => {
            if !subs.is_empty() {
                let k = r.below(subs.len());
                let s = subs[k].clone();
                subs.push(reversed(&s));
                let j = r.below(subs.len() + 1);
                subs.insert(j, s);
            }
        }
        11 => {
            let more = subs.clone();
            subs.extend(more);
        }
        _ => {}
    }
}
