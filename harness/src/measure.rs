//! Sample points at which the windings of the inputs are known: for inputs on an integer grid they are
//! recorded as integers (the specification computes the windings), for others with measured windings.
use crate::gen::{self, Ring};
use crate::geo::{Flat, Probe};
use crate::json::*;
use crate::rng::Rng;
use crate::{ops, run, sample};
use kurbo::{BezPath, Point, Vec2};

pub struct Inputs {
    pub fam: &'static str,
    pub paths: Vec<BezPath>,
    pub ints: Option<Vec<Vec<Ring>>>,
    pub scale: f64,
    pub off: Vec2,
    pub eps: f64,
}

impl Inputs {
    pub fn of(c: gen::Case) -> Inputs {
        let eps = ops::eps_of(&c);
        Inputs { fam: c.family, paths: vec![c.a, c.b], ints: c.ints.map(|(a, b)| vec![a, b]), scale: c.scale, off: c.off, eps }
    }
    pub fn key(&self, more: &str) -> String {
        let t: Vec<String> = self.paths.iter().map(|p| p.to_svg()).collect();
        let d = format!("{:e} {more}", self.eps);
        let mut v: Vec<&str> = t.iter().map(|s| s.as_str()).collect();
        v.push(&d);
        run::fnv(&v)
    }
}

pub struct Base {
    pub exact: bool,
    pub pts: Vec<Point>,
    pub ext: f64,
    /// What is at least this far from the inputs is judged.
    pub margin: f64,
    /// json: rings of the inputs, samples
    pub a: String,
    pub s: String,
    pub m: i64,
}

pub fn case(mode: &str, r: &mut Rng, i: u64, rest: &[String]) -> Option<gen::Case> {
    Some(match mode {
        "int" => gen::int_case(r),
        "coin" => gen::coincident_case(r),
        "nest" => gen::nest_case(r),
        "curve" => gen::curve_case(r),
        "tight" => gen::tight_case(r, false),
        "near" => gen::near_case(r, false),
        "chain" => gen::near_case(r, true),
        "bundle" => gen::tight_case(r, true),
        "stress" => gen::stress_case(r, i),
        "mag" => gen::magnitude_case(r),
        "file" => gen::file_case(&rest[0], i)?,
        m => panic!("unknown mode {m}"),
    })
}

/// `tol`: multiples of the accuracy within which nothing is judged.
pub fn base(inp: &Inputs, tol: f64, n: usize, more: &[Flat], r: &mut Rng) -> Base {
    let eps = inp.eps;
    let fl: Vec<Flat> = inp.paths.iter().map(|p| crate::geo::flatten(p, 1e-2 * inp.scale)).collect();
    let ext = sample::extent(&fl.iter().collect::<Vec<_>>());
    let refs: Vec<&BezPath> = inp.paths.iter().collect();
    let margin = (tol * eps).max(1e-7 * ext).max(1e-9 * inp.scale).max(1e-13 * ops::max_abs(&refs));
    let exact = inp.ints.is_some() && margin < 0.7 * inp.scale;
    let f = if exact {
        let m = inp.ints.as_ref().unwrap().iter().flatten().flatten().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(1).max(1);
        let mut f = 64;
        while f > 1 && m * f > 20000 {
            f /= 2;
        }
        f
    } else {
        1
    };
    let m = ((margin * f as f64 / inp.scale).ceil() as i64).max(2);
    let margin = if exact { margin.max(m as f64 * inp.scale / f as f64) } else { margin };
    let probes: Vec<Probe> = inp.paths.iter().map(|p| Probe::new(p, ext * 1e-4, margin / 40.0)).collect();
    let coarse: Vec<Flat> = probes.iter().map(|p| p.coarse.clone()).collect();
    let mut pool: Vec<&Flat> = coarse.iter().collect();
    pool.extend(more.iter());
    let mut cand = sample::candidates(r, &pool, 3 * n, margin);
    cand.extend(sample::at_crossings(r, &coarse, n, margin));
    let k = cand.len();
    for i in (1..k).rev() {
        cand.swap(i, r.below(i + 1));
    }
    let (mut pts, mut srec) = (vec![], vec![]);
    for p in cand {
        if pts.len() >= n {
            break;
        }
        if exact {
            let q = ((p.x - inp.off.x) / inp.scale * f as f64, (p.y - inp.off.y) / inp.scale * f as f64);
            let q = (q.0.round(), q.1.round());
            if q.0.abs() >= 24000.0 || q.1.abs() >= 24000.0 {
                continue;
            }
            let p = Point::new(q.0 / f as f64 * inp.scale + inp.off.x, q.1 / f as f64 * inp.scale + inp.off.y);
            if probes.iter().any(|pr| pr.at(p).0 < margin * 1.5) {
                continue;
            }
            pts.push(p);
            srec.push(ints([q.0 as i64, q.1 as i64]));
        } else {
            let at: Vec<(f64, i32)> = probes.iter().map(|pr| pr.at(p)).collect();
            if at.iter().any(|a| a.0 < margin) {
                continue;
            }
            pts.push(p);
            srec.push(ints(at.iter().map(|a| a.1 as i64)));
        }
    }
    let rings = |rs: &Vec<Ring>| arr(rs.iter().filter(|r| !r.is_empty()).map(|r| ints(r.iter().flat_map(|p| [p.0 * f, p.1 * f]))));
    Base {
        exact,
        pts,
        ext,
        margin,
        a: if exact { arr(inp.ints.as_ref().unwrap().iter().map(rings)) } else { "[]".into() },
        s: arr(srec),
        m: if exact { m } else { 0 },
    }
}
