//! Builds arrangements of several tagged inputs with user-defined winding data and records what the
//! public interface says about them: end points and side data of every segment, the drawn curves, the
//! regions of predicates.
use kurbo::{BezPath, CubicBez, ParamCurve, PathEl, Point, Vec2};
use linesweeper::topology::{BinaryWindingNumber, OutputSegIdx, Topology, WindingNumber};
use linesweeper::{BinaryOp, FillRule};
use lsv_harness::gen;
use lsv_harness::geo::{self, Flat, Probe};
use lsv_harness::json::*;
use lsv_harness::mono;
use lsv_harness::ops;
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};
use lsv_harness::sample;

/// Winding data: integer vectors, or vectors modulo M.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
struct D<const M: i32>([i32; 3]);
impl<const M: i32> D<M> {
    fn norm(mut self) -> Self {
        if M > 0 {
            for x in &mut self.0 {
                *x = x.rem_euclid(M);
            }
        }
        self
    }
}
impl<const M: i32> std::ops::Add for D<M> {
    type Output = Self;
    fn add(self, o: Self) -> Self {
        D([self.0[0] + o.0[0], self.0[1] + o.0[1], self.0[2] + o.0[2]]).norm()
    }
}
impl<const M: i32> std::ops::AddAssign for D<M> {
    fn add_assign(&mut self, o: Self) {
        *self = *self + o;
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
struct Tag([i32; 3]);
impl<const M: i32> WindingNumber for D<M> {
    type Tag = Tag;
    fn single(t: Tag, positive: bool) -> Self {
        let s = if positive { 1 } else { -1 };
        D([t.0[0] * s, t.0[1] * s, t.0[2] * s]).norm()
    }
}

struct Input {
    fam: &'static str,
    paths: Vec<BezPath>,
    tags: Vec<[i32; 3]>,
    ints: Option<Vec<Vec<gen::Ring>>>,
    scale: f64,
    off: Vec2,
    eps: f64,
}

fn subpaths(p: &BezPath) -> Vec<BezPath> {
    let mut out: Vec<BezPath> = vec![];
    for e in gen::reclose(p).elements() {
        if matches!(e, PathEl::MoveTo(_)) || out.is_empty() {
            out.push(BezPath::new());
        }
        out.last_mut().unwrap().push(*e);
    }
    out.retain(|p| p.elements().len() > 1);
    out
}

fn input(mode: &str, r: &mut Rng, i: u64, rest: &[String]) -> Option<Input> {
    let c = match mode {
        "int" => gen::int_case(r),
        "coin" => gen::coincident_case(r),
        "nest" => gen::nest_case(r),
        "curve" => gen::curve_case(r),
        "tight" => gen::tight_case(r, false),
        "near" => gen::near_case(r, false),
        "chain" => gen::near_case(r, true),
        "bundle" => gen::tight_case(r, true),
        "stress" => gen::stress_case(r, i),
        "file" => gen::file_case(&rest[0], i)?,
        m => panic!("unknown mode {m}"),
    };
    let k = *r.pick(&[1usize, 2, 2, 3, 3, 4, 5]);
    let eps = ops::eps_of(&c);
    let tags: Vec<[i32; 3]> = (0..k)
        .map(|j| match (r.below(4), j) {
            (0, _) => [r.int(-2, 3) as i32, r.int(-1, 2) as i32, r.int(0, 1) as i32],
            (_, j) => {
                let mut t = [0; 3];
                t[j % 3] = 1;
                t
            }
        })
        .collect();
    if let Some((ra, rb)) = &c.ints {
        let mut rings: Vec<gen::Ring> = ra.iter().chain(rb).cloned().collect();
        if r.chance(0.3) {
            // a third shape on the same grid
            let c2 = gen::int_case(r);
            rings.extend(c2.ints.unwrap().0.into_iter().take(3));
        }
        let mut by: Vec<Vec<gen::Ring>> = vec![vec![]; k];
        if k == 2 && r.chance(0.5) {
            by = vec![ra.clone(), rb.clone()];
        } else {
            for q in rings {
                by[r.below(k)].push(q);
            }
        }
        let paths = by.iter().map(|rs| gen::rings_path(rs, c.scale, c.off, r)).collect();
        return Some(Input { fam: c.family, paths, tags, ints: Some(by), scale: c.scale, off: c.off, eps });
    }
    let mut subs = subpaths(&c.a);
    subs.extend(subpaths(&c.b));
    let mut paths = vec![BezPath::new(); k];
    for s in subs {
        paths[r.below(k)].extend(s.iter());
    }
    Some(Input { fam: c.family, paths, tags, ints: None, scale: c.scale, off: c.off, eps })
}

/// A drawn curve, its pieces raised to cubics.
struct Drawn {
    path: BezPath,
    pieces: Vec<CubicBez>,
    quad: Vec<bool>,
    line: Vec<Point>,
    lo: Point,
    hi: Point,
}

impl Drawn {
    fn new(path: &BezPath, tol: f64) -> Self {
        let pieces: Vec<CubicBez> = path.segments().map(|s| s.to_cubic()).collect();
        let quad = path.segments().map(|s| matches!(s, kurbo::PathSeg::Quad(_))).collect();
        let line = geo::flatten(path, tol).rings.into_iter().next().unwrap_or_default();
        let (mut lo, mut hi) = (Point::new(f64::INFINITY, f64::INFINITY), Point::new(f64::NEG_INFINITY, f64::NEG_INFINITY));
        for p in pieces.iter().flat_map(|c| [c.p0, c.p1, c.p2, c.p3]) {
            lo = Point::new(lo.x.min(p.x), lo.y.min(p.y));
            hi = Point::new(hi.x.max(p.x), hi.y.max(p.y));
        }
        Drawn { path: path.clone(), pieces, quad, line, lo, hi }
    }
    fn top(&self) -> f64 {
        self.pieces.first().map_or(f64::INFINITY, |c| c.p0.y)
    }
    fn bottom(&self) -> f64 {
        self.pieces.last().map_or(f64::NEG_INFINITY, |c| c.p3.y)
    }
    /// Is there a horizontal step about height y?
    fn level(&self, y: f64, d: f64) -> bool {
        self.pieces.iter().any(|c| c.p0.y == c.p3.y && c.p0.x != c.p3.x && (c.p0.y - y).abs() <= d)
    }
    /// Interval of x at height y, give or take d.
    fn x(&self, y: f64, d: f64) -> (f64, f64) {
        let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
        for c in &self.pieces {
            if c.p0.y <= y + d && c.p3.y >= y - d {
                let (a, b) = (mono::t_at(c, y - d), mono::t_at(c, y + d));
                for t in [a, 0.5 * (a + b), b] {
                    let x = c.eval(t).x;
                    lo = lo.min(x);
                    hi = hi.max(x);
                }
            }
        }
        (lo, hi)
    }
}

fn touch(a: Point, b: Point, c: Point, d: Point) -> bool {
    let o = |p: Point, q: Point, r: Point| (q - p).cross(r - p);
    let (o1, o2, o3, o4) = (o(a, b, c), o(a, b, d), o(c, d, a), o(c, d, b));
    let bb = |p: Point, q: Point, r: Point| r.x >= p.x.min(q.x) && r.x <= p.x.max(q.x) && r.y >= p.y.min(q.y) && r.y <= p.y.max(q.y);
    ((o1 > 0.0) != (o2 > 0.0) && (o3 > 0.0) != (o4 > 0.0)) || (o1 == 0.0 && bb(a, b, c)) || (o2 == 0.0 && bb(a, b, d)) || (o3 == 0.0 && bb(c, d, a)) || (o4 == 0.0 && bb(c, d, b))
}

/// The height ranges over which two drawn curves consist of parabolas side by side, except where a
/// run of them begins.
fn common(du: &Drawn, dv: &Drawn) -> Vec<(f64, f64)> {
    let (u, v) = (&du.pieces, &dv.pieces);
    let same = |i: usize, j: usize| u[i].p0.y == v[j].p0.y && u[i].p3.y == v[j].p3.y && u[i].p0.y < u[i].p3.y && du.quad[i] && dv.quad[j];
    let mut out = vec![];
    let mut j = 0;
    for i in 0..u.len() {
        while j < v.len() && v[j].p0.y < u[i].p0.y {
            j += 1;
        }
        if j == v.len() || !same(i, j) || i + 2 >= u.len() || j + 2 >= v.len() || !same(i + 1, j + 1) {
            // the ends of a drawn curve are moved to its end points, which the curves beside it don't know of
            continue;
        }
        if if i == 0 || j == 0 { i == j && u[0].p0 == v[0].p0 } else { same(i - 1, j - 1) } {
            out.push((u[i].p0.y, u[i].p3.y));
        }
    }
    if out.len() > 12 {
        let k = out.len() / 12 + 1;
        out = out.into_iter().step_by(k).collect();
    }
    out
}

/// Distance of a point from a line of points of increasing height; looks close by first.
fn near(line: &[Point], p: Point, r: f64) -> f64 {
    let a = line.partition_point(|q| q.y < p.y - r).saturating_sub(1);
    let b = (line.partition_point(|q| q.y <= p.y + r) + 1).min(line.len());
    let d = |l: &[Point]| l.windows(2).map(|e| geo::seg_dist2(p, e[0], e[1])).fold(f64::INFINITY, f64::min).sqrt();
    let x = d(&line[a..b]);
    if x <= r {
        x
    } else {
        x.min(d(line))
    }
}

/// A predicate of the data: [kind, a0, a1, a2, m, t].
fn holds(q: &[i64; 6], v: &[i64; 3]) -> bool {
    let s = q[1] * v[0] + q[2] * v[1] + q[3] * v[2];
    match q[0] {
        0 => s >= q[5],
        1 => s.rem_euclid(q[4]) == q[5],
        _ => v.iter().filter(|x| **x != 0).count() as i64 == q[5],
    }
}
fn predicate(r: &mut Rng) -> [i64; 6] {
    let a = [r.int(-1, 2), r.int(-2, 1), r.int(-1, 1)];
    match r.below(3) {
        0 => [0, a[0], a[1], a[2], 0, r.int(1, 3)],
        1 => {
            let m = r.int(2, 4);
            [1, a[0], a[1], a[2], m, r.int(1, m - 1)]
        }
        _ => [2, 0, 0, 0, 0, r.int(1, 2)],
    }
}

fn same(a: &linesweeper::topology::Contours, b: &linesweeper::topology::Contours) -> bool {
    let f = |c: &linesweeper::topology::Contours| c.contours().map(|k| (format!("{:?}", k.path), k.parent.map(|p| p.0), k.outer)).collect::<Vec<_>>();
    f(a) == f(b)
}

/// Do the specialised interfaces give the same thing bit for bit?
fn agreement(inp: &Input, r: &mut Rng) -> Vec<i64> {
    let mut v = vec![];
    let unit = |a, b| [(a, Tag([1, 0, 0])), (b, Tag([0, 1, 0]))];
    if inp.paths.len() >= 2 {
        let (a, b) = (&inp.paths[0], &inp.paths[1]);
        if let Ok(t) = Topology::<D<0>>::from_paths(unit(a, b), inp.eps) {
            let op = r.below(4);
            let rule = r.below(2);
            let keep = |x: bool, y: bool| match op {
                0 => x || y,
                1 => x && y,
                2 => x && !y,
                _ => x != y,
            };
            let mine = t.contours(|d| keep(ops::inside(rule, d.0[0]), ops::inside(rule, d.0[1])));
            let two = linesweeper::binary_op_with_eps(a, b, [FillRule::EvenOdd, FillRule::NonZero][rule], [BinaryOp::Union, BinaryOp::Intersection, BinaryOp::Difference, BinaryOp::Xor][op], inp.eps);
            v.push(two.map_or(false, |c| same(&mine, &c)) as i64);
            if let Ok(t) = Topology::<BinaryWindingNumber>::from_paths_binary(a, b, inp.eps) {
                v.push(same(&mine, &t.contours(|w| keep(ops::inside(rule, w.shape_a), ops::inside(rule, w.shape_b)))) as i64);
            } else {
                v.push(0);
            }
        }
    }
    let a = &inp.paths[0];
    if let (Ok(t), Ok(u)) = (Topology::<D<0>>::from_paths([(a, Tag([1, 0, 0]))], inp.eps), Topology::<i32>::from_path(a, inp.eps)) {
        v.push(same(&t.contours(|d| d.0[0] != 0), &u.contours(|w| *w != 0)) as i64);
    }
    v
}

fn measure<const M: i32>(args: &Args, i: u64, inp: &Input, o: Obj) -> Option<String> {
    let prop = args.rest.iter().find_map(|x| x.strip_prefix("prop=")).unwrap_or("");
    let mut r = Rng::sub(args.seed ^ 0xabcd, i);
    let eps = inp.eps;
    let refs: Vec<&BezPath> = inp.paths.iter().collect();
    let mx = ops::max_abs(&refs);
    let Ok(topo) = Topology::<D<M>>::from_paths(inp.paths.iter().zip(&inp.tags).map(|(p, t)| (p, Tag(*t))), eps) else {
        return dead(o, inp, "err");
    };
    let segs: Vec<OutputSegIdx> = topo.segment_indices().collect();
    if std::env::var("LSV_POS").is_ok() { for s in &segs { eprintln!("{:?}: {}", s, topo.compute_positions()[*s].path.to_svg()); } }
    if segs.len() > 160 {
        return None;
    }
    let pos = topo.compute_positions();
    let ft = eps / 50.0;
    let drawn: Vec<Drawn> = segs.iter().map(|s| Drawn::new(&pos[*s].path, ft)).collect();
    // vertices: points with equal coordinates
    let mut vs: Vec<(f64, f64)> = segs.iter().flat_map(|s| [topo.point(s.first_half()), topo.point(s.second_half())]).map(|p| (p.x + 0.0, p.y + 0.0)).collect();
    vs.sort_by(|a, b| a.partial_cmp(b).unwrap());
    vs.dedup();
    let vno = |p: &linesweeper::Point| vs.binary_search_by(|q| q.partial_cmp(&(p.x + 0.0, p.y + 0.0)).unwrap()).map_or(0, |k| k as i64 + 1);
    let vec3 = |d: &D<M>| ints(d.0.iter().map(|x| *x as i64));

    // samples
    let flats: Vec<Flat> = inp.paths.iter().map(|p| geo::flatten(p, 1e-2 * inp.scale)).collect();
    let ext = sample::extent(&flats.iter().collect::<Vec<_>>());
    let margin = (20.0 * eps).max(1e-7 * ext).max(1e-9 * inp.scale).max(1e-13 * mx);
    let exact = inp.ints.is_some() && 20.0 * eps < 0.7 * inp.scale;
    let f = if exact {
        let m = inp.ints.as_ref().unwrap().iter().flatten().flatten().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(1).max(1);
        let mut f = 64;
        while f > 1 && m * f > 20000 {
            f /= 2;
        }
        f
    } else {
        1
    };
    let m_fine = ((margin * f as f64 / inp.scale).ceil() as i64).max(2);
    let margin = if exact { margin.max(m_fine as f64 * inp.scale / f as f64) } else { margin };
    let probes: Vec<Probe> = inp.paths.iter().map(|p| Probe::new(p, ext * 1e-4, margin / 40.0)).collect();
    let mut pts: Vec<Point> = vec![];
    let mut srec: Vec<String> = vec![];
    // Snaps a point to where the specification can judge it and registers it; 0 if it cannot.
    let mut add = |p: Point, pts: &mut Vec<Point>, srec: &mut Vec<String>| -> Option<(i64, Point)> {
        if exact {
            let q = ((p.x - inp.off.x) / inp.scale * f as f64, (p.y - inp.off.y) / inp.scale * f as f64);
            let q = (q.0.round(), q.1.round());
            if q.0.abs() >= 24000.0 || q.1.abs() >= 24000.0 {
                return None;
            }
            let p = Point::new(q.0 / f as f64 * inp.scale + inp.off.x, q.1 / f as f64 * inp.scale + inp.off.y);
            if probes.iter().any(|pr| pr.at(p).0 < margin * 1.5) {
                return None;
            }
            pts.push(p);
            srec.push(ints([q.0 as i64, q.1 as i64]));
            Some((pts.len() as i64, p))
        } else {
            let at: Vec<(f64, i32)> = probes.iter().map(|pr| pr.at(p)).collect();
            if at.iter().any(|a| a.0 < margin) {
                return None;
            }
            pts.push(p);
            srec.push(ints(at.iter().map(|a| a.1 as i64)));
            Some((pts.len() as i64, p))
        }
    };

    // P13: points beside the segments, away from where the drawn curves could cross
    let clear = (4.0 * ft).max(2.0 * eps);
    let mut edges = vec![];
    for (k, s) in segs.iter().enumerate() {
        let d = &drawn[k];
        let mut side = [0i64; 2];
        if prop == "P13" || prop == "P14" {
            for (z, sgn) in [1.0, -1.0].iter().enumerate() {
                'tries: for _ in 0..3 {
                    if d.line.len() < 2 {
                        break;
                    }
                    let e = r.below(d.line.len() - 1);
                    let (a, b) = (d.line[e], d.line[e + 1]);
                    let v = b - a;
                    if v.hypot() == 0.0 {
                        continue;
                    }
                    let mid = a + v * 0.5;
                    // left of the way from a to b as seen on a screen with y downwards
                    let n = Vec2::new(v.y, -v.x) / v.hypot() * *sgn;
                    if drawn.iter().enumerate().any(|(j, o)| j != k && mid.x > o.lo.x - clear && mid.x < o.hi.x + clear && mid.y > o.lo.y - clear && mid.y < o.hi.y + clear && o.line.windows(2).any(|w| geo::seg_dist2(mid, w[0], w[1]).sqrt() <= clear)) {
                        continue;
                    }
                    // nor where it turns back within that distance
                    if d.line.windows(2).any(|w| (w[1] - w[0]).dot(v) < 0.0 && geo::seg_dist2(mid, w[0], w[1]).sqrt() <= clear) {
                        continue;
                    }
                    for far in [1.2, 2.5, 6.0, 20.0, 100.0] {
                        let want = mid + n * margin * far;
                        let before = (pts.len(), srec.len());
                        let Some((no, p)) = add(want, &mut pts, &mut srec) else { continue };
                        let free = (p - mid).cross(v) * *sgn > 0.0
                            && drawn.iter().enumerate().all(|(j, o)| {
                                if p.x.max(mid.x) < o.lo.x - ft || p.x.min(mid.x) > o.hi.x + ft || p.y.max(mid.y) < o.lo.y - ft || p.y.min(mid.y) > o.hi.y + ft {
                                    return true;
                                }
                                o.line.windows(2).enumerate().all(|(x, w)| (j == k && x == e) || !touch(mid, p, w[0], w[1]))
                            });
                        if free {
                            if std::env::var("LSV_POS").is_ok() {
                                eprintln!("side {} {z}: {mid:?} {p:?} clear {clear} margin {margin} edge {a:?} {b:?}", k + 1);
                            }
                            side[z] = no;
                            break 'tries;
                        }
                        pts.truncate(before.0);
                        srec.truncate(before.1);
                        break;
                    }
                }
            }
        }
        let (h1, h2) = (s.first_half(), s.second_half());
        edges.push(arr([
            vno(topo.point(h1)).to_string(),
            vno(topo.point(h2)).to_string(),
            vec3(topo.winding_clockwise(h1)),
            vec3(topo.winding_counter_clockwise(h1)),
            vec3(topo.winding_clockwise(h2)),
            vec3(topo.winding_counter_clockwise(h2)),
            side[0].to_string(),
            side[1].to_string(),
        ]));
    }
    // P13: points on the inputs
    let ten = |x: f64| (x / eps * 10.0).ceil().min(1e8) as i64;
    let out_edges: Vec<(Point, Point)> = drawn.iter().flat_map(|d| d.line.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>()).collect();
    let mut cover = vec![];
    if prop == "P13" {
        let ie: Vec<(Point, Point)> = probes.iter().flat_map(|p| p.coarse.edges().filter(|(a, b)| a != b).collect::<Vec<_>>()).collect();
        for _ in 0..24 {
            if ie.is_empty() {
                break;
            }
            let (a, b) = *r.pick(&ie);
            let v = b - a;
            let m = a + v * r.unit();
            let n = Vec2::new(v.y, -v.x) / v.hypot() * margin * *r.pick(&[1.6, 1.6, 3.0]);
            let before = (pts.len(), srec.len());
            if let (Some((l, p)), Some((q, w))) = (add(m + n, &mut pts, &mut srec), add(m - n, &mut pts, &mut srec)) {
                let dist = out_edges.iter().map(|e| geo::seg_dist2(m, e.0, e.1)).fold(f64::INFINITY, f64::min).sqrt();
                cover.push(ints([l, q, ten(dist), ten((p - m).hypot().max((w - m).hypot()))]));
            } else {
                pts.truncate(before.0);
                srec.truncate(before.1);
            }
        }
    }
    // P14: more points, regions of predicates
    let mut runs = vec![];
    let mut eq = vec![];
    if prop == "P14" {
        let mut pool: Vec<Flat> = probes.iter().map(|p| p.coarse.clone()).collect();
        let all = pool.clone();
        pool.push(Flat { rings: drawn.iter().map(|d| d.line.clone()).filter(|l| l.len() > 1).collect() });
        let mut cand = sample::candidates(&mut r, &pool.iter().collect::<Vec<_>>(), 40, margin);
        cand.extend(sample::at_crossings(&mut r, &all, 20, margin));
        for p in cand {
            add(p, &mut pts, &mut srec);
        }
        for _ in 0..3 {
            let q = predicate(&mut r);
            let cs = topo.contours(|d| holds(&q, &[d.0[0] as i64, d.0[1] as i64, d.0[2] as i64]));
            let fl: Vec<Flat> = cs.contours().map(|k| geo::flatten(&k.path, margin / 40.0)).collect();
            let w = arr(pts.iter().map(|p| ops::enclosing(&fl, *p)));
            runs.push(Obj::new().raw("q", ints(q)).raw("W", w).raw("K", ops::contours_json(&cs, &fl, eps)).raw("G", ops::groups_json(&cs)).end());
        }
        eq = agreement(inp, &mut r);
    }
    // the box
    let bx = topo.bounding_box();
    let mut short: f64 = 0.0;
    // (a curve that runs along a horizontal line and back has no extent beyond its ends)
    let tall: Vec<Point> = probes.iter().flat_map(|p| p.coarse.edges().filter(|(a, b)| (a.y - b.y).abs() > 1e-12 * mx).flat_map(|(a, b)| [a, b]).collect::<Vec<_>>()).collect();
    for p in tall.iter().chain(drawn.iter().flat_map(|d| d.line.iter())) {
        short = short.max(bx.x0 - p.x).max(p.x - bx.x1).max(bx.y0 - p.y).max(p.y - bx.y1);
    }
    // P15
    let mut curves = vec![];
    let mut pairs = vec![];
    if prop == "P15" {
        let mut flat_edges: Option<Vec<(Point, Point)>> = None;
        for (k, s) in segs.iter().enumerate() {
            let d = &drawn[k];
            let (p, q) = (topo.point(s.first_half()), topo.point(s.second_half()));
            let at = |a: Option<Point>, b: &linesweeper::Point| a.is_some_and(|a| a.x == b.x && a.y == b.y) as i64;
            let first = match d.path.elements().first() {
                Some(PathEl::MoveTo(p)) => Some(*p),
                _ => None,
            };
            let back = d.line.windows(2).map(|w| w[0].y - w[1].y).fold(0.0, f64::max);
            let own = topo.segments[topo.orig_seg[*s]].to_kurbo_cubic();
            let mut op = BezPath::new();
            op.move_to(own.p0);
            op.curve_to(own.p1, own.p2, own.p3);
            let own = geo::flatten(&op, ft * 4.0).rings.into_iter().next().unwrap_or_default();
            let mut dev: f64 = 0.0;
            let skip = (d.line.len() / 100).max(1);
            for (z, w) in d.line.windows(2).enumerate() {
                if z % skip != 0 && z + 20 < d.line.len() && z > 20 {
                    continue;
                }
                for p in [w[0], w[0].midpoint(w[1]), w[1]] {
                    let mut x = near(&own, p, 8.0 * eps);
                    if x > 8.0 * eps {
                        let flat_edges = flat_edges.get_or_insert_with(|| {
                            let fine: Vec<Flat> = inp.paths.iter().map(|p| geo::flatten(p, eps / 4.0)).collect();
                            fine.iter().flat_map(|f| f.edges().collect::<Vec<_>>()).filter(|(a, b)| a != b && 2.0 * (b.y - a.y).abs() < (b.x - a.x).abs()).collect()
                        });
                        x = x.min(flat_edges.iter().map(|e| geo::seg_dist2(p, e.0, e.1)).fold(f64::INFINITY, f64::min).sqrt());
                    }
                    dev = dev.max(x);
                }
            }
            if std::env::var("LSV_POS").is_ok() {
                for w in d.line.windows(2).filter(|w| w[0].y - w[1].y > 2e-13 * mx) {
                    eprintln!("back {k}: {:?} {:?}", w[0], w[1]);
                }
            }
            // going back by more than rounding, in tenths of the accuracy
            let back = if back <= 2e-13 * mx { 0 } else { ten(back).max(1) };
            curves.push(ints([at(first, p), at(d.pieces.last().map(|c| c.p3), q), back, ten(dev)]));
        }
        let dl = 1e-15 * mx;
        for a in 0..drawn.len() {
            for b in 0..a {
                let (u, v) = (&drawn[a], &drawn[b]);
                let (y0, y1) = (u.top().max(v.top()), u.bottom().min(v.bottom()));
                if y1 - y0 <= 16.0 * dl || u.lo.x > v.hi.x || v.lo.x > u.hi.x {
                    continue;
                }
                let mut n = [0i64; 3];
                let mut worst0 = [0.0f64; 2];
                for z in 0..24 {
                    let t = match z {
                        0 => 1e-6,
                        1 => 1e-3,
                        2 => 1.0 - 1e-3,
                        3 => 1.0 - 1e-6,
                        z if z < 12 => (z - 3) as f64 / 9.0,
                        _ => r.unit(),
                    };
                    let y = y0 + (y1 - y0) * t;
                    if y - dl <= y0 || y + dl >= y1 {
                        continue;
                    }
                    if u.level(y, 4.0 * eps) || v.level(y, 4.0 * eps) {
                        continue;
                    }
                    let (p, q) = (u.x(y, eps), v.x(y, eps));
                    if p.1 + dl < q.0 {
                        n[0] += 1;
                        worst0[0] = worst0[0].max(q.0 - p.1);
                    } else if q.1 + dl < p.0 {
                        n[2] += 1;
                        worst0[1] = worst0[1].max(p.0 - q.1);
                    } else {
                        n[1] += 1;
                    }
                }
                // Where both are drawn by parabolas over the same heights there is nothing to excuse.
                let mut sn = [0i64; 2];
                let mut sworst = [0.0f64; 2];
                // (On a grid finer than the accuracy two bunches can be drawn over the same heights.)
                for (y0, y1) in if inp.fam == "tight" { vec![] } else { common(u, v) } {
                    for t in [0.03, 0.5, 0.97, r.unit()] {
                        let y = y0 + (y1 - y0) * t;
                        let (p, q) = (u.x(y, 0.0), v.x(y, 0.0));
                        let tol = 1e-13 * mx;
                        for (z, gap) in [q.0 - p.1, p.0 - q.1].iter().enumerate() {
                            if *gap > tol {
                                sn[z] += 1;
                                sworst[z] = sworst[z].max(*gap);
                            }
                        }
                    }
                }
                let worst = |w: [f64; 2]| (w[0].min(w[1]) / eps * 1e6).min(1e9) as i64;
                pairs.push(ints([a as i64 + 1, b as i64 + 1, n[0], n[1], n[2], worst(worst0), sn[0], sn[1], worst(sworst)]));
            }
        }
    }
    let rings = |rs: &Vec<gen::Ring>| arr(rs.iter().filter(|r| !r.is_empty()).map(|r| ints(r.iter().flat_map(|p| [p.0 * f, p.1 * f]))));
    Some(
        o.str("st", "ok")
            .int("M", M as i64)
            .raw("T", arr(inp.tags.iter().map(|t| ints(t.iter().map(|x| *x as i64)))))
            .int("exact", exact as i64)
            .raw("A", if exact { arr(inp.ints.as_ref().unwrap().iter().map(rings)) } else { "[]".into() })
            .int("m", if exact { m_fine } else { 0 })
            .raw("S", arr(srec))
            .int("V", vs.len() as i64)
            .raw("E", arr(edges))
            .raw("C", arr(cover))
            .int("box", if short.is_finite() { ten(short.max(0.0)) } else { 0 })
            .raw("runs", arr(runs))
            .raw("eq", ints(eq))
            .raw("P", arr(curves))
            .raw("X", arr(pairs))
            .end(),
    )
}

fn dead(o: Obj, inp: &Input, st: &str) -> Option<String> {
    Some(o.str("st", st).int("M", 0).raw("T", arr(inp.tags.iter().map(|t| ints(t.iter().map(|x| *x as i64))))).int("exact", 0).raw("A", "[]").int("m", 0).raw("S", "[]").int("V", 0).raw("E", "[]").raw("C", "[]").int("box", 0).raw("runs", "[]").raw("eq", "[]").raw("P", "[]").raw("X", "[]").end())
}

fn record(args: &Args, i: u64) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let inp = input(&args.mode, &mut r, i, &args.rest)?;
    let m = *r.pick(&[0, 0, 0, 2, 3]);
    let text: Vec<String> = inp.paths.iter().map(|p| p.to_svg()).collect();
    let desc = format!("{:?} {m} {:e}", inp.tags, inp.eps);
    let mut parts: Vec<&str> = text.iter().map(|s| s.as_str()).collect();
    parts.push(&desc);
    let key = run::fnv(&parts);
    if std::env::var("LSV_SHOW").is_ok() {
        eprintln!("{desc}");
        for t in &text {
            eprintln!("{t}");
        }
    }
    let o = || Obj::new().int("id", i as i64).str("fam", inp.fam).str("key", &key);
    if let Some(d) = &args.dead {
        return dead(o(), &inp, d);
    }
    let go = || match m {
        2 => measure::<2>(args, i, &inp, o()),
        3 => measure::<3>(args, i, &inp, o()),
        _ => measure::<0>(args, i, &inp, o()),
    };
    match run::guarded(go) {
        Ok(s) => s,
        Err(e) => dead(o(), &inp, &format!("panic: {}", &e[..e.len().min(120)])),
    }
}

fn main() {
    run::drive(record);
}
