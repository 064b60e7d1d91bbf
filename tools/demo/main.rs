//! Checks boolean operations on the cases in the given file, one per line:
//! `what;operation;fill;eps;path a;path b`, what being some of the letters
//! m: the result covers exactly the points it should   n: the result stays near the inputs
//! h: contours' parents contain them                    r: it only has to return
use kurbo::{BezPath, Point, Shape};
use linesweeper::{binary_op, binary_op_with_eps, BinaryOp, FillRule};

fn lines(p: &BezPath, tol: f64) -> Vec<(Point, Point)> {
    let (mut out, mut start, mut last) = (vec![], Point::ZERO, Point::ZERO);
    kurbo::flatten(p.elements().iter().copied(), tol, |e| match e {
        kurbo::PathEl::MoveTo(q) => { start = q; last = q; }
        kurbo::PathEl::LineTo(q) => { out.push((last, q)); last = q; }
        _ => { out.push((last, start)); last = start; }
    });
    out
}
fn dist(p: Point, ls: &[(Point, Point)]) -> f64 {
    ls.iter().map(|&(a, b)| {
        let d = b - a;
        let t = if d.hypot2() == 0.0 { 0.0 } else { ((p - a).dot(d) / d.hypot2()).clamp(0.0, 1.0) };
        (a + d * t - p).hypot()
    }).fold(f64::INFINITY, f64::min)
}
fn wind(p: Point, ls: &[(Point, Point)]) -> i32 {
    ls.iter().map(|&(a, b)| {
        let up = a.y <= p.y && p.y < b.y;
        let dn = b.y <= p.y && p.y < a.y;
        if !up && !dn { return 0; }
        let x = a.x + (b.x - a.x) * (p.y - a.y) / (b.y - a.y);
        if x >= p.x { 0 } else if up { 1 } else { -1 }
    }).sum()
}
fn main() {
    let text = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    let mut bad = 0;
    for (no, l) in text.lines().enumerate().filter(|(_, l)| !l.trim().is_empty() && !l.starts_with('#')) {
        let f: Vec<&str> = l.split(';').collect();
        let a = BezPath::from_svg(f[4]).unwrap();
        let b = BezPath::from_svg(f[5]).unwrap();
        let op = match f[1] { "union" => BinaryOp::Union, "intersection" => BinaryOp::Intersection, "difference" => BinaryOp::Difference, _ => BinaryOp::Xor };
        let fill = if f[2] == "evenodd" { FillRule::EvenOdd } else { FillRule::NonZero };
        let eps: f64 = if f[3] == "auto" { 0.0 } else { f[3].parse().unwrap() };
        let res = if eps == 0.0 { binary_op(&a, &b, fill, op) } else { binary_op_with_eps(&a, &b, fill, op, eps) };
        let res = match res { Ok(r) => r, Err(e) => { println!("case {no}: {e}"); bad += 1; continue; } };
        let bb = a.bounding_box().union(b.bounding_box());
        let size = bb.width().max(bb.height());
        let eps = if eps == 0.0 { size * 1e-6 } else { eps };
        let margin = 20.0 * eps;
        let (la, lb) = (lines(&a, eps), lines(&b, eps));
        let out: Vec<Vec<(Point, Point)>> = res.contours().map(|c| lines(&c.path, eps)).collect();
        let all: Vec<(Point, Point)> = out.concat();
        let inp: Vec<(Point, Point)> = [la.clone(), lb.clone()].concat();
        if f[0].contains('n') {
            let far = res.contours().flat_map(|c| c.path.segments().collect::<Vec<_>>())
                .flat_map(|s| (0..64).map(move |k| kurbo::ParamCurve::eval(&s, k as f64 / 64.0)))
                .map(|p| dist(p, &inp)).fold(0.0, f64::max);
            if far > margin { println!("case {no}: the result is {far} away from the inputs"); bad += 1; }
        }
        if f[0].contains('h') {
            let all: Vec<_> = res.contours().collect();
            for (i, c) in all.iter().enumerate() {
                let depth = out.iter().enumerate().filter(|(j, o)| *j != i && {
                    // a point just beside an edge of this contour, away from the other one
                    out[i].iter().map(|s| s.0.midpoint(s.1)).find(|p| dist(*p, o) > margin).is_some_and(|p| wind(p, o) != 0)
                }).count();
                let mut k = 0;
                let mut at = c.parent;
                while let Some(p) = at { k += 1; at = res[p].parent; }
                if k != depth { println!("case {no}: contour {i} lies in {depth} others but has {k} ancestors"); bad += 1; }
            }
        }
        if f[0].contains('m') {
            let n = 160;
            let mut wrong = 0;
            for ix in 0..n { for iy in 0..n {
                let p = Point::new(bb.x0 + size * ((ix as f64 + 0.377) * 1.2 / n as f64 - 0.1), bb.y0 + size * ((iy as f64 + 0.419) * 1.2 / n as f64 - 0.1));
                if dist(p, &inp) < margin { continue; }
                let inside = |w: i32| if fill == FillRule::EvenOdd { w % 2 != 0 } else { w != 0 };
                let (x, y) = (inside(wind(p, &la)), inside(wind(p, &lb)));
                let want = match op { BinaryOp::Union => x || y, BinaryOp::Intersection => x && y, BinaryOp::Difference => x && !y, BinaryOp::Xor => x != y };
                let w = wind(p, &all);
                if w.abs() > 1 || (w != 0) != want { wrong += 1; }
            } }
            if wrong > 0 { println!("case {no}: {wrong} points are wrong"); bad += 1; }
        }
    }
    if bad > 0 { std::process::exit(1); }
}
