//! Debug aid: prints where the result of a case strays from its input.
use kurbo::{BezPath, ParamCurve, Shape};
use lsv_harness::*;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (seed, i): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
    let mut r = rng::Rng::sub(seed, i);
    let c = match a[1].as_str() {
        "rand" => gen::int_case(&mut r), "curve" => gen::curve_case(&mut r), "mag" => gen::magnitude_case(&mut r),
        "coin" => gen::coincident_case(&mut r), "nest" => gen::nest_case(&mut r), "stress" => gen::stress_case(&mut r, i),
        "tight" => gen::tight_case(&mut r, false), "bundle" => gen::tight_case(&mut r, true), "near" => gen::near_case(&mut r, false), "chain" => gen::near_case(&mut r, true), "tri" => gen::triangle_pair(i).unwrap(),
        "file" => gen::file_case(&a[4], i).unwrap(),
        _ => panic!(),
    };
    if std::env::var("LSV_DUMP").is_ok() {
        // the format of files of cases
        println!("{}|{}|{}|{}", c.family, c.eps.map_or("auto".into(), |e| e.to_string()), c.a.to_svg(), c.b.to_svg());
        return;
    }
    let eps = ops::eps_of(&c);
    println!("{} eps {eps:e} scale {}", c.family, c.scale);
    let idx = ops::edge_index(&[&c.a, &c.b], eps / 4.0);
    for rule in 0..2 { for op in 0..4 {
        let Ok(out) = ops::call(&c.a, &c.b, rule, op, c.eps) else { println!("{rule} {op} failed"); continue };
        let mut w = (0.0, None);
        for k in out.contours() { for s in k.path.segments() { for t in 0..=16 {
            let p = s.eval(t as f64 / 16.0);
            let d = idx.dist_above(p, 0.0);
            if d > w.0 { w = (d, Some((p, s))); }
        }}}
        println!("rule {rule} op {op}: {} eps at {:?}", w.0 / eps, w.1);
    }}
    let p = |p: &BezPath| { let s = p.to_svg(); if s.len() < 1500 { println!("{s}"); } };
    p(&c.a); p(&c.b); let _ = c.a.bounding_box();
}
