//! Records boolean operations: what the inputs are, where the sample points lie and what the result
//! says there.  The specification (TraceBool.tla) decides.
use kurbo::{BezPath, Point};
use lsv_harness::gen::{self, Case};
use lsv_harness::geo::{self, Flat, Probe};
use lsv_harness::json::*;
use lsv_harness::ops::*;
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};
use lsv_harness::sample;

/// Margin in multiples of the accuracy within which a point counts as "on the boundary".
const MARGIN: f64 = 20.0;

fn case_of(args: &Args, i: u64) -> Option<Case> {
    let mut r = Rng::sub(args.seed, i);
    Some(match args.mode.as_str() {
        "rand" => gen::int_case(&mut r),
        "tri" => gen::triangle_pair(i)?,
        "curve" => gen::curve_case(&mut r),
        "mag" => gen::magnitude_case(&mut r),
        "coin" => gen::coincident_case(&mut r),
        "nest" => gen::nest_case(&mut r),
        "stress" => gen::stress_case(&mut r, i),
        "tight" => gen::tight_case(&mut r, false),
        "near" => gen::near_case(&mut r, false),
        "chain" => gen::near_case(&mut r, true),
        "bundle" => gen::tight_case(&mut r, true),
        "file" => gen::file_case(&args.rest[0], i)?,
        m => panic!("unknown mode {m}"),
    })
}

fn rings_json(rs: &[gen::Ring], f: i64) -> String {
    arr(rs.iter().map(|r| ints(r.iter().flat_map(|p| [p.0 * f, p.1 * f]))))
}

/// Sample points of an integer case, in fine units.
fn exact_samples(r: &mut Rng, fl: &[Flat], outs: &[Flat], n: usize, m: f64) -> Vec<(i64, i64)> {
    let mut pool: Vec<&Flat> = fl.iter().collect();
    pool.extend(outs.iter());
    let mut cand = sample::candidates(r, &pool, 2 * n, m);
    cand.extend(sample::at_crossings(r, fl, n, m));
    let mut keep = vec![];
    // interleave the two kinds
    let k = cand.len();
    let mut order: Vec<usize> = (0..k).collect();
    for i in (1..k).rev() {
        order.swap(i, r.below(i + 1));
    }
    for j in order {
        let p = cand[j];
        let q = (p.x.round(), p.y.round());
        let p = Point::new(q.0, q.1);
        let ok = fl.iter().all(|f| f.edges().all(|(a, b)| {
            // the specification's own criterion (TraceBool!Near), so that few samples are wasted
            let (dx, dy) = (b.x - a.x, b.y - a.y);
            let inbox = p.x >= a.x.min(b.x) - m && p.x <= a.x.max(b.x) + m && p.y >= a.y.min(b.y) - m && p.y <= a.y.max(b.y) + m;
            let cr = (dx * (p.y - a.y) - dy * (p.x - a.x)).abs();
            !(inbox && cr <= m * (dx.abs() + dy.abs()))
        }));
        if ok {
            keep.push((q.0 as i64, q.1 as i64));
            if keep.len() >= n {
                break;
            }
        }
    }
    keep
}

fn record(args: &Args, i: u64) -> Option<String> {
    let c = case_of(args, i)?;
    if args.rest.iter().any(|x| x == "show") {
        let (a, b) = c.svg();
        println!("{} eps {:?} scale {} off {:?}\nA={a}\nB={b}", c.family, c.eps, c.scale, c.off);
    }
    let (sa, sb) = c.svg();
    let eps_s = c.eps.map_or("auto".into(), |e| format!("{e:e}"));
    let key = run::fnv(&[&sa, &sb, &eps_s]);
    let mut o = Obj::new().int("id", i as i64).str("fam", c.family).str("key", &key).str("mode", &args.mode);
    if let Some(d) = &args.dead {
        return Some(
            o.str("st", d).int("exact", 0).raw("A", "[]").raw("B", "[]").int("m", 1).raw("S", "[]").raw("runs", "[]").int("nres", 0).end(),
        );
    }
    let eps = eps_of(&c);
    let n = args.rest.iter().find_map(|x| x.strip_prefix("n=")).map_or(30, |x| x.parse().unwrap());
    // which rule/op combinations
    let all: Vec<(usize, usize)> = (0..2).flat_map(|r| (0..4).map(move |o| (r, o))).collect();
    let mut rr = Rng::sub(args.seed ^ 0x5555, i);
    let combos: Vec<(usize, usize)> = if args.mode == "stress" || c.a.elements().len() + c.b.elements().len() > 150 {
        vec![all[rr.below(8)], all[rr.below(8)]]
    } else {
        all
    };
    let results: Vec<_> = combos.iter().map(|&(r, op)| call(&c.a, &c.b, r, op, c.eps)).collect();

    let fl0 = [geo::flatten(&c.a, 1e-2 * c.scale), geo::flatten(&c.b, 1e-2 * c.scale)];
    let ext = sample::extent(&[&fl0[0], &fl0[1]]);
    let amax = max_abs(&[&c.a, &c.b]);
    let margin = (MARGIN * eps).max(1e-7 * ext).max(1e-9 * c.scale).max(1e-13 * amax);
    let outs: Vec<Option<Vec<Flat>>> = results
        .iter()
        .map(|r| r.as_ref().ok().map(|c| c.contours().map(|k| geo::flatten(&k.path, margin / 40.0)).collect()))
        .collect();

    let samples: Vec<Point>;
    if let (Some((ra, rb)), true) = (&c.ints, c.exact_ok(eps, MARGIN)) {
        // fine units
        let mx = ra.iter().chain(rb).flatten().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(1).max(1);
        let mut f = 64;
        while f > 1 && mx * f > 20000 {
            f /= 2;
        }
        let m = ((margin * f as f64 / c.scale).ceil() as i64).max(2);
        let to_fine = |p: Point| Point::new((p.x - c.off.x) / c.scale * f as f64, (p.y - c.off.y) / c.scale * f as f64);
        let of_fine = |q: (i64, i64)| Point::new(q.0 as f64 / f as f64 * c.scale + c.off.x, q.1 as f64 / f as f64 * c.scale + c.off.y);
        let ring_flat = |rs: &Vec<gen::Ring>| Flat { rings: rs.iter().map(|r| r.iter().map(|p| Point::new((p.0 * f) as f64, (p.1 * f) as f64)).collect()).collect() };
        let fl = [ring_flat(ra), ring_flat(rb)];
        let of: Vec<Flat> = outs.iter().flatten().map(|v| Flat { rings: v.iter().flat_map(|f| f.rings.iter().map(|r| r.iter().map(|p| to_fine(*p)).filter(|p| p.x.abs() < 1e6 && p.y.abs() < 1e6).collect())).collect() }).collect();
        let mut r = Rng::sub(args.seed ^ 0x77, i);
        let ss = exact_samples(&mut r, &fl, &of, n, m as f64);
        let ss: Vec<(i64, i64)> = ss.into_iter().filter(|p| p.0.abs() < 24000 && p.1.abs() < 24000).collect();
        samples = ss.iter().map(|q| of_fine(*q)).collect();
        o = o.int("exact", 1).raw("A", rings_json(ra, f)).raw("B", rings_json(rb, f)).int("m", m);
        o = o.raw("S", arr(ss.iter().map(|p| ints([p.0, p.1]))));
    } else {
        let pr = |p| Probe::new(p, ext * 1e-4, margin / 40.0);
        let (pa, pb) = (pr(&c.a), pr(&c.b));
        let mut pool: Vec<Flat> = vec![];
        for v in outs.iter().flatten() {
            let mut f = Flat::default();
            for x in v {
                f.rings.extend(x.rings.iter().filter(|r| r.iter().all(|p| p.is_finite())).cloned());
            }
            pool.push(f);
        }
        let mut refs: Vec<&Flat> = vec![&pa.coarse, &pb.coarse];
        refs.extend(pool.iter());
        let mut r = Rng::sub(args.seed ^ 0x77, i);
        let mut cand = sample::candidates(&mut r, &refs, 3 * n, margin);
        cand.extend(sample::at_crossings(&mut r, &[pa.coarse.clone(), pb.coarse.clone()], n, margin));
        let k = cand.len();
        for i in (1..k).rev() {
            cand.swap(i, r.below(i + 1));
        }
        let mut info = vec![];
        let mut keep = vec![];
        for p in cand {
            let ((da, wa), (db, wb)) = (pa.at(p), pb.at(p));
            let d = da.min(db);
            if d >= margin {
                // distance in thousandths of the margin
                info.push(ints([((d / margin * 1000.0).min(1e6)) as i64, wa as i64, wb as i64]));
                keep.push(p);
                if keep.len() >= n {
                    break;
                }
            }
        }
        samples = keep;
        o = o.int("exact", 0).raw("A", "[]").raw("B", "[]").int("m", 1000).raw("S", arr(info));
    }

    let inp = edge_index(&[&c.a, &c.b], eps / 4.0);
    let mut nres = 0;
    let runs = arr(combos.iter().zip(&results).zip(&outs).map(|((&(rule, op), res), fl)| {
        let ro = Obj::new().int("r", rule as i64).int("o", op as i64);
        match res {
            Err((st, msg)) => ro.str("st", st).str("msg", msg).raw("K", "[]").raw("G", "[]").raw("W", "[]").raw("N", "[]").int("dev", 0).int("gap", 0).end(),
            Ok(cs) => {
                nres += 1;
                let fl = fl.as_ref().unwrap();
                let finite = cs.contours().all(|k| path_shape(&k.path).1);
                let dev = if finite { deviation(cs, &inp, eps) } else { 1000000 };
                let po = contour_path(cs);
                let near = Probe::new(&po, ext * 1e-4, margin / 40.0);
                let w = arr(samples.iter().map(|p| enclosing(fl, *p)));
                // samples that lie on the result's own boundary are not judged for P02 and P03
                let nr = ints(samples.iter().map(|p| (near.at(*p).0 < margin / 2.0) as i64));
                ro.str("st", "ok").str("msg", "").raw("K", contours_json(cs, fl, eps)).raw("G", groups_json(cs)).raw("W", w).raw("N", nr).int("dev", dev).int("gap", 0).end()
            }
        }
    }));
    let st = "ok";
    Some(o.str("st", st).raw("runs", runs).int("nres", nres).end())
}

fn main() {
    let _ = BezPath::new();
    run::drive(record);
}
