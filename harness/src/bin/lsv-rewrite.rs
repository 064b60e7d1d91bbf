//! Records results for inputs that are written down in other ways, step by step (P07).
use kurbo::{Affine, BezPath, Point};
use lsv_harness::json::*;
use lsv_harness::measure::{self, Inputs};
use lsv_harness::rng::Rng;
use lsv_harness::rewrite::{self, Sub};
use lsv_harness::run::{self, Args};
use lsv_harness::{geo, ops};

/// [kind, operand, exponent]
fn program(args: &Args, r: &mut Rng, i: u64) -> Option<Vec<[i64; 3]>> {
    if let Some(f) = args.rest.iter().find_map(|x| x.strip_prefix("prog=")) {
        let n = args.rest.iter().find_map(|x| x.strip_prefix("of=")).map_or(1, |x| x.parse().unwrap());
        let l = line(f, i % n)?;
        return Some(l.get("prog").arr().iter().map(|s| s.ints()).map(|s| [s[0], s[1], s[2]]).collect());
    }
    let n = 2 + r.below(5);
    let mut one = || {
        let (k, o, e) = (1 + r.below(16) as i64, 1 + r.below(2) as i64, *r.pick(&[-20, -3, 2, 11]));
        if k == 16 { [16, 1, e] } else { [k, o, 0] }
    };
    Some((0..n).map(|_| one()).collect())
}

fn calls(ab: &[Vec<Sub>; 2], eps: f64, pts: &[Point], tol: f64, par: bool, r: &mut Rng, show: bool) -> String {
    let (a, b): (BezPath, BezPath) = (rewrite::write(&ab[0]), rewrite::write(&ab[1]));
    if show {
        eprintln!("{:e}|{}|{}", eps, a.to_svg(), b.to_svg());
    }
    let op = r.below(4);
    let ops_ = [op, (op + 1 + r.below(3)) % 4];
    arr(ops_.iter().map(|&op| {
        let rule = if par { 0 } else { r.below(2) };
        let o = Obj::new().raw("r", ints([rule as i64, op as i64]));
        match ops::call(&a, &b, rule, op, Some(eps)) {
            Err((st, msg)) => o.str("st", &format!("{st} {}", &msg[..msg.len().min(100)])).raw("W", "[]").end(),
            Ok(cs) => {
                let f = geo::flatten(&ops::contour_path(&cs), tol);
                if show {
                    eprintln!("   {rule} {op}: {}", ops::contour_path(&cs).to_svg());
                }
                o.str("st", "ok").raw("W", ints(pts.iter().map(|p| f.winding(*p) as i64))).end()
            }
        }
    }))
}

fn record(args: &Args, i: u64) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let c = measure::case(&args.mode, &mut r, i, &args.rest)?;
    let prog = program(args, &mut r, i)?;
    let inp = Inputs::of(c);
    let key = inp.key(&format!("{prog:?}"));
    let o = Obj::new().int("id", i as i64).str("fam", inp.fam).str("key", &key);
    if let Some(d) = &args.dead {
        return Some(o.str("st", d).int("exact", 0).raw("A", "[[],[]]").int("m", 0).raw("S", "[]").raw("steps", "[]").end());
    }
    let show = std::env::var("LSV_SHOW").is_ok();
    let mut ab = [rewrite::read(&inp.paths[0]), rewrite::read(&inp.paths[1])];
    let b = measure::base(&inp, 30.0, 24, &[], &mut r);
    let (mut eps, mut pts, mut par, mut tol) = (inp.eps, b.pts.clone(), false, b.margin / 40.0);
    let most = ops::max_abs(&inp.paths.iter().collect::<Vec<_>>());
    let mut scale = 1.0;
    let mut steps = vec![(vec![0, 0, 0], calls(&ab, eps, &pts, tol, par, &mut r, show))];
    for s in &prog {
        let mut s = *s;
        // accuracies much finer than what is ever chosen automatically are not promised to work
        if s[0] == 16 && eps * 2f64.powi(s[2] as i32) < inp.eps.min(1e-6) {
            s[2] = 0;
        }
        let k = s[1] as usize - 1;
        let f = match s[0] {
            13 => {
                let h = b.ext.max(1.0) * scale * *r.pick(&[1.0, 0.5, 3.0, 7.25]);
                let h = 2f64.powi(h.log2().floor() as i32);
                let d = (h * r.int(-3, 3) as f64, h * r.int(-3, 3) as f64);
                // where there is room for it
                let far = d.0.abs().max(d.1.abs()) + ops::max_abs(&[&rewrite::write(&ab[0]), &rewrite::write(&ab[1])]);
                if far > 4.0 * most * scale && inp.eps < 2e-9 * far / scale { Affine::IDENTITY } else { Affine::translate(d) }
            }
            14 => if r.chance(0.5) { Affine::new([-1.0, 0.0, 0.0, 1.0, 0.0, 0.0]) } else { Affine::new([1.0, 0.0, 0.0, -1.0, 0.0, 0.0]) },
            15 => Affine::new([0.0, 1.0, 1.0, 0.0, 0.0, 0.0]),
            16 => {
                let q = 2f64.powi(s[2] as i32);
                eps *= q;
                tol *= q;
                scale *= q;
                Affine::scale(q)
            }
            12 => {
                ab.swap(0, 1);
                Affine::IDENTITY
            }
            _ => {
                par |= s[0] == 2;
                rewrite::apply(&mut ab[k], s[0], &mut r);
                Affine::IDENTITY
            }
        };
        ab.iter_mut().for_each(|x| rewrite::map(x, f));
        pts.iter_mut().for_each(|p| *p = f * *p);
        if show {
            eprintln!("step {s:?}");
        }
        steps.push((s.to_vec(), calls(&ab, eps, &pts, tol, par, &mut r, show)));
    }
    let steps = arr(steps.iter().map(|(rw, c)| Obj::new().raw("rw", ints(rw.iter().cloned())).raw("calls", c).end()));
    Some(o.str("st", "ok").int("exact", b.exact as i64).raw("A", &b.a).int("m", b.m).raw("S", &b.s).raw("steps", steps).end())
}

fn main() {
    run::drive(record);
}
