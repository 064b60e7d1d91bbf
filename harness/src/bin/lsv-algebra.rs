//! Records programs of operations whose operands are inputs or earlier results (P08).
use kurbo::BezPath;
use lsv_harness::geo;
use lsv_harness::json::*;
use lsv_harness::measure::{self, Inputs};
use lsv_harness::ops;
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};

/// [rule, op, i, j], registers counted from 1.
fn program(args: &Args, r: &mut Rng, i: u64) -> Option<Vec<[usize; 4]>> {
    if let Some(f) = args.rest.iter().find_map(|x| x.strip_prefix("prog=")) {
        let n = args.rest.iter().find_map(|x| x.strip_prefix("of=")).map_or(1, |x| x.parse().unwrap());
        let l = line(f, i % n)?;
        return Some(l.get("prog").arr().iter().map(|s| s.ints()).map(|s| [s[0] as usize, s[1] as usize, s[2] as usize, s[3] as usize]).collect());
    }
    let n = 3 + r.below(6);
    Some((0..n).map(|k| [r.below(2), r.below(4), 1 + r.below(2 + k), if k > 0 && r.chance(0.6) { 2 + k } else { 1 + r.below(2 + k) }]).collect())
}

fn record(args: &Args, i: u64) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let c = measure::case(&args.mode, &mut r, i, &args.rest)?;
    let prog = program(args, &mut r, i)?;
    let inp = Inputs::of(c);
    let key = inp.key(&format!("{prog:?}"));
    let o = Obj::new().int("id", i as i64).str("fam", inp.fam).str("key", &key).int("nin", 2);
    if let Some(d) = &args.dead {
        return Some(o.str("st", d).int("exact", 0).raw("A", "[]").int("m", 0).raw("S", "[]").raw("steps", "[]").end());
    }
    if std::env::var("LSV_SHOW").is_ok() {
        eprintln!("eps {} {prog:?}\n{}\n{}", inp.eps, inp.paths[0].to_svg(), inp.paths[1].to_svg());
    }
    let mut regs: Vec<Option<BezPath>> = inp.paths.iter().cloned().map(Some).collect();
    let mut res = vec![];
    for s in &prog {
        let (Some(a), Some(b)) = (&regs[s[2] - 1], &regs[s[3] - 1]) else { break };
        let got = ops::call(a, b, s[0], s[1], Some(inp.eps));
        regs.push(got.as_ref().ok().map(ops::contour_path));
        res.push((*s, got));
    }
    let tol = 20.0 * (1.0 + prog.len() as f64);
    let outs: Vec<geo::Flat> = regs.iter().skip(2).flatten().map(|p| geo::flatten(p, inp.eps * 10.0)).collect();
    let b = measure::base(&inp, tol, 24, &outs, &mut r);
    let steps = arr(res.iter().enumerate().map(|(k, (s, got))| {
        let o = Obj::new().raw("s", ints(s.iter().map(|x| *x as i64)));
        match got {
            Err((st, msg)) => o.str("st", &format!("{st} {}", &msg[..msg.len().min(100)])).raw("W", "[]").int("thin", 0).end(),
            Ok(cs) => {
                let fl: Vec<geo::Flat> = cs.contours().map(|k| geo::flatten(&k.path, b.margin / 40.0)).collect();
                let w = ints(b.pts.iter().map(|p| fl.iter().map(|f| f.winding(*p) as i64).sum::<i64>()));
                // a group without an area of its own: an outer contour, or one that is filled by its holes
                let thin = cs.grouped().iter().all(|g| {
                    let all = geo::Flat { rings: g.iter().flat_map(|i| fl[i.0].rings.clone()).collect() };
                    ops::area_sign(&all, inp.eps * (1.0 + k as f64)) == 0
                });
                if std::env::var("LSV_SHOW").is_ok() {
                    eprintln!("step {} {s:?} {}", k + 1, if !thin { cs.contours().map(|k| k.path.to_svg()).collect::<Vec<_>>().join("\n   ") } else { String::new() });
                }
                o.str("st", "ok").raw("W", w).int("thin", thin as i64).end()
            }
        }
    }));
    Some(o.str("st", "ok").int("exact", b.exact as i64).raw("A", &b.a).int("m", b.m).raw("S", &b.s).raw("steps", steps).end())
}

fn main() {
    run::drive(record);
}
