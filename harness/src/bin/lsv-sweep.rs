//! Runs the sweep over generated segments and records every line of it: the order below the line,
//! where the listed segments really are, the events of every range, and the connections at every
//! position.
use kurbo::{BezPath, CubicBez};
use linesweeper::sweep::{SegmentsConnectedAtX, SweepLineBuffers, SweepLineRangeBuffers, Sweeper};
use linesweeper::{SegIdx, Segments};
use lsv_harness::gen::{self, Case};
use lsv_harness::json::*;
use lsv_harness::mono::{x_range, Ranks};
use lsv_harness::ops;
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};

struct Range {
    old: Vec<usize>,
    new: Vec<usize>,
    /// batch, segment, x0, above, x1, below
    evs: Vec<(usize, usize, f64, bool, f64, bool)>,
    at: Vec<(f64, Vec<usize>, Vec<usize>)>,
}

struct Line {
    y: f64,
    below: Vec<usize>,
    ranges: Vec<Range>,
}

fn sweep(segs: &Segments, ix: &[SegIdx], eps: f64, most: usize) -> Option<Vec<Line>> {
    let num = |s: SegIdx| ix.iter().position(|i| *i == s).map_or(0, |k| k + 1);
    let mut st = Sweeper::new(segs, eps);
    let mut lb = SweepLineBuffers::default();
    let mut rb = SweepLineRangeBuffers::default();
    let mut out: Vec<Line> = vec![];
    let mut size = 0;
    while let Some(mut line) = st.next_line(&mut lb) {
        let mut n = 0;
        while line.line_segment(n).is_some() {
            n += 1;
        }
        let below: Vec<usize> = line.segment_range(0..n).map(num).collect();
        let y = line.y();
        let mut ranges = vec![];
        while let Some(mut r) = line.next_range(&mut rb, segs) {
            let old = r.old_segment_range().map(num).collect();
            let new = r.segment_range().map(num).collect();
            let mut evs = vec![];
            let mut b = 0;
            while let Some(v) = r.events() {
                b += 1;
                for e in v {
                    evs.push((b, num(e.seg_idx), e.x0, e.connected_above, e.x1, e.connected_below));
                }
            }
            size += evs.len();
            ranges.push(Range { old, new, evs, at: vec![] });
        }
        size += below.len();
        out.push(Line { y, below, ranges });
        if size > most {
            return None;
        }
    }
    // the same sweep again, asking for the connections at every position
    let mut st = Sweeper::new(segs, eps);
    let mut k = 0;
    while let Some(mut line) = st.next_line(&mut lb) {
        let mut j = 0;
        while let Some(mut r) = line.next_range(&mut rb, segs) {
            let mut c = SegmentsConnectedAtX::default();
            let mut at = vec![];
            while let Some(x) = r.x() {
                r.update_segments_at_x(&mut c);
                at.push((x, c.connected_up().map(num).collect(), c.connected_down().map(num).collect()));
                r.increase_x();
            }
            if k < out.len() && j < out[k].ranges.len() {
                out[k].ranges[j].at = at;
            }
            j += 1;
        }
        k += 1;
    }
    Some(out)
}

fn input(mode: &str, r: &mut Rng, i: u64, rest: &[String]) -> Option<(&'static str, Segments, f64, String)> {
    let of_case = |c: Case, r: &mut Rng| {
        let mut e = ops::eps_of(&c);
        if r.chance(0.5) {
            e = e.max(ops::max_abs(&[&c.a, &c.b]).max(1e-3) * *r.pick(&[1e-6, 1e-5, 1e-4, 1e-3]));
        }
        let mut s = Segments::default();
        s.add_bez_path(&c.a).expect("closed");
        s.add_bez_path(&c.b).expect("closed");
        (c.family, s, e, format!("{}|{}|{}", e, c.a.to_svg(), c.b.to_svg()))
    };
    let of_path = |fam, p: BezPath, e: f64| {
        let mut s = Segments::default();
        s.add_bez_path(&p).expect("closed");
        (fam, s, e, format!("{}|{}|", e, p.to_svg()))
    };
    Some(match mode {
        "int" => of_case(gen::int_case(r), r),
        "curve" => of_case(gen::curve_case(r), r),
        "coin" => of_case(gen::coincident_case(r), r),
        "nest" => of_case(gen::nest_case(r), r),
        "near" => of_case(gen::near_case(r, false), r),
        "chain" => of_case(gen::near_case(r, true), r),
        "stress" => of_case(gen::stress_case(r, i), r),
        "tight" => {
            let (p, e) = gen::tight(r);
            of_path("tight", p, e)
        }
        "bundle" => {
            let (p, e) = gen::bundle(r);
            of_path("bundle", p, e)
        }
        "open" => {
            // open polylines and loose segments
            let mut s = Segments::default();
            let mut t = String::new();
            let g = *r.pick(&[4i64, 8, 20]);
            for _ in 0..1 + r.below(5) {
                let n = 2 + r.below(6);
                let v: Vec<(f64, f64)> = (0..n).map(|_| (r.int(0, g) as f64, r.int(0, g) as f64)).collect();
                t.push_str(&format!("{v:?}"));
                s.add_points(v);
            }
            ("open", s, *r.pick(&[1e-6, 1e-3, 0.01, 0.1]), t)
        }
        "file" => of_case(gen::file_case(&rest[0], i)?, r),
        m => panic!("unknown mode {m}"),
    })
}

fn record(args: &Args, i: u64) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let (fam, segs, eps, text) = input(&args.mode, &mut r, i, &args.rest)?;
    let key = run::fnv(&[&text]);
    let o = Obj::new().int("id", i as i64).str("fam", fam).str("key", &key);
    let empty = |o: Obj, st: &str| Some(o.str("st", st).raw("segs", "[]").raw("lines", "[]").end());
    if std::env::var("LSV_SHOW").is_ok() {
        eprintln!("{text}");
    }
    if let Some(d) = &args.dead {
        return empty(o, d);
    }
    let ix: Vec<SegIdx> = segs.indices().collect();
    if ix.len() > 700 {
        return None;
    }
    let most = if args.mode == "stress" { 12000 } else { 5000 };
    let lines = match run::guarded(|| sweep(&segs, &ix, eps, most)) {
        Err(e) => return empty(o, &format!("panic: {}", &e[..e.len().min(120)])),
        Ok(None) => return None,
        Ok(Some(l)) => l,
    };
    if std::env::var("LSV_SHOW").is_ok() {
        eprintln!("eps {eps}");
        for (k, i) in ix.iter().enumerate() {
            let s = &segs[*i];
            eprintln!("seg {} {:?}", k + 1, s);
        }
        for l in &lines {
            eprintln!("y {} below {:?}", l.y, l.below);
            for r in &l.ranges {
                eprintln!("   old {:?} new {:?}", r.old, r.new);
                for e in &r.evs {
                    eprintln!("      {e:?}");
                }
            }
        }
    }
    let cub: Vec<CubicBez> = ix.iter().map(|i| segs[*i].to_kurbo_cubic()).collect();
    let hor: Vec<bool> = cub.iter().map(|c| c.p0.y == c.p3.y).collect();
    let rx = Ranks::new(cub.iter().flat_map(|c| [c.p0.x, c.p3.x]).chain(lines.iter().flat_map(|l| l.ranges.iter().flat_map(|r| r.evs.iter().flat_map(|e| [e.2, e.4]).chain(r.at.iter().map(|a| a.0))))));
    let ry = Ranks::new(cub.iter().flat_map(|c| [c.p0.y, c.p3.y]).chain(lines.iter().map(|l| l.y)));
    let cx = cub.first().map_or(0.0, |c| c.p0.x);
    let u = |x: f64| ((x - cx) / eps * 10.0).clamp(-1e9, 1e9);
    let mx = cub.iter().flat_map(|c| [c.p0, c.p1, c.p2, c.p3]).map(|p| p.x.abs().max(p.y.abs())).fold(0.0, f64::max);
    let win = 6.0 * eps + 1e-12 * mx;
    let fp = 1e-10 * mx;
    let iv = |s: usize, y: f64| {
        let (a, b) = x_range(&cub[s - 1], y - win, y + win);
        (a - fp, b + fp)
    };
    // Almost horizontal segments may take others along: near them the order is undetermined.
    let reach = |r: (f64, f64), flat: &[(f64, f64)]| {
        let (mut lo, mut hi) = r;
        loop {
            let before = (lo, hi);
            for (a, b) in flat {
                if *a <= hi + 3.0 * eps && *b >= lo - 3.0 * eps {
                    lo = lo.min(*a);
                    hi = hi.max(*b);
                }
            }
            if (lo, hi) == before {
                break;
            }
        }
        (lo, hi)
    };
    let flat_at = |y: f64| -> Vec<(f64, f64)> {
        (1..=ix.len())
            .filter(|s| cub[*s - 1].p0.y <= y + win && cub[*s - 1].p3.y >= y - win)
            .map(|s| iv(s, y))
            .filter(|(a, b)| b - a > 4.0 * win)
            .collect()
    };
    let mut ls = vec![];
    for (k, l) in lines.iter().enumerate() {
        let mut hs = vec![];
        if let Some(n) = lines.get(k + 1) {
            for y in [l.y, 0.5 * (l.y + n.y), n.y] {
                let flat = flat_at(y);
                hs.push(arr(l.below.iter().map(|s| {
                    let (a, b) = if *s == 0 { (0.0, 0.0) } else { reach(iv(*s, y), &flat) };
                    ints([u(a).floor() as i64, u(b).ceil() as i64])
                })));
            }
        }
        let flat = flat_at(l.y);
        let rs = arr(l.ranges.iter().map(|r| {
            Obj::new()
                .raw("o", ints(r.old.iter().map(|x| *x as i64)))
                .raw("n", ints(r.new.iter().map(|x| *x as i64)))
                .raw("e", arr(r.evs.iter().map(|(b, s, x0, a, x1, c)| {
                    let far = if *s == 0 || hor[*s - 1] {
                        0.0
                    } else {
                        let (lo, hi) = reach(iv(*s, l.y), &flat);
                        [*x0, *x1].iter().map(|x| (x - hi).max(lo - x).max(0.0)).fold(0.0, f64::max)
                    };
                    ints([*b as i64, *s as i64, rx.of(*x0), *a as i64, rx.of(*x1), *c as i64, (far / eps * 100.0).ceil().min(1e9) as i64])
                })))
                .raw("at", arr(r.at.iter().map(|(x, u, d)| format!("[{},{},{}]", rx.of(*x), ints(u.iter().map(|x| *x as i64)), ints(d.iter().map(|x| *x as i64))))))
                .end()
        }));
        let pos = |r: &Range| r.evs.iter().flat_map(|e| [e.2, e.4]).collect::<Vec<f64>>();
        let gaps = ints(l.ranges.windows(2).map(|w| {
            let (a, b) = (pos(&w[0]).into_iter().fold(f64::NEG_INFINITY, f64::max), pos(&w[1]).into_iter().fold(f64::INFINITY, f64::min));
            ((a - b).max(0.0) / eps * 100.0).ceil().min(1e9) as i64
        }));
        ls.push(Obj::new().raw("g", gaps).int("y", ry.of(l.y)).raw("b", ints(l.below.iter().map(|x| *x as i64))).raw("h", arr(hs)).raw("r", rs).end());
    }
    Some(
        o.str("st", "ok")
            .raw("segs", arr(cub.iter().zip(&hor).map(|(c, h)| ints([ry.of(c.p0.y), ry.of(c.p3.y), rx.of(c.p0.x), rx.of(c.p3.x), *h as i64]))))
            .raw("lines", arr(ls))
            .end(),
    )
}

fn main() {
    run::drive(record);
}
