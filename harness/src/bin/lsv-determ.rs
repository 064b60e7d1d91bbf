//! Makes the same calls on several threads and in another process, following schedules (P10).
use kurbo::{BezPath, PathEl, Point};
use linesweeper::topology::{BinaryWindingNumber, Contours, Topology};
use lsv_harness::gen::{self, Case};
use lsv_harness::json::*;
use lsv_harness::measure;
use lsv_harness::ops;
use lsv_harness::rng::Rng;
use lsv_harness::run::{self, Args};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Mutex, OnceLock};

#[derive(Clone)]
enum Call {
    /// operands, rule, operation, accuracy
    Op(BezPath, BezPath, usize, usize, Option<f64>),
    /// arrangement of a list of tagged paths
    Top(Vec<BezPath>, f64),
}

impl Call {
    fn name(&self) -> String {
        match self {
            Call::Op(_, _, r, o, e) => format!("op {r} {o} {}", e.map_or("auto".into(), |e| format!("{e:e}"))),
            Call::Top(p, e) => format!("topology of {} {e:e}", p.len()),
        }
    }
}

const T: usize = 3;

struct Fp {
    h: u64,
    n: u64,
}

impl Fp {
    fn u(&mut self, v: u64) {
        for b in v.to_le_bytes() {
            self.h = (self.h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.n += 1;
    }
    fn p(&mut self, p: Point) {
        self.u(p.x.to_bits());
        self.u(p.y.to_bits());
    }
    fn path(&mut self, p: &BezPath) {
        for e in p.elements() {
            match *e {
                PathEl::MoveTo(a) => {
                    self.u(1);
                    self.p(a)
                }
                PathEl::LineTo(a) => {
                    self.u(2);
                    self.p(a)
                }
                PathEl::QuadTo(a, b) => {
                    self.u(3);
                    self.p(a);
                    self.p(b)
                }
                PathEl::CurveTo(a, b, c) => {
                    self.u(4);
                    self.p(a);
                    self.p(b);
                    self.p(c)
                }
                PathEl::ClosePath => self.u(5),
            }
        }
        self.u(6);
    }
    fn contours(&mut self, c: &Contours) {
        for k in c.contours() {
            self.path(&k.path);
            self.u(k.parent.map_or(u64::MAX, |p| p.0 as u64));
            self.u(k.outer as u64);
        }
        for g in c.grouped() {
            g.iter().for_each(|i| self.u(i.0 as u64));
            self.u(7);
        }
    }
}

fn fingerprint(c: &Call) -> [i64; 3] {
    let mut f = Fp { h: 0xcbf29ce484222325, n: 0 };
    let r: Result<(), String> = match c {
        Call::Op(a, b, rule, op, eps) => ops::call(a, b, *rule, *op, *eps).map(|cs| f.contours(&cs)).map_err(|e| format!("{e:?}")),
        Call::Top(ps, eps) => run::guarded(|| {
            let Ok(t) = Topology::<BinaryWindingNumber>::from_paths_binary(&ps[0], &ps[1], *eps) else { return };
            for s in t.segment_indices() {
                for h in [s.first_half(), s.second_half()] {
                    f.p((*t.point(h)).into());
                    for w in [t.winding_clockwise(h), t.winding_counter_clockwise(h)] {
                        f.u(w.shape_a as u64);
                        f.u(w.shape_b as u64);
                    }
                }
            }
            let pos = t.compute_positions();
            for s in t.segment_indices() {
                f.path(&pos[s].path);
            }
            f.contours(&t.contours(|w| (w.shape_a + w.shape_b) % 2 != 0));
        }),
    };
    if let Err(e) = r {
        e.bytes().for_each(|b| f.u(b as u64));
        f.n = 0;
    }
    [(f.h & 0x3fff_ffff) as i64, (f.h >> 34) as i64, (f.n & 0xfff_ffff) as i64]
}

fn calls(args: &Args, r: &mut Rng, i: u64) -> Option<(Vec<Call>, String)> {
    let c = measure::case(&args.mode, r, i, &args.rest)?;
    let key = run::fnv(&[&c.a.to_svg(), &c.b.to_svg()]);
    let eps = ops::eps_of(&c);
    let (rule, op) = (r.below(2), r.below(4));
    let other: Case = if r.chance(0.5) { gen::int_case(r) } else { gen::curve_case(r) };
    let near = gen::reclose(&gen::jitter(r, &c.b, 3.0 * eps));
    let mut v = vec![
        Call::Op(c.a.clone(), c.b.clone(), rule, op, c.eps),
        Call::Op(c.a.clone(), c.b.clone(), 1 - rule, op, c.eps),
        Call::Op(c.a.clone(), c.b.clone(), rule, (op + 1 + r.below(3)) % 4, c.eps),
        Call::Op(c.a.clone(), c.b.clone(), rule, op, Some(eps * 4.0)),
    ];
    v.push(match r.below(3) {
        0 => Call::Op(c.b.clone(), c.a.clone(), rule, op, c.eps),
        1 => Call::Op(c.a.clone(), near, rule, op, c.eps),
        _ => Call::Op(other.a.clone(), other.b.clone(), rule, op, other.eps),
    });
    v.push(Call::Top(vec![c.a, c.b], eps));
    Some((v, key))
}

struct Pool {
    to: Vec<Sender<Call>>,
    from: Vec<Mutex<Receiver<[i64; 3]>>>,
}

/// Threads that live as long as the process, so that they see many calls.
fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut p = Pool { to: vec![], from: vec![] };
        for _ in 0..T {
            let (a, b) = channel::<Call>();
            let (c, d) = channel();
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || b.into_iter().for_each(|x| c.send(fingerprint(&x)).unwrap())).unwrap();
            p.to.push(a);
            p.from.push(Mutex::new(d));
        }
        p
    })
}

fn child(args: &Args, i: u64) -> Option<Vec<[i64; 3]>> {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.args(["child", &args.mode, &args.seed.to_string(), &i.to_string()]).args(&args.rest);
    let o = c.output().ok()?;
    let s = String::from_utf8(o.stdout).ok()?;
    let v: Vec<i64> = s.split_whitespace().map(|x| x.parse().unwrap()).collect();
    Some(v.chunks(3).map(|k| [k[0], k[1], k[2]]).collect())
}

fn record(args: &Args, i: u64) -> Option<String> {
    let mut r = Rng::sub(args.seed, i);
    let (cs, key) = calls(args, &mut r, i)?;
    let arg = |p: &str| args.rest.iter().find_map(|x| x.strip_prefix(p).map(|s| s.to_string()));
    let l = line(&arg("prog=")?, i % arg("of=")?.parse::<u64>().unwrap())?;
    let prog: Vec<Vec<i64>> = l.get("prog").arr().iter().map(|s| s.ints()).collect();
    let names = arr(cs.iter().map(|c| quote(&c.name())));
    let o = Obj::new().int("id", i as i64).str("fam", &args.mode).str("key", &key).int("nt", T as i64).int("nc", cs.len() as i64).raw("calls", &names);
    if let Some(d) = &args.dead {
        return Some(o.str("st", d).raw("ev", "[]").end());
    }
    let p = pool();
    let mut busy = [0usize; T];
    let mut ev = vec![];
    for e in &prog {
        let t = (e[1] - 1).max(0) as usize;
        match e[0] {
            1 => {
                busy[t] = e[2] as usize;
                p.to[t].send(cs[e[2] as usize - 1].clone()).unwrap();
                ev.push(ints([1, e[1], e[2]]));
            }
            2 => {
                let f = p.from[t].lock().unwrap().recv().unwrap();
                ev.push(ints([2, e[1], busy[t] as i64, f[0], f[1], f[2]]));
            }
            _ => {
                let Some(v) = child(args, i) else { panic!("no child process") };
                v.iter().enumerate().for_each(|(k, f)| ev.push(ints([3, 0, k as i64 + 1, f[0], f[1], f[2]])));
            }
        }
    }
    Some(o.str("st", "ok").raw("ev", arr(ev)).end())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() > 4 && a[1] == "child" {
        run::install_hook();
        let args = Args { mode: a[2].clone(), seed: a[3].parse().unwrap(), dead: None, rest: a[5..].to_vec() };
        let i = a[4].parse().unwrap();
        let (cs, _) = calls(&args, &mut Rng::sub(args.seed, i), i).unwrap();
        let mut f: Vec<[i64; 3]> = cs.iter().rev().map(fingerprint).collect();
        f.reverse();
        f.iter().for_each(|f| println!("{} {} {}", f[0], f[1], f[2]));
        return;
    }
    run::drive(record);
}
