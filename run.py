#!/usr/bin/env python3
"""run.py <PROPERTY> quick|thorough   decide one property
   run.py setup                       build the harness
   run.py replay <file>               re-run the case a VIOLATION line points to

A property is decided by a list of stages (see stages.py):
  Model  TLC explores a design-level specification exhaustively (no code involved);
  Gen    TLC generates behaviours of a specification, which a harness program replays into the code;
  Trace  a harness program runs the real code on generated inputs and records what happened; TLC
         checks every record against a trace specification.
Exit 0: held.  Exit 1: VIOLATION lines.  Exit 2: the check itself failed.
"""
import hashlib, json, os, re, resource, shutil, subprocess, sys, time, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(HERE, ".build")
SPEC = os.path.join(HERE, "spec")
REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NSHARD = 8
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


class ToolError(Exception):
    pass


# ------------------------------------------------------------------ building

def repo_hash():
    h = hashlib.sha256()
    fs = [os.path.join(REPO, "Cargo.toml")]
    for d, dn, fn in os.walk(os.path.join(REPO, "src")):
        dn.sort()
        fs += [os.path.join(d, f) for f in sorted(fn)]
    for f in fs:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=BUILD, CARGO_NET_OFFLINE="true")
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "repo.hash")
    now = repo_hash()
    old = open(stamp).read() if os.path.exists(stamp) else ""
    hd = os.path.join(HERE, "harness")
    if old and old != now:
        # do not rely on file times alone
        subprocess.run(["cargo", "clean", "--release", "--offline", "-p", "linesweeper"], cwd=hd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if old != now and os.path.exists(stamp):
        os.remove(stamp)
    p = subprocess.run(["cargo", "build", "--release", "--offline"], cwd=hd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-4000:])
        raise ToolError("the harness does not build against /repo")
    with open(stamp, "w") as f:
        f.write(now)


def bin_path(name):
    return os.path.join(BUILD, "release", name)


# ------------------------------------------------------------------ running the real code

def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_shard(binary, mode, seed, start, end, out, args, deadline, env0):
    """One shard; survives hangs and crashes of the code under test."""
    step = NSHARD
    pos = start
    dead = 0
    while pos < end:
        env = dict(os.environ, **env0)
        env.pop("LSV_DEAD", None)
        cmd = [binary, mode, str(seed), str(pos), str(step), str(end), out] + args
        try:
            p = subprocess.run(cmd, env=env, preexec_fn=limit_mem, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                               timeout=max(5, deadline - time.time()))
        except subprocess.TimeoutExpired:
            raise ToolError(f"{os.path.basename(binary)} {mode}: out of time")
        if p.returncode == 0:
            return dead
        if p.returncode == 2:
            raise ToolError(f"{' '.join(cmd)}: {p.stderr.decode(errors='replace')[-500:]}")
        cur = open(out + ".cur").read() if os.path.exists(out + ".cur") else ""
        if not cur.isdigit():
            raise ToolError(f"{' '.join(cmd)}: exit {p.returncode} without progress: {p.stderr.decode(errors='replace')[-500:]}")
        at = int(cur)
        # drop a half written line
        with open(out, "rb+") as f:
            data = f.read()
            if data and not data.endswith(b"\n"):
                f.truncate(data.rfind(b"\n") + 1)
        env["LSV_DEAD"] = "hang" if p.returncode == 42 else "crash"
        cmd = [binary, mode, str(seed), str(at), "1", str(at + 1), out] + args
        q = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if q.returncode != 0:
            raise ToolError(f"{' '.join(cmd)}: cannot record a dead case: {q.stderr.decode(errors='replace')[-500:]}")
        dead += 1
        if dead >= 2:
            return dead
        pos = at + step
    return dead


def run_bin(binary, mode, seed, n, out, args=(), env=None, start=0, budget=800):
    for k in range(NSHARD):
        for s in ("", ".cur"):
            if os.path.exists(f"{out}.{k}{s}"):
                os.remove(f"{out}.{k}{s}")
    deadline = time.time() + budget
    with ThreadPoolExecutor(NSHARD) as ex:
        fs = [ex.submit(run_shard, bin_path(binary), mode, seed, start + k, start + n, f"{out}.{k}", list(args), deadline, env or {}) for k in range(NSHARD)]
        dead = sum(f.result() for f in fs)
    lines = []
    for k in range(NSHARD):
        fn = f"{out}.{k}"
        if os.path.exists(fn):
            with open(fn, encoding="utf-8") as f:
                lines += [l for l in f if l.strip()]
            os.remove(fn)
        if os.path.exists(fn + ".cur"):
            os.remove(fn + ".cur")
    return lines, dead


# ------------------------------------------------------------------ TLC

def tlc(module, cfg_text, tag, work, env=None, workers=2, mem="3g", extra=(), timeout=1500):
    cfg = os.path.join(work, f"{tag}.cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    meta = os.path.join(work, f"{tag}.meta")
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(2, workers)}", f"-Xmx{mem}", "-Xss64m", "-cp", JARS, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ, **(env or {}))
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC {module} {tag}: timeout")
    shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout
    ok = "Model checking completed. No error has been found." in out or (p.returncode == 0 and "-simulate" in extra)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dist = (int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))) if m else (0, 0)
    return ok, out, gen, dist


def cfg_of(consts, spec="Spec", invs=(), props=(), constraint=None, deadlock=False, more=""):
    t = [f"SPECIFICATION {spec}"] if spec else []
    if consts:
        t.append("CONSTANTS")
        t += [f"  {k} = {v}" if not str(v).startswith("<-") else f"  {k} {v}" for k, v in consts.items()]
    if invs:
        t.append("INVARIANTS " + " ".join(invs))
    if props:
        t.append("PROPERTIES " + " ".join(props))
    if constraint:
        t.append("CONSTRAINT " + constraint)
    t.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    return "\n".join(t) + "\n" + more


# ------------------------------------------------------------------ one check

class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.quick = tier == "quick"
        self.work = os.path.join(HERE, "work", pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.judged = 0
        self.samples, self.stages, self.viol, self.known = [], [], [], []
        self.findings = load_findings()
        self.t0 = time.time()
        self.lock = threading.Lock()

    # -- a design model
    def model(self, module, consts=None, min_states=1, tag=None, workers=8, mem="8g", fails=None, **kw):
        """fails: the invariant that has to fail (a rule of the design has been left out)."""
        tag = tag or module
        t = time.time()
        ok, out, gen, dist = tlc(module, cfg_of(consts, **kw), tag, self.work, workers=workers, mem=mem, extra=("-seed", str(SEED)))
        if fails:
            if f"Invariant {fails} is violated" not in out:
                print(out[-6000:])
                raise ToolError(f"model {module}: {fails} was expected to fail")
            self.stages.append({"stage": "model", "module": module, "tag": tag, "constants": consts or {}, "fails_as_expected": fails, "wall_s": round(time.time() - t, 1)})
            return
        if not ok:
            print(out[-6000:])
            raise ToolError(f"model {module}: TLC reports an error")
        if dist < min_states:
            raise ToolError(f"model {module}: only {dist} states")
        self.states += dist
        self.transitions += gen
        self.stages.append({"stage": "model", "module": module, "tag": tag, "constants": consts or {}, "distinct_states": dist, "states_generated": gen, "wall_s": round(time.time() - t, 1)})

    # -- behaviours generated by TLC, to be replayed
    def generate(self, module, consts, num, depth, out, tag=None, simulate=True, workers=1, **kw):
        """Collects the lines GEN|<json> that the specification prints."""
        tag = tag or module
        t = time.time()
        extra = ["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(SEED)] if simulate else []
        ok, o, gen, dist = tlc(module, cfg_of(consts, **kw), tag, self.work, workers=workers, mem="6g", extra=extra)
        rows = []
        for l in o.splitlines():
            if l.startswith('"GEN|'):
                rows.append(l[5:-1].replace('\\"', '"'))
        if not ok or not rows:
            print(o[-4000:])
            raise ToolError(f"generation from {module} failed")
        rows = sorted(set(rows))
        with open(out, "w") as f:
            f.write("\n".join(rows) + "\n")
        self.states += dist
        self.transitions += gen
        self.stages.append({"stage": "generate", "module": module, "tag": tag, "behaviours": len(rows), "wall_s": round(time.time() - t, 1)})
        return rows

    # -- the real code, then TLC
    def trace(self, binary, mode, n, module, consts=None, args=(), min_judged=1, seed=None, start=0, chunk=None, invs=("TypeOK",), env=None, budget=800, tag=None, limit=None):
        t = time.time()
        seed = SEED if seed is None else seed
        tag = tag or f"{binary}-{mode}"
        tag = re.sub(r"[^A-Za-z0-9_.-]", "_", tag)
        out = os.path.join(self.work, f"{tag}.trace")
        env = dict(env or {})
        if limit:
            env["LSV_LIMIT"] = str(limit)
        lines, dead = run_bin(binary, mode, seed, n, out, args, env, start, budget)
        t1 = time.time()
        if not lines:
            raise ToolError(f"{binary} {mode}: no records")
        self.check_records(lines, tag, module, consts, min_judged, invs, chunk,
                           {"bin": binary, "mode": mode, "seed": seed, "args": list(args)}, dead, t1 - t)

    def check_records(self, lines, tag, module, consts, min_judged, invs, chunk, origin, dead=0, rec_s=0.0):
        t1 = time.time()
        size = sum(len(l) for l in lines)
        # several TLC processes with two workers each
        nproc = max(1, min(4, size // 300000 + 1))
        if chunk is None:
            chunk = max(1, min((len(lines) + nproc - 1) // nproc, max(1, int(len(lines) * 12e6 / max(size, 1)))))
        # deal the lines out so that chunks are alike
        k = (len(lines) + chunk - 1) // chunk
        parts = [lines[i::k] for i in range(k)]
        res = []

        def one(i):
            fn = os.path.join(self.work, f"{tag}.{i}.ndjson")
            with open(fn, "w", encoding="utf-8") as f:
                f.writelines(parts[i])
            ok, o, gen, dist = tlc(module, cfg_of(consts or {}, invs=invs), f"{tag}.{i}", self.work, env={"TRACE": fn}, workers=2 if k > 1 else 8, mem="3g" if k > 1 else "8g")
            return i, fn, ok, o, gen, dist

        with ThreadPoolExecutor(4) as ex:
            res = list(ex.map(one, range(k)))
        judged = 0
        st = {"stage": "trace", "module": module, "tag": tag, "constants": consts or {}, **origin, "records": len(lines), "processes_died": dead}
        for i, fn, ok, o, gen, dist in res:
            rej, done = [], {}
            for l in o.splitlines():
                if l.startswith('"REJECT|'):
                    rej.append(l[1:-1].split("|", 4)[1:])
                elif l.startswith('"DONE|'):
                    a = l[1:-1].split("|")
                    done[int(a[1])] = int(a[2])
            if not ok:
                i0 = o.find("Error:")
                print(o[i0:i0 + 3000] if i0 >= 0 else o[-3000:])
                raise ToolError(f"TLC stopped on {tag}.{i}")
            if len(done) != len(parts[i]):
                raise ToolError(f"{tag}.{i}: {len(done)} of {len(parts[i])} records reached the end")
            judged += sum(done.values())
            self.states += dist
            self.transitions += gen
            bad = set()
            for c, key, what, why in rej:
                c = int(c)
                bad.add(c)
                self.reject(tag, json.loads(parts[i][c - 1]), key, what, why.replace('\\"', '"'), origin, module, consts)
            self.traces += len(done) - len(bad)
            os.remove(fn)
        fams = {}
        for l in lines:
            m = re.search(r'"fam":"([^"]*)"', l)
            if m:
                fams[m.group(1)] = fams.get(m.group(1), 0) + 1
        st.update(judged=judged, families=fams, record_wall_s=round(rec_s, 1), tlc_wall_s=round(time.time() - t1, 1))
        self.stages.append(st)
        self.judged += judged
        if judged < min_judged and not self.viol:
            raise ToolError(f"{tag}: only {judged} judgements (expected at least {min_judged}): vacuous")
        if len(self.samples) < 4:
            l = min(lines[:200], key=len)
            self.samples.append({"stage": tag, "record": l.strip()[:1500]})

    def reject(self, tag, rec, key, what, why, origin, module, consts):
        for f in self.findings:
            if f["property"] == self.pid and f["key"] == key and f["match"] in (what + " " + why):
                if f not in self.known:
                    self.known.append(f)
                return
        n = len(self.viol)
        path = os.path.join(self.work, f"violation_{n}.json")
        if n < 50:
            with open(path, "w") as fh:
                json.dump({"property": self.pid, "stage": tag, "origin": origin, "module": module, "consts": consts, "what": what, "why": why[:4000], "key": key,
                           "case": rec.get("id"), "record": rec if len(json.dumps(rec)) < 200000 else {k: rec[k] for k in rec if not isinstance(rec[k], (list, dict))}}, fh)
        self.viol.append((path, tag, key, what, why[:300]))

    def finish(self):
        for f in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {f['what']}")
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                           "judgements": self.judged, "samples": self.samples, "stages": self.stages},
              "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        for st in self.stages:
            print("  " + ", ".join(f"{k}={st[k]}" for k in ("stage", "module", "tag", "records", "judged", "behaviours", "distinct_states", "wall_s", "record_wall_s", "tlc_wall_s") if k in st))
        print(f"{self.pid} {self.tier}: states={self.states} traces={self.traces} judgements={self.judged} wall={ev['wall_s']}s")
        if self.viol:
            for path, tag, key, what, why in self.viol[:5]:
                print(f"  {tag} key={key} {what} {why}")
                print(f"VIOLATION property={self.pid} replay={path}")
            print(f"{len(self.viol)} violations")
            return 1
        return 0


ASSUMPTIONS = [
    "TLC and the JVM evaluate the specification faithfully",
    "for inputs with curves, winding numbers and distances are measured by the harness's own flattening (independent of the code under test); for integer polygons the specification computes them exactly",
    "points closer to an input curve than the stated margin are not judged",
    "exploration of inputs is bounded; only the stated families are exhaustive",
]


def load_findings():
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) key=(\S+) match=\[(.*?)\] (.*)", l)
            if m:
                out.append({"property": m.group(1), "key": m.group(2), "match": m.group(3), "what": m.group(4)})
    return out


def main():
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        build()
        return 0
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    import stages
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    build()
    c = Check(pid, tier)
    stages.STAGES[pid](c)
    return c.finish()


def replay(path):
    """Runs the one case again on the current code and judges it."""
    v = json.load(open(path))
    build()
    o = v["origin"]
    work = os.path.join(HERE, "work", "replay")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    c = Check.__new__(Check)
    c.pid, c.tier, c.work, c.quick = v["property"], "quick", work, True
    c.states = c.transitions = c.traces = c.judged = 0
    c.samples, c.stages, c.viol, c.known, c.findings = [], [], [], [], load_findings()
    c.t0 = time.time()
    out = os.path.join(work, "one")
    env = dict(os.environ)
    subprocess.run([bin_path(o["bin"]), o["mode"], str(o["seed"]), str(v["case"]), "1", str(v["case"] + 1), out] + o["args"], env=env, stderr=subprocess.DEVNULL)
    lines = open(out).readlines()
    c.check_records(lines, "replay", v["module"], v["consts"], 0, ("TypeOK",), None, o)
    for _, tag, key, what, why in c.viol:
        print(key, what, why)
    print("reproduced" if c.viol else "not reproduced")
    return 1 if c.viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as e:
        print(f"TOOL ERROR: {e}")
        sys.exit(2)
