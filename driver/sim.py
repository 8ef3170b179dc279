"""Running programs under simos, and the search / minimise / replay / evidence machinery."""
import collections, hashlib, itertools, json, multiprocessing, os, queue, random, shutil, signal, subprocess, sys, tempfile, time, traceback
import build

VERIF = build.VERIF
CPU_LIMIT = 25          # seconds of processor time for one simulated run
WALL_LIMIT = 120

_dir = None
def workdir():
    global _dir
    if _dir is None or not os.path.isdir(_dir) or not os.path.basename(_dir).startswith("vsim-%d-" % os.getpid()):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        _dir = tempfile.mkdtemp(prefix="vsim-%d-" % os.getpid(), dir=base)
    return _dir

def cleanup_workdir():
    global _dir
    if _dir and os.path.basename(_dir).startswith("vsim-%d-" % os.getpid()):
        shutil.rmtree(_dir, ignore_errors=True)
        _dir = None

class Res:
    """Outcome of one simulated run."""
    __slots__ = ("rc", "ev", "steps", "sim_ns", "schedhash", "nswitch", "digest", "end", "hang", "text")
    def has(self, kind):
        return any(e[2] == kind for e in self.ev)

ENV = {"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0", "RUST_LOG": "off", "HOME": "/nonexistent", "LANG": "C.UTF-8"}

def run(scn, prog, args, env=None, cpu=CPU_LIMIT):
    d = workdir()
    sc, tf = os.path.join(d, "sc"), os.path.join(d, "tr")
    with open(sc, "w") as f:
        f.write(scn)
    e = dict(ENV)
    if env:
        e.update(env)
        e = {k: v for k, v in e.items() if v is not None}
    hang = False
    try:
        p = subprocess.run([build.LAUNCH, "sc", "tr", build.SIMOS, str(cpu), prog] + list(args), env=e,
                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=WALL_LIMIT, cwd=d)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, hang = -9, True
    r = Res()
    r.rc = rc
    r.hang = hang or rc in (-signal.SIGXCPU, -signal.SIGKILL)
    try:
        with open(tf, "rb") as f:
            h = f.read(64)
            n = int.from_bytes(h[0:8], "little")
            body = f.read(n)
    except OSError:
        raise RuntimeError("no trace")
    r.steps = int.from_bytes(h[8:16], "little")
    r.sim_ns = int.from_bytes(h[16:24], "little")
    r.schedhash = int.from_bytes(h[24:32], "little")
    r.nswitch = int.from_bytes(h[32:40], "little")
    r.digest = hashlib.sha256(body).hexdigest()[:24]
    r.text = body.decode("utf-8", "replace")
    r.ev = []
    r.end = None
    for l in r.text.split("\n"):
        if not l:
            continue
        x = l.split(" ", 3)
        k = x[2] if len(x) > 2 else ""
        rest = x[3] if len(x) > 3 else ""
        r.ev.append((int(x[0]), int(x[1]), k, rest))
        if k == "EXIT":
            r.end = "exit"
        elif k == "END":
            r.end = "end" + rest
        elif k == "SIMERROR":
            raise RuntimeError("simulator: " + rest)
    if rc in (97, 98, 99) or not r.ev:
        raise RuntimeError("simulator failed to start: rc %d" % rc)
    return r

def died(r):
    """A crash of the program: signal or nonzero status that is not an end of the simulation."""
    return r.hang or r.rc < 0 or (r.end in ("exit", None) and r.rc != 0)

def panic_text(r):
    out = b"".join(bytes.fromhex(e[3]) for e in r.ev if e[2] in ("OUT2", "LOG"))
    t = out.decode("utf-8", "replace")
    i = t.find("panicked at")
    return t[i:i + 200].replace("\n", " ") if i >= 0 else ""

class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls, self.msg = cls, msg

class Stats:
    def __init__(self):
        self.c = collections.Counter()
        self.sched = set()
        self.behav = set()
        self.runs = 0
        self.sim_ns = 0
        self.steps = 0
        self.switches = 0
        self.nontrivial = set()
    def add(self, r):
        self.runs += 1
        self.sim_ns += r.sim_ns
        self.steps += r.steps
        self.switches += r.nswitch
        self.sched.add(r.schedhash & 0xffffffffffff)
        self.behav.add(r.digest)
        for e in r.ev:
            if e[2] == "F":
                self.c["fault:" + e[3].split(" ")[0]] += 1
            elif e[2] in ("CRST", "FIN", "CCLOSE", "SIG", "CONN", "REFUSED", "UNLISTEN"):
                self.c["event:" + e[2].lower()] += 1
    def merge(self, o):
        self.c.update(o.c)
        self.sched |= o.sched
        self.behav |= o.behav
        self.runs += o.runs
        self.sim_ns += o.sim_ns
        self.steps += o.steps
        self.switches += o.switches
        self.nontrivial |= o.nontrivial

class Check:
    """One property's check. Subclasses define gen(rng, i) -> case (JSON value), judge(case, stats)
    raising Violation, and shrink(case) yielding simpler cases."""
    prop = None
    quick_n, thorough_n = 200, 4000
    quick_s, thorough_s = 45, 600
    needs = ("eval",)
    rule = ""
    assumptions = []
    real = []
    stub = []
    def prepare(self, seed): pass
    def gen(self, rng, i): raise NotImplementedError
    def judge(self, case, stats): raise NotImplementedError
    def shrink(self, case): return ()
    def sample(self, case): return case
    def extra(self): return {}

CHECK = None
def _winit():
    signal.signal(signal.SIGINT, signal.SIG_IGN)

def case_seed(prop, seed, i):
    return int.from_bytes(hashlib.sha256(("%s/%d/%d" % (prop, seed, i)).encode()).digest()[:8], "little")

def _work(a):
    seed, i = a
    st = Stats()
    rng = random.Random(case_seed(CHECK.prop, seed, i))
    try:
        case = CHECK.gen(rng, i)
        try:
            CHECK.judge(case, st)
        except Violation as v:
            return i, case, (v.cls, v.msg), st, None
        return i, (case if i < 3 else None), None, st, None
    except Exception:
        return i, None, None, st, traceback.format_exc()

def judge_once(case):
    st = Stats()
    try:
        CHECK.judge(case, st)
    except Violation as v:
        return (v.cls, v.msg)
    return None

def _judge_safe(case):
    try:
        return judge_once(case)
    except Exception:
        return None

def minimise(pool, case, cls, budget):
    t0 = time.time()
    tried = 0
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        batch = []
        gen = iter(CHECK.shrink(case))
        while True:
            batch = []
            for c in gen:
                batch.append(c)
                if len(batch) >= (8 if cls == "hang" else 16):
                    break
            if not batch or time.time() - t0 > budget:
                break
            rs = pool.map(_judge_safe, batch, chunksize=1)
            tried += len(batch)
            hit = [c for c, r in zip(batch, rs) if r and r[0] == cls]
            if hit:
                case = min(hit, key=lambda c: len(json.dumps(c)))
                progress = True
                break
    return case, tried

def known_findings():
    out = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for l in f:
                l = l.strip()
                if l.startswith("known: "):
                    out.append(json.loads(l[len("known: "):]))
    except OSError:
        pass
    return out

def write_evidence(chk, tier, seed, st, wall, nviol, samples, evals, extra):
    if os.environ.get("VERIF_NOEV"): return
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(st.nontrivial),
        "rule": chk.rule,
        "samples": samples,
        "simulated_runs": st.runs,
        "runs_per_hour": int(st.runs / wall * 3600) if wall > 0 else 0,
        "seeds_per_hour": int(evals / wall * 3600) if wall > 0 else 0,
        "simulated_seconds": round(st.sim_ns / 1e9, 3),
        "scheduler_steps": st.steps,
        "thread_switches": st.switches,
        "faults_injected": {k[6:]: v for k, v in sorted(st.c.items()) if k.startswith("fault:")},
        "world_events": {k[6:]: v for k, v in sorted(st.c.items()) if k.startswith("event:")},
        "probes": {k[6:]: v for k, v in sorted(st.c.items()) if k.startswith("probe:")},
        "distinct_interleavings": len(st.sched),
        "interleaving_measure": "distinct hashes of the sequence of (chosen thread, blocking reason) scheduling decisions",
        "distinct_traces": len(st.behav),
        "components_real": chk.real,
        "components_stubbed": chk.stub,
    }
    cov.update(extra)
    e = {"property": chk.prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": chk.assumptions, "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", chk.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(e, f, indent=1, ensure_ascii=False)
    os.replace(p + ".tmp", p)

def main(chk, argv):
    global CHECK
    CHECK = chk
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    i = 0
    nmax = smax = None
    workers = os.cpu_count() or 4
    start = 0
    shrink = 60.0
    while i < len(argv):
        if argv[i] == "--tier": tier = argv[i + 1]; i += 2
        elif argv[i] == "--seed": seed = int(argv[i + 1]); i += 2
        elif argv[i] == "--replay": replay = argv[i + 1]; i += 2
        elif argv[i] == "--n": nmax = int(argv[i + 1]); i += 2
        elif argv[i] == "--start": start = int(argv[i + 1]); i += 2
        elif argv[i] == "--secs": smax = float(argv[i + 1]); i += 2
        elif argv[i] == "--shrink": shrink = float(argv[i + 1]); i += 2
        elif argv[i] == "--workers": workers = int(argv[i + 1]); i += 2
        else: i += 1
    try:
        build.ensure(chk.needs)
    except build.BuildError as e:
        print("BUILD-ERROR\n%s" % e, file=sys.stderr)
        return 3
    print("seed %d tier %s property %s" % (seed, tier, chk.prop))
    t0 = time.time()
    try:
        try:
            chk.prepare(seed)
        except Violation as v:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s-prepare.json" % chk.prop)
            with open(rp, "w") as f:
                json.dump({"property": chk.prop, "class": v.cls, "message": v.msg, "prepare": True, "seed": seed}, f, indent=1)
            print("%s: %s" % (v.cls, v.msg))
            print("VIOLATION property=%s replay=%s" % (chk.prop, rp))
            write_evidence(chk, tier, seed, Stats(), time.time() - t0, 1, [], 1, {})
            return 1
        if replay:
            with open(replay) as f:
                rec = json.load(f)
            r = judge_once(rec["case"])
            print("replay:", r)
            if r:
                print("VIOLATION property=%s replay=%s" % (chk.prop, replay))
                return 1
            return 0
        n = nmax or (chk.quick_n if tier == "quick" else chk.thorough_n)
        cap = smax or (chk.quick_s if tier == "quick" else chk.thorough_s)
        kf = [k for k in known_findings() if k["property"] == chk.prop]
        st = Stats()
        samples, errors, unrepro = [], [], []
        found = None
        evals = 0
        known_seen = collections.Counter()
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(workers, initializer=_winit) as pool:
            # determinism self-test: some cases twice, traces must be identical
            det = pool.map(_det, [(seed, start + j) for j in range(4) for _ in (0, 1)], chunksize=1)
            mism = sum(1 for j in range(0, len(det), 2) if det[j] != det[j + 1])
            if mism:
                print("WARNING: %d of %d determinism self-tests diverged" % (mism, len(det) // 2), file=sys.stderr)
            # a bounded number of cases under way, so that whatever is asked next does not wait behind them
            done, ahead, stop, t1 = queue.Queue(), 0, None, time.time()
            for j in itertools.count():
                while not stop and ahead < n and ahead - j < 2 * workers:
                    pool.apply_async(_work, ((seed, start + ahead),), callback=done.put, error_callback=lambda e: done.put((0, None, None, Stats(), repr(e))))
                    ahead += 1
                if j >= ahead: break
                # when the time is over the cases under way are waited for: one that hangs is a violation too
                try: i, case, v, s, err = done.get(timeout=max(.1, stop + 240 - time.time()) if stop else 600)
                except queue.Empty:
                    if not stop: errors.append("a case does not come back")
                    break
                evals += 1
                st.merge(s)
                if err:
                    errors.append(err)
                    if len(errors) > 3:
                        break
                if case is not None and v is None and len(samples) < 3:
                    samples.append(chk.sample(case))
                if v:
                    k = [k for k in kf if k["class"] == v[0] and k.get("match", "") in v[1]]
                    if k:
                        known_seen[k[0]["what"]] += 1
                        continue
                    again = pool.apply(_judge_safe, (case,))
                    if not again or again[0] != v[0]:
                        unrepro.append((i, v))
                        continue
                    found = (i, case, v)
                    break
                if time.time() - t1 > cap and not stop: stop = time.time()
            if found:
                i, case, v = found
                print("case %d: %s: %s" % (i, v[0], v[1][:1500]))
                case, tried = minimise(pool, case, v[0], shrink)
                v = pool.apply(_judge_safe, (case,)) or v
            pool.terminate()
        for k in kf:
            print("KNOWN-FINDING: property=%s %s" % (chk.prop, k["what"]))
        wall = time.time() - t0
        extra = {"determinism_selftests": len(det) // 2, "determinism_divergences": mism, "unreproducible": len(unrepro)}
        if known_seen:
            extra["known_findings_hit"] = dict(known_seen)
        extra.update(chk.extra())
        write_evidence(chk, tier, seed, st, wall, 1 if found else 0, samples or [None], evals, extra)
        if errors and not found:
            print("HARNESS-ERROR\n%s" % errors[0], file=sys.stderr)
            return 3
        if found:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (chk.prop, seed, i))
            with open(rp, "w") as f:
                json.dump({"property": chk.prop, "seed": seed, "index": i, "class": v[0], "message": v[1], "case": case, "shrink_runs": tried,
                           "replay_cmd": "python3 driver/check.py %s --replay %s" % (chk.prop, rp)}, f, indent=1, ensure_ascii=False)
            print("minimised: %s: %s" % (v[0], v[1][:1500]))
            print("VIOLATION property=%s replay=%s" % (chk.prop, rp))
            return 1
        print("ok: %d cases, %d runs, %d distinct interleavings, %.1f s" % (evals, st.runs, len(st.sched), wall))
        if unrepro:
            print("note: %d unreproducible: %r" % (len(unrepro), unrepro[:2]), file=sys.stderr)
        return 0
    finally:
        cleanup_workdir()
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        for x in os.listdir(base):
            if x.startswith("vsim-"):
                try:
                    pid = int(x.split("-")[1])
                    os.kill(pid, 0)
                except (ValueError, OSError):
                    shutil.rmtree(os.path.join(base, x), ignore_errors=True)

def _det(a):
    i, case, v, s, err = _work(a)
    return (sorted(s.behav), sorted(s.sched), s.steps, v and v[0])
