"""R01-R07: the interactive session and the one-shot commands under simos."""
import copy, json, random, re
import build, sim
from sim import Check, Violation
import replmodel as M
from replmodel import Session, Screen, Unknown, key_bytes, DEAD

REAL = ["eval binary (all of eval/ and prexel/ with their dependencies, unmodified)", "Rust standard library", "crossterm event parsing", "ctrlc signal thread"]
STUB = ["kernel interface: terminal, clock, timers, signals, futexes, epoll, pipes, semaphores, randomness, thread scheduling (simos)"]
ASSUME = ["the terminal is wide enough not to wrap and shows every character in one column",
          "threads are preempted only at system calls (and simulated stalls there)",
          "an escape sequence is not cut right behind its first byte (a lone ESC byte is the Esc key)"]

CORPUS = {
    "decimal": ["1.5+2.25", "10/4", "7 mod 4", "sqrt(16)", "max(3, 9, 4)", "sum(1.1,2.2)", "avg(2,4,9)", "3!", "floor(2.7)", "round(2.5)", "pi*2", "2(3+4)", "cos(0)", "ln(1)", "2^-1", "PI", "-5+3", "1/3", "ceil(-1.2)", "sin(1)", "exp(1)", "5!", "(2+3)(4-1)"],
    "float": ["1.5+2.25", "10/4", "7 mod 4", "sqrt(16)", "max(3, 9, 4)", "0.1+0.2", "avg(2,4,9)", "3!", "floor(2.7)", "pi*2", "2(3+4)", "cos(0)", "ln(2)", "2^-1", "1/3", "sin(1)", "exp(1)", "abs(-3.5)", "signum(-2)"],
    "integer": ["10/4", "7 mod 4", "sqrt(16)", "max(3, 9, 4)", "avg(2,4,9)", "3!", "2(3+4)", "10!", "abs(-7)", "signum(-9)", "-5+3", "2^20", "min(4,2,8)", "(2+3)(4-1)", "99 mod 10"],
    "complex": ["2+3i", "(1+2i)*(3-1i)", "sqrt(-4)", "i*i", "10/4", "2^3", "sum(1,2i)", "avg(2,4)", "exp(0)", "ln(1)", "3(2+1i)", "cos(0)", "(2+2i)/(1+1i)"],
    "binary": ["b101 and b110", "b101and b110", "b11or 4", "b101 | b010", "not 0", "~b11", "1 << 3", "b1000 >> 1", "5 xor 7", "1 > 0", "1 < 2", "b101 & 5", "b10 >= 1", "2 == b10", "1 != 1", "3 <= b10", "1 > 10", "b101 & b110 | 1", "not (1) and 3", "12 eq 12", "1 << 100"],
}
ERR = {
    "decimal": ["1+", "(1", "1)", "foo(1)", "unk+1", "1/0", "5 +* 3", "1 2", "x y", "x=", "a=1=2", "pi=3", "x=abc", "E = 4", "$nope", "*", "sqrt()", "y = 1+2", "@", "sqrt(-1)", "max(", ")", "79228162514264337593543950335+1"],
    "float": ["1+", "(1", "1)", "foo(1)", "unk+1", "5 +* 3", "1 2", "x=", "a=1=2", "pi=3", "x=abc", "$nope", "*", "y = 1+2", "@", ")"],
    "integer": ["1+", "(1", "1)", "foo(1)", "unk+1", "1/0", "5 +* 3", "1 2", "x=", "a=1=2", "pi=3", "x=abc", "$nope", "*", "y = 1+2", "@", ")", "1.5", "170141183460469231731687303715884105727+1", "2^200", "5 mod 0", "170141183460469231731687303715884105727*2"],
    "complex": ["1+", "(1", "1)", "foo(1)", "unk+1", "5 +* 3", "1 2", "x=", "a=1=2", "pi=3", "x=abc", "$nope", "*", "@", ")", "i = 2"],
    "binary": ["1 and", "(1", "1)", "foo(1)", "unk", "1 1", "x=", "a=1=2", "$nope", "and", "@", ")", "2"],
}
VARS = ["x", "y", "z", "total", "foo_1", "$a", "$b2", "$c0", "$10z_Z", "rate", "X", "Total"]

def gen_simple(rng, S):
    """A line of the simple grammar."""
    def atom(d):
        r = rng.random()
        names = [v for v in S.vars if isinstance(S.vars[v], int)]
        if r < 0.35 and names:
            n = rng.choice(names)
            return n
        if r < 0.5 and d > 0:
            return "(" + ex(d - 1) + ")"
        if r < 0.6 and d > 0:
            f = rng.choice(["sum", "max", "min", "product"])
            return f + "(" + ",".join(ex(d - 1) for _ in range(rng.randint(1, 3))) + ")"
        return str(rng.choice([0, 1, 2, 3, 5, 7, 10, 12, 99, 100, 1000, rng.randint(0, 9999)]))
    def ex(d):
        s = atom(d)
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            o = rng.choice(["+", "-", "*", "+", "-", "*", "^"])
            sp = rng.choice(["", "", " "])
            s += sp + o + sp + (str(rng.randint(0, 4)) if o == "^" else atom(d))
        return s
    return ex(rng.choice([0, 1, 1, 2]))

def gen_line(rng, S, mix):
    r = rng.random()
    t = S.typ
    if r < mix["assign"]:
        v = rng.choice(VARS)
        sp = rng.choice(["", " ", "  "])
        if t == "binary":
            val = rng.choice(["b" + bin(rng.randint(0, 255))[2:], str(rng.randint(0, 300))])
        elif t in ("complex",):
            val = str(rng.randint(0, 999))
        else:
            val = str(rng.choice([0, 1, 2, 42, -7, rng.randint(-999, 9999)]))
        if t in ("decimal", "float") and rng.random() < .15:
            val = "%d.%d" % (rng.randint(0, 99), rng.choice([5, 25, 125]))
        if rng.random() < .12: v = "$result"
        return v + sp + "=" + sp + val
    r = rng.random()
    if r < mix["err"]:
        return rng.choice(ERR[t])
    r = rng.random()
    if r < mix["blank"]:
        return rng.choice(["", " ", "   "])
    r = rng.random()
    if t not in ("decimal", "float", "integer") or r < mix["corpus"]:
        l = rng.choice(CORPUS[t])
        if rng.random() < .35:
            names = list(S.vars)
            n = rng.choice(names + ["$result", "$result"])
            if t == "binary": l = rng.choice(["%s and b101", "%s | 1", "%s xor 3", "not %s", "%s", "%s << 1", "%s == 5", "%s >= b11"]) % n
            elif t == "complex": l = rng.choice(["%s+1", "%s*2", "%s-1i", "%s"]) % n
            else: l = rng.choice(["%s+1", "%s*2", "3-%s", "%s", "2*%s+1"]) % n
        return l
    if rng.random() < .008:
        # a long line
        n = rng.choice([90, 130, 260, 400])
        return "1" + "".join(rng.choice("+-") + rng.choice(["1", "%d" % rng.randint(0, 999)]) for _ in range(n))
    return gen_simple(rng, S)

MIX0 = dict(assign=.2, err=.15, blank=.06, corpus=.25)

def try_keys(S, keys):
    """Apply keys to a copy of the session; None if the model does not cover them."""
    T = copy.deepcopy(S)
    try:
        for k in keys: T.key(k)
    except Unknown:
        return None
    return T


def type_line(rng, line, noise):
    ks = []
    if rng.random() < noise.get("extra_bs", 0): ks += ["BS"] * rng.randint(1, 2)
    for ch in line:
        if rng.random() < noise.get("typo", 0):
            g = [rng.choice(["1", "+", "*", "(", "q", "7", " ", "="] + (M.UTF if noise.get("utf") else [])) for _ in range(rng.randint(1, 3))]
            ks += g + ["BS"] * len(g)
        ks.append(ch)
        if rng.random() < noise.get("dead", 0): ks.append(rng.choice(list(DEAD)))
    return ks

def steps_from_keys(rng, keys, style):
    """Group keys into timed chunks."""
    steps = []
    i = 0
    while i < len(keys):
        if style == "one": n = 1
        elif style == "line":
            n = 1
            while i + n < len(keys) and keys[i + n - 1] not in ("Enter", "CR"): n += 1
        elif style == "paste": n = rng.choice([1, 5, 20, 60, 300])
        elif style == "big": n = 5000
        else: n = rng.choice([1, 1, 2, 3, 7, 15])
        ks = keys[i:i + n]; i += n
        if style == "one": d = rng.choice([500, 2000, 30000, 99000, 100000, 101000, 150000])
        else: d = rng.choice([0, 0, 50, 1000, 20000, 99950, 100050, 130000, 300000, 1200000])
        st = {"d": d, "k": ks}
        if rng.random() < .12:
            st["split"] = rng.choice([1, 2, 3, 5])
        if rng.random() < .1:
            st["sig"] = 28
        steps.append(st)
    return steps

def gen_cfg(rng, faults=True):
    c = {"seed": rng.getrandbits(48), "mode": rng.choice([0, 0, 2]), "pswitch": rng.choice([20, 200, 500, 900]), "cost": rng.choice([[200, 3000], [100, 50000], [1000, 400000]])}
    if faults:
        if rng.random() < .4: c["peintr"] = rng.choice([10, 50, 150])
        if rng.random() < .4: c["pshortw"] = rng.choice([50, 300, 700])
        if rng.random() < .3: c["jitter"] = rng.choice([500, 20000, 90000])
        if rng.random() < .3: c["pstall"] = [rng.choice([300, 3000, 20000]), rng.choice([500, 20000, 150000])]
        if rng.random() < .3: c["pspur"] = rng.choice([20, 200])
        if rng.random() < .08: c["penv"] = rng.choice([300, 1000])
        if rng.random() < .08: c["pfile"] = rng.choice([300, 1000])
    return c

def cfg_text(c):
    o = ["seed %d" % c["seed"], "mode %d" % c["mode"], "pswitch %d" % c["pswitch"], "cost %d %d" % tuple(c["cost"])]
    for k in ("peintr", "pshortw", "jitter", "pspur", "pshortr", "paccept", "cpus", "rtbase", "penv", "pfile"):
        if k in c: o.append("%s %d" % (k, c[k]))
    if "pstall" in c: o.append("pstall %d %d" % tuple(c["pstall"]))
    return "\n".join(o) + "\n"

def chunks_of(step):
    """Byte chunks of a step; a split never falls right behind an ESC that starts a sequence."""
    data = b"".join(key_bytes(k) for k in step["k"])
    n = step.get("split")
    if not n: return [data]
    out, cur = [], b""
    for j in range(len(data)):
        cur += data[j:j + 1]
        if len(cur) >= n and not (cur.endswith(b"\x1b")):
            out.append(cur); cur = b""
    if cur: out.append(cur)
    return out

def render(case):
    c = case["cfg"]
    end = sum(st["d"] for st in case["steps"]) + 10000000 + len(all_keys(case)) * c["cost"][1] * 100 // 1000
    s = cfg_text(c) + "tty 1\nend %d\nmaxsteps 4000000\nactor keys\nsleep %d\n" % (end, case.get("start", 50000))
    raw = False
    for i, st in enumerate(case["steps"]):
        if not raw and st.get("k") and i >= case.get("early", 0):
            raw = True
            s += "wraw 60000000\n"
        if st["d"]: s += "sleep %d\n" % st["d"]
        if "sig" in st: s += "sig %d\n" % st["sig"]
        ch = chunks_of(st) if st.get("k") else []
        for j, c in enumerate(ch):
            if j: s += "sleep %d\n" % 700
            if c: s += "key %s\n" % c.hex()
    return s

def args_of(case):
    a = []
    if case.get("nocolor"): a.append("--no-color")
    a += ["repl", "-t", case["type"]]
    if case.get("hist") is not None: a += ["--history", str(case["hist"])]
    return a

def all_keys(case):
    return [k for st in case["steps"] for k in st.get("k", [])]

def check_alive(r, what="the session"):
    if r.end == "end79" or r.hang:
        raise Violation("hang", "%s does not respond (%s)" % (what, "step limit" if r.end == "end79" else "processor time limit"))
    if sim.died(r):
        raise Violation("crash", "%s died: status %s %s" % (what, r.rc, sim.panic_text(r)))

def expected_screen(S, final):
    e = [M.PRE] + S.screen
    return e + [final]

def simple_step(st):
    """Only characters, Enter and Backspace: what the terminal driver's own line editing treats alike."""
    return "sig" not in st and "split" not in st and all(k in ("Enter", "CR", "BS") or len(k) == 1 and 32 <= ord(k) < 127 for k in st.get("k", []))

def run_case(case, st):
    r = sim.run(render(case), build.EVAL, args_of(case))
    st.add(r)
    return r

def walk_waits(case, r, visit):
    """Replays the trace: at every blocking wait for keys calls visit(screen, session_state, partial)."""
    S = Session(case["type"], 100 if case.get("hist") is None else case["hist"])
    scr = Screen()
    keys = all_keys(case)
    data = [key_bytes(k) for k in keys]
    ki, off = 0, 0
    for e in r.ev:
        scr.event(e, True)
        if e[2] == "TTYR":
            off += len(e[3]) // 2
            while ki < len(keys) and off >= len(data[ki]):
                off -= len(data[ki])
                S.key(keys[ki]); ki += 1
        elif e[2] == "WAIT" and e[1] == 0:
            visit(scr, S, off, e)
    return scr, S, ki == len(keys)

class ReplCheck(Check):
    needs = ("eval",)
    real, stub, assumptions = REAL, STUB, ASSUME
    quick_n, thorough_n = 20000, 400000
    quick_s, thorough_s = 35, 600
    noise = dict(typo=.05, dead=.03, extra_bs=.05)
    mix = MIX0
    def lines(self, rng): return rng.choice([1, 2, 3, 5, 8, 15]) if rng.random() < .99 else rng.choice([40, 80, 150])
    def gen_keys(self, rng, S):
        """One entered line (or other key group)."""
        for _ in range(20):
            if rng.random() < .15 and S.hist:
                ks = ["Up"] * rng.randint(1, 3) + ["Down"] * rng.choice([0, 0, 1])
                if rng.random() < .3: ks += ["BS", "1"]
                ks.append("Enter")
            else:
                ks = type_line(rng, gen_line(rng, S, self.mix), self.noise)
                ks.append(rng.choice(["Enter", "Enter", "CR"]))
            T = try_keys(S, ks)
            if T is not None and not T.ended: return ks, T
        ks = ["1", "Enter"]
        return ks, try_keys(S, ks) or S
    def gen(self, rng, i):
        case = {"type": rng.choice(M.TYPES + ["decimal"] * 3 + ["integer", "float"]), "hist": rng.choice([None, None, None, 3, 1, 10]), "nocolor": rng.random() < .3, "cfg": gen_cfg(rng, faults=rng.random() < .7)}
        S = Session(case["type"], 100 if case["hist"] is None else case["hist"])
        keys = []
        for _ in range(self.lines(rng)):
            ks, S = self.gen_keys(rng, S)
            keys += ks
        style = rng.choice(["one", "line", "mixed", "mixed", "paste", "big"])
        case["steps"] = steps_from_keys(rng, keys, style)
        case["steps"].append({"d": 800000, "k": list("exit") + ["Enter"]})
        return case
    def shrink(self, case):
        ss = case["steps"]
        n = len(ss)
        for size in (n // 2, n // 4, 4, 2, 1):
            if size < 1: continue
            for i in range(0, n - 1, size):
                c = dict(case); c["steps"] = ss[:i] + ss[min(i + size, n - 1):]
                if len(c["steps"]) < n: yield c
        for i, st in enumerate(ss[:-1]):
            ks = st.get("k", [])
            if len(ks) > 1:
                h = len(ks) // 2
                for part in (ks[:h], ks[h:]):
                    c = dict(case); c["steps"] = ss[:i] + [dict(st, k=part)] + ss[i + 1:]
                    yield c
                if len(ks) <= 30:
                    for j in range(len(ks)):
                        c = dict(case); c["steps"] = ss[:i] + [dict(st, k=ks[:j] + ks[j + 1:])] + ss[i + 1:]
                        yield c
            for f in ("split", "sig"):
                if f in st:
                    c = dict(case); t = dict(st); del t[f]; c["steps"] = ss[:i] + [t] + ss[i + 1:]
                    yield c
            if st["d"] not in (0, 1000):
                c = dict(case); c["steps"] = ss[:i] + [dict(st, d=1000)] + ss[i + 1:]
                yield c
        for f in ("peintr", "pshortw", "jitter", "pstall", "pspur", "penv", "pfile"):
            if f in case["cfg"]:
                c = dict(case); c["cfg"] = {k: v for k, v in case["cfg"].items() if k != f}
                yield c
        if case["cfg"]["mode"] != 0 or case["cfg"]["pswitch"] != 200:
            c = dict(case); c["cfg"] = dict(case["cfg"], mode=0, pswitch=200, cost=[200, 3000]); yield c
        if case.get("hist") is not None:
            c = dict(case); c["hist"] = None; yield c
    def late(self, evs, m, cls="late"):
        # bytes the terminal holds that the session never asked for
        unread, lastread, lastin, resized = 0, 0, 0, []
        for i, e in enumerate(evs):
            if e[2] == "TTYIN": unread += len(e[3]) // 2; lastin = i
            elif e[2] == "TTYR": unread -= len(e[3]) // 2; lastread = len(e[3]) // 2
            elif e[2] == "SIG" and e[3].startswith("28"): resized.append(i)
        if unread > 0:
            # did the wake-up for these bytes come together with a resize?
            prev = [i for i, e in enumerate(evs) if e[2] == "WAIT" and i < lastin]
            nxt = [i for i, e in enumerate(evs) if e[2] == "WAIT" and i > lastin]
            if any((prev[-1] if prev else 0) - 3 <= j <= (nxt[0] if nxt else len(evs)) for j in resized): return Violation("stuck-resize", m)
            if any(len(e[3]) // 2 >= 1024 for e in evs if e[2] == "TTYR"): return Violation("stuck-1024", m)
        return Violation(cls, m)
    def unread(self, r, st):
        """The session left keys unread for one of the reasons R01 reports: nothing to judge here."""
        if r.end == "exit" or self.late(r.ev, "").cls not in ("stuck-resize", "stuck-1024"): return False
        st.c["probe:unread_keys_left_to_R01"] += 1
        return True
    def covers(self, case):
        S = Session(case["type"], 100 if case.get("hist") is None else case["hist"])
        T = try_keys(S, all_keys(case))
        return T is not None and T.ended

class R01(ReplCheck):
    prop = "R01"
    def patience(self, case):
        c = case["cfg"]
        return 1000000 + len(all_keys(case)) * c["cost"][1] * 60 // 1000 + c.get("jitter", 0) * 2 + (c["pstall"][1] * (2 + len(all_keys(case)) * 60 * c["pstall"][0] // 1000000 * 2) if "pstall" in c else 0)
    def gen(self, rng, i):
        case = ReplCheck.gen(self, rng, i)
        case["steps"][-1]["d"] = self.patience(case) + 100000
        if rng.random() < .15:    # typed ahead, before the session has taken over the terminal
            n = 0
            while n < len(case["steps"]) - 1 and simple_step(case["steps"][n]): n += 1
            case["early"] = rng.randint(0, min(n, 6))
            case["start"] = rng.choice([0, 300, 2000, 8000, 30000])
        return case
    rule = "a case is a key sequence (typed, edited and recalled lines) with a seeded split into reads and pauses plus faults; non-trivial when at least one line is evaluated and some chunking, fault or pause differs from one key per tick; distinct by trace digest"
    noise = dict(typo=.05, dead=.05, extra_bs=.05, utf=True)
    def judge(self, case, st):
        if not self.covers(case):
            st.c["probe:model_does_not_cover"] += 1
            return
        r = run_case(case, st)
        check_alive(r)
        S = Session(case["type"], 100 if case.get("hist") is None else case["hist"])
        before = [k for x in case["steps"][:-1] for k in x.get("k", [])]
        for k in before: S.key(k)
        # a second after the last key everything entered has been answered, without any further key
        late = None
        ilast = [i for i, e in enumerate(r.ev) if e[2] == "TTYIN"][-1:]
        need = sum(len(key_bytes(k)) for k in case["steps"][-1]["k"])
        if ilast and before and len(chunks_of(case["steps"][-1])) == 1:
            evs = r.ev[:ilast[0]]
            lastin = max([e[0] for e in evs if e[2] == "TTYIN"] or [0])
            if r.ev[ilast[0]][0] >= lastin + self.patience(case):
                scr = Screen().events(evs)
                m = M.screen_matches(scr.text(), expected_screen(S, M.PROMPT + S.buf))
                if m: late = self.late(evs, m)
                else: st.c["probe:all_answered_at_rest"] += 1
        for k in case["steps"][-1]["k"]: S.key(k)
        if r.end != "exit": raise self.late(r.ev, "the session did not end after the line exit (%s)" % r.end, "no-exit")
        scr = Screen().events(r.ev)
        m = M.screen_matches(scr.text(), expected_screen(S, M.PROMPT + M.BYE))
        if m: raise Violation("transcript", m)
        if r.rc != 0: raise Violation("status", "exit status %d" % r.rc)
        if late: raise late
        st.nontrivial.add(r.digest)

class R02(ReplCheck):
    prop = "R02"
    rule = "a case is a history of assignments, evaluations that use variables and $result, and failing lines, in one number type; non-trivial when a later line reads a value set before or after a failing line; distinct by trace digest"
    mix = dict(assign=.3, err=.3, blank=.03, corpus=.2)
    noise = dict(typo=0, dead=0)
    def lines(self, rng): return rng.choice([3, 5, 8, 12, 20, 35]) if rng.random() < .985 else rng.choice([80, 150, 300, 300, 560])
    def gen(self, rng, i):
        # some histories fail seldom, and have many results between two assignments
        self.mix = R02.mix if rng.random() < .8 else dict(assign=.04, err=.02, blank=.01, corpus=.15)
        case = ReplCheck.gen(self, rng, i)
        if rng.random() < .008:
            # more variables than anybody needs
            keys = []
            for j in range(rng.choice([20, 40, 70, 140])):
                keys += list("$v%d=%d" % (j, rng.randint(0, 1) if case["type"] == "binary" else j)) + ["Enter"]
            more = steps_from_keys(rng, keys, rng.choice(["line", "mixed", "paste"]))
            T = Session(case["type"], 100 if case.get("hist") is None else case["hist"])
            if try_keys(T, keys + all_keys(case)[:-5]): case["steps"][:0] = more
        # read every variable back at the end
        S = Session(case["type"], 100 if case.get("hist") is None else case["hist"])
        for k in all_keys(case)[:-5]: S.key(k)
        keys = []
        for v in ["$result"] + sorted(S.vars):
            keys += list(v) + ["Enter"]
        if try_keys(S, keys):
            case["steps"].insert(-1, {"d": 5000, "k": keys})
        return case
    def judge(self, case, st):
        if not self.covers(case):
            st.c["probe:model_does_not_cover"] += 1
            return
        r = run_case(case, st)
        check_alive(r)
        S = Session(case["type"], 100 if case.get("hist") is None else case["hist"])
        for k in all_keys(case): S.key(k)
        scr = Screen().events(r.ev)
        m = M.screen_matches(scr.text(), expected_screen(S, M.PROMPT + M.BYE))
        if m and self.unread(r, st): return
        if m: raise Violation("state", m)
        if any(o[0] == "err" for _, o in S.log): st.nontrivial.add(r.digest)
        st.c["probe:failing_lines"] += sum(o[0] == "err" for _, o in S.log)
        st.c["probe:assignments"] += sum(o[0] == "none" for _, o in S.log)
        st.c["probe:values"] += sum(o[0] == "val" for _, o in S.log)

class R03(ReplCheck):
    prop = "R03"
    rule = "a case interleaves entering lines with Up/Down runs and edits of recalled lines, for a history size from 0 up; the pending line is checked at every wait; non-trivial when a recall happens after an eviction, a repeated line or past either end; distinct by trace digest"
    noise = dict(typo=0, dead=.01)
    def gen(self, rng, i):
        typ = rng.choice(["decimal", "integer", "float"])
        hist = rng.choice([None, 0, 1, 2, 3, 5, 8])
        case = {"type": typ, "hist": hist, "nocolor": True, "cfg": gen_cfg(rng, faults=rng.random() < .4)}
        S = Session(typ, 100 if hist is None else hist)
        keys = []
        pool = [str(rng.randint(0, 99)) for _ in range(rng.choice([2, 4, 10]))] + ["x=1", "1+", "q", " ", "", "  7", "7 ", "X", "x"]
        n = rng.choice([3, 6, 12, 25])
        if hist is None and rng.random() < .15:
            for j in range(rng.choice([98, 99, 100, 101, 103, 130, 210])):
                ks = list(str(j)) + ["Enter"]
                keys += ks
            n = 8
        elif rng.random() < .008:
            case["hist"] = hist = rng.choice([256, 300, 1000])
            S = Session(typ, hist)
            for j in range(rng.choice([254, 257, 280, 320])):
                keys += list(str(j % 977)) + ["Enter"]
            n = 8
        for k in keys: S.key(k)
        for _ in range(n):
            r = rng.random()
            if r < .45: ks = list(rng.choice(pool)) + ["Enter"]
            elif r < .6: ks = ["Up"] * (rng.choice([90, 98, 99, 100, 101, 105] + ([254, 255, 256, 257, 300] if len(S.hist) > 200 else [])) if len(S.hist) > 60 and rng.random() < .6 else rng.choice([1, 1, 2, 3, 6]))
            elif r < .7: ks = ["Down"] * (rng.choice([90, 99, 100, 101, 105]) if len(S.hist) > 60 and rng.random() < .4 else 0) + ["Down"] * rng.choice([1, 1, 2, 3, 6])
            elif r < .8: ks = ["Up"] * rng.randint(1, 3) + ["Down"] * rng.randint(0, 3) + ["Enter"]
            elif r < .87: ks = ["Up"] * rng.randint(1, 3) + ["BS"] * rng.randint(0, 2) + [rng.choice("0123456789")]  + ["Enter"]
            elif r < .92: ks = ["BS"] * rng.randint(1, 3)
            elif r < .96: ks = list(rng.choice(pool))
            else: ks = ["Enter"]
            T = try_keys(S, ks)
            if T is None or T.ended: continue
            keys += ks; S = T
        case["steps"] = steps_from_keys(rng, keys, rng.choice(["one", "mixed", "mixed", "paste"]))
        T = try_keys(S, ["Enter"])
        case["steps"].append({"d": 300000, "k": (["Enter"] if T else ["BS"] * len(S.buf)) + list("exit") + ["Enter"]})
        return case
    def judge(self, case, st):
        if not self.covers(case):
            st.c["probe:model_does_not_cover"] += 1
            return
        r = run_case(case, st)
        check_alive(r)
        if not r.has("TTYR") and r.end != "exit": raise Violation("hang", "no key was ever read")
        def visit(scr, S, off, e):
            if S.ended: return
            if S.cur != len(S.hist): st.c["probe:recalled_line_shown"] += 1
            if scr.cur().rstrip() != (M.PROMPT + S.buf).rstrip():
                raise Violation("recall", "at %d us the pending line shows %r, expected %r" % (e[0], scr.cur(), M.PROMPT + S.buf))
        scr, S, done = walk_waits(case, r, visit)
        m = M.screen_matches(scr.text(), expected_screen(S, M.PROMPT + M.BYE))
        if m and self.unread(r, st): return
        if m: raise Violation("recall-result", m)
        st.nontrivial.add(r.digest)

class R04(ReplCheck):
    prop = "R04"
    rule = "a case is a key sequence with seeded timing and terminal write faults; the emulated screen is compared with the model at every blocking wait; non-trivial when at least one wait happens with pending text or after an answer; distinct by trace digest"
    noise = dict(typo=.08, dead=.05, extra_bs=.1, utf=True)
    def gen(self, rng, i):
        case = ReplCheck.gen(self, rng, i)
        if rng.random() < .6: case["cfg"]["pshortw"] = rng.choice([100, 500, 900])
        # leave text pending at the end
        if rng.random() < .5:
            case["steps"][-1] = {"d": 500000, "k": rng.choice([list("12+"), ["Up"], ["Up", "BS"], ["Up", "Down"], ["é", "π", "BS"]])}
            S = Session(case["type"], 100 if case.get("hist") is None else case["hist"])
            T = try_keys(S, all_keys(case))
            case["steps"].append({"d": 300000, "k": ["BS"] * len(T.buf if T else "") + list("exit") + ["Enter"]})
        return case
    def judge(self, case, st):
        if not self.covers(case):
            st.c["probe:model_does_not_cover"] += 1
            return
        r = run_case(case, st)
        check_alive(r)
        n = [0]
        def visit(scr, S, off, e):
            if S.ended: return
            n[0] += 1
            m = M.screen_matches(scr.text()[:-1] if len(scr.lines) > 1 else scr.text(), ([M.PRE] + S.screen))
            if m: raise Violation("screen", "while waiting at %d us: %s" % (e[0], m))
            if scr.cur().rstrip() != (M.PROMPT + S.buf).rstrip() or scr.col != len(M.PROMPT + S.buf) or scr.row != len(scr.lines) - 1:
                raise Violation("pending-line", "while waiting at %d us the current line is %r with the cursor at column %d, expected %r" % (e[0], scr.cur(), scr.col, M.PROMPT + S.buf))
            if scr.pend or scr.unknown: raise Violation("garbage", "unexpected terminal output %r" % (scr.unknown or scr.pend))
            if case.get("nocolor") and scr.sgr: raise Violation("colour", "colour sequence although colours are disabled")
        scr, S, done = walk_waits(case, r, visit)
        if r.end != "exit" and not S.ended and not self.unread(r, st): raise Violation("no-exit", "%s" % r.end)
        if n[0] > 1: st.nontrivial.add(r.digest)
        st.c["probe:waits_checked"] += n[0]

# ---------------------------------------------------------------------------------- R05
SANE = "%x %x %x" % (0x1 | 0x2 | 0x8, 0x1 | 0x4, 0x100)   # the terminal before the session
SLACK = 60000          # between an interrupt and the moment the session knows of it, without stalls

def stall_total(r, t0=0):
    """Upper bound of the delay injected stalls can add after t0."""
    s = 0
    for e in r.ev:
        if e[2] == "F" and e[3].startswith("stall"):
            d = int(e[3].split()[2])
            if e[0] + d >= t0: s += d
    return s

class R05(ReplCheck):
    prop = "R05"
    rule = "a case is a session of typed lines and pauses into which one of interrupt, Esc or the line exit is placed at a seeded instant, with keys going on behind it, or which none of them ends; non-trivial when the session was told to end while keys, output or an evaluation were under way or after an idle time; distinct by trace digest"
    noise = dict(typo=.03, dead=.05)
    def gen(self, rng, i):
        case = {"type": rng.choice(M.TYPES + ["decimal"] * 2), "hist": rng.choice([None, None, 2]), "nocolor": rng.random() < .3, "cfg": gen_cfg(rng, faults=rng.random() < .7)}
        how = rng.choice(["int", "int", "int", "esc", "ctrlc", "exit", "none"])
        case["how"] = how
        case["start"] = rng.choice([50000, 50000, 50000, 0, 500, 2000, 5000, 20000])
        S = Session(case["type"], 100 if case["hist"] is None else case["hist"])
        style = rng.choice(["one", "line", "mixed", "mixed", "paste"])
        def chunk(n, S):
            keys = []
            for _ in range(n):
                if rng.random() < .1:
                    l = rng.choice(["quit", "Exit", "EXIT", "exit 1", "exitt", ":q", "bye", "x exit"])
                    ks = list(l) + ["Enter"]
                    T = try_keys(S, ks)
                    if T is None: continue
                else:
                    ks, T = self.gen_keys(rng, S)
                keys += ks; S = T
            return keys, S
        pre, S = chunk(rng.choice([0, 0, 1, 2, 4]), S)
        if rng.random() < .4: pre += list(rng.choice(["1", "2+", "exi", "12*(3", "pi"]))
        T = try_keys(Session(case["type"], 100 if case["hist"] is None else case["hist"]), pre)
        steps = steps_from_keys(rng, pre, style)
        end = {"d": rng.choice([0, 0, 10, 500, 3000, 50000, 99990, 100000, 100010, 130000, 2000000, 60000000, rng.randint(0, 300000)])}
        if how == "esc": end["k"] = ["Esc"]
        elif how == "ctrlc": end["k"] = ["CtrlC"]
        elif how == "exit": end["k"] = ["BS"] * len(T.buf) + list(rng.choice(["exit", " exit", "exit  "])) + ["Enter"]
        elif how == "int": end["sig"] = 2
        steps.append(end)
        post = []
        if how != "esc" and rng.random() < .75 or how == "none":
            post, _ = chunk(rng.choice([1, 2, 4]), Session(case["type"], 100))
            if how == "int" and rng.random() < .5 and "Enter" in post and T is not None:
                # complete the pending line
                post = ["Enter"] + post
        case["steps"] = steps
        case["post"] = [dict(s, d=rng.choice([0, 1, 50, 700, 5000, 30000, 70000, 99000, 150000])) for s in steps_from_keys(rng, post, rng.choice(["one", "line", "line", "paste"]))]
        for s in case["post"]:
            if how == "int" and rng.random() < .1: s["sig"] = 2
        return case
    def shrink(self, case):
        for f in ("post", "steps"):
            ss = case[f]
            for size in (len(ss) // 2, 4, 1):
                if size < 1: continue
                for i in range(0, len(ss), size):
                    c = dict(case); c[f] = ss[:i] + ss[i + size:]; yield c
            for i, st in enumerate(ss):
                ks = st.get("k", [])
                for j in range(len(ks)) if len(ks) <= 40 else []:
                    c = dict(case); c[f] = ss[:i] + [dict(st, k=ks[:j] + ks[j + 1:])] + ss[i + 1:]; yield c
        for f in ("peintr", "pshortw", "jitter", "pstall", "pspur", "penv", "pfile"):
            if f in case["cfg"]:
                c = dict(case); c["cfg"] = {k: v for k, v in case["cfg"].items() if k != f}
                yield c
    def judge(self, case, st):
        how = case["how"]
        steps = case["steps"] + case["post"]
        keys = [k for s in steps for k in s.get("k", [])]
        N = 100 if case.get("hist") is None else case["hist"]
        # states of the model after each key
        S = Session(case["type"], N)
        snaps = [(len(S.screen), S.ended)]
        try:
            for k in keys:
                S.key(k); snaps.append((len(S.screen), S.ended))
        except Unknown:
            st.c["probe:model_does_not_cover"] += 1
            return
        has_int = any(s.get("sig") == 2 for s in steps)
        if not has_int and not S.ended:
            # nothing ends it: it must be alive at the very end
            steps = steps + [{"d": 3000000, "k": ["Left"]}]
            r = sim.run(render(dict(case, steps=steps)), build.EVAL, args_of(case)); st.add(r)
            check_alive(r)
            if r.end == "exit": raise Violation("ended-by-itself", "the session ended at %d us although nothing told it to" % r.ev[-1][0])
            scr = Screen().events(r.ev)
            m = M.screen_matches(scr.text(), expected_screen(S, M.PROMPT + S.buf))
            if m: raise Violation("unanswered", m)
            st.nontrivial.add(r.digest)
            return
        r = sim.run(render(dict(case, steps=steps)), build.EVAL, args_of(case)); st.add(r)
        if any(e[2] == "SIG" and e[3] == "2 default" for e in r.ev): return      # the session had not begun yet
        check_alive(r)
        # when was it told to end
        data_off = []
        off = 0
        for k in keys:
            off += len(key_bytes(k)); data_off.append(off)
        tin, tot = [], 0       # arrival time of each key
        tcue = None
        ki = 0
        nend = next((j for j, s in enumerate(snaps) if s[1]), None)   # number of keys that end it
        tkey = {}
        for e in r.ev:
            if e[2] == "TTYIN":
                tot += len(e[3].split()[-1]) // 2
                while ki < len(keys) and tot >= data_off[ki]:
                    tkey[ki] = e[0]; ki += 1
            if e[2] == "SIG" and e[3].startswith("2 ") and tcue is None: tcue = e[0]
        tend = tkey.get(nend - 1) if nend is not None else None
        cues = [t for t in (tcue, tend) if t is not None]
        if not cues: return     # the end never came before the run was over
        t0 = min(cues)
        slack = stall_total(r, t0) + SLACK + (case["cfg"].get("jitter", 0) * 2)
        if r.end != "exit": raise self.late(r.ev, "told to end at %d us, still running at %d us (%s)" % (t0, r.ev[-1][0], r.end), "not-ended") if tcue is None else Violation("not-ended", "told to end at %d us, still running at %d us (%s)" % (t0, r.ev[-1][0], r.end))
        texit = r.ev[-1][0]
        busy = r.steps * 0
        if texit > t0 + 1000000 + slack: raise Violation("late", "told to end at %d us, ended only at %d us" % (t0, texit))
        if r.rc != 0: raise Violation("status", "exit status %d" % r.rc)
        modes = [e[3] for e in r.ev if e[2] == "TCSET"]
        if modes and modes[-1] != SANE: raise Violation("terminal", "the terminal is left in mode %s instead of %s" % (modes[-1], SANE))
        scr = Screen().events(r.ev)
        txt = scr.text()
        full = "\n".join(txt)
        if txt[-1] != M.PROMPT + M.BYE: raise Violation("farewell", "the last line is %r" % txt[-1])
        if full.count(M.BYE) != 1: raise Violation("farewell", "the farewell appears %d times" % full.count(M.BYE))
        # which lines may have been acted on
        hi = len(keys)
        if nend is not None: hi = min(hi, nend)
        if tcue is not None:
            lim = tcue + slack
            hi = min(hi, sum(1 for j in range(len(keys)) if tkey.get(j, 1 << 62) <= lim))
        lo = hi if tcue is None else 0
        ok, why = False, None
        for n in sorted({snaps[j][0] for j in range(lo, hi + 1)}, reverse=True):
            # a line is shown when its Enter was handled
            m = M.screen_matches(txt[:-1], [M.PRE] + S.screen[:n])
            if m is None: ok = True; break
            why = why or m
        if not ok:
            raise Violation("lines", "told to end at %d us: the lines acted on are not those entered before (%s)" % (t0, why))
        st.nontrivial.add(r.digest)
        st.c["probe:ended_by_" + how] += 1

# ---------------------------------------------------------------------------------- R06
NASTY = [b"\x1b[999999999999999999999A", b"\x1b[1;5A", b"\x1b[1;99999D", b"\x1b[;;;;;;m", b"\x1b[200~paste\x1b[201~", b"\x1b[<0;10;10M", b"\x1b[<35;1;1m", b"\x1b[M !!", b"\x1b[32;30;40M",
         b"\x1b]0;t\x07", b"\x1bP1$r\x1bx", b"\x1bOZ", b"\x1bO\n", b"\x1b[[A", b"\x1b[[5~", b"\x1b[I", b"\x1b[O", b"\x1b[27;5;9~", b"\x1b[97;5u", b"\x1b[1~", b"\x1b[99~", b"\x1b[R", b"\x1b[12;40R",
         b"\x1b[?1;2c", b"\x1b[?62;c", b"\x1b" + b"a", b"\x1b\xc3\xa9", b"\x1b\x7f", b"\x1b\r", b"\x1b[" + b"1" * 300 + b"A", b"\x1b[" + b";" * 200 + b"u", b"\xff", b"\xc3(", b"\xf0\x28\x8c\x28",
         b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\x80", b"\xc0\xaf", b"\x00", b"\x01\x02\x05", b"\x7f" * 40, b"\x08", b"\x0b\x0c", b"\x1c\x1d\x1e\x1f", b"\t\t",
         "日本語".encode(), "🙂".encode(), "e\u0301".encode(), "\u202e".encode(), "\u0000".encode(), "ß²½".encode(), "٣".encode(), "İ".encode()]
FN = ["sqrt", "cbrt", "ln", "log", "exp", "floor", "ceil", "trunc", "truncate", "round", "sign", "random", "toradians", "to_radians", "todegrees", "to_degrees", "sin", "cos", "tan", "csc", "sec", "cot", "asin", "acos", "atan", "acsc", "asec", "acot",
      "sinh", "cosh", "tanh", "csch", "sech", "coth", "asinh", "acosh", "atanh", "acsch", "asech", "acoth", "max", "min", "sum", "avg", "prod", "abs", "signum", "conj", "arg", "norm", "polar", "re", "im", "pow"]
NUMS = ["0", "1", "2", "3", "10", "27", "28", "29", "34", "35", "64", "127", "128", "129", "170", "171", "255", "1000", "65536", "99999", "4294967295", "18446744073709551616", "9223372036854775807", "170141183460469231731687303715884105727", "170141183460469231731687303715884105728",
        "79228162514264337593543950335", "79228162514264337593543950336", "0.5", "1.5", "0.1", "0.0000000000000000000000000001", "0.00000000000000000000000000001", "1e10", "1e300", "1e-300", "1.7976931348623157e308", "0.99999999999999999999", "1.", "00", "007", "2.5", "inf", "nan", "3.14159265358979", "1.5707963267948966", "100.5", "-0", "999999999999999999999999999999999999999999"]
OPS = ["+", "-", "*", "/", "^", "mod", "%", " - -", "+ -", "!", "!+", "!-", "**", "//", "^-", ","]
BOPS = ["and", "or", "xor", "&", "|", "^", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "shl", "shr", "eq", "ne", "gt", "lt", "gte", "lte", "not", "~"]

def wild_expr(rng, typ, d=3, names=FN):
    """A (mostly well-formed) expression of any kind."""
    if typ == "binary":
        def at(d):
            r = rng.random()
            if r < .2 and d > 0: return "(" + ex(d - 1) + ")"
            if r < .3: return rng.choice(["~", "not "]) + at(d - 1 if d else 0)
            return rng.choice(["0", "1", "b1", "b1010", "2", "127", "128", "129", "255", "1000", "b" + "1" * 100, "b" + "1" * 127, "b" + "1" * 128, "170141183460469231731687303715884105727", "-1", "-128", "4294967296", "4294967297", "18446744073709551615"])
        def ex(d):
            s = at(d)
            for _ in range(rng.choice([0, 1, 1, 2])): s += " " + rng.choice(BOPS) + " " + at(d)
            return s
        return ex(d)
    def at(d):
        r = rng.random()
        if d > 0 and r < .3: return rng.choice(names) + "(" + ",".join(ex(d - 1) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 2, 3]))) + ")"
        if d > 0 and r < .45: return "(" + ex(d - 1) + ")" + rng.choice(["", "", "!"])
        if r < .5: return rng.choice(["pi", "e", "PI", "E"])
        if r < .55: return "-" + at(0)
        n = rng.choice(NUMS) if rng.random() < .6 else str(rng.choice([rng.randint(0, 40), rng.randint(0, 10 ** 6), round(rng.uniform(-10, 10), rng.randint(0, 6))]))
        if typ == "complex" and rng.random() < .4: n += "i"
        return n + rng.choice(["", "", "", "", "!"])
    def ex(d):
        s = at(d)
        for _ in range(rng.choice([0, 0, 1, 1, 2])): s += rng.choice(OPS) + at(d)
        return s
    return ex(d)

PROBE = {"decimal": ("7*6+%d", lambda n: str(42 + n)), "float": ("7*6+%d", lambda n: str(42 + n)), "integer": ("7*6+%d", lambda n: str(42 + n)),
         "complex": None, "binary": ("%d & 255", lambda n: bin(n & 255)[2:])}

class R06(Check):
    prop = "R06"
    needs = ("eval",)
    real, stub = REAL, STUB
    assumptions = ASSUME + ["a disturbance completes the key sequences it starts (the terminal library waits for the rest of a started one) and contains no Esc key of its own"]
    quick_n, thorough_n = 12000, 200000
    quick_s, thorough_s = 40, 600
    rule = "a case alternates disturbances (hostile key bytes in seeded chunks, generated expressions with extreme operands in one number type) with a plainly typed probe line after a pause; non-trivial when a disturbance reached the line editor or evaluator; distinct by trace digest"
    def gen(self, rng, i):
        typ = rng.choice(M.TYPES + ["decimal", "float"])
        case = {"type": typ, "hist": rng.choice([None, None, 0, 1, 18446744073709551615]), "nocolor": rng.random() < .3, "cfg": gen_cfg(rng, faults=rng.random() < .4), "rounds": []}
        for _ in range(rng.choice([1, 2, 4])):
            ds = []
            for _ in range(rng.choice([1, 2, 3, 6])):
                r = rng.random()
                if r < .35:
                    b = b"".join(rng.choice(NASTY) for _ in range(rng.randint(1, 4)))
                elif r < .45:
                    b = bytes(rng.choice([rng.randint(0x20, 0x7e), rng.randint(0x80, 0xff), rng.choice([x for x in range(32) if x != 3])]) for _ in range(rng.choice([3, 20, 100, 2000])))
                    b = b.replace(b"\x1b", b"?")
                elif r < .5:
                    b = rng.choice([b"(" * 3000 + b"1" + b")" * 3000, b"1+" * 5000 + b"1", b"-" * 2000 + b"1", b"sum(" + b"1," * 3000 + b"2)", b"9" * 4000, b"x" * 5000, b"((((" * 500, b"sqrt(" * 800 + b"4" + b")" * 800, b"2^" * 300 + b"1", b"1" + b"!" * 50, b"\x7f" * 3000])
                    b += b"\n"
                elif r < .65:
                    b = rng.choice(["=", "==", "a=", "=1", "x = 1e400", "é = 1", "π=3", "1=1", "$=1", "$ = 2", "x y = 3", "x\t=\t1", "sum=1", "max = 2", "+=1", "-=1", "(=1", "x=-", "x=+5", "a.b=1", "i=1", "e=1", "$result=é", "mod=1", "and=1", "b1=1", "1>==0", "x=" + "9" * 60, "a b", "_=1", "__=2", "x=inf", "x=nan", "x==", "!=", ">=", "=!", "<=>"]).encode() + b"\n"
                else:
                    l = wild_expr(rng, typ)
                    if rng.random() < .2:
                        p = rng.randint(0, len(l)); l = l[:p] + rng.choice(["é", "π", "(", ")", ",", "!", "$", "..", "$result", "b", "²", "\u00a0", "[", "{", "\"", "#"]) + l[p:]
                    b = l.encode() + b"\n"
                while b"\x1b\x1b" in b: b = b.replace(b"\x1b\x1b", b"\x1b[\x1b" if False else b"\x1b")
                if b.endswith(b"\x1b"): b += b"a"
                ds.append({"d": rng.choice([0, 1000, 30000, 150000]), "b": b.hex(), "split": rng.choice([0, 0, 0, 1, 7, 64])})
            case["rounds"].append({"ds": ds, "n": rng.randint(1, 200)})
        return case
    def probe(self, typ, n):
        if typ == "complex":
            e = "%d+1i" % n
            return e, M.oneshot("complex", e)[1]
        p = PROBE[typ]
        return p[0] % n, p[1](n)
    def render(self, case):
        s = cfg_text(case["cfg"]) + "tty 1\nend %d\nmaxsteps 6000000\nactor keys\nsleep 50000\nwraw 60000000\n" % 3600000000
        for rd in case["rounds"]:
            tot = 0
            for d in rd["ds"]:
                s += "sleep %d\n" % d["d"]
                b = bytes.fromhex(d["b"])
                n = d["split"]
                if len(b) > 900: n = 900
                tot += len(b)
                if tot > 900: s += "wtty 8000000\n"; tot = len(b)
                out, cur = [], b""
                for j in range(len(b)):
                    cur += b[j:j + 1]
                    if n and len(cur) >= n and not cur.endswith(b"\x1b"): out.append(cur); cur = b""
                if cur: out.append(cur)
                for j, c in enumerate(out):
                    if j: s += "sleep 500\n" if n < 900 else "wtty 8000000\nsleep 300000\n"
                    s += "key %s\n" % c.hex()
            e, _ = self.probe(case["type"], rd["n"])
            # complete whatever key sequence is open, drop the pending text, wait, type the probe
            s += "sleep 300000\nkey %s\nsleep 200000\nkey 0a\nwtty 5000000\nsleep %d\nnote probe\nkey %s\n" % (b"~Mm\n\nm\n\n\n\n".hex(), 1500000 + sum(len(d["b"]) for d in rd["ds"]) * case["cfg"]["cost"][1] * 12 // 1000, e.encode().hex())
            s += "sleep 100000\nnote enter\nkey 0a\nsleep 2000000\nnote next\n"
        s += "key %s\n" % b"exit\n".hex()
        return s
    def judge(self, case, st):
        r = sim.run(self.render(case), build.EVAL, args_of(case), cpu=12)
        st.add(r)
        check_alive(r)
        alldata = b"".join(bytes.fromhex(d["b"]) for rd in case["rounds"] for d in rd["ds"])
        if re.search(rb"exit\s*\n", alldata): return
        marks = [e[0] for e in r.ev if e[2] == "NOTE" and e[3].startswith("enter")]
        if len(marks) < len(case["rounds"]):
            if r.end == "exit": raise Violation("ended", "the session ended by itself after a disturbance (status %d)" % r.rc)
            raise Violation("wedged", "the session stopped reading keys")
        if r.end != "exit": raise Violation("no-exit", "the line exit was not answered (%s)" % r.end)
        slack = stall_total(r)
        for rd, t in zip(case["rounds"], marks):
            e, v = self.probe(case["type"], rd["n"])
            buf = b"".join(bytes.fromhex(x[3]) for x in r.ev if x[2] in ("OUT1", "OUT2") and t <= x[0] <= t + 1000000 + slack)
            scr = Screen(); scr.feed(buf)
            if not any(l.endswith(v) and l.replace(M.PROMPT, "").strip() == v for l in scr.text()):
                raise Violation("unanswered", "the line %r got %r instead of %r within a second" % (e, scr.text()[:6], v))
        st.nontrivial.add(r.digest)
        st.c["probe:probe_lines_answered"] += len(marks)
    def shrink(self, case):
        rs = case["rounds"]
        for i in range(len(rs)):
            if len(rs) > 1:
                c = dict(case); c["rounds"] = rs[:i] + rs[i + 1:]; yield c
        for i, rd in enumerate(rs):
            for j in range(len(rd["ds"])):
                if len(rd["ds"]) > 1:
                    c = dict(case); c["rounds"] = rs[:i] + [dict(rd, ds=rd["ds"][:j] + rd["ds"][j + 1:])] + rs[i + 1:]; yield c
            for j, d in enumerate(rd["ds"]):
                b = bytes.fromhex(d["b"])
                n = len(b)
                sizes = [s for s in (n // 2, n // 4, n // 8, 1) if s > 0]
                if n > 300: sizes = sizes[:3]
                for size in sizes:
                    for k in range(0, n, size):
                        nb = b[:k] + b[k + size:]
                        if nb and b"\x1b\x1b" not in nb and not nb.endswith(b"\x1b"):
                            c = dict(case); c["rounds"] = rs[:i] + [dict(rd, ds=rd["ds"][:j] + [dict(d, b=nb.hex())] + rd["ds"][j + 1:])] + rs[i + 1:]; yield c
        for f in ("peintr", "pshortw", "jitter", "pstall", "pspur", "penv", "pfile"):
            if f in case["cfg"]:
                c = dict(case); c["cfg"] = {k: v for k, v in case["cfg"].items() if k != f}
                yield c

# ---------------------------------------------------------------------------------- R07
class R07(Check):
    prop = "R07"
    needs = ("eval",)
    real, stub = REAL[:2], STUB
    assumptions = ["the output stream is a file, pipe or terminal on descriptors 1 and 2 that exist"]
    quick_n, thorough_n = 30000, 400000
    quick_s, thorough_s = 30, 400
    rule = "a case is a command line (evaluation in some number type, or a listing) with a seeded way its output stream splits, interrupts or refuses writes; the run with status 0 must have delivered the same bytes as the undisturbed run; non-trivial when at least one write was split, interrupted or refused; distinct by trace digest"
    _base = {}
    def gen(self, rng, i):
        typ = rng.choice(M.TYPES)
        r = rng.random()
        if r < .45: args = [rng.choice(["constants", "operators", "functions"]), "-t", typ]
        else:
            if r < .85: e = rng.choice(CORPUS[typ])
            elif r < .93 and typ in ("decimal", "float", "integer"): e = gen_simple(rng, Session(typ, 1)).replace("$result", "1")
            else: e = rng.choice(ERR[typ])
            args = ["eval", "-t", typ, "--", e]
        if rng.random() < .5: args = ["--no-color"] + args
        c = {"seed": rng.getrandbits(48), "mode": 0, "pswitch": 100, "cost": [200, 3000]}
        if rng.random() < .5: c["peintr"] = rng.choice([50, 300, 800])
        if rng.random() < .5: c["pshortw"] = rng.choice([100, 500, 1000])
        case = {"args": args, "cfg": c, "outtty": rng.choice([0, 0, 1])}
        if rng.random() < .65:
            n = len(self.baseline(args, case["outtty"])[0])
            m = len(self.baseline(args, case["outtty"])[1])
            err = rng.choice([28, 5, 32, 27, 122])
            if m and rng.random() < .8: case["cap2"] = [rng.choice([0, 1, m // 2, m - 1, m, max(0, m - 2), rng.randint(0, m)]), err]
            else: case["cap"] = [rng.choice([0, 1, n // 2, n - 1 if n else 0, n, max(0, n - 2), rng.randint(0, n)]), err]
        return case
    def text(self, case):
        s = cfg_text(case["cfg"]) + "outtty %d\nend 600000000\nmaxsteps 400000\n" % case["outtty"]
        if "cap" in case: s += "outcap %d %d\n" % tuple(case["cap"])
        if "cap2" in case: s += "outcap2 %d %d\n" % tuple(case["cap2"])
        return s
    def outs(self, r):
        return (b"".join(bytes.fromhex(e[3]) for e in r.ev if e[2] == "OUT1"), b"".join(bytes.fromhex(e[3]) for e in r.ev if e[2] == "OUT2"))
    def baseline(self, args, outtty):
        k = json.dumps([args, outtty])
        if k not in self._base:
            r = sim.run("seed 1\nouttty %d\nend 600000000\n" % outtty, build.EVAL, args)
            o = self.outs(r)
            self._base[k] = o + ("died" if r.hang or r.rc < 0 or r.rc != 0 else "ok",)
        return self._base[k]
    def judge(self, case, st):
        b1, b2, how = self.baseline(case["args"], case["outtty"])
        if how == "died":
            raise Violation("fails", "the command %r fails with nothing wrong with its output" % (case["args"],))
        if not b1 and not b2 and [x for x in case["args"] if x != "--no-color"] not in (["constants", "-t", "binary"], ["functions", "-t", "binary"]): raise Violation("silent", "the command %r reports success without an answer" % (case["args"],))
        if (b1 or b2) and not (b1 + b2).endswith(b"\n") and b"\n" not in (b1 + b2)[-8:]: raise Violation("cut", "the answer of %r does not end its last line: %r" % (case["args"], (b1 + b2)[-40:]))
        a = [x for x in case["args"] if x != "--no-color"]
        if a[0] == "eval":
            try:
                v = M.ref_eval(a[-1], {}, a[2]) if a[2] in ("integer", "decimal") else None
            except Unknown: v = None
            if v is not None and v != 0:
                plain = re.sub(rb"\x1b\[[0-9;]*m", b"", b1)
                if plain != b"%d\n" % v: raise Violation("answer", "%r printed %r, expected %d" % (case["args"], b1, v))
        elif a[2] != "binary" and (b1 + b2).count(b"\n") < (2 if a[0] == "constants" else 5) :
            raise Violation("cut", "listing %r has only %d lines" % (case["args"], b1.count(b"\n")))
        r = sim.run(self.text(case), build.EVAL, case["args"])
        st.add(r)
        if r.hang or r.end in ("end79", "end80", "end78"): raise Violation("hang", "the command %r does not end (%s)" % (case["args"], r.end))
        o1, o2 = self.outs(r)
        faulty = any(e[2] == "F" for e in r.ev)
        refused = any(e[2] == "F" and e[3].startswith("write_error") for e in r.ev)
        if r.rc == 0:
            if o1 != b1 or o2 != b2:
                raise Violation("lost-output", "%r exited with status 0 but delivered %d+%d bytes instead of %d+%d" % (case["args"], len(o1), len(o2), len(b1), len(b2)))
        elif not refused:
            raise Violation("failed", "%r ended with %d although no data was refused %s" % (case["args"], r.rc, sim.panic_text(r)))
        else:
            st.c["probe:refused_and_reported"] += 1
        if faulty: st.nontrivial.add(r.digest)
    def shrink(self, case):
        for f in ("peintr", "pshortw"):
            if f in case["cfg"]:
                c = dict(case); c["cfg"] = {k: v for k, v in case["cfg"].items() if k != f}; yield c
        for f in ("cap", "cap2"):
            if f in case:
                c = dict(case); del c[f]; yield c
                if case[f][0] > 0:
                    c = dict(case); c[f] = [case[f][0] // 2, case[f][1]]; yield c
        if case["args"][0] == "--no-color":
            c = dict(case); c["args"] = case["args"][1:]; yield c


class R08(Check):
    prop = "R08"
    needs = ("eval",)
    real, stub = REAL[:2], STUB
    assumptions = ["the answers of expressions that draw random numbers are not compared, only the way they end"]
    quick_n, thorough_n = 30000, 400000
    quick_s, thorough_s = 25, 300
    rule = "a case is a command line run in three processes that differ in everything the simulator decides: random device (hash seeds), clock, scheduling, interrupted and split writes, signals that only inform, environment and other data on the input; non-trivial when the command answered something; distinct by trace digest"
    def gen(self, rng, i):
        typ = rng.choice(M.TYPES)
        r = rng.random()
        if r < .35: args = [rng.choice(["constants", "operators", "functions"])] + rng.choice([["-t", typ], ["--type", typ], ["--type=" + typ], []])
        elif r < .42: args = rng.choice([[], ["help"], ["--help"], ["--version"], ["eval"], ["eval", "1", "+"], ["nope"], ["eval", "-t", "octal", "1"], ["functions", "-t"], ["repl", "--history", "x"], ["eval", "--help"], ["constants", "extra"]])
        else:
            if r < .6: e = rng.choice(CORPUS[typ])
            elif r < .7: e = rng.choice(ERR[typ])
            elif r < .75: e = rng.choice(["random()", "random(5)", "random(1,2)", "random(2,1)", "1+random()"])
            else: e = wild_expr(rng, typ)
            args = ["eval", "-t", typ, "--", e]
        if rng.random() < .5: args = ["--no-color"] + args
        return {"args": args, "outtty": rng.choice([0, 1]), "worlds": [self.world(rng, r < .35 or r >= .42) for _ in range(3)]}
    def world(self, rng, plain):
        c = {"seed": rng.getrandbits(48), "mode": rng.choice([0, 2]), "pswitch": rng.choice([20, 500]), "cost": rng.choice([[200, 3000], [1000, 60000]])}
        if rng.random() < .3: c["peintr"] = rng.choice([50, 300])
        if rng.random() < .3: c["pshortw"] = rng.choice([100, 700])
        if rng.random() < .2: c["jitter"] = 5000
        env = {}
        for k, vs in (("TZ", ["UTC", "Asia/Tokyo", ":bad"]), ("LANG", ["de_DE.UTF-8", "C", "tr_TR.UTF-8"]), ("LC_ALL", ["C", "fr_FR"]), ("HOME", ["/", None]), ("USER", ["x"]), ("RUST_LOG", [None, "trace"]), ("SEED", ["1"]), ("PORT", ["1"]), ("X", ["1"]), ("PATH", ["/"])):
            if rng.random() < .3: env[k] = rng.choice(vs)
        w = {"cfg": c, "env": env}
        if rng.random() < .5: w["rtbase"] = rng.choice([0, 951782400, 4102444800, 1709164800]) * 1000000
        if rng.random() < .3: w["keys"] = [rng.choice(["31", "0d", "03", "1b5b41", "ff"]) for _ in range(3)]
        if rng.random() < .2: w["winch"] = rng.choice([0, 100, 2000])
        if rng.random() < .5: w["winsize"] = [rng.choice([1, 10, 24, 200]), rng.choice([1, 10, 40, 80, 200, 1000])]
        if plain:
            # whatever else the program asks for in its surroundings
            if rng.random() < .5: w["penv"] = rng.choice([300, 1000])
            if rng.random() < .5: w["pfile"] = rng.choice([300, 1000])
        return w
    def one(self, case, w, st):
        s = cfg_text(w["cfg"]) + "outtty %d\nend 600000000\nmaxsteps 400000\n" % case["outtty"]
        if "rtbase" in w: s += "rtbase %d\n" % w["rtbase"]
        if "winsize" in w: s += "winsize %d %d\n" % tuple(w["winsize"])
        for k in ("penv", "pfile"):
            if k in w: s += "%s %d\n" % (k, w[k])
        s += "actor a\n" + "".join("key %s\n" % k for k in w.get("keys", []))
        if "winch" in w: s += "sleep %d\nsig 28\n" % w["winch"]
        r = sim.run(s, build.EVAL, case["args"], w["env"], cpu=8)
        st.add(r)
        o = [b"".join(bytes.fromhex(e[3]) for e in r.ev if e[2] == k) for k in ("OUT1", "OUT2")]
        o[1] = re.sub(rb"thread 'main' \(\d+\)", b"thread 'main'", o[1])
        how = "does not end" if r.hang or r.end != "exit" else "is killed by signal %d" % -r.rc if r.rc < 0 else "ends with status %d" % r.rc
        if how == "does not end": o = [b"", b""]
        return r, how, o
    def judge(self, case, st):
        first = None
        for w in case["worlds"]:
            r, how, o = self.one(case, w, st)
            if any("random" in a for a in case["args"]): o = [b"", b""]
            if first is None: first = (how, o)
            elif first[0] != how: raise Violation("ending", "the command %r %s in one process and %s in another" % (case["args"], first[0], how))
            elif first[1] != o:
                k = 0 if first[1][0] != o[0] else 1
                raise Violation("output", "the command %r prints %r in one process and %r in another" % (case["args"], first[1][k][-300:], o[k][-300:]))
            if o[0] or o[1]: st.nontrivial.add(r.digest)
        st.c["probe:" + first[0].replace(" ", "_")] += 1
    def shrink(self, case):
        W = case["worlds"]
        if len(W) > 2:
            for i in range(3):
                c = dict(case); c["worlds"] = W[:i] + W[i + 1:]; yield c
        for i, w in enumerate(W):
            for k in ("keys", "winch", "rtbase", "winsize", "penv", "pfile"):
                if k in w:
                    v = dict(w); del v[k]; c = dict(case); c["worlds"] = W[:i] + [v] + W[i + 1:]; yield c
            for k in w["env"]:
                e = dict(w["env"]); del e[k]; c = dict(case); c["worlds"] = W[:i] + [dict(w, env=e)] + W[i + 1:]; yield c
            for k in ("peintr", "pshortw", "jitter"):
                if k in w["cfg"]:
                    e = dict(w["cfg"]); del e[k]; c = dict(case); c["worlds"] = W[:i] + [dict(w, cfg=e)] + W[i + 1:]; yield c
        if case["args"][:1] == ["--no-color"]: c = dict(case); c["args"] = case["args"][1:]; yield c
