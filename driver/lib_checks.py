"""L01-L05: the prexel library under libsim (see libsim/src/main.rs)."""
import copy, ctypes, fractions, hashlib, json, math, os, random, select, signal, struct, subprocess, time
import build, sim
from sim import Check, Violation

REAL = ["prexel library (context, tokenizer, splitter, evaluator, operators, functions, all number types), unmodified", "its dependencies except the thread-local generator of rand"]
STUB = ["random source (rand::thread_rng)", "process hash seed", "choice of the running thread", "user-supplied functions, operators and a user-supplied number type"]
ASSUME = ["tokens that the splitter would join are written with blanks between them", "threads switch at operations, calls of user functions, uses of the user's number type and random draws"]

# ------------------------------------------------------------------------------- worker
class Worker:
    def __init__(self):
        def pre():
            try: ctypes.CDLL(None).personality(0x0040000)
            except Exception: pass
            signal.signal(signal.SIGINT, signal.SIG_IGN)
        self.p = subprocess.Popen([build.LIBSIM], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=pre, start_new_session=True,
                                  env={"PATH": "/usr/bin:/bin", "RUST_BACKTRACE": "0"})
        self.n = 0
        self.pid = os.getpid()
        self.buf = b""
    def ask(self, case, limit=60):
        try:
            self.p.stdin.write(json.dumps(case).encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            return "crash"
        end = time.time() + limit
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf:
            r, _, _ = select.select([fd], [], [], max(0, end - time.time()))
            if not r: return "hang"
            b = os.read(fd, 1 << 16)
            if not b: return "crash"
            self.buf += b
        l, self.buf = self.buf.split(b"\n", 1)
        return json.loads(l)
    def stop(self):
        # the case runs in a child of the worker
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except OSError: pass
        self.p.wait()

_w = None
def libsim(case, st=None, limit=30):
    global _w
    if _w is not None and (_w.pid != os.getpid() or _w.n > 30000):
        if _w.pid == os.getpid(): _w.stop()
        _w = None
    if _w is None: _w = Worker()
    _w.n += 1
    r = _w.ask(case, limit)
    if isinstance(r, str):
        _w.stop()
        rc = _w.p.returncode
        _w = None
        if r == "hang": raise Violation("hang", "the library does not come back from %s" % brief(case))
        raise Violation("crash", "the process dies (%s) in %s" % (rc, brief(case)))
    if "dead" in r: raise Violation("crash", "the process dies (%s) in %s" % (r["dead"], brief(case)))
    if "bad" in r: raise RuntimeError("libsim: " + r["bad"])
    for a in r["out"]:
        if a and a[0] in ("harness-panic", "thread-panic"): raise RuntimeError("libsim: %r" % (a,))
    if st is not None:
        st.runs += 1
        st.steps += r["points"]
        st.switches += r["switches"]
        st.sched.add(r["trail"] & 0xffffffffffff)
        st.behav.add(hashlib.sha256(json.dumps(r["out"]).encode()).hexdigest()[:24])
    return r
def brief(case):
    return json.dumps(case["actors"], ensure_ascii=False)[-700:]
def solo(ops, st=None, **kw):
    c = {"actors": [ops]}
    c.update(kw)
    return libsim(c, st)["out"][0]
def digest(x): return hashlib.sha256(json.dumps(x).encode()).hexdigest()[:24]

# ------------------------------------------------------------------------------- values
INTS = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "i128": (-2**127, 2**127 - 1), "isize": (-2**63, 2**63 - 1)}
def fshow(x):
    """How Rust's {:?} shows a float that is an integer or has few decimals."""
    s = repr(float(x))
    return s
def show(t, lit):
    if t in ("f64", "f32"): return fshow(lit)
    if t in ("complex", "complex32"): return [fshow(lit), "0.0"]
    return lit
def litnum(rng, t):
    if t in ("f64", "f32", "decimal", "complex", "complex32") and rng.random() < .15: return "%d.%s" % (rng.randint(0, 99), rng.choice(["5", "25", "75"]))
    return str(rng.choice([0, 1, 2, 3, 7, 10, rng.randint(0, 999)]))

# ------------------------------------------------------------------------------- expressions
FNAMES = ["f", "g", "h2", "max", "sum", "foo_1", "_h", "K", "π", "∑", "Avg", "mod_f", "notf", "É"]
PRE = ["-", "~", "neg", "¬", "+", "not", "√", "!!", "--", "nn"]
POST = ["!", "°", "sq", "?", "%%", "'", "m"]
BIN = ["+", "-", "*", "/", "^", "**", "mod", "and", "<=", "⊕", "=>", "!=", "o", "~~", "minus", "∧", "%"]
VN = ["x", "y", "foo", "X", "_t", "r2d2", "ω", "long_name_9"]
CN = ["PI", "e", "Tau", "∞", "C1", "é"]
LTYPES = ["f64", "i64", "i32", "decimal", "complex", "binary", "sym", "i128", "f32", "isize", "complex32"]

def rcase(rng, n):
    return "".join(rng.choice([c.upper(), c.lower()]) if c.isascii() else c for c in n) if rng.random() < .25 else n

class Ctx:
    """The definitions of one evaluator, and how they are built."""
    def __init__(self, rng, e, t=None, beh="id"):
        self.e = e
        self.t = t or rng.choice(LTYPES)
        self.cfg = {"im": rng.random() < .3, "cx": self.t in ("complex", "complex32") and rng.random() < .5, "cf": rng.random() < .4, "br": rng.random() < .5}
        self.vars, self.consts, self.f, self.pre, self.post, self.bin = {}, {}, {}, {}, {}, {}
        self.ops = [{"o": "new", "e": e, "t": self.t, "k": "empty", "cfg": self.cfg}]
        used = set()
        nid = [e * 100]
        def free(n):
            k = n.lower()
            if k in used: return False
            used.add(k)
            return True
        def reg(k, pool, cnt, d):
            for n in rng.sample(pool, cnt):
                if not free(n): continue
                nid[0] += 1
                spec = {"id": nid[0], "n": n, "k": k, "beh": beh}
                names = [n]
                if rng.random() < .3:
                    al = [a for a in rng.sample(pool, 2) if free(a)]
                    if al: spec["a"] = al; names += al
                op = {"o": "fn", "e": e, "f": spec}
                if rng.random() < .15:
                    # registered under another name than its own
                    op["as"] = n
                    spec["n"] = "own_name"
                if d is self.pre: spec["not"] = "pre"
                if d is self.post: spec["not"] = "post"
                if d is self.bin:
                    spec["p"] = rng.choice([0, 1, 2, 3, 4, 4294967295, 11])
                    spec["as"] = rng.choice("LLR")
                self.ops.append(op)
                for x in names: d[x] = spec
        reg("b", BIN, rng.randint(1, 6), self.bin)
        if self.cfg["im"] and "*" not in self.bin and free("*"):
            nid[0] += 1
            spec = {"id": nid[0], "n": "*", "k": "b", "beh": beh, "p": 2, "as": "L"}
            self.ops.append({"o": "fn", "e": e, "f": spec}); self.bin["*"] = spec
        if self.cfg["im"] and "*" not in self.bin: self.cfg["im"] = False
        # an operator may be prefix and infix; the maps are separate
        shared = [n for n in self.bin if n in PRE and rng.random() < .6]
        for n in shared:
            nid[0] += 1
            spec = {"id": nid[0], "n": n, "k": "u", "beh": beh, "not": "pre"}
            self.ops.append({"o": "fn", "e": e, "f": spec}); self.pre[n] = spec
        reg("u", PRE, rng.randint(0, 4), self.pre)
        reg("u", POST, rng.randint(0, 3), self.post)
        reg("f", FNAMES, rng.randint(1, 5), self.f)
        for n in rng.sample(VN, rng.randint(0, 3)):
            if free(n):
                v = litnum(rng, self.t); self.vars[n] = v; self.ops.append({"o": "var", "e": e, "n": n, "v": v})
        for n in rng.sample(CN, rng.randint(0, 2)):
            if free(n):
                v = litnum(rng, self.t); self.consts[n] = v; self.ops.append({"o": "const", "e": e, "n": n, "v": v})
        rest = self.ops[1:]
        rng.shuffle(rest)
        self.ops[1:] = rest

def gen_tree(rng, c, d):
    r = rng.random()
    if d <= 0 or r < .12:
        r = rng.random()
        if c.vars and r < .3: return ["v", rng.choice(sorted(c.vars))]
        if c.consts and r < .45: return ["c", rng.choice(sorted(c.consts))]
        return ["n", litnum(rng, c.t)]
    if r < .42 and c.f:
        n = rng.choice([0, 1, 1, 2, 2, 3, 5])
        if rng.random() < .04: return ["f", rng.choice(sorted(c.f))] + [gen_tree(rng, c, 0) if rng.random() < .8 else gen_tree(rng, c, 1) for _ in range(rng.choice([6, 7, 8, 9, 10, 12, 16, 17, 20, 33, 40, 65]))]
        return ["f", rng.choice(sorted(c.f))] + [gen_tree(rng, c, d - 1) for _ in range(n)]
    if r < .55 and c.pre: return ["u", rng.choice(sorted(c.pre)), gen_tree(rng, c, d - 1)]
    if r < .65 and c.post: return ["p", rng.choice(sorted(c.post)), gen_tree(rng, c, d - 1)]
    if r < .7 and c.cfg["im"]: return ["i", "*", gen_tree(rng, c, d - 1), gen_tree(rng, c, d - 1)]
    if r < .74: return ["g", gen_tree(rng, c, d - 1)]
    if c.bin: return ["b", rng.choice(sorted(c.bin)), gen_tree(rng, c, d - 1), gen_tree(rng, c, d - 1)]
    return gen_tree(rng, c, 0)

def group(rng, toks):
    o, x = rng.choice(["()", "()", "()", "[]", "{}"])
    return [["(", o]] + toks + [[")", x]]

def toks_of(rng, c, t):
    """Tokens of a tree, with every pair of parentheses its grouping needs and some it does not."""
    k = t[0]
    if k in "vcn":
        return [[k, rcase(rng, t[1]) if k == "c" else t[1]]]
    if k == "g": return group(rng, toks_of(rng, c, t[1]))
    if k == "f":
        o, x = rng.choice(["()", "[]", "{}"]) if c.cfg["cf"] else "()"
        out = [["f", rcase(rng, t[1])], ["(", o]]
        for i, a in enumerate(t[2:]):
            if i: out.append([",", ","])
            out += toks_of(rng, c, a)
        return out + [[")", x]]
    def wrap(a, need):
        x = toks_of(rng, c, a)
        return group(rng, x) if need or rng.random() < .1 else x
    if k == "u": return [["u", rcase(rng, t[1])]] + wrap(t[2], t[2][0] in "bp")
    if k == "p": return wrap(t[2], t[2][0] in "bu") + [["p", rcase(rng, t[1])]]
    if k == "i":
        l = toks_of(rng, c, t[2])
        if not (t[2][0] in "nf" or l[0][0] == "(" and t[2][0] in "gi"): l = group(rng, l)
        r = toks_of(rng, c, t[3])
        if not (t[3][0] in "vcf" or t[3][0] == "n" and l[-1][0] == ")" or t[3][0] in "gi"): r = group(rng, r)
        return [["(", "("]] + l + r + [[")", ")"]]
    if k == "b":
        me = c.bin[t[1]]
        def need(a, left):
            if a[0] != "b": return False
            o = c.bin[a[1]]
            if o["p"] > me["p"]: return False
            if o["p"] < me["p"]: return True
            if o["as"] != me["as"]: return True
            return (o["as"] == "R") == left
        return wrap(t[2], need(t[2], True)) + [["b", rcase(rng, t[1])]] + wrap(t[3], need(t[3], False))
    raise ValueError(t)

IDC = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
OPC = set("~`!@#$%^&*-+_:;\"'|\\?.<>/=,")
def text_of(rng, toks, spacy):
    s = ""
    for k, x in toks:
        if s:
            a, b = s[-1], x[0]
            glue = a.isspace() or (a in "()[]{}" or b in "()[]{}" or not a.isascii() or not b.isascii() or (a in IDC and b in OPC - IDC and b != ".") or (a in OPC - IDC and b in IDC and b != "_"))
            if not glue or rng.random() < spacy: s += rng.choice([" ", " ", "  ", "\t", "\n"])
        s += x
    if rng.random() < .1: s = " " + s
    if rng.random() < .1: s += " "
    return s
def tokens_of(toks):
    return [["u", x] if k == "p" else [k, x] for k, x in toks]

def match(c, tree, res, calls, ctx="", table=None):
    """The recorded calls are the tree: every operation once, on the values of its operands, after them."""
    byval = {}
    for i, q in enumerate(calls):
        if q[2] is None: raise Violation("calls", "%s: a call of #%d did not return" % (ctx, q[0]))
        byval[json.dumps(q[2])] = i
    used = [0] * len(calls)
    def walk(n, val):
        k = n[0]
        if k == "g": return walk(n[1], val)
        if k in "vcn":
            want = show(c.t, n[1] if k == "n" else (c.vars if k == "v" else c.consts)[n[1]])
            if val != want: raise Violation("operand", "%s: %s has the value %r instead of %r" % (ctx, n[1], val, want))
            return -1
        spec = {"f": c.f, "u": c.pre, "p": c.post, "b": c.bin, "i": c.bin}[k][n[1]]
        i = byval.get(json.dumps(val))
        if i is None: raise Violation("unapplied", "%s: the value %r taken for the result of %s comes from no call" % (ctx, val, n[1]))
        q = calls[i]
        if q[0] != spec["id"]: raise Violation("unapplied", "%s: the value %r taken for the result of %s (#%d) was returned by #%d" % (ctx, val, n[1], spec["id"], q[0]))
        if used[i]: raise Violation("shared", "%s: the call of %s is used twice" % (ctx, n[1]))
        used[i] = 1
        if len(q[1]) != len(n) - 2: raise Violation("arguments", "%s: %s got %d operands, written are %d" % (ctx, n[1], len(q[1]), len(n) - 2))
        for a, v in zip(n[2:], q[1]):
            j = walk(a, v)
            if j >= i: raise Violation("order", "%s: %s was applied before its operand was there" % (ctx, n[1]))
        return i
    walk(tree, res)
    if not all(used): raise Violation("extra", "%s: %d calls belong to nothing written, among them %r" % (ctx, used.count(0), calls[used.index(0)]))

def napps(t):
    if t[0] in "vcn": return 0
    if t[0] == "g": return napps(t[1])
    return 1 + sum(napps(x) for x in t[2:])
def subtrees(t):
    if t[0] in "vcn": return []
    return [x for x in (t[1:] if t[0] == "g" else t[2:])]
def simpler(t):
    """Smaller trees of the same definitions."""
    for s in subtrees(t): yield s
    if t[0] == "f" and len(t) > 2:
        for i in range(2, len(t)): yield t[:i] + t[i + 1:]
    off = 1 if t[0] == "g" else 2
    if t[0] not in "vcn":
        for i in range(off, len(t)):
            for s in simpler(t[i]): yield t[:i] + [s] + t[i + 1:]
        yield ["n", "1"]

class LibCheck(Check):
    needs = ("libsim",)
    real, stub = REAL, STUB
    assumptions = ASSUME
    quick_s, thorough_s = 40, 600
    def sample(self, case):
        s = json.dumps(case, ensure_ascii=False)
        return case if len(s) < 6000 else {"case": s[:6000] + "..."}

def ctx_of(d):
    """The definitions of a stored case."""
    c = Ctx.__new__(Ctx)
    c.e, c.t, c.cfg = d["e"], d["t"], d["cfg"]
    c.vars, c.consts, c.f, c.pre, c.post, c.bin, c.ops = d["vars"], d["consts"], d["f"], d["pre"], d["post"], d["bin"], d["ops"]
    return c
def ctx_dict(c):
    return {k: getattr(c, k) for k in ("e", "t", "cfg", "vars", "consts", "f", "pre", "post", "bin", "ops")}

def check_setup(ops, res, what="registration"):
    for o, r in zip(ops, res):
        if r["r"][0] != "ok": raise Violation("refused", "%s %s is refused: %r" % (what, json.dumps(o, ensure_ascii=False), r["r"]))

# ------------------------------------------------------------------------------- L02
def break_tokens(rng, c, toks):
    """Makes well-formed tokens malformed for certain. Returns the kind of damage and the tokens."""
    toks = [list(x) for x in toks]
    kind = rng.choice(["open", "close", "mismatch", "unknown", "tail", "head", "comma", "top-comma", "empty-group", "two", "blank"])
    opens = [i for i, x in enumerate(toks) if x[0] == "("]
    closes = [i for i, x in enumerate(toks) if x[0] == ")"]
    leafs = [i for i, x in enumerate(toks) if x[0] in "vcn"]
    other = {")": "]", "]": "}", "}": ")"}
    if kind == "open" and opens:
        del toks[rng.choice(opens)]
    elif kind == "close" and closes:
        del toks[rng.choice(closes)]
    elif kind == "mismatch" and closes:
        i = rng.choice(closes); toks[i][1] = other[toks[i][1]]
    elif kind == "unknown" and leafs:
        toks[rng.choice(leafs)] = ["?", rng.choice(["unknown_q", "§", "q9z"])]
    elif kind == "tail":
        ops = [n for n in c.bin if n not in c.post]
        if not ops: return None
        toks.append(["b", rng.choice(sorted(ops))])
    elif kind == "head":
        ops = [n for n in c.bin if n not in c.pre and n not in c.post]
        if not ops: return None
        toks.insert(0, ["b", rng.choice(sorted(ops))])
    elif kind == "comma":
        cs = [i for i, x in enumerate(toks) if x[0] == ","]
        if not cs: return None
        toks.insert(rng.choice(cs), [",", ","])
    elif kind == "top-comma":
        toks = toks + [[",", ","]] + [["n", "5"]]
    elif kind == "empty-group" and leafs:
        i = rng.choice(leafs)
        # not as the only thing between the parentheses of a call
        if i and toks[i - 1][0] == "(" and i > 1 and toks[i - 2][0] == "f": return None
        toks[i:i + 1] = [["(", "("], [")", ")"]]
    elif kind == "two" and leafs and not c.cfg["im"] and not c.cfg["cx"]:
        i = rng.choice(leafs)
        toks.insert(i + 1, ["n", "3"])
    elif kind == "blank":
        return kind, []
    else:
        return None
    return kind, toks

class L02(LibCheck):
    prop = "L02"
    quick_n, thorough_n = 60000, 1500000
    rule = "a case defines functions and prefix, postfix and infix operators (seeded names, further names, precedences, associativities) for a number type, and evaluates written expression trees over them (now and then with hundreds of operands or levels), some calls re-entering this or another evaluator, up to 35 evaluations deep; the recorded calls must be exactly the written tree; damaged variants must be rejected; non-trivial with at least two calls; distinct by the digest of everything observed"
    def gen(self, rng, i):
        cs = [Ctx(rng, 1)]
        if rng.random() < .5: cs.append(Ctx(rng, 2))
        steps = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            steps.append(self.step(rng, cs, 2))
        if rng.random() < .006:
            # evaluations within evaluations within evaluations
            s = None
            for _ in range(rng.choice([6, 12, 24, 35])):
                c = rng.choice(cs)
                tree = gen_tree(rng, c, rng.choice([1, 2]))
                n = napps(tree)
                if not n: continue
                toks = toks_of(rng, c, tree)
                x = {"e": c.e, "tree": tree, "how": rng.choice(["eval", "tok"]), "toks": toks, "text": text_of(rng, toks, .3)}
                if s: x["nest"] = {"at": rng.randrange(n), "steps": [s]}
                s = x
            if s: steps.append(s)
        return {"ctx": [ctx_dict(c) for c in cs], "steps": steps, "hs": rng.getrandbits(32)}
    def step(self, rng, cs, nest):
        c = rng.choice(cs)
        r = rng.random()
        tree = gen_tree(rng, c, rng.choice([1, 2, 3, 3, 4, 6]))
        if napps(tree) > 150: tree = gen_tree(rng, c, 2)
        toks = toks_of(rng, c, tree)
        s = {"e": c.e, "tree": tree, "how": rng.choice(["eval", "eval", "tok", "tokens"])}
        if r < .2:
            b = break_tokens(rng, c, toks)
            if b:
                s["bad"], toks = b
                s["how"] = rng.choice(["eval", "eval", "tok"])
        elif r < .25:
            # long chains and deep nesting
            s["tree"] = tree = self.big(rng, c)
            toks = toks_of(rng, c, tree)
        s["toks"], s["text"] = toks, text_of(rng, toks, rng.choice([0, .3, 1]))
        n = napps(tree)
        if nest and n and "bad" not in s and rng.random() < .35:
            s["nest"] = {"at": rng.randrange(n), "steps": [self.step(rng, cs, nest - 1) for _ in range(rng.choice([1, 1, 2]))]}
        return s
    def big(self, rng, c):
        t = ["n", "1"]
        k = rng.choice("fugbpw")
        if k == "w" and c.f:
            # more operands than a small number can count
            a = [gen_tree(rng, c, 0) for _ in range(rng.choice([127, 130, 255, 256, 257, 300, 600]))]
            for _ in range(rng.choice([0, 0, 1, 3])): a[rng.randrange(len(a))] = gen_tree(rng, c, 1)
            return ["f", rng.choice(sorted(c.f))] + a
        for _ in range(rng.choice([30, 60, 60, 100, 140, 270])):
            if k == "f" and c.f: t = ["f", rng.choice(sorted(c.f)), t, ["n", "2"]] if rng.random() < .5 else ["f", rng.choice(sorted(c.f)), ["n", "2"], t]
            elif k == "u" and c.pre: t = ["u", rng.choice(sorted(c.pre)), t]
            elif k == "p" and c.post: t = ["p", rng.choice(sorted(c.post)), t]
            elif k == "g": t = ["g", t]
            elif c.bin: t = ["b", rng.choice(sorted(c.bin)), t, ["n", "2"]] if rng.random() < .5 else ["b", rng.choice(sorted(c.bin)), ["n", "2"], t]
        return t
    def op(self, s):
        o = {"o": s["how"], "e": s["e"]}
        if s["how"] == "tokens": o["t"] = tokens_of(s["toks"])
        else: o["x"] = s["text"]
        if "nest" in s: o["nest"] = {"at": s["nest"]["at"], "ops": [self.op(x) for x in s["nest"]["steps"]]}
        return o
    def verify(self, cs, s, r, st):
        c = cs[s["e"]]
        what = repr(s["text"]) + " over " + c.t
        if "bad" in s:
            if r["r"][0] == "ok": raise Violation("accepted", "the malformed expression %s (%s) gives %r" % (what, s["bad"], r["r"][1]))
            if r["r"][0] != "err": raise Violation("panic", "the malformed expression %s (%s): %r" % (what, s["bad"], r["r"]))
            st.c["probe:malformed_rejected"] += 1
            return
        if r["r"][0] != "ok": raise Violation("rejected", "the expression %s is not evaluated: %r" % (what, r["r"]))
        calls = r.get("c", [])
        match(c, s["tree"], r["r"][1], calls, what)
        st.c["probe:calls_matched"] += len(calls)
        if "nest" in s:
            k = s["nest"]["at"]
            if len(calls[k]) < 4: raise Violation("lost", "%s: a nested use left no record" % what)
            for x, y in zip(s["nest"]["steps"], calls[k][3]): self.verify(cs, x, y, st)
            st.c["fault:reentrant_use"] += len(calls[k][3])
    def judge(self, case, st):
        cs = {d["e"]: ctx_of(d) for d in case["ctx"]}
        setup = [o for c in cs.values() for o in c.ops]
        ops = setup + [self.op(s) for s in case["steps"]]
        out = solo(ops, st, hs=case["hs"])
        check_setup(setup, out)
        for s, r in zip(case["steps"], out[len(setup):]): self.verify(cs, s, r, st)
        if sum(len(r.get("c", [])) for r in out) > 1: st.nontrivial.add(digest(out))
    def shrink(self, case):
        ss = case["steps"]
        for i in range(len(ss)):
            if len(ss) > 1: yield dict(case, steps=ss[:i] + ss[i + 1:])
        if len(case["ctx"]) > 1:
            for d in case["ctx"]:
                keep = [s for s in ss if s["e"] != d["e"] and "nest" not in s]
                if keep: yield dict(case, steps=keep, ctx=[x for x in case["ctx"] if x["e"] != d["e"]])
        rng = random.Random(5)
        for i, s in enumerate(ss):
            if "nest" in s: yield dict(case, steps=ss[:i] + [{k: v for k, v in s.items() if k != "nest"}] + ss[i + 1:])
        for i, s in enumerate(ss):
            if "bad" in s or "nest" in s: continue
            c = ctx_of([d for d in case["ctx"] if d["e"] == s["e"]][0])
            for t in simpler(s["tree"]):
                toks = toks_of(random.Random(1), c, t)
                yield dict(case, steps=ss[:i] + [dict(s, tree=t, toks=toks, text=text_of(random.Random(1), toks, 1))] + ss[i + 1:])
        for i, d in enumerate(case["ctx"]):
            used = set(json.dumps(case["steps"]).lower().replace('"', " ").split())
            for j in range(1, len(d["ops"])):
                o = d["ops"][j]
                if not any(json.dumps(n).strip('"').lower() in used for n in op_names(o)): yield dict(case, ctx=case["ctx"][:i] + [dict(d, ops=d["ops"][:j] + d["ops"][j + 1:])] + case["ctx"][i + 1:])
def op_names(o):
    if o["o"] != "fn": return [o["n"]]
    return [o.get("as") or o["f"]["n"]] + (o["f"].get("a") or [])

# ------------------------------------------------------------------------------- L01
KINDS = ["Overflow", "Zero", "NAN", "InvalidInput", "InvalidArgumentCount", "DivisionByZero", "NegativeValue", "PositiveValue", "InvalidExpression", "Empty", "Unknown"]
MSGS = [None, None, "boom", "", "Variable `x` not found", "é ∞", "x" * 300]
class L01(LibCheck):
    prop = "L01"
    quick_n, thorough_n = 40000, 1000000
    rule = "a case defines user functions and operators beside none or all of the built-in ones, evaluates expressions, lets a user function return a seeded error or panic at a seeded call of a target expression (also while re-entered), then evaluates on; compared call for call with the run without the failure and an untouched twin; non-trivial when the failure struck after at least one call; distinct by the digest of everything observed"
    def gen(self, rng, i):
        cs = [Ctx(rng, 1, beh="pure")]
        if rng.random() < .4: cs.append(Ctx(rng, 2, beh="pure"))
        def ex(c, d=None):
            tree = gen_tree(rng, c, d or rng.choice([1, 2, 3, 4]))
            toks = toks_of(rng, c, tree)
            o = rng.choice(["eval", "eval", "tok"])
            return {"o": o, "e": c.e, "x": text_of(rng, toks, .5)}, napps(tree)
        faults = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            for _ in range(20):
                c = rng.choice(cs)
                op, n = ex(c, rng.choice([2, 3, 3, 4]))
                if n: break
            if rng.random() < .25:
                # the failure is in what the library asks about, not in a call: the context, a precedence, the number type
                f = {"at": rng.choice([0, 1, 2, rng.randrange(12), rng.randrange(100), rng.randrange(400)]), "what": "look", "msg": rng.choice(["boom", "é", "context gone", ""])}
                faults.append({"op": op, "fault": f})
                continue
            if not n: continue
            f = {"at": rng.randrange(min(n, 60)), "what": rng.choice(["err", "err", "panic"])}
            if f["what"] == "err":
                f["kind"] = rng.choice(KINDS); f["msg"] = rng.choice(MSGS)
            else: f["msg"] = rng.choice(["boom", "é", "attempt to add with overflow", ""])
            if rng.random() < .25:
                inner, m = ex(rng.choice(cs))
                if m and rng.random() < .6: inner["fault"] = dict(f, at=rng.randrange(m)); f["inner"] = True
                op["nest"] = {"at": rng.randrange(n) if "inner" in f else f["at"], "ops": [inner]}
            faults.append({"op": op, "fault": f})
        post = []
        for _ in range(rng.choice([1, 2, 4])):
            r = rng.random()
            c = rng.choice(cs)
            if r < .6: post.append(ex(c)[0])
            elif r < .8 and faults: post.append({k: v for k, v in rng.choice(faults)["op"].items() if k != "nest"})
            elif r < .9: post.append({"o": "var", "e": c.e, "n": rng.choice(VN), "v": litnum(rng, c.t)})
            else: post.append({"o": "clone", "e": 10 + c.e, "from": c.e}); post.append({"o": "list", "e": 10 + c.e})
        pre = [ex(rng.choice(cs))[0] for _ in range(rng.choice([0, 0, 1, 2]))]
        case = {"ctx": [ctx_dict(c) for c in cs], "pre": pre, "faults": faults, "post": post, "hs": rng.getrandbits(32)}
        if faults and rng.random() < .03: case["storm"] = [rng.randrange(len(faults)), rng.choice([8, 20, 70, 130, 300])]
        return case
    def judge(self, case, st):
        setup = [o for d in case["ctx"] for o in d["ops"]]
        lists = [{"o": "list", "e": d["e"]} for d in case["ctx"]]
        def op(x, faulty):
            o = json.loads(json.dumps(x["op"]))
            f = {k: v for k, v in x["fault"].items() if k != "inner"}
            if x["fault"].get("inner"):
                if not faulty: o["nest"]["ops"][0].pop("fault", None)
            elif faulty: o["look" if f["what"] == "look" else "fault"] = f
            return o
        errs = [{"o": "mkerr", "e": 99, "kind": x["fault"]["kind"], "msg": x["fault"]["msg"]} for x in case["faults"] if x["fault"]["what"] == "err"]
        storm = []
        if case.get("storm") and case["storm"][0] < len(case["faults"]): storm = [op(case["faults"][case["storm"][0]], True)] * case["storm"][1]
        A = setup + case["pre"] + errs + storm + [o for x in case["faults"] for o in [op(x, True)] + lists] + case["post"] + lists
        B = setup + case["pre"] + errs + lists + case["post"] + lists
        ra = solo(A, st, hs=case["hs"])
        rb = solo(B, st, hs=case["hs"] + 1)
        rc = solo(setup + case["pre"] + [op(x, False) for x in case["faults"]], st, hs=case["hs"] + 2)
        check_setup(setup, ra)
        n = len(setup) + len(case["pre"])
        if ra[:n] != rb[:n] or ra[:n] != rc[:n]: raise Violation("unequal", "the same operations give different answers: %s" % diff(A[:n], ra[:n], rb[:n] if ra[:n] != rb[:n] else rc[:n]))
        made = [r["r"] for r in ra[n:n + len(errs)]]
        p = n + len(errs)
        base = [r["r"] for r in rb[p:p + len(lists)]]
        p += len(storm)
        struck = 0
        for j, x in enumerate(case["faults"]):
            f, r, full = x["fault"], ra[p], rc[n + j]
            ls = [q["r"] for q in ra[p + 1:p + 1 + len(lists)]]
            p += 1 + len(lists)
            want = made.pop(0) if f["what"] == "err" else ["panic", f["msg"]]
            k = x["op"]["nest"]["ops"][0]["fault"]["at"] if f.get("inner") else f["at"]
            if f["what"] == "look":
                T, calls = full.get("c", []), r.get("c", [])
                w = "the panic of question %d to the context or a name's definition in %r" % (k, x["op"]["x"])
                if r["r"] == want and full["r"] != want:
                    if calls != T[:len(calls)]: raise Violation("different", "%s: the calls before it were %r, without the failure %r" % (w, calls, T))
                    struck += 1
                    st.c["fault:lookup_panic"] += 1
                    if k: st.nontrivial.add(digest([ra, j]))
                elif r != full: raise Violation("swallowed", "%s: comes out as %r, without it %r" % (w, r, full))
                if ls != base: raise Violation("state", "%s changed the definitions: %s" % (w, diff(lists, ls, base)))
                continue
            what = "%s of call %d of %r" % ("the error" if f["what"] == "err" else "the panic", k, x["op"]["x"])
            if f.get("inner"):
                # the failure was inside the nested use: it ends that one, the outer goes on
                if strip(full) != strip(r): raise Violation("spread", "%s inside a nested use changes the outer one: %r instead of %r" % (what, strip(r), strip(full)))
                nr = [q[3][0] for q in r.get("c", []) if len(q) > 3]
                nf = [q[3][0] for q in full.get("c", []) if len(q) > 3]
                pairs = list(zip(nr, nf))
            else: pairs = [(r, full)]
            for r1, f1 in pairs:
                T = f1.get("c", [])
                if k >= len(T): continue
                calls = r1.get("c", [])
                if r1["r"][0] == "ok": raise Violation("swallowed", "%s: a value came out, %r" % (what, r1["r"][1]))
                if r1["r"] != want: raise Violation("changed", "%s comes out as %r instead of %r" % (what, r1["r"], want))
                if len(calls) > k + 1: raise Violation("continued", "%s: %d more calls of user functions" % (what, len(calls) - k - 1))
                if len(calls) < k + 1 or [q[:3] for q in calls[:k]] != [q[:3] for q in T[:k]] or calls[k][:2] != T[k][:2] or calls[k][2] is not None:
                    raise Violation("different", "%s: the calls before it were %r, without the failure %r" % (what, calls, T[:k + 1]))
                struck += 1
                st.c["fault:user_%s" % ("error" if f["what"] == "err" else "panic")] += 1
                if k: st.nontrivial.add(digest([ra, j]))
            if ls != base: raise Violation("state", "%s changed the definitions: %s" % (what, diff(lists, ls, base)))
        if ra[p:] != rb[p - len(storm) - len(case["faults"]) * (1 + len(lists)) + len(lists):]:
            raise Violation("later", "after the failures: %s" % diff(A[p:], ra[p:], rb[len(rb) - len(ra[p:]):]))
    def shrink(self, case):
        if "storm" in case:
            yield {k: v for k, v in case.items() if k != "storm"}
            if case["storm"][1] > 1: yield dict(case, storm=[case["storm"][0], case["storm"][1] // 2]); yield dict(case, storm=[case["storm"][0], case["storm"][1] - 1])
        for k in ("pre", "faults", "post"):
            for i in range(len(case[k])):
                if k != "faults" or len(case[k]) > 1: yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
        for i, x in enumerate(case["faults"]):
            if "nest" in x["op"] and not x["fault"].get("inner"):
                yield dict(case, faults=case["faults"][:i] + [dict(x, op={k: v for k, v in x["op"].items() if k != "nest"})] + case["faults"][i + 1:])
        for i, d in enumerate(case["ctx"]):
            for j in range(1, len(d["ops"])):
                yield dict(case, ctx=case["ctx"][:i] + [dict(d, ops=d["ops"][:j] + d["ops"][j + 1:])] + case["ctx"][i + 1:])
def strip(r):
    r = json.loads(json.dumps(r))
    r["c"] = [q[:3] for q in r.get("c", [])]
    return r
def diff(ops, a, b):
    for o, x, y in zip(ops, a, b):
        if x != y: return "%s gives %s instead of %s" % (json.dumps(o, ensure_ascii=False)[:300], json.dumps(x, ensure_ascii=False)[:400], json.dumps(y, ensure_ascii=False)[:400])
    return "%d answers instead of %d" % (len(a), len(b))

# ------------------------------------------------------------------------------- L03
def fold(s): return tuple(c.lower() for c in s)
L3NAMES = ["x", "X", "abc", "ABC", "aBc", "pi", "PI", "π", "Π", "é", "É", "ß", "ẞ", "Σ", "σ", "ς", "İ", "i", "I", "ı", "K", "k", "\u212a", "sum", "Sum", "SUM", "max", "+", "-", "!", "ω", "Ω", "\u2126", "a_1", "A_1", "ﬁ", "FI", "Ǆ", "ǆ", "ǅ", "été", "ÉTÉ", "ΑΒΓ", "αβγ", "mod", "MOD", "$r", "∑", "и", "И"]
L3BAD = ["", " ", "a b", "\t", "a\nb", "\u0007", "a\u00a0b", "\u2003"]
class L03(LibCheck):
    prop = "L03"
    quick_n, thorough_n = 40000, 1000000
    rule = "a case is a history of setting variables, adding constants, functions and operators under colliding names, case variants, further names that collide midway and invalid names, now and then hundreds of further names, with copies of the context; after every step all names are looked up and used and compared with a table of what was accepted; non-trivial when at least one registration was refused and one name was registered twice; distinct by the digest of everything observed"
    def gen(self, rng, i):
        t = rng.choice(LTYPES)
        k = "empty"
        if t != "sym" and rng.random() < .2: k = {"decimal": "std", "complex": "std", "complex32": "std", "binary": "std"}.get(t, "checked")
        names = rng.sample(L3NAMES, rng.choice([2, 3, 5, 8]))
        for n in list(names):
            if rng.random() < .5: names += [x for x in L3NAMES if x != n and (fold(x) == fold(n) or x.lower() == n.lower() or x.upper() == n.upper())]
        if k != "empty": names += rng.sample(["PI", "e", "sum", "avg", "AVERAGE", "+", "mod", "%", "random", "and", "~", "not"], 3)
        ops = [{"o": "new", "e": 1, "t": t, "k": k}]
        evs = [1]
        for j in range(rng.choice([3, 6, 12, 25])):
            r = rng.random()
            e = rng.choice(evs)
            n = rng.choice(names) if rng.random() < .95 else rng.choice(L3BAD)
            if r < .3: ops.append({"o": "var", "e": e, "n": n, "v": litnum(rng, t)})
            elif r < .5: ops.append({"o": "const", "e": e, "n": n, "v": litnum(rng, t)})
            elif r < .93:
                f = {"id": j + 1, "n": n, "k": rng.choice("ffub"), "beh": "id", "not": rng.choice(["pre", "post"]), "p": rng.choice([0, 1, 2]), "as": rng.choice("LR")}
                if rng.random() < .5: f["a"] = [rng.choice(names) for _ in range(rng.choice([0, 1, 2, 3]))]
                op = {"o": "fn", "e": e, "f": f}
                if rng.random() < .3: op["as"] = rng.choice(names) if rng.random() < .95 else rng.choice(L3BAD)
                ops.append(op)
            elif r < .97 and len(evs) < 4:
                ops.append({"o": "clone", "e": len(evs) + 1, "from": e}); evs.append(len(evs) + 1)
            else:
                ops.append({"o": "eval", "e": e, "x": rng.choice(["1 +", "unknown", "(", "1 2"])})
        if rng.random() < .012:
            # more names than anybody registers by hand; looked up at the end only
            bulk = []
            one = rng.choice([None, None, ("var", 0), ("const", 0), ("fn", "f"), ("fn", "u"), ("fn", "b")])
            for j in range(rng.choice([70, 140, 300, 600])):
                n = "q%s%d" % (rng.choice(["", "", "_", "Zz", "é"]), j)
                kind = one[0] if one else rng.choice(["var", "const", "fn"])
                if kind == "fn": o = {"o": "fn", "e": 1, "f": {"id": 1000 + j, "n": n, "k": one[1] if one else rng.choice("ffub"), "beh": "id", "not": rng.choice(["pre", "post"]), "p": 1, "as": "L"}}
                else: o = {"o": kind, "e": 1, "n": n, "v": litnum(rng, t)}
                bulk.append(dict(o, quiet=1))
                if rng.random() < .02: names.append(n)
            p = rng.randint(1, len(ops))
            ops[p:p] = bulk
        return {"t": t, "ops": ops, "names": sorted(set(names)), "hs": rng.getrandbits(32)}
    def judge(self, case, st):
        t = case["t"]
        names = case["names"]
        # registrations, each followed by looking every name up in every evaluator that exists
        ops, mark, evs = [], [], []
        for o in case["ops"]:
            if o["o"] in ("new", "clone"):
                if o["o"] == "clone" and o["from"] not in evs: continue
                evs.append(o["e"])
            elif o["e"] not in evs: continue
            mark.append(len(ops)); ops.append(o)
            look = [] if o.get("quiet") else evs if o["o"] == "clone" else [o["e"]] + [e for e in evs if e != o["e"]][:1]
            for e in look:
                ops.append({"o": "list", "e": e})
                ops += [{"o": "get", "e": e, "n": n} for n in names]
        out = solo(ops, st, hs=case["hs"])
        model = {}
        refused = again = 0
        for mi, i in enumerate(mark):
            o, r = ops[i], out[i]["r"]
            e = o["e"]
            end = mark[mi + 1] if mi + 1 < len(mark) else len(ops)
            what = json.dumps(o, ensure_ascii=False)
            ok = r[0] == "ok"
            if o["o"] == "new":
                if not ok: raise Violation("refused", "%s: %r" % (what, r))
                model[e] = {"v": {}, "c": {}, "f": {}, "u": {}, "b": {}}
                # whatever the context comes with
                L = out[i + 1]["r"]
                for n, v in L["v"]: model[e]["v"][n] = v
                for s in "cfub":
                    for n, v in L[s]: model[e][s][fold(n)] = v
            elif o["o"] == "clone": model[e] = {k: dict(v) for k, v in model[o["from"]].items()}
            elif o["o"] == "var":
                M = model[e]
                n = o["n"]
                good = self.valid(n)
                if ok:
                    if fold(n) in M["c"]: raise Violation("constant", "%s is accepted, although %s is a constant" % (what, n))
                    if r[1] != M["v"].get(n): raise Violation("previous", "%s reports the previous value %r instead of %r" % (what, r[1], M["v"].get(n)))
                    again += n in M["v"]
                    M["v"][n] = show(t, o["v"])
                else:
                    refused += 1
                    if good and fold(n) not in M["c"]: raise Violation("refused", "%s is refused: %r" % (what, r))
            elif o["o"] == "const":
                M = model[e]
                n = o["n"]
                if ok:
                    again += fold(n) in M["c"]
                    M["c"][fold(n)] = show(t, o["v"])
                else:
                    refused += 1
                    if self.valid(n) and fold(n) not in M["c"] and not any(fold(x) == fold(n) for x in M["v"]): raise Violation("refused", "%s is refused: %r" % (what, r))
            elif o["o"] == "fn":
                M = model[e][o["f"]["k"]]
                n = o.get("as") or o["f"]["n"]
                if "as" in o: n = o["as"]
                allof = [n] + (o["f"].get("a") or [])
                if ok:
                    again += any(fold(x) in M for x in allof)
                    for x in allof: M[fold(x)] = "#%d" % o["f"]["id"]
                else:
                    refused += 1
                    fs = [fold(x) for x in allof]
                    if all(self.valid(x) for x in allof) and len(set(fs)) == len(fs) and not any(x in M for x in fs): raise Violation("refused", "%s is refused: %r" % (what, r))
                    if r[0] == "panic": st.c["fault:refusal_by_panic"] += 1
            for j in range(i + 1, end):
                q, a = ops[j], out[j]["r"]
                M = model[q["e"]]
                if q["o"] == "list":
                    got = {s: {(n if s == "v" else fold(n)): v for n, v in a[s]} for s in "vcfub"}
                    for s in "vcfub":
                        if got[s] != M[s] or len(a[s]) != len(M[s]):
                            x = sorted(set(got[s].items() if s not in "" else ()) ^ set(M[s].items()), key=str) if not isinstance(next(iter(M[s].values()), ""), list) else [got[s], M[s]]
                            raise Violation("listing", "after %s (%r) the listing %r differs from what was accepted in %s" % (what, r, s, str(x)[:300]))
                else:
                    n = q["n"]
                    w = {"v": M["v"].get(n), "c": M["c"].get(fold(n)), "f": M["f"].get(fold(n)), "u": M["u"].get(fold(n)), "b": M["b"].get(fold(n))}
                    g = {s: a[s] for s in "vcfub"}
                    if g != w: raise Violation("lookup", "after %s (%r) the name %r means %r instead of %r" % (what, r, n, g, w))
                    if a["is"] != [g[s] is not None for s in "vcfub"]: raise Violation("lookup", "the tests for %r say %r, it means %r" % (n, a["is"], g))
        if refused: st.c["fault:refused_registration"] += refused
        st.c["probe:lookups"] += sum(1 for o in ops if o["o"] == "get")
        self.use(case, ops, model, st, [o for o in case["ops"]])
        if refused and again: st.nontrivial.add(digest(out))
    def valid(self, n):
        return bool(n.strip()) and not any(c.isspace() or ord(c) < 32 or 127 <= ord(c) < 160 for c in n)
    def use(self, case, ops, model, st, hist):
        """At the end every name is used in an expression."""
        t = case["t"]
        uses = []
        for e, M in sorted(model.items()):
            for n in case["names"]:
                single = len(n) == 1 and not n.isascii() or all(c in IDC for c in n) and not n[0].isdigit() or n in ("+", "-", "!")
                if not single: continue
                if t in ("f64", "f32", "complex", "complex32") and n.lower() in ("inf", "nan", "infinity", "i") or n.lower() == "i" or t == "binary" and n[0] == "b": continue
                if n in M["v"]: uses.append((e, n, n, ("val", M["v"][n])))
                elif fold(n) in M["c"]: uses.append((e, n, n, ("val", M["c"][fold(n)])))
                elif fold(n) in M["f"]: uses.append((e, n, "%s(1, 2)" % n, ("call", M["f"][fold(n)], ["1", "2"])))
                elif fold(n) in M["u"] and fold(n) not in M["b"]:
                    # the notation is that of the function that holds the name
                    f = [o["f"] for o in hist if o["o"] == "fn" and "#%d" % o["f"]["id"] == M["u"][fold(n)]]
                    if f: uses.append((e, n, ("%s 1" if f[0]["not"] == "pre" else "1 %s") % n, ("call", M["u"][fold(n)], ["1"])))
                elif fold(n) in M["b"] and fold(n) not in M["u"]: uses.append((e, n, "1 %s 2" % n, ("call", M["b"][fold(n)], ["1", "2"])))
                elif not any(fold(n) in M[s] for s in "cfub"): uses.append((e, n, n, ("none",)))
        if not uses: return
        out = solo(case["ops"] + [{"o": "eval", "e": u[0], "x": u[2]} for u in uses], st, hs=case["hs"] + 1)[len(case["ops"]):]
        for u, r in zip(uses, out):
            e, n, x, w = u
            if w[0] == "val" and r["r"] != ["ok", w[1]]: raise Violation("use", "%r gives %r instead of %r" % (x, r["r"], w[1]))
            if w[0] == "none" and r["r"][0] == "ok": raise Violation("use", "%r gives %r, but nothing was accepted for it" % (x, r["r"]))
            if w[0] == "call" and w[1] and w[1].startswith("#") and w[1][1:].isdigit():
                c = r.get("c", [])
                if r["r"][0] != "ok" or len(c) != 1 or c[0][:2] != [int(w[1][1:]), [show(t, a) for a in w[2]]]: raise Violation("use", "%r gives %r with calls %r instead of one call of %s" % (x, r["r"], c, w[1]))
            st.c["probe:uses"] += 1
    def shrink(self, case):
        ops = case["ops"]
        for size in (256, 64, 8, 4, 2, 1):
            for i in range(1, len(ops) if size < 9 or len(ops) > size else 0, size): yield dict(case, ops=ops[:i] + ops[i + size:])
        for i in range(len(case["names"])): yield dict(case, names=case["names"][:i] + case["names"][i + 1:])
        for i, o in enumerate(ops):
            if o["o"] == "fn":
                a = o["f"].get("a") or []
                for j in range(len(a)): yield dict(case, ops=ops[:i] + [dict(o, f=dict(o["f"], a=a[:j] + a[j + 1:]))] + ops[i + 1:])
                if "as" in o: yield dict(case, ops=ops[:i] + [{k: v for k, v in o.items() if k != "as"}] + ops[i + 1:])

# ------------------------------------------------------------------------------- L04
F = fractions.Fraction
def exact(t, v):
    """The value(s) shown, exactly; None when not a finite number."""
    if isinstance(v, list): return [exact("f64" if t == "complex" else "f32", x) for x in v]
    if t in INTS or t == "decimal": return F(v)
    x = float(v)
    if math.isnan(x) or math.isinf(x): return None
    if t == "f32":
        x = f32_of(v)
        if math.isinf(x): return None
    return F(x)
def f32(x): return struct.unpack("f", struct.pack("f", x))[0]
EXTREME = [0, 2**64 - 1, 2**63, 2**63 - 1, 1, 2**11, 2**11 - 1, 2**64 - 2**11, 2**64 - 2**12, 2**64 - 2**11 - 1, 2**53, 2**64 - 2**39, 2**64 - 2**40, 2**32 - 1, 2**32, 0xaaaaaaaaaaaaaaaa]
RT = [("f64", "checked"), ("f64", "unchecked"), ("f32", "checked"), ("f32", "unchecked"), ("i8", "checked"), ("i16", "checked"), ("i32", "checked"), ("i64", "checked"), ("i64", "unchecked"), ("i128", "checked"), ("isize", "checked"), ("decimal", "std"), ("decimal", "unchecked"), ("complex", "std"), ("complex32", "std")]
class L04(LibCheck):
    prop = "L04"
    quick_n, thorough_n = 60000, 2000000
    rule = "a case is a number type, one or more occurrences of the random-number function with seeded bounds (also extreme, equal, inverted, not finite), and a script of the random source with extreme, quantile and seeded words; every occurrence's value is recorded and compared exactly with its range; non-trivial when an extreme word was drawn; distinct by the digest of everything observed"
    def bound(self, rng, t):
        if t in INTS:
            lo, hi = INTS[t]
            return str(rng.choice([0, 1, 2, 3, 10, 100, hi, hi - 1, hi - 2, lo, lo + 1, -1, -2, -5, hi // 2, hi // 2 + 1, hi // 3, lo // 2, min(hi, 2**53), min(hi, 2**53 + 1), min(hi, 2**53 + 3), max(lo, -2**53 - 1), min(hi, 2**24 + 1), min(hi, 2**63 + 1), rng.randint(lo, hi), rng.randint(-100, 100)]))
        if t == "decimal":
            return rng.choice(["0", "1", "2", "10", "0.1", "0.3", "0.0000000000000000000000000001", "79228162514264337593543950335", "-79228162514264337593543950335", "79228162514264337593543950334", "-1", "-2.5", "3.1415926535897932384626433833", "1.0000000000000000001", "100000000000000000001", "123456789012345678.9", "0.99999999999999999999", "-0.0000001", str(rng.randint(-1000, 1000)), "%d.%d" % (rng.randint(0, 10**9), rng.randint(0, 10**12)), "7922816251426433759354395033.5"])
        b = ["0", "1", "2", "10", "0.1", "0.3", "5e-324", "1e-310", "2.2250738585072014e-308", "1.7976931348623157e308", "-1.7976931348623157e308", "1e308", "-1e308", "9007199254740993", "-1", "-2.5", "1e16", "-1e16", "1.0000000000000002", "0.9999999999999999", "inf", "-inf", "NaN", "-0.0", "1e-300", "16777217", "3.4028235e38", "-3.4028235e38", "1e-45", "1.0000001", "%r" % rng.uniform(-1000, 1000), "%r" % (rng.random() * 10.0 ** rng.randint(-300, 300)), str(rng.randint(-100, 100))]
        return rng.choice(b)
    def word(self, rng):
        r = rng.random()
        if r < .35: return rng.choice(EXTREME)
        if r < .5: return rng.getrandbits(64) | (2**64 - 2**rng.randint(10, 50))
        if r < .6: return rng.getrandbits(64) >> rng.randint(1, 63)
        return rng.getrandbits(64)
    def gen(self, rng, i):
        if i < len(self.SPREAD): return {"spread": self.SPREAD[i], "rk": rng.getrandbits(48)}
        t, k = rng.choice(RT)
        occ = []
        for _ in range(rng.choice([1, 1, 2, 3, 6])):
            n = rng.choice([0, 1, 1, 2, 2, 2])
            a = [self.bound(rng, t) for _ in range(n)]
            if n == 2 and rng.random() < .7:
                try:
                    if exact(t if "complex" not in t else "f64", a[0]) > exact(t if "complex" not in t else "f64", a[1]): a = a[::-1]
                except TypeError: pass
            if n and rng.random() < .1: a = [a[0], a[0]][:n]
            occ.append(a)
        return {"t": t, "k": k, "occ": occ, "script": [self.word(rng) for _ in range(rng.choice([0, 2, 12, 12]))], "rk": rng.getrandbits(48), "name": rng.choice(["random", "random", "Random", "RANDOM"]), "joint": rng.random() < .6}
    def judge(self, case, st):
        if "spread" in case: return self.judge_spread(case, st)
        t, k = case["t"], case["k"]
        ops = [{"o": "new", "e": 1, "t": t, "k": k}, {"o": "fn", "e": 1, "f": {"id": 1, "n": "rec", "k": "f", "beh": "pure"}}]
        calls = []
        nv = 0
        for a in case["occ"]:
            ns = []
            for v in a:
                n = "v%d" % nv; nv += 1
                ops.append({"o": "var", "e": 1, "n": n, "v": v}); ns.append(n)
            calls.append("%s(%s)" % (case["name"], ", ".join(ns)))
        # every occurrence on its own tells errors apart; jointly tells that each draws for itself
        n0 = len(ops)
        if case["joint"] and len(calls) > 1: exprs = ["rec(%s)" % ", ".join("rec(%s)" % c for c in calls)]
        else: exprs = ["rec(%s)" % c for c in calls]
        ops += [{"o": "eval", "e": 1, "x": x} for x in exprs]
        out = solo(ops, st, rng={"1": case["script"]}, rk=case["rk"])
        check_setup(ops[:n0], out)
        kinds = [self.kind(t, a) for a in case["occ"]]
        want_err = any(q == "bad" for q in kinds)
        seen, draws = [], 0
        for j, (x, r) in enumerate(zip(exprs, out[n0:])):
            rs = kinds if len(exprs) == 1 else [kinds[j]]
            occ = case["occ"] if len(exprs) == 1 else [case["occ"][j]]
            what = "%s with %s over %s %s, random words %s" % (x, json.dumps([a for a in occ]), t, k, case["script"])
            if r["r"][0] == "panic": raise Violation("panic", "%s panics: %s" % (what, r["r"][1]))
            if r["r"][0] == "err":
                if "bad" in rs or "free" in rs: continue
                raise Violation("error", "%s reports %r" % (what, r["r"]))
            if "bad" in rs: raise Violation("bad-range", "%s gives %r, but the range is bad" % (what, [q[1] for q in r["c"]]))
            vals = [q[1][0] for q in r["c"] if q[0] == 1][:len(rs)]
            if len(vals) < len(rs): raise Violation("calls", "%s: %r" % (what, r))
            need = sum(2 if "complex" in t else 1 for _ in rs)
            if r.get("d", 0) < need and all(q == "ok" for q in rs) and all(self.wide(t, a) for a in occ): raise Violation("drawn", "%s: %d words drawn for %d occurrences" % (what, r.get("d", 0), len(rs)))
            draws += r.get("d", 0)
            for a, q, v in zip(occ, rs, vals):
                if q == "free": continue
                self.inside(t, a, v, what)
                seen.append((a, v))
        if any(w in EXTREME for w in case["script"][:draws]): st.nontrivial.add(digest(out)); st.c["fault:extreme_random_word"] += sum(1 for w in case["script"][:draws] if w in EXTREME)
        st.c["probe:values_in_range"] += len(seen)
    def fin(self, t, v):
        b = {"complex": "f64", "complex32": "f32"}.get(t, t)
        return exact(b, v)
    def kind(self, t, a):
        xs = [self.fin(t, v) for v in a]
        if any(x is None for x in xs): return "bad"
        if len(xs) == 1: return "bad" if xs[0] < 0 else "free" if xs[0] == 0 else "ok"
        if len(xs) == 2 and xs[0] > xs[1]: return "bad"
        return "ok"
    def wide(self, t, a):
        xs = [self.fin(t, v) for v in a]
        return len(xs) == 0 or len(xs) == 1 and xs[0] > 1 or len(xs) == 2 and xs[1] - xs[0] > 1
    def inside(self, t, a, v, what):
        for x, w in zip(exact(t, v) if isinstance(v, list) else [exact(t, v)], v if isinstance(v, list) else [v]):
            if x is None: raise Violation("range", "%s: the value %s is no number" % (what, w))
            b = [self.fin(t, y) for y in a]
            if len(b) == 0: ok = 0 <= x < 1
            elif len(b) == 1: ok = 0 <= x < b[0]
            else: ok = b[0] <= x <= b[1]
            if not ok: raise Violation("range", "%s: the value %s of random(%s) is outside of its range" % (what, w, ", ".join(a)))
    SPREAD = [(t, k, a) for t, k in RT for a in ([], ["100"], ["20", "120"], ["0.5"] if t not in INTS else ["7"], ["-50", "50"], ["-3", "3"], ["-1", "0"], ["-120", "-20"])]
    def judge_spread(self, case, st):
        """The whole range can occur, and every occurrence draws anew: many draws from a seeded source."""
        N, half = 400, 100
        t, k, a = case["spread"]
        ft = t if "complex" not in t else "f64"
        ops = [{"o": "new", "e": 1, "t": t, "k": k}, {"o": "fn", "e": 1, "f": {"id": 1, "n": "rec", "k": "f", "beh": "pure"}}]
        ops += [{"o": "var", "e": 1, "n": "v%d" % j, "v": v} for j, v in enumerate(a)]
        n0 = len(ops)
        call = "random(%s)" % ", ".join("v%d" % j for j in range(len(a)))
        # a part of the occurrences in one expression, the others one by one
        ops.append({"o": "eval", "e": 1, "x": "rec(%s)" % ", ".join([call] * half)})
        ops += [{"o": "eval", "e": 1, "x": "rec(%s)" % call} for _ in range(N - half)]
        out = solo(ops, st, rk=case["rk"])
        vals = []
        for r in out[n0:]:
            if r["r"][0] != "ok": raise Violation("error", "%s over %s %s with %r reports %r" % (call, t, k, a, r["r"]))
            vals += [q for c in r["c"] for q in c[1]]
        lo, hi = (F(0), F(1)) if not a else (F(0), exact(ft, a[0])) if len(a) == 1 else [exact(ft, x) for x in a]
        comps = [[exact(t, v)] if not isinstance(v, list) else exact(t, v) for v in vals]
        for d in range(len(comps[0])):
            xs = [c[d] for c in comps]
            self.spread(t, lo, hi, xs, "%s over %s %s with %r" % (call, t, k, a))
            self.spread(t, lo, hi, xs[:half], "%s over %s %s with %r, in one expression" % (call, t, k, a))
        st.c["probe:spread_of_400_draws"] += 1
    def spread(self, t, lo, hi, xs, what):
        # bounds that a fair source misses less than once in 10^7
        n = len(xs)
        if t in INTS:
            if hi - lo <= 7:
                miss = [x for x in range(int(lo), int(hi)) if xs.count(x) < (n // 40 if n > 200 else 1)]
                if miss: raise Violation("spread", "%s: of %d values %r come (almost) never" % (what, n, miss))
                return
        elif len(set(xs)) < n * 9 // 10: raise Violation("spread", "%s: of %d values only %d are different" % (what, n, len(set(xs))))
        parts = 10 if n > 200 else 4
        for j in range(parts):
            m = sum(1 for x in xs if lo + (hi - lo) * j / parts <= x < lo + (hi - lo) * (j + 1) / parts)
            if m * (50 if n > 200 else 33) < n: raise Violation("spread", "%s: of %d values %d lie in part %d of %d of the range" % (what, n, m, j + 1, parts))
    def shrink(self, case):
        if "spread" in case: return
        for i in range(len(case["occ"])):
            if len(case["occ"]) > 1: yield dict(case, occ=case["occ"][:i] + case["occ"][i + 1:])
        if case["joint"]: yield dict(case, joint=False)
        for i in range(len(case["script"])): yield dict(case, script=case["script"][:i] + case["script"][i + 1:])
        for i, w in enumerate(case["script"]):
            for v in (0, 2**64 - 1):
                if w != v and w not in EXTREME: yield dict(case, script=case["script"][:i] + [v] + case["script"][i + 1:])
def f32_of(v):
    """The nearest f32 of a decimal text, rounded once."""
    x = float(v)
    try: y = f32(x)
    except OverflowError: return math.copysign(math.inf, x)
    if math.isnan(y) or math.isinf(y): return y
    n = struct.unpack("i", struct.pack("f", y))[0]
    z, best = F(v), None
    for k in (n - 1, n, n + 1):
        try: w = struct.unpack("f", struct.pack("i", k))[0]
        except struct.error: continue
        if math.isnan(w) or math.isinf(w): continue
        q = (abs(F(w) - z), k & 1)
        if best is None or q < best[0]: best = (q, w)
    return best[1]

# ------------------------------------------------------------------------------- L05
STDX = {"f64": "float", "f32": "float", "i32": "integer", "i64": "integer", "i128": "integer", "decimal": "decimal", "complex": "complex", "binary": "binary"}
class L05(LibCheck):
    prop = "L05"
    quick_n, thorough_n = 20000, 400000
    rule = "a case is several evaluators (built-in or user-defined contexts of mixed number types, copies of one another) on up to five threads, now and then hundreds of them alive together, each with a history of definitions, evaluations, random draws, listings and drops, interleaved by a seeded scheduler also inside user functions; every evaluator's answers must equal those of its own history run alone with another hash seed; non-trivial when threads switched at least three times; distinct by interleaving"
    def gen(self, rng, i):
        import repl_checks as R
        actors = []
        eid = nclone = 0
        na = rng.choice([1, 2, 2, 3, 4])
        share = Ctx(rng, 1, beh=rng.choice(["id", "pure"])) if rng.random() < .6 else None
        # expressions that several evaluators get to see
        common = [text_of(rng, toks_of(rng, share, gen_tree(rng, share, rng.choice([1, 2, 3]))), .5) for _ in range(rng.choice([1, 2, 4]))] if share else []
        long = rng.random() < .015
        for a in range(na):
            queues = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                q, past, said, prev = [], None, [], None
                # evaluators that follow one another, where the next may get the memory of the last
                for life in range(rng.choice([1, 1, 1, 2, 3, 5])):
                    eid += 1
                    if life: q.append({"o": "drop", "e": eid - 1})
                    if past or not prev and rng.random() < .55:
                        if (share or past) and rng.random() < .6:
                            # the same definitions as another evaluator, or nearly
                            c = copy.deepcopy(past if past and (not share or rng.random() < .8) else share)
                            c.e = eid
                            for o in c.ops: o["e"] = eid
                            for n in c.vars:
                                if rng.random() < .5:
                                    c.vars[n] = litnum(rng, c.t); c.ops = [dict(o, v=c.vars[n]) if o["o"] == "var" and o["n"] == n else o for o in c.ops]
                            for o in c.ops:
                                if o["o"] == "fn" and rng.random() < .25:
                                    if o["f"]["k"] == "b": o["f"]["p"] = rng.choice([0, 1, 2, 3]); o["f"]["as"] = rng.choice("LR")
                                    o["f"]["id"] += 50
                            if past: c.ops = [o for o in c.ops if o["o"] == "new" or rng.random() > .2]
                            if rng.random() < .2: c.cfg["br"] = not c.cfg["br"]
                            if rng.random() < .2: c.cfg["cf"] = not c.cfg["cf"]
                        else: c = Ctx(rng, eid, beh=rng.choice(["id", "pure", "pure"]))
                        q += c.ops
                        past = c
                        def ex(c=c):
                            if said and rng.random() < .5: return rng.choice(said)
                            if common and rng.random() < .4: return rng.choice(common)
                            return text_of(rng, toks_of(rng, c, gen_tree(rng, c, rng.choice([1, 2, 3]))), .5)
                        t = c.t
                    else:
                        t = prev if prev and rng.random() < .8 else rng.choice(sorted(STDX))
                        prev = t
                        k = {"decimal": "std", "complex": "std", "binary": "std"}.get(t, rng.choice(["checked", "checked", "unchecked"]) if t[0] == "f" else "checked")
                        q.append({"o": "new", "e": eid, "t": t, "k": k, "cfg": {"im": t != "binary" and rng.random() < .6, "cx": t == "complex", "cf": rng.random() < .5}})
                        typ = STDX[t]
                        names = []
                        for _ in range(rng.choice([0, 1, 2])):
                            n = rng.choice(VN[:6]); names.append(n)
                            q.append({"o": "var", "e": eid, "n": n, "v": str(rng.randint(0, 99))})
                        def ex():
                            r = rng.random()
                            if typ != "binary" and r < .3: return rng.choice(["random()", "random(10)", "random(2, 9)", "random() + random(5) * 2", "max(random(), random())"])
                            if names and r < .5: return "%s %s %d" % (rng.choice(names), "+" if typ != "binary" else "|", rng.randint(0, 9))
                            if r < .75: return rng.choice(R.CORPUS[typ])
                            return R.wild_expr(rng, typ, d=2)
                    last = None
                    said += [o["x"] for o in q if "x" in o]
                    for _ in range(rng.choice([100, 200, 300]) if long else rng.choice([2, 4, 8])):
                        r = rng.random()
                        if r < (.6 if long else .06): q.append({"o": "eval", "e": eid, "x": rng.choice(["1 +", "(", "2 )", "unknown_q", "unknown_q(1)", "1 $ 2"])})
                        elif long and r > .9: q.append({"o": "list", "e": eid})
                        elif r < .55: last = ex(); q.append({"o": rng.choice(["eval", "eval", "tok"]), "e": eid, "x": last})
                        elif r < .68 and last: q.append({"o": "eval", "e": eid, "x": last})
                        elif r < .78: q.append({"o": "var", "e": eid, "n": rng.choice(VN), "v": str(rng.randint(0, 99))})
                        elif r < .84: q.append({"o": "const", "e": eid, "n": rng.choice(CN), "v": str(rng.randint(0, 99))})
                        elif r < .9: q.append({"o": "list", "e": eid})
                        elif r < .93: q.append({"o": "drop", "e": eid})
                        else:
                            nclone += 1
                            q.append({"o": "clone", "e": 500 + nclone, "from": eid})
                            q.append({"o": "eval", "e": 500 + nclone, "x": ex()})
                            q.append({"o": "list", "e": 500 + nclone})
                queues.append(q)
            ops = []
            queues = [q for q in queues if q]
            while queues:
                q = rng.choice(queues)
                n = rng.choice([1, 1, 2, 6])
                ops += q[:n]; del q[:n]
                queues = [x for x in queues if x]
            actors.append(ops)
        if rng.random() < .01:
            # many evaluators that are alive together
            m = rng.choice([70, 140, 300])
            ops = [{"o": "new", "e": 2000 + j, "t": rng.choice(["f64", "i64"]), "k": "checked", "cfg": {"im": rng.random() < .5, "cx": False, "cf": False}} for j in range(m)]
            ops += [{"o": "var", "e": 2000 + j, "n": "x", "v": str(j)} for j in range(m)]
            ops += [{"o": "eval", "e": 2000 + rng.randrange(m), "x": rng.choice(["x + 1", "x * 2", "2 + 3", "y", "1 +", "max(x, 3)"])} for _ in range(m)]
            actors.append(ops)
        c = {"actors": actors, "sched": rng.getrandbits(48), "ps": rng.choice([20, 200, 500, 900]), "hs": rng.getrandbits(32), "rk": rng.getrandbits(40), "lk": rng.random() < .5}
        return c
    def judge(self, case, st):
        r = libsim(case, st)
        pure = {}
        for a, (ops, out) in enumerate(zip(case["actors"], r["out"])):
            # the history of every evaluator alone; that of a copy starts with its original's
            hist = {}
            for o, x in zip(ops, out):
                if o["o"] == "new": hist[o["e"]] = [(o, x)]
                elif o["o"] == "clone": hist[o["e"]] = list(hist.get(o["from"], [])) + [(o, x)]
                else: hist.setdefault(o["e"], []).append((o, x))
            for e, h in hist.items():
                alone = solo([o for o, _ in h], st, hs=case["hs"] + 77 + e, rk=case["rk"])
                for (o, x), y in zip(h, alone):
                    if o["e"] != e: continue
                    if x != y: raise Violation("influence", "thread %d evaluator %d: %s gives %s, alone %s" % (a, e, json.dumps(o, ensure_ascii=False)[:300], json.dumps(x)[:400], json.dumps(y)[:400]))
                st.c["probe:histories_compared"] += 1
                self.repeat(h, e)
        if r["switches"] >= 3: st.nontrivial.add("%x" % r["trail"])
    def repeat(self, h, e):
        ispure = not any(o["o"] == "fn" and o["f"].get("beh") != "pure" for o, _ in h)
        seen = {}
        for o, x in h:
            if o["e"] != e: continue
            if o["o"] in ("var", "const", "fn", "new", "drop", "clone"): seen = {}
            elif o["o"] in ("eval", "tok") and ispure and "rand" not in o["x"].lower():
                if o["x"] in seen and seen[o["x"]] != x["r"]: raise Violation("unsteady", "evaluator %d: %r gives %r, before %r" % (e, o["x"], x["r"], seen[o["x"]]))
                seen[o["x"]] = x["r"]
    def shrink(self, case):
        ac = case["actors"]
        for i in range(len(ac)):
            if len(ac) > 1: yield dict(case, actors=ac[:i] + ac[i + 1:])
        for i, ops in enumerate(ac):
            for e in sorted(set(o["e"] for o in ops)):
                k = [o for o in ops if o["e"] != e and o.get("from") != e]
                if k and len(k) < len(ops): yield dict(case, actors=ac[:i] + [k] + ac[i + 1:])
        for i, ops in enumerate(ac):
            for size in (8, 2, 1):
                for j in range(0, len(ops), size):
                    k = ops[:j] + ops[j + size:]
                    if k: yield dict(case, actors=ac[:i] + [k] + ac[i + 1:])
        if case["ps"] != 20: yield dict(case, ps=20)
