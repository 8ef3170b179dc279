"""HTTP world for the server checks: requests, scenario rendering, trace reading, reference answers."""
import json, re, random
import build, sim
from sim import Violation

PREFIX = "10.0."

# ------------------------------------------------------------------ requests
def req_bytes(q):
    b = bytes.fromhex(q["bx"]) if "bx" in q else q.get("b", "").encode()
    s = "%s %s HTTP/%s\r\nHost: localhost\r\n" % (q["m"], q["p"], q.get("v", "1.1"))
    for k, v in q.get("h", []):
        s += "%s: %s\r\n" % (k, v)
    if "chunks" in q:
        s += "Transfer-Encoding: chunked\r\n\r\n"
        o, i = s.encode(), 0
        sizes = list(q["chunks"])
        while i < len(b):
            n = max(1, sizes.pop(0)) if sizes else len(b)
            part = b[i:i + n]; i += n
            o += b"%x\r\n" % len(part) + part + b"\r\n"
        return o + b"0\r\n\r\n"
    if b or q["m"] == "POST":
        s += "Content-Length: %d\r\n" % len(b)
    return s.encode() + b"\r\n" + b

def ev(expr, typ=None, variables=None, only=None, extra=None, **kw):
    d = {"expression": expr}
    if typ is not None: d["type"] = typ
    if variables is not None: d["variables"] = variables
    if extra: d.update(extra)
    q = {"m": "POST", "p": "/eval" + ("" if only is None else "?only_result=" + only), "b": json.dumps(d, ensure_ascii=False), "h": [["Content-Type", "application/json"]]}
    q.update(kw)
    return q

def get(path, **kw):
    q = {"m": "GET", "p": path}
    q.update(kw)
    return q

# ------------------------------------------------------------------ scenario
def cfg_text(c):
    o = ["seed %d" % c["seed"], "mode %d" % c.get("mode", 0), "pswitch %d" % c.get("pswitch", 200), "cost %d %d" % tuple(c.get("cost", [200, 3000])), "cpus %d" % c.get("cpus", 1)]
    for k in ("peintr", "pshortw", "pshortr", "jitter", "pspur", "paccept", "rtbase", "pct", "penv", "pfile"):
        if k in c: o.append("%s %d" % (k, c[k]))
    if "pstall" in c: o.append("pstall %d %d" % tuple(c["pstall"]))
    if "log" in c: o.append("logerr 1")
    if "logcap" in c: o.append("logcap %d %d" % tuple(c["logcap"]))
    if "binderr" in c: o.append("binderr %d %d" % tuple(c["binderr"]))
    return "\n".join(o) + "\n"

def op_lines(op, nreq):
    k = op[0]
    if k == "conn": return ["conn %d %s %d %d" % (op[1], op[2], op[3], op[4])]
    if k == "send":
        _, cid, reqs, cuts, gap, upto = op
        data = b"".join(req_bytes(q) for q in reqs)
        if upto >= 0: data = data[:upto]
        else: nreq[cid] = nreq.get(cid, 0) + len(reqs)
        out, i = [], 0
        for c in [c for c in cuts if 0 < c < len(data)] + [len(data)]:
            if c > i:
                if i and gap: out.append("sleep %d" % gap)
                out.append("send %d %s" % (cid, data[i:c].hex()))
                i = c
        return out
    if k == "raw": return ["send %d %s" % (op[1], op[2])]
    if k == "wait": return ["wresp %d %d %d" % (op[1], nreq.get(op[1], 0) if op[2] < 0 else op[2], op[3])]
    if k == "wclose": return ["wclose %d %d" % (op[1], op[2])]
    if k == "sleep": return ["sleep %d" % op[1]]
    if k == "at": return ["at %d" % op[1]]
    if k in ("fin", "rst", "close"): return [{"close": "cclose"}.get(k, k) + " %d" % op[1]]
    if k == "rwin": return ["rwin %d %d" % (op[1], op[2])]
    if k == "sig": return ["sig %d" % op[1]]
    if k == "stall": return ["stall %d %d" % (op[1], op[2])]
    if k == "rtjump": return ["rtjump %d" % op[1]]
    if k == "note": return ["note %s" % op[1]]
    raise ValueError(k)

def render(case):
    s = cfg_text(case["cfg"]) + "maxsteps %d\n" % case.get("maxsteps", 3000000)
    if case.get("end"): s += "end %d\n" % case["end"]
    for a in case["actors"]:
        s += "actor a\n"
        nreq = {}
        for op in a:
            s += "\n".join(op_lines(op, nreq)) + "\n"
    s += "actor main\nwactors %d\nsleep %d\n" % (case.get("limit", 600000000), case.get("settle", 0))
    if case.get("endsig"): s += "sig %d\nsleep 60000000\n" % case["endsig"]
    s += "stop\n"
    return s

# ------------------------------------------------------------------ trace
class Resp:
    __slots__ = ("status", "head", "body", "t0", "t1", "complete", "hdr", "rd0")
    def h(self, name):
        for k, v in self.hdr:
            if k == name: return v
        return None

class Conn:
    def __init__(self, cid, ip, noaddr, t):
        self.id, self.ip, self.noaddr, self.t = cid, ip, noaddr, t
        self.sent, self.chunks, self.wr = b"", [], []       # (time, total after)
        self.rd, self.wrd, self.ends = 0, [], []            # bytes read; before each write; end of each request
        self.accept = self.close = self.fin = self.rst = self.cclose = self.shut = None
        self.reqs = []         # [spec, t_last_byte or None]
        self.resps = []
        self.junk = b""
        self.worker = None

def parse_responses(c):
    data = b"".join(x[1] for x in c.wr)
    ends, n = [], 0
    for t, x in c.wr:
        n += len(x); ends.append((n, t))
    def t_of(off):       # time at which byte number off (1-based count) was written
        for e, t in ends:
            if e >= off: return t
        return ends[-1][1]
    def rd_of(off):
        return next((r for (e, _), r in zip(ends, c.wrd) if e >= off), c.rd)
    i = 0
    while i < len(data):
        j = data.find(b"\r\n\r\n", i)
        if j < 0:
            c.junk = data[i:]
            return
        head = data[i:j].decode("latin-1")
        ls = head.split("\r\n")
        m = re.match(r"HTTP/1\.[01] (\d\d\d)", ls[0])
        if not m:
            c.junk = data[i:]
            return
        r = Resp()
        r.status = int(m.group(1)); r.head = head
        r.hdr = [(l.split(":", 1)[0].strip().lower(), l.split(":", 1)[1].strip() if ":" in l else "") for l in ls[1:]]
        r.t0, r.rd0 = t_of(i + 1), rd_of(i + 1)
        k = j + 4
        if r.status // 100 == 1:
            i = k
            continue
        cl, te = r.h("content-length"), r.h("transfer-encoding")
        r.complete = True
        if te and "chunked" in te:
            body = b""
            while True:
                e = data.find(b"\r\n", k)
                if e < 0: r.complete = False; break
                try: n = int(data[k:e].split(b";")[0], 16)
                except ValueError: r.complete = False; break
                if len(data) < e + 2 + n + 2: r.complete = False; break
                body += data[e + 2:e + 2 + n]
                k = e + 2 + n + 2
                if n == 0: break
            r.body = body
            if not r.complete: k = len(data)
        else:
            n = int(cl) if cl and cl.isdigit() else 0
            r.body = data[k:k + n]
            r.complete = len(r.body) == n
            k += len(r.body)
        r.t1 = t_of(k)
        c.resps.append(r)
        i = k

class World:
    def __init__(self, case, r):
        self.r = r
        self.conns = {}
        self.stall = []
        self.notes, self.sigs = [], []
        C = self.conns
        for t, tid, k, rest in r.ev:
            if k == "CONN":
                x = rest.split(" ")
                C[int(x[0])] = Conn(int(x[0]), x[1].rsplit(":", 1)[0], "noaddr" in rest, t)
            elif k == "SEND":
                x = rest.split(" ")
                c = C[int(x[0])]; b = bytes.fromhex(x[1]) if len(x) > 1 else b""
                c.sent += b; c.chunks.append((t, len(c.sent)))
            elif k == "WR":
                x = rest.split(" ")
                c = C[int(x[0])]; c.wr.append((t, bytes.fromhex(x[1]))); c.wrd.append(c.rd); c.worker = tid
            elif k == "RD":
                x = rest.split(" ")
                if int(x[0]) in C: C[int(x[0])].rd += int(x[1])
            elif k == "ACCEPT": C[int(rest.split(" ")[0])].accept = t
            elif k == "CLOSE":
                c = C.get(int(rest.split(" ")[0]))
                if c: c.close = t
            elif k == "SHUT":
                c = C.get(int(rest.split(" ")[0]))
                if c and c.shut is None: c.shut = t
            elif k == "FIN": C[int(rest)].fin = t
            elif k == "CRST": C[int(rest)].rst = t
            elif k == "CCLOSE": C[int(rest)].cclose = t
            elif k == "F" and rest.startswith("stall"): self.stall.append((t, int(rest.split(" ")[2])))
            elif k == "NOTE": self.notes.append((t, rest))
            elif k == "SIG": self.sigs.append((t, int(rest.split(" ")[0]), rest))
        for c in C.values(): parse_responses(c)
        # match requests to the bytes that were really sent
        for a in case["actors"]:
            off = {}
            for op in a:
                if op[0] != "send": continue
                _, cid, reqs, cuts, gap, upto = op
                c = C.get(cid)
                if c is None: continue
                total = sum(len(req_bytes(q)) for q in reqs)
                lim = total if upto < 0 else min(upto, total)
                o = off.get(cid, 0)
                p = 0
                for q in reqs:
                    n = len(req_bytes(q))
                    full = p + n <= lim
                    endpos = o + p + n
                    t0 = next((t for t, e in c.chunks if e > o + p), None)
                    t = next((t for t, e in c.chunks if e >= endpos), None) if full else None
                    if p < lim and t0 is not None: c.reqs.append([q, t, t0]); c.ends.append(endpos)
                    p += n
                off[cid] = o + lim
    def slack(self, t0, t1, base=200000):
        """Time that injected stalls can add to something that takes place in [t0, t1]."""
        return base + sum(d for t, d in self.stall if t + d >= t0 and t <= t1)

def run(case, st, cpu=sim.CPU_LIMIT):
    env = {"PORT": "8000", "RUST_LOG": "off"}
    # logging at the level the server chooses by itself
    if case["cfg"].get("log"): env["RUST_LOG"] = None
    env.update(case.get("env", {}))
    r = sim.run(render(case), build.SERVER, [], env, cpu=cpu)
    if st is not None: st.add(r)
    return World(case, r)

def alive(w, what="the server"):
    r = w.r
    if r.end == "end79" or r.hang:
        raise Violation("hang", "%s does not respond (%s)" % (what, "step limit" if r.end == "end79" else "processor time limit"))
    if sim.died(r):
        raise Violation("crash", "%s died: status %s %s" % (what, r.rc, sim.panic_text(r)))
    if r.end == "exit" and not w.sigs:
        raise Violation("exit", "%s ended by itself with status %s" % (what, r.rc))

# ------------------------------------------------------------------ reference answers
SOLO = {}
def core(resp):
    """The parts of a response that belong to the answer."""
    return [resp.status, resp.body.decode("utf-8", "backslashreplace"), (resp.h("content-type") or "").split(";")[0]]

def solo_case(q, seed=11, cpus=1, ip="10.9.9.9"):
    q = dict(q); q.pop("chunks", None)
    return {"cfg": {"seed": seed, "cpus": cpus}, "limit": 30000000, "actors": [[["sleep", 1000], ["conn", 1, ip, 5000, 0], ["send", 1, [q], [], 0, -1], ["wait", 1, -1, 20000000]]]}

def key(q):
    return json.dumps([q["m"], q["p"], q.get("b"), q.get("bx")], ensure_ascii=False)

def solo(q, seed=11, cpus=1):
    """The answer a fresh, otherwise idle server gives to this request alone; None if it gives none."""
    k = (key(q), seed, cpus)
    if k not in SOLO:
        q2 = {x: q[x] for x in ("m", "p", "b", "bx") if x in q}
        q2["h"] = [["Content-Type", "application/json"]] if "b" in q or "bx" in q else []
        w = run(solo_case(q2, seed, cpus), None)
        c = w.conns.get(1)
        SOLO[k] = core(c.resps[0]) if c and len(c.resps) == 1 and c.resps[0].complete and not c.junk else None
    return SOLO[k]

# ------------------------------------------------------------------ explicit expectations
def check_expect(q, resp):
    """Violation text, or None. q["x"] says what the answer must be."""
    x = q.get("x")
    if not x: return None
    try: body = resp.body.decode()
    except UnicodeDecodeError: return "body is not text: %r" % resp.body[:80]
    def obj():
        try: d = json.loads(body)
        except ValueError: return None
        return d if isinstance(d, dict) else None
    k = x[0]
    if k == "value":
        body = body.replace("+-0i", "+0i")
        if resp.status != 200: return "status %d instead of 200" % resp.status
        if x[2]: return None if body == x[1] else "answer %r instead of %r" % (body, x[1])
        d = obj()
        if d is None or d.get("result") != x[1] or d.get("error") is not None: return "answer %r instead of result %r" % (body, x[1])
    elif k == "evalerr":
        d = obj()
        if resp.status != 200: return "status %d instead of 200" % resp.status
        if d is None or d.get("result") is not None or "result" not in d or not isinstance(d.get("error"), str) or not d["error"]: return "answer %r is no evaluation error" % body
    elif k == "bad":
        d = obj()
        if resp.status != 400: return "status %d instead of 400 (%r)" % (resp.status, body[:80])
        if d is None or d.get("result") is not None or "result" not in d or not isinstance(d.get("error"), str) or not d["error"]: return "answer %r is no error object" % body
    elif k == "4xx":
        if resp.status // 100 != 4: return "status %d instead of 4xx (%r)" % (resp.status, body[:80])
    elif k == "list":
        if resp.status != 200: return "status %d instead of 200" % resp.status
        try: d = json.loads(body)
        except ValueError: d = None
        if not isinstance(d, list): return "answer %r is no list" % body[:80]
        names = {e.get("name") for e in d if isinstance(e, dict)}
        miss = [n for n in x[1] if n not in names]
        if miss: return "the list lacks %s" % miss
        bad = [n for n in x[2] if n in names]
        if bad: return "the list has %s" % bad
    return None

# ------------------------------------------------------------------ generators of requests
def arith(rng, typ):
    """An expression of integers with its value, small enough for every number type."""
    def ex(d):
        if d == 0 or rng.random() < .3:
            n = rng.randint(0, 99)
            return str(n), n, 3
        op = rng.choice("+-*")
        a, b = ex(d - 1), ex(d - 1)
        pa = {"+": 1, "-": 1, "*": 2}[op]
        ls = a[0] if a[2] >= pa else "(" + a[0] + ")"
        rs = b[0] if b[2] > pa else "(" + b[0] + ")"
        v = {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[op]
        if abs(v) > 10 ** 9: return a
        return ls + rng.choice(["", " "]) + op + rng.choice(["", " "]) + rs, v, pa
    s, v, _ = ex(rng.choice([1, 2, 3]))
    return s, v

def show(v, typ):
    if typ == "binary": return None
    return str(v)

def good_req(rng, names=("x", "y", "a1", "zz", "_u")):
    """A valid request together with the answer it must get."""
    r = rng.random()
    typ = rng.choice([None, "decimal", "float", "integer", "complex"])
    only = rng.choice([None, None, None, "true", "false"])
    if r < .015:
        # a great many terms, or variables
        n = rng.choice([33, 70, 130, 257, 400])
        ks = [rng.randint(0, 99) for _ in range(n)]
        v = sum(ks)
        if rng.random() < .5: q = ev("+".join(map(str, ks)), typ, only=only)
        else:
            names = ["%s%d" % (rng.choice(["v", "w_", "N"]), i) for i in range(n)]
            order = list(zip(names, ks)); rng.shuffle(order)
            q = ev(" + ".join(names), typ, {a: (b if rng.random() < .5 else str(b)) for a, b in order}, only=only)
    elif r < .5:
        s, v = arith(rng, typ)
        q = ev(s, typ, only=only)
    elif r < .85:
        vs = {n: rng.randint(0, 999) for n in rng.sample(names, rng.randint(1, 3))}
        n = rng.choice(sorted(vs))
        k = rng.randint(0, 99)
        q = ev("%s * 2 + %d" % (n, k) if rng.random() < .5 else "%d + (%s) * 2" % (k, n), typ, {a: (b if rng.random() < .5 else str(b)) for a, b in vs.items()}, only=only)
        v = vs[n] * 2 + k
    else:
        a, b = rng.randint(0, 255), rng.randint(0, 255)
        op, v = rng.choice([("and", a & b), ("or", a | b), ("xor", a ^ b)])
        q = ev("%d %s %d" % (a, op, b), "binary", only=only)
        q["x"] = ["value", bin(v)[2:], only == "true"]
        return q
    if v == 0 and typ != "integer": return q
    q["x"] = ["value", ("%d+0i" if typ == "complex" else "%d") % v, only == "true"]
    return q

def sibling(rng, q):
    """A request that differs from an evaluation request in one respect (no expectation: judged by the reference answer)."""
    try: d = json.loads(q["b"])
    except (KeyError, ValueError): return None
    if q["m"] != "POST" or not isinstance(d, dict) or not isinstance(d.get("expression"), str): return None
    d = json.loads(json.dumps(d))
    p = q["p"]
    v = d.get("variables")
    r = rng.random()
    if isinstance(v, dict) and v and r < .6:
        n = rng.choice(sorted(v))
        k = rng.choice(["value", "value", "value", "drop", "name", "case", "add", "none"])
        if k == "value": v[n] = rng.choice([rng.randint(0, 999), str(rng.randint(0, 999))])
        elif k == "drop": del v[n]
        elif k == "name": v[n + "q"] = v.pop(n)
        elif k == "case": v[n.swapcase()] = v.pop(n)
        elif k == "add": v["w" + n] = rng.randint(0, 99)
        else: del d["variables"]
    elif r < .7: d["type"] = rng.choice(["decimal", "float", "integer", "complex", "binary"])
    elif r < .8: p = rng.choice(["/eval", "/eval?only_result=true", "/eval?only_result=false"])
    elif r < .9: d["expression"] = d["expression"] + rng.choice(["+1", " ", "*2", "-0", "+x", ")"])
    else:
        e = d["expression"]
        m = re.search(r"\d", e)
        d["expression"] = e[:m.start()] + str((int(m.group()) + 1) % 10) + e[m.end():] if m else e.upper()
    return {"m": "POST", "p": p, "b": json.dumps(d), "h": [["Content-Type", "application/json"]]}

LIST = {"functions": {None: (["sin", "max"], []), "decimal": (["sin", "max"], []), "float": (["sin"], []), "integer": (["sin", "random"], []), "complex": (["sqrt"], []), "binary": ([], ["sin"])},
        "operators": {None: (["+", "!"], []), "decimal": (["+", "!"], []), "float": (["+"], []), "integer": (["+", "mod"], []), "complex": (["+"], []), "binary": (["and"], ["+", "!"])},
        "constants": {None: (["PI"], []), "decimal": (["PI"], []), "float": (["PI"], []), "integer": (["PI"], []), "complex": (["PI"], []), "binary": ([], ["PI"])}}

def list_req(rng):
    w = rng.choice(sorted(LIST))
    t = rng.choice([None, "decimal", "float", "integer", "complex", "binary"])
    p = "/" + w + ("" if t is None else "?type=" + t)
    if rng.random() < .1: p = "/" + w + rng.choice(["/", "?type=octal", "?type=", "?x=1"])
    q = get(p)
    if t in LIST[w] and ("type=" in p) == (t is not None) and "octal" not in p and not p.endswith("type="):
        q["x"] = ["list"] + [list(z) for z in LIST[w][t]]
    return q

def evalerr_req(rng):
    typ = rng.choice([None, "decimal", "float", "integer", "complex", "binary"])
    s = rng.choice(["", " ", "1+", "(1", "1)", "nosuch", "nosuch(1)", "1 2 +", "sqrt(", "max()", "*3", "1//2", ")(", "()", "@", "1,2", "y+1"])
    q = ev(s, typ, only=rng.choice([None, "true", "true", "false"]))
    q["x"] = ["evalerr"]
    if typ in (None, "decimal", "integer") and rng.random() < .3:
        q = ev("1/0", typ, only=rng.choice([None, "true"])); q["x"] = ["evalerr"]
    if rng.random() < .25:
        v = rng.choice([{"x": "abc"}, {"x": ""}, {"x": "1", "y": "zz"}, {"x": "--1", "y": "q", "z": "r"}])
        q = ev("1+1", rng.choice([None, "decimal", "float", "integer", "binary", "complex"]), v); q["x"] = ["evalerr"]
    elif rng.random() < .12:
        # the name of a constant cannot be given a value
        typ = rng.choice([None, "decimal", "float", "integer", "complex"])
        n = rng.choice(["pi", "PI", "Pi", "e", "E"] + (["i", "I"] if typ == "complex" else []))
        v = {n: rng.choice([3, "4", 0.5 if typ != "integer" else 7])}
        if rng.random() < .5: v = dict(list({"x": 1}.items()) + list(v.items()))
        q = ev(rng.choice(["1+1", n, "2*" + n, "x"]), typ, v, only=rng.choice([None, "true"])); q["x"] = ["evalerr"]
    return q

GOODB = '{"expression":"1+1"}'
def bad_req(rng):
    """A request to /eval that must be answered with 400 and an error object."""
    r = rng.random()
    q = {"m": "POST", "p": rng.choice(["/eval", "/eval", "/eval?only_result=true", "/eval?only_result=nonsense"]), "h": [["Content-Type", "application/json"]], "x": ["bad"]}
    if r < .2:
        b = bytearray(rng.choice([GOODB, '{"expression":"é+1","type":"float"}']).encode())
        for _ in range(rng.randint(1, 3)): b.insert(rng.randrange(len(b) + 1), rng.choice([0xff, 0xfe, 0xc0, 0xc1, 0xf5]))
        q["bx"] = bytes(b).hex()
    elif r < .45:
        full = json.dumps({"expression": "1+" + "2+" * rng.randint(0, 30) + "3", "type": rng.choice(["decimal", "integer"]), "variables": {"x": 1, "y": "2"}})
        q["b"] = full[:rng.randrange(len(full))]
    elif r < .6:
        q["b"] = rng.choice(["", " ", "null", "[]", "1", '"1+1"', "true", "{}", '{"type":"decimal"}', '{"Expression":"1"}', "{'expression':'1'}", '{"expression"}', '{"expression":"1",}', '{"expression":"1"', 'expression=1%2B1', '{"expression":"\x01"}', '{"expression":"1","expression":"2"}',
                             '{"expression":"\\ud800"}', '{"expression":"1" "type":"float"}', "\ufeff" + GOODB, GOODB + "x", GOODB + GOODB, GOODB + "}", GOODB + " null", GOODB + ",", "[" * 300 + "]" * 300])
    else:
        d = {"expression": "1+1"}
        k = rng.choice(["expression", "type", "variables", "variables.x", "type"])
        wrong = {"expression": [1, None, [], {}, True, ["1+1"]], "type": ["octal", "Decimal", "", 1, [], {}, True, "DECIMAL", "decimal "], "variables": [1, "x", [], True, [["x", 1]], ["a"]], "variables.x": [None, [], {}, True, [1], {"a": 1}]}[k]
        v = rng.choice(wrong)
        if k == "variables.x":
            d["variables"] = {"a": 1, "x": v}
        else: d[k] = v
        if k == "variables" and v == []: d[k] = 1
        items = list(d.items()); rng.shuffle(items)
        q["b"] = json.dumps(dict(items))
    return q

def unknown_req(rng):
    m, p = rng.choice([("GET", "/eval"), ("POST", "/functions"), ("PUT", "/eval"), ("DELETE", "/eval"), ("GET", "/"), ("GET", "/nope"), ("POST", "/"), ("GET", "/functions/x"), ("GET", "/eval/1"), ("PATCH", "/constants"), ("GET", "/%2e%2e/etc/passwd"), ("GET", "/operator"), ("POST", "/evaluate"), ("GET", "/../functions"), ("OPTIONS", "/eval"), ("GET", "/functions/sin"), ("GET", "/constants;x"), ("GET", "//nope"), ("GET", "/Functions"), ("POST", "/EVAL"), ("GET", "/eval?expression=1"), ("TRACE", "/eval")])
    q = {"m": m, "p": p, "x": ["4xx"]}
    if m in ("POST", "PUT", "PATCH"): q["b"] = GOODB; q["h"] = [["Content-Type", "application/json"]]
    return q

def any_req(rng, bad=.15):
    r = rng.random()
    if r < bad: return dress(rng, rng.choice([bad_req, unknown_req, evalerr_req])(rng))
    if r < bad + .2: return dress(rng, list_req(rng))
    return dress(rng, good_req(rng))

HEADERS = [["Expect", "100-continue"], ["Accept", "text/html"], ["Accept", "*/*;q=0.1"], ["Accept-Encoding", "gzip, br"], ["Connection", "keep-alive"], ["Origin", "http://a.example"], ["Cache-Control", "no-cache"],
           ["If-None-Match", "*"], ["If-Modified-Since", "Sat, 29 Oct 1994 19:43:31 GMT"], ["Range", "bytes=0-3"], ["TE", "trailers"], ["X-Long", "v" * 3000], ["Cookie", "a=b; c=\"d\""], ["Authorization", "Basic QTpC"], ["Referer", "/eval"], ["X-HTTP-Method-Override", "DELETE"], ["Date", "x"], ["X-Empty", ""]]
TYPES = ["application/json; charset=utf-8", "text/plain", "application/octet-stream", "application/x-www-form-urlencoded", "APPLICATION/JSON", None]
def dress(rng, q, p=.2):
    """The same request said in another way: none of this may change the answer."""
    if rng.random() >= p: return q
    q = dict(q)
    for _ in range(rng.choice([1, 1, 2])):
        r = rng.random()
        if r < .03 and len(q.get("h", [])) < 8: q["h"] = q.get("h", []) + [["X-Nr-%d" % i, "v" * rng.choice([1, 10, 100])] for i in range(rng.choice([20, 33, 65, 80]))]
        elif r < .5: q["h"] = q.get("h", []) + [list(rng.choice(HEADERS))]
        elif r < .6 and (q.get("b") or "bx" in q):
            t = rng.choice(TYPES)
            q["h"] = [h for h in q.get("h", []) if h[0] != "Content-Type"] + ([["Content-Type", t]] if t else [])
        elif r < .7: q["h"] = [[rng.choice([str.upper, str.lower])(h[0]), h[1]] for h in q.get("h", [])]
        elif q["m"] + q["p"].split("?")[0] in ("POST/eval", "GET/functions", "GET/operators", "GET/constants"):
            path, sep, query = q["p"].partition("?")
            k = rng.choice(["abs", "slash", "double", "query", "amp"])
            if k == "abs": path = rng.choice(["http://localhost", "http://other:81"]) + path
            elif k == "slash": path += "/"
            elif k == "double": path = "/" + path
            elif k == "query": sep, query = "?", query + ("&" if query else "") + rng.choice(["z=1", "utm=%20", "a=b&c=d", "long=" + "q" * rng.choice([300, 2000, 5000])])
            elif query and "type" not in query.split("=")[1:]: query = "&" * rng.choice([0, 1]) + query + "&"
            q["p"] = path + sep + query
    return q

# ------------------------------------------------------------------ shrinking
def shrink(case):
    A = case["actors"]
    def mk(actors, **kw):
        c = dict(case); c["actors"] = [a for a in actors if a]; c.update(kw)
        return c
    for i in range(len(A)):
        if len(A) > 1: yield mk(A[:i] + A[i + 1:])
    for i, a in enumerate(A):
        n = len(a)
        sz = n // 2
        while sz >= 1:
            for j in range(0, n, sz):
                b = a[:j] + a[j + sz:]
                ids = {op[1] for op in b if op[0] == "conn"}
                b = [op for op in b if op[0] in ("sleep", "at", "sig", "stall", "rtjump", "note") or op[1] in ids]
                if b != a: yield mk(A[:i] + [b] + A[i + 1:])
            sz //= 2
    for i, a in enumerate(A):
        for j, op in enumerate(a):
            alts = []
            if op[0] == "send":
                if len(op[2]) > 1:
                    alts += [[op[0], op[1], op[2][:k] + op[2][k + 1:], op[3], op[4], op[5]] for k in range(len(op[2]))]
                if op[3]: alts.append([op[0], op[1], op[2], [], 0, op[5]]); alts.append([op[0], op[1], op[2], op[3][:len(op[3]) // 2], op[4], op[5]])
                if op[4]: alts.append([op[0], op[1], op[2], op[3], 0, op[5]])
                for k, q in enumerate(op[2]):
                    if q.get("h") and any(h[0] != "Content-Type" for h in q["h"]):
                        q2 = dict(q); q2["h"] = [h for h in q["h"] if h[0] == "Content-Type"]
                        alts.append([op[0], op[1], op[2][:k] + [q2] + op[2][k + 1:], op[3], op[4], op[5]])
            elif op[0] == "sleep" and op[1] > 1000: alts.append(["sleep", op[1] // 1000 * 0 + 1000])
            for alt in alts: yield mk(A[:i] + [a[:j] + [alt] + a[j + 1:]] + A[i + 1:])
    cfg = case["cfg"]
    for k in ("peintr", "pshortw", "pshortr", "jitter", "pspur", "paccept", "pstall", "logcap", "log", "binderr", "penv", "pfile"):
        if k in cfg:
            c2 = dict(cfg); del c2[k]
            yield mk(A, cfg=c2)
    if cfg.get("cpus", 1) > 1: yield mk(A, cfg=dict(cfg, cpus=cfg["cpus"] - 1))
