"""The simulated server checks S01-S09: the real prexel-server under simos."""
import json, random, re
import srv, sim, build
from sim import Violation, Check
from srv import ev, get

REAL = ["prexel-server binary: main, middlewares, endpoints, services, models", "actix-web / actix-http / actix-server / actix-ratelimit / tokio 0.2 / mio (as linked)", "prexel 0.1.9 from the registry (the version the server depends on)", "std threads, channels and locks over simulated futexes"]
STUB = ["kernel: threads' schedule, futex, clock, timers, epoll, TCP sockets, signals, getrandom (simos)", "clients (actors of the scenario)"]
ASSUME = ["the simulated kernel behaves like Linux for the calls the server makes", "threads are preempted at system calls and futex operations only, not between plain memory accesses",
          "time passes at system calls and sleeps, pure computation takes no simulated time"]

def gen_cfg(rng, faults=True, cpus=None, stalls=True):
    c = {"seed": rng.getrandbits(48), "mode": rng.choice([0, 0, 2]), "pswitch": rng.choice([20, 200, 500, 900]), "cost": rng.choice([[200, 3000], [100, 20000], [1000, 60000]]),
         "cpus": cpus or rng.choice([1, 2, 2, 3, 4])}
    if faults:
        if rng.random() < .35: c["peintr"] = rng.choice([10, 50])
        if rng.random() < .35: c["pshortw"] = rng.choice([50, 300, 700])
        if rng.random() < .35: c["pshortr"] = rng.choice([50, 300, 700])
        if rng.random() < .25: c["jitter"] = rng.choice([500, 5000])
        if rng.random() < .25: c["pspur"] = rng.choice([20, 200])
        if rng.random() < .08: c["penv"] = rng.choice([300, 1000])
        if rng.random() < .08: c["pfile"] = rng.choice([300, 1000])
        if rng.random() < .12: c["paccept"] = rng.choice([20, 100, 250])
        if rng.random() < .15:
            c["log"] = 1
            if rng.random() < .6: c["logcap"] = [rng.choice([0, 0, 10, 300, 3000]), rng.choice([28, 5, 32, 11, 9])]
        if stalls and rng.random() < .25: c["pstall"] = [rng.choice([300, 2000]), rng.choice([500, 20000, 200000])]
    return c

def cuts_for(rng, n, style=None):
    """Where the bytes of a transmission are split."""
    style = style or rng.choice(["whole", "whole", "two", "few", "many", "bytes"])
    if style == "whole" or n < 2: return []
    if style == "two": return [rng.randrange(1, n)]
    if style == "few": return sorted({rng.randrange(1, n) for _ in range(rng.randint(2, 6))})
    if style == "many": return sorted({rng.randrange(1, n) for _ in range(n // 8 + 1)})
    if n > 400: return list(range(1, n, 7))
    return list(range(1, n))

def send(rng, cid, reqs, style=None, gapmax=3000000, upto=-1):
    n = sum(len(srv.req_bytes(q)) for q in reqs)
    cuts = cuts_for(rng, n, style)
    gap = 0
    if cuts: gap = min(rng.choice([0, 0, 100, 2000, 50000]), gapmax // (len(cuts) + 1))
    return ["send", cid, reqs, cuts, gap, upto]

# addresses that are easily taken for one another: prefixes, suffixes and reorderings of each other
SIMILAR = ["123.123.123.12", "123.123.123.123", "10.1.0.2", "10.1.0.20", "10.1.0.21", "110.1.0.2", "10.1.2.0", "2.0.1.10", "10.10.2.0", "101.0.2.0", "1.2.3.4", "12.3.4.1"]
def ip_of(n):
    if 1 <= n <= len(SIMILAR): return SIMILAR[n - 1]
    return "10.%d.%d.%d" % (1 + n // 60000 % 200, n // 250 % 240, 1 + n % 250)

SPOOF = [["X-Forwarded-For", "1.2.3.4"], ["Forwarded", "for=9.9.9.9"], ["X-Real-IP", "5.6.7.8"], ["Cookie", "X-Ratelimit-Id=abcdef"], ["Cookie", "a=b"], ["X-Forwarded-Host", "h"], ["Via", "1.1 p"], ["User-Agent", "x"]]
def spoof(rng, q, p=.3):
    if rng.random() < p:
        h = list(rng.choice(SPOOF))
        if h[0] in ("X-Forwarded-For", "X-Real-IP"): h[1] = "%d.2.3.%d" % (rng.randint(1, 200), rng.randint(1, 250))
        elif h[0] == "Forwarded": h[1] = "for=%d.2.3.%d" % (rng.randint(1, 200), rng.randint(1, 250))
        elif "Ratelimit" in h[1]: h[1] = "X-Ratelimit-Id=%x" % rng.getrandbits(64)
        q = dict(q); q["h"] = q.get("h", []) + [h]
    return q

CHEAP = [get("/constants?type=binary"), ev("1+1", "integer"), get("/constants"), get("/nope"), {"m": "POST", "p": "/eval", "b": "{", "h": []}, ev("1/0", "integer"), get("/eval")]

class ServerCheck(Check):
    needs = ("server",)
    real, stub, assumptions = REAL, STUB, ASSUME
    quick_n, thorough_n = 4000, 200000
    quick_s, thorough_s = 40, 700
    def shrink(self, case): return srv.shrink(case)

def ignored_after(c):
    """True when the connection was answered before a request's body had come: the server's HTTP layer
    then ignores the rest of the connection (listed finding)."""
    n = len(c.resps)
    if not n or n > len(c.reqs): return False
    q = c.reqs[n - 1][0]
    return bool(q.get("b") or q.get("bx")) and c.resps[-1].complete and c.resps[-1].rd0 < c.ends[n - 1]

HEAD = "the body of a response is missing when a HEAD request is pipelined behind its request"
HALF = "a request with a body of more than 32 kB whose client half-closed behind it was answered with status 400 as if it were cut short"
EARLY = "the request behind one that was answered before its body had arrived got no answer"

def compare(c, i, q, resp, cls="answer"):
    """The response against explicit expectation and the reference answer of a fresh server."""
    if resp.status == 429: return
    m = srv.check_expect(q, resp)
    if m: raise Violation(cls, "connection %d, request %d (%s %s %s): %s" % (c.id, i, q["m"], q["p"], q.get("b", q.get("bx", ""))[:120], m))
    ref = srv.solo(q)
    got = srv.core(resp)
    if ref is not None and got != ref:
        raise Violation(cls, "connection %d, request %d (%s %s %s): answer %r, a server with nothing else to do answers %r" % (c.id, i, q["m"], q["p"], q.get("b", q.get("bx", ""))[:120], got, ref))

# ---------------------------------------------------------------------------------- S01, S02
WIN = 60000000

def sequence(conns):
    rs = []
    for c in conns:
        for i, (q, s, _) in enumerate(c.reqs):
            if s is None: continue
            rs.append((s, c.resps[i] if i < len(c.resps) else None, c, i, q))
    rs.sort(key=lambda x: x[0])
    return rs

def tracker(rs, w, later):
    """Follows a client that sends one request at a time through all windows its answers allow.
    Raises when the history is not possible; violations of listed classes go to `later`."""
    # state: (window start lo, hi, used) or None before the first request
    states = {None}
    for s, resp, c, i, q in rs:
        if resp is None or not resp.complete:
            r = max([t for t, _ in c.wr] + [c.close or 0, s]) + 1000000
        else: r = resp.t1
        sl = w.slack(s - 1000000, r + 1000000, 60000)
        opts = {"old": set(), "new": set()}
        want = []
        for st in states:
            o = []
            if st is not None and s <= st[1] + WIN + sl: o.append("in")
            if st is None or r >= st[0] + WIN - 2000: o.append("new")
            for k in o:
                if k == "new": e, n = ("ok", 99), (s, r, 1)
                elif st[2] < 100: e, n = ("ok", 100 - st[2] - 1), (st[0], st[1], st[2] + 1)
                else: e, n = ("no", 0), st
                want.append((e, n, k == "in" and s > st[1] + WIN - 2000000))
        if resp is None or not resp.complete:
            states = {n for e, n, z in want} | states
            states.discard(None)
            if not states: states = {None}
            continue
        rem = resp.h("x-ratelimit-remaining")
        got = ("no", 0) if resp.status == 429 else ("ok", int(rem) if rem and rem.isdigit() else None)
        if resp.status == 500 and any(z for e, n, z in want):
            later.append(Violation("expiry-500", "request %d of client %s at %.3f s, just when its window ended, got status 500" % (i, c.ip, s / 1e6)))
            continue
        ok = {n for e, n, z in want if e[0] == got[0] and (got[0] == "no" or got[1] == e[1])}
        if not ok:
            exp = sorted({e for e, n, z in want})
            t = "request %d on connection %d of client %s at %.3f s got status %d, remaining %s; possible: %s; window start/used: %s" % (
                i, c.id, c.ip, s / 1e6, resp.status, rem, ["refused" if e[0] == "no" else "served, %d remaining" % e[1] for e in exp],
                sorted({(st[0] / 1e6, st[2]) for st in states if st}))
            if all(e[0] == "no" for e in exp): raise Violation("excess", t)
            if got[0] == "no": raise Violation("refused", t)
            if any(e[0] == "ok" for e in exp): raise Violation("header", t)
            raise Violation("excess", t)
        states = ok
        if len(states) > 60: states = set(sorted(states, key=lambda z: z[0])[:60])
    return len(rs)

def overlap_cluster(conns):
    """(requests sorted by sending time, [(s, t1 or None, resp)])"""
    rs = []
    for c in conns:
        for i, (q, s, _) in enumerate(c.reqs):
            if s is None: continue
            resp = c.resps[i] if i < len(c.resps) and c.resps[i].complete else None
            rs.append((s, resp.t1 if resp else None, resp, c, i))
    rs.sort(key=lambda x: x[0])
    return rs

def cheap(rng):
    """Any request, mostly one that costs the simulation little."""
    if rng.random() < .9: return dict(rng.choice(CHEAP))
    q = rng.choice([srv.unknown_req, srv.evalerr_req, srv.bad_req, srv.list_req, srv.good_req])(rng)
    if q.get("x") == ["4xx"]:
        # a body that comes behind its answer would cost the connection
        q.pop("b", None); q.pop("h", None)
    return srv.dress(rng, q)

def crowd(rng, nc, ips, flag=0):
    """Many clients one after the other, each with a request or two."""
    a, used = [["sleep", rng.choice([1000, 3000, 1000000])]], []
    n = rng.choice([20, 70, 140, 300])
    kind = rng.choice(["last", "first", "any", "row"])
    for k in range(n):
        o = [rng.randint(1, 223), rng.randint(0, 255), rng.randint(0, 255), rng.randint(1, 254)]
        b = [int(x) for x in rng.choice(ips).split(".")]
        if kind == "last": o[3] = b[3]
        elif kind == "first": j = rng.randint(1, 3); o[:j] = b[:j]
        elif kind == "row": o = [10, 77, k // 250, 1 + k % 250]
        ip = ".".join(map(str, o))
        if ip in ips: continue
        used.append(ip)
        a.append(["conn", nc, ip, rng.randint(1024, 65000), flag])
        for _ in range(rng.choice([1, 1, 1, 2])): a += [["send", nc, [dict(rng.choice(CHEAP))], [], 0, -1], ["wait", nc, -1, 12000000]]
        a.append([rng.choice(["close", "fin", "rst"]), nc])
        nc += 1
    return a, nc, used

class LimitCheck(ServerCheck):
    quick_n, thorough_n = 3000, 100000
    def client(self, rng, k, nconn0, boundary, total=None):
        """One sequential client: list of operations, number of connections used."""
        ip = ip_of(k)
        a = [["sleep", rng.choice([1000, 1000, 500000, rng.randint(0, 20000000)])]]
        nc = nconn0
        total = total or rng.choice([5, 60, 99, 100, 101, 110, 130, 210, 260])
        pace = rng.choice(["burst", "burst", "slow", "boundary", "mixed"] if not boundary else ["boundary"])
        per = rng.choice([1, 1, 7, 40, 1000])
        n, cur, sent_on = 0, None, 0
        idle = 0
        while n < total:
            if cur is None or sent_on >= per:
                if cur is not None and rng.random() < .7: a.append([rng.choice(["close", "fin", "rst"]), cur])
                cur = nc; nc += 1; sent_on = 0
                a.append(["conn", cur, ip, rng.randint(1024, 65000), 0])
            batch = 1
            for _ in range(batch):
                q = spoof(rng, cheap(rng))
                a.append(["send", cur, [q], [], 0, -1]); n += 1; sent_on += 1
            a.append(["wait", cur, -1, 12000000])
            gap = 0
            if pace == "slow": gap = rng.choice([300000, 600000, 900000, 5000])
            elif pace == "mixed": gap = rng.choice([0, 0, 0, 0, 100000, 2000000])
            elif pace == "boundary" and n in (100, 101, 102, 150, 200, 201):
                gap = rng.choice([59000000, 59990000, 59999000, 60000000, 60001000, 60010000, 61000000, 30000000, 58000000]) - rng.randint(0, 4000)
            elif pace == "burst" and n % 100 == 0 and rng.random() < .5: gap = rng.choice([20000000, 60500000, 70000000])
            if gap:
                if gap > 3000000: sent_on = per
                a.append(["sleep", gap])
        return a, nc, ip
    def gen_par(self, rng, k, nc):
        """Several requests of one client in flight at a time."""
        ip = ip_of(k)
        m = rng.choice([2, 3, 5, 8])
        tot = rng.choice([110, 140, 100, 60, 200])
        acts = []
        for j in range(m):
            a = [["sleep", 1000 + rng.choice([0, 0, 50, 300, 2000, 50000])], ["conn", nc + j, ip, 2000 + j, 0]]
            for _ in range(tot // m + 1):
                a.append(["send", nc + j, [spoof(rng, cheap(rng))], [], 0, -1])
                a.append(["wait", nc + j, -1, 12000000])
                if rng.random() < .1: a.append(["sleep", rng.choice([100, 5000, 100000])])
            acts.append(a)
        return acts, nc + m, ip
    def gen(self, rng, i):
        actors, nc, info = [], 1, {}
        # neighbours in SIMILAR resemble each other
        first = rng.randrange(len(SIMILAR))
        for k in range(rng.choice([1, 1, 2, 3])):
            k = (first + k) % len(SIMILAR)
            if rng.random() < .25:
                a, nc, ip = self.gen_par(rng, k + 1, nc)
                actors += a; info[ip] = "par"
            else:
                a, nc, ip = self.client(rng, k + 1, nc, rng.random() < .3)
                actors.append(a); info[ip] = "seq"
        if rng.random() < .06:
            a, nc, used = crowd(rng, nc, sorted(info))
            for ip in used: info[ip] = "seq"
            actors.append(a)
        cfg = gen_cfg(rng, stalls=rng.random() < .5)
        case = {"cfg": cfg, "actors": actors, "info": info, "limit": 900000000}
        if rng.random() < .2:
            # the wall clock is set while the windows run
            a, case["jumps"] = [["sleep", rng.randint(1, 1000000)]], 1
            for _ in range(rng.choice([1, 2, 5])):
                a += [["rtjump", rng.choice([-1, 1]) * rng.choice([1000, 1000000, 61000000, 3600000000, 86400000000 * 400])], ["sleep", rng.choice([500, 1000000, 30000000, 59000000])]]
            actors.append(a)
        return case
    def history(self, case, st):
        w = srv.run(case, st)
        srv.alive(w)
        by = {}
        for c in w.conns.values(): by.setdefault(c.ip, []).append(c)
        return w, by

def par_excess(rs):
    """For a client with requests in flight at the same time, all within one window: (served after the
    beginning, most in flight)."""
    done = [x for x in rs if x[1] is not None]
    if not done: return 0, 0
    first = min(x[1] for x in done)
    E = max(x[1] for x in done if x[0] <= first)
    evs = sorted([(x[0], 0, 1) for x in rs] + [((x[1] if x[1] is not None else 1 << 62), 1, -1) for x in rs])
    m = cur = 0
    for _, _, d in evs:
        cur += d; m = max(m, cur)
    return sum(1 for x in done if x[0] > E and x[2].status != 429), m

class S01(LimitCheck):
    prop = "S01"
    rule = "a case is one to three clients (sometimes among a crowd of up to 300 others) that send 5 to 260 requests of mixed kinds over one or many connections, in bursts, paced, or placed around the end of their 60 s window, some with several requests in flight, some with forged forwarding headers; non-trivial when a client exceeded 100 requests in a window; distinct by trace digest"
    def judge(self, case, st):
        w, by = self.history(case, st)
        hot, later = False, []
        for ip, cs in sorted(by.items()):
            rs = overlap_cluster(cs)
            for s, t1, resp, c, i in rs:
                if resp is not None and resp.status == 429:
                    hot = True
                    if b"result" in resp.body: raise Violation("evaluated", "a refused request of %s was answered with %r" % (ip, resp.body[:100]))
            if case["info"].get(ip) == "par":
                span = rs and max(x[0] for x in rs) - rs[0][0]
                if rs and span < WIN - 3000000:
                    n, m = par_excess(rs)
                    if n > 99 + m - 1: raise Violation("excess", "client %s: %d requests served in a window after its beginning, with at most %d in flight at a time" % (ip, n, m))
            else:
                try: tracker(sequence(cs), w, later)
                except Violation as v:
                    if v.cls == "excess": raise
        if hot: st.nontrivial.add(w.r.digest)
        if any(v.cls != "expiry-500" for v in later): raise next(v for v in later if v.cls != "expiry-500")

class S02(LimitCheck):
    prop = "S02"
    rule = "as S01, together with up to twelve other clients that flood, stall, reset or send garbage; non-trivial when some client was refused while another was served, or a window began anew; distinct by trace digest"
    def gen(self, rng, i):
        case = LimitCheck.gen(self, rng, i)
        nc = 1 + max([op[1] for a in case["actors"] for op in a if op[0] == "conn"] or [0])
        for k in range(rng.choice([0, 1, 3, 8])):
            ip = ip_of(40 + k)
            if rng.random() < .5:
                near = rng.choice(SIMILAR)
                if near not in case["info"]: ip = near
            kind = rng.choice(["flood", "garbage", "stall", "reset"])
            a = [["sleep", rng.choice([1000, 2000000, 30000000])], ["conn", nc, ip, 3000, 0]]
            if kind == "flood":
                for _ in range(rng.choice([20, 130])): a += [["send", nc, [dict(CHEAP[0])], [], 0, -1]]
            elif kind == "garbage": a += [["raw", nc, rng.choice(["00" * 40, b"GET /\r\n\r\n".hex(), b"\xff\xfe HTTP".hex(), b"POST /eval HTTP/1.1\r\nContent-Length: x\r\n\r\n".hex()])], ["sleep", 2000000], ["close", nc]]
            elif kind == "stall": a += [["raw", nc, b"POST /eval HTTP/1.1\r\nContent-Length: 50\r\n\r\n{".hex()], ["sleep", 3000000], ["close", nc]]
            else: a += [["send", nc, [dict(CHEAP[1])], [], 0, -1], ["rst", nc]]
            nc += 1
            case["actors"].append(a)
            case["info"][ip] = kind
        return case
    def judge(self, case, st):
        w, by = self.history(case, st)
        later = []
        refused = served = renewed = False
        for ip, cs in sorted(by.items()):
            k = case["info"].get(ip)
            rs = overlap_cluster(cs)
            for s, t1, resp, c, i in rs:
                if resp is None: continue
                if resp.status == 429:
                    refused = True
                    v = resp.h("x-ratelimit-reset")
                    if v is None or not v.isdigit() or (int(v) > 60 and not case.get("jumps")):
                        raise Violation("reset-header", "refusal of client %s states %r as the time to wait" % (ip, v))
                else: served = True
            if k == "seq":
                try: tracker(sequence(cs), w, later)
                except Violation as v:
                    if v.cls != "excess": raise
                renewed = renewed or (rs and rs[-1][0] - rs[0][0] > WIN)
            else:
                for s, t1, resp, c, i in rs:
                    if resp is None or resp.status != 429: continue
                    could = sum(1 for x in rs if x[0] <= t1 and x[0] >= s - WIN - w.slack(s, t1) and (x[2] is None or x[2].status != 429))
                    if could < 100: raise Violation("refused", "client %s refused at %.3f s when at most %d of its requests could have been served" % (ip, s / 1e6, could))
        if (refused and served) or renewed: st.nontrivial.add(w.r.digest)
        if later: raise later[0]

# ---------------------------------------------------------------------------------- S03
def conversation(rng, cid, ip, reqs, style=None, flag=0, start=None):
    """One connection sending all requests, in batches."""
    a = [["sleep", rng.choice([1000, 1000, 1200, 5000]) if start is None else start], ["conn", cid, ip, 1024 + cid, flag]]
    i = 0
    while i < len(reqs):
        n = rng.choice([1, 1, 1, 2, 4])
        b = reqs[i:i + n]; i += n
        a.append(send(rng, cid, b, style))
        a.append(["wait", cid, -1, 12000000])
        if rng.random() < .2: a.append(["sleep", rng.choice([100, 3000, 200000])])
    return a

class S03(ServerCheck):
    prop = "S03"
    rule = "a case is 2 to 8 connections from different clients sending requests of all kinds and number types at the same time, with many name collisions between their variables; every answer is compared with the one a fresh server gives to that request alone, under two different hash seeds; non-trivial when at least two connections overlapped in time; distinct by trace digest"
    def gen(self, rng, i):
        pool = [srv.any_req(rng, .3) for _ in range(rng.choice([3, 6, 10]))]
        for _ in range(rng.choice([0, 4, 8, 16])):
            q = srv.sibling(rng, rng.choice(pool))
            if q: pool.append(q)
        acts = []
        # now and then a history of many hundred requests
        long = rng.random() < .03
        if long:
            # some names are given by one request and only asked for by another
            q = [srv.ev(rng.choice(["%s + 1", "%s", "2 * (%s)"]) % n, typ, None if rng.random() < .6 else {n: rng.randint(1, 999)}) for typ in rng.sample([None, "decimal", "float", "integer", "complex", "binary"], 2) for n in rng.sample(["x", "y", "a1", "zz", "qq"], 3)]
            pool = pool[:3] + q
        for k in range(rng.choice([12, 25]) if long else rng.choice([2, 3, 5, 8])):
            reqs = [rng.choice(pool) for _ in range(rng.choice([20, 60]) if long else rng.choice([3, 6, 12]))]
            if long: reqs = [q if rng.random() < .5 else srv.good_req(rng) for q in reqs]
            acts.append(conversation(rng, k + 1, ip_of(k + (101 if long else 1)), reqs, style="whole" if long else None))
        return {"cfg": gen_cfg(rng), "actors": acts, "limit": 300000000, "alt": rng.getrandbits(32)}
    def judge(self, case, st):
        w = srv.run(case, st)
        srv.alive(w)
        seen = {}
        for c in w.conns.values():
            for i, (q, s, _) in enumerate(c.reqs):
                if s is None or i >= len(c.resps): continue
                compare(c, i, q, c.resps[i])
                k = srv.key(q)
                got = srv.core(c.resps[i])
                if seen.setdefault(k, got) != got: raise Violation("answer", "the same request %s was answered %r and %r" % (k, seen[k], got))
        done = set()
        for a in case["actors"]:
            for op in a:
                if op[0] == "send":
                    for q in op[2]:
                        k = srv.key(q)
                        if k in done: continue
                        done.add(k)
                        if len(done) > 2: continue
                        x = srv.run(srv.solo_case({z: q[z] for z in ("m", "p", "b", "bx") if z in q}, case["alt"], 2), st)
                        c = x.conns.get(1)
                        if c and c.resps and srv.solo(q) is not None and srv.core(c.resps[0]) != srv.solo(q):
                            raise Violation("instance", "%s is answered %r by one fresh server process and %r by another" % (k, srv.solo(q), srv.core(c.resps[0])))
        sp = sorted((c.reqs[0][2], c.resps[-1].t1) for c in w.conns.values() if c.reqs and c.resps)
        if any(sp[j + 1][0] < sp[j][1] for j in range(len(sp) - 1)): st.nontrivial.add(w.r.digest)

# ---------------------------------------------------------------------------------- S04
def big_req(rng):
    n = rng.choice([200, 3000, 20000, 60000])
    k = n // 2
    q = ev("+".join(["1"] * k), "integer"); q["x"] = ["value", str(k), False]
    return q

class S04(ServerCheck):
    prop = "S04"
    rule = "a case is 1 to 5 connections whose requests are pipelined and split into segments at seeded places, down to single bytes, some with chunked bodies or large bodies, with short reads and writes, interrupted calls and slowly opening receive windows on the way, some cut short by close, reset or half-close; non-trivial when a request was split or pipelined or cut; distinct by trace digest"
    def gen(self, rng, i):
        acts, cut = [], {}
        for k in range(rng.choice([1, 2, 3, 5])):
            cid, ip = k + 1, ip_of(k + 1)
            a = [["sleep", rng.choice([1000, 1000, 3000, 50000])], ["conn", cid, ip, 1024 + cid, 0]]
            if rng.random() < .2: a.append(["rwin", cid, rng.choice([1, 10, 100, 1000])])
            slow = len(a) > 2
            for _ in range(rng.choice([1, 2, 4])):
                reqs = [big_req(rng) if rng.random() < .04 else srv.any_req(rng) for _ in range(rng.choice([1, 1, 2, 3, 8]))]
                for q in reqs:
                    if q["m"] == "POST" and rng.random() < .2: q["chunks"] = [rng.choice([1, 2, 5, 16, 100]) for _ in range(rng.randint(1, 6))]
                    if rng.random() < .02: q.clear(); q.update({"m": "HEAD", "p": rng.choice(["/eval", "/functions", "/constants"]), "x": ["4xx"]})
                    elif rng.random() < .08: q["v"] = "1.0"; q["h"] = q.get("h", []) + [["Connection", "keep-alive"]]; q.pop("chunks", None)
                a.append(send(rng, cid, reqs, gapmax=2500000))
                if slow:
                    for _ in range(rng.choice([1, 3])): a += [["sleep", rng.choice([100, 20000])], ["rwin", cid, rng.choice([1, 50, 400, 4000])]]
                    a += [["sleep", 1000], ["rwin", cid, -1]]
                if rng.random() < .8: a.append(["wait", cid, -1, 12000000])
            r = rng.random()
            if r < .35:
                # a request cut short
                q = srv.good_req(rng)
                n = len(srv.req_bytes(q))
                a.append(send(rng, cid, [q], upto=rng.randrange(1, n)))
                a.append(["sleep", rng.choice([0, 0, 100, 5000])])
                a.append([rng.choice(["fin", "rst", "close"]), cid])
                cut[str(cid)] = 1
            elif r < .45:
                a.append([rng.choice(["fin", "close"]), cid])
            acts.append(a)
        return {"cfg": gen_cfg(rng), "actors": acts, "limit": 120000000, "settle": 12000000}
    def judge(self, case, st):
        w = srv.run(case, st)
        srv.alive(w)
        hot, later = False, None
        for c in w.conns.values():
            if len(c.chunks) != sum(x[1] is not None for x in c.reqs) or any(x[1] is None for x in c.reqs): hot = True
            try: later = self.conn(c) or later
            except Violation as v:
                # the body of a response is missing and a HEAD request was behind it
                i = next((i for i, r in enumerate(c.resps) if not r.complete or r.body and r.body[:9] == b"HTTP/1.1 "[:len(r.body)]), None)
                if i is None or not any(x[0]["m"] == "HEAD" and x[2] <= c.resps[i].t0 for x in c.reqs[i + 1:]): raise
                later = ("head-pipelined", HEAD)
        if hot: st.nontrivial.add(w.r.digest)
        if later: raise Violation(*later)
    def conn(self, c):
        full = [x for x in c.reqs if x[1] is not None]
        part = [x for x in c.reqs if x[1] is None]
        ans = c.resps
        gone = c.rst is not None or c.cclose is not None
        if c.junk and not gone: raise Violation("garbage", "connection %d: bytes behind the last response: %r" % (c.id, c.junk[:80]))
        for i, r in enumerate(ans):
            if not r.complete:
                if gone: continue
                raise Violation("truncated", "connection %d: response %d is incomplete (%d bytes of body)" % (c.id, i, len(r.body)))
            if i < len(full):
                if r.t0 < full[i][1] and not (r.status >= 400): raise Violation("order", "connection %d: response %d came before request %d was complete" % (c.id, i, i))
                q = full[i][0]
                if r.status == 400 and c.fin is not None and q.get("x", [""])[0] == "value" and len(q.get("b", "")) > 32000: return ("half-close-large", HALF)
                compare(c, i, q, r)
            else:
                if not part or i > len(full): raise Violation("extra", "connection %d: %d responses to %d requests" % (c.id, len(ans), len(full)))
                if r.status < 400: raise Violation("cut", "connection %d: a request cut short after %d bytes was answered with status %d" % (c.id, len(c.sent), r.status))
        if len(ans) < len(full) and not gone and ignored_after(c): return ("early-answer", EARLY)
        if len(ans) < len(full) and not gone:
            raise Violation("lost", "connection %d: %d complete requests, %d responses (closed at %s)%s" % (c.id, len(full), len(ans), c.close, " after half-close" if c.fin else ""))

# ---------------------------------------------------------------------------------- S05
class S05(ServerCheck):
    prop = "S05"
    rule = "a case is 1 to 4 connections on which requests that are no text, no JSON, incomplete, of wrong field types, for unknown paths, or expressions without a value alternate with well-formed ones in seeded order and segmentation, now and then up to 97 requests with long stretches of one kind; non-trivial when an invalid request preceded or accompanied a valid one; distinct by trace digest"
    def gen(self, rng, i):
        acts = []
        long = rng.random() < .04
        for k in range(rng.choice([1, 2, 4]) if long else rng.choice([1, 2, 4])):
            reqs = []
            if long:
                # many of one kind in a row
                while len(reqs) < 90:
                    f = rng.choice([srv.bad_req, srv.unknown_req, srv.evalerr_req, srv.good_req])
                    reqs += [f(rng) for _ in range(rng.choice([3, 12, 35, 60]))] + [srv.good_req(rng)]
                reqs = reqs[:97]
            for _ in range(0 if long else rng.choice([2, 5, 12, 25])):
                reqs.append(rng.choice([srv.bad_req, srv.bad_req, srv.unknown_req, srv.evalerr_req, srv.evalerr_req, srv.good_req, srv.good_req])(rng))
            reqs = [srv.dress(rng, q, .1) for q in reqs]
            reqs.append(srv.good_req(rng))
            acts.append(conversation(rng, k + 1, ip_of(k + 1), reqs))
        return {"cfg": gen_cfg(rng), "actors": acts, "limit": 200000000, "settle": 12000000}
    def judge(self, case, st):
        w = srv.run(case, st)
        srv.alive(w)
        kinds, later = set(), None
        for c in w.conns.values():
            for i, (q, s, _) in enumerate(c.reqs):
                if s is None: continue
                kinds.add((q.get("x") or ["?"])[0])
                if i >= len(c.resps) and ignored_after(c):
                    later = EARLY
                    break
                if i >= len(c.resps):
                    raise Violation("lost", "connection %d, request %d (%s %s %s) got no answer" % (c.id, i, q["m"], q["p"], q.get("b", q.get("bx", ""))[:120]))
                m = srv.check_expect(q, c.resps[i])
                if m: raise Violation("answer", "connection %d, request %d (%s %s %s): %s" % (c.id, i, q["m"], q["p"], q.get("b", q.get("bx", ""))[:150], m))
        for k in kinds: st.c["probe:" + k] += 1
        if "value" in kinds and len(kinds) > 1: st.nontrivial.add(w.r.digest)
        if later: raise Violation("early-answer", later)

# ---------------------------------------------------------------------------------- S06
def others_ok(w, case, limit=10000000, skip=()):
    """Every complete request of the well-behaved connections is answered, correctly and within the limit."""
    for c in w.conns.values():
        if str(c.id) not in case["good"] or c.id in skip: continue
        for i, (q, s, _) in enumerate(c.reqs):
            if s is None: continue
            if i >= len(c.resps) or not c.resps[i].complete:
                raise Violation("other-lost", "connection %d (well behaved), request %d (%s %s %s) sent at %.3f s got no answer; connection closed at %s" % (c.id, i, q["m"], q["p"], q.get("b", "")[:100], s / 1e6, c.close))
            compare(c, i, q, c.resps[i], "other-answer")
            d = c.resps[i].t1 - s
            if d > limit + w.slack(s, c.resps[i].t1, 100000):
                raise Violation("delay", "connection %d (well behaved), request %d was answered after %.3f s" % (c.id, i, d / 1e6))

def hostile_req(rng):
    """An evaluation request on which evaluating may fail in any way."""
    import repl_checks as RC
    typ = rng.choice([None, "decimal", "float", "integer", "complex", "binary"])
    t = typ or "decimal"
    r = rng.random()
    if r < .2:
        e = rng.choice(["(" * 3000 + "1" + ")" * 3000, "1+" * 5000 + "1", "-" * 2000 + "1", "sum(" + "1," * 3000 + "2)", "9" * 4000, "x" * 5000, "((((" * 500, "sqrt(" * 800 + "4" + ")" * 800, "2^" * 300 + "1", "", "(", ")", ",", "+", "π-1", "é-1", "é", "sqrt(", "max(", "1 << 200", "1 >> -1", "1 << -1", "random()", "random(0)", "random(1,0)", "random(5)", "\u0000", "1\n+1", "\U0001f600+1", "[1+2]*3", "[(1]", "2(3)", "$", "$x", "a=1", "1=1", "1//0", "0^0", "0^-1", "ln(0)", "log(0,0)", "1/0", "5 mod 0", "0/0", "(1)(2)", "pi pi", "1,2", "max()", "min()", "avg()", "sum()", "product()", "95!", "200!", "-5!", "5!!", "0.5!", "27!", "28!", "171!", "34!", "35!"])
    else:
        e = RC.wild_expr(rng, t)
        if rng.random() < .2:
            p = rng.randint(0, len(e)); e = e[:p] + rng.choice(["é", "π", "(", ")", ",", "!", "$", "..", "x", "b", "²", "\u00a0", "[", "{", "\"", "#", "\\", "\n"]) + e[p:]
    vs = None
    if rng.random() < .3:
        vs = {rng.choice(["x", "y", "é", "π", "", " ", "1", "+", "pi", "e", "sum", "a b", "x" * 300, "(", "$x", "i"]): rng.choice([1, -1, 0.5, 1e308, 1e-320, -0.0, 1e29, "1e400", "nan", "inf", "-inf", "", "x", "1/2", "170141183460469231731687303715884105727", "-170141183460469231731687303715884105728", "79228162514264337593543950335", "b101", "1+2i", "i", "0x10", " 1", "١"]) for _ in range(rng.choice([1, 1, 2, 4]))}
    return ev(e, typ, vs, only=rng.choice([None, None, "true", "false"]))

def endless(q):
    """prexel 0.1.9 computes these factorials by counting to the argument, in steps of one, for ever or nearly so."""
    try: d = json.loads(q["b"])
    except (ValueError, KeyError): return False
    return d.get("type") in ("float", "complex") and "!" in d.get("expression", "") and not re.fullmatch(r"\d{1,3}!", d["expression"])

def calm_hostile(rng):
    """An expression that may fail in any way, but ends at once."""
    while True:
        q = hostile_req(rng)
        if len(q["b"]) < 500 and "random" not in q["b"].lower() and not endless(q): return q

class S06(ServerCheck):
    prop = "S06"
    quick_n, thorough_n = 3000, 150000
    rule = "a case is one to three clients that send expressions meant to make evaluation fail (extreme operands to every function and operator of every number type, malformed and deeply nested text, odd variables) beside two to four clients with ordinary requests, all at the same time; every sender asks again on a new connection; non-trivial when a hostile request was handled while an ordinary connection was open; distinct by trace digest"
    def gen(self, rng, i):
        acts, good, nc = [], [], 1
        # now and then a history of many failures
        long = rng.random() < .03
        for k in range(rng.choice([4, 8]) if long else rng.choice([1, 1, 2, 3])):
            a = []
            for j in range(2 if long else rng.choice([1, 2, 4])):
                reqs = []
                while len(reqs) < (45 if long else rng.choice([1, 1, 2, 5])):
                    q = hostile_req(rng)
                    if not endless(q): reqs.append(q)
                a += conversation(rng, nc, ip_of(k + 1), reqs, start=rng.choice([1000, 1000, 1500, 4000])); nc += 1
                a += conversation(rng, nc, ip_of(k + 1), [srv.good_req(rng)], start=rng.choice([0, 100, 5000])); good.append(str(nc)); nc += 1
            acts.append(a)
        for k in range(rng.choice([2, 2, 3, 4])):
            acts.append(conversation(rng, nc, ip_of(40 + k), [srv.good_req(rng) if rng.random() < .8 else srv.list_req(rng) for _ in range(rng.choice([3, 8, 15]))]))
            good.append(str(nc)); nc += 1
        case = {"cfg": gen_cfg(rng), "actors": acts, "good": good, "limit": 300000000, "settle": 12000000}
        if i % 400 == 5:
            q = ev("1e300!", rng.choice(["float", "complex"]))
            case.update(actors=[[["sleep", 1000], ["conn", 1, "10.1.0.2", 1025, 0], ["send", 1, [q], [], 0, -1], ["wait", 1, -1, 12000000]]], good=[], endless=1)
        return case
    def judge(self, case, st):
        w = srv.run(case, st, cpu=3 if case.get("endless") else 12)
        if case.get("endless") and w.r.hang: raise Violation("endless", "the server is busy for ever with %s" % case["actors"][0][2][2][0]["b"])
        srv.alive(w)
        hot = False
        for c in w.conns.values():
            if str(c.id) in case["good"]: continue
            for i, (q, s, _) in enumerate(c.reqs):
                if s is None: continue
                hot = True
                if i >= len(c.resps) or not c.resps[i].complete:
                    raise Violation("dropped", "connection %d, request %d (%s) got no answer; connection closed at %s" % (c.id, i, q.get("b", "")[:300], c.close))
                r = c.resps[i]
                if r.status == 429: continue
                st.c["probe:status_%d" % r.status] += 1
                if b'"error":"' in r.body: st.c["probe:evaluation_error"] += 1
                if r.status != 200: raise Violation("status", "connection %d, request %d (%s) got status %d" % (c.id, i, q.get("b", "")[:300], r.status))
        others_ok(w, case)
        if hot: st.nontrivial.add(w.r.digest)

# ---------------------------------------------------------------------------------- S07
class S07(ServerCheck):
    prop = "S07"
    quick_n, thorough_n = 3000, 150000
    rule = "a case is 1 to 25 clients (5 %: 70 to 300 of one kind together) that stall inside the head or the body of a request, never read, trickle bytes, stay idle, reset, half-close or vanish at seeded moments, beside one to three clients with ordinary requests on fresh and kept connections; non-trivial when an ordinary request was answered while a misbehaving connection was open; distinct by trace digest"
    def bad_client(self, rng, cid, ip, kind=None):
        a = [["sleep", rng.choice([500, 1000, 1000, 3000, 100000, 2000000] if kind is None else [500, 800, 1000])], ["conn", cid, ip, 1024 + cid, 0]]
        q = rng.choice([srv.good_req, srv.list_req, srv.good_req])(rng)
        if rng.random() < .1: q = big_req(rng)
        b = srv.req_bytes(q)
        k = rng.choice(["silent", "head", "head", "body", "body", "trickle", "noread", "idle", "vanish", "pipelined", "chunked"])
        if kind is not None: k = kind
        if k == "silent": pass
        elif k == "head": a.append(["raw", cid, b[:rng.randrange(1, b.index(b"\r\n\r\n") + 3)].hex()])
        elif k in ("body", "chunked"):
            q = srv.good_req(rng)
            if k == "chunked": q["chunks"] = [3, 5]
            b = srv.req_bytes(q)
            h = b.index(b"\r\n\r\n") + 4
            a.append(["raw", cid, b[:rng.randrange(h, len(b))].hex()])
        elif k == "trickle":
            for x in range(0, min(len(b) - 1, rng.choice([5, 20, 60]))):
                a += [["raw", cid, b[x:x + 1].hex()], ["sleep", rng.choice([100000, 1000000, 4000000])]]
        elif k == "noread":
            a.append(["rwin", cid, rng.choice([0, 1, 100])])
            for _ in range(rng.choice([1, 5, 90])): a.append(["raw", cid, srv.req_bytes(get("/functions")).hex()])
        elif k == "pipelined":
            for _ in range(rng.choice([5, 30, 110])): a.append(["raw", cid, b.hex()])
        elif k == "vanish": a.append(["raw", cid, b.hex()])
        else:
            a += [["raw", cid, b.hex()], ["sleep", 2000]]
        r = rng.random()
        if r < .5 and kind is None: a += [["sleep", rng.choice([0, 1000, 200000, 3000000, 6000000, 30000000])], [rng.choice(["close", "rst", "fin"]), cid]]
        return a, k
    def gen(self, rng, i):
        acts, good, kinds = [], [], {}
        nc = 1
        # now and then a crowd that holds its requests back together
        mass = rng.choice(["body", "chunked", "noread", "head", "idle"]) if rng.random() < .05 else None
        for k in range(rng.choice([70, 150, 300]) if mass else rng.choice([1, 3, 8, 25])):
            a, kind = self.bad_client(rng, nc, ip_of(60 + k if mass else 30 + k % 7), mass); acts.append(a); kinds[str(nc)] = kind; nc += 1
        for k in range(rng.choice([1, 2, 3])):
            a = []
            for _ in range(rng.choice([1, 2, 4])):
                a += conversation(rng, nc, ip_of(k + 1), [srv.good_req(rng) if rng.random() < .8 else srv.list_req(rng) for _ in range(rng.choice([1, 3, 6]))], style="whole", start=rng.choice([1000, 2000, 200000, 4000000]))
                good.append(str(nc)); nc += 1
            acts.append(a)
        long = rng.random() < .5
        cfg = gen_cfg(rng)
        # half a second's pause after each failed accept, times a crowd, is what the faults cost and no starvation
        if mass: cfg.pop("paccept", None)
        return {"cfg": cfg, "actors": acts, "good": good, "kinds": kinds, "limit": 400000000, "settle": 130000000 if long else 20000000, "long": long}
    def judge(self, case, st):
        w = srv.run(case, st)
        srv.alive(w)
        others_ok(w, case)
        end = w.r.ev[-1][0]
        hot, later = False, None
        for c in w.conns.values():
            if str(c.id) in case["good"]: continue
            hot = True
            st.c["probe:" + case["kinds"].get(str(c.id), "?")] += 1
            left = min(x for x in (c.rst, c.cclose, 1 << 62) if x is not None)
            if left < end - 15000000 - w.slack(left, end, 0) and c.close is None and c.accept is not None:
                raise Violation("leak", "connection %d (%s) was closed by its client at %.3f s and its descriptor is still open %.1f s later" % (c.id, case["kinds"].get(str(c.id)), left / 1e6, (end - left) / 1e6))
            last = max([c.t] + [t for t, _ in c.chunks])
            if case.get("long") and left > end and c.fin is None and c.close is None and last < end - 120000000 - w.slack(last, end, 0):
                k = case["kinds"].get(str(c.id))
                partial = k in ("head", "body", "chunked", "trickle")
                if partial: later = (k, "connection %d stopped in the middle of a request (%s) at %.3f s and is still neither answered nor closed %.0f s later" % (c.id, k, last / 1e6, (end - last) / 1e6))
        if hot: st.nontrivial.add(w.r.digest)
        if later: raise Violation("kept-" + later[0], later[1])

# ---------------------------------------------------------------------------------- S08
class S08(ServerCheck):
    prop = "S08"
    quick_n, thorough_n = 3000, 150000
    rule = "a case starts the server with some port setting, lets one to six clients send requests in seeded segments, and delivers one or more termination signals at a seeded moment, with faults and stalls; non-trivial when a connection was open when the signal came; distinct by trace digest"
    def gen(self, rng, i):
        acts, nc = [], 1
        T = rng.choice([1000, 1100, 1500, 3000, 20000, 300000, 2000000, 8000000]) + rng.randint(0, 1500)
        for k in range(rng.choice([1, 1, 2, 4, 6])):
            start = rng.choice([1000, max(1, T - rng.choice([5, 30, 80, 200, 1000])), T + rng.choice([0, 10, 100])])
            n = rng.choice([1, 1, 2, 5])
            a = conversation(rng, nc, ip_of(k + 1), [srv.good_req(rng) if rng.random() < .7 else calm_hostile(rng) if rng.random() < .3 else (big_req(rng) if rng.random() < .2 else srv.list_req(rng)) for _ in range(n)], start=start)
            r = rng.random()
            if r < .15:
                # reads nothing for a while
                a = a[:2] + [["rwin", nc, rng.choice([10, 500])], send(rng, nc, [srv.good_req(rng) for _ in range(n)], "whole"), ["sleep", rng.choice([1000, 3000000])], ["rwin", nc, -1], ["wait", nc, -1, 12000000]]
            elif r < .3:
                q = srv.good_req(rng); a.append(send(rng, nc, [q], upto=rng.randrange(1, len(srv.req_bytes(q)))))
            nc += 1
            acts.append(a)
        sig = rng.choice([15, 15, 15, 2, 3])
        s = [["sleep", T], ["sig", sig]]
        if rng.random() < .15: s += [["sleep", rng.choice([1, 100, 1000000, 20000000])], ["sig", rng.choice([15, 2, 3])]]
        acts.append(s)
        port = rng.choice(["8000", "8000", "8080", "80", "65535", "1", None, "", "abc", "65536", "-1", "80 ", "0x50", "8e3", "9000", "70000000000"])
        cfg = gen_cfg(rng)
        if rng.random() < .06: cfg["binderr"] = [rng.choice([98, 13, 99, 12, 22]), rng.choice([0, 1])]
        return {"cfg": cfg, "actors": acts, "limit": 90000000, "settle": 50000000, "env": {"PORT": port}, "first": sig}
    def judge(self, case, st):
        w = srv.run(case, st)
        if "binderr" in case["cfg"]:
            # the address is not to be had
            t = next((e[0] for e in w.r.ev if e[2] == "F" and e[3].startswith(("bind_error", "listen_error"))), None)
            if t is None: raise Violation("port", "with PORT %r the server does not ask for an address" % case["env"]["PORT"])
            if w.r.hang or w.r.rc < 0: raise Violation("crash", "the server died when it could not listen: status %s %s" % (w.r.rc, sim.panic_text(w.r)))
            end = w.r.ev[-1][0]
            if w.sigs and w.sigs[0][2].endswith("default") and w.sigs[0][0] - t <= 1000000 + w.slack(t, w.sigs[0][0], 0): return      # ended by the signal
            if w.r.end != "exit" or end - t > 1000000 + w.slack(t, end, 0): raise Violation("no-address", "the server could not listen and %s" % ("has not ended" if w.r.end != "exit" else "took %.1f s to end" % ((end - t) / 1e6)))
            if w.r.rc == 0: raise Violation("no-address", "the server could not listen and ended with status 0")
            st.nontrivial.add(w.r.digest)
            return
        if sim.died(w.r) and not (w.sigs and w.sigs[0][2].endswith("default")): raise Violation("crash", "the server died: status %s %s" % (w.r.rc, sim.panic_text(w.r)))
        p = case["env"]["PORT"]
        want = 8000
        if p is not None and re.fullmatch(r"\+?[0-9]+", p) and int(p) <= 65535: want = int(p)
        got = [e[3] for e in w.r.ev if e[2] == "LISTEN"]
        if got and set(got) != {str(want)}:
            raise Violation("port", "with PORT %r the server listens on %s, not on port %d" % (p, got, want))
        if not got and w.sigs and w.sigs[0][2].endswith("default") and w.sigs[0][0] < 1000000 + w.slack(0, w.sigs[0][0], 0): return      # still starting
        if not got: raise Violation("port", "with PORT %r the server does not listen" % p)
        if w.sigs and w.sigs[0][2].endswith("default"):
            up = next(e[0] for e in w.r.ev if e[2] == "LISTEN")
            if w.sigs[0][0] - up > 1000000 + w.slack(up, w.sigs[0][0], 0): raise Violation("unhandled", "%.1f s after its start the server has no handling of signal %d and is killed by it" % ((w.sigs[0][0] - up) / 1e6, w.sigs[0][1]))
            return        # the server was still starting
        if not w.sigs: return
        t = w.sigs[0][0]
        end = w.r.ev[-1][0]
        lim = 40000000 + w.slack(t, end, 200000)
        if w.r.end != "exit": raise Violation("not-ended", "the server has not ended %.1f s after signal %d" % ((end - t) / 1e6, w.sigs[0][1]))
        if end - t > lim: raise Violation("late", "the server ended %.1f s after signal %d" % ((end - t) / 1e6, w.sigs[0][1]))
        hot, later = False, None
        term = len(w.sigs) == 1 and w.sigs[0][1] == 15      # a repeated request may cut it short
        for c in w.conns.values():
            if c.t < t and (c.close is None or c.close > t): hot = True
            win = [op[2] for a in case["actors"] for op in a if op[0] == "rwin" and op[1] == c.id]
            gone = c.rst is not None or c.cclose is not None or (win and win[-1] >= 0)
            # the refusal of a request that never came to its end, given when the time for ending is over
            gone = gone or (len(c.resps) + bool(c.junk) > sum(x[1] is not None for x in c.reqs) and c.wr and c.wr[-1][0] > t + 29000000)
            for i, r in enumerate(c.resps):
                if not r.complete:
                    if term and not gone: raise Violation("truncated", "connection %d: response %d was cut after %d bytes of body by the shutdown" % (c.id, i, len(r.body)))
                elif i < len(c.reqs) and c.reqs[i][1] is not None: compare(c, i, c.reqs[i][0], r)
            if term and c.junk and not gone: raise Violation("truncated", "connection %d: the last response was cut: %r" % (c.id, c.junk[:60]))
            if term and not gone and c.accept is not None and c.accept < t:
                for i, (q, s, _) in enumerate(c.reqs):
                    if s is not None and s < t and i >= len(c.resps) and c.rd == 0:
                        later = Violation("abandoned-unread", "connection %d: accepted %.6f s before SIGTERM and request 0 complete, but dropped without a byte read" % (c.id, (t - c.accept) / 1e6))
                    elif s is not None and s < t and i >= len(c.resps):
                        raise Violation("abandoned", "connection %d: request %d had arrived completely %.6f s before SIGTERM and was not answered" % (c.id, i, (t - s) / 1e6))
        if hot: st.nontrivial.add(w.r.digest)
        if later: raise later

# ---------------------------------------------------------------------------------- S09
def unusable(sc):
    """Why a standard client would not send this cookie back to the other paths of the same plain-HTTP server."""
    at = dict((x.strip().lower().split("=", 1) + [""])[:2] for x in sc.split(";")[1:])
    if "secure" in at: return "it is for encrypted connections only"
    if at.get("path", "/") not in ("/", ""): return "it is for the path %s only" % at["path"]
    if at.get("domain"): return "it is for the domain %s" % at["domain"]
    if "max-age" in at:
        if re.fullmatch(r"-?\d+", at["max-age"]) and int(at["max-age"]) < 3600: return "it is kept for %s s only" % at["max-age"]
    return None

class S09(ServerCheck):
    prop = "S09"
    rule = "a case mixes clients whose peer address cannot be determined, sending back the cookie they were issued on further connections, none, a stale or a foreign one, with clients of known address that send such cookies; non-trivial when a cookie was issued and later sent back; distinct by trace digest"
    def gen(self, rng, i):
        acts, nc, info = [], 1, {}
        for k in range(rng.choice([1, 2, 3])):
            a, kind = [["sleep", rng.choice([1000, 1000, 30000])]], rng.choice(["returns", "returns", "forgets", "foreign", "known", "known"])
            ip = ip_of(k + 1)
            src = None
            val = rng.choice(["stale%d" % k, "%x" % rng.getrandbits(80), ip_of(rng.randint(1, 3)), "0.0.0.0", ip_of(rng.randint(1, 3)) + ":2000", "unknown"])
            n, per, on, cur = rng.choice([3, 12, 40, 105]), rng.choice([1, 3, 50]), 0, None
            for j in range(n):
                if cur is None or on >= per:
                    if cur is not None and rng.random() < .6: a.append([rng.choice(["close", "fin", "rst"]), cur])
                    cur = nc; nc += 1; on = 0
                    a.append(["conn", cur, ip, rng.randint(1024, 65000), 0 if kind == "known" else 1])
                    info[str(cur)] = kind
                q = dict(rng.choice(CHEAP))
                ck = None
                if kind == "returns" and src is not None and rng.random() < .97: ck = "@COOKIEFROM%d@" % src
                elif kind in ("foreign", "known") and rng.random() < .8: ck = val
                if ck is not None:
                    v = "X-Ratelimit-Id=" + ck
                    v = rng.choice([v, v, "a=b; " + v, v + "; c=d", "other=1;" + v])
                    q["h"] = q.get("h", []) + [["Cookie", v]]
                elif rng.random() < .2: q["h"] = q.get("h", []) + [["Cookie", rng.choice(["a=b", "session=1; x=y"])]]
                q["ck"] = ck
                a.append(["send", cur, [q], [], 0, -1]); on += 1
                a.append(["wait", cur, -1, 12000000])
                if kind == "returns" and ck is None: src = cur
                if rng.random() < .03: a.append(["sleep", rng.choice([1000, 3000000, 61000000])]); on = per
            acts.append(a)
        if rng.random() < .08:
            # many clients, each of which gets an identity; some come back with it
            a = [["sleep", rng.choice([1000, 20000, 1000000])]]
            for k in range(rng.choice([15, 70, 150, 300])):
                for j in range(2 if k == 0 or rng.random() < .1 else 1):
                    a.append(["conn", nc, ip_of(rng.choice([40, 40 + k])), rng.randint(1024, 65000), 1])
                    info[str(nc)] = "returns"
                    for z in range(rng.choice([1, 1, 1, 3])):
                        q = dict(rng.choice(CHEAP)); q["ck"] = None
                        if j: q["ck"] = "@COOKIEFROM%d@" % src; q["h"] = q.get("h", []) + [["Cookie", "X-Ratelimit-Id=" + q["ck"]]]
                        a += [["send", nc, [q], [], 0, -1], ["wait", nc, -1, 12000000]]
                    src = nc
                    a.append([rng.choice(["close", "fin", "rst"]), nc])
                    nc += 1
            acts.append(a)
        return {"cfg": gen_cfg(rng), "actors": acts, "info": info, "limit": 900000000}
    def judge(self, case, st):
        w = srv.run(case, st)
        srv.alive(w)
        later, byid, issued = [], {}, {}
        hot = False
        for s, resp, c, i, q in sequence(w.conns.values()):
            if resp is None or not resp.complete:
                if c.rst is None and c.cclose is None: raise Violation("lost", "connection %d: request %d got no answer" % (c.id, i))
                continue
            sc = resp.h("set-cookie")
            if case["info"][str(c.id)] == "known":
                if sc is not None: raise Violation("issued", "client with known address %s was issued %r" % (c.ip, sc))
                k = ("ip", c.ip)
            elif q["ck"] is None:
                m = re.match(r"X-Ratelimit-Id=([^;]+)", sc or "")
                if m is None: raise Violation("not-issued", "connection %d: a client without address or cookie got status %d and was issued %r" % (c.id, resp.status, sc))
                v = m.group(1)
                bad = unusable(sc)
                if bad: raise Violation("unusable", "connection %d: no client sends the cookie %r back with all its requests: %s" % (c.id, sc, bad))
                if v in issued: raise Violation("same", "the identity %s was issued twice" % v)
                issued[v] = c.id
                k = ("cookie", v)
            else:
                sent = re.findall(rb"X-Ratelimit-Id=([^;\r]*)", c.sent)
                v = q["ck"]
                if v.startswith("@"):
                    frm = [x for x, y in issued.items() if y == int(v[11:-1])]
                    if not frm: continue
                    v = frm[-1]
                    hot = True
                if sc is not None: raise Violation("reissued", "connection %d: request %d sent its identity %s back and was issued %r" % (c.id, i, v, sc))
                k = ("cookie", v)
            compare(c, i, q, resp)
            byid.setdefault(k, []).append((s, resp, c, i, q))
        for k in sorted(byid):
            if len({id(x[2]) for x in byid[k]}) and not self.sequential(byid[k]): continue
            tracker(byid[k], w, later)
        for k in case["info"].values(): st.c["probe:" + k] += 1
        if hot: st.nontrivial.add(w.r.digest)
        if later: raise later[0]
    def sequential(self, rs):
        return all(rs[j][1].t1 <= rs[j + 1][0] for j in range(len(rs) - 1))
