"""Reference model of the interactive session: terminal emulator, line editor, evaluator."""
import re
import build, sim

TYPES = ["decimal", "float", "integer", "complex", "binary"]
PROMPT = ">>> "
PRE = "Press CTRL+C or type 'exit' to Exit"
BYE = "Bye bye!"

# ------------------------------------------------------------------ terminal emulator
class Screen:
    """A terminal of unbounded width and height: enough for the control sequences a line
    editor needs; anything else is recorded in .unknown."""
    def __init__(self):
        self.lines = [[]]
        self.col = 0
        self.row = 0
        self.pend = b""
        self.unknown = []
        self.sgr = 0
        self.partial = False
        self.opost = True          # the terminal driver returns to the first column at a line feed
    def event(self, e, echo=False):
        """What one event of a trace does to the screen."""
        if e[2] in ("OUT1", "OUT2"): self.feed(bytes.fromhex(e[3]))
        elif e[2] == "TCSET": self.opost = bool(int(e[3].split()[1], 16) & 1)
        elif e[2] == "ECHO" and echo: self.feed(bytes.fromhex(e[3]))
    def events(self, evs, echo=False):
        for e in evs: self.event(e, echo)
        return self
    def feed(self, data):
        data = self.pend + data
        self.pend = b""
        i, n = 0, len(data)
        while i < n:
            b = data[i]
            if b == 0x1b:
                m = re.match(rb"\x1b\[([0-9;?]*)([A-Za-z])", data[i:])
                if not m:
                    if n - i < 16 and re.fullmatch(rb"\x1b(\[[0-9;?]*)?", data[i:]):
                        self.pend = data[i:]
                        return
                    self.unknown.append(data[i:i + 8]); i += 1
                    continue
                self.csi(m.group(1).decode(), m.group(2).decode())
                i += m.end()
            elif b == 0x0a:
                self.row += 1
                if self.opost: self.col = 0
                if self.row >= len(self.lines): self.lines.append([])
                i += 1
            elif b == 0x0d: self.col = 0; i += 1
            elif b == 0x08: self.col = max(0, self.col - 1); i += 1
            elif b == 0x07: i += 1
            elif b < 0x20 or b == 0x7f: self.unknown.append(data[i:i + 1]); i += 1
            else:
                l = 1 if b < 0x80 else 2 if b < 0xe0 else 3 if b < 0xf0 else 4
                if i + l > n:
                    self.pend = data[i:]
                    return
                self.put(data[i:i + l].decode("utf-8", "replace"))
                i += l
    def put(self, ch):
        L = self.lines[self.row]
        while len(L) < self.col: L.append(" ")
        if self.col < len(L): L[self.col] = ch
        else: L.append(ch)
        self.col += 1
    def csi(self, args, fin):
        a = [int(x) if x.isdigit() else 0 for x in args.split(";")] if args else []
        n1 = max(1, a[0]) if a else 1
        L = self.lines[self.row]
        if fin == "m": self.sgr += 1
        elif fin == "K":
            k = a[0] if a else 0
            if k == 2: L[:] = []
            elif k == 0: del L[self.col:]
            else:
                for j in range(min(self.col + 1, len(L))): L[j] = " "
        elif fin == "D": self.col = max(0, self.col - n1)
        elif fin == "C": self.col += n1
        elif fin == "G": self.col = n1 - 1
        elif fin == "A": self.row = max(0, self.row - n1)
        elif fin == "B":
            self.row += n1
            while self.row >= len(self.lines): self.lines.append([])
        elif fin in "hl" and args.startswith("?"): pass
        else: self.unknown.append(("csi", args, fin))
    def text(self):
        return ["".join(l).rstrip(" ") for l in self.lines]
    def cur(self):
        return "".join(self.lines[self.row])

# ------------------------------------------------------------------ keys
UTF = ["é", "π", "ñ", "Ω", "ж", "→", "𝑥"]
DEAD = {  # keys without a function in the line editor
    "Left": b"\x1b[D", "Right": b"\x1b[C", "Home": b"\x1b[H", "End": b"\x1b[F", "PageUp": b"\x1b[5~", "PageDown": b"\x1b[6~",
    "Insert": b"\x1b[2~", "Delete": b"\x1b[3~", "Tab": b"\t", "BackTab": b"\x1b[Z", "F1": b"\x1bOP", "F2": b"\x1bOQ", "F5": b"\x1b[15~", "F12": b"\x1b[24~",
    # a character with Ctrl or Alt is no text
    "Ctrl+A": b"\x01", "Ctrl+E": b"\x05", "Ctrl+H": b"\x08", "Ctrl+L": b"\x0c", "Ctrl+U": b"\x15", "Ctrl+W": b"\x17", "Ctrl+Space": b"\x00", "Ctrl+7": b"\x1f",
    "Alt+1": b"\x1b1", "Alt+f": b"\x1bf", "Alt+X": b"\x1bX", "Alt++": b"\x1b+"}
def key_bytes(k):
    if k == "Enter": return b"\n"
    if k == "CR": return b"\r"
    if k == "BS": return b"\x7f"
    if k == "Up": return b"\x1b[A"
    if k == "Down": return b"\x1b[B"
    if k == "Esc": return b"\x1b"
    if k == "CtrlC": return b"\x03"
    if k in DEAD: return DEAD[k]
    return k.encode()

# ------------------------------------------------------------------ reference evaluator for simple lines
class RefError(Exception): pass
class Unknown(Exception): pass
TOK = re.compile(r"\s*(\$?[A-Za-z_][A-Za-z_0-9]*|\d+|[-+*/^(),!]|\$\w*)")
LIM = 10 ** 12

def ref_eval(line, env, typ):
    """Value of a line of the simple grammar (integers, + - * ^ ( ) variables sum/max/min/product),
    RefError when it must be rejected, Unknown when the model does not cover it."""
    toks = []
    i = 0
    s = line.strip()
    if re.search(r"[-+*/^,!][-+*/^,!]", s): raise Unknown()     # operators without a blank between them are one name
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise Unknown()
        toks.append(m.group(1)); i = m.end()
        while i < len(s) and s[i] == " ": i += 1
    pos = [0]
    def peek(): return toks[pos[0]] if pos[0] < len(toks) else None
    def nxt():
        t = peek(); pos[0] += 1; return t
    def chk(v):
        if abs(v) > LIM: raise Unknown()
        return v
    def expr():
        v = term()
        while peek() in ("+", "-"):
            o = nxt(); w = term()
            v = chk(v + w if o == "+" else v - w)
        return v
    def term():
        v = factor()
        while peek() == "*":
            nxt(); v = chk(v * factor())
        if peek() in ("/", "!"): raise Unknown()
        return v
    def factor():
        b = atom()
        if peek() == "^":
            nxt(); e = factor()
            if e < 0 or e > 40: raise Unknown()
            return chk(b ** e)
        return b
    def atom():
        t = nxt()
        if t is None: raise Unknown()
        if t == "-":
            # only directly before a number or a parenthesis, and not before a power
            v = atom()
            if peek() == "^": raise Unknown()
            return -v
        if t == "(":
            v = expr()
            if nxt() != ")": raise Unknown()
            return v
        if t.isdigit(): return chk(int(t))
        low = t.lower()
        if low in ("sum", "max", "min", "product") and peek() == "(":
            if typ == "complex" and low in ("max", "min"): raise Unknown()
            nxt()
            a = [expr()]
            while peek() == ",":
                nxt(); a.append(expr())
            if nxt() != ")": raise Unknown()
            if low == "sum": return chk(sum(a))
            if low == "product":
                p = 1
                for x in a: p *= x
                return chk(p)
            if len(a) < 2: raise Unknown()
            return max(a) if low == "max" else min(a)
        if t in env:
            v = env[t]
            if not isinstance(v, int): raise Unknown()
            return v
        raise Unknown()
    v = expr()
    if peek() is not None: raise Unknown()
    return v

def fmt_int(v, typ):
    return str(v)

_oneshot = {}
def oneshot(typ, expr):
    """What the one-shot command prints for an expression: ('val', text) | ('err', text) | ('crash', why)."""
    k = (typ, expr)
    if k not in _oneshot:
        r = sim.run("seed 1\nouttty 0\nend 600000000\n", build.EVAL, ["--no-color", "eval", "-t", typ, "--", expr], cpu=10)
        o1 = b"".join(bytes.fromhex(e[3]) for e in r.ev if e[2] == "OUT1").decode("utf-8", "replace")
        o2 = b"".join(bytes.fromhex(e[3]) for e in r.ev if e[2] == "OUT2").decode("utf-8", "replace")
        if sim.died(r): v = ("crash", "rc %d %s" % (r.rc, sim.panic_text(r)))
        elif o2: v = ("err", o2.rstrip("\n"))
        else: v = ("val", o1.rstrip("\n"))
        if len(_oneshot) > 20000: _oneshot.clear()
        _oneshot[k] = v
    return _oneshot[k]

RESERVED = {t: {"sum", "product", "max", "min", "sqrt", "mod"} for t in ("decimal", "float", "integer")}
RESERVED["binary"] = {"and", "or", "not", "xor", "eq", "b1", "b01"}
RESERVED["complex"] = {"sum", "sqrt"}

NAME = re.compile(r"[A-Za-z_][A-Za-z_0-9]*\Z|\$[A-Za-z0-9_]*\Z")

class Session:
    """State of the session as the properties describe it."""
    def __init__(self, typ, hist):
        self.typ, self.cap = typ, hist
        self.hist, self.cur = [], 0
        self.buf = ""
        self.vars = {"$result": 0 if typ in ("decimal", "float", "integer") else {"complex": "0+0i", "binary": "0"}[typ]}
        self.consts = {"pi", "e"} if typ != "binary" else set()
        if typ == "complex": self.consts.add("i")
        self.ended = False
        self.screen = []           # expected finished lines; None = any non-empty error text after prompt
        self.log = []              # (line, outcome)
        self.unknown = False
    # --- evaluation -----------------------------------------------------------------
    def is_assignment(self, s):
        t = s
        for o in ("==", "!=", ">=", "<="): t = t.replace(o, "")
        return "=" in t
    def parse_literal(self, s):
        if s == "-0": raise Unknown()
        if self.typ in ("decimal", "float", "integer") and re.fullmatch(r"-?\d{1,15}", s):
            return int(s)
        if self.typ in ("decimal", "float") and re.fullmatch(r"-?\d{1,9}\.\d{0,8}[1-9]", s):
            return s
        if self.typ == "complex" and re.fullmatch(r"\d{1,9}", s):
            return s + "+0i"
        if self.typ == "binary" and re.fullmatch(r"\d{1,15}", s): return bin(int(s))[2:]
        if self.typ == "binary" and re.fullmatch(r"b[01]{1,60}", s): return s[1:].lstrip("0") or "0"
        if re.fullmatch(r"[a-zA-Z@#?]+[0-9]*", s) and s.lower() not in ("inf", "nan", "infinity", "i", "e") and not (self.typ == "binary"): 
            return None
        if s == "": return None
        if re.fullmatch(r"\d+[-+*]\d+", s) and self.typ != "complex": return None
        raise Unknown()
    def act(self, line):
        """Outcome of entering a line: ('val', text) ('err',) ('none',) ('exit',)."""
        s = line.strip(" ")
        if s == "exit": return ("exit",)
        if self.is_assignment(s):
            parts = [p.strip(" ") for p in s.split("=")]
            if len(parts) != 2: return ("err",)
            if parts[0].lower() in RESERVED.get(self.typ, ()) or not parts[0] or re.fullmatch(r"\d+|[-+*/^(),!&|~]", parts[0]): return ("err",)
            if not NAME.match(parts[0]) or parts[0].lower() not in ("x", "y", "z", "total", "rate", "foo_1") and not parts[0].startswith("$"): raise Unknown()
            v = self.parse_literal(parts[1])
            if v is None: return ("err",)
            if parts[0].lower() in self.consts: return ("err",)
            self.vars[parts[0]] = v
            return ("none",)
        try:
            v = ref_eval(s, self.vars, self.typ) if self.typ != "binary" and self.typ != "complex" else None
            if v is None: raise Unknown()
            if v == 0 and self.typ != "integer" and ("-" in s or "*" in s or "product" in s.lower()): raise Unknown()   # the sign of zero
            out = ("val", fmt_int(v, self.typ))
            self.vars["$result"] = v
            return out
        except Unknown:
            pass
        # general case: the one-shot command on the line with the variables written out
        def sub(m):
            n = m.group(0)
            if n in self.vars:
                v = self.vars[n]
                if self.typ == "binary":
                    if len(v) > 100: raise Unknown()
                    v = "b" + v
                return "(%s)" % v
            return m.group(0)
        if re.search(r"[A-Za-z0-9_$)] *\(", re.sub(r"[A-Za-z_]+\(", "(", s)) and "$" in s: raise Unknown()
        words = {"and", "or", "xor", "not", "mod", "eq", "ne", "gt", "lt", "gte", "lte", "shl", "shr"}
        toks = re.findall(r"\$?[A-Za-z_][A-Za-z_0-9]*|\$[A-Za-z0-9_]*|\d+|[^\sA-Za-z0-9_$]", s)
        for t, u in zip(toks, toks[1:]):    # written out, adjacent operands would become a product
            def opd(x, right): return x not in words and (x[0].isalnum() or x[0] in "_$" or x == ("(" if right else ")"))
            if opd(t, False) and opd(u, True) and (t in self.vars or u in self.vars): raise Unknown()
        e = re.sub(r"(?<![A-Za-z0-9_$.])(\$[A-Za-z0-9_]*|[A-Za-z_][A-Za-z_0-9]*)", sub, s)
        if "$" in e: return ("err",)
        r = oneshot(self.typ, e)
        if r[0] == "crash": raise Unknown()
        if r[0] == "err": return ("err",)
        t = r[1]
        if "NaN" in t or "inf" in t: raise Unknown()
        self.vars["$result"] = int(t) if re.fullmatch(r"-?\d{1,15}", t) and t != "-0" and self.typ in ("decimal", "float", "integer") else t
        return ("val", t)
    # --- keys ------------------------------------------------------------------------
    def key(self, k):
        if self.ended: return
        if k in ("Enter", "CR"):
            line, self.buf = self.buf, ""
            self.screen.append(PROMPT + line)
            o = self.act(line)
            self.log.append((line, o))
            if o[0] == "exit":
                self.ended = True
                return
            if o[0] == "val": self.screen.append(PROMPT + o[1])
            elif o[0] == "err": self.screen.append(None)
            if line.strip(" "):
                if (not self.hist or self.hist[-1] != line) and self.cap > 0:
                    if len(self.hist) == self.cap: self.hist.pop(0)
                    self.hist.append(line)
                self.cur = len(self.hist)
        elif k == "BS": self.buf = self.buf[:-1]
        elif k == "Up":
            if self.cur > 0:
                self.cur -= 1
                self.buf = self.hist[self.cur]
        elif k == "Down":
            if self.cur < len(self.hist):
                self.cur += 1
                self.buf = self.hist[self.cur] if self.cur < len(self.hist) else ""
        elif k in ("Esc", "CtrlC"): self.ended = True
        elif k in DEAD or k.startswith("sig"): pass
        else: self.buf += k

def screen_matches(actual, expected):
    """actual: list of strings; expected: list with None for an error line."""
    if len(actual) != len(expected): return "terminal has %d lines, expected %d" % (len(actual), len(expected))
    for i, (a, e) in enumerate(zip(actual, expected)):
        if e is None:
            if not a.startswith(PROMPT) or not a[len(PROMPT):].strip():
                return "line %d: expected an error message, got %r" % (i, a)
        elif a != e.rstrip(" "):
            return "line %d: got %r, expected %r" % (i, a, e)
    return None
