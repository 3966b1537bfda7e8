"""Symbolic execution of JavaScript: a tree-walking interpreter for the syntax trees of ast.js whose
bytes, code units and numbers may be Z3 terms; a branch on a term is decided by the solver and forked.
Anything outside the supported subset raises Unsupported (no verdict), never a guess."""
import math, sys, threading, time, struct, random
import z3

sys.setrecursionlimit(20000)
threading.stack_size(64 << 20)


class Undef:
    def __repr__(self):
        return "undefined"


UNDEF = Undef()


class Unsupported(Exception):
    pass


class Stop(BaseException):
    """Ends a path (infeasible, or the scenario is over)."""


class Killed(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, kind, msg):
        self.kind, self.msg = kind, msg


# ---------------------------------------------------------------- exploration
class Ctx:
    """One path: the decisions taken so far (replayed from a prefix) and the path condition."""

    def __init__(self, prefix, stats, timeout_ms=20000):
        self.prefix, self.pos, self.trace, self.alts = prefix, 0, [], []
        self.solver = z3.SolverFor("QF_BV")
        self.solver.set("timeout", timeout_ms)
        self.stats, self.steps, self.vars, self.fns = stats, 0, [], set()

    def check(self, *a):
        t = time.time()
        r = self.solver.check(*a)
        d = (time.time() - t) * 1000
        s = self.stats
        s["z3_queries"] = s.get("z3_queries", 0) + 1
        s["z3_time_ms"] = s.get("z3_time_ms", 0) + d
        s["z3_max_ms"] = max(s.get("z3_max_ms", 0), d)
        if r == z3.unknown:
            s["z3_unknown"] = s.get("z3_unknown", 0) + 1
            raise Unsupported("the solver gave up")
        k = "z3_sat" if r == z3.sat else "z3_unsat"
        s[k] = s.get(k, 0) + 1
        return r == z3.sat

    def fresh(self, name, bits=8):
        v = z3.BitVec("%s_%d" % (name, len(self.vars)), bits)
        self.vars.append(v)
        return v

    def assume(self, c):
        c = z3.simplify(c) if not isinstance(c, bool) else c
        if c is True or (not isinstance(c, bool) and z3.is_true(c)):
            return
        self.solver.add(c)
        if self.pos >= len(self.prefix) and not self.check():
            raise Stop()

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
            self.pos += 1
            self.trace.append(b)
            self.solver.add(c if b else z3.Not(c))
            return bool(b)
        t = self.check(c)
        if t and self.check(z3.Not(c)):
            self.alts.append(self.trace + [0])
            self.stats["forks"] = self.stats.get("forks", 0) + 1
        self.pos += 1
        self.trace.append(1 if t else 0)
        self.prefix = self.trace[:]
        self.solver.add(c if t else z3.Not(c))
        return t

    def choice(self, n):
        if n <= 1:
            return 0
        if self.pos < len(self.prefix):
            b = self.prefix[self.pos]
        else:
            b = 0
            for i in range(n - 1, 0, -1):
                self.alts.append(self.trace + [i])
            self.stats["forks"] = self.stats.get("forks", 0) + 1
            self.prefix = self.trace + [0]
        self.pos += 1
        self.trace.append(b)
        return b

    def concretize(self, x):
        """The value of a term; the path is forked over its feasible values, which the solver lists."""
        if not z3.is_expr(x):
            return x
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_signed_long()
        while True:
            if self.pos < len(self.prefix):
                v, taken = self.prefix[self.pos]
                self.pos += 1
                self.trace.append((v, taken))
                self.solver.add(x == v if taken else x != v)
            else:
                if not self.check():
                    raise Stop()
                v = self.solver.model().eval(x, model_completion=True).as_signed_long()
                if self.check(x != v):
                    self.alts.append(self.trace + [(v, 0)])
                    self.stats["forks"] = self.stats.get("forks", 0) + 1
                taken = 1
                self.pos += 1
                self.trace.append((v, 1))
                self.prefix = self.trace[:]
                self.solver.add(x == v)
            if taken:
                return v

    def must(self, c, msg):
        """An assertion: it must hold for every value on this path."""
        self.stats["asserts"] = self.stats.get("asserts", 0) + 1
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                return
            if z3.is_false(c):
                c = False
        if c is False:
            raise Violation("assert", msg)
        if c is True:
            return
        if self.check(z3.Not(c)):
            self.solver.add(z3.Not(c))
            raise Violation("assert", msg)

    def model(self):
        if not self.check():
            raise Stop()
        return self.solver.model()


# ---------------------------------------------------------------- values
class Obj:
    cls = "Object"

    def __init__(self, proto=None):
        self.proto, self.props = proto, {}


class Arr(Obj):
    cls = "Array"

    def __init__(self, it, items):
        Obj.__init__(self, it.protos["Array"])
        self.items = items


class Mem:
    __slots__ = ("b", "obj")

    def __init__(self, b):
        self.b, self.obj = b, None


class Buf(Obj):
    cls = "Buffer"

    def __init__(self, it, mem, off, n, u8=False):
        Obj.__init__(self, it.protos["Uint8Array" if u8 else "Buffer"])
        self.mem, self.off, self.n = mem, off, n

    def bytes(self):
        return self.mem.b[self.off:self.off + self.n]


class ABuf(Obj):
    cls = "ArrayBuffer"

    def __init__(self, it, mem):
        Obj.__init__(self, it.protos["Object"])
        self.mem = mem


class Func(Obj):
    cls = "Function"

    def __init__(self, it, name, fn):
        Obj.__init__(self, it.protos["Function"])
        self.name, self.fn = name, fn  # fn(this, args) -> value
        self.ctor = None  # for classes: fn(args, newtarget)
        self.construct = None  # native constructors: fn(args)
        self.home = None


class Regex(Obj):
    cls = "RegExp"

    def __init__(self, it, src, flags):
        Obj.__init__(self, it.protos["RegExp"])
        self.src, self.flags = src, flags
        self.node, self.ngroups, self.names = parse_regex(src, flags)
        self.props["lastIndex"] = 0


class MapObj(Obj):
    cls = "Map"

    def __init__(self, it, isset=False):
        Obj.__init__(self, it.protos["Set" if isset else "Map"])
        self.d = {}
        self.isset = isset


class Promise(Obj):
    cls = "Promise"

    def __init__(self, it):
        Obj.__init__(self, it.protos["Promise"])
        self.state, self.value, self.subs, self.handled = "pending", UNDEF, [], False


class SStr:
    """A string some of whose code units are terms (16-bit)."""
    __slots__ = ("u",)

    def __init__(self, u):
        self.u = u


def units(s):
    return [ord(c) for c in s] if isinstance(s, str) else s.u


def mkstr(u):
    u = list(u)
    for x in u:
        if not isinstance(x, int):
            return SStr(u)
    return "".join(map(chr, u))


def isstr(v):
    return isinstance(v, (str, SStr))


def issymnum(v):
    return isinstance(v, z3.BitVecRef)


def isnum(v):
    return (isinstance(v, (int, float)) and not isinstance(v, bool)) or issymnum(v)


def isbool(v):
    return isinstance(v, (bool, z3.BoolRef))


def norm(x):
    """Numbers: integral doubles are kept as ints."""
    if isinstance(x, float) and x == x and abs(x) < 2 ** 53 and x == int(x) and not (x == 0 and math.copysign(1, x) < 0):
        return int(x)
    return x


def bv64(x):
    return z3.BitVecVal(x, 64) if isinstance(x, int) else x


def fold(x):
    if z3.is_expr(x):
        x = z3.simplify(x)
        if z3.is_bv_value(x):
            return x.as_signed_long()
        if z3.is_true(x):
            return True
        if z3.is_false(x):
            return False
    return x


class JsThrow(Exception):
    def __init__(self, value):
        self.value = value


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class ShortCircuit(Exception):
    pass


class Brk(Exception):
    def __init__(self, l):
        self.l = l


class Cont(Exception):
    def __init__(self, l):
        self.l = l


class Env:
    __slots__ = ("v", "up")

    def __init__(self, up):
        self.v, self.up = {}, up


# ---------------------------------------------------------------- coroutines
class Worker:
    """A thread that runs async function bodies; exactly one thread runs at any time."""

    def __init__(self):
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.job, self.done, self.exc, self.kill, self.sent = None, True, None, False, None
        self.th = threading.Thread(target=self.loop, daemon=True)
        self.th.start()

    def loop(self):
        while True:
            self.go.acquire()
            self.exc = None
            try:
                self.job()
            except BaseException as e:
                self.exc = e
            self.done = True
            self.back.release()


IDLE = []


# ---------------------------------------------------------------- regular expressions
def parse_regex(src, flags):
    pos = [0]
    ng = [0]
    names = {}

    def peek():
        return src[pos[0]] if pos[0] < len(src) else None

    def eat(c):
        if src.startswith(c, pos[0]):
            pos[0] += len(c)
            return True
        return False

    def alt():
        alts = [seq()]
        while eat("|"):
            alts.append(seq())
        return ("alt", alts) if len(alts) > 1 else alts[0]

    def seq():
        out = []
        while peek() is not None and peek() not in "|)":
            a = atom()
            g0, g1 = a[1] if a[0] == "cap*" else (0, 0)
            q = quant()
            if q:
                a = ("rep", a, q[0], q[1], q[2])
            out.append(a)
        return ("seq", out)

    def quant():
        lo = None
        if eat("*"):
            lo, hi = 0, None
        elif eat("+"):
            lo, hi = 1, None
        elif eat("?"):
            lo, hi = 0, 1
        elif peek() == "{":
            e = src.find("}", pos[0])
            b = src[pos[0] + 1:e] if e > 0 else ""
            p = b.split(",")
            if e > 0 and p[0].isdigit() and (len(p) == 1 or (len(p) == 2 and (p[1] == "" or p[1].isdigit()))):
                pos[0] = e + 1
                lo = int(p[0])
                hi = lo if len(p) == 1 else (int(p[1]) if p[1] else None)
        if lo is None:
            return None
        return lo, hi, not eat("?")

    D = [(48, 57)]
    W = [(48, 57), (65, 90), (95, 95), (97, 122)]
    S = [(9, 13), (32, 32), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000), (0xfeff, 0xfeff)]

    def neg(r):
        out, lo = [], 0
        for a, b in sorted(r):
            if a > lo:
                out.append((lo, a - 1))
            lo = max(lo, b + 1)
        if lo <= 0xffff:
            out.append((lo, 0xffff))
        return out

    def esc(incls):
        c = src[pos[0]]
        pos[0] += 1
        if c in "dwsDWS":
            r = {"d": D, "w": W, "s": S}[c.lower()]
            return r if c.islower() else neg(r)
        m = {"n": 10, "r": 13, "t": 9, "v": 11, "f": 12, "0": 0}
        if c in m:
            return [(m[c], m[c])]
        if c == "x":
            v = int(src[pos[0]:pos[0] + 2], 16)
            pos[0] += 2
            return [(v, v)]
        if c == "u" and src[pos[0]] != "{":
            v = int(src[pos[0]:pos[0] + 4], 16)
            pos[0] += 4
            return [(v, v)]
        if incls and c == "b":
            return [(8, 8)]
        if c.isalnum():
            raise Unsupported("regex escape \\" + c)
        return [(ord(c), ord(c))]

    def cls():
        n = eat("^")
        r = []
        while not eat("]"):
            a = part()
            if peek() == "-" and src[pos[0] + 1] != "]":
                pos[0] += 1
                b = part()
                r.append((a[0][0], b[0][1]))
            else:
                r += a
        return ("set", neg(r) if n else r)

    def part():
        if eat("\\"):
            return esc(True)
        c = ord(src[pos[0]])
        pos[0] += 1
        return [(c, c)]

    def atom():
        if eat("(?:"):
            a = alt()
        elif eat("(?="):
            a = ("look", alt(), True)
        elif eat("(?!"):
            a = ("look", alt(), False)
        elif src.startswith("(?<", pos[0]) and src[pos[0] + 3] not in "=!":
            e = src.index(">", pos[0])
            ng[0] += 1
            i = ng[0]
            names[src[pos[0] + 3:e]] = i
            pos[0] = e + 1
            a = ("cap", i, alt())
        elif src.startswith("(?", pos[0]):
            raise Unsupported("regex group")
        elif eat("("):
            ng[0] += 1
            i = ng[0]
            a = ("cap", i, alt())
        elif eat("["):
            return cls()
        elif eat("."):
            return ("set", neg([]) if "s" in flags else neg([(10, 10), (13, 13), (0x2028, 0x2029)]))
        elif eat("^"):
            return ("bol",)
        elif eat("$"):
            return ("eol",)
        elif eat("\\b"):
            return ("wb", True)
        elif eat("\\B"):
            return ("wb", False)
        elif eat("\\"):
            return ("set", esc(False))
        else:
            c = ord(src[pos[0]])
            pos[0] += 1
            return ("set", [(c, c)])
        if not eat(")"):
            raise Unsupported("regex syntax")
        return a

    n = alt()
    if pos[0] != len(src):
        raise Unsupported("regex syntax: " + src)
    return n, ng[0], names


def regex_match(ctx, rx, u, at):
    """Matches at one position; the capture list (index 0 is the whole match), or None."""
    fl = rx.flags
    ci, ml = "i" in fl, "m" in fl

    def test(c, ranges):
        if isinstance(c, int):
            for a, b in ranges:
                if a <= c <= b:
                    return True
            if ci:
                d = ord(chr(c).swapcase()) if chr(c).isalpha() and len(chr(c).swapcase()) == 1 else c
                return any(a <= d <= b for a, b in ranges)
            return False
        rs = list(ranges)
        if ci:
            for a, b in ranges:
                for lo, hi, d in ((65, 90, 32), (97, 122, -32)):
                    x, y = max(a, lo), min(b, hi)
                    if x <= y:
                        rs.append((x + d, y + d))
        return ctx.branch(z3.Or([z3.And(z3.UGE(c, a), z3.ULE(c, b)) for a, b in rs]))

    WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]

    def m(n, i, caps, k):
        t = n[0]
        if t == "set":
            if i < len(u) and test(u[i], n[1]):
                return k(i + 1, caps)
            return None
        if t == "seq":
            def step(j, i, caps):
                if j == len(n[1]):
                    return k(i, caps)
                return m(n[1][j], i, caps, lambda i2, c2: step(j + 1, i2, c2))
            return step(0, i, caps)
        if t == "alt":
            for a in n[1]:
                r = m(a, i, caps, k)
                if r is not None:
                    return r
            return None
        if t == "cap":
            return m(n[2], i, caps, lambda i2, c2: k(i2, c2[:n[1]] + [(i, i2)] + c2[n[1] + 1:]))
        if t == "rep":
            _, a, lo, hi, greedy = n

            def loop(cnt, i, caps):
                def more():
                    if hi is not None and cnt >= hi:
                        return None
                    return m(a, i, caps, lambda i2, c2: None if (i2 == i and cnt >= lo) else loop(cnt + 1, i2, c2))
                if cnt < lo:
                    return more()
                if greedy:
                    r = more()
                    return r if r is not None else k(i, caps)
                r = k(i, caps)
                return r if r is not None else more()
            return loop(0, i, caps)
        if t == "look":
            r = m(n[1], i, caps, lambda i2, c2: c2)
            if (r is not None) != n[2]:
                return None
            return k(i, r if r is not None and n[2] else caps)
        if t == "bol":
            ok = i == 0 or (ml and test(u[i - 1], [(10, 10), (13, 13)]))
            return k(i, caps) if ok else None
        if t == "eol":
            ok = i == len(u) or (ml and test(u[i], [(10, 10), (13, 13)]))
            return k(i, caps) if ok else None
        if t == "wb":
            a = i > 0 and test(u[i - 1], WORD)
            b = i < len(u) and test(u[i], WORD)
            return k(i, caps) if (a != b) == n[1] else None
        raise Unsupported("regex node")

    r = m(rx.node, at, [None] * (rx.ngroups + 1), lambda i, c: [(at, i)] + c[1:])
    return r


# ---------------------------------------------------------------- the interpreter
class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        self.micro, self.ticks, self.immediates, self.timers = [], [], [], []
        self.timer_id = 0
        self.cur = None  # the worker whose coroutine runs
        self.live = []
        self.protos = {}
        self.natives = {}
        self.pending_rejections = []
        self.log = []
        self.modules = {}
        self.exports = {}
        for k in ("Object", "Function", "Array", "Buffer", "Uint8Array", "RegExp", "Promise", "Error", "TypeError", "RangeError", "SyntaxError", "Map", "Set"):
            self.protos[k] = Obj(None)
        for k in self.protos:
            if k != "Object":
                self.protos[k].proto = self.protos["Object"]
        self.protos["Buffer"].proto = self.protos["Uint8Array"]
        for k in ("TypeError", "RangeError", "SyntaxError"):
            self.protos[k].proto = self.protos["Error"]
        import jslib
        self.lib = jslib.Lib(self)
        self.globals = Env(None)
        self.globals.v = self.lib.globals()

    # ---- helpers
    def obj(self, **kv):
        o = Obj(self.protos["Object"])
        o.props.update(kv)
        return o

    def native(self, name, f):
        return Func(self, name, f)

    def error(self, kind, msg):
        e = Obj(self.protos[kind])
        e.cls = "Error"
        e.props["message"] = msg
        e.props["stack"] = msg
        return e

    def throw(self, kind, msg):
        raise JsThrow(self.error(kind, msg))

    def describe(self, v):
        if isinstance(v, Obj) and v.cls == "Error":
            n = self.get(v, "name")
            m = self.get(v, "message")
            return "%s: %s" % (n if isinstance(n, str) else "Error", m if isinstance(m, str) else "...")
        return repr(v)[:80]

    def truthy(self, v):
        if v is UNDEF or v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, float)):
            return v == v and v != 0
        if isinstance(v, str):
            return v != ""
        if isinstance(v, SStr):
            return len(v.u) > 0
        if isinstance(v, z3.BoolRef):
            return self.ctx.branch(v)
        if issymnum(v):
            return self.ctx.branch(v != 0)
        return True

    def num(self, v):
        """A number as a Python int or float (a term is forked over its values)."""
        return norm(self.ctx.concretize(self.tonum(v)))

    def int(self, v, default=0):
        if v is UNDEF:
            return default
        n = self.num(v)
        if isinstance(n, float):
            if n != n:
                return 0
            if math.isinf(n):
                return (1 << 53) if n > 0 else -(1 << 53)
            return int(n)
        return n

    def tonum(self, v):
        if isnum(v):
            return v
        if v is UNDEF:
            return float("nan")
        if v is None:
            return 0
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return int(self.ctx.branch(v))
        if isstr(v):
            return self.strnum(v)
        if isinstance(v, Arr) or isinstance(v, Buf):
            return self.strnum(self.tostr(v))
        if isinstance(v, Obj):
            f = self.get(v, "valueOf")
            if isinstance(f, Func):
                r = self.call(f, v, [])
                if not isinstance(r, Obj):
                    return self.tonum(r)
            return float("nan")
        raise Unsupported("a number from " + repr(v))

    WS = set([9, 10, 11, 12, 13, 32, 0xa0, 0xfeff, 0x2028, 0x2029])

    def conc_units(self, u):
        return [self.ctx.concretize(z3.ZeroExt(48, x)) if not isinstance(x, int) else x for x in u]

    def strnum(self, s):
        u = units(s)
        if not isinstance(s, str):
            # digits stay symbolic; anything else is forked
            W = [self.inr(x, 9, 13) or self.is_(x, 32) if not isinstance(x, int) else x in self.WS for x in u]
            a, b = 0, len(u)
            while a < b and W[a]:
                a += 1
            while b > a and W[b - 1]:
                b -= 1
            if a < b and b - a < 16 and all(self.inr(x, 48, 57) for x in u[a:b]):
                v = z3.BitVecVal(0, 64)
                for x in u[a:b]:
                    v = v * 10 + (z3.ZeroExt(48, x) - 48 if not isinstance(x, int) else x - 48)
                return fold(v)
            s = mkstr(self.conc_units(u))
        t = s.strip("".join(map(chr, self.WS)))
        if t == "":
            return 0
        try:
            if t[:2].lower() in ("0x", "0b", "0o"):
                return int(t, 0)
            if t in ("Infinity", "+Infinity"):
                return float("inf")
            if t == "-Infinity":
                return float("-inf")
            if not all(c in "0123456789+-.eE" for c in t):
                return float("nan")
            return norm(float(t))
        except ValueError:
            return float("nan")

    def inr(self, x, a, b):
        if isinstance(x, int):
            return a <= x <= b
        return self.ctx.branch(z3.And(z3.UGE(x, a), z3.ULE(x, b)))

    def is_(self, x, a):
        if isinstance(x, int) and isinstance(a, int):
            return x == a
        return self.ctx.branch(x == a)

    def numstr(self, n):
        n = norm(self.ctx.concretize(n))
        if isinstance(n, int):
            return str(n)
        if n != n:
            return "NaN"
        if math.isinf(n):
            return "Infinity" if n > 0 else "-Infinity"
        if n == 0:
            return "0"
        r = repr(n)
        if "e" in r:
            raise Unsupported("number formatting")
        return r

    def tostr(self, v):
        if isstr(v):
            return v
        if v is UNDEF:
            return "undefined"
        if v is None:
            return "null"
        if isbool(v):
            return "true" if self.truthy(v) else "false"
        if isnum(v):
            return self.numstr(v)
        f = self.get(v, "toString")
        if not isinstance(f, Func):
            self.throw("TypeError", "Cannot convert object to primitive value")
        r = self.call(f, v, [])
        return self.tostr(r) if not isinstance(r, Obj) else "[object Object]"

    def prim(self, v):
        if isinstance(v, Obj):
            return self.tostr(v)
        return v

    def key(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, int) and not isinstance(v, bool):
            return v
        if issymnum(v):
            return self.ctx.concretize(v)
        if isinstance(v, SStr):
            return mkstr(self.conc_units(v.u))
        if isinstance(v, float):
            v = norm(v)
            return v if isinstance(v, int) else self.numstr(v)
        if isinstance(v, SymKey):
            return v
        return self.tostr(v)

    def get(self, o, k):
        k = self.key(k)
        if isinstance(k, str) and k.isdigit() and str(int(k)) == k:
            k = int(k)
        if o is UNDEF or o is None:
            self.throw("TypeError", "Cannot read properties of %s (reading '%s')" % (self.tostr(o), k))
        if isinstance(k, int):
            if isinstance(o, Arr):
                return o.items[k] if 0 <= k < len(o.items) else UNDEF
            if isinstance(o, Buf):
                if 0 <= k < o.n:
                    b = o.mem.b[o.off + k]
                    return b if isinstance(b, int) else z3.ZeroExt(56, b)
                return UNDEF
            if isstr(o):
                u = units(o)
                return mkstr([u[k]]) if 0 <= k < len(u) else UNDEF
            k = str(k)
        r = self.lib.get(o, k)
        if r is not None:
            return r if r is not NULL else None
        p = o if isinstance(o, Obj) else self.lib.proto_of(o)
        while p is not None:
            if k in p.props:
                v = p.props[k]
                if isinstance(v, Accessor):
                    return self.call(v.get, o, []) if v.get else UNDEF
                return v
            p = p.proto
        return UNDEF

    def set(self, o, k, v):
        k = self.key(k)
        if isinstance(k, str) and k.isdigit() and str(int(k)) == k:
            k = int(k)
        if o is UNDEF or o is None:
            self.throw("TypeError", "Cannot set properties of %s (setting '%s')" % (self.tostr(o), k))
        if not isinstance(o, Obj):
            return
        if isinstance(k, int):
            if isinstance(o, Arr):
                if k < 0:
                    raise Unsupported("a negative index")
                if k > len(o.items) + 100000:
                    raise Unsupported("a sparse array")
                while len(o.items) <= k:
                    o.items.append(UNDEF)
                o.items[k] = v
                return
            if isinstance(o, Buf):
                b = self.tobyte(v)
                if 0 <= k < o.n:
                    o.mem.b[o.off + k] = b
                return
            k = str(k)
        if isinstance(o, Arr) and k == "length":
            n = self.int(v)
            del o.items[n:]
            while len(o.items) < n:
                o.items.append(UNDEF)
            return
        p = o
        while p is not None:
            if k in p.props:
                if isinstance(p.props[k], Accessor):
                    if p.props[k].set is None:
                        self.throw("TypeError", "Cannot set property %s which has only a getter" % k)
                    self.call(p.props[k].set, o, [v])
                    return
                break
            p = p.proto
        o.props[k] = v

    def tobyte(self, v):
        v = self.tonum(v)
        if isinstance(v, float):
            v = 0 if v != v or math.isinf(v) else int(v)
        if isinstance(v, int):
            return v & 255
        x = z3.simplify(z3.Extract(7, 0, v))
        return x.as_long() if z3.is_bv_value(x) else x

    def call(self, f, this, args):
        if not isinstance(f, Func):
            self.throw("TypeError", "%s is not a function" % (self.describe(f) if isinstance(f, Obj) else f))
        return f.fn(this, args)

    def new(self, f, args):
        if not isinstance(f, Func):
            self.throw("TypeError", "not a constructor")
        if f.ctor:
            return f.ctor(args, f)
        if f.construct:
            return f.construct(args)
        self.throw("TypeError", "%s is not a constructor" % f.name)

    # ---- promises and the event loop
    def settle(self, p, state, v):
        if p.state != "pending":
            return
        p.state, p.value = state, v
        subs, p.subs = p.subs, []
        for s in subs:
            self.micro.append(lambda s=s: s(p.state, p.value))
        if state == "rejected" and not subs and not p.handled:
            self.pending_rejections.append(p)

    def resolve(self, p, v):
        if isinstance(v, Promise):
            self.micro.append(lambda: self.subscribe(v, lambda st, x: self.settle(p, st, x)))
        elif isinstance(v, Obj) and isinstance(self.get(v, "then"), Func):
            th = self.get(v, "then")

            def run():
                try:
                    self.call(th, v, [self.native("", lambda t, a: (self.resolve(p, a[0] if a else UNDEF), UNDEF)[1]),
                                      self.native("", lambda t, a: (self.settle(p, "rejected", a[0] if a else UNDEF), UNDEF)[1])])
                except JsThrow as e:
                    self.settle(p, "rejected", e.value)
            self.micro.append(run)
        else:
            self.settle(p, "fulfilled", v)

    def subscribe(self, p, f):
        p.handled = True
        if p.state == "pending":
            p.subs.append(f)
        else:
            self.micro.append(lambda: f(p.state, p.value))

    def promise_of(self, v):
        if isinstance(v, Promise):
            return v
        p = Promise(self)
        self.resolve(p, v)
        return p

    def then(self, p, ok, bad):
        q = Promise(self)

        def f(st, v):
            h = ok if st == "fulfilled" else bad
            if not isinstance(h, Func):
                self.settle(q, st, v)
                return
            try:
                self.resolve(q, self.call(h, UNDEF, [v]))
            except JsThrow as e:
                self.settle(q, "rejected", e.value)
        self.subscribe(p, f)
        return q

    def run_async(self, body):
        """Runs body() as a coroutine; the promise of its result."""
        p = Promise(self)
        w = IDLE.pop() if IDLE else Worker()
        w.kill, w.done = False, False

        def job():
            try:
                v = body()
            except JsThrow as e:
                self.settle(p, "rejected", e.value)
            else:
                self.resolve(p, v)
        w.job = job
        self.live.append(w)
        self.resume(w)
        return p

    def resume(self, w):
        prev, self.cur = self.cur, w
        w.go.release()
        w.back.acquire()
        self.cur = prev
        if w.done:
            if w in self.live:
                self.live.remove(w)
            IDLE.append(w)
            if w.exc is not None:
                e, w.exc = w.exc, None
                raise e

    def await_(self, v):
        w = self.cur
        if w is None:
            raise Unsupported("await outside of an async function")
        p = self.promise_of(v)
        box = []

        def wake(st, x):
            box.append((st, x))
            self.resume(w)
        self.subscribe(p, wake)
        w.back.release()
        w.go.acquire()
        if w.kill:
            raise Killed()
        st, x = box[0]
        if st == "rejected":
            raise JsThrow(x)
        return x

    def close(self):
        for w in list(self.live):
            w.kill = True
            w.go.release()
            w.back.acquire()
            w.exc = None
            IDLE.append(w)
        self.live = []

    def drain(self):
        """Everything that runs before the next event: next ticks and microtasks."""
        n = 0
        while self.ticks or self.micro:
            n += 1
            if n > 20000:
                raise Violation("hang", "the microtask queue does not come to rest")
            if self.ticks:
                self.guard(self.ticks.pop(0))
            else:
                self.guard(self.micro.pop(0))
        for p in self.pending_rejections:
            if not p.handled:
                self.uncaught(p.value, "unhandled rejection")
        self.pending_rejections = []

    def guard(self, f):
        try:
            f()
        except JsThrow as e:
            self.uncaught(e.value, "uncaught exception")

    def uncaught(self, v, what):
        self.log.append((what, self.describe(v)))

    def run_immediates(self):
        q, self.immediates = self.immediates, []
        for i, f in q:
            self.guard(f)
            self.drain()
        return len(q)

    def run_timers(self):
        q, self.timers = sorted(self.timers, key=lambda t: (t[0], t[1])), []
        for d, i, f in q:
            self.guard(f)
            self.drain()
        return len(q)

    def idle(self):
        """Runs everything that is due, until nothing is left."""
        n = 0
        self.drain()
        while self.immediates or self.timers:
            n += 1
            if n > 2000:
                raise Violation("hang", "the event loop does not come to rest")
            self.run_immediates()
            self.run_timers()

    # ---- evaluation
    def module(self, ast, env=None):
        env = env or Env(self.globals)
        self.block(ast[1], env)
        return env

    def block(self, stmts, env):
        for s in stmts:
            if s[0] == "fundecl":
                f = self.func(s[2], env)
                env.v[s[1]] = f
                if s[3]:
                    self.exports["default"] = f
        for s in stmts:
            self.ex(s, env)

    def bind(self, pat, v, env, decl=True):
        t = pat[0]
        if t == "id":
            if decl:
                env.v[pat[1]] = v
            else:
                self.assign_id(pat[1], v, env)
        elif t == "objpat":
            if v is UNDEF or v is None:
                self.throw("TypeError", "Cannot destructure '%s'" % self.tostr(v))
            seen = set()
            for k, p, d, rest in pat[1]:
                if rest:
                    o = self.obj(**{a: b for a, b in v.props.items() if a not in seen})
                    self.bind(p, o, env, decl)
                    continue
                seen.add(k)
                x = self.get(v, k)
                if x is UNDEF and d is not None:
                    x = self.ev(d, env)
                self.bind(p, x, env, decl)
        elif t == "arrpat":
            items = self.iter(v)
            for i, e in enumerate(pat[1]):
                if e is None:
                    continue
                p, d, rest = e
                if rest:
                    self.bind(p, Arr(self, items[i:]), env, decl)
                    continue
                x = items[i] if i < len(items) else UNDEF
                if x is UNDEF and d is not None:
                    x = self.ev(d, env)
                self.bind(p, x, env, decl)
        else:
            raise Unsupported("pattern %s" % pat)

    def iter(self, v):
        if isinstance(v, Arr):
            return list(v.items)
        if isinstance(v, Buf):
            return [b if isinstance(b, int) else z3.ZeroExt(56, b) for b in v.bytes()]
        if isstr(v):
            out, u, i = [], units(v), 0
            while i < len(u):
                if i + 1 < len(u) and self.inr(u[i], 0xd800, 0xdbff) and self.inr(u[i + 1], 0xdc00, 0xdfff):
                    out.append(mkstr(u[i:i + 2]))
                    i += 2
                else:
                    out.append(mkstr(u[i:i + 1]))
                    i += 1
            return out
        if isinstance(v, MapObj):
            return list(v.d.keys()) if v.isset else [Arr(self, [a, b]) for a, b in v.d.items()]
        if v is UNDEF or v is None or not isinstance(v, Obj):
            self.throw("TypeError", "not iterable")
        raise Unsupported("iteration over an object")

    def assign_id(self, name, v, env):
        e = env
        while e is not None:
            if name in e.v:
                e.v[name] = v
                return
            e = e.up
        raise Unsupported("assignment to the undeclared " + name)

    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.v:
                return e.v[name]
            e = e.up
        if name == "undefined":
            return UNDEF
        raise Unsupported("the global " + name)

    def ex(self, s, env):
        self.ctx.steps += 1
        t = s[0]
        if t == "expr":
            self.ev(s[1], env)
        elif t == "var":
            for p, d in s[1]:
                v = self.ev(d, env) if d is not None else UNDEF
                self.bind(p, v, env)
        elif t == "if":
            if self.truthy(self.ev(s[1], env)):
                self.ex(s[2], env)
            elif s[3] is not None:
                self.ex(s[3], env)
        elif t == "return":
            raise Ret(self.ev(s[1], env) if s[1] is not None else UNDEF)
        elif t == "block":
            self.block(s[1], Env(env))
        elif t in ("while", "do", "for", "forof"):
            self.loop(s, env, None)
        elif t == "label":
            try:
                if s[2][0] in ("while", "do", "for", "forof"):
                    self.loop(s[2], env, s[1])
                else:
                    self.ex(s[2], env)
            except Brk as b:
                if b.l != s[1]:
                    raise
        elif t == "throw":
            raise JsThrow(self.ev(s[1], env))
        elif t == "break":
            raise Brk(s[1])
        elif t == "continue":
            raise Cont(s[1])
        elif t == "try":
            try:
                try:
                    self.ex(s[1], env)
                except JsThrow as e:
                    if s[2] is None:
                        raise
                    en = Env(env)
                    if s[2][0] is not None:
                        self.bind(s[2][0], e.value, en)
                    self.ex(s[2][1], en)
            except (JsThrow, Ret, Brk, Cont):
                if s[3] is not None:
                    self.ex(s[3], env)
                raise
            else:
                if s[3] is not None:
                    self.ex(s[3], env)
        elif t == "switch":
            v = self.ev(s[1], env)
            en = Env(env)
            at = None
            for i, (c, b) in enumerate(s[2]):
                if c is not None and self.truthy(self.seq(v, self.ev(c, en))):
                    at = i
                    break
            if at is None:
                for i, (c, b) in enumerate(s[2]):
                    if c is None:
                        at = i
            if at is not None:
                try:
                    for c, b in s[2][at:]:
                        self.block(b, en)
                except Brk as b:
                    if b.l is not None:
                        raise
        elif t == "fundecl":
            pass
        elif t == "classdecl":
            c = self.klass(s[2], env, s[1])
            env.v[s[1]] = c
            if s[3]:
                self.exports["default"] = c
        elif t == "export":
            self.exports["default"] = self.ev(s[1], env)
        elif t == "exports":
            for a, b in s[1]:
                self.exports[b] = self.lookup(a, env)
        else:
            raise Unsupported("statement %s" % (s[:2],))

    def loop(self, s, env, label):
        t = s[0]

        def body(b, en):
            """False: the loop ends."""
            try:
                self.ex(b, en)
            except Brk as x:
                if x.l is None or x.l == label:
                    return False
                raise
            except Cont as x:
                if x.l is not None and x.l != label:
                    raise
            self.ctx.stats["loop"] = self.ctx.stats.get("loop", 0) + 1
            n[0] += 1
            if n[0] > 200000:
                raise Violation("hang", "a loop does not end")
            return True
        n = [0]
        if t == "while":
            while self.truthy(self.ev(s[1], env)):
                if not body(s[2], env):
                    break
        elif t == "do":
            while True:
                if not body(s[1], env):
                    break
                if not self.truthy(self.ev(s[2], env)):
                    break
        elif t == "for":
            en = Env(env)
            if s[1] is not None:
                if s[1][0] == "var":
                    self.ex(s[1], en)
                else:
                    self.ev(s[1], en)
            while s[2] is None or self.truthy(self.ev(s[2], en)):
                if not body(s[4], en):
                    break
                nx = Env(env)
                nx.v = dict(en.v)
                en = nx
                if s[3] is not None:
                    self.ev(s[3], en)
        else:
            src = self.ev(s[2], env)
            i = 0
            items = src.items if isinstance(src, Arr) else self.iter(src)
            while i < len(items):
                en = Env(env)
                if s[1][0] in ("id", "objpat", "arrpat"):
                    self.bind(s[1], items[i], en)
                else:
                    raise Unsupported("for-of target")
                i += 1
                if not body(s[3], en):
                    break

    def func(self, f, env, home=None, fields=None):
        _, name, params, body, arrow, is_async, gen = f
        if gen:
            raise Unsupported("generator")
        this0 = None

        def invoke(this, args):
            self.ctx.fns.add(name or "(anonymous)")
            if self.ctx.steps > 3000000:
                raise Unsupported("step limit")

            def run():
                en = Env(env)
                if not arrow:
                    en.v["this"] = this
                    en.v["arguments"] = Arr(self, list(args))
                    en.v["%home"] = fn.home
                for i, (p, d, rest) in enumerate(params):
                    if rest:
                        self.bind(p, Arr(self, list(args[i:])), en)
                    else:
                        v = args[i] if i < len(args) else UNDEF
                        if v is UNDEF and d is not None:
                            v = self.ev(d, en)
                        self.bind(p, v, en)
                try:
                    if body[0] == "block":
                        self.block(body[1], en)
                    else:
                        self.ex(body, en)
                except Ret as r:
                    return r.v
                return UNDEF
            return self.run_async(run) if is_async else run()
        fn = Func(self, name, invoke)
        fn.home = home
        fn.nparams = len([1 for p in params if p[1] is None and not p[2]])
        if not arrow and not is_async:
            def construct(args, nt):
                o = Obj(self.get(nt, "prototype"))
                r = invoke(o, args)
                return r if isinstance(r, Obj) else o
            fn.ctor = construct
            pr = self.obj()
            pr.props["constructor"] = fn
            fn.props["prototype"] = pr
        return fn

    def klass(self, c, env, name):
        _, cname, sup, members = c
        parent = self.ev(sup, env) if sup is not None else None
        en = Env(env)
        proto = Obj(self.get(parent, "prototype") if parent else self.protos["Object"])
        cls = Func(self, cname or name, None)

        def noncall(this, args):
            self.throw("TypeError", "Class constructor cannot be invoked without 'new'")
        cls.fn = noncall
        cls.props["prototype"] = proto
        if parent:
            cls.proto = parent
        proto.props["constructor"] = cls
        if cname or name:
            en.v[cname or name] = cls
        fields, statics, ctor = [], [], None
        for kind, st, k, v in members:
            if kind == "unsupported":
                raise Unsupported("class member " + str(st))
            tgt = cls if st else proto
            if kind == "ctor":
                ctor = self.func(v, en, home=proto)
            elif kind == "method":
                f = self.func(v, en, home=tgt)
                f.ctor = None
                tgt.props[self.key(self.ev(k, en))] = f
            elif kind in ("get", "set"):
                kk = self.key(self.ev(k, en))
                a = tgt.props.get(kk)
                if not isinstance(a, Accessor):
                    a = tgt.props[kk] = Accessor()
                setattr(a, kind, self.func(v, en, home=tgt))
            elif kind == "static":
                statics.append((None, v))
            elif kind == "field":
                (statics if st else fields).append((self.key(self.ev(k, en)), v))

        def init(o):
            fe = Env(en)
            fe.v["this"] = o
            for k, d in fields:
                o.props[k] = self.ev(d, fe) if d is not None else UNDEF

        def construct(args, nt):
            if parent is None:
                o = Obj(self.get(nt, "prototype"))
                init(o)
                if ctor:
                    r = ctor.fn(o, args)
                    if isinstance(r, Obj):
                        return r
                return o
            if ctor is None:
                o = parent.ctor(args, nt) if parent.ctor else self.native_super(parent, args, nt)
                init(o)
                return o
            slot = Obj(None)
            slot.superctor = (parent, nt, init)
            slot.made = None
            r = self.derived(ctor, slot, args)
            return r
        cls.ctor = construct
        for k, d in statics:
            fe = Env(en)
            fe.v["this"] = cls
            if k is None:
                self.ex(d, fe)
                continue
            cls.props[k] = self.ev(d, fe) if d is not None else UNDEF
        return cls

    def native_super(self, parent, args, nt):
        o = parent.construct(args)
        o.proto = self.get(nt, "prototype")
        return o

    def derived(self, ctor, slot, args):
        # "this" of a derived constructor is bound by super(...)
        r = ctor.fn(slot, args)
        return slot.made if slot.made is not None else self.throw("TypeError", "super was not called")

    def this(self, env):
        v = self.lookup_this(env)
        if isinstance(v, Obj) and getattr(v, "superctor", None):
            return v.made
        return v

    def lookup_this(self, env):
        e = env
        while e is not None:
            if "this" in e.v:
                return e.v["this"]
            e = e.up
        return UNDEF

    def seq(self, a, b):
        """===, as a bool or a term."""
        if isnum(a) and isnum(b):
            if issymnum(a) or issymnum(b):
                if isinstance(a, float) or isinstance(b, float):
                    return False
                return fold(bv64(a) == bv64(b))
            return a == b
        if isstr(a) and isstr(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            x, y = units(a), units(b)
            return self.eq_units(x, y)
        if isbool(a) and isbool(b):
            if isinstance(a, bool) and isinstance(b, bool):
                return a == b
            return fold(z3.simplify((z3.BoolVal(a) if isinstance(a, bool) else a) == (z3.BoolVal(b) if isinstance(b, bool) else b)))
        if isinstance(a, Obj) or isinstance(b, Obj):
            return a is b
        return a is b

    def eq_units(self, x, y):
        if len(x) != len(y):
            return False
        cs = []
        for p, q in zip(x, y):
            if isinstance(p, int) and isinstance(q, int):
                if p != q:
                    return False
            else:
                c = z3.simplify(p == q)
                if z3.is_false(c):
                    return False
                if not z3.is_true(c):
                    cs.append(c)
        return True if not cs else z3.And(cs)

    def leq(self, a, b):
        """==, loosely."""
        na, nb = a is UNDEF or a is None, b is UNDEF or b is None
        if na or nb:
            return na and nb
        if (isnum(a) and isnum(b)) or (isstr(a) and isstr(b)) or (isinstance(a, Obj) and isinstance(b, Obj)):
            return self.seq(a, b)
        return self.seq(self.tonum(self.prim(a)), self.tonum(self.prim(b)))

    def binop(self, op, a, b):
        if op == "+":
            a, b = self.prim(a), self.prim(b)
            if isstr(a) or isstr(b):
                a, b = self.tostr(a), self.tostr(b)
                return a + b if isinstance(a, str) and isinstance(b, str) else mkstr(units(a) + units(b))
        if op == "===":
            return self.seq(a, b)
        if op == "!==":
            return self.not_(self.seq(a, b))
        if op == "==":
            return self.leq(a, b)
        if op == "!=":
            return self.not_(self.leq(a, b))
        if op == "instanceof":
            if not isinstance(b, Func):
                self.throw("TypeError", "Right-hand side of 'instanceof' is not callable")
            if not isinstance(a, Obj):
                return False
            p, t = a.proto, self.get(b, "prototype")
            while p is not None:
                if p is t:
                    return True
                p = p.proto
            return False
        if op == "in":
            k = self.key(a)
            if isinstance(b, (Arr, Buf)) and isinstance(k, int):
                return 0 <= k < (len(b.items) if isinstance(b, Arr) else b.n)
            p = b
            while p is not None:
                if str(k) in p.props:
                    return True
                p = p.proto
            return False
        if op in ("<", ">", "<=", ">="):
            a, b = self.prim(a), self.prim(b)
            if isstr(a) and isstr(b):
                if not (isinstance(a, str) and isinstance(b, str)):
                    raise Unsupported("ordering of symbolic strings")
                x, y = [ord(c) for c in a], [ord(c) for c in b]
                return {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        a, b = self.tonum(a), self.tonum(b)
        if issymnum(a) or issymnum(b):
            if isinstance(a, float) or isinstance(b, float):
                a, b = self.num(a), self.num(b)
            elif op in ("/", "%", "**"):
                if op == "%" and isinstance(b, int) and b > 0 and self.ctx.branch(bv64(a) >= 0):
                    return fold(z3.SRem(bv64(a), bv64(b)))
                a, b = self.num(a), self.num(b)
            else:
                x, y = bv64(a), bv64(b)
                if op in ("&", "|", "^", "<<", ">>", ">>>"):
                    lo = lambda t: z3.Extract(31, 0, t)
                    p, q = lo(x), lo(y)
                    if op == "&":
                        r = z3.SignExt(32, p & q)
                    elif op == "|":
                        r = z3.SignExt(32, p | q)
                    elif op == "^":
                        r = z3.SignExt(32, p ^ q)
                    elif op == "<<":
                        r = z3.SignExt(32, p << (q & 31))
                    elif op == ">>":
                        r = z3.SignExt(32, p >> (q & 31))
                    else:
                        r = z3.ZeroExt(32, z3.LShR(p, q & 31))
                    return fold(r)
                return fold({"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "<": lambda: x < y, ">": lambda: x > y,
                             "<=": lambda: x <= y, ">=": lambda: x >= y}[op]())
        if op == "+":
            return norm(a + b)
        if op == "-":
            return norm(a - b)
        if op == "*":
            return norm(a * b)
        if op == "/":
            if b == 0:
                return float("nan") if a == 0 or a != a else math.copysign(float("inf"), a) * (math.copysign(1, b) if isinstance(b, float) else 1)
            return norm(a / b)
        if op == "%":
            if b == 0 or a != a or b != b or math.isinf(a):
                return float("nan")
            return norm(math.fmod(a, b)) if not math.isinf(b) else a
        if op == "**":
            return norm(float(a) ** b)
        if op == "<":
            return a < b
        if op == ">":
            return a > b
        if op == "<=":
            return a <= b
        if op == ">=":
            return a >= b

        def i32(x):
            if isinstance(x, float):
                x = 0 if x != x or math.isinf(x) else int(x)
            x &= 0xffffffff
            return x - (1 << 32) if x >> 31 else x
        if op == "&":
            return i32(a) & i32(b)
        if op == "|":
            return i32(a) | i32(b)
        if op == "^":
            return i32(a) ^ i32(b)
        if op == "<<":
            return i32(i32(a) << (i32(b) & 31))
        if op == ">>":
            return i32(a) >> (i32(b) & 31)
        if op == ">>>":
            return (i32(a) & 0xffffffff) >> (i32(b) & 31)
        raise Unsupported("operator " + op)

    def not_(self, v):
        if isinstance(v, z3.BoolRef):
            return fold(z3.Not(v))
        return not self.truthy(v)

    def assign(self, n, v, env):
        t = n[0]
        if t == "id":
            self.assign_id(n[1], v, env)
        elif t == "get":
            o = self.ev(n[1], env)
            self.set(o, self.ev(n[2], env), v)
        elif t == "array":
            items = self.iter(v)
            for i, e in enumerate(n[1]):
                if e[0] == "spread":
                    self.assign(e[1], Arr(self, items[i:]), env)
                else:
                    self.assign(e, items[i] if i < len(items) else UNDEF, env)
        elif t == "object":
            for k, e in n[1]:
                self.assign(e, self.get(v, self.ev(k, env)), env)
        else:
            raise Unsupported("assignment target " + t)

    def args(self, l, env):
        out = []
        for a in l:
            if a[0] == "spread":
                out += self.iter(self.ev(a[1], env))
            else:
                out.append(self.ev(a, env))
        return out

    def ev(self, n, env):
        self.ctx.steps += 1
        t = n[0]
        if t == "id":
            return self.lookup(n[1], env)
        if t == "get":
            if n[1][0] == "super":
                home = self.lookup("%home", env)
                p = home.proto
                k = self.key(self.ev(n[2], env))
                while p is not None:
                    if k in p.props:
                        v = p.props[k]
                        return self.call(v.get, self.this(env), []) if isinstance(v, Accessor) else v
                    p = p.proto
                return UNDEF
            o = self.ev(n[1], env)
            return self.get(o, self.ev(n[2], env))
        if t == "chain":
            try:
                return self.ev(n[1], env)
            except ShortCircuit:
                return UNDEF
        if t == "optget":
            o = self.ev(n[1], env)
            if o is UNDEF or o is None:
                raise ShortCircuit()
            return self.get(o, self.ev(n[2], env))
        if t == "num":
            return n[1]
        if t == "str":
            return n[1]
        if t == "this":
            return self.this(env)
        if t in ("call", "optcall"):
            c = n[1]
            if c[0] == "super":
                slot = self.lookup_this(env)
                parent, nt, init = slot.superctor
                a = self.args(n[2], env)
                slot.made = parent.ctor(a, nt) if parent.ctor else self.native_super(parent, a, nt)
                init(slot.made)
                return slot.made
            if c[0] in ("get", "optget"):
                if c[1][0] == "super":
                    f, this = self.ev(c, env), self.this(env)
                else:
                    this = self.ev(c[1], env)
                    if c[0] == "optget" and (this is UNDEF or this is None):
                        raise ShortCircuit()
                    k = self.ev(c[2], env)
                    f = self.get(this, k)
                    if t == "optcall" and (f is UNDEF or f is None):
                        raise ShortCircuit()
                    if not isinstance(f, Func):
                        if isinstance(this, Obj) and this.cls not in ("Object", "Error") or not isinstance(this, Obj):
                            raise Unsupported("the method %s of %s" % (k, getattr(this, "cls", type(this).__name__)))
                        self.throw("TypeError", "%s is not a function" % k)
                return self.call(f, this, self.args(n[2], env))
            f = self.ev(c, env)
            if t == "optcall" and (f is UNDEF or f is None):
                raise ShortCircuit()
            return self.call(f, UNDEF, self.args(n[2], env))
        if t == "bin":
            op = n[1]
            if op == "=":
                if n[2][0] == "get":
                    o = self.ev(n[2][1], env)
                    k = self.ev(n[2][2], env)
                    v = self.ev(n[3], env)
                    self.set(o, k, v)
                    return v
                v = self.ev(n[3], env)
                self.assign(n[2], v, env)
                return v
            if op == "&&":
                a = self.ev(n[2], env)
                return self.ev(n[3], env) if self.truthy(a) else a
            if op == "||":
                a = self.ev(n[2], env)
                return a if self.truthy(a) else self.ev(n[3], env)
            if op == "??":
                a = self.ev(n[2], env)
                return self.ev(n[3], env) if a is UNDEF or a is None else a
            if op == ",":
                self.ev(n[2], env)
                return self.ev(n[3], env)
            if op in ("&&=", "||=", "??="):
                a = self.ev(n[2], env)
                if op == "&&=" and not self.truthy(a) or op == "||=" and self.truthy(a) or op == "??=" and not (a is UNDEF or a is None):
                    return a
                v = self.ev(n[3], env)
                self.assign(n[2], v, env)
                return v
            if op.endswith("=") and op not in ("==", "===", "!=", "!==", "<=", ">="):
                if n[2][0] == "get":
                    o = self.ev(n[2][1], env)
                    k = self.ev(n[2][2], env)
                    v = self.binop(op[:-1], self.get(o, k), self.ev(n[3], env))
                    self.set(o, k, v)
                    return v
                v = self.binop(op[:-1], self.ev(n[2], env), self.ev(n[3], env))
                self.assign(n[2], v, env)
                return v
            a = self.ev(n[2], env)
            return self.binop(op, a, self.ev(n[3], env))
        if t == "un":
            op = n[1]
            if op == "typeof":
                if n[2][0] == "id":
                    try:
                        v = self.ev(n[2], env)
                    except Unsupported:
                        return "undefined"
                else:
                    v = self.ev(n[2], env)
                if v is UNDEF:
                    return "undefined"
                if isbool(v):
                    return "boolean"
                if isnum(v):
                    return "number"
                if isstr(v):
                    return "string"
                return "function" if isinstance(v, Func) else "object"
            if op == "delete":
                o = self.ev(n[2][1], env)
                o.props.pop(self.key(self.ev(n[2][2], env)), None)
                return True
            if op in ("++", "--"):
                v = self.binop("+" if op == "++" else "-", self.tonum(self.ev(n[2], env)), 1)
                self.assign(n[2], v, env)
                return v
            v = self.ev(n[2], env)
            if op == "!":
                return self.not_(v)
            if op == "-":
                x = self.tonum(v)
                return fold(-x) if issymnum(x) else (-0.0 if x == 0 and isinstance(x, int) else norm(-x))
            if op == "+":
                return self.tonum(v)
            if op == "~":
                return self.binop("^", self.tonum(v), -1)
            if op == "void":
                return UNDEF
            raise Unsupported("operator " + op)
        if t == "post":
            v = self.tonum(self.ev(n[2], env))
            self.assign(n[2], self.binop("+" if n[1] == "++" else "-", v, 1), env)
            return v
        if t == "null":
            return None
        if t == "bool":
            return bool(n[1])
        if t == "cond":
            return self.ev(n[2] if self.truthy(self.ev(n[1], env)) else n[3], env)
        if t == "template":
            out = n[1]
            for e, s in n[2]:
                v = self.tostr(self.ev(e, env))
                out = self.binop("+", self.binop("+", out, v), s)
            return out
        if t == "new":
            return self.new(self.ev(n[1], env), self.args(n[2], env))
        if t == "array":
            return Arr(self, self.args(n[1], env))
        if t == "object":
            o = self.obj()
            for k, v in n[1]:
                x = self.ev(v, env)
                if k is None:
                    if isinstance(x, Arr):
                        raise Unsupported("spread of an array into an object")
                    if isinstance(x, Obj):
                        o.props.update(x.props)
                else:
                    o.props[str(self.key(self.ev(k, env)))] = x
            return o
        if t == "func":
            return self.func(n, env)
        if t == "class":
            return self.klass(n, env, n[1])
        if t == "regex":
            return Regex(self, n[1], n[2])
        if t == "await":
            return self.await_(self.ev(n[1], env))
        if t == "import":
            m = self.tostr(self.ev(n[1], env))
            if m not in self.modules:
                raise Unsupported("the module " + m)
            return self.promise_of(self.modules[m])
        raise Unsupported("expression %s" % (n[:2],))


class Accessor:
    get = None
    set = None


class SymKey:
    def __init__(self, name):
        self.name = name


NULL = object()  # lib.get: the value is null
