"""The part of JavaScript's and Node's libraries that the interpreter offers: strings, arrays, Buffer,
regular expressions, promises, timers and process (whose streams are recorded)."""
import math
import z3
from jsym import *
import jsym


def ext64(u):
    return u if isinstance(u, int) else z3.ZeroExt(48, u)


def simp(x):
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    return x.as_long() if z3.is_bv_value(x) else x


class Lib:
    def __init__(self, it):
        self.it = it
        self.cache = {}
        for name in dir(self):
            for pre, proto in (("str_", None), ("arr_", "Array"), ("buf_", "Uint8Array"), ("re_", "RegExp"), ("map_", "Map"), ("pro_", "Promise")):
                pass

    # ---- lookup of the native methods
    def get(self, o, k):
        if isstr(o):
            if k == "length":
                return len(units(o))
            return self.m("str_", k)
        if isinstance(o, Obj):
            c = o.cls
            if isinstance(o, Arr):
                if k == "length":
                    return len(o.items)
                if k in o.props:
                    return None
                return self.m("arr_", k)
            if isinstance(o, Buf):
                if k in ("length", "byteLength"):
                    return o.n
                if k == "byteOffset":
                    return o.off
                if k == "BYTES_PER_ELEMENT":
                    return 1
                if k == "buffer" or k == "parent":
                    if o.mem.obj is None:
                        o.mem.obj = ABuf(self.it, o.mem)
                    return o.mem.obj
                if k in o.props:
                    return None
                return self.m("buf_", k)
            if isinstance(o, ABuf) and k == "byteLength":
                return len(o.mem.b)
            if isinstance(o, Func):
                if k in o.props:
                    return None
                if k in ("bind", "call", "apply"):
                    return self.m("fn_", k)
                if k == "name":
                    return o.name
                if k == "length":
                    return getattr(o, "nparams", 0)
                return None
            if isinstance(o, Regex):
                if k == "source":
                    return o.src
                if k == "flags":
                    return o.flags
                if k == "global":
                    return "g" in o.flags
                return self.m("re_", k)
            if isinstance(o, MapObj):
                if k == "size":
                    return len(o.d)
                return self.m("map_", k)
            if isinstance(o, Promise):
                return self.m("pro_", k)
            return None
        if isnum(o):
            return self.m("num_", k)
        if isbool(o) and k == "toString":
            return self.it.native("toString", lambda t, a: self.it.tostr(t))
        return None

    def m(self, pre, k):
        n = pre + k
        f = self.cache.get(n)
        if f is None:
            h = getattr(self, n, None)
            if h is None:
                return None
            f = self.cache[n] = self.it.native(k, h)
        return f

    def proto_of(self, v):
        return self.it.protos["Object"]

    # ---- functions
    def fn_bind(self, t, a):
        this, pre = (a[0] if a else UNDEF), list(a[1:])
        return self.it.native("bound " + t.name, lambda _, b: t.fn(this, pre + list(b)))

    def fn_call(self, t, a):
        return self.it.call(t, a[0] if a else UNDEF, list(a[1:]))

    def fn_apply(self, t, a):
        return self.it.call(t, a[0] if a else UNDEF, self.it.iter(a[1]) if len(a) > 1 and a[1] not in (None, UNDEF) else [])

    # ---- numbers
    def num_toString(self, t, a):
        r = self.it.int(a[0], 10) if a else 10
        if r == 10:
            return self.it.numstr(t)
        n = self.it.num(t)
        if r == 16 and isinstance(n, int) and n >= 0:
            return "%x" % n
        raise Unsupported("toString radix")

    def num_toFixed(self, t, a):
        return "%.*f" % (self.it.int(a[0]) if a else 0, self.it.num(t))

    # ---- strings
    def find(self, hay, needle, frm):
        """The first position >= frm where the units of needle are, or -1."""
        n = len(needle)
        for i in range(frm, len(hay) - n + 1):
            if not isinstance(hay[i], int) or n == 0 or not isinstance(needle[0], int) or hay[i] == needle[0]:
                c = self.it.eq_units(hay[i:i + n], needle)
                if c is True or (c is not False and self.it.ctx.branch(c)):
                    return i
        return -1

    def rfind(self, hay, needle, frm):
        for i in range(min(frm, len(hay) - len(needle)), -1, -1):
            c = self.it.eq_units(hay[i:i + len(needle)], needle)
            if c is True or (c is not False and self.it.ctx.branch(c)):
                return i
        return -1

    def arg(self, a, i, d=UNDEF):
        return a[i] if i < len(a) else d

    def rel(self, v, n, d):
        if v is UNDEF:
            return d
        i = self.it.int(v)
        return max(0, n + i) if i < 0 else min(i, n)

    def clamp(self, v, n, d):
        return d if v is UNDEF else max(0, min(self.it.int(v), n))

    def str_toString(self, t, a):
        return t

    str_valueOf = str_toString

    def str_charCodeAt(self, t, a):
        u, i = units(t), self.it.int(self.arg(a, 0))
        return ext64(u[i]) if 0 <= i < len(u) else float("nan")

    def str_codePointAt(self, t, a):
        u, i = units(t), self.it.int(self.arg(a, 0))
        if not 0 <= i < len(u):
            return UNDEF
        if i + 1 < len(u) and self.it.inr(u[i], 0xd800, 0xdbff) and self.it.inr(u[i + 1], 0xdc00, 0xdfff):
            return fold((bv64(ext64(u[i])) - 0xd800) * 1024 + (bv64(ext64(u[i + 1])) - 0xdc00) + 0x10000)
        return ext64(u[i])

    def str_charAt(self, t, a):
        u, i = units(t), self.it.int(self.arg(a, 0))
        return mkstr(u[i:i + 1]) if i >= 0 else ""

    def str_at(self, t, a):
        u, i = units(t), self.it.int(self.arg(a, 0))
        i = i + len(u) if i < 0 else i
        return mkstr([u[i]]) if 0 <= i < len(u) else UNDEF

    def str_indexOf(self, t, a):
        u = units(t)
        return self.find(u, units(self.it.tostr(self.arg(a, 0))), self.clamp(self.arg(a, 1), len(u), 0))

    def str_lastIndexOf(self, t, a):
        u = units(t)
        return self.rfind(u, units(self.it.tostr(self.arg(a, 0))), self.clamp(self.arg(a, 1), len(u), len(u)))

    def str_includes(self, t, a):
        return self.str_indexOf(t, a) >= 0

    def str_startsWith(self, t, a):
        u, n = units(t), units(self.it.tostr(self.arg(a, 0)))
        i = self.clamp(self.arg(a, 1), len(u), 0)
        return self.it.eq_units(u[i:i + len(n)], n)

    def str_endsWith(self, t, a):
        u, n = units(t), units(self.it.tostr(self.arg(a, 0)))
        e = self.clamp(self.arg(a, 1), len(u), len(u))
        return e >= len(n) and self.it.eq_units(u[e - len(n):e], n)

    def str_slice(self, t, a):
        u = units(t)
        return mkstr(u[self.rel(self.arg(a, 0), len(u), 0):self.rel(self.arg(a, 1), len(u), len(u))])

    def str_substring(self, t, a):
        u = units(t)
        i, j = self.clamp(self.arg(a, 0), len(u), 0), self.clamp(self.arg(a, 1), len(u), len(u))
        return mkstr(u[min(i, j):max(i, j)])

    def str_substr(self, t, a):
        u = units(t)
        i = self.rel(self.arg(a, 0), len(u), 0)
        n = len(u) if self.arg(a, 1) is UNDEF else self.it.int(a[1])
        return mkstr(u[i:i + max(0, n)])

    def str_concat(self, t, a):
        for x in a:
            t = self.it.binop("+", t, self.it.tostr(x))
        return t

    def str_repeat(self, t, a):
        return mkstr(units(t) * self.it.int(a[0]))

    def str_padStart(self, t, a):
        n, p = self.it.int(a[0]), units(self.arg(a, 1, " "))
        u = units(t)
        k = max(0, n - len(u))
        return mkstr((p * (k // max(1, len(p)) + 1))[:k] + u)

    def str_padEnd(self, t, a):
        n, p = self.it.int(a[0]), units(self.arg(a, 1, " "))
        u = units(t)
        k = max(0, n - len(u))
        return mkstr(u + (p * (k // max(1, len(p)) + 1))[:k])

    def trim(self, t, l, r):
        u = units(t)
        i, j = 0, len(u)
        ws = lambda x: x in self.it.WS if isinstance(x, int) else self.it.ctx.branch(z3.Or([x == w for w in self.it.WS]))
        while l and i < j and ws(u[i]):
            i += 1
        while r and j > i and ws(u[j - 1]):
            j -= 1
        return mkstr(u[i:j])

    def str_trim(self, t, a):
        return self.trim(t, True, True)

    def str_trimStart(self, t, a):
        return self.trim(t, True, False)

    def str_trimEnd(self, t, a):
        return self.trim(t, False, True)

    def case(self, t, lo, hi, d, f):
        if isinstance(t, str):
            return f(t)
        out = []
        for x in t.u:
            if isinstance(x, int):
                out += [ord(c) for c in f(chr(x))]
            else:
                if not self.it.inr(x, 0, 127):
                    raise Unsupported("case of a symbolic non-ASCII character")
                out.append(simp(x + d) if self.it.inr(x, lo, hi) else x)
        return mkstr(out)

    def str_toLowerCase(self, t, a):
        return self.case(t, 65, 90, 32, str.lower)

    def str_toUpperCase(self, t, a):
        return self.case(t, 97, 122, -32, str.upper)

    def str_split(self, t, a):
        u = units(t)
        sep, lim = self.arg(a, 0), self.arg(a, 1)
        lim = 1 << 32 if lim is UNDEF else self.it.int(lim)
        if sep is UNDEF:
            return Arr(self.it, [t][:lim])
        out = []
        if isinstance(sep, Regex):
            p, q = 0, 0
            if not u:
                return Arr(self.it, [] if regex_match(self.it.ctx, sep, u, 0) else [t])
            while q < len(u):
                m = regex_match(self.it.ctx, sep, u, q)
                if m is None or m[0][1] == p:
                    q += 1
                    continue
                out.append(mkstr(u[p:q]))
                p = m[0][1]
                out += [mkstr(u[c[0]:c[1]]) if c else UNDEF for c in m[1:]]
                q = p if p > q else q + 1
            out.append(mkstr(u[p:]))
            return Arr(self.it, out[:lim])
        n = units(self.it.tostr(sep))
        if not n:
            return Arr(self.it, [mkstr([x]) for x in u][:lim])
        i = 0
        while True:
            j = self.find(u, n, i)
            if j < 0:
                break
            out.append(mkstr(u[i:j]))
            i = j + len(n)
        out.append(mkstr(u[i:]))
        return Arr(self.it, out[:lim])

    def match_obj(self, rx, s, m):
        u = units(s)
        caps = [mkstr(u[c[0]:c[1]]) if c else UNDEF for c in m]
        r = Arr(self.it, caps)
        r.props["index"] = m[0][0]
        r.props["input"] = s
        g = UNDEF
        if rx.names:
            g = self.it.obj(**{k: caps[i] for k, i in rx.names.items()})
        r.props["groups"] = g
        return r

    def re_exec(self, t, a):
        s = self.it.tostr(self.arg(a, 0))
        u = units(s)
        st = "g" in t.flags or "y" in t.flags
        i = self.it.int(t.props["lastIndex"]) if st else 0
        while i <= len(u):
            m = regex_match(self.it.ctx, t, u, i)
            if m is not None:
                if st:
                    t.props["lastIndex"] = m[0][1]
                return self.match_obj(t, s, m)
            if "y" in t.flags:
                break
            i += 1
        if st:
            t.props["lastIndex"] = 0
        return None

    def re_test(self, t, a):
        return self.re_exec(t, a) is not None

    def re_toString(self, t, a):
        return "/%s/%s" % (t.src, t.flags)

    def regex(self, v, flags=""):
        return v if isinstance(v, Regex) else Regex(self.it, self.it.tostr(v), flags)

    def all_matches(self, rx, s):
        u, i, out = units(s), 0, []
        while i <= len(u):
            m = regex_match(self.it.ctx, rx, u, i)
            if m is None:
                i += 1
                continue
            out.append(m)
            i = m[0][1] if m[0][1] > m[0][0] else m[0][1] + 1
        return out

    def str_match(self, t, a):
        rx = self.regex(self.arg(a, 0, ""))
        if "g" not in rx.flags:
            return self.re_exec(rx, [t])
        u = units(t)
        ms = self.all_matches(rx, t)
        return Arr(self.it, [mkstr(u[m[0][0]:m[0][1]]) for m in ms]) if ms else None

    def str_matchAll(self, t, a):
        rx = self.regex(self.arg(a, 0, ""), "g")
        return Arr(self.it, [self.match_obj(rx, t, m) for m in self.all_matches(rx, t)])

    def str_search(self, t, a):
        m = self.re_exec(Regex(self.it, self.regex(a[0]).src, self.regex(a[0]).flags.replace("g", "")), [t])
        return m.props["index"] if m else -1

    def replace(self, t, a, every):
        u = units(t)
        pat, rep = self.arg(a, 0), self.arg(a, 1)
        ms = []
        if isinstance(pat, Regex):
            if "g" in pat.flags:
                ms = [(m, pat) for m in self.all_matches(pat, t)]
            else:
                i = 0
                while i <= len(u):
                    m = regex_match(self.it.ctx, pat, u, i)
                    if m is not None:
                        ms = [(m, pat)]
                        break
                    i += 1
        else:
            n = units(self.it.tostr(pat))
            i = 0
            while True:
                j = self.find(u, n, i)
                if j < 0:
                    break
                ms.append(([(j, j + len(n))], None))
                i = j + max(1, len(n))
                if not every:
                    break
        out, p = [], 0
        for m, rx in ms:
            s, e = m[0]
            out += u[p:s]
            caps = [mkstr(u[c[0]:c[1]]) if c else UNDEF for c in m]
            if isinstance(rep, Func):
                out += units(self.it.tostr(self.it.call(rep, UNDEF, caps + [s, t])))
            else:
                r = self.it.tostr(rep)
                if 36 in units(r):
                    raise Unsupported("$ in a replacement")
                out += units(r)
            p = e
        return mkstr(out + u[p:])

    def str_replace(self, t, a):
        return self.replace(t, a, False)

    def str_replaceAll(self, t, a):
        return self.replace(t, a, True)

    # ---- arrays
    def arr_push(self, t, a):
        t.items += list(a)
        return len(t.items)

    def arr_pop(self, t, a):
        return t.items.pop() if t.items else UNDEF

    def arr_shift(self, t, a):
        return t.items.pop(0) if t.items else UNDEF

    def arr_unshift(self, t, a):
        t.items[:0] = list(a)
        return len(t.items)

    def arr_slice(self, t, a):
        n = len(t.items)
        return Arr(self.it, t.items[self.rel(self.arg(a, 0), n, 0):self.rel(self.arg(a, 1), n, n)])

    def arr_splice(self, t, a):
        n = len(t.items)
        i = self.rel(self.arg(a, 0), n, 0)
        d = n - i if len(a) < 2 else max(0, min(self.it.int(a[1]), n - i))
        out = t.items[i:i + d]
        t.items[i:i + d] = list(a[2:])
        return Arr(self.it, out)

    def arr_concat(self, t, a):
        out = list(t.items)
        for x in a:
            out += x.items if isinstance(x, Arr) else [x]
        return Arr(self.it, out)

    def arr_join(self, t, a):
        sep = "," if self.arg(a, 0) is UNDEF else self.it.tostr(a[0])
        out = ""
        for i, x in enumerate(self.it.iter(t)):
            if i:
                out = self.it.binop("+", out, sep)
            out = self.it.binop("+", out, "" if x is UNDEF or x is None else self.it.tostr(x))
        return out

    def arr_toString(self, t, a):
        return self.arr_join(t, [])

    def arr_reverse(self, t, a):
        t.items.reverse()
        return t

    def arr_fill(self, t, a):
        n = len(t.items)
        for i in range(self.rel(self.arg(a, 1), n, 0), self.rel(self.arg(a, 2), n, n)):
            t.items[i] = self.arg(a, 0)
        return t

    def cb(self, t, a):
        f, this = self.arg(a, 0), self.arg(a, 1)
        for i, x in enumerate(self.it.iter(t)):
            yield i, x, self.it.call(f, this, [x, i, t])

    def arr_forEach(self, t, a):
        for _ in self.cb(t, a):
            pass
        return UNDEF

    def arr_map(self, t, a):
        return Arr(self.it, [r for _, _, r in self.cb(t, a)])

    def arr_flatMap(self, t, a):
        return self.arr_concat(Arr(self.it, []), [r for _, _, r in self.cb(t, a)])

    def arr_filter(self, t, a):
        return Arr(self.it, [x for _, x, r in self.cb(t, a) if self.it.truthy(r)])

    def arr_find(self, t, a):
        for _, x, r in self.cb(t, a):
            if self.it.truthy(r):
                return x
        return UNDEF

    def arr_findIndex(self, t, a):
        for i, x, r in self.cb(t, a):
            if self.it.truthy(r):
                return i
        return -1

    def arr_some(self, t, a):
        return self.arr_findIndex(t, a) >= 0

    def arr_every(self, t, a):
        for _, x, r in self.cb(t, a):
            if not self.it.truthy(r):
                return False
        return True

    def arr_reduce(self, t, a):
        items = self.it.iter(t)
        i = 0
        if len(a) > 1:
            acc = a[1]
        else:
            if not items:
                self.it.throw("TypeError", "Reduce of empty array with no initial value")
            acc, i = items[0], 1
        for j in range(i, len(items)):
            acc = self.it.call(a[0], UNDEF, [acc, items[j], j, t])
        return acc

    def arr_indexOf(self, t, a):
        items = self.it.iter(t)
        for i in range(self.rel(self.arg(a, 1), len(items), 0), len(items)):
            if self.it.truthy(self.it.seq(items[i], self.arg(a, 0))):
                return i
        return -1

    def arr_includes(self, t, a):
        return self.arr_indexOf(t, a) >= 0

    def arr_at(self, t, a):
        items = self.it.iter(t)
        i = self.it.int(self.arg(a, 0))
        i = i + len(items) if i < 0 else i
        return items[i] if 0 <= i < len(items) else UNDEF

    def arr_keys(self, t, a):
        return Arr(self.it, list(range(len(self.it.iter(t)))))

    def arr_values(self, t, a):
        return Arr(self.it, self.it.iter(t))

    def arr_entries(self, t, a):
        return Arr(self.it, [Arr(self.it, [i, x]) for i, x in enumerate(self.it.iter(t))])

    # ---- buffers
    buf_forEach, buf_find, buf_findIndex, buf_some, buf_every, buf_reduce, buf_at = arr_forEach, arr_find, arr_findIndex, arr_some, arr_every, arr_reduce, arr_at
    buf_keys, buf_values, buf_entries, buf_join = arr_keys, arr_values, arr_entries, arr_join

    def alloc(self, n, fill=0, u8=False):
        if n < 0:
            self.it.throw("RangeError", "The value of \"size\" is out of range")
        if n > 1 << 22:
            raise Unsupported("a very large buffer")
        return Buf(self.it, Mem([fill] * n), 0, n, u8)

    def of_bytes(self, b, u8=False):
        return Buf(self.it, Mem(list(b)), 0, len(b), u8)

    def isu8(self, t):
        return t.proto is self.it.protos["Uint8Array"]

    def view(self, t, i, j):
        return Buf(self.it, t.mem, t.off + i, max(0, j - i), self.isu8(t))

    def buf_subarray(self, t, a):
        i, j = self.rel(self.arg(a, 0), t.n, 0), self.rel(self.arg(a, 1), t.n, t.n)
        return self.view(t, i, max(i, j))

    def buf_slice(self, t, a):
        v = self.buf_subarray(t, a)
        return self.of_bytes(v.bytes(), True) if self.isu8(t) else v

    def buf_copy(self, t, a):
        dst = self.arg(a, 0)
        ts, ss, se = self.arg(a, 1), self.arg(a, 2), self.arg(a, 3)
        ts = 0 if ts is UNDEF else self.it.int(ts)
        ss = 0 if ss is UNDEF else self.it.int(ss)
        se = t.n if se is UNDEF else self.it.int(se)
        if not isinstance(dst, Buf):
            self.it.throw("TypeError", "argument must be an instance of Buffer")
        if ts < 0 or ss < 0 or ss > t.n or se < 0:
            self.it.throw("RangeError", "out of range")
        if ts >= dst.n or ss >= se:
            return 0
        n = min(se - ss, dst.n - ts, t.n - ss)
        if n <= 0:
            return 0
        dst.mem.b[dst.off + ts:dst.off + ts + n] = t.mem.b[t.off + ss:t.off + ss + n]
        return n

    def buf_set(self, t, a):
        src = [self.it.tobyte(x) for x in self.it.iter(a[0])]
        o = self.it.int(self.arg(a, 1))
        if o < 0 or o + len(src) > t.n:
            self.it.throw("RangeError", "offset is out of bounds")
        t.mem.b[t.off + o:t.off + o + len(src)] = src
        return UNDEF

    def buf_copyWithin(self, t, a):
        to, s, e = self.rel(self.arg(a, 0), t.n, 0), self.rel(self.arg(a, 1), t.n, 0), self.rel(self.arg(a, 2), t.n, t.n)
        n = min(e - s, t.n - to)
        if n > 0:
            t.mem.b[t.off + to:t.off + to + n] = t.mem.b[t.off + s:t.off + s + n]
        return t

    def needle(self, v, enc=UNDEF):
        if isstr(v):
            return self.encode(v, enc)
        if isinstance(v, Buf):
            return v.bytes()
        return [self.it.tobyte(v)]

    def offs(self, t, v, d):
        if v is UNDEF:
            return d
        i = self.it.int(v)
        return max(0, t.n + i) if i < 0 else i

    def buf_indexOf(self, t, a):
        enc = self.arg(a, 2)
        o = self.arg(a, 1)
        if isstr(o):
            o, enc = UNDEF, o
        i = self.offs(t, o, 0)
        n = self.needle(self.arg(a, 0), enc)
        if not n:
            return min(i, t.n)
        return self.bfind(t.bytes(), n, i)

    def bfind(self, hay, n, i):
        if all(isinstance(x, int) for x in hay) and all(isinstance(x, int) for x in n):
            return bytes(hay).find(bytes(n), i)
        return self.find(hay, n, i)

    def buf_lastIndexOf(self, t, a):
        return self.rfind(t.bytes(), self.needle(a[0], self.arg(a, 2)), self.offs(t, self.arg(a, 1), t.n))

    def buf_includes(self, t, a):
        return self.buf_indexOf(t, a) >= 0

    def buf_equals(self, t, a):
        return self.it.eq_units(t.bytes(), a[0].bytes())

    def buf_compare(self, t, a):
        x, y = t.bytes(), a[0].bytes()
        for p, q in zip(x, y):
            if self.it.is_(p, q):
                continue
            lt = p < q if isinstance(p, int) and isinstance(q, int) else self.it.ctx.branch(z3.ULT(p if z3.is_expr(p) else z3.BitVecVal(p, 8), q))
            return -1 if lt else 1
        return (len(x) > len(y)) - (len(x) < len(y))

    def buf_fill(self, t, a):
        v = self.arg(a, 0)
        b = self.needle(v) or [0]
        i, j = self.arg(a, 1), self.arg(a, 2)
        i = 0 if i is UNDEF or isstr(i) else self.it.int(i)
        j = t.n if j is UNDEF or isstr(j) else self.it.int(j)
        if i < 0 or j > t.n:
            self.it.throw("RangeError", "out of range")
        for k in range(i, j):
            t.mem.b[t.off + k] = b[(k - i) % len(b)]
        return t

    def buf_write(self, t, a):
        o, n, enc = self.arg(a, 1), self.arg(a, 2), self.arg(a, 3)
        if isstr(o):
            o, enc = 0, o
        if isstr(n):
            n, enc = UNDEF, n
        o = 0 if o is UNDEF else self.it.int(o)
        n = t.n - o if n is UNDEF else min(self.it.int(n), t.n - o)
        b = self.encode(a[0], enc)
        if len(b) > n:
            if self.enc(enc) == "utf8" and any(not isinstance(x, int) or x > 127 for x in b):
                raise Unsupported("a partial write of non-ASCII text")
            b = b[:n]
        t.mem.b[t.off + o:t.off + o + len(b)] = b
        return len(b)

    def buf_readUInt8(self, t, a):
        i = self.it.int(self.arg(a, 0))
        if not 0 <= i < t.n:
            self.it.throw("RangeError", "out of range")
        return self.it.get(t, i)

    buf_readUint8 = buf_readUInt8

    def buf_writeUInt8(self, t, a):
        i = self.it.int(self.arg(a, 1))
        if not 0 <= i < t.n:
            self.it.throw("RangeError", "out of range")
        self.it.set(t, i, a[0])
        return i + 1

    def buf_map(self, t, a):
        return self.of_bytes([self.it.tobyte(r) for _, _, r in self.cb(t, a)], self.isu8(t))

    def buf_toString(self, t, a):
        if self.isu8(t):
            return self.arr_join(t, [])
        i = self.clamp(self.arg(a, 1), t.n, 0)
        j = self.clamp(self.arg(a, 2), t.n, t.n)
        return self.decode(t.bytes()[i:j], self.arg(a, 0))

    def enc(self, e):
        if e is UNDEF or e is None:
            return "utf8"
        e = e.lower()
        return {"utf-8": "utf8", "binary": "latin1", "ucs-2": "utf16le", "ucs2": "utf16le", "utf-16le": "utf16le"}.get(e, e)

    def widen(self, b, bits=16):
        return b if isinstance(b, int) else z3.ZeroExt(bits - 8, b)

    def decode(self, b, enc=UNDEF):
        e = self.enc(enc)
        if e == "latin1":
            return mkstr([self.widen(x) for x in b])
        if e == "ascii":
            return mkstr([simp(self.widen(x) & 127) for x in b])
        if e in ("hex", "base64"):
            import base64 as b64
            c = bytes(self.it.ctx.concretize(z3.ZeroExt(56, x)) if not isinstance(x, int) else x for x in b)
            return c.hex() if e == "hex" else b64.b64encode(c).decode()
        if e != "utf8":
            raise Unsupported("the encoding " + e)
        if all(isinstance(x, int) for x in b):
            return self.py_utf8(b)
        R = self.it.inr
        out, i, n = [], 0, len(b)
        while i < n:
            c = b[i]
            if R(c, 0, 0x7f):
                out.append(simp(self.widen(c)))
                i += 1
                continue
            if R(c, 0xc2, 0xdf):
                need, lo, hi, cp = 1, 0x80, 0xbf, simp(self.widen(c, 32) & 0x1f)
            elif R(c, 0xe0, 0xef):
                need, lo, hi, cp = 2, 0x80, 0xbf, simp(self.widen(c, 32) & 0xf)
                if self.it.is_(c, 0xe0):
                    lo = 0xa0
                elif self.it.is_(c, 0xed):
                    hi = 0x9f
            elif R(c, 0xf0, 0xf4):
                need, lo, hi, cp = 3, 0x80, 0xbf, simp(self.widen(c, 32) & 7)
                if self.it.is_(c, 0xf0):
                    lo = 0x90
                elif self.it.is_(c, 0xf4):
                    hi = 0x8f
            else:
                out.append(0xfffd)
                i += 1
                continue
            i += 1
            ok = True
            for _ in range(need):
                if i >= n or not R(b[i], lo, hi):
                    ok = False
                    break
                cp = simp((cp << 6 if isinstance(cp, int) else cp << 6) | (self.widen(b[i], 32) & 0x3f))
                lo, hi = 0x80, 0xbf
                i += 1
            if not ok:
                out.append(0xfffd)
            elif need < 3:
                out.append(cp if isinstance(cp, int) else simp(z3.Extract(15, 0, cp)))
            else:
                c0 = simp(cp - 0x10000)
                if isinstance(c0, int):
                    out += [0xd800 + (c0 >> 10), 0xdc00 + (c0 & 0x3ff)]
                else:
                    out += [simp(0xd800 + z3.Extract(15, 0, z3.LShR(c0, 10))), simp(0xdc00 + (z3.Extract(15, 0, c0) & 0x3ff))]
        return mkstr(out)

    def py_utf8(self, b):
        s = bytes(b).decode("utf-8", "replace")
        u = []
        for c in s:
            o = ord(c)
            u += [o] if o < 0x10000 else [0xd800 + ((o - 0x10000) >> 10), 0xdc00 + ((o - 0x10000) & 0x3ff)]
        return mkstr(u)

    def encode(self, s, enc=UNDEF):
        e = self.enc(enc)
        u = units(s)
        if e == "latin1" or e == "ascii":
            return [x & 255 if isinstance(x, int) else simp(z3.Extract(7, 0, x)) for x in u]
        if e == "hex":
            return list(bytes.fromhex(s))
        if e == "base64":
            import base64 as b64
            return list(b64.b64decode(s))
        if e != "utf8":
            raise Unsupported("the encoding " + e)
        R = self.it.inr
        out, i = [], 0

        def low(x, n, shift, mark):
            if isinstance(x, int):
                return mark | ((x >> shift) & ((1 << n) - 1))
            return simp(z3.Extract(7, 0, (z3.LShR(x, shift) & ((1 << n) - 1)) | mark))
        while i < len(u):
            c = u[i]
            if R(c, 0, 0x7f):
                out.append(low(c, 7, 0, 0))
            elif R(c, 0, 0x7ff):
                out += [low(c, 5, 6, 0xc0), low(c, 6, 0, 0x80)]
            elif R(c, 0xd800, 0xdbff) and i + 1 < len(u) and R(u[i + 1], 0xdc00, 0xdfff):
                w = lambda x: x if isinstance(x, int) else z3.ZeroExt(16, x)
                cp = simp(((w(c) - 0xd800) << 10) + (w(u[i + 1]) - 0xdc00) + 0x10000)
                out += [low(cp, 3, 18, 0xf0), low(cp, 6, 12, 0x80), low(cp, 6, 6, 0x80), low(cp, 6, 0, 0x80)]
                i += 1
            elif R(c, 0xd800, 0xdfff):
                out += [0xef, 0xbf, 0xbd]
            else:
                out += [low(c, 4, 12, 0xe0), low(c, 6, 6, 0x80), low(c, 6, 0, 0x80)]
            i += 1
        return out

    def frombuf(self, a, u8=False):
        v = self.arg(a, 0)
        if isstr(v):
            return self.of_bytes(self.encode(v, self.arg(a, 1)), u8)
        if isinstance(v, Buf):
            return self.of_bytes(v.bytes(), u8)
        if isinstance(v, Arr):
            return self.of_bytes([self.it.tobyte(x) for x in v.items], u8)
        if isinstance(v, ABuf):
            n = len(v.mem.b)
            o = 0 if self.arg(a, 1) is UNDEF else self.it.int(a[1])
            l = n - o if self.arg(a, 2) is UNDEF else self.it.int(a[2])
            if o < 0 or o > n or o + l > n:
                self.it.throw("RangeError", "out of bounds")
            return Buf(self.it, v.mem, o, l, u8)
        if u8 and isnum(v):
            return self.alloc(self.it.int(v), 0, True)
        if u8 and v is UNDEF:
            return self.alloc(0, 0, True)
        self.it.throw("TypeError", "The first argument must be of type string or an instance of Buffer")

    # ---- maps, sets
    def mk(self, k):
        if isinstance(k, (SStr,)) or issymnum(k):
            return self.it.key(k)
        return k

    def map_get(self, t, a):
        r = t.d.get(self.mk(a[0]), UNDEF)
        return r

    def map_set(self, t, a):
        t.d[self.mk(a[0])] = self.arg(a, 1)
        return t

    def map_add(self, t, a):
        t.d[self.mk(a[0])] = True
        return t

    def map_has(self, t, a):
        return self.mk(a[0]) in t.d

    def map_delete(self, t, a):
        return t.d.pop(self.mk(a[0]), None) is not None

    def map_clear(self, t, a):
        t.d.clear()
        return UNDEF

    def map_keys(self, t, a):
        return Arr(self.it, list(t.d.keys()))

    def map_values(self, t, a):
        return Arr(self.it, list(t.d.keys() if t.isset else t.d.values()))

    def map_entries(self, t, a):
        return Arr(self.it, [Arr(self.it, [k, k if t.isset else v]) for k, v in t.d.items()])

    def map_forEach(self, t, a):
        for k, v in list(t.d.items()):
            self.it.call(a[0], UNDEF, [k if t.isset else v, k, t])
        return UNDEF

    # ---- promises
    def pro_then(self, t, a):
        return self.it.then(t, self.arg(a, 0), self.arg(a, 1))

    def pro_catch(self, t, a):
        return self.it.then(t, UNDEF, self.arg(a, 0))

    def pro_finally(self, t, a):
        f = self.arg(a, 0)
        it = self.it

        def ok(_, b):
            r = it.promise_of(it.call(f, UNDEF, []))
            return it.then(r, it.native("", lambda *_: b[0] if b else UNDEF), UNDEF)

        def bad(_, b):
            r = it.promise_of(it.call(f, UNDEF, []))

            def again(*_):
                raise JsThrow(b[0])
            return it.then(r, it.native("", again), UNDEF)
        return it.then(t, it.native("", ok), it.native("", bad))

    # ---- globals
    def globals(self):
        it = self.it
        N = it.native
        g = {}

        def ns(name, **kv):
            o = it.obj()
            for k, v in kv.items():
                o.props[k] = N(k, v) if callable(v) and not isinstance(v, Obj) else v
            g[name] = o
            return o

        def ctor(name, f, call=None, **statics):
            c = N(name, call or (lambda t, a: it.throw("TypeError", "%s requires 'new'" % name)))
            c.construct = f
            c.props["prototype"] = it.protos[name]
            it.protos[name].props["constructor"] = c
            for k, v in statics.items():
                c.props[k.rstrip("_")] = N(k, v) if callable(v) and not isinstance(v, Obj) else v
            g[name] = c
            return c
        A = self.arg

        def mth(f):
            def h(t, a):
                xs = [it.num(x) for x in a]
                if any(isinstance(x, float) and x != x for x in xs):
                    return float("nan")
                return norm(f(*xs))
            return h
        inf = float("inf")
        fl = lambda f: (lambda x: x if isinstance(x, float) and math.isinf(x) else f(x))
        ns("Math", floor=mth(fl(math.floor)), ceil=mth(fl(math.ceil)), trunc=mth(fl(math.trunc)), round=mth(fl(lambda x: math.floor(x + 0.5))), abs=mth(abs),
           max=mth(lambda *x: max(x) if x else -inf), min=mth(lambda *x: min(x) if x else inf), pow=mth(lambda a, b: float(a) ** b),
           log2=mth(lambda x: math.log2(x) if x > 0 else (-inf if x == 0 else float("nan"))), sign=mth(lambda x: (x > 0) - (x < 0)), sqrt=mth(lambda x: math.sqrt(x) if x >= 0 else float("nan")))

        def pint(t, a):
            r = 10 if A(a, 1) is UNDEF else it.int(a[1])
            u = it.conc_units(units(it.tostr(A(a, 0))))
            s = mkstr(u).strip("".join(map(chr, it.WS)))
            sg = 1
            if s[:1] in "+-" and s:
                sg = -1 if s[0] == "-" else 1
                s = s[1:]
            if r == 16 and s[:2].lower() == "0x":
                s = s[2:]
            elif A(a, 1) is UNDEF and s[:2].lower() == "0x":
                r, s = 16, s[2:]
            i = 0
            while i < len(s) and s[i].isalnum() and ord(s[i]) < 128 and int(s[i], 36) < r:
                i += 1
            return sg * int(s[:i], r) if i else float("nan")

        def pfloat(t, a):
            import re
            m = re.match(r"\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", mkstr(it.conc_units(units(it.tostr(A(a, 0))))))
            return norm(float(m.group())) if m else float("nan")

        def isnan(t, a):
            v = it.tonum(A(a, 0))
            return isinstance(v, float) and v != v

        def nisnan(t, a):
            return isinstance(A(a, 0), float) and a[0] != a[0]

        def isint(t, a):
            v = A(a, 0)
            return issymnum(v) or (isnum(v) and isinstance(norm(v), int))

        def isfin(t, a):
            v = A(a, 0)
            return issymnum(v) or (isnum(v) and not (isinstance(v, float) and (v != v or math.isinf(v))))
        num = N("Number", lambda t, a: it.tonum(a[0]) if a else 0)
        num.props.update(isNaN=N("isNaN", nisnan), isInteger=N("isInteger", isint), isSafeInteger=N("isSafeInteger", isint), isFinite=N("isFinite", isfin), parseInt=N("parseInt", pint),
                         parseFloat=N("parseFloat", pfloat), MAX_SAFE_INTEGER=2 ** 53 - 1, MIN_SAFE_INTEGER=-(2 ** 53 - 1), NaN=float("nan"), POSITIVE_INFINITY=inf, NEGATIVE_INFINITY=-inf, MAX_VALUE=1.7976931348623157e308)
        g["Number"] = num
        g["isNaN"], g["parseInt"], g["parseFloat"] = N("isNaN", isnan), N("parseInt", pint), N("parseFloat", pfloat)
        g["isFinite"] = N("isFinite", lambda t, a: isfin(t, [it.tonum(A(a, 0))]))
        g["NaN"], g["Infinity"] = float("nan"), inf
        st = N("String", lambda t, a: it.tostr(a[0]) if a else "")
        st.props["fromCharCode"] = N("fromCharCode", lambda t, a: mkstr([(lambda v: simp(z3.Extract(15, 0, v)) if issymnum(v) else int(v) & 0xffff)(it.tonum(x)) for x in a]))
        st.props["fromCodePoint"] = N("fromCodePoint", lambda t, a: self.py_utf8("".join(chr(it.int(x)) for x in a).encode("utf8")))
        g["String"] = st
        g["Boolean"] = N("Boolean", lambda t, a: it.truthy(A(a, 0)))

        def err(kind):
            def f(a):
                e = it.error(kind, it.tostr(a[0]) if a and a[0] is not UNDEF else "")
                o = A(a, 1)
                if isinstance(o, Obj) and "cause" in o.props:
                    e.props["cause"] = o.props["cause"]
                return e
            c = ctor(kind, f, call=lambda t, a: f(a))
            it.protos[kind].props["name"] = kind
            it.protos[kind].props["message"] = ""
            c.props["captureStackTrace"] = N("captureStackTrace", lambda t, a: UNDEF)
        for k in ("Error", "TypeError", "RangeError", "SyntaxError"):
            err(k)
        it.protos["Error"].props["toString"] = N("toString", lambda t, a: it.describe(t))
        it.protos["Object"].props["toString"] = N("toString", lambda t, a: "[object Object]")
        it.protos["Object"].props["hasOwnProperty"] = N("hasOwnProperty", lambda t, a: str(it.key(a[0])) in t.props)
        it.protos["Object"].props["valueOf"] = N("valueOf", lambda t, a: t)

        def marr(a):
            if len(a) == 1 and isnum(a[0]):
                return Arr(it, [UNDEF] * it.int(a[0]))
            return Arr(it, list(a))

        def afrom(t, a):
            v = A(a, 0)
            if isinstance(v, Obj) and v.cls == "Object":
                items = [it.get(v, i) for i in range(it.int(it.get(v, "length")))]
            else:
                items = it.iter(v)
            f = A(a, 1)
            return Arr(it, [it.call(f, UNDEF, [x, i]) for i, x in enumerate(items)] if isinstance(f, Func) else items)
        ctor("Array", marr, call=lambda t, a: marr(a), isArray=lambda t, a: isinstance(A(a, 0), Arr), from_=afrom, of=lambda t, a: Arr(it, list(a)))
        ob = N("Object", lambda t, a: A(a, 0))
        ob.construct = lambda a: it.obj()
        ob.props["prototype"] = it.protos["Object"]
        own = lambda o: [str(i) for i in range(len(o.items))] if isinstance(o, Arr) else list(o.props)
        ob.props["keys"] = N("keys", lambda t, a: Arr(it, own(a[0])))
        ob.props["values"] = N("values", lambda t, a: Arr(it, [it.get(a[0], k) for k in own(a[0])]))
        ob.props["entries"] = N("entries", lambda t, a: Arr(it, [Arr(it, [k, it.get(a[0], k)]) for k in own(a[0])]))
        ob.props["assign"] = N("assign", lambda t, a: ([a[0].props.update(x.props) for x in a[1:] if isinstance(x, Obj)], a[0])[1])
        ob.props["freeze"] = N("freeze", lambda t, a: a[0])
        ob.props["create"] = N("create", lambda t, a: Obj(a[0]))
        ob.props["fromEntries"] = N("fromEntries", lambda t, a: it.obj(**{it.key(it.get(e, 0)): it.get(e, 1) for e in it.iter(a[0])}))
        g["Object"] = ob

        # Buffer
        def alloc(t, a):
            b = self.alloc(it.int(A(a, 0)))
            if A(a, 1) is not UNDEF:
                self.buf_fill(b, [a[1]])
            return b

        def unsafe(t, a):
            n = it.int(A(a, 0))
            b = self.alloc(n)
            b.mem.b = [it.ctx.fresh("garbage") for _ in range(n)]
            return b

        def concat(t, a):
            l = it.iter(A(a, 0))
            out = []
            for x in l:
                if not isinstance(x, Buf):
                    it.throw("TypeError", "list[] must be an instance of Buffer or Uint8Array")
                out += x.bytes()
            if A(a, 1) is not UNDEF:
                n = it.int(a[1])
                out = out[:n] + [0] * (n - len(out))
            return self.of_bytes(out)

        def blen(t, a):
            v = a[0]
            return len(self.encode(v, A(a, 1))) if isstr(v) else (v.n if isinstance(v, Buf) else len(v.mem.b))
        bf = ctor("Buffer", lambda a: self.frombuf(a) if not isnum(A(a, 0)) else self.alloc(it.int(a[0])), call=lambda t, a: self.frombuf(a), alloc=alloc, allocUnsafe=unsafe, allocUnsafeSlow=unsafe,
                  concat=concat, byteLength=blen, isBuffer=lambda t, a: isinstance(A(a, 0), Buf) and not self.isu8(a[0]), from_=lambda t, a: self.frombuf(a), poolSize=8192,
                  compare=lambda t, a: self.buf_compare(a[0], [a[1]]), isEncoding=lambda t, a: self.enc(a[0]) in ("utf8", "latin1", "ascii", "hex", "base64"))
        ctor("Uint8Array", lambda a: self.frombuf(a, True), from_=lambda t, a: self.frombuf([Arr(it, it.iter(a[0]))], True), of=lambda t, a: self.of_bytes([it.tobyte(x) for x in a], True))
        mm = ctor("Map", lambda a: self.mapof(a, False))
        ctor("Set", lambda a: self.mapof(a, True))
        g["WeakMap"], g["WeakSet"] = g["Map"], g["Set"]

        def re_(a):
            p = A(a, 0)
            fl_ = A(a, 1)
            return Regex(it, p.src if isinstance(p, Regex) else it.tostr(p), (p.flags if isinstance(p, Regex) else "") if fl_ is UNDEF else it.tostr(fl_))
        ctor("RegExp", re_, call=lambda t, a: re_(a))

        def dec(a):
            o = it.obj()
            label = it.tostr(a[0]) if A(a, 0) is not UNDEF else "utf8"
            opts = A(a, 1)

            def decode(t, b):
                if len(b) > 1 and isinstance(b[1], Obj) and it.truthy(it.get(b[1], "stream")):
                    raise Unsupported("a streaming TextDecoder")
                s = self.decode(b[0].bytes() if b else [], label)
                u = units(s)
                if u and it.is_(u[0], 0xfeff):
                    s = mkstr(u[1:])
                return s
            o.props["decode"] = N("decode", decode)
            if isinstance(opts, Obj) and opts.props:
                raise Unsupported("options of TextDecoder")
            return o
        td = N("TextDecoder", None)
        td.construct = dec
        td.props["prototype"] = it.obj()
        g["TextDecoder"] = td
        te = N("TextEncoder", None)
        te.construct = lambda a: it.obj(encode=N("encode", lambda t, b: self.of_bytes(self.encode(b[0]) if b else [], True)))
        te.props["prototype"] = it.obj()
        g["TextEncoder"] = te

        # promises and timers
        def mkpromise(a):
            p = Promise(it)
            res = N("resolve", lambda t, b: (it.resolve(p, A(b, 0)) if p.state == "pending" else None, UNDEF)[1])
            rej = N("reject", lambda t, b: (it.settle(p, "rejected", A(b, 0)), UNDEF)[1])
            try:
                it.call(a[0], UNDEF, [res, rej])
            except JsThrow as e:
                it.settle(p, "rejected", e.value)
            return p

        def reject(t, a):
            p = Promise(it)
            it.settle(p, "rejected", A(a, 0))
            return p

        def pall(t, a):
            p = Promise(it)
            l = it.iter(a[0])
            out = [UNDEF] * len(l)
            left = [len(l)]
            if not l:
                it.settle(p, "fulfilled", Arr(it, []))

            def one(i):
                def f(st_, v):
                    if st_ == "rejected":
                        it.settle(p, st_, v)
                        return
                    out[i] = v
                    left[0] -= 1
                    if not left[0]:
                        it.settle(p, "fulfilled", Arr(it, out))
                return f
            for i, x in enumerate(l):
                it.subscribe(it.promise_of(x), one(i))
            return p

        def race(t, a):
            p = Promise(it)
            for x in it.iter(a[0]):
                it.subscribe(it.promise_of(x), lambda s, v: it.settle(p, s, v))
            return p
        ctor("Promise", mkpromise, resolve=lambda t, a: it.promise_of(A(a, 0)), reject=reject, all=pall, race=race)

        def timer(q):
            def f(t, a):
                it.timer_id += 1
                i = it.timer_id
                fn = a[0]
                if q == "imm":
                    rest = list(a[1:])
                    it.immediates.append((i, lambda: it.call(fn, UNDEF, rest)))
                else:
                    rest = list(a[2:])
                    d = A(a, 1)
                    d = 1 if d is UNDEF else max(1, it.int(d))
                    it.timers.append((d, i, lambda: it.call(fn, UNDEF, rest)))
                o = it.obj(id=i)
                for k in ("ref", "unref", "refresh"):
                    o.props[k] = N(k, lambda t, a: t)
                return o
            return f

        def clear(t, a):
            if isinstance(A(a, 0), Obj):
                i = a[0].props.get("id")
                it.immediates = [x for x in it.immediates if x[0] != i]
                it.timers = [x for x in it.timers if x[1] != i]
            return UNDEF
        g["setImmediate"], g["setTimeout"] = N("setImmediate", timer("imm")), N("setTimeout", timer("tmo"))
        g["clearImmediate"] = g["clearTimeout"] = N("clear", clear)
        g["queueMicrotask"] = N("queueMicrotask", lambda t, a: (it.micro.append(lambda: it.call(a[0], UNDEF, [])), UNDEF)[1])
        ns("console", **{k: (lambda t, a: UNDEF) for k in ("log", "error", "warn", "info", "debug", "trace")})
        ns("globalThis")
        g["globalThis"].props.update({k: v for k, v in g.items() if k != "globalThis"})
        return g

    def mapof(self, a, isset):
        m = MapObj(self.it, isset)
        if a and a[0] is not UNDEF and a[0] is not None:
            for e in self.it.iter(a[0]):
                if isset:
                    m.d[self.mk(e)] = True
                else:
                    m.d[self.mk(self.it.get(e, 0))] = self.it.get(e, 1)
        return m
