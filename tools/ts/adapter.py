"""Scenarios for the Node adapter, executed symbolically on the syntax tree of the current source.
adapter.py SPEC.json OUT.json -- run by check.py under the interpreter that has z3."""
import sys, os, json, time, random, subprocess, multiprocessing, pathlib
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import z3
import jsym
from jsym import *

HERE = pathlib.Path(__file__).resolve().parent
AST = None


# ---------------------------------------------------------------- building blocks of a scenario
class Lead:
    def __init__(self, ctx, prm):
        self.ctx, self.prm, self.steps, self.n = ctx, prm, [], 0

    def char(self, wide):
        """One arbitrary Unicode character in UTF-8; its width is a choice, its bytes are terms."""
        c = self.ctx
        w = c.choice(4 if wide else 1) + 1
        b = [c.fresh("b") for _ in range(w)]
        if w == 1:
            c.assume(z3.ULE(b[0], 0x7f))
        elif w == 2:
            c.assume(z3.And(z3.UGE(b[0], 0xc2), z3.ULE(b[0], 0xdf)))
        elif w == 3:
            c.assume(z3.And(z3.UGE(b[0], 0xe0), z3.ULE(b[0], 0xef), z3.Implies(b[0] == 0xe0, z3.UGE(b[1], 0xa0)), z3.Implies(b[0] == 0xed, z3.ULE(b[1], 0x9f))))
        else:
            c.assume(z3.And(z3.UGE(b[0], 0xf0), z3.ULE(b[0], 0xf4), z3.Implies(b[0] == 0xf0, z3.UGE(b[1], 0x90)), z3.Implies(b[0] == 0xf4, z3.ULE(b[1], 0x8f))))
        for x in b[1:]:
            c.assume(z3.And(z3.UGE(x, 0x80), z3.ULE(x, 0xbf)))
        return b

    def body(self):
        """A message's body: some arbitrary characters around `pad` concrete ones."""
        p = self.prm
        out = []
        n = p.get("chars", 2)
        pads = p.get("pads", [0])
        pad = pads[self.ctx.choice(len(pads))]
        for i in range(n):
            out += self.char(p.get("wide", 0) > i)
            if i == 0:
                out += [0x20 + (k * 7) % 90 for k in range(pad)]
        return out

    def message(self):
        b = self.body()
        cl = ("Content-Length: %d\r\n" % len(b)).encode()
        ct = b"Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n"
        v = self.ctx.choice(self.prm.get("headers", 1))
        h = [cl, cl + ct, ct + cl][v]
        if v and self.prm.get("symtype"):
            # an arbitrary parameter value
            k = h.index(b"utf-8\r")
            s = [self.ctx.fresh("t") for _ in range(2)]
            for x in s:
                self.ctx.assume(z3.And(z3.UGE(x, 0x21), z3.ULE(x, 0x7e)))
            h = list(h[:k]) + s + list(h[k + 5:])
        return list(h) + [13, 10] + b, b


def run_steps(ctx, case):
    """Interprets the module on a scenario; the observations (whose bytes may be terms)."""
    it = Interp(ctx)
    o = dict(requests=[], out=[], log=it.log, paused=dict(stdin=False, stdout=False), stops=0, settled="pending", stopped=[], counts=[])
    N = it.native
    handlers = {}
    released = []
    state = dict(cb=None, end=None)

    def construct(a):
        state["cb"] = a[0] if a else UNDEF
        s = it.obj()

        def start(t, a):
            p = Promise(it)
            state["end"] = p
            return p

        def send(t, a):
            b = a[0] if a else UNDEF
            if not isinstance(b, Buf):
                it.throw("TypeError", "expected a Buffer")
            o["requests"].append(b.bytes())
            p = Promise(it)
            if case["slow"]:
                released.append(p)
            else:
                it.settle(p, "fulfilled", UNDEF)
            return p

        def stop(t, a):
            o["stops"] += 1
            return UNDEF
        s.props.update(start=N("start", start), sendRequest=N("sendRequest", send), stop=N("stop", stop), free=N("free", lambda t, a: UNDEF))
        return s
    cls = N("LspServer", None)
    cls.construct = construct
    cls.props["prototype"] = it.obj()
    it.modules["../wasm/p4_analyzer_wasm"] = it.obj(LspServer=cls)

    stdin, stdout, proc = it.obj(), it.obj(), it.obj()

    def on(t, a):
        handlers.setdefault(a[0], []).append(a[1])
        return t

    def off(t, a):
        handlers[a[0]] = [f for f in handlers.get(a[0], []) if len(a) > 1 and f is not a[1]]
        return t

    def offall(t, a):
        for k in list(handlers):
            if not a or a[0] == k:
                handlers[k] = []
        return t

    def flag(n, v):
        def f(t, a):
            o["paused"][n] = v
            return t
        return f
    stdin.props.update({k: N(k, f) for k, f in dict(on=on, once=on, addListener=on, off=off, removeListener=off, removeAllListeners=offall, pause=flag("stdin", True), resume=flag("stdin", False), unref=lambda t, a: t, destroy=flag("stdin", True)).items()})

    def write(t, a):
        v = a[0]
        enc = a[1] if len(a) > 1 and isstr(a[1]) else UNDEF
        o["out"] += it.lib.encode(v, enc) if isstr(v) else v.bytes()
        for f in a[1:]:
            if isinstance(f, Func):
                it.timer_id += 1
                it.immediates.append((0, lambda: it.call(f, UNDEF, [])))
        return True
    same = lambda t, a: t
    stdout.props.update({k: N(k, f) for k, f in dict(write=write, pause=flag("stdout", True), end=flag("stdout", True), on=same, once=same, cork=same, uncork=same).items()})

    def tick(t, a):
        f, rest = a[0], list(a[1:])
        it.ticks.append(lambda: it.call(f, UNDEF, rest))
        return UNDEF
    proc.props.update(stdin=stdin, stdout=stdout, stderr=it.obj(write=N("write", lambda t, a: True)), nextTick=N("nextTick", tick), on=N("on", same), once=N("once", same),
                      exit=N("exit", lambda t, a: (it.log.append(("exit", "")), UNDEF)[1]), platform="linux", env=it.obj(), argv=Arr(it, []))
    it.globals.v["process"] = proc
    it.globals.v["exports"] = it.obj()
    inst = None
    try:
        try:
            it.module(AST)
            inst = it.new(it.exports["default"], [])
            for s in case["steps"]:
                k = s[0]
                if k == "start":
                    p = it.call(it.get(inst, "start"), inst, [])

                    def done(st, v):
                        if st == "fulfilled":
                            o["settled"] = "fulfilled"
                        else:
                            m = it.get(v, "message") if isinstance(v, Obj) else UNDEF
                            o["settled"] = "rejected: %s" % (m if isinstance(m, str) else "...")
                    it.subscribe(it.promise_of(p), done)
                    it.drain()
                elif k == "chunk":
                    m = Mem(list(s[2]) + list(s[1]) + list(s[3]))
                    for h in list(handlers.get("data", [])):
                        chunk = Buf(it, m, len(s[2]), len(s[1]))
                        it.guard(lambda: it.call(h, stdin, [chunk]))
                        it.drain()
                elif k == "immediates":
                    it.run_immediates()
                    it.drain()
                elif k == "idle":
                    it.idle()
                elif k == "release":
                    q, released[:] = list(released), []
                    for p in q:
                        it.settle(p, "fulfilled", UNDEF)
                    it.drain()
                elif k == "respond":
                    if isinstance(state["cb"], Func):
                        it.guard(lambda: it.call(state["cb"], None, [it.lib.of_bytes(s[1])]))
                    it.drain()
                elif k == "stop":
                    try:
                        it.call(it.get(inst, "stop"), inst, [])
                        o["stopped"].append("ok")
                    except JsThrow:
                        o["stopped"].append("threw")
                    it.drain()
                elif k == "end":
                    if state["end"] is not None:
                        if s[1]:
                            it.settle(state["end"], "fulfilled", UNDEF)
                        else:
                            it.settle(state["end"], "rejected", it.error("Error", "The server was stopped."))
                    it.drain()
                    it.idle()
                o["counts"].append((len(o["requests"]), len(o["out"])))
        except JsThrow as e:
            it.log.append(("uncaught exception", it.describe(e.value)))
    finally:
        it.close()
    return o


# ---------------------------------------------------------------- the scenarios and what must hold
def chunks(lead, stream, ends):
    """Where the stream is cut: up to `cuts` places, each any place."""
    c, p = lead.ctx, lead.prm
    n, at, out = len(stream), 0, []
    spots = range(1, n)
    if p.get("near"):
        # long bodies: around the ends of headers, messages and of the chunks the adapter allocates
        marks = [m for e in ends for m in e] + [k * 2048 for k in range(1, n // 2048 + 1)]
        spots = sorted({m + d for m in marks for d in range(-p["near"], p["near"] + 1) if 0 < m + d < n})
    for _ in range(p.get("cuts", 1)):
        rest = [s for s in spots if s > at]
        i = c.choice(len(rest) + 1)
        if i == len(rest):
            break
        out.append((at, rest[i]))
        at = rest[i]
    out.append((at, n))
    return out


def scenario_requests(ctx, prm):
    lead = Lead(ctx, prm)
    stream, ends, bodies = [], [], []
    for _ in range(prm.get("messages", 1)):
        m, b = lead.message()
        ends.append((len(stream) + len(m) - len(b), len(stream) + len(m)))
        stream += m
        bodies.append(b)
    view = ctx.choice(2) if prm.get("views", 1) else 0
    slow = ctx.choice(2) if prm.get("slow") else 0
    how = ctx.choice(prm.get("pace", 2))
    steps = [["start"]]
    due = [0]
    for a, b in chunks(lead, stream, ends):
        pad = [ctx.fresh("g") for _ in range(2)] if view else []
        post = [ctx.fresh("g") for _ in range(2)] if view else []
        steps.append(["chunk", stream[a:b], pad, post])
        due.append(None)
        k = sum(1 for e in ends if e[1] <= b)
        if how == 0:
            steps.append(["idle"])
            due.append(None if slow else k)
        elif how == 2:
            steps.append(["immediates"])
            due.append(None)
    steps.append(["idle"])
    due.append(None if slow else len(bodies))
    for _ in range(len(bodies) if slow else 0):
        steps += [["release"], ["idle"]]
        due += [None, None]
    due[-1] = len(bodies)
    return dict(steps=steps, slow=slow), dict(bodies=bodies, due=due, out=[], end=None)


def scenario_session(ctx, prm):
    """Responses, stopping, and the end of the server, around one request."""
    lead = Lead(ctx, prm)
    steps, out, due = [], [], []

    def add(s, d=None):
        steps.append(s)
        due.append(d)
    stopped = []
    early = ctx.choice(2)
    if early:
        add(["stop"])
        stopped.append("threw")
    add(["start"])
    bodies = []
    for _ in range(prm.get("events", 2)):
        k = ctx.choice(3)
        if k == 0:
            b = []
            n = ctx.choice(prm.get("chars", 2)) + 1
            for i in range(n):
                b += lead.char(True)
            if ctx.choice(2):
                b += [0x61 + i % 26 for i in range(prm.get("long", 3000))]
            add(["respond", b])
            out += list(("Content-Length: %d\r\n\r\n" % len(b)).encode()) + b
        elif k == 1:
            m, b = Lead(ctx, dict(chars=1)).message()
            bodies.append(b)
            add(["chunk", m, [], []])
            add(["idle"], len(bodies))
        else:
            break
    stops = ctx.choice(2)
    if stops:
        add(["stop"])
        stopped.append("ok")
    ok = ctx.choice(3)
    if ok < 2:
        add(["end", 1 - ok])
    else:
        add(["idle"])
    return dict(steps=steps, slow=0), dict(bodies=bodies, due=due, out=out, end=[True, False, None][ok], stopped=stopped, stops=stops)


SCENARIOS = dict(ts_requests=scenario_requests, ts_session=scenario_session)


def judge(must, want, o, final=True):
    """The oracle; `must(condition, message)`; bytes may be terms."""
    same = lambda a, b: (len(a) == len(b)) and (all_eq(a, b))
    must(not o["log"], "the adapter fails: %s" % (o["log"][:1],))
    for i, d in enumerate(want["due"]):
        if d is not None and i < len(o["counts"]):
            must(o["counts"][i][0] == d, "a complete message is not forwarded at once" if o["counts"][i][0] < d else "a message is forwarded that has not arrived")
    must(len(o["requests"]) == len(want["bodies"]), "%s messages are forwarded than arrived" % ("fewer" if len(o["requests"]) < len(want["bodies"]) else "more"))
    for a, b in zip(o["requests"], want["bodies"]):
        must(same(a, b), "a message is forwarded changed")
    must(same(o["out"], want["out"]), "the analyzer's messages are not written with their byte lengths, in order")
    if "stopped" in want:
        must(o["stopped"] == want["stopped"], "stop: %s instead of %s" % (o["stopped"], want["stopped"]))
        must(o["stops"] == want["stops"], "the analyzer is stopped %d times" % o["stops"])
    if want["end"] is not None:
        must(o["settled"] == ("fulfilled" if want["end"] else "rejected: The server was stopped."), "start is %s after the analyzer ended" % o["settled"].split(":")[0])
        must(o["paused"]["stdin"], "the standard input is kept open after the analyzer ended")
    else:
        must(o["settled"] == "pending", "start ended before the analyzer did")
        must(not o["paused"]["stdin"], "the standard input is paused while the analyzer runs")


def all_eq(a, b):
    cs = []
    for x, y in zip(a, b):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                return False
        else:
            c = z3.simplify(x == y)
            if z3.is_false(c):
                return False
            if not z3.is_true(c):
                cs.append(c)
    return z3.And(cs) if cs else True


# ---------------------------------------------------------------- exploration
def conc(m, x):
    return x if isinstance(x, int) else m.eval(x, model_completion=True).as_long()


def ghex(m, l):
    return "".join("%02x" % conc(m, x) for x in l)


def gcase(m, case):
    st = []
    for s in case["steps"]:
        if s[0] == "chunk":
            st.append(["chunk"] + [ghex(m, x) for x in s[1:4]])
        elif s[0] == "respond":
            st.append(["respond", ghex(m, s[1])])
        else:
            st.append(s)
    return dict(steps=st, slow=case["slow"])


def gobs(m, o):
    return dict(requests=[ghex(m, r) for r in o["requests"]], out=ghex(m, o["out"]), log=[l[0] for l in o["log"]], paused=o["paused"], stops=o["stops"], settled=o["settled"], stopped=o["stopped"])


def gwant(m, w):
    return dict(w, bodies=[ghex(m, b) for b in w["bodies"]], out=ghex(m, w["out"]))


def one_path(entry, prm, prefix, stats, want_sample):
    ctx = Ctx(prefix, stats)
    rec = None
    case = want = None
    obs = None
    kind = "ok"
    fns = ctx.fns
    try:
        case, want = SCENARIOS[entry](ctx, prm)
        obs = run_steps(ctx, case)
        judge(ctx.must, want, obs)
    except Stop:
        kind = "infeasible"
    except Violation as v:
        kind = "viol"
        try:
            m = ctx.model()
            rec = dict(t="viol", kind=v.kind, msg=v.msg, case=gcase(m, case), want=gwant(m, want))
        except Stop:
            kind = "infeasible"
    except Unsupported as e:
        kind = "unsupported"
        rec = dict(t="unsupported", msg=str(e))
    if kind == "ok" and want_sample:
        try:
            m = ctx.model()
            rec = dict(t="sample", case=gcase(m, case), want=gwant(m, want), obs=gobs(m, obs))
        except Stop:
            kind = "infeasible"
    stats["paths_" + kind] = stats.get("paths_" + kind, 0) + 1
    stats["steps"] = stats.get("steps", 0) + ctx.steps
    return ctx.alts, rec, kind, fns


def work(job):
    entry, prm, stack, quota, seed, rate = job
    rnd = random.Random(seed)
    stats, recs, fns, n = {}, [], set(), 0
    t0 = time.time()
    while stack and n < quota and time.time() - t0 < 20:
        p = stack.pop()
        alts, rec, kind, f = one_path(entry, prm, p, stats, rnd.random() < rate)
        fns |= f
        n += 1
        if rec:
            recs.append(rec)
        stack.extend(alts)
        if sum(1 for r in recs if r["t"] in ("viol", "unsupported")) > 20:
            break
    return stats, recs, fns, stack


def explore(entry, prm, jobs, max_secs, seed):
    t0 = time.time()
    tot, recs, fns = {}, [], set()
    frontier = [[]]
    left = 0
    bad = 0

    def add(r):
        nonlocal bad
        s, rs, f, st = r
        for k, v in s.items():
            tot[k] = max(tot.get(k, 0), v) if k == "z3_max_ms" else tot.get(k, 0) + v
        for x in rs:
            if x["t"] == "sample" and sum(1 for y in recs if y["t"] == "sample") >= 400:
                continue
            if x["t"] != "sample":
                bad += 1
            recs.append(x)
        fns.update(f)
        return st
    # a first stretch here, then in parallel
    frontier = add(work((entry, prm, frontier, 30, seed, 0.5)))
    if frontier and not bad:
        with multiprocessing.Pool(jobs, initializer=IDLE.clear) as pool:
            pend = []
            n = 0
            while frontier or pend:
                if time.time() - t0 > max_secs or bad > 40:
                    left = len(frontier) + len(pend)
                    pool.terminate()
                    break
                while frontier and len(pend) < jobs * 2:
                    k = max(1, min(40, len(frontier) // (jobs * 2)))
                    part, frontier = frontier[:k], frontier[k:]
                    n += 1
                    pend.append(pool.apply_async(work, ((entry, prm, part, 120, seed + n, 0.02),)))
                done = [p for p in pend if p.ready()]
                if not done:
                    time.sleep(0.01)
                    continue
                pend = [p for p in pend if p not in done]
                for p in done:
                    frontier += add(p.get())
    if bad and frontier:
        left = left or 0
    tot["left"] = left
    return tot, recs, sorted(fns), time.time() - t0


def node(ts, cases, tmp):
    if not cases:
        return []
    a, b = tmp + ".cases.json", tmp + ".obs.json"
    open(a, "w").write(json.dumps(cases))
    r = subprocess.run(["node", str(HERE / "replay.js"), ts, a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    os.unlink(a)
    if not os.path.exists(b):
        raise Unsupported("the Node replay failed: " + r.stdout[-1500:])
    out = json.loads(open(b).read())
    os.unlink(b)
    return out


class Bad(Exception):
    pass


def native_verdict(want, o):
    """The same oracle on what Node did."""
    def must(c, msg):
        if c is not True and c is not None and not (isinstance(c, bool) and c):
            raise Bad(msg)
    un = lambda h: list(bytes.fromhex(h))
    w = dict(want, bodies=[un(b) for b in want["bodies"]], out=un(want["out"]), due=[])
    q = dict(o, requests=[un(r) for r in o["requests"]], out=un(o["out"]), counts=[])
    try:
        judge(must, w, q)
        # what was due at which step: a prefix of the scenario decides it
    except Bad as e:
        return "assert", str(e)
    return "ok", ""


def prefixes(case, want):
    """Scenarios cut after each step at which something is due."""
    out = []
    for i, d in enumerate(want["due"]):
        if d is not None and i + 1 < len(case["steps"]):
            out.append((dict(case, steps=case["steps"][:i + 1]), d))
    return out


def main():
    global AST
    spec = json.loads(open(sys.argv[1]).read())
    tmp = sys.argv[2]
    r = subprocess.run(["node", str(HERE / "ast.js"), spec["ts"]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        print("the module does not parse: " + r.stderr[-800:])
        sys.exit(3)
    AST = json.loads(r.stdout)
    results = []
    for run in spec["runs"]:
        st, recs, fns, wall = explore(run["entry"], run["params"], spec["jobs"], spec["max_secs"], spec["seed"])
        problems, conf, unconf = [], [], []
        viol, seen = [], {}
        for x in recs:
            if x["t"] == "unsupported":
                problems.append("unsupported: " + x["msg"])
            if x["t"] == "viol":
                seen[x["msg"]] = seen.get(x["msg"], 0) + 1
                if seen[x["msg"]] <= 4:
                    viol.append(x)
        problems = sorted(set(problems))[:5]
        cases, where = [], []
        for i, v in enumerate(viol):
            cases.append(v["case"])
            where.append((i, None))
            for c, d in prefixes(v["case"], v["want"]):
                cases.append(c)
                where.append((i, d))
        try:
            obs = node(spec["ts"], cases, tmp)
            for v in viol:
                v["native"] = ["ok", ""]
            for (i, d), o in zip(where, obs):
                v = viol[i]
                if v["native"][0] != "ok":
                    continue
                if d is None:
                    v["native"] = list(native_verdict(v["want"], o))
                elif len(o["requests"]) != d:
                    v["native"] = ["assert", "%d messages forwarded where %d have arrived" % (len(o["requests"]), d)]
            samples = [x for x in recs if x["t"] == "sample"]
            mism = []
            for x, o in zip(samples, node(spec["ts"], [x["case"] for x in samples], tmp)):
                p = dict(o, log=[l[0] for l in o["log"]])
                if p != x["obs"]:
                    mism.append(dict(inputs=json.dumps(x["case"])[:2000], symbolic=["ok", json.dumps(x["obs"])[:600]], native=["ok", json.dumps(p)[:600], ""]))
        except Unsupported as e:
            problems.append(str(e))
            samples, mism = [], []
        for v in viol:
            d = dict(kind=v["kind"], msg=v["msg"], known="", sched="", inputs=json.dumps(v["case"]), native=v.get("native", ["ok", ""]))
            (conf if d["native"][0] != "ok" else unconf).append(d)
        if mism:
            problems.append("symbolic and native execution disagree: " + json.dumps(mism[0])[:1500])
        if unconf:
            problems.append("counterexample does not reproduce natively: " + json.dumps(unconf[0])[:1500])
        if st.get("left"):
            problems.append("time limit: %d states left unexplored" % st["left"])
        if st.get("z3_unknown"):
            problems.append("solver gave up on %d queries" % st["z3_unknown"])
        if not st.get("paths_ok") and not conf:
            problems.append("vacuous: no path completed")
        results.append(dict(entry=run["entry"], params=run["params"], wall_s=round(wall, 2), stats=st, reach=dict(r0=st.get("paths_ok", 0)), cov={}, fns=fns, known={}, violations=conf, unconfirmed=unconf,
                            samples_checked=len(samples), mismatches=mism, samples=[dict(inputs=json.dumps(x["case"])[:400], end="ok") for x in samples[:3]], problems=problems))
    open(tmp, "w").write(json.dumps(results))


if __name__ == "__main__":
    main()
