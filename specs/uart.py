"""Contracts of the UART packet functions (H02), the text output over them (S01) and the delays (H05).

The line is a sequence of bytes BYTE(0), BYTE(1), ... given by an uninterpreted function; the platform's read functions are
contracts that hand out the next bytes whenever they choose.  The clock is a 64-bit ghost that moves forward by any amount below
2^30 ms (12 days) between two readings; the code sees its low 32 bits."""
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.loops import Cand
from irv.verify import call, query, post, canary, canary_any
from specs.hw import HARNESS, FLAGS, NATIVE, BV, tru, bit, C, one, inv, begin, obj, opaque, isat, null, rsz, answers, lname

LINE = z3.Function("BYTE", z3.BitVecSort(64), z3.BitVecSort(8))
low = lambda x: z3.Extract(31, 0, x)


# ---------------------------------------------------------------- the clock
def clock(c):
    c.st.gh["now"] = c.st.gh["start"] = BV(0, 64)
    t0 = z3.BitVec("clock", 64)
    c.ex.inputs["clock"] = t0
    c.st.add(z3.ULT(t0, BV(1 << 62, 64)))
    c.st.gh["now"] = c.st.gh["start"] = t0
    c.t0 = t0

    def read(ex, s, a, inst):
        t = z3.BitVec(fresh_name("clock"), 64)
        s.add(z3.And(z3.UGE(t, s.gh["now"]), z3.ULT(t - s.gh["now"], BV(1 << 30, 64)), z3.ULT(t, BV(1 << 62, 64))))
        if not s.gh.get("running"):
            s.gh["running"] = True
            s.gh["start"] = t
        s.gh["now"] = t
        return [(s, low(t))]
    return read


def spent(g):
    return g["now"] - g["start"]


# ---------------------------------------------------------------- H02
def uart(ex, backend, op):
    c = begin(ex)
    d = ex.d
    ex.check_term = False           # the loops wait for bytes or time to pass
    n = c.n = inv(ex, c.st, "bufferSize", 16)
    c.n64 = rsz(n, 64)
    c.tmo = inv(ex, c.st, "timeout", 16)
    c.lim = rsz(c.tmo, 64)
    c.first, c.last = inv(ex, c.st, "startByte", 8), inv(ex, c.st, "endByte", 8)
    B = c.B = ex.new_region(c.st, "buffer", c.n64)
    c.buf = Ptr(B.id, 0)
    c.k = z3.BitVec("k", 64)
    ex.K = {B.id: [c.k]}
    c.orig = z3.BitVec("own timeout", 64)
    nr = inv(ex, c.st, "uart number", 32)
    U = c.U = obj(c, "uart", "mk_uart", nr)
    P = obj(c, "packet", "mk_packet", U)
    g = c.st.gh
    read_clock = clock(c)
    # pos: bytes taken from the line; skip: of these, before the packet; tmo: the stream's timeout; quit: why reading stopped
    g["pos"], g["skip"], g["tmo"], g["quit"] = BV(0, 64), BV(0, 64), c.orig, z3.BoolVal(False)
    g["begun"] = z3.BoolVal(op != "between")
    zero_waits = op == "until" or (op == "between" and backend == "ard")
    unlimited = c.tmo == 0 if zero_waits else z3.BoolVal(False)
    c.unlimited = unlimited
    want_tmo = z3.If(c.tmo != 0, c.lim, c.orig)

    def timely(ex, s, inst):
        if op == "receive" and backend == "esp":
            return
        ex.oblige(s, z3.Or(unlimited, z3.ULE(spent(s.gh), c.lim)), "reads only within the time limit", inst)

    def deliver(s, p, cnt):
        """cnt (0 or 1 or symbolic) bytes arrive at p"""
        pos = s.gh["pos"]
        if isc(cnt):
            for i in range(cnt):
                ex.write(s, ex.regions[p.r], d.off_add(p.off, i), 1, LINE(pos + i))
        else:
            i = z3.BitVec(fresh_name("i"), 64)
            S = ex.new_region(s, fresh_name("arrived"), cnt)
            ex.K.setdefault(S.id, []).append(c.k)
            s.add(d.mk(ex.read(s, S, c.k, 1, "int"), 8) == LINE(pos + c.k))
            ex.memcopy(s, p, Ptr(S.id, 0), cnt, None, True)
        s.gh["pos"] = pos + (BV(cnt, 64) if isc(cnt) else cnt)

    def begun(s, byte, inst):
        """a byte was taken: it starts the packet or is skipped"""
        if op != "between":
            return
        b = s.gh["begun"]
        s.gh["skip"] = z3.If(z3.Or(b, byte == c.first), s.gh["skip"], s.gh["skip"] + 1)
        s.gh["begun"] = z3.Or(b, byte == c.first)
        # skolem: position j is skipped only if it holds no start byte (by construction of skip: the first start byte ends it)

    def got(s):
        return s.gh["pos"] - s.gh["skip"]

    def open_(ex, s, inst):
        """a further byte may be taken"""
        ex.oblige(s, z3.ULT(got(s), c.n64), "takes no byte from the line that does not fit", inst)
        if op in ("until", "between"):
            ex.oblige(s, z3.Or(got(s) == 0, z3.And(op == "between", got(s) == 1), LINE(s.gh["pos"] - 1) != c.last), "takes no byte after the end byte", inst)
    # -- Arduino
    def ard_read(ex, s, a, inst):
        ex.oblige(s, isat(a[0], U), "reads its own device", inst)
        timely(ex, s, inst)
        open_(ex, s, inst)
        t = s.fork()
        byte = LINE(s.gh["pos"])
        s.gh["pos"] = s.gh["pos"] + 1
        begun(s, byte, inst)
        return [(s, rsz(byte, 32)), (t, BV((1 << 32) - 1, 32))]

    def ard_bytes(ex, s, a, inst):
        ex.oblige(s, isat(a[0], U), "reads its own device", inst)
        ex.oblige(s, s.gh["tmo"] == want_tmo, "waits for the requested time", inst)
        ln = d.mk(a[2], 64)
        l = norm(z3.simplify(ln))
        if not isc(l):
            if op == "between" or op == "until":
                raise Unsupported("block read while looking for a byte")
            ex.oblige(s, z3.ULE(ln, c.n64 - got(s)), "takes no byte from the line that does not fit", inst)
            cnt = z3.BitVec(fresh_name("count"), 64)
            s.add(z3.ULE(cnt, ln))
            deliver(s, a[1], cnt)
            s.gh["quit"] = z3.Or(s.gh["quit"], cnt != ln)
            return [(s, cnt)]
        if l != 1:
            raise Unsupported("block read")
        open_(ex, s, inst)
        if op == "between":
            ex.oblige(s, s.gh["begun"], "looks for the start byte within the time limit", inst)
        t = s.fork()
        deliver(s, a[1], 1)
        t.gh["quit"] = z3.BoolVal(True)
        return [(s, BV(1, 64)), (t, BV(0, 64))]

    def get_tmo(ex, s, a, inst):
        return [(s, s.gh["tmo"])]

    def set_tmo(ex, s, a, inst):
        ex.oblige(s, isat(a[0], U), "configures its own device", inst)
        s.gh["tmo"] = d.mk(a[1], 64)
        return [(s, None)]
    # -- ESP-IDF
    def esp_read(ex, s, a, inst):
        ex.oblige(s, d.mk(a[0], 32) == nr, "reads its own device", inst)
        timely(ex, s, inst)
        ln, ticks = d.mk(a[2], 32), rsz(d.mk(a[3], 32), 64)
        l = norm(z3.simplify(ln))
        rem = c.lim - spent(s.gh) if op != "receive" else c.lim
        ex.oblige(s, z3.Or(unlimited, z3.ULE(ticks * 10, rem)), "waits no longer than the time that is left", inst)
        full = z3.And(z3.Not(unlimited), z3.ULT(rem - ticks * 10, 10))
        t = s.fork()
        e = z3.BitVec(fresh_name("error"), 32)
        if op == "receive" and not isc(l):
            ex.oblige(s, z3.ULE(rsz(ln, 64), c.n64 - got(s)), "takes no byte from the line that does not fit", inst)
            cnt = z3.BitVec(fresh_name("count"), 32)
            s.add(z3.ULE(cnt, ln))
            s.gh["quit"] = z3.And(cnt != ln, full)
            deliver(s, a[1], rsz(cnt, 64))
            t.add(e < 0)
            t.gh["quit"] = z3.BoolVal(True)
            return [(s, cnt), (t, e)]
        if not isc(l) or l != 1:
            raise Unsupported("block read while looking for a byte")
        open_(ex, s, inst)
        byte = LINE(s.gh["pos"])
        deliver(s, a[1], 1)
        begun(s, byte, inst)
        s.gh["quit"] = z3.BoolVal(False)
        t.add(e <= 0)
        t.gh["quit"] = z3.Or(z3.And(full, e == 0), z3.And(z3.Not(unlimited), e < 0))
        return [(s, BV(1, 32)), (t, e)]

    def pause(ex, s, a, inst):
        return [(s, None)]
    H = r"^HardwareSerial::"
    ex.contracts = [(H + r"read\(", ard_read), (H + r"readBytes\(", ard_bytes), (H + r"getTimeout\(", get_tmo), (H + r"setTimeout\(", set_tmo),
                    (r"^millis$", read_clock), (r"^delay$", pause), (r"^embedded::delay\(", pause),
                    (r"^embedded::getMillisecondTicks\(", read_clock), (r"^uart_read_bytes$", esp_read)]
    k = c.k

    def cands(ex, L):
        out = []
        add = lambda nm, f: out.append(Cand(nm, f))
        gs = lambda v: v.st.gh
        n_ = lambda v: gs(v)["pos"] - gs(v)["skip"]
        for l in L.loci:
            if l.kind in ("gh", "log", "dead") or l.vk not in ("int", "ptr") or (l.vk == "int" and l.w < 8):
                continue
            w = 64 if l.vk == "ptr" else l.w
            val = lambda v, l=l, w=w: d.mk(v.num(l), w)
            for dl in (0, 1):
                add("%s == taken-%d" % (lname(l), dl), lambda v, val=val, w=w, dl=dl: val(v) == rsz(n_(v) - dl, w))
                add("%s + taken-%d == size" % (lname(l), dl), lambda v, val=val, w=w, dl=dl: val(v) + rsz(n_(v) - dl, w) == rsz(c.n64, w))
            if w == 32:
                add("%s == elapsed" % lname(l), lambda v, val=val: val(v) == low(spent(gs(v))))
            add("%s <= size" % lname(l), lambda v, val=val, w=w: z3.ULE(val(v), rsz(c.n64, w)))
            if w < 16:
                add("%s is whether the packet began" % lname(l), lambda v, val=val, w=w: (val(v) != 0) == gs(v)["begun"])
                add("%s == start byte iff begun" % lname(l), lambda v, val=val, w=w: z3.And(z3.ULE(val(v), 1), (val(v) != 0) == gs(v)["begun"]))
        add("taken <= size", lambda v: z3.ULE(n_(v), c.n64))
        add("taken < size", lambda v: z3.ULT(n_(v), c.n64))
        add("skip <= pos", lambda v: z3.ULE(gs(v)["skip"], gs(v)["pos"]))
        add("pos - skip == 1 if begun", lambda v: n_(v) == z3.If(gs(v)["begun"], BV(1, 64), BV(0, 64)))
        add("taken >= 1", lambda v: z3.UGE(n_(v), 1))
        add("taken == 0", lambda v: n_(v) == 0)
        add("begun", lambda v: gs(v)["begun"])
        add("not begun", lambda v: z3.Not(gs(v)["begun"]))
        add("first byte", lambda v: z3.Or(n_(v) == 0, LINE(gs(v)["skip"]) == c.first))
        add("no end byte yet", lambda v: z3.Or(n_(v) == 0, n_(v) == 1, LINE(gs(v)["pos"] - 1) != c.last))
        add("no end byte yet at all", lambda v: z3.Or(n_(v) == 0, LINE(gs(v)["pos"] - 1) != c.last))
        lo = 1 if op == "between" else 0
        add("no end byte before", lambda v: z3.Implies(z3.And(z3.UGE(k, lo), z3.ULT(k, n_(v))), LINE(gs(v)["skip"] + k) != c.last))
        add("no start byte before", lambda v: z3.Implies(z3.ULT(k, gs(v)["skip"]), LINE(k) != c.first))
        add("bytes taken are stored", lambda v: z3.Implies(z3.ULT(k, n_(v)), d.mk(v.byte(B.id, k), 8) == LINE(gs(v)["skip"] + k)))
        add("other bytes untouched", lambda v: z3.Implies(z3.And(z3.UGE(k, n_(v)), z3.ULT(k, c.n64)), d.mk(v.byte(B.id, k), 8) == c.old))
        add("clock forward", lambda v: z3.UGE(gs(v)["now"], gs(v)["start"]))
        add("within the limit", lambda v: z3.Or(c.unlimited, spent(gs(v)) == 0, z3.ULE(spent(gs(v)), c.lim)))
        add("strictly within the limit", lambda v: z3.Or(c.unlimited, spent(gs(v)) == 0, z3.ULT(spent(gs(v)), c.lim)))
        add("small gap", lambda v: z3.ULT(spent(gs(v)), BV((1 << 30) + (1 << 17), 64)))
        add("not given up", lambda v: z3.Not(gs(v)["quit"]))
        add("timeout set", lambda v: gs(v)["tmo"] == want_tmo)
        add("timeout restored", lambda v: gs(v)["tmo"] == c.orig)
        return out
    ex.loop_hints = [cands]
    c.old = d.mk(ex.read(c.st, B, k, 1, "int"), 8) if True else None
    c.P = P
    c.got = lambda o: o.gh["pos"] - o.gh["skip"]
    return c


def t_recv(backend, op):
    def f(ex):
        c = uart(ex, backend, op)
        d, k = ex.d, c.k
        fn, args = {"receive": ("w_receive", [c.buf, c.n, c.tmo]), "until": ("w_until", [c.buf, c.n, c.last, c.tmo]),
                    "between": ("w_between", [c.buf, c.n, c.first, c.last, c.tmo])}[op]
        outs = call(ex, c.st, fn, [c.P] + args)
        for o, v in outs:
            r = rsz(d.mk(v, 16), 64)
            g = o.gh
            post(ex, o, "reports no more bytes than the buffer holds", z3.ULE(r, c.n64))
            post(ex, o, "reports exactly the bytes taken from the line", r == z3.If(g["begun"], c.got(o), BV(0, 64)))
            post(ex, o, "byte k of the buffer is byte k of the packet", z3.Implies(z3.ULT(k, r), d.mk(ex.read(o, c.B, k, 1, "int"), 8) == LINE(g["skip"] + k)))
            lo = 0
            if op == "between":
                lo = 1
                post(ex, o, "the packet begins with the start byte", z3.Implies(r != 0, LINE(g["skip"]) == c.first))
                post(ex, o, "only bytes before the first start byte are skipped", z3.Implies(z3.ULT(k, g["skip"]), LINE(k) != c.first))
            ended = z3.BoolVal(False)
            if op != "receive":
                post(ex, o, "stops at the first end byte", z3.Implies(z3.And(z3.UGE(k, lo), r != 0, z3.ULT(k, r - 1)), LINE(g["skip"] + k) != c.last))
                ended = z3.And(z3.UGT(r, lo), LINE(g["skip"] + r - 1) == c.last)
            # the reasons to stop
            late = z3.And(z3.Not(c.unlimited), z3.UGE(o.gh["now"] - o.gh["start"], c.lim), tru(bool(g.get("running"))) if not isinstance(g.get("running"), z3.ExprRef) else g["running"])
            tiny = z3.ULT(c.n64, 2) if op == "between" else c.n64 == 0
            post(ex, o, "stops only when the buffer is full, the packet ends or the time is up",
                 z3.Or(tiny, r == c.n64, ended, late, g["quit"], z3.And(c.lim == 0, z3.Not(c.unlimited)) if op != "receive" or backend == "ard" else z3.BoolVal(False)))
            if backend == "ard":
                post(ex, o, "the device's own timeout is restored", g["tmo"] == c.orig)
        canary_any(ex, outs, fn)
    return f


def t_send(backend):
    def f(ex):
        c = begin(ex)
        d = ex.d
        n, tmo = inv(ex, c.st, "size", 16), inv(ex, c.st, "timeout", 32)
        n64 = rsz(n, 64)
        B = ex.new_region(c.st, "bytes", n64, writable=False)
        nr = inv(ex, c.st, "uart number", 32)
        U = obj(c, "uart", "mk_uart", nr)
        P = obj(c, "packet", "mk_packet", U)
        orig = z3.BitVec("own timeout", 64)
        g = c.st.gh
        g["tmo"], g["sent"], g["ret"] = orig, BV(0, 64), None
        g["calls"] = 0

        def wr(ex, s, a, inst):
            ex.oblige(s, isat(a[0], U), "writes to its own device", inst)
            ex.oblige(s, s.gh["calls"] == 0, "hands the bytes over once", inst)
            ex.oblige(s, z3.And(tobool(isat(a[1], Ptr(B.id, 0))), d.mk(a[2], 64) == n64), "sends exactly the caller's bytes", inst)
            ex.oblige(s, s.gh["tmo"] == z3.If(tmo != 0, rsz(tmo, 64), orig), "waits for the requested time", inst)
            r = z3.BitVec(fresh_name("accepted"), 64)
            s.add(z3.ULE(r, n64))
            s.gh["ret"], s.gh["calls"] = r, 1
            return [(s, r)]

        def get_tmo(ex, s, a, inst):
            return [(s, s.gh["tmo"])]

        def set_tmo(ex, s, a, inst):
            s.gh["tmo"] = d.mk(a[1], 64)
            return [(s, None)]

        def ew(ex, s, a, inst):
            ex.oblige(s, d.mk(a[0], 32) == nr, "writes to its own device", inst)
            ex.oblige(s, s.gh["calls"] == 0, "hands the bytes over once", inst)
            ex.oblige(s, z3.And(tobool(isat(a[1], Ptr(B.id, 0))), d.mk(a[2], 64) == n64), "sends exactly the caller's bytes", inst)
            t = s.fork()
            r, e = z3.BitVec(fresh_name("accepted"), 32), z3.BitVec(fresh_name("error"), 32)
            s.add(z3.ULE(rsz(r, 64), n64))
            t.add(e < 0)
            s.gh["ret"], t.gh["ret"] = rsz(r, 64), BV(0, 64)
            s.gh["calls"] = t.gh["calls"] = 1
            return [(s, r), (t, e)]
        H = r"^HardwareSerial::"
        none = lambda ex, s, a, inst: [(s, None)]
        ex.contracts = [(H + r"write\(unsigned char const\*", wr), (H + r"flush\(", none), (H + r"getTimeout\(", get_tmo), (H + r"setTimeout\(", set_tmo),
                        (r"^uart_write_bytes$", ew), (r"^uart_wait_tx_done$", lambda ex, s, a, i: answers(ex, s, "error", 32))]
        outs = call(ex, c.st, "w_send", [P, Ptr(B.id, 0), n, tmo])
        for o, v in outs:
            post(ex, o, "hands the bytes over", o.gh["calls"] == 1)
            if o.gh["ret"] is not None:
                post(ex, o, "reports the bytes the device accepted", rsz(d.mk(v, 16), 64) == o.gh["ret"])
            if backend == "ard":
                post(ex, o, "the device's own timeout is restored", o.gh["tmo"] == orig)
        canary_any(ex, outs, "send")
    return f


# ---------------------------------------------------------------- H05
def entry(L):
    """the clock does not run backwards while the loop runs"""
    return [Cand("clock forward from the loop's entry", lambda v, l=l: z3.UGE(v.st.gh["now"], l.init)) for l in L.loci
            if l.kind == "gh" and l.key == "now" and l.init is not None]


def t_delay(backend, us):
    def f(ex):
        c = begin(ex)
        d = ex.d
        ex.check_term = False
        n = inv(ex, c.st, "duration", 32)
        n64 = rsz(n, 64)
        t0 = inv(ex, c.st, "clock", 64)
        c.st.add(z3.ULT(t0, BV(1 << 62, 64)))
        c.st.gh["now"] = t0         # microseconds

        def later(s, at_least):
            t = z3.BitVec(fresh_name("clock"), 64)
            s.add(z3.And(z3.UGE(t, s.gh["now"] + at_least), z3.ULT(t, BV(1 << 62, 64))))
            s.gh["now"] = t
            return t

        c.st.gh["waited"] = BV(0, 64)   # milliseconds

        def ticks(ex, s, a, inst):
            later(s, BV(0, 64))
            s.gh["waited"] = s.gh["waited"] + rsz(d.mk(a[0], 32), 64) * 10
            return [(s, None)]

        def wait(unit):
            def h(ex, s, a, inst):
                later(s, rsz(d.mk(a[0], 32), 64) if unit == 1 else BV(0, 64))
                if unit != 1:
                    s.gh["waited"] = s.gh["waited"] + rsz(d.mk(a[0], 32), 64)
                return [(s, None)]
            return h

        def read(ex, s, a, inst):
            return [(s, later(s, BV(0, 64)))]
        ex.contracts = [(r"^vTaskDelay$", ticks), (r"^delay$", wait(1000)), (r"^delayMicroseconds$", wait(1)), (r"^esp_timer_get_time$", read)]
        ex.loop_hints = [lambda ex, L: [Cand("clock forward", lambda v: z3.UGE(v.st.gh["now"], t0))] + entry(L) +
                         [Cand("%s <= now" % lname(l), lambda v, l=l: z3.ULE(d.mk(v.num(l), 64), v.st.gh["now"])) for l in L.loci
                          if l.kind in ("phi", "slot") and l.vk == "int" and l.w == 64] +
                         [Cand("%s >= start" % lname(l), lambda v, l=l: z3.UGE(d.mk(v.num(l), 64), t0)) for l in L.loci
                          if l.kind in ("phi", "slot") and l.vk == "int" and l.w == 64]]
        outs = call(ex, c.st, "w_delay_us" if us else "w_delay", [n])
        for o, v in outs:
            post(ex, o, "waits at least the requested time", z3.UGE(o.gh["now"], t0 + n64) if us else z3.UGE(o.gh["waited"], n64))
        canary_any(ex, outs, "delay")
    return f


def t_ticks(backend):
    def f(ex):
        c = begin(ex)
        d = ex.d
        t = inv(ex, c.st, "clock", 64)
        c.st.add(z3.ULT(t, BV(1 << 62, 64)))
        m = inv(ex, c.st, "milliseconds", 64)

        def us64(ex, s, a, inst):
            return [(s, t)]
        ex.contracts = [(r"^esp_timer_get_time$", us64), (r"^millis$", lambda ex, s, a, i: [(s, low(m))]), (r"^micros$", lambda ex, s, a, i: [(s, low(t))])]
        for o, v in call(ex, c.st, "w_ms", []):
            v = d.mk(v, 32)
            post(ex, o, "the millisecond counter is the clock in milliseconds", v == (low(m) if backend == "ard" else low(z3.UDiv(t, BV(1000, 64)))))
        for o, v in call(ex, c.st, "w_us", []):
            post(ex, o, "the microsecond counter is the clock in microseconds", d.mk(v, 64) == (rsz(low(t), 64) if backend == "ard" else t))
    return f


def t_light(ex):
    c = begin(ex)
    d = ex.d
    ex.check_term = False
    n = inv(ex, c.st, "duration", 32)
    read = clock(c)
    c.st.gh["running"] = True       # the time asked for counts from the call on

    def any_time(ex, s, a, inst):
        t = z3.BitVec(fresh_name("clock"), 64)
        s.add(z3.And(z3.UGE(t, s.gh["now"]), z3.ULT(t, BV(1 << 62, 64))))
        s.gh["now"] = t
        return [(s, None)]

    def sleep(ex, s, a, inst):
        (s, _), = any_time(ex, s, a, inst)
        return answers(ex, s, "error", 32)

    def rd(ex, s, a, inst):
        (s, _), = any_time(ex, s, a, inst)
        if "first" not in s.gh:
            s.gh["first"] = s.gh["now"]
        return [(s, low(s.gh["now"]))]
    ex.contracts = [(r"^esp_sleep_enable_timer_wakeup$", lambda ex, s, a, i: [(s, BV(0, 32))]), (r"^esp_light_sleep_start$", sleep),
                    (r"^embedded::delay\(|^vTaskDelay$", any_time), (r"^embedded::getMillisecondTicks\(", rd)]

    def cands(ex, L):
        g = lambda v: v.st.gh
        out = [Cand("clock forward", lambda v: z3.UGE(g(v)["now"], c.t0)),
               Cand("clock after first", lambda v: z3.And(z3.UGE(g(v)["now"], g(v).get("first", c.t0)), z3.UGE(g(v).get("first", c.t0), c.t0)))]
        for l in L.loci:
            if l.kind in ("phi", "slot") and l.vk == "int" and l.w in (32, 64):
                z = lambda v, l=l: rsz(d.mk(v.num(l), l.w), 64)
                out.append(Cand("%s <= elapsed" % lname(l), lambda v, z=z: z3.ULE(z(v), g(v)["now"] - c.t0)))
                out.append(Cand("remaining + elapsed >= duration: %s" % lname(l), lambda v, z=z: z3.UGE(z(v) + (g(v)["now"] - c.t0), rsz(n, 64))))
                out.append(Cand("%s <= since first" % lname(l), lambda v, z=z: z3.ULE(z(v), g(v)["now"] - g(v).get("first", c.t0))))
        return out
    ex.loop_hints = [cands]
    outs = call(ex, c.st, "w_light", [n])
    for o, v in outs:
        post(ex, o, "sleeps at least the requested time (in whole milliseconds of the clock)", z3.UGE(o.gh["now"], c.t0 + rsz(n, 64)))
    canary_any(ex, outs, "light sleep")


def t_deep(ex):
    c = begin(ex)
    d = ex.d
    n = inv(ex, c.st, "duration", 32)
    c.st.gh["us"], c.st.gh["slept"] = None, 0

    def arm(ex, s, a, inst):
        s.gh["us"] = d.mk(a[0], 64)
        return [(s, BV(0, 32))]

    def go(ex, s, a, inst):
        ex.oblige(s, s.gh["us"] is not None, "arms the timer before sleeping", inst)
        s.gh["slept"] += 1
        return [(s, None)]
    ex.contracts = [(r"^esp_sleep_enable_timer_wakeup$", arm), (r"^esp_deep_sleep_start$", go)]
    outs = call(ex, c.st, "w_deep", [n])
    for o, v in outs:
        post(ex, o, "sleeps once", o.gh["slept"] == 1)
        if o.gh["us"] is not None:
            post(ex, o, "wakes up no earlier than requested", o.gh["us"] == rsz(n, 64) * 1000)
    canary_any(ex, outs, "deep sleep")


# ---------------------------------------------------------------- S01
M = r"^embedded::BufferedOut::"


def text(ex):
    """SerialOut over the contracts of BufferedOut (B02, B06) and PacketUart::Send (H02).
    ghost: len, the length of the text in the buffer; the buffer's memory holds it from index 0."""
    c = begin(ex)
    d = ex.d
    cap = c.cap = inv(ex, c.st, "capacity", 64)
    c.st.add(z3.And(z3.UGE(cap, 1), z3.ULE(cap, 65535)))
    B = c.B = ex.new_region(c.st, "buffer", cap)
    k = c.k = z3.BitVec("k", 64)
    ex.K = {B.id: [k]}
    PU = opaque(c, "packet uart")
    L = c.L = inv(ex, c.st, "text length", 64)
    c.st.add(z3.ULE(L, cap))
    g = c.st.gh
    g["len"], g["sent"], g["ops"] = L, (), ()
    c.text = d.mk(ex.read(c.st, B, k, 1, "int"), 8)
    buf = Ptr(B.id, 0)

    def size(ex, s, a, i):
        return [(s, s.gh["len"])]

    def capacity(ex, s, a, i):
        return [(s, cap)]

    def view(ex, s, a, i):
        return [(s, [buf, s.gh["len"]])]

    def raw(ex, s, a, i):
        return [(s, buf)]

    def clear(ex, s, a, i):
        s.gh["len"] = BV(0, 64)
        return [(s, None)]

    def char(ret):
        def h(ex, s, a, i):
            t = s.fork()
            s.add(z3.ULT(s.gh["len"], cap))
            ex.write(s, B, s.gh["len"], 1, d.mk(a[1], 8))
            s.gh["len"] = s.gh["len"] + 1
            t.add(t.gh["len"] == cap)
            return [(q, a[0] if ret else None) for q in (s, t) if ex.sat(q) != "unsat"]
        return h

    def append(ex, s, a, i):
        s.gh["ops"] += (tuple(a[1:]),)
        return [(s, a[0])]

    def send(ex, s, a, i):
        ex.oblige(s, isat(a[0], PU), "uses its own device", i)
        ex.oblige(s, isat(a[1], buf), "sends the text from its beginning", i)
        n = d.mk(a[2], 16)
        s.gh["sent"] += ((rsz(n, 64), d.mk(ex.read(s, B, k, 1, "int"), 8)),)
        return [(s, z3.BitVec(fresh_name("accepted"), 16))]
    ex.contracts = [(M + r"size\(\)", size), (M + r"capacity\(\)", capacity), (M + r"(data|asStringView)\(\)", view), (M + r"clear\(\)", clear),
                    (M + r"addChar\(", char(False)), (M + r"operator<<\(char\)", char(True)), (M + r"operator<<\(", append),
                    (M + r"operator unsigned char( const)?\*\(\)", raw), (r"^embedded::PacketUart::Send\(", send)]
    c.O = obj(c, "out", "mk_out", Ptr(B.id, 0), cap, PU)
    c.st.gh["len"] = L
    return c


def t_flush(fn):
    def f(ex):
        c = text(ex)
        k, L = c.k, c.L
        outs = call(ex, c.st, fn, [c.O])
        for o, _ in outs:
            post(ex, o, "the next message starts empty", o.gh["len"] == 0)
            # what went out at position k of the concatenated transmissions
            tot, at = BV(0, 64), BV(0, 8)
            for n, b in o.gh["sent"]:
                tot = tot + n
            nl = fn == "o_endl"
            post(ex, o, "transmits the text%s and nothing else" % (" and a newline" if nl else ""), tot == L + (1 if nl else 0))
            if not nl:
                post(ex, o, "in one message", len(o.gh["sent"]) == 1)
            pos = BV(0, 64)
            for n, b in o.gh["sent"]:
                # b is byte k of this message, i.e. byte pos + k of what is transmitted
                want = z3.If(pos + k == L, BV(10, 8), c.text) if nl else c.text
                first = z3.Or(pos == 0, pos + k == L)
                post(ex, o, "byte by byte", z3.Implies(z3.ULT(k, n), z3.And(first, b == want)))
                pos = pos + n
        canary_any(ex, outs, fn)
    return f


VALS = {"o_str": "p", "o_byte": 8, "o_int": 32, "o_uint": 32, "o_long": 64, "o_ulong": 64, "o_ll": 64, "o_ull": 64, "o_prec": 32, "o_bytes": "pn"}


def t_value(ex):
    for fn, kind in VALS.items():
        c = text(ex)
        d = ex.d
        X = opaque(c, "value")
        v = inv(ex, c.st, "value of " + fn, kind if isinstance(kind, int) else 64)
        args = [X] if kind == "p" else [X, v] if kind == "pn" else [v]
        outs = call(ex, c.st, fn, [c.O] + args)
        for o, _ in outs:
            post(ex, o, fn + ": nothing is transmitted before the end of the message", not o.gh["sent"])
            q = o.gh["ops"]
            post(ex, o, fn + ": appends the value once", len(q) == 1)
            if len(q) == 1:
                flat = []
                for x in q[0]:
                    flat += list(x.parts) if isinstance(x, Packed) and hasattr(x, "parts") else list(x) if isinstance(x, (list, tuple)) else [x]
                good = len(flat) == len(args)
                for x, y in zip(flat, args):
                    e = isat(x, y) if isinstance(y, Ptr) else (d.mk(x, y.size()) == y if not isinstance(x, Ptr) else False)
                    good = b_and(good, e)
                post(ex, o, fn + ": appends exactly the value", good)
        canary_any(ex, outs, fn)


PROPS = {
    "H02": lambda: [("%s:%s" % (b, o), t_recv(b, o), {"ir": b}) for b in ("ard", "esp") for o in ("receive", "until", "between")] +
                   [("%s:send" % b, t_send(b), {"ir": b}) for b in ("ard", "esp")],
    "H05": lambda: [("%s:delay%s" % (b, "-us" if u else ""), t_delay(b, u), {"ir": b}) for b in ("ard", "esp") for u in (False, True)] +
                   [("%s:ticks" % b, t_ticks(b), {"ir": b}) for b in ("ard", "esp")] + [("light", t_light, {"ir": "esp"}), ("deep", t_deep, {"ir": "esp"})],
    "S01": lambda: [("%s:%s" % (b, f), t_flush(f), {"ir": b}) for b in ("ard", "esp") for f in ("o_end", "o_endl")] + [("ard:values", t_value, {"ir": "ard"})],
}
TRUSTED = ["the declarations in stubs/arduino and stubs/esp stand in for the Arduino core's and ESP-IDF's headers",
           "contracts of the platform calls (HardwareSerial, millis/micros/delay; ESP-IDF uart driver, esp_timer, vTaskDelay, esp_sleep)",
           "S01 uses the text output operations at their contract (append to the text / text so far / clear), proved by B01, B02 and B06, "
           "and the packet Send at its contract, proved by H02"]
ASSUMPTIONS = ["two clock readings of one call are less than 2^30 ms apart and the 64-bit time since start stays below 2^62",
               "vTaskDelay(n) waits n tick periods of 10 ms", "waiting loops: partial correctness (termination needs time to pass)",
               "Arduino Stream: a time limit given to readBytes applies to each byte; 0 as a limit means the stream's own limit",
               "ESP32: ReceiveBetween with time limit 0 polls once, ReceiveUntil with time limit 0 waits without limit"]
