"""Contracts of the hardware back ends: SPI (H01), I2C, pins and chip select (H03), resources (H04), opening and analog reads (H06).

The Arduino core and ESP-IDF are given by contracts; the code under proof is the real arduino/ and esp32-esp-idf/ sources."""
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.loops import Cand
from irv.verify import call, query, post, canary, canary_any

HARNESS = {"ard": ("h_ard.cpp", ["-I@VERIF@/stubs/arduino"]), "esp": ("h_esp.cpp", ["-I@VERIF@/stubs/esp"])}
FLAGS = []
BV = z3.BitVecVal
MAXDMA = 4092


def tru(v):
    return z3.BoolVal(bool(v)) if isinstance(v, int) else v


def bit(v):
    """a boolean result"""
    return tru(v) if isinstance(v, int) or z3.is_bool(v) else v != 0


class C:
    pass


def one(outs):
    if len(outs) != 1:
        raise Unsupported("forks")
    return outs[0][0]


def inv(ex, st, name, w):
    v = z3.BitVec(name, w)
    ex.inputs[name] = v
    return v


def begin(ex):
    c = C()
    c.ex, c.d = ex, ex.d
    ex.inputs = {}
    ex.no_merge = True
    c.st = State()
    ex.cur = c.st
    ex.loop_hints = [lambda ex, L: hints(c, L)]
    c.ghosts, c.consts = [], []     # ghost counters and the totals they may add up to with a local
    c.bytefacts = []                # (region, k, position, view -> condition): bytes below a ghost position are final
    return c


def obj(c, kind, ctor, *args):
    """a real object, made by its real constructor"""
    R = c.ex.region_of_type(c.st, kind, c.ex.m.globals["g_" + kind].vty)
    p = Ptr(R.id, 0)
    c.st = one(call(c.ex, c.st, ctor, [p] + list(args)))
    c.ex.cur = c.st
    return p


def opaque(c, name, n=16):
    return Ptr(c.ex.new_region(c.st, name, n).id, 0)


def isat(p, q):
    """pointer p is pointer q"""
    if not isinstance(p, Ptr) or p.r != q.r:
        return False
    return True if same(p.off, q.off) else (z3.BitVecVal(p.off, 64) if isc(p.off) else p.off) == (z3.BitVecVal(q.off, 64) if isc(q.off) else q.off)


def null(p):
    if not isinstance(p, Ptr) or p.r is not None:
        return False
    return p.off == 0


def rsz(v, w):
    if v.size() == w:
        return v
    return z3.ZeroExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v)


def hints(c, L):
    """relations between the loop's variables and the ghost counters (each one is checked, none is assumed)"""
    ex, d, out = c.ex, c.d, []

    def gh(v, g):
        x = v.st.gh[g]
        return d.mk(x, 64) if isc(x) else x
    for l in L.loci:
        if l.kind == "gh" or l.kind == "log" or l.vk not in ("int", "ptr") or (l.vk == "int" and l.w < 8):
            continue
        w = 64 if l.vk == "ptr" else l.w
        for g in c.ghosts:
            out.append(Cand("%s == %s" % (lname(l), g), lambda v, l=l, g=g, w=w: d.mk(v.num(l), w) == rsz(gh(v, g), w)))
            for N in c.consts:
                out.append(Cand("%s + %s == total" % (lname(l), g), lambda v, l=l, g=g, w=w, N=N:
                                d.mk(v.num(l), w) + rsz(gh(v, g), w) == rsz(N, w)))
        for N in c.consts:
            out.append(Cand("%s <= total" % lname(l), lambda v, l=l, w=w, N=N: z3.ULE(d.mk(v.num(l), w), rsz(N, w))))
    for g in c.ghosts:
        out.append(Cand("%s == iterations" % g, lambda v, g=g: gh(v, g) == rsz(d.mk(v.t, 64), 64)))
        for N in c.consts:
            out.append(Cand("%s <= total" % g, lambda v, g=g, N=N: z3.ULE(gh(v, g), rsz(N, 64))))
    for rid, k, pos, f in c.bytefacts:
        out.append(Cand("bytes below %s" % pos, lambda v, rid=rid, k=k, pos=pos, f=f:
                        z3.Implies(z3.ULT(k, gh(v, pos)), d.mk(v.byte(rid, k), 8) == f(v))))
    return out


def lname(l):
    return "%s%s" % (l.kind, getattr(l.key, "id", l.key))


def answers(ex, s, name, w, ok=0):
    """the platform may succeed or fail"""
    t = s.fork()
    e = z3.BitVec(fresh_name(name), w)
    t.add(e != ok)
    return [(s, BV(ok, w)), (t, e)]


# ---------------------------------------------------------------- H01
def spi(ex, backend, mode, dev):
    """mode: send, recv, both; dev: through SpiDevice (16-bit length) or SpiBus::transfer (32-bit)"""
    c = begin(ex)
    d = ex.d
    c.w = 16 if dev or backend == "ard" else 32
    n = c.n = inv(ex, c.st, "length", c.w)
    n64 = z3.ZeroExt(64 - c.w, n)
    c.TX = ex.new_region(c.st, "sent", n64, writable=False)
    c.RX = ex.new_region(c.st, "received", n64)
    c.WIRE = ex.new_region(c.st, "wire", n64, writable=False)
    c.tx = Ptr(c.TX.id, 0) if mode != "recv" else Ptr(None, 0)
    c.rx = Ptr(c.RX.id, 0) if mode != "send" else Ptr(None, 0)
    k = c.k = z3.BitVec("k", 64)
    c.st.add(z3.ULT(k, n64))if False else None
    ex.K = {c.RX.id: [k], c.WIRE.id: [k], c.TX.id: [k]}
    c.st.gh["moved"] = BV(0, 64)
    c.ghosts, c.consts = ["moved"], [n64]
    c.mode, c.n64 = mode, n64
    wire = lambda s: ex.d.mk(ex.read(s, c.WIRE, k, 1, "int"), 8)
    c.wire = wire
    if mode != "send":
        c.bytefacts = [(c.RX.id, k, "moved", lambda v: wire(v.st))]
    return c


def moved(c, s, cnt, tx, rx, inst):
    """cnt bytes go over the bus; the buffers handed to the platform must be the caller's next bytes"""
    ex, d = c.ex, c.d
    g = s.gh["moved"]
    cnt = d.mk(cnt, 64)
    ex.oblige(s, z3.And(z3.ULE(cnt, c.n64), z3.ULE(g, c.n64 - cnt)), "moves no more bytes than requested", inst)
    if c.mode != "recv":
        ex.oblige(s, isat(tx, Ptr(c.tx.r, g)), "sends the caller's next bytes", inst)
    if c.mode != "send":
        ex.oblige(s, isat(rx, Ptr(c.rx.r, g)), "receives into the caller's next bytes", inst)
    else:
        ex.oblige(s, null(rx), "receives nothing when only sending", inst)
    return g, cnt


def t_spi(backend, mode, dev):
    def f(ex):
        c = spi(ex, backend, mode, dev)
        d = ex.d
        if backend == "esp":
            DEV, n_ = opaque(c, "device"), inv(ex, c.st, "bus", 32)
            bus = obj(c, "spibus", "mk_spibus", n_)
            H = {"dev": DEV}
            plat_spi(c, H)
            sck, miso, mosi = [opaque(c, x, 8) for x in ("sck", "miso", "mosi")]
            for p in (sck, miso, mosi):
                c.st = one(call(ex, c.st, "mk_pindef", [p, z3.BitVec(fresh_name("pin"), 8)]))
            c.st.gh["bus"], c.st.gh["added"], c.st.gh["ok"] = 0, 0, True
            outs = [(o, v) for o, v in call(ex, c.st, "w_spi_init", [bus, sck, miso, mosi, z3.BitVec("frequency", 32), z3.Bool("half")])
                    if o.gh["added"] == 1]
            if not outs:
                raise Unsupported("the bus cannot be initialised")
            c.st = outs[0][0]

            def transmit(ex, s, a, inst):
                ex.oblige(s, isat(a[0], DEV), "uses the bus's own device", inst)
                ex.oblige(s, s.gh["failed"] is False, "a failed transfer goes no further", inst)
                L, R = [d.mk(query(ex, s, x, [a[1]]), 64) for x in ("t_len", "t_rxlen")]
                tx, rx = [query(ex, s, x, [a[1]]) for x in ("t_tx", "t_rx")]
                bits = R if mode == "recv" else L
                ex.oblige(s, bits & 7 == 0, "transfers whole bytes", inst)
                if mode == "both":
                    ex.oblige(s, z3.Or(R == L, R == 0), "receives as many bytes as it sends", inst)
                if mode == "recv":
                    ex.oblige(s, null(tx), "sends nothing when only receiving", inst)
                    ex.oblige(s, L == 0, "sends nothing when only receiving (length)", inst)
                if mode == "send":
                    ex.oblige(s, R == 0, "receives nothing when only sending (length)", inst)
                cnt = z3.LShR(bits, 3)
                ex.oblige(s, z3.And(z3.ULE(cnt, MAXDMA), cnt != 0), "respects the transfer limit", inst)
                g, cnt = moved(c, s, cnt, tx, rx, inst)
                t = s.fork()
                t.gh["failed"] = True
                e = z3.BitVec(fresh_name("error"), 32)
                t.add(e != 0)
                if mode != "send":
                    ex.memcopy(s, rx, Ptr(c.WIRE.id, g), cnt, inst, True)
                s.gh["moved"] = g + cnt
                return [(s, BV(0, 32)), (t, e)]
            ex.contracts += [(r"^spi_device_(polling_)?transmit$", transmit)]
            c.st.gh["failed"] = False
        else:
            SP = opaque(c, "spi")
            bus = obj(c, "spibus", "mk_spibus", SP, z3.BitVec("frequency", 32))
            c.st.gh["open"], c.st.gh["count"] = False, 0

            def opn(ex, s, a, inst):
                ex.oblige(s, isat(a[0], SP) and not s.gh["open"] and s.gh["count"] == 0, "one bus transaction", inst)
                s.gh["open"], s.gh["count"] = True, s.gh["count"] + 1
                return [(s, None)]

            def cls(ex, s, a, inst):
                ex.oblige(s, isat(a[0], SP) and s.gh["open"], "ends the transaction it began", inst)
                s.gh["open"] = False
                return [(s, None)]

            def byte(ex, s, a, inst):
                ex.oblige(s, isat(a[0], SP) and s.gh["open"], "moves bytes inside the transaction", inst)
                g = s.gh["moved"]
                ex.oblige(s, z3.ULT(g, c.n64), "moves no more bytes than requested", inst)
                if mode != "recv":
                    ex.oblige(s, d.mk(a[1], 8) == d.mk(ex.read(s, c.TX, g, 1, "int"), 8), "sends the caller's next byte", inst)
                s.gh["moved"] = g + 1
                return [(s, ex.read(s, c.WIRE, g, 1, "int"))]

            def block(ex, s, a, inst):
                ex.oblige(s, isat(a[0], SP) and s.gh["open"], "moves bytes inside the transaction", inst)
                if mode == "recv":
                    ex.oblige(s, null(a[1]), "sends nothing when only receiving", inst)
                g, cnt = moved(c, s, rsz(d.mk(a[3], 32), 64), a[1], a[2], inst)
                if mode != "send":
                    ex.memcopy(s, a[2], Ptr(c.WIRE.id, g), cnt, inst, True)
                s.gh["moved"] = g + cnt
                return [(s, None)]

            def wblock(ex, s, a, inst):
                return block(ex, s, [a[0], a[1], Ptr(None, 0), a[2]], inst)
            ex.contracts = [(r"^SPIClass::beginTransaction\(", opn), (r"^SPIClass::endTransaction\(", cls),
                            (r"^SPIClass::(transfer|write)\(unsigned char", byte), (r"^SPIClass::transferBytes\(", block), (r"^SPIClass::writeBytes\(", wblock)]
        st = c.st
        if dev:
            dv = obj(c, "spidev", "mk_spidev", bus)
            st = c.st
            fn = {"send": "w_spi_send", "recv": "w_spi_recv", "both": "w_spi_both"}[mode]
            args = [dv] + {"send": [c.tx], "recv": [c.rx], "both": [c.tx, c.rx]}[mode] + [c.n]
        else:
            fn, args = "w_spi_transfer", [bus, c.tx, c.rx, c.n]
        outs = call(ex, st, fn, args)
        for o, v in outs:
            if backend == "esp" and o.gh["failed"] is not False:
                post(ex, o, "a platform failure is reported", z3.Implies(tru(o.gh["failed"]), z3.Not(bit(v))))
            failed = tru(o.gh.get("failed", False))
            post(ex, o, "succeeds when the platform does not fail", z3.Or(failed, bit(v)))
            post(ex, o, "moves every requested byte", z3.Or(failed, o.gh["moved"] == c.n64))
            if backend == "ard":
                post(ex, o, "one complete bus transaction", o.gh["count"] == 1 and not o.gh["open"])
            if mode != "send":
                post(ex, o, "byte k received is stored at the caller's index k", z3.Implies(
                    z3.And(z3.Not(failed), z3.ULT(c.k, c.n64)), ex.d.mk(ex.read(o, c.RX, c.k, 1, "int"), 8) == c.wire(o)))
        canary_any(ex, outs, fn)
    return f


def t_spi_uninit(ex):
    c = begin(ex)
    n = inv(ex, c.st, "length", 32)
    bus = obj(c, "spibus", "mk_spibus", inv(ex, c.st, "bus", 32))
    T, R = opaque(c, "tx"), opaque(c, "rx")

    def no(ex, s, a, inst):
        ex.oblige(s, False, "never transfers without a device", inst)
        return []
    ex.contracts = [(r"^spi_", no)]
    c.st.add(n != 0)
    for o, v in call(ex, c.st, "w_spi_transfer", [bus, T, R, n]):
        post(ex, o, "a transfer on a bus that is not initialised fails", z3.Not(bit(v)))


# ---------------------------------------------------------------- H04
def plat_spi(c, H):
    """contracts of the ESP-IDF SPI master: a bus must be initialised to add a device and free of devices to be freed"""
    ex, d = c.ex, c.d

    def init(ex, s, a, inst):
        if "bus" in H:
            ex.oblige(s, d.mk(a[0], 32) == H["bus"], "initialises its own bus", inst)
        if s.gh["bus"]:
            e = z3.BitVec(fresh_name("error"), 32)
            s.add(e != 0)
            s.gh["ok"] = False
            return [(s, e)]
        (s, r), (t, e) = answers(ex, s, "error", 32)
        s.gh["bus"] = 1
        t.gh["ok"] = False
        return [(s, r), (t, e)]

    def add(ex, s, a, inst):
        ex.oblige(s, s.gh["bus"] == 1 and s.gh["added"] == 0, "adds its device to the initialised bus, once", inst)
        (s, r), (t, e) = answers(ex, s, "error", 32)
        s.gh["added"] = 1
        t.gh["ok"] = False
        ex.write(s, ex.regions[a[2].r], a[2].off, 8, H["dev"])
        return [(s, r), (t, e)]

    def remove(ex, s, a, inst):
        ex.oblige(s, s.gh["added"] == 1 and isat(a[0], H["dev"]), "removes the device it added, once", inst)
        (s, r), (t, e) = answers(ex, s, "error", 32)
        s.gh["added"] = 0
        t.gh["ok"] = False
        return [(s, r), (t, e)]

    def free(ex, s, a, inst):
        ex.oblige(s, s.gh["bus"] == 1 and s.gh["added"] == 0, "frees the bus it initialised, once, after its device is gone", inst)
        if "bus" in H:
            ex.oblige(s, d.mk(a[0], 32) == H["bus"], "frees its own bus", inst)
        (s, r), (t, e) = answers(ex, s, "error", 32)
        s.gh["bus"] = 0
        t.gh["ok"] = False
        t.gh["freefail"] = 1
        return [(s, r), (t, e)]
    ex.contracts = [(r"^spi_bus_initialize$", init), (r"^spi_bus_add_device$", add), (r"^spi_bus_remove_device$", remove),
                    (r"^spi_bus_free$", free)]


def t_spi_life(ex):
    """every history of init, release and transfer: all reachable (object, platform) states are explored to a fixpoint"""
    c = begin(ex)
    b = inv(ex, c.st, "bus", 32)
    H = {"bus": b, "dev": opaque(c, "device")}
    plat_spi(c, H)
    sck, miso, mosi = [opaque(c, x, 8) for x in ("sck", "miso", "mosi")]
    for p in (sck, miso, mosi):
        c.st = one(call(ex, c.st, "mk_pindef", [p, z3.BitVec(fresh_name("pin"), 8)]))
    bus = obj(c, "spibus", "mk_spibus", b)
    B = opaque(c, "buffer", 16)
    g = c.st.gh
    g["bus"], g["added"], g["ok"], g["freefail"] = 0, 0, True, 0

    def transmit(ex, s, a, inst):
        ex.oblige(s, s.gh["added"] == 1 and isat(a[0], H["dev"]), "transfers only with the device it added", inst)
        (s, r), (t, e) = answers(ex, s, "error", 32)
        return [(s, r), (t, e)]
    ex.contracts += [(r"^spi_device_(polling_)?transmit$", transmit)]
    base = list(c.st.pc)

    def key(s):
        sl = s.mem[bus.r].slots
        return (s.gh["bus"], s.gh["added"], tuple((o, z, str(v) if not isinstance(v, Ptr) else (v.r, str(v.off))) for o, (z, v) in sorted(sl.items())))
    seen, todo = {}, [c.st]
    ops = {"init": lambda s: call(ex, s, "w_spi_init", [bus, sck, miso, mosi, z3.BitVec("frequency", 32), z3.Bool("half")]),
           "release": lambda s: call(ex, s, "w_spi_release", [bus]),
           "transfer": lambda s: call(ex, s, "w_spi_transfer", [bus, B, Ptr(None, 0), BV(4, 32)]),
           "destroy": lambda s: call(ex, s, "w_spi_dtor", [bus])}
    n = 0
    while todo:
        s = todo.pop()
        k = key(s)
        if k in seen:
            continue
        seen[k] = 1
        n += 1
        if n > 40:
            raise Unsupported("too many object states")
        for op, run in ops.items():
            q = s.fork()
            q.gh["ok"], q.gh["freefail"] = True, 0
            was = (q.gh["bus"], q.gh["added"])
            for o, v in run(q):
                now = (o.gh["bus"], o.gh["added"])
                if op == "init":
                    post(ex, o, "init succeeds exactly when bus and device were set up", bit(v) == z3.BoolVal(bool(o.gh["ok"])))
                    if o.gh["ok"]:
                        post(ex, o, "a successful init owns bus and device", now == (1, 1))
                    elif was == (0, 0):
                        post(ex, o, "a failed init leaves nothing allocated", now == (0, 0) or (now == (1, 0) and o.gh["freefail"] == 1))
                    else:
                        post(ex, o, "a failed init keeps what was there", now == was)
                elif op == "release":
                    post(ex, o, "release succeeds exactly when every step worked", bit(v) == z3.BoolVal(bool(o.gh["ok"])))
                    if o.gh["ok"]:
                        post(ex, o, "a successful release leaves nothing allocated", now == (0, 0))
                elif op == "transfer":
                    post(ex, o, "a transfer changes no resource", now == was)
                    if was[1] == 0:
                        post(ex, o, "a transfer without a device fails", z3.Not(bit(v)))
                else:
                    if o.gh["ok"]:
                        post(ex, o, "destruction leaves nothing allocated", now == (0, 0))
                    continue
                t = o.fork()
                t.pc = list(base)       # nothing learned about platform answers is kept
                todo.append(t)
    ex.vacuity.append((ex.prefix + "an initialised bus is reachable", "sat" if any(k[0] and k[1] for k in seen) else "unsat"))


def t_adc(ex):
    c = begin(ex)
    ex.unroll_max = ex.unroll_sym = 40
    d = ex.d
    pin = inv(ex, c.st, "pin", 8)
    pd = opaque(c, "pindef", 8)
    c.st = one(call(ex, c.st, "mk_pindef", [pd, pin]))
    ap = obj(c, "apin", "mk_apin", pd)
    U = opaque(c, "unit")
    value = z3.BitVec("reading", 32)
    table = [[d.mk(query(ex, c.st, "k_adc", [BV(i, 32), BV(j, 32)]), 32) for j in range(10)] for i in range(2)]
    g = c.st.gh
    g["units"], g["power"], g["ok"], g["read"] = 0, 0, True, 0

    def acq(ex, s, a, inst):
        s.gh["power"] += 1
        return [(s, None)]

    def rel(ex, s, a, inst):
        ex.oblige(s, s.gh["power"] == 1, "releases the power it acquired, once", inst)
        s.gh["power"] -= 1
        return [(s, None)]

    def new(ex, s, a, inst):
        ex.oblige(s, s.gh["units"] == 0, "acquires one unit", inst)
        u = d.mk(query(ex, s, "a_unit", [a[0]]), 32)
        (s, r), (t, e) = answers(ex, s, "error", 32)
        s.gh["units"], s.gh["unit"] = 1, u
        t.gh["ok"] = False
        ex.write(s, ex.regions[a[1].r], a[1].off, 8, U)
        return [(s, r), (t, e)]

    def chan(ex, s, a, inst):
        ex.oblige(s, s.gh["units"] == 1 and isat(a[0], U), "uses the unit it acquired", inst)
        s.gh["channel"] = d.mk(a[1], 32)
        (s, r), (t, e) = answers(ex, s, "error", 32)
        t.gh["ok"] = False
        return [(s, r), (t, e)]

    def read(ex, s, a, inst):
        ex.oblige(s, s.gh["units"] == 1 and isat(a[0], U), "uses the unit it acquired", inst)
        ch = s.gh.get("channel")
        ex.oblige(s, ch is not None and d.mk(a[1], 32) == ch, "reads the channel it configured", inst)
        s.gh["read"] = 1
        (s, r), (t, e) = answers(ex, s, "error", 32)
        ex.write(s, ex.regions[a[2].r], a[2].off, 4, value)
        ex.write(t, ex.regions[a[2].r], a[2].off, 4, z3.BitVec(fresh_name("junk"), 32))
        t.gh["ok"] = False
        return [(s, r), (t, e)]

    def dele(ex, s, a, inst):
        ex.oblige(s, s.gh["units"] == 1 and isat(a[0], U), "releases the unit it acquired, once", inst)
        s.gh["units"] = 0
        return answers(ex, s, "error", 32)
    ex.contracts = [(r"^adc_power_acquire$", acq), (r"^adc_power_release$", rel), (r"^adc_oneshot_new_unit$", new),
                    (r"^adc_oneshot_config_channel$", chan), (r"^adc_oneshot_read$", read), (r"^adc_oneshot_del_unit$", dele)]
    outs = call(ex, c.st, "w_analog", [ap])
    p32 = z3.ZeroExt(24, pin)
    known = z3.Or(*[p32 == x for r in table for x in r])
    for o, v in outs:
        v = d.mk(v, 32)
        post(ex, o, "the unit and its power are released", o.gh["units"] == 0 and o.gh["power"] == 0)
        if o.gh["read"] and o.gh["ok"]:
            post(ex, o, "returns the reading", v == value)
            u, ch = o.gh["unit"], o.gh["channel"]
            post(ex, o, "reads the channel of the pin", z3.Or(*[z3.And(p32 == table[i][j], u == i, ch == j) for i in range(2) for j in range(10)]))
        else:
            post(ex, o, "a failed read returns -1", v == BV((1 << 32) - 1, 32))
            if o.gh["ok"]:
                post(ex, o, "only pins without a converter are refused", z3.Not(known))
    ex.vacuity.append((ex.prefix + "a successful read is reachable", "sat" if any(o.gh["read"] and o.gh["ok"] for o, _ in outs) else "unsat"))


def t_uart_open(defaults):
    """SimpleUartDevice::init: the port is configured, wired and its driver installed exactly as requested, or left alone"""
    def f(ex):
        c = begin(ex)
        d = ex.d
        port, rx, tx, baud = (inv(ex, c.st, n, 32) for n in ("port", "rx", "tx", "baud"))
        want = [inv(ex, c.st, n, 8) for n in ("bits", "parity", "stop", "flow")]
        for v, ok in zip(want, ((0, 1, 2, 3), (0, 2, 3), (1, 2, 3), (0, 1, 2, 3))):
            c.st.add(z3.Or(*[v == k for k in ok]))
        if defaults:
            for v, k in zip(want, (3, 0, 1, 0)):
                c.st.add(v == k)
        names = ("configured", "wired", "installed")
        for n in names:
            c.st.gh[n] = 0
        c.st.gh["ok"], c.st.gh["there"] = True, None

        def here(ex, s, a, inst):
            ex.oblige(s, d.mk(a[0], 32) == port, "asks about the requested port", inst)
            if s.gh["there"] is None:
                s.gh["there"] = z3.Bool(fresh_name("already_installed"))
            return [(s, s.gh["there"])]

        def step(name, check):
            def f(ex, s, a, inst):
                ex.oblige(s, d.mk(a[0], 32) == port, "uses the requested port", inst)
                if s.gh["there"] is not None:
                    ex.oblige(s, z3.Not(s.gh["there"]), "leaves an installed driver alone", inst)
                ex.oblige(s, s.gh[name] == 0, "is %s once" % name, inst)
                check(s, a, inst)
                s.gh[name] += 1
                (s, r), (t, e) = answers(ex, s, "error", 32)
                t.gh["ok"] = False
                return [(s, r), (t, e)]
            return f

        def par(s, a, inst):
            q = lambda n: d.mk(query(ex, s, n, [a[1]]), 32)
            ex.oblige(s, q("u_baud") == baud, "the requested baud rate", inst)
            for n, v in zip(("bits", "parity", "stop", "flow"), want):
                ex.oblige(s, q("u_" + n) == z3.ZeroExt(24, v), "the requested setting: " + n, inst)
            ex.oblige(s, z3.ULT(q("u_thresh"), 128), "the flow control threshold lies within the hardware buffer", inst)
            ex.oblige(s, z3.Implies(z3.Or(want[3] == 1, want[3] == 3), q("u_thresh") != 0), "a threshold for receive flow control", inst)

        def pins(s, a, inst):
            for k, (n, v) in enumerate((("transmit pin", tx), ("receive pin", rx), ("RTS pin", BV((1 << 32) - 1, 32)), ("CTS pin", BV((1 << 32) - 1, 32)))):
                ex.oblige(s, d.mk(a[k + 1], 32) == v, "the requested " + n, inst)

        def inst_(s, a, inst):
            n = d.mk(a[1], 32)
            ex.oblige(s, n > 128, "a receive buffer larger than the hardware's", inst)

        def checked(ex, s, a, inst):
            # ESP_ERROR_CHECK does not return
            return []
        ex.contracts = [(r"^uart_is_driver_installed$", here), (r"^uart_param_config$", step("configured", par)),
                        (r"^uart_set_pin$", step("wired", pins)), (r"^uart_driver_install$", step("installed", inst_)),
                        (r"^esp_check_failed$", checked)]
        args = [port, rx, tx, baud] + ([] if defaults else want)
        outs = call(ex, c.st, "w_uart_open0" if defaults else "w_uart_open", args)
        for o, v in outs:
            ok = bit(d.mk(v, 1)) if not isinstance(v, int) else tru(v)
            there = o.gh["there"] if o.gh["there"] is not None else z3.BoolVal(False)
            done = all(o.gh[n] == 1 for n in names) and o.gh["ok"]
            post(ex, o, "reports success exactly if the port is ready", ok == z3.Or(there, z3.BoolVal(done)))
        ex.vacuity.append((ex.prefix + "a port is opened", "sat" if any(o.gh["installed"] for o, _ in outs) else "unsat"))
    return f


def t_analog_ard(ex):
    c = begin(ex)
    d = ex.d
    pin, val = inv(ex, c.st, "pin", 8), inv(ex, c.st, "reading", 16)
    pd = opaque(c, "pindef", 8)
    c.st = one(call(ex, c.st, "mk_pindef", [pd, pin]))
    ap = obj(c, "apin", "mk_apin", pd)
    c.st.gh["reads"] = 0

    def rd(ex, s, a, inst):
        ex.oblige(s, d.mk(a[0], 8) == pin, "reads the configured pin", inst)
        s.gh["reads"] += 1
        return [(s, val)]
    ex.contracts = [(r"^_?Z?\d*analogReadh?$", rd)]
    for o, v in call(ex, c.st, "w_analog", [ap]):
        post(ex, o, "one reading", o.gh["reads"] == 1)
        post(ex, o, "returns the platform's reading", d.mk(v, 32) == z3.ZeroExt(16, val))
    canary(ex, c.st, "analog")


def t_i2c_test(ex):
    c = begin(ex)
    d = ex.d
    nr, a8 = inv(ex, c.st, "bus", 32), inv(ex, c.st, "address", 8)
    c.st.add(z3.ULT(a8, 128))
    b = obj(c, "i2cbus", "mk_i2cbus", nr)
    L = opaque(c, "link")
    c.st.gh["links"], c.st.gh["seq"], c.st.gh["ret"] = 0, (), None

    def create(ex, s, a, inst):
        ex.oblige(s, s.gh["links"] == 0, "creates one command list", inst)
        s.gh["links"] = 1
        return [(s, L)]

    def delete(ex, s, a, inst):
        ex.oblige(s, s.gh["links"] == 1 and isat(a[0], L), "deletes the command list it created, once", inst)
        s.gh["links"] = 2
        return [(s, None)]

    def rec(tag):
        def h(ex, s, a, inst):
            p = a[1] if tag == "begin" else a[0]
            ex.oblige(s, s.gh["links"] == 1 and isat(p, L), "uses the command list it created", inst)
            s.gh["seq"] += ((tag,) + tuple(a),)
            if tag == "begin":
                (s, r), (t, e) = answers(ex, s, "error", 32)
                s.gh["ret"], t.gh["ret"] = True, False
                return [(s, r), (t, e)]
            return [(s, BV(0, 32))]
        return h
    ex.contracts = [(r"^i2c_cmd_link_create$", create), (r"^i2c_cmd_link_delete$", delete), (r"^i2c_master_start$", rec("start")),
                    (r"^i2c_master_write_byte$", rec("byte")), (r"^i2c_master_stop$", rec("stop")), (r"^i2c_master_cmd_begin$", rec("begin"))]
    outs = call(ex, c.st, "w_i2c_test", [b, a8])
    for o, v in outs:
        post(ex, o, "the command list is released", o.gh["links"] == 2)
        q = o.gh["seq"]
        post(ex, o, "one addressed start-stop exchange", tuple(x[0] for x in q) == ("start", "byte", "stop", "begin"))
        if len(q) == 4:
            post(ex, o, "writes the address", d.mk(q[1][2], 8) == a8 << 1)
            post(ex, o, "on its own bus", d.mk(q[3][1], 32) == nr)
        post(ex, o, "succeeds exactly when the device answered", bit(v) == z3.BoolVal(bool(o.gh["ret"])))
    canary_any(ex, outs, "testAddress")


# ---------------------------------------------------------------- H03
def t_i2c(backend, op):
    def f(ex):
        c = begin(ex)
        d = ex.d
        addr, tmo = inv(ex, c.st, "address", 16), inv(ex, c.st, "maxWait", 32)
        c.st.add(z3.ULT(addr, 128))
        tn, rn = inv(ex, c.st, "txCount", 16), inv(ex, c.st, "rxCount", 16)
        t64, r64 = rsz(tn, 64), rsz(rn, 64)
        TX, RX = ex.new_region(c.st, "sent", t64, writable=False), ex.new_region(c.st, "received", r64)
        WIRE = ex.new_region(c.st, "wire", r64, writable=False)
        k = z3.BitVec("k", 64)
        ex.K = {TX.id: [k], RX.id: [k], WIRE.id: [k]}
        nr = inv(ex, c.st, "bus", 32)
        I = opaque(c, "wire object")
        bus = obj(c, "i2cbus", "mk_i2cbus", nr if backend == "esp" else I)
        dev = obj(c, "i2cdev", "mk_i2cdev", bus, addr, tmo)
        g = c.st.gh
        g["tx"], g["rx"], g["sent"], g["got"] = BV(0, 64), BV(0, 64), "no", "no"
        c.ghosts, c.consts = ["tx", "rx"], [t64, r64]
        wire = lambda s: d.mk(ex.read(s, WIRE, k, 1, "int"), 8)
        c.bytefacts = [(RX.id, k, "rx", lambda v: wire(v.st))]
        # -- Arduino
        def bt(ex, s, a, inst):
            ex.oblige(s, isat(a[0], I) and s.gh["sent"] == "no", "starts one transmission", inst)
            ex.oblige(s, d.mk(a[1], 16) == addr, "addresses the configured device", inst)
            s.gh["sent"] = "open"
            return [(s, None)]

        def wr(ex, s, a, inst):
            ex.oblige(s, isat(a[0], I) and s.gh["sent"] == "open", "writes inside the transmission", inst)
            n = d.mk(a[2], 64)
            ex.oblige(s, z3.And(isat(a[1], Ptr(TX.id, s.gh["tx"])), z3.ULE(n, t64 - s.gh["tx"])), "writes the caller's next bytes", inst)
            t = s.fork()
            r = z3.BitVec(fresh_name("accepted"), 64)
            t.add(z3.ULT(r, n))
            s.gh["tx"] = s.gh["tx"] + n
            t.gh["tx"], t.gh["short"] = t.gh["tx"] + r, True
            return [(s, n), (t, r)]

        def wb(ex, s, a, inst):
            ex.oblige(s, isat(a[0], I) and s.gh["sent"] == "open", "writes inside the transmission", inst)
            ex.oblige(s, z3.And(z3.ULT(s.gh["tx"], t64), d.mk(a[1], 8) == d.mk(ex.read(s, TX, s.gh["tx"], 1, "int"), 8)), "writes the caller's next bytes", inst)
            t = s.fork()
            s.gh["tx"] = s.gh["tx"] + 1
            t.gh["short"] = True
            return [(s, BV(1, 64)), (t, BV(0, 64))]

        def et(ex, s, a, inst):
            ex.oblige(s, isat(a[0], I) and s.gh["sent"] == "open", "ends the transmission it began", inst)
            if len(a) > 1:
                ex.oblige(s, bit(a[1]), "sends now, with a stop", inst)
            t = s.fork()
            r = z3.BitVec(fresh_name("status"), 8)
            t.add(r != 0)
            s.gh["sent"], t.gh["sent"] = "ok", "failed"
            return [(s, BV(0, 8)), (t, r)]

        def rq(ex, s, a, inst):
            ex.oblige(s, isat(a[0], I) and s.gh["got"] == "no", "requests once", inst)
            ex.oblige(s, z3.And(d.mk(a[1], 32) == rsz(addr, 32), d.mk(a[2], 32) == rsz(rn, 32)), "requests the bytes from the configured device", inst)
            if op == "both":
                ex.oblige(s, s.gh["sent"] == "ok" and not s.gh.get("short"), "receives only after a successful send", inst)
            t = s.fork()
            r = z3.BitVec(fresh_name("received"), 64)
            t.add(r != r64)
            s.gh["got"], t.gh["got"] = "ok", "failed"
            return [(s, r64), (t, r)]

        def rd(ex, s, a, inst):
            ex.oblige(s, isat(a[0], I) and s.gh["got"] == "ok", "reads received bytes only", inst)
            p = s.gh["rx"]
            ex.oblige(s, z3.ULT(p, r64), "reads received bytes only (count)", inst)
            s.gh["rx"] = p + 1
            return [(s, rsz(d.mk(ex.read(s, WIRE, p, 1, "int"), 8), 32))]
        # -- ESP-IDF
        def ew(ex, s, a, inst):
            ex.oblige(s, s.gh["sent"] == "no", "sends once", inst)
            ex.oblige(s, z3.And(d.mk(a[0], 32) == nr, d.mk(a[1], 8) == z3.Extract(7, 0, addr)), "addresses the configured device", inst)
            ex.oblige(s, z3.And(tobool(isat(a[2], Ptr(TX.id, 0))), d.mk(a[3], 64) == t64), "sends exactly the caller's bytes", inst)
            (s, r), (t, e) = answers(ex, s, "error", 32)
            s.gh["sent"], t.gh["sent"] = "ok", "failed"
            s.gh["tx"] = t64
            return [(s, r), (t, e)]

        def er(ex, s, a, inst):
            ex.oblige(s, s.gh["got"] == "no", "receives once", inst)
            ex.oblige(s, z3.And(d.mk(a[0], 32) == nr, d.mk(a[1], 8) == z3.Extract(7, 0, addr)), "addresses the configured device", inst)
            ex.oblige(s, z3.And(tobool(isat(a[2], Ptr(RX.id, 0))), d.mk(a[3], 64) == r64), "receives exactly the caller's bytes", inst)
            if op == "both":
                ex.oblige(s, s.gh["sent"] == "ok", "receives only after a successful send", inst)
            (s, r), (t, e) = answers(ex, s, "error", 32)
            s.gh["got"], t.gh["got"] = "ok", "failed"
            ex.memcopy(s, a[2], Ptr(WIRE.id, 0), r64, inst, True)
            s.gh["rx"] = r64
            return [(s, r), (t, e)]
        W = r"^TwoWire::"
        ex.contracts = [(W + r"beginTransmission\(", bt), (W + r"write\(unsigned char const\*", wr), (W + r"write\(unsigned char\)", wb),
                        (W + r"endTransmission\(", et), (W + r"requestFrom\(", rq), (W + r"read\(", rd),
                        (W + r"available\(", lambda ex, s, a, i: [(s, z3.Extract(31, 0, r64 - s.gh["rx"]) if s.gh["got"] == "ok" else z3.BitVec(fresh_name("av"), 32))]),
                        (r"^i2c_master_write_to_device$", ew), (r"^i2c_master_read_from_device$", er)]
        fn, args = {"send": ("w_i2c_send", [Ptr(TX.id, 0), tn]), "recv": ("w_i2c_recv", [Ptr(RX.id, 0), rn]),
                    "both": ("w_i2c_both", [Ptr(TX.id, 0), tn, Ptr(RX.id, 0), rn])}[op]
        outs = call(ex, c.st, fn, [dev] + args)
        for o, v in outs:
            sent = o.gh["sent"] == "ok" and not o.gh.get("short")
            if op != "recv":
                post(ex, o, "one complete transmission", o.gh["sent"] in ("ok", "failed"))
                if sent:
                    post(ex, o, "a successful send has sent every byte", z3.Implies(bit(v), o.gh["tx"] == t64))
            okay = (sent or op == "recv") and (o.gh["got"] == "ok" or op == "send")
            post(ex, o, "succeeds exactly when the platform confirms everything", bit(v) == z3.BoolVal(bool(okay)))
            if op != "send" and okay:
                post(ex, o, "byte k received is stored at the caller's index k", z3.Implies(
                    z3.ULT(k, r64), d.mk(ex.read(o, RX, k, 1, "int"), 8) == wire(o)))
                post(ex, o, "every received byte is taken", o.gh["rx"] == r64)
        canary_any(ex, outs, fn)
    return f


def t_pin(backend):
    def f(ex):
        c = begin(ex)
        d = ex.d
        pin = inv(ex, c.st, "pin", 8)
        pd = opaque(c, "pindef", 8)
        c.st = one(call(ex, c.st, "mk_pindef", [pd, pin]))
        p = obj(c, "pin", "mk_pin", pd)
        c.st.gh["log"] = ()
        nm = lambda v: rsz(d.mk(v, 8 if backend == "ard" else 32), 32)
        level = z3.BitVec("level read", 32)

        def out(ex, s, a, inst):
            s.gh["log"] += (("out", nm(a[0]), nm(a[1])),)
            return [(s, None if backend == "ard" else BV(0, 32))]

        def rd(ex, s, a, inst):
            s.gh["log"] += (("in", nm(a[0])),)
            return [(s, level)]

        def mode(ex, s, a, inst):
            s.gh["log"] += (("mode", nm(a[0]), d.mk(a[1], 8)),)
            return [(s, None)]

        def conf(ex, s, a, inst):
            q = {x: d.mk(query(ex, s, "g_" + x, [a[0]]), 64 if x == "mask" else 32) for x in ("mask", "mode", "up", "down")}
            (s, r), (t, e) = answers(ex, s, "error", 32)
            s.gh["log"] += (("conf", q, True),)
            t.gh["log"] += (("conf", q, False),)
            return [(s, r), (t, e)]
        ex.contracts = [(r"^digitalWrite$", out), (r"^gpio_set_level$", out), (r"^digitalRead$", rd), (r"^gpio_get_level$", rd),
                        (r"^pinMode$", mode), (r"^gpio_config$", conf)]
        p32 = rsz(pin, 32)

        def drives(tag, outs, want):
            for o, _ in outs:
                lg = o.gh["log"]
                post(ex, o, tag + ": drives the pin once", len(lg) == 1 and lg[0][0] == "out")
                if len(lg) == 1 and lg[0][0] == "out":
                    post(ex, o, tag + ": the configured pin", lg[0][1] == p32)
                    post(ex, o, tag + ": the requested level", (lg[0][2] != 0) == want)
        drives("set()", call(ex, c.st, "w_pin_set", [p]), z3.BoolVal(True))
        drives("reset()", call(ex, c.st, "w_pin_reset", [p]), z3.BoolVal(False))
        b = z3.Bool("requested level")
        drives("set(level)", call(ex, c.st, "w_pin_level", [p, b]), b)
        for o, v in call(ex, c.st, "w_pin_check", [p]):
            lg = o.gh["log"]
            post(ex, o, "check: reads the configured pin", z3.And(len(lg) == 1 and lg[0][0] == "in", lg[0][1] == p32) if lg else False)
            post(ex, o, "check: reports its level", bit(v) == (level != 0))
        R = ex.region_of_type(c.st, "cs", ex.m.globals["g_cs"].vty)
        q = Ptr(R.id, 0)
        for o, _ in call(ex, c.st, "w_cs_ctor", [q, p]):
            drives("a new chip selector pulls its pin low", [(o, None)], z3.BoolVal(False))
            o.gh["log"] = ()
            drives("the end of a chip selector lets its pin go high", call(ex, o, "w_cs_dtor", [q]), z3.BoolVal(True))
        inp, pull = z3.Bool("input"), z3.BitVec("pull", 32)
        s = c.st.fork()
        s.add(z3.ULE(pull, 2))
        runs = [("init(direction, pull)", call(ex, s, "w_pin_init", [p, inp, pull]), inp, pull),
                ("init()", call(ex, c.st, "w_pin_init0", [p]), z3.BoolVal(False), BV(0, 32))]
        valid = z3.And(z3.ULT(pin, 40), z3.LShR(BV(0xFF0EFFFFFF, 64), rsz(pin, 64)) & 1 == 1)
        for tag, outs, i, u in runs:
            for o, v in outs:
                lg = o.gh["log"]
                if backend == "ard":
                    post(ex, o, tag + ": sets the mode once", len(lg) == 1 and lg[0][0] == "mode")
                    if len(lg) == 1 and lg[0][0] == "mode":
                        want = z3.If(i, BV(1, 8), BV(3, 8)) | z3.If(u == 1, BV(4, 8), z3.If(u == 2, BV(8, 8), BV(0, 8)))
                        post(ex, o, tag + ": direction and pull of the configured pin", z3.And(lg[0][1] == p32, lg[0][2] == want))
                    post(ex, o, tag + ": succeeds", bit(v))
                elif not lg:
                    post(ex, o, tag + ": refuses only pins that do not exist", z3.Not(valid))
                    post(ex, o, tag + ": reports the refusal", z3.Not(bit(v)))
                else:
                    post(ex, o, tag + ": configures once", len(lg) == 1 and lg[0][0] == "conf")
                    if len(lg) == 1 and lg[0][0] == "conf":
                        x = lg[0][1]
                        post(ex, o, tag + ": the configured pin only", z3.And(valid, x["mask"] == BV(1, 64) << rsz(pin, 64)))
                        post(ex, o, tag + ": direction and pull", z3.And(x["mode"] == z3.If(i, BV(1, 32), BV(2, 32)),
                                                                       x["up"] == z3.If(u == 1, BV(1, 32), BV(0, 32)), x["down"] == z3.If(u == 2, BV(1, 32), BV(0, 32))))
                        post(ex, o, tag + ": reports the platform's answer", bit(v) == z3.BoolVal(lg[0][2]))
            canary_any(ex, outs, tag)
    return f


def t_i2c_init(ex):
    c = begin(ex)
    d = ex.d
    nr, sda, scl, fr = [inv(ex, c.st, x, 32) for x in ("bus", "sda", "scl", "frequency")]
    pa, pc = z3.Bool("pullupSda"), z3.Bool("pullupScl")
    b = obj(c, "i2cbus", "mk_i2cbus", nr)
    c.st.gh["log"] = ()

    def conf(ex, s, a, inst):
        q = {x: query(ex, s, "i_" + x, [a[1]]) for x in ("mode", "sda", "scl", "psda", "pscl", "freq")}
        ex.oblige(s, z3.And(d.mk(a[0], 32) == nr, d.mk(q["mode"], 32) == 1, d.mk(q["sda"], 32) == sda, d.mk(q["scl"], 32) == scl, bit(q["psda"]) == pa,
                            bit(q["pscl"]) == pc, d.mk(q["freq"], 32) == fr), "configures the bus as requested, as a master", inst)
        (s, r), (t, e) = answers(ex, s, "error", 32)
        s.gh["log"] += ("conf",)
        t.gh["log"] += ("conffail",)
        return [(s, r), (t, e)]

    def install(ex, s, a, inst):
        ex.oblige(s, s.gh["log"] == ("conf",), "installs the driver after a successful configuration", inst)
        ex.oblige(s, z3.And(d.mk(a[0], 32) == nr, d.mk(a[1], 32) == 1), "installs its own bus as a master", inst)
        (s, r), (t, e) = answers(ex, s, "error", 32)
        s.gh["log"] += ("install",)
        t.gh["log"] += ("fail",)
        return [(s, r), (t, e)]
    ex.contracts = [(r"^i2c_param_config$", conf), (r"^i2c_driver_install$", install)]
    outs = call(ex, c.st, "w_i2c_init", [b, sda, scl, fr, pa, pc])
    for o, v in outs:
        post(ex, o, "succeeds exactly when both steps did", bit(v) == z3.BoolVal(o.gh["log"] == ("conf", "install")))
    canary_any(ex, outs, "init")


E_ = {"ir": "esp"}
A_ = {"ir": "ard"}
PROPS = {
    "H01": lambda: [("%s:%s%s" % (b, m, "" if dev else "-bus"), t_spi(b, m, dev), {"ir": b})
                    for b, dev in (("ard", True), ("esp", True), ("esp", False)) for m in ("send", "recv", "both")] + [("esp:uninitialised", t_spi_uninit, E_)],
    "H03": lambda: [("%s:i2c-%s" % (b, o), t_i2c(b, o), {"ir": b}) for b in ("ard", "esp") for o in ("send", "recv", "both")] +
                   [("ard:pin", t_pin("ard"), A_), ("esp:pin", t_pin("esp"), E_), ("esp:i2c-init", t_i2c_init, E_)],
    "H04": lambda: [("spi-life", t_spi_life, E_), ("adc", t_adc, E_), ("i2c-test", t_i2c_test, E_)],
    "H06": lambda: [("esp:uart", t_uart_open(False), E_), ("esp:uart-default", t_uart_open(True), E_), ("esp:analog", t_adc, E_), ("ard:analog", t_analog_ard, A_)],
}
TRUSTED = ["the declarations in stubs/arduino and stubs/esp stand in for the Arduino core's and ESP-IDF's headers",
           "contracts of the platform calls (SPIClass, TwoWire, pin functions; ESP-IDF spi_master, i2c, gpio, adc_oneshot): any answer, "
           "including any failure, but bytes are moved as the platform documentation says"]
ASSUMPTIONS = ["an SPI transfer has at least one buffer (both null is excluded)", "I2C addresses are below 128",
               "ESP-IDF SPI transactions carry at most 4092 bytes",
               "destruction: the destructor's single release may be refused by the platform; then what is left is the platform's answer",
               "GpioDefinitions and the pin tables of the stub headers are those of the original ESP32"]
NATIVE = [("n_hw.cpp", ["-DARD", "-I@VERIF@/stubs/arduino"]), ("n_hw.cpp", ["-DESP", "-I@VERIF@/stubs/esp"])]
