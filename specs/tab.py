"""Contracts of the font converter's table writers (X02): every byte and every glyph is written once,
in order, completely.  The text output behind them is represented by its own contracts (B01-B06).

The object's representation between two operations is finite apart from running totals: the reachable
representations are enumerated by executing the operations from the constructed object until no new one
appears, with every written value symbolic; a field that keeps growing is replaced by an arbitrary value
(equal to the ghost total where that relation is inductive).  The enumeration ends by itself, so it is an
inductive invariant over all histories, not a bound."""
import re
import z3
from irv.dom import *
from irv.mem import *
from irv.exec import State
from irv.std_contracts import wide
from irv.verify import call, post, canary

HARNESS = "h_tab.cpp"
FLAGS = ["-iquote", "/verif/stubs/x", "-I/usr/include/freetype2", "-fexceptions", "-fignore-exceptions"]
BV = z3.BitVecVal
NAME = 255          # longest file name the platforms allow


class C:
    pass


def one(outs):
    if len(outs) != 1:
        raise Unsupported("forks")
    return outs[0]


def setup(ex, glob):
    c = C()
    c.ex, d = ex, ex.d
    ex.inputs = {}
    st = State()
    ex.cur = st
    c.O = ex.region_of_type(st, "obj", ex.m.globals[glob].vty)
    c.o = Ptr(c.O.id, 0)
    c.S = ex.new_region(st, "ostream", 8)
    c.T = ex.new_region(st, "text in the buffer", 1 << 16)
    c.N = ex.new_region(st, "font name", 32)
    c.E = ex.new_region(st, "encoding", 32)
    c.text = {c.N.id: ex.new_region(st, "name text", NAME), c.E.id: ex.new_region(st, "encoding text", NAME)}
    c.nlen = z3.BitVec("name_length", 64)
    st.add(z3.ULE(c.nlen, NAME))
    c.conv = ex.new_region(st, "converted character", 8)
    c.ascii = False
    st.gh.update(toks=(), used=0, cap=0, sent=False, fill=32, width=0, strs=((c.N.id, 0, "name"), (c.E.id, 0, "enc")))

    def lookup(s, p):
        for r, o, k in s.gh["strs"]:
            if isinstance(p, Ptr) and p.r == r and same(p.off, o):
                return k
        raise Unsupported("unknown string")

    def bind(s, p, kind):
        if not isinstance(p, Ptr) or not isc(p.off):
            raise Unsupported("string object")
        s.gh["strs"] = tuple(x for x in s.gh["strs"] if x[:2] != (p.r, p.off)) + ((p.r, p.off, kind),)

    def buf(s, p, inst):
        ex.oblige(s, isinstance(p, Ptr) and p.r == c.O.id and same(p.off, s.gh.get("bo")), "uses the object's own text output", inst)

    def add(s, inst, toks, n):
        if n:
            ex.oblige(s, s.gh["used"] + n <= s.gh["cap"], "the line fits in the internal buffer", inst)
            s.gh["used"] += n
            s.gh["sent"] = False
        s.gh["toks"] += tuple(toks)

    def lit(s, p, n=None):
        """the characters of a constant string"""
        out = []
        R = ex.regions[p.r]
        i = 0
        while n is None or i < n:
            v = ex.read(s, R, d.off_add(p.off, i), 1, "int")
            if not isc(v):
                v = z3.simplify(v)
                if not z3.is_bv_value(v):
                    raise Unsupported("text that is not constant")
                v = v.as_long()
            if n is None and v == 0:
                break
            out.append(("c", v))
            i += 1
        return out

    def view(s, n, p):
        """tokens and longest length of a string view"""
        for r, T in c.text.items():
            if isinstance(p, Ptr) and p.r == T.id and same(p.off, 0):
                ok = d.mk(n, 64).eq(c.nlen) and r == c.N.id
                return [("name",) if ok else ("bad",)], NAME
        if isinstance(p, Ptr) and p.r == c.conv.id:
            return [("conv",)], 4
        if not isc(n):
            raise Unsupported("text of unknown length")
        t = lit(s, p, n)
        return t, len(t)

    def bo_ctor(ex, s, a, inst):
        ex.oblige(s, isinstance(a[1], Ptr) and a[1].r == c.O.id, "the buffer belongs to the object", inst)
        if not isc(a[2]) or not isc(a[0].off):
            raise Unsupported("buffer size")
        if isc(a[1].off):
            ex.oblige(s, a[1].off + a[2] <= c.O.size, "the buffer belongs to the object (size)", inst)
        s.gh["cap"], s.gh["bo"] = a[2], a[0].off
        return [(s, None)]

    def bo_put(ex, s, a, inst):
        buf(s, a[0], inst)
        dn = inst.callee.dname
        t = dn[dn.index("operator<<(") + 11:]
        if t.startswith("char const*"):
            k = lit(s, a[1])
            add(s, inst, k, len(k))
        elif t.startswith("std::basic_string_view"):
            add(s, inst, *view(s, a[1], a[2]))
        elif t.startswith("unsigned char"):
            add(s, inst, [("hex", d.mk(a[1], 8))], 2)
        elif t.startswith("char)"):
            v = a[1]
            v = z3.simplify(d.mk(v, 8))
            if not z3.is_bv_value(v):
                raise Unsupported("character that is not constant")
            add(s, inst, [("c", v.as_long())], 1)
        elif t.startswith("embedded::BufferedOut::width"):
            if not isc(a[1]):
                raise Unsupported("width")
            s.gh["width"] = a[1]
        elif t.startswith("embedded::BufferedOut::fill"):
            if not isc(a[1]):
                raise Unsupported("fill")
            s.gh["fill"] = a[1]
        elif t.startswith(("int)", "unsigned int)", "long)", "unsigned long)", "long long)", "unsigned long long)")):
            w = 32 if t.startswith(("int", "unsigned int")) else 64
            v = wide(d, a[1], w, not t.startswith("unsigned"))
            n = max(s.gh["width"], 11 if w == 32 else 20)
            pre = [] if s.gh["fill"] == 32 or s.gh["width"] <= 1 else [("bad",)]
            add(s, inst, pre + [("int", v)], n)
            s.gh["width"] = 0
        else:
            raise Unsupported("BufferedOut::operator<<(" + t)
        return [(s, a[0])]

    def bo_char(ex, s, a, inst):
        buf(s, a[0], inst)
        v = z3.simplify(d.mk(a[1], 8))
        if not z3.is_bv_value(v):
            raise Unsupported("character that is not constant")
        add(s, inst, [("c", v.as_long())], 1)
        return [(s, None)]

    def length(s):
        u = s.gh["used"]
        if u == 0:
            return BV(0, 64)
        v = s.gh.get("len")
        if v is None or v[0] != (u, len(s.gh["toks"])):
            v = ((u, len(s.gh["toks"])), z3.BitVec(fresh_name("length"), 64))
            s.gh["len"] = v
            s.add(z3.And(v[1] != 0, z3.ULE(v[1], u)))
        return v[1]

    def bo_view(ex, s, a, inst):
        buf(s, a[0], inst)
        n = length(s)
        dn = inst.callee.dname
        if "::data(" in dn:
            return [(s, (Ptr(c.T.id, 0), n))]
        return [(s, n if "::size(" in dn else d.mk(s.gh["cap"], 64) if "::capacity(" in dn else
                 Ptr(c.T.id, 0) if "operator unsigned char" in dn else (n, Ptr(c.T.id, 0)))]

    def bo_clear(ex, s, a, inst):
        buf(s, a[0], inst)
        ex.oblige(s, s.gh["used"] == 0 or s.gh["sent"], "no text is dropped", inst)
        s.gh.update(used=0, sent=False, fill=32, width=0)
        return [(s, None)]

    def out(s, inst, p, n):
        """text put into the output stream"""
        if isinstance(p, Ptr) and p.r == c.T.id:
            ex.oblige(s, s.gh["used"] > 0 and not s.gh["sent"], "no text is written twice", inst)
            ex.oblige(s, same(p.off, 0) and d.mk(n, 64).eq(length(s)), "exactly the buffered text is written", inst)
            s.gh["sent"] = True
        else:
            ex.oblige(s, s.gh["used"] == 0 or s.gh["sent"], "text is written in order", inst)
            s.gh["toks"] += tuple(view(s, n, p)[0] if n is not None else lit(s, p))

    def os_write(ex, s, a, inst):
        ex.oblige(s, isinstance(a[0], Ptr) and a[0].r == c.S.id, "writes to the given stream", inst)
        n = z3.simplify(d.mk(a[2], 64))
        if z3.is_bv_value(n) and n.as_long() == 0:
            return [(s, a[0])]
        out(s, inst, a[1], n.as_long() if z3.is_bv_value(n) else n)
        return [(s, a[0])]

    def os_put(ex, s, a, inst):
        ex.oblige(s, isinstance(a[0], Ptr) and a[0].r == c.S.id, "writes to the given stream", inst)
        dn = inst.callee.dname
        if "basic_string_view" in dn:
            n = z3.simplify(d.mk(a[1], 64))
            if not (z3.is_bv_value(n) and n.as_long() == 0):
                out(s, inst, a[2], n.as_long() if z3.is_bv_value(n) else n)
        elif "basic_string<" in dn:
            k = lookup(s, a[1])
            ex.oblige(s, s.gh["used"] == 0 or s.gh["sent"], "text is written in order", inst)
            s.gh["toks"] += ((k,),)
        elif "char const*" in dn:
            out(s, inst, a[1], None)
        elif "char)" in dn:
            v = z3.simplify(d.mk(a[1], 8))
            if not z3.is_bv_value(v):
                raise Unsupported("character that is not constant")
            ex.oblige(s, s.gh["used"] == 0 or s.gh["sent"], "text is written in order", inst)
            s.gh["toks"] += (("c", v.as_long()),)
        else:
            raise Unsupported(dn)
        return [(s, a[0])]

    def content(s, p):
        k = lookup(s, p)
        return (c.nlen, Ptr(c.text[c.N.id].id, 0)) if k == "name" else (z3.BitVec("encoding_length", 64), Ptr(c.text[c.E.id].id, 0)) \
            if k == "enc" else (z3.BitVec(fresh_name("converted"), 64), Ptr(c.conv.id, 0))

    def str_get(ex, s, a, inst):
        dn = inst.callee.dname
        n, p = content(s, a[0])
        return [(s, (n, p) if "operator std::basic_string_view" in dn else
                 n if "::size(" in dn or "::length(" in dn else n == 0 if "::empty(" in dn else p)]

    def str_copy(ex, s, a, inst):
        bind(s, a[0], lookup(s, a[1]))
        return [(s, None)]

    def str_eq(ex, s, a, inst):
        if lookup(s, a[0]) != "enc" or not isinstance(a[1], Ptr):
            raise Unsupported("string comparison")
        t = bytes(v for _, v in lit(s, a[1]))
        if t != b"ASCII":
            raise Unsupported("string comparison with %r" % t)
        return [(s, c.ascii if "operator==" in inst.callee.dname else not c.ascii)]

    def conv_ctor(ex, s, a, inst):
        ex.oblige(s, isinstance(a[1], Ptr) and a[1].r == c.text[c.E.id].id, "converts from the font's encoding", inst)
        ex.oblige(s, bytes(v for _, v in lit(s, a[2])) == b"UTF-8", "converts to UTF-8", inst)
        return [(s, None)]

    def conv(ex, s, a, inst):
        bind(s, a[0], "conv")
        ex.oblige(s, d.icmp("eq", a[2], s.gh.get("code", -1) & 255, 8), "comments the glyph with its own character", inst)
        return [(s, None)]
    none = lambda ex, s, a, inst: [(s, None)]
    SB = r"^std::(__cxx11::)?basic_string<char, std::char_traits<char>, std::allocator<char> ?>::"
    BO = r"^embedded::BufferedOut::"
    ex.contracts = [(BO + r"BufferedOut\(", bo_ctor), (BO + r"operator<<", bo_put), (BO + r"addChar\(", bo_char),
                    (BO + r"(asStringView|size|capacity|data|operator unsigned char)", bo_view), (BO + r"clear\(", bo_clear),
                    (r"^std::basic_ostream<char, std::char_traits<char> ?>::write\(", os_write),
                    (r"^std::basic_ostream<.*>& std::operator<<", os_put),
                    (r"^std::basic_ostream<.*::flush\(", lambda ex, s, a, inst: [(s, a[0])]),
                    (SB + r"(c_str|data|size|length|empty|operator std::basic_string_view)", str_get),
                    (SB + r"basic_string\(std::(__cxx11::)?basic_string", str_copy), (SB + r"~basic_string", none),
                    (r"std::operator[!=]=.*basic_string", str_eq), (r"^EncodingConverter::EncodingConverter\(char", conv_ctor),
                    (r"^EncodingConverter::convert", conv), (r"^EncodingConverter::~EncodingConverter", none)]
    c.st = st
    return c


# ---- what a piece of text must look like ----
WS = (" ", "\n", "\t", "\r")


def text(toks):
    """tokens as a string, values as private-use characters, and the values"""
    out, vals = "", []
    for t in toks:
        if t[0] == "c":
            out += chr(t[1]) if t[1] < 128 else "\ufffe"
        else:
            out += {"int": "\ue000", "hex": "\ue001", "name": "\ue002", "conv": "\ue003"}.get(t[0], "\uffff")
            if t[0] in ("int", "hex"):
                vals.append(t[1])
    return out, vals


INT, HEX, NM, CV = "\ue000", "\ue001", "\ue002", "\ue003"


def check(c, s, pat, vals, what):
    t, got = text(s.gh["toks"])
    ok = re.fullmatch(pat, t) is not None
    post(c.ex, s, what, ok, "" if ok else repr(t))
    if ok:
        for i, (g, w) in enumerate(zip(got, vals)):
            post(c.ex, s, "%s: value %d" % (what, i), g == w)


def slots(c, s):
    return {o: (sz, v) for o, (sz, v) in s.mem[c.O.id].slots.items()}


def explore(c, step, limit):
    """enumerate the representations between operations; step(state, history index) -> state"""
    ex = c.ex
    grow = set()

    def key(s):
        k = []
        for o, (sz, v) in sorted(slots(c, s).items()):
            if o in grow:
                continue
            if isinstance(v, z3.ExprRef) and not isc(v):
                v = z3.simplify(v)
                if z3.is_bv_value(v):
                    v = v.as_long()
                else:
                    grow.add(o)
                    continue
            k.append((o, repr(v)))
        return tuple(k) + (s.gh["r"], s.gh["used"], s.gh["sent"], s.gh["fill"], s.gh["width"], s.gh.get("k"))

    def walk(s, head, final):
        seen, hist, n = {}, [], 0
        while s is not None:
            ex.solver, ex.stack = z3.Solver(), []       # the steps share no facts worth keeping
            key(s)                                      # (first pass: notes the fields that grow)
            k = key(s)
            if k in seen:
                return True
            seen[k] = n
            hist.append({o: repr(v) for o, (sz, v) in slots(c, s).items()})
            if n >= limit:
                for o in hist[-1]:
                    vs = [h.get(o) for h in hist]
                    if len(set(vs)) == len(vs):
                        grow.add(o)
                return False
            s = step(head(s), final)
            n += 1
        return True
    return grow, walk


def run(c, first, step, limit, total, cyclic=False):
    """first: constructed state; total: initial ghost total.  cyclic: the total grows by one per operation; its
    remainder by one of the constants of the object may belong to the representation"""
    if cyclic:
        vs = [v for o, (sz, v) in sorted(slots(c, first).items()) if isinstance(v, int) and not isinstance(v, bool)]
        for p in [1] + sorted({v for v in vs if 2 <= v <= 64}, reverse=True):
            try:
                return run1(c, first, step, limit, total, p)
            except Unsupported as e:
                err = e
        raise err
    return run1(c, first, step, limit, total, 1)


def run1(c, first, step, limit, total, P):
    ex = c.ex
    first = first.fork()
    first.gh["r"] = total % P
    M = z3.BitVec("total", 64) if P == 1 else z3.BitVec("rounds", 64)
    SUM = lambda s: M if P == 1 else M * P + s.gh["r"]
    if P > 1:
        first.add(z3.ULE(M * P, (1 << 30) - P))
        first.add(z3.ULE(M, 1 << 30))
    step0 = step

    def step(s, final):
        o = step0(s, final)
        if o is not None:
            o.gh["r"] = (s.gh["r"] + 1) % P
        return o
    def tot(s, t, sz):
        """the total as a field of the object; its remainder is that of rounds * P + r (below 2^31: no wrap-around)"""
        e = cut(SUM(s), sz)
        if P == 1 or sz < 4:
            return e
        v = z3.BitVec("total%d_%d" % (8 * sz, s.gh["r"]), 8 * sz)
        r = BV(s.gh["r"], 8 * sz)
        t.add(z3.And(v == e, z3.ULE(v, 1 << 30), z3.SRem(v, BV(P, 8 * sz)) == r, z3.URem(v, BV(P, 8 * sz)) == r))
        return v

    cut = lambda t, sz: z3.Extract(8 * sz - 1, 0, t)
    ex.silent += 1
    try:
        grow, walk = explore(c, step, limit)
        for _ in range(6):
            n = len(grow)

            def head(s):
                t = s.fork()
                t.pc = list(first.pc)
                t.gh.update(toks=(), len=None, total=SUM(s))
                for o in grow:
                    sz, v = slots(c, t)[o]
                    ex.write(t, c.O, o, sz, tot(s, t, sz) if P > 1 and sz in (1, 2, 4, 8) else z3.BitVec(fresh_name("o%d" % o), 8 * sz))
                return t
            done = walk(first, head, False)
            if done and len(grow) == n:
                break
        else:
            raise Unsupported("representations keep growing")
    finally:
        ex.silent -= 1
    # which growing fields follow the ghost total
    rel = {o for o in grow if slots(c, first)[o][0] in (1, 2, 4, 8)}
    val = lambda s, o: ex.d.mk(slots(c, s)[o][1], 8 * slots(c, s)[o][0])
    rel = {o for o in rel if ex.valid(first, val(first, o) == cut(BV(total, 64), slots(c, first)[o][0]))}

    def head(s):
        t = s.fork()
        t.pc = list(first.pc)
        t.gh.update(toks=(), total=SUM(s), len=None)
        for o in grow:
            sz, v = slots(c, t)[o]
            ex.write(t, c.O, o, sz, tot(s, t, sz) if o in rel else z3.BitVec(fresh_name("o%d" % o), 8 * sz))
        return t
    while True:
        bad = set()

        def probe(s, final):
            o2 = step(s, False)
            if o2 is not None:
                for o in rel:
                    if not ex.valid(o2, val(o2, o) == cut(o2.gh["total"], slots(c, o2)[o][0])):
                        bad.add(o)
            return o2
        ex.silent += 1
        try:
            g2, walk = explore(c, probe, limit)
            g2 |= grow
            walk(first, head, False)
        finally:
            ex.silent -= 1
        if not bad:
            break
        rel -= bad
    g2, walk = explore(c, step, limit)
    g2 |= grow
    c.ends = []
    if not walk(first, head, True):
        raise Unsupported("representations keep growing")
    c.head = head


def t_hex(ex):
    c = setup(ex, "g_hex")
    first, _ = one(call(ex, c.st, "w_hex_ctor", [c.o, Ptr(c.S.id, 0), Ptr(c.N.id, 0)]))
    check(c, first, r"\s*const\s+uint8_t\s+%sBitmaps\s*\[\s*\]\s*=\s*\{\s*" % NM, [], "opens the table under the font's name")
    first.gh.update(k=0, total=BV(0, 64))

    def step(s, final):
        k = s.gh["k"]
        b = z3.BitVec("byte", 8)
        ex.inputs["byte"] = b
        if final:
            t = s.fork()
            o, _ = one(call(ex, t, "w_hex_dtor", [c.o]))
            check(c, o, r"\s*\}\s*;\s*", [], "closes the table")
            post(ex, o, "all text is handed to the stream", o.gh["used"] == 0 or o.gh["sent"])
        s.add(z3.ULT(s.gh["total"], 1 << 30))
        s.add(s.gh["total"] == 0 if k == 0 else s.gh["total"] != 0)      # k: something was written before
        o, _ = one(call(ex, s, "w_hex_put", [c.o, b]))
        o.gh["total"] = s.gh["total"] + 1
        o.gh["k"] = 1
        if final:
            check(c, o, r"\s*0x%s\s*" % HEX if k == 0 else r"\s*,\s*0x%s\s*" % HEX, [b],
                  "the first byte is written as a hexadecimal number" if k == 0 else "the next byte follows after one comma")
            canary(ex, o, "hex")
            n = one(call(ex, o.fork(), "w_hex_count", [c.o]))
            post(ex, n[0], "counts the bytes", ex.d.mk(n[1], 32) == z3.Extract(31, 0, o.gh["total"]))
        return o
    run(c, first, step, 300, 0, True)


def t_tab(ascii):
    def f(ex):
        c = setup(ex, "g_tab")
        c.ascii = ascii
        first, _ = one(call(ex, c.st, "w_tab_ctor", [c.o, Ptr(c.S.id, 0), Ptr(c.N.id, 0), Ptr(c.E.id, 0)]))
        check(c, first, r"\s*const\s+GFXglyph\s+%sGlyphs\s*\[\s*\]\s*=\s*\{\s*" % NM, [], "opens the table under the font's name")
        codes = list(range(0x20, 0x7F)) + ([] if ascii else list(range(0xA0, 0x100)))
        first.gh.update(k=0, total=BV(0, 64))

        def step(s, final):
            k = s.gh["k"]
            if k == len(codes):
                if final:
                    o, _ = one(call(ex, s.fork(), "w_tab_dtor", [c.o]))
                    check(c, o, r"\s*", [], "nothing follows the table")
                    post(ex, o, "all text is handed to the stream", o.gh["used"] == 0 or o.gh["sent"])
                return None
            D = ex.region_of_type(s, "glyph", ex.m.globals["g_desc"].vty, writable=False)
            p = Ptr(D.id, 0)
            g = []
            for i in range(6):
                s, v = one(call(ex, s, "w_g%d" % i, [p]))
                v = ex.d.mk(v, 32)
                g.append(v)
                ex.inputs[("size in bytes", "width", "height", "advance", "offset x", "offset y")[i]] = v
            T = s.gh["total"]
            ex.inputs["offset so far"] = T
            s.add(z3.ULE(T, 65535))
            s.gh["code"] = codes[k]
            o, _ = one(call(ex, s, "w_tab_put", [c.o, p]))
            o.gh["total"] = T + z3.ZeroExt(32, g[0])
            o.gh["k"] = k + 1
            if final:
                W = lambda v: z3.SignExt(34, v)
                code = codes[k]
                last = code == codes[-1]
                ch = (re.escape(chr(code)) if code < 0x7F else "")
                pat = r"\s*\{\s*I\s*,\s*\{\s*I\s*,\s*I\s*\}\s*,\s*I\s*,\s*\{\s*I\s*,\s*I\s*\}\s*\}\s*".replace("I", INT) + \
                    (r"\}\s*;" if last else ",") + r"\s*//[ \t]*0x%s[ \t]*'%s'[ \t]*\n" % (HEX, ch if code < 0x7F else CV)
                check(c, o, pat, [z3.ZeroExt(2, T), W(g[1]), W(g[2]), W(g[3]), W(g[4]), W(g[5]), BV(code, 8)],
                      "a glyph takes one line with its offset, size, advance, shift and code" + (" and closes the table" if last else ""))
            return o
        run(c, first, step, 300, 0)
        canary(ex, first, "tab")
    return f


PROPS = {"X02": lambda: [("bytes", t_hex), ("glyphs-ascii", t_tab(True)), ("glyphs-8bit", t_tab(False))]}
NATIVE = ("n_tab.cpp", ["-I/usr/include/freetype2", "-lfreetype"])
TRUSTED = ["contracts of BufferedOut (B01-B06), of std::ostream output and of std::string access",
           "contract of EncodingConverter::convert (T02): the character's text, at most 4 bytes"]
ASSUMPTIONS = ["font names have at most 255 characters and the bitmaps at most 65535 bytes (the table format's offsets are 16-bit)",
               "compiled with exception handling ignored"]
