"""Versions: text, order, choice of the nearest one."""

RULE = ("versions from small and large numbers with and without patch and suffix, all triples of a pool (order laws), shuffled lists with and without a candidate; texts with missing parts, suffixes and letters. Non-trivial: distinct versions, pairs and lists.")
MODULES = ("version",)


def run(ctx):
    from src.DLMS_SPODES.version import AppVersion
    rng = ctx.sub("version")

    def num():
        return rng.choice((0, 0, 1, 1, 2, 3, 9, 10, 11, 99, 100, 255, 256, rng.randrange(70000)))

    def gen(small=False):
        a, b = (rng.randrange(3), rng.randrange(3)) if small else (num(), num())
        p = None if rng.random() < 0.15 else rng.randrange(4) if small else num()
        add = rng.choice(("", "", "", "d1", "-rc2", "b", " x", "бета", " №2", "-é3.1")) if p is not None else ""
        return a, b, p, add

    def key(v):
        return v[0], v[1], -1 if v[2] is None else v[2]

    def show(v):
        return f"{v[0]}.{v[1]}" + ("" if v[2] is None else f".{v[2]}")
    # numbers which agree in their low octets only
    for i in range(ctx.n(500, 5000)):
        u = [rng.randrange(256) for _ in range(3)]
        w = list(u)
        w[rng.randrange(3)] += rng.choice((128, 256, 65536, 1 << 32))
        ctx.case((tuple(u), tuple(w)))
        with ctx.guard("version-far", u=u, w=w):
            a, b = AppVersion(*u), AppVersion(*w)
            ctx.eq((a == b, a < b, b < a), (False, True, False), "far-apart", u=u, w=w)
    for i in range(ctx.n(6000, 60000)):
        u, w = gen(i % 2), gen(i % 2)
        if rng.random() < 0.2:
            w = u
        ctx.case((u, w))
        with ctx.guard("version", u=u, w=w):
            a, b = AppVersion(*u), AppVersion(*w)
            ctx.eq((a.major, a.minor, a.patch, a.additional), u, "parts")
            ctx.eq(str(a), show(u), "text", v=u)
            ctx.eq(a.report(), show(u) + (f" <{u[3]}>" if u[3] else ""), "report", v=u)
            ctx.eq((a > b, a >= b, a < b, a <= b), (key(u) > key(w), key(u) >= key(w), key(u) < key(w), key(u) <= key(w)), "order", u=u, w=w)
            ctx.eq((a == b, a != b), (u == w, u != w), "equality", u=u, w=w)
            if u == w:
                ctx.eq(hash(a), hash(b), "hash", u=u)
            c = AppVersion.from_str(show(u) + u[3])
            ctx.eq((c.major, c.minor, c.patch, c.additional), u, "from-text", text=show(u) + u[3])
            ctx.check(c == a and hash(c) == hash(a), "text-round-trip", v=u)
            ctx.check(eval(repr(a), {"AppVersion": AppVersion}) == a, "repr", v=u)
    for text, want in (("", (0, 0, 0)), ("1", (0, 0, 0)), ("a.b.c", (0, 0, 0)), ("1.x.2", (0, 0, 0)), ("x.1.2", (0, 0, 0)), ("1.2.", (1, 2, 0)), ("1.2.rc", (1, 2, 0)), ("a.b", (0, 0, None)),
                       ("1.4.15", (1, 4, 15)), ("01.02.03", (1, 2, 3)), ("1.2.3.4", (1, 2, 3)), ("-1.2.3", (0, 0, 0))):
        ctx.case(text)
        with ctx.guard("odd-text", text=text):
            v = AppVersion.from_str(text)
            ctx.eq((v.major, v.minor, v.patch), want, "odd-text", text=text)
    for i in range(ctx.n(4000, 40000)):
        me = gen(True)
        pool = [gen(True) for _ in range(rng.choice((0, 1, 2, 5, 9)))]
        rng.shuffle(pool)
        ctx.case(("nearest", me, tuple(pool)))
        with ctx.guard("nearest", me=me, pool=pool):
            vs = [AppVersion(*p) for p in pool]
            got = AppVersion(*me).select_nearest(vs)
            fit = [key(p) for p in pool if p[:2] == me[:2] and key(p) <= key(me)]
            if not fit:
                ctx.eq(got, None, "nearest-none", me=me, pool=pool)
                ctx.count("nearest:none")
            elif ctx.check(got is not None, "nearest-missing", me=me, pool=pool):
                ctx.eq((got.major, got.minor, -1 if got.patch is None else got.patch), max(fit), "nearest", me=me, pool=pool)
                ctx.check(any(got is v for v in vs), "nearest-of-the-variants")
                ctx.count("nearest:some")
            ctx.eq([(v.major, v.minor, v.patch, v.additional) for v in vs], pool, "variants-kept")
            ordered = sorted(vs)
            ctx.eq([key((v.major, v.minor, v.patch)) for v in ordered], sorted(map(key, pool)), "sorted", pool=pool)
    ctx.require("nearest:some", 500)
    ctx.require("nearest:none", 500)
