"""Assignment is all-or-nothing; callbacks bracket it."""
from .. import axdr

RULE = ("random histories of set() on simple values, arrays and structures: good values in every accepted form, rejected values, vetoing or crashing pre-set callbacks; "
        "the trace of callbacks and the encodings seen before and after are checked online. Non-trivial: distinct (kind, step, value).")
MODULES = ("types.common_data_types",)


class Veto(Exception):
    pass


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt
    rng = ctx.sub("set")
    simple = [k for k in axdr.SIMPLE if k != "NullData"]

    def forms(v):
        kind, p = v
        enc = axdr.encode(v)
        out = [enc, getattr(cdt, kind)(enc)]
        if kind != "BitString":
            out.append(bytearray(axdr.contents(v)))
        if kind in axdr.INTS:
            out += [p, str(p)]
        if kind == "Boolean":
            out += [p, int(p)]
        if kind == "BitString":
            out.append(p)
        if kind == "OctetString":
            out.append(p.hex())
        if kind == "VisibleString":
            out.append(p.decode())
        return out

    def bad_for(kind):
        t = axdr.TAGS[kind]
        other = rng.choice([k for k in simple if k != kind])
        bad = [axdr.encode(axdr.gen_simple(rng, other, False)), b"", object()]
        if kind in axdr.INTS:
            lo, hi = axdr.int_range(kind)
            bad += [hi + 1, lo - 1, "x", bytearray(axdr.INTS[kind][1] + 1)]
        if kind in ("Float32", "Float64"):
            bad += ["zzz", bytearray(3)]
        if kind in ("DateTime", "Date", "Time"):
            bad += ["qwe rty uio", bytes((t,)) + b"\x07"]
        if kind in ("OctetString",):
            bad += ["zz", bytes((t, 5, 1, 2))]
        if kind in ("BitString", "VisibleString", "Utf8String"):
            bad += [bytes((t, 50, 1, 2))]
        if kind == "Bcd":
            bad += [256, -1]
        if kind == "Enum":
            bad += [256, -1]
        return rng.choice(bad)

    for i in range(ctx.n(700, 10000)):
        kind = simple[i % len(simple)]
        v = axdr.gen_simple(rng, kind, False)
        trace = []
        with ctx.guard("simple-history", kind=kind):
            x = getattr(cdt, kind)(axdr.encode(v))
            mode = {"veto": False}

            def pre(new):
                trace.append(("pre", bytes(x.encoding), bytes(new.encoding)))
                if mode["veto"]:
                    raise Veto

            def post(*a):
                trace.append(("post", bytes(x.encoding)))
            with_cb = rng.random() < 0.8
            if with_cb:
                x.register_cb_preset(pre)
                x.register_cb_post_set(post)
            cur, last = axdr.encode(v), v
            for step in range(6):
                trace.clear()
                if rng.random() < 0.2:             # other values of the type have no part in it
                    others = [getattr(cdt, kind)(axdr.encode(axdr.gen_simple(rng, kind, False))), x.copy()]
                    if kind not in ("BitString", "Boolean", "Enum"):
                        others.append(getattr(cdt, kind)(x))
                    for o in others:
                        o.set(axdr.encode(axdr.gen_simple(rng, kind, False)))
                        o.clear()
                    others[1].register_cb_post_set(lambda *a: trace.append("other"))
                    others[1].register_cb_preset(lambda *a: trace.append("other"))
                    ctx.eq((trace, bytes(x.encoding)), ([], cur), "other-values-apart", kind=kind)
                    ctx.count("others")
                what = rng.choice(("good", "good", "bad", "veto"))
                mode["veto"] = what == "veto" and with_cb
                if what == "bad":
                    arg = bad_for(kind)
                    ctx.case(f"{kind}/bad/{arg if not type(arg) is object else 'object'}")
                    try:
                        x.set(arg)
                        ctx.fail("bad-accepted", "an impossible value was accepted", kind=kind, arg=arg, encoding=x.encoding)
                    except (ValueError, TypeError, OverflowError):
                        ctx.count("refused")
                    ctx.eq(bytes(x.encoding), cur, "kept-after-refusal", kind=kind, arg=arg)
                    ctx.check(not any(t[0] == "post" for t in trace), "no-post-after-refusal", kind=kind, trace=trace)
                    continue
                nv = last if rng.random() < 0.25 else axdr.gen_simple(rng, kind, False)      # the same value again is a value set as well
                new = axdr.encode(nv)
                if new == cur:
                    ctx.count("same-again")
                arg = rng.choice(forms(nv))
                ctx.case(f"{kind}/{what}/{show(arg)}")
                if mode["veto"]:
                    try:
                        x.set(arg)
                        ctx.fail("veto-ignored", "pre-set callback raised, the value was set anyway", kind=kind)
                    except Veto:
                        ctx.count("vetoed")
                    ctx.eq(bytes(x.encoding), cur, "kept-after-veto", kind=kind)
                    ctx.eq([t[0] for t in trace], ["pre"], "veto-trace", kind=kind)
                    continue
                x.set(arg)
                ctx.eq(bytes(x.encoding), new, "set", kind=kind, arg=arg)
                if kind == "BitString":
                    ctx.eq(len(x), len(nv[1]), "set-length")
                if with_cb:
                    ctx.eq(trace, [("pre", cur, new), ("post", new)], "callback-trace", kind=kind)
                cur, last = new, nv

    # arrays
    for i in range(ctx.n(500, 6000)):
        kind = rng.choice(simple)
        T = getattr(cdt, kind)
        S = type("S", (cdt.Structure,), {"__annotations__": {"a": cdt.LongUnsigned, "b": T}})
        deep = rng.random() < 0.4
        A = type("A", (cdt.Array,), {"TYPE": S if deep else T})

        def el():
            s = axdr.gen_simple(rng, kind, False)
            return ("Structure", [("LongUnsigned", rng.randrange(65536)), s]) if deep else s
        els = [el() for _ in range(rng.randrange(0, 6))]
        with ctx.guard("array-history", kind=kind, deep=deep):
            x = A(axdr.encode(("Array", els)))
            held = x
            trace = []
            mode = {"veto": False}

            def pre(v):
                trace.append("pre")
                if mode["veto"]:
                    raise Veto

            def post(*a):
                trace.append(("post", bytes(x.encoding)))
            x.register_cb_preset(pre)
            x.register_cb_post_set(post)
            cur = axdr.encode(("Array", els))
            for step in range(5):
                trace.clear()
                what = rng.choice(("good", "bad", "veto"))
                mode["veto"] = what == "veto"
                nels = [el() for _ in range(rng.randrange(0, 6))]
                enc = axdr.encode(("Array", nels))
                if what == "bad":
                    other = rng.choice([k for k in simple if k != kind])
                    nels.insert(rng.randrange(len(nels) + 1), axdr.gen_simple(rng, other, False))
                    arg = axdr.encode(("Array", nels)) if rng.random() < 0.6 else rng.choice((b"\x01\x05" + enc[2:], b"\x02" + enc[1:], b"\x01", b"", 5))
                    if arg == enc:
                        continue
                    ctx.case(f"A{kind}{deep}/bad/{show(arg)}")
                    try:
                        x.set(arg)
                        if not (isinstance(arg, bytes) and bytes(x.encoding) == arg):
                            ctx.fail("array-bad-accepted", "a malformed array was accepted", arg=arg, encoding=x.encoding)
                        cur = bytes(x.encoding)
                        continue
                    except (ValueError, TypeError, AttributeError):
                        ctx.count("array-refused")
                    ctx.eq(bytes(x.encoding), cur, "array-kept-after-refusal", kind=kind, arg=arg)
                    ctx.check(not any(t != "pre" for t in trace), "array-no-post-after-refusal", trace=trace)
                elif what == "veto":
                    ctx.case(f"A{kind}{deep}/veto/{enc.hex()}")
                    try:
                        x.set(enc)
                        ctx.fail("array-veto-ignored")
                    except Veto:
                        ctx.count("array-vetoed")
                    ctx.eq(bytes(x.encoding), cur, "array-kept-after-veto")
                else:
                    arg = rng.choice((enc, A(enc).values[:]))
                    ctx.case(f"A{kind}{deep}/good/{enc.hex()}")
                    x.set(arg)
                    ctx.eq(bytes(x.encoding), enc, "array-set", kind=kind)
                    ctx.eq([t if t == "pre" else t[0] for t in trace], ["pre", "post"], "array-callback-order", trace=trace)
                    ctx.check(trace[-1] == ("post", enc), "array-post-sees-new", trace=trace)
                    cur = enc
                ctx.check(all(type(e) is x.TYPE for e in x), "array-member-type")

    # arrays whose type comes with the first elements: a refused set leaves the type open or as it was
    for i in range(ctx.n(300, 3000)):
        k1, k2 = rng.sample([k for k in simple], 2)
        uniq = rng.random() < 0.7
        A = type("A", (cdt.Array,), {"unique": uniq})
        a = [axdr.gen_simple(rng, k1, False) for _ in range(3)]
        b = [axdr.gen_simple(rng, k2, False) for _ in range(2)]
        a = list({axdr.encode(e): e for e in a}.values())
        b = list({axdr.encode(e): e for e in b}.values())
        ea, eb = axdr.encode(("Array", a)), axdr.encode(("Array", b))
        ctx.case(b"open" + ea + eb)
        with ctx.guard("open-array", kinds=(k1, k2)):
            x = A()
            bad = axdr.encode(("Array", a + a[-1:])) if uniq else axdr.encode(("Array", a + b[:1]))
            ctx.rejects(lambda: x.set(bad), "open-array-refused", kinds=(k1, k2), value=bad)
            ctx.eq((len(x), bytes(x.encoding)), (0, b"\x01\x00"), "open-array-kept", kinds=(k1, k2))
            x.set(eb)
            ctx.eq((bytes(x.encoding), x.TYPE), (eb, getattr(cdt, k2)), "open-array-set", kinds=(k1, k2))
            ctx.check(A.TYPE is None and cdt.Array.TYPE is None, "open-array-class", "one array changed the type of all", kinds=(k1, k2))
            ctx.rejects(lambda: x.set(ea), "open-array-other-type", kinds=(k1, k2))
            ctx.eq((bytes(x.encoding), x.TYPE), (eb, getattr(cdt, k2)), "open-array-kept", kinds=(k1, k2))
            y = A()
            y.set(ea)
            ctx.eq((bytes(y.encoding), bytes(x.encoding)), (ea, eb), "open-arrays-apart", kinds=(k1, k2))
            ctx.count("open-array")

    # structures: the members are set in place
    for i in range(ctx.n(500, 6000)):
        ks = [rng.choice(simple) for _ in range(rng.randrange(1, 6))]
        S = type("S", (cdt.Structure,), {"__annotations__": {f"e{j}": getattr(cdt, k) for j, k in enumerate(ks)}})
        els = [axdr.gen_simple(rng, k, False) for k in ks]
        with ctx.guard("structure-history", kinds=ks):
            x = S(axdr.encode(("Structure", els)))
            members = list(x.values)
            posts = []
            for j, m in enumerate(members):
                m.register_cb_post_set(lambda *a, j=j: posts.append(j))
            for step in range(4):
                posts.clear()
                nels = [e if rng.random() < 0.3 else axdr.gen_simple(rng, k, False) for k, e in zip(ks, els)]
                enc = axdr.encode(("Structure", nels))
                before = bytes(x.encoding)
                if rng.random() < 0.4:
                    bad = rng.choice((enc[:-1] if len(axdr.contents(nels[-1])) else b"\x02", b"\x01" + enc[1:], b"\x02" + bytes((len(ks) + 1,)) + enc[2:], b"", 5))
                    ctx.case(f"S/bad/{show(bad)}/{ks}")
                    try:
                        x.set(bad)
                        ctx.fail("structure-bad-accepted", arg=bad, kinds=ks)
                    except (ValueError, TypeError):
                        ctx.count("structure-refused")
                    ctx.eq(bytes(x.encoding), before, "structure-kept-after-refusal", arg=bad, kinds=ks)
                    ctx.eq(posts, [], "structure-no-post-after-refusal")
                else:
                    arg = rng.choice((enc, S(enc).values[:], bytearray(enc[2:]), tuple(S(enc).values)))
                    ctx.case(f"S/good/{enc.hex()}")
                    x.set(arg)
                    ctx.eq(bytes(x.encoding), enc, "structure-set", kinds=ks)
                    ctx.eq(posts, list(range(len(ks))), "structure-member-callbacks", "each member is set exactly once, in order", kinds=ks)
                    els = nels
                ctx.check(all(a is b for a, b in zip(x.values, members)), "structure-members-in-place")
                for j in range(len(ks)):
                    ctx.check(getattr(x, f"e{j}") is x[j], "structure-names", "a member's name leads to another member", j=j)

    def late_refusal():
        S = type("S", (cdt.Structure,), {"__annotations__": {"a": cdt.Unsigned, "b": cdt.Unsigned}})
        s = S((1, 2))

        def veto(v):
            raise ValueError("veto")
        s.values[1].register_cb_preset(veto)
        try:
            s.set((3, 4))
        except ValueError:
            pass
        return s.decode() != (1, 2)
    ctx.known_finding("structure-late-veto", late_refusal)
    for c, at_least in (("refused", 300), ("vetoed", 100), ("array-refused", 100), ("array-vetoed", 100), ("structure-refused", 100)):
        ctx.require(c, at_least)


def show(a):
    return a.hex() if isinstance(a, (bytes, bytearray)) else (a.encoding.hex() if hasattr(a, "encoding") else str(a)[:60] if not type(a) is object else "object")
