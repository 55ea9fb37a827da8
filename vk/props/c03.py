"""Malformed encodings are refused, never silently shortened."""
from .. import axdr

RULE = ("every strict prefix of random valid encodings (exhaustive for short ones), every type given every other tag, declared sizes and counts larger than the data, "
        "contents of a wrong size, random byte mutations and garbage. Non-trivial: distinct byte strings.")
MODULES = ("types.common_data_types", "")
SUPPORTED = set(axdr.TAGS.values())


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt
    rng = ctx.sub("bad")
    cls = {k: getattr(cdt, k) for k in axdr.TAGS}

    vals = [axdr.gen_simple(rng, k, i % 7 == 0) for k in axdr.SIMPLE for i in range(ctx.n(30, 300))]
    vals += [axdr.gen_value(rng, 3) for _ in range(ctx.n(1200, 15000))]
    for v in vals:
        enc = axdr.encode(v)
        cuts = range(len(enc)) if len(enc) <= 60 else sorted({0, 1, 2, 3, 4, len(enc) - 1, len(enc) - 2} | {rng.randrange(len(enc)) for _ in range(25)})
        for c in cuts:
            part = enc[:c]
            ctx.case(b"cut" + part)
            ctx.count("truncations")
            ctx.rejects(lambda: cdt.get_instance_and_pdu_from_value(part), "truncated", data=part, whole=enc)
            if c:
                ctx.rejects(lambda: cls[v[0]](part), "truncated-typed", data=part, type=v[0])

    # a type never takes another type's encoding
    for k, c in cls.items():
        for t in range(256):
            if t == axdr.TAGS[k]:
                continue
            data = bytes((t,)) + rng.choice((b"\x02\x0f\x01\x0f\x02", b"\x04\x07\xe4\x01\x01", axdr.encode(axdr.gen_simple(rng, k))[1:] if k in axdr.SIMPLE else b"\x01\x0f\x01")) + bytes(16)
            ctx.case(b"tag" + k.encode() + data)
            ctx.rejects(lambda: c(data), "wrong-tag", type=k, data=data)
    for t in range(256):
        if t not in SUPPORTED and t != 19:
            data = bytes((t,)) + bytes(20)
            ctx.case(b"unknown" + data)
            ctx.rejects(lambda: cdt.get_instance_and_pdu_from_value(data), "unknown-tag", data=data)

    # a declared size above what follows
    for _ in range(ctx.n(1500, 20000)):
        k = rng.choice(("OctetString", "VisibleString", "Utf8String", "BitString", "Array", "Structure"))
        have = rng.randrange(0, 140)
        more = have + rng.choice((1, 2, 8, 100, 5000, 1 << 20))
        if k == "BitString":
            more = have * 8 + rng.choice((1, 7, 8, 9, 1000))
            body = rng.randbytes(have)
        elif k in ("Array", "Structure"):
            have = min(have, 20)
            more = have + rng.choice((1, 2, 100))
            body = b"".join(axdr.encode(("Unsigned", rng.randrange(256))) for _ in range(have))
        else:
            body = bytes(rng.randint(0x20, 0x7e) for _ in range(have))
        data = bytes((axdr.TAGS[k],)) + axdr.length(more) + body
        ctx.case(data)
        ctx.rejects(lambda: cdt.get_instance_and_pdu_from_value(data), "overlong-count", data=data, type=k)

    # contents of a wrong size (bytearray is contents)
    fixed = {**{k: w for k, (_, w, _) in axdr.INTS.items()}, "Float32": 4, "Float64": 8, "DateTime": 12, "Date": 5, "Time": 4, "Boolean": 1, "Enum": 1, "Bcd": 1}
    for k, w in fixed.items():
        for n in range(0, 20):
            if n == w:
                continue
            data = bytearray(n)
            ctx.case(f"size/{k}/{n}")
            ctx.rejects(lambda: cls[k](data), "wrong-contents-size", type=k, size=n)

    # a type of fixed size doesn't take a value of another size, whatever it comes in
    for base in ("OctetString", "VisibleString", "Utf8String"):
        for size in (1, 6, 12, 200):
            F = type("F", (cls[base],), {"SIZE": size})
            for n in (0, 1, 5, 6, 7, 12, 13, 200):
                c = b"a" * n
                enc = axdr.encode((base, c)) if base == "OctetString" else bytes((axdr.TAGS[base],)) + axdr.length(n) + c
                for how, src in (("contents", bytearray(c)), ("encoding", enc), ("value", cls[base](enc)), ("octets", cls["OctetString"](bytearray(c)))):
                    ctx.case(f"fixed/{base}/{size}/{n}/{how}")
                    if n == size:
                        with ctx.guard("fixed-size", base=base, size=size, how=how):
                            ctx.eq(bytes(F(src).contents), c, "fixed-size", base=base, size=size, how=how)
                    else:
                        ctx.rejects(lambda: F(src), "fixed-size-other", base=base, size=size, got_size=n, how=how)
                        with ctx.guard("fixed-size", base=base, size=size, how=how):
                            x = F(bytearray(b"b" * size))
                            ctx.rejects(lambda: x.set(src), "fixed-size-set", base=base, size=size, got_size=n, how=how)
                            ctx.eq(bytes(x.contents), b"b" * size, "fixed-size-kept", base=base, size=size, how=how)

    # a structure with a declared layout takes neither another count nor other member types
    ns = {}
    layouts = [("Unsigned",), ("Unsigned", "OctetString"), ("LongUnsigned", "Structure", "Boolean"), ("DateTime", "Enum", "Integer", "Long64")]
    for ks in layouts:
        S = type("S", (cdt.Structure,), {"__annotations__": {f"e{i}": (cls[k] if k != "Structure" else type("T", (cdt.Structure,), {"__annotations__": {"x": cdt.Unsigned, "y": cdt.Integer}})) for i, k in enumerate(ks)}})
        for _ in range(ctx.n(60, 600)):
            els = [("Structure", [("Unsigned", 1), ("Integer", -1)]) if k == "Structure" else axdr.gen_simple(rng, k, False) for k in ks]
            good = ("Structure", els)
            with ctx.guard("declared-structure", enc=axdr.encode(good)):
                ctx.eq(S(axdr.encode(good)).encoding, axdr.encode(good), "declared-structure")
            # neither from a value with more members nor with fewer, nor from contents with something left
            extra = rng.choice([k for k in axdr.SIMPLE])
            more = ("Structure", els + [axdr.gen_simple(rng, extra, False)])
            A = type("A", (cdt.Array,), {"TYPE": S})
            for what in (more, ("Structure", els[:-1])):
                e = axdr.encode(what)
                with ctx.guard("declared-structure", enc=e):
                    v = cdt.Structure(e) if len(what[1]) else None
                    x, a = S(axdr.encode(good)), A()
                ctx.case(b"other count" + e)
                for how, f in (("value", lambda: S(v)), ("set value", lambda: x.set(v)), ("appended value", lambda: a.append(v)), ("contents", lambda: S(bytearray(axdr.contents(what)))), ("sequence", lambda: S(list(v.values)))):
                    if v is not None or how == "contents":
                        ctx.rejects(f, "other-count-of-members", enc=e, how=how)
                ctx.eq((bytes(x.encoding), len(a)), (axdr.encode(good), 0), "other-count-kept", enc=e)
            i = rng.randrange(len(els))
            other = rng.choice([k for k in axdr.SIMPLE if k != els[i][0]])
            for mech, bad in (("structure-short", els[:-1]), ("structure-long", els + [("Unsigned", 1)]),
                              ("structure-member", els[:i] + [axdr.gen_simple(rng, other, False)] + els[i + 1:])):
                data = axdr.encode(("Structure", bad))
                ctx.case(data + mech.encode())
                ctx.rejects(lambda: S(data), mech, data=data, layout=ks)
                if mech == "structure-short":        # with the octets of the missing member behind
                    for f in (S, lambda e: cdt.get_instance_and_pdu(S, e), lambda e: A(b"\x01\x01" + e), lambda e: A(b"\x01\x02" + e + e)):
                        ctx.rejects(lambda: f(data + axdr.encode(els[-1])), "structure-short-followed", data=data, layout=ks)
            ctx.rejects(lambda: S([axdr.encode(e) for e in els[:-1]]), "structure-sequence-short", layout=ks)
    for k in axdr.SIMPLE:
        A = type("A", (cdt.Array,), {"TYPE": cls[k]})
        for _ in range(ctx.n(10, 100)):
            other = rng.choice([x for x in axdr.SIMPLE if x != k])
            els = [axdr.gen_simple(rng, k, False) for _ in range(rng.randrange(0, 4))]
            els.insert(rng.randrange(len(els) + 1), axdr.gen_simple(rng, other, False))
            data = axdr.encode(("Array", els))
            ctx.case(data + k.encode())
            ctx.rejects(lambda: A(data), "array-member", data=data, type=k)
    # untyped arrays hold one type as well
    for _ in range(ctx.n(200, 2000)):
        a, b = rng.sample(axdr.SIMPLE, 2)
        data = axdr.encode(("Array", [axdr.gen_simple(rng, a, False), axdr.gen_simple(rng, b, False)]))
        ctx.case(data)
        ctx.rejects(lambda: cdt.get_instance_and_pdu_from_value(data), "array-mixed", data=data)

    # mutations: refused with ValueError, or a value that stands by its own encoding
    for v in [axdr.gen_value(rng, 3, False) for _ in range(ctx.n(3000, 60000))]:
        enc = bytearray(axdr.encode(v))
        if rng.random() < 0.3:
            enc = bytearray(rng.randbytes(rng.randrange(1, 40)))
        else:
            for _ in range(rng.randrange(1, 4)):
                enc[rng.randrange(len(enc))] = rng.choice((0, 1, 0x7f, 0x80, 0x81, 0xff, rng.randrange(256)))
        enc = bytes(enc)
        if 19 in enc:
            continue  # compact-array: recorded with the round-trip property
        ctx.case(enc)
        ctx.count("mutations")
        try:
            inst, rest = cdt.get_instance_and_pdu_from_value(enc)
            e1 = bytes(inst.encoding)
        except ValueError:
            ctx.count("mutation-refused")
            continue
        except Exception as e:
            ctx.fail("mutation-crash", f"{type(e).__name__}: {e}", data=enc)
            continue
        ctx.count("mutation-accepted")
        ctx.check(len(e1) + len(rest) <= len(enc) and enc.endswith(bytes(rest)), "mutation-invented", "octets were invented or lost", data=enc, encoding=e1, rest=rest)
        with ctx.guard("mutation-stable", data=enc):
            ctx.eq(bytes(cdt.get_instance_and_pdu_from_value(e1)[0].encoding), e1, "mutation-stable", data=enc)
    # texts: a value whose encoding can be read back, or a ValueError
    words = ["", "qwerty", "True", "no", "да", "0", "1", "2", "-", "12x", "0x", "ff f", "١", "1e5", " ", "\x00", "тест"]
    for _ in range(ctx.n(1500, 20000)):
        kind = rng.choice(axdr.SIMPLE)
        text = rng.choice(words) if rng.random() < 0.5 else "".join(rng.choice("01 aFz-.:,+eйT") for _ in range(rng.randrange(8)))
        ctx.case(f"text/{kind}/{text}")
        try:
            e = bytes(getattr(cdt, kind)(text).encoding)
        except ValueError:
            ctx.count("text-refused")
            continue
        except Exception as e:
            if kind == "NullData":
                continue
            ctx.fail("text-crash", f"{type(e).__name__}: {e}", kind=kind, text=text)
            continue
        with ctx.guard("text-stable", kind=kind, text=text):
            ctx.eq(bytes(getattr(cdt, kind)(e).encoding), e, "text-stable", kind=kind, text=text)
    ctx.require("rejected:truncated", 5000)
    ctx.require("mutation-refused", 100)
    ctx.require("mutation-accepted", 100)
