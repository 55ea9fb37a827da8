"""Copies are equal and independent; equality and hashing follow the encoding."""
from .. import axdr

RULE = ("random values of every type (nested), copied, then original or copy mutated at a random leaf, grown or shrunk; pairs compared with the equality of their encodings. Non-trivial: distinct encodings and pairs.")
MODULES = ("types.common_data_types",)


def leaves(x, cdt):
    if isinstance(x, (cdt.Array, cdt.Structure)):
        for e in x.values:
            yield from leaves(e, cdt)
    else:
        yield x


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt
    from src.DLMS_SPODES.types.implementations import structs
    from src.DLMS_SPODES.cosem_interface_classes.association_ln import ver1
    rng = ctx.sub("copy")
    for _ in range(ctx.n(2500, 40000)):
        v = axdr.gen_value(rng, 3, False)
        enc = axdr.encode(v)
        ctx.case(enc)
        with ctx.guard("copy", enc=enc):
            x = cdt.get_instance_and_pdu_from_value(enc)[0]
            y = x.copy()
            ctx.check(y == x and x == y and not (x != y), "copy-equal", enc=enc)
            ctx.check(x is not y, "copy-distinct")
            ctx.eq(hash(x), hash(y), "equal-hash", enc=enc)
            shared = {id(e) for e in leaves(x, cdt)} & {id(e) for e in leaves(y, cdt)}
            ctx.check(not shared, "copy-shares-members", enc=enc)
            a, b = (x, y) if rng.random() < 0.5 else (y, x)
            ls = [e for e in leaves(a, cdt) if not isinstance(e, cdt.NullData)]
            done = False
            if isinstance(a, cdt.Array) and rng.random() < 0.5:
                if len(a) and rng.random() < 0.5:
                    a.pop(0)
                    done = True
                elif a.TYPE is not None and len(a):
                    a.append(a.TYPE(a[0].encoding))
                    done = True
            elif ls:
                e = rng.choice(ls)
                kind = type(e).__name__
                before = e.encoding
                for _ in range(30):
                    nv = axdr.encode(axdr.gen_simple(rng, kind, False))
                    if nv != before:
                        break
                e.set(nv)
                done = nv != before
            if done:
                ctx.count("mutated")
                ctx.eq(bytes(b.encoding), enc, "copy-independent", "changing one changed the other", enc=enc)
                ctx.check(not (a == b), "differs-after-change", enc=enc)
                ctx.eq(hash(a), hash(cdt.get_instance_and_pdu_from_value(bytes(a.encoding))[0]), "hash-after-change", enc=enc, now=bytes(a.encoding))
                ctx.eq(hash(b), hash(cdt.get_instance_and_pdu_from_value(enc)[0]), "hash-after-change-of-other", enc=enc)
            w = axdr.gen_simple(rng, v[0], False) if v[0] not in ("Array", "Structure") else axdr.gen_value(rng, 2, False)
            if v[0] not in ("Array", "Structure"):
                z = cdt.get_instance_and_pdu_from_value(enc)[0]
                g = z.get_copy(axdr.encode(w))
                ctx.eq((bytes(z.encoding), bytes(g.encoding)), (enc, axdr.encode(w)), "get-copy", enc=enc)
                g = z.get_copy(rng.choice((enc, z)) if v[0] in axdr.INTS or v[0] == "OctetString" else enc)      # the same value again
                ctx.check(g is not z and bytes(g.encoding) == enc, "get-copy-same", enc=enc)
                g.set(axdr.encode(w))
                ctx.eq(bytes(z.encoding), enc, "get-copy-same-independent", enc=enc)
            o = cdt.get_instance_and_pdu_from_value(axdr.encode(w))[0]
            z = cdt.get_instance_and_pdu_from_value(enc)[0]
            ctx.eq(z == o, enc == axdr.encode(w), "equality", a=enc, b=axdr.encode(w))
            ctx.check(z == enc and not z == enc + b"\x00" and not z == None, "equality-octets", enc=enc)  # noqa: E711
    # close pairs: same contents under another type, one bit apart, another length
    for _ in range(ctx.n(1500, 20000)):
        kind = rng.choice([k for k in axdr.SIMPLE if k != "NullData"])
        a = axdr.gen_simple(rng, kind, False)
        same_size = {1: ("Integer", "Unsigned", "Bcd", "Enum"), 2: ("Long", "LongUnsigned"), 4: ("DoubleLong", "DoubleLongUnsigned", "Float32"), 8: ("Long64", "Long64Unsigned", "Float64")}
        with ctx.guard("close-pair", kind=kind):
            x = cdt.get_instance_and_pdu_from_value(axdr.encode(a))[0]
            c = bytearray(axdr.contents(a))
            for ks in same_size.values():
                if kind in ks:
                    for k2 in ks:
                        o = getattr(cdt, k2)(bytearray(c))
                        ctx.case(axdr.encode(a) + k2.encode())
                        ctx.eq(x == o, k2 == kind, "types-differ", a=axdr.encode(a), other=k2)
            if kind in axdr.INTS or kind in ("OctetString",) and c:
                c[rng.randrange(len(c))] ^= 1 << rng.randrange(8)
                o = getattr(cdt, kind)(bytearray(c))
                ctx.check(not (x == o) and x != o, "one-bit-apart", a=axdr.encode(a), b=bytes(c))
            if kind == "BitString":
                o = cdt.BitString(a[1] + "0")
                ctx.check(not (x == o), "bit-length-differs", a=a[1])
    # numbers with a scaler: the encoding alone decides
    for _ in range(ctx.n(600, 6000)):
        kind = rng.choice(sorted(axdr.INTS))
        raw = axdr.contents(axdr.gen_simple(rng, kind, False))
        T = getattr(cdt, kind)
        su = rng.choice((None, cdt.ScalUnitType((rng.randint(-5, 5), rng.choice((27, 30, 255))))))
        with ctx.guard("scaled-hash", kind=kind, raw=raw):
            a, b = T(bytearray(raw)), T(bytearray(raw), scaler_unit=su)
            ctx.case(f"scaled/{kind}/{raw.hex()}/{su}")
            ctx.check(a == b and hash(a) == hash(b) and len({a, b}) == 1, "scaled-equal-hash", kind=kind, raw=raw, su=str(su))
            cap = b"\x02\x04\x12" + rng.randbytes(2) + b"\x09\x06" + rng.randbytes(6) + b"\x0f" + bytes((rng.randrange(128),)) + b"\x12" + rng.randbytes(2)
            p, q = structs.CaptureObjectDefinition(cap), structs.CaptureObjectDefinition(cap)
            ctx.check(p == q and hash(p) == hash(q) == hash(p.copy()) and len({p, q}) == 1, "column-equal-hash", enc=cap)
    # made from another value: equal, and no part shared
    for _ in range(ctx.n(600, 6000)):
        ks = [rng.choice([k for k in axdr.SIMPLE if k != "NullData"]) for _ in range(rng.randrange(1, 5))]
        S = type("S", (cdt.Structure,), {"__annotations__": {f"m{j}": getattr(cdt, k) for j, k in enumerate(ks)}})
        In = type("In", (cdt.Structure,), {"__annotations__": {"one": S, "two": cdt.Unsigned}})
        A = type("A", (cdt.Array,), {"TYPE": S})
        parts = [axdr.gen_simple(rng, k, False) for k in ks]
        enc = axdr.encode(("Structure", parts))
        with ctx.guard("made-from", kinds=ks):
            for T, e, first in ((S, enc, lambda y: y), (In, b"\x02\x02" + enc + b"\x11\x05", lambda y: y[0]), (A, b"\x01\x02" + enc * 2, lambda y: y[1])):
                x = T(e)
                if T is A:
                    y = T()
                    y.set(x)
                elif rng.random() < 0.5:
                    y = T(x)
                else:
                    y = T()
                    y.set(x)
                ctx.case(b"from" + e)
                ctx.check(x == y and hash(x) == hash(y), "made-from-equal", enc=e)
                shared = {id(m) for m in leaves(x, cdt)} & {id(m) for m in leaves(y, cdt)}
                ctx.check(not shared, "made-from-shares-members", enc=e)
                j = rng.randrange(len(ks))
                nv = axdr.encode(axdr.gen_simple(rng, ks[j], False))
                a, b = rng.choice(((x, y), (y, x)))
                first(a)[j].set(nv)
                ctx.eq(bytes(b.encoding), e, "made-from-independent", enc=e)
                ctx.eq(hash(a), hash(T(bytes(a.encoding))), "hash-after-change", enc=e)
            # built from values: own members again
            src = [getattr(cdt, k)(axdr.encode(p)) for k, p in zip(ks, parts)]
            many = [S(enc), S(enc)]
            y, z = S(rng.choice((src, tuple(src)))), A()
            z.set(many)
            u = S()
            u.set(src)
            for j, k in enumerate(ks):
                src[j].set(axdr.encode(axdr.gen_simple(rng, k, False)))
                many[1][j].set(axdr.encode(axdr.gen_simple(rng, k, False)))
            ctx.eq((bytes(y.encoding), bytes(u.encoding), bytes(z.encoding)), (enc, enc, b"\x01\x02" + enc * 2), "made-from-members-independent", enc=enc)
            for k, p in zip(ks, parts):
                T = getattr(cdt, k)
                x = T(axdr.encode(p))
                called = []
                x.register_cb_preset(called.append)
                x.register_cb_post_set(lambda: called.append(None))
                x.get_copy(axdr.encode(axdr.gen_simple(rng, k, False)))
                x.copy().set(axdr.encode(axdr.gen_simple(rng, k, False)))
                ctx.check(not called, "copy-has-callbacks-of-original", kind=k)
                x = T(axdr.encode(p))
                y = T(x)
                ctx.check(x == y and x is not y, "made-from-equal", enc=axdr.encode(p))
                nv = axdr.encode(axdr.gen_simple(rng, k, False))
                y.set(nv)
                ctx.eq((bytes(x.encoding), bytes(y.encoding)), (axdr.encode(p), nv), "made-from-independent", enc=axdr.encode(p))
    # names of associations: as octets of an object identifier or as a structure
    for _ in range(ctx.n(150, 1500)):
        oid = b"\x60\x85\x74\x05\x08" + bytes((rng.randrange(128), rng.randrange(8)))
        st = b"\x02\x07\x11\x02\x11\x10\x12\x02\xf4\x11\x05\x11\x08\x11" + oid[5:6] + b"\x11" + oid[6:]
        T = rng.choice((ver1.ContextNameType, ver1.MechanismNameType))
        with ctx.guard("made-from-name", type=T.__name__):
            for e in (b"\x09\x07" + oid, st):
                x = T(e)
                other = bytes((*e[:-1], (e[-1] + 1) % 8))
                y = T(x)
                ctx.case(b"name" + e)
                ctx.check(x == y and hash(x) == hash(y) and bytes(y.encoding) == e, "made-from-equal", enc=e)
                z = T(other)
                z.set(x)
                ctx.eq(bytes(z.encoding), e, "made-from-equal", enc=e)
                ctx.eq(bytes(x.get_copy(T(other)).encoding), other, "made-from-equal", enc=e)
                z[6].set(other[-1])
                ctx.eq((bytes(x.encoding), bytes(y.encoding), bytes(z.encoding)), (e, e, other), "made-from-independent", enc=e)
    ctx.require("mutated", 800)
