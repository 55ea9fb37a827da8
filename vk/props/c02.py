"""A-XDR round trip of common data types."""
from .. import axdr
from ..members import NotModelled, member

RULE = ("random value trees of every common data type (nested to depth 4, element counts around 127/128/255/256), independently encoded; "
        "decoded with random trailing octets, re-encoded, copied, built from contents and from Python values; every declared structure and array type of the library with generated members. "
        "Non-trivial: distinct encodings.")
MODULES = ("types.common_data_types", "")


def all_sub(c):
    out = []
    for s in c.__subclasses__():
        out.append(s)
        out.extend(all_sub(s))
    return out


def from_model(cdt, v):
    """build with the library's python-side constructors"""
    kind, p = v
    t = getattr(cdt, kind)
    if kind in axdr.INTS:
        return t(p)
    match kind:
        case "NullData": return t()
        case "Boolean": return t(p)
        case "BitString": return t(p)
        case "OctetString": return t(p.hex())
        case "VisibleString": return t(p.decode("ascii"))
        case "Utf8String": return t(p.decode())
        case "Bcd": return t(p)
        case "Enum": return t(p)
        case "Array":
            if any(x[0] in ("Array", "Structure") for x in p):
                return None  # members of one python type only
            els = [from_model(cdt, x) for x in p]
            return t(els, type_=type(els[0]) if els else cdt.Unsigned)
        case "Structure":
            if not p:
                return None
            els = [from_model(cdt, x) for x in p]
            if any(e is None for e in els):
                return None
            ns = type("S", (cdt.Structure,), {"__annotations__": {f"f{i}": type(e) for i, e in enumerate(els[:10])}})
            return ns(els) if len(els) <= 10 else None
        case _: return t(bytearray(axdr.contents(v)))


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt
    rng = ctx.sub("values")
    todo = [axdr.gen_simple(rng, k) for k in axdr.SIMPLE for _ in range(ctx.n(25, 400))]
    todo += [axdr.gen_value(rng, rng.choice((1, 2, 3, 4))) for _ in range(ctx.n(1600, 30000))]
    for v in todo:
        enc = axdr.encode(v)
        tail = rng.randbytes(rng.choice((0, 0, 1, 2, 9)))
        ctx.case(enc, sample=(axdr.shape(v), enc.hex()[:60]))
        ctx.count(f"kind:{v[0]}")
        ctx.state(axdr.shape(v))
        with ctx.guard("decode", enc=enc, tail=tail):
            inst, rest = cdt.get_instance_and_pdu_from_value(enc + tail)
            ctx.eq(bytes(inst.TAG), enc[:1], "type", enc=enc)
            ctx.eq(bytes(inst.encoding), enc, "re-encode", "decode then encode changed the octets", enc=enc)
            ctx.eq(bytes(rest), tail, "consumption", "decoder consumed a wrong amount", enc=enc, tail=tail)
            ctx.eq(bytes(inst.contents), axdr.contents(v), "contents", enc=enc)
            want = axdr.python(v)
            if not axdr.has(v, ("Utf8String", "Bcd", "DateTime", "Date", "Time")):
                if axdr.has(v, ("Float32", "Float64")):
                    ctx.eq(repr(inst.decode()), repr(want), "python-value", enc=enc)
                else:
                    got = inst.decode()
                    ctx.check(got == want and type(got) is type(want), "python-value", enc=enc, got=got, want=want)
            elif v[0] == "Utf8String":
                ctx.eq(str(inst), v[1].decode(), "python-value", enc=enc)
            elif v[0] == "Bcd":
                ctx.eq(str(inst), str(v[1]), "python-value", enc=enc)
            # the class itself, given the encoding and a tail
            same, rest = cdt.get_instance_and_pdu(type(inst), enc + tail)
            ctx.eq((bytes(same.encoding), bytes(rest)), (enc, tail), "typed-consumption", enc=enc)
            cp = inst.copy()
            ctx.eq(bytes(cp.encoding), enc, "copy", enc=enc)
            ctx.check(type(cp) is type(inst), "copy-type", enc=enc)
            if v[0] in ("Array", "Structure"):
                ctx.eq(len(inst), len(v[1]), "element-count", enc=enc)
                for i, x in enumerate(v[1][:20]):
                    ctx.eq(bytes(inst[i].encoding), axdr.encode(x), "element", enc=enc, i=i)
            elif v[0] not in ("NullData",):
                if v[0] != "BitString" or len(v[1]) % 8 == 0:
                    ctx.eq(bytes(type(inst)(bytearray(axdr.contents(v))).encoding), enc, "from-contents", enc=enc)
        with ctx.guard("construct", enc=enc):
            b = from_model(cdt, v)
            if b is not None:
                ctx.eq(bytes(b.encoding), enc, "construct", "value built from Python encodes differently", enc=enc)

    # octets and texts of numbers, first element of an enumeration, readable forms
    r2 = ctx.sub("forms")
    for i in range(ctx.n(300, 4000)):
        width = r2.choice((1, 1, 2, 3, 4, 8, 16, 31, 32))
        num = r2.choice((0, 1, 255, 256, 65535, 65536, (1 << 8 * width) - 1, r2.getrandbits(8 * width)))
        want = num.to_bytes(max(1, (num.bit_length() + 7) // 8), "big")
        ctx.case(f"form/{num}")
        with ctx.guard("from-number", num=num):
            ctx.eq(bytes(cdt.OctetString(num).encoding), bytes((9, len(want))) + want, "octets-of-number", num=num)
            x = cdt.OctetString(b"\x09\x01\x00")
            x.set(num)
            ctx.eq(bytes(x.contents), want, "octets-set-number", num=num)
            ctx.eq(bytes(cdt.VisibleString(num).encoding), bytes((10, len(str(num)))) + str(num).encode(), "text-of-number", num=num)
        t = "".join(r2.choice("ABCxyz019-/.йЖ") for _ in range(r2.randrange(12)))
        low = bytes(r2.choice((0, 7, 31)) for _ in range(r2.randrange(3)))
        raw = t.encode("cp1251") + low
        with ctx.guard("readable", raw=raw):
            for v in (cdt.OctetString(bytearray(raw)), cdt.VisibleString(bytearray(raw))):
                ctx.eq(v.to_str(), t + "?" * len(low), "readable-text", type=type(v).__name__, raw=raw)
                ctx.eq(bytes(v.contents), raw, "readable-kept", raw=raw)
            ctx.eq(str(cdt.VisibleString(bytearray(raw))), t + "?" * len(low), "readable-text", raw=raw)
            ctx.eq(cdt.OctetString(bytearray(t.encode("utf-8"))).to_str("utf-8"), t, "readable-encoding", raw=raw)
    for big in (1 << 256, (1 << 300) + 5):
        ctx.rejects(lambda: cdt.OctetString(big), "number-too-long", num=big)
    with ctx.guard("no-value"):
        ctx.eq([bytes(t(None).encoding) for t in (cdt.OctetString, cdt.VisibleString, cdt.Utf8String, cdt.Bcd, cdt.Enum, cdt.Unit)],
               [b"\x09\x00", b"\x0a\x00", b"\x0c\x00", b"\x0d\x00", b"\x16\x00", b"\x16\x01"], "no-value")

    # declared structures and arrays: members generated from the declared member types
    from src.DLMS_SPODES.types import useful_types as ut
    declared = [c for c in dict.fromkeys(all_sub(cdt.Structure) + all_sub(cdt.Array)) if c.__module__.startswith("src.DLMS_SPODES")]
    ctx.count("declared-types", len(declared))
    for c in sorted(declared, key=lambda c: (c.__module__, c.__qualname__)):
        try:
            default = c()
        except Exception:
            ctx.count("declared-without-default")
            continue
        for _ in range(ctx.n(3, 30)):
            try:
                with_enc = member(rng, c, cdt, 0)
            except NotModelled:
                ctx.count("declared-not-modelled")
                break
            tail = rng.randbytes(rng.choice((0, 1, 4)))
            ctx.case(c.__qualname__.encode() + with_enc)
            ctx.count("declared-values")
            with ctx.guard("declared", type=c.__qualname__, enc=with_enc):
                inst, rest = cdt.get_instance_and_pdu(c, with_enc + tail)
                ctx.eq((bytes(inst.encoding), bytes(rest)), (with_enc, tail), "declared-round-trip", type=c.__qualname__, enc=with_enc)
                ctx.eq(bytes(inst.copy().encoding), with_enc, "declared-copy", type=c.__qualname__, enc=with_enc)
        with ctx.guard("declared-default", type=c.__qualname__):
            d = default.encoding
            ctx.eq(bytes(c(d).encoding), bytes(d), "declared-default", type=c.__qualname__)

    ctx.known_finding("non-minimal-length", lambda: cdt.get_instance_and_pdu_from_value(bytes.fromhex("098101aa0f01"))[1] != bytes.fromhex("0f01"))
    ctx.known_finding("compact-array", lambda: cdt.get_instance_and_pdu_from_value(bytes.fromhex("1311020102"))[0].encoding != bytes.fromhex("1311020102"))
    ctx.require("checked:consumption", 1000)
    ctx.require("declared-values", 50)
