"""A choice type takes the alternative its tag (or selector) names, and only a listed one."""
from .. import axdr
from ..core import show

RULE = ("every choice type of the library against its list of alternatives: random encodings of all kinds, every tag 0-255, wrong lengths; then histories on object attributes declared as a choice "
        "and on selector+value pairs. Non-trivial: distinct (choice, kind, contents).")
MODULES = ("types.choices", "types.useful_types")

SIMPLE = {"NullData", "Boolean", "BitString", "DoubleLong", "DoubleLongUnsigned", "OctetString", "VisibleString", "Utf8String", "Bcd", "Integer", "Long", "Unsigned", "LongUnsigned",
          "Long64", "Long64Unsigned", "Enum", "Float32", "Float64", "DateTime", "Date", "Time"}
EXT = {"NullData", "BitString", "DoubleLongUnsigned", "OctetString", "VisibleString", "Utf8String", "Unsigned", "LongUnsigned", "Long64Unsigned"}
REG = EXT | {"DoubleLong", "Integer", "Long", "Long64", "Enum", "Float32", "Float64"}
DEV = {"DoubleLongUnsigned", "OctetString", "VisibleString", "Utf8String", "Unsigned", "LongUnsigned"}


def run(ctx):
    import importlib
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, choices
    from src.DLMS_SPODES.types import useful_types as ut
    from src.DLMS_SPODES import exceptions as exc
    rng = ctx.sub("choice")
    simple = [k for k in axdr.SIMPLE]
    BAD = (ValueError, TypeError, exc.DLMSException, OverflowError, ut.UserfulTypesException)
    lists = {"simple_dt": SIMPLE, "common_dt": SIMPLE | {"Array", "Structure", "CompactArray"}, "complex_dt": {"Array", "Structure", "CompactArray"}, "register": REG,
             "extended_register": EXT, "access_selectors": {"NullData", "Array"}, "device_id_object": DEV}
    tags = dict(axdr.TAGS) | {"CompactArray": 0x13}

    def value(kind):
        if kind in ("Array", "Structure"):
            while True:
                v = axdr.gen_value(rng, 2, False)
                if v[0] == kind and not (kind == "Array" and len(v[1]) == 0):
                    return v
        return axdr.gen_simple(rng, kind, False)

    def good(c, name, kind):
        v = value(kind)
        enc = axdr.encode(v)
        if name == "access_selectors" and kind == "Array":
            enc = axdr.encode(("Array", [("Integer", rng.randrange(1, 5)) for _ in range(rng.randrange(4))]))
        return enc

    for name, listed in lists.items():
        c = getattr(choices, name)
        for t in range(256):
            kind = next((k for k, n in tags.items() if n == t), None)
            ctx.case(f"{name}/tag/{t}")
            if kind in listed:
                if kind in ("Structure", "CompactArray"):
                    continue   # no default value without a description of the members
                with ctx.guard("default-by-tag", choice=name, tag=t):
                    x = c(t)
                    ctx.check(isinstance(x, getattr(cdt, kind)) and x.encoding[0] == t, "default-by-tag", "the default value has another type", choice=name, tag=t, got=type(x).__name__)
                    ctx.check(c.is_key(t), "is-key", choice=name, tag=t)
            else:
                ctx.rejects(lambda: c(t), "tag-not-listed", BAD, choice=name, tag=t)
                ctx.rejects(lambda: c(bytes((t,)) + b"\x01\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"), "encoding-not-listed", BAD, choice=name, tag=t)
                ctx.check(not c.is_key(t), "is-key-not-listed", choice=name, tag=t)
        ctx.rejects(lambda: c(b""), "empty-encoding", BAD, choice=name)
        with ctx.guard("choice-types", choice=name):
            ctx.eq(sorted(t.__name__ for t in c.get_types()), sorted(listed), "choice-types", choice=name)
    for i in range(ctx.n(6000, 60000)):
        name = rng.choice(list(lists))
        c = getattr(choices, name)
        kind = rng.choice(simple + ["Array", "Structure"])
        enc = good(c, name, kind)
        ctx.case(f"{name}/{kind}/{enc.hex()}")
        if kind in lists[name]:
            with ctx.guard("by-encoding", choice=name, kind=kind, encoding=enc):
                x = c(enc)
                ctx.check(isinstance(x, getattr(cdt, kind)), "type-by-encoding", choice=name, kind=kind, got=type(x).__name__)
                ctx.eq(bytes(x.encoding), enc, "encoding-kept", choice=name, kind=kind)
        else:
            ctx.rejects(lambda: c(enc), "kind-not-listed", BAD, choice=name, kind=kind)
    # date/time given either natively or as octet string of its length
    adt = choices.any_date_time
    octets = {12: ("DateTime", cst.OctetStringDateTime), 5: ("Date", cst.OctetStringDate), 4: ("Time", cst.OctetStringTime)}
    for i in range(ctx.n(1500, 20000)):
        size = rng.choice((12, 5, 4))
        kind, T = octets[size]
        body = axdr.contents(axdr.gen_simple(rng, kind))
        ctx.case(f"any/{body.hex()}")
        with ctx.guard("any-date-time", kind=kind, body=body):
            nat = adt(bytes((axdr.TAGS[kind],)) + body)
            ctx.check(type(nat) is getattr(cdt, kind), "native-kind", kind=kind, got=type(nat).__name__)
            ctx.eq(bytes(nat.encoding), bytes((axdr.TAGS[kind],)) + body, "native-encoding")
            enc = b"\x09" + bytes((size,)) + body
            x = adt(enc)
            ctx.check(type(x) is T, "octets-kind", "an octet string of this length is another kind", length=size, got=type(x).__name__)
            ctx.eq(bytes(x.encoding), enc, "octets-encoding")
            ctx.eq(str(x).strip(), str(nat).strip(), "octets-text")
        n = rng.choice([k for k in range(0, 20) if k not in octets])
        ctx.rejects(lambda: adt(b"\x09" + bytes((n,)) + rng.randbytes(n)), "octets-length", BAD, length=n)
        k = rng.choice(sorted(SIMPLE - {"DateTime", "Date", "Time", "OctetString"}))
        ctx.rejects(lambda: adt(axdr.encode(axdr.gen_simple(rng, k, False))), "any-kind", BAD, kind=k)
        ctx.rejects(lambda: adt(b"\x09"), "octets-no-length", BAD)

    # attributes of objects declared as choice
    def obj(cls, version, ln):
        from src.DLMS_SPODES.cosem_interface_classes import collection as col
        return col.Collection().add(class_id=ut.CosemClassId(cls), version=cdt.Unsigned(version), logical_name=cst.LogicalName(ln))
    spots = [(1, 0, "0.0.96.1.250.255", 2, SIMPLE | {"Array", "Structure"}), (3, 0, "1.0.1.8.0.255", 2, REG), (4, 0, "1.0.1.6.0.255", 2, REG), (4, 0, "1.0.1.6.0.255", 4, EXT),
             (5, 0, "1.0.1.4.0.255", 2, REG), (5, 0, "1.0.1.4.0.255", 5, EXT)]
    for i in range(ctx.n(400, 5000)):
        cls, ver, ln, at, listed = rng.choice(spots)
        with ctx.guard("attribute", cls=cls, at=at):
            o = obj(cls, ver, ln)
            kind = cur = None
            for step in range(6):
                if rng.random() < 0.15:
                    o.clear_attr(at)
                    ctx.check(o.get_attr(at) is None, "cleared")
                    kind = cur = None
                    continue
                k = rng.choice(simple + ["Array", "Structure"]) if kind is None or rng.random() < 0.5 else kind
                enc = axdr.encode(value(k))
                ctx.case(f"attr/{cls}.{at}/{enc.hex()}")
                ok = k in listed if kind is None else k == kind
                if ok and kind in ("Structure", "Array"):
                    continue      # the members' types are fixed by the first value
                if ok:
                    o.set_attr(at, enc)
                    kind, cur = k, enc
                else:
                    ctx.rejects(lambda: o.set_attr(at, enc), "attribute-kind", BAD + (AttributeError,), cls=cls, at=at, holds=kind, given=k, encoding=enc)
                got = o.get_attr(at)
                if cur is None:
                    ctx.check(got is None, "attribute-still-empty", cls=cls, at=at)
                else:
                    ctx.eq(bytes(got.encoding), cur, "attribute-value", cls=cls, at=at)
                    ctx.check(isinstance(got, getattr(cdt, kind)), "attribute-type", cls=cls, at=at, got=type(got).__name__, want=kind)
                    ctx.check(issubclass(o.get_attr_data_type(at), getattr(cdt, kind)), "attribute-declared-type", cls=cls, at=at)

    # selector + value
    push = importlib.import_module("src.DLMS_SPODES.cosem_interface_classes.push_setup.ver2")
    sec = importlib.import_module("src.DLMS_SPODES.cosem_interface_classes.security_setup.ver1")

    def os_(n):
        b = rng.randbytes(n)
        return b"\x09" + axdr.length(n) + b

    def odate():
        return b"\x09\x05" + axdr.contents(axdr.gen_simple(rng, "Date"))

    def dlu():
        return b"\x06" + rng.randbytes(4)
    pairs = {
        "RestrictionElement": (push.RestrictionElement, {0: lambda: b"\x00", 1: lambda: b"\x02\x02" + odate() + odate(), 2: lambda: b"\x02\x02" + dlu() + dlu()}),
        "KeyInfoElement": (push.KeyInfoElement, {0: lambda: b"\x16" + bytes((rng.randrange(2),)), 1: lambda: b"\x02\x02\x16\x00" + os_(rng.randrange(30)),
                                                 2: lambda: b"\x02\x02" + os_(rng.randrange(9)) + os_(rng.randrange(30))}),
        "CertificateIdentification": (sec.CertificateIdentification, {0: lambda: b"\x02\x03\x16" + bytes((rng.randrange(3),)) + b"\x16" + bytes((rng.randrange(3),)) + os_(8),
                                                                      1: lambda: b"\x02\x02" + os_(rng.randrange(12)) + os_(rng.randrange(30))}),
    }
    for i in range(ctx.n(900, 12000)):
        name = rng.choice(list(pairs))
        T, alts = pairs[name]
        s = rng.choice(list(alts))
        body = alts[s]()
        enc = b"\x02\x02\x16" + bytes((s,)) + body
        ctx.case(f"pair/{name}/{enc.hex()}")
        with ctx.guard("pair", type=name, encoding=enc):
            x = T(enc)
            ctx.eq(bytes(x.encoding), enc, "pair-encoding", type=name)
            ctx.eq(int(x[0]), s, "pair-selector", type=name)
            ctx.eq(bytes(x.copy().encoding), enc, "pair-copy", type=name)
            ctx.eq(bytes(T(x).encoding), enc, "pair-from-pair", type=name)
            ctx.eq(bytes(T((s, body)).encoding), enc, "pair-from-tuple", type=name)
            ctx.rejects(lambda: x[0].set(rng.choice(list(alts))), "selector-alone", BAD + (RuntimeError,), "the selector was changed without its value", type=name)
            ctx.eq(bytes(x.encoding), enc, "pair-after-refusal", type=name)
            some = rng.choice(((s,), (s, body, body), (s, body, s), ()))
            ctx.rejects(lambda: T(some), "pair-size", BAD + (IndexError,), type=name, given=some)
            other = rng.choice([k for k in alts if k != s])
            if not (name == "KeyInfoElement" and {s, other} == {1, 2}):
                ctx.rejects(lambda: T((other, body)), "pair-tuple-mismatch", BAD, "a value of another selector was accepted", type=name, selector=other, body=body)
            if name != "KeyInfoElement" or i % 50 == 0:
                d = T()
                before = bytes(d.encoding)
                ctx.rejects(lambda: d[0].set(rng.choice([k for k in alts if k != int(d[0])])), "default-selector-alone", BAD + (RuntimeError,), "the selector was changed without its value", type=name)
                ctx.eq(bytes(d.encoding), before, "default-after-refusal", type=name)
            for step in range(3):
                s2 = rng.choice(list(alts))
                body2 = alts[s2]()
                enc2 = b"\x02\x02\x16" + bytes((s2,)) + body2
                how = rng.choice(("bytes", "tuple", "bad"))
                if how == "bad":
                    s3 = rng.choice([k for k in alts if k != s2])
                    bad = b"\x02\x02\x16" + bytes((s3,)) + body2
                    if name == "KeyInfoElement" and {s2, s3} == {1, 2} or bad[4:] == alts[s3]()[:0]:
                        continue
                    ctx.rejects(lambda: x.set(bad), "pair-mismatch", BAD, "a value of another selector was accepted", type=name, encoding=bad)
                    ctx.rejects(lambda: T(bytes((2, 2, 0x16, 200)) + body2), "pair-unknown-selector", BAD + (KeyError,), type=name)
                else:
                    x.set(enc2 if how == "bytes" else (s2, body2))
                    enc = enc2
                ctx.eq(bytes(x.encoding), enc, "pair-set", type=name, how=how)
            # inside a bigger value
            if name == "RestrictionElement":
                e = b"\x02\x06\x12\x00\x03\x09\x06\x01\x00\x01\x08\x00\xff\x0f\x02\x12\x00\x00" + enc + b"\x01\x00"
                tail = bytes((1, 2)) + e + e
                a = push.PushObjectList(tail)
                ctx.eq(bytes(a.encoding), tail, "pair-nested")
                ctx.eq([bytes(el.restriction.encoding) for el in a], [enc, enc], "pair-nested-members")
