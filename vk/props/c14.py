"""Service-level (useful) types and descriptors."""
import dataclasses

from .. import axdr

SCALE = 1      # dynamic classes make longer runs quadratic
RULE = ("every useful type with edge and random values, each Data alternative, generated sequences of 1..6 members (fixed, variable, optional, nested), descriptors of random objects, selective access descriptors, built independently and read with "
        "random octets after them and truncated at every point. Non-trivial: distinct octet strings.")
MODULES = ("types.useful_types", "types.cosemClassID", "cosem_interface_classes.cosem_interface_class")
INTS = {"Integer8": (1, True), "Integer16": (2, True), "Integer32": (4, True), "Integer64": (8, True),
        "Unsigned8": (1, False), "Unsigned16": (2, False), "Unsigned32": (4, False), "Unsigned64": (8, False)}
FIXED = {"OctetString4": 4, "OctetString5": 5, "OctetString6": 6, "OctetString8": 8, "OctetString12": 12, "CosemObjectInstanceId": 6}
DATA = {0: "Null", 3: "BOOLEAN", 4: "BitString", 5: "Integer32", 6: "Unsigned32", 9: "OctetString", 10: "VisibleString", 12: "UTF8String", 13: "Integer8", 15: "Integer8",
        16: "Integer16", 17: "Unsigned8", 18: "Unsigned16", 20: "Integer64", 21: "Unsigned64", 22: "Unsigned8", 255: "Null"}
SIMPLE = [*INTS, *FIXED, "OctetString", "VisibleString", "UTF8String", "BitString", "Null", "BOOLEAN"]
NAMES = {0: "null-data", 3: "boolean", 4: "bit-string", 5: "double-long", 6: "double-long-unsigned", 9: "octet-string", 10: "visible-string", 12: "utf8-string", 13: "bcd", 15: "integer",
         16: "long", 17: "unsigned", 18: "long-unsigned", 20: "long64", 21: "long64-unsigned", 22: "enum", 255: "dont-care"}


def gen(rng, name):
    """(octets, Python value)"""
    if name in INTS:
        w, s = INTS[name]
        v = axdr.edge_int(rng, -(1 << 8 * w - 1) if s else 0, (1 << 8 * w - (1 if s else 0)) - 1)
        return v.to_bytes(w, "big", signed=s), v
    if name in FIXED:
        b = rng.randbytes(FIXED[name])
        return b, b
    if name == "Null":
        return b"", None
    if name == "BOOLEAN":
        v = rng.random() < 0.5
        return bytes((v,)), v
    n = axdr.sizes(rng, big=rng.random() < 0.1)
    if name == "OctetString":
        b = rng.randbytes(n)
        return axdr.length(n) + b, b
    if name == "VisibleString":
        t = "".join(chr(rng.randrange(128)) for _ in range(n))
        return axdr.length(n) + t.encode(), t
    if name == "UTF8String":
        t = "".join(rng.choice("az0 \u0416\u00e9\u20ac\U0001f600") for _ in range(min(n, 300)))
        b = t.encode("utf-8")
        return axdr.length(len(b)) + b, t
    bits = [rng.randrange(2) for _ in range(n)]
    t = "".join(map(str, bits))
    t += "0" * (-n % 8)
    return axdr.length(n) + (int(t, 2).to_bytes(len(t) // 8, "big") if t else b""), bits


def py(x):
    """value a user sees"""
    v = x.value if hasattr(x, "value") else None
    return list(v) if isinstance(v, list) else bytes(v) if isinstance(v, (bytes, bytearray)) else v


def run(ctx):
    from src.DLMS_SPODES.types import useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection
    from src.DLMS_SPODES.types import cdt, cst
    rng = ctx.sub("useful")

    # simple types: octets, value, what is left
    for i in range(ctx.n(8000, 80000)):
        name = SIMPLE[i % len(SIMPLE)]
        octets, value = gen(rng, name)
        tail = rng.randbytes(rng.randrange(4))
        ctx.case(name.encode() + octets)
        with ctx.guard("decode", type=name, data=octets):
            cls = getattr(ut, name)
            x, rest = ut.get_instance_and_context(cls, octets + tail)
            ctx.eq((py(x), bytes(rest)), (value, tail), "decode", type=name, data=octets, tail=tail)
            ctx.eq(bytes(x.contents), octets, "encode", type=name)
            if name == "BitString":
                z = cls.from_contents(octets)
                if value:
                    i0 = rng.randrange(len(value))
                    z.inverse(i0)
                    ctx.eq(list(z.value), value[:i0] + [1 - value[i0]] + value[i0 + 1:], "bit-inverted", data=octets, index=i0)
                    z[i0] = value[i0]
                    ctx.eq(bytes(z.contents), octets, "bit-set", data=octets, index=i0)
                z.clear()
                ctx.eq((list(z.value), len(z)), ([0] * len(value), len(value)), "bits-cleared", data=octets)
                ctx.eq(bytes(x.contents), octets, "bits-of-another", data=octets)
            if name != "Null":
                y = cls(value)
                ctx.eq((bytes(y.contents), py(y)), (octets, value), "construct", type=name, value=value)
            if name in INTS:
                ctx.eq((int(x), str(x), int(cls.from_str(str(value)))), (value, str(value), value), "number-text", type=name)
                other, v2 = gen(rng, name)
                z = cls(v2)
                ctx.eq((x == z, x > z, z > x, x == cls(value), hash(x) == hash(cls(value))), (value == v2, value > v2, v2 > value, True, True), "number-order", type=name, a=value, b=v2)
            elif name in ("VisibleString", "UTF8String"):
                ctx.eq((str(x), str(cls.from_str(value))), (value, value), "text", type=name)
            elif name == "BOOLEAN":
                ctx.eq((bool(x), int(x), x == ut.TRUE, x == ut.FALSE, str(x)), (value, int(value), value, not value, str(value)), "boolean")
                ctx.eq(bool(ut.BOOLEAN.from_str(str(int(value)))), value, "boolean-text")
                ctx.eq(bool(ut.BOOLEAN.from_int(int(value))), value, "boolean-int")
        for k in {0, len(octets) - 1, rng.randrange(len(octets) + 1)} - {len(octets), -1}:
            ctx.rejects(lambda: getattr(ut, name).from_contents(octets[:k]), "truncated", type=name, data=octets[:k])
    # out of range, wrong size
    for name, (w, s) in INTS.items():
        lo, hi = (-(1 << 8 * w - 1), (1 << 8 * w - 1) - 1) if s else (0, (1 << 8 * w) - 1)
        for v in (lo - 1, hi + 1, hi + 1 << 3, lo - (1 << 70)):
            ctx.case(f"{name}{v}")
            ctx.rejects(lambda: getattr(ut, name)(v), "out-of-range", (OverflowError, ValueError), type=name, value=v)
            ctx.rejects(lambda: getattr(ut, name).from_str(str(v)), "out-of-range-text", (OverflowError, ValueError), type=name, value=v)
    for name, size in FIXED.items():
        for n in range(16):
            if n != size:
                ctx.case(f"{name}{n}")
                ctx.rejects(lambda: getattr(ut, name)(rng.randbytes(n)), "wrong-size", type=name, n=n)
    for v in (-2, -1, 2, 3, 255, 256):
        ctx.rejects(lambda: ut.AccessSelectionParameters(v), "access-selection", (OverflowError, ValueError), value=v)

    # Data: each alternative keeps its tag
    for i in range(ctx.n(3400, 40000)):
        tag = list(DATA)[i % len(DATA)]
        octets, value = gen(rng, DATA[tag])
        tail = rng.randbytes(rng.randrange(4))
        whole = bytes((tag,)) + octets
        ctx.case(b"data" + whole)
        with ctx.guard("data", data=whole):
            d, rest = ut.get_instance_and_context(ut.Data, whole + tail)
            ctx.eq((py(d.value), type(d.value).__name__, bytes(d.contents), bytes(rest)), (value, DATA[tag], whole, tail), "data", data=whole, tail=tail)
            ctx.check(NAMES[tag] in str(d), "data-text", text=str(d), tag=tag)
            ctx.eq(ut.Data.from_contents(d.contents) == d, True, "data-equal", data=whole)
            if tag not in (0, 255):
                ctx.eq(ut.Data.from_contents(bytes((0,))) == d, False, "data-differs", data=whole)
            if DATA[tag] in INTS:
                ctx.eq(bytes(ut.Data.from_str(f"{tag} {value}").contents), whole, "data-from-text", tag=tag)
            if list(DATA.values()).count(DATA[tag]) == 1:
                ctx.eq(bytes(ut.Data(d.value).contents), whole, "data-of-value", data=whole)
        ctx.rejects(lambda: ut.Data.from_contents(whole[:rng.randrange(len(whole))]) if len(whole) > 1 else ut.Data.from_contents(b""), "data-truncated", data=whole)
    for tag in set(range(256)) - set(DATA) - {1, 2, 19, 23, 24, 25, 26, 27}:
        ctx.case(f"tag{tag}")
        ctx.rejects(lambda: ut.Data.from_contents(bytes((tag,)) + bytes(20)), "data-unknown-tag", tag=tag)
    for a, b in ((13, 15), (17, 22), (0, 255)):
        with ctx.guard("data-alternatives"):
            v = bytes() if a == 0 else b"\x05"
            ctx.eq(ut.Data.from_contents(bytes((a,)) + v) == ut.Data.from_contents(bytes((b,)) + v), False, "data-alternatives", a=a, b=b)

    # optional values
    for i in range(ctx.n(1500, 15000)):
        name = rng.choice([n for n in SIMPLE if n != "Null"])
        opt = ut.OPTIONAL(getattr(ut, name))
        octets, value = gen(rng, name)
        tail = rng.randbytes(rng.randrange(4))
        flag = rng.choice((1, 1, 1, 0xff, 2))
        ctx.case(b"opt" + octets)
        with ctx.guard("optional", type=name, data=octets):
            x, rest = ut.get_instance_and_context(opt, bytes((flag,)) + octets + tail)
            ctx.eq((py(x.value), bytes(x.contents), bytes(rest)), (value, b"\x01" + octets, tail), "optional-present", type=name)
            ctx.eq(bytes(opt(getattr(ut, name)(value)).contents), b"\x01" + octets, "optional-construct", type=name)
            y, rest = ut.get_instance_and_context(opt, b"\x00" + tail)
            ctx.eq((bytes(y.contents), bytes(rest)), (b"\x00", tail), "optional-absent", type=name)
        ctx.rejects(lambda: opt.from_contents(b""), "optional-empty", type=name)
        ctx.rejects(lambda: opt.from_contents(b"\x01" + octets[:-1]), "optional-truncated", type=name, data=octets)

    # sequences of any members
    serial = 0

    def gen_seq(depth):
        nonlocal serial
        members, octets, values = [], b"", []
        for k in range(rng.randrange(1, 6)):
            m = rng.random()
            if depth and m < 0.25:
                t, o, v = gen_seq(depth - 1)
            elif m < 0.5:
                n = rng.choice([n for n in SIMPLE if n != "Null"])
                t = ut.OPTIONAL(getattr(ut, n))
                o, v = gen(rng, n)
                o, v = (b"\x01" + o, v) if rng.random() < 0.6 else (b"\x00", None)
            elif m < 0.6:
                t, tag = ut.Data, rng.choice(list(DATA))
                o, v = gen(rng, DATA[tag])
                o = bytes((tag,)) + o
            else:
                n = rng.choice(SIMPLE)
                t = getattr(ut, n)
                o, v = gen(rng, n)
            members.append((f"m{k}", t))
            octets += o
            values.append(v)
        serial += 1
        return dataclasses.make_dataclass(f"S{serial}", members, bases=(ut.Sequence,)), octets, values

    def look(x):
        if isinstance(x, ut.Sequence):
            return [look(getattr(x, f.name)) for f in dataclasses.fields(x)]
        if isinstance(x, (ut.SequenceOptional, ut.Choice)):
            return py(x.value)
        return py(x)
    for i in range(ctx.n(700, 7000)):
        cls, octets, values = gen_seq(2)
        tail = rng.randbytes(rng.randrange(5))
        ctx.case(b"seq" + octets)
        ctx.state(len(values))
        with ctx.guard("sequence", data=octets):
            x, rest = ut.get_instance_and_context(cls, octets + tail)
            ctx.eq((look(x), bytes(x.contents), bytes(rest)), (values, octets, tail), "sequence", data=octets)
            y = cls(*(getattr(x, f.name) for f in dataclasses.fields(x)))
            ctx.eq(bytes(y.contents), octets, "sequence-construct", data=octets)
            ctx.eq(len(y), len(values), "sequence-length")
        for k in {0, rng.randrange(len(octets)) if octets else 0, len(octets) - 1} - {-1}:
            if octets and k < len(octets):
                ctx.rejects(lambda: cls.from_contents(octets[:k]), "sequence-truncated", data=octets, k=k)

    # descriptors
    for i in range(ctx.n(2500, 25000)):
        cid, ln, idx = axdr.edge_int(rng, 0, 0xffff), rng.randbytes(6), axdr.edge_int(rng, -128, 127)
        octets = cid.to_bytes(2, "big") + ln + idx.to_bytes(1, "big", signed=True)
        tail = rng.randbytes(rng.randrange(4))
        ctx.case(b"desc" + octets)
        with ctx.guard("descriptor", data=octets):
            for cls, part, ID in ((ut.CosemAttributeDescriptor, "attribute_id", ut.CosemObjectAttributeId), (ut.CosemMethodDescriptor, "method_id", ut.CosemObjectMethodId)):
                d, rest = ut.get_instance_and_context(cls, octets + tail)
                ctx.eq((int(d.class_id), bytes(d.instance_id.value), int(getattr(d, part)), bytes(d.contents), bytes(rest)), (cid, ln, idx, octets, tail), "descriptor", data=octets)
                e = cls(ut.CosemClassId(cid), ut.CosemObjectInstanceId(ln), ID(idx))
                ctx.eq(bytes(e.contents), octets, "descriptor-construct", data=octets)
            text = ".".join(map(str, ln))
            ctx.eq((str(d.instance_id), bytes(ut.CosemObjectInstanceId.from_str(text).contents)), (text, ln), "instance-text", text=text)
            # selective access
            tag = rng.choice(list(DATA))
            po, pv = gen(rng, DATA[tag])
            sel = rng.randrange(256)
            so = bytes((sel, tag)) + po
            s, rest = ut.get_instance_and_context(ut.SelectiveAccessDescriptor, so + tail)
            ctx.eq((int(s.access_selector), py(s.access_parameters.value), bytes(s.contents), bytes(rest)), (sel, pv, so, tail), "selective-access", data=so)
            w, rest = ut.get_instance_and_context(ut.CosemAttributeDescriptorWithSelection, octets + so + tail)
            ctx.eq((bytes(w.cosem_attribute_descriptor.contents), bytes(w.access_selection.contents), bytes(w.contents), bytes(rest)), (octets, so, octets + so, tail), "with-selection", data=octets + so)
        k = rng.randrange(9)
        ctx.rejects(lambda: ut.CosemAttributeDescriptor.from_contents(octets[:k]), "descriptor-truncated", data=octets[:k])
        ctx.rejects(lambda: ut.SelectiveAccessDescriptor.from_contents(so[:rng.randrange(len(so))]), "selective-truncated", data=so)
        bad = rng.choice(("256.0.0.0.0.0", "1.2.3.4.5.256", "1.2.a.4.5.6", "-1.0.0.0.0.0", "1.2.3.4.5.x"))
        ctx.rejects(lambda: ut.CosemObjectInstanceId.from_str(bad), "instance-bad-text", text=bad)
        # invoke id and priority
        inv, conf, high = rng.randrange(16), rng.random() < 0.5, rng.random() < 0.5
        with ctx.guard("invoke-id"):
            p = ut.InvokeIdAndPriority(inv, ut.ServiceClass(conf), ut.Priority(high))
            ctx.eq(bytes(p.contents), bytes((inv | conf << 6 | high << 7,)), "invoke-id", inv=inv, conf=conf, high=high)
            b = bytes((inv | (0xc0 if conf else 0),))
            q = ut.InvokeIdAndPriority.from_contents(b + tail)
            ctx.eq((q.invoke_id, q.service_class.value, bytes(q.contents)), (inv, conf, b), "invoke-id-decode", data=b)

    # descriptors of real objects
    for cid, versions in collection.common_interface_class_map.items():
        for ver in versions:
            if (cid, ver) in ((7, 0), (12, 0), (23, 0), (47, 2)):
                continue                # declared as not supported by the framework
            for _ in range(ctx.n(3, 20)):
                ln = bytes(rng.choice((0, 1, 42, 255, rng.randrange(256))) for _ in range(6))
                ctx.case(b"obj%d-%d" % (cid, ver) + ln)
                with ctx.guard("object-descriptor", class_id=cid, version=ver, ln=ln):
                    o = collection.get_interface_class(collection.common_interface_class_map, ut.CosemClassId(cid), cdt.Unsigned(ver))(cst.LogicalName(bytearray(ln)))
                    ctx.eq(int(o.CLASS_ID), cid, "object-class", class_id=cid)
                    for i in range(1, 2 + len(o.A_ELEMENTS)):
                        want = cid.to_bytes(2, "big") + ln + bytes((i,))
                        ctx.eq(bytes(o.get_attr_descriptor(i).contents), want, "object-attribute", class_id=cid, index=i, ln=ln)
                        ctx.eq(bytes(o.get_attribute_descriptor(i)), want, "object-attribute", class_id=cid, index=i, ln=ln)
                    for i in (2 + len(o.A_ELEMENTS), rng.randrange(17, 128), 127):
                        if i != 2:
                            ctx.eq(bytes(o.get_attr_descriptor(i).contents), cid.to_bytes(2, "big") + ln + bytes((i,)), "object-attribute", class_id=cid, index=i, ln=ln)
                    for i in range(1, 1 + len(o.M_ELEMENTS or ())):
                        ctx.eq(bytes(o.get_meth_descriptor(i).contents), cid.to_bytes(2, "big") + ln + bytes((i,)), "object-method", class_id=cid, index=i, ln=ln)
    ctx.known_finding("invoke-id-priority", lambda: bytes(ut.InvokeIdAndPriority.from_contents(b"\x81").contents) != b"\x81")
    ctx.known_finding("non-minimal-length", lambda: bytes(ut.get_instance_and_context(ut.OctetString, bytes.fromhex("8101aa0f"))[1]) != b"\x0f")
    for m in ("decode", "encode", "data", "sequence", "descriptor", "selective-access", "optional-present"):
        ctx.require(f"checked:{m}", 300)
    ctx.require("rejected:sequence-truncated", 300)
