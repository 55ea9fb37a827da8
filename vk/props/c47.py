"""Objects with a value fixed by the standard of the country."""
from .. import axdr

RULE = ("every fixed code of every specification, channels and billing periods sampled, with values of every type, edge and random values, sequences of replacing and refused values. "
        "Non-trivial: distinct (specification, code, encoding).")
MODULES = ("cosem_interface_classes.implementations.data", "types.choices")

STATIC, DYNAMIC, ANY = "STATIC", "DYNAMIC", "NOT_SPECIFIC"
PERIODS = (1, 2, 3, 5, 10, 15, 20, 30, 60)
ID = ("DoubleLongUnsigned", "OctetString", "VisibleString", "Utf8String", "Unsigned", "LongUnsigned")
WHEN = ("DateTime", "Date", "Time", "OctetString")
ALL = "*"
# specification -> (A, C, D, E) or (A, B, C, D, E) -> (kinds of value, classifier)
DLMS = {(0, 96, 1, e): (ID, STATIC) for e in range(11)}
DLMS |= {(0, 0, 42, 0, 0): (("OctetString",), None), (0, 96, 12, 4): (("Unsigned",), DYNAMIC)}
DLMS |= {(0, 96, 2, e): (ALL, DYNAMIC) for e in range(14)}
DLMS |= {(0, 96, 11, e): (ALL, DYNAMIC) for e in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 50, 99)}
DLMS |= {(1, 0, 2, e): (ALL, STATIC) for e in (0, 1, 2)}
DLMS |= {(1, 0, 8, e): (ALL, STATIC) for e in (4, 5)}
DLMS |= {(0, 97, 97, e): (ALL, ANY) for e in (0, 9)}
SPODES = DLMS | {(0, 96, 1, e): (ID, ANY) for e in (0, 2, 4, 5, 8, 9, 10)}
SPODES |= {(0, 96, 1, 6): (("OctetString",), STATIC)}
SPODES |= {(0, 96, 2, e): (WHEN, DYNAMIC) for e in (1, 2, 3, 5, 6, 7, 11, 12)}
SPODES |= {(0, 96, 5, e): (("LongUnsigned",), ANY) for e in (1, 4)}
SPODES |= {(0, 0, 96, 5, 132): (("Unsigned",), DYNAMIC)}
SPODES |= {(0, 96, 11, e): (("LongUnsigned",), DYNAMIC) for e in range(9)}
SPODES |= {(0, 0, 96, 51, e): (("Unsigned",), DYNAMIC) for e in (0, 1, 3, 4, 5, 6, 7)} | {(0, 0, 96, 51, e): (("OctetString",), DYNAMIC) for e in (8, 9)}
SPODES |= {(1, 0, 8, e): (("Unsigned",), STATIC) for e in (4, 5)}
KPZ = SPODES | {(0, 128, 96, 13, 1): ("bitmap", None), (0, 128, 154, 0, 0): ("ping", STATIC)}
KPZ1 = KPZ | {(0, 96, 11, e): (("DoubleLongUnsigned",), STATIC) for e in range(9)}
TABLES = {"DLMS_6": DLMS, "SPODES_3": SPODES, "KPZ": KPZ, "KPZ1": KPZ1}


def run(ctx):
    from ..env import load, quiet
    cdt, ut, cst = load("types.common_data_types"), load("types.useful_types"), load("types.cosem_service_types")
    col, exc = load("cosem_interface_classes.collection"), load("exceptions")
    enu = load("enums")
    AppVersion = load("version").AppVersion
    rng = ctx.rng
    simple = [k for k in axdr.TAGS if k not in ("Array", "Structure", "CompactArray")]

    def make(spec, code, coll=None):
        c = coll if coll is not None else col.Collection()
        ln = cst.LogicalName(bytearray(code))
        if spec == "add":
            return c.add(class_id=ut.CosemClassId(1), version=cdt.Unsigned(0), logical_name=ln)
        o = col.get_type(ut.CosemClassId(1), cdt.Unsigned(0), ln, col.func_maps[spec])(ln)
        o.collection = c
        return o

    def dt(n):
        if n == 12:
            return axdr.gen_datetime(rng)
        return axdr.gen_date(rng) if n == 5 else axdr.gen_time(rng)

    def good(spec, key, kinds):
        """an encoding the code must hold, or None: not said"""
        if kinds == "bitmap":
            return b"\x02\x03" + b"\x09\x0c" + dt(12) + b"\x09\x0c" + dt(12) + axdr.encode(("OctetString", rng.randbytes(rng.choice((0, 1, 60, 200)))))
        if kinds == "ping":
            n = rng.choice((0, 1, 3))
            return b"\x02\x02\x11" + rng.randbytes(1) + b"\x01" + bytes((n,)) + b"".join(b"\x06" + rng.randbytes(4) for _ in range(n))
        kind = rng.choice(simple if kinds == ALL else kinds)
        if key[-5:] == (0, 0, 42, 0, 0):
            return axdr.encode((kind, rng.choice((b"INC", b"KPZ", b"ABC")) + bytes(rng.choice(range(48, 58)) for _ in range(13))))
        if key == (0, 96, 1, 6) and kinds == ("OctetString",):
            return axdr.encode((kind, f"{rng.choice((1, 2, 3, 4, 10, 255))}.{rng.choice((0, 1, 9, 12, 100))}".encode()))
        if key[-3:-1] == (96, 2) and kinds != ALL and kind == "OctetString" or kinds == ("OctetString",) and key[2:4] == (96, 51):
            n = rng.choice((12, 5, 4)) if kinds != ("OctetString",) else 12
            return b"\x09" + bytes((n,)) + dt(n)
        if key[0] == 1 and key[-2] == 8 and kinds != ALL:
            return axdr.encode((kind, rng.choice(PERIODS)))
        return axdr.encode(axdr.gen_simple(rng, kind, False))

    def wrong(key, kinds, enc):
        """an encoding of a type that the code doesn't allow, or of a value it doesn't"""
        if kinds == ALL:
            return None
        if kinds in ("bitmap", "ping"):
            return rng.choice((enc[:1] + bytes((enc[1] + 1,)) + enc[2:] + b"\x00", enc[:1] + bytes((enc[1] - 1,)) + enc[2:], b"\x01" + enc[1:], b"\x02\x02\x11\x01\x11\x01", b"\x11\x05", b"\x09\x02ab"))
        if key[0] == 1 and key[-2] == 8 and rng.random() < 0.6:
            return b"\x11" + bytes((rng.choice([x for x in range(256) if x not in PERIODS]),))
        if kinds == WHEN and rng.random() < 0.5:
            n = rng.choice((0, 1, 3, 6, 8, 11, 13))
            return b"\x09" + bytes((n,)) + rng.randbytes(n)
        if key == (0, 96, 1, 6) and kinds == ("OctetString",) and rng.random() < 0.6:
            return axdr.encode(("OctetString", rng.choice((b"", b"3", b"3.0.1", b"0.0.0", b"1.2.3", b"abc"))))
        kind = rng.choice([k for k in simple if k not in kinds and k != "NullData"])
        return axdr.encode(axdr.gen_simple(rng, kind, False))

    def code_of(key):
        b = rng.choice((0, 0, 0, 1, 2, 63))
        six = (key[0], b, *key[1:]) if len(key) == 4 else key
        return (*six, 255 if len(key) == 5 or rng.random() < 0.8 else rng.choice((0, 1, 100, 127)))

    REFUSED = (ValueError, TypeError, KeyError, IndexError, exc.DLMSException, cdt.ValidationError) if hasattr(cdt, "ValidationError") else (ValueError, TypeError, KeyError, IndexError, exc.DLMSException)
    for spec, table in TABLES.items():
        for key, (kinds, classifier) in table.items():
            for _ in range(ctx.n(10, 200)):
                code = code_of(key)
                w = dict(specification=spec, code=code, kinds=kinds)
                fixed = key == (0, 96, 1, 6) and kinds == ("OctetString",)      # its text is judged when the value is made
                with ctx.guard("object", **w), quiet():
                    o = make(spec, code)
                    if classifier is not None:
                        ctx.eq(o.get_attr_element(2).classifier.name, classifier, "kind-of-value", **w)
                    ctx.count(f"classifier {classifier}")
                    if kinds == ("Unsigned",) and key[-2:] == (12, 4):      # the optical port asks: channel 1, interface 1
                        v = o.get_attr(2)
                        ctx.eq(v.channel, enu.ChannelNumber.OPTO_P1, "default-channel", **w)
                        ctx.eq(v.interface, enu.Interface.OPTO, "default-interface", **w)
                        o.clear_attr(2)
                    now = None
                    for _k in range(rng.choice((1, 2, 5))):
                        enc = good(spec, key, kinds)
                        ctx.case((spec, code, enc))
                        w["value"] = enc
                        if now is not None and enc[0] != now[0] or fixed or now is not None and enc[0] == 9 and kinds == WHEN and enc[1] != now[1]:
                            o.clear_attr(2)
                        o.set_attr(2, enc)
                        now = enc
                        ctx.eq(bytes(o.get_attr(2).encoding), enc, "value-held", **w)
                        ctx.count(f"tag {enc[0]}")
                        bad = wrong(key, kinds, enc)
                        if bad is None:
                            continue
                        w["other"] = bad
                        ctx.rejects(lambda: o.set_attr(2, bad), "other-type-in-place", exc=REFUSED, **w) if not fixed else None
                        if not fixed:
                            ctx.eq(bytes(o.get_attr(2).encoding), now, "value-kept", **w)
                        p = make(spec, code)
                        p.get_attr(2) is None or p.clear_attr(2)
                        ctx.rejects(lambda: p.set_attr(2, bad), "other-type", exc=REFUSED, **w)
                        ctx.check(p.get_attr(2) is None, "nothing-kept", **w)
                        if kinds not in ("bitmap", "ping") and spec != "DLMS_6":
                            ctx.count("refused")

    # dates of the events hold what was written
    for _ in range(ctx.n(400)):
        key = (0, 96, 2, rng.choice((1, 2, 3, 5, 6, 7, 11, 12)))
        o = make("SPODES_3", code_of(key))
        n = rng.choice((12, 5, 4))
        c = dt(n)
        how = rng.choice(("octets", "typed"))
        tag = {12: b"\x19", 5: b"\x1a", 4: b"\x1b"}[n]
        enc = b"\x09" + bytes((n,)) + c if how == "octets" else tag + c
        w = dict(value=enc)
        with ctx.guard("date", **w), quiet():
            o.set_attr(2, enc)
            v = o.get_attr(2)
            ctx.eq(bytes(v.contents), c, "date-contents", **w)
            ctx.check(isinstance(v, {12: (cdt.DateTime, cst.OctetStringDateTime), 5: (cdt.Date, cst.OctetStringDate), 4: (cdt.Time, cst.OctetStringTime)}[n]), "date-kind", **w)
            ref = {12: cdt.DateTime, 5: cdt.Date, 4: cdt.Time}[n](bytearray(c))
            ctx.eq(str(v), str(ref), "date-text", **w)
        ctx.case(("date", enc))

    # logical device name: the manufacturer of the collection
    for _ in range(ctx.n(200)):
        c = col.Collection()
        man = bytes(rng.choice(b"ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _k in range(3))
        name = man + bytes(rng.choice(range(33, 127)) for _k in range(rng.choice((0, 5, 13))))
        w = dict(name=name)
        with ctx.guard("device-name", **w), quiet():
            c.LDN.set_attr(2, axdr.encode(("OctetString", name)))
            ctx.eq(bytes(c.manufacturer), man, "manufacturer", **w)
            ctx.eq(bytes(c.LDN.manufacturer), man, "manufacturer-of-name", **w)
            # another device's name in the same collection
            other = bytes((man[0] ^ 1,)) + name[1:]
            c.LDN.clear_attr(2)
            ctx.rejects(lambda: c.LDN.set_attr(2, axdr.encode(("OctetString", other))), "manufacturer-changed", exc=REFUSED, **w)
            ctx.eq(bytes(c.manufacturer), man, "manufacturer-kept", **w)
        ctx.case(("name", name))

    # version of the firmware newer than the description of the device: an update is asked for
    for _ in range(ctx.n(500)):
        c = col.Collection()
        b = rng.choice((0, 0, 1, 2))
        known = tuple(rng.randrange(6) for _k in range(3))
        inst = b if rng.random() < 0.8 else b + 1
        with ctx.guard("firmware-set-up"), quiet():
            c.set_server_ver(inst, AppVersion(*known))
            o = make("add", (0, b, 0, 2, 1, 255), c)
        for k in range(rng.choice((1, 2, 3))):
            v = tuple(known) if rng.random() < 0.2 else tuple(rng.randrange(6) for _k in range(3))
            txt = ".".join(map(str, v)).encode()
            w = dict(known=known, of=inst, version=v, instance=b, step=k)
            newer = inst == b and v > known
            ctx.case(("firmware", known, v, inst == b))
            enc = axdr.encode(("OctetString", txt))
            with ctx.guard("firmware", **w), quiet():
                if newer:
                    ctx.rejects(lambda: o.set_attr(2, enc), "newer-version", exc=(exc.NeedUpdate,), **w)
                    ctx.count("update asked for")
                else:
                    o.set_attr(2, enc)
                    ctx.eq(bytes(o.get_attr(2).encoding), enc, "version-held", **w)
                    ctx.count("version accepted")
    ctx.require("update asked for", 20)
    ctx.require("version accepted", 20)
    ctx.require("refused", 100)
