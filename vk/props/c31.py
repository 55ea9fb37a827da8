"""The collection as a container: model-based histories."""
from ..core import show

RULE = ("random histories of add, add_if_missing, remove, look-ups by every kind of reference, version search and identification setters over several collections at once, "
        "compared after every step with an ordered mapping kept by the check. Non-trivial: distinct (state, operation).")
MODULES = ("cosem_interface_classes.collection",)
# (class, versions, codes)
POOL = [(1, (0,), [(0, 0, 96, 1, e, 255) for e in (0, 1, 2, 3, 4)] + [(0, 0, 96, 51, 3, 255), (0, 0, 96, 12, 5, 255), (0, 0, 96, 5, 1, 255), (0, 0, 97, 98, 1, 255)]),
        (3, (0,), [(1, 0, c, 7, 0, 255) for c in (1, 21, 40, 41, 52, 60, 61, 80)] + [(1, 0, 11, 134, 0, 255), (1, 0, 12, 134, 0, 255)]),
        (4, (0,), [(1, 0, c, 6, 0, 255) for c in (1, 21, 41)]),
        (7, (1,), [(1, 0, 98, 2, 0, 255), (0, 0, 98, 1, 0, 255), (1, 0, 99, 1, 0, 255), (0, 0, 94, 7, 1, 255)]),
        (8, (0,), [(0, 0, 1, 0, 0, 255), (0, 1, 1, 0, 0, 255)]),
        (11, (0,), [(0, 0, 11, 0, 0, 255)]),
        (15, (0, 1), [(0, 0, 40, 0, e, 255) for e in range(5)]),
        (18, (0,), [(0, 0, 44, 0, 0, 255), (0, 0, 44, 0, 128, 255)]),
        (20, (0,), [(0, 0, 13, 0, 0, 255)]),
        (23, (1,), [(0, b, 22, 0, 0, 255) for b in (0, 1, 2)]),
        (27, (0, 1), [(0, 0, 2, 0, 0, 255), (0, 1, 2, 0, 0, 255)]),
        (41, (0,), [(0, 0, 25, 0, 0, 255)]),
        (42, (0,), [(0, b, 25, 1, 0, 255) for b in (0, 1)]),
        (47, (0, 1), [(0, 0, 25, 6, 0, 255), (0, 1, 25, 6, 0, 255)]),
        (64, (0, 1), [(0, 0, 43, 0, e, 255) for e in (0, 1, 200)]),
        (68, (0,), [(0, b, 96, 3, 20, 255) for b in (0, 1)]),
        (70, (0,), [(0, b, 96, 3, 10, 255) for b in (0, 2)])]
LDN = (0, 0, 42, 0, 0, 255)
NAMED = {"LDN": LDN, "current_association": (0, 0, 40, 0, 0, 255), "PUBLIC_ASSOCIATION": (0, 0, 40, 0, 1, 255), "clock": (0, 0, 1, 0, 0, 255),
         "activity_calendar": (0, 0, 13, 0, 0, 255), "special_day_table": (0, 0, 11, 0, 0, 255), "TCP_UDP_setup": (0, 0, 25, 0, 0, 255), "IPv4_setup": (0, 0, 25, 1, 0, 255),
         "boot_image_transfer": (0, 0, 44, 0, 128, 255), "firmware_image_transfer": (0, 0, 44, 0, 0, 255), "firmware_version": (0, 0, 96, 1, 2, 255), "device_type": (0, 0, 96, 1, 1, 255),
         "manufacturing_date": (0, 0, 96, 1, 4, 255), "serial_number": (0, 0, 96, 1, 0, 255), "RU_MAGNETIC_EFFECT": (0, 0, 96, 51, 3, 255), "RU_ALARM_REGISTER_2": (0, 0, 97, 98, 1, 255),
         "RU_DAILY_PROFILE": (1, 0, 98, 2, 0, 255), "RU_EXTENDED_PASSPORT_DATA": (0, 0, 94, 7, 1, 255),
         "RU_MAXIMUM_CURRENT_EXCESS_LIMIT": (1, 0, 11, 134, 0, 255), "RU_MAXIMUM_VOLTAGE_EXCESS_LIMIT": (1, 0, 12, 134, 0, 255)}
INSTANCES = {"getASSOCIATION": lambda k: (0, 0, 40, 0, k, 255), "getIECHDLCSetup": lambda k: (0, k, 22, 0, 0, 255), "getIPv4Setup": lambda k: (0, k, 25, 1, 0, 255),
             "getDISCONNECT_CONTROL": lambda k: (0, k, 96, 3, 10, 255), "getARBITRATOR": lambda k: (0, k, 96, 3, 20, 255)}
SAPS = (0, 1, 0x10, 0x20, 0x30, 0x40, 0x50, 0x60)


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut, cosemObjectInstanceId as coi
    from src.DLMS_SPODES.types.implementations import enums, structs
    from src.DLMS_SPODES.cosem_interface_classes import collection as col
    from src.DLMS_SPODES.version import AppVersion
    from src.DLMS_SPODES import exceptions as exc
    rng = ctx.sub("container")
    ALL = [(c, vs, ln) for c, vs, lns in POOL for ln in lns]

    def L(t):
        return cst.LogicalName(bytearray(t))

    def refs(t):
        """every way to name an object"""
        inst = coi.CosemObjectInstanceId(bytes(t))
        desc = ut.CosemAttributeDescriptor(ut.CosemClassId(1), inst, ut.CosemObjectAttributeId(2))
        yield "bytes", bytes(t)
        yield "str", ".".join(map(str, t))
        yield "logical-name", L(t)
        yield "instance-id", inst
        yield "attribute-descriptor", desc
        yield "method-descriptor", ut.CosemMethodDescriptor(ut.CosemClassId(1), inst, ut.CosemObjectMethodId(1))
        yield "descriptor-with-selection", ut.get_instance_and_context(ut.CosemAttributeDescriptorWithSelection, b"\x00\x01" + bytes(t) + b"\x02" + b"\x01\x11\x05")[0]
        yield "structure", structs.CaptureObjectDefinition((1, ".".join(map(str, t)), 2, 0))

    class M:
        """model of one collection: objects in the order they were first added"""
        def __init__(self, c):
            self.c = c
            self.objs = {LDN: (1, 0)}
            self.real = {LDN: c.get(bytes(LDN))}
            self.sap = {}

    def sweep(m, **w):
        c = m.c
        ctx.eq([tuple(o.logical_name.contents) for o in c], list(m.objs), "order-and-content", **w)
        ctx.eq([(int(o.CLASS_ID), int(o.VERSION)) for o in c], list(m.objs.values()), "classes", **w)
        ctx.eq(len(c), len(m.objs), "length", **w)
        ctx.check(all(c.get(bytes(t)) is o for t, o in m.real.items()), "identity", "an object was replaced", **w)
        ctx.check(all(o.collection is c for o in c), "belongs", "an object refers to another collection", **w)
        ctx.eq([id(o) for o in c.values()], [id(o) for o in c], "values", **w)
        ctx.state((tuple(m.objs.items())))

    def lookups(m, **w):
        c = m.c
        t = rng.choice(list(m.objs)) if rng.random() < 0.6 else rng.choice(ALL)[2]
        here = t in m.objs
        for kind, ref in refs(t):
            ctx.count(f"reference {kind}")
            ctx.eq(c.is_in_collection(ref), here, "is-in-collection", kind=kind, ln=t, **w)
            if here:
                ctx.check(c.get_object(ref) is m.real[t] and c.get_object2(ref) is m.real[t], "look-up", "another object was found", kind=kind, ln=t, **w)
            else:
                ctx.rejects(lambda: c.get_object(ref), "absent-object", exc=(exc.NoObject,), kind=kind, ln=t)
                ctx.eq(c.get_object2(ref), None, "absent-object2", kind=kind, ln=t)
        ctx.check(c.get(bytes(t)) is m.real.get(t), "get", ln=t)
        names = [rng.choice(ALL)[2] for _ in range(rng.randrange(1, 5))]
        first = next((n for n in names if n in m.objs), None)
        arg = [rng.choice((bytes(n), ".".join(map(str, n)), L(n))) for n in names]
        if first is None:
            ctx.rejects(lambda: c.get_first(arg), "first-of-none", exc=(exc.NoObject,), names=names)
        else:
            ctx.check(c.get_first(arg) is m.real[first], "first", names=names)
        cid = rng.choice(POOL)[0]
        want = [m.real[k] for k, v in m.objs.items() if v[0] == cid]
        for v in (cid, ut.CosemClassId(cid)):
            got = c.get_objects_by_class_id(v)
            ctx.check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "by-class", class_id=cid, got=[str(o.logical_name) for o in got], **w)
        ctx.eq([(tuple(a.contents), int(b), int(v)) for a, b, v in c.get_objects_descriptions()], [(k, *v) for k, v in m.objs.items()], "descriptions", **w)
        vers = {}
        for v in m.objs.values():
            vers.setdefault(v[0], set()).add(v[1])
        if any(len(v) > 1 for v in vers.values()):
            ctx.count("several versions")
            ctx.rejects(c.get_class_version, "several-versions", objs=m.objs)
        else:
            ctx.eq({int(k): int(v) for k, v in c.get_class_version().items()}, {k: min(v) for k, v in vers.items()}, "class-versions", **w)
        el = [k for k in m.objs if k[0] == 1]
        if not el:
            ctx.rejects(c.get_n_phases, "phases-of-none", exc=(exc.NoObject,))
        else:
            ctx.eq(c.get_n_phases(), 3 if any(41 <= k[2] <= 60 for k in el) else 1, "phases", codes=el)
        name, code = rng.choice(list(NAMED.items()))
        if code in m.objs:
            ctx.check(getattr(c, name) is m.real[code], "named", name=name)
            ctx.count("named found")
        else:
            ctx.rejects(lambda: getattr(c, name), "named-absent", exc=(exc.NoObject,), name=name)
        name, f = rng.choice(list(INSTANCES.items()))
        k = rng.randrange(4)
        if f(k) in m.objs:
            ctx.check(getattr(c, name)(k) is m.real[f(k)], "instance", name=name, k=k)
        else:
            ctx.rejects(lambda: getattr(c, name)(k), "instance-absent", exc=(exc.NoObject,), name=name, k=k)
        if all(t in m.sap for t in m.objs if t[2:4] == (40, 0)):
            s = rng.choice(SAPS)
            want = next((t[4] for t in m.objs if t in m.sap and m.sap[t] == s and t[4] != 0), None)
            if want is None:
                ctx.rejects(lambda: c.get_association_id(enums.ClientSAP(s)), "no-association", sap=s)
            else:
                ctx.count("association by address")
                ctx.eq(c.get_association_id(enums.ClientSAP(s)), want, "association-id", sap=s, saps=m.sap)
                ctx.check(c.getAssociationBySAP(enums.ClientSAP(s)) is m.real[0, 0, 40, 0, want, 255], "association-by-sap")
        t = rng.choice(list(m.objs))
        d = ut.CosemAttributeDescriptor(ut.CosemClassId(m.objs[t][0]), coi.CosemObjectInstanceId(bytes(t)), ut.CosemObjectAttributeId(1))
        ctx.eq(bytes(c.get_attr(d).contents), bytes(t), "attribute-by-descriptor", ln=t)

    for _ in range(ctx.n(250)):
        ms = []
        with ctx.guard("new"):
            ms = [M(col.Collection()) for _ in range(2)]
        for step in range(25):
            m = rng.choice(ms)
            c = m.c
            cid, vs, t = rng.choice(ALL)
            v = rng.choice(vs)
            op = rng.choice(("add", "add", "add-version", "missing", "missing", "remove", "remove", "bad", "ldn"))
            ctx.case((tuple(m.objs), op, cid, v, t))
            ctx.count(f"op {op}")
            w = dict(op=op, ln=t, class_id=cid, version=v)
            with ctx.guard("operation", **w):
                if op == "add":
                    o = c.add(class_id=ut.CosemClassId(cid), version=cdt.Unsigned(v), logical_name=L(t))
                    m.objs[t] = (cid, v)
                    m.real[t] = o
                    m.sap.pop(t, None)
                elif op == "add-version":
                    have = [x[1] for x in m.objs.values() if x[0] == cid]
                    if have:
                        ctx.count("version found")
                        ctx.eq(int(c.find_version(ut.CosemClassId(cid))), have[0], "find-version", **w)
                        o = c.add(class_id=ut.CosemClassId(cid), version=None, logical_name=L(t))
                        m.objs[t] = (cid, have[0])
                        m.real[t] = o
                        m.sap.pop(t, None)
                    else:
                        ctx.rejects(lambda: c.add(class_id=ut.CosemClassId(cid), version=None, logical_name=L(t)), "no-version", **w)
                elif op == "missing":
                    o = c.add_if_missing(class_id=ut.CosemClassId(cid), version=cdt.Unsigned(v), logical_name=L(t))
                    if t in m.objs:
                        ctx.count("not missing")
                        ctx.check(o is m.real[t], "add-if-missing", "the present object was replaced", **w)
                    else:
                        m.objs[t] = (cid, v)
                        m.real[t] = o
                elif op == "remove":
                    if rng.random() < 0.5:
                        t = rng.choice(list(m.objs))
                    got = c.try_remove(L(t))
                    want = t in m.objs and t != LDN
                    ctx.eq(got, want, "remove", ln=t, objs=list(m.objs))
                    if want:
                        m.objs.pop(t)
                        m.real.pop(t)
                        m.sap.pop(t, None)
                elif op == "bad":
                    ctx.rejects(lambda: c.add(class_id=ut.CosemClassId(rng.choice((2, 200, 9000))), version=cdt.Unsigned(0), logical_name=L(t)), "unknown-class", **w)
                    ctx.rejects(lambda: c.add(class_id=ut.CosemClassId(cid), version=cdt.Unsigned(9), logical_name=L(t)), "unknown-version", **w)
                else:
                    ctx.eq(c.try_remove(L(LDN)), False, "remove-ldn")
                if t in m.objs and t[2:4] == (40, 0) and rng.random() < 0.8:
                    s = rng.choice(SAPS)
                    m.real[t].set_attr(3, b"\x02\x02\x0f" + bytes((s,)) + b"\x12\x00\x01")
                    m.sap[t] = s
            with ctx.guard("look-up", **w):
                for x in ms:
                    sweep(x, **w)
                lookups(m, op=op)

    # identification is settled once
    def settle(c, setter, getter, values, mech):
        v1 = rng.choice(values)
        ctx.case((mech, repr(v1), rng.random()))
        with ctx.guard(mech):
            getattr(c, setter)(v1)
            ctx.eq(getattr(c, getter), v1, mech)
            getattr(c, setter)(v1)
            for v2 in values:
                if v2 != v1:
                    ctx.rejects(lambda: getattr(c, setter)(v2), mech, first=v1, second=v2)
                    ctx.eq(getattr(c, getter), v1, mech + "-kept")

    V = AppVersion
    vers = [V(1, 0, 0), V(1, 3, 30), V(1, 3, 31), V(1, 4, 0), V(2, 3, 30), V(1, 4, 15), V(0, 0, 1)]
    types = [cdt.OctetString(bytearray(b"M2M_1")), cdt.OctetString(bytearray(b"M2M_3")), cdt.VisibleString("M2M_1"), cdt.LongUnsigned(5)]
    for _ in range(ctx.n(60)):
        c = col.Collection()
        settle(c, "set_manufacturer", "manufacturer", [b"KPZ", b"ITE", b"AAA"], "manufacturer")
        settle(c, "set_country_ver", "country_ver", [V(3, 0), V(2, 0), V(3, 1)], "country-version")
        ctx.eq((c.dlms_ver, c.country), (6, 7), "defaults")
        with ctx.guard("settled"):
            c.set_dlms_ver(6)
            ctx.rejects(lambda: c.set_dlms_ver(5), "dlms-version")
            c.set_country(col.CountrySpecificIdentifiers.RUSSIA)
            ctx.rejects(lambda: c.set_country(col.CountrySpecificIdentifiers.FRANCE), "country")
            v = rng.choice(vers)
            c.set_collection_ver(v)
            ctx.rejects(lambda: c.set_collection_ver(rng.choice(vers)), "collection-version")
            ctx.eq(c.collection_ver, v, "collection-version-kept")
            t1, t2 = rng.sample(types, 2)
            c.set_server_type(t1)
            c.set_server_type(t1)
            ctx.rejects(lambda: c.set_server_type(t2), "server-type", first=t1, second=t2)
            ctx.check(c.server_type == t1, "server-type-kept")
            c.set_server_type(t2, force=True)
            ctx.check(c.server_type == t2, "server-type-forced")
        # server versions: same major and minor, not later than the known one
        c = col.Collection()
        model = {}
        for _ in range(12):
            inst = rng.choice((0, 0, 1))
            v = V(rng.choice((1, 2)), rng.choice((3, 4)), rng.choice((10, 20, 30)))
            force = rng.random() < 0.15
            k = (v.major, v.minor, v.patch)
            w = dict(instance=inst, value=k, known=dict(model), force=force)
            ctx.case(("server-version", repr(w)))
            if inst not in model or force:
                with ctx.guard("server-version", **w):
                    c.set_server_ver(inst, v, force=force) if force else c.set_server_ver(inst, v)
                model[inst] = k
            elif k[:2] == model[inst][:2] and k <= model[inst]:
                with ctx.guard("server-version", **w):
                    c.set_server_ver(inst, v)
            else:
                ctx.rejects(lambda: c.set_server_ver(inst, v), "server-version", **w)
            ctx.eq({i: (x.major, x.minor, x.patch) for i, x in c.server_ver.items()}, model, "server-versions", **w)
            if rng.random() < 0.05:
                c.clear_server_ver()
                model.clear()
                ctx.eq(dict(c.server_ver), {}, "server-versions-cleared")

    # the firmware told by the meter must not be later than the known one of the same instance
    for _ in range(ctx.n(150)):
        c = col.Collection()
        known = {b: V(rng.choice((1, 1, 2)), rng.choice((3, 4, 10)), rng.choice((9, 10, 20))) for b in rng.sample((0, 1, 2, 64), rng.randrange(4))}
        with ctx.guard("firmware-set-up"):
            for b, v in known.items():
                c.set_server_ver(b, v)
        for b in rng.sample((0, 1, 2, 64), 2):
            with ctx.guard("firmware-set-up"):
                o = c.add(class_id=ut.CosemClassId(1), version=cdt.Unsigned(0), logical_name=cst.LogicalName(f"0.{b}.0.2.1.255"))
            for _k in range(3):
                v = V(rng.choice((1, 1, 2)), rng.choice((3, 4, 10)), rng.choice((9, 10, 20))) if b not in known or rng.random() < 0.7 else known[b]
                t = f"{v.major}.{v.minor}.{v.patch}".encode()
                w = dict(instance=b, told=t, known={i: (x.major, x.minor, x.patch) for i, x in known.items()}, again=_k)
                ctx.case(("firmware", repr(w)))
                k = known.get(b)
                if k is None or (v.major, v.minor, v.patch) <= (k.major, k.minor, k.patch):
                    with ctx.guard("firmware-taken", **w):
                        o.set_attr(2, b"\x09" + bytes((len(t),)) + t)
                        ctx.eq(bytes(o.value.contents), t, "firmware-taken", **w)
                    ctx.count("firmware taken")
                else:
                    ctx.rejects(lambda: o.set_attr(2, b"\x09" + bytes((len(t),)) + t), "firmware-later", exc=(exc.NeedUpdate,), **w)
                    ctx.count("firmware later")
    ctx.require("firmware later", 50)
    ctx.require("firmware taken", 50)
    # the manufacturer as it is in the logical device name
    for _ in range(ctx.n(60)):
        c = col.Collection()
        m = bytes(rng.choice((rng.randrange(65, 91), rng.randrange(97, 123))) for _k in range(3))
        with ctx.guard("manufacturer-of-name", name=m):
            o = c.get(bytes((0, 0, 42, 0, 0, 255)))
            o.set_attr(2, b"\x09\x10" + m + rng.randbytes(13))
            ctx.eq((c.manufacturer, o.manufacturer), (m, m), "manufacturer-of-name")
        ctx.case(("ldn", m))

    # equality by identification only
    def ident(k):
        c = col.Collection()
        if k[0]:
            c.set_manufacturer(k[0])
        if k[1]:
            c.set_server_type(cdt.OctetString(bytearray(k[1])))
        if k[2]:
            c.set_collection_ver(V(*k[2]))
        return c
    ks = [(m, t, v) for m in (None, b"KPZ", b"ITE") for t in (None, b"A", b"B") for v in (None, (1, 2, 3), (1, 2, 4))]
    for _ in range(ctx.n(300)):
        a, b = rng.choice(ks), rng.choice(ks)
        if rng.random() < 0.4:
            b = a
        ctx.case(("equal", a, b))
        with ctx.guard("equality", a=a, b=b):
            ca, cb = ident(a), ident(b)
            if rng.random() < 0.5:
                cb.add(class_id=ut.CosemClassId(8), version=cdt.Unsigned(0), logical_name=L((0, 0, 1, 0, 0, 255)))
            ctx.eq(ca == cb, a == b, "equality", a=a, b=b)
            if a == b:
                ctx.eq(hash(ca), hash(cb), "equal-hash", a=a)
    # the logical device name settles the manufacturer
    for _ in range(ctx.n(60)):
        man = rng.choice((None, b"KPZ", b"ITE"))
        ldn = rng.choice((b"KPZ0000000000001", b"ITE0000000000001"))
        ctx.case(("ldn", man, ldn))
        c = col.Collection()
        if man:
            c.set_manufacturer(man)
        enc = b"\x09\x10" + ldn
        if man in (None, ldn[:3]):
            with ctx.guard("device-name"):
                c.LDN.set_attr(2, enc)
                ctx.eq(c.manufacturer, ldn[:3], "manufacturer-from-name")
        else:
            ctx.rejects(lambda: c.LDN.set_attr(2, enc), "foreign-device-name", manufacturer=man, ldn=ldn)
            ctx.eq(c.manufacturer, man, "manufacturer-kept")
    for k in ("op remove", "version found", "association by address", "several versions", "named found", "not missing"):
        ctx.require(k, 5)
