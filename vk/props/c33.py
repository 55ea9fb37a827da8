"""Copies of a collection: complete and independent."""
import os

from ..members import member, NotModelled

NEEDS_TYPES = True
SCALE = 2
RULE = ("collections of the meter types with random values in random attributes, copied one or several times and copies of copies; then random changes of values (whole, of one member, of units), "
        "objects and identification of one of them, every other collection compared with its image before; copies of values between collections. Non-trivial: distinct (type, object, attribute, value).")
MODULES = ("cosem_interface_classes.collection",)


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection as col, cosem_interface_class as ic
    from src.DLMS_SPODES.version import AppVersion
    from src.DLMS_SPODES import exceptions as exc
    from ..env import quiet
    rng = ctx.sub("copy")
    GOOD = [(m, t, v) for m, t, v in [(b"KPZ", b"M2M_3", v) for v in ("1.4.15", "1.4.17", "1.6.2")] + [(b"KPZ", b"M2M_1", "1.4.15"), (b"102", b"M2M_3", "1.3.30"), (b"101", b"M2M_1", "1.3.30"), (b"104", b"M2M_3T", "1.3.30"), (b"KPZ", b"M2M_3T", "1.4.12")]
            if os.path.exists(f"Types/{m.decode()}/09{len(t):02x}{t.hex()}/{v}.typ")]

    def fresh(which):
        m, t, v = which
        with quiet():
            return col.get_collection(manufacturer=m, server_type=cdt.OctetString(bytearray(t)), server_ver=AppVersion.from_str(v))

    def key(o):
        return tuple(o.logical_name.contents)

    def phys(v):
        """what a user sees of a number"""
        if isinstance(v, cdt.Digital) and v.SCALER_UNIT is not None:
            return bytes(v.SCALER_UNIT.encoding)
        return None

    def image(c):
        return {(key(o), i): None if v is None else (type(v), bytes(v.encoding), phys(v)) for o in c for i, v in o.get_index_with_attributes()}

    def classes(c):
        return [(key(o), int(o.CLASS_ID), int(o.VERSION), type(o)) for o in c]

    def ident(c):
        return (c.manufacturer, c.country, str(c.country_ver), str(c.collection_ver), c.dlms_ver)

    def listed(c):
        best = max((a for a in c.get_objects_by_class_id(15) if a.object_list is not None), key=lambda a: len(a.object_list))
        return {tuple(e.logical_name.contents) for e in best.object_list}

    def randomize(o, i):
        v = o.get_attr(i)
        el = o.get_attr_element(i)
        if v is None and isinstance(el.DATA_TYPE, ut.CHOICE) or int(o.CLASS_ID) == 7 and i in (2, 3, 6):   # (a buffer and its columns change together)
            return False
        try:
            if getattr(v, "is_xdr", False):        # a name kept as octets takes arcs of object identifiers only
                enc = b"\x09\x07\x60\x85\x74\x05\x08" + (bytes((1, rng.randint(1, 4))) if i == 4 else bytes((2, rng.randint(0, 2))))
            else:
                enc = member(rng, type(v) if v is not None else el.DATA_TYPE, cdt, 0)
        except NotModelled:
            return False
        with quiet():
            try:
                o.set_attr(i, enc)
            except (ValueError, exc.NoObject, exc.ITEApplication, exc.EmptyObj):
                return False
        return True

    def prolong(a):
        """elements added, more than an octet counts"""
        try:
            enc = bytes(a[0].encoding)
            for _ in range(rng.choice((127, 128, 255, 256, 300))):
                a.append(type(a[0])(enc))
            ctx.count("long array")
        except (ValueError, TypeError):
            """elements are unique"""

    def mutate(c):
        """one change of a collection by any of the ways"""
        objs = [o for o in c if int(o.CLASS_ID) not in (12,) and key(o) not in ((0, 0, 42, 0, 0, 255), (0, 0, 0, 2, 1, 255))]
        kind = rng.choice(("value", "value", "value", "member", "array", "unit", "clear", "remove", "add", "link"))
        o = rng.choice(objs)
        idx = [i for i, v in o.get_index_with_attributes() if i != 1]
        i = rng.choice(idx)
        if kind == "value":
            if int(o.CLASS_ID) == 15 and i == 2:
                return None
            return kind if randomize(o, i) else None
        if kind == "member":
            st = [(o, i) for o in objs for i, v in o.get_index_with_attributes() if i != 1 and isinstance(v, cdt.Structure) and len(v) and not getattr(v, "is_xdr", False)]
            if not st:
                return None
            o, i = rng.choice(st)
            s = o.get_attr(i)
            k = rng.randrange(len(s))
            try:
                enc = member(rng, type(s[k]), cdt, 0)
                with quiet():
                    s[k].set(enc)
            except (NotModelled, ValueError):
                return None
            return kind
        if kind == "array":
            ar = [(o, i) for o in objs for i, v in o.get_index_with_attributes() if i != 1 and isinstance(v, cdt.Array) and len(v)]
            if not ar:
                return None
            a = rng.choice(ar)
            long = rng.random() < 0.3 and int(a[0].CLASS_ID) not in (7, 15)
            a = a[0].get_attr(a[1])
            with quiet():
                if long:
                    prolong(a)
                    return kind
                a.pop(rng.randrange(len(a)))
            return kind
        if kind == "unit":
            r = [o for o in objs if int(o.CLASS_ID) in (3, 4, 5) and o.scaler_unit is not None]
            o = rng.choice(r)
            o.scaler_unit.scaler.set(rng.randrange(-6, 7))
            return kind
        if kind == "clear":
            o.clear_attr(i)
            return kind
        if kind == "remove":
            c.try_remove(o.logical_name)
            return kind
        if kind == "add":
            ln = cst.LogicalName(f"1.0.{rng.choice((1, 2, 21, 22, 41, 42))}.{rng.choice((7, 27))}.{rng.randrange(100)}.255")
            with quiet():
                c.add_if_missing(class_id=ut.CosemClassId(3), version=cdt.Unsigned(0), logical_name=ln)
            return kind
        r = [x for x in objs if int(x.CLASS_ID) == 3 and x.scaler_unit is not None]
        if len(r) > 1:
            a, b = rng.sample(r, 2)
            a.set_attr_link(3, cdt.ScalUnitType(bytes(b.scaler_unit.encoding)))
            return kind

    for _ in range(ctx.n(9)):
        which = rng.choice(GOOD)
        with ctx.guard("copy", type=which):
            c = fresh(which)
            ins = listed(c)
            objs = [o for o in c if key(o) in ins and int(o.CLASS_ID) != 15 and key(o) not in ((0, 0, 42, 0, 0, 255), (0, 0, 0, 2, 1, 255))]
            for o in rng.sample(objs, min(len(objs), rng.choice((0, 5, 60)))):
                for i, v in list(o.get_index_with_attributes())[1:]:
                    if rng.random() < 0.5:
                        randomize(o, i)
            ar = [v for o in objs for i, v in o.get_index_with_attributes() if int(o.CLASS_ID) not in (7, 15) and isinstance(v, cdt.Array) and len(v)]
            for a in rng.sample(ar, min(len(ar), 3)) if rng.random() < 0.6 else ():
                with quiet():
                    prolong(a)
            before = image(c), classes(c), ident(c)
            with quiet():
                d = c.copy()
            w = dict(type=which)
            ctx.eq((image(c), classes(c), ident(c)), before, "copied-kept", **w)
            ctx.eq(classes(d), before[1], "copy-objects", **w)
            ctx.eq(ident(d), before[2], "copy-identification", **w)
            for o in d:
                ctx.check(o.collection is d, "copy-belongs", "an object of the copy belongs to another collection", object=str(o.logical_name), **w)
            img = image(d)
            src = {key(o): o for o in c}
            own = {}
            for o in d:
                s = src[key(o)]
                ctx.check(o is not s, "copy-object-shared", "the object itself is shared", object=str(o.logical_name), **w)
                if key(o) not in ins:
                    continue
                for i, v in o.get_index_with_attributes():
                    sv = s.get_attr(i)
                    if v is not None:
                        ctx.check(v is not sv or i == 1, "copy-value-shared", "the value itself is shared by copies", object=str(o.logical_name), index=i, **w)
                    el = o.get_attr_element(i)
                    if i == 1 or sv is None or (el.classifier == ic.Classifier.DYNAMIC and not isinstance(el.DATA_TYPE, ut.CHOICE)):
                        continue
                    ctx.case(("copy", which, key(o), i, bytes(sv.encoding)))
                    ctx.eq(img[key(o), i] and img[key(o), i][:2], (type(sv), bytes(sv.encoding)), "copy-value", object=str(o.logical_name), index=i, **w)
                    if int(o.CLASS_ID) == 3 and o.scaler_unit is not None and isinstance(v, cdt.Digital):
                        ctx.check(v.SCALER_UNIT is o.scaler_unit, "copy-unit", "a value of the copy is in units of another object", object=str(o.logical_name), **w)
            # thresholds of limiters stay in units of what they limit
            for o in d:
                if int(o.CLASS_ID) == 71 and key(o) in ins:
                    for i in (3, 4, 5):
                        v, sv = o.get_attr(i), src[key(o)].get_attr(i)
                        if v is not None and sv is not None:
                            ctx.count("thresholds")
                            ctx.eq(phys(v), phys(sv), "copy-threshold-unit", object=str(o.logical_name), index=i, **w)
            # each element of an array, the deepest value of it
            for o in d:
                for i, v in o.get_index_with_attributes():
                    sv = src[key(o)].get_attr(i)
                    if not isinstance(sv, cdt.Array) or not len(sv) or not isinstance(v, cdt.Array) or rng.random() < 0.5:
                        continue
                    x = sv[rng.randrange(len(sv))]
                    while isinstance(x, (cdt.Array, cdt.Structure)) and len(x):
                        x = x[rng.randrange(len(x))]
                    if isinstance(x, (cdt.Array, cdt.Structure)):
                        continue
                    old, was = bytes(sv.encoding), bytes(v.encoding)
                    try:
                        with quiet():
                            x.set(member(rng, type(x), cdt, 0))
                    except (NotModelled, ValueError, exc.DLMSException, RuntimeError):
                        continue
                    if bytes(sv.encoding) != old:
                        ctx.count("change deep")
                        ctx.eq(bytes(v.encoding), was, "copy-element-shared", "an element of an array is shared by copies", object=str(o.logical_name), index=i, **w)
            # histories of changes in several copies
            with quiet():
                family = {"source": c, "copy": d, "copy of copy": d.copy(), "fresh": fresh(which)}
            images = {n: (image(x), classes(x), ident(x)) for n, x in family.items()}
            for step in range(16):
                n = rng.choice(list(family))
                done = mutate(family[n])
                if done is None:
                    continue
                ctx.count(f"change {done}")
                ctx.count("change of " + n)
                for m, x in family.items():
                    if m != n:
                        now = image(x), classes(x), ident(x)
                        if now != images[m]:
                            bad = [k for k in set(now[0]) | set(images[m][0]) if now[0].get(k) != images[m][0].get(k)]
                            ctx.fail("copy-independent", "a change of one collection is seen in another", changed=n, seen=m, change=done, where=bad[:3], **w)
                            images[m] = now
                images[n] = image(family[n]), classes(family[n]), ident(family[n])
            ctx.case(("history", which, _))

    # ---- the copy keeps the kind of device and may get a name of its own
    SPOT = [(3, 0, "1.0.1.8.0.255"), (1, 0, "0.0.96.5.1.255"), (1, 0, "0.0.96.51.5.255"), (1, 0, "0.0.97.98.0.255"), (7, 1, "1.0.94.7.1.255"), (1, 0, "0.0.94.7.130.255"), (1, 0, "0.0.96.11.0.255"), (1, 0, "0.0.128.100.0.255"), (1, 0, "1.0.0.8.4.255"), (7, 1, "0.0.99.98.0.255")]
    for _ in range(ctx.n(8)):
        which = rng.choice(GOOD)
        with ctx.guard("copy-kind", type=which):
            with quiet():
                src = col.Collection.from_xml(f"Types/{which[0].decode()}/09{len(which[1]):02x}{which[1].hex()}/{which[2]}.typ")
            ldn = src.manufacturer + rng.randbytes(13)
            named = rng.random() < 0.7
            if rng.random() < 0.5:
                src.LDN.set_attr(2, b"\x09\x10" + src.manufacturer + rng.randbytes(13))
            was = src.LDN.value and bytes(src.LDN.value.contents)
            with quiet():
                ctx.rejects(lambda: src.copy(ldn=col.octet_string.LDN(b"\x09\x10" + b"XYZ" + ldn[3:])), "copy-name-of-another-manufacturer", type=which)
            with quiet():
                d = src.copy(ldn=col.octet_string.LDN(b"\x09\x10" + ldn)) if named else src.copy()
            ctx.case(("copy-kind", which, ldn, named))
            if named:
                ctx.eq(d.LDN.value and bytes(d.LDN.value.contents), ldn, "copy-name", type=which)
            ctx.eq(src.LDN.value and bytes(src.LDN.value.contents), was, "copy-name-of-source", type=which)
            ctx.check(d.LDN.collection is d and d.LDN is not src.LDN, "copy-name-object", type=which)
            for cid, ver, ln in SPOT:
                kinds = []
                for x in (src, d):
                    with quiet():
                        x.try_remove(cst.LogicalName(ln))
                        try:
                            kinds.append(type(x.add(class_id=ut.CosemClassId(cid), version=cdt.Unsigned(ver), logical_name=cst.LogicalName(ln))))
                        except (ValueError, exc.DLMSException) as e:
                            kinds.append(type(e))
                ctx.eq(kinds[1], kinds[0], "copy-specification", type=which, ln=ln)
    # objects that need each other, listed in any order; lists of several associations
    for _ in range(ctx.n(25)):
        with ctx.guard("copy-order"):
            c = col.Collection()
            regs = [f"1.0.{k}.8.0.255" for k in rng.sample(range(1, 10), rng.randint(1, 5))]
            objs = [(3, 0, ln) for ln in regs] + [(8, 0, "0.0.1.0.0.255")] + [(7, 1, f"1.0.99.{k}.0.255") for k in (1, 2)] + [(7, 1, "0.0.99.98.0.255"), (71, 0, "0.0.17.0.0.255"), (21, 0, "0.0.16.1.0.255")]
            rng.shuffle(objs)
            entry = lambda cid, ver, ln: b"\x02\x04\x12" + cid.to_bytes(2, "big") + b"\x11" + bytes((ver,)) + b"\x09\x06" + bytes(map(int, ln.split("."))) + b"\x02\x02\x01" + bytes((len(RIGHTS[cid]),)) + b"".join(b"\x02\x03\x0f" + bytes((i + 1,)) + b"\x16" + bytes((m,)) + b"\x00" for i, m in enumerate(RIGHTS[cid])) + b"\x01\x00"
            RIGHTS = {cid: [rng.choice((1, 3)) for _i in range(n)] for cid, n in ((1, 2), (3, 3), (7, 8), (8, 9), (21, 4), (71, 11))}
            full = rng.randint(1, 7)
            lists = {full: objs}
            for n in rng.sample(range(1, 8), 2):
                if n != full:
                    lists[n] = rng.sample(objs, rng.randrange(0, 4))
            ldn = (1, 0, "0.0.42.0.0.255")
            with quiet():
                for n in rng.sample(list(lists), len(lists)):
                    c.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(1), logical_name=cst.LogicalName(f"0.0.40.0.{n}.255"))
                for n in rng.sample(list(lists), len(lists)):
                    els = [ldn] + lists[n]
                    rng.shuffle(els)
                    c.getASSOCIATION(n).set_attr(2, b"\x01" + bytes((len(els),)) + b"".join(entry(*e) for e in els))
                for ln in regs:
                    c.get_object(ln).set_attr(2, b"\x06" + rng.randbytes(4))
                    c.get_object(ln).set_attr(3, b"\x02\x02\x0f" + bytes((rng.randrange(4),)) + b"\x16\x1e")
                cap = lambda ln, cid: b"\x02\x04\x12" + cid.to_bytes(2, "big") + b"\x09\x06" + bytes(map(int, ln.split("."))) + b"\x0f\x02\x12\x00\x00"
                cols = [cap("0.0.1.0.0.255", 8)] + [cap(ln, 3) for ln in regs]
                for ln in ("1.0.99.1.0.255", "1.0.99.2.0.255", "0.0.99.98.0.255"):
                    mine = rng.sample(cols, rng.randint(1, len(cols)))
                    p = c.get_object(ln)
                    p.set_attr(6, mine[0])
                    p.set_attr(3, b"\x01" + bytes((len(mine),)) + b"".join(mine))
                value = b"\x02\x03\x12\x00\x03\x09\x06" + bytes(map(int, regs[0].split("."))) + b"\x0f\x02"
                c.get_object("0.0.17.0.0.255").set_attr(2, value)
                c.get_object("0.0.17.0.0.255").set_attr(4, b"\x06" + rng.randbytes(4))
                c.get_object("0.0.16.1.0.255").set_attr(3, value)
                c.get_object("0.0.16.1.0.255").set_attr(2, b"\x01\x01\x06" + rng.randbytes(4))
                d = c.copy()
            w = dict(objects=[o[2] for o in objs], lists={n: [o[2] for o in v] for n, v in lists.items()})
            ctx.case(("copy-order", tuple(objs), tuple(regs)))
            a, b = image(c), image(d)
            bad = {}
            for o in c:
                if int(o.CLASS_ID) == 15:
                    continue
                for i, v in o.get_index_with_attributes():
                    el = o.get_attr_element(i)
                    if v is not None and i != 1 and (el.classifier != ic.Classifier.DYNAMIC or isinstance(el.DATA_TYPE, ut.CHOICE)) and (b[key(o), i] and b[key(o), i][1:]) != a[key(o), i][1:]:
                        bad[key(o), i] = (a[key(o), i], b[key(o), i])
            ctx.eq(bad, {}, "copy-order", **w)

    # limiters of limiters and monitors listed before what they monitor
    for _ in range(ctx.n(12)):
        with ctx.guard("copy-chain"):
            c = col.Collection()
            n = rng.randint(2, 9)
            lim = [f"0.0.17.0.{k}.255" for k in range(n)]
            objs = [(71, 0, ln) for ln in reversed(lim)] if rng.random() < 0.7 else rng.sample([(71, 0, ln) for ln in lim], n)
            objs = [(21, 0, f"0.0.16.1.{k}.255") for k in range(2)] + objs + [(3, 0, "1.0.1.8.0.255")] + [(8, 0, "0.0.1.0.0.255")]
            mode = [rng.choice((1, 1, 1, 3)) for _i in range(12)] if rng.random() < 0.7 else [3] * 12
            entry = lambda cid, ver, ln: b"\x02\x04\x12" + cid.to_bytes(2, "big") + b"\x11" + bytes((ver,)) + b"\x09\x06" + bytes(map(int, ln.split("."))) + b"\x02\x02\x01" + bytes((11,)) + b"".join(b"\x02\x03\x0f" + bytes((i + 1,)) + b"\x16" + bytes((mode[i + 1],)) + b"\x00" for i in range(11)) + b"\x01\x00"
            with quiet():
                c.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(1), logical_name=cst.LogicalName("0.0.40.0.3.255"))
                c.getASSOCIATION(3).set_attr(2, b"\x01" + bytes((len(objs),)) + b"".join(entry(*e) for e in objs))
                c.get_object("1.0.1.8.0.255").set_attr(2, b"\x06" + rng.randbytes(4))
                c.get_object("1.0.1.8.0.255").set_attr(3, b"\x02\x02\x0f" + bytes((rng.randrange(4),)) + b"\x16" + bytes((rng.choice((27, 30, 35)),)))
                what = lambda cid, ln, i: b"\x02\x03\x12" + cid.to_bytes(2, "big") + b"\x09\x06" + bytes(map(int, ln.split("."))) + b"\x0f" + bytes((i,))
                for k in range(n):
                    o = c.get_object(lim[k])
                    o.set_attr(2, what(3, "1.0.1.8.0.255", 2) if k == 0 else what(71, lim[k - 1], 4))
                    o.set_attr(4, b"\x06" + rng.randbytes(4))
                for k in range(2):
                    o = c.get_object(f"0.0.16.1.{k}.255")
                    o.set_attr(3, what(3, "1.0.1.8.0.255", 2) if k else what(71, rng.choice(lim), 4))
                    o.set_attr(2, b"\x01\x02" + b"".join(b"\x06" + rng.randbytes(4) for _k in range(2)))
                d = c.copy()
            w = dict(objects=[o[2] for o in objs], limiters=n, rights=mode)
            ctx.count("chains of %s limiters" % ("many" if n > 4 else "few"))
            ctx.case(("copy-chain", tuple(objs)))
            a, b = image(c), image(d)
            for o in c:
                if int(o.CLASS_ID) in (3, 21, 71):
                    for i in (2, 3, 4):
                        if a.get((key(o), i)) is not None:
                            ctx.eq(b.get((key(o), i)), a[key(o), i], "copy-chain", object=str(o.logical_name), index=i, **w)
            for k in range(2):
                name = f"0.0.16.1.{k}.255"
                ctx.eq(d.get_object(name).thresholds.TYPE, c.get_object(name).thresholds.TYPE, "copy-type-of-monitored", object=name, **w)
                ctx.rejects(lambda: d.get_object(name).thresholds.append(b"\x12\x00\x01"), "copy-threshold-of-another-type", exc=(ValueError, exc.DLMSException), object=name, **w)

    # ---- values taken from another collection
    for _ in range(ctx.n(6)):
        a, b = rng.choice(GOOD), rng.choice(GOOD)
        if rng.random() < 0.6:
            b = a
        with ctx.guard("values-from", source=a, target=b):
            c, d = fresh(a), fresh(b)
            objs = [o for o in c if int(o.CLASS_ID) in (1, 3, 4, 8, 9, 10, 20, 22, 23, 40, 41, 42, 70) and key(o) not in ((0, 0, 42, 0, 0, 255), (0, 0, 0, 2, 1, 255))]
            for o in rng.sample(objs, 30):
                for i, v in list(o.get_index_with_attributes())[1:]:
                    if rng.random() < 0.5 and v is not None:
                        randomize(o, i)
            for o in rng.sample(objs, 24):
                t = d.get(bytes(key(o)))
                base, cbase = image(d), image(c)
                w = dict(source=a, target=b, object=str(o.logical_name))
                if t is None:
                    with quiet():
                        ctx.eq(d.copy_obj_attr_values_from(o), False, "missing-reported", **w)
                    ctx.eq(image(d), base, "missing-kept", **w)
                    ctx.count("values from: missing")
                    continue
                fit = type(t) is type(o) and all(v is None or (t.get_attr(i) is not None and type(t.get_attr(i)) is type(v)) or (t.get_attr(i) is None and (a == b or not isinstance(t.get_attr_element(i).DATA_TYPE, ut.CHOICE))) for i, v in o.get_index_with_attributes())
                if not fit:
                    continue
                with quiet():
                    ctx.eq(d.copy_obj_attr_values_from(o), True, "copied-reported", **w)
                now = image(d)
                ctx.eq(image(c), cbase, "source-kept", **w)
                for i, v in o.get_index_with_attributes():
                    if v is not None:
                        ctx.case(("from", a, b, key(o), i, bytes(v.encoding)))
                        ctx.eq(now[key(o), i][1], bytes(v.encoding), "values-copied", index=i, **w)
                        ctx.check(i == 1 or t.get_attr(i) is not v, "values-shared", "the value itself was taken", index=i, **w)
                    else:
                        ctx.eq(now[key(o), i], base[key(o), i], "unset-kept", index=i, **w)
                ctx.eq({k: (v, base.get(k)) for k, v in now.items() if k[0] != key(o) and (v and v[:2]) != (base.get(k) and base[k][:2])}, {}, "others-kept", **w)
                ctx.eq(list(now), list(base), "others-kept", **w)
                ctx.count("values from: copied")
    # whole collections: success only when each object was found
    with ctx.guard("collection-from"):
        def small(lns):
            c = col.Collection()
            with quiet():
                for ln, cid in lns:
                    c.add(class_id=ut.CosemClassId(cid), version=cdt.Unsigned(0), logical_name=cst.LogicalName(ln))
            return c
        LNS = [("0.0.1.0.0.255", 8), ("1.0.0.4.2.255", 1), ("0.0.96.1.1.255", 1), ("1.0.1.8.0.255", 3), ("1.0.2.8.0.255", 3), ("0.0.10.0.0.255", 9)]
        for _ in range(ctx.n(60)):
            a = rng.sample(LNS, rng.randrange(1, len(LNS)))
            b = rng.sample(LNS, rng.randrange(0, len(LNS)))
            c, d = small(a), small(b)
            vals = {}
            for ln, cid in a:
                o = c.get(cst.LogicalName(ln).contents)
                if cid == 8:
                    o.set_attr(3, vals.setdefault(ln, (3, b"\x10" + rng.randrange(-720, 721).to_bytes(2, "big", signed=True)))[1])
                elif cid in (1, 3):
                    o.set_attr(2, vals.setdefault(ln, (2, b"\x11" + bytes((rng.randrange(256),))))[1])
            with quiet():
                res = d.copy_objects_attr_values_from(c)
            missing = {ln for ln, _c in a} - {ln for ln, _c in b}
            ctx.case(("small", tuple(a), tuple(b)))
            ctx.eq(res, not missing, "success-reported", source=a, target=b)
            for ln, (i, enc) in vals.items():
                if ln not in missing:
                    ctx.eq(bytes(d.get(cst.LogicalName(ln).contents).get_attr(i).encoding), enc, "found-copied", source=a, target=b, object=ln)
            ctx.eq({str(o.logical_name) for o in d}, {ln for ln, _c in b} | {"0.0.42.0.0.255"}, "no-objects-added")
    # objects of different names: the name isn't a value
    def lone(ln, cid, ver=0):
        c = col.Collection()
        with quiet():
            c.add(class_id=ut.CosemClassId(cid), version=cdt.Unsigned(ver), logical_name=cst.LogicalName(ln))
        return c, c.get(cst.LogicalName(ln).contents)
    for _ in range(ctx.n(40)):
        with ctx.guard("other-name"):
            cid, a, b = rng.choice(((3, "1.0.1.8.0.255", "1.0.2.8.0.255"), (8, "0.0.1.0.0.255", "0.0.1.0.1.255"), (1, "0.0.96.1.0.255", "0.0.96.1.1.255"), (9, "0.0.10.0.0.255", "0.0.10.0.100.255")))
            (c, s), (d, t) = lone(a, cid), lone(b, cid)
            s.collection = None
            if cid == 8:
                s.set_attr(3, 60)
            elif cid == 3:
                s.set_attr(2, b"\x06" + rng.randbytes(4))
            t.copy(s)
            ctx.case(("other-name", cid, a, b))
            ctx.eq((str(t.logical_name), str(s.logical_name)), (b, a), "name-kept", cls=cid)
            ctx.check(d.get(cst.LogicalName(b).contents) is t, "name-found", cls=cid)
    ctx.require("change deep", 30)
    ctx.require("change value", 20)
    ctx.require("change array", 3)
    ctx.require("change unit", 3)
    ctx.require("values from: copied", 30)
