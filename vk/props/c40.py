"""Objects of the interface classes: attributes and methods in the standard's order and types."""
from .. import axdr, icspec

RULE = ("every implemented (class, version) with random names; histories of setting, changing, refusing, clearing and resetting attributes against a model of index -> octets written from the Blue Book; "
        "values of every attribute and method parameter generated from the standard's types. Non-trivial: distinct (class, attribute, octets).")
MODULES = ("cosem_interface_classes", "types.implementations")


def run(ctx):
    from ..env import load, quiet
    cdt, ut, cst = load("types.common_data_types"), load("types.useful_types"), load("types.cosem_service_types")
    col, exc = load("cosem_interface_classes.collection"), load("exceptions")
    push = load("cosem_interface_classes.push_setup.ver2")
    rng = ctx.rng
    REF = (ValueError, TypeError, exc.DLMSException)

    def cls(c, v):
        if c == 40:
            return push.PushSetup
        return col.get_interface_class(col.common_interface_class_map, ut.CosemClassId(c), cdt.Unsigned(v))

    def model_of(o, n):
        return {i: None if (a := o.get_attr(i)) is None else bytes(a.encoding) for i in range(1, n + 1)}

    # one element outside of its declared range, codes or length: the whole value is refused (of attributes and of parameters of methods)
    FREE = {(15, 3, (0,)), (15, 5, (3,)), (47, 6, (2,)), (47, 7, (0, 1))}      # told as wrong only when shown
    for (c, v), (attrs, meths) in icspec.CLASSES.items():
        with ctx.guard("declared-limits", cls=(c, v)), quiet():
            o = cls(c, v)(cst.LogicalName("0.0.1.0.0.255"))
            typed = [("attribute", i, a[1], o.get_attr_element(i).DATA_TYPE) for i, a in enumerate(attrs, 2) if icspec.tag(a[1]) is not None]
            typed += [("method", i, t, o.get_meth_element(i).DATA_TYPE) for i, (_n, t) in enumerate(meths, 1) if t is not None]
            for what, i, t, D in typed:
                if not isinstance(D, type):
                    continue
                for path in icspec.leaves(t):
                    if what == "attribute" and (c, i, path) in FREE:
                        continue
                    for _ in range(ctx.n(8, 80)):
                        enc = icspec.outside(rng, t, path)
                        if not enc:
                            continue
                        ctx.case((c, v, what, i, enc))
                        ctx.rejects(lambda: D(enc), "outside-declared", cls=(c, v), what=what, index=i, path=path, value=enc)
                        if what == "method" and o.get_meth(i) is not None:
                            was = bytes(o.get_meth(i).encoding)
                            ctx.rejects(lambda: o.get_meth(i).set(enc), "outside-declared", cls=(c, v), what=what, index=i, path=path, value=enc)
                            ctx.eq(bytes(o.get_meth(i).encoding), was, "refused-parameter-kept", cls=(c, v), index=i, path=path)
                        elif what == "attribute" and c not in (7, 15, 21, 71):
                            was = o.get_attr(i)
                            enc0 = was and bytes(was.encoding)
                            ctx.rejects(lambda: o.set_attr(i, enc), "outside-declared", cls=(c, v), what=what, index=i, path=path, value=enc)
                            ctx.check(o.get_attr(i) is was and (was is None or bytes(was.encoding) == enc0), "refused-attribute-kept", cls=(c, v), index=i, path=path)

    # members of structures by their names
    for names, places in icspec.MEMBERS.items():
        names = names.split()
        for c, v, what, i, way in places:
            w = dict(cls=(c, v), attribute=i) if what == "a" else dict(cls=(c, v), method=i)
            with ctx.guard("members", **w), quiet():
                o = cls(c, v)(cst.LogicalName(bytearray(b"\x01\x00\x01\x08\x00\xff")))
                spec = icspec.CLASSES[c, v][what == "m"][i - (2 if what == "a" else 1)][1]
                t = (o.get_attr_element(i) if what == "a" else o.get_meth_element(i)).DATA_TYPE
                for x in way:
                    t = t.TYPE if x == "*" else t.ELEMENTS[int(x)].TYPE
                    spec = spec if spec is None else spec[1] if x == "*" else spec[1 + int(x)] if spec[0] == "s" else None
                ctx.eq([e.NAME for e in t.ELEMENTS], names, "names-of-members", way=way, **w)
                ctx.count("structures by names")
                if spec == icspec.SU or (spec and spec[0] == "s"):
                    for _ in range(ctx.n(3)):
                        x = t(icspec.gen(rng, spec))
                        ctx.eq([getattr(x, nm) is x[k] for k, nm in enumerate(names)], [True] * len(names), "member-by-name", names=names, way=way, **w)
                        ctx.case(("members", c, v, what, i, way, bytes(x.encoding)))
    ctx.require("structures by names", 90)
    # members of the structures chosen by another member
    ch = load("types.choices")
    for choice, k, names in ((ch.restriction_value, 1, ("from_date", "to_date")), (ch.restriction_value, 2, ("from_entry", "to_entry")), (ch.key_info_options, 1, ("kek_id", "key_ciphered_data"))):
        with ctx.guard("members-of-choice", names=names):
            ctx.eq([e.NAME for e in choice.ELEMENTS[k].TYPE.ELEMENTS], list(names), "names-of-members-of-choice", number=k)
            ctx.case(("members-of-choice", names))
    # classes of a country or a manufacturer are those of the standard, only the values of data are narrowed
    ic = load("cosem_interface_classes.cosem_interface_class")

    def subs(c):
        for s in c.__subclasses__():
            yield s
            yield from subs(s)
    for T in sorted(set(subs(ic.COSEMInterfaceClasses)), key=lambda t: (t.__module__, t.__name__)):
        key = getattr(T, "CLASS_ID", None), getattr(T, "VERSION", None)
        if key[0] is None or key[1] is None or "DLMS_SPODES" not in T.__module__ or (key := tuple(map(int, key))) not in icspec.CLASSES or T is (B := cls(*key)):
            continue
        w = dict(narrowed=T.__name__, cls=key)
        with ctx.guard("narrowed-class", **w):
            attrs, meths = icspec.CLASSES[key]
            for i in range(1, len(attrs) + 2):
                a, b = B.get_attr_element(i), T.get_attr_element(i)
                ctx.eq(b.NAME, a.NAME, "narrowed-attribute", attribute=i, **w)
                if not (key == (1, 0) and i == 2):
                    ctx.eq(b.default, a.default, "narrowed-attribute-default", attribute=i, **w)
                x, y = a.DATA_TYPE, b.DATA_TYPE
                ctx.check(x is y or key == (1, 0) and i == 2 or isinstance(x, type) and isinstance(y, type) and issubclass(y, x), "narrowed-type", attribute=i, types=(x, y), **w)
                ctx.case(("narrowed", T.__module__, T.__name__, i))
            ctx.rejects(lambda: T.get_attr_element(len(attrs) + 2), "narrowed-attribute-outside", exc=(IndexError,), **w)
            for i in range(1, len(meths) + 1):
                a, b = B.get_meth_element(i), T.get_meth_element(i)
                ctx.eq((b.NAME, b.DATA_TYPE), (a.NAME, a.DATA_TYPE), "narrowed-method", number=i, **w)
            ctx.count("narrowed classes")
    ctx.require("narrowed classes", 40)
    # tables of a new object are empty, ready to be edited
    for (c, v), places in {(7, 1): (2,), (9, 0): (2,), (10, 0): (2,), (11, 0): (2,), (20, 0): (3, 4, 5, 7, 8, 9), (21, 0): (2,), (64, 1): (6,), (68, 0): (2, 3, 4, 5)}.items():
        for i in places:
            with ctx.guard("empty-table", cls=(c, v), attribute=i):
                ctx.eq(bytes(cls(c, v)(cst.LogicalName(bytearray(6))).get_attr(i).encoding), b"\x01\x00", "empty-table", cls=(c, v), attribute=i)
                ctx.case(("empty-table", c, v, i))
    for (c, v), (attrs, meths) in icspec.CLASSES.items():
        n = len(attrs) + 1
        settable = [i for i, a in enumerate(attrs, 2) if not (len(a) > 3 and "x" in a[3])]
        with ctx.guard("class", cls=(c, v)), quiet():
            T = cls(c, v)
            for _ in range(ctx.n(30, 400)):
                raw = rng.randbytes(6)
                o, p = T(cst.LogicalName(bytearray(raw))), T(cst.LogicalName(bytearray(rng.randbytes(6))))
                w = dict(cls=(c, v), ln=raw.hex())
                ctx.eq(bytes(o.CLASS_ID.contents), c.to_bytes(2, "big"), "class-id", **w)
                ctx.eq(int(o.VERSION), v, "version", **w)
                ctx.eq(o.get_attr_length(), n, "number-of-attributes", **w)
                ctx.eq(bytes(o.logical_name.contents), raw, "logical-name", **w)
                ctx.eq(bytes(o.get_obis()), raw, "obis", **w)
                # descriptors of every attribute and method
                for i in range(1, n + 1):
                    d = c.to_bytes(2, "big") + raw + bytes((i,))
                    ctx.eq(bytes(o.get_attr_descriptor(i).contents), d, "attribute-descriptor", attribute=i, **w)
                    ctx.eq(bytes(o.get_attribute_descriptor(i)), d, "attribute-descriptor", attribute=i, **w)
                for i, (name, t) in enumerate(meths, 1):
                    ctx.eq(bytes(o.get_meth_descriptor(i).contents), c.to_bytes(2, "big") + raw + bytes((i,)), "method-descriptor", method=i, **w)
                for bad in (0, -1, n + 1, n + 7):
                    ctx.rejects(lambda: o.get_attr(bad), "attribute-outside", exc=(IndexError,), attribute=bad, **w)
                ctx.rejects(lambda: o.clear_attr(1), "name-not-cleared", **w)
                for bad in (0, -1, -2, -n):
                    ctx.rejects(lambda: o.get_attr_element(bad), "element-outside", exc=(IndexError,), attribute=bad, **w)
                    ctx.rejects(lambda: o.get_meth_element(bad), "method-element-outside", exc=(IndexError,), method=bad, **w)
                    ctx.rejects(lambda: o.get_meth(bad), "method-outside", exc=(IndexError,), method=bad, **w)
                for bad in (1, 2, 9):
                    ctx.rejects(lambda: o.get_attr_element(n + bad), "element-outside", exc=(IndexError,), attribute=n + bad, **w)
                    ctx.rejects(lambda: o.get_meth_element(len(meths) + bad), "method-element-outside", exc=(IndexError,), method=len(meths) + bad, **w)
                    ctx.rejects(lambda: o.get_meth(len(meths) + bad), "method-outside", exc=(IndexError,), method=len(meths) + bad, **w)
                ctx.eq([(i, x is o.get_meth(i)) for i, x in o.it_index_with_meth], [(i, True) for i in range(1, len(meths) + 1)], "methods-iterated", **w)
                # attributes of a manufacturer have negative numbers
                for neg in (-1, -5, -128):
                    d = c.to_bytes(2, "big") + raw + bytes((neg & 0xff,))
                    ctx.eq((bytes(o.get_attr_descriptor(neg).contents), bytes(o.get_attribute_descriptor(neg))), (d, d), "attribute-descriptor", attribute=neg, **w)
                for field in ("CLASS_ID", "VERSION", "A_ELEMENTS", "M_ELEMENTS"):
                    ctx.rejects(lambda: setattr(o, field, getattr(o, field)), "class-facts-fixed", field=field, **w)
                low, high = rng.choice(((0, None), (1, None), (0, 1), (1, 1), (0, 2), (2, 2), (1, 8), (3, 300)))
                p.cardinality = low, high
                ctx.eq(p.string_type_cardinality, str(low) if low == high else f"{low}...{high or 'n'}", "cardinality", low=low, high=high, **w)
                p.cardinality = 0, None
                # the name is the object's own
                name = cst.LogicalName(bytearray(raw))
                r = T(name)
                name.set(bytearray(rng.randbytes(6)))
                ctx.eq((bytes(r.logical_name.contents), bytes(r.get_attr_descriptor(1).contents)), (raw, c.to_bytes(2, "big") + raw + b"\1"), "name-shared", **w)
                # an element changed in one respect is the same in all others
                for i in range(2, n + 1):
                    el = o.get_attr_element(i)
                    kind = rng.choice(list(type(el.classifier)))
                    for ch, want in ((el.get_change(data_type=cdt.Utf8String), (cdt.Utf8String, el.classifier)), (el.get_change(classifier=kind), (el.DATA_TYPE, kind)), (el.get_change(), (el.DATA_TYPE, el.classifier))):
                        ctx.check(ch.DATA_TYPE is want[0] and ch.classifier is want[1] and (ch.NAME, ch.min, ch.max, ch.default) == (el.NAME, el.min, el.max, el.default) and ch.selective_access is el.selective_access,
                                  "changed-element", attribute=i, **w)
                m, q = model_of(o, n), model_of(p, n)
                for i, a in enumerate(attrs, 2):
                    if len(a) > 2 and a[2] is not None:
                        ctx.eq(m[i], a[2], "default", attribute=i, **w)
                # parameters of methods
                for i, (name, t) in enumerate(meths, 1):
                    if t is None:
                        continue
                    val = icspec.gen(rng, t)
                    x = o.get_meth(i)
                    y = type(x)(val)
                    ctx.eq(bytes(y.encoding), val, "method-parameter", method=i, **w)
                    ctx.rejects(lambda: type(x)(icspec.other(rng, t)), "method-parameter-type", exc=REF, method=i, **w)
                    # the parameter of one object isn't another's
                    try:
                        if i <= len(meths) and p.get_meth(i) is not None:
                            was = bytes(p.get_meth(i).encoding)
                            x.set(val)
                            ctx.eq((bytes(o.get_meth(i).encoding), bytes(p.get_meth(i).encoding), bytes(T(cst.LogicalName(bytearray(raw))).get_meth(i).encoding)), (val, was, was), "method-parameter-shared", method=i, **w)
                    except REF + (NotImplementedError,):
                        ctx.count("parameter-not-set")
                    if name:
                        z = getattr(o, name)
                        ctx.check((z() if callable(z) else z) is x, "method-by-name", name=name, method=i, **w)
                    ctx.case((c, v, "m", i, val))
                # types of every attribute, as data
                for i, a in enumerate(attrs, 2):
                    t = a[1]
                    if icspec.tag(t) is None or (c, i) in ((7, 2), (21, 2), (71, 3), (71, 4), (71, 5)):
                        continue
                    val = icspec.gen(rng, t)
                    D = o.get_attr_element(i).DATA_TYPE
                    if isinstance(D, type):
                        ctx.eq(bytes(D(val).encoding), val, "attribute-type", attribute=i, **w)
                        ctx.rejects(lambda: D(icspec.other(rng, t)), "attribute-type-refused", exc=REF, attribute=i, **w)
                        if isinstance(t, str) and t[0] == "E":
                            lo, hi = map(int, t[2:].split("-"))
                            for e in {lo - 1, hi + 1, 255} - set(range(lo, hi + 1)):
                                if 0 <= e < 256:
                                    ctx.rejects(lambda: D(bytes((22, e))), "enumeration-outside", exc=REF, attribute=i, e=e, **w)
                        ctx.case((c, v, i, val))
                # history
                kinds = {i: rng.choice(("Unsigned", "Long", "DoubleLongUnsigned", "Long64")) for i in settable}
                if c == 5:
                    kinds[3], kinds[5] = kinds[2], "LongUnsigned"
                if c == 4:
                    kinds[4] = "OctetString"
                if c == 1:
                    kinds[2] = rng.choice(axdr.SIMPLE)
                hist = []
                for _s in range(rng.choice((3, 6, 12))):
                    i = rng.choice(settable)
                    t = attrs[i - 2][1]
                    op = rng.choice(("set", "set", "set", "from", "reset", "bad", "clear", "link", "record", "element", "encode"))
                    hist.append((op, i))
                    w["history"] = hist
                    if op == "set":
                        val = icspec.gen(rng, t, kinds[i])
                        was = o.get_attr(i)
                        try:
                            o.set_attr(i, val)
                            m[i] = val
                        except REF as e:
                            # the unit of a register does not fit a value already linked: other checks decide this
                            ctx.check(c in (3, 4, 5), "value-refused", got=repr(e), attribute=i, value=val.hex(), **w)
                        else:
                            if was is not None:
                                ctx.check(o.get_attr(i) is was, "same-object-after-change", attribute=i, **w)
                            ctx.case((c, v, i, val))
                    elif op == "from" and o.get_attr(i) is None and isinstance(D := o.get_attr_element(i).DATA_TYPE, type) and c not in (3, 4, 5, 15):
                        # a value made from another one lives its own life
                        src = D(icspec.gen(rng, t, kinds[i]))
                        try:
                            D(src)
                        except REF:
                            continue
                        val = bytes(src.encoding)
                        o.set_attr(i, src)
                        m[i] = val
                        ctx.check(o.get_attr(i) is not src, "value-not-shared", attribute=i, **w)
                        try:
                            src.set(icspec.gen(rng, t, kinds[i]))
                        except REF:
                            pass
                        ctx.count("values from values")
                    elif op == "reset" and isinstance(D := o.get_attr_element(i).DATA_TYPE, type) and c not in (3, 4, 5, 15):
                        el = o.get_attr_element(i)
                        empty = rng.choice(("", b"", None)) if el.default is not None and o.get_attr(i) is None else None
                        try:
                            val = bytes(D(el.default if empty is None else empty).encoding)
                        except REF:
                            if empty is not None:
                                ctx.rejects(lambda: o.set_attr(i, empty), "empty-value", exc=REF, attribute=i, value=empty, **w)
                            continue
                        if empty is not None:
                            o.set_attr(i, empty)
                        else:
                            o.reset_attribute(i)
                        m[i] = val
                        ctx.count("attributes reset")
                    elif op == "bad" and icspec.tag(t) is not None:
                        ctx.rejects(lambda: o.set_attr(i, icspec.other(rng, t)), "other-type", exc=REF, attribute=i, **w)
                    elif op == "clear" and c not in (15, 3, 4, 5):
                        o.clear_attr(i)
                        m[i] = None
                    elif op == "link":
                        D = o.get_attr_element(i).DATA_TYPE
                        wrong = cdt.NullData() if icspec.tag(t) is not None else None
                        if wrong is not None and isinstance(D, type):
                            ctx.rejects(lambda: o.set_attr_link(i, wrong), "wrong-link", exc=REF, attribute=i, **w)
                            base = next(k for k in D.__mro__ if k.__module__.endswith("common_data_types"))
                            if base is not D and base in cdt.SimpleDataType.__subclasses__():
                                try:
                                    plain = base()
                                except REF:
                                    plain = None
                                if plain is not None:
                                    ctx.rejects(lambda: o.set_attr_link(i, plain), "link-of-plain-type", exc=REF, attribute=i, **w)
                            if c not in (3, 4, 5, 15):
                                link = D(icspec.gen(rng, t))
                                o.set_attr_link(i, link)
                                ctx.check(o.get_attr(i) is link, "linked", attribute=i, **w)
                                m[i] = bytes(link.encoding)
                    elif op == "record":
                        dt = b"\x19" + axdr.gen_datetime(rng)
                        i = rng.choice((1, i, n))
                        was = {k: o.get_record_time(k) for k in range(1, n + 1) if k != i}
                        src = cdt.DateTime(dt)
                        o.set_record_time(i, rng.choice((dt, src)))
                        src.set("01.01.2001 00:00")
                        ctx.eq(bytes(o.get_record_time(i).encoding), dt, "record-time", attribute=i, **w)
                        ctx.check(all(o.get_record_time(k) is x for k, x in was.items()), "record-time-of-other-attribute", attribute=i, **w)
                        ctx.check(all(p.get_record_time(k) is None for k in range(1, n + 1)), "record-time-of-other", **w)
                    elif op == "element":
                        x = o.get_attr(i)
                        D = o.get_attr_data_type(i)
                        ctx.check(D is (type(x) if x is not None else o.get_attr_element(i).DATA_TYPE), "data-type", attribute=i, **w)
                        if x is not None and icspec.tag(t) is not None:
                            ctx.eq(x.encoding[0], icspec.tag(t), "tag-of-value", attribute=i, **w)
                    elif op == "encode" and isinstance(t, str) and t[:3] in ("u8", "u16", "u32", "i16"):
                        k = icspec.NUM[t][0]
                        num = axdr.edge_int(rng, *axdr.int_range(k))
                        if not (c == 42):
                            e = o.encode(i, str(num))
                            if o.get_attr(i) is not None:
                                ctx.check(e is not o.get_attr(i), "encoded-is-another", attribute=i, **w)
                            if getattr(e, "SCALER_UNIT", None) is None and not (c == 8 and i == 4):
                                ctx.eq(bytes(e.encoding), bytes((axdr.INTS[k][0],)) + num.to_bytes(axdr.INTS[k][1], "big", signed=axdr.INTS[k][2]), "encoded-from-text", attribute=i, **w)
                    ctx.eq(model_of(o, n), m, "attributes", **w)
                    ctx.eq(model_of(p, n), q, "attributes-of-another-object", **w)
                # all ways to read give the same value
                it = list(o)
                ix = list(o.get_index_with_attributes())
                ctx.eq(sorted(i for i, _x in ix), list(range(1, n + 1)), "indexes", **w)
                for i, x in ix:
                    ctx.check(x is o.get_attr(i) and o[i] is x and it[i - 1] is x, "one-value-per-index", attribute=i, **w)
                if c in (7, 20):      # what others refer to comes first
                    order = [i for i, _x in o.get_index_with_attributes(in_init_order=True)]
                    ctx.eq(sorted(order), list(range(1, n + 1)), "indexes-in-order", **w)
                    for first, then in {7: ((3, 2), (6, 2)), 20: ((5, 4), (4, 3), (9, 8), (8, 7))}[c]:
                        ctx.check(order.index(first) < order.index(then), "order-of-setting", first=first, then=then, order=order, **w)
                for i, x in ix:
                    if i > 1 and (name := attrs[i - 2][0]):
                        ctx.check(getattr(o, name) is x, "attribute-by-name", name=name, attribute=i, **w)
        ctx.count("classes")
    ctx.require("values from values", 30)
    ctx.require("attributes reset", 30)
    ctx.require("classes", len(icspec.CLASSES))
    details(ctx, cdt, ut, cst, col, exc, cls)


def sub_ids(*ids):
    """X.690 8.19: octets of an object identifier"""
    out = [ids[0] * 40 + ids[1]]
    for v in ids[2:]:
        part = [v & 0x7f]
        while v > 0x7f:
            v >>= 7
            part.append(v & 0x7f | 0x80)
        out += reversed(part)
    return bytes(out)


def details(ctx, cdt, ut, cst, col, exc, cls):
    from ..env import load, quiet
    rng = ctx.sub("details")
    REF = (ValueError, TypeError, exc.DLMSException)
    ver0, ver1 = load("cosem_interface_classes.association_ln.ver0"), load("cosem_interface_classes.association_ln.ver1")
    amn = load("cosem_interface_classes.association_ln.authentication_mechanism_name")
    SPEEDS = (300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200)

    def new(c, v, ln="0.0.1.0.0.255"):
        return cls(c, v)(cst.LogicalName(ln))

    # internet addresses
    with ctx.guard("addresses"), quiet():
        o = new(42, 0, "0.0.25.1.0.255")
        for _ in range(ctx.n(300, 3000)):
            a = tuple(rng.choice((0, 1, 9, 10, 99, 100, 127, 128, 192, 199, 200, 254, 255, rng.randrange(256))) for _k in range(4))
            text = ".".join(map(str, a))
            i = rng.choice((3, 6, 7, 9, 10))
            o.set_attr(i, rng.choice((text, b"\x06" + bytes(a))))
            ctx.eq(bytes(o.get_attr(i).encoding), b"\x06" + bytes(a), "address", text=text, attribute=i)
            ctx.eq(str(o.get_attr(i)), text, "address-text", attribute=i)
            ctx.eq(int(o.get_attr(i)), int.from_bytes(bytes(a), "big"), "address-number", attribute=i)
            ctx.eq(bytes(o.encode(i, text).encoding), b"\x06" + bytes(a), "address-encoded", attribute=i)
            bad = rng.choice((f"{a[0]}.{a[1]}.{a[2]}.{rng.randint(256, 999)}", f"{rng.randint(256, 999)}.{a[1]}.{a[2]}.{a[3]}", f"{text}.{a[0]}", f"{a[0]}.{a[1]}.-{a[2] + 1}.1", f"{a[0]}.x.1.1"))
            ctx.rejects(lambda: o.set_attr(i, bad), "address-refused", exc=REF, text=bad)
            ctx.eq(bytes(o.get_attr(i).encoding), b"\x06" + bytes(a), "address-kept", attribute=i, text=bad)
            ctx.case(("ip", a, i))
    # speeds
    with ctx.guard("speeds"), quiet():
        for c, v in ((23, 1), (27, 0), (27, 1)):
            for k, s in enumerate(SPEEDS):
                for val in (s, k, bytes((22, k))):
                    o = new(c, v, "0.0.22.0.0.255")
                    o.set_attr(2, val)
                    ctx.eq(bytes(o.get_attr(2).encoding), bytes((22, k)), "speed-code", val=val, cls=(c, v))
                    ctx.eq(o.get_attr(2).decode(), s, "speed", val=val, cls=(c, v))
                    ctx.case((c, v, val))
            for bad in (10, 255, 256, 301, 12345, b"\x16\x0a"):
                ctx.rejects(lambda: new(c, v).set_attr(2, bad), "speed-refused", exc=REF, val=bad)
    # negotiated parameters of HDLC
    with ctx.guard("hdlc"), quiet():
        for _ in range(ctx.n(300, 3000)):
            o = new(23, 1, "0.0.22.0.0.255")
            ctx.eq((o.max_info_transmit, o.max_info_receive, o.window_transmit, o.window_receive), (None,) * 4, "default-parameters-not-sent")
            m = {3: 1, 4: 1, 5: 128, 6: 128}
            for _s in range(rng.choice((1, 2, 3))):
                if rng.random() < 0.15:
                    o.set_from_info(b"")
                    m = {3: 1, 4: 1, 5: 128, 6: 128}
                else:
                    body = b""
                    part = {}
                    for p in sorted(rng.sample((5, 6, 7, 8), rng.randint(0, 4))):
                        val = rng.randint(1, 7) if p > 6 else rng.choice((32, 127, 128, 129, 255, 256, 2030, rng.randint(32, 2030)))
                        w = rng.choice((1, 4)) if p > 6 else rng.choice((1, 2)) if val < 256 else 2
                        body += bytes((p, w)) + val.to_bytes(w, "big")
                        part[{5: 5, 6: 6, 7: 3, 8: 4}[p]] = val
                    ctx.rejects(lambda: o.set_from_info(b"\x81\x80" + bytes((len(body) + rng.choice((-1, 1)) & 0xff,)) + body), "length-refused")
                    ctx.rejects(lambda: o.set_from_info(b"\x81\x81" + bytes((len(body),)) + body), "header-refused")
                    ctx.eq({i: int(o.get_attr(i)) for i in m}, m, "parameters-kept")
                    o.set_from_info(b"\x81\x80" + bytes((len(body),)) + body)
                    m.update(part)
                ctx.eq({i: int(o.get_attr(i)) for i in m}, m, "parameters-after-negotiation")
                for name, i, d, w in (("max_info_transmit", 5, 128, 2), ("max_info_receive", 6, 128, 2), ("window_transmit", 3, 1, 1), ("window_receive", 4, 1, 1)):
                    ctx.eq(getattr(o, name), None if m[i] == d else m[i].to_bytes(w, "big"), "parameter-sent-when-not-default", name=name, value=m[i])
            ctx.case(("hdlc", tuple(m.items())))
            a = rng.choice((0, 1, 16, 0x3ffd))
            o.set_attr(9, a)
            ctx.eq(o.get_device_address(), a or None, "device-address")
    # object identifiers
    with ctx.guard("identifiers"), quiet():
        for _ in range(ctx.n(500, 5000)):
            for T, arc, ids in ((ver1.ContextNameType, 1, range(0, 256)), (ver1.MechanismNameType, 2, range(0, 8))):
                k = rng.choice(ids)
                full = (2, 16, rng.choice((756, 0, 1, 127, 128, 16383, 16384, 65535, rng.randrange(65536))), rng.choice((5, 127, 128, 255)), rng.choice((8, 0, 200)), rng.choice((arc, 129)), k)
                x = b"\x09" + bytes((len(sub_ids(*full)),)) + sub_ids(*full)
                s = b"\x02\x07" + bytes((17, full[0], 17, full[1], 18)) + full[2].to_bytes(2, "big") + bytes(sum(((17, e) for e in full[3:]), ()))
                w = dict(ids=full, type=T.__name__)
                a, b = T(x), T(s)
                ctx.eq(tuple(e.decode() for e in a.values), full, "identifier-parts", **w)
                ctx.eq(tuple(e.decode() for e in b.values), full, "identifier-parts-of-structure", **w)
                ctx.eq(bytes(a.encoding), x, "identifier-octets", **w)
                ctx.eq(bytes(b.encoding), s, "identifier-structure", **w)
                ctx.eq(bytes(b.get_a_xdr()), sub_ids(*full), "structure-as-identifier", **w)
                cut = x[:1] + bytes((x[1] - 1,)) + x[2:-1]
                ctx.rejects(lambda: T(cut), "identifier-cut", exc=REF, **w)
                ctx.rejects(lambda: T(x[:1] + bytes((x[1] + 1,)) + x[2:] + b"\1"), "identifier-long", exc=REF, **w)
                ctx.rejects(lambda: T(x[:-1]), "identifier-octets-cut", exc=REF, **w)
                ctx.rejects(lambda: T(x[:1] + bytes((x[1] + 1,)) + x[2:] + rng.choice((b"\x80", b"\x81", b"\xff"))), "identifier-unfinished", exc=REF, **w)
                ctx.rejects(lambda: T(x[:1] + bytes((x[1],)) + x[2:-1] + bytes((x[-1] | 128,))), "identifier-unfinished", exc=REF, **w)
                last = len(sub_ids(*full[:-1])) + 2
                ctx.rejects(lambda: T(x[:1] + bytes((x[1] + 1,)) + x[2:last] + b"\x80" + x[last:]), "identifier-padded", exc=REF, **w)
                ctx.case(("oid", T.__name__, full))
        for crypto in (1, 2, 3):
            for alg in range(8):
                ctx.eq(bytes(amn.AuthenticationMechanismName.get_AARQ_mechanism_name(crypto, alg)), sub_ids(2, 16, 756, 5, 8, crypto, alg), "mechanism-name", crypto=crypto, alg=alg)
        ctx.eq(bytes(ver0.ApplicationContextName().get_a_xdr()), b"\x60\x85\x74\x05\x08\x01\x01", "default-context-name")
        ctx.eq(bytes(amn.AuthenticationMechanismName().get_a_xdr()), b"\x60\x85\x74\x05\x08\x02\x00", "default-mechanism-name")
    # associations: addresses and selective access
    with ctx.guard("associations"), quiet():
        for _ in range(ctx.n(60, 600)):
            v = rng.choice((0, 1, 2))
            c = col.Collection()
            e = rng.randrange(0, 5)
            c.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(v), logical_name=cst.LogicalName(f"0.0.40.0.{e}.255"))
            o = c.get_object(f"0.0.40.0.{e}.255")
            ctx.eq(bytes(o.associated_partners_id.encoding), bytes((2, 2, 15, 16 * e, 18, 0, 1)), "default-partners", e=e, v=v)
            ctx.eq(bytes(o.source_address), bytes((32 * e + 1,)), "source-address", e=e)
            o.set_attr(2, b"\x01\x00")
            p = c.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(v), logical_name=cst.LogicalName("0.0.40.0.7.255"))
            p = c.get_object("0.0.40.0.7.255")
            p.set_attr(2, b"\x01\x00")
            base = b"\0\x0f\0\0\x28\0" + bytes((e,)) + b"\xff\x02"
            ctx.eq(bytes(o.get_attr_descriptor(2).contents), base, "without-selection", v=v)
            for _s in range(4):
                k = rng.randint(1, 4)
                val = {1: b"\0", 2: b"\x01" + bytes((n := rng.randrange(4),)) + b"".join(b"\x12" + rng.randbytes(2) for _k in range(n)),
                       3: b"\x01" + bytes((n,)) + b"".join(b"\x02\x02\x12" + rng.randbytes(2) + b"\x09\x06" + rng.randbytes(6) for _k in range(n)),
                       4: b"\x02\x02\x12" + rng.randbytes(2) + b"\x09\x06" + rng.randbytes(6)}[k]
                sa = o.object_list.selective_access
                if k == 1:
                    sa.set_selector(1)
                else:
                    sa.set_selector(k, val)
                ctx.eq(bytes(o.get_attr_descriptor(2, True).contents), base + bytes((k,)) + val, "selection", k=k, v=v)
                ctx.eq(bytes(o.get_attr_descriptor(2).contents), base, "without-selection", v=v)
                ctx.eq(bytes(p.get_attr_descriptor(2, True).contents)[9:], b"\x01\0", "selection-of-another-association", v=v)
                for bad in (0, 5, 255):
                    ctx.rejects(lambda: sa.set_selector(bad), "selector-refused", exc=REF, bad=bad)
                    ctx.eq(bytes(o.get_attr_descriptor(2, True).contents), base + bytes((k,)) + val, "selection-kept", k=k, v=v)
                other = rng.choice([x for x in (2, 3, 4) if x != k])
                ctx.rejects(lambda: sa.set_selector(other, b"\x0f\x01"), "selection-value-refused", exc=REF, k=k, other=other)
                ctx.eq(bytes(o.get_attr_descriptor(2, True).contents), base + bytes((k,)) + val, "selection-kept", k=k, v=v)
                ctx.case(("selection", v, e, val))
            # the kind of secret follows the mechanism
            m = rng.choice((0, 1, 2))
            name = bytes((2, 7, 17, 2, 17, 16, 18, 2, 0xf4, 17, 5, 17, 8, 17, 2, 17, m)) if v == 0 else b"\x09\x07\x60\x85\x74\x05\x08\x02" + bytes((m,))
            o.set_attr(6, name)
            ctx.check(o.LLS_secret is not None, "secret-there", m=m)
            good = rng.randbytes(16)
            o.set_attr(7, b"\x09\x10" + good)
            ctx.eq(bytes(o.LLS_secret.contents), good, "secret", m=m)
            n = rng.choice((0, 1, 8, 15, 17))
            short = b"\x09" + bytes((n,)) + rng.randbytes(n)
            if m == 2:
                ctx.rejects(lambda: o.set_attr(7, short), "secret-length", exc=REF, n=n)
                ctx.eq(bytes(o.LLS_secret.contents), good, "secret-kept", m=m)
            else:
                o.set_attr(7, short)
                ctx.eq(bytes(o.LLS_secret.encoding), short, "secret", m=m)
    # arbitrator: a permission for every action
    with ctx.guard("arbitrator"), quiet():
        for _ in range(ctx.n(200, 2000)):
            o = new(68, 0, "0.0.96.3.20.255")
            n, hist = 0, []
            table = []
            for _s in range(4):
                if rng.random() < 0.5:
                    table = ["".join(rng.choice("01") for _b in range(n)) for _k in range(rng.randrange(4))]
                    o.set_attr(3, b"\x01" + bytes((len(table),)) + b"".join(axdr.encode(("BitString", t)) for t in table))
                else:
                    n = rng.randrange(0, 20)
                    o.set_attr(2, b"\x01" + bytes((n,)) + b"".join(b"\x02\x02\x09\x06" + rng.randbytes(6) + b"\x12" + rng.randbytes(2) for _k in range(n)))
                    table = [t if len(t) == n else "0" * n for t in table]
                hist.append((n, tuple(table)))
                ctx.eq(bytes(o.get_attr(3).encoding), b"\x01" + bytes((len(table),)) + b"".join(axdr.encode(("BitString", t)) for t in table), "permissions-per-action", history=hist)
            ctx.case(("arbitrator", tuple(hist)))
