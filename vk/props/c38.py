"""Profiles: columns of the buffer, selections and what is asked for."""
import struct

from .. import axdr
from ..members import member, NotModelled

RULE = ("profiles of random columns (values, units, members of structures, columns of other profiles, objects not yet known) with random entries; selections by range and by entries with every column border; "
        "changes of columns and selections between readings; entries with a column missing, too many or of another type. Non-trivial: distinct (columns, selection, entries).")
MODULES = ("cosem_interface_classes.profile_generic", "cosem_interface_classes.collection")
DIG = ("Unsigned", "LongUnsigned", "DoubleLongUnsigned", "Long64Unsigned", "Integer", "Long", "DoubleLong", "Long64")


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection as col
    from src.DLMS_SPODES.types.implementations import structs
    from src.DLMS_SPODES import exceptions as exc
    from ..env import quiet
    rng = ctx.sub("profile")

    def add(c, cls, ln, ver=0):
        return c.add(class_id=ut.CosemClassId(cls), version=cdt.Unsigned(ver), logical_name=cst.LogicalName(ln))

    def LN(t):
        return bytes(int(x) for x in t.split("."))

    def definition(cls, ln, attr, data):
        return b"\x02\x04\x12" + struct.pack(">H", cls) + b"\x09\x06" + LN(ln) + b"\x0f" + bytes((attr,)) + b"\x12" + struct.pack(">H", data)

    def arr(items):
        return b"\x01" + axdr.length(len(items)) + b"".join(items)

    def number(kind):
        lo, hi = axdr.int_range(kind)
        return bytes(getattr(cdt, kind).TAG) + axdr.edge_int(rng, lo, hi).to_bytes(axdr.INTS[kind][1], "big", signed=axdr.INTS[kind][2])

    def dt():
        return b"\x09\x0c" + struct.pack(">H", rng.randint(2000, 2099)) + bytes((rng.randint(1, 12), rng.randint(1, 28), 0xff, rng.randrange(24), rng.randrange(60), rng.randrange(60), 0)) + struct.pack(">h", rng.choice((0, 180, -0x8000))) + bytes((rng.choice((0, 0x80)),))

    class Column:
        """a definition with the generator of its values, its type and its unit"""
        def __init__(self, d, gen, tag, unit=None, ln=None, bad=None, free=False):
            self.d, self.gen, self.tag, self.unit, self.ln, self.free = d, gen, tag, unit, ln, free

    for _ in range(ctx.n(350, 5000)):
        c = col.Collection()
        pool = []
        with ctx.guard("objects"), quiet():
            add(c, 8, "0.0.1.0.0.255")
            pool.append(Column(definition(8, "0.0.1.0.0.255", 2, 0), dt, 9, ln="0.0.1.0.0.255"))
            pool.append(Column(definition(8, "0.0.1.0.0.255", 3, 0), lambda: number("Long"), 0x10, ln="0.0.1.0.0.255"))
            for cc, e in rng.sample([(a, b) for a in (1, 2, 3, 4, 13) for b in (0, 1, 2)], 4):
                ln = f"1.0.{cc}.8.{e}.255"
                r = add(c, 3, ln)
                kind = rng.choice(DIG)
                r.set_attr(2, number(kind))
                u = None
                if rng.random() < 0.8:
                    u = (rng.randint(-3, 3), rng.choice((30, 27, 255)))
                    r.set_attr(3, u)
                pool.append(Column(definition(3, ln, 2, 0), (lambda kind=kind: number(kind)), getattr(cdt, kind).TAG[0], u, ln))
                if u is not None or True:
                    pool.append(Column(definition(3, ln, 3, 0), lambda: b"\x02\x02\x0f" + bytes((rng.choice((0, 1, 0xff)),)) + b"\x16" + bytes((rng.choice((30, 255, 27)),)), 2, None, ln))
                    pool.append(Column(definition(3, ln, 3, 1), lambda: b"\x0f" + bytes((rng.choice((0, 1, 0xff)),)), 0x0f, None, ln))
                    pool.append(Column(definition(3, ln, 3, 2), lambda: b"\x16" + bytes((rng.choice((30, 255, 27)),)), 0x16, None, ln))
            # objects that are not in the collection yet
            pool.append(Column(definition(3, "1.0.99.99.9.255".replace("99.99", "31.7"), 2, 0), lambda: number(rng.choice(DIG)), None, None, "1.0.31.7.9.255", free=True))
            # a profile captured by the profile
            inner_cols = rng.sample([p for p in pool if not p.free], 2)
            inner = add(c, 7, "1.0.99.1.0.255", 1)
            inner.set_attr(6, definition(8, "0.0.1.0.0.255", 2, 0))
            inner.set_attr(3, arr([p.d for p in inner_cols]))
            for k, p in enumerate(inner_cols):
                pool.append(Column(definition(7, "1.0.99.1.0.255", 2, k + 1), p.gen, p.tag, None, "1.0.99.1.0.255"))
            prof = add(c, 7, "1.0.99.2.0.255", 1)
        cols = [rng.choice(pool) for _k in range(rng.choice((1, 2, 3, 5, 8)))]
        sort = rng.choice([p for p in pool if not p.free and p.tag == 9 and p.d[3:5] == b"\x00\x08"] + [p for p in pool if p.ln.startswith("1.0.") and p.d[-1] == 0 and p.d[-4] == 2 and not p.free and p.d[3] == 0 and p.d[4] == 3])
        w = dict(columns=[p.d.hex() for p in cols], sort=sort.d.hex())
        with ctx.guard("set-up", **w), quiet():
            prof.set_attr(6, sort.d)
            prof.set_attr(3, arr([p.d for p in cols]))
            ctx.eq(bytes(prof.capture_objects.encoding), arr([p.d for p in cols]), "columns-kept", **w)
            ctx.eq(bytes(prof.sort_object.encoding), sort.d, "sort-object-kept", **w)
        if prof.capture_objects is None:
            continue
        shown, sel = cols, "all"
        content = arr([])
        log = []
        for _k in range(rng.choice((2, 4, 8))):
            op = rng.choice(("read", "read", "read", "entries", "range", "columns", "bad"))
            log.append(op)
            w = dict(columns=[p.d.hex() for p in cols], selection=sel, shown=[p.d.hex() for p in shown], history=log[-6:])
            with ctx.guard("profile", **w), quiet():
                if op == "entries":
                    a = rng.randint(1, len(cols))
                    b = rng.choice((0, 0, rng.randint(a, len(cols)), len(cols)))
                    fe = rng.choice((1, 1, 2, 100, 0xffffffff))
                    te = rng.choice((0, fe, 0xffffffff))
                    prof.get_attr_descriptor(2, True)
                    s = prof.buffer.selective_access
                    if rng.random() < 0.5:
                        s.set_selector(2, (fe, te, a, b))
                    else:
                        s.set_selector(2)
                        ctx.eq(bytes(s.access_parameters.encoding), b"\x02\x04\x06\x00\x00\x00\x01\x06\x00\x00\x00\x00\x12\x00\x01\x12\x00\x00", "whole-buffer-by-default", **w)
                        for nm, v in (("from_entry", fe), ("to_entry", te), ("from_selected_value", a), ("to_selected_value", b)):
                            getattr(s.access_parameters, nm).set(v)
                    shown, sel = cols[a - 1:b or len(cols)], ("entries", fe, te, a, b)
                    par = b"\x02\x04\x06" + struct.pack(">L", fe) + b"\x06" + struct.pack(">L", te) + b"\x12" + struct.pack(">H", a) + b"\x12" + struct.pack(">H", b)
                    d = prof.get_attr_descriptor(2, True)
                    ctx.eq(bytes(d.contents), b"\x00\x07" + LN("1.0.99.2.0.255") + b"\x02\x02" + par, "request-by-entries", **w)
                    ctx.count("by-entries")
                elif op == "range":
                    lo, hi = sort.gen(), sort.gen()
                    chosen = rng.sample(range(len(cols)), rng.randint(0, len(cols)))
                    prof.get_attr_descriptor(2, True)
                    s = prof.buffer.selective_access
                    s.set_selector(1)
                    p = s.access_parameters
                    par = b"\x02\x04" + sort.d + lo + hi + arr([cols[j].d for j in chosen])
                    p.set(par)
                    shown = [cols[j] for j in chosen] if chosen else cols
                    sel = ("range", tuple(chosen))
                    d = prof.get_attr_descriptor(2, True)
                    ctx.eq(bytes(d.contents), b"\x00\x07" + LN("1.0.99.2.0.255") + b"\x02\x01" + par, "request-by-range", **w)
                    for i in range(1, 9):
                        if i != 2:
                            ctx.eq(bytes(prof.get_attr_descriptor(i, True).contents), bytes(prof.get_attr_descriptor(i).contents), "selection-of-buffer-only", attribute=i, **w)
                    ctx.eq(bytes(prof.get_attr_descriptor(2).contents), b"\x00\x07" + LN("1.0.99.2.0.255") + b"\x02\x00"[:1], "request-without-selection", **w)
                    ctx.count("by-range")
                elif op == "columns":
                    cols = [rng.choice(pool) for _j in range(rng.choice((1, 2, 4)))]
                    prof.set_attr(3, arr([p.d for p in cols]))
                    prof.get_attr_descriptor(2, True)
                    prof.buffer.selective_access.set_selector(2)
                    shown, sel, content = cols, "all", None
                    if rng.random() < 0.5:
                        log.append("read")
                        parts = [[p.gen() for p in shown] for _j in range(rng.choice((1, 2)))]
                        prof.set_attr(2, arr([b"\x02" + bytes((len(shown),)) + b"".join(r) for r in parts]))
                        content = arr([b"\x02" + bytes((len(shown),)) + b"".join(r) for r in parts])
                        ctx.eq(bytes(prof.buffer.encoding), content, "rows-of-new-columns", **w)
                        ctx.eq([[type(v).TAG[0] for v in r] for r in prof.buffer], [[b[0] for b in r] for r in parts], "types-of-new-columns", **w)
                        ctx.count("new columns over rows")
                    continue
                elif op == "read":
                    rows = [b"\x02" + bytes((len(shown),)) + b"".join(p.gen() for p in shown) for _j in range(rng.choice((0, 1, 2, 3, 10, 130 if rng.random() < 0.1 else 4)))]
                    e = arr(rows)
                    (prof.set_attr if rng.random() < 0.7 else lambda i, x: prof.buffer.set(x))(2, e)
                    content = e
                    ctx.eq(len(prof.buffer), len(rows), "rows", **w)
                    for row, r in zip(rows, prof.buffer):
                        ctx.eq(bytes(r.encoding), row, "row", **w)
                        for p, v in zip(shown, r):
                            ctx.check(p.tag is None or v.TAG[0] == p.tag, "column-type", got=v.TAG, **w)
                    ctx.count("rows", len(rows))
                    ctx.eq([bytes(o.logical_name.contents) for o in prof.get_buffer_objects()], [LN(p.ln) for p in shown], "objects-of-columns", **w)
                    ctx.eq([None if x is None else bytes(x.encoding) for x in prof.get_scaler_units_profile()],
                           [None if p.unit is None else b"\x02\x02\x0f" + struct.pack(">b", p.unit[0]) + b"\x16" + bytes((p.unit[1],)) for p in shown], "units-of-columns", **w)
                    ctx.eq(len(prof.get_capture_object_names()), len(cols), "names-of-columns", **w)
                    ctx.eq([d.NAME for d in prof.capture_objects], [c.get_name_and_type(d)[0][-1] for d in prof.capture_objects], "name-of-capture-object", **w)
                    if rows:
                        ctx.eq([e.NAME for e in type(prof.buffer[0]).ELEMENTS], [". ".join(c.get_name_and_type(structs.CaptureObjectDefinition(p.d))[0]) for p in shown], "names-in-entry", **w)
                elif op == "bad" and content is not None:
                    if prof.buffer.encoding != content:
                        continue
                    fixed = [j for j, p in enumerate(shown) if not p.free]
                    if not fixed or sel != "all":
                        continue
                    kind = rng.choice(("less", "more", "type", "cut"))
                    vs = [p.gen() for p in shown]
                    good = b"\x02" + bytes((len(shown),)) + b"".join(p.gen() for p in shown)
                    if kind == "less":
                        vs.pop()
                    elif kind == "more":
                        vs.append(b"\x00")
                    elif kind == "type":
                        j = rng.choice(fixed)
                        vs[j] = b"\x0d\x01" if shown[j].tag != 0x0d else b"\x03\x01"
                    bad = b"\x02" + bytes((len(vs),)) + b"".join(vs)
                    t = arr([good, bad])
                    if kind == "cut":
                        t = arr([good, b"\x02" + bytes((len(vs),)) + b"".join(vs)])[:-1]
                    ctx.rejects(lambda: prof.set_attr(2, t), "row-of-other-columns", exc=(ValueError, exc.DLMSException), kind=kind, **w)
                    ctx.eq(bytes(prof.buffer.encoding), content, "buffer-kept", kind=kind, **w)
                    ctx.count("bad-row")
            ctx.eq(bytes(prof.capture_objects.encoding), arr([p.d for p in cols]), "columns-kept", **w)
            if content is not None and op == "read":
                ctx.eq(bytes(prof.buffer.encoding), content, "buffer", **w)
            ctx.case(repr((sel, [p.d for p in cols], content)).encode(), sample=(sel, len(cols), len(content or b"")))
        ctx.check(all(bytes(x.encoding) == p.d for x, p in zip(inner.capture_objects, inner_cols)), "other-profile-kept")
    ctx.require("rows", 300)
    ctx.require("by-entries", 60)
    ctx.require("by-range", 60)
    ctx.require("bad-row", 10)
    ctx.require("new columns over rows", 20)
    several(ctx, add, LN, definition, arr, number)
    spodes(ctx, add, LN, definition, arr)
    wrong_sort(ctx, add, definition)


def wrong_sort(ctx, add, definition):
    """a sort object of another class than the object has, or of no object at all, is refused"""
    from ..env import load, quiet
    col, exc = load("cosem_interface_classes.collection"), load("exceptions")
    rng = ctx.sub("sort")
    for _ in range(ctx.n(60)):
        c = col.Collection()
        with ctx.guard("sort-set-up"), quiet():
            add(c, 3, "1.0.1.8.0.255")
            add(c, 8, "0.0.1.0.0.255")
            p = add(c, 7, "1.0.99.2.0.255", 1)
        ln, cid = rng.choice((("1.0.1.8.0.255", 3), ("0.0.1.0.0.255", 8), ("1.0.1.8.7.255", None)))
        other = rng.choice([k for k in (1, 3, 4, 5, 7, 8, 20) + ((cid + 256, cid | 0x8000) * 2 if cid else ()) if k != cid])
        d = definition(other, ln, 2, 0)
        ctx.rejects(lambda: p.set_attr(6, d), "sort-object-of-another-class", exc=(exc.NoObject,), sort=d)
        ctx.case(("sort", d))


def spodes(ctx, add, LN, definition, arr):
    """profiles of the country standard: units come from the scaler profile of the same name; columns shown on the display"""
    from ..env import load, quiet
    cdt, col, exc = load("types.common_data_types"), load("cosem_interface_classes.collection"), load("exceptions")
    AppVersion = load("version").AppVersion
    rng = ctx.sub("scales")
    SCALES = {"1.0.94.7.0.255": "1.0.94.7.3.255", "1.0.98.1.0.255": "1.0.94.7.1.255", "1.0.98.2.0.255": "1.0.94.7.2.255", "1.0.99.1.0.255": "1.0.94.7.4.255", "1.0.99.2.0.255": "1.0.94.7.4.255"}

    def collection():
        c = col.Collection()
        c.set_country_ver(AppVersion(3, 0))
        c.set_spec()
        add(c, 8, "0.0.1.0.0.255")
        return c

    def entry(*values):
        return b"\x02" + bytes((len(values),)) + b"".join(values)

    for _ in range(ctx.n(150)):
        ln, scales_ln = rng.choice(sorted(SCALES.items()))
        with ctx.guard("scales-set-up", profile=ln), quiet():
            c = collection()
            regs = [f"1.0.{k}.8.{e}.255" for k, e in rng.sample([(k, e) for k in (1, 2, 3, 4, 9, 13) for e in (0, 1, 2)], rng.randint(1, 6))]
            for r in regs[:]:
                if rng.random() < 0.1:
                    regs.insert(rng.randrange(len(regs) + 1), r)     # captured twice
            for r in set(regs):
                add(c, 3, r).set_attr(2, b"\x06\x00\x00\x00\x05")
            main = add(c, 7, ln, 1)
            main.set_attr(6, definition(8, "0.0.1.0.0.255", 2, 0))
            clock_at = rng.choice((0, 0, None))
            cols = ([definition(8, "0.0.1.0.0.255", 2, 0)] if clock_at == 0 else []) + [definition(3, r, 2, 0) for r in regs]
            two = rng.random() < 0.4    # a maximum: its value and the time of it
            if two:
                add(c, 4, "1.0.1.6.0.255").set_attr(2, b"\x06\x00\x00\x00\x05")
                regs += ["1.0.1.6.0.255"] * 2
                c.get(LN("1.0.1.6.0.255")).set_attr(5, b"\x09\x0c\x07\xe5\x01\x01\x05\x00\x00\x00\xff\x80\x00\x00")
                cols += [definition(4, "1.0.1.6.0.255", 2, 0), definition(4, "1.0.1.6.0.255", 5, 0)]
            main.set_attr(3, arr(cols))
        w = dict(profile=ln, columns=len(cols), scales=scales_ln)
        if rng.random() < 0.1:
            ctx.rejects(main.get_scaler_units_profile, "no-scaler-profile", exc=(exc.NoObject,), **w)
            continue
        with ctx.guard("scales-set-up", **w), quiet():
            # decoys: the scaler profiles of the other profiles
            units = {}
            for k in sorted({*rng.sample(sorted(set(SCALES.values())), 2), scales_ln}):
                sp = add(c, 7, k, 1)
                sp.set_attr(6, definition(8, "0.0.1.0.0.255", 2, 0))
                sp.set_attr(3, arr(([definition(8, "0.0.1.0.0.255", 2, 0)] if clock_at == 0 else []) + [definition(3, r, 3, 0) for r in regs[:-2 if two else None]] + ([definition(4, "1.0.1.6.0.255", 3, 0), definition(8, "0.0.1.0.0.255", 2, 0)] if two else [])))
                twice = {}
                units[k] = [twice.setdefault(_r, x) for _r, x in ((_r, b"\x02\x02\x0f" + struct.pack(">b", rng.randint(-4, 4)) + b"\x16" + bytes((rng.choice((27, 28, 29, 30, 31, 32, 33, 35, 255)),))) for _r in regs)]
                if two:
                    units[k][-2] = b"\x02\x02\x0f\x02\x16\x1b"
        if rng.random() < 0.1:
            ctx.rejects(main.get_scaler_units_profile, "scaler-profile-without-entry", **w)
            continue
        with ctx.guard("scales", **w), quiet():
            for k, us in units.items():
                if two:
                    us[-1] = b"\x09\x0c" + bytes.fromhex("07e5010105000000ff800000")
                c.get_object(bytes(LN(k))).set_attr(2, arr([entry(*([b"\x09\x0c" + bytes.fromhex("07e5010105000000ff800000")] if clock_at == 0 else []), *us)]))
            want = ([None] if clock_at == 0 else []) + (units[scales_ln][:-1] + [None] if two else units[scales_ln])
            shown = list(range(len(cols)))
            for _k in range(3):
                ctx.eq([None if x is None else bytes(x.encoding) for x in main.get_scaler_units_profile()], [want[j] for j in shown], "scales-of-columns", **w)
                a = rng.randint(1, len(cols))
                b = rng.randint(a, len(cols))
                main.get_attr_descriptor(2, True)
                if rng.random() < 0.5:
                    main.buffer.selective_access.set_selector(2, (1, 0, a, b))
                    shown = list(range(a - 1, b))
                else:
                    # any order, a column may be asked for twice
                    shown = [rng.randrange(len(cols)) for _j in range(rng.randint(1, 5))]
                    main.buffer.selective_access.set_selector(1)
                    main.buffer.selective_access.access_parameters.set(b"\x02\x04" + definition(8, "0.0.1.0.0.255", 2, 0) + 2 * (b"\x09\x0c" + bytes.fromhex("07e5010105000000ff800000")) + arr([cols[j] for j in shown]))
                row = entry(*(b"\x09\x0c" + bytes.fromhex("07e5010105000000ff800000") if clock_at == 0 and j == 0 or two and j == len(cols) - 1 else b"\x06\x00\x00\x00\x07" for j in shown))
                main.set_attr(2, arr([row]))
                ctx.eq(bytes(main.buffer.encoding), arr([row]), "scaled-row", **w)
            ctx.count("scales read")
        ctx.case((ln, tuple(cols), tuple(map(bytes, units[scales_ln]))))
    # what the display shows: a mark for every captured object
    for _ in range(ctx.n(80)):
        with ctx.guard("display-set-up"), quiet():
            c = collection()
            for r in ("1.0.1.8.0.255", "1.0.2.8.0.255", "1.0.32.7.0.255"):
                add(c, 3, r).set_attr(2, b"\x06\x00\x00\x00\x05")
            d = add(c, 7, f"0.{rng.randrange(3)}.21.0.{rng.randrange(4)}.255", 1)
            cols = [rng.choice((definition(8, "0.0.1.0.0.255", 2, 0), definition(3, "1.0.1.8.0.255", 2, 0), definition(3, "1.0.2.8.0.255", 2, 0), definition(3, "1.0.32.7.0.255", 2, 0), definition(3, "1.0.52.7.0.255", 2, 0)))
                    for _k in range(rng.choice((1, 2, 4, 9)))]
            d.set_attr(3, arr(cols))
        w = dict(columns=[x.hex() for x in cols])
        with ctx.guard("display", **w), quiet():
            ctx.eq(bytes(d.capture_objects.encoding), arr(cols), "display-columns", **w)
            ctx.eq([bytes(o.logical_name.contents) for o in d.get_buffer_objects()], [x[7:13] for x in cols], "display-objects", **w)
            rows = [entry(*(b"\x03" + bytes((rng.choice((0, 1)),)) for _x in cols)) for _k in range(rng.choice((0, 1, 3)))]
            d.set_attr(2, arr(rows))
            ctx.eq(bytes(d.buffer.encoding), arr(rows), "display-rows", **w)
            names = [c.get_name_and_type(x)[0] for x in d.capture_objects]
            ctx.eq([x.NAME for x in d.capture_objects], [n[-1] for n in names], "display-names", **w)
            for r in list(d.buffer)[:1]:
                ctx.eq([e.NAME for e in type(r).ELEMENTS], [". ".join(n) for n in names], "display-names-in-entry", **w)
        bad = entry(*(b"\x06\x00\x00\x00\x05" for _x in cols)) if rng.random() < 0.5 else entry(*(b"\x03\x01" for _x in cols), b"\x03\x01")
        ctx.rejects(lambda: d.set_attr(2, arr([bad])), "display-row-of-values", exc=(ValueError, exc.DLMSException), **w)
        ctx.case(("display", tuple(cols), tuple(rows)))
    ctx.require("scales read", 20)


def several(ctx, add, LN, definition, arr, number):
    """profiles sorted by different objects keep their own selections; another sort object changes the selection; selectors out of range; classes of the elements"""
    from ..env import load, quiet
    cdt, ut, col, exc = load("types.common_data_types"), load("types.useful_types"), load("cosem_interface_classes.collection"), load("exceptions")
    ic, v1 = load("cosem_interface_classes.cosem_interface_class"), load("cosem_interface_classes.profile_generic.ver1")
    AppVersion = load("version").AppVersion
    rng = ctx.sub("several")
    for _ in range(ctx.n(120)):
        kinds = rng.sample(DIG, 3)
        with ctx.guard("several-set-up"), quiet():
            c = col.Collection()
            add(c, 8, "0.0.1.0.0.255")
            sorts = {"0.0.1.0.0.255": (8, None, 2), "0.1.1.0.0.255": (8, None, 2), "0.0.1.0.5.255": (8, "Long", 3), "1.0.5.6.0.255": (4, None, 5), "0.0.1.0.6.255": (8, "Unsigned", 4)}
            add(c, 8, "0.1.1.0.0.255")
            add(c, 8, "0.0.1.0.5.255")
            add(c, 8, "0.0.1.0.6.255")
            add(c, 4, "1.0.5.6.0.255").set_attr(2, number(rng.choice(DIG)))
            for k, kind in zip((1, 2, 3), kinds):
                add(c, 3, f"1.0.{k}.8.0.255").set_attr(2, number(kind))
                sorts[f"1.0.{k}.8.0.255"] = (3, kind, 2)
            profs = {}
            cols = [definition(8, "0.0.1.0.0.255", 2, 0)] + [definition(3, f"1.0.{k}.8.0.255", 2, 0) for k in (1, 2, 3)]
            for k in range(3):
                ln = f"1.0.99.{k + 1}.0.255"
                sl = rng.choice(sorted(sorts))
                q = profs[ln] = [add(c, 7, ln, 1), sl]
                q[0].set_attr(6, definition(sorts[sl][0], sl, sorts[sl][2], 0))
                q[0].set_attr(3, arr(cols))

        def value(kind):
            return b"\x09\x0c" + struct.pack(">H", rng.randint(2000, 2099)) + bytes.fromhex("0101ff00000000800000") if kind is None else number(kind)
        for _k in range(rng.choice((3, 6, 10))):
            ln = rng.choice(sorted(profs))
            q = profs[ln]
            w = dict(profile=ln, sorted_by=q[1])
            if rng.random() < 0.2:
                q[1] = rng.choice(sorted(sorts))
                with ctx.guard("another-sort-object", **w), quiet():
                    q[0].clear_attr(6)
                    q[0].set_attr(6, definition(sorts[q[1]][0], q[1], sorts[q[1]][2], 0))
                ctx.count("another sort object")
            with ctx.guard("range-of-profile", **w), quiet():
                cid, kind, at = sorts[q[1]]
                lo, hi = value(kind), value(kind)
                q[0].get_attr_descriptor(2, True)
                s = q[0].buffer.selective_access
                s.set_selector(1)
                restrict = definition(cid, q[1], at, 0)
                start = bytes(s.access_parameters.encoding)
                ctx.eq(start[:2 + len(restrict)], b"\x02\x04" + restrict, "range-starts-with-own-sort-object", **w)
                one = s.access_parameters.from_value, s.access_parameters.to_value
                ctx.eq([(x.TAG[0], len(x.encoding)) for x in one], [(lo[0], len(lo)), (hi[0], len(hi))], "range-type-of-own-sort-object", **w)
                ctx.count(f"range by attribute {at}")
                chosen = [rng.choice(cols) for _j in range(rng.randrange(3))]
                par = b"\x02\x04" + restrict + lo + hi + arr(chosen)
                s.access_parameters.set(par)
                ctx.eq(bytes(q[0].get_attr_descriptor(2, True).contents), b"\x00\x07" + LN(ln) + b"\x02\x01" + par, "range-of-own-sort-object", **w)
                ctx.case(("several", ln, par))
            for kind in kinds[:1]:
                if sorts[q[1]][1] is None:
                    bad = b"\x02\x04" + definition(8, q[1], 2, 0) + number(kind) + number(kind) + arr([])
                    ctx.rejects(lambda: s.access_parameters.set(bad), "range-of-another-type", exc=(ValueError, exc.DLMSException), **w)
    ctx.require("another sort object", 30)
    ctx.require("range by attribute 3", 15)
    ctx.require("range by attribute 5", 15)
    # selectors
    for n in range(0, 256):
        if n in (1, 2):
            with ctx.guard("selector", n=n):
                ctx.eq(int(v1.AccessSelector(n)), n, "selector", n=n)
        else:
            ctx.rejects(lambda: v1.AccessSelector(n), "selector-refused", n=n)
        ctx.case(("selector", n))
    for n in (0, 1, 2, 0xffffffff, rng.randrange(1, 1 << 32)):
        for e in (b"\x06" + n.to_bytes(4, "big"),):
            full = b"\x02\x04" + e + b"\x06\x00\x00\x00\x00\x12\x00\x01\x12\x00\x00"
            if n:
                with ctx.guard("from-entry", n=n):
                    ctx.eq(bytes(v1.EntryDescriptor(full).encoding), full, "from-entry", n=n)
            else:
                ctx.rejects(lambda: v1.EntryDescriptor(full), "from-entry-refused", n=n)
                ctx.rejects(lambda: v1.EntryDescriptor((0, 0, 1, 0)), "from-entry-refused", n=n)
    # an absent object gets the version of the objects of its class; of an unknown class it is refused
    for cid, ver, there, ln in ((23, 1, "0.0.22.0.0.255", "0.1.22.0.0.255"), (64, 0, "0.0.43.0.0.255", "0.0.43.0.1.255"), (64, 1, "0.0.43.0.0.255", "0.0.43.0.1.255"), (15, 0, "0.0.40.0.0.255", "0.0.40.0.1.255"),
                                (15, 1, "0.0.40.0.0.255", "0.0.40.0.1.255"), (15, 2, "0.0.40.0.0.255", "0.0.40.0.1.255"), (3, 0, "1.0.1.8.0.255", "1.0.2.8.0.255"), (4, 0, "1.0.1.6.0.255", "1.0.2.6.0.255"),
                                (70, 0, "0.0.96.3.10.255", "0.1.96.3.10.255"), (7, 1, None, "1.0.98.1.0.255")):
        for known in (True, False):
            with ctx.guard("absent-object-set-up", cls=cid), quiet():
                c = col.Collection()
                add(c, 8, "0.0.1.0.0.255")
                if known and there is not None:
                    add(c, cid, there, ver)
                p = add(c, 7, "1.0.99.3.0.255", 1)
                p.set_attr(6, definition(8, "0.0.1.0.0.255", 2, 0))
                p.set_attr(3, arr([definition(8, "0.0.1.0.0.255", 2, 0)]))
            cols = arr([definition(8, "0.0.1.0.0.255", 2, 0), definition(cid, ln, 2, 0)])
            ctx.case(("absent", cid, ver, known))
            if not known and there is not None:
                def ask():
                    with quiet():
                        p.set_attr(3, cols)
                        p.set_attr(2, arr([]))
                ctx.rejects(ask, "absent-object-of-unknown-class", cls=cid)
                ctx.check(c.get(LN(ln)) is None, "absent-object-not-added", cls=cid)
                continue
            with ctx.guard("absent-object", cls=cid, version=ver), quiet():
                p.set_attr(3, cols)
                p.set_attr(2, arr([]))
                o = c.get(LN(ln))
                ctx.eq(o and (int(o.CLASS_ID), int(o.VERSION)), (cid, ver), "absent-object-version")
                ctx.count("absent object")
    ctx.require("absent object", 10)
    with ctx.guard("classifier"), quiet():
        for ln, scales in (("1.0.94.7.3.255", True), ("1.0.94.7.1.255", True), ("1.0.94.7.2.255", True), ("1.0.94.7.4.255", True), ("1.0.98.1.0.255", False), ("1.0.98.2.0.255", False), ("1.0.99.1.0.255", False), ("1.0.94.7.0.255", False), ("1.0.99.7.0.255", False)):
            c = col.Collection()
            c.set_country_ver(AppVersion(3, 0))
            c.set_spec()
            p = add(c, 7, ln, 1)
            ctx.eq(p.get_attr_element(2).classifier, ic.Classifier.STATIC if scales else ic.Classifier.DYNAMIC, "classifier-of-buffer", profile=ln)
            ctx.eq([p.get_attr_element(i).classifier for i in range(3, 9)], [v1.ProfileGeneric.A_ELEMENTS[i - 2].classifier for i in range(3, 9)], "classifier-of-others", profile=ln)
            ctx.case(("classifier", ln))
