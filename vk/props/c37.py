"""Units and types of registers and of what watches them."""
import struct
from fractions import Fraction

from .. import axdr
from .c05 import unit_scalers

RULE = ("histories of first setting, changing (whole, in place) and clearing of values and units of registers, extended and demand registers in every order; register monitors and limiters of known and unknown registers; "
        "the physical value and unit read after every step are compared with raw value x scaler of the object. Non-trivial: distinct (class, history, values).")
MODULES = ("cosem_interface_classes.register", "cosem_interface_classes.extended_register", "cosem_interface_classes.demand_register", "cosem_interface_classes.register_monitor", "cosem_interface_classes.limiter")
DIG = ("Unsigned", "LongUnsigned", "DoubleLongUnsigned", "Long64Unsigned", "Integer", "Long", "DoubleLong", "Long64")


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection as col
    from src.DLMS_SPODES import exceptions as exc
    from ..env import quiet
    rng = ctx.sub("register")
    us = unit_scalers()
    units = sorted(us)

    def add(c, cls, ln, ver=0):
        with quiet():
            return c.add(class_id=ut.CosemClassId(cls), version=cdt.Unsigned(ver), logical_name=cst.LogicalName(ln))

    def unit():
        return rng.choice((0, 0, -3, -2, 3, rng.randint(-6, 6))), rng.choice(units if rng.random() < 0.7 else [255, 30, 27, 35, 33])

    def enc_unit(u):
        return b"\x02\x02\x0f" + struct.pack(">b", u[0]) + b"\x16" + bytes((u[1],))

    def number(kind=None):
        kind = kind or rng.choice(DIG)
        lo, hi = axdr.int_range(kind)
        raw = axdr.edge_int(rng, max(lo, -(1 << 49)), min(hi, 1 << 49))
        return kind, raw

    def enc_num(kind, raw):
        return bytes(getattr(cdt, kind).TAG) + raw.to_bytes(axdr.INTS[kind][1], "big", signed=axdr.INTS[kind][2])

    def other():
        return rng.choice((b"\x00", b"\x09\x03abc", b"\x0a\x02ab", b"\x04\x05\xa8", b"\x17" + rng.randbytes(4).replace(b"\xff", b"\x01").replace(b"\x7f", b"\x01"), b"\x16\x05"))

    def shown(v, kind, raw, u, **w):
        """number and unit of a digital value"""
        exp = u[0] - us.get(u[1], 0) if u is not None else 0
        true = Fraction(raw) * Fraction(10) ** exp
        ctx.eq(Fraction(str(v)), true, "physical-value", unit=u, raw=raw, kind=kind, **w)
        want = str(v) if u is None else f"{v} {cdt.ScalUnitType(u).unit}"
        ctx.eq(v.get_report(), want, "physical-unit", unit=u, raw=raw, kind=kind, **w)
        ctx.count("physical")

    CLS = ((3, "1.0.1.8.0.255", (2,), 3), (4, "1.0.1.6.0.255", (2,), 3), (5, "1.0.1.4.0.255", (2, 3), 4))
    for _ in range(ctx.n(500, 8000)):
        c = col.Collection()
        cls, ln, vals, ua = rng.choice(CLS)
        with ctx.guard("object", cls=cls):
            o = add(c, cls, ln)
            o2 = add(c, cls, ln.replace("1.0.1", "1.0.2"))
        model = {i: None for i in vals}      # index -> None | ("n", kind, raw) | ("o", enc)
        unit_set, log = None, []
        prev_unit = None                     # a cleared unit is still shown by values until the next one
        for _k in range(rng.choice((3, 6, 12, 25))):
            op = rng.choice(("unit", "unit", "value", "value", "change", "unit-inside", "clear-value", "clear-unit", "wrong-type", "text"))
            i = rng.choice(vals)
            log.append((op, i))
            w = dict(cls=cls, history=log[-8:])
            cur = model[i]
            with ctx.guard("step", **w), quiet():
                if op == "unit":
                    u = unit()
                    o.set_attr(ua, enc_unit(u) if rng.random() < 0.7 else u)
                    unit_set = u
                elif op == "unit-inside" and unit_set is not None:
                    u = unit()
                    if rng.random() < 0.5:
                        o.get_attr(ua).scaler.set(u[0])
                        unit_set = (u[0], unit_set[1])
                    else:
                        o.get_attr(ua).unit.set(u[1])
                        unit_set = (unit_set[0], u[1])
                elif op in ("value", "change"):
                    if cur is None and op == "value":
                        new = ("n", *number()) if rng.random() < 0.8 else ("o", other())
                        enc = enc_num(*new[1:]) if new[0] == "n" else new[1]
                        twin = next((model[j] for j in vals if j != i and model[j] is not None), None)
                        if twin is not None:
                            tenc = enc_num(*twin[1:]) if twin[0] == "n" else twin[1]
                            if tenc[0] != enc[0]:
                                ctx.rejects(lambda: o.set_attr(i, enc), "types-of-demand-differ", **w)
                                ctx.check(o.get_attr(i) is None, "refused-kept-empty", **w)
                                new = None
                        if new is not None:
                            o.set_attr(i, enc)
                            model[i] = new
                    elif cur is not None:
                        if cur[0] == "n":
                            new = ("n", *number(cur[1]))
                            o.set_attr(i, enc_num(*new[1:]))
                            model[i] = new
                elif op == "wrong-type" and cur is not None:
                    e = enc_num(*number(next(k for k in DIG if cur[0] == "o" or k != cur[1])))
                    if cur[0] == "n" or cur[1][0] != e[0]:
                        ctx.rejects(lambda: o.set_attr(i, e), "another-type", **w)
                elif op == "text" and cur is not None and cur[0] == "n" and unit_set is not None and abs(cur[2]) < 1 << 40:
                    _, kind, raw = cur
                    lo, hi = axdr.int_range(kind)
                    raw2 = max(lo, min(hi, raw + rng.choice((-1, 0, 1))))
                    exp = unit_set[0] - us.get(unit_set[1], 0)
                    t = Fraction(raw2) * Fraction(10) ** exp
                    txt = str(int(t)) if t.denominator == 1 else f"{float(t):.{-exp}f}"
                    if Fraction(txt) == t and abs(t) < 1 << 40:
                        # what would be written for this text, without changing the object
                        e = o.encode(i, txt)
                        ctx.eq(bytes(e.encoding), enc_num(kind, raw2), "encode-of-shown-number", **w)
                        shown(e, kind, raw2, unit_set, **w)
                        ctx.eq(bytes(o.get_attr(i).encoding), enc_num(kind, raw), "encode-changes-nothing", **w)
                        o.set_attr(i, txt)
                        model[i] = ("n", kind, raw2)
                elif op == "clear-value":
                    o.clear_attr(i)
                    model[i] = None
                elif op == "clear-unit" and rng.random() < 0.4:
                    o.clear_attr(ua)
                    prev_unit, unit_set = unit_set or prev_unit, None
            # what a reader sees
            with ctx.guard("seen", **w):
                g = o.get_attr(ua)
                ctx.eq(None if g is None else bytes(g.encoding), None if unit_set is None else enc_unit(unit_set), "unit-kept", **w)
                for j in vals:
                    m, v = model[j], o.get_attr(j)
                    if m is None:
                        ctx.check(v is None, "value-empty", got=v, **w)
                    elif m[0] == "o":
                        ctx.eq(bytes(v.encoding), m[1], "value-kept", **w)
                    else:
                        ctx.eq(bytes(v.encoding), enc_num(*m[1:]), "value-kept", **w)
                        ctx.eq(type(v).__name__, m[1], "value-type", **w)
                        if unit_set is not None or prev_unit is None:
                            shown(v, m[1], m[2], unit_set, **w)
                ctx.check(all(o2.get_attr(j) is None for j in (*vals, ua)), "other-object-kept", **w)
            ctx.case(repr((cls, log[-4:], model, unit_set)).encode(), sample=(cls, log[-3:], unit_set))
            ctx.state((cls, unit_set is None, tuple(m is None or m[0] for m in model.values())))
    ctx.require("physical", 500)

    # ---------------------------------------------------------------- numbers with a fraction of their own, and what is reported of a register
    rng = ctx.sub("report")
    for _ in range(ctx.n(60, 500)):
        c = col.Collection()
        cls, ln, vals, ua = rng.choice(CLS)
        u = unit()
        first = rng.random() < 0.5
        e = rng.choice((b"\x17", b"\x17", b"\x18"))
        x = rng.choice((1.5, -0.25, 1024.0, 0.0))
        e += struct.pack(">f" if e == b"\x17" else ">d", x)
        with ctx.guard("float-value", cls=cls, first=first), quiet():
            o = add(c, cls, ln)
            if first:
                o.set_attr(ua, enc_unit(u))
            for j in vals:
                o.set_attr(j, e)
            if not first:
                o.set_attr(ua, enc_unit(u))
            for j in vals:
                v = o.get_attr(j)
                ctx.eq((bytes(v.encoding), str(v), float(str(v))), (e, str(x), x), "float-kept", cls=cls, first=first)
                ctx.eq(None if v.SCALER_UNIT is None else bytes(v.SCALER_UNIT.encoding), enc_unit(u), "float-has-unit", cls=cls, first=first, index=j)
            if cls in (3, 4):
                o.clear_attr(2)
                o.clear_attr(3)
                ctx.eq(o.get_report(), f"{o} ? ?", "report-of-empty", cls=cls)
        with ctx.guard("report", cls=cls, first=first), quiet():
            if cls == 5:
                continue
            o = add(c, cls, ln.replace("1.0.1", "1.0.21"))
            kind, raw = number()
            if first:
                o.set_attr(ua, enc_unit(u))
                o.set_attr(2, enc_num(kind, raw))
                t = Fraction(raw) * Fraction(10) ** (u[0] - us.get(u[1], 0))
                rep = o.get_report()
                name, txt, uni = f"{o} ", str(o.value), f" {cdt.ScalUnitType(u).unit}"
                ctx.eq(rep, name + txt + uni, "report-of-register", cls=cls, unit=u)
                ctx.eq(Fraction(txt), t, "report-of-register", cls=cls, unit=u)
            else:
                o.set_attr(2, enc_num(kind, raw))
                ctx.eq(o.get_report(), f"{o} {raw}", "report-without-unit", cls=cls)
        ctx.case(("report", cls, u, e, first))

    # ---------------------------------------------------------------- register monitor
    rng = ctx.sub("monitor")

    def target(cls, ln, idx):
        return b"\x02\x03" + b"\x12" + struct.pack(">H", cls) + b"\x09\x06" + bytes(ln.contents) + b"\x0f" + bytes((idx,))
    for _ in range(ctx.n(250, 4000)):
        c = col.Collection()
        cls, ln, vals, ua = rng.choice(CLS + ((1, "1.0.96.50.5.255", (2,), None),))
        r = add(c, cls, ln)
        m = add(c, 21, "0.0.16.1.0.255")
        kind, raw = number()
        before = []
        i = rng.choice(vals)
        known = rng.random() < 0.8
        w = dict(cls=cls, index=i, kind=kind, known=known)
        with ctx.guard("monitor", **w), quiet():
            u = unit()
            if ua and rng.random() < 0.7:
                r.set_attr(ua, enc_unit(u))
            if known:
                r.set_attr(i, enc_num(kind, raw))
            elif cls != 1 or True:
                pass
            before = [enc_num(*number(kind)) for _j in range(rng.randrange(4))]
            mixed = rng.random() < 0.2 and before
            if mixed:
                before[-1] = enc_num(*number(next(k for k in DIG if k != kind)))
            early = rng.random() < 0.5
            rng.shuffle(before)
            table = b"\x01" + bytes((len(before),)) + b"".join(before)
            if early:
                m.set_attr(2, table)
                ctx.eq(bytes(m.thresholds.encoding), table, "thresholds-before", **w)
                ctx.count(f"early-mixed:{bool(mixed) and len(before) > 1}")
            m.set_attr(3, target(cls, r.logical_name, i))
            ctx.eq(bytes(m.monitored_value.encoding), target(cls, r.logical_name, i), "target-kept", **w)
            if not known:
                if early:
                    ctx.eq(bytes(m.thresholds.encoding), table, "thresholds-kept-while-unknown", **w)
                ctx.count("monitor-unknown")
                continue
            if early:
                ctx.eq(bytes(m.thresholds.encoding), b"\x01\x00" if mixed else table, "thresholds-of-this-type-kept", **w)
            good = [enc_num(*number(kind)) for _j in range(rng.randrange(5))]
            t2 = b"\x01" + bytes((len(good),)) + b"".join(good)
            m.set_attr(2, t2)
            ctx.eq(bytes(m.thresholds.encoding), t2, "thresholds-set", **w)
            ctx.check(all(isinstance(x, type(r.get_attr(i))) for x in m.thresholds), "threshold-type", **w)
            bad = enc_num(*number(next(k for k in DIG if k != kind)))
            ctx.rejects(lambda: m.set_attr(2, b"\x01\x01" + bad), "threshold-of-another-type", **w)
            ctx.eq(bytes(m.thresholds.encoding), t2, "thresholds-after-refusal", **w)
            m.thresholds.append(raw)
            ctx.eq(bytes(m.thresholds[-1].encoding), enc_num(kind, raw), "threshold-appended", **w)
            ctx.count("monitor")
        ctx.case(repr((cls, i, kind, before)).encode(), sample=(cls, kind, len(before)))
    ctx.require("monitor", 80)
    c = col.Collection()
    m = add(c, 21, "0.0.16.1.0.255")
    with quiet():
        ctx.rejects(lambda: m.set_attr(3, target(3, cst.LogicalName("1.0.1.8.0.255"), 2)), "target-absent", exc=(exc.NoObject,))

    # ---------------------------------------------------------------- limiter
    rng = ctx.sub("limiter")
    for _ in range(ctx.n(250, 4000)):
        c = col.Collection()
        cls, ln, vals, ua = rng.choice(CLS)
        r, r2 = add(c, cls, ln), add(c, 3, "1.0.9.8.0.255")
        m = add(c, 71, "0.0.17.0.0.255")
        kind, raw = number()
        i = rng.choice(vals)
        u = unit()
        w = dict(cls=cls, index=i, kind=kind, unit=u)
        with ctx.guard("limiter", **w), quiet():
            k = rng.choice((3, 4, 5))
            ctx.rejects(lambda: m.set_attr(k, enc_num(kind, raw)), "limit-before-target", exc=(exc.EmptyObj,), **w)
            ctx.check(m.get_attr(k) is None, "limit-before-target-kept", **w)
            has_unit = rng.random() < 0.8
            if has_unit:
                r.set_attr(ua, enc_unit(u))
            if rng.random() < 0.15:
                ctx.rejects(lambda: m.set_attr(2, target(cls, r.logical_name, i)), "target-without-value", exc=(exc.EmptyObj,), **w)
                continue
            r.set_attr(i, enc_num(kind, raw))
            m.set_attr(2, target(cls, r.logical_name, i))
            for k in (3, 4, 5):
                v = m.get_attr(k)
                ctx.check(isinstance(v, getattr(cdt, kind)), "limit-type", got=type(v), **w)
                ctx.eq(bytes(v.encoding), bytes(getattr(cdt, kind)().encoding), "limit-empty", **w)
                ctx.check((m.threshold_active, m.threshold_normal, m.threshold_emergency)[k - 3] is v, "limit-by-name", limit=k, **w)
                n = number(kind)
                m.set_attr(k, enc_num(*n))
                ctx.eq(bytes(m.get_attr(k).encoding), enc_num(*n), "limit-kept", **w)
                ctx.eq(bytes(r.get_attr(i).encoding), enc_num(kind, raw), "monitored-kept", **w)
                if cls in (3, 4):
                    shown(m.get_attr(k), *n, u if has_unit else None, limit=k, cls=cls)
                ctx.rejects(lambda: m.set_attr(k, enc_num(*number(next(x for x in DIG if x != kind)))), "limit-of-another-type", **w)
                if rng.random() < 0.3:
                    m.clear_attr(k)
                    n = number(kind)
                    m.set_attr(k, enc_num(*n))
                    ctx.eq(bytes(m.get_attr(k).encoding), enc_num(*n), "limit-set-again", **w)
                    if cls in (3, 4):
                        shown(m.get_attr(k), *n, u if has_unit else None, limit=k, cls=cls)
                    ctx.count("limit set again")
            m.set_attr(6, b"\x06\x00\x00\x00\x0a")
            m.set_attr(7, 25)
            sec = cdt.ScalUnitType((0, 7)).unit
            ctx.eq((m.get_attr(6).get_report(), m.get_attr(7).get_report()), (f"10 {sec}", f"25 {sec}"), "duration-in-seconds", **w)
            m.set_attr(8, b"\x02\x03\x12\x00\x01\x09\x0c" + bytes((7, 0xd0, 1, 1, 6, 1, 1, 1, 0, 0x80, 0, 0)) + b"\x06\x00\x00\x00\x3c")
            ctx.eq(m.get_attr(8).emergency_duration.get_report(), f"60 {sec}", "duration-in-seconds", **w)
            ctx.count("limiter")
        ctx.case(repr((cls, i, kind, raw, u)).encode(), sample=(cls, kind, raw, u))
    ctx.require("limiter", 80)
