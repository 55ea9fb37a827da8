"""Scaled register values."""
import math
import os
import tomllib
from fractions import Fraction
from .. import axdr
from ..env import REPO

RULE = ("all 8 integer types x scalers -9..9 x units (including those with a configured display scaler), raw values within +-2^50 at the type's limits, powers of two and random; "
        "number, string and raw forms, set/get round trip, report text. Non-trivial: distinct (type, scaler, unit, raw).")
MODULES = ("types.common_data_types",)


def unit_scalers():
    with open(f"{REPO}/src/DLMS_SPODES/config.toml", "rb") as f:
        cfg = tomllib.load(f)
    return {u["e"]: u.get("scaler", 0) for u in cfg["DLMS"].get("Unit", [])}


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt
    rng = ctx.sub("scaled")
    us = unit_scalers()
    units = sorted(us) or list(range(1, 60))
    ctx.count("units-with-display-scaler", sum(1 for v in us.values() if v))
    kinds = sorted(axdr.INTS)
    for i in range(ctx.n(9000, 120000)):
        kind = kinds[i % len(kinds)]
        c = getattr(cdt, kind)
        lo, hi = axdr.int_range(kind)
        unit = rng.choice(units if rng.random() < 0.6 else [u for u in units if us.get(u)] or units)
        scaler = rng.randint(-6, 6) if rng.random() < 0.9 else rng.choice((-128, -20, -15, -13, 13, 18, 20, 127, rng.randint(-128, 127)))
        raw = axdr.edge_int(rng, max(lo, -(1 << 49)), min(hi, 1 << 49))
        exp = scaler - us.get(unit, 0)
        true = Fraction(raw) * Fraction(10) ** exp
        key = f"{kind}/{scaler}/{unit}/{raw}"
        ctx.case(key)
        ctx.state((kind, scaler, exp))
        with ctx.guard("scaled", type=kind, scaler=scaler, unit=unit, raw=raw):
            su = cdt.ScalUnitType((scaler, unit))
            ctx.eq((int(su.scaler), int(su.unit)), (scaler, unit), "scaler-unit")
            w = axdr.INTS[kind][1]
            x = c(bytearray(raw.to_bytes(w, "big", signed=axdr.INTS[kind][2])), scaler_unit=su)
            got = x.decode()
            ctx.check(math.isclose(float(true), got, rel_tol=1e-12, abs_tol=0) and (exp < 0 or Fraction(got) == true), "scaled-decode",
                      type=kind, scaler=scaler, unit=unit, raw=raw, got=got, want=float(true))
            y = c(got, scaler_unit=su)
            ctx.eq(y.contents, x.contents, "scaled-number-round-trip", type=kind, scaler=scaler, unit=unit, raw=raw, number=got)
            text = str(x)
            ctx.check(Fraction(text) == true, "scaled-text", "the text isn't the exact value", text=text, want=str(true), type=kind, scaler=scaler, unit=unit, raw=raw)
            ctx.eq(c(text, scaler_unit=su).contents, x.contents, "scaled-text-round-trip", type=kind, scaler=scaler, unit=unit, raw=raw, text=text)
            z = c(0 if lo <= 0 <= hi else lo, scaler_unit=su)
            z.set(text)
            ctx.eq(z.contents, x.contents, "scaled-set", type=kind, scaler=scaler, unit=unit, raw=raw)
            ctx.eq(x.encoding, c(raw).encoding, "scaling-stays-off-the-wire", type=kind)
            ctx.eq(x.get_report(False), text, "report-plain")
            ctx.eq(x.get_report(True), f"{text} {su.unit}", "report-unit")
            ctx.eq(x.copy().contents, x.contents, "scaled-copy")
            # another value in the same unit; the source isn't touched
            for form in (text, got):
                q = z.get_copy(form)
                ctx.eq(q.contents, x.contents, "scaled-other-value", type=kind, scaler=scaler, unit=unit, raw=raw, form=form)
                ctx.eq(q.get_report(True), f"{text} {su.unit}", "scaled-other-value-unit")
            kept = bytes(z.contents)
            x.get_copy(got).set(z.decode())
            ctx.eq((bytes(x.contents), bytes(z.contents)), (raw.to_bytes(w, "big", signed=axdr.INTS[kind][2]), kept), "scaled-other-value-apart")
        if i % 5 == 1:
            # which of two values is more doesn't depend on their scalers
            kind2, scaler2 = rng.choice(kinds), rng.randint(-6, 6)
            lo2, hi2 = axdr.int_range(kind2)
            with ctx.guard("scaled-compare"):
                near = int(Fraction(raw) * Fraction(10) ** (scaler - scaler2)) + rng.choice((-1, 0, 1, 7))
                raw2 = near if max(lo2, -(1 << 49)) <= near <= min(hi2, 1 << 49) and rng.random() < 0.7 else axdr.edge_int(rng, max(lo2, -(1 << 49)), min(hi2, 1 << 49))
                o = getattr(cdt, kind2)(bytearray(raw2.to_bytes(axdr.INTS[kind2][1], "big", signed=axdr.INTS[kind2][2])), scaler_unit=cdt.ScalUnitType((scaler2, unit)))
                t2 = Fraction(raw2) * Fraction(10) ** (scaler2 - us.get(unit, 0))
                if abs(t2 - true) > Fraction(1, 10 ** 10) * max(abs(t2), abs(true)):
                    ctx.eq((x > o, o > x), (true > t2, t2 > true), "scaled-compare", type=kind, scaler=scaler, unit=unit, raw=raw, type2=kind2, scaler2=scaler2, raw2=raw2)
                    ctx.count("compared with another scaler" if (raw > raw2) != (true > t2) else "compared")
        if i % 5 == 0:
            # beyond the raw range the value is refused, and what was there stays
            over = rng.choice((hi + 1, hi * 3 + 7)) if rng.random() < 0.7 or lo == 0 else lo - 2
            val = Fraction(over) * Fraction(10) ** exp
            arg = int(val) if val.denominator == 1 else float(val)
            if abs(over) < 1 << 49:
                with ctx.guard("scaled-overflow"):
                    x = c(bytearray(raw.to_bytes(w, "big", signed=axdr.INTS[kind][2])), scaler_unit=cdt.ScalUnitType((scaler, unit)))
                    before = x.contents
                    ctx.case(key + f"/over{over}")
                    ctx.rejects(lambda: x.set(arg), "scaled-overflow", type=kind, scaler=scaler, unit=unit, value=arg)
                    ctx.rejects(lambda: x.get_copy(arg), "scaled-other-value-overflow", type=kind, scaler=scaler, unit=unit, value=arg)
                    ctx.eq(x.contents, before, "scaled-overflow-kept")
    # a scaler/unit is fixed once; the same one again is harmless
    for i in range(ctx.n(60, 600)):
        a, b = (rng.randint(-5, 5), rng.choice(units)), (rng.randint(-5, 5), rng.choice(units))
        b = rng.choice((b, (a[0], b[1]), (b[0], a[1])))
        ctx.case(f"fixed/{a}/{b}")
        with ctx.guard("fixed-once"):
            x = cdt.LongUnsigned(rng.randrange(65536))
            x.SCALER_UNIT = cdt.ScalUnitType(a)
            x.SCALER_UNIT = cdt.ScalUnitType(a)
            if a != b:
                ctx.rejects(lambda: setattr(x, "SCALER_UNIT", cdt.ScalUnitType(b)), "rescale", a=a, b=b)
            ctx.rejects(lambda: setattr(x, "SCALER_UNIT", 5), "rescale-type")
            ctx.eq((int(x.SCALER_UNIT.scaler), int(x.SCALER_UNIT.unit)), a, "fixed-once")
            ctx.check(cdt.LongUnsigned.SCALER_UNIT is None, "class-untouched", "scaling of one value changed the type")
    ctx.require("checked:scaled-decode", 5000)
