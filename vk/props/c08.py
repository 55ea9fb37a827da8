"""Nearest date/time not after a point."""
import datetime
import struct
from .. import axdr

RULE = ("date-time and time patterns with each field specified or not (weekday too, no last/penultimate-day codes), points in the zone of the pattern or another, around the pattern, month and year ends and leap days; "
        "oracle: scan backwards day by day and choose the greatest admissible time. Non-trivial: distinct (pattern, point).")
MODULES = ("types.common_data_types",)


def latest_time(fields, bound):
    """greatest (h, m, s, hs) matching fields and <= bound (or any when bound is None)"""
    lim = (23, 59, 59, 99)

    def go(i, tight):
        if i == 4:
            return ()
        top = bound[i] if tight else lim[i]
        cand = [fields[i]] if fields[i] is not None else range(top, -1, -1)
        for v in cand:
            if v > top:
                return None
            rest = go(i + 1, tight and v == top)
            if rest is not None:
                return (v,) + rest
        return None
    return go(0, bound is not None)


def oracle(pat, tfields, point):
    y, m, d, w = pat
    day = point.date()
    bound = (point.hour, point.minute, point.second, point.microsecond // 10000)
    first = True
    if y is not None and datetime.date(y, 12, 31) < day:
        day, first = datetime.date(y, 12, 31), False
    floor = datetime.date(y, 1, 1) if y is not None else datetime.date(max(2, day.year - 60), 1, 1)
    while day >= floor:
        if (m is None or day.month == m) and (d is None or day.day == d) and (w is None or day.isoweekday() == w):
            t = latest_time(tfields, bound if first else None)
            if t is not None:
                return datetime.datetime(day.year, day.month, day.day, t[0], t[1], t[2], t[3] * 10000)
        day -= datetime.timedelta(days=1)
        first = False
    return None


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt
    rng = ctx.sub("near")
    found = 0
    for i in range(ctx.n(2500, 40000)):
        py = rng.choice((2000, 2020, 2023, 2024, rng.randint(1990, 2080)))
        pm = rng.choice((1, 2, 3, 12, rng.randint(1, 12)))
        pd = rng.choice((1, axdr.days_in_month(py, pm), rng.randint(1, axdr.days_in_month(py, pm))))
        ph, pmi, ps, pu = rng.choice((0, 23, rng.randrange(24))), rng.choice((0, 59, rng.randrange(60))), rng.choice((0, 59, rng.randrange(60))), rng.choice((0, 99, rng.randrange(100)))
        y = rng.choice((None, None, py, py - 1, py + 1, py - 4))
        m = rng.choice((None, None, pm, rng.randint(1, 12), 2))
        d = rng.choice((None, None, pd, rng.randint(1, 31), 29, 30, 31))
        if d is not None and m is not None and d > axdr.days_in_month(2000 if y is None else y, m):
            d = None
        if y is not None and d is not None and m is None and d > 31:
            d = None
        w = None
        if rng.random() < 0.3:
            w = axdr.weekday(y, m, d) if None not in (y, m, d) else rng.randint(1, 7)
        tf = [rng.choice((None, v, rng.randrange(lim))) for v, lim in ((ph, 24), (pmi, 60), (ps, 60), (pu, 100))]
        mode = rng.random()
        if mode < 0.3:
            tf = [None] * 4
        elif mode < 0.5:
            tf = [rng.randrange(24), 0, 0, 0]
        dv = rng.choice((-0x8000, 0, 180, -300, 720))
        raw = struct.pack(">H", 0xffff if y is None else y) + bytes(0xff if v is None else v for v in (m, d, w, *tf)) + struct.pack(">h", dv) + b"\x00"
        zone = rng.choice((dv, dv, -0x8000, 0, 180, -720, 345, 720))         # of the point
        ptz = datetime.timezone.utc if zone == -0x8000 else datetime.timezone(datetime.timedelta(minutes=zone))
        tz = ptz if dv == -0x8000 else datetime.timezone(datetime.timedelta(minutes=dv))      # not specified: local time of the point
        point = datetime.datetime(py, pm, pd, ph, pmi, ps, pu * 10000, tzinfo=ptz)
        local = point.astimezone(tz)
        if local.date() != point.date():
            ctx.count("other-day")
        want = oracle((y, m, d, w), tf, local)
        ctx.case(raw + repr(point).encode(), sample=(raw.hex(), str(point), str(want)))
        with ctx.guard("nearest", pattern=raw, point=point):
            x = cdt.DateTime(bytearray(raw))
            got = x.get_left_nearest_datetime(point)
            found += want is not None
            ctx.count("found" if want is not None else "none")
            ctx.check((got is None) == (want is None) and (got is None or got == want.replace(tzinfo=tz)), "nearest-date-time", pattern=raw, point=point, got=got, want=want)
            ctx.eq(x.contents, raw, "pattern-kept", pattern=raw)
            if None not in (y, m, d) or tf == [None] * 4:
                g = x.get_left_nearest_date(point)
                wd = oracle((y, m, d, w), [0 if v is None else v for v in tf], local)
                ctx.check((g is None) == (wd is None) and (g is None or g.date() == wd.date()), "nearest-date", pattern=raw, point=point, got=g, want=wd)
        t = cdt.Time(bytearray(0xff if v is None else v for v in tf))
        with ctx.guard("nearest-time", pattern=tf, point=point.time()):
            got = t.get_left_nearest_time(point.time())
            lt = latest_time(tf, (ph, pmi, ps, pu))
            ctx.eq(got, None if lt is None else datetime.time(lt[0], lt[1], lt[2], lt[3] * 10000), "nearest-time", pattern=tf, point=point.time())
    ctx.require("found", 500)
    ctx.require("none", 50)
    ctx.require("other-day", 50)
