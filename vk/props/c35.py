"""Calendars: names, references and what applies now."""
import calendar
import datetime
import struct

from .. import axdr
from .c08 import latest_time, oracle

RULE = ("random tables of seasons, weeks, days and special days edited by histories of append, insert, new element, removal and in-place changes against a model of names; "
        "queries at points around every start, wildcards, last days of months; clocks with a record time. Non-trivial: distinct (tables, question).")
MODULES = ("cosem_interface_classes.activity_calendar", "cosem_interface_classes.special_days_table", "cosem_interface_classes.schedule")


def O(b):
    return bytes((9, len(b))) + bytes(b)


def U(v):
    return bytes((0x11, v))


def LU(v):
    return b"\x12" + struct.pack(">H", v)


def ARR(items):
    return b"\x01" + axdr.length(len(items)) + b"".join(items)


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection as col, cosem_interface_class as ic
    from src.DLMS_SPODES.cosem_interface_classes import activity_calendar as ac, special_days_table as sd, schedule as sch
    from ..env import quiet

    def make():
        c = col.Collection()
        with quiet():
            cal = c.add(class_id=ut.CosemClassId(20), version=cdt.Unsigned(0), logical_name=cst.LogicalName("0.0.13.0.0.255"))
            spd = c.add(class_id=ut.CosemClassId(11), version=cdt.Unsigned(0), logical_name=cst.LogicalName("0.0.11.0.0.255"))
            clk = c.add(class_id=ut.CosemClassId(8), version=cdt.Unsigned(0), logical_name=cst.LogicalName("0.0.1.0.0.255"))
            sce = c.add(class_id=ut.CosemClassId(10), version=cdt.Unsigned(0), logical_name=cst.LogicalName("0.0.12.0.0.255"))
        return c, cal, spd, clk, sce

    # ------------------------------------------------------------------ generators
    def dt_fields(rng, py):
        """(date fields, time fields, raw date-time)"""
        y = rng.choice((None, None, None, py, py - 1, py + 1))
        m = rng.choice((None, rng.randint(1, 12), rng.randint(1, 12), 1, 12, 2))
        d = rng.choice((None, 1, 1, rng.randint(1, 28), 30, 31))
        if d is not None and m is not None and d > axdr.days_in_month(2001 if y is None else y, m):
            d = 28
        w = None
        if rng.random() < 0.15:
            w = axdr.weekday(y, m, d) if None not in (y, m, d) else rng.randint(1, 7)
        if w is not None and None not in (m, d):
            w = None                      # (a weekday of one yearly day may be decades back)
        tf = rng.choice(([None] * 4, [0, 0, 0, 0], [rng.randrange(24), rng.randrange(60), 0, 0], [rng.randrange(24), None, None, None]))
        return (y, m, d, w), tf

    def raw_dt(f, tf, dv):
        return struct.pack(">H", 0xffff if f[0] is None else f[0]) + bytes(0xff if v is None else v for v in (*f[1:], *tf)) + struct.pack(">h", dv) + b"\x00"

    # ------------------------------------------------------------------ what applies now
    rng = ctx.sub("now")
    for _ in range(ctx.n(600, 8000)):
        with ctx.guard("calendar-made"):
            c, cal, spd, clk, sce = make()
        py = rng.choice((2020, 2023, 2024, 2025))
        dv = rng.choice((-0x8000, 0, 180, -300))
        tz = datetime.timezone.utc if dv == -0x8000 else datetime.timezone(datetime.timedelta(minutes=dv))
        sdv = rng.choice((dv, -0x8000, -0x8000, 0, 180, -300))        # of the starts of seasons; not specified: local time
        days = rng.sample(range(256), rng.randint(1, 5))
        if rng.random() < 0.3 and 0 not in days:
            days[0] = 0
        scheds = {}
        for d in days:
            acts = []
            for _k in range(rng.choice((0, 1, 2, 3, 8))):
                tf = rng.choice(([0, 0, 0, 0], [rng.randrange(24), rng.choice((0, 30, rng.randrange(60))), 0, 0], [rng.randrange(24), rng.randrange(60), None, None], [None, 15, 0, None], [23, 59, 59, 99]))
                acts.append((tf, rng.choice((1, 2, 3, 4, 0, 0xffff, rng.randrange(65536)))))
            scheds[d] = acts
        wnames = [bytes(rng.randrange(256) for _k in range(rng.choice((1, 1, 1, 0, 3)))) for _k in range(rng.randint(1, 3))]
        wnames = list(dict.fromkeys(wnames))
        weeks = {n: [rng.choice(days) for _k in range(7)] for n in wnames}
        snames = list(dict.fromkeys(bytes(rng.randrange(256) for _k in range(rng.choice((1, 1, 2)))) for _k in range(rng.choice((0, 1, 2, 3, 4)))))
        seasons = []
        for n in snames:
            f, tf = dt_fields(rng, py)
            seasons.append((n, f, tf, rng.choice(wnames)))
        # special days
        spec = []
        for k, idx in enumerate(rng.sample(range(0x10000), rng.choice((0, 1, 2, 4)))):
            sm = rng.choice((None, rng.randint(1, 12), 2))
            sday = rng.choice((None, 0xfe, 0xfd, rng.randint(1, 28), 1, 28))
            sy = rng.choice((None, None, py))
            sw = rng.choice((None, None, rng.randint(1, 7)))
            if None not in (sy, sm, sday) and sday < 0xe0:
                sw = rng.choice((None, axdr.weekday(sy, sm, sday)))
            spec.append((idx, (sy, sm, sday, sw), rng.choice(days + [rng.randrange(256)])))
        enc5 = ARR([b"\x02\x02" + U(d) + ARR([b"\x02\x03" + O(bytes(0xff if v is None else v for v in tf)) + O(bytes((0, 0, 10, 0, 100, 255))) + LU(s) for tf, s in scheds[d]]) for d in days])
        enc4 = ARR([b"\x02\x08" + O(n) + b"".join(U(d) for d in weeks[n]) for n in wnames])
        enc3 = ARR([b"\x02\x03" + O(n) + O(raw_dt(f, tf, sdv)) + O(w) for n, f, tf, w in seasons])
        encs = ARR([b"\x02\x03" + LU(i) + O(struct.pack(">H", 0xffff if f[0] is None else f[0]) + bytes(0xff if v is None else v for v in f[1:])) + U(d) for i, f, d in spec])
        w = dict(days=enc5, weeks=enc4, seasons=enc3, special=encs)
        with ctx.guard("valid-tables-accepted", **w):
            with quiet():
                for i, e in ((5, enc5), (4, enc4), (3, enc3)):
                    cal.set_attr(i, e)
                spd.set_attr(2, encs)
            ctx.eq((cal.get_attr(5).encoding, cal.get_attr(4).encoding, cal.get_attr(3).encoding, spd.get_attr(2).encoding), (enc5, enc4, enc3, encs), "tables-kept", **w)
            cal.validate()
            ctx.count("validated")
        if len(cal.get_attr(5)) != len(days):
            continue

        def want_season(p):
            best = None
            for s in seasons:
                q = p if sdv == -0x8000 else p.astimezone(datetime.timezone(datetime.timedelta(minutes=sdv)))
                lp = oracle(s[1], s[2], q.replace(tzinfo=None))
                if lp is not None and (best is None or best[1] < lp):
                    best = (s, lp)
            return None if best is None else best[0]

        def want_special(p):
            for idx, f, d in spec:
                y, m, dd, ww = f
                if dd in (0xfe, 0xfd):
                    dd = calendar.monthrange(p.year, p.month)[1] - (0xfe - dd)
                if y in (None, p.year) and m in (None, p.month) and dd in (None, p.day) and ww in (None, p.isoweekday()):
                    return d
            return None

        def want_day(p):
            d = want_special(p)
            if d is not None:
                return d if d in scheds else None
            s = want_season(p)
            return None if s is None else weeks[s[3]][p.isoweekday() - 1]

        def want_action(p):
            d = want_day(p)
            if d is None:
                return None
            best = None
            for tf, sel in scheds[d]:
                t = latest_time(tf, (p.hour, p.minute, p.second, p.microsecond // 10000))
                if t is not None and (best is None or best[0] < t):
                    best = (t, tf, sel)
            return best

        for _k in range(6):
            p = datetime.datetime(py, rng.choice((1, 2, 3, 12, rng.randint(1, 12))), 1, tzinfo=tz)
            p = p.replace(day=rng.choice((1, axdr.days_in_month(p.year, p.month), axdr.days_in_month(p.year, p.month) - 1, rng.randint(1, 28))),
                          hour=rng.choice((0, 23, rng.randrange(24))), minute=rng.randrange(60), second=rng.choice((0, 59)), microsecond=rng.randrange(100) * 10000)
            if seasons and rng.random() < 0.4:          # just around the start of a season
                f, tf = rng.choice(seasons)[1:3]
                try:
                    p = p.replace(year=f[0] or py, month=f[1] or p.month, day=f[2] or p.day, hour=tf[0] or 0, minute=tf[1] or 0, second=0, microsecond=0) - datetime.timedelta(seconds=rng.choice((0, 0, 1)))
                except ValueError:
                    pass
            w["point"] = p
            ctx.case(repr((enc3, encs, p)).encode(), sample=(enc3.hex()[:60], encs.hex()[:40], str(p)))
            s = want_season(p)
            if s is None:
                ctx.rejects(lambda: cal.get_current_season(p), "no-season", exc=(AttributeError,), **w)
                ctx.rejects(lambda: cal.get_current_week(p), "no-season", exc=(AttributeError,), **w)
            else:
                with ctx.guard("current-season", **w):
                    ctx.eq(bytes(cal.get_current_season(p).season_profile_name.contents), s[0], "current-season", **w)
                    g = cal.get_current_week(p)
                    ctx.eq((bytes(g.week_profile_name.contents), [int(g[i]) for i in range(1, 8)]), (s[3], weeks[s[3]]), "current-week", **w)
                    ctx.count("season")
            sp = want_special(p)
            with ctx.guard("special-day", **w):
                g = spd.get_day_id_of_current_special_day(p)
                ctx.eq(None if g is None else int(g), sp, "special-day", **w)
                ctx.count("special" if sp is not None else "ordinary")
            d = want_day(p)
            if d is None:
                ctx.rejects(lambda: cal.get_current_day(p), "no-day", exc=(AttributeError,), **w)
            else:
                with ctx.guard("current-day", **w):
                    g = cal.get_current_day(p)
                    ctx.eq((int(g.day_id), len(g.day_schedule)), (d, len(scheds[d])), "current-day", **w)
            # the action at the time of the clock
            if dv == -0x8000 or rng.random() < 0.5:
                continue
            ago = rng.choice((0, 5, 3600, 86400 * 3, -3600))
            a1, a2 = want_action(p), want_action(p + datetime.timedelta(seconds=4))
            p2 = p + datetime.timedelta(seconds=4)
            if a1 != a2 and (a1 is None or a2 is None or a1[2] != a2[2]):
                continue
            start = p - datetime.timedelta(seconds=ago)
            now = datetime.datetime.now(datetime.timezone.utc)
            rec = now - datetime.timedelta(seconds=ago)
            with ctx.guard("clock", **w):
                with quiet():
                    clk.set_attr(2, O(struct.pack(">H", start.year) + bytes((start.month, start.day, start.isoweekday(), start.hour, start.minute, start.second, start.microsecond // 10000)) + struct.pack(">h", dv) + b"\x00"))
                    rtz = datetime.timezone(datetime.timedelta(minutes=rng.choice((0, 180, -60))))
                    r = rec.astimezone(rtz)
                    clk.set_record_time(2, bytes((25, )) + struct.pack(">H", r.year) + bytes((r.month, r.day, r.isoweekday(), r.hour, r.minute, r.second, r.microsecond // 10000)) + struct.pack(">h", int(r.utcoffset().total_seconds() // 60)) + b"\x00")
                    if rng.random() < 0.5:
                        clk.set_attr(3, b"\x10" + struct.pack(">h", dv))
                t = clk.get_current_time()
                ctx.check(p - datetime.timedelta(seconds=0.05) <= t < p2 + datetime.timedelta(seconds=60), "current-time", got=t, **w)
                ctx.eq(t.utcoffset(), tz.utcoffset(None), "current-time", message="zone", got_time=t, **w)
            if not p <= t < p2 or (t.date() != p2.date()):
                ctx.count("slow")
                continue
            if a1 is None:
                ctx.rejects(lambda: cal.get_current_action(), "no-action", exc=(AttributeError,), **w)
                ctx.rejects(lambda: cal.get_current_rate(), "no-action", exc=(AttributeError,), **w)
                ctx.count("no-action")
            else:
                with ctx.guard("current-action", **w):
                    ctx.eq(int(cal.get_current_action().script_selector), a1[2], "current-action", **w)
                    ctx.eq(cal.get_current_rate(), a1[2], "current-rate", **w)
                    if want_day(t) == want_day(p2):       # nothing changes while asking
                        ctx.eq(int(cal.get_current_day().day_id), want_day(t), "current-day-by-clock", **w)
                    g = spd.get_day_id_of_current_special_day()
                    ctx.eq(None if g is None else int(g), want_special(t), "special-day-by-clock", **w)
                    if want_season(t) is not None and want_season(t) == want_season(p2):
                        ctx.eq(bytes(cal.get_current_season().season_profile_name.contents), want_season(t)[0], "current-season-by-clock", **w)
                        ctx.eq(bytes(cal.get_current_week().week_profile_name.contents), want_season(t)[3], "current-week-by-clock", **w)
                    ctx.count("action")
        if seasons and None not in (want_season(w["point"]),):     # a season whose week is absent tells nothing of the days
            p = w["point"]
            with ctx.guard("absent-week", **w):
                free = next(bytes((v,)) for v in range(256) if bytes((v,)) not in weeks)
                for s in cal.get_attr(3):
                    s.week_name.set(bytearray(free))
                ctx.rejects(lambda: cal.get_current_week(p), "absent-week", exc=(AttributeError,), **w)
                if want_special(p) is None:
                    ctx.rejects(lambda: cal.get_current_day(p), "absent-week", exc=(AttributeError,), **w)
                ctx.count("absent-week")
    ctx.require("season", 200)
    ctx.require("special", 30)
    ctx.require("action", 30)
    # nothing to answer from
    c, cal, spd, clk, sce = make()
    ctx.rejects(lambda: clk.get_current_time(), "no-record-time", exc=(AttributeError,))
    ctx.rejects(lambda: cal.get_current_action(), "no-record-time", exc=(AttributeError,))

    # ------------------------------------------------------------------ editing against a model of names
    rng = ctx.sub("edit")
    LEVEL = {5: ("day_id", ac.DayProfile), 4: ("week_profile_name", ac.WeekProfile), 3: ("season_profile_name", ac.Season)}

    def name_of(el):
        return el[0].encoding

    for _ in range(ctx.n(150, 2500)):
        with ctx.guard("calendar-made"):
            c, cal, spd, clk, sce = make()
        base = rng.choice((0, 4))               # active 3..5 or passive 7..9
        arrays = {lv: cal.get_attr(lv + base) for lv in LEVEL}
        others = {lv: cal.get_attr(lv + 4 - base) for lv in LEVEL}
        model = {lv: [] for lv in LEVEL}        # encodings
        log = []
        for _k in range(rng.choice((10, 25, 60))):
            lv = rng.choice((3, 4, 5, 5))
            a, mdl = arrays[lv], model[lv]
            names = [struct_name(e) for e in mdl]
            op = rng.choice(("new", "new", "dup", "insert-dup", "append", "insert", "pop", "set", "set-dup", "clear", "rename"))
            log.append((lv, op))
            w = dict(history=log[-12:], level=lv, op=op, present=[n.hex() for n in names])

            def element(name=None):
                if name is None:
                    while True:
                        name = U(rng.randrange(256)) if lv == 5 else O(bytes(rng.randrange(256) for _j in range(rng.choice((0, 1, 2, 4)))))
                        if name not in names:
                            break
                if lv == 5:
                    return b"\x02\x02" + name + ARR([b"\x02\x03" + O(bytes((rng.randrange(24), 0, 0, 0))) + O(bytes((0, 0, 10, 0, 100, 255))) + LU(rng.randrange(9)) for _j in range(rng.randrange(3))])
                if lv == 4:
                    return b"\x02\x08" + name + b"".join(U(rng.randrange(256)) for _j in range(7))
                return b"\x02\x03" + name + O(raw_dt(*dt_fields(rng, 2024), -0x8000)) + O(bytes((rng.randrange(256),)))
            below = {3: 4, 4: 5}.get(lv)
            with ctx.guard("edit", **w), quiet():
                if op == "new":
                    if below and not model[below]:
                        ctx.rejects(lambda: a.new_element(), "nothing-to-refer-to", **w)
                        ctx.rejects(lambda: a.append(), "nothing-to-refer-to", **w)
                        continue
                    e = a.new_element()
                    ctx.check(name_of(e) not in names, "new-name-vacant", got=name_of(e), **w)
                    ctx.eq(a.encoding, ARR(mdl), "new-element-not-in-table", **w)
                    if below:
                        refs = {struct_name(x)for x in model[below]}
                        used = {e[i].encoding for i in range(1, 8)} if lv == 4 else {e[2].encoding}
                        ctx.check(used <= refs, "new-refers-to-existing", got=used, refs=refs, **w)
                    a.append()
                    ctx.eq(a[-1].encoding, e.encoding, "appended-new", **w)
                    mdl.append(bytes(e.encoding))
                    ctx.count("new")
                elif op in ("dup", "insert-dup"):
                    if not mdl:
                        continue
                    e = element(rng.choice(names))
                    if op == "dup":
                        ctx.rejects(lambda: a.append(LEVEL[lv][1](e)), "duplicate-name", **w)
                    else:
                        ctx.rejects(lambda: a.insert(rng.randrange(len(mdl) + 1), LEVEL[lv][1](e)), "duplicate-name", **w)
                elif op == "append":
                    e = element()
                    a.append(LEVEL[lv][1](e) if rng.random() < 0.6 else e)
                    mdl.append(e)
                elif op == "insert":
                    e, i = element(), rng.randrange(len(mdl) + 1)
                    a.insert(i, LEVEL[lv][1](e))
                    mdl.insert(i, e)
                elif op == "pop":
                    if mdl:
                        i = rng.randrange(len(mdl))
                        if rng.random() < 0.5:
                            a.pop(i)
                        else:
                            a.remove(a[i])
                        del mdl[i]
                elif op == "clear":
                    if rng.random() < 0.2:
                        a.clear()
                        mdl.clear()
                elif op == "set":
                    new = []
                    for _j in range(rng.choice((0, 1, 3))):
                        e = element()
                        if struct_name(e) not in [struct_name(x) for x in new]:
                            new.append(e)
                    if rng.random() < 0.5:
                        cal.set_attr(lv + base, ARR(new))
                    else:
                        a.set(ARR(new))
                    mdl[:] = new
                elif op == "set-dup":
                    e = element()
                    new = [e, element(struct_name(e))] + [element()]
                    rng.shuffle(new)
                    ctx.rejects(lambda: cal.set_attr(lv + base, ARR(new)) if rng.random() < 0.5 else a.set(ARR(new)), "duplicate-name-in-table", **w)
                elif op == "rename" and mdl and lv != 5:
                    i = rng.randrange(len(mdl))
                    e = element()
                    a[i].set(e)
                    mdl[i] = e
            ctx.check(cal.get_attr(lv + base) is a, "table-kept", **w)
            ctx.eq(a.encoding, ARR(mdl), "table-after-edit", **w)
            for o in LEVEL:
                if o != lv:
                    ctx.eq(arrays[o].encoding, ARR(model[o]), "other-table-kept", **w)
                ctx.eq(others[o].encoding, ARR([]), "other-calendar-kept", **w)
            ctx.case(repr((log[-4:], mdl)).encode(), sample=(log[-4:], len(mdl)))
            ctx.state(tuple(len(model[o]) for o in sorted(model)))

        # the report of an invalid calendar
        ids = {struct_name(e)[1] for e in model[5]}
        wn = {struct_name(e) for e in model[4]}
        bad = set()
        for lv in (5, 4, 3):
            ns = [struct_name(e) for e in model[lv]]
            if len(set(ns)) != len(ns):
                bad.add(lv + base)
        if any(x not in ids for e in model[4] for x in e[-13::2]):
            bad.add(4 + base)
        if any(week_of(e) not in wn for e in model[3]):
            bad.add(3 + base)
        w = dict(days=ARR(model[5]), weeks=ARR(model[4]), seasons=ARR(model[3]), base=base)
        try:
            cal.validate()
            got = None
        except ic.ObjectValidationError as e:
            got = e.i
        except Exception as e:
            got = repr(e)
        ctx.check(got in bad if bad else got is None, "validation", got=got, want=bad, **w)
        ctx.count("invalid" if bad else "valid")
    ctx.require("new", 50)
    ctx.require("invalid", 5)

    # ------------------------------------------------------------------ validation of one broken table
    rng = ctx.sub("validate")
    for _ in range(ctx.n(150, 3000)):
        c, cal, spd, clk, sce = make()
        days = rng.sample(range(256), rng.randint(2, 5))
        wnames = [bytes((v,)) for v in rng.sample(range(256), rng.randint(2, 4))]
        snames = [bytes((v,)) for v in rng.sample(range(256), rng.randint(2, 4))]
        sets = []
        for base in (0, 4):
            e5 = ARR([b"\x02\x02" + U(d) + ARR([]) for d in days])
            e4 = ARR([b"\x02\x08" + O(n) + b"".join(U(rng.choice(days)) for _j in range(7)) for n in wnames])
            e3 = ARR([b"\x02\x03" + O(n) + O(raw_dt((None, 1, 1, None), [0] * 4, -0x8000)) + O(rng.choice(wnames)) for n in snames])
            with ctx.guard("valid-tables-accepted"), quiet():
                for i, e in ((5, e5), (4, e4), (3, e3)):
                    cal.set_attr(i + base, e)
        base = rng.choice((0, 4))
        kind = rng.choice(("day", "week", "season", "ref-day", "ref-week", "none", "none"))
        w = dict(kind=kind, base=base)
        with ctx.guard("in-place", **w), quiet():
            if kind == "day":
                i, j = rng.sample(range(len(days)), 2)
                t = cal.get_attr(5 + base)
                t[i].day_id.set(int(t[j].day_id))
                # references to the old identifier are broken as well: the first invalid table is still the days
            elif kind == "week":
                i, j = rng.sample(range(len(wnames)), 2)
                t = cal.get_attr(4 + base)
                t[i].week_profile_name.set(bytearray(t[j].week_profile_name.contents))
            elif kind == "season":
                i, j = rng.sample(range(len(snames)), 2)
                t = cal.get_attr(3 + base)
                t[i].season_profile_name.set(bytearray(t[j].season_profile_name.contents))
            elif kind == "ref-day":
                t = cal.get_attr(4 + base)
                t[rng.randrange(len(t))][rng.randint(1, 7)].set(next(v for v in range(256) if v not in days))
            elif kind == "ref-week":
                t = cal.get_attr(3 + base)
                t[rng.randrange(len(t))].week_name.set(bytearray(b"" if rng.random() < 0.3 else next(bytes((v,)) for v in range(256) if bytes((v,)) not in wnames)))
        try:
            cal.validate()
            got = None
        except ic.ObjectValidationError as e:
            got = e.i
        except Exception as e:
            got = repr(e)
        want = {"none": None, "day": 5 + base, "week": 4 + base, "season": 3 + base, "ref-day": 4 + base, "ref-week": 3 + base}[kind]
        ctx.eq(got, want, "validation-of-one-break", **w)
        ctx.case((kind, base, tuple(days)), sample=(kind, base))
        ctx.count(f"validated:{kind}")

    # all names busy
    c, cal, spd, clk, sce = make()
    with quiet(), ctx.guard("busy"):
        for i in range(255):
            cal.get_attr(5).append()
        ctx.eq(len({int(d.day_id) for d in cal.get_attr(5)}), 255, "all-days")
        try:
            e = cal.get_attr(5).new_element()
            ctx.check(int(e.day_id) == 255, "vacant-day", got=e.encoding)
            cal.get_attr(5).append(e)
        except ValueError:
            cal.get_attr(5).append(ac.DayProfile(b"\x02\x02\x11\xff\x01\x00"))
        ctx.rejects(lambda: cal.get_attr(5).append(), "all-days-busy")
        for i in range(256):
            cal.get_attr(4).append()
        ctx.eq(len({bytes(d[0].contents) for d in cal.get_attr(4)}), 256, "all-weeks")
        ctx.rejects(lambda: cal.get_attr(4).append(), "all-weeks-busy")
        for i in range(256):
            cal.get_attr(3).append()
        ctx.eq(len({bytes(d[0].contents) for d in cal.get_attr(3)}), 256, "all-seasons")
        ctx.rejects(lambda: cal.get_attr(3).append(), "all-seasons-busy")
        for i, key in ((3, lambda d: bytes(d[0].contents)), (4, lambda d: bytes(d[0].contents)), (5, lambda d: int(d[0]))):
            t = cal.get_attr(i)
            for gone in (0, len(t) - 2, *(rng.randrange(len(t)) for _j in range(4))):
                if i == 5 and key(t[gone]) == 255:
                    gone -= 1
                free = key(t[gone])
                t.pop(gone)
                n = {key(d) for d in t}
                e = t.new_element()
                ctx.check(key(e) not in n, "freed-name", table=i)
                ctx.eq(key(e), free, "the-only-free-name", table=i)
                t.append(e)
                ctx.eq({key(d) for d in t}, n | {free}, "freed-name-taken", table=i)

    # ------------------------------------------------------------------ special days
    rng = ctx.sub("special")
    for _ in range(ctx.n(150, 2500)):
        c, cal, spd, clk, sce = make()
        a, mdl, log = spd.get_attr(2), [], []
        if rng.random() < 0.12:      # a table of many days
            many = [b"\x02\x03" + LU(i) + O(b"\xff\xff\x01\x01\xff") + U(1) for i in rng.sample(range(65536), rng.choice((40, 70, 130, 300)))]
            with ctx.guard("many-special-days"), quiet():
                spd.set_attr(2, ARR(many))
            mdl += many
            for e in rng.sample(many[-9:], 3):
                n = struct.unpack(">H", e[3:5])[0]
                ctx.rejects(lambda: a.append(sd.SpecDayEntry(e)), "duplicate-of-many", days=len(many), index=n)
                i = next(k for k in range(len(many)) if many[k] is not e)
                ctx.rejects(lambda: a[i].index.set(n), "index-changed-to-one-of-many", days=len(many), index=n)
            ctx.count("special: many days")
        for _k in range(rng.choice((6, 15, 40))):
            op = rng.choice(("new", "append", "dup", "insert", "insert-dup", "pop", "set", "set-dup", "index", "index-dup", "delete", "delete-absent"))
            idx = [struct.unpack(">H", e[3:5])[0] for e in mdl]
            log.append(op)
            w = dict(history=log[-10:], op=op, present=idx)

            def element(i=None):
                if i is None:
                    while True:
                        i = rng.choice((0, 1, 2, 0xffff, rng.randrange(65536)))
                        if i not in idx:
                            break
                return b"\x02\x03" + LU(i) + O(b"\xff\xff" + bytes((rng.choice((0xff, 1, 12)), rng.choice((0xff, 1, 0xfe, 0xfd, 28)), 0xff))) + U(rng.randrange(256))
            with ctx.guard("special-edit", **w), quiet():
                if op == "new":
                    e = a.new_element()
                    ctx.check(int(e.index) not in idx, "vacant-index", got=int(e.index), **w)
                    a.append(e)
                    mdl.append(bytes(e.encoding))
                elif op == "append":
                    e = element()
                    a.append(sd.SpecDayEntry(e))
                    mdl.append(e)
                elif op == "insert":
                    e, i = element(), rng.randrange(len(mdl) + 1)
                    a.insert(i, sd.SpecDayEntry(e))
                    mdl.insert(i, e)
                elif op == "dup" and mdl:
                    e = element(rng.choice(idx))
                    ctx.rejects(lambda: a.append(sd.SpecDayEntry(e)), "duplicate-index", **w)
                elif op == "insert-dup" and mdl:
                    e = element(rng.choice(idx))
                    ctx.rejects(lambda: a.insert(0, sd.SpecDayEntry(e)), "duplicate-index", **w)
                elif op == "pop" and mdl:
                    i = rng.randrange(len(mdl))
                    a.pop(i)
                    del mdl[i]
                elif op == "set":
                    new = []
                    for _j in range(rng.choice((0, 1, 3))):
                        e = element()
                        if e[:5] not in [x[:5] for x in new]:
                            new.append(e)
                    spd.set_attr(2, ARR(new))
                    mdl[:] = new
                elif op == "set-dup":
                    e = element()
                    new = [element(struct.unpack(">H", e[3:5])[0]), e]
                    ctx.rejects(lambda: spd.set_attr(2, ARR(new)), "duplicate-index-in-table", **w)
                elif op == "index" and mdl:
                    i, e = rng.randrange(len(mdl)), element()
                    v = struct.unpack(">H", e[3:5])[0]
                    a[i].index.set(v)
                    mdl[i] = mdl[i][:3] + e[3:5] + mdl[i][5:]
                elif op == "index-dup" and len(mdl) > 1:
                    i, j = rng.sample(range(len(mdl)), 2)
                    ctx.rejects(lambda: a[i].index.set(idx[j]), "index-changed-to-existing", **w)
                elif op == "delete" and mdl:
                    v = rng.choice(idx)
                    spd.delete.set(v)
                    ctx.eq(int(spd.delete), v, "delete-existing", **w)
                elif op == "delete-absent":
                    v = next(x for x in (rng.randrange(65536) for _ in range(99)) if x not in idx)
                    before = spd.delete.encoding
                    ctx.rejects(lambda: spd.delete.set(v), "delete-absent", **w)
                    ctx.eq(spd.delete.encoding, before, "delete-absent-kept", **w)
            ctx.eq(a.encoding, ARR(mdl), "special-after-edit", **w)
            ctx.eq(a.get_indexes(), [struct.unpack(">H", e[3:5])[0] for e in mdl], "indexes", **w)
            ctx.case(repr((log[-4:], mdl)).encode(), sample=(log[-4:], len(mdl)))

    # ------------------------------------------------------------------ schedule
    rng = ctx.sub("schedule")

    def entry(i):
        wd = rng.randrange(128)
        sp = rng.randrange(256)
        return (b"\x02\x0a" + LU(i) + bytes((3, rng.randrange(2))) + O(bytes((0, 0, 10, 0, 100, 255))) + LU(rng.randrange(9)) + O(bytes((rng.randrange(24), 0, 0, 0))) + LU(rng.choice((0, 0xffff, 15)))
                + bytes((4, 7, wd << 1)) + bytes((4, 8, sp)) + O(b"\xff\xff\x01\x01\xff") + O(b"\xff\xff\x0c\x1f\xff"))
    for _ in range(ctx.n(150, 2500)):
        c, cal, spd, clk, sce = make()
        idx = rng.sample((1, 2, 9999, 9998, *[rng.randint(1, 9999) for _ in range(4)], 5000), rng.randrange(1, 5))
        idx = list(dict.fromkeys(idx))
        items = [entry(i) for i in idx]
        with ctx.guard("schedule", idx=idx), quiet():
            sce.set_attr(2, ARR(items))
            a = sce.get_attr(2)
            ctx.eq(a.encoding, ARR(items), "schedule-kept", idx=idx)
            ctx.eq(a.get_indexes(), idx, "schedule-indexes", idx=idx)
            ctx.rejects(lambda: a.append(sch.ScheduleTableEntry(rng.choice(items))), "same-entry-twice", idx=idx)
            x = a[rng.randrange(len(items))].index
            ctx.rejects(lambda: x.check(str(rng.choice(idx))), "index-not-unique", idx=idx)
            free = next(v for v in range(1, 9999) if v not in idx)
            x.check(str(free))
            extra = entry(free)
            a.append(sch.ScheduleTableEntry(extra))
            ctx.eq(a.encoding, ARR(items + [extra]), "schedule-appended", idx=idx)
            ctx.rejects(lambda: a[0].index.check(str(free)), "index-not-unique", idx=idx)
            ctx.rejects(lambda: a[-1].index.check(str(idx[0])), "index-not-unique", idx=idx)
            for v in (0, 10000, 65535):
                ctx.rejects(lambda: a[0].index.set(v), "index-range", value=v)
                ctx.rejects(lambda: sch.Index(v), "index-range", value=v)
            ctx.eq(a.encoding, ARR(items + [extra]), "schedule-kept-after-refusals", idx=idx)
            ed, de = sce.enable_disable, sce.delete
            for k in (ed.firstIndexA, ed.lastIndexA, ed.firstIndexB, ed.lastIndexB, de.firstIndex, de.lastIndex, sce.insert.index):
                ctx.eq(k.get_indexes(), idx + [free], "schedule-indexes-offered", idx=idx)
            ctx.rejects(lambda: sce.insert.index.check(str(rng.choice(idx))), "index-not-unique", idx=idx)
        ctx.case(repr(items).encode(), sample=idx)


def struct_name(e):
    """the encoding of the first member"""
    return e[2:4] if e[2] == 0x11 else e[2:4 + e[3]]


def week_of(e):
    """the last octet string of a season"""
    p = 2
    for _ in range(2):
        p += 2 + e[p + 1]
    return e[p:]
