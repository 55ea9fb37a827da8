"""Date, time and date-time values."""
import datetime
import struct
from .. import axdr

RULE = ("dates/times/date-times with every field independently specified, unspecified or a special code, deviations over -720..720, all clock statuses; python datetimes with and without zone; "
        "invalid fields one at a time; octet-string variants. Non-trivial: distinct contents.")
MODULES = ("types.common_data_types", "types.cosem_service_types")
WD = ("пон", "вто", "сре", "чет", "пят", "суб", "вос")
WD_EN = ("monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday")


def date_text(c: bytes) -> str:
    y, m, d, w = int.from_bytes(c[:2], "big"), c[2], c[3], c[4]
    s = {0xff: "__", 0xfe: "last", 0xfd: "penult"}.get(d, f"{d:02}") + "." + {0xff: "__", 0xfe: "begin", 0xfd: "end"}.get(m, f"{m:02}")
    if y != 0xffff:
        s += f".{y:04}"
    elif w != 0xff:
        s += ".____"
    return s + ("" if w == 0xff else "-" + WD[w - 1])


def time_text(c: bytes) -> str:
    f = lambda v: "__" if v == 0xff else f"{v:02}"
    s = f"{f(c[0])}:{f(c[1])}"
    if c[2] != 0xff or c[3] != 0xff:
        s += ":" + f(c[2])
    if c[3] != 0xff:
        s += "." + f(c[3])
    return s


def py_date(c):
    y, m, d = int.from_bytes(c[:2], "big"), c[2], c[3]
    m2 = 1 if m >= 0xfd else m
    d2 = 1 if d >= 0xfd else d
    if y == 0xffff:
        y = None
    return y, m2, d2


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst
    rng = ctx.sub("dt")
    u = lambda v: 0 if v == 0xff else v

    for _ in range(ctx.n(6000, 80000)):
        d, t = axdr.gen_date(rng), axdr.gen_time(rng)
        dev, st = axdr.gen_deviation(rng), bytes((rng.randrange(256),))
        full = d + t + dev + st
        ctx.case(full)
        for c, os_c, raw, size in ((cdt.Date, cst.OctetStringDate, d, 5), (cdt.Time, cst.OctetStringTime, t, 4), (cdt.DateTime, cst.OctetStringDateTime, full, 12)):
            name = c.__name__
            with ctx.guard("value", type=name, contents=raw):
                x = c(bytes(c.TAG) + raw + b"tail")
                ctx.eq(x.contents, raw, "contents", type=name)
                ctx.eq(c(bytearray(raw)).contents, raw, "from-contents", type=name)
                o = os_c(b"\x09" + bytes((size,)) + raw)
                ctx.eq((o.encoding, o.contents), (b"\x09" + bytes((size,)) + raw, raw), "octet-string-form", type=name)
                ctx.eq(c(c(x)).contents, raw, "same-type", type=name)
                wrong = rng.choice((b"\x09" + bytes((rng.choice([k for k in (0, 1, 4, 5, 12, 13, 0x81) if k != size]),)) + raw, bytes(c.TAG) + raw, b"\x0a" + bytes((size,)) + raw, b"\x09", b"", raw if raw[:2] != b"\x09" + bytes((size,)) else b""))
                ctx.rejects(lambda: os_c(wrong), "octet-string-foreign", type=name, data=wrong)
                text = str(x)
                ctx.eq(str(o), text, "octet-string-text", type=name)
                if name == "Date":
                    ctx.eq(text, date_text(raw), "date-text", contents=raw)
                    want = raw
                elif name == "Time":
                    ctx.eq(text, time_text(raw), "time-text", contents=raw)
                    want = raw
                else:
                    dv = struct.unpack(">h", dev)[0]
                    ctx.eq(text, f"{date_text(d)} {time_text(t)} {'' if dv == -0x8000 else dv}", "date-time-text", contents=raw)
                    want = raw[:11] + b"\xff"  # the text form carries no clock status
                ctx.eq(c(text).contents, want, "text-round-trip", type=name, text=text)
                ctx.eq(os_c(text).contents, want, "octet-string-text-round-trip", type=name, text=text)
                # fields
                if name != "Time":
                    y, m, dd = py_date(raw)
                    ctx.eq(x.year, y, "year", contents=raw)
                    ctx.eq(x.weekday, None if raw[4] == 0xff else raw[4], "weekday", contents=raw)
                    if raw[2] < 0xfd or raw[2] == 0xff:
                        ctx.eq(x.month, None if raw[2] == 0xff else raw[2], "month", contents=raw)
                    if raw[3] < 0xfd or raw[3] == 0xff:
                        ctx.eq(x.day, None if raw[3] == 0xff else raw[3], "day", contents=raw)
                if name != "Date":
                    off = 5 if name == "DateTime" else 0
                    for i, f in enumerate(("hour", "minute", "second", "hundredths")):
                        v = raw[off + i]
                        ctx.eq(getattr(x, f), None if v == 0xff else v, f, contents=raw)
                # python form
                if name == "Time":
                    ctx.eq(x.decode(), datetime.time(u(t[0]), u(t[1]), u(t[2]), u(t[3]) * 10000), "python-time", contents=raw)
                else:
                    y, m, dd = py_date(raw)
                    got = x.decode()
                    if y is not None:
                        want_d = datetime.date(y, m, dd)
                        ctx.eq(got.date() if name == "DateTime" else got, want_d, "python-date", contents=raw)
                    else:
                        ctx.eq((got.month, got.day), (m, dd), "python-date-yearless", contents=raw)
                    if name == "DateTime":
                        ctx.eq(got.time(), datetime.time(u(t[0]), u(t[1]), u(t[2]), u(t[3]) * 10000), "python-date-time", contents=raw)
                        dv = struct.unpack(">h", dev)[0]
                        ctx.eq(got.utcoffset(), datetime.timedelta(0 if dv == -0x8000 else 0, 0 if dv == -0x8000 else dv * 60), "python-offset", contents=raw)
                        tz = x.time_zone
                        ctx.eq(None if tz is None else tz.utcoffset(None), None if dv == -0x8000 else datetime.timedelta(minutes=dv), "time-zone", contents=raw)
                        x.set_clock_status(rs := rng.randrange(256))
                        ctx.eq(x.contents, raw[:11] + bytes((rs,)), "set-clock-status", contents=raw)

    # python values
    for _ in range(ctx.n(3000, 30000)):
        y = rng.randint(1, 9999)
        m = rng.randint(1, 12)
        dd = rng.randint(1, axdr.days_in_month(y, m))
        hh, mm, ss, hs = rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(100)
        dv = rng.choice((None, 0, 60, -60, 720, -720, rng.randint(-720, 720)))
        tz = None if dv is None else datetime.timezone(datetime.timedelta(minutes=dv))
        v = datetime.datetime(y, m, dd, hh, mm, ss, hs * 10000, tzinfo=tz)
        ctx.case(f"py/{v!r}")
        with ctx.guard("python", value=v):
            x = cdt.DateTime(v)
            ctx.eq(x.contents, struct.pack(">HBBBBBBBh", y, m, dd, 255, hh, mm, ss, hs, -0x8000 if dv is None else dv) + b"\xff", "from-datetime", value=v)
            ctx.eq(x.decode(), v if tz else v.replace(tzinfo=datetime.timezone.utc), "datetime-round-trip", value=v)
            w = axdr.weekday(y, m, dd)
            ctx.eq(cdt.Date(v.date()).contents, struct.pack(">HBBB", y, m, dd, w), "from-date", value=v)
            ctx.eq(cdt.Date(v).contents, struct.pack(">HBBB", y, m, dd, w), "date-from-datetime", value=v)
            ctx.eq(cdt.Date(v.date()).decode(), v.date(), "date-round-trip", value=v)
            ctx.eq(cdt.Time(v.time()).contents, bytes((hh, mm, ss, hs)), "from-time", value=v)
            ctx.eq(cdt.Time(v).contents, bytes((hh, mm, ss, hs)), "time-from-datetime", value=v)
            ctx.eq(cdt.Time(v.time()).decode(), v.time(), "time-round-trip", value=v)
            ctx.eq(cdt.DateTime(v.date()).contents, struct.pack(">HBBB", y, m, dd, w) + b"\xff\xff\xff\xff\x80\x00\xff", "datetime-from-date", value=v)
            ctx.eq(cdt.DateTime(v.time()).contents, b"\xff" * 5 + bytes((hh, mm, ss, hs)) + b"\x80\x00\xff", "datetime-from-time", value=v)
            x = cdt.DateTime(bytearray(axdr.gen_datetime(rng, False)))
            x.set(v)
            ctx.eq(x.contents, cdt.DateTime(v).contents, "set-datetime", value=v)
            for k, names in enumerate((WD, WD_EN)):
                ctx.eq(cdt.Date(f"{dd}.{m}.{y:04}-{names[w - 1]}").contents, struct.pack(">HBBB", y, m, dd, w), "weekday-names", value=v, lang=k)

    # setters of single fields
    for _ in range(ctx.n(1500, 15000)):
        raw = axdr.gen_datetime(rng, False)
        base = bytearray(raw)
        base[4] = 0xff
        for name, i, ok, bad in (("set_hour", 5, 23, (24, 60, 254, -1)), ("set_minute", 6, 59, (60, 100, 254, -1)), ("set_hundredths", 8, 99, (100, 254, -1))):
            v = rng.choice((0, ok, 0xff, rng.randint(0, ok)))
            ctx.case(bytes(base) + f"{name}{v}".encode())
            with ctx.guard("field-setter", setter=name, value=v):
                x = cdt.DateTime(bytearray(base))
                getattr(x, name)(v)
                want = bytearray(base)
                want[i] = v
                ctx.eq(x.contents, bytes(want), "field-setter", setter=name, value=v)
                tm = cdt.Time(bytearray(base[5:9]))
                getattr(tm, name)(v)
                ctx.eq(tm.contents, bytes(want[5:9]), "time-field-setter", setter=name, value=v)
                b = rng.choice(bad)
                ctx.rejects(lambda: getattr(x, name)(b), "field-setter-refused", setter=name, value=b)
                ctx.eq(x.contents, bytes(want), "field-setter-kept", setter=name, value=b)
        y, m = rng.randint(2, 9999), rng.randint(1, 12)
        with ctx.guard("date-setter"):
            x = cdt.DateTime(b"\x19\x07\xd0\x01\x01\xff" + bytes(base[5:]))
            x.set_year(y)
            x.set_month(m)
            dd = rng.randint(1, axdr.days_in_month(y, m))
            x.set_day(dd)
            ctx.eq(x.contents[:5], struct.pack(">HBBB", y, m, dd, 255), "date-setter")
            w = axdr.weekday(y, m, dd)
            x.set_weekday(w)
            ctx.eq(x.contents[4], w, "set-weekday")
            x.set_weekday(0xff)
            ctx.eq(x.contents[4], 0xff, "set-weekday")
            x.set_weekday(w)
            other = w % 7 + 1
            x.set_weekday(0xff)
            for _k in range(3):                  # one field at a time: only that field, or nothing
                before = bytes(x.contents)
                name, off, v = rng.choice((("set_month", 2, rng.choice((2, 2, 4, 12, 0xff, rng.randint(1, 12)))), ("set_day", 3, rng.choice((28, 29, 30, 31, 0xff, rng.randint(1, 31)))), ("set_year", 0, rng.choice((2000, 1900, 2023, 2024, 0xffff)))))
                want = before[:off] + v.to_bytes(2 if off == 0 else 1, "big") + before[off + (2 if off == 0 else 1):]
                yy, mm, d3 = int.from_bytes(want[:2], "big"), want[2], want[3]
                if d3 != 0xff and d3 > axdr.days_in_month(2000 if yy == 0xffff else yy, 1 if mm == 0xff else mm):
                    ctx.rejects(lambda: getattr(x, name)(v), "no-such-day", contents=before, setter=name, value=v)
                    ctx.eq(x.contents, before, "kept-after-no-such-day", setter=name, value=v)
                    ctx.count("no-such-day")
                else:
                    getattr(x, name)(v)
                    ctx.eq(x.contents, want, "one-field-set", contents=before, setter=name, value=v)
            x = cdt.DateTime(b"\x19" + struct.pack(">HBBB", y, m, dd, w) + bytes(base[5:]))
            ctx.rejects(lambda: x.set_weekday(other), "set-weekday-wrong", contents=x.contents)
            ctx.rejects(lambda: x.set_month(rng.choice((0, 13, 200, 254))), "set-month-refused")
            ctx.rejects(lambda: x.set_day(rng.choice((0, 32, 200, 254))), "set-day-refused")

    # one invalid field
    for _ in range(ctx.n(4000, 40000)):
        raw = bytearray(axdr.gen_datetime(rng, rng.random() < 0.5))
        what = rng.choice(("month", "day", "hour", "minute", "second", "hundredths", "short-month", "weekday"))
        if what == "month":
            raw[2] = rng.choice((0, 13, 20, 0xfc, rng.randint(13, 0xfc)))
        elif what == "day":
            raw[3] = rng.choice((0, 32, 0xfc, rng.randint(32, 0xfc)))
        elif what == "hour":
            raw[5] = rng.choice((24, 60, 0xfe, rng.randint(24, 0xfe)))
        elif what in ("minute", "second"):
            raw[6 + (what == "second")] = rng.choice((60, 0xfe, rng.randint(60, 0xfe)))
        elif what == "hundredths":
            raw[8] = rng.choice((100, 0xfe, rng.randint(100, 0xfe)))
        elif what == "short-month":
            y, m = rng.randint(1, 9999), rng.choice((2, 4, 6, 9, 11))
            raw[:5] = struct.pack(">HBBB", y, m, axdr.days_in_month(y, m) + 1, 0xff)
        else:
            y, m = rng.randint(1, 9999), rng.randint(1, 12)
            d = rng.randint(1, axdr.days_in_month(y, m))
            raw[:5] = struct.pack(">HBBB", y, m, d, (axdr.weekday(y, m, d) - 1 + rng.randint(1, 6)) % 7 + 1)
        ctx.case(bytes(raw) + what.encode())
        ctx.rejects(lambda: cdt.DateTime(b"\x19" + bytes(raw)), "invalid-field", field=what, contents=bytes(raw))
        if what in ("month", "day", "short-month", "weekday"):
            ctx.rejects(lambda: cdt.Date(bytearray(raw[:5])), "invalid-date", field=what, contents=bytes(raw[:5]))
        else:
            ctx.rejects(lambda: cdt.Time(bytearray(raw[5:9])), "invalid-time", field=what, contents=bytes(raw[5:9]))
    for bad in ("32.01.2020", "01.13.2020", "29.02.2021", "x.01.2020", "01.01.20200", "01.01.2020-xyz", "1.1.1.1.1"):
        ctx.case(f"text/{bad}")
        ctx.rejects(lambda: cdt.Date(bad), "bad-date-text", text=bad)
    for bad in ("24:00", "10:60", "10:10:60", "1:1:1.100", "a:b", "1:2:3:4"):
        ctx.case(f"text/{bad}")
        ctx.rejects(lambda: cdt.Time(bad), "bad-time-text", text=bad)
    for bad in ("01.01.2020 10:00 721", "01.01.2020 10:00 -721", "01.01.2020 10:00 x", "29.02.2021 10:00"):
        ctx.case(f"text/{bad}")
        ctx.rejects(lambda: cdt.DateTime(bad), "bad-date-time-text", text=bad)
    texts(ctx, cdt)
    ctx.require("checked:text-round-trip", 5000)
    ctx.require("rejected:invalid-field", 2000)


BLANK = ("", "_", "__")
DAYS = (("по", "пон", "понедельник", "mo", "mon", "monday"), ("вт", "вто", "вторник", "tu", "tue", "tuesday"), ("ср", "сре", "среда", "we", "wed", "wednesday"), ("чт", "чет", "четверг", "th", "thu", "thursday"),
        ("пт", "пят", "пятница", "fr", "fri", "friday"), ("сб", "суб", "суббота", "sa", "sat", "saturday"), ("вс", "вос", "воскресенье", "su", "sun", "sunday"))
BAD = object()


def texts(ctx, cdt):
    """dates and times written with any of their parts: what they mean, or refusal"""
    rng = ctx.sub("texts")

    def number(lo, hi, wide=2):
        v = rng.choice((lo, hi, rng.randint(lo, hi)))
        return rng.choice((str(v), str(v).zfill(wide))), v

    def part(lo, hi, words, wrong):
        """-> (text, octet)"""
        k = rng.random()
        if k < 0.66:
            return number(lo, hi)
        if k < 0.86:
            return rng.choice(BLANK), 0xff
        if k < 0.94 and words:
            return rng.choice(list(words.items()))
        return rng.choice(wrong), BAD

    def year():
        k = rng.random()
        if k < 0.4:
            v = rng.choice((0, 1, 9, 10, 20, 99, rng.randrange(100)))
            return rng.choice((str(v), f"{v:02}")), 2000 + v
        if k < 0.8:
            v = rng.choice((1, 100, 999, 1000, 1999, 2000, 2024, 9999, rng.randint(1, 9999)))
            return (f"{v:04}", v) if v < 100 else (rng.choice((str(v), f"{v:04}")), v)
        if k < 0.92:
            return rng.choice((*BLANK, "___", "____")), 0xffff
        return rng.choice(("x", "20x4", "10000", "02024", "_____", "2 24", "²")), BAD

    def weekday():
        k = rng.random()
        if k < 0.25:
            v = rng.randint(1, 7)
            return str(v), v
        if k < 0.7:
            v = rng.randint(1, 7)
            t = rng.choice(DAYS[v - 1])
            return rng.choice((t, t.upper(), t.capitalize())), v
        if k < 0.88:
            return rng.choice(BLANK), 0xff
        return rng.choice(("0", "8", "9", "пох", "xyz", "monday1", "17")), BAD
    day = lambda: part(1, 31, {"last": 0xfe, "penult": 0xfd}, ("0", "00", "32", "x", "begin", "1x", "_1", "___"))
    month = lambda: part(1, 12, {"begin": 0xfe, "end": 0xfd}, ("0", "00", "13", "x", "last", "1x", "_1", "___"))

    def date():
        """-> (text, contents or BAD)"""
        form = rng.choice("d w dm dmy dmy dmy dmw wdm dmyw dmyw wdmy".split())
        (dt, d), (mt, m), (yt, y), (wt, w) = day(), month(), year(), weekday()
        if form in ("d", "w"):
            t, c = (dt, (0xffff, 0xff, d, 0xff)) if form == "d" else (wt, (0xffff, 0xff, 0xff, w))
            if form == "d" and not dt.isdigit() or form == "w" and wt.isdigit():
                return None                                   # digits are a day, words are a weekday
        else:
            if y not in (BAD, 0xffff) and m is not BAD and m <= 12 and d is not BAD and d <= 31 and d <= axdr.days_in_month(y, m) and y > 0 and w not in (BAD, 0xff) and rng.random() < 0.8:
                w = axdr.weekday(y, m, d)
                wt = rng.choice((str(w), rng.choice(DAYS[w - 1])))
            t = {"dm": f"{dt}.{mt}", "dmy": f"{dt}.{mt}.{yt}", "dmw": f"{dt}.{mt}-{wt}", "wdm": f"{wt}-{dt}.{mt}", "dmyw": f"{dt}.{mt}.{yt}-{wt}", "wdmy": f"{wt}-{dt}.{mt}.{yt}"}[form]
            c = (y if "y" in form else 0xffff, m, d, w if "w" in form else 0xff)
        if " " in t:
            return None
        if BAD in c:
            return t, BAD
        y, m, d, w = c
        y2, m2, d2 = 256 if y == 0xffff else y, 1 if m >= 0xfd else m, 1 if d >= 0xfd else d
        if y2 == 0 or d2 > axdr.days_in_month(y2, m2) or w != 0xff and y != 0xffff and m <= 12 and d <= 31 and w != axdr.weekday(y, m, d):
            return t, BAD
        return t, struct.pack(">HBBB", y, m, d, w)

    def time():
        form = rng.choice("H HM HM Sf HMS HMS MSf HMSf HMSf".split())
        wrong = ("60", "x", "1x", "_1", "___", "-1", "100", "99")
        (Ht, H), (Mt, M), (St, S) = part(0, 23, {}, ("24", "x", "60", "1x", "___")), part(0, 59, {}, wrong), part(0, 59, {}, wrong)
        ft, f = part(0, 99, {}, ("100", "x", "-1", "1x", "000"))
        t = {"H": Ht, "HM": f"{Ht}:{Mt}", "Sf": f"{St}.{ft}", "HMS": f"{Ht}:{Mt}:{St}", "MSf": f"{Mt}:{St}.{ft}", "HMSf": f"{Ht}:{Mt}:{St}.{ft}"}[form]
        c = tuple(v if k in form else 0xff for k, v in zip("HMSf", (H, M, S, f)))
        return t, BAD if BAD in c else bytes(c)

    def judge(T, text, want, raw):
        ctx.case((T.__name__, text))
        if want is BAD:
            ctx.rejects(lambda: T(text), "text-refused", type=T.__name__, text=text)
            x = T(bytearray(raw))
            ctx.rejects(lambda: x.set(text), "set-text-refused", type=T.__name__, text=text)
            ctx.eq(x.contents, raw, "kept-after-refused-text", type=T.__name__, text=text)
        else:
            with ctx.guard("text", type=T.__name__, text=text):
                ctx.eq(T(text).contents, want, "text-meaning", type=T.__name__, text=text)
                x = T(bytearray(raw))
                x.set(text)
                ctx.eq(x.contents, want, "set-text-meaning", type=T.__name__, text=text)

    for _ in range(ctx.n(8000, 120000)):
        d, t = date(), time()
        if d is None:
            continue
        if d[0]:
            judge(cdt.Date, *d, b"\x07\xe8\x02\x1d\xff")
        if t[0]:
            judge(cdt.Time, *t, b"\x01\x02\x03\x04")
        if d[0] and t[0] and rng.random() < 0.6:
            form = rng.choice("d dt dt dtv dtv dtv".split())
            v = rng.choice((-720, 720, 0, 60, -60, rng.randint(-720, 720)))
            vt, vv = rng.choice(((str(v), struct.pack(">h", v)),) * 5 + (("", b"\x80\x00"), ("-", b"\x00\x00"), ("721", BAD), ("-721", BAD), ("x", BAD), ("1 2", BAD), ("1.5", BAD)))
            parts = [d[1]] + ([t[1]] if "t" in form else [b"\xff" * 4]) + ([vv] if "v" in form else [b"\x80\x00"])
            judge(cdt.DateTime, d[0] + (f" {t[0]}" if "t" in form else "") + (f" {vt}" if "v" in form else ""), BAD if BAD in parts else b"".join(parts) + b"\xff",
                  b"\x07\xe8\x02\x1d\xff\x01\x02\x03\x04\x80\x00\x00")
    ctx.require("checked:text-meaning", 5000)
    ctx.require("rejected:text-refused", 1500)
