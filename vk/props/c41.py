"""Texts of status words and events, packed values, and reports of objects."""
import inspect
import re
import runpy
from decimal import Decimal

from .. import axdr, icspec
from ..env import REPO

RULE = ("every code and flag of every event table in both languages, random codes outside them; every octet of the packed words with every history of setting their fields; reports of objects of all classes "
        "with random attributes, empty elements included. Non-trivial: distinct (word, value) and distinct reports.")
MODULES = ("cosem_interface_classes.reports", "cosem_interface_classes.events", "cosem_interface_classes.implementations.data")

WORDS = {  # value type -> (width, table prefix, flags?)
    "VoltageEventValues": (2, "VOLTAGE", 0), "CurrentEventValues": (2, "CURRENT", 0), "CommutationEventValues": (2, "COMMUTATION", 0),
    "ProgrammingEventValues": (2, "PROGRAMING", 0), "ExternalEventValues": (2, "EXTERNAL_IMPACT", 0), "CommunicationEventValues": (2, "COMMUNICATION", 0),
    "AccessEventValues": (2, "ACCESS", 0), "SelfDiagnosticEventValues": (2, "SELF_DIAGNOSTIC", 0), "ReactivePowerEventValues": (2, "REACTIVE_POWER", 0),
    "PowerQuality1EventValues": (2, "POWER_QUALITY1", 1), "PowerQuality2EventValues": (2, "POWER_QUALITY2", 1)}
# e-column of 0.0.96.11.e.255 and the class of its object for the tables of events
OBJECTS = {"SPODES3VoltageEvent": "VoltageEventValues", "SPODES3CurrentEvent": "CurrentEventValues", "SPODES3CommutationEvent": "CommutationEventValues",
           "SPODES3ProgrammingEvent": "ProgrammingEventValues", "SPODES3ExternalEvent": "ExternalEventValues", "SPODES3CommunicationEvent": "CommunicationEventValues",
           "SPODES3AccessEvent": "AccessEventValues", "SPODES3SelfDiagnosticEvent": "SelfDiagnosticEventValues", "SPODES3ReactivePowerEvent": "ReactivePowerEventValues",
           "SPODES3PowerQuality1Event": "PowerQuality1EventValues", "SPODES3PowerQuality2Event": "PowerQuality2EventValues"}
PERIODS = (1, 2, 3, 5, 10, 15, 20, 30, 60)


def tables(lang):
    raw = {k: v for k, v in runpy.run_path(f"{REPO}/src/DLMS_SPODES/Values/{lang}/events.py").items() if re.match("[A-Z]", k)}
    out = {}
    for k, v in raw.items():
        p, n = k.rsplit("_", 1)
        out.setdefault(p, {})[int(n, 16) if p.startswith("POWER_QUALITY") else int(n)] = v
    return out


def marks(text, lang):
    """(phases, other numbers) of the text"""
    if lang == "EN":
        ph = re.findall(r"[Pp]hase L(\d)|phase ([ABC])\b", text)
        ph = [a or str("ABC".index(b) + 1) for a, b in ph]
        text = re.sub(r"[Pp]hase L\d", "", text)
    else:
        ph = ["1" if x in "АA" else "2" if x in "ВB" else "3" for x in re.findall(r"[Фф]аз[аы] ([АВСABC])\b", text)]
    return sorted(ph), sorted(re.findall(r"\d+", text))


def run(ctx):
    from ..env import load, quiet
    cdt, ut, cst = load("types.common_data_types"), load("types.useful_types"), load("types.cosem_service_types")
    ic = load("cosem_interface_classes.cosem_interface_class")
    col, rep = load("cosem_interface_classes.collection"), load("cosem_interface_classes.reports")
    data, enu = load("cosem_interface_classes.implementations.data"), load("enums")
    exc = load("exceptions")
    rng = ctx.rng
    ru, en = tables("RU"), tables("EN")

    # tables of both languages
    ctx.eq({p: sorted(t) for p, t in ru.items()}, {p: sorted(t) for p, t in en.items()}, "codes-of-languages")
    for p in ru:
        for t, lang in ((ru[p], "RU"), (en[p], "EN")):
            ctx.eq(len(set(t.values())), len(t), "one-text-for-two-codes", table=p, lang=lang)
        for n in ru[p]:
            a, b = ru[p][n], en[p].get(n, "")
            ctx.eq(marks(b, "EN"), marks(a, "RU"), "phase-or-number-of-languages", table=p, code=n)
            ctx.case((p, n))

    # words
    def expect(p, flags, n):
        return [ru[p][1 << i] for i in range(64) if n >> i & 1 and 1 << i in ru[p]] if flags else [ru[p][n]] if n in ru[p] else []

    def judge(x, p, flags, n, **w):
        r = x.report
        ctx.eq(x.get_report(), r, "report-twice", **w)
        ctx.check(f"({n})" in r, "number-in-report", report=r, **w)
        known = expect(p, flags, n)
        at = 0
        for k in known:
            ctx.check(k in r, "text-in-report", text=k, report=r, **w)
        rest = r
        for k in sorted(known, key=len, reverse=True):
            rest = rest.replace(k, "", 1)
        ctx.check(not any(len(k) > 12 and k in rest for k in ru[p].values()), "foreign-text-in-report", report=r, **w)
        if flags:
            for i in range(64):
                if n >> i & 1 and 1 << i not in ru[p]:
                    ctx.check(re.search(rf"\b{i}\b", rest) is not None, "unknown-bit-in-report", bit=i, report=r, **w)
        elif not known:
            ctx.check(len(rest.replace(f"({n})", "").strip()) > 0, "unknown-code-named", report=r, **w)
        ctx.case((p, n, type(x).__name__))

    for name, (width, p, flags) in WORDS.items():
        for pre in ("", "KPZ1"):
            T = getattr(data, pre + name, None)
            if T is None:
                ctx.check(pre != "" , "word-type-missing", word=name)
                continue
            wd = 4 if pre else width
            for n in [*sorted(ru[p]), *range(0, 300, 1 if ctx.thorough else 7)] + [rng.choice((rng.getrandbits(16), rng.getrandbits(8 * wd), 1 << rng.randrange(8 * wd))) for _ in range(ctx.n(40, 2000))]:
                with ctx.guard("word", word=name, n=n):
                    x = T(bytes((6 if pre else 18,)) + n.to_bytes(wd, "big"))
                    ctx.eq(int(x), n, "value", word=name)
                    judge(x, p, flags, n, word=pre + name, value=n)
                    y = T(n ^ 1)
                    y.set(n)
                    judge(y, p, flags, n, word=pre + name, value=n, by="set")
    for c, kind in (("DataStatic", "STATIC"), ("DataDynamic", "DYNAMIC"), ("DataNotSpecific", "NOT_SPECIFIC"), ("LDN", "NOT_SPECIFIC"), ("Unsigned", "DYNAMIC"), ("OctetStringDateTime", "DYNAMIC"), ("OpeningBody", "DYNAMIC"),
                    ("SealStatus", "DYNAMIC"), ("TerminalsCoverOpeningState", "DYNAMIC"), ("CommunicationPortParameter", "DYNAMIC"), ("AnyDateTime", "DYNAMIC"), ("SPODES3MeasurementPeriod", "STATIC"),
                    ("DLMSDeviceIDObject", "STATIC"), ("SPODES3SPODESVersion", "STATIC"), ("SPODES3IDNotSpecific", "NOT_SPECIFIC"), ("KPZGSMPingIP", "STATIC")):
        if c == "LDN":
            continue
        with ctx.guard("classifier", cls=c):
            O = getattr(data, c)
            ctx.eq(O.get_attr_element(2).classifier, getattr(ic.Classifier, kind), "classifier", cls=c)
    for c, v in OBJECTS.items():
        for pre in ("", "KPZ1"):
            O = getattr(data, pre + c, None)
            if O is None:
                continue
            kind = ic.Classifier.STATIC if pre else ic.Classifier.NOT_SPECIFIC if "PowerQuality" in c else ic.Classifier.DYNAMIC
            ctx.eq(O(cst.LogicalName("0.0.96.11.0.255")).get_attr_element(2).classifier, kind, "classifier-of-event", cls=pre + c)
            o = O(cst.LogicalName("0.0.96.11.0.255"))
            p, flags = WORDS[v][1:]
            n = rng.choice(sorted(ru[p]))
            with ctx.guard("object", cls=pre + c):
                o.set_attr(2, (b"\x06" if pre else b"\x12") + n.to_bytes(4 if pre else 2, "big"))
                judge(o.value, p, flags, n, cls=pre + c)
                ctx.count("words")

    ctx.require("words", 11)
    packed(ctx, cdt, cst, data, enu, col, ut, exc)
    with quiet():
        reports(ctx, cdt, ut, cst, col, rep, exc)


def packed(ctx, cdt, cst, data, enu, col, ut, exc):
    from ..env import load
    rng = ctx.sub("packed")
    clock, gsm = load("cosem_interface_classes.clock"), load("cosem_interface_classes.gsm_diagnostic.ver0")
    dc, get_message = load("cosem_interface_classes.disconnect_control"), load("config_parser").get_message
    REF = (ValueError, TypeError, exc.DLMSException)
    for n in range(256):
        with ctx.guard("packed", n=n):
            c = data.ChannelNumberValue(bytes((17, n)))
            ctx.eq((int(c.channel), int(c.interface)), (n & 7, n >> 3), "channel-and-interface", n=n)
            t = str(c)
            ctx.check(c.channel.name in t and c.interface.name in t, "channel-text", n=n, text=t)
            x, y = enu.ChannelNumber(rng.randrange(8)), enu.Interface(rng.randrange(32))
            c.channel = x
            ctx.eq(int(c), n & 0xf8 | x, "channel-set", n=n, to=int(x))
            c.interface = y
            ctx.eq(int(c), y << 3 | x, "interface-set", n=n, to=int(y))
            c.channel = enu.ChannelNumber(n & 7)
            ctx.eq(int(c), y << 3 | n & 7, "channel-set", n=n, to=n & 7)

            s = data.SealUnsigned(n).report
            names = [get_message(k) for k in ("$undefined$", "$contentions$", "$breaked_open$", "$subsequent_autopsy$")]
            a, b = s.split(get_message("$for_terminals_cover$"))
            ctx.check(names[n & 3] in a and not any(k in a for k in names if k != names[n & 3]), "seal-of-cover", n=n, text=s)
            ctx.check(names[n >> 2 & 3] in b and not any(k in b for k in names if k != names[n >> 2 & 3]), "seal-of-terminals", n=n, text=s)

            t = str(clock.ClockStatus(n))
            for bit, word in ((0, "invalid value"), (1, "doubtful value"), (2, "different clock base"), (3, "invalid clock status"), (7, "daylight saving active")):
                ctx.eq(word in t, bool(n >> bit & 1), "clock-status", n=n, bit=bit, text=t)
            ctx.eq(t == "empty", n & 0x8f == 0, "clock-status-empty", n=n, text=t)

            q = gsm.SignalQuality(n).report if n <= 31 or n == 99 else None
            if n <= 31:
                dbm = -113 + 2 * n
                ctx.check(re.search(rf"[–-]{-dbm} dBm", q) is not None, "signal-quality", n=n, text=q)
                ctx.check(f"({n})" in q, "signal-quality-number", n=n, text=q)
                ctx.eq(any(k in q for k in (get_message("$less$"), get_message("$greater$"))), n in (0, 31), "signal-quality-border", n=n, text=q)
            elif n == 99:
                ctx.eq(q, get_message("$not_known_or_not_detectable$"), "signal-quality-unknown")
            else:
                t = str(gsm.SignalQuality(n).report)
                ctx.check("dBm" not in t and t != get_message("$not_known_or_not_detectable$"), "signal-quality-foreign", n=n, text=t)

            if n in PERIODS:
                ctx.eq(int(data.SPODES3MeasurementPeriodValue(n)), n, "period")
                p = data.SPODES3MeasurementPeriodValue(n)
                for bad in (rng.choice([k for k in range(256) if k not in PERIODS]), 0, n + 1 if n + 1 not in PERIODS else 61):
                    ctx.rejects(lambda: p.set(bad), "period-set", exc=REF, n=bad)
                    ctx.eq(int(p), n, "period-kept", n=bad)
            else:
                ctx.rejects(lambda: data.SPODES3MeasurementPeriodValue(n), "period", exc=REF, n=n)
            ctx.case(("packed", n))
    # standard transitions of disconnect control, modes 0..6
    letters = {0: "", 1: "bcdefg", 2: "abcefg", 3: "bcdeg", 4: "abceg", 5: "bcdefgh", 6: "bcdegh"}
    for m, want in letters.items():
        ctx.eq("".join(sorted(dc.ControlMode(m).get_letters())), want, "control-mode-letters", mode=m)
    # the modes of the national profile
    letters = {129: "bcdefm", 130: "abcefm", 131: "bcdem", 132: "abcm", 133: "abckm", 134: "bcdempS".lower()}
    for m, want in letters.items():
        ctx.eq("".join(sorted(dc.ControlMode(m).get_letters())), "".join(sorted(want)), "control-mode-letters", mode=m)
    for m in range(256):
        if m not in letters and m > 6:
            ctx.rejects(lambda: dc.ControlMode(m), "control-mode-unknown", exc=REF, mode=m)
    ctx.eq(str(dc.OutputState(b"\x03\xff")), get_message("$connected$"), "output-state-text", v=255)
    for v in (0, 1):
        x = dc.OutputState(v)
        ctx.eq(str(x), get_message("$connected$" if v else "$disconnected$"), "output-state-text", v=v)
        ctx.eq(dc.OutputState(str(x)).encoding, bytes((3, v)), "output-state-from-text", v=v)
    # version text
    for _ in range(ctx.n(60)):
        a, b = rng.randrange(0, 40), rng.randrange(0, 40)
        if a or b:
            t = f"{a}.{b}".encode()
            with ctx.guard("spodes-version", text=t):
                x = data.SPODES3SPODESVersionValue(b"\x09" + bytes((len(t),)) + t)
                ctx.eq(bytes(x.contents), t, "spodes-version")
        t = f"{a}.{b}.{rng.randrange(50)}".encode()
        ctx.rejects(lambda: data.SPODES3SPODESVersionValue(b"\x09" + bytes((len(t),)) + t), "spodes-version-with-patch", exc=REF, text=t)


def reports(ctx, cdt, ut, cst, col, rep, exc):
    """every element of an attribute asked for is in the report, in order, and nothing else"""
    rng = ctx.sub("reports")
    REF = (ValueError, TypeError, exc.DLMSException)
    from src.DLMS_SPODES.config_parser import get_values
    pattern = (get_values("DLMS", "report", "struct") or {}).get("DayProfileAction")

    def leaves(v, name, out):
        if isinstance(v, cdt.Structure):
            if type(v).__name__ == "DayProfileAction":
                line = re.sub(r"%([nv])(\d\d)", lambda k: v.ELEMENTS[int(k[2])].NAME if k[1] == "n" else str(v[int(k[2])]), pattern) if pattern else None
                if line:
                    out.append((line, [str(v[0]), str(v[2]), line]))
                    return
            for el, x in zip(v.ELEMENTS, v):
                leaves(x, el.NAME, out)
        elif isinstance(v, cdt.Array):
            for x in v:
                leaves(x, None, out)
        else:
            out.append((name, [str(v)]))

    def arrays(v, out):
        """names of arrays inside of structures"""
        if isinstance(v, cdt.Structure) and type(v).__name__ != "DayProfileAction":
            for el, x in zip(v.ELEMENTS, v):
                if isinstance(x, cdt.Array):
                    out.append(el.NAME)
                arrays(x, out)
        elif isinstance(v, cdt.Array):
            for x in v:
                arrays(x, out)

    def short(t):
        """small arrays, empty elements often"""
        return icspec.gen(rng, t)

    classes = [k for k in icspec.CLASSES if k[0] not in (7, 12, 15, 21, 71, 40)]
    for _ in range(ctx.n(300, 6000)):
        c, v = rng.choice(classes)
        attrs, _m = icspec.CLASSES[c, v]
        if rng.random() < 0.4:
            c, v = 20, 0
            attrs, _m = icspec.CLASSES[c, v]
        with ctx.guard("report", cls=(c, v)):
            o = col.get_interface_class(col.common_interface_class_map, ut.CosemClassId(c), cdt.Unsigned(v))(cst.LogicalName(bytearray((0, 0, rng.choice((1, 13, 96)), rng.randrange(5), 0, 255))))
            for i, a in enumerate(attrs, 2):
                if not (len(a) > 3 and "x" in a[3]) and rng.random() < 0.8 and c not in (3, 4, 5):
                    if isinstance(a[1], str) and a[1] in ("vs", "any"):
                        continue   # text with any characters: not told apart from the layout
                    try:
                        o.set_attr(i, short(a[1]))
                    except REF:
                        pass
            if c == 20:
                for i in (3, 7):     # seasons without name and week
                    if rng.random() < 0.5:
                        o.set_attr(i, [[bytearray(rng.choice((b"", b"\x31"))), "01.01.2020 00:00", bytearray(rng.choice((b"", b"\x32")))]])
            asked = sorted(rng.sample(range(1, len(attrs) + 2), rng.randint(1, len(attrs) + 1)))
            w = dict(cls=(c, v), asked=asked)
            r = rep.get_obj_report(o, tuple(k if rng.random() < 0.8 else (k, None) for k in asked))
            want = []
            for i in asked:
                x = o.get_attr(i)
                if x is None:
                    continue
                if isinstance(x, (cdt.Array, cdt.Structure)):
                    leaves(x, None, want)
                else:
                    want.append((None, [None if hasattr(x, "report") else str(x)]))
            lines = [k for k in r.split("\n")[1:] if re.search(r": ?", k) and not re.match(r"^\s*\[", k)]
            w["report"] = r
            if ctx.eq(len(lines), len(want), "number-of-lines", **w):
                for ln, (name, texts) in zip(lines, want):
                    for t in texts:
                        ctx.check(t is None or t in ln, "value-in-report", line=ln, text=t, **w)
                    if name:
                        ctx.check(ln.strip().startswith(name + ":") or ln.strip().startswith(": ") or ln.strip() == name, "name-in-report", line=ln, name=name, **w)
            inner = []
            for i in asked:
                if isinstance(o.get_attr(i), cdt.Array):
                    for x in o.get_attr(i):
                        arrays(x, inner)
            got = [k.strip() for k in r.split("\n")[1:]]
            for name in set(inner):
                ctx.eq(got.count(f"[{name}]"), inner.count(name), "heading-of-array", name=name, **w)
                ctx.count("inner arrays", inner.count(name))
            ctx.eq(r.split("\n")[0], f"[{col.get_name(o.logical_name)}]", "report-heading", **w)
            heads = [k.strip() for k in r.split("\n")[1:] if re.match(r"^  \[", k) and k.endswith("]")]
            for i in asked:
                x = o.get_attr(i)
                if isinstance(x, (cdt.Array, cdt.Structure)):
                    ctx.check(f"[{o.get_attr_element(i)}]" in heads, "attribute-heading", attr=i, **w)
                elif x is not None:
                    ctx.check(any(k.startswith(f"  {o.get_attr_element(i)}: ") for k in r.split("\n")), "attribute-line", attr=i, **w)
            ctx.count("reports")
            ctx.count("report-lines", len(lines))
            ctx.case((c, v, r))
    # the name of the device is shown readable
    for _ in range(ctx.n(20)):
        with ctx.guard("device-name-report"):
            k = col.Collection()
            o = k.add(class_id=ut.CosemClassId(1), version=cdt.Unsigned(0), logical_name=cst.LogicalName(bytearray((0, 0, 96, 1, rng.randrange(10), 255))))
            t = "".join(rng.choice("ABCKPZ0123456789") for _ in range(16))
            o.set_attr(2, b"\x09\x10" + t.encode())
            r = rep.get_obj_report(o, (2,))
            ctx.eq(o.value.to_str(), t, "device-name-text")
            ctx.case(("device-name", t))
            ctx.check(r.split("\n")[1].endswith(": " + t), "device-name-in-report", report=r, text=t)
    # a measured value is shown scaled and with its unit
    for _ in range(ctx.n(60)):
        with ctx.guard("register-report"):
            o = col.get_interface_class(col.common_interface_class_map, ut.CosemClassId(3), cdt.Unsigned(0))(cst.LogicalName("1.0.1.8.0.255"))
            v, s, u = rng.randrange(-10 ** 6, 10 ** 6), rng.randrange(-4, 5), rng.choice((33, 35, 44))
            o.set_attr(2, cdt.DoubleLong(v).encoding)
            o.set_attr(3, (s, u))
            r = rep.get_obj_report(o, (2,))
            line = r.split("\n")[1]
            text, unit = line.rsplit(": ", 1)[1].split(" ", 1)
            ctx.eq((Decimal(text), unit), (Decimal(v).scaleb(s), str(o.scaler_unit.unit)), "register-in-report", value=v, scaler=s, report=r)
            ctx.case(("register-report", v, s, u))
    # structures with any number of elements
    for n in (1, 7, 9, 33, 127, 128, 200):
        with ctx.guard("long-structure-report", elements=n):
            o = col.get_interface_class(col.common_interface_class_map, ut.CosemClassId(1), cdt.Unsigned(0))(cst.LogicalName("0.0.96.1.0.255"))
            vals = [rng.randrange(256) for _ in range(n)]
            inner = rng.random() < 0.6 or n == 33
            o.set_attr(2, b"\x02\x01" * inner + b"\x02" + axdr.length(n) + b"".join(bytes((0x11, k)) for k in vals))
            r = rep.get_obj_report(o, (2,))
            got = [int(k.rsplit(":", 1)[1]) for k in r.split("\n")[2:] if ":" in k]
            ctx.eq(got, vals, "long-structure-in-report", elements=n)
            ctx.case(("long-structure-report", n))
    ctx.require("reports", 200)
    ctx.require("report-lines", 500)
    ctx.require("inner arrays", 50)
    from ..env import load, quiet
    # every value has a text, which is not more than a look at it
    from ..members import member, NotModelled

    def kinds(t):
        for s in t.__subclasses__():
            yield s
            yield from kinds(s)
    rng = ctx.sub("texts")
    load("cosem_interface_classes.push_setup.ver2")
    every = sorted({t for t in kinds(cdt.CommonDataType) if not inspect.isabstract(t)}, key=lambda t: (t.__module__, t.__qualname__))
    for t in every:
        for _ in range(ctx.n(3)):
            try:
                with quiet():
                    enc = member(rng, t, cdt, 0)
                    x = t(enc)
            except (NotModelled, ValueError, TypeError, AttributeError, exc.DLMSException):
                continue
            w = dict(type=t.__qualname__, enc=enc)
            with ctx.guard("text", **w):
                was = bytes(x.encoding)
                a, b = str(x), repr(x)
                ctx.check(isinstance(a, str) and isinstance(b, str), "text", **w)
                ctx.eq((str(x), bytes(x.encoding)), (a, was), "text-changes-nothing", **w)
                if isinstance(x, cdt.Array):
                    ctx.check(a.endswith(f"[{len(x)}]"), "text-of-array", text=a, **w)
                    ctx.count("texts of arrays")
                ctx.case(("text", t.__qualname__, enc))
    with ctx.guard("thresholds-text"):
        for n in (0, 1, 3):
            m = col.Collection().add(class_id=ut.CosemClassId(21), version=cdt.Unsigned(0), logical_name=cst.LogicalName("0.0.16.1.0.255"))
            m.set_attr(2, b"\x01" + bytes((n,)) + b"\x11\x05" * n)
            ctx.check(str(m.thresholds).endswith(f"[{n}]") and isinstance(repr(m.thresholds), str), "text-of-array", text=str(m.thresholds))
    ctx.require("texts of arrays", 30)
