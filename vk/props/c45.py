"""Typing help: validate_from while a text is typed, pasted or spoiled."""

RULE = ("texts of random values of every editable type typed character by character at the cursor the help returns, with and without their separators, typed with one character inserted in the middle, pasted whole and spoiled by a character; enumerations of the library typed by the names of their elements. Non-trivial: distinct texts typed.")
MODULES = ("types.common_data_types", "types.cosem_service_types", "types.implementations.bitstrings", "types.implementations.double_long_usingneds", "types.implementations.enums", "cosem_interface_classes.association_ln.ver0")

SEPARATORS = " .:"
DROP = {ord("_"): None, ord("-"): None}       # places left empty, day of week


def run(ctx):
    from src.DLMS_SPODES.types import cdt, cst
    from src.DLMS_SPODES.types.implementations import enums, bitstrings, double_long_usingneds as dlu
    from src.DLMS_SPODES.cosem_interface_classes.association_ln import ver0
    import src.DLMS_SPODES.cosem_interface_classes.collection  # noqa: every enumeration of the library

    rng = ctx.sub("typing")

    def squeeze(text):
        return "".join(c for c in text if c not in SEPARATORS)

    def typed(cls, text, want, w, keep_separators=True):
        """type text, compare what comes out with want (contents)"""
        obj = cls()
        before = obj.contents
        value, cursor = "", 0
        for i, ch in enumerate(text):
            value = value[:cursor] + ch + value[cursor:]
            cursor += 1
            try:
                value, cursor = obj.validate_from(value, cursor)
            except ValueError as e:
                ctx.fail("refused-while-typing", typed=text[:i + 1], value=value, error=str(e)[:100], **w)
                return None
            ctx.check(cursor == len(value), "cursor", typed=text[:i + 1], value=value, cursor=cursor, **w)
            ctx.check(squeeze(value) == squeeze(text[:i + 1]), "typed-text", typed=text[:i + 1], value=value, **w)
            ctx.count("characters")
        ctx.eq(obj.contents, before, "object-changed", text=text, **w)
        try:
            got = cls(value).contents
        except ValueError as e:
            ctx.fail("typed-no-value", text=text, value=value, error=str(e)[:100], **w)
            return None
        ctx.eq(got, want, "typed-value", text=text, value=value, **w)
        return value

    def pasted(cls, text, want, w):
        obj = cls()
        before = obj.contents
        for cursor in {len(text), rng.randrange(len(text) + 1)}:
            try:
                value, at = obj.validate_from(text, cursor)
            except ValueError as e:
                ctx.fail("valid-text-refused", text=text, cursor=cursor, error=str(e)[:100], **w)
                continue
            ctx.eq(cls(value).contents, want, "pasted-value", text=text, value=value, **w)
            ctx.check(0 <= at <= len(value), "cursor-range", text=text, value=value, cursor=at, **w)
        ctx.eq(obj.contents, before, "object-changed", text=text, **w)

    def spoil(cls, text, w):
        """only a value error may refuse; nothing accepted turns into other characters"""
        obj = cls()
        before = obj.contents
        for _ in range(3):
            i = rng.randrange(len(text) + 1)
            bad = rng.choice(("", text[:i], text[:i] + rng.choice("xЖ@-+.: 0_9,") + text[i:], text[:i] + text[i + 1:], text[::-1], text * 3))
            try:
                value, at = obj.validate_from(bad, len(bad))
                ctx.count("spoilt:accepted")
            except ValueError:
                ctx.count("spoilt:refused")
            except Exception as e:  # noqa
                ctx.fail("other-error", text=bad, error=repr(e)[:100], **w)
            else:
                ctx.check(squeeze(value).translate(DROP) == squeeze(bad).translate(DROP), "other-characters", text=bad, value=value, **w)
        ctx.eq(obj.contents, before, "object-changed", text=text, **w)

    ints = ((cdt.Integer, 1, True), (cdt.Unsigned, 1, False), (cdt.Long, 2, True), (cdt.LongUnsigned, 2, False), (cdt.DoubleLong, 4, True), (cdt.DoubleLongUnsigned, 4, False), (cdt.Long64, 8, True), (cdt.Long64Unsigned, 8, False))
    for i in range(ctx.n(1200)):
        cls, n, signed = rng.choice(ints)
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)
        x = rng.choice((lo, hi, 0, 1, 9, 10, rng.randint(lo, hi), rng.randint(max(lo, -99), 99)))
        w = dict(cls=cls.__name__)
        if n == 8 and abs(x) > 1 << 53:
            x >>= 12
        ctx.case(("int", cls.__name__, x))
        with ctx.guard("number", x=x, **w):
            typed(cls, str(x), x.to_bytes(n, "big", signed=signed), w)
            pasted(cls, str(x), x.to_bytes(n, "big", signed=signed), w)
            spoil(cls, str(x), w)
            for out in (hi + 1, lo - 1, hi * 10 + 5):
                if n < 8:
                    ctx.rejects(lambda: cls().validate_from(str(out), len(str(out))), "out-of-range", out=out, **w)
            ctx.rejects(lambda: cls().validate_from(str(x) + "x", len(str(x)) + 1), "letter", x=x, **w)
    # numbers with a scaler: help judges the scaled number, and no other value of the type gets the scaler
    for i in range(ctx.n(200)):
        cls, n, signed = rng.choice(ints[:6])
        lo, hi = (-(1 << 8 * n - 1), (1 << 8 * n - 1) - 1) if signed else (0, (1 << 8 * n) - 1)
        scaler = rng.randint(-4, 0)
        w = dict(cls=cls.__name__, scaler=scaler)
        ctx.case(("scaled", cls.__name__, scaler, i))
        with ctx.guard("scaled-number", **w):
            obj = cls(0, scaler_unit=cdt.ScalUnitType((scaler, 255)))
            raw = rng.choice((hi, lo, 1, 0, rng.randint(lo, hi)))
            full = str(cls(bytearray(raw.to_bytes(n, "big", signed=signed)), scaler_unit=cdt.ScalUnitType((scaler, 255))))
            ctx.eq(obj.validate_from(full, len(full)), (full, len(full)), "scaled-text", text=full, **w)
            big = str((hi + 1) * 10 if scaler == 0 else hi // 10 ** -scaler + 2)
            ctx.rejects(lambda: obj.validate_from(big, len(big)), "scaled-out-of-range", text=big, **w)
            ctx.eq(int.from_bytes(obj.contents, "big"), 0, "object-changed", text=full, **w)
            ctx.eq((int(obj.SCALER_UNIT.scaler), cls.SCALER_UNIT), (scaler, None), "scaler-kept", **w)
            fresh = cls(str(raw))
            ctx.eq(int.from_bytes(fresh.contents, "big", signed=signed), raw, "fresh-value-unscaled", **w)
            ctx.count("scaled")
    for i in range(ctx.n(300)):
        ctx.case(("float", i))
        cls = rng.choice((cdt.Float32, cdt.Float64))
        x = rng.choice((0.5, 1.25, -2.0, 1e10, -3.5e-7, 12.0, rng.uniform(-1000, 1000), rng.uniform(-1, 1) * 10 ** rng.randrange(-20, 20)))
        w = dict(cls=cls.__name__)
        with ctx.guard("float", x=x, **w):
            want = cls(x).contents
            typed(cls, str(x), want, w)
            pasted(cls, str(x), want, w)
            pasted(cls, x.hex(), want, w)
            spoil(cls, str(x), w)
            for bad in ("xyz", "1.2.3", "--1", "1,5", "1 5"):
                ctx.rejects(lambda: cls().validate_from(bad, len(bad)), "no-number", bad=bad, **w)
    # dates and times with all fields
    for i in range(ctx.n(600)):
        y, m, d = rng.choice((2000, 2024, 1999, rng.randrange(1900, 2200))), rng.randrange(1, 13), rng.randrange(1, 29)
        h, mi, s, hs = rng.randrange(24), rng.randrange(60), rng.randrange(60), rng.randrange(100)
        dev = rng.choice((0, 180, -180, rng.randrange(-720, 721)))
        long = rng.random() < 0.5
        date = f"{d:02}.{m:02}.{y:04}" if long else f"{d}.{m}.{y}"
        time = f"{h:02}:{mi:02}:{s:02}.{hs:02}" if long else f"{h}:{mi}:{s}.{hs}"
        ctx.case(("date", date, time))
        for cls, text, size in ((cdt.Date, date, 5), (cdt.Time, time, 4), (cdt.DateTime, f"{date} {time} {dev}", 12), (cst.OctetStringDate, date, 5), (cst.OctetStringTime, time, 4), (cst.OctetStringDateTime, f"{date} {time} {dev}", 12)):
            w = dict(cls=cls.__name__)
            with ctx.guard("date-time", text=text, **w):
                want = cls(text).contents
                ctx.eq(len(want), size, "date-size", **w)
                if size != 12:
                    typed(cls, text, want, w)
                    full = cls(text)
                    typed(cls, str(full), want, w)
                else:
                    value = typed(cls, text, want, w)
                    ctx.eq(value, text, "date-time-text", **w)
                pasted(cls, text, want, w)
                spoil(cls, text, w)
        with ctx.guard("time-digits", time=time):
            # two digits each, separators come by themselves
            if h > 9 and mi > 9 and s > 9:
                typed(cdt.Time, f"{h}{mi}{s}.{hs:02}", bytes((h, mi, s, hs)), dict(cls="Time digits"))
                ctx.count("digits-only")
    # names
    for i in range(ctx.n(500)):
        raw = bytes(rng.choice((0, 1, 10, 96, 99, 128, 255, rng.randrange(256))) for _ in range(6))
        text = ".".join(map(str, raw))
        ctx.case(("name", text))
        w = dict(cls="LogicalName")
        with ctx.guard("logical-name", text=text):
            typed(cst.LogicalName, text, raw, w)
            pasted(cst.LogicalName, text, raw, w)
            spoil(cst.LogicalName, text, w)
            if all(b > 99 for b in raw[:5]) and raw[5]:
                typed(cst.LogicalName, "".join(map(str, raw)), raw, w)
            ip = raw[:4]
            text = ".".join(map(str, ip))
            typed(dlu.IPAddress, text, ip, dict(cls="IPAddress"))
            pasted(dlu.IPAddress, text, ip, dict(cls="IPAddress"))
            spoil(dlu.IPAddress, text, dict(cls="IPAddress"))
            parts = text.split(".")
            parts[rng.randrange(4)] = rng.choice(("256", "257", "300", "999", "1000", "65536", "-1", "-255", "x", "1x", "0x1"))
            ctx.rejects(lambda: dlu.IPAddress(".".join(parts)), "address-octet", text=".".join(parts))
            some = ".".join(map(str, ip[:rng.randrange(1, 5)]))
            ctx.eq(bytes(dlu.IPAddress(some).contents), bytes(map(int, some.split("."))).ljust(4, b"\0"), "address-begun", text=some)
            ctx.eq(str(dlu.IPAddress(text)), text, "address-text", text=text)
            big = bytes(rng.randrange(100, 256) for _ in range(5)) + bytes((rng.randrange(1, 256),))
            typed(cst.LogicalName, "".join(map(str, big)), big, dict(cls="LogicalName digits"))
    # strings
    for i in range(ctx.n(500)):
        raw = bytes(rng.randrange(256) for _ in range(rng.choice((1, 2, 3, 6, 16))))
        ctx.case(("octets", raw))
        with ctx.guard("octets", raw=raw.hex()):
            for cls in (cdt.OctetString, ver0.LLCSecret):
                w = dict(cls=cls.__name__)
                value = typed(cls, raw.hex(), raw, w)
                if value is not None:
                    ctx.eq(value, raw.hex(" "), "octets-grouped", **w)
                value = typed(cls, raw.hex(" "), raw, w)
                pasted(cls, raw.hex(), raw, w)
                spoil(cls, raw.hex(" "), w)
                ctx.rejects(lambda: cls().validate_from(raw.hex() + "g", len(raw) * 2 + 1), "no-hex", **w)
            if len(raw) == 16:
                pasted(ver0.LLCSecretHigh, raw.hex(), raw, dict(cls="LLCSecretHigh"))
            elif len(raw) < 15:
                ctx.rejects(lambda: ver0.LLCSecretHigh().validate_from(raw.hex(), len(raw) * 2), "short-high", raw=raw.hex())
            text = "".join(rng.choice("abc XYZ 019 _-.ЖжЁ") for _ in range(rng.choice((1, 4, 9))))
            typed(cdt.VisibleString, text, text.encode("cp1251"), dict(cls="VisibleString"))
            pasted(cdt.VisibleString, text, text.encode("cp1251"), dict(cls="VisibleString"))
            typed(cdt.Utf8String, text, text.encode(), dict(cls="Utf8String"))
            bits = "".join(rng.choice("01") for _ in range(24))
            pasted(bitstrings.Conformance, bits, bitstrings.Conformance(bits).contents, dict(cls="Conformance"))
            ctx.rejects(lambda: bitstrings.Conformance().validate_from(bits + "1", 25), "too-many-bits", bits=bits)
            ctx.rejects(lambda: bitstrings.Conformance().validate_from(bits[:-1] + "2", 24), "no-bit", bits=bits)
    # enumerations
    def below(cls):
        for c in cls.__subclasses__():
            yield c
            yield from below(c)
    for cls in dict.fromkeys(below(cdt.Enum)):
        if not isinstance(cls.ELEMENTS, dict) or issubclass(cls, cdt.FlagMixin) or getattr(cls.set, "__qualname__", "").startswith("ConstantMixin"):
            continue
        texts = list(cls.ELEMENTS.values())
        for key, text in list(cls.ELEMENTS.items())[:ctx.n(400)]:
            if texts.count(text) > 1 or text == "":
                continue
            ctx.case(("enum", cls.__module__, cls.__name__, key))
            w = dict(cls=cls.__name__)
            with ctx.guard("enumeration", text=text, **w):
                if any(t != text and t.isdigit() for t in (text[:n] for n in range(1, len(text) + 1))) or text.isdigit():
                    ctx.count("enum:digits")
                else:
                    value = typed(cls, text, key, w)
                    ctx.eq(value, text, "element-text", **w)
                pasted(cls, str(key[0]), key, w)
                obj = cls()
                ctx.rejects(lambda: obj.validate_from(text + "~", len(text) + 1), "no-element", text=text, **w)
                for n in range(256):
                    if bytes((n,)) not in cls.ELEMENTS and not any(t.startswith(str(n)) for t in texts) and not isinstance(obj, enums.CommSpeed):
                        ctx.rejects(lambda: obj.validate_from(str(n), len(str(n))), "no-number-of-element", n=n, **w)
                        break
    for text, want in (("True", 1), ("False", 0), ("Правда", 1), ("Ложь", 0), ("1", 1), ("0", 0)):
        ctx.case(("bool", text))
        with ctx.guard("boolean", text=text):
            value = typed(cdt.Boolean, text, cdt.Boolean(bool(want)).contents, dict(cls="Boolean"))
            ctx.eq(bool(cdt.Boolean(value).decode()), bool(want), "boolean", text=text)
            spoil(cdt.Boolean, text, dict(cls="Boolean"))
    words = {False: ("false", "ложь", "no", "нет"), True: ("true", "правда", "yes", "да")}
    for i in range(ctx.n(400)):
        word = rng.choice(rng.choice((words[False], words[True])))
        k = rng.randrange(len(word) + 1)
        text = rng.choice((word[:k], word[k:], word[:k] + rng.choice("xеo ") + word[k:], word + word[:k], word[::-1], rng.choice(("0", "1", "2", "00", "01", "-1", "10"))))
        text = rng.choice((text, text.upper(), text.title()))
        want = None
        if text in ("0", "1"):
            want = text == "1"
        else:
            for v in (True, False):
                if any(m.startswith(text.lower()) for m in words[v]):
                    want = v
        ctx.case(("boolean", text))
        if want is None:
            ctx.rejects(lambda: cdt.Boolean(text), "boolean-no-word", text=text)
            ctx.rejects(lambda: cdt.Boolean().validate_from(text, len(text)), "boolean-no-word-typed", text=text)
            ctx.count("boolean-refused")
        else:
            with ctx.guard("boolean-word", text=text):
                ctx.eq(cdt.Boolean(text).decode(), want, "boolean-word", text=text)
