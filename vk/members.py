"""Random octets allowed by a declared data type."""
from . import axdr


class NotModelled(Exception):
    pass


def member(rng, t, cdt, depth) -> bytes:
    """an encoding allowed by the declared type"""
    if depth > 5 or not isinstance(t, type):
        raise NotModelled
    if issubclass(t, cdt.Structure):
        if type(t()).from_content is not cdt.Structure.from_content or t.__init__ is not cdt.Structure.__init__:
            raise NotModelled
        if not hasattr(t, "ELEMENTS"):
            raise NotModelled
        return b"\x02" + axdr.length(len(t.ELEMENTS)) + b"".join(member(rng, e.TYPE, cdt, depth + 1) for e in t.ELEMENTS)
    if issubclass(t, cdt.Array):
        if t.TYPE is None or t.unique or t.append_validate is not cdt.Array.append_validate or t.append is not cdt.Array.append:
            raise NotModelled
        n = rng.choice((0, 1, 2, 3, 130 if depth == 0 and rng.random() < 0.05 else 4))
        return b"\x01" + axdr.length(n) + b"".join(member(rng, t.TYPE, cdt, depth + 1) for _ in range(n))
    for kind in axdr.TAGS:
        base = getattr(cdt, kind)
        if issubclass(t, base):
            own = t.__init__ is not base.__init__
            if own and not (kind in ("DateTime", "Date", "Time") and t.TAG == b"\x09"):
                raise NotModelled
            if kind in axdr.INTS:
                if t.VALUE is not None:
                    return axdr.encode((kind, t.VALUE))
                lo, hi = axdr.int_range(kind)
                lo, hi = max(lo, t.MIN if t.MIN is not None else lo), min(hi, t.MAX if t.MAX is not None else hi)
                if t.validate is not cdt.Digital.validate:
                    raise NotModelled
                return axdr.encode((kind, axdr.edge_int(rng, lo, hi)))
            if kind == "Enum":
                if t.ELEMENTS is None:
                    return axdr.encode((kind, rng.randrange(256)))
                if issubclass(t, cdt.FlagMixin):
                    raise NotModelled
                return bytes(t.TAG) + rng.choice(sorted(t.ELEMENTS))
            if t is base:
                return axdr.encode(axdr.gen_simple(rng, kind, False))
            if kind == "OctetString":
                if t.from_str is not cdt.OctetString.from_str and not t.SIZE or t.validation is not cdt._String.validation:
                    raise NotModelled
                return axdr.encode((kind, rng.randbytes(t.SIZE or rng.randrange(20))))
            if kind in ("DateTime", "Date", "Time") and t.TAG == b"\x09":
                c = axdr.contents(axdr.gen_simple(rng, kind))
                return b"\x09" + bytes((len(c),)) + c
            if kind in ("Boolean", "NullData", "DateTime", "Date", "Time") and "validate" not in vars(t):
                return axdr.encode(axdr.gen_simple(rng, kind, False))
    raise NotModelled
