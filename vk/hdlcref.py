"""Independent HDLC frame format type 3 model (ISO/IEC 13239, Green Book 8.4)."""


def crc(data: bytes) -> bytes:
    """X.25 frame check sequence, bit by bit, low octet first"""
    r = 0xffff
    for b in data:
        for k in range(8):
            x = (r ^ (b >> k)) & 1
            r >>= 1
            if x:
                r ^= 0x8408
    r ^= 0xffff
    return bytes((r & 0xff, r >> 8))


def address(upper: int, lower, size: int) -> bytes:
    if size == 1:
        return bytes((upper << 1 | 1,))
    lower = lower or 0
    if size == 2:
        return bytes((upper << 1, lower << 1 | 1))
    return bytes((upper >> 7 << 1, (upper & 0x7f) << 1, lower >> 7 << 1, (lower & 0x7f) << 1 | 1))


def auto_size(upper: int, lower) -> int:
    if not lower:
        return 1 if upper < 0x80 else 4
    return 2 if upper < 0x80 and lower < 0x80 else 4


def frame(da: bytes, sa: bytes, control: int, info: bytes, seg: bool) -> bytes:
    n = 2 + len(da) + len(sa) + 1 + 2 + (len(info) + 2 if info else 0)
    head = (0xa000 | (0x800 if seg else 0) | n).to_bytes(2, "big") + da + sa + bytes((control,))
    body = head + (crc(head) + info if info else b"")
    return b"\x7e" + body + crc(body) + b"\x7e"


def parse(data: bytes):
    """frame at the start of data (a flag): (da, sa, control, info, seg, length), "more" or None"""
    if len(data) < 3 or data[0] != 0x7e:
        return None
    fmt = int.from_bytes(data[1:3], "big")
    if fmt >> 12 != 0xa:
        return None
    n = fmt & 0x7ff
    if n + 2 > len(data):
        return "more"
    if data[n + 1] != 0x7e:
        return None
    body, fcs = data[1:n - 1], data[n - 1:n + 1]
    if n < 7 or crc(body) != fcs:
        return None
    i = 2
    ads = []
    for _ in range(2):
        for size in (1, 2, 4):
            if i + size > len(body):
                return None
            if body[i + size - 1] & 1 and not (size == 4 and body[i + 2] & 1):
                ads.append(body[i:i + size])
                i += size
                break
        else:
            return None
    if i >= len(body):
        return None
    control = body[i]
    i += 1
    info = b""
    if i != len(body):
        if crc(body[:i]) != body[i:i + 2]:
            return None
        info = body[i + 2:]
    return ads[0], ads[1], control, info, bool(fmt & 0x800), n
