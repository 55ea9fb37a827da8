"""Byte buffer bounds and position."""

RULE = ("random histories of read/write/put/get/position calls (inside, up to and beyond the end) on buffers of 0..40 octets, driven in lock step with a list-and-position model. Non-trivial: distinct (state, operation).")
MODULES = ("types.byte_buffer", "types.cosem_pdu")


def run(ctx):
    from src.DLMS_SPODES.types.byte_buffer import ByteBuffer
    rng = ctx.sub("bytes")
    for i in range(ctx.n(2500, 30000)):
        size = rng.choice((0, 1, 2, 5, 16, 40))
        init = rng.randbytes(size)
        with ctx.guard("buffer", size=size):
            how = rng.randrange(3)
            b = ByteBuffer(memoryview(bytearray(init))) if how else ByteBuffer.allocate(size)
            mem = bytearray(init) if how else bytearray(size)
            pos, snapshot = 0, None
            for step in range(14):
                op = rng.choice(("read", "read_pos", "write", "write_pos", "put_int", "get_uint", "get_uint_pos", "get_uint8", "get", "set_pos", "slice", "frozen", "remaining"))
                n = rng.choice((0, 1, 2, 3, 8, size - pos, size - pos + 1, size))
                n = max(0, n)
                p = rng.choice((0, pos, size, size - n, rng.randrange(size + 2)))
                p = max(0, p)
                data = rng.randbytes(n)
                ctx.case(f"{size}/{pos}/{op}/{n}/{p}")
                ctx.state((size, pos, op))

                def over(fn):
                    ctx.rejects(fn, "out-of-bounds", (BufferError,), op=op, size=size, pos=pos, n=n, p=p)
                if op == "read":
                    if pos + n <= size:
                        ctx.eq(bytes(b.read(n)), bytes(mem[pos:pos + n]), "read", pos=pos, n=n)
                        pos += n
                    else:
                        over(lambda: b.read(n))
                elif op == "read_pos":
                    if p + n <= size:
                        ctx.eq(bytes(b.read_pos(p, n)), bytes(mem[p:p + n]), "read-at", p=p, n=n)
                    else:
                        over(lambda: b.read_pos(p, n))
                elif op == "write":
                    if pos + n <= size:
                        ctx.eq(b.write(data), n, "write")
                        mem[pos:pos + n] = data
                        pos += n
                    else:
                        over(lambda: b.write(data))
                elif op == "write_pos":
                    if p + n <= size:
                        ctx.eq(b.write_pos(data, p), n, "write-at")
                        mem[p:p + n] = data
                    else:
                        over(lambda: b.write_pos(data, p))
                elif op == "put_int":
                    v = rng.randrange(256)
                    if pos < size:
                        ctx.eq(b.put_int(v), 1, "put-int")
                        mem[pos] = v
                        pos += 1
                    else:
                        over(lambda: b.put_int(v))
                elif op == "get_uint":
                    if pos + n <= size:
                        ctx.eq(b.get_uint(n), int.from_bytes(mem[pos:pos + n], "big"), "get-uint")
                        pos += n
                    else:
                        over(lambda: b.get_uint(n))
                elif op == "get_uint_pos":
                    if p + n <= size:
                        ctx.eq(b.get_uint_pos(p, n), int.from_bytes(mem[p:p + n], "big"), "get-uint-at")
                    else:
                        over(lambda: b.get_uint_pos(p, n))
                elif op in ("get_uint8", "get"):
                    if pos < size:
                        ctx.eq(b.get_uint8() if op == "get_uint8" else b.get()[0], mem[pos], "get-one")
                        pos += 1
                    else:
                        over(lambda: b.get_uint8() if op == "get_uint8" else b.get())
                elif op == "set_pos":
                    if p <= size:
                        b.set_pos(p)
                        pos = p
                    bad = rng.choice((size + 1, size + 100, -1, -size - 1))
                    ctx.rejects(lambda: b.set_pos(bad), "bad-position", (IndexError,), size=size, index=bad)
                elif op == "slice":
                    s = b.slice()
                    ctx.eq((bytes(s), s.get_pos(), len(s)), (bytes(mem[pos:]), 0, size - pos), "slice")
                    if size > pos:
                        s.put_int(0x5a)    # a view of the same octets
                        mem[pos] = 0x5a
                elif op == "frozen":
                    f = b.frozen()
                    ctx.eq(bytes(f), bytes(mem), "frozen")
                    if size:
                        try:
                            f.put_int(1)
                            ctx.fail("frozen-written", "a frozen buffer was written")
                        except TypeError:
                            ctx.count("frozen-refused")
                        ctx.eq(bytes(f), bytes(mem), "frozen-kept")
                        snapshot = (f, bytes(mem))
                else:
                    ctx.eq(b.remaining(), size - pos, "remaining")
                    ctx.eq(b.remaining(p) if p <= size else 0, size - p if p <= size else 0, "remaining-at")
                if snapshot is not None:
                    ctx.eq(bytes(snapshot[0]), snapshot[1], "frozen-changed-later", op=op)
                ctx.eq((b.get_pos(), bytes(b), len(b)), (pos, bytes(mem), size), "state", "contents or position differ from the model", op=op)
    ctx.require("rejected:out-of-bounds", 1000)
    ctx.require("checked:state", 10000)
