"""Images: division into blocks, transfer, containers of firmware."""
import hashlib
import os
import pickle
import tempfile

RULE = ("images of every length around multiples of the block size transferred by histories of start, next block, jump, restart and resumption against a model of the transfer; "
        "encrypted data of every length with every octet changed, cut or extended; containers of firmware with right, wrong and damaged contents. Non-trivial: distinct (image length, block size, history) and data.")
MODULES = ("cosem_interface_classes.image_transfer", "firmwares")


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection as col
    from src.DLMS_SPODES import firmwares as fw, config_parser as cp
    from ..env import quiet
    rng = ctx.sub("image")

    def make():
        c = col.Collection()
        with quiet():
            return c.add(class_id=ut.CosemClassId(18), version=cdt.Unsigned(0), logical_name=cst.LogicalName("0.0.44.0.0.255"))

    def state(o):
        b = o.image_block_transfer
        return int(b.image_block_number), bytes(b.image_block_value.contents)

    for _ in range(ctx.n(300, 4000)):
        with ctx.guard("object"):
            o = make()
        bs = rng.choice((1, 2, 16, 64, 100, 128, 200, 255, 256, 1024, rng.randint(1, 300)))
        log, img, ident, cur, blocks = [], None, None, 0, []
        ctx.eq((o.is_image_exist, o.get_n_blocks(), o.sent_blocks_part), (False, 0, 0), "nothing-to-send")
        with ctx.guard("block-size", bs=bs):
            o.set_attr(2, b"\x06" + bs.to_bytes(4, "big"))
        for _k in range(rng.choice((4, 12, 40))):
            op = rng.choice(("start", "start-same", "next", "next", "next", "next", "jump", "jump-out", "end", "clear", "size")) if img is not None else "start"
            log.append(op)
            w = dict(history=log[-12:], block_size=bs, image=len(img) if img is not None else None, block=cur)
            ctx.case((bs, len(img or b""), tuple(log[-5:]), cur), sample=(bs, len(img or b""), log[-5:]))
            if op in ("start", "start-same"):
                n = rng.choice((1, bs - 1, bs, bs + 1, 2 * bs, 2 * bs + 1, 5 * bs - 1, 10 * bs, rng.randint(1, 12 * bs)))
                if cur and rng.random() < 0.3:    # the place is at or after the end of the new image
                    n = bs * max(1, cur + rng.choice((-1, 0, 0, 0, 1)))
                if bs < 20 and rng.random() < 0.1:
                    n = bs * rng.randint(254, 700)
                    ctx.count("many blocks")
                if op == "start" or rng.random() < 0.3:
                    img = rng.randbytes(max(1, n))
                new = ident if op == "start-same" else (ident or b"") + rng.randbytes(rng.randint(1, 4)) if rng.random() < 0.2 else (ident or b"")[:-1] if rng.random() < 0.1 else rng.choice((b"a", b"", b"image", rng.randbytes(rng.choice((1, 4, 20, 130)))))
                same = new == (b"default" if ident is None else ident)
                with ctx.guard("start", **w), quiet():
                    o.set_image_for_update(img, bytearray(new))
                blocks = [img[i:i + bs] for i in range(0, len(img), bs)]
                ident = new
                k, v = state(o)
                w["identifier"] = new
                if not same:
                    ctx.eq(k, 0, "new-image-from-first-block", **w)
                else:
                    ctx.check(k in (0, max(0, cur - 1), cur) and k < len(blocks), "resumed-within-image", got=k, **w)
                    if cur >= len(blocks):
                        ctx.eq(k, 0, "image-shorter-than-the-place", **w)
                        ctx.count("shorter")
                    else:
                        ctx.check(k in (max(0, cur - 1), cur), "resumed-where-it-was", got=k, **w)
                    ctx.count("resumed")
                cur = k
                ctx.eq(int(o.image_transfer_initiate.image_size), len(img), "announced-size", **w)
                ctx.eq(bytes(o.image_transfer_initiate.image_identifier.contents), new, "announced-identifier", **w)
                ctx.count("started")
            elif op == "next":
                if cur + 1 < len(blocks):
                    with ctx.guard("next", **w):
                        o.set_next_block()
                    cur += 1
                else:
                    ctx.rejects(o.set_next_block, "no-next-block", exc=(StopIteration,), **w)
            elif op == "jump" and blocks:
                cur = rng.choice((0, len(blocks) - 1, rng.randrange(len(blocks))))
                with ctx.guard("jump", **w):
                    o.set_block_for_transfer(cur)
            elif op == "jump-out":
                ctx.rejects(lambda: o.set_block_for_transfer(len(blocks) + rng.choice((0, 1, 100))), "block-outside", exc=(IndexError,), **w)
            elif op == "end" and blocks:          # the whole image, block by block
                got = [state(o)]
                with ctx.guard("all-blocks", **w):
                    try:
                        for _j in range(len(blocks) + 2):
                            o.set_next_block()
                            got.append(state(o))
                            ctx.count("block")
                    except StopIteration:
                        pass
                ctx.eq([g[0] for g in got], list(range(cur, len(blocks))), "every-block-once-in-order", **w)
                ctx.eq(b"".join(g[1] for g in got), img[cur * bs:], "blocks-make-the-image", **w)
                cur = len(blocks) - 1
            elif op == "clear":
                with ctx.guard("clear", **w):
                    o.clear_image()
                ctx.eq((o.is_image_exist, o.get_n_blocks(), o.sent_blocks_part), (False, 0, 0), "cleared", **w)
                ctx.rejects(o.set_next_block, "nothing-left", exc=(StopIteration,), **w)
                ctx.rejects(lambda: o.set_block_for_transfer(0), "nothing-left", exc=(IndexError,), **w)
                ctx.eq(state(o)[0], cur, "place-kept", **w)
                blocks = []
                op = "start-same"
                continue
            elif op == "size" and blocks:         # another size is used from the next start
                if rng.random() < 0.3:
                    with ctx.guard("no-block-size", **w):
                        o.set_attr(2, bytes.fromhex("0600000000"))
                    ctx.rejects(lambda: o.set_image_for_update(rng.randbytes(5), bytearray(b"other")), "no-block-size", **w)
                    with ctx.guard("no-block-size", **w):
                        o.set_attr(2, b"\x06" + bs.to_bytes(4, "big"))
                nbs = rng.choice((bs, bs + 1, max(1, bs - 1), 64))
                with ctx.guard("block-size", **w):
                    o.set_attr(2, b"\x06" + nbs.to_bytes(4, "big"))
                ctx.eq(o.get_n_blocks(), len(blocks), "size-used-later", **w)
                if nbs != bs:
                    bs = nbs
                    with quiet(), ctx.guard("start", **w):
                        ident = rng.randbytes(5)
                        o.set_image_for_update(img, bytearray(ident))
                    blocks, cur = [img[i:i + bs] for i in range(0, len(img), bs)], 0
            if not blocks:
                continue
            ctx.eq((o.is_image_exist, o.get_n_blocks()), (True, len(blocks)), "image-there", **w)
            ctx.eq(o.current_block_transfer, cur, "current-block", **w)
            ctx.eq(state(o), (cur, blocks[cur]), "block-sent", **w)
            ctx.check(abs(o.sent_blocks_part - cur / len(blocks)) < 1e-9, "part-sent", got=o.sent_blocks_part, **w)
            sent = b"\x02\x02\x06" + cur.to_bytes(4, "big") + b"\x09"
            ctx.check(o.image_block_transfer.encoding.startswith(sent) and o.image_block_transfer.encoding.endswith(blocks[cur]), "block-octets", got=o.image_block_transfer.encoding, **w)
    ctx.require("block", 300)
    ctx.require("resumed", 30)
    ctx.require("many blocks", 5)
    ctx.require("shorter", 10)
    # two objects
    for _ in range(ctx.n(40)):
        a, b = make(), make()
        with ctx.guard("two-objects"), quiet():
            for o, n in ((a, 7), (b, 3)):
                o.set_attr(2, b"\x06\x00\x00\x00\x04")
            ia, ib = rng.randbytes(rng.randint(1, 40)), rng.randbytes(rng.randint(1, 40))
            a.set_image_for_update(ia, bytearray(b"a"))
            b.set_image_for_update(ib, bytearray(b"b"))
            ctx.eq((a.get_n_blocks(), b.get_n_blocks()), (-(-len(ia) // 4), -(-len(ib) // 4)), "two-objects")
            b.clear_image()
            ctx.eq((state(a), a.get_n_blocks(), b.is_image_exist), ((0, ia[:4]), -(-len(ia) // 4), False), "two-objects")
        ctx.case((ia, ib))

    # a block size of nothing: an answer is needed, not an endless division
    pid = os.fork()
    if pid == 0:
        import resource
        import signal
        signal.alarm(5)
        resource.setrlimit(resource.RLIMIT_AS, (2 << 30, 2 << 30))
        try:
            o = make()
            o.set_attr(2, b"\x06" + bytes(4))
            o.set_image_for_update(b"image", bytearray(b"a"))
        except ValueError:
            os._exit(0)
        except BaseException:
            os._exit(2)
        os._exit(1)
    ctx.eq(os.waitpid(pid, 0)[1], 0, "block-size-zero-refused")

    # ---------------------------------------------------------------- encrypted data
    rng = ctx.sub("cipher")
    for i in range(ctx.n(400, 6000)):
        key = rng.randbytes(rng.choice((16, 16, 24, 32)))
        data = rng.randbytes(rng.choice((0, 1, 15, 16, 17, 31, 32, 33, 48, 255, 1000, rng.randint(0, 400))))
        if rng.random() < 0.2:
            data = bytes(len(data))
        w = dict(key=key, data=data[:64], length=len(data))
        ctx.case(key + data, sample=(len(key), len(data)))
        with ctx.guard("cipher", **w):
            e = fw.encrypt(fw.init_cipher(key), data)
            ctx.eq(bytes(fw.decrypt(fw.init_cipher(key), e)), data, "decrypted", **w)
            ctx.check(len(e) % 16 == 0 and len(e) > len(data) + 32, "encrypted-length", got=len(e), **w)
            ctx.check(len(data) < 8 or data not in e, "not-readable", **w)
            e2 = fw.encrypt(fw.init_cipher(key), data)
            ctx.check(e2 != e, "initial-vector-differs", **w)
            c = fw.init_cipher(key)                       # one cipher for several pieces
            parts = [rng.randbytes(rng.randint(0, 70)) for _ in range(4)]
            encs = [fw.encrypt(fw.init_cipher(key), p) for p in parts]
            ctx.eq([bytes(fw.decrypt(c, x)) for x in encs], parts, "several-with-one-cipher", **w)
        other = bytearray(key)
        other[rng.randrange(len(other))] ^= 1 << rng.randrange(8)
        ctx.rejects(lambda: fw.decrypt(fw.init_cipher(bytes(other)), e), "wrong-key", exc=(KeyError, ValueError), **w)
        h = bytearray(hashlib.sha256(data).digest())
        h[rng.randrange(32)] ^= 1 << rng.randrange(8)
        z = bytes(16) + data + bytes(h)
        z += bytes((16 - len(z) % 16,)) * (16 - len(z) % 16)
        ctx.rejects(lambda: fw.decrypt(fw.init_cipher(key), fw.init_cipher(key).encrypt(z)), "wrong-digest", exc=(KeyError, ValueError), **w)
        for _k in range(4):
            bad = bytearray(e)
            p = rng.randrange(len(bad))
            how = rng.choice(("flip", "flip", "cut", "longer", "swap"))
            if how == "flip":
                bad[p] ^= 1 << rng.randrange(8)
            elif how == "cut":
                del bad[-16 * rng.randint(1, len(bad) // 16):]
            elif how == "longer":
                bad += rng.randbytes(rng.choice((1, 16)))
            elif how == "swap" and len(bad) >= 48:
                j = 16 * rng.randrange(1, len(bad) // 16 - 1)
                bad[j:j + 16], bad[j + 16:j + 32] = bad[j + 16:j + 32], bad[j:j + 16]
            if bad == e:
                continue
            ctx.rejects(lambda: fw.decrypt(fw.init_cipher(key), bytes(bad)), "damaged", exc=(KeyError, ValueError), how=how, place=p, **w)

    # ---------------------------------------------------------------- containers
    rng = ctx.sub("container")
    conf = cp.config.setdefault("DLMS", {})
    saved = conf.get("firmwares")
    with tempfile.TemporaryDirectory() as d:
        try:
            for i in range(ctx.n(40, 600)):
                entries, want, kinds = [], {}, {}
                for j in range(rng.randint(1, 3)):
                    man = f"m{i}_{j}"
                    key = "".join(rng.choice("abcdefghijkLMNOP0123456789") for _ in range(16)) if rng.random() < 0.5 else rng.randbytes(16).hex()
                    codec = "ascii" if len(key) == 16 else "hex"
                    raw = key.encode("ascii") if codec == "ascii" else bytes.fromhex(key)
                    f = {((rng.randrange(9), rng.randrange(9), rng.randrange(99)), rng.choice(("a", "b", "c", " a", "a ", ""))): rng.randbytes(rng.randint(0, 200)) + bytes(rng.choice((0, 0, 1, 16))) for _ in range(rng.randrange(4))}
                    b = {(rng.randrange(99), rng.choice(("a", "b", "c", " a", "a ", ""))): rng.randbytes(rng.randint(0, 99)) + bytes(rng.choice((0, 0, 1, 16))) for _ in range(rng.randrange(3))}
                    kind = rng.choice(("good", "good", "good", "name", "damaged", "key", "absent", "codec", "other"))
                    if kind in ("damaged", "key") and not f and not b:
                        f = {((1, 2, 3), "a"): b"data"}
                    enc = {k: fw.encrypt(fw.init_cipher(raw), v) for k, v in f.items()}, {k: fw.encrypt(fw.init_cipher(raw), v) for k, v in b.items()}
                    if kind == "damaged":
                        t = enc[0] or enc[1]
                        k = rng.choice(list(t))
                        z = bytearray(t[k])
                        z[rng.randrange(len(z))] ^= 1 << rng.randrange(8)
                        t[k] = bytes(z)
                    path = os.path.join(d, man)
                    if kind == "other":
                        with open(path, "wb") as h:
                            h.write(rng.choice((b"", b"not a container", pickle.dumps(1), pickle.dumps("CryptoFirmware_1"), pickle.dumps((1, 2)), pickle.dumps(("CryptoFirmware_1", 1, 2)))))
                    elif kind != "absent":
                        with open(path, "wb") as h:
                            pickle.dump((("Firmware_1" if rng.random() < 0.5 else "cryptofirmware_1") if kind == "name" else "CryptoFirmware_1.0", enc[0], enc[1]), h)
                    if kind == "key":
                        key = ("x" if key[0] != "x" else "y") + key[1:] if codec == "ascii" else ("0" if key[0] != "0" else "1") + key[1:]
                    entries.append({"man": man, "path": path, "key": {"value": key, "codec": "base64" if kind == "codec" else codec}})
                    want[man], kinds[man] = (f, b), kind
                rng.shuffle(entries)
                conf["firmwares"] = entries
                for man in want:
                    w = dict(manufacturer=man, kind=kinds[man])
                    ctx.case((man, kinds[man], repr(sorted(want[man][0]))))
                    if kinds[man] == "good":
                        with ctx.guard("container", **w):
                            got = fw.get_firmware(man.encode())
                            ctx.eq((got[0], got[1]), want[man], "container-contents", **w)
                            again = fw.get_firmware(man.encode())
                            ctx.eq((again[0], again[1]), want[man], "container-again", **w)
                            ctx.count("container")
                    elif kinds[man] == "absent":
                        ctx.rejects(lambda: fw.get_firmware(man.encode()), "container-absent", exc=(OSError, ValueError), **w)
                    else:
                        ctx.rejects(lambda: fw.get_firmware(man.encode()), "container-refused", exc=(ValueError,), **w)
                ctx.check(fw.get_firmware(f"unknown{i}".encode()) is None, "unknown-manufacturer", i=i)
                for other in {v for man in want for v in (man[:-1], man + "x", man.upper(), man.lower(), man[1:])} - set(want):
                    ctx.check(fw.get_firmware(other.encode()) is None, "unknown-manufacturer", i=i, manufacturer=other, known=sorted(want))
        finally:
            if saved is None:
                conf.pop("firmwares", None)
            else:
                conf["firmwares"] = saved
    ctx.require("container", 15)
