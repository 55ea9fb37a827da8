"""Access-right decisions follow the object list."""
from .. import axdr
from ..core import show

RULE = ("random association object lists (versions 0 and 1) over random objects, all access modes, mechanisms and security policies; queries through the association, its list and the collection, "
        "repeated after in-place changes, reassignment of the list and in a second, equal collection. Non-trivial: distinct (object list, query).")
MODULES = ("cosem_interface_classes.collection",)
POOL = [(1, 0, (0, 0, 96, 1, e, 255)) for e in range(10)] + [(3, 0, (1, 0, c, 8, e, 255)) for c in (1, 2, 3) for e in range(3)] + [
    (3, 0, (1, 0, 1, 8, 0, 101)), (3, 0, (1, 0, 1, 8, 0, 0)), (3, 0, (1, 0, 1, 9, 0, 255)), (3, 0, (1, 1, 1, 8, 0, 255)), (3, 0, (1, 2, 1, 8, 0, 255)), (1, 0, (0, 1, 96, 1, 0, 255)), (1, 0, (1, 0, 96, 1, 0, 255)),
    (8, 0, (0, 0, 1, 0, 0, 255)), (20, 0, (0, 0, 13, 0, 0, 255)), (70, 0, (0, 0, 96, 3, 10, 255)), (11, 0, (0, 0, 11, 0, 0, 255)), (9, 0, (0, 0, 10, 0, 100, 255))]
READ = {1: False, 3: False, 4: True, 6: True}      # mode: needs authentication
WRITE = {2: False, 3: False, 5: True, 6: True}


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.types.implementations import enums
    from src.DLMS_SPODES.cosem_interface_classes import collection as col
    from src.DLMS_SPODES.cosem_interface_classes.association_ln import mechanism_id
    from src.DLMS_SPODES import exceptions as exc, pdu_enums as pdu
    rng = ctx.sub("access")
    policies = [(p, p in (1, 3)) for p in pdu.SecurityPolicyVer0] + [(pdu.SecurityPolicyVer1(v), bool(v & 0x24)) for v in list(range(0, 256, 4)) + [1, 3, 255]]

    def ln(t):
        return cst.LogicalName(bytearray(t))

    def gen_list(ver, pool=None):
        """model: {ln: (class, version, {attr: mode}, {method: mode})}"""
        m = {}
        near = [p for p in POOL if sum(a != b for a, b in zip(p[2], (1, 0, 1, 8, 0, 255))) < 2]
        for cls, v, t in rng.sample(near, rng.randrange(2, len(near) + 1)) if pool is None and rng.random() < 0.3 else rng.sample(pool or POOL, rng.randrange(1, 8)):
            at = {i: rng.randrange(4 if ver == 0 else 7) for i in sorted(rng.sample(range(1, 12), rng.randrange(1, 6)))}
            if rng.random() < 0.25:      # attributes of the manufacturer have negative numbers
                at = {i: rng.randrange(4 if ver == 0 else 7) for i in sorted({-k for k in rng.sample(range(1, 12), 2)})} | at
                if rng.random() < 0.3:
                    at = dict(rng.sample(list(at.items()), len(at)))
            me = {i: rng.randrange(2 if ver == 0 else 3) for i in sorted(rng.sample(range(1, 9), rng.randrange(0, 4)))}
            m[t] = [cls, v, at, me]
        return m

    def enc_list(m, ver):
        out = b"\x01" + axdr.length(len(m))
        for t, (cls, v, at, me) in m.items():
            out += b"\x02\x04\x12" + cls.to_bytes(2, "big") + b"\x11" + bytes((v,)) + b"\x09\x06" + bytes(t) + b"\x02\x02\x01" + axdr.length(len(at))
            for i, mode in at.items():
                out += b"\x02\x03\x0f" + bytes((i & 0xff,)) + b"\x16" + bytes((mode,)) + rng.choice((b"\x00", b"\x01\x01\x0f\x01"))
            out += b"\x01" + axdr.length(len(me))
            for i, mode in me.items():
                out += b"\x02\x02\x0f" + bytes((i,)) + (b"\x03" if ver == 0 else b"\x16") + bytes((mode,))
        return out

    def outcome(f):
        try:
            return f()
        except exc.NoObject:
            return "absent-object"
        except exc.ITEApplication:
            return "empty-list"
        except ValueError:
            return "absent-index"

    def want_attr(m, t, i, table, auth):
        if m is None:
            return "empty-list"
        if t not in m:
            return "absent-object"
        if i not in m[t][2]:
            return "absent-index"
        mode = m[t][2][i]
        return mode in table and (not table[mode] or auth)

    def want_meth(m, t, i, mech):
        if m is None:
            return "empty-list"
        if t not in m:
            return "absent-object"
        if i not in m[t][3]:
            return "absent-index"
        return (False, True, mech >= 1)[m[t][3][i]]

    def query(c, ass_no, a, ver, m, mech, **w):
        t = rng.choice(list(m)) if m and rng.random() < 0.85 else rng.choice(POOL)[2]
        i = rng.choice(list(m[t][2])) if m and t in m and rng.random() < 0.8 else rng.randrange(1, 14)
        p, auth = rng.choice(policies)
        ctx.case(f"{ver}/{m}/{t}/{i}/{p!r}")
        r = outcome(lambda: a.is_readable(ln(t), i, p))
        x = want_attr(m, t, i, READ, auth)
        ctx.count(f"readable:{x}")
        ctx.eq(r, x, "readable", ln=t, index=i, policy=repr(p), rights=m and m.get(t), **w)
        ctx.eq(outcome(lambda: c.is_readable(ln(t), i, ass_no, p)), x, "collection-readable", ln=t, index=i, policy=repr(p), rights=m and m.get(t), **w)
        x = want_attr(m, t, i, WRITE, auth)
        ctx.eq(outcome(lambda: a.is_writable(ln(t), i, p)), x, "writable", ln=t, index=i, policy=repr(p), rights=m and m.get(t), **w)
        ctx.eq(outcome(lambda: c.is_writable(ln(t), i, ass_no, p)), x, "collection-writable", ln=t, index=i, policy=repr(p), rights=m and m.get(t), **w)
        if rng.random() < 0.4:   # without a policy nothing is authenticated
            ctx.eq(outcome(lambda: c.is_readable(ln(t), i, ass_no)), want_attr(m, t, i, READ, False), "readable-no-policy", ln=t, index=i, rights=m and m.get(t))
            ctx.eq(outcome(lambda: a.is_readable(ln(t), i)), want_attr(m, t, i, READ, False), "readable-no-policy", ln=t, index=i, rights=m and m.get(t))
            ctx.eq(outcome(lambda: c.is_writable(ln(t), i, ass_no)), want_attr(m, t, i, WRITE, False), "writable-no-policy", ln=t, index=i, rights=m and m.get(t))
            ctx.eq(outcome(lambda: a.is_writable(ln(t), i)), want_attr(m, t, i, WRITE, False), "writable-no-policy", ln=t, index=i, rights=m and m.get(t))
        if m is not None:
            ol = a.object_list
            y = want_attr(m, t, i, READ, True)
            for e in list(ol)[:3]:
                for it in e.access_rights.attribute_access:
                    k = int(it.access_mode)
                    ctx.eq((it.access_mode.is_readable(), it.access_mode.is_writable()), (k in (1, 3, 4, 6), k in (2, 3, 5, 6)), "mode", mode=k, ver=ver)
            ctx.eq(outcome(lambda: int(ol.get_attr_access(ln(t), i))), m[t][2][i] if isinstance(y, bool) else y, "attribute-access", ln=t, index=i)
            if t in m:
                some = set(rng.sample(list(m[t][2]), rng.randrange(1, len(m[t][2]) + 1)))
                ctx.eq(ol.is_writable(ln(t), some), all(m[t][2][k] in WRITE for k in some), "list-writable", ln=t, indexes=some, rights=m[t])
                absent = next(k for k in range(1, 30) if k not in m[t][2])
                ctx.eq(outcome(lambda: ol.is_writable(ln(t), {absent})), "absent-index", "list-writable-absent", ln=t)
            else:
                ctx.eq(outcome(lambda: ol.is_writable(ln(t), {1})), "absent-object", "list-writable-no-object", ln=t)
            k = rng.choice(list(m[t][3])) if t in m and m[t][3] and rng.random() < 0.8 else rng.randrange(1, 12)
            given = rng.choice((None, None, 0, 1, 2, 5, 7))
            mid = None if given is None else mechanism_id.MechanismIdElement(given)
            z = want_meth(m, t, k, mech if given is None else given)
            ctx.count(f"accessible:{z}")
            ctx.eq(outcome(lambda: a.is_accessible(ln(t), k, mid)), z, "accessible", ln=t, index=k, given=given, auth_mech=mech, rights=m.get(t), **w)
            ctx.eq(outcome(lambda: c.is_accessible(ln(t), k, ass_no, mid)), z, "collection-accessible", ln=t, index=k, given=given, auth_mech=mech, rights=m.get(t), **w)
            ctx.eq(outcome(lambda: int(ol.get_meth_access(ln(t), k))), m[t][3][k] if isinstance(z, bool) else z, "method-access", ln=t, index=k)

    def mech_enc(ver, k):
        return b"\x09\x07\x60\x85\x74\x05\x08\x02" + bytes((k,)) if ver == 1 and rng.random() < 0.6 else (
            b"\x02\x07\x11\x02\x11\x10\x12\x02\xf4\x11\x05\x11\x08\x11\x02\x11" + bytes((k,)))

    def build(models, mechs, lists):
        c = col.Collection()
        for n, (ver, m) in models.items():
            a = c.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(ver), logical_name=ln((0, 0, 40, 0, n, 255)))
            a.set_attr(6, mech_enc(ver, mechs[n]))
            if m is not None:
                a.set_attr(2, lists[n])
        return c

    for _ in range(ctx.n(160, 1800)):
        nums = rng.sample(range(1, 8), rng.randrange(1, 4))
        models = {n: (v := rng.randrange(2), gen_list(v) if rng.random() < 0.93 else None) for n in nums}
        mechs = {n: rng.randrange(3) for n in nums}
        lists = {n: enc_list(m, v) for n, (v, m) in models.items() if m is not None}
        with ctx.guard("build", nums=nums):
            c = build(models, mechs, lists)
            c2 = build(models, mechs, lists)        # equal by content, independent
            for n, (v, m) in models.items():
                a = c.getASSOCIATION(n)
                if m is not None:
                    ctx.eq(bytes(a.object_list.encoding), lists[n], "object-list-encoding")
                    ctx.eq([tuple(o.logical_name.contents) for o in c.filter_by_ass(n)], list(m), "filter-by-association")
                    for t, (cls, ver_, *_r) in m.items():
                        o = c.get(bytes(t))
                        ctx.check(o is not None and int(o.CLASS_ID) == cls and int(o.VERSION) == ver_, "object-added", "an object of the list is missing from the collection", ln=t)
            want = {}
            for n, (v, m) in models.items():
                for t, (_c, _v, at, _m) in (m or {}).items():
                    w = {i for i, mode in at.items() if mode in WRITE}
                    if w:
                        want[bytes(t)] = want.get(bytes(t), set()) | w
            if all(m is not None for _, m in models.values()):
                ctx.eq({bytes(k.contents): set(v) for k, v in c.get_writable_attr().items()}, want, "writable-attributes")
            for step in range(10):
                n = rng.choice(nums)
                ver, m = models[n]
                a = c.getASSOCIATION(n)
                query(c, n, a, ver, m, mechs[n], step=step)
                op = rng.choice(("query", "mode", "method", "list", "mechanism", "second"))
                if op == "mode" and m:
                    t = rng.choice(list(m))
                    i = rng.choice(list(m[t][2]))
                    m2 = {k: [x[0], x[1], dict(x[2]), dict(x[3])] for k, x in m.items()}
                    m2[t][2][i] = rng.randrange(4 if ver == 0 else 7)
                    for e in a.object_list:
                        if tuple(e.logical_name.contents) == t:
                            for it in e.access_rights.attribute_access:
                                if int(it.attribute_id) == i:
                                    it.access_mode.set(m2[t][2][i])
                    models[n] = (ver, m2)
                elif op == "method" and m:
                    t = rng.choice(list(m))
                    if m[t][3]:
                        i = rng.choice(list(m[t][3]))
                        m2 = {k: [x[0], x[1], dict(x[2]), dict(x[3])] for k, x in m.items()}
                        m2[t][3][i] = rng.randrange(2 if ver == 0 else 3)
                        for e in a.object_list:
                            if tuple(e.logical_name.contents) == t:
                                for it in e.access_rights.method_access:
                                    if int(it.method_id) == i:
                                        it.access_mode.set(m2[t][3][i])
                        models[n] = (ver, m2)
                elif op == "list":
                    m2 = gen_list(ver)
                    a.set_attr(2, enc_list(m2, ver))
                    models[n] = (ver, m2)
                elif op == "mechanism":
                    mechs[n] = rng.randrange(3)
                    a.authentication_mechanism_name.mechanism_id_element.set(mechs[n])
                ver, m = models[n]
                for _ in range(3):
                    query(c, n, a, ver, m, mechs[n], after=op)
            # the other collection did not follow
            for n, e in lists.items():
                ctx.eq(bytes(c2.getASSOCIATION(n).object_list.encoding), e, "other-collection")
            absent = next(k for k in range(1, 30) if k not in nums)
            ctx.eq(outcome(lambda: c.is_readable(ln((0, 0, 1, 0, 0, 255)), 1, absent)), "absent-object", "absent-association")
    for x in (True, False, "absent-object", "absent-index", "empty-list"):
        ctx.require(f"readable:{x}", 20)
    for x in (True, False, "absent-object", "absent-index"):
        ctx.require(f"accessible:{x}", 20)
