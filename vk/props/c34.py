"""Searching, sorting and grouping of objects."""
from .. import obisref

RULE = ("random lists of objects of several classes with codes at the borders of the OBIS tables; random combinations of keys (classes, media, groups, patterns), every sort and tree mode, "
        "attribute trees of random object lists; patterns of every form and texts that are none. Non-trivial: distinct (question, objects).")
MODULES = ("cosem_interface_classes.collection",)
CLASSES = ((1, 0), (3, 0), (4, 0), (5, 0), (7, 1), (8, 0), (9, 0), (11, 0), (15, 0), (15, 1), (20, 0), (22, 0), (64, 0), (64, 1), (70, 0))
OBJ_MODES = ("m", "g", "c", "mc", "cm", "gm", "gc", "cg", "gmc")
SORT_MODES = ("", "l", "n", "c", "cl", "cn")


def run(ctx):
    from src.DLMS_SPODES.types import common_data_types as cdt, cosem_service_types as cst, useful_types as ut
    from src.DLMS_SPODES.cosem_interface_classes import collection as col
    from src.DLMS_SPODES.obis import media_id as mid
    from ..env import quiet
    rng = ctx.sub("search")
    TYPES = [(c, v, col.get_interface_class(col.common_interface_class_map, ut.CosemClassId(c), cdt.Unsigned(v))) for c, v in CLASSES]
    MEDIA = {n: getattr(mid, n) for n in ("ABSTRACT", "ELECTRICITY", "HCA", "GAS", "THERMAL", "WATER")}
    GROUPS = sorted({r[4] for m in obisref.ROWS for r in obisref.ROWS[m]})
    MED_CLASS = {"ABSTRACT": "Abstract", "ELECTRICITY": "Electricity", "HCA": "Hca", "THERMAL": "Thermal", "GAS": "Gas", "WATER": "Water"}

    def L(t):
        return cst.LogicalName(bytearray(t))

    def code():
        while True:
            t = obisref.rand_code(rng)
            if not obisref.skip(t):
                return tuple(t)

    def medium(t):
        return MEDIUM_OF.get(t[0], ("Other", 15) if t[0] == 15 else ("Reserved", t[0]))
    MEDIUM_OF = {a: (MED_CLASS[n], n) for a, n in obisref.MEDIUM.items()}

    def group(t):
        return type(getattr(mid, obisref.group(t))).__name__

    def objects(n):
        pool = [code() for _ in range(max(2, n // 2))]
        lns = set()
        for _ in range(n):
            t = list(rng.choice(pool))
            if rng.random() < 0.7:
                t[rng.randrange(6)] = rng.choice((0, 1, 2, 10, 254, 255, rng.randrange(256)))
            if not obisref.skip(t):
                lns.add(tuple(t))
        lns = list(lns)
        rng.shuffle(lns)
        r = []
        for t in lns:
            c, v, cls = rng.choice(TYPES)
            if c == 15 and t[4] > 4:
                c, v, cls = TYPES[0]
            with quiet():
                o = cls(L(t))
            r.append((t, c, v, o))
        return r

    # ---- patterns
    def pattern():
        parts, sets = [], []
        for i in range(6):
            k = rng.random()
            if k < 0.35:
                parts.append("abcdef"[i])
                sets.append(None)
            elif k < 0.6:
                x = rng.choice((0, 1, 42, 96, 254, 255, rng.randrange(256)))
                parts.append(str(x))
                sets.append({x})
            else:
                els, s = [], set()
                for _ in range(rng.choice((1, 1, 2, 3, 5))):
                    if rng.random() < 0.5:
                        x = rng.choice((0, 255, rng.randrange(256)))
                        els.append(str(x))
                        s.add(x)
                    else:
                        a, b = rng.randrange(256), rng.randrange(256)
                        if rng.random() < 0.3:
                            b = a
                        a, b = min(a, b), max(a, b)
                        if rng.random() < 0.3:
                            b = min(b, a + 3)
                        els.append(f"{a}-{b}")
                        s |= set(range(a, b + 1))
                parts.append("(" + rng.choice((",", ", ")).join(els) + ")")
                sets.append(s)
        return ".".join(parts), sets
    for _ in range(ctx.n(2500)):
        text, sets = pattern()
        with ctx.guard("pattern", text=text):
            p = col.LNPattern(text)
            for k in range(12):
                t = [rng.randrange(256) if s is None or rng.random() < 0.08 or not s else rng.choice(sorted(s)) for s in sets]
                if rng.random() < 0.3:   # step over a border
                    i = rng.randrange(6)
                    t[i] = (t[i] + rng.choice((-1, 1))) % 256
                want = all(s is None or x in s for s, x in zip(sets, t))
                ctx.case((text, tuple(t)))
                ctx.count(f"pattern {want}")
                ctx.eq(p == L(t), want, "pattern-match", text=text, ln=t)
                ctx.eq(L(t) in [p], want, "pattern-match", text=text, ln=t)
    for text in ("", "x.0.0.0.0.0", "a.b.c.d.e.g", "b.0.0.0.0.0", "256.0.0.0.0.0", "0.0.0.0.0.-1", "(1.0.0.0.0.0", "1).0.0.0.0.0", "(1-2-3).0.0.0.0.0", "(1,,2).0.0.0.0.0", "().0.0.0.0.0", "(256).0.0.0.0.0",
                 "(0-256).0.0.0.0.0", "(a).0.0.0.0.0", "(-1).0.0.0.0.0", "(1-).0.0.0.0.0", "0..0.0.0.0", "0.0.0.0.0.", "0.0.0.0.0.0.0", "0.0.0.0.0.0x", " .0.0.0.0.0", "A.0.0.0.0.0", "*.0.0.0.0.0", "1-2.0.0.0.0.0"):
        ctx.rejects(lambda: col.LNPattern(text), "pattern-malformed", text=text)

    # ---- filters
    for _ in range(ctx.n(500)):
        objs = objects(rng.choice((1, 5, 20, 60))) or objects(9)
        lst = [o for *_x, o in objs]
        for _k in range(6):
            keys, cids, meds, grs, pats = [], set(), set(), set(), []
            for kind in rng.sample(("class", "media", "group", "pattern"), rng.choice((0, 1, 1, 2, 3))):
                for _j in range(rng.choice((1, 1, 2, 3))):
                    if kind == "class":
                        c = rng.choice(objs)[1] if rng.random() < 0.8 else rng.choice((1, 2, 45, 71))
                        cids.add(c)
                        keys.append(col.CosemClassId(c))
                    elif kind == "media":
                        m = rng.choice(list(MEDIA))
                        meds.add(MED_CLASS[m])
                        keys.append(MEDIA[m])
                    elif kind == "group":
                        g = group(rng.choice(objs)[0]) if rng.random() < 0.8 else type(getattr(mid, rng.choice(GROUPS))).__name__
                        if g in MED_CLASS.values():   # (a code without a group of its own)
                            continue
                        inst = [getattr(mid, n) for n in GROUPS + ["OTHER_MEDIA"] if type(getattr(mid, n)).__name__ == g][0]
                        grs.add(g)
                        keys.append(inst)
                    else:
                        t = rng.choice(objs)[0]
                        sets = [None if rng.random() < 0.5 else {x} for x in t]
                        keys.append(col.LNPattern(".".join("abcdef"[i] if s is None else str(min(s)) for i, s in enumerate(sets))))
                        pats.append(sets)
            rng.shuffle(keys)
            want = [t for t, c, v, o in objs if (not cids or c in cids) and (not meds or medium(t)[0] in meds) and (not grs or group(t) in grs)
                    and (not pats or any(all(s is None or x in s for s, x in zip(p, t)) for p in pats))]
            w = dict(classes=sorted(cids), media=sorted(meds), groups=sorted(grs), patterns=len(pats))
            ctx.case(("filter", tuple(t for t, *_x in objs), repr(w)))
            with ctx.guard("filter", **w):
                before = list(lst)
                got = col.get_filtered(lst, tuple(keys))
                ctx.eq([tuple(o.logical_name.contents) for o in got], want, "filtered", objs=[(t, c) for t, c, *_y in objs][:30], **w)
                ctx.check(all(any(g is o for o in lst) for g in got), "filtered-same-objects")
                ctx.check(len(lst) == len(before) and all(a is b for a, b in zip(lst, before)), "argument-kept")
                ctx.count("filtered some" if 0 < len(want) < len(objs) else "filtered all or none")

    # ---- sorting and trees
    name_of = lambda t: col.get_name(L(t))

    def flat(tree, path=()):
        if isinstance(tree, dict):
            for k, v in tree.items():
                yield from flat(v, path + (k,))
        else:
            for o in tree:
                yield path, o

    def label(k):
        if isinstance(k, mid.MediaId):
            return type(k).__name__ if type(k).__name__ != "Reserved" else ("Reserved", k._value)
        return int(k)

    def labels(t, c, mode):
        r = []
        for ch in reversed(mode):   # (the last letter is the outermost level)
            if ch == "m":
                r.append("Other" if t[0] == 15 else MEDIUM_OF[t[0]][0] if t[0] in MEDIUM_OF else ("Reserved", t[0]))
            elif ch == "g":
                r.append(group(t))
            else:
                r.append(c)
        return tuple(r)
    for _ in range(ctx.n(350)):
        objs = objects(rng.choice((1, 6, 25, 60))) or objects(9)
        lst = [o for *_x, o in objs]
        by = {id(o): (t, c) for t, c, v, o in objs}
        for mode in SORT_MODES:
            with ctx.guard("sorted", mode=mode):
                got = col.get_sorted(list(lst), mode)
                ctx.case(("sort", mode, tuple(by[id(o)] for o in lst)))
                want = list(objs)
                for ch in reversed(mode):
                    want.sort(key={"l": lambda x: x[0], "n": lambda x: name_of(x[0]), "c": lambda x: x[1]}[ch])
                ctx.eq([by.get(id(o)) for o in got], [x[:2] for x in want], "sorted", mode=mode)
        for mode in OBJ_MODES:
            with ctx.guard("tree", mode=mode):
                arg = rng.choice((list, tuple))(lst)
                tree = col.get_object_tree(arg, mode)
                ctx.case(("tree", mode, tuple(by[id(o)] for o in lst)))
                got = [(tuple(map(label, p)), by.get(id(o))) for p, o in flat(tree)]
                want = [(labels(t, c, mode), (t, c)) for t, c, v, o in objs]
                ctx.eq(sorted(map(repr, got)), sorted(map(repr, want)), "tree", mode=mode)
                # one branch for one key, order of objects kept in each
                def branches(tr):
                    if isinstance(tr, dict):
                        ks = [label(k) for k in tr]
                        ctx.eq(len(set(ks)), len(ks), "tree-one-branch", mode=mode, keys=ks)
                        ctx.check(len(tr) > 0, "tree-empty-branch", mode=mode)
                        for v in tr.values():
                            branches(v)
                    else:
                        pos = [next(i for i, o in enumerate(lst) if o is x) for x in tr]
                        ctx.check(pos == sorted(pos) and pos, "tree-order", "objects of a branch are out of order", mode=mode, order=pos)
                branches(tree)
                ctx.check(isinstance(arg, (list, tuple)) and len(arg) == len(lst), "argument-kept")
    for bad in ("x", "lx", "m"):
        ctx.rejects(lambda: col.get_sorted([o for *_x, o in objects(3)], bad), "sort-mode-unknown", exc=(KeyError, ValueError), mode=bad)
    for bad in ("x", "mx", "l"):
        ctx.rejects(lambda: col.get_object_tree([o for *_x, o in objects(3)], bad), "tree-mode-unknown", exc=(KeyError, ValueError), mode=bad)

    # ---- attribute trees of an association
    POOL = [(1, 0, (0, 0, 96, 1, e, 255), 2) for e in range(1, 7)] + [(3, 0, (1, 0, c, 7, 0, 255), 3) for c in (1, 2, 3, 4, 21, 31, 41)] + [(3, 0, (1, 0, c, 8, e, 255), 3) for c in (1, 2) for e in range(3)] + [
        (8, 0, (0, 0, 1, 0, 0, 255), 9), (20, 0, (0, 0, 13, 0, 0, 255), 10), (22, 0, (0, 0, 15, 0, 0, 255), 4), (70, 0, (0, 0, 96, 3, 10, 255), 4), (9, 0, (0, 0, 10, 0, 100, 255), 2)]

    def ol(entries):
        r = b"\x01" + bytes((len(entries),))
        for (c, v, t, n), modes in entries:
            r += b"\x02\x04\x12" + c.to_bytes(2, "big") + b"\x11" + bytes((v,)) + b"\x09\x06" + bytes(t) + b"\x02\x02\x01" + bytes((len(modes),))
            for i, m in modes.items():
                r += b"\x02\x03\x0f" + bytes((i,)) + b"\x16" + bytes((m,)) + b"\x00"
            r += b"\x01\x00"
        return r
    for _ in range(ctx.n(120)):
        with ctx.guard("attribute-tree"):
            c = col.Collection()
            lists = {}
            for n in (1, 3):
                with quiet():
                    a = c.add(class_id=ut.CosemClassId(15), version=cdt.Unsigned(1), logical_name=L((0, 0, 40, 0, n, 255)))
                ents = []
                for p in rng.sample(POOL, rng.randrange(1, len(POOL))):
                    modes = {i: rng.choice((0, 0, 1, 1, 2, 3)) for i in range(1, p[3] + 1)}
                    ents.append((p, modes))
                lists[n] = ents
                with quiet():
                    a.set_attr(2, ol(ents))
            for _k in range(8):
                n = rng.choice((1, 3))
                om, sm, af = rng.choice(OBJ_MODES), rng.choice(SORT_MODES), rng.choice(("l", "r", "w", "lr", "lw", "wr", "lrw"))
                fk, flt = rng.choice(((None, lambda p: True), ((col.CosemClassId(3),), lambda p: p[0] == 3), ((mid.ABSTRACT,), lambda p: p[2][0] == 0), ((mid.ELECTRICITY, col.CosemClassId(1)), lambda p: False),
                                      ((col.CosemClassId(1), col.CosemClassId(8)), lambda p: p[0] in (1, 8)), ((col.LNPattern("a.b.(1,96).d.e.f"),), lambda p: p[2][2] in (1, 96))))
                want = {}
                for p, modes in lists[n]:
                    if not flt(p):
                        continue
                    idx = [i for i in range(1, p[3] + 1) if not ("l" in af and i == 1) and not ("r" in af and modes[i] not in (1, 3)) and not ("w" in af and modes[i] not in (2, 3))]
                    if idx:
                        want[p[2]] = (labels(p[2], p[0], om), idx)
                w = dict(association=n, objects=om, sort=sm, attributes=af, keys=str(fk), lists=lists[n])
                ctx.case(("attr-tree", n, om, sm, af, str(fk), repr(lists[n])))
                tree = c.get_attr_tree(n, obj_mode=om, obj_filter=fk, sort_mode=sm, af_mode=af) if fk or rng.random() < 0.5 else c.get_attr_tree(ass_id=n, obj_mode=om, sort_mode=sm, af_mode=af)

                def leaves(tr, path, depth):
                    if depth == len(om):
                        for o, idx in tr.items():
                            yield path, o, idx
                    else:
                        ctx.check(len(tr) or not path, "attribute-tree-empty", "an empty branch is left", **w)
                        for k, v in tr.items():
                            yield from leaves(v, path + (label(k),), depth + 1)
                got = {}
                for path, o, idx in leaves(tree, (), 0):
                    t = tuple(o.logical_name.contents)
                    ctx.check(t not in got, "attribute-tree-twice", "an object comes twice", ln=t, **w)
                    got[t] = (path, list(idx))
                    ctx.check(o is c.get(bytes(t)), "attribute-tree-object", ln=t)
                ctx.eq(got, want, "attribute-tree", **w)
                ctx.count("attribute trees" if want else "attribute trees empty")
                # the question leaves the collection as it was
                ctx.eq([tuple(o.logical_name.contents) for o in c.filter_by_ass(n)], [p[2] for p, _m in lists[n]], "attribute-tree-list-kept")
    ctx.require("attribute trees", 20)
    ctx.require("attribute trees empty", 3)
    ctx.require("pattern True", 100)
    ctx.require("pattern False", 100)
    ctx.require("filtered some", 100)
