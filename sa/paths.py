"""Path-sensitive exploration of one function with selected callees expanded in place.

A state is (call stack, facts, knowledge).  Facts are strings a rule's machine adds and removes at calls, writes and
branch edges; knowledge is what constants and earlier branches say about places and tests, so that a flag (or an enum
variant) decided on one path keeps later branches of that path consistent.  The number of states is finite (facts and
knowledge come from the text), so loops terminate."""
from ir import ops_of, peel, walk, term_succ

LIMIT = 60000
PRED = {"is_some": "Some", "is_none": "None", "is_ok": "Ok", "is_err": "Err"}
KEEP = {"map", "map_err", "as_ref", "as_mut", "as_deref", "as_deref_mut", "cloned", "copied", "inspect"}
SWAP = {"ok": ("None", "Some"), "ok_or": ("Err", "Ok"), "ok_or_else": ("Err", "Ok"), "err": ("Some", "None")}


class TooBig(Exception):
    pass


class Machine:
    """rules override these; each returns (add, remove) or None"""

    def call(self, f, c, facts):
        return None

    def write(self, f, st, facts):
        return None

    def edge(self, f, term, outcome, facts):
        """term: what is tested (peeled); outcome: True/False or a variant name"""
        return None

    def edge_any(self, f, term, names, facts):
        """the remaining branch of a match that covers several variants"""
        return None

    def drop(self, f, pl, facts):
        return None

    def inline(self, f, c, g):
        return False

    def read(self, f, st, facts):
        """a statement reads a place: the cases to tell apart, [(value read, add, remove)]"""
        return None

    def call_alts(self, f, c, facts):
        """the cases a call's result falls in, [(bool or variant name, add, remove)]"""
        return None


class End:
    __slots__ = ("kind", "fn", "bb", "line", "facts", "ret", "depth", "var", "test")

    def __init__(s, kind, fn, bb, line, facts, ret, depth, var=None, test=None):
        """ret: constant returned, var: variant returned, test: the term that decided a returned bool"""
        s.kind, s.fn, s.bb, s.line, s.facts, s.ret, s.depth, s.var, s.test = kind, fn, bb, line, facts, ret, depth, var, test


def pl_key(pl):
    """hashable place without derefs (references are followed), or None if it indexes"""
    out = [pl[0]]
    for e in pl[1:]:
        if e == "*":
            continue
        if e[0] == "f":
            out.append(e[1])
        elif e[0] == "d":
            continue
        else:
            return None
    return tuple(out)


class Explorer:
    def __init__(s, p, m):
        s.p, s.m = p, m
        s.callmemo = {}
        s.movememo = {}

    def calls(s, f):
        r = s.callmemo.get(f.key)
        if r is None:
            r = s.callmemo[f.key] = {c.bb: c for c in f.calls()}
        return r

    def moved(s, f):
        """locals moved from as a whole: their drop is that of whoever took the value"""
        r = s.movememo.get(f.key)
        if r is None:
            r = set()
            for b in f.bb:
                for st in b["s"]:
                    if st[0] == "=":
                        r |= {o["p"][0] for o in ops_of(st[2]) if o.get("m") and len(o.get("p", ())) == 1}
                if b["t"][0] == "call":
                    r |= {o["p"][0] for o in b["t"][2] if o.get("m") and len(o.get("p", ())) == 1}
            s.movememo[f.key] = r
        return r

    def run(s, f, facts=frozenset(), know=()):
        """all path ends: kinds 'ret', 'yield' (suspension), 'diverge' (call that does not return)
        and 'call' (facts just before every call that is not expanded)"""
        ends, seen = [], set()
        work = [(((f.key, 0),), frozenset(facts), frozenset(know))]
        while work:
            st = work.pop()
            if st in seen:
                continue
            seen.add(st)
            if len(seen) > LIMIT:
                raise TooBig(f.name)
            work += s.step(st, ends)
        return ends

    # ---- knowledge: frozenset of ((depth, place...), value) and (("t", depth, term), outcome)
    def step(s, state, ends):
        stack, facts, know = state
        fk, b = stack[-1]
        f = s.p.fns[fk]
        d = len(stack)
        blk = f.bb[b]
        if blk.get("c"):
            return []
        cases = [(dict(know), set(facts))]
        for stt in blk["s"]:
            if stt[0] != "=":
                continue
            nxt = []
            for K, F in cases:
                alts = s.m.read(f, stt, frozenset(F))
                for v, add, rem in (alts if alts is not None else [(None, (), ())]):
                    K2, F2 = (dict(K), (F - set(rem)) | set(add)) if alts is not None else (K, F)
                    e = s.m.write(f, stt, frozenset(F2))
                    if e:
                        F2 -= set(e[1])
                        F2 |= set(e[0])
                    s.assign(f, d, K2, stt[1], stt[2])
                    if isinstance(v, bool) and pl_key(stt[1]) is not None:
                        K2[(d,) + pl_key(stt[1])] = v
                        K2.pop((d,) + pl_key(stt[1]) + ("=",), None)
                    nxt.append((K2, F2))
            cases = nxt
        out = []
        for K, F in cases:
            out += s.term(f, b, d, blk, stack, fk, K, F, ends)
        return out

    def term(s, f, b, d, blk, stack, fk, K, F, ends):
        t = blk["t"]
        k = t[0]

        def go(bb, K2=None, F2=None):
            return (stack[:-1] + ((fk, bb),), frozenset(F if F2 is None else F2), frozenset((K if K2 is None else K2).items()))
        if k == "ret":
            r = K.get((d, 0))
            if d == 1:
                ends.append(End("ret", f, b, f.line2, frozenset(F), r, d, K.get((d, 0, "#")), K.get((d, 0, "="))))
                return []
            # pop
            ck, cb = stack[-2]
            cf = s.p.fns[ck]
            ct = cf.bb[cb]["t"]
            dest = pl_key(ct[3])
            ret = {kk: v for kk, v in K.items() if kk[0] == d and kk[1] == 0}
            K2 = {kk: v for kk, v in K.items() if not (kk[0] == d or kk[0] == "t" and kk[1] == d)}
            s.forget(cf, d - 1, K2, ct[3], cb)
            if dest is not None:
                for kk, v in ret.items():
                    K2[(d - 1,) + dest + kk[2:]] = v
            if ct[4] is None:
                return []
            return [(stack[:-2] + ((ck, ct[4]),), frozenset(F), frozenset(K2.items()))]
        if k == "yield":
            ends.append(End("yield", f, b, blk.get("l") or line_of(f, b), frozenset(F), None, d))
            return [go(x) for x in term_succ(t)]
        if k == "call":
            c = s.calls(f)[b]
            gs = [g for g in (s.p.targets(c.callee) if c.callee else []) if g.key in s.p.fns]
            if len(gs) == 1 and d < 5 and all(x[0] != gs[0].key for x in stack) and not gs[0].is_async and s.m.inline(f, c, gs[0]):
                g = gs[0]
                K2 = dict(K)
                for i, a in enumerate(t[2]):
                    if "p" in a:
                        pk = pl_key(a["p"])
                        if pk is not None:
                            for kk, v in K.items():
                                if kk[0] == d and kk[1:1 + len(pk)] == pk:
                                    K2[(d + 1, i + 1) + kk[1 + len(pk):]] = v
                    elif isinstance(a.get("v"), bool):
                        K2[(d + 1, i + 1)] = a["v"]
                return [(stack + ((g.key, 0),), frozenset(F), frozenset(K2.items()))]
            ends.append(End("call", f, b, c.line, frozenset(F), c, d))
            e = s.m.call(f, c, frozenset(F))
            if e:
                F -= set(e[1])
                F |= set(e[0])
            K2 = dict(K)
            s.forget(f, d, K2, t[3], b)
            if len(t[3]) == 1 and f.ty(t[3][0]) == "bool" and (len(f.defs().get(t[3][0], [])) > 1 or t[3][0] == 0):
                K2[(d, t[3][0], "=")] = f.call_term(t, 0, b)
            nm = c.name
            if nm.endswith("Try::branch") and t[2] and "p" in t[2][0] and pl_key(t[2][0]["p"]) is not None and pl_key(t[3]) is not None:
                v = K.get((d,) + pl_key(t[2][0]["p"]) + ("#",))
                if v in ("Ok", "Some", "Continue"):
                    K2[(d,) + pl_key(t[3]) + ("#",)] = "Continue"
                elif v in ("Err", "None", "Break"):
                    K2[(d,) + pl_key(t[3]) + ("#",)] = "Break"
            elif nm.endswith("FromResidual::from_residual") and pl_key(t[3]) is not None:
                ty = f.ty(t[3][0]) if len(t[3]) == 1 else ""
                if (ty or "").startswith(("core::result::Result<", "core::option::Option<")):
                    K2[(d,) + pl_key(t[3]) + ("#",)] = "Err" if "result" in ty[:14] else "None"
            if nm in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(t[2]) == 2 and len(t[3]) == 1:
                v = [s.variant(f, d, K, a) for a in t[2]]
                if v[0][0] and v[1][0] and (v[0][0] != v[1][0] or v[0][1] or v[1][1]):
                    K2[(d, t[3][0])] = (v[0][0] == v[1][0]) == nm.endswith("eq")
            pk0 = pl_key(t[2][0]["p"]) if t[2] and "p" in t[2][0] else None
            v = K.get((d,) + pk0 + ("#",)) if pk0 is not None else None
            if v in ("Some", "None", "Ok", "Err") and pl_key(t[3]) is not None and nm.startswith(("core::option::", "core::result::")):
                l = nm.rsplit("::", 1)[-1]
                if l in PRED:
                    if len(t[3]) == 1:
                        K2[(d, t[3][0])] = v == PRED[l]
                        K2.pop((d, t[3][0], "="), None)
                elif l in KEEP:
                    K2[(d,) + pl_key(t[3]) + ("#",)] = v
                elif l in SWAP:
                    K2[(d,) + pl_key(t[3]) + ("#",)] = SWAP[l][v in ("Some", "Ok")]
            if t[4] is None:
                ends.append(End("diverge", f, b, c.line, frozenset(F), c, d))
                return []
            alts = s.m.call_alts(f, c, frozenset(F))
            if alts is None or pl_key(t[3]) is None:
                return [go(t[4], K2)]
            out = []
            for v, add, rem in alts:
                K3 = dict(K2)
                if isinstance(v, bool):
                    K3[(d,) + pl_key(t[3])] = v
                    K3.pop((d,) + pl_key(t[3]) + ("=",), None)
                elif v is not None:
                    K3[(d,) + pl_key(t[3]) + ("#",)] = v
                out.append(go(t[4], K3, (F - set(rem)) | set(add)))
            return out
        if k == "drop":
            e = s.m.drop(f, t[1], frozenset(F)) if not (len(t[1]) == 1 and t[1][0] in s.moved(f)) else None
            if e:
                F -= set(e[1])
                F |= set(e[0])
        if k == "switch":
            return s.switch(f, d, t, K, F, go)
        return [go(x) for x in term_succ(t)]

    def variant(s, f, d, K, a):
        """(variant an operand is known to be, whether it carries no data)"""
        tm = peel(f.op_term(a))
        if tm[0] == "agg" and tm[1] == "adt" and tm[3]:
            return tm[3], not tm[5]
        if "p" in a and pl_key(a["p"]) is not None:
            return K.get((d,) + pl_key(a["p"]) + ("#",)), False
        return None, False

    def forget(s, f, d, K, pl, site=None):
        """a place (and anything computed by this call site) has a new value"""
        pk = pl_key(pl)
        if pk is not None:
            for kk in [x for x in K if x[0] == d and (x[1:1 + len(pk)] == pk)]:
                del K[kk]
        l = pl[0]
        for kk in [x for x in K if x[0] == "t" and x[1] == d]:
            for y in walk(kk[2]):
                if y[0] == "call" and site is not None and y[3] == (f.key, site) or y[0] == "var" and y[1] == f.key and y[2] == l:
                    del K[kk]
                    break

    def assign(s, f, d, K, pl, rv):
        pk = pl_key(pl)
        new = {}
        if rv[0] == "use":
            o = rv[1]
            if "p" in o:
                src = pl_key(o["p"])
                if src is not None and pk is not None:
                    for kk, v in K.items():
                        if kk[0] == d and kk[1:1 + len(src)] == src:
                            new[(d,) + pk + kk[1 + len(src):]] = v
            elif isinstance(o.get("v"), bool) and pk is not None:
                new[(d,) + pk] = o["v"]
        elif rv[0] == "ref" and pk is not None:
            src = pl_key(rv[2])
            if src is not None:
                for kk, v in K.items():
                    if kk[0] == d and kk[1:1 + len(src)] == src:
                        new[(d,) + pk + kk[1 + len(src):]] = v
        elif rv[0] == "agg" and pk is not None:
            if rv[1] == "adt" and rv[3]:
                new[(d,) + pk + ("#",)] = rv[3]
            names = rv[4] if rv[1] == "adt" else [str(i) for i in range(len(rv[5]))]
            for n, o in zip(names, rv[5]):
                if "p" in o:
                    src = pl_key(o["p"])
                    if src is not None:
                        for kk, v in K.items():
                            if kk[0] == d and kk[1:1 + len(src)] == src:
                                new[(d,) + pk + (n,) + kk[1 + len(src):]] = v
                elif isinstance(o.get("v"), bool):
                    new[(d,) + pk + (n,)] = o["v"]
        elif rv[0] == "un" and rv[1] == "Not" and pk is not None and "p" in rv[2]:
            src = pl_key(rv[2]["p"])
            v = K.get((d,) + src) if src is not None else None
            if isinstance(v, bool):
                new[(d,) + pk] = not v
        if pk is not None and len(pl) == 1 and f.ty(pl[0]) == "bool" and (d,) + pk not in new and (d,) + pk + ("=",) not in new:
            # which test decided the flag on this path
            if rv[0] == "un" and rv[1] == "Not" and "p" in rv[2]:
                src = pl_key(rv[2]["p"])
                u = K.get((d,) + src + ("=",)) if src is not None else None
                if u is not None:
                    new[(d,) + pk + ("=",)] = ("un", "Not", u)
            if (d,) + pk + ("=",) not in new and (len(f.defs().get(pl[0], [])) > 1 or pl[0] == 0) and rv[0] in ("bin", "use", "un"):
                new[(d,) + pk + ("=",)] = f.rv_term(rv)
        s.forget(f, d, K, pl)
        K.update(new)

    def switch(s, f, d, t, K, F, go):
        op = t[1]
        known, variants = None, None
        place = pl_key(op["p"]) if "p" in op else None
        tm = f.op_term(op)
        if place is not None and isinstance(K.get((d,) + place), bool):
            known = K[(d,) + place]
        outs = []
        if tm[0] == "disc":
            variants = s.p.variants(tm[2]) or {}
            # which place is inspected?
            dp = disc_place(f, op)
            v = K.get((d,) + dp + ("#",)) if dp is not None else None
            key = ("t", d, peel(tm[1]))
            v = v if v is not None else K.get(key)
            seen = set()
            for val, tgt in t[2]:
                name = variants.get(val)
                seen.add(name)
                if v is not None and name is not None and name != v:
                    continue
                outs.append((tgt, name))
            rest = [n for n in dict.fromkeys(variants.values()) if n not in seen]
            if not (f.bb[t[3]]["t"][0] == "unr" and not f.bb[t[3]]["s"]) and (not variants or rest) and not (v is not None and v in seen):
                outs.append((t[3], rest[0] if len(rest) == 1 else tuple(rest) if rest else None))
            r = []
            for tgt, name in outs:
                F2, K2 = set(F), dict(K)
                if isinstance(name, tuple):
                    e = s.m.edge_any(f, ("disc", peel(tm[1]), tm[2]), name, frozenset(F2))
                    if e:
                        F2 -= set(e[1])
                        F2 |= set(e[0])
                elif name is not None:
                    if pure(tm[1]):
                        K2[key] = name
                    if dp is not None:
                        K2[(d,) + dp + ("#",)] = name
                    e = s.m.edge(f, ("disc", peel(tm[1]), tm[2]), name, frozenset(F2))
                    if e:
                        F2 -= set(e[1])
                        F2 |= set(e[0])
                r.append(go(tgt, K2, F2))
            return r
        if len(t[2]) == 1 and t[2][0][0] == 0:
            neg = False
            alt = K.get((d,) + place + ("=",)) if place is not None else None
            if alt is not None and alt != tm:
                return s.test(f, d, t, K, F, go, known, alt, tm)
            return s.test(f, d, t, K, F, go, known, tm, None)
        return [go(x) for x in term_succ(t)]

    def test(s, f, d, t, K, F, go, known, tm, tm2):
        neg = False
        u = tm
        while u[0] == "un" and u[1] == "Not":
            u, neg = u[2], not neg
        key = ("t", d, peel(u))
        if known is None and key in K:
            known = K[key] != neg
        r = []
        for tgt, o in ((t[2][0][1], False), (t[3], True)):
            if known is not None and o != known:
                continue
            F2, K2 = set(F), dict(K)
            if pure(u):
                K2[key] = o != neg
            e = s.m.edge(f, peel(u), o != neg, frozenset(F2))
            if e:
                F2 -= set(e[1])
                F2 |= set(e[0])
            if tm2 is not None:
                n2, u2 = False, tm2
                while u2[0] == "un" and u2[1] == "Not":
                    u2, n2 = u2[2], not n2
                e = s.m.edge(f, peel(u2), o != n2, frozenset(F2))
                if e:
                    F2 -= set(e[1])
                    F2 |= set(e[0])
            r.append(go(tgt, K2, F2))
        return r


def pure(t):
    """worth remembering: the outcome stays the same as long as the term's call sites are not executed again
    (values behind locks and references may change under us, so only tests of owned results qualify)"""
    t = peel(t)
    return t[0] == "call" and t[1].startswith(("core::result::", "core::option::")) and not any(
        x[0] == "call" and ("lock" in x[1] or "::read" in x[1] or "::write" in x[1] or "::get" in x[1]) for x in walk(t))


def disc_place(f, op):
    """place whose discriminant the operand holds"""
    if "p" not in op or len(op["p"]) != 1:
        return None
    ds = f.defs().get(op["p"][0], [])
    if len(ds) == 1 and ds[0][1] == "rv" and ds[0][2][0] == "disc":
        return pl_key(ds[0][2][1]) if "*" not in ds[0][2][1] else None
    return None


def line_of(f, b):
    for st in f.bb[b]["s"]:
        if st[0] == "=":
            return st[3]
    return f.line
