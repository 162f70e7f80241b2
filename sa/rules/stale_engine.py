"""P23, second part: the engine around the fact stores.

`whole`   replacing a file's facts touches every per-file place of the engine or none
`fresh`   no cached answer survives a change of what it was computed from
`version` a new text gets a new revision, and results taken from an older text are refused
`again`   resolving replaces what the previous resolution said"""
import re
from flow import CMP_CALLS, FULL, Flow, Spec
from ir import peel, walk, term_succ
from paths import Explorer, Machine, TooBig
from rules.stale import (ENGINE, FACTS, FILE, STD, SX, Base, closures, split_generics)
from vals import call_targets, mentions, ret_terms

SNAP = re.compile(r"(^|::)SourceFileSnapshot\b")


def mut_params(f):
    return {(f.ty(l) or "")[5:].split("<")[0] for l in range(1, f.nargs + 1) if (f.ty(l) or "").startswith("&mut ")}


def ref_params(f):
    return {(f.ty(l) or "")[1:].split("<")[0] for l in range(1, f.nargs + 1) if (f.ty(l) or "").startswith("&") and not (f.ty(l) or "").startswith("&mut ")}


def param_tys(f):
    return [(f.ty(l) or "") for l in range(1, f.nargs + 1)]


def by_value(f, rx):
    return any(rx.search(t) and not t.startswith("&") for t in param_tys(f))


def has_range(p, ty, d=0, seen=None):
    """a record that carries its file's identity"""
    seen = seen if seen is not None else set()
    for a in re.findall(r"[A-Za-z_][\w:]*::\w+", ty):
        if FILE.search(a):
            return True
        if a in p.adts and a not in seen and d < 3 and not p.adts[a].get("enum") and p.adts[a]["v"]:
            seen.add(a)
            x = p.adts[a]
            if any(has_range(p, p.ty(x["crate"], f[1]), d + 1, seen) for f in x["v"][0][2]):
                return True
    return False


class Touch:
    """which functions may change a per-file place of the engine"""

    def __init__(s, mo, done):
        s.mo, s.p, s.done = mo, mo.p, done
        s.places = set()
        for n, t in mo.fields[mo.engine].items():
            if n in mo.owner_fields(mo.engine) or t.startswith("alloc::vec::Vec<") and has_range(mo.p, t):
                s.places.add((mo.engine, n))
        for st in mo.stores:
            if any(o[0] == st for own in done.values() for o in own):
                s.places |= {(st, o) for o in mo.owner_fields(st)}
        b = Base(mo)
        b.x = type("X", (), {"stack": ((None, 0),)})()
        direct = set(done)
        for f in mo.p.fns.values():
            for c in f.calls():
                if any(k in s.places and k[0] == mo.engine for _, k, _ in b.effects(f, c)):
                    direct.add(f.key)
        s.keys = set()
        work = list(direct)
        callers = mo.p.callers()
        while work:
            k = work.pop()
            if k in s.keys:
                continue
            s.keys.add(k)
            work += [g.key for kind, g, _ in callers.get(k, ())]


class EngineMachine(Base):
    def __init__(s, mo, to, stop, flow):
        super().__init__(mo)
        s.to, s.stop, s.flow = to, stop, flow

    def inline(s, f, c, g):
        if g.key in s.to.done or g.key in s.stop or g.key not in s.to.keys:
            return False
        return bool(mut_params(g) & set(s.mo.fields))

    def call(s, f, c, facts):
        add = set()
        for g in s.p.targets(c.callee) if c.callee else []:
            if g.key in s.to.done:
                add |= {("E", k) for k in s.to.done[g.key]}
        for kind, k, _ in s.effects(f, c):
            if k in s.to.places and k[0] == s.mo.engine:
                if kind in "ER":
                    add.add(("E", k))
                elif ("E", k) not in facts:
                    add.add(("EARLY", k))
        return (add, ()) if add else None

    def write(s, f, st, facts):
        pl = st[1]
        for e in reversed(pl[1:]):
            if e != "*" and e[0] == "f" and len(e) > 2 and (e[2], e[1]) in s.to.places and e == pl[-1]:
                return ({("E", (e[2], e[1]))}, ())
        return None

    def edge(s, f, term, outcome, facts):
        add = set()
        if term[0] == "disc":
            if outcome in ("None", "Err"):
                b = s.base(peel(term[1]))
                if b is not None and b[0] in s.to.places:
                    add.add(("E", b[0]))
        else:
            t = peel(term)
            if t[0] == "call" and t[1].startswith(STD):
                l = t[1].rsplit("::", 1)[-1]
                if l in ("contains_key", "is_none", "is_some", "is_empty") and outcome == (l in ("is_none", "is_empty")):
                    b = s.base(t)
                    if b is not None and b[0] in s.to.places:
                        add.add(("E", b[0]))
        if s.flow is not None and len(s.x.stack) == 1:
            m = s.flow.implied(f, term[1] if term[0] == "disc" else term, outcome)
            if m and m > 0:
                add |= {("G", a) for a in s.flow.names(m)}
        return (add, ()) if add else None


# ------------------------------------------------------------------ which fields carry versions
class Versions:
    def __init__(s, ctx, mo):
        p = mo.p
        s.file = s.snap = None
        for a in p.adts:
            if a.endswith("::SourceFile"):
                s.file = a
            if a.endswith("::SourceFileSnapshot"):
                s.snap = a
        ctx.need(s.file and s.snap, "the registered source file or the snapshot type was not found")
        s.snapfield = s.filefield = None
        for f in p.fns.values():
            for b in f.bb:
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and st[2][2] == s.snap:
                        for n, o in zip(st[2][4], st[2][5]):
                            for x in walk(f.op_term(o)):
                                if x[0] == "field" and x[3] == s.file and mo.adt_fields(s.file).get(x[2]) == "u64":
                                    s.snapfield, s.filefield = n, x[2]
        ctx.need(s.snapfield, "no snapshot is taken from a registered file's revision")


class SnapSpec(Spec):
    atoms = ["CURRENT"]

    def __init__(s, p, v):
        s.p, s.v = p, v

    def deep(s, t, pred, d=0):
        for x in walk(s.p.resolve_up(t)):
            if pred(x):
                return True
            if x[0] == "agg" and x[1] == "closure" and x[2] in s.p.fns and d < 3:
                if any(s.deep(r, pred, d + 1) for r in ret_terms(s.p, s.p.fns[x[2]])):
                    return True
            if x[0] == "var" and d < 3:
                f = s.p.fns[x[1]]
                ds = f.defs().get(x[2], [])
                if len(ds) == 1 and any(y == x for y in [x]):
                    bi, k, pl, ln = ds[0]
                    y = f.rv_term(pl, 1) if k == "rv" else f.call_term(pl, 1, bi)
                    if y != x and s.deep(y, pred, d + 1):
                        return True
        return False

    def cmp(s, fn, op, a, b):
        if op != "Eq":
            return ()
        v = s.v

        def issnap(x):
            return x[0] == "field" and x[3] == v.snap and x[2] == v.snapfield or \
                x[0] == "arg" and SNAP.search(s.p.fns[x[1]].ty(x[2]) or "")

        def isfile(x):
            if x[0] == "field":
                return x[3] == v.file and x[2] == v.filefield
            if x[0] == "call" and x[3][0] in s.p.fns and x[3][1] >= 0:
                return any(SNAP.search(g.ty(0) or "") for g in call_targets(s.p, x))
            return False
        pa, pb = s.p.resolve_up(a), s.p.resolve_up(b)
        # the snapshot's other parts do not say how old the text is
        for x, y in ((pa, pb), (pb, pa)):
            z = peel(x)
            if z[0] == "field" and z[3] == v.snap and z[2] != v.snapfield:
                return ()
            if s.deep(x, issnap) and s.deep(y, isfile):
                return ("CURRENT",)
        return ()


class SameSpec(Spec):
    """the fields of the registered file found equal to the new ones"""

    def __init__(s, p, v, names):
        s.p, s.v = p, v
        s.atoms = ["EQ:" + n for n in names]

    def cmp(s, fn, op, a, b):
        if op != "Eq":
            return ()
        x = peel(a)
        while x[0] in ("some", "down"):
            x = peel(x[1])
        if x[0] == "field" and x[3] == s.v.file and "EQ:" + x[2] in s.atoms:
            y = peel(b)
            if not (y[0] == "field" and y[3] == s.v.file and y[2] != x[2]):
                return ("EQ:" + x[2],)
        return ()


def passes_of(ctx, mo):
    """functions of the engine that add to the store of resolved references (the passes of a resolution)"""
    p = mo.p
    ref = [s for s in mo.stores if any("ReferenceFact" in t for t in mo.fields[s].values())]
    ctx.need(len(ref) == 1, "the store of resolved references was not found")
    ref = ref[0]
    adders = set()
    for f in p.fns.values():
        if f.kind == "fn" and ref in mut_params(f) and role(mo, ref, f)[1]:
            adders.add(f.key)
    ps = [f for f in p.fns.values() if f.kind == "fn" and mo.engine in mut_params(f)
          and any(g.key in adders and k == "call" for h in [f] + f.children for k, g, _ in p.out_edges(h))]
    return ref, ps


def whole(ctx, mo, done, v, ref, passes):
    p = mo.p
    # stores rewritten by every resolution hold nothing of their own
    dn = {k: {o for o in own if o[0] != ref} for k, own in done.items()}
    dn = {k: own for k, own in dn.items() if own}
    to = Touch(mo, dn)
    stop = {f.key for f in passes}
    callers = p.callers()
    work = list(stop)
    resolve = set(stop)
    commit = [f for f in p.fns.values() if f.kind == "fn" and mo.engine in mut_params(f) and by_value(f, FACTS) and f.key in to.keys]
    ctx.need(commit, "no function replaces a file's facts")
    ck = {f.key for f in commit}
    while work:
        k = work.pop()
        for kind, g, _ in callers.get(k, ()):
            if g.key not in resolve and g.key not in ck and g.kind == "fn" and mo.engine in mut_params(g):
                resolve.add(g.key)
                work.append(g.key)
    n = 0
    called = {g.key for f in commit for h in [f] + f.children for _, g, _ in p.out_edges(h)}
    commit = [f for f in commit if f.pub or f.key not in called]
    for f in sorted(commit, key=lambda f: f.name):
        snap = any(SNAP.search(t) for t in param_tys(f))
        m = EngineMachine(mo, to, resolve, ctx._snapflow)
        try:
            ends = [e for e in SX(p, m).run(f) if e.kind == "ret"]
        except TooBig:
            ctx.notes.append(f"{f.name}: too many paths to enumerate, not decided")
            continue
        n += 1
        for k in sorted(to.places):
            what = f"{k[0].rsplit('::', 1)[-1]}.{k[1]}"
            miss = [e for e in ends if ("E", k) not in e.facts and not (snap and not any(x[0] == "E" for x in e.facts))]
            early = [e for e in ends if ("EARLY", k) in e.facts]
            if miss or early:
                e = (miss or early)[0]
                ctx.bad("whole", f"{f.name}:{k[0].rsplit('::', 1)[-1]}.{k[1]}",
                        f"{f.name} can finish with the file's earlier entries still in {what}", f"{f.file}:{e.line or f.line}")
            else:
                ctx.ok("whole", f"{f.name} replaces {what} on each path", f"{f.file}:{f.line}")
        if snap:
            late = [e for e in ends if any(x[0] == "E" for x in e.facts) and ("G", "CURRENT") not in e.facts]
            if late:
                ctx.bad("version", f"{f.name}:guard", f"{f.name} stores results without finding the text they were taken from still current", f"{f.file}:{late[0].line or f.line}")
            else:
                ctx.ok("version", f"{f.name} stores results only for the text they were taken from", f"{f.file}:{f.line}")
    ctx.need(n >= 1, "no replacement of a file's facts could be decided")
    return to


def version(ctx, mo, v):
    p = mo.p
    eng = mo.engine
    sites = []
    for f in p.fns.values():
        for bi, b in enumerate(f.bb):
            if b.get("c"):
                continue
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and st[2][2] == v.file:
                    sites.append((f, bi, st))
    sites = [x for x in sites if not x[0].name.endswith("::clone")]
    ctx.need(sites, "no registration of a source file found")
    conditional(ctx, mo, v, sites)
    names = [n for n in mo.adt_fields(v.file) if n != v.filefield and not FILE.search(mo.adt_fields(v.file)[n])]
    same = Flow(p, SameSpec(p, v, names))
    for f, bi, st in sites:
        rev = dict(zip(st[2][4], st[2][5]))[v.filefield]
        t = peel(f.op_term(rev))
        while t[0] in ("some", "down"):
            t = peel(t[1])
        fresh = None
        if t[0] == "field" and t[3] == eng:
            fresh = (t[3], t[2])
        elif t[0] in ("arg", "call") and has_engine_u64(p, mo, t):
            fresh = "helper"
        if fresh is None:
            if touches_engine(p, mo, f, t):
                ctx.notes.append(f"{f.name}: revision of a registered file comes from {t[0]}, not decided")
            else:
                ctx.bad("version", f"{f.name}:revision", f"{f.name} registers a text without a revision of its own", f"{f.file}:{st[3]}")
            continue
        if fresh != "helper":
            m = Bump(mo, fresh)
            ends = SX(p, m).run(f)
            at = [e for e in ends if e.kind == "call" and e.fn.key == f.key] 
            stale = m.stale(f, bi, ends)
            if stale:
                ctx.bad("version", f"{f.name}:revision", f"{f.name} can register a text under a revision an earlier text had", f"{f.file}:{st[3]}")
            else:
                ctx.ok("version", f"{f.name}: the revision is advanced before it is given to a text", f"{f.file}:{st[3]}")
        # leaving the earlier registration in place needs every part to be equal
        m = Reg(mo, v, same)
        try:
            ends = [e for e in SX(p, m).run(f) if e.kind == "ret"]
        except TooBig:
            ctx.notes.append(f"{f.name}: too many paths, not decided")
            continue
        if not any("INS" in e.facts for e in ends):
            continue
        bad = None
        for e in ends:
            if "INS" not in e.facts:
                lack = [n for n in names if "EQ:" + n not in e.facts]
                if lack:
                    bad = (e, lack)
        if bad:
            ctx.bad("version", f"{f.name}:unchanged", f"{f.name} can keep the earlier registration although the {', '.join(bad[1])} may differ", f"{f.file}:{bad[0].line or f.line}")
        else:
            ctx.ok("version", f"{f.name}: the earlier registration stays only if {', '.join(names)} are equal", f"{f.file}:{f.line}")


def touches_engine(p, mo, f, t, d=0):
    """may the value come from a counter of the engine?"""
    for x in walk(p.resolve_up(t)):
        if x[0] == "field" and x[3] == mo.engine:
            return True
        if d > 5:
            return False
        if x[0] == "arg":
            from vals import arg_terms
            r = arg_terms(p, x[1], x[2])
            if any(touches_engine(p, mo, g, y, d + 1) for g, _, y in r or () if isinstance(y, tuple)):
                return True
        if x[0] == "var":
            g = p.fns[x[1]]
            for bi, k, pl, ln in g.defs().get(x[2], []):
                y = g.rv_term(pl, 1) if k == "rv" else g.call_term(pl, 1, bi)
                if not any(z == x for z in walk(y)) and touches_engine(p, mo, g, y, d + 1):
                    return True
        if x[0] == "call" and any(touches_engine(p, mo, g, r, d + 1) for g in call_targets(p, x) for r in ret_terms(p, g)):
            return True
    return False


def conditional(ctx, mo, v, sites):
    """a text registered on behalf of a snapshot replaces nothing newer"""
    p = mo.p
    reg = {f.key for f, _, _ in sites}
    work = list(reg)
    while work:
        for _, g, _ in p.callers().get(work.pop(), ()):
            if g.key not in reg and mo.engine in mut_params(g) and not any(SNAP.search(t) for t in param_tys(g)):
                reg.add(g.key)
                work.append(g.key)
    fl = ctx._snapflow
    for f in p.fns.values():
        if f.kind != "fn" or mo.engine not in mut_params(f) or not any(SNAP.search(t) for t in param_tys(f)):
            continue
        cs = [c for c in f.calls() if any(g.key in reg for g in p.targets(c.callee))]
        if not cs:
            continue
        fl.entries({f.key}, {f.key})
        for c in cs:
            m = fl.facts_before_call(c)
            if m is not None and m != FULL and not m & fl.bit["CURRENT"]:
                ctx.bad("version", f"{f.name}:conditional", f"{f.name} registers a text although the one it was meant to follow may be gone", c.loc())
            else:
                ctx.ok("version", f"{f.name} registers a text only on top of the one it was taken from", c.loc())


def has_engine_u64(p, mo, t):
    return any(x[0] == "field" and x[3] == mo.engine and mo.fields[mo.engine].get(x[2]) == "u64" for x in walk(t)) or \
        t[0] == "call" and any(any(x[0] == "field" and x[3] == mo.engine for r in ret_terms(p, g) for x in walk(r)) for g in call_targets(p, t))


class Bump(Base):
    """has the counter been advanced since the last text was given one"""

    def __init__(s, mo, k):
        super().__init__(mo)
        s.k = k
        s.bad = set()

    def inline(s, f, c, g):
        return s.mo.engine in mut_params(g) and any(s.writes(h) for h in [g])

    def writes(s, g):
        return any(st[0] == "=" and any(e != "*" and e[0] == "f" and len(e) > 2 and (e[2], e[1]) == s.k for e in st[1][1:]) for b in g.bb for st in b["s"])

    def write(s, f, st, facts):
        if any(e != "*" and e[0] == "f" and len(e) > 2 and (e[2], e[1]) == s.k for e in st[1][1:]):
            t = f.rv_term(st[2], 1) if st[2][0] != "use" else f.op_term(st[2][1])
            if advances(s.p, f, t, s.k):
                return ({"B"}, ())
            return ((), {"B"})
        if st[2][0] == "agg" and st[2][1] == "adt" and st[2][2].endswith("::SourceFile"):
            if "B" not in facts:
                s.bad.add((f.key, st[3]))
            return ((), {"B"})
        return None

    def stale(s, f, bi, ends):
        return any(k == f.key for k, _ in s.bad)


def advances(p, f, t, k):
    """the new value is the old one plus at least one"""
    def grows(x):
        if x[0] == "call" and x[1].rsplit("::", 1)[-1] in ("checked_add", "saturating_add", "wrapping_add", "add", "overflowing_add", "strict_add") and len(x[2]) > 1:
            a, b = peel(x[2][0]), peel(x[2][1])
            return any(y[0] == "field" and (y[3], y[2]) == k for y in walk(a)) and b[0] == "const" and b[1] not in (0, None)
        if x[0] == "bin" and x[1].startswith("Add"):
            return any(y[0] == "field" and (y[3], y[2]) == k for z in x[2:4] for y in walk(z)) and any(peel(z)[0] == "const" and peel(z)[1] for z in x[2:4])
        return False
    for x in walk(t):
        if grows(x):
            return True
        if x[0] == "var":
            g = p.fns[x[1]]
            for bi, kind, pl, ln in g.defs().get(x[2], []):
                u = g.rv_term(pl, 1) if kind == "rv" else g.call_term(pl, 1, bi)
                if any(grows(y) for y in walk(u)):
                    return True
    return False


class Reg(Base):
    def __init__(s, mo, v, flow):
        super().__init__(mo)
        s.v, s.flow = v, flow

    def inline(s, f, c, g):
        return False

    def call(s, f, c, facts):
        if c.name.startswith(STD) and c.name.rsplit("::", 1)[-1] in ("insert", "or_insert", "or_insert_with", "insert_entry", "push"):
            if any(s.v.file in (f.ty(l) or "") for a in c.args if "p" in a for l in [a["p"][0]]) or \
                    any(x[0] == "agg" and x[2] == s.v.file for a in c.args for x in walk(f.op_term(a)) if len(x) > 2):
                return ({"INS"}, ())
        return None

    def write(s, f, st, facts):
        if "*" in st[1] and st[2][0] in ("use", "agg"):
            t = f.rv_term(st[2], 1)
            if any(len(x) > 2 and x[0] == "agg" and x[2] == s.v.file for x in walk(t)):
                return ({"INS"}, ())
        return None

    def edge(s, f, term, outcome, facts):
        m = s.flow.implied(f, term[1] if term[0] == "disc" else term, outcome)
        return (set(s.flow.names(m)), ()) if m and m > 0 else None


# ------------------------------------------------------------------ cached answers
class Fresh:
    """transducer over {N: cache empty, F: filled from the present graph, S: filled from an earlier graph}"""

    def __init__(s, ctx, mo):
        s.mo, s.p = mo, mo.p
        s.eng = mo.engine
        s.caches = [(s.eng, n) for n, t in mo.fields[s.eng].items() if "Mutex<" in t and "Option<" in t or re.search(r"(Once|Ref)?Cell<core::option|OnceLock<|OnceCell<", t)]
        s.graph = next((a for a in mo.stores if "nodes" in mo.fields[a] or any(x in mo.fields and x not in mo.stores and "Node" in x for t in mo.fields[a].values() for x in re.findall(r"[A-Za-z_][\w:]*::\w+", t))), None)
        ctx.need(s.graph, "the ancestry graph was not found")
        s.base = Base(mo)
        s.base.x = type("X", (), {"stack": ((None, 0),)})()
        s.sum = {}
        s.fillers = s.closure({f.key for f in s.p.fns.values() if s.fills(f)})
        s.mutators = s.graph_mutators()
        s.relevant = s.closure(s.mutators | {f.key for f in s.p.fns.values() if s.resets(f)}) | s.fillers

    def closure(s, keys):
        out, work = set(), list(keys)
        cs = s.p.callers()
        while work:
            k = work.pop()
            if k in out:
                continue
            out.add(k)
            work += [g.key for kind, g, _ in cs.get(k, ())]
        return out

    def cache_write(s, f, st):
        """which cache a statement stores into, and whether it empties it"""
        if st[0] != "=":
            return None
        pl = st[1]
        k = None
        for e in pl[1:]:
            if e != "*" and e[0] == "f" and len(e) > 2 and (e[2], e[1]) in s.caches:
                k = (e[2], e[1])
        if k is None and "*" in pl:
            b = s.of_cache(f.term(pl[0]))
            k = b
        if k is None:
            return None
        t = peel(f.rv_term(st[2], 1)) if st[2][0] != "use" else peel(f.op_term(st[2][1]))
        while t[0] == "call" and t[2] and t[1].endswith(("Mutex::new", "::new", "From::from", "Mutex::<R, T>::new")):
            t = peel(t[2][0])
        return k, (t[0] == "agg" and t[3] == "None" or t[0] == "call" and t[1].endswith("Default::default"))

    def of_cache(s, t):
        for x in walk(t):
            if x[0] == "field" and (x[3], x[2]) in s.caches:
                return (x[3], x[2])
        return None

    def cache_call(s, f, c):
        l = c.name.rsplit("::", 1)[-1]
        if not c.args or not c.name.startswith(STD):
            return None
        if l in ("take", "replace", "insert", "get_or_insert_with", "get_or_insert", "get_or_init", "set"):
            k = s.of_cache(f.op_term(c.args[0]))
            if k:
                if l == "take":
                    return k, True
                if l == "replace" and len(c.args) > 1:
                    t = peel(f.op_term(c.args[1]))
                    return k, t[0] == "agg" and t[3] == "None"
                return k, False
        return None

    def fills(s, f):
        for b in f.bb:
            if b.get("c"):
                continue
            for st in b["s"]:
                r = s.cache_write(f, st)
                if r and not r[1]:
                    return True
        return any((s.cache_call(f, c) or (0, True))[1] is False for c in f.calls())

    def resets(s, f):
        for b in f.bb:
            if b.get("c"):
                continue
            for st in b["s"]:
                r = s.cache_write(f, st)
                if r and r[1]:
                    return True
        return any((s.cache_call(f, c) or (0, False))[1] is True for c in f.calls())

    def graph_mutators(s):
        """functions taking the graph mutably that may change its nodes or edges"""
        keep = {}
        structural = {(s.graph, n) for n, t in s.mo.fields[s.graph].items() if n not in s.mo.owner_fields(s.graph) and s.nodeish(t)}
        node = {x for n, t in s.mo.fields[s.graph].items() for x in re.findall(r"[A-Za-z_][\w:]*::\w+", t) if x in s.mo.fields and x not in s.mo.stores}
        s.structural = structural
        out = set()
        for f in s.p.fns.values():
            if not ({s.graph} | node) & mut_params(f) and s.graph not in f.name.replace("::<impl ", ""):
                if not any(s.graph in t or any(n in t for n in node) for t in param_tys(f)):
                    continue
            hit = False
            for c in f.calls():
                for kind, k, _ in s.base.effects(f, c):
                    if k in structural or k[0] in node:
                        hit = True
            for b in f.bb:
                for st in b["s"]:
                    if st[0] == "=" and any(e != "*" and e[0] == "f" and len(e) > 2 and ((e[2], e[1]) in structural or e[2] in node) for e in st[1][1:]):
                        hit = True
            if hit:
                out.add(f.key)
        # helpers of the graph that call them
        work = list(out)
        cs = s.p.callers()
        while work:
            k = work.pop()
            for kind, g, _ in cs.get(k, ()):
                if g.key not in out and (s.graph in mut_params(g) or g.kind == "closure" and g.key not in out and s.graph in s.p.fns[k].name):
                    out.add(g.key)
                    work.append(g.key)
        return out

    def nodeish(s, t):
        return any(x in s.mo.fields and x not in s.mo.stores for x in re.findall(r"[A-Za-z_][\w:]*::\w+", t)) or "EdgeFact" in t and "Unresolved" not in t

    def step(s, states, what):
        if what == "mut":
            return frozenset({"F": "S"}.get(x, x) for x in states)
        if what == "reset":
            return frozenset({"N"})
        if what == "fill":
            return frozenset("F" if x == "N" else x for x in states) | states
        return states

    def summary(s, f, cache, start, stack=()):
        """states at return, for a cache field"""
        key = (f.key, cache, start)
        if key in s.sum:
            return s.sum[key]
        s.sum[key] = frozenset()
        ins = {0: frozenset({start})}
        work = [0]
        out = frozenset()
        calls = {c.bb: c for c in f.calls()}
        while work:
            b = work.pop()
            st = ins[b]
            blk = f.bb[b]
            if blk.get("c"):
                continue
            for x in blk["s"]:
                if x[0] == "=":
                    r = s.cache_write(f, x)
                    if r and r[0] == cache:
                        st = s.step(st, "reset" if r[1] else "fill")
                    elif f.key not in s.mutators and any(e != "*" and e[0] == "f" and len(e) > 2 and e[2] == s.eng and s.mo.fields[s.eng].get(e[1]) == s.graph and e == x[1][-1] for e in x[1][1:]):
                        st = s.step(st, "mut")
            if b in calls:
                st = s.call(f, calls[b], cache, st, stack)
            if blk["t"][0] == "ret":
                out |= st
            for n in term_succ(blk["t"]):
                m = ins.get(n, frozenset()) | st
                if m != ins.get(n) and m:
                    ins[n] = m
                    work.append(n)
        if key not in [k for k in stack]:
            s.sum[key] = out
        return out

    def call(s, f, c, cache, st, stack):
        r = s.cache_call(f, c)
        if r and r[0] == cache:
            return s.step(st, "reset" if r[1] else "fill")
        for g in [x for x in (s.p.targets(c.callee) if c.callee else [])] + closures(f, c):
            if g.key in s.mutators:
                st = s.step(st, "mut")
                if s.eng not in mut_params(g):
                    continue
            if g.key in s.relevant and len(stack) < 12 and g.key not in [k[0] for k in stack]:
                nx = frozenset()
                for x in st:
                    nx |= s.summary(g, cache, x, stack + ((f.key, cache, x),))
                st = nx or st
        return st


def fresh(ctx, mo):
    p = mo.p
    fr = Fresh(ctx, mo)
    ctx.need(fr.mutators, "nothing changes the ancestry graph")
    roots = [f for f in p.fns.values() if f.kind == "fn" and mo.engine in mut_params(f) and f.key in fr.closure(fr.mutators)]
    inner = set()
    for f in roots:
        for k, g, _ in p.out_edges(f):
            if k == "call":
                inner.add(g.key)
    outer = [f for f in roots if public(f) or f.key not in inner]
    ctx.need(outer, "no function of the engine changes the ancestry graph")
    for cache in fr.caches:
        for f in sorted(outer, key=lambda f: f.name):
            r = fr.summary(f, cache, "F")
            if "S" in r:
                ctx.bad("fresh", f"{f.name}:{cache[1]}", f"{f.name} changes the ancestry graph and can leave {cache[1]} computed from the earlier one", f"{f.file}:{f.line}")
            else:
                ctx.ok("fresh", f"{f.name} leaves no {cache[1]} of an earlier graph", f"{f.file}:{f.line}")
    # queries cached outside are told apart by the revision
    rev = revision_field(mo, fr)
    ctx.need(rev is not None, "no revision identifies cached query answers")
    for f in sorted(outer, key=lambda f: f.name):
        m = Must(mo, fr, rev)
        st = m.summary(f)
        if st is None:
            continue
        if "D" in st:
            ctx.bad("fresh", f"{f.name}:{rev[1]}", f"{f.name} can change the ancestry graph without advancing {rev[1]}, which tells cached answers apart", f"{f.file}:{f.line}")
        else:
            ctx.ok("fresh", f"{f.name} advances {rev[1]} when the ancestry graph changes", f"{f.file}:{f.line}")
    return fr


def public(f):
    return bool(f.pub)


def revision_field(mo, fr):
    """u64 of the engine a function hands out together with the engine's identity as a cache key"""
    p = mo.p
    best = None
    for f in p.fns.values():
        if f.kind != "fn" or mo.engine not in ref_params(f) or not (f.ty(0) or "").startswith("(u64, u64"):
            continue
        for r in ret_terms(p, f):
            for x in walk(r):
                if x[0] == "field" and x[3] == mo.engine and mo.fields[mo.engine].get(x[2]) == "u64":
                    k = (x[3], x[2])
                    if any(written_outside_new(g, k) for g in p.fns.values() if mo.engine in mut_params(g)):
                        best = k
    return best


def written_outside_new(g, k):
    return any(st[0] == "=" and any(e != "*" and e[0] == "f" and len(e) > 2 and (e[2], e[1]) == k for e in st[1][1:]) for b in g.bb for st in b["s"])


class Must:
    """C: nothing changed; B: revision advanced (before or after); D: graph changed, revision not advanced"""

    def __init__(s, mo, fr, k):
        s.mo, s.p, s.fr, s.k = mo, mo.p, fr, k
        s.memo = {}
        s.rel = fr.closure(fr.mutators | {f.key for f in s.p.fns.values() if written_outside_new(f, k)})

    def summary(s, f, start="C", stack=()):
        key = (f.key, start)
        if key in s.memo:
            return s.memo[key]
        s.memo[key] = frozenset()
        ins, work, out = {0: frozenset({start})}, [0], frozenset()
        calls = {c.bb: c for c in f.calls()}
        while work:
            b = work.pop()
            st, blk = ins[b], f.bb[b]
            if blk.get("c"):
                continue
            for x in blk["s"]:
                if x[0] == "=" and any(e != "*" and e[0] == "f" and len(e) > 2 and (e[2], e[1]) == s.k for e in x[1][1:]):
                    t = f.rv_term(x[2], 1) if x[2][0] != "use" else f.op_term(x[2][1])
                    st = frozenset({"B"}) if advances(s.p, f, t, s.k) else st
            if b in calls:
                c = calls[b]
                for g in (s.p.targets(c.callee) if c.callee else []) + closures(f, c):
                    if g.key in s.fr.mutators and s.mo.engine not in mut_params(g):
                        st = frozenset("D" if y in "CD" else y for y in st)
                    elif g.key in s.rel and g.key not in stack and len(stack) < 10 and s.mo.engine in mut_params(g):
                        nx = frozenset()
                        for y in st:
                            nx |= s.summary(g, y, stack + (f.key,))
                        st = nx or st
            if blk["t"][0] == "ret":
                out |= st
            for n in term_succ(blk["t"]):
                m = ins.get(n, frozenset()) | st
                if m != ins.get(n):
                    ins[n] = m
                    work.append(n)
        s.memo[key] = out
        return out


# ------------------------------------------------------------------ resolving again
def forward(f, gen, start=frozenset(), must=True):
    """facts before each call and at return; gen(block index, statement or Call) -> (add, remove)"""
    ins = {0: frozenset(start)}
    work = [0]
    calls = {c.bb: c for c in f.calls()}
    before, rets = {}, []
    while work:
        b = work.pop()
        cur = set(ins[b])
        blk = f.bb[b]
        if blk.get("c"):
            continue
        for x in blk["s"]:
            if x[0] == "=":
                r = gen(f, x, None)
                if r:
                    cur = (cur - set(r[1])) | set(r[0])
        if b in calls:
            before[b] = frozenset(cur)
            r = gen(f, None, calls[b])
            if r:
                cur = (cur - set(r[1])) | set(r[0])
        for n in term_succ(blk["t"]):
            o = ins.get(n)
            m = frozenset(cur) if o is None else (o & cur if must else o | cur)
            if m != o:
                ins[n] = m
                work.append(n)
    for b, blk in enumerate(f.bb):
        if blk["t"][0] == "ret" and b in ins:
            cur = set(ins[b])
            for x in blk["s"]:
                if x[0] == "=":
                    r = gen(f, x, None)
                    if r:
                        cur = (cur - set(r[1])) | set(r[0])
            rets.append(frozenset(cur))
    return before, rets


def role(mo, ref, g):
    """what a function of the store does: erases (whole or per file), adds"""
    b = Base(mo)
    b.x = type("X", (), {"stack": ((None, 0),)})()
    er = ins = False
    for k in mo.p.reach([g]):
        h = mo.p.fns[k]
        for c in h.calls():
            for kind, kk, _ in b.effects(h, c):
                if kk[0] == ref:
                    er |= kind in "ER"
                    ins |= kind in "IR"
    return er, ins


def again(ctx, mo, ref, passes):
    p = mo.p
    fns = {f.key: f for f in p.fns.values() if f.kind == "fn" and ref in mut_params(f)}
    roles = {k: role(mo, ref, g) for k, g in fns.items()}
    for f in passes:
        def gen(f, st, c, ref=ref):
            if c is not None:
                for g in (p.targets(c.callee) if c.callee else []):
                    if g.key in fns and roles[g.key][0]:
                        return ({"C"}, ())
                if c.name in ("core::mem::take", "core::mem::replace") and ref in (f.ty(c.dest[0]) or ""):
                    return ({"C"}, ())
            elif st is not None and st[1][1:] and st[1][-1] != "*" and st[1][-1][0] == "f" and ref in field_ty(mo, st[1][-1]):
                return ({"C"}, ())
            return None
        before, rets = forward(f, gen)
        bad = False
        for c in f.calls():
            for g in (p.targets(c.callee) if c.callee else []):
                if g.key in fns and roles[g.key] == (False, True) and "C" not in before.get(c.bb, ("C",)):
                    bad = True
                    ctx.bad("again", f"{f.name}:order", f"{f.name} adds resolved references to those of the previous resolution", c.loc())
        if any("C" not in r for r in rets):
            bad = True
            ctx.bad("again", f"{f.name}:references", f"{f.name} can finish with references of the previous resolution kept", f"{f.file}:{f.line}")
        if not bad:
            ctx.ok("again", f"{f.name} drops the references of the previous resolution first", f"{f.file}:{f.line}")
    # a store taken out for the time of a pass is put back
    for f in p.fns.values():
        if f.kind != "fn" or mo.engine not in mut_params(f):
            continue
        outs = {}
        for c in f.calls():
            if c.name == "core::mem::take" and c.args:
                t = peel(f.op_term(c.args[0]))
                if t[0] == "field" and (t[3], t[2]) and t[3] in mo.fields and t[2] in mo.fields[t[3]] and mo.fields[t[3]][t[2]].split("<")[0] in mo.stores:
                    outs[c.bb] = (t[3], t[2])
        if not outs:
            continue

        def gen2(f, st, c):
            if c is not None:
                if c.bb in outs:
                    return ({outs[c.bb]}, ())
                for g in (p.targets(c.callee) if c.callee else []):
                    k = {x for x in outs.values() if puts_back(p, g, x)}
                    if k:
                        return ((), k)
            elif st is not None:
                for e in st[1][1:]:
                    if e != "*" and e[0] == "f" and len(e) > 2 and (e[2], e[1]) in outs.values():
                        return ((), {(e[2], e[1])})
            return None
        _, rets = forward(f, gen2, must=False)
        for k in sorted(set(outs.values())):
            nm = f"{k[0].rsplit('::', 1)[-1]}.{k[1]}"
            if any(k in r for r in rets):
                ctx.bad("again", f"{f.name}:{nm}", f"{f.name} takes {nm} out and can return without putting it back", f"{f.file}:{f.line}")
            else:
                ctx.ok("again", f"{f.name} puts {nm} back", f"{f.file}:{f.line}")
    diagnostics(ctx, mo, passes)


def field_ty(mo, e):
    return mo.fields.get(e[2], {}).get(e[1], "") if len(e) > 2 else ""


def puts_back(p, g, k):
    return any(st[0] == "=" and any(e != "*" and e[0] == "f" and len(e) > 2 and (e[2], e[1]) == k for e in st[1][1:]) for b in g.bb for st in b["s"])


def strs(f):
    """string constants of a function"""
    out = set()
    for b in f.bb:
        for st in b["s"]:
            if st[0] == "=":
                for t in walk(f.rv_term(st[2], 1)):
                    if t[0] == "const" and isinstance(t[1], str):
                        out |= {t[1]} | set(re.findall(r'"([^"]+)"', t[1]))
        if b["t"][0] == "call":
            for a in b["t"][2]:
                for t in walk(f.op_term(a)):
                    if t[0] == "const" and isinstance(t[1], str):
                        out |= {t[1]} | set(re.findall(r'"([^"]+)"', t[1]))
    return out


def diagnostics(ctx, mo, passes):
    """codes a pass emits are codes it first removes"""
    p = mo.p
    dstore = [s for s in mo.stores if any("DiagnosticFact" in t for t in mo.fields[s].values())]
    if len(dstore) != 1:
        ctx.notes.append("store of diagnostics not identified")
        return
    fact = next(x for t in mo.fields[dstore[0]].values() for x in re.findall(r"[A-Za-z_][\w:]*::DiagnosticFact\b", t))
    for f in passes:
        near = p.reach([f], stop=lambda g: not any(mo.engine in t for t in param_tys(g)) and g.kind == "fn" and not any("DiagnosticFact" in t for t in param_tys(g)))
        emitted, unknown = {}, 0
        for k in near:
            g = p.fns[k]
            for c in g.calls():
                if c.callee is None or not any(h.ty(0) == fact for h in p.targets(c.callee) if h.key in p.fns):
                    continue
                hs = [h for h in p.targets(c.callee) if h.ty(0) == fact]
                ix = code_param(p, hs[0], fact)
                if ix is None or ix - 1 >= len(c.args):
                    continue
                t = peel(g.op_term(c.args[ix - 1]))
                for v in consts_of(p, g, t):
                    if v is None:
                        unknown += 1
                    else:
                        emitted.setdefault(v, c)
        if not emitted:
            continue
        tests = set()
        for g in [f] + [p.fns[k] for k in p.reach([f], stop=lambda g: g.kind == "fn" and g.key != f.key and not any("DiagnosticFact" in t for t in param_tys(g)))]:
            if tests_code(p, g, fact):
                tests |= strs(g)
                for k2, h, _ in p.out_edges(g):
                    if k2 == "call" and len(h.bb) < 12:
                        tests |= strs(h)
        if not tests:
            ctx.notes.append(f"{f.name}: how earlier diagnostics are recognised was not identified")
            continue
        for v, c in sorted(emitted.items()):
            if v in tests:
                ctx.ok("again", f"{f.name} removes earlier `{v}` diagnostics", c.loc())
            else:
                ctx.bad("again", f"{f.name}:{v}", f"{f.name} reports `{v}` again without removing what the previous resolution reported", c.loc())


def code_param(p, h, fact):
    """parameter of a constructor that becomes the diagnostic's code"""
    for b in h.bb:
        for st in b["s"]:
            if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and st[2][2] == fact:
                o = dict(zip(st[2][4], st[2][5])).get("code")
                if o is None:
                    return None
                for x in walk(h.op_term(o)):
                    if x[0] == "arg" and x[1] == h.key:
                        return x[2]
    return None


def consts_of(p, g, t, d=0):
    t = peel(t)
    if t[0] == "const" and isinstance(t[1], str):
        return [t[1]]
    if t[0] == "arg" and d < 4:
        from vals import arg_terms
        r = arg_terms(p, t[1], t[2])
        return [v for _, _, y in (r or []) for v in consts_of(p, g, y, d + 1)] or [None]
    if t[0] == "var" and d < 4:
        f = p.fns[t[1]]
        out = []
        for bi, k, pl, ln in f.defs().get(t[2], []):
            out += consts_of(p, f, f.rv_term(pl, 1) if k == "rv" else f.call_term(pl, 1, bi), d + 1)
        return out or [None]
    return [None]


def tests_code(p, g, fact):
    for b in g.bb:
        for st in b["s"]:
            if st[0] == "=":
                for x in walk(f_rv(g, st)):
                    if x[0] == "field" and x[3] == fact and x[2] == "code":
                        return True
        if b["t"][0] == "call":
            for a in b["t"][2]:
                for x in walk(g.op_term(a)):
                    if x[0] == "field" and x[3] == fact and x[2] == "code":
                        return True
    return False


def f_rv(g, st):
    return g.rv_term(st[2], 1)


def run(ctx, mo, done):
    p = mo.p
    v = Versions(ctx, mo)
    ctx.rule("whole", "every path on which a file's facts are replaced erases the file from every per-file place of the engine and its stores")
    ctx.rule("version", "a registered text gets a revision of its own unless it equals the earlier one in every part, and stored results are those of the current revision")
    ctx.rule("fresh", "whatever changes the ancestry graph leaves no cached answer computed before, and advances the revision that tells outside caches apart")
    ctx.rule("again", "a resolution drops the references and diagnostics of the previous one and puts back what it takes out")
    ref, passes = passes_of(ctx, mo)
    ctx.need(passes, "no resolution pass found")
    ctx._snapflow = Flow(p, SnapSpec(p, v))
    whole(ctx, mo, done, v, ref, passes)
    version(ctx, mo, v)
    fresh(ctx, mo)
    again(ctx, mo, ref, passes)
