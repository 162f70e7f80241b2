"""Indexing runs: only the current, unfinished run can change a project's status; a superseded one stops."""
import re
from core import base_fn
from flow import last
from ir import peel, walk
from paths import Explorer, Machine, TooBig
from rules.admission import LIB, fields_of, lib, put
from vals import call_targets, mentions

TERMINAL = {"Ready", "Failed", "Cancelled"}
TOKEN = "CancellationToken"


class Roles:
    """the status state, found by its shape: a token, a phase enum with the three final phases, counters"""

    def __init__(s, p):
        s.p = p
        s.phases = {a["n"] for a in p.crates[LIB]["adts"] if TERMINAL <= set((p.variants(a["n"]) or {}).values())}
        s.states, s.runs, s.holders = {}, {}, set()
        for a in p.crates[LIB]["adts"]:
            fs = fields_of(p, a["n"])
            tok = [n for n, t in fs if t.endswith(TOKEN)]
            ph = [n for n, t in fs if t in s.phases]
            u = [n for n, t in fs if t == "u64"]
            if tok and ph and u:
                s.states[a["n"]] = (tok[0], ph[0], u, dict(fs)[ph[0]])
            elif tok and u and len(fs) <= 4:
                s.runs[a["n"]] = (tok[0], u)
        for a in p.crates[LIB]["adts"]:
            if any("Mutex<" in t and any(x in t for x in s.states) for n, t in fields_of(p, a["n"])):
                s.holders.add(a["n"])


def sfield(R, t):
    """(state type, field) if the term is a field of the status state"""
    t = peel(t)
    if t[0] == "field" and len(t) > 3:
        for a in R:
            if a == str(t[3]):
                return a, t[2]
    return None


def inside(R, t):
    return any(sfield(R, x) for x in walk(t) if x[0] == "field")


def truth(p, g, variants):
    """variants for which the predicate g(enum) -> bool can be true; None if it cannot be decided"""
    out = set()
    for v in variants:
        try:
            es = [e for e in Explorer(p, Machine()).run(g, know=((((1, 1, "#")), v),)) if e.kind == "ret"]
        except TooBig:
            return None
        if not es or any(e.ret is None for e in es):
            return None
        if any(e.ret is True for e in es):
            out.add(v)
    return out


class M(Machine):
    def __init__(s, p, R):
        s.p, s.R = p, R
        s.S = set(R.states)
        s.mods = {x.rsplit("::", 1)[0] + "::" for x in R.states}
        s.log = []
        s.pred = {}

    def gens(s, c):
        return " ".join((c.callee.generics or [])) + " " + (c.callee.self_ty or "") if c.callee else ""

    def state_of(s, ty):
        return next((a for a in s.S if a in ty), None)

    def inline(s, f, c, g):
        if g.crate != LIB or not any(g.name.startswith(m) for m in s.mods):
            return False
        args = [g.ty(i + 1) or "" for i in range(g.nargs)]
        return any(s.state_of(t) or any(h in t for h in s.R.holders) for t in args) and not any("Snapshot" in t for t in args)

    # -- the lock
    def release(s, facts):
        bad = []
        raw = {x[4:] for x in facts if x.startswith("raw:")}
        if raw and "newgen" not in facts:
            bad.append("BAD:fence:" + sorted(raw)[0])
        if "touch" in facts and "seq" not in facts:
            bad.append("BAD:seq:")
        if "ph:Cancelled" in facts and "tokcancel" not in facts:
            bad.append("BAD:token:")
        if "ph:Failed" in facts and "reason" not in facts:
            bad.append("BAD:reason:")
        if "newgen" in facts:
            if "tokcancel" not in facts:
                bad.append("BAD:supersede:")
            if "newtok" not in facts:
                bad.append("BAD:newtoken:")
            if "phinit" not in facts:
                bad.append("BAD:initial:")
        keep = {x for x in facts if x.startswith("BAD:")}
        return tuple(bad), tuple(x for x in facts if x not in keep and (x.startswith(("raw:", "ph:", "not:")) or x in (
            "cur", "live", "rank", "newgen", "touch", "seq", "tokcancel", "newtok", "phinit", "reason", "locked")))

    def drop(s, f, pl, facts):
        if len(pl) == 1 and re.match(r"[\w:]*Guard<", f.ty(pl[0]) or "") and s.state_of(f.ty(pl[0])):
            return s.release(facts)
        return None

    def call(s, f, c, facts):
        l = last(c.name)
        if re.search(r"Mutex.*::(lock|try_lock)$", c.name) and s.state_of(s.gens(c)):
            a, r = s.release(facts)
            return a + ("locked",), r
        if c.name in ("core::mem::drop", "core::mem::forget") and s.state_of(s.gens(c)) and "Guard" in s.gens(c):
            return s.release(facts)
        if l == "cancel" and TOKEN in c.name and c.args:
            x = sfield(s.S, s.p.resolve_up(c.arg(0)))
            if x and "newtok" not in facts:
                return ("tokcancel",), ()
            if any(y[0] == "call" and last(y[1]) in ("replace", "take") for y in walk(c.arg(0))):
                return ("tokcancel",), ()
        if c.name in ("core::mem::replace", "core::mem::take") and c.args:
            x = sfield(s.S, s.p.resolve_up(c.arg(0)))
            if x:
                return s.wrote(f, x, c.arg(1) if len(c.args) > 1 else ("unknown",), facts, c.line)
        if len(c.dest) > 1:
            x = s.place(f, c.dest)
            if x:
                return s.wrote(f, x, f.call_term(f.bb[c.bb]["t"], 0, c.bb), facts, c.line)
        return None

    def place(s, f, pl):
        for e in reversed(pl[1:]):
            if e != "*" and e[0] == "f" and len(e) > 2 and e[2] in s.S:
                return e[2], e[1]
        return None

    def write(s, f, st, facts):
        pl = st[1]
        if len(pl) == 2 and pl[1] == "*" and re.match(r"&mut ", f.ty(pl[0]) or ""):
            a = next((x for x in s.S if (f.ty(pl[0]) or "")[5:] == x), None)
            t = peel(f.rv_term(st[2]))
            if a and t[0] == "agg":
                add, rem = set(), set()
                for n, v in zip(t[4], t[5]):
                    e = s.wrote(f, (a, n), v, facts, st[3])
                    add |= set(e[0])
                    rem |= set(e[1])
                return tuple(add), tuple(rem)
        x = s.place(f, pl)
        return s.wrote(f, x, f.rv_term(st[2]), facts, st[3]) if x else None

    def wrote(s, f, x, v, facts, line):
        a, n = x
        tok, ph, us, _ = s.R.states[a]
        v = peel(v)
        add = set()
        rem = set()
        bump = mentions(s.p, v, lambda y: (y[0] == "bin" and y[1].startswith("Add") or y[0] == "call" and last(y[1]) in ("checked_add", "wrapping_add", "saturating_add"))
                        and any(sfield(s.S, z) == x for z in walk(y)), 2)
        if n == s.gen(a):
            add.add("newgen" if bump else "raw:" + n)
        elif n in us:
            if bump:
                add.add("seq")
            else:
                add.add("raw:" + n)
        else:
            if n == tok:
                new = any(y[0] == "call" and last(y[1]) in ("new", "default", "child_token") and TOKEN in y[1] for y in walk(v)) or v[0] == "var"
                add.add("newtok" if new else "raw:" + n)
                if not new:
                    add.add("raw:" + n)
            if not ("cur" in facts and "live" in facts):
                add.add("raw:" + n)
            if n == ph:
                k = v[3] if v[0] == "agg" else None
                add |= {"touch", f"ph:{k}"}
                if k is not None and k not in TERMINAL:
                    add.add("phinit")
                s.log.append(("phase", f, line, facts, k))
            elif re.search(r"Option<u64>|Option<.*String>|^u64$", dict(fields_of(s.p, a))[n]):
                add.add("touch")
                if "String" in dict(fields_of(s.p, a))[n] and (v[0] == "agg" and v[3] == "Some" or v[0] == "call"):
                    add.add("reason")
        return tuple(add), tuple(rem)

    def gen(s, a):
        """the counter a run remembers"""
        if not hasattr(s, "_gen"):
            s._gen = {}
            for f in lib(s.p):
                for b in f.bb:
                    for st in b["s"]:
                        if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and st[2][2] in s.R.runs:
                            for n, o in zip(st[2][4], st[2][5]):
                                x = sfield(s.S, f.op_term(o))
                                if x and x[1] in s.R.states[x[0]][2]:
                                    s._gen[x[0]] = x[1]
        return s._gen.get(a)

    # -- tests
    def edge(s, f, t, o, facts):
        if t[0] == "bin" and t[1] in ("Eq", "Ne"):
            for u, v in ((t[2], t[3]), (t[3], t[2])):
                x = sfield(s.S, u)
                if x and x[1] == s.gen(x[0]) and not inside(s.S, s.p.resolve_up(v)):
                    return (("cur",), ()) if o == (t[1] == "Eq") and "locked" in facts else ((), ("cur",))
        if t[0] == "bin" and t[1] in ("Ge", "Le", "Gt", "Lt"):
            a, b = peel(t[2]), peel(t[3])
            op = t[1]
            if op in ("Le", "Lt"):
                a, b, op = b, a, {"Le": "Ge", "Lt": "Gt"}[op]
            # a >= b or a > b
            ra, rb = s.ranks(a), s.ranks(b)
            if ra == "new" and rb == "old" and o is True:
                return ("rank",), ()
            if ra == "old" and rb == "new" and op == "Gt" and o is False:
                return ("rank",), ()
        if t[0] == "call" and isinstance(o, bool):
            g = next(iter(call_targets(s.p, t)), None)
            if g is not None and g.key in s.p.fns and len(t[2]) >= 1:
                x = sfield(s.S, t[2][0])
                if x and x[1] == s.R.states[x[0]][1]:
                    tr = s.truth(g, s.R.states[x[0]][3])
                    if tr is not None:
                        rest = tr if o else s.allv(s.R.states[x[0]][3]) - tr
                        return (("live",), ()) if not rest & TERMINAL and "locked" in facts else ((), ("live",))
            if t[1] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and len(t[2]) == 2:
                for u, v in ((t[2][0], t[2][1]), (t[2][1], t[2][0])):
                    x, v = sfield(s.S, u), peel(v)
                    if x and x[1] == s.R.states[x[0]][1] and v[0] == "agg" and v[3]:
                        if o == t[1].endswith("eq"):
                            return (("live",), ()) if v[3] not in TERMINAL and "locked" in facts else ((), ("live",))
                        fs = {f"not:{v[3]}"} | {y for y in facts if y.startswith("not:")}
                        return tuple(fs) + (("live",) if {"not:" + y for y in TERMINAL} <= fs and "locked" in facts else ()), ()
            if t[1].endswith("is_cancelled"):
                return (("uncancelled",), ()) if o is False else (("cancelled",), ())
        if t[0] == "disc":
            x = sfield(s.S, t[1])
            if x and x[1] == s.R.states[x[0]][1]:
                return (("live",), ()) if o not in TERMINAL and "locked" in facts else ((), ("live",))
        return None

    def edge_any(s, f, t, names, facts):
        x = sfield(s.S, t[1])
        if x and x[1] == s.R.states[x[0]][1]:
            return (("live",), ()) if not set(names) & TERMINAL and "locked" in facts else ((), ("live",))
        return None

    def ranks(s, t):
        t = peel(t)
        if t[0] == "call" and t[2] and call_targets(s.p, t) or t[0] in ("cast", "disc"):
            arg = t[2][0] if t[0] == "call" else t[1]
            return "old" if sfield(s.S, arg) else "new"
        return None

    def allv(s, enum):
        return set((s.p.variants(enum) or {}).values())

    def truth(s, g, enum):
        if g.key not in s.pred:
            s.pred[g.key] = truth(s.p, g, s.allv(enum))
        return s.pred[g.key]


class PredM(M):
    """the test itself: what was learnt under the lock still counts when it returns"""

    def release(s, facts):
        return (), ()


WHY = {"fence": "a report that does not belong to the current, unfinished run can change {0}",
       "seq": "the status changes without a new sequence number: a client that saw the old one ignores the change",
       "token": "a run is marked cancelled without cancelling its work", "reason": "a run is marked failed without a reason",
       "supersede": "a new run starts without cancelling the one before", "newtoken": "a new run starts with the cancelled token of the one before",
       "initial": "a new run starts without resetting the phase: it inherits the end of the one before"}


def check(ctx):
    p = ctx.p
    ctx.rule("fence", "status fields change only under the lock, for the current generation and before the run has ended, or by starting a new generation")
    ctx.rule("seq", "every visible status change takes a new sequence number")
    ctx.rule("order", "a reported phase is stored only after it was compared with the stored one")
    ctx.rule("begin", "starting a run advances the generation, cancels the previous token, installs a new one and resets the phase")
    ctx.rule("current", "the is-this-run-current test is true only for the current generation, unfinished and not cancelled")
    ctx.rule("stop", "a run asks whether it is current between its phases and gives up with an error when it is not")
    ctx.rule("publish", "results of a run reach the client only directly after that test")
    ctx.rule("end", "every started run ends ready or failed unless it was cancelled or superseded, and ready only after success")
    R = Roles(p)
    ctx.need(R.states and R.runs and R.holders, "indexing status state not found")
    m = M(p, R)
    for a in R.states:
        ctx.need(m.gen(a), f"{a}: no generation counter remembered by a run")
    ex = Explorer(p, m)
    modfns = [f for f in lib(p) if any(f.name.startswith(x) for x in m.mods)]

    def locks(f, seen=None):
        seen = seen or set()
        for c in f.calls():
            if re.search(r"Mutex.*::(lock|try_lock)$", c.name) and m.state_of(m.gens(c)):
                return True
            for g in (p.targets(c.callee) if c.callee else []):
                if g.key not in seen and m.inline(f, c, g):
                    if locks(g, seen | {f.key}):
                        return True
        return False
    roots = [f for f in modfns if locks(f) and "Guard<" not in (f.ty(0) or "")]
    ctx.need(len(roots) >= 3, "status operations not found")
    # writes to the state from elsewhere
    for f in lib(p):
        if f in modfns:
            continue
        for b in f.bb:
            for st in b["s"]:
                if st[0] == "=" and m.place(f, st[1]):
                    put(ctx, "fence", False, "", f"{base_fn(f.name)}:outside", "the status state is written outside the operations that fence it", f"{f.file}:{st[3]}")
    kinds, preds, movers = set(), [], {}
    for f in roots:
        m.log = []
        nm = base_fn(f.name)
        try:
            ends = ex.run(f)
        except TooBig:
            ctx.bad("fence", f"{nm}:size", "too many paths to decide", f"{f.file}:{f.line}", [])
            continue
        rets = [e for e in ends if e.kind == "ret"]
        tail = []
        for e in rets:
            add, _ = m.release(e.facts)
            tail += [(x, e) for x in set(add) | {y for y in e.facts if y.startswith("BAD:")}]
        ph = [e for e in m.log if e[0] == "phase"]
        if ph:
            movers[f.key] = f
        byk = {}
        for x, e in tail:
            byk.setdefault(x.split(":")[1], (x.split(":")[2], e))
        wr = bool(ph)
        if any("newgen" in str(e.facts) for e in ends) or any(x in byk for x in ("supersede", "newtoken", "initial")):
            kinds.add("begin")
        for k in ("fence", "seq", "token", "reason"):
            if wr or k in byk:
                put(ctx, "fence" if k != "seq" else "seq", k not in byk, f"{nm}: {k}", f"{nm}:{k}", WHY[k].format(byk.get(k, ("",))[0]), f"{f.file}:{f.line}")
        for k in ("supersede", "newtoken", "initial"):
            if wr or k in byk:
                put(ctx, "begin", k not in byk, f"{nm}: {k}", f"{nm}:{k}", WHY[k], f"{f.file}:{f.line}")
        for _, g, line, facts, k in ph:
            if k is None:
                put(ctx, "order", "rank" in facts, f"{nm}: the new phase is compared with the stored one", f"{nm}:rank",
                    "a reported phase can move the status backwards within a run", f"{g.file}:{line}")
        if (f.ty(0) or "") == "bool" and any(any(r in (f.ty(i + 1) or "") for r in R.runs) for i in range(f.nargs)):
            bad = []
            pm = PredM(p, R)
            for e in Explorer(p, pm).run(f):
                if e.kind != "ret" or e.ret is False:
                    continue
                fs = set(e.facts)
                if e.test is not None:
                    u, o = e.test, True
                    while u[0] == "un" and u[1] == "Not":
                        u, o = u[2], not o
                    x = m.edge(f, peel(u), o, frozenset(fs | {"locked"}))
                    if x:
                        fs |= set(x[0])
                if not {"cur", "live", "uncancelled"} <= fs:
                    bad.append(e)
            preds.append(f)
            put(ctx, "current", not bad, f"{nm}: current generation, unfinished, not cancelled", f"{nm}:true",
                "a run that was superseded, has ended or was cancelled can pass for the current one", f"{f.file}:{f.line}")
    ctx.need(preds, "no test for the current run found")
    drivers(ctx, p, m, R, preds, movers)


def cur_edge(p, preds, t, o):
    """outcome of the currency test: True current, False not"""
    if t[0] == "call" and isinstance(o, bool):
        if any(g.key == q.key for g in call_targets(p, t) for q in preds):
            return o
    return None


class FenceM(Machine):
    def __init__(s, p, R, preds, fences):
        s.p, s.R, s.preds, s.fences = p, R, preds, fences

    def inline(s, f, c, g):
        return g.key in s.fences and not g.is_async

    def edge(s, f, t, o, facts):
        r = cur_edge(s.p, s.preds, t, o)
        if r is not None:
            return (("current",), ()) if r else ((), ("current",))
        if t[0] == "disc" and o == "None" and any(a in (optty(s.p, t[1]) or "") for a in s.R.runs):
            return ("norun",), ()
        return None


class AcceptM(FenceM):
    def __init__(s, p, R, preds, fences, movers):
        FenceM.__init__(s, p, R, preds, fences)
        s.movers = movers

    def edge(s, f, t, o, facts):
        def moved(u):
            return any(x[0] == "call" and any(g.key in s.movers for g in call_targets(s.p, x)) for x in walk(u))
        if t[0] == "call" and last(t[1]) in ("is_some", "is_none") and moved(t):
            return (("accepted",), ()) if o == (last(t[1]) == "is_some") else ((), ("accepted",))
        if t[0] == "disc" and o in ("Some", "None") and moved(t[1]):
            return (("accepted",), ()) if o == "Some" else ((), ("accepted",))
        if t[0] == "disc" and o in ("Ok", "Continue") and moved(t[1]):
            return ("accepted",), ()
        return FenceM.edge(s, f, t, o, facts)


def optty(p, t):
    """type of an Option-valued field"""
    t = peel(t)
    if t[0] == "field" and len(t) > 3:
        return dict(fields_of(p, str(t[3]))).get(t[2], "")
    if t[0] == "call":
        return " ".join(optty(p, a) or "" for a in t[2])
    return ""


def body(p, g):
    return g.coro if g.is_async and g.coro is not None else g


def drivers(ctx, p, m, R, preds, movers):
    pk = {q.key for q in preds}
    # fences: functions of the indexer that answer Err when the run is not current
    fences = {}
    grew = True
    while grew:
        grew = False
        for f in lib(p):
            if f.key in fences or not (f.ty(0) or "").startswith("core::result::Result") and f.kind != "coroutine":
                continue
            if any(f.name.startswith(x) for x in m.mods):
                continue
            if f.kind == "coroutine":
                if not (f.ty(0) or "").startswith("core::result::Result"):
                    continue
            if any(g.key in pk for c in f.calls() for g in (p.targets(c.callee) if c.callee else [])):
                fences[f.key] = f
                grew = True
    ctx.need(fences, "no place found where a run asks whether it is still current")
    fm = FenceM(p, R, preds, set(fences))
    good = {}
    for k, f in fences.items():
        try:
            ends = [e for e in Explorer(p, fm).run(f) if e.kind == "ret"]
        except TooBig:
            continue
        bad = [e for e in ends if e.var != "Err" and not ({"current", "norun"} & e.facts)]
        if len(f.calls()) < 120:
            put(ctx, "stop", not bad, f"{base_fn(f.name)}: succeeds only for the current run", f"{base_fn(f.name)}:ok",
                "a run that was superseded or cancelled is told to go on", f"{f.file}:{(bad or [f])[0].line}")
            good[k] = f
    # movers called with their outcome used
    gates = dict(good)
    for f in lib(p):
        if f.kind == "coroutine" and f.key not in gates and (f.ty(0) or "").startswith("core::result::Result") and any(
                g.key in movers for c in f.calls() for g in (p.targets(c.callee) if c.callee else [])):
            gates[f.key] = f
            if len(f.calls()) < 120:
                try:
                    ends = [e for e in Explorer(p, AcceptM(p, R, preds, set(fences), movers)).run(f) if e.kind == "ret"]
                except TooBig:
                    continue
                bad = [e for e in ends if e.var != "Err" and not ({"accepted", "norun"} & e.facts)]
                put(ctx, "stop", not bad, f"{base_fn(f.name)}: succeeds only if the report was accepted", f"{base_fn(f.name)}:accepted",
                    "a report of progress was refused because the run is no longer current, and the run is told to go on", f"{f.file}:{(bad or [f])[0].line}")
    names = {}
    for g in list(gates.values()):
        names[g.key] = g
        if g.kind == "coroutine":
            pr = next((h for h in lib(p) if h.is_async and h.coro is not None and h.coro.key == g.key), None)
            if pr is not None:
                names[pr.key] = pr
    n = 0
    gate_sites = {}
    for f in lib(p):
        for c in f.calls():
            if c.callee is None or not any(g.key in names for g in p.targets(c.callee)):
                continue
            n += 1
            used, goes = consumed(p, f, c)
            gate_sites.setdefault(f.key, set()).add(c.bb)
            put(ctx, "stop", used, f"{base_fn(f.name)}: the answer is used at {c.loc()}", f"{base_fn(f.name)}:ignored:{last(c.name)}",
                "the run is asked whether it is still current and the answer is ignored", c.loc())
    ctx.need(n >= 4, f"only {n} checkpoints found")
    # progress reports go through a gate: the indexer's phase changes are answered
    for f in lib(p):
        if any(f.name.startswith(x) for x in m.mods):
            continue
        for c in f.calls():
            if c.callee is None or not any(g.key in movers for g in p.targets(c.callee)):
                continue
            ks = phase_of(p, f, c, R)
            if "Option" in (ret_ty(p, c) or "") and not (ks and ks <= TERMINAL) and ks is not None or ks is None and f.key in gates:
                used, _ = consumed(p, f, c)
                put(ctx, "stop", used, f"{base_fn(f.name)}: a refused report ends the run", f"{base_fn(f.name)}:refused",
                    "a report of progress was refused because the run is no longer current, and the run goes on", c.loc())
    # publications
    sinks = pub_sinks(p)
    np = 0
    for f in lib(p):
        if f.key not in gate_sites:
            continue
        for c in f.calls():
            gs = [g for g in (p.targets(c.callee) if c.callee else [])]
            if not any(g.key in sinks for g in gs) or any(g.key in names for g in gs):
                continue
            np += 1
            bad = unfenced(f, c.bb, gate_sites[f.key])
            put(ctx, "publish", not bad, f"{base_fn(f.name)}: {last(c.name)} directly after the test", f"{base_fn(f.name)}:{last(c.name)}",
                "results of a run that may have been superseded since it last asked are sent to the client", c.loc())
    ctx.need(np >= 1, "no client-visible result of a run found")
    ended(ctx, p, m, R, preds, movers)


def ret_ty(p, c):
    g = next((g for g in p.targets(c.callee)), None)
    return g.ty(0) if g is not None else None


def phase_of(p, f, c, R):
    """constant phases passed to the operation (None: not constant or no phase argument)"""
    for i in range(len(c.args)):
        t = peel(c.arg(i))
        if t[0] == "agg" and t[1] == "adt" and t[2] in R.phases:
            return {t[3]}
    g = next(iter(p.targets(c.callee)), None)
    if g is not None and not any((g.ty(i + 1) or "") in R.phases for i in range(g.nargs)):
        return TERMINAL  # fail and cancel need no answer
    return None


def consumed(p, f, c):
    """is the outcome of the call tested, propagated or returned?"""
    key = (f.key, c.bb)

    def hit(t):
        return any(x[0] == "call" and x[3] == key for x in walk(t))
    for bi, b in enumerate(f.bb):
        t = b["t"]
        if t[0] == "switch" and hit(f.op_term(t[1])):
            return True, bi
        for st in b["s"]:
            if st[0] == "=" and st[1] == [0] and hit(f.rv_term(st[2])):
                return True, bi
    for e in f.calls():
        if last(e.name) in ("branch", "expect", "unwrap") and e.args and hit(e.arg(0)):
            return True, e.bb
        if e.dest == [0] and (e.bb == c.bb or any(hit(e.arg(i)) for i in range(len(e.args)))):
            return True, e.bb
    return False, None


def pub_sinks(p):
    """functions that hand results to the client (not the status notification itself)"""
    out = set()
    for f in lib(p):
        for c in f.calls():
            if re.search(r"tower_lsp::.*[Cc]lient::(publish_diagnostics|inlay_hint_refresh|semantic_tokens_refresh|code_lens_refresh|workspace_diagnostic_refresh)$", c.name) or re.search(
                    r"tower_lsp::.*[Cc]lient::send_request$", c.name) and "Refresh" in " ".join(c.callee.generics or []):
                out.add(f.key)
    grew = True
    depth = 0
    while grew and depth < 6:
        grew, depth = False, depth + 1
        for f in lib(p):
            if f.key in out:
                continue
            for k, g, _ in p.out_edges(f):
                if g.key in out and k in ("call", "make"):
                    out.add(f.key)
                    grew = True
                    break
    return out


def unfenced(f, target, gates):
    """is there a path from the entry or from a suspension (that is not the gate's own) to the target without a gate"""
    starts = [0]
    for bi, b in enumerate(f.bb):
        if b["t"][0] == "yield":
            starts.append(b["t"][1])
    # a gate that is awaited: the suspension inside it precedes its answer
    for s in starts:
        seen, work = set(), [s]
        if s != 0 and gate_await(f, s, gates):
            continue
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            if b == target:
                return True
            if b in gates:
                continue
            if f.bb[b]["t"][0] == "yield":
                continue
            work += f.succ(b)
    return False


def gate_await(f, resume, gates):
    """the suspension belongs to awaiting a gate call: the future polled in its loop comes from one"""
    keys = {(f.key, b) for b in gates}
    ys = [bi for bi, b in enumerate(f.bb) if b["t"][0] == "yield" and b["t"][1] == resume]
    cs = {c.bb: c for c in f.calls()}
    for y in ys:
        seen, work = set(), [y]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            c = cs.get(b)
            if c is not None and last(c.name) == "poll" and c.args:
                if not any(x[0] == "call" and x[3] in keys for x in walk(c.arg(0))):
                    return False
                continue
            work += f.preds()[b]
    return bool(ys)


class EndM(Machine):
    def __init__(s, p, m, R, preds, movers, longs, fins):
        s.p, s.m, s.R, s.preds, s.movers, s.longs, s.fins = p, m, R, preds, movers, longs, fins
        s.log = []

    def call(s, f, c, facts):
        if c.callee is None:
            return None
        gs = p_targets(s.p, c)
        if any(g.key in s.movers for g in gs):
            ks = phase_of(s.p, f, c, s.R)
            if ks == {"Ready"}:
                s.log.append(("ready", f, c, facts))
                return ("fin",), ()
            if ks is TERMINAL or ks and ks <= TERMINAL:
                return ("fin",), ()
        if any(g.key in s.fins for g in gs):
            return ("fin",), ()
        if any(g.key in s.longs for g in gs):
            return ("began",), ("ok", "fin")
        return None

    def edge(s, f, t, o, facts):
        r = cur_edge(s.p, s.preds, t, o)
        if r is False:
            return ("stale",), ()
        if t[0] == "call" and t[1].endswith("is_cancelled") and o is True:
            return ("stale",), ()
        if t[0] == "call" and last(t[1]) in ("is_none", "is_some") and (o == (last(t[1]) == "is_none")) and s.moved(t):
            return ("stale",), ()
        if t[0] == "call" and last(t[1]) in ("is_ok", "is_err") and not s.moved(t):
            return (("ok",), ()) if o == (last(t[1]) == "is_ok") else ((), ("ok",))
        if t[0] == "disc":
            if o == "None" and (s.moved(t[1]) or s.permit(t[1])):
                return ("stale",), ()
            if o == "Ok" and "result" in str(t[2]):
                return ("ok",), ()
            if o == "Err" and "result" in str(t[2]):
                return (), ("ok",)
        return None

    def moved(s, t):
        return any(x[0] == "call" and any(g.key in s.movers for g in call_targets(s.p, x)) for x in walk(t))

    def permit(s, t):
        return any(x[0] == "call" and any("Permit" in (body(s.p, g).ty(0) or "") for g in call_targets(s.p, x)) for x in walk(t))


def p_targets(p, c):
    return [g for g in p.targets(c.callee) if g.key in p.fns]


def ended(ctx, p, m, R, preds, movers):
    longs = {f.key: f for f in lib(p) if f.is_async and any((f.ty(i + 1) or "") in R.runs for i in range(f.nargs)) and not any(f.name.startswith(x) for x in m.mods)}
    ctx.need(longs, "no indexing run function found")
    fins = set()
    bodies = []
    for f in lib(p):
        if any(f.name.startswith(x) for x in m.mods):
            continue
        cs = [g for c in f.calls() for g in (p_targets(p, c) if c.callee else [])]
        if any(g.key in longs for g in cs):
            bodies.append(f)
        elif any(g.key in movers for g in cs) and f.kind == "coroutine" and not (f.ty(0) or "").startswith("core::result"):
            bodies.append(f)
    # helpers that end a run on every path
    for _ in range(2):
        for f in bodies:
            em = EndM(p, m, R, preds, movers, longs, fins)
            try:
                ends = [e for e in Explorer(p, em).run(f) if e.kind == "ret"]
            except TooBig:
                continue
            if ends and all({"fin", "stale"} & e.facts for e in ends) and not any("began" in e.facts for e in ends):
                for h in lib(p):
                    if h.is_async and h.coro is not None and h.coro.key == f.key:
                        fins.add(h.key)
                if not f.kind == "coroutine":
                    fins.add(f.key)
    n = 0
    for f in bodies:
        if not any(g.key in longs for c in f.calls() for g in (p_targets(p, c) if c.callee else [])) and not any(
                g.key in movers and phase_of(p, f, c, R) == {"Ready"} for c in f.calls() for g in (p_targets(p, c) if c.callee else [])):
            continue
        if any(h.key in longs and h.coro is not None and h.coro.key == f.key for h in lib(p)):
            continue  # a wrapper of the run itself
        em = EndM(p, m, R, preds, movers, longs, fins)
        nm = base_fn(f.name)
        try:
            ends = [e for e in Explorer(p, em).run(f) if e.kind == "ret"]
        except TooBig:
            ctx.bad("end", f"{nm}:size", "too many paths to decide", f"{f.file}:{f.line}", [])
            continue
        drives = any(g.key in longs for c in f.calls() for g in (p_targets(p, c) if c.callee else []))
        n += drives
        if drives:
            bad = [e for e in ends if not ({"fin", "stale"} & e.facts)]
            put(ctx, "end", not bad, f"{nm}: ready, failed, cancelled or superseded", f"{nm}:end",
                "a started run can finish without reporting ready or failed: the project stays 'indexing' for ever", f"{f.file}:{f.line}")
        bad = [e for e in em.log if e[0] == "ready" and "ok" not in e[3]]
        put(ctx, "end", not bad, f"{nm}: ready only after success", f"{nm}:ready",
            "a run reports ready although it did not succeed", bad[0][2].loc() if bad else f"{f.file}:{f.line}")
    ctx.need(n >= 1, "no driver of indexing runs found")
