"""Shared products built once: every request gets an answer, failures are retried, retention stays within its limits."""
import re
from core import base_fn
from flow import last
from ir import peel, walk
from paths import Explorer, Machine, TooBig
from rules.admission import LIB, fields_of, lib, put, looks_at, path_without
from vals import call_targets, mentions

PARAM = re.compile(r"^[A-Z][A-Za-z0-9_]*$")
SPAWN = re.compile(r"^tokio::(task::)?(spawn::)?spawn(_blocking|_local)?$|::task::(spawn|blocking|local)::spawn\w*$|^std::thread::spawn$")


class Cell:
    def __init__(s, name, kind, slot, wake):
        s.name, s.kind, s.slot, s.wake = name, kind, slot, wake


def find_cells(p):
    """(struct with a once-cell or a guarded state) + (a Notify or a Condvar): where the outcome of a build is published"""
    out = []
    for a in p.crates[LIB]["adts"]:
        fs = fields_of(p, a["n"])
        wk = [n for n, t in fs if t.endswith(("::Notify", "::Condvar"))]
        oc = [n for n, t in fs if re.search(r"Once(Cell|Lock)<", t)]
        mx = [(n, m.group(1)) for n, t in fs for m in [re.search(r"Mutex<(?:parking_lot::raw_mutex::RawMutex, )?(ruby_fast_lsp::[\w:]+)", t)] if m]
        if wk and oc:
            out.append(Cell(a["n"], "once", oc[0], wk[0]))
        elif wk and mx and any(t.endswith("::Condvar") for n, t in fs):
            out.append(Cell(a["n"], mx[0][1], mx[0][0], wk[0]))
    return out


def site(p, t):
    """the Call behind a call term"""
    if t[0] == "call" and t[3][0] in p.fns and t[3][1] >= 0:
        f = p.fns[t[3][0]]
        return next((c for c in f.calls() if c.bb == t[3][1]), None)
    return None


def has_cell(M, g):
    return any(c.name in g or any(e in g for e in M.entries) for c in M.cells)


class M(Machine):
    def __init__(s, p, cells):
        s.p, s.cells = p, cells
        s.states = {c.kind for c in cells if c.kind != "once"}
        s.mod = {c.name.rsplit("::", 1)[0] + "::" for c in cells}
        s.entries = {a["n"] for a in p.crates[LIB]["adts"] if any(any(c.name in t for c in cells) and "HashMap" not in t for n, t in fields_of(p, a["n"]))}
        s.caches = {a["n"]: dict(fields_of(p, a["n"])) for a in p.crates[LIB]["adts"] if any("HashMap" in t and any(c.name in t or any(e in t for e in s.entries) for c in cells)
                                                                                           for n, t in fields_of(p, a["n"]))}
        s.limits = {(a, n) for a, fs in s.caches.items() for n, t in fs.items() if t in ("usize", "u64", "u32")}
        s.comp = {}
        s.log = []

    # -- classification of calls
    def producer(s, f, c):
        """how this call runs the caller's builder: 'raw' (a panic unwinds through here), 'caught', 'task' or None"""
        if c.callee is None:
            return None
        if c.name in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call") and PARAM.match(c.callee.self_ty or ""):
            return "raw"
        if last(c.name) == "catch_unwind" and c.args:
            for x in walk(s.p.resolve_up(c.arg(0))):
                if x[0] in ("arg", "upvar", "env") and s.generic(x) or x[0] == "agg" and x[1] == "closure" and x[2] in s.p.fns and any(
                        s.producer(s.p.fns[x[2]], e) for e in s.p.fns[x[2]].calls()):
                    return "caught"
        if SPAWN.search(c.name) and c.args:
            g = s.spawned(c)
            if g is not None and any(s.producer(g, e) == "raw" for e in g.calls()):
                return "task"
            for x in walk(c.arg(0)):
                if x[0] == "arg" and s.generic(x):
                    return "task"
        return None

    def generic(s, x):
        try:
            if x[0] == "arg":
                return bool(PARAM.match(s.p.fns[x[1]].ty(x[2]) or ""))
        except Exception:
            return False
        return x[0] == "upvar" and "producer" in str(x[2])

    def spawned(s, c):
        for x in walk(peel(c.arg(0))):
            if x[0] == "agg" and x[1] in ("closure", "coroutine", "coroutine_closure") and x[2] in s.p.fns:
                return s.p.fns[x[2]]
            if x[0] == "call":
                for g in call_targets(s.p, x):
                    if g.is_async and g.coro is not None:
                        return g.coro
        return None

    def gen(s, c):
        return " ".join((c.callee.generics or []) if c.callee else [])

    def call(s, f, c, facts):
        l = last(c.name)
        if l in ("insert", "insert_entry") and "collections::hash" in c.name and has_cell(s, s.gen(c)):
            blind = "Vacant" not in c.name and "vacant" not in facts
            return (("ins", "blind") if blind else ("ins",)), ("vacant",)
        if l in ("or_insert_with", "or_insert", "or_insert_with_key", "or_default") and has_cell(s, s.gen(c)):
            return ("ins", "blind"), ()
        if l in ("remove", "remove_entry") and "collections::hash" in c.name and has_cell(s, s.gen(c)):
            s.log.append(("remove", f, c, facts))
            return ("clean",), tuple(x for x in facts if x.startswith("le:"))
        if l in ("clear", "drain", "retain", "extract_if") and "collections::hash" in c.name and has_cell(s, s.gen(c)):
            s.log.append((l, f, c, facts))
        if re.search(r"Mutex.*::(lock|try_lock)$", c.name) and has_cell(s, s.gen(c)):
            return (), ("vacant",)
        if l == "set" and "once_cell" in c.name.lower() or l == "set" and "OnceCell" in c.name or l == "set" and "OnceLock" in c.name:
            s.log.append(("done", f, c, facts))
            return ("done", "unwoken"), ()
        if l in ("notify_waiters", "notify_all") and ("Notify" in c.name or "Condvar" in c.name):
            return ("wokeonce",), ("unwoken",)
        if l.startswith("wait") and "Condvar" in c.name:
            return (), ("final",)
        pr = s.producer(f, c)
        add = ()
        if pr:
            s.log.append(("run", f, c, facts, pr))
            add = ("run",)
        if SPAWN.search(c.name) and c.args:
            g = s.spawned(c)
            if g is not None and s.completes(g):
                add += ("own",)
        if l == "into_future" and c.callee.self_ty:
            s.log.append(("await", f, c, facts))
        return (add, ()) if add else None

    def completes(s, g):
        if g.key not in s.comp:
            s.comp[g.key] = False
            log, s.log = s.log, []
            try:
                ends = Explorer(s.p, s).run(g)
            except TooBig:
                ends = []
            s.log = log
            rets = [e for e in ends if e.kind == "ret"]
            s.comp[g.key] = any("done" in e.facts for e in rets)
        return s.comp[g.key]

    def write(s, f, st, facts):
        pl = st[1]
        if len(pl) == 2 and pl[1] == "*":
            ty = f.ty(pl[0]) or ""
            m = re.match(r"&mut (ruby_fast_lsp::[\w:]+)", ty)
            if m and m.group(1) in s.states:
                t = f.rv_term(st[2])
                v = t[3] if t[0] == "agg" else None
                s.log.append(("done", f, st[3], facts, v))
                pan = v is not None and not (t[5] if t[0] == "agg" else ())
                return (("done", "unwoken", "err") if pan else ("done", "unwoken")), ()
        return None

    def edge(s, f, t, o, facts):
        if t[0] == "call":
            l = last(t[1])
            c = site(s.p, t)
            g0 = ((c.callee.generics or [""])[0]) if c is not None and c.callee else ""
            if l in ("is_err", "is_ok") and t[1].startswith("core::result::") and g0 not in ("()", "") and "JoinError" not in s.gen(c):
                good = (l == "is_ok") == o
                return (("clean",), ("err",)) if good else (("err",), ())
            if l == "is_some_and":
                hit = any(x[0] == "fnitem" and x[2].endswith("is_err") for a in t[2] for x in walk(a))
                if hit:
                    return (("err",), ()) if o else (("clean",), ("err",))
                if o is False and any(x[0] == "agg" and x[1] == "closure" and x[2] in s.p.fns and any(last(e.name) == "ptr_eq" for e in s.p.fns[x[2]].calls())
                                      for a in t[2] for x in walk(a)):
                    return ("clean",), ()
            if l == "ptr_eq" and o is False:
                return ("clean",), ()
            if l == "contains_key" and o is False and has_cell(s, s.gen(c) if c else ""):
                return ("vacant",), ()
        if t[0] == "bin":
            op, a, b = t[1], peel(t[2]), peel(t[3])
            if op in ("Gt", "Ge"):
                op, a, b = {"Gt": "Lt", "Ge": "Le"}[op], b, a
            # a <= limit
            lim = s.limit(b)
            if lim and op in ("Le", "Lt") and o is True and s.measured(a):
                return (f"le:{lim}",), ()
            lim = s.limit(a)
            if lim and op in ("Lt", "Le") and o is False and s.measured(b) and op == "Lt":
                return (f"le:{lim}",), ()  # not (limit < measured)
        if t[0] == "disc":
            u = t[1]
            if o == "None" and u[0] == "call" and last(u[1]) == "get" and "collections::hash" in u[1]:
                return ("vacant", "clean"), ()
            if o in ("Vacant",):
                return ("vacant",), ()
            if o == "None" and mentions(s.p, u, lambda x: x[0] == "call" and last(x[1]) in ("iter", "keys", "values", "iter_mut", "next"), 2) and mentions(
                    s.p, u, lambda x: x[0] == "call" and last(x[1]) in ("min_by_key", "min_by", "min", "next", "find", "max_by_key", "reduce", "find_map"), 2):
                return ("none",), ()
            c = any(k in str(t[2] or "") for k in s.states)
            if c and o is not None:
                return (("final",), ()) if o != s.pending(str(t[2])) else ((), ("final",))
            if o in ("Ok", "Err") and not mentions(s.p, u, lambda x: x[0] == "call" and last(x[1]) in ("catch_unwind", "poll"), 2):
                return (("clean",), ("err",)) if o == "Ok" else (("err",), ())
        return None

    def limit(s, t):
        t = s.p.resolve_up(t)
        for x in ([t] if t[0] == "field" else []):
            for a, n in s.limits:
                if x[2] == n and x[3:] and a in str(x[3]):
                    return n
        return None

    def measured(s, t):
        return mentions(s.p, t, lambda x: x[0] == "call" and last(x[1]) in ("count", "len", "sum", "fold", "try_fold") or x[0] == "call" and bool(call_targets(s.p, x)), 3)

    def pending(s, st):
        for a in s.p.crates[LIB]["adts"]:
            if a["n"] in st and a["n"] in s.states:
                # the state a cell starts in
                for f in lib(s.p):
                    if any(f.name.startswith(m) for m in s.mod):
                        for b in f.bb:
                            for x in b["s"]:
                                if x[0] == "=" and x[2][0] == "agg" and x[2][1] == "adt" and x[2][2] == a["n"] and last(f.name) == "new":
                                    return x[2][3]
        return "Pending"

    def inline(s, f, c, g):
        return g.crate == LIB and any(g.name.startswith(m) for m in s.mod) and "Counters" not in g.name and not s.weighs(g)

    def weighs(s, g):
        return (g.ty(0) or "") in ("u64", "usize") or "SingleFlightSnapshot" in (g.ty(0) or "")


def reach_inline(p, m, f, pred, d=0, seen=None):
    seen = seen if seen is not None else set()
    if f.key in seen or d > 4:
        return False
    seen.add(f.key)
    for c in f.calls():
        if pred(f, c):
            return True
        for g in (p.targets(c.callee) if c.callee else []):
            if m.inline(f, c, g) and reach_inline(p, m, g, pred, d + 1, seen):
                return True
    return False


def check(ctx):
    p = ctx.p
    ctx.rule("once", "the builder runs only for the request that, under the lock, found no entry and registered one")
    ctx.rule("answer", "a registered build is started and its outcome published on every path: no return, suspension or panic in between strands the waiters")
    ctx.rule("wake", "publishing an outcome wakes every waiter afterwards")
    ctx.rule("wait", "a waiter subscribes before it looks, and returns only after it saw a published outcome")
    ctx.rule("retry", "a failed build leaves the table before its failure is published, so later requests build again")
    ctx.rule("evict", "only successfully finished entries are evicted")
    ctx.rule("bound", "after every successful build the table is brought back within its limits")
    cells = find_cells(p)
    ctx.need(len(cells) >= 2, "no shared-build cells found")
    m = M(p, cells)
    ctx.need(len(m.caches) >= 2, "no shared-build tables found")
    isins = lambda f, c: last(c.name) in ("insert", "insert_entry", "or_insert_with", "or_insert") and "collections::hash" in c.name and has_cell(m, m.gen(c))
    isrun = lambda f, c: m.producer(f, c) is not None
    cand = [f for f in lib(p) if any(f.name.startswith(x) for x in m.mod) and not (f.is_async and f.coro is not None)
            and reach_inline(p, m, f, isins) and reach_inline(p, m, f, isrun)]
    roots = [f for f in cand if not any(g is not f and any(h.key == f.key for c in g.calls() for h in (p.targets(c.callee) if c.callee else [])) for g in cand)]
    ctx.need(len(roots) >= 3, f"only {len(roots)} shared-build entry points found")
    ex = Explorer(p, m)
    victims = []
    for f in roots:
        nm = base_fn(f.name)
        m.log = []
        try:
            ends = ex.run(f)
        except TooBig:
            ctx.bad("answer", f"{nm}:size", "too many paths to decide", f"{f.file}:{f.line}", [])
            continue
        log = m.log
        isasync = f.kind == "coroutine"
        runs = [e for e in log if e[0] == "run"]
        ctx.need(runs, f"{nm}: builder not found")
        bad = [e for e in runs if "ins" not in e[3] or "blind" in e[3]]
        put(ctx, "once", not bad, f"{nm}: the builder runs only for the registering request", f"{nm}:run",
            "the builder can run for a request that did not register the build: two builds of one product at once", (bad or runs)[0][2].loc())
        rerun = [e for e in runs if "run" in e[3]]
        put(ctx, "once", not rerun, f"{nm}: the builder runs once", f"{nm}:twice", "the builder can run twice for one registration", (rerun or runs)[0][2].loc())
        raw = [e for e in runs if e[4] == "raw" and "done" not in e[3]]
        put(ctx, "answer", not raw, f"{nm}: a panic of the builder is contained", f"{nm}:panic",
            "a panic in the builder unwinds through the registration: every later request for the product waits for ever", (raw or runs)[0][2].loc())
        stuck = [e for e in ends if e.kind in ("ret", "yield") or e.kind == "diverge" and last(e.ret.name) in ("resume_unwind", "panic_any", "exit", "abort")]
        stuck = [e for e in stuck if "ins" in e.facts and ("run" not in e.facts or not ("own" in e.facts or "done" in e.facts and "unwoken" not in e.facts))]
        put(ctx, "answer", not stuck, f"{nm}: a registered build always gets an outcome", f"{nm}:stranded",
            "a registered build can be left without anyone to publish its outcome: its waiters wait for ever", f"{f.file}:{(stuck or [None])[0].line if stuck else f.line}")
        comps = []
        for g in [x for e in log for x in []]:
            comps.append(g)
        bodies = [(f, log, ends)] if not isasync else []
        if isasync:
            gs = {g.key: g for h in reachable_inline(p, m, f) for c in h.calls() if SPAWN.search(c.name) and c.args for g in [m.spawned(c)] if g is not None and m.completes(g)}
            ctx.need(gs or stuck, f"{nm}: nobody publishes the outcome")
            for g in gs.values():
                m.log = []
                try:
                    e2 = ex.run(g)
                except TooBig:
                    ctx.bad("answer", f"{nm}:size", "too many paths to decide", f"{g.file}:{g.line}", [])
                    continue
                bodies.append((g, m.log, e2))
        for g, lg, en in bodies:
            gn = base_fn(g.name)
            if g is not f:
                nod = [e for e in en if e.kind == "ret" and ("done" not in e.facts or "unwoken" in e.facts)]
                put(ctx, "answer", not nod, f"{gn}: publishes an outcome on every path", f"{gn}:publish",
                    "the task that publishes the outcome can finish without doing so: the waiters wait for ever", f"{g.file}:{(nod or [g])[0].line}")
                aw = [e for e in lg if e[0] == "await" and "done" not in e[3] and not re.search(r"JoinHandle<|CatchUnwind<", e[2].callee.self_ty)]
                rw = [e for e in lg if e[0] == "run" and e[4] == "raw" and "done" not in e[3]]
                put(ctx, "answer", not aw and not rw, f"{gn}: a panic of the build is contained", f"{gn}:panic",
                    "the build runs inside the task that publishes its outcome: if it panics nothing is published", (aw or rw)[0][2].loc() if aw or rw else f"{g.file}:{g.line}")
            dn = [e for e in lg if e[0] == "done"]
            ctx.need(dn or stuck, f"{gn}: no outcome is published")
            bd = [e for e in dn if "clean" not in e[3]]
            put(ctx, "retry", not bd, f"{gn}: a failure is published only after the entry was withdrawn", f"{gn}:failed",
                "a failed build is published while its entry is still in the table: a request that comes after the failure is handed the old failure instead of building again",
                f"{g.file}:{(bd or dn)[0][2].line if bd and hasattr(bd[0][2], 'line') else (bd[0][2] if bd else g.line)}")
            un = [e for e in en if e.kind in ("ret", "yield") and "unwoken" in e.facts]
            put(ctx, "wake", not un, f"{gn}: waiters are woken after the outcome is set", f"{gn}:wake",
                "an outcome is published without waking the waiters afterwards", f"{g.file}:{(un or [g])[0].line}")
            lims = {n for a, n in m.limits if belongs(f, a)}
            if lims:
                ov = [e for e in en if e.kind == "ret" and "done" in e.facts and "err" not in e.facts and "none" not in e.facts and not all(f"le:{n}" in e.facts for n in lims)]
                put(ctx, "bound", not ov, f"{gn}: the table is within {', '.join(sorted(lims))} afterwards", f"{gn}:bound",
                    f"after a successful build the table may exceed {' or '.join(sorted(n for n in lims if not ov or f'le:{n}' not in ov[0].facts))}", f"{g.file}:{(ov or [g])[0].line}")
            victims += [e for e in lg if e[0] in ("remove", "clear", "drain", "retain", "extract_if")]
    # victims: everything that leaves the table anywhere
    m.log = []
    done = set()
    for f in lib(p):
        if not any(f.name.startswith(x) for x in m.mod):
            continue
        for c in f.calls():
            l = last(c.name)
            if "collections::hash" in c.name and has_cell(m, m.gen(c)):
                if l == "remove":
                    ok = failing(p, m, f, c) or selected(p, m, c) or pathok(p, m, f, c)
                    put(ctx, "evict", ok, f"{base_fn(f.name)}: only finished or own failed entries are removed", f"{base_fn(f.name)}:remove",
                        "an entry whose build is still running can be removed: the next request starts a second build of the same product", c.loc())
                elif l in ("clear", "drain", "retain", "extract_if"):
                    ok = l in ("retain", "extract_if") and keeps(p, m, c, l == "extract_if")
                    put(ctx, "evict", ok, f"{base_fn(f.name)}: only finished entries are removed", f"{base_fn(f.name)}:{l}",
                        "entries whose build is still running can be removed: the next request starts a second build of the same product", c.loc())
    waiters(ctx, p, m, cells)


def belongs(f, adt):
    return f.name.startswith(adt + "::") or f.name.startswith(re.sub(r"<.*", "", adt) + "::") or (adt + "<") in f.name or (adt + "::<") in f.name


def reachable_inline(p, m, f, seen=None):
    seen = seen if seen is not None else {}
    if f.key in seen:
        return []
    seen[f.key] = f
    for c in f.calls():
        for g in (p.targets(c.callee) if c.callee else []):
            if m.inline(f, c, g):
                reachable_inline(p, m, g, seen)
    return list(seen.values())


def failing(p, m, f, c):
    """removal of the entry of the very build that failed (identity test), or after its failure was seen"""
    key = p.resolve_up(c.arg(1))
    if any(x[0] == "call" and last(x[1]) in ("iter", "keys", "next", "drain", "values") for x in walk(key)):
        return False
    # on every path: identity of the entry, or the result is known to be a failure, or the caller publishes a failure
    try:
        m.log = []
        Explorer(p, IdM(m)).run(f)
    except TooBig:
        return False
    es = [e for e in m.log if e[0] == "remove" and e[2].bb == c.bb and e[1].key == f.key]
    return bool(es) and all("own" in e[3] or "err" in e[3] for e in es)


class IdM(M):
    def __init__(s, m):
        s.__dict__ = m.__dict__

    def inline(s, f, c, g):
        return False

    def edge(s, f, t, o, facts):
        r = M.edge(s, f, t, o, facts)
        if o is True and t[0] == "call":
            if last(t[1]) == "ptr_eq" or last(t[1]) == "is_some_and" and any(
                    x[0] == "agg" and x[1] == "closure" and x[2] in s.p.fns and any(last(e.name) == "ptr_eq" for e in s.p.fns[x[2]].calls()) for a in t[2] for x in walk(a)):
                a, k = r or ((), ())
                return tuple(a) + ("own",), k
        return r


def selected(p, m, c):
    """the key comes from an iteration filtered to finished entries"""
    key = p.resolve_up(c.arg(1))
    fs = []

    def pred(x):
        if x[0] == "call" and last(x[1]) in ("filter", "find", "filter_map", "find_map", "skip_while") and len(x[2]) > 1:
            h = peel(x[2][1])
            if h[0] == "agg" and h[1] == "closure" and h[2] in p.fns:
                fs.append((last(x[1]), p.fns[h[2]]))
        return False
    mentions(p, key, pred, 4)
    return any(only_finished(p, m, g, k) for k, g in fs)


def only_finished(p, m, g, kind="filter"):
    """the predicate is true only for entries whose build finished successfully"""
    m.log = []
    try:
        ends = Explorer(p, FinM(m)).run(g)
    except TooBig:
        return False
    rets = [e for e in ends if e.kind == "ret"]
    return bool(rets) and all(e.ret is False or "okfin" in e.facts for e in rets) if kind in ("filter", "find") else bool(rets) and all("okfin" in e.facts or "nothing" in e.facts for e in rets)


class FinM(M):
    def __init__(s, m):
        s.__dict__ = m.__dict__

    def write(s, f, st, facts):
        if st[1] == [0] and st[2][0] == "agg" and st[2][3] == "None":
            return ("nothing",), ()
        return None

    def edge(s, f, t, o, facts):
        if t[0] == "disc" and o == "Ok":
            return ("okfin",), ()
        if t[0] == "disc" and o in ("Err", "None"):
            return (), ("okfin",)
        if t[0] == "call" and last(t[1]) in ("is_ok", "is_some_and") and o is True:
            if last(t[1]) == "is_ok" or any(x[0] == "fnitem" and x[2].endswith("is_ok") for a in t[2] for x in walk(a)):
                return ("okfin",), ()
        return None

    def call(s, f, c, facts):
        # `return x.is_some_and(Result::is_ok)`
        if c.dest == [0] and last(c.name) == "is_some_and" and any(x[0] == "fnitem" and x[2].endswith("is_ok") for x in walk(c.arg(1))):
            return ("okfin",), ()
        return None


def pathok(p, m, f, c):
    try:
        m.log = []
        es = [e for e in Explorer(p, FinM(m)).run(f) if e.kind == "call" and e.fn.key == f.key and e.bb == c.bb]
    except TooBig:
        return False
    return bool(es) and all("okfin" in e.facts for e in es)


def keeps(p, m, c, invert):
    """retain/extract_if: what is dropped is finished"""
    h = peel(c.arg(1))
    if h[0] != "agg" or h[1] != "closure" or h[2] not in p.fns:
        return False
    m.log = []
    try:
        ends = [e for e in Explorer(p, FinM(m)).run(p.fns[h[2]]) if e.kind == "ret"]
    except TooBig:
        return False
    return bool(ends) and all((e.ret is (not invert)) or "okfin" in e.facts for e in ends)


def waiters(ctx, p, m, cells):
    n = 0
    for f in lib(p):
        if not any(f.name.startswith(x) for x in m.mod):
            continue
        for c in f.calls():
            if c.name == "tokio::sync::notify::Notify::notified":
                t = p.resolve_up(c.arg(0))
                cl = next((k for k in cells for x in walk(t) if x[0] == "field" and x[2] == k.wake and x[3:] and k.name in str(x[3])), None)
                if cl is None:
                    continue
                n += 1
                looks = {e.bb for e in f.calls() if looks_at(p, e, cl.name, cl.wake, 0)}
                put(ctx, "wait", not path_without(f, c.bb, looks, ("yield",)), f"{base_fn(f.name)}: looks after subscribing", f"{base_fn(f.name)}:arm",
                    "the waiter looks for the outcome before it subscribes: an outcome published in between is never noticed", c.loc())
            if "Condvar" in c.name and last(c.name).startswith("wait"):
                n += 1
                m.log = []
                try:
                    ends = Explorer(p, m).run(f)
                except TooBig:
                    ends = []
                bad = [e for e in ends if e.kind == "ret" and "final" not in e.facts]
                put(ctx, "wait", bool(ends) and not bad, f"{base_fn(f.name)}: returns only after an outcome was seen", f"{base_fn(f.name)}:final",
                    "a woken waiter does not look again: a spurious wake-up or an early one is taken for the outcome", c.loc())
    ctx.need(n >= 2, "waiters not found")
