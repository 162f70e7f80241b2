"""Lock discipline: no self-deadlock, acyclic acquisition order, nothing blocking under a sync lock."""
import re
from collections import defaultdict
from core import base_fn
from locks import Locks, SPAWN
from ir import peel, walk

BLOCKING = re.compile(
    r"^(std::process::(Child::(wait|wait_with_output)|Command::(output|status))|std::thread::(functions::)?sleep|std::thread::.*JoinHandle.*::join"
    r"|std::sync::(mpsc|mpmc)::.*::(recv|recv_timeout|send)$|crossbeam.*::recv|std::sync::(poison::)?barrier::.*::wait|std::sync::.*Condvar::wait"
    r"|parking_lot::condvar::Condvar::wait|tokio::runtime::.*::block_on|futures_executor::.*block_on|futures::executor::block_on"
    r"|tokio::sync::.*::(blocking_recv|blocking_send|blocking_lock))")


def short(cls):
    return re.sub(r"\b(?:\w+::)+", "", cls).replace("RawRwLock, ", "").replace("RawMutex, ", "")


def root_param(p, f, c):
    """set of formal parameters a lock handle is derived from (None if it also has another origin)."""
    t = p.resolve_up(c.arg(0))
    return {x[1:] for x in walk(t) if x[0] == "arg"}


def distinct_params(p, f, fk, bb, c):
    """both handles come from distinct formal parameters (one of them an explicit second engine)."""
    f2 = p.fns[fk]
    c0 = next((x for x in f2.calls() if x.bb == bb), None)
    if c0 is None or not c0.args or not c.args:
        return False
    a, b = handle_roots(p, c0.arg(0)), handle_roots(p, c.arg(0))
    return bool(a) and bool(b) and not (a & b)


def handle_roots(p, t, d=0):
    """where the Arc/reference of a lock comes from: formal parameters or producing calls, ignoring
    a lazily evaluated fallback."""
    t = peel(p.resolve_up(t))
    if d > 10:
        return set()
    if t[0] == "arg":
        return {t}
    if t[0] in ("field", "some", "down", "index"):
        r = handle_roots(p, t[1], d + 1)
        return {("f",) + tuple([t[2] if t[0] == "field" else ""]) + (x,) for x in r}
    if t[0] == "call":
        l = t[1].rsplit("::", 1)[-1]
        if l in ("unwrap_or_else", "unwrap_or", "unwrap", "expect", "map", "and_then"):
            return handle_roots(p, t[2][0], d + 1)
        return {("call", t[1])}
    return {t}


def check(ctx):
    p = ctx.p
    ctx.rule("self", "no blocking acquisition of a lock (by protected type and owning field) while the same lock may already be held "
                     "by the running task, directly or through any callee, closure, or awaited future")
    ctx.rule("order", "the 'held while acquiring' relation between locks is acyclic")
    ctx.rule("await", "no synchronous lock guard is live across an await point")
    ctx.rule("block", "no blocking wait (process, thread join, channel, condvar of another lock, block_on) while a synchronous lock is held")
    L = Locks(p)
    A = L.acq()
    edges = defaultdict(dict)
    for f in p.fns.values():
        own = L.own(f)
        if not any(L.is_guard(f.crate, t) for t in f.locals):
            continue
        for c, h in L.held_at_calls(f):
            if not h:
                continue
            sync = {x for x in h if not is_async_class(L, p, x)}
            pm = L.prim(c)
            acqs = []
            if pm and not pm[1]:
                acqs.append((L.lock_class(f, c), pm[0], None))
            for g in L.run_targets(f, c):
                for x in A.get(g.key, ()):
                    if not x[2]:
                        acqs.append((x[0], x[1], (g.key, x)))
            for cls, mode, w in acqs:
                for hc, hm, hl, hk, hb in h:
                    if hc == cls and w is None and hk == f.key and hb == c.bb:
                        continue
                    where = f"{f.file}:{c.line}"
                    path = [f"{f.name} holds {short(hc)} ({'shared' if hm == 'r' else 'exclusive'}) from line {hl}"]
                    if w:
                        path += L.witness(*w)
                    if hc == cls:
                        if w is None and distinct_params(p, f, hk, hb, c):
                            ctx.ok("self", f"{base_fn(f.name)} nests two distinct instances of {short(cls)}", where)
                            continue
                        via = "" if w is None else " via " + base_fn(p.fns[w[0]].name)
                        ctx.bad("self", f"{base_fn(f.name)}:{short(cls)}{via}",
                                f"{base_fn(f.name)} acquires {short(cls)} ({'shared' if mode == 'r' else 'exclusive'}) while already holding it{via}", where, path)
                    else:
                        ctx.ok("self", f"{base_fn(f.name)}: {short(hc)} -> {short(cls)}", where)
                        edges[hc].setdefault(cls, (f, c, hl, path))
            if sync:
                if c.callee is not None and BLOCKING.match(c.name):
                    own_cv = "ondvar" in c.name and len(sync) == 1
                    if own_cv:
                        ctx.ok("block", f"{base_fn(f.name)} waits on its own condvar", c.loc())
                    else:
                        ctx.bad("block", f"{base_fn(f.name)}:{c.name}", f"{base_fn(f.name)} calls blocking {c.name} while holding "
                                + ", ".join(sorted({short(x[0]) for x in sync})), c.loc())
                else:
                    for g in L.run_targets(f, c):
                        b = blocking_reach(ctx, L, g)
                        if b:
                            ctx.bad("block", f"{base_fn(f.name)}:{b[-1]}", f"{base_fn(f.name)} reaches blocking {b[-1]} while holding "
                                    + ", ".join(sorted({short(x[0]) for x in sync})), c.loc(), b)
                        else:
                            ctx.ok("block", f"{base_fn(f.name)} -> {base_fn(g.name)} under lock", c.loc())
        ins = L.held(f)
        for bi, b in enumerate(f.bb):
            if b["t"][0] == "yield" and ins[bi] is not None:
                h = L.transfer_stmts(f, bi, dict(ins[bi]))
                hs = {x for v in h.values() for x in v}
                s = [x for x in hs if not is_async_class(L, p, x)]
                if s:
                    ctx.bad("await", f"{base_fn(f.name)}:{short(s[0][0])}",
                            f"{base_fn(f.name)} awaits while holding the synchronous lock {short(s[0][0])}", f"{f.file}:{b['t'][3]}")
                elif hs:
                    ctx.ok("await", f"{base_fn(f.name)} await under async lock", f"{f.file}:{b['t'][3]}")
    # cycles
    for a in list(edges):
        for b, (f, c, hl, path) in edges[a].items():
            cyc = find_path(edges, b, a)
            if cyc:
                cl = [a] + cyc
                m = min(range(len(cl) - 1), key=lambda i: cl[i])
                canon = cl[m:-1] + cl[:m] + [cl[m]]
                pth = []
                for x, y in zip(canon, canon[1:]):
                    e = edges[x][y]
                    pth += [f"{short(x)} held while acquiring {short(y)}: {e[0].file}:{e[1].line}"] + ["  " + s for s in e[3]]
                ctx.bad("order", " -> ".join(short(x) for x in canon), "lock-order cycle " + " -> ".join(short(x) for x in canon), f"{f.file}:{c.line}", pth)
            else:
                ctx.ok("order", f"{short(a)} -> {short(b)}", f"{f.file}:{c.line}")
    ctx.floor("self", 100)
    ctx.floor("order", 40)
    ctx.floor("await", 5)
    n = sum(len(L.own(f)) for f in p.fns.values())
    ctx.notes.append(f"{n} lock acquisition sites, {len(A)} functions that may acquire a lock")
    if n < 300:
        ctx.need(False, f"only {n} lock acquisition sites recognised")


def is_async_class(L, p, x):
    f = p.fns[x[3]]
    t = f.bb[x[4]]["t"]
    ca = p.callee(f.crate, t[1]["fn"])
    return ca.name.startswith("tokio::sync")


def find_path(edges, a, b):
    seen = {a: None}
    q = [a]
    while q:
        x = q.pop(0)
        if x == b:
            out = []
            while x is not None:
                out.append(x)
                x = seen[x]
            return out[::-1]
        for y in edges.get(x, ()):
            if y not in seen:
                seen[y] = x
                q.append(y)
    return None


def blocking_reach(ctx, L, g):
    """path from g to a blocking call (synchronous execution only)."""
    memo = ctx._cache.setdefault("blk", None)
    if memo is None:
        p = ctx.p
        direct = {}
        for f in p.fns.values():
            for c in f.calls():
                if c.callee is not None and BLOCKING.match(c.name) and "Condvar" not in c.name:
                    direct[f.key] = c.name
        rev = defaultdict(set)
        for k in p.fns:
            f = p.fns[k]
            for c in f.calls():
                if c.callee is not None and c.callee.key in p.fns or c.args:
                    for h in L.run_targets(f, c):
                        rev[h.key].add(k)
        memo = {k: (None, n) for k, n in direct.items()}
        w = list(memo)
        while w:
            k = w.pop()
            for u in rev[k]:
                if u not in memo:
                    memo[u] = (k, None)
                    w.append(u)
        ctx._cache["blk"] = memo
    if g.key not in memo:
        return None
    out = []
    k = g.key
    while k is not None:
        nx, n = memo[k]
        out.append(base_fn(ctx.p.fns[k].name))
        if n:
            out.append(n)
        k = nx
    return out
