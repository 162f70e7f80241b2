"""Rule helpers on top of flow.Flow."""
from core import base_fn
from flow import Flow, FULL
from ir import show


def roots_of(p):
    """entry points: functions nobody in the program calls, binary entry, external-trait impl methods."""
    r = set()
    callers = p.callers()
    for f in p.fns.values():
        if f.kind != "fn":
            continue
        if not callers.get(f.key):
            r.add(f.key)
        elif f.impl_trait and not f.impl_trait.startswith(("ruby_", "rbs_")) and not f.impl_trait.startswith(("core::", "alloc::", "std::", "serde")):
            r.add(f.key)
    return r


def guarded(ctx, rid, fl, sinks, need, what, key=None, why=None):
    """every sink call must be reached with all atoms need(c)."""
    p = ctx.p
    sinks = list(sinks)
    todo = {c.fn.key for c in sinks}
    if not todo:
        return
    fl.entries(todo, roots_of(p) & set(p.fns))
    for c in sinks:
        m = fl.facts_before_call(c)
        req = need(c) if callable(need) else need
        label = what(c) if callable(what) else what
        if m is None or m == FULL:
            ctx.ok(rid, f"{base_fn(c.fn.name)}: {label} (unreachable)", c.loc())
            continue
        miss = [a for a in req if not m & fl.bit[a]]
        if miss:
            k = key(c) if key else f"{base_fn(c.fn.name)}:{c.name.rsplit('::', 1)[-1]}:{'+'.join(miss)}"
            ctx.bad(rid, k, f"{label} in {base_fn(c.fn.name)} is reachable without {', '.join(explain(fl, a) for a in miss)}", c.loc(),
                    caller_path(fl, c, miss))
        for a in req:
            if a not in miss:
                ctx.ok(rid, f"{base_fn(c.fn.name)}: {label} after {explain(fl, a)}", c.loc())


def explain(fl, a):
    return getattr(fl.s, "text", {}).get(a, a)


def caller_path(fl, c, miss):
    """a chain of callers along which the missing facts are absent."""
    p = fl.p
    need = 0
    for a in miss:
        need |= fl.bit[a]
    out = [f"{c.fn.name} ({c.loc()}) calls {c.name}"]
    k = c.fn.key
    seen = {k}
    for _ in range(25):
        nxt = None
        for kind, g, (bi, ln) in p.callers().get(k, ()):
            if g.key in seen or g.key not in fl.ins:
                continue
            m = fl.at_site(g, fl.ins[g.key], bi, kind, p.fns[k])
            if m != FULL and (m & need) != need:
                nxt = (g, ln)
                break
        if nxt is None:
            break
        out.append(f"reached from {nxt[0].name} ({nxt[0].file}:{nxt[1]})")
        k = nxt[0].key
        seen.add(k)
    return out


def agg_sites(p, adt_rx, variant=None, fns=None):
    """[(fn, block, stmt, {field: term})] where a value of a matching ADT is built."""
    import re
    rx = re.compile(adt_rx)
    out = []
    for f in (fns or p.fns.values()):
        for bi, b in enumerate(f.bb):
            if b.get("c"):
                continue
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and rx.search(st[2][2]) and (
                        variant is None or st[2][3] == variant):
                    out.append((f, bi, st, dict(zip(st[2][4], [f.op_term(o) for o in st[2][5]]))))
    return out


def guarded_at(ctx, rid, fl, sites, need, what, key=None):
    """sites: [(fn, block, line, label)]; facts must hold at the end of the block's statements."""
    p = ctx.p
    sites = list(sites)
    if not sites:
        return
    fl.entries({s[0].key for s in sites}, roots_of(p) & set(p.fns))
    for f, bi, line, label in sites:
        loc = f"{f.file}:{line}"
        m = fl.at_term(f, fl.ins[f.key], bi) if f.key in fl.ins else FULL
        if m == FULL:
            ctx.ok(rid, f"{base_fn(f.name)}: {label} (unreachable)", loc)
            continue
        req = need(f) if callable(need) else need
        miss = [a for a in req if not m & fl.bit[a]]
        if miss:
            ctx.bad(rid, f"{base_fn(f.name)}:{label}:{'+'.join(miss)}",
                    f"{what} ({label}) in {base_fn(f.name)} is reachable without {', '.join(explain(fl, a) for a in miss)}", loc)
        for a in req:
            if a not in miss:
                ctx.ok(rid, f"{base_fn(f.name)}: {label} after {explain(fl, a)}", loc)
