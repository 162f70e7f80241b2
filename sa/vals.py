"""Value provenance helpers over terms."""
from ir import peel, walk


def expand(p, t, depth=4, seen=None):
    """term with captured variables resolved, and the terms callers pass for formal parameters.
    Returns the list of possible origin terms (each free of upvars where resolvable)."""
    t = p.resolve_up(t)
    roots = [x for x in walk(t) if x[0] == "arg"]
    if not roots or depth == 0:
        return [t]
    out = [t]
    return out


def arg_terms(p, fnkey, i):
    """[(caller fn, call, term)] passed for parameter i (1-based local) of function fnkey."""
    f = p.fns[fnkey]
    body = f
    if f.kind in ("closure", "coroutine"):
        return None
    out = []
    for kind, g, (bi, ln) in p.callers().get(fnkey, ()):
        if kind != "call":
            return None
        t = g.bb[bi]["t"]
        if t[0] != "call" or i - 1 >= len(t[2]):
            return None
        out.append((g, bi, g.op_term(t[2][i - 1])))
    return out


OPT = ("map", "and_then", "is_some_and", "is_ok_and", "filter", "map_or", "map_or_else", "inspect", "is_none_or")


def closure_arg(p, t):
    """the term a closure's own parameter stands for, when the closure is handed to an Option/Result combinator (the payload)
    or an Iterator adaptor (an element), else None."""
    f = p.fns.get(t[1])
    if f is None or f.kind != "closure" or t[2] != 2:
        return None
    memo = p.__dict__.setdefault("_closure_arg", {})
    if f.key in memo:
        return memo[f.key]
    memo[f.key] = None
    cr = p.creator(f.key)
    if cr is None:
        return None
    g = cr[0]
    r = None
    for c in g.calls():
        for i in range(1, len(c.args)):
            if "p" not in c.args[i]:
                continue
            x = peel(g.op_term(c.args[i]))
            if x[0] == "agg" and x[1] == "closure" and x[2] == f.key:
                l = c.name.rsplit("::", 1)[-1]
                if c.name.startswith(("core::option::", "core::result::")) and l in OPT:
                    r = ("some", c.arg(0))
                elif c.name.startswith("core::iter::traits::iterator::Iterator::") and l not in ("fold", "try_fold", "scan", "max_by", "min_by", "reduce", "cmp_by"):
                    r = ("some", ("call", "core::iter::traits::iterator::Iterator::next", (c.arg(0),), (g.key, -1)))
    memo[f.key] = r
    return r


def origins(p, t, depth=6, _seen=None):
    """Set of leaf origin terms of value t: follows parameters to every caller, captured variables to
    their creator, `?`/unwrap payloads and value-preserving wrappers."""
    seen = _seen if _seen is not None else set()
    t = peel(p.resolve_up(t))
    if t in seen:
        return []
    seen.add(t)
    if t[0] == "arg" and depth > 0:
        f = p.fns[t[1]]
        r = arg_terms(p, t[1], t[2])
        if r is None and f.kind == "closure":
            u = closure_arg(p, t)
            return origins(p, u, depth - 1, seen) if u is not None else [t]
        if not r:
            return [t]
        out = []
        for g, bi, x in r:
            out += origins(p, x, depth - 1, seen)
        return out
    if t[0] == "var" and depth > 0:
        f = p.fns[t[1]]
        ds = f.defs().get(t[2], [])
        if not ds:
            return [t]
        out = []
        for bi, k, pl, ln in ds:
            x = f.rv_term(pl, 1) if k == "rv" else f.call_term(pl, 1, bi)
            out += origins(p, x, depth - 1, seen)
        return out
    return [t]


def mentions(p, t, pred, depth=6, _seen=None):
    """does the value's definition (through parameters, variables, calls) involve a subterm satisfying pred?"""
    seen = _seen if _seen is not None else set()
    t = p.resolve_up(t)
    for x in walk(t):
        if x in seen:
            continue
        seen.add(x)
        if pred(x):
            return True
        if depth <= 0:
            continue
        if x[0] == "arg":
            r = arg_terms(p, x[1], x[2])
            if r is None:
                u = closure_arg(p, x)
                r = [(None, 0, u)] if u is not None else None
            if r and all(mentions(p, y, pred, depth - 1, set(seen)) for _, _, y in r):
                return True
        elif x[0] == "var":
            f = p.fns[x[1]]
            for bi, k, pl, ln in f.defs().get(x[2], []):
                y = f.rv_term(pl, 1) if k == "rv" else f.call_term(pl, 1, bi)
                if mentions(p, y, pred, depth - 1, seen):
                    return True
    return False


def has_field(name, owner=None):
    def pr(x):
        return x[0] == "field" and x[2] == name
    return pr


def const_val(t):
    t = peel(t)
    return t[1] if t[0] == "const" else None


def must_mention(p, t, pred, depth=6):
    """every origin of t mentions pred."""
    os = origins(p, t, depth)
    return bool(os) and all(mentions(p, o, pred, depth) for o in os)


def ret_terms(p, f):
    """terms a function may return (its return place's definitions)."""
    if f.is_async and f.coro is not None:
        f = f.coro
    out = []
    for bi, k, pl, ln in f.defs().get(0, []):
        out.append(f.rv_term(pl, 1) if k == "rv" else f.call_term(pl, 1, bi))
    return out


def call_targets(p, t):
    """first-party functions a call term runs."""
    f = p.fns.get(t[3][0])
    if f is None or t[3][1] < 0:
        return []
    tt = f.bb[t[3][1]]["t"]
    if tt[0] == "call" and "fn" in tt[1]:
        return p.targets(p.callee(f.crate, tt[1]["fn"]))
    return []


def is_field(t, name, owner=None):
    """value is (a wrapper of) the named field; looks through accessor functions whose every return is that field."""
    return t[0] == "field" and t[2] == name and (owner is None or (t[3] or "").endswith(owner))


def denotes(p, t, name, owner=None, depth=4):
    """every origin of t is the field `name` (through parameters, captures, accessors, unwraps)."""
    if depth < 0:
        return False
    os = origins(p, t, depth)
    if not os:
        return False
    for o in os:
        o = peel(o)
        while o[0] == "some":
            o = peel(o[1])
        if is_field(o, name, owner):
            continue
        if o[0] == "call":
            ts = call_targets(p, o)
            if ts and all(ret_terms(p, g) and all(denotes(p, r, name, owner, depth - 1) for r in ret_terms(p, g)) for g in ts):
                continue
        if o[0] == "var":
            f = p.fns[o[1]]
            ds = f.defs().get(o[2], [])
            if ds and all(denotes(p, f.rv_term(pl, 1) if k == "rv" else f.call_term(pl, 1, bi), name, owner, depth - 1) for bi, k, pl, ln in ds):
                continue
        return False
    return True


def length_of(p, t):
    """the term whose length t is (0 for an absent option counts), or None."""
    t = peel(t)
    if t[0] != "call" or not t[2]:
        return None
    l = t[1].rsplit("::", 1)[-1]
    if l == "len":
        return t[2][0]
    if l in ("map_or", "map_or_default") and is_len_fn(p, t[2][-1]) and (len(t[2]) < 3 or const_val(t[2][1]) == 0):
        return t[2][0]
    if l in ("unwrap_or", "unwrap_or_default") and (len(t[2]) < 2 or const_val(t[2][1]) == 0):
        i = peel(t[2][0])
        if i[0] == "call" and i[1].rsplit("::", 1)[-1] == "map" and is_len_fn(p, i[2][1]):
            return i[2][0]
    return None


def is_len_fn(p, t):
    t = peel(t)
    if t[0] == "fnitem":
        return t[2].rsplit("::", 1)[-1] == "len"
    if t[0] == "agg" and t[1] == "closure" and t[2] in p.fns:
        rs = ret_terms(p, p.fns[t[2]])
        return bool(rs) and all(r[0] == "call" and r[1].rsplit("::", 1)[-1] == "len" and peel(r[2][0])[0] == "arg" for r in rs)
    return False


def _numbers(p, t, d=0):
    """the arithmetic an amount goes through: (operator, operands)"""
    t = peel(p.resolve_up(t))
    if d > 8:
        return
    if t[0] == "bin":
        yield t[1].replace("WithOverflow", "").replace("Unchecked", ""), t[2:]
        for x in t[2:]:
            if isinstance(x, tuple):
                yield from _numbers(p, x, d + 1)
    elif t[0] == "call" and t[2] and t[1].startswith(("core::num::", "core::cmp::")):
        l = t[1].rsplit("::", 1)[-1]
        for k, v in (("mul", "Mul"), ("add", "Add"), ("sub", "Sub"), ("div", "Div"), ("shl", "Shl"), ("shr", "Shr"), ("min", "Min"), ("max", "Max")):
            if l == k or l.endswith("_" + k):
                yield v, t[2]
        for x in t[2]:
            yield from _numbers(p, x, d + 1)
    elif t[0] == "cast":
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from _numbers(p, x, d + 1)
    elif t[0] == "field" and t[1] and isinstance(t[1], tuple) and t[1][0] == "bin":
        yield from _numbers(p, t[1], d + 1)


def _big(ts, least=2):
    return any(isinstance(x, tuple) and isinstance(const_val(x), int) and const_val(x) >= least for x in ts)


def stretched(p, a, b):
    """does comparing a against ceiling b let more than b through? (a made smaller or b made larger by a constant)"""
    return any(o in ("Sub", "Div", "Shr") and _big(x[1:]) for o, x in _numbers(p, a)) or \
        any(o in ("Mul", "Shl", "Add") and _big(x, 1 if o == "Shl" else 2) for o, x in _numbers(p, b))


def multiplied(p, t, d=0):
    """is the amount multiplied by a constant after its last division?"""
    t = peel(p.resolve_up(t))
    if d > 12 or not isinstance(t, tuple):
        return False
    l = t[1].rsplit("::", 1)[-1] if t[0] == "call" else ""
    o = t[1] if t[0] == "bin" else ""
    if o == "Div" or l.startswith("div_") or l.endswith("_div"):
        return False
    if o.startswith(("Mul", "Shl")) and _big(t[2:]) or l.endswith(("_mul", "_shl")) and _big(t[2]):
        return True
    kids = t[2] if t[0] == "call" else [x for x in t[1:] if isinstance(x, tuple) and x and isinstance(x[0], str)]
    return any(multiplied(p, x, d + 1) for x in kids)
