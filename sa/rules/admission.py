"""Admission to indexing resources: limits hold, nothing leaks, nobody sleeps through a wake-up."""
import re
from core import base_fn
from flow import Spec, Flow, FULL, last
from guard import roots_of, agg_sites
from ir import peel, walk, show, term_succ, ops_of
from vals import mentions, ret_terms, call_targets, closure_arg, arg_terms, origins

LIB = "ruby_fast_lsp.lib"
NOTIFY = re.compile(r"^tokio::sync::notify::Notify$")
MUT = {"swap_remove", "remove", "insert", "retain", "retain_mut", "pop", "clear", "truncate", "drain", "append", "extend", "pop_first", "pop_last", "take", "split_off",
       "replace", "extract_if", "dedup", "dedup_by"}
TOKEN = "CancellationToken"


def put(ctx, rid, ok, good, key, bad, loc, trace=None):
    ctx.ok(rid, good, loc) if ok else ctx.bad(rid, key, bad, loc, trace or [])


class Domain:
    """a struct with a Notify and a mutex-protected state: waiters sleep on the Notify until the state lets them proceed"""

    def __init__(s, p, owner, state, notify, others):
        s.p, s.owner, s.state, s.notify, s.others = p, owner, state, notify, others
        s.fields = dict(fields_of(p, state))
        s.elems = set()
        for t in s.fields.values():
            for m in re.finditer(r"ruby_fast_lsp::[\w:]+", t):
                if fields_of(p, m.group(0)) and m.group(0) != state:
                    s.elems.add(m.group(0))


def fields_of(p, adt):
    m = p.__dict__.setdefault("_adt_fields", {})
    if not m:
        for cn, cr in p.crates.items():
            for a in cr["adts"]:
                if len(a["v"]) == 1:
                    m.setdefault(a["n"], [(fi[0], cr["tys"][fi[1]][0]) for fi in a["v"][0][2]])
    return m.get(adt, [])


def domains(p):
    out = []
    for cn, cr in p.crates.items():
        if cn != LIB:
            continue
        for a in cr["adts"]:
            fs = fields_of(p, a["n"])
            nt = [n for n, t in fs if NOTIFY.match(t)]
            st = [(n, m.group(1)) for n, t in fs for m in [re.search(r"Mutex<(?:parking_lot::raw_mutex::RawMutex, )?(ruby_fast_lsp::[\w:]+)>", t)] if m]
            if nt and st:
                out.append(Domain(p, a["n"], st[0][1], nt[0], [n for n, t in fs if not NOTIFY.match(t)]))
    return out


def lib(p):
    return [f for f in p.fns.values() if f.crate == LIB]


# ---------------------------------------------------------------- what the waiting condition depends on
def compared_fields(p, owners):
    """fields of the given structs that some condition looks at"""
    out = set()

    def add(t, f):
        for x in walk(t):
            if x[0] == "field" and x[3:] and any(o in str(x[3]) for o in owners):
                out.add((owner_of(x, owners), x[2]))
            if x[0] == "arg":
                u = closure_arg(p, x)
                if u is not None:
                    for y in walk(u):
                        if y[0] == "field" and y[3:] and any(o in str(y[3]) for o in owners):
                            out.add((owner_of(y, owners), y[2]))
    for f in lib(p):
        for b in f.bb:
            if b.get("c"):
                continue
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                    add(f.op_term(st[2][2]), f)
                    add(f.op_term(st[2][3]), f)
            if b["t"][0] == "switch":
                t = peel(f.op_term(b["t"][1]))
                if t[0] == "field":
                    add(t, f)
                if t[0] == "un" and peel(t[2])[0] == "field":
                    add(t, f)
        for c in f.calls():
            if last(c.name) in ("eq", "ne", "lt", "le", "gt", "ge", "contains", "cmp", "contains_key"):
                for i in range(len(c.args)):
                    add(c.arg(i), f)
            if last(c.name) in ("min_by_key", "max_by_key", "min_by", "sort_by_key"):
                for i in range(1, len(c.args)):
                    h = peel(c.arg(i))
                    if h[0] == "agg" and h[1] == "closure" and h[2] in p.fns:
                        for r in ret_terms(p, p.fns[h[2]]):
                            add(r, f)
        for r in ([] if f.kind != "closure" or (f.ty(0) or "") != "bool" else ret_terms(p, f)):
            add(r, f)
    return out


def owner_of(x, owners):
    return next(o for o in owners if o in str(x[3]))


# ---------------------------------------------------------------- change => wake
class Dirty:
    """two-state machine per function: may the waiting condition have changed without waking the waiters?"""

    def __init__(s, p, d, rel):
        s.p, s.d, s.rel, s.memo = p, d, rel, {}

    def wr(s, f, pl):
        if len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == "f" and "*" in pl:
            o = str(pl[-1][2]) if len(pl[-1]) > 2 else ""
            return (o, pl[-1][1]) in s.rel and (o == s.d.state or o in s.d.elems)
        return False

    def ev(s, f, c):
        """'dirty' / 'wake' / None for a call"""
        l = last(c.name)
        if l == "notify_waiters" and c.name.startswith("tokio::sync::notify::"):
            if any(x[0] == "field" and x[2] == s.d.notify and s.d.owner in str(x[3:]) for x in walk(s.p.resolve_up(c.arg(0)))):
                return "wake"
        if l in MUT and c.args and not c.name.startswith("ruby_fast_lsp"):
            t = peel(c.arg(0))
            while t[0] == "call" and last(t[1]) in ("deref_mut", "deref", "as_mut"):
                t = peel(t[2][0])
            if t[0] == "field" and t[3:] and str(t[3]) == s.d.state and (s.d.state, t[2]) in s.rel | {(s.d.state, n) for n, ty in s.d.fields.items() if any(e in ty for e in s.d.elems)}:
                return "dirty"
        return None

    def run(s, f, start, entry_bb=0):
        """set of (dirty, block) reached at returns; also the writes left unannounced"""
        flags = flag_locals(f)
        init = tuple(None for _ in flags)
        calls = {c.bb: c for c in f.calls()}
        seen, work = set(), [(entry_bb, init, start, None, None, 0)]
        outs = []
        while work:
            b, fv, d, src, same, si = work.pop()
            if (b, fv, d, same, si) in seen:
                continue
            seen.add((b, fv, d, same, si))
            blk = f.bb[b]
            if blk.get("c"):
                continue
            fv = list(fv)
            for sj in range(si, len(blk["s"])):
                st = blk["s"][sj]
                if st[0] != "=":
                    continue
                if s.wr(f, st[1]):
                    # `flag |= old != new` was evaluated: on the branch where they are equal the write changes nothing
                    if same != (st[1][-1][1], show(peel(f.rv_term(st[2])))):
                        d, src = True, st[3]
                cf = or_flag(f, st, flags)
                if cf is not None:
                    work.append((b, tuple(fv), d, src, cf, sj + 1))
                    fv[flags[st[1][0]]] = True
                    same = None
                    continue
                if len(st[1]) == 1 and st[1][0] in flags:
                    v = st[2][1].get("v") if st[2][0] == "use" else None
                    v = st[2][1].get("v", st[2][1].get("pp")) if v is None and st[2][0] == "use" else v
                    fv[flags[st[1][0]]] = {0: False, 1: True, "false": False, "true": True, False: False, True: True}.get(v)
            t = blk["t"]
            k = t[0]
            if k == "ret":
                outs.append((d, src))
                continue
            if k == "yield" and d:
                outs.append((d, src))
            if k == "call":
                if s.wr(f, t[3]):
                    d, src = True, t[6]
                c = calls.get(b)
                ds = {d}
                if c is not None:
                    e = s.ev(f, c)
                    if e == "wake":
                        ds = {False}
                    elif e == "dirty":
                        # what a retain did shows in the length
                        ds, src = {"len" if d in (False, "len") and last(c.name) in ("retain", "retain_mut", "truncate", "clear") else True}, c.line
                    else:
                        gs = [g for g in s.p.targets(c.callee) if g.crate == LIB and g.key != f.key and not g.is_async]
                        clos = [s.p.fns[x[2]] for i in range(len(c.args)) for x in [peel(c.arg(i))] if x[0] == "agg" and x[1] == "closure" and x[2] in s.p.fns]
                        if gs:
                            ds = set()
                            for g in gs:
                                r = s.summary(g, bool(d))
                                ds |= r
                                if True in r and not d:
                                    src = c.line
                        for g in clos:
                            if not re.search(r"(^|::)spawn", c.name):
                                ds |= s.summary(g, bool(d))
                if t[4] is not None:
                    for x in ds:
                        work.append((t[4], tuple(fv), x, src, same, 0))
                continue
            if k == "switch":
                tm = peel(f.op_term(t[1]))
                neg = False
                while tm[0] == "un" and tm[1] == "Not":
                    tm, neg = peel(tm[2]), not neg
                if d == "len" and tm[0] == "bin" and tm[1] in ("Ne", "Eq", "Lt", "Gt") and all(x[0] == "call" and last(x[1]) == "len" for x in map(peel, tm[2:4])) \
                        and show(peel(tm[2])) == show(peel(tm[3])):
                    for val, tgt in list(t[2]) + [(None, t[3])]:
                        # the comparison came out as "same length"
                        on = 1 - int(t[2][0][0]) if val is None else int(val)
                        work.append((tgt, tuple(fv), False if (on == 1) == ((tm[1] == "Eq") != neg) else d, src, same, 0))
                    continue
                l = flag_of(f, t[1], flags)
                if l is not None and fv[flags[l]] is not None:
                    v = fv[flags[l]]
                    nx = None
                    for val, tgt in t[2]:
                        if bool(val) == v:
                            nx = tgt
                    work.append((nx if nx is not None else t[3], tuple(fv), d, src, same, 0))
                    continue
            for x in term_succ(t):
                work.append((x, tuple(fv), d, src, same, 0))
        return outs

    def summary(s, g, d):
        k = (g.key, d)
        if k in s.memo:
            return s.memo[k]
        s.memo[k] = {d}
        r = {bool(x) for x, _ in s.run(g, d)}
        s.memo[k] = r or set()
        return s.memo[k]


def flag_locals(f):
    out = {}
    for l, ds in f.defs().items():
        if f.ty(l) == "bool" and l > f.nargs and all(k == "rv" and (rv[0] == "use" and "p" not in rv[1] or rv[0] == "bin" and rv[1] == "BitOr") for _, k, rv, _ in ds) and len(ds) > 1:
            out[l] = len(out)
    return out


def or_flag(f, st, flags):
    """`flag = flag | (x.field != v)`: (field, v)"""
    if len(st[1]) == 1 and st[1][0] in flags and st[2][0] == "bin" and st[2][1] == "BitOr":
        for o in st[2][2:4]:
            t = peel(f.op_term(o))
            ab = None
            if t[0] == "bin" and t[1] == "Ne":
                ab = (t[2], t[3])
            elif t[0] == "call" and last(t[1]) == "ne" and len(t[2]) == 2:
                ab = t[2]
            if ab:
                for x, y in (ab, ab[::-1]):
                    x = peel(x)
                    if x[0] == "field":
                        return x[2], show(peel(y))
    return None


def flag_of(f, op, flags):
    seen = 0
    while "p" in op and len(op["p"]) == 1 and seen < 5:
        l = op["p"][0]
        if l in flags:
            return l
        ds = f.defs().get(l, [])
        if len(ds) != 1 or ds[0][1] != "rv" or ds[0][2][0] != "use":
            return None
        op = ds[0][2][1]
        seen += 1
    return None


def takes_lock(p, d, f):
    for c in f.calls():
        if re.search(r"Mutex.*::(lock|try_lock|blocking_lock)$", c.name) and d.state in " ".join(c.callee.generics or []):
            return True
    return False


# ---------------------------------------------------------------- counters
def amount(p, t, depth=0):
    """canonical name of an amount: a constant, or the request field it denotes"""
    t = peel(t)
    if t[0] == "const":
        return str(t[1])
    if t[0] == "field":
        return t[2]
    if t[0] == "call" and depth < 4:
        rs = {amount(p, r, depth + 1) for g in call_targets(p, t) for r in ret_terms(p, g)}
        if len(rs) == 1:
            return rs.pop()
    return "?" + t[0]


def amount_owner(p, t, depth=0):
    """the struct whose field the amount is"""
    t = peel(t)
    if t[0] == "field":
        return str(t[3]) if t[3:] else None
    if t[0] == "call" and depth < 4:
        rs = {amount_owner(p, r, depth + 1) for g in call_targets(p, t) for r in ret_terms(p, g)}
        if len(rs) == 1:
            return rs.pop()
    return None


def arith(p, t, state, depth=0):
    """(field, 'inc'|'dec', amount) when the value is one of the state's fields plus or minus something"""
    t = peel(t)
    if t[0] == "field" and t[2] == "0" and t[1][0] == "bin":
        t = t[1]
    if t[0] in ("some",):
        return arith(p, t[1], state, depth)
    ops = None
    if t[0] == "bin" and re.match(r"(Add|Sub)", t[1]):
        ops = (t[1][:3], t[2], t[3])
    elif t[0] == "call":
        l = last(t[1])
        m = re.match(r"(checked|saturating|wrapping|overflowing|strict)_(add|sub)$", l)
        if m and len(t[2]) == 2:
            ops = (m.group(2).capitalize(), t[2][0], t[2][1])
        elif l in ("expect", "unwrap", "unwrap_or_else", "unwrap_or_default", "unwrap_or") and t[2]:
            return arith(p, t[2][0], state, depth)
        elif depth < 2:
            for g in call_targets(p, t):
                for r in ret_terms(p, g):
                    o = arith_args(p, g, r)
                    if o and len(t[2]) >= max(o[1], o[2]):
                        ops = (o[0], t[2][o[1] - 1], t[2][o[2] - 1])
    if ops is None:
        return None
    a = peel(ops[1])
    if a[0] == "field" and a[3:] and str(a[3]) == state:
        return a[2], "inc" if ops[0] == "Add" else "dec", amount(p, ops[2])
    b = peel(ops[2])
    if ops[0] == "Add" and b[0] == "field" and b[3:] and str(b[3]) == state:
        return b[2], "inc", amount(p, ops[1])
    return None


def arith_args(p, g, t):
    """a helper that returns its parameter i plus/minus its parameter j"""
    t = peel(t)
    if t[0] in ("some",):
        return arith_args(p, g, t[1])
    if t[0] == "field" and t[2] == "0" and t[1][0] == "bin":
        t = t[1]
    if t[0] == "call" and last(t[1]) in ("expect", "unwrap", "unwrap_or_else", "unwrap_or_default") and t[2]:
        return arith_args(p, g, t[2][0])
    ops = None
    if t[0] == "bin" and re.match(r"(Add|Sub)", t[1]):
        ops = (t[1][:3], t[2], t[3])
    elif t[0] == "call":
        m = re.match(r"(checked|saturating|wrapping|strict)_(add|sub)$", last(t[1]))
        if m and len(t[2]) == 2:
            ops = (m.group(2).capitalize(), t[2][0], t[2][1])
    if ops:
        a, b = peel(ops[1]), peel(ops[2])
        if a[0] == "arg" and b[0] == "arg" and a[1] == g.key and b[1] == g.key:
            return ops[0], a[2], b[2]
    return None


def counter_writes(p, d):
    """[(fn, block, line, field, kind, amount)]; kind in inc/dec/set"""
    out = []
    for f in lib(p):
        for bi, b in enumerate(f.bb):
            if b.get("c"):
                continue
            for st in b["s"]:
                if st[0] == "=" and len(st[1]) > 1 and isinstance(st[1][-1], list) and st[1][-1][0] == "f" and len(st[1][-1]) > 2 and str(st[1][-1][2]) == d.state:
                    a = arith(p, f.rv_term(st[2]), d.state)
                    n = st[1][-1][1]
                    if a and a[0] == n:
                        out.append((f, bi, st[3], n, a[1], a[2]))
                    else:
                        out.append((f, bi, st[3], n, "set", show(f.rv_term(st[2]))[:40]))
            t = b["t"]
            if t[0] == "call" and len(t[3]) > 1 and isinstance(t[3][-1], list) and t[3][-1][0] == "f" and len(t[3][-1]) > 2 and str(t[3][-1][2]) == d.state:
                n = t[3][-1][1]
                a = arith(p, f.call_term(t, 0, bi), d.state)
                if a and a[0] == n:
                    out.append((f, bi, t[6], n, a[1], a[2]))
                else:
                    out.append((f, bi, t[6], n, "set", ""))
        for c in f.calls():
            if last(c.name) in ("insert", "remove") and c.args and "collections" in c.name:
                t = peel(c.arg(0))
                while t[0] == "call" and last(t[1]) in ("deref_mut", "deref"):
                    t = peel(t[2][0])
                if t[0] == "field" and t[3:] and str(t[3]) == d.state:
                    out.append((f, c.bb, c.line, t[2], "inc" if last(c.name) == "insert" else "dec", "key"))
    return out


def is_drop(f):
    return (f.impl_trait or "").endswith("ops::drop::Drop") or "core::ops::drop::Drop>::drop" in f.name


def path_without(f, start, blocks, stop=("ret", "yield")):
    """is there a path from the end of block `start` to a return or await that avoids `blocks`?"""
    seen, work = set(), list(f.succ(start))
    while work:
        b = work.pop()
        if b in seen or b in blocks or f.bb[b].get("c"):
            continue
        seen.add(b)
        if f.bb[b]["t"][0] in stop:
            return True
        work += f.succ(b)
    return False


def every_path(f, blocks):
    if 0 in blocks:
        return True
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen or b in blocks or f.bb[b].get("c"):
            continue
        seen.add(b)
        if f.bb[b]["t"][0] == "ret":
            return False
        work += f.succ(b)
    return True


class S(Spec):
    def __init__(s, p, ds, gauges):
        s.p, s.ds, s.g = p, ds, gauges
        s.atoms = [f"fit:{x}" for _, x in gauges] + [f"inc:{x}" for _, x in gauges] + ["idle", "live", "removed"]
        s.text = {"idle": "a check that no other task is active for the project", "live": "a check that the request was not cancelled",
                  "removed": "the request having been taken off the queue"}
        for _, x in gauges:
            s.text[f"fit:{x}"] = f"a check that `{x}` stays within its limit"
            s.text[f"inc:{x}"] = f"`{x}` having been reserved"

    def prefilter(s, f):
        return f.crate == LIB

    def stmt(s, fn, st):
        pl = st[1]
        if len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == "f" and len(pl[-1]) > 2:
            for stt, x in s.g:
                if pl[-1][1] == x and str(pl[-1][2]) == stt:
                    a = arith(s.p, fn.rv_term(st[2]), stt)
                    if a and a[1] == "inc":
                        return ((f"inc:{x}",), (f"fit:{x}",))
                    return ((), (f"inc:{x}",))
        return None

    def event(s, c):
        r = []
        if last(c.name) == "insert" and "collections" in c.name and c.args:
            t = peel(c.arg(0))
            while t[0] == "call" and last(t[1]) in ("deref_mut", "deref"):
                t = peel(t[2][0])
            for stt, x in s.g:
                if t[0] == "field" and t[2] == x and str(t[3]) == stt:
                    r.append(f"inc:{x}")
        if last(c.name) in ("swap_remove", "remove", "pop", "pop_first") and c.args:
            t = peel(c.arg(0))
            while t[0] == "call" and last(t[1]) in ("deref_mut", "deref"):
                t = peel(t[2][0])
            if t[0] == "field" and any(t[3:] and str(t[3]) == d.state and any(e in d.fields.get(t[2], "") for e in d.elems) for d in s.ds):
                r.append("removed")
        # call destination is the counter itself
        t = c.fn.bb[c.bb]["t"]
        pl = t[3]
        if len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == "f" and len(pl[-1]) > 2:
            for stt, x in s.g:
                if pl[-1][1] == x and str(pl[-1][2]) == stt:
                    a = arith(s.p, c.fn.call_term(t, 0, c.bb), stt)
                    if a and a[1] == "inc":
                        r.append(f"inc:{x}")
        return r

    def kill(s, c):
        r = []
        if re.search(r"Mutex.*::(lock|try_lock)$", c.name) and any(d.state in " ".join(c.callee.generics or []) for d in s.ds):
            r += [f"fit:{x}" for _, x in s.g] + ["idle"]
        if c.name.endswith("IntoFuture::into_future"):
            r += ["live"] + [f"fit:{x}" for _, x in s.g] + ["idle"]
        return r

    def cond(s, fn, t, o):
        r = []
        t = peel(t)
        if t[0] == "call":
            l = last(t[1])
            if l == "is_cancelled" and o is False:
                r.append("live")
            if l == "is_some_and" and o is False and any(x[0] == "fnitem" and "is_cancelled" in str(x) for a in t[2] for x in walk(a)):
                r.append("live")
            if l == "is_some_and" and o is False:
                for a in t[2]:
                    a = peel(a)
                    if a[0] == "agg" and a[1] == "closure" and a[2] in s.p.fns and all(peel(x)[0] == "call" and last(peel(x)[1]) == "is_cancelled" for x in ret_terms(s.p, s.p.fns[a[2]])):
                        r.append("live")
            if l == "contains" and o is False:
                for x in walk(t[2][0]):
                    if x[0] == "field" and x[3:] and (str(x[3]), x[2]) in s.g:
                        r += ["idle", f"fit:{x[2]}"]
                    if x[0] in ("arg", "upvar"):
                        u = deep(s.p, x)
                        for y in walk(u):
                            if y[0] == "field" and y[3:] and (str(y[3]), y[2]) in s.g:
                                r += ["idle", f"fit:{y[2]}"]
        return r

    def cmp(s, fn, op, a, b):
        r = []
        if op in ("Lt", "Le"):
            a1, b1 = peel(a), peel(b)
            if a1[0] == "arg":
                u = closure_arg(s.p, a1)
                if u is not None:
                    a1 = peel(u)
            for stt, x in s.g:
                ar = arith(s.p, a1, stt)
                lim = is_limit(s.p, b1)
                if lim is None:
                    continue
                if ar and ar[0] == x and ar[1] == "inc":
                    r.append(f"fit:{x}")
                elif op == "Lt" and a1[0] == "field" and a1[2] == x and str(a1[3]) == stt:
                    r.append(f"fit:{x}")
        return r


def deep(p, t, d=0):
    """a parameter/upvar resolved to what every caller passes (single caller shape)"""
    if d > 3:
        return t
    if t[0] == "upvar":
        u = p.resolve_up(t)
        return u if u == t else deep_walk(p, u, d + 1)
    if t[0] == "arg":
        ts = arg_terms(p, t[1], t[2])
        if ts and len(ts) >= 1:
            us = [deep_walk(p, x[2], d + 1) for x in ts]
            return ("tuple",) + tuple(us) if len(us) > 1 else us[0]
    return t


def deep_walk(p, t, d):
    t = peel(t)
    if t[0] in ("arg", "upvar"):
        return deep(p, t, d)
    return t


def is_limit(p, t):
    """the limit a counter is compared with: a field of an immutable policy/configuration struct"""
    t = peel(t)
    if t[0] == "field":
        return t[2]
    if t[0] == "call":
        rs = {is_limit(p, r) for g in call_targets(p, t) for r in ret_terms(p, g)}
        rs.discard(None)
        if len(rs) == 1:
            return rs.pop()
    return None


def check(ctx):
    p = ctx.p
    ctx.rule("wake", "every change of what waiters wait for is announced to all of them before the function returns or awaits")
    ctx.rule("arm", "a waiter subscribes to changes before it looks at the state, so no change between look and sleep is lost")
    ctx.rule("limit", "resources are reserved only under the lock and after a check that every one of them stays within its limit")
    ctx.rule("release", "everything reserved is owned by a lease whose drop gives back exactly the same, on every path")
    ctx.rule("queue", "a queued request is owned by a registration whose drop takes it off the queue unless it was admitted")
    ctx.rule("cancel", "a cancelled request is never admitted and never keeps waiting")
    ctx.rule("held", "the admitted task runs while its lease is held")
    ctx.rule("fits", "a request that can never fit is refused instead of queued for ever")
    ds = domains(p)
    ctx.need(len(ds) >= 2, "admission state not found")
    owners = {d.state for d in ds} | {e for d in ds for e in d.elems}
    rel = compared_fields(p, owners)
    allg = []
    for d in ds:
        cw = counter_writes(p, d)
        both = {w[3] for w in cw if w[4] == "inc"} & {w[3] for w in cw if w[4] == "dec"}
        d.cw = [w for w in cw if (d.state, w[3]) in rel or w[3] in both]
        inc = {w[3] for w in d.cw if w[4] == "inc"}
        sets = {w[3] for w in d.cw if w[4] == "set"}
        d.gauges = sorted(inc - {x for x in sets if not any(w[3] == x and w[4] == "dec" for w in d.cw)})
        # a counter that is only ever reset to a constant is bookkeeping, not a resource
        ctx.need(d.gauges, f"no resource counters in {d.state}")
        allg += [(d.state, x) for x in d.gauges]
    fl = Flow(p, S(p, ds, allg))
    ls = {self_type(w[0]) for d in ds for w in d.cw if w[4] == "dec" and is_drop(w[0])}
    built = {f.key for lt in ls for f, *_ in agg_sites(p, "^" + re.escape(lt) + "$")}
    fl.entries({w[0].key for d in ds for w in d.cw} | built, roots_of(p) & set(p.fns))
    for d in ds:
        wake(ctx, d, rel)
        release(ctx, d, fl)
        queue(ctx, d, fl)
        held(ctx, d)
    arm(ctx)
    fits(ctx, ds)


def wake(ctx, d, rel):
    p = ctx.p
    m = Dirty(p, d, rel)
    n = 0
    for f in lib(p):
        if not takes_lock(p, d, f):
            continue
        outs = m.run(f, False)
        w = any(m.wr(f, st[1]) for b in f.bb for st in b["s"] if st[0] == "=") or any(m.ev(f, c) == "dirty" or any(
            True in m.summary(g, False) for g in p.targets(c.callee) if g.crate == LIB and not g.is_async) for c in f.calls())
        if not w:
            continue
        n += 1
        bad = [src for dty, src in outs if dty]
        put(ctx, "wake", not bad, f"{base_fn(f.name)}: every change is announced", f"{base_fn(f.name)}",
            "what the waiters wait for changes without all of them being woken: a request that could now be admitted stays asleep",
            f"{f.file}:{bad[0] if bad and bad[0] else f.line}")
    ctx.need(n >= 2, f"no state changes found for {d.state}")


def arm(ctx):
    p = ctx.p
    n = 0
    for f in lib(p):
        for c in f.calls():
            if c.name != "tokio::sync::notify::Notify::notified":
                continue
            t = p.resolve_up(c.arg(0))
            fld = next((x for x in walk(t) if x[0] == "field" and x[3:] and any(NOTIFY.match(ty) and nm == x[2] for nm, ty in fields_of(p, str(x[3])))), None)
            if fld is None:
                continue
            n += 1
            owner = str(fld[3])
            looks = set()
            for e in f.calls():
                if looks_at(p, e, owner, fld[2], 0):
                    looks.add(e.bb)
            put(ctx, "arm", not path_without(f, c.bb, looks, ("yield",)), f"{base_fn(f.name)}: the state is looked at after subscribing", f"{base_fn(f.name)}",
                "the waiter looks at the state before it subscribes to changes: a change in between is never noticed", c.loc())
    ctx.need(n >= 3, "waiting on notifications not found")


def looks_at(p, e, owner, nf, d):
    for i in range(len(e.args)):
        for x in walk(p.resolve_up(e.arg(i))):
            if x[0] == "field" and x[3:] and str(x[3]) == owner and x[2] != nf and re.search(r"Mutex|OnceCell|OnceLock|Atomic", dict(fields_of(p, owner)).get(x[2], "")) and re.search(
                    r"::(lock|get|load|try_lock|borrow|initialized)$", e.name):
                return True
    if d < 2:
        for g in p.targets(e.callee):
            if g.crate == LIB and not g.is_async and any(looks_at(p, h, owner, nf, d + 1) for h in g.calls()):
                return True
    return False


def release(ctx, d, fl):
    p = ctx.p
    drops = {}
    for f, bi, ln, x, kind, am in d.cw:
        if kind == "dec" and x in d.gauges:
            drops.setdefault(x, []).append((f, bi, ln, am))
    leases = {}
    for x in d.gauges:
        incs = [w for w in d.cw if w[3] == x and w[4] == "inc"]
        decs = drops.get(x, [])
        dd = [w for w in decs if drop_root(p, w[0]) is not None]
        if not dd:
            ctx.bad("release", f"{short(d.state)}.{x}:never", f"`{x}` is reserved but no lease gives it back when it is dropped", f"{incs[0][0].file}:{incs[0][2]}", [])
            continue
        for f, bi, ln, am in dd:
            g = drop_root(p, f)
            leases.setdefault(self_type(g), set()).add(x)
            ok = every_path(f, {bi}) and (f is g or every_path(g, {c.bb for c in g.calls() if any(h.key == f.key for h in p.targets(c.callee))}))
            put(ctx, "release", ok, f"{base_fn(g.name)}: `{x}` is given back on every path", f"{base_fn(g.name)}:{x}:path",
                f"dropping the lease does not always give `{x}` back", f"{f.file}:{ln}")
            for w in incs:
                put(ctx, "release", am == w[5], f"{base_fn(g.name)}: `{x}` gives back what was reserved ({am})", f"{base_fn(g.name)}:{x}:amount",
                    f"`{x}` is reserved by `{w[5]}` but given back by `{am}`", f"{f.file}:{ln}")
        for f, bi, ln, am in decs:
            if drop_root(p, f) is None:
                ctx.bad("release", f"{base_fn(f.name)}:{x}:outside", f"`{x}` is given back outside the lease that owns it", f"{f.file}:{ln}", [])
        for w in d.cw:
            if w[3] == x and w[4] == "set":
                ctx.bad("release", f"{base_fn(w[0].name)}:{x}:set", f"`{x}` is overwritten instead of being reserved or given back", f"{w[0].file}:{w[2]}", [])
    # the limit at each reservation
    for f, bi, ln, x, kind, am in d.cw:
        if kind != "inc" or x not in d.gauges:
            continue
        m = before(fl, f, bi, x)
        put(ctx, "limit", m == FULL or bool(m & fl.bit[f"fit:{x}"]), f"{base_fn(f.name)}: `{x}` reserved within its limit", f"{base_fn(f.name)}:{x}",
            f"`{x}` is reserved without a check, under the same lock, that it stays within its limit", f"{f.file}:{ln}")
    # lease construction
    k = 0
    for lt, xs in leases.items():
        for f, bi, st, flds in agg_sites(p, "^" + re.escape(lt) + "$"):
            k += 1
            ins = fl.ins.get(f.key) or fl.analyze(f, 0)
            m = at_stmt(fl, f, ins, bi, st)
            for x in d.gauges:
                put(ctx, "release", m == FULL or bool(m & fl.bit[f"inc:{x}"]), f"{base_fn(f.name)}: the lease is created after `{x}` was reserved", f"{base_fn(f.name)}:{x}:lease",
                    f"a lease is handed out on a path on which `{x}` was not reserved", f"{f.file}:{st[3]}")
            put(ctx, "cancel", m == FULL or bool(m & fl.bit["live"]), f"{base_fn(f.name)}: admitted only if not cancelled", f"{base_fn(f.name)}:cancelled",
                "a request that was cancelled while it waited can still be admitted", f"{f.file}:{st[3]}")
            # amounts come from the admitted request
            for n, t in flds.items():
                if any(w[5] == n for w in d.cw if w[4] == "dec") or d.owner not in dict(fields_of(p, lt)).get(n, "") and dict(fields_of(p, lt)).get(n) != "bool":
                    okv = mentions(p, t, lambda y: y[0] == "call" and last(y[1]) in ("swap_remove", "remove", "pop", "index", "get"), 4)
                    put(ctx, "release", okv, f"{base_fn(f.name)}: the lease describes the admitted request", f"{base_fn(f.name)}:{n}:same",
                        f"the lease's `{n}` is not that of the request that was admitted", f"{f.file}:{st[3]}")
    ctx.need(k >= 1, f"no lease is handed out for {d.state}")
    # nothing reserved is lost
    for f in lib(p):
        res = {bi for w in d.cw if w[4] == "inc" and w[3] in d.gauges and w[0].key == f.key for bi in [w[1]]}
        for c in f.calls():
            if any(w[0].key == g.key and w[4] == "inc" and w[3] in d.gauges for w in d.cw for g in p.targets(c.callee)):
                res.add(c.bb)
        if not res or not takes_lock(p, d, f):
            continue
        built = {bi for lt in leases for g, bi, st, fl_ in agg_sites(p, "^" + re.escape(lt) + "$") if g.key == f.key}
        for c in f.calls():
            if any(any(g.key == h.key for lt in leases for g, *_ in agg_sites(p, "^" + re.escape(lt) + "$")) for h in p.targets(c.callee)):
                built.add(c.bb)
        bad = [b for b in res if b not in built and path_without(f, b, built)]
        put(ctx, "release", not bad, f"{base_fn(f.name)}: everything reserved ends up in a lease", f"{base_fn(f.name)}:lost",
            "resources are reserved on a path that hands out no lease: they are never given back", f"{f.file}:{f.line}")


def short(n):
    return n.rsplit("::", 1)[-1]


def drop_root(p, f, d=0):
    """the Drop implementation this function is (or is only called from)"""
    if is_drop(f):
        return f
    cs = p.callers().get(f.key, ())
    if d < 2 and cs:
        rs = {drop_root(p, g, d + 1) for _, g, _ in cs}
        if len(rs) == 1:
            return rs.pop()
    return None


def self_type(g):
    m = re.match(r"^<(.+) as core::ops::drop::Drop>::drop$", g.name)
    return re.sub(r"<.*>$", "", m.group(1)) if m else re.sub(r"^&mut ", "", g.ty(1))


def before(fl, f, bi, x):
    """facts just before the reservation itself"""
    ins = fl.ins.get(f.key) or fl.analyze(f, 0)
    cur = ins[bi]
    if cur == FULL:
        return FULL
    for st in f.bb[bi]["s"]:
        if st[0] == "=":
            pl = st[1]
            if len(pl) > 1 and isinstance(pl[-1], list) and pl[-1][0] == "f" and pl[-1][1] == x:
                return cur
            e = fl.s.stmt(f, st)
            if e:
                cur = (cur & ~fl.mask(e[1])) | fl.mask(e[0])
    return cur


def at_stmt(fl, f, ins, bi, target):
    cur = ins[bi]
    if cur == FULL:
        return FULL
    for st in f.bb[bi]["s"]:
        if st is target:
            return cur
        if st[0] == "=":
            e = fl.s.stmt(f, st)
            if e:
                cur = (cur & ~fl.mask(e[1])) | fl.mask(e[0])
    return cur


def queue(ctx, d, fl):
    p = ctx.p
    qf = [n for n, t in d.fields.items() if any(e in t for e in d.elems)]
    isq = lambda t: any(x[0] == "field" and x[3:] and str(x[3]) == d.state and x[2] in qf for x in walk(t))
    # registrations: types whose drop removes from the queue
    regs = {}
    for f in lib(p):
        if is_drop(f):
            for c in f.calls():
                hit = last(c.name) in ("swap_remove", "remove", "retain") and c.args and isq(c.arg(0)) or any(
                    last(e.name) in ("swap_remove", "remove", "retain") and e.args and isq(e.arg(0)) for g in p.targets(c.callee) if g.crate == LIB for e in g.calls())
                if hit:
                    regs[self_type(f)] = (f, c)
    pushes = [c for f in lib(p) for c in f.calls() if last(c.name) in ("push", "push_back", "insert") and c.args and isq(c.arg(0))]
    ctx.need(pushes, f"no requests are queued in {d.state}")
    if not regs:
        ctx.bad("queue", f"{short(d.state)}:unowned", "a queued request is not taken off the queue when its waiter goes away", pushes[0].loc(), [])
        return
    for c in pushes:
        f = c.fn
        built = {bi for rt in regs for g, bi, st, x in agg_sites(p, "^" + re.escape(rt) + "$") if g.key == f.key}
        put(ctx, "queue", not path_without(f, c.bb, built), f"{base_fn(f.name)}: a queued request is owned by a registration", f"{base_fn(f.name)}:own",
            "a request is queued on a path that creates no registration for it: if the waiter goes away it stays queued for ever", c.loc())
    for rt, (f, c) in regs.items():
        # removal by own identity on the not-admitted path
        flag = None
        for b in f.bb:
            if b["t"][0] == "switch":
                t = peel(f.op_term(b["t"][1]))
                if t[0] == "un":
                    t = peel(t[2])
                if t[0] == "field" and t[3:] and rt in str(t[3]):
                    flag = t[2]
        byid = any(x[0] == "field" and x[2] == "id" or x[0] == "field" and rt in str(x[3:]) for g in [f] + [h for h in lib(p) if h.parent == f.key] for b in g.bb for st in b["s"]
                   if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Eq", "Ne") for o in st[2][2:4] for x in walk(p.resolve_up(g.op_term(o))))
        put(ctx, "queue", byid, f"{base_fn(f.name)}: takes its own request off the queue", f"{base_fn(f.name)}:id",
            "the registration does not remove its own request (compared by identity)", c.loc())
        # the removal block is reached unless admitted or not queued any more
        lk = {e.bb for e in f.calls() if re.search(r"Mutex.*::lock$", e.name)}
        skips = not every_path(f, lk)
        if skips and flag is None:
            ctx.bad("queue", f"{base_fn(f.name)}:skip", "the registration may leave its request queued", c.loc(), [])
        # the admitted flag is set only after the request was taken off the queue
        if flag:
            for g in lib(p):
                for bi, b in enumerate(g.bb):
                    if b.get("c"):
                        continue
                    for st in b["s"]:
                        if st[0] == "=" and len(st[1]) > 1 and isinstance(st[1][-1], list) and st[1][-1][0] == "f" and st[1][-1][1] == flag and rt in str(st[1][-1][2:]):
                            ins = fl.ins.get(g.key) or fl.analyze(g, 0)
                            m = at_stmt(fl, g, ins, bi, st)
                            put(ctx, "queue", m == FULL or bool(m & fl.bit["removed"]), f"{base_fn(g.name)}: marked admitted after leaving the queue", f"{base_fn(g.name)}:admitted",
                                "a request is marked admitted although it is still queued", f"{g.file}:{st[3]}")
            for g, bi, st, flds in agg_sites(p, "^" + re.escape(rt) + "$"):
                v = peel(flds.get(flag, ("unknown",)))
                put(ctx, "queue", v[0] == "const" and v[1] in (0, False, "false"), f"{base_fn(g.name)}: a new registration is not admitted", f"{base_fn(g.name)}:new",
                    "a new registration already counts as admitted: dropping it leaves the request queued", f"{g.file}:{st[3]}")
    # waiting with a token also waits for its cancellation
    for f in lib(p):
        if not any(c.name == "tokio::sync::notify::Notify::notified" for c in f.calls()) or not takes_lock(p, d, f):
            continue
        tok = any(last(c.name) in ("is_cancelled", "cancelled") or any("is_cancelled" in str(x) for i in range(len(c.args)) for x in walk(c.arg(i)) if x[0] == "fnitem") for c in f.calls())
        arms = {c.bb for c in f.calls() if last(c.name) == "cancelled" and TOKEN in c.name}
        none = set()
        for bi, b in enumerate(f.bb):
            if b["t"][0] == "switch":
                t = peel(f.op_term(b["t"][1]))
                if t[0] == "disc" and "Option" in str(t[2]):
                    u = p.resolve_up(t[1])
                    if mentions(p, u, lambda y: TOKEN in ty_of(p, y), 3) or TOKEN in show(u):
                        none |= {tg for v, tg in b["t"][2] if v == 0} or {b["t"][3]}
                elif t[0] == "disc":
                    u = peel(t[1])
                    if any(TOKEN in ty_of(p, y) for y in walk(p.resolve_up(u))):
                        none |= {tg for v, tg in b["t"][2] if v == 0}
        put(ctx, "cancel", not tok or not any(path_without(f, c.bb, arms | none, ("yield",)) for c in f.calls() if c.name == "tokio::sync::notify::Notify::notified"),
            f"{base_fn(f.name)}: a cancelled waiter stops waiting", f"{base_fn(f.name)}:wait", "a waiter sleeps without listening to its cancellation", f"{f.file}:{f.line}")


def ty_of(p, t):
    try:
        if t[0] in ("arg", "var"):
            return p.fns[t[1]].ty(t[2]) or ""
        if t[0] == "upvar":
            return str(t)
    except Exception:
        pass
    return ""


def held(ctx, d):
    """bodies that run a caller's task own a lease that outlives the task"""
    p = ctx.p
    leases = {self_type(w[0]) for w in d.cw if w[4] == "dec" and is_drop(w[0])}
    run = []
    owner_impl = {f.name.rsplit("::", 1)[0] for f in lib(p) if any(lt in (f.ty(0) or "") or f.coro and lt in (f.coro.ty(0) or "") for lt in leases)}
    for f in lib(p):
        if not any(f.name.startswith(o) for o in owner_impl):
            continue
        for c in f.calls():
            gen = None
            if c.name in ("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call") and re.match(r"^[A-Z]\w*$", (c.callee.generics or [""])[0]):
                gen = "call"
            elif last(c.name) == "install" and "rayon" in c.name:
                gen = "call"
            elif c.name.endswith("IntoFuture::into_future") and re.match(r"^[A-Z]\w*$", (c.callee.generics or [""])[0]):
                gen = "await"
            if gen:
                run.append((f, c))
    if not any("Resource" in lt for lt in leases):
        return
    ctx.need(len(run) >= 2, "task execution under a lease not found")
    for f, c in run:
        own = [l for l in range(len(f.locals)) if any(re.sub(r"<.*>$", "", f.ty(l) or "") == lt for lt in leases)]
        # dropped (or moved away) before the task runs?
        live = False
        for l in own:
            gone = {bi for bi, b in enumerate(f.bb) if not b.get("c") and (b["t"][0] == "drop" and b["t"][1] == [l] or b["t"][0] == "call" and any(
                a.get("p") == [l] and a.get("m") for a in b["t"][2]) or any(
                st[0] == "=" and any(o.get("p") == [l] and o.get("m") for o in ops_of(st[2])) for st in b["s"]))}
            defs = {b for b, *_ in f.defs().get(l, [])}
            # the local is defined before and not gone before the task
            if reaches(f, defs, c.bb, gone) and not reaches(f, gone, c.bb, defs, strict=True) and reaches(f, {c.bb}, None, set(), gone):
                live = True
        for e in f.calls():
            if last(e.name) == "num_threads" and "rayon" in e.name and len(e.args) > 1:
                am = amount(p, p.resolve_up(e.arg(1)))
                own2 = amount_owner(p, p.resolve_up(e.arg(1)))
                put(ctx, "held", am in {w[5] for w in d.cw if w[4] == "inc"} and any(own2 and own2 in ty for lt in leases for _, ty in fields_of(p, lt)), f"{base_fn(f.name)}: its own pool is as wide as the reservation", f"{base_fn(f.name)}:pool",
                    "the task's thread pool is not sized by what was reserved for it", e.loc())
        put(ctx, "held", live, f"{base_fn(f.name)}: the task runs while the lease is held", f"{base_fn(f.name)}:{last(c.name)}",
            "the task runs without its lease being held: others are admitted on top of it", c.loc())


def reaches(f, srcs, dst, avoid, goal=None, strict=False):
    """some path from a block of srcs to dst (or to any block of goal) that avoids `avoid`"""
    seen, work = set(), []
    for s in srcs:
        work += f.succ(s)
        if not strict and s == dst:
            return True
    while work:
        b = work.pop()
        if b == dst or goal is not None and b in goal:
            return True
        if b in seen or b in avoid or f.bb[b].get("c"):
            continue
        seen.add(b)
        work += f.succ(b)
    return False


def fits(ctx, ds):
    """what admission compares with a limit is also compared, alone, before queueing"""
    p = ctx.p
    for d in ds:
        pairs, alone, loc = set(), set(), {}
        fns = [f for f in lib(p) if f.name.startswith(d.state.rsplit("::", 1)[0] + "::")]
        for f in fns:
            for bi, b in enumerate(f.bb):
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Le", "Lt", "Gt", "Ge"):
                        x, y = peel(f.op_term(st[2][2])), peel(f.op_term(st[2][3]))
                        op = st[2][1]
                        if op in ("Gt", "Ge"):
                            x, y = y, x
                        if x[0] == "arg":
                            u = closure_arg(p, x)
                            x = peel(u) if u is not None else x
                        lim = is_limit(p, p.resolve_up(y)) if y[0] != "const" else None
                        if lim is None:
                            continue
                        ar = arith(p, x, d.state)
                        if ar and ar[1] == "inc":
                            pairs.add((ar[2], lim))
                            loc[(ar[2], lim)] = f"{f.file}:{st[3]}"
                        elif x[0] in ("call", "field"):
                            alone.add((amount(p, x), lim))
        for am, lim in sorted(pairs):
            if re.match(r"^\d+$", am):
                continue
            put(ctx, "fits", (am, lim) in alone, f"{short(d.state)}: a request for more `{am}` than `{lim}` is refused", f"{short(d.state)}:{am}:{lim}",
                f"a request for more `{am}` than the limit `{lim}` it is admitted against is not refused up front and waits for ever", loc[(am, lim)])
