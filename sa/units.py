"""Units of text offsets: which of {utf16, byte, char} a number can count, by tracing where it comes from."""
import re
from ir import peel
from vals import arg_terms, call_targets, closure_arg

U, B, C = "utf16", "byte", "char"
STR = r"(core::str::<impl str>|alloc::str::<impl str>|alloc::string::String)::"
BYTE = re.compile(STR + r"(len|find|rfind|floor_char_boundary|ceil_char_boundary)$|<impl char>::len_utf8$|::len_utf8$"
                  r"|regex::.*(Match|SubCaptureMatches).*::(start|end|len)$|ruby_prism::.*::(start_offset|end_offset)$|Utf8Error::valid_up_to$"
                  r"|tree_sitter::.*::(start_byte|end_byte)$")
LEN16 = re.compile(r"<impl char>::len_utf16$|::len_utf16$")
THROUGH = re.compile(r"(core::cmp::Ord|core::cmp)::(min|max|clamp)$|core::num::<impl \w+>::(saturating|checked|wrapping|overflowing)_(add|sub)\w*$|core::num::<impl \w+>::abs_diff$"
                     r"|core::(option::Option|result::Result)::<.*>::(unwrap|expect|unwrap_or|unwrap_or_default|unwrap_or_else|ok|ok_or|ok_or_else|or|filter|map_err|copied|cloned|inspect|take|xor)$"
                     r"|core::convert::(TryFrom::try_from|TryInto::try_into|From::from|Into::into)$|core::num::<impl .*>::(try_from|from)$|core::ops::try_trait::Try::branch$"
                     r"|core::num::<impl core::convert::.*>::.*$")
ITER = "core::iter::traits::iterator::Iterator::"
ADAPT = ("take_while", "skip_while", "filter", "take", "skip", "rev", "peekable", "by_ref", "inspect", "step_by", "fuse", "cloned", "copied", "into_iter", "map_while", "chain")


def last(n):
    return n.rsplit("::", 1)[-1]


class Units:
    def __init__(s, p):
        s.p = p
        s.memo, s.fields, s.busy, s.prev, s.hit, s.asc, s.cnt = {}, None, set(), {}, False, {}, {}
        s.pos = {a["n"] for cr in p.crates.values() for a in cr["adts"] if s.is_pos(a)} | {"lsp_types::Position"}

    @staticmethod
    def is_pos(a):
        vs = a.get("v") or []
        if len(vs) != 1:
            return False
        n = {x[0] for x in vs[0][2]}
        return {"line", "character"} <= n

    # ---- code that only runs on ASCII text, where all units agree
    def ascii_test(s, t, d=0):
        t = peel(t)
        if t[0] == "call" and last(t[1]) == "is_ascii" and t[2] and ("str" in t[1] or "[u8]" in t[1] or "u8" in t[1]):
            r = peel(t[2][0])
            return r[0] in ("arg", "field", "var", "upvar", "call") and not (r[0] == "call" and last(r[1]) in ("unwrap_or", "get", "take"))
        if t[0] == "call" and d < 3:
            gs = [g for g in call_targets(s.p, t) if g.key in s.p.fns]
            return bool(gs) and all(s.ascii_test(g.term(0), d + 1) for g in gs)
        if t[0] == "field" and len(t) > 3 and t[3] in s.p.adts and d < 3:
            ds = s.field_defs(t[3], t[2])
            vs = [peel(f.op_term(o) if o is not None else f.rv_term(rv)) for f, o, rv in ds]
            vs = [v for v in vs if not (v[0] == "field" and v[2:] == t[2:] or v[0] == "call" and last(v[1]) == "default" or v[0] == "const" and v[1] is False)]
            return bool(vs) and all(s.ascii_test(v, d + 1) for v in vs)
        return False

    def ascii(s, f, bb):
        r = s.asc.get(f.key)
        if r is None:
            edges = []
            for bi, b in enumerate(f.bb):
                t = b["t"]
                if t[0] == "switch" and len(t[2]) == 1 and t[2][0][0] == 0 and not b.get("c"):
                    tm, neg = peel(f.op_term(t[1])), False
                    while tm[0] == "un" and tm[1] == "Not":
                        tm, neg = peel(tm[2]), not neg
                    if s.ascii_test(tm):
                        edges.append((bi, t[2][0][1] if neg else t[3]))
            r = set()
            if edges:
                seen, work = {0}, [0]
                while work:
                    x = work.pop()
                    for y in f.succ(x):
                        if (x, y) not in edges and y not in seen:
                            seen.add(y)
                            work.append(y)
                r = set(range(len(f.bb))) - seen
            s.asc[f.key] = r
        return bb in r

    def counts(s, f, l):
        """a local that is stepped by constants while characters are walked counts what is walked"""
        key = (f.key, l)
        if key not in s.cnt:
            s.cnt[key] = None
            steps = []
            for bi, kk, pl, ln in f.defs().get(l, []):
                t = f.rv_term(pl, 1) if kk == "rv" else ("none",)
                if t[0] == "field" and t[1][0] == "bin":
                    t = t[1]
                if t[0] == "bin" and t[1].startswith("Add") and peel(t[3])[0] == "const" and peel(t[2]) == ("var", f.key, l):
                    steps.append(bi)
            if steps:
                for c in f.calls():
                    if c.name == ITER + "next" and c.args and c.target is not None:
                        u, _ = s.base(c.arg(0))
                        if u and any(s.loops(f, c.bb, b) for b in steps):
                            s.cnt[key] = u
        return s.cnt[key]

    def loops(s, f, a, b):
        def to(x, y):
            seen, work = set(), [x]
            while work:
                z = work.pop()
                for w in f.succ(z):
                    if w == y:
                        return True
                    if w not in seen:
                        seen.add(w)
                        work.append(w)
            return False
        return to(a, b) and to(b, a)

    # ---- where fields get their values
    def field_defs(s, adt, n):
        if s.fields is None:
            s.fields = {}
            for f in s.p.fns.values():
                for b in f.bb:
                    if b.get("c"):
                        continue
                    for st in b["s"]:
                        if st[0] != "=":
                            continue
                        if st[2][0] == "agg" and st[2][1] == "adt":
                            for k, o in zip(st[2][4], st[2][5]):
                                s.fields.setdefault((st[2][2], k), []).append((f, o, None))
                        pl = st[1]
                        if len(pl) > 1 and pl[-1] != "*" and pl[-1][0] == "f" and len(pl[-1]) > 2 and pl[-1][2]:
                            s.fields.setdefault((pl[-1][2], pl[-1][1]), []).append((f, None, st[2]))
        return s.fields.get((adt, n), [])

    # ---- evaluation
    def of(s, t, path=(), ctx=(), d=0):
        if d > 40:
            return frozenset()
        t = peel(t)
        key = (t, path, ctx)
        if key in s.memo:
            return s.memo[key]
        if key in s.busy:
            s.hit = True
            return s.prev.get(key, frozenset())
        if not s.busy:
            return s.top(key, t, path, ctx, d)
        if key in s.cur:
            return s.cur[key]
        s.busy.add(key)
        r = s.cur[key] = frozenset(s.ev(t, path, ctx, d + 1))
        s.busy.discard(key)
        return r

    def top(s, key, t, path, ctx, d):
        """values that depend on themselves (loops) are iterated until nothing changes"""
        s.prev = {}
        for _ in range(6):
            s.cur, s.hit, s.busy = {}, False, {key}
            r = frozenset(s.ev(t, path, ctx, d + 1))
            s.cur[key] = r
            s.busy = set()
            if not s.hit or all(s.prev.get(k) == v for k, v in s.cur.items()):
                break
            s.prev = s.cur
        s.memo.update(s.cur)
        return r

    def many(s, ts, path, ctx, d):
        r = set()
        for t in ts:
            r |= s.of(t, path, ctx, d)
        return r

    def ev(s, t, path, ctx, d):
        k = t[0]
        if k == "upvar":
            u = s.p.resolve_up(t)
            return s.of(u, path, ctx, d) if u != t else ()
        if k == "arg":
            for i, (fk, args, c2) in enumerate(ctx):
                if fk == t[1]:
                    return s.of(args[t[2] - 1], path, c2, d) if t[2] - 1 < len(args) else ()
            r = arg_terms(s.p, t[1], t[2])
            if r is None:
                u = closure_arg(s.p, t)
                return s.of(u, path, (), d) if u is not None else ()
            return s.many([x for _, _, x in r], path, (), d)
        if k == "var":
            f = s.p.fns[t[1]]
            out = set()
            n = s.counts(f, t[2]) if not path else None
            if n:
                out.add(n)
            for bi, kk, pl, ln in f.defs().get(t[2], []):
                if s.ascii(f, bi):
                    continue
                out |= s.of(f.rv_term(pl, 1) if kk == "rv" else f.call_term(pl, 1, bi), path, ctx, d)
            for bi, pl, rv, ln in f.fielddefs().get(t[2], []):
                ns = tuple(e[1] for e in pl[1:] if e != "*" and e[0] == "f")
                if ns and path[:len(ns)] == ns:
                    out |= s.of(f.rv_term(rv, 1), path[len(ns):], ctx, d)
            return out
        if k in ("some", "await"):
            return s.of(t[1], path, ctx, d)
        if k == "down":
            return s.of(t[1], path, ctx, d)
        if k == "field":
            adt, n = (t[3] if len(t) > 3 else None), t[2]
            if adt in s.pos:
                return (U,) if n == "character" else ()
            if adt and "tree_sitter" in adt and n == "column":
                return (B,)
            if t[1][0] == "bin" and n == "0":
                return s.of(t[1], path, ctx, d)
            if adt and adt in s.p.adts and t[1][0] != "down":
                out = set()
                for f, o, rv in s.field_defs(adt, n):
                    out |= s.of(f.op_term(o) if o is not None else f.rv_term(rv), path, (), d)
                return out
            if t[1][0] == "down" and t[1][2] not in ("Some", "Ok", "Err", "Continue", "Break", "Ready"):
                return ()
            return s.of(t[1], ((n,) + path) if t[1][0] != "down" else path, ctx, d)
        if k == "bin":
            if t[1].startswith(("Add", "Sub")):
                return s.of(t[2], path, ctx, d) | s.of(t[3], path, ctx, d)
            return ()
        if k == "agg":
            if t[1] == "tuple" and path:
                return s.of(t[5][int(path[0])], path[1:], ctx, d) if path[0].isdigit() and int(path[0]) < len(t[5]) else ()
            if t[1] == "adt" and t[3] in ("Some", "Ok", "Continue") and t[5]:
                return s.of(t[5][0], path, ctx, d)
            if t[1] == "adt" and path and path[0] in t[4]:
                return s.of(t[5][list(t[4]).index(path[0])], path[1:], ctx, d)
            return ()
        if k == "call":
            return s.call(t, path, ctx, d)
        return ()

    def call(s, t, path, ctx, d):
        n, a = t[1], t[2]
        l = last(n)
        if BYTE.search(n):
            return (B,)
        if LEN16.search(n):
            return (U,)
        if n.startswith("core::slice::<impl [T]>::len") or n.endswith("Vec::<T, A>::len"):
            f = s.p.fns.get(t[3][0])
            c = next((c for c in f.calls() if c.bb == t[3][1]), None) if f is not None else None
            g = " ".join(c.callee.generics or []) if c is not None and c.callee else ""
            return (B,) if g.strip() == "u8" else (C,) if g.strip() == "char" else (U,) if g.strip() == "u16" else ()
        if THROUGH.search(n):
            out = s.many([x for x in a if not s.closure(x)], path, ctx, d)
            for x in a:
                if s.closure(x) is not None and l == "unwrap_or_else":
                    out |= s.rets(s.closure(x), (), path, ctx, d)
            return out
        if n.startswith(("core::option::", "core::result::")) and l in ("map", "and_then", "map_or", "map_or_else", "or_else", "then", "is_some_and"):
            out = set()
            g = [s.closure(x) for x in a]
            for x, y in zip(a, g):
                if y is not None:
                    out |= s.rets(y, (), path, ctx, d)
            if l == "or_else":
                out |= s.of(a[0], path, ctx, d)
            if l == "map_or":
                out |= s.of(a[1], path, ctx, d)
            if not any(x is not None for x in g):
                out |= s.many(a, path, ctx, d)
            return out
        if n.startswith(ITER):
            return s.iterator(l, a, path, ctx, d)
        gs = [g for g in call_targets(s.p, t) if g.key in s.p.fns]
        if gs:
            out = set()
            for g in gs:
                out |= set(s.ret(g, a, path, ctx, d))
            return out
        return ()

    def closure(s, t):
        t = peel(t)
        if t[0] == "agg" and t[1] == "closure":
            return s.p.fns.get(t[2])
        if t[0] == "fnitem":
            return ("item", t[2]) if t[1] not in s.p.fns else s.p.fns[t[1]]
        return None

    def rets(s, *a):
        return set(s.ret(*a))

    def ret(s, g, args, path, ctx, d):
        """what a function (or passed closure) returns"""
        if isinstance(g, tuple):
            return (U,) if LEN16.search(g[1]) else (B,) if BYTE.search(g[1]) else ()
        if g.is_async and g.coro is not None:
            g = g.coro
        c2 = ctx
        if args and len(ctx) < 5 and g.kind not in ("closure", "coroutine"):
            if any(x[0] == g.key for x in ctx):
                return ()
            c2 = ((g.key, tuple(args), ctx),) + ctx[:3]
        return s.of(("var", g.key, 0) if len(g.defs().get(0, [])) != 1 else g.term(0), path, c2, d)

    def base(s, t):
        """what an iterator chain runs over, and whether its items are numbered: (unit of one step, numbered)"""
        t = peel(t)
        if t[0] == "call":
            l = last(t[1])
            if l == "chars":
                return C, None
            if l in ("char_indices", "match_indices", "rmatch_indices"):
                return C, B
            if l == "bytes":
                return B, None
            if l == "encode_utf16":
                return U, None
            if l == "enumerate" and t[2]:
                u, _ = s.base(t[2][0])
                return u, u
            if t[1].startswith(ITER) and (l in ADAPT or l == "map") and t[2]:
                return s.base(t[2][0])
        if t[0] == "var":
            f = s.p.fns[t[1]]
            ds = f.defs().get(t[2], [])
            if len(ds) == 1:
                bi, kk, pl, ln = ds[0]
                u = f.rv_term(pl, 1) if kk == "rv" else f.call_term(pl, 1, bi)
                return s.base(u) if u != t else (None, None)
        if t[0] == "upvar":
            u = s.p.resolve_up(t)
            return s.base(u) if u != t else (None, None)
        return None, None

    def iterator(s, l, a, path, ctx, d):
        u, num = s.base(a[0])
        if l == "count":
            return (u,) if u else ()
        if l in ("position", "rposition"):
            return (u,) if u else ()
        if l in ("sum", "fold", "max", "min", "product"):
            t = peel(a[0])
            while t[0] == "call" and t[1].startswith(ITER) and last(t[1]) in ADAPT and t[2]:
                t = peel(t[2][0])
            if l == "fold" and len(a) > 2:
                g = s.closure(a[2])
            elif t[0] == "call" and last(t[1]) in ("map", "filter_map", "flat_map") and len(t[2]) > 1:
                g = s.closure(t[2][1])
            else:
                g = None
            if g is None:
                return ()
            if isinstance(g, tuple):
                return s.ret(g, (), path, ctx, d)
            names = " ".join(c.name for c in g.calls())
            if "len_utf16" in names or "encode_utf16" in names:
                return (U,)
            if "len_utf8" in names:
                return (B,)
            r = s.ret(g, (), path, ctx, d)
            return r or ((u,) if u else ())
        if l in ("next", "last", "nth", "next_back", "find", "min_by_key", "max_by_key"):
            if path[:1] == ("0",):
                return (num,) if num else ()
            t = peel(a[0])
            if t[0] == "call" and last(t[1]) in ("map", "filter_map") and len(t[2]) > 1 and s.closure(t[2][1]) is not None:
                return s.ret(s.closure(t[2][1]), (), path, ctx, d)
            return ()
        if l in ("find_map",):
            g = s.closure(a[1])
            return s.ret(g, (), path, ctx, d) if g is not None else ()
        return ()
