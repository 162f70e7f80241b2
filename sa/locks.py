"""Lock-set analysis over MIR: which locks may be held at each program point, what each call may
transitively acquire, and the resulting acquisition-order graph.

Lock identity is the protected type (the lock's content type), refined by the owning struct field
where several locks protect the same type. It does not depend on variable names or code layout.
"""
import re
from collections import defaultdict
from ir import peel, peel_future, walk, show

LOCK_RX = re.compile(r"^(lock_api::(mutex::Mutex|rwlock::RwLock)|std::sync::(poison::)?(mutex::Mutex|rwlock::RwLock|reentrant.*)"
                     r"|tokio::sync::(mutex::Mutex|rwlock::RwLock)|spin::.*)::<.*>::(\w+)$")
SHARED = {"read", "try_read", "read_recursive", "read_owned", "read_arc", "upgradable_read", "try_read_for", "try_read_until", "blocking_read"}
EXCL = {"lock", "try_lock", "write", "try_write", "lock_owned", "write_owned", "lock_arc", "write_arc", "try_lock_for",
        "try_write_for", "blocking_lock", "blocking_write", "try_lock_until", "try_lock_owned"}
GUARD_RX = re.compile(r"(Mutex|RwLock\w*)(Guard|ReadGuard|WriteGuard)\b|RwLock(Read|Write|UpgradableRead)Guard|MutexGuard|OwnedMutexGuard")
LAZY = ("core::iter::traits::iterator::Iterator::",)
LAZY_NAMES = {"map", "filter", "filter_map", "flat_map", "inspect", "take_while", "skip_while", "map_while", "scan", "enumerate",
              "zip", "chain", "rev", "cloned", "copied", "peekable", "take", "skip", "step_by", "by_ref", "flatten", "fuse"}
SPAWN = re.compile(r"(^|::)(spawn|spawn_blocking|spawn_local|spawn_on|spawn_blocking_on)$")


class Locks:
    def __init__(self, p):
        self.p = p
        self._amb()
        self.guard_fns = {}
        self.held_cache = {}
        self._own = {}
        self._acq = None
        self._isg = {}
        self._rel = None

    def is_guard(self, crate, ti):
        k = (crate, ti)
        r = self._isg.get(k)
        if r is None:
            s = self.p.ty(crate, ti)
            r = self._isg[k] = bool(GUARD_RX.search(s)) and not s.startswith(("&", "*", "core::pin::Pin<&")) and "impl " not in s \
                and not s.startswith("{")
        return r

    def _amb(self):
        """content types protected by more than one struct field."""
        n = defaultdict(set)
        for cn, c in self.p.crates.items():
            for a in c["adts"]:
                for v in a["v"]:
                    for fi in v[2]:
                        s = c["tys"][fi[1]][0]
                        for m in re.finditer(r"(Mutex|RwLock)<", s):
                            inner = balanced(s, m.end() - 1)
                            inner = strip_raw(inner)
                            n[inner].add((a["n"], fi[0]))
        # Arc<RwLock<X>> handles are shared: the same lock may sit in several structs. Fields with the
        # same *name* are taken to be the same lock; different names of the same type are ambiguous.
        self.amb = {t for t, s in n.items() if len({f for _, f in s}) > 1}
        self.owners = n

    def lock_class(self, fn, c):
        """class of the lock acquired by primitive call c."""
        g = c.callee.generics
        inner = g[-1] if g else "?"
        tokio = c.name.startswith("tokio")
        cls = strip_raw(inner)
        if cls in self.shared_types():
            return cls
        t = self.p.resolve_up(c.arg(0))
        f = field_of(t)
        if f:
            return f"{cls} @{f}"
        return cls + " @?"

    def shared_types(self):
        # types whose identity is the type alone (domain objects passed around by handle)
        r = getattr(self, "_sh", None)
        if r is None:
            r = set()
            for t in self.owners:
                if re.match(r"^(ruby_analysis|ruby_fast_lsp|rbs_parser)[\w:]*(<.*>)?$", t):
                    r.add(t)
            self._sh = r
        return r

    def prim(self, c):
        """(mode, trylock) if c acquires a lock."""
        if c.callee is None:
            return None
        m = LOCK_RX.match(c.name)
        if not m:
            return None
        op = c.name.rsplit("::", 1)[1]
        if op in SHARED:
            return ("r", op.startswith("try"), op)
        if op in EXCL:
            return ("w", op.startswith("try"), op)
        return None

    # ---- direct acquisitions reachable by running f
    def own(self, f):
        r = self._own.get(f.key)
        if r is None:
            r = []
            for c in f.calls():
                m = self.prim(c)
                if m:
                    r.append((self.lock_class(f, c), m[0], m[1], c))
            self._own[f.key] = r
        return r

    def run_targets(self, f, c):
        """functions (bodies) that may run, synchronously, during call c in f."""
        out = []
        p = self.p
        if c.callee is not None and SPAWN.search(c.name) and not p.fns.get(c.callee.key):
            return out
        for g in p.targets(c.callee):
            if not g.is_async:
                out.append(g)
        for a in c.args:
            t = f.op_term(a) if ("p" in a or "fn" in a) else None
            if t is not None:
                self._closures(f, t, out, 0)
        if c.callee is not None and c.name.endswith("::poll") or (c.callee is not None and c.name.endswith("::block_on")):
            self._futures(f, c.arg(0) if c.args else None, out)
        if c.callee is None:
            self._closures(f, f.op_term(c.t[1]), out, 0)
        return out

    def _closures(self, f, t, out, d):
        t = peel(t)
        if t[0] == "agg" and t[1] == "closure":
            g = self.p.fns.get(t[2])
            if g is not None and g not in out:
                out.append(g)
        elif t[0] == "fnitem":
            g = self.p.fns.get(t[1])
            if g is not None and not g.is_async and g not in out:
                out.append(g)
        elif t[0] == "upvar":
            t2 = self.p.resolve_up(t)
            if t2[0] != "upvar" and d < 3:
                self._closures(f, t2, out, d + 1)
        elif t[0] == "call" and t[1].startswith(LAZY) and t[1].rsplit("::", 1)[1] in LAZY_NAMES and d < 12:
            for a in t[2]:
                self._closures(f, a, out, d + 1)

    def _futures(self, f, t, out):
        """bodies run by polling future term t."""
        if t is None:
            return
        for x in walk(self.p.resolve_up(t)):
            if x[0] == "agg" and x[1] == "coroutine":
                g = self.p.fns.get(x[2])
                if g is not None and g not in out:
                    out.append(g)
            elif x[0] == "agg" and x[1] == "closure":
                # closure shipped to spawn_blocking and awaited here
                g = self.p.fns.get(x[2])
                if g is not None and g not in out:
                    out.append(g)
            elif x[0] == "call" and x[3][1] >= 0:
                f2 = self.p.fns.get(x[3][0])
                tt = f2.bb[x[3][1]]["t"]
                if tt[0] == "call" and "fn" in tt[1]:
                    for g in self.p.targets(self.p.callee(f2.crate, tt[1]["fn"])):
                        if g.is_async and g.coro is not None and g.coro not in out:
                            out.append(g.coro)

    def relevant(self):
        """functions from which a lock acquisition is reachable."""
        if self._rel is None:
            callers = self.p.callers()
            rel = {f.key for f in self.p.fns.values() if self.own(f)}
            w = list(rel)
            while w:
                for _, g, _ in callers.get(w.pop(), ()):
                    if g.key not in rel:
                        rel.add(g.key)
                        w.append(g.key)
            self._rel = rel
        return self._rel

    def acq(self):
        """key -> {(class, mode, try): witness (callee key or None, line)} transitive acquisitions."""
        if self._acq is not None:
            return self._acq
        rel = self.relevant()
        A = {}
        rev = defaultdict(set)
        edges = {}
        for k in rel:
            f = self.p.fns[k]
            A[k] = {}
            for cls, m, tr, c in self.own(f):
                A[k].setdefault((cls, m, tr), (None, c.line))
            es = {}
            for c in f.calls():
                for g in self.run_targets(f, c):
                    if g.key in rel:
                        es.setdefault(g.key, c.line)
            edges[k] = es
            for g in es:
                rev[g].add(k)
        w = [k for k in rel if A[k]]
        while w:
            k = w.pop()
            for u in rev[k]:
                ch = False
                for x in A[k]:
                    if x not in A[u]:
                        A[u][x] = (k, edges[u][k])
                        ch = True
                if ch:
                    w.append(u)
        self._acq = A
        return A

    def witness(self, key, x):
        out = []
        while key is not None and len(out) < 40:
            nxt, ln = self._acq[key][x]
            f = self.p.fns[key]
            out.append(f"{f.name} ({f.file}:{ln})")
            key = nxt
        return out

    # ---- guard-returning functions
    def ret_guard(self, f):
        """[(class, mode)] of guards in f's return value."""
        r = self.guard_fns.get(f.key)
        if r is not None:
            return r
        self.guard_fns[f.key] = []
        body = f.coro if f.is_async and f.coro is not None else f
        if not self.is_guard(body.crate, body.locals[0]):
            return []
        held = self.held(body)
        out = set()
        for bi, b in enumerate(body.bb):
            if b["t"][0] == "ret" and held[bi] is not None:
                h = self.transfer_stmts(body, bi, dict(held[bi]))
                out |= set(h.get(0, ()))
        r = self.guard_fns[f.key] = sorted(out)
        return r

    # ---- held locks per block
    def held(self, f):
        """block -> {local: frozenset((class, mode, line))} at block start (None: unreachable)."""
        r = self.held_cache.get(f.key)
        if r is not None:
            return r
        n = len(f.bb)
        ins = [None] * n
        self.held_cache[f.key] = ins
        if not any(self.is_guard(f.crate, t) for t in f.locals):
            for b in f.reachable():
                ins[b] = {}
            return ins
        ins[0] = {}
        w = [0]
        calls = {c.bb: c for c in f.calls()}
        while w:
            b = w.pop()
            h = self.transfer_stmts(f, b, dict(ins[b]))
            t = f.bb[b]["t"]
            if t[0] == "drop":
                if len(t[1]) == 1:
                    h.pop(t[1][0], None)
            elif t[0] == "call" and b in calls:
                h = self.transfer_call(f, calls[b], h)
            elif t[0] == "yield":
                pass
            for s in f.succ(b):
                if join(ins, s, h):
                    w.append(s)
        return ins

    def transfer_stmts(self, f, b, h):
        for st in f.bb[b]["s"]:
            if st[0] == "=":
                self.transfer_stmt(f, st, h)
            elif st[0] == "sd":
                h.pop(st[1], None)
        return h

    def transfer_stmt(self, f, st, h):
        dst = st[1]
        got = frozenset()
        rv = st[2]
        from ir import ops_of
        for o in ops_of(rv):
            if "p" in o and o.get("m") and o["p"][0] in h:
                got |= h[o["p"][0]]
                h.pop(o["p"][0])
        if got and (self.is_guard(f.crate, f.locals[dst[0]]) or rv[0] == "agg"):
            h[dst[0]] = h.get(dst[0], frozenset()) | got if len(dst) > 1 else got

    def transfer_call(self, f, c, h):
        got = frozenset()
        for a in c.args:
            if "p" in a and a.get("m") and a["p"][0] in h:
                got |= h[a["p"][0]]
                h.pop(a["p"][0])
        d = c.dest[0]
        if self.is_guard(f.crate, f.locals[d]) and not f.ty(d).startswith("&"):
            new = set()
            m = self.prim(c)
            if m:
                new.add((self.lock_class(f, c), m[0], c.line, f.key, c.bb))
            else:
                for g in self.p.targets(c.callee):
                    for cls, mode, ln, fk, bb in self.ret_guard(g):
                        new.add((cls, mode, c.line, fk, bb))
                if c.name.endswith("::poll"):
                    t = peel_future(c.arg(0))
                    for x in walk(t):
                        if x[0] == "call":
                            f2 = self.p.fns.get(x[3][0])
                            if f2 is None or x[3][1] < 0:
                                continue
                            for c2 in f2.calls():
                                if c2.bb == x[3][1]:
                                    m2 = self.prim(c2)
                                    if m2:
                                        new.add((self.lock_class(f2, c2), m2[0], c2.line, f2.key, c2.bb))
                                    else:
                                        for g in self.p.targets(c2.callee):
                                            for cls, mode, ln, fk, bb in self.ret_guard(g):
                                                new.add((cls, mode, c2.line, fk, bb))
            got |= frozenset(new)
            h[d] = got
        elif len(c.dest) == 1:
            h.pop(d, None)
        return h

    def held_at_calls(self, f):
        """yield (call, {(class, mode, line)} held while the call runs)."""
        ins = self.held(f)
        for c in f.calls():
            if ins[c.bb] is None:
                continue
            h = self.transfer_stmts(f, c.bb, dict(ins[c.bb]))
            s = set()
            for v in h.values():
                s |= v
            yield c, s


def join(ins, s, h):
    if ins[s] is None:
        ins[s] = dict(h)
        return True
    ch = False
    cur = ins[s]
    for k, v in h.items():
        o = cur.get(k, frozenset())
        if not v <= o:
            cur[k] = o | v
            ch = True
    return ch


def balanced(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "<":
            d += 1
        elif s[j] == ">" and s[j - 1] != "-":
            d -= 1
            if d == 0:
                return s[i + 1:j]
    return s[i + 1:]


def strip_raw(s):
    s = re.sub(r"^parking_lot::raw_\w+::Raw\w+, ", "", s)
    return s


def field_of(t, d=0):
    """name of the struct field a lock handle comes from."""
    if d > 20:
        return None
    t = peel(t)
    if t[0] == "field":
        if str(t[2]).isdigit():
            return field_of(t[1], d + 1)
        return t[2]
    if t[0] in ("some", "down", "index", "await"):
        return field_of(t[1], d + 1)
    if t[0] == "call":
        if t[2]:
            n = t[1]
            if n.startswith(("core::", "alloc::", "std::", "hashbrown", "lock_api", "tokio")):
                return field_of(t[2][0], d + 1)
            return "fn " + n.rsplit("::", 1)[-1]
    return None
