"""Guard/event dataflow: an interprocedural forward *must* analysis over MIR.

A Spec names a small alphabet of atoms. An atom holds at a program point when, on every path from
every entry of the program to that point, the corresponding check had the given outcome or the
corresponding event happened (and was not killed since). Branch conditions are interpreted
semantically: negation, `?`, match on variants, bool temporaries, std Option/Result/Iterator
combinators with closures, and first-party predicate helpers (through summaries), so the same guard
written differently or moved into a helper yields the same atoms.
"""
from collections import defaultdict, deque
from ir import peel, peel_future, walk, term_succ

FULL = -1  # all ones: unreachable / top

CMP_CALLS = {
    "core::cmp::PartialEq::eq": "Eq", "core::cmp::PartialEq::ne": "Ne",
    "core::cmp::PartialOrd::lt": "Lt", "core::cmp::PartialOrd::le": "Le",
    "core::cmp::PartialOrd::gt": "Gt", "core::cmp::PartialOrd::ge": "Ge",
}
NEG = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Le": "Gt", "Gt": "Le", "Ge": "Lt"}
SWAP = {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}
POS = ("Some", "Ok", "Continue")
NEGV = ("None", "Err", "Break")


def last(n):
    return n.rsplit("::", 1)[-1]


class Spec:
    """Override in checks."""
    atoms = []

    def cond(self, fn, term, outcome):
        """atoms implied when `term` evaluates to `outcome` (True/False/variant name)."""
        return ()

    def cmp(self, fn, op, a, b):
        """atoms implied when comparison `a op b` is known to hold (called for both orientations)."""
        return ()

    def event(self, call):
        """(gen, kill) atoms at completion of a call."""
        return ()

    def kill(self, call):
        return ()

    def stmt(self, fn, st):
        """(gen, kill) for an assignment statement."""
        return None

    def dropped(self, fn, place):
        """(gen, kill) when `place` is dropped, or None."""
        return None

    def quant(self, fn, ty):
        """forall-atoms that a `for` loop over an iterator of type `ty` quantifies over its items: they hold after
        the loop when every completed iteration established them (or they held before)."""
        return ()

    def opaque(self, fn):
        """do not look inside this function (treated as external)."""
        return False


class Flow:
    def __init__(self, prog, spec, only=None):
        self.p, self.s = prog, spec
        spec.flow = self
        self.bit = {a: 1 << i for i, a in enumerate(spec.atoms)}
        self.all = (1 << len(spec.atoms)) - 1
        self.N = len(spec.atoms)
        self._quants = {}
        self.always = {}
        self.maykill = {}
        self.ret = {}
        self.ins = {}
        self.edge_cache = {}
        self.impl_local = {}
        self.entry = None
        self.call_ev = {}
        self._awaited = {}
        self._flags = {}
        self._summ_stack = set()
        self._dirty = None
        self._compute_summaries()

    whole = frozenset()  # collection terms a caller asks about as such: quantifying over one of them covers it

    def mask(self, atoms):
        m = 0
        for a in atoms:
            m |= self.bit[a]
        return m

    def names(self, m):
        return [a for a in self.s.atoms if m & self.bit[a]]

    # ------------------------------------------------------------------ conditions
    def implied(self, fn, t, o, depth=0):
        """mask of atoms implied by term t having outcome o."""
        if depth > 14:
            return 0
        s = self.s
        m = 0
        a = s.cond(fn, t, o)
        if a:
            m |= self.mask(a)
        k = t[0]
        d = depth + 1
        if k == "un" and t[1] == "Not" and isinstance(o, bool):
            return m | self.implied(fn, t[2], not o, d)
        if k == "bin":
            op = t[1]
            if op in NEG and isinstance(o, bool):
                return m | self._cmp(fn, op if o else NEG[op], t[2], t[3], d)
            if op == "BitAnd" and o is True or op == "BitOr" and o is False:
                return m | self.implied(fn, t[2], o, d) | self.implied(fn, t[3], o, d)
            if op == "BitAnd" and o is False or op == "BitOr" and o is True:
                return m | (self.implied(fn, t[2], o, d) & self.implied(fn, t[3], o, d))
            return m
        if k == "var":
            f2 = self.p.fns.get(t[1])
            if f2 is fn:
                v = self._local(fn, t[2], o)
                if v is not None:
                    m |= v
            return m
        if k == "const":
            if isinstance(t[1], bool) and isinstance(o, bool) and t[1] != o:
                return FULL
            return m
        if k == "agg":
            if t[1] == "adt" and isinstance(o, str) and t[3] != o:
                return FULL
            return m
        if k == "await":
            return m | self.implied(fn, t[1], o, d)
        if k == "some":
            # payload of an Option/Result: reaching it at all means Some/Ok
            m |= self._pos(fn, t[1], d)
            i = peel(t[1])
            if i[0] == "call":
                m |= self._payload(fn, i, o, d)
            return m
        if k == "call":
            return m | self._call(fn, t, o, d)
        if k == "upvar":
            t2 = self.p.resolve_up(t)
            if t2[0] not in ("upvar", "var"):
                c = self.p.creator(t[1])
                return m | (self.implied(c[0], t2, o, d) if c else 0)
        return m

    def _payload(self, fn, t, o, d):
        return 0

    def _cmp(self, fn, op, a, b, d):
        m = 0
        r = self.s.cmp(fn, op, a, b)
        if r:
            m |= self.mask(r)
        r = self.s.cmp(fn, SWAP[op], b, a)
        if r:
            m |= self.mask(r)
        # comparison of a bool/variant expression against a constant
        for x, y in ((a, b), (b, a)):
            y = peel(y)
            if y[0] == "const" and isinstance(y[1], bool) and op in ("Eq", "Ne"):
                m |= self.implied(fn, x, y[1] if op == "Eq" else not y[1], d)
            v = None
            if y[0] == "agg" and y[1] == "adt":
                v = y[3]
            if v is not None and op == "Eq":
                m |= self.implied(fn, peel(x), v, d)
            if v is not None and op == "Ne":
                m |= self.implied(fn, peel(x), "!" + v, d)
        return m

    def closure_of(self, t):
        t = peel(t)
        if t[0] == "agg" and t[1] == "closure":
            return self.p.fns.get(t[2])
        if t[0] == "fnitem":
            return self.p.fns.get(t[1])
        return None

    def ret_mask(self, f, o):
        if f is None:
            return 0
        if f.is_async and f.coro is not None:
            f = f.coro
        r = self.ret.get(f.key)
        if r is None:
            return 0
        base = self.always.get(f.key, 0)
        dflt, dic = r
        v = dic.get(o, dflt)
        if v == FULL or base == FULL:
            return FULL
        return (v | base) & self.all

    def _call(self, fn, t, o, d):
        n, a = t[1], t[2]
        l = last(n)
        m = 0
        if n in CMP_CALLS and len(a) >= 2 and isinstance(o, bool):
            op = CMP_CALLS[n]
            return self._cmp(fn, op if o else NEG[op], a[0], a[1], d)
        if n == "core::ops::try_trait::Try::branch":
            if o == "Continue":
                return self._pos(fn, a[0], d)
            if o == "Break":
                return self._neg(fn, a[0], d)
            return 0
        if n == "core::ops::bit::Not::not" and isinstance(o, bool):
            return self.implied(fn, a[0], not o, d)
        std = n.startswith(("core::", "alloc::", "std::", "anyhow::", "futures", "tokio::", "hashbrown"))
        if std and a:
            x = a[0]
            c = self.closure_of(a[1]) if len(a) > 1 else None
            opt = n.startswith(("core::option::", "core::result::", "anyhow::"))
            if opt:
                if l in ("is_some", "is_ok") and isinstance(o, bool):
                    return self._pos(fn, x, d) if o else self._neg(fn, x, d)
                if l in ("is_none", "is_err") and isinstance(o, bool):
                    return self._neg(fn, x, d) if o else self._pos(fn, x, d)
                if l in ("is_some_and", "is_ok_and"):
                    if o is True:
                        return self._pos(fn, x, d) | self.ret_mask(c, True)
                    return self._neg(fn, x, d) & (self._pos(fn, x, d) | self.ret_mask(c, False)) if o is False else 0
                if l == "is_none_or":
                    if o is False:
                        return self._pos(fn, x, d) | self.ret_mask(c, False)
                    return self._neg(fn, x, d) & (self._pos(fn, x, d) | self.ret_mask(c, True))
                if l in ("filter",):
                    if o in ("Some",):
                        return self._pos(fn, x, d) | self.ret_mask(c, True)
                    return 0
                if l in ("map", "ok_or", "ok_or_else", "map_err", "context", "with_context", "ok", "cloned", "copied",
                         "as_ref", "as_mut", "as_deref", "inspect", "inspect_err", "as_deref_mut", "zip", "take"):
                    if o in POS:
                        return self._pos(fn, x, d)
                    if o in NEGV:
                        return self._neg(fn, x, d)
                    return 0
                if l == "err":
                    if o == "Some":
                        return self._neg(fn, x, d)
                    if o == "None":
                        return self._pos(fn, x, d)
                    return 0
                if l == "and_then":
                    if o in POS:
                        return self._pos(fn, x, d) | self.ret_mask(c, o)
                    return 0
                if l in ("or", "or_else"):
                    if o in NEGV:
                        return self._neg(fn, x, d)
                    return 0
                if l in ("unwrap", "expect", "unwrap_or_else", "unwrap_or", "unwrap_or_default"):
                    if l in ("unwrap", "expect"):
                        return self._pos(fn, x, d) | self._payload(fn, peel(x), o, d)
                    if l == "unwrap_or" and o is True and a[1][0] == "const" and a[1][1] is False:
                        return self._pos(fn, x, d) | self._mapped(fn, x, True, d)
                    if l == "unwrap_or" and o is False and a[1][0] == "const" and a[1][1] is True:
                        return self._pos(fn, x, d) | self._mapped(fn, x, False, d)
                    if l == "unwrap_or_default" and o is True:
                        return self._pos(fn, x, d) | self._mapped(fn, x, True, d)
                    return 0
                if l in ("map_or",):
                    if len(a) > 2 and a[1][0] == "const" and isinstance(o, bool) and a[1][1] is (not o):
                        return self._pos(fn, x, d) | self.ret_mask(self.closure_of(a[2]), o)
                    return 0
            if n.startswith("core::bool::") and l in ("then", "then_some"):
                if o == "Some":
                    return self.implied(fn, x, True, d)
                if o == "None":
                    return self.implied(fn, x, False, d)
                return 0
            if n.startswith("core::iter::traits::iterator::Iterator::"):
                if l == "next":
                    return self.item_facts(fn, x, d) if o == "Some" else 0
                if l in ("find",):
                    if o == "Some":
                        return self.item_facts(fn, x, d) | self.ret_mask(c, True)
                    return self._forall(fn, x, c, False) if o == "None" else 0
                if l == "position":
                    if o == "Some":
                        return self.ret_mask(c, True)
                    return self._forall(fn, x, c, False) if o == "None" else 0
                if l in ("find_map",):
                    if o == "Some":
                        return self.item_facts(fn, x, d) | self.ret_mask(c, "Some")
                    return self._forall(fn, x, c, "None") if o == "None" else 0
                if l == "try_for_each":
                    return self._forall(fn, x, c, o) if o in ("Ok", "Some", "Continue") else 0
                if l in ("any",):
                    if o is True:
                        return self.item_facts(fn, x, d) | self.ret_mask(c, True)
                    return self._forall(fn, x, c, False)
                if l == "all":
                    if o is True:
                        return self._forall(fn, x, c, True)
                    return self.item_facts(fn, x, d) | self.ret_mask(c, False)
                if l in ("max", "min", "max_by_key", "min_by_key", "last", "nth", "max_by", "min_by"):
                    return self.item_facts(fn, x, d) if o == "Some" else 0
            if n in ("core::option::Option::<T>::take",):
                return self.implied(fn, x, o, d)
            pe = peel(t)
            if pe is not t:
                return self.implied(fn, pe, o, d)
            if n.startswith("tokio::time::timeout"):
                if o == "Ok" and len(a) > 1:
                    return self._future_always(fn, a[1])
                return 0
            return 0
        # first-party
        site = t[3]
        f2 = self.p.fns.get(site[0])
        targets = []
        if f2 is not None and site[1] >= 0:
            tt = f2.bb[site[1]]["t"]
            if tt[0] == "call" and "fn" in tt[1]:
                targets = self.p.targets(self.p.callee(f2.crate, tt[1]["fn"]))
        if targets:
            r = FULL
            for g in targets:
                if self.s.opaque(g):
                    r = 0
                else:
                    r &= self.ret_mask(g, o)
            if r != FULL:
                m |= r
            elif targets:
                m = FULL
        else:
            c = None
            if n == "<indirect>" or last(n) in ("call", "call_once", "call_mut"):
                c = self.closure_of(a[0]) if a else None
            if c is not None:
                m |= self.ret_mask(c, o)
            else:
                pe = peel(t)
                if pe is not t:
                    return m | self.implied(fn, pe, o, d)
        return m

    def _forall(self, fn, src, c, o):
        """atoms that hold for *every* item (possibly vacuously): only those a Spec declares as such."""
        fa = self.mask(getattr(self.s, "forall", ()))
        m = self.ret_mask(c, o)
        return (fa if m == FULL else m & fa) & self.covers(fn, src)

    def covers(self, fn, it, d=0):
        """atoms for which quantifying over iterator `it` covers the whole underlying collection: adapters that cut
        items off cover nothing, filters cover the atoms a rejected item satisfies anyway."""
        it = self.p.resolve_up(it)
        if d > 20:
            return 0
        if it in self.whole:
            return FULL
        if it[0] == "call":
            n, a = it[1], it[2]
            l = last(n)
            if not a:
                return FULL
            if l in ("take", "skip", "step_by", "take_while", "skip_while", "map_while", "nth", "first", "last", "split_at", "split_first",
                     "split_last", "get", "windows", "chunks", "get_unchecked", "truncate", "drain", "range", "next") and n.startswith(
                         ("core::iter", "core::slice", "alloc::", "core::str", "std::")):
                return 0
            if n == "core::ops::index::Index::index":
                return 0
            if l in ("filter", "filter_map") and n.startswith("core::iter"):
                c = self.closure_of(a[1])
                m = self.ret_mask(c, False if l == "filter" else "None") if c else 0
                return m & self.covers(fn, a[0], d + 1)
            if n.startswith(("core::", "alloc::", "std::")):
                m = self.covers(fn, a[0], d + 1)
                if l == "chain" and len(a) > 1:
                    m &= self.covers(fn, a[1], d + 1)
                return m
            return FULL
        return FULL

    def _mapped(self, fn, x, o, d):
        x = peel(x)
        if x[0] == "call" and last(x[1]) in ("map", "and_then") and len(x[2]) > 1:
            return self.ret_mask(self.closure_of(x[2][1]), o)
        return 0

    def _either(self, fn, x, o1, o2, d):
        """x is an Option or a Result (we do not know which): combine the outcome that applies.
        FULL means 'this outcome is impossible', which says nothing about the other type."""
        a, b = self.implied(fn, x, o1, d), self.implied(fn, x, o2, d)
        if a == FULL:
            return b
        if b == FULL:
            return a
        return a | b

    def _pos(self, fn, x, d):
        return self._either(fn, x, "Some", "Ok", d)

    def _neg(self, fn, x, d):
        return self._either(fn, x, "None", "Err", d)

    def item_facts(self, fn, it, d=0):
        """atoms that hold for every item drawn from iterator/collection term `it`."""
        if d > 24:
            return 0
        it = self.p.resolve_up(it)
        k = it[0]
        if k == "call":
            n, a = it[1], it[2]
            l = last(n)
            if not a:
                return 0
            if n.startswith(("core::iter", "alloc::", "std::", "core::slice", "core::option", "itertools", "core::ops", "core::clone",
                             "core::convert", "core::result")):
                c = self.closure_of(a[1]) if len(a) > 1 else None
                b = self.item_facts(fn, a[0], d + 1)
                if l in ("filter", "take_while", "skip_while"):
                    return b | (self.ret_mask(c, True) if l != "skip_while" else 0)
                if l in ("filter_map", "map_while"):
                    return b | self.ret_mask(c, "Some")
                if l == "map":
                    return b | (self.always.get(c.key, 0) if c else 0)
                if l == "chain":
                    return b & self.item_facts(fn, a[1], d + 1)
                if l in ("flat_map", "flatten", "zip"):
                    return b
                return b
            if "::into_iter" in n or "::iter" in n:
                return self.item_facts(fn, a[0], d + 1)
            # first-party function returning a collection: facts from Vec::push sites are not tracked
            return 0
        if k in ("some", "field", "await", "index", "proj", "down"):
            return self.item_facts(fn, it[1], d + 1)
        return 0

    def _future_always(self, fn, t):
        m = 0
        for x in walk(t):
            if x[0] == "call" and x[3][0] == fn.key and x[3][1] >= 0:
                tt = fn.bb[x[3][1]]["t"]
                if tt[0] == "call" and "fn" in tt[1]:
                    for g in self.p.targets(self.p.callee(fn.crate, tt[1]["fn"])):
                        if g.is_async:
                            m |= self._always(g)
            elif x[0] == "agg" and x[1] == "coroutine":
                g = self.p.fns.get(x[2])
                if g:
                    m |= self.always.get(g.key, 0)
        return m

    # ------------------------------------------------------------------ local implications
    def _local(self, fn, l, o):
        il = self.impl_local.get(fn.key)
        if il is None:
            return None
        e = il.get(l)
        if e is None:
            return None
        if isinstance(o, str) and o.startswith("!"):
            r = e[0]
            for k2, v in e[1].items():
                if k2 != o[1:]:
                    r &= v
            return r
        return e[1].get(o, e[0])

    # ------------------------------------------------------------------ intraprocedural
    def awaited_sites(self, fn):
        r = self._awaited.get(fn.key)
        if r is None:
            r = set()
            for c in fn.calls():
                if c.name in ("core::future::into_future::IntoFuture::into_future", "core::future::future::Future::poll"):
                    for x in walk(c.arg(0)):
                        if x[0] == "call":
                            r.add(x[3])
            self._awaited[fn.key] = r
        return r

    def _always(self, g):
        if self.s.opaque(g):
            return 0
        if g.is_async and g.coro is not None:
            g = g.coro
        return self.always.get(g.key, 0)

    def call_effect(self, fn, c):
        """(gen, kill) of executing call c."""
        gen = self.mask(self.s.event(c) or ())
        kill = self.mask(self.s.kill(c) or ())
        if last(c.name) in ("expect", "unwrap") and c.name.startswith(("core::option::", "core::result::")):
            m = self._pos(fn, c.arg(0), 0)
            if m == FULL:
                return FULL, kill
            gen |= m
        ts = self.p.targets(c.callee)
        if ts:
            r = FULL
            for g in ts:
                g2 = g.coro if (g.is_async and g.coro is not None) else g
                kill |= self.maykill.get(g2.key, 0)
                if g.is_async and (fn.key, c.bb) not in self.awaited_sites(fn):
                    r = 0
                else:
                    r &= self._always(g)
            if r == FULL:
                return FULL, kill
            gen |= r
        # closures handed to a callee that certainly runs them once (Option::map etc. may not) are
        # not credited; kills inside closures are.
        for a in c.args:
            if "p" in a:
                g = self.closure_of(fn.op_term(a))
                if g is not None:
                    kill |= self.maykill.get(g.key, 0)
        return gen, kill

    def flags(self, fn):
        """{bool local: {value: (blocks whose last definition of it is that constant, blocks with another definition)}}"""
        r = self._flags.get(fn.key)
        if r is not None:
            return r
        r = {}
        for l, ds in fn.defs().items():
            if len(ds) < 2 or fn.ty(l) != "bool":
                continue
            for v in (True, False):
                on = {bi for bi, k, pl, ln in ds if k == "rv" and pl[0] == "use" and "p" not in pl[1] and pl[1].get("v") is v}
                off = {bi for bi, k, pl, ln in ds} - on
                if on and off and len({d[0] for d in ds}) == len(ds):
                    r.setdefault(l, {})[v] = (on, off)
        self._flags[fn.key] = r
        return r

    def _flag_facts(self, fn, ins1):
        """{(block, outcome): facts} for switches on bool locals: when the local differs from v there, its last
        definition was another one and none of the blocks setting it to v ran since."""
        out = {}
        for b, blk in enumerate(fn.bb):
            t = blk["t"]
            if t[0] != "switch" or len(t[2]) != 1 or t[2][0][0] != 0 or ins1[b] == FULL:
                continue
            for o in (False, True):
                tm, v = fn.op_term(t[1]), not o
                while tm[0] == "un" and tm[1] == "Not":
                    tm, v = tm[2], not v
                if tm[0] != "var" or tm[1] != fn.key:
                    continue
                fl = self.flags(fn).get(tm[2], {}).get(v)
                if fl is None:
                    continue
                save = self.impl_local.get(fn.key)
                self.impl_local[fn.key] = {}
                m = self.analyze(fn, 0, (fl[0], {x: ins1[x] for x in fl[1]}))[b]
                self.impl_local[fn.key] = save if save is not None else {}
                out[(b, o)] = m
        return out

    def analyze(self, fn, entry, prune=None, extra=None):
        """forward must dataflow; returns ins[]."""
        if prune is None and extra is None and self.flags(fn) and any(
                c.name == "core::iter::traits::collect::IntoIterator::into_iter" and self._quant(fn, c) for c in fn.calls()):
            extra = self._flag_facts(fn, self.analyze(fn, entry, None, {}))
            self.impl_local[fn.key] = {}
            return self.analyze(fn, entry, None, extra)
        n = len(fn.bb)
        ins = [FULL] * n
        il = self.impl_local.setdefault(fn.key, {})
        ins[0] = entry
        if prune:
            ins[0] = FULL
            for x, m in prune[1].items():
                ins[x] = m
        # multi-def locals of interest
        defs = fn.defs()
        multi = {l for l, ds in defs.items() if len(ds) > 1 or l == 0}
        work = deque(prune[1] if prune else [0])
        inq = set(work)
        rounds = 0
        contrib = {}
        calls = {c.bb: c for c in fn.calls()}
        revisit = [x for x in range(n) if fn.bb[x]["t"][0] == "switch"
                   or any(st[0] == "=" and len(st[1]) == 1 and st[1][0] in multi for st in fn.bb[x]["s"])
                   or fn.bb[x]["t"][0] == "call" and len(fn.bb[x]["t"][3]) == 1 and fn.bb[x]["t"][3][0] in multi]
        while work:
            rounds += 1
            if rounds > 200 * n + 2000:
                for l in il:
                    il[l] = (0, {})
                return [0] * n
            b = work.popleft()
            inq.discard(b)
            if prune and b in prune[0]:
                continue
            cur = ins[b]
            blk = fn.bb[b]
            changed_local = False
            for si, st in enumerate(blk["s"]):
                if st[0] != "=":
                    continue
                e = self.s.stmt(fn, st)
                if e:
                    cur = (cur & ~self.mask(e[1])) | self.mask(e[0])
                if len(st[1]) == 1 and st[1][0] in multi:
                    if self._contribute(fn, il, contrib, st[1][0], (b, si), st[2], cur):
                        changed_local = True
            t = blk["t"]
            k = t[0]
            outs = []
            if k == "call":
                c = calls.get(b)
                if c is not None:
                    ev = self.call_ev.get((fn.key, b))
                    if ev is None:
                        ev = self.call_ev[(fn.key, b)] = self.call_effect(fn, c)
                    gen, kill = ev
                    cur = FULL if gen == FULL or cur == FULL else (cur & ~kill) | gen
                    if c.name == "core::iter::traits::collect::IntoIterator::into_iter" and cur != FULL:
                        q = self._quant(fn, c)
                        if q:
                            # what held before the loop is kept aside; a loop that covers all items starts out
                            # with "every item so far" (there are none)
                            cur = (cur & ~(q << self.N)) | ((cur & q) << self.N) | (q & self.covers(fn, c.arg(0)))
                    if len(t[3]) == 1 and t[3][0] in multi:
                        if self._contribute_call(fn, il, contrib, t[3][0], (b, -1), c, cur):
                            changed_local = True
                if t[4] is not None:
                    outs.append((t[4], cur))
            elif k == "switch":
                tm = fn.op_term(t[1])
                outs = self._switch(fn, t, tm, cur, b)
                if extra and len(t[2]) == 1 and t[2][0][0] == 0 and len(outs) == 2:
                    outs = [(x, m if m == FULL else m | extra.get((b, o), 0)) for (x, m), o in zip(outs, (False, True))]
            elif k == "drop":
                dm = self.s.dropped(fn, t[1])
                if dm:
                    cur = (cur & ~self.mask(dm[1])) | self.mask(dm[0])
                outs.append((t[2], cur))
            else:
                for x in term_succ(t):
                    outs.append((x, cur))
            for x, m in outs:
                if prune and x in prune[1]:
                    continue
                nv = ins[x] & m
                if nv != ins[x]:
                    ins[x] = nv
                    if x not in inq:
                        inq.add(x)
                        work.append(x)
            if changed_local:
                # conditions on this local may now imply less: revisit switches and the definitions built on it
                for x in revisit:
                    if ins[x] != FULL and x not in inq:
                        inq.add(x)
                        work.append(x)
        return ins

    def _switch(self, fn, t, tm, cur, b):
        outs = []
        if tm[0] == "disc":
            vs = self.p.variants(tm[2])
            inner = tm[1]
            seen = []
            for v, x in t[2]:
                name = vs.get(v)
                seen.append(name)
                base = self._quant_edge(fn, inner, name, cur)
                m = base | self.implied(fn, inner, name, 0) if name is not None else cur
                outs.append((x, m))
            rest = [nm for nm in dict.fromkeys(vs.values()) if nm not in seen]
            if fn.bb[t[3]]["t"][0] != "unr" or fn.bb[t[3]]["s"]:
                if rest and all(r is not None for r in seen):
                    m = FULL
                    base = cur
                    for r in rest:
                        m &= self.implied(fn, inner, r, 0)
                        base = self._quant_edge(fn, inner, r, base)
                    outs.append((t[3], base | m if m != FULL else FULL))
                elif not vs:
                    outs.append((t[3], cur))
                elif not rest:
                    outs.append((t[3], FULL))
                else:
                    outs.append((t[3], cur))
            return outs
        vals = t[2]
        if len(vals) == 1 and vals[0][0] == 0:
            f = self.implied(fn, tm, False, 0)
            tr = self.implied(fn, tm, True, 0)
            outs.append((vals[0][1], cur | f))
            outs.append((t[3], cur | tr))
            return outs
        for v, x in vals:
            m = self._cmp(fn, "Eq", tm, ("const", v, None), 0)
            outs.append((x, cur | m))
        m = 0
        for v, x in vals:
            m |= self._cmp(fn, "Ne", tm, ("const", v, None), 0)
        outs.append((t[3], cur | m))
        return outs

    def _quant(self, fn, c):
        k = (fn.key, c.bb)
        r = self._quants.get(k)
        if r is None:
            r = self._quants[k] = self.mask(self.s.quant(fn, c.callee.self_ty or "") or ())
        return r

    def _quant_edge(self, fn, inner, outcome, cur):
        """loop over quantified items: entering an iteration forgets the item facts, leaving keeps what every
        iteration established."""
        if cur == FULL or outcome not in ("Some", "None"):
            return cur
        if inner[0] != "call" or inner[1] != "core::iter::traits::iterator::Iterator::next" or inner[3][0] != fn.key or inner[3][1] < 0:
            return cur
        t = fn.bb[inner[3][1]]["t"]
        if t[0] != "call" or "fn" not in t[1]:
            return cur
        q = self._quants.get((fn.key, inner[3][1]))
        if q is None:
            q = self._quants[(fn.key, inner[3][1])] = self.mask(self.s.quant(fn, self.p.callee(fn.crate, t[1]["fn"]).self_ty or "") or ())
        if not q:
            return cur
        old = (cur >> self.N) & q
        if outcome == "Some":
            return (cur & ~q) | old
        return cur | old

    def _merge(self, il, contrib, l, key, dflt, dic):
        c = contrib.setdefault(l, {})
        old = c.get(key)
        if old == (dflt, dic):
            return False
        c[key] = (dflt, dic)
        D, M = FULL, {}
        outcomes = set()
        for d0, m0 in c.values():
            outcomes |= set(m0)
        for d0, m0 in c.values():
            if d0 is not None:
                D &= d0
        # d0 None: this def only yields the listed outcomes
        for o in outcomes:
            v = FULL
            for d0, m0 in c.values():
                if o in m0:
                    v &= m0[o]
            M[o] = v
        D2 = FULL
        for d0, m0 in c.values():
            if d0 is not None:
                D2 &= d0
                for o in outcomes:
                    if o not in m0:
                        M[o] &= d0
        # outcome not in M falls back to D2
        il[l] = (FULL if False else D2, M)
        # store so that query(o) = M[o] if present else D2
        return True

    def _local_query(self, e, o):
        return e[1].get(o, e[0])

    def _contribute(self, fn, il, contrib, l, key, rv, cur):
        k = rv[0]
        if l in fn.mutref():
            il[l] = (0, {})
            return False
        if k == "use" and "p" not in rv[1]:
            v = rv[1].get("v")
            if isinstance(v, bool):
                return self._merge(il, contrib, l, key, None, {v: cur})
            return self._merge(il, contrib, l, key, cur, {})
        if k == "agg" and rv[1] == "adt":
            return self._merge(il, contrib, l, key, None, {rv[3]: cur})
        t = fn.rv_term(rv)
        return self._outcomes(fn, il, contrib, l, key, t, cur)

    def _outcomes(self, fn, il, contrib, l, key, t, cur):
        if l in fn.mutref():
            il[l] = (0, {})
            return False
        dic = {}
        if t[0] == "agg" and t[1] == "adt":
            return self._merge(il, contrib, l, key, None, {t[3]: cur})
        for o in (True, False, "Some", "None", "Ok", "Err"):
            m = self.implied(fn, t, o, 0)
            dic[o] = FULL if m == FULL else cur | m
        return self._merge(il, contrib, l, key, cur, dic)

    def _contribute_call(self, fn, il, contrib, l, key, c, cur):
        if c.name == "core::ops::try_trait::FromResidual::from_residual":
            return self._merge(il, contrib, l, key, None, {"Err": cur, "None": cur, "Break": cur})
        t = fn.call_term(c.t, 0, c.bb)
        return self._outcomes(fn, il, contrib, l, key, t, cur)

    # ------------------------------------------------------------------ summaries
    def _compute_summaries(self):
        p = self.p
        fns = [f for f in p.fns.values()]
        # functions that directly generate/kill atoms, or (transitively) call such functions
        rel = set()
        for f in fns:
            if self._direct(f):
                rel.add(f.key)
        callers = p.callers()
        work = list(rel)
        while work:
            k = work.pop()
            for kind, g, site in callers.get(k, ()):
                if g.key not in rel:
                    rel.add(g.key)
                    work.append(g.key)
        self.relevant = rel
        for k in rel:
            self.always[k] = FULL
            self.ret[k] = (FULL, {})
            self.maykill[k] = 0
        order = list(rel)
        # may-kill fixpoint
        changed = True
        dk = {}
        for k in rel:
            f = p.fns[k]
            m = 0
            for c in f.calls():
                m |= self.mask(self.s.kill(c) or ())
            dk[k] = m
            self.maykill[k] = m
        if any(dk.values()):
            changed = True
            while changed:
                changed = False
                for k in rel:
                    m = self.maykill[k]
                    for kind, g, site in p.out_edges(p.fns[k]):
                        m |= self.maykill.get(g.key, 0)
                    if m != self.maykill[k]:
                        self.maykill[k] = m
                        changed = True
        dep = defaultdict(set)
        for k in rel:
            for kind, g, site in p.out_edges(p.fns[k]):
                if g.key in rel:
                    dep[g.key].add(k)
                    for ch in (g.coro,) if g.coro is not None else ():
                        dep[ch.key].add(k)
        work = deque(self._topo(order))
        inq = set(work)
        count = defaultdict(int)
        while work:
            k = work.popleft()
            inq.discard(k)
            f = p.fns[k]
            count[k] += 1
            if count[k] > 60:
                # no fixpoint in sight: claim nothing
                al, rt = 0, (0, {})
                if (al, rt) != (self.always[k], self.ret[k]):
                    self.always[k], self.ret[k] = al, rt
                    for c in dep[k]:
                        if c not in inq:
                            inq.add(c)
                            work.append(c)
                continue
            for bi in range(len(f.bb)):
                self.call_ev.pop((k, bi), None)
            ins = self.analyze(f, 0)
            al = FULL
            for bi, b in enumerate(f.bb):
                if b["t"][0] == "ret" and ins[bi] != FULL:
                    cur = ins[bi]
                    for st in b["s"]:
                        if st[0] == "=":
                            e = self.s.stmt(f, st)
                            if e:
                                cur = (cur & ~self.mask(e[1])) | self.mask(e[0])
                    al &= cur
            rt = self.impl_local[k].get(0, (FULL, {}))
            rt = (rt[0], dict(rt[1]))
            if al != FULL:
                al &= self.all
            if al != self.always[k] or rt != self.ret[k]:
                self.always[k] = al
                self.ret[k] = rt
                for c in dep[k]:
                    if c not in inq:
                        inq.add(c)
                        work.append(c)
        self._dep = dep

    def _topo(self, keys):
        """approximate callee-first order"""
        seen, out = set(), []
        ks = set(keys)
        for r in keys:
            if r in seen:
                continue
            st = [(r, iter([g.key for _, g, _ in self.p.out_edges(self.p.fns[r]) if g.key in ks]))]
            seen.add(r)
            while st:
                k, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter([g.key for _, g, _ in self.p.out_edges(self.p.fns[x]) if g.key in ks])))
                        break
                else:
                    out.append(k)
                    st.pop()
        return out

    def _direct(self, f):
        """cheap over-approximation: does f itself generate or kill any atom?"""
        pre = getattr(self.s, "prefilter", None)
        if pre is not None:
            return pre(f)
        for c in f.calls():
            if self.s.event(c) or self.s.kill(c):
                return True
        return True

    # ------------------------------------------------------------------ top-down entry facts
    def entries(self, interesting, roots=None):
        """entry facts for every function that can reach `interesting` (keys)."""
        p = self.p
        callers = p.callers()
        need = set()
        work = list(interesting)
        while work:
            k = work.pop()
            if k in need:
                continue
            need.add(k)
            for kind, g, site in callers.get(k, ()):
                work.append(g.key)
        roots = set(roots or ())
        ent = {k: FULL for k in need}
        for k in need:
            if k in roots or not callers.get(k):
                ent[k] = 0
        self.entry = ent
        self.in_need = need
        work = deque(k for k in need if ent[k] != FULL)
        inq = set(work)
        insmap = self.ins
        while work:
            k = work.popleft()
            inq.discard(k)
            f = p.fns[k]
            ins = self.analyze(f, ent[k])
            insmap[k] = ins
            for kind, g, (bi, ln) in p.out_edges(f):
                if g.key not in need or g.key in roots:
                    continue
                m = self.at_site(f, ins, bi, kind, g)
                nv = ent[g.key] & m
                if nv != ent[g.key]:
                    ent[g.key] = nv
                    if g.key not in inq:
                        inq.add(g.key)
                        work.append(g.key)
        return ent

    def at_site(self, f, ins, bi, kind, g):
        """facts just before the block's terminator (calls) plus item facts for iterator closures."""
        cur = self.at_term(f, ins, bi)
        if cur == FULL:
            return FULL
        if kind == "make" or kind == "ref":
            # closure passed to an iterator/option combinator in this function?
            for c in f.calls():
                for i, a in enumerate(c.args):
                    if i == 0:
                        continue
                    if "p" in a or "fn" in a:
                        t = peel(f.op_term(a))
                        hit = (t[0] == "agg" and t[1] == "closure" and t[2] == g.key) or (t[0] == "fnitem" and t[1] == g.key)
                        if hit and c.name.startswith("core::iter::traits::iterator::Iterator::"):
                            m = self.item_facts(f, c.arg(0))
                            cur |= m
                        elif hit and c.name.startswith(("core::option::", "core::result::")) and last(c.name) in (
                                "map", "and_then", "is_some_and", "filter", "map_or", "map_or_else", "inspect"):
                            cur |= self._pos(f, c.arg(0), 0)
                        elif hit and c.name.startswith("core::bool::"):
                            cur |= self.implied(f, c.arg(0), True, 0)
        return cur

    def at_term(self, f, ins, bi):
        cur = ins[bi]
        if cur == FULL:
            return FULL
        for st in f.bb[bi]["s"]:
            if st[0] == "=":
                e = self.s.stmt(f, st)
                if e:
                    cur = (cur & ~self.mask(e[1])) | self.mask(e[0])
        return cur

    def facts_before_call(self, c):
        ins = self.ins.get(c.fn.key)
        if ins is None:
            return None
        return self.at_term(c.fn, ins, c.bb)

    # ------------------------------------------------------------------ must-follow (backward)
    def post(self, fn):
        """for each block: atoms (events) guaranteed to happen from block *end* to normal return,
        and from block start."""
        n = len(fn.bb)
        start = [FULL] * n
        calls = {c.bb: c for c in fn.calls()}
        changed = True
        order = list(reversed(fn.reachable()))
        it = 0
        while changed and it < 200:
            changed = False
            it += 1
            for b in order:
                t = fn.bb[b]["t"]
                if t[0] == "ret":
                    cur = 0
                else:
                    ss = fn.succ(b)
                    cur = FULL
                    for x in ss:
                        cur &= start[x]
                    if not ss and t[0] == "other":
                        cur = 0
                if t[0] == "call" and b in calls:
                    gen, kill = self.call_effect(fn, calls[b])
                    cur = FULL if gen == FULL else cur | gen
                elif t[0] == "drop":
                    dm = self.s.dropped(fn, t[1])
                    if dm:
                        cur |= self.mask(dm[0])
                if cur != FULL:
                    for st in reversed(fn.bb[b]["s"]):
                        if st[0] == "=":
                            e = self.s.stmt(fn, st)
                            if e:
                                cur |= self.mask(e[0])
                if cur != start[b]:
                    start[b] = cur
                    changed = True
        return start

    def post_after(self, fn, start, b):
        cur = FULL
        for x in fn.succ(b):
            cur &= start[x]
        return cur
