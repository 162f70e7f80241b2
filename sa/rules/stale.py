"""P23: replacing what the server knows about a file leaves nothing of the file's earlier facts.

The fact stores are found by their types: structs that hold a map keyed by the file identity (their owner index) and
live inside the analysis engine.  Every function of a store that takes a file identity and writes its owner index is
explored path by path with the store's own helpers expanded in place; what is inserted and what is erased is read off
the calls on the store's fields, so it does not matter in which helper an index is maintained."""
import re
from collections import defaultdict
from ir import peel, walk
from paths import Explorer, Machine, TooBig
from vals import call_targets, ret_terms

ENGINE = "::AnalysisEngine"
FILE = re.compile(r"(^|::)SourceFileId$")
FACTS = re.compile(r"::FileFacts$")
MAPS = ("std::collections::hash::map::HashMap<", "alloc::collections::btree::map::BTreeMap<",
        "std::collections::hash_map::HashMap<", "std::collections::HashMap<")
SETS = ("std::collections::hash::set::HashSet<", "alloc::collections::btree::set::BTreeSet<", "std::collections::HashSet<")
ERASE = {"remove", "remove_entry", "swap_remove", "shift_remove", "clear", "drain", "take", "truncate", "pop_first", "extract_if"}
INSERT = {"push", "push_back", "push_front", "insert", "insert_full", "extend", "append", "or_default", "or_insert", "or_insert_with",
          "extend_from_slice", "or_insert_entry", "try_insert", "insert_entry"}
NEXT = {"next", "pop", "pop_front", "next_back"}
EACH = {"for_each", "retain", "retain_mut", "try_for_each"}


def split_generics(ty):
    """HashMap<K, V, S> -> [K, V, S]"""
    i = ty.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in ty[i + 1:ty.rfind(">")]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


class Model:
    def __init__(s, ctx):
        p = s.p = ctx.p
        eng = [a for a in p.adts if a.endswith(ENGINE)]
        ctx.need(len(eng) == 1, "the analysis engine type was not found")
        s.engine = eng[0]
        s.fields = {}
        s.parts = set()       # structs of the engine that are not stores
        s.stores = {}
        work = [s.engine]
        while work:
            a = work.pop()
            if a in s.fields:
                continue
            fs = s.fields[a] = s.adt_fields(a)
            own = s.owner_fields(a)
            if own and a != s.engine and not any("SourceFile>" in t or t.rstrip(">").endswith("::SourceFile") for t in fs.values()):
                s.stores[a] = own
            else:
                s.parts.add(a)
            for n, t in fs.items():
                for x in re.findall(r"[A-Za-z_][\w:]*::\w+", t) if a in s.stores else [t]:
                    if x in p.adts and not p.adts[x].get("enum") and x not in s.fields:
                        work.append(x)
        # plain records (facts, ids) are values, not places facts are kept in
        for a in list(s.fields):
            if a != s.engine and a not in s.stores and not s.holds(a, set()):
                del s.fields[a]
                s.parts.discard(a)
        s.interest = set(s.fields)

    def holds(s, a, seen):
        """a struct that keeps maps or id lists (directly or in a part), as opposed to one fact"""
        seen.add(a)
        for t in s.fields[a].values():
            if t.startswith(MAPS + SETS) or re.match(r"alloc::vec::Vec<[\w:]*Id>$", t) or re.match(r"alloc::vec::Vec<[\w:]*Definition>$", t):
                return True
            if t in s.fields and t not in seen and s.holds(t, seen):
                return True
        return False

    def adt_fields(s, a):
        d = s.p.adts[a]
        if d.get("enum") or not d["v"]:
            return {}
        return {f[0]: s.p.ty(d["crate"], f[1]) for f in d["v"][0][2]}

    def owner_fields(s, a):
        r = set()
        for n, t in s.fields.get(a, s.adt_fields(a)).items():
            if t.startswith(MAPS + SETS):
                g = split_generics(t)
                if g and FILE.search(g[0]):
                    r.add(n)
        return r

    def is_set(s, k):
        return s.fields[k[0]][k[1]].startswith(SETS)

    def collection(s, k):
        t = s.fields[k[0]][k[1]]
        return t.startswith(MAPS + SETS) or t.startswith("alloc::vec::Vec<") or "Map<" in t[:80] or "Set<" in t[:80]

    def arena(s, k):
        return s.fields[k[0]][k[1]].startswith("alloc::vec::Vec<core::option::Option<")


STD = ("core::", "alloc::", "std::", "indexmap::", "hashbrown::", "parking_lot::", "lock_api::", "<")


class Base(Machine):
    """shared: which field of the engine or of a store a value comes from"""

    def __init__(s, mo):
        s.mo, s.p = mo, mo.p
        s.x = None

    def base(s, t, frame=None, d=0):
        """(owner struct, field) the value lives in, with the keys used on the way; None if elsewhere"""
        keys = []
        frame = len(s.x.stack) if frame is None else frame
        while d < 40:
            d += 1
            t = peel(t)
            k = t[0]
            if k == "field":
                if t[3] in s.mo.interest:
                    return (t[3], t[2]), keys
                t = t[1]
            elif k in ("some", "down", "index", "proj"):
                t = t[1]
            elif k == "un" or k == "repeat":
                t = t[-1]
            elif k == "call":
                if not t[2]:
                    return None
                if not t[1].startswith(STD):
                    # a helper of the store that hands out a value of one of its fields
                    gs = call_targets(s.p, t)
                    if len(gs) != 1 or d > 30:
                        return None
                    rs = {s.base(u, 1, d + 10) and s.base(u, 1, d + 10)[0] for u in ret_terms(s.p, gs[0])}
                    return (rs.pop(), keys) if len(rs) == 1 and None not in rs else None
                if t[1].rsplit("::", 1)[-1] in ("get_mut", "entry", "get", "remove") and len(t[2]) > 1:
                    keys.append((t[2][1], frame))
                t = t[2][0]
            elif k == "arg":
                if frame < 2 or s.x.stack[frame - 1][0] != t[1]:
                    return None
                ck, cb = s.x.stack[frame - 2]
                g = s.p.fns[ck]
                ct = g.bb[cb]["t"]
                if t[2] - 1 >= len(ct[2]):
                    return None
                t = g.op_term(ct[2][t[2] - 1])
                frame -= 1
            elif k == "upvar":
                u = s.p.resolve_up(t)
                if u == t:
                    return None
                t = u
            elif k == "var":
                g = s.p.fns[t[1]]
                res = set()
                for bi, kind, pl, ln in g.defs().get(t[2], []):
                    u = g.rv_term(pl, 1) if kind == "rv" else g.call_term(pl, 1, bi)
                    if any(y == t for y in walk(u)):
                        continue
                    r = s.base(u, frame, d + 5)
                    res.add(r[0] if r else None)
                res.discard(None)
                return (res.pop(), keys) if len(res) == 1 else None
            else:
                return None
        return None

    def resolve(s, t, frame):
        """follow parameters to the frames that passed them"""
        t = peel(t)
        n = 0
        while t[0] == "arg" and frame >= 2 and s.x.stack[frame - 1][0] == t[1] and n < 6:
            ck, cb = s.x.stack[frame - 2]
            g = s.p.fns[ck]
            ct = g.bb[cb]["t"]
            if t[2] - 1 >= len(ct[2]):
                break
            t = peel(g.op_term(ct[2][t[2] - 1]))
            frame -= 1
            n += 1
        return t

    def key_sig(s, keys):
        """names of the fact's parts a lookup key is made of (outermost lookup), or None"""
        if not keys:
            return None
        t, fr = keys[-1]
        t = s.resolve(t, fr)
        if t[0] == "agg":
            parts = [s.resolve(x, fr) for x in t[5]]
        else:
            parts = [t]
        out = []
        for x in parts:
            x = peel(x)
            while x[0] in ("some", "down"):
                x = peel(x[1])
            if x[0] == "field" and x[3] not in s.mo.interest:
                out.append(x[2])
            else:
                return None
        return tuple(out)

    def sig(s, term, outcome):
        """a test of part of a fact: (what, outcome)"""
        fr = len(s.x.stack)
        if term[0] == "disc":
            t = s.resolve(term[1], fr)
            if term[2] in s.p.adts and not str(term[2]).startswith(("core::", "alloc::", "std::")):
                return (term[2], outcome)
            n = s.sigof(t)
            return (n, outcome) if n else None
        t = peel(term)
        if t[0] == "call" and t[1] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and isinstance(outcome, bool):
            a, b = (s.resolve(x, fr) for x in t[2][:2])
            for x, y in ((a, b), (b, a)):
                n = s.sigof(x)
                if n and y[0] in ("agg", "const"):
                    return (n, y[3] if y[0] == "agg" else y[1], outcome == t[1].endswith("eq"))
            return None
        n = s.sigof(t)
        return (n, outcome) if n else None

    def sigof(s, t):
        t = peel(t)
        if t[0] == "field" and t[3] in s.p.adts and t[3] not in s.mo.interest:
            return f"{t[3].rsplit('::', 1)[-1]}.{t[2]}"
        if t[0] == "call" and not t[1].startswith(STD):
            return t[1].rsplit("::", 1)[-1]
        return None

    def effects(s, f, c):
        """[(kind, field, key signature)]; kind E erases, I inserts, R replaces what one key held"""
        n = c.name
        if not n.startswith(STD) or not c.args:
            return []
        l = n.rsplit("::", 1)[-1]
        if l in ("and_then", "map") and len(c.args) > 1:
            a = peel(f.op_term(c.args[1]))
            if a[0] == "fnitem" and a[2].endswith("Option::<T>::take"):
                l = "take"
        kind = "E" if l in ERASE else "I" if l in INSERT else None
        if n in ("core::mem::take", "core::mem::replace"):
            kind = "E"
        if l in ("retain", "retain_mut"):
            kind = "E" if s.drops_match(f, c) else None
        if kind is None:
            return []
        b = s.base(f.op_term(c.args[0]))
        if b is None:
            return []
        k, keys = b
        if l == "insert" and len(c.args) == 3:
            keys = [(f.op_term(c.args[1]), len(s.x.stack))] + keys
            kind = "R"
        elif l in ("remove", "remove_entry", "swap_remove", "insert") and len(c.args) > 1:
            keys = [(f.op_term(c.args[1]), len(s.x.stack))] + keys
        return [(kind, k, s.key_sig(keys))]

    def drops_match(s, f, c):
        """does the predicate given to `retain` reject every element that matches (the file, the id)?"""
        a = peel(f.op_term(c.args[1])) if len(c.args) > 1 else ("unknown",)
        if not (a[0] == "agg" and a[1] == "closure" and a[2] in s.p.fns):
            return False
        g = s.p.fns[a[2]]
        memo = s.p.__dict__.setdefault("_drops", {})
        if g.key not in memo:
            m = Keep()
            x = Explorer(s.p, m)
            x.m = m
            ok, seen = True, False
            for e in x.run(g):
                if e.kind != "ret":
                    continue
                if e.ret is False:
                    seen = True
                    continue
                if "ne" in e.facts:
                    seen = True
                    continue
                t = e.test if e.test is not None else (ret_terms(s.p, g) or [("unknown",)])[0]
                neg = False
                t = peel(t)
                while t[0] == "un" and t[1] == "Not":
                    t, neg = peel(t[2]), not neg
                if e.ret is None and is_ne(t, neg):
                    seen = True
                    continue
                ok = False
            memo[g.key] = ok and seen
        return memo[g.key]


def is_ne(t, neg):
    if t[0] == "call" and t[1] in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne"):
        return t[1].endswith("ne") != neg
    if t[0] == "bin" and t[1] in ("Eq", "Ne"):
        return (t[1] == "Ne") != neg
    return False


class Keep(Machine):
    def edge(s, f, term, outcome, facts):
        t = peel(term)
        if outcome in (True, False) and (is_ne(t, False) and outcome or is_ne(t, True) and not outcome):
            return ({"ne"}, ())
        return None


def closures(f, c):
    """closures passed to a call"""
    out = []
    for a in c.args[1:]:
        t = peel(f.op_term(a))
        if t[0] == "agg" and t[1] == "closure" and t[2] in f.prog.fns:
            out.append(f.prog.fns[t[2]])
    return out


class StoreMachine(Base):
    def __init__(s, mo, store, insert_of=None, secondary=None, skips=None, inkeys=None, learn=False):
        super().__init__(mo)
        s.store, s.learn = store, learn
        s.own = {(store, o) for o in mo.owner_fields(store)}
        s.insert_of, s.secondary, s.skips, s.inkeys = insert_of, secondary, skips, inkeys
        s.problems = []
        s.done = {}         # per-file functions already decided: owner indexes they clear on every path
        s.learned = []      # (inserted fields, signatures)
        s.relevant = {y for rs in skips.values() for r in rs for y in r} if skips is not None else None
        s.keys = defaultdict(set)

    def inline(s, f, c, g):
        if g.key in s.done:
            return False
        for i, l in enumerate(range(1, g.nargs + 1)):
            ty = g.ty(l) or ""
            if ty.startswith("&mut "):
                inner = ty[5:].split("<")[0]
                if inner in s.mo.interest:
                    return True
                if i < len(c.args) and s.base(f.op_term(c.args[i])) is not None:
                    return True
        return False

    def call(s, f, c, facts):
        add, rem = set(), set()
        for g in (s.p.targets(c.callee) if c.callee and s.done else []):
            if g.key in s.done:
                add |= {("E", k) for k in s.done[g.key]}
        for cl in closures(f, c):
            for k in s.closure_must(cl):
                add.add(("X", k))
                if k in s.own:
                    add.add(("E", k))
        l = c.name.rsplit("::", 1)[-1]
        b = None
        if c.name.startswith(STD) and l in NEXT | EACH and c.args:
            b = s.base(f.op_term(c.args[0]))
            if b is not None:
                k = b[0]
                if l in NEXT and ("IT", k) in facts:
                    s.iteration(f, c, k, facts)
                if l in EACH and closures(f, c):
                    rem |= {("PEND", k)}
                    if l in ("for_each", "try_for_each") and k in s.own and s.insert_of and not s.learn:
                        for cl in closures(f, c):
                            for e in s.closure_ends(cl):
                                if ("VOID",) in e.facts:
                                    continue
                                sigs = {x[1] for x in e.facts if x[0] == "S"}
                                for F in s.insert_of.get(k, ()):
                                    if ("X", F) not in e.facts and not s.may_skip(F, sigs):
                                        s.problems.append((f, c, k, F, "iter"))
                    if s.nested(k) and not s.learn:
                        add |= {("SW", k)}
        if l in NEXT and c.name.startswith(STD) and s.learn:
            s.flush(facts)
            if any(x[0] in ("I", "S") for x in facts):
                rem |= {x for x in facts if x[0] in ("I", "S")}
        for kind, k, ks in s.effects(f, c):
            if kind in "EI" or kind == "R":
                if ks is not None and k not in s.own:
                    s.keys[(k, "I" if kind != "E" else "E", f.key, c.bb)].add(ks)
            if kind in "ER":
                if not s.learn:
                    add.add(("X", k))
                if k in s.own:
                    add.add(("E", k))
                    if s.insert_of and s.insert_of.get(k) and kind == "E" and ("E", k) not in facts:
                        add.add(("PEND", k))
            if kind in "IR":
                if s.learn or s.insert_of is None:
                    add.add(("I", k))
                if k in s.own and kind == "I" and ("E", k) not in facts:
                    s.problems.append((f, c, k, None, "order"))
        return (add, rem) if add or rem else None

    def closure_ends(s, g):
        """the ways one run of the closure, given each element in turn, can return"""
        m = StoreMachine(s.mo, s.store, insert_of=s.insert_of, skips=s.skips)
        m.done = s.done
        x = SX(s.p, m)
        ends = [e for e in x.run(g) if e.kind == "ret"]
        for k, v in m.keys.items():
            s.keys[k] |= v
        return ends

    def closure_must(s, g):
        """fields every run of the closure erases from"""
        if g.key in [x[0] for x in s.x.stack]:
            return set()
        m = StoreMachine(s.mo, s.store)
        x = SX(s.p, m)
        try:
            ends = [e for e in x.run(g) if e.kind == "ret"]
        except TooBig:
            return set()
        out = None
        for e in ends:
            k = {y[1] for y in e.facts if y[0] == "X"}
            out = k if out is None else out & k
        return out or set()

    def write(s, f, st, facts):
        pl = st[1]
        # `*slot = Some(fact)` / `slot = None` through a reference into a field
        if "*" in pl or any(isinstance(e, (list, tuple)) and e[0] == "f" for e in pl[1:]):
            k = s.written(f, pl)
            if k is None:
                return None
            v = peel(f.rv_term(st[2], 1)) if st[2][0] in ("use", "agg") else ("unknown",)
            if len(pl) == 2 and pl[1] == "*" and re.match(r"&mut [ui](size|\d+)$", f.ty(pl[0]) or ""):
                # a count kept for a key is adjusted
                return ({("X", k)}, ())
            if v[0] == "agg" and v[3] == "None":
                return ({("X", k)}, ())
            if v[0] == "agg" and v[3] == "Some":
                return ({("I", k)}, ())
            if v[0] == "call" and v[1].endswith(("Default::default", "::new")):
                return ({("X", k), ("E", k)} if k in s.own else {("X", k)}, ())
        return None

    def written(s, f, pl):
        for e in reversed(pl[1:]):
            if e != "*" and e[0] == "f" and len(e) > 2 and e[2] in s.mo.interest:
                return (e[2], e[1])
        b = s.base(f.term(pl[0]))
        return b[0] if b else None

    def edge(s, f, term, outcome, facts):
        add, rem = set(), set()
        if s.learn:
            g = s.sig(term, outcome)
            return ({("S", g)}, ()) if g else None
        if term[0] == "disc":
            t = peel(term[1])
            if t[0] == "call" and t[1].startswith(STD) and t[1].rsplit("::", 1)[-1] in NEXT:
                b = s.base(t)
                if b is not None:
                    k = b[0]
                    if not {("PEND", k), ("IT", k)} & facts and not s.nested(k):
                        return None
                    if outcome in ("Some",):
                        add |= {("IT", k)}
                        rem |= {x for x in facts if x[0] in ("X", "S") and x[1] not in s.own} | {("PEND", k)}
                    elif outcome == "None":
                        add |= {("SW", k)} if s.nested(k) else set()
                        rem |= {("IT", k), ("PEND", k)} | {x for x in facts if x[0] == "S"}
                        if ("IT", k) in facts:
                            rem |= {x for x in facts if x[0] == "X" and x[1] not in s.own} | {("VOID",)}
                    return add, rem
            if outcome in ("None", "Err"):
                b = s.base(t)
                if b is not None:
                    k = b[0]
                    add.add(("X", k))
                    rem.add(("PEND", k))
                    if s.mo.arena(k):
                        add.add(("VOID",))
                    for x in s.nested(k):
                        add.add(("X", x))
                    return add, rem
        else:
            t = peel(term)
            if t[0] == "call" and t[1].startswith(STD) and t[1].rsplit("::", 1)[-1] in ("remove", "contains_key", "contains", "is_empty", "is_none", "is_some"):
                b = s.base(t)
                if b is not None:
                    empty = outcome == (t[1].rsplit("::", 1)[-1] in ("is_empty", "is_none"))
                    if b[0] in s.own and empty:
                        return {("E", b[0]), ("X", b[0])}, {("PEND", b[0])}
                    if empty:
                        return {("X", b[0])}, ()
        g = s.sig(term, outcome)
        if g and (s.learn or s.relevant is None or g in s.relevant):
            add.add(("S", g))
        return (add, rem) if add or rem else None

    def edge_any(s, f, term, names, facts):
        return None

    def nested(s, k):
        """fields of the structs a container holds"""
        t = s.mo.fields[k[0]][k[1]]
        out = set()
        for a in re.findall(r"[A-Za-z_][\w:]*::\w+", t):
            if a in s.mo.fields and a not in s.mo.stores:
                out |= {(a, n) for n in s.mo.fields[a]}
        return out

    def may_skip(s, F, sigs):
        return any(r and r <= sigs for r in (s.skips or {}).get(F, ()))

    def iteration(s, f, c, k, facts):
        if s.learn or not s.insert_of:
            return
        if ("VOID",) in facts:
            return
        sigs = {x[1] for x in facts if x[0] == "S"}
        if k in s.own and not s.mo.is_set(k):
            for F in s.insert_of.get(k, ()):
                if ("X", F) not in facts and not s.may_skip(F, sigs):
                    s.problems.append((f, c, k, F, "iter"))
        else:
            ns = s.nested(k)
            for O, Fs in s.insert_of.items():
                if s.mo.is_set(O):
                    for F in Fs:
                        if F in ns and ("X", F) not in facts:
                            s.problems.append((f, c, O, F, "iter"))

    def flush(s, facts):
        if s.learn:
            ins = frozenset(x[1] for x in facts if x[0] == "I")
            if ins:
                s.learned.append((ins, frozenset(x[1] for x in facts if x[0] == "S")))


class SX(Explorer):
    """explorer that tells its machine where it is"""

    def __init__(s, p, m):
        super().__init__(p, m)
        m.x = s
        s.stack = ()

    def step(s, state, ends):
        s.stack = state[0]
        return super().step(state, ends)


def mut_of(f, adt):
    return any((f.ty(l) or "").split("<")[0] == "&mut " + adt for l in range(1, f.nargs + 1))


def takes_file(f):
    return any(FILE.search((f.ty(l) or "").lstrip("&")) for l in range(1, f.nargs + 1))


def check_store(ctx, mo, store):
    p = ctx.p
    short = store.rsplit("::", 1)[-1]
    fns = [f for f in p.fns.values() if f.kind == "fn" and mut_of(f, store) and f.impl_self is not None or
           f.kind == "fn" and mut_of(f, store)]
    # ---- learn what goes in together, and when something stays out
    together, skips = defaultdict(set), defaultdict(set)
    inkeys = defaultdict(set)
    roots = []
    for f in fns:
        m = StoreMachine(mo, store, learn=True)
        x = SX(p, m)
        ends = x.run(f)
        own_touched = False
        for e in ends:
            if e.kind == "ret":
                m.flush(e.facts)
        for ins, sg in m.learned:
            for o in ins & m.own:
                together[o] |= {k for k in ins if k not in m.own and mo.collection(k)}
        # a function that puts something in for a file, or takes everything of a file out
        direct = any(("E", o) in e.facts or ("I", o) in e.facts for e in ends if e.kind == "ret" for o in m.own) or m.learned
        for (k, kind, fk, bb), v in m.keys.items():
            if kind == "I":
                inkeys[k] |= v
        if takes_file(f):
            if any(("E", o) in e.facts for e in ends for o in m.own) or any(i & m.own for i, _ in m.learned) or m.problems:
                roots.append(f)
        f_learn = m.learned
        for ins, sg in f_learn:
            if ins & m.own:
                for o in ins & m.own:
                    skips[o].add((ins, sg))
    free = free_lists(mo, store, fns)
    insert_of, sm = {}, StoreMachine(mo, store)
    for o, ks in together.items():
        insert_of[o] = {k for k in ks if k not in free and not sm.nested(k) and "IndexSet<" not in mo.fields[k[0]][k[1]] and "IndexMap<" not in mo.fields[k[0]][k[1]]}
    sk = defaultdict(set)
    for o, lst in skips.items():
        for F in insert_of[o]:
            for ins, sg in lst:
                if F not in ins:
                    sk[F].add(sg)
    if not roots:
        return {}
    done, held = {}, {}
    steps = parts_of(p, roots)
    order = inner_first(p, roots)
    todo = [(f, None) for f in order]
    while todo:
        f, r = todo.pop(0)
        if r is None:
            m = StoreMachine(mo, store, insert_of=insert_of, skips=sk)
            m.done = done
            try:
                ends = [e for e in SX(p, m).run(f) if e.kind == "ret"]
            except TooBig:
                under = [k for k in held if k in p.reach([f])]
                if not under:
                    raise
                # too large as a whole: decide its own steps one by one
                inner = {k for k in under if any(k != h and k in p.reach([p.fns[h]]) for h in under)}
                for k in inner:
                    held.pop(k)
                under = [k for k in under if k not in inner]
                for k in under:
                    done = {**done, k: set(m.own)}
                todo = [(p.fns[k], held.pop(k)) for k in under] + [(f, None)] + todo
                continue
            if f.key in steps and (m.problems or any(e for e in ends if any(("E", o) not in e.facts or ("PEND", o) in e.facts or ("IT", o) in e.facts for o in m.own))):
                # one step of a larger replacement, decided there with the other steps
                held[f.key] = (m, ends)
                continue
        else:
            m, ends = r
        if f.key not in done:
            held = {k: v for k, v in held.items() if k not in p.reach([f])}
            done = {**done, f.key: {o for o in m.own if all(("E", o) in e.facts for e in ends)}}
        okf = True
        for (g, c, k, F, kind) in dedupe(m.problems):
            okf = False
            if kind == "order":
                ctx.bad("replace", f"{f.name}:{k[1]}:order", f"{f.name} adds to {short}.{k[1]} while what the file said before may still be there", c.loc())
            else:
                ctx.bad("index", f"{f.name}:{k[1]}:{F[0].rsplit('::', 1)[-1]}.{F[1]}",
                        f"{f.name} forgets a file's entries of {short}.{k[1]} but a path leaves them in {F[0].rsplit('::', 1)[-1]}.{F[1]}", c.loc())
        for o in sorted(m.own):
            hit = [e for e in ends if ("E", o) not in e.facts]
            what = f"{f.name} clears {short}.{o[1]} for the file"
            if hit:
                okf = False
                ctx.bad("replace", f"{f.name}:{o[1]}", f"{f.name} can return with the file's earlier entries still in {short}.{o[1]}", f"{f.file}:{hit[0].line or f.line}")
            else:
                ctx.ok("replace", what, f"{f.file}:{f.line}")
            pend = [e for e in ends if ("PEND", o) in e.facts]
            early = [e for e in ends if ("IT", o) in e.facts]
            for F in sorted(insert_of.get(o, ())):
                fn = f"{F[0].rsplit('::', 1)[-1]}.{F[1]}"
                if mo.is_set(o):
                    sw = [e for e in ends if ("PEND", o) in e.facts and not any(y[0] == "SW" and F in m.nested(y[1]) for y in e.facts) and ("X", F) not in e.facts]
                    if sw:
                        okf = False
                        ctx.bad("index", f"{f.name}:{o[1]}:{fn}:kept", f"{f.name} forgets the file in {short}.{o[1]} but a path leaves its entries in {fn}", f"{f.file}:{sw[0].line or f.line}")
                        continue
                elif pend or early:
                    okf = False
                    e = (pend or early)[0]
                    ctx.bad("index", f"{f.name}:{o[1]}:{fn}:kept", f"{f.name} forgets a file's entries of {short}.{o[1]} but a path leaves them in {fn}", f"{f.file}:{e.line or f.line}")
                    continue
                ctx.ok("index", f"{f.name}: entries of {short}.{o[1]} also leave {fn}", f"{f.file}:{f.line}")
        # ---- the keys used to find them again
        for (k, kind, fk, bb), v in m.keys.items():
            if kind != "E" or k not in {F for fs in insert_of.values() for F in fs} or not inkeys.get(k):
                continue
            for sgn in v:
                g = p.fns[fk]
                ln = next((c.line for c in g.calls() if c.bb == bb), g.line)
                if sgn in inkeys[k]:
                    ctx.ok("key", f"{f.name}: {k[1]} looked up by {'/'.join(sgn)}", f"{g.file}:{ln}")
                else:
                    okf = False
                    ctx.bad("key", f"{f.name}:{k[1]}:{'/'.join(sgn)}", f"{f.name} looks a stale entry of {k[1]} up by {'/'.join(sgn)}, it was stored by {' or '.join('/'.join(z) for z in sorted(inkeys[k]))}", f"{g.file}:{ln}")
    return done


def parts_of(p, roots):
    """functions that run only as a part of another replacement of the same store"""
    ks = {f.key for f in roots}
    out = set(ks)
    changed = True
    while changed:
        changed = False
        for k in list(out):
            cs = {g.key for _, g, _ in p.callers().get(k, ())}
            if not cs or not all(c in ks or p.fns[c].kind != "fn" for c in cs) or cs == {k}:
                out.discard(k)
                changed = True
    # somebody outside has to call into a group
    tops = ks - out
    reach = p.reach([p.fns[k] for k in tops])
    return {k for k in out if k in reach}


def inner_first(p, roots):
    ks = {f.key: f for f in roots}
    out, seen = [], set()

    def go(f):
        if f.key in seen:
            return
        seen.add(f.key)
        for _, g, _ in p.out_edges(f):
            if g.key in ks:
                go(g)
        out.append(f)
    for f in roots:
        go(f)
    return out


def dedupe(ps):
    seen, out = set(), []
    for x in ps:
        k = (x[0].key, x[2], x[3], x[4])
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


def free_lists(mo, store, fns):
    """fields ids are handed out from again"""
    out = set()
    for f in fns:
        for c in f.calls():
            if c.name.endswith("Vec::<T, A>::pop") and c.args:
                t = peel(f.op_term(c.args[0]))
                if t[0] == "field" and t[3] in mo.interest:
                    out.add((t[3], t[2]))
    return out


def check(ctx):
    mo = Model(ctx)
    ctx.need(len(mo.stores) >= 6, f"only {len(mo.stores)} fact stores found")
    ctx.rule("replace", "every path of a store's per-file replacement erases the file from each owner index, before anything is added for it")
    ctx.rule("index", "for each forgotten entry, every path erases it from each index or arena that entries are inserted into, unless the entry has the property with which insertion skips that index")
    ctx.rule("key", "a stale entry is looked up in an index by the same parts of the fact that stored it there")
    done = {}
    for st in sorted(mo.stores):
        try:
            r = check_store(ctx, mo, st)
        except TooBig as e:
            ctx.notes.append(f"{st.rsplit('::', 1)[-1]}: too many paths to enumerate in {e}, not decided")
            continue
        done.update(r)
        ctx.notes.append(f"{st.rsplit('::', 1)[-1]}: owner {sorted(mo.owner_fields(st))}, {len(r)} replacement functions")
    ctx.need(len(done) >= 6, f"only {len(done)} per-file replacements of stores could be decided")
    from rules import stale_engine
    stale_engine.run(ctx, mo, done)
    for rid, n in (("replace", 10), ("index", 20), ("key", 4), ("whole", 15), ("version", 2), ("fresh", 12), ("again", 8)):
        ctx.floor(rid, n)
