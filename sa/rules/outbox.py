"""What is queued for the client is delivered: newest wins, one sender at a time, nothing left behind."""
import re
from core import base_fn
from flow import last
from ir import peel, walk
from paths import Explorer, Machine, TooBig
from rules.admission import LIB, fields_of, lib, put
from rules.single_flight import SPAWN
from vals import call_targets, mentions

SEND = re.compile(r"tower_lsp::.*[Cc]lient::(publish_diagnostics|send_notification)$")
MAPS = ("BTreeMap<", "HashMap<", "Option<", "Vec<", "VecDeque<", "IndexMap<")


class Box:
    def __init__(s, adt, pend, bools, payload):
        s.adt, s.pend, s.bools, s.payload = adt, pend, bools, payload
        s.mod = adt.rsplit("::", 1)[0] + "::"


def payloads(p):
    """what goes to the client through a queued channel: {payload type: [send calls]}"""
    out = {}
    for f in lib(p):
        for c in f.calls():
            if SEND.search(c.name):
                if last(c.name) == "publish_diagnostics":
                    out.setdefault("Vec<lsp_types::Diagnostic>", []).append((f, c))
                else:
                    g = " ".join(c.callee.generics or [])
                    for i in range(1, len(c.args)):
                        a = f.bb[c.bb]["t"][2][i]
                        if "p" in a:
                            out.setdefault(f.ty(a["p"][0]) or g, []).append((f, c))
    return out


def boxes(p):
    out = []
    locked = " ".join(t for a in p.crates[LIB]["adts"] for n, t in fields_of(p, a["n"]) if "Mutex<" in t) + " "
    for a in p.crates[LIB]["adts"]:
        if not re.search(re.escape(a["n"]) + r"\W", locked):
            continue
        fs = fields_of(p, a["n"])
        bl = [n for n, t in fs if t == "bool"]
        if not bl:
            continue
        for pay, sends in payloads(p).items():
            key = "Diagnostic>" if "Diagnostic" in pay else pay
            pn = [n for n, t in fs if key in t and t.split("<")[0].rsplit("::", 1)[-1] + "<" in MAPS]
            if pn:
                out.append((Box(a["n"], pn, bl, pay), sends))
    return out


class M(Machine):
    def __init__(s, p, box, sends):
        s.p, s.b = p, box
        s.sends = {(f.key, c.bb) for f, c in sends}
        s.clears, s.sp, s.log = {}, {}, []

    def fld(s, t):
        t = peel(t)
        while t[0] == "call" and t[2] and not call_targets(s.p, t) and last(t[1]) in ("as_ref", "as_mut", "deref", "deref_mut", "borrow", "borrow_mut"):
            t = peel(t[2][0])
        return t[2] if t[0] == "field" and len(t) > 3 and str(t[3]) == s.b.adt else None

    def gens(s, c):
        return " ".join(c.callee.generics or []) + " " + (c.callee.self_ty or "") if c.callee else ""

    def inline(s, f, c, g):
        if g.crate != LIB or g.is_async or g.kind == "coroutine":
            return False
        return any(s.b.adt in (g.ty(i + 1) or "") for i in range(g.nargs)) or g.name.startswith(s.b.mod) and (s.aux(g) or s.near(g))

    def near(s, g):
        """helper that works on the queue itself"""
        if ("near", g.key) not in s.sp:
            s.sp["near", g.key] = False
            s.sp["near", g.key] = len(g.bb) < 60 and any(
                c.callee is not None and (last(c.name) in ("lock", "try_lock") and "utex" in c.name and s.b.adt in s.gens(c)) for c in g.calls())
        return s.sp["near", g.key]

    TAKES = ("take", "pop_first", "pop_front", "pop", "pop_last", "remove")

    def read(s, f, st, facts):
        """reading a flag: it is set or it is not"""
        if st[2][0] != "use" or "p" not in st[2][1]:
            return None
        n = s.place(st[2][1]["p"])
        if n not in s.b.bools:
            return None
        return s.flag(n, facts)

    def flag(s, n, facts):
        on = (True, (f"on:{n}", f"wason:{n}"), (f"off:{n}",))
        off = (False, (f"off:{n}", f"sawoff:{n}"), (f"on:{n}",))
        return [on] if f"on:{n}" in facts else [off] if f"off:{n}" in facts else [on, off]

    def call_alts(s, f, c, facts):
        if c.callee is None or not c.args:
            return None
        l, n = last(c.name), s.fld(c.arg(0))
        if n in s.b.bools and c.name in ("core::mem::replace", "core::mem::take"):
            new = s.const(c.arg(1)) if len(c.args) > 1 else False
            if new is None:
                return None
            out = []
            for v, add, rem in s.flag(n, facts):
                F = (set(facts) - set(rem)) | set(add)
                a, r = s.setf(f, c.line, n, new, F)
                out.append((v, tuple((set(add) - set(r)) | set(a)), tuple(set(rem) | set(r))))
            return out
        if n in s.b.pend and l in s.TAKES:
            some = ("Some", ("holding",), ("empty",))
            none = ("None", ("empty",), ())
            return [none] if "empty" in facts else [some] if "nonempty" in facts else [some, none]
        return None

    def const(s, t):
        t = peel(t)
        return t[1] if t[0] == "const" and isinstance(t[1], bool) else {"true": True, "false": False}.get(t[1]) if t[0] == "const" else None

    def setf(s, f, line, n, o, facts):
        if o is True:
            if f"off:{n}" in facts:
                return (f"armed:{n}", f"mine:{n}", f"on:{n}"), (f"off:{n}",)
            return (f"on:{n}",) if f"on:{n}" in facts else (f"on:{n}", f"blindset:{n}"), (f"off:{n}",)
        s.log.append(("clear", f, line, facts, n))
        return (f"off:{n}", f"idle:{n}"), (f"on:{n}", f"armed:{n}")

    def seqs(s):
        """where status messages get their number: additions to a counter in a function that handles them"""
        if "seqs" not in s.sp:
            s.sp["seqs"] = {(f.key, c.bb) for f in lib(s.p) if f.crate == LIB and s.b.payload in " ".join(f.ty(i) or "" for i in range(f.nargs + 1))
                            and "Diagnostic" not in s.b.payload for c in f.calls() if last(c.name) == "fetch_add"}
        return s.sp["seqs"]

    def aux(s, g):
        """helper that starts the sender or numbers a message"""
        if g.key not in s.sp:
            s.sp[g.key] = any(last(c.name) == "fetch_add" or SPAWN.search(c.name) and c.args and s.spawned(c) for c in g.calls()) and len(g.bb) < 60
        return s.sp[g.key]

    def unlock(s, facts):
        rem = tuple(x for x in facts if x.startswith(("empty", "nonempty", "off:", "on:", "wason:", "locked", "seqd")))
        if "queued" in facts and any(f"wason:{n}" in facts for n in senders(s, s.b)):
            return ("covered",), rem + ("queued",)
        return tuple("waits:" + x[6:] for x in facts if x.startswith("wason:") and x[6:] not in senders(s, s.b)), rem

    def drop(s, f, pl, facts):
        t = f.ty(pl[0]) or ""
        if len(pl) == 1 and re.match(r"[\w:]*Guard<", t) and s.b.adt in t:
            return s.unlock(facts)
        return None

    def place(s, pl):
        for e in reversed(pl[1:]):
            if e != "*" and e[0] == "f" and len(e) > 2 and e[2] == s.b.adt:
                return e[1]
        return None

    def call(s, f, c, facts):
        l = last(c.name)
        if c.callee is None:
            return None
        if l in ("lock", "try_lock") and "utex" in c.name and s.b.adt in s.gens(c) or l in ("lock", "try_lock", "lock_owned") and "utex" in c.name and s.b.adt in (f.ty(c.dest[0]) or ""):
            a, r = s.unlock(facts)
            return a + ("locked",), r
        if c.name == "core::mem::drop" and s.b.adt in s.gens(c):
            return s.unlock(facts)
        n = s.fld(c.arg(0)) if c.args else None
        if n in s.b.pend:
            if l in ("insert", "replace", "push", "push_back"):
                s.log.append(("queue", f, c, facts))
                return ("queued", "nonempty"), ("empty",)
            if l in ("entry", "or_insert", "get_or_insert", "get_or_insert_with", "try_insert"):
                s.log.append(("keepold", f, c, facts))
                return ("queued", "nonempty"), ("empty",)
            if l in ("clear",):
                s.log.append(("drop", f, c, facts))
                return ("empty",), ("queued", "nonempty")
            if l in s.TAKES:
                s.log.append(("take", f, c, facts))
                return (), ()
        if c.name in ("core::mem::take", "core::mem::replace") and n in s.b.pend:
            s.log.append(("take", f, c, facts))
            return ("empty", "holding"), ()
        if (f.key, c.bb) in s.sends:
            return ("sent",), ("holding",)
        if SPAWN.search(c.name) and c.args:
            ks = s.spawned(c)
            rem = tuple(x for x in facts if x.startswith("armed:") and x[6:] in ks)
            return tuple("spawned:" + k for k in ks), rem
        if l == "fetch_add":
            s.log.append(("seq", f, c, facts))
            return ("seqd",), ()
        if (f.ty(c.dest[0]) or "") == s.b.payload and len(c.dest) == 1 and any(g.crate == LIB for g in s.p.targets(c.callee)):
            if not any(s.b.payload in s.p.ty(f.crate, f.locals[a["p"][0]]) for a in c.args if "p" in a and len(a["p"]) == 1):
                s.log.append(("snap", f, c, facts))
        return None

    def write(s, f, st, facts):
        n = s.place(st[1])
        if n is None:
            return None
        t = peel(f.rv_term(st[2]))
        if n in s.b.pend:
            if t[0] == "agg" and t[3] == "None":
                s.log.append(("drop", f, st[3], facts))
                return ("empty",), ("queued", "nonempty")
            s.log.append(("queue", f, st[3], facts))
            return ("queued", "nonempty"), ("empty",)
        if n in s.b.bools:
            o = st[2][1].get("v") if st[2][0] == "use" else None
            if isinstance(o, bool):
                return s.setf(f, st[3], n, o, facts)
            s.log.append(("odd", f, st[3], facts, n))
        return None

    def edge(s, f, t, o, facts):
        n = s.fld(t)
        if n in s.b.bools and isinstance(o, bool):
            return ((f"on:{n}", f"wason:{n}"), (f"off:{n}",)) if o else ((f"off:{n}", f"sawoff:{n}"), (f"on:{n}",))
        if t[0] == "call" and last(t[1]) in ("is_none", "is_some") and t[2] and s.client(t[2][0]) and isinstance(o, bool):
            return (("noclient",), ()) if o == (last(t[1]) == "is_none") else None
        if t[0] == "call" and t[2] and s.fld(t[2][0]) in s.b.pend and last(t[1]) in ("is_empty", "is_none", "is_some") and isinstance(o, bool):
            return (("empty",), ("nonempty",)) if o == (last(t[1]) != "is_some") else (("nonempty",), ("empty",))
        if t[0] == "disc" and o in ("None", "Some"):
            u = t[1]
            if s.fld(u) in s.b.pend:
                return (("empty",), ()) if o == "None" else ((), ("empty",))
            if s.client(u):
                return (("noclient",), ()) if o == "None" else ((), ())
        return None

    def client(s, t):
        return any(y[0] == "field" and len(y) > 3 and "lient" in dict(fields_of(s.p, str(y[3]))).get(y[2], "") for y in walk(t))

    def spawned(s, c):
        """flags the spawned task gives back on every way out"""
        out = set()
        for x in walk(peel(c.arg(0))):
            g = None
            if x[0] == "agg" and x[1] in ("closure", "coroutine", "coroutine_closure") and x[2] in s.p.fns:
                g = s.p.fns[x[2]]
            elif x[0] == "call":
                g = next((h.coro for h in call_targets(s.p, x) if h.is_async and h.coro is not None), None)
            if g is not None:
                out |= s.gives(g)
        return out

    def gives(s, g, d=0):
        if g.key in s.clears:
            return s.clears[g.key]
        s.clears[g.key] = set()
        r = set()
        if d < 5:
            for c in g.calls():
                for h in (s.p.targets(c.callee) if c.callee else []):
                    h = h.coro if h.is_async and h.coro is not None else h
                    if h.key in s.p.fns and h.crate == LIB and (h.kind == "coroutine" or "spawn" in h.name or s.b.adt in " ".join(h.ty(i + 1) or "" for i in range(h.nargs))):
                        r |= s.gives(h, d + 1)
            for b in g.bb:
                for st in b["s"]:
                    if st[0] == "=" and s.place(st[1]) in s.b.bools and st[2][0] == "use" and st[2][1].get("v") is False:
                        r.add(s.place(st[1]))
        s.clears[g.key] = r
        return r


def check(ctx):
    p = ctx.p
    ctx.rule("queued", "whatever is queued has a sender: one that is already running, or one started before the caller returns or suspends")
    ctx.rule("single", "a sender is started only by the caller that found none running and marked it running")
    ctx.rule("idle", "the sender marks itself gone only while holding the lock and having seen the queue empty, and never leaves otherwise")
    ctx.rule("sent", "everything taken from the queue is handed to the client")
    ctx.rule("newest", "a newer message for the same subject replaces the older one in the queue")
    ctx.rule("order", "status messages are numbered and queued while the queue is locked")
    ctx.rule("only", "the client is given such messages by the sender alone")
    bs = boxes(p)
    ctx.need(len({b.payload for b, _ in bs}) >= 2, "no outgoing queue found")
    covered = set()
    for box, sends in bs:
        m = M(p, box, sends)
        # the queue proper is what something is taken from
        tak = {m.fld(c.arg(0)) for f in lib(p) if f.crate == LIB for c in f.calls() if c.callee is not None and c.args
               and last(c.name) in ("take", "pop_first", "pop_front", "pop", "pop_last", "remove", "replace")} & set(box.pend)
        ctx.need(tak, f"{box.adt}: nothing takes from the queue")
        box.pend = sorted(tak)
        snd = senders(m, box)
        if not snd:
            at = [f for f in lib(p) if f.crate == LIB and any(m.place(st[1]) in box.bools for b in f.bb for st in b["s"] if st[0] == "=")]
            ctx.need(at, f"{box.adt}: no flag tells whether a sender is running")
            ctx.bad("idle", f"{box.adt}:never", "a sender that leaves never marks itself gone: nothing is ever sent again", f"{at[0].file}:{at[0].line}", [])
            continue
        touch = [f for f in lib(p) if f.crate == LIB and reach(p, m, f)]
        # the flag that says a sender is running
        cl = p.callers()
        roots = [f for f in touch if not any(box.adt in (f.ty(i + 1) or "") for i in range(f.nargs)) and not (f.is_async and f.coro is not None)
                 and not (m.inline(None, None, f) and callers_in(p, cl, f, touch))]
        ctx.need(roots, f"{box.adt}: no operations found")
        ex = Explorer(p, m)
        nq = 0
        status = "Diagnostic" not in box.payload
        for f in roots:
            m.log = []
            nm = base_fn(f.name)
            try:
                ends = ex.run(f)
            except TooBig:
                ctx.bad("queued", f"{nm}:size", "too many paths to decide", f"{f.file}:{f.line}", [])
                continue
            qs = [e for e in m.log if e[0] in ("queue", "keepold")]
            tk = [e for e in m.log if e[0] == "take"]
            loc = f"{f.file}:{f.line}"
            if qs:
                nq += 1
                bad = [e for e in ends if e.kind == "ret" and "queued" in e.facts and not any(x in (f"wason:{n}", f"spawned:{n}") for n in snd for x in e.facts)]
                put(ctx, "queued", not bad, f"{nm}: queued work has a sender", f"{nm}:unsent", "a message can be queued while no sender is running and none is started: it is never delivered", loc)
                non = [e for e in ends if e.kind == "ret" and not ({"queued", "covered", "noclient"} & e.facts) and not any(
                    x.startswith("spawned:") or x.startswith(("waits:", "sawoff:")) and x.split(":")[1] not in snd for x in e.facts)]
                put(ctx, "queued", not non, f"{nm}: every message is queued", f"{nm}:skipped", "a message can be dropped without being queued", loc)
                two = [e for e in ends if e.kind == "ret" and any(x.startswith("spawned:") and x[8:] in senders(m, box) and not wanted(e.facts, x[8:]) for x in e.facts)]
                put(ctx, "single", not two, f"{nm}: starts a sender only when none runs", f"{nm}:two", "a second sender can be started beside a running one: messages overtake each other", loc)
                old = [e for e in qs if e[0] == "keepold"]
                put(ctx, "newest", not old, f"{nm}: the newest message replaces", f"{nm}:newest", "an older queued message is kept instead of the newer one", old[0][2].loc() if old else loc)
                lost = [e for e in m.log if e[0] == "drop" and "queued" in e[3]]
                put(ctx, "queued", not lost, f"{nm}: nothing queued is dropped", f"{nm}:lost", "a queued message is dropped", loc)
                if status:
                    un = [e for e in qs if "seqd" not in e[3] or "locked" not in e[3]]
                    put(ctx, "order", not un, f"{nm}: numbered under the lock", f"{nm}:order", "a status message is numbered outside the lock it is queued under: a newer number can be queued first and replaced by an older one", loc)
            sn = [e for e in m.log if e[0] == "snap"]
            if sn and status and (qs or any(e[0] == "seq" for e in m.log)):
                un = [e for e in sn if "locked" not in e[3]]
                put(ctx, "order", not un, f"{nm}: captured under the lock", f"{nm}:captured",
                    "a status is captured before the lock under which it is numbered: an older state can get a newer number", un[0][2].loc() if un else loc)
            for n in sorted({e[4] for e in m.log if e[0] == "clear"} - set(snd)):
                if not any(f"mine:{n}" in e.facts or f"blindset:{n}" in e.facts for e in ends):
                    bad = [e for e in ends if e.kind == "ret" and not {f"idle:{n}", f"sawoff:{n}"} & e.facts]
                    put(ctx, "idle", not bad, f"{nm}: the delayed update is always taken over", f"{nm}:{n}",
                        "a delayed update can be left marked as on its way: later ones are held back for good", loc)
            arm = [e for e in ends if e.kind in ("ret", "yield") and any(x.startswith("armed:") for x in e.facts)]
            if qs or arm or any(x.startswith("on:") for e in ends for x in e.facts):
                put(ctx, "queued", not arm, f"{nm}: a sender marked as running is started", f"{nm}:armed",
                    "a sender is marked as running but none is started (or only after a suspension): nothing is ever sent again", loc)
            cl = [e for e in m.log if e[0] == "clear" and e[4] in senders(m, box)]
            if cl:
                bad = [e for e in cl if "empty" not in e[3]]
                put(ctx, "idle", not bad, f"{nm}: gone only with an empty queue", f"{nm}:idle", "the sender is marked gone although the queue may not be empty: what is in it stays unsent", loc)
            if tk:
                bad = [e for e in ends if e.kind == "ret" and not any(f"idle:{n}" in e.facts for n in snd)]
                put(ctx, "idle", not bad, f"{nm}: leaves only after marking itself gone", f"{nm}:leave", "the sender can leave while it is still marked as running: nothing is ever sent again", loc)
                un = [e for e in ends if e.kind == "ret" and "holding" in e.facts and "noclient" not in e.facts] + [e for e in tk if "holding" in e[3] and "noclient" not in e[3]]
                put(ctx, "sent", not un, f"{nm}: what is taken is sent", f"{nm}:sent", "a message taken from the queue can be dropped instead of sent", loc)
                covered |= {(g.key, c.bb) for g, c in sends if g.key == f.key}
            elif any(e[0] == "seq" for e in m.log) and status:
                un = [e for e in m.log if e[0] == "seq" and "locked" not in e[3]]
                put(ctx, "order", not un, f"{nm}: numbered under the lock", f"{nm}:order", "a status message is numbered outside the lock that orders the messages", loc)
        ctx.need(nq >= 1, f"{box.adt}: nothing queues")
        for g, c in sends:
            put(ctx, "only", (g.key, c.bb) in covered, f"{base_fn(g.name)}: sent by the queue's sender", f"{base_fn(g.name)}:direct",
                "a message is sent to the client past the queue: it can overtake or be overtaken by a queued one", c.loc())


def senders(m, box):
    """flags cleared by a task that takes from the queue"""
    if not hasattr(m, "_snd"):
        m._snd = set()
        for f in lib(m.p):
            if f.crate != LIB or not any(box.adt in (f.ty(i + 1) or "") for i in range(f.nargs)) and f.kind != "coroutine":
                continue
            takes = any(c.callee is not None and c.args and last(c.name) in ("take", "pop_first", "pop_front", "pop", "pop_last", "remove") and m.fld(c.arg(0)) in box.pend for c in f.calls())
            if takes:
                m._snd |= {m.place(st[1]) for b in f.bb for st in b["s"] if st[0] == "=" and m.place(st[1]) in box.bools and st[2][0] == "use" and st[2][1].get("v") is False}
                # helpers that clear it
                for c in f.calls():
                    for h in (m.p.targets(c.callee) if c.callee else []):
                        if m.inline(f, c, h):
                            m._snd |= {m.place(st[1]) for b in h.bb for st in b["s"] if st[0] == "=" and m.place(st[1]) in box.bools and st[2][0] == "use" and st[2][1].get("v") is False}
    return m._snd


def callers_in(p, cl, f, touch):
    """every use of f is a call from a function that expands it"""
    ks = {t.key for t in touch}
    us = [(k, g) for k, g, _ in cl.get(f.key, []) if g.crate == LIB]
    return bool(us) and all(k == "call" and g.key in ks for k, g in us)


def wanted(facts, flag):
    return f"mine:{flag}" in facts


def reach(p, m, f, seen=None):
    """touches the queue's state, directly or through helpers that are expanded"""
    seen = seen if seen is not None else set()
    if f.key in seen:
        return False
    seen.add(f.key)
    for b in f.bb:
        for st in b["s"]:
            if st[0] == "=" and m.place(st[1]):
                return True
    for c in f.calls():
        if c.callee is None:
            continue
        if last(c.name) in ("lock", "try_lock") and "utex" in c.name and m.b.adt in m.gens(c):
            return True
        if c.args and m.fld(c.arg(0)):
            return True
        if last(c.name) == "fetch_add" and (f.key, c.bb) in m.seqs():
            return True
        for g in p.targets(c.callee):
            if g.key in p.fns and m.inline(f, c, g) and reach(p, m, g, seen):
                return True
    return False
