"""Open-document authority: the latest text an editor sent for a document wins over older text, disk and background work."""
import re
from core import base_fn
from flow import Spec, Flow, FULL, last
from guard import guarded, guarded_at, roots_of
from ir import peel, walk, show
from vals import arg_terms, closure_arg, mentions, origins, ret_terms, call_targets

DOCS = "docs"
SYNC = re.compile(r"^lsp_types::(\w+::)*Did(Open|Change|Save|Close)TextDocumentParams$")
GUARD = re.compile(r"^tokio::sync::mutex::(Owned)?MutexGuard<('_, )?\(\)>$")
ENGINE = "ruby_analysis::engine::state::AnalysisEngine"
SNAP = "SourceFileSnapshot"
FSREAD = re.compile(r"^(std::fs::(read|read_to_string)|tokio::fs::(read|read_to_string|read_to_string::\w+)|tokio::fs::\w+::(read|read_to_string))$")


def put(ctx, rid, ok, good, key, bad, loc, trace=None):
    ctx.ok(rid, good, loc) if ok else ctx.bad(rid, key, bad, loc, trace or [])


def is_docs(t):
    """the map of open documents"""
    return any(x[0] == "field" and x[2] == DOCS and "RubyLanguageServer" in str(x[3:]) for x in walk(t))


def from_docs(p, t):
    return mentions(p, t, lambda x: x[0] == "field" and x[2] == DOCS and "RubyLanguageServer" in str(x[3:]), 3)


def is_snap(p, t):
    t = peel(t)
    return mentions(p, t, lambda x: x[0] in ("arg", "upvar", "var") and SNAP in tyof(p, x) or x[0] == "field" and SNAP in str(x), 3)


def tyof(p, t):
    try:
        return p.fns[t[1]].ty(t[2]) if t[0] in ("arg", "var") else ""
    except Exception:
        return ""


class S(Spec):
    atoms = ["lock", "closed", "snap", "same", "facts", "verseq", "current", "nofile", "dead", "okopen"]
    text = {"lock": "the document's semantic lock being held", "closed": "a check that the document is not open in the editor",
            "snap": "a source snapshot having been captured before", "same": "the content having been compared with the indexed content",
            "facts": "the facts of this text having been stored", "verseq": "a check that this version is already indexed",
            "current": "a check that the source snapshot is still current", "nofile": "a check that the file is unknown to the index", "dead": "a case no caller ever selects",
            "okopen": "a check that the text read for an open document is still the registered one"}

    def __init__(s, p):
        s.p = p

    def prefilter(s, f):
        return f.crate in ("ruby_fast_lsp.lib", "ruby_analysis.lib")

    def stmt(s, fn, st):
        # a guard local becomes live
        d = st[1]
        if len(d) == 1 and GUARD.match(fn.ty(d[0]) or ""):
            return (("lock",), ())
        return None

    def dropped(s, fn, place):
        if len(place) == 1 and GUARD.match(fn.ty(place[0]) or "") and not moved_on(fn, place[0]):
            return ((), ("lock",))
        return None

    def kill(s, c):
        if c.name == "core::mem::drop" and c.args and "p" in c.args[0]:
            pl = c.args[0]["p"]
            if len(pl) == 1 and GUARD.match(c.fn.ty(pl[0]) or ""):
                return ("lock",)
        return ()

    def event(s, c):
        r = []
        n = last(c.name)
        if c.name.startswith(ENGINE) and "replace_facts" in n:
            r.append("facts")
        if any(SNAP in (g.ty(0) or "") and "register" not in n for g in s.p.targets(c.callee)):
            r.append("snap")
        return r

    def cond(s, fn, t, o):
        r = []
        t = peel(t)
        if t[0] == "arg" and o == "None":
            ts = arg_terms(s.p, t[1], t[2])
            if ts and all(peel(x[2])[0] == "agg" and peel(x[2])[3] == "Some" for x in ts):
                r.append("dead")
        if t[0] == "call":
            l = last(t[1])
            if l == "contains_key" and o is False and from_docs(s.p, t[2][0]):
                r.append("closed")
            if l == "get" and t[1].startswith("std::collections::hash::map") and o == "None" and from_docs(s.p, t[2][0]):
                r.append("closed")
            if o == "None" and any("RubyDocument" in (g.ty(0) or "") and "Option" in (g.ty(0) or "") for g in call_targets(s.p, t)):
                r.append("closed")
            if o == "None" and any("SourceFileId" in (g.ty(0) or "") and "Option" in (g.ty(0) or "") for g in call_targets(s.p, t)):
                r += ["nofile", "okopen"]
        if o is False and open_flag(s.p, t):
            r.append("okopen")
        return r

    def cmp(s, fn, op, a, b):
        r = []
        if op == "Eq":
            for x, y in ((a, b), (b, a)):
                x1, y1 = peel(x), peel(y)
                if any(z[0] == "field" and z[2] == "indexed_version" for z in walk(x1)) and any(
                        z[0] == "field" and z[2] == "version" for z in walk(y1)):
                    r.append("verseq")
                if any(z[0] == "field" and z[2] == "content_hash" for z in walk(x1)) and any(
                        z[0] == "call" and "hash" in last(z[1]) for z in walk(y1)):
                    r += ["same", "okopen"]
                if snapish(s.p, x1) and (snap_param(s.p, y1)):
                    r.append("current")
        return r


def open_flag(p, t):
    """the flag that comes with a source read: the text is that of an open document"""
    t = peel(t)
    if t[0] == "field" and t[2] == "open_document":
        return True
    return t[0] in ("field", "tup", "proj") and any(x[0] == "call" and any(re.search(r"\(alloc::string::String, bool\)", g.ty(0) or "") for g in call_targets(p, x)) for x in walk(t))


def moved_on(fn, l):
    """the guard in temporary `l` is handed to another local as soon as it is created"""
    for b in fn.bb:
        for st in b["s"]:
            if st[0] == "=" and len(st[1]) == 1 and st[1][0] != l and st[2][0] == "use" and st[2][1].get("p") == [l] and GUARD.match(fn.ty(st[1][0]) or ""):
                return True
    return False


def snapish(p, t):
    """the file's revision or snapshot as the engine has it now"""
    for x in walk(t):
        if x[0] == "arg":
            u = closure_arg(p, x)
            if u is not None and snapish(p, u):
                return True
        if x[0] == "call":
            if any(SNAP in (g.ty(0) or "") for g in call_targets(p, x)):
                return True
            c = None
            for a in x[2]:
                a = peel(a)
                if a[0] in ("agg",) and a[1] == "closure":
                    c = p.fns.get(a[2])
            if c is not None and any(y[0] == "field" and y[2] == "revision" for r in ret_terms(p, c) for y in walk(r)):
                return True
        if x[0] == "field" and x[2] == "revision" and "SourceFile" in str(x[3:]) and SNAP not in str(x[3:]):
            return True
    return False


def snap_param(p, t):
    for x in walk(t):
        if x[0] == "arg" and SNAP in tyof(p, x):
            return True
        if x[0] == "upvar" and mentions(p, x, lambda y: y[0] == "arg" and SNAP in tyof(p, y), 2):
            return True
    return False


def prim_sinks(ctx):
    """primitive mutations of what the server knows about a document: {call}"""
    p = ctx.p
    out = []
    for f in p.fns.values():
        if f.crate != "ruby_fast_lsp.lib":
            continue
        for c in f.calls():
            l = last(c.name)
            if l in ("insert", "remove", "clear", "retain", "entry") and c.args and from_docs(p, c.arg(0)) and "hash::map" in c.name:
                out.append(c)
            elif c.name.startswith("ruby_analysis::") and l == "update" and any("RubyDocument" in g.ty(1) for g in p.targets(c.callee) if g.nargs):
                out.append(c)
            elif c.name.startswith(ENGINE) and any(g.nargs and g.ty(1).startswith("&") and "mut" in g.ty(1)[:12] for g in p.targets(c.callee)):
                out.append(c)
            elif l == "publish_diagnostics" and any(g.crate == "ruby_fast_lsp.lib" for g in p.targets(c.callee)):
                out.append(c)
    return out


def body(f):
    return f.coro if f.is_async and f.coro is not None else f


def check(ctx):
    p = ctx.p
    ctx.rule("serial", "everything a text-sync notification changes or awaits happens while that document's lock is held, from the first change to the last")
    ctx.rule("table", "one document always maps to one lock while anybody holds or waits for it")
    ctx.rule("text", "the text and version stored are those of the last content change of the notification")
    ctx.rule("document", "storing new text refreshes everything derived from it")
    ctx.rule("indexed", "a version is marked as indexed, and indexing is skipped, only if the stored facts are those of that text")
    ctx.rule("authority", "disk is read for a project file only if the document is not open")
    ctx.rule("fence", "facts collected in the background are stored only if the source is still the one they were read from")
    ctx.rule("watch", "a watched-file event never replaces what an open document provides")
    fl = Flow(p, S(p))
    sinks = prim_sinks(ctx)
    ctx.need(len(sinks) >= 8, "document state mutations not found")
    # ---- serial
    prim = {(c.fn.key, c.bb) for c in sinks}
    reach = set()
    work = [c.fn.key for c in sinks]
    callers = p.callers()
    while work:
        k = work.pop()
        if k in reach:
            continue
        reach.add(k)
        for kind, g, site in callers.get(k, ()):
            work.append(g.key)
    bodies = {}
    for f in p.fns.values():
        if f.crate == "ruby_fast_lsp.lib" and any(SYNC.match(f.ty(i) or "") for i in range(1, f.nargs + 1)) and f.kind == "fn":
            m = next(SYNC.match(f.ty(i)).group(2) for i in range(1, f.nargs + 1) if SYNC.match(f.ty(i) or ""))
            bodies[f.key] = (f, m)
    ctx.need({"Open", "Change", "Save", "Close"} <= {m for f, m in bodies.values()}, "text synchronisation handlers not found")
    bkeys = set(bodies) | {body(f).key for f, m in bodies.values()}
    units = {}
    for f, m in bodies.values():
        units[body(f).key] = (body(f), m)
        for c in ctx.p.fns.values():
            if c.parent == f.key and c.kind == "coroutine" and c.key not in units:
                units[c.key] = (c, m)
    fl.entries(set(units), roots_of(p) & set(p.fns))
    n = {}
    for f, m in units.values():
        ins = fl.ins.get(f.key)
        if ins is None:
            continue
        for c in f.calls():
            ts = p.targets(c.callee)
            if any(g.key in bkeys for g in ts):
                continue
            hit = (f.key, c.bb) in prim or any(g.key in reach or body(g).key in reach for g in ts)
            aw = c.name.endswith("IntoFuture::into_future") and not lock_future(p, f, c)
            if aw and any(x[0] == "call" and any(g.key in bkeys for g in call_targets(p, x)) for x in walk(c.arg(0))):
                continue
            if not hit and not aw:
                continue
            mk = fl.at_term(f, ins, c.bb)
            if mk == FULL:
                continue
            n[m] = n.get(m, 0) + 1
            what = "await" if aw else last(c.name)
            put(ctx, "serial", bool(mk & fl.bit["lock"]), f"{base_fn(f.name)}: {what} under the document lock", f"{base_fn(f.name)}:{what}",
                f"the {m.lower()} notification reaches `{what}` without holding the document's lock", c.loc())
    ctx.need(all(n.get(k, 0) >= 2 for k in ("Open", "Change", "Save", "Close")), "text synchronisation work not found")
    # which lock
    nl = 0
    for f, m in units.values():
        for c in f.calls():
            if re.match(r"^tokio::sync::mutex::Mutex(::<.*>)?::lock(_owned)?$", c.name) and "()" in str(c.callee.self_ty or c.arg_ty(0) if hasattr(c, "arg_ty") else "()"):
                nl += 1
                ok = mentions(p, c.arg(0), lambda x: x[0] == "call" and any("Mutex<()>" in (g.ty(0) or "") for g in call_targets(p, x)) and
                              any(y[0] == "field" and y[2] == "uri" for a in x[2] for y in walk(p.resolve_up(a))), 3)
                put(ctx, "table", ok, f"{base_fn(f.name)}: lock of the notification's own document", f"{base_fn(f.name)}:which",
                    "the lock taken is not the one of the document the notification names", c.loc())
    table(ctx, fl)
    text(ctx, units)
    document(ctx, fl)
    indexed(ctx, fl)
    authority(ctx, fl)
    fence(ctx, fl)
    watch(ctx, fl)


def lock_future(p, f, c):
    """the future is (or wraps) the acquisition of a document lock"""
    for x in walk(c.arg(0)):
        if x[0] == "call":
            if re.match(r"^tokio::sync::mutex::Mutex(::<.*>)?::lock(_owned)?$", x[1]):
                return True
            for g in call_targets(p, x):
                h = body(g)
                if GUARD.match(g.ty(0) or "") or any(GUARD.match(h.ty(i) or "") for i in (0,)) or "MutexGuard<()>" in (h.ty(0) or ""):
                    return True
    return False


def table(ctx, fl):
    p = ctx.p
    fs = [f for f in p.fns.values() if f.crate == "ruby_fast_lsp.lib" and re.match(r"^alloc::(\w+::)+Arc<tokio::sync::mutex::Mutex<\(\)>", f.ty(0) or "")
          and f.kind == "fn" and any("Url" in (f.ty(i) or "") for i in range(1, f.nargs + 1))]
    ctx.need(fs, "document lock table not found")
    for f in fs:
        loc = f"{f.file}:{f.line}"
        url = [i for i in range(1, f.nargs + 1) if "Url" in f.ty(i)]
        ups = [c for c in f.calls() if last(c.name) == "upgrade"] + [c for c in f.calls() if any(
            x[0] == "fnitem" and "upgrade" in str(x[1:]) for a in range(len(c.args)) for x in walk(c.arg(a)))]
        clos = [g for g in p.fns.values() if g.parent == f.key and any(last(c.name) == "upgrade" for c in g.calls())]
        ins = [c for c in f.calls() if last(c.name) in ("insert", "or_insert", "or_insert_with") and "hash" in c.name]
        put(ctx, "table", bool(ups or clos), f"{base_fn(f.name)}: an existing lock is reused", f"{base_fn(f.name)}:reuse",
            "a lock that is in use for the document is not handed out again", loc)
        put(ctx, "table", bool(ins), f"{base_fn(f.name)}: a new lock is published in the table", f"{base_fn(f.name)}:publish",
            "a new document lock is not recorded, so the next notification gets another one", loc)
        for c in ins:
            if last(c.name) == "insert":
                k = mentions(p, c.arg(1), lambda x: x[0] == "arg" and x[1] == f.key and x[2] in url, 2)
                whole = not any(x[0] == "call" and any(x2[0] == "arg" and x2[2] in url for x2 in walk(x)) and last(x[1]) not in ("clone", "to_owned", "to_string", "into", "deref", "as_ref", "borrow")
                                for x in walk(c.arg(1)))
                put(ctx, "table", k and whole, f"{base_fn(f.name)}: keyed by the document's own URI", f"{base_fn(f.name)}:key",
                    "document locks are not keyed by the document's URI", c.loc())
                # the lock recorded is the lock returned
                rets = ret_terms(p, f)
                news = [x for x in walk(c.arg(2)) if x[0] == "call" and "::Arc" in x[1] and last(x[1]) == "new"]
                same = any(x in list(walk(r)) for r in rets for x in news)
                put(ctx, "table", same, f"{base_fn(f.name)}: the recorded lock is the one returned", f"{base_fn(f.name)}:same",
                    "the lock recorded in the table is not the lock returned", c.loc())
        # removal only when unused
        fld = {x[2] for c in ins for x in walk(c.arg(0)) if x[0] == "field" and "RubyLanguageServer" in str(x[3:])}
        for g in p.fns.values():
            if g.crate != "ruby_fast_lsp.lib":
                continue
            for c in g.calls():
                l = last(c.name)
                if l in ("retain", "remove", "clear", "drain", "retain_mut") and c.args and any(
                        x[0] == "field" and x[2] in fld and "RubyLanguageServer" in str(x[3:]) for x in walk(c.arg(0))):
                    ok = False
                    if l == "retain":
                        h = fl.closure_of(c.arg(1))
                        ok = h is not None and all(alive(r) for r in ret_terms(p, h))
                    put(ctx, "table", ok, f"{base_fn(g.name)}: only unused locks are dropped", f"{base_fn(g.name)}:{l}",
                        "a document lock that is still in use can be dropped from the table", c.loc())


def alive(t):
    """strong_count() > 0 / upgrade().is_some()"""
    t = peel(t)
    if t[0] == "bin" and t[1] in ("Gt", "Ne", "Ge"):
        a, b = peel(t[2]), peel(t[3])
        return a[0] == "call" and last(a[1]) == "strong_count" and b[0] == "const" and (b[1] == 0 and t[1] in ("Gt", "Ne") or b[1] == 1 and t[1] == "Ge")
    if t[0] == "bin" and t[1] in ("Lt", "Le"):
        a, b = peel(t[3]), peel(t[2])
        return a[0] == "call" and last(a[1]) == "strong_count" and b[0] == "const" and (b[1] == 0 and t[1] == "Lt" or b[1] == 1 and t[1] == "Le")
    return t[0] == "call" and last(t[1]) == "is_some" and any(x[0] == "call" and last(x[1]) == "upgrade" for x in walk(t))


LASTS = ("last", "pop", "next_back", "last_mut", "split_last", "rfind", "rev")


def text(ctx, units):
    p = ctx.p
    n = 0
    for f, m in units.values():
        if m not in ("Open", "Change"):
            continue
        for c in f.calls():
            tg = p.targets(c.callee)
            upd = c.name.startswith("ruby_analysis::") and any("RubyDocument" in (g.ty(1) if g.nargs else "") + (g.ty(0) or "") for g in tg) and last(c.name) in (
                "update", "new", "with_analysis_file_id")
            reg = any("SourceFileId" in (g.ty(0) or "") and any(re.search(r"^(alloc::string::String|impl .*String.*|T|S|&str)$", g.ty(i) or "") for i in range(1, g.nargs + 1)) for g in tg)
            if not upd and not reg:
                continue
            for i in range(len(c.args)):
                a = c.arg(i)
                oty = " ".join(g.ty(i + 1) for g in tg if g.nargs > i)
                if re.search(r"String|&str|impl ", oty):
                    n += 1
                    if m == "Change":
                        ok = newest(p, a)
                        bad = "the stored text is not that of the last content change"
                    else:
                        ok = mentions(p, a, lambda x: x[0] == "field" and x[2] == "text", 3)
                        bad = "the stored text is not the opened text"
                    put(ctx, "text", ok, f"{base_fn(f.name)}: {last(c.name)} gets the newest text", f"{base_fn(f.name)}:{last(c.name)}:text", bad, c.loc())
                elif re.match(r"^i32$", oty):
                    n += 1
                    ok = mentions(p, a, lambda x: x[0] == "field" and x[2] == "version", 3)
                    put(ctx, "text", ok, f"{base_fn(f.name)}: {last(c.name)} gets the notification's version", f"{base_fn(f.name)}:{last(c.name)}:version",
                        "the stored version is not the notification's", c.loc())
    ctx.need(n >= 8, "document text storage not found")


def newest(p, t):
    """the value is the text of the last element of content_changes"""
    ok = False
    for x in walk(p.resolve_up(t)):
        if x[0] == "call" and any(y[0] == "field" and y[2] == "content_changes" for a in x[2] for y in walk(a)):
            if last(x[1]) in LASTS:
                ok = True
            elif last(x[1]) in ("first", "get", "index", "next", "nth", "iter", "into_iter", "swap_remove", "remove", "first_mut", "split_first", "find", "min_by_key"):
                if last(x[1]) in ("iter", "into_iter"):
                    continue
                if not any(y[0] == "call" and last(y[1]) == "rev" for y in walk(x)):
                    return False
    if not ok:
        for o in origins(p, t):
            if o != t and any(x[0] == "call" and last(x[1]) in LASTS and any(y[0] == "field" and y[2] == "content_changes" for y in walk(x)) for x in walk(o)):
                ok = True
    return ok


def document(ctx, fl):
    """functions that overwrite the text of a document"""
    p = ctx.p
    n = 0
    ms = [f for f in p.fns.values() if f.crate in ("ruby_analysis.lib", "ruby_fast_lsp.lib")]

    def direct(f):
        w = {}
        for bi, b in enumerate(f.bb):
            if b.get("c"):
                continue
            for st in b["s"]:
                if st[0] == "=" and len(st[1]) > 1 and isinstance(st[1][-1], list) and st[1][-1][0] == "f" and "RubyDocument" in str(st[1][-1][2:]):
                    w.setdefault(st[1][-1][1], set()).add(bi)
            t = b["t"]
            if t[0] == "call" and len(t[3]) > 1 and isinstance(t[3][-1], list) and t[3][-1][0] == "f" and "RubyDocument" in str(t[3][-1][2:]):
                w.setdefault(t[3][-1][1], set()).add(bi)
        for c in f.calls():
            if c.args and last(c.name) != "clone" and any(x[0] == "field" and x[2] == "source" and "RubyDocument" in str(x[3:]) for x in walk(c.arg(0))):
                w.setdefault("source", set()).add(c.bb)
        return w
    isdoc = lambda g: g.nargs and re.match(r"^&('\w+ )?mut (\w+::)*RubyDocument$", g.ty(1) or "") and g.crate == "ruby_analysis.lib"
    memo = {}

    def writes(f, stack=()):
        """field -> blocks, counting helpers that write it on every path"""
        if f.key in memo:
            return memo[f.key]
        w = direct(f)
        for c in f.calls():
            for g in p.targets(c.callee):
                if isdoc(g) and g.key not in stack and g.key != f.key:
                    for fld, bl in writes(g, stack + (f.key,)).items():
                        if every_path(g, bl):
                            w.setdefault(fld, set()).add(c.bb)
        memo[f.key] = w
        return w
    callers = p.callers()
    for f in ms:
        if "content" not in direct(f) and not (isdoc(f) and "content" in writes(f)):
            continue
        if isdoc(f) and callers.get(f.key) and all(k == "call" and isdoc(g) for k, g, _ in callers[f.key]):
            continue        # a step of a larger update, judged there
        w = writes(f)
        n += 1
        loc = f"{f.file}:{f.line}"
        for fld, bad in (("version", "a document gets new text while its version may keep describing the old one"),
                         ("embedded", "a document gets new text while its embedded Ruby may keep describing the old one"),
                         ("source", "a document gets new text while positions are still computed from the old one"),
                         ("content", "a document update can return without storing the new text")):
            put(ctx, "document", every_path(f, w.get(fld, set())), f"{base_fn(f.name)}: new text updates `{fld}`", f"{base_fn(f.name)}:{fld}", bad, loc)
    ctx.need(n >= 1, "document update not found")


def every_path(f, blocks):
    """every path from entry to return goes through one of the blocks"""
    if not blocks:
        return False
    seen, work = set(), [0]
    while work:
        b = work.pop()
        if b in seen or b in blocks:
            continue
        seen.add(b)
        if f.bb[b]["t"][0] == "ret":
            return False
        work += f.succ(b)
    return True


def indexed(ctx, fl):
    p = ctx.p
    sites = []
    for f in p.fns.values():
        if f.crate != "ruby_fast_lsp.lib":
            continue
        for bi, b in enumerate(f.bb):
            if b.get("c"):
                continue
            for st in b["s"]:
                if st[0] == "=" and len(st[1]) > 1 and isinstance(st[1][-1], list) and st[1][-1][0] == "f" and st[1][-1][1] == "indexed_version":
                    v = f.rv_term(st[2])
                    if any(x[0] == "agg" and x[3] == "None" for x in walk(v) if x[0] == "agg" and x[1] == "adt") or show(v) == "None":
                        continue
                    ok = mentions(p, v, lambda x: x[0] == "field" and x[2] == "version", 3)
                    put(ctx, "indexed", ok, f"{base_fn(f.name)}: the marked version is the document's own", f"{base_fn(f.name)}:mark",
                        "the version marked as indexed is not the document's version", f"{f.file}:{st[3]}")
                    sites.append((f, bi, st[3], "mark as indexed"))
    ctx.need(len(sites) >= 2, "indexed-version marks not found")
    fl.entries({s[0].key for s in sites}, roots_of(p) & set(p.fns))
    for f, bi, line, label in sites:
        m = fl.at_term(f, fl.ins[f.key], bi)
        ok = m == FULL or bool(m & (fl.bit["facts"] | fl.bit["same"]))
        put(ctx, "indexed", ok, f"{base_fn(f.name)}: marked only after the facts of this text were stored or found equal", f"{base_fn(f.name)}:mark-guard",
            "a document version is marked as indexed although its facts were not stored", f"{f.file}:{line}")
    # the skip
    k = 0
    for f in p.fns.values():
        if f.crate != "ruby_fast_lsp.lib" or f.kind != "fn" or "ProcessResult" not in (f.ty(0) or "") or f.is_async:
            continue
        if not any(p.fns[x].crate and False for x in ()):
            pass
        direct = [c for c in f.calls() if any("replace_facts" in last(d.name) for g in p.targets(c.callee) for d in g.calls())]
        if not direct:
            continue
        k += 1
        ins = fl.analyze(f, 0)
        il = fl.impl_local[f.key].get(0)
        ok_m = FULL
        if il is not None:
            ok_m = il[1].get("Ok", il[0])
        ok = ok_m == FULL or bool(ok_m & (fl.bit["facts"])) or per_ret(fl, f, ins)
        put(ctx, "indexed", ok, f"{base_fn(f.name)}: succeeds only after storing facts or when this version is already indexed", f"{base_fn(f.name)}:skip",
            "processing a document can report success without storing its facts, for a version that was not indexed", f"{f.file}:{f.line}")
    ctx.need(k >= 1, "document processing not found")
    # did_open reuse: content comparison
    for f in p.fns.values():
        if f.name.endswith("AnalysisEngine::file_content_matches"):
            m = fl.ret_mask(f, True)
            put(ctx, "indexed", m == FULL or bool(m & fl.bit["same"]), "indexed text is compared by its hash", "file_content_matches",
                "texts are reported equal without comparing them", f"{f.file}:{f.line}")


def per_ret(fl, f, ins):
    """every definition of an Ok result happens with the facts stored or the version already indexed"""
    need = fl.bit["facts"] | fl.bit["verseq"]
    for bi, k, pl, ln in f.defs().get(0, []):
        m = fl.at_term(f, ins, bi)
        if m == FULL:
            continue
        t = f.rv_term(pl) if k == "rv" else f.call_term(pl, 0, bi)
        t = peel(t)
        if t[0] == "agg" and t[3] == "Err" or t[0] == "call" and last(t[1]) == "from_residual":
            continue
        if not m & need:
            return False
    return True


def authority(ctx, fl):
    p = ctx.p
    fs = []
    for f in p.fns.values():
        if f.crate != "ruby_fast_lsp.lib":
            continue
        cs = [c for c in f.calls() if FSREAD.match(c.name)]
        if not cs:
            continue
        docs = any(from_docs(p, c.arg(0)) for c in f.calls() if c.args and last(c.name) in ("get", "contains_key")) or any(
            "RubyDocument" in (g.ty(0) or "") for c in f.calls() for g in p.targets(c.callee))
        proj = re.search(r"IndexerProject", " ".join([f.name, f.ty(1) if f.nargs else ""])) and f.kind == "fn" and "String" in (f.ty(0) or "")
        if docs and proj:
            fs += cs
    ctx.need(fs, "project source reading not found")
    guarded(ctx, "authority", fl, fs, ["closed"], "reading a project file from disk")
    return fs


def fence(ctx, fl):
    p = ctx.p
    # (1) a function that is given a snapshot stores facts only if it is still current
    n = 0
    for f in p.fns.values():
        if f.crate not in ("ruby_fast_lsp.lib", "ruby_analysis.lib") or f.kind != "fn":
            continue
        if not any(SNAP in (f.ty(i) or "") for i in range(1, f.nargs + 1)):
            continue
        ins = None
        for c in f.calls():
            ts = p.targets(c.callee)
            cond = any(any(SNAP in (g.ty(i) or "") for i in range(1, g.nargs + 1)) for g in ts)
            if cond or not (c.name.startswith(ENGINE) and re.search(r"replace_facts|register_file", last(c.name)) or "replace_file_analysis" in last(c.name)):
                if cond and "ENGINE":
                    n += 1
                    ok = any(snap_param(p, c.arg(i)) for i in range(len(c.args)))
                    put(ctx, "fence", ok, f"{base_fn(f.name)}: passes its snapshot on", f"{base_fn(f.name)}:pass", "the snapshot handed on is not the one received", c.loc())
                continue
            ins = ins or fl.analyze(f, 0)
            m = fl.at_term(f, ins, c.bb)
            n += 1
            put(ctx, "fence", m == FULL or bool(m & fl.bit["current"]), f"{base_fn(f.name)}: {last(c.name)} only for the current snapshot", f"{base_fn(f.name)}:{last(c.name)}",
                f"`{last(c.name)}` stores background results without checking that the source is still the one they were read from", c.loc())
    ctx.need(n >= 3, "snapshot-conditional storage not found")
    # (2) registering a changed source always moves the revision
    for f in p.fns.values():
        if f.crate != "ruby_analysis.lib" or f.kind != "fn":
            continue
        for bi, b in enumerate(f.bb):
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and st[2][2].endswith("::SourceFile") and "revision" in st[2][4] and not f.name.endswith("::clone"):
                    d = dict(zip(st[2][4], [f.op_term(o) for o in st[2][5]]))
                    t = d["revision"]
                    bump = any(x[0] == "field" and "revision" in x[2] for x in walk(t)) and any(
                        last(c.name) in ("checked_add", "wrapping_add", "saturating_add") and any(x[0] == "field" and "revision" in x[2] for x in walk(c.arg(0))) for c in f.calls())
                    bump = bump or any(x[0] == "bin" and x[1].startswith("Add") for x in walk(t))
                    stored = any(s2[0] == "=" and len(s2[1]) > 1 and isinstance(s2[1][-1], list) and s2[1][-1][0] == "f" and "revision" in s2[1][-1][1] for b2 in f.bb for s2 in b2["s"]) or any(
                        b2["t"][0] == "call" and len(b2["t"][3]) > 1 and "revision" in str(b2["t"][3]) for b2 in f.bb)
                    put(ctx, "fence", bump and stored, f"{base_fn(f.name)}: a new registration gets a new revision", f"{base_fn(f.name)}:bump",
                        "a changed source can keep the revision of the previous text", f"{f.file}:{st[3]}")
                    skip_guard(ctx, fl, f, bi)
    # (3) snapshot before read
    rd = set()
    for f in p.fns.values():
        if f.crate == "ruby_fast_lsp.lib" and f.kind == "fn" and "IndexerProject" in f.name and "String" in (f.ty(0) or "") and any(
                FSREAD.match(c.name) for c in f.calls()) and any("RubyDocument" in (g.ty(0) or "") for c in f.calls() for g in p.targets(c.callee)) | any(
                    from_docs(p, c.arg(0)) for c in f.calls() if c.args):
            rd.add(f.key)
    ctx.need(rd, "authoritative project source reading not found")
    sites, todo, done = [], list(rd), set(rd)
    while todo:
        k = todo.pop()
        for f in p.fns.values():
            if f.crate != "ruby_fast_lsp.lib":
                continue
            cs = [c for c in f.calls() if any(g.key == k for g in p.targets(c.callee))]
            if not cs:
                continue
            if uses_snap(p, f):
                sites += cs
                continue
            top = f
            while top.parent in p.fns:
                top = p.fns[top.parent]
            fam = family(p, top)
            if top is f and "String" in (f.ty(0) or ""):
                # a helper that only reads: its callers are the readers
                if f.key not in done:
                    done.add(f.key)
                    todo.append(f.key)
            elif any(uses_snap(p, g) for g in fam):
                for c in cs:
                    ctx.bad("fence", f"{base_fn(f.name)}:read", "a project source is read for indexing without a source snapshot of its own", c.loc(), [])
            else:
                # no snapshot anywhere here: nothing can be stored into the live engine (rule below)
                ctx.ok("fence", f"{base_fn(f.name)}: source read for a private copy of the engine", cs[0].loc())
    ctx.need(len(sites) >= 1, "background project reads not found")
    for c in sites:
        ins = fl.analyze(c.fn, 0)
        m = fl.at_term(c.fn, ins, c.bb)
        put(ctx, "fence", m == FULL or bool(m & fl.bit["snap"]), f"{base_fn(c.fn.name)}: snapshot captured before the source is read", f"{base_fn(c.fn.name)}:order",
            "the source is read before its snapshot is captured: a document opened in between would be overwritten", c.loc())
    # (4) the project indexer stores project facts only conditionally
    store_rx = re.compile(r"replace_facts|replace_file_analysis")
    ip = [f for f in p.fns.values() if f.crate == "ruby_fast_lsp.lib" and "IndexerProject" in f.name]
    k = 0
    for f in ip:
        for c in f.calls():
            for g in p.targets(c.callee):
                if "IndexerProject" in g.name:
                    continue
                if not stores(p, g, store_rx):
                    continue
                facts = any("FileFacts" in (g.ty(i) or "") for i in range(1, g.nargs + 1))
                if not facts:
                    continue
                k += 1
                ok = any(SNAP in (g.ty(i) or "") for i in range(1, g.nargs + 1)) or scratch(p, f, c)
                if ok and fresh(p, f, c, g, done):
                    ctx.bad("fence", f"{base_fn(f.name)}:{last(c.name)}:fresh", f"`{last(c.name)}` is given a snapshot captured after the source was read, so superseded results are accepted", c.loc(), [])
                    continue
                if not ok:
                    m = fl.at_term(f, fl.analyze(f, 0), c.bb)
                    ok = m == FULL or bool(m & fl.bit["dead"])
                put(ctx, "fence", ok, f"{base_fn(f.name)}: {last(c.name)} is conditional on a snapshot", f"{base_fn(f.name)}:{last(c.name)}:cond",
                    f"background project facts are stored unconditionally by `{last(c.name)}`", c.loc())
    ctx.need(k >= 1, "background project fact storage not found")
    # (5) registering what was read: conditional on the snapshot, and for an open document on its text
    regs = []
    for f in ip:
        for c in f.calls():
            for g in p.targets(c.callee):
                if g.name.startswith(ENGINE) and "register" in last(g.name) and any(SNAP in (g.ty(i) or "") for i in range(1, g.nargs + 1)):
                    if fresh(p, f, c, g, done):
                        ctx.bad("fence", f"{base_fn(f.name)}:{last(c.name)}:fresh", "a source is registered under a snapshot captured after it was read", c.loc(), [])
                    elif scratch(p, f, c):
                        continue
                    else:
                        regs.append(c)
    ctx.need(regs, "background project source registration not found")
    for c in regs:
        m = fl.at_term(c.fn, fl.analyze(c.fn, 0), c.bb)
        put(ctx, "fence", m == FULL or bool(m & fl.bit["okopen"]), f"{base_fn(c.fn.name)}: text read for an open document is registered only if it is still current",
            f"{base_fn(c.fn.name)}:{last(c.name)}:open", "the text read for an open document can replace newer text the editor has sent since", c.loc())


def fresh(p, f, c, g, readers):
    """the snapshot argument is captured right here, in a function that does not read the source afterwards"""
    if any(h.key in readers for d in f.calls() for h in p.targets(d.callee)):
        return False
    for i in range(len(c.args)):
        if i + 1 <= g.nargs and SNAP in (g.ty(i + 1) or ""):
            for x in walk(c.arg(i)):
                if x[0] == "call" and x[1].startswith(ENGINE) and any(SNAP in (h.ty(0) or "") for h in call_targets(p, x)) and "register" not in last(x[1]):
                    return True
    return False


def family(p, f):
    out, work = [], [f]
    while work:
        g = work.pop()
        out.append(g)
        work += [p.fns[k] if isinstance(k, str) else k for k in g.children if not isinstance(k, str) or k in p.fns]
    return out


def scratch(p, f, c):
    """facts stored into a private copy of the engine, not the project's live one"""
    o = c.args[0].get("p") if c.args else None
    seen = set()
    while o and o[0] not in seen:
        seen.add(o[0])
        if f.ty(o[0]) == ENGINE and o[0] > f.nargs:
            return True
        ds = f.defs().get(o[0], [])
        if len(ds) != 1 or ds[0][1] != "rv":
            break
        rv = ds[0][2]
        o = rv[2] if rv[0] == "ref" and isinstance(rv[2], list) else rv[1].get("p") if rv[0] == "use" else None
    return not any(live(p, c.arg(i)) for i in range(len(c.args)))


def live(p, t, d=0):
    """the value may be the engine other threads see (not one wrapped in a lock created right here)"""
    if not isinstance(t, tuple):
        return False
    if t[0] == "call" and last(t[1]) == "new" and "RwLock" in t[1]:
        return False
    if t[0] == "call" and "analysis_engine" in t[1] or t[0] == "field" and t[2] == "analysis_engine" or t[0] == "arg" and "AnalysisEngine" in tyof(p, t):
        return True
    if t[0] in ("upvar",) and d < 4:
        u = p.resolve_up(t)
        return u != t and live(p, u, d + 1)
    return any(live(p, y, d) if isinstance(y, tuple) and y and isinstance(y[0], str) else isinstance(y, tuple) and any(live(p, z, d) for z in y) for y in t[1:])


def stores(p, g, rx, seen=None, d=0):
    seen = seen if seen is not None else set()
    if g.key in seen or d > 3:
        return False
    seen.add(g.key)
    if rx.search(last(g.name)):
        return True
    return any(rx.search(last(c.name)) or any(stores(p, h, rx, seen, d + 1) for h in p.targets(c.callee)) for c in g.calls())


def uses_snap(p, f):
    for i in range(len(f.lt) if hasattr(f, "lt") else 400):
        try:
            t = f.ty(i)
        except Exception:
            break
        if t and SNAP in t:
            return True
    return False


def skip_guard(ctx, fl, f, bi):
    """returning without the registration only when path, kind and content hash are all unchanged"""
    p = ctx.p
    need = {"content_hash", "kind"}
    clos = [f] + [g for g in p.fns.values() if g.parent == f.key]
    got = set()
    for g in clos:
        for b in g.bb:
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Eq", "Ne"):
                    for o in st[2][2:4]:
                        for x in walk(g.op_term(o)):
                            if x[0] == "field":
                                got.add(x[2])
        for c in g.calls():
            if last(c.name) in ("eq", "ne"):
                for i in range(len(c.args)):
                    for x in walk(c.arg(i)):
                        if x[0] == "field":
                            got.add(x[2])
    early = not every_path(f, {bi})
    put(ctx, "fence", not early or need <= got, f"{base_fn(f.name)}: an unchanged registration is recognised by content hash and kind", f"{base_fn(f.name)}:unchanged",
        "a changed source can be taken for unchanged, keeping the old revision", f"{f.file}:{f.line}")


def watch(ctx, fl):
    p = ctx.p
    fs = []
    for f in p.fns.values():
        if f.crate == "ruby_fast_lsp.lib" and f.kind == "fn" and any("DidChangeWatchedFilesParams" in (f.ty(i) or "") for i in range(1, f.nargs + 1)):
            fs.append(body(f))
    ctx.need(fs, "watched-file handler not found")
    sites = []
    for f in fs:
        for c in f.calls():
            ts = p.targets(c.callee)
            args = " ".join(g.ty(i) or "" for g in ts for i in range(1, g.nargs + 1))
            if ts and "Url" in args and any(stores(p, g, re.compile(r"^(replace_facts|replace_file_analysis)")) for g in ts) and any(
                    x[0] == "field" and x[2] == "uri" for i in range(len(c.args)) for x in walk(c.arg(i))) and not any(g.is_async for g in ts):
                sites.append(c)
    ctx.need(len(sites) >= 2, "watched-file re-indexing not found")
    guarded(ctx, "watch", fl, sites, ["closed"], lambda c: f"`{last(c.name)}` for a watched file")
