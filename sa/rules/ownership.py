"""Source ownership: rename edits, workspace symbols and diagnostics only ever concern files the project owns."""
import re
from core import base_fn
from flow import Spec, Flow, FULL, last
from guard import guarded, guarded_at, agg_sites, roots_of
from ir import peel, walk, show
from vals import mentions, origins, ret_terms, call_targets

KIND = "ruby_analysis::core::source_file::SourceKind"
CRATES = ("ruby_fast_lsp.lib", "ruby_analysis.lib")


def put(ctx, rid, ok, good, key, bad, loc, trace=None):
    ctx.ok(rid, good, loc) if ok else ctx.bad(rid, key, bad, loc, trace or [])


def is_kind(p, t):
    t = peel(t)
    if t[0] in ("arg", "var"):
        return "source_file::SourceKind" in p.fns[t[1]].ty(t[2])
    if t[0] == "field":
        return t[2] in ("kind", "source_kind") or any("SourceKind" in str(x) for x in t[3:])
    if t[0] == "some":
        i = peel(t[1])
        if i[0] == "call":
            return any("SourceKind" in g.ty(0) for g in call_targets(p, i)) or i[1].rsplit("::", 1)[-1] in ("map", "copied", "cloned")
    if t[0] == "call":
        return any("SourceKind" in g.ty(0) for g in call_targets(p, t)) or t[1].rsplit("::", 1)[-1] in ("unwrap_or", "unwrap_or_else", "map_or")
    return t[0] == "upvar"


class S(Spec):
    atoms = ["own"]
    forall = []
    text = {"own": "the file being one the project owns"}

    def __init__(s, p):
        s.p = p

    def prefilter(s, f):
        return f.crate in CRATES

    def cond(s, fn, t, o):
        if o == "Project" and is_kind(s.p, t) and s.item_ok(fn, t):
            return ("own",)
        return ()

    def cmp(s, fn, op, a, b):
        b = peel(b)
        if op == "Eq" and b[0] == "agg" and b[1] == "adt" and b[2] == KIND and b[3] == "Project" and s.item_ok(fn, a):
            return ("own",)
        return ()

    def item_ok(s, fn, t):
        return True



class SA(S):
    """ownership of every item of a collection counts too"""
    forall = ["own"]


class Sub(Spec):
    """the same fact, but about one value: only tests that mention it count"""
    atoms = ["own"]
    forall = ["own"]
    text = S.text

    def __init__(s, p, g, fn, roots, coll):
        s.p, s.g, s.fn, s.roots, s.coll = p, g, fn, roots, coll

    def prefilter(s, f):
        return f.key == s.fn.key

    def cond(s, fn, t, o):
        if fn.key != s.fn.key or t[0] in ("var", "const"):
            return ()
        if s.coll and t[0] == "call" and t[1].startswith(("core::", "alloc::", "std::")) and last(t[1]) not in ("any", "all"):
            return ()
        s.g.whole = s.roots
        m = s.g.implied(fn, t, o)
        s.g.whole = frozenset()
        if m and m & 1 and any(x in s.roots for x in walk(t)):
            return ("own",)
        return ()

    def cmp(s, fn, op, a, b):
        if fn.key != s.fn.key:
            return ()
        if s.g.s.cmp(fn, op, a, b) and any(x in s.roots for x in walk(a)):
            return ("own",)
        return ()


def roots(t):
    """the value and what it was projected from (never `self` or an engine)"""
    out = set()
    t = peel(t)
    while t[0] in ("field", "down", "proj"):
        out.add(t)
        t = peel(t[1])
    if t[0] in ("some", "var", "call"):
        out.add(t)
    return out


def colls(t):
    """the collections an iterator expression draws from"""
    out = set()
    t = peel(t)
    while t[0] in ("var", "call", "field", "some"):
        if t[0] != "call" or not t[1].startswith(("core::ops::deref", "core::clone")):
            out.add(t)
        if t[0] == "var" or t[0] == "call" and (not t[2] or not t[1].startswith(("core::", "alloc::", "std::"))):
            break
        t = peel(t[2][0] if t[0] == "call" else t[1])
    return out


def empty(t):
    t = peel(t)
    if t[0] == "field":
        t = peel(t[1])
    return t[0] == "call" and last(t[1]) in ("new", "default", "with_capacity", "take") and (last(t[1]) != "take" or "mem::take" not in t[1])


class Coll:
    """contributions to a collection value, each of which must concern owned files"""

    def __init__(s, ctx, rid, fl, what, subj=False):
        s.subj = subj
        s.ctx, s.p, s.rid, s.fl, s.what = ctx, ctx.p, rid, fl, what
        s.n = 0
        s.seen = set()

    def put(s, ok, f, line, how):
        s.n += 1
        loc = f"{f.file}:{line}"
        put(s.ctx, s.rid, ok, f"{base_fn(f.name)}: {s.what} {how}", f"{base_fn(f.name)}:{s.what}:{how.split(' ')[0]}",
            f"{s.what} in {base_fn(f.name)} can concern a file the project does not own ({how})", loc)

    def own_here(s, f, bi):
        ins = s.fl.ins.get(f.key)
        if ins is None:
            ins = s.fl.analyze(f, 0)
        m = s.fl.at_term(f, ins, bi)
        return m == FULL or bool(m & 1)

    def value(s, f, t, bi, line, depth=0):
        """t: the collection's term at (f, block)"""
        p = s.p
        t = peel(t)
        if t in s.seen or depth > 8:
            return
        s.seen.add(t)
        if t[0] == "field" and str(t[2]).isdigit() and peel(t[1])[0] == "var":
            v = peel(t[1])
            g = p.fns[v[1]]
            for db, k, pl, ln in g.defs().get(v[2], []):
                if k == "rv" and pl[0] == "agg":
                    s.contrib(g, g.op_term(pl[5][int(t[2])]), db, ln, depth)
                else:
                    s.put(s.own_here(g, db), g, ln, "assigned")
            return
        if t[0] == "var":
            g = p.fns[t[1]]
            for db, k, pl, ln in g.defs().get(t[2], []):
                x = g.rv_term(pl, 1) if k == "rv" else g.call_term(pl, 1, db)
                s.contrib(g, x, db, ln, depth)
            s.mutations(g, t)
            return
        s.contrib(f, t, bi, line, depth)
        if t[0] == "call":
            s.mutations(f, t)

    def mutations(s, f, t):
        """calls that grow the collection"""
        for c in f.calls():
            if last(c.name) not in ("push", "extend", "insert", "append", "extend_from_slice", "push_back") or not c.args or len(c.args) < 2:
                continue
            if peel(c.arg(0)) != t:
                continue
            v = c.arg(len(c.args) - 1)
            if last(c.name) in ("extend", "append", "extend_from_slice"):
                ok = bool(s.fl.item_facts(f, v) & 1) or (s.subject(f, c.bb, v, colls(v)) if s.subj else s.own_here(f, c.bb))
                s.put(ok, f, c.line, "extended with items")
            else:
                s.put(s.subject(f, c.bb, v) if s.subj else s.own_here(f, c.bb), f, c.line, "pushed")

    def subject(s, f, bi, v, r=None):
        coll = r is not None
        r = r if coll else roots(v)
        if not any(x[0] in ("some", "var", "field", "call") for x in r):
            return s.own_here(f, bi)
        sp = Sub(s.p, s.fl, f, r, coll)
        h = Flow.__new__(Flow)
        h.__dict__.update(s.fl.__dict__)
        h.s = sp
        sp.flow = h
        h.impl_local, h.ret, h.always, h.maykill, h.call_ev = {}, {}, {}, {}, {}
        m = h.at_term(f, h.analyze(f, 0), bi)
        if m == FULL or m & 1:
            return True
        # an item of a collection that was tested as a whole
        for x in () if coll else r:
            i = peel(x[1]) if x[0] == "some" else x
            if i[0] == "call" and last(i[1]) == "next" and i[2] and s.subject(f, bi, i[2][0], colls(i[2][0])):
                return True
        return False

    def contrib(s, f, t, bi, line, depth):
        p = s.p
        t = peel(t)
        if empty(t):
            s.put(True, f, line, "starts empty")
            return
        if s.own_here(f, bi) if not s.subj else s.subject(f, bi, t, colls(t)):
            s.put(True, f, line, "assigned under an ownership test")
            return
        if t[0] == "var" and t not in s.seen:
            return s.value(f, t, bi, line, depth + 1)
        if t[0] == "call":
            l = last(t[1])
            if l in ("unwrap_or_default", "unwrap_or_else", "unwrap_or") and t[2]:
                i = peel(t[2][0])
                if i[0] == "call" and last(i[1]) in ("then", "then_some"):
                    m = s.fl.implied(f, i[2][0], True)
                    s.put(m == FULL or bool(m & 1), f, line, "conditional")
                    return
            if "facts_in_file" in l:
                s.put(True, f, line, "kept from the same file's stored facts")
                return
            m = s.fl.item_facts(f, t)
            if m & 1:
                s.put(True, f, line, "filtered by ownership")
                return
            ts = call_targets(p, t)
            if ts and depth < 4:
                for g in ts:
                    for r in ret_terms(p, g):
                        s.value(g, r, 0, g.line, depth + 1)
                return
        s.put(False, f, line, "unfiltered")


def check(ctx):
    p = ctx.p
    ctx.need(KIND in p.adts, "SourceKind not found")
    ctx.rule("rename", "every range in a rename target comes from a file tested to be project-owned")
    ctx.rule("edit", "every text edit of a rename is built from such a target or for a document tested to be project-owned")
    ctx.rule("symbols", "a workspace-symbol result is built only for a symbol whose file is project-owned")
    ctx.rule("facts", "diagnostics and diagnostic candidates are stored only for project-owned files")
    ctx.rule("syntax", "syntax and linter diagnostics are produced only for project-owned files")
    fl = Flow(p, S(p))
    fa = Flow(p, SA(p))
    # rename targets
    n = 0
    for f, bi, st, d in agg_sites(p, r"RenameTarget$"):
        if "ranges" not in d or f.name.endswith("::clone") or f.crate not in CRATES:
            continue
        n += 1
        Coll(ctx, "rename", fa, "rename range", True).value(f, d["ranges"], bi, st[3])
    ctx.need(n >= 2, "rename targets not found")
    ctx.floor("rename", 5)
    # rename edits
    rn = [f for f in p.fns.values() if f.crate == "ruby_fast_lsp.lib" and f.impl_trait and f.impl_trait.endswith("LanguageServer") and f.name.endswith("::rename")]
    ctx.need(rn, "rename request handler not found")
    reach = p.reach(rn)
    sites = []
    for f, bi, st, d in agg_sites(p, r"::TextEdit$", fns=[p.fns[k] for k in reach if k in p.fns]):
        if f.crate != "ruby_fast_lsp.lib" or f.name.endswith("::clone"):
            continue
        if mentions(p, d["range"], lambda x: x[0] == "field" and x[2] == "ranges" and "RenameTarget" in str(x[3:]), 4):
            ctx.ok("edit", f"{base_fn(f.name)}: edit from a rename target", f"{f.file}:{st[3]}")
        else:
            sites.append((f, bi, st[3], "edit of the open document"))
    guarded_at(ctx, "edit", fl, sites, ["own"], "building a rename edit")
    ctx.floor("edit", 2)
    # workspace symbols
    sites = [(f, bi, st[3], "workspace symbol") for f, bi, st, d in agg_sites(p, r"::WorkspaceSymbolMatch$") if f.crate in CRATES and not f.name.endswith("::clone")]
    ctx.need(sites, "workspace symbol construction not found")
    guarded_at(ctx, "symbols", fl, sites, ["own"], "building a workspace symbol")
    # stored diagnostics
    n = 0
    for f, bi, st, d in agg_sites(p, r"::state::FileFacts$"):
        if f.crate not in CRATES or re.search(r"::(clone|default)$", f.name):
            continue
        n += 1
        fl.entries({f.key}, roots_of(p))
        for fld in ("diagnostics", "diagnostic_candidates"):
            if fld not in d:
                continue
            c = Coll(ctx, "facts", fl, fld.replace("_", " "))
            c.value(f, d[fld], bi, st[3])
    ctx.need(n >= 4, "file fact construction not found")
    for c in ctx.calls_named(r"::replace_unresolved_require_diagnostics$"):
        if c.fn.crate != "ruby_fast_lsp.lib":
            continue
        ok = bool(fl.item_facts(c.fn, c.arg(2)) & 1)
        if not ok:
            fl.entries({c.fn.key}, roots_of(p))
            m = fl.facts_before_call(c)
            ok = m is None or m == FULL or bool(m & 1)
        put(ctx, "facts", ok, f"{base_fn(c.fn.name)}: refreshed require diagnostics are for owned files", f"{base_fn(c.fn.name)}:refresh",
            "require diagnostics are refreshed for files the project does not own", c.loc())
    # syntax / linter
    syn = []
    for f in p.fns.values():
        if f.crate != "ruby_fast_lsp.lib":
            continue
        for c in f.calls():
            for g in p.targets(c.callee):
                if re.search(r"Vec<[\w:]*Diagnostic\b", g.ty(0)) and any("ParseResult" in g.ty(i) for i in range(1, g.nargs + 1)):
                    syn.append(c)
    ctx.need(len(syn) >= 2, "syntax diagnostic production not found")
    guarded(ctx, "syntax", fl, {(c.fn.key, c.bb): c for c in syn}.values(), ["own"], "producing syntax diagnostics")
    lint = [c for c in ctx.calls_named(r"linter::\w*lint\w*$") if c.fn.crate == "ruby_fast_lsp.lib" and not c.fn.file.endswith("linter.rs")]
    guarded(ctx, "syntax", fl, lint, ["own"], "running the linter")
    ctx.floor("syntax", 4)
