"""What an extension may make the host execute or re-read: every program start and every reindex request is fully admitted first."""
import re
from core import base_fn
from flow import Spec, Flow, FULL, last
from guard import guarded, guarded_at, roots_of, agg_sites
from ir import peel, walk, show
from vals import mentions, must_mention, origins, const_val, denotes, call_targets, ret_terms, length_of
from rules.extension_output import takeouts

LIB = "ruby_fast_lsp.lib"
OUT_LISTS = ["index_patches", "execution_contexts", "response_patches", "command_patches"]
LIMIT = {"id_max": 128, "argc": 64, "argb": 8192, "stdin": 65536, "count": 16, "r_count": 256}


def infile(fn):
    return fn.crate == LIB and fn.file.startswith("src/extensions")


def subject(t):
    """(owner, field) of the guest-supplied value a term is about."""
    t = peel(t)
    while True:
        if t[0] == "some":
            t = peel(t[1])
        elif t[0] == "call" and t[2] and last(t[1]) in ("new", "from", "as_os_str", "as_str", "as_bytes", "components", "chars", "bytes", "len", "iter",
                                                        "to_str", "trim", "expect", "unwrap", "as_deref", "as_ref", "map", "count", "unwrap_or_default"):
            t = peel(t[2][0])
        elif t[0] == "field":
            return ((t[3] or "").rsplit("::", 1)[-1], t[2])
        else:
            return None


class S(Spec):
    atoms = ["trusted", "perm", "permeq", "allow", "alloweq", "loaded", "id_ne", "id_max", "argc", "argb", "stdin", "evrel", "c_parent", "c_root",
             "c_prefix", "v_parent", "v_root", "v_prefix", "p_parent", "p_root", "p_prefix", "nonzero", "count", "uniq", "r_count", "r_eq", "r_root", "r_ev", "r_parent", "r_rootdir",
             "r_prefix", "r_contain", "r_file"] + ["empty:" + x for x in OUT_LISTS]
    forall = ["argb", "uniq", "v_parent", "v_root", "v_prefix"]
    text = {"trusted": "the workspace being trusted", "perm": "the manifest granting `process.exec`", "allow": "the command being on the manifest's allowlist",
            "loaded": "the extension still being loaded", "id_ne": "a non-empty request id", "id_max": "a bounded request id", "argc": "a bounded argument count",
            "argb": "every argument being bounded", "stdin": "bounded standard input", "evrel": "the working directory being a root of the triggering event",
            "c_parent": "rejecting `..` in the command", "c_root": "rejecting an absolute command", "c_prefix": "rejecting a drive/UNC prefix in the command",
            "nonzero": "a non-zero timeout", "count": "a bounded number of requests", "uniq": "distinct request ids", "r_count": "a bounded number of reindex requests",
            "r_root": "matching a registered workspace root", "r_ev": "the root belonging to the event", "r_parent": "rejecting `..` in the path",
            "r_rootdir": "rejecting an absolute path", "r_prefix": "rejecting a drive prefix", "r_contain": "the resolved file lying inside the resolved root",
            "r_file": "the path being a regular file"}

    def __init__(s, p):
        s.p = p
        s.memo = {}

    def prefilter(s, f):
        return infile(f)

    def den(s, t, name, owner):
        k = (t, name)
        if k not in s.memo:
            s.memo[k] = denotes(s.p, t, name, owner)
        return s.memo[k]

    def men(s, t, name):
        k = ("m", t, name)
        if k not in s.memo:
            s.memo[k] = must_mention(s.p, t, lambda x: x[0] == "field" and x[2] == name)
        return s.memo[k]

    def roots_of_event(s, t):
        return s.men(t, "event_roots")

    def cond(s, fn, t, o):
        if not infile(fn):
            return ()
        r = []
        if o is True and t[0] in ("arg", "upvar", "field", "var") and s.den(t, "workspace_trusted", "RubyFastLspConfig"):
            r.append("trusted")
        if isinstance(o, str):
            v = o.lstrip("!")
            if v in ("Prefix", "RootDir", "CurDir", "ParentDir", "Normal") and "Component" in s.ty(fn, t):
                for n, a in (("ParentDir", "v_parent"), ("RootDir", "v_root"), ("Prefix", "v_prefix")):
                    if o == "!" + n or (not o.startswith("!") and o != n):
                        r.append(a)
            if o == "None" and subject(t) == ("ProcessRequest", "stdin") and peel(t)[0] == "field":
                r.append("stdin")
        if t[0] != "call":
            return r
        n, a = t[1], t[2]
        l = last(n)
        fl = s.flow
        if l in ("any", "contains") and o is True and len(a) > 1:
            c = fl.closure_of(a[1])
            for fld, eq, atom in (("permissions", "permeq", "perm"), ("process_commands", "alloweq", "allow")):
                if s.men(a[0], fld):
                    m = fl.ret_mask(c, True) if c is not None else 0
                    direct = l == "contains" and (s.is_exec(a[1]) if fld == "permissions" else subject(s.p.resolve_up(a[1])) == ("ProcessRequest", "command"))
                    if direct or m == FULL or m & fl.bit[eq]:
                        r.append(atom)
        if l == "contains" and o is True and a:
            if s.roots_of_event(a[0]):
                r += ["evrel", "r_ev"]
        if l == "any" and o is False or l == "all" and o is True:
            sub = subject(a[0])
            c = fl.closure_of(a[1]) if len(a) > 1 else None
            if c is not None and (sub in (("ProcessRequest", "command"), ("ReindexFile", "path")) or generic_path(a[0])) and any(
                    x[0] == "call" and last(x[1]) == "components" for x in walk(a[0])) and fl.covers(fn, a[0]):
                m = fl.ret_mask(c, o)
                for v, cc, rr in (("v_parent", "c_parent", "r_parent"), ("v_root", "c_root", "r_rootdir"), ("v_prefix", "c_prefix", "r_prefix")):
                    if m == FULL or m & fl.bit[v]:
                        r.append(("p" + v[1:]) if sub is None else cc if sub[1] == "command" else rr)
        if l == "is_absolute" and o is False and a:
            sub = subject(a[0])
            if sub == ("ProcessRequest", "command"):
                r += ["c_root"]
            if sub == ("ReindexFile", "path"):
                r += ["r_rootdir"]
            if sub is None and generic_path(a[0]):
                r += ["p_root"]
        if n.startswith("ruby_"):
            for x in a:
                sub = subject(x)
                if sub in (("ProcessRequest", "command"), ("ReindexFile", "path")):
                    ms = [fl.ret_mask(g, o) for g in call_targets(s.p, t)]
                    for v, cc, rr in (("p_parent", "c_parent", "r_parent"), ("p_root", "c_root", "r_rootdir"), ("p_prefix", "c_prefix", "r_prefix")):
                        if ms and all(m == FULL or m & fl.bit[v] for m in ms):
                            r.append(cc if sub[1] == "command" else rr)
        if l == "is_empty" and isinstance(o, bool) and a:
            sub = subject(a[0])
            if sub == ("ProcessRequest", "request_id") and o is False:
                r.append("id_ne")
            if o is True and sub and sub[0] == "ExtensionOutput" and sub[1] in OUT_LISTS:
                r.append("empty:" + sub[1])
            if o is True and sub == ("ExtensionOutput", "process_requests"):
                r += ["count", "uniq"]
        if l == "is_zero" and o is False:
            r.append("nonzero")
        if l == "insert" and o is True and len(a) > 1 and any(
                x[0] == "field" and x[2] == "request_id" and (x[3] or "").endswith("ProcessRequest") for x in walk(s.p.resolve_up(a[1]))):
            r.append("uniq")
        if l == "find" and o == "Some":
            c = fl.closure_of(a[1])
            m = fl.ret_mask(c, True) if c is not None else 0
            if (m == FULL or m & fl.bit["r_eq"]) and not s.roots_of_event(a[0]):
                r.append("r_root")
        if l == "starts_with" and o is True and len(a) > 1:
            x, y = peel(a[0]), peel(a[1])
            cx = [z for z in walk(x) if z[0] == "call" and last(z[1]) == "canonicalize"]
            cy = [z for z in walk(y) if z[0] == "call" and last(z[1]) == "canonicalize"]
            if cx and cy and mentions(s.p, x, lambda z: z[0] == "field" and z[2] == "path" and (z[3] or "").endswith("ReindexFile")) and not mentions(
                    s.p, y, lambda z: z[0] == "field" and z[2] == "path" and (z[3] or "").endswith("ReindexFile")):
                r.append("r_contain")
        if l == "is_file" and o is True and any(z[0] == "call" and last(z[1]) in ("canonicalize", "metadata") for z in walk(a[0])):
            r.append("r_file")
        return r

    def ty(s, fn, t):
        x = peel(t)
        if x[0] == "arg":
            return s.p.fns[x[1]].ty(x[2])
        if x[0] == "var":
            return s.p.fns[x[1]].ty(x[2])
        return "Component" if any(y[0] == "call" and last(y[1]) in ("components", "next") for y in walk(x)) else ""

    def is_exec(s, t):
        return any(x[0] == "const" and x[1] == "process.exec" for x in walk(s.p.resolve_up(t)))

    def cmp(s, fn, op, a, b):
        if not infile(fn):
            return ()
        r = []
        p = s.p
        bb = peel(p.resolve_up(b))
        if op == "Eq":
            if const_val(b) == "process.exec":
                r.append("permeq")
            if subject(p.resolve_up(b)) == ("ProcessRequest", "command") and peel(a)[0] in ("arg", "some", "index"):
                r.append("alloweq")
            if subject(p.resolve_up(b)) == ("ReindexFile", "workspace_root"):
                r.append("r_eq")
            if bb[0] == "agg" and str(bb[2]).endswith("ExtensionStatus") and bb[3] == "Loaded":
                r.append("loaded")
            x = peel(a)
            if const_val(b) == 1 and x[0] == "call" and last(x[1]) == "count" and subject(x[2][0]) == ("ProcessRequest", "command"):
                r += ["c_parent", "c_root", "c_prefix"]
            if const_val(b) == 1 and x[0] == "call" and last(x[1]) == "len" and s.roots_of_event(x[2][0]):
                r.append("evrel")
            if const_val(b) == 0 and x[0] == "call" and last(x[1]) == "len" and subject(x) == ("ExtensionOutput", "process_requests"):
                r += ["count", "uniq"]
        if op in ("Le", "Lt") and isinstance(const_val(b), int) and not isinstance(const_val(b), bool):
            x = length_of(p, a)
            v = const_val(b) - (op == "Lt")
            if x is not None:
                sub = subject(p.resolve_up(x))
                m = {("ProcessRequest", "request_id"): "id_max", ("ProcessRequest", "arguments"): "argc", ("ProcessRequest", "stdin"): "stdin",
                     ("ExtensionOutput", "process_requests"): "count"}.get(sub)
                y = peel(x)
                if m is None and y[0] in ("arg", "some") and fn.kind == "closure":
                    k = s.closure_item(fn)
                    m = {("ProcessRequest", "arguments"): "argb", ("ProcessRequest", "stdin"): "stdin"}.get(k)
                elif m is None and y[0] == "some":
                    m = {("ProcessRequest", "arguments"): "argb", ("ProcessRequest", "stdin"): "stdin"}.get(iter_subject(y))
                if m is None and s.men(x, "reindex_files"):
                    m = "r_count"
                if m and v <= LIMIT[m]:
                    r.append(m)
        if op in ("Gt", "Ge", "Ne") and const_val(b) == 0 and op != "Ge":
            x = peel(a)
            if x[0] == "call" and last(x[1]) == "len" and subject(x) == ("ProcessRequest", "request_id"):
                r.append("id_ne")
        return r

    def closure_item(s, fn):
        """what collection a closure's items come from."""
        c = s.p.creator(fn.key)
        if not c:
            return None
        g = c[0]
        for call in g.calls():
            for i in range(1, len(call.args)):
                t = peel(g.op_term(call.args[i]))
                if t[0] == "agg" and t[1] == "closure" and t[2] == fn.key:
                    return subject(s.p.resolve_up(call.arg(0)))
        return None

    def quant(s, fn, ty):
        if not infile(fn):
            return ()
        if re.search(r"ProcessRequest", ty) and "IntoIter" not in ty and not ty.startswith("alloc::vec::Vec"):
            return ["uniq"]
        if re.search(r"(&(\[|alloc::vec::Vec<)|slice::iter::Iter<.*)alloc::string::String", ty):
            return ["argb"]
        return ()


def generic_path(t):
    """a path the function was handed, not tied to a guest field here."""
    return any(x[0] == "arg" for x in walk(t)) and not any(x[0] == "field" for x in walk(t))


def iter_subject(t):
    t = peel(t)
    while t[0] == "some":
        t = peel(t[1])
        if t[0] == "call" and last(t[1]) == "next":
            return subject(t[2][0])
    return None


def check(ctx):
    p = ctx.p
    ctx.rule("start", "a program is started for an extension only after trust, permission, allowlist, size, directory, path and timeout admission")
    ctx.rule("requests", "process requests leave the guest output only after count, uniqueness and exclusivity were checked")
    ctx.rule("reindex", "a file is re-indexed for an extension only if it is a regular file inside a root of the event")
    ctx.rule("bounds", "the admitted timeout, directory and captured output are bounded by host constants")
    fl = Flow(p, S(p))
    ctx.fl = fl
    starts = [c for c in ctx.calls_named(r"^(tokio|std)::process::Command::(spawn|output|status)$") if infile(c.fn)]
    ctx.need(starts, "no extension process start found")
    guarded(ctx, "start", fl, starts, ["trusted", "perm", "allow", "loaded", "id_ne", "id_max", "argc", "argb", "stdin", "evrel", "c_parent", "c_root",
                                       "c_prefix", "nonzero"], "starting an extension's program")
    sites = takeouts(p, "process_requests")
    ctx.need(sites, "process requests are no longer taken from guest output")
    guarded_at(ctx, "requests", fl, sites, ["loaded", "count", "uniq"] + ["empty:" + x for x in OUT_LISTS], "process requests of a guest output used")
    urls = [c for c in ctx.calls_named(r"^url::Url::from_file_path$") if infile(c.fn) and mentions(
        p, c.arg(0), lambda z: z[0] == "field" and (z[3] or "").endswith("ReindexFile"))]
    ctx.need(urls, "no reindex URL construction found")
    guarded(ctx, "reindex", fl, urls, ["r_count", "r_root", "r_ev", "r_parent", "r_rootdir", "r_prefix", "r_contain", "r_file"], "re-indexing a file for an extension")
    for c in urls:
        ok = all(any(x[0] == "call" and last(x[1]) == "canonicalize" for x in walk(o)) for o in origins(p, c.arg(0)))
        (ctx.ok if ok else lambda r, w, l: ctx.bad(r, w, "the re-indexed URL is not the resolved path that was checked", l))(
            "reindex", f"{base_fn(c.fn.name)}: resolved path", c.loc())
    bounds(ctx)


def bounded_min(p, t, limit):
    """value is a minimum with a host constant no larger than `limit` (durations in seconds)."""
    for o in origins(p, t):
        good = False
        o = peel(o)
        if o[0] == "call" and last(o[1]) in ("min", "clamp"):
            good = any(const_le(p, x, limit) for x in o[2])
        if not good and not const_le(p, o, limit):
            return False
    return True


def const_le(p, t, limit):
    t = peel(t)
    if t[0] != "const":
        return False
    v = t[1]
    if isinstance(v, int):
        return v <= limit
    k = p.consts.get(t[2] or "", {})
    m = re.search(r"secs: (\d+)_u64", str(k.get("pp", v)))
    return bool(m) and int(m.group(1)) <= limit


def bounds(ctx):
    p = ctx.p
    for f, bi, st, d in agg_sites(p, r"::extensions::[\w:]*ProcessRequest$"):
        if not infile(f) or "timeout" not in d:
            continue
        loc = f"{f.file}:{st[3]}"
        if bounded_min(p, d["timeout"], 10):
            ctx.ok("bounds", "admitted timeout is capped by a host constant", loc)
        else:
            ctx.bad("bounds", f"{base_fn(f.name)}:timeout", f"the timeout admitted in {base_fn(f.name)} is not capped by the host's maximum", loc)
        if "workspace_root" in d:
            bad = [o for o in origins(p, d["workspace_root"]) if any(x[0] == "field" and (x[3] or "").endswith("api::ProcessRequest") for x in walk_nocl(o))]
            if bad:
                ctx.bad("bounds", f"{base_fn(f.name)}:root", f"the working directory admitted in {base_fn(f.name)} is the guest's own string", loc)
            else:
                ctx.ok("bounds", "admitted working directory is a host path", loc)
    ctx.need(ctx.obl["bounds"], "admitted process request construction not found")
    n = 0
    for f in p.fns.values():
        if not infile(f):
            continue
        cs = f.calls()
        reads = [c for c in cs if re.search(r"AsyncReadExt::(read|read_buf|read_to_end|read_to_string)$|io::Read::read_to_(end|string)$", c.name)]
        if not reads:
            continue
        for c in cs:
            l = last(c.name)
            if l in ("read_to_end", "read_to_string") and "async_read_ext" in c.name:
                n += 1
                ok = any(x[0] == "call" and last(x[1]) == "take" for x in walk(c.arg(0)))
                rep(ctx, ok, f, c, "reads a child's output without a size limit")
            if l in ("extend_from_slice", "extend", "append") and c.name.startswith(("alloc::", "core::iter")) and any("async_read_ext" in r.name for r in reads):
                n += 1
                ok = any(x[0] == "call" and last(x[1]) == "min" and any(y[0] == "const" and isinstance(y[1], int) and y[1] <= 262144 for y in walk(x))
                         for x in walk(c.arg(1))) or any(x[0] == "call" and last(x[1]) == "take" for x in walk(c.arg(1)))
                rep(ctx, ok, f, c, "keeps a child's output without a size limit")
    ctx.need(n, "no bounded reading of child output found")


def rep(ctx, ok, f, c, msg):
    if ok:
        ctx.ok("bounds", f"{base_fn(f.name)}: {last(c.name)} bounded", c.loc())
    else:
        ctx.bad("bounds", f"{base_fn(f.name)}:{last(c.name)}", f"{base_fn(f.name)} {msg}", c.loc())


def walk_nocl(t):
    """subterms, not entering closure captures"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
            continue
        if x[0] == "agg" and x[1] == "closure":
            continue
        yield x
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], str):
                    st.append(y)
                else:
                    st.extend(z for z in y if isinstance(z, tuple))
