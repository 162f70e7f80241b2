"""Archives and compressed data from outside: what comes out is limited while reading, and extracted names stay inside."""
import re
from core import base_fn
from flow import Flow, FULL, Spec, last
from guard import guarded
from ir import ops_of, peel, walk
from vals import arg_terms, call_targets, closure_arg, const_val, mentions, ret_terms, stretched

SRC = r"(zip::read::ZipFile|flate2::\w+::(read|bufread)::\w+Decoder|flate2::(gz|zlib|deflate)::\w+::\w*Decoder|zstd::stream::read::Decoder|bzip2::\w+::\w*Decoder|xz2::\w+::\w*Decoder)"
TAR = r"tar::entry::Entry<"
READ = re.compile(r"(Read::(read_to_end|read_to_string)|io::copy::copy|io::copy::copy_buf|io::read_to_string|io::impls::read_to_string|AsyncReadExt::(read_to_end|read_to_string)|io::util::copy::copy)$")
WHOLE = re.compile(r"^(zstd::.*::(decode_all|copy_decode)|tar::archive::Archive::<R>::unpack|tar::entry::Entry::<.*>::unpack(_in)?|zip::read::.*ZipArchive.*::(extract|extract_unwrapped_root_dir))$")
SIZE = re.compile(r"(zip::read::ZipFile.*::size|tar::entry::Entry.*::size|tar::header::Header::(size|entry_size))$")
NEXT = re.compile(r"zip::.*ZipArchive.*::by_(index|name)\w*$")
FSW = re.compile(r"^(std|tokio)::fs::(.*::)?(write|create_dir_all|create_dir|rename|copy|create|create_new|hard_link|soft_link)$|OpenOptions::open$|unix::fs::symlink$")
NAME = re.compile(r"(tar::entry::Entry.*|tar::header::Header)::(path|path_bytes|link_name|link_name_bytes)$|zip::.*(ZipFile|ZipArchive).*::(name|name_raw|mangled_name|name_for_index|file_names)$")
CUT = ("core::", "alloc::", "std::")


def subject(f):
    return not ("/tests/" in f.file or f.file.endswith("tests.rs") or "/bin/" in f.file or f.crate.endswith(".test") or f.file.endswith("corpus.rs"))


def is_size(x):
    return x[0] == "call" and bool(SIZE.search(x[1]))


def sized(p, t):
    return mentions(p, t, is_size, 4)


class S(Spec):
    atoms = ["limit", "file", "g_np", "g_nr"]
    forall = ["g_np", "g_nr"]
    text = {"limit": "the entry's declared size having been compared with a limit", "file": "the entry being a regular file"}

    def __init__(s, p, near):
        s.p, s.near = p, near
        s.focus = None
        s.params = {}

    def opaque(s, fn):
        return s.focus is not None

    def hit(s, fn, t):
        """is the tested value the one in focus (or an item of it)?"""
        return s.focus is None or fn.key == s.focus[0] and s.focus[1] in chain(s.p, t)

    def prefilter(s, f):
        return f.key in s.near

    def focused(s, g, t, run):
        """run() while the tests in g count only when they are about t"""
        fl, old = s.flow, s.focus
        ev = {x: fl.call_ev.pop(x) for x in [x for x in fl.call_ev if x[0] == g.key]}
        il, fg = fl.impl_local.pop(g.key, None), fl._flags.pop(g.key, None)
        s.focus = (g.key, t)
        try:
            return run()
        finally:
            s.focus = old
            for x in [x for x in fl.call_ev if x[0] == g.key]:
                del fl.call_ev[x]
            fl.call_ev.update(ev)
            for d, v in ((fl.impl_local, il), (fl._flags, fg)):
                d.pop(g.key, None)
                if v is not None:
                    d[g.key] = v

    def param(s, g, i, o):
        """what outcome o of g says about its i-th argument"""
        k = (g.key, i, o)
        if k in s.params:
            return s.params[k]
        s.params[k] = 0  # a recursive question claims nothing
        if g.is_async or g.key not in s.near:
            return 0
        fl = s.flow

        def run():
            ins, al = fl.analyze(g, 0), FULL
            for bi, b in enumerate(g.bb):
                if b["t"][0] == "ret" and ins[bi] != FULL:
                    al &= ins[bi]
            d, dic = fl.impl_local[g.key].get(0, (FULL, {}))
            res = "Result<" in (g.ty(0) or "")[:24]
            v = dic.get({"Some": "Ok", "None": "Err"}.get(o, o) if res else o, d)
            return FULL if FULL in (v, al) else v | al

        s.params[k] = s.focused(g, ("arg", g.key, i + 1), run)
        return s.params[k]

    def kill(s, c):
        if NEXT.search(c.name) or c.name.endswith("Iterator::next") and "tar::" in (c.callee.self_ty or ""):
            return ("limit", "file")
        return ()

    def cmp(s, fn, op, a, b):
        if fn.key not in s.near:
            return ()
        r = []
        if op in ("Le", "Lt") and sized(s.p, a) and not sized(s.p, b) and not too_high(b) and not stretched(s.p, a, b):
            r.append("limit")
        if op == "Eq" and any(x[0] == "call" and x[1].endswith("entry_type") for x in walk(a)) and "Regular" in str(b):
            r.append("file")
        return r

    def cond(s, fn, t, o):
        if fn.key not in s.near:
            return ()
        r = []
        u = s.p.resolve_up(t)
        if isinstance(o, str):
            if o == "Regular" and any(x[0] == "call" and x[1].endswith("entry_type") for x in walk(u)):
                r.append("file")
            if (o in ("Normal", "CurDir", "Prefix", "RootDir", "ParentDir") or o.startswith("!")) and s.hit(fn, t):
                if o in ("Normal", "CurDir", "RootDir", "Prefix") or o == "!ParentDir":
                    r.append("g_np")
                if o in ("Normal", "CurDir", "ParentDir") or o == "!RootDir":
                    r.append("g_nr")
        if t[0] == "call":
            l, a = last(t[1]), t[2]
            if l == "is_file" and o is True and "tar::" in t[1]:
                r.append("file")
            if any(s.hit(fn, x) for x in a):
                r += ["g_" + x for x in est(t, o)]
            if s.focus is not None and o in (True, False, "Ok", "Some", "None") and any(s.hit(fn, x) for x in a):
                ms = [s.param(g, i, o) for g in call_targets(s.p, t) for i, x in enumerate(a) if s.hit(fn, x)]
                r += [x for x in ("g_np", "g_nr") if ms and all(m == FULL or m & s.flow.bit[x] for m in ms)]
            if l in ("any", "all") and (o is (l == "all")) and a and len(a) > 1 and s.hit(fn, a[0]):
                c = s.flow.closure_of(a[1])
                if c is not None:
                    foc, s.focus = s.focus, None
                    whole = s.flow.whole
                    s.flow.whole = set(whole) | ({foc[1]} if foc else set())  # testing every item of the thing in focus
                    m = s.flow.ret_mask(c, o) & (FULL if s.flow.covers(fn, a[0]) == FULL else 0)
                    s.flow.whole = whole
                    s.focus = foc
                    r += [x for x in ("g_np", "g_nr") if m == FULL or m & s.flow.bit[x]]
                    if split_slash(a[0]):
                        r.append("g_nr") if "g_np" in r and empties(s.p, s.flow, c, o) else None
        return r

    def quant(s, fn, ty):
        if fn.key in s.near and re.search(r"std::path::Components|str::iter::(Split|SplitTerminator|RSplit)<", ty):
            return ["g_np", "g_nr"]
        return ()


def too_high(t):
    return any(x[0] == "const" and (isinstance(x[1], int) and x[1] > 1 << 40 or str(x[2] or "").endswith("::MAX")) for x in walk(t))


def split_slash(t):
    return any(x[0] == "call" and last(x[1]) in ("split", "split_terminator", "rsplit") and len(x[2]) > 1 and const_val(x[2][1]) in ("/", 47) for x in walk(t))


def empties(p, fl, c, o):
    return any(last(x.name) == "is_empty" for x in c.calls())


def est(t, o):
    """what an outcome of a test says about the tested text: np (no parent step), nr (not rooted)"""
    l, a = last(t[1]), t[2]
    cs = [const_val(x) for x in a[1:]] + [const_val(x) for x in a[:1]]
    if l in ("contains", "find", "starts_with") and len(a) > 1:
        cs += [x[1] for x in walk(a[1]) if x[0] == "const" and x[1] in (47, "/")]  # any of several characters
    if l == "eq" and o is False or l == "ne" and o is True:
        return ["np"] if ".." in cs else []
    if o is False:
        if l in ("contains", "find") and ("/" in cs or 47 in cs):
            return ["nr"]
        if l in ("contains",) and ".." in cs:
            return ["np"]
        if l == "starts_with" and ("/" in cs or 47 in cs):
            return ["nr"]
        if l in ("is_absolute", "has_root"):
            return ["nr"]
    if o is True and l == "is_relative":
        return ["nr"]
    return []


def strip(t):
    """the text a test or a path operation is about"""
    t = peel(t)
    while t[0] == "call" and t[2] and (last(t[1]) in ("as_str", "as_ref", "deref", "new", "as_os_str", "to_string", "to_owned", "clone", "borrow", "from", "into", "as_path",
                                                     "to_string_lossy", "into_owned", "to_path_buf", "as_deref", "unwrap", "expect", "next", "iter", "into_iter", "collect", "copied", "cloned",
                                                     "as_slice", "to_vec", "as_mut", "by_ref")) and t[1].startswith(CUT):
        t = peel(t[2][0])
    while t[0] == "some":
        t = strip(t[1])
    return t


def chain(p, t):
    """a tested value and what it is an item of"""
    out = []
    t = strip(p.resolve_up(t))
    for _ in range(12):
        out.append(t)
        if t[0] == "call" and t[2] and last(t[1]) in ("split", "split_terminator", "rsplit", "components", "iter", "filter", "next", "chars", "bytes", "as_bytes", "any", "map", "into_iter", "skip",
                                                       "rev", "enumerate", "peekable", "trim", "split_once", "rsplit_once"):
            t = strip(t[2][0])
        elif t[0] == "field" and not t[3]:
            t = strip(t[1])
        else:
            break
    return out


# ------------------------------------------------------------------------------------------------ reading
def read_sites(p):
    for f in p.fns.values():
        if not subject(f):
            continue
        for c in f.calls():
            if READ.search(c.name) and c.args and "p" in c.args[0]:
                ty = f.ty(c.args[0]["p"][0])
                m = re.search(SRC, ty)
                t = re.search(TAR, ty)
                if m or t:
                    yield f, c, ty, (t if t and (not m or t.start() < m.start()) else m), bool(t and (not m or t.start() < m.start()))


def take_call(f, c):
    for x in walk(f.prog.resolve_up(c.arg(0))):
        if x[0] == "call" and last(x[1]) == "take" and ("Read" in x[1] or "read" in x[1]):
            return x
    return None


def uncast(t):
    t = peel(t)
    while True:
        if t[0] == "cast":
            t = peel(t[1] if isinstance(t[1], tuple) else t[2])
        elif t[0] == "some":
            t = peel(t[1])
        elif t[0] == "call" and t[2] and last(t[1]) in ("try_from", "try_into", "from", "into", "context", "with_context", "map_err", "unwrap", "expect", "ok_or_else", "branch", "ok_or"):
            t = peel(t[2][0])
        else:
            return t


def buf_local(f, c):
    """the local collecting what is read, and its users"""
    if c.name.endswith(("copy", "copy_buf")):
        return None
    if len(c.args) < 2 or "p" not in c.args[1]:
        return None
    l = c.args[1]["p"][0]
    seen = set()
    while l not in seen:
        seen.add(l)
        ds = f.defs().get(l, [])
        nx = None
        for bi, k, pl, ln in ds:
            if k == "rv" and pl[0] in ("ref", "&", "addr") or k == "rv" and pl[0] == "use":
                for o in ([pl[-1]] if isinstance(pl[-1], list) else []) + [x["p"] for x in ops_of(pl) if "p" in x]:
                    if isinstance(o, list) and o and isinstance(o[0], int):
                        nx = o[0]
        if nx is None:
            break
        l = nx
    return l


def about(f, t, l, c):
    """is the term the number of bytes read: len of the buffer, or the count the read returned"""
    for x in walk(t):
        if x[0] == "call" and last(x[1]) == "len" and x[2]:
            for y in walk(x[2][0]):
                if y[0] == "var" and y[1] == f.key and y[2] == l or y == f.term(l):
                    return True
        if x[0] == "call" and x[3] == (f.key, c.bb):
            return True
    return False


def err_block(f, b):
    for st in f.bb[b]["s"]:
        if st[0] == "=" and st[1] == [0] and st[2][0] == "agg" and st[2][1] == "adt" and st[2][3] in ("Err", "None"):
            return True
    t = f.bb[b]["t"]
    return t[0] == "call" and f.bb[b]["t"][1].get("fn") is not None and any(c.bb == b and last(c.name) == "from_residual" for c in f.calls())


def checked(ctx, fl, f, c):
    """every way from the read to a use of the bytes passes a test of how much was read -> (bad line or None, tests)"""
    p = f.prog
    l = buf_local(f, c)
    if c.name.endswith(("copy", "copy_buf", "read_to_string")) and l is None:
        l = -1
    calls = {x.bb: x for x in f.calls()}
    tests = []

    def tested(b):
        t = f.bb[b]["t"]
        if t[0] == "switch":
            tm = peel(f.op_term(t[1]))
            while tm[0] == "un":
                tm = peel(tm[2])
            if tm[0] == "bin" and tm[1] in ("Gt", "Ge", "Lt", "Le", "Ne", "Eq") and (about(f, tm[2], l, c) or about(f, tm[3], l, c)):
                tests.append(tm)
                return True
            if tm[0] == "call" and last(tm[1]) in ("gt", "ge", "lt", "le", "ne", "eq", "contains", "cmp") and any(about(f, x, l, c) for x in tm[2]):
                tests.append(("bin", {"gt": "Gt", "ge": "Ge", "lt": "Lt", "le": "Le", "ne": "Ne"}.get(last(tm[1]), "Eq"), tm[2][0], tm[2][-1]))
                return True
        x = calls.get(b)
        if x is not None and x.bb != c.bb and not x.name.startswith(CUT) and any(about(f, x.arg(i), l, c) for i in range(len(x.args))) and "fmt" not in x.name:
            ts = p.targets(x.callee)
            if ts and any(k in (g.ty(0) or "") for g in ts for k in ("Result", "bool", "Option")):
                return True
        if x is not None and x.bb != c.bb and x.name.startswith("core::") and last(x.name) in ("checked_sub", "cmp", "partial_cmp", "then_some", "filter", "contains") and any(
                about(f, x.arg(i), l, c) for i in range(len(x.args))):
            return True
        return False

    todo, seen, hit = [c.bb], set(), None
    first = True
    while todo:
        b = todo.pop()
        if b in seen:
            continue
        if not first:
            if f.bb[b].get("c"):
                continue
            seen.add(b)
            if tested(b):
                continue
            if err_block(f, b):
                continue
            if f.bb[b]["t"][0] in ("return", "ret"):
                hit = line(f, b)
                continue
            x = calls.get(b)
            if b == c.bb:
                hit = c.line
                continue
        first = False
        todo += list(f.succ(b))
    return hit, tests


def line(f, b):
    for st in f.bb[b]["s"]:
        if st[0] == "=":
            return st[3]
    return f.line


def reading(ctx, fl):
    p = ctx.p
    n = 0
    need_limit = []
    for f, c, ty, m, tar in read_sites(p):
        n += 1
        who = base_fn(f.name)
        what = m.group(0).rstrip("<").rsplit("::", 1)[-1]
        pre = ty[:m.start()]
        limited = "Take<" in pre
        if tar and not limited:
            need_limit.append((c, what))
            continue
        if not limited:
            ctx.bad("bounded", f"{who}:{what}", f"{who} reads everything a {what} yields, without a limit", c.loc())
            continue
        tk = take_call(f, c)
        arg = uncast(tk[2][1]) if tk is not None else None
        if arg is not None and too_high(arg):
            ctx.bad("bounded", f"{who}:{what}:high", f"{who} reads a {what} with a limit that limits nothing", c.loc())
            continue
        ctx.ok("bounded", f"{who}: {what} read through a limit", c.loc())
        if arg is not None and sized(p, arg):
            need_limit.append((c, what))
        hit, tests = checked(ctx, fl, f, c)
        if hit is not None:
            # the helper hands the bytes to its callers: they must look
            ok = returned(ctx, fl, f, c)
            if not ok:
                ctx.bad("exceed", f"{who}:{what}", f"{who} uses what it read from a {what} without looking whether the limit was hit", f"{f.file}:{c.line}")
                continue
        elif arg is not None and tests and all(over(t, arg, f, c) for t in tests):
            ctx.bad("exceed", f"{who}:{what}:never", f"{who} stops reading a {what} exactly at its limit, so the test for more can never fire", c.loc())
            continue
        ctx.ok("exceed", f"{who}: amount read from {what} tested before use", c.loc())
    for f in p.fns.values():
        if not subject(f):
            continue
        for c in f.calls():
            if WHOLE.match(c.name):
                n += 1
                ctx.bad("bounded", f"{base_fn(f.name)}:{last(c.name)}", f"{base_fn(f.name)} hands a whole archive to {last(c.name)}, which has no limit", c.loc())
    ctx.need(n >= 6, "fewer than six places read compressed data")
    guarded(ctx, "declared", fl, [c for c, w in need_limit], ["limit"], lambda c: "reading as much as the entry declares",
            key=lambda c: f"{base_fn(c.fn.name)}:read")


def returned(ctx, fl, f, c):
    return False


def over(t, arg, f, c):
    """`len > arg` with the very value the read was limited to"""
    op, a, b = t[1], uncast(t[2]), uncast(t[3])
    return op == "Gt" and b == arg or op == "Lt" and a == arg


def reserving(ctx, fl):
    p = ctx.p
    sites = []
    for f in p.fns.values():
        if not subject(f):
            continue
        for c in f.calls():
            if last(c.name) in ("with_capacity", "reserve", "reserve_exact", "resize", "from_elem") and c.name.startswith(("alloc::", "std::")):
                i = 0 if last(c.name) == "with_capacity" else 1
                if len(c.args) > i and any(is_size(x) for x in walk(p.resolve_up(c.arg(i)))):
                    sites.append(c)
    ctx.need(len(sites) >= 3, "no reservations by declared size found")
    guarded(ctx, "declared", fl, sites, ["limit"], lambda c: "reserving as much memory as the entry declares", key=lambda c: f"{base_fn(c.fn.name)}:reserve")


# ------------------------------------------------------------------------------------------------ writing
LEAF = {"name", "source_file", "entry_name"}


def leaf(x):
    if x[0] == "call":
        return bool(NAME.search(x[1]))
    return x[0] == "field" and x[2] in LEAF and bool(re.search(r"(jvm_metadata::.*::Class\w*|JavaClassDeclaration)$", x[3] or ""))


class Names:
    def __init__(s, p, fl):
        s.p, s.fl = p, fl
        s.memo, s.tainted, s.vetted = {}, {}, 0

    def taints(s, t):
        r = s.tainted.get(t)
        if r is None:
            hit = []
            mentions(s.p, t, lambda x: hit.append(1) if leaf(x) else False, 5)
            r = s.tainted[t] = bool(hit) or any(x[0] == "call" and call_targets(s.p, x) for x in walk(t)) or any(x[0] in ("var", "arg") for x in walk(t))
        return r

    def tested(s, g, t, bb):
        k = (g.key, t, bb)
        if k not in s.memo:
            fl = s.fl
            m = fl.s.focused(g, t, lambda: fl.at_term(g, fl.analyze(g, 0), bb))
            s.memo[k] = (m == FULL or bool(m & fl.bit["g_np"]), m == FULL or bool(m & fl.bit["g_nr"]))
        return s.memo[k]

    def down(s, t, g, bb, np, nr, d=0, seen=None):
        """[(leaf term, function, np, nr)] for names that arrive in t unvetted"""
        seen = seen if seen is not None else set()
        p = s.p
        x = peel(p.resolve_up(t))
        if np and nr or d > 24 or (x, g.key, np, nr) in seen or not s.taints(x):
            return []
        seen.add((x, g.key, np, nr))
        if x[0] in ("call", "field", "arg", "var", "some", "upvar"):
            a, b = s.tested(g, strip(x), bb)
            np, nr = np or a, nr or b
            if np and nr:
                hit = []
                mentions(p, x, lambda y: hit.append(1) if leaf(y) else False, 5)
                s.vetted += len(hit)
                return []
        go = lambda u, gg=g, b2=bb, q=nr: s.down(u, gg, b2, np, q, d + 1, seen)
        out = []
        if leaf(x):
            return [(x, g, np, nr)]
        if x[0] == "some":
            return go(x[1])
        if x[0] == "field":
            return go(x[1])
        if x[0] == "agg":
            if x[1] == "closure" or x[3] in ("Err", "None"):
                return []
            for u in x[5]:
                out += go(u)
            return out
        if x[0] == "cast":
            return [y for u in x[1:] if isinstance(u, tuple) for y in go(u)]
        if x[0] == "arg":
            r = arg_terms(p, x[1], x[2])
            if r is None:
                u = closure_arg(p, x)
                return go(u) if u is not None else []
            for g3, bi, u in r:
                if subject(g3):
                    out += s.down(u, g3, bi, np, nr, d + 1, seen)
            return out
        if x[0] == "var":
            f = p.fns[x[1]]
            for bi, k, pl, ln in f.defs().get(x[2], []):
                out += s.down(f.rv_term(pl, 1) if k == "rv" else f.call_term(pl, 1, bi), f, bi, np, nr, d + 1, seen)
            return out
        if x[0] != "call":
            return []
        l = last(x[1])
        if l in ("file_name", "file_stem", "extension", "enclosed_name", "digest", "finalize", "len", "hash", "is_empty", "fingerprint", "canonicalize"):
            return []
        ts = call_targets(p, x)
        if ts:
            for h in ts:
                if not re.search(r"Path|String|str|Cow|OsStr", h.ty(0) or ""):
                    continue
                for bi, k, pl, ln in h.defs().get(0, []):
                    if k == "rv" or not h.is_async:
                        out += s.down(h.rv_term(pl, 1) if k == "rv" else h.call_term(pl, 1, bi), h, bi, np, nr, d + 1, seen)
                if "Path" in (h.ty(0) or ""):
                    for c in h.calls():
                        if re.search(r"std::path::PathBuf::(push|set_file_name)$", c.name):
                            out += s.down(c.arg(1), h, c.bb, np, nr, d + 1, seen)
            return out
        if not x[1].startswith(CUT):
            return [y for u in x[2][:1] for y in go(u)]
        q = nr or (l in ("split", "split_terminator", "rsplit") and split_slash(x)) or l in ("rsplit_once",) and False
        for u in x[2]:
            out += go(u, q=q)
        return out


def writing(ctx, fl):
    p = ctx.p
    nm = Names(p, fl)
    n, reg = 0, []
    for f in p.fns.values():
        if not subject(f) or f.key not in fl.s.near:
            continue
        for c in f.calls():
            if READ.search(c.name) and c.name.endswith("copy") and c.args and "p" in c.args[0] and re.search(TAR, f.ty(c.args[0]["p"][0])):
                reg.append(c)
            if not FSW.search(c.name):
                continue
            for i in range(1 if c.name.endswith("OpenOptions::open") else 0, min(len(c.args), 2 if last(c.name) in ("rename", "copy", "hard_link", "soft_link", "symlink", "open") else 1)):
                t = c.arg(i)
                hits = []
                mentions(p, t, lambda x: hits.append(x) if leaf(x) else False, 6)
                nm.vetted = 0
                bad = nm.down(t, f, c.bb, False, False)
                if any(x[0] == "call" and "tar::" in x[1] for x in hits) and "create_dir" not in c.name:
                    reg.append(c)
                if bad:
                    x, g, np, nr = bad[0]
                    what = "its parent steps" if not np else "a leading root"
                    src = last(x[1]) if x[0] == "call" else x[2]
                    n += 1
                    ctx.bad("inside", f"{base_fn(f.name)}:{last(c.name)}:{src}", f"{base_fn(f.name)} writes to a path with `{src}` from an archive in it, without ruling out {what} (in {base_fn(g.name)})", c.loc())
                elif hits or nm.vetted:
                    n += 1
                    ctx.ok("inside", f"{base_fn(f.name)}: names from archives vetted before {last(c.name)}", c.loc())
    ctx.need(n >= 4, "no written path built from archive names found")
    guarded(ctx, "regular", fl, list(dict.fromkeys(reg)), ["file"], lambda c: "writing out an archive entry", key=lambda c: f"{base_fn(c.fn.name)}:{last(c.name)}")
    ctx.floor("regular", 1)


def check(ctx):
    p = ctx.p
    ctx.rule("bounded", "compressed data is read through a limit, never to its own end")
    ctx.rule("exceed", "bytes read up to a limit are used only after testing whether there was more")
    ctx.rule("declared", "memory reserved or data copied by an entry's declared size was compared with a limit first")
    ctx.rule("regular", "an archive entry is written to disk only when it is a regular file")
    ctx.rule("inside", "a name from an archive or class file becomes part of a written path only after parent and root steps were ruled out")
    near = set()
    fs = {f.key for f in p.fns.values() if f.crate.split(".")[0] in ("ruby_fast_lsp", "ruby_fast_lsp_jvm_metadata")}
    near = fs
    fl = Flow(p, S(p, near))
    ctx.fl = fl
    reading(ctx, fl)
    reserving(ctx, fl)
    writing(ctx, fl)
