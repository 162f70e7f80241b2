"""Program model over the MIR facts: functions, types, terms (symbolic values), call graph."""
import re
from collections import defaultdict

TRANSPARENT = {
    "core::ops::deref::Deref::deref", "core::ops::deref::DerefMut::deref_mut", "core::clone::Clone::clone",
    "core::convert::AsRef::as_ref", "core::convert::AsMut::as_mut", "core::borrow::Borrow::borrow",
    "core::borrow::BorrowMut::borrow_mut", "core::future::into_future::IntoFuture::into_future",
    "core::option::Option::<T>::as_ref", "core::option::Option::<T>::as_mut", "core::option::Option::<T>::as_deref",
    "core::option::Option::<T>::as_deref_mut", "core::option::Option::<&T>::cloned", "core::option::Option::<&T>::copied",
    "core::option::Option::<&mut T>::cloned", "core::option::Option::<&mut T>::copied",
    "core::result::Result::<T, E>::as_ref", "core::result::Result::<T, E>::as_mut", "core::result::Result::<T, E>::as_deref",
    "core::pin::Pin::<Ptr>::new_unchecked", "core::pin::Pin::<Ptr>::new", "core::pin::Pin::<Ptr>::as_mut",
    "alloc::boxed::Box::<T>::pin", "alloc::boxed::Box::<T>::new", "alloc::sync::Arc::<T>::new",
    "alloc::borrow::ToOwned::to_owned", "core::convert::Into::into", "core::convert::From::from",
    "core::iter::traits::collect::IntoIterator::into_iter", "alloc::sync::Arc::<T, A>::as_ref",
    "core::hint::black_box", "core::mem::take", "core::convert::identity",
    "alloc::vec::Vec::<T, A>::as_slice", "alloc::string::String::as_str", "alloc::string::String::as_bytes",
    "core::str::<impl str>::as_bytes", "std::path::PathBuf::as_path", "alloc::slice::<impl [T]>::to_vec",
    "core::str::<impl str>::to_owned", "std::path::Path::to_path_buf", "alloc::slice::<impl [T]>::iter",
    "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut",
}


STD_TRAITS = ("core::", "alloc::", "std::", "serde", "serde_core::", "futures", "tokio::")


class Fn:
    __slots__ = ("key", "name", "kind", "parent", "is_async", "pub", "impl_trait", "impl_self", "file", "line",
                 "line2", "nargs", "names", "locals", "bb", "crate", "prog", "_defs", "_terms", "_succ", "_preds",
                 "children", "coro", "_short", "_calls", "_fielddefs", "_mutref")

    def __init__(s, prog, crate, c, d):
        s.prog, s.crate = prog, crate
        s.key, s.name, s.kind = d["k"], d["n"], d["kind"]
        s.parent, s.is_async, s.pub = d.get("parent"), bool(d.get("async")), d.get("pub", 0)
        s.impl_trait = d.get("impl_trait")
        s.impl_self = d.get("impl_self")
        fi, s.line, s.line2 = d["sp"]
        s.file = c["files"][fi]
        s.nargs, s.locals, s.bb = d["nargs"], d["locals"], d["bb"]
        s.names = {int(k): v for k, v in d["names"].items()}
        s._defs = s._terms = s._succ = s._preds = s._calls = s._fielddefs = s._mutref = None
        s.children, s.coro = [], None

    def __repr__(s):
        return f"<{s.name}>"

    # ---- types
    def ty(s, l):
        return s.prog.ty(s.crate, s.locals[l])

    def adt(s, l):
        return s.prog.adt(s.crate, s.locals[l])

    # ---- cfg
    def succ(s, b):
        if s._succ is None:
            s._succ = [None] * len(s.bb)
        r = s._succ[b]
        if r is None:
            r = s._succ[b] = tuple(term_succ(s.bb[b]["t"]))
        return r

    def preds(s):
        if s._preds is None:
            p = [[] for _ in s.bb]
            for b in s.reachable():
                for x in s.succ(b):
                    p[x].append(b)
            s._preds = p
        return s._preds

    def reachable(s):
        seen, st = {0}, [0]
        while st:
            b = st.pop()
            for x in s.succ(b):
                if x not in seen:
                    seen.add(x)
                    st.append(x)
        return sorted(seen)

    # ---- definitions
    def defs(s):
        """local -> list of (block, kind, payload, line) whole-local definitions."""
        if s._defs is None:
            d = defaultdict(list)
            fd = defaultdict(list)
            for bi, b in enumerate(s.bb):
                if b.get("c"):
                    continue
                for st in b["s"]:
                    if st[0] == "=":
                        if len(st[1]) == 1:
                            d[st[1][0]].append((bi, "rv", st[2], st[3]))
                        else:
                            fd[st[1][0]].append((bi, st[1], st[2], st[3]))
                t = b["t"]
                if t[0] == "call":
                    if len(t[3]) == 1:
                        d[t[3][0]].append((bi, "call", t, t[6]))
                    else:
                        fd[t[3][0]].append((bi, t[3], ["callres", t], t[6]))
            s._defs, s._fielddefs = d, fd
        return s._defs

    def mutref(s):
        """locals somebody may write through a reference"""
        if s._mutref is None:
            s._mutref = {st[2][2][0] for b in s.bb if not b.get("c") for st in b["s"]
                         if st[0] == "=" and st[2][0] == "ref" and st[2][1] == 1 and "*" not in st[2][2]}
        return s._mutref

    def fielddefs(s):
        s.defs()
        return s._fielddefs

    # ---- terms
    def term(s, l, depth=0):
        if s._terms is None:
            s._terms = {}
        r = s._terms.get(l)
        if r is not None:
            return r
        if depth > 60:
            return ("var", s.key, l)
        if 1 <= l <= s.nargs:
            r = ("arg", s.key, l)
            if s.kind in ("closure", "coroutine") and l == 1:
                r = ("env", s.key)
        else:
            ds = s.defs().get(l, [])
            if len(ds) == 1:
                s._terms[l] = ("var", s.key, l)  # cycle breaker
                bi, k, p, _ = ds[0]
                r = s.rv_term(p, depth + 1) if k == "rv" else s.call_term(p, depth + 1, bi)
                if (r[0] == "const" and isinstance(r[1], bool) or r[0] == "agg" and r[1] == "adt" and r[3] in ("None", "Some", "Ok", "Err")) and l in s.mutref():
                    r = ("var", s.key, l)
            else:
                r = ("var", s.key, l)
        s._terms[l] = r
        return r

    def call_term(s, t, depth, bi):
        f = t[1]
        if "fn" in f:
            ca = s.prog.callee(s.crate, f["fn"])
            return ("call", ca.name, tuple(s.op_term(a, depth) for a in t[2]), (s.key, bi))
        return ("call", "<indirect>", tuple([s.op_term(f, depth)] + [s.op_term(a, depth) for a in t[2]]), (s.key, bi))

    def op_term(s, o, depth=0):
        if "p" in o:
            return s.place_term(o["p"], depth)
        if "fn" in o:
            ca = s.prog.callee(s.crate, o["fn"])
            return ("fnitem", ca.key, ca.name)
        if not o:
            return ("unknown",)
        if o.get("pb"):
            return s.prom_term(o["pb"])
        if "s" in o:
            return ("const", o["s"], o.get("c"))
        if "v" in o:
            return ("const", o["v"], o.get("c"))
        if "b" in o:
            return ("const", o["b"], o.get("c"))
        return ("const", o.get("pp", o.get("raw")), o.get("c"))

    def prom_term(s, pb):
        """value of a promoted constant: its straight-line body, evaluated symbolically."""
        env = {}

        def op(o):
            if "p" in o:
                t = env.get(o["p"][0], ("unknown",))
                for e in o["p"][1:]:
                    t = proj(t, e)
                return t
            return s.op_term(o)
        for l, rv in pb:
            k = rv[0]
            if k == "use":
                t = op(rv[1])
            elif k == "ref":
                t = op({"p": rv[2]})
            elif k == "cast":
                t = op(rv[2])
            elif k == "bin":
                t = ("bin", rv[1], op(rv[2]), op(rv[3]))
            elif k == "un":
                t = ("un", rv[1], op(rv[2]))
            elif k == "agg":
                t = ("agg", rv[1], rv[2], rv[3], tuple(rv[4]), tuple(op(x) for x in rv[5]))
            elif k == "repeat":
                t = ("repeat", op(rv[1]))
            else:
                t = ("unknown",)
            env[l] = t
        return env.get(0, ("unknown",))

    def place_term(s, p, depth=0):
        t = s.term(p[0], depth)
        for e in p[1:]:
            t = proj(t, e)
        return t

    def rv_term(s, rv, depth=0):
        k = rv[0]
        if k == "use":
            return s.op_term(rv[1], depth)
        if k == "ref":
            return s.place_term(rv[2], depth)
        if k == "cast":
            return s.op_term(rv[2], depth)
        if k == "bin":
            return ("bin", rv[1], s.op_term(rv[2], depth), s.op_term(rv[3], depth))
        if k == "un":
            return ("un", rv[1], s.op_term(rv[2], depth))
        if k == "disc":
            return ("disc", s.place_term(rv[1], depth), s.prog.adt(s.crate, rv[2]))
        if k == "agg":
            return ("agg", rv[1], rv[2], rv[3], tuple(rv[4]), tuple(s.op_term(o, depth) for o in rv[5]))
        if k == "repeat":
            return ("repeat", s.op_term(rv[1], depth))
        if k == "callres":
            return s.call_term(rv[1], depth, -1)
        return ("unknown",)

    # ---- calls
    def calls(s):
        """list of Call objects on non-cleanup blocks."""
        if s._calls is None:
            r = []
            for bi, b in enumerate(s.bb):
                if b.get("c"):
                    continue
                t = b["t"]
                if t[0] == "call":
                    r.append(Call(s, bi, t))
            s._calls = r
        return s._calls

    def short(s):
        return short(s.name)


def short(n):
    n = re.sub(r"ruby_fast_lsp::", "", n)
    return n


def proj(t, e):
    if e == "*":
        return t
    k = e[0]
    if k == "f":
        if t[0] == "down":
            inner, v = t[1], t[2]
            if e[1] == "0" and v in ("Some", "Ok", "Continue", "Ready"):
                i2 = inner
                while i2[0] == "call" and i2[1] in ("core::ops::try_trait::Try::branch",):
                    i2 = i2[2][0]
                if v == "Ready" and i2[0] == "call" and i2[1] == "core::future::future::Future::poll":
                    return peel_future(i2[2][0])
                if v == "Ready":
                    return ("some", i2)
                if i2[0] == "agg" and i2[3] in ("Some", "Ok") and i2[5]:
                    return i2[5][0]
                return ("some", i2)
        if t[0] == "agg" and t[1] == "tuple":
            try:
                return t[5][int(e[1])]
            except (ValueError, IndexError):
                pass
        if t[0] == "agg" and t[1] == "adt" and e[1] in t[4]:
            return t[5][t[4].index(e[1])]
        if t[0] == "env":
            return ("upvar", t[1], e[1])
        return ("field", t, e[1], e[2])
    if k == "d":
        return ("down", t, e[1])
    if k == "i":
        return ("index", t, e[1])
    if k == "ci":
        return ("index", t, -1)
    return ("proj", t)


def peel_future(t):
    while t[0] == "call" and t[1] in ("core::pin::Pin::<Ptr>::new_unchecked", "core::pin::Pin::<Ptr>::as_mut",
                                      "core::future::into_future::IntoFuture::into_future", "alloc::boxed::Box::<T>::pin"):
        t = t[2][0]
    return t


def peel(t):
    """Strip value-preserving wrappers."""
    while True:
        if t[0] == "call" and t[1] in TRANSPARENT and t[2]:
            t = t[2][0]
        elif t[0] == "await":
            t = t[1]
        else:
            return t


class Callee:
    __slots__ = ("key", "name", "decl", "decl_key", "tr", "self_ty", "virtual", "generics", "unresolved", "self_adt")

    def __init__(s, prog, crate, d):
        s.decl, s.decl_key = d["n"], d["k"]
        s.key = d.get("rk", d["k"])
        s.tr = d.get("tr")
        s.virtual = d.get("rt") == "virtual"
        s.unresolved = bool(s.tr) and "rk" not in d and not (d["k"] in prog.fns)
        s.self_adt = prog.adt(crate, d["st"]) if "st" in d else None
        if s.unresolved and s.self_adt and not s.self_adt.startswith("@"):
            s.unresolved = False  # provided trait method on a concrete type
        s.generics = [prog.ty(crate, g) for g in d["g"]]
        s.self_ty = prog.ty(crate, d["st"]) if "st" in d else None
        # canonical name: the declared path (trait method path for trait calls, so `x.clone()` is
        # always core::clone::Clone::clone); first-party inherent fns keep their own path.
        s.name = s.decl

    def __repr__(s):
        return s.name


class Call:
    __slots__ = ("fn", "bb", "t", "callee", "args", "dest", "target", "line", "_at")

    def __init__(s, fn, bb, t):
        s.fn, s.bb, s.t = fn, bb, t
        s.callee = fn.prog.callee(fn.crate, t[1]["fn"]) if "fn" in t[1] else None
        s.args, s.dest, s.target, s.line = t[2], t[3], t[4], t[6]
        s._at = None

    @property
    def name(s):
        return s.callee.name if s.callee else "<indirect>"

    def arg(s, i):
        return s.fn.op_term(s.args[i])

    def loc(s):
        return f"{s.fn.file}:{s.line}"


def term_succ(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    if k == "yield":
        return [t[1]]
    return []


class Program:
    def __init__(s, crates):
        s.crates = crates
        s.fns = {}
        s._callees = {}
        s.adts = {}
        s.consts = {}
        s.impl_methods = defaultdict(list)  # trait method key -> [impl fn keys]
        s.trait_impls = defaultdict(list)  # trait path -> [(self type head adt, [impl fn keys])]
        for cn, c in crates.items():
            for d in c["fns"]:
                f = Fn(s, cn, c, d)
                s.fns[f.key] = f
            for a in c["adts"]:
                s.adts[a["n"]] = dict(a, crate=cn)
            for k in c["consts"]:
                s.consts[k["n"]] = k
            for im in c["impls"]:
                s.trait_impls[im["tr"]].append((c["tys"][im["st"]][1], [ik for _, ik in im["m"]]))
                for tk, ik in im["m"]:
                    s.impl_methods[tk].append(ik)
        s.by_name = defaultdict(list)
        for f in s.fns.values():
            s.by_name[f.name].append(f)
            if f.parent and f.parent in s.fns:
                p = s.fns[f.parent]
                p.children.append(f)
                if f.kind == "coroutine":
                    if p.is_async and p.coro is None:
                        p.coro = f
        s._callers = None
        s._callees_of = {}
        s._variants = {}
        s._creators = None

    def ty(s, crate, i):
        return s.crates[crate]["tys"][i][0]

    def adt(s, crate, i):
        return s.crates[crate]["tys"][i][1]

    def callee(s, crate, i):
        r = s._callees.get((crate, i))
        if r is None:
            r = s._callees[(crate, i)] = Callee(s, crate, s.crates[crate]["callees"][i])
        return r

    def variants(s, adt):
        """discriminant value -> variant name"""
        if adt in s._variants:
            return s._variants[adt]
        std = {
            "core::option::Option": {0: "None", 1: "Some"},
            "core::result::Result": {0: "Ok", 1: "Err"},
            "core::ops::control_flow::ControlFlow": {0: "Continue", 1: "Break"},
            "core::task::poll::Poll": {0: "Ready", 1: "Pending"},
            "core::cmp::Ordering": {255: "Less", 0: "Equal", 1: "Greater", (1 << 128) - 1: "Less"},
            "std::path::Component": {0: "Prefix", 1: "RootDir", 2: "CurDir", 3: "ParentDir", 4: "Normal"},
            "tar::entry_type::EntryType": dict(enumerate(["Regular", "Link", "Symlink", "Char", "Block", "Directory", "Fifo", "Continuous", "GNULongName", "GNULongLink",
                                                          "GNUSparse", "XGlobalHeader", "XHeader", "__Nonexhaustive"])),
            "alloc::borrow::Cow": {0: "Borrowed", 1: "Owned"},
        }
        r = std.get(adt)
        if r is None:
            a = s.adts.get(adt)
            r = {v[1]: v[0] for v in a["v"]} if a else {}
        s._variants[adt] = r
        return r

    def targets(s, callee):
        """first-party functions a call may run (dyn/generic trait calls: every impl)."""
        if callee is None:
            return []
        f = s.fns.get(callee.key)
        if f is not None and not callee.virtual:
            out = [f]
            return out
        if callee.tr:
            if callee.tr.startswith(STD_TRAITS):
                return []
            if f is None and not callee.unresolved and not callee.virtual:
                # external provided method on a known self type (e.g. an AST visitor's default
                # traversal): it may call back any of that type's methods for the trait.
                head = callee.self_adt
                return [s.fns[k] for a, ks in s.trait_impls.get(callee.tr, []) if a == head for k in ks if k in s.fns]
            ks = s.impl_methods.get(callee.decl_key, [])
            out = [s.fns[k] for k in ks if k in s.fns]
            d = s.fns.get(callee.decl_key)
            if d is not None:
                out.append(d)
            return out
        return [f] if f is not None else []

    def out_edges(s, f):
        """[(kind, target fn, site)] kinds: call, make (closure/coroutine created), ref (fn item used as value)"""
        r = s._callees_of.get(f.key)
        if r is not None:
            return r
        r = []
        for bi, b in enumerate(f.bb):
            for st in b["s"]:
                if st[0] == "=":
                    rv = st[2]
                    if rv[0] == "agg" and rv[1] in ("closure", "coroutine"):
                        g = s.fns.get(rv[2])
                        if g:
                            r.append(("make", g, (bi, st[3])))
                    for o in ops_of(rv):
                        if "fn" in o:
                            for g in s.targets(s.callee(f.crate, o["fn"])):
                                r.append(("ref", g, (bi, st[3])))
            t = b["t"]
            if t[0] == "call":
                if "fn" in t[1]:
                    for g in s.targets(s.callee(f.crate, t[1]["fn"])):
                        r.append(("call", g, (bi, t[6])))
                for o in t[2]:
                    if "fn" in o:
                        for g in s.targets(s.callee(f.crate, o["fn"])):
                            r.append(("ref", g, (bi, t[6])))
            elif t[0] == "drop":
                pass
        s._callees_of[f.key] = r
        return r

    def callers(s):
        if s._callers is None:
            c = defaultdict(list)
            for f in s.fns.values():
                for k, g, site in s.out_edges(f):
                    c[g.key].append((k, f, site))
            s._callers = c
        return s._callers

    def reach(s, roots, stop=lambda f: False, kinds=("call", "make", "ref")):
        """forward reachability; returns {key: (parent key, site)}"""
        seen = {}
        st = []
        for f in roots:
            if f.key not in seen:
                seen[f.key] = None
                st.append(f)
        while st:
            f = st.pop()
            if stop(f):
                continue
            for k, g, site in s.out_edges(f):
                if k in kinds and g.key not in seen:
                    seen[g.key] = (f.key, site)
                    st.append(g)
        return seen

    def path_to(s, seen, key):
        out = []
        while key is not None:
            out.append(s.fns[key].name)
            p = seen[key]
            key = p[0] if p else None
        return list(reversed(out))

    def find(s, pat, kind=None):
        rx = re.compile(pat)
        return [f for f in s.fns.values() if rx.search(f.name) and (kind is None or f.kind == kind)]

    def fn(s, name):
        r = [f for f in s.by_name.get(name, [])]
        return r[0] if r else None

    def creator(s, key):
        """(parent fn, block, agg operand list, names) where closure/coroutine `key` is built."""
        if s._creators is None:
            m = {}
            for f in s.fns.values():
                for bi, b in enumerate(f.bb):
                    for st in b["s"]:
                        if st[0] == "=" and st[2][0] == "agg" and st[2][1] in ("closure", "coroutine"):
                            m.setdefault(st[2][2], (f, bi, st[2]))
            s._creators = m
        return s._creators.get(key)

    def resolve_up(s, t, depth=0):
        """Rewrite upvar terms to the creating function's terms (recursively)."""
        if depth > 12 or not isinstance(t, tuple):
            return t
        if t and t[0] == "upvar":
            c = s.creator(t[1])
            if c:
                f, bi, agg = c
                if t[2] in agg[4]:
                    return s.resolve_up(f.op_term(agg[5][agg[4].index(t[2])]), depth + 1)
            return t
        if t and t[0] in ("field", "down", "some", "index", "proj", "await", "un", "disc", "call", "bin", "agg"):
            return tuple(s.resolve_up(x, depth + 1) if isinstance(x, tuple) and x and isinstance(x[0], str)
                         else (tuple(s.resolve_up(y, depth + 1) if isinstance(y, tuple) else y for y in x)
                               if isinstance(x, tuple) else x) for x in t)
        return t


def ops_of(rv):
    k = rv[0]
    if k in ("use", "repeat"):
        return [rv[1]]
    if k == "cast":
        return [rv[2]]
    if k == "bin":
        return [rv[2], rv[3]]
    if k == "un":
        return [rv[2]]
    if k == "agg":
        return rv[5]
    return []


def show(t, depth=0):
    """readable rendering of a term"""
    if depth > 8:
        return "…"
    k = t[0]
    d = depth + 1
    if k == "arg":
        return f"arg{t[2]}"
    if k == "env":
        return "env"
    if k == "upvar":
        return t[2]
    if k == "var":
        return f"v{t[2]}"
    if k == "const":
        return repr(t[2] or t[1])
    if k == "fnitem":
        return t[2].split("::")[-1]
    if k == "field":
        return f"{show(t[1], d)}.{t[2]}"
    if k == "down":
        return f"({show(t[1], d)} as {t[2]})"
    if k == "some":
        return f"{show(t[1], d)}?"
    if k == "index":
        return f"{show(t[1], d)}[]"
    if k == "call":
        return f"{'::'.join(t[1].split('::')[-2:])}({', '.join(show(a, d) for a in t[2])})"
    if k == "bin":
        return f"({show(t[2], d)} {t[1]} {show(t[3], d)})"
    if k == "un":
        return f"{t[1]}({show(t[2], d)})"
    if k == "disc":
        return f"disc({show(t[1], d)})"
    if k == "agg":
        return f"{t[2] or t[1]}::{t[3]}{{{', '.join((n + ': ' if n else '') + show(x, d) for n, x in zip(list(t[4]) + [''] * len(t[5]), t[5]))}}}"
    return k


def walk(t):
    """all subterms"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
            continue
        yield x
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], str):
                    st.append(y)
                else:
                    for z in y:
                        if isinstance(z, tuple):
                            st.append(z)
