"""Which extension code may load at all: project packages need trust, every package is verified before it is instantiated."""
import re
from core import base_fn
from flow import Spec, Flow, FULL, last
from guard import guarded, guarded_at, roots_of, agg_sites
from ir import peel, walk, show
from vals import mentions, must_mention, origins, const_val, denotes, call_targets, ret_terms, length_of

LIB = "ruby_fast_lsp.lib"
MAN = ["m_id", "m_abi", "m_runtime", "m_server", "m_sum", "m_caps", "m_perms", "m_cmds", "m_cmd_cap", "m_cmd_perm", "m_cmd_parent", "m_cmd_root", "m_cmd_prefix", "m_globs", "m_glob_cap", "m_glob_path"]

CMD = ["m_cmd_parent", "m_cmd_root", "m_cmd_prefix"]


def infile(fn):
    return fn.crate == LIB and fn.file.startswith("src/extensions")


def mfield(t):
    t = peel(t)
    while True:
        if t[0] == "some":
            t = peel(t[1])
        elif t[0] == "call" and t[2] and last(t[1]) in ("trim", "as_str", "as_deref", "as_ref", "iter", "chars", "bytes", "new", "components", "split", "as_bytes", "len",
                                                        "clone", "to_string", "as_slice", "next"):
            t = peel(t[2][0])
        elif t[0] == "field" and (t[3] or "").rsplit("::", 1)[-1].startswith("ExtensionManifest") or t[0] == "field" and "Manifest" in (t[3] or ""):
            return t[2]
        else:
            return None


class S(Spec):
    atoms = MAN + ["trusted", "projext", "not_opts", "s_none", "capeq", "permeq", "v_parent", "v_root", "v_prefix", "p_path", "ln", "lu",
                   "abi", "names", "uniq", "wasm_len", "g_id1", "g_id2", "g_srv", "g_list1", "g_list2", "g_glob", "dig", "vd_parent", "vd_root", "vd_prefix"]
    forall = ["m_cmd_parent", "m_cmd_root", "m_cmd_prefix", "g_list1", "g_list2", "g_glob", "v_parent", "v_root", "v_prefix", "m_cmds", "m_globs", "m_glob_path"]
    text = {"trusted": "the workspace being trusted", "projext": "project extensions being enabled", "not_opts": "ruling out a bare module named by client options",
            "m_id": "a valid manifest id", "m_abi": "the manifest's ABI version matching the host", "m_runtime": "a supported runtime", "m_server": "the required server version matching",
            "m_sum": "the manifest checksum matching the module bytes", "m_caps": "a well-formed capability list", "m_perms": "a well-formed permission list",
            "m_cmds": "a well-formed command list", "m_cmd_cap": "commands requiring the `process` capability", "m_cmd_perm": "commands requiring `process.exec`",
            "m_cmd_parent": "every command being free of `..`", "m_cmd_root": "no command being rooted", "m_cmd_prefix": "no command carrying a path prefix", "m_globs": "a well-formed watch list", "m_glob_cap": "watching requiring the `watching` capability",
            "m_glob_path": "every watch glob staying inside the workspace", "abi": "the guest's own ABI version matching the host", "names": "the guest's call names matching the manifest",
            "wasm_len": "the module size being within the limit"}

    def __init__(s, p):
        s.p = p
        s.memo = {}

    def prefilter(s, f):
        return infile(f)

    def den(s, t, name, owner):
        k = (t, name)
        if k not in s.memo:
            s.memo[k] = denotes(s.p, t, name, owner)
        return s.memo[k]

    def masked(s, c, o, atom):
        if c is None:
            return False
        m = s.flow.ret_mask(c, o)
        return m == FULL or bool(m & s.flow.bit[atom])

    def cond(s, fn, t, o):
        if not infile(fn):
            return ()
        r = []
        fl, p = s.flow, s.p
        if o is True and t[0] in ("field", "arg", "upvar", "var"):
            if s.den(t, "workspace_trusted", "RubyFastLspConfig"):
                r.append("trusted")
            if s.den(t, "project_extensions_enabled", "RubyFastLspConfig"):
                r.append("projext")
        x = peel(t)
        if isinstance(o, str):
            v = o.lstrip("!")
            if v in ("Environment", "ProjectLocal", "InitializationOptions") and s.den(t, "source", "ConfiguredExtensionPath"):
                if o == "!InitializationOptions" or o in ("Environment", "ProjectLocal"):
                    r.append("not_opts")
            if v in ("Prefix", "RootDir", "CurDir", "ParentDir", "Normal"):
                for n, a in (("ParentDir", "v_parent"), ("RootDir", "v_root"), ("Prefix", "v_prefix")):
                    if o == "!" + n or (not o.startswith("!") and o != n):
                        r.append(a)
                        if any(z[0] == "call" and last(z[1]) == "components" for z in walk(s.p.resolve_up(t))) and s.cmd_item(fn, t):
                            r.append("m_cmd_" + a[2:])
            f = mfield(t) if x[0] == "field" or x[0] == "some" else None
            if o == "None":
                if x[0] == "field" and x[2] == "manifest" and (x[3] or "").endswith("ExtensionPackage"):
                    r += MAN + ["names"]
                r += {"checksum_sha256": ["m_sum"], "server_version": ["m_server"], "process": ["m_cmds", "m_cmd_cap", "m_cmd_perm"] + CMD,
                      "watching": ["m_globs", "m_glob_cap", "m_glob_path"], "indexing": ["names"]}.get(f, [])
        if t[0] != "call":
            return r
        n, a = t[1], t[2]
        l = last(n)
        # generic facts of helpers
        if l == "is_empty" and o is False and a and any(z[0] == "call" and last(z[1]) == "trim" for z in walk(a[0])):
            r += ["g_id1", "g_list1"]
        if l == "any" and o is False and len(a) > 1 and any(z[0] == "fnitem" and "is_whitespace" in z[2] or z[0] == "agg" and z[1] == "closure" and "is_whitespace" in closure_calls(p, z[2])
                                                             for z in walk(a[1])):
            r.append("g_id2")
        if l == "contains" and o is False and len(a) > 1 and "is_whitespace" in show(a[1]):
            r.append("g_id2")
        if l == "insert" and o is True and "BTreeSet" in n or l == "insert" and o is True and "HashSet" in n:
            r += ["g_list2"]
        if l == "matches" and o is True and "semver" in n:
            if s.version_ok(a):
                r.append("g_srv")
        if l in ("any", "contains") and o is True and a:
            c = fl.closure_of(a[1]) if len(a) > 1 else None
            f = mfield(a[0])
            for fld, want, atoms in (("capabilities", "process", ["m_cmd_cap"]), ("capabilities", "watching", ["m_glob_cap"]), ("permissions", "process.exec", ["m_cmd_perm"])):
                if f == fld and (c is not None and eq_const(p, fl, c, want) or l == "contains" and any(z[0] == "const" and z[1] == want for z in walk(a[1]))):
                    r += atoms
        if (l == "any" and o is False or l == "all" and o is True) and a:
            c = fl.closure_of(a[1]) if len(a) > 1 else None
            if any(z[0] == "call" and last(z[1]) == "components" for z in walk(a[0])) and fl.covers(fn, a[0]) and c is not None:
                if all(s.masked(c, o, v) for v in ("v_parent", "v_root", "v_prefix")):
                    r.append("p_path")
                    if s.cmd_item(fn, a[0]):
                        r += CMD
                    if s.glob_item(fn, a[0]):
                        r.append("g_glob")
        if l == "contains" and o is True and len(a) > 1 and mfield(a[1]) == "runtime":
            vs = [z[1] for y in origins(p, a[0]) for z in walk(y) if z[0] == "const" and isinstance(z[1], str)]
            if vs and all(v in ("wasm", "mruby-wasm") for v in vs):
                r.append("m_runtime")
        if l == "eq_ignore_ascii_case" and o is True and any(mfield(z) == "checksum_sha256" for z in a) and any(
                mentions(p, z, lambda y: y[0] == "call" and last(y[1]) == "digest" and "sha2" in str(y) or y[0] == "call" and last(y[1]) in ("digest", "finalize")) for z in a):
            r.append("m_sum")
        # helper calls on manifest fields
        ts = call_targets(p, t)
        if ts and o in ("Ok", True, False):
            for z in a:
                f = mfield(z)
                if f is None:
                    continue
                def est(*atoms):
                    return all(all(s.masked(g, o, at) for at in atoms) for g in ts)
                if f == "id" and est("g_id1", "g_id2"):
                    r.append("m_id")
                if f == "server_version" and est("g_srv"):
                    r.append("m_server")
                if f == "capabilities" and est("g_list1", "g_list2"):
                    r.append("m_caps")
                if f == "permissions" and est("g_list1", "g_list2"):
                    r.append("m_perms")
                if f == "commands" and est("g_list1", "g_list2"):
                    r.append("m_cmds")
                if f == "globs" and est("g_list1", "g_list2"):
                    r.append("m_globs")
                if f == "globs" and est("g_glob"):
                    r.append("m_glob_path")
                if f == "runtime" and est("m_runtime"):
                    r.append("m_runtime")
            if any(s.cmd_item(fn, z) for z in a) and all(s.masked(g, o, "p_path") for g in ts):
                r += CMD
        return r

    def version_ok(s, a):
        def env(x):
            return x[0] == "const" and isinstance(x[1], str) and re.match(r"^\d+\.\d+\.\d+", x[1])
        return len(a) > 1 and mentions(s.p, a[1], lambda x: bool(env(x))) and not mentions(s.p, a[0], lambda x: bool(env(x)))

    def cmd_item(s, fn, t):
        """an element of the manifest's command list"""
        t = s.p.resolve_up(t)
        return any(mfield(x) == "commands" for o in origins(s.p, t) for x in walk(o))

    def glob_item(s, fn, t):
        os_ = [x for o in origins(s.p, s.p.resolve_up(t), 1) for x in walk(o)]
        return any(mfield(x) == "globs" for x in os_) or any(x[0] == "arg" and "[alloc::string::String]" in s.p.fns[x[1]].ty(x[2]) for x in os_)

    def cmp(s, fn, op, a, b):
        if not infile(fn):
            return ()
        r = []
        p = s.p
        if op == "Eq":
            x = peel(a)
            f = mfield(a) if x[0] == "field" else None
            bc = peel(b)
            host = bc[0] == "const" and str(bc[2] or "").endswith("ABI_VERSION")
            if f == "abi_version" and host:
                r.append("m_abi")
            if host and f is None and mentions(p, a, lambda z: z[0] == "call" and last(z[1]) == "abi_version"):
                r.append("abi")
            for fld, want, at in (("capabilities", "process", "m_cmd_cap"), ("capabilities", "watching", "m_glob_cap"), ("permissions", "process.exec", "m_cmd_perm")):
                if mfield(a) == fld and const_val(b) == want:
                    r.append(at)
            if mfield(a) == "runtime" and const_val(b) in ("wasm", "mruby-wasm"):
                r.append("m_runtime")
            if mfield(a) == "checksum_sha256" and mentions(p, b, lambda y: y[0] == "call" and last(y[1]) in ("digest", "finalize")):
                r.append("m_sum")
            if mentions(p, a, lambda z: z[0] == "field" and z[2] == "call_names" and "Manifest" in (z[3] or "")) and not mentions(
                    p, b, lambda z: z[0] == "field" and z[2] == "call_names") and mentions(p, b, lambda z: z[0] == "call" and last(z[1]) == "indexed_call_names" or z[0] == "field" and z[2] == "indexed_call_names", 8):
                r.append("names")
        if op in ("Le", "Lt") and isinstance(const_val(b), int) and 1024 < const_val(b) <= 64 * 1024 * 1024:
            if length_of(p, unconv(a)) is not None and "Metadata" not in unconv(a)[1]:
                r.append("wasm_len")
        return r

    def quant(s, fn, ty):
        if not infile(fn):
            return ()
        if re.search(r"(&(\[|alloc::vec::Vec<)|slice::iter::Iter<.*)alloc::string::String", ty):
            return ["g_list1", "g_list2", "g_glob", "m_cmds"] + CMD
        if "std::path::Components" in ty:
            return CMD + ["v_parent", "v_root", "v_prefix"]
        return ()


def unconv(t):
    t = peel(t)
    while t[0] == "some" or t[0] == "call" and t[2] and last(t[1]) in ("try_from", "try_into", "map_err", "expect", "unwrap", "ok_or_else", "context"):
        t = peel(t[1] if t[0] == "some" else t[2][0])
    return t


def closure_calls(p, k):
    f = p.fns.get(k)
    return " ".join(c.name for c in f.calls()) if f else ""


def eq_const(p, fl, c, want):
    """the closure returns true only when its item equals `want`"""
    rs = ret_terms(p, c)
    return bool(rs) and all(r[0] == "call" and r[1].endswith("PartialEq::eq") and any(const_val(x) == want for x in r[2]) for r in rs)


def check(ctx):
    p = ctx.p
    ctx.rule("project", "packages found inside a workspace are considered only when the workspace is trusted and project extensions are enabled")
    ctx.rule("direct", "a bare module without a manifest is never accepted from client-supplied options")
    ctx.rule("verify", "a module is instantiated only after its manifest (identity, ABI, runtime, server version, checksum, lists, commands, globs) was verified")
    ctx.rule("register", "a loaded extension is registered only after its own ABI version and call names were checked against host and manifest")
    ctx.rule("size", "module bytes are read with a hard limit")
    ctx.rule("default", "trust is off unless the client grants it")
    fl = Flow(p, S(p))
    ctx.fl = fl
    sites = [(f, bi, st[3], "project-local package path") for f, bi, st, d in agg_sites(p, r"::ExtensionPathSource$", "ProjectLocal") if infile(f) and used_as_source(p, f, st)]
    sites += [(f, bi, st[3], "project-local package path") for f, bi, st, d in agg_sites(p, r"::ConfiguredExtensionPath$") if infile(f)
              and d.get("source", ("x",))[0] == "agg" and d["source"][3] == "ProjectLocal"]
    ctx.need(sites, "no project-local package discovery found")
    guarded_at(ctx, "project", fl, list(dict.fromkeys(sites)), ["trusted", "projext"], "a package found inside the workspace is used")
    disc = [c for f in p.fns.values() if infile(f) for c in f.calls() if c.name.startswith("walkdir::WalkDir::new") and mentions(
        p, c.arg(0), lambda x: x[0] == "const" and x[1] in (".ruby-fast-lsp/extensions", "ruby_fast_lsp"))]
    guarded(ctx, "project", fl, disc, ["trusted", "projext"], "searching the workspace for packages")
    pk = []
    for f, bi, st, d in agg_sites(p, r"::ExtensionPackage$"):
        m = peel(d.get("manifest", ("x",)))
        if m[0] == "agg" and m[3] == "Some":
            ctx.ok("direct", f"{base_fn(f.name)}: package with manifest", f"{f.file}:{st[3]}")
        else:
            pk.append((f, bi, st[3], "package without manifest"))
    guarded_at(ctx, "direct", fl, pk, ["not_opts"], "a module without manifest is accepted")
    ctx.floor("direct", 2)
    inst = [c for f in p.fns.values() if infile(f) for c in f.calls() if re.search(r"extension_wasm_host::.*WasmExtension::from_(compiled|bytes)", c.name)
            and any("ExtensionPackage" in l for l in [f.ty(i) for i in range(1, f.nargs + 1)] or [""])]
    if not inst:
        inst = [c for f in p.fns.values() if infile(f) for c in f.calls() if re.search(r"extension_wasm_host::.*WasmExtension::from_(compiled|bytes)", c.name)]
    ctx.need(inst, "no guest instantiation found")
    guarded(ctx, "verify", fl, inst, MAN, "instantiating an extension module")
    reg = [(f, bi, st[3], "loaded extension") for f, bi, st, d in agg_sites(p, r"::LoadedWasmExtension$") if infile(f)]
    ctx.need(reg, "no loaded extension construction found")
    guarded_at(ctx, "register", fl, reg, ["abi", "names"], "an extension is registered")
    size(ctx, p, fl)
    for f in p.fns.values():
        if f.impl_trait == "core::default::Default" and f.impl_self and "RubyFastLspConfig" in str(f.impl_self) or f.name.endswith("RubyFastLspConfig as core::default::Default>::default"):
            for bi, b in enumerate(f.bb):
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and str(st[2][2]).endswith("RubyFastLspConfig"):
                        d = dict(zip(st[2][4], [f.op_term(o) for o in st[2][5]]))
                        v = const_val(d.get("workspace_trusted", ("x",)))
                        if v is False:
                            ctx.ok("default", "workspace_trusted defaults to false", f"{f.file}:{st[3]}")
                        else:
                            ctx.bad("default", "workspace_trusted", "trust is not off by default", f"{f.file}:{st[3]}")
    if not ctx.obl["default"]:
        for f, bi, st, d in agg_sites(p, r"::RubyFastLspConfig$"):
            v = const_val(d.get("workspace_trusted", ("x",)))
            if f.name.endswith("default"):
                (ctx.ok("default", "workspace_trusted defaults to false", f"{f.file}:{st[3]}") if v is False else
                 ctx.bad("default", "workspace_trusted", "trust is not off by default", f"{f.file}:{st[3]}"))
    ctx.need(ctx.obl["default"], "configuration default not found")


def used_as_source(p, f, st):
    """the variant value flows into a path's `source` (not into a comparison)."""
    l = st[1][0]
    for b in f.bb:
        for s2 in b["s"]:
            if s2[0] == "=" and s2[2][0] == "agg" and str(s2[2][2]).endswith("ConfiguredExtensionPath") and any("p" in o and o["p"][0] == l for o in s2[2][5]):
                return True
    return False


def size(ctx, p, fl):
    n = 0
    for f, bi, st, d in agg_sites(p, r"::ExtensionPackage$"):
        w = d.get("wasm_bytes")
        if w is None:
            continue
        for o in origins(p, w):
            for x in walk(o):
                for g in call_targets(p, x) if x[0] == "call" else ():
                    if not infile(g) or not re.search(r"\[u8\]|Vec<u8", g.ty(0)):
                        continue
                    n += 1
                    m = fl.ret_mask(g, "Ok")
                    reads = [c for c in g.calls() if re.search(r"Read::read_to_end$|fs::read$|read_to_string$", c.name)]
                    lim = all(any(y[0] == "call" and last(y[1]) == "take" for y in walk(c.arg(0))) for c in reads) and reads
                    if lim and (m == FULL or m & fl.bit["wasm_len"]):
                        ctx.ok("size", f"{base_fn(g.name)} limits the module it reads", f"{g.file}:{g.line}")
                    else:
                        ctx.bad("size", f"{base_fn(g.name)}", f"{base_fn(g.name)} returns module bytes that were not limited while reading", f"{g.file}:{g.line}")
    ctx.need(n, "module bytes provenance not found")
