"""Extension output is applied only after complete validation against the emitting extension and the current call."""
import re
from core import base_fn
from flow import Spec, Flow, FULL, last
from guard import guarded, guarded_at, roots_of
from ir import peel, walk, show
from vals import mentions, must_mention, origins, const_val, denotes, call_targets, ret_terms

API = "ruby_fast_lsp_extension_api::"
LIB = "ruby_fast_lsp.lib"
VARIANTS = {
    "DefineNamespace": ("DefineNamespacePatch", {"namespace": "ns", "location": "range"}, ["namespace"]),
    "DefineConstant": ("DefineConstantPatch", {"namespace": "ns", "name": "const", "location": "range", "ruby_type": "type"}, []),
    "AddReference": ("ReferencePatch", {"target": "ref", "location": "range"}, []),
    "DefineMethod": ("DefineMethodPatch", {"name": "method", "namespace": "ns", "owner_target": "target", "location": "range",
                                           "return_type": "type"}, []),
    "SetSuperclass": ("SetSuperclassPatch", {"namespace": "ns", "superclass": "ns", "location": "range"}, ["namespace", "superclass"]),
    "ApplyMixin": ("ApplyMixinPatch", {"namespace": "ns", "owner_target": "target", "mixin_target": "target", "mixin": "ns",
                                       "location": "range"}, []),
    "ConnectExecutionContext": ("ConnectExecutionContextPatch", {"template": "target", "application": "target", "location": "range"}, []),
}
OWNER = {v[0]: k for k, v in VARIANTS.items()}
PROJ = {"DefineMethod": ["owner_target"], "ApplyMixin": ["owner_target", "mixin_target"], "ConnectExecutionContext": ["template", "application"]}
# generic facts a validator must establish about its argument before its Ok counts for a field of that kind
GENERIC = {"ns": ["g_const"], "const": ["g_const"], "method": ["g_method"], "range": ["g_range"], "type": ["g_type"],
           "target": ["t_ns", "t_nsne", "t_gen", "t_proj"], "ref": ["r_ns", "r_cns", "r_cname", "r_mns", "r_mname"]}
TVAR = {"Namespace": ["t_ns", "t_nsne"], "GeneratedOwner": ["t_gen"], "ProjectGeneratedOwner": ["t_proj"]}
RVAR = {"Namespace": ["r_ns"], "Constant": ["r_cns", "r_cname"], "Method": ["r_mns", "r_mname"]}


def a_field(v, f):
    return f"{v}.{f}"


PAY = {v: [a_field(v, f) for f in d[1]] + [f"{v}.{f}!empty" for f in d[2]] for v, d in VARIANTS.items()}
PAY["DefineMethod"] += ["DefineMethod.params", "DefineMethod.exclusive"]
PAY["ApplyMixin"] += ["ApplyMixin.exclusive"]
PAY["SetSuperclass"] += ["decl_ns", "decl_class"]
NP = {v: [f"np:{v}.{f}" for f in fs] for v, fs in PROJ.items()}
ALLPAY = [a for v in PAY.values() for a in v]
ALLNP = [a for v in NP.values() for a in v]
CTX = ["c_prov", "c_call", "c_block", "c_dup", "c_gid", "c_proj", "c_parent", "c_recv", "c_owner"]
OWN = ["c_dup", "c_gid", "c_proj", "c_parent"]


def fld(t):
    """(owner short name, field) of a term that denotes a guest-output field."""
    t = peel(t)
    while t[0] == "some" or (t[0] == "call" and t[2] and last(t[1]) in ("ok_or", "ok_or_else", "context", "with_context", "expect", "unwrap")):
        t = peel(t[1] if t[0] == "some" else t[2][0])
    if t[0] == "field" and t[3] and t[3].startswith(API):
        return t[3][len(API):], t[2], t
    return None


class S(Spec):
    atoms = (["prov", "rprov", "cap", "capeq", "loaded", "applies", "c_count", "g_const", "g_method", "g_range", "g_type"] + sum(TVAR.values(), [])
             + sum(RVAR.values(), []) + ["tnp"] + ALLPAY + ALLNP + CTX)
    text = {"prov": "checking that every index patch names the emitting extension", "rprov": "checking that every response patch names the emitting extension",
            "cap": "the extension having declared the capability in its manifest", "loaded": "the extension being loaded (not disabled)",
            "applies": "the extension applying to this source",
            "c_count": "limiting execution contexts to one per call", "c_prov": "checking the context's provenance", "c_call": "matching the context's call range with the call",
            "c_block": "matching the context's block range with the block", "c_dup": "rejecting duplicate generated owners", "c_gid": "validating generated owner ids",
            "c_proj": "requiring a project for project-scoped owners", "c_parent": "validating generated owner parents", "c_recv": "validating the implicit receiver",
            "c_owner": "validating the method-definition owner"}
    forall = ["prov", "rprov", "g_const", "DefineMethod.params", "decl_ns", "decl_class"] + ALLPAY + ALLNP + CTX

    def __init__(s, p):
        s.p = p
        s.memo = {}

    def prefilter(s, f):
        return f.crate == LIB and f.file.startswith("src/extensions")

    def opaque(s, f):
        return False

    # -- helpers
    def ext_id(s, t):
        k = ("id", t)
        if k not in s.memo:
            s.memo[k] = denotes(s.p, t, "extension_id", "PatchSource")
        return s.memo[k]

    def expected_id(s, t):
        k = ("exp", t)
        if k not in s.memo:
            def pr(x):
                return (x[0] == "field" and x[2] == "id" and (x[3] or "").endswith("ExtensionMetadata")) or (
                    x[0] == "call" and last(x[1]) == "id" and "extension" in x[1].lower())
            s.memo[k] = must_mention(s.p, t, pr)
        return s.memo[k]

    def project_opt(s, t):
        t = peel(t)
        if t[0] == "field" and t[2] in ("extension_project_context", "project"):
            return True
        if t[0] in ("arg", "upvar", "var"):
            k = ("proj", t)
            if k not in s.memo:
                s.memo[k] = all(o[0] == "field" and o[2] in ("extension_project_context", "project") for o in map(peel, origins(s.p, t)))
            return s.memo[k]
        return False

    def established(s, t, kind, o):
        """the callee's Ok (or its being the constructor itself) establishes what a field of this kind needs."""
        need = GENERIC[kind]
        n = t[1]
        if kind == "const" and n.endswith("RubyConstant::new") or kind == "method" and n.endswith("RubyMethod::new"):
            return True
        ts = call_targets(s.p, t)
        if not ts:
            return False
        if kind == "type":
            return all(bounded_type(s.p, g) for g in ts)
        fl = s.flow
        for g in ts:
            m = fl.ret_mask(g, o)
            if m == FULL:
                continue
            if any(not m & fl.bit[a] for a in need):
                return False
        return True

    # -- atoms
    def cond(s, fn, t, o):
        if not prefilter_ok(fn):
            return ()
        r = []
        p = s.p
        # variants
        if isinstance(o, str) and not o.startswith("!"):
            if o in VARIANTS and is_item(t):
                for v in VARIANTS:
                    if v != o:
                        r += PAY[v] + NP.get(v, [])
            if o in TVAR:
                for v in TVAR:
                    if v != o:
                        r += TVAR[v]
                if o != "ProjectGeneratedOwner":
                    r.append("tnp")
            if o in RVAR:
                for v in RVAR:
                    if v != o:
                        r += RVAR[v]
        f = fld(t)
        if f and o == "None":
            ow, name, _ = f
            if ow in OWNER and name in VARIANTS[OWNER[ow]][1] and VARIANTS[OWNER[ow]][1][name] in ("target", "type"):
                r.append(a_field(OWNER[ow], name))
                if f"np:{OWNER[ow]}.{name}" in ALLNP:
                    r.append(f"np:{OWNER[ow]}.{name}")
            if ow == "GeneratedOwnerPatch" and name == "parent":
                r.append("c_parent")
            if ow == "DefineMethodPatch" and name in ("return_type", "return_type_source"):
                r.append("DefineMethod.exclusive")
        if f and o == "Some" and f[0] == "ApplyMixinPatch" and f[1] == "mixin_target":
            r.append("ApplyMixin.exclusive")
        if f and o in ("Source", "!Project") and f[1] == "scope":
            r.append("c_proj")
        if o == "Some" and s.project_opt(t):
            r += ALLNP + ["c_proj"]
        if o is True and t[0] in ("arg", "upvar") and prefilter_ok(fn):
            os_ = origins(p, t)
            if os_ and all(x[0] == "call" and last(x[1]) == "is_some" and s.project_opt(x[2][0]) for x in os_):
                r += ALLNP + ["c_proj"]
        if t[0] == "call":
            n = t[1]
            l = last(n)
            if l == "is_empty" and isinstance(o, bool) and t[2]:
                g = fld(t[2][0])
                if g:
                    ow, name, tt = g
                    if ow in OWNER:
                        v = OWNER[ow]
                        if o is False and f"{v}.{name}!empty" in PAY[v]:
                            r.append(f"{v}.{name}!empty")
                        if ow == "ApplyMixinPatch" and name == "mixin":
                            r.append("ApplyMixin.exclusive" if o is False else "ApplyMixin.mixin")
                    if ow == "ExecutionContextTarget" and name == "namespace" and o is False:
                        r.append("t_nsne")
                    if ow == "MethodParamPatch" and name == "name" and o is False:
                        r.append("DefineMethod.params")
            if o == "Ok":
                if n.endswith("RubyConstant::new"):
                    r.append("g_const")
                    g = fld(t[2][0])
                    if g and g[0] == "ReferenceTarget" and g[1] == "name":
                        r.append("r_cname")
                if n.endswith("RubyMethod::new"):
                    r.append("g_method")
                    g = fld(t[2][0])
                    if g and g[0] == "ReferenceTarget" and g[1] == "name":
                        r.append("r_mname")
                if n.endswith("GeneratedOwnerId::new"):
                    for a in t[2]:
                        g = fld(a)
                        if g and g[0] == "ExecutionContextTarget" and g[1] == "local_id":
                            r += TVAR.get(down_variant(g[2]) or "", [])
                        if g and g[0] == "GeneratedOwnerPatch" and g[1] == "local_id":
                            r.append("c_gid")
                for a in t[2]:
                    g = fld(a)
                    if not g:
                        continue
                    ow, name, tt = g
                    if ow in OWNER and name in VARIANTS[OWNER[ow]][1]:
                        if s.established(t, VARIANTS[OWNER[ow]][1][name], o):
                            r.append(a_field(OWNER[ow], name))
                    if ow == "ExecutionContextTarget" and name == "namespace" and s.established(t, "ns", o):
                        r.append("t_ns")
                    if ow == "ReferenceTarget" and name in ("namespace", "0") and s.established(t, "ns", o):
                        v = down_variant(tt)
                        r += {"Namespace": ["r_ns"], "Constant": ["r_cns"], "Method": ["r_mns"]}.get(v, [])
                    if ow == "GeneratedOwnerPatch" and name == "parent" and s.established(t, "target", o):
                        r.append("c_parent")
                    if ow == "BlockExecutionContextPatch" and name == "implicit_receiver" and s.established(t, "target", o):
                        r.append("c_recv")
                    if ow == "BlockExecutionContextPatch" and name == "method_definition_owner" and s.established(t, "target", o):
                        r.append("c_owner")
            if l == "contains" and o is True and len(t[2]) > 1:
                # membership of the declared (scope, id) pairs
                tup = peel(t[2][1])
                if tup[0] == "agg" and tup[1] == "tuple":
                    scope = next((x[3] for x in map(peel, tup[5]) if x[0] == "agg" and str(x[2]).endswith("GeneratedOwnerScope")), None)
                    g = next((fld(x) for x in tup[5] if fld(x)), None)
                    if g and g[0] == "ExecutionContextTarget":
                        v = down_variant(g[2])
                        if (v, scope) in (("GeneratedOwner", "Source"), ("ProjectGeneratedOwner", "Project")):
                            r += TVAR[v]
            if l == "insert" and o is True and len(t[2]) > 1:
                if any(x[0] == "field" and x[2] == "local_id" and (x[3] or "").endswith("GeneratedOwnerPatch") for x in walk(t[2][1])):
                    r.append("c_dup")
            if o is False:
                # target predicate over a payload field: not a project-scoped owner
                subj, pred = None, None
                if l == "is_some_and" and len(t[2]) > 1:
                    subj, pred = fld(t[2][0]), s.flow.closure_of(t[2][1])
                elif t[2]:
                    ts = call_targets(p, t)
                    subj, pred = fld(t[2][0]), (ts[0] if len(ts) == 1 else None)
                if subj and pred is not None and subj[0] in OWNER:
                    a = f"np:{OWNER[subj[0]]}.{subj[1]}"
                    m = s.flow.ret_mask(pred, False)
                    if a in ALLNP and (m == FULL or m & s.flow.bit["tnp"]):
                        r.append(a)
            if o is True and l == "any" and len(t[2]) > 1:
                src = p.resolve_up(t[2][0])
                if any(x[0] == "field" and x[2] == "capabilities" and (x[3] or "").endswith("ExtensionMetadata") for x in walk(src)):
                    c = s.flow.closure_of(t[2][1])
                    if c is not None and s.flow.ret_mask(c, True) & s.flow.bit["capeq"]:
                        r.append("cap")
            if o is True and l == "contains" and t[2] and any(x[0] == "field" and x[2] == "capabilities" for x in walk(p.resolve_up(t[2][0]))):
                r.append("cap")
            if o is True and any(reads_source_kind(p, g) for g in call_targets(p, t)):
                r.append("applies")
        return r

    def cmp(s, fn, op, a, b):
        if not prefilter_ok(fn):
            return ()
        r = []
        if op == "Eq":
            x, y = peel(a), peel(s.p.resolve_up(b))
            if x[0] == "arg" and fn.kind == "closure" and y[0] != "const":
                r.append("capeq")
            if s.ext_id(a) and not s.ext_id(b) and s.expected_id(b):
                i = item_kind(s.p, fn, a)
                r += {"index": ["prov"], "response": ["rprov"], "context": ["c_prov"]}.get(i, [])
            fa, fb = fld(a), fld(b)
            if fa and fb:
                if (fa[0], fa[1], fb[0], fb[1]) == ("BlockExecutionContextPatch", "call_range", "CallContext", "call_range"):
                    r.append("c_call")
                if (fa[0], fa[1], fb[0], fb[1]) == ("BlockExecutionContextPatch", "block_range", "CallContext", "block_range"):
                    r.append("c_block")
                if (fa[0], fa[1], fb[0], fb[1]) == ("DefineNamespacePatch", "namespace", "SetSuperclassPatch", "namespace"):
                    r.append("decl_ns")
            ua, ub = fld(s.p.resolve_up(a)), fld(s.p.resolve_up(b))
            if ua and ub and (ua[1], ub[1]) == ("namespace", "namespace") and {ua[0], ub[0]} == {"DefineNamespacePatch", "SetSuperclassPatch"}:
                r.append("decl_ns")
            bb = peel(b)
            if fa and fa[0] == "DefineNamespacePatch" and fa[1] == "kind" and bb[0] == "agg" and bb[3] == "Class":
                r.append("decl_class")
            if bb[0] == "agg" and str(bb[2]).endswith("ExtensionStatus") and bb[3] == "Loaded":
                r.append("loaded")
        if op in ("Le", "Lt"):
            x, y = peel(a), peel(b)
            v = const_val(b)
            if x[0] == "call" and last(x[1]) == "len" and denotes(s.p, x[2][0], "execution_contexts"):
                if op == "Le" and v == 1 or op == "Lt" and v == 2:
                    r.append("c_count")
            if start_end(s.p, a, "start") and start_end(s.p, b, "end"):
                r.append("g_range")
        return r

    def quant(s, fn, ty):
        if not prefilter_ok(fn):
            return ()
        if re.search(r"slice::iter::Iter<'?[^,]*, ?[\w:]*IndexPatch>$|^&(\[|alloc::vec::Vec<)[\w:]*IndexPatch|^core::slice::iter::Iter<.*IndexPatch>$", ty):
            return ALLPAY + ALLNP + ["prov"]
        if "FilterMap" in ty and "IndexPatch" in ty:
            return ["decl_ns", "decl_class"]
        if plain(ty, "BlockExecutionContextPatch"):
            return CTX
        if plain(ty, "GeneratedOwnerPatch"):
            return OWN
        if plain(ty, "alloc::string::String") or plain(ty, "String"):
            return ["g_const"]
        if plain(ty, "ResponsePatch"):
            return ["rprov"]
        if plain(ty, "MethodParamPatch"):
            return ["DefineMethod.params"]
        return ()


def plain(ty, item):
    ty = ty.replace("&", "").strip()
    return bool(re.match(r"^(core::slice::iter::Iter<[^<>]*|alloc::vec::Vec<|\[)?([\w:]*::)?" + re.escape(item.split("::")[-1]) + r"[>\]]?(, ?alloc::alloc::Global>)?$", ty)) or \
        bool(re.match(r"^(core::slice::iter::)?Iter<('_, ?|'\w+, ?)?[\w:]*" + re.escape(item.split("::")[-1]) + ">$", ty)) or \
        bool(re.match(r"^('\w+ )?(alloc::vec::)?Vec<[\w:]*" + re.escape(item.split("::")[-1]) + ">$", ty))


def prefilter_ok(fn):
    return fn.crate == LIB and fn.file.startswith("src/extensions")


def is_item(t):
    return True


def down_variant(t):
    while t[0] == "field":
        t = t[1]
        if t[0] == "down":
            return t[2]
    return None


def item_kind(p, fn, t):
    """which guest output an `extension_id` belongs to, from the parameter/closure item types involved."""
    seen = []
    for o in origins(p, t):
        for x in walk(o):
            if x[0] == "field" and x[3] and x[3].startswith(API):
                seen.append(x[3][len(API):])
            if x[0] == "call":
                for g in call_targets(p, x):
                    for r in ret_terms(p, g):
                        for y in (z for o2 in origins(p, r) for z in walk(o2)):
                            if y[0] == "field" and y[3] and y[3].startswith(API):
                                seen.append(y[3][len(API):])
    if "BlockExecutionContextPatch" in seen:
        return "context"
    if any(x in ("DiagnosticPatch", "CodeLensPatch", "DocumentSymbolPatch") for x in seen):
        return "response"
    if any(x in OWNER for x in seen):
        return "index"
    return None


def start_end(p, t, which):
    """the value is built from the line/character of a range's start (end)."""
    t = peel(p.resolve_up(t))
    fs = [x for x in walk(t) if x[0] == "field" and (x[3] or "").endswith("SourcePosition")]
    if t[0] == "field" and t[2] == which and (t[3] or "").endswith("SourceRange"):
        return True
    if t[0] != "agg" or t[1] != "tuple" or len(t[5]) != 2:
        return False
    ok = []
    for x, nm in zip(t[5], ("line", "character")):
        x = peel(x)
        ok.append(x[0] == "field" and x[2] == nm and x[1][0] == "field" and x[1][2] == which)
    return all(ok)


_type_memo = {}


def bounded_type(p, g):
    """converts a guest type with a depth and a node budget: the recursion compares both against constants and fails."""
    k = g.key
    if k in _type_memo:
        return _type_memo[k]
    _type_memo[k] = False
    sig = [g.ty(i) for i in range(1, g.nargs + 1)]
    if not any("RubyType" in x and "extension_api" in x for x in sig):
        return False
    reach = p.reach([g])
    for k2 in reach:
        h = p.fns[k2]
        if not any("RubyType" in h.ty(i) and "extension_api" in h.ty(i) for i in range(1, h.nargs + 1)):
            continue
        depth = nodes = False
        for bi, b in enumerate(h.bb):
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "bin" and st[2][1] in ("Gt", "Ge", "Lt", "Le"):
                    x, y = h.op_term(st[2][2]), h.op_term(st[2][3])
                    for u, v in ((x, y), (y, x)):
                        if v[0] == "const" and isinstance(v[1], int) and u[0] == "arg":
                            if "&mut" in h.ty(u[2]):
                                nodes = True
                            else:
                                depth = True
        if depth and nodes:
            _type_memo[k] = True
            return True
    return False


def reads_source_kind(p, g):
    for f in [g] + g.children:
        if not f.file.startswith("src/extensions"):
            continue
        for b in f.bb:
            for st in b["s"]:
                if st[0] == "=" and "source_kind" in str(st[2]):
                    return True
    return False


def takeouts(p, field):
    """where a guest output list leaves the output struct: moved out, or cloned."""
    out = []
    for f in p.fns.values():
        if f.crate != LIB:
            continue
        for bi, b in enumerate(f.bb):
            if b.get("c"):
                continue
            for st in b["s"]:
                if st[0] != "=":
                    continue
                ops = [st[2][1]] if st[2][0] == "use" else st[2][5] if st[2][0] == "agg" else []
                for o in ops:
                    if "p" in o and takes(o["p"], field):
                        out.append((f, bi, st[3], field))
            t = b["t"]
            if t[0] == "call":
                for o in t[2]:
                    if "p" in o and takes(o["p"], field):
                        out.append((f, bi, t[6], field))
                n = f.prog.callee(f.crate, t[1]["fn"]).name if "fn" in t[1] else ""
                if last(n) in ("clone", "to_vec", "to_owned", "cloned", "drain", "take", "append", "split_off", "into_iter"):
                    for o in t[2]:
                        x = peel(f.op_term(o)) if "p" in o else None
                        if x and x[0] == "field" and x[2] == field and (x[3] or "").endswith("ExtensionOutput") and "ref" in def_kinds(f, o):
                            if last(n) != "into_iter":
                                out.append((f, bi, t[6], field))
    return sorted(set(out), key=lambda x: (x[0].name, x[1]))


def def_kinds(f, o):
    return {d[2][0] for d in f.defs().get(o["p"][0], []) if d[1] == "rv"} if len(o["p"]) == 1 else set()


def takes(pl, field):
    e = pl[-1]
    return isinstance(e, list) and e[0] == "f" and e[1] == field and str(e[2]).endswith("ExtensionOutput")


def check(ctx):
    p = ctx.p
    ctx.rule("index", "index patches leave the guest output only after provenance, every payload field, and project scope were validated")
    ctx.rule("context", "execution contexts leave the guest output only after count, provenance, ranges, owners and targets were validated")
    ctx.rule("response", "response patches leave the guest output only for a loaded extension that declared the capability, applies to the source and signed every patch")
    ctx.rule("kinds", "every kind of patch the protocol defines has a validation obligation")
    a = p.adts.get(API + "IndexPatch")
    ctx.need(a is not None, "the index patch protocol type is gone")
    for v in a["v"]:
        if v[0] not in VARIANTS:
            ctx.bad("kinds", f"IndexPatch::{v[0]}", f"index patch kind `{v[0]}` has no validation obligation", "crates/extension-api/src/lib.rs")
        else:
            ctx.ok("kinds", f"IndexPatch::{v[0]}", "crates/extension-api/src/lib.rs")
    fl = Flow(p, S(p))
    ctx.fl = fl
    for rid, field, need, n in (("index", "index_patches", ["prov"] + ALLPAY + ALLNP, 1), ("context", "execution_contexts", ["c_count"] + CTX, 1),
                                ("response", "response_patches", ["rprov", "cap", "loaded", "applies"], 1)):
        sites = takeouts(p, field)
        guarded_at(ctx, rid, fl, sites, need, f"{field.replace('_', ' ')} of a guest output used")
        ctx.floor(rid, n)
    # a wasm guest's index output: the extension is still loaded
    guests = [s for s in takeouts(p, "index_patches") if any(d.name.endswith("index_call_output_for_project") or "LoadedWasmExtension" in d.name for d in s[0].calls())]
    guarded_at(ctx, "index", fl, guests, ["loaded"], "index patches of a guest output used")
