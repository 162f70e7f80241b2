"""Persistent derived products: integrity and identity on load, atomic publication under the key's lock, identity covering every input."""
import re
from core import base_fn
from flow import Spec, Flow, FULL, last
from guard import guarded, guarded_at, agg_sites
from ir import peel, walk, show
from vals import mentions, origins, const_val, call_targets, ret_terms, length_of, denotes, arg_terms

LIB = "ruby_fast_lsp.lib"
FILES = ("src/persistent_cache.rs", "src/dependency_product.rs", "src/runtime/jruby/java_catalog.rs")
ENV = ["magic", "schema", "total", "plen", "sum"]
RAW = ["schema", "w_srclen", "w_srcsha", "w_comp", "total", "sum"]
SRC = ["logical_path", "content_sha256", "batch"]
DIGEST = r"^digest::.*::(update|chain_update)$"


def infile(fn):
    return fn.crate == LIB and fn.file in FILES


def header(p, t, d=4):
    """the value is decoded from the bytes of the file"""
    for x in walk(p.resolve_up(t)):
        if x[0] == "call" and last(x[1]) in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
            return True
        if x[0] == "call" and d > 0:
            ts = call_targets(p, x)
            if ts and all(any(header(p, r, d - 1) for r in ret_terms(p, g)) for g in ts):
                return True
        if x[0] in ("arg", "var") and d > 0:
            if any(header(p, o, d - 1) for o in origins(p, x, 2) if o != x):
                return True
    return False


def bytes_slice(p, t):
    """a sub-slice of the file's bytes (not decoded, not hashed)"""
    t = peel(p.resolve_up(t))
    while t[0] == "some" or t[0] == "call" and t[2] and last(t[1]) in ("map_err", "try_into", "as_slice", "as_ref", "context", "ok_or_else", "get", "unwrap", "expect", "to_vec", "into"):
        if t[0] == "call" and last(t[1]) == "get":
            return True
        t = peel(t[1] if t[0] == "some" else t[2][0])
    if t[0] == "call" and last(t[1]) in ("index", "split_at", "first_chunk", "split_first_chunk"):
        return True
    return t[0] == "field" and t[1][0] == "call" and last(t[1][1]) in ("split_at",)


def hashed(p, t):
    return any(x[0] == "call" and last(x[1]) in ("digest", "finalize") for x in walk(p.resolve_up(t)))


def unconv(t):
    t = peel(t)
    while t[0] == "some" or t[0] == "agg" and t[3] == "Some" and t[5] or t[0] == "call" and t[2] and last(t[1]) in (
            "try_from", "try_into", "ok", "map_err", "expect", "unwrap", "ok_or_else", "context", "from", "into"):
        t = peel(t[1] if t[0] == "some" else t[5][0] if t[0] == "agg" else t[2][0])
    return t


def nolen(t):
    """subterms that carry the value itself (not merely its length)"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or not isinstance(x[0], str):
            continue
        if x[0] == "call" and last(x[1]) in ("len", "is_empty", "is_some", "is_none"):
            continue
        if x[0] == "call" and last(x[1]) in ("index", "get", "first", "last", "split_at"):
            continue
        yield x
        for y in x[1:]:
            if isinstance(y, tuple):
                if y and isinstance(y[0], str):
                    st.append(y)
                else:
                    st.extend(z for z in y if isinstance(z, tuple))


def only_caller(p, t):
    """a parameter of a function called from one place is what that place passes"""
    x = peel(p.resolve_up(t))
    if x[0] == "arg" and infile(p.fns[x[1]]):
        r = arg_terms(p, x[1], x[2])
        if r and len(r) == 1 and r[0][0].key != x[1]:
            return r[0][2]
    return t


class S(Spec):
    atoms = []
    forall = []
    text = {"magic": "the file's magic bytes matching", "schema": "the format version matching", "total": "the declared length matching the file",
            "plen": "the decompressed length matching the declared one", "sum": "the checksum matching", "lmax": "the declared decompressed size being within the limit",
            "decoded": "the product decoding for the requested identity", "w_srclen": "the recorded source length matching", "w_srcsha": "the recorded source hash matching",
            "w_comp": "the recorded compiler identity matching", "g_files": "the recorded files matching the requested sources", "written": "the whole entry being written",
            "synced": "the entry being synced to disk", "fresh": "exclusive creation of the temporary file", "keyed": "the product being the reserved one",
            "dirsync": "the directory being synced", "xlock": "holding an exclusive cache lock", "recheck": "a lookup made under the lock finding no valid product",
            "physmax": "the entry size being within the limit", "keyeq": "the product's key equalling the requested one", "sumeq": "every source checksum matching"}

    def __init__(s, p, idf, params):
        s.p = p
        s.idf = idf            # {struct: [identity fields]}
        s.atoms = sorted(set(ENV + RAW + ["lmax", "decoded", "g_files", "written", "synced", "fresh", "keyed", "dirsync", "xlock", "recheck", "physmax", "keyeq", "sumeq", "java_fp"]
                             + [f"id:{st}.{f}" for st, fs in idf.items() for f in fs] + [f"h{i}" for i in range(1, 8)] + ["f:" + x for x in params]))
        s.text = dict(S.text, **{f"id:{st}.{f}": f"the recorded {f} matching the request" for st, fs in idf.items() for f in fs},
                      **{f"h{i}": f"input {i} being hashed into the identity" for i in range(1, 8)}, **{"f:" + x: f"`{x}` being hashed into the identity" for x in params})
        s.forall = ["sumeq"] + [f"h{i}" for i in range(1, 8)] + ["f:" + x for x in params]
        s.params = params
        s.takes = {}
        for f in p.fns.values():
            if infile(f):
                for c in f.calls():
                    if last(c.name) == "take" and "Read" in c.name:
                        for x in walk(p.resolve_up(c.arg(1))):
                            s.takes[x] = 1

    def prefilter(s, f):
        return infile(f)

    def cond(s, fn, t, o):
        if not infile(fn):
            return ()
        r = []
        if isinstance(o, str):
            if o in ("Missing", "Corrupt", "!Hit") and "DiskLookup" in s.disc_ty(fn, t):
                r.append("recheck")
        if o in (None, "None") and t[0] == "arg" and t[1] == fn.key:
            r.append(f"h{t[2]}") if t[2] < 8 else None
        if t[0] != "call":
            return r
        l = last(t[1])
        if o == "Ok":
            if l == "write_all":
                r.append("written")
            if l in ("sync_all", "sync_data"):
                r.append("dirsync" if any(x[0] == "call" and x[1].endswith("File::open") for x in walk(t[2][0])) else "synced")
            if "try_lock_exclusive" in l or l == "lock_exclusive":
                r.append("xlock")
            if l.startswith("call") and ("Fn::" in t[1] or "FnOnce::" in t[1] or "FnMut::" in t[1]) and s.generic(t[2][0]):
                r.append("decoded")
            if l == "and_then" and len(t[2]) > 1 and s.generic(t[2][1]):
                r.append("decoded")
            ts = call_targets(s.p, t)
            if ts and any(const_val(x) is True for x in t[2]) and all(s.locks(g) for g in ts):
                r.append("xlock")
        return r

    def locks(s, g):
        return any("try_lock_exclusive" in c.name or c.name.endswith("lock_exclusive") for c in g.calls())

    def generic(s, t):
        t = peel(s.p.resolve_up(t))
        if t[0] != "arg":
            return False
        f = s.p.fns[t[1]]
        return "impl Fn" in f.ty(t[2]) or "impl " in f.ty(t[2]) or re.fullmatch(r"&?(mut )?[A-Z]\w*", f.ty(t[2])) is not None

    def disc_ty(s, fn, t):
        for x in walk(t):
            if x[0] == "call":
                for g in call_targets(s.p, x):
                    if "DiskLookup" in g.ty(0):
                        return "DiskLookup"
        return ""

    def cmp(s, fn, op, a, b):
        if not infile(fn):
            return ()
        p = s.p
        r = []
        a, b = only_caller(p, a), only_caller(p, b)
        if op == "Eq":
            pa, pb = peel(p.resolve_up(a)), peel(p.resolve_up(b))
            ua, ub = unconv(a), unconv(b)
            # raw envelope
            if bytes_slice(p, a) and not hashed(p, a) and not header(p, a):
                if hashed(p, b):
                    r.append("sum")
                elif pb[0] == "arg" and "u8" in p.fns[pb[1]].ty(pb[2]) or pb[0] == "const" or pb[0] == "call" and last(pb[1]) == "magic":
                    r.append("magic")
                if pb[0] == "field" and pb[2] == "source_sha256":
                    r.append("w_srcsha")
            if header(p, a):
                if pb[0] == "const":
                    r.append("schema")
                if pb[0] == "field" and pb[2] == "source_length":
                    r.append("w_srclen")
                if pb[0] == "field" and pb[2] == "compiler_identity":
                    r.append("w_comp")
                lt = length_of(p, ub)
                if lt is not None:
                    z = peel(p.resolve_up(lt))
                    r.append("total" if z[0] in ("arg", "upvar") else "plen")
            # decoded structures
            if pa[0] == "field":
                own = (pa[3] or "").rsplit("::", 1)[-1]
                if own in s.idf and pa[2] in s.idf[own] and not any(x[0] == "field" and (x[3] or "").endswith("::" + own) for x in walk(pb)):
                    r.append(f"id:{own}.{pa[2]}")
                if pa[2] == "fingerprint_sha256" and pa[1][0] == "field" and pa[1][2] == "archive" and pb[0] == "field" and pb[2] == "artifact_fingerprint_sha256":
                    r.append("java_fp")
                if pa[2] == "key" and pb[0] == "field" and pb[2] == "key":
                    r.append("keyeq")
                if pa[2] == "content_sha256" and pb[0] == "field" and pb[2] == "content_sha256":
                    r.append("sumeq")
                if pa[2] == "cache_id" and own.endswith("Reservation") and pb[0] in ("arg", "call"):
                    r.append("keyed")
            if s.filelist(a) and s.filelist(b):
                r.append("g_files")
        if op in ("Le", "Lt"):
            if any(x in s.takes for x in [peel(p.resolve_up(a))] + origins(p, a, 2)):
                r.append("lmax")
            u = unconv(a)
            if u[0] == "call" and last(u[1]) == "len" and "Metadata" in u[1] and isinstance(const_val(b), int):
                r.append("physmax")
        return r

    def filelist(s, t):
        """a list of (path, checksum) pairs"""
        names = set()
        st, n = [s.p.resolve_up(t)], 0
        while st and n < 400:
            n += 1
            for x in nolen(st.pop()):
                if x[0] == "agg" and x[1] == "closure" and x[2] in s.p.fns:
                    for r in ret_terms(s.p, s.p.fns[x[2]]):
                        names |= {z[2] for z in walk(r) if z[0] == "field"}
                elif x[0] == "var":
                    st += [o for o in origins(s.p, x, 1) if o != x]
        return {"logical_path", "content_sha256"} <= names

    def event(s, c):
        if not infile(c.fn):
            return ()
        r = []
        if c.name.endswith("OpenOptions::create_new") and const_val(c.arg(1)) is True:
            r.append("fresh")
        if is_hash(s.p, c) and not hash_helper(c.fn):
            for x in nolen(s.p.resolve_up(c.arg(1))):
                if x[0] == "arg" and x[1] == c.fn.key and x[2] < 8:
                    r.append(f"h{x[2]}")
                if x[0] == "field" and x[2] in s.params:
                    r.append("f:" + x[2])
        return r

    def kill(s, c):
        if not infile(c.fn):
            return ()
        l = last(c.name)
        if c.name.endswith("OpenOptions::new"):
            return ("fresh", "written", "synced")
        if l == "write_all":
            return ("synced", "written")
        if c.name == "std::fs::rename":
            return ("dirsync",)
        if "lock_exclusive" in l:
            return ("recheck",)
        if l == "unlock" and "FileExt" in c.name:
            return ("xlock", "recheck")
        return ()

    def quant(s, fn, ty):
        if not infile(fn):
            return ()
        if "GemDependencySource" in ty:
            return ["sumeq"] + [f"f:{x}" for x in SRC] + ["h4", "h3"]
        if "[alloc::string::String]" in ty or "Vec<alloc::string::String" in ty or "Iter<'_, alloc::string::String" in ty or "slice::iter::Iter" in ty:
            return [f"h{i}" for i in range(1, 8)]
        if ty.startswith("[") or "array::iter::IntoIter" in ty or "array::" in ty:
            return [f"h{i}" for i in range(1, 8)] + ["f:" + x for x in s.params if x not in SRC]
        return ()


def is_hash(p, c):
    if re.search(DIGEST, c.name):
        return True
    ts = p.targets(c.callee)
    return bool(ts) and all(hash_helper(g) for g in ts)


def hash_helper(g):
    return g.nargs >= 2 and "CoreWrapper" in g.ty(1) and infile(g)


def identity_fields(p):
    """{struct: fields written from the product's key or a constant} for every struct handed to the serializer"""
    idf, payload = {}, {}
    for f in p.fns.values():
        if not infile(f):
            continue
        for c in f.calls():
            if not re.search(r"^postcard::.*(to_allocvec|to_stdvec|to_vec)", c.name):
                continue
            for o in origins(p, c.arg(0)):
                o = peel(o)
                if o[0] == "agg" and o[1] == "adt":
                    st = o[2].rsplit("::", 1)[-1]
                    for n, t in zip(o[4], o[5]):
                        t = p.resolve_up(t)
                        ident = peel(t)[0] == "const" or any(x[0] == "field" and x[2] == "key" for x in walk(t))
                        (idf if ident else payload).setdefault(st, []).append(n)
    return idf, payload


def check(ctx):
    p = ctx.p
    ctx.rule("envelope", "a stored entry is decoded only after magic, version, lengths and checksum were verified, with bounded decompression")
    ctx.rule("identity", "a decoded product is returned only if its recorded identity equals the requested one, field by field")
    ctx.rule("hit", "a lookup reports a hit only for an entry that passed both")
    ctx.rule("publish", "an entry appears under its final name only complete and synced, renamed from an exclusively created temporary file in the same directory")
    ctx.rule("lock", "an entry is reserved, removed or cleared only under an exclusive lock, after re-checking under it")
    ctx.rule("bind", "a product is bound into an index only if its key and every source checksum equal the requesting manifest's")
    ctx.rule("key", "the identity of a product covers every input it depends on")
    idf, payload = identity_fields(p)
    ctx.need(idf, "serialized product structures not found")
    limits = leaf_fields(p, next((n for n in p.adts if n.endswith("::ArchiveLimits")), None))
    keys = [n for n in p.adts if re.search(r"::(GemDependencyProductKey)$", n)]
    kf = [f for n in keys for v in p.adts[n]["v"] for f in fields_of(v)]
    params = sorted(set(SRC + limits + kf))
    fl = Flow(p, S(p, idf, params))
    ctx.fl = fl
    # envelope
    decs = [c for f in p.fns.values() if infile(f) for c in f.calls() if re.search(r"zstd::.*(Decoder.*::new|decode_all|copy_decode|decompress)", c.name)]
    ctx.need(decs, "no decompression of persistent entries found")
    for f in {c.fn.key: c.fn for c in decs}.values():
        m = fl.ret_mask(f, "Ok")
        for a in ENV:
            ok = m == FULL or m & fl.bit[a]
            loc = f"{f.file}:{f.line}"
            if ok:
                ctx.ok("envelope", f"{base_fn(f.name)}: returns only after {fl.s.text[a]}", loc)
            else:
                ctx.bad("envelope", f"{base_fn(f.name)}:{a}", f"{base_fn(f.name)} can return an entry without {fl.s.text[a]}", loc)
    reads = [c for f in {c.fn.key: c.fn for c in decs}.values() for c in f.calls() if re.search(r"Read::(read_to_end|read_exact|read_to_string)$|decode_all|copy_decode", c.name)]
    guarded(ctx, "envelope", fl, reads, ["lmax"], "decompressing an entry")
    for c in reads:
        ok = any(x[0] == "call" and last(x[1]) == "take" for x in walk(c.arg(0)))
        (ctx.ok("envelope", f"{base_fn(c.fn.name)}: decompression is bounded", c.loc()) if ok else
         ctx.bad("envelope", f"{base_fn(c.fn.name)}:unbounded", "the decompressor's output is read without a limit", c.loc()))
    fr = [c for f in p.fns.values() if f.crate == LIB and f.file == FILES[0] for c in f.calls() if re.search(r"fs::File as .*read_to_end|Read::read_to_end$|fs::read$", c.name) and c not in reads
          and c.fn.key not in {d.fn.key for d in decs}]
    guarded(ctx, "envelope", fl, [c for c in fr if not any(x[0] == "call" and last(x[1]) == "take" for x in walk(c.arg(0)))], ["physmax"], "reading an entry")
    # identity
    n = 0
    for f in list(p.fns.values()):
        if not (infile(f) and f.kind == "fn" and re.search(r"Persistent\w+Lookup", f.ty(0))) or re.search(r"PersistentDerivedProductLookup", f.ty(0)):
            continue
        for cl in [g for g in f.children if g.kind == "closure" and any("u8" in g.ty(i) for i in range(1, g.nargs + 1))]:
            n += 1
            structs = [st for st in idf if reaches_struct(p, cl, st)]
            req = []
            for st in structs:
                req += [f"id:{st}.{x}" for x in idf[st]]
                if "files" in payload.get(st, ()):
                    req.append("g_files")
                if "archive" in payload.get(st, ()):
                    req.append("java_fp")
            if not structs:
                req = RAW
            m = fl.ret_mask(cl, "Ok")
            for a in req:
                loc = f"{f.file}:{f.line}"
                if m == FULL or m & fl.bit[a]:
                    ctx.ok("identity", f"{base_fn(f.name)}: product returned after {fl.s.text.get(a, a)}", loc)
                else:
                    ctx.bad("identity", f"{base_fn(f.name)}:{a}", f"a product can be returned by {base_fn(f.name)} without {fl.s.text.get(a, a)}", loc)
    ctx.need(n >= 3, f"only {n} product decoders found")
    hits = [(f, bi, st[3], "disk hit") for f, bi, st, d in agg_sites(p, r"::DiskLookup$", "Hit") if infile(f)]
    ctx.need(hits, "no disk hit construction found")
    guarded_at(ctx, "hit", fl, hits, ENV + ["decoded"], "reporting a stored product")
    for f, bi, st, d in agg_sites(p, r"::DiskLookup$", "Hit"):
        v = d.get("0", ("x",))
        ok = mentions(p, v, lambda x: x[0] == "call" and (last(x[1]) in ("and_then", "call", "call_once", "call_mut")), 3)
        (ctx.ok("hit", "the reported product is the decoded one", f"{f.file}:{st[3]}") if ok else
         ctx.bad("hit", f"{base_fn(f.name)}:value", "the reported product is not the decoder's result", f"{f.file}:{st[3]}"))
    # publication
    ren = [c for f in p.fns.values() if f.crate == LIB and f.file == FILES[0] for c in f.calls() if c.name == "std::fs::rename"]
    ctx.need(ren, "no publication of persistent entries found")
    guarded(ctx, "publish", fl, ren, ["written", "synced", "fresh", "keyed"], "publishing an entry")
    for c in ren:
        src, dst = c.arg(0), c.arg(1)
        ok = denotes(p, dst, "product_path") and not mentions(p, src, lambda x: x[0] == "call" and x[1] == "std::env::temp_dir") and any(
            x[0] == "call" and last(x[1]) in ("join", "with_extension", "with_file_name") and mentions(p, x, lambda y: y[0] == "field" and y[2] == "product_path") for o in origins(p, src) for x in walk(o))
        (ctx.ok("publish", "rename from a sibling temporary file to the reserved path", c.loc()) if ok else
         ctx.bad("publish", f"{base_fn(c.fn.name)}:paths", "the entry is not renamed from a temporary file beside the reserved path", c.loc()))
        m = fl.ret_mask(c.fn, "Ok")
        (ctx.ok("publish", "the directory is synced before success is reported", c.loc()) if m == FULL or m & fl.bit["dirsync"] else
         ctx.bad("publish", f"{base_fn(c.fn.name)}:dirsync", "success is reported without syncing the directory after the rename", c.loc()))
    opens = [c for f in p.fns.values() if f.crate == LIB and f.file == FILES[0] for c in f.calls() if re.search(r"fs::(File::create|write|copy)$", c.name)]
    for c in opens:
        ctx.bad("publish", f"{base_fn(c.fn.name)}:{last(c.name)}", "an entry is written in place", c.loc())
    # locks
    rm = [c for f in p.fns.values() if f.crate == LIB and f.file == FILES[0] for c in f.calls() if c.name in ("std::fs::remove_file", "std::fs::remove_dir_all")
          and not any(mentions(p, o, lambda x: x[0] == "call" and x[1] == "std::process::id") for o in origins(p, c.arg(0)))]
    ctx.need(rm, "no removal of persistent entries found")
    guarded(ctx, "lock", fl, rm, ["xlock"], "removing cache entries")
    res = [(f, bi, st[3], "reservation") for f, bi, st, d in agg_sites(p, r"::PersistentDerivedProductReservation$") if infile(f)]
    ctx.need(res, "no reservation construction found")
    guarded_at(ctx, "lock", fl, res, ["xlock", "recheck"], "reserving an entry")
    for f, bi, st, d in agg_sites(p, r"::PersistentDerivedProductReservation$"):
        for n_ in ("key_lock", "maintenance_lock"):
            if n_ in d:
                t = peel(d[n_])
                ok = t[0] == "agg" and t[3] == "Some" or t[0] != "agg"
                (ctx.ok("lock", f"the reservation keeps {n_}", f"{f.file}:{st[3]}") if ok else ctx.bad("lock", f"{n_}", f"the reservation does not keep {n_}", f"{f.file}:{st[3]}"))
    # binding
    sinks = [c for f in p.fns.values() if f.crate == LIB and f.file == FILES[1] for c in f.calls() if re.search(r"::register_(gem|library|source|external)\w*$", c.name)]
    ctx.need(sinks, "no binding of products into an index found")
    guarded(ctx, "bind", fl, sinks, ["keyeq", "sumeq"], "binding a product")
    keyrule(ctx, p, fl, limits, kf)


def fields_of(v):
    return [x[0] if isinstance(x, (list, tuple)) else x for x in (v[2] if len(v) > 2 else [])]


def leaf_fields(p, adt):
    if adt is None:
        return []
    return [f for v in p.adts[adt]["v"] for f in fields_of(v)]


def reaches_struct(p, f, st):
    for k in p.reach([f]):
        for c in p.fns[k].calls():
            if re.search(r"^postcard::.*from_bytes", c.name) and any(st in g for g in c.callee.generics):
                return True
    return False


def keyrule(ctx, p, fl, limits, kf):
    sites = []
    for f, bi, st, d in agg_sites(p, r"ProductKey$"):
        if infile(f) and not f.name.endswith("::clone") and any(hashed(p, t) for t in d.values()):
            sites.append((f, bi, st, d))
    ctx.need(len(sites) >= 3, f"only {len(sites)} product identities found")
    for f, bi, st, d in sites:
        ins = fl.analyze(f, 0)
        m = fl.at_term(f, ins, bi)
        adt = st[2][2].rsplit("::", 1)[-1]
        loc = f"{f.file}:{st[3]}"
        for i in range(1, f.nargs + 1):
            stored = any(peel(t) == ("arg", f.key, i) for t in d.values())
            ok = stored or m == FULL or m & fl.bit[f"h{i}"]
            put(ctx, "key", ok, f"{adt}: input {i} ({f.ty(i).rsplit('::', 1)[-1][:40]}) is part of the identity", f"{adt}:input{i}",
                f"input {i} ({f.ty(i)[:60]}) of {base_fn(f.name)} is not part of the product identity on every path", loc)
            if "GemDependencySource" in f.ty(i):
                for x in SRC:
                    put(ctx, "key", m == FULL or m & fl.bit["f:" + x], f"{adt}: every source's {x} is part of the identity", f"{adt}:{x}",
                        f"`{x}` of every source is not part of the product identity", loc)
            if f.ty(i).endswith("ClasspathArtifact"):
                for x in ("fingerprint_sha256", "kind"):
                    ok = any(z[0] == "field" and z[2] == x for c in f.calls() if is_hash(p, c) for z in nolen(p.resolve_up(c.arg(1))))
                    put(ctx, "key", ok, f"{adt}: {x} is part of the identity", f"{adt}:{x}", f"the artifact's {x} is not part of the product identity", loc)
    # functions that reduce a structure to a fingerprint must cover all of its fields
    for f in p.fns.values():
        if not infile(f) or f.kind != "fn" or not any(last(c.name) == "finalize" for c in f.calls()):
            continue
        want = None
        if f.nargs == 1 and f.ty(1).endswith("ArchiveLimits"):
            want = limits
        if f.nargs == 1 and f.ty(1).endswith("GemDependencyProductKey"):
            want = kf
        if want is None:
            continue
        ins = fl.analyze(f, 0)
        fin = [c for c in f.calls() if last(c.name) == "finalize"]
        for x in want:
            ok = all(fl.at_term(f, ins, c.bb) & fl.bit["f:" + x] for c in fin)
            put(ctx, "key", ok, f"{base_fn(f.name)} covers {x}", f"{base_fn(f.name)}:{x}", f"{base_fn(f.name)} does not hash `{x}` on every path", f"{f.file}:{f.line}")
    for f in p.fns.values():
        if infile(f) and f.kind == "fn" and f.nargs >= 2 and "CoreWrapper" in f.ty(1):
            ok = any(re.search(DIGEST, c.name) and any(x == ("arg", f.key, 2) for x in nolen(c.arg(1))) for c in f.calls())
            put(ctx, "key", ok, f"{base_fn(f.name)} hashes its bytes", base_fn(f.name), f"{base_fn(f.name)} does not hash the bytes it is given", f"{f.file}:{f.line}")


def put(ctx, rid, ok, what, key, msg, loc):
    if ok:
        ctx.ok(rid, what, loc)
    else:
        ctx.bad(rid, key, msg, loc)
