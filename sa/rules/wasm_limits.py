"""Every entry into a Wasm guest runs with fuel, a wall-clock deadline and memory limits; guests get no ambient authority."""
import re
from core import base_fn
from flow import Spec, Flow
from guard import guarded
from ir import peel, walk, show
from vals import mentions, must_mention, origins, has_field, const_val, stretched, multiplied

GUEST = re.compile(r"^wasmtime::runtime::(func::typed::TypedFunc::.*::(call|call_async)|func::Func::(call|call_async|call_unchecked)"
                   r"|linker::Linker::<T>::(instantiate|instantiate_async|module|module_async)|instance::(Instance::(new|new_async)|InstancePre::.*::(instantiate|instantiate_async)))$")


class S(Spec):
    atoms = ["fuel", "epoch", "limiter", "insize", "cfuel", "cepoch", "outsize", "abi"]
    text = {"fuel": "a fresh fuel budget since the previous guest entry", "epoch": "a fresh epoch deadline since the previous guest entry",
            "limiter": "the store's resource limiter installed", "insize": "the input having been checked against the input ceiling",
            "cfuel": "fuel metering enabled", "cepoch": "epoch interruption enabled",
            "outsize": "the guest-reported length having been checked against the output ceiling",
            "abi": "the guest ABI version having been compared with the host's"}

    def __init__(s, p):
        s.p = p

    def prefilter(s, f):
        return f.crate.startswith("ruby_fast_lsp_extension_wasm_host")

    def event(s, c):
        n = c.name
        if not n.startswith("wasmtime::"):
            return ()
        if n.endswith("::set_fuel"):
            return ("fuel",)
        if n.endswith("::set_epoch_deadline"):
            return ("epoch",)
        if n.endswith("Store::<T>::limiter"):
            return ("limiter",)
        if n.endswith("::consume_fuel") and const_val(c.arg(1)) is True:
            return ("cfuel",)
        if n.endswith("::epoch_interruption") and const_val(c.arg(1)) is True:
            return ("cepoch",)
        return ()

    def kill(s, c):
        n = c.name
        if GUEST.match(n):
            return ("fuel", "epoch")
        if n.endswith("::consume_fuel") and const_val(c.arg(1)) is not True:
            return ("cfuel",)
        if n.endswith("::epoch_interruption") and const_val(c.arg(1)) is not True:
            return ("cepoch",)
        if n == "wasmtime::config::Config::new":
            return ("cfuel", "cepoch")
        if n.endswith("store::Store::<T>::new"):
            return ("limiter", "fuel", "epoch")
        return ()

    def cmp(s, fn, op, a, b):
        if not s.prefilter(fn):
            return ()
        r = []
        if op in ("Le", "Lt") and not stretched(s.p, a, b):
            if must_mention(s.p, b, has_field("max_output_bytes")) and not mentions(s.p, a, has_field("max_output_bytes")):
                r.append("outsize")
            if must_mention(s.p, b, has_field("max_input_bytes")) and any(x[0] == "call" and x[1].endswith("::len") for x in walk(a)):
                r.append("insize")
        if op == "Eq":
            av = [x for x in walk(b) if x[0] == "const" and x[2] and "ABI_VERSION" in str(x[2])]
            if av and any(x[0] == "call" and x[1].endswith("::call") for x in walk(s.p.resolve_up(a))):
                r.append("abi")
        return r


def check(ctx):
    p = ctx.p
    host = [f for f in p.fns.values() if f.crate.startswith("ruby_fast_lsp_extension_wasm_host")]
    ctx.need(len(host) > 20, "wasm host crate not found")
    ctx.rule("entry", "every guest entry (instantiate or call) is preceded, since the previous guest entry, by set_fuel and set_epoch_deadline, "
                      "and its store has a resource limiter")
    ctx.rule("budget", "the fuel and deadline given to a guest derive from the extension configuration, never from a constant override")
    ctx.rule("engine", "every engine is created with fuel metering and epoch interruption enabled")
    ctx.rule("limits", "every store limiter caps linear memory by the configured ceiling and caps instances, tables and memories")
    ctx.rule("wasi", "guests get an empty WASI context: no preopened directories, environment, arguments, stdio or sockets; no extra host imports")
    ctx.rule("io", "bytes are copied into or out of a guest only after their length was checked against the configured ceiling")
    ctx.rule("abi", "a guest is only handed out after its ABI version was compared with the host's")
    ctx.rule("ticker", "every compiled module owns a ticker thread that keeps advancing the epoch of its own engine")
    fl = Flow(p, S(p))
    guest = [c for c in ctx.calls_named(GUEST.pattern)]
    # the lower-level prefilter covers the host crate only: guest entries elsewhere are violations by themselves
    for c in guest:
        if not c.fn.crate.startswith("ruby_fast_lsp_extension_wasm_host"):
            ctx.bad("entry", f"{base_fn(c.fn.name)}:{c.name}", "guest entry outside the sandbox host", c.loc())
    ng = [c for c in guest if c.fn.crate.startswith("ruby_fast_lsp_extension_wasm_host")]

    def need(c):
        if c.name.endswith("instantiate"):
            return ["fuel", "epoch", "limiter"]
        return ["fuel", "epoch"]
    guarded(ctx, "entry", fl, ng, need, lambda c: "guest " + c.name.rsplit("::", 1)[-1])
    ctx.floor("entry", 5)
    # every store gets a limiter before instantiate (covered by 'limiter'); no other unprotected store users
    for c in ctx.calls_named(r"^wasmtime::.*::(set_fuel|set_epoch_deadline)$"):
        field = "fuel_per_call" if c.name.endswith("set_fuel") else "wall_timeout"
        if must_mention(p, c.arg(1), has_field(field)):
            t = peel(p.resolve_up(c.arg(1)))
            bad = None
            if field == "wall_timeout" and multiplied(p, t):
                bad = t
            if field == "fuel_per_call":
                for x in walk(t):
                    if x[0] == "bin" and x[1] in ("Mul", "Add", "Shl", "MulWithOverflow", "AddWithOverflow") or \
                            x[0] == "call" and re.search(r"(saturating|wrapping|checked)_(mul|add|shl)|::max$", x[1]):
                        bad = x
            if bad:
                ctx.bad("budget", f"{base_fn(c.fn.name)}:{field}:scaled", f"the guest budget is scaled above the configured {field}", c.loc())
            else:
                ctx.ok("budget", f"{base_fn(c.fn.name)} uses configured {field}", c.loc())
        else:
            ctx.bad("budget", f"{base_fn(c.fn.name)}:{field}", f"guest budget does not come from the configured {field}", c.loc())
    for c in ctx.calls_named(r"^wasmtime::.*::(epoch_deadline_callback|epoch_deadline_async_yield_and_update|set_epoch_deadline_callback|fuel_async_yield_interval)$"):
        ctx.bad("budget", f"{base_fn(c.fn.name)}:{c.name}", "guest deadline can be extended from a callback", c.loc())
    ctx.floor("budget", 2)
    eng = ctx.calls_named(r"^wasmtime::engine::Engine::(new|default)$|^wasmtime::.*Engine as .*default")
    guarded(ctx, "engine", fl, [c for c in eng if c.name.endswith("new")], ["cfuel", "cepoch"], "engine creation")
    for c in eng:
        if not c.name.endswith("new"):
            ctx.bad("engine", f"{base_fn(c.fn.name)}:default", "engine created with default configuration", c.loc())
    for c in ctx.calls_named(r"^core::default::Default::default$"):
        if c.callee.self_ty and c.callee.self_ty.startswith("wasmtime::engine::Engine"):
            ctx.bad("engine", f"{base_fn(c.fn.name)}:default", "engine created with default configuration", c.loc())
    ctx.floor("engine", 1)
    # limiter content
    for c in ctx.calls_named(r"^wasmtime::.*StoreLimitsBuilder::build$"):
        t = p.resolve_up(c.arg(0))
        m = {}
        for x in walk(t):
            if x[0] == "call" and "StoreLimitsBuilder::" in x[1]:
                m[x[1].rsplit("::", 1)[-1]] = x
        for meth in ("memory_size", "instances", "tables", "memories"):
            if meth not in m:
                ctx.bad("limits", f"{base_fn(c.fn.name)}:{meth}", f"store limits are built without a {meth} cap", c.loc())
                continue
            v = m[meth][2][1]
            if meth == "memory_size":
                okv = must_mention(p, v, has_field("max_memory_bytes")) and not any(
                    x[0] == "bin" or (x[0] == "call" and re.search(r"::(max|saturating_\w+|wrapping_\w+)$", x[1])) for x in walk(p.resolve_up(v)))
            else:
                cv = const_val(v)
                okv = isinstance(cv, int) and cv <= 1024
            if okv:
                ctx.ok("limits", f"{base_fn(c.fn.name)}: {meth}", c.loc())
            else:
                ctx.bad("limits", f"{base_fn(c.fn.name)}:{meth}:value", f"store limit {meth} does not come from the configured ceiling ({show(v)})", c.loc())
    ctx.floor("limits", 4)
    for c in ctx.calls_named(r"^wasmtime::.*Store::<T>::(limiter|limiter_async)$"):
        cl = fl.closure_of(c.arg(1))
        ok = False
        if cl is not None:
            t = peel(cl.term(0)) if cl.defs().get(0) else None
            ok = t is not None and any(x[0] == "field" and x[2] == "limits" or x[0] == "field" and "StoreLimits" in str(x[3]) for x in walk(t))
        if ok:
            ctx.ok("limits", f"{base_fn(c.fn.name)}: limiter returns the store's own limits", c.loc())
        else:
            ctx.bad("limits", f"{base_fn(c.fn.name)}:limiter", "the store limiter does not return the configured limits", c.loc())
    # WASI and host imports
    for c in ctx.calls_named(r"^wasmtime_wasi::"):
        n = c.name
        l = n.rsplit("::", 1)[-1]
        if "WasiCtxBuilder" in n and l not in ("new", "build_p1", "build"):
            ctx.bad("wasi", f"{base_fn(c.fn.name)}:{l}", f"guest WASI context is given ambient authority through `{l}`", c.loc())
        else:
            ctx.ok("wasi", f"{base_fn(c.fn.name)}: {l}", c.loc())
    for c in ctx.calls_named(r"^wasmtime::runtime::linker::Linker::<T>::"):
        l = c.name.rsplit("::", 1)[-1]
        if l in ("new", "instantiate", "instantiate_async", "instantiate_pre", "allow_shadowing", "get", "iter"):
            ctx.ok("wasi", f"{base_fn(c.fn.name)}: linker {l}", c.loc())
        else:
            ctx.bad("wasi", f"{base_fn(c.fn.name)}:linker:{l}", f"an additional host import is exposed to guests through `{l}`", c.loc())
    ctx.floor("wasi", 3)
    # payload sizes
    reads = ctx.calls_named(r"^wasmtime::runtime::memory::Memory::(read|data|data_mut|data_ptr|data_and_store_mut)$")
    allocs = [c for c in ctx.calls_named(r"^alloc::vec::(from_elem|Vec::<T>::with_capacity)$") if any(r.fn is c.fn for r in reads)]
    guarded(ctx, "io", fl, reads + allocs, ["outsize"], lambda c: "reading guest output" if "memory" in c.name else "allocating the output buffer")
    writes = ctx.calls_named(r"^wasmtime::runtime::memory::Memory::write$")
    guarded(ctx, "io", fl, writes, ["insize"], "copying input into the guest")
    ctx.floor("io", 2)
    # ABI gate
    n = 0
    for f in host:
        for bi, b in enumerate(f.bb):
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and st[2][2].endswith("::WasmExtension"):
                    fl.entries({f.key})
                    m = fl.at_term(f, fl.ins[f.key], bi) if f.key in fl.ins else None
                    n += 1
                    if m is not None and not m & fl.bit["abi"]:
                        ctx.bad("abi", f"{base_fn(f.name)}", "a guest instance is handed out without the ABI version check", f"{f.file}:{st[3]}")
                    else:
                        ctx.ok("abi", base_fn(f.name), f"{f.file}:{st[3]}")
    ctx.floor("abi", 1)
    # ticker
    ticks = ctx.calls_named(r"^wasmtime::engine::Engine::increment_epoch$")
    ctx.need(ticks, "no epoch ticker")
    tick_fns = {c.fn.key for c in ticks}
    starters = set()
    for c in ctx.calls_named(r"^std::thread::.*spawn$"):
        cl = fl.closure_of(c.arg(0)) if c.args else None
        if cl is not None and any(k in tick_fns for k in p.reach([cl])):
            starters.add(c.fn.key)
            # the loop body must always advance the epoch: no path through the loop that skips it
            for t in ticks:
                if t.fn.key in p.reach([cl]):
                    if loop_always(t.fn, t.bb):
                        ctx.ok("ticker", "the ticker loop advances the epoch on every iteration", t.loc())
                    else:
                        ctx.bad("ticker", "loop", "the epoch ticker can iterate without advancing the epoch", t.loc())
    for f in host:
        for bi, b in enumerate(f.bb):
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt":
                    ops = [f.op_term(o) for o in st[2][5]]
                    a = p.adts.get(st[2][2])
                    if a is None:
                        continue
                    tys = [p.crates[a["crate"]]["tys"][fi[1]][0] for fi in a["v"][0][2]]
                    if "wasmtime::runtime::module::Module" in tys and "wasmtime::engine::Engine" in tys:
                        ok = False
                        et = None
                        for ty, o in zip(tys, ops):
                            if ty == "wasmtime::engine::Engine":
                                et = peel(p.resolve_up(o))
                        for o in ops:
                            for x in walk(p.resolve_up(o)):
                                if x[0] == "call" and x[3][1] >= 0:
                                    tt = p.fns[x[3][0]].bb[x[3][1]]["t"]
                                    for g in p.targets(p.callee(p.fns[x[3][0]].crate, tt[1]["fn"])) if "fn" in tt[1] else ():
                                        if g.key in starters or any(k in starters for k in p.reach([g])):
                                            if any(peel(y) == et for y in x[2]):
                                                ok = True
                        if ok:
                            ctx.ok("ticker", f"{base_fn(f.name)} starts the ticker of its own engine", f"{f.file}:{st[3]}")
                        else:
                            ctx.bad("ticker", base_fn(f.name), "a compiled module is created without a running epoch ticker for its engine", f"{f.file}:{st[3]}")
    ctx.floor("ticker", 2)


def loop_always(f, b):
    """every CFG cycle of f passes through block b."""
    seen = {}
    # DFS for a cycle avoiding b
    state = {}
    st = [(0, iter(f.succ(0)))]
    if b == 0:
        return True
    state[0] = 1
    while st:
        x, it = st[-1]
        for y in it:
            if y == b:
                continue
            if state.get(y) == 1:
                return False
            if y not in state:
                state[y] = 1
                st.append((y, iter(f.succ(y))))
                break
        else:
            state[x] = 2
            st.pop()
    # also cycles reachable only after b
    for z in f.succ(b):
        if z in state or z == b:
            continue
        state[z] = 1
        st = [(z, iter(f.succ(z)))]
        while st:
            x, it = st[-1]
            for y in it:
                if y == b:
                    continue
                if state.get(y) == 1:
                    return False
                if y not in state:
                    state[y] = 1
                    st.append((y, iter(f.succ(y))))
                    break
            else:
                state[x] = 2
                st.pop()
    return True
