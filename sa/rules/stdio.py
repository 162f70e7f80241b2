"""Standard input and output belong to the protocol: nothing else writes, reads, hands them on, or ends the process."""
import re
from core import base_fn
from flow import Flow, Spec, last
from guard import guarded
from ir import peel, walk
from rules.admission import put
from vals import call_targets, ret_terms

PRINT = re.compile(r"^std::io::stdio::_print$")
HANDLE = re.compile(r"^(std::io::stdio::(stdout|stdin)|tokio::io::(stdout::stdout|stdin::stdin|stdout|stdin))$")
EXIT = re.compile(r"^(std::process::(exit|abort)|core::intrinsics::abort|libc::(exit|_exit|abort)|libc::.*::(exit|_exit|abort))$")
RAW = re.compile(r"::from_raw_fd$|::from_raw_handle$")
SERVE = re.compile(r"^tower_lsp::.*::serve$")
START = re.compile(r"^(std|tokio)::process::Command::(spawn|status|output)$|CommandExt(>|)::exec$")
SET = re.compile(r"^(std|tokio)::process::Command::(stdin|stdout)$")
NEW = re.compile(r"^(std|tokio)::process::Command::new$")
OWN = re.compile(r"Stdio::inherit$|^std::io::stdio::(stdout|stdin)$|^tokio::io::(stdout|stdin)")


def owns(p, t, d=0):
    """may the value be one of the server's own streams?"""
    for x in walk(p.resolve_up(t)):
        if x[0] == "call" and OWN.search(x[1]):
            return True
        if x[0] == "var" and d < 4:
            f = p.fns[x[1]]
            for bi, k, pl, ln in f.defs().get(x[2], []):
                if owns(p, f.rv_term(pl, 1) if k == "rv" else f.call_term(pl, 1, bi), d + 1):
                    return True
        if x[0] == "call" and d < 4 and "Stdio" in x[1] or x[0] == "call" and d < 4 and not x[1].startswith(("core::", "std::", "alloc::", "tokio::")):
            if any("Stdio" in (g.ty(0) or "") and owns(p, r, d + 1) for g in call_targets(p, x) for r in ret_terms(p, g)):
                return True
    return False


class Child(Spec):
    atoms = ["in", "out"]
    text = {"in": "its standard input being detached from the server's", "out": "its standard output being detached from the server's"}

    def __init__(s, p):
        s.p = p

    def own(s, c):
        return owns(s.p, c.arg(1))

    def event(s, c):
        if SET.match(c.name) and not s.own(c):
            return ("in",) if last(c.name) == "stdin" else ("out",)
        return ()

    def kill(s, c):
        if NEW.match(c.name):
            return ("in", "out")
        if SET.match(c.name) and s.own(c):
            return ("in",) if last(c.name) == "stdin" else ("out",)
        return ()


class Gone(Spec):
    atoms = ["gone"]
    text = {"gone": "the parent process being found dead"}

    def __init__(s, p):
        s.p = p

    def cmp(s, fn, op, a, b):
        """signal 0 cannot be sent: there is no such process"""
        a, b = peel(a), peel(b)
        if a[0] == "const":
            a, b = b, a
        if a[0] == "call" and re.search(r"(^|::)kill$", a[1]) and len(a[2]) == 2 and peel(a[2][1])[:2] == ("const", 0) and b[0] == "const":
            if op == "Ne" and b[1] == 0 or op == "Eq" and b[1] not in (0, False) or op == "Lt" and b[1] == 0:
                return ["gone"]
        return []


def blocks_reaching(f, targets):
    pr = f.preds()
    seen, st = set(targets), list(targets)
    while st:
        for b in pr.get(st.pop(), ()) if isinstance(pr, dict) else pr[st.pop()]:
            if b not in seen:
                seen.add(b)
                st.append(b)
    return seen


def blocks_from(f, starts):
    seen, st = set(starts), list(starts)
    while st:
        for b in f.succ(st.pop()):
            if b not in seen:
                seen.add(b)
                st.append(b)
    return seen


def edges_in(p, f, blocks):
    return [(k, g) for k, g, site in p.out_edges(f) if site[0] in blocks]


def none_blocks(f):
    """blocks that build a 'no command was given' result"""
    out = set()
    for bi, b in enumerate(f.bb):
        if b.get("c"):
            continue
        for st in b["s"]:
            if st[0] == "=" and st[2][0] == "agg":
                t = f.rv_term(st[2])
                if any(x[0] == "agg" and x[1] == "adt" and x[3] == "None" and "Option" in str(x[2]) for x in walk(t)) \
                        and len(st[1]) == 1 and re.search(r"Option<(i32|u8|std::process::ExitCode|[\w:]*Exit\w*)>", f.ty(st[1][0]) or ""):
                    out.add(bi)
            elif st[0] == "=" and st[2][0] == "use":
                t = f.rv_term(st[2])
                if t[0] == "agg" and t[1] == "adt" and t[3] == "None" and len(st[1]) == 1 and re.search(r"Option<i32>", f.ty(st[1][0]) or ""):
                    out.add(bi)
    return out


def check(ctx):
    p = ctx.p
    ctx.rule("stdout", "while the server runs, nothing prints to standard output or takes hold of it but the transport of the protocol")
    ctx.rule("stdin", "nothing but the transport of the protocol reads standard input")
    ctx.rule("log", "log lines go to standard error")
    ctx.rule("child", "every program is started with standard input and output of its own")
    ctx.rule("exit", "no request, notification or background task ends the process, except when the parent process is found dead")

    serves = [c for c in ctx.calls(lambda c: SERVE.search(c.name))]
    ctx.need(serves, "the server is never started")
    # functions that run while (or before) the protocol does
    roots, direct = {}, []
    for c in serves:
        f = c.fn
        up = blocks_reaching(f, {c.bb})
        live = up | blocks_from(f, {c.bb})
        direct.append((f, live))
        for k, g in edges_in(p, f, live):
            roots[g.key] = g
        # the functions this one was called from, before and after the call
        seen, work = {f.key}, [f]
        while work:
            h = work.pop()
            for k, g, site in p.callers().get(h.key, ()):
                if g.key in seen:
                    continue
                seen.add(g.key)
                work.append(g)
                lv = blocks_reaching(g, {site[0]}) | blocks_from(g, {site[0]})
                direct.append((g, lv))
                for k2, g2 in edges_in(p, g, lv):
                    if g2.key not in seen:
                        roots[g2.key] = g2
    dkeys = {f.key for f, _ in direct}
    bins = {f.crate for f, _ in direct}
    for f in p.fns.values():
        if f.impl_trait and not f.impl_trait.startswith(("ruby_", "rbs_", "jvm_")) and f.crate not in bins:
            roots[f.key] = f
    start = {k: g for k, g in roots.items() if k not in dkeys}

    def prints(f, blocks=None):
        return [c for c in f.calls() if PRINT.match(c.name) and (blocks is None or c.bb in blocks)]

    # a command of the binary (not the server): its result tells the caller to stop
    printing = set()
    rev = p.callers()
    work = [f.key for f in p.fns.values() if prints(f)]
    while work:
        k = work.pop()
        if k in printing:
            continue
        printing.add(k)
        work += [g.key for _, g, _ in rev.get(k, ())]

    def decides(g):
        """a function of the binary that runs a command or asks for the server, by its result"""
        return g.crate in bins and g.key in printing

    todo, checked = [g for g in start.values()], set()
    server = {}
    stack = [(g, None) for g in todo]
    while stack:
        g, via = stack.pop()
        if g.key in server or g.key in dkeys:
            continue
        server[g.key] = via
        if decides(g):
            nb = none_blocks(g)
            if nb or any(re.search(r"Option<i32>", g.ty(0) or "") for _ in (0,)):
                fwd, back = blocks_from(g, nb), blocks_reaching(g, nb)
                live = fwd | back
                checked.add(g.key)
                for c in prints(g):
                    put(ctx, "stdout", c.bb not in live, f"{base_fn(g.name)}: prints as a command, not before the server", f"{base_fn(g.name)}:print",
                        f"{base_fn(g.name)} prints to standard output on a path that goes on to serve the protocol", c.loc())
                for k, h, site in p.out_edges(g):
                    if site[0] in live:
                        stack.append((h, g.key))
                    else:
                        ctx.ok("stdout", f"{base_fn(g.name)}: {base_fn(h.name)} runs as a command only", f"{g.file}:{site[1]}")
                continue
        for k, h, site in p.out_edges(g):
            stack.append((h, g.key))

    def trail(k):
        out = []
        while k is not None and len(out) < 25:
            out.append(p.fns[k].name)
            k = server.get(k)
        return list(reversed(out))

    transport = set()
    for c in serves:
        for a in range(len(c.args)):
            for x in walk(c.arg(a)):
                if x[0] == "call":
                    transport.add(x[1])
    n = 0
    for f in p.fns.values():
        live = next((b for g, b in direct if g is f), None)
        on = f.key in server or live is not None
        for c in f.calls():
            if live is not None and c.bb not in live:
                continue
            if PRINT.match(c.name):
                if f.key in checked:
                    continue
                n += 1
                if on:
                    ctx.bad("stdout", f"{base_fn(f.name)}:print", f"{base_fn(f.name)} prints to standard output while the protocol is served there", c.loc(), trail(f.key))
                else:
                    ctx.ok("stdout", f"{base_fn(f.name)}: prints outside the server", c.loc())
            elif HANDLE.match(c.name) and on:
                out = last(c.name) == "stdout"
                used = live is not None and c.name in transport and c.name.startswith("tokio")
                twice = used and sum(1 for d in f.calls() if d.name == c.name and d.bb in live) > 1
                put(ctx, "stdout" if out else "stdin", used and not twice, f"{base_fn(f.name)}: {last(c.name)} belongs to the transport",
                    f"{base_fn(f.name)}:{last(c.name)}", f"{base_fn(f.name)} takes hold of {last(c.name)} besides the protocol's transport", c.loc(), trail(f.key) if f.key in server else None)
            elif RAW.search(c.name) and on:
                v = peel(c.arg(0))
                if v[0] == "const" and v[1] in (0, 1):
                    ctx.bad("stdout" if v[1] else "stdin", f"{base_fn(f.name)}:fd{v[1]}", f"{base_fn(f.name)} opens descriptor {v[1]} besides the protocol's transport", c.loc())
            elif re.search(r"^env_logger::.*Builder::target$", c.name):
                t = p.resolve_up(c.arg(1))
                good = any(x[0] == "agg" and x[3] == "Stderr" for x in walk(t)) and not any(x[0] == "agg" and x[3] == "Stdout" for x in walk(t))
                put(ctx, "log", good, f"{base_fn(f.name)}: log target", f"{base_fn(f.name)}:target", f"{base_fn(f.name)} sends log lines to standard output", c.loc())
            elif re.search(r"^env_logger::.*::(init|try_init)$|^log::set_(boxed_)?logger$", c.name):
                ctx.ok("log", f"{base_fn(f.name)}: logger installed, target checked where set", c.loc())
            elif re.search(r"inherit_(stdio|stdin|stdout)$", c.name):
                ctx.bad("child", f"{base_fn(f.name)}:{last(c.name)}", f"{base_fn(f.name)} gives a sandboxed module the server's own standard streams", c.loc())
            elif SET.match(c.name):
                if owns(p, c.arg(1)):
                    ctx.bad("child", f"{base_fn(f.name)}:{last(c.name)}:own", f"{base_fn(f.name)} hands the server's own {last(c.name)} to a program it starts", c.loc())
                else:
                    ctx.ok("child", f"{base_fn(f.name)}: {last(c.name)} of the program is its own", c.loc())
    # children
    fl = Flow(p, Child(p))

    def need(c):
        if c.name.startswith("std") and last(c.name) == "output":
            return []
        return ["in"] if last(c.name) == "output" else ["in", "out"]
    starts = [c for c in ctx.calls(lambda c: START.search(c.name))]
    ctx.need(len(starts) >= 5, f"only {len(starts)} program starts found")
    for c in starts:
        if not need(c):
            ctx.ok("child", f"{base_fn(c.fn.name)}: output is captured, input is empty", c.loc())
    guarded(ctx, "child", fl, [c for c in starts if need(c)], need, "a program is started")
    # ending the process
    gl = Flow(p, Gone(p))
    ends = [c for c in ctx.calls(lambda c: EXIT.search(c.name))]
    sink = []
    for c in ends:
        f = c.fn
        live = next((b for g, b in direct if g is f), None)
        if f.key in server and f.crate not in bins:
            sink.append(c)
        else:
            ctx.ok("exit", f"{base_fn(f.name)}: ends the process at startup or as a command only", c.loc())
    guarded(ctx, "exit", gl, sink, ["gone"], "the process is ended")
    ctx.notes.append(f"{len(server)} functions run while the protocol is served")
    ctx.floor("stdout", 3)
    ctx.floor("child", 5)
    ctx.floor("log", 1)
