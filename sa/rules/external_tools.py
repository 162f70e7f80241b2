"""External tools: disabled means never run, no shell, bounded by a deadline, never left running, output only used on success."""
import re
from core import base_fn
from flow import Spec, Flow, FULL
from guard import guarded, guarded_at, roots_of
from ir import peel, peel_future, walk, show
from vals import closure_arg, mentions, origins, has_field, const_val

SPAWN = r"^(tokio|std)::process::Command::(spawn|output|status)$"
TSPAWN = r"^tokio::process::Command::(spawn|output|status)$"
SHELLS = re.compile(r"^(.*/)?(sh|bash|zsh|dash|ksh|fish|csh|cmd|cmd\.exe|powershell|powershell\.exe|pwsh|env|eval)$")
PRIM = re.compile(r"^tokio::process::Child::(wait|wait_with_output)$|^tokio::io::util::async_(read|write|buf_read)_ext::\w+::(read\w*|write\w*|flush|shutdown|copy\w*)$"
                  r"|^tokio::io::util::copy::copy|^tokio::io::util::(async_read_ext|async_write_ext)::")


def is_kind_none(t):
    return t[0] == "agg" and t[1] == "adt" and t[3] == "None" and re.search(r"::(LinterKind|FormatterKind)$", str(t[2]))


class S(Spec):
    atoms = ["linter", "formatter", "exit", "nonempty", "kill_on_drop", "killed", "ended"]
    text = {"linter": "the linter being enabled", "formatter": "the formatter being enabled", "exit": "the tool having exited with status 0 or 1",
            "nonempty": "the corrected source being non-empty (or the document empty)", "kill_on_drop": "kill-on-drop being set on the command",
            "killed": "the child having been killed", "ended": "the child having exited or having been killed"}

    def __init__(s, p):
        s.p = p

    def prefilter(s, f):
        return f.crate == "ruby_fast_lsp.lib"

    def cond(s, fn, t, o):
        # outcome of a match/compare on a kind field
        r = []
        k = s.kind_of(fn, t)
        if k:
            if isinstance(o, str) and o not in ("None", "!None") and o[0] != "!":
                r.append(k)
            if o == "!None":
                r.append(k)
        if t[0] == "call":
            l = t[1].rsplit("::", 1)[-1]
            if t[1] == "std::process::ExitStatus::success" and o is True:
                r.append("exit")
            if l == "is_empty" and isinstance(o, bool):
                src = s.p.resolve_up(t[2][0])
                tool = mentions(s.p, src, lambda x: x[0] == "field" and x[2] == "stdout", 3)
                if tool and o is False:
                    r.append("nonempty")
                if not tool and o is True:
                    r.append("nonempty")
        u = peel(t)
        if o in ("Some",) and not (u[0] == "call" and u[1].rsplit("::", 1)[-1] in ("try_wait", "map_err", "context", "with_context", "or_else", "branch")) and any(x[0] == "call" and x[1] == "std::process::Child::try_wait" for x in walk(t)):
            r.append("ended")
        if o in ("Err",) and any(x[0] == "call" and x[1] == "std::process::Child::try_wait" for x in walk(t)):
            r.append("ended")
        return r

    def kind_of(s, fn, t):
        t = peel(t)
        if t[0] == "field" and t[2] in ("linter", "formatter"):
            return t[2]
        if t[0] in ("arg", "upvar", "var"):
            t2 = peel(s.p.resolve_up(t))
            if t2[0] == "field" and t2[2] in ("linter", "formatter"):
                return t2[2]
        return None

    def cmp(s, fn, op, a, b):
        r = []
        if op == "Ne" and is_kind_none(peel(b)):
            k = s.kind_of(fn, a)
            if k:
                r.append(k)
        if op == "Eq":
            b2 = peel(b)
            if b2[0] == "agg" and b2[1] == "adt" and b2[3] == "Some" and b2[5]:
                b2 = peel(b2[5][0]) if isinstance(b2[5][0], tuple) else b2
            if b2[0] == "const" and b2[1] in (0, 1) and not isinstance(b2[1], bool) and exit_code(s.p, a):
                r.append("exit")
        return r

    def event(s, c):
        if c.name == "tokio::process::Command::kill_on_drop" and const_val(c.arg(1)) is True:
            return ("kill_on_drop",)
        if c.name in ("tokio::process::Child::kill", "tokio::process::Child::start_kill", "std::process::Child::kill"):
            return ("killed", "ended")
        return ()

    def kill(s, c):
        if c.name == "tokio::process::Command::kill_on_drop" and const_val(c.arg(1)) is not True:
            return ("kill_on_drop",)
        if c.name in ("tokio::process::Command::new",):
            return ("kill_on_drop", "killed", "ended")
        if c.name == "std::process::Command::spawn":
            return ("killed", "ended")
        return ()


def exit_code(p, t):
    """the value is the program's own exit code (a program killed by a signal has none)"""
    t = peel(p.resolve_up(t))
    while t[0] == "some":
        t = peel(t[1])
    if t[0] == "arg":
        u = closure_arg(p, t)
        return u is not None and exit_code(p, u)
    if t[0] == "var":
        os_ = origins(p, t, 2)
        return bool(os_) and t not in os_ and all(exit_code(p, o) for o in os_)
    if t[0] != "call":
        return False
    if t[1] == "std::process::ExitStatus::code":
        return True
    l = t[1].rsplit("::", 1)[-1]
    if l == "unwrap_or" and exit_code(p, t[2][0]):
        v = const_val(t[2][1])
        return isinstance(v, int) and v not in (0, 1)
    return l in ("ok_or", "ok_or_else", "context", "with_context") and exit_code(p, t[2][0])


def bounded(p, fl, c, seen):
    """is the future produced by call c only ever polled under a deadline?"""
    f = c.fn
    for d in f.calls():
        if d.name in ("tokio::time::timeout::timeout", "tokio::time::timeout::timeout_at", "tokio::time::timeout", "tokio::time::timeout_at"):
            for x in walk(p.resolve_up(d.arg(1))):
                if x[0] == "call" and x[3] == (f.key, c.bb):
                    return True
    # the enclosing coroutine itself only runs under a deadline
    return body_bounded(p, fl, f, seen)


def body_bounded(p, fl, f, seen):
    if f.key in seen:
        return True
    seen = seen | {f.key}
    if f.kind == "coroutine":
        cr = p.creator(f.key)
        if cr is None:
            return False
        g, bi, agg = cr
        if g.is_async and g.coro is f:
            # async fn: each call site must be bounded
            cs = [(k, h, site) for k, h, site in p.callers().get(g.key, ())]
            if not cs:
                return False
            for k, h, (b, ln) in cs:
                if k != "call":
                    return False
                c2 = next((x for x in h.calls() if x.bb == b), None)
                if c2 is None or not bounded(p, fl, c2, seen):
                    return False
            return True
        # async block: handed to a timeout in its creator, or the creator is itself bounded (inline await)
        spawned = False
        for d in g.calls():
            for a in d.args:
                if "p" not in a:
                    continue
                t = g.op_term(a)
                if any(x[0] == "agg" and x[1] == "coroutine" and x[2] == f.key for x in walk(t)):
                    if d.name.startswith(("tokio::time::timeout",)):
                        return True
                    if "spawn" in d.name.rsplit("::", 1)[-1]:
                        spawned = True
        if spawned:
            return False
        return body_bounded(p, fl, g, seen)
    if f.kind == "closure":
        cr = p.creator(f.key)
        return cr is not None and body_bounded(p, fl, cr[0], seen)
    return False


def check(ctx):
    p = ctx.p
    ctx.rule("gate", "a linter or formatter process is only started while that tool is enabled in the configuration")
    ctx.rule("shell", "no process is started through a shell or with an interpolated command line")
    ctx.rule("deadline", "every wait on a child process or on one of its pipes happens under a deadline")
    ctx.rule("kill", "a child that outlives its deadline is killed: kill-on-drop for async children, explicit kill for blocking ones")
    ctx.rule("result", "tool output is only used after the tool exited with status 0 or 1, and an empty correction of a non-empty document is never returned")
    fl = Flow(p, S(p))
    spawns = [c for c in ctx.calls_named(SPAWN) if c.fn.crate == "ruby_fast_lsp.lib" and "::bin::" not in c.fn.name]
    tsp = [c for c in spawns if c.name.startswith("tokio::")]
    ctx.need(len(tsp) >= 2, "no asynchronous tool spawn found")

    def tool_kind(c):
        """editor tools: command line derived from the configuration's linter/formatter command"""
        ks = set()
        for x in cmd_origin(p, c):
            for y in walk(x):
                if y[0] == "field" and y[2] in ("linter_command", "formatter_command"):
                    ks.add(y[2].split("_")[0])
        return ks
    # gate: follow the command value up to where it is chosen
    ed = [c for c in tsp if c.fn.file.endswith("linter.rs")]
    guard_tools(ctx, fl, ed)
    ctx.floor("gate", 2)
    # shell
    for c in ctx.calls_named(r"^(tokio|std)::process::Command::new$"):
        if c.fn.crate != "ruby_fast_lsp.lib":
            continue
        bad = None
        for o in origins(p, c.arg(0), 5):
            v = const_val(o)
            if isinstance(v, str) and SHELLS.match(v):
                bad = v
        if bad:
            ctx.bad("shell", f"{base_fn(c.fn.name)}:{bad}", f"a process is started through `{bad}`", c.loc())
        else:
            ctx.ok("shell", f"{base_fn(c.fn.name)}: argv spawn", c.loc())
    for c in ctx.calls_named(r"^(tokio|std)::process::Command::(arg|args|raw_arg)$"):
        if c.fn.crate != "ruby_fast_lsp.lib":
            continue
        for x in walk(p.resolve_up(c.arg(1))):
            if x[0] == "const" and x[1] in ("-c", "/c", "/C", "-Command", "-lc"):
                ctx.bad("shell", f"{base_fn(c.fn.name)}:{x[1]}", "a process is given an interpreted command line", c.loc())
    ctx.floor("shell", 5)
    # deadline: all waits / pipe IO
    prims = [c for c in ctx.calls_named(PRIM.pattern) if c.fn.crate == "ruby_fast_lsp.lib"
             and (c.name.startswith("tokio::process") or not re.search(r"::(take|chain|buffer|lines|split)$", c.name))]
    killed_ok = [c for c in prims if c.name.endswith("Child::wait")]
    if killed_ok:
        fl.entries({c.fn.key for c in killed_ok}, roots_of(p))
    for c in prims:
        if bounded(p, fl, c, frozenset()):
            ctx.ok("deadline", f"{base_fn(c.fn.name)}: {c.name.rsplit('::', 1)[-1]} under a deadline", c.loc())
            continue
        if c in killed_ok:
            m = fl.facts_before_call(c)
            if m is not None and (m == FULL or m & fl.bit["killed"]):
                ctx.ok("deadline", f"{base_fn(c.fn.name)}: wait after kill", c.loc())
                continue
        ctx.bad("deadline", f"{base_fn(c.fn.name)}:{c.name.rsplit('::', 1)[-1]}",
                f"`{c.name.rsplit('::', 1)[-1]}` on a child process can wait forever: no deadline covers it", c.loc())
    ctx.floor("deadline", 6)
    # blocking child loops: every blocking std wait must be after kill
    for c in ctx.calls_named(r"^std::process::Child::(wait|wait_with_output)$"):
        if c.fn.crate != "ruby_fast_lsp.lib":
            continue
        fl.entries({c.fn.key}, roots_of(p))
        m = fl.facts_before_call(c)
        if m is not None and (m == FULL or m & fl.bit["killed"]):
            ctx.ok("deadline", f"{base_fn(c.fn.name)}: blocking wait after kill", c.loc())
        else:
            ctx.bad("deadline", f"{base_fn(c.fn.name)}:blocking-wait", "a blocking wait on a live child has no deadline", c.loc())
    # kill
    guarded(ctx, "kill", fl, tsp, ["kill_on_drop"], "async child spawn")
    polls = ctx.calls_named(r"^std::process::Child::try_wait$")
    sites = []
    for c in polls:
        for bi, b in enumerate(c.fn.bb):
            if b["t"][0] == "ret" and not b.get("c"):
                sites.append((c.fn, bi))
    fl.entries({f.key for f, _ in sites}, set(p.fns))
    for f, bi in sites:
        m = fl.at_term(f, fl.ins[f.key], bi)
        ok = m == FULL or m & fl.bit["ended"]
        if ok:
            ctx.ok("kill", f"{base_fn(f.name)}: blocking child is gone or killed on every return", f"{f.file}:{f.line}")
        else:
            ctx.bad("kill", f"{base_fn(f.name)}:return", "a polled child can still be running when the wait returns", f"{f.file}:{f.line}")
        if any(d.name in ("std::time::Instant::elapsed",) or d.name.endswith("Instant::now") for d in f.calls()):
            ctx.ok("deadline", f"{base_fn(f.name)}: polling loop reads a clock", f"{f.file}:{f.line}")
        else:
            ctx.bad("deadline", f"{base_fn(f.name)}:poll", "a child polling loop never looks at the clock", f"{f.file}:{f.line}")
    for c in ctx.calls_named(r"^std::process::Command::spawn$"):
        if c.fn.crate != "ruby_fast_lsp.lib":
            continue
        # spawned blocking children must be handed to a polling wait
        hit = False
        pollk = {x.fn.key for x in polls}
        for d in c.fn.calls():
            if any(g.key in pollk for g in p.targets(d.callee)) or d.name == "std::process::Child::try_wait":
                hit = True
        if hit:
            ctx.ok("kill", f"{base_fn(c.fn.name)}: blocking child handed to the bounded wait", c.loc())
        else:
            ctx.bad("kill", f"{base_fn(c.fn.name)}:spawn", "a blocking child is started without a bounded wait", c.loc())
    ctx.floor("kill", 3)
    # result
    uses = []
    for c in ctx.calls_named(r"from_utf8(_lossy)?$"):
        if c.fn.crate == "ruby_fast_lsp.lib" and c.fn.file.endswith("linter.rs"):
            if mentions(p, c.arg(0), lambda x: x[0] == "field" and x[2] == "stdout", 3):
                uses.append(c)
    guarded(ctx, "result", fl, uses, ["exit"], "using tool output")
    ctx.floor("result", 2)
    for f in p.fns.values():
        if f.crate != "ruby_fast_lsp.lib" or f.kind != "coroutine" or not f.file.endswith("linter.rs"):
            continue
        if not any(c.fn.key == f.key and c.name == "alloc::string::String::from_utf8" for c in uses):
            continue
        sites = []
        for bi, b in enumerate(f.bb):
            if b.get("c"):
                continue
            for st in b["s"]:
                if st[0] == "=" and st[2][0] == "agg" and st[2][1] == "adt" and st[2][3] == "Ok" and st[2][5] and \
                        mentions(p, f.op_term(st[2][5][0]), lambda x: x[0] == "field" and x[2] == "stdout", 3):
                    sites.append((f, bi, st[3], "returning corrected source"))
        guarded_at(ctx, "result", fl, sites, ["exit", "nonempty"], "returning corrected source")


def cmd_origin(p, c):
    return origins(p, c.arg(0), 6)


def guard_tools(ctx, fl, ed):
    """walk up from each editor-tool spawn to the functions that read the configuration; each such call chain must have
    seen the matching kind enabled."""
    p = ctx.p
    todo = {c.fn.key for c in ed}
    fl.entries(todo, roots_of(p))
    for c in ed:
        # every caller chain: facts for linter OR formatter, judged per incoming call edge
        work = [(c.fn, c.bb, "call", None)]
        seen = set()
        bad = None
        while work:
            f, bi, kind, g = work.pop()
            if (f.key, bi) in seen or f.key not in fl.ins:
                continue
            seen.add((f.key, bi))
            m = fl.at_site(f, fl.ins[f.key], bi, kind, g) if g is not None else fl.at_term(f, fl.ins[f.key], bi)
            if m == FULL or m & (fl.bit["linter"] | fl.bit["formatter"]):
                continue
            cs = p.callers().get(f.key, [])
            if not cs:
                bad = f
                break
            for k2, h, (b2, ln) in cs:
                work.append((h, b2, k2, f))
        if bad is not None:
            ctx.bad("gate", f"{base_fn(c.fn.name)}:{base_fn(bad.name)}", f"an editor tool process is started from {base_fn(bad.name)} without its tool being enabled", c.loc())
        else:
            ctx.ok("gate", f"{base_fn(c.fn.name)} only runs while its tool is enabled", c.loc())
