"""Editor columns (UTF-16 units), byte offsets and character counts are never taken for one another."""
import re
from core import base_fn
from ir import peel, show, walk
from rules.admission import put
from units import B, C, ITER, U, Units, last

CMP = {"Lt", "Le", "Gt", "Ge", "Eq", "Ne"}
TEXT = re.compile(r"^(&'?\w* ?(mut )?)*(str|alloc::string::String|alloc::borrow::Cow<.*str>|alloc::(boxed|rcs?|sync)(::\w+)*::\w+<str.*>|alloc::\w*::?\w*::?Arc<(str|alloc::string::String).*>)$")
CUT = re.compile(r"(<impl str>|String)::(split_at|split_at_mut|split_at_checked|get|get_mut|get_unchecked|is_char_boundary|replace_range|insert|insert_str|truncate|drain|split_off|remove)$")
WORD = {U: "UTF-16 units", B: "bytes", C: "characters"}


def said(u):
    return " and ".join(WORD[x] for x in sorted(u))


def subject(f):
    return not ("/tests/" in f.file or f.file.endswith("tests.rs") or "/bin/" in f.file or f.crate.endswith(".test"))


def check(ctx):
    p = ctx.p
    us = Units(p)
    ctx.rule("column", "a column put in a position for the editor counts UTF-16 units, never bytes or characters")
    ctx.rule("slice", "text is cut at byte offsets, never at editor columns or character counts")
    ctx.rule("walk", "characters of a text are skipped or taken by character counts, never by columns or byte offsets")
    ctx.rule("compare", "a column is compared with columns only")
    ctx.rule("boundary", "text is cut behind a searched character only when that character's length in bytes is known")
    tok = {a["n"] for cr in p.crates.values() for a in cr["adts"] if len(a["v"]) == 1 and {"delta_start", "length"} <= {x[0] for x in a["v"][0][2]}}
    ctx.need(len(us.pos) >= 2, "no position type found")
    seen = set()

    def once(kind, f, line, what):
        k = (kind, f.file, line, what)
        if k in seen:
            return False
        seen.add(k)
        return True

    cut = {}

    def cuts(f):
        """numbers of unknown origin this function uses to cut text or compares with lengths in bytes"""
        if f.key not in cut:
            r = cut[f.key] = set()
            for c in f.calls():
                if CUT.search(c.name) and len(c.args) > 1 or c.name == "core::ops::index::Index::index" and "p" in c.args[0] and TEXT.match(f.ty(c.args[0]["p"][0]) or ""):
                    t = peel(c.arg(1))
                    r |= {peel(x) for x in (t[5] if t[0] == "agg" else [t])}
            for b in f.bb:
                for st in b["s"]:
                    if st[0] == "=" and st[2][0] == "bin" and st[2][1] in CMP and not b.get("c"):
                        x, y = f.op_term(st[2][2]), f.op_term(st[2][3])
                        for v, w in ((x, y), (y, x)):
                            if peel(v)[0] in ("arg", "var", "upvar") and us.of(w) == {B}:
                                r.add(peel(v))
            cut[f.key] = {x for x in r if x[0] in ("arg", "var", "upvar") and not us.of(x)}
        return cut[f.key]

    def col(f, line, t, bb):
        if us.ascii(f, bb):
            return
        u = us.of(t) - {U}
        nm = base_fn(f.name)
        if not us.of(t) and peel(t) in cuts(f):
            u = frozenset((B,))
        if once("c", f, line, show(t)):
            put(ctx, "column", not u, f"{nm}: column {show(t)[:60]}", f"{nm}:column:{'+'.join(sorted(u))}", f"{nm} reports a column that counts {said(u)}: wrong on every line with wide characters", f"{f.file}:{line}")

    def pair(f, line, x, y, bb):
        a = us.of(x)
        if not a:
            return
        b = us.of(y)
        if not b or U not in a | b:
            return
        if us.ascii(f, bb):
            return
        nm = base_fn(f.name)
        if once("m", f, line, show(x)):
            put(ctx, "compare", a == b, f"{nm}: compares columns", f"{nm}:compare:{'+'.join(sorted(a))}:{'+'.join(sorted(b))}",
                f"{nm} compares a number that counts {said(a)} with one that counts {said(b)}", f"{f.file}:{line}")

    for f in p.fns.values():
        if not subject(f):
            continue
        nm = base_fn(f.name)
        for bi, b in enumerate(f.bb):
            if b.get("c"):
                continue
            for st in b["s"]:
                if st[0] != "=":
                    continue
                rv = st[2]
                if rv[0] == "agg" and rv[1] == "adt" and rv[2] in us.pos:
                    col(f, st[3], f.op_term(rv[5][list(rv[4]).index("character")]), bi)
                elif rv[0] == "agg" and rv[1] == "adt" and rv[2] in tok:
                    for n in ("delta_start", "length"):
                        col(f, st[3], f.op_term(rv[5][list(rv[4]).index(n)]), bi)
                elif rv[0] == "bin" and rv[1] in CMP:
                    pair(f, st[3], f.op_term(rv[2]), f.op_term(rv[3]), bi)
                pl = st[1]
                if len(pl) > 1 and pl[-1] != "*" and pl[-1][0] == "f" and len(pl[-1]) > 2 and (pl[-1][2] in us.pos and pl[-1][1] == "character" or pl[-1][2] in tok and pl[-1][1] in ("delta_start", "length")):
                    col(f, st[3], f.rv_term(rv), bi)
                for pp in places(rv):
                    for e in pp[1:]:
                        if e != "*" and e[0] == "i" and isinstance(e[1], int):
                            u = us.of(f.term(e[1]))
                            if U in u and not us.ascii(f, bi) and once("x", f, st[3], ""):
                                put(ctx, "slice", False, "", f"{nm}:index", f"{nm} indexes with a column", f"{f.file}:{st[3]}")
        for c in f.calls():
            l = last(c.name)
            if c.callee is None or not c.args:
                continue
            if l == "new" and len(c.args) == 2 and (f.ty(c.dest[0]) if len(c.dest) == 1 else "") in us.pos:
                col(f, c.line, c.arg(1), c.bb)
            elif c.name in ("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge", "core::cmp::PartialEq::eq", "core::cmp::Ord::cmp"):
                pair(f, c.line, c.arg(0), c.arg(1), c.bb)
            elif l == "contains" and "ops::range" in c.name and len(c.args) == 2:
                r = peel(c.arg(0))
                if r[0] == "agg":
                    for x in r[5]:
                        pair(f, c.line, x, c.arg(1), c.bb)
            elif c.name in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut") or CUT.search(c.name):
                ty = f.ty(c.args[0]["p"][0]) if "p" in c.args[0] and len([e for e in c.args[0]["p"][1:] if e != "*"]) == 0 else ""
                text = bool(TEXT.match(ty)) or CUT.search(c.name)
                t = peel(c.arg(1))
                bounds = list(t[5]) if t[0] == "agg" else list(t[2]) if t[0] == "call" and "Range" in t[1] else [t]
                bad = set()
                for x in bounds:
                    bad |= us.of(x) & ({U, C} if text else {U})
                if us.ascii(f, c.bb):
                    continue
                if text and once("s", f, c.line, show(t)):
                    put(ctx, "slice", not bad, f"{nm}: {show(t)[:70]}", f"{nm}:slice:{'+'.join(sorted(bad))}", f"{nm} cuts text at an offset that counts {said(bad)}: panics or cuts elsewhere on wide characters", c.loc())
                    for x in bounds:
                        w = behind(p, x, us)
                        if w is not None:
                            put(ctx, "boundary", w, f"{nm}: {show(x)[:70]}", f"{nm}:boundary", f"{nm} cuts text one byte behind a character that can be several bytes long: panics", c.loc())
                elif bad:
                    put(ctx, "slice", False, "", f"{nm}:index", f"{nm} indexes with a column", c.loc())
            elif c.name.startswith(ITER) and l in ("nth", "take", "skip") and len(c.args) == 2:
                u0, _ = us.base(c.arg(0))
                if u0 and not us.ascii(f, c.bb):
                    u = us.of(c.arg(1)) - {u0}
                    if once("w", f, c.line, show(c.arg(1))):
                        put(ctx, "walk", not u, f"{nm}: {l} {show(c.arg(1))[:60]}", f"{nm}:walk:{'+'.join(sorted(u))}", f"{nm} walks {said({u0})} by a number that counts {said(u)}", c.loc())
    ctx.floor("column", 12)
    ctx.floor("slice", 20)


def places(rv):
    if rv[0] in ("ref", "disc", "len"):
        return [rv[2] if rv[0] == "ref" else rv[1]]
    from ir import ops_of
    return [o["p"] for o in ops_of(rv) if "p" in o]


def behind(p, t, us):
    """for `search(..) + k`: is k the length in bytes of what was searched?  None if it is no such sum"""
    t = peel(t)
    if t[0] == "field" and t[2] == "0" and t[1][0] == "bin":
        t = t[1]
    if t[0] != "bin" or not t[1].startswith("Add"):
        return None
    a, b = peel(t[2]), peel(t[3])
    if a[0] == "const":
        a, b = b, a
    if b[0] != "const" or not isinstance(b[1], int) or b[1] == 0:
        return None
    k = b[1]
    while a[0] in ("some", "down") or a[0] == "call" and last(a[1]) in ("unwrap", "expect", "branch"):
        a = peel(a[1] if a[0] != "call" else a[2][0])
    if a[0] == "call" and re.search(r"(<impl str>|String)::(find|rfind)$", a[1]) and len(a[2]) > 1:
        n = width(a[2][1])
        return n is not None and n == k if n != "?" else None
    return None


def width(t):
    """bytes a pattern matches: a number, '?' when the pattern is not known here, None when it varies"""
    t = peel(t)
    if t[0] == "const":
        if isinstance(t[1], int) and not isinstance(t[1], bool):
            return len(chr(t[1]).encode()) if t[1] < 0x110000 and not 0xD800 <= t[1] < 0xE000 else "?"
        return len(t[1].encode()) if isinstance(t[1], str) else "?"
    if t[0] == "agg" and t[1] == "closure":
        return None
    if t[0] == "agg" and t[1] == "array":
        w = {width(x) for x in t[5]}
        return w.pop() if len(w) == 1 else None
    return "?"
