"""Shared check context: obligations, violations, known findings, evidence."""
import json, os, re, sys, time
import facts
from ir import Program

ROOT = facts.ROOT
CRATES = ("ruby_fast_lsp", "ruby_analysis", "rbs_parser", "ruby_fast_lsp_extension_api",
          "ruby_fast_lsp_extension_wasm_host", "ruby_fast_lsp_jvm_metadata")


def base_fn(name):
    """stable name of the item a closure / async body belongs to."""
    return re.sub(r"(::\{[^}]*\})+$", "", re.sub(r"::\{closure#\d+\}", "", name))


class Ctx:
    def __init__(self, pid, p, treekey):
        self.pid, self.p, self.treekey = pid, p, treekey
        self.obl = {}          # rule -> list of (what, where)
        self.viol = []
        self.seen = set()
        self.rules = {}
        self.notes = []
        self._cache = {}

    # -- reporting
    def rule(self, rid, text):
        self.rules[rid] = text
        self.obl.setdefault(rid, [])

    def ok(self, rid, what, where=""):
        self.obl[rid].append((what, where))

    def bad(self, rid, key, msg, where, path=None):
        """record a violation; `key` identifies it without line numbers."""
        self.obl[rid].append((key, where))
        k = f"{rid}:{key}"
        if k in self.seen:
            return
        self.seen.add(k)
        self.viol.append({"rule": rid, "key": k, "message": msg, "where": where, "path": path or []})

    def need(self, cond, msg):
        """fail closed: the analysis lost an anchor it reasons from."""
        if not cond:
            raise facts.Broken(f"{self.pid}: {msg}")
        return cond

    def floor(self, rid, n):
        """fewer obligations than ever possible on a healthy tree: the rule has gone blind."""
        if len(self.obl[rid]) < n:
            raise facts.Broken(f"{self.pid}: rule {rid} examined {len(self.obl[rid])} sites, expected at least {n}")

    # -- queries
    def calls(self, pred=None, crates=None):
        """all call sites in first-party, non-test code."""
        for f in self.p.fns.values():
            for c in f.calls():
                if pred is None or pred(c):
                    yield c

    def calls_named(self, rx):
        r = self._cache.get(rx)
        if r is None:
            x = re.compile(rx)
            hit = {}
            r = []
            for f in self.p.fns.values():
                for c in f.calls():
                    n = c.name
                    h = hit.get(n)
                    if h is None:
                        h = hit[n] = bool(x.search(n))
                    if h:
                        r.append(c)
            self._cache[rx] = r
        return r

    def fns_named(self, rx):
        x = re.compile(rx)
        return [f for f in self.p.fns.values() if x.search(f.name)]

    def fn1(self, rx):
        r = [f for f in self.fns_named(rx) if f.kind == "fn"]
        self.need(len(r) >= 1, f"function /{rx}/ not found")
        return r[0]


def known_findings():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fh:
        return json.load(fh)["known"]


def run(pid, fn, level, technique, tier):
    t0 = time.time()
    try:
        crates, key, secs = facts.load()
        p = Program(crates)
        ctx = Ctx(pid, p, key)
        fn(ctx)
    except facts.Broken as e:
        print(f"BROKEN property={pid} {e}")
        return 2
    kn = {(k["property"], k["key"]): k for k in known_findings()}
    new, known = [], []
    for v in ctx.viol:
        (known if (pid, v["key"]) in kn else new).append(v)
    edir = os.path.join(ROOT, "evidence")
    os.makedirs(edir, exist_ok=True)
    nob = {r: len(o) for r, o in ctx.obl.items()}
    total = sum(nob.values())
    distinct = len({(r, w) for r, o in ctx.obl.items() for w, _ in o})
    samples = []
    for r, o in ctx.obl.items():
        for w, loc in o[:4]:
            samples.append(f"[{r}] {w} {loc}")
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
        "coverage": {
            "explanation": f"Static analysis ({technique}) of the type-checked MIR of every first-party crate of the current tree; "
                           "every obligation below is a construct of the source that the rule was evaluated on, over all paths.",
            "obligations": total, "distinct_obligations": distinct, "discharged": total - len(ctx.viol),
            "functions_analysed": len(p.fns), "basic_blocks": sum(len(f.bb) for f in p.fns.values()),
            "rules": ctx.rules, "obligations_per_rule": nob, "samples": samples[:60], "notes": ctx.notes,
            "tree": key, "known_findings": [v["key"] for v in known],
        },
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(edir, f"{pid}.json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for v in known:
        print(f"KNOWN-FINDING: property={pid} {v['message']} at {v['where']}")
    if new:
        rp = os.path.join(edir, f"{pid}.violations.json")
        with open(rp, "w") as fh:
            json.dump(new, fh, indent=1)
        for v in new:
            print(f"  {v['rule']}: {v['message']}\n    at {v['where']}")
            for s in v["path"][:30]:
                print(f"      {s}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    print(f"OK property={pid} obligations={total} functions={len(p.fns)} rules={len(ctx.rules)} wall={ev['wall_s']}s")
    return 0
