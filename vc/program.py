"""The parsed crate: functions, methods, types, constants, and name resolution."""
import json, os, subprocess
from terms import Unsupported

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")


class Fn:
    def __init__(self, j, file):
        self.j = j; self.file = file; self.name = j["name"]; self.params = j["params"]; self.body = j["body"]; self.ret = j["ret"]
        c = j["ctx"]
        self.self_ty = c.get("self") if c else None
        tr = c.get("trait") if c else None
        self.trait = tr[-1][0] if tr else None
        self.trait_def = c.get("trait_def") if c else None
        self.line = j["l"]

    @property
    def tname(self):
        t = self.self_ty
        while t and t["k"] == "tref": t = t["ty"]
        return t["path"][-1][0] if t and t["k"] == "tpath" else None

    def qual(self):
        base = os.path.relpath(self.file, REPO)
        t = self.tname or self.trait_def
        return "%s:%s%s" % (base, t + "::" if t else "", self.name)

    def __repr__(self): return self.qual()


def parse_use(toks):
    """'a :: { b , c :: d }' -> {name: [segments]}"""
    out = {}
    toks = toks.replace("{", " { ").replace("}", " } ").replace(",", " , ").split()
    pos = 0
    def tree(prefix):
        nonlocal pos
        path = list(prefix)
        while pos < len(toks):
            t = toks[pos]
            if t == "::": pos += 1; continue
            if t == "{":
                pos += 1
                while toks[pos] != "}":
                    if toks[pos] == ",": pos += 1; continue
                    tree(path)
                pos += 1
                return
            if t in (",", "}"): break
            if t == "as":
                out[toks[pos + 1]] = path; pos += 2; return
            path.append(t); pos += 1
        if path: out[path[-1]] = path
    tree([])
    return out


class Program:
    def __init__(self, files=None, repo=None):
        repo = repo or REPO
        if files is None:
            files = []
            for d, _, fs in os.walk(os.path.join(repo, "src")):
                for f in sorted(fs):
                    if f.endswith(".rs") and "gurobi" not in f: files.append(os.path.join(d, f))
        exe = os.environ.get("VC_RSDUMP", os.path.join(HERE, "rsdump/target/debug/rsdump"))
        out = subprocess.run([exe] + sorted(files), capture_output=True, text=True, check=True).stdout
        self.ast = json.loads(out)
        self.free = {}; self.methods = {}; self.traitfns = {}; self.structs = {}; self.enums = {}; self.consts = {}; self.uses = {}; self.aliases = {}; self.impls = {}
        self.all = []
        for f, items in self.ast.items():
            if items is None: raise Unsupported("%s does not parse" % f)
            self.uses[f] = {}
            for it in items: self.item(it, f)

    def item(self, it, f):
        k = it["k"]
        if k == "fn":
            fn = Fn(it, f); self.all.append(fn)
            if fn.trait_def: self.traitfns.setdefault(fn.trait_def, {})[fn.name] = fn
            elif fn.self_ty is not None:
                t = fn.tname
                self.methods.setdefault(t, {}).setdefault(fn.name, []).append(fn)
                if fn.trait: self.impls.setdefault(t, set()).add((fn.trait, f))
            else: self.free.setdefault(fn.name, []).append(fn)
        elif k == "structdef": self.structs.setdefault(it["name"], []).append((f, it))
        elif k == "enumdef": self.enums.setdefault(it["name"], []).append((f, it))
        elif k == "const": self.consts.setdefault(it["name"], []).append((f, it))
        elif k == "alias": self.aliases.setdefault(it["name"], []).append((f, it))
        elif k == "use":
            for n, p in parse_use(it["src"]).items():
                if any("gurobi" in x for x in p): continue
                self.uses[f][n] = p

    def pick(self, cands, name, file, key=lambda c: c[0]):
        """choose among same-named candidates as seen from file"""
        if not cands: return None
        if len(cands) == 1: return cands[0]
        for c in cands:
            if key(c) == file: return c
        u = self.uses.get(file, {}).get(name)
        if u:
            mods = [x for x in u[:-1] if x not in ("crate", "super", "self")]
            best = [c for c in cands if all(m in _parts(key(c)) for m in mods)] if mods else []
            if len(best) == 1: return best[0]
            if mods:
                b2 = [c for c in cands if os.path.basename(key(c))[:-3] == mods[-1]]
                if len(b2) >= 1: cands = b2
                if len(b2) == 1: return b2[0]
        # the closest directory
        def common(c):
            a, b = os.path.dirname(key(c)).split("/"), os.path.dirname(file).split("/")
            n = 0
            while n < min(len(a), len(b)) and a[n] == b[n]: n += 1
            return n
        best = max(common(c) for c in cands)
        cs = [c for c in cands if common(c) == best]
        if len(cs) == 1: return cs[0]
        # imported by a glob from a sibling module
        for n, p in self.uses.get(file, {}).items():
            if n == "*":
                cs2 = [c for c in cs if os.path.basename(key(c))[:-3] in p]
                if len(cs2) == 1: return cs2[0]
        raise Unsupported("ambiguous name %s in %s" % (name, file))

    def struct(self, name, file): return self.pick(self.structs.get(name), name, file)
    def enum(self, name, file): return self.pick(self.enums.get(name), name, file)
    def const(self, name, file):
        c = [x for x in self.consts.get(name, [])]
        return self.pick(c, name, file)

    def type_key(self, name, file):
        """(name, defining file) of a struct or enum visible in file, else None"""
        c = (self.structs.get(name) or []) + (self.enums.get(name) or [])
        r = self.pick(c, name, file)
        return (name, r[0]) if r else None

    def free_fn(self, name, file, mod=None):
        c = self.free.get(name)
        if not c: return None
        if mod:
            m = [x for x in c if os.path.basename(x.file)[:-3] == mod or "/%s/" % mod in x.file]
            if len(m) == 1: return m[0]
        return self.pick(c, name, file, key=lambda x: x.file)

    def method(self, tkey, name, trait=None):
        """method of a concrete type (inherent, trait impl, or trait default)"""
        tn, tf = tkey
        c = [m for m in self.methods.get(tn, {}).get(name, []) if self.owner(m) == tkey]
        if trait:
            t = [m for m in c if m.trait == trait]
            if t: return t[0]
            d = self.traitfns.get(trait, {}).get(name)
            if d is not None and d.body is not None: return d
        inh = [m for m in c if m.trait is None]
        if inh: return inh[0]
        if len(c) == 1: return c[0]
        if c: return c
        for tr, f in sorted(self.impls.get(tn, ())):
            d = self.traitfns.get(tr, {}).get(name)
            if d is not None and d.body is not None and self.impl_owner(tn, f) == tkey: return d
        return None

    def impl_owner(self, tn, f):
        try: return self.type_key(tn, f)
        except Unsupported: return None

    def owner(self, m):
        try: return self.type_key(m.tname, m.file)
        except Unsupported: return None


def _parts(f): return f[:-3].split("/")


if __name__ == "__main__":
    p = Program()
    print(len(p.all), p.method(("AdaBoost", "/repo/src/booster/adaboost/adaboost_algorithm.rs"), "boost"))
    print(p.type_key("LPModel", "/repo/src/booster/mlpboost/mlpboost_algorithm.rs"))
    print(p.type_key("Bins", "/repo/src/weak_learner/decision_tree/criterion.rs"))
    print(p.free_fn("edge_of_hypothesis", "/repo/src/booster/adaboost/adaboost_algorithm.rs", "utils"))
    for f, u in list(p.uses.items())[:5]: print(f, u)
