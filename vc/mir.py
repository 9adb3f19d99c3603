"""Loading of the MIR dump; types, substitution, impl lookup."""
import json


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, list) else x


def sub(t, env):
    """substitute type/const parameters"""
    if isinstance(t, str) or not env:
        return t
    k = t[0]
    if k == "param":
        return env.get(t[1], t)
    if k == "cparam":
        return env.get(t[1], t)
    if k in ("adt", "closure", "fndef"):
        return (k, t[1], tuple(sub(a, env) for a in t[2]))
    if k == "alias":
        return (k, t[1], tuple(sub(a, env) for a in t[2]))
    if k in ("ref", "ptr"):
        return (k, t[1], sub(t[2], env))
    if k == "slice":
        return (k, sub(t[1], env))
    if k == "array":
        return (k, sub(t[1], env), sub(t[2], env))
    if k == "tuple":
        return (k, tuple(sub(a, env) for a in t[1]))
    return t


def ts(t):
    """canonical string of a type, lifetimes dropped"""
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "adt":
        a = [ts(x) for x in t[2] if x != ("lt",)]
        # allocator parameters
        a = [x for x in a if x != "alloc::alloc::Global" and x != "std::alloc::Global"]
        return t[1] + (f"<{','.join(a)}>" if a else "")
    if k in ("closure", "fndef"):
        return f"{k}:{t[1]}"
    if k == "alias":
        a = [ts(x) for x in t[2] if x != ("lt",)]
        return f"<{a[0] if a else '?'} as {t[1]}{'<' + ','.join(a[1:]) + '>' if len(a) > 1 else ''}>"
    if k in ("ref", "ptr"):
        return ("&" if k == "ref" else "*") + ("mut " if t[1] else "") + ts(t[2])
    if k == "slice":
        return f"[{ts(t[1])}]"
    if k == "array":
        return f"[{ts(t[1])};{ts(t[2])}]"
    if k == "tuple":
        return "(" + ",".join(ts(x) for x in t[1]) + ")"
    if k in ("param", "cparam"):
        return t[1]
    if k == "cval":
        return str(t[1])
    return "|".join(str(x) for x in t)


def unify(p, t, env, vars_):
    """match pattern p (with parameters vars_) against t"""
    if isinstance(p, tuple) and p and p[0] in ("param", "cparam") and p[1] in vars_:
        if p[1] in env:
            return teq(env[p[1]], t)
        env[p[1]] = t
        return True
    if isinstance(p, str) or isinstance(t, str):
        return p == t
    if p[0] == "lt" or t[0] == "lt":
        return p[0] == t[0]
    if p[0] == "alias" and p != t:
        # an alias in an impl header, e.g. `impl Trait<<P as X>::Y> for Z<P>`: compare after substitution
        return True
    if p[0] != t[0] or len(p) != len(t):
        return False
    for a, b in zip(p[1:], t[1:]):
        if isinstance(a, tuple) and isinstance(b, tuple) and p[0] in ("adt", "tuple", "closure", "fndef", "alias") and (not a or isinstance(a[0], tuple) or not isinstance(a[0], str) or True) and _islist(a) and _islist(b):
            a2 = [x for x in a if x != ("lt",)]
            b2 = [x for x in b if x != ("lt",)]
            if len(a2) != len(b2):
                return False
            for x, y in zip(a2, b2):
                if not unify(x, y, env, vars_):
                    return False
        elif isinstance(a, (tuple, str)) and isinstance(b, (tuple, str)):
            if isinstance(a, str) and isinstance(b, str):
                if a != b and p[0] != "alias":
                    return False
            elif not unify(a, b, env, vars_):
                return False
        elif a != b:
            return False
    return True


KINDS = {"adt", "ref", "ptr", "param", "alias", "tuple", "slice", "array", "closure", "fndef", "cparam", "cval", "lt", "dyn", "other", "cother", "outlives"}


def _islist(a):
    return not (a and isinstance(a[0], str) and a[0] in KINDS)


def teq(a, b):
    return ts(a) == ts(b)


class Mir:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = d["fns"]
        self.consts = d["consts"]
        self.promoted = d["promoted"]
        self.adts = d["adts"]
        self.impls = d["impls"]
        for i in self.impls:
            i["args"] = tup(i["args"])
            i["vars"] = {g[0] for g in i["generics"] if g[1] != "lt"}
            i["items"] = {k: v for k, v in i["items"]}
            i["types"] = {k: tup(v) for k, v in i["types"]}
        self.by_trait = {}
        for i in self.impls:
            self.by_trait.setdefault(i["trait"], []).append(i)
        self.prep = set()

    def body(self, kind, name):
        f = {"fn": self.fns, "const": self.consts, "promoted": self.promoted}[kind][name]
        b = f["body"] if kind != "promoted" else f
        if (kind, name) not in self.prep:
            b["blocks"] = tup(b["blocks"])
            b["locals"] = tup(b["locals"])
            self.prep.add((kind, name))
        return b

    def field(self, adt, name, var=0):
        for i, (n, t) in enumerate(self.adts[adt]["variants"][var][1]):
            if n == name:
                return i
        raise KeyError(f"{adt}.{name}")

    def find_impl(self, trait, args):
        """local impl of `trait` for the given trait args; returns (impl, env)"""
        best = None
        for im in self.by_trait.get(trait, ()):
            env = {}
            pa = [x for x in im["args"] if x != ("lt",)]
            ta = [x for x in args if x != ("lt",)][: len(pa)]
            if len(pa) != len(ta):
                continue
            if all(unify(p, t, env, im["vars"]) for p, t in zip(pa, ta)):
                # check aliases in the header
                ok = True
                blanket = isinstance(pa[0], tuple) and pa[0][0] == "param"
                if not blanket:
                    return im, env
                if best is None:
                    best = (im, env)
        return best
