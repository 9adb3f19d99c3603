"""Symbolic execution of MIR: function by function, all paths, all inputs."""
import itertools
from core import *
from mir import Mir, sub, ts, tup

OPTION, RESULT, CFLOW = "core::option::Option", "core::result::Result", "core::ops::ControlFlow"
CTO = "CtOption"


def some(v):
    return Agg(OPTION, (v,), 1)


NONE = Agg(OPTION, (), 0)


def ok(v):
    return Agg(RESULT, (v,), 0)


def err(v):
    return Agg(RESULT, (v,), 1)


UNIT = Agg("tuple", ())


class State:
    __slots__ = ("mem", "pc", "foralls", "rp", "nr", "depth", "trace", "inv")

    def __init__(self):
        self.mem, self.pc, self.foralls, self.rp, self.nr, self.depth, self.trace, self.inv = {}, [], [], "", 0, 0, (), {}

    def copy(self):
        s = State.__new__(State)
        s.mem, s.pc, s.foralls, s.rp, s.nr, s.depth, s.trace, s.inv = dict(self.mem), list(self.pc), list(self.foralls), self.rp, self.nr, self.depth, self.trace, dict(self.inv)
        return s


class Forall:
    """for all j in [0, n): at(j) holds, where at(j) is a list of alternatives (pcs, foralls)"""
    def __init__(self, n, at, name=""):
        self.n, self.at, self.name = n, at, name


class Frame:
    __slots__ = ("name", "env", "cells", "body", "kind")


INT_RANGES = {"u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1), "u128": (0, 2**128 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1), "isize": (-2**63, 2**63 - 1), "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i128": (-2**127, 2**127 - 1), "bool": (0, 1), "char": (0, 0x10FFFF)}


class Ex:
    def __init__(self, mir):
        self.mir = mir
        self.ids = itertools.count(1)
        self.handlers = {}       # exact path -> handler
        self.contracts = {}      # crate fn path -> contract object (with .apply)
        self.active = set()      # contracts currently being verified (body is used for that function)
        self.used_contracts = set()
        self.inlined = set()
        self.used_ext = set()
        self.steps = 0
        self.max_steps = 400000
        self.max_visits = 300
        self.fresh_builders = {}
        self.loop_index = None
        self.in_map = 0
        self.recurrences = None      # a list: opaque loop state is described by recurrences, which are recorded here

    # ---------------------------------------------------------------- memory
    def alloc(self, st, v):
        c = next(self.ids)
        st.mem[c] = v
        return c

    def ref(self, st, v, mut=False):
        return Ref(self.alloc(st, v), (), mut)

    def read(self, st, cell, proj=()):
        if cell in st.mem:
            v = st.mem[cell]
        elif cell in self.gmem:
            v = self.gmem[cell]
        else:
            raise Unsupported("dangling cell")
        for p in proj:
            v = self.step(v, p)
        if v is POISON:
            raise Unsupported("loop-carried state")
        return v

    def step(self, v, p):
        if v is POISON:
            raise Unsupported("loop-carried state")
        if p[0] == "f":
            if isinstance(v, Agg):
                if p[1] >= len(v.fs):
                    raise Unsupported(f"field {p[1]} of {v!r}"[:200])
                return v.fs[p[1]]
            raise Unsupported(f"field {p[1]} of {v!r}"[:200])
        if p[0] == "i":
            if isinstance(v, Seq):
                return v.at(p[1])
            if isinstance(v, Slot) and eqpoly(v.j, p[1]):
                return v.cur
            raise Unsupported(f"index of {v!r}"[:200])
        if p[0] == "s":
            return self.slice(v, p[1], p[2])
        raise Unsupported(f"projection {p}")

    def slice(self, v, a, b):
        if not isinstance(v, Seq):
            raise Unsupported(f"slice of {v!r}"[:200])
        if conc(a) == 0 and eqpoly(b, v.n):
            return v
        if v.items is not None and conc(a) is not None and conc(b) is not None:
            return Seq(items=v.items[conc(a):conc(b)])
        return Seq(n=norm(iv(b) - iv(a)), f=lambda j, v=v, a=a: v.at(norm(j + a)))

    def put(self, v, proj, new):
        if not proj:
            return new
        p = proj[0]
        if p[0] == "f":
            if v is UNINIT:
                raise Unsupported("field write to uninit")
            return v.put(p[1], self.put(v.fs[p[1]], proj[1:], new))
        if p[0] == "i":
            i = p[1]
            if isinstance(v, Slot):
                if eqpoly(v.j, i):
                    return Slot(v.old, v.j, self.put(v.cur, proj[1:], new))
                raise Unsupported("write at another index than the loop's")
            if v.items is None and self.loop_index is not None and eqpoly(self.loop_index, i):
                return Slot(v, i, self.put(v.at(i), proj[1:], new))
            if v.items is not None and conc(i) is not None:
                c = conc(i)
                return Seq(items=v.items[:c] + (self.put(v.items[c], proj[1:], new),) + v.items[c + 1:])
            raise Unsupported("write at symbolic index")
        if p[0] == "s":
            a, b = conc(p[1]), conc(p[2])
            if v.items is not None and a is not None and b is not None:
                inner = self.put(Seq(items=v.items[a:b]), proj[1:], new)
                if inner.items is not None:
                    return Seq(items=v.items[:a] + inner.items + v.items[b:])
            # symbolic slice replaced as a whole: concatenation
            inner = self.put(self.slice(v, p[1], p[2]), proj[1:], new)
            return seq_concat(self.slice(v, iv(0), iv(p[1])), inner, self.slice(v, iv(p[2]), v.n))
        raise Unsupported(f"write projection {p}")

    def write(self, st, cell, proj, v):
        st.mem[cell] = self.put(st.mem[cell], proj, v) if proj else v

    def deref(self, st, v):
        n = 0
        while isinstance(v, Ref):
            v = self.read(st, v.cell, v.proj)
            n += 1
            if n > 20:
                raise Unsupported("deref loop")
        return v

    def lastref(self, st, v):
        """follow references down to the innermost one"""
        while isinstance(v, Ref):
            n = self.read(st, v.cell, v.proj)
            if not isinstance(n, Ref):
                return v
            v = n
        raise Unsupported("not a reference")

    # ---------------------------------------------------------------- places / operands
    def place(self, st, fr, p):
        cell = fr.cells[p[0]]
        proj = []
        for e in p[1]:
            k = e[0]
            if k == "deref":
                v = self.read(st, cell, proj)
                if isinstance(v, Ref):
                    cell, proj = v.cell, list(v.proj)
                # a box is transparent: deref is the identity
            elif k == "field":
                proj.append(("f", e[1]))
            elif k == "downcast":
                pass
            elif k == "index":
                proj.append(("i", self.read(st, fr.cells[e[1]])))
            elif k == "cindex":
                v = self.read(st, cell, proj)
                proj.append(("i", (v.n - e[1]) if e[3] else z3.IntVal(e[1])))
            elif k == "subslice":
                v = self.read(st, cell, proj)
                proj.append(("s", z3.IntVal(e[1]), norm(v.n - e[2]) if e[3] else z3.IntVal(e[2])))
            else:
                raise Unsupported(f"projection {e}")
        return cell, proj

    def operand(self, st, fr, o):
        if o[0] in ("copy", "move"):
            c, p = self.place(st, fr, o[1])
            return self.read(st, c, p)
        if o[0] == "const":
            return self.constant(st, fr, o[1])
        raise Unsupported(f"operand {o[0]}")

    def constant(self, st, fr, c):
        k = c[0]
        if k == "int":
            t = c[2]
            if t == "bool":
                return z3.BoolVal(c[1] != "0")
            if isinstance(t, str):
                return z3.IntVal(int(c[1]))
            if t[0] == "adt":
                return self.scalar_adt(t, int(c[1]))
            raise Unsupported(f"constant {c}"[:200])
        if k in ("str", "bytes"):
            if k == "str":
                return Str(bytes(c[1]))
            return self.ref(st, Seq(items=[z3.IntVal(x) for x in c[1]]))
        if k == "zst":
            t = sub(c[1], fr.env)
            if isinstance(t, tuple) and t[0] == "fndef":
                cal = dict(c[2]) if isinstance(c[2], dict) else None
                return FnV(self.sub_callee(cal, fr.env))
            if isinstance(t, tuple) and t[0] == "closure":
                return Agg(("closure", t[1], t[2]), ())
            if isinstance(t, tuple) and t[0] == "tuple":
                return UNIT
            if isinstance(t, tuple) and t[0] == "adt":
                return Agg(t[1], ())
            if isinstance(t, tuple) and t[0] == "array":
                return Seq(items=())
            raise Unsupported(f"zst {ts(t)}")
        if k == "tyconst":
            kk = sub(c[1], fr.env)
            if kk[0] == "cval":
                return z3.IntVal(kk[1])
            if kk[0] == "cparam":
                return self.cparam(kk[1])
            raise Unsupported(f"const {kk}")
        if k == "uneval":
            return self.uneval(st, fr, c)
        if k == "opaque":
            t = sub(c[2], fr.env)
            return self.opaque_const(st, c, t)
        raise Unsupported(f"constant {k}")

    def scalar_adt(self, t, n):
        """constants of scalar-repr adts (fieldless enums, newtypes)"""
        a = self.mir.adts.get(t[1])
        if a and len(a["variants"]) > 1:
            return Agg(t[1], (), n)
        raise Unsupported(f"scalar adt constant {ts(t)}")

    def cparam(self, name):
        return z3.Int("const_" + name)

    def opaque_const(self, st, c, t):
        raise Unsupported(f"opaque constant of {ts(t)}")

    def sub_callee(self, cal, env):
        if cal is None:
            return None
        return {"path": cal["path"], "args": tuple(sub(tup(a), env) for a in cal["args"]), "trait": cal["trait"], "rpath": cal["rpath"], "rargs": tuple(sub(tup(a), env) for a in cal["rargs"]) if cal["rargs"] is not None else None}

    def uneval(self, st, fr, c):
        _, path, args, prom, rp, ra, t = c
        args = tuple(sub(a, fr.env) for a in args)
        if prom is not None:
            name = f"{path}#{prom}"
            b = self.mir.body("promoted", name)
            env = fr.env
            outs = self.exec_body(st, "promoted", name, b, env, ())
            if len(outs) != 1 or isinstance(outs[0][1], Panic):
                raise Unsupported("promoted with several outcomes")
            st.mem = outs[0][0].mem
            return outs[0][1]
        return self.assoc_const(st, path, args, rp, tuple(sub(a, fr.env) for a in ra) if ra else None, sub(t, fr.env))

    def assoc_const(self, st, path, args, rp, ra, t):
        v = self.const_value(st, path, args, t)
        if v is not None:
            return v
        for p, a in ((rp, ra), (path, args)):
            if p and p in self.mir.consts:
                f = self.mir.consts[p]
                env = self.env_of(f["generics"], a)
                outs = self.exec_body(st, "const", p, self.mir.body("const", p), env, ())
                outs = [o for o in outs if not isinstance(o[1], Panic)]
                if len(outs) != 1:
                    raise Unsupported(f"const {p} with {len(outs)} outcomes")
                st.mem = outs[0][0].mem
                return outs[0][1]
        # trait const: local impl
        tr, _, name = path.rpartition("::")
        f = self.mir.find_impl(tr, args)
        if f and name in f[0]["items"] and f[0]["items"][name] in self.mir.consts:
            p = f[0]["items"][name]
            env = {k: v for k, v in f[1].items()}
            outs = self.exec_body(st, "const", p, self.mir.body("const", p), env, ())
            if len(outs) == 1:
                st.mem = outs[0][0].mem
                return outs[0][1]
        raise Unsupported(f"constant {path}<{','.join(ts(a) for a in args)}>")

    def const_value(self, st, path, args, t):
        return None

    def env_of(self, generics, args):
        env = {}
        for g, a in zip(generics, args or ()):
            if g[1] != "lt":
                env[g[0]] = a
        return env

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dest_ty):
        k = r[0]
        if k == "use" and r[1][0] == "copy" and self.is_box(fr, r[1][1]):
            # a box is not Copy: this is the pointer it holds, on the way to its contents
            c, p = self.place(st, fr, r[1][1])
            v = self.read(st, c, p)
            return v if isinstance(v, Ref) else Ref(c, p, True)
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            c, p = self.place(st, fr, r[2])
            return Ref(c, p, r[1])
        if k == "reborrow":
            c, p = self.place(st, fr, r[2])
            return Ref(c, p, r[1])
        if k == "agg":
            vs = [self.operand(st, fr, o) for o in r[2]]
            kd = r[1]
            if kd[0] == "tuple":
                return Agg("tuple", vs)
            if kd[0] == "array":
                return Seq(items=vs)
            if kd[0] == "adt":
                return Agg(kd[1], vs, kd[2])
            if kd[0] == "closure":
                return Agg(("closure", kd[1], tuple(sub(a, fr.env) for a in kd[2])), vs)
            raise Unsupported(f"aggregate {kd[0]}")
        if k == "bin":
            self.cur = st
            return self.binop(r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.opty(fr, r[2]))
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isbool(v):
                    return z3.Not(v)
                lo, hi = INT_RANGES[self.opty(fr, r[2])]
                return norm(hi - v)
            if r[1] == "Neg":
                return norm(-v)
            if r[1] == "PtrMetadata":
                v = self.deref(st, v)
                if isinstance(v, Seq):
                    return v.n
            raise Unsupported(f"unop {r[1]}")
        if k == "cast":
            return self.cast(st, fr, r)
        if k == "discr":
            c, p = self.place(st, fr, r[1])
            v = self.read(st, c, p)
            if isinstance(v, Agg):
                if v.tag == "core::cmp::Ordering":
                    return z3.IntVal(v.var - 1)
                return z3.IntVal(v.var)
            raise Unsupported(f"discriminant of {v!r}"[:200])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = sub(r[2], fr.env)
            if n[0] == "cval":
                if n[1] <= 256:
                    return Seq(items=[v] * n[1])
                return Seq(n=n[1], f=lambda j: v)
            if n[0] == "cparam":
                return Seq(n=self.cparam(n[1]), f=lambda j: v)
            raise Unsupported(f"repeat {n}")
        raise Unsupported(f"rvalue {k}")

    def opty(self, fr, o):
        if o[0] in ("copy", "move"):
            p = o[1]
            t = fr.body["locals"][p[0]]
            for e in p[1]:
                if e[0] == "field":
                    t = e[2]
                elif e[0] == "deref" and isinstance(t, tuple) and t[0] in ("ref", "ptr"):
                    t = t[2]
                elif e[0] in ("index", "cindex") and isinstance(t, tuple) and t[0] in ("slice", "array"):
                    t = t[1]
            return sub(t, fr.env)
        c = o[1]
        return sub(c[-1] if c[0] != "zst" else c[1], fr.env)

    def is_box(self, fr, pl):
        t = self.opty(fr, ("copy", pl))
        return isinstance(t, tuple) and t[0] == "adt" and t[1] == "alloc::boxed::Box"

    def cast(self, st, fr, r):
        if r[1] == "BoxDerefTransmute" and r[2][0] in ("copy", "move") and r[2][1][1] and r[2][1][1][-1][0] == "field":
            # pointer held by a box: the box is transparent, so this is the address of its contents
            pl = r[2][1]
            pj = list(pl[1])
            while pj and pj[-1][0] == "field" and not self.is_box(fr, (pl[0], pj)):
                pj.pop()
            c, p = self.place(st, fr, (pl[0], pj))
            v = self.read(st, c, p)
            return v if isinstance(v, Ref) else Ref(c, p, True)
        v = self.operand(st, fr, r[2])
        kind = r[1].split("(")[0]
        tt = sub(r[3], fr.env)
        if kind == "IntToInt":
            if isinstance(v, Agg) and not v.fs:
                return z3.IntVal(v.var)
            if isbool(v):
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            src = self.opty(fr, r[2])
            lo, hi = INT_RANGES[tt]
            slo, shi = INT_RANGES.get(src, (None, None))
            if slo is not None and slo >= lo and shi <= hi:
                return v
            if lo == 0:
                if z3.is_int_value(v) and 0 <= v.as_long() <= hi:
                    return v
                if check(st.pc, z3.And(v >= 0, v <= hi), 1500) == "proved":
                    return v
                return mod(v, hi + 1)
            raise Unsupported(f"cast {src} -> {tt}")
        if kind in ("PointerCoercion", "PtrToPtr", "Transmute", "Subtype", "BoxDerefTransmute"):
            return v
        raise Unsupported(f"cast {kind}")

    def binop(self, op, a, b, t):
        if isinstance(a, Ref) or isinstance(b, Ref):
            raise Unsupported("pointer comparison")
        if isbool(a) and isbool(b):
            f = {"Eq": lambda: a == b, "Ne": lambda: a != b, "BitAnd": lambda: z3.And(a, b), "BitOr": lambda: z3.Or(a, b), "BitXor": lambda: z3.Xor(a, b), "Lt": lambda: z3.And(z3.Not(a), b), "Le": lambda: z3.Or(z3.Not(a), b), "Gt": lambda: z3.And(a, z3.Not(b)), "Ge": lambda: z3.Or(a, z3.Not(b))}
            if op not in f:
                raise Unsupported(f"bool {op}")
            return z3.simplify(f[op]())
        if not (isint(a) and isint(b)):
            raise Unsupported(f"{op} on {a!r}, {b!r}"[:200])
        lo, hi = INT_RANGES.get(t, (None, None))
        if op.endswith("WithOverflow"):
            e = norm(self.arith(op[:-12], a, b, t))
            return Agg("tuple", [e, z3.simplify(z3.Or(e < lo, e > hi))])
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            e = norm(self.arith(op.replace("Unchecked", ""), a, b, t))
            if op.endswith("Unchecked"):
                return e
            return mod(e, hi + 1)
        if op in ("Eq", "Ne") and 0 in (conc(a), conc(b)):
            a, b = strip_p2(a if conc(b) == 0 else b), z3.IntVal(0)
        return z3.simplify({"Eq": lambda: a == b, "Ne": lambda: a != b, "Lt": lambda: a < b, "Le": lambda: a <= b, "Gt": lambda: a > b, "Ge": lambda: a >= b}[op]()) if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") else norm(self.arith(op, a, b, t))

    def arith(self, op, a, b, t):
        lo, hi = INT_RANGES.get(t, (0, None))
        ca, cb = conc(a), conc(b)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            return a * b
        if op == "Div":
            if lo != 0:
                raise Unsupported("signed division")
            if ca is not None and cb:
                return z3.IntVal(ca // cb)
            return DIV(norm(a), norm(b))
        if op == "Rem":
            if lo != 0:
                raise Unsupported("signed remainder")
            return mod(a, b)
        if op in ("Shl", "ShlUnchecked"):
            w = hi.bit_length()
            if ca is not None and cb is not None:
                return z3.IntVal((ca << (cb % w)) & hi)
            e = norm(a * P2(norm(b)))
            if ca is not None and ca > 0 and ca & (ca - 1) == 0 and check(self.cur.pc, norm(b + (ca.bit_length() - 1)) < w, 1500) == "proved":
                return e
            if check(self.cur.pc, z3.And(b < w, e <= hi), 1500) == "proved":
                return e
            return mod(e, hi + 1)
        if op in ("Shr", "ShrUnchecked"):
            if ca is not None and cb is not None:
                return z3.IntVal(ca >> cb)
            return DIV(norm(a), norm(P2(norm(b))))
        if op == "BitAnd":
            if ca is not None and cb is not None:
                return z3.IntVal(ca & cb)
            for x, y in ((a, cb), (b, ca)):
                if y is not None and (y & (y + 1)) == 0:
                    return mod(x, y + 1)
                if y is not None and (y & (y - 1)) == 0:
                    return y * mod(DIV(norm(x), z3.IntVal(y)), z3.IntVal(2))
            for x, y in ((a, b), (b, a)):
                if y.num_args() == 1 and y.decl().name() == "P2":
                    return y * mod(DIV(norm(x), y), z3.IntVal(2))
            return AND(norm(a), norm(b))
        if op in ("BitOr", "BitXor") and ca is not None and cb is not None:
            return z3.IntVal(ca | cb if op == "BitOr" else ca ^ cb)
        raise Unsupported(f"integer {op}")

    # ---------------------------------------------------------------- calls
    def call_fnv(self, st, f, args):
        """call a function value (closure, fn item, reference to one)"""
        fref = None
        if isinstance(f, Ref):
            fref = f
            f = self.deref(st, f)
        if isinstance(f, FnV):
            return self.call(st, f.callee, list(args), None, None, 0)
        if isinstance(f, Agg) and isinstance(f.tag, tuple) and f.tag[0] == "closure":
            path = f.tag[1]
            b = self.mir.body("fn", path)
            self_ty = b["locals"][1]
            if isinstance(self_ty, tuple) and self_ty[0] == "ref":
                a0 = fref if fref is not None else self.ref(st, f)
            else:
                a0 = f
            gen = self.mir.fns[path]["generics"]
            env = self.env_of(gen, f.tag[2])
            self.inlined.add(path)
            args = list(args)
            if b["spread"] is not None:
                args = [Agg("tuple", args)]
            return self.exec_body(st, "fn", path, b, env, [a0] + args)
        if isinstance(f, Agg) and f.tag == "ctor":
            pass
        raise Unsupported(f"call of {f!r}"[:200])

    def resolve(self, st, cal, vals):
        """-> ('fn', path, env) | ('ext', path)"""
        rp, ra = cal["rpath"], cal["rargs"]
        if rp and rp in self.mir.fns:
            return "fn", rp, self.env_of(self.mir.fns[rp]["generics"], ra)
        if cal["trait"] and (rp is None or rp.startswith("#")):
            tr = cal["trait"]
            m = cal["path"].rpartition("::")[2]
            f = self.mir.find_impl(tr, cal["args"])
            if f:
                im, env = f
                if m in im["items"]:
                    p = im["items"][m]
                    if p in self.mir.fns:
                        g = self.mir.fns[p]["generics"]
                        env2 = dict(env)
                        # method generics: trailing args of the callee
                        extra = [x for x in g if x[1] != "lt" and x[0] not in env2]
                        ntrait = len([x for x in im["args"] if x != ("lt",)])
                        margs = [x for x in cal["args"] if x != ("lt",)][ntrait:]
                        for x, a in zip(extra, margs):
                            env2[x[0]] = a
                        return "fn", p, env2
            if cal["path"] in self.mir.fns:   # provided method of a local trait
                return "fn", cal["path"], self.env_of(self.mir.fns[cal["path"]]["generics"], cal["args"])
        if rp is None and cal["path"] in self.mir.fns:
            return "fn", cal["path"], self.env_of(self.mir.fns[cal["path"]]["generics"], cal["args"])
        return "ext", rp or cal["path"], None

    def call(self, st, cal, vals, argtys, destty, line):
        """-> list of (state, value | Panic)"""
        if cal["trait"] in ("core::ops::Fn", "core::ops::FnMut", "core::ops::FnOnce") and len(vals) == 2 and isinstance(vals[1], Agg) and vals[1].tag == "tuple":
            return self.call_fnv(st, vals[0], list(vals[1].fs))
        k, p, env = self.resolve(st, cal, vals)
        if k == "fn":
            c = self.contracts.get(p)
            if c is not None and p not in self.active:
                self.used_contracts.add(p)
                outs = c.apply(self, st, vals, env)
                if outs is not None:
                    return outs
            h = self.handlers.get(p)
            if h is not None:
                self.used_ext.add(p)
                return self.outs(st, h(self, st, Call(p, cal, vals, argtys, destty, line, env)))
            self.inlined.add(p)
            return self.exec_body(st, "fn", p, self.mir.body("fn", p), env, vals)
        for q in (p, cal["path"]):
            h = self.handlers.get(q)
            if h is not None:
                self.used_ext.add(q)
                return self.outs(st, h(self, st, Call(q, cal, vals, argtys, destty, line, None)))
        h = self.trait_dispatch(st, cal, vals)
        if h is not None:
            return h
        # tuple-struct and tuple-variant constructors used as functions
        if p in self.mir.adts and len(self.mir.adts[p]["variants"]) == 1:
            return [(st, Agg(p, vals))]
        base, _, vn = p.rpartition("::")
        if base in self.mir.adts:
            for i, v in enumerate(self.mir.adts[base]["variants"]):
                if v[0] == vn:
                    return [(st, Agg(base, vals, i))]
        raise Unsupported(f"call of {p} <{', '.join(ts(a) for a in cal['args'])}>")

    def trait_dispatch(self, st, cal, vals):
        return None

    def outs(self, st, r):
        return r if isinstance(r, list) else [(st, r)]

    # ---------------------------------------------------------------- bodies
    def exec_body(self, st, kind, name, body, env, args):
        if st.depth > 60:
            raise Unsupported("call depth")
        fr = Frame()
        fr.name, fr.env, fr.body, fr.kind = name, env, body, kind
        n = len(body["locals"])
        fr.cells = [next(self.ids) for _ in range(n)]
        st = st.copy()
        st.depth += 1
        for i in range(n):
            st.mem[fr.cells[i]] = UNINIT
        if len(args) != body["argc"]:
            raise Unsupported(f"arity of {name}: {len(args)} vs {body['argc']}")
        for i, a in enumerate(args):
            st.mem[fr.cells[i + 1]] = a
        res = []
        old = CUR[0]
        try:
            for kd, s, v in self.run(st, fr, 0, None):
                assert kd != "back"
                s.depth -= 1
                res.append((s, v))
        finally:
            CUR[0] = old
        return res

    def fork(self, st, cond):
        """-> list of (state, bool) of the feasible branches"""
        c = concb(cond)
        if c is not None:
            return [(st, c)]
        t, f = z3.simplify(cond), z3.simplify(z3.Not(cond))
        ft, ff = feasible(st.pc + [t]), feasible(st.pc + [f])
        if ft and ff:
            r = []
            for val, g in ((True, t), (False, f)):
                s = st.copy()
                s.pc.append(g)
                r.append((s, val))
            return r
        # the other side is excluded by what is known already
        return [(st, True)] if ft else ([(st, False)] if ff else [])

    def loops(self, body):
        """{head block: blocks of the natural loop} of loops that contain no iterator step"""
        if "_loops" in body:
            return body["_loops"]
        blocks = body["blocks"]

        def succ(b):
            t = blocks[b][1]
            k = t[0]
            if k == "goto":
                return [t[1]]
            if k == "drop":
                return [t[2]]
            if k == "switch":
                return [x for _, x in t[2]] + [t[3]]
            if k == "assert":
                return [t[4]]
            if k == "call":
                return [t[5]] if t[5] is not None else []
            return []
        color, back = {}, []
        stack = [(0, iter(succ(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for x in it:
                if x is None:
                    continue
                if color.get(x) == 1:
                    back.append((b, x))
                elif x not in color:
                    color[x] = 1
                    stack.append((x, iter(succ(x))))
                    break
            else:
                color[b] = 2
                stack.pop()
        pred = {}
        for b in color:
            for x in succ(b):
                pred.setdefault(x, []).append(b)
        out = {}
        for u, h in back:
            reg, todo = {h}, [u]
            while todo:
                x = todo.pop()
                if x not in reg:
                    reg.add(x)
                    todo += pred.get(x, [])
            out.setdefault(h, set()).update(reg)
        for h in list(out):
            for b in out[h]:
                t = blocks[b][1]
                if t[0] == "call" and t[1] and t[1]["trait"] == "core::iter::Iterator" and t[1]["path"].endswith("::next"):
                    del out[h]
                    break
        body["_loops"] = out
        return out

    def free_loop(self, st, fr, bb, region):
        """a loop without iterator: its exits from an arbitrary iteration (state changed by the loop is arbitrary: reading it is not supported,
        except for the position of a hash output stream); None when the loop depends on the changed state"""
        snap = st.copy()
        base_keys = set(snap.mem)
        poison, xofs = set(), {}
        lid = next(self.ids)
        try:
            for _ in range(5):
                s = snap.copy()
                s.rp, s.nr = f"{snap.rp}{snap.nr}:loop", 0
                for c in poison:
                    s.mem[c] = POISON
                for c, (dg, pos) in xofs.items():
                    s.mem[c] = Op("xof", dg, pos)
                outs = self.run(s, fr, bb, ("loop", bb, frozenset(region)))
                new = False
                for kd, s2, v in outs:
                    if kd != "back":
                        continue
                    for c in base_keys:
                        if c in poison:
                            continue
                        old, now = s.mem[c], s2.mem.get(c)
                        if now is not old and key(now) != key(old):
                            new = True
                            if isinstance(now, Op) and now.tag == "xof" and isinstance(old, Op) and old.tag == "xof" and key(now.args[0]) == key(old.args[0]) and c not in xofs:
                                xofs[c] = (old.args[0], z3.Int(f"pos!{lid}"))
                            elif c in xofs:
                                continue
                            else:
                                poison.add(c)
                if not new or all(c in xofs for kd, s2, v in outs if kd == "back" for c in base_keys if c not in poison and s2.mem.get(c) is not s.mem[c] and key(s2.mem.get(c)) != key(s.mem[c])):
                    break
            else:
                return None
        except Unsupported as e:
            if "loop-carried state" in str(e):
                return None
            raise
        r = []
        for kd, s2, v in outs:
            if kd == "back":
                continue
            s2.rp, s2.nr = snap.rp, snap.nr + 1
            r.append((kd, s2, v))
        return r

    def run(self, st, fr, bb, stop):
        """-> list of (kind, state, value); kind: 'ret' | 'back' | 'exit' (value: the block)"""
        res = []
        work = [(st, bb, {})]
        region = stop[2] if stop is not None and stop[0] == "loop" else None
        loops = self.loops(fr.body)
        while work:
            item = work.pop()
            st, bb, vis = item[:3]
            i0 = item[3] if len(item) > 3 else None      # resumed at this statement
            if i0 is not None:
                pass
            elif region is not None:
                if bb == stop[1] and vis:
                    res.append(("back", st, None))
                    continue
                if bb not in region:
                    res.append(("exit", st, bb))
                    continue
            if i0 is None and bb in loops and bb not in vis and not (region is not None and bb == stop[1]):
                fl = self.free_loop(st, fr, bb, loops[bb])
                if fl is not None:
                    for kd, s2, v in fl:
                        if kd == "exit":
                            work.append((s2, v, dict(vis)))
                        else:
                            res.append((kd, s2, v))
                    continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unsupported("step limit")
            n = vis.get(bb, 0) + (i0 is None)
            if n > self.max_visits:
                raise Unsupported(f"loop in {fr.name} not summarised")
            vis = dict(vis)
            vis[bb] = n
            stmts, t = fr.body["blocks"][bb]
            CUR[0] = st
            i = -1
            try:
                for i, s in enumerate(stmts):
                    if i0 is not None and i < i0:
                        continue
                    if s[0] == "=":
                        ty = None
                        v = self.rvalue(st, fr, s[2], ty)
                        self.assign(st, fr, s[1], v)
                    elif s[0] == "setd":
                        raise Unsupported("set discriminant")
                i = len(stmts)
                self.terminator(st, fr, bb, vis, stop, t, work, res)
            except NeedSplit as e:
                if BOUND[0] and e.cut is not None and "k!" in str(e.cut[0]):
                    raise
                if not BOUND[0] and "k!" in str(e.cond):
                    raise Unsupported("a branch on the index of a sum")
                for s2, _ in self.fork(st, e.cond):
                    if len(s2.pc) == len(st.pc):
                        raise
                    work.append((s2, bb, vis, i))
            if len(work) + len(res) > 600:
                raise Unsupported("path explosion")
        return res

    def terminator(self, st, fr, bb, vis, stop, t, work, res):
        k = t[0]
        if k == "goto":
            work.append((st, t[1], vis))
        elif k == "drop":
            work.append((st, t[2], vis))
        elif k == "return":
            res.append(("ret", st, self.read(st, fr.cells[0]) if st.mem[fr.cells[0]] is not UNINIT else UNIT))
        elif k == "switch":
            v = self.operand(st, fr, t[1])
            for s2, b2 in self.switch(st, v, t[2], t[3]):
                work.append((s2, b2, vis))
        elif k == "assert":
            c = self.operand(st, fr, t[1])
            for s2, val in self.fork(st, c if t[2] else z3.Not(c)):
                if val:
                    work.append((s2, t[4], vis))
                else:
                    res.append(("ret", s2, Panic(f"{t[3]} {fr.name}:{t[5]}")))
        elif k == "call":
            for item in self.do_call(st, fr, t, vis, stop, bb):
                if item[0] == "cont":
                    work.append(item[1:])
                else:
                    res.append(item)
        elif k in ("unwind", "unreachable"):
            if k == "unreachable":
                return
            raise Unsupported("unwind block reached")
        else:
            raise Unsupported(f"terminator {k}")

    def switch(self, st, v, targets, other):
        if isbool(v):
            zero = [b for x, b in targets if x == "0"]
            one = [b for x, b in targets if x == "1"]
            f = zero[0] if zero else other
            tt = one[0] if one else other
            return [(s, tt if val else f) for s, val in self.fork(st, v)]
        if not isint(v):
            raise Unsupported(f"switch on {v!r}"[:200])
        c = conc(v)
        if c is not None:
            for x, b in targets:
                if int(x) == c:
                    return [(st, b)]
            return [(st, other)]
        out = []
        rest = []
        for x, b in targets:
            f = z3.simplify(v == int(x))
            rest.append(z3.Not(f))
            if feasible(st.pc + [f]):
                s = st.copy()
                s.pc.append(f)
                out.append((s, b))
        if feasible(st.pc + rest):
            s = st.copy()
            s.pc += rest
            out.append((s, other))
        return out

    def assign(self, st, fr, pl, v):
        if not pl[1]:
            st.mem[fr.cells[pl[0]]] = v
            return
        c, p = self.place(st, fr, pl)
        if st.mem[c] is UNINIT and p and p[0][0] == "f":
            t = sub(fr.body["locals"][pl[0]], fr.env)
            if isinstance(t, tuple) and t[0] == "tuple":
                st.mem[c] = Agg("tuple", [UNINIT] * len(t[1]))
            elif isinstance(t, tuple) and t[0] == "adt" and t[1] in self.mir.adts:
                st.mem[c] = Agg(t[1], [UNINIT] * len(self.mir.adts[t[1]]["variants"][0][1]))
        self.write(st, c, p, v)

    def do_call(self, st, fr, t, vis, stop, bb):
        _, cal, func, args, dest, target, line, argtys, destty = t
        vals = [self.operand(st, fr, a) for a in args]
        if cal is None:
            f = self.operand(st, fr, func)
            outs = self.call_fnv(st, f, vals)
        else:
            cal = self.sub_callee(cal, fr.env)
            if cal["trait"] == "core::iter::Iterator" and cal["path"].endswith("::next") and target is not None:
                lp = self.sym_next(st, fr, vals, dest, target, stop, bb, vis)
                if lp is not None:
                    return lp
            outs = self.call(st, cal, vals, tuple(sub(a, fr.env) for a in argtys), sub(destty, fr.env), line)
        r = []
        for s, v in outs:
            if isinstance(v, Panic):
                if not v.why:
                    v.why = f"{fr.name}:{line}"
                r.append(("ret", s, v))
            elif target is None:
                raise Unsupported(f"diverging call returned: {cal and cal['path']}")
            else:
                self.assign(s, fr, dest, v)
                r.append(("cont", s, target, vis))
        return r

    # ---------------------------------------------------------------- loops over sequences of symbolic length
    def sym_next(self, st, fr, vals, dest, target, stop, bb, vis):
        rf = vals[0]
        if not isinstance(rf, Ref):
            return None
        rf = self.lastref(st, rf)
        it = self.read(st, rf.cell, rf.proj)
        if isinstance(it, Agg) and it.tag in ("core::ops::Range", "core::ops::RangeInclusive"):
            a, b = it.fs[0], norm(it.fs[1] + 1) if it.tag.endswith("Inclusive") else it.fs[1]
            if conc(norm(b - a)) is not None:
                return None
            if conc(a) != 0 and check(st.pc, a <= b, 2000) != "proved":
                # the range may be empty
                s1, s2 = st.copy(), st.copy()
                s1.pc.append(z3.simplify(a <= b))
                s2.pc.append(z3.simplify(a > b))
                r = []
                if feasible(s1.pc):
                    r += self.sym_next(s1, fr, vals, dest, target, stop, bb, vis)
                if feasible(s2.pc):
                    self.write(s2, rf.cell, rf.proj, Agg("iter", [Seq(items=()), z3.IntVal(0)]))
                    self.assign(s2, fr, dest, NONE)
                    r.append(("cont", s2, target, vis))
                return r
            it = Agg("iter", [Seq(n=norm(b - a), f=lambda j: norm(a + j)), z3.IntVal(0)])
        if not (isinstance(it, Agg) and it.tag == "iter"):
            return None
        seq, pos = it.fs
        if isinstance(pos, Op):
            if pos.tag == "gen" and stop == (bb, key(pos.args[0])):
                return [("back", st, None)]
            raise Unsupported("iterator advanced inside its own loop")
        if seq.items is not None or conc(norm(seq.n)) is not None:
            return None
        if conc(pos) != 0:
            seq = self.slice(seq, pos, seq.n)
        n = seq.n
        lid = next(self.ids)
        base_keys = set(st.mem)

        def lname(c, q):
            return f"{folds.ACC}{lid}:{c}:{'.'.join(map(str, q))}"

        def iteration(s0, j, poison, accs, slots):
            s = s0.copy()
            for c, q in lins:
                s.mem[c] = put_at(s.mem[c], q, folds.acc_var(get_at(s0.mem[c], q).m, lname(c, q)))
            for c in poison:
                s.mem[c] = POISON
            for c, q in recs:
                s.mem[c] = put_at(s.mem[c], q, Op("rec", f"rec{lid}:{c}:{q}", j))
            for c, q in accs:
                s.mem[c] = put_at(s.mem[c], q, Acc(()))
            for c, q in slots:
                x = get_at(s0.mem[c], q)
                s.mem[c] = put_at(s.mem[c], q, Slot(x, j, x.at(j)))
            base = len(s.pc)
            fb = len(s.foralls)
            s.pc += [z3.simplify(j >= 0), z3.simplify(j < n)]
            s.rp, s.nr = f"{s0.rp}{s0.nr}:[{key(j)}]", 0
            outs = []
            old, self.loop_index = self.loop_index, j
            try:
                for s1, e in elem_outs(self, s, seq, j):
                    if isinstance(e, Panic):
                        outs.append(("ret", s1, e))
                        continue
                    if isinstance(e, Op) and e.tag == "skip":
                        outs.append(("back", s1, None))
                        continue
                    self.write(s1, rf.cell, rf.proj, Agg("iter", [seq, Op("gen", j)]))
                    self.assign(s1, fr, dest, some(e))
                    outs += self.run(s1, fr, target, (bb, key(j)))
            finally:
                self.loop_index = old
            return outs, base + 2, fb

        j = z3.Int(f"i!{lid}")
        snap = st.copy()
        poison, accs, slots, lins, nolin, recs = set(), set(), set(), set(), set(), set()

        def steps_of(c, q, outs):
            """(multiplier, summand) of an accumulator, over the ways to complete an iteration"""
            nm = lname(c, q)
            r = []
            for kd, s, v in outs:
                if any("acc~" in x for f in s.pc[base:] for x in consts_of(f) | bools_of(f)):
                    raise folds.NotAffine("branch on an accumulator")
                if kd == "back":
                    r.append((s.pc[base:],) + folds.affine(get_at(s.mem[c], q), nm))
            if any("acc~" in (key(m) + key(e)) for _, m, e in r):
                raise folds.NotAffine("accumulators depend on each other")
            return folds.merge_affine(r, get_at(snap.mem[c], q).m.name == "G")
        for _ in range(8):
            outs, base, fb = iteration(snap, j, poison, accs, slots)
            mod_ = {}
            bad = set()
            for c, q in lins:
                try:
                    steps_of(c, q, outs)
                except Unsupported as e:
                    if isinstance(e, NeedSplit):
                        continue
                    bad.add((c, q))
            if bad:
                lins -= bad
                nolin |= bad
                continue
            for kd, s, v in outs:
                if kd == "back":
                    for c in base_keys:
                        if c != rf.cell and c not in poison and s.mem.get(c) is not snap.mem[c]:
                            for q, old, new in diffs(snap.mem[c], s.mem.get(c), ()):
                                if any(rc == c and rq == q[:len(rq)] for rc, rq in recs):
                                    continue
                                if (c, q) not in accs and (c, q) not in slots and (c, q) not in lins:
                                    mod_.setdefault((c, q), []).append((old, new))
            # accumulators: exactly one push in every iteration
            drop = set()
            for c, q in accs:
                for kd, s, v in outs:
                    if kd == "back":
                        x = get_at(s.mem[c], q)
                        if not (isinstance(x, Acc) and len(x.new) == 1):
                            drop.add((c, q))
            if not mod_ and not drop:
                break
            accs -= drop
            poison |= {c for c, q in drop}
            for (c, q), pairs in mod_.items():
                if any(isinstance(x, Slot) for _, x in pairs):
                    slots.add((c, q))
                elif all(isinstance(o, Seq) and isinstance(x, Seq) for o, x in pairs):
                    accs.add((c, q))
                elif (c, q) not in nolin and all(isinstance(o, Res) and isinstance(x, Res) and o.m.name in ("q", "G") for o, x in pairs):
                    lins.add((c, q))
                elif self.recurrences is not None and all(isinstance(o, (Agg, Op, Seq)) and isinstance(x, (Agg, Op)) for o, x in pairs):
                    recs.add((c, q))
                else:
                    poison.add(c)
            accs = {x for x in accs if x[0] not in poison}
            recs = {x for x in recs if x[0] not in poison}
            slots = {x for x in slots if x[0] not in poison}
            lins = {x for x in lins if x[0] not in poison}
        else:
            raise Unsupported("loop state does not stabilise")
        res = []
        for kd, s, v in outs:
            if kd == "ret":
                for c in {c for c, q in accs | slots | lins}:
                    s.mem[c] = POISON
                s.rp, s.nr = snap.rp, snap.nr + 1
                if lins and "acc~" in key(self.deref(s, v) if isinstance(v, Ref) else v):
                    raise Unsupported("an accumulator leaves its loop")
                res.append((kd, s, v))
        if recs:
            done = [s for kd, s, v in outs if kd == "back"]
            if len(done) != 1:
                raise Unsupported("a recurrence with cases")
            for c, q in sorted(recs, key=str):
                self.recurrences.append((f"rec{lid}:{c}:{q}", j, get_at(snap.mem[c], q), get_at(done[0].mem[c], q)))
        memo, raw = {}, {}

        def backs(jj):
            k = key(jj)
            # what is known of the bound indices of sums
            known = [f for f in CUR[0].pc if any(x.startswith("k!") for x in consts_of(f))] if BOUND[0] and CUR[0] is not None and "k!" in k else []
            if known:
                k += "".join(skey(f) for f in known)
            if k not in raw:
                old = CUR[0]
                s0 = snap
                if known:
                    s0 = snap.copy()
                    s0.pc = s0.pc + known
                try:
                    o, b, f = iteration(s0, jj, poison, accs, slots)
                finally:
                    CUR[0] = old
                for kd, s, v in o:
                    for cell, val in s.mem.items():
                        if cell not in base_keys:
                            self.gmem[cell] = val
                raw[k] = [(s.pc[b:], s.foralls[f:], s) for kd, s, v in o if kd == "back"]
            return raw[k]

        def linear(c, q):
            def lin(jj):
                old = CUR[0]
                try:
                    o, b, f = iteration(snap, jj, poison, accs, slots)
                finally:
                    CUR[0] = old
                return steps_of(c, q, o)
            r0 = get_at(snap.mem[c], q)
            CUR[0] = snap
            return folds.closed(n, r0, lin, r0.m.name == "G", not seq.keep)
        if seq.keep and accs:
            raise Unsupported("order of the elements of a collection")

        def at(jj):
            k = key(jj)
            if k not in memo:
                memo[k] = [(p, f) for p, f, _ in backs(jj)]
            return memo[k]

        def val(c, q, get):
            vals = {}

            def f(jj):
                jj = norm(iv(jj))
                k = key(jj)
                if BOUND[0] and CUR[0] is not None and "k!" in k:
                    k += "".join(skey(f) for f in CUR[0].pc if any(x.startswith("k!") for x in consts_of(f)))
                if k not in vals:
                    vals[k] = [(p, get(get_at(s.mem[c], q))) for p, _, s in backs(jj)]
                return pick(vals[k])
            return f
        s = snap.copy()
        s.nr += 1
        for c in poison:
            s.mem[c] = POISON
        for c, q in lins:
            s.mem[c] = put_at(s.mem[c], q, linear(c, q))
        for c, q in recs:
            s.mem[c] = put_at(s.mem[c], q, Op("rec", f"rec{lid}:{c}:{q}", n))
        for c, q in accs:
            s.mem[c] = put_at(s.mem[c], q, seq_concat(get_at(snap.mem[c], q), Seq(n=n, f=val(c, q, lambda a: a.new[0]))))
        for c, q in slots:
            ok_ = eqpoly(get_at(snap.mem[c], q).n, n)
            s.mem[c] = put_at(s.mem[c], q, Seq(n=n, f=val(c, q, lambda a: a.cur))) if ok_ else POISON
        self.write(s, rf.cell, rf.proj, Agg("iter", [Seq(items=()), z3.IntVal(0)]))
        self.assign(s, fr, dest, NONE)
        s.foralls.append(Forall(n, at, f"{fr.name}"))
        for c, q in {(c, q[:-1]) for c, q in accs if q}:
            m = get_at(snap.mem[c], q)
            if isinstance(m, Agg) and m.tag in ("map", "set"):
                # insertions into a map: its keys have to be different
                if not all(isinstance(x, Seq) and x.items is not None and not x.items for x in m.fs):
                    raise Unsupported("insertions into a map that is not empty")
                s.mem[c] = put_at(s.mem[c], q, MAP_HOOK[0](self, s, *get_at(s.mem[c], q).fs))
        if self.in_map and res:
            # whether the loop is left early decides between the outcomes
            early = z3.Bool(f"early@{snap.rp}{snap.nr}")
            for _, s1, _ in res:
                s1.pc.append(early)
            s.pc.append(z3.Not(early))
        res.append(("cont", s, target, vis))
        return res


MAP_HOOK = [None]


def strip_p2(e):
    """e without factors that are powers of two (e = 0 exactly when the result is)"""
    p = poly(e)
    if len(p.d) != 1:
        return e
    (k, c), = p.d.items()
    k2 = tuple((a, n) for a, n in k if not (Poly.ATOMS[a].num_args() == 1 and Poly.ATOMS[a].decl().name() == "P2"))
    if c <= 0:
        return e
    return Poly({k2: 1 if c & (c - 1) == 0 else c}).expr()


def get_at(v, q):
    for i in q:
        v = v.fs[i]
    return v


def put_at(v, q, x):
    return x if not q else v.put(q[0], put_at(v.fs[q[0]], q[1:], x))


def diffs(a, b, q):
    """paths at which two values differ"""
    if a is b:
        return
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag and a.var == b.var and len(a.fs) == len(b.fs):
        for i, (x, y) in enumerate(zip(a.fs, b.fs)):
            yield from diffs(x, y, q + (i,))
    elif isinstance(b, (Slot, Acc)) or key(a) != key(b):
        yield q, a, b


class Acc:
    """a vector to which the current iteration has pushed `new` (what it held before is not readable)"""
    def __init__(self, new):
        self.new = new

    def __repr__(self):
        return f"Acc{self.new!r}"


class Slot:
    """a sequence of which only element j may be read or written in the current iteration"""
    def __init__(self, old, j, cur):
        self.old, self.j, self.cur = old, j, cur

    @property
    def n(self):
        return self.old.n

    items = None

    def __repr__(self):
        return f"Slot({self.j}, {self.cur!r})"


def merge(c, a, b):
    """if c then a else b"""
    if key(a) == key(b) or z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if isbool(a) and isbool(b):
        return z3.simplify(z3.If(c, a, b))
    if isint(a) and isint(b):
        return z3.If(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.tag == b.tag and a.var == b.var and len(a.fs) == len(b.fs):
        return Agg(a.tag, [merge(c, x, y) for x, y in zip(a.fs, b.fs)], a.var)
    raise Unsupported("values of the branches of a loop cannot be merged")


class NeedSplit(Unsupported):
    """the value depends on a branch that the path condition does not decide"""
    def __init__(self, cond, cut=None):
        super().__init__("mapped closure branches")
        self.cond, self.cut = cond, cut     # cut = (j, b): the condition is j < b, where two sequences were put together


BOUND = [0]      # > 0: the current index is the bound variable of a sum or product


def pick(alts):
    """the value of whichever alternative (conditions, value) the current path is on"""
    if not alts:
        raise Unsupported("no iteration completes")
    if len(alts) == 1 or len({key(v) for _, v in alts}) == 1:
        return alts[0][1]
    pc = CUR[0].pc if CUR[0] is not None else []
    live = [(p, v) for p, v in alts if feasible(pc + p)]
    if not live:
        return alts[0][1]
    if all(isbool(v) for _, v in live):
        v = live[-1][1]
        for p, x in reversed(live[:-1]):
            v = merge(z3.simplify(z3.And(p)) if p else z3.BoolVal(True), x, v)
        return v
    if len(live) == 1:
        return live[0][1]
    raise NeedSplit(z3.And(list(live[0][0]) + [z3.BoolVal(True)]))


def elem_outs(ex, st, seq, j):
    """element j of a sequence; closures that branch fork the state"""
    CUR[0] = st
    r = []
    try:
        v = seq.at(j)
        if seq.panics is not None:
            for pc, p in seq.panics(j):
                if feasible(st.pc + pc):
                    s = st.copy()
                    s.pc += pc
                    r.append((s, p))
        return r + [(st, v)]
    except NeedSplit as e:
        if BOUND[0] and e.cut is not None:
            raise
        for s, _ in ex.fork(st, e.cond):
            if len(s.pc) == len(st.pc):
                raise
            r += elem_outs(ex, s, seq, j)
        return r


class Call:
    __slots__ = ("path", "cal", "vals", "argtys", "destty", "line", "env")

    def __init__(self, path, cal, vals, argtys, destty, line, env):
        self.path, self.cal, self.vals, self.argtys, self.destty, self.line, self.env = path, cal, vals, argtys, destty, line, env

    @property
    def args(self):
        return [a for a in self.cal["args"] if a != ("lt",)]


def seq_concat(*ss):
    ss = [s for s in ss if conc(norm(s.n)) != 0]
    if not ss:
        return Seq(items=())
    if len(ss) == 1:
        return ss[0]
    if all(s.items is not None for s in ss):
        return Seq(items=sum((s.items for s in ss), ()))
    n = norm(z3.Sum([s.n for s in ss]))
    sq = Op("cat", *ss)

    def at(j):
        lo = z3.IntVal(0)
        for s in ss[:-1]:
            hi = norm(lo + s.n)
            c = z3.simplify(norm(j - hi) < 0)
            pc = CUR[0].pc if CUR[0] is not None else []
            if z3.is_true(c) or (not z3.is_false(c) and check(pc, c, 1500) == "proved"):
                return s.at(norm(j - lo))
            if not z3.is_false(c) and check(pc, z3.Not(c), 1500) != "proved":
                raise NeedSplit(j < hi, (j, hi))
            lo = hi
        return ss[-1].at(norm(j - lo))
    r = Seq(n=n, f=at, key="cat(" + ",".join(key(s) for s in ss) + ")")
    CATS[id(r)] = (r, ss)
    return r


CATS = {}


import folds  # noqa: E402 (the closed forms of loops are built on the engine)
