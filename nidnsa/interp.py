"""Interprocedural value-graph construction (gated SSA style) from the AST.

One forward pass per function body: both sides of a branch are merged at the
join, loops are summarised through a fixed point over the set of loop-carried
places, in-package calls are inlined.  Nothing of the analysed program runs.
"""
import ast
import builtins
from .vg import *
from .norm import *
from . import vg
from .project import Func, Class, Project
from .libmodel import ALIAS, SIG, METHODS, IDENT, LOGGING, DTYPES, SHAPE_FIRST, EXT_CONST, GRADKILL

UNDEF = mk("undef")


class Unsupported(Exception):
    pass


class H:
    """immutable heap record"""
    __slots__ = ("kind", "data", "extra")

    def __init__(self, kind, data, extra=None):
        self.kind, self.data, self.extra = kind, data, extra


class State:
    __slots__ = ("env", "heap", "pc", "mod")

    def __init__(self, env, heap, pc):
        self.env, self.heap, self.pc = env, heap, pc

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.pc)


class Frame:
    def __init__(self, func, mod):
        self.func, self.mod = func, mod
        self.returns = []    # (pc, value, State)
        self.raises = []     # (pc, excname, State|None, loc)
        self.loops = []      # stack of (breaks, continues)
        self.trydepth = 0
        self.globals = set()


class Event:
    __slots__ = ("name", "args", "kws", "guard", "loc", "loops", "result", "seq", "fn")

    def __init__(self, name, args, kws, guard, loc, loops, result, seq, fn):
        self.name, self.args, self.kws, self.guard = name, args, kws, guard
        self.loc, self.loops, self.result, self.seq, self.fn = loc, loops, result, seq, fn

    def __repr__(self):
        return "Event(%s %s %s if %s @%s)" % (self.name, list(self.args), self.kws, self.guard, self.loc)


_NEXT = [0]
# places standing for library state that method calls change behind the program's back:
# W parameters of the trained model, G gradients, O optimiser state, RNG random generator, FS files
CHAN = {k: mk("ref", "chan:" + k) for k in ("W", "G", "O", "RNG", "FS")}
RNG_CUTS = {"init_network", "model_to_eps_grid"}
W_CUTS = {"model_to_eps_grid"}


LIST_ARGS = {"append": 1, "extend": 1, "insert": 2, "remove": 1, "clear": 0, "reverse": 0}


class Interp:
    def __init__(self, proj, cuts=(), grad=False, maxdepth=40, keep=()):
        self.proj = proj
        self.cuts = set(cuts)         # qualified names or bare names treated as opaque
        self.grad = grad
        self.events = []
        self.locs = {}
        self.depth = 0
        self.maxdepth = maxdepth
        self.stack = []
        self.pcstack = []
        self.loopctx = []
        self.preread = set()
        self.unknown = []
        self.analysed = set()
        self.calls = 0
        self.modvals = {}
        self.ncut = 0
        self.issues = []
        self.nograd = 0
        self.frames = []
        self.models = {}              # helper name -> term constructor (helper verified on its own)
        self.keep = set(keep)         # identity ops to keep visible
        self.budget = 400000
        self.selfcls = None
        self.types = {}               # parameter / field name -> class of the symbolic instance it holds
        self.instname = {}
        self.snap = {}                # effect name -> fields of self recorded with it
        self.params = {}
        self.steps = 0

    # ------------------------------------------------- opaque mutable library state
    def chan(self, st, k):
        h = st.heap.get(CHAN[k])
        return h.data if h is not None else sym("state:" + k)

    def setchan(self, st, k, v):
        st.heap[CHAN[k]] = H("tensor", v)

    def cfg_reads(self, f):
        """names a function (transitively, inside the package) mentions: over-approximates the config keys it reads"""
        memo = self.proj.__dict__.setdefault("_cfg_reads", {})
        if f.qual in memo:
            return memo[f.qual]
        out, seen, todo = set(), set(), [f]
        while todo:
            g = todo.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            for n in ast.walk(g.node):
                if isinstance(n, ast.Attribute):
                    out.add(n.attr)
                elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                    out.add(n.value)
                elif isinstance(n, ast.Name):
                    r = self.proj.lookup(g.mod.name, n.id)
                    if isinstance(r, Func):
                        todo.append(r)
                    elif isinstance(r, Class):
                        todo.extend(r.methods.values())
        memo[f.qual] = out
        return out

    def cut_arg(self, st, v, f):
        """argument of an opaque call; a configuration is passed with the entries written so far that the callee can see"""
        h = self.rec(st, v)
        if h is not None and h.kind == "dotmap" and not h.extra.startswith("new:"):
            e0 = getattr(self, "entry_heap", {}).get(v)
            reads = self.cfg_reads(f)
            kvs = []
            for k in sorted(h.data):
                if k not in reads:
                    continue
                if e0 is not None and e0.data.get(k) is h.data[k]:
                    continue
                kvs.append(mk("kw", k, (self.deref(st, h.data[k]),)))
            if kvs:
                return mk("cfgsnap", h.extra, kvs)
        t = self.deref(st, v)
        if t.op == "inst" and t.args and h is not None and h.kind == "inst" and h.extra is not None:
            # an instance is passed with the fields the callee can see
            reads = self.inst_reads(f, h.extra)
            return mk("inst", t.val, [k for k in t.args if k.val in reads])
        return t

    def whole(self, st, v):
        """a configuration with everything that was changed in it"""
        h = self.rec(st, v)
        if h is None or h.kind != "dotmap" or h.extra.startswith("new:"):
            return v
        e0 = next((x.data for x in getattr(self, "entry_heap", {}).values() if x.kind == "dotmap" and x.extra == h.extra), {})
        kvs = [mk("kw", k, (self.deref(st, x),)) for k, x in sorted(h.data.items()) if e0.get(k) is not x and self.deref(st, x) is not sym(h.extra + "." + k)]
        return mk("cfgsnap", h.extra, kvs) if kvs else v

    def inst_reads(self, f, cls):
        memo = self.proj.__dict__.setdefault("_inst_reads", {})
        key = (f.qual, cls.qual)
        if key not in memo:
            out, todo, seen = set(), [f], set()
            while todo:
                g = todo.pop()
                if g.qual in seen:
                    continue
                seen.add(g.qual)
                r = self.cfg_reads(g)
                out |= r
                for n in r:
                    m = self.find_method(cls, n)
                    if m is not None:
                        todo.append(m)
            memo[key] = out
        return memo[key]

    # ---------------------------------------------------------------- heap
    def alloc(self, st, rec):
        _NEXT[0] += 1
        r = mk("ref", _NEXT[0])
        st.heap[r] = rec
        return r

    def box(self, st, v):
        """value to be bound to a place"""
        if v.op in ("ref", "func", "class", "mod", "bound", "undef", "closure", "super", "bmeth", "ext"):
            return v
        if v.op == "const":
            return v
        if v.op == "tuple":
            return mk("tuple", None, [self.box(st, a) for a in v.args])
        if v.op == "ite" and self.has_ref(v):
            return v
        if v.op in ("list", "cat") or (v.op == "map"):
            return self.alloc(st, H("list", v))
        return self.alloc(st, H("tensor", v))

    _hr = {}

    def has_ref(self, t):
        r = self._hr.get(t)
        if r is None:
            r = t.op == "ref" or any(self.has_ref(c) for c in children(t))
            self._hr[t] = r
        return r

    def deref(self, st, v, seen=None):
        """deep, ref-free snapshot of a value"""
        if not self.has_ref(v):
            return v
        seen = seen or ()
        if v.op == "ref":
            h = st.heap.get(v)
            if h is None:
                return mk("dangling")
            if v in seen:
                return mk("cyc", h.extra.name if h.kind == "inst" and h.extra else h.kind)
            s2 = seen + (v,)
            if h.kind in ("tensor", "list"):
                if h.kind == "list" and isinstance(h.extra, tuple) and h.extra[0] == "maxlen":
                    return lift_idx(self.deref(st, h.data, s2), mk_slice(neg(h.extra[1]), NONE))
                return self.deref(st, h.data, s2)
            if h.kind == "view":
                base, ix = h.data
                b = self.deref(st, base, s2)
                if isinstance(ix, str):
                    return app(ix, [b])
                return mk_idx(b, self.deref(st, ix, s2))
            if h.kind == "dict":
                kvs = []
                for k, x in h.data.items():
                    kvs.append(mk("kv", None, (k, self.deref(st, x, s2))))
                if h.extra is not None:
                    return mk("dictx", None, [self.deref(st, h.extra, s2)] + sorted(kvs, key=lambda t: t.id))
                return mk("dict", None, kvs)
            if h.kind == "dotmap":
                if h.extra.startswith("new:"):
                    return mk("dotmap", None, [mk("kw", k, (self.deref(st, x, s2),)) for k, x in sorted(h.data.items())])
                return mk("sym", h.extra)
            if h.kind == "inst":
                e0 = getattr(self, "entry_heap", {}).get(v)
                if e0 is not None and e0.kind == "inst":
                    pre = self.instname.get(v, "self")
                    kvs = []
                    for k, x in sorted(h.data.items()):
                        y = self.deref(st, x, s2)
                        if y.op == "sym" and y.val == pre + "." + k or y.op == "inst" and y.val.endswith("#" + pre + "." + k) and not y.args:
                            continue
                        kvs.append(mk("kw", k, (y,)))
                    return mk("inst", h.extra.qual + "#" + pre, kvs)
                kvs = [mk("kw", k, (self.deref(st, x, s2),)) for k, x in sorted(h.data.items())]
                return mk("inst", h.extra.qual, kvs)
            if h.kind == "closure":
                return mk("func", h.extra.qual)
            return mk("obj", h.kind)
        if v.op == "poly":
            return subst(v, {a: self.deref(st, a, seen) for a in children(v) if self.has_ref(a)})
        mp = {}
        for s in self.ref_leaves(v):
            mp[s] = self.deref(st, s, seen)
        if v.op == "map" or any(x.op in BINDERS for x in subterms(v)):
            return subst(v, mp)
        return subst(v, mp)

    def ref_leaves(self, v):
        return [s for s in subterms(v) if s.op == "ref"]

    def data(self, st, v):
        return self.deref(st, v)

    def rec(self, st, v):
        return st.heap.get(v) if v.op == "ref" else None

    # --------------------------------------------------------------- merging
    def merge(self, c, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        heap = dict(s1.heap)
        for r, h2 in s2.heap.items():
            h1 = s1.heap.get(r)
            if h1 is None or h1 is h2:
                heap[r] = h2
                continue
            heap[r] = self.merge_rec(c, h1, h2, getattr(self, "entry_heap", {}).get(r), heap)
        env = {}
        for k in s1.env.keys() | s2.env.keys():
            a = s1.env.get(k, UNDEF)
            b = s2.env.get(k, UNDEF)
            env[k] = a if a is b else self.mergeval(c, a, b)
        return State(env, heap, s1.pc)

    def mergeval(self, c, a, b):
        if a is b:
            return a
        if a.op == "tuple" and b.op == "tuple" and len(a.args) == len(b.args):
            return mk("tuple", None, [self.mergeval(c, x, y) for x, y in zip(a.args, b.args)])
        return ite(c, a, b)

    def merge_rec(self, c, h1, h2, h0=None, heap=None):
        if h1.kind != h2.kind:
            if h1.kind in ("tensor", "list") and h2.kind in ("tensor", "list"):
                return H("list", ite(c, h1.data, h2.data))
            return h1
        if h1.kind in ("tensor", "list"):
            if h1.data is h2.data:
                return h1
            return H(h1.kind, ite(c, h1.data, h2.data), h1.extra)
        if h1.kind in ("dict", "inst", "dotmap"):
            d = {}
            keys = list(h1.data.keys()) + [k for k in h2.data.keys() if k not in h1.data]
            for k in keys:
                a = h1.data.get(k)
                b = h2.data.get(k)
                if h1.kind == "dotmap":
                    if a is None:
                        a = self.dot_default(h1, k)
                    if b is None:
                        b = self.dot_default(h2, k)
                if h1.kind == "inst" and h0 is not None and h0.kind == "inst" and (a is None or b is None) and h0.data.get(k) is not None:
                    # a field of an entry instance that only one branch has touched
                    e = h0.data[k]
                    if e.op == "ref":
                        self.pull(heap, e)
                    a = e if a is None else a
                    b = e if b is None else b
                a = UNDEF if a is None else a
                b = UNDEF if b is None else b
                d[k] = a if a is b else self.mergeval(c, a, b)
            return H(h1.kind, d, h1.extra)
        return h1

    def dot_default(self, h, k):
        return sym(h.extra + "." + k)

    # ----------------------------------------------------------------- errors
    def note_unknown(self, what, node):
        self.unknown.append((what, self.loc(node)))

    def loc(self, node):
        f = self.frames[-1] if self.frames else None
        if f is None:
            return ("?", 0, "?")
        return (f.mod.path, getattr(node, "lineno", 0), f.func.qual if f.func else f.mod.name)

    def guard(self, st):
        g = st.pc
        for p in reversed(self.pcstack):
            g = and_(p, g)
        return g

    def event(self, st, name, args, kws, node, result=None):
        if name in self.snap and self.params.get("self") is not None:
            # effect of an object that reads or writes these fields of the analysed instance
            me = self.params["self"]
            args = list(args) + [self.getattr_(me, x, st, _DUMMY) for x in self.snap[name]]
        self.events.append(Event(name, tuple(self.deref(st, a) for a in args), {k: self.deref(st, v) for k, v in (kws or {}).items()},
                                 self.guard(st), self.loc(node), tuple(self.loopctx), result, len(self.events),
                                 self.frames[-1].func.qual if self.frames and self.frames[-1].func else None))

    def raise_(self, st, exc, node, cond=None):
        f = self.frames[-1]
        pc = st.pc if cond is None else and_(st.pc, cond)
        if pc is FALSE:
            return
        f.raises.append((pc, exc, State(dict(st.env), dict(st.heap), pc), self.loc(node)))

    # ------------------------------------------------------------- entry point
    def run(self, func, args=None, kwargs=None, heap=None, selfobj=None, st=None):
        """Analyse a function from a symbolic entry state.

        args: dict name -> T or ('cfg', symname) or ('obj', ClassQual) ; missing ones become syms.
        returns Result
        """
        st = st or State({}, dict(heap or {}), TRUE)
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        bound = {}
        args = dict(args or {})
        defaults = self.default_map(func, st)
        alias = getattr(self, "alias", None) or {}
        for nme in names:
            can = alias.get(nme, nme)
            if can in args:
                v = args[can]
                if isinstance(v, tuple) and v[0] == "cfg":
                    v = self.alloc(st, H("dotmap", dict(v[2]) if len(v) > 2 else {}, v[1]))
                bound[nme] = self.box(st, v)
            elif nme == "self" and (func.cls is not None or self.selfcls is not None):
                bound[nme] = selfobj if selfobj is not None else self.symbolic_inst(st, func.cls or self.selfcls)
            elif can in ("cfg", "run_cfg"):
                bound[nme] = self.alloc(st, H("dotmap", {}, "cfg"))
            elif self.typed(can):
                bound[nme] = self.typed_inst(st, can, can)
            else:
                bound[nme] = self.box(st, sym(can))
        if a.vararg:
            bound[a.vararg.arg] = self.box(st, sym("*" + a.vararg.arg))
        if a.kwarg:
            bound[a.kwarg.arg] = self.box(st, sym("**" + a.kwarg.arg))
        self.params = {alias.get(k, k): v for k, v in bound.items()}
        for k, r in CHAN.items():
            st.heap.setdefault(r, H("tensor", sym("state:" + k)))
        self.entry_heap = dict(st.heap)
        fr, val, st2 = self.exec_function(func, bound, st)
        return Result(self, func, self.params, val, st2, fr)

    def symbolic_inst(self, st, cls, name=None):
        return self.alloc(st, H("inst", {}, cls)) if name is None else self.alloc(st, H("inst", {}, cls))

    def typed(self, name):
        return name in self.types and (self.types[name] == "list" or self.proj.find(self.types[name]) is not None)

    def typed_inst(self, st, name, prefix):
        """symbolic instance of a declared class; its fields are named after the prefix"""
        if self.types[name] == "list":
            return self.alloc(st, H("list", sym(prefix)))
        r = self.alloc(st, H("inst", {}, self.proj.find(self.types[name])))
        self.instname[r] = prefix
        return r

    def default_map(self, func, st):
        a = func.node.args
        out = {}
        pos = a.posonlyargs + a.args
        for arg, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[arg.arg] = d
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[arg.arg] = d
        return out

    def exec_function(self, func, bound, st, closure=None):
        self.analysed.add(func.qual)
        fr = Frame(func, func.mod)
        env = dict(closure or {})
        env.update(bound)
        s = State(env, st.heap, TRUE)
        self.frames.append(fr)
        self.depth += 1
        self.stack.append(func.qual)
        ng = self.grad and any(d.split(".")[-1].split("(")[0] in ("no_grad", "inference_mode") for d in getattr(func, "decorators", ()))
        self.nograd += bool(ng)
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.eval(func.node.body, s)
                fr.returns.append((s.pc, v, s))
                fall = None
            else:
                fall = self.block(func.node.body, s)
            if fall is not None:
                fr.returns.append((fall.pc, NONE, fall))
        finally:
            self.frames.pop()
            self.depth -= 1
            self.stack.pop()
            self.nograd -= bool(ng)
        if not fr.returns:
            return fr, BOT, None
        rets = fr.returns
        pc, val, s = rets[-1]
        for pc1, v1, s1 in reversed(rets[:-1]):
            val = self.mergeval(pc1, v1, val)
            s = self.merge(pc1, s1, s)
        return fr, val, State({}, s.heap, TRUE)

    # --------------------------------------------------------------- statements
    def block(self, stmts, st):
        for i, s in enumerate(stmts):
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        self.steps += 1
        if self.steps > self.budget:
            raise Unsupported("step budget exhausted")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.note_unknown("stmt " + type(s).__name__, s)
            return st
        return m(s, st)

    def s_Pass(self, s, st):
        return st

    def s_Import(self, s, st):
        for a in s.names:
            if a.asname:
                st.env[a.asname] = self.modval(a.name)
            else:
                st.env[a.name.split(".")[0]] = self.modval(a.name.split(".")[0])
        return st

    def modval(self, name):
        return mk("mod", name)

    def s_ImportFrom(self, s, st):
        f = self.frames[-1]
        m = f.mod.resolve_rel(s.level, s.module) if s.level else s.module
        for a in s.names:
            if a.name == "*":
                continue
            r = self.proj.lookup(m, a.name) if m in self.proj.modules else (
                ("mod", m + "." + a.name) if (m + "." + a.name) in self.proj.modules else ("ext", m + "." + a.name))
            st.env[a.asname or a.name] = self.from_lookup(r, st)
        return st

    def s_Global(self, s, st):
        self.frames[-1].globals |= set(s.names)
        return st

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s, st):
        f = Func(self.frames[-1].mod, s, (self.frames[-1].func.qual if self.frames[-1].func else "") + ".<locals>." + s.name)
        r = self.alloc(st, H("closure", dict(st.env), f))
        st.env[s.name] = r
        return st

    def s_ClassDef(self, s, st):
        self.note_unknown("local class", s)
        return st

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return st
        self.eval(s.value, st)
        return st

    def s_Assign(self, s, st):
        v = self.eval(s.value, st)
        if len(s.targets) > 1:
            v = self.box(st, v)
        for t in s.targets:
            self.assign(t, v, st, s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st), st, s)
        return st

    def s_Return(self, s, st):
        v = self.eval(s.value, st) if s.value is not None else NONE
        v = self.box(st, v)
        self.frames[-1].returns.append((st.pc, v, st))
        return None

    def s_Raise(self, s, st):
        exc = "Exception"
        if s.exc is None:
            exc = getattr(self.frames[-1], "handling", None) or "Exception"
        else:
            e = s.exc
            while isinstance(e, ast.Call) and isinstance(e.func, ast.Call):
                e = e.func
            if isinstance(e, ast.Call):
                nm = ast.unparse(e.func)
                if self.is_logging(e, st):
                    exc = "TypeError"
                else:
                    v = self.eval(e.func, st)
                    exc = self.excname(v, nm)
                    for a in e.args:
                        pass
            else:
                v = self.eval(e, st)
                exc = self.excname(v, ast.unparse(e))
        self.raise_(st, exc, s)
        return None

    def excname(self, v, txt):
        if v.op == "class":
            return v.val
        if v.op == "ext":
            return v.val.split(".")[-1]
        if v.op == "app" and v.val == "excobj":
            return pyconst(v.args[0])
        return txt.split(".")[-1]

    def s_Assert(self, s, st):
        c = gate(self.data(st, self.eval(s.test, st)))
        self.raise_(st, "AssertionError", s, not_(c))
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                b = self.eval(t.value, st)
                h = self.rec(st, b)
                k = None
                if isinstance(t, ast.Attribute):
                    k = const(t.attr)
                else:
                    k = self.data(st, self.eval(t.slice, st))
                if h is not None and h.kind == "dict":
                    d = dict(h.data)
                    d.pop(k, None)
                    st.heap[b] = H("dict", d, h.extra)
                elif h is not None and h.kind == "dotmap" and is_str(k):
                    st.heap[b] = H("dotmap", dict(h.data, **{pyconst(k): app("absent", [k])}), h.extra)
                self.event(st, "del", [b, k], {}, s)
        return st

    def s_With(self, s, st):
        ng = 0
        for it in s.items:
            v = self.eval(it.context_expr, st)
            if v.op == "app" and (v.val in ("no_grad", "inference_mode") or (v.val == "set_grad_enabled" and v.args and v.args[0] is FALSE)):
                ng += 1
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, s)
        self.nograd += ng
        try:
            st = self.block(s.body, st)
        finally:
            self.nograd -= ng
        return st

    s_AsyncWith = s_With

    def s_If(self, s, st):
        c = gate(self.data(st, self.eval(s.test, st)))
        if c is TRUE:
            return self.block(s.body, st)
        if c is FALSE:
            return self.block(s.orelse, st)
        k = vg.implied_by(st.pc, c) if hasattr(vg, "implied_by") else None
        return self.branch(c, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x), st,
                           self.syn_raises(s.body), self.syn_raises(s.orelse))

    def syn_raises(self, stmts):
        if not stmts:
            return False
        l = stmts[-1]
        for x in stmts:
            for y in ast.walk(x):
                if isinstance(y, (ast.Return, ast.Break, ast.Continue)):
                    return False
        if isinstance(l, ast.Raise):
            return True
        if isinstance(l, ast.If) and l.orelse:
            return self.syn_raises(l.body) and self.syn_raises(l.orelse)
        return False

    def exits(self):
        f = self.frames[-1]
        n = len(f.returns)
        for l in f.loops:
            n += len(l[0]) + len(l[1])
        return n

    def branch(self, c, fthen, felse, st, then_raises=False, else_raises=False):
        pc0 = st.pc
        s1 = st.copy()
        s2 = st.copy()
        nc = not_(c)
        if not else_raises:
            s1.pc = and_(pc0, c)
        else:
            s1.pc = pc0
        if then_raises:
            s1.pc = and_(pc0, c)
        e0 = self.exits()
        fr = self.frames[-1].raises
        x0 = len(fr)
        r1 = fthen(s1)
        x1 = len(fr)
        only_raise = r1 is None and self.exits() == e0
        s2.pc = pc0 if (only_raise or then_raises) and not else_raises else and_(pc0, nc)
        if else_raises:
            s2.pc = and_(pc0, nc)
        r2 = felse(s2)
        if else_raises and not then_raises and x1 > x0:
            # the then-part ran without the negated condition: what leaves in the else-part left earlier
            fr[x0:] = fr[x1:] + fr[x0:x1]
        if r1 is None and r2 is None:
            return None
        if r1 is None:
            return r2 if only_raise else self.narrow(r2, c, False)
        if r2 is None:
            return r1 if else_raises else self.narrow(r1, c, True)
        out = self.merge(c, r1, r2)
        out.pc = pc0 if (r1.pc is s1.pc and r2.pc is s2.pc) else or_(and_(r1.pc, c), and_(r2.pc, nc))
        return out

    def narrow(self, st, c, val):
        """what the state holds where the condition is known, the other side having left"""
        if c.op == "ite":
            if c.args[1] is FALSE and c.args[2] is TRUE:
                return self.narrow(st, c.args[0], not val)
            return st
        for k, v in list(st.env.items()):
            if isinstance(v, T) and v.op == "ite":
                st.env[k] = assume(v, c, val)
        for r, h in list(st.heap.items()):
            d = h.data
            if isinstance(d, dict):
                ch = {k: assume(v, c, val) for k, v in d.items() if isinstance(v, T) and v.op == "ite"}
                ch = {k: v for k, v in ch.items() if v is not d[k]}
                if ch:
                    st.heap[r] = H(h.kind, {**d, **ch}, h.extra)
            elif isinstance(d, T) and d.op == "ite":
                v = assume(d, c, val)
                if v is not d:
                    st.heap[r] = H(h.kind, v, h.extra)
        return st

    # -------------------------------------------------------------------- loops
    def s_For(self, s, st):
        it = self.eval(s.iter, st)
        st = self.run_loop(it, s.target, s.body, st, s)
        if s.orelse and st is not None:
            st = self.block(s.orelse, st)
        return st

    s_AsyncFor = s_For

    def iter_elems(self, it, st):
        """-> ('concrete', [T...]) or ('sym', n, fn)"""
        h = self.rec(st, it)
        if h is not None and h.kind in ("list",):
            t = h.data
        elif h is not None and h.kind == "dict":
            if h.extra is None:
                return ("concrete", list(h.data.keys()))
            t = self.deref(st, it)
        elif h is not None and h.kind in ("tensor", "view"):
            t = self.deref(st, it)
        elif h is not None and h.kind == "inst":
            ln = self.find_method(h.extra, "__iter__")
            gl = self.find_method(h.extra, "__len__")
            t = self.deref(st, it)
        else:
            t = it
        if t.op in ("list", "tuple") and len(t.args) <= 120:
            return ("concrete", list(t.args))
        if t.op == "dict":
            return ("concrete", [kv.args[0] for kv in t.args])
        if t.op == "const" and is_str(t):
            return ("concrete", [const(ch) for ch in pyconst(t)])
        if t.op == "map" and as_int(t.args[0]) is not None and 0 <= as_int(t.args[0]) <= 120:
            return ("concrete", [open_map(t, const(k)) for k in range(as_int(t.args[0]))])
        if t.op == "map":
            return ("sym", t.args[0], lambda i: open_map(t, i))
        if t.op == "ite" and not self.has_ref(t):
            pass
        tt = t
        return ("sym", mk_len(self.deref(st, t)), lambda i: mk_idx(tt if not self.has_ref(tt) or tt.op in ("cat", "list") else self.deref(st, tt), i))

    def run_loop(self, it, target, body, st, node):
        h = self.rec(st, it)
        t = h.data if h is not None and h.kind == "list" else it
        if t.op == "cat" and len(t.args) <= 6 and not own_breaks(body):
            # first all elements of one part, then all of the next
            for p in t.args:
                if st is not None:
                    st = self.run_loop(p, target, body, st, node)
            return st
        kind = self.iter_elems(it, st)
        f = self.frames[-1]
        if kind[0] == "concrete":
            brk = []
            pcs0 = st.pc
            for el in kind[1]:
                if st is None:
                    break
                f.loops.append(([], []))
                self.assign(target, el, st, node)
                st = self.block(body, st)
                b, c = f.loops.pop()
                for (pc, s2) in c:
                    if st is None:
                        st = s2
                    else:
                        npc = or_(st.pc, pc)
                        st = self.merge(pc, s2, st)
                        st.pc = npc
                brk.extend(b)
            for (pc, s2) in brk:
                if st is None:
                    st = s2
                else:
                    npc = or_(st.pc, pc)
                    st = self.merge(pc, s2, st)
                    st.pc = npc
            return st
        _, n, fn = kind
        return self.sym_loop(st, node, n, fn, target, body, None)

    def s_While(self, s, st):
        # induction-variable recognition: while i < n: ...; i += 1
        r = self.try_while_range(s, st)
        if r is not None:
            return r
        return self.sym_loop(st, s, None, None, None, s.body, s.test)

    def try_while_range(self, s, st):
        """while v + d < hi with v += 1 once per round, first or last"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq))) or not s.body or s.orelse:
            return None
        left, d = t.left, 1 if isinstance(t.ops[0], ast.LtE) else 0
        d = -d
        if isinstance(left, ast.BinOp) and isinstance(left.op, (ast.Add, ast.Sub)) and isinstance(left.right, ast.Constant) and isinstance(left.right.value, int):
            d += left.right.value * (1 if isinstance(left.op, ast.Add) else -1)
            left = left.left
        if not isinstance(left, ast.Name):
            return None
        v = left.id

        def inc(x):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == v and isinstance(x.op, ast.Add):
                return isinstance(x.value, ast.Constant) and x.value.value == 1
            return isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == v and ast.unparse(x.value) in (v + " + 1", "1 + " + v)
        if inc(s.body[-1]):
            body, first = s.body[:-1], 0
        elif inc(s.body[0]):
            body, first = s.body[1:], 1
        else:
            return None
        used = {y.id for y in ast.walk(t.comparators[0]) if isinstance(y, ast.Name)}
        for x in body:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and (y.id == v or y.id in used):
                    return None
                if isinstance(y, ast.Break) or isinstance(y, ast.Continue) and not first:
                    return None
                if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id in used and y.attr in ("append", "pop", "remove", "insert", "extend", "clear"):
                    return None
        if v not in st.env:
            return None
        lo = self.data(st, st.env[v])
        hi = self.data(st, self.eval(t.comparators[0], st))
        n = sub(sub(hi, lo), const(d))
        if isinstance(t.ops[0], ast.NotEq) and as_int(lo) != 0:
            return None
        tgt = ast.Name(id=v, ctx=ast.Store())
        ast.copy_location(tgt, s)
        lo1 = add([lo, const(first)])
        if as_int(n) is not None:
            elems = mk("list", None, [add([lo1, const(k)]) for k in range(as_int(n))])
            st2 = self.run_loop(elems, tgt, body, st, s)
        else:
            st2 = self.sym_loop(st, s, n, lambda i: add([i, lo1]), tgt, body, None)
        if st2 is not None:
            st2.env[v] = self.box(st2, add([lo, n]))
        return st2

    def places(self, before, after, base=None):
        """changed places between two states: env names and (ref, key)"""
        out = []
        base = base or before
        for k, v in after.env.items():
            b = before.env.get(k)
            if b is None or b is UNDEF:
                out.append(("new", k))
            elif b is v and v.op == "ref" and v not in base.heap and v in before.heap:
                if self.deref(before, b) is not self.deref(after, v):
                    out.append(("env", k))
            elif b is not v:
                x, y = self.deref(before, b), self.deref(after, v)
                if x is not y or (v.op == "ref" and b.op == "ref" and after.heap.get(v) is not None and after.heap[v].kind == "inst"):
                    out.append(("env", k))
                elif b.op != "ref" and v.op == "ref":
                    pass
        for r, h in before.heap.items():
            h2 = after.heap.get(r)
            if h2 is None or r not in base.heap:
                continue
            if h2 is h and h.kind not in ("inst", "dict", "dotmap"):
                continue
            if h.kind in ("tensor", "list"):
                if self.deref(before, h.data) is not self.deref(after, h2.data):
                    out.append(("heap", r, None))
            elif h.kind in ("inst", "dict", "dotmap"):
                for k in h2.data:
                    a = h.data.get(k)
                    b = h2.data[k]
                    if a is b and (b.op != "ref" or b in base.heap):
                        continue
                    if a is None and h.kind == "dotmap":
                        a = self.dot_default(h, k)
                    if a is None and h.kind == "inst":
                        a = mk("sym", "self." + k)      # field read for the first time
                    if a is None:
                        out.append(("heap", r, k))
                        continue
                    if self.deref(before, a) is not self.deref(after, b):
                        out.append(("heap", r, k))
        return out

    def pull(self, heap, ref):
        """bring an entry object and what it refers to into a heap that has not seen it"""
        if ref in heap:
            return
        h = self.entry_heap.get(ref)
        if h is None:
            return
        heap[ref] = h
        if h.kind == "inst":
            for v in h.data.values():
                if v.op == "ref":
                    self.pull(heap, v)

    def enrich(self, st):
        """make fields of entry instances that have been read anywhere explicit in st (unread means unchanged)"""
        eh = getattr(self, "entry_heap", None)
        ch = False
        if not eh:
            return ch
        for r in list(st.heap):
            h, e = st.heap[r], eh.get(r)
            if e is None or h.kind != "inst" or e.kind != "inst" or e is h:
                continue
            miss = [k for k in e.data if k not in h.data]
            if miss:
                d = dict(h.data)
                for k in miss:
                    d[k] = e.data[k]
                    if d[k].op == "ref":
                        self.pull(st.heap, d[k])
                st.heap[r] = H("inst", d, h.extra)
                ch = True
        if ch:
            self.enrich(st)
        return ch

    def identityless(self, st, v):
        """no object identity involved"""
        return not any(st.heap.get(r) is None or st.heap[r].kind not in ("tensor", "list") for r in self.ref_leaves(v))

    def get_place(self, st, p):
        if p[0] == "env" or p[0] == "new":
            return st.env.get(p[1], UNDEF)
        _, r, k = p
        h = st.heap[r]
        if k is None:
            return h.data
        v = h.data.get(k)
        if v is None:
            v = self.dot_default(h, k) if h.kind == "dotmap" else sym("self." + k) if h.kind == "inst" else UNDEF
        return v

    def set_place(self, st, p, v):
        if p[0] in ("env", "new"):
            st.env[p[1]] = self.box(st, v)
            return
        _, r, k = p
        h = st.heap[r]
        if k is None:
            st.heap[r] = H(h.kind, v, h.extra)
        else:
            d = dict(h.data)
            d[k] = self.box(st, v)
            st.heap[r] = H(h.kind, d, h.extra)

    def sym_loop(self, st, node, n, fn, target, body, cond):
        fi = fresh("i")
        f = self.frames[-1]
        carried = []
        base = st
        self.unify(st, body)
        ev0 = len(self.events)
        un0 = len(self.unknown)
        r0, x0 = len(f.returns), len(f.raises)
        phis = {}
        for rnd in range(12):
            self.enrich(base)
            del self.events[ev0:]
            del self.unknown[un0:]
            del f.returns[r0:]
            del f.raises[x0:]
            s = base.copy()
            s.pc = TRUE
            for p in carried:
                if p not in phis:
                    phis[p] = fresh("s")
                self.set_place(s, p, phis[p])
            start = s.copy()
            f.loops.append(([], []))
            self.pcstack.append(base.pc)
            self.loopctx.append((fi, n))
            try:
                cnd = TRUE
                if cond is not None:
                    cnd = gate(self.data(s, self.eval(cond, s)))
                if target is not None:
                    self.assign(target, fn(fi), s, node)
                if cond is not None:
                    s.pc = TRUE
                end = self.block(body, s)
            finally:
                self.loopctx.pop()
                self.pcstack.pop()
                brks, conts = f.loops.pop()
            if rnd < 6 and self.enrich(base):
                continue        # fields first read inside the loop existed before it
            for (pc, s2) in conts:
                if end is None:
                    end = s2
                else:
                    end = self.merge(pc, s2, end)
            brkcond = FALSE
            for (pc, s2) in brks:
                brkcond = or_(brkcond, pc)
                if end is None:
                    end = s2
                else:
                    end = self.merge(pc, s2, end)
            if end is None:
                break
            new = [p for p in self.places(start, end, base) if p[0] != "new" and p not in carried]
            # a local that an iteration may read before assigning it holds the value of an earlier iteration
            for k in sorted(k for d, k in self.preread if d == len(self.frames)):
                if k in end.env and ("env", k) not in carried and ("env", k) not in new and base.env.get(k, UNDEF) is UNDEF and self.identityless(end, end.env[k]):
                    if k not in base.env:
                        base = base.copy()
                        base.env[k] = UNDEF
                    new.append(("env", k))
            if not new:
                break
            carried.extend(new)
        if cond is None and n is not None and brkcond is not FALSE and end is not None:
            # leaving at the last index skips nothing
            lastc = lt0(sub(fi, sub(n, const(1))))
            if subst(brkcond, {lastc: TRUE}) is FALSE or brkcond is eq(fi, sub(n, const(1))):
                brkcond = FALSE
        if end is not None and phis:
            self.iteration_values(ev0, carried, phis, base, end, fi, n, brkcond, cond, cnd)
        # returns / raises inside the loop
        inner_returns = f.returns[r0:]
        del f.returns[r0:]
        inner_raises = f.raises[x0:]
        del f.raises[x0:]
        nn = n if n is not None else mk("app", "loopcount", (self.const_loc(cnd, fi),))
        allphi = set(phis.values())
        for (pc, exc, sx, lc) in inner_raises:
            if end is not None and free_syms(pc) & allphi:
                # "raised so far" is one more loop-carried boolean
                cps = [p for p in carried if p in phis]
                fr = fresh("s")
                g = mk_loop("loop" if cond is None else "while", n if cond is None else cnd, fi, [phis[p] for p in cps] + [fr],
                            [self.deref(base, self.get_place(base, p)) for p in cps] + [FALSE],
                            [self.deref(end, self.get_place(end, p)) for p in cps] + [or_(fr, pc)], brkcond, len(cps))
                g = gate(g)
            elif fi in free_syms(pc):
                g = app("any", [mk_map(nn, fi, pc)])
            else:
                g = pc
            sx2 = State(dict(base.env), dict(sx.heap), TRUE) if sx is not None else None
            f.raises.append((and_(base.pc, g), exc, sx2, lc))
        out = base.copy()
        if end is None:
            # every iteration exits (return/raise) : body executes at most once
            for (pc, v, sx) in inner_returns:
                g = app("any", [mk_map(nn, fi, pc)])
                vv = subst(self.deref(sx, v), {fi: const(0)})
                f.returns.append((and_(base.pc, lt0(neg(nn))), vv, State(dict(base.env), dict(sx.heap), base.pc)))
            out.pc = base.pc
            return out
        if inner_returns:
            anyg = FALSE
            v = None
            for (pc, rv, sx) in inner_returns:
                anyg = or_(anyg, pc)
            sel = UNDEF
            for (pc, rv, sx) in reversed(inner_returns):
                sel = ite(pc, self.deref(sx, rv), sel) if sel is not UNDEF else self.deref(sx, rv)
            g = app("any", [mk_map(nn, fi, anyg)])
            vv = app("firstwhere", [mk_map(nn, fi, mk("tuple", None, (anyg, sel)))]) if fi in free_syms(sel) else sel
            f.returns.append((and_(base.pc, g), vv, State(dict(base.env), dict(base.heap), base.pc)))
            out.pc = and_(base.pc, not_(g))
        # summarise carried places
        fs = [phis[p] for p in carried if p in phis]
        carried = [p for p in carried if p in phis]
        inits, bodies = [], []
        for p in carried:
            inits.append(self.deref(base, self.get_place(base, p)))
            bodies.append(self.deref(end, self.get_place(end, p)))
        fsset = set(fs)
        for j, p in enumerate(carried):
            out_v = self.summarise(j, fi, n, fs, fsset, inits, bodies, brkcond, cond, cnd)
            self.set_place(out, p, out_v)
        # places first assigned in the loop
        for k, v in end.env.items():
            if k not in base.env or base.env[k] is UNDEF:
                val = self.deref(end, v)
                mp = {}
                if free_syms(val) & fsset or brkcond is not FALSE or cond is not None:
                    fr = fresh("s")
                    vv = mk_loop("loop" if cond is None else "while", n if cond is None else cnd, fi, fs + [fr], inits + [UNDEF],
                                 bodies + [val], brkcond, len(fs))
                else:
                    vv = mk_lastval(UNDEF, nn, fi, val)
                # keep object identity for heap objects created in the loop
                out.env[k] = self.box(out, vv)
        # dict / inst fields first created in loop
        for r, h2 in end.heap.items():
            if r in base.heap:
                continue
            # escaping allocation: keep record so refs stay resolvable
            out.heap.setdefault(r, h2)
        return out

    def unify(self, st, body):
        """a name bound to one of several unaliased arrays, written in the loop, is one array"""
        for k in {x.value.id for b in body for x in ast.walk(b) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)}:
            v = st.env.get(k)
            if v is None or v.op != "ite" or not all(x.op == "ref" for x in ite_leaves(v)):
                continue
            rs = set(ite_leaves(v))
            if not all(st.heap.get(r) is not None and st.heap[r].kind in ("tensor", "list") for r in rs):
                continue
            used = any(rs & set(self.ref_leaves(o)) for n, o in st.env.items() if n != k)
            for r, h in st.heap.items():
                if used:
                    break
                for o in (h.data.values() if isinstance(h.data, dict) else h.data if isinstance(h.data, tuple) else [h.data]):
                    if isinstance(o, T) and self.has_ref(o) and rs & set(self.ref_leaves(o)):
                        used = True
                        break
            if not used:
                kind = st.heap[next(iter(rs))].kind
                st.env[k] = self.alloc(st, H(kind, self.deref(st, v)))

    def iteration_values(self, ev0, carried, phis, base, end, fi, n, brk, cond, cnd):
        """effects inside the loop see a carried place at the value it has at the start of iteration fi"""
        cps = [p for p in carried if p in phis]
        fs = [phis[p] for p in cps]
        used = set()
        for e in self.events[ev0:]:
            for t in list(e.args) + list(e.kws.values()) + [e.guard]:
                used |= free_syms(t)
        if not used & set(fs):
            return
        inits = [self.deref(base, self.get_place(base, p)) for p in cps]
        bodies = [self.deref(end, self.get_place(end, p)) for p in cps]
        k = fresh("i")
        mp = {fi: k}
        if cond is None:
            earlier = {fi: k, lt0(sub(fi, sub(n, const(1)))): TRUE, eq(fi, sub(n, const(1))): FALSE}
            bodies = [subst(b, earlier) for b in bodies]
            vals = {fs[j]: self.summarise(j, k, fi, fs, set(fs), inits, bodies, subst(brk, mp), None, TRUE) for j in range(len(fs)) if fs[j] in used}
        else:
            vals = {fs[j]: app("at_iteration", [fi, self.summarise(j, k, n, fs, set(fs), inits, [subst(b, mp) for b in bodies], subst(brk, mp), cond, subst(cnd, mp))])
                    for j in range(len(fs)) if fs[j] in used}
        for e in self.events[ev0:]:
            e.args = [subst(a, vals) for a in e.args]
            e.kws = {q: subst(v, vals) for q, v in e.kws.items()}
            e.guard = gate(subst(e.guard, vals))

    def const_loc(self, c, fi):
        return subst(c, {fi: const(0)}) if c is not None else TRUE

    def summarise(self, j, fi, n, fs, fsset, inits, bodies, brk, cond, cnd):
        phi, init, F = fs[j], inits[j], bodies[j]
        if F is phi:
            return init
        if cond is None and brk is FALSE:
            free = free_syms(F)
            # append pattern
            r = self.split_append(F, phi)
            if r is not None:
                v, cnds = r
                if not (free_syms(v) & fsset):
                    if v.op == "list" and len(v.args) == 1:
                        return mk_cat([init, mk_map(n, fi, v.args[0])])
                    return mk_cat([init, app("flat", [mk_map(n, fi, v)])])
            # sum pattern
            if phi in free:
                d = lift(lambda x: sub(x, phi), [F])
                if not (free_syms(d) & fsset):
                    return lift(lambda a, b: add([a, b]), [init, app("sum", [mk_map(n, fi, d)])])
                if F.op == "ite" or F is TRUE or F is FALSE:
                    # flag pattern: phi or c
                    hi, lo = None, None
                    if assume_any(F, phi, init) is not None:
                        c = assume_any(F, phi, init)
                        if not (free_syms(c) & fsset):
                            return or_(gate(init), app("any", [mk_map(n, fi, c)]))
                if F.op == "store" and F.args[0] is phi and not (free_syms(F.args[1]) & fsset) and not (free_syms(F.args[2]) & fsset):
                    ix, v = F.args[1], F.args[2]
                    return self.store_map(init, n, fi, ix, v)
            elif not (free & fsset):
                return mk_lastval(init, n, fi, F)
            # boolean flag: set to constant when c  -> ite(c, TRUE, phi)
            c = flag_pattern(F, phi)
            if c is not None and not (free_syms(c[0]) & fsset):
                if c[1] is TRUE:
                    return ite(app("any", [mk_map(n, fi, c[0])]), TRUE, init)
                if has_const(c[1]):
                    return ite(app("any", [mk_map(n, fi, c[0])]), c[1], init)
        return mk_loop("loop" if cond is None else "while", n if cond is None else cnd, fi, fs, inits, bodies, brk, j)

    def store_map(self, init, n, fi, ix, v):
        # full overwrite along the first axis: for i in range(len(x)): x[i] = v(i)
        parts = index_parts(ix)
        if parts[0] is fi and len(parts) == 1 and mk_len(init) is n:
            return mk_map(n, fi, v)
        return app("storemap", [init, mk_map(n, fi, mk("tuple", None, (ix, v)))])

    def split_append(self, F, phi):
        """F == phi ++ tail ; tail may be conditional. Returns (tail, None)"""
        if F is phi:
            return mk("list", None, ()), None
        if F.op == "cat" and F.args[0] is phi and not any(phi in free_syms(a) for a in F.args[1:]):
            return mk_cat(list(F.args[1:])), None
        if F.op == "ite":
            a = self.split_append(F.args[1], phi)
            b = self.split_append(F.args[2], phi)
            if a is not None and b is not None and phi not in free_syms(F.args[0]):
                return ite(F.args[0], a[0], b[0]), None
        return None

    def s_Break(self, s, st):
        f = self.frames[-1]
        if f.loops:
            f.loops[-1][0].append((st.pc, st))
        return None

    def s_Continue(self, s, st):
        f = self.frames[-1]
        if f.loops:
            f.loops[-1][1].append((st.pc, st))
        return None

    def s_Try(self, s, st):
        f = self.frames[-1]
        x0 = len(f.raises)
        pc0 = st.pc
        f.trydepth += 1
        base = st.copy()
        marks = [(l, len(l)) for l in [f.returns] + [x for y in f.loops[-1:] for x in y]]
        end = self.block(s.body, st)
        left = [(l, range(n, len(l))) for l, n in marks]     # ways out of the body that no exception took
        f.trydepth -= 1
        if end is not None and s.orelse:
            end = self.block(s.orelse, end)
        raised = f.raises[x0:]
        del f.raises[x0:]
        for h in s.handlers:
            names = self.handler_names(h, st or base)
            matched = [r for r in raised if self.exc_match(r[1], names)]
            raised = [r for r in raised if not self.exc_match(r[1], names)]
            if not matched:
                # unknown library exceptions may still arrive here
                if self.has_ext_call(s.body):
                    c = mk("app", "throws", (const("|".join(sorted(names))), const("lib")))
                    matched = [(and_(pc0, c), sorted(names)[0], base.copy(), None)]
                else:
                    continue
            c = FALSE
            hs = None
            for (pc, exc, sx, lc) in matched:
                c = or_(c, pc)
                if sx is None:
                    sx = base.copy()
                hs = sx if hs is None else self.merge(pc, sx, hs)
            for l, ks in left:
                for k in ks:
                    x = l[k]
                    pc = and_(x[0], not_(c))
                    sx = x[-1].copy()
                    sx.pc = pc
                    l[k] = (pc,) + tuple(x[1:-1]) + (sx,)
            hs = hs.copy()
            hs.pc = c
            if h.name:
                hs.env[h.name] = mk("app", "excobj", (const("|".join(sorted(names))),))
            old = getattr(f, "handling", None)
            f.handling = sorted(names)[0]
            e0 = self.exits()
            r = self.block(h.body, hs)
            f.handling = old
            if r is None:
                if end is not None and self.exits() != e0:
                    end.pc = and_(end.pc, not_(c))
                continue
            if end is None:
                end = r
            else:
                pcn = or_(end.pc, c)
                end = self.merge(c, r, end)
                end.pc = pcn
        f.raises.extend(raised)
        if s.finalbody:
            if end is not None:
                end = self.block(s.finalbody, end)
        return end

    s_TryStar = s_Try

    def has_ext_call(self, stmts):
        return any(isinstance(y, ast.Call) for x in stmts for y in ast.walk(x))

    def handler_names(self, h, st):
        if h.type is None:
            return {"BaseException"}
        if isinstance(h.type, ast.Tuple):
            return {ast.unparse(e).split(".")[-1] for e in h.type.elts}
        return {ast.unparse(h.type).split(".")[-1]}

    def exc_match(self, exc, names):
        for alt in str(exc).split("|"):
            e = getattr(builtins, alt, None)
            for n in names:
                if n == alt:
                    return True
                b = getattr(builtins, n, None)
                if isinstance(e, type) and isinstance(b, type) and issubclass(e, b):
                    return True
        return False

    # -------------------------------------------------------------- assignment
    def s_AugAssign(self, s, st):
        opn = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.eval(ast.copy_location(ast.Name(id=s.target.id, ctx=ast.Load()), s.target), st)
        else:
            tgt = _as_load(s.target)
            cur = self.eval(tgt, st)
        rhs = self.eval(s.value, st)
        h = self.rec(st, cur)
        if h is not None and h.kind == "list" and opn == "Add":
            st.heap[cur] = H("list", mk_cat([h.data, self.seq_of(st, rhs)]), h.extra)
            return st
        v = self.binop(opn, self.data(st, cur), self.data(st, rhs), s, st)
        self.remember(v, s)
        if isinstance(s.target, ast.Name):
            if h is not None and h.kind in ("tensor", "view") and (h.extra == "array" or self.is_tensor(self.data(st, cur))):
                self.write_through(st, cur, v, s)
                return st
        self.assign(s.target, v, st, s, aug=True)
        return st

    def write_through(self, st, ref, v, node):
        h = st.heap[ref]
        if h.kind == "view":
            base, ix = h.data
            self.store_into(st, base, ix, v, node)
        else:
            st.heap[ref] = H(h.kind, v, h.extra)
            self.event(st, "mutate", [mk("refid", ref.val), v], {}, node)

    def array_fields(self):
        """attributes that some method fills with a freshly made array"""
        got = getattr(self.proj, "_array_fields", None)
        if got is None:
            got = set(ARRAY_FIELDS)
            for m in self.proj.modules.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call):
                        f = x.value.func
                        if (f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None) in ("zeros", "ones", "zeros_like", "ones_like", "exp"):
                            got.update(t.attr for t in x.targets if isinstance(t, ast.Attribute))
            self.proj._array_fields = got
        return got

    def is_tensor(self, t, depth=0):
        if depth > 8:
            return False
        if t.op == "app":
            if t.val in ("len", "int", "float", "shape", "floordiv", "mod", "item", "str", "strcat", "range"):
                return False
            return t.val in METHODS or t.val in ALIAS.values() or t.val in ("where", "fill", "cplx", "tensor", "storemap")
        if t.op == "sym":
            return t.val in TENSOR_SYMS or "." in str(t.val) and str(t.val).split(".")[-1] in self.array_fields()
        if t.op == "poly":
            return any(self.is_tensor(c, depth + 1) for c in children(t))
        if t.op in ("store",):
            return self.is_tensor(t.args[0], depth + 1)
        if t.op == "idx":
            return self.is_tensor(t.args[0], depth + 1)
        if t.op == "ite":
            return self.is_tensor(t.args[1], depth + 1) or self.is_tensor(t.args[2], depth + 1)
        return False

    def assign(self, tgt, v, st, node, aug=False):
        if isinstance(tgt, ast.Name):
            if tgt.id in self.frames[-1].globals:
                self.event(st, "setglobal", [const(tgt.id), v], {}, node)
            st.env[tgt.id] = self.box(st, v)
            return
        if isinstance(tgt, (ast.Tuple, ast.List)):
            elts = tgt.elts
            star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
            vals = self.unpack(v, len(elts), st, node, star)
            for e, x in zip(elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, node)
            return
        if isinstance(tgt, ast.Attribute):
            base = self.eval(tgt.value, st)
            self.setattr_(st, base, tgt.attr, v, node)
            return
        if isinstance(tgt, ast.Subscript):
            base = self.lvalue(tgt.value, st)
            ix = self.eval_index(tgt.slice, st)
            self.store_into(st, base, ix, v, node)
            return
        self.note_unknown("assign target", node)

    def lvalue(self, e, st):
        """the object a nested subscript target writes into: x[i][j] = v writes through to x"""
        if not isinstance(e, ast.Subscript):
            return self.eval(e, st)
        b = self.lvalue(e.value, st)
        ix = self.eval_index(e.slice, st)
        return self.getitem(b, ix, st, e, write=True)

    def unpack(self, v, n, st, node, star=()):
        if v.op == "ref":
            h = st.heap.get(v)
            if h is not None and h.kind == "list" and h.data.op in ("list", "tuple") and not star:
                if len(h.data.args) == n:
                    return list(h.data.args)
            if h is not None and h.kind == "tensor" and h.data.op == "tuple" and len(h.data.args) == n:
                return list(h.data.args)
        if v.op == "tuple" and not star and len(v.args) == n:
            return list(v.args)
        if v.op == "ite" :
            a = self.unpack(v.args[1], n, st, node, star)
            b = self.unpack(v.args[2], n, st, node, star)
            return [self.mergeval(v.args[0], x, y) for x, y in zip(a, b)]
        d = self.data(st, v)
        if d.op == "ite":
            a = self.unpack(d.args[1], n, st, node, star)
            b = self.unpack(d.args[2], n, st, node, star)
            return [ite(d.args[0], x, y) for x, y in zip(a, b)]
        if star:
            k = star[0]
            out = []
            for i in range(n):
                if i < k:
                    out.append(mk_idx(d, const(i)))
                elif i == k:
                    out.append(mk_idx(d, mk_slice(const(k), const(-(n - 1 - k)) if n - 1 - k else NONE)))
                else:
                    out.append(mk_idx(d, const(i - n)))
            return out
        return [mk_idx(d, const(i)) for i in range(n)]

    def setattr_(self, st, base, name, v, node):
        if base.op == "ite":
            for c, r in _guarded_leaves(base):
                if r.op == "ref":
                    s1 = st.copy()
                    self.setattr_(s1, r, name, v, node)
                    m = self.merge(c, s1, st)
                    st.heap.clear()
                    st.heap.update(m.heap)
            return
        h = self.rec(st, base)
        if name in ("grad", "data", "requires_grad") and (h is None or h.kind in ("tensor", "view")):
            d = self.data(st, base)
            if any(x.op == "app" and x.val in (".parameters", ".named_parameters") or x.op == "attr" and x.val == "model" for x in subterms(d)):
                k = "G" if name == "grad" else "W"
                self.setchan(st, k, app("set:" + name, [self.chan(st, k), d, self.data(st, v)]))
        if h is None:
            self.event(st, "setattr", [base, const(name), v], {}, node)
            return
        if h.kind == "inst":
            setter = self.find_setter(h.extra, name)
            if setter is not None:
                self.call_func(setter, [base, v], {}, st, node)
                return
            d = dict(h.data)
            d[name] = self.box(st, v)
            st.heap[base] = H("inst", d, h.extra)
            self.event(st, "setfield", [const(h.extra.name), const(name), v], {}, node)
            return
        if h.kind == "dotmap":
            d = dict(h.data)
            d[name] = self.box(st, v)
            st.heap[base] = H("dotmap", d, h.extra)
            self.event(st, "cfgset", [const(h.extra), const(name), v], {}, node)
            return
        if h.kind in ("tensor", "view") and name in ("real", "imag", "data", "grad"):
            cur = self.deref(st, base)
            vd = self.data(st, v)
            if name == "real":
                new = app("cplx", [vd, app("imag", [cur])])
            elif name == "imag":
                new = app("cplx", [app("real", [cur]), vd])
            else:
                new = vd
            self.write_through(st, base, new, node)
            return
        if h.kind == "dict":
            self.event(st, "setattr", [base, const(name), v], {}, node)
            return
        self.event(st, "setattr", [base, const(name), v], {}, node)

    def store_into(self, st, base, ix, v, node):
        if base.op == "ite":
            for c, r in _guarded_leaves(base):
                if r.op == "ref" or any(x.op == "attr" and x.val == "param_groups" for x in subterms(r)):
                    s1 = st.copy()
                    self.store_into(s1, r, ix, v, node)
                    m = self.merge(c, s1, st)
                    st.heap.clear()
                    st.heap.update(m.heap)
            return
        h = self.rec(st, base)
        if h is None or h.kind in ("tensor", "view"):
            bd_ = self.data(st, base)
            if any(x.op == "attr" and x.val == "param_groups" for x in subterms(bd_)):
                self.setchan(st, "O", app("setO", [self.chan(st, "O"), bd_, self.data(st, ix), self.data(st, v)]))
                return
            if bd_.op == "app" and str(bd_.val).startswith("new:") and not isinstance(ix, str):
                cls = self.proj.class_named(bd_.val[4:])
                if cls is not None and self.find_method(cls, "__setitem__") is not None:
                    t = mk_store(bd_, self.data(st, ix), sym("%v"))
                    self.event(st, "place", [bd_, t.args[1] if t.op == "store" else self.data(st, ix), v], {}, node)
                    return
        if h is None:
            self.event(st, "setitem", [base, ix if not isinstance(ix, str) else const(ix), v], {}, node)
            return
        if isinstance(ix, str):       # .real / .imag view
            self.setattr_(st, base, ix, v, node)
            return
        if h.kind == "inst":
            m = self.find_method(h.extra, "__setitem__")
            if m is not None:
                self.call_func(m, [base, self.box(st, ix), v], {}, st, node)
                return
            self.event(st, "setitem", [base, ix, v], {}, node)
            return
        ixd = self.data(st, ix)
        if h.kind == "dotmap":
            if is_str(ixd):
                self.setattr_(st, base, pyconst(ixd), v, node)
            else:
                self.event(st, "cfgset", [const(h.extra), ixd, v], {}, node)
            return
        if h.kind == "dict":
            d = dict(h.data)
            if ixd in d or has_const(ixd) or not d:
                d[ixd] = self.box(st, v)
                st.heap[base] = H("dict", d, h.extra)
            else:
                d[ixd] = self.box(st, v)
                st.heap[base] = H("dict", d, h.extra)
            return
        if h.kind == "list" and h.data.op == "list" and as_int(ixd) is not None and -len(h.data.args) <= as_int(ixd) < len(h.data.args):
            a = list(h.data.args)
            a[as_int(ixd)] = self.box(st, v)
            st.heap[base] = H("list", mk("list", None, a), h.extra)
            return
        vd = self.data(st, v)
        if h.kind == "view":
            b2, ix2 = h.data
            if isinstance(ix2, str):
                cur = app(ix2, [self.deref(st, b2)])
                self.setattr_(st, b2, ix2, mk_store(cur, ixd, vd), node)
            else:
                p0, p1 = index_parts(self.data(st, ix2)), index_parts(ixd)
                hb = self.rec(st, b2)
                if not (hb is not None and hb.kind == "list") and all(_basic_ok(p) for p in p0 + p1):
                    from .norm import _compose
                    r = _compose(p0, p1)
                    if r is not None:
                        self.store_into(st, b2, mk_index(r), vd, node)
                        return
                cur = mk_idx(self.deref(st, b2), self.data(st, ix2))
                self.store_into(st, b2, self.data(st, ix2), mk_store(cur, ixd, vd), node)
            return
        cur = self.deref(st, h.data)
        if h.kind == "list":
            new = mk_store(cur, ixd, vd)
            st.heap[base] = H("list", new, h.extra)
        else:
            new = mk_store(cur, ixd, vd)
            st.heap[base] = H("tensor", new, h.extra)
        self.remember(new, node)
        self.event(st, "mutate", [mk("refid", base.val), new], {}, node)

    # -------------------------------------------------------------- expressions
    def remember(self, t, node):
        if t.op not in ("const",) and t not in self.locs:
            f = self.frames[-1]
            self.locs[t] = (f.mod.path, getattr(node, "lineno", 0), f.func.qual if f.func else f.mod.name)

    def eval(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            self.note_unknown("expr " + type(e).__name__, e)
            return mk("unknown", type(e).__name__)
        v = m(e, st)
        if v is None:
            v = NONE
        if self.nograd and self.grad and isinstance(e, (ast.Call, ast.BinOp, ast.UnaryOp)):
            v = self.ungrad(v, st)
        self.remember(v, e)
        return v

    def ungrad(self, v, st):
        """a value computed while gradients are switched off"""
        if v.op == "tuple":
            return mk("tuple", None, [self.ungrad(a, st) for a in v.args])
        if v.op == "ref":
            h = self.rec(st, v)
            if h is None or h.kind not in ("tensor", "list"):
                return v
            v = self.data(st, v)
        if v.op in ("func", "class", "mod", "bound", "undef", "closure", "super", "bmeth", "ext", "const", "str", "dtype", "slice", "none") or (v.op == "app" and v.val in ("gradkill", "no_grad", "inference_mode", "set_grad_enabled")):
            return v
        return app("gradkill", [const("no_grad"), v])

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        v = st.env.get(e.id)
        if v is not None:
            if self.loopctx and v.op in ("undef", "ite") and any(x is UNDEF for x in ite_leaves(v)):
                self.preread.add((len(self.frames), e.id))
            return v
        if self.loopctx:
            self.preread.add((len(self.frames), e.id))
        return self.global_name(self.frames[-1].mod, e.id, st, e)

    def global_name(self, mod, name, st, node=None):
        r = self.proj.lookup(mod.name, name)
        if r is None:
            if hasattr(builtins, name):
                return mk("ext", "builtins." + name)
            if name == "__file__":
                return mk("sym", "__file__")
            if mod.name.startswith("nidn._spec"):
                c = [d for m in self.proj.modules.values() if not m.name.startswith("nidn._spec") for k, d in m.defs.items() if k == name and isinstance(d, (Func, Class))]
                if len(c) == 1:
                    return self.from_lookup(c[0], st)
            self.note_unknown("name " + name, node)
            return mk("unknown", "name:" + name)
        return self.from_lookup(r, st)

    def from_lookup(self, r, st):
        if r is None:
            return mk("unknown", "import")
        if isinstance(r, Func):
            return mk("func", r.qual)
        if isinstance(r, Class):
            return mk("class", r.qual)
        if r[0] == "mod":
            return mk("mod", r[1])
        if r[0] == "ext":
            return self.extval(r[1])
        if r[0] == "assign":
            _, node, m = r
            key = (m.name, id(node))
            if key in self.modvals:
                h = self.modvals[key]
                return self.rebox(h, st)
            if m.name.endswith("fdtd.backend") and isinstance(node, (ast.Call,)):
                v = mk("mod", "bd")
                self.modvals[key] = v
                return v
            self.modvals[key] = mk("unknown", "recursive global")
            fr = Frame(None, m)
            self.frames.append(fr)
            s2 = State({}, {}, TRUE)
            try:
                v = self.eval(node, s2)
                v = self.deref(s2, v) if v.op != "ref" or s2.heap[v].kind in ("list", "tensor", "dict", "view") else v
                if v.op == "ref":
                    st.heap.update(s2.heap)
            finally:
                self.frames.pop()
            self.modvals[key] = v
            return self.rebox(v, st)
        return mk("unknown", "lookup")

    def rebox(self, v, st):
        if v.op == "dict":
            return self.alloc(st, H("dict", {kv.args[0]: kv.args[1] for kv in v.args}))
        return v

    def extval(self, q):
        q = canon_q(q)
        if q in EXT_CONST:
            return const(EXT_CONST[q])
        last = q.split(".")[-1]
        if q.split(".")[0] in ("torch", "numpy", "bd") and last in DTYPES:
            return mk("dtype", DTYPES[last])
        return mk("ext", q)

    def e_Attribute(self, e, st):
        b = self.eval(e.value, st)
        return self.getattr_(b, e.attr, st, e)

    def getattr_(self, b, name, st, node):
        if b.op == "ite":
            return self.mergeval(b.args[0], self.getattr_(b.args[1], name, st, node), self.getattr_(b.args[2], name, st, node))
        if b.op == "mod":
            q = b.val
            if q == "bd" and name == "int":
                return mk("dtype", "int64")
            if q == "bd" and name != "float":
                # the FDTD array backend: members of its torch class
                c = self.proj.find("nidn.fdtd.backend.TorchBackend")
                m = self.find_method(c, name) if isinstance(c, Class) else None
                if m is not None:
                    return mk("func", m.qual) if "staticmethod" in m.decorators else mk("bound", m.qual, (b,))
                a = self.find_classattr(c, name) if isinstance(c, Class) else None
                if a is not None:
                    v = a[0]
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "staticmethod" and v.args:
                        v = v.args[0]
                    return self.from_lookup(("assign", v, a[1]), st)
            if q in self.proj.modules:
                r = self.proj.lookup(q, name)
                if r is not None:
                    return self.from_lookup(r, st)
                return mk("unknown", "attr:" + q + "." + name)
            return self.extval(q + "." + name)
        if b.op == "ext":
            return self.extval(b.val + "." + name)
        if b.op == "class":
            c = self.proj.find(b.val)
            m = self.find_method(c, name)
            if m is not None:
                return mk("func", m.qual)
            a = self.find_classattr(c, name)
            if a is not None:
                return self.from_lookup(("assign", a[0], a[1]), st)
            return mk("attr", name, (b,))
        if b.op == "super":
            cls = self.proj.find(b.val)
            m = self.find_method_after(cls, name)
            if m is not None:
                return mk("bound", m.qual, (b.args[0],))
            return mk("bmeth", name, (b,))
        h = self.rec(st, b)
        if h is not None:
            if h.kind == "dotmap":
                if name in h.data:
                    return h.data[name]
                if name in ("keys", "items", "values", "copy", "get", "pop", "update", "toDict", "has_key", "setdefault"):
                    return mk("bmeth", name, (b,))
                v = self.dot_default(h, name)
                return v
            if h.kind == "inst":
                if name in h.data:
                    return h.data[name]
                if name == "__class__":
                    return mk("class", h.extra.qual)
                if name == "__dict__":
                    return mk("attr", name, (b,))
                m = self.find_method(h.extra, name)
                if m is not None:
                    if "property" in m.decorators or any(d.endswith("cached_property") for d in m.decorators):
                        return self.call_func(m, [b], {}, st, node)
                    if "staticmethod" in m.decorators:
                        return mk("func", m.qual)
                    return mk("bound", m.qual, (b,))
                a = self.find_classattr(h.extra, name)
                if a is not None and (b not in getattr(self, "entry_heap", {}) or not self.field_written(h.extra, name)):
                    if isinstance(a[0], (ast.List, ast.Dict, ast.Set)) and name not in h.data:
                        # one object shared by all instances: its content depends on the history
                        return self.box(st, mk("sym", "%s.%s" % (h.extra.name, name)))
                    return self.from_lookup(("assign", a[0], a[1]), st)
                # symbolic field of an instance whose constructor was not analysed
                if self.ext_base(h.extra) and (name in METHODS or name in ("parameters", "state_dict", "load_state_dict", "train", "eval", "register_parameter", "register_buffer", "modules", "apply", "named_parameters")):
                    return mk("bmeth", name, (b,))
                pre = self.instname.get(b, "self") + "." + name
                d = dict(h.data)
                e0 = getattr(self, "entry_heap", {}).get(b)
                if e0 is not None and e0.data.get(name) is not None:
                    bx = e0.data[name]
                    if bx.op == "ref":
                        self.pull(st.heap, bx)
                    d[name] = bx
                    st.heap[b] = H("inst", d, h.extra)
                    return bx
                if self.typed(pre):
                    bx = self.typed_inst(st, pre, pre)
                elif self.typed(name):
                    bx = self.typed_inst(st, name, pre)
                else:
                    bx = self.box(st, mk("sym", pre))
                d[name] = bx
                st.heap[b] = H("inst", d, h.extra)
                # keep the lazily created entry in the entry heap too
                if hasattr(self, "entry_heap") and b in self.entry_heap:
                    eh = self.entry_heap[b]
                    dd = dict(eh.data)
                    dd.setdefault(name, bx)
                    self.entry_heap[b] = H("inst", dd, eh.extra)
                    self.entry_heap.setdefault(bx, st.heap.get(bx))
                return bx
            if h.kind in ("tensor", "view"):
                if name in ("real", "imag"):
                    return self.alloc(st, H("view", (b, name)))
                if name == "data" or name == "grad":
                    if name == "data" and self.grad:
                        return app("gradkill", [const("data"), self.deref(st, b)])
                    return getattr_norm(self.deref(st, b), name) if name == "grad" else b
                if name in METHODS:
                    return mk("bmeth", name, (b,))
                if name == "T" or name == "mT" or name == "shape" or name in ("dtype", "device", "ndim", "is_cuda", "requires_grad", "size"):
                    if name in ("size",):
                        return mk("bmeth", name, (b,))
                    return getattr_norm(self.deref(st, b), name)
                d = self.deref(st, b)
                if d.op == "excobj":
                    return mk("attr", name, (d,))
                if d.op == "inst":
                    for kw in d.args:
                        if kw.val == name:
                            return kw.args[0]
                return mk("bmeth", name, (b,)) if self.is_call_attr(node) else getattr_norm(d, name)
            if h.kind in ("list", "dict", "closure"):
                return mk("bmeth", name, (b,))
        if b.op == "inst":
            for kw in b.args:
                if kw.val == name:
                    return kw.args[0]
            c = self.proj.find(b.val)
            if c is not None:
                m = self.find_method(c, name)
                if m is not None:
                    r = self.alloc(st, H("inst", {kw.val: kw.args[0] for kw in b.args}, c))
                    return self.getattr_(r, name, st, node)
        if self.is_call_attr(node):
            return mk("bmeth", name, (b,))
        if b.op in ("sym", "idx", "attr", "app", "poly", "bv", "store", "lastval", "loop", "while", "map", "slice"):
            if name in ("data",):
                return app("gradkill", [const("data"), b]) if self.grad else b
            return getattr_norm(b, name)
        if b.op == "const" and is_str(b):
            return mk("bmeth", name, (b,))
        if b.op == "tuple" or b.op == "list":
            return mk("bmeth", name, (b,))
        return mk("attr", name, (b,))

    def is_call_attr(self, node):
        return getattr(node, "_is_callee", False)

    # classes ---------------------------------------------------------------
    def mro(self, cls):
        out = []
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in out or not isinstance(c, Class):
                continue
            out.append(c)
            for b in c.node.bases:
                if isinstance(b, ast.Name):
                    r = self.proj.lookup(c.mod.name, b.id)
                    if isinstance(r, Class):
                        todo.append(r)
        return out

    def ext_base(self, cls):
        for c in self.mro(cls):
            for b in c.node.bases:
                if isinstance(b, ast.Name):
                    r = self.proj.lookup(c.mod.name, b.id)
                    if not isinstance(r, Class) and b.id != "object":
                        return True
                else:
                    return True
        return False

    def find_method(self, cls, name):
        if cls is None:
            return None
        for c in self.mro(cls):
            if name in c.methods:
                return c.methods[name]
        return None

    def find_method_after(self, cls, name):
        for c in self.mro(cls)[1:]:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if name in c.setters:
                return c.setters[name]
        return None

    def field_written(self, cls, name):
        """some method assigns self.<name>: the class attribute is only its initial value"""
        if self.stack and self.stack[0].endswith(".__init__"):
            return False
        for k in self.mro(cls):
            for m in getattr(k, "methods", {}).values():
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        return True
        return False

    def find_classattr(self, cls, name):
        for c in self.mro(cls):
            if name in c.attrs:
                return c.attrs[name], c.mod
        return None

    # operators ---------------------------------------------------------------
    def e_BinOp(self, e, st):
        a = self.eval(e.left, st)
        b = self.eval(e.right, st)
        op = type(e.op).__name__
        ha, hb = self.rec(st, a), self.rec(st, b)
        if op == "Add" and (ha is not None and ha.kind == "tensor" and ha.data.op in ("list", "map", "cat") or hb is not None and hb.kind == "tensor" and hb.data.op in ("list", "map", "cat")):
            return lift(lambda x, y: add([x, y]), [self.data(st, a), self.data(st, b)])
        if op == "Add" and ((ha is not None and ha.kind == "list") or (hb is not None and hb.kind == "list") or a.op in ("list", "cat") or b.op in ("list", "cat")):
            return self.alloc(st, H("list", mk_cat([self.seq_of(st, a), self.seq_of(st, b)])))
        if op == "Add" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", None, a.args + b.args)
        if op == "Mult" and ((ha is not None and ha.kind == "list" and ha.data.op == "list") or (hb is not None and hb.kind == "list" and hb.data.op == "list")):
            l, k = (a, b) if ha is not None and ha.kind == "list" else (b, a)
            kd = self.data(st, k)
            ld = st.heap[l].data
            if as_int(kd) is not None and 0 <= as_int(kd) <= 16:
                return self.alloc(st, H("list", mk("list", None, ld.args * as_int(kd))))
            if len(ld.args) == 1:
                f = fresh()
                return self.alloc(st, H("list", mk_map(kd, f, self.deref(st, ld.args[0]))))
        if op == "Mult" and (ha is not None and ha.kind == "list") != (hb is not None and hb.kind == "list"):
            l, k = (a, b) if ha is not None and ha.kind == "list" else (b, a)
            kd, ld = self.data(st, k), self.deref(st, l)
            if ld.op in ("map", "cat") or ld.op == "app" and ld.val == "listof":
                f, m = fresh(), mk_len(ld)
                return self.alloc(st, H("list", mk_map(mul([kd, m]), f, mk_idx(ld, app("mod", [f, m])))))
        return self.binop(op, self.data(st, a), self.data(st, b), e, st)

    def seq_of(self, st, v):
        h = self.rec(st, v)
        if h is not None and h.kind == "list":
            return h.data
        return self.data(st, v)

    def binop(self, op, a, b, node, st):
        return lift(lambda x, y: self.binop0(op, x, y, node), [a, b])

    def binop0(self, op, a, b, node):
        if a.op == "set" and b.op == "set" and op in ("BitOr", "BitAnd", "Sub", "BitXor"):
            x, y = set(a.args), set(b.args)
            if op == "BitOr" or all(has_const(t) for t in x | y):
                z = x | y if op == "BitOr" else x & y if op == "BitAnd" else x - y if op == "Sub" else x ^ y
                return mk("set", None, sorted(z, key=lambda t: t.id))
        if op == "Add":
            if is_str(a) or is_str(b) or (a.op == "app" and a.val in ("strcat", "str")) or (b.op == "app" and b.val in ("strcat", "str")):
                return app("strcat", [a, b])
            if a.op in ("list", "cat") or b.op in ("list", "cat"):
                return mk_cat([a, b])
            if a.op == "tuple" and b.op == "tuple":
                return mk("tuple", None, a.args + b.args)
            if any(x.op == "tuple" for x in (a, b)) and any(x.op == "app" and x.val == "listof" for x in (a, b)):
                return mk_cat([a, b])
            return add([a, b])
        if op == "Sub":
            return sub(a, b)
        if op == "Mult":
            if (is_str(a) and is_num(b)) or (is_str(b) and is_num(a)):
                return app("strrep", [a, b])
            for x, y in ((a, b), (b, a)):
                if x.op == "tuple" and as_int(y) is not None and 0 <= as_int(y) <= 16:
                    return mk("tuple", None, x.args * as_int(y))
            return mul([a, b])
        if op == "Div":
            return div(a, b)
        if op == "Pow":
            return power(a, b)
        if op == "FloorDiv":
            return app("floordiv", [a, b])
        if op == "Mod":
            if is_str(a):
                return app("strfmt", [a, b])
            return app("mod", [a, b])
        if op == "MatMult":
            return app("matmul", [a, b])
        if op == "BitAnd":
            return app("and", [a, b])
        if op == "BitOr":
            return app("or", [a, b])
        if op == "BitXor":
            return app("xor", [a, b])
        return app("binop" + op, [a, b])

    def e_UnaryOp(self, e, st):
        v = self.data(st, self.eval(e.operand, st))
        if isinstance(e.op, ast.USub):
            return lift(neg, [v])
        if isinstance(e.op, ast.UAdd):
            return v
        if isinstance(e.op, ast.Not):
            return not_(gate(v))
        return lift(lambda x: app("not", [x]), [v])

    def e_BoolOp(self, e, st):
        vals = []
        cur = None
        # short circuit: evaluate sequentially (side effects in operands are rare)
        for x in e.values:
            vals.append(self.eval(x, st))
        isand = isinstance(e.op, ast.And)
        r = vals[-1]
        for v in reversed(vals[:-1]):
            g = gate(self.data(st, v))
            vv = v
            if boolish(self.data(st, v)):
                vv = g
            rr = r
            if boolish(self.data(st, r)):
                rr = gate(self.data(st, r))
            r = ite(g, rr, vv if vv is not g else FALSE) if isand else ite(g, vv if vv is not g else TRUE, rr)
        return r

    def e_Compare(self, e, st):
        left = self.eval(e.left, st)
        res = None
        for op, c in zip(e.ops, e.comparators):
            right = self.eval(c, st)
            r = self.compare(type(op).__name__, left, right, st, e)
            res = r if res is None else and_(gate(res), gate(r))
            left = right
        return res

    def compare(self, op, a, b, st, node):
        ha, hb = self.rec(st, a), self.rec(st, b)
        if op in ("In", "NotIn"):
            r = self.contains(a, b, st)
            return r if op == "In" else not_(gate(r))
        if op in ("Is", "IsNot"):
            da, db = self.data(st, a), self.data(st, b)
            r = lift(lambda x, y: self.is_(x, y), [da, db])
            return r if op == "Is" else not_(gate(r))
        da, db = self.data(st, a), self.data(st, b)
        if op == "Eq":
            return lift(eq, [da, db])
        if op == "NotEq":
            r = lift(eq, [da, db])
            if self.is_tensor(da) or self.is_tensor(db):
                return app("not", [r])
            return not_(gate(r))
        if op == "Lt":
            return lift(lambda x, y: lt0(sub(x, y)), [da, db])
        if op == "Gt":
            return lift(lambda x, y: lt0(sub(y, x)), [da, db])
        if op == "LtE":
            return lift(lambda x, y: le0(sub(x, y)), [da, db])
        if op == "GtE":
            return lift(lambda x, y: le0(sub(y, x)), [da, db])
        return mk("unknown", "cmp" + op)

    def is_(self, x, y):
        if x is y:
            return TRUE
        if x is NONE or y is NONE:
            o = y if x is NONE else x
            if o.op in ("const", "list", "tuple", "map", "poly", "inst", "dict", "func", "class", "cat", "store", "dtype", "bound", "mod", "range", "ext"):
                return FALSE
            if o.op == "app" and o.val not in ("get",):
                return FALSE
            return mk("eq", None, (o, NONE))
        return mk("is", None, tuple(sorted((x, y), key=lambda t: t.id)))

    def contains(self, a, b, st):
        h = self.rec(st, b)
        da = self.data(st, a)
        if h is not None and h.kind == "dotmap":
            if is_str(da) and pyconst(da) in h.data:
                return TRUE
            return mk("has", None, (sym(h.extra), da))
        if h is not None and h.kind == "dict" and h.extra is None and has_const(da):
            if da in h.data:
                return TRUE
            if all(has_const(k) for k in h.data):
                return FALSE
        if h is not None and h.kind == "dict" and h.extra is None:
            r = FALSE
            for k in h.data:
                r = or_(r, gate(eq(da, k)))
            return r
        db = self.data(st, b)
        if db.op == "app" and db.val == "keys":
            return mk("has", None, (db.args[0], da))
        if db.op in ("list", "tuple", "set"):
            r = FALSE
            for x in db.args:
                r = or_(r, gate(lift(eq, [da, x])))
            return r
        if db.op == "sym" and da.op == "const" and is_str(da):
            return mk("has", None, (db, da))
        return vg.mk_in(da, db)

    def e_IfExp(self, e, st):
        c = gate(self.data(st, self.eval(e.test, st)))
        if c is TRUE:
            return self.eval(e.body, st)
        if c is FALSE:
            return self.eval(e.orelse, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc, s2.pc = and_(st.pc, c), and_(st.pc, not_(c))
        a = self.eval(e.body, s1)
        b = self.eval(e.orelse, s2)
        m = self.merge(c, s1, s2)
        st.heap.clear()
        st.heap.update(m.heap)
        st.env.update(m.env)
        return self.mergeval(c, a, b)

    def e_Tuple(self, e, st):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.seq_of(st, self.eval(x.value, st))
                if v.op in ("list", "tuple"):
                    out.extend(v.args)
                else:
                    out.append(mk("star", None, (self.deref(st, v),)))
            else:
                out.append(self.box(st, self.eval(x, st)))
        return mk("tuple", None, out)

    def e_List(self, e, st):
        parts = []
        cur = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                if cur:
                    parts.append(mk("list", None, cur))
                    cur = []
                parts.append(self.seq_of(st, self.eval(x.value, st)))
            else:
                cur.append(self.box(st, self.eval(x, st)))
        if cur or not parts:
            parts.append(mk("list", None, cur))
        return self.alloc(st, H("list", mk_cat(parts) if len(parts) > 1 else parts[0]))

    def e_Set(self, e, st):
        els = sorted({self.data(st, self.eval(x, st)) for x in e.elts}, key=lambda t: t.id)
        return mk("set", None, els)

    def e_Dict(self, e, st):
        d = {}
        extra = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.eval(v, st)
                h = self.rec(st, x)
                if h is not None and h.kind == "dict":
                    d.update(h.data)
                    extra = h.extra
                else:
                    extra = self.data(st, x)
            else:
                d[self.data(st, self.eval(k, st))] = self.box(st, self.eval(v, st))
        return self.alloc(st, H("dict", d, extra))

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                x = self.data(st, self.eval(v.value, st))
                if v.format_spec is not None:
                    x = app("fmt", [x, const(ast.unparse(v.format_spec))])
                parts.append(x)
        if not parts:
            return const("")
        return app("strcat", parts)

    def e_FormattedValue(self, e, st):
        return app("strcat", [self.data(st, self.eval(e.value, st))])

    def e_Lambda(self, e, st):
        f = Func(self.frames[-1].mod, e, (self.frames[-1].func.qual if self.frames[-1].func else self.frames[-1].mod.name) + ".<lambda@%d>" % e.lineno)
        return self.alloc(st, H("closure", dict(st.env), f))

    def e_NamedExpr(self, e, st):
        v = self.box(st, self.eval(e.value, st))
        self.assign(e.target, v, st, e)
        return v

    def e_Starred(self, e, st):
        return mk("star", None, (self.data(st, self.eval(e.value, st)),))

    def e_Slice(self, e, st):
        g = lambda x: NONE if x is None else self.data(st, self.eval(x, st))
        return mk_slice(g(e.lower), g(e.upper), g(e.step))

    def eval_index(self, s, st):
        v = self.eval(s, st)
        if v.op == "tuple":
            return mk("tuple", None, [self.data(st, a) if not self.is_objref(a, st) else a for a in v.args])
        return v

    def is_objref(self, v, st):
        h = self.rec(st, v)
        return h is not None and h.kind in ("inst", "dotmap")

    def e_Subscript(self, e, st):
        b = self.eval(e.value, st)
        ix = self.eval_index(e.slice, st)
        return self.getitem(b, ix, st, e)

    def getitem(self, b, ix, st, node, write=False):
        if b.op == "ite" and self.has_ref(b):
            return self.mergeval(b.args[0], self.getitem(b.args[1], ix, st, node, write), self.getitem(b.args[2], ix, st, node, write))
        h = self.rec(st, b)
        ixd = self.data(st, ix)
        if h is not None:
            if h.kind == "dotmap":
                if is_str(ixd):
                    k = pyconst(ixd)
                    if k in h.data:
                        return h.data[k]
                    return self.dot_default(h, k)
                if ixd.op == "ite":
                    return self.mergeval(ixd.args[0], self.getitem(b, ixd.args[1], st, node), self.getitem(b, ixd.args[2], st, node))
                return mk("app", "cfgget", (sym(h.extra), ixd))
            if h.kind == "dict":
                if ixd in h.data:
                    return h.data[ixd]
                if h.extra is not None:
                    return mk_idx(self.deref(st, h.extra), ixd)
                if h.data and all(has_const(k) for k in h.data) and not has_const(ixd) and ixd.op != "ite":
                    # dispatch table: chain of equalities
                    r = None
                    for k, v in h.data.items():
                        r = v if r is None else self.mergeval(eq(ixd, k), v, r)
                    ok = FALSE
                    for k in h.data:
                        ok = or_(ok, gate(eq(ixd, k)))
                    self.raise_(st, "KeyError", node, not_(ok))
                    st.pc = and_(st.pc, ok)
                    return r
                return mk_idx(self.deref(st, b), ixd)
            if h.kind == "inst":
                m = self.find_method(h.extra, "__getitem__")
                if m is not None:
                    return self.call_func(m, [b, self.box(st, ix)], {}, st, node)
                return mk_idx(self.deref(st, b), ixd)
            if h.kind == "list":
                d = h.data
                r = lift_idx(d, ixd)
                if write and not self.has_ref(r) and ixd.op != "slice":
                    return self.alloc(st, H("view", (b, ixd)))
                if r.op in ("list", "map", "cat") and (ixd.op == "slice"):
                    return self.alloc(st, H("list", r))
                return r
            if h.kind in ("tensor", "view"):
                d = self.deref(st, b)
                if self.basic_index(ixd) and (write or self.is_tensor(d)):
                    # a view on the same storage
                    return self.alloc(st, H("view", (b, ixd)))
                return mk_idx(d, ixd)
        if b.op in ("tuple", "list"):
            return mk_idx(b, ixd)
        return mk_idx(self.data(st, b), ixd)

    def basic_index(self, ix):
        return all(_basic_ok(p) for p in index_parts(ix))

    # comprehension ---------------------------------------------------------
    def e_ListComp(self, e, st):
        return self.alloc(st, H("list", self.comp(e.elt, e.generators, st, e)))

    def e_GeneratorExp(self, e, st):
        return self.alloc(st, H("list", self.comp(e.elt, e.generators, st, e)))

    def e_SetComp(self, e, st):
        return app("setof", [self.comp(e.elt, e.generators, st, e)])

    def e_DictComp(self, e, st):
        g = e.generators[0]
        if len(e.generators) == 1 and g.ifs and isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Attribute) and g.iter.func.attr == "items" and not g.iter.args \
                and isinstance(g.target, ast.Tuple) and [ast.unparse(x) for x in g.target.elts] == [ast.unparse(e.key), ast.unparse(e.value)]:
            # some of the entries of a mapping
            b = self.eval(g.iter.func.value, st)
            h = self.rec(st, b)
            if h is not None and h.kind == "dotmap":
                return self.alloc(st, H("dict", {}, app("entries", [self.data(st, b)] + [const(ast.unparse(x)) for x in g.ifs])))
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        ast.copy_location(pair, e)
        seq = self.comp(pair, e.generators, st, e)
        if seq.op == "list" and all(x.op == "tuple" for x in seq.args):
            return self.alloc(st, H("dict", {self.deref(st, x.args[0]): x.args[1] for x in seq.args}))
        return self.alloc(st, H("dict", {}, app("dictof", [self.deref(st, seq)])))

    def comp(self, elt, gens, st, node):
        g = gens[0]
        it = self.eval(g.iter, st)
        kind = self.iter_elems(it, st)
        saved = dict(st.env)

        def body(s):
            cond = TRUE
            for c in g.ifs:
                cond = and_(cond, gate(self.data(s, self.eval(c, s))))
            if len(gens) > 1:
                return cond, self.comp(elt, gens[1:], s, node), True
            v = self.box(s, self.eval(elt, s))
            return cond, v, False

        if kind[0] == "concrete":
            parts = []
            for el in kind[1]:
                self.assign(g.target, el, st, node)
                cond, v, nested = body(st)
                seq = v if nested else mk("list", None, (v,))
                parts.append(ite(cond, seq, mk("list", None, ())))
            st.env.clear()
            st.env.update(saved)
            return mk_cat(parts) if parts else mk("list", None, ())
        _, n, fn = kind
        fi = fresh("i")
        self.loopctx.append((fi, n))
        self.assign(g.target, fn(fi), st, node)
        f = self.frames[-1]
        x0 = len(f.raises)
        cond, v, nested = body(st)
        v = self.deref(st, v)
        self.loopctx.pop()
        new = f.raises[x0:]
        del f.raises[x0:]
        for (pc, exc, sx, lc) in new:
            gg = pc if fi not in free_syms(pc) else app("any", [mk_map(n, fi, pc)])
            f.raises.append((gg, exc, sx, lc))
        st.env.clear()
        st.env.update(saved)
        if cond is TRUE and not nested:
            return mk_map(n, fi, v)
        seq = v if nested else mk("list", None, (v,))
        return app("flat", [mk_map(n, fi, ite(cond, seq, mk("list", None, ())))])

    def e_Await(self, e, st):
        return self.eval(e.value, st)

    def e_Yield(self, e, st):
        v = self.eval(e.value, st) if e.value is not None else NONE
        self.event(st, "yield", [v], {}, e)
        return NONE

    # --------------------------------------------------------------------- calls
    def is_logging(self, e, st):
        f = e.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("logger", "logging", "warnings", "log"):
            return True
        if isinstance(f, ast.Name) and f.id in ("print",):
            return True
        return False

    def e_Call(self, e, st):
        self.calls += 1
        if self.is_logging(e, st):
            return NONE
        f = e.func
        if isinstance(f, ast.Name) and f.id == "super" and f.id not in st.env:
            fr = self.frames[-1]
            cls = fr.func.cls if fr.func else None
            first = fr.func.node.args.args[0].arg if fr.func and fr.func.node.args.args else "self"
            if cls is None:
                return mk("unknown", "super")
            return mk("super", cls.qual, (st.env.get(first, NONE),))
        if isinstance(f, ast.Attribute):
            f._is_callee = True
        fv = self.eval(f, st)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.seq_of(st, self.eval(a.value, st))
                if v.op == "ite":
                    v = self.deref(st, v)
                if v.op in ("list", "tuple"):
                    args.extend(v.args)
                else:
                    args.append(mk("star", None, (self.deref(st, v),)))
            else:
                args.append(self.eval(a, st))
        kws = {}
        for k in e.keywords:
            v = self.eval(k.value, st)
            if k.arg is None:
                h = self.rec(st, v)
                if h is not None and h.kind == "dict" and not (h.extra is not None and not h.data) and all(is_str(x) for x in h.data):
                    for kk, vv in h.data.items():
                        kws[pyconst(kk)] = vv
                elif h is not None and h.kind == "dict" and not h.data and h.extra is None:
                    pass
                else:
                    kws["**"] = v
            else:
                kws[k.arg] = v
        return self.call(fv, args, kws, st, e)

    def call(self, fv, args, kws, st, node):
        if fv.op == "ite":
            c = fv.args[0]
            s1, s2 = st.copy(), st.copy()
            s1.pc, s2.pc = and_(st.pc, c), and_(st.pc, not_(c))
            a = self.call(fv.args[1], args, kws, s1, node)
            b = self.call(fv.args[2], args, kws, s2, node)
            m = self.merge(c, s1, s2)
            st.heap.clear()
            st.heap.update(m.heap)
            return self.mergeval(c, a, b)
        if fv.op == "func":
            f = self.proj.find(fv.val)
            if isinstance(f, Func):
                return self.call_func(f, args, kws, st, node)
        if fv.op == "bound":
            f = self.proj.find(fv.val)
            if isinstance(f, Func):
                if "classmethod" in f.decorators:
                    return self.call_func(f, [fv.args[0]] + args, kws, st, node)
                return self.call_func(f, [fv.args[0]] + args, kws, st, node)
        if fv.op == "class":
            c = self.proj.find(fv.val)
            return self.instantiate(c, args, kws, st, node)
        if fv.op == "ext":
            return self.call_ext(fv.val, args, kws, st, node)
        if fv.op == "mod":
            return self.call_ext(fv.val, args, kws, st, node)
        if fv.op == "bmeth":
            return self.call_method(fv.args[0], fv.val, args, kws, st, node)
        if fv.op == "dtype" and fv.val == "complex" and len(args) == 2:
            return app("cplx", [self.data(st, a) for a in args])
        if fv.op == "dtype":
            return app("cast", [self.data(st, a) for a in args] + [fv])
        h = self.rec(st, fv)
        if h is not None and h.kind == "closure":
            return self.call_func(h.extra, args, kws, st, node, closure=h.data)
        if h is not None and h.kind == "inst":
            m = self.find_method(h.extra, "__call__")
            if m is None and self.ext_base(h.extra):
                m = self.find_method(h.extra, "forward")
            if m is not None:
                return self.call_func(m, [fv] + args, kws, st, node)
        d = self.data(st, fv)
        if d.op in ("func", "class", "ext") and d is not fv:
            return self.call(d, args, kws, st, node)
        return app("call", [d] + [self.data(st, a) for a in args], {k: self.data(st, v) for k, v in kws.items()})

    def call_func(self, f, args, kws, st, node, closure=None):
        short = f.qual.split(".")[-1]
        a = f.node.args
        if short in self.models and f.cls is None and not f.qual.startswith("nidn._spec"):
            b = self.bind_args(f, args, kws, st, node)
            return self.models[short](*[self.data(st, v) for v in b.values()])
        if f.qual in self.cuts or short in self.cuts or (f.cls and (f.cls.name + "." + short) in self.cuts):
            return self.cut_call(f, args, kws, st, node)
        if self.depth > self.maxdepth or self.stack.count(f.qual) >= 2:
            self.note_unknown("recursion " + f.qual, node)
            return self.cut_call(f, args, kws, st, node)
        bound = self.bind_args(f, args, kws, st, node)
        pre = len(self.frames)
        self.pcstack.append(st.pc)
        try:
            fr, val, s2 = self.exec_function(f, bound, st, closure)
        finally:
            self.pcstack.pop()
        for (pc, exc, sx, lc) in fr.raises:
            s3 = State(dict(st.env), dict(sx.heap) if sx is not None else dict(st.heap), TRUE)
            self.frames[-1].raises.append((and_(st.pc, pc), exc, s3, lc))
        if s2 is None:
            # never returns
            return BOT
        st.heap.clear() if st.heap is not s2.heap else None
        if st.heap is not s2.heap:
            st.heap.update(s2.heap)
        return val

    def bind_args(self, f, args, kws, st, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        bound = {}
        args = [self.box(st, x) for x in args]
        kws = {k: self.box(st, v) for k, v in kws.items()}
        for n, v in zip(pos, args):
            bound[n] = v
        if len(args) > len(pos):
            if a.vararg:
                bound[a.vararg.arg] = mk("tuple", None, args[len(pos):])
            else:
                self.issues.append(("too many args", f.qual, self.loc(node)))
        elif a.vararg:
            bound[a.vararg.arg] = mk("tuple", None, ())
        kwo = [x.arg for x in a.kwonlyargs]
        extra = {}
        for k, v in kws.items():
            if k in pos or k in kwo:
                bound[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.issues.append(("unexpected kw " + k, f.qual, self.loc(node)))
        if a.kwarg:
            bound[a.kwarg.arg] = self.alloc(st, H("dict", {const(k): v for k, v in extra.items()}))
        dm = self.default_map(f, st)
        for n in pos + kwo:
            if n not in bound:
                if n in dm:
                    fr = Frame(None, f.mod)
                    self.frames.append(fr)
                    try:
                        bound[n] = self.box(st, self.eval(dm[n], State({}, st.heap, TRUE)))
                    finally:
                        self.frames.pop()
                else:
                    bound[n] = mk("unknown", "missing arg " + n)
                    self.issues.append(("missing arg " + n, f.qual, self.loc(node)))
        return bound

    def cut_call(self, f, args, kws, st, node):
        """opaque in-package call; arguments are normalised by the callee's signature"""
        self.ncut += 1
        b = self.bind_args(f, args, kws, st, node)
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        name = f.qual.split(".")[-1] if not f.cls else f.cls.name + "." + f.qual.split(".")[-1]
        av = [self.cut_arg(st, b[n], f) for n in names if n in b and b[n].op != "mod"]
        if name in W_CUTS:
            av.append(self.chan(st, "W"))
        if name in RNG_CUTS:
            av.append(self.chan(st, "RNG"))
            self.setchan(st, "RNG", app("adv", [const(name), self.chan(st, "RNG")]))
        if name == "fix_random_seeds":
            self.setchan(st, "RNG", app("seeded", [av[0]]))
        t = mk("app", name, tuple(av))
        self.event(st, name, [b[n] for n in names], {}, node, t)
        if f.cls and names and names[0] == "self":
            # opaque method may update its receiver
            pass
        if self.frames[-1].trydepth or any(fr.trydepth for fr in self.frames):
            for exc in ("ValueError", "RuntimeError", "KeyError"):
                c = mk("app", "throws", (const(exc), t))
                self.frames[-1].raises.append((and_(st.pc, c), exc, State(dict(st.env), dict(st.heap), TRUE), self.loc(node)))
        return t

    def instantiate(self, c, args, kws, st, node):
        if c is None:
            return mk("unknown", "class")
        if c.name in self.cuts or c.qual in self.cuts:
            init = self.find_method(c, "__init__")
            if init is not None:
                b = self.bind_args(init, [NONE] + args, kws, st, node)
                names = [x.arg for x in init.node.args.posonlyargs + init.node.args.args + init.node.args.kwonlyargs][1:]
                av = [self.deref(st, b[n]) for n in names if n in b]
            else:
                av = [self.data(st, a) for a in args]
            t = app("new:" + c.name, av)
            self.event(st, "new:" + c.name, av, {}, node, t)
            return t
        # exceptions defined in package
        for b in c.node.bases:
            if isinstance(b, ast.Name) and isinstance(getattr(builtins, b.id, None), type) and issubclass(getattr(builtins, b.id), BaseException):
                return mk("app", "excobj", (const(c.name),))
        r = self.alloc(st, H("inst", {}, c))
        init = self.find_method(c, "__init__")
        self.event(st, "construct:" + c.name, [self.data(st, a) for a in args], {}, node)
        if init is not None:
            self.call_func(init, [r] + args, kws, st, node)
        return r

    # external library calls -------------------------------------------------
    def call_ext(self, q, args, kws, st, node):
        q = canon_q(q)
        parts = q.split(".")
        last = parts[-1]
        mod = ".".join(parts[:-1])
        if parts[0] == "builtins":
            return self.call_builtin(last, args, kws, st, node)
        if last in ("deepcopy", "copy") and parts[0] == "copy":
            return self.copy_value(args[0], st, last, node)
        if q in ("dotmap.DotMap",):
            if not args:
                kws.pop("_dynamic", None)
                return self.alloc(st, H("dotmap", dict(kws), "new:DotMap"))
            h = self.rec(st, args[0])
            if h is not None and h.kind == "dotmap" and not kws:
                return self.alloc(st, H("dotmap", dict(h.data), h.extra))
            return app("DotMap", [self.data(st, a) for a in args], {k: self.data(st, v) for k, v in kws.items()})
        if last == "tqdm" or q.startswith("tqdm"):
            return args[0] if args else NONE
        if q in ("torch.nn.ModuleList", "torch.nn.modules.container.ModuleList"):
            return self.alloc(st, H("list", self.seq_of(st, args[0]) if args else mk("list", None, ())))
        if parts[:-1] in (["torch", "nn", "init"],) and args:
            if last == "uniform_":
                self.init_event(st, args[0], list(args[1:]), kws, node)
            elif last in ("zeros_", "ones_"):
                v = const(0 if last == "zeros_" else 1)
                self.init_event(st, args[0], [v, v], {}, node)
            elif last == "constant_":
                v = args[1] if len(args) > 1 else kws.get("val", NONE)
                self.init_event(st, args[0], [v, v], {}, node)
        if last == "deque":
            x = args[0] if args else mk("list", None, ())
            mx = kws.get("maxlen", args[1] if len(args) > 1 else None)
            if mx is None:
                return self.alloc(st, H("list", self.seq_of(st, x)))
            return self.alloc(st, H("list", self.seq_of(st, x), ("maxlen", self.data(st, mx))))
        if last.startswith("clip_grad_") or last in ("savez", "savez_compressed", "savetxt"):
            return self.ext_app(q, args, {k: self.data(st, v) for k, v in kws.items()}, st, node)
        if last == "partial" and parts[0] == "functools":
            return mk("unknown", "partial")
        nm = ALIAS.get(q) or ALIAS.get(last) or last
        if parts[0] in ("torch", "numpy", "bd", "math", "cmath") and q not in KEEPQ:
            if mod in ("torch.optim", "torch.optim.lr_scheduler", "torch.nn", "numpy.random", "torch.nn.init", "torch.cuda", "torch.random", "torch.utils.data"):
                return self.ext_app(q, args, kws, st, node)
            if mod in ("torch.fft", "numpy.fft", "bd.fft"):
                nm = "fft." + last
            if mod in ("torch.linalg", "numpy.linalg"):
                nm = ALIAS.get("linalg." + last, "linalg." + last)
            return self.lib_op(nm, q, args, kws, st, node)
        return self.ext_app(q, args, kws, st, node)

    def init_event(self, st, target, bounds, kws, node):
        """in-place initialisation of a parameter with values from a range"""
        b = [self.data(st, x) for x in bounds]
        lo = b[0] if b else self.data(st, kws.get("a", kws.get("from", const(0))))
        hi = b[1] if len(b) > 1 else self.data(st, kws.get("b", kws.get("to", const(1))))
        t = self.data(st, target)
        if t.op == "attr" and t.val == "data":
            t = t.args[0]
        self.event(st, "init range", [t, lo, hi], {}, node)

    def ext_app(self, q, args, kws, st, node):
        ad = [self.data(st, a) for a in args]
        kd = {k: self.data(st, v) for k, v in kws.items()}
        if q.split(".")[-1] == "join" and "path" in q:
            q = "pathjoin"
        if q.endswith("read_csv") and "sep" in kd:
            kd["delimiter"] = kd.pop("sep")
        t = app(q, ad, kd)
        if q.split(".")[-1] in ("dump", "dumps"):
            args = [self.whole(st, a) for a in args]
        self.event(st, q, args, kws, node, t)
        if q.split(".")[-1].startswith("clip_grad_"):
            self.setchan(st, "G", app(q, [self.chan(st, "G")] + ad[1:], kd))
        return t

    def copy_value(self, v, st, how, node):
        h = self.rec(st, v)
        if h is None or h.kind in ("tensor", "view"):
            return lift1(lambda d: self.snapshot(d, st, how), self.data(st, v))
        if h.kind == "list":
            return self.alloc(st, H("list", self.deref(st, v) if how == "deepcopy" else h.data, h.extra))
        if h.kind == "dict":
            return self.alloc(st, H("dict", {k: (self.deref(st, x) if how == "deepcopy" else x) for k, x in h.data.items()}, h.extra))
        if h.kind == "dotmap":
            return self.alloc(st, H("dotmap", dict(h.data), h.extra))
        if h.kind == "inst":
            return self.alloc(st, H("inst", {k: (self.box(st, self.deref(st, x)) if how == "deepcopy" else x) for k, x in h.data.items()}, h.extra))
        return v

    def snapshot(self, d, st, how):
        if d.op == "app" and d.val == ".state_dict":
            return app("snapshot", list(d.args) + [self.chan(st, "W")]) if how == "deepcopy" else d
        if d.op == "app" and d.val.startswith("."):
            return app(how, [d])
        return d

    def opaque_effect(self, st, name, d, args):
        """effect of a method of a torch object on the library-state places"""
        ops = {x.val for x in subterms(d) if x.op == "app"}
        if name == "zero_grad":
            self.setchan(st, "G", const(0))
        elif name == "backward":
            self.setchan(st, "G", add([self.chan(st, "G"), app("grad", [d, self.chan(st, "W")])]))
        elif name == "step":
            if any(str(o).startswith("torch.optim.lr_scheduler") for o in ops):
                self.setchan(st, "O", app("scheduled", [self.chan(st, "O"), d] + args))
            else:
                w, g, o = (self.chan(st, k) for k in "WGO")
                self.setchan(st, "W", app("stepped", [w, g, o, d]))
                self.setchan(st, "O", app("steppedO", [o, g]))
        elif name == "load_state_dict":
            a = args[0] if args else NONE
            self.setchan(st, "W", lift1(lambda x: self.chan(st, "W") if x.op == "app" and x.val == ".state_dict" else app("loaded", [d, x]), a))

    def norm_args(self, nm, args, kws):
        """move keywords into their positional slots, drop defaults"""
        kws = dict(kws)
        for a, b in (("axis", "dim"), ("keepdims", "keepdim")):
            if a in kws:
                kws[b] = kws.pop(a)
        for k in ("device", "out", "requires_grad"):
            if k in kws and nm not in ("fft",):
                kws.pop(k)
        sig = SIG.get(nm)
        if sig is None:
            return args, kws
        names = [s[0] for s in sig]
        dflt = [s[1] for s in sig]
        if len(args) > len(names):
            return args, kws
        slots = list(args) + [None] * (len(names) - len(args))
        for i, n in enumerate(names):
            if n in kws and slots[i] is None:
                slots[i] = kws.pop(n)
        for al, n in SIGALIAS.items():
            if al in kws and n in names and slots[names.index(n)] is None:
                slots[names.index(n)] = kws.pop(al)
        # trim trailing defaults
        for i in range(len(slots)):
            if slots[i] is not None and dflt[i] is not _REQ and slots[i] is const(dflt[i]):
                slots[i] = None
        while slots and slots[-1] is None:
            slots.pop()
        out = []
        for i, s in enumerate(slots):
            if s is None:
                s = NONE if dflt[i] is _REQ else const(dflt[i])
            out.append(s)
        return out, kws

    def lib_op(self, nm, q, args, kws, st, node):
        ad = [self.data(st, a) for a in args]
        kd = {k: self.data(st, v) for k, v in kws.items()}
        if nm in SHAPE_FIRST:
            # zeros(a,b,c) == zeros((a,b,c)) == zeros([a,b,c])
            if not (len(ad) == 1 and ad[0].op in ("tuple", "list")) and nm in ("zeros", "ones", "rand", "randn", "empty"):
                if len(ad) > 1 and not any(a.op == "dtype" for a in ad):
                    ad = [mk("tuple", None, ad)]
                elif len(ad) == 1 and ad[0].op not in ("app", "attr"):
                    ad = [mk("tuple", None, ad)]
            if ad and ad[0].op == "list":
                ad = [mk("tuple", None, ad[0].args)] + ad[1:]
        ad, kd = self.norm_args(nm, ad, kd)
        if nm in ("tensor", "as_tensor", "array", "asarray", "from_numpy", "FloatTensor"):
            x = ad[0] if ad else NONE
            if self.grad and nm in ("tensor", "array", "asarray"):
                return app("gradkill", [const(nm), x])
            dt = kd.get("dtype")
            if dt is not None:
                return app("cast", [x, dt])
            if x.op in ("list", "map", "cat", "tuple"):
                return self.alloc(st, H("tensor", x))
            if nm in ("tensor", "array") and x.op not in ("const", "str", "none", "ref"):
                return self.alloc(st, H("tensor", x, "array"))
            return x
        v = self.pure_op(nm, ad, kd, node)
        if nm in RANDOM_OPS:
            self.event(st, nm, args, kws, node, v)
        if self.grad and q.split(".")[0] in ("numpy", "math"):
            v = app("gradkill", [const(q), v])
        return v

    def pure_op(self, nm, ad, kd, node):
        """canonicalise arithmetic library calls"""
        if not kd or nm in ("add", "sub"):
            f = ARITH.get(nm)
            if f is not None and len(ad) == f[0] and not kd:
                return lift(f[1], ad)
            if nm in ("add", "sub") and "alpha" in kd and len(ad) == 2:
                al = kd["alpha"]
                return lift(lambda a, b, c: add([a, mul([b, c])]) if nm == "add" else sub(a, mul([b, c])), ad + [al])
        if nm in ("max", "min") and len(ad) >= 2 and (as_int(ad[1]) is not None or len(ad) > 2 or "dim" in kd):
            return app(nm + "_dim", ad, kd)
        if nm == "max" and len(ad) == 2 and not kd and not as_int(ad[1]) is not None:
            return app("maximum", ad)
        if nm == "min" and len(ad) == 2 and not kd and not as_int(ad[1]) is not None:
            return app("minimum", ad)
        if nm in ("gt", "lt", "ge", "le", "eq", "ne", "greater", "less") and len(ad) == 2:
            m = {"gt": "Gt", "greater": "Gt", "lt": "Lt", "less": "Lt", "ge": "GtE", "le": "LtE", "eq": "Eq"}
            a, b = ad
            if nm in ("gt", "greater"):
                return lift(lambda x, y: lt0(sub(y, x)), ad)
            if nm in ("lt", "less"):
                return lift(lambda x, y: lt0(sub(x, y)), ad)
            if nm == "ge":
                return lift(lambda x, y: le0(sub(y, x)), ad)
            if nm == "le":
                return lift(lambda x, y: le0(sub(x, y)), ad)
            if nm == "eq":
                return lift(eq, ad)
            return app("not", [lift(eq, ad)])
        if nm == "complex" and len(ad) == 2:
            return app("cplx", ad)
        if nm in ("reshape",) and len(ad) > 2:
            ad = [ad[0], mk("tuple", None, ad[1:])]
        elif nm == "reshape" and len(ad) == 2 and ad[1].op == "list":
            ad = [ad[0], mk("tuple", None, ad[1].args)]
        elif nm == "reshape" and len(ad) == 2 and ad[1].op != "tuple":
            ad = [ad[0], mk("tuple", None, ad[1:])]
        if nm in ("repeat", "permute", "expand", "tile") and len(ad) > 2:
            ad = [ad[0], mk("tuple", None, ad[1:])]
        if nm == "meshgrid" and len(ad) == 1 and ad[0].op in ("tuple", "list"):
            ad = list(ad[0].args)
        if nm in ("stack", "torchcat", "hstack", "vstack") and ad and ad[0].op == "tuple":
            ad = [mk("list", None, ad[0].args)] + ad[1:]
        if nm == "size" and len(ad) == 2:
            return mk_idx(app("shape", [ad[0]]), ad[1])
        if nm == "size" and len(ad) == 1:
            return app("shape", [ad[0]])
        if nm == "dim" or nm == "ndimension":
            return getattr_norm(ad[0], "ndim")
        if nm in IDENT and nm not in self.keep:
            if self.grad and nm in GRADKILL:
                return app("gradkill", [const(nm), ad[0]])
            return ad[0] if ad else NONE
        return app(nm, ad, kd)

    # methods on values ------------------------------------------------------
    def plain(self, e):
        return not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in ast.walk(e))

    def call_method(self, b, name, args, kws, st, node):
        if b.op == "super":
            self.event(st, "super." + name, args, kws, node)
            return NONE
        if b.op == "ite" and self.has_ref(b):
            c = b.args[0]
            s1, s2 = st.copy(), st.copy()
            x = self.call(self.getattr_callee(b.args[1], name, s1, node), args, kws, s1, node)
            y = self.call(self.getattr_callee(b.args[2], name, s2, node), args, kws, s2, node)
            m = self.merge(c, s1, s2)
            st.heap.clear()
            st.heap.update(m.heap)
            return self.mergeval(c, x, y)
        h = self.rec(st, b)
        if h is not None and h.kind == "tensor" and name in ("append", "extend", "insert", "remove", "clear", "reverse") and len(args) == LIST_ARGS[name] and not kws and h.data.op in ("sym", "idx", "attr", "app"):
            # no array has these methods: the object is a list of unknown content
            h = st.heap[b] = H("list", h.data)
        if h is None and name in ("append", "extend", "insert") and len(args) == LIST_ARGS[name] and b.op in ("idx", "map", "cat", "list", "store", "loop") \
                and isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Subscript) and self.plain(node.func.value):
            # an element of a container of unknown content: read, extend and put back
            r = self.alloc(st, H("list", b))
            self.list_method(r, st.heap[r], name, args, kws, st, node)
            sub_ = node.func.value
            self.store_into(st, self.eval(sub_.value, st), self.eval_index(sub_.slice, st), self.deref(st, r), node)
            return NONE
        if h is not None and h.kind == "list":
            r = self.list_method(b, h, name, args, kws, st, node)
            if r is not None:
                return r
        if h is not None and h.kind == "dict":
            r = self.dict_method(b, h, name, args, kws, st, node)
            if r is not None:
                return r
        if h is not None and h.kind == "dotmap":
            r = self.dotmap_method(b, h, name, args, kws, st, node)
            if r is not None:
                return r
        if h is not None and h.kind in ("tensor", "view") and name in IDENT | {"item"} and not args:
            pass
        d = self.data(st, b)
        if d.op == "ite" and not self.has_ref(d) and name not in METHODS:
            pass
        if is_str(d) or (d.op == "app" and d.val in ("strcat", "str", "strfmt")):
            return self.str_method(d, name, [self.data(st, a) for a in args], {k: self.data(st, v) for k, v in kws.items()}, st, node)
        if name.endswith("_") and not name.startswith("__") and name[:-1] in METHODS and h is not None:
            nm = ALIAS.get(name[:-1], name[:-1])
            ad, kd = self.norm_args(nm, [d] + [self.data(st, a) for a in args], {k: self.data(st, v) for k, v in kws.items()})
            if nm in ("copy", "set"):
                v = ad[1]
            elif nm == "fill":
                v = app("fill", ad)
            else:
                v = self.pure_op(nm, ad, kd, node)
            self.write_through(st, b, v, node)
            return b
        if name in METHODS and not (name == "scatter" and (set(kws) & {"c", "s", "marker", "cmap"} or len(args) < 3)):
            nm = ALIAS.get(name, name)
            ad, kd = self.norm_args(nm, [d] + [self.data(st, a) for a in args], {k: self.data(st, v) for k, v in kws.items()})
            if self.grad and nm == "requires_grad_" and len(ad) == 2 and ad[1] is FALSE:
                return app("gradkill", [const(nm), d])
            if nm in IDENT and nm not in self.keep:
                if nm in ("contiguous", "cpu", "cuda", "data", "requires_grad_") and h is not None:
                    return b
                if self.grad and nm in GRADKILL:
                    return app("gradkill", [const(nm), d])
                return d
            v = self.pure_op(nm, ad, kd, node)
            if nm in RANDOM_OPS:
                self.event(st, nm, [b] + args, kws, node, v)
            return v
        if name == "forward":
            return app("call", [d] + [self.data(st, a) for a in args], {k: self.data(st, v) for k, v in kws.items()})
        # unknown method: opaque, observable
        if name == "index" and len(args) == 1 and not kws:
            self.may_miss(st, self.data(st, args[0]), d, node)
        t = app("." + name, [d] + [self.data(st, a) for a in args], {k: self.data(st, v) for k, v in kws.items()})
        self.event(st, "." + name, [b] + args, kws, node, t)
        if name == "backward":
            self.event(st, "backward", [d], {}, node)
        if name in ("uniform_", "fill_", "zero_"):
            self.init_event(st, d, [const(0), const(0)] if name == "zero_" else [args[0], args[0]] if name == "fill_" else list(args), kws if name == "uniform_" else {}, node)
        if name in ("zero_grad", "backward", "step", "load_state_dict"):
            self.opaque_effect(st, name, d, [self.data(st, a) for a in args])
        elif (name.endswith("_") and not name.startswith("_") or name in ("apply", "add_param_group")) and ".parameters" in {x.val for x in subterms(d) if x.op == "app"} | {".parameters" for x in subterms(d) if x.op == "attr" and x.val == "model"}:
            # in-place change of parameters or of their gradients
            k = "G" if any(x.op == "attr" and x.val == "grad" for x in subterms(d)) else "W"
            self.setchan(st, k, app("." + name, [self.chan(st, k), d] + [self.data(st, a) for a in args]))
        return t

    def may_miss(self, st, x, seq, node, exc="ValueError", found=None):
        """inside a try: looking up an absent element raises"""
        if not any(fr.trydepth for fr in self.frames):
            return
        if found is None:
            found = FALSE
            if seq.op in ("list", "tuple"):
                for a in seq.args:
                    found = or_(found, gate(lift(eq, [x, a])))
            else:
                found = vg.mk_in(x, seq)
        c = not_(found)
        if c is not FALSE:
            self.frames[-1].raises.append((and_(st.pc, c), exc, State(dict(st.env), dict(st.heap), TRUE), self.loc(node)))

    def getattr_callee(self, b, name, st, node):
        f = getattr(node, "func", None)
        if f is not None:
            f._is_callee = True
        return self.getattr_(b, name, st, f if f is not None else node)

    def list_method(self, b, h, name, args, kws, st, node):
        if name == "append" and len(args) == 1:
            x = self.box(st, args[0])
            st.heap[b] = H("list", mk_cat([h.data, mk("list", None, (x,))]), h.extra)
            return NONE
        if name == "extend" and len(args) == 1:
            st.heap[b] = H("list", mk_cat([h.data, self.seq_of(st, args[0])]), h.extra)
            return NONE
        if name == "insert" and len(args) == 2:
            i = as_int(self.data(st, args[0]))
            x = self.box(st, args[1])
            if i == 0:
                st.heap[b] = H("list", mk_cat([mk("list", None, (x,)), h.data]), h.extra)
            elif i is not None and h.data.op == "list" and 0 <= i <= len(h.data.args):
                a = list(h.data.args)
                a.insert(i, x)
                st.heap[b] = H("list", mk("list", None, a), h.extra)
            else:
                st.heap[b] = H("list", app("listinsert", [self.deref(st, h.data), self.data(st, args[0]), self.data(st, x)]), h.extra)
            return NONE
        if name == "pop":
            i = as_int(self.data(st, args[0])) if args else -1
            if h.data.op == "list" and h.data.args and i is not None and -len(h.data.args) <= i < len(h.data.args):
                a = list(h.data.args)
                v = a.pop(i)
                st.heap[b] = H("list", mk("list", None, a), h.extra)
                return v
            d = self.deref(st, b)
            ix = self.data(st, args[0]) if args else const(-1)
            st.heap[b] = H("list", app("listpop", [d, ix]), h.extra)
            return mk_idx(d, ix)
        if name == "copy":
            return self.alloc(st, H("list", h.data, h.extra))
        if name == "clear":
            st.heap[b] = H("list", mk("list", None, ()), h.extra)
            return NONE
        if name == "reverse":
            st.heap[b] = H("list", app("reversed", [h.data]), h.extra)
            return NONE
        if name == "sort":
            st.heap[b] = H("list", app("sorted", [self.deref(st, b)], {k: self.data(st, v) for k, v in kws.items()}), h.extra)
            return NONE
        if name == "index":
            if len(args) == 1:
                self.may_miss(st, self.data(st, args[0]), self.deref(st, b), node)
            return app("listindex", [self.deref(st, b)] + [self.data(st, a) for a in args])
        if name == "count":
            return app("listcount", [self.deref(st, b)] + [self.data(st, a) for a in args])
        if name == "remove":
            st.heap[b] = H("list", app("listremove", [self.deref(st, b)] + [self.data(st, a) for a in args]), h.extra)
            return NONE
        return None

    def dict_method(self, b, h, name, args, kws, st, node):
        if name == "keys" and h.extra is None:
            return mk("list", None, list(h.data.keys()))
        if name == "values" and h.extra is None:
            return mk("list", None, list(h.data.values()))
        if name == "items" and h.extra is None:
            return mk("list", None, [mk("tuple", None, (k, v)) for k, v in h.data.items()])
        if name == "get":
            k = self.data(st, args[0])
            dflt = args[1] if len(args) > 1 else NONE
            if k in h.data:
                return h.data[k]
            if h.extra is None and has_const(k) and all(has_const(x) for x in h.data):
                return dflt
            if h.extra is None and h.data and all(has_const(x) for x in h.data):
                r = dflt
                for kk, v in h.data.items():
                    r = self.mergeval(eq(k, kk), v, r)
                return r
            return app("get", [self.deref(st, b), k, self.data(st, dflt)])
        if name == "update" and args:
            h2 = self.rec(st, args[0])
            if h2 is not None and h2.kind == "dict":
                d = dict(h.data)
                d.update(h2.data)
                st.heap[b] = H("dict", d, h.extra or h2.extra)
                return NONE
        if name == "copy":
            return self.alloc(st, H("dict", dict(h.data), h.extra))
        if name == "setdefault":
            k = self.data(st, args[0])
            if k in h.data:
                return h.data[k]
            d = dict(h.data)
            d[k] = self.box(st, args[1] if len(args) > 1 else NONE)
            st.heap[b] = H("dict", d, h.extra)
            return d[k]
        return None

    def dotmap_method(self, b, h, name, args, kws, st, node):
        if name == "keys":
            return mk("app", "keys", (sym(h.extra),))
        if name == "items":
            return mk("app", "items", (sym(h.extra),))
        if name == "copy":
            return self.alloc(st, H("dotmap", dict(h.data), h.extra))
        if name == "get":
            k = self.data(st, args[0])
            dflt = args[1] if len(args) > 1 else NONE
            if is_str(k):
                if pyconst(k) in h.data:
                    return h.data[pyconst(k)]
                return self.mergeval(mk("has", None, (sym(h.extra), k)), self.dot_default(h, pyconst(k)), dflt)
        if name == "toDict":
            return self.alloc(st, H("dotmap", dict(h.data, **{"%plain": TRUE}), h.extra))
        if name == "clear":
            st.heap[b] = H("dotmap", dict(h.data, **{"%cleared": TRUE}), h.extra)
            return NONE
        if name == "update" and args:
            h2 = self.rec(st, args[0])
            if h2 is not None and h2.kind == "dict":
                for k, v in h2.data.items():
                    if is_str(k):
                        self.setattr_(st, b, pyconst(k), v, node)
                return NONE
        if name in ("pop",):
            k = self.data(st, args[0])
            self.event(st, "cfgpop", [const(h.extra), k], {}, node)
            k = str(pyconst(k))
            v = h.data.get(k, self.dot_default(h, k))
            st.heap[b] = H("dotmap", dict(h.data, **{k: app("absent", [const(k)])}), h.extra)
            return v
        return None

    def str_method(self, d, name, args, kws, st, node):
        if name == "format" and is_str(d):
            s = pyconst(d)
            if "{" in s and not kws:
                import string
                try:
                    parts = []
                    k = 0
                    for lit, fld, spec, conv in string.Formatter().parse(s):
                        if lit:
                            parts.append(const(lit))
                        if fld is not None:
                            i = int(fld) if fld else k
                            k += 1
                            x = args[i]
                            if spec:
                                x = app("fmt", [x, const(repr(spec))])
                            parts.append(x)
                    return app("strcat", parts)
                except Exception:
                    pass
        if name == "join" and args:
            x = args[0]
            if x.op in ("list", "tuple"):
                out = []
                for i, a in enumerate(x.args):
                    if i:
                        out.append(d)
                    out.append(a)
                return app("strcat", out) if out else const("")
        if is_str(d) and all(has_const(a) for a in args) and name in ("lower", "upper", "strip", "startswith", "endswith", "replace", "title", "capitalize"):
            try:
                return const(getattr(pyconst(d), name)(*[pyconst(a) for a in args]))
            except Exception:
                pass
        return app("." + name, [d] + args, kws)

    # builtins ------------------------------------------------------------------
    def call_builtin(self, name, args, kws, st, node):
        D = lambda i: self.data(st, args[i])
        if name == "len" and args:
            h = self.rec(st, args[0])
            if h is not None and h.kind == "inst":
                m = self.find_method(h.extra, "__len__")
                if m is not None:
                    return self.call_func(m, [args[0]], {}, st, node)
            if h is not None and h.kind == "list":
                return mk_len(self.deref(st, h.data))
            return mk_len(D(0))
        if name == "range":
            return app("range", [self.data(st, a) for a in args])
        if name == "enumerate":
            start = self.data(st, kws["start"]) if "start" in kws else (D(1) if len(args) > 1 else const(0))
            k = self.iter_elems(args[0], st)
            if k[0] == "concrete":
                return mk("list", None, [mk("tuple", None, (add([start, const(i)]), el)) for i, el in enumerate(k[1])])
            f = fresh("i")
            return mk_map(k[1], f, mk("tuple", None, (add([start, f]), k[2](f))))
        if name == "zip":
            ks = [self.iter_elems(a, st) for a in args]
            if all(k[0] == "concrete" for k in ks):
                return mk("list", None, [mk("tuple", None, t) for t in zip(*[k[1] for k in ks])])
            f = fresh("i")
            ns, els = set(), []
            for a, k in zip(args, ks):
                if k[0] == "concrete":
                    ns.add(const(len(k[1])))
                    els.append(mk_idx(mk("list", None, k[1]), f))
                else:
                    ns.add(k[1])
                    els.append(k[2](f))
            n = ns.pop() if len(ns) == 1 else app("minlen", sorted(ns, key=lambda t: t.id))
            return mk_map(n, f, mk("tuple", None, els))
        if name in ("list", "tuple"):
            if not args:
                r = mk("list" if name == "list" else "tuple", None, ())
                return self.alloc(st, H("list", r)) if name == "list" else r
            h = self.rec(st, args[0])
            k = self.iter_elems(args[0], st)
            if k[0] == "concrete":
                r = mk(name, None, [x for x in k[1]])
                return self.alloc(st, H("list", r)) if name == "list" else r
            t = app("listof", [self.seq_of(st, args[0])]) if not self.has_ref(self.seq_of(st, args[0])) else self.seq_of(st, args[0])
            return self.alloc(st, H("list", t)) if name == "list" else t
        if name == "dict":
            d = {}
            if args:
                h = self.rec(st, args[0])
                if h is not None and h.kind == "dict":
                    d.update(h.data)
                elif h is not None and h.kind == "dotmap":
                    return self.alloc(st, H("dotmap", dict(h.data), h.extra))
                else:
                    k = self.iter_elems(args[0], st)
                    if k[0] == "concrete" and all(x.op == "tuple" for x in k[1]):
                        for x in k[1]:
                            d[self.data(st, x.args[0])] = x.args[1]
                    else:
                        return self.alloc(st, H("dict", {}, app("dictof", [D(0)])))
            for k, v in kws.items():
                d[const(k)] = self.box(st, v)
            return self.alloc(st, H("dict", d))
        if name in ("set", "frozenset"):
            if not args:
                return mk("set", None, ())
            t = D(0)
            if t.op in ("list", "tuple", "set"):
                return mk("set", None, sorted(set(t.args), key=lambda x: x.id))
            return app("setof", [t])
        if name == "sum":
            t = D(0)
            r = app("sum", [t])
            if len(args) > 1:
                r = add([r, D(1)])
            return r
        if name in ("max", "min"):
            kd = {k: self.data(st, v) for k, v in kws.items()}
            return app(name, [self.data(st, a) for a in args], kd)
        if name in ("any", "all"):
            return app(name, [D(0)])
        if name == "abs":
            return app("abs", [D(0)])
        if name == "pow":
            return lift(power, [D(0), D(1)])
        if name == "int":
            return app("int", [D(0)])
        if name == "float":
            t = D(0)
            if is_str(t):
                try:
                    return const(float(pyconst(t)))
                except ValueError:
                    pass
            if t is TRUE or t is FALSE:
                return const(1 if t is TRUE else 0)
            if self.grad:
                return app("gradkill", [const("float"), t])
            return app("float", [t]) if "float" in self.keep else t
        if name == "bool":
            return gate(D(0))
        if name == "str":
            return app("str", [D(0)]) if args else const("")
        if name == "isinstance" or name == "issubclass":
            return self.isinstance_(args[0], args[1], st)
        if name == "type" and len(args) == 1:
            h = self.rec(st, args[0])
            if h is not None and h.kind == "dotmap":
                return mk("ext", "dotmap.DotMap")
            h = self.rec(st, args[0])
            if h is not None and h.kind == "inst":
                return mk("class", h.extra.qual)
            return app("type", [D(0)])
        if name == "getattr":
            nm = D(1)
            if nm.op == "ite":
                return self.mergeval(nm.args[0], *[self.call_builtin("getattr", [args[0], x] + args[2:], {}, st, node) for x in nm.args[1:]])
            if is_str(nm):
                f = ast.Attribute()
                r = self.getattr_(args[0], pyconst(nm), st, node if False else _DUMMY)
                return r
            h = self.rec(st, args[0])
            if h is not None and h.kind == "dotmap":
                return self.getitem(args[0], args[1], st, node)
            return app("getattr", [self.data(st, a) for a in args])
        if name == "setattr":
            nm = D(1)
            if is_str(nm):
                self.setattr_(st, args[0], pyconst(nm), args[2], node)
                return NONE
            if nm.op == "ite" and all(is_str(r) for _, r in _guarded_leaves(nm)):
                for c, r in _guarded_leaves(nm):
                    s1 = st.copy()
                    self.setattr_(s1, args[0], pyconst(r), args[2], node)
                    m = self.merge(c, s1, st)
                    st.heap.clear()
                    st.heap.update(m.heap)
                return NONE
            self.event(st, "setattr", args, kws, node)
            return NONE
        if name == "hasattr":
            h = self.rec(st, args[0])
            nm = D(1)
            if nm.op == "ite":
                return gate(self.mergeval(nm.args[0], *[self.call_builtin("hasattr", [args[0], x], {}, st, node) for x in nm.args[1:]]))
            if h is not None and h.kind == "inst" and is_str(nm):
                if pyconst(nm) in h.data or self.find_method(h.extra, pyconst(nm)) or self.find_classattr(h.extra, pyconst(nm)):
                    return TRUE
                if args[0] in self.instname:
                    return app("hasattr", [sym(self.instname[args[0]]), nm])
            if h is not None and h.kind == "dotmap":
                return self.contains(args[1], args[0], st)
            return app("hasattr", [self.data(st, a) for a in args])
        if name == "sorted":
            t = D(0)
            if t.op in ("list", "tuple") and all(is_num(x) for x in t.args) and not kws:
                return self.alloc(st, H("list", mk("list", None, sorted(t.args, key=lambda x: num(x)))))
            return self.alloc(st, H("list", app("sorted", [t], {k: self.data(st, v) for k, v in kws.items()})))
        if name == "reversed":
            return app("reversed", [self.seq_of(st, args[0])])
        if name == "map" and len(args) >= 2:
            k = self.iter_elems(args[1], st) if len(args) == 2 else self.iter_elems(self.call_builtin("zip", args[1:], {}, st, node), st)
            call = lambda el: self.box(st, self.call(args[0], [el] if len(args) == 2 else list(el.args), {}, st, node))
            if k[0] == "concrete":
                return mk("list", None, [call(el) for el in k[1]])
            f = fresh("i")
            self.loopctx.append((f, k[1]))
            v = self.deref(st, call(k[2](f)))
            self.loopctx.pop()
            return mk_map(k[1], f, v)
        if name == "filter" and len(args) == 2:
            k = self.iter_elems(args[1], st)
            test = lambda el: gate(self.data(st, self.call(args[0], [el], {}, st, node))) if args[0] is not NONE else gate(self.data(st, el))
            if k[0] == "concrete":
                return mk_cat([ite(test(el), mk("list", None, (el,)), mk("list", None, ())) for el in k[1]])
            f = fresh("i")
            el = k[2](f)
            return app("flat", [mk_map(k[1], f, ite(test(el), mk("list", None, (self.deref(st, el),)), mk("list", None, ())))])
        if name == "round":
            return app("round", [self.data(st, a) for a in args])
        if name == "slice":
            a = [self.data(st, x) for x in args]
            if len(a) == 1:
                return mk_slice(NONE, a[0])
            return mk_slice(*a)
        if name == "iter":
            return args[0]
        if name == "next":
            t = self.seq_of(st, args[0])
            if len(args) == 1:
                return mk_idx(self.deref(st, t), const(0))
            t = self.deref(st, t)
            return app("nextor", [t, D(1)])
        if name == "callable":
            v = args[0]
            if v.op in ("func", "class", "bound", "closure"):
                return TRUE
            return app("callable", [D(0)])
        if name == "complex":
            if len(args) == 2:
                return add([D(0), mul([D(1), IMAG])])
            return D(0)
        if name == "divmod":
            return mk("tuple", None, (app("floordiv", [D(0), D(1)]), app("mod", [D(0), D(1)])))
        if name == "id" or name == "hash":
            return app(name, [D(0)])
        if name == "open":
            if len(args) == 1 and "mode" in kws:
                args, kws = [args[0], kws["mode"]], {k: v for k, v in kws.items() if k != "mode"}
            if not args and "file" in kws and "mode" in kws:
                args, kws = [kws["file"], kws["mode"]], {k: v for k, v in kws.items() if k not in ("file", "mode")}
            return self.ext_app("open", args, kws, st, node)
        if isinstance(getattr(builtins, name, None), type) and issubclass(getattr(builtins, name), BaseException):
            return mk("app", "excobj", (const(name),))
        return self.ext_app("builtins." + name, args, kws, st, node)

    def isinstance_(self, v, c, st):
        h = self.rec(st, v)
        cd = c
        if h is not None and h.kind == "inst" and c.op == "class":
            cls = self.proj.find(c.val)
            return TRUE if cls in self.mro(h.extra) else FALSE
        cs = c.args if c.op == "tuple" else (c,)
        d = self.data(st, v)
        if d.op in ("list",) or (h is not None and h.kind == "list"):
            return TRUE if any(x.op == "ext" and x.val == "builtins.list" for x in cs) else FALSE
        if d.op == "tuple":
            return TRUE if any(x.op == "ext" and x.val == "builtins.tuple" for x in cs) else FALSE
        if d.op == "slice":
            return TRUE if any(x.op == "ext" and x.val == "builtins.slice" for x in cs) else FALSE
        if is_str(d):
            return TRUE if any(x.op == "ext" and x.val == "builtins.str" for x in cs) else FALSE
        if d is NONE:
            return FALSE
        r = FALSE
        for x in cs:
            if x.op == "app" and x.val == "type" and x.args[0] is NONE:
                r = or_(r, self.is_(d, NONE))
            else:
                r = or_(r, mk("app", "isinstance", (d, x)))
        return r


class Result:
    def __init__(self, it, func, params, value, st, frame):
        self.it, self.func, self.params, self.st, self.frame = it, func, params, st, frame
        self.raw = value
        self.value = it.deref(st, value) if st is not None else BOT
        self.raises = [(pc, exc, loc) for (pc, exc, sx, loc) in frame.raises]

    def domain(self):
        d = TRUE
        for pc, exc, loc in self.raises:
            d = and_(d, not_(pc))
        return d

    def final(self, ref):
        return self.it.deref(self.st, ref)

    def field(self, ref, name):
        h = self.st.heap.get(ref)
        if h is None:
            return None
        v = h.data.get(name)
        return None if v is None else self.it.deref(self.st, v)

    def events(self, *names):
        return [e for e in self.it.events if e.name in names]


# ------------------------------------------------------------------ helpers
class _D:
    _is_callee = False
    lineno = 0


_DUMMY = _D()


def boolish(t):
    if t.op in ("eq", "lt0", "le0", "eq0", "ne0", "ne", "in", "has", "is", "truthy"):
        return True
    if t is TRUE or t is FALSE:
        return True
    if t.op == "ite":
        return boolish(t.args[1]) and boolish(t.args[2])
    if t.op == "app" and t.val in vg.BOOL_APPS:
        return True
    return False


def fresh_unknown(val):
    return mk("app", "lastiter", (val,))


def assume_any(F, phi, init=None):
    """F == (phi or c): returns c"""
    g = mk("truthy", None, (phi,))
    if init in (TRUE, FALSE) and assume(F, g, True) is phi:
        # a flag that only ever holds truth values
        c = assume(F, g, False)
        if all(x in (TRUE, FALSE, phi) or x.op in ("lt0", "le0", "eq0", "eq", "truthy") for x in ite_leaves(c)):
            return gate(subst(c, {phi: FALSE}))
    for a in (phi, g):
        if assume(F, a, True) is TRUE:
            c = assume(F, a, False)
            return gate(c)
    return None


def flag_pattern(F, phi):
    """F == ite(c, K, phi) -> (c, K)"""
    if F.op != "ite":
        return None
    vals = set()
    cond = _leafcond(F, phi, vals)
    if cond is None or len(vals) != 1:
        return None
    return cond, vals.pop()


def _leafcond(F, phi, vals):
    if F is phi:
        return FALSE
    if F.op == "ite":
        if phi in free_syms(F.args[0]):
            return None
        a = _leafcond(F.args[1], phi, vals)
        b = _leafcond(F.args[2], phi, vals)
        if a is None or b is None:
            return None
        return ite(F.args[0], a, b)
    if phi in free_syms(F):
        return None
    vals.add(F)
    return TRUE


def _guarded_leaves(t, c=TRUE):
    if t.op == "ite":
        yield from _guarded_leaves(t.args[1], and_(c, t.args[0]))
        yield from _guarded_leaves(t.args[2], and_(c, not_(t.args[0])))
    else:
        yield c, t


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


def _basic_ok(p):
    from .norm import _basic
    return _basic(p)


def lift_idx(d, ix):
    return mk_idx(d, ix)


def lift1(f, d):
    if d.op == "ite":
        return ite(d.args[0], lift1(f, d.args[1]), lift1(f, d.args[2]))
    return f(d)


def canon_q(q):
    p = q.split(".")
    if p[0] == "np":
        p[0] = "numpy"
    if p[:3] == ["torch", "nn", "functional"]:
        p = ["torch"] + p[3:]
    if p[0] == "nidn" and "backend" in p and p[-1] not in ("backend",):
        i = p.index("backend")
        p = ["bd"] + p[i + 1:]
    return ".".join(p)


def own_breaks(body):
    todo = list(body)
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.Break, ast.Return)):
            return True
        if isinstance(x, (ast.For, ast.While)):
            todo += x.orelse
            if any(isinstance(y, ast.Return) for y in ast.walk(x)):
                return True
            continue
        if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(x))
    return False


TENSOR_SYMS = {"eps_grid", "permittivity", "eps", "signal", "E", "H", "self.E", "self.H", "out", "x", "material_predictions"}
ARRAY_FIELDS = {"E", "H", "phi_E", "phi_H"} | {"psi_" + f + a for f in "EH" for a in "xyz"}
RANDOM_OPS = {"rand", "randn", "rand_like", "randn_like", "normal", "randint", "randperm", "bernoulli", "multinomial", "normal_", "uniform_"}
KEEPQ = {"torch.manual_seed", "numpy.save", "torch.save", "torch.load", "numpy.load", "torch.set_default_tensor_type", "torch.set_default_dtype",
         "torch.set_grad_enabled", "torch.is_grad_enabled", "torch.get_default_dtype", "torch.cuda", "numpy.seterr"}
SIGALIAS = {"a_min": "min", "a_max": "max", "num": "steps", "stop": "end", "repeats": "repeats", "a": "input", "x": "input", "stopval": "end", "self": "input", "obj": "input", "tensor": "input", "other": "other"}

from .libmodel import _REQ  # noqa

ARITH = {
    "add": (2, lambda a, b: add([a, b])),
    "sub": (2, lambda a, b: sub(a, b)),
    "mul": (2, lambda a, b: mul([a, b])),
    "div": (2, lambda a, b: div(a, b)),
    "pow": (2, lambda a, b: power(a, b)),
    "square": (1, lambda a: power(a, const(2))),
    "sqrt": (1, lambda a: power(a, const(Fraction(1, 2)))),
    "rsqrt": (1, lambda a: power(a, const(Fraction(-1, 2)))),
    "neg": (1, lambda a: neg(a)),
    "reciprocal": (1, lambda a: power(a, const(-1))),
    "mod": (2, lambda a, b: app("mod", [a, b])),
    "floordiv": (2, lambda a, b: app("floordiv", [a, b])),
}
