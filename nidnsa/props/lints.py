"""Whole-package rules over the syntax tree: hidden state and nondeterminism, configuration
keys, name resolution and call signatures. Nothing is executed."""
import ast
import builtins
import json
import os
import tomllib
from ..core import *

DATA = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "data")


# ------------------------------------------------------------------------ tools
class Mod:
    """one source file with parent links and the function each node lies in"""

    def __init__(self, c, name, m):
        self.c, self.name, self.m = c, name, m
        self.tree = ast.parse(m.src, m.path)
        self.rel = os.path.relpath(m.path, c.proj.root)
        self.parent, self.fn = {}, {}
        self._walk(self.tree, None)
        self.funcs = [n for n in ast.walk(self.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]

    def _walk(self, node, fn):
        for ch in ast.iter_child_nodes(node):
            self.parent[ch] = node
            self.fn[ch] = fn
            inner = ch if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)) else fn
            self._walk(ch, inner)

    def loc(self, node):
        fn = self.fn.get(node)
        q = self.name
        if fn is not None:
            cls = self.parent.get(fn)
            q += "." + (cls.name + "." if isinstance(cls, ast.ClassDef) else "") + fn.name
        return "%s:%d (%s)" % (self.rel, getattr(node, "lineno", 0), q)

    def ext(self, node):
        """dotted external name of an expression, through the imports of the module, or None"""
        parts = []
        while isinstance(node, ast.Attribute):
            parts.append(node.attr)
            node = node.value
        if not isinstance(node, ast.Name):
            return None
        local = self.imports_of(self.fn.get(node)).get(node.id)
        if local is not None:
            base = local
        else:
            d = self.c.proj.lookup(self.name, node.id)
            if isinstance(d, tuple) and d[0] in ("mod", "ext"):
                base = d[1]
            else:
                return None
        return ".".join([base] + parts[::-1])

    def imports_of(self, fn):
        if fn is None:
            return {}
        out = {}
        for n in ast.walk(fn):
            if isinstance(n, ast.Import):
                for a in n.names:
                    out[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
            elif isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split(".")[0] != "nidn":
                for a in n.names:
                    out[a.asname or a.name] = n.module + "." + a.name
        return out


def modules(c):
    if not hasattr(c, "_lint_mods"):
        c._lint_mods = [Mod(c, n, m) for n, m in sorted(c.proj.modules.items()) if not n.startswith("nidn._spec")]
    return c._lint_mods


def library(c):
    """the modules a user imports (scripts are entry points of their own)"""
    return [m for m in modules(c) if not m.name.startswith("nidn.scripts")]


def locals_of(fn):
    """parameters and names bound in the function itself"""
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out.add(x.arg)
    glob = set()

    def go(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out.add(ch.name)
                continue
            if isinstance(ch, ast.Lambda):
                continue
            if isinstance(ch, (ast.Global, ast.Nonlocal)):
                glob.update(ch.names)
            if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)):
                out.add(ch.id)
            if isinstance(ch, ast.ExceptHandler) and ch.name:
                out.add(ch.name)
            if isinstance(ch, (ast.Import, ast.ImportFrom)):
                for al in ch.names:
                    out.add(al.asname or al.name.split(".")[0])
            go(ch)
    for s in fn.body:
        go(ast.Module([s], []))
    return out - glob


MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "popitem", "add", "discard", "sort", "reverse", "appendleft", "popleft", "fill", "put", "resize"}


def mutable_value(v):
    if isinstance(v, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(v, ast.Call):
        f = v.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        return n in ("list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter", "DotMap", "zeros", "ones", "empty", "tensor", "array", "bytearray", "WeakKeyDictionary", "WeakValueDictionary")
    return False


def root_name(n):
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n = n.value
    return n.id if isinstance(n, ast.Name) else None


def mutations(fn):
    """(node, base expression, key or None, value or None) for in-place changes below a function"""
    for n in ast.walk(fn):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in ast.walk(t):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                        yield n, x.value, x.slice, n.value
                    elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        yield n, x.value, None, n.value
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    yield n, t.value, None, None
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in MUTATORS or (n.func.attr.endswith("_") and not n.func.attr.startswith("_")):
                key = n.args[0] if n.func.attr == "setdefault" and n.args else None
                yield n, n.func.value, key, n.args[-1] if n.args else None


# ------------------------------------------------------------------ hidden state
def paths_read(fn, node, params):
    """parameter paths (p, or p.attr) that an expression depends on, through local assignments"""
    assigns = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        assigns.setdefault(x.id, []).append(n.value)
    out, seen = set(), set()

    def go(n):
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in params and n.value.id not in assigns:
            out.add((n.value.id, n.attr))
            return
        if isinstance(n, ast.Name):
            if n.id in params:
                out.add((n.id, None))
            if n.id in assigns and n.id not in seen:
                seen.add(n.id)
                for v in assigns[n.id]:
                    go(v)
        for ch in ast.iter_child_nodes(n):
            go(ch)
    go(node)
    return out


def good_memo(fn, key, value, whole):
    """does the key of a cache determine everything the cached computation reads?"""
    a = fn.args
    params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    for n in ast.walk(key):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash", "len", "round", "int", "type"):
            return False
        if isinstance(n, ast.Attribute) and n.attr in ("shape", "dtype", "ndim"):
            return False
    k = paths_read(fn, key, params)
    v = set()
    for s in whole:
        v |= paths_read(fn, s, params)
    roots = {p for p, at in k if at is None}
    return all(p in roots or (p, at) in k for p, at in v)


def hidden_state(c):
    n = 0
    for m in library(c):
        top = {}
        for s in m.tree.body:
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            top[x.id] = s.value
        reads = {}
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and m.fn.get(x) is not None:
                reads.setdefault(x.id, []).append(x)
        for fn in m.funcs:
            n += 1
            loc = locals_of(fn)
            # rebinding of module variables
            for g in ast.walk(fn):
                if isinstance(g, ast.Global):
                    for name in g.names:
                        w = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)]
                        if w and reads.get(name):
                            c.bad("no module variable carries state between calls: %s" % name, m.loc(w[0]),
                                  "'%s' is rebound by a call and read back by %s, so results depend on earlier calls" % (name, m.loc(reads[name][0])))
            # in-place changes of module-level objects
            for node, base, key, value in mutations(fn):
                r = root_name(base)
                if r is None or r in loc or m.fn.get(node) is None:
                    continue
                if r in top and isinstance(base, ast.Name):
                    if isinstance(node, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "__class__" for t in node.targets):
                        continue        # the documented backend switch
                    if not mutable_value(top[r]):
                        continue
                    used = [x for x in reads.get(r, []) if not is_write(m, x)]
                    if not used:
                        continue
                    if key is not None and isinstance(node, ast.Assign) and good_memo(fn, key, value, [s for s in fn.body]):
                        continue
                    c.bad("no module variable carries state between calls: %s" % r, m.loc(node),
                          "the module-level object '%s' is changed by a call and read back at %s, so results depend on earlier calls" % (r, m.loc(used[0])))
            # mutable defaults
            a = fn.args
            pos = a.posonlyargs + a.args
            dflt = dict(zip([x.arg for x in pos][len(pos) - len(a.defaults):], a.defaults))
            dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            for p, d in dflt.items():
                if not mutable_value(d):
                    continue
                rebound = [x for x in ast.walk(fn) if isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Store)]
                if rebound:
                    continue
                for node, base, key, value in mutations(fn):
                    if root_name(base) == p:
                        c.bad("no default argument carries state between calls: %s" % p, m.loc(node), "the default value of parameter '%s' is changed in place, so later calls see it" % p)
                cls = m.parent.get(fn)
                if isinstance(cls, ast.ClassDef):
                    kept = [x for x in ast.walk(fn) if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id == p
                            and any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self" for t in x.targets)]
                    for x in kept:
                        at = [t.attr for t in x.targets if isinstance(t, ast.Attribute)][0]
                        for node, base, key, value in mutations(cls):
                            if isinstance(base, ast.Attribute) and base.attr == at and isinstance(base.value, ast.Name) and base.value.id == "self":
                                c.bad("no default argument carries state between objects: %s" % p, m.loc(node),
                                      "the default value of parameter '%s' of %s is kept as self.%s and changed in place, so all objects share it" % (p, fn.name, at))
            # functools caches over mutable or identity-hashed arguments
            for d in fn.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                e = m.ext(f)
                if e in ("functools.lru_cache", "functools.cache", "functools.cached_property") and any(
                        isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("run_cfg", "cfg", "self") for x in ast.walk(fn)):
                    c.bad("no cached result survives a change of its inputs: %s" % fn.name, m.loc(d), "results of %s are cached by the identity of an object whose entries may change" % fn.name)
        for cls in ast.walk(m.tree):
            if not isinstance(cls, ast.ClassDef):
                continue
            attrs = {}
            for s in cls.body:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            attrs[t.id] = s.value
            own = {t.attr for x in ast.walk(cls) if isinstance(x, ast.Assign) for t in x.targets for t in ast.walk(t)
                   if isinstance(t, ast.Attribute) and isinstance(t.ctx, ast.Store) and isinstance(t.value, ast.Name) and t.value.id == "self"}
            for node, base, key, value in mutations(cls):
                if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name) and base.value.id in ("self", "cls", cls.name) and base.attr in attrs \
                        and mutable_value(attrs[base.attr]) and (base.attr not in own or base.value.id != "self"):
                    c.bad("no class attribute carries state between objects: %s" % base.attr, m.loc(node), "the class-level object %s.%s is changed through an instance and shared by all" % (cls.name, base.attr))
            for x in ast.walk(cls):
                if isinstance(x, (ast.Assign, ast.AugAssign)):
                    for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                        b = t.value if isinstance(t, ast.Attribute) else None
                        if b is None:
                            continue
                        shared = isinstance(b, ast.Name) and (b.id == cls.name or b.id == "cls") or (isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "type") \
                            or (isinstance(b, ast.Attribute) and b.attr == "__class__")
                        if shared:
                            c.bad("no class attribute carries state between objects: %s" % t.attr, m.loc(x), "the class attribute %s.%s is assigned by a call and shared by all objects" % (cls.name, t.attr))
    c.count("functions searched for hidden state", n)
    c.ok("no call leaves state behind that a later call reads", "%d functions in %d files" % (n, len(library(c))))


def is_write(m, name):
    p = m.parent.get(name)
    if isinstance(p, ast.Attribute) and p.attr in MUTATORS and isinstance(m.parent.get(p), ast.Call):
        q = m.parent.get(m.parent.get(p))
        return isinstance(q, ast.Expr)
    return isinstance(p, (ast.Subscript, ast.Attribute)) and isinstance(p.ctx, (ast.Store, ast.Del))


# ------------------------------------------------------------------- determinism
ENTROPY = ("random.", "secrets.", "uuid.", "os.urandom", "numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "numpy.random.SeedSequence", "torch.seed",
           "torch.random.seed", "torch.initial_seed", "torch.cuda.seed", "os.getpid")
SEEDERS = ("torch.manual_seed", "torch.random.manual_seed", "torch.cuda.manual_seed", "torch.cuda.manual_seed_all", "numpy.random.seed", "random.seed", "torch.set_rng_state", "torch.random.set_rng_state",
           "numpy.random.set_state", "torch.random.fork_rng")
CLOCK = ("time.time", "time.time_ns", "time.perf_counter", "time.monotonic", "time.process_time", "datetime.datetime.now", "datetime.datetime.today", "datetime.datetime.utcnow", "datetime.date.today")
MODES = ("torch.set_default_dtype", "torch.set_default_tensor_type", "torch.set_default_device", "torch.set_grad_enabled", "numpy.seterr", "torch.set_flush_denormal", "torch.set_float32_matmul_precision",
         "torch.use_deterministic_algorithms")
LISTING = ("glob.glob", "glob.iglob", "os.listdir", "os.scandir", "os.walk")


def only_logged(m, node):
    """the value is only shown to a human: it ends in a log or print call"""
    p, q = m.parent.get(node), node
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.Call) and p.func is not q:
            r = root_name(p.func)
            if r in ("logger", "print", "logging", "tqdm"):
                return True
            if isinstance(p.func, ast.Attribute) and p.func.attr in ("set_description", "set_postfix", "set_postfix_str"):
                return True
        p, q = m.parent.get(p), p
    return False


def value_uses(m, node, fn, depth=0):
    """uses of the value of node in its function: yields use nodes (through local names)"""
    p = m.parent.get(node)
    while p is not None and isinstance(p, (ast.BinOp, ast.UnaryOp, ast.FormattedValue, ast.JoinedStr)):
        node, p = p, m.parent.get(p)
    if isinstance(p, ast.Assign) and p.value is node and all(isinstance(t, ast.Name) for t in p.targets) and depth < 6:
        for t in p.targets:
            for x in ast.walk(fn if fn is not None else m.tree):
                if isinstance(x, ast.Name) and x.id == t.id and isinstance(x.ctx, ast.Load):
                    yield from value_uses(m, x, fn, depth + 1)
        return
    yield node


def clock_for_names(m, node, fn):
    for u in value_uses(m, node, fn):
        if only_logged(m, u):
            continue
        p = m.parent.get(u)
        g = p
        ok = False
        while g is not None and not isinstance(g, ast.stmt):
            if isinstance(g, ast.Attribute) and g.attr in ("strftime", "isoformat", "year", "month", "day", "hour", "minute", "second"):
                ok = True
            if isinstance(g, ast.Call) and isinstance(g.func, ast.Name) and g.func.id == "str":
                ok = True
            if isinstance(g, ast.JoinedStr):
                ok = True
            g = m.parent.get(g)
        if not ok:
            return False
    return True


def determinism(c):
    calls = {}
    n = 0
    mods = library(c)
    for m in mods:
        for fn in m.funcs:
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                    calls.setdefault(x.id, set()).add((m.name, fn.name))
                elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                    calls.setdefault(x.attr, set()).add((m.name, fn.name))

    def serves_seeding(name, seen=()):
        if name == "fix_random_seeds":
            return True
        users = {f for _, f in calls.get(name, ()) if f != name}
        return bool(users) and name not in seen and all(serves_seeding(u, seen + (name,)) for u in users)
    for m in mods:
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            e = m.ext(x.func)
            if isinstance(x.func, ast.Attribute) and x.func.attr == "seed" and not x.args and not x.keywords:
                c.bad("no entropy outside the seeded generators: seed()", m.loc(x), "a generator is seeded from the system")
            if e in MODES and m.fn.get(x) is not None and not any("cuda" in ast.unparse(a) for a in x.args) and not any(i.context_expr is x for w in ast.walk(m.tree) if isinstance(w, ast.With) for i in w.items):
                c.bad("no call changes a mode of the libraries for later calls: %s" % e, m.loc(x), "%s changes how every later computation of the process works" % e)
            if e is None:
                if isinstance(x.func, ast.Attribute) and x.func.attr in ("iterdir", "glob", "rglob") and not ordered(m, x):
                    c.bad("directory listings are put in order", m.loc(x), "the order of %s() depends on the file system" % x.func.attr)
                continue
            n += 1
            fn = m.fn.get(x)
            if any(e == s or (s.endswith(".") and e.startswith(s)) for s in ENTROPY) and not (e == "random.seed"):
                if e == "numpy.random.default_rng" and (x.args or x.keywords):
                    continue
                if not only_logged(m, x):
                    c.bad("no entropy outside the seeded generators: %s" % e, m.loc(x), "%s is not controlled by the run's seed" % e)
            elif e in SEEDERS:
                if fn is None or not serves_seeding(fn.name):
                    c.bad("generators are only seeded by fix_random_seeds: %s" % e, m.loc(x), "%s resets generator state outside fix_random_seeds" % e)
            elif e in CLOCK:
                if not clock_for_names(m, x, fn):
                    c.bad("results do not depend on the clock: %s" % e, m.loc(x), "the value of %s flows into a computation" % e)
            elif e in LISTING and not ordered(m, x):
                c.bad("directory listings are put in order", m.loc(x), "the order of %s depends on the file system" % e)
        for x in ast.walk(m.tree):
            it = None
            if isinstance(x, (ast.For, ast.comprehension)):
                it = x.iter
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "tuple", "enumerate") and x.args:
                it = x.args[0]
            if it is not None and (isinstance(it, (ast.Set, ast.SetComp)) or (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("set", "frozenset"))):
                p = m.parent.get(x)
                if isinstance(x, ast.Call) and isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id in ("sorted", "len", "sum", "min", "max", "any", "all"):
                    continue
                if isinstance(x, ast.comprehension) and isinstance(m.parent.get(p), ast.Call) and isinstance(m.parent[p].func, ast.Name) and m.parent[p].func.id in ("sorted", "set", "len", "sum", "any", "all", "min", "max"):
                    continue
                c.bad("sequences are not built from unordered sets", m.loc(it), "the iteration order of a set of strings changes between processes")
    c.count("library calls searched for nondeterminism", n)
    c.ok("every call is determined by its inputs and the seeded generators", "%d library calls in %d files" % (n, len(mods)))


def ordered(m, call):
    """sorted(listing), listing.sort() afterwards, or a loop in which order cannot matter"""
    p, q = m.parent.get(call), call
    while p is not None and not isinstance(p, ast.stmt):
        if isinstance(p, ast.Call) and p.func is not q:
            nm = p.func.id if isinstance(p.func, ast.Name) else p.func.attr if isinstance(p.func, ast.Attribute) else ""
            if nm in ("sorted", "len", "set", "any", "all", "max", "min", "sum", "natsorted"):
                return True
        p, q = m.parent.get(p), p
    fn = m.fn.get(call) or m.tree
    if isinstance(p, ast.For) and p.iter is q:
        return all(isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) for s in p.body)
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], (ast.Name, ast.Attribute)):
        tn = ast.dump(strip(p.targets[0]))
        for x in ast.walk(fn):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "sort" and ast.dump(strip(x.func.value)) == tn:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "sorted" and x.args and ast.dump(strip(x.args[0])) == tn:
                return True
    return False


def strip(n):
    return ast.parse(ast.unparse(n), mode="eval").body


def seeding(c):
    def seeds(r):
        ev = [e for e in r.it.events if e.name in SEEDERS or e.name.split(".")[-1] in ("manual_seed", "seed")]
        out = {}
        for lib in ("torch", "numpy"):
            xs = [Event(lib, e.args[:1] or tuple(e.kws.values())[:1], {}, e.guard, e.loc, e.loops, e.result, e.seq, e.fn) for e in ev
                  if e.name.split(".")[0] == lib and "cuda" not in e.name]
            out["generator of %s seeded" % lib] = events_term(r, (lib,), events=xs)
        return out
    c.equiv("fix_random_seeds", c.public("fix_random_seeds"), "runs.seed_all", obs=("raises",), post=seeds)
    from .groups import TCUTS
    for ty in ("regression", "classification"):
        c.equiv("start of training (%s)" % ty, c.public("run_training"), "training.train", cuts=TCUTS, cfg={"type": ty}, obs=(("events", "init_network", "fix_random_seeds"),))


# ------------------------------------------------------------- configuration keys
CFGMETHODS = {"keys", "items", "values", "get", "pop", "update", "copy", "toDict", "pprint", "has_key", "setdefault", "clear", "deepcopy", "_map", "empty", "fromkeys", "bannerStr", "next", "parseOther", "viewitems", "viewkeys", "viewvalues", "iteritems", "iterkeys", "itervalues"}


def cfg_names(c):
    """(module, function) -> names that hold the run configuration, following in-package calls"""
    out = {}
    byname = {}
    for m in modules(c):
        for fn in m.funcs:
            a = [x.arg for x in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs]
            byname.setdefault(fn.name, []).append((m, fn, a))
            out[fn] = {x for x in a if x in ("run_cfg", "cfg")}
    changed = True
    while changed:
        changed = False
        for m in modules(c):
            for fn in m.funcs:
                s = out[fn]
                for x in ast.walk(fn):
                    if isinstance(x, ast.Assign) and isinstance(x.value, ast.Name) and x.value.id in s:
                        for t in x.targets:
                            if isinstance(t, ast.Name) and t.id not in s:
                                s.add(t.id)
                                changed = True
                    elif isinstance(x, ast.Call) and s:
                        nm = x.func.id if isinstance(x.func, ast.Name) else None
                        for m2, f2, params in byname.get(nm, ()):
                            if isinstance(m2.parent.get(f2), ast.ClassDef) or len(byname[nm]) > 1:
                                continue
                            for i, ar in enumerate(x.args):
                                if isinstance(ar, ast.Name) and ar.id in s and i < len(params) and params[i] not in out[f2]:
                                    out[f2].add(params[i])
                                    changed = True
                            for kw in x.keywords:
                                if isinstance(kw.value, ast.Name) and kw.value.id in s and kw.arg in params and kw.arg not in out[f2]:
                                    out[f2].add(kw.arg)
                                    changed = True
    return out


def cfg_lists(c):
    m = c.proj.modules["nidn._spec.config"]
    return tuple([ast.literal_eval(e) for e in m.defs[k][1].elts] for k in ("REQUIRED", "RUNTIME"))


def config_keys(c):
    required, runtime = cfg_lists(c)
    known = set(required) | set(runtime)
    names = cfg_names(c)
    reads, writes, tests, sub_r, sub_w = [], [], {}, [], []
    whole_results = False
    for m in modules(c):
        for x in ast.walk(m.tree):
            fn = m.fn.get(x)
            holders = names.get(fn, set()) if fn is not None else set()
            if fn is not None:          # closures see the enclosing names
                f2 = m.fn.get(fn)
                while f2 is not None:
                    holders = holders | names.get(f2, set())
                    f2 = m.fn.get(f2)
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in holders:
                if isinstance(x.ctx, ast.Load) and x.attr not in CFGMETHODS and not x.attr.startswith("__"):
                    reads.append((m, x, x.attr))
                elif isinstance(x.ctx, (ast.Store,)):
                    writes.append((m, x, x.attr))
            elif isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in holders and isinstance(x.slice, ast.Constant) and isinstance(x.slice.value, str):
                (reads if isinstance(x.ctx, ast.Load) else writes).append((m, x, x.slice.value))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in holders and x.func.attr in ("get", "pop", "setdefault") \
                    and x.args and isinstance(x.args[0], ast.Constant) and isinstance(x.args[0].value, str):
                tests.setdefault(fn, set()).add(x.args[0].value)
                if x.func.attr == "setdefault":
                    writes.append((m, x, x.args[0].value))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("getattr", "setattr", "hasattr") and len(x.args) >= 2 and isinstance(x.args[0], ast.Name) \
                    and x.args[0].id in holders and isinstance(x.args[1], ast.Constant):
                k = x.args[1].value
                if x.func.id == "hasattr":
                    tests.setdefault(fn, set()).add(k)
                else:
                    (reads if x.func.id == "getattr" else writes).append((m, x, k))
            elif isinstance(x, ast.Compare) and len(x.ops) == 1 and isinstance(x.ops[0], (ast.In, ast.NotIn)) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str) \
                    and root_name(x.comparators[0].func if isinstance(x.comparators[0], ast.Call) else x.comparators[0]) in holders:
                tests.setdefault(fn, set()).add(x.left.value)
            # second level: results
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and x.value.attr == "results" and isinstance(x.value.value, ast.Name) and x.value.value.id in holders:
                (sub_r if isinstance(x.ctx, ast.Load) else sub_w).append((m, x, x.attr))
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "results" for t in x.targets) and isinstance(x.value, ast.Call):
                for kw in x.value.keywords:
                    if kw.arg:
                        sub_w.append((m, x, kw.arg))
                for a in x.value.args:
                    if isinstance(a, ast.Dict):
                        for k in a.keys:
                            if isinstance(k, ast.Constant):
                                sub_w.append((m, x, k.value))
                    else:
                        whole_results = True
    gone = 0
    for m in modules(c):
        for x in ast.walk(m.tree):
            fn = m.fn.get(x)
            holders = names.get(fn, set()) if fn is not None else set()
            own = {t.id for y in (ast.walk(fn) if fn is not None else ()) if isinstance(y, ast.Assign) and not isinstance(y.value, ast.Name) for t in y.targets if isinstance(t, ast.Name)}
            holders = holders - own

            def entry(n):
                """the setting an expression stands for"""
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in holders:
                    return n.attr
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in holders and isinstance(n.slice, ast.Constant):
                    return n.slice.value
                if isinstance(n, ast.Subscript):
                    return entry(n.value)
                return None
            if isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, ast.Del) and isinstance(x.value, ast.Name) and x.value.id in holders:
                gone += 1
                c.bad("no entry is taken out of the configuration", m.loc(x), "an entry of the caller's configuration is removed")
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                v, f = x.func.value, x.func.attr
                if isinstance(v, ast.Name) and v.id in holders and f in ("pop", "popitem", "clear"):
                    gone += 1
                    c.bad("no entry is taken out of the configuration", m.loc(x), "an entry of the caller's configuration is removed")
                elif isinstance(v, ast.Name) and v.id in holders and f == "update":
                    writes.extend((m, x, k.value) for a in x.args if isinstance(a, ast.Dict) for k in a.keys if isinstance(k, ast.Constant))
                    writes.extend((m, x, k.arg) for k in x.keywords if k.arg)
                elif f in ("append", "extend", "insert", "remove", "reverse", "sort", "pop", "clear") and entry(v) in required:
                    writes.append((m, x, entry(v)))
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and entry(x.value) in required:
                writes.append((m, x, entry(x.value)))
    if not gone:
        c.ok("no entry is taken out of the configuration")
    for m, x, k in reads:
        if k not in known and k not in tests.get(m.fn.get(x), ()):
            c.bad("every entry read is one validation knows: %s" % k, m.loc(x), "configuration entry '%s' is read but no valid configuration may hold it" % k)
    for m, x, k in writes:
        if k not in known:
            c.bad("every entry written keeps the configuration valid: %s" % k, m.loc(x), "configuration entry '%s' is written, so a later validation of the same configuration fails" % k)
        elif k in required and k != "PER_LAYER_THICKNESS":
            c.bad("no user setting is overwritten: %s" % k, m.loc(x), "the user's setting '%s' is overwritten" % k)
    have = {k for _, _, k in sub_w}
    for m, x, k in sub_r:
        if k not in have and k not in CFGMETHODS and not whole_results:
            c.bad("every result read is one training stores: %s" % k, m.loc(x), "result '%s' is read but training never stores it" % k)
    c.count("configuration reads", len(reads))
    c.count("configuration writes", len(writes))
    c.ok("entries read are known to validation", "%d reads of %d entries" % (len(reads), len({k for _, _, k in reads})))
    c.ok("entries written keep the configuration valid", "%d writes of %s" % (len(writes), sorted({k for _, _, k in writes})))
    # runtime entries must have a producer in the package
    produced = {k for _, _, k in writes}
    for m, x, k in reads:
        if k in runtime and k not in produced and k not in tests.get(m.fn.get(x), ()):
            c.bad("every runtime entry read is produced: %s" % k, m.loc(x), "runtime entry '%s' is read but nothing in the package sets it" % k)
    c.ok("runtime entries read are produced by the package", str(sorted({k for _, _, k in reads} & set(runtime))))
    # settings without effect
    for k in required:
        if not any(k == k2 for m, x, k2 in reads if "validate_config" not in m.name) and k not in UNUSED:
            users = [m for m in modules(c) if "validate_config" not in m.name and ("'%s'" % k in m.m.src or '"%s"' % k in m.m.src)]
            if not users:
                c.bad("every setting has an effect: %s" % k, "nidn", "setting '%s' is required by validation but nothing reads it any more" % k)
    c.ok("every required setting is read somewhere", "%d settings" % len(required))


UNUSED = set()


def defaults(c):
    required, runtime = cfg_lists(c)
    c.equiv("load_default_cfg", c.public("load_default_cfg"), "runs.default_cfg", obs=("value", "raises"))
    hit = []
    for d, _, files in os.walk(os.path.join(c.proj.root, "nidn")):
        for f in files:
            if f == "default_config.toml":
                hit.append(os.path.join(d, f))
    if len(hit) != 1:
        return c.unsure("default configuration file", "%d files named default_config.toml" % len(hit))
    rel = os.path.relpath(hit[0], c.proj.root)
    try:
        t = tomllib.load(open(hit[0], "rb"))
    except tomllib.TOMLDecodeError as e:
        return c.bad("default configuration file parses", rel, str(e))
    for k in required:
        if k not in t:
            c.bad("the default configuration is complete: %s" % k, rel, "required entry '%s' is missing" % k)
    for k in t:
        if k not in required and k not in runtime:
            c.bad("the default configuration holds only known entries: %s" % k, rel, "entry '%s' is rejected by validation" % k)
    c.ok("the default configuration holds exactly the known entries", "%d entries" % len(t))


# --------------------------------------------------------------- name resolution
def undefined_names(c):
    import symtable
    n = 0
    glob_ok = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__class__", "__package__", "__spec__", "__all__", "__version__", "__annotations__"}
    for m in modules(c):
        table = symtable.symtable(m.m.src, m.rel, "exec")
        top = {s.get_name() for s in table.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
        star_ext = [s for s in m.m.stars if s not in c.proj.modules and s not in ("math",)]
        bad = {}

        def go(t):
            nonlocal n
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                n += 1
                nm = s.get_name()
                if t.get_type() == "module":
                    known = s.is_assigned() or s.is_imported() or s.is_namespace()
                elif s.is_global():
                    known = nm in top or s.is_declared_global() and s.is_assigned()
                else:
                    known = True
                if known or nm in glob_ok:
                    continue
                if c.proj.lookup(m.name, nm) is not None or star_ext:
                    continue
                bad.setdefault(nm, t)
            for ch in t.get_children():
                go(ch)
        go(table)
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Name) and x.id in bad and isinstance(x.ctx, ast.Load):
                bad.pop(x.id)
                c.bad("every name is defined: %s" % x.id, m.loc(x), "'%s' is not defined here and raises a NameError when reached" % x.id)
    c.count("name references resolved", n)
    c.ok("every name used is defined", "%d references in %d files" % (n, len(modules(c))))


def imports_resolve(c):
    n = 0
    for m in modules(c):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.ImportFrom):
                src = m.m.resolve_rel(x.level, x.module) if x.level else x.module
                if src.split(".")[0] != "nidn":
                    continue
                for a in x.names:
                    n += 1
                    if src not in c.proj.modules:
                        if not src.startswith("nidn.tests") and not guarded(m, x):
                            c.bad("every in-package import resolves: %s" % src, m.loc(x), "module %s does not exist" % src)
                    elif a.name != "*" and c.proj.lookup(src, a.name) is None and not has_top(c, src, a.name) and not guarded(m, x):
                        c.bad("every in-package import resolves: %s.%s" % (src, a.name), m.loc(x), "%s does not define '%s'" % (src, a.name))
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == "__all__" for t in s.targets) and isinstance(s.value, (ast.List, ast.Tuple)):
                for e in s.value.elts:
                    n += 1
                    if isinstance(e, ast.Constant) and c.proj.lookup(m.name, e.value) is None and not has_top(c, m.name, e.value):
                        c.bad("every exported name exists: %s" % e.value, m.loc(e), "__all__ exports '%s', which is not defined" % e.value)
    c.ok("every in-package import and export resolves", "%d names" % n)


def guarded(m, x):
    p = m.parent.get(x)
    while p is not None:
        if isinstance(p, ast.Try):
            return True
        p = m.parent.get(p)
    return False


def has_top(c, mod, name):
    m = c.proj.modules.get(mod)
    if m is None:
        return False
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store):
            return True
    return False


def signature_problem(a, node, call, bound):
    """why a call does not fit a function's parameters, or None"""
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    ndef = len(a.defaults)
    if bound:
        pos = pos[1:]
    given = len(call.args)
    if given > len(pos) and a.vararg is None:
        return "takes %d positional arguments but %d are given" % (len(pos), given)
    filled = set(pos[:given])
    kwonly = {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg in filled:
            return "gets argument '%s' twice" % k.arg
        if k.arg not in pos and k.arg not in kwonly and a.kwarg is None:
            return "has no parameter '%s'" % k.arg
        filled.add(k.arg)
    need = pos[: max(0, len(pos) - ndef)] if ndef <= len(pos) else []
    need = need + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in need if x not in filled]
    if miss:
        return "misses argument '%s'" % miss[0]
    return None


def methods_of(c, cls, name, seen=()):
    """the method a class resolves, or 'ext' when a base class is external"""
    if name in cls.methods:
        return cls.methods[name]
    ext = False
    for b in cls.node.bases:
        d = None
        if isinstance(b, ast.Name):
            d = c.proj.lookup(cls.mod.name, b.id)
        if isinstance(d, Class) and d.qual not in seen:
            r = methods_of(c, d, name, seen + (cls.qual,))
            if r is not None:
                return r
        elif not (isinstance(b, ast.Name) and b.id == "object"):
            ext = True
    return "ext" if ext else None


def arity(c):
    n = 0
    for m in modules(c):
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            target, bound = None, False
            fn = m.fn.get(x)
            if isinstance(x.func, ast.Name):
                if fn is not None and x.func.id in locals_of_chain(m, fn):
                    continue
                target = c.proj.lookup(m.name, x.func.id)
            elif isinstance(x.func, ast.Attribute):
                if isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                    cls = m.parent.get(fn) if fn is not None else None
                    f2 = fn
                    while f2 is not None and not isinstance(cls, ast.ClassDef):
                        f2 = m.fn.get(f2)
                        cls = m.parent.get(f2) if f2 is not None else None
                    d = m.m.defs.get(cls.name) if isinstance(cls, ast.ClassDef) else None
                    if isinstance(d, Class):
                        r = methods_of(c, d, x.func.attr)
                        assigned = any(isinstance(t, ast.Attribute) and t.attr == x.func.attr and isinstance(t.ctx, ast.Store) for t in ast.walk(cls))
                        if isinstance(r, Func) and not assigned and not any(q in ("property",) or q.endswith("setter") for q in r.decorators):
                            target, bound = r, not any(q == "staticmethod" for q in r.decorators)
                        elif r is None and not assigned and x.func.attr not in d.attrs and not x.func.attr.startswith("__") and not known_anywhere(c, d, x.func.attr):
                            n += 1
                            c.bad("every method called exists: %s" % x.func.attr, m.loc(x), "%s has no method '%s'" % (d.qual, x.func.attr))
                            continue
                else:
                    e = m.ext(x.func)
                    if e is not None and e.startswith("nidn."):
                        k, nm = e.rsplit(".", 1)
                        if k in c.proj.modules:
                            target = c.proj.lookup(k, nm)
            if target is None and isinstance(x.func, ast.Attribute) and x.func.attr.startswith("_") and not x.func.attr.startswith("__") and not bound:
                # a private method on an object of unknown class: some class of the package must accept the call
                cand = [f for f in methods_named(c).get(x.func.attr, ()) if not f.decorators]
                if cand and m.ext(x.func) is None and not (isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == "super"):
                    n += 1
                    unbound = isinstance(x.func.value, ast.Name) and isinstance(c.proj.lookup(m.name, x.func.value.id), Class)
                    why = [signature_problem(f.node.args, f.node, x, not unbound) for f in cand]
                    if all(why):
                        c.bad("every in-package call fits its callee: %s in %s" % (x.func.attr, fn.name if fn is not None else "module"), m.loc(x), "%s %s" % (cand[0].qual, why[0]))
                continue
            if isinstance(target, Class):
                r = methods_of(c, target, "__init__")
                if not isinstance(r, Func):
                    continue
                if any(isinstance(k, ast.keyword) and k.arg == "metaclass" for k in target.node.keywords):
                    continue
                target, bound = r, True
            if not isinstance(target, Func) or any(d for d in target.decorators if d not in ("staticmethod", "classmethod") and "no_grad" not in d):
                continue
            if target.cls is not None and not bound:
                bound = any(d == "classmethod" for d in target.decorators)
            n += 1
            why = signature_problem(target.node.args, target.node, x, bound)
            if why:
                c.bad("every in-package call fits its callee: %s" % target.name, m.loc(x), "%s %s" % (target.qual, why))
    c.count("in-package call sites matched", n)
    c.ok("every in-package call fits the parameters of its callee", "%d call sites" % n)


def methods_named(c):
    if not hasattr(c, "_lint_methods"):
        c._lint_methods = {}
        for f in c.proj.functions():
            if f.cls is not None and not f.qual.startswith("nidn._spec"):
                c._lint_methods.setdefault(f.name, []).append(f)
    return c._lint_methods


def known_anywhere(c, cls, name):
    """mixins and subclasses: some package class defines or assigns the name"""
    for m in modules(c):
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.FunctionDef,)) and x.name == name and m.name != cls.mod.name:
                return True
            if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store):
                return True
    for x in ast.walk(cls.mod.tree):
        if isinstance(x, ast.FunctionDef) and x.name == name:
            return True
    return False


def locals_of_chain(m, fn):
    out = set()
    while fn is not None:
        out |= locals_of(fn)
        fn = m.fn.get(fn)
    return out


def library_names(c):
    try:
        table = {k: set(v) for k, v in json.load(open(os.path.join(DATA, "libnames.json"))).items()}
    except OSError as e:
        return c.unsure("library names", str(e))
    n = 0
    for m in modules(c):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load):
                e = m.ext(x)
                if e is None:
                    continue
                if isinstance(x.value, ast.Name) and m.fn.get(x) is not None and x.value.id in locals_of_chain(m, m.fn[x]) and x.value.id not in m.imports_of(m.fn[x]):
                    continue
                base, nm = e.rsplit(".", 1)
                if base in table:
                    n += 1
                    if nm not in table[base] and not hasattr_guard(m, x):
                        c.bad("every library function used exists: %s" % e, m.loc(x), "%s has no attribute '%s'" % (base, nm))
            elif isinstance(x, ast.ImportFrom) and not x.level and x.module in table and not guarded(m, x):
                for a in x.names:
                    n += 1
                    if a.name != "*" and a.name not in table[x.module]:
                        c.bad("every library function used exists: %s.%s" % (x.module, a.name), m.loc(x), "%s has no attribute '%s'" % (x.module, a.name))
    c.count("library references resolved", n)
    c.ok("every library attribute used exists in the pinned versions", "%d references" % n)


def hasattr_guard(m, x):
    p = m.parent.get(x)
    while p is not None:
        if isinstance(p, ast.Try):
            return True
        if isinstance(p, (ast.If, ast.IfExp)) and any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id == "hasattr" for y in ast.walk(p.test)):
            return True
        p = m.parent.get(p)
    return False


def instance_attributes(c, d):
    """names an object of this class can have, or None if that cannot be told"""
    if external_base(c, d):
        return None
    have = set()
    for k in family(c, d):
        have |= set(k.methods) | set(k.setters) | set(k.attrs)
        for x in ast.walk(k.node):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                have.add(x.attr)
            if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                have.add(x.target.id)
    return None if "__getattr__" in have or "__getattribute__" in have else have


def made(c, m, v):
    """the package class a constructor expression makes an object of"""
    if isinstance(v, ast.Call):
        if isinstance(v.func, ast.Name):
            k = c.proj.lookup(m.m.name, v.func.id)
        elif isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and m.ext(v.func) is None:
            k = None
        else:
            k = None
        return k if isinstance(k, Class) else None
    return None


def holders_of(c):
    """attribute names that only ever hold objects of one package class"""
    kinds = {}
    for m in modules(c):
        for x in ast.walk(m.tree):
            if isinstance(x, (ast.Attribute,)) and isinstance(x.ctx, ast.Store):
                p = m.parent.get(x)
                k = made(c, m, p.value) if isinstance(p, ast.Assign) and x in p.targets else None
                kinds.setdefault(x.attr, set()).add(k)
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and isinstance(x.args[1], ast.Constant):
                kinds.setdefault(x.args[1].value, set()).add(None)
    return {a: next(iter(k)) for a, k in kinds.items() if len(k) == 1 and None not in k}


def self_attributes(c):
    """every attribute read from self or from an object the package made is a method, a class attribute or assigned somewhere"""
    n = 0
    memo = {}

    def have(d):
        if d not in memo:
            memo[d] = instance_attributes(c, d)
        return memo[d]

    def look(m, x, d):
        h = have(d)
        if h is not None and x.attr not in h and not x.attr.startswith("__") and not stored_anywhere(c, x.attr) and not hasattr_guard(m, x):
            c.bad("every attribute read is set: %s" % x.attr, "%s:%d (%s)" % (m.rel, x.lineno, d.qual), "%s objects never get an attribute '%s'" % (d.name, x.attr))
    fields = holders_of(c)
    for m in modules(c):
        for cname, d in m.m.defs.items():
            if not isinstance(d, Class) or have(d) is None:
                continue
            for x in ast.walk(d.node):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load):
                    n += 1
                    look(m, x, d)
        for fn in m.funcs:
            local, taken = {}, {a.arg for a in fn.args.posonlyargs + fn.args.args + fn.args.kwonlyargs}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    p = m.parent.get(x)
                    local.setdefault(x.id, set()).add(made(c, m, p.value) if isinstance(p, ast.Assign) and x in p.targets else None)
            for x in ast.walk(fn):
                if not (isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)):
                    continue
                d = None
                if isinstance(x.value, ast.Name) and x.value.id not in taken and len(local.get(x.value.id, ())) == 1:
                    d = next(iter(local[x.value.id]))
                elif isinstance(x.value, ast.Attribute):
                    d = fields.get(x.value.attr)
                if d is not None:
                    n += 1
                    look(m, x, d)
    c.count("attribute reads resolved", n)
    c.ok("every attribute read from an object is set or defined", "%d reads" % n)


def stored_anywhere(c, name):
    for m in modules(c):
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and x.attr == name and isinstance(x.ctx, ast.Store):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr":
                if len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == name:
                    return True
                if len(x.args) > 1 and not isinstance(x.args[1], (ast.Constant, ast.Attribute)) and isinstance(x.args[0], ast.Name) and x.args[0].id == "self":
                    return True
    return False


def family(c, d):
    out, todo = [], [d]
    while todo:
        k = todo.pop()
        if k in out:
            continue
        out.append(k)
        for b in k.node.bases:
            e = c.proj.lookup(k.mod.name, b.id) if isinstance(b, ast.Name) else None
            if isinstance(e, Class):
                todo.append(e)
    for m in modules(c):            # subclasses may provide what a base class uses
        for k in m.m.defs.values():
            if isinstance(k, Class) and any(isinstance(b, ast.Name) and c.proj.lookup(k.mod.name, b.id) is d for b in k.node.bases) and k not in out:
                out.append(k)
    return out


def external_base(c, d):
    for k in family(c, d):
        for b in k.node.bases:
            e = c.proj.lookup(k.mod.name, b.id) if isinstance(b, ast.Name) else None
            if not isinstance(e, Class) and not (isinstance(b, ast.Name) and b.id in ("object", "ABC")):
                return True
    return False


def unbound_locals(c):
    """a local read on a path on which nothing assigned it (branch-insensitive first use)"""
    n = 0
    for m in modules(c):
        for fn in m.funcs:
            a = fn.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
            loc = locals_of(fn) - params
            n += len(loc)
            for name, node in never_before(fn, loc):
                c.bad("no local is read before it is assigned: %s" % name, m.loc(node), "'%s' is read here, but no statement before assigns it" % name)
            for name, node, br in one_sided(fn, loc):
                c.bad("no local is read that one branch left unassigned: %s" % name, m.loc(node), "'%s' is read here, but only one side of the branch at line %d assigns it" % (name, br.lineno))
    c.count("locals checked", n)
    c.ok("no local variable is read before every possible assignment", "%d locals" % n)


def never_before(fn, loc):
    """reads of a local that no textually or loop-wise earlier statement may have assigned"""
    bad = []

    def expr(n, done):
        if n is None:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = set(done)
            for g in n.generators:
                expr(g.iter, inner)
                inner |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                for q in g.ifs:
                    expr(q, inner)
            for q in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                expr(q, inner)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, ast.NamedExpr):
            expr(n.value, done)
            done.add(n.target.id)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in loc and n.id not in done:
                bad.append((n.id, n))
                done.add(n.id)
            return
        for ch in ast.iter_child_nodes(n):
            expr(ch, done)

    def stores(t, done):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                done.add(x.id)

    def block(body, done):
        for s in body:
            stmt(s, done)

    def stmt(s, done):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            done.add(s.name)
        elif isinstance(s, ast.Assign):
            expr(s.value, done)
            for t in s.targets:
                expr(t, done)
                stores(t, done)
        elif isinstance(s, ast.AugAssign):
            expr(s.value, done)
            if isinstance(s.target, ast.Name):
                if s.target.id in loc and s.target.id not in done:
                    bad.append((s.target.id, s.target))
                done.add(s.target.id)
            else:
                expr(s.target, done)
        elif isinstance(s, ast.AnnAssign):
            expr(s.value, done)
            if s.value is not None:
                stores(s.target, done)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            expr(s.iter, done)
            stores(s.target, done)
            block(s.body, done)
            block(s.orelse, done)
        elif isinstance(s, ast.While):
            expr(s.test, done)
            block(s.body, done)
            block(s.orelse, done)
        elif isinstance(s, ast.If):
            expr(s.test, done)
            d1, d2 = set(done), set(done)
            block(s.body, d1)
            block(s.orelse, d2)
            done |= d1 | d2
        elif isinstance(s, ast.Try):
            d0 = set(done)
            block(s.body, done)
            for h in s.handlers:
                d = set(done)
                if h.name:
                    d.add(h.name)
                block(h.body, d)
                done |= d
            block(s.orelse, done)
            block(s.finalbody, done)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                expr(i.context_expr, done)
                if i.optional_vars is not None:
                    stores(i.optional_vars, done)
            block(s.body, done)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            for al in s.names:
                done.add(al.asname or al.name.split(".")[0])
        elif isinstance(s, ast.Match):
            expr(s.subject, done)
            for k in s.cases:
                for x in ast.walk(k.pattern):
                    for nm in (getattr(x, "name", None), getattr(x, "rest", None)):
                        if isinstance(nm, str):
                            done.add(nm)
                block(k.body, done)
        else:
            for ch in ast.iter_child_nodes(s):
                expr(ch, done)
    a = fn.args
    done = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    # names bound in nested scopes or deleted are left alone
    block(fn.body, done)
    return bad


def leaves(body):
    """control never falls off the end of this block"""
    return any(isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)) or isinstance(s, ast.If) and s.orelse and leaves(s.body) and leaves(s.orelse)
               or isinstance(s, ast.With) and leaves(s.body) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ("sys.exit", "exit", "quit", "os._exit") for s in body)


def atoms(t):
    return {ast.unparse(x) for x in ast.walk(t) if isinstance(x, (ast.Name, ast.Attribute))}


def one_sided(fn, loc):
    """reads, outside loops and without a related test, of a local that one side of an earlier branch leaves unassigned"""
    bad = []

    def reads(n):
        return [x for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)]

    def assigned(s, done, maybe):
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                done.add(x.id)
                maybe.pop(x.id, None)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                done.add(x.name)
                maybe.pop(x.name, None)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for al in x.names:
                    done.add(al.asname or al.name.split(".")[0])
                    maybe.pop(al.asname or al.name.split(".")[0], None)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                done.add(x.name)

    def related(test, maybe):
        """a later test on what decided the assignment, or on the variable, settles it"""
        a = atoms(test)
        for k in [k for k, (cond, _) in maybe.items() if cond & a or k in a]:
            del maybe[k]

    def block(body, done, maybe):
        for s in body:
            if isinstance(s, ast.If):
                chain, rest = [s], s.orelse
                while len(rest) == 1 and isinstance(rest[0], ast.If):
                    chain.append(rest[0])
                    rest = rest[0].orelse
                cond = set()
                for q in chain:
                    related(q.test, maybe)
                    cond |= atoms(q.test)
                    for x in ast.walk(q.test):
                        if isinstance(x, ast.NamedExpr):
                            done.add(x.target.id)
                cond |= {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                ends = []
                for b in [q.body for q in chain] + ([rest] if rest else []):
                    d, mb = set(done), dict(maybe)
                    block(b, d, mb)
                    if not leaves(b):
                        ends.append((d, mb))
                if not rest and len(chain) == 1:
                    ends.append((set(done), dict(maybe)))
                if not ends:
                    return
                every = set.intersection(*(d for d, _ in ends))
                some = set.union(*(d for d, _ in ends))
                maybe.clear()
                for _, mb in ends:
                    maybe.update(mb)
                for k in some - every:
                    if k not in maybe:
                        maybe[k] = (cond, s)
                done |= some
                for k in every:
                    if not any(k in mb for _, mb in ends):
                        maybe.pop(k, None)
            elif isinstance(s, (ast.For, ast.While, ast.Try, ast.With, ast.Match, ast.AsyncFor, ast.AsyncWith, ast.FunctionDef, ast.ClassDef, ast.Delete, ast.Assert)):
                # too rich for this rule: nothing is reported in or after them for what they mention
                for x in ast.walk(s):
                    if isinstance(x, ast.Name):
                        maybe.pop(x.id, None)
                assigned(s, done, maybe)
                if not isinstance(s, ast.With):
                    a = set().union(*(atoms(x.test) for x in ast.walk(s) if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert))))
                    for k in [k for k, (cond, _) in maybe.items() if cond & a]:
                        del maybe[k]
            else:
                for x in ast.walk(s):
                    if isinstance(x, (ast.IfExp,)):
                        related(x.test, maybe)
                    elif isinstance(x, (ast.BoolOp, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                        for y in ast.walk(x):
                            if isinstance(y, ast.Name):
                                maybe.pop(y.id, None)
                for x in reads(s):
                    if x.id in maybe and x.id in loc:
                        bad.append((x.id, x, maybe.pop(x.id)[1]))
                assigned(s, done, maybe)
    a = fn.args
    block(fn.body, {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}, {})
    return bad


def names(c):
    undefined_names(c)
    imports_resolve(c)
    arity(c)
    library_names(c)
    self_attributes(c)
    unbound_locals(c)


def state(c):
    seeding(c)
    determinism(c)
    hidden_state(c)


def config(c):
    defaults(c)
    config_keys(c)
