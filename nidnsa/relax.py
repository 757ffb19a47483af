"""A second, coarser normal form used only to excuse differences.

Its rewrites hold for the shapes the code is documented for, but those shapes are not
part of the value graph, so agreement modulo them is reported as undecided and never as
proved.  Nothing here can turn an agreement into a difference."""
import re
import time
from .vg import *
from .norm import *
from . import vg


class Relax:
    def __init__(self, ndim, lens=None, vecs=()):
        self.vecs = set(vecs)
        self.ndim = ndim
        self.memo = {}
        self.lens = lens or {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self.top(self.inner(t))
        return r

    def inner(self, t):
        op = t.op
        if op == "store" and t.args[1].op != "ite":
            # x[ix] = x[ix] + v: accumulations commute
            v = sub(t.args[2], mk_idx(t.args[0], t.args[1]))
            if not any(s is t.args[0] for s in subterms(v)) and t.args[0].op in ("store", "app", "poly", "sym"):
                if t.args[0].op == "store" or any(s.op == "idx" for s in subterms(t.args[2])):
                    b = t.args[0]
                    while b.op == "store":
                        b = b.args[0]
                    if not any(s is b for s in subterms(v)) or b.op == "app":
                        return add([self(t.args[0]), app("onehot", [self(t.args[1]), self(v)])])
        if op == "map":
            f = fresh("i")
            return mk_map(self(t.args[0]), f, self(open_map(t, f)))
        if op == "lastval":
            f = fresh("i")
            return mk_lastval(self(t.args[0]), self(t.args[1]), f, self(subst(t.args[2], {bv(t.val): f})))
        if op in ("loop", "while"):
            k, m, j = t.val
            fi, fs = fresh("i"), [fresh("s") for _ in range(m)]
            mp = {bv(k, 0): fi}
            for q, f in enumerate(fs):
                mp[bv(k, q + 1)] = f
            go = lambda x: self(subst(x, mp))
            n = self(t.args[0]) if op == "loop" else go(t.args[0])
            inits = [self(a) for a in t.args[1:1 + m]]
            bodies = [go(a) for a in t.args[1 + m:1 + 2 * m]]
            brk = go(t.args[1 + 2 * m])
            if op == "loop" and brk is FALSE and m == 1:
                r = self.scatter(n, fi, fs[0], inits[0], bodies[0]) or self.masked(n, fi, fs[0], inits[0], bodies[0])
                if r is not None:
                    return r
            return mk_loop(op, n, fi, fs, inits, bodies, gate(brk), j)
        if op == "poly":
            mp = {c: self(c) for c in children(t)}
            mp = {a: b for a, b in mp.items() if a is not b}
            if not mp:
                return t
            out = []
            for m, c in t.val:
                out.append(mul([const(c)] + [power(mp.get(a, a), const(e)) for a, e in m]))
            return add(out)
        ch = children(t)
        if not ch or not t.args:
            return t
        na = [self(a) for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            return t
        return rebuild(t, na)

    # ------------------------------------------------------------------ rules
    def top(self, t):
        if t.op == "app":
            f = getattr(self, "r_" + str(t.val).replace(".", "_"), None)
            if f is not None:
                r = f(t)
                if r is not None and r is not t:
                    return r
        elif t.op == "ite":
            return self.minmax(t)
        elif t.op == "poly":
            return self.poly(t)
        elif t.op == "store":
            return self.columns(t)
        elif t.op == "idx":
            return self.compose(self.ellipsis(t))
        elif t.op == "cat":
            return self.dims(t)
        elif t.op in ("lt0", "eq0"):
            return self.magnitude(t)
        elif t.op == "eq" and all(x.op == "attr" and x.val in ("start", "stop") for x in t.args):
            return eq0(sub(*t.args))
        elif t.op == "tuple" and len(t.args) == 1 and t.args[0].op in ("cat", "tuple"):
            return self(mk("tuple", None, t.args[0].args)) if t.args[0].op == "tuple" else self.dims(t.args[0])
        return self.lens.get(t, t)

    def magnitude(self, t):
        """|d| against a number, for real d"""
        p = t.args[0]
        if p.op != "poly" or len(p.val) > 2:
            return t
        hot = [(m[0][0], c) for m, c in p.val if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "app" and m[0][0].val == "abs"]
        k = sum(c for m, c in p.val if not m)
        if len(hot) != 1 or len(hot) + sum(1 for m, c in p.val if not m) != len(p.val):
            return t
        (a, c), d = hot[0], hot[0][0].args[0]
        lim = const(-k / c)
        if t.op == "eq0":
            return or_(eq0(sub(d, lim)), eq0(add([lim, d])))
        if c > 0:
            return and_(lt0(sub(d, lim)), lt0(sub(scale(d, -1), lim)))
        return or_(lt0(sub(lim, d)), lt0(add([lim, d])))

    def dims(self, t):
        """shape + (k,) written out: three leading entries"""
        if len(t.args) == 2 and t.args[1].op in ("list", "tuple") and t.args[0].op in ("sym", "attr", "app", "idx") and all(a.op == "const" for a in t.args[1].args):
            x = t.args[0]
            if x.op == "app" and x.val == "listof":
                x = x.args[0]
            return mk("tuple", None, [mk_idx(x, const(i)) for i in range(3)] + list(t.args[1].args))
        return t

    def compose(self, t):
        """(a - b)[q] and a[p][q] as plain selections of the underlying arrays"""
        if t.op != "idx":
            return t
        b, ix = t.args
        q = index_parts(ix)
        if any(x is NONE or x.op in ("list", "map") for x in q):
            return t
        if b.op == "poly" and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("idx", "sym") for m, c in b.val):
            return add([scale(self(mk_idx(m[0][0], ix)), c) for m, c in b.val])
        if b.op == "idx" and b.args[0].op in ("sym", "attr", "app"):
            p = index_parts(b.args[1])
            if any(x is NONE or x is const(Ellipsis) or x.op in ("list", "map", "sym", "app", "idx") for x in p):
                return t
            full = mk_slice(NONE, NONE)
            p = p + [full] * (self.ndim - len(p))
            free = [i for i, x in enumerate(p) if x.op == "slice"]
            e = [i for i, x in enumerate(q) if x is const(Ellipsis)]
            if len(e) == 1:
                q = q[:e[0]] + [full] * (len(free) - len(q) + 1) + q[e[0] + 1:]
            if e and len(e) > 1 or len(q) > len(free):
                return t
            for i, x in zip(free, q):
                if is_full(x):
                    continue
                if not is_full(p[i]):
                    return t
                p[i] = x
            return mk_idx(b.args[0], mk_index(p))
        return t

    def r_shape(self, t):
        """shape of mutually orthogonal index vectors"""
        x = t.args[0]
        if x.op == "idx" and x.args[0].op == "app" and x.args[0].val in ("broadcast_tensors", "broadcast_arrays", "meshgrid"):
            axes = {}
            parts = list(x.args[0].args)
            if len(parts) == 1 and parts[0].op in ("list", "tuple"):
                parts = list(parts[0].args)
            for a in parts:
                if a.op != "idx":
                    return None
                p = index_parts(a.args[1])
                p = p + [mk_slice(NONE, NONE)] * (len(parts) - len(p))
                hot = [i for i, y in enumerate(p) if y is not NONE]
                if len(p) != len(parts) or len(hot) != 1 or not is_full(p[hot[0]]):
                    return None
                axes[hot[0]] = mk_len(a.args[0])
            if set(axes) == set(range(len(parts))):
                return mk("tuple", None, [self(axes[i]) for i in range(len(parts))])
        return None

    def r_minlen(self, t):
        return self.lens.get(t, self.lens.get(t.args[0]))

    def r_len(self, t):
        return self.lens.get(t)

    def seq(self, t):
        return list(t.args) if t.op in ("list", "tuple") else None

    def r_vstack(self, t):
        return self(app("torchcat", [t.args[0]])) if len(t.args) == 1 else None

    def r_hstack(self, t):
        return self(app("torchcat", [t.args[0], const(1)])) if len(t.args) == 1 else None

    def r_matmul(self, t):
        """product with a matrix"""
        if len(t.args) == 2:
            a, b = t.args
            return self(app("sum", [mul([app("unsqueeze", [a, const(-1)]), b]), const(-2)]))
        return None

    def r_tensordot(self, t):
        if len(t.args) == 3 and as_int(t.args[2].args[0] if t.args[2].op == "kw" else t.args[2]) == 1:
            return self.r_matmul(mk("app", "matmul", t.args[:2]))
        return None

    def r_einsum(self, t):
        m = re.match(r"^([A-Za-z.]*)([A-Za-z]),\2([A-Za-z])->\1\3$", str(pyconst(t.args[0])).replace(" ", "")) if is_str(t.args[0]) else None
        if m and len(t.args) == 3:
            return self.r_matmul(mk("app", "matmul", t.args[1:]))
        return None

    def r_sum(self, t):
        """sum(a * y[..., None], -1) == y * sum(a, -1)"""
        if len(t.args) == 1 and t.args[0].op in ("poly", "app"):
            return self.overall("sum", t.args[0])
        if len(t.args) == 2 and as_int(t.args[1]) == -1 and t.args[0].op == "poly" and len(t.args[0].val) == 1:
            m, c = t.args[0].val[0]
            last = mk("tuple", None, (const(Ellipsis), NONE))
            out = [(a, e) for a, e in m if a.op == "idx" and a.args[1] is last]
            rest = [power(a, const(e)) for a, e in m if not (a.op == "idx" and a.args[1] is last)]
            if out and rest:
                return self(mul([const(c), app("sum", [mul(rest), t.args[1]])] + [power(a.args[0], const(e)) for a, e in out]))
        return None

    def r_any(self, t):
        return self.overall("any", t.args[0]) if len(t.args) == 1 and t.args[0].op != "map" else None

    def r_mean(self, t):
        if len(t.args) == 1 and t.args[0].op in ("poly", "app"):
            hot = sorted((v for v in self.vecs if v in set(subterms(t.args[0]))), key=lambda v: v.id)
            r = self.overall("sum", t.args[0])
            if r is not None:
                return mul([r, power(self(mk_len(hot[0])), const(-1))])
        return None

    def overall(self, name, x):
        """a reduction of an elementwise expression, cell by cell"""
        hot = sorted((v for v in self.vecs if v in set(subterms(x))), key=lambda v: v.id)
        if not hot:
            return None
        i = fresh("i")
        r = self.cell(x, i)
        if r is None:
            return None
        n = mk_len(hot[0])
        return self(app(name, [mk_map(self.lens.get(n, n), i, gate(r) if name == "any" else r)]))

    def cell(self, t, i):
        if t in self.vecs:
            return mk_idx(t, i)
        if is_num(t) or not any(s in self.vecs for s in subterms(t)) or t.op == "app" and t.val == "len":
            return t
        if t.op == "app" and t.val in ("stack", "tensor", "array", "asarray") and len(t.args) == 1:
            return self.cell(t.args[0], i)
        if t.op == "poly":
            out = []
            for m, c in t.val:
                fs = [self.cell(a, i) for a, e in m]
                if any(f is None for f in fs):
                    return None
                out.append(lift(lambda *p, c=c, m=m: mul([const(c)] + [power(f, const(e)) for f, (a, e) in zip(p, m)]), fs))
            return lift(lambda *p: add(list(p)), out)
        if t.op in ("lt0", "eq0", "ite") or t.op == "app" and t.val in ("abs", "pow", "exp", "real", "imag", "and", "or", "not", "maximum", "minimum", "where", "sqrt"):
            a = [self.cell(x, i) for x in t.args]
            if any(x is None for x in a):
                return None
            if t.op == "app" and t.val == "where" and len(a) == 3:
                return ite(gate(a[0]), a[1], a[2])
            if t.op == "app" and t.val in ("and", "or") and len(a) == 2:
                return (and_ if t.val == "and" else or_)(gate(a[0]), gate(a[1]))
            if t.op == "app":
                return lift(lambda *p: app(t.val, list(p)), a)
            return rebuild(t, a)
        return None

    def r_torchcat(self, t):
        """block matrix: rows of columns"""
        if len(t.args) == 2 and as_int(t.args[1]) in (1, -1):
            cols = self.seq(t.args[0])
            if cols and all(c.op == "app" and c.val == "torchcat" and len(c.args) == 1 and self.seq(c.args[0]) for c in cols):
                rows = [self.seq(c.args[0]) for c in cols]
                if len({len(r) for r in rows}) == 1:
                    return app("torchcat", [mk("list", None, [app("torchcat", [mk("list", None, list(r)), const(1)]) for r in zip(*rows)])])
        return None

    def r_zeros_like(self, t):
        x = t.args[0]
        if len(t.args) == 1 and x.op == "app" and x.val == "zeros_like":
            return x
        return None

    def r_ones_like(self, t):
        return const(1)

    def r_storemap(self, t):
        """planes filled one by one along the last axis"""
        x = t.args[1] if len(t.args) == 2 else None
        if x is not None and x.op == "map" and t.args[0].op == "app" and t.args[0].val in ("zeros", "empty"):
            f = fresh("i")
            b = open_map(x, f)
            p = index_parts(b.args[0]) if b.op == "tuple" and len(b.args) == 2 else []
            if len(p) > 1 and p[-1] is f and all(q is const(Ellipsis) or is_full(q) for q in p[:-1]):
                return app("stack", [mk_map(x.args[0], f, b.args[1]), const(-1)])
        return None

    def r_repeat(self, t):
        if len(t.args) == 2 and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and as_int(t.args[1].args[1]) == 1:
            return app("stack", [mk_map(t.args[1].args[0], fresh("i"), t.args[0])])
        return None

    def r_expand(self, t):
        if len(t.args) == 2 and t.args[1].op == "tuple" and len(t.args[1].args) == 2 and as_int(t.args[1].args[1]) in (-1,):
            return app("stack", [mk_map(t.args[1].args[0], fresh("i"), t.args[0])])
        return None

    def r_where(self, t):
        if len(t.args) != 3:
            return None
        c, a, b = t.args
        if any(x.op == "ite" for x in t.args):
            at = {s.args[0] for x in t.args for s in ites(x)}
            if len(at) <= 8:
                return self(lift(lambda p, q, r: app("where", [p, q, r]), list(t.args), 1 << 40))
        if a.op == "app" and a.val == "zeros_like":
            return self(app("where", [c, const(0), b]))
        if a.op == "app" and a.val == "ones_like":
            return self(app("where", [c, const(1), b]))
        if a.op == "app" and a.val == "full_like" and len(a.args) == 2:
            return self(app("where", [c, a.args[1], b]))
        if c.op == "app" and c.val == "and" and len(c.args) == 2:
            x, y = sorted(c.args, key=lambda z: z.id)
            return app("where", [x, app("where", [y, a, b]), b])
        return None

    def r_min(self, t):
        if len(t.args) == 2 and not any(a.op == "kw" for a in t.args):
            a, b = t.args
            return ite(lt0(sub(a, b)), a, b)

    def r_max(self, t):
        if len(t.args) == 2 and not any(a.op == "kw" for a in t.args):
            a, b = t.args
            return ite(lt0(sub(b, a)), a, b)

    def minmax(self, t):
        c, a, b = t.args
        if a.op != "ite" and b.op != "ite":
            for x, y in ((a, b), (b, a)):
                if c is lt0(sub(x, y)) or c is le0(sub(x, y)) or c is not_(lt0(sub(y, x))):
                    k = "min" if x is a else "max"
                    p, q = sorted((a, b), key=lambda z: z.id)
                    return ite(lt0(sub(p, q)), p, q) if k == "min" else ite(lt0(sub(q, p)), p, q)
        return t

    def poly(self, t):
        hot = [a for m, c in t.val for a, e in m if a.op == "ite"]
        if hot and len({s.args[0] for x in hot for s in ites(x)}) <= 8:
            hot = list(dict.fromkeys(hot))
            def put(*p):
                mp = dict(zip(hot, p))
                return add([mul([const(c)] + [power(mp.get(a, a), const(e)) for a, e in m]) for m, c in t.val])
            return self(lift(put, hot, 1 << 40))
        if len(t.val) == 1:
            m, c = t.val[0]
            ls = [(a, e) for a, e in m if a.op == "list"]
            if len(ls) == 1 and ls[0][1] == 1 and len(ls[0][0].args) <= 8:
                rest = [power(a, const(e)) for a, e in m if a.op != "list"]
                return mk("list", None, [self(mul([const(c), x] + rest)) for x in ls[0][0].args])
        out, hit = [], False
        for m, c in t.val:
            hot = [(a, e) for a, e in m if a.op == "store" and a.args[0].op == "app" and a.args[0].val == "zeros"]
            if len(hot) == 1 and hot[0][1] == 1:
                s = hot[0][0]
                hit = True
                out.append(app("onehot", [s.args[1], mul([const(c), s.args[2]] + [power(a, const(e)) for a, e in m if a is not s])]))
            else:
                out.append(vg._poly({m: c}))
        if hit:
            return add(out)
        return t

    def columns(self, t):
        """zeros((n, k)) with every column written == stack of the columns"""
        b, cols = t, {}
        while b.op == "store":
            ix = b.args[1]
            if not (ix.op == "tuple" and len(ix.args) == 2 and is_full(ix.args[0]) and as_int(ix.args[1]) is not None):
                return t
            cols.setdefault(as_int(ix.args[1]), b.args[2])
            b = b.args[0]
        if b.op == "app" and b.val == "cast":
            b = b.args[0]
        if b.op == "app" and b.val in ("zeros", "empty") and b.args[0].op == "tuple" and len(b.args[0].args) == 2:
            k = as_int(b.args[0].args[1])
            if k is not None and set(cols) == set(range(k)):
                return app("stack", [mk("list", None, [cols[i] for i in range(k)]), const(1)])
        return t

    def ellipsis(self, t):
        p = index_parts(t.args[1])
        if is_num(t.args[0]):
            return t.args[0]
        e = [i for i, x in enumerate(p) if x is const(Ellipsis)]
        if len(e) == 1 and not any(x is NONE for x in p):
            k = self.ndim - (len(p) - 1)
            if k >= 0:
                full = mk_slice(NONE, NONE)
                return mk_idx(t.args[0], mk_index(p[:e[0]] + [full] * k + p[e[0] + 1:]))
        return t

    def scatter(self, n, fi, phi, init, body):
        """for i: x[ix] = x[ix] + v   ==  x + sum of one-hot terms"""
        if body.op == "store" and body.args[0] is phi:
            v = sub(body.args[2], mk_idx(phi, body.args[1]))
            if phi not in free_syms(v) | free_syms(body.args[1]):
                return add([init, app("sum", [mk_map(n, fi, app("onehot", [body.args[1], v]))])])
        if body.op == "poly":
            v = sub(body, phi)
            if phi not in free_syms(v):
                return add([init, app("sum", [mk_map(n, fi, v)])])
        return None

    def r_listof(self, t):
        return t.args[0]

    def masked(self, n, fi, phi, init, body):
        """for i: for j: if c(x[i, j]): x[i, j] = v   ==  where(c(x), v, x)"""
        ix, leaf = [fi], body
        phi2 = phi
        while leaf.op == "loop" and leaf.val[1] == 1 and leaf.args[3] is FALSE and leaf.args[1] is phi2 and len(ix) < 3:
            k = leaf.val[0]
            j, p = fresh("i"), fresh("s")
            nxt = subst(leaf.args[2], {bv(k, 0): j, bv(k, 1): p})
            if phi2 in free_syms(nxt):
                return None
            ix.append(j)
            phi2, leaf = p, nxt
        at = mk_index(ix)
        fl = []

        def cell(t):
            mp = {}
            for s in subterms(t):
                if s.op == "idx" and s.args[1] is at and phi2 in free_syms(s.args[0]):
                    mp[s] = subst(s.args[0], {phi2: init})
            r = subst(t, mp)
            if free_syms(r) & (set(ix) | {phi2}):
                fl.append(r)
            return r

        def go(t):
            if t is phi2:
                return init
            if t.op == "ite":
                return app("where", [cell(t.args[0]), go(t.args[1]), go(t.args[2])])
            if t.op == "store" and t.args[0] is phi2 and t.args[1] is at:
                return cell(t.args[2])
            fl.append(t)
            return t

        if leaf.op not in ("ite", "store"):
            return None
        r = go(leaf)
        return None if fl else self(r)


def ites(t):
    """the decision nodes above the leaves of t"""
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.op == "ite" and x not in out:
            out.add(x)
            todo.extend(x.args[1:])
    return out


def equal_lengths(*ts):
    """sequences walked in step are taken to have the same length"""
    up = {}

    def find(x):
        while x in up:
            x = up[x]
        return x

    for t in ts:
        for s in subterms(t):
            if s.op == "app" and s.val == "minlen":
                r = [find(x) for x in s.args]
                top = min(r, key=lambda z: z.id)
                for x in r:
                    if x is not top:
                        up[x] = top
    out = {x: find(x) for x in up}
    for t in ts:
        for s in subterms(t):
            if s.op == "app" and s.val == "minlen":
                out[s] = find(s.args[0])
    return out


def excused(a, b, same):
    if relaxed_same(a, b, same):
        return True
    at = sorted(settings(a) | settings(b), key=lambda t: t.id)
    return 0 < len(at) <= 10 and by_case(a, b, at, same, [96], time.time() + 60)


def settings(t):
    """decisions that depend on nothing but configuration entries"""
    return {s.args[0] for s in subterms(t) if s.op == "ite" and s.args[0].op in ("eq", "truthy", "isnone")
            and all(x.op in ("attr", "sym", "const", "eq", "truthy", "isnone") and not str(x.val).startswith("%") for x in subterms(s.args[0]))}


def by_case(a, b, at, same, budget, until):
    if a is b:
        return True
    at = [x for x in at if x in set(subterms(a)) | set(subterms(b))]
    if not at:
        budget[0] -= 1
        return budget[0] >= 0 and time.time() < until and (same(a, b) or relaxed_same(a, b, same))
    c, rest = at[0], at[1:]
    for k in (TRUE, FALSE):
        mp = {c: k}
        if k is TRUE and c.op == "eq":
            # one entry has one value
            for x in rest:
                if x.op == "eq" and len(set(x.args) | set(c.args)) == 3 and all(y.op == "const" for y in set(x.args) ^ set(c.args)):
                    mp[x] = FALSE
        if not by_case(subst(a, mp), subst(b, mp), [x for x in rest if x not in mp], same, budget, until):
            return False
    return True


def relaxed_same(a, b, same):
    lens = equal_lengths(a, b)
    vecs = {s.args[0] for t in (a, b) for s in subterms(t) if s.op == "app" and s.val == "len" and len(s.args) == 1 and s.args[0].op in ("sym", "attr")}
    for nd in (4, 3):
        try:
            x, y = Relax(nd, lens, vecs)(a), Relax(nd, lens, vecs)(b)
        except RecursionError:
            return False
        if (x is not a or y is not b) and same(x, y):
            return True
    return False
