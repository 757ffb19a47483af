"""Smart constructors: every term is built through these, so that equal values
written differently get the same node."""
from .vg import *
from . import vg

FULL = None


def mk_slice(a, b, c=None):
    c = c or NONE
    if a.op == "const" and as_int(a) == 0:
        a = NONE
    if is_num(c) and num(c) == 1:
        c = NONE
    return mk("slice", None, (a, b, c))


def is_full(t):
    return t.op == "slice" and all(x is NONE for x in t.args)


def is_maskish(t):
    if t.op in ("lt0", "le0", "eq0", "ne0", "eq", "ne", "list", "map", "truthy"):
        return True
    if t.op == "app" and t.val in ("and", "or", "not", "isnan", "isinf", "where", "nonzero", "argsort", "logical_not", "xor"):
        return True
    return False


def index_parts(i):
    return list(i.args) if i.op == "tuple" else [i]


def mk_index(parts):
    parts = list(parts)
    while len(parts) > 1 and is_full(parts[-1]):
        parts.pop()
    if len(parts) == 1:
        return parts[0]
    return mk("tuple", None, parts)


def mk_idx(base, index):
    if index.op == "tuple" and any(p.op == "ite" and any(x.op == "slice" for x in ite_leaves(p)) for p in index.args):
        n = len(index.args)
        return lift(lambda b, *p: _idx(b, mk("tuple", None, p)), [base] + list(index.args))
    return lift(_idx, [base, index])


def _idx(base, index):
    if base.op == "bot" or index.op == "bot":
        return BOT
    if index.op == "tuple":
        index = mk_index(index.args)
    ci = as_int(index)
    op = base.op
    if is_str(base) and ci is not None and -len(pyconst(base)) <= ci < len(pyconst(base)):
        return const(pyconst(base)[ci])
    if op in ("list", "tuple"):
        n = len(base.args)
        if ci is not None and -n <= ci < n:
            return base.args[ci]
        if n == 1 and index.op == "sym" and index.val.startswith("%i"):
            return base.args[0]     # a loop index into a single element
        if index.op == "slice":
            v = [pyconst(x) for x in index.args]
            if all(x is None or (not isinstance(x, vg._NC) and x.denominator == 1) for x in v):
                v = [None if x is None else int(x) for x in v]
                return mk(op, None, base.args[slice(*v)])
    if op == "cat":
        if ci is not None:
            if ci >= 0:
                k = ci
                for p in base.args:
                    if p.op in ("list", "tuple"):
                        if k < len(p.args):
                            return p.args[k]
                        k -= len(p.args)
                    else:
                        break
            else:
                k = -ci
                for p in reversed(base.args):
                    if p.op in ("list", "tuple"):
                        if k <= len(p.args):
                            return p.args[-k]
                        k -= len(p.args)
                    else:
                        break
        elif index.op not in ("slice", "tuple") and base.args[0].op in ("list", "tuple") and len(base.args) == 2:
            pass
    if op == "map" and index.op not in ("slice", "tuple") and not is_maskish(index):
        if ci is not None and ci < 0:
            return open_map(base, sub(base.args[0], const(-ci)))
        return open_map(base, index)
    if op == "map" and index.op == "tuple" and not is_maskish(index.args[0]) and index.args[0].op != "slice":
        return mk_idx(mk_idx(base, index.args[0]), mk_index(index.args[1:]))
    if op == "map" and index.op == "slice":
        a, b, c = index.args
        if c is NONE and (a is NONE or (is_num(a) and num(a) >= 0)) :
            n = base.args[0]
            lo = const(0) if a is NONE else a
            hi = None
            if b is NONE:
                hi = n
            elif is_num(b) and num(b) < 0:
                hi = add([n, b])
            if hi is not None:
                f = fresh()
                return mk_map(sub(hi, lo), f, open_map(base, add([f, lo])))
    if op == "dict":
        if has_const(index):
            for kv in reversed(base.args):
                if kv.op == "kv" and kv.args[0] is index:
                    return kv.args[1]
    if op == "store":
        b, j, v = base.args
        if j is index:
            return v
        cj = as_int(j)
        if (cj is not None and ci is not None and cj >= 0 and ci >= 0 and ci != cj) or (
            is_str(j) and is_str(index) and j is not index
        ):
            return mk_idx(b, index)
    if op == "app" and base.val == "shape" and ci == 0:
        return mk_len(base.args[0])
    if op == "app" and ci == 0 and (base.val == "os.path.splitext" or base.val == "split" and len(base.args) == 2 and is_str(base.args[1]) and len(pyconst(base.args[1])) > 1 and pyconst(base.args[1]).startswith(".")):
        return app("stem", [base.args[0]])
    if index.op == "tuple" and len(index.args) == 2 and index.args[0] is const(Ellipsis) and as_int(index.args[1]) == 0:
        d = drop_last(base)
        if d is not None:
            return d
    if op == "idx" and is_str(base.args[1]) and not is_str(index) and index.op not in ("slice", "tuple") and base.args[0].op == "app" and is_frame(base.args[0]):
        return mk_idx(mk_idx(mk("attr", "iloc", (base.args[0],)), index), base.args[1])
    if op == "attr" and base.val == "iloc" and base.args[0].op == "idx" and is_str(base.args[0].args[1]):
        return mk_idx(mk_idx(mk("attr", "iloc", (base.args[0].args[0],)), index), base.args[0].args[1])
    if op == "app" and base.val == "cplx" :
        pass
    if op == "idx" and not is_str(index):
        x, i0 = base.args
        if not is_str(i0):
            p0 = index_parts(i0)
            p1 = index_parts(index)
            if all(_basic(p) for p in p0) and all(_basicj(p) for p in p1):
                r = _compose(p0, p1)
                if r is not None:
                    return mk_idx(x, mk_index(r))
    return mk("idx", None, (base, index))


def _basic(p):
    if p.op == "slice":
        return True
    return not is_maskish(p) and not (p.op == "const" and not is_num(p)) and p.op not in ("list", "tuple")


def _basicj(p):
    return _basic(p)


def _compose(p0, p1):
    p1 = list(p1)
    out = []
    for p in p0:
        if p.op == "slice" and p1:
            j = p1.pop(0)
            if is_full(p):
                out.append(j)
            elif is_full(j):
                out.append(p)
            elif p.args[1] is NONE and p.args[2] is NONE and (not is_num(p.args[0]) or num(p.args[0]) >= 0) and j.op != "slice" and (not is_num(j) or num(j) >= 0):
                out.append(add([p.args[0], j]))
            elif p.args[0] is NONE and p.args[2] is NONE and j.op != "slice" and is_num(j) and num(j) >= 0:
                out.append(j)
            else:
                return None
        else:
            out.append(p)
    return out + p1


# ------------------------------------------------------------------ sequences
def mk_map(n, var, body):
    """Close `body` over the fresh symbol `var`."""
    if n.op == "ite" and leaves(n) <= 8:
        return lift(lambda m: mk_map(m, var, body), [n])
    ci = as_int(n)
    if ci is not None and 0 <= ci <= 12:
        return mk("list", None, [subst(body, {var: const(k)}) for k in range(ci)])
    if body.op == "ite":
        at = indep_atom(body, var)
        if at is not None:
            return ite(at, mk_map(n, var, assume(body, at, True)), mk_map(n, var, assume(body, at, False)))
    if body.op == "bot":
        return body
    # eta: map(len(x), x[i]) -> x
    if body.op == "idx" and body.args[1] is var and var not in free_syms(body.args[0]) and mk_len(body.args[0]) is n:
        return body.args[0]
    k = body.hgt + 1
    return mk("map", k, (n, subst(body, {var: bv(k)})))


def indep_atom(t, var, memo=None):
    """smallest gate atom of an ite tree that does not mention var"""
    best = None
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op != "ite" or x in seen:
            continue
        seen.add(x)
        a = x.args[0]
        if var not in free_syms(a) and (best is None or a.id < best.id):
            best = a
        stack.append(x.args[1])
        stack.append(x.args[2])
    return best


def open_map(m, i):
    return subst(m.args[1], {bv(m.val): i})


def subst_binder(t, mapping):
    if t.op == "map":
        f = fresh()
        body = subst(t.args[1], {bv(t.val): f})
        return mk_map(subst(t.args[0], mapping), f, subst(body, mapping))
    if t.op == "lastval":
        f = fresh()
        init, n, body = t.args
        body = subst(body, {bv(t.val): f})
        return mk_lastval(subst(init, mapping), subst(n, mapping), f, subst(body, mapping))
    # loop / while : args = (n_or_cond, inits..., bodies..., brk) ; val=(k,m,j)
    k, m, j = t.val
    fi = fresh()
    fs = [fresh() for _ in range(m)]
    mp = {bv(k, 0): fi}
    for q, f in enumerate(fs):
        mp[bv(k, q + 1)] = f
    n = t.args[0]
    inits = [subst(a, mapping) for a in t.args[1:1 + m]]
    bodies = [subst(subst(a, mp), mapping) for a in t.args[1 + m:1 + 2 * m]]
    brk = subst(subst(t.args[1 + 2 * m], mp), mapping)
    if t.op == "loop":
        n = subst(n, mapping)
    else:
        n = subst(subst(n, mp), mapping)
    return mk_loop(t.op, n, fi, fs, inits, bodies, brk, j)


def mk_lastval(init, n, var, body):
    if var not in free_syms(body):
        pass
    k = body.hgt + 1
    return mk("lastval", k, (init, n, subst(body, {var: bv(k)})))


def mk_loop(op, n, fi, fs, inits, bodies, brk, j):
    """General recurrence. Keep only the state needed for component j."""
    if op == "loop":
        first = eq0(fi)
        if any(first in set(subterms(b)) for b in bodies) and all(subst(b, {fi: const(0)}) is f for b, f in zip(bodies, fs)) and subst(brk, {fi: const(0)}) is FALSE:
            # nothing happens in the first round: start with the second
            g = fresh()
            up = {fi: add([g, const(1)])}
            # eq0(g + 1) is false for an index
            sub_ = lambda t: subst(subst(t, {first: FALSE}), up)
            return mk_loop(op, sub(n, const(1)), g, fs, inits, [sub_(b) for b in bodies], sub_(brk), j)
    # dependency closure
    # bisimilar components (same start, same step) are one component
    cls = {}
    for d in range(len(fs)):
        cls.setdefault(inits[d], []).append(d)
    groups = list(cls.values())
    if any(len(g) > 1 for g in groups):
        while True:
            rep = {fs[d]: fs[g[0]] for g in groups for d in g}
            new = []
            for g in groups:
                parts = {}
                for d in g:
                    parts.setdefault(subst(bodies[d], rep), []).append(d)
                new.extend(parts.values())
            if len(new) == len(groups):
                break
            groups = new
        if any(len(g) > 1 for g in groups):
            bodies = [subst(b, rep) for b in bodies]
            brk = subst(brk, rep)
            if op == "while":
                n = subst(n, rep)
            j = next(g[0] for g in groups if j in g)
    order = [j]
    seen = {j}
    extra = free_syms(brk) | (free_syms(n) if op == "while" else frozenset())
    pending = [j]
    def deps(terms):
        out = []
        for f_i, f in enumerate(fs):
            if any(f in free_syms(t) for t in terms):
                out.append(f_i)
        return out
    for d in deps([brk] + ([n] if op == "while" else [])):
        if d not in seen:
            seen.add(d)
            order.append(d)
    q = 0
    while q < len(order):
        for d in deps([bodies[order[q]]]):
            if d not in seen:
                seen.add(d)
                order.append(d)
        q += 1
    # canonical order: j first, then structurally by (init id, body id with placeholders)
    first, rest = order[0], order[1:]
    ph = {f: sym("%ph") for f in fs}
    rest.sort(key=lambda d: (inits[d].id, subst(bodies[d], ph).id))
    order = [first] + rest
    m = len(order)
    allb = [bodies[d] for d in order] + [brk] + ([n] if op == "while" else [])
    k = max(b.hgt for b in allb) + 1
    mp = {fi: bv(k, 0)}
    for q, d in enumerate(order):
        mp[fs[d]] = bv(k, q + 1)
    nb = [subst(bodies[d], mp) for d in order]
    nn = subst(n, mp) if op == "while" else n
    return mk(op, (k, m, 0), tuple([nn] + [inits[d] for d in order] + nb + [subst(brk, mp)]))


def _small(parts, limit=48):
    n = 1
    for p in parts:
        if p.op == "ite":
            n *= leaves(p)
            if n > limit:
                return False
    return True


def mk_cat(parts):
    out = []
    for p in parts:
        if p.op == "cat":
            for q in p.args:
                _catpush(out, q)
        elif p.op == "ite" and _small(parts):
            return lift(lambda *ps: mk_cat(list(ps)), parts)
        else:
            _catpush(out, p)
    if not out:
        return mk("list", None, ())
    if len(out) == 1:
        return out[0]
    return mk("cat", None, out)


def _catpush(out, p):
    if p.op in ("list", "tuple"):
        if not p.args:
            return
        if out and out[-1].op == "list":
            out[-1] = mk("list", None, out[-1].args + p.args)
            return
        p = mk("list", None, p.args)
    out.append(p)


# nesting of results of functions that are themselves compared with their reference
LENGTHS = {"TRCWA.Solve_FieldFourier": (None, 2, 3)}


def leafwise(fn, x, memo=None):
    """fn on every leaf of a conditional, shared parts once"""
    memo = {} if memo is None else memo
    if x.op != "ite":
        return fn(x)
    r = memo.get(x)
    if r is None:
        r = memo[x] = ite(x.args[0], leafwise(fn, x.args[1], memo), leafwise(fn, x.args[2], memo))
    return r


def mk_len(x):
    if x.op == "ite":
        return leafwise(mk_len, x)
    if x.op == "idx" and x.args[0].op == "app" and x.args[0].val in LENGTHS:
        p, d = index_parts(x.args[1]), LENGTHS[x.args[0].val]
        if len(p) < len(d) and not any(q.op == "slice" or is_maskish(q) for q in p):
            return const(d[len(p)])
    if x.op in ("list", "tuple", "set", "dict"):
        return const(len(x.args))
    if x.op == "map":
        return x.args[0]
    if x.op == "cat":
        return add([mk_len(p) for p in x.args])
    if x.op == "app" and x.val == "flat" and x.args[0].op == "map":
        f = fresh()
        b = mk_len(open_map(x.args[0], f))
        if not any(s.op == "app" and s.val == "len" for s in subterms(b) if f in free_syms(s)):
            return app("sum", [mk_map(x.args[0].args[0], f, b)])
    if x.op == "app" and x.val == "meshgrid" and not any(a.op == "kw" for a in x.args):
        return mk_len(x.args[0]) if len(x.args) == 1 else const(len(x.args))
    if x.op == "store":
        return mk_len(x.args[0])
    if is_str(x):
        return const(len(pyconst(x)))
    if x.op == "app" and x.val in ("sort", "sorted", "abs", "exp", "real", "imag", "square", "listof", "reversed"):
        return mk_len(x.args[0])
    if x.op == "poly":
        # elementwise: length of the single non-scalar atom if it is evident
        cands = set()
        for mono, _ in x.val:
            for a, _e in mono:
                if _seqlike(a):
                    cands.add(mk_len(a))
        if len(cands) == 1:
            return cands.pop()
    if x.op == "app" and x.val in ("linspace", "logspace") and len(x.args) >= 3:
        return x.args[2]
    if x.op == "app" and x.val in ("zeros", "ones", "rand", "randn", "empty", "full"):
        sh = x.args[0]
        if sh.op in ("tuple", "list") and sh.args:
            return sh.args[0]
        if sh.op not in ("tuple", "list"):
            return sh
    return mk("app", "len", (x,))


def _seqlike(a):
    if a.op in ("map", "list", "cat"):
        return True
    if a.op == "app" and a.val in ("sort", "linspace", "logspace", "arange"):
        return True
    return False


# -------------------------------------------------------------------- stores
def mk_store(base, index, v):
    if base.op == "bot" or v.op == "bot":
        return BOT
    if index.op == "tuple":
        index = mk_index(index.args)
    if index.op == "ite" and leaves(index) * leaves(base) <= 32 and all(is_maskish(x) and x.op not in ("list", "map") for x in ite_leaves(index)):
        return lift(lambda b, i: mk_store(b, i, v), [base, index])
    if index.op == "ite" and leaves(index) <= 64 and all(is_maskish(x) and x.op not in ("list", "map") for x in ite_leaves(index)):
        c = index.args[0]
        return ite(c, *[mk_store(assume(base, c, k), assume(index, c, k), assume(v, c, k)) for k in (True, False)])
    if is_maskish(index) and index.op not in ("list", "map"):
        # masked assignment == elementwise select
        memo = {}
        v2 = _unmask(v, index)
        return app("where", [index, v2, base])
    if base.op in ("list",) and as_int(index) is not None:
        i = as_int(index)
        n = len(base.args)
        if -n <= i < n:
            a = list(base.args)
            a[i] = v
            return mk("list", None, a)
    if is_full(index) and base.op == "app" and base.val in ("zeros",):
        return app("fill", [base, v])
    if base.op == "store" and base.args[1] is index:
        base = base.args[0]
    # commute stores at distinct constant indices into index order
    if base.op == "store":
        j = base.args[1]
        cj, ci = as_int(j), as_int(index)
        if cj is not None and ci is not None and cj >= 0 and ci >= 0 and ci < cj:
            return mk("store", None, (mk_store(base.args[0], index, v), j, base.args[2]))
        if is_str(j) and is_str(index) and pyconst(index) < pyconst(j):
            return mk("store", None, (mk_store(base.args[0], index, v), j, base.args[2]))
    return mk("store", None, (base, index, v))


def _unmask(v, mask):
    mp = {}
    for s in subterms(v):
        if s.op == "idx" and s.args[1] is mask:
            mp[s] = s.args[0]
    if not mp:
        return v
    return subst(v, mp)


# ------------------------------------------------------------------ external ops
COMMUT = {"and", "or", "maximum", "minimum", "max", "min", "xor", "isclose", "allclose", "minlen", "bitand", "bitor"}


def app(name, args, kws=None):
    args = list(args)
    if kws:
        for k in sorted(kws):
            args.append(mk("kw", k, (kws[k],)))
    return _lift_app(name, args)


def _lift_app(name, args):
    tot = 1
    nolift = name in ("where", "throws")
    if not nolift:
        for a in args:
            b = a.args[0] if a.op == "kw" else a
            if b.op == "ite":
                tot *= leaves(b)
                if tot > 32:
                    return _app(name, args)
    if tot == 1:
        return _app(name, args)
    kwn = [a.val if a.op == "kw" else None for a in args]
    raw = [a.args[0] if a.op == "kw" else a for a in args]
    return lift(lambda *x: _app(name, [mk("kw", k, (y,)) if k else y for k, y in zip(kwn, x)]), raw, 32)


def _app(name, args):
    if name == "shape" and len(args) == 1 and args[0].op == "app" and args[0].val == "cast" and args[0].args:
        return _app(name, [args[0].args[0]])
    for a in args:
        if a.op == "bot" or (a.op == "kw" and a.args[0].op == "bot"):
            return BOT
    if name == "minlen" and any(a.op == "app" and a.val == "minlen" for a in args):
        args = [y for a in args for y in (a.args if a.op == "app" and a.val == "minlen" else (a,))]
        args = sorted(set(args), key=lambda t: t.id)
    if name == "minlen" and args and all(a is args[0] for a in args):
        return args[0]
    f = SIMPL.get(name)
    if f is not None:
        r = f(args)
        if r is not None:
            return r
    if name in COMMUT and not any(a.op == "kw" for a in args) and len(args) >= 2:
        flat = []
        for a in args:
            if a.op == "app" and a.val == name and not any(x.op == "kw" for x in a.args) and name in ("and", "or", "max", "min", "maximum", "minimum"):
                flat.extend(a.args)
            else:
                flat.append(a)
        uniq = []
        for a in sorted(flat, key=lambda t: t.id):
            if not uniq or uniq[-1] is not a:
                uniq.append(a)
        if len(uniq) == 1 and name in ("and", "or", "max", "min", "maximum", "minimum"):
            return uniq[0]
        if len(uniq) == 1:
            uniq = uniq * 2
        args = uniq
    return mk("app", name, args)


SIMPL = {}


def simpl(*names):
    def deco(f):
        for n in names:
            SIMPL[n] = f
        return f
    return deco


@simpl("abs")
def _abs(args):
    if len(args) != 1:
        return None
    x = args[0]
    if is_num(x):
        return const(abs(num(x)))
    if x.op == "poly":
        lead = x.val[0][1]
        if len(x.val) == 1:
            m = x.val[0][0]
            return scale(mk("app", "abs", (vg._poly({m: Fraction(1)}),)), abs(lead)) if abs(lead) != 1 or lead < 0 else None
        if lead < 0:
            return mk("app", "abs", (neg(x),))
    if x.op == "app" and x.val == "abs":
        return x
    return None


def _reim_linear(x, which):
    """real / imag are additive and homogeneous over the rationals; multiplication by 1j swaps them"""
    if x.op != "poly":
        return None
    if len(x.val) == 1 and x.val[0][1] == 1 and not any(a is vg.IMAG for a, _ in x.val[0][0]):
        return None
    if len(x.val) > 24:
        return None
    out = []
    for m, c in x.val:
        rest = tuple((a, e) for a, e in m if a is not vg.IMAG)
        swap = len(rest) != len(m)
        r = vg._poly({rest: Fraction(1)})
        if swap:
            if any(e != 1 for a, e in m if a is vg.IMAG):
                return None
            t = app("imag", [r]) if which == "real" else app("real", [r])
            out.append(mul([const(-c if which == "real" else c), t]))
        else:
            out.append(mul([const(c), app(which, [r])]))
    return add(out)


@simpl("real")
def _real(args):
    x = args[0]
    if len(args) == 1:
        r = _reim_linear(x, "real")
        if r is not None:
            return r
        if x.op == "app" and x.val == "cplx":
            return x.args[0]
        if x.op == "app" and x.val in ("real", "imag", "abs"):
            return x
        if is_num(x):
            return x
        if x.op == "idx" and not is_str(x.args[1]):
            return mk_idx(app("real", [x.args[0]]), x.args[1])
    return None


@simpl("imag")
def _imag(args):
    x = args[0]
    if len(args) == 1:
        r = _reim_linear(x, "imag")
        if r is not None:
            return r
        if x.op == "app" and x.val in ("real", "imag", "abs"):
            return const(0)
        if x.op == "app" and x.val == "cplx":
            return x.args[1]
        if is_num(x):
            return const(0)
        if x.op == "idx" and not is_str(x.args[1]):
            return mk_idx(app("imag", [x.args[0]]), x.args[1])
    return None


@simpl("len")
def _len(args):
    r = mk_len(args[0])
    if r.op == "app" and r.val == "len":
        return None if True else r
    return r


@simpl("int")
def _int(args):
    x = args[0]
    if len(args) == 1:
        if is_num(x):
            return const(int(num(x)))
        if x.op == "app" and x.val in ("int", "len", "floordiv"):
            return x
        if x.op in ("lt0", "eq0", "le0", "eq", "in", "truthy") or x.op == "app" and x.val in BOOL_APPS:
            return ite(x, const(1), const(0))
        if x.op == "poly" and len(x.val) == 1 and len(x.val[0][0]) == 1 and x.val[0][1].numerator == 1:
            (a, e), = x.val[0][0]
            if e == 1 and a.op == "app" and a.val == "len":
                return app("floordiv", [a, const(x.val[0][1].denominator)])
        if x.op == "idx" and x.args[0].op == "app" and x.args[0].val == "arange" and len(x.args[0].args) == 2:
            return x        # positions of an integer range
    return None


def _dtype(d):
    if d.op == "ext" and d.val in ("builtins.float", "builtins.complex", "builtins.bool"):
        return mk("dtype", {"float": "float64", "complex": "complex128", "bool": "bool"}[d.val.split(".")[1]])
    if d.op == "ext" and d.val == "builtins.int":
        return mk("dtype", "int64")
    return d


@simpl("cast")
def _cast(args):
    if len(args) != 2:
        return None
    x, d = args
    d2 = _dtype(d)
    if d2.op == "const":
        return x        # no dtype requested
    if d2.op == "ext" and d2.val.endswith("get_default_dtype") or d2.op == "app" and str(d2.val).endswith("get_default_dtype"):
        return x        # working precision of the library
    if x.op == "app" and x.val == "cast" and x.args[1] is d2:
        return x
    if is_num(x) and d2.op == "dtype" and d2.val.startswith(("float", "complex")):
        return x
    return app("cast", [x, d2]) if d2 is not d else None


@simpl("to")
def _to(args):
    """x.to(dtype=...), x.to(device): the device does not change the value"""
    if not args:
        return None
    x, rest = args[0], list(args[1:])
    pos = [a for a in rest if a.op != "kw"]
    dt = [a.args[0] for a in rest if a.op == "kw" and a.val == "dtype"] + [a for a in pos if a.op == "dtype" or a.op == "ext" and _dtype(a).op == "dtype"]
    other = [a for a in rest if a.op == "kw" and a.val not in ("dtype", "device", "copy", "non_blocking")] + [a for a in pos if not is_str(a) and a not in dt and not (a.op == "attr" and a.val == "device")]
    if other:
        return None
    return app("cast", [x, dt[0]]) if dt else x


@simpl("float")
def _float(args):
    if len(args) == 1 and is_num(args[0]):
        return args[0]
    return None


@simpl("max")
def _max(args):
    if len(args) >= 2 and all(is_num(a) for a in args):
        return const(max(num(a) for a in args))
    if len(args) == 1 and args[0].op in ("list", "tuple") and args[0].args:
        return app("max", list(args[0].args))


@simpl("min")
def _min(args):
    if len(args) >= 2 and all(is_num(a) for a in args):
        return const(min(num(a) for a in args))
    if len(args) == 1 and args[0].op in ("list", "tuple") and args[0].args:
        return app("min", list(args[0].args))


@simpl("sum")
def _sum(args):
    if len(args) == 1:
        x = args[0]
        if x.op in ("list", "tuple"):
            return add(list(x.args))
        if x.op == "cat":
            return add([app("sum", [p]) for p in x.args])
        if x.op == "map":
            return _sum_map(x)
    return keepdim(args, "sum")


def _sum_map(x):
    """sum over a map: pull out constant factors and split sums."""
    k = x.val
    v = bv(k)
    n, body = x.args
    if not occurs(v, body):
        return mul([n, body])
    if body.op == "ite":
        f = fresh()
        ob = open_map(x, f)
        monos = []
        for lf in ite_leaves(ob):
            for m in to_dict(lf):
                if m not in monos:
                    monos.append(m)
        if len(monos) > 12:
            return None
        out = []
        for m in monos:
            tree = lift(lambda lf, m=m: const(to_dict(lf).get(m, Fraction(0))), [ob], 64)
            for k in {num(c) for c in ite_leaves(tree) if is_num(c)}:
                if k == 0:
                    continue
                cond = lift(lambda lf, k=k: TRUE if num(lf) == k else FALSE, [tree], 64)
                if cond is TRUE:
                    out.append(_sum1(n, f, vg._poly({m: k})))
                    continue
                inv, dep = {}, {}
                for a, e in m:
                    (dep if f in free_syms(a) else inv)[a] = e
                cd, md = vg._norm_mono(dep)
                ci, mi = vg._norm_mono(inv)
                bd_ = ite(cond, vg._poly({md: Fraction(1)}), const(0))
                out.append(mul([const(k * cd * ci), vg._poly({mi: Fraction(1)}), mk("app", "sum", (mk_map(n, f, bd_),))]))
        return add(out) if out else const(0)
    if body.op == "poly":
        f = fresh()
        ob = open_map(x, f)
        d = to_dict(ob)
        if len(d) > 1:
            return add([_sum1(n, f, vg._poly({m: c})) for m, c in d.items()])
        return _sum1(n, f, ob)
    return None


def ite_leaves(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            stack.extend(x.args[1:])
        else:
            out.append(x)
    return out


def _sum1(n, f, term):
    d = to_dict(term)
    (m, c), = d.items() if len(d) == 1 else ((((), 0),))
    inv, dep = {}, {}
    for a, e in m:
        (dep if f in free_syms(a) else inv)[a] = e
    if not dep:
        return mul([n, term])
    cd, md = vg._norm_mono(dep)
    ci, mi = vg._norm_mono(inv)
    inner = vg._poly({md: Fraction(1)})
    return mul([const(c * cd * ci), vg._poly({mi: Fraction(1)}), mk("app", "sum", (mk_map(n, f, inner),))])


@simpl("any")
def _any(args):
    if len(args) == 1:
        x = args[0]
        if x.op in ("list", "tuple"):
            r = FALSE
            for a in x.args:
                r = or_(r, gate(a))
            return r
        if x.op == "map" and x.args[1] in (TRUE, FALSE):
            if x.args[1] is FALSE:
                return FALSE
        if x.op == "map":
            f = fresh()
            b = open_map(x, f)
            if b.op in ("le0", "ne0", "ne"):
                return app("any", [mk_map(x.args[0], f, gate(b))])
    return None


@simpl("all")
def _all(args):
    if len(args) == 1:
        x = args[0]
        if x.op in ("list", "tuple"):
            r = TRUE
            for a in x.args:
                r = and_(r, gate(a))
            return r
        if x.op == "map":
            f = fresh()
            b = open_map(x, f)
            return not_(app("any", [mk_map(x.args[0], f, not_(gate(b)))]))
    return None


@simpl("matmul")
def _matmul(args):
    """matrix product: associative, bilinear; numeric factors in front"""
    if any(is_num(a) or a.op in ("kw", "ite") for a in args):
        return None
    flat = []
    for a in args:
        if a.op == "app" and a.val == "matmul" and not any(x.op == "kw" for x in a.args):
            flat.extend(a.args)
        else:
            flat.append(a)
    # distribute over sums and pull numeric coefficients
    tot = 1
    for a in flat:
        if a.op == "poly":
            tot *= max(1, len(a.val))
    if tot > 64 or not any(a.op == "poly" and (len(a.val) > 1 or a.val[0][1] != 1) for a in flat):
        flat = [a for a in flat if not (a.op == "app" and a.val == "eye")] or flat[:1]
        if len(flat) == 1:
            return flat[0]
        return mk("app", "matmul", flat)
    rows = [(Fraction(1), [])]
    for a in flat:
        terms = [(c, vg._poly({m: Fraction(1)})) for m, c in a.val] if a.op == "poly" else [(Fraction(1), a)]
        rows = [(c0 * c1, r + [t]) for c0, r in rows for c1, t in terms]
    out = []
    for c, r in rows:
        if any(is_num(x) for x in r):
            return mk("app", "matmul", flat)
        out.append(mul([const(c), app("matmul", r)]))
    return add(out)


@simpl("where")
def _where(args):
    if len(args) == 3:
        if args[0] is TRUE:
            return args[1]
        if args[0] is FALSE:
            return args[2]
        if args[1] is args[2]:
            return args[1]
        m = args[0]
        if m.op == "app" and m.val == "unsqueeze" and len(m.args) == 2 and as_int(m.args[1]) == -1:
            return mk_store(args[2], m.args[0], args[1])
        if m.op == "idx" and m.args[1].op == "tuple" and len(m.args[1].args) == 2 and m.args[1].args[0] is const(Ellipsis) and m.args[1].args[1] is NONE:
            return mk_store(args[2], m.args[0], args[1])
    return None


@simpl("clamp")
def _clamp(args):
    return None


@simpl("not")
def _not(args):
    x = args[0]
    if x.op == "app" and x.val == "not":
        return x.args[0]
    if x.op == "lt0":
        return le0(neg(x.args[0]))
    if x.op == "le0":
        return lt0(neg(x.args[0]))
    if x.op == "eq0":
        return mk("ne0", None, x.args)
    if x.op == "ne0":
        return mk("eq0", None, x.args)
    return None


@simpl("os.path.basename")
def _basename(args):
    return mk_idx(app("split", [args[0], const("/")]), const(-1))


@simpl(".replace")
def _replace(args):
    if len(args) == 3 and is_str(args[1]) and is_str(args[2]):
        if pyconst(args[1]) == "\\" and pyconst(args[2]) == "/":
            return args[0]      # no effect on this platform's paths
        if pyconst(args[1]).startswith(".") and pyconst(args[2]) == "":
            return app("stem", [args[0]])


@simpl("stem")
def _stem(args):
    # removing the extension and taking the last path component commute
    x = args[0]
    if x.op == "idx" and x.args[0].op == "app" and x.args[0].val == "split" and as_int(x.args[1]) == -1 and x.args[0].args[0].op == "app" and x.args[0].args[0].val == "stem":
        return x


def drop_last(t):
    """nested sequence whose innermost sequences have one element: those elements"""
    if t.op == "list" and len(t.args) == 1 and t.args[0].op in ("poly", "app", "idx", "attr") and not (t.args[0].op == "app" and t.args[0].val in ("flat", "stack", "reshape")):
        return t.args[0]
    if t.op == "list":
        a = [drop_last(x) for x in t.args]
        return None if any(x is None for x in a) else mk("list", None, a)
    if t.op == "map":
        f = fresh()
        b = drop_last(open_map(t, f))
        return None if b is None else mk_map(t.args[0], f, b)
    if t.op == "app" and t.val == "stack" and len(t.args) == 1:
        b = drop_last(t.args[0])
        return None if b is None else app("stack", [b])
    if t.op == "app" and t.val == "flat" and t.args[0].op == "map":
        f = fresh()
        b = drop_in(open_map(t.args[0], f))
        return None if b is None else app("flat", [mk_map(t.args[0].args[0], f, b)])
    return None


def drop_in(t):
    """the same below a spliced sequence"""
    if t.op == "ite":
        a, b = drop_in(t.args[1]), drop_in(t.args[2])
        return None if a is None or b is None else ite(t.args[0], a, b)
    if t.op == "list":
        a = [drop_last(x) for x in t.args]
        return None if any(x is None for x in a) else mk("list", None, a)
    return None


def single(t):
    """the element of a sequence that has exactly one on every branch"""
    if t.op == "list" and len(t.args) == 1:
        return t.args[0]
    if t.op == "ite":
        a, b = single(t.args[1]), single(t.args[2])
        return None if a is None or b is None else ite(t.args[0], a, b)
    return None


@simpl("flat")
def _flat(args):
    if len(args) == 1 and args[0].op == "map":
        f = fresh()
        b = single(open_map(args[0], f))
        if b is not None:
            return mk_map(args[0].args[0], f, b)


@simpl("squeeze")
def _squeeze(args):
    if len(args) == 2 and as_int(args[1]) == -1:
        return drop_last(args[0])


@simpl("unsqueeze")
def _unsqueeze(args):
    d = as_int(args[1]) if len(args) == 2 else None
    if d is not None and args[0].op not in ("list", "tuple"):
        if d == -1:
            return mk_idx(args[0], mk("tuple", None, (const(Ellipsis), NONE)))
        if d < 0:
            return mk_idx(args[0], mk("tuple", None, [const(Ellipsis), NONE] + [mk_slice(NONE, NONE)] * (-d - 1)))
        return mk_idx(args[0], mk_index([mk_slice(NONE, NONE)] * d + [NONE]))


@simpl("softmax")
def _softmax(args):
    if len(args) == 2 and as_int(args[1]) is not None:
        e = app("exp", [args[0]])
        return mul([e, power(app("unsqueeze", [app("sum", [e, args[1]]), args[1]]), const(-1))])


@simpl("flatten")
def _flatten(args):
    if len(args) == 1:
        return app("reshape", [args[0], mk("tuple", None, (const(-1),))])


@simpl("torchcat")
def _torchcat(args):
    """columns next to each other are the stack of the columns"""
    if len(args) == 2 and as_int(args[1]) in (1, -1) and args[0].op == "list" and args[0].args:
        col = mk("tuple", None, (const(-1), const(1)))
        if all(a.op == "app" and a.val == "reshape" and len(a.args) == 2 and a.args[1] is col for a in args[0].args):
            flat = mk("tuple", None, (const(-1),))
            return app("stack", [mk("list", None, [app("reshape", [a.args[0], flat]) for a in args[0].args]), const(1)])


@simpl("mean")
def _mean(args):
    return keepdim(args, "mean")


def keepdim(args, name):
    if len(args) == 3 and args[2] is TRUE and as_int(args[1]) is not None:
        return app("unsqueeze", [app(name, args[:2]), args[1]])


@simpl("meshgrid")
def _meshgrid(args):
    if args and args[-1].op == "kw" and args[-1].val == "indexing" and is_str(args[-1].args[0]) and pyconst(args[-1].args[0]) == "ij":
        return app("meshgrid", args[:-1])


@simpl("pathjoin")
def _pathjoin(args):
    out = []
    for a in args:
        if out:
            out.append(const("/"))
        out.append(a)
    return app("strcat", out)


@simpl("strcat")
def _strcat(args):
    out = []
    for a in args:
        parts = a.args if (a.op == "app" and a.val == "strcat") else (a,)
        for p in parts:
            if p.op == "app" and p.val == "str" and len(p.args) == 1:
                p = p.args[0]
            if is_num(p) and num(p).denominator == 1:
                p = const(str(int(num(p))))
            if is_str(p) and pyconst(p) == "":
                continue
            if out and is_str(p) and is_str(out[-1]):
                out[-1] = const((pyconst(out[-1]) + pyconst(p)).replace("//", "/"))
            else:
                out.append(p)
    if not out:
        return const("")
    if len(out) == 1:
        return out[0] if is_str(out[0]) else mk("app", "str", (out[0],))
    return mk("app", "strcat", out)


@simpl("str")
def _str(args):
    if len(args) == 1 and is_str(args[0]):
        return args[0]
    if len(args) == 1 and args[0].op == "app" and args[0].val in ("strcat", "str"):
        return args[0]


@simpl("range")
def _range(args):
    if len(args) == 1:
        f = fresh()
        return mk_map(args[0], f, f)
    if len(args) == 2:
        f = fresh()
        return mk_map(sub(args[1], args[0]), f, add([f, args[0]]))
    if len(args) == 3 and is_num(args[2]) and num(args[2]) == 1:
        return _range(args[:2])
    if len(args) == 3 and is_num(args[2]) and num(args[2]) == -1:
        f = fresh()
        return mk_map(sub(args[0], args[1]), f, sub(args[0], f))
    if len(args) == 3 and all(is_num(a) for a in args):
        return mk("list", None, [const(k) for k in range(*[int(num(a)) for a in args])])
    return None


@simpl("arange")
def _arange(args):
    if any(a.op == "kw" for a in args) or len(args) > 3:
        return None
    if len(args) == 1:
        return _range(args)
    if len(args) == 2 and args[1] is not NONE:
        return _range(args)
    if len(args) == 3 and is_num(args[2]) and num(args[2]) in (1, -1):
        a, b, c = args
        f = fresh()
        return mk_map(scale(sub(b, a), num(c)), f, add([a, scale(f, num(c))]))
    return None


@simpl("listcount")
def _listcount(args):
    if len(args) == 2 and args[0].op in ("list", "tuple") and len(args[0].args) <= 3:
        n = 1
        for x in args[0].args:
            n *= leaves(x) + 1
        if n <= 64:
            return add([ite(eq(x, args[1]), const(1), const(0)) for x in args[0].args])
    return None


@simpl("reversed")
def _reversed(args):
    x = args[0]
    if x.op in ("list", "tuple"):
        return mk("list", None, tuple(reversed(x.args)))
    if x.op == "map":
        f = fresh()
        return mk_map(x.args[0], f, open_map(x, sub(sub(x.args[0], const(1)), f)))
    return None


@simpl("listof")
def _listof(args):
    x = args[0]
    if x.op in ("map", "list", "cat"):
        return x
    if x.op == "tuple":
        return mk("list", None, x.args)
    if x.op == "ite":
        return leafwise(lambda y: app("listof", [y]), x)
    if x.op == "app" and x.val in ("split", "listof", "keys"):
        return x
    return None


@simpl("concat")
def _concat(args):
    return None


@simpl("floordiv")
def _floordiv(args):
    if all(is_num(a) for a in args) and num(args[1]) != 0:
        return const(num(args[0]) // num(args[1]))


@simpl("mod")
def _mod(args):
    if all(is_num(a) for a in args) and num(args[1]) != 0:
        return const(num(args[0]) % num(args[1]))
    if is_num(args[1]) and num(args[1]) == 1 and args[0].op in ("sym", "bv"):
        return const(0)


@simpl("conj")
def _conj(args):
    x = args[0]
    if x.op == "app" and x.val == "conj":
        return x.args[0]


@simpl("transpose")
def _transpose(args):
    if len(args) == 3 and {as_int(args[1]), as_int(args[2])} in ({0, 1}, {-1, -2}):
        return app("transpose", [args[0]])
    if len(args) == 1 and args[0].op == "app" and args[0].val == "transpose" and len(args[0].args) == 1:
        return args[0].args[0]


@simpl("permute")
def _permute(args):
    if len(args) == 2 and args[1].op in ("tuple", "list") and [as_int(x) for x in args[1].args] == [1, 0]:
        return app("transpose", [args[0]])


@simpl("zeros_like")
def _zeros_like(args):
    x = args[0]
    if len(args) == 1 and x.op == "app" and x.val == "eye" and len(x.args) == 1:
        return app("zeros", [mk("tuple", None, (x.args[0], x.args[0]))])


@simpl("sign")
def _sign(args):
    return None


def getattr_norm(x, name):
    if name in ("real", "imag"):
        return app(name, [x])
    if name == "T":
        return app("transpose", [x])
    if name == "mT":
        return app("transpose", [x])
    if name == "shape":
        return app("shape", [x])
    if x.op == "ite":
        return leafwise(lambda y: getattr_norm(y, name), x)
    if x.op == "bot":
        return x
    if x.op == "slice" and name in ("start", "stop", "step"):
        v = x.args[("start", "stop", "step").index(name)]
        if v is not NONE or name == "stop":     # 0 and 1 are kept as None
            return v
    if x.op == "app" and (x.val, name) in FIELDS:
        return mk_idx(x, const(FIELDS[x.val, name]))
    if is_frame(x):
        if name in ("values",):
            return x
        if name not in FRAME_ATTRS:
            return mk_idx(x, const(name))
        if name == "loc":
            name = "iloc"
    return mk("attr", name, (x,))


FIELDS = {(f, n): k for f, ns in (("max_dim", ("values", "indices")), ("min_dim", ("values", "indices")), ("sort", ("values", "indices")), ("topk", ("values", "indices")),
                                  ("torch.linalg.eig", ("eigenvalues", "eigenvectors")), ("linalg.eig", ("eigenvalues", "eigenvectors")), ("eig", ("eigenvalues", "eigenvectors"))) for k, n in enumerate(ns)}
FRAME_ATTRS = {"iloc", "loc", "columns", "index", "size", "ndim", "dtypes", "empty", "at", "iat"}


def is_frame(x):
    """a table read from a file, a column or a row of it"""
    while x.op == "idx" or (x.op == "attr" and x.val == "iloc"):
        x = x.args[0]
    return x.op == "app" and str(x.val).split(".")[-1] == "read_csv"


def rebuild(t, na):
    op = t.op
    if op == "app":
        return app(t.val, na)
    if op == "idx":
        return mk_idx(*na)
    if op == "ite":
        return ite(gate(na[0]), na[1], na[2])
    if op == "lt0":
        return lift(lambda x: lt0(x), na)
    if op == "le0":
        return lift(lambda x: le0(x), na)
    if op == "eq0":
        return lift(lambda x: eq0(x), na)
    if op == "eq":
        return lift(lambda a, b: eq(a, b), na)
    if op == "in":
        return vg.mk_in(*na)
    if op == "store":
        return mk_store(*na)
    if op == "cat":
        return mk_cat(na)
    if op == "attr":
        return getattr_norm(na[0], t.val)
    if op == "slice":
        return mk_slice(*na)
    if op == "truthy":
        return gate(na[0])
    if op == "kw":
        return mk("kw", t.val, na)
    if op == "inst":
        return mk("inst", t.val, [a for a in na if not (a.op == "kw" and a.args[0].op == "undef")])
    if op in ("tuple", "list"):
        return mk(op, t.val, na)
    return mk(op, t.val, na)
