"""Equality of value graphs under a domain of definition, and localisation of differences."""
from .vg import *
from .norm import *
from . import vg
import math
from fractions import Fraction


def atoms_of(t):
    out, seen, stack = [], set(), [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            out.append(x.args[0])
            stack.extend(x.args[1:])
        elif x is not TRUE and x is not FALSE:
            out.append(x)
    return out


def literals(D):
    """atoms forced by D: {atom: TRUE/FALSE}"""
    out = {}
    if D is TRUE or D is FALSE:
        return out
    for a in dict.fromkeys(atoms_of(D)):
        if assume(D, a, False) is FALSE:
            out[a] = TRUE
        elif assume(D, a, True) is FALSE:
            out[a] = FALSE
    return out


def restrict(t, D):
    """simplify t using the literals of D everywhere (also below binders)."""
    lits = literals(D)
    if not lits:
        return t
    mp = {}
    for s in list(subterms(t)):
        if s in lits:
            mp[s] = lits[s]
        elif s.op in ("eq", "lt0", "eq0", "in", "truthy", "le0"):
            for a, v in lits.items():
                k = implied(a, v is TRUE, s if s.op != "le0" else s)
                if k is not None:
                    mp[s] = TRUE if k else FALSE
                    break
    return subst(t, mp) if mp else t


def under(t, D):
    if D is TRUE:
        return t
    t = restrict(t, D)
    return ite(D, t, BOT) if D is not FALSE else BOT


DISJOINT = {"builtins." + x for x in ("list", "tuple", "slice", "dict", "str", "float", "int", "set", "complex", "bool")} - {"builtins.bool"}


def _integral(q):
    """a polynomial whose atoms only take integer values"""
    def at(t):
        if t.op == "app":
            return t.val in ("len", "int", "floordiv") or (t.val in ("abs", "max", "min") and all(_integral(a) for a in t.args))
        if t.op == "attr":
            return t.val in ("start", "stop", "ndim")
        if t.op == "idx":
            return t.args[0].op == "app" and t.args[0].val == "shape"
        if t.op == "poly":
            return _integral(t)
        return is_num(t) and num(t).denominator == 1 if is_num(t) else False
    if q.op != "poly":
        return at(q)
    return all(c.denominator == 1 and all(e > 0 and at(a) for a, e in m) for m, c in q.val)


def lemmas(*ts):
    """facts about the conditions in ts that hold for every input: exclusive types, one-variable bounds"""
    atoms = []
    for t in ts:
        for s in subterms(t):
            if s.op in ("eq0", "lt0", "eq", "app") and s not in atoms and (s.op != "app" or s.val in ("isinstance", "throws")):
                atoms.append(s)
    if len(atoms) > 400:
        return TRUE
    L = TRUE
    kinds, bounds = {}, {}
    for s in atoms:
        if s.op == "app" and s.val == "isinstance" and len(s.args) == 2 and s.args[1].op == "ext" and s.args[1].val in DISJOINT:
            kinds.setdefault(s.args[0], []).append(s)
        elif s.op == "eq" and s.args[1] is NONE:
            kinds.setdefault(s.args[0], []).append(s)
        elif s.op in ("eq0", "lt0"):
            p = s.args[0]
            k = num(p_const(p))
            q = sub(p, const(k))
            lead = q.val[-1][1] if q.op == "poly" else 1
            q = scale(q, Fraction(1) / lead) if lead != 1 else q
            bounds.setdefault(q, []).append((s, lead, k))
    for x, ss in kinds.items():
        for i, s in enumerate(ss):
            for u in ss[:i]:
                L = and_(L, not_(and_(s, u)))
    for q, ss in bounds.items():
        if not 1 < len(ss) <= 7:
            continue
        # atom: lead*q + k (= or <) 0
        pts = sorted({-k / lead for _, lead, k in ss})
        whole = _integral(q)
        if whole:
            samples = sorted({f(x) + d for x in pts for f in (math.floor, math.ceil) for d in (-1, 0, 1)})
        else:
            samples = sorted(set(pts) | {(x + y) / 2 for x, y in zip(pts, pts[1:])} | {pts[0] - 1, pts[-1] + 1})
        if q.op == "app" and q.val in ("len", "abs"):
            samples = [x for x in samples if x >= 0]
        rows = set()
        for x in samples:
            rows.add(tuple((lead * x + k == 0) if s.op == "eq0" else (lead * x + k < 0) for s, lead, k in ss))
        if len(rows) < 2 ** len(ss):
            alt = FALSE
            for r in sorted(rows):
                c = TRUE
                for (s, _, _), v in zip(ss, r):
                    c = and_(c, s if v else not_(s))
                alt = or_(alt, c)
            L = and_(L, alt)
    return L


def p_const(p):
    if p.op == "poly":
        for m, c in p.val:
            if not m:
                return const(c)
        return const(0)
    return p if is_num(p) else const(0)


def same(a, b, D=TRUE):
    if a is b:
        return True
    a2, b2 = under(a, D), under(b, D)
    if a2 is b2:
        return True
    if D is not TRUE and a.op == b.op and a.op in ("list", "tuple") and a.val == b.val and len(a.args) == len(b.args) and all(same(x, y, D) for x, y in zip(a.args, b.args)):
        return True
    a3, b3 = align(a2, b2)
    if a3 is b3:
        return True
    if split_same(a3, b3, [6000]):
        return True
    L = lemmas(a2, b2)
    if L is TRUE:
        return False
    a2, b2 = align(under(a2, L), under(b2, L))
    return a2 is b2 or split_same(a2, b2, [600], L)


def _tlen(t):
    if t.op == "tuple":
        return len(t.args)
    if t.op == "ite":
        r = _tlen(t.args[1])
        return r if r is not None else _tlen(t.args[2])
    return None


def _component(t, i):
    if t.op == "ite":
        return ite(t.args[0], _component(t.args[1], i), _component(t.args[2], i))
    if t.op == "tuple":
        return t.args[i] if i < len(t.args) else BOT
    if t.op == "bot":
        return t
    return mk_idx(t, const(i))


def align(a, b):
    """view both sides as tuples of the same arity when one of them is one"""
    n = _tlen(a) or _tlen(b)
    if not n or (a.op == "tuple" and b.op == "tuple"):
        return a, b
    for t in (a, b):
        m = _tlen(t)
        if m is not None and m != n:
            return a, b
        for lf in ite_leaves(t):
            if lf.op not in ("tuple", "app", "idx", "bot", "loop") or (lf.op == "tuple" and len(lf.args) != n):
                return a, b
    return (mk("tuple", None, [_component(a, i) for i in range(n)]), mk("tuple", None, [_component(b, i) for i in range(n)]))


def open_conditions(t, seen, out):
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            c = x.args[0]
            if c not in out and not any(y.op == "bv" for y in subterms(c)):
                out[c] = True
        stack.extend(children(x))


def split_same(a, b, budget, L=TRUE):
    """case split on the conditions that occur below the root"""
    if a is b or L is FALSE:
        return True
    if L is TRUE:
        if len(budget) < 2:
            budget.append({})
        k = (a, b)
        if k not in budget[1]:
            budget[1][k] = _split_same(a, b, budget, L)
        return budget[1][k]
    return _split_same(a, b, budget, L)


def _split_same(a, b, budget, L):
    budget[0] -= 1
    if budget[0] < 0:
        return False
    # descend while the heads agree: smaller terms split faster
    if a.op == b.op and a.op in ("tuple", "list", "kw", "cat", "app", "kv", "dict", "dotmap") and a.val == b.val and len(a.args) == len(b.args):
        return all(split_same(x, y, budget, L) for x, y in zip(a.args, b.args))
    out = {}
    open_conditions(a, set(), out)
    open_conditions(b, set(), out)
    if not out:
        return False
    c = min(out, key=lambda t: t.id)
    n = not_(c)
    cl, nl = (c, n) if L is TRUE else (and_(L, c), and_(L, n))
    Lc, Ln = (TRUE, TRUE) if L is TRUE else (cl, nl)
    no = nl is FALSE or split_same(restrict(a, nl), restrict(b, nl), budget, Ln)
    if not no:
        return False
    if cl is FALSE:
        return True
    a, b = restrict(a, cl), restrict(b, cl)
    if c.op == "eq" and c.args[0].op not in ("bot",):
        # equal terms are interchangeable on this side of the split
        x, y = c.args
        if has_const(x) or (not has_const(y) and x.id < y.id):
            x, y = y, x
        mp = {x: y}
        a, b = subst(a, mp), subst(b, mp)
    return split_same(a, b, budget, Lc)


def diffs(a, b, limit=6):
    """minimal differing subterm pairs (impl, spec)."""
    out = []
    seen = set()

    def go(x, y):
        if x is y or len(out) >= limit or (x, y) in seen:
            return
        seen.add((x, y))
        if x.op == "poly" and y.op == "poly":
            dx, dy = dict(x.val), dict(y.val)
            only_x = [m for m in dx if dx[m] != dy.get(m)]
            only_y = [m for m in dy if dy[m] != dx.get(m)]
            if len(only_x) == 1 and len(only_y) == 1 and dx[only_x[0]] == dy[only_y[0]]:
                mx, my = dict(only_x[0]), dict(only_y[0])
                ax = [(t, e) for t, e in mx.items() if my.get(t) != e]
                ay = [(t, e) for t, e in my.items() if mx.get(t) != e]
                if len(ax) == 1 and len(ay) == 1 and ax[0][1] == ay[0][1]:
                    go(ax[0][0], ay[0][0])
                    return
            out.append((x, y))
            return
        if x.op == y.op and x.val == y.val and len(x.args) == len(y.args) and x.args:
            for p, q in zip(x.args, y.args):
                go(p, q)
            return
        out.append((x, y))

    go(a, b)
    return out


def ops_of(t):
    s = set()
    for x in subterms(t):
        if x.op == "app":
            s.add(x.val)
        elif x.op in ("loop", "while", "lastval", "unknown", "undef", "dangling", "cyc", "store", "star"):
            s.add("#" + x.op)
    return s
