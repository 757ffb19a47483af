"""Hash-consed value graph with an algebraic normal form.

Terms are interned: two expressions have the same normal form iff they are the
same Python object.  There is no solver and no path enumeration: control-flow
joins become `ite` nodes kept in reduced, ordered form (as in a ROBDD), loops
become `map`/`sum`/`loop` nodes, arithmetic is kept as a sum of monomials.
"""
from fractions import Fraction
import math

_TABLE = {}
_COUNT = [0]


class T:
    __slots__ = ("op", "val", "args", "id", "hgt", "_free")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o


def mk(op, val=None, args=()):
    key = (op, val, tuple(a.id for a in args))
    t = _TABLE.get(key)
    if t is None:
        t = T()
        t.op, t.val, t.args = op, val, tuple(args)
        _COUNT[0] += 1
        t.id = _COUNT[0]
        h = 0
        for a in t.args:
            if a.hgt > h:
                h = a.hgt
        if op == "poly":
            for mono, _c in val:
                for at, _e in mono:
                    if at.hgt > h:
                        h = at.hgt
        if op in BINDERS:
            h += 1
        t.hgt = h
        t._free = None
        _TABLE[key] = t
    return t


BINDERS = {"map", "loop", "while", "lastval"}


# ------------------------------------------------------------------ constants
def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk("const", ("k", type(v).__name__, v))
    if isinstance(v, Fraction):
        return mk("const", ("n", v))
    if isinstance(v, int):
        return mk("const", ("n", Fraction(v)))
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            return mk("const", ("f", repr(v)))
        return mk("const", ("n", Fraction(repr(v))))
    if isinstance(v, complex):
        return add([const(v.real), mul([const(v.imag), IMAG])])
    return mk("const", ("o", repr(v)))


def is_num(t):
    return t.op == "const" and t.val[0] == "n"


def num(t):
    return t.val[1]


def is_str(t):
    return t.op == "const" and t.val[0] == "k" and t.val[1] == "str"


def pyconst(t):
    """Python value of a plain constant (numbers as Fraction)."""
    if t.op == "const":
        if t.val[0] == "n":
            return t.val[1]
        if t.val[0] == "k":
            return t.val[2]
    return _NOCONST


class _NC:
    pass


_NOCONST = _NC()


def has_const(t):
    return pyconst(t) is not _NOCONST


def as_int(t):
    if is_num(t) and num(t).denominator == 1:
        return int(num(t))
    return None


def sym(name):
    return mk("sym", name)


def bv(k, j=0):
    return mk("bv", (k, j))


_FRESH = [0]


def fresh(prefix="v"):
    _FRESH[0] += 1
    return mk("sym", "%%%s%d" % (prefix, _FRESH[0]))


# -------------------------------------------------------------------- children
def children(t):
    if t.op == "poly":
        out = []
        for mono, _c in t.val:
            for at, _e in mono:
                out.append(at)
        return out
    return list(t.args)


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def occurs(x, t):
    return any(s is x for s in subterms(t))


def free_syms(t):
    if t._free is None:
        s = set()
        if t.op == "sym":
            s.add(t)
        for c in children(t):
            s |= free_syms(c)
        t._free = frozenset(s)
    return t._free


# ---------------------------------------------------------------- arithmetic
def _poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    return mk("poly", items)


def to_dict(t):
    if t.op == "poly":
        return dict(t.val)
    if is_num(t):
        return {(): num(t)} if num(t) != 0 else {}
    return {((t, Fraction(1)),): Fraction(1)}


def _norm_mono(pairs):
    """pairs: dict atom -> exp. returns (coeff, mono)"""
    coeff = Fraction(1)
    out = []
    for a, e in pairs.items():
        if e == 0:
            continue
        if a is IMAG and e.denominator == 1:
            k = int(e) % 4
            if k == 0:
                continue
            if k == 1:
                out.append((a, Fraction(1)))
            elif k == 2:
                coeff = -coeff
            else:
                coeff = -coeff
                out.append((a, Fraction(1)))
            continue
        out.append((a, e))
    out.sort(key=lambda ae: (ae[0].id, ae[1]))
    return coeff, tuple(out)


def add(ts):
    d = {}
    for t in ts:
        if t.op == "bot":
            return t
        if t.op == "const" and not is_num(t):
            if t.val[0] == "k" and isinstance(t.val[2], bool):
                t = const(int(t.val[2]))
            else:
                t = mk("app", "numof", (t,))
        for m, c in to_dict(t).items():
            d[m] = d.get(m, 0) + c
    # expand positive-integer powers of polys that may have appeared
    return _poly(d)


def scale(t, c):
    return _poly({m: cc * c for m, cc in to_dict(t).items()})


def neg(t):
    return scale(t, Fraction(-1))


def sub(a, b):
    return add([a, neg(b)])


_LIMIT = 160


def mul(ts):
    # collect factors by base
    coeff = Fraction(1)
    polys = []
    pairs = {}
    for t in ts:
        if t.op == "bot":
            return t
        if t.op == "const" and not is_num(t):
            if t.val[0] == "k" and isinstance(t.val[2], bool):
                t = const(int(t.val[2]))
            else:
                t = mk("app", "numof", (t,))
        if is_num(t):
            coeff *= num(t)
        elif t.op == "poly":
            if len(t.val) == 1:
                m, c = t.val[0]
                coeff *= c
                for a, e in m:
                    pairs[a] = pairs.get(a, 0) + e
            else:
                polys.append(t)
        else:
            pairs[t] = pairs.get(t, 0) + 1
    if coeff == 0:
        return const(0)
    # cancel P * P^-1
    rest = []
    for p in polys:
        lead, monic = _monic(p)
        if monic in pairs and pairs[monic] != 0:
            pairs[monic] += 1
            coeff *= lead
        else:
            rest.append(p)
    # polys with positive integer exponents in pairs -> expand
    for a in list(pairs):
        e = pairs[a]
        if a.op == "poly" and e > 0 and e.denominator == 1:
            del pairs[a]
            rest.extend([a] * int(e))
    c0, m0 = _norm_mono(pairs)
    coeff *= c0
    if not rest:
        return _poly({m0: coeff})
    n = 1
    for p in rest:
        n *= len(p.val)
    if n > _LIMIT:
        pr = dict(m0)
        for p in rest:
            lead, monic = _monic(p)
            coeff *= lead
            pr[monic] = pr.get(monic, 0) + 1
        c1, m1 = _norm_mono(pr)
        # keep unexpanded as a product node
        return _poly({m1: coeff * c1})
    cur = {m0: coeff}
    for p in rest:
        nxt = {}
        for m1, c1 in cur.items():
            for m2, c2 in p.val:
                pr = dict(m1)
                for a, e in m2:
                    pr[a] = pr.get(a, 0) + e
                cc, mm = _norm_mono(pr)
                nxt[mm] = nxt.get(mm, 0) + cc * c1 * c2
        cur = nxt
    return _poly(cur)


def _monic(p):
    """p poly with >=2 monomials: returns (lead coeff, p/lead)."""
    if p.op != "poly":
        return Fraction(1), p
    lead = p.val[0][1]
    if lead == 1:
        return lead, p
    return lead, _poly({m: c / lead for m, c in p.val})


def power(b, e):
    if b.op == "bot":
        return b
    if e.op == "bot":
        return e
    if b.op == "const" and b.val[0] == "k" and isinstance(b.val[2], bool):
        b = const(int(b.val[2]))
    if is_num(e):
        r = num(e)
        if r == 0:
            return const(1)
        if r == 1:
            return b
        if is_num(b):
            if r.denominator == 1 and abs(r) <= 64 and num(b) != 0:
                return const(num(b) ** int(r))
            return mk("app", "pow", (b, e))
        if r.denominator == 1 and b.op == "poly" and len(b.val) == 1:
            m, c = b.val[0]
            pr = {a: ee * r for a, ee in m}
            cc, mm = _norm_mono(pr)
            return _poly({mm: cc * c ** int(r)})
        if b.op == "poly":
            if r.denominator == 1 and 0 < r <= 6:
                return mul([b] * int(r))
            if r.denominator == 1:
                lead, monic = _monic(b)
                return _poly({((monic, r),): lead ** int(r)})
            if r == Fraction(1, 2) and len(b.val) == 2 and all(c == 1 and len(m) == 1 and m[0][1] == 2 and m[0][0].op == "app" for m, c in b.val):
                x, y = sorted((m[0][0] for m, c in b.val), key=lambda q: q.val, reverse=True)
                if x.val == "real" and y.val == "imag" and x.args == y.args:
                    return mk("app", "abs", x.args)
            # fractional power of a poly: opaque, pull out nothing
            return _poly({((b, r),): Fraction(1)})
        return _poly({((b, r),): Fraction(1)})
    return mk("app", "pow", (b, e))


def div(a, b):
    if is_num(b) and num(b) == 0:
        return mk("app", "div0", (a,))
    return mul([a, power(b, const(-1))])


# ------------------------------------------------------------ boolean / ite
def _init():
    g = globals()
    g["TRUE"] = const(True)
    g["FALSE"] = const(False)
    g["NONE"] = const(None)
    g["IMAG"] = mk("imagunit")
    g["BOT"] = mk("bot")


def tops(t):
    return t.args[0] if t.op == "ite" else None


_ITE = {}


def ite(c, a, b):
    """c is a boolean term: const, atom, or ite over booleans."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "bot":
        return c
    key = (c.id, a.id, b.id)
    r = _ITE.get(key)
    if r is not None:
        return r
    if c.op == "ite":
        top = c.args[0]
    else:
        top = c
    for x in (a, b):
        if x.op == "ite" and x.args[0].id < top.id:
            top = x.args[0]
    # conditions as leaves take part in the order like the conditions above them
    for x, y in ((a, b), (b, a)):
        if x.op in BOOL_OPS and x.id < top.id and boolean(x) and boolean(y):
            top = x
    hi = ite(assume(c, top, True), assume(a, top, True), assume(b, top, True))
    lo = ite(assume(c, top, False), assume(a, top, False), assume(b, top, False))
    if hi is lo:
        r = hi
    elif hi is TRUE and lo is FALSE:
        r = top
    elif IN_SEEN and (top.op == "truthy" and top.args[0] in IN_SEEN) and subst(hi, {top.args[0]: EMPTY()}) is lo:
        r = hi          # membership in an absent or empty collection is false
    elif IN_SEEN and (top.op == "eq" and top.args[0] in IN_SEEN and has_const(top.args[1]) and pyconst(top.args[1]) is None) and subst(lo, {top.args[0]: EMPTY()}) is hi:
        r = lo
    elif top.op == "eq" and has_const(top.args[1]) and assume(lo, top, True) is hi:
        r = lo          # equal to another constant: the test in lo fails anyway
    else:
        r = mk("ite", None, (top, hi, lo))
    _ITE[key] = r
    return r


IN_SEEN = set()
BOOL_OPS = {"eq", "lt0", "eq0", "in", "has", "is", "truthy", "app"}
_BOOLEAN = {}


def boolean(t):
    """a condition: built from True, False and comparisons only"""
    if t is TRUE or t is FALSE:
        return True
    if t.op == "app":
        return t.val in BOOL_APPS
    if t.op == "ite":
        r = _BOOLEAN.get(t)
        if r is None:
            r = _BOOLEAN[t] = boolean(t.args[1]) and boolean(t.args[2])
        return r
    return t.op in BOOL_OPS


def EMPTY():
    return mk("list", None, ())


def mk_in(a, b):
    if b.op in ("list", "tuple") and not b.args:
        return FALSE
    if b.op == "ite":
        return ite(b.args[0], mk_in(a, b.args[1]), mk_in(a, b.args[2]))
    if b.op == "sym":
        IN_SEEN.add(b)
    return mk("in", None, (a, b))


_ASSUME = {}


def assume(t, atom, val):
    """Cofactor of t's top-level ite structure under atom==val."""
    if t.op == "ite":
        key = (t.id, atom.id, val)
        r = _ASSUME.get(key)
        if r is not None:
            return r
        c, a, b = t.args
        k = implied(atom, val, c)
        if k is True:
            r = assume(a, atom, val)
        elif k is False:
            r = assume(b, atom, val)
        else:
            a2, b2 = assume(a, atom, val), assume(b, atom, val)
            if a2 is b2:
                r = a2
            elif a2 is TRUE and b2 is FALSE:
                r = c
            else:
                r = mk("ite", None, (c, a2, b2))
        _ASSUME[key] = r
        return r
    if t.op in ATOM_OPS:
        k = implied(atom, val, t)
        if k is True:
            return TRUE
        if k is False:
            return FALSE
    return t


ATOM_OPS = {"eq", "lt0", "eq0", "atom", "truthy", "in", "has", "is", "app", "sym", "idx", "attr", "bv", "le0"}


def implied(atom, val, other):
    """Value of `other` known from atom==val (True/False/None)."""
    if atom is other:
        return val
    if val and atom.op == "eq" and other.op == "eq":
        if atom.args[0] is other.args[0] and has_const(atom.args[1]) and has_const(other.args[1]):
            return False
    if val and atom.op == "eq" and other.op == "truthy" and other.args[0] is atom.args[0] and has_const(atom.args[1]):
        return bool(pyconst(atom.args[1]))
    if val and atom.op == "eq" and other.op == "in" and other.args[0] is atom.args[0] and has_const(atom.args[1]) and other.args[1].op in ("list", "tuple", "set"):
        els = other.args[1].args
        if all(has_const(e) for e in els):
            return atom.args[1] in els
    if val and atom.op == "eq" and other.op == "in" and other.args[1] is atom.args[0] and has_const(atom.args[1]) and pyconst(atom.args[1]) is None:
        return False
    if val and atom.op == "in" and other.op == "eq" and other.args[0] is atom.args[1] and has_const(other.args[1]) and pyconst(other.args[1]) is None:
        return False
    if atom.op == "in" and other.op == "truthy" and other.args[0] is atom.args[1] and val:
        return True
    if atom.op == "truthy" and other.op == "in" and atom.args[0] is other.args[1] and not val:
        return False
    if atom.op == "lt0" and other.op == "lt0":
        # x+c < 0 relations
        d = sub(atom.args[0], other.args[0])
        if is_num(d):
            # other = atom - d
            if val and num(d) >= 0:
                return True      # atom<0 -> other = atom-d <0
            if not val and num(d) <= 0:
                return False     # atom>=0 -> other=atom-d>=0
        s = add([atom.args[0], other.args[0]])
        if is_num(s):
            # other = s - atom
            if val and num(s) >= 0:
                return False     # atom<0 -> other > s >=0
            if not val and num(s) < 0:
                return True
    if atom.op == "eq0" and other.op == "lt0" and val:
        d = sub(atom.args[0], other.args[0])
        if is_num(d):
            return (-num(d)) < 0
        s = add([atom.args[0], other.args[0]])
        if is_num(s):
            return num(s) < 0
    if atom.op == "lt0" and other.op == "eq0" and val:
        d = sub(other.args[0], atom.args[0])
        if is_num(d) and num(d) <= 0:
            return False   # other = atom + d <0
        s = add([atom.args[0], other.args[0]])
        if is_num(s) and num(s) >= 0:
            return False   # other = s - atom > 0
    if atom.op == "eq0" and other.op == "eq0" and val:
        d = sub(atom.args[0], other.args[0])
        if is_num(d) and num(d) != 0:
            return False
        s = add([atom.args[0], other.args[0]])
        if is_num(s) and num(s) != 0:
            return False
    return None


def not_(c):
    return ite(c, FALSE, TRUE)


def and_(a, b):
    return ite(a, b, FALSE)


def or_(a, b):
    return ite(a, TRUE, b)


def implies_(a, b):
    return ite(a, b, TRUE)


def gate(t):
    """Turn a value into a boolean gate term."""
    if t.op == "const":
        v = pyconst(t)
        if v is _NOCONST:
            return TRUE
        return TRUE if v else FALSE
    if t.op == "ite":
        return ite(t.args[0], gate(t.args[1]), gate(t.args[2]))
    if t.op == "le0":
        # a<=0  ==  not (-a < 0)
        return not_(lt0(neg(t.args[0])))
    if t.op == "app" and t.val == "not":
        return not_(gate(t.args[0]))
    if t.op == "app" and t.val == "and" and len(t.args) == 2:
        return and_(gate(t.args[0]), gate(t.args[1]))
    if t.op == "app" and t.val == "or" and len(t.args) == 2:
        return or_(gate(t.args[0]), gate(t.args[1]))
    if t.op == "ne0":
        return not_(eq0(t.args[0]))
    if t.op == "ne":
        return not_(mk("eq", None, t.args))
    if t.op in ("eq", "lt0", "eq0", "in", "has", "is", "truthy", "bot"):
        return t
    if t.op in ("list", "tuple", "set"):
        return TRUE if t.args else FALSE
    if t.op == "cat":
        r = FALSE
        for a in t.args:
            r = or_(r, gate(a))
        return r
    if t.op == "app" and t.val in BOOL_APPS:
        return t
    if t.op == "app" and t.val in ("len", "mod", "floordiv", "listcount", "loopcount"):
        return not_(eq0(t))
    if t.op in ("inst", "func", "class", "mod", "ref", "bound"):
        return TRUE
    if t.op == "poly":
        return not_(eq0(t))
    return mk("truthy", None, (t,))


BOOL_APPS = {"any", "all", "isinstance", "isnan", "isinf", "isfinite", "is_complex", "throws", "callable", "hasattr",
             "exists", "isdir", "isfile", "startswith", "endswith", "is_tensor", "is_available", "requires_grad"}


def _signnorm(p):
    """scale p by a positive constant; returns canonical."""
    if p.op == "poly":
        lead = abs(p.val[-1][1])
        return scale(p, 1 / lead)
    return p


def lt0(p):
    if p.op == "bot":
        return p
    if is_num(p):
        return TRUE if num(p) < 0 else FALSE
    return mk("lt0", None, (_signnorm(p),))


def le0(p):
    if p.op == "bot":
        return p
    if is_num(p):
        return TRUE if num(p) <= 0 else FALSE
    return mk("le0", None, (_signnorm(p),))


def eq0(p):
    if p.op == "bot":
        return p
    if is_num(p):
        return TRUE if num(p) == 0 else FALSE
    if p.op == "poly":
        lead = p.val[-1][1]
        p = scale(p, 1 / lead)
    return mk("eq0", None, (p,))


def _numericish(t):
    return is_num(t) or t.op == "poly"


def eq(a, b):
    if a.op == "bot" or b.op == "bot":
        return BOT
    if a is b:
        return TRUE
    ca, cb = pyconst(a), pyconst(b)
    if ca is not _NOCONST and cb is not _NOCONST:
        return TRUE if (ca == cb and isinstance(ca, str) == isinstance(cb, str)) else FALSE
    if _numericish(a) or _numericish(b):
        return eq0(sub(a, b))
    if a.op in ("list", "tuple") and b.op == a.op:
        if len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = and_(r, gate(eq(x, y)))
        return r
    if (a is NONE and b.op in ("dtype", "ext", "func", "class")) or (b is NONE and a.op in ("dtype", "ext", "func", "class")):
        return FALSE
    if ca is not _NOCONST:
        a, b = b, a
        ca, cb = cb, ca
    elif cb is _NOCONST and b.id < a.id:
        a, b = b, a
    return mk("eq", None, (a, b))


def lift(fn, args, limit=48):
    """Apply fn to args, lifting ite out of the arguments when small."""
    tot = 1
    for a in args:
        if a.op == "ite":
            tot *= leaves(a)
            if tot > limit:
                return fn(*args)
    if tot == 1:
        return fn(*args)
    top = None
    for a in args:
        if a.op == "ite" and (top is None or a.args[0].id < top.id):
            top = a.args[0]
    hi = lift(fn, [assume(a, top, True) if a.op == "ite" else a for a in args], limit)
    lo = lift(fn, [assume(a, top, False) if a.op == "ite" else a for a in args], limit)
    return ite(top, hi, lo)


_LEAVES = {}


def leaves(t):
    if t.op != "ite":
        return 1
    r = _LEAVES.get(t)
    if r is None:
        r = leaves(t.args[1]) + leaves(t.args[2])
        _LEAVES[t] = r
    return r


# ------------------------------------------------------------- substitution
def rebuild(t, newargs):
    from . import norm
    return norm.rebuild(t, newargs)


def subst(t, mapping, memo=None):
    """Capture-free substitution of terms (syms or bv) by terms, renormalising."""
    if memo is None:
        memo = {}
    return _subst(t, mapping, memo)


def _subst(t, mapping, memo):
    r = mapping.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "poly":
        parts = []
        changed = False
        for mono, c in t.val:
            fs = [const(c)]
            for a, e in mono:
                a2 = _subst(a, mapping, memo)
                if a2 is not a:
                    changed = True
                fs.append((a2, e))
            parts.append(fs)
        if not changed:
            r = t
        else:
            ats = []
            for fs in parts:
                prod = [fs[0]] + [lift(lambda x, e=e: power(x, const(e)), [a]) for a, e in fs[1:]]
                ats.append(lift(lambda *x: mul(list(x)), prod))
            r = lift(lambda *x: add(list(x)), ats)
    elif not t.args:
        r = t
    elif t.op in BINDERS:
        if not _affected(t, mapping):
            r = t
        else:
            from . import norm
            r = norm.subst_binder(t, mapping)
    else:
        na = [_subst(a, mapping, memo) for a in t.args]
        if all(x is y for x, y in zip(na, t.args)):
            r = t
        else:
            r = rebuild(t, na)
    memo[t] = r
    return r


def _affected(t, mapping):
    for s in subterms(t):
        if s in mapping:
            return True
    return False


# ------------------------------------------------------------------- display
def show(t, depth=6):
    if depth <= 0:
        return "…"
    d = depth - 1
    if t.op == "const":
        if t.val[0] == "n":
            f = t.val[1]
            return str(f) if f.denominator == 1 else repr(float(f))
        if t.val[0] == "k":
            return repr(t.val[2])
        return str(t.val[1])
    if t.op == "sym":
        return str(t.val)
    if t.op == "bv":
        return "i%d" % t.val[0] if t.val[1] == 0 else "s%d_%d" % t.val
    if t.op == "imagunit":
        return "1j"
    if t.op == "bot":
        return "<raises>"
    if t.op == "poly":
        out = []
        for mono, c in t.val:
            s = []
            if c != 1 or not mono:
                s.append(str(c) if c.denominator == 1 else "%g" % float(c))
            for a, e in mono:
                x = show(a, d)
                if a.op == "poly":
                    x = "(" + x + ")"
                s.append(x if e == 1 else "%s^%s" % (x, e))
            out.append("*".join(s))
        return " + ".join(out)
    if t.op == "ite":
        return "(%s if %s else %s)" % (show(t.args[1], d), show(t.args[0], d), show(t.args[2], d))
    if t.op == "app":
        return "%s(%s)" % (t.val, ", ".join(show(a, d) for a in t.args))
    if t.op == "kw":
        return "%s=%s" % (t.val, show(t.args[0], d))
    if t.op == "idx":
        return "%s[%s]" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "attr":
        return "%s.%s" % (show(t.args[0], d), t.val)
    if t.op == "slice":
        return ":".join("" if a is NONE else show(a, d) for a in t.args[:2]) + ("" if t.args[2] is NONE else ":" + show(t.args[2], d))
    if t.op in ("tuple", "list", "set"):
        b = {"tuple": "()", "list": "[]", "set": "{}"}[t.op]
        return b[0] + ", ".join(show(a, d) for a in t.args) + b[1]
    if t.op == "lt0":
        return "%s<0" % show(t.args[0], d)
    if t.op == "eq":
        return "%s==%s" % (show(t.args[0], d), show(t.args[1], d))
    if t.op == "map":
        return "[%s for i%d<%s]" % (show(t.args[1], d), t.hgt, show(t.args[0], d))
    return "%s%s(%s)" % (t.op, "" if t.val is None else "<%s>" % (t.val,), ", ".join(show(a, d) for a in t.args))


_init()
