"""Obligation bookkeeping and the equivalence driver shared by all property modules."""
import ast
import os
import signal
import time
import traceback
from .interp import *
from .interp import H, State, CHAN
from .compare import *
from .relax import excused
from .project import Project, Func, Class

REPO = os.environ.get("NIDN_REPO", "/repo")
SPECDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs")

# library operations that can express the same computation in another way: a
# difference that involves one of them on the implementation side only is not
# something the normal form can decide, so it is reported as undecided.
ALT_OPS = {"pathlib.Path", "einsum", "tensordot", "cumsum", "cumprod", "gather", "scatter", "scatter_add", "index_select", "take", "take_along_dim", "meshgrid", "outer", "kron",
           "apply_along_axis", "vectorize", "flat", "call", "strfmt", "storemap", "firstwhere", "loopcount", "lastiter", "unknown", "fromiter", "reduce",
           "itertools.product", "itertools.accumulate", "functools.reduce", "vmap", "fill", "block", "r_", "tile", "diff", "ediff1d", "interp", "select",
           "#while", "#unknown", "#dangling", "#cyc", "#star", "map", "filter", "itertools.chain", "itertools.repeat", "itertools.count", "itertools.zip_longest",
           "collections.Counter", "collections.defaultdict", "operator.itemgetter", "operator.attrgetter", "getattr", "iter", "next", "eval", "exec",
           "functools.partial", "moveaxis", "rot90", "unfold", "as_strided", "broadcast_to", "expand_as", "broadcast_tensors", "hstack", "vstack", "dstack", "column_stack"}


SYM_ALT = {"meshgrid"}


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def limited(seconds, fn):
    """fn() within the given time; raises Timeout"""
    old = signal.signal(signal.SIGALRM, _alarm)
    t0, left = time.time(), signal.getitimer(signal.ITIMER_REAL)[0]
    signal.setitimer(signal.ITIMER_REAL, max(0.05, min(seconds, left) if left else seconds))
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(0.05, left - (time.time() - t0)) if left else 0)
        signal.signal(signal.SIGALRM, old)


SCRATCH = {"transmission_signals", "reflection_signals"}     # lists the coefficient routine consumes


class Ctx:
    def __init__(self, prop, tier, repo=REPO):
        self.prop, self.tier = prop, tier
        self.repo = repo
        self.proj = Project(repo)
        self.obligations = []
        self.violations = []     # (key, loc, msg)
        self.undecided = []
        self.analysed = set()
        self.calls = 0
        self.samples = []
        self.assumptions = []
        self.counts = {}
        self.models = {}
        self.types = {}
        self.snap = {}
        self.excuses, self.patience = {}, 60.0
        self.until = time.time() + 700
        self.second = 150.0
        self.load_specs()

    def load_specs(self):
        self.proj.modules["nidn._spec"] = self.proj.load_source("nidn._spec", "", os.path.join(SPECDIR, "__init__.py"))
        for f in sorted(os.listdir(SPECDIR)):
            if f.endswith(".py"):
                with open(os.path.join(SPECDIR, f)) as fh:
                    self.proj.load_source("nidn._spec." + f[:-3], fh.read(), os.path.join(SPECDIR, f))

    # ---------------------------------------------------------------- results
    def relloc(self, loc):
        if not loc:
            return "?"
        p, ln, fn = loc
        p = str(p)
        if p.startswith(self.repo):
            p = os.path.relpath(p, self.repo)
        return "%s:%s (%s)" % (p, ln, fn)

    def ok(self, label, detail=""):
        self.obligations.append({"obligation": label, "status": "discharged", "detail": detail})

    def bad(self, label, loc, msg):
        self.obligations.append({"obligation": label, "status": "violated", "detail": msg, "where": loc if isinstance(loc, str) else self.relloc(loc)})
        self.violations.append({"obligation": label, "where": loc if isinstance(loc, str) else self.relloc(loc), "what": msg})

    def unsure(self, label, msg):
        self.obligations.append({"obligation": label, "status": "undecided", "detail": msg})
        self.undecided.append({"obligation": label, "why": msg})

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ---------------------------------------------------------------- running
    def interp(self, **kw):
        return Interp(self.proj, **kw)

    def cfgarg(self, preset=None, name="cfg"):
        return ("cfg", name, {k: (v if isinstance(v, T) else lit(v)) for k, v in (preset or {}).items()})

    def run(self, func, args=None, cfg=None, cuts=(), grad=False, keep=(), selfobj=None, prep=None, seconds=100, selfcls=None, alias=None):
        it = Interp(self.proj, cuts=cuts, grad=grad, keep=keep)
        it.models = self.models
        it.types = self.types
        it.snap = self.snap
        it.selfcls = selfcls
        it.alias = alias or {}
        a = dict(args or {})
        if cfg is not None:
            for n in ("cfg", "run_cfg"):
                if any(it.alias.get(x.arg, x.arg) == n for x in func.node.args.args) and n not in a:
                    a[n] = self.cfgarg(cfg)

        def go():
            st = None
            if prep is not None:
                st = State({}, {}, TRUE)
                a.update(prep(it, st) or {})
            return it.run(func, args=a, selfobj=selfobj, st=st)
        r = limited(seconds, go)
        self.analysed |= {q for q in it.analysed if not q.startswith("nidn._spec")}
        self.calls += it.calls
        return r

    def attempt(self, label, fn):
        """run fn(); analysis failures become undecided obligations"""
        try:
            return limited(min(240, self.until - time.time()), fn)
        except Timeout:
            self.unsure(label, "analysis time budget exhausted")
        except RecursionError:
            self.unsure(label, "value graph too deep")
            if os.environ.get("NIDNSA_DEBUG"):
                tb = traceback.format_exc().splitlines(); print("\n".join(tb[:10] + ["..."] + tb[-60:]))
        except Unsupported as e:
            self.unsure(label, "unsupported construct: %s" % e)
        except Exception as e:  # internal failure: never reported as a violation
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.unsure(label, "analysis failure: %s %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("NIDNSA_DEBUG"):
                traceback.print_exc()
        return None

    def spec(self, dotted):
        f = self.proj.find("nidn._spec." + dotted)
        if f is None:
            raise RuntimeError("spec %s missing" % dotted)
        return f

    def public(self, name, label=None):
        f = self.proj.public(name)
        if not isinstance(f, (Func, Class)):
            self.bad(label or ("public name " + name), "nidn/__init__.py", "public entry point '%s' is no longer defined" % name)
            return None
        return f

    def private(self, *dotted):
        """first name that resolves; falls back to a unique function of that name anywhere."""
        for d in dotted:
            f = self.proj.find(d)
            if isinstance(f, (Func, Class)):
                return f
        last = dotted[0].split(".")[-1]
        parts = dotted[0].split(".")
        clsname = parts[-2] if parts[-2][:1].isupper() else None
        c = [x for x in self.proj.functions() if x.name == last and not x.qual.startswith("nidn._spec") and (x.cls.name if x.cls else None) == clsname]
        if len(c) == 1:
            return c[0]
        return None

    def argnames(self, f):
        if not isinstance(f, Func):
            return []
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]

    def names(self, dotted):
        return self.argnames(self.private(dotted))

    # ------------------------------------------------------------ equivalence
    def equiv(self, label, impl, spec, args=None, sargs=None, cfg=None, cuts=(), obs=("value", "raises"), prep=None, sprep=None, keep=(), post=None,
              seconds=100, domain=None, where=None):
        """impl and spec (Func or dotted spec name) compute the same observables.

        obs entries: 'value', 'raises', 'mut:<param>' (final content of a parameter),
        'self.<field>', ('events', names...) ; post(result)->dict name->T adds derived ones."""
        if isinstance(spec, tuple):
            return self.any_of([lambda s=s: self.equiv(label, impl, s, args, sargs, cfg, cuts, obs, prep, sprep, keep, post, seconds, domain, where) for s in spec])
        if isinstance(spec, str):
            spec = self.spec(spec)
        if impl is None:
            self.unsure(label, "anchor function not found")
            return None
        alias = self.aliases(impl, spec)

        def body():
            self.compare_defaults(label, impl, spec, alias)
            ri = self.run(impl, args, cfg, cuts, keep=keep, prep=prep, seconds=seconds, alias=alias)
            rs = self.run(spec, sargs if sargs is not None else args, cfg, cuts, keep=keep, prep=sprep or prep, seconds=seconds, selfcls=impl.cls)
            if where is None:
                return self.compare_results(label, ri, rs, obs, post, domain)
            ok = True
            for case, facts in where:
                ok &= self.compare_results("%s [%s]" % (label, case) if case else label, ri, rs, obs, post, domain, facts)
            return ok
        return self.settle_cuts(cuts, obs, lambda: self.attempt(label, body), lambda c2: self.equiv(
            label, impl, spec, args, sargs, cfg, c2, obs, prep, sprep, keep, post, min(seconds, 40), domain, where))

    def any_of(self, tries):
        """equivalent reference formulations: agreement with one of them is enough"""
        keep = (len(self.obligations), len(self.violations), len(self.undecided))
        saved = None
        for t in tries:
            r = t()
            if len(self.violations) == keep[1]:
                return r
            if saved is None:
                saved = (self.obligations[keep[0]:], self.violations[keep[1]:], self.undecided[keep[2]:], r)
            del self.obligations[keep[0]:], self.violations[keep[1]:], self.undecided[keep[2]:]
        self.obligations += saved[0]
        self.violations += saved[1]
        self.undecided += saved[2]
        return saved[3]

    def settle_cuts(self, cuts, obs, first, again):
        """decide with internal helpers opaque; where that differs, once more with them expanded on both sides
        (a helper that was inlined, split or bypassed is not a difference in behaviour)"""
        keep = (len(self.obligations), len(self.violations), len(self.undecided))
        r = first()
        seen = {n for o in obs if isinstance(o, tuple) and o[0] == "events" for n in o[1:]}
        if any(isinstance(o, tuple) and o[0] == "placed" for o in obs):
            seen |= set(cuts)       # what is placed where is itself the observable
        drop = [x for x in cuts if x.startswith("_") and not x.startswith("__") and not any(n == x or n.endswith("." + x) for n in seen)]
        rest = [x for x in cuts if not any(n == x or n.endswith("." + x) for n in seen)]
        if len(self.violations) == keep[1] or not rest:
            return r
        saved = (self.obligations[keep[0]:], self.violations[keep[1]:], self.undecided[keep[2]:])
        del self.obligations[keep[0]:], self.violations[keep[1]:], self.undecided[keep[2]:]
        gone = drop or rest
        t0, r2 = time.time(), None
        try:
            if self.second > 0:
                r2 = limited(self.second, lambda: again([x for x in cuts if x not in gone]))
            else:
                self.undecided.append(None)
        except Timeout:
            self.undecided.append(None)
        self.second -= time.time() - t0
        if len(self.violations) == keep[1] and len(self.undecided) == keep[2]:
            return r2
        del self.obligations[keep[0]:], self.violations[keep[1]:], self.undecided[keep[2]:]
        self.obligations += saved[0]
        self.violations += saved[1]
        self.undecided += saved[2]
        return r

    def aliases(self, impl, spec):
        """parameters that only differ in name are matched by position"""
        if not isinstance(impl, Func) or not isinstance(spec, Func):
            return {}
        ni, ns = ([x.arg for x in f.node.args.posonlyargs + f.node.args.args] for f in (impl, spec))
        ki = [x.arg for x in impl.node.args.kwonlyargs]
        a, b = [x for x in ni if x not in ns], [x for x in ns if x not in ni and x not in ki]
        out = {}
        if len(a) == len(b):
            for x, y in zip(a, b):
                if ni.index(x) != ns.index(y):
                    return {}
                out[x] = y
        return out

    def compare_defaults(self, label, impl, spec, alias=None):
        """a caller that omits an argument gets the documented value"""
        def consts(f):
            out = {}
            if not isinstance(f, Func):
                return out
            a = f.node.args
            pos = a.posonlyargs + a.args
            for arg, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                try:
                    out[arg.arg] = ast.literal_eval(d)
                except Exception:
                    out[arg.arg] = None if isinstance(d, ast.Constant) else ...
            return out
        di, ds = consts(impl), consts(spec)
        alias = alias or {}
        di = {alias.get(k, k): v for k, v in di.items()}
        names = [alias.get(x, x) for x in self.argnames(impl)]
        for k, v in ds.items():
            if k not in names or v is ...:
                continue
            lab = "%s: default of %s" % (label, k)
            if k not in di:
                self.bad(lab, (impl.mod.path, impl.node.lineno, impl.qual), "parameter %s has no default; the property requires %r" % (k, v))
            elif di[k] is ...:
                self.unsure(lab, "default is not a literal")
            elif di[k] != v or isinstance(di[k], bool) != isinstance(v, bool):
                self.bad(lab, (impl.mod.path, impl.node.lineno, impl.qual), "default of %s is %r where the property requires %r" % (k, di[k], v))
            else:
                self.ok(lab)

    def observe(self, r, obs, post, facts=None):
        out = {}
        fx = (lambda t: t) if not facts else (lambda t: settle(t, facts))
        for o in obs:
            if o == "value":
                out["returned value"] = r.value
            elif o == "raises":
                pass
            elif isinstance(o, str) and o.startswith("mut:"):
                p = r.params.get(o[4:])
                out["final state of " + o[4:]] = r.final(p) if p is not None and r.st is not None else BOT
            elif isinstance(o, str) and o.startswith("self."):
                p = r.params.get("self")
                v = r.field(p, o[5:]) if r.st is not None else BOT
                if v is None and "." in o[5:]:
                    a, b = o[5:].split(".", 1)
                    q = r.st.heap[p].data.get(a)
                    v = r.field(q, b) if q is not None else None
                if v is not None and v.op == "inst" and not v.args and v.val.endswith("#" + o):
                    v = None
                out["field " + o[5:]] = v if v is not None else sym(o)
            elif isinstance(o, str) and o.startswith("cfg."):
                out["configuration entry " + o[4:]] = cfg_entry(r, o[4:])
            elif isinstance(o, str) and o.startswith("state:"):
                out["library state " + o[6:]] = r.st.heap[CHAN[o[6:]]].data if r.st is not None else BOT
            elif o == "cfgkeys":
                out["configuration entries written"] = cfg_writes(r)
            elif isinstance(o, tuple) and o[0] == "placed":
                kinds = {}
                for e in r.it.events:
                    if e.name == "place":
                        h = e.args[2]
                        k = h.val[4:] if h.op == "app" and str(h.val).startswith("new:") else "?"
                        kinds.setdefault(o[1].get(k, k), []).append(e)
                for k in sorted(set(o[1].values())):
                    out["placed " + k] = events_term(r, ("place",), fx, kinds.get(k, []))
                rest = [e for k, es in kinds.items() if k not in o[1].values() for e in es]
                out["other placements"] = events_term(r, ("place",), fx, rest)
            elif isinstance(o, tuple) and o[0] == "events":
                out["effects " + "/".join(o[1:])[:60]] = events_term(r, o[1:], fx)
        if post is not None:
            out.update(post(r))
        return {k: fx(v) for k, v in out.items()} if facts else out

    def compare_results(self, label, ri, rs, obs, post=None, domain=None, facts=None):
        allok = True
        di, ds = ri.domain(), rs.domain()
        if facts:
            di, ds = gate(settle(di, facts)), gate(settle(ds, facts))
        if domain is not None:
            di, ds = and_(domain, di), and_(domain, ds)
        if "raises" in obs:
            allok &= self.compare_raises(label, ri, rs, domain or TRUE, facts)
        D = and_(di, ds)
        oi, os_ = self.observe(ri, obs, post, facts), self.observe(rs, obs, post, facts)
        for k in os_:
            a, b = oi.get(k, UNDEF), os_[k]
            lab = "%s: %s" % (label, k)
            if same(a, b, D):
                self.ok(lab, "normal forms coincide (%d nodes)" % len(list(subterms(a))))
                if len(self.samples) < 6:
                    self.samples.append("%s == %s" % (lab, show(a, 5)[:300]))
                continue
            allok = False
            self.report_diff(lab, ri, under(a, D), under(b, D), rs=rs)
        if ri.st is not None and rs.st is not None:
            allok &= self.untouched(label, ri, rs, D, oi)
            allok &= self.unshared(label, ri, rs, obs)
        return allok

    def written_inplace(self):
        """names of the fields that some statement of the package changes without rebinding them"""
        out = set()
        grow = ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "fill")
        for m in self.proj.modules.values():
            for x in ast.walk(m.tree):
                tg = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
                for t in tg:
                    if isinstance(x, ast.AugAssign) and isinstance(t, ast.Attribute):
                        out.add(t.attr)
                    while isinstance(t, ast.Subscript):
                        t = t.value
                        if isinstance(t, ast.Attribute):
                            out.add(t.attr)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr in grow or x.func.attr.endswith("_")):
                    for y in ast.walk(x.func.value):
                        if isinstance(y, ast.Attribute):
                            out.add(y.attr)
        return out

    def unshared(self, label, ri, rs, obs):
        """two fields that are separate arrays or lists stay separate"""
        def pairs(r):
            p = r.params.get("self")
            h = r.st.heap.get(p) if p is not None else None
            if h is None or not isinstance(h.data, dict):
                return {}
            at = {}
            for o in obs:
                if isinstance(o, str) and o.startswith("self.") and o.count(".") == 1:
                    v = h.data.get(o[5:])
                    if v is None:
                        continue
                    for q in r.it.ref_leaves(v) if v.op == "ite" else [v]:
                        g = r.st.heap.get(q) if q.op == "ref" else None
                        if g is not None and (g.kind == "list" or g.kind == "tensor" and (g.extra == "array" or r.it.is_tensor(r.it.deref(r.st, q)) or r.it.deref(r.st, q).op == "app" and r.it.deref(r.st, q).val in SHAPE_FIRST)):
                            at.setdefault(q, []).append(o[5:])
            return {(a, b) for n in at.values() for i, a in enumerate(n) for b in n[i + 1:] if a != b}
        bad = sorted(set(pairs(ri)) - set(pairs(rs)))
        if bad:
            inplace = self.written_inplace()
            bad = [x for x in bad if x[0] in inplace or x[1] in inplace]
        for a, b in bad:
            self.bad("%s: separate storage of %s and %s" % (label, a, b), self.locate((), ri), "fields %s and %s are one object: a write to one changes the other" % (a, b))
        return not bad

    def untouched(self, label, ri, rs, D, seen):
        """an argument the property does not change is not changed in place"""
        good = True
        for n, p in ri.params.items():
            if n == "self" or n in SCRATCH or p is None or p.op != "ref" or ("final state of " + n) in seen:
                continue
            h0, h1 = ri.it.entry_heap.get(p), ri.st.heap.get(p)
            if h0 is None or h1 is None or h1.kind not in ("tensor", "list", "dict") or h0.data is h1.data:
                continue
            q = rs.params.get(n)
            if q is not None and q.op == "ref" and rs.it.entry_heap.get(q) is not None and rs.st.heap[q].data is not rs.it.entry_heap[q].data:
                continue            # the reference changes it as well
            a, b = self.it_deref(ri, p), h0.data
            if isinstance(b, dict) or a is None or same(a, b, D):
                continue
            good = False
            self.report_diff("%s: argument %s is left unchanged" % (label, n), ri, under(a, D), under(b, D), rs=rs)
        return good

    def it_deref(self, r, p):
        try:
            return r.final(p)
        except Exception:
            return None

    def compare_raises(self, label, ri, rs, domain, facts=None):
        def byexc(r):
            d = {}
            prev = FALSE        # conditions under which an earlier raise already left
            for pc, exc, loc in r.raises:
                if facts:
                    pc = gate(settle(pc, facts))
                d.setdefault(exc, [FALSE, []])
                d[exc][0] = or_(d[exc][0], and_(not_(prev), pc))
                d[exc][1].append((pc, loc))
                prev = or_(prev, pc)
            return d
        bi, bs = byexc(ri), byexc(rs)
        good = True
        for exc in sorted(set(bi) | set(bs)):
            a = and_(domain, bi.get(exc, [FALSE])[0])
            b = and_(domain, bs.get(exc, [FALSE])[0])
            lab = "%s: raises %s exactly when specified" % (label, exc)
            if a is b or same(a, b):
                self.ok(lab)
                continue
            good = False
            locs = [l for pc, l in bi.get(exc, [None, []])[1] if l]
            self.report_diff(lab, ri, a, b, locs[0] if locs else None, rs=rs)
        return good

    def report_diff(self, label, ri, a, b, loc=None, rs=None):
        ds = diffs(a, b)
        why = None
        if ri.it.unknown:
            why = "unsupported construct %s at %s" % (ri.it.unknown[0][0], self.relloc(ri.it.unknown[0][1]))
        elif rs is not None and rs.it.unknown:
            why = "anchor %s of the reference semantics not found" % rs.it.unknown[0][0]
        else:
            vocab = ops_of(b)
            alt = sorted((ops_of(a) - vocab) & ALT_OPS)
            if not alt:
                # index grids: both directions
                alt = sorted((ops_of(a) ^ vocab) & SYM_ALT)
            if alt:
                why = "implementation uses %s, whose value the normal form does not interpret" % ", ".join(alt)
        if not why and self.excused(a, b):
            why = "equal for the documented shapes only (stacking, broadcasting or masked selection written differently)"
        if why:
            self.unsure(label, why + "; " + self.describe(ds, ri))
            return
        if loc is None:
            loc = self.locate(ds, ri)
        self.bad(label, loc, self.describe(ds, ri))

    def excused(self, a, b):
        """the excuse pass, within the time set aside for it in this check"""
        key = (a, b)
        if key not in self.excuses:
            t0 = time.time()
            try:
                self.excuses[key] = limited(min(25, self.patience), lambda: excused(a, b, same)) if self.patience > 0 else False
            except Timeout:
                self.excuses[key] = False
            self.patience -= time.time() - t0
        return self.excuses[key]

    def describe(self, ds, ri):
        out = []
        for x, y in ds[:2]:
            out.append("computes %s where the property requires %s" % (show(x, 6)[:400], show(y, 6)[:400]))
        return "; ".join(out)

    def locate(self, ds, ri):
        locs = ri.it.locs
        for x, y in ds:
            best = None
            for s in [x] + list(subterms(x)):
                if s in locs and locs[s] and not str(locs[s][0]).startswith(SPECDIR):
                    return locs[s]
        f = ri.func
        return (f.mod.path, f.node.lineno, f.qual)


def lit(v):
    if isinstance(v, (list, tuple)):
        return mk("list" if isinstance(v, list) else "tuple", None, [lit(x) for x in v])
    return const(v)


def settle(t, facts):
    """rewrite with the facts of a case until nothing changes"""
    if "throws" in facts:
        v = facts["throws"]
        facts = {k: x for k, x in facts.items() if k != "throws"}
        for s in subterms(t):
            if s.op == "app" and s.val == "any" and any(u.op == "app" and u.val == "throws" for u in subterms(s)):
                facts[s] = FALSE if any(u.op == "app" and u.val == "throws" and str(pyconst(u.args[0])) != "TypeError" for u in subterms(s)) else v
            elif s.op == "app" and s.val == "throws":
                facts[s] = v if str(pyconst(s.args[0])) == "TypeError" else FALSE
    for _ in range(4):
        t2 = subst(t, facts)
        if t2 is t:
            break
        t = t2
    return t


def events_term(r, names, fx=lambda t: t, events=None):
    """ordered effect trace as one term: [(name, guard, loops, args)]; adjacent
    occurrences of the same effect under exclusive guards are one effect"""
    rows = []
    for e in (r.it.events if events is None else events):
        if e.name in names:
            mp = {}
            lp = []
            for q, (fi, n) in enumerate(e.loops):
                mp[fi] = sym("%%loop%d" % q)
                lp.append(fx(subst(n, mp)) if n is not None else NONE)
            g = gate(fx(subst(e.guard, mp)))
            if g is FALSE:
                continue
            args = [fx(subst(a, mp)) for a in e.args] + [mk("kw", k, (fx(subst(v, mp)),)) for k, v in sorted(e.kws.items())]
            row = [e.name, g, lp, args]
            if rows:
                p = rows[-1]
                if p[0] == row[0] and len(p[2]) == len(lp) and all(x is y for x, y in zip(p[2], lp)) and and_(p[1], g) is FALSE and len(p[3]) == len(args) and all(
                        (x.op == "kw") == (y.op == "kw") and (x.op != "kw" or x.val == y.val) for x, y in zip(p[3], args)):
                    m = []
                    for x, y in zip(p[3], args):
                        if x.op == "kw":
                            m.append(mk("kw", x.val, (ite(p[1], x.args[0], y.args[0]),)))
                        else:
                            m.append(ite(p[1], x, y))
                    rows[-1] = [p[0], or_(p[1], g), lp, m]
                    continue
            rows.append(row)
    # effects under exclusive guards have no order among them
    for _ in rows:
        moved = False
        for i in range(len(rows) - 1):
            p, q = rows[i], rows[i + 1]
            if p[1] is not q[1] and p[1].id > q[1].id and and_(p[1], q[1]) is FALSE:
                rows[i], rows[i + 1] = q, p
                moved = True
        if not moved:
            break
    out = []
    for name, g, lp, args in rows:
        args = [under(a, g) if a.op == "ite" else a for a in args]
        lp = [restrict(x, g) for x in lp]
        out.append(mk("tuple", None, [const(name), g] + lp + [mk("tuple", None, args)]))
    return mk("list", None, out)


def cfg_ref(r):
    for n in ("cfg", "run_cfg"):
        p = r.params.get(n)
        if p is not None and p.op == "ref" and r.it.entry_heap.get(p) is not None and r.it.entry_heap[p].kind == "dotmap":
            return p
    return None


def cfg_entry(r, key):
    p = cfg_ref(r)
    if p is None or r.st is None:
        return BOT
    v = r.st.heap[p].data.get(key)
    return r.it.deref(r.st, v) if v is not None else sym(r.it.entry_heap[p].extra + "." + key)


def cfg_writes(r):
    """keys whose final content differs from the entry content"""
    p = cfg_ref(r)
    if p is None or r.st is None:
        return BOT
    h0, h1 = r.it.entry_heap[p], r.st.heap[p]
    out = []
    for k in sorted(h1.data):
        v = r.it.deref(r.st, h1.data[k])
        a = h0.data.get(k)
        v0 = r.it.deref(State({}, r.it.entry_heap, TRUE), a) if a is not None else sym(h0.extra + "." + k)
        if v is not v0:
            out.append(const(k))
    return mk("list", None, out)
