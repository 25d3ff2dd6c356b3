"""Equality of rational-function terms over arbitrary subterms: fingerprints modulo a prime select candidates, an exact
normal form (numerator polynomial over a factored denominator) decides.  Division by zero is unspecified here as everywhere."""
import z3, hashlib
from fractions import Fraction
P = (1 << 61) - 1
CAP = 6000
K = z3
class Big(Exception): pass

def _h(*xs): return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'big') % (P - 2) + 1

class Alg:
    def __init__(s): s.m = {}; s.rf_m = {}; s.reps = {}; s.cmps = {}; s.eqm = {}; s.linreps = {}; s.K = None; s.sumatoms = {}; s.lbm = {}; s.dom = {}; s.ind = {}; s.indname = {}; s.bm = {}
    # ---------------- fingerprints
    def fp(s, t):
        """integer modulo P, or None (division by something that vanishes)"""
        if not isinstance(t, z3.ExprRef):
            if isinstance(t, bool): return _h('b', t)
            if isinstance(t, float): return None
            f = Fraction(t); return f.numerator % P * pow(f.denominator % P, P - 2, P) % P
        st = [t]
        while st:
            x = st[-1]; i = x.get_id()
            r = s.m.get(i)
            if r is not None and r[1].eq(x): st.pop(); continue
            ch = [x.arg(k) for k in range(x.num_args())] if z3.is_app(x) else []
            todo = [c for c in ch if not (c.get_id() in s.m and s.m[c.get_id()][1].eq(c))]
            if todo: st.extend(todo); continue
            s.m[i] = (s._fp(x, [s.m[c.get_id()][0] for c in ch]), x); st.pop()
        return s.m[t.get_id()][0]
    def _fp(s, x, v):
        if not z3.is_app(x): return _h('o', x.get_id())
        if z3.is_rational_value(x) or z3.is_int_value(x):
            f = x.as_fraction() if z3.is_rational_value(x) else Fraction(x.as_long())
            return f.numerator % P * pow(f.denominator % P, P - 2, P) % P
        k = x.decl().kind()
        if any(a is None for a in v): return None
        if k == K.Z3_OP_ADD: return sum(v) % P
        if k == K.Z3_OP_SUB: return (v[0] - sum(v[1:])) % P
        if k == K.Z3_OP_UMINUS: return -v[0] % P
        if k == K.Z3_OP_MUL:
            r = 1
            for a in v: r = r * a % P
            return r
        if k == K.Z3_OP_DIV: return v[0] * pow(v[1], P - 2, P) % P if v[1] else None
        if k == K.Z3_OP_POWER and z3.is_int_value(x.arg(1)): return pow(v[0], x.arg(1).as_long(), P)
        if k == K.Z3_OP_TO_REAL: return v[0]
        if k == K.Z3_OP_ITE and not z3.is_bool(x): return v[1] if s.bfp(x.arg(0)) else v[2]
        if k in (K.Z3_OP_LE, K.Z3_OP_GE): return _h('le', (v[0] - v[1]) % P if k == K.Z3_OP_LE else (v[1] - v[0]) % P)
        if k in (K.Z3_OP_LT, K.Z3_OP_GT): return _h('lt', (v[0] - v[1]) % P if k == K.Z3_OP_LT else (v[1] - v[0]) % P)
        return _h(x.decl().name(), k, tuple(v), x.decl().get_id() if k == K.Z3_OP_UNINTERPRETED else 0)
    # ---------------- conditions as 0/1 values: an equality of an integer input of small range with a number, or an opaque condition
    def setdom(s, v, lo, hi):
        n = v.decl().name()
        if isinstance(lo, int) and isinstance(hi, int) and 0 < hi - lo <= 8: s.dom[n] = (lo, hi) if s.dom.get(n, (lo, hi)) == (lo, hi) else None
    def domeq(s, c):
        if not z3.is_eq(c): return None
        a, b = c.children()
        if z3.is_int_value(a): a, b = b, a
        if not z3.is_int_value(b) or not z3.is_const(a): return None
        d = s.dom.get(a.decl().name()) if a.decl().kind() == K.Z3_OP_UNINTERPRETED else None
        return (a.decl().name(), b.as_long(), d) if d else None
    def bfp(s, c):
        k = c.decl().kind() if z3.is_app(c) else None
        if k == K.Z3_OP_TRUE: return 1
        if k == K.Z3_OP_FALSE: return 0
        if k == K.Z3_OP_NOT: return 1 - s.bfp(c.arg(0))
        if k == K.Z3_OP_AND: return int(all([s.bfp(x) for x in c.children()]))
        if k == K.Z3_OP_OR: return int(any([s.bfp(x) for x in c.children()]))
        d = s.domeq(c)
        if d: return int(d[2][0] + _h('dom', d[0]) % (d[2][1] - d[2][0] + 1) == d[1])
        f = s.fp(c)
        return _h('bool', c.get_id() if f is None else f) & 1
    def brf(s, c):
        k = c.decl().kind() if z3.is_app(c) else None
        one = (s.ONE, {})
        if k == K.Z3_OP_TRUE: return one
        if k == K.Z3_OP_FALSE: return {}, {}
        if k == K.Z3_OP_NOT: return s.rsub(one, s.brf(c.arg(0)))
        if k == K.Z3_OP_AND:
            r = one
            for x in c.children(): r = s.rmul(r, s.brf(x))
            return r
        if k == K.Z3_OP_OR:
            r = one
            for x in c.children(): r = s.rmul(r, s.rsub(one, s.brf(x)))
            return s.rsub(one, r)
        d = s.domeq(c)
        if d:
            nm, v, (lo, hi) = d
            if not lo <= v <= hi: return {}, {}
            if v == hi:
                r = one
                for w in range(lo, hi): r = s.rsub(r, s.indicator((nm, w)))
                return r
            return s.indicator((nm, v))
        return s.indicator(('b', s.atom(c)))
    def indicator(s, key):
        i = s.indname.get(key)
        if i is None: i = s.indname[key] = (1 << 60) + len(s.indname); s.ind[i] = key
        return {((i, 1),): Fraction(1)}, {}
    # ---------------- exact normal form
    def equal(s, a, b):
        """exact equality of two real terms as rational functions (uninterpreted applications of equal arguments are equal)"""
        fa, fb = s.fp(a), s.fp(b)
        if fa is None or fa != fb: return False
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b): return True
        key = (a.get_id() if isinstance(a, z3.ExprRef) else a, b.get_id() if isinstance(b, z3.ExprRef) else b)
        r = s.eqm.get(key)
        if r is None:
            r = False; k0 = s.K
            for k in (8, None):     # first with long sums in products kept as one factor each
                s.K = k
                try: r = not s.rsub(s.rf(a), s.rf(b))[0]
                except Big: pass
                if r: break
            s.K = k0
            s.eqm[key] = r = (r, a, b)
        return r[0]
    def atom(s, x):
        """representative id of an opaque subterm"""
        f = s.fp(x)
        if f is None: raise Big()
        l = s.reps.setdefault(f, [])
        for y in l:
            if y.eq(x) or s.same(x, y): return y.get_id()
        l.append(x); return x.get_id()
    def same(s, x, y):
        if not (z3.is_app(x) and z3.is_app(y)) or not x.decl().eq(y.decl()) or x.num_args() != y.num_args(): return False
        for a, b in zip(x.children(), y.children()):
            if a.eq(b): continue
            if z3.is_real(a) or z3.is_int(a):
                if not s.equal(a, b): return False
            elif not s.same(a, b): return False
        return True
    @staticmethod
    def padd(a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            q = r.get(m, 0) + k * c
            if q: r[m] = q
            else: r.pop(m, None)
        return r
    def mmul(s, m, n):
        d = dict(m)
        for a, e in n: d[a] = d.get(a, 0) + e
        if s.ind:
            seen = {}
            for a in d:
                k = s.ind.get(a)
                if k is None: continue
                d[a] = 1                                   # [c]^2 = [c]
                if k[0] != 'b':
                    if k[0] in seen: return None           # [x=v] [x=w] = 0
                    seen[k[0]] = 1
        return tuple(sorted(d.items()))
    def pmul(s, a, b):
        if len(a) * len(b) > CAP * 4: raise Big()
        if len(b) == 1 and () in b: 
            k = b[()]; return {m: c * k for m, c in a.items()}
        r = {}
        for m, c in a.items():
            for n, e in b.items():
                q = s.mmul(m, n)
                if q is None: continue
                v = r.get(q, 0) + c * e
                if v: r[q] = v
                else: r.pop(q, None)
        if len(r) > CAP: raise Big()
        return r
    ONE = {(): Fraction(1)}
    def factors(s, p):
        """polynomial -> (constant, {factor: exponent}); factors are atoms (ids) or frozen polynomials"""
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {a: min(e, d[a]) for a, e in common.items() if a in d}
        fs = {('a', a): e for a, e in common.items()}
        q = {}
        for m, c in p.items():
            q[tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0))] = c
        if len(q) == 1 and () in q: return q[()], fs
        lead = q[max(q)]
        fz = ('p', tuple(sorted((m, c / lead) for m, c in q.items())))
        fs[fz] = 1
        return lead, fs
    def fpoly(s, f, e):
        base = {((f[1], 1),): Fraction(1)} if f[0] == 'a' else dict(f[1])
        r = s.ONE
        for _ in range(e): r = s.pmul(r, base)
        return r
    def expand(s, fs):
        r = s.ONE
        for f, e in fs.items(): r = s.pmul(r, s.fpoly(f, e))
        return r
    def reduce(s, n, d):
        if not n: return n, {}
        d = dict(d)
        for f in list(d):
            if f[0] == 'a':
                k = min(min(dict(m).get(f[1], 0) for m in n), d[f])
                if k:
                    n = {tuple((a, e - k if a == f[1] else e) for a, e in m if not (a == f[1] and e == k)): c for m, c in n.items()}
                    d[f] -= k
                    if not d[f]: del d[f]
        return n, d
    def radd(s, x, y, k=1):
        l = dict(x[1])
        for f, e in y[1].items(): l[f] = max(l.get(f, 0), e)
        ex = s.expand({f: e - x[1].get(f, 0) for f, e in l.items() if e > x[1].get(f, 0)})
        ey = s.expand({f: e - y[1].get(f, 0) for f, e in l.items() if e > y[1].get(f, 0)})
        return s.reduce(s.padd(s.pmul(x[0], ex), s.pmul(y[0], ey), k), l)
    def rsub(s, x, y): return s.radd(x, y, -1)
    def rmul(s, x, y):
        l = dict(x[1])
        for f, e in y[1].items(): l[f] = l.get(f, 0) + e
        return s.reduce(s.pmul(x[0], y[0]), l)
    def rdiv(s, x, y):
        if not y[0]: raise Big()
        c, fs = s.factors(y[0])
        n = s.pmul(x[0], {(): 1 / c}); d = dict(x[1])
        up = {}
        for f, e in y[1].items(): up[f] = e
        for f, e in fs.items():
            if f in up:
                k = min(e, up[f]); up[f] -= k; e -= k
                if not up[f]: del up[f]
            if e: d[f] = d.get(f, 0) + e
        for f in list(up):
            if f in d:
                k = min(d[f], up[f]); d[f] -= k; up[f] -= k
                if not d[f]: del d[f]
                if not up[f]: del up[f]
        return s.reduce(s.pmul(n, s.expand(up)), d)
    def short(s, x):
        """a long numerator becomes a constant times one atom"""
        if s.K is None or len(x[0]) <= s.K: return x
        c, fs = s.factors(x[0]); n = {(): c}
        for f, e in fs.items():
            a = f[1] if f[0] == 'a' else s.sumatoms.setdefault(f, -1 - len(s.sumatoms))
            n = s.pmul(n, {((a, e),): Fraction(1)})
        return s.reduce(n, x[1])
    def rf(s, t):
        if not isinstance(t, z3.ExprRef):
            f = Fraction(t); return ({(): f} if f else {}), {}
        r = s.rf_m.get((t.get_id(), s.K))
        if r is not None and r[1].eq(t): return r[0]
        r = s._rf(t); s.rf_m[t.get_id(), s.K] = (r, t)
        return r
    def _rf(s, x):
        if z3.is_rational_value(x): f = x.as_fraction(); return ({(): f} if f else {}), {}
        if z3.is_int_value(x): f = Fraction(x.as_long()); return ({(): f} if f else {}), {}
        if z3.is_app(x):
            k = x.decl().kind(); ch = x.children()
            if k == K.Z3_OP_ADD:
                r = s.rf(ch[0])
                for c in ch[1:]: r = s.radd(r, s.rf(c))
                return r
            if k == K.Z3_OP_SUB:
                r = s.rf(ch[0])
                for c in ch[1:]: r = s.rsub(r, s.rf(c))
                return r
            if k == K.Z3_OP_UMINUS: return s.rsub(({}, {}), s.rf(ch[0]))
            if k == K.Z3_OP_MUL:
                r = s.short(s.rf(ch[0]))
                for c in ch[1:]: r = s.rmul(r, s.short(s.rf(c)))
                return r
            if k == K.Z3_OP_DIV: return s.rdiv(s.short(s.rf(ch[0])), s.short(s.rf(ch[1])))
            if k == K.Z3_OP_POWER and z3.is_int_value(ch[1]) and 0 <= ch[1].as_long() <= 6:
                r = (s.ONE, {})
                for _ in range(ch[1].as_long()): r = s.rmul(r, s.rf(ch[0]))
                return r
            if k == K.Z3_OP_TO_REAL: return s.rf(ch[0])
            if k == K.Z3_OP_ITE:        # b + [c] (a - b) for the 0/1 value [c]
                b = s.rf(ch[2])
                return s.radd(b, s.rmul(s.brf(ch[0]), s.rsub(s.rf(ch[1]), b)))
        return {((s.atom(x), 1),): Fraction(1)}, {}
    # ---------------- use: one term per class of equal applications / comparisons
    def unify_app(s, t):
        """t: application of an uninterpreted function; the first application with equal arguments"""
        try: i = s.atom(t)
        except Big: return t
        for y in s.reps[s.fp(t)]:
            if y.get_id() == i: return y
        return t
    def unify_cmp(s, op, a, b, mk, neg):
        """comparison a op b (op: eq ne lt le gt ge) in terms of one 'equal' or 'less' atom per difference"""
        if op == 'ne': return neg(s.unify_cmp('eq', a, b, mk, neg))
        if op == 'le': return neg(s.unify_cmp('lt', b, a, mk, neg))
        if op == 'ge': return neg(s.unify_cmp('lt', a, b, mk, neg))
        if op == 'gt': return s.unify_cmp('lt', b, a, mk, neg)
        fa, fb = s.fp(a), s.fp(b)
        if fa is None or fb is None: return mk(op, a, b)
        if fa == fb and s.equal(a, b): return op == 'eq'
        l = s.cmps.setdefault((op, (fa - fb) % P), [])
        for (x, y, t) in l:
            try:
                if not s.rsub(s.rsub(s.rf(a), s.rf(b)), s.rsub(s.rf(x), s.rf(y)))[0]: return t
            except Big: pass
        t = mk(op, a, b); l.append((a, b, t)); return t
    # ---------------- linear abstraction (implied by the formulas): nonlinear terms are arbitrary numbers with the right sign
    def linabs(s, fs):
        ax = {}; out = [s.lb(bvz(f), ax) for f in fs]
        return out + list(ax.values())
    def rep(s, t):
        f = s.fp(t)
        l = s.linreps.setdefault(f, []) if f is not None else s.linreps.setdefault(('id', t.get_id()), [])
        for y, v in l:
            if y.eq(t) or f is not None and s.equal(y, t): return v
        v = z3.FreshConst(t.sort(), 'la'); l.append((t, v))
        return v
    def lb(s, x, ax):
        k = x.get_id(); m = s.lbm.get(k)
        if m is not None and m[1].eq(x): ax.update(m[2]); return m[0]
        a2 = {}; r = s._lb(x, a2); s.lbm[k] = (r, x, a2); ax.update(a2)
        return r
    def _lb(s, x, ax):
        if not z3.is_app(x) or x.num_args() == 0: return x
        if z3.is_real(x): 
            k = x.decl().kind(); ch = x.children()
            if k == K.Z3_OP_MUL:
                co = z3.RealVal(1); rest = []; st = list(ch)
                while st:
                    c = st.pop()
                    if z3.is_rational_value(c): co = z3.simplify(co * c)
                    elif z3.is_app(c) and c.decl().kind() == K.Z3_OP_MUL: st.extend(c.children())
                    else: rest.append(c)
                if not rest: return co
                if len(rest) == 1: return co * s.lb(rest[0], ax)
                v = s.rep(z3.Product(*sorted(rest, key=lambda c: c.get_id())))
                l = [s.lb(c, ax) for c in rest]
                ax[v.get_id()] = z3.And(z3.Implies(z3.And([c > 0 for c in l]), v > 0), z3.Implies(z3.And([c >= 0 for c in l]), v >= 0), z3.Implies(z3.Or([c == 0 for c in l]), v == 0),
                    *([z3.Implies(z3.Xor(l[0] > 0, l[1] > 0), v <= 0), z3.Implies(z3.And(l[0] <= 0, l[1] <= 0), v >= 0)] if len(l) == 2 else []))
                return co * v
            if k == K.Z3_OP_DIV:
                if z3.is_rational_value(ch[1]): return s.lb(ch[0], ax) / ch[1]
                v = s.rep(x); a = s.lb(ch[0], ax); b = s.lb(ch[1], ax)
                ax[v.get_id()] = z3.And(z3.Implies(b > 0, z3.And((a > 0) == (v > 0), (a < 0) == (v < 0), (a > b) == (v > 1), (a < b) == (v < 1))), z3.Implies(b < 0, z3.And((a > 0) == (v < 0), (a < 0) == (v > 0))))
                return v
            if k == K.Z3_OP_UNINTERPRETED:
                v = s.rep(x); nm = x.decl().name(); a = s.lb(ch[0], ax) if z3.is_real(ch[0]) else None
                if nm == 'uf_exp': ax[v.get_id()] = z3.And(v > 0, (a >= 0) == (v >= 1))
                elif nm == 'uf_sqrt': ax[v.get_id()] = z3.Implies(a >= 0, z3.And(v >= 0, (a > 0) == (v > 0)))
                elif nm in ('uf_asinh', 'uf_sinh', 'uf_tanh', 'uf_atan'): ax[v.get_id()] = z3.And((a >= 0) == (v >= 0), (a > 0) == (v > 0))
                return v
        l = [s.lb(c, ax) for c in x.children()]
        return x if all(a.eq(b) for a, b in zip(l, x.children())) else x.decl()(*l)
def bvz(x): return z3.BoolVal(x) if isinstance(x, bool) else x
