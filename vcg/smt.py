"""Terms, arithmetic layers (exact reals / IEEE-754) and the solver portfolio."""
import z3, time, subprocess, os, math, tempfile
from fractions import Fraction

z3.set_param('smt.random_seed', 1)
# accessors that cannot fail: skip z3's per-call error check
for _f in ('get_ast_id', 'get_ast_kind', 'get_app_num_args', 'get_app_arg', 'inc_ref', 'dec_ref', 'get_sort', 'get_sort_kind', 'get_decl_kind', 'is_eq_ast', 'get_app_decl', 'to_app', 'is_app', 'mk_true', 'mk_false', 'get_bool_value', 'solver_assert'):
    _g = getattr(z3.z3core, 'Z3_' + _f, None)
    if _g is not None and _g.__defaults__: _g.__defaults__[-1].Check = lambda ctx: None
def sol_add(sol, fs):
    c = z3.main_ctx().ref(); a = z3.z3core.Z3_solver_assert
    for f in fs: a(c, sol.solver, f.ast)

class Unsupported(Exception): pass
class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

def is_z(x): return isinstance(x, z3.ExprRef)
def is_b(x): return isinstance(x, bool) or (is_z(x) and z3.is_bool(x))
def rv(x):
    if isinstance(x, Fraction): return z3.RealVal(str(x.numerator) + ('/' + str(x.denominator) if x.denominator != 1 else ''))
    if isinstance(x, bool): raise Unsupported('bool as real')
    if isinstance(x, int): return z3.RealVal(x)
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x): raise Unsupported('inf/nan in real arithmetic')
        return rv(Fraction(x))
    return x
def iv(x): return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else x
def bv(x): return z3.BoolVal(x) if isinstance(x, bool) else x

def And(*xs):
    l = []
    for x in xs:
        if x is True: continue
        if x is False: return False
        l.append(x)
    if not l: return True
    return l[0] if len(l) == 1 else z3.And(*l)
def Or(*xs):
    l = []
    for x in xs:
        if x is False: continue
        if x is True: return True
        l.append(x)
    if not l: return False
    return l[0] if len(l) == 1 else z3.Or(*l)
def Not(x):
    if isinstance(x, bool): return not x
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def simp(x):
    if not is_z(x): return x
    x = z3.simplify(x)
    return conc(x)
def conc(x):
    if z3.is_true(x): return True
    if z3.is_false(x): return False
    if z3.is_int_value(x): return x.as_long()
    if z3.is_rational_value(x): return Fraction(x.numerator_as_long(), x.denominator_as_long())
    return x
def eqv(a, b):
    """formula a == b (ints/bools/reals)"""
    if not is_z(a) and not is_z(b): return a == b
    if is_z(a) and is_z(b) and a.eq(b): return True
    if is_b(a): return bv(a) == bv(b)
    if isinstance(a, Fraction) or isinstance(b, Fraction) or (is_z(a) and z3.is_real(a)): return rv(a) == rv(b)
    if is_z(a) and z3.is_fp(a) or is_z(b) and z3.is_fp(b):
        return fpv(a) == fpv(b)
    return iv(a) == iv(b)
F64 = z3.Float64(); RNE = z3.RNE()
def fpv(x):
    if isinstance(x, float): return z3.FPVal(x, F64)
    if isinstance(x, Fraction): return z3.FPVal(float(x), F64)
    return x

# ---------------------------------------------------------------- real arithmetic layer
class RealOps:
    name = 'real'
    alg = None
    ufs = {}
    def const(s, x):
        if isinstance(x, float):
            if math.isinf(x) or math.isnan(x): return x
            return Fraction(x)
        return x
    def fresh(s, n): return z3.Real(n)
    def sp(s, *a): return any(isinstance(x, float) for x in a)
    def add(s, a, b):
        if s.sp(a, b): return s.spec('+', a, b)
        if not is_z(a) and not is_z(b): return a + b
        if not is_z(a) and a == 0: return b
        if not is_z(b) and b == 0: return a
        return rv(a) + rv(b)
    def sub(s, a, b):
        if s.sp(a, b): return s.spec('-', a, b)
        if not is_z(a) and not is_z(b): return a - b
        if not is_z(b) and b == 0: return a
        if is_z(a) and is_z(b) and a.eq(b): return Fraction(0)
        if not is_z(a) and a == 0: return -b
        return rv(a) - rv(b)
    def mul(s, a, b):
        if s.sp(a, b): return s.spec('*', a, b)
        if not is_z(a) and not is_z(b): return a * b
        for x, y in ((a, b), (b, a)):
            if not is_z(x):
                if x == 0: return Fraction(0)
                if x == 1: return y
        return rv(a) * rv(b)
    def div(s, a, b):
        if s.sp(a, b): return s.spec('/', a, b)
        if not is_z(b) and b == 0:
            if not is_z(a): return float('nan') if a == 0 else float('inf') * (1 if a > 0 else -1)
            return s.uf('div0', a)
        if not is_z(a) and not is_z(b): return a / b
        if not is_z(b): return a if b == 1 else rv(a) * rv(1 / b)
        if not is_z(a) and a == 0: return Fraction(0) if False else rv(a) / rv(b)
        return rv(a) / rv(b)
    def spec(s, op, a, b):
        """inf / nan with a concrete or symbolic finite operand"""
        def f(x):
            if isinstance(x, float): return x
            if is_z(x): return None
            return float(x)
        x, y = f(a), f(b)
        if (isinstance(a, float) and math.isnan(a)) or (isinstance(b, float) and math.isnan(b)): return float('nan')
        if op in '+-':
            if x is None: x = 0.0
            if y is None: y = 0.0
            return x + y if op == '+' else x - y
        if op == '/' and isinstance(b, float) and math.isinf(b) and not isinstance(a, float): return Fraction(0)
        if x is None or y is None: raise Unsupported('inf with symbolic operand in ' + op)
        try: r = x * y if op == '*' else x / y
        except ZeroDivisionError: r = float('nan')
        return s.const(r)
    def neg(s, a):
        if is_z(a): return -a
        return -a
    def cmp(s, pr, a, b):
        if s.sp(a, b):
            fa = a if isinstance(a, float) else 0.0; fb = b if isinstance(b, float) else 0.0
            nan = math.isnan(fa) or math.isnan(fb)
            if nan: return pr[0] == 'u' and pr != 'uno' or pr == 'uno' or pr == 'true'
            if pr == 'ord': return True
            if pr == 'uno': return False
            o = pr[1:]
            return {'eq': fa == fb if (math.isinf(fa) and math.isinf(fb)) else False, 'ne': fa != fb if (math.isinf(fa) and math.isinf(fb)) else True, 'lt': fa < fb, 'le': fa <= fb, 'gt': fa > fb, 'ge': fa >= fb}[o]
        if pr == 'ord' or pr == 'true': return True
        if pr == 'uno' or pr == 'false': return False
        o = pr[1:]
        if not is_z(a) and not is_z(b):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[o]
        if is_z(a) and is_z(b) and a.eq(b): return o in ('eq', 'le', 'ge')
        a = rv(a); b = rv(b)
        if s.alg is not None: return s.alg.unify_cmp(o, a, b, lambda o, a, b: a == b if o == 'eq' else a < b, Not)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[o]()
        return r
    def fabs(s, a):
        if isinstance(a, float): return abs(a)
        if not is_z(a): return abs(a)
        return z3.If(a >= 0, a, -a)
    def uf(s, name, *args):
        f = s.ufs.get((name, len(args)))
        if f is None:
            f = s.ufs[(name, len(args))] = z3.Function('uf_' + name, *([z3.RealSort()] * (len(args) + 1)))
        t = f(*[rv(x) for x in args])
        return t if s.alg is None else s.alg.unify_app(t)
    def fun(s, name, *args):
        """libm function: constants evaluated in binary64, otherwise uninterpreted (axioms added by the solver layer)"""
        if not any(is_z(a) for a in args):
            try:
                r = getattr(math, name)(*[float(a) for a in args])
                return s.const(r)
            except (ValueError, OverflowError): return float('nan')
        if name == 'pow' and not is_z(args[1]):
            k = args[1]
            if k.denominator == 1 and 0 <= k <= 4:
                r = Fraction(1)
                for _ in range(int(k)): r = s.mul(r, args[0])
                return r
        if name in ('floor', 'ceil'):
            a = args[0]; k = z3.ToInt(a)
            if name == 'floor': return z3.ToReal(k)
            return z3.If(z3.ToReal(k) == a, a, z3.ToReal(k) + 1)
        return s.uf(name, *args)
    def of_int(s, a):
        if is_z(a): return z3.ToReal(a)
        return Fraction(int(a))
    def to_int(s, a):
        if isinstance(a, float): return 0   # undefined conversion
        if not is_z(a): return int(a)
        return z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a))
    def eq(s, a, b): return s.cmp('oeq', a, b)

class FpOps(RealOps):
    """IEEE-754 binary64, round to nearest even"""
    name = 'fp'
    def const(s, x): return float(x)
    def fresh(s, n): return z3.FP(n, F64)
    def c(s, a): return not is_z(a)
    def add(s, a, b): return a + b if s.c(a) and s.c(b) else z3.fpAdd(RNE, fpv(a), fpv(b))
    def sub(s, a, b): return a - b if s.c(a) and s.c(b) else z3.fpSub(RNE, fpv(a), fpv(b))
    def mul(s, a, b): return a * b if s.c(a) and s.c(b) else z3.fpMul(RNE, fpv(a), fpv(b))
    def div(s, a, b):
        if s.c(a) and s.c(b) and b != 0: return a / b
        return conc_fp(z3.simplify(z3.fpDiv(RNE, fpv(a), fpv(b)))) if s.c(a) and s.c(b) else z3.fpDiv(RNE, fpv(a), fpv(b))
    def neg(s, a): return -a if s.c(a) else z3.fpNeg(a)
    def cmp(s, pr, a, b):
        if pr == 'true': return True
        if pr == 'false': return False
        if s.c(a) and s.c(b):
            nan = math.isnan(a) or math.isnan(b)
            if pr == 'ord': return not nan
            if pr == 'uno': return nan
            if nan: return pr[0] == 'u'
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr[1:]]
        a = fpv(a); b = fpv(b)
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pr == 'ord': return z3.Not(nan)
        if pr == 'uno': return nan
        o = pr[1:]
        c = {'eq': lambda: z3.fpEQ(a, b), 'ne': lambda: z3.And(z3.Not(z3.fpEQ(a, b)), z3.Not(nan)), 'lt': lambda: z3.fpLT(a, b), 'le': lambda: z3.fpLEQ(a, b), 'gt': lambda: z3.fpGT(a, b), 'ge': lambda: z3.fpGEQ(a, b)}[o]()
        return c if pr[0] == 'o' else z3.Or(nan, c)
    def fabs(s, a): return abs(a) if s.c(a) else z3.fpAbs(a)
    def uf(s, name, *args):
        f = s.ufs.get(('fp' + name, len(args)))
        if f is None:
            f = s.ufs[('fp' + name, len(args))] = z3.Function('fp_' + name, *([F64] * (len(args) + 1)))
        return f(*[fpv(x) for x in args])
    def fun(s, name, *args):
        if all(s.c(a) for a in args):
            try: return float(getattr(math, name)(*args))
            except (ValueError, OverflowError): return float('nan')
        if name == 'sqrt': return z3.fpSqrt(RNE, args[0])
        if name == 'floor': return z3.fpRoundToIntegral(z3.RTN(), args[0])
        if name == 'ceil': return z3.fpRoundToIntegral(z3.RTP(), args[0])
        return s.uf(name, *args)
    def of_int(s, a):
        if is_z(a): return z3.fpToFP(RNE, z3.ToReal(a), F64)
        return float(a)
    def to_int(s, a):
        if s.c(a):
            return int(a) if math.isfinite(a) else 0
        r = z3.fpToReal(a)
        return z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r))
    def eq(s, a, b):
        if s.c(a) and s.c(b): return a == b or (a != a and b != b)
        return fpv(a) == fpv(b)
def conc_fp(x):
    if z3.is_fp_value(x):
        if x.isNaN(): return float('nan')
        if x.isInf(): return float('-inf') if x.isNegative() else float('inf')
        r = z3.simplify(z3.fpToReal(x)); return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    return x

# ---------------------------------------------------------------- linear decomposition of Int terms
_lin = {}
def lin(t):
    """-> (const, {id: (term, coef)}) for a python int or z3 Int term"""
    if isinstance(t, int): return t, {}
    k = t.get_id()
    r = _lin.get(k)
    if r is not None and r[2].eq(t): return r[0], r[1]
    c, d = _lin0(t)
    _lin[k] = (c, d, t)
    return c, d
def _lin0(t):
    if z3.is_int_value(t): return t.as_long(), {}
    if z3.is_add(t) or z3.is_sub(t):
        c = 0; d = {}
        for i, a in enumerate(t.children()):
            s = -1 if (z3.is_sub(t) and i > 0) else 1
            c1, d1 = lin(a); c += s * c1
            for k, (x, q) in d1.items():
                q0 = d.get(k, (x, 0))[1] + s * q
                if q0: d[k] = (x, q0)
                else: d.pop(k, None)
        return c, d
    if z3.is_mul(t):
        c = 1; rest = []
        for a in t.children():
            c1, d1 = lin(a)
            if not d1: c *= c1
            else: rest.append((c1, d1))
        if not rest: return c, {}
        if len(rest) == 1:
            c1, d1 = rest[0]
            return c * c1, {k: (x, q * c) for k, (x, q) in d1.items() if q * c}
    if t.decl().kind() == z3.Z3_OP_UMINUS:
        c1, d1 = lin(t.arg(0)); return -c1, {k: (x, -q) for k, (x, q) in d1.items()}
    return 0, {t.get_id(): (t, 1)}
def unlin(c, d):
    if not d: return c
    ts = [x if q == 1 else q * x for (x, q) in (d[k] for k in sorted(d))]
    r = ts[0] if len(ts) == 1 else z3.Sum(*ts)
    return r if c == 0 else r + c
def ilin(t):
    if isinstance(t, int): return t
    return unlin(*lin(t))
def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return ilin(iv(a) + iv(b))
def isub(a, b):
    if isinstance(a, int) and isinstance(b, int): return a - b
    return ilin(iv(a) - iv(b))
def imul(a, b):
    if isinstance(a, int) and isinstance(b, int): return a * b
    if isinstance(a, int) and a == 1: return b
    if isinstance(b, int) and b == 1: return a
    if 0 in (x for x in (a, b) if isinstance(x, int)): return 0
    return ilin(iv(a) * iv(b))

# ---------------------------------------------------------------- symbols of a term (cached)
_sy = {}
def syms(t):
    if not is_z(t): return frozenset()
    k = t.get_id(); r = _sy.get(k)
    if r is not None and r[1].eq(t): return r[0]
    out = set(); seen = set(); st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        c = _sy.get(i)
        if c is not None and c[1].eq(x): out |= c[0]; continue
        if z3.is_app(x):
            dd = x.decl()
            if dd.kind() == z3.Z3_OP_UNINTERPRETED: out.add(dd.name())
            st.extend(x.children())
        elif z3.is_quantifier(x): st.append(x.body())
    r = frozenset(out); _sy[k] = (r, t)
    return r
def subterms(ts, pred):
    out = {}; seen = set(); st = [t for t in ts if is_z(t)]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            if pred(x): out[i] = x
            st.extend(x.children())
    return list(out.values())

# ---------------------------------------------------------------- uninterpreted applications of a term (cached per formula)
_ua = {}
def uapps(t):
    """-> (applications of uninterpreted functions with arguments, uninterpreted Int constants)"""
    k = t.get_id(); r = _ua.get(k)
    if r is not None and r[2].eq(t): return r
    apps = {}; ints = {}; seen = set(); st = [t]
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_app(x):
            ch = x.children()
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if ch: apps[i] = x
                elif z3.is_int(x): ints[i] = x
            for c in ch:
                ci = c.get_id()
                if ci in seen: continue
                q = _ua.get(ci)
                if q is not None and q[2].eq(c):
                    seen.add(ci)
                    apps.update(q[0]); ints.update(q[1])
                else: st.append(c)
    r = (apps, ints, t); _ua[k] = r
    return r
