"""Obligation discharge: axiom instantiation (sums, folds, quantified facts, libm), slicing, z3 + cvc5 portfolio."""
import re, z3, time, subprocess, os, tempfile
from fractions import Fraction
from smt import *

SLOW = float(__import__('os').environ.get('VCG_SLOW', '0'))
def frames(n):
    f = __import__('sys')._getframe(2); out = []
    while f and len(out) < n: out.append(f); f = f.f_back
    return out
QUOT = None
def abstract_hard(fs):
    """the formulas with every truncation to an integer an arbitrary number and every quotient by a non-constant a function
    with a few properties of quotients (all implied by the formulas); None without truncations"""
    global QUOT
    if QUOT is None: QUOT = z3.Function('quot', z3.RealSort(), z3.RealSort(), z3.RealSort())
    memo = {}; rep = {}; ax = {}; hit = [False]
    def rec(x):
        k = x.get_id()
        if k in memo: return memo[k][1]
        r = x
        if z3.is_app(x) and x.num_args() > 0:
            kd = x.decl().kind()
            if kd == z3.Z3_OP_TO_INT:
                hit[0] = True; r = rep.setdefault(k, z3.FreshConst(x.sort(), 'ab'))
            else:
                ch = [rec(c) for c in x.children()]
                if kd == z3.Z3_OP_DIV and not z3.is_rational_value(ch[1]):
                    r = QUOT(*ch); ax[r.get_id()] = z3.Implies(ch[1] != 0, z3.And(r * ch[1] == ch[0], (ch[0] == 0) == (r == 0)))
                elif any(not a.eq(b) for a, b in zip(ch, x.children())): r = x.decl()(*ch)
        memo[k] = (x, r)
        return r
    out = [rec(bv(f)) for f in fs]
    return out + list(ax.values()) if hit[0] else None
def hoist(e):
    """monomials of e, with the monomials which both branches of an if-then-else share taken out of it"""
    if z3.is_add(e): return [m for c in e.children() for m in hoist(c)]
    if not z3.is_app_of(e, z3.Z3_OP_ITE): return [e]
    a, b = hoist(e.arg(1)), hoist(e.arg(2)); ib = {m.get_id() for m in b}
    com = [m for m in a if m.get_id() in ib]
    if not com: return [e]
    ic = {m.get_id() for m in com}
    ra = [m for m in a if m.get_id() not in ic]; rb = [m for m in b if m.get_id() not in ic]
    su = lambda l: z3.simplify(z3.Sum(l), som=True) if l else z3.RealVal(0)
    rest = [z3.If(e.arg(0), su(ra), su(rb))] if ra or rb else []
    return [m for m in com if not (z3.is_rational_value(m) and m.as_fraction() == 0)] + rest
DBG = bool(os.environ.get('VCG_DEBUG'))
class Stats:
    def __init__(s): s.time = {}; s.count = {}; s.queries = 0
    def add(s, be, t): s.time[be] = s.time.get(be, 0) + t; s.count[be] = s.count.get(be, 0) + 1

class Logic:
    """registry of recursively defined functions"""
    def __init__(s, ops):
        s.ops = ops; s.sums = {}; s.sumkey = {}; s.folds = {}; s.n = 0; s.J = z3.Int('vc!j'); s.lemmas = []; s.stats = Stats(); s.trunc = False; s.imemo = {}
        s.sizevars = set(); s.fa = {}
    # -------- sums:  S(k) = sum_{0<=j<k} g(j)
    def atom_sum(s, g):
        """g: z3 Real term in s.J -> UF"""
        key = g.sexpr()
        f = s.sumkey.get(key)
        if f is None:
            s.n += 1
            f = z3.Function('SUM%d' % s.n, z3.IntSort(), z3.RealSort()); s.sumkey[key] = f; s.sums[f.name()] = (f, g)
            if DBG: print(f.name(), '=', ' '.join(str(g).split())[:600])
        return f
    def mk_sum(s, g, k):
        """sum_{0<=j<k} g(j); g a term over s.J (python number allowed)"""
        kz = z3.ToReal(k) if is_z(k) else rv(Fraction(k))
        if not is_z(g): return s.ops.mul(g, kz if is_z(k) else Fraction(k))
        g = z3.simplify(g, som=True)
        monos = hoist(g)
        tot = Fraction(0); jn = s.J.decl().name(); groups = {}
        for m in monos:
            coef, dep = s._split(m, jn)
            if dep is None: tot = s.ops.add(tot, s.ops.mul(coef, kz if is_z(k) else Fraction(k))); continue
            cn = s._canon(dep)
            if cn is not None and abs(cn[1]) == 1 or cn is None:
                g0 = cn[0] if cn is not None else dep; g1 = s._shiftnorm(g0)
                if g1 is not None:
                    if cn is None: t = s.mk_sum(g1, k)
                    elif cn[1] == 1: t = s.ops.sub(s.mk_sum(g1, iadd(k, cn[2])), s.mk_sum(g1, cn[2]))
                    else: e1 = iadd(cn[2], 1); t = s.ops.sub(s.mk_sum(g1, e1), s.mk_sum(g1, isub(e1, k)))
                    tot = s.ops.add(tot, s.ops.mul(coef, t)); continue
            if cn is None or cn[1] < -1: t = s.atom_sum(dep)(iv(k))
            elif cn[1] == 1:
                f = s.atom_sum(cn[0]); e = cn[2]; t = f(iv(iadd(k, e)))
                if not (isinstance(e, int) and e == 0): t = t - f(iv(e))
            elif cn[1] == -1:
                f = s.atom_sum(cn[0]); e1 = iadd(cn[2], 1); t = f(iv(e1)) - f(iv(isub(e1, k)))
            else:
                key = (cn[0].sexpr(), str(coef) if not is_z(coef) else coef.sexpr(), cn[1])
                groups.setdefault(key, []).append((cn[2], cn[0], coef, dep, cn[1])); continue
            tot = s.ops.add(tot, s.ops.mul(coef, t))
        for key, l in groups.items():
            a = key[2]; l = list(l)
            while l:
                # a complete residue system  e0, e0+1, .., e0+a-1
                done = False
                for (e0, g0, coef, dep, _) in l:
                    pick = []
                    for c in range(a):
                        for x in l:
                            cc, dd = lin(isub(x[0], iadd(e0, c)))
                            if cc == 0 and not dd: pick.append(x); break
                        else: break
                    if len(pick) == a:
                        f = s.atom_sum(g0); t = f(iv(iadd(imul(a, k), e0)))
                        if not (isinstance(e0, int) and e0 == 0): t = t - f(iv(e0))
                        tot = s.ops.add(tot, s.ops.mul(coef, t))
                        for x in pick: l.remove(x)
                        done = True; break
                if not done:
                    e0, g0, coef, dep, _ = l.pop()
                    tot = s.ops.add(tot, s.ops.mul(coef, s.atom_sum(dep)(iv(k))))
        return tot
    def algebraic(s, pc, g):
        """equality of sum expressions by rewriting only: S(x+c) -> S(x) + terms, S(0) -> 0, polynomial normal form"""
        if not (is_z(g) and z3.is_eq(g) and z3.is_real(g.arg(0))): return False
        e = g.arg(0) - g.arg(1)
        def norm(e):
            for _ in range(4):
                sub = []
                for a in uapps(e)[0].values():
                    nm = a.decl().name()
                    if nm not in s.sums: continue
                    c, d = lin(a.arg(0)); f, b = s.sums[nm]
                    if not isinstance(c, int) or c == 0 and d or abs(c) > 4: continue
                    base = unlin(0, d) if d else 0; r = f(iv(base)) if d else z3.RealVal(0)
                    for i in (range(c) if c > 0 else range(c, 0)):
                        x = rv(conc(z3.substitute(b, (s.J, iv(iadd(base, i)))))); r = r + x if c > 0 else r - x
                    sub.append((a, r))
                if not sub: break
                e = z3.substitute(e, *sub)
            return z3.simplify(e, som=True)
        e = norm(e)
        if z3.is_rational_value(e): return e.as_fraction() == 0
        its = {}
        for a in uapps(e)[0].values():
            for c in a.children():
                if z3.is_int(c):
                    for k, (x, q) in lin(c)[1].items():
                        if z3.is_const(x): its[k] = x
        cand = [x for x in its.values() if x.decl().name().startswith('it!')]
        for x in cand:
            for y in its.values():
                if y.decl().name().startswith('in!') and s.check(list(pc) + [x != y], (), 800)[0] == 'unsat':
                    e = norm(z3.simplify(z3.substitute(e, (x, y)))); break
        return z3.is_rational_value(e) and e.as_fraction() == 0
    def _shiftnorm(s, g):
        """sums inside a summand: SUM(J+c) -> SUM(J) + the c terms in between; None if nothing to do"""
        sub = []
        for a in uapps(g)[0].values():
            nm = a.decl().name()
            if nm not in s.sums: continue
            c, d = lin(a.arg(0))
            if list(d) != [s.J.get_id()] or d[s.J.get_id()][1] != 1 or c == 0 or abs(c) > 4: continue
            f, b = s.sums[nm]; e = f(s.J)
            for i in (range(c) if c > 0 else range(c, 0)):
                x = rv(conc(z3.substitute(b, (s.J, iv(iadd(s.J, i)))))); e = e + x if c > 0 else e - x
            sub.append((a, e))
        if not sub: return None
        return z3.simplify(z3.substitute(g, *sub), som=True)
    def _canon(s, dep):
        """dep(J) = g(a*J+e) -> (g over J, a, e)"""
        jid = s.J.get_id(); jn = s.J.decl().name(); found = []; seen = set(); ok = [True]
        def walk(x):
            if x.get_id() in seen or jn not in syms(x): return
            seen.add(x.get_id())
            if z3.is_int(x) and not (z3.is_app_of(x, z3.Z3_OP_ITE) or x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0):
                c, d = lin(x)
                if jid not in d or any(jn in syms(t) for i, (t, q) in d.items() if i != jid): ok[0] = False; return
                found.append((x, d[jid][1], unlin(c, {i: v for i, v in d.items() if i != jid}), c)); return
            for ch in x.children(): walk(ch)
        walk(dep)
        if not ok[0] or not found: return None
        a = found[0][1]
        if any(f[1] != a for f in found): return None
        rest = lambda f: lin(f[2])[1].keys()
        best = found[0]
        for f in found[1:]:
            c, d = lin(isub(f[2], best[2]))
            if not d and c < 0: best = f
        e = best[2]
        sub = [(f[0], iv(iadd(s.J, isub(f[2], e)))) for f in found]
        sub.sort(key=lambda p: -len(p[0].sexpr()))
        # simultaneous substitution of maximal index terms
        ph = [(x, z3.FreshConst(z3.IntSort(), 'ph')) for x, _ in sub]
        g = dep
        g = z3.substitute(g, *ph); g = z3.substitute(g, *[(p, y) for (_, p), (_, y) in zip(ph, sub)])
        return g, a, e
    def _split(s, m, jn):
        """monomial -> (coefficient free of j, j-dependent factor or None)"""
        if jn not in syms(m): return conc(m), None
        if z3.is_mul(m):
            c = Fraction(1); ds = []
            for a in m.children():
                c1, d1 = s._split(a, jn)
                c = s.ops.mul(c, c1)
                if d1 is not None: ds.append(d1)
            if not ds: return c, None
            d = ds[0]
            if len(ds) > 1: d = z3.simplify(z3.Product(*ds))
            return c, d
        if z3.is_div(m) and jn not in syms(m.arg(1)):
            c, d = s._split(m.arg(0), jn)
            return s.ops.div(c, m.arg(1)), d
        if m.decl().kind() == z3.Z3_OP_UMINUS:
            c, d = s._split(m.arg(0), jn); return s.ops.neg(c), d
        return Fraction(1), m
    # -------- folds: F(0)=x0, F(k+1)=step(F(k),k)
    def mk_fold(s, x0, step, X, k, sort=None):
        """step: term over X (fresh const) and s.J"""
        if is_z(step): step = z3.simplify(step, som=True)
        stx = z3.simplify(z3.substitute(step, (X, z3.Const('vc!X', X.sort()))), som=True).sexpr() if is_z(step) else str(step)
        key = ('fold', str(x0) if not is_z(x0) else z3.simplify(x0, som=True).sexpr(), stx)
        f = s.sumkey.get(key)
        if f is None:
            s.n += 1
            f = z3.Function('FOLD%d' % s.n, z3.IntSort(), X.sort()); s.sumkey[key] = f
            s.folds[f.name()] = (f, x0, step, X)
        return f(iv(k))

    # -------- instantiation
    def instantiate(s, fs, foralls, deep=0):
        extra = []; done = set(); sums_at = {}
        def app(x): return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0
        cur = [bv(f) for f in fs]
        apd = {}; ics = {}
        for q in cur:
            u = uapps(q); apd.update(u[0]); ics.update(u[1])
        mk = (frozenset(apd), frozenset(ics), tuple((id(fn), lo if not is_z(lo) else lo.get_id(), hi if not is_z(hi) else hi.get_id()) for lo, hi, fn in foralls), deep, len(s.sums), len(s.folds))
        hit = s.imemo.get(mk)
        if hit is not None: return hit[0]
        keep = (dict(apd), dict(ics), list(foralls))
        for rnd in range(2 + deep):
            if rnd:
                for q in cur:
                    u = uapps(q); apd.update(u[0]); ics.update(u[1])
            ap = list(apd.values())
            new = []
            idx = {}
            for a in ap:
                nm = a.decl().name()
                if nm in s.sums:
                    f, g = s.sums[nm]; t = a.arg(0)
                    if (nm, t.get_id()) not in done and rnd <= deep + 1:
                        done.add((nm, t.get_id())); sums_at.setdefault(nm, []).append(t)
                        t1 = iv(isub(t, 1))
                        new.append(z3.Implies(t == 0, a == 0))
                        if rnd <= deep: new.append(a == f(t1) + rv(conc(z3.substitute(g, (s.J, t1)))))
                elif nm in s.folds:
                    f, x0, step, X = s.folds[nm]; t = a.arg(0)
                    if (nm, t.get_id()) not in done and rnd <= deep:
                        done.add((nm, t.get_id()))
                        t1 = iv(isub(t, 1)); x0z = rv(x0) if z3.is_real(X) else (iv(x0) if z3.is_int(X) else bv(x0))
                        new.append(z3.Implies(t <= 0, a == x0z))
                        st = z3.substitute(step, (X, f(t1)), (s.J, t1)) if is_z(step) else x0z.sort() and (rv(step) if z3.is_real(X) else iv(step))
                        new.append(z3.Implies(t >= 1, a == st))
                for c in a.children():
                    if z3.is_int(c): idx[c.get_id()] = c
            for c in ics.values():
                if c.decl().name().startswith(('sk!', 'it!')): idx[c.get_id()] = c
            q = [c for c in ics.values() if c.decl().name().startswith('in!') and c.decl().name() not in s.sizevars]
            if len(q) <= 3:
                for c in q: idx[c.get_id()] = c
            for fi, (lo, hi, fn) in enumerate(foralls):
                for c in idx.values():
                    if ('q', fi, c.get_id()) in done: continue
                    done.add(('q', fi, c.get_id()))
                    lz, hz = iv(lo), iv(hi); ck = (id(fn), c.get_id(), lz.get_id(), hz.get_id()); r = s.fa.get(ck)
                    if r is None:
                        b = fn(c)
                        r = s.fa[ck] = (None if b is True else z3.Implies(z3.And(lz <= c, c < hz), bv(b)), fn, c, lz, hz)
                    if r[0] is not None: new.append(r[0])
            # link applications of the same sum a constant distance apart
            for nm, ts in sums_at.items():
                f, g = s.sums[nm]; grp = {}
                for t in ts + [z3.IntVal(0)]:
                    c, d = lin(t); grp.setdefault(tuple(sorted((k, q) for k, (x, q) in d.items())), {})[c] = t
                for l in grp.values():
                    cs = sorted(l)
                    for c1, c2 in zip(cs, cs[1:]):
                        if 1 < c2 - c1 <= 16 and (nm, l[c1].get_id(), l[c2].get_id()) not in done:
                            done.add((nm, l[c1].get_id(), l[c2].get_id()))
                            e = f(iv(l[c1]))
                            for i in range(c2 - c1): e = e + rv(conc(z3.substitute(g, (s.J, iv(iadd(l[c1], i))))))
                            new.append(f(iv(l[c2])) == e)
            if not new: break
            extra += new; cur = new
        s.imemo[mk] = (extra, keep)
        return extra
    def axioms(s, fs):
        out = []; apd = {}
        for q in fs: apd.update(uapps(q)[0])
        for a in apd.values():
            if not a.decl().name().startswith('uf_'): continue
            nm = a.decl().name()[3:]; x = a.arg(0)
            if nm == 'exp': out += [a > 0, (x >= 0) == (a >= 1), (x > 0) == (a > 1)]
            elif nm == 'sqrt': out += [z3.Implies(x >= 0, z3.And(a >= 0, a * a == x))]
            elif nm in ('asinh', 'sinh', 'tanh', 'atan'): out += [(x >= 0) == (a >= 0), (x > 0) == (a > 0)]
            elif nm == 'pow': out += [z3.Implies(x > 0, a > 0), z3.Implies(x == 0, z3.Implies(a.arg(1) > 0, a == 0)), z3.Implies(z3.And(x >= 1, a.arg(1) >= 0), a >= 1)]
            elif nm == 'log': out += [z3.Implies(x >= 1, a >= 0), z3.Implies(z3.And(x > 0, x < 1), a < 0)]
            elif nm == 'cosh': out += [a >= 1]
        return out
    def slice(s, pc, seeds):
        """formulas of pc connected to the seed formulas"""
        rel = set()
        for x in seeds: rel |= syms(x)
        rest = [(f, syms(f)) for f in pc]; out = []; ch = True
        while ch:
            ch = False; nr = []
            for f, sy in rest:
                if sy & rel or not sy: out.append(f); rel |= sy; ch = True
                else: nr.append((f, sy))
            rest = nr
        return out
    # -------- queries
    def check(s, fs, foralls=(), timeout=3000, full=False, deep=0, want_model=False, feas=False):
        """-> ('unsat'|'sat'|'unknown', backend, model)"""
        fs = [bv(f) for f in fs if f is not True]
        if any(z3.is_false(f) for f in fs): return 'unsat', 'trivial', None
        s.stats.queries += 1
        extra = s.instantiate(fs, foralls, deep) if (s.sums or s.folds or foralls) else []
        fs = fs + extra
        fs += s.axioms(fs)
        t0 = time.time()
        if s.ops.alg is not None:
            sol = z3.Solver(); sol.set('timeout', min(timeout, 2000)); sol_add(sol, s.ops.alg.linabs(fs))
            r = sol.check()
            if r == z3.unsat or feas:
                s.stats.add('z3', time.time() - t0)
                return str(r), 'z3', None
        ab = abstract_hard(fs) if s.trunc else None
        if ab is not None:     # coarser (implied) query first: truncations and quotients are arbitrary numbers
            sol = z3.Solver(); sol.set('timeout', min(timeout, 2000)); sol_add(sol, ab)
            if sol.check() == z3.unsat:
                s.stats.add('z3', time.time() - t0)
                if SLOW and time.time() - t0 > SLOW: print('SLOW %.1f abs n=%d %s' % (time.time() - t0, len(fs), ' < '.join(f.f_code.co_name + ':' + str(f.f_lineno) for f in frames(5))), str(fs[-1 - len(extra)])[:300].replace('\n', ' '))
                return 'unsat', 'z3', None
        sol = z3.Solver(); sol.set('timeout', timeout)
        sol_add(sol, fs)
        r = sol.check(); be = 'z3'
        s.stats.add('z3', time.time() - t0)
        if SLOW and time.time() - t0 > SLOW: print('SLOW %.1f %s n=%d %s' % (time.time() - t0, r, len(fs), ' < '.join(f.f_code.co_name + ':' + str(f.f_lineno) for f in frames(5))), str(fs[-1 - len(extra)])[:300].replace('\n', ' '))
        if r == z3.unsat: return 'unsat', 'z3', None
        if r == z3.sat:
            return 'sat', 'z3', sol.model()
        if not full: return 'unknown', 'z3', None
        # purified nonlinear arithmetic
        t0 = time.time(); r = s.nlsat(fs, min(timeout * 4, 20000)); s.stats.add('z3-nlsat', time.time() - t0)
        if r == 'unsat': return 'unsat', 'z3-nlsat', None
        t0 = time.time(); r = s.cvc5(sol, timeout * 4); s.stats.add('cvc5', time.time() - t0)
        if r == 'unsat': return 'unsat', 'cvc5', None
        if r == 'sat' : return 'sat', 'cvc5', None
        return 'unknown', 'all', None
    def nlsat(s, fs, timeout):
        sub = []
        def app(x): return x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0
        # innermost-first replacement of uninterpreted applications by constants
        memo = {}
        def rec(x):
            k = x.get_id()
            if k in memo: return memo[k][1]
            if z3.is_app(x) and x.num_args() > 0:
                ch = [rec(c) for c in x.children()]
                if app(x):
                    key = (x.decl().name(),) + tuple(c.get_id() for c in ch)
                    r = pur.get(key)
                    if r is None:
                        r = z3.FreshConst(x.sort(), 'p'); pur[key] = r; keep.append(ch)
                else: r = x.decl()(*ch)
            else: r = x
            memo[k] = (x, r)
            return r
        pur = {}; keep = []
        try:
            g = [rec(f) for f in fs]
            sol = z3.Then('simplify', 'solve-eqs', 'purify-arith', 'elim-term-ite', 'simplify', 'tseitin-cnf', 'qfnra-nlsat').solver()
            sol.set('timeout', timeout); sol.add(*g)
            r = sol.check()
            return str(r)
        except z3.Z3Exception: return 'unknown'
    def cvc5(s, sol, timeout):
        try:
            txt = '(set-logic ALL)\n' + sol.to_smt2()
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
            try:
                r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, '--nl-cov', f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
                out = r.stdout.strip().split('\n')[0] if r.stdout else ''
            finally: os.unlink(f.name)
            return out if out in ('sat', 'unsat') else 'unknown'
        except Exception: return 'unknown'
    def alg_prove(s, pc, g, depth=5):
        """equalities of real terms by their normal form as rational functions, case by case over if-then-else"""
        if z3.is_true(g): return True
        if z3.is_and(g): return all(s.alg_prove(pc, c, depth) for c in g.children())
        if not (z3.is_eq(g) and z3.is_real(g.arg(0))): return False
        if s.ops.alg.equal(g.arg(0), g.arg(1)): return True
        if depth == 0: return False
        it = subterms([g], lambda x: z3.is_app_of(x, z3.Z3_OP_ITE))
        if not it: return False
        c = it[0].arg(0)
        for i in it:        # an innermost condition
            if not subterms([i.arg(0)], lambda x: z3.is_app_of(x, z3.Z3_OP_ITE)): c = i.arg(0); break
        for val in (True, False):
            k = c if val else z3.Not(c)
            sub = [(i, i.arg(1 if val else 2)) for i in it if i.arg(0).eq(c)]
            h = z3.substitute(g, *sub)
            if not s.alg_prove(list(pc) + [k], h, depth - 1):
                if s.check(s.slice(pc, [k]) + [k], (), 1000)[0] != 'unsat': return False
        return True
    def prove(s, pc, goal, foralls=(), timeout=5000):
        """-> ('proved', backend) | ('cex', model) | ('unknown', None)"""
        if goal is True: return 'proved', 'trivial', None
        if s.ops.alg is not None and is_z(goal) and s.alg_prove(pc, goal): return 'proved', 'normal form', None
        g = simp(goal)
        if g is True: return 'proved', 'simplifier', None
        if s.sums and is_z(g) and s.algebraic(pc, g): return 'proved', 'algebraic', None
        ng = z3.Not(bv(g))
        if g is False and pc: rel = list(pc)
        else: rel = None
        fc = pc if rel is None else rel
        best = None
        sl = s.slice(fc, [ng]) if not foralls else fc
        for stage in range(3):
            lem = []
            if stage >= 1: lem = s.find_lemmas(pc, ng, foralls)
            r, be, m = s.check((sl if stage < 2 else fc) + [ng] + lem, foralls, timeout if stage else min(timeout, 3000), full=(stage >= 1), deep=1 if stage == 2 else 0)
            if r == 'unsat': return 'proved', be, None
            if r == 'sat':
                best = ('cex', be, m)
                if not (s.sums or s.folds or foralls) and len(sl) == len(fc): break
                if stage == 0 and not (s.sums or s.folds or foralls):
                    r2, be2, m2 = s.check(fc + [ng], foralls, timeout)
                    if r2 == 'unsat': return 'proved', be2, None
                    if r2 == 'sat': best = ('cex', be2, m2)
                    break
            if stage == 1 and not (s.sums or s.folds): break
        return best or ('unknown', 'all', None)
    def unfold(s, g, sk):
        """rewrite fold applications at sk+c (c>=1, under sk>=0) to their step at sk"""
        for _ in range(4):
            sub = []
            for a in uapps(g)[0].values():
                if a.decl().name() in s.folds:
                    f, x0, step, X = s.folds[a.decl().name()]; c, d = lin(a.arg(0))
                    if list(d) == [sk.get_id()] and d[sk.get_id()][1] == 1 and c >= 1:
                        t1 = iv(isub(a.arg(0), 1))
                        sub.append((a, z3.substitute(step, (X, f(t1)), (s.J, t1)) if is_z(step) else (rv(step) if z3.is_real(X) else iv(step))))
            if not sub: break
            g = z3.substitute(g, *sub)
        return g
    # -------- inductive lemmas about sums / folds occurring in a query
    def find_lemmas(s, pc, ng, foralls):
        apd = {}
        for q in list(pc) + [ng]:
            if is_z(q): apd.update(uapps(q)[0])
        for _ in range(3):      # also the sums inside summands
            more = {}
            for x in apd.values():
                if x.decl().name() in s.sums:
                    for i, y in uapps(s.sums[x.decl().name()][1])[0].items():
                        if i not in apd and y.decl().name() in s.sums and s.J.decl().name() not in syms(y): more[i] = y
            if not more: break
            apd.update(more)
        ap = [x for x in apd.values() if x.decl().name() in s.sums or x.decl().name() in s.folds]
        apg = {}
        for a in ap: apg.setdefault(a.decl().name(), []).append(a)
        names = sorted(apg, key=lambda x: int(re.sub(r'\D', '', x) or 0)); lem = []
        base = list(pc)
        sk = z3.Int('sk!l')
        def tops(nm): return apg[nm]
        for nm in names:      # sign lemmas
            if nm in s.sums:
                f, g = s.sums[nm]
                for a in apg[nm]:
                    k = a.arg(0); gj = z3.substitute(g, (s.J, sk))
                    rng = [sk >= 0, sk < k]
                    for cond, concl in ((gj > 0, z3.And(a >= 0, z3.Implies(k > 0, a > 0))), (gj >= 0, a >= 0), (gj <= 0, a <= 0)):
                        if s.check(base + rng + [z3.Not(cond)], foralls, 1500)[0] == 'unsat':
                            lem.append(z3.Implies(k >= 0, concl)); break
        for i, b in enumerate(names):   # pointwise equality / congruence (earlier lemmas are used for later ones)
            for a in names[:i]:
                for x in apg[a]:
                    for y in apg[b]:
                        k = x.arg(0)
                        if not k.eq(y.arg(0)) and s.check(base + [k != y.arg(0)], (), 800)[0] != 'unsat':
                            d = next((d for d in (1, -1) if s.check(base + [y.arg(0) != k + d], (), 300)[0] == 'unsat'), 0)
                            if d:
                                lo, hi = ((a, x), (b, y)) if d == 1 else ((b, y), (a, x))
                                q = s.shift_lemma(lo, hi, base + lem, foralls, sk)
                                if q is not None: lem.append(q)
                            continue
                        if a in s.sums and b in s.sums:
                            g1 = z3.substitute(s.sums[a][1], (s.J, sk)); g2 = z3.substitute(s.sums[b][1], (s.J, sk))
                            q = base + lem + [sk >= 0, sk < k]
                            g1, g2 = s.unfold(g1, sk), s.unfold(g2, sk)
                            if s.check(q + [z3.Not(g1 == g2)], foralls, 1500)[0] == 'unsat': lem.append(x == y)
                            elif s.check(q + [z3.Not(g1 == -g2)], foralls, 1500)[0] == 'unsat': lem.append(x == -y)
                            else:       # the same terms in the opposite order
                                g3 = z3.substitute(s.sums[b][1], (s.J, k - 1 - sk))
                                if s.check(q + [z3.Not(g1 == g3)], foralls, 800)[0] == 'unsat': lem.append(x == y)
                        elif (a in s.folds) != (b in s.folds):
                            fo, su, xf, xs = (a, b, x, y) if a in s.folds else (b, a, y, x)
                            f1, x01, st1, X1 = s.folds[fo]
                            if not z3.is_int(X1): continue
                            Z = z3.FreshConst(X1.sort(), 'z')
                            a1 = z3.substitute(iv(st1), (X1, Z), (s.J, sk)); g2 = z3.substitute(rv(s.sums[su][1]), (s.J, sk))
                            if s.check(base + lem + [sk >= 0, sk < k, z3.Not(z3.ToReal(a1) == z3.ToReal(Z) + g2)], foralls, 1500)[0] == 'unsat':
                                lem.append(z3.Implies(k >= 0, z3.ToReal(xf) == z3.ToReal(iv(x01)) + xs))
                        elif a in s.folds and b in s.folds:
                            f1, x01, st1, X1 = s.folds[a]; f2, x02, st2, X2 = s.folds[b]
                            if X1.sort() != X2.sort():      # an integer and a real accumulator
                                if z3.is_bool(X1) or z3.is_bool(X2): continue
                                (fi_, xi, si, Xi, ai), (xr, sr, Xr, ar) = ((f1, x01, st1, X1, x), (x02, st2, X2, y)) if z3.is_int(X1) else ((f2, x02, st2, X2, y), (x01, st1, X1, x))
                                if s.check(base + [z3.Not(z3.ToReal(iv(xi)) == rv(xr))], foralls, 1500)[0] != 'unsat': continue
                                Z = z3.FreshConst(z3.IntSort(), 'z')
                                e1 = z3.ToReal(z3.substitute(iv(si), (Xi, Z), (s.J, sk))); e2 = z3.substitute(rv(sr), (Xr, z3.ToReal(Z)), (s.J, sk))
                                if s.check(base + lem + [sk >= 0, sk < k, z3.Not(e1 == e2)], foralls, 1500)[0] == 'unsat': lem.append(z3.Implies(k >= 0, z3.ToReal(ai) == ar))
                                continue
                            Z = z3.FreshConst(X1.sort(), 'z')
                            tz = (lambda v: rv(v)) if z3.is_real(Z) else ((lambda v: iv(v)) if z3.is_int(Z) else bv)
                            q1 = s.check(base + [z3.Not(tz(x01) == tz(x02))], foralls, 1500)[0]
                            if q1 != 'unsat': continue
                            a1 = z3.substitute(tz(st1), (X1, Z), (s.J, sk)); a2 = z3.substitute(tz(st2), (X2, Z), (s.J, sk))
                            if s.check(base + lem + [sk >= 0, sk < k, z3.Not(a1 == a2)], foralls, 1500)[0] == 'unsat': lem.append(z3.Implies(k >= 0, x == y))
                            else:       # opposite order of a fold whose steps commute
                                a3 = z3.substitute(tz(st2), (X2, Z), (s.J, k - 1 - sk))
                                if s.check(base + lem + [sk >= 0, sk < k, z3.Not(a1 == a3)], foralls, 800)[0] == 'unsat':
                                    i1, i2 = z3.Int('sk!c1'), z3.Int('sk!c2')
                                    w1 = z3.substitute(tz(st2), (X2, z3.substitute(tz(st2), (X2, Z), (s.J, i1))), (s.J, i2))
                                    w2 = z3.substitute(tz(st2), (X2, z3.substitute(tz(st2), (X2, Z), (s.J, i2))), (s.J, i1))
                                    if s.check(base + [i1 >= 0, i2 >= 0, i1 < k, i2 < k, z3.Not(w1 == w2)], (), 800)[0] == 'unsat': lem.append(z3.Implies(k >= 0, x == y))
        return lem
    def shift_lemma(s, lo, hi, base, foralls, sk):
        """the longer fold (sum) is the shorter one after its first step"""
        (a, x), (b, y) = lo, hi
        k = x.arg(0)
        if a in s.sums and b in s.sums:
            g1 = z3.substitute(s.sums[a][1], (s.J, sk)); g2 = z3.substitute(s.sums[b][1], (s.J, sk + 1))
            if s.check(base + [sk >= 0, sk < k, z3.Not(g1 == g2)], foralls, 800)[0] == 'unsat':
                return z3.Implies(k >= 0, y == x + z3.substitute(s.sums[b][1], (s.J, z3.IntVal(0))))
        elif a in s.folds and b in s.folds:
            f1, x01, st1, X1 = s.folds[a]; f2, x02, st2, X2 = s.folds[b]
            if X1.sort() != X2.sort() or not is_z(st1) or not is_z(st2): return None
            tz = (lambda v: rv(v)) if z3.is_real(X1) else ((lambda v: iv(v)) if z3.is_int(X1) else bv)
            first = z3.substitute(tz(st2), (X2, tz(x02)), (s.J, z3.IntVal(0)))
            if s.check(base + [k >= 0, z3.Not(tz(x01) == first)], foralls, 800)[0] != 'unsat': return None
            Z = z3.FreshConst(X1.sort(), 'z')
            a1 = z3.substitute(tz(st1), (X1, Z), (s.J, sk)); a2 = z3.substitute(tz(st2), (X2, Z), (s.J, sk + 1))
            if s.check(base + [sk >= 0, sk < k, z3.Not(a1 == a2)], foralls, 800)[0] == 'unsat': return z3.Implies(k >= 0, x == y)
        return None
