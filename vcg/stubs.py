"""Contract intrinsics (vc_*), LLVM intrinsics, and assumed contracts of the C/C++ runtime."""
import z3, re, math
from fractions import Fraction
from smt import *

def table(E):
    from engine import Ptr, NULL, Obj, FArr, PathEnd, EngineError, ForkOn, Bits
    H = {}
    def reg(*names):
        def d(f):
            for n in names: H[n] = f
            return f
        return d
    def cstr(st, p):
        out = []; off = p.off; o = E.obj(st, p)
        while True:
            v = E.cell_get(st, o, off, 1, ('i', 8))
            if v == 0: break
            if not isinstance(v, int): raise Unsupported('non-constant string')
            out.append(v & 255); off += 1
        return bytes(out).decode('latin1')
    E.cstr = cstr
    def uname(st, nm):
        k = st.names.get(nm, 0); st.names[nm] = k + 1
        return nm if k == 0 else '%s#%d' % (nm, k)
    # ---------------------------------------------------------------- contract intrinsics
    @reg('vc_real')
    def _(st, fr, ins, a):
        nm = uname(st, cstr(st, a[0])); v = E.ops.fresh('in!' + nm); st.inputs.append((nm, v)); return v
    @reg('vc_real_in')
    def _(st, fr, ins, a):
        nm = uname(st, cstr(st, a[0])); v = E.ops.fresh('in!' + nm); st.inputs.append((nm, v))
        E.assume(st, And(E.ops.cmp('ole', a[1], v), E.ops.cmp('ole', v, a[2]))); return v
    @reg('vc_int')
    def _(st, fr, ins, a):
        nm = uname(st, cstr(st, a[0])); v = z3.Int('in!' + nm); st.inputs.append((nm, v))
        if getattr(E.ops, 'alg', None): E.ops.alg.setdom(v, a[1], a[2])
        E.assume(st, And(iv(a[1]) <= v, v <= iv(a[2]))); return v
    @reg('vc_size')
    def _(st, fr, ins, a):
        nm = uname(st, cstr(st, a[0])); st.pc
        if E.opts.get('bound') is not None:      # bounded stand-in: concrete sizes
            n = E.opts['bound'].get(nm, E.opts['bound'].get('*'))
            st.inputs.append((nm, n)); return n
        v = z3.Int('in!' + nm); st.inputs.append((nm, v)); E.L.sizevars.add('in!' + nm)
        E.assume(st, And(iv(a[1]) <= v, v <= iv(a[2]))); return v
    @reg('vc_unbounded')
    def _(st, fr, ins, a):
        if is_z(a[0]): E.L.sizevars |= set(syms(a[0]))
        return None
    @reg('vc_bool')
    def _(st, fr, ins, a):
        nm = uname(st, cstr(st, a[0])); v = z3.Bool('in!' + nm); st.inputs.append((nm, v)); return v
    @reg('vc_assume')
    def _(st, fr, ins, a):
        E.assume(st, a[0]); return None
    @reg('vc_ensure')
    def _(st, fr, ins, a):
        if isinstance(a[1], Undef): a[1] = E.fresh('bool', 'undef')
        E.ensure(st, cstr(st, a[0]), a[1]); return None
    @reg('vc_ensure_eq')
    def _(st, fr, ins, a):
        x, y = [E.fresh('real', 'undef') if v is UNDEF else v for v in (a[1], a[2])]
        E.ensure(st, cstr(st, a[0]), E.ops.eq(x, y)); return None
    @reg('vc_ensure_le')
    def _(st, fr, ins, a):
        E.ensure(st, cstr(st, a[0]), E.ops.cmp('ole', a[1], a[2])); return None
    @reg('vc_eq')       # spec-level equality inside expressions (exact here, tolerant natively)
    def _(st, fr, ins, a): return E.ops.eq(a[0], a[1])
    @reg('vc_le')
    def _(st, fr, ins, a): return E.ops.cmp('ole', a[0], a[1])
    @reg('vc_ite')
    def _(st, fr, ins, a): return E.ite(simp(a[0]) if is_z(a[0]) else a[0], a[1], a[2])
    @reg('vc_and')
    def _(st, fr, ins, a): return And(a[0], a[1])
    @reg('vc_or')
    def _(st, fr, ins, a): return Or(a[0], a[1])
    @reg('vc_implies')
    def _(st, fr, ins, a): return Or(Not(a[0]), a[1])
    @reg('vc_cover')
    def _(st, fr, ins, a):
        nm = cstr(st, a[0])
        if E.quiet: return None
        if E.covers.get(nm) != 'sat':
            q = E.L.check(st.pc, st.foralls, 5000)
            E.covers[nm] = q[0] if E.covers.get(nm) != 'unknown' or q[0] == 'sat' else 'unknown'
        return None
    @reg('vc_stop')
    def _(st, fr, ins, a):
        E.paths += 1
        if not E.quiet and E.complete_sat < 3:
            q = E.L.check(st.pc, st.foralls, 5000)
            if q[0] == 'sat': E.complete_sat += 1
        raise PathEnd()
    @reg('vc_note')
    def _(st, fr, ins, a): st.log.append(cstr(st, a[0])); return None
    @reg('vc_symbolic')
    def _(st, fr, ins, a): return True
    @reg('vc_uf1', 'vc_uf2', 'vc_uf3', 'vc_uf4')
    def _(st, fr, ins, a):
        return E.ops.uf('spec_' + cstr(st, a[0]), *a[1:])
    @reg('vc_ufi2')     # (int index, real) -> real
    def _(st, fr, ins, a):
        nm = cstr(st, a[0])
        R = z3.RealSort() if E.mode == 'real' else F64
        f = z3.Function('ui_' + nm, z3.IntSort(), R, R); return f(iv(a[1]), rv(a[2]) if E.mode == 'real' else fpv(a[2]))
    @reg('vc_ufi3')
    def _(st, fr, ins, a):
        nm = cstr(st, a[0]); R = z3.RealSort() if E.mode == 'real' else F64; c = rv if E.mode == 'real' else fpv
        f = z3.Function('ui3_' + nm, z3.IntSort(), R, R, R); return f(iv(a[1]), c(a[2]), c(a[3]))
    @reg('vc_ufb2')
    def _(st, fr, ins, a):
        nm = cstr(st, a[0])
        R = z3.RealSort() if E.mode == 'real' else F64
        f = z3.Function('ub_' + nm, z3.IntSort(), R, z3.BoolSort()); return f(iv(a[1]), rv(a[2]) if E.mode == 'real' else fpv(a[2]))
    @reg('vc_ufn2')     # (int index, real) -> int
    def _(st, fr, ins, a):
        nm = cstr(st, a[0])
        R = z3.RealSort() if E.mode == 'real' else F64
        f = z3.Function('un_' + nm, z3.IntSort(), R, z3.IntSort()); return f(iv(a[1]), rv(a[2]) if E.mode == 'real' else fpv(a[2]))
    @reg('vc_havoc')
    def _(st, fr, ins, a):
        nm = uname(st, cstr(st, a[1])); v = E.ops.fresh('in!' + nm); st.inputs.append((nm, v)); E.store(st, a[0], ('double',), v); return None
    @reg('vc_array')    # fresh array of n doubles
    def _(st, fr, ins, a):
        nm = uname(st, cstr(st, a[0])); n = a[1]
        R = z3.RealSort() if E.mode == 'real' else F64
        U = z3.Function('arr_' + nm, z3.IntSort(), R)
        p = E.newobj(st, nm, imul(n, 8)); o = st.mem[p.o]
        if isinstance(n, int):
            for k in range(n):
                v = U(z3.IntVal(k)); o.cells[8 * k] = (8, v)
        else:
            o.kind = 'a'; o.stride = 8; o.fields = {0: (8, FArr.base(lambda i, t=None: U(iv(i))))}
        if not hasattr(E, 'array_inputs'): E.array_inputs = []
        if not any(x[0] == nm for x in E.array_inputs): E.array_inputs.append((nm, U, n))
        return p
    # ---- families of abstract objects:  vc_family(n, sizeof, ctor(void*, int, env), env)
    @reg('vc_elem')
    def _(st, fr, ins, a):
        nm = cstr(st, a[0]); v = E.ops.fresh('el!' + nm); E.elems[nm] = v; return v
    @reg('vc_elem_bool')
    def _(st, fr, ins, a):
        nm = cstr(st, a[0]); v = z3.Bool('el!' + nm); E.elems[nm] = v; return v
    @reg('vc_elem_int')
    def _(st, fr, ins, a):
        nm = cstr(st, a[0]); v = z3.Int('el!' + nm); E.elems[nm] = v; return v
    E.elems = {}
    @reg('vc_family')
    def _(st, fr, ins, a):
        n, size, ctor = a[0], a[1], a[2]
        K = z3.Int('el!idx')
        proto = E.newobj(st, 'proto', size)
        npc = len(st.pc); nfa = len(st.foralls)
        rs = E.eval_sub(st, ctor, [proto, K])
        if len(rs) != 1: raise EngineError('family constructor must have exactly one path (%d)' % len(rs))
        x = rs[0][0]
        R = z3.RealSort() if E.mode == 'real' else F64
        sub = []
        if not hasattr(E, 'array_inputs'): E.array_inputs = []
        E.nfam = getattr(E, 'nfam', 0)
        for nm, v in E.elems.items():
            srt = v.sort()
            U = z3.Function('fam_' + nm, z3.IntSort(), srt); sub.append((v, U))
            if not any(q[0] == nm for q in E.array_inputs): E.array_inputs.append((nm, U, n))
        def inst(t, i):
            if not is_z(t): return t
            return conc(z3.substitute(t, *([(K, iv(i))] + [(v, U(iv(i))) for v, U in sub])))
        po = x.mem[proto.o]
        # keep objects allocated by the constructor (shared), e.g. none normally
        for oid, ob in x.mem.items():
            if oid not in st.mem: st.mem[oid] = ob; ob.owner = None
        extra = [q for q in x.pc[npc:]]
        el = set('el!' + nm for nm in E.elems) | {'el!idx'}
        if extra:
            conj = And(*[bv(q) for q in extra])
            st.foralls.append((0, n, lambda i, conj=conj: inst(bv(conj), i)))
        st.mem.pop(proto.o, None)
        fam = E.newobj(st, 'family', imul(n, size)); o = st.mem[fam.o]
        o.kind = 'a'; o.stride = size; o.fields = {}
        zr = list(po.zr)
        for off, (z, v) in po.cells.items():
            o.fields[off] = (z, FArr.base(lambda i, t=None, v=v: inst(v, i) if is_z(v) else v))
        if zr:
            o.zr = [(lo, hi) for lo, hi in zr]
            class L: pass
            def lz(*a): return None
            def larr(c0, z): return FArr.base(lambda i, t=None: (E.zero(t) if t else 0)) if any(lo <= c0 and c0 + z <= hi for lo, hi in zr) else None
            lz.arr = larr; o.lazy = lz
        if isinstance(n, int): pass
        return fam
    @reg('vc_ptr_array')   # array of n pointers to the elements of a family
    def _(st, fr, ins, a):
        base, size, n = a
        p = E.newobj(st, 'ptrs', imul(n, 8)); o = st.mem[p.o]
        if isinstance(n, int):
            for k in range(n): o.cells[8 * k] = (8, Ptr(base.o, iadd(base.off, k * size)))
        else:
            o.kind = 'a'; o.stride = 8; o.fields = {0: (8, FArr.base(lambda i, t=None: Ptr(base.o, iadd(base.off, imul(i, size)))))}
        return p
    # ---- specification-level recursion
    def sub_int(st, fn, args): return E.merge_sub(st, fn, args)
    @reg('vc_sum_impl')
    def _(st, fr, ins, a):
        n, fn, env = a
        if isinstance(n, int):
            t = Fraction(0) if E.mode == 'real' else 0.0
            for k in range(n): t = E.ops.add(t, E.merge_sub(st, fn, [env, k]))
            return t
        q = st.copy(); j = E.fresh('int', 'j'); q.pc += [j >= 0, j < iv(n)]
        g = E.merge_sub(q, fn, [env, j])
        body = z3.substitute(rv(g), (j, E.L.J)) if is_z(g) else g
        return E.L.mk_sum(body, n)
    @reg('vc_fold_impl')   # acc = f(env, acc, j)
    def _(st, fr, ins, a):
        n, init, fn, env = a
        if isinstance(n, int):
            t = init
            for k in range(n): t = E.merge_sub(st, fn, [env, t, k])
            return t
        q = st.copy(); j = E.fresh('int', 'j'); X = E.fresh('real', 'X'); q.pc += [j >= 0, j < iv(n)]
        g = E.merge_sub(q, fn, [env, X, j])
        return E.L.mk_fold(init, z3.substitute(rv(g), (j, E.L.J)), X, n)
    @reg('vc_forall_ensure')
    def _(st, fr, ins, a):
        nm, n, fn, env = cstr(st, a[0]), a[1], a[2], a[3]
        if isinstance(n, int):
            for k in range(n):
                E.ensure(st, nm, tob(E.merge_sub(st, fn, [env, k])), 'element %d' % k)
            return None
        if E.quiet: return None
        q = st.copy(); j = E.fresh('int', 'sk'); q.pc += [j >= 0, j < iv(n)]
        if not E.feasible(q, j >= 0): 
            E.ensure(st, nm, True); return None
        for x, v in E.eval_sub(q, fn, [env, j]):
            E.ensure(x, nm, tob(v), 'arbitrary element')
        return None
    @reg('vc_forall_assume')
    def _(st, fr, ins, a):
        n, fn, env = a
        if isinstance(n, int):
            for k in range(n): E.assume(st, tob(E.merge_sub(st, fn, [env, k])))
            return None
        q = st.copy(); j = E.fresh('int', 'j'); q.pc += [j >= 0, j < iv(n)]
        v = tob(E.merge_sub(q, fn, [env, j]))
        if is_z(v): st.foralls.append((0, n, lambda i, v=v, j=j: conc(z3.substitute(v, (j, iv(i))))))
        return None
    def tob(v): return E.tobool(v) if not is_b(v) else v
    @reg('vc_candidate')
    def _(st, fr, ins, a):
        E.cands.append((a[0], a[1])); return None
    @reg('vc_merge')     # evaluate a pure real-valued thunk, merging its paths
    def _(st, fr, ins, a): return E.merge_sub(st, a[0], [a[1]])
    @reg('vc_merge_bool')
    def _(st, fr, ins, a): return tob(E.merge_sub(st, a[0], [a[1]]))
    # ---------------------------------------------------------------- memory
    @reg('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t')
    def _(st, fr, ins, a): return E.newobj(st, 'heap', a[0])
    @reg('_ZnwmRKSt9nothrow_t')
    def _(st, fr, ins, a): return E.newobj(st, 'heap', a[0])
    @reg('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvRKSt9nothrow_t')
    def _(st, fr, ins, a):
        p = a[0]
        if isinstance(p, Ptr) and p.o:
            if p.o not in st.mem: E.fail_path(st, 'memory-safety', 'double free')
            o = st.mem[p.o]
            if p.off == 0 and o.name != 'family': del st.mem[p.o]
        return None
    def mcpy(st, fr, ins, a): E.memcpy(st, a[0], a[1], a[2]); return a[0]
    def mset(st, fr, ins, a): E.memset(st, a[0], a[1], a[2]); return a[0]
    for n in ('memcpy', 'memmove', 'llvm.memcpy.p0.p0.i64', 'llvm.memmove.p0.p0.i64'): H[n] = mcpy
    for n in ('memset', 'llvm.memset.p0.i64'): H[n] = mset
    @reg('memcmp', 'bcmp')
    def _(st, fr, ins, a):
        if a[2] == 0: return 0
        raise Unsupported('memcmp')
    @reg('strlen')
    def _(st, fr, ins, a): return len(cstr(st, a[0]))
    @reg('strcmp')
    def _(st, fr, ins, a):
        x, y = cstr(st, a[0]), cstr(st, a[1]); return (x > y) - (x < y)
    # ---------------------------------------------------------------- llvm intrinsics
    for n in ('llvm.lifetime.start.p0', 'llvm.lifetime.end.p0', 'llvm.stackrestore.p0', 'llvm.experimental.noalias.scope.decl', 'llvm.donothing', 'llvm.prefetch.p0'):
        H[n] = lambda st, fr, ins, a: None
    H['llvm.stacksave.p0'] = lambda st, fr, ins, a: NULL
    H['llvm.assume'] = lambda st, fr, ins, a: None
    def minmax(op, sg):
        def f(st, fr, ins, a):
            x, y = a
            if ins.ty[0] == 'i' and not sg: x, y = E.unsig(st, x, ins.ty[1]), E.unsig(st, y, ins.ty[1])
            if isinstance(x, int) and isinstance(y, int): return max(x, y) if op == 'max' else min(x, y)
            return z3.If(iv(x) >= iv(y), iv(x), iv(y)) if op == 'max' else z3.If(iv(x) <= iv(y), iv(x), iv(y))
        return f
    for w in ('i8', 'i16', 'i32', 'i64'):
        for o in ('max', 'min'):
            H['llvm.u%s.%s' % (o, w)] = minmax(o, False); H['llvm.s%s.%s' % (o, w)] = minmax(o, True)
        def iabs(st, fr, ins, a): return abs(a[0]) if isinstance(a[0], int) else z3.If(a[0] >= 0, a[0], -a[0])
        H['llvm.abs.' + w] = iabs
    H['abs'] = H['labs'] = H['llvm.abs.i32']
    def fp1(name):
        def f(st, fr, ins, a):
            x = a[0]
            if x is UNDEF: x = E.fresh('real', 'undef')
            if name == 'fabs': return E.ops.fabs(x)
            return E.ops.fun(name, x)
        return f
    for n in ('fabs', 'sqrt', 'exp', 'log', 'floor', 'ceil', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atan', 'sin', 'cos', 'tan', 'log10', 'log2', 'cbrt', 'trunc', 'round', 'erf'):
        for k in (n, 'llvm.%s.f64' % n, n + 'l'): H[k] = fp1(n)
    @reg('pow', 'llvm.pow.f64', 'powl')
    def _(st, fr, ins, a): return E.ops.fun('pow', a[0], a[1])
    @reg('llvm.powi.f64.i32')
    def _(st, fr, ins, a): return E.ops.fun('pow', a[0], E.ops.of_int(a[1]))
    @reg('atan2', 'fmod', 'hypot')
    def _(st, fr, ins, a): return E.ops.uf(ins.a['fn'][1], a[0], a[1])
    @reg('fmin', 'llvm.minnum.f64')
    def _(st, fr, ins, a): return E.ite(simp(E.ops.cmp('ole', a[0], a[1])), a[0], a[1])
    @reg('fmax', 'llvm.maxnum.f64')
    def _(st, fr, ins, a): return E.ite(simp(E.ops.cmp('oge', a[0], a[1])), a[0], a[1])
    @reg('llvm.fmuladd.f64', 'llvm.fma.f64')
    def _(st, fr, ins, a): return E.ops.add(E.ops.mul(a[0], a[1]), a[2])
    @reg('llvm.copysign.f64')
    def _(st, fr, ins, a):
        m = E.ops.fabs(a[0]); return E.ite(simp(E.ops.cmp('oge', a[1], E.ops.const(0.0))), m, E.ops.neg(m))
    @reg('llvm.is.fpclass.f64')
    def _(st, fr, ins, a):
        x, mask = a
        if E.mode == 'fp' and is_z(x):
            c = []
            if mask & 3: c.append(z3.fpIsNaN(x))
            if mask & 0x204: c.append(z3.fpIsInf(x))
            if mask & ~0x207: raise Unsupported('fpclass')
            return Or(*c)
        isn = isinstance(x, float) and math.isnan(x); isi = isinstance(x, float) and math.isinf(x)
        r = False
        if mask & 3: r = r or isn
        if mask & 0x204: r = r or isi
        if mask & 0x1f8: r = r or not (isn or isi)
        return r
    @reg('llvm.trap', 'abort', '_ZSt9terminatev', '__clang_call_terminate', 'exit', '__cxa_pure_virtual')
    def _(st, fr, ins, a): E.fail_path(st, 'no-abort', 'program termination via ' + str(ins.a['fn'][1]))
    @reg('__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
    def _(st, fr, ins, a): E.fail_path(st, 'no-abort', 'assertion failure')
    # ---------------------------------------------------------------- exceptions
    @reg('__cxa_allocate_exception')
    def _(st, fr, ins, a): return E.newobj(st, 'exception', a[0])
    @reg('__cxa_free_exception')
    def _(st, fr, ins, a): return None
    @reg('__cxa_throw')
    def _(st, fr, ins, a):
        nm = [n for n, o in E.gobj.items() if o == a[1].o]
        fr.ins = ins
        E.throw(st, a[0], nm[0] if nm else '?')
    @reg('__cxa_rethrow', '_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE')
    def _(st, fr, ins, a):
        fr.ins = ins
        e = st.caught[-1] if st.caught else None
        if e is None: E.fail_path(st, 'no-abort', 'rethrow without exception')
        E.throw(st, e[0], e[1])
    @reg('__cxa_begin_catch')
    def _(st, fr, ins, a):
        st.caught.append(st.exc); st.exc = None; return a[0]
    @reg('__cxa_end_catch')
    def _(st, fr, ins, a):
        if st.caught: st.caught.pop()
        return None
    @reg('__cxa_get_exception_ptr')
    def _(st, fr, ins, a): return a[0]
    H['llvm.eh.typeid.for'] = H['llvm.eh.typeid.for.p0'] = lambda st, fr, ins, a: E.tiid([n for n, o in E.gobj.items() if o == a[0].o][0])
    H['_ZNSt9exceptionD2Ev'] = H['_ZNSt9exceptionD1Ev'] = lambda st, fr, ins, a: None
    @reg('__cxa_guard_acquire')
    def _(st, fr, ins, a):
        v = E.load(st, a[0], ('i', 8)); return 0 if v == 1 else 1
    @reg('__cxa_guard_release')
    def _(st, fr, ins, a): E.store(st, a[0], ('i', 8), 1); return None
    H['__cxa_guard_abort'] = lambda st, fr, ins, a: None
    H['__cxa_atexit'] = lambda st, fr, ins, a: 0
    @reg('__dynamic_cast')
    def _(st, fr, ins, a):
        src, _, dst, _ = a
        vp = E.load(st, src, ('ptr',)); inv = {o: n for n, o in E.gobj.items()}
        off2top = E.load(st, Ptr(vp.o, vp.off - 16), ('i', 64)); ti = E.load(st, Ptr(vp.o, vp.off - 8), ('ptr',))
        t = inv[ti.o]; d = inv[dst.o]
        if E.ti_derives(t, d): return Ptr(src.o, iadd(src.off, off2top))
        return NULL
    @reg('__cxa_bad_typeid', '__cxa_bad_cast')
    def _(st, fr, ins, a): E.fail_path(st, 'no-abort', 'bad typeid/cast')
    # ---------------------------------------------------------------- misc library
    @reg('rand')
    def _(st, fr, ins, a):
        v = E.fresh('int', 'rand'); st.pc.append(z3.And(v >= 0, v <= 2147483647)); return v
    H['srand'] = lambda st, fr, ins, a: None
    @reg('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv', 'clock', 'time')
    def _(st, fr, ins, a): return E.fresh('int', 'clock')
    H['omp_get_max_threads'] = lambda st, fr, ins, a: 1
    H['_ZNSt6thread20hardware_concurrencyEv'] = lambda st, fr, ins, a: E.opts.get('threads', 2)
    @reg('_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE')
    def _(st, fr, ins, a):
        # run the thread body to completion at the point of creation (sequential stand-in for a data-race-free body)
        sp = E.load(st, a[1], ('ptr',)) if True else a[1]
        vt = E.load(st, sp, ('ptr',)); f = E.load(st, Ptr(vt.o, vt.off + 16), ('ptr',))
        E.trusted.add('std::thread: body executed sequentially at creation')
        fn = E.m.func(E.oid_fn[f.o])
        from engine import Frame
        E.store(st, a[0], ('i', 64), 1)
        E.executed.add(fn.name)
        nf = Frame(fn); nf.regs[fn.params[0][1]] = sp; fr.ins = ins
        raise PushFrame(nf)
    @reg('_ZNSt6thread4joinEv')
    def _(st, fr, ins, a): E.store(st, a[0], ('i', 64), 0); return None
    H['_ZNSt6thread6_StateD2Ev'] = lambda st, fr, ins, a: None
    H['_ZNSt6thread6_StateD1Ev'] = lambda st, fr, ins, a: None
    for n, k in (('length', 'std::length_error'), ('out_of_range', 'std::out_of_range'), ('logic', 'std::logic_error'), ('bad_alloc', 'std::bad_alloc'), ('bad_array_new_length', 'std::bad_alloc'), ('out_of_range_fmt', 'std::out_of_range'), ('invalid_argument', 'std::invalid_argument'), ('bad_function_call', 'std::bad_function_call'), ('bad_optional_access', 'std::bad')):
        def thr(st, fr, ins, a, k=k):
            fr.ins = ins; E.throw(st, E.newobj(st, 'exception', 16), k)
        H['_ZSt%d__throw_%s' % (len('__throw_' + n), n) + ('_error' if False else '')] = thr
    def thrname(d):
        m = re.match(r'std::__throw_(\w+)\(', d)
        return m
    # list nodes
    H['_ZNSt8__detail15_List_node_base7_M_hookEPS0_'] = None
    del H['_ZNSt8__detail15_List_node_base7_M_hookEPS0_']
    return H

class PushFrame(Exception):
    def __init__(s, fr): s.frame = fr

NOOP = [
    r'std::(__cxx11::)?basic_(string|ostringstream|stringstream|ofstream|ifstream|fstream|ostream|istream|istringstream|stringbuf|filebuf|ios)<',
    r'std::__cxx11::basic_', r'std::basic_', r'std::ios_base', r'std::operator<<', r'std::ostream::', r'std::ostream& std::ostream::', r'std::ios::',
    r'.*std::__cxx11::basic_string<char.*> std::operator\+', r'std::__cxx11::to_string', r'std::__cxx11::basic_string<.*> std::(__cxx11::)?operator\+',
    r'std::basic_ostream<char, std::char_traits<char> ?>& std::operator<<', r'std::basic_ostream<.*>& std::(endl|flush)', r'std::ostream& std::ostream::_M_insert',
    r'std::filesystem::', r'.*std::filesystem::__cxx11::path', r'std::allocator<char>', r'std::__new_allocator<char>', r'std::locale', r'std::setprecision', r'std::setw',
    r'std::__basic_file', r'std::random_device',
]
def prefixes(E):
    from engine import Ptr, NULL
    out = []
    def noop(st, fr, ins, a):
        return E.default_ret(ins.ty, a)
    rx = re.compile('(' + '|'.join(NOOP) + ')')
    def thr(st, fr, ins, a):
        d = E.dname(ins.a['fn'][1]); m = re.match(r'std::__throw_(\w+)', d)
        fr.ins = ins; E.throw(st, E.newobj(st, 'exception', 16), 'std::' + m.group(1))
    out.append((re.compile(r'std::__throw_(\w+)'), thr))
    out.append((rx, noop))
    return out
