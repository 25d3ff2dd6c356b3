"""Verification-condition generator over LLVM IR: forward symbolic execution of the real code with contracts,
loops either fully unrolled (concrete trip count) or cut and replaced by inductively verified closed forms."""
import z3, re, sys, time, math, subprocess
from fractions import Fraction
import irparse
from irparse import norm
from smt import *
from solve import Logic
from stubs import PushFrame

class NeedCut(Exception):
    def __init__(s, key): s.key = key
class ForkOn(Exception):
    def __init__(s, cond): s.cond = cond
class PathEnd(Exception): pass
class NoMerge(Exception): pass
class Thrown(Exception): pass
class EngineError(Exception): pass

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o = o; s.off = off
    def __repr__(s): return 'Ptr(%s,%s)' % (s.o, s.off)
NULL = Ptr(0, 0)
class Bits:
    """integer reinterpretation of a floating point value"""
    __slots__ = ('v',)
    def __init__(s, v): s.v = v

# ------------------------------------------------------------------ arrays with symbolic index
class FArr:
    __slots__ = ('k', 'a', 'b', 'c', 'd')
    def __init__(s, k, a=None, b=None, c=None, d=None): s.k = k; s.a = a; s.b = b; s.c = c; s.d = d
    @staticmethod
    def base(fn): return FArr('base', fn)
    def write(s, i, v): return FArr('upd', s, i, v)
    def rng(s, pred, fn): return FArr('rng', s, pred, fn)

class Obj:
    __slots__ = ('name', 'size', 'kind', 'cells', 'zr', 'stride', 'fields', 'owner', 'const', 'lazy')
    def __init__(s, name, size):
        s.name = name; s.size = size; s.kind = 'c'; s.cells = {}; s.zr = []; s.stride = None; s.fields = None; s.owner = None; s.const = False; s.lazy = None
    def clone(s):
        o = Obj(s.name, s.size); o.kind = s.kind; o.cells = dict(s.cells); o.zr = list(s.zr); o.stride = s.stride
        o.fields = dict(s.fields) if s.fields is not None else None; o.const = s.const; o.lazy = s.lazy
        return o

class Frame:
    __slots__ = ('f', 'blk', 'prev', 'idx', 'regs', 'allocas', 'ins', 'lc', 'mark')
    def __init__(s, f): s.f = f; s.blk = f.entry; s.prev = None; s.idx = 0; s.regs = {}; s.allocas = []; s.ins = None; s.lc = {}; s.mark = None
    def copy(s):
        n = Frame.__new__(Frame); n.f = s.f; n.blk = s.blk; n.prev = s.prev; n.idx = s.idx; n.regs = dict(s.regs); n.allocas = list(s.allocas); n.ins = s.ins; n.lc = dict(s.lc); n.mark = s.mark
        return n

class State:
    __slots__ = ('frames', 'mem', 'pc', 'foralls', 'exc', 'caught', 'names', 'inputs', 'ret', 'own', 'log', 'entered')
    def __init__(s):
        s.frames = []; s.mem = {}; s.pc = []; s.foralls = []; s.exc = None; s.caught = []; s.names = {}; s.inputs = []; s.ret = None; s.own = object(); s.log = []; s.entered = False
    def copy(s):
        n = State.__new__(State)
        n.frames = [f.copy() for f in s.frames]; n.mem = dict(s.mem); n.pc = list(s.pc); n.foralls = list(s.foralls); n.exc = s.exc; n.caught = list(s.caught)
        n.names = dict(s.names); n.inputs = list(s.inputs); n.ret = s.ret; n.own = object(); s.own = object(); n.log = list(s.log); n.entered = s.entered
        return n
    def wobj(s, oid):
        o = s.mem[oid]
        if o.owner is not s.own:
            o = o.clone(); o.owner = s.own; s.mem[oid] = o
        return o

class Limit:
    __slots__ = ('d', 'h', 'body')
    def __init__(s, d, h=None, body=None): s.d = d; s.h = h; s.body = body

class Result:
    def __init__(s): s.vcs = 0; s.proved = 0; s.failed = []; s.unknown = []; s.backends = {}

class CondPtr:
    """a if c else b (pointers)"""
    __slots__ = ('c', 'a', 'b')
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
class Engine:
    dbg = bool(__import__('os').environ.get('VCG_DEBUG'))
    def __init__(s, mod, mode='real', demangled=None, opts=None):
        s.m = mod; s.ops = RealOps() if mode == 'real' else FpOps(); s.L = Logic(s.ops); s.mode = mode
        s.opts = opts or {}; s.L.trunc = bool(s.opts.get('trunc'))
        if s.opts.get('algebra') and mode == 'real':
            import ratnf
            s.ops.alg = ratnf.Alg()
        s.dem = demangled or {}
        s.n = 0; s.nobj = 0; s.gobj = {}; s.fobj = {}; s.oid_fn = {}; s.obls = {}; s.cutset = set(); s.cutinfo = {}
        s.covers = {}; s.executed = set(); s.contracts_used = set(); s.trusted = set(); s.skipped = set()
        s.steps = 0; s.max_steps = s.opts.get('max_steps', 3000000); s.paths = 0; s.deadline = s.opts.get('deadline')
        s.redirects = []; s.noops = []; s.merges = []; s.cands = []; s.ti_ids = {}; s.complete_sat = 0; s.complete_unknown = 0
        s.fcache = {}; s.inlineonly = set(); s.tmo = s.opts.get('timeout', 5000); s.bounded = []; s.quiet = 0; s.pathcheck = True
        s.nosplit = 0; s.curop = ''; s.nomerge = set()
        import stubs
        s.H = stubs.table(s)
        s.prefix = stubs.prefixes(s)

    # ---------------------------------------------------------------- utilities
    def fresh(s, sort, nm='v'):
        s.n += 1
        nm = '%s!%d' % (nm, s.n)
        if sort == 'real': return s.ops.fresh(nm)
        if sort == 'int': return z3.Int(nm)
        if sort == 'bool': return z3.Bool(nm)
        raise EngineError(sort)
    def newobj(s, st, name, size):
        s.nobj += 1; o = Obj(name, size); o.owner = st.own; st.mem[s.nobj] = o
        return Ptr(s.nobj, 0)
    def fnptr(s, name):
        oid = s.fobj.get(name)
        if oid is None:
            s.nobj += 1; oid = s.nobj; s.fobj[name] = oid; s.oid_fn[oid] = name
        return Ptr(oid, 0)
    def globalptr(s, st, name):
        name = s.m.aliases.get(name, name)
        if name in s.m.funcs or name in s.m.decls: return s.fnptr(name)
        oid = s.gobj.get(name)
        if oid is None:
            s.nobj += 1; oid = s.gobj[name] = s.nobj
        if oid not in st.mem:
            if name not in s.m.globals: raise EngineError('unknown global ' + name)
            t, init, cst = s.m.global_info(name)
            try: sz = s.m.size(t)
            except Exception: sz = 4096
            ext = init is None
            o = Obj('@' + name, sz if not ext else max(sz, 4096)); o.owner = st.own; st.mem[oid] = o; o.const = cst
            if init is not None: s.init_const(st, o, 0, t, init)
        return Ptr(oid, 0)
    def init_const(s, st, o, off, t, v):
        k = v[0]; sz = s.m.size(t)
        if k == 'zero': o.zr.append((off, off + sz)); return
        if k == 'undef': return
        if k == 'str':
            for i, b in enumerate(v[1]): o.cells[off + i] = (1, norm(b, 8))
            return
        if k == 'agg':
            rt = s.m.rtype(t)
            for i, (et, ev) in enumerate(v[1]):
                fo, ft = s.m.field(rt, i)
                s.init_const(st, o, off + fo, et, ev)
            return
        o.cells[off] = (sz, s.val(st, v, t))
    # ---------------------------------------------------------------- operand evaluation
    def val(s, st, v, t):
        k = v[0]
        if k == 'r':
            try:
                x = st.frames[-1].regs[v[1]]
                if x.__class__ is CondPtr: x = s.condptr(st, x)
                return x
            except KeyError: raise EngineError('reg %s undefined in %s' % (v[1], st.frames[-1].f.name))
        if k == 'c':
            x = v[1]
            if t[0] in ('double', 'float', 'x86_fp80'): return s.ops.const(x)
            return x
        if k == 'null': return NULL
        if k == 'g': return s.globalptr(st, v[1])
        if k == 'undef':
            rt = s.m.rtype(t) if t[0] == 'named' else t
            if rt[0] == 'struct': return tuple(s.val(st, ('undef', e), e) for e in rt[1])
            if rt[0] in ('arr', 'vec'): return tuple(s.val(st, ('undef', rt[2]), rt[2]) for _ in range(rt[1]))
            return UNDEF
        if k == 'zero': return s.zero(t)
        if k == 'agg': return tuple(s.val(st, ev, et) for et, ev in v[1])
        if k == 'cgep':
            b = s.val(st, v[2], ('ptr',)); return s.gep(st, v[1], b, [(it, s.val(st, iv_, it)) for it, iv_ in v[3]])
        if k == 'ccast': return s.cast(st, v[1], v[2], s.val(st, v[3], v[2]), v[4])
        if k == 'cbin': return s.binop(st, v[1], v[2], s.val(st, v[3], v[2]), s.val(st, v[4], v[2]), set())
        if k == 'str': return tuple(norm(b, 8) for b in v[1])
        if k == 'meta': return UNDEF
        raise EngineError('val ' + str(v))
    def condptr(s, st, x):
        while x.__class__ is CondPtr:
            if any(is_z(q) and x.c.eq(q) for q in st.pc): x = x.a
            elif any(is_z(q) and bv(Not(x.c)).eq(q) for q in st.pc): x = x.b
            elif s.curop in ('load', 'getelementptr', 'ret', 'br', 'switch', 'select'): return x
            else: raise ForkOn(x.c)
        return x
    def zero(s, t):
        k = t[0]
        if k == 'named': return s.zero(s.m.rtype(t))
        if k == 'i': return False if t[1] == 1 else 0
        if k in ('double', 'float', 'x86_fp80'): return s.ops.const(0.0)
        if k == 'ptr': return NULL
        if k == 'struct': return tuple(s.zero(e) for e in t[1])
        if k in ('arr', 'vec'): return tuple(s.zero(t[2]) for _ in range(t[1]))
        raise EngineError('zero ' + str(t))
    # ---------------------------------------------------------------- memory
    def obj(s, st, p, what='access'):
        if not isinstance(p, Ptr):
            if p is UNDEF: s.fail_path(st, 'memory-safety', 'use of an uninitialised pointer in ' + what)
            if isinstance(p, int): s.fail_path(st, 'memory-safety', 'invalid pointer in ' + what)
            raise Unsupported('pointer value %r in %s' % (p, what))
        if p.o == 0: s.fail_path(st, 'memory-safety', 'null pointer ' + what)
        o = st.mem.get(p.o)
        if o is None:
            if p.o in s.oid_fn: raise Unsupported('data access to function')
            s.fail_path(st, 'memory-safety', 'dangling pointer ' + what)
        return o
    def bounds(s, st, o, off, size):
        if isinstance(off, int) and isinstance(o.size, int):
            if off < 0 or off + size > o.size: s.fail_path(st, 'memory-safety', 'out-of-bounds access at %d+%d of %s (size %s)' % (off, size, o.name, o.size))
            return
        c = And(iv(off) >= 0, iv(iadd(off, size)) <= iv(o.size))
        s.ensure(st, 'memory-safety', c, 'access within bounds of ' + o.name)
    def load(s, st, p, t):
        k = t[0]
        if p.__class__ is CondPtr: return s.ite(p.c, s.load(st, p.a, t), s.load(st, p.b, t))
        if k == 'named': return s.load(st, p, s.m.rtype(t))
        if k == 'struct' or k == 'arr' or k == 'vec':
            n = len(t[1]) if k == 'struct' else t[1]; out = []
            for i in range(n):
                fo, ft = s.m.field(t, i); out.append(s.load(st, Ptr(p.o, iadd(p.off, fo)), ft))
            return tuple(out)
        size = s.m.size(t)
        o = s.obj(st, p, 'load'); off = p.off
        if not isinstance(off, int): off = conc_int(off)
        s.bounds(st, o, off, size)
        if o.kind == 'c':
            if isinstance(off, int): return s.coerce(st, s.cell_get(st, o, off, size, t), t)
            s.to_arr(st, p.o, off, size); o = st.mem[p.o]
        c, idx = s.decode(st, o, off)
        f = s.arr_field(st, p.o, c, size, t)
        return s.coerce(st, s.aread(st, f, idx, t), t)
    def cell_get(s, st, o, off, size, t):
        c = o.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        # look for overlap
        ov = [(q, o.cells[q]) for q in range(off - 15, off + size) if q in o.cells and q + o.cells[q][0] > off]
        if not ov:
            for lo, hi in o.zr:
                if lo <= off and off + size <= hi: return s.zero(t)
            if o.lazy is not None:
                v = o.lazy(off, size, t)
                if v is not None: return v
            # (assembled zero)
            return UNDEF
        if len(ov) == 1:
            q, (z, v) = ov[0]
            if q <= off and off + size <= q + z and isinstance(v, int) and not isinstance(v, bool):
                u = v & ((1 << (8 * z)) - 1)
                return norm((u >> (8 * (off - q))) & ((1 << (8 * size)) - 1), 8 * size)
            if q <= off and off + size <= q + z and v is UNDEF: return UNDEF
        # assemble from integer pieces
        if t[0] == 'i' or t[0] == 'ptr':
            acc = 0; sym = None
            b = off
            parts = []
            while b < off + size:
                c = o.cells.get(b)
                if c is None:
                    if any(lo <= b < hi for lo, hi in o.zr): parts.append((b, 1, 0)); b += 1; continue
                    return UNDEF if all(p[2] is UNDEF for p in parts) or True else None
                parts.append((b, c[0], c[1])); b += c[0]
            if b == off + size:
                if all(isinstance(x[2], int) for x in parts):
                    for (q, z, v) in parts: acc |= (int(v) & ((1 << (8 * z)) - 1)) << (8 * (q - off))
                    return norm(acc, 8 * size)
                return Packed(tuple((q - off, z, v) for q, z, v in parts))
        v0 = ov[0][1][1]
        if isinstance(v0, Packed) : raise Unsupported('packed')
        raise Unsupported('mixed-size load at %d+%d of %s: %s' % (off, size, o.name, ov[:3]))
    def coerce(s, st, v, t):
        k = t[0]
        if v is UNDEF: return v
        if k in ('double', 'float', 'x86_fp80'):
            if isinstance(v, Bits): return v.v
            if isinstance(v, int) and not isinstance(v, bool):
                if v == 0: return s.ops.const(0.0)
                import struct
                return s.ops.const(struct.unpack('<d', (v & (2**64 - 1)).to_bytes(8, 'little'))[0])
            return v
        if k == 'i':
            if t[1] == 1:
                if isinstance(v, int) and not isinstance(v, bool): return bool(v & 1)
                if is_z(v) and z3.is_int(v): return s.tobool(v)
                return v
            if isinstance(v, bool): return int(v)
            if is_z(v) and z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, (Fraction, float)) or (is_z(v) and (z3.is_real(v) or z3.is_fp(v))): return Bits(v)
            return v
        if k == 'ptr':
            if isinstance(v, int) and v == 0: return NULL
            return v
        return v
    def tobool(s, v):
        if isinstance(v, bool): return v
        if isinstance(v, int): return bool(v & 1)
        if z3.is_app_of(v, z3.Z3_OP_ITE):
            a, b = v.arg(1), v.arg(2)
            if z3.is_int_value(a) and z3.is_int_value(b):
                x, y = a.as_long() & 1, b.as_long() & 1
                if x and not y: return v.arg(0)
                if y and not x: return z3.Not(v.arg(0))
        return simp(v % 2 == 1)
    def store(s, st, p, t, v):
        k = t[0]
        if k == 'named': return s.store(st, p, s.m.rtype(t), v)
        if k in ('struct', 'arr', 'vec'):
            n = len(t[1]) if k == 'struct' else t[1]
            for i in range(n):
                fo, ft = s.m.field(t, i); s.store(st, Ptr(p.o, iadd(p.off, fo)), ft, v[i])
            return
        size = s.m.size(t); s.obj(st, p, 'store')
        off = p.off
        if not isinstance(off, int): off = conc_int(off)
        o = st.mem[p.o]
        if o.const: s.fail_path(st, 'memory-safety', 'store to constant ' + o.name)
        s.bounds(st, o, off, size)
        if isinstance(v, Packed) :
            for (q, z, w) in v.parts: s.raw_store(st, p.o, off + q, z, w)
            return
        if o.kind == 'c':
            if isinstance(off, int): s.raw_store(st, p.o, off, size, v); return
            s.to_arr(st, p.o, off, size); o = st.mem[p.o]
        c, idx = s.decode(st, o, off)
        f = s.arr_field(st, p.o, c, size, t)
        o = st.wobj(p.o)
        o.fields[c] = (size, f.write(idx, v))
    def raw_store(s, st, oid, off, size, v):
        o = st.wobj(oid)
        cells = o.cells
        c = cells.get(off)
        if c is None or c[0] != size: s.clear_range(o, off, off + size)
        cells[off] = (size, v)
    def clear_range(s, o, lo, hi):
        cells = o.cells
        if hi - lo > 4096:
            qs = [q for q in cells if q < hi and q + cells[q][0] > lo]
        else: qs = [q for q in range(lo - 15, hi) if q in cells and q + cells[q][0] > lo]
        for q in qs:
            z, v = cells.pop(q)
            if q >= lo and q + z <= hi: continue
            # partially overwritten cell: keep remaining bytes if concrete
            if isinstance(v, int) and not isinstance(v, bool):
                for b in range(z):
                    if not (lo <= q + b < hi): cells[q + b] = (1, norm(((v & ((1 << 8*z) - 1)) >> (8 * b)) & 255, 8))
            elif isinstance(v, Packed) or True:
                for b in range(z):
                    if not (lo <= q + b < hi): cells[q + b] = (1, UNDEF)
    def to_arr(s, st, oid, off, size):
        """switch an object to symbolic-index representation"""
        o = st.wobj(oid)
        c, d = lin(off)
        g = 0
        for (x, q) in d.values(): g = math.gcd(g, abs(q))
        if g == 0: raise Unsupported('to_arr')
        o.kind = 'a'; o.stride = g; o.fields = {}
        cells = o.cells; zr = o.zr
        grp = {}
        for q, (z, v) in sorted(cells.items()): grp.setdefault((q % g, z), []).append((q // g, v))
        offs = set(c for c, z in grp)
        for (c0, z), l in grp.items():
            if c0 in o.fields: raise Unsupported('irregular object ' + o.name)
            s.mk_field(st, o, c0, z)
            f = o.fields[c0][1]
            for i, v in l: f = f.write(i, v)
            o.fields[c0] = (z, f)
        o.cells = {}
    def mk_field(s, st, o, c0, z):
        zr = list(o.zr); g = o.stride; lazy = o.lazy
        if lazy is not None and o.kind == 'a' and getattr(lazy, 'arr', None):
            r = lazy.arr(c0, z)
            if r is not None: o.fields[c0] = (z, r); return
        def fn(i, t=None):
            if zr:
                if isinstance(i, int):
                    if any(lo <= i * g + c0 and i * g + c0 + z <= hi for lo, hi in zr): return s.zero(t) if t else 0
                    return UNDEF
                if len(zr) == 1 and zr[0][0] <= c0 : return s.zero(t) if t else 0
            return UNDEF
        o.fields[c0] = (z, FArr.base(fn))
    def decode(s, st, o, off):
        c, d = lin(off); g = o.stride
        for k, (x, q) in d.items():
            if q % g: raise Unsupported('offset %s not a multiple of stride %d in %s' % (off, g, o.name))
        c0 = c % g
        return c0, unlin(c // g, {k: (x, q // g) for k, (x, q) in d.items()})
    def arr_field(s, st, oid, c, size, t):
        o = st.mem[oid]
        if c not in o.fields:
            o = st.wobj(oid); s.mk_field(st, o, c, size)
        z, f = o.fields[c]
        if z != size:
            raise Unsupported('field size mismatch %d/%d at +%d in %s' % (z, size, c, o.name))
        return f
    def decide(s, st, cond, fork=True):
        """truth of cond in this path; forks if open"""
        if isinstance(cond, bool): return cond
        c = simp(cond)
        if isinstance(c, bool): return c
        f = s.feasible(st, c); 
        if not f: return False
        g = s.feasible(st, Not(c))
        if not g: return True
        if fork: raise ForkOn(c)
        return None
    def aread(s, st, f, idx, t):
        conds = []
        while True:
            if f.k == 'base':
                try: v = f.a(idx, t)
                except TypeError: v = f.a(idx)
                break
            if f.k == 'upd': c = eqv(idx, f.b) if not (isinstance(idx, int) and isinstance(f.b, int)) else idx == f.b; w = lambda f=f: f.c
            else: c = f.b(idx); w = lambda f=f: f.c(idx)
            c = simp(c)
            if is_z(c):
                d, n = lin(isub(idx, f.b)) if f.k == 'upd' else (0, {1: 1})
                if f.k == 'upd' and not n: c = d == 0
                else:
                    r = s.decide(st, c, fork=False)
                    if r is not None: c = r
            if c is True: v = w(); break
            if c is not False:
                vv = w()
                if isinstance(vv, (Ptr, Bits, Packed, tuple)): raise ForkOn(c)
                conds.append((c, vv))
            f = f.a
        for c, w in reversed(conds):
            if v is UNDEF: v = s.fresh_of(w) if f.k != 'base' else s.undef_at(f, idx, w)
            if w is UNDEF: w = s.fresh_of(v)
            if isinstance(v, Ptr): raise ForkOn(c)
            v = s.ite(c, w, v)
        return v
    def undef_at(s, f, idx, w):
        """unspecified but fixed initial content of element idx of array f"""
        k = 'real' if isinstance(w, (Fraction, float)) or (is_z(w) and (z3.is_real(w) or z3.is_fp(w))) else 'bool' if isinstance(w, bool) or (is_z(w) and z3.is_bool(w)) else 'int' if isinstance(w, int) or is_z(w) else None
        if k is None: return UNDEF
        if f.d is None: s.n += 1; f.d = 'undef!%d' % s.n
        srt = {'real': z3.RealSort() if s.mode == 'real' else F64, 'int': z3.IntSort(), 'bool': z3.BoolSort()}[k]
        return z3.Function(f.d + k, z3.IntSort(), srt)(iv(idx))
    def fresh_of(s, w):
        if isinstance(w, (Fraction, float)) or (is_z(w) and (z3.is_real(w) or z3.is_fp(w))): return s.fresh('real', 'undef')
        if isinstance(w, bool) or (is_z(w) and z3.is_bool(w)): return s.fresh('bool', 'undef')
        if isinstance(w, int) or is_z(w): return s.fresh('int', 'undef')
        return UNDEF
    def ite(s, c, a, b):
        if c is True: return a
        if c is False: return b
        if a is b: return a
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o == b.o and (not s.opts.get('merge') or not is_z(a.off) and not is_z(b.off) and a.off == b.off): return Ptr(a.o, s.ite(c, a.off, b.off))
            if s.opts.get('merge') and is_z(c): return CondPtr(c, a, b)
            raise ForkOn(c)
        if isinstance(a, (Ptr, CondPtr)) or isinstance(b, (Ptr, CondPtr)):
            if s.opts.get('merge') and is_z(c) and isinstance(a, (Ptr, CondPtr)) and isinstance(b, (Ptr, CondPtr)): return CondPtr(c, a, b)
            raise ForkOn(c)
        if a is UNDEF or b is UNDEF: 
            if a is UNDEF and b is UNDEF: return a
            raise ForkOn(c)
        if isinstance(a, Bits) or isinstance(b, Bits):
            if isinstance(a, Bits) and isinstance(b, Bits): return Bits(s.ite(c, a.v, b.v))
            raise ForkOn(c)
        if isinstance(a, tuple): return tuple(s.ite(c, x, y) for x, y in zip(a, b))
        if not is_z(a) and not is_z(b) and a == b and type(a) == type(b): return a
        if is_z(a) and is_z(b) and a.eq(b): return a
        if is_b(a) and is_b(b):
            if a is True and b is False: return c
            if a is False and b is True: return Not(c)
            return simp(z3.If(c, bv(a), bv(b)))
        if isinstance(a, float) or isinstance(b, float):
            if s.mode == 'fp': return z3.If(c, fpv(a), fpv(b))
            raise ForkOn(c)
        if s.mode == 'fp' and ((is_z(a) and z3.is_fp(a)) or (is_z(b) and z3.is_fp(b))): return z3.If(c, fpv(a), fpv(b))
        if isinstance(a, Fraction) or isinstance(b, Fraction) or (is_z(a) and z3.is_real(a)): return z3.If(c, rv(a), rv(b))
        return z3.If(c, iv(a), iv(b))
    def gep(s, st, t, b, idx):
        if not isinstance(b, Ptr):
            if b is UNDEF: return UNDEF
            if isinstance(b, int): b = Ptr(0, b)
            else: raise Unsupported('gep on %r' % (b,))
        off = b.off
        cur = t
        for n, (it, i) in enumerate(idx):
            if i is UNDEF: return UNDEF
            if n == 0: off = iadd(off, imul(i, s.m.size(cur)))
            else:
                rt = s.m.rtype(cur)
                if rt[0] == 'struct':
                    fo, cur = s.m.field(rt, i); off = iadd(off, fo)
                else:
                    cur = rt[2]; off = iadd(off, imul(i, s.m.size(cur)))
        return Ptr(b.o, off)
    # ---------------------------------------------------------------- integer / fp operators
    def cast(s, st, op, ft, v, tt):
        if v is UNDEF: return UNDEF
        if op in ('bitcast', 'ptrtoint', 'inttoptr'):
            if op == 'bitcast': return s.coerce(st, v, tt)
            if op == 'inttoptr' and isinstance(v, int): return Ptr(0, v)
            return v
        if op in ('fptosi', 'fptoui'): return s.ops.to_int(v)
        if op in ('sitofp', 'uitofp'):
            if is_b(v): v = s.ite(v, 1, 0)
            if op == 'uitofp' and isinstance(v, int) and v < 0: v += 1 << ft[1]
            return s.ops.of_int(v)
        if op in ('fpext', 'fptrunc'): return v
        fw = ft[1]; tw = tt[1]
        if op == 'zext':
            if is_b(v): return int(v) if isinstance(v, bool) else z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if isinstance(v, int): return norm(v & ((1 << fw) - 1), tw)
            if not is_z(v): return v
            if s.nonneg(st, v): return v
            return z3.If(v < 0, v + (1 << fw), v)
        if op == 'sext':
            if is_b(v): return (-1 if v else 0) if isinstance(v, bool) else z3.If(v, z3.IntVal(-1), z3.IntVal(0))
            return v
        if op == 'trunc':
            if tw == 1: return s.tobool(v)
            if isinstance(v, int): return norm(v, tw)
            if isinstance(v, Packed):
                w = v.at(0, tw // 8)
                if w is not None: return w
                raise Unsupported('trunc packed')
            if isinstance(v, Bits): raise Unsupported('trunc of float bits')
            return v     # assumption: value fits
        raise Unsupported(op)
    def nonneg(s, st, v):
        r = s.L.check(s.L.slice(st.pc, [v]) + [v < 0], st.foralls, 500)
        return r[0] == 'unsat'
    def unsig(s, st, v, w):
        if isinstance(v, int): return v & ((1 << w) - 1)
        if not is_z(v): return v
        c, d = lin(v)
        if c >= 0 and all(q > 0 and s.is_nn(x) for x, q in d.values()): return v
        if s.nonneg(st, v): return v
        return z3.If(v < 0, v + (1 << w), v)
    def is_nn(s, x):
        return z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith('it!')
    def binop(s, st, op, t, a, b, fl):
        if op[0] == 'f':
            if a is UNDEF or b is UNDEF: 
                if a is UNDEF: a = s.fresh('real', 'undef')
                if b is UNDEF: b = s.fresh('real', 'undef')
            if t[0] == 'vec': return tuple(s.binop(st, op, t[2], x, y, fl) for x, y in zip(a, b))
            o = s.ops
            if op == 'fadd': return o.add(a, b)
            if op == 'fsub': return o.sub(a, b)
            if op == 'fmul': return o.mul(a, b)
            if op == 'fdiv': return o.div(a, b)
            return o.fun('fmod', a, b) if not (is_z(a) or is_z(b)) else o.uf('fmod', a, b)
        w = t[1] if t[0] == 'i' else 64
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.o == b.o: return isub(a.off, b.off)
                raise Unsupported('difference of pointers to different objects')
            if op == 'add' and isinstance(a, Ptr) and not isinstance(b, Ptr): return Ptr(a.o, iadd(a.off, b))
            if op == 'sub' and isinstance(a, Ptr): return Ptr(a.o, isub(a.off, b))
            if op == 'and' and isinstance(b, int) and isinstance(a, Ptr):
                if isinstance(a.off, int) and b in (1, 7, 15, 3): return a.off & b
                if b == 1: return 0
            raise Unsupported('pointer arithmetic ' + op)
        if w == 1:
            a_, b_ = a, b
            if op == 'and': return And(a_, b_)
            if op == 'or': return Or(a_, b_)
            if op in ('xor', 'add', 'sub'):
                if isinstance(a, bool) and isinstance(b, bool): return a != b
                if b is True: return Not(a)
                if a is True: return Not(b)
                if b is False: return a
                if a is False: return b
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(a, int) and isinstance(b, int):
            M = (1 << w) - 1; ua, ub = a & M, b & M
            if op == 'add': r = a + b
            elif op == 'sub': r = a - b
            elif op == 'mul': r = a * b
            elif op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0: s.fail_path(st, 'division', 'integer division by zero')
                if op == 'udiv': r = ua // ub
                elif op == 'urem': r = ua % ub
                else:
                    q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                    r = q if op == 'sdiv' else a - q * b
            elif op == 'shl': r = ua << ub
            elif op == 'lshr': r = ua >> ub
            elif op == 'ashr': r = a >> ub
            elif op == 'and': r = ua & ub
            elif op == 'or': r = ua | ub
            elif op == 'xor': r = ua ^ ub
            return norm(r, w)
        if isinstance(a, Packed) or isinstance(b, Packed):
            if op == 'lshr' and isinstance(a, Packed) and isinstance(b, int): return a.shr(b // 8)
            raise Unsupported('packed ' + op)
        if isinstance(a, Bits) or isinstance(b, Bits): raise Unsupported('integer arithmetic on float bits')
        if op == 'add': return iadd(a, b)
        if op == 'sub': return isub(a, b)
        if op == 'mul': return imul(a, b)
        if op == 'shl' and isinstance(b, int): return imul(a, 1 << b)
        if op in ('sdiv', 'udiv', 'ashr', 'lshr') and isinstance(b, int):
            k = b if op in ('sdiv', 'udiv') else 1 << b
            c, d = lin(a)
            if c % k == 0 and all(q % k == 0 for x, q in d.values()): return unlin(c // k, {i: (x, q // k) for i, (x, q) in d.items()})
            if op == 'ashr': return iv(a) / k
            if op in ('udiv', 'lshr'): return s.unsig(st, a, w) / k
            return z3.If(iv(a) >= 0, iv(a) / k, -((-iv(a)) / k))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            s.ensure(st, 'division', Not(eqv(b, 0)), 'integer divisor non-zero')
            x, y = iv(a), iv(b)
            if op[0] == 'u': x, y = iv(s.unsig(st, a, w)), iv(s.unsig(st, b, w))
            if op == 'udiv': return x / y
            if op == 'urem': return x % y
            q = z3.If((x >= 0) == (y >= 0), z3.If(x >= 0, x, -x) / z3.If(y >= 0, y, -y), -(z3.If(x >= 0, x, -x) / z3.If(y >= 0, y, -y)))
            return q if op == 'sdiv' else x - q * y
        if op in ('and', 'or', 'xor'):
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                if op == 'xor' and b == -1: return isub(-1, a)
                if op == 'xor' and b == 1 and z3.is_app_of(a, z3.Z3_OP_ITE): return s.ite(s.tobool(a), 0, 1)
                if op == 'and' and b >= 0 and (b & (b + 1)) == 0: 
                    if b == 1: return s.ite(s.tobool(a), 1, 0)
                    return a % (b + 1)
                if op == 'or' and b == 0: return a
                if op == 'and' and b == -1: return a
            ba, bb = s.as01(a), s.as01(b)
            if ba is not None and bb is not None:
                r = And(ba, bb) if op == 'and' else Or(ba, bb) if op == 'or' else z3.Xor(bv(ba), bv(bb))
                return s.ite(simp(r), 1, 0)
        raise Unsupported('symbolic integer %s' % op)
    def as01(s, v):
        if isinstance(v, int): return bool(v) if v in (0, 1) else None
        if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_int_value(v.arg(1)) and z3.is_int_value(v.arg(2)) and {v.arg(1).as_long(), v.arg(2).as_long()} == {0, 1}: return s.tobool(v)
        return None
    def icmp(s, st, pr, t, a, b):
        if a is UNDEF or b is UNDEF:
            return s.fresh('bool', 'undef')
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, int): a = Ptr(0, a)
            if isinstance(b, int): b = Ptr(0, b)
            if not (isinstance(a, Ptr) and isinstance(b, Ptr)): raise Unsupported('icmp ptr')
            if a.o != b.o:
                if pr == 'eq': return False
                if pr == 'ne': return True
                if a.o == 0 or b.o == 0:
                    return {'ult': a.o == 0, 'ule': a.o == 0, 'ugt': b.o == 0, 'uge': b.o == 0}.get(pr, False)
                # unrelated objects: a fixed but arbitrary total order
                return {'u': a.o < b.o}['u'] if pr in ('ult', 'ule', 'slt', 'sle') else a.o > b.o
            x = isub(a.off, b.off)
            pr = {'ult': 'slt', 'ule': 'sle', 'ugt': 'sgt', 'uge': 'sge'}.get(pr, pr)
            return s.icmp(st, pr, ('i', 64), x, 0)
        w = t[1] if t[0] == 'i' else 64
        if w == 1:
            if pr == 'eq': return simp(bv(a) == bv(b)) if is_z(a) or is_z(b) else a == b
            if pr == 'ne': return simp(z3.Xor(bv(a), bv(b))) if is_z(a) or is_z(b) else a != b
            a = s.ite(a, 1, 0); b = s.ite(b, 1, 0)
        if isinstance(a, Packed) or isinstance(b, Packed) or isinstance(a, Bits) or isinstance(b, Bits): raise Unsupported('icmp on packed value')
        if pr[0] == 'u': a = s.unsig(st, a, w); b = s.unsig(st, b, w)
        elif w == 1: pass
        if not is_z(a) and not is_z(b):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pr if pr in ('eq', 'ne') else pr[1:]]
        c, d = lin(isub(a, b)); g = 0
        for x, q in d.values(): g = math.gcd(g, abs(q))
        o = pr if pr in ('eq', 'ne') else pr[1:]
        if not d: return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[o]
        if g > 1 and o in ('eq', 'ne'):
            if c % g: return o == 'ne'
        if g > 1 and c % g == 0:
            x = unlin(c // g, {k: (y, q // g) for k, (y, q) in d.items()}); a, b = x, 0
        a = iv(a); b = iv(b)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b}[o]()
        return simp(r)
    # ---------------------------------------------------------------- path conditions and obligations
    def feasible(s, st, c, timeout=1500):
        if isinstance(c, bool): return c
        sl = s.L.slice(st.pc, [c]) if not st.foralls else st.pc
        key = (tuple(x.get_id() if is_z(x) else x for x in sl), c.get_id(), len(st.foralls))
        h = s.fcache.get(key)
        if h is not None: return h[0]
        r = s.L.check(sl + [c], st.foralls, timeout, feas=True)
        if s.ops.alg is None and r[0] == 'unknown' and s.mode == 'real':
            if s.L.nlsat([bv(f) for f in sl] + [bv(c)], 1500) == 'unsat': r = ('unsat',)
        s.fcache[key] = (r[0] != 'unsat', sl, c)
        return r[0] != 'unsat'
    def assume(s, st, c):
        c = simp(c)
        if c is True: return
        if c is False or not s.feasible(st, c): raise PathEnd()
        st.pc.append(c)
    def ob(s, name):
        r = s.obls.get(name)
        if r is None: r = s.obls[name] = Result()
        return r
    def ensure(s, st, name, cond, desc='', extra_inputs=()):
        if s.quiet:     # inside a trial exploration: obligations are generated in the final pass
            c = simp(cond)
            if c is False: raise PathEnd()
            if c is not True and s.quiet: st.pc.append(c)
            return
        s.checktime()
        r = s.ob(name); r.vcs += 1
        res = s.L.prove(st.pc, cond, st.foralls, s.tmo)
        if res[0] == 'proved':
            r.proved += 1; r.backends[res[1]] = r.backends.get(res[1], 0) + 1
            c = simp(cond) if res[1] != 'normal form' else True
            if c is not True: st.pc.append(c)
            return
        info = {'desc': desc, 'where': s.where(st), 'status': res[0], 'goal': str(simp(cond))[:2000], 'inputs': s.model_inputs(st, res[2] if len(res) > 2 else None), 'log': list(st.log)}
        if res[0] == 'cex': r.failed.append(info)
        else: r.unknown.append(info)
        s.grace()
        if s.opts.get('verbose'): print('  FAIL', name, res[0], desc, s.where(st), '\n     goal:', info['goal'][:600], '\n     in:', str(info['inputs'])[:300], file=sys.stderr)
        c = simp(cond)
        if c is False: raise PathEnd()
        if c is not True:
            if not s.feasible(st, c): raise PathEnd()
            st.pc.append(c)
    def fail_path(s, st, name, desc):
        if s.dbg: print("FAILPATH", name, desc, s.where(st)[:150])
        if not s.quiet:
            r = s.ob(name); r.vcs += 1
            q = s.L.check(st.pc, st.foralls, s.tmo, full=True)
            if q[0] == 'unsat': r.proved += 1; r.backends[q[1]] = r.backends.get(q[1], 0) + 1
            else:
                info = {'desc': desc, 'where': s.where(st), 'status': 'cex' if q[0] == 'sat' else 'unknown', 'goal': 'unreachable: ' + desc, 'inputs': s.model_inputs(st, q[2]), 'log': list(st.log)}
                (r.failed if q[0] == 'sat' else r.unknown).append(info)
                s.grace()
                if s.opts.get('verbose'): print('  FAIL', name, info['status'], desc, s.where(st), '\n     in:', str(info['inputs'])[:300], file=sys.stderr)
        raise PathEnd()
    def checktime(s):
        if s.deadline and time.time() > s.deadline: raise EngineError('time budget of this contract exhausted')
    def grace(s):
        """an obligation is not discharged: the contract fails, do not spend the whole budget on the others"""
        g = s.opts.get('grace')
        if g and s.deadline: s.deadline = min(s.deadline, time.time() + g)
    def where(s, st):
        return ' < '.join(s.dname(f.f.name)[:80] for f in reversed(st.frames[-6:]))
    def dname(s, n): return s.dem.get(n, n)
    def model_inputs(s, st, m):
        out = {}
        if m is None: return out
        for nm, v in st.inputs:
            if callable(v) and not is_z(v):
                n, fn = v(m) if False else (None, None)
            try:
                x = m.eval(v, model_completion=True) if is_z(v) else v
                out[nm] = s.mstr(x)
            except Exception: pass
        for nm, fn, cnt in getattr(s, 'array_inputs', []):
            try:
                n = cnt if isinstance(cnt, int) else m.eval(iv(cnt), model_completion=True).as_long()
                for k in range(min(n, 40)):
                    x = m.eval(fn(z3.IntVal(k)), model_completion=True); out['%s[%d]' % (nm, k)] = s.mstr(x)
            except Exception: pass
        return out
    def mstr(s, x):
        if isinstance(x, (bool, int)): return str(int(x))
        if z3.is_true(x): return '1'
        if z3.is_false(x): return '0'
        if z3.is_int_value(x): return str(x.as_long())
        if z3.is_rational_value(x): return repr(float(Fraction(x.numerator_as_long(), x.denominator_as_long())))
        if z3.is_algebraic_value(x): return repr(float(x.approx(20).as_fraction()))
        if z3.is_fp(x): return repr(conc_fp(x))
        return str(x)
    # ---------------------------------------------------------------- exploration
    def explore(s, st, limit):
        """-> (backs, exits)"""
        backs = []; exits = []; wl = []
        def push(x):
            for k, y in s.classify(x, limit):
                (backs if k == 'back' else exits if k == 'exit' else wl).append(y)
        if limit is None or limit.h is None: push(st)
        else: wl.append(st)
        while wl:
            x = wl.pop()
            for y in s.run(x, limit): push(y)
        return backs, exits
    def classify(s, st, limit):
        d = len(st.frames)
        if limit is not None:
            if d < limit.d: return [('exit', st)]
            if d == 0: return []
            fr = st.frames[-1]
            if limit.h is not None and d == limit.d and st.entered:
                if fr.blk == limit.h and fr.prev in limit.body: return [('back', st)]
                if fr.blk not in limit.body: st.entered = st.entered; return [('exit', st)]
        elif d == 0:
            return []
        if d and st.entered:
            fr = st.frames[-1]
            lp = fr.f.loops.get(fr.blk)
            if lp is not None and fr.prev not in lp:
                key = s.loopkey(st, fr.blk)
                if key in s.cutset:
                    st.entered = False
                    out = []
                    for e in s.cut(st, d, fr.blk, lp, key):
                        out += s.classify(e, limit)
                    return out
        st.entered = False
        return [('cont', st)]
    def loopkey(s, st, h):
        return tuple((f.f.name, f.blk if i < len(st.frames) - 1 else None, f.idx if i < len(st.frames) - 1 else 0) for i, f in enumerate(st.frames)) + (h,)
    def run(s, st, limit):
        """execute until the state forks, transfers to a loop header/exit of interest or ends. returns successor states"""
        ld = limit.d if limit is not None else 0
        while True:
            s.steps += 1
            if s.steps % 2000 == 0:
                if s.deadline and time.time() > s.deadline: raise EngineError('time budget of this contract exhausted')
                if s.steps > s.max_steps: raise EngineError('step budget exhausted')
            fr = st.frames[-1]
            try:
                ins = fr.f.blocks[fr.blk][fr.idx]
            except IndexError: raise EngineError('fell off block')
            try:
                r = s.step(st, fr, ins)
            except ForkOn as e:
                out = []
                for c in (e.cond, Not(e.cond)):
                    if s.feasible(st, c):
                        n = st.copy(); n.pc.append(c); out.append(n)
                return out
            except PathEnd:
                return []
            except Thrown:
                if not s.unwind(st):
                    if not s.quiet: s.uncaught(st)
                    return []
                if len(st.frames) < ld: return [st]
                r = None
                if st.entered: return [st]
                continue
            if r is None:
                if len(st.frames) < ld or not st.frames:
                    if not st.frames and ld == 0: s.finish(st)
                    return [st]
                if st.entered:
                    # transferred to another block: loops/limits need classification
                    f2 = st.frames[-1]
                    if (limit is not None and limit.h is not None and len(st.frames) == limit.d) or f2.blk in f2.f.loops: return [st]
                    st.entered = False
                continue
            return r
    def finish(s, st):
        s.paths += 1
        if s.quiet: return
        if s.complete_sat < (1 if s.ops.alg is not None else 3):
            q = s.L.check(st.pc, st.foralls, 5000)
            if q[0] == 'sat': s.complete_sat += 1
            elif q[0] == 'unknown': s.complete_unknown += 1
    def uncaught(s, st):
        try: s.fail_path(st, 'no-unexpected-exception', 'exception %s escapes the contract' % (st.exc,))
        except PathEnd: pass
    def jump(s, st, fr, to):
        frm = fr.blk
        blk = fr.f.blocks[to]
        vals = []; i = 0
        for i, ins in enumerate(blk):
            if ins.op != 'phi': break
            for v, b in ins.a:
                if b == frm: vals.append((ins.dst, s.val(st, v, ins.ty))); break
            else: raise EngineError('phi')
        for d, v in vals: fr.regs[d] = v
        fr.prev = frm; fr.blk = to; fr.idx = len(vals)
        st.entered = True
        if to in fr.f.loops:
            if frm in fr.f.loops[to]:
                n = fr.lc.get(to, 0) + 1; fr.lc[to] = n
                if n > s.opts.get('unroll', 2000): raise Unsupported('loop in %s exceeds the unrolling cap' % s.dname(fr.f.name))
            else: fr.lc[to] = 0
    def branch(s, st, fr, cond, a, b):
        if cond is UNDEF: cond = s.fresh('bool', 'undef')
        cond = simp(cond) if is_z(cond) else cond
        if isinstance(cond, bool): s.jump(st, fr, a if cond else b); return None
        fa = s.feasible(st, cond); fb = s.feasible(st, Not(cond))
        if fa != fb:
            # only one way, but on the strength of other facts: do not run through an unbounded loop step by step
            sy = None
            for h, body in fr.f.loops.items():
                if fr.lc.get(h, 0) >= 4 and fr.blk in body and ((a in body) != (b in body)):
                    if sy is None: sy = syms(cond)
                    key = s.loopkey_at(st, fr, h)
                    if any(x in s.L.sizevars for x in sy) and key not in s.cutset and fr.mark != key and not s.opts.get('nocut'): raise NeedCut(key)
        if fa and not fb: s.jump(st, fr, a); return None
        if fb and not fa: s.jump(st, fr, b); return None
        if not fa and not fb: return []
        # symbolic exit of a loop whose trip count is unbounded?
        sy = syms(cond)
        for h, body in fr.f.loops.items():
            if fr.blk in body and ((a in body) != (b in body)):
                if any(x in s.L.sizevars or x.startswith('it!') for x in sy) or fr.lc.get(h, 0) > s.opts.get('maxsym', 40):
                    key = s.loopkey_at(st, fr, h)
                    if key not in s.cutset and fr.lc.get(h, 0) >= 0 and fr.mark != key and not s.opts.get('nocut') :
                        raise NeedCut(key)
        if s.opts.get('merge') and s.try_merge(st, fr, cond, a, b): return None
        n = st.copy(); n.pc.append(Not(cond)); st.pc.append(cond)
        s.jump(st, fr, a); s.jump(n, n.frames[-1], b)
        return [st, n]
    # ---------------------------------------------------------------- joining the two sides of a branch again
    def ipdom(s, f, blk):
        pd = getattr(f, 'pdom', None)
        if pd is None:
            succ = {}
            for b, ins in f.blocks.items():
                I = ins[-1]
                succ[b] = [I.a['normal']] if I.op == 'invoke' else s.m.succs(ins)
            live = {b for b, ins in f.blocks.items() if ins[-1].op == 'ret'}; ch = bool(live)
            while ch:                                    # blocks that end in a throw are left out
                ch = False
                for b in f.blocks:
                    if b not in live and any(x in live for x in succ[b]): live.add(b); ch = True
            if live: succ = {b: [x for x in q if x in live] if b in live else q for b, q in succ.items()}
            allb = set(f.blocks); pd = {b: ({b} if not succ[b] else allb) for b in f.blocks}
            ch = True
            while ch:
                ch = False
                for b in f.blocks:
                    if not succ[b]: continue
                    n = set.intersection(*[pd[x] for x in succ[b]]) | {b}
                    if n != pd[b]: pd[b] = n; ch = True
            f.pdom = pd
        c = [x for x in pd[blk] if x != blk]
        for x in c:
            if len(pd[x]) == len(c): return x
        return None
    def run_to(s, st, d, P):
        base = s.steps
        while True:
            fr = st.frames[-1] if st.frames else None
            if len(st.frames) < d: raise NoMerge()
            if len(st.frames) == d and fr.blk == P: return st
            if fr.blk in fr.f.loops and st.entered and fr.prev not in fr.f.loops[fr.blk] and s.loopkey(st, fr.blk) in s.cutset: raise NoMerge()
            st.entered = False
            s.steps += 1
            if s.steps - base > 3000: raise NoMerge()
            try: r = s.step(st, fr, fr.f.blocks[fr.blk][fr.idx])
            except PathEnd: return None
            except (ForkOn, Thrown, Unsupported) as e: raise NoMerge('%r at %s' % (e, fr.blk))
            if r is not None: raise NoMerge('fork in %s %s' % (fr.f.name, fr.blk))
    def try_merge(s, st, fr, cond, a, b):
        key = (fr.f.name, fr.blk)
        if key in s.nomerge: return False
        P = s.ipdom(fr.f, fr.blk)
        if P is None or P in fr.f.loops or any(fr.blk in body and P not in body for body in fr.f.loops.values()):
            if s.dbg: print('NOMERGE', key, 'P', P)
            s.nomerge.add(key); return False
        d = len(st.frames); np_ = len(st.pc)
        try:
            sides = []
            for c, to in ((cond, a), (Not(cond), b)):
                n = st.copy(); n.pc.append(c); s.jump(n, n.frames[-1], to); sides.append(s.run_to(n, d, P))
            x, y = sides
            if x is None or y is None:
                if x is None and y is None: raise NoMerge()
                m = y if x is None else x
            else: m = s.merge_states(x, y, cond, np_)
        except (NoMerge, ForkOn) as e:
            if s.dbg: print("NOMERGE", key, repr(e), e.__traceback__.tb_lineno, [q.lineno for q in __import__("traceback").extract_tb(e.__traceback__)])
            s.nomerge.add(key); return False
        for k in State.__slots__: setattr(st, k, getattr(m, k))
        st.entered = True
        return True
    def merge_switch(s, st, fr, v, a):
        key = (fr.f.name, fr.blk)
        if key in s.nomerge: return False
        P = s.ipdom(fr.f, fr.blk)
        if P is None or P in fr.f.loops or any(fr.blk in body and P not in body for body in fr.f.loops.values()):
            if s.dbg: print('NOMERGE', key, 'P', P)
            s.nomerge.add(key); return False
        d = len(st.frames); np_ = len(st.pc)
        try:
            sides = []; seen = []
            for c, l in list(a[2]) + [(None, a[1])]:
                cc = simp(eqv(v, c)) if c is not None else simp(z3.And([bv(Not(q)) for q in seen]))
                if c is not None: seen.append(cc)
                if not s.feasible(st, cc): continue
                n = st.copy(); n.pc.append(cc); s.jump(n, n.frames[-1], l); n = s.run_to(n, d, P)
                if n is not None: sides.append((cc, n))
            if not sides: raise NoMerge()
            m = sides[-1][1]
            if len(sides) == 1: pass
            for cc, x in reversed(sides[:-1]):
                m = s.merge_states(x, m, cc, np_)
                m.pc.insert(np_, z3.BoolVal(True))
        except (NoMerge, ForkOn) as e:
            if s.dbg: print("NOMERGE", key, repr(e), e.__traceback__.tb_lineno, [q.lineno for q in __import__("traceback").extract_tb(e.__traceback__)])
            s.nomerge.add(key); return False
        for k in State.__slots__: setattr(st, k, getattr(m, k))
        st.entered = True
        return True
    def merge_states(s, x, y, cond, np_):
        if x.exc is not None or y.exc is not None or len(x.foralls) != len(y.foralls) or x.inputs != y.inputs or x.names != y.names or len(x.caught) != len(y.caught) or len(x.log) != len(y.log): raise NoMerge()
        for f, g in zip(x.frames[:-1], y.frames[:-1]):
            if f.regs.keys() != g.regs.keys(): raise NoMerge()
        mem = dict(x.mem); loc = set(x.frames[-1].allocas) | set(y.frames[-1].allocas)
        for o, oy in y.mem.items():
            ox = mem.get(o)
            if ox is None: mem[o] = oy; continue
            if ox is oy: continue
            mem[o] = s.merge_obj(ox, oy, cond, o in loc)
        fx, fy = x.frames[-1], y.frames[-1]
        regs = {}
        for k, v in fx.regs.items():
            if k in fy.regs: regs[k] = s.ite(cond, v, fy.regs[k]) if v is not fy.regs[k] else v
        fx.regs = regs
        fx.allocas = fx.allocas + [q for q in fy.allocas if q not in fx.allocas]
        x.mem = mem; x.own = object()
        ex, ey = x.pc[np_ + 1:], y.pc[np_ + 1:]
        x.pc = x.pc[:np_] + [z3.Or(bv(Not(cond)), bv(q)) for q in ex] + [z3.Or(bv(cond), bv(q)) for q in ey]
        return x
    def merge_obj(s, a, b, cond, local=False):
        if a.kind != b.kind or a.size is not b.size and not (not is_z(a.size) and not is_z(b.size) and a.size == b.size) or a.stride != b.stride or a.zr != b.zr or a.lazy is not b.lazy: raise NoMerge()
        if a.fields is not None or b.fields is not None:
            if a.fields is None or b.fields is None or a.fields.keys() != b.fields.keys() or any(a.fields[k] is not b.fields[k] and a.fields[k] != b.fields[k] for k in a.fields): raise NoMerge()
        if a.cells.keys() != b.cells.keys() and (a.zr or a.lazy): raise NoMerge('cells of %s' % a.name)
        o = a.clone()
        for k, (n, v) in a.cells.items():
            if k not in b.cells:                                # written on one side only: unknown on the other
                if not local: raise NoMerge('cells of %s' % a.name)
                if isinstance(v, (Fraction, float)) or is_z(v) and (z3.is_real(v) or z3.is_fp(v)): o.cells[k] = (n, s.ite(cond, v, s.fresh_of(v)))
                else: del o.cells[k]
                continue
            n2, w = b.cells[k]
            if n2 != n: raise NoMerge()
            if v is w or not is_z(v) and not is_z(w) and type(v) == type(w) and v == w: continue
            if is_z(v) and is_z(w) and v.eq(w): continue
            if isinstance(v, (Bits, Packed)) or isinstance(w, (Bits, Packed)): raise NoMerge()
            o.cells[k] = (n, s.ite(cond, v, w))
        for k, (n, w) in b.cells.items():
            if k in a.cells: continue
            if not local: raise NoMerge('cells of %s' % a.name)
            if isinstance(w, (Fraction, float)) or is_z(w) and (z3.is_real(w) or z3.is_fp(w)): o.cells[k] = (n, s.ite(cond, s.fresh_of(w), w))
        return o
    def loopkey_at(s, st, fr, h): return s.loopkey(st, h)
    # ---------------------------------------------------------------- exceptions
    def unwind(s, st):
        """unwind st (st.exc set) to a landing pad; True if a frame resumed"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.ins
            if ins is not None and ins.op == 'invoke':
                lp = fr.f.blocks[ins.a['unwind']]
                j = 0
                while lp[j].op == 'phi': j += 1
                pad = lp[j]
                cleanup, clauses = pad.a
                sel = s.match(st, clauses)
                if sel is not None or cleanup:
                    fr.ins = None
                    s.jump(st, fr, ins.a['unwind'])
                    fr.regs[pad.dst] = (st.exc[0], sel if sel is not None else 0)
                    fr.idx += 1
                    return True
            s.popframe(st)
        return False
    def match(s, st, clauses):
        for k, v in clauses:
            if k == 'catch':
                if v[0] == 'null': return s.tiid('...')
                nm = v[1]
                if nm == st.exc[1] or s.ti_derives(st.exc[1], nm): return s.tiid(nm)
            elif k == 'filter': return None
        return None
    def tiid(s, nm):
        if nm not in s.ti_ids: s.ti_ids[nm] = len(s.ti_ids) + 1
        return s.ti_ids[nm]
    def ti_derives(s, a, b):
        if a == b: return True
        if a.startswith('std::'): return b in ('_ZTISt9exception', '_ZTISt11logic_error', '_ZTISt13runtime_error') or b == a
        for x in s.ti_bases(a):
            if s.ti_derives(x, b): return True
        return False
    def ti_bases(s, a):
        if a not in s.m.globals: return []
        t, init, c = s.m.global_info(a)
        out = []
        if init and init[0] == 'agg':
            for et, ev in init[1]:
                if ev[0] == 'g' and ev[1].startswith('_ZTI') : out.append(ev[1])
        return out
    def popframe(s, st):
        fr = st.frames.pop()
        for oid in fr.allocas: st.mem.pop(oid, None)
        return fr
    def throw(s, st, ptr, ti):
        st.exc = (ptr, ti); raise Thrown()
    # ---------------------------------------------------------------- calls
    def find_handler(s, name):
        h = s.H.get(name)
        if h is not None: return h
        d = s.dname(name)
        for rx, tgt in s.redirects:
            if rx.search(d): return ('redirect', tgt)
        for rx in s.noops:
            if rx.search(d): return ('noop',)
        for pre, fn in s.prefix:
            if pre.match(d): return fn
        return None
    def call(s, st, fr, ins, name, args, argt):
        name = s.m.aliases.get(name, name)
        key = name
        h = s.hc.get(key, 0) if hasattr(s, 'hc') else None
        if not hasattr(s, 'hc'): s.hc = {}; h = 0
        if h == 0: h = s.hc[key] = s.find_handler(name)
        if h is not None:
            if isinstance(h, tuple):
                if h[0] == 'redirect' and not any(f.f.name == h[1] for f in st.frames):
                    s.contracts_used.add('%s => %s' % (s.dname(name), h[1])); name = h[1]; h = None
                elif h[0] == 'noop':
                    s.skipped.add(s.dname(name)); return ('ret', s.default_ret(ins.ty, args))
                else: h = None
            else:
                try: r = h(st, fr, ins, args)
                except PushFrame as e:
                    st.frames.append(e.frame); return None
                return ('ret', r)
        if name not in s.m.funcs:
            raise Unsupported('call to unmodelled external function ' + s.dname(name))
        f = s.m.func(name)
        s.executed.add(name)
        if len(st.frames) > 150: raise Unsupported('call depth (unbounded recursion?) in ' + s.dname(name))
        nf = Frame(f); fr.ins = ins
        if len(args) < len(f.params): raise EngineError('args of ' + name)
        for (t, nm, a), v in zip(f.params, args): 
            if 'byval' in a:
                # private copy
                z = s.m.size(a['byval']); q = s.newobj(st, 'byval', z); nf.allocas.append(q.o); s.memcpy(st, q, v, z); v = q
            nf.regs[nm] = v
        st.frames.append(nf)
        return None
    def default_ret(s, t, args):
        if t[0] == 'void': return None
        if t[0] == 'ptr': return args[0] if args else NULL
        return s.zero(t)
    def eval_sub(s, st, fname_ptr, args):
        """run a contract-level function on a copy of st; list of (state, value) for normal returns"""
        name = s.oid_fn[fname_ptr.o] if isinstance(fname_ptr, Ptr) else fname_ptr
        n = st.copy(); n.entered = False
        f = s.m.func(name); nf = Frame(f)
        for (t, nm, a), v in zip(f.params, args): nf.regs[nm] = v
        dummy = n.frames
        n.frames = n.frames + [nf]
        n.frames[-2].ins = None
        d = len(n.frames)
        b, e = s.explore(n, Limit(d))
        out = []
        for x in e:
            if x.exc is not None and x.exc is not st.exc: continue
            out.append((x, x.ret))
        return out
    def merge_sub(s, st, fname_ptr, args):
        """value of a pure contract expression: paths merged by if-then-else"""
        rs = s.eval_sub(st, fname_ptr, args)
        if not rs: raise PathEnd()
        base = len(st.pc); v = rs[-1][1]
        for x, r in reversed(rs[:-1]):
            c = And(*[bv(q) for q in x.pc[base:]])
            v = s.ite(c, r, v)
        return v
    def memcpy(s, st, d, sp, n):
        if isinstance(n, int) and n == 0: return
        so = s.obj(st, sp, 'memcpy source'); s.obj(st, d, 'memcpy destination')
        doff, soff = d.off, sp.off
        n = n if isinstance(n, int) else conc_int(n)
        dob = st.mem[d.o]
        if isinstance(n, int) and isinstance(doff, int) and isinstance(soff, int) and so.kind == 'c' and dob.kind == 'c':
            s.bounds(st, so, soff, n); s.bounds(st, dob, doff, n)
            items = [(q, so.cells[q]) for q in (so.cells if n > 512 else range(soff - 15, soff + n)) if q in so.cells and q < soff + n and q + so.cells[q][0] > soff]
            zr = [(max(lo, soff), min(hi, soff + n)) for lo, hi in so.zr if lo < soff + n and hi > soff]
            lazy = so.lazy
            if lazy is not None and not items and False: pass
            do = st.wobj(d.o); s.clear_range(do, doff, doff + n)
            nz = []
            for lo, hi in do.zr:
                if hi <= doff or lo >= doff + n: nz.append((lo, hi))
                else:
                    if lo < doff: nz.append((lo, doff))
                    if hi > doff + n: nz.append((doff + n, hi))
            do.zr = nz + [(lo - soff + doff, hi - soff + doff) for lo, hi in zr]
            for q, (z, v) in items:
                if q < soff or q + z > soff + n:
                    if isinstance(v, int):
                        for b in range(z):
                            if soff <= q + b < soff + n: do.cells[q + b - soff + doff] = (1, norm((v >> (8 * b)) & 255, 8))
                    continue
                do.cells[q - soff + doff] = (z, v)
            if lazy is not None:
                # symbolic-default source: materialise 8-byte cells
                covered = set()
                for q, (z, v) in items: covered.update(range(q, q + z))
                for q in range(soff, soff + n, 8):
                    if q not in covered:
                        v = lazy(q, 8, ('double',))
                        if v is not None: do.cells[q - soff + doff] = (8, v)
            return
        s.bounds_n(st, so, soff, n); s.bounds_n(st, dob, doff, n)
        # element-wise through the symbolic-index representation
        stride = so.stride or dob.stride
        if stride is None:
            for e in (soff, doff, n):
                if not isinstance(e, int):
                    c, dd = lin(e); g = 0
                    for x, q in dd.values(): g = math.gcd(g, abs(q))
                    stride = g if stride is None else math.gcd(stride, g)
        if so.kind == 'c': s.to_arr_stride(st, sp.o, stride)
        if dob.kind == 'c': s.to_arr_stride(st, d.o, stride)
        so = st.mem[sp.o]; dob = st.mem[d.o]
        if so.stride != dob.stride: raise Unsupported('memcpy between arrays of different stride')
        g = so.stride
        nc, nd = lin(n)
        if nc % g or any(q % g for x, q in nd.values()):
            # part of a single element
            if isinstance(n, int) and n < g: pass
            raise Unsupported('memcpy of partial elements')
        cnt = unlin(nc // g, {k: (x, q // g) for k, (x, q) in nd.items()})
        c1, i1 = s.decode(st, so, soff); c2, i2 = s.decode(st, dob, doff)
        if c1 or c2: raise Unsupported('memcpy misaligned')
        for c in list(so.fields):
            if c not in dob.fields:
                dob = st.wobj(d.o); s.mk_field(st, dob, c, so.fields[c][0])
        dob = st.wobj(d.o)
        for c, (z, f) in so.fields.items():
            g0 = dob.fields[c][1]
            if cnt == 1: dob.fields[c] = (z, g0.write(i2, s.aread(st, f, i1, None))); continue
            def pred(j, i2=i2, cnt=cnt): return And(simp(iv(j) >= iv(i2)), simp(iv(j) < iv(iadd(i2, cnt))))
            def fn(j, f=f, i1=i1, i2=i2, z=z, st=st): return s.aread(st, f, iadd(isub(j, i2), i1), None)
            dob.fields[c] = (z, g0.rng(pred, fn))
        for c in list(dob.fields):
            if c not in so.fields:
                z, g0 = dob.fields[c]
                raise Unsupported('memcpy: field mismatch')
    def to_arr_stride(s, st, oid, stride):
        j = z3.Int('vc!dummy')
        s.to_arr(st, oid, imul(j, stride), 8)
    def bounds_n(s, st, o, off, n):
        c = And(simp(iv(off) >= 0), simp(iv(iadd(off, n)) <= iv(o.size)))
        s.ensure(st, 'memory-safety', c, 'block access within bounds of ' + o.name)
    def memset(s, st, d, v, n):
        if isinstance(n, int) and n == 0: return
        s.obj(st, d, 'memset'); o = st.wobj(d.o)
        if not isinstance(n, int): n = conc_int(n)
        if isinstance(n, int) and isinstance(d.off, int) and o.kind == 'c':
            s.bounds(st, o, d.off, n); s.clear_range(o, d.off, d.off + n)
            if v == 0: o.zr.append((d.off, d.off + n))
            else:
                for i in range(n): o.cells[d.off + i] = (1, v)
            return
        if v == 0:
            s.bounds_n(st, o, d.off, n)
            if o.kind == 'c':
                if not o.cells and d.off == 0 and not isinstance(n, int) and ilin_eq(n, o.size): o.zr = [(0, 1 << 60)]; return
                c, dd = lin(n); g = 0
                for x, q in dd.values(): g = math.gcd(g, abs(q))
                s.to_arr_stride(st, d.o, g or 8)
                o = st.wobj(d.o)
            g = o.stride; c, dd = lin(n)
            if any(q % g for x, q in dd.values()) or c % g: raise Unsupported('memset')
            cnt = unlin(c // g, {k: (x, q // g) for k, (x, q) in dd.items()})
            c0, i0 = s.decode(st, o, d.off)
            if not o.fields: s.mk_field(st, o, 0, g)
            for c, (z, f) in list(o.fields.items()):
                if cnt == 1: o.fields[c] = (z, f.write(i0, 0)); continue
                o.fields[c] = (z, f.rng(lambda j, i0=i0, cnt=cnt: And(simp(iv(j) >= iv(i0)), simp(iv(j) < iv(iadd(i0, cnt)))), lambda j: 0))
            return
        raise Unsupported('memset')
    # ---------------------------------------------------------------- one instruction
    def step(s, st, fr, ins):
        op = s.curop = ins.op; a = ins.a
        if op == 'load':
            fr.regs[ins.dst] = s.load(st, s.val(st, a, ('ptr',)), ins.ty); fr.idx += 1; return None
        if op == 'store':
            s.store(st, s.val(st, a[1], ('ptr',)), ins.ty, s.val(st, a[0], ins.ty)); fr.idx += 1; return None
        if op == 'getelementptr':
            b = s.val(st, a[0], ('ptr',))
            if b.__class__ is CondPtr: 
                ix = [(t, s.val(st, v, t)) for t, v in a[1]]
                go = lambda p: CondPtr(p.c, go(p.a), go(p.b)) if p.__class__ is CondPtr else s.gep(st, ins.ty, p, ix)
                fr.regs[ins.dst] = go(b); fr.idx += 1; return None
            fr.regs[ins.dst] = s.gep(st, ins.ty, b, [(t, s.val(st, v, t)) for t, v in a[1]]); fr.idx += 1; return None
        if op == 'call' or op == 'invoke':
            fn = a['fn']
            if fn[0] == 'g': name = fn[1]
            elif fn[0] == 'asm':
                fr.idx += 1; return None
            else:
                p = s.val(st, fn, ('ptr',))
                if p is UNDEF or not isinstance(p, Ptr): s.fail_path(st, 'memory-safety', 'call through invalid pointer')
                if p.o not in s.oid_fn: s.fail_path(st, 'memory-safety', 'call through non-function pointer')
                name = s.oid_fn[p.o]
            args = [s.val(st, v, t) for t, v, aa in a['args']]
            r = s.call(st, fr, ins, name, args, a['args'])
            if r is not None:
                if ins.dst is not None: fr.regs[ins.dst] = r[1]
                if op == 'invoke': s.jump(st, fr, a['normal'])
                else: fr.idx += 1
            return None
        if op == 'br':
            if a[0] is None: s.jump(st, fr, a[1]); return None
            return s.branch(st, fr, s.val(st, a[0], ('i', 1)), a[1], a[2])
        if op == 'ret':
            v = s.val(st, a, ins.ty) if a is not None else None
            s.popframe(st)
            st.ret = v
            if not st.frames: return None
            c = st.frames[-1]; ci = c.ins; c.ins = None
            if ci is None: return None      # sub-evaluation boundary
            if ci.dst is not None: c.regs[ci.dst] = v
            if ci.op == 'invoke': s.jump(st, c, ci.a['normal'])
            else: c.idx += 1
            return None
        if op == 'alloca':
            n = 1
            if a is not None: n = s.val(st, a[1], a[0])
            p = s.newobj(st, '%s.%s' % (s.short(fr.f.name), ins.dst), imul(n, s.m.size(ins.ty))); fr.allocas.append(p.o)
            fr.regs[ins.dst] = p; fr.idx += 1; return None
        if op == 'icmp':
            x = s.val(st, a[1], ins.ty); y = s.val(st, a[2], ins.ty)
            fr.regs[ins.dst] = s.icmp(st, a[0], ins.ty, x, y); fr.idx += 1; return None
        if op == 'fcmp':
            x = s.val(st, a[1], ins.ty); y = s.val(st, a[2], ins.ty)
            if x is UNDEF: x = s.fresh('real', 'undef')
            if y is UNDEF: y = s.fresh('real', 'undef')
            fr.regs[ins.dst] = s.ops.cmp(a[0], x, y); fr.idx += 1; return None
        if op == 'select':
            c = s.val(st, a[0], ('i', 1)); x = s.val(st, a[1], ins.ty); y = s.val(st, a[2], ins.ty)
            if c is UNDEF: c = s.fresh('bool', 'undef')
            if is_z(c):
                c = simp(c)
                if is_z(c):
                    if any(z3.eq(c, q) for q in st.pc if is_z(q)): c = True
                    elif any(z3.eq(bv(Not(c)), q) for q in st.pc if is_z(q)): c = False
            fr.regs[ins.dst] = s.ite(c, x, y); fr.idx += 1; return None
        if op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            fr.regs[ins.dst] = s.cast(st, op, a[0], s.val(st, a[1], a[0]), ins.ty); fr.idx += 1; return None
        if op == 'switch':
            v = s.val(st, a[0], ins.ty)
            if isinstance(v, int):
                for c, l in a[2]:
                    if c == v: s.jump(st, fr, l); return None
                s.jump(st, fr, a[1]); return None
            if v is UNDEF: raise Unsupported('switch on undef')
            if s.opts.get('merge') and s.merge_switch(st, fr, v, a): return None
            out = []; rest = st
            for c, l in a[2]:
                cc = eqv(v, c)
                if s.feasible(rest, cc):
                    n = rest.copy(); n.pc.append(cc); s.jump(n, n.frames[-1], l); out.append(n)
                nc = Not(cc)
                if not s.feasible(rest, nc): rest = None; break
                rest.pc.append(nc)
            if rest is not None: s.jump(rest, rest.frames[-1], a[1]); out.append(rest)
            return out
        if op == 'extractvalue':
            v = s.val(st, a[0], ins.ty)
            for i in a[1]: v = v[i] if v is not UNDEF else UNDEF
            fr.regs[ins.dst] = v; fr.idx += 1; return None
        if op == 'insertvalue':
            v = s.val(st, a[0], ins.ty); e = s.val(st, a[2], a[1])
            def put(v, idx):
                if not idx: return e
                l = list(v); l[idx[0]] = put(l[idx[0]], idx[1:]); return tuple(l)
            fr.regs[ins.dst] = put(v, a[3]); fr.idx += 1; return None
        if op == 'extractelement':
            v = s.val(st, a[0], ins.ty); fr.regs[ins.dst] = v[s.val(st, a[1], ('i', 64))]; fr.idx += 1; return None
        if op == 'insertelement':
            v = list(s.val(st, a[0], ins.ty)); v[s.val(st, a[2], ('i', 64))] = s.val(st, a[1], ins.ty[2]); fr.regs[ins.dst] = tuple(v); fr.idx += 1; return None
        if op == 'fneg':
            v = s.val(st, a, ins.ty)
            fr.regs[ins.dst] = UNDEF if v is UNDEF else s.ops.neg(v); fr.idx += 1; return None
        if op == 'freeze': fr.regs[ins.dst] = s.val(st, a, ins.ty); fr.idx += 1; return None
        if op == 'unreachable': s.fail_path(st, 'no-abort', 'unreachable code reached')
        if op == 'resume':
            v = s.val(st, a, ins.ty); fr.ins = None
            s.popframe_keep(st); raise Thrown()
        if op == 'landingpad': raise EngineError('landingpad by fallthrough')
        if op == 'fence': fr.idx += 1; return None
        if op == 'atomicrmw':
            p = s.val(st, a[1], ('ptr',)); v = s.val(st, a[2], ins.ty); o = s.load(st, p, ins.ty)
            n = s.binop(st, a[0], ins.ty, o, v, set()) if a[0] in ('add', 'sub', 'and', 'or') else v
            s.store(st, p, ins.ty, n); fr.regs[ins.dst] = o; fr.idx += 1; return None
        # binary operators
        x = s.val(st, a[0], ins.ty); y = s.val(st, a[1], ins.ty)
        fr.regs[ins.dst] = s.binop(st, op, ins.ty, x, y, a[2]); fr.idx += 1
        return None
    def popframe_keep(s, st): s.popframe(st)
    def short(s, n):
        d = s.dname(n); return d.split('(')[0][-40:]
    # ---------------------------------------------------------------- loop cutting
    def diff(s, st0, b, d, h):
        """locations whose value differs between st0 and b (both at header h, depth d)"""
        out = []
        f0 = st0.frames[d-1]; f1 = b.frames[d-1]
        for ins in f0.f.blocks[h]:
            if ins.op != 'phi': break
            if not same(f0.regs[ins.dst], f1.regs[ins.dst]): out.append(('reg', ins.dst))
        for oid, o1 in b.mem.items():
            o0 = st0.mem.get(oid)
            if o0 is o1: continue
            if o0 is None: continue
            if o0.kind != o1.kind:
                return ('convert', oid, o1.stride)
            if o0.kind == 'c':
                for off in set(o0.cells) | set(o1.cells):
                    c0 = o0.cells.get(off); c1 = o1.cells.get(off)
                    if c0 is c1: continue
                    if c0 is None or c1 is None or c0[0] != c1[0] or not same(c0[1], c1[1]): out.append(('cell', oid, off, (c1 or c0)[0]))
            else:
                for c in set(o0.fields) | set(o1.fields):
                    x0 = o0.fields.get(c); x1 = o1.fields.get(c)
                    if x0 is None:
                        if x1[1].k == 'base': continue       # lazily created default
                        return ('field', oid, c, x1[0])
                    if x1 is None or x0[1] is not x1[1]:
                        out.append(('arr', oid, c, (x1 or x0)[0]))
        return out
    def prep(s, st, x):
        if x[0] == 'convert': s.to_arr_stride(st, x[1], x[2])
        elif x[2] not in st.mem[x[1]].fields: s.mk_field(st, st.wobj(x[1]), x[2], x[3])
    def getloc(s, st, d, loc):
        if loc[0] == 'reg': return st.frames[d-1].regs[loc[1]]
        o = st.mem[loc[1]]
        if loc[0] == 'cell':
            c = o.cells.get(loc[2])
            if c is None:
                for lo, hi in o.zr:
                    if lo <= loc[2] and loc[2] + loc[3] <= hi: return 0
                return UNDEF
            return c[1]
        return o.fields[loc[2]][1]
    def setloc(s, st, d, loc, v):
        if loc[0] == 'reg': st.frames[d-1].regs[loc[1]] = v; return
        if loc[0] == 'cell': s.raw_store(st, loc[1], loc[2], loc[3], v); return
        o = st.wobj(loc[1]); o.fields[loc[2]] = (loc[3], v)
    def cut(s, st0, d, h, body, key):
        s.quiet += 1
        try:
            r = s.cut_infer(st0, d, h, body, key)
        finally: s.quiet -= 1
        if r is None:
            # loop does not iterate twice on any path: explore normally
            st0 = st0.copy(); st0.entered = False
            st0.frames[-1].mark = key
            bs, ex = s.explore(st0, Limit(d, h, body))
            if bs: raise EngineError('cut: inconsistent')
            return ex
        build, desc = r
        stg, it = build()
        bs, ex = s.explore(stg, Limit(d, h, body))
        s.loopnotes = getattr(s, 'loopnotes', {})
        s.loopnotes['%s:%s' % (s.dname(st0.frames[-1].f.name), h)] = desc
        return ex
    def cut_infer(s, st0, d, h, body, key):
        base = st0.copy(); base.entered = False
        trial = base.copy(); trial.frames[-1].mark = key
        for _ in range(6):
            backs, exits = s.explore(trial.copy(), Limit(d, h, body))
            if not backs: return None
            df = []
            conv = None
            for b in backs:
                x = s.diff(trial, b, d, h)
                if isinstance(x, tuple): conv = x; break
                df += x
            if conv:
                s.prep(base, conv); s.prep(trial, conv); continue
            break
        st0.mem = base.mem; base = st0.copy(); base.entered = False
        M = []
        for l in df:
            if l not in M: M.append(l)
        closed = {}
        nevercl = set(); conds = None; nogo = set()
        for l in M:
            x0 = s.getloc(base, d, l)
            if l[0] == 'arr': continue
            ds = set()
            for b in backs:
                x1 = s.getloc(b, d, l)
                dl = delta(x0, x1)
                ds.add(dl)
            if len(ds) == 1 and None not in ds: closed[l] = ('lin', x0, ds.pop())
        cands = [c for c in s.cands]
        if not hasattr(s, 'hints'): s.hints = {}
        hint = s.hints.get(key)        # what did not work for this loop before is not tried again
        alive = [ci for ci in range(len(cands)) if (hint is None or ci in hint['alive']) and s.eval_cand(base, cands[ci], check=True) is True]
        pairs = [] if hint and hint['nopairs'] else None; apairs = [] if hint and hint['noapairs'] else None; plain = False; done = False
        noconds = hint is not None and hint['noconds']
        desc = {}; s.noopt = set(); gb = [backs]
        for rnd in range(24):
            gen = {}
            it = None
            def build(closed=dict(closed), M=list(M), alive=list(alive), conds=conds, gen=gen, pairs=list(pairs or []), apairs=list(apairs or [])):
                it = s.fresh('int', 'it')
                st = base.copy(); st.entered = False; st.frames[-1].mark = key
                st.pc.append(it >= 0)
                for l in M:
                    if l in closed: s.setloc(st, d, l, s.closed_val(st, closed[l], it))
                    else:
                        x0 = s.getloc(base, d, l)
                        g = s.generic(st, l, x0, gb[0], d)
                        gen[l] = g; s.setloc(st, d, l, g[0])
                if conds is not None:
                    st.foralls.append((0, it, conds))
                    st.pc.append(z3.Implies(it >= 1, bv(conds(isub(it, 1)))))
                for (l1, x1, l2, x2, sg) in pairs:
                    if l1 in gen and l2 in gen:
                        st.pc.append(rv(gen[l1][0]) - rv(x1) == sg * (rv(gen[l2][0]) - rv(x2)))
                for (l1, l2, nv) in apairs:
                    if l1 in gen and l2 in gen:
                        a1, a2 = gen[l1][0], gen[l2][0]
                        st.foralls.append((0, nv, lambda t, a1=a1, a2=a2: rv(a1.a(t)) == rv(a2.a(t))))
                for ci in alive:
                    c = s.eval_cand(st, cands[ci])
                    if c is not None: st.pc.append(bv(c))
                return st, it
            stg, it = build()
            g0 = stg.copy()
            backs, exits = s.explore(stg.copy(), Limit(d, h, body))
            if backs: gb[0] = backs
            opt = [l for l in gen if gen[l][1] == 'arr' and gen[l][3] == 'opt']
            if not backs:
                if opt: s.noopt |= set(opt); continue
                if not plain and (alive or conds is not None or pairs or apairs or closed):
                    # nothing to check the guesses against: start over without any
                    plain = True; closed = {}; alive = []; conds = None; pairs = []; apairs = []; continue
                done = True; break
            # modified locations
            new = []
            for b in backs:
                x = s.diff(g0, b, d, h)
                if isinstance(x, tuple):
                    s.prep(base, x); new = None
                    M = [l for l in M if not (l[0] == 'cell' and l[1] == x[1])]
                    closed = {l: c for l, c in closed.items() if not (l[0] == 'cell' and l[1] == x[1])}
                    conds = None
                    if not plain: pairs = [] if hint and hint['nopairs'] else None; apairs = [] if hint and hint['noapairs'] else None
                    break
                for l in x:
                    if l not in M and l not in new: new.append(l)
            if new is None: continue
            if new:
                M += new; conds = None
                if not plain: pairs = [] if hint and hint['nopairs'] else None; apairs = [] if hint and hint['noapairs'] else None
                continue
            if plain: done = True; break
            changed = False
            # closed forms inductive?
            for l, cf in list(closed.items()):
                for b in backs:
                    want = s.closed_val(b, cf, iadd(it, 1)); got = s.getloc(b, d, l)
                    if l[0] == 'arr':
                        ok = s.arr_equal(b, want, got)
                    else: ok = s.same_val(b, want, got)
                    if not ok:
                        del closed[l]; nevercl.add((l, cf[0])); changed = True; break
            if changed: conds = None; continue
            # pairs of arrays which agree element by element
            if apairs is None:
                apairs = []
                al = [l for l in gen if gen[l][1] == 'arr' and gen[l][3] == 'real' and gen[l][2] is not None]
                szs = [z3.Int(x) for x in sorted(s.L.sizevars) if not x.startswith('it!')]
                for i, l1 in enumerate(al):
                    for l2 in al[i+1:]:
                        for nv in szs:
                            if s.agree(base, s.getloc(base, d, l1), s.getloc(base, d, l2), nv) : apairs.append((l1, l2, nv)); changed = True; break
            else:
                for (l1, l2, nv) in list(apairs):
                    if l1 not in gen or l2 not in gen or not all(s.agree(b, s.getloc(b, d, l1), s.getloc(b, d, l2), nv) for b in backs):
                        apairs.remove((l1, l2, nv)); changed = True
            if changed: continue
            # user candidates
            for ci in list(alive):
                if s.eval_cand(base, cands[ci], check=True) is False:
                    alive.remove(ci); changed = True; continue
                for b in backs:
                    c = s.eval_cand(b, cands[ci])
                    if c is None or s.L.prove(b.pc, c, b.foralls, 4000)[0] != 'proved':
                        if s.dbg: print('cand', ci, 'fails', h, c, 'apairs', apairs)
                        alive.remove(ci); changed = True; break
            # pairwise coupled accumulators
            if pairs is None:
                pairs = []
                rl = [l for l in gen if gen[l][1] == 'real']
                for i, l1 in enumerate(rl):
                    for l2 in rl[i+1:]:
                        for sg in (1, -1):
                            ok = True
                            for b in backs:
                                e = rv(s.getloc(b, d, l1)) - rv(gen[l1][0]) - sg * (rv(s.getloc(b, d, l2)) - rv(gen[l2][0]))
                                if s.L.prove(b.pc, e == 0, b.foralls, 1500)[0] != 'proved': ok = False; break
                            if ok:
                                x1 = s.coerce(base, s.getloc(base, d, l1), ('double',)); x2 = s.coerce(base, s.getloc(base, d, l2), ('double',))
                                if x1 is not UNDEF and x2 is not UNDEF: pairs.append((l1, x1, l2, x2, sg)); changed = True
                                break
            if changed: continue
            gsyms = set()
            for l, g in gen.items():
                if g[2] is not None: gsyms.add(g[2])
            newsyms = s.n
            # sums / folds / array patterns
            for l, g in gen.items():
                cf = s.close_one(base, d, l, g, gen, backs, it, len(g0.pc), gsyms, nevercl)
                if cf is not None:
                    closed[l] = cf; changed = True
            if opt:
                if not changed: s.noopt |= set(opt)
                conds = None; pairs = [] if hint and hint['nopairs'] else None; apairs = [] if hint and hint['noapairs'] else None; continue
            if changed: conds = None; continue
            if conds is None and not noconds:
                cs = []
                bad = set(gsyms)
                for b in backs:
                    dl = []
                    for q in b.pc[len(g0.pc):]:
                        sy = syms(q)
                        if sy & bad: continue
                        if any(s.is_local(x, it) for x in sy): continue
                        dl.append(bv(q))
                    cs.append(And(*dl))
                C = Or(*cs)
                if s.dbg: print('CONDS', key[-1] if isinstance(key, tuple) else key, C, [b.pc[len(g0.pc):] for b in backs], 'bad', bad)
                if C is not True:
                    conds = (lambda t, C=C, it=it: z3.substitute(bv(C), (it, iv(t))))
                    continue
                conds = None
            done = True; break
        if not done: raise Unsupported('no loop invariant found within the round limit')
        h2 = s.hints.setdefault(key, {'alive': set(range(len(cands))), 'nopairs': True, 'noapairs': True, 'noconds': True})
        h2['alive'] &= set(alive); h2['nopairs'] &= not pairs; h2['noapairs'] &= not apairs; h2['noconds'] &= conds is None
        desc['agree'] = len(apairs or [])
        for l in M: desc[str(l)] = (closed[l][0] if l in closed else 'havoc')
        desc['candidates'] = len(alive)
        return build, desc
    def is_local(s, nm, it):
        """symbol created after the iteration counter (so local to one iteration)"""
        m = re.search(r'!(\d+)$', nm)
        if not m: return False
        k = int(m.group(1)); k0 = int(it.decl().name().split('!')[1])
        return k > k0 and not nm.startswith('in!')
    def generic(s, st, l, x0, backs, d):
        if l[0] == 'arr':
            s.n += 1; nm = 'G!%d' % s.n
            x1 = s.getloc(backs[0], d, l)
            # element sort from a sample read
            tv = s.sample(st, x0, x1)
            if tv in ('real', 'int', 'bool'):
                srt = {'real': (z3.RealSort() if s.mode == 'real' else F64), 'int': z3.IntSort(), 'bool': z3.BoolSort()}[tv]
                U = z3.Function(nm, z3.IntSort(), srt)
                return (FArr.base(lambda i, t=None: U(iv(i))), 'arr', nm, tv)
            if tv == 'ptr' and l not in s.noopt:
                # optimistic trial: elements not yet written this iteration are old ones (re-checked by induction before use)
                return (FArr('rng', x0, lambda j: False, lambda j: UNDEF), 'arr', None, 'opt')
            return (FArr.base(lambda i, t=None: UNDEF), 'arr', None, tv)
        x = x0
        if x is UNDEF:
            for b in backs:
                x = s.getloc(b, d, l)
                if x is not UNDEF: break
        elif isinstance(x, int) and not isinstance(x, bool):
            for b in backs:
                y = s.getloc(b, d, l)
                if isinstance(y, Fraction) or (is_z(y) and z3.is_real(y)): x = y; break
        if isinstance(x, Ptr): return (UNDEF, 'undef', None)
        if isinstance(x, (Bits, Packed, tuple)): return (UNDEF, 'undef', None)
        if isinstance(x, bool) or (is_z(x) and z3.is_bool(x)): v = s.fresh('bool', 'h'); k = 'bool'
        elif isinstance(x, (Fraction, float)) or (is_z(x) and (z3.is_real(x) or z3.is_fp(x))): v = s.fresh('real', 'h'); k = 'real'
        elif x is UNDEF: return (UNDEF, 'undef', None)
        else: v = s.fresh('int', 'h'); k = 'int'
        return (v, k, v.decl().name())
    def sample(s, st, *fs):
        for f in fs:
            while f is not None:
                if f.k == 'upd': v = f.c
                elif f.k == 'base':
                    try: v = f.a(z3.Int('vc!probe'), None)
                    except Exception: v = UNDEF
                else:
                    try: v = f.c(z3.Int('vc!probe'))
                    except Exception: v = UNDEF
                if isinstance(v, bool) or (is_z(v) and z3.is_bool(v)): return 'bool'
                if isinstance(v, (Fraction, float)) or (is_z(v) and (z3.is_real(v) or z3.is_fp(v))): return 'real'
                if isinstance(v, Ptr): return 'ptr'
                if is_z(v) and z3.is_int(v): return 'int'
                if isinstance(v, int) and v != 0: return 'int'
                f = f.a if f.k != 'base' else None
        return 'real'
    def closed_val(s, st, cf, it):
        k = cf[0]
        if k == 'lin':
            x0, dl = cf[1], cf[2]
            if isinstance(x0, Ptr): return Ptr(x0.o, iadd(x0.off, imul(it, dl)))
            if isinstance(dl, Fraction): return s.ops.add(x0, s.ops.mul(s.ops.of_int(it), dl))
            return iadd(x0, imul(it, dl))
        if k == 'sum': return s.ops.add(cf[1], s.L.mk_sum(cf[2], it))
        if k == 'fold': return s.L.mk_fold(cf[1], cf[2], cf[3], it)
        if k == 'arr':
            x0, itv, a, cidx, v = cf[1:6]      # index(t) = a*t + cidx
            def tof(j):   # t with a*t + c = j
                dlt = isub(j, cidx)
                if a < 0: dlt = isub(0, dlt)
                if abs(a) == 1: return dlt
                return dlt // abs(a) if isinstance(dlt, int) else iv(dlt) / abs(a)
            def pred(j):
                t = tof(j); p = And(simp(iv(t) >= 0), simp(iv(t) < iv(it)))
                return p if abs(a) == 1 else And(p, simp(iv(isub(j, cidx)) % abs(a) == 0))
            def fn(j):
                t = tof(j)
                if isinstance(v, Ptr): return Ptr(v.o, conc_int(z3.substitute(v.off, (itv, iv(t))))) if is_z(v.off) else v
                return conc(z3.substitute(v, (itv, iv(t)))) if is_z(v) else v
            return x0.rng(pred, fn)
        if k == 'asum':                        # element a*t+c is set to X(t) in iteration t, and every later iteration u adds D(u)
            x0, itv, a, cidx, X, D = cf[1:7]
            def tof2(j):
                dlt = isub(j, cidx)
                return isub(0, dlt) if a < 0 else dlt
            def pred2(j):
                t = tof2(j); return And(simp(iv(t) >= 0), simp(iv(t) < iv(it)))
            def fn2(j):
                t = tof2(j)
                v = conc(z3.substitute(X, (itv, iv(t)))) if is_z(X) else X
                return s.ops.add(v, s.ops.sub(s.L.mk_sum(D, it), s.L.mk_sum(D, iadd(t, 1))))
            return x0.rng(pred2, fn2)
        if k == 'const': return cf[1]
        if k == 'last':                        # overwritten in every iteration, not set before the first
            if not is_z(cf[2]): v = cf[2]
            else: v = conc(z3.substitute(cf[2], (s.L.J, iv(isub(it, 1)))))
            return s.ite(simp(iv(it) >= 1), v, cf[1])
        raise EngineError(k)
    def same_val(s, st, a, b):
        if same(a, b): return True
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            return a.o == b.o and s.L.prove(st.pc, eqv(a.off, b.off), st.foralls, 2000)[0] == 'proved'
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is UNDEF or b is UNDEF: return False
        if isinstance(a, (Bits, Packed, tuple)) or isinstance(b, (Bits, Packed, tuple)): return False
        try: return s.L.prove(st.pc, eqv(s.coerce(st, a, ('double',)) if s.isreal(b) else a, s.coerce(st, b, ('double',)) if s.isreal(a) else b), st.foralls, 4000)[0] == 'proved'
        except z3.Z3Exception: return False
    def isreal(s, x): return isinstance(x, Fraction) or (is_z(x) and z3.is_real(x))
    def arr_equal(s, st, f, g, depth=0):
        j = z3.Int('sk!a')
        try:
            a = s.aread(st, f, j, None); b = s.aread(st, g, j, None)
        except ForkOn as e:
            if depth > 4: return False
            for c in (e.cond, Not(e.cond)):
                n = st.copy(); n.pc.append(c)
                if s.feasible(n, c) and not s.arr_equal(n, f, g, depth + 1): return False
            return True
        if a is UNDEF and b is UNDEF: return True
        if s.L.sums and is_z(a) and is_z(b): return s.val_split(st, a, b, 0)
        return s.same_val(st, a, b)
    def agree(s, st, f, g, nv):
        s.n += 1; j = z3.Int('sk!p%d' % s.n)
        n = st.copy(); n.pc += [j >= 0, j < nv]
        if not s.feasible(n, z3.BoolVal(True)): return False
        try: a = s.aread(n, f, j, None); b = s.aread(n, g, j, None)
        except (ForkOn, Unsupported): return False
        if a is UNDEF or b is UNDEF: return False
        return s.same_val(n, s.resolve_ites(n, a), s.resolve_ites(n, b))
    def val_split(s, st, a, b, depth):
        """equality by cases on the conditions of the element reads, so that sums can be compared by rewriting"""
        if depth < 5:
            for x in subterms([a, b], lambda x: z3.is_app_of(x, z3.Z3_OP_ITE) and 'sk!a' in syms(x.arg(0))):
                q = x.arg(0)
                for c, tv in ((q, True), (z3.Not(q), False)):
                    n = st.copy(); n.pc.append(c)
                    if not s.feasible(n, c): continue
                    r = (q, z3.BoolVal(tv))
                    if not s.val_split(n, z3.simplify(z3.substitute(a, r)), z3.simplify(z3.substitute(b, r)), depth + 1): return False
                return True
        if not z3.is_eq(eqv(a, b)): return s.same_val(st, a, b)
        # an index pinned by an equality of the path
        for q in st.pc[-6:]:
            if z3.is_eq(q) and z3.is_int(q.arg(0)):
                c, d = lin(isub(q.arg(0), q.arg(1)))
                for k, (x, w) in d.items():
                    if z3.is_const(x) and x.decl().name() == 'sk!a' and abs(w) == 1:
                        rest = unlin(c, {i: v for i, v in d.items() if i != k}); rest = isub(0, rest) if w == 1 else rest
                        return s.same_val(st, z3.simplify(z3.substitute(a, (x, iv(rest)))), z3.simplify(z3.substitute(b, (x, iv(rest)))))
        return s.same_val(st, a, b)
    def close_one(s, base, d, l, g, gen, backs, it, npc, gsyms, nevercl):
        if g[1] == 'undef': return None
        allowed_self = g[2]
        if g[1] == 'arr' and g[2] is not None and len(backs) == 1 and s.mode == 'real' and (l, 'asum') not in nevercl:
            cf = s.close_asum(base, d, l, g, backs[0], it, gsyms)
            if cf: return cf
        if g[1] == 'arr':
            if (l, 'arr') in nevercl: return None
            # every back edge: chain of updates over the generic base
            val = None; idx = None; items = []
            for b in backs:
                f = s.getloc(b, d, l); ch = []
                while f.k == 'upd': ch.append((f.b, f.c)); f = f.a
                if f is not g[0]: return None
                if len(ch) == 0: items.append((b, None)); continue
                i0 = ch[0][0]
                for (q, _) in ch[1:]:
                    if lin(isub(q, i0))[0] != 0 or lin(isub(q, i0))[1]: return None
                if idx is None: idx = i0
                elif lin(isub(idx, i0))[0] != 0 or lin(isub(idx, i0))[1]: return None
                items.append((b, ch[0][1]))
            if idx is None: return None
            c, dd = lin(idx)
            k = it.get_id()
            if k not in dd or dd[k][1] == 0: return None
            a = dd[k][1]
            cidx = unlin(c, {i: x for i, x in dd.items() if i != k})
            x0 = s.getloc(base, d, l)
            old = None
            def oldv():
                return s.aread(base, x0, idx, None)
            vals = []
            for b, v in items:
                if v is None: v = oldv()
                vals.append((b, v))
            v = self_merge(s, vals, npc)
            if v is None: return None
            if is_z(v):
                # G(idx) in the value means the old element
                if g[2] is not None and g[2] in syms(v):
                    for ap in subterms([v], lambda x: z3.is_app(x) and x.decl().name() == g[2] and x.num_args() == 1):
                        dc, dn = lin(isub(ap.arg(0), idx))
                        if dc != 0 or dn: return None
                        ov = oldv()
                        if ov is UNDEF: return None
                        v = z3.substitute(v, (ap, rv(ov) if z3.is_real(ap) else iv(ov) if z3.is_int(ap) else fpv(ov) if z3.is_fp(ap) else bv(ov)))
                if syms(v) & gsyms: return None
                if any(s.is_local(x, it) and x != it.decl().name() for x in syms(v)): return None
            elif isinstance(v, Ptr):
                if is_z(v.off):
                    if syms(v.off) & gsyms or any(s.is_local(x, it) and x != it.decl().name() for x in syms(v.off)): return None
            return ('arr', x0, it, a, cidx, v)
        X = g[0]; x0 = s.getloc(base, d, l)
        if x0 is UNDEF:
            if g[1] != 'real' or (l, 'last') in nevercl: return None
            vals = [(b, s.getloc(b, d, l)) for b in backs]
            if any(v is UNDEF or isinstance(v, (Ptr, Bits, Packed, tuple)) for _, v in vals): return None
            v = self_merge(s, [(b, s.coerce(b, v, ('double',))) for b, v in vals], npc)
            if v is None: return None
            if is_z(v):
                sy = syms(v)
                if sy & gsyms or any(s.is_local(x, it) and x != it.decl().name() for x in sy): return None
                v = z3.substitute(v, (it, s.L.J))
            return ('last', X, v)
        if g[1] == 'real': x0 = s.coerce(base, x0, ('double',))
        vals = [(b, s.getloc(b, d, l)) for b in backs]
        if any(v is UNDEF for _, v in vals): return None
        if g[1] == 'real': vals = [(b, s.coerce(b, v, ('double',))) for b, v in vals]
        if s.mode == 'real': vals = [(b, s.pin_locals(b, v, it)) for b, v in vals]
        v = self_merge(s, vals, npc)
        if v is None: return None
        bad = gsyms - {allowed_self}
        if g[1] == 'real' and (l, 'sum') not in nevercl and s.mode == 'real':
            try: dlt = z3.simplify(rv(v) - rv(X), som=True)
            except Unsupported: return None
            dlt = simp_delta(rv(v), X)
            sy = syms(dlt)
            if allowed_self not in sy and not (sy & bad) and not any(s.is_local(x, it) and x != it.decl().name() for x in sy):
                body = z3.substitute(dlt, (it, s.L.J)) if is_z(dlt) else dlt
                return ('sum', x0, conc(body) if is_z(body) else body)
        if (l, 'fold') in nevercl: return None
        sy = syms(v)
        if sy & bad or any(s.is_local(x, it) and x != it.decl().name() for x in sy - {allowed_self}): return None
        vz = rv(v) if g[1] == 'real' and s.mode == 'real' else fpv(v) if g[1] == 'real' else iv(v) if g[1] == 'int' else bv(v)
        return ('fold', x0, z3.substitute(vz, (it, s.L.J)), X)
    def resolve_ites(s, st, e):
        for _ in range(12):
            if not is_z(e): return e
            q = list(subterms([e], lambda x: z3.is_app_of(x, z3.Z3_OP_ITE)))
            for x in q:
                c = x.arg(0)
                if not s.feasible(st, z3.Not(c)): e = z3.substitute(e, (c, z3.BoolVal(True))); break
                if not s.feasible(st, c): e = z3.substitute(e, (c, z3.BoolVal(False))); break
            else: return e
            e = z3.simplify(e)
        return e
    def pin_locals(s, b, v, it):
        """replace inner iteration counters by what they equal on this path (e.g. the trip count of a finished inner loop)"""
        if not is_z(v): return v
        for x in subterms([v], lambda x: z3.is_const(x) and z3.is_int(x) and x.decl().name().startswith('it!') and s.is_local(x.decl().name(), it) and not x.eq(it)):
            nm = x.decl().name(); seen = set()
            for q in b.pc:
                if not is_z(q) or nm not in syms(q): continue
                for a in subterms([q], lambda y: (z3.is_le(y) or z3.is_ge(y) or z3.is_eq(y)) and z3.is_int(y.arg(0))):
                    c, d = lin(isub(a.arg(0), a.arg(1)))
                    if x.get_id() not in d or abs(d[x.get_id()][1]) != 1: continue
                    w = d[x.get_id()][1]
                    rest = unlin(c, {i: y for i, y in d.items() if i != x.get_id()}); rest = isub(0, rest) if w == 1 else rest
                    if is_z(rest) and any(s.is_local(y, it) for y in syms(rest)): continue
                    k = str(rest)
                    if k in seen: continue
                    seen.add(k)
                    if not s.feasible(b, x != iv(rest)):
                        v = z3.simplify(z3.substitute(v, (x, iv(rest)))); break
                else: continue
                break
        return v
    def close_asum(s, base, d, l, g, b, it, gsyms):
        f = s.getloc(b, d, l); idx = None; simple = True
        while f is not g[0]:
            if f.k == 'upd':
                if idx is None or f.a is g[0]: idx = f.b
            else: simple = False
            f = f.a
            if f is None: return None
        if s.dbg: print('asum', l, idx, simple, f.k)
        if idx is None or simple: return None
        c, dd = lin(idx); k = it.get_id()
        if k not in dd or abs(dd[k][1]) != 1: return None
        a = dd[k][1]; cidx = unlin(c, {i: x for i, x in dd.items() if i != k})
        if s.dbg: print('asum a c', a, cidx)
        s.n += 1; j = z3.Int('sk!as%d' % s.n)
        tj = isub(j, cidx); tj = isub(0, tj) if a < 0 else tj
        f = s.getloc(b, d, l)
        def at(*pc):
            st = b.copy()
            for q in pc: st.pc.append(q)
            try: return st, s.resolve_ites(st, s.aread(st, f, j, None))
            except ForkOn: return st, UNDEF
        _, X = at(iv(tj) == it)
        st2, E2 = at(iv(tj) < it, iv(tj) >= 0)
        if X is UNDEF or E2 is UNDEF or isinstance(X, Ptr) or isinstance(E2, Ptr): return None
        st3, E3 = at(Or(simp(iv(tj) > it), simp(iv(tj) < 0)))
        G = s.aread(base, g[0], j, None)
        if E3 is UNDEF or not s.same_val(st3, E3, G): return None
        if s.dbg: print('asum XDE', X, E2, E3)
        X = rv(X); X = conc(z3.substitute(X, (j, iv(idx))))
        D = z3.simplify(rv(E2) - rv(G), som=True)
        nm = j.decl().name()
        for e in (X, D):
            sy = syms(e) if is_z(e) else set()
            if sy & gsyms or nm in sy or any(s.is_local(x, it) and x != it.decl().name() for x in sy): return None
        return ('asum', s.getloc(base, d, l), it, a, cidx, X, z3.substitute(D, (it, s.L.J)))
    def eval_cand(s, st, cand, check=False):
        fn, env = cand
        try: v = s.merge_sub(st, fn, [env])
        except (Unsupported, PathEnd): return None
        v = s.tobool(v) if not is_b(v) else v
        if check: return s.L.prove(st.pc, v, st.foralls, 4000)[0] == 'proved'
        return v

def simp_delta(v, X):
    """v - X with X pulled out of if-then-else branches"""
    if z3.is_app_of(v, z3.Z3_OP_ITE):
        a = simp_delta(v.arg(1), X); b = simp_delta(v.arg(2), X)
        if X.decl().name() in syms(v.arg(0)): return v - X
        if is_z(a) and is_z(b) and a.eq(b): return a
        return z3.If(v.arg(0), rv(a), rv(b))
    if z3.is_add(v):
        dep = [c for c in v.children() if X.decl().name() in syms(c)]
        if len(dep) == 1 and z3.is_app_of(dep[0], z3.Z3_OP_ITE):
            return z3.simplify(rv(simp_delta(dep[0], X)) + z3.Sum([c for c in v.children() if not c.eq(dep[0])]), som=True)
    return z3.simplify(v - X, som=True)
def self_merge(s, vals, npc):
    v = vals[-1][1]
    try:
        for b, x in reversed(vals[:-1]):
            if same(x, v): continue
            c = And(*[bv(q) for q in b.pc[npc:]])
            v = s.ite(c, x, v)
    except ForkOn: return None
    return v
def same(a, b):
    if a is b: return True
    if isinstance(a, Ptr) and isinstance(b, Ptr): return a.o == b.o and same(a.off, b.off)
    if is_z(a) and is_z(b): return a.eq(b)
    if is_z(a) or is_z(b): return False
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Bits) and isinstance(b, Bits): return same(a.v, b.v)
    if isinstance(a, (int, Fraction, float)) and isinstance(b, (int, Fraction, float)): return type(a) == type(b) and (a == b or a != a and b != b)
    return False
def delta(x0, x1):
    """constant difference or None"""
    if isinstance(x0, Ptr) and isinstance(x1, Ptr):
        if x0.o != x1.o: return None
        c, d = lin(isub(x1.off, x0.off)); return c if not d else None
    if isinstance(x0, bool) or isinstance(x1, bool): return None
    def isint(x): return isinstance(x, int) or (is_z(x) and z3.is_int(x))
    if isint(x0) and isint(x1):
        c, d = lin(isub(x1, x0)); return c if not d else None
    return None
def conc_int(x):
    if isinstance(x, int): return x
    c, d = lin(x)
    return c if not d else x
def ilin_eq(a, b):
    c, d = lin(isub(a, b)); return c == 0 and not d
class Packed:
    """integer whose bytes are several independently stored values"""
    __slots__ = ('parts',)
    def __init__(s, parts): s.parts = parts
    def at(s, off, size):
        for q, z, v in s.parts:
            if q == off and z == size: return v
        return None
    def shr(s, nb):
        l = tuple((q - nb, z, v) for q, z, v in s.parts if q >= nb)
        return Packed(l)
