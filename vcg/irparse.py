"""LLVM-18 textual IR reader (opaque pointers).  Parses globals eagerly (cheaply) and function bodies on demand."""
import re, struct
from fractions import Fraction

TOK = re.compile(r'''\s+|;[^\n]*|(c"(?:[^"\\]|\\.)*")|([%@]"(?:[^"\\]|\\.)*"|[%@$][-\w.$]+)|("(?:[^"\\]|\\.)*")|(0x[0-9A-Fa-fKMLHR]+|-?\d+\.\d+(?:[eE][+-]?\d+)?|-?\d+)|(\.\.\.)|([A-Za-z_][\w.\-]*:?)|(![\w.]*|\#\d+)|([()\[\]{}<>,=*|:^])''')

def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m: raise SyntaxError('tok: ' + s[pos:pos+60])
        pos = m.end()
        if m.lastindex: out.append(m.group(m.lastindex))
    return out

class IRError(Exception): pass

PATTR = set('''noundef nonnull zeroext signext inreg noalias nocapture readonly writeonly readnone returned immarg nofree nest swiftself swifterror
 swiftasync noreturn writable dead_on_unwind captures allocptr allocalign inbounds nounwind dso_local local_unnamed_addr unnamed_addr hidden protected default
 internal private external linkonce_odr linkonce weak weak_odr available_externally common appending constant global thread_local
 fast nnan ninf nsz arcp contract afn reassoc fastcc coldcc ccc tail musttail notail volatile'''.split())
PATTR_P = {'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'preallocated', 'inalloca', 'elementtype', 'allocsize', 'memory', 'align', 'range', 'nofpclass', 'initializes'}

class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'm')
    def __init__(s, toks, m): s.t = toks; s.i = 0; s.m = m
    def peek(s): return s.t[s.i] if s.i < len(s.t) else None
    def next(s):
        v = s.t[s.i]; s.i += 1; return v
    def eat(s, x):
        if s.i < len(s.t) and s.t[s.i] == x: s.i += 1; return True
        return False
    def need(s, x):
        if not s.eat(x): raise IRError('expected %s got %s in %s' % (x, s.t[s.i:s.i+6], ' '.join(s.t)[:200]))
    def skipparen(s):
        s.need('('); d = 1
        while d:
            k = s.next()
            if k == '(': d += 1
            elif k == ')': d -= 1
    def attrs(s):
        a = {}
        while True:
            k = s.peek()
            if k in PATTR:
                s.i += 1
                if s.peek() == '(' and k in ('captures', 'thread_local'): s.skipparen()
                a[k] = True
            elif k in PATTR_P:
                s.i += 1
                if s.peek() == '(':
                    if k in ('sret', 'byval', 'byref', 'elementtype'):
                        s.need('('); a[k] = s.type(); s.need(')')
                    else: s.skipparen()
                else:
                    s.next()
            elif k and k[0] == '#': s.i += 1
            elif k and k[0] == '"' :
                s.i += 1
                if s.eat('='): s.next()
            else: return a
    def type(s):
        k = s.next()
        if k == 'ptr':
            t = ('ptr',)
            if s.peek() == 'addrspace': s.i += 1; s.skipparen()
        elif k == 'double': t = ('double',)
        elif k == 'float': t = ('float',)
        elif k == 'x86_fp80': t = ('x86_fp80',)
        elif k in ('half','bfloat','fp128'): t = (k,)
        elif k == 'void': t = ('void',)
        elif k in ('label', 'metadata', 'token', 'opaque'): t = (k,)
        elif k[0] == 'i' and k[1:].isdigit(): t = ('i', int(k[1:]))
        elif k[0] == '%': t = ('named', k[1:])
        elif k == '[':
            n = int(s.next()); s.need('x'); e = s.type(); s.need(']'); t = ('arr', n, e)
        elif k == '{':
            t = ('struct', s.types('}'), False)
        elif k == '<':
            if s.peek() == '{':
                s.next(); ts = s.types('}'); s.need('>'); t = ('struct', ts, True)
            else:
                n = int(s.next()); s.need('x'); e = s.type(); s.need('>'); t = ('vec', n, e)
        else: raise IRError('type? ' + k + ' in ' + ' '.join(s.t)[:300])
        while s.peek() == '(':   # function type
            s.next(); ps = []
            while not s.eat(')'):
                if s.eat('...'): ps.append('...')
                else:
                    ps.append(s.type()); s.attrs()
                s.eat(',')
            t = ('func', t, ps)
        return t
    def types(s, end):
        ts = []
        while not s.eat(end):
            ts.append(s.type()); s.eat(',')
        return tuple(ts)
    def value(s, ty):
        k = s.next()
        c = k[0]
        if c == '%': return ('r', k[1:])
        if c == '@': return ('g', unq(k[1:]))
        if ty[0] in ('double', 'float', 'x86_fp80') and (c == '0' and k[1:2] == 'x' or c.isdigit() or c == '-'):
            return ('c', parse_float(k, ty))
        if c.isdigit() or (c == '-' and k[1:].isdigit()): return ('c', norm(int(k), ty[1]) if ty[0] == 'i' else int(k))
        if k == 'true': return ('c', True)
        if k == 'false': return ('c', False)
        if k == 'null': return ('null',)
        if k in ('undef', 'poison'): return ('undef', ty)
        if k == 'zeroinitializer': return ('zero', ty)
        if k == 'none': return ('undef', ty)
        if c == 'c' and k[1:2] == '"': return ('str', cstr(k[2:-1]))
        if k == '{' or k == '[' or k == '<':
            if k == '<' and s.peek() == '{':
                s.next(); el = s.tvals('}'); s.need('>'); return ('agg', el)
            end = {'{': '}', '[': ']', '<': '>'}[k]
            return ('agg', s.tvals(end))
        if k == 'getelementptr':
            s.attrs(); s.eat('nuw'); s.eat('nusw')
            if s.peek() == 'inrange': s.next(); s.skipparen()
            s.need('('); bt = s.type(); s.need(',')
            pt = s.type(); base = s.value(pt); idx = []
            while s.eat(','):
                s.eat('inrange')
                it = s.type(); idx.append((it, s.value(it)))
            s.need(')')
            return ('cgep', bt, base, idx)
        if k in ('bitcast', 'inttoptr', 'ptrtoint', 'trunc', 'addrspacecast'):
            s.need('('); ft = s.type(); v = s.value(ft); s.need('to'); tt = s.type(); s.need(')')
            return ('ccast', k, ft, v, tt)
        if k in ('sub', 'add', 'xor', 'shl', 'and'):
            s.eat('nuw'); s.eat('nsw'); s.need('('); ft = s.type(); v = s.value(ft); s.need(','); ft2 = s.type(); w = s.value(ft2); s.need(')')
            return ('cbin', k, ft, v, w)
        if k == 'dso_local_equivalent' or k == 'no_cfi': return ('g', unq(s.next()[1:]))
        if k == 'blockaddress': s.skipparen(); return ('undef', ty)
        if k == 'asm':
            return ('asm',)
        if c == '!' : return ('meta',)
        raise IRError('value? ' + k + ' in ' + ' '.join(s.t)[:300])
    def tvals(s, end):
        el = []
        while not s.eat(end):
            t = s.type(); el.append((t, s.value(t))); s.eat(',')
        return el

def unq(x):
    if x[:1] == '"': return x[1:-1]
    return x
def norm(v, w):
    if w == 1: return bool(v & 1)
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v
def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out += s[i].encode('utf8'); i += 1
    return bytes(out)
def parse_float(k, ty):
    if k.startswith('0x'):
        h = k[2:]
        if h[0] == 'K':
            b = int(h[1:], 16); sg = -1 if b >> 79 else 1; ex = (b >> 64) & 0x7fff; mant = b & ((1 << 64) - 1)
            if ex == 0x7fff: return float('inf') * sg if mant << 1 & ((1 << 64) - 1) == 0 else float('nan')
            v = Fraction(mant, 1) * (Fraction(2) ** (ex - 16383 - 63))
            return sg * v
        if h[0] in 'MLHR':
            raise IRError('fp constant ' + k)
        return struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]
    return float(k)

class Ins:
    __slots__ = ('op', 'dst', 'ty', 'a', 'line')
    def __init__(s, op, dst, ty, a, line): s.op = op; s.dst = dst; s.ty = ty; s.a = a; s.line = line

class Func:
    def __init__(s, name, head, lines): s.name = name; s.head = head; s.lines = lines; s.parsed = False; s.params = None

class Module:
    def __init__(s, text):
        s.types = {}; s.globals = {}; s.funcs = {}; s.decls = {}; s._sz = {}; s.aliases = {}
        lines = text.split('\n'); i = 0; n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('%'):
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-\w.$]+) = type (.*)$', l)
                s.types[m.group(1)[1:]] = m.group(2)
            elif l.startswith('@'):
                m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', l)
                nm = unq(m.group(1))
                body = m.group(2)
                if re.search(r'\balias\b', body.split('@')[0]): s.aliases[nm] = unq(re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)', body).group(1))
                else: s.globals[nm] = body
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                nm = unq(m.group(1))
                s.funcs[nm] = Func(nm, l, lines[i+1:j])
                i = j
            elif l.startswith('declare'):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', l)
                s.decls[unq(m.group(1))] = l
            i += 1
    def rtype(s, t):
        while t[0] == 'named':
            d = s.types[t[1]]
            if isinstance(d, str):
                d = P(tokenize(d), s).type(); s.types[t[1]] = d
            t = d
        return t
    def sa(s, t):
        """(size, align)"""
        r = s._sz.get(t)
        if r: return r
        k = t[0]
        if k == 'named': r = s.sa(s.rtype(t))
        elif k == 'i':
            b = t[1]; z = 1 if b <= 8 else 2 if b <= 16 else 4 if b <= 32 else 8 if b <= 64 else 16 if b<=128 else (b+7)//8
            r = (z, min(z, 16))
        elif k == 'double' or k == 'ptr': r = (8, 8)
        elif k == 'float': r = (4, 4)
        elif k == 'x86_fp80': r = (16, 16)
        elif k == 'arr':
            z, a = s.sa(t[2]); r = (z * t[1], a)
        elif k == 'vec':
            z, a = s.sa(t[2]); r = (z * t[1], z * t[1])
        elif k == 'struct':
            o = 0; al = 1
            for e in t[1]:
                z, a = s.sa(e)
                if t[2]: a = 1
                o = (o + a - 1) // a * a + z; al = max(al, a)
            r = ((o + al - 1) // al * al, al)
        elif k == 'opaque': r = (0, 1)
        else: raise IRError('sizeof ' + str(t))
        s._sz[t] = r
        return r
    def size(s, t): return s.sa(t)[0]
    def field(s, t, i):
        t = s.rtype(t)
        if t[0] == 'struct':
            o = 0
            for j, e in enumerate(t[1]):
                z, a = s.sa(e)
                if t[2]: a = 1
                o = (o + a - 1) // a * a
                if j == i: return o, e
                o += z
        if t[0] in ('arr', 'vec'):
            return s.size(t[2]) * i, t[2]
        raise IRError('field of ' + str(t))
    def global_info(s, nm):
        """(type, init value or None, isconst)"""
        b = s.globals[nm]
        if isinstance(b, tuple): return b
        p = P(tokenize(b), s); a = {}
        while True:
            k = p.peek()
            if k in PATTR: 
                p.i += 1; a[k] = 1
                if k in ('constant', 'global'): break
                if k == 'thread_local' and p.peek() == '(': p.skipparen()
            else: p.i += 1
        t = p.type(); v = None
        if p.peek() not in (None, ','): v = p.value(t)
        r = (t, v, 'constant' in a); s.globals[nm] = r
        return r
    def func(s, nm):
        f = s.funcs[nm]
        if not f.parsed: s.parse_func(f)
        return f
    def parse_func(s, f):
        head = f.head
        p = P(tokenize(head[len('define'):]), s)
        while True:
            k = p.peek()
            if k in PATTR or k in PATTR_P or (k and k[0] in '#"'): p.attrs()
            else: break
        f.ret = p.type(); 
        p.next(); p.need('('); f.params = []; f.vararg = False; cnt = 0
        while not p.eat(')'):
            if p.eat('...'): f.vararg = True
            else:
                t = p.type(); a = p.attrs(); nm = None
                if p.peek() and p.peek()[0] == '%': nm = p.next()[1:]
                else:
                    nm = str(cnt)
                if nm.isdigit(): cnt = int(nm) + 1
                f.params.append((t, nm, a))
            p.eat(',')
        blocks = {}; cur = None; f.entry = None
        lines = f.lines; i = 0
        if lines and not re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', lines[0]):
            cur = []; f.entry = str(cnt); blocks[f.entry] = cur
        while i < len(lines):
            l = lines[i]; i += 1
            if not l.strip(): continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-\w.$]+):', l)
            if m and not l.startswith(' '):
                nm = m.group(1)
                cur = []; blocks[nm] = cur
                if f.entry is None: f.entry = nm
                continue
            st = l.strip()
            # multi-line: switch [...] and invoke .. to .. unwind, landingpad clauses
            if re.search(r'(^|= )switch ', st) and st.endswith('['):
                while not lines[i].strip().startswith(']'): st += ' ' + lines[i].strip(); i += 1
                st += ' ]'; i += 1
            elif ' invoke ' in ' ' + st and i < len(lines) and lines[i].strip().startswith('to label'):
                st += ' ' + lines[i].strip(); i += 1
            elif 'landingpad' in st.split('=')[-1][:12]:
                while i < len(lines) and re.match(r'^\s+(cleanup|catch|filter)', lines[i]): st += ' ' + lines[i].strip(); i += 1
            cur.append(s.parse_ins(st))
        f.blocks = blocks; f.parsed = True; f.lines = None
        # loop structure
        s.loops(f)
    def succs(s, blk):
        I = blk[-1]
        if I.op == 'br': return list(I.a[1:]) if I.a[0] is not None else [I.a[1]]
        if I.op == 'switch': return [I.a[1]] + [x[1] for x in I.a[2]]
        if I.op == 'invoke': return [I.a['normal'], I.a['unwind']]
        return []
    def loops(s, f):
        """natural loops: header -> set of blocks"""
        succ = {b: s.succs(ins) for b, ins in f.blocks.items()}
        pred = {b: [] for b in f.blocks}
        order = []; seen = set()
        st = [(f.entry, iter(succ[f.entry]))]; seen.add(f.entry); onst = {f.entry}; back = []
        while st:
            b, it = st[-1]
            for x in it:
                pred[x].append(b)
                if x in onst: back.append((b, x))
                if x not in seen:
                    seen.add(x); onst.add(x); st.append((x, iter(succ[x]))); break
            else:
                st.pop(); onst.discard(b); order.append(b)
        pred = {b: [] for b in f.blocks}
        for b in f.blocks:
            for x in succ[b]: pred[x].append(b)
        f.loops = {}
        for (b, h) in back:
            body = f.loops.setdefault(h, {h}); stk = [b]
            while stk:
                x = stk.pop()
                if x in body: continue
                body.add(x); stk.extend(pred[x])
    def parse_ins(s, l):
        l0 = l
        # strip metadata suffix
        k = l.find(', !')
        if k >= 0 and '"' not in l[k:]: l = l[:k]
        p = P(tokenize(l), s); dst = None
        if len(p.t) > 1 and p.t[1] == '=': dst = p.t[0][1:]; p.i = 2
        op = p.next()
        while op in ('tail', 'musttail', 'notail'): op = p.next()
        A = None; ty = None
        if op == 'ret':
            ty = p.type(); A = None if ty == ('void',) else p.value(ty)
        elif op == 'br':
            t = p.type()
            if t == ('label',): A = (None, p.next()[1:])
            else:
                c = p.value(t); p.need(','); p.type(); a = p.next()[1:]; p.need(','); p.type(); b = p.next()[1:]; A = (c, a, b)
        elif op == 'switch':
            t = p.type(); v = p.value(t); p.need(','); p.type(); d = p.next()[1:]; p.need('['); cs = []
            while not p.eat(']'):
                ct = p.type(); cv = p.value(ct); p.need(','); p.type(); cs.append((cv[1], p.next()[1:]))
            ty = t; A = (v, d, cs)
        elif op == 'unreachable': A = None
        elif op == 'alloca':
            ty = p.type(); n = None
            if p.eat(','):
                if p.peek() != 'align':
                    nt = p.type(); n = (nt, p.value(nt))
            A = n
        elif op == 'load':
            p.eat('atomic'); p.eat('volatile'); ty = p.type(); p.need(','); pt = p.type(); A = p.value(pt)
        elif op == 'store':
            p.eat('atomic'); p.eat('volatile'); ty = p.type(); v = p.value(ty); p.need(','); pt = p.type(); A = (v, p.value(pt))
        elif op == 'getelementptr':
            p.attrs(); p.eat('nuw'); p.eat('nusw'); p.eat('inbounds'); ty = p.type(); p.need(','); pt = p.type(); b = p.value(pt); idx = []
            while p.eat(','):
                it = p.type(); idx.append((it, p.value(it)))
            A = (b, idx)
        elif op in ('call', 'invoke'):
            p.attrs(); rt = p.type()
            if rt[0] == 'func': rt = rt[1]
            p.attrs(); k = p.peek()
            if k == 'asm':
                callee = ('asm', ' '.join(p.t[p.i:]))
                while p.peek() != '(' : p.next()
            else: callee = p.value(('ptr',))
            p.need('('); args = []
            while not p.eat(')'):
                at = p.type(); aa = p.attrs()
                if at == ('metadata',):
                    while p.peek() not in (',', ')'): p.next()
                    args.append((at, ('meta',), aa))
                else: args.append((at, p.value(at), aa))
                p.eat(',')
            A = {'fn': callee, 'args': args}
            if op == 'invoke':
                p.attrs()
                while p.peek() != 'to': p.next()
                p.next(); p.type(); A['normal'] = p.next()[1:]
                p.need('unwind'); p.type(); A['unwind'] = p.next()[1:]
            ty = rt
        elif op == 'phi':
            p.attrs(); ty = p.type(); A = []
            while p.eat('['):
                v = p.value(ty); p.need(','); b = p.next()[1:]; p.need(']'); A.append((v, b)); p.eat(',')
        elif op == 'select':
            p.attrs(); ct = p.type(); c = p.value(ct); p.need(','); ty = p.type(); a = p.value(ty); p.need(','); p.type(); b = p.value(ty); A = (c, a, b)
        elif op in ('icmp', 'fcmp'):
            p.attrs(); pr = p.next(); ty = p.type(); a = p.value(ty); p.need(','); A = (pr, a, p.value(ty))
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = set()
            while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint') or p.peek() in PATTR: fl.add(p.next())
            ty = p.type(); a = p.value(ty); p.need(','); A = (a, p.value(ty), fl)
        elif op == 'fneg':
            p.attrs(); ty = p.type(); A = p.value(ty)
        elif op == 'freeze':
            ty = p.type(); A = p.value(ty)
        elif op in ('zext', 'sext', 'trunc', 'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fpext', 'fptrunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            while p.peek() in ('nneg', 'nuw', 'nsw'): p.next()
            ft = p.type(); v = p.value(ft); p.need('to'); ty = p.type(); A = (ft, v)
        elif op == 'extractvalue':
            t = p.type(); v = p.value(t); idx = []
            while p.eat(','): idx.append(int(p.next()))
            ty = t; A = (v, idx)
        elif op == 'insertvalue':
            t = p.type(); v = p.value(t); p.need(','); et = p.type(); e = p.value(et); idx = []
            while p.eat(','): idx.append(int(p.next()))
            ty = t; A = (v, et, e, idx)
        elif op == 'extractelement':
            t = p.type(); v = p.value(t); p.need(','); it = p.type(); ty = t; A = (v, p.value(it))
        elif op == 'insertelement':
            t = p.type(); v = p.value(t); p.need(','); et = p.type(); e = p.value(et); p.need(','); it = p.type(); ty = t; A = (v, e, p.value(it))
        elif op == 'landingpad':
            ty = p.type(); cl = []; cleanup = False
            while p.peek():
                k = p.next()
                if k == 'cleanup': cleanup = True
                elif k in ('catch', 'filter'):
                    t = p.type(); cl.append((k, p.value(t)))
                else: break
            A = (cleanup, cl)
        elif op == 'resume':
            ty = p.type(); A = p.value(ty)
        elif op == 'atomicrmw':
            p.eat('volatile'); o = p.next(); pt = p.type(); ptr = p.value(pt); p.need(','); ty = p.type(); A = (o, ptr, p.value(ty))
        elif op == 'fence': A = None
        else: raise IRError('ins? ' + l0)
        return Ins(op, dst, ty, A, l0)
