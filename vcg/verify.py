"""Run the contracts of one contract file: compile with the real code to LLVM IR, generate and discharge obligations."""
import sys, os, re, subprocess, time, json, hashlib, traceback, multiprocessing as mp, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CLANG = '/usr/bin/clang++-18'; OPT = '/usr/bin/opt-18'
CFLAGS = ['-std=c++20', '-O0', '-Xclang', '-disable-O0-optnone', '-ffp-contract=off', '-fno-access-control', '-fno-discard-value-names', '-w', '-DVC_SYMBOLIC', '-I' + REPO + '/src', '-I' + REPO + '/src/cooling', '-I' + HERE, '-I' + VERIF + '/contracts']

def applies(w, name): return w is None or re.fullmatch(w, name) is not None
def directives(path):
    d = {'redirect': [], 'noop': [], 'opt': [], 'trusted': []}
    for l in open(path):
        m = re.match(r'\s*//@(\w+)(?:\[([^\]]+)\])?\s+(.*?)\s*$', l)
        if m: d.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
        m = re.match(r'\s*#include "(_[\w.]+)"', l)
        if m:
            for k, v in directives(os.path.join(os.path.dirname(path), m.group(1))).items(): d.setdefault(k, []).extend(v)
    return d
def contracts(path):
    out = []; names = {}; shared = set()
    cur = None
    for l in open(path):
        m = re.match(r'extern "C" void (contract_\w+)\(\)', l)
        if m: cur = m.group(1); out.append(cur); names[cur] = set()
        elif l.startswith('}'): cur = None
        for q in re.findall(r'vc_ensure(?:_eq|_le|_all)?\(\s*"([^"]+)"', l):
            (names[cur] if cur else shared).add(q)
        if cur and l.rstrip().endswith('}') and l.startswith('extern'): cur = None
    return out, names, shared
def compile_ir(path, work):
    os.makedirs(work, exist_ok=True)
    b = os.path.join(work, os.path.basename(path)[:-4])
    r = subprocess.run([CLANG] + CFLAGS + ['-S', '-emit-llvm', path, '-o', b + '.0.ll'], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('extraction failed (clang):\n' + r.stderr[-3000:])
    r = subprocess.run([OPT, '-S', '-passes=function(sroa,simplifycfg)', b + '.0.ll', '-o', b + '.ll'], capture_output=True, text=True)
    if r.returncode: raise RuntimeError('extraction failed (opt):\n' + r.stderr[-3000:])
    os.unlink(b + '.0.ll')
    return b + '.ll'
def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split('\n')))

def own(d):
    # functions of the code under verification, without template arguments
    t = re.sub(r'operator(<<|<=>|<=|>=|<|>|->)', 'operator', d)
    while True:
        u = re.sub(r'<[^<>]*>', '', t)
        if u == t: break
        t = u
    h = t.split('(')[0].strip().split(' ')[-1]
    return t if h.startswith('slide::') and 'lambda' not in t else None
def run_contract(ll, path, name, tier, verbose=False, budget=None, extra_opts=None):
    import irparse, engine, smt
    t0 = time.time()
    d = directives(path)
    m = irparse.Module(open(ll).read())
    dem = demangle(list(m.funcs) + list(m.decls) + list(m.globals))
    opts = {'verbose': verbose}
    mode = 'real'
    for w, t in d['opt']:
        if applies(w, name):
            for kv in t.split():
                k, v = kv.split('=')
                if k == 'mode': mode = v
                elif k == 'bound': opts['bound'] = {a.split(':')[0]: int(a.split(':')[1]) for a in v.split(',')}
                else: opts[k] = int(v)
    if extra_opts: opts.update(extra_opts)
    if budget: opts['deadline'] = t0 + budget
    cutset = set(); res = None
    tot = {}
    for attempt in range(40):
        smt._lin.clear(); smt._sy.clear(); smt._ua.clear()
        E = engine.Engine(m, mode, dem, opts); E.cutset = cutset
        for w, t in d['redirect']:
            if applies(w, name):
                a, b = t.split(' => '); E.redirects.append((re.compile(a.strip()), b.strip()))
        for w, t in d['noop']:
            if applies(w, name): E.noops.append(re.compile(t.strip()))
        st = engine.State()
        f = m.func(name)
        err = None
        try:
            runinit = [v for w, v in d.get('init', []) if applies(w, name)]
            if runinit and '@' + 'llvm.global_ctors' or runinit:
                for g in m.funcs:
                    if g.startswith('__cxx_global_var_init'):
                        n2 = st.copy(); n2.frames = [engine.Frame(m.func(g))]
                        try:
                            q = E.quiet; E.quiet = 1; E.pathcheck = False
                            b, e = E.explore(n2, None)
                            st2 = getattr(E, 'last', None)
                        finally: E.quiet = q
            st.frames = [engine.Frame(f)]
            E.explore(st, None)
        except engine.NeedCut as e:
            if e.key in cutset: err = 'cut loop: ' + str(e.key)
            else:
                cutset = cutset | {e.key}
                for k, v in E.L.stats.time.items(): tot[k] = tot.get(k, 0) + v
                continue
        except (engine.Unsupported, engine.EngineError, irparse.IRError) as e:
            err = '%s: %s' % (type(e).__name__, e)
            if verbose: traceback.print_exc()
        except Exception as e:
            err = 'internal: %s: %s' % (type(e).__name__, e)
            if verbose: traceback.print_exc()
            err += ' @ ' + traceback.format_exc().strip().split('\n')[-3].strip()
        break
    else: err = 'too many loop cuts'
    for k, v in E.L.stats.time.items(): tot[k] = tot.get(k, 0) + v
    src = {}
    res = {'contract': name, 'mode': mode, 'error': err, 'paths': E.paths, 'steps': E.steps, 'covers': E.covers, 'complete_sat': E.complete_sat, 'complete_unknown': E.complete_unknown,
           'obligations': {k: {'vcs': r.vcs, 'proved': r.proved, 'failed': r.failed, 'unknown': r.unknown, 'backends': r.backends} for k, r in E.obls.items()},
           'functions': sorted(set(own(dem.get(x, x)) for x in E.executed) - {None}), 'functions_total': len(E.executed), 'callee_contracts': sorted(E.contracts_used),
           'noops': sorted(E.skipped), 'trusted': sorted(E.trusted), 'solver_time': {k: round(v, 3) for k, v in tot.items()}, 'queries': E.L.stats.queries, 'wall': round(time.time() - t0, 2), 'loops': getattr(E, 'loopnotes', {}), 'bounded': opts.get('bound')}
    return res

def blank(args, err):
    return {'contract': args[2], 'error': err, 'obligations': {}, 'paths': 0, 'covers': {}, 'complete_sat': 0, 'functions': [], 'callee_contracts': [], 'noops': [], 'trusted': [], 'solver_time': {}, 'queries': 0, 'wall': 0, 'steps': 0, 'functions_total': 0, 'mode': '', 'loops': {}, 'bounded': None}
def _worker(args):
    ll, path, name, tier, verbose, budget, xo = args
    try: return run_contract(ll, path, name, tier, verbose, budget, xo)
    except Exception as e: return blank(args, 'internal: ' + repr(e) + traceback.format_exc()[-800:])

def run_file(path, work, tier='quick', only=None, verbose=False, jobs=8, budget=400):
    ll = compile_ir(path, work)
    cs, names, shared = contracts(path)
    if only: cs = [c for c in cs if re.search(only, c)]
    tasks = [(ll, path, c, tier, verbose, budget, None) for c in cs]
    if jobs == 1 or len(tasks) == 1: rs = [_worker(t) for t in tasks]
    else:
        with mp.get_context('fork').Pool(min(jobs, len(tasks)), maxtasksperchild=1) as p: rs = p.map(_worker, tasks, chunksize=1)
    for r in rs:
        miss = sorted(n for n in names[r['contract']] if n not in r['obligations'])
        r['missing'] = miss
    if not only:
        m = shared - set(n for r in rs for n in r['obligations'])
        if m: rs[0]['missing'] += sorted(m)
    return rs

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument('file'); ap.add_argument('--only'); ap.add_argument('-v', action='store_true'); ap.add_argument('-j', type=int, default=8); ap.add_argument('--budget', type=int, default=600)
    a = ap.parse_args()
    t = time.time()
    rs = run_file(os.path.abspath(a.file), '/tmp/vcg_work', only=a.only, verbose=a.v, jobs=a.j, budget=a.budget)
    for r in rs:
        print('==', r['contract'], 'ERR ' + r['error'] if r['error'] else 'ok', 'paths', r['paths'], 'sat', r['complete_sat'], 'steps', r['steps'], 'wall', r['wall'], 'q', r['queries'], r['solver_time'], 'missing' if r['missing'] else '', r['missing'] or '')
        for k, o in sorted(r['obligations'].items()):
            if o['failed'] or o['unknown'] or a.v: print('    %-50s vcs %d proved %d failed %d unknown %d %s' % (k, o['vcs'], o['proved'], len(o['failed']), len(o['unknown']), o['backends']))
            for f in (o['failed'] + o['unknown'])[:2]: print('        ', f['status'], f['desc'], f['where'][:200], '\n          goal', f['goal'][:300].replace('\n', ' '), '\n          in', str(f['inputs'])[:300])
        if r['covers']: print('    covers', r['covers'])
        for k, v in r['loops'].items(): print('    loop', k[:100], v)
    print('total', round(time.time() - t, 1))
