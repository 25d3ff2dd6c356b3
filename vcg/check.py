"""Per-property driver.  check.py ID [--tier quick|thorough]
exit 0: every obligation generated from /repo's current source is discharged (or is a listed known finding)
exit 1: VIOLATION property=ID replay=PATH [no-failing-input-found]"""
import sys, os, re, json, time, glob, subprocess, shutil, tempfile, argparse, multiprocessing as mp, multiprocessing.connection
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import verify
REPO = verify.REPO
NJ = int(os.environ.get('VERIF_JOBS', '8'))
NATIVE = ['g++', '-fsanitize=address', '-std=c++20', '-O1', '-g0', '-fno-access-control', '-w', '-rdynamic', '-ffp-contract=off', '-I' + REPO + '/src', '-I' + REPO + '/src/cooling', '-I' + HERE, '-I' + VERIF + '/contracts']

def known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'known: property=(\S+) contract=(\S+) obligation=(\S+) (.*)', l)
            if m: out.append(m.groups())
    return out

def _compile(a):
    path, work = a
    try: return path, verify.compile_ir(path, work), None
    except Exception as e: return path, None, str(e)
def _native(a):
    path, work = a
    out = os.path.join(work, os.path.basename(path)[:-4] + '.native')
    r = subprocess.run(NATIVE + [path, os.path.join(HERE, 'vc_native.cpp'), '-o', out, '-ldl', '-lpthread'], capture_output=True, text=True)
    return path, (out if r.returncode == 0 else None), r.stderr[-2000:]
class _Err(Exception): pass
def _child(fn, x, w):
    os.setpgid(0, 0)
    try: w.send((True, fn(x)))
    except BaseException as e: w.send((False, repr(e)))
    w.close(); os._exit(0)
def parallel(fn, xs, nj=NJ):
    """run fn on every item, each in a process of its own; yields (index, result); closing the generator ends what still runs"""
    ctx = mp.get_context('fork'); todo = list(enumerate(xs)); live = {}
    try:
        while todo or live:
            while todo and len(live) < nj:
                i, x = todo.pop(0); r, w = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(fn, x, w)); p.start(); w.close(); live[r] = (i, p)
            for r in mp.connection.wait(list(live)):
                i, p = live.pop(r)
                try: ok, v = r.recv()
                except EOFError: ok, v = False, 'worker process ended'
                r.close(); p.join(10)
                if not ok: v = _Err(v)
                yield i, v
    finally:
        for r, (i, p) in live.items():
            for kill in (os.killpg, os.kill):
                try: kill(p.pid, 9)
                except OSError: pass
        for r, (i, p) in live.items(): p.join(10); r.close()
def pmap(fn, xs):
    out = [None] * len(xs)
    for i, v in parallel(fn, xs): out[i] = v
    return out
def runnat(exe, args, to, only=None):
    d = tempfile.mkdtemp(prefix='vcnat', dir=os.path.dirname(exe))     # scratch cwd: nothing the code writes stays
    try: r = subprocess.run([exe] + args, capture_output=True, text=True, timeout=to, cwd=d, env=dict(os.environ, **({'VC_ONLY': '|' + '|'.join(sorted(only)) + '|'} if only else {})))
    except subprocess.TimeoutExpired: return None, 'timeout'
    finally: shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout + (('\nsanitizer:' + r.stderr[-1500:]) if r.returncode == 1 and r.stderr else '')

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid = a.id; tier = a.tier; seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vcg_%s_' % pid, dir='/tmp')
    try: rc = check(pid, tier, seed, work, t0, a.v)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def check(pid, tier, seed, work, t0, verbose):
    files = sorted(glob.glob(os.path.join(VERIF, 'contracts', pid + '_*.cpp')))
    if not files: print('no contracts for', pid); return 2
    limit = 780 if tier == 'quick' else 3000
    problems = []      # (kind, contract, obligation, info, file)
    comp = pmap(_compile, [(f, work) for f in files])
    for c in comp:
        if isinstance(c, _Err): raise c
    tasks = []; names = {}; fileof = {}; shared = {}
    for f, ll, err in comp:
        cs, nm, sh = verify.contracts(f); shared[f] = sh
        if ll is None:
            problems.append(('extraction', cs[0] if cs else '?', 'extraction', {'desc': 'the contract no longer compiles against the code', 'goal': err, 'where': f, 'inputs': {}, 'status': 'error'}, f)); continue
        for c in cs:
            if c in fileof: raise SystemExit('duplicate contract ' + c)
            names[c] = nm[c]; fileof[c] = f; tasks.append((ll, f, c, tier, verbose, limit * 0.55, {'timeout': 5000 if tier == 'quick' else 20000}))
    # slow contracts first
    slow = {}
    try: slow = json.load(open(os.path.join(VERIF, 'contracts', 'costs.json')))
    except Exception: pass
    tasks.sort(key=lambda t: -slow.get(t[2], 5))
    # ---- native confirmation of what the verifier does not accept
    kf = known()
    islisted = lambda c, o, kind: any(k[0] == pid and k[1] == c and k[2] == o for k in kf) and kind in ('failed', 'unknown')
    exes = {}; confs = {}
    def exe_of(f):
        if f not in exes: exes[f] = _native((f, work))[1:]
        return exes[f][0]
    def confirm(c, f, qs):
        """qs: [(kind, obligation, info)]"""
        key = (c, tuple((k, o) for k, o, _ in qs))
        if key in confs: return confs[key]
        exe = exe_of(f); conf = None
        if exe:
            only = set(o for _, o, _ in qs) if all(k in ('failed', 'unknown') for k, _, _ in qs) else None
            if only and only & {'memory-safety', 'no-abort', 'division', 'overflow'}: only |= {'memory-safety', 'no-abort'}
            for k, (_, o, x) in enumerate(qs[:6]):
                if not x.get('inputs'): continue
                mf = os.path.join(work, 'model_%s_%d.txt' % (c, k))
                open(mf, 'w').write(''.join('%s=%s\n' % (n, v) for n, v in x['inputs'].items()))
                rc, out = runnat(exe, [c, 'model', mf], 60, only)
                if rc == 1: conf = {'how': 'verifier counterexample replayed natively', 'obligation': o, 'inputs': x['inputs'], 'output': out}; break
            if not conf:
                for first in range(1, 4):
                    rc, out = runnat(exe, [c, 'search', str(first * 1000003 + seed), '200000', '8'], 60, only)
                    if rc == 1: conf = {'how': 'input found natively by searching the contract\'s preconditions', 'output': out}; break
        confs[key] = conf
        return conf
    def bad_of(r):
        q = [('failed', n, x) for n, o in r['obligations'].items() for x in o['failed']] + [('unknown', n, x) for n, o in r['obligations'].items() for x in o['unknown']]
        q = [x for x in q if not islisted(r['contract'], x[1], x[0])]
        if r['error']: q.append(('error', 'verification-condition-generation', {'desc': r['error'], 'goal': '', 'where': '', 'inputs': {}, 'status': 'error'}))
        return q
    def sweep(ts):
        """verify; as soon as a contract fails and the failure is confirmed on the real code the rest is not awaited"""
        out = []
        run = parallel(verify._worker, ts)
        for i, r in run:
            if isinstance(r, _Err): r = verify.blank(ts[i], 'internal: %s' % r)
            out.append(r)
            q = bad_of(r)
            if q and confirm(r['contract'], fileof[r['contract']], q): run.close(); return out, True
        return out, False
    rs = []; done = False
    if tasks: rs, done = sweep([t[:6] + (dict(t[6], grace=40),) for t in tasks])
    # obligations left undecided (solver time-outs, e.g. on a loaded machine): once more with longer time-outs
    again = [r['contract'] for r in rs if (r['error'] and 'time budget' in r['error']) or any(o['unknown'] for o in r['obligations'].values())]
    if not done and again and time.time() - t0 < limit * 0.6:
        ts = [t[:5] + (max(60, limit - 100 - (time.time() - t0)), {'timeout': t[6]['timeout'] * 4, 'grace': 100}) for t in tasks if t[2] in again]
        r2, done = sweep(ts)
        r2 = {r['contract']: r for r in r2}
        rs = [r2.get(r['contract'], r) for r in rs]
    order = [t[2] for t in tasks]
    rs.sort(key=lambda r: order.index(r['contract']))
    bounded = []
    for r in rs:
        c = r['contract']; f = fileof[c]
        r['missing'] = sorted(n for n in names[c] if n not in r['obligations'])
        if r['error']: problems.append(('error', c, 'verification-condition-generation', {'desc': r['error'], 'goal': '', 'where': '', 'inputs': {}, 'status': 'error'}, f))
        for n, o in r['obligations'].items():
            for x in o['failed']: problems.append(('failed', c, n, x, f))
            for x in o['unknown']: problems.append(('unknown', c, n, x, f))
        if not r['error'] and not done:
            bad = [n for n, s in r['covers'].items() if s != 'sat']
            failedhere = any(o['failed'] or o['unknown'] for o in r['obligations'].values())
            if not failedhere:
                if r['missing']: problems.append(('vacuous', c, r['missing'][0], {'desc': 'ensures clause never reached: ' + ', '.join(r['missing']), 'goal': '', 'where': '', 'inputs': {}, 'status': 'vacuous'}, f))
                elif bad: problems.append(('vacuous', c, bad[0], {'desc': 'cover unreachable: ' + ', '.join(bad), 'goal': '', 'where': '', 'inputs': {}, 'status': 'vacuous'}, f))
                elif not r['complete_sat'] and not r.get('complete_unknown'): problems.append(('vacuous', c, 'precondition', {'desc': 'no complete feasible path', 'goal': '', 'where': '', 'inputs': {}, 'status': 'vacuous'}, f))
    for f in shared if not done else []:
        mine = [r for r in rs if fileof[r['contract']] == f]
        m = shared[f] - set(n for r in mine for n in r['obligations'])
        if m and mine and not any(q[4] == f for q in problems):
            problems.append(('vacuous', mine[0]['contract'], sorted(m)[0], {'desc': 'ensures clause reached by no contract: ' + ', '.join(sorted(m)), 'goal': '', 'where': '', 'inputs': {}, 'status': 'vacuous'}, f))
    # ---- known findings
    listed = {}; rest = []
    for q in problems:
        hit = [k for k in kf if k[0] == pid and k[1] == q[1] and k[2] == q[2] and q[0] in ('failed', 'unknown')]
        if hit: listed[hit[0]] = q
        else: rest.append(q)
    for k in listed: print('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
    # ---- replay / fall back
    violation = None; replay = None
    natres = {}
    bcontracts = {}
    if rest or tier == 'thorough':
        bycon = {}
        for q in rest: bycon.setdefault(q[1], []).append(q)
        for c in sorted(bycon, key=lambda c: not any(k[0] == c and v for k, v in confs.items())):
            qs = bycon[c]
            r = [x for x in rs if x['contract'] == c]
            conf = confirm(c, qs[0][4], bad_of(r[0]) if r and bad_of(r[0]) else [(q[0], q[2], q[3]) for q in qs])
            if conf: violation = (c, qs[0], conf); break
        if not violation and rest:
            # proof not accepted, no failing input: bounded stand-in where the contract has an unbounded size and precision was lost
            left = []
            btasks = {}
            for c, qs in bycon.items():
                r = [x for x in rs if x['contract'] == c]
                lossy = r and (r[0]['error'] or any('havoc' in d.values() for d in r[0]['loops'].values()) or all(q[0] == 'unknown' for q in qs))
                if lossy and 'vc_size(' in alltext(qs[0][4]) and all(q[0] != 'vacuous' for q in qs): btasks[c] = qs
                else: left += qs
            if btasks:
                ts = [([x for x in tasks if x[2] == c][0], n) for c in btasks for n in (0, 1, 2, 3, 4)]
                bt = [(t[0], t[1], t[2], t[3], t[4], max(60, (limit - (time.time() - t0)) * 0.7), dict(t[6], bound={'*': n})) for t, n in ts]
                br = [verify.blank(t, 'internal: %s' % r) if isinstance(r, _Err) else r for t, r in zip(bt, pmap(verify._worker, bt))]
                for c in btasks:
                    mine = [(x, n) for x, (t, n) in zip(br, ts) if t[2] == c]
                    bad = [(x, n) for x, n in mine if x['error'] or any(o['failed'] or o['unknown'] for o in x['obligations'].values())]
                    if bad or not any(x['complete_sat'] for x, n in mine): left += btasks[c]
                    else: bcontracts[c] = {'sizes': [n for _, n in mine], 'reason': btasks[c][0][3]['desc'] or btasks[c][0][2], 'vcs': sum(o['vcs'] for x, n in mine for o in x['obligations'].values())}
            if left: violation = (left[0][1], left[0], None)
        if tier == 'thorough' and not violation:
            for f in files:
                exe = exe_of(f)
                if not exe: natres[os.path.basename(f)] = 'native build failed: ' + exes[f][1][-300:]; continue
                for c in [x for x in names if fileof[x] == f]:
                    rc, out = runnat(exe, [c, 'search', str(seed), '1000000', '4'], 60)
                    natres[c] = out.strip()[:300]
    rep = os.path.join(VERIF, 'evidence', 'replay_%s.json' % pid)
    os.makedirs(os.path.dirname(rep), exist_ok=True)
    if os.path.exists(rep): os.unlink(rep)
    rc = 0
    if violation:
        c, q, conf = violation
        json.dump({'property': pid, 'contract': c, 'contract_file': os.path.relpath(q[4], VERIF), 'failed_obligation': q[2], 'kind': q[0], 'verifier': q[3],
                   'all_failed': [(x[1], x[2], x[0], x[3]['desc'][:300]) for x in rest][:40], 'native_confirmation': conf,
                   'reproduce': 'VERIF_REPO=%s python3-vt %s/vcg/check.py %s' % (REPO, VERIF, pid)}, open(rep, 'w'), indent=1, default=str)
        print('failed obligation: %s / %s (%s) %s' % (c, q[2], q[0], q[3]['desc'][:300]))
        if q[3].get('where'): print('  at', q[3]['where'][:400])
        if conf: print('  confirmed on the real code:', conf['how'], '\n   ', conf['output'][:400].replace('\n', '\n    '))
        print('VIOLATION property=%s replay=%s%s' % (pid, rep, '' if conf else ' no-failing-input-found'))
        rc = 1
    evidence(pid, tier, seed, t0, rs, bcontracts, listed, rest, violation, natres, files, comp)
    nob = sum(len(r['obligations']) for r in rs)
    print('%s %s: %d contracts, %d obligations (%d VCs), %s, wall %.1fs' % (pid, tier, len(rs), nob, sum(o['vcs'] for r in rs for o in r['obligations'].values()), 'violated' if rc else 'all discharged' + (' (bounded stand-in for %s)' % ', '.join(bcontracts) if bcontracts else ''), time.time() - t0))
    return rc
def alltext(f):
    t = open(f).read()
    for i in re.findall(r'#include "(_[\w.]+)"', t): t += open(os.path.join(os.path.dirname(f), i)).read()
    return t

ASSUME = {
    'real': 'machine floating point is treated as exact real arithmetic (round-off, overflow and NaN propagation are outside the statement)',
    'fp': 'IEEE-754 double semantics, round to nearest even (bit-precise)',
}
def evidence(pid, tier, seed, t0, rs, bcontracts, listed, rest, violation, natres, files, comp):
    vc = 0; done = 0; be = {}; times = {}; fns = set(); callee = set(); noops = set(); trusted = set(); named = []
    bsent = 0
    for r in rs:
        b = r['contract'] in bcontracts
        for n, o in sorted(r['obligations'].items()):
            if b: continue
            vc += o['vcs']; done += o['proved']
            for k, v in o['backends'].items(): be[k] = be.get(k, 0) + v
            named.append({'contract': r['contract'], 'obligation': n, 'vcs': o['vcs'], 'proved': o['proved'], 'backends': o['backends']})
        for k, v in r['solver_time'].items(): times[k] = round(times.get(k, 0) + v, 2)
        fns |= set(r['functions']); callee |= set(r['callee_contracts']); noops |= set(r['noops']); trusted |= set(r['trusted'])
    modes = sorted(set(r['mode'] for r in rs if r['mode']))
    assumptions = [ASSUME[m] for m in modes]
    d = [verify.directives(f) for f in files]
    notes = [t for x in d for _, t in x.get('trusted', [])]
    assumptions += ['assumed: ' + t for t in notes]
    assumptions += ['clang 18 -O0 front end and the sroa/simplifycfg passes preserve the meaning of the code; machine integers that index containers do not overflow unless flagged',
                    'console and file output, string formatting and stream objects are skipped (no effect on the verified state)']
    if callee: assumptions.append('callee contracts used in place of bodies: ' + ', '.join(sorted(callee)))
    if trusted: assumptions += sorted(trusted)
    ev = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'proof', 'wall_s': round(time.time() - t0, 1),
        'violations': 1 if violation else 0, 'assumptions': assumptions,
        'coverage': {
            'obligations': vc, 'discharged': done, 'checker_cmd': 'python3-vt vcg/check.py %s --tier %s' % (pid, tier),
            'trusted_base': ['clang/opt 18.1.3', 'VC generator /verif/vcg', 'z3', 'cvc5'] + sorted(noops)[:60],
            'named_obligations': named, 'back_ends': be, 'solver_time_s': times,
            'functions_under_contract': sorted(fns), 'contracts': [{'name': r['contract'], 'mode': r['mode'], 'paths': r['paths'], 'covers': r['covers'], 'wall_s': r['wall'], 'loop_invariants': {k[:160]: {str(a)[:80]: b for a, b in v.items()} for k, v in r['loops'].items()}} for r in rs],
            'bounded_stand_ins': bcontracts, 'known_findings': ['%s/%s: %s' % (k[1], k[2], k[3]) for k in listed], 'native_cross_check': natres,
        },
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
if __name__ == '__main__': main()
