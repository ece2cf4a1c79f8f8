#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [--tier quick|thorough]

1. Verifies, from /repo's current source, every function contract the property rests on
   (clang AST -> verification conditions -> z3/cvc5), callees checked against their contracts.
2. Runs the falsifier: random and dictionary-driven cases on the real code under ASan/UBSan against
   an independent oracle.  It looks for the concrete input behind a failed obligation, and on every run it
   cross-checks the contracts (translation validation of the verifier's reading of the code).
3. exit 1 + VIOLATION when an obligation fails or the falsifier finds a failing input; exit 0 otherwise.
   Where changed code leaves the verifier's subset, the falsifier stands in, labelled bounded.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import subprocess
import sys
import tempfile
import time
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'contracts'), os.path.join(HERE, 'checks')]
sys.setrecursionlimit(20000)
REPO = '/repo'
INC = REPO + '/include'
EV = os.path.join(HERE, 'evidence')
T0 = time.time()

SES = {}


def session(unit):
    from units import UNITS
    from session import Session
    if unit in SES:
        return SES[unit]
    u = UNITS[unit]
    s = Session(u['driver'], opaque=u.get('opaque', ()), timeout=8000, **u.get('kw', {}))
    for m in u['contracts']:
        m = importlib.import_module(m)
        if hasattr(m, 'setup'):
            m.setup(s)
    for m in u['contracts']:
        importlib.import_module(m).contracts(s.contracts)
    SES[unit] = s
    return s


def find_contract(s, name):
    for c in s.contracts.by.get(name.split('#')[0], []):
        if c.name == name:
            return c
    raise KeyError(name)


def work(job):
    unit, name, patience = job
    s = SES[unit]
    s.solver.patience = patience
    s.ip.used = set()
    s.ip.assumed = set(s.ip.assumed)
    n_log, n_t, n_c = len(s.ip.loop_log), s.solver.stats.time, s.solver.stats.calls
    c = find_contract(s, name)
    if c.lemma if hasattr(c, 'lemma') else False:
        rs = s.verify_lemma(c)
    else:
        rs = s.verify(c)
    out = []
    for r in rs:
        obls = [dict(name=o.name, status=o.status, backend=o.backend, time=round(o.time, 3), detail=(o.detail or '')[:1500], fn=o.fn,
                     goal=(str(o.goal)[:1500] if o.status != 'discharged' and getattr(o, 'goal', None) is not None else '')) for o in r['obls']]
        out.append(dict(fn=r['fn'], status=r['status'], detail=r['detail'], time=round(r.get('time', 0), 2), obls=obls))
    return dict(name=name, unit=unit, results=out, used=sorted(s.ip.used - {name}), loops=[(a, b, len(n)) for a, b, n in s.ip.loop_log[n_log:]],
                solver=s.solver.stats.time - n_t, calls=s.solver.stats.calls - n_c, assumed=sorted(s.ip.assumed))


def _child(q, job):
    try:
        os.setpgid(0, 0)
        q.put((job, work(job)))
    except BaseException as ex:          # noqa
        import traceback
        q.put((job, dict(name=job[1], unit=job[0], results=[dict(fn=job[1], status='unsupported', detail='engine: ' + traceback.format_exc()[-600:], time=0, obls=[])],
                         used=[], loops=[], solver=0, calls=0, assumed=[])))


def run_jobs(jobs, deadline, par):
    """each contract in its own forked process; -> {(unit,name): result}"""
    res = {}
    q = mp.Queue()
    import solver
    solver.Solver.sem = mp.Semaphore(os.cpu_count() or 8)
    pend = list(jobs)
    run = {}
    while pend or run:
        while pend and len(run) < par and time.time() < deadline:
            j = pend.pop(0)
            p = mp.Process(target=_child, args=(q, j))
            p.start()
            run[j] = p
        try:
            j, r = q.get(timeout=0.5)
            run.pop(j).join()
            res[j[:2]] = r
            continue
        except Exception:
            pass
        for j, p in list(run.items()):
            if not p.is_alive() and p.exitcode not in (0, None):
                run.pop(j)
                res[j[:2]] = dict(name=j[1], unit=j[0], results=[dict(fn=j[1], status='unsupported', detail='verifier process ended with %s' % p.exitcode, time=0, obls=[])], used=[], loops=[], solver=0, calls=0, assumed=[])
        if time.time() > deadline:
            for j, p in list(run.items()) + [(j, None) for j in pend]:
                if p is not None:
                    try:
                        os.killpg(p.pid, 9)
                    except OSError:
                        p.kill()
                    p.join()
                res[j[:2]] = dict(name=j[1], unit=j[0], results=[dict(fn=j[1], status='unsupported', detail='verification did not finish in the time given', time=0, obls=[])], used=[], loops=[], solver=0, calls=0, assumed=[])
            break
    return res


def literals(files):
    """integer literals of the code under check: the dictionary of the falsifier"""
    out = set()
    for f in files:
        try:
            t = open(os.path.join(INC, 'qlmps', f)).read()
        except OSError:
            continue
        t = re.sub(r'/\*.*?\*/', ' ', t, flags=re.S)
        t = re.sub(r'//[^\n]*', ' ', t)
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?:[uUlL]*)(?![\w.])', t):
            v = int(m.group(1), 0)
            if 2 < v < 1 << 31:
                out.add(v)
    return sorted(out)[:60]


CXX = ['g++', '-std=c++14', '-O1', '-g1', '-DNDEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-w']


class Falsifier:
    def __init__(self, p, tmp, tier):
        self.p, self.tmp, self.tier = p, tmp, tier
        self.exe = os.path.join(tmp, 'falsifier')
        self.src = os.path.join(HERE, 'falsify', p['falsifier'])
        cmd = CXX + p.get('cxxflags', []) + ['-I' + os.path.join(HERE, 'falsify')] + ['-I' + os.path.join(HERE, d) for d in p.get('inc', [])] + ['-I' + INC] + [self.src, '-o', self.exe] + p.get('ldflags', [])
        self.cmd = cmd
        self.cc = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.runs = []
        self.samples = []
        self.distinct = 0

    def build(self):
        out, _ = self.cc.communicate()
        self.out = out
        return self.cc.returncode == 0

    def start(self, secs, seeds):
        lits = ','.join(map(str, literals(self.p['files'])))
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=%d:abort_on_error=0:handle_abort=0:allocator_may_return_null=1:max_allocation_size_mb=4000' % (1 if self.p.get('leaks') else 0), UBSAN_OPTIONS='print_stacktrace=0')
        for m in self.p['modes']:
            for sd in seeds:
                wd = os.path.join(self.tmp, 'w_%s_%s' % (m, sd))
                os.makedirs(wd, exist_ok=True)
                c = [self.exe, '--mode', m, '--seed', str(sd), '--secs', str(secs)] + (['--lits', lits] if lits else [])
                f = open(os.path.join(wd, 'out'), 'w')
                self.runs.append((m, sd, c, wd, subprocess.Popen(c, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=wd)))

    def finish(self, limit):
        """-> (failures, cases, checks)"""
        fails, cases, checks, odd = [], 0, 0, []
        for m, sd, c, wd, p in self.runs:
            try:
                rc = p.wait(timeout=max(1, limit - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                odd.append('%s seed %s: stopped at the time limit' % (m, sd))
                continue
            t = open(os.path.join(wd, 'out'), errors='replace').read()
            mm = re.search(r'OK cases=(\d+) checks=(\d+) distinct=(\d+)', t)
            self.samples += [x.strip() for x in re.findall(r'SAMPLE\n(.*?)ENDSAMPLE', t, re.S)]
            if mm:
                self.distinct += int(mm.group(3))
            if rc == 0 and mm:
                cases += int(mm.group(1))
                checks += int(mm.group(2))
            elif 'FALSIFIED' in t:
                fails.append((m, sd, c, t))
            elif rc != 0 and mm and 'LeakSanitizer' in t:
                fails.append((m, sd, c, 'FALSIFIED memory is leaked\n' + t))
            else:
                odd.append('%s seed %s: exit %s: %s' % (m, sd, rc, t[-400:]))
        return fails, cases, checks, odd


def known_findings(pid):
    out = []
    try:
        for l in open(os.path.join(HERE, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    pid, tier = a.property, a.tier
    thorough = tier == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from units import PROPS, UNITS
    p = PROPS[pid]
    os.makedirs(EV, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='qlchk_')
    try:
        return run(pid, tier, thorough, seed, p, UNITS, tmp, a.v)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run(pid, tier, thorough, seed, p, UNITS, tmp, verbose):
    fz = Falsifier(p, tmp, tier) if p.get('falsifier') else None
    units = p['unit'] if isinstance(p['unit'], list) else [p['unit']]
    direct = []
    front = []
    from cppast import FrontEndError
    for n in p['contracts']:
        u, nm = n.split('!', 1) if re.match(r'\w+!\w', n) else (units[0], n)
        direct.append((u, nm))
    for u in sorted({u for u, _ in direct}):
        try:
            session(u)
        except FrontEndError as ex:
            front.append((u, str(ex)[:800]))
    fzok = fz.build() if fz else False
    secs = p.get('secs', 10) * (12 if thorough else 1)
    if fzok:
        fz.start(secs, [seed] if not thorough else [seed, seed + 1000])
    deadline = T0 + (3000 if thorough else p.get('deadline', 420))
    if fz and not fzok:
        front.append(('falsifier', fz.out[-800:]))
    lem = [(l, subprocess.Popen(['lean', os.path.join(HERE, 'lean', l)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for l in p.get('lemmas', [])]
    results = {}
    generic = set()
    badu = {u for u, _ in front}
    todo = [j for j in direct if j[0] not in badu]
    while todo:
        res = run_jobs([(u, n, 1) for u, n in todo], deadline, 6 if fz else 8)
        results.update(res)
        nxt = []
        for (u, n), r in res.items():
            for c in r['used']:
                # a class template verified for an opaque element type in its own unit is checked there
                gu = next((v for pre, v in UNITS[u].get('generic', {}).items() if c.startswith(pre)), u)
                if gu != u:
                    generic.add('%s verified for an opaque element type in unit %s (element copies equal the original and == is an equivalence: P07, P08)' % (c, gu))
                k = (gu, c)
                if gu not in SES and gu not in badu:
                    session(gu)
                if k not in results and k not in nxt and gu not in badu:
                    cc = find_contract(SES[u], c)
                    if not cc.assumed and not cc.inline:
                        nxt.append(k)
        todo = nxt
    fails, cases, checks, odd = ([], 0, 0, [])
    if fzok:
        fails, cases, checks, odd = fz.finish(time.time() + max(60, secs + 60))
    # patience: anything not discharged is tried again with more time, before it is believed
    again = [k for k, r in results.items() if any(x['status'] in ('failed',) for x in r['results']) or any('time given' in x['detail'] for x in r['results'])]
    if again and not fails:        # with a failing input the verdict is settled
        dl2 = max(deadline, time.time()) if thorough else min(max(deadline, time.time() + 60), T0 + 600)
        res = run_jobs([(u, n, 4) for u, n in again], dl2, 6)
        for k, r in res.items():
            old, new = results[k], r
            if any('time given' in x['detail'] for x in new['results']) and not any('time given' in x['detail'] for x in old['results']):
                continue
            results[k] = new
    # ------------------------------------------------------------- verdict
    failed, unsup, notes = [], [], []
    nob = ndis = 0
    back = {}
    fns = []
    solver_t = sum(r['solver'] for r in results.values())
    for k, r in sorted(results.items(), key=str):
        isdir = k in direct
        for x in r['results']:
            good = [o for o in x['obls'] if o['status'] == 'discharged']
            nob += len(x['obls'])
            ndis += len(good)
            for o in good:
                back[o['backend']] = back.get(o['backend'], 0) + 1
            fns.append(dict(function=x['fn'], status=x['status'], obligations=len(x['obls']), discharged=len(good), seconds=x['time'], role='anchor' if isdir else 'callee'))
            if x['status'] == 'failed':
                bad = [o for o in x['obls'] if o['status'] != 'discharged']
                if isdir:
                    failed.append((x['fn'], bad))
                else:
                    notes.append('callee %s: %d obligation(s) not discharged; decided by the property that owns it' % (x['fn'], len(bad)))
            elif x['status'] in ('unsupported', 'missing'):
                unsup.append((x['fn'], x['status'], x['detail']))
    for l, pr in lem:
        try:
            out = pr.communicate(timeout=300)[0]
        except subprocess.TimeoutExpired:
            pr.kill()
            out = 'timeout'
        names = re.findall(r'^theorem (\w+)', open(os.path.join(HERE, 'lean', l)).read(), re.M)
        ok = pr.returncode == 0 and 'sorry' not in out and 'error' not in out
        nob += len(names)
        ndis += len(names) if ok else 0
        if ok:
            back['lean'] = back.get('lean', 0) + len(names)
        else:
            notes.append('lemma file %s not accepted: %s' % (l, out[-300:]))
        fns.append(dict(function='lemma over the contracts: lean/' + l, status='proved' if ok else 'unsupported', obligations=len(names), discharged=len(names) if ok else 0, seconds=0, role='lemma'))
    for u, d in front:
        unsup.append((u, 'front end', d))
    for f in p.get('standin', []):
        unsup.append((f, 'no contract', 'not under contract yet'))
    viol = None
    replay = os.path.join(EV, 'replay_%s.txt' % pid)
    known = known_findings(pid)
    for key, what in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    if fails or failed:
        with open(replay, 'w') as f:
            f.write('property %s violated on the current /repo tree\n' % pid)
            for fn, bad in failed:
                f.write('\nFUNCTION %s: obligations the verifier could not discharge\n' % fn)
                for o in bad:
                    f.write('  OBLIGATION %s\n    goal: %s\n    verifier: %s %s\n' % (o['name'], o['goal'], o['status'], o['detail']))
            for m, sd, c, t in fails:
                i = t.find('FALSIFIED')
                f.write('\nFAILING INPUT on the real code (mode %s, seed %s)\n%s\n' % (m, sd, t[max(0, i - 3000):i + 6000]))
            if fz:
                f.write('\nbuild the replay program: %s\n' % ' '.join(x.replace(tmp, '/tmp') for x in fz.cmd))
                for m, sd, c, t in fails:
                    k = re.search(r'case=(\d+)', t)
                    f.write('run: %s --case %s\n' % (' '.join(c).replace(tmp, '/tmp'), k.group(1) if k else '0'))
        viol = 'VIOLATION property=%s replay=%s' % (pid, replay) + ('' if fails else ' no-failing-input-found')
    result = 'violated' if viol else ('held' if not unsup else 'held (bounded stand-in for part)')
    # a check that could decide nothing has no answer
    dead = not viol and not any(f['status'] == 'proved' and f['role'] != 'lemma' for f in fns) and not cases
    cov = dict(obligations=nob, discharged=ndis, checker_cmd='python3-vt /verif/check.py %s --tier %s' % (pid, tier),
               trusted_base=sorted({t for r in results.values() for t in r['assumed']} | set(TRUSTED) | set(p.get('trusted', [])) | generic),
               result=result, functions_under_contract=fns, back_ends=back, solver_seconds=round(solver_t, 1),
               loops_with_inferred_and_proved_invariants=sorted({'%s: %s loop, %d invariants' % tuple(l) for r in results.values() for l in r['loops']}),
               outside_subset=[dict(function=f, why=w, detail=d[:500], standin='bounded: falsifier only') for f, w, d in unsup],
               notes=notes + odd)
    if fz:
        cov.update(evaluations=cases, distinct_nontrivial=fz.distinct, rule='random and dictionary-driven histories (seeded by VERIF_SEED) on the real headers under ASan/UBSan, compared with an independent oracle; distinct = different complete histories, non-trivial = at least one operation; modes %s, %d s each' % (p['modes'], secs),
                   samples=fz.samples[:4], bounded_part='the falsifier is a bounded cross-check; it is not counted as proof', falsifier_program='falsify/' + p['falsifier'], falsifier_checks=checks)
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=p.get('level', 'proof'), coverage=cov,
              assumptions=cov['trusted_base'], wall_s=round(time.time() - T0, 1), violations=len(fails) + len(failed))
    json.dump(ev, open(os.path.join(EV, pid + '.json'), 'w'), indent=1)
    for fn, w, d in unsup:
        print('BOUNDED %s: %s (%s); decided by the bounded stand-in only' % (fn, w, d.strip().split('\n')[-1][:200]))
    for n in notes + odd:
        print('NOTE ' + n)
    for fn, bad in failed:
        for o in bad:
            print('FAILED-OBLIGATION %s :: %s [%s]' % (fn, o['name'], o['detail'][:100]))
    for m, sd, c, t in fails:
        print('FAILING-INPUT mode %s seed %s: %s' % (m, sd, t[t.find('FALSIFIED'):].split('\n')[0][:300]))
    print('%s %s: %d/%d obligations discharged, %d functions, solver %.1fs, falsifier %d cases %d checks, wall %.1fs' % (pid, result, ndis, nob, len(fns), solver_t, cases, checks, time.time() - T0))
    if viol:
        print(viol)
        return 1
    if dead:
        print('no answer')
        return 2
    return 0


TRUSTED = [
    'Lean 4 kernel and Mathlib, where a lemma over the contracts is proved in Lean (its hypotheses restate contract clauses; that restatement is by hand)',
    'clang 18 parses /repo and its JSON AST dump is faithful; the VC generator in /verif/engine (cross-checked on every run by the falsifier)',
    'z3 5.3 and cvc5 1.1 are sound',
    'assumed contracts on the C++ standard library (engine/stdmodel.py): containers, iterators, algorithms behave as the C++14 standard says; allocation does not fail',
    'integers are mathematical, with explicit obligations that no arithmetic in the verified code wraps, except where wrapping is the defined unsigned result and is modelled',
    'assert() compiled out as in the shipped Release build',
]


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
