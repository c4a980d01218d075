#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> [--tier quick|thorough] [--replay FILE]
Builds the harness(es) of the property from /repo's working tree, explores in parallel shards, replays every suspected
violation in a process of its own before reporting it, and writes evidence/<property>.json."""
import os, sys, json, time, subprocess, tempfile, shutil, struct, threading, signal
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build
from checks import CHECKS
import importlib

NSH = os.cpu_count() or 8

def log(*a): print(*a, file=sys.stderr, flush=True)

def known(pid):
    try:
        data = json.load(open(os.path.join(V, 'known_findings.json')))
    except FileNotFoundError:
        return []
    return [k for k in data['findings'] if k['property'] == pid and k['status'] == 'finding']

def env_for():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0'
    e['UBSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66'
    e['LC_ALL'] = 'C'
    e['TZ'] = 'UTC'
    return e

def spawn(cmd, logf, limit, mem=None):
    """run a command with a wall clock limit; returns exit code (negative signal), or 'timeout'"""
    with open(logf, 'wb') as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env_for(), start_new_session=True)
        try:
            rc = p.wait(timeout=limit)
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        finally:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
    return rc

class Part:
    """one harness executable of a property"""
    def __init__(self, pid, spec, exe, tier, work):
        self.pid, self.spec, self.tier, self.work = pid, spec, tier, work
        self.cmd = list(exe) if isinstance(exe, (list, tuple)) else [exe]
        self.name = spec['harness']

    def shard(self, i, n, budget, limit):
        w = os.path.join(self.work, '%s.%d' % (self.name, i)); os.makedirs(w, exist_ok=True)
        out = os.path.join(self.work, '%s.%d.json' % (self.name, i))
        rc = spawn(self.cmd + self.spec.get('args', []) + ['--tier', self.tier, '--shard', str(i), str(n), '--work', w, '--out', out, '--budget', str(budget)],
                   out + '.log', limit)
        crumb = ''
        try: crumb = open(out + '.crumb', 'rb').read().split(b'\0')[0].decode('latin1')
        except OSError: pass
        res = None
        if os.path.exists(out): res = json.load(open(out))
        tail = open(out + '.log', 'rb').read()[-5000:].decode('latin1')
        shutil.rmtree(w, ignore_errors=True)
        return dict(rc=rc, crumb=crumb, res=res, tail=tail, out=out)

    def replay(self, desc, limit=300):
        w = tempfile.mkdtemp(prefix='rp', dir=self.work)
        cf = os.path.join(w, 'case'); open(cf, 'wb').write(desc.encode('latin1'))
        sw = os.path.join(w, 'w'); os.makedirs(sw)
        rc = spawn(self.cmd + self.spec.get('args', []) + ['--tier', self.tier, '--work', sw, '--replay-file', cf, '--out', os.path.join(w, 'o.json')], os.path.join(w, 'log'), limit)
        tail = open(os.path.join(w, 'log'), 'rb').read()[-6000:].decode('latin1')
        msg = ''
        for l in tail.splitlines():
            if l.startswith('MC-FAIL '): msg = l.split(' :: ', 1)[-1]; break
        if not msg:
            for l in tail.splitlines():
                if 'ERROR: AddressSanitizer' in l or 'MC-HANG' in l or 'terminate called' in l or 'what():' in l or 'MC-RT' in l: msg = l.strip(); break
        shutil.rmtree(w, ignore_errors=True)
        return rc, msg or ('exit %s' % rc), tail

def main():
    t0 = time.time()
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick'); rfile = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x == '--tier': tier = a.pop(0)
        elif x == '--replay': rfile = a.pop(0)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = CHECKS[pid]
    native = [s for s in chk['parts'] if not s.get('cs')]
    exes = {}
    try:
        if native: exes.update(build.build(sorted(set(s['harness'] for s in native))))
        for s in chk['parts']:
            if s.get('cs'):
                import build_cs
                exes[s['harness']] = build_cs.build(s['harness'], s)
    except build.BuildError as e:
        print('BUILD-ERROR property=%s\n%s' % (pid, e)); sys.exit(2)
    tb = time.time() - t0
    work = tempfile.mkdtemp(prefix='utymc.', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        parts = [Part(pid, s, exes[s['harness']], tier, work) for s in chk['parts']]
        if rfile:
            r = json.load(open(rfile)); rcs = 0
            for p in parts:
                if p.name == r['harness'] and p.spec.get('args', []) == r.get('args', []):
                    rc, msg, tail = p.replay(r['case']); print(tail); print('replay exit', rc, msg); rcs = 1 if rc not in (0,) else 0
            sys.exit(rcs)
        rc = explore(pid, chk, parts, tier, seed, t0, tb, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def explore(pid, chk, parts, tier, seed, t0, tb, work):
    total = float(os.environ.get('VERIF_BUDGET', '420' if tier == 'quick' else '5400'))
    jobs = []
    for p in parts:
        n = p.spec.get('shards', NSH)
        for i in range(n): jobs.append((p, i, n))
    results = [None] * len(jobs)
    lock = threading.Lock(); it = iter(range(len(jobs)))
    deadline = time.time() + total
    def worker():
        while True:
            with lock:
                k = next(it, None)
            if k is None: return
            p, i, n = jobs[k]
            left = max(20.0, deadline - time.time())
            results[k] = p.shard(i, n, left, left + 120)
    th = [threading.Thread(target=worker) for _ in range(NSH)]
    for t in th: t.start()
    for t in th: t.join()
    cov = dict(evaluations=0, distinct_nontrivial=0, states=0, transitions=0, traces_validated_against_impl=0)
    outc, states, counters, samples = set(), set(), {}, []
    capped = False; suspects = []; errors = []; nontriv = 0
    for (p, i, n), r in zip(jobs, results):
        if r['res'] is not None:
            d = r['res']
            cov['evaluations'] += d['evaluations']; nontriv += d['nontrivial']; cov['transitions'] += d['transitions']; cov['traces_validated_against_impl'] += d['traces']
            capped |= d['capped']
            for k, v in d['counters'].items(): counters[p.name + '.' + k] = counters.get(p.name + '.' + k, 0) + v
            if i == 0 or len(samples) < 4: samples += d['samples'][:4]
            for suf, st in (('.outcomes', outc), ('.states', states)):
                b = open(r['out'] + suf, 'rb').read()
                st.update((p.name, x[0]) for x in struct.iter_unpack('<Q', b))
            for v in d['violations']: suspects.append((p, v['case'], v['msg'], i, n))
        else:
            if r['crumb']:
                suspects.append((p, r['crumb'], 'process ended with %s: %s' % (r['rc'], summarise(r['tail'])), i, n))
            else:
                errors.append('%s shard %d ended with %s outside any case\n%s' % (p.name, i, r['rc'], r['tail']))
    kf = known(pid)
    kcases = set((k['harness'], k['case']) for k in kf)
    # known findings: show that they (still) fail
    found_known = []
    for k in kf:
        for p in parts:
            if p.name == k['harness']:
                rc, msg, tail = p.replay(k['case'])
                if rc not in (0, 3):
                    found_known.append(k)
                    print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                break
    violations = []
    seen = set()
    rdir = os.path.join(V, 'evidence', 'replays'); os.makedirs(rdir, exist_ok=True)
    unrepro = []
    for p, desc, msg, i, n in suspects:
        if (p.name, desc) in seen or (p.name, desc) in kcases: continue
        seen.add((p.name, desc))
        if len(violations) >= 5: break
        rc, rmsg, tail = p.replay(desc)
        if rc in (0, 3):
            # a failure may need the cases before it (state kept in the process): the same shard must fail again in the same way
            r2 = p.shard(i, n, total, total + 120)
            again = (r2['res'] is None and r2['crumb'] == desc) or (r2['res'] is not None and any(v['case'] == desc for v in r2['res']['violations']))
            if not again:
                unrepro.append((p.name, desc, msg)); log('NOT REPRODUCED', p.name, desc, msg); continue
            rmsg = msg + ' (needs the preceding cases of shard %d/%d)' % (i, n)
        f = os.path.join(rdir, '%s_%d.json' % (pid, len(violations)))
        json.dump(dict(property=pid, harness=p.name, args=p.spec.get('args', []), case=desc, message=rmsg, first_message=msg, tail=tail[-3000:]), open(f, 'w'), indent=1)
        violations.append((f, desc, rmsg))
    for f, desc, m in violations:
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(f, V)))
        print('  case: %s\n  %s' % (desc[:600], m[:1200]))
    cov['distinct_nontrivial'] = len(outc); cov['states'] = len(states) or len(outc)
    cov['rule'] = chk['rule']; cov['samples'] = samples[:8] or ['none']
    cov['nontrivial_cases'] = nontriv
    cov['exhaustive'] = not capped and not errors
    if counters: cov['counters'] = counters
    if unrepro: cov['not_reproduced'] = ['%s %s: %s' % x for x in unrepro]
    level = chk['level']
    if level == 'exploration' or level == 'fault_enumeration':
        for k in ('states', 'transitions', 'traces_validated_against_impl'):
            cov.pop(k)
    else:
        if not cov['transitions']: cov['transitions'] = cov['evaluations']
        if not cov['traces_validated_against_impl']: cov['traces_validated_against_impl'] = cov['evaluations']
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=chk.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations), build_s=round(tb, 2), known_findings=[k['what'] for k in found_known])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s %s: evaluations=%d distinct=%d states=%d transitions=%d build=%.0fs wall=%.0fs capped=%s' % (pid, tier, cov['evaluations'], len(outc), len(states), cov.get('transitions', 0), tb, ev['wall_s'], capped))
    if violations: return 1
    if errors:
        print('CHECK-ERROR property=%s' % pid)
        for e in errors[:3]: print(e)
        return 2
    return 0

def summarise(tail):
    for l in tail.splitlines():
        if 'ERROR: AddressSanitizer' in l or 'MC-HANG' in l or 'terminate called' in l or 'MC-RT' in l: return l.strip()
    return tail[-300:]

if __name__ == '__main__':
    main()
