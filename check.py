#!/usr/bin/env python3
"""Runs one check:  check.py <id> [--thorough]   |   check.py --replay <file>

Builds the harnesses of the property from /repo's working tree in a scratch folder, explores,
replays every violation in a fresh process before reporting it, writes evidence/<id>.json.
Exit 0: held on everything explored; exit 1: violated (VIOLATION lines); 2: error of the check."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('CXON_REPO', '/repo')
sys.path.insert(0, HERE)
from registry import CHECKS, VARIANTS  # noqa: E402

def build(job, out):
    src, variant, extra = job['src'], job.get('variant', 'cxx20'), job.get('flags', [])
    v = VARIANTS[variant]
    cmd = [v['cc']] + v['flags'] + ['-I%s/src' % REPO, '-I%s/harness' % HERE] + extra + [os.path.join(HERE, 'harness', src), '-o', out] + v.get('libs', []) + job.get('libs', [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        sys.stdout.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd), r.stdout[-6000:]))
        raise SystemExit(2)

def name_of(job):
    return os.path.splitext(job['src'])[0] + '.' + job.get('variant', 'cxx20') + ('.' + job['tag'] if 'tag' in job else '')

def load(path):
    with open(path, errors='replace') as f:
        return json.loads(f.read(), strict=False)

def known():
    p = os.path.join(HERE, 'known_findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('fixed:') and not l.startswith('#'):
                r.append(json.loads(l))
    return r

def run_bin(exe, d, args, timeout):
    env = dict(os.environ); env.pop('CXON_REPO', None)
    return subprocess.run([exe, '--logs', d] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=env)

def confirm(exe, d, v):
    """replay the case alone; if it depends on what ran before, the whole unit alone"""
    for _ in range(2):
        try:
            r = run_bin(exe, d, ['--replay', v['unit'], str(v['idx'])] + (['--thorough'] if v.get('thorough') else []), 120)
        except subprocess.TimeoutExpired:
            return True
        if r.returncode == 1:
            return True
    out = os.path.join(d, 'confirm.json')
    try:
        run_bin(exe, d, ['--unit', v['unit'], '--workers', '1', '--out', out] + (['--thorough'] if v.get('thorough') else []), 300)
        return any(w['unit'] == v['unit'] and w['idx'] == v['idx'] for w in load(out)['violations'])
    except Exception:
        return False

def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        rp = load(a[1])
        d = tempfile.mkdtemp(prefix='cxon-mc-')
        try:
            exe = os.path.join(d, 'bin'); build(rp['job'], exe)
            r = run_bin(exe, d, ['--replay', rp['unit'], str(rp['idx'])] + (['--thorough'] if rp.get('tier') == 'thorough' else []), 300)
            sys.stdout.write(r.stdout); return r.returncode
        finally:
            shutil.rmtree(d, ignore_errors=True)
    pid = a[0]
    tier = 'thorough' if ('--thorough' in a or os.environ.get('VERIF_TIER') == 'thorough') else 'quick'
    if '--quick' in a: tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = CHECKS[pid]
    t0 = time.time()
    d = tempfile.mkdtemp(prefix='cxon-mc-')
    rdir = os.path.join(HERE, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'): os.remove(os.path.join(rdir, f))
    try:
        jobs = [j for j in chk['jobs'] if tier == 'thorough' or not j.get('thorough_only')]
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(lambda k: build(jobs[k], os.path.join(d, 'bin%d' % k)), range(len(jobs))))
        tb = time.time() - t0
        tot = dict(states=0, transitions=0, traces=0, evals=0, outcomes=0, units=0)
        samples, viols, capped, per = [], [], False, []
        for k, j in enumerate(jobs):
            exe, out, ld = os.path.join(d, 'bin%d' % k), os.path.join(d, 'out%d.json' % k), os.path.join(d, 'log%d' % k)
            os.makedirs(ld, exist_ok=True)
            args = ['--out', out, '--seed', str(seed), '--workers', str(j.get('workers', 8))] + (['--thorough'] if tier == 'thorough' else [])
            r = run_bin(exe, ld, args + j.get('args', []), 840 if tier == 'quick' else 6 * 3600)
            if not os.path.exists(out):
                print('ERROR: %s gave no result (exit %s): %s' % (name_of(j), r.returncode, r.stdout[-2000:])); return 2
            o = load(out)
            for q in ('states', 'transitions', 'traces', 'evals', 'outcomes', 'units'): tot[q] += o[q]
            per.append({'harness': name_of(j), 'cases': o['evals'], 'seconds': o['seconds']})
            sm = o['samples']; samples += sm[:: max(1, len(sm) // 5)][:6]
            capped |= o['capped']
            for v in o['violations']: v['job'] = j; v['exe'] = exe; v['ld'] = ld; v['thorough'] = tier == 'thorough'; viols.append(v)
        kf = [k for k in known() if k['property'] == pid]
        hit, fresh = set(), []
        for v in viols:
            m = [i for i, k in enumerate(kf) if k['label'] == v['label'] and k['data'] == v['data'] and k.get('source', v['job']['src']) == v['job']['src']]
            if m: hit.update(m)
            else: fresh.append(v)
        for i in sorted(hit): print('KNOWN-FINDING: property=%s %s' % (pid, kf[i]['what']))
        # replay before report; one per (harness, label) first, at most 6
        seen, pick, rest = set(), [], []
        for v in fresh:
            key = (name_of(v['job']), v['label'])
            (rest if key in seen else pick).append(v); seen.add(key)
        reported = 0
        for v in (pick + rest)[:14]:
            if reported >= 5: break
            if not confirm(v['exe'], v['ld'], v):
                print('note: not reproduced alone, not reported: %s %s #%d %s' % (name_of(v['job']), v['unit'], v['idx'], v['msg'][:200])); continue
            reported += 1
            path = os.path.join(rdir, '%s-%d.json' % (pid, reported))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'tier': tier, 'job': v['job'], 'unit': v['unit'], 'idx': v['idx'], 'label': v['label'], 'data_hex': v['data'], 'text': v['text'], 'message': v['msg'],
                           'how': 'python3 /verif/check.py --replay ' + path}, f, indent=1)
            print('  %s [%s #%d %s] %s' % (name_of(v['job']), v['unit'], v['idx'], v['label'], v['text'][:120]))
            print('  ' + v['msg'][:600])
            print('VIOLATION property=%s replay=%s' % (pid, path))
        wall = round(time.time() - t0, 2)
        cov = {'samples': samples[:24] or ['(no sample was recorded)'], 'harnesses': per, 'exploration_units': tot['units'], 'distinct_observed_outcomes': tot['outcomes'],
               'bounds': chk['bounds'][tier] if isinstance(chk['bounds'], dict) else chk['bounds'], 'build_s': round(tb, 1), 'exhaustive': not capped}
        if chk['level'] == 'model_checking':
            cov.update({'states': tot['states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['traces']})
            if tot['evals'] != tot['traces']: cov['cases_announced'] = tot['evals']
        else:
            cov.update({'evaluations': tot['evals'], 'distinct_nontrivial': tot['states'], 'rule': chk['rule']})
            if tot['traces'] != tot['evals']: cov['runs_of_the_code'] = tot['traces']
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': chk['level'], 'coverage': cov, 'wall_s': wall, 'violations': reported, 'assumptions': chk.get('assumptions', [])}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        print('%s %s: %d cases, %d states, %d transitions, %d traces, %d outcomes, %.1f s (%.1f s build)%s' % (pid, tier, tot['evals'], tot['states'], tot['transitions'], tot['traces'], tot['outcomes'], wall, tb, ' CAPPED' if capped else ''))
        return 1 if reported else 0
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
