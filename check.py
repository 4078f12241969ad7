#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--verbose] [--witness REGEX]

Decides one property of /repo by abstract interpretation of witness translation units.
Exit 0: held; exit 1: VIOLATION; anything else: no answer."""
import sys, os, re, json, time, subprocess, shutil, tempfile, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'tools'))
from catalogue import PROPS, MEMORY  # noqa

CLANG = '/usr/bin/clang++'
LXAI = os.path.join(V, 'engine/build/lxai')
FLAGS = ['-std=c++20', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(V, 'witness'), '-O1', '-Xclang',
         '-disable-llvm-passes', '-gline-tables-only', '-fno-exceptions', '-fno-rtti', '-w', '-emit-llvm', '-c']


def die(msg):
    print('ERROR ' + msg)
    sys.exit(2)


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    verbose = False
    rx = '.'
    pid = None
    while args:
        a = args.pop(0)
        if a == '--tier': tier = args.pop(0)
        elif a == '--verbose': verbose = True
        elif a == '--witness': rx = args.pop(0)
        else: pid = a
    if pid not in PROPS: die('unknown property %s' % pid)
    P = PROPS[pid]
    t0 = time.time()
    deadline = t0 + (600 if tier == 'quick' else 3000)
    r = subprocess.run(['make', '-s', '-C', os.path.join(V, 'engine')], capture_output=True, text=True)
    if r.returncode or not os.path.exists(LXAI): die('engine does not build: ' + r.stderr[-2000:])
    if 'script' in P:  # a dedicated analysis
        return finish(pid, P, tier, t0, *P['script'](REPO, V, tier), verbose)
    tmp = tempfile.mkdtemp(prefix='lxcheck')
    try:
        res = run_witnesses(pid, P, tier, rx, tmp, deadline)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    finish(pid, P, tier, t0, *res, verbose)


def run_witnesses(pid, P, tier, rx, tmp, deadline):
    ex = cf.ThreadPoolExecutor(os.cpu_count() or 8)
    groups = [g for g in P['groups'] if tier == 'thorough' or not g.get('thorough')]

    def comp(g):
        out = []
        bc = os.path.join(tmp, g['id'] + '.bc')
        fl = list(FLAGS) + [x.replace('@REPO', REPO) for x in g.get('flags', [])]
        if tier == 'thorough': fl.append('-DVP_THOROUGH=1')
        r = subprocess.run([CLANG] + fl + [os.path.join(V, 'witness', g['file']), '-o', bc], capture_output=True, text=True)
        if r.returncode: return g, None, r.stderr[:3000]
        ws = subprocess.run([LXAI, bc, '--list'], capture_output=True, text=True).stdout.split()
        return g, [(g, bc, w) for w in ws if re.search(g.get('only', '.'), w) and re.search(rx, w)], ''

    jobs, broken = [], []
    for g, l, err in ex.map(comp, groups):
        if l is None: broken.append('witness %s does not compile against %s:\n%s' % (g['file'], REPO, err)); continue
        if not l and rx == '.': die('witness %s has no instances' % g['file'])
        jobs += l
    if not jobs: die('no witnesses ' + ' '.join(broken))
    for b in broken: print('NOTE ' + b[:600])

    def run(j):
        g, bc, w = j
        T = g.get('time', 30) * (1 if tier == 'quick' else 5)
        left = deadline - time.time()
        if left < 2: return j, None
        T = min(T, left)
        try:
            r = subprocess.run([LXAI, bc, w, '--time', str(T)] + g.get('opts', []), capture_output=True, text=True, timeout=T + 120)
            return j, json.loads(r.stdout)
        except subprocess.TimeoutExpired:
            return j, None
        except ValueError:
            return j, {'crash': r.returncode, 'err': r.stderr[:300]}

    # long ones first
    jobs.sort(key=lambda j: -j[0].get('time', 30))
    results = list(ex.map(run, jobs))
    viol, stats = [], dict(witnesses=0, complete=0, states=0, transitions=0, widenings=0, instructions=0, paths=0,
                           inconclusive=[b[:300] for b in broken], functions=set(), covers=0, covers_reached=0, samples=[])
    for (g, bc, w), d in results:
        stats['witnesses'] += 1
        if d is None: stats['inconclusive'].append(w + ': out of time'); continue
        if 'crash' in d: stats['inconclusive'].append('%s: engine ended with %s %s' % (w, d['crash'], d['err'])); continue
        for k in ('states', 'transitions', 'widenings', 'instructions', 'paths'): stats[k] += d[k]
        stats['functions'].update(d['function_list'])
        codes = set(g['codes'])
        imp = False
        for v in d['violations']:
            if v['code'] not in codes: continue
            if v['imprecise']: imp = True
            else: viol.append(dict(witness=w, file=g['file'], code=v['code'], msg=v['msg'], loc=v['loc'], input=v['input'], stack=v.get('stack', '')))
        complete = not d['truncated'] and not d['gaveup']
        for k, c in d['covers'].items():
            stats['covers'] += 1
            if c == 2: stats['covers_reached'] += 1
            if c == 0 and complete and g.get('covers') and not d['violations']:
                viol.append(dict(witness=w, file=g['file'], code='unreachable-outcome', msg='outcome "%s" cannot be reached by any input' % k, loc='witness/' + g['file'] + ' ' + w, input='(all)', stack=''))
        if g.get('effects'):
            for e, n in d['externals'].items():
                if e in g['effects']['allow']: continue
                viol.append(dict(witness=w, file=g['file'], code='effect', msg='parsing calls the external function ' + e, loc=w, input='', stack=''))
            for e in d['mutable_globals']:
                viol.append(dict(witness=w, file=g['file'], code='effect', msg='parsing uses the mutable global ' + e, loc=w, input='', stack=''))
        if complete and not imp: stats['complete'] += 1
        else:
            why = ', '.join(list(d['gaveup'])[:2]) or ('limit reached' if d['truncated'] else 'candidate on an over-approximated path')
            stats['inconclusive'].append('%s: %s' % (w, why))
        if len(stats['samples']) < 6: stats['samples'].append('%s: %d abstract states, %d transitions, %d paths to the end, covers %s' % (w, d['states'], d['transitions'], d['paths'], d['covers']))
    return viol, stats


def finish(pid, P, tier, t0, viol, stats, verbose):
    known = json.load(open(os.path.join(V, 'known-findings.json')))['known']
    new, old = [], []
    for v in viol:
        k = [f for f in known if f['property'] == pid and f['code'] == v['code'] and re.search(f['witness'], v['witness'])
             and re.search(f.get('msg', '.'), v['msg'])]
        if k: old.append((k[0], v))
        else: new.append(v)
    stats['functions'] = sorted(stats['functions'])
    cov = dict(explanation=P['explain'], analysed_functions=len(stats['functions']))
    for k in stats:
        if k not in ('functions',): cov[k] = stats[k]
    cov['function_sample'] = stats['functions'][:40]
    cov['inconclusive'] = stats['inconclusive'][:60]
    cov['inconclusive_count'] = len(stats['inconclusive'])
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other', coverage=cov,
              assumptions=P.get('assume', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
    for f in {f['id']: f for f, v in old}.values(): print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    if verbose:
        for x in stats['inconclusive']: print('  inconclusive', x)
    print('%s: %d witnesses, %d decided completely, %d abstract states, %d functions, %.1f s' % (
        pid, stats['witnesses'], stats['complete'], stats['states'], len(stats['functions']), time.time() - t0))
    if new:
        os.makedirs(os.path.join(V, 'build'), exist_ok=True)
        rp = os.path.join(V, 'build', 'replay-%s.json' % pid)
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new[:8]: print('  %s %s: %s | at %s | input %s' % (v['witness'], v['code'], v['msg'], v['loc'], v['input'][:200]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        sys.exit(1)
    if stats['complete'] == 0: die('no witness could be decided')
    sys.exit(0)


if __name__ == '__main__':
    main()
