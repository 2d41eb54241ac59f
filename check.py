"""Decides one property on /repo's current working tree.

usage: python3 check.py PROPERTY [--tier quick|thorough]
       python3 check.py --replay FILE

1. Deductive layer (vc/run.py): the functions under contract are read from /repo/qosy, the
   verification conditions are generated and discharged by z3/cvc5.
2. Replay layer (search/run.py): the executable form of the same property on the real code.
   It concretises failed obligations into failing inputs and is the labelled bounded
   stand-in for the parts of the property without a contract.
Exit status 0: held; 1: VIOLATION line printed.
"""
import sys, os, json, time, subprocess, ast, argparse, glob, shutil

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('QOSY_REPO', '/repo')
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'
PY = '/opt/venv/bin/python'
FINDINGS = os.path.join(HERE, 'known_findings.txt')


def harvest():
    """Number and string literals of the code under test (they steer the case generator)."""
    ints, floats, strs = set(), set(), set()
    for f in sorted(glob.glob(os.path.join(REPO, 'qosy', '*.py'))):
        try:
            tree = ast.parse(open(f).read())
        except SyntaxError:
            continue
        docs = set(id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.add(v)
                elif isinstance(v, float):
                    floats.add(v)
                elif isinstance(v, str) and len(v) <= 12:
                    strs.add(v)
    return [sorted(i for i in ints if 0 <= i <= 100000), sorted(f for f in floats if 1e-9 <= abs(f) <= 1e6), sorted(strs)]


def env():
    e = dict(os.environ)
    e.update(PYTHONPATH=REPO, PYTHONHASHSEED='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
             PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', HOME=e.get('HOME', '/root'), LC_ALL='C.UTF-8')
    return e


def run_json(cmd, timeout):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=env(), timeout=timeout, cwd=HERE)
    except subprocess.TimeoutExpired:
        return None, 'timeout after {} s'.format(timeout)
    try:
        return json.loads(p.stdout), p.stderr[-2000:]
    except ValueError:
        return None, (p.stdout[-1000:] + p.stderr[-3000:])


def findings(prop):
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            l = l.strip()
            if l.startswith('known: property={} '.format(prop)):
                out.append(l[len('known: '):])
    return out


def search(prop, seed, tier, budget, scale, lits, outdir):
    lf = os.path.join(outdir, prop + '.literals.json')
    json.dump(lits, open(lf, 'w'))
    return run_json([PY, os.path.join(HERE, 'search', 'run.py'), prop, '--seed', str(seed), '--tier', tier, '--budget', str(budget),
                     '--scale', str(scale), '--literals', lf, '--jobs', '8'], budget + 150)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        if 'law' in r:
            return subprocess.call([PY, os.path.join(HERE, 'search', 'run.py'), '--replay', a.replay], env=env())
        print(json.dumps(r, indent=1)[:20000])
        d, err = run_json([VT, os.path.join(HERE, 'vc', 'run.py'), r['property'], '--repo', os.path.join(REPO, 'qosy')], 800)
        names = set(o['obligation'] for o in r.get('failed', []))
        now = [o for f in (d or {}).get('functions', []) for o in f['obs'] if o[1] != 'proved']
        print('still open:', [o[0] for o in now])
        return 1 if now else 0
    prop, tier = a.prop, a.tier
    t0 = time.time()
    outdir = os.path.join(HERE, 'evidence')
    os.makedirs(outdir, exist_ok=True)
    info = json.load(open(os.path.join(HERE, 'contracts', 'coverage.json'))).get(prop, {})
    lits = harvest()

    # 1. deductive layer
    cmd = [VT, os.path.join(HERE, 'vc', 'run.py'), prop, '--jobs', '8', '--timeout', '15' if tier == 'quick' else '120', '--repo', os.path.join(REPO, 'qosy'),
           '--deadline', '330' if tier == 'quick' else '2400']
    ded, err = run_json(cmd, 420 if tier == 'quick' else 3000)
    functions = (ded or {}).get('functions', [])
    lemmas = (ded or {}).get('lemmas', [])
    obs = [o + [f['name'], f.get('bounded')] for f in functions for o in f['obs']] + [o + [l['name'], None] for l in lemmas for o in l['obs']]
    failed = [dict(obligation=o[0], status=o[1], backend=o[3], output=o[4], function=o[5]) for o in obs if o[1] != 'proved']
    if ded is None or ded.get('error'):
        failed.append(dict(obligation='the verifier runs on the current source', status='error', backend='', output=(err or '') if ded is None else ded['error'], function=''))
    if ded is not None and not ded.get('error') and not functions and info.get('contracts', True):
        failed.append(dict(obligation='the property has obligations', status='missing', backend='', output='no contract was found', function=''))

    # 2. replay layer / bounded stand-in
    budget, scale = (60, 8) if tier == 'quick' else (900, 8)
    srch, serr = search(prop, a.seed, tier, budget, scale, lits, outdir)
    extended = False
    if srch is not None and not srch['bad'] and failed:
        extended = True
        more, _ = search(prop, a.seed + 1000, 'thorough', 120 if tier == 'quick' else 600, scale, lits, outdir)
        if more is not None:
            srch['bad'] += more['bad']
            srch['evaluations'] += more['evaluations']
            srch['distinct'] += more['distinct']

    replay = os.path.join(outdir, prop + '.replay.json')
    if os.path.exists(replay):
        os.remove(replay)
    code, line = 0, None
    nviol = 0
    if srch is None:
        # the real code could not even be run on the cases
        json.dump(dict(property=prop, kind='error', message=serr, failed=failed), open(replay, 'w'), indent=1)
        line = 'VIOLATION property={} replay={} no-failing-input-found'.format(prop, replay)
        code, nviol = 1, 1
    elif srch['bad']:
        b = srch['bad'][0]
        json.dump(dict(property=prop, kind='input', law=b['law'], seed=b['seed'], index=b['index'], literals=lits, message=b['message'],
                       failed=failed[:20]), open(replay, 'w'), indent=1)
        line = 'VIOLATION property={} replay={}'.format(prop, replay)
        code, nviol = 1, len(srch['bad'])
    elif failed:
        json.dump(dict(property=prop, kind='obligation', failed=failed, note='no failing input was found for the failed obligations'), open(replay, 'w'), indent=1)
        line = 'VIOLATION property={} replay={} no-failing-input-found'.format(prop, replay)
        code, nviol = 1, len(failed)

    proved = [o for o in obs if o[1] == 'proved']
    unb = [o for o in obs if not o[6]]
    assumed = {}
    for f in functions:
        for k, v in f.get('assumed', {}).items():
            assumed[k] = assumed.get(k, 0) + v
    backends = {}
    for o in proved:
        if not o[6]:
            backends[o[3] or 'simplifier'] = backends.get(o[3] or 'simplifier', 0) + 1
    TB = json.load(open(os.path.join(HERE, 'contracts', 'trusted.json')))
    cov = dict(obligations=len(unb), discharged=len([o for o in unb if o[1] == 'proved']), checker_cmd=' '.join(cmd),
               trusted_base=TB['general'] + sorted(assumed),
               functions_under_contract=[dict(function='{}.{}'.format(f['mod'], f['qual']), case=f['case'], obligations=len(f['obs']), open=len([o for o in f['obs'] if o[1] != 'proved']),
                                              solver_s=f['solver'], paths=f['paths'], bounded=f['bounded'], callee_contracts=f['calls'], executed_in_place=f['inlined'], lemmas=f['lemmas']) for f in functions],
               lemmas=[dict(lemma=l['name'], obligations=len(l['obs']), solver_s=l['solver']) for l in lemmas],
               by_backend=backends, solver_s=round(sum(f['solver'] for f in functions) + sum(l['solver'] for l in lemmas), 2),
               bounded_obligations=len([o for o in obs if o[6]]),
               not_under_contract=info.get('not_under_contract', []))
    if srch is not None:
        cov.update(evaluations=srch['evaluations'], distinct_nontrivial=srch['distinct'],
                   rule='cases of the executable form of the property, drawn from (law, seed, index); distinct by the description of the case, trivial ones (empty or rejected by the precondition) not counted; bounded, never counted as proved',
                   samples=[dict(law=k, case=v) for k, v in sorted(srch['samples'].items())] or ['none'], per_law=srch['per_law'], extended_search=extended)
    ev = dict(property=prop, tier=tier, seed=a.seed, level=info.get('level', 'proof'), coverage=cov, assumptions=TB['assumptions'] + info.get('assumptions', []) + sorted(assumed),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    tmp = os.path.join(outdir, prop + '.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.replace(tmp, os.path.join(outdir, prop + '.json'))
    for l in findings(prop):
        print('KNOWN-FINDING: ' + l)
    print('{}: {} obligations, {} discharged ({} functions, {} lemmas), {} cases executed, {:.0f} s'.format(
        prop, len(unb), cov['discharged'], len(functions), len(lemmas), cov.get('evaluations', 0), time.time() - t0))
    for f in failed[:10]:
        print('  open: {} [{}] {}'.format(f['obligation'], f['status'], f['output'][:200].replace('\n', ' ')))
    if srch is not None and srch['bad']:
        print('  failing input: {} #{}: {}'.format(srch['bad'][0]['law'], srch['bad'][0]['index'], srch['bad'][0]['message'][:400]))
    if line:
        print(line)
    return code


if __name__ == '__main__':
    sys.exit(main())
