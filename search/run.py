"""Runs the laws of one property on the real code (CPython, /repo). JSON on stdout.

  run.py PROPERTY --seed N --tier quick|thorough --budget SECONDS [--literals FILE] [--laws a,b]
  run.py --replay FILE
"""
import sys, os, json, time, argparse, hashlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')
import multiprocessing as mp


def load():
    import base
    import laws_a
    for m in ('laws_b', 'laws_c'):
        if os.path.exists(os.path.join(HERE, m + '.py')):
            __import__(m)
    return base


def work(task):
    import base
    prop, lawname, seed, start, stop, lits, deadline = task
    fn = [f for (n, f, _, _) in base.LAWS[prop] if n == lawname][0]
    out = dict(law=lawname, done=0, trivial=0, skipped=0, keys=[], sample=None, bad=None)
    for i in range(start, stop):
        if time.time() > deadline:
            break
        g = base.Gen(lawname, seed, i, *lits)
        st, info = base.run_case(fn, g)
        out['done'] += 1
        if st == 'ok':
            out['keys'].append(hashlib.md5((lawname + repr(info)).encode()).hexdigest()[:12])
            if out['sample'] is None:
                out['sample'] = repr(info)[:300]
        elif st == 'trivial':
            out['trivial'] += 1
        elif st == 'skip':
            out['skipped'] += 1
        else:
            out['bad'] = dict(index=i, seed=seed, message=info)
            break
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=25)
    ap.add_argument('--literals')
    ap.add_argument('--laws')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=int, default=8)
    ap.add_argument('--jobs', type=int, default=6)
    a = ap.parse_args()
    base = load()
    if a.replay:
        r = json.load(open(a.replay))
        if 'law' not in r:
            print('no failing input recorded in', a.replay)
            return 2
        fn = [f for (n, f, _, _) in base.LAWS[r['property']] if n == r['law']][0]
        st, info = base.run_case(fn, base.Gen(r['law'], r['seed'], r['index'], *r['literals']))
        print(st, info)
        return 1 if st == 'bad' else 0
    lits = json.load(open(a.literals)) if a.literals else [[], [], []]
    laws = base.LAWS[a.prop]
    if a.laws:
        laws = [l for l in laws if l[0] in a.laws.split(',')]
    t0 = time.time()
    deadline = t0 + a.budget
    tasks = []
    for (name, fn, nq, nt) in laws:
        n = (nq if a.tier == 'quick' else nt) * a.scale
        step = max(1, min(200, (n + 15) // 16))
        tasks += [(i, (a.prop, name, a.seed, i, min(n, i + step), lits, deadline)) for i in range(0, n, step)]
    tasks = [t for _, t in sorted(tasks, key=lambda x: x[0])]
    res = []
    with mp.get_context('fork').Pool(a.jobs) as pool:
        for r in pool.imap_unordered(work, tasks):
            res.append(r)
            if r['bad'] is not None and os.environ.get('SEARCH_STOP', '1') == '1':
                pool.terminate()
                break
    keys = set(k for r in res for k in r['keys'])
    samples = {}
    for r in res:
        if r['sample'] and r['law'] not in samples:
            samples[r['law']] = r['sample']
    per = {}
    for r in res:
        d = per.setdefault(r['law'], [0, 0, 0])
        d[0] += r['done']; d[1] += r['trivial']; d[2] += r['skipped']
    bads = [dict(law=r['law'], **r['bad']) for r in res if r['bad']]
    json.dump(dict(property=a.prop, evaluations=sum(r['done'] for r in res), distinct=len(keys),
                   per_law={k: dict(cases=v[0], trivial=v[1], skipped=v[2]) for k, v in per.items()},
                   samples=samples, bad=bads, wall=time.time() - t0, literals=lits), sys.stdout)
    return 0


if __name__ == '__main__':
    sys.exit(main())
