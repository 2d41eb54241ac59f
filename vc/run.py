"""Runs the contracts of one property (or of one function) against /repo's current source.

usage: python3-vt run.py PROP [--only QUAL] [--jobs N] [--timeout S] [--deadline S] [--repo DIR] [-v]
Prints one JSON object.
"""
import sys, os, time, json, argparse, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'contracts'))
sys.setrecursionlimit(20000)
import z3
import spec, engine, lib
from engine import Repo, Engine, Ob, pmap
from values import Unsupported


def load():
    import all_contracts
    return all_contracts.CONTRACTS, all_contracts.LEMMA_PROPS


def verify_one(args):
    c, case, repo, table, timeout, deadline = args
    E = Engine(repo, table, timeout=timeout, deadline=deadline)
    t0 = time.time()
    name = c.qual + (' [{}]'.format(c.case_name(case)) if c.case_name(case) else '')
    err = None
    spec.USED.clear()
    try:
        E.verify(c, case)
        E.discharge(1)
    except Unsupported as e:
        err = 'unsupported: {}'.format(e)
    except RecursionError:
        err = 'unsupported: recursion'
    except z3.Z3Exception as e:
        err = 'unsupported: solver interface: {}'.format(str(e)[:300])
        if os.environ.get('VC_TRACE'):
            err += traceback.format_exc()
    except Exception as e:
        err = 'unsupported: {} {}'.format(type(e).__name__, str(e)[:300])
        if os.environ.get('VC_TRACE'):
            err += traceback.format_exc()
    obs = [(o.name, o.status, round(o.secs, 3), o.backend, o.detail) for o in E.obs]
    if err:
        obs.append(('{} / the function is within the reach of the verifier'.format(name), 'unsupported', 0.0, '', err))
    return dict(name=name, mod=c.mod, qual=c.qual, case=c.case_name(case), bounded=c.bounded, obs=obs, err=err, secs=round(time.time() - t0, 2),
                solver=round(E.solver_secs, 2), paths=E.npaths, assumed=E.assumed, lemmas=sorted(spec.USED),
                calls=sorted('{}.{}'.format(*x) for x in getattr(E, 'calls', set())),
                inlined=sorted('{}.{}'.format(*x) for x in getattr(E, 'inlined', set())))


def lemma_task(args):
    name, timeout = args
    E = Engine(None, None, timeout=timeout)
    L = spec.LEMMAS[name]
    obs = []
    t0 = time.time()
    for nm, hyps, goal, force in L.obligations():
        st, dt, be, detail = E.query(list(hyps), goal, list(force), timeout)
        obs.append((nm, st, round(dt, 3), be, detail))
        # the hypotheses of a lemma must not be contradictory by themselves
        st, dt, be, detail = E.query(list(hyps), z3.BoolVal(False), list(force), 1.0, quick=True)
        if '(step)' in nm or not L.induct:
            obs.append((nm + ' (vacuity check)', 'refuted' if st == 'proved' else 'proved', round(dt, 3), be, ''))
    return dict(name='lemma ' + name, obs=obs, secs=round(time.time() - t0, 2), solver=round(E.solver_secs, 2), lemmas=sorted(spec.USED))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--timeout', type=float, default=30)
    ap.add_argument('--deadline', type=float, default=600)
    ap.add_argument('--repo', default='/repo/qosy')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    contracts, _ = load()
    table = {(c.mod, c.qual): c for c in contracts}
    repo = Repo(a.repo)
    tasks = []
    for c in contracts:
        if (a.prop in c.props or a.prop == 'ALL') and (not a.only or a.only == c.qual):
            for case in c.cases:
                if os.environ.get('VC_CASE') and os.environ['VC_CASE'] != str(case):
                    continue
                tasks.append((c, case, repo, table, a.timeout, t0 + a.deadline))
    tasks.sort(key=lambda t: -getattr(t[0], 'weight', 1))
    try:
        for c in contracts:
            repo.mod(c.mod)
    except Exception as e:
        print(json.dumps(dict(error='cannot read the source: {}'.format(e), functions=[], lemmas=[], wall=time.time() - t0)))
        return
    res = pmap(verify_one, tasks, a.jobs)
    need = set(x for r in res for x in r['lemmas'])
    done, lem = set(), []
    while need - done:
        todo = sorted(need - done)
        done |= need
        out = pmap(lemma_task, [(n, a.timeout) for n in todo], a.jobs)
        lem += out
        for r in out:
            need |= set(r['lemmas'])
    if a.v:
        for r in res + lem:
            bad = [o for o in r['obs'] if o[1] != 'proved']
            print('{:60s} {:4d} obligations {:3d} open  {:6.1f}s (solver {:.1f}) paths {}'.format(r['name'], len(r['obs']), len(bad), r['secs'], r['solver'], r.get('paths', '')))
            for o in sorted(r['obs'], key=lambda o: -o[2])[:3]:
                if o[2] > 2:
                    print('      slow {:.1f}s {} {}'.format(o[2], o[3], o[0]))
            for o in bad[:12]:
                print('      {} {} {:.1f}s {}\n          {}'.format(o[1], o[0], o[2], o[3], o[4][:int(os.environ.get('W', 600))]))
        print('wall', round(time.time() - t0, 1))
    else:
        print(json.dumps(dict(functions=res, lemmas=lem, wall=round(time.time() - t0, 2))))


if __name__ == '__main__':
    main()
