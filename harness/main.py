"""check <property> <quick|thorough>    run one check
   check --replay FILE                  run a stored violation again"""
import importlib
import json
import os
import random
import sys
import time
import traceback

from harness import lib

PROPS = {}
for _mod, _ids in {
    'p_pipe': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C26'],
    'p_vocab': ['C07', 'C08', 'C09'],
    'p_matrix': ['C10', 'C11', 'C12', 'C13'],
    'p_assoc': ['C14', 'C15', 'C16'],
    'p_dep': ['C17', 'C18', 'C23'],
    'p_cbc': ['C19', 'C20', 'C27'],
    'p_conf': ['C21', 'C22', 'C24'],
    'p_tok': ['C25'],
    'p_model': ['C28'],
}.items():
    for _i in _ids:
        PROPS[_i] = _mod


class Ctx:
    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.rng = random.Random('%s-%s' % (prop, seed))
        self.quick = tier == 'quick'
        self.spec_states = self.spec_trans = 0
        self.notes = []

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def generate(self, module, cfg, tag, **kw):
        """behaviours printed by a generating configuration of a specification"""
        r = lib.tlc(self.scratch, module, cfg, **kw)
        if not (r.ok or ('-simulate' in kw.get('extra', ()) and r.sim_ok)):
            raise RuntimeError('generation from %s failed:\n%s' % (module, r.out[-3000:]))
        self.spec_states += r.states
        self.spec_trans += r.transitions
        return r.prints(tag)


class Item:
    """cases to run and how to turn their observations into one trace line"""

    def __init__(self, cases, record, key=None, shown=None):
        self.cases, self.record, self.key = cases, record, key


def known_findings():
    out = {}
    p = os.path.join(lib.VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                o = json.loads(line)
                out.setdefault(o['property'], []).append(o)
    return out


def run_specs(ctx, specs):
    """exhaustive checks of the design: (module, cfg, expectation)"""
    def one(s):
        r = lib.tlc(ctx.scratch, s['module'], s['cfg'], workers=s.get('workers', 1),
                    timeout=s.get('timeout', 800), extra=s.get('extra', ()))
        if s.get('violates'):
            if s['violates'] not in r.violated:
                raise RuntimeError('%s: expected a violation of %s\n%s' % (s['module'], s['violates'], r.out[-2500:]))
        elif not r.ok:
            raise RuntimeError('%s: design check failed\n%s' % (s['module'], r.out[-3500:]))
        return r
    res = lib.parallel([lambda s=s: one(s) for s in specs], n=4)
    info = []
    for s, r in zip(specs, res):
        ctx.spec_states += r.states
        ctx.spec_trans += r.transitions
        info.append({'module': s['module'], 'what': s.get('what', ''), 'states': r.states,
                     'transitions': r.transitions, 'expected': s.get('violates', 'no error')})
    return info


def execute(ctx, mod, items, timeout=None):
    cases, where = [], []
    for it in items:
        where.append((len(cases), len(cases) + len(it.cases)))
        cases.extend(it.cases)
    ex = lib.Executor(ctx.scratch, timeout=timeout or getattr(mod, 'TIMEOUT', 20.0),
                      budget=450 if ctx.quick else 3600)
    obs = ex.run(cases)
    # cases skipped after many blocked ones (or out of time) are not judged
    recs = [it.record(obs[a:b]) if all(o['st'] != 'skip' for o in obs[a:b]) else None
            for it, (a, b) in zip(items, where)]
    groups = {}
    for i, r in enumerate(recs):
        if r is None:
            continue
        groups.setdefault(r['_module'], []).append(i)
    fails, states, trans = {}, 0, 0
    for module, ix in sorted(groups.items()):
        sub = [recs[i] for i in ix]
        hd = {'alphabet': lib.alphabet(sub)}
        f, s, t, _ = lib.trace_check(ctx.scratch, module, hd, sub)
        states += s
        trans += t
        for k, v in f.items():
            fails[ix[k]] = v
    return obs, where, recs, fails, states, trans, len(cases)


def run_check(prop, tier, seed):
    mod = importlib.import_module('harness.' + PROPS[prop])
    scratch = lib.Scratch(prop)
    t0 = time.time()
    try:
        ctx = Ctx(prop, tier, seed, scratch)
        plan = mod.plan(prop, ctx)            # {"items": [...], "specs": [...], "facts": {...}}
        if callable(plan.get('finish')):
            pass
        import threading
        spec_out, spec_err = [], []

        def specs():
            try:
                spec_out.extend(run_specs(ctx, plan.get('specs', [])))
            except Exception as e:
                spec_err.append(e)
        th = threading.Thread(target=specs)
        th.start()
        obs, where, recs, fails, tst, ttr, ncases = execute(ctx, mod, plan['items'])
        th.join()
        if spec_err:
            raise spec_err[0]
        known = known_findings().get(prop, [])
        if os.environ.get('VERIF_TRIAGE'):
            triage(plan['items'], obs, where, fails)
        nviol = 0
        reported = 0
        seen_known = set()
        for i in sorted(fails):
            it = plan['items'][i]
            a, b = where[i]
            unlisted = set()
            for clause in sorted(fails[i]):
                hit = None
                for k in known:
                    if k['key'] == it.key and clause in k['clauses']:
                        hit = k
                if hit is None:
                    unlisted.add(clause)
                else:
                    seen_known.add(json.dumps([hit['key'], hit['what']]))
            if unlisted:
                nviol += 1
                if reported < 5:
                    reported += 1
                    d = os.path.join(lib.VERIF, 'out')
                    os.makedirs(d, exist_ok=True)
                    path = os.path.join(d, '%s-%s.json' % (prop, lib.digest(it.cases)))
                    with open(path, 'w') as f:
                        json.dump({'property': prop, 'clauses': sorted(unlisted), 'cases': it.cases,
                                   'observed': obs[a:b], 'record': recs[i]}, f, indent=1)
                    print('VIOLATION property=%s replay=%s' % (prop, path))
                    print('  broken: %s' % ', '.join(sorted(unlisted)))
        for s in sorted(seen_known):
            key, what = json.loads(s)
            print('KNOWN-FINDING: property=%s %s (%s)' % (prop, what, key))
        samples = []
        step = max(1, len(plan['items']) // 3)
        for i in range(0, len(plan['items']), step)[:3]:
            samples.append({'case': shorten(plan['items'][i].cases[0]), 'observed': shorten(obs[where[i][0]])})
        ev = {
            'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
            'coverage': {
                'states': ctx.spec_states + tst, 'transitions': ctx.spec_trans + ttr,
                'traces_validated_against_impl': sum(1 for r in recs if r is not None),
                'samples': samples,
                'design_checks': spec_out,
                'implementation_runs': ncases,
                'outcomes': {k: sum(1 for o in obs if o['st'] == k) for k in ('ok', 'exc', 'hang', 'bad', 'skip')},
                'facts': plan.get('facts', {}),
            },
            'assumptions': plan.get('assumptions', []),
            'wall_s': round(time.time() - t0, 2), 'violations': nviol,
        }
        if os.environ.get('VERIF_NOEVIDENCE'):
            return 1 if nviol else 0
        os.makedirs(os.path.join(lib.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(lib.VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d runs, %d traces, %d states, %d violations, %.1fs' % (
            prop, tier, ncases, len(recs), ctx.spec_states + tst, nviol, time.time() - t0))
        return 1 if nviol else 0
    finally:
        scratch.close()


def triage(items, obs, where, fails):
    groups = {}
    for i in sorted(fails):
        a, b = where[i]
        e = {o['e'][:150] for o in obs[a:b] if o['e']}
        groups.setdefault((tuple(sorted(fails[i])), tuple(sorted(e))), []).append(i)
    for k, ix in sorted(groups.items(), key=lambda x: -len(x[1])):
        i = min(ix, key=lambda j: len(json.dumps(items[j].cases)))
        print(len(ix), k)
        print('   case', json.dumps(items[i].cases)[:int(os.environ['VERIF_TRIAGE'])])
        print('   obs ', json.dumps(obs[where[i][0]:where[i][1]])[:int(os.environ['VERIF_TRIAGE'])])


def shorten(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + '...'


def replay(path):
    rep = json.load(open(path))
    prop = rep['property']
    mod = importlib.import_module('harness.' + PROPS[prop])
    scratch = lib.Scratch('replay')
    try:
        ctx = Ctx(prop, 'quick', 1, scratch)
        obs = lib.Executor(scratch, nproc=1, timeout=40, hashseed=rep['observed'][0].get('h', 0)).run(rep['cases'])
        print(json.dumps(obs, indent=1)[:4000])
        rec = dict(rep['record'])
        same = obs == rep['observed']
        print('observation %s' % ('is the recorded one' if same else 'differs from the recorded one'))
        if not same and len(rec.get('runs', ())) == len(obs):        # judge what was observed now
            rec['runs'] = [dict(r, st=o['st'], e=o['e'], v=o['v'] if o['v'] is not None else [])
                           for r, o in zip(rec['runs'], obs)]
        elif not same:
            return 0
        fails = lib.trace_check(scratch, rec['_module'], {'alphabet': lib.alphabet([rec])}, [rec])[0]
        print('broken: %s' % ', '.join(sorted(fails.get(0, ()))))
        return 1 if fails else 0
    finally:
        scratch.close()


def main(argv):
    if argv[:1] == ['--replay']:
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        return run_check(prop, tier, seed)
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
