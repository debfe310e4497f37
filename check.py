#!/usr/bin/env python3
"""check.py Cnn [--replay FILE]   -- decides one property of the library in /repo with the TLA+ specification.

1. TLC checks the property's models exhaustively (small constants).
2. Cases (enumerated, generated by TLC from a model, or chosen with VERIF_SEED) run against the library, which records
   what it does.
3. TLC checks that every record is a behaviour of the specification.
Exit 0: everything explored conforms. Exit 1: "VIOLATION property=<id> replay=<path>". Exit 2: the machinery failed.
"""
import json, os, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import run, props

def owned(clauses, own):
    always = ('hang', 'crash', 'snap.error')
    return sorted(c for c in clauses if c.startswith(always) or own is None or c.startswith(tuple(own)))

def short(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + '...'

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = props.PROPS[prop]
    ctx = run.Ctx(prop, tier, seed)
    t0 = time.time()
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    replay_path = os.path.join(ev, 'replay_%s.json' % prop)
    try:
        replay = json.load(open(sys.argv[3])) if len(sys.argv) > 3 and sys.argv[2] == '--replay' else None
        pool = ThreadPoolExecutor(3)
        models = [] if replay else [pool.submit(ctx.model, m, c, **k) for m, c, k in P.models(tier)]
        cases = replay['cases'] if replay else P.cases(ctx)
        for i, c in enumerate(cases):
            c['id'] = c.get('id') or '%s-%d' % (prop, i)
        bad, known, skipped = {}, {}, 0
        findings = props.findings(prop)
        by_module = {}
        t1 = time.time()
        recorded = ctx.drive(cases)
        t2 = time.time()
        original = {c['id']: c for c in cases}
        for c in recorded:
            by_module.setdefault(props.TR[c['kind']], []).append(c)
            skipped += bool(c.get('skipped'))
        verdicts = {}
        for module, cs in by_module.items():
            verdicts.update(ctx.validate(module, cs))
        t3 = time.time()
        others = {}
        for c in recorded:
            v = verdicts.get(c['id'])
            if not v:
                continue
            mine = owned(v[2], P.own)
            if not mine:
                others[c['id']] = v
                continue
            f = next((f for f in findings if props.matches(f, original[c['id']], v)), None)
            if f: known.setdefault(f['id'], []).append(c['id'])
            else: bad[c['id']] = (v[0], v[1], mine, c)
        for m in models:
            m.result()
        for f in findings:
            if f['id'] in known:
                print('KNOWN-FINDING: property=%s %s' % (prop, f['what']))
        sample = [{'case': short(original[c['id']], 600), 'verdict': 'accepted' if verdicts.get(c['id']) is None else str(verdicts[c['id']][:2])}
                  for c in recorded[:: max(1, len(recorded) // 4)][:4]]
        judged = [c for c in recorded if c['id'] in verdicts]
        cov = {'states': ctx.states + sum(m['states'] for m in ctx.models),
               'transitions': ctx.transitions + sum(m['transitions'] for m in ctx.models),
               'traces_validated_against_impl': len(judged),
               'trace_steps': sum(len(c.get('ops', [0])) for c in judged),
               'distinct_cases': len({json.dumps({k: v for k, v in original[c['id']].items() if k != 'id'}, sort_keys=True) for c in judged}) if judged else 0,
               'models': ctx.models, 'samples': sample, 'rejected': len(bad), 'rejected_for_other_properties': len(others),
               'skipped_after_hangs': skipped, 'what': P.what,
               'seconds': {'library': round(t2 - t1, 1), 'traces': round(t3 - t2, 1)}}
        json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
                   'assumptions': P.assumptions, 'wall_s': round(time.time() - t0, 1), 'violations': len(bad)},
                  open(os.path.join(ev, prop + '.json'), 'w'), indent=1)
        for i, v in list(others.items())[:3]:
            print('note: %s deviates outside this property: %s' % (i, sorted(v[2])[:3]))
        if bad:
            first = sorted(bad, key=lambda i: (len(json.dumps(original[i])), i))
            if not replay:
                json.dump({'property': prop, 'cases': [original[i] for i in first[:5]], 'rejections': {i: [bad[i][0], bad[i][1], bad[i][2]] for i in first[:5]},
                           'recorded': [bad[i][3] for i in first[:5]]}, open(replay_path, 'w'), indent=1)
            for i in first[:3]:
                print('%s: step %d (%s): %s' % (i, bad[i][0], bad[i][1], '; '.join(bad[i][2])[:800]))
                print('   case: ' + short(original[i], 700))
            print('%d of %d cases are no behaviour of the specification' % (len(bad), len(judged)))
            print('VIOLATION property=%s replay=%s' % (prop, os.path.relpath(replay_path, VERIF)))
            return 1
        if not judged:
            raise run.Broken('nothing was judged')
        print('%s: %d cases conform; %d states (%.1fs: library %.1fs, TLC on traces %.1fs)' % (prop, len(judged), cov['states'], time.time() - t0, t2 - t1, t3 - t2))
        return 0
    except run.Broken as e:
        print('BROKEN: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        print('BROKEN')
        return 2
    finally:
        ctx.close()

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
