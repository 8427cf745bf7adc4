#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by model checking the TLA+ specification and by validating
executions of the real library against it.  See DESIGN.md."""
import hashlib, json, os, shutil, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import vlib
from plan import PLAN, CATS

KEEP_REPLAYS = 3


def trace_module(part):
    return part.get('traces', part['module'])


def known(prop):
    """findings listed for this property: {script digest: text}"""
    res = {}
    f = os.path.join(vlib.VERIF, 'known-findings.json')
    for e in json.load(open(f)) if os.path.exists(f) else []:
        if e.get('property') == prop and 'script' in e:
            res[e['script']] = e['what']
    return res


def digest(script):
    d = json.loads(script)
    d.pop('id', None)
    return hashlib.sha256(json.dumps(d, sort_keys=True).encode()).hexdigest()[:16]


def categories(fam, wd, trace, part):
    """what part of the behaviour a rejected trace violates, as categories of plan.CATS"""
    i, ev, reach, out = vlib.diagnose(wd, trace, trace_module(part), part.get('diag', trace_module(part) + 'Diag.cfg'))
    e = ev[i - 1] if i <= len(ev) else {'e': 'eof'}
    return CATS[fam](e, ev[:i - 1], reach), i, e


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    os.makedirs(vlib.BUILD, exist_ok=True)
    wd = tempfile.mkdtemp(prefix='check-%s-' % prop, dir=vlib.BUILD)
    try:
        rc = check(prop, tier, seed, wd, t0)
    except vlib.CheckError as x:
        print('ERROR: %s' % x)
        rc = 2
    finally:
        shutil.rmtree(wd, ignore_errors=True)
    return rc


def check(prop, tier, seed, wd, t0):
    parts = PLAN[prop]
    harness = vlib.build(wd)
    cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'events_validated': 0,
           'model': [], 'scenarios': {}, 'samples': []}
    viol, notes, known_hit = [], [], set()
    kn = known(prop)
    for part in parts:
        cfg = part.get(tier, part.get('quick'))
        if cfg is None:
            continue
        if part['kind'] == 'mc':
            # the specification itself, exhaustively within small constants
            for c in cfg:
                refute, c = c[0] == '!', c.lstrip('!')  # a model that must not satisfy its invariants
                r = vlib.tlc(wd, part['module'], c + '.cfg', {'TRACES': os.devnull}, timeout=part.get('timeout', 600 if tier == 'quick' else 7200))
                if r['rc'] is None:
                    raise vlib.CheckError('model checking of %s ran out of time' % c)
                if refute:
                    if r['rc'] == 0 or 'is violated' not in r['out']:
                        raise vlib.CheckError('the specification does not refute %s' % c)
                    cov['model'].append({'config': c, 'refuted': True, 'distinct_states': r['distinct']})
                    continue
                if r['rc'] != 0:
                    raise vlib.CheckError('the specification itself fails its invariants (%s):\n%s' % (c, r['out'][-3000:]))
                cov['states'] += r['distinct']
                cov['transitions'] += r['states']
                cov['model'].append({'config': c, 'distinct_states': r['distinct'], 'transitions': r['states'], 'exhaustive': r['left'] == 0})
            continue
        fam = part['family']
        scripts = []
        if part['kind'] == 'replay':
            # the histories the specification allows within small constants, replayed on the real library
            def one(c):
                return c, vlib.histories(wd, part['module'], c[0], c[1], c[2], seed, 700 if tier == 'quick' else 7200)
            with ThreadPoolExecutor(4) as ex:
                done = list(ex.map(one, cfg['hist']))
            for c, (r, found) in done:
                if r['rc'] is None:
                    raise vlib.CheckError('model checking of %s ran out of time' % c[0])
                if r['rc'] != 0:
                    raise vlib.CheckError('the specification itself fails its invariants (%s):\n%s' % (c[0], r['out'][-3000:]))
                cov['states'] += r['distinct']
                cov['transitions'] += r['states']
                cov['model'].append({'config': c[0], 'distinct_states': r['distinct'], 'transitions': r['states'],
                                     'exhaustive': r['left'] == 0, 'histories_replayed': len(found)})
                scripts += found
        for arg, n in cfg.get('gen', []):
            for k in range(0, n, 4000):
                scripts += vlib.gen(harness, fam, seed + 7919 * (k // 4000), min(4000, n - k), arg)
        if not scripts:
            continue
        step = part.get('batch', 1600)
        for b in range(0, len(scripts), step):
            batch = scripts[b:b + step]
            traces = vlib.run(harness, batch)
            bad, st, tr = vlib.validate(wd, traces, trace_module(part), part.get('cfg', trace_module(part) + '.cfg'))
            cov['states'] += st
            cov['transitions'] += tr
            cov['traces_validated_against_impl'] += len(traces)
            nev = sum(t.count('"e":') for t in traces)
            cov['events_validated'] += nev
            key = part.get('label', fam)
            d = cov['scenarios'].setdefault(key, {'traces': 0, 'events': 0})
            d['traces'] += len(traces)
            d['events'] += nev
            if len(cov['samples']) < 3 and traces:
                t = min(traces, key=lambda t: abs(len(t) - 3000))
                cov['samples'].append({'scenario': json.loads(t)['id'], 'events': json.loads(t)['ev'][:25]})
            if bad:
                bs = set(bad)
                pairs = sorted([(s, t) for s, t in zip(batch, traces) if json.loads(s)['id'] in bs], key=lambda p: len(p[1]))
                judge(prop, fam, part, harness, wd, pairs, kn, known_hit, viol, notes)
                if viol:
                    break
        if viol:
            break
    cov['traces_followed_in_part'] = len(vlib.CUT)
    cov['traces_not_decided_in_time'] = len(vlib.LATE)
    for d in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[d]))
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': vlib.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': len(viol)}
    os.makedirs(os.path.join(vlib.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(vlib.VERIF, 'evidence', prop + '.json'), 'w') as o:
        json.dump(ev, o, indent=1)
    for n in notes:
        print('NOTE: ' + n)
    for path, why in viol:
        print(why)
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('%s %s: %d states, %d traces (%d events) of the real library validated, %.0f s'
          % (prop, tier, cov['states'], cov['traces_validated_against_impl'], cov['events_validated'], time.time() - t0))
    return 1 if viol else 0


def judge(prop, fam, part, harness, wd, pairs, kn, known_hit, viol, notes):
    """rejected traces: are they reproducible, listed as known, and about this property?"""
    module = trace_module(part)
    for n, (script, first) in enumerate(pairs[:12]):
        sid = json.loads(script)['id']
        if digest(script) in kn:
            known_hit.add(digest(script))
            continue
        again = vlib.run(harness, [script])
        bad, _, _ = vlib.validate(wd, again, module, part.get('cfg', module + '.cfg'), procs=1)
        if not bad and part.get('once') and '"e":"hang"' not in first and '"e":"crash"' not in first and '"e":"panic"' not in first:
            again = [first]
        elif not bad:
            notes.append('%s was rejected once and accepted when repeated' % sid)
            continue
        cats, i, e = categories(fam, wd, again[0], part)
        if cats and prop not in cats:
            notes.append('%s departs from the specification at event %d (%s), which is about %s' % (sid, i, e.get('e'), ' '.join(sorted(cats))))
            continue
        d = os.path.join(vlib.BUILD, 'replay', prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s.json' % sid)
        with open(path, 'w') as o:
            json.dump({'property': prop, 'script': json.loads(script), 'trace': json.loads(again[0]),
                       'rejected_at': i, 'event': e,
                       'how': 'build/harness run < script; tlc %s with TRACES=<trace file>' % module}, o)
        viol.append((path, '%s: the execution is not a behaviour of the specification from event %d on: %s'
                     % (sid, i, json.dumps(e)[:600])))
        if len(viol) >= KEEP_REPLAYS:
            return


if __name__ == '__main__':
    sys.exit(main())
