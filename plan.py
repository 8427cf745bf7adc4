"""What each check runs: model-checking configurations and families of scenarios, and which properties a
departure from the specification is about."""

CALLBACKS = {'C01', 'C02', 'C03', 'C04', 'C10', 'C11', 'C13', 'C18'}
# what an iteration or a query is about
EACH = {'bb': {'C05'}, 'bA': {'C24'}, 'C': {'C08', 'C10', 'C11'}, 'sq': {'C06'}, 'shq': {'C07'}}


def world_cats(e, before, reach):
    k = e.get('e')
    frames = {r[0] for r in reach}
    phases = {r[1] for r in reach}
    if k in ('panic', 'hang', 'crash') or not reach:
        return set()  # whatever was being checked
    if k == 'ob':
        parts = [p for _, _, p in reach if len(p) == 6]
        if not parts:
            return set()
        about = [{'C08', 'C13'}, {'C13'}, {'C10', 'C11', 'C13'}, {'C10', 'C11', 'C13'}, {'C14', 'C10', 'C13'},
                 {'C24', 'C18', 'C10', 'C11', 'C01', 'C03'}]
        best = max(sum(p) for p in parts)
        res = set()
        for p in parts:
            if sum(p) == best:
                for j, ok in enumerate(p):
                    if not ok:
                        res |= about[j]
        return res
    if k in ('run', 'post'):
        return {'C09'} | (CALLBACKS if k == 'run' and 'step' in frames else set())
    if k == 'vis':
        kind = next((x['k'] for x in reversed(before) if x['e'] == 'each'), '')
        return EACH.get(kind, {'C08'})
    if k in ('sbb', 'pq', 'pn'):
        return {'C05'}
    if k == 'draw':
        return {'C23'}
    if k in ('sq1', 'sf'):
        return {'C06'}
    if k == 'col':
        return {'C04'}
    if k in ('hp', 'hw', 'hq'):
        return {'C02'}
    if k == 'cp':
        return {'C08', 'C10', 'C11', 'C13'} | CALLBACKS
    if k == 'end':
        if phases <= {'drain'}:
            return {'C09'}
        if frames & {'each', 'free'}:
            kind = next((x['k'] for x in reversed(before) if x['e'] == 'each'), '')
            return EACH.get(kind, {'C08'})
        return CALLBACKS | ({'C09'} if 'drain' in phases else set())
    if k == 'cb':
        if any(p == (False,) for _, _, p in reach):
            return {'C04'}
        return CALLBACKS | ({'C09'} if 'drain' in phases else set())
    return set()


def curves_cats(e, before, reach):
    k = e.get('e')
    if k in ('march', 'sm', 'sg'):
        return {'C20'}
    if k == 'mend':
        return {'C20', 'C21'}
    if k in ('pls', 'add', 'sv', 'sc', 'cl'):
        return {'C21'}
    if k in ('hull', 'poly'):
        return {'C22'}
    return set()


# what the parts of a step in Dynamics.tla (StepParts) are about
STEP = [{'C14'}, {'C14', 'C12'}, {'C14', 'C15'}, {'C15', 'C16'}, {'C16'}, {'C16'}, {'C17'}, {'C14'}, {'C17'}, {'C15'}]


def moved(e, before):
    """nothing but setting it moves the position of a body"""
    was = next((x['st'] for x in reversed(before) if 'st' in x), [])
    return any(abs(x[c] - y[c]) > 2 for x, y in zip(was, e.get('st', [])) for c in (2, 3))


def dyn_cats(e, before, reach):
    k = e.get('e')
    if k in ('panic', 'hang', 'crash', 'eof') or not reach:
        return set()
    more = {'C13'} if any(x['e'] == 'op' and x['k'] == 'type' for x in before) else set()
    if k == 'step':
        parts = [p for _, _, p in reach if len(p) == len(STEP)]
        if not parts:
            return {'C14', 'C15', 'C16', 'C17'} | more
        best = max(sum(p) for p in parts)
        res = set()
        for p in parts:
            if sum(p) == best:
                for j, ok in enumerate(p):
                    if not ok:
                        res |= STEP[j]
        return res | more
    if k == 'odd':
        return {'C16'} | more
    if k in ('shape', 'sop') and moved(e, before):
        return {'C12', 'C14'} | more
    if k in ('shape', 'sop', 'f'):
        return {'C12'} | more
    if k == 'draw':
        return {'C23'}
    if k == 'op':
        if e['k'] == 'type':
            return {'C12', 'C13'} | ({'C14'} if moved(e, before) else set())
        return ({'C12', 'C14'} if e['k'] in ('setmass', 'setmoment') else {'C14'}) | more
    if k in ('joint', 'jop'):
        return {'C17'}
    return {'C14'} | more


def det_cats(e, before, reach):
    return set() if e.get('e') in ('panic', 'hang', 'crash') else {'C19'}


def alg_cats(e, before, reach):
    return set() if e.get('e') in ('panic', 'hang', 'crash') else {'C25'}


CATS = {'alg': alg_cats, 'world': world_cats, 'curves': curves_cats, 'dyn': dyn_cats, 'det': det_cats}

W = 'CpTrace'


def world(quick, thorough, **kw):
    return dict({'kind': 'gen', 'family': 'world', 'module': W, 'diag': 'CpDiag.cfg',
                 'quick': {'gen': quick}, 'thorough': {'gen': thorough}}, **kw)


def scale(l, f):
    return [(a, n * f) for a, n in l]


def w(*l):
    return world(list(l), scale(l, 16))


def mc(module, quick, thorough):
    """configurations of the specification to check exhaustively"""
    return {'kind': 'mc', 'module': module, 'quick': quick, 'thorough': thorough}


def replay(*l):
    """(configuration of MCWorld, one of how many histories is replayed, histories told apart per state)"""
    quick = [('MCWorld' + c, every, div) for c, every, div in l]
    thorough = [('MCWorld' + c, 1, 4 if c in ('Ground', 'Types') else 32) for c, _, _ in l]
    return {'kind': 'replay', 'family': 'world', 'module': 'MCWorld', 'traces': W, 'diag': 'CpDiag.cfg', 'label': 'histories',
            'quick': {'hist': quick}, 'thorough': {'hist': thorough}}


def curves(quick, thorough):
    return {'kind': 'gen', 'family': 'curves', 'module': 'CurvesTrace', 'diag': 'CurvesDiag.cfg',
            'quick': {'gen': quick}, 'thorough': {'gen': thorough}}


def dyn(*l):
    return {'kind': 'gen', 'family': 'dyn', 'module': 'DynTrace', 'diag': 'DynDiag.cfg',
            'quick': {'gen': list(l)}, 'thorough': {'gen': scale(l, 16)}}


def det(*l):
    # that the same operations gave different results is the violation, whether or not it happens again
    return {'kind': 'gen', 'family': 'det', 'module': 'DetTrace', 'diag': 'DetDiag.cfg', 'once': True,
            'quick': {'gen': list(l)}, 'thorough': {'gen': scale(l, 16)}}


KINDS = ['pin', 'slide', 'pivot', 'groove', 'spring', 'rlimit', 'ratchet', 'gear', 'motor', 'rspring']

PLAN = {
    'C01': [replay(('Pair', 1, 8), ('Three', 4, 1), ('Wild', 1, 2)),
            w(('', 300), ('calls', 900), ('hash', 300), ('many', 40))],
    'C02': [replay(('Wild', 1, 8)),
            w(('', 400), ('calls', 1000), ('hash', 200))],
    'C03': [replay(('Three', 2, 2), ('Types', 2, 2)),
            w(('move', 700), ('', 200), ('hash', 500), ('shape', 250), ('many', 60))],
    'C04': [w(('col', 700), ('geo', 150), ('shape', 200))],
    'C05': [w(('pt', 500), ('geo', 150), ('shape', 200))],
    'C06': [w(('seg', 500), ('geo', 150), ('shape', 200))],
    'C07': [w(('shq', 300), ('geo', 150), ('shape', 200))],
    'C08': [replay(('Iter', 1, 4)),
            w(('', 600), ('hash', 300), ('sleep', 500))],
    'C09': [replay(('Post', 1, 32), ('Iter', 2, 4)),
            w(('', 400), ('calls', 1000))],
    'C10': [replay(('Sleep', 2, 1)),
            w(('sleep', 1000), ('real', 300), ('hash', 200))],
    'C11': [replay(('Sleep', 4, 1), ('Ground', 24, 1)),
            w(('sleep', 1000), ('', 300), ('calls', 300))],
    'C12': [dyn(('mass', 3000), ('free', 600))],
    'C13': [replay(('Types', 1, 8), ('Ground', 24, 1)),
            dyn(('free', 500), ('mass', 400)), w(('', 600), ('sleep', 700))],
    'C14': [dyn(('free', 2500), ('mass', 600))],
    'C15': [dyn(('island', 2000), ('contact', 500), ('joint', 800))],
    'C16': [dyn(('contact', 2800), ('island', 600))],
    'C17': [dyn(('joint', 1000), *[(k, 250) for k in KINDS])],
    'C18': [replay(('Pair', 1, 8), ('Wild', 1, 1), ('Three', 8, 1), ('Sleep', 4, 1), ('Ground', 24, 1)),
            w(('', 300), ('calls', 500), ('sleep', 500), ('real', 200))],
    'C19': [mc('MCSpaces', ['MCSpaces', '!MCShared'], ['MCSpacesDeep', '!MCShared']),
            det(('world', 200), ('dyn', 120), ('crowd', 60), ('', 60))],
    'C20': [mc('MCCurves', ['MCMarch', 'MCMarch3'], ['MCMarch', 'MCMarch3', 'MCMarchDeep']),
            curves([('grid', 1024), ('tri', 729), ('march', 800)], [('grid', 1024), ('tri', 729), ('march', 40000)])],
    'C21': [mc('MCCurves', ['MCPoly', 'MCLine', 'MCLine2'], ['MCPolyDeep', 'MCLineDeep']),
            curves([('poly', 1200), ('march', 300)], [('poly', 40000), ('march', 10000)])],
    'C22': [mc('MCCurves', ['MCHull'], ['MCHull', 'MCHullDeep']),
            curves([('subsets', 511), ('hull', 1500)], [('subsets', 511), ('hull', 40000)])],
    'C23': [w(('draw', 500)), dyn(('draw', 900))],
    'C24': [replay(('Three', 8, 1), ('Types', 2, 4)),
            w(('', 400), ('sleep', 500), ('real', 500))],
    'C25': [mc('MCAlgebra', ['MCAlgebra'], ['MCAlgebra', 'MCAlgebraDeep']),
            {'kind': 'gen', 'family': 'alg', 'module': 'AlgTrace', 'diag': 'AlgDiag.cfg',
             'quick': {'gen': [('', 4000)]}, 'thorough': {'gen': [('', 200000)]}}],
}

NOTES = {
    '*': 'Every execution explored (randomly generated scenarios of API calls and callbacks, run on the code in /repo) is a '
         'behaviour of the TLA+ specification, decided by TLC, which explores all the choices the specification leaves open. '
         'Trusts the specification, TLC and the recorder in harness/; bounded by the scenarios generated.',
}
