"""Machinery shared by the checks: build the harness from /repo's working tree, generate and run
scenarios on the real library, validate the recorded traces with TLC, model-check the specification."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO_DIR', '/repo')  # elsewhere only to try changes out
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class CheckError(Exception):
    """something that is not a verdict about the code"""


def goenv():
    e = dict(os.environ)
    e['HOME'] = '/root'
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    e.update(GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off', GOFLAGS='-mod=mod', CGO_ENABLED='0',
             GOPATH='/root/go', GOCACHE='/root/.cache/go-build', GOSUMDB='off')
    return e


def build(workdir, tags=''):
    """the harness, linked with /repo as it is now"""
    out = os.path.join(workdir, 'harness' + (tags and '-' + tags))
    mod = os.path.join(workdir, 'go.mod')
    with open(os.path.join(VERIF, 'harness', 'go.mod')) as f, open(mod, 'w') as o:
        o.write(f.read().replace('=> /repo', '=> ' + REPO))
    cmd = ['go', 'build', '-modfile', mod, '-o', out] + (['-tags', tags] if tags else []) + ['.']
    p = subprocess.run(cmd, cwd=os.path.join(VERIF, 'harness'), env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError('the harness does not build against /repo:\n' + p.stderr[-4000:])
    return out


def gen(harness, fam, seed, n, arg=''):
    p = subprocess.run([harness, 'gen', fam, str(seed), str(n), arg], capture_output=True, text=True)
    if p.returncode != 0:
        raise CheckError('generator failed: ' + p.stderr[-2000:])
    return [l for l in p.stdout.split('\n') if l]


def _run_seq(harness, scripts):
    """run scripts one after another, restarting the process after a crash or a hang"""
    out = []
    todo = scripts
    while todo:
        p = subprocess.run([harness, 'run'], input='\n'.join(todo) + '\n', capture_output=True, text=True)
        got = [l for l in p.stdout.split('\n') if l]
        if p.returncode == 2 and 'fatal error' not in p.stderr and 'goroutine' not in p.stderr:
            raise CheckError('harness: ' + p.stderr[-2000:])
        if len(got) > len(todo):
            raise CheckError('harness wrote more traces than scripts')
        out += got
        if len(got) < len(todo):  # the process died in the next scenario
            bad = todo[len(got)]
            q = subprocess.run([harness, 'run'], input=bad + '\n', capture_output=True, text=True)
            alone = [l for l in q.stdout.split('\n') if l]
            if alone:
                out.append(alone[0])
            else:
                out.append(json.dumps({'id': json.loads(bad)['id'], 'ev': [{'e': 'crash'}],
                                       'err': q.stderr[:300]}, separators=(',', ':')))
            todo = todo[len(got) + 1:]
        else:
            todo = []
    return out


def run(harness, scripts, jobs=8):
    if not scripts:
        return []
    chunks = [scripts[i::jobs] for i in range(jobs)]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda c: _run_seq(harness, c) if c else [], chunks))
    out = [None] * len(scripts)
    for i, r in enumerate(res):
        out[i::jobs] = r
    return out


def tlc(workdir, module, cfg, env=None, workers=8, heap='6g', timeout=None, extra=()):
    meta = tempfile.mkdtemp(prefix='tlc', dir=workdir)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update(env)
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', JARS, 'tlc2.TLC', '-noGenerateSpecTE',
           '-workers', str(workers), '-metadir', meta, '-config', os.path.join(SPEC, cfg)] + list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b''
        return {'out': o.decode() if isinstance(o, bytes) else o, 'rc': None, 'states': 0, 'distinct': 0}
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout + p.stderr
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    st, di, left = map(int, m[-1]) if m else (0, 0, -1)
    return {'out': out, 'rc': p.returncode, 'states': st, 'distinct': di, 'left': left}


def histories(workdir, module, cfg, every, diverse, seed, timeout):
    """model-checks a configuration exhaustively and returns TLC's result and the histories it printed, as scenarios"""
    base = open(os.path.join(SPEC, cfg + '.cfg')).read()
    for k, v in (('Every', every), ('Diverse', diverse), ('Seed', seed)):
        base = re.sub(r'\b%s = \d+' % k, '%s = %d' % (k, v), base)
    f = os.path.join(workdir, cfg + '.cfg')
    with open(f, 'w') as o:
        o.write(base)
    r = tlc(workdir, module, f, workers=1, heap='5g', timeout=timeout)  # one worker: the same histories every time
    res = []
    for n, l in enumerate(re.findall(r'^"SCRIPT (.*)"$', r['out'], re.M)):
        d = json.loads(json.loads('"' + l + '"'))
        d['id'] = '%s-%d-%d' % (cfg, seed, n)
        res.append(json.dumps(d, separators=(',', ':')))
    r['out'] = re.sub(r'^"SCRIPT .*$', '', r['out'], flags=re.M)
    return r, res


def split(traces, n):
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
    bins, size = [[] for _ in range(n)], [0] * n
    for i in order:
        k = size.index(min(size))
        bins[k].append(traces[i])
        size[k] += len(traces[i])
    return [b for b in bins if b]


START = time.time()
LATE = set()  # traces TLC could not decide in time
CUT = set()  # traces followed only up to a step with too many ties


def validate(workdir, traces, module, cfg, procs=4, workers=2, heap='5g', timeout=None):
    """returns (ids rejected, states, transitions)"""
    timeout = timeout or (240 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 3000)
    if not traces:
        return [], 0, 0
    procs = min(procs, max(1, len(traces) // 8))
    bins = split(traces, procs)

    def one(k):
        f = os.path.join(workdir, 'traces%d.ndjson' % k)
        with open(f, 'w') as o:
            o.write('\n'.join(bins[k]) + '\n')
        r = tlc(workdir, module, cfg, {'TRACES': f}, workers=workers if procs > 1 else 8, heap=heap, timeout=timeout)
        os.unlink(f)
        return r
    with ThreadPoolExecutor(procs) as ex:
        res = list(ex.map(one, range(len(bins))))
    acc, st, tr = set(), 0, 0
    for k, r in enumerate(res):
        if r['rc'] is None:
            # one trace may take too long; it must not keep the others from being judged
            a, s, t, late = unstick(workdir, bins[k], module, cfg, heap, r)
            acc |= a | late
            LATE.update(late)
            st += s
            tr += t
            continue
        if r['rc'] != 0:
            # an evaluation error on the trace of a broken implementation must not hide the verdict:
            # find the traces that cannot be evaluated
            a, s, t = isolate(workdir, bins[k], module, cfg, heap)
            acc |= a
            st += s
            tr += t
            continue
        acc |= set(re.findall(r'<<"ACC", "([^"]*)">>', r['out']))
        CUT.update(re.findall(r'<<"CUT", \d+, "([^"]*)">>', r['out']))
        st += r['distinct']
        tr += r['states']
    ids = [tid(t) for t in traces]
    return [i for i in ids if i not in acc], st, tr


def tid(t):
    return re.match(r'\{"id":\s*"([^"]*)"', t).group(1)


def unstick(workdir, traces, module, cfg, heap, r):
    """the traces TLC can judge in time: (accepted, states, transitions, those it cannot)"""
    acc = set(re.findall(r'<<"ACC", "([^"]*)">>', r['out']))
    rest = [t for t in traces if tid(t) not in acc]
    st = tr = 0
    late = set()
    n = min(8, len(rest))

    def part(b):
        if time.time() > START + (700 if os.environ.get('VERIF_TIER', 'quick') == 'quick' else 40000):
            return b, None
        f = tempfile.mktemp(prefix='late', dir=workdir)
        with open(f, 'w') as o:
            o.write('\n'.join(b) + '\n')
        q = tlc(workdir, module, cfg, {'TRACES': f}, workers=1, heap='3g', timeout=60)
        os.unlink(f)
        return b, q
    work = split(rest, n)
    while work:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(part, work))
        work = []
        for b, q in res:
            if q is None:
                late |= {tid(t) for t in b}
                continue
            if q['rc'] not in (0, None):
                a, s, t = isolate(workdir, b, module, cfg, heap)
                acc |= a
                continue
            acc |= set(re.findall(r'<<"ACC", "([^"]*)">>', q['out']))
            st += q['distinct']
            tr += q['states']
            if q['rc'] is None:
                b = [t for t in b if tid(t) not in acc]
                if len(b) <= 1:
                    late |= {tid(t) for t in b}
                else:
                    work += split(b, min(4, len(b)))
    return acc, st, tr, late


ERRORS = set()  # traces TLC cannot evaluate


def isolate(workdir, traces, module, cfg, heap):
    if len(ERRORS) >= 8:  # enough of them
        return {tid(t) for t in traces}, 0, 0
    f = tempfile.mktemp(prefix='iso', dir=workdir)
    with open(f, 'w') as o:
        o.write('\n'.join(traces) + '\n')
    r = tlc(workdir, module, cfg, {'TRACES': f}, workers=2, heap=heap)
    os.unlink(f)
    if r['rc'] == 0:
        return set(re.findall(r'<<"ACC", "([^"]*)">>', r['out'])), r['distinct'], r['states']
    if len(traces) == 1:
        # an error while evaluating a single trace: TLC reached something the specification gives no meaning to
        if 'evaluating the nested' in r['out'] or 'TLC threw an unexpected exception' in r['out'] or 'Error:' in r['out']:
            if 'OutOfMemory' in r['out'] or 'Parsing or semantic' in r['out'] or 'parse' in r['out'].lower()[:2000] and 'Parse Error' in r['out']:
                raise CheckError('TLC: ' + r['out'][-3000:])
            ERRORS.add(tid(traces[0]))
            return set(), r['distinct'], r['states']
        raise CheckError('TLC: ' + r['out'][-3000:])
    if 'Parsing or semantic' in r['out']:
        raise CheckError('TLC: ' + r['out'][-3000:])
    h = len(traces) // 2
    a1, s1, t1 = isolate(workdir, traces[:h], module, cfg, heap)
    a2, s2, t2 = isolate(workdir, traces[h:], module, cfg, heap)
    return a1 | a2, s1 + s2, t1 + t2


def diagnose(workdir, trace, module, cfg):
    """how far the specification follows a rejected trace: (index of the event it cannot explain, events,
    [(frame, phase, observation parts)] of the states reached there, TLC's output)"""
    f = os.path.join(workdir, 'diag.ndjson')
    with open(f, 'w') as o:
        o.write(trace + '\n')
    r = tlc(workdir, module, cfg, {'TRACES': f}, workers=1, timeout=300)
    os.unlink(f)
    ev = json.loads(trace)['ev']
    at = re.findall(r'<<\s*"AT",\s*(\d+),\s*"(\w*)",\s*"(\w*)",\s*<<([^>]*)>>\s*>>', r['out'])
    i = max([int(a[0]) for a in at] or [1])
    reach = {(a[1], a[2], tuple(x.strip() == 'TRUE' for x in a[3].split(',') if x.strip())) for a in at if int(a[0]) == i}
    return i, ev, sorted(reach), r['out']


ASSUMPTIONS = [
    'TLC evaluates the specification correctly',
    'the Go toolchain and the harness report the calls, callbacks and results of the library faithfully',
    'the specification is exact within the ranges generated (integer coordinates, exact rotations); predicates a '
    'floating point implementation decides by comparing equal numbers may go either way',
]

