"""Machinery shared by the checks: build, generate (TLC), replay (plh), validate (TLC)."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('VERIF_REPO', '/repo')     # overridden only while developing
EVID = os.path.join(VERIF, 'evidence')
NPROC = min(8, os.cpu_count() or 8)


class NoAnswer(Exception):
    """The check could not be carried out (neither held nor violated)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          errors='replace', **kw)


SANFLAGS = '-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=nonnull-attribute,vla-bound'


def build(target='plh', san=False):
    """plh: the pipeline; plc: the components; san: with address and undefined-behaviour checks."""
    b = BUILD + ('-san' if san else '')
    args = ['make', '-s', '-j%d' % NPROC, '-C', HARNESS, 'R=' + REPO, 'B=' + b, target]
    if san:
        args.append('SAN=' + SANFLAGS)
    r = sh(args)
    if r.returncode != 0:
        raise NoAnswer('the harness does not build:\n' + r.stdout[-3000:])
    return os.path.join(b, target)


def tla(v):
    """A Python value as a TLA+ expression."""
    if isinstance(v, bool):
        return 'TRUE' if v else 'FALSE'
    if isinstance(v, (int,)):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return '<<' + ', '.join(tla(x) for x in v) + '>>'
    raise ValueError(v)


_calls = 0


def spec_dir(tmp, name):
    """A scratch directory holding the modules (TLC writes next to them)."""
    d = os.path.join(tmp, name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


JAVA = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2']


def tlc(d, module, cfg, args, env=None, heap='1500m', timeout=840):
    with open(os.path.join(d, module + '.cfg'), 'w') as f:
        f.write(cfg)
    cp = '/opt/veriftools/tla/tla2tools.jar'
    jars = [os.path.join('/opt/veriftools/tla', x) for x in os.listdir('/opt/veriftools/tla') if x.endswith('.jar')]
    cp = ':'.join(sorted(jars, reverse=True))
    e = dict(os.environ)
    e.update(env or {})
    cmd = JAVA + ['-Djava.io.tmpdir=' + d, '-Xmx' + heap, '-Xss64m', '-cp', cp, 'tlc2.TLC', '-noGenerateSpecTE',
                  '-config', module + '.cfg'] + args + [module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors='replace', timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoAnswer('TLC ran out of time on ' + module)
    return r.returncode, r.stdout


def states_of(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m[-1][0]), int(m[-1][1])
    m = re.findall(r'Progress: (\d+) states checked', out)
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


# ------------------------------------------------------------------ generate
def generate(tmp, module, consts, n, seed, depth=400, shards=NPROC):
    """n behaviours of a generator module; each prints one case."""
    stats = {'gen_states': 0}
    global _calls
    _calls += 1
    call = _calls

    def one(i):
        k = n // shards + (1 if i < n % shards else 0)
        if k <= 0:
            return []
        d = spec_dir(tmp, 'gen%d_%s_%d' % (call, module, i))
        out = os.path.join(d, 'cases.ndjson')
        mc = 'MCG%d' % i
        body, cfg = [], ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE', 'CONSTANTS']
        for name, val in consts.items():
            if isinstance(val, (list, tuple)):
                body.append('c%s == %s' % (name, tla(val)))
                cfg.append('  %s <- c%s' % (name, name))
            else:
                cfg.append('  %s = %s' % (name, tla(val)))
        cfg.append('  OutFile = ' + json.dumps(out))
        with open(os.path.join(d, mc + '.tla'), 'w') as f:
            f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (mc, module, '\n'.join(body)))
        rc, o = tlc(d, mc, '\n'.join(cfg) + '\n',
                    ['-simulate', 'num=%d' % k, '-seed', str(seed * 1000 + i + 1), '-depth', str(depth),
                     '-workers', '1'], heap='800m')
        if not os.path.exists(out):
            raise NoAnswer('generator %s produced nothing:\n%s' % (module, o[-2000:]))
        stats['gen_states'] += states_of(o)[0]
        return [json.loads(json.loads(x)) for x in open(out)]

    cases = []
    with cf.ThreadPoolExecutor(shards) as ex:
        for r in ex.map(one, range(shards)):
            cases += r
    return cases, stats


def enumerate_all(tmp, module, consts):
    """All initial states of a generator module as cases."""
    d = spec_dir(tmp, 'all_' + module)
    out = os.path.join(d, 'cases.ndjson')
    body, cfg = [], ['SPECIFICATION Spec', 'CHECK_DEADLOCK FALSE', 'CONSTANTS']
    for name, val in consts.items():
        if isinstance(val, (set, frozenset)):
            cfg.append('  %s = {%s}' % (name, ', '.join(tla(x) for x in sorted(val))))
        else:
            cfg.append('  %s = %s' % (name, tla(val)))
    cfg.append('  OutFile = ' + json.dumps(out))
    rc, o = tlc(d, module, '\n'.join(cfg) + '\n', ['-workers', '1'])
    if rc != 0 or not os.path.exists(out):
        raise NoAnswer('generator %s fails:\n%s' % (module, o[-2000:]))
    return [json.loads(json.loads(x)) for x in open(out)]


# -------------------------------------------------------------------- replay
def replay(tmp, plh, cases, timeout=60, name='r', procs=NPROC, env=None):
    """Run the cases in the implementation; returns one record per case, in order."""
    if not cases:
        return []
    d = os.path.join(tmp, name)
    os.makedirs(d, exist_ok=True)
    inp = os.path.join(d, 'in.ndjson')
    with open(inp, 'w') as f:
        for i, c in enumerate(cases):
            c = dict(c)
            c['_i'] = i
            f.write(json.dumps(c) + '\n')
    procs = min(procs, len(cases))
    e = dict(os.environ)
    e.update(env or {})
    ps = []
    for i in range(procs):
        sc = os.path.join(d, 'scratch%d' % i)
        os.makedirs(sc, exist_ok=True)
        ps.append(subprocess.Popen([plh, inp, os.path.join(d, 'out%d' % i), str(timeout), sc, str(i), str(procs)],
                                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=e))
    for p in ps:
        p.wait()
    recs = {}
    for i in range(procs):
        p = os.path.join(d, 'out%d' % i)
        if os.path.exists(p):
            for line in open(p):
                r = json.loads(line)
                if r['status'] in ('exit', 'crash') and ('Not enough memory' in r.get('err', '') or 'Cannot allocate memory' in r.get('err', '')):
                    r['status'] = 'timeout'      # elimination outgrew the memory limit: out of resources
                recs[r['in'].pop('_i')] = r
    shutil.rmtree(d, ignore_errors=True)
    if len(recs) != len(cases):
        raise NoAnswer('the harness lost %d of %d cases' % (len(cases) - len(recs), len(cases)))
    return [recs[i] for i in range(len(cases))]


# ------------------------------------------------------------------ validate
def validate(tmp, module, recs, name='v', workers=NPROC, env=None, timeout=840):
    """Check records against a trace module.  Returns ([(rec index, v, [obligation])], stats).

    A record on which TLC cannot evaluate the specification is left out and counted as unjudged."""
    stats = {'states': 0, 'transitions': 0, 'unjudged': []}
    results = []
    shards = min(workers, max(1, len(recs)))

    def one(i):
        idx = list(range(i, len(recs), shards))
        res, st, bad, gens = [], 0, [], 0
        for attempt in range(6):
            if not idx:
                break
            d = spec_dir(tmp, '%s_%s_%d' % (name, module, i))
            tf = os.path.join(d, 'trace.ndjson')
            with open(tf, 'w') as f:
                for k in idx:
                    f.write(json.dumps(recs[k]) + '\n')
            e = {'TRACE': tf}
            e.update(env or {})
            rc, o = tlc(d, module, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n',
                        ['-workers', '1', '-deadlock'], env=e, heap='2500m', timeout=timeout)
            got, done = [], set()
            for line in o.splitlines():
                if line.startswith('"RES '):
                    r = json.loads(json.loads(line)[4:])
                    got.append((idx[r['c'] - 1], r.get('v', 1), r['res']))
            g, s = states_of(o)
            shutil.rmtree(d, ignore_errors=True)
            if rc == 0 and 'No error has been found' in o:
                res += got
                st += s
                gens += g
                break
            m = re.findall(r'^/\\ c = (\d+)', o, re.M)
            if not m:
                raise NoAnswer('TLC failed on %s:\n%s' % (module, o[-3000:]))
            k = idx[int(m[-1]) - 1]
            if os.environ.get('VERIF_DEBUG'):
                sys.stderr.write('UNJUDGED %d\n%s\n' % (k, '\n'.join(
                    x[:300] for x in o.splitlines() if not x.startswith('"RES') and not x.startswith('/\\'))[-3000:]))
            bad.append(k)
            idx.remove(k)
        else:
            raise NoAnswer('TLC cannot evaluate %s on many records' % module)
        return res, st, gens, bad

    with cf.ThreadPoolExecutor(shards) as ex:
        for res, st, gens, bad in ex.map(one, range(shards)):
            results += res
            stats['states'] += st
            stats['transitions'] += gens
            stats['unjudged'] += bad
    return results, stats


def digest(case):
    c = {k: v for k, v in case.items() if not k.startswith('_')}
    return hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


def brief(case, rec):
    """A case as it was explored, for the evidence file."""
    out = rec.get('out') if isinstance(rec.get('out'), dict) else {}
    r = {'case': {k: v for k, v in case.items() if k != 'before'}, 'end': rec['status'], 'ret': out.get('ret')}
    s = json.dumps(r)
    return r if len(s) < 6000 else {'case': json.dumps(r['case'])[:6000], 'end': r['end'], 'ret': r['ret']}
