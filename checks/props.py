"""Which campaigns decide which property, and in what depth."""
import os
import lib

ALL = ('default notile par innerpar tinnerpar multipar pmultipar tile tilenoopt l2tile l2par nodiamond fulldiam '
       'nofuse tnofuse maxfuse tmaxfuse smartfuse nodepbound coeff1 flic autots rar ft0 quietdbg debug moredebug ' + 'mix ' * 8).split()
TILED = ('default tinnerpar multipar tile tilenoopt l2tile l2par nodiamond fulldiam tnofuse tmaxfuse smartfuse '
         'nodepbound coeff1 ' + 'mix ' * 4).split()
PAR = 'default par innerpar tinnerpar multipar pmultipar l2par nodiamond nofuse maxfuse tmaxfuse mix mix mix'.split()
CHAIN = {'NStmts': [3, 4, 4, 5], 'Dims': [1, 1, 2], 'Families': ['chain'], 'NPars': [0, 1, 1]}
CYCLE = {'NStmts': [1, 2, 2, 3], 'Dims': [1, 2, 2, 2, 3], 'Families': ['cycle'], 'NPars': [0, 1, 1]}
FORK = {'NStmts': [2, 2, 2, 3], 'Dims': [2, 2, 2, 3], 'Families': ['fork'], 'NPars': [0, 1, 1, 1, 1]}
FOLD = {'NStmts': [1, 1, 1, 2, 2], 'Dims': [1, 2, 2, 2, 2, 3], 'Families': ['fold'], 'NPars': [0, 1, 1, 1, 1, 2], 'Plainness': 80, 'Apis': ['iss']}
WAVY = 'default multipar default multipar l2par nodiamond tmaxfuse smartfuse mix'.split()
MANY = {'NStmts': [10, 11, 12, 14], 'Dims': [0, 1, 1, 1, 1, 1], 'Families': ['chain', 'chain', 'uniform', 'mem'], 'NPars': [0, 1]}
TS1, TS2, TS3 = [2, 3] * 9, [3, 2, 4, 2] + [2] * 14, [4, 3, 2, 5, 3, 2] * 3


def gen(run, n, profiles=ALL, **kw):
    c = {'NStmts': [1, 1, 1, 2, 2, 2, 2, 2, 3, 3, 4], 'Dims': [0, 1, 1, 2, 2, 2, 2, 2, 2, 3, 3], 'ProfileNames': profiles,
         'Families': ['mem', 'mem', 'mem', 'uniform', 'affine', 'cone'], 'NPars': [0, 0, 1, 1, 1, 1, 2, 2, 3],
         'TileFiles': [[], TS1, TS2, TS1, TS3, TS1, [3, 2]], 'MaxDeps': 12, 'Plainness': 60, 'Apis': ['transform', 'acc'], 'Histories': [0], 'Modes': ['plain'],
         'Structures': ['no']}
    c.update(kw)
    cases, st = lib.generate(run.tmp, 'ProgGen', c, n, run.seed + 7919 * kw.get('_s', 0))
    run.details.setdefault('generated', 0)
    run.details['generated'] += len(cases)
    return cases


def size(run, quick, thorough):
    return max(8, int((quick if run.tier == 'quick' else thorough) * float(os.environ.get('VERIF_SCALE', '1'))))


def pipe(obligations, profiles, keep, nq=1000, nt=12000, mix=True, extra=(), **kw):
    def f(run):
        n = size(run, nq, nt)
        step = 3000
        for b in range(0, n, step):
            m = min(step, n - b)
            np = {'NPars': kw['NPars']} if 'NPars' in kw else {}
            a, b2 = (m // 5, m // 8) if mix else (0, 0)
            cases = (gen(run, m - a - b2, profiles, **kw) + gen(run, a, profiles, **{**kw, **CHAIN, **np}) +
                     gen(run, b2, profiles, **{**kw, **CYCLE, **np}) + gen(run, m // 20 if mix else 0, profiles, **{**kw, **MANY, **np}) +
                     gen(run, m // 20 if mix else 0, profiles, **{**kw, **FORK, **np}) +
                     gen(run, m // 20 if mix else 0, profiles, **{**kw, **FORK, 'Structures': ['precut'], **np}))
            for share, pr, cs in extra:
                cases += gen(run, m // share, pr, **{**kw, **cs})
            run.seed += 1000003
            run.campaign('random-%d' % (b // step), cases, 'TracePipe', obligations, crash='no-crash', keep=keep)
            if run.violations:
                break
        run.seed -= 1000003 * ((n + step - 1) // step)
    return f


CSTOPS = ('add each inter union copy dup lb ub setv cst simplify simplify adddim addlead remdim swap fm fm fmsmart '
          'fmsmart gauss gauss proj proj isl islmap pure shift rmrow negrow negcst selrow neghalf poshalf eqs mat file '
          'empty empty lexmin lexmin norm best nnz farkas farkas zero univ void mixed ineqs projout projout clb cub').split()

MATOPS = ('dup ident prod addrows addrow addcol remrow remcol zerorow zerocol swaprows swapcols movecol negrow neg rev '
          'fill norm gauss gauss rank rank rank echelon echelon eq par normal gcd').split()


CST = {'Ops': CSTOPS, 'NOps': 8, 'Width': [1, 2, 2, 3], 'Flavours': ['gen', 'gen', 'diff', 'eqs', 'big']}
MAT = {'Ops': MATOPS, 'NOps': 8}
GRAPH = {'Sizes': [2, 3, 4, 5, 6, 7], 'Densities': [10, 20, 30, 50]}


def comp(genmod, consts, tracemod, obligations, nq, nt, crash='no-crash', weights=(1,)):
    """Replay of component histories; consts: one or several constant assignments of the generator."""
    consts = consts if isinstance(consts, list) else [consts]

    def f(run):
        n = size(run, nq, nt)
        step = 6000
        for b in range(0, n, step):
            m = min(step, n - b)
            cases = []
            for j, cs in enumerate(consts):
                c, st = lib.generate(run.tmp, genmod, cs, m // len(consts), run.seed + 31 * j)
                cases += c
            run.seed += 1000003
            run.campaign('histories-%d' % (b // step), cases, tracemod, obligations, crash=crash, target='plc')
            if run.violations:
                break
        run.seed -= 1000003 * ((n + step - 1) // step)
    return f


def driver(run):
    """The driver script: the model with its faults, then every such history on the real script."""
    import scripts
    top = 3 if run.tier == 'quick' else 5
    base = 'CONSTANTS MaxRegions = %d Guarded = TRUE\nSPECIFICATION Spec\nINVARIANTS Original SourceKept AllTransformed\nPROPERTY Stops\nCHECK_DEADLOCK FALSE\n' % top
    run.model('driver', 'Polycc', base)
    cases = lib.enumerate_all(run.tmp, 'PolyccGen', {'MaxRegions': top, 'MaxCmds': 15 * top, 'Signals': {'INT', 'TERM'} if run.tier == 'quick' else {'INT', 'TERM', 'HUP'}})
    cases = [c for c in cases if c['fault']['at'] <= 15 * c['n']]
    run.campaign('driver', cases, 'TracePolycc', ['driver-*'], crash='driver-ends',
                 replayer=lambda cs, nm, tm: scripts.replay(run.tmp, cs, nm))


def splice(run):
    import scripts
    n = size(run, 1500, 20000)
    cases, st = lib.generate(run.tmp, 'InscopGen', {'MaxLines': 4}, n, run.seed)
    run.campaign('splice', cases, 'TraceInscop', ['splice-*'], crash='splice-ends',
                 replayer=lambda cs, nm, tm: scripts.replay(run.tmp, cs, nm))


def memory(run):
    """Replay into an instrumented build: no access outside an object, no undefined arithmetic."""
    n = size(run, 900, 9000)
    step = 3000
    for b in range(0, n, step):
        m = min(step, n - b)
        hist = dict(Apis=['transform', 'acc', 'str', 'remap', 'sched'], Histories=[0, 0, 0, 1])
        cases = (gen(run, m // 2, ALL, **hist) + gen(run, m // 8, ALL, **{**CHAIN, **hist}) +
                 gen(run, m // 8, ALL, **{**CYCLE, **hist}) +
                 gen(run, m // 4, ALL, Structures=['fst', 'precut']) + gen(run, m // 8, ALL, **FOLD))
        run.campaign('pipeline-%d' % (b // step), cases, 'TracePipe', [], crash='memory-safe', keep=[], san=True, timeout=60)
        for gm, tm, cs in (('ConstrGen', 'TraceConstr', CST), ('MatGen', 'TraceMat', MAT), ('GraphGen', 'TraceGraph', GRAPH)):
            c, st = lib.generate(run.tmp, gm, cs, m // 2, run.seed)
            run.campaign('%s-%d' % (gm, b // step), c, tm, [], crash='memory-safe', target='plc', san=True)
        run.seed += 1000003
        if run.violations:
            break


def structure(run):
    """Fusion as asked for: structures given in files, no fusion, maximal fusion."""
    n = size(run, 1200, 14000)
    step = 3000
    obl = ['fst-kept', 'precut-kept', 'fuse-none', 'fuse-max', 'sched-legal', 'sched-total', 'sched-single', 'sched-injective']
    nf = ['nfplain', 'mfplain', 'nofuse', 'tnofuse', 'maxfuse', 'tmaxfuse']
    for b in range(0, n, step):
        m = min(step, n - b)
        two = {'NStmts': [2, 2, 3]}
        cases = (gen(run, m // 3, ALL, Structures=['fst', 'precut']) + gen(run, m // 6, ALL, **{**CHAIN, 'Structures': ['fst', 'fst', 'precut']}) +
                 gen(run, m // 8, nf, NPars=[0, 0, 1], **two) + gen(run, m // 8, ['mfplain', 'maxfuse'], **{**CHAIN, 'NStmts': [2, 3], 'Dims': [1]}) + gen(run, m // 6, nf, **CHAIN) + gen(run, m // 12, nf, **CYCLE))
        run.seed += 1000003
        run.campaign('structure-%d' % (b // step), cases, 'TracePipe', obl, crash='no-crash', keep=['input', 'perm', 'auto'])
        if run.violations:
            break
    run.seed -= 1000003 * ((n + step - 1) // step)


A_SMALL = ('Programs are drawn from the generator specification ProgGen (bounded statements, dimensions, parameter '
           'values); each is decided exactly for the parameter values listed in the case.')


def P(run, must=(), level='model_checking', assumptions=()):
    return {'level': level, 'run': run, 'must': list(must), 'assumptions': [A_SMALL] + list(assumptions)}


def pipeprop(obl, profiles, keep, must=None, **kw):
    return P(pipe(obl, profiles, keep, **kw), must if must is not None else obl)


MEM = {'Families': ['mem'], 'NStmts': [1, 1, 2, 2, 3]}


PROPS = {
    'C23': pipeprop(['band-maximal', 'band-cover', 'tile-levels', 'tile-all'], ALL, ['input', 'dirs', 'sat', 'bands', 'tsd'], nq=900, NPars=[0, 0, 0, 0, 1]),
    'C01': pipeprop(['sched-legal', 'auto-legal'], ALL, ['auto'], nq=1500),
    'C02': pipeprop(['sched-defined', 'sched-samelen', 'sched-single', 'sched-total', 'sched-injective', 'sched-emitted',
                     'auto-injective'], ALL, ['auto', 'final'], nq=1500),
    'C03': pipeprop(['tile-exact', 'tile-unique', 'tile-legal'], TILED, ['tsd']),
    'C04': pipeprop(['par-sound', 'dompar-sound', 'parband-sound'], PAR, ['final', 'loops'], nq=1500),
    'C05': pipeprop(['band-permutable'], TILED, ['bands']),
    'C06': pipeprop(['dir-sound', 'dir-exact', 'sat-sound', 'satvec-sound'], ALL, ['input', 'dirs', 'sat']),
    'C07': pipeprop(['input-stmts', 'input-dom', 'input-deps'], ['notile'], ['input'], must=['input-dom', 'input-deps'],
                    nq=1500),
    'C08': pipeprop(['wave-shape', 'wave-legal', 'wave-parallel', 'wave-gain', 'wave-all', 'intra-perm', 'intra-legal'], TILED, ['wave', 'intra'],
                    extra=[(12, WAVY, {**FORK, 'Structures': ['precut']})]),
    'C09': pipeprop(['sched-legal', 'sched-total', 'sched-single', 'flow-dom', 'flow-complete', 'flow-sound'], ALL + ['lastwr', 'lwcoal', 'coal'] * 3,
                    ['input'], nq=550, Apis=['sched'], mix=False, **MEM),
    'C10': pipeprop(['remap-inverse'], ALL, ['final'], nq=1200, Apis=['remap', 'remap', 'str']),
    'C11': pipeprop(['str-same', 'str-parloops', 'sched-emitted'], ALL, ['final', 'loops'], nq=1000, Apis=['str'], Modes=['cmp']),
    'C12': pipeprop(['history-same'], ALL, [], nq=640, Apis=['transform', 'acc', 'str', 'remap', 'sched'],
                    Histories=[1, 1, 2, 3], Modes=['cmp', 'cmp', 'thr'], mix=False),
    'C13': pipeprop(['sched-found'], [x for x in ALL if x != 'flic'], [], nq=3000, nt=40000, Apis=['transform', 'acc', 'str', 'remap']),
    'C14': P(memory),
    'C15': pipeprop(['first-optimal', 'first-best', 'space-sound', 'space-complete'],
                    'notile par innerpar tile tilenoopt nodiamond nfplain mfplain mfplain'.split(), ['input', 'perm', 'auto'],
                    nq=1000, NPars=[0, 0, 0, 1, 2]),
    'C17': P(driver),
    'C18': P(splice),
    'C16': P(comp('ConstrGen', CST, 'TraceConstr', ['cst-*'], 3000, 40000)),
    'C19': P(comp('GraphGen', GRAPH, 'TraceGraph', ['scc-*', 'cc-*', 'graph-*'], 8000, 100000)),
    'C20': P(comp('MatGen', MAT, 'TraceMat', ['mat-*'], 6000, 60000)),
    'C21': P(structure, ['fst-kept', 'precut-kept', 'fuse-none', 'fuse-max', 'sched-legal']),
    'C24': pipeprop(['iss-pieces', 'iss-once', 'iss-all', 'iss-deps', 'auto-legal', 'auto-injective', 'tile-exact', 'tile-legal',
                     'wave-legal', 'intra-legal', 'par-sound', 'dompar-sound', 'band-permutable', 'dir-sound', 'sat-sound'], ALL,
                    ['iss', 'input', 'auto', 'dirs', 'sat', 'bands', 'tsd', 'wave', 'intra', 'final', 'loops'], nq=900, mix=False,
                    must=['iss-once', 'iss-all', 'iss-deps', 'auto-legal', 'par-sound'], **FOLD),
    'C25': pipeprop(['ujam-loops', 'ujam-points', 'ujam-permutable'], ALL, ['final', 'loops'], nq=900, mix=False, Apis=['acc'],
                    Families=['mem'], NStmts=[1, 1, 2, 2, 3], Dims=[1, 2, 2, 3, 3]),
    'C22': pipeprop(['loops-all', 'loops-par', 'loops-dom', 'loops-domcover', 'loops-inner', 'loops-outer', 'par-complete'], ALL,
                    ['final', 'loops'], nq=1500, NPars=[0, 0, 1, 1, 2]),
}
