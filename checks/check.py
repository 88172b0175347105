#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's working tree.

exit 0: held on everything explored; exit 1: VIOLATION line(s) printed; exit 2: no answer."""
import json, os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
from props import PROPS


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='vp_%s_' % prop)
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.obl = {}           # obligation -> [examined, non-vacuous]
        self.details = {}
        self.violations = []    # (obligation, case, info)
        self.known = []
        self.unjudged = 0
        self.plh = {}
        self.cases_shown = []
        self.keep = None

    def log(self, *a):
        print('[%s %5.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # one replay campaign: generate, replay, validate, confirm
    def campaign(self, name, cases, module, obligations, crash=None, timeout=20, keep=None, env=None, replayer=None,
                 target='plh', san=False):
        """obligations: names (or prefixes ending in *) that decide this property; crash: obligation
        name charged with abnormal ends, or None to leave them to another property; keep: the events
        the trace specification needs for these obligations (None = all)."""
        self.keep = keep
        if replayer is None:
            if (target, san) not in self.plh:
                self.plh[target, san] = lib.build(target, san)
                self.log('built')
            env = {**(env or {}), **({'PLH_NOLIMIT': '1', 'ASAN_OPTIONS': 'detect_leaks=0:detect_odr_violation=0:handle_abort=0'} if san else {})}
            replayer = lambda cs, nm, tm: lib.replay(self.tmp, self.plh[target, san], cs, tm, nm, env=env)
        recs = replayer(cases, name, timeout)
        stat = {}
        for r in recs:
            k = r['status'] + '/' + str(r['out'].get('ret') if isinstance(r.get('out'), dict) else None)
            stat[k] = stat.get(k, 0) + 1
        self.log(name, len(cases), 'cases', stat)
        failed = self._judge(recs, module, obligations, crash, name, count=True)
        if failed:
            again = sorted({i for i, _, _ in failed})
            recs2 = replayer([cases[i] for i in again], name + '_c', timeout * 2)
            f2 = self._judge(recs2, module, obligations, crash, name + '_c', count=False)
            conf = {}
            for i, v, o in f2:
                conf.setdefault(again[i], []).append((v, o))
            for i in again:
                for v, o in conf.get(i, []):
                    self.violations.append((o, cases[i], {'campaign': name, 'module': module, 'v': v,
                                                          'status': recs[i]['status'], 'err': recs[i].get('err', '')}))
            lost = [i for i in again if i not in conf]
            if lost:
                self.log('not confirmed on re-run:', lost)
        for i in range(0, len(cases), max(1, len(cases) // 4)):
            if len(self.cases_shown) < 12:
                self.cases_shown.append(lib.brief(cases[i], recs[i]))
        d = self.details.setdefault(name, {})
        d['cases'] = len(cases)
        d['ends'] = stat
        return recs

    def _judge(self, recs, module, obligations, crash, name, count):
        failed, idx, late = [], [], []
        for i, r in enumerate(recs):
            if r['status'] == 'timeout':
                # The integer solver underneath can take very long on rare inputs; only many such
                # runs say something about the code.
                late.append(i)
            elif r['status'] != 'ok':
                if crash:
                    failed.append((i, 0, crash))
                    if count:
                        self.tally(crash, 1)
            elif isinstance(r.get('out'), dict) and r['out'].get('ret') == 'empty':
                pass
            else:
                idx.append(i)
                if crash and count:
                    self.tally(crash, 1)
        if crash and late and (not count or len(late) > max(3, len(recs) // 50)):
            failed += [(i, 0, 'terminates') for i in late]
        elif count:
            self.unjudged += len(late)
        if not idx or not obligations:
            if count:
                self.cov['traces_validated_against_impl'] += len(idx)
            return failed
        res, st = lib.validate(self.tmp, module, [self.project(recs[i]) for i in idx], name)
        want = lambda n: any(n == o or (o.endswith('*') and n.startswith(o[:-1])) for o in obligations)
        for k, v, obs in res:
            for o in obs:
                if not want(o['n']):
                    continue
                if count:
                    self.tally(o['n'], o['w'])
                if not o['ok']:
                    failed.append((idx[k], v, o['n']))
        if count:
            self.cov['states'] += st['states']
            self.cov['transitions'] += st['transitions']
            self.cov['traces_validated_against_impl'] += len(res)
            self.unjudged += len(st['unjudged'])
            if st['unjudged']:
                self.log('unjudged records:', [idx[k] for k in st['unjudged']][:10])
        return failed

    def project(self, r):
        if self.keep is None or not isinstance(r['out'], dict) or 'ev' not in r['out']:
            return r
        o = dict(r['out'])
        o['ev'] = [e for e in o['ev'] if e['e'] in self.keep]
        return {**r, 'out': o}

    def tally(self, n, w):
        t = self.obl.setdefault(n, [0, 0])
        t[0] += 1
        t[1] += 1 if w > 0 else 0

    def model(self, name, module, cfg, workers=lib.NPROC, heap='6g', expect=None, must=None):
        """Model-check the specification itself; a failure here is a defect of the model, not of the code."""
        d = lib.spec_dir(self.tmp, 'mc_' + name)
        rc, out = lib.tlc(d, module, cfg, ['-workers', str(workers)], heap=heap)
        g, s = lib.states_of(out)
        ok = rc == 0 and 'No error has been found' in out
        if not ok:
            raise lib.NoAnswer('model %s fails: %s' % (name, out[-3000:]))
        self.cov['states'] += s
        self.cov['transitions'] += g
        self.details.setdefault('models', {})[name] = {'distinct_states': s, 'generated': g}
        self.log('model', name, s, 'states')

    def finish(self):
        kf = json.load(open(os.path.join(lib.VERIF, 'known_findings.json')))['findings']
        out = []
        for o, case, info in self.violations:
            hit = None
            for f in kf:
                if f.get('status') != 'known' or self.prop not in f['properties']:
                    continue
                if o in f['obligations'] and lib.digest(case) in f['cases']:
                    hit = f
            if hit:
                self.known.append((hit, o, case))
            else:
                out.append((o, case, info))
        for hid in sorted({h['id'] for h, _, _ in self.known}):
            h = [x for x, _, _ in self.known if x['id'] == hid][0]
            print('KNOWN-FINDING: property=%s %s' % (self.prop, h['what']))
        rdir = os.path.join(lib.EVID, 'replay')
        shown = {}
        for o, case, info in out:
            shown.setdefault(o, []).append((case, info))
        lines = []
        for o, l in shown.items():
            l.sort(key=lambda ci: len(json.dumps(ci[0])))
            case, info = l[0]
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, '%s_%s.json' % (self.prop, o))
            with open(p, 'w') as f:
                json.dump({'property': self.prop, 'obligation': o, 'info': info, 'case': case,
                           'cases_failing': len(l)}, f)
            lines.append('VIOLATION property=%s replay=%s' % (self.prop, p))
            self.log('obligation %s fails on %d case(s)' % (o, len({json.dumps(c, sort_keys=True) for c, _ in l})))
        for x in lines:
            print(x)
        return out

    def evidence(self, level, assumptions, viol):
        self.cov['obligations'] = {k: {'examined': v[0], 'non_vacuous': v[1]} for k, v in sorted(self.obl.items())}
        self.cov['campaigns'] = self.details
        self.cov['unjudged'] = self.unjudged
        self.cov['samples'] = self.cases_shown
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level,
              'coverage': self.cov, 'assumptions': assumptions, 'wall_s': round(time.time() - self.t0, 1),
              'violations': [{'obligation': o, 'case': lib.digest(c)} for o, c, _ in viol[:50]]}
        os.makedirs(lib.EVID, exist_ok=True)
        with open(os.path.join(lib.EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    run = Run(prop, tier, seed)
    p = PROPS[prop]
    try:
        p['run'](run)
        viol = run.finish()
        for o in p.get('must', []):
            if run.obl.get(o, [0, 0])[1] == 0 and not viol:
                run.log('WARNING: obligation %s was never exercised' % o)
        total = run.cov['traces_validated_against_impl'] + run.unjudged
        run.evidence(p['level'], p['assumptions'], viol)
        if not viol and run.unjudged > max(3, total // 10):
            raise lib.NoAnswer('%d of %d records could not be judged' % (run.unjudged, total))
        run.log('done:', 'VIOLATED' if viol else 'held', run.obl)
        return 1 if viol else 0
    except lib.NoAnswer as e:
        print('NO ANSWER:', e)
        return 2
    finally:
        shutil.rmtree(run.tmp, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
