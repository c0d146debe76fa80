"""Common entry point for checks: tiers, evidence, violations, known findings, replay."""
import os, sys, json, time, hashlib, argparse, traceback, gc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', VERIF)
_OUT = os.fdopen(os.dup(1), 'w')
_ERR = os.fdopen(os.dup(2), 'w')


def out(*a):
    print(*a, file=_OUT, flush=True)


def note(*a):
    print(*a, file=_ERR, flush=True)


def quiet():
    """The code under test prints a lot; keep our stdout for verdict lines only."""
    dn = open(os.devnull, 'w')
    sys.stdout = dn
    if not os.environ.get('VERIF_DEBUG'):
        sys.stderr = dn


def known_findings(prop):
    """list of (key, text): lines 'KNOWN property=<id> key=<key> <text>'."""
    res = {}
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            line = line.strip()
            if not line.startswith('finding: property=%s ' % prop):
                continue
            rest = line.split(' ', 2)[2]
            key, text = rest.split(' ', 1)
            assert key.startswith('key=')
            res[key[4:]] = text
    except FileNotFoundError:
        pass
    return res


class Check:
    def __init__(self, prop, level, rule=None):
        self.prop = prop
        self.level = level
        self.rule = rule
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        ap = argparse.ArgumentParser()
        ap.add_argument('--tier')
        ap.add_argument('--replay')
        ap.add_argument('--nproc', type=int)
        ap.add_argument('--part')
        self.args = ap.parse_args()
        if self.args.tier:
            self.tier = self.args.tier
        if self.args.nproc:
            os.environ['VERIF_NPROC'] = str(self.args.nproc)
        self.violations = []
        self.assumptions = []
        self.known_hit = {}
        self.cov = {'samples': []}
        self.parts = []
        self.known = known_findings(prop)
        quiet()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- recording -------------------------------------------------------
    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s)

    def violation(self, msg, detail=None, replay=None):
        self.violations.append({'msg': msg, 'detail': detail, 'replay': replay})

    def known_or_violation(self, key, msg, detail=None, replay=None):
        if key in self.known:
            self.known_hit[key] = msg
        else:
            self.violation(msg, detail, replay)

    def explore(self, name, scen, cfgs, max_cost=0, deadline_s=None, **kw):
        if self.args.part and self.args.part != name:
            return None
        from explore import explore, run_one, Violation, HUNG
        if self.args.replay:
            r = json.load(open(self.args.replay))
            if r.get('part') != name:
                return None
            for cfg in cfgs:
                if json.loads(json.dumps(cfg)) == r['cfg']:
                    ch, ctx, viol = run_one(scen, cfg, tuple(r['choices']))
                    for t in ctx.trace:
                        out('  ', t)
                    out('replay result:', viol[0] if viol else 'no violation')
                    if viol and viol[1]:
                        out(viol[1])
                    if viol:
                        self.violation(viol[0], viol[1], r)
            return None
        t = time.time()
        st, complete = explore(scen, list(cfgs), max_cost, deadline_s=deadline_s, **kw)
        self.add('states', len(st.states))
        self.add('transitions', st.steps)
        self.add('traces_validated_against_impl', st.runs)
        self.add('evaluations', st.runs)
        for k, v in st.known.items():
            if k in self.known:
                self.known_hit[k] = v
            else:
                self.violation(v, None, None)
        part = {'part': name, 'configs': len(list(cfgs)), 'executions': st.runs, 'steps': st.steps,
                'distinct_states': len(st.states), 'distinct_outcomes': len(st.outcomes),
                'max_cost': max_cost if not callable(max_cost) else 'per-config', 'exhausted_bound': complete,
                'wall_s': round(time.time() - t, 2)}
        for k, v in st.extra.items():
            part[k] = v
        self.parts.append(part)
        self.add('distinct_nontrivial', len(st.outcomes))
        for s in st.samples[:2]:
            self.sample(s)
        for v in st.violations[:3]:
            # a violation must reproduce before it is believed
            cfg = v['cfg']
            viol = run_one(scen, cfg, tuple(v['choices']))[2] if v['msg'] != HUNG else (HUNG,)
            v['reproduced'] = viol is not None and viol[0] == v['msg']
            v['part'] = name
            self.violation('[%s] %s' % (name, v['msg']), v['detail'], v)
        note('%s/%s: runs=%d steps=%d states=%d outcomes=%d complete=%s %.1fs' % (
            self.prop, name, st.runs, st.steps, len(st.states), len(st.outcomes), complete, time.time() - t))
        return st

    def enum_done(self, name, n, distinct, wall=None, **kw):
        """Record an exhaustive input enumeration."""
        part = {'part': name, 'evaluations': n, 'distinct_nontrivial': distinct}
        part.update(kw)
        self.parts.append(part)
        self.add('evaluations', n)
        self.add('distinct_nontrivial', distinct)
        note('%s/%s: evaluations=%d distinct=%d' % (self.prop, name, n, distinct))

    # -- finish ------------------------------------------------------------
    def finish(self):
        prop = self.prop
        wall = round(time.time() - self.t0, 2)
        cov = dict(self.cov)
        cov['parts'] = self.parts
        cov['exhaustive'] = all(p.get('exhausted_bound', True) for p in self.parts)
        if self.rule:
            cov['rule'] = self.rule
        if self.level == 'model_checking':
            for k in ('states', 'transitions', 'traces_validated_against_impl'):
                cov.setdefault(k, 0)
        else:
            for k in ('states', 'transitions', 'traces_validated_against_impl'):
                cov.pop(k, None) if not cov.get(k) else None
            cov.setdefault('evaluations', 0)
            cov.setdefault('distinct_nontrivial', 0)
        if not cov['samples']:
            cov['samples'] = ['(none)']
        ev = {'property': prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': wall, 'violations': len(self.violations)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        if not self.args.replay and not self.args.part and not cov.get('evaluations') and not self.violations:
            raise RuntimeError('nothing was explored')
        if not self.args.replay:
            os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
            with open(os.path.join(OUT, 'evidence', prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1, default=str)
        for k, msg in sorted(self.known_hit.items()):
            out('KNOWN-FINDING: property=%s %s' % (prop, self.known[k]))
        if self.violations:
            rd = os.path.join(OUT, 'replays')
            os.makedirs(rd, exist_ok=True)
            for i, v in enumerate(self.violations[:5]):
                path = os.path.join(rd, '%s-%d.json' % (prop, i))
                rep = v['replay'] if isinstance(v['replay'], dict) else {'replay': v['replay']}
                rep = dict(rep)
                rep['msg'] = v['msg']
                rep['detail'] = v['detail']
                with open(path, 'w') as f:
                    json.dump(rep, f, indent=1, default=str)
                out('VIOLATION property=%s replay=%s' % (prop, path))
                out('  ' + str(v['msg'])[:2000])
            _OUT.flush()
            bye(1)
        out('OK property=%s tier=%s wall=%.1fs %s' % (prop, self.tier, wall,
            ' '.join('%s=%s' % (k, cov[k]) for k in ('states', 'transitions', 'evaluations', 'distinct_nontrivial') if k in cov)))
        _OUT.flush()
        bye(0)


CLEAN = []         # what a check wants done before it ends


def bye(code):
    for f in CLEAN:
        f()
    os._exit(code)


def main(fn):
    """Run a check body; an internal error of the harness is exit 2."""
    try:
        fn()
    except SystemExit:
        raise
    except BaseException:
        note(traceback.format_exc())
        bye(2)
