"""One check: runs the parts registered for a property, prints the verdict, writes the evidence."""
import hashlib, json, os, random, re, sys, time, traceback
from . import core, gen, norm

VERIF = core.VERIF
ALL = ["C%02d" % i for i in range(1, 25)]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.work = core.Work()
        self.violations = []      # (clause, replay path)
        self.findings = []
        self.cov = dict(evaluations=0, distinct_nontrivial=0, states=0, transitions=0, traces_validated_against_impl=0)
        self.samples = []
        self.rules = []
        self.parts = []
        self._sim = self._zsim = None
        self.zones = False        # use the build which notices accesses beyond variables
        self.known = load_known()

    @property
    def quick(self):
        return self.tier == 'quick'

    def sim(self):
        if self._sim is None:
            self._sim = core.build(self.work)
        if self.zones:
            if self._zsim is None:
                self._zsim = core.build(self.work, True)
            return self._zsim
        return self._sim

    def elapsed(self):
        return time.time() - self.t0

    def rnd(self, *salt):
        return random.Random('%s/%s/%s' % (self.seed, self.prop, '/'.join(map(str, salt))))

    def add(self, k, n):
        self.cov[k] = self.cov.get(k, 0) + n

    def violation(self, clause, text, detail=''):
        """text: what reproduces it (a scenario, or a description)."""
        for sig, what in self.known.get(self.prop, []):
            if sig == clause or sig == hashlib.sha1(text.encode()).hexdigest()[:12]:
                if what not in self.findings:
                    self.findings.append(what)
                return
        d = VERIF + '/evidence/replay'
        os.makedirs(d, exist_ok=True)
        name = '%s-%s-%s.txt' % (self.prop, re.sub(r'\W+', '_', clause)[:40], hashlib.sha1(text.encode()).hexdigest()[:8])
        with open(d + '/' + name, 'w') as f:
            f.write(text if text.endswith('\n') else text + '\n')
            if detail:
                f.write('\n' + ''.join('# %s\n' % x for x in detail.split('\n')))
        self.violations.append((clause, 'evidence/replay/' + name))


def load_known():
    """known-findings: lines 'known: property=<id> sig=<sig> <what fails>' suppress exactly that
    signature; 'fixed: ...' lines suppress nothing."""
    r = {}
    try:
        for l in open(VERIF + '/known-findings.txt'):
            m = re.match(r'known: property=(\S+) sig="([^"]*)" (.*)', l.strip())
            if m:
                r.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    except OSError:
        pass
    return r


# ---- campaigns of simulated runs, judged by a trace specification -----------------------------

def judge_runs(ctx, module, focus, scens, normf, rule_events=None, stats=None, consts='', keep=None):
    """Runs scenarios, has TLC judge the distinct traces. Returns number of rejected."""
    sim = ctx.sim()
    trs = core.run_sim(ctx.work, sim, scens)
    if keep is not None:
        keep += trs
    seen = {}
    takes_lines = normf.__code__.co_argcount == 2
    for i, t in enumerate(trs):
        n = normf(scens[i][1], t) if takes_lines else normf(t)
        k = core.tkey(n)
        if k in stats['seen']:
            continue
        stats['seen'].add(k)
        seen[k] = (i, n)
    L = list(seen.values())
    ctx.add('evaluations', len(trs))
    if not L:
        return 0
    acc, st, _ = core.judge(ctx.work, module, focus, [n for _, n in L], extra_consts=consts)
    ctx.add('states', st)
    ctx.add('transitions', sum(len(n['ev']) for _, n in L))
    for i, n in L:
        ctx.add('traces_validated_against_impl', 1)
        if not rule_events or any(e['e'] in rule_events for e in n['ev']):
            ctx.add('distinct_nontrivial', 1)
            if len(ctx.samples) < 3:
                ctx.samples.append(dict(scenario=scens[i][1], events=len(n['ev']), accepted=True))
        for e in n['ev']:
            stats['ev'][e['e']] = stats['ev'].get(e['e'], 0) + 1
    rej = [L[j] for j in range(len(L)) if j not in acc]
    rej.sort(key=lambda x: len(x[1]['ev']))
    bad = 0
    for i, n in rej[:12]:
        e = core.explain(ctx.work, module, focus, n, extra_consts=consts)
        if e is None:
            continue
        bad += 1
        clause = (e['clauses'] or [e['event'].get('e', '?')])[-1]
        if any(c == clause for c, _ in ctx.violations):
            continue
        tr = ['%3d %s' % (k + 1, json.dumps(x)) for k, x in enumerate(n['ev'][:e['at']])]
        ctx.violation(clause, core.scen_text(*scens[i]),
                      'module %s, focus %s\nclause: %s\nrejected at event %d: %s\n%s' % (
                          module, ','.join(focus), '; '.join(e['clauses']), e['at'], json.dumps(e['event']), '\n'.join(tr)))
    return bad


def corpus(props, mode='proxy'):
    """Committed scenarios: files whose first line names the properties they concern."""
    out = []
    d = VERIF + '/corpus'
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if not f.endswith('.scen'):
            continue
        lines = open(d + '/' + f).read().split('\n')
        m = re.match(r'# props: (.*)', lines[0])
        tags = m.group(1).split() if m else []
        if set(tags) & set(props) or 'all' in tags:
            lines = [l for l in lines if l and not l.startswith('#')]
            m = [l.split()[1] for l in lines if l.startswith('mode ')]
            if (m[0] if m else 'proxy') == mode:
                out.append((f[:-5], lines))
    return out


def proxy_campaign(ctx, plans, runs, secs, focus=None, rule_events=None, name='proxy', batch=1200, top=4800):
    """plans: list of (weight, profile, cfg, k) from which scenarios are drawn."""
    focus = focus or [ctx.prop]
    stats = dict(seen=set(), ev={})
    t0 = time.time()
    done = 0
    first = corpus([ctx.prop])
    b = 0
    while True:
        if first:
            scens, first = first, []
        else:
            if done >= runs or time.time() - t0 > secs:
                break
            rnd = ctx.rnd(name, b)
            if b:
                batch = min(2 * batch, top)
            b += 1
            scens = []
            while len(scens) < batch:
                w, prof, cfg, k = rnd.choices(plans, [p[0] for p in plans])[0]
                g = gen.G(rnd, prof, n=cfg.get('n'), length=cfg.get('len'))
                c = {x: (rnd.choice(y) if isinstance(y, list) else y) for x, y in cfg.items() if x not in ('n', 'len')}
                scens += gen.with_policies(rnd, [('%s%d.%d' % (name, b, len(scens)), g.scenario(**c))], k)
        done += len(scens)
        ctx.zones = b % (2 if ctx.prop == 'C22' else 4) == 0 and b > 0
        bad = judge_runs(ctx, 'ProxyTrace', focus, scens, norm.proxy, rule_events, stats)
        ctx.zones = False
        if ctx.violations:
            break
    ctx.parts.append(dict(part=name, runs=done, distinct_traces=len(stats['seen']), events=stats['ev'], wall_s=round(time.time() - t0, 1)))


def model(ctx, module, cfg, secs, workers=4, what='', heap='6g', extra=(), files={}):
    """Model checks a configuration of the specification itself."""
    t0 = time.time()
    rc, out = core.tlc(ctx.work, module, cfg, workers=workers, timeout=secs, heap=heap, extra=extra, files=files)
    m = core.STATS.findall(out)
    if rc == 'timeout':
        g = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct', out)
        gen_, dis = [int(x.replace(',', '')) for x in g[-1]] if g else (0, 0)
    elif rc == 0 and m:
        gen_, dis = int(m[-1][0]), int(m[-1][1])
    else:
        # the design itself is at fault, or the machinery: neither depends on the code
        raise core.Broken('model checking %s failed (%s):\n%s' % (module, rc, out[-3000:]))
    ctx.add('states', dis)
    ctx.add('transitions', gen_)
    ctx.parts.append(dict(part='model ' + (what or module), complete=rc == 0, states=dis, transitions=gen_, wall_s=round(time.time() - t0, 1)))


def finish(ctx, level, rule):
    cov = dict(ctx.cov)
    cov['rule'] = rule
    cov['samples'] = ctx.samples or ['none']
    cov['parts'] = ctx.parts
    ev = dict(property=ctx.prop, tier=ctx.tier, seed=ctx.seed, level=level, coverage=cov,
              wall_s=round(ctx.elapsed(), 1), violations=len(ctx.violations))
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % ctx.prop, 'w') as f:
        json.dump(ev, f, indent=1)
    for w in ctx.findings:
        print('KNOWN-FINDING: property=%s %s' % (ctx.prop, w))
    for c, p in ctx.violations:
        print('VIOLATION property=%s replay=%s  (%s)' % (ctx.prop, p, c))
    print('%s %s: %d runs, %d distinct, %d traces judged, %d states, %.0f s, %d violation(s)' % (
        ctx.prop, ctx.tier, cov['evaluations'], cov['distinct_nontrivial'], cov['traces_validated_against_impl'], cov['states'], ctx.elapsed(), len(ctx.violations)))
    return 1 if ctx.violations else 0


def main(prop, tier):
    from . import props
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ctx = Ctx(prop, tier, seed)
    try:
        p = props.PROPS[prop]
        p['run'](ctx)
        return finish(ctx, p.get('level', 'model_checking'), p['rule'])
    except core.Broken as e:
        print('BROKEN %s: %s' % (prop, e))
        return 2
    except Exception:
        print('BROKEN %s: %s' % (prop, traceback.format_exc()))
        return 2
    finally:
        ctx.work.close()
