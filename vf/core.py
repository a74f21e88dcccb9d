"""Shared machinery: building the simulator, running scenarios, judging traces with TLC."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TLAJ = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NCPU = min(8, os.cpu_count() or 4)


class Broken(Exception):
    """The machinery itself cannot run (for instance the sources do not compile)."""


class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='vf-')
        self.n = 0

    def path(self, name):
        self.n += 1
        return os.path.join(self.dir, '%03d-%s' % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def build(work, zones=False):
    """Builds the simulator from /repo's working tree; returns the binary.  With zones, the sources are
    instrumented to notice accesses beyond variables instead of being interruptible at every access."""
    d = os.path.join(work.dir, 'z' if zones else 'b')
    os.makedirs(d, exist_ok=True)
    syms = subprocess.run([VERIF + '/sim/mksyms.sh'], capture_output=True, text=True, check=True).stdout
    with open(work.dir + '/syms', 'w') as f:
        f.write(syms)
    env = dict(os.environ, SIM_CACHE=os.path.join(work.dir, 'b'))
    r = subprocess.run([VERIF + '/sim/build.sh', d, REPO] + (['zones'] if zones else []), capture_output=True, text=True, env=env)
    if r.returncode:
        raise Broken('building the simulator failed:\n' + r.stdout[-2000:] + r.stderr[-4000:])
    return d + '/sim'


def scen_text(sid, lines):
    return '=== %s\n%s\n' % (sid, '\n'.join(lines))


def run_sim(work, sim, scens, procs=NCPU):
    """scens: list of (id, [lines]). Returns the traces in order of the scenarios."""
    if not scens:
        return []
    src = work.path('scen')
    with open(src, 'w') as f:
        for sid, lines in scens:
            f.write(scen_text(sid, lines))
    procs = max(1, min(procs, len(scens)))
    outs = [work.path('tr%d' % i) for i in range(procs)]
    ps = [subprocess.Popen([sim, src, outs[i], '%d/%d' % (i, procs)], stderr=subprocess.PIPE) for i in range(procs)]
    for p in ps:
        err = p.stderr.read()
        if p.wait():
            raise Broken('simulator failed (%s): %s' % (p.returncode, err[-600:]))
    res = [None] * len(scens)
    for i, o in enumerate(outs):
        with open(o, errors='replace') as f:
            for j, l in enumerate(f):
                res[i + j * procs] = json.loads(l)
        os.unlink(o)
    os.unlink(src)
    if any(x is None for x in res):
        raise Broken('simulator lost a run')
    return res


# ---- TLC ---------------------------------------------------------------------------------

def tla_set(xs):
    return '{' + ', '.join('"%s"' % x for x in sorted(xs)) + '}'


def tlc(work, module, cfg, workers=1, env=None, timeout=800, heap='2g', extra=(), keep=False, files={}):
    d = work.path('tlc')
    os.makedirs(d)
    for f in os.listdir(VERIF + '/spec'):
        if f.endswith('.tla'):
            os.symlink(VERIF + '/spec/' + f, d + '/' + f)
    for name, text in files.items():
        with open(d + '/' + name, 'w') as f:
            f.write(text)
    with open(d + '/run.cfg', 'w') as f:
        f.write(cfg)
    cmd = ['java', '-Djava.io.tmpdir=' + d, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-Xmx' + heap, '-Xss16m', '-cp', TLAJ, 'tlc2.TLC',
           '-config', 'run.cfg', '-metadir', d + '/meta', '-workers', str(workers), '-deadlock', '-noGenerateSpecTE', '-nowarning',
           *extra, module]
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=d, capture_output=True, text=True, env=e, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b'').decode(errors='replace') if isinstance(x.stdout, bytes) else (x.stdout or '')
        shutil.rmtree(d, ignore_errors=True)
        return 'timeout', out
    if not keep:
        shutil.rmtree(d, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


STATS = re.compile(r'(\d+) states generated.*?, (\d+) distinct states')


def judge(work, module, focus, traces, verbose=False, extra_consts=''):
    """Checks normalised traces (dicts) with a trace module. Returns (accepted set, states, details)."""
    if not traces:
        return set(), 0, {}
    cfg = 'CONSTANTS\n Focus = %s\n Verbose = %s\n%sSPECIFICATION TSpec\nINVARIANT Report\n' % (
        tla_set(focus), 'TRUE' if verbose else 'FALSE', extra_consts)
    parts = min(NCPU, max(1, len(traces) // 60)) if not verbose else 1
    files, maps = [], []
    # balance by length
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]['ev']))
    for p in range(parts):
        idx = order[p::parts]
        fn = work.path('tr.ndjson')
        with open(fn, 'w') as f:
            for i in idx:
                f.write(json.dumps(traces[i], separators=(',', ':')) + '\n')
        files.append(fn)
        maps.append(idx)
    accepted, states, det = set(), 0, {}

    def one(p):
        return tlc(work, module, cfg, env={'TRACES': files[p]}, heap='3g')
    with cf.ThreadPoolExecutor(parts) as ex:
        for p, (rc, out) in enumerate(ex.map(one, range(parts))):
            m = STATS.findall(out)
            if rc != 0 or not m:
                raise Broken('TLC failed on %s (%s):\n%s' % (module, rc, out[-1200:]))
            states += int(m[-1][1])
            for t in re.findall(r'<<"DONE", (\d+)>>', out):
                accepted.add(maps[p][int(t) - 1])
            if verbose:
                det['at'] = max([int(x) for x in re.findall(r'<<"AT", \d+, (\d+)>>', out)] or [1])
                det['clauses'] = re.findall(r'<<"CLAUSE", "([^"]*)">>', out)
                det['out'] = out
    for f in files:
        os.unlink(f)
    return accepted, states, det


def explain(work, module, focus, trace, extra_consts=''):
    """Re-checks one rejected trace alone. None when it is accepted after all."""
    acc, _, det = judge(work, module, focus, [trace], verbose=True, extra_consts=extra_consts)
    if acc:
        return None
    at = det['at']
    ev = trace['ev'][at - 1] if at <= len(trace['ev']) else {}
    cl = det['clauses'][-6:]
    seen = []
    for c in cl:
        if c not in seen:
            seen.append(c)
    return {'at': at, 'event': ev, 'clauses': seen}


def tkey(tr):
    return hashlib.sha1(json.dumps(tr, sort_keys=True).encode()).hexdigest()
