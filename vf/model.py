"""The proxy in a small world: model checking the contract, and replaying behaviours of the model
into the real code.

ProxyMC bounds the world by a budget per kind of event.  ProxyGen writes out behaviours drawn
by TLC's simulator; each becomes a scenario for the simulator: what the world does is done, and
what the proxy does is waited for (`await`), so that the world's next step falls where the
model put it.  The recorded run is judged by ProxyTrace like any other."""
import concurrent.futures as cf
import json, re, time
from . import core, engine, gen, norm

# budgets: what the world may do, and how often
WORLDS = dict(
    login=dict(conn=4, bad=2, second=1, end=2, udp=1, n=2, depth=45),
    churn=dict(conn=5, bad=1, second=2, end=4, n=2, depth=60),
    churn1=dict(conn=4, bad=1, end=3, n=1, depth=45),
    churn3=dict(conn=6, second=2, end=4, udp=2, n=3, depth=80),
    udp=dict(conn=3, second=1, end=2, udp=4, uin=4, n=2, depth=65),
    tcp=dict(conn=1, open=3, data=4, close=2, rdata=4, rend=2, refuse=1, end=1, n=1, depth=75),
    tcp2=dict(conn=2, second=1, open=4, data=3, close=2, rdata=3, rend=2, hang=1, refuse=1, end=1, n=2, depth=85),
    ops=dict(conn=3, open=2, data=1, hang=1, refuse=1, rend=1, drop=2, end=1, shutdown=1, close=1, n=2, depth=75),
    ops1=dict(conn=2, bad=1, udp=1, drop=1, shutdown=1, close=1, end=1, n=1, depth=45),
    reg=dict(conn=3, bad=1, end=2, drop=1, tick=2, shutdown=1, close=1, n=2, reg=1, depth=60),
    reg1=dict(conn=3, end=2, tick=1, drop=1, shutdown=1, close=1, n=1, reg=1, depth=50),
    mix=dict(conn=4, bad=1, second=1, end=2, udp=2, uin=2, open=3, data=2, close=1, rdata=2, rend=1, refuse=1, hang=1, drop=1, shutdown=1, close_=1, n=2, depth=110),
)
GEN = dict(C01=['login', 'churn1'], C02=['login', 'ops1'], C03=['churn', 'churn1'], C04=['churn', 'churn3'], C05=['udp'], C06=['udp'],
           C07=['tcp', 'tcp2'], C08=['tcp', 'tcp2'], C09=['tcp', 'tcp2'], C10=['tcp2', 'udp'], C11=['mix', 'ops'], C12=['ops', 'ops1', 'reg'],
           C13=['reg', 'reg1'], C17=['login'], C21=[], C22=['mix', 'ops'], C23=['churn', 'login'])

# model checking: world, addresses, registered; which specification; seconds (quick, thorough)
SMALL = dict(
    a=(dict(conn=2, bad=1, end=1, second=1), 1, False), b=(dict(conn=2, end=2, udp=1, uin=1), 2, False),
    c=(dict(conn=1, end=1, open=2, data=2, close=1, rdata=1, rend=1), 1, False), d=(dict(conn=2, end=1, drop=1, shutdown=1, close=1, tick=1), 2, True),
    e=(dict(conn=1, end=1, open=2, data=1, rend=1, refuse=1, hang=1, drop=1, shutdown=1), 1, False),
    f=(dict(conn=2, end=1, udp=1), 1, False), g=(dict(conn=1, open=2, close=1, data=1), 1, False), i=(dict(conn=1, end=1, drop=1, shutdown=1, close=1), 1, True),
    j=(dict(conn=3, bad=1, end=2, second=1), 2, False), k=(dict(conn=2, end=1, open=2, rend=1, data=1), 2, False),
)
MC = dict(C01=('f', 'ab'), C02=('a', 'aj'), C03=('f', 'bj'), C04=('f', 'bj'), C05=('f', 'b'), C06=('f', 'b'), C07=('g', 'ce'), C08=('g', 'ck'), C09=('g', 'ck'),
          C10=('g', 'bc'), C11=('i', 'de'), C12=('i', 'de'), C13=('i', 'd'), C23=('a', 'bj'))
MINV = 'Allowed Restful P01 P02 P03 P04 P05 P06 P07 P08 P08b P09 P11 P12 P13 P23'
AINV = 'P01 P02 P03 P04 P05 P06 P07 P08 P08b P12 P13 P23'


def record(d):
    return '[' + ', '.join('%s |-> %d' % x for x in d.items()) + ']'


def cfg(spec, n, reg, rest):
    return ('SPECIFICATION %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Focus <- AllTags\n Verbose = FALSE\n Budget <- Bud\n Addresses = %d\n Reg = %s\n%s'
            % (spec, n, 'TRUE' if reg else 'FALSE', rest))


def check(ctx, name, spec, secs):
    """Model checks one small world, with the design as the proxy (MSpec) or any proxy the contract allows (ASpec)."""
    d, n, reg = SMALL[name]
    mod = '---- MODULE Small ----\nEXTENDS ProxyMC\nBud == %s\n====\n' % record(d)
    engine.model(ctx, 'Small', cfg(spec, n, reg, 'VIEW View\nINVARIANTS %s\n' % (MINV if spec == 'MSpec' else AINV)), secs, workers=4 if ctx.quick else 8,
                 what='%s of %s, %d address(es)%s' % ('the design' if spec == 'MSpec' else 'any proxy allowed', record(d), n, ', registered' if reg else ''),
                 files={'Small.tla': mod})


def modelcheck(ctx):
    q, th = MC.get(ctx.prop, ('', ''))
    for w in q if ctx.quick else th:
        for spec in ('MSpec',) if ctx.quick else ('MSpec', 'ASpec'):
            check(ctx, w, spec, 60 if ctx.quick else 240)


def behaviours(ctx, world, num, seed):
    d = dict(WORLDS[world])
    n, reg, depth = d.pop('n'), d.pop('reg', 0), d.pop('depth')
    if 'close_' in d:
        d['close'] = d.pop('close_') + d.get('close', 0)
    mod = '---- MODULE Some ----\nEXTENDS ProxyGen\nBud == %s\n====\n' % record(d)
    parts = 4

    def one(i):
        return core.tlc(ctx.work, 'Some', cfg('GSpec', n, reg, ' Depth = %d\nINVARIANTS Out\n' % depth), workers=1, heap='1g', timeout=300, files={'Some.tla': mod},
                        extra=('-simulate', 'num=%d' % (num // parts), '-depth', str(depth), '-seed', str(seed * 10 + i)))
    out = []
    with cf.ThreadPoolExecutor(parts) as ex:
        for rc, text in ex.map(one, range(parts)):
            out += [x.replace('\\"', '"') for x in re.findall(r'"BEH (\[.*\])"', text)]
    if not out:
        raise core.Broken('no behaviours of the model:\n' + text[-1500:])
    return n, reg, [json.loads(x) for x in dict.fromkeys(out)]


def scenario(rnd, log, n, reg, tight):
    """One behaviour as a scenario.  tight: how many of the proxy's steps are waited for."""
    out = ['mode proxy', 'cfg n %d' % n, 'cfg pw %s' % rnd.choice(['Secret1', 'PUBLIC']), 'cfg rnd 0', 'cfg deny ^N0CALL$']
    if reg:
        out += ['cfg reg My Proxy', 'cfg comment x']
    out += ['api ' + f for f in ('init', 'conf', 'open', 'start', 'accept')] + ['settle']
    seen = {}
    opens, mode, ipk = {}, {}, {}
    for x in log:
        if x[0] == 'tconn':
            mode[x[2], x[3]] = x[4]
    calls = rnd.choice([['W1AW', 'K2ABC']] + gen.ALIKE)
    addr = lambda c, i: '192.168.%d.%d' % (c, i)
    for x in log:
        k = x[0]
        w = None
        if k == 'conn':
            out.append('conn %d' % x[1])
        elif k == 'login':
            out.append('login %d %s' % (x[1], dict(good=dict(zip('AB', calls))[x[3]] + ' good', badpw='W1AW badpw', badcall='N0CALL good')[x[2]]))
        elif k == 'end':
            out.append('%s %d' % (x[2], x[1]))
        elif k == 'udp':
            out.append('m %d udp %s 44.1.2.3 %d' % (x[1], x[2], rnd.randint(1, 50)))
        elif k == 'uin':
            out.append('udp %d %s 44.9.9.9 %d 5198' % (x[1], x[2], rnd.randint(1, 50)))
        elif k == 'open':
            i = opens[x[1]] = opens.get(x[1], 0) + 1
            out.append('host %s %s' % (addr(x[1], i), mode.get((x[1], i), 'ok')))
            out.append('m %d open %s' % (x[1], addr(x[1], i)))
        elif k == 'close':
            out.append('m %d close' % x[1])
        elif k == 'data':
            out.append('m %d data %d' % (x[1], rnd.randint(5, 40)))
        elif k == 'answer':
            out.append('hostrel %s %s' % (ipk.get(x[1], '1.1.1.1'), 'ok' if x[2] else 'refuse'))
        elif k == 'rdata':
            out.append('rsend %s %d' % (ipk.get(x[1], '1.1.1.1'), rnd.randint(5, 40)))
        elif k == 'rend':
            out.append('rend %s %s' % (ipk.get(x[1], '1.1.1.1'), x[2]))
        elif k == 'call':
            out.append('api ' + x[1])
            w = k, 'f="%s"' % x[1]
        elif k == 'tick':
            out.append('tick 600000')
        elif k == 'rest':
            out.append('Q')
        elif k == 'tconn':
            ipk[x[1]] = addr(x[2], x[3])
            w = 'tconn', 'k=%d' % x[1]
        elif k in ('cnonce', 'ceof', 'notice', 'tstat', 'tdata', 'tclose', 'cgone'):
            w = k, 'c=%d' % x[1]
        elif k in ('trecv', 'teof', 'tgone', 'tconnend'):
            w = k, 'k=%d' % x[1]
        elif k in ('ubind', 'usend', 'uclose'):
            w = k, 's=%d p="%s"' % (x[1], x[2])
        elif k == 'cmsg':
            w = k, 'c=%d p="%s"' % (x[1], x[2])
        elif k == 'ret':
            w = k, 'f="%s"' % x[1]
        elif k in ('post', 'lclose', 'accend'):
            w = k, ''
        if w:
            seen[w] = seen.get(w, 0) + 1
            if rnd.random() < tight:
                out.append(('await %s %d %s' % (w[0], seen[w], w[1])).rstrip())
    out += ['Q'] + ['hostrel %s refuse' % addr(*x) for x in mode if mode[x] == 'hang']
    return out + ['Q', 'api shutdown', 'api close', 'Q', 'api free', 'Q']


def labels(tr):
    """The run in the terms of the model."""
    out = []
    for e in tr['ev']:
        k = e['e']
        if k == 'cconn':
            out.append(['conn', e['c']])
        elif k == 'clogin':
            out.append(['login', e['c']])
        elif k == 'cend':
            out.append(['end', e['c']])
        elif k == 'cudp':
            out.append(['udp', e['c'], e['p']])
        elif k == 'udp':
            out.append(['uin', e['s'], e['p']])
        elif k in ('copen', 'cclose', 'cdata'):
            out.append([k[1:], e['c']])
        elif k in ('rdata', 'rend', 'trecv', 'teof', 'tgone', 'tconn', 'tconnend'):
            out.append([k, e['k']])
        elif k in ('cnonce', 'ceof', 'notice', 'tstat', 'tdata', 'tclose', 'cgone'):
            out.append([k, e['c']])
        elif k in ('ubind', 'usend', 'uclose'):
            out.append([k, e['s'], e['p']])
        elif k == 'cmsg':
            out.append([k, e['c'], e['p']])
        elif k in ('call', 'ret') and e['f'] in ('drop', 'shutdown', 'close'):
            out.append([k, e['f']])
        elif k in ('post', 'accend', 'lclose'):
            out.append([k])
    return out


KEYS = dict(login=1, end=1, udp=2, uin=2, ubind=2, usend=2, uclose=2, cmsg=2, post=0, accend=0, lclose=0, answer=1)


def follows(log, tr):
    """How many of the model's steps the run shows, in the model's order."""
    want = [x[:1 + KEYS.get(x[0], 1)] for x in log if x[0] not in ('rest', 'tick')]
    want = [['tconnend', x[1]] if x[0] == 'answer' else x for x in want]
    got = labels(tr)
    i = 0
    for x in want:
        if i < len(got) and got[i] == x:
            i += 1
        else:
            break
    return i == len(want)


def campaign(ctx, worlds, num, rule_events):
    """Behaviours of the model, replayed."""
    stats = dict(seen=set(), ev={})
    t0 = time.time()
    done = kept = 0
    for j, w in enumerate(worlds):
        n, reg, logs = behaviours(ctx, w, num, ctx.seed * 100 + j)
        rnd = ctx.rnd('model', w)
        scens = []
        for i, log in enumerate(logs):
            for v, (pol, tight) in enumerate([('E:%d:%d' % (rnd.randint(1, 10**6), rnd.choice([0, 3, 10, 30])), 1), ('R:%d:%d' % (rnd.randint(1, 10**6), rnd.choice([3, 10, 30])), .9), ('P:%d:%d:1500' % (rnd.randint(1, 10**6), rnd.choice([1, 2, 4])), .6)]):
                lines = scenario(rnd, log, n, reg, tight)
                scens.append(('%s%d.%d' % (w, i, v), [lines[0], 'pol ' + pol] + lines[1:]))
        done += len(scens)
        trs = []
        engine.judge_runs(ctx, 'ProxyTrace', [ctx.prop], scens, norm.proxy, rule_events, stats, keep=trs)
        kept += sum(follows(logs[i // 3], t) for i, t in enumerate(trs))
        if ctx.violations:
            break
    ctx.parts.append(dict(part='behaviours of the model, replayed', worlds=worlds, runs=done, exactly_as_the_model=kept, distinct_traces=len(stats['seen']), events=stats['ev'], wall_s=round(time.time() - t0, 1)))
