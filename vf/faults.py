"""Every single failure of a few scenarios: the n-th call of a kind fails, for every n."""
import time

from . import engine, gen, norm

BOOT = ['api ' + f for f in ('init', 'conf', 'open', 'start', 'accept')]
TAIL = ['nofault', 'Q', 'Q'] + BOOT + ['settle']
BASES = dict(
    login=(1, ['conn 1', 'settle', 'login 1 W1AW good', 'Q']),
    turned=(1, ['conn 1', 'login 1 W1AW badpw', 'settle', 'conn 2', 'login 2 N0CALL good', 'Q']),
    udp=(1, ['conn 1', 'login 1 W1AW good', 'settle', 'm 1 udp ctl 44.1.2.3 20', 'm 1 udp dat 44.1.2.3 3000', 'm 1 udp dat 44.1.2.3 5000', 'settle',
             'udp 1 ctl 44.1.2.3 20 5199', 'settle', 'udp 1 dat 44.1.2.3 30 5198', 'settle', 'udp 1 dat 44.9.9.9 31 5198', 'Q']),
    tcp=(1, ['host 192.168.1.1 ok', 'host 192.168.1.2 ok', 'host 192.168.1.3 refuse', 'conn 1', 'login 1 W1AW good', 'settle', 'm 1 open 192.168.1.1', 'settle', 'm 1 data 20', 'settle', 'rsend 192.168.1.1 30',
             'settle', 'm 1 close', 'settle', 'm 1 open 192.168.1.2', 'settle', 'm 1 data 30', 'rsend 192.168.1.2 20', 'settle', 'rend 192.168.1.2 fin', 'settle',
             'm 1 open 192.168.1.3', 'Q']),
    two=(2, ['conn 1', 'conn 2', 'settle', 'login 1 W1AW good', 'login 2 K2ABC good', 'settle', 'm 2 udp ctl 44.1.2.3 20', 'fin 1', 'settle', 'conn 3', 'login 3 W1AW good', 'Q']),
    again=(1, ['conn 1', 'login 1 W1AW good', 'Q', 'api drop', 'Q', 'conn 2', 'login 2 W1AW good', 'Q', 'api close', 'Q'] + BOOT[2:] + ['settle', 'conn 3', 'login 3 K2ABC good', 'Q']),
    reg=(2, ['reg ok', 'conn 1', 'login 1 W1AW good', 'Q', 'tick 600000', 'Q', 'reg 500', 'fin 1', 'Q', 'tick 600000', 'Q']),
)
KINDS = dict(malloc=([12], 24), socket=([24], 8), bindudp=([98, 99], 6), bindtcp=([98], 2), listen=([98], 2), pthread_create=([11], 12), sendto=([101, 11, 1], 4),
             connect=([111, 113, 110], 4), recv=([104, 110, 12], 24), recvfrom=([111, 12], 8), send=([104, 32, 105, 12], 24), mutex_init=([12], 30), cond_init=([12], 20),
             accept=([103, 24], 5), setsockopt=([22], 12), connectreg=([111], 3), getaddrinfo=([1], 5), pcre2_compile=([1], 3), pcre2_match_data=([1], 4), pcre2_match=([1], 4))
WHERE = dict(malloc=2, socket=2, bindtcp=2, pthread_create=2, mutex_init=2, cond_init=2, setsockopt=2, getaddrinfo=2, pcre2_compile=2, listen=2)


def scenarios(k=1, bases=BASES):
    out = []
    for b in bases:
        n, lines = bases[b]
        head = ['mode proxy', 'cfg n %d' % n, 'cfg pw Secret1', 'cfg rnd 0', 'cfg deny ^N0CALL$', 'cfg allow ^(W|K|N)']
        if b == 'reg':
            head += ['cfg reg My Proxy', 'cfg comment x']
        last = max(int(l.split()[1]) for l in lines if l.startswith('conn ')) + 1
        # whatever became of the clients, there is room for a new one in the end
        tail = list(TAIL) + ['fin %d' % i for i in range(1, last)] + ['settle', 'conn %d' % last, 'settle', 'login %d KD0X good' % last, 'Q', 'm %d udp ctl 44.1.2.3 20' % last, 'Q',
                                                                      'api shutdown', 'api close', 'Q', 'api free', 'Q']
        for kind in KINDS:
            errs, top = KINDS[kind]
            for err in errs:
                for nth in range(1, top + 1):
                    f = ['fault %s %d %d' % (kind, nth, err)]
                    places = [head + BOOT + ['settle'] + f + lines + tail]
                    if WHERE.get(kind) == 2:
                        places.append(head + f + BOOT + ['settle'] + BOOT + ['settle'] + lines + tail)
                    for i, s in enumerate(places):
                        out.append(('f.%s.%s.%d.%d.%d' % (b, kind, err, nth, i), s))
    return out


def campaign(ctx, pols=('B',), focus=None, pairs=0):
    """Every single failure under each schedule, then random pairs of failures.""" 
    stats = dict(seen=set(), ev={})
    t0 = time.time()
    base = scenarios()
    runs = 0
    for pol in pols:
        L = [(i + '.' + pol[0], [s[0], 'pol ' + pol] + s[1:]) for i, s in base]
        runs += len(L)
        engine.judge_runs(ctx, 'ProxyTrace', focus or [ctx.prop], L, norm.proxy, {'fault'}, stats)
        if ctx.violations:
            break
    rnd = ctx.rnd('pairs')
    by = {}
    for i, s in base:
        by.setdefault(i.split('.')[1], []).append((i, s))
    while pairs > 0 and not ctx.violations:
        L = []
        for _ in range(min(pairs, 4000)):
            (i, s), (j, t) = rnd.choices(by[rnd.choice(sorted(by))], k=2)
            f = next(x for x in t if x.startswith('fault'))
            k = next(n for n, x in enumerate(s) if x.startswith('fault'))
            L.append(('%s+%s.%d' % (i, j, len(L)), [s[0], 'pol ' + gen.policies(rnd, 2)[1]] + s[1:k] + [f] + s[k:]))
        pairs -= len(L)
        runs += len(L)
        engine.judge_runs(ctx, 'ProxyTrace', focus or [ctx.prop], L, norm.proxy, {'fault'}, stats)
    ctx.parts.append(dict(part='every single failure', runs=runs, distinct_traces=len(stats['seen']), events=stats['ev'], wall_s=round(time.time() - t0, 1)))
