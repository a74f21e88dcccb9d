"""What each property's check explores."""
from . import engine, faults, gen, model, units

LOGIN = dict(sneak=3, lfrag=.5, bad=4, badcall=3, malformed=3, replay=2, trunc=2)
CHURN = dict(conn=6, end=6, udp=1, open=1, data=1)
TCP = dict(open=6, data=8, rsend=8, rend=4, close=4, hold=3, rwin=1, udp=1, uin=1, fin=1.5)
TCPMORE = dict(TCP, hold=6, win=1, refuse=2, hang=1, frag=2, big=1)
UDP = dict(udp=8, uin=8, zero=2, empty=.5, open=.5, data=.5, big=1, unreach=.03)
SLOW = dict(win=3, rwin=2, frag=3, udp=3, uin=6, rsend=6, data=6)
WILD = dict(junk=3, half=2, frag=2)
OPS = dict(drop=2, cycle=1, end=3, hang=1, open=4, rwin=1, win=1)
REG = dict(reg=1, tick=1, drop=.5, cycle=.7)
FAULT = dict(fault=3, reg=.3, drop=.5, cycle=.5)
MIX = dict(junk=1, drop=1, cycle=1, tick=.5, win=1, reg=.5, empty=1, replay=1, rwin=1, sneak=1, lfrag=.1, bad=2)
ALLOW = gen.ALLOW + gen.FAILING
DENY = gen.DENY + gen.FAILING

# (weight, profile, configuration, policies per scenario)
PLANS = dict(
    C01=[(3, LOGIN, {}, 2), (2, dict(LOGIN, conn=6, end=4), dict(n=2), 4), (1, dict(LOGIN, **WILD), {}, 2), (1, dict(sneak=2, cycle=1, drop=1, fault=1), {}, 2)],
    C02=[(4, LOGIN, {}, 2), (2, dict(LOGIN, lfrag=1, sneak=0), {}, 2), (1, dict(LOGIN, drop=1, end=4), {}, 3), (1, dict(LOGIN, cycle=1.5, repat=.8), {}, 2), (1, LOGIN, dict(deny=DENY, allow=ALLOW), 2)],
    C03=[(3, CHURN, {}, 5), (2, dict(CHURN, bad=4, badcall=2, malformed=2, half=1), {}, 4), (1, dict(CHURN, drop=1.5, cycle=.7), {}, 5), (1, dict(CHURN, fault=1), {}, 3)],
    C04=[(4, CHURN, dict(n=3, len=30), 3), (2, CHURN, dict(n=2, len=40), 3), (1, dict(CHURN, drop=1, cycle=.5), dict(n=3), 3), (1, dict(conn=5, end=5, udp=0, uin=0, open=0, data=0, close=0, hold=0, frag=0, rsend=0, rend=0), dict(n=3, len=45), 2)],
    C05=[(3, UDP, {}, 2), (1, dict(UDP, unreach=.4, big=4), {}, 1), (2, dict(UDP, frag=4, hold=3), {}, 2), (1, dict(UDP, end=4, drop=.5), {}, 3), (1, dict(UDP, fault=2), {}, 2), (1, dict(UDP, win=2), {}, 2)],
    C06=[(4, dict(UDP, zero=3), {}, 2), (2, dict(UDP, end=4, conn=5), dict(n=2), 3), (1, dict(UDP, drop=.5, cycle=.5), {}, 3), (1, dict(UDP, win=3), {}, 3), (1, dict(UDP, fault=2), {}, 2)],
    C07=[(3, TCP, {}, 3), (2, TCPMORE, {}, 3), (1, dict(TCP, refuse=4, hang=2), {}, 3), (1, dict(TCP, end=4, drop=.5), {}, 3), (1, dict(TCP, fault=2), {}, 2)],
    C08=[(3, TCP, {}, 3), (2, dict(TCP, **SLOW), {}, 3), (2, TCPMORE, {}, 3), (1, dict(TCP, conn=5), dict(n=2), 3)],
    C09=[(3, TCPMORE, {}, 4), (2, TCP, {}, 4), (2, dict(TCP, hold=8, data=3, rsend=3), {}, 4), (1, dict(TCP, end=4, drop=.5), {}, 3)],
    C10=[(3, SLOW, {}, 3), (2, dict(SLOW, **TCP), {}, 4), (2, dict(SLOW, **WILD), {}, 2), (1, dict(UDP, win=3), {}, 4)],
    C11=[(3, dict(OPS, end=6, drop=.7, cycle=.3), {}, 3), (2, dict(TCP, end=5), {}, 4), (1, dict(WILD, end=4), {}, 3), (1, dict(SLOW, end=5), {}, 3), (1, dict(UDP, end=5, hold=4), {}, 3)],
    C12=[(3, OPS, {}, 4), (2, dict(OPS, drop=4), {}, 4), (2, dict(OPS, cycle=3), {}, 4), (1, dict(OPS, reg=1), {}, 3), (1, dict(OPS, fault=1), {}, 2), (1, dict(LOGIN, drop=3, cycle=2), {}, 4), (1, dict(OPS, cycle=3, repat=1, reg=.5), {}, 3)],
    C13=[(3, REG, {}, 3), (2, dict(REG, conn=5, end=6), {}, 4), (1, dict(REG, bad=4, badcall=3, drop=2), {}, 4), (1, dict(REG, tick=3), {}, 2), (1, dict(REG, fault=1), {}, 2), (1, dict(REG, cycle=2, repat=1), {}, 2)],
    C17=[(4, dict(LOGIN, sneak=.5, bad=1, conn=6, end=5), dict(deny=DENY, allow=ALLOW), 1), (3, dict(LOGIN, sneak=.3, cycle=2, repat=1, conn=8, end=3, bad=2), dict(deny=DENY, allow=ALLOW), 1)],
    C21=[(4, dict(FAULT, reg=0), {}, 2), (2, FAULT, {}, 2), (2, dict(FAULT, fault=6), {}, 2), (1, dict(FAULT, **TCP), {}, 2)],
    C22=[(3, MIX, {}, 2), (2, dict(MIX, fault=2), {}, 2), (2, dict(MIX, cycle=3, drop=2), {}, 3), (1, dict(MIX, cycle=3, repat=1, fault=1), {}, 2), (1, dict(OPS, fault=3), {}, 2), (1, TCPMORE, {}, 3)],
    C23=[(3, dict(LOGIN, replay=6), {}, 2), (2, dict(CHURN, replay=5, cycle=1), {}, 3), (1, dict(replay=3, cycle=2, conn=6, end=4), {}, 2)],
)
# events that make a run count for the property
RELEVANT = dict(
    C01={'clogin'}, C02={'clogin'}, C03={'ceof', 'cnonce'}, C04={'ubind'}, C05={'usend'}, C06={'cmsg'}, C07={'tstat'}, C08={'trecv', 'tdata'},
    C09={'tclose', 'teof'}, C10={'cmsg', 'tdata', 'tstat', 'tclose'}, C11={'cgone'}, C12={'cgone'}, C13={'post'}, C17={'notice', 'ubind'}, C20={'trecv', 'tdata', 'cmsg'},
    C21={'fault'}, C22={'cconn'}, C23={'cnonce'})
ALSO = {}

RULE = ('One evaluation is one simulated run of the real code under a scenario (client, network, registrar and user steps) and a schedule, '
        'both drawn from the seed; a run is distinct when its normalised boundary trace was not seen before in this check, and counts as '
        'non-trivial when the trace contains an event of the kind the property is about (%s). Every distinct trace is judged by TLC against the specification.')


def proxy_check(prop, extra=None):
    def run(ctx):
        if extra:
            extra(ctx)
        if not ctx.violations and model.GEN.get(prop):
            model.campaign(ctx, model.GEN[prop], (240 // len(model.GEN[prop])) if ctx.quick else 2500, RELEVANT[prop])
        if not ctx.violations and model.MC.get(prop):
            model.modelcheck(ctx)
        if not ctx.violations:
            engine.proxy_campaign(ctx, PLANS[prop], 60000 if ctx.quick else 1000000, 45 if ctx.quick else 600, rule_events=RELEVANT[prop])
    return dict(run=run, rule=RULE % ', '.join(sorted(RELEVANT[prop])))


URULE = ('One evaluation is one simulated run of the real code under a scenario of operations by several threads and a schedule, both drawn from the '
         'seed; a run is distinct when its boundary trace was not seen before in this check, and counts as non-trivial when the trace contains an event '
         'of the kind the property is about (%s). Every distinct trace is judged by TLC against the specification.')


def unit_check(parts, relevant):
    """parts: (unit, runs, seconds) for the quick tier; the thorough tier multiplies them."""
    def run(ctx):
        for unit, runs, secs in parts:
            if not ctx.violations:
                f = 1 if ctx.quick else 16
                units.campaign(ctx, unit, runs * (50 if not ctx.quick else 1), secs * f, relevant)
    return dict(run=run, rule=URULE % ', '.join(sorted(relevant)))


PROPS = {p: proxy_check(p) for p in PLANS}


def resources(ctx):
    """The library's own parts, judged for what they hold once everything has been freed."""
    for unit in ('conf', 'log', 'worker', 'lock', 'conn', 'client', 'daemon'):
        if not ctx.violations:
            units.campaign(ctx, unit, 2500 if ctx.quick else 60000, 15 if ctx.quick else 90, RES_RELEVANT, res=True)


RES_RELEVANT = {'conf', 'lout', 'begin', 'ret', 'pgot', 'exit'}


def failures(ctx):
    rnd = ctx.rnd('failures')
    faults.campaign(ctx, gen.policies(rnd, 3 if ctx.quick else 16), pairs=0 if ctx.quick else 20000)


def held(ctx):
    ctx.zones = True
    faults.campaign(ctx, ['B'])
    ctx.zones = False
    if not ctx.violations:
        resources(ctx)


PROPS['C21'] = proxy_check('C21', failures)
PROPS['C22'] = proxy_check('C22', held)
PROPS['C14'] = unit_check([('worker', 12000, 45)], {'begin'})
PROPS['C15'] = unit_check([('lock', 16000, 45)], {'ret'})
PROPS['C16'] = unit_check([('conf', 6000, 60)], {'conf'})
PROPS['C18'] = unit_check([('log', 6000, 60)], {'lout'})
PROPS['C19'] = unit_check([('daemon', 6000, 60)], {'exit', 'sighandler'})
PROPS['C20'] = unit_check([('conn', 12000, 60)], {'pgot', 'usend'})
PROPS['C24'] = unit_check([('client', 10000, 60)], {'pgot'})
NOT_APPLICABLE = {}
