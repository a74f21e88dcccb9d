"""Checks of single parts: scenarios for the unit modes of the simulator, judged by their own modules."""
import random, time
from . import core, engine, gen


def upolicies(rnd, k, ny, spurious):
    out = []
    while len(out) < k:
        x = rnd.random()
        sp = 1 if spurious and rnd.random() < .3 else 0
        if x < .1:
            out.append('B')
        elif x < .6:
            out.append('R:%d:%d:%d' % (rnd.randint(1, 10**6), rnd.choice([5, 10, 20, 35, 50, 80]), sp))
        elif x < .9:
            out.append('P:%d:%d:%d:%d' % (rnd.randint(1, 10**6), rnd.choice([1, 2, 3, 5]), ny, sp))
        else:
            out.append('X:%d:%d' % (rnd.randint(0, ny), rnd.randint(0, 3)))
    return out


# ---- workers ---------------------------------------------------------------------------------

def gen_worker(r):
    period = r.choice([0, 0, 0, 1000, 1500, 250])
    dur = r.choice([0, 0, 0, 0, 700, 2000])
    o = ['mode worker', 'cfg period %d' % period, 'cfg dur %d' % dur, 'cfg self %d' % r.choice([0, 0, 0, 1, 2]),
         'cfg spin %d' % r.choice([0, 0, 2, 6])]
    if r.random() < .15:
        o.append('fault %s %d %d' % (r.choice(['calloc', 'mutex_init', 'cond_init', 'pthread_create']), r.choice([1, 1, 2, 3]), 11))
    o.append('do 1 init')
    if r.random() < .3:
        o.append('do 2 %s' % r.choice(['wake', 'wait', 'idle']))
    for cyc in range(r.choice([1, 1, 1, 2, 3])):
        o.append('do 1 start')
        if r.random() < .4:
            o.append('Q')
        for _ in range(r.randint(1, 12)):
            x = r.random()
            k = r.randint(1, 4)
            if x < .4:
                o.append('do %d wake' % k)
            elif x < .55:
                o.append('do %d wait' % r.randint(2, 4))
            elif x < .63:
                o.append('do %d idle' % k)
            elif x < .75:
                o.append('y %d' % r.randint(1, 12))
            elif x < .83:
                o.append('do %d y %d' % (k, r.randint(1, 8)))
            elif x < .88:
                o.append('settle')
            elif x < .94:
                o.append('Q')
            else:
                o += ['Q', 'tick %d' % r.choice([period or 500, 100, 700, 3000, 251]), 'Q']
        if r.random() < .15:
            o.append('do 5 join')
        o.append('do 1 join')
        if r.random() < .5:
            for _ in range(r.randint(1, 3)):
                o.append('do %d %s' % (r.randint(2, 4), r.choice(['wake', 'wait', 'idle', 'wake'])))
        if dur:
            o += ['Q'] + ['tick %d' % dur] * r.choice([0, 4]) + ['Q']
        if r.random() < .5:
            o.append('Q')
    if dur:
        o += ['Q'] + ['tick %d' % dur] * 16
    o += ['Q', 'nofault', 'do 1 free', 'Q']
    if dur:
        o += ['tick %d' % dur] * 4 + ['Q']
    return o


def norm_worker(tr):
    return {'period': int(tr['cfg'].get('period', '0') or 0), 'ev': clean(tr['ev'])}


def clean(evs):
    out = []
    for e in evs:
        e = dict(e)
        if e['e'] != 'lout':
            e.pop('d', None)
        if e['e'] in ('crash', 'hang'):
            e = {'e': e['e']}
        out.append(e)
    return out


# ---- locks -----------------------------------------------------------------------------------

def gen_lock(r):
    o = ['mode lock']
    if r.random() < .1:
        o.append('fault %s %d 11' % (r.choice(['calloc', 'mutex_init', 'cond_init']), r.choice([1, 2, 3])))
    o += ['do 1 init', 'Q']
    n = r.randint(2, 5)
    for _ in range(r.randint(4, 30)):
        k = r.randint(1, n)
        x = r.random()
        if x < .2:
            o.append('do %d lock' % k)
        elif x < .4:
            o.append('do %d slock' % k)
        elif x < .66:
            o.append('do %d unlock' % k)
        elif x < .73:
            o.append('do %d wait %d' % (k, r.choice([1, 1, 1, 2])))
        elif x < .79:
            o.append('do %d twait %d %d' % (k, r.choice([1, 1, 2]), r.choice([1, 250, 999, 1000, 1500, 2999, 61000])))
        elif x < .85:
            o.append('do %d %s %d' % (k, r.choice(['wake1', 'wakea', 'wakea']), r.choice([1, 1, 2])))
        elif x < .9:
            o.append('y %d' % r.randint(1, 10))
        elif x < .97:
            o.append('Q')
        else:
            o += ['Q', 'tick %d' % r.choice([1, 251, 998, 1000, 1501, 70000]), 'Q']
    # let everybody go
    for _ in range(3):
        o.append('Q')
        for k in range(1, n + 1):
            o.append('do %d unlock' % k)
        o.append('tick 70000')
        o += ['Q', 'do 6 lock', 'do 6 wakea 1', 'do 6 wakea 2', 'do 6 unlock', 'Q']
        for k in range(1, n + 1):
            o.append('do %d unlock' % k)
    o += ['Q', 'nofault', 'do 6 free', 'Q']
    return o


def norm_lock(tr):
    ev = clean(tr['ev'])
    for e in ev:
        if e['e'] == 'call' and 'c' not in e:
            e['c'] = 0
    return {'ev': ev}


# ---- configuration ---------------------------------------------------------------------------

CKEYS = ['Password', 'BindAddress', 'ExternalBindAddress', 'PublicAddress', 'RegistrationName', 'RegistrationComment',
         'CallsignsAllowed', 'CallsignsDenied', 'Port', 'ConnectionTimeout', 'AdditionalExternalBindAddresses']


def conf_value(r, k, sane):
    if k == 'Port':
        return r.choice(['8100', '1', '65535', '5200', '9999', '10000', '08100', '80'] + ([] if sane else ['0', '65536', '70000', '99999999999999999999', '4294975396', '131072', '18446744073709559716',
                        '-1', '', 'x', '81oo', '80 80', '0x50', '8100,', '80;', '1e3', 'eight', '-8100', '8100 # default', '65535.5']))
    if k == 'ConnectionTimeout':
        return r.choice(['0', '0', '60', '4294967295', '2147483648', '0000000000060'] + ([] if sane else ['4294967296', '18446744073709551615', '18446744073709551616', '99999999999999999999999',
                        '-1', '', 'never', '5 minutes', '5m', '0x10', '9223372036854775808', '10.5']))
    if k == 'Password':
        return r.choice(['secret', 'PUBLIC', 'a b c', 'p=w', '#hash', 'x' * r.randint(1, 300), 'NotSet', 'notset1', 'notse', 'pass#word', '=', 'a,b'] + ([] if sane else ['notset', 'notset', '']))
    if k == 'AdditionalExternalBindAddresses':
        n = r.choice([0, 1, 2, 3, 7, 20])
        return ','.join(r.choice(['10.0.0.%d' % r.randint(2, 9), '192.168.100.%d' % r.randint(1, 250), 'host-%d' % i] + ([''] if n > 2 and not sane and r.random() < .3 else [])) for i in range(n))
    if k in ('BindAddress', 'ExternalBindAddress'):
        return r.choice(['', '10.0.0.1', '0.0.0.0', '127.0.0.1', '10.0.0.1', '10.0.0.1'])
    if k in ('CallsignsAllowed', 'CallsignsDenied'):
        return r.choice(['', '^W', 'K1RFD|AK8V', '.*-L$|.*-R$', '[A-Z]{1,2}[0-9]'])
    return r.choice(['', 'a', 'Name (City) 12', 'with = sign', 'x\ty', 'W1AW', '# not a comment', 'trailing\\', '"quoted"', 'y' * r.randint(1, 400), '0', 'None'])


def conf_line(r, sane):
    x = r.random()
    b = lambda: r.choice(['', '', '', ' ', '  ', '\t', ' \t '])
    e = r.choice(['', '', '', '', '\r', ' \r', '\t', ' ', '   '])
    if x < .06:
        return r.choice(['', ' ', '\t', '\r', '   \r'])
    if x < .13:
        return b() + '#' + r.choice(['', ' comment', 'Port=1', ' Password=no', '=']) + e
    if x < .18:
        return b() + r.choice(['Port', 'Password secret', 'just text', 'Port 80', 'RegistrationName', 'x' * r.randint(100, 140)]) + e
    if x < .27:
        k = r.choice(['Porte', 'Por', 'Pork', 'port', 'PORT', 'Passworx', 'Password1', 'XPassword', 'Bind Address', 'BindAddres', 'BindAddresses', 'RegistrationNames', 'RegistrationCommend', 'PublicAddresz', 'Unknown',
                      'ConnectionTimeour', 'CallsignsDeniee', 'CallsignsAllower', 'ExternalBindAddresc', 'AdditionalExternalBindAddressez', 'a' * 4, 'a' * 8, 'a' * 31, 'k' * 200, 'RegistrationNam#', 'Port#', 'Port.'])
        return b() + k + b() + '=' + b() + r.choice(['1', 'x', '', '99999', 'notset']) + e
    if x < .31:
        return b() + '=' + r.choice(['', '5', 'Port=5', '==']) + e
    k = r.choice(CKEYS)
    return b() + k + b() + '=' + b() + conf_value(r, k, sane) + e


def conf_text(r):
    sane = r.random() < .7
    lines = [conf_line(r, sane) for _ in range(r.choice([0, 1, 2, 4, 8, 12]))]
    if r.random() < .7:
        lines.insert(r.randint(0, len(lines)), 'Password=' + r.choice(['secret', 'PUBLIC', 'abc']))
    if r.random() < .5:
        lines.insert(r.randint(0, len(lines)), 'ExternalBindAddress=10.0.0.1')
    if r.random() < .15:
        # a line whose length meets the limits of likely buffers
        n = r.choice([126, 127, 128, 129, 254, 255, 256, 257, 383, 384, 511, 512])
        k = r.choice(['RegistrationComment', 'Password', 'CallsignsDenied', '#', 'nothing'])
        lines.insert(r.randint(0, len(lines)), (k + ('=' if k[0] != 'n' else ' ') + 'q' * 600)[:n - r.choice([0, 1])])
    t = '\n'.join(lines)
    if r.random() < .6:
        t += '\n'
    return t


def gen_conf(r):
    o = ['mode conf']
    if r.random() < .15:
        o.append('fault %s %d %d' % (r.choice(['malloc', 'malloc', 'calloc', 'realloc', 'fgetc', 'fgetc', 'fopen', 'bind', 'listen', 'socket']), r.choice([1, 2, 3, 5, 9, 30]), r.choice([12, 5])))
    o.append('do 1 init')
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        if r.random() < .04:
            o.append('do 1 load /missing')
        else:
            t = conf_text(r)
            o.append('do 1 load /c1 %s' % (t.encode('latin1').hex() or '2d'))
        if r.random() < .5:
            o += ['do 1 open', 'Q', 'do 1 close']
        if r.random() < .1:
            o += ['do 1 free', 'do 1 init']
    if r.random() < .3:
        o.append('do 1 open')
    o += ['Q', 'do 1 free', 'Q']
    return o


def norm_conf(tr):
    ev = clean(tr['ev'])
    return {'ev': ev}


# ---- log -------------------------------------------------------------------------------------

def gen_log(r):
    o = ['mode log', 'cfg logrec 1', 'cfg n 2', 'keep /log1 %s' % b'old line 1\nold line 2\n'.hex()]
    if r.random() < .1:
        o.append('fault %s %d %d' % (r.choice(['fopen', 'fopen', 'fwrite', 'malloc', 'calloc', 'bind', 'listen']), r.choice([1, 2, 3, 5]), r.choice([12, 13, 24])))
    o.append('do 1 init')
    if r.random() < .7:
        o.append('do 1 load /conf %s' % b'Password=x\n'.hex())
    loaded = len(o) > 0 and o[-1].startswith('do 1 load')
    isopen = False
    lv = lambda: r.choice([0, 1, 2, 3, 4])
    for _ in range(r.randint(3, 25)):
        x = r.random()
        if x < .5:
            o.append('do 1 log %d %d %d' % (lv(), r.choice([0, 1, 5, 40, 200, 230, 255, 256, 300, 1000, 2000, 9000]), r.randint(0, 1)))
        elif x < .62:
            o.append('do 1 level %d' % lv())
        elif x < .88:
            m = r.choice(['none', 'out', 'out', 'file', 'file', 'file', 'sys', 'sys', 'event'])
            o.append('do 1 select %s' % m + (' ' + r.choice(['/log1', '/log1', '/log2', '/log3', '/nodir/log', '/deny/log']) if m == 'file' else ''))
            if r.random() < .7:
                o.append('do 1 log %d 10 0' % r.choice([0, 1, 2, 3]))
        elif x < .91:
            o.append('do 1 ident')
        elif x < .95 and loaded:
            o.append('do 1 close' if isopen else 'do 1 open')
            isopen = not isopen
        elif x < .97:
            o.append('Q')
        else:
            o += ['nofault', 'Q', 'do 1 free', 'do 1 init']
            loaded = isopen = False
    o += ['Q', 'nofault', 'do 1 free', 'Q']
    return o


def norm_log(tr):
    return {'ev': clean(tr['ev'])}


# ---- daemon ----------------------------------------------------------------------------------

def dconf(r, n, kind, port):
    t = 'Port=%d\nPassword=Secret1\nExternalBindAddress=10.0.0.1\n' % port
    if n > 1:
        t += 'AdditionalExternalBindAddresses=%s\n' % ','.join('10.0.0.%d' % i for i in range(2, n + 1))
    if kind == 'bad':
        x = r.choice(['port', 'notset', 'nopw', 'regex', 'primary', 'timeout'])
        t += {'port': 'Port=99999\n', 'notset': 'Password=notset\n', 'nopw': '', 'regex': 'CallsignsAllowed=(\n', 'primary': 'ExternalBindAddress=\nAdditionalExternalBindAddresses=10.0.0.9\n',
              'timeout': 'ConnectionTimeout=x\n'}[x]
        if x == 'nopw':
            t = 'Port=%d\n' % port
    return t


def gen_daemon(r):
    n = r.choice([1, 1, 2, 3])
    o = ['mode daemon', 'cfg logrec 1', 'cfg n %d' % n]
    conf = {}
    path = r.choice(['/conf', '/conf', '/alt.conf', None, None])
    where = path or r.choice(['ELProxy.conf', '/etc/hint.conf', 'ELProxy.conf'])
    kind = r.choices(['ok', 'bad', 'missing'], [8, 1, .6])[0]
    ports = [8100, 8200, 5201, 1]
    port = r.choice(ports[:3])
    if kind != 'missing':
        conf[where] = (kind == 'ok', port)
    # other configurations, which are not to be used
    for p in ('/conf', 'ELProxy.conf', '/etc/hint.conf', '/alt.conf'):
        if p not in conf and not (p == where) and not (where == '/etc/hint.conf' and p == 'ELProxy.conf' and not path) and r.random() < .4:
            if not path and kind == 'missing':
                continue
            conf[p] = (True, r.choice([x for x in ports if x != port]))
    eff = where
    args = []
    fg = r.random() < .6
    form = []
    if fg:
        form.append('-F')
    if r.random() < .25:
        form.append(r.choice(['-d', '--debug']))
    if r.random() < .2:
        form.append(r.choice(['-q', '--quiet']))
    x = r.random()
    if x < .2:
        form.append(r.choice(['-L/log1', '-L /log1', '-L/log1', '-L /nodir/x', '-L/log2']))
    elif x < .35:
        form.append('-S')
    if path:
        form.append(path)
    r.shuffle(form)
    if len(form) > 1 and r.random() < .4:
        # letters taken together
        l = [f[1] for f in form if len(f) == 2 and f[0] == '-']
        form = [f for f in form if not (len(f) == 2 and f[0] == '-')]
        ls = [f for f in form if f[:2] == '-L']
        if l and ls and r.random() < .7:
            # the log flag as the last of them
            form.remove(ls[0])
            l.append(ls[0][1:])
        if l:
            form.insert(r.randint(0, len(form)), '-' + ''.join(l))
    if r.random() < .2:
        form.insert(r.randint(0, len(form)), r.choice(['-x', '-E', '--bogus', '--', '-dx', '--debugger', '/other.conf /third.conf', '-S -L/log1', '-L/log1 -S', '-FSL/log1', '-h', '-V', '--help', '--version', '-Fh', '-dV',
                                                          '-h --bogus', '@', '-L']))
    for f in form:
        if f == '@':
            args.append('')
        else:
            args += f.split(' ')
    o += ['arg ' + a for a in args]
    o.append('cfg port %d' % port)
    for p in conf:
        o.append('file %s %s' % (p, dconf(r, n, 'ok' if conf[p][0] else 'bad', conf[p][1]).encode().hex()))
    if not fg and r.random() < .3:
        o.append('cfg forkparent 1')
    if r.random() < .3:
        o.append('cfg abortaccept 1')
    if r.random() < .12:
        o.append('fault %s %d %d' % (r.choice(['socket', 'bind', 'listen', 'pthread_create', 'calloc', 'malloc', 'fopen', 'fork', 'setsid', 'chdir']), r.choice([1, 1, 2, 3, 6]), r.choice([12, 11, 24, 98])))
    soft = r.random() < .3
    c = 0
    live = []
    def sig(s):
        o.append('sig ' + s)
    x = r.random()
    if x < .12:
        o.append('y %d' % r.randint(1, 400))
        sig(r.choice(['TERM', 'INT', 'USR1']))
    if r.random() < .85:
        o.append(r.choice(['settle', 'Q', 'y 60']))
    if soft:
        o.append('fault accept %d %d' % (r.choice([1, 1, 2]), r.choice([103, 103, 24, 12, 71, 4])))
        if o[-1].endswith(' 4'):
            o[-1] = o[-1][:-1] + '103'
    for _ in range(r.randint(0, 14)):
        x = r.random()
        if x < .3:
            c += 1
            o.append('conn %d' % c)
            y = r.random()
            if y < .15:
                o.append('rst %d' % c)
            elif y < .8:
                o.append('login %d %s good' % (c, r.choice(['W1AW', 'K2ABC', 'N0CALL'])))
                live.append(c)
        elif x < .5 and live:
            o.append('m %d %s' % (r.choice(live), r.choice(['udp ctl 1.2.3.4 20', 'udp dat 1.2.3.5 100', 'udp dat 1.2.3.5 4000', 'open 9.9.9.9', 'data 50', 'close'])))
        elif x < .58 and live:
            k = r.choice(live)
            o.append('%s %d' % (r.choice(['fin', 'close', 'rst']), k))
            live.remove(k)
        elif x < .62 and live:
            o.append('win %d 0' % r.choice(live))
        elif x < .68:
            o.append('rsend 9.9.9.9 %d' % r.choice([10, 5000]))
        elif x < .74:
            o.append('udp %d ctl 7.7.7.7 30' % r.randint(1, n))
        elif x < .8:
            o.append('tick %d' % r.choice([10, 60, 1100, 5000]))
        elif x < .88:
            o.append('Q')
        elif x < .93:
            o.append('y %d' % r.randint(1, 60))
        else:
            sig(r.choice(['USR1', 'USR1', 'TERM', 'INT']))
    if r.random() < .7:
        if r.random() < .5:
            o.append(r.choice(['Q', 'settle', 'y 20']))
        sig(r.choice(['TERM', 'INT']))
        if r.random() < .3:
            sig(r.choice(['TERM', 'INT', 'USR1']))
        for _ in range(r.randint(0, 2)):
            o.append(r.choice(['y 10', 'tick 1100', 'settle', 'conn 90', 'Q']))
    return [y for x in o for y in (['hard', 'tick 1000', 'Q'] if x == 'Q' else [x])]




def dnorm(lines, tr):
    import binascii
    confs = {}
    n = 1
    for l in lines:
        w = l.split()
        if w[0] == 'file':
            t = binascii.unhexlify(w[2]).decode()
            port = int(t.split('Port=')[1].split('\n')[0])
            ok = 'Password=Secret1' in t and 'notset' not in t and '99999' not in t and '=(' not in t and '0.9' not in t and 'out=x' not in t
            confs[w[1]] = dict(ok=1 if ok else 0, port=port)
        if l.startswith('cfg n '):
            n = int(w[2])
    if '/conf' not in confs:
        confs['/conf'] = dict(ok=1, port=int(tr['cfg'].get('port', '8100')))
    ev = []
    for e in tr['ev']:
        e = dict(e)
        if e['e'] == 'Q':
            e = dict(e='Q', stalled=1 if e['stall'] or e['rstall'] or e['cing'] else 0)
        elif e['e'] in ('crash', 'hang'):
            e = {'e': e['e']}
        elif e['e'] == 'fault':
            e = dict(e='fault', soft=1 if e['k'] == 'accept' else 0)
        elif e['e'] not in ('lout',):
            e.pop('d', None)
        ev.append(e)
    return {'args': [l[4:] for l in lines if l.startswith('arg ') or l == 'arg'], 'confs': confs, 'n': n, 'ev': ev}


# ---- connections -----------------------------------------------------------------------------

def gen_conn(r):
    o = ['mode conn']
    kind = r.choices(['serve', 'out', 'udp', 'mix'], [4, 3, 2, 2])[0]
    lis, acc, out, udp = [], [], [], []
    h = 0
    ini = []
    port = {}
    addr = {}
    def new(l, ty, a='-', p='-'):
        nonlocal h
        h += 1
        l.append(h)
        port[h], addr[h] = p, a
        ini.append('do 1 init %d %s %s %s' % (h, ty, a, p))
    if kind in ('serve', 'mix'):
        for i in range(r.choice([1, 1, 1, 2])):
            new(lis, 'tcp', r.choice(['-', '10.0.0.1']), r.choice(['8100', '8100', '8200']) if i else '8100')
        for _ in range(r.choice([1, 1, 2, 3])):
            new(acc, 'tcp')
    if kind in ('out', 'mix'):
        for _ in range(r.choice([1, 1, 2])):
            new(out, 'tcp', r.choice(['-', '10.0.0.1', '10.0.0.2', 'no.such.addr']) if r.random() < .3 else r.choice(['-', '10.0.0.2']), '-')
    if kind in ('udp', 'mix'):
        for i in range(r.choice([1, 2])):
            new(udp, 'udp', '10.0.0.%d' % (1 + i) if r.random() < .9 else 'no.such.addr', r.choice(['5198', '5199']))
    x = r.random()
    if x < .15:
        o.append('fault %s %d %d' % (r.choice(['socket', 'bindtcp', 'bindudp', 'listen', 'accept', 'setsockopt', 'connect', 'recv', 'recvfrom', 'send', 'sendto', 'getaddrinfo', 'calloc', 'mutex_init']),
                                     r.choice([1, 1, 2, 3, 5]), r.choice([12, 24, 104, 110, 98, 11])))
    for _ in range(r.choice([0, 0, 1, 3])):
        o.append('fault %s %d 0 %d' % (r.choice(['recv', 'send']), r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 5, 30])))
    o += ini
    hosts = ['9.9.9.9', '9.9.9.8', '7.7.7.7']
    for ip in hosts:
        if out and r.random() < .4:
            o.append('host %s %s' % (ip, r.choice(['ok', 'refuse', 'hang', 'unreach'])))
    for l in lis + udp:
        if r.random() < .9:
            o.append('do 1 listen %d' % l)
    if r.random() < .5:
        o.append('settle')
    np = 0
    peers = []
    sizes = [1, 1, 2, 8, 9, 16, 17, 100, 1000, 5000]
    tcp = acc + out
    allh = lis + acc + out + udp
    hot = r.choice(allh)
    if r.random() < .75:
        if acc:
            np += 1
            peers.append(np)
            o += ['pc %d %s' % (np, port[lis[0]]), 'do 1 accept %d %d' % (lis[0], acc[0])]
            hot = acc[0]
        elif out:
            o.append('do 1 connect %d %s' % (out[0], r.choice(hosts)))
            hot = out[0]
        if r.random() < .5:
            o.append('settle')
    for _ in range(r.randint(4, 40)):
        x = r.random()
        k = r.randint(1, 6)
        pick = lambda l: hot if hot in l and r.random() < .5 else r.choice(l)
        if x < .1 and lis:
            np += 1
            o.append('pc %d %s' % (np, port[r.choice(lis)]))
            peers.append(np)
        elif x < .2 and lis and acc:
            o.append('do %d accept %d %d' % (k, r.choice(lis), pick(acc)))
        elif x < .3 and out:
            o.append('do %d connect %d %s' % (k, pick(out), r.choice(hosts + ['no.such.host']) if r.random() < .2 else r.choice(hosts)))
        elif x < .42 and tcp:
            o.append('do %d recv %d %d' % (k, pick(tcp), r.choice(sizes)))
        elif x < .47 and tcp:
            o.append('do %d any %d %d' % (k, pick(tcp), r.choice(sizes)))
        elif x < .57 and tcp:
            o.append('do %d send %d %d' % (k, pick(tcp), r.choice(sizes + [20000])))
        elif x < .65 and udp:
            o.append('do %d any %d %d' % (k, pick(udp), r.choice([4087, 4087, 65536, 10])))
        elif x < .7 and udp:
            o.append('do %d sendto %d %d 1.2.3.%d %d' % (k, pick(udp), r.choice([1, 10, 1000, 4000, 65507, 0]), r.randint(1, 3), r.choice([5198, 5199, 80])))
        elif x < .76 and udp:
            o.append('udp %d %s 5.5.5.%d %d %d' % (int((addr[pick(udp)][-1:].replace('r', '1')) or 1), r.choice(['ctl', 'dat']), r.randint(1, 3), r.choice([0, 1, 20, 500, 4087, 4088, 5000]), r.choice([5198, 5199, 999])))
        elif x < .86 and tcp:
            q = r.choice(peers + [100, 101]) if out or not peers else r.choice(peers)
            y = r.random()
            o.append('psend %d %d' % (q, r.choice(sizes)) if y < .6 else 'pend %d %s' % (q, r.choice(['fin', 'fin', 'close', 'rst'])) if y < .75 else 'pwin %d %d' % (q, r.choice([0, 0, 5, 300, -1])))
        elif x < .94:
            z = pick(allh)
            o.append('do %d %s %d' % (r.choice([k, 8]), r.choice(['close', 'close', 'shut'] + (['drop', 'drop'] if z in acc else [])), z))
            if r.random() < .5 and z in lis + udp:
                o.append('do %d listen %d' % (r.choice([1, 8]), z))
        elif x < .955:
            o.append('do %d inuse %d' % (k, r.choice(allh)))
        elif x < .965 and out:
            o.append('do %d timeout %d %d' % (k, r.choice(out), r.choice([0, 500, 1500])))
        elif x < .97 and out:
            o.append('hostrel %s %s' % (r.choice(hosts), r.choice(['ok', 'refuse', 'timeout'])))
        elif x < .98:
            o += ['Q', 'tick %d' % r.choice([100, 501, 1600]), 'Q']
        else:
            o.append(r.choice(['Q', 'settle', 'y 5', 'y 20', 'do %d y %d' % (k, r.randint(1, 10))]))
        if r.random() < .1:
            o.append(r.choice(['settle', 'y %d' % r.randint(1, 20)]))
    o += ['Q', 'nofault']
    for l in lis:
        o.append('do 8 close %d' % l)
    for l in out:
        o.append('do 8 shut %d' % l)
    o.append('Q')
    for l in allh:
        o.append('do 8 %s %d' % (r.choice(['close', 'inuse', 'close']), l))
    o += ['Q'] + ['do 8 close %d' % l for l in allh] + ['Q'] + ['do 8 free %d' % l for l in allh] + ['Q']
    return o


def norm_conn(tr):
    return {'ev': [e for e in clean(tr['ev']) if not (e['e'] == 'fault' and e['err'] == 0)]}


def gen_client(r):
    o = ['mode client']
    n = r.choice([1, 1, 1, 2, 3])
    if r.random() < .2:
        o.append('fault %s %d %d' % (r.choice(['socket', 'setsockopt', 'connect', 'recv', 'send', 'getaddrinfo', 'calloc', 'mutex_init', 'bindtcp', 'fcntl']),
                                     r.choice([1, 1, 2, 3, 4, 6]), r.choice([12, 24, 104, 110, 98, 11])))
    for _ in range(r.choice([0, 0, 1, 3])):
        o.append('fault %s %d 0 %d' % (r.choice(['recv', 'send']), r.choice([1, 1, 2, 3, 4]), r.choice([1, 1, 2, 5, 15])))
    hosts = ['9.9.9.9', '9.9.9.8', '7.7.7.7']
    for ip in hosts:
        if r.random() < .3:
            o.append('host %s %s' % (ip, r.choice(['ok', 'refuse', 'hang', 'unreach'])))

    def text(k):
        a = r.choice(['AZ09', 'azAZ', 'aB3', ' -~{[@`', 'xyz\xff\x80'])
        return ''.join(r.choice(a) for _ in range(k)).encode('latin1').hex() or '0'
    for h in range(1, n + 1):
        o.append('do %d init %d %s %s' % (h, h, r.choice(['-', text(0), text(r.choice([1, 4, 5, 9, 10])), text(6), text(r.choice([3, 300, 5000]))]),
                                           r.choice(['-', text(0), text(r.choice([1, 5, 8])), text(7), text(r.choice([23, 24, 55, 56, 63, 64, 65, 300]))])))
    np = 0
    for _ in range(r.randint(2, 8)):
        h = r.randint(1, n)
        x = r.random()
        if x < .1:
            w = '%x' % r.choice([0, 1, 0xff, 0x01020304, 0xffffffff, 0x0a0b0c0d, r.getrandbits(32)])
            o.append('do %d respond %s %s' % (r.randint(4, 6), w, text(r.choice([0, 1, 7, 8, 47, 48, 49, 55, 56, 120]))))
        elif x < .14:
            o.append('do %d nonce' % r.randint(4, 6))
        elif x < .25:
            o.append('do %d %s %d' % (h, r.choice(['disconnect', 'disconnect', 'free']), h))
        else:
            if r.random() < .7:
                o.append('do %d disconnect %d' % (h, h))
            o.append('do %d connect %d %s' % (h, h, r.choice(hosts + ['no.such.host']) if r.random() < .3 else r.choice(hosts)))
        if r.random() < .6:
            o.append(r.choice(['settle', 'y %d' % r.randint(1, 30)]))
        # a peer: what it sends, in pieces, and what becomes of it
        for _ in range(r.choice([0, 1, 1, 2])):
            p = 100 + r.choice([np, np, np, max(0, np - 1), np + 1, r.randint(0, 5)])
            if r.random() < .6:
                np += 1
            b = '%08x' % r.choice([0, 0x00abcdef, 0xdeadbeef, 0x12345678, r.getrandbits(32), r.getrandbits(32)])
            b = b.encode().hex() + r.choice(['', '', '', '0501000000', '00' * 9])
            steps, y = [], r.random()
            if y < .5:
                steps = ['phex %d %s' % (p, b)]
            else:
                i = 0
                while i < len(b):
                    k = 2 * r.choice([1, 1, 2, 3, 4, 7, 8])
                    steps.append('phex %d %s' % (p, b[i:i + k]))
                    i += k
                    if r.random() < .4:
                        steps.append(r.choice(['settle', 'Q', 'y %d' % r.randint(1, 10)]))
                if r.random() < .2:
                    steps = steps[:r.randint(0, len(steps))]
            if r.random() < .35:
                steps.insert(r.randint(0, len(steps)), 'pend %d %s' % (p, r.choice(['fin', 'close', 'rst'])))
            if r.random() < .3:
                steps.insert(r.randint(0, len(steps)), 'pwin %d %d' % (p, r.choice([0, 0, 1, 3, 5, 7, 18, 300, -1])))
            o += steps
            if r.random() < .3:
                o.append(r.choice(['settle', 'y %d' % r.randint(1, 30)]))
            if r.random() < .2:
                o.append('pwin %d %d' % (p, r.choice([0, 1, 8, -1])))
        if r.random() < .06:
            o.append('hostrel %s %s' % (r.choice(hosts), r.choice(['ok', 'refuse', 'timeout'])))
        if r.random() < .3:
            o.append('Q')
    o += ['Q', 'nofault'] + ['hostrel %s timeout' % ip for ip in hosts] + ['pend %d %s' % (p, r.choice(['rst', 'close'])) for p in range(100, 106 + np)] + ['Q']
    o += ['do %d %s %d' % (h, r.choice(['disconnect', 'free']), h) for h in range(1, n + 1)] + ['Q']
    o += ['do %d free %d' % (h, h) for h in range(1, n + 1)] + ['Q']
    return o


def norm_client(tr):
    return {'ev': [e for e in clean(tr['ev']) if not (e['e'] == 'fault' and e['err'] == 0)]}


# ---- campaigns -------------------------------------------------------------------------------

UNITS = dict(
    worker=(gen_worker, norm_worker, 'WorkerTrace', 300, lambda lines: 'cfg period 0' in lines),
    conf=(gen_conf, norm_conf, 'ConfTrace', 100, lambda lines: False),
    conn=(gen_conn, norm_conn, 'ConnTrace', 300, lambda lines: False),
    client=(gen_client, norm_client, 'ClientTrace', 200, lambda lines: False),
    log=(gen_log, norm_log, 'LogTrace', 100, lambda lines: False),
    daemon=(gen_daemon, dnorm, 'DaemonTrace', 600, lambda lines: False),
    lock=(gen_lock, norm_lock, 'RWLockTrace', 300, lambda lines: True),
)


def norm_res(tr):
    """Only what concerns resources; the number of runs that look alike is kept apart by a digest."""
    ev = []
    for e in tr['ev']:
        k = e['e']
        if k == 'ret' and e['f'] in ('init', 'free'):
            ev.append({'e': k, 'f': e['f'], 'r': e['r'], 'h': e.get('h', 0)})
        elif k in ('memerr', 'crash'):
            ev.append({'e': k})
        elif k == 'end' or (k == 'exit' and e.get('main')):
            ev.append({'e': k, 'n': sum(e.get(x, 0) for x in ('heap', 'fds', 'files', 'locks', 'lib'))})
    return {'ev': ev, 'all': core.tkey({'ev': clean(tr['ev'])})}


def campaign(ctx, unit, runs, secs, relevant=None, k=3, batch=2000, res=False):
    g, nf, module, ny, spur = UNITS[unit]
    if res:
        nf, module, relevant = norm_res, 'ResTrace', None
    stats = dict(seen=set(), ev={})
    k = 1 if unit in ('conf', 'log') else k
    t0 = time.time()
    done = b = 0
    first = engine.corpus([ctx.prop], unit)
    while True:
        if first:
            scens, first = first, []
        else:
            if done >= runs or time.time() - t0 > secs:
                break
            r = ctx.rnd(unit, b)
            if b:
                batch = min(2 * batch, 8000)
            b += 1
            scens = []
            while len(scens) < batch:
                lines = g(r)
                for i, p in enumerate(upolicies(r, k, ny, spur(lines))):
                    scens.append(('%s%d.%d' % (unit, b, len(scens)), [lines[0], 'pol ' + p] + lines[1:]))
        done += len(scens)
        ctx.zones = res or (b > 0 and b % 3 == 0)
        engine.judge_runs(ctx, module, [ctx.prop], scens, nf, relevant, stats)
        ctx.zones = False
        if ctx.violations:
            break
    ctx.parts.append(dict(part=unit + ('-resources' if res else ''), runs=done, distinct_traces=len(stats['seen']), events=stats['ev'], wall_s=round(time.time() - t0, 1)))
