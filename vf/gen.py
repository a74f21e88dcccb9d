"""Scenario generators: environments for the proxy, seeded, in the simulator's step language."""
import random

CALLS = ['W1AW', 'K2ABC', 'N0CALL', 'KD0X']
# callsigns which are alike, and those which fall into one bucket of the slots' table
ALIKE = [['8IX4', '8IX4CO'], ['A4Q', 'A4QDV'], ['M489', 'M489AD'], ['ZJOJ7Y', 'ZJOJ7YMP'], ['EKC', 'EKCAZ'], ['K5CY', 'K9BY', 'W1YZ', 'x:'], ['x:', 'W2BX', 'N5ZX'],
         ['K1AA', 'W3CA', 'N3ZA'], ['N4YZ', 'n4yz', 'W1AW'], ['N4YA', 'n4ya'], ['Z2IXGCI5BJ', 'Z2IXGCI5OB', 'Z2IXGCI5P2'], ['NQ1T06YWAZ', 'NQ1T06YWBS', 'NQ1T06YWFM'],
         ['4FWE', 'BI4FWE'], ['0JBS', 'BI0JBS'], ['W1AW', 'W1AW-L', 'W1AWX'], ['w1aw', 'W1AW', 'W1aW'], ['x:5731ff', 'x:5731fe', 'x:57310041'], ['W1', 'x:57310041', 'x:573100'],
         ['K8AY', 'W6YX', 'W8YY', 'W9BY', 'N0XC'], ['x:2057314157', 'x:5731415720', 'W1AW'], ['ABCDEFGHIJ', 'ABCDEFGHI', 'A']]
ODD = ['x:', '*ECHO*', 'A', 'W1AW-L', 'KD0X-R', 'ABCDEFGHIJ', '9']
BADKIND = ['badpw', 'flip0', 'flip7', 'flip127', 'flip64', 'zero', 'emptypw', 'swap', 'upnonce', 'oldpw', 'oldpw']
SIZES = [1, 2, 3, 8, 9, 10, 11, 100, 1000, 2000, 4085, 4086, 4087, 4088]
CSIZES = [1, 2, 3, 8, 9, 10, 11, 100, 1000, 2000, 4085, 4086, 4087, 4088, 4095, 4096]
BIG = [4097, 5000, 8191, 8192, 8193, 12289, 20000]
HUGE = [65535, 65536, 65537, 66000, 69632, 70000, 131072, 131077]
UNREACH = [101, 11, 1, 13, 22, 90, 105, 113, 111, 12]

ALLOW = ['', '', '^(W|K)', '^K2', '[0-9]', 'ABC$', '^(?!W1).*$', '.*', '(?i)w1aw', 'W1AW|K2ABC', '^.{4,5}$']
DENY = ['^N0CALL$', '', '^W', '-[LR]$', '^\\*', 'A.C', '^(K2ABC|N0CALL)$', '1', '(?i)kd0x', '^[^*]*$']
# patterns that fail while matching some callsigns
FAILING = ['(*LIMIT_MATCH=1)^(W|K)+.*Z$', '(*LIMIT_MATCH=2)^(.*)*[0-9]Q', '(*LIMIT_MATCH=1)W1AW', '(*LIMIT_DEPTH=1)^(K2|W1)+.*$', '(*LIMIT_MATCH=3)^K.*C$']
INVALID = ['(', '[', '*', '(?<x', 'a{2,1}', '(?P<1>', '\\']
PWCHARS = ''.join(chr(i) for i in range(33, 127))


def address(r):
    """Addresses of every length and with every kind of part."""
    while True:
        p = [r.choice([0, 1, 9, 10, 99, 100, 127, 128, 199, 200, 249, 250, 255, r.randint(0, 255)]) for _ in range(4)]
        x = r.random()
        if x < .1:
            p = [p[0]] * 4
        elif x < .25:
            p = [r.randint(1, 9) for _ in range(4)]
        if p[0] != 10:
            return '%d.%d.%d.%d' % tuple(p)


def password(r):
    x = r.random()
    if x < .12:
        return 'PUBLIC'
    if x < .3:
        return r.choice(['Secret1', 'pass wd', 'x', 'abcXYZ09%$', 'thequickbrownfoxjumpsoverthelazydog'])
    if x < .5:
        return ''.join(r.choice('az`{@[AZ') for _ in range(r.randint(1, 12)))
    if x < .6:
        # with the eight digits of the challenge: the limits of the digest's blocks
        return ''.join(r.choice(PWCHARS) for _ in range(64 * r.choice([0, 0, 0, 1, 1, 2, 4]) + r.choice([45, 46, 47, 48, 49, 54, 55, 56, 57, 58, 63])))
    return ''.join(r.choice(PWCHARS) for _ in range(r.randint(1, 30)))


DEFAULT = dict(conn=3, bad=1, udp=3, uin=3, open=3, data=4, rsend=4, rend=2, close=2, end=2, settle=4, Q=1.2,
               junk=0, drop=0, cycle=0, tick=0, win=0, frag=1, hold=1.5, fault=0, reg=0, empty=0, replay=0, hang=0.3, half=0.5,
               y=0.5, refuse=1, zero=0.3, big=0.5, fin=1, close_=1, rst=1, badcall=0.5, malformed=0.5, rwin=0, trunc=0.4, sneak=0, lfrag=0, early=0, unreach=0, repat=0)


class G:
    def __init__(self, rnd, prof=None, n=None, length=None):
        self.r = rnd
        self.p = dict(DEFAULT)
        self.p.update(prof or {})
        self.n = n or rnd.choice([1, 1, 2, 2, 3])
        self.calls = rnd.choice(ALIKE) if rnd.random() < .35 else CALLS[:2] + [CALLS[3]]
        self.len = length or rnd.randint(8, 30)
        self.out = []
        self.next = 1
        self.cl = {}          # id -> dict(st, call)
        self.rem = []         # ips tried
        self.stalled = set()
        self.up = False
        self.cyc = 0

    def a(self, s):
        self.out.append(s)

    def pick(self, weights):
        ks = [k for k in weights if weights[k] > 0]
        return self.r.choices(ks, [weights[k] for k in ks])[0]

    def ids(self, *st):
        return [c for c in self.cl if self.cl[c]['st'] in st]

    def header(self, **cfg):
        self.a('mode proxy')
        c = dict(n=self.n, pw=self.password(), rnd=self.r.choice([0, 0, 1, 2]), deny='^N0CALL$' if self.p['badcall'] else '')
        if self.p['reg']:
            c['reg'] = self.r.choice(['My Proxy', 'P', 'abc def ghi jkl mno'])
            c['comment'] = self.r.choice(['', 'Somewhere', 'x y'])
        c.update(cfg)
        self.n = int(c.get('n') or 1)
        for k in c:
            self.a('cfg %s %s' % (k, c[k]))

    def password(self):
        while True:
            pw = password(self.r)
            if pw.upper() != 'PUBLIC' or pw == 'PUBLIC':
                return pw

    def reconf(self):
        """The operator edits the configuration while the proxy is closed."""
        r = self.r
        for _ in range(r.randint(1, 4)):
            k = r.choice(['deny', 'deny', 'allow', 'pw', 'n', 'port', 'reg', 'comment', 'pubaddr'])
            if k == 'deny':
                self.a(('set deny ' + r.choice(DENY + FAILING)).rstrip())
            elif k == 'allow':
                self.a(('set allow ' + r.choice(ALLOW + FAILING)).rstrip())
            elif k == 'pw':
                self.a('set pw ' + self.password())
            elif k == 'n':
                self.n = r.choice([1, 2, 3])
                self.a('set n %d' % self.n)
            elif k == 'port':
                self.a('set port %d' % r.choice([8100, 8101, 9000]))
            elif k == 'reg' and self.p['reg']:
                self.a(('set reg ' + r.choice(['My Proxy', 'Q', 'another name', ''])).rstrip())
            elif k == 'comment':
                self.a(('set comment ' + r.choice(['', 'Elsewhere', 'z'])).rstrip())
            elif k == 'pubaddr':
                self.a(('set pubaddr ' + r.choice(['', '1.2.3.4', 'proxy.example.com'])).rstrip())
        if r.random() < .3:
            # a configuration that must be refused
            k = r.choice(['deny', 'allow', 'deny', 'allow', 'nopw' if not self.p['fault'] else 'deny'])
            old = r.choice(['', '^N0CALL$']) if k == 'deny' else ''
            self.a('set %s %s' % (k, '1' if k == 'nopw' else r.choice(INVALID)))
            for f in ('conf', 'open', 'start', 'accept'):
                self.a('api ' + f)
            self.a('settle')
            self.a(('set %s %s' % (k, old)).rstrip())
        self.a('api conf')

    def boot(self):
        for f in ('init', 'conf', 'open', 'start', 'accept'):
            self.a('api ' + f)
        if self.r.random() < .8:
            self.a('settle')
        self.up = True

    def conn(self):
        c = self.next
        self.next += 1
        self.a('conn %d' % c)
        self.cl[c] = dict(st='conn', call='')
        return c

    def login(self, c, kind=None, call=None):
        if self.r.random() < self.p['lfrag']:
            self.a('frag %d %d' % (c, self.r.choice([1, 1, 2, 3, 5, 7, 11, 16])))
        k = kind or self.pick(dict(good=6, bad=self.p['bad'], badcall=self.p['badcall'], malformed=self.p['malformed'], replay=self.p['replay'], trunc=self.p['trunc']))
        call = call or self.r.choice(self.calls if self.r.random() < .85 else ODD)
        if k == 'bad':
            self.a('login %d %s %s' % (c, call, self.r.choice(BADKIND)))
        elif k == 'badcall':
            self.a('login %d N0CALL %s' % (c, self.r.choice(['good', 'good', 'badpw'])))
        elif k == 'replay' and c > 1:
            self.a('login %d %s replay%d' % (c, call, self.r.randint(1, c - 1)))
        elif k == 'malformed':
            self.a('login %d %s good' % (c, self.r.choice(['ABCDEFGHIJK', 'AAAAAAAAAAAAAAAAAAAAAAAA', 'ABCDEFGHIJKLMNOP'])))
        elif k == 'trunc':
            self.a('login %d %s good %d' % (c, call, self.r.randint(1, len(call) + 16)))
        else:
            self.a('login %d %s good' % (c, call))
            self.cl[c] = dict(st='in', call=call, open=None)
            return
        self.cl[c]['st'] = 'bad'

    def ip(self):
        if self.rem and self.r.random() < .3:
            return self.r.choice(self.rem)
        if self.r.random() < .75:
            ip = '192.168.%d.%d' % (self.r.randint(0, 3), self.r.randint(1, 250))
        else:
            ip = address(self.r)
        self.rem.append(ip)
        return ip

    def size(self, big=True, client=True):
        x = self.r.random()
        if big and x < .005 * self.p['big']:
            return self.r.choice(HUGE)
        if big and x < .12 * self.p['big']:
            return self.r.choice(BIG)
        if x < .6:
            return self.r.randint(1, 60)
        return self.r.choice(CSIZES if client else SIZES)

    def step(self):
        p = self.p
        ins = self.ids('in')
        live = self.ids('in', 'conn', 'bad')
        w = dict(conn=p['conn'] if len(live) <= self.n else p['conn'] * .3,
                 login=5 if self.ids('conn') else 0,
                 settle=p['settle'], Q=p['Q'], y=p['y'])
        if ins:
            w.update(udp=p['udp'], uin=p['uin'], open=p['open'], data=p['data'], close=p['close'], junk=p['junk'],
                     frag=p['frag'], hold=p['hold'], empty=p['empty'], win=p['win'], half=p['half'])
        if live:
            w.update(end=p['end'])
        if self.ids('bad', 'conn'):
            w.update(sneak=p['sneak'])
        if self.rem:
            w.update(rsend=p['rsend'], rend=p['rend'], rwin=p['rwin'])
        w.update(drop=p['drop'], cycle=p['cycle'] if self.cyc < 2 else 0, tick=p['tick'], fault=p['fault'], reg=p['reg'], zero=p['zero'])
        k = self.pick(w)
        r = self.r
        if k == 'conn':
            c = self.conn()
            if r.random() < .7:
                if r.random() < .5:
                    self.a('settle')
                self.login(c)
        elif k == 'login':
            self.login(r.choice(self.ids('conn')))
        elif k in ('settle', 'Q'):
            self.a(k)
        elif k == 'y':
            self.a('y %d' % r.randint(1, 40))
        elif k == 'udp':
            self.a('m %d udp %s %s %d' % (r.choice(ins), r.choice(['ctl', 'dat']), r.choice(['44.1.2.3', '44.9.9.9', '255.255.255.255', '0.0.0.1', address(r)]), self.size()))
            if r.random() < self.p['unreach']:
                # the destination of this or of an earlier datagram cannot be reached
                self.out.insert(len(self.out) - 1, 'fault sendto %d %d' % (r.choice([1, 1, 1, 2]), r.choice(UNREACH)))
        elif k == 'uin':
            self.a('udp %d %s %s %d %d' % (r.randint(1, self.n), r.choice(['ctl', 'dat']), r.choice(['44.1.2.3', '44.9.9.9', '10.0.0.1', address(r)]), self.size(False, False), r.choice([5198, 5199, 1024, 1, 65535, 256])))
        elif k == 'zero':
            self.a('udp %d %s 44.1.2.3 0' % (r.randint(1, self.n), r.choice(['ctl', 'dat'])))
        elif k == 'open':
            ip = self.ip()
            m = self.pick(dict(ok=6, refuse=p['refuse'], unreach=p['refuse'] * .3, hang=p['hang']))
            self.a('host %s %s' % (ip, m))
            c = r.choice(ins)
            self.a('m %d open %s' % (c, ip))
            self.cl[c]['open'] = ip
            if m == 'hang' and r.random() < .8:
                if r.random() < .5:
                    self.a('settle')
                self.a('hostrel %s %s' % (ip, r.choice(['ok', 'refuse', 'timeout'])))
        elif k == 'data':
            op = [c for c in ins if self.cl[c].get('open')]
            c = r.choice(op if op and r.random() < .9 else ins)
            self.a('m %d data %d' % (c, self.size()))
        elif k == 'close':
            c = r.choice(ins)
            self.a('m %d close' % c)
            self.cl[c]['open'] = None
        elif k == 'empty':
            c = r.choice(ins)
            self.a(r.choice(['m %d udp ctl 44.1.2.3 0', 'm %d udp dat 44.1.2.3 0', 'm %d data 0']) % c)
        elif k == 'junk':
            c = r.choice(ins)
            t = r.choice([0, 4, 7, 8, 9, 127, 128, 255, 1, 3])
            self.a('m %d raw %d 1.2.3.4 %s %d' % (c, t, r.choice(['0', '1', '4', '4096', '0xffffffff', '70000']) if t not in (1, 3) else r.choice(['1', '5']), r.choice([0, 1, 20])))
            self.cl[c]['st'] = 'bad'
        elif k == 'half':
            c = r.choice(ins)
            m = r.choice(['udp ctl 44.1.2.3 50', 'open 192.168.9.9', 'data 40', 'close', 'udp dat 44.1.2.3 4096'])
            self.a('mc %d %d %s' % (r.randint(1, 12), c, m))
            self.cl[c]['st'] = 'bad'
        elif k == 'sneak':
            # traffic from a client that is not logged in
            c = r.choice(self.ids('bad', 'conn'))
            if self.cl[c]['st'] == 'conn':
                self.cl[c]['st'] = 'bad'
            for _ in range(r.randint(1, 3)):
                x = r.random()
                ip = self.ip()
                self.a('host %s ok' % ip)
                self.a('m %d %s' % (c, 'udp ctl 44.1.2.3 30' if x < .25 else 'udp dat 44.1.2.3 30' if x < .4 else 'open ' + ip if x < .75 else 'data 20' if x < .9 else 'close'))
            if r.random() < .5:
                self.a('login %d %s good' % (c, r.choice(CALLS)))
        elif k == 'frag':
            self.a('frag %d %d' % (r.choice(ins), r.choice([0, 0, 1, 3, 9, 10, 100])))
        elif k == 'hold':
            c = r.choice(ins)
            self.a('hold %d' % c)
            for _ in range(r.randint(2, 6)):
                kk = self.pick(dict(udp=p['udp'], open=p['open'], data=p['data'], close=p['close']))
                if kk == 'udp':
                    self.a('m %d udp %s 44.1.2.3 %d' % (c, r.choice(['ctl', 'dat']), r.randint(1, 40)))
                elif kk == 'open':
                    ip = self.ip()
                    self.a('host %s %s' % (ip, self.pick(dict(ok=6, refuse=p['refuse']))))
                    self.a('m %d open %s' % (c, ip))
                    self.cl[c]['open'] = ip
                elif kk == 'data':
                    self.a('m %d data %d' % (c, r.randint(1, 40)))
                else:
                    self.a('m %d close' % c)
            self.a('flush %d' % c)
            if r.random() < .2:
                self.end(c)
        elif k == 'win':
            c = r.choice(ins)
            if c in self.stalled:
                self.a('win %d -1' % c)
                self.stalled.discard(c)
            else:
                self.a('win %d %d' % (c, r.choice([0, 0, 1, 5, 9, 10, 50, 4096])))
                self.stalled.add(c)
        elif k == 'end':
            self.end(r.choice(live))
        elif k == 'rsend':
            self.a('rsend %s %d' % (r.choice(self.rem[-3:]), self.size()))
        elif k == 'rend':
            self.a('rend %s %s' % (r.choice(self.rem[-3:]), self.pick(dict(fin=p['fin'], close=p['close_'], rst=p['rst']))))
        elif k == 'rwin':
            self.a('rwin %s %d' % (r.choice(self.rem[-3:]), r.choice([0, 0, 1, 5, 20, -1, -1])))
        elif k == 'drop':
            self.a('api drop')
            if r.random() < .7:
                self.a('settle')
        elif k == 'cycle':
            self.cyc += 1
            if r.random() < .3:
                self.a('api shutdown')
            self.a('api close')
            for c in self.ids('in', 'conn', 'bad'):
                self.cl[c]['st'] = 'gone'
            if r.random() < .5:
                self.a('Q')
            if r.random() < .3 + .6 * self.p['repat']:
                self.reconf()
            elif r.random() < .3:
                self.a('api conf')
            for f in ('open', 'start', 'accept'):
                self.a('api ' + f)
            self.a('settle')
        elif k == 'tick':
            if r.random() < .8:
                self.a('Q')
            self.a('tick %d' % r.choice([1000, 30000, 127000, 300000, 599000, 600000, 601000, 1200000]))
        elif k == 'reg':
            x = self.pick(dict(ok=4, five=1, short=1, close=1, refuse=1, dnsfail=1))
            self.a('reg %s' % {'five': '500'}.get(x, x))
        elif k == 'fault':
            self.fault()

    def fault(self):
        r = self.r
        k, errs = r.choice([('malloc', [12]), ('socket', [24, 23]), ('bindudp', [98, 99]), ('pthread_create', [11]), ('sendto', UNREACH),
                            ('connect', [111, 113, 99]), ('recv', [104, 110, 12]), ('recvfrom', [111, 12]), ('send', [104, 32, 105, 12]), ('mutex_init', [12]),
                            ('cond_init', [12]), ('accept', [103, 24, 23]), ('connectreg', [111]), ('getaddrinfo', [1]), ('setsockopt', [22]), ('pcre2_match_data', [1]), ('pcre2_match', [1]), ('bindtcp', [98]), ('listen', [98])])
        self.a('fault %s %d %d' % (k, r.choice([1, 1, 1, 2, 3, 5]), r.choice(errs)))

    def end(self, c):
        self.a('%s %d' % (self.pick(dict(fin=self.p['fin'], close=self.p['close_'], rst=self.p['rst'])), c))
        self.cl[c]['st'] = 'gone'

    def finish(self):
        if self.p['fault']:
            self.a('nofault')
            self.a('Q')
            if self.r.random() < .7:
                # whatever failed is tried again, and a new client comes
                for f in ('init', 'conf', 'open', 'start', 'accept'):
                    self.a('api ' + f)
                self.a('settle')
                if self.r.random() < .5:
                    for c in self.ids('in', 'conn', 'bad'):
                        self.end(c)
                    self.a('settle')
                    for _ in range(self.n):
                        c = self.conn()
                        self.a('settle')
                        self.login(c, 'good')
                    self.a('Q')
                    c = self.r.choice(self.ids('in'))
                    self.a('m %d udp ctl 44.1.2.3 20' % c)
                    self.a('udp 1 dat 44.1.2.3 20 5198')
        for c in sorted(self.stalled):
            if self.r.random() < .7:
                self.a('win %d -1' % c)
        if self.r.random() < .8:
            self.a('Q')
        if self.r.random() < .3:
            self.a('api shutdown')
        self.a('api close')
        self.a('Q')
        self.a('api free')
        self.a('Q')

    def scenario(self, **cfg):
        self.header(**cfg)
        self.boot()
        for _ in range(self.len):
            self.step()
        self.finish()
        return self.out


def policies(rnd, k, ny=4000):
    out = ['B']
    while len(out) < k:
        x = rnd.random()
        if x < .5:
            out.append('R:%d:%d' % (rnd.randint(1, 10**6), rnd.choice([3, 10, 20, 35, 50])))
        else:
            out.append('P:%d:%d:%d' % (rnd.randint(1, 10**6), rnd.choice([1, 2, 3, 5, 8]), ny))
    return out[:k]


def with_policies(rnd, scens, k, ny=4000):
    out = []
    for sid, lines in scens:
        for i, p in enumerate(policies(rnd, k, ny)):
            out.append(('%s.%d' % (sid, i), [lines[0], 'pol ' + p] + lines[1:]))
    return out
