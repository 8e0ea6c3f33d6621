"""Under a virtual clock and a controlled time zone: all ordered pairs of an instant alphabet in every representation
through before/after/later_than, all offsets through the formatting functions and back; every text of the bounded duration
alphabet and all well-formed durations over component subsets, against a reference."""
import calendar
import datetime
import itertools
import os
import re
import time

from mc import target

TECHNIQUE = 'bounded exhaustive enumeration of instants/representations/offsets/durations against a reference'
LEVEL = 'model_checking'
BOUNDS = {'quick': '5 zones x 35 instants pairwise x 16 representation pairs; 60 offsets x 6 clocks; all duration texts to length 5 over 10 characters',
          'thorough': '8 zones, 60 instants, duration texts to length 6'}
FLOOR = {'quick': 100000, 'thorough': 1000000}

ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'AEST-10AEDT,M10.1.0,M4.1.0/3', 'XXX12', 'YYY-14', 'NPT-5:45']
t_ = lambda *a: calendar.timegm(a + (0,) * (6 - len(a)))
BASE = [t_(2020, 1, 1), t_(2020, 2, 29), t_(2020, 3, 1), t_(2020, 3, 29, 1), t_(2020, 10, 25, 1), t_(2019, 12, 31, 12), t_(2000, 2, 29, 23, 59, 59),
        t_(1970, 1, 1, 0, 0, 1), t_(2038, 1, 19, 3, 14, 8), t_(1999, 12, 31, 23, 59, 59), t_(2020, 7, 1), 10 ** 9]
MORE = [t_(2100, 3, 1), t_(1969, 12, 31, 23, 59, 58), t_(1900, 1, 1), t_(2020, 11, 1, 6), t_(2020, 3, 8, 7), t_(9999, 12, 30), t_(1600, 1, 1), t_(2016, 12, 31, 23, 59, 59)]
CHARS = 'PT-1YMDHS.'
DUR = re.compile(r'(-?)P(?=[0-9T])(?:([0-9]+)Y)?(?:([0-9]+)M)?(?:([0-9]+)D)?(?:T(?=[0-9])(?:([0-9]+)H)?(?:([0-9]+)M)?(?:([0-9]+(?:\.[0-9]+)?)S)?)?', re.A)
FIELDS = ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec')


def shards(tier):
    zs = range(len(ZONES) if tier == 'thorough' else 5)
    return [('cmp', z) for z in zs] + [('off', z) for z in zs] + [('text', c, d) for c in CHARS for d in CHARS] + [('dur', i) for i in range(4)]


def zone(z):
    os.environ['TZ'] = z
    time.tzset()


def text(t):
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    return '%04d-%02d-%02dT%02d:%02d:%02dZ' % (d.year, d.month, d.day, d.hour, d.minute, d.second)


def forms(t):
    return {'text': text(t), 'fraction': text(t)[:-1] + '.5Z', 'seconds': t, 'gmtime': time.gmtime(t), 'strptime': time.strptime(text(t), '%Y-%m-%dT%H:%M:%SZ')}


def ref_duration(txt):
    m = DUR.fullmatch(txt)
    if not m:
        return None
    vals = [float(v) if v and '.' in v else int(v or 0) for v in m.groups()[1:]]
    return (m.group(1) or '+', dict(zip(FIELDS, vals)))


def duration(ck, txt, sig):
    from oidcmsg import time_util as tu
    ck.begin(txt)
    exp = ref_duration(txt)
    try:
        s, d = tu.parse_duration(txt)
        got = (s, {f: d.get(f) for f in FIELDS})
        extra = {k: v for k, v in d.items() if k not in FIELDS and v}
    except Exception as e:
        got, extra = None, None
    ck.case(('duration', txt), 'refused' if got is None else 'parsed')
    ck.expect(got == exp and not extra, sig + (' accepted' if exp is None else ' wrong' if got else ' refused'), '%r -> %r, expected %r' % (txt, got, exp))


def run(ck, shard):
    from oidcmsg import time_util as tu
    if shard[0] == 'text':
        n = 6 if ck.thorough else 5
        first = shard[1] + shard[2]
        if shard[2] == CHARS[0]:
            duration(ck, shard[1], 'duration text')
        for ln in range(0, n - 1):
            for rest in itertools.product(CHARS, repeat=ln):
                duration(ck, first + ''.join(rest), 'duration text')
        if shard[1] == shard[2] == 'P':
            for t in ('', 'P1Y2M3DT4H5M6S\n', ' P1Y', 'P1Y ', 'p1y', 'P\u0661Y', 'P1YT', 'PT1.5M', 'P1.5Y', 'P1DT1S1', 'P1MT1M1M', 'P1S', 'P1H', 'PT1Y', 'PT1D',
                      'P1D1M', 'PT1M1H', 'P+1Y', 'P1Y-1M', '+P1Y', '--P1Y', 'PT.5S', 'PT1.S', 'PT1e3S', 'P1_0Y', 'P 1Y', 'PT1,5S', 'PTinfS', 'PTnanS', 'P1YP1Y'):
                duration(ck, t, 'duration text')
        return
    if shard[0] == 'dur':
        opts = [['0', '1', '12', '007', '1000', '1234567890', '98765432109876543210', '0' * 30 + '1'] for _ in range(5)] + [['0', '1', '59', '0.5', '12.25', '007.0', '1234567890', '1234567890.125', '4' * 22]]
        letters = 'YMDHMS'
        for names in itertools.chain.from_iterable(itertools.combinations(range(6), n) for n in range(7)):
            for n, combo in enumerate(itertools.product(*[opts[i] if ck.thorough else opts[i][:3] if len(names) > 3 else opts[i] for i in names])):
                if n % 4 != shard[1]:
                    continue
                d = ''.join(v + letters[i] for i, v in zip(names, combo) if i < 3)
                tm = ''.join(v + letters[i] for i, v in zip(names, combo) if i >= 3)
                for sign in ('', '-'):
                    duration(ck, sign + 'P' + d + ('T' + tm if tm else ''), 'duration')
        return
    sh = target.shim()
    zone(ZONES[shard[1]])
    try:
        bases = BASE + (MORE if ck.thorough else MORE[:3])
        insts = sorted({b + o for b in bases for o in (-1, 0, 1)})
        if shard[0] == 'cmp':
            for now in insts:
                for frac in (0, 0.9):
                    sh.clock(now + frac)
                    for f in ('', None, 0):
                        # no point in time: no restriction
                        ck.begin((ZONES[shard[1]], now + frac, 'none', f))
                        r = [bool(x(f)) for x in (tu.before, tu.after, tu.valid, tu.not_before, tu.not_on_or_after)]
                        ck.case((shard[1], now, frac, 'none', repr(f)), 'no restriction')
                        ck.expect(all(r), 'no point', '%r for %r' % (r, f))
                    for p in insts:
                        for how, f in forms(p).items():
                            if how == 'seconds' and p == 0:
                                continue     # means no point in time
                            ck.begin((ZONES[shard[1]], now + frac, how, p))
                            b, a = bool(tu.before(f)), bool(tu.after(f))
                            ck.case((shard[1], now, frac, how, p), 'future' if b else 'past')
                            ck.expect(b == (now < p), 'before ' + how, 'before(%r) = %r at %d' % (f, b, now))
                            ck.expect(a == (not b), 'after ' + how, 'after(%r) = %r at %d' % (f, a, now))
                            ck.expect(bool(tu.not_before(f)) == a and bool(tu.not_on_or_after(f)) == b and bool(tu.valid(f)) == b, 'alias', 'aliases differ for %r' % (f,))
                if not insts:
                    continue
                fn = forms(now)
                for p in insts:
                    fp = forms(p)
                    for (h1, f1), (h2, f2) in itertools.product(fn.items(), fp.items()):
                        if 'fraction' in (h1, h2) and h1 != h2:
                            continue
                        ck.begin((ZONES[shard[1]], h1, now, h2, p))
                        r = bool(tu.later_than(f1, f2))
                        ck.case((shard[1], 'later', h1, now, h2, p), 'later' if r else 'earlier')
                        ck.expect(r == (now >= p), 'later_than %s' % ('equal' if now == p else 'order'), 'later_than(%r, %r) = %r' % (f1, f2, r))
            return
        for now in range(t_(2020, 1, 1), t_(2021, 1, 1), 1800):
            # also texts whose hour does not exist, or exists twice, in the local zone
            ck.begin((ZONES[shard[1]], 'text', now))
            for f in ('', '.5', '.000', '.123456'):
                got = tuple(tu.str_to_time(text(now)[:-1] + f + 'Z'))[:6]
                ck.step()
                ck.expect(got == time.gmtime(now)[:6], 'parsing a time', lambda: 'the time %s is read as %r' % (text(now)[:-1] + f + 'Z', got))
            ck.case((shard[1], 'text', now), 'parsed')
        units = [{}, {'days': 1}, {'seconds': 1}, {'minutes': 1}, {'hours': 1}, {'weeks': 1}, {'microseconds': 1}, {'milliseconds': 1}, {'days': 366}, {'days': -1},
                 {'seconds': 86399}, {'seconds': -1}, {'milliseconds': 1500}, {'microseconds': 999999}, {'days': 1, 'seconds': 2, 'microseconds': 3,
                 'milliseconds': 4, 'minutes': 5, 'hours': 6, 'weeks': 7}, {'hours': 23, 'minutes': 59, 'seconds': 59}, {'weeks': -3, 'days': 20}, {'days': 10000}]
        mult = {'days': 86400 * 10 ** 6, 'seconds': 10 ** 6, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60 * 10 ** 6, 'hours': 3600 * 10 ** 6, 'weeks': 7 * 86400 * 10 ** 6}
        for now in insts:
            if now < 0 or now > 4 * 10 ** 9:
                continue
            for us in (0, 1, 500000, 999999):
                sh.L.mc_clock_set(now * 10 ** 9 + us * 1000, 0)
                for name, f in (('utc_time_sans_frac', tu.utc_time_sans_frac), ('time_sans_frac', tu.time_sans_frac)):
                    ck.begin((name, now, us))
                    ck.case((shard[1], name, now, us), name)
                    ck.expect(f() == now, name, '%r at %d.%06d' % (f(), now, us))
                ck.expect(tu.instant() == text(now), 'instant', '%r at %d' % (tu.instant(), now))
                for u in units:
                    ck.begin((ZONES[shard[1]], now, us, u))
                    total = sum(mult[k] * v for k, v in u.items())
                    for sign, fmt, dt in ((1, tu.in_a_while, tu.time_in_a_while), (-1, tu.a_while_ago, tu.time_a_while_ago)):
                        exp = (now * 10 ** 6 + us + sign * total) // 10 ** 6
                        if exp < -62135596800 + 10 ** 10 * 0 or exp < -30000000000:
                            continue
                        s = fmt(**u)
                        got = calendar.timegm(tu.str_to_time(s))
                        ck.case((shard[1], sign, now, us, repr(u)), 'ahead' if sign > 0 else 'ago')
                        ck.expect(s == text(exp) and got == exp, 'offset ' + ('ahead' if sign > 0 else 'ago'), '%r at %d.%06d -> %r -> %r, expected %d' % (u, now, us, s, got, exp))
                        d = dt(**u)
                        ck.expect(calendar.timegm(d.timetuple()) == exp, 'datetime', '%r' % d)
                        ck.expect((sign < 0 or fmt(time_format='', **u) == s) and calendar.timegm(tu.str_to_time(s, '%Y-%m-%dT%H:%M:%SZ')) == exp, 'default format', s)
                        s2 = fmt(time_format='%d/%m/%Y %H.%M.%S', **u)
                        ck.expect(calendar.timegm(tu.str_to_time(s2, '%d/%m/%Y %H.%M.%S')) == exp, 'own format', s2)
                        if sign > 0 and exp >= 0:
                            e = tu.epoch_in_a_while(**u)
                            ck.expect(e == exp, 'epoch_in_a_while', '%r at %d.%06d: %r, expected %d' % (u, now, us, e, exp))
                        ck.expect(bool(tu.before(s)) == (now < exp), 'before formatted', '%s at %d' % (s, now))
                for sft in (0, 1, -1, 86400, -86400 * 365, 0.5):
                    d0 = datetime.datetime(2020, 2, 28, 23, 59, 59)
                    ck.expect((tu.shift_time(d0, sft) - d0).total_seconds() == sft, 'shift', 'shift by %r' % sft)
    finally:
        sh.clock_off()
        zone('UTC')
