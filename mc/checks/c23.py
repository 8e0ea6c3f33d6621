"""All triples (instant, current season, time zone) over instants around daylight saving switches, year ends and the epoch and
zones with and without daylight saving, half-hour and negative offsets, both ways; time-stamped messages go from every zone
to every zone. The clock and the zone of the process are controlled."""
import calendar
import datetime
import json
import os
import time

from mc import target

TECHNIQUE = 'bounded exhaustive enumeration of (instant, now, zone) under a virtual clock and time zone'
LEVEL = 'model_checking'
BOUNDS = {'quick': '13 zones x 100 instants x 3 current times; all zone pairs x 14 instants x 7 message parameters x 3 encodings',
          'thorough': 'an instant every 10 minutes around every switch of 3 years'}
FLOOR = {'quick': 10000, 'thorough': 100000}

ZONES = ['UTC0', 'CET-1CEST,M3.5.0,M10.5.0/3', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30', 'NPT-5:45', 'AEST-10AEDT,M10.1.0,M4.1.0/3',
         'NST3:30NDT,M3.2.0,M11.1.0', 'LHST-10:30LHDT-11,M10.1.0,M4.1.0', 'XXX12', 'YYY-14', 'GMT0BST,M3.5.0/1,M10.5.0', 'XXX0:44:30', 'YYY-0:19:32YYS,M3.5.0,M10.5.0/3']
NOWS = [1578700000, 1594700000, 1603587600]      # January, July, a switch


def instants(thorough):
    res = {0, 1, -1, 951782399, 951782400, 2 ** 31 - 1, 2 ** 31, 253402300799 - 86400 * 2, -2208988800, 1582934399}
    for y in (1999, 2020, 2021) if not thorough else (1970, 1999, 2000, 2019, 2020, 2021, 2038):
        e = calendar.timegm((y, 1, 1, 0, 0, 0))
        res |= {e - 1, e, e + 1, e + 43200}
    t = lambda *a: calendar.timegm(a + (0,) * (6 - len(a)))
    # European, American and Australian switches
    for s in (t(2020, 3, 29, 1), t(2020, 10, 25, 1), t(2020, 3, 8, 7), t(2020, 11, 1, 6), t(2020, 4, 4, 16), t(2020, 10, 3, 16), t(2019, 10, 27, 1)):
        offs = (-7200, -3601, -3600, -1801, -1800, -1, 0, 1, 1799, 1800, 3599, 3600, 3601, 7200)
        if thorough:
            offs = sorted(set(offs) | set(range(-8 * 3600, 8 * 3600, 600)))
        res |= {s + o for o in offs}
    return sorted(res)


def shards(tier):
    return [('conv', i) for i in range(len(ZONES))] + [('msg', i) for i in range(len(ZONES))]


def zone(z):
    os.environ['TZ'] = z
    time.tzset()


def dates(ck, ia, z, now, t, App):
    """the day of an instant is the local one, and a day stays the same day"""
    d = datetime.datetime.fromtimestamp(t)
    txt = '%04d-%02d-%02d' % (d.year, d.month, d.day)
    forms = {'int': t, 'float': t + .0, 'naive': d}
    for how, v in forms.items():
        got = ia.to_iso8601_2004_date(v)
        ck.case((z, now, t, 'date', how), 'date')
        ck.expect(got == txt, 'date ' + how, '%r in %s -> %s, expected %s' % (v, z, got, txt))
    for off in (0, 60, -300, 345, 14 * 60):
        a = datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(minutes=off)))
        got = ia.to_iso8601_2004_date(a)
        ck.expect(got == '%04d-%02d-%02d' % (a.year, a.month, a.day), 'date aware', '%r in %s -> %s' % (a, z, got))
    for v in (t, float(t), str(t), txt) + ((t + .25, t + .75) if t >= 0 else ()):
        ck.expect(ia.date_ser(v) == txt, 'date serializer', '%r -> %r' % (v, ia.date_ser(v)))
    for back in (ia.from_iso8601_2004_date(txt), ia.date_deser(txt)):
        b = datetime.datetime.fromtimestamp(back)
        ck.expect((b.year, b.month, b.day) == (d.year, d.month, d.day) and ia.to_iso8601_2004_date(back) == txt and (ia.date_deser(back), ia.time_stamp_deser(back)) == (back, back),
                  'date back', '%s in %s -> %r' % (txt, z, back))
    for v in (t, txt):
        m = App(d=v, r=v)
        w = json.loads(m.to_json())
        ck.expect(w == m.to_dict() == {'d': txt, 'r': txt}, 'date in a message', '%r in %s -> %r' % (v, z, w))
        # text already is what it is going to be
        for r in (App(**w), App().from_json(json.dumps(w)), App().from_urlencoded(m.to_urlencoded())):
            ck.expect(r.to_dict() == w, 'date forwarded', '%r in %s -> %r' % (w, z, r.to_dict()))
    ck.step(6)


def run(ck, shard):
    from mc import alpha
    from oidcmsg.oidc import identity_assurance as ia
    sh = target.shim()
    try:
        if shard[0] == 'conv':
            from oidcmsg.message import Message

            class App(Message):
                c_param = {'d': ia.OPTIONAL_DATE, 'r': ia.REQURIED_DATE, 't': ia.OPTIONAL_TIME_STAMP}
            z = ZONES[shard[1]]
            zone(z)
            for f in (ia.to_iso8601_2004_time, ia.to_iso8601_2004_date, ia.time_stamp_ser, ia.date_ser):
                for v in ([], {}, [1], ('2020',), b'2020', datetime.time(1)):
                    ck.begin((f.__name__, v))
                    try:
                        r = f(v)
                    except Exception as e:
                        r = e
                    ck.case((z, f.__name__, repr(v)), type(r).__name__)
                    ck.expect(isinstance(r, ValueError), 'no time', '%s(%r) gives %r' % (f.__name__, v, r))
            for now in NOWS:
                sh.clock(now + 0.25)
                for t in instants(ck.thorough):
                    ck.begin((z, now, t))
                    forms = {'int': t, 'float': float(t)}
                    forms['naive'] = datetime.datetime.fromtimestamp(t)
                    for off in (0, 60, -300, 345, 14 * 60):
                        forms['aware%+d' % off] = datetime.datetime.fromtimestamp(t, datetime.timezone(datetime.timedelta(minutes=off)))
                    for how, v in forms.items():
                        txt = ia.to_iso8601_2004_time(v)
                        back = ia.from_iso8601_2004_time(txt)
                        ck.case((z, now, t, how), txt[-5:])
                        ck.expect(back == t, 'instant ' + how.rstrip('0123456789+-'), '%r in %s at %d -> %s -> %r' % (v, z, now, txt, back))
                        # an independent reading of the text
                        ck.expect(datetime.datetime.strptime(txt, '%Y-%m-%dT%H:%M:%S%z').timestamp() == t and len(txt) in (24, 26), 'text ' + how.rstrip('0123456789+-'),
                                  '%r in %s -> %s' % (v, z, txt))
                        if how.startswith('aware'):
                            ck.expect(txt[-5:] == v.strftime('%z'), 'zone of aware time', '%r -> %s' % (v, txt))
                    for ser in (t, float(t), str(t)) + ((t + .25, t + .75) if t >= 0 else ()):
                        ck.expect(ia.from_iso8601_2004_time(ia.time_stamp_ser(ser)) == t, 'serializer', '%r -> %s' % (ser, ia.time_stamp_ser(ser)))
                        ck.step()
                    dates(ck, ia, z, now, t, App)
                txt = ia.to_iso8601_2004_date()
                ck.case((z, now, 'today'), 'today')
                ck.expect(txt == datetime.datetime.fromtimestamp(now).strftime('%Y-%m-%d'), 'today', 'now %d in %s -> %s' % (now, z, txt))
                txt = ia.to_iso8601_2004_time()
                ck.case((z, now, 'now'), txt[-5:])
                ck.expect(ia.from_iso8601_2004_time(txt) == now, 'now', 'now %d -> %s' % (now, txt))
            return
        params = [('oidc.identity_assurance.' + c, p) for c, p in
                  (('Document', 'date_of_issuance'), ('Document', 'date_of_expiry'), ('IdDocument', 'time'), ('UtilityBill', 'date'), ('QES', 'created_at'),
                   ('VerificationElement', 'time'), ('VerificationElementRequest', 'time'))]
        cls = alpha.classes()
        z1 = ZONES[shard[1]]
        some = [0, 1, -1, 1577836799, 1577836800, 1585443599, 1585443600, 1603587599, 1603587600, 1603591200, 1594700000, 1582934400, 951782400, 4102444800]
        if ck.thorough:
            some = instants(False)
        for z2 in ZONES:
            for n, t in enumerate(some):
                now = NOWS[n % 3]
                for cn, p in params:
                    c = cls[cn]
                    for v in (t, float(t)):
                        for how in ('dict', 'json', 'form', 'set'):
                            ck.begin((z1, z2, t, cn, p, how))
                            sh.clock(now)
                            zone(z1)
                            if how == 'set':
                                m = c()
                                m[p] = v
                            else:
                                m = c(**{p: v})
                            m.lax = True
                            wire = {'dict': m.to_dict, 'set': m.to_dict, 'json': m.to_json, 'form': m.to_urlencoded}[how]()
                            again = {'dict': m.to_dict, 'set': m.to_dict, 'json': m.to_json, 'form': m.to_urlencoded}[how]()
                            zone(z2)
                            sh.clock(NOWS[(n + 1) % 3])
                            r = {'dict': c().from_dict, 'set': c().from_dict, 'json': c().from_json, 'form': c().from_urlencoded}[how](wire)
                            got = r[p]
                            inst = got if isinstance(got, (int, float)) and not isinstance(got, bool) else ia.from_iso8601_2004_time(got)
                            ck.case((z1, z2, t, cn, p, how), how)
                            ck.expect(inst == t and wire == again, 'message ' + how, '%s.%s = %r in %s -> %r -> in %s %r' % (cn, p, v, z1, wire, z2, got))
                            # and on from there
                            r.lax = True
                            wire2 = r.to_dict()[p]
                            zone(z1)
                            ck.expect(ia.from_iso8601_2004_time(wire2) == t, 'message forwarded ' + how, '%r in %s -> %r in %s -> %r' % (v, z1, wire, z2, wire2))
    finally:
        sh.clock_off()
        zone('UTC')
