"""C16, C19: date and time ranges; deprecated names; through any history."""
import copy
import datetime
import importlib
import pickle
import random
import sys
import warnings
from sim import seams, world
from sim.execu import (Violation, Subject, must, faulty, gen_arm, run_threads,
                       drain)
from sim.props_a import Prop, gen_n, gen_seed_s
from sim.world import G, norm

US = {'microseconds': 1, 'seconds': 10 ** 6, 'minutes': 60 * 10 ** 6,
      'hours': 3600 * 10 ** 6, 'days': 86400 * 10 ** 6,
      'weeks': 7 * 86400 * 10 ** 6}
DAY = US['days']
LAST = (datetime.date.max.toordinal() + 1) * DAY - 1
FIRST = DAY                  # the ordinal of date.min is 1


class Summer(datetime.tzinfo):
    """A time zone whose clocks are changed twice a year."""

    BASE = datetime.timedelta(hours=-5)
    HOUR = datetime.timedelta(hours=1)

    @staticmethod
    def changes(year):
        """When, by the clock that was right until then."""
        return (datetime.datetime(year, 3, 10, 2),
                datetime.datetime(year, 11, 3, 2))

    def dst(self, dt):
        wall = dt.replace(tzinfo=None, fold=0)
        on, off = self.changes(dt.year)
        if dt.fold:
            off -= self.HOUR
        else:
            on += self.HOUR
        return self.HOUR if on <= wall < off else datetime.timedelta(0)

    def utcoffset(self, dt):
        return None if dt is None else self.BASE + self.dst(dt)

    def tzname(self, dt):
        return 'SIM'

    def fromutc(self, dt):
        utc = dt.replace(tzinfo=None)
        on, off = self.changes(dt.year)
        on, off = on - self.BASE, off - self.BASE - self.HOUR
        if on <= utc < off:
            return dt + self.BASE + self.HOUR
        return (dt + self.BASE).replace(
            fold=1 if off <= utc < off + self.HOUR else 0)

    def __reduce__(self):
        return 'SUMMER'

    @classmethod
    def near_change(cls, us):
        """True within a few hours of a change."""
        at = value('datetime', us, None)
        return any(abs(at - c) < 4 * cls.HOUR
                   for c in cls.changes(at.year))


SUMMER = Summer()


def zone(tz):
    if tz is None:
        return None
    if tz == 'dst':
        return SUMMER
    return datetime.timezone(datetime.timedelta(minutes=tz))


def value(kind, us, tz):
    """The date or time that is so many microseconds from the origin."""
    day, rest = divmod(us, DAY)
    sec, micro = divmod(rest, 10 ** 6)
    clock = datetime.time(sec // 3600, sec // 60 % 60, sec % 60, micro,
                          tzinfo=zone(tz))
    if kind == 'time':
        return clock
    date = datetime.date.fromordinal(day)
    if kind == 'date':
        return date
    return datetime.datetime.combine(date, clock)


def micros(val):
    """Microseconds from the origin, by the clock it is told by."""
    days = val.toordinal() if isinstance(val, datetime.date) else 0
    if not isinstance(val, datetime.datetime) and days:
        return days * DAY
    return days * DAY + ((val.hour * 60 + val.minute) * 60 +
                         val.second) * 10 ** 6 + val.microsecond


def tell(val, tz):
    """The same moment by another clock."""
    if isinstance(val, datetime.datetime):
        return val.astimezone(zone(tz))
    shift = zone(tz).utcoffset(None) - val.utcoffset()
    us = micros(val) + shift // datetime.timedelta(microseconds=1)
    return value('time', us % DAY, tz)


class Day(datetime.date):
    """A user's own kind of date."""


class Moment(datetime.datetime):
    """A user's own kind of datetime."""


class Clock(datetime.time):
    """A user's own kind of time."""


def own(val):
    """The same value of a user's own class."""
    if isinstance(val, datetime.datetime):
        return Moment.combine(val, val.timetz())
    if isinstance(val, datetime.date):
        return Day.fromordinal(val.toordinal())
    return Clock.fromisoformat(val.isoformat())


class Model:
    """The list a range describes, as arithmetic."""

    def __init__(self, kind, us, step, n, tz, sub=False):
        self.kind, self.us, self.step, self.n, self.tz = kind, us, step, n, tz
        self.sub = sub

    def __getitem__(self, i):
        """i in 0..n-1"""
        val = value(self.kind, self.us + i * self.step, self.tz)
        return own(val) if self.sub else val

    def valid(self, i):
        return self.kind == 'time' or \
            FIRST <= self.us + i * self.step <= LAST

    def slice(self, *args):
        a, b, c = slice(*args).indices(self.n)
        n = max(0, -(-(b - a) // c))
        return Model(self.kind, self.us + a * self.step, self.step * c, n,
                     self.tz, self.sub)

    def find(self, us):
        """Position of a value of the same kind and zone, or None."""
        d = us - self.us
        if self.kind == 'time':
            d %= DAY
            if self.step < 0:
                d = -((-d) % DAY)
        if self.n == 1:
            return 0 if d == 0 else None
        if not self.n or d % self.step:
            return None
        q = d // self.step
        return q if 0 <= q < self.n else None

    def places(self, us):
        """All positions of a value; a time may come again the next day."""
        if self.kind != 'time' or (self.n - 1) * abs(self.step) < DAY:
            at = self.find(us)
            return [] if at is None else [at]
        return [i for i in range(self.n)
                if (self.us + i * self.step - us) % DAY == 0]

    def same(self, other):
        """True if both are the same list; None if not worth saying."""
        if self.n != other.n:
            return False
        if self.n == 0:
            return True
        if self[0] != other[0]:
            return False
        if self.n == 1:
            return True
        if 'dst' in (self.tz, other.tz) and self.tz != other.tz:
            if self.n > 3000:
                return None
            return all(self[i] == other[i] for i in range(self.n))
        if self.kind == 'time' and other.kind == 'time':
            if self.step != other.step and self[1] == other[1]:
                return None
        return self[1] == other[1]


def gen_summer(rng):
    """A range by a clock that is changed."""
    unit, k = rng.choice([('days', 1), ('days', 7), ('hours', 1),
                          ('hours', 5), ('hours', 12), ('minutes', 30),
                          ('minutes', 17), ('weeks', 3), ('seconds', 3600),
                          ('days', 100)])
    if rng.random() < .3:
        k = -k
    step = k * US[unit]
    n = rng.choice([0, 1, 2, 3, 5, 8, 24, 50, 200, 800])
    n = min(n, 20000 * DAY // abs(step))
    us = datetime.date(rng.choice([1999, 2023, 2024]),
                       rng.choice([1, 3, 3, 7, 10, 11, 11, 12]),
                       rng.choice([1, 2, 3, 9, 10, 11, 28])
                       ).toordinal() * DAY
    us += rng.choice([0, 60, 90, 120, 150, 180, 720, rng.randrange(1440)]
                     ) * US['minutes']
    if rng.random() < .3:
        us -= n * step // 2
    spec = {'kind': 'datetime', 'us': us, 'step': step, 'n': n, 'tz': 'dst',
            'how': 'cls'}
    stop = us + n * step
    if rng.random() < .6 and not Summer.near_change(stop):
        spec.update(how='fac', stop=stop, unit=unit, k=k,
                    iso=[False, False], unit_given=rng.random() < .8)
        if rng.random() < .6:
            spec['stz'] = rng.choice([0, 60, -300, 345, -1439])
            spec['iso'][1] = rng.random() < .5
    return spec


def gen_range(rng):
    kind = rng.choice(['date', 'datetime', 'time'])
    tz = None
    if kind != 'date' and rng.random() < .3:
        tz = rng.choice([0, 60, -300, 345, 1439, -1439])
        if kind == 'datetime' and rng.random() < .4:
            return gen_summer(rng)
    units = {'date': ['days', 'days', 'weeks'],
             'time': ['hours', 'minutes', 'seconds', 'microseconds'],
             'datetime': list(US)}[kind]
    unit = rng.choice(units)
    k = rng.choice([1, 1, 1, 2, 3, 5, 7, 11, 23, 25, 59, 100, 1000])
    if rng.random() < .3:
        k = -k
    if kind == 'time' and abs(k * US[unit]) >= DAY:
        k = -1 if k < 0 else 1
    step = k * US[unit]
    n = rng.choice([0, 1, 2, 2, 3, 4, 5, 6, 8, 12, 24, 31, 60, 366, 1000,
                    27394, 86400, 10 ** 6])
    if kind == 'time':
        us = rng.choice([0, 0, DAY - 1, DAY // 2, 23 * US['hours'],
                         US['hours'], rng.randrange(DAY)])
        if rng.random() < .6:
            us -= us % US['seconds']
        n = min(n, -(-DAY // abs(step)))
        if rng.random() < .25:
            n = -(-DAY // abs(step))
    else:
        far = (n + 1) * abs(step)
        p = rng.random()
        if p < .15:
            us = FIRST
        elif p < .3:
            us = LAST
        elif p < .6:
            us = datetime.date(rng.choice([1999, 2000, 2019, 2023, 2024]),
                               rng.choice([1, 2, 12]),
                               rng.choice([1, 28, 28])).toordinal() * DAY
        else:
            us = rng.randrange(1, 3652059) * DAY
        if kind == 'datetime' and rng.random() < .6:
            us = us // DAY * DAY + rng.choice(
                [0, DAY - 1, rng.randrange(DAY),
                 rng.randrange(86400) * 10 ** 6])
        lo, hi = FIRST, LAST
        if step > 0:
            hi = max(lo, LAST - far) if rng.random() < .7 else LAST
        else:
            lo = min(hi, FIRST + far) if rng.random() < .7 else FIRST
        us = min(max(us, lo), hi)
        if kind == 'date':
            us -= us % DAY
        room = (LAST - us if step > 0 else us - FIRST) // abs(step) + 1
        n = min(n, room)
    spec = {'kind': kind, 'us': us, 'step': step, 'n': n, 'tz': tz,
            'how': 'cls'}
    if kind == 'time' and abs(step) >= US['minutes'] and \
            rng.random() < .05:
        # On into the next day, or the one after.
        spec['n'] = min(400, -(-DAY // abs(step)) + rng.randrange(40))
        return spec
    if rng.random() < .55:
        grain = DAY if kind == 'date' else 1
        late = rng.choice([0, 0, 0, rng.randrange(0, abs(step), grain)
                           if abs(step) > grain else 0])
        span = n * abs(step) - late
        if kind != 'time' and n == 0:
            span = -rng.choice([0, 0, grain, abs(step), 3 * abs(step) + grain])
        if kind == 'time':
            full = -(-DAY // abs(step))
            if n == 0:
                return spec
            if n == full and rng.random() < .7:
                span = DAY
            if span > DAY:
                span = DAY
        stop = us + (span if step > 0 else -span)
        if kind == 'time':
            stop %= DAY
        elif not FIRST <= stop <= LAST:
            return spec
        spec.update(how='fac', stop=stop, unit=unit, k=k,
                    iso=[rng.random() < .5, rng.random() < .5],
                    unit_given=rng.random() < .8)
    return spec


class C16(Prop):
    """A range reads as the list it describes, whatever was read before."""

    id = 'C16'
    quick_runs = 30000
    thorough_runs = 1000000
    shrink_lists = ('ops', 'sched')

    READS = ('get', 'get', 'get', 'slice', 'slice', 'len', 'in', 'in',
             'index', 'index', 'count', 'stop', 'attrs', 'eq', 'eq', 'list',
             'iter', 'next', 'next', 'next', 'repr', 'set', 'copy', 'emit',
             'pick', 'bad')

    def gen(self, rng, run):
        specs = [gen_range(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
        for s in specs:
            if s['kind'] != 'time' and rng.random() < .12:
                s['sub'] = True
                if 'iso' in s:
                    s['iso'] = [False, False]
        if rng.random() < .3:
            near = dict(rng.choice(specs))
            near = {k: near[k] for k in ('kind', 'us', 'step', 'n', 'tz')}
            near['how'] = 'cls'
            what = rng.choice(['n', 'step', 'tz', 'same', 'few', 'few',
                               'instant', 'instant'])
            if near['tz'] == 'dst' and what == 'instant':
                to = rng.choice([0, 90, -300, -240])
                near.update(tz=to, us=micros(tell(value(
                    'datetime', near['us'], 'dst'), to)))
                what = 'same'
            if what == 'few':
                # Of few values, what would come next does not matter.
                near['n'] = min(near['n'], rng.choice([0, 1, 1]))
                twin = dict(near)
                if near['n']:
                    twin['step'] = -near['step']
                else:
                    twin = dict(gen_range(rng), n=0, how='cls')
                specs.append(twin)
            elif what == 'n' and near['n']:
                near['n'] -= 1
            elif what == 'step' and near['n'] < 2:
                near['step'] *= -1
            elif what == 'tz' and near['kind'] != 'date':
                near['tz'] = 120 if near['tz'] is None else None
            elif what == 'instant' and near['kind'] != 'date' and \
                    near['tz'] is not None:
                # The same moments, told by other clocks.
                to = rng.choice([0, 90, -300, 600])
                us = near['us'] + (to - near['tz']) * US['minutes']
                last = us + near['n'] * near['step']
                if near['kind'] == 'time' and 0 <= us < DAY or \
                        near['kind'] != 'time' and \
                        FIRST + 3 * DAY < min(us, last) and \
                        max(us, last) < LAST - 3 * DAY:
                    near.update(us=us, tz=to)
            specs.append(near)
        threads = rng.choice([0, 0, 0, 2, 3])
        ops = []
        for _ in range(rng.randint(3, 26)):
            op = {'o': rng.choice(self.READS), 'x': rng.randrange(1000),
                  'i': rng.choice([0, 0, 1, -1, 2, -2, 5, 1000000, -1000000,
                                   rng.randrange(-40, 40)]),
                  'j': rng.randrange(10 ** 7),
                  'how': rng.randrange(14)}
            if op['o'] == 'slice':
                def end():
                    return rng.choice([None, None, 0, 1, -1, 2, 3, -3, 10,
                                       -20, 100, 10 ** 7, -10 ** 7,
                                       rng.randrange(-50, 50)])
                op['s'] = [end(), end(), rng.choice(
                    [None, None, 1, -1, 2, -2, 3, 7, -5, 24, -30, 10 ** 6])]
            elif op['o'] == 'index':
                op['s'] = [rng.choice([None, None, 0, 1, -1, -3, 5, 10 ** 7]),
                           rng.choice([None, None, 1, 3, -1, 20, 10 ** 7])]
            if threads:
                op['t'] = rng.randrange(threads)
            elif rng.random() < .2:
                op['arm'] = gen_arm(rng, ('intr',))
                op['arm']['k'] = rng.randrange(14)
            ops.append(op)
        plan = {'specs': specs, 'ops': ops, 'threads': threads}
        if threads:
            plan['sched'] = [[rng.randrange(threads),
                              rng.choice([1, 1, 2, 3, 5, 8, 20])]
                             for _ in range(rng.randint(5, 60))]
        return plan

    # ---- building ----

    @staticmethod
    def build(run, lib, s):
        us = s['us'] % DAY if s['kind'] == 'time' else max(FIRST, s['us'])
        start = value(s['kind'], us, s['tz'])
        sub = s.get('sub', False)
        if sub:
            start = own(start)
        if s['how'] == 'cls':
            m = Model(s['kind'], us, s['step'], s['n'], s['tz'], sub)
            out = run.call(lib.dtrange.DateOrTimeRange, start, s['n'],
                           datetime.timedelta(microseconds=s['step']))
        else:
            step = s['k'] * US[s['unit']] or DAY
            span = s['stop'] - us if step > 0 else us - s['stop']
            if s['kind'] == 'time':
                span = span % DAY or DAY
            m = Model(s['kind'], us, step, max(0, -(-span // abs(step))),
                      s['tz'], sub)
            stop = value(s['kind'], s['stop'], s['tz'])
            if 'stz' in s:
                stop = tell(stop, s['stz'])
            if sub:
                stop = own(stop)
            args = [v.isoformat() if iso else v
                    for v, iso in zip((start, stop), s['iso'])]
            usual = 'days' if s['kind'] == 'date' else 'seconds'
            if not s['unit_given'] and s['unit'] == usual:
                if s['k'] != 1:
                    args.append(s['k'])
            else:
                args += [s['k'], s['unit']]
            out = run.call(lib.dtrange.dtrange, *args)
        return must(out, f'building {s}'), m

    def execute(self, run, plan):
        lib = seams.boot()
        pool = [self.build(run, lib, s) for s in plan['specs']]
        for obj, m in pool:
            self.expect(run, run.call(len, obj), m.n, 'len')
        if not plan['threads']:
            own, its = list(pool), []
            for op in plan['ops']:
                run.count('op:' + op['o'])
                self.step(run, lib, own, its, op)
            self.last(run, own)
            return

        def body(t):
            def inner():
                own, its = list(pool), []
                for op in plan['ops']:
                    if op['t'] % plan['threads'] == t:
                        self.step(run, lib, own, its, op)
                return own
            return inner
        bodies = [body(t) for t in range(plan['threads'])]
        got, taken = run_threads(bodies, plan['sched'])
        run.count('line_switches', len(taken))
        run.sched = ('lines', tuple(taken))
        for own in got:
            self.last(run, own)

    def last(self, run, pool):
        """After it all, every range is read once more."""
        for obj, m in pool:
            self.expect(run, run.call(len, obj), m.n, 'len')
            for i in {0, 1, m.n // 2, m.n - 2, m.n - 1}:
                if 0 <= i < m.n:
                    self.expect(run, run.call(obj.__getitem__, i), m[i],
                                f'[{i}]')
                    us = m.us + i * m.step
                    if m.kind == 'time':
                        us %= DAY
                    at = m.find(us)
                    self.seek(run, run.call(obj.index, m[i]), m,
                              m.places(us)[0],
                              ValueError if at is None else at,
                              f'index({m[i]})')
            if m.n <= 40:
                want = [m[i] for i in range(m.n)]
                self.expect(run, run.call(list, obj), want, 'list')

    # ---- operations ----

    @staticmethod
    def expect(run, out, want, what):
        """True if it gave what was wanted; False if the fault came out."""
        run.record(what, out.key()[:120])
        if not out.ok:
            if faulty(out):
                return False
            if isinstance(want, type) and issubclass(want, Exception) and \
                    isinstance(out.exc, want):
                return True
            must(out, what)
        if isinstance(want, type) and issubclass(want, Exception):
            raise Violation('should-refuse', f'{what} gave {out.value!r:.200}')
        if repr(out.value) != repr(want):
            raise Violation('unlike-the-list', f'{what} gave '
                            f'{out.value!r:.250}; the list has {want!r:.250}')
        return True

    def add(self, pool, obj, m):
        if len(pool) < 8:
            pool.append((obj, m))
        else:
            pool[3] = (obj, m)

    def step(self, run, lib, pool, its, op):
        o, arm = op['o'], op.get('arm')
        obj, m = pool[op['x'] % len(pool)]
        n = m.n
        run.state('C16', o, m.kind, m.tz is None, n, m.step,
                  bool(arm), op['how'])
        if o == 'get':
            i = op['i'] if op['how'] % 2 or not n else op['j'] % n
            want = m[i % n] if -n <= i < n else IndexError
            self.expect(run, run.call(obj.__getitem__, i, arm=arm), want,
                        f'[{i}]')
        elif o == 'slice':
            self.slice(run, pool, obj, m, op)
        elif o == 'len':
            self.expect(run, run.call(bool, obj, arm=arm), n > 0, 'bool')
            self.expect(run, run.call(len, obj), n, 'len')
        elif o in ('in', 'index', 'count'):
            self.find(run, obj, m, op)
        elif o == 'stop':
            if n >= 2:
                want = m[n] if m.valid(n) else OverflowError
                self.expect(run, run.call(getattr, obj, 'stop', arm=arm),
                            want, 'stop')
        elif o == 'attrs':
            if n:
                self.expect(run, run.call(getattr, obj, 'start', arm=arm),
                            m[0], 'start')
            if n > 1:
                self.expect(run, run.call(getattr, obj, 'step'),
                            datetime.timedelta(microseconds=m.step), 'step')
            self.expect(run, run.call(getattr, obj, 'length'), n, 'length')
        elif o == 'eq':
            self.equal(run, pool, obj, m, op)
        elif o == 'list':
            if n <= 400:
                rev = op['how'] % 3 == 0
                want = [m[i] for i in range(n)]
                if rev:
                    want.reverse()
                out = run.call(lambda: list(reversed(obj) if rev else obj),
                               arm=arm)
                self.expect(run, out, want, 'list')
        elif o == 'iter':
            rev = op['how'] % 3 == 0
            its.append([reversed(obj) if rev else iter(obj), m, 0, rev])
        elif o == 'next':
            self.next(run, its, op)
        elif o == 'repr':
            if n:
                a = run.call(repr, obj, arm=arm)
                if not a.ok and not faulty(a):
                    must(a, 'repr')
                b = must(run.call(repr, obj), 'repr')
                if a.ok and a.value != b:
                    raise Violation('report-changed', f'{a.value} then {b}')
                if n and str(m[0]) not in b:
                    raise Violation('unlike-the-list', f'{b} starts with '
                                    f'{m[0]}')
        elif o == 'set':
            name = ('start', 'stop', 'step', 'length')[op['how'] % 4]
            val = (m[0] if n else None, datetime.date(2024, 1, 1),
                   datetime.timedelta(days=2), 3)[op['how'] % 4]
            self.expect(run, run.call(setattr, obj, name, val, arm=arm),
                        AttributeError, f'setting {name}')
        elif o == 'copy':
            func = (copy.copy, copy.deepcopy,
                    lambda x: pickle.loads(pickle.dumps(x)))[op['how'] % 3]
            out = run.call(func, obj, arm=arm)
            if out.ok:
                self.add(pool, out.value, m)
            elif not faulty(out):
                must(out, 'copy')
        elif o == 'emit':
            self.emit(run, lib, obj, m, op)
        elif o == 'pick' and n:
            rng, twin = random.Random(op['j']), random.Random(op['j'])
            k = op['how'] % (min(n, 5) + 1)
            at = twin.sample(range(n), k)
            self.expect(run, run.call(rng.sample, obj, k, arm=arm),
                        [m[i] for i in at], 'sample')
        elif o == 'bad':
            self.bad(run, lib, op)

    def slice(self, run, pool, obj, m, op):
        new = m.slice(*op['s'])
        if m.kind == 'time' and new.n > 1 and abs(new.step) >= DAY:
            return                  # such steps are not valid for times
        out = run.call(obj.__getitem__, slice(*op['s']), arm=op.get('arm'))
        run.record('slice', op['s'], out.ok)
        if not out.ok:
            if not faulty(out):
                must(out, f'[{op["s"]}] of {m.n}')
            return
        self.expect(run, run.call(len, out.value), new.n, 'len of a slice')
        if type(out.value) is not type(obj):
            raise Violation('not-a-range', f'{op["s"]} gave '
                            f'a {type(out.value)}')
        if new.n:
            i = op['j'] % new.n
            self.expect(run, run.call(out.value.__getitem__, i), new[i],
                        f'{op["s"]}[{i}]')
        self.add(pool, out.value, new)

    def find(self, run, obj, m, op):
        how, n = op['how'], m.n
        us = m.us + (op['j'] % n if n else 0) * m.step
        if how in (5, 6):
            us = m.us + m.step * (n if how == 5 else -1)
        elif how == 7:
            us += op['i'] * (DAY if m.kind == 'date' else 1)
        elif how == 8:
            us += DAY * (op['i'] if abs(op['i']) < 1000 else 1)
        elif how == 9:
            us += m.step // 2 // (DAY if m.kind == 'date' else 1) * (
                DAY if m.kind == 'date' else 1)
        if m.kind == 'time':
            us %= DAY
        elif not FIRST <= us <= LAST:
            us = m.us
            if not FIRST <= us <= LAST:
                us = FIRST * 1000
        val = value(m.kind, us, m.tz)
        at, all_ = m.find(us), m.places(us)
        if how in (10, 11):
            at, all_ = None, []
        if how == 10:
            if m.kind == 'date':
                val = value('datetime', us, None)
            elif m.kind == 'datetime':
                val = val.date()
            else:
                val = datetime.datetime(2024, 1, 1, 12)
        elif how == 11:
            val = [val.isoformat(), None, 5, val][op['j'] % 4]
            if op['j'] % 4 == 3:
                if m.kind == 'date':
                    val = datetime.time(1)
                else:
                    val = value(m.kind, us, 60 if m.tz is None else None)
        if how in (12, 13) and m.tz is not None and (
                m.kind == 'time' or
                FIRST + 4 * DAY < us < LAST - 4 * DAY):
            # Told by another clock, it is found where it is equal.
            tzs = [0, 90, -300, 600]
            if m.kind == 'datetime':
                tzs.append('dst')
            val = tell(val, tzs[op['i'] % len(tzs)])
            if m.kind == 'datetime':
                us = micros(tell(val, m.tz))
            at, all_ = m.find(us), m.places(us)
            if at is not None and m[at] != val:
                at = None
            all_ = [i for i in all_ if m[i] == val]
        if op['x'] % 10 == 3 and isinstance(val, (
                datetime.date, datetime.time)):
            val = own(val)
        arm, o = op.get('arm'), op['o']
        if o == 'in':
            self.seek(run, run.call(lambda: val in obj, arm=arm), m,
                      bool(all_), at is not None, f'{val!r} in')
        elif o == 'count':
            self.seek(run, run.call(obj.count, val, arm=arm), m,
                      len(all_), 0 if at is None else 1, f'count({val!r})')
        else:
            a, b = op['s']
            lo, hi, _ = slice(a, b).indices(n)
            first = at if at is not None and lo <= at < hi else ValueError
            want = ([i for i in all_ if lo <= i < hi] or [ValueError])[0]
            args = [val] if a is None and b is None else \
                [val, a] if b is None else [val, a, b]
            self.seek(run, run.call(obj.index, *args, arm=arm), m, want,
                      first, f'index{args}')

    def seek(self, run, out, m, want, first, what):
        """What was found, and whether only the first day was looked at."""
        if want != first and (out.ok and out.value == first or
                              not out.ok and first is ValueError and
                              isinstance(out.exc, ValueError)):
            raise Violation('later-days', f'{what} in a range of times that '
                            'goes on into the next day: only the first day '
                            f'was looked at; the list has {want!r}, not '
                            f'{first!r}')
        self.expect(run, out, want, what)

    def equal(self, run, pool, obj, m, op):
        other, om = pool[op['j'] % len(pool)]
        want = m.same(om)
        if op['how'] == 0:
            self.expect(run, run.call(lambda: obj == [m[0]] if m.n else
                                      obj == [], arm=op.get('arm')),
                        False, '== a list')
            return
        if want is None:
            return
        out = run.call(lambda: (obj == other, obj != other),
                       arm=op.get('arm'))
        if not want and out.ok and out.value == (True, False) and \
                m.kind == om.kind and m.tz != om.tz and \
                (m.kind == 'time' or 'dst' in (m.tz, om.tz)) and \
                m.n > 1 and m.step == om.step and m[0] == om[0]:
            raise Violation('zones-apart', f'{obj!r} equals {other!r}: '
                            'begin at the same moment in different time '
                            f'zones, but go on with {m[1]} and {om[1]}')
        if self.expect(run, out, (want, not want), '== and !=') \
                and want:
            out = run.call(lambda: hash(obj) == hash(other))
            self.expect(run, out, True, 'same hash')

    def next(self, run, its, op):
        if not its:
            return
        k = op['x'] % len(its)
        it, m, at, rev = its[k]
        for _ in range(1 + op['how'] % 4):
            out = run.call(next, it, arm=op.get('arm'))
            if at >= m.n:
                want = StopIteration
            else:
                want = m[m.n - 1 - at if rev else at]
            if not self.expect(run, out, want, 'next'):
                del its[k]
                return
            at += 1
            if want is StopIteration:
                del its[k]
                return
        its[k][2] = at

    def emit(self, run, lib, obj, m, op):
        """An emitter of the range gives what one of the list would."""
        if not 0 < m.n <= 100:
            return
        vals = [m[i] for i in range(m.n)]
        how, num = op['how'] % 4, op['j'] % m.n
        em = lib.pkg.emitters

        def use(items):
            if how == 0:
                return em.Choice(items, rng_seed=op['j'])(num)
            if how == 1:
                return em.Choice(items, replace=False, rng_seed=op['j'])(num)
            if how == 2:
                return em.Choice(items, replace_only_after_call=True,
                                 rng_seed=op['j'])(num)
            e = em.Sequential(items)
            return e(num), e(m.n), e()
        want = must(run.call(use, vals), 'emitting from a list')
        self.expect(run, run.call(use, obj, arm=op.get('arm')), want,
                    'emitted')

    def bad(self, run, lib, op):
        d, cls = lib.dtrange.dtrange, lib.dtrange.DateOrTimeRange
        td = datetime.timedelta
        date, clock = datetime.date(2020, 2, 28), datetime.time(5)
        when = datetime.datetime(2020, 2, 28, 5)
        func, args = [
            (d, ('2020-01-01', '05:00')), (d, (date, when)),
            (d, (clock, when)), (d, ('2020-01-01', '2020-02-01', 1, 'moons')),
            (d, ('2020-01-01', '2020-02-01', 5, 'hours')),
            (d, ('x', '2020-01-01')), (d, ('2020-01-01', 5)),
            (cls, (date, 5, td(hours=3))), (cls, (clock, 5, td(days=1))),
            (cls, (clock, 5, td(days=-1))), (cls, ('2020-01-01', 5, td(1))),
            (cls, (date, 5, 1))][op['how'] % 12]
        self.expect(run, run.call(func, *args, arm=op.get('arm')),
                    ValueError, f'making {args}')


# ==========================================================================
# C19
# ==========================================================================

NAMES = {           # deprecated name: what the warning says to use instead
    ('fauxdoc.typing', 'Number'): 'float',
    ('fauxdoc.typing', 'EmitterLikeCallable'): 'EmitterLike',
    ('fauxdoc.typing', 'StrEmitterLike'): 'EmitterLike[str]',
    ('fauxdoc.typing', 'IntEmitterLike'): 'EmitterLike[int]',
    ('fauxdoc.typing', 'BoolEmitterLike'): 'EmitterLike[bool]',
    ('fauxdoc.emitters', 'Wrap'): 'WrapOne or WrapMany',
    ('fauxdoc.emitters.wrappers', 'Wrap'): 'WrapOne or WrapMany',
}
MODULES = ['fauxdoc', 'fauxdoc.typing', 'fauxdoc.emitters',
           'fauxdoc.emitters.wrappers', 'fauxdoc.emitters.text',
           'fauxdoc.profile', 'fauxdoc.mixins', 'fauxdoc.emitters.fixed',
           'fauxdoc.emitters.fromfields', 'fauxdoc.group', 'fauxdoc.warn']


class C19(Prop):
    """Old names go on working, and say every time that they are old."""

    id = 'C19'
    quick_runs = 12000
    thorough_runs = 300000

    def gen(self, rng, run):
        g = G.swarm(rng)
        ops = []
        for _ in range(rng.randint(2, 14)):
            o = rng.choice(['get'] * 8 + ['other', 'dir', 'import', 'wrap',
                                          'wrap', 'factory', 'plain', 'own'])
            op = {'o': o, 'x': rng.randrange(1000), 'how': rng.randrange(12),
                  'filter': rng.choice(['always'] * 4 + ['error', 'ignore',
                                                         'default', 'once'])}
            if rng.random() < .2 and o in ('get', 'other', 'dir', 'factory'):
                op['arm'] = {'t': 'intr', 'k': rng.randrange(12)}
                if rng.random() < .4:
                    op['arm']['exc'] = rng.choice(['MemoryError',
                                                   'RecursionError'])
            if o == 'import':
                op['mods'] = rng.sample(MODULES, rng.randint(1, 4))
                if rng.random() < .5:
                    op['arm'] = {'t': 'intr', 'k': rng.choice(
                        [rng.randrange(60), rng.randrange(600)])}
            elif o == 'wrap':
                op['spec'] = self.wrapped(g, rng)
                op['reqs'] = [rng.choice([[gen_n(rng, 6)], [gen_n(rng, 6)],
                                          ['reset'], ['seed', gen_seed_s(rng)]
                                          ]) for _ in range(rng.randint(1, 6))]
            elif o == 'factory':
                op['a'] = [rng.randrange(100) for _ in range(
                    rng.randint(1, 4))]
                op['b'] = [rng.randrange(100, 200) for _ in range(
                    rng.randint(1, 4))]
            ops.append(op)
        return {'ops': ops, 'entropy': rng.randrange(1, 9999),
                'const': rng.randrange(1, 9999)}

    @staticmethod
    def wrapped(g, rng):
        for _ in range(200):
            spec = g.emitter('any')
            if spec['k'] in ('wrap1', 'wrapn') and \
                    world.pool(spec) >= world.INF and spec['fn'] != 'str':
                spec = dict(spec)
                spec['seed'] = gen_seed_s(rng)
                return spec
        return {'k': 'wrap1', 'fn': 'tagrng', 'seed': 5,
                'src': {'k': 'static', 'v': 1}}

    def execute(self, run, plan):
        lib = seams.boot()
        self.lib = lib
        self.first = {}
        for op in plan['ops']:
            run.count('op:' + op['o'])
            getattr(self, 'do_' + op['o'])(run, op)
        # In the end all of them work.
        for i in range(len(NAMES)):
            self.do_get(run, {'x': i, 'how': i, 'filter': 'always'})

    @staticmethod
    def watched(run, op, func, *args):
        """Calls; returns the outcome and the deprecations warned of."""
        arm = op.get('arm')
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter(op['filter'])
            out = run.call(func, *args, arm=arm)
        return out, [str(w.message) for w in caught
                     if issubclass(w.category, DeprecationWarning)]

    def do_get(self, run, op):
        """Asks for an old name, in one of the ways there are."""
        (mod, name), new = list(NAMES.items())[op['x'] % len(NAMES)]
        how = op['how'] % 4

        def look():
            if how == 0:
                return getattr(sys.modules[mod], name)
            space = {}
            if how == 1:
                exec(f'from {mod} import {name}', space)
            elif how == 2:
                exec(f'import {mod}\nx = {mod}.{name}', space)
                return space['x']
            elif mod == 'fauxdoc.emitters':
                exec(f'from {mod} import *', space)
            else:
                exec(f'from {mod} import {name} as {name}', space)
            return space[name]
        out, said = self.watched(run, op, look)
        run.record('get', mod, name, how, op['filter'], out.ok, len(said))
        run.state('C19', mod, name, how, op['filter'], out.fired)
        if faulty(out):
            return
        if op['filter'] == 'error':
            if out.ok or not isinstance(out.exc, DeprecationWarning):
                raise Violation('no-warning', f'{mod}.{name}: {out!r} when '
                                'warnings are errors')
            self.says(str(out.exc), mod, name, new)
            return
        got = must(out, f'{mod}.{name}')
        if op['filter'] == 'always':
            if not said:
                raise Violation('no-warning', f'{mod}.{name} gave no warning')
            for msg in said:
                self.says(msg, mod, name, new)
        if op['filter'] == 'ignore' and said:
            raise Violation('warned', f'{said}')
        self.right(mod, name, got)

    @staticmethod
    def says(msg, mod, name, new):
        if name not in msg or 'deprecated' not in msg or new not in msg:
            raise Violation('wrong-warning', f'{mod}.{name}: {msg}')

    def right(self, mod, name, got):
        typ = sys.modules['fauxdoc.typing']
        if name == 'Wrap':
            if not isinstance(got, type) or got.__name__ != 'Wrap' or \
                    not issubclass(got, self.lib.emitter.Emitter):
                raise Violation('wrong-name', f'Wrap is {got!r}')
        else:
            el = typ.EmitterLike
            if name == 'EmitterLikeCallable':
                from typing import Callable, Sequence, Union
                want = Union[Callable[[int], Sequence[typ.T]], el[typ.T]]
            else:
                want = {'Number': float, 'StrEmitterLike': el[str],
                        'IntEmitterLike': el[int],
                        'BoolEmitterLike': el[bool]}[name]
            if got != want:
                raise Violation('wrong-name', f'{name} is {got!r}')
        if self.first.setdefault(name, got) != got:
            raise Violation('wrong-name', f'{name} was {self.first[name]!r}, '
                            f'now {got!r}')

    def do_other(self, run, op):
        """What was never there is not there."""
        mod = ('fauxdoc.typing', 'fauxdoc.emitters',
               'fauxdoc.emitters.wrappers')[op['x'] % 3]
        name = ('Wrapp', 'EmitterLike2', 'wrap', '_x', 'number')[
            op['how'] % 5]
        out, said = self.watched(run, op, getattr, sys.modules[mod], name)
        run.record('other', mod, name, out.ok)
        if faulty(out):
            return
        if out.ok or not isinstance(out.exc, AttributeError) or said:
            raise Violation('wrong-name', f'{mod}.{name}: {out!r} {said}')
        if hasattr(sys.modules[mod], name):
            raise Violation('wrong-name', f'{mod} has {name}')

    def do_own(self, run, op):
        """A user's own module has old names, by the library's function."""
        vals = [0, None, '', [], False, 5, 'x', dict, Day, 0.0]
        value_, new = vals[op['x'] % 10], (None, 'newer')[op['how'] % 2]
        table = {'old': (new, value_), 'other': ('y', 3)}
        old_name = importlib.import_module('fauxdoc.warn').get_deprecated_attr
        out, said = self.watched(run, op, old_name,
                                 'old', 'own.module', 'module', table)
        run.record('own', repr(value_), new, op['filter'], out.ok, len(said))
        if op['filter'] == 'error':
            if out.ok or not isinstance(out.exc, DeprecationWarning):
                raise Violation('no-warning', f'own.module.old: {out!r} when '
                                'warnings are errors')
            return
        if must(out, 'own.module.old') is not value_:
            raise Violation('wrong-name', f'own.module.old is {out.value!r}, '
                            f'not {value_!r}')
        if op['filter'] == 'always':
            if not said:
                raise Violation('no-warning', 'own.module.old')
            for msg in said:
                self.says(msg, 'own.module', 'old', new or '')
        out, said = self.watched(run, op, old_name,
                                 'never', 'own.module', 'module', table)
        if out.ok or not isinstance(out.exc, AttributeError) or said:
            raise Violation('wrong-name', f'own.module.never: {out!r} {said}')

    def do_dir(self, run, op):
        mod, name = list(NAMES)[op['x'] % len(NAMES)]
        op = dict(op, filter='always')
        out, said = self.watched(run, op, dir, sys.modules[mod])
        if faulty(out):
            return
        if name not in must(out, 'dir') or said:
            raise Violation('not-listed', f'{name} in dir({mod}): {said}')

    def do_import(self, run, op):
        """A new process imports it, perhaps interrupted; then again."""
        for n in [n for n in sys.modules
                  if n == 'fauxdoc' or n.startswith('fauxdoc.')]:
            del sys.modules[n]
        self.first = {}

        def load():
            for m in op['mods']:
                importlib.import_module(m)
        out, said = self.watched(run, dict(op, filter='always'), load)
        run.record('import', op['mods'], out.ok)
        if not out.ok:
            if not faulty(out):
                must(out, f'importing {op["mods"]}')
            out, said = self.watched(run, {'filter': 'always'}, load)
            must(out, f'importing {op["mods"]} once more')
        if said:
            raise Violation('warned', f'importing {op["mods"]}: {said}')
        seams.ENV.note('boots')
        self.lib = seams.Lib(importlib.import_module('fauxdoc'))

    def do_plain(self, run, op):
        """What is not old does not warn."""
        lib = self.lib
        em = lib.pkg.emitters

        def use():
            a = em.Choice(range(5), rng_seed=1)
            b = em.Text(em.Static(2), em.Word(em.Static(3), a and em.Choice(
                'abc')), em.Static(','))
            f = lib.profile.Field('f', b, gate=em.chance(.5))
            g = lib.profile.Field('g', em.CopyFields(f))
            h = lib.profile.Field('h', em.WrapOne(em.Sequential([1, 2]), str))
            lib.profile.Schema(f, g, h)()
            return [getattr(em, n) for n in ('WrapMany', 'Iterative')]
        out, said = self.watched(run, {'filter': 'error'}, use)
        must(out, 'use without old names')

    def do_wrap(self, run, op):
        """A Wrap of the old kind gives what the new one gives."""
        spec, lib = op['spec'], self.lib
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            wrap = must(run.call(getattr, lib.wrappers if op['how'] % 2 else
                                 lib.pkg.emitters, 'Wrap'), 'Wrap')

        class Old(wrap):
            def emit(self):
                kw = {k: e() for k, e in self.emitters.items()}
                if list(kw) == ['source']:
                    return self.wrapper(kw['source'])
                return self.wrapper(**kw)

            def emit_many(self, number):
                data = {k: e(number) for k, e in self.emitters.items()}
                if list(data) == ['source']:
                    return [self.wrapper(v) for v in data['source']]
                return [self.wrapper(**{k: v[i] for k, v in data.items()})
                        for i in range(number)]
        new, old = Subject(run, spec, lib), Subject(run, spec, lib)
        ctx = world.Ctx(lib)
        if spec['k'] == 'wrap1':
            srcs = {'source': world.build(spec['src'], lib, ctx)}
            fn = world.FN1[spec['fn']]
        else:
            srcs = {n: world.build(s, lib, ctx)
                    for n, s in spec['srcs'].items()}
            fn = world.FNN[spec['fn']]
        old.obj = must(run.call(Old, srcs, fn, spec['seed']),
                       'making a Wrap')
        if op['x'] % 2:
            for sub in (new, old):
                must(sub.reset(), 'reset')
        for req in op['reqs'] + [[3], [None]]:
            if req == ['reset']:
                for sub in (new, old):
                    must(sub.reset(), 'reset')
            elif req[0] == 'seed':
                for sub in (new, old):
                    must(sub.seed(req[1]), 'seed')
                    must(sub.reset(), 'reset')
            else:
                a, b = drain(new, req), drain(old, req)
                run.record('wrap', b[0][:100] if b else None)
                if a != b:
                    raise Violation('old-unlike-new', f'Wrap gave {b}, the '
                                    f'new one {a}')

    def do_factory(self, run, op):
        """The old setting of a Sequential still works, and warns."""
        fixed = self.lib.fixed
        seq = fixed.Sequential(op['a'])
        twin = fixed.Sequential(op['a'])
        n = op['x'] % 7
        must(run.call(seq, n), 'emit')
        must(run.call(twin, n), 'emit')
        b = op['b']

        def put():
            seq.iterator_factory = lambda: iter(b)
        out, said = self.watched(run, op, put)
        run.record('factory', op['filter'], out.ok, len(said))
        if faulty(out):
            must(run.call(put), 'setting iterator_factory again')
        elif op['filter'] == 'error':
            if out.ok or not isinstance(out.exc, DeprecationWarning):
                raise Violation('no-warning', f'iterator_factory: {out!r}')
            want, got = [
                norm([must(run.call(e, 5), 'emit'), list(e.items),
                      must(run.call(e.reset), 'reset'),
                      must(run.call(e, 5), 'emit')]) for e in (twin, seq)]
            if got != want:
                raise Violation('old-unlike-new', 'a refused iterator_factory'
                                f' left {got}, before it {want}')
            return
        else:
            must(out, 'setting iterator_factory')
            if op['filter'] == 'always' and not any(
                    'iterator_factory' in m and 'deprecated' in m
                    for m in said):
                raise Violation('no-warning', 'iterator_factory set without '
                                f'a warning: {said}')
        twin = fixed.Sequential(b)
        want = norm([must(run.call(twin, 5), 'emit'), b])
        got = norm([must(run.call(seq, 5), 'emit'), list(seq.items)])
        if got != want:
            raise Violation('old-unlike-new', f'set to {b} it gave {got}')


PROPS_F = [C16, C19]
