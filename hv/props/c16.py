"""C16: datetime construction, arithmetic and ISO text in any time zone"""

import datetime
import os
import re
import time
import zoneinfo

from hv.core import Skip, dec, enc

TITLE = 'datetime construction, arithmetic and ISO text'
RULE = ('datetimeNew on years 100-9000, months -30..40, days -10000..10000, time components +-5000, run in scripts under 8 process time zones, against days-from-civil arithmetic; getters; '
        'millisecond arithmetic to +-1e12; ISO texts against zoneinfo offsets around every kind of offset change; valid and invalid ISO text; '
        'non-trivial: every case')
ZONES = ['UTC', 'America/New_York', 'Europe/London', 'Asia/Kolkata', 'Asia/Kathmandu', 'Australia/Lord_Howe', 'Pacific/Chatham', 'Etc/GMT+12']
DT = datetime.datetime


class in_zone:
    def __init__(self, zone):
        self.zone = zone

    def __enter__(self):
        self.old = os.environ.get('TZ')
        os.environ['TZ'] = self.zone
        time.tzset()
        return zoneinfo.ZoneInfo(self.zone)

    def __exit__(self, *_exc):
        if self.old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = self.old
        time.tzset()
        return False


#
# Proleptic Gregorian calendar arithmetic (days since 0000-03-01 based civil algorithm)
#

def days_from_civil(year, month, day):
    year -= month <= 2
    era, yoe = divmod(year, 400)
    doy = (153 * (month + (-3 if month > 2 else 9)) + 2) // 5 + day - 1
    return era * 146097 + yoe * 365 + yoe // 4 - yoe // 100 + doy


def civil_from_days(days):
    era, doe = divmod(days, 146097)
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (365 * yoe + yoe // 4 - yoe // 100)
    mp = (5 * doy + 2) // 153
    month = mp + (3 if mp < 10 else -9)
    return yoe + era * 400 + (month <= 2), month, doy - (153 * mp + 2) // 5 + 1


def normalise(parts):
    """(year, month, day, hour, minute, second, millisecond) of out-of-range components"""
    year, month, day, hour, minute, second, milli = (list(parts) + [0] * 7)[:7]
    extra, month = divmod(month - 1, 12)
    days = days_from_civil(year + extra, month + 1, 1) + day - 1
    millis = ((hour * 60 + minute) * 60 + second) * 1000 + milli
    extra, millis = divmod(millis, 86400000)
    res = list(civil_from_days(days + extra))
    for unit in (3600000, 60000, 1000):
        part, millis = divmod(millis, unit)
        res.append(part)
    return res + [millis]


def run(statements, globals_):
    from bare_script import execute_script  # pylint: disable=import-outside-toplevel
    logs = []
    res = execute_script({'statements': statements}, {'globals': globals_, 'logFn': logs.append, 'debug': True})
    return res, [log for log in logs if 'failed' in log]


def call(name, *args):
    return {'function': {'name': name, 'args': list(args)}}


def number(value):
    return {'number': float(value)} if value >= 0 else {'unary': {'op': '-', 'expr': {'number': float(-value)}}}


GETTERS = ['Year', 'Month', 'Day', 'Hour', 'Minute', 'Second', 'Millisecond']


def check_new(case):
    parts = case['parts']
    with in_zone(case['tz']):
        statements = [{'expr': {'name': 'd', 'expr': call('datetimeNew', *[number(part) for part in parts])}},
                      {'return': {'expr': call('arrayNew', {'variable': 'd'}, *[call('datetime' + name, {'variable': 'd'}) for name in GETTERS])}}]
        got, _ = run(statements, {})
        want = normalise(parts)
        if not 1 <= want[0] <= 9999:
            raise Skip()
        value = DT(*want[:6], want[6] * 1000)
        if got[0] != value or type(got[0]) is not DT or got[0].tzinfo is not None:
            return f'value differs: datetimeNew{tuple(parts)} = {got[0]!r}, not {value!r} ({case["tz"]})'
        if got[1:] != want or any(isinstance(part, bool) for part in got[1:]):
            return f'getters differ: of datetimeNew{tuple(parts)}: {got[1:]}, not {want} ({case["tz"]})'
    return None


def check_getters(case):
    value = dec(case['v'])
    with in_zone(case['tz']) as zone:
        local = to_local(value, zone)
        got, _ = run([{'return': {'expr': call('arrayNew', *[call('datetime' + name, {'variable': 'd'}) for name in GETTERS])}}], {'d': value})
        want = [local.year, local.month, local.day, local.hour, local.minute, local.second, local.microsecond // 1000]
        if got != want:
            return f'getters differ: of {value!r}: {got}, not {want} ({case["tz"]})'
        iso, _ = run([{'return': {'expr': call('datetimeISOFormat', {'variable': 'd'}, {'variable': 'true'})}}], {'d': value})
        if iso != f'{local.year:04d}-{local.month:02d}-{local.day:02d}':
            return f'date text differs: of {value!r}: {iso!r} ({case["tz"]})'
        back, _ = run([{'return': {'expr': call('datetimeISOParse', {'variable': 's'})}}], {'s': iso})
        if back != DT(local.year, local.month, local.day):
            return f'round trip differs: {iso!r} parses to {back!r}'
    return None


def to_local(value, zone):
    """The naive local wall-clock datetime of a date, naive or aware datetime"""
    if not isinstance(value, DT):
        return DT(value.year, value.month, value.day)
    if value.tzinfo is None:
        return value
    utc = value.replace(tzinfo=None) - value.utcoffset()
    return utc + local_offset(utc, zone)


def local_offset(utc, zone):
    """The zone's offset at a naive UTC instant"""
    return utc.replace(tzinfo=datetime.timezone.utc).astimezone(zone).utcoffset()


def exists(local, zone):
    """(exists, offset) of a naive local datetime: offset of its first occurrence"""
    for fold in (0, 1):
        offset = local.replace(tzinfo=zone, fold=fold).utcoffset()
        try:
            if local_offset(local - offset, zone) == offset:
                return True, offset
        except OverflowError:
            return False, None
    return False, None


def check_arith(case):
    value = dec(case['v'])
    count = case['n']
    with in_zone(case['tz']) as zone:
        local = to_local(value, zone)
        try:
            want = local + datetime.timedelta(milliseconds=count)
        except OverflowError:
            want = None
        got, _ = run([{'expr': {'name': 'e', 'expr': {'binary': {'op': '+', 'left': {'variable': 'd'}, 'right': number(count)}}}},
                      {'expr': {'name': 'f', 'expr': {'binary': {'op': '+', 'left': number(count), 'right': {'variable': 'd'}}}}},
                      {'return': {'expr': call('arrayNew', {'variable': 'e'}, {'variable': 'f'}, {'binary': {'op': '-', 'left': {'variable': 'e'}, 'right': {'variable': 'd'}}},
                                               {'binary': {'op': '-', 'left': {'variable': 'd'}, 'right': {'variable': 'e'}}})}}], {'d': value})
        if want is None:
            return None if got[0] is None else f'value differs: {value!r} + {count} = {got[0]!r}'
        if got[0] != want or got[1] != want:
            return f'value differs: {value!r} + {count} = {got[0]!r} and {got[1]!r}, not {want!r} ({case["tz"]})'
        if got[2] != count or got[3] != -count:
            return f'difference differs: ({value!r} + {count}) - it = {got[2]!r}, reversed {got[3]!r} ({case["tz"]})'
    return None


R_ISO = re.compile(r'(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6}))?(?:Z|([+-])(\d\d):([0-5]\d))', re.ASCII)
R_DATE = re.compile(r'(\d{4})-(\d\d)-(\d\d)', re.ASCII)


def read_iso(text):
    """(local fields, offset) of a strict ISO datetime text, or None"""
    match = R_ISO.fullmatch(text)
    if match is None:
        return None
    year, month, day, hour, minute, second = (int(match.group(ix)) for ix in range(1, 7))
    micro = int((match.group(7) or '').ljust(6, '0'))
    offset = datetime.timedelta(hours=int(match.group(9) or 0), minutes=int(match.group(10) or 0)) * (-1 if match.group(8) == '-' else 1)
    if abs(offset) >= datetime.timedelta(hours=24):
        return None
    try:
        return DT(year, month, day, hour, minute, second, micro), offset
    except ValueError:
        return None


def check_iso(case):
    value = dec(case['v'])
    with in_zone(case['tz']) as zone:
        local = to_local(value, zone)
        found, offset = exists(local, zone)
        if not found or offset.total_seconds() % 60 != 0:
            raise Skip()
        got, failed = run([{'expr': {'name': 's', 'expr': call('datetimeISOFormat', {'variable': 'd'})}},
                           {'expr': {'name': 'e', 'expr': call('datetimeISOParse', {'variable': 's'})}},
                           {'return': {'expr': call('arrayNew', {'variable': 's'}, {'variable': 'e'}, {'binary': {'op': '+', 'left': {'string': ''}, 'right': {'variable': 'd'}}},
                                                    call('stringNew', {'variable': 'd'}), call('jsonStringify', {'variable': 'd'}))}}], {'d': value})
        millis = local.replace(microsecond=local.microsecond // 1000 * 1000)
        if got[1] != millis or failed:
            return f'round trip differs: {value!r} formats as {got[0]!r}, which parses to {got[1]!r} ({case["tz"]})'
        read = read_iso(got[0])
        if read is None:
            return f'not ISO text: {value!r} formats as {got[0]!r} ({case["tz"]})'
        offsets = {local.replace(tzinfo=zone, fold=fold).utcoffset() for fold in (0, 1)}
        if read[0] != millis or read[1] not in offsets:
            return f'other instant: {value!r} formats as {got[0]!r}, its offset is {offset} ({case["tz"]})'
        if got[2] != got[0] or got[3] != got[0] or got[4] != f'"{got[0]}"':
            return f'texts differ: of {value!r}: {got[0]!r}, {got[2]!r}, {got[3]!r}, {got[4]!r}'
    return None


# Texts of other ISO 8601 shapes: a datetime or null
R_OTHER_ISO = re.compile(r'[+-]?\d{4,6}(?:-?\d\d(?:-?\d\d)?|-?W\d\d(?:-?\d)?|-?\d{3})?(?:[Tt ]\d\d(?::?\d\d(?::?\d\d)?)?(?:[.,]\d+)?(?:[Zz]|[+-]\d\d(?::?\d\d(?::?\d\d)?)?)?)?', re.ASCII)


def check_parse(case):
    text = case['text']
    with in_zone(case['tz']) as zone:
        got, failed = run([{'return': {'expr': call('datetimeISOParse', {'variable': 's'})}}], {'s': text})
        if failed:
            return f'failed: datetimeISOParse({text!r}): {failed[0]} ({case["tz"]})'
        read = read_iso(text)
        if read is not None:
            try:
                utc = read[0] - read[1]
                want = utc + local_offset(utc, zone)
            except OverflowError:
                return None if got is None or isinstance(got, DT) else f'value differs: {got!r}'
            if utc.year < 3 or utc.year > 9997:
                return None if got is None or got == want else f'value differs: datetimeISOParse({text!r}) = {got!r}'
            want = want.replace(microsecond=want.microsecond // 1000 * 1000)
            return None if got == want and got.tzinfo is None else f'value differs: datetimeISOParse({text!r}) = {got!r}, not {want!r} ({case["tz"]})'
        match = R_DATE.fullmatch(text)
        if match is not None:
            try:
                want = DT(*(int(group) for group in match.groups()))
            except ValueError:
                want = None
            return None if got == want and type(got) is type(want) else f'value differs: datetimeISOParse({text!r}) = {got!r}, not {want!r}'
        if R_OTHER_ISO.fullmatch(text) and not R_ISO.fullmatch(text):
            return None if got is None or isinstance(got, DT) else f'value differs: {got!r}'
        return None if got is None else f'invalid text parses: datetimeISOParse({text!r}) = {got!r} ({case["tz"]})'


CHECKS = {'new': check_new, 'getters': check_getters, 'arith': check_arith, 'iso': check_iso, 'parse': check_parse}


def shrink(kind, case):
    if kind == 'new':
        parts = case['parts']
        if len(parts) > 3:
            yield {**case, 'parts': parts[:-1]}
        for ix in range(3, len(parts)):
            if parts[ix] != 0:
                yield {**case, 'parts': parts[:ix] + [0] + parts[ix + 1:]}
        if case['tz'] != 'UTC':
            yield {**case, 'tz': 'UTC'}


def rand_part(rng, lo, hi, edges):
    return rng.choice([edge for edge in edges if lo <= edge <= hi]) if rng.random() < 0.5 else rng.randint(lo, hi)


EDGES = [0, 1, -1, 59, 60, 61, -59, -60, -61, 119, 120, 999, 1000, 1001, -999, -1000, -1001, 23, 24, 25, -24, -25, 2000, 3600, 5000, -5000, 1999]
DAY_EDGES = [0, 1, -1, 27, 28, 29, 30, 31, 32, 59, 60, 61, 62, 365, 366, 367, -28, -29, -30, -31, -32, -365, -366, 10000, -10000, 1461, 90, 91, 92]
YEARS = [100, 1600, 1700, 1899, 1900, 1999, 2000, 2001, 2003, 2004, 2023, 2024, 2100, 2400, 9000, 400, 4000]


def gen_new(rng, params):
    for _ in range(params):
        parts = [rng.choice(YEARS) if rng.random() < 0.6 else rng.randint(100, 9000), rng.choice([1, 2, 3, 12, 0, 13, -11, 24, 25]) if rng.random() < 0.5 else rng.randint(-30, 40),
                 rand_part(rng, -10000, 10000, DAY_EDGES)]
        mode = rng.random()
        if mode < 0.7:
            for _ in range(rng.randrange(0, 5)):
                parts.append(rand_part(rng, -5000, 5000, EDGES) if rng.random() < 0.7 else 0)
        yield 'new', {'parts': parts, 'tz': rng.choice(ZONES)}


def gen_grid(_rng, params):
    """Every month length and leap-year boundary"""
    for year in params:
        for month in range(-30, 41):
            for day in [*range(-3, 35), 59, 60, 61, 365, 366, 367, -365, -366]:
                yield 'new', {'parts': [year, month, day], 'tz': 'UTC'}


def rand_dt(rng):
    roll = rng.random()
    year = rng.choice(YEARS) if rng.random() < 0.4 else rng.randint(100, 9000) if roll < 0.3 else rng.randint(1890, 2100)
    value = DT(year, rng.randint(1, 12), rng.choice([1, 2, 28, rng.randint(1, 28)]), rng.choice([0, 1, 2, 3, 23, rng.randrange(24)]), rng.choice([0, 29, 30, 59, rng.randrange(60)]),
               rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 0, 1, 999, 500, rng.randrange(1000)]) * 1000)
    if rng.random() < 0.15:
        value += datetime.timedelta(microseconds=rng.choice([1, 499, 500, 501, 999]))
    roll = rng.random()
    if roll < 0.1:
        return datetime.date(value.year, value.month, value.day)
    if roll < 0.3:
        minutes = rng.choice([0, 330, 345, -300, 60, 1439, -1439, rng.randrange(-720, 840)])
        return value.replace(tzinfo=datetime.timezone(datetime.timedelta(minutes=minutes)))
    return value


def transitions(zone, years):
    """The naive UTC instants at which the zone's offset changes"""
    info = zoneinfo.ZoneInfo(zone)
    for year in years:
        step = datetime.timedelta(hours=12)
        at = DT(year, 1, 1)
        offset = local_offset(at, info)
        while at.year == year:
            then = at + step
            after = local_offset(then, info)
            if after != offset:
                lo, hi = at, then
                while hi - lo > datetime.timedelta(seconds=1):
                    mid = (lo + (hi - lo) / 2).replace(microsecond=0)
                    if local_offset(mid, info) == offset:
                        lo = mid
                    else:
                        hi = mid
                yield hi, offset, after
            at, offset = then, after


def gen_zone(rng, params):
    zone, count, years = params
    for _ in range(count):
        yield 'iso', {'v': enc(rand_dt(rng)), 'tz': zone}
        yield 'getters', {'v': enc(rand_dt(rng)), 'tz': zone}
        n = rng.choice([0, 1, -1, 999, 1000, 86400000, -86400000, 31536000000, rng.randint(-10 ** 12, 10 ** 12), rng.randint(-10 ** 6, 10 ** 6), 10 ** 12, -10 ** 12])
        yield 'arith', {'v': enc(rand_dt(rng)), 'n': n, 'tz': zone}
    for at, before, after in transitions(zone, years):
        for offset in (before, after):
            for delta in (-7200, -3600, -1801, -1800, -1, 0, 1, 59, 1799, 1800, 3599, 3600, 3601, 7200):
                value = at + offset + datetime.timedelta(seconds=delta, milliseconds=rng.choice([0, 7, 999]))
                yield 'iso', {'v': enc(value), 'tz': zone}
                yield 'arith', {'v': enc(value), 'n': rng.choice([3600000, -3600000, 1800000, 86400000, 1]), 'tz': zone}
                yield 'parse', {'text': (at + datetime.timedelta(seconds=delta)).isoformat() + 'Z', 'tz': zone}
                yield 'parse', {'text': (value - datetime.timedelta(hours=3)).isoformat(timespec='milliseconds') + '-03:00', 'tz': zone}


VALID = ['2024-01-02', '2024-02-29', '1999-12-31', '2024-01-02T03:04:05Z', '2024-01-02T03:04:05.678Z', '2024-01-02T03:04:05+05:30', '2024-06-30T23:59:59.999-08:00', '0100-01-01T00:00:00+00:00',
         '2024-01-02T03:04:05.1Z', '2024-01-02T03:04:05.12+01:00', '2024-01-02T03:04:05.123456Z', '9000-12-31T23:59:59+14:00', '2000-02-29', '9999-12-31', '0001-01-01']
INVALID = ['', ' ', 'x', '2024', '2024-1-2', '2024-02-30', '2023-02-29', '1900-02-29', '2024-00-01', '2024-13-01', '2024-01-00', '2024-01-32', '2024-04-31', '0000-01-01', '2024-01-02T', '2024-01-02T24:00:00Z',
           '2024-01-02T25:00:00Z', '2024-01-02T03:60:00Z', '2024-01-02T03:04:60Z', '2024-01-02T03:04:05+24:00', '2024-01-02T03:04:05+99:99', '2024-01-02T03:04:05+05:60', '2024-02-30T00:00:00Z',
           '2024-13-01T00:00:00Z', '2024-01-02\n', ' 2024-01-02', '2024-01-02 ', '2024-01-02T03:04:05Z\n', '٢٠٢٤-01-02', '2024-01-٠٢', '２０２４-01-02T03:04:05Z', '2024-01-02T03:04:05.Z', 'null',
           '2024-01-02T03:04:05Zjunk', 'a2024-01-02', '2024-01-02T03:04:05.123Z+01:00', '2024/01/02', '01/02/2024', '-2024-01-02', '2024-01--2', '2024-01-0x', '2024-+1-02', '2024-01-02T-3:04:05Z', '99999-01-01',
           '2024-01-02T03:04:05.123 Z', '2024-01-02\x00', '2024-01-02T03:04:05+0é:00', '0000-00-00', '9999-99-99', '0000-00-00T00:00:00Z', '0001-01-01T00:00:00+14:00', '9999-12-31T23:59:59-14:00',
           '0001-01-01T00:00:00Z', '9999-12-31T23:59:59Z', '2024-01-02T03:04:05.1234567Z', '2024-01-02 03:04:05Z', '2024-01-02T03:04:05', '2024-01-02T03:04Z', '20240102', '2024-W01-1']


def gen_parse(rng, params):
    for zone in ZONES:
        for text in VALID + INVALID:
            yield 'parse', {'text': text, 'tz': zone}
    for year in (2023, 2024, 1900, 2000, 100):
        for month in range(0, 15):
            for day in range(0, 34):
                yield 'parse', {'text': f'{year:04d}-{month:02d}-{day:02d}', 'tz': 'UTC'}
                yield 'parse', {'text': f'{year:04d}-{month:02d}-{day:02d}T{rng.randrange(24):02d}:00:00.5+01:00', 'tz': rng.choice(ZONES)}
    for _ in range(params):
        text = rng.choice(VALID)
        for _ in range(rng.randrange(0, 3)):
            pos = rng.randrange(len(text) + 1)
            roll = rng.random()
            ch = rng.choice('0123456789-:TZ.+ x\n٣９')
            text = text[:pos] + (ch if roll < 0.7 else '') + text[pos + (1 if roll < 0.5 or roll > 0.7 else 0):]
        yield 'parse', {'text': text, 'tz': rng.choice(ZONES)}


def tasks(tier):
    quick = tier == 'quick'
    res = [(f'new-{p}', gen_new, 2500 if quick else 60000) for p in range(6)]
    res += [(f'grid-{p}', gen_grid, years) for p, years in enumerate([[2000], [1900], [2023], [2024]] if quick else [[year] for year in (100, 400, 1900, 2000, 2001, 2004, 2023, 2024, 2100, 4000, 8999, 9000)])]
    res += [(f'zone-{zone.replace("/", "_")}', gen_zone, (zone, 500 if quick else 20000, [2024, 1987, 2050] if quick else [*range(1900, 2040), 2100, 2500, 8000])) for zone in ZONES]
    res += [(f'parse-{p}', gen_parse, 800 if quick else 30000) for p in range(2)]
    return res
