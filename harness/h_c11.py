# C11: dates survive to the millisecond, whatever the timezone offset
import datetime
import pyamf
from pyamf import util
import hx

MODELS = ['datetime', 'calendar']
BOUNDS = ('every microsecond of the years 2 to 9998 and every offset between -1 day and +1 day in whole microseconds; '
          'every day of those years; up to 3 dates in one stream')
ASSUMPTIONS = [
    'doubles are real terms: each operation gives the exact result plus an error within IEEE round-to-nearest, none where the '
    'result is an integer below 2**53; a counterexample counts only if the real code shows it',
    'the datetime and calendar modules of the library are modelled over microseconds since 1970; witnesses are replayed on the '
    'real modules',
]
DAY = 86400000000
# years 2 to 9998
LO = -62103974400000000
HI = 253370764800000000
MS = datetime.timedelta(0, 0, 1000)


def near(s, a, b):
    d = a - b
    return s.And(d < MS, -d < MS)


def through(s, v, enc, dec_offset, enc_offset, **kw):
    e = pyamf.get_encoder(enc, timezone_offset=enc_offset)
    e.send(v)
    e.next()
    d = pyamf.get_decoder(enc, e.stream.getvalue(), timezone_offset=dec_offset)
    r = d.readElement()
    s.check(d.stream.at_eof(), 'bytes left')
    return r


def t_instant(s):
    """any instant, no offset"""
    enc = s.choice('enc', [0, 3])
    d = s.instant('d', LO, HI)
    r = through(s, d, enc, None, None)
    s.check(type(r) is datetime.datetime, 'type')
    s.check(near(s, r, d), 'same instant')


def t_seconds(s):
    """whole seconds are exact to a few microseconds"""
    enc = s.choice('enc', [0, 3])
    d = datetime.datetime(1970, 1, 1) + s.duration('d', LO // 1000000, HI // 1000000, 1000000)
    r = through(s, d, enc, None, None)
    s.check(near(s, r, d), 'same instant')


def t_offset(s):
    """with an offset, same on both sides"""
    enc = s.choice('enc', [0, 3])
    d = s.instant('d', LO, HI)
    o = s.duration('o', -DAY, DAY)
    r = through(s, d, enc, o, o)
    s.check(near(s, r, d), 'same instant')


def t_offset_encoded(s):
    """the offset is subtracted when encoding"""
    enc = s.choice('enc', [0, 3])
    d = s.instant('d', LO, HI)
    o = s.duration('o', -DAY, DAY)
    r = through(s, d, enc, None, o)
    s.check(near(s, r, d - o), 'shifted instant')


def t_offset_decoded(s):
    """the offset is added when decoding"""
    enc = s.choice('enc', [0, 3])
    d = s.instant('d', LO, HI)
    o = s.duration('o', -DAY, DAY)
    r = through(s, d, enc, o, None)
    s.check(near(s, r, d + o), 'shifted instant')


def t_wire(s):
    """the number on the wire is the milliseconds since 1970"""
    enc = s.choice('enc', [0, 3])
    d = datetime.datetime(1970, 1, 1) + s.duration('d', LO // 1000, HI // 1000, 1000)
    e = pyamf.get_encoder(enc)
    e.send(d)
    e.next()
    st = e.stream
    st.seek(0)
    if enc == 0:
        s.check(st.read(1) == '\x0b', 'marker')
    else:
        s.check(st.read(2) == '\x08\x01', 'marker')
    f = st.read_double()
    if enc == 0:
        s.check(st.read(2) == '\x00\x00', 'timezone is 0')
    s.check(st.at_eof(), 'bytes left')
    back = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=f)
    s.check(near(s, back, d), 'milliseconds since 1970')


def t_day(s):
    """a plain date is midnight of that day, minus the offset of the encoder"""
    enc = s.choice('enc', [0, 3])
    d = s.day('d', LO // DAY, HI // DAY)
    midnight = datetime.datetime.combine(d, datetime.time())
    if s.bool('offset'):
        o = s.duration('o', -DAY, DAY)
        r = through(s, d, enc, None, o)
        s.check(near(s, r, midnight - o), 'midnight minus offset')
        r = through(s, d, enc, o, o)
        s.check(near(s, r, midnight), 'midnight')
    else:
        r = through(s, d, enc, None, None)
        s.check(type(r) is datetime.datetime, 'type')
        s.check(near(s, r, midnight), 'midnight')


class OwnDate(datetime.date):
    pass


class OwnDateTime(datetime.datetime):
    pass


def t_own_classes(s):
    """dates and date-times of classes of the application's own are sent like any other"""
    enc = s.choice('enc', [0, 3])
    day = (s.choice('year', [1969, 1970, 2012]), s.choice('month', [1, 2, 12]), s.choice('dom', [1, 28]))
    if s.bool('time'):
        us = s.choice('us', [0, 1000, 999000])
        d = OwnDateTime(*(day + (s.choice('hour', [0, 23]), 1, 2, us)))
        exp = datetime.datetime(*(day + (d.hour, 1, 2, us)))
    else:
        d = OwnDate(*day)
        exp = datetime.datetime(*day)
    o = s.choice('o', [None, datetime.timedelta(0, -12600)])
    r = through(s, [d, d, 7], enc, o, o)
    s.check(len(r) == 3 and r[2] == 7, 'all')
    s.check(near(s, r[0], exp) and near(s, r[1], exp), 'date')
    s.check(near(s, util.get_datetime(util.get_timestamp(d)), exp), 'helpers')


def t_time(s):
    """a time of day is refused"""
    enc = s.choice('enc', [0, 3])
    t = datetime.time(s.choice('h', [0, 13, 23]), s.choice('m', [0, 59]), 0, s.choice('us', [0, 1, 999999]))
    if s.bool('nested'):
        t = [t]
    e = pyamf.get_encoder(enc, timezone_offset=s.choice('o', [None, datetime.timedelta(0, 3600)]))
    e.send(t)
    try:
        e.next()
    except pyamf.EncodeError:
        return
    s.fail('time of day accepted')


def t_several(s):
    """several dates in one stream, one of them twice: same places, same objects"""
    enc = s.choice('enc', [0, 3])
    a = s.instant('a', LO, HI)
    b = datetime.datetime(1969, 12, 31, 23, 59, 59, s.choice('b', [0, 999000]))
    o = s.choice('o', [None, datetime.timedelta(0, -12600)])
    v = [a, b, a, 7]
    r = through(s, v, enc, o, o)
    s.check(len(r) == 4, 'length')
    s.check(near(s, r[0], a), 'first')
    s.check(near(s, r[1], b), 'second')
    s.check(near(s, r[2], a), 'third')
    s.check(r[3] == 7, 'fourth')


def t_helpers(s):
    """the timestamp helpers are inverse"""
    util.negative_timestamp_broken = s.bool('broken')
    try:
        d = s.instant('d', LO, HI)
        t = util.get_timestamp(d)
        s.check(near(s, util.get_datetime(t), d), 'same instant')
        s.check(near(s, datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t), d), 'seconds since 1970')
    finally:
        util.negative_timestamp_broken = False


def t_helper_day(s):
    """the timestamp of a plain date is that of its midnight"""
    util.negative_timestamp_broken = s.bool('broken')
    try:
        d = s.day('d', LO // DAY, HI // DAY)
        t = util.get_timestamp(d)
        s.check(near(s, util.get_datetime(t), datetime.datetime.combine(d, datetime.time())), 'midnight')
    finally:
        util.negative_timestamp_broken = False


class Zone(datetime.tzinfo):
    def __init__(self, o):
        self.o = o

    def utcoffset(self, d):
        return self.o

    def dst(self, d):
        return None

    def tzname(self, d):
        return 'zone'


def t_aware(s):
    """a date-time with a zone is sent as the instant it denotes"""
    enc = s.choice('enc', [0, 3])
    d = s.instant('d', LO, HI)
    o = datetime.timedelta(minutes=s.choice('o', [0, 1, 210, -210, 720, -1439, 1439]))
    r = through(s, d.replace(tzinfo=Zone(o)), enc, None, None)
    s.check(near(s, r, d - o), 'same instant')
