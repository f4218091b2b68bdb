"""C09  years map to the right samples; daily averages average each day"""
import numpy as np
from . import common as cm
from .asked import h_asked_samples

MODULES = ['spta.util.maths', 'spta.dataset.temp_brazil']


def days_before_year(H, year):
    """days from 0001-01-01 to the first day of that year (proleptic Gregorian calendar)"""
    y = year - 1
    return 365 * y + H.div(y, 4) - H.div(y, 100) + H.div(y, 400)


def h_years(H):
    """interval == (days before the span) * spd, (days before its end) * spd"""
    maths = H.load('spta.util.maths')
    first = H.int('first', 1, 9000, None if H.symbolic else H.choice('recent', [2030, 9000]))
    start = H.int('start', first, first + 400)
    end = H.int('end', start, start + 300)
    spd = H.int('spd', 1)
    a, b = maths.years_to_series_interval(start, end, first, spd)
    origin = days_before_year(H, first)
    H.check('interval starts right after the days of the earlier years', H.eq(a, (days_before_year(H, start) - origin) * spd))
    H.check('interval ends with the last day of the last year', H.eq(b, (days_before_year(H, end + 1) - origin) * spd))


def h_years_adjacent(H):
    """the span that begins in the year after a span begins at the sample where that span ends"""
    maths = H.load('spta.util.maths')
    first = H.int('first', 1, 9000, None if H.symbolic else 2030)
    s1 = H.int('s1', first, first + 300)
    e1 = H.int('e1', s1, s1 + 200)
    e2 = H.int('e2', e1 + 1, e1 + 200)
    spd = H.int('spd', 1)
    a = maths.years_to_series_interval(s1, e1, first, spd)
    b = maths.years_to_series_interval(e1 + 1, e2, first, spd)
    H.check('adjacent', H.eq(a[1], b[0]))
    H.check('not empty', H.and_(a[1] - a[0] >= 365 * spd, b[1] - b[0] >= 365 * spd))


def h_daily_mean(H):
    """result[d, x, y] == mean of the four samples of day d at (x, y)"""
    tb = H.load('spta.dataset.temp_brazil')
    n, xl, yl = H.size('days', 1, 9), H.size('xl', 1, 4), H.size('yl', 1, 4)
    data = H.array('data', (4 * n, xl, yl))
    out = tb.average_4spd_to_1spd(data)
    sh = H.shape(out)
    H.check('one sample per day', H.and_(H.eq(sh[0], n), H.eq(sh[1], xl), H.eq(sh[2], yl)))
    H.forall('mean of the four samples of the day', [n, xl, yl], lambda d, x, y: H.eq(
        out[d, x, y] * 4, data[4 * d, x, y] + data[4 * d + 1, x, y] + data[4 * d + 2, x, y] + data[4 * d + 3, x, y]))


h_history = cm.history(h_asked_samples)


SPEC = [
    (h_years, {'sym': True, 'runs': 3000}),
    (h_years_adjacent, {'sym': True, 'runs': 1000}),
    (h_daily_mean, {'sym': True, 'runs': 400}),
    (h_history, {'sym': True, 'runs': 100}),
]
