"""Proleptic Gregorian calendar for any integer year, independent of datetime."""
DAY = 86400 * 10**6


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def month_len(y, m):
    return [31, 29 if is_leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]


def year_start(y):
    """days from 0001-01-01 to the first day of year y"""
    p = y - 1
    return 365 * p + p // 4 - p // 100 + p // 400


def days(y, m, d):
    return year_start(y) + sum(month_len(y, k) for k in range(1, m)) + d - 1


def valid(y, m, d, h=0, mi=0, s=0):
    return 1 <= m <= 12 and 1 <= d <= month_len(y, m) and 0 <= h < 24 and 0 <= mi < 60 and 0 <= s < 60


def micros(y, m, d, h=0, mi=0, s=0, us=0):
    return days(y, m, d) * DAY + ((h * 60 + mi) * 60 + s) * 10**6 + us


def civil(us):
    """(y, m, d, h, mi, s, us) of microseconds since 0001-01-01T00:00"""
    n, r = divmod(us, DAY)
    y = n // 366
    while year_start(y + 1) <= n:
        y += 1
    while year_start(y) > n:
        y -= 1
    n -= year_start(y)
    m = 1
    while n >= month_len(y, m):
        n -= month_len(y, m)
        m += 1
    s, u = divmod(r, 10**6)
    return y, m, n + 1, s // 3600, s // 60 % 60, s % 60, u
