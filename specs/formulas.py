"""The published formulas, written from their sources; shared by C11-C15."""
from specs.base import *  # noqa

TENTH = D('0.1')


def celsius(t):
    """To three places, as the formulas below are applied."""
    return ((t - 32) * (D(5) / D(9))).quantize(D('0.001'))


def fahrenheit(c):
    return (c * D('1.8') + 32).quantize(D('0.001'))


def heat_index_formula(t, rh):
    """NWS heat index before rounding (http://www.wpc.ncep.noaa.gov/html/heatindex_equation.shtml); t >= 70."""
    simple = D('0.5') * (t + D(61) + (t - D(68)) * D('1.2') + rh * D('0.094'))
    average = (simple + t) / 2
    if average < 80:
        return average
    hi = (D('-42.379') + D('2.04901523') * t + D('10.14333127') * rh - D('.22475541') * t * rh - D('.00683783') * t * t -
          D('.05481717') * rh * rh + D('.00122874') * t * t * rh + D('.00085282') * t * rh * rh -
          D('.00000199') * t * t * rh * rh)
    if rh < 13 and 80 <= t and t <= 112:
        return hi - ((13 - rh) / D(4)) * ((17 - abs(t - D(95))) / D(17)).sqrt()
    if rh > 85 and 80 <= t and t <= 87:
        return hi + ((rh - 85) / D(10)) * ((87 - t) / D(5))
    return hi


def wind_chill_formula(t, ws):
    v = ws ** D('0.16')
    return D('35.74') + D('0.6215') * t - D('35.75') * v + D('0.4275') * t * v


def dew_point_formula(t, rh):
    """August-Roche-Magnus with the Bogel modification, degrees Fahrenheit, before the final rounding."""
    tc = celsius(t)
    gamma = (rh / D(100) * ((D('17.67') - tc / D('234.5')) * (tc / (D('243.5') + tc))).exp()).ln()
    return fahrenheit(D('243.5') * gamma / (D('17.67') - gamma))


def wet_bulb_formula(t, rh, p):
    """http://www.aprweather.com/pages/calc.htm"""
    tc = celsius(t)
    mb = (p / D('0.0295299830714')).quantize(D('0.01'))
    x = 1 - D('0.01') * rh
    tdc = (tc - (D('14.55') + D('0.114') * tc) * x - ((D('2.5') + D('0.007') * tc) * x) ** 3 -
           (D('15.9') + D('0.117') * tc) * x ** 14)
    e = D('6.11') * 10 ** (D('7.5') * tdc / (D('237.7') + tdc))
    k = 4098 * e / (tdc + D('237.7')) ** 2
    return fahrenheit((D('0.00066') * mb * tc + k * tdc) / (D('0.00066') * mb + k))


def thsw_formula(t, rh, sun, ws):
    """Apparent temperature including radiation (Australian Bureau of Meteorology; Steadman 1994)."""
    tc = celsius(t)
    v = (ws * D('0.44704')).quantize(D('0.00001'))
    q = sun * D('0.25') / 7 + sun / D(28)
    e = rh / D(100) * D('6.105') * (D('17.27') * tc / (D('237.7') + tc)).exp()
    return fahrenheit(tc + D('0.348') * e - D('0.70') * v + D('0.70') * q / (v + 10) - D('4.25'))


def rounded_up(r, v, unit=TENTH):
    return v <= r + D('1E-15') and r < v + unit + D('1E-15') and r == r.quantize(unit)


def rounded_down(r, v, unit=TENTH):
    return r <= v + D('1E-15') and v < r + unit + D('1E-15') and r == r.quantize(unit)


def rounded_near(r, v, unit=TENTH):
    return abs(r - v) <= unit / 2 + D('1E-15') and r == r.quantize(unit)
