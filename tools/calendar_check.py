"""Checks the facts about the calendar that the verifier takes for granted, for all months and weeks there are."""
import calendar
import datetime

first = [datetime.date(y, m, 1).toordinal() for y in range(1, 10000) for m in range(1, 13)]
days = [calendar.monthrange(y, m)[1] for y in range(1, 10000) for m in range(1, 13)]
assert all(first[k + 1] == first[k] + days[k] and days[k] >= 28 for k in range(len(first) - 1))
last = None
for o in range(1, datetime.date.max.toordinal() + 1, 7):
    assert (o + 6) % 7 == datetime.date.fromordinal(o).weekday() == 0
    now = tuple(datetime.date.fromordinal(o).isocalendar())[:2]
    assert 1 <= now[1] <= 53 and (last is None or last < now), now
    for k in range(1, 7):
        if o + k <= datetime.date.max.toordinal():
            assert tuple(datetime.date.fromordinal(o + k).isocalendar())[:2] == now
    last = now
print('calendar: ok')
