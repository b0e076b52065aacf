"""What the proofs of each property rest on without checking it (reported in the evidence, next to `trusted_base`)."""
SOCKETS = 'the socket is a stand-in with scripted replies: sendall hands over all bytes or raises, recv and read return the ' \
    'next bytes of the reply, any operation may raise as the script says; timing is not modelled'
SQL = 'mysql.connector: cursors execute, fetch and iterate as PEP 249 says; the stand-in checks statements with its own parser ' \
    '(specs/sql.py) and refuses what it does not know'
UNITS = 'what calculate_* and the decoding of one record compute is the subject of their own properties, and a function of ' \
    'their arguments here'
CALENDAR = 'calendar facts used as axioms (weekdays, weeks, month and year of a day, leap days) are enumerated over 1583-2999 ' \
    'by tools/calendar_check.py, not proved'
WORLDS = 'the records are told apart by their times (the primary key): no two have the same time'

ASSUMPTIONS = {
    'C09': ['constants and intermediate results carry 28 digits: equalities hold up to 1E-12'],
    'C11': ['decimal arithmetic is exact: rounding to 28 digits never crosses the rounding of the result to a tenth'],
    'C12': ['V ** 0.16 is an uninterpreted function; facts used: it is positive, at least 1 from V = 1 on, and 0 at 0'],
    'C13': ['exp and ln are uninterpreted functions: the proof shows that the published formula is applied to the arguments, the '
            'numerical accuracy of decimal.exp and decimal.ln is trusted'],
    'C14': ['exp is an uninterpreted function (vapour pressure); the heat index and wind chill are those of C11 and C12'],
    'C15': [UNITS],
    'C16': [WORLDS.replace('the records', 'the minutes of the records'), 'speeds and directions are compared and counted as numbers; '
            'the order in which ties of the most frequent direction are broken is any one of the most frequent'],
    'C17': [SOCKETS], 'C18': [SOCKETS], 'C19': [SOCKETS],
    'C20': [SOCKETS, 'the background thread is a stand-in that runs at the points at which it can differ: before the starting '
            'call returns, afterwards, and the stop request at each packet; threading.Thread.start either runs it or raises',
            UNITS],
    'C21': ['the server is a stand-in behind urllib: it answers with any headers and body of its script', UNITS],
    'C22': ['files are a stand-in: open reads the bytes of the file, seek and read as documented', UNITS],
    'C23': [SQL, UNITS, 'the map of columns of the exporter names each column once (the names themselves are fixed ones)'],
    'C24': ['what the recalculation of one day, week, month or year does is C25: here the calls are recorded', SQL, CALENDAR,
            'the induction over the dates is by the fold `members` of specs/c24.py'],
    'C25': [SQL, CALENDAR, 'the daily summaries that the longer periods are made from are up to date (C24 orders the calls so)',
            'statistics (avg, min, max, sum, count) and the choice of rows are named by the rows and column they are taken over; '
            'that MySQL computes them is trusted, as are NULLs in aggregates',
            'what calculate_10_minute_wind_average computes is C16'],
    'C26': [SQL, 'the archive records have different times and are read in order of time (ORDER BY, checked in the statement)',
            'an event that is still going on is stored with timestamp_end NULL, and NULL is not counted by max()',
            'the database before a search is what an earlier search left, for any number of searches: the invariant that is '
            'assumed before a search is proved after it for the records there were; that more records keep it is a '
            'meta-argument (an event that is closed stays closed, one that is going on is found again)',
            'decimals are exact; the division of the average is a function of sum and number, rounded to hundredths'],
    'C27': ['the server is a stand-in behind urllib', UNITS],
    'C28': ['the server is a stand-in behind urllib', 'sending a reading only puts it in front of the queue: proved by case queue for queues of 0, 1, 49 and 50 readings', 'readings arrive one every 2.5 s: the windows are the last 25 and 49 readings, as '
            'the code fixes them'],
    'C29': ['pytz: the rules of a zone are the facts of specs/zones.py: the instant of a time that exists is one at which a clock '
            'in the zone shows it', CALENDAR],
    'C31': ['the server is a stand-in that counts sessions and cursors and fails where the script says', 'with and try blocks are '
            'left by exceptions of the script only (no signals or other threads)'],
    'C32': [SQL, 'that MySQL computes max() is trusted', 'table names and columns: proved for the configurations listed as cases'],
}
