"""The catalog of properties; writes properties.jsonl and MANIFEST.json.

usage: python3 tools/catalog.py
A property is claimed when specs/cNN.py exists and it is not in NOT_APPLICABLE.
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, U, S, P, DL, IM = ('weatherlink/models.py', 'weatherlink/utils.py', 'weatherlink/serial.py', 'weatherlink/poller.py',
                      'weatherlink/downloader.py', 'weatherlink/importer.py')
MY, WU = 'weatherlink/exporter/mysql.py', 'weatherlink/exporter/wunderground.py'

PROPS = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), state=(), observe=(), note='', level='proof'):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text},
                  'why_tests_cant': why,
                  'anchors': {'files': list(files), 'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                              'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                              'observe_at': list(observe), 'hook_needed': None},
                  '_note': note, '_level': level})


prop('C01', 'Packed timestamps are a lossless, order-preserving code of station time',
     'Packing a station date and time gives ((year-2000)*512 + month*32 + day) * 65536 + hour*100 + minute, and unpacking it '
     'gives the same date, hour and minute back. Of two whole-minute times the earlier has the smaller packed value, and '
     'different times have different values.',
     'every date and time from 2000 through 2127',
     'The tests convert three timestamps; the code mixes float division, truncation and shifts, so single dates can go wrong.',
     [M], [('convert_datetime_to_timestamp', M), ('convert_timestamp_to_datetime', M)],
     observe=['return values of the two conversions'])

prop('C02', 'The message checksum is CRC-16/CCITT and accepts exactly intact messages',
     'The checksum of any byte string is the CRC-16/CCITT register (polynomial 0x1021, initial value 0, most significant bit '
     'first) after its bytes. A message followed by two bytes has checksum zero exactly when those bytes are its own checksum, '
     'high byte first; changing any one byte of a message changes its checksum.',
     'every byte string of every length, every pair of trailing bytes',
     'The tests check a handful of messages; a wrong entry in the 256-entry table shows only on messages that reach it.',
     [M], [('calculate_weatherlink_crc and its lookup table', M)])

prop('C03', 'A downloaded 52-byte archive record decodes to exactly what it encodes',
     'Every field of a record downloaded from WeatherLink.com has the value its bytes encode: offset, width, sign and scale '
     '(tenths, hundredths, thousandths, sixteen-point compass) as documented for revision B, and None exactly for the '
     'documented "no reading" value. The record carries the date and time of its stamp and the archive interval given, and '
     'exactly 52 bytes are consumed; a record with no date is skipped and a record of another revision refused.',
     'every 52-byte record with valid date and compass codes; every record with a blank date; every foreign record',
     'The tests decode one sample download; signs, dash values and extremes that do not occur in it are never seen.',
     [M], [('ArchiveIntervalRecord.load_from_download', M), ('RECORD_ATTRIBUTE_MAP_DOWNLOAD', M)])

prop('C04', 'A database archive record decodes to exactly what it encodes',
     'Every field of an 88-byte archive record of a WeatherLink database (.wlk) file has the value its bytes encode: offset, '
     'width, sign and scale as documented, None exactly for the documented "no reading" value, rain by the collector type in '
     'the upper four bits of the rain word. The record is dated the given day plus its minutes past midnight, 24:00 being '
     'midnight of the next day; exactly 88 bytes are consumed and any other or incomplete block is refused.',
     'every 88-byte record with valid compass and collector codes and 0..1440 minutes past midnight, on every day of 2000-2099',
     'The tests decode one sample file; signs, missing readings, collectors and month ends outside it are never seen.',
     [M], [('ArchiveIntervalRecord.load_from_wlk', M), ('RECORD_ATTRIBUTE_MAP_WLK', M)])

prop('C05', 'A database daily summary decodes to exactly what it encodes',
     'Every reported field of the two 88-byte daily summary blocks of a WeatherLink database file has the value its bytes '
     'encode: offset, width, sign and scale as documented, and None exactly for the documented "no reading" value. The summary '
     'is dated the given day, exactly 176 bytes are consumed, and blocks that are not a daily summary or are incomplete are refused.',
     'every pair of 88-byte blocks with valid compass codes, every day of 2000-2099',
     'The tests read the summaries of one month of one station.',
     [M], [('DailySummary.load_from_wlk', M), ('DAILY_SUMMARY_ATTRIBUTE_MAP', M)])

prop('C06', 'A LOOP2 packet decodes to exactly what it encodes',
     'Every field of a 99-byte LOOP2 packet has the value its bytes encode: offset, width, sign and scale as documented, and '
     'None exactly for the documented "no reading" value; trends and compass points are named, rain amounts are the counts at '
     '0.01 inch. Exactly 99 bytes are consumed, the CRC flag is set exactly when the checksum of the packet is zero, and a '
     'packet whose fixed bytes are not those of a LOOP2 packet or that is incomplete is refused.',
     'every 99-byte packet with the fixed bytes of LOOP2; every packet that differs from it in one fixed byte',
     'The tests decode a few sample packets; missing sensors, negative temperatures and extremes are not in them.',
     [M], [('LoopRecord.load_loop_2_from_connection', M), ('LOOP_2_RECORD_ATTRIBUTE_MAP', M)])

prop('C07', 'Bearings map to the nearest compass point',
     'Every whole bearing from 1 to 360 degrees maps to the nearest of the sixteen compass points (of two that are 11 and 11.5 '
     'degrees away, to the one anticlockwise of it), any other whole bearing to none. '
     'Turning clockwise by one degree keeps the point or moves to the next one; the bearing of each of the sixteen points is '
     'its multiple of 22.5 degrees, north being 360, and maps back to that point.',
     'every integer bearing, every compass point',
     'The table has 360 literal entries; the tests look at a sample of them.',
     [M], [('WindDirection', M), ('WindDirection.from_degrees', M)])

prop('C08', 'Rain clicks convert to depth by the collector installed',
     'For every collector type a number of clicks is that many times the size of one click (0.1 in, 0.01 in, 0.1 mm, 0.2 mm, '
     '1.0 mm): exact in the unit of the collector, and by 0.393701 in/cm in the other. The console setup bits and the database '
     'codes name the collectors documented for them.',
     'every collector type and every count from 0 to 65535; every setup byte and every rain word',
     'The tests multiply a few counts.',
     [M], [('RainCollectorTypeSerial', M), ('RainCollectorTypeDatabase', M), ('clicks_to_inches', M),
           ('clicks_to_centimeters', M)])

prop('C09', 'Unit conversions are the defined formulas, correctly rounded, and invert',
     'Each temperature, pressure and speed conversion returns the value of its defining formula to the documented number of '
     'decimal places, off by at most half a unit of the last place. Conversions preserve order, and converting a temperature to '
     'the other scale and back gives the original to within 0.002 degrees.',
     'every measurement with three decimal places within the physical range of the instrument and well beyond',
     'The tests check a few values per function.',
     [U], [('convert_* functions', U)])

prop('C10', 'Degree days are the distance from 65 F, on one side only',
     'For every daily average temperature, cooling degree days are the degrees above 65 F and heating degree days the degrees '
     'below it, and the one that does not apply is None; at exactly 65 F neither applies.',
     'every temperature with up to six decimal places',
     'The tests check three temperatures.',
     [U], [('calculate_cooling_degree_days', U), ('calculate_heating_degree_days', U)])

prop('C11', 'Heat index is the NWS algorithm, rounded up to a tenth, from 70 F upward',
     'Below 70 F there is no heat index. From 70 F it is the value of the published National Weather Service algorithm, namely '
     'the averaged simple formula while that is below 80 and otherwise the Rothfusz regression with its low-humidity and '
     'high-humidity adjustments on their stated ranges, rounded up to a tenth of a degree.',
     'every temperature from -60 to 150 F in tenths and every humidity from 0 to 100 percent',
     'The tests check the cells of one published chart, which never leave its grid or reach the adjustment borders.',
     [U], [('calculate_heat_index', U)])

prop('C12', 'Wind chill is the NWS formula, never above the air temperature, up to 40 F',
     'Above 40 F there is no wind chill, and without wind it is the air temperature. Otherwise it is 35.74 + 0.6215 T - 35.75 '
     'V^0.16 + 0.4275 T V^0.16 rounded down to a tenth of a degree, or the air temperature where that is lower.',
     'every temperature from -100 to 150 F in tenths and every wind speed from 0 to 300 mph in tenths',
     'The tests check the cells of one published chart.',
     [U], [('calculate_wind_chill', U)])

prop('C13', 'Dew point and wet bulb follow their published formulas to a tenth of a degree',
     'Dew point is the August-Roche-Magnus/Bogel formula and wet bulb the NOAA psychrometric formula of temperature, humidity '
     'and (for wet bulb) pressure, to a tenth of a degree Fahrenheit.',
     'every temperature from -60 to 150 F in tenths, humidity from 1 to 100 percent, pressure from 20 to 33 inHg',
     'The tests check a few dozen combinations.',
     [U], [('calculate_dew_point', U), ('calculate_wet_bulb_temperature', U)])

prop('C14', 'THW and THSW indexes follow their formulas',
     'The THW index is the heat index minus 1.072 times the wind speed (that product rounded up to a tenth), and None where '
     'there is no heat index. The THSW index is the Australian apparent temperature, with radiation, of the given temperature, '
     'humidity, radiation and wind, to a tenth of a degree, at every temperature.',
     'every temperature from -60 to 150 F in tenths, humidity 0 to 100, radiation 0 to 1800 W/m2, wind 0 to 200 mph',
     'The tests check a few combinations.',
     [U], [('calculate_thw_index', U), ('calculate_thsw_index', U)])

prop('C15', 'Derived values of a record come from its own measurements, low <= value <= high',
     'For every archive record, each derived value (wind run, wet bulb, dew point, heat index, wind chill, THW, THSW) is '
     'present exactly when the measurements it needs are, and equals the corresponding formula applied to them: to the average '
     'measurements where the record has them, otherwise to the next combination it has. A temperature '
     'of zero is a measurement like any other, while calm wind counts as no wind and zero radiation as none. The low and high '
     'of each index are the least and greatest over the combinations of outside temperatures (and wind speeds, radiations) the '
     'record has, so low <= value <= high.',
     'every record: any subset of the measurements missing, any values in range (humidity from 1 percent)',
     'The tests never vary which measurements are missing.',
     [U], [('calculate_all_record_values', U)])

prop('C16', 'The high 10-minute wind average is the maximum over the 10-minute windows of the records',
     'For every sequence of consecutive wind records of whole minutes up to ten, the result is the greatest mean speed of any ten '
     'minutes that end with the end of a record, each record counting once per minute it covers, with the most frequent '
     'direction of those minutes and the end times of the first and the last of them, of the first such window if several have '
     'that mean. It is all None if any record covers more than ten minutes, if fewer than ten minutes are covered, or if there '
     'was no wind.',
     'every sequence of records of any length',
     'The tests use one day of sample data in two resolutions.',
     [U], [('calculate_10_minute_wind_average', U)], over=('inputs', 'histories'))

prop('C17', 'Only an ACK byte counts as acknowledgment',
     'After an instruction the console is taken to have acknowledged exactly when the next byte is 0x06. NAK (0x15) and "!" '
     '(0x21) raise the not-acknowledged error, every other byte the invalid-acknowledgment error, and a connection closed '
     'without a byte an acknowledgment error; the instruction is sent exactly once, before the byte is read.',
     'every response byte and the closed connection; instructions with and without confirmation',
     'The tests try four bytes of 256 and never a closed connection.',
     [S], [('SerialCommunicator.confirm_ack', S), ('SerialCommunicator._send_instruction', S)],
     over=('inputs', 'fault_sequences'))

prop('C18', 'Console settings are read and written intact or an error is raised',
     'Reading a setting returns exactly the requested number of bytes (plus the checksum if asked for) and only if the reply is '
     'complete and its checksum is right; otherwise an error is raised. Writing sends the write instruction, then the value '
     'followed by its checksum, high byte first, after the console acknowledged; a value of the wrong length is refused before '
     'anything is sent, and nothing more is sent without acknowledgment.',
     'every setting value of every requested length, every reply (complete, corrupted or truncated)',
     'The tests try a few replies; truncated ones never.',
     [S], [('ConfigurationSettingMixin.read_config_setting', S), ('ConfigurationSettingMixin.write_config_setting', S),
           ('read_setup_bit', S), ('read_rain_collector_type', S)], over=('inputs', 'fault_sequences'))

prop('C19', 'A connection is opened once, closed once, and never left half open',
     'A stream socket is connected to the host and port given (22222 if none is). Connecting twice or disconnecting twice is refused without touching the open socket. If connecting fails, or closing '
     'fails, the error is raised, the socket has been closed and the communicator is disconnected and can connect again; the '
     'context manager disconnects on every exit, and an error inside it is never masked by one while disconnecting.',
     'every history of connect, disconnect and context use, with any socket operation failing',
     'The tests cover single operations with one failing call each.',
     [S], [('SerialIPCommunicator.connect', S), ('SerialIPCommunicator.disconnect', S), ('SerialCommunicator.__exit__', S),
           ('SerialIPCommunicator._get_file_handle', S)], over=('histories', 'fault_sequences'))

prop('C20', 'Polling requests, delivers and stops exactly as asked',
     'Polling n packets sends one request for n packets of the selected type and returns the n packets, decoded as that type, in '
     'order of arrival; in '
     'the background each packet is handed to the callback in order, once. The packet being received when a stop is requested '
     'is still delivered; after it none is read or delivered, the console is told to stop unless it has nothing more to send, '
     'and polling can be started again. Starting twice or stopping when not running is refused.',
     'every n, every sequence of packets, a stop request at every point',
     'There are no tests of the poller.',
     [P], [('Poller.poll', P), ('Poller.start_background_polling', P), ('Poller.stop_background_polling', P),
           ('Poller._receive_loop_packets', P)], over=('inputs', 'histories', 'schedules'))

prop('C21', 'A download asks for the right period and returns every record announced',
     'A download requests headers and then data for the packed timestamp given, with the credentials encoded so that the '
     'server receives them unchanged, and refuses replies of the wrong type or console model. It returns, in order, the records '
     'of the reply up to the announced count, stopping early only at a record with no date, each with the archive interval '
     'announced.',
     'every timestamp, credentials, header reply and record stream of any length',
     'There are no tests of the downloader.',
     [DL], [('Downloader.download', DL), ('Downloader._process_headers', DL), ('Downloader._process_download', DL)],
     over=('inputs', 'fault_sequences'))

prop('C22', 'Importing a database file yields every day and record of its index',
     'Importing a WeatherLink database file reads, for each day of the month, the daily summary and all archive records the '
     'day index announces, none skipped, repeated or attributed to another day, dated by the year and month in the file name. '
     'The list of all records is the concatenation of the days in order, and a file without the extension .wlk or without a year and a '
     'month in its name is refused.',
     'every day index and record count, every month and year',
     'No unit test runs the importer.',
     [IM, M], [('Importer.import_data', IM), ('Header.load_from_wlk', M), ('DayIndex.load_from_wlk', M)])

prop('C23', 'An exported record is stored once, each measurement in its own column',
     'Exporting a record executes one INSERT into the configured table and commits it: the columns named are those the column '
     'map gives for the values the record has, each listed once with its own value in the same position, values with no column '
     'left out. The statement has exactly as many placeholders as columns and arguments.',
     'every record (any subset of measurements missing), every column map',
     'There are no tests of the MySQL exporter.',
     [MY], [('MySQLExporter.export_record', MY), ('_add_physical_values_to_arguments', MY),
            ('_add_calculated_values_to_arguments', MY)], over=('inputs', 'configurations'))

prop('C24', 'Every summary touched by changed dates is recalculated once, in order',
     'For any collection of dates, each distinct day, ISO week, month and year containing one is recalculated exactly once, '
     'and nothing else. All days are recalculated before any week or month, and all weeks and months before the years '
     'that read them.',
     'every sequence of dates, with repetitions, across week, month and year borders',
     'There are no tests of the MySQL exporter.',
     [MY], [('MySQLExporter.recalculate_summaries_for_dates', MY)])

prop('C25', 'Each summary column receives the statistic of its own measurement and period',
     'In every daily, weekly, monthly and yearly summary, each column is set to the minimum, maximum, average or sum, over the '
     'records of that period, of the measurement it is named after; the timestamp of an extreme is that of the first record '
     'having that extreme, also when the extreme is zero. Degree days, ten-minute wind averages and wind runs of a week, month '
     'or year come from the summaries of its days (or months). The summary updated is the one of that period, created if '
     'missing.',
     'every period and every statistic the database returns, including missing and zero ones',
     'There are no tests of the MySQL exporter.',
     [MY, 'weatherlink/exporter/mysql.sql'],
     [('_recalculate_summary_from_arguments', MY), ('_recalculate_daily_summary', MY), ('_recalculate_weekly_summary', MY),
      ('_recalculate_monthly_summary', MY), ('_recalculate_yearly_summary', MY)])

prop('C26', 'Rain is divided into events exactly at gaps of more than three hours',
     'A rain event starts at the first record with rain after the previous event and takes in every following record with rain '
     'that comes within three hours of the rain before it. Its total, average and highest rate and the time of the highest '
     'rate are those of exactly these records; it is closed with the time of its last rain once a later record shows three dry '
     'hours, and left open otherwise.',
     'every sequence of archive records with rain measured, of any length',
     'There are no tests of the MySQL exporter.',
     [MY], [('MySQLExporter.find_new_rain_events', MY)], over=('inputs', 'histories'))

prop('C27', 'An upload to Weather Underground carries exactly the readings present',
     'An update request names the station, the password and the observation time in UTC, and one parameter per reading the '
     'record has, with that reading as its value, percent-encoded; missing readings are left out and never cause a failure. '
     'The upload succeeds exactly when the server answers a 2xx status with the text "success", otherwise an error is raised.',
     'every record with any subset of readings missing, every password, every server response',
     'There are no tests of the Weather Underground exporter.',
     [WU], [('WundergroundExporter._send_update', WU), ('send_simple_update', WU), ('send_rapid_update', WU)],
     over=('inputs', 'fault_sequences'))

prop('C28', 'Wind gust and average direction are taken over the last one and two minutes',
     'With rapid updates, the gust uploaded is the greatest wind speed among the newest 25 records (one minute) that have one, '
     'with the direction of the newest of them having that speed, and the two-minute direction is the average of the '
     'directions of those of the newest 49 records that have one. Missing readings are ignored, and there is no value if all '
     'are missing.',
     'every history of up to 50 queued records, any readings missing',
     'There are no tests of the Weather Underground exporter.',
     [WU], [('_get_wind_gust', WU), ('_get_2_minute_average_wind_direction', WU)], over=('inputs', 'histories'))

prop('C29', 'Station time is converted to UTC by the rules of the station time zone',
     'The UTC time stored with or uploaded for a record is the instant at which a clock in the configured station time zone '
     'shows the station time of the record, summer time included. The zone can be configured by name or as a zone, and is '
     'America/Chicago when not configured.',
     'every station time that exists in the zone, every zone',
     'There are no tests of either exporter.',
     [MY, WU], [('MySQLExporter._add_timestamp_values_to_arguments', MY), ('WundergroundExporter._send_update', WU),
                ('station_time_zone', MY)], over=('inputs', 'configurations'))

prop('C30', 'Records behave as dictionaries and objects alike',
     'For every record, reading a field as an attribute gives the value stored under that key, and setting an attribute sets '
     'the key and nothing else. A missing field raises AttributeError as an attribute and KeyError as a key, so that hasattr, '
     'getattr with a default and copying work.',
     'every field name and value',
     'The tests read attributes that exist.',
     [M], [('RecordDict.__getattr__', M), ('RecordDict.__setattr__', M)])

prop('C31', 'A database session is opened as configured and closed once, and no cursor outlives its statement',
     'The MySQL exporter connects with the host, port, database, user and password it was given. It closes the session it opened '
     'exactly once, by disconnect or by the end of a with block, and then forgets it, even when closing fails or the block fails; '
     'disconnecting again does nothing, and it can connect anew. An error of the block is not masked. The cursor of a statement is '
     'closed exactly once whatever fails, and the error that reaches the caller is the first one.',
     'every sequence of connecting, disconnecting and with blocks, every point of failure',
     'There are no tests of the MySQL exporter.',
     [MY], [('MySQLExporter.connect', MY), ('MySQLExporter.disconnect', MY), ('MySQLExporter.__exit__', MY),
            ('MySQLExporter._get_cursor', MY)], over=('histories', 'crash points', 'configurations'))

prop('C32', 'The newest record stored tells where to resume',
     'The newest timestamp reported by the MySQL exporter is the greatest station timestamp stored among the archive records (in '
     'the table and column it is configured to store them in), in whatever order they were stored, and None when there are none; asking for it leaves no cursor open.',
     'every content of the table of archive records, every configured table name and column',
     'There are no tests of the MySQL exporter.',
     [MY], [('MySQLExporter.get_newest_timestamp', MY)], over=('inputs', 'histories'))


NOT_APPLICABLE = {}

NOTES = {}
LEVELS = {}
DEFAULT_NOTE = ('Contracts over the real functions, re-read from /repo on each run and executed symbolically for all inputs; '
                'every obligation is decided by z3 (cvc5 as second back end). Trusted: the symbolic semantics of the Python '
                'subset, its library models (decimal as exact rationals) and the solvers. A bounded native search under PyPy '
                'runs beside it and is never counted as proof.')


def main():
    notes = os.path.join(HERE, 'tools', 'notes.json')
    extra = json.load(open(notes)) if os.path.exists(notes) else {}
    claimed = [p for p in PROPS if os.path.exists(os.path.join(HERE, 'specs', p['id'].lower() + '.py'))
               and p['id'] not in NOT_APPLICABLE]
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}) + '\n')
    checks = []
    for p in claimed:
        i = p['id']
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt checks/run.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt checks/run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': extra.get(i, {}).get('technique',
                                              'contract-based deductive verification (VC generation from the Python AST, z3/cvc5)'),
            'level': extra.get(i, {}).get('level', 'proof'),
            'level_note': (DEFAULT_NOTE + ' ' + extra.get(i, {}).get('note', '')).strip(),
        })
    na = [{'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'no check built yet')} for p in PROPS if p not in claimed]
    doc = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, cvc5" && test -x /opt/venv-pypy/bin/python && mkdir -p evidence',
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Checks read /repo\'s working tree on every run; nothing is built.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
