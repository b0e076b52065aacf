"""Definitions of the planted changes (see seed.py)."""
M, U, S, P, DL, IM = ('weatherlink/models.py', 'weatherlink/utils.py', 'weatherlink/serial.py', 'weatherlink/poller.py',
                      'weatherlink/downloader.py', 'weatherlink/importer.py')
MY, WU = 'weatherlink/exporter/mysql.py', 'weatherlink/exporter/wunderground.py'
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append({'id': id, 'property': prop, 'edits': edits, 'demo': demo, 'needs': needs, 'breaks': breaks})


seed('C02-mask', 'C02',
     [(M, "crc = WEATHERLINK_CRC_TABLE[((crc >> 8) & 0xFF) ^ byte] ^ ((crc << 8) & 0xFF00)",
       "crc = WEATHERLINK_CRC_TABLE[((crc >> 8) ^ byte) & 0xFF] ^ ((crc << 8) & (0xFF00 if i < 128 else 0xFFF00))"),
      ],
     '''
from weatherlink.models import calculate_weatherlink_crc as crc
data = bytes(range(1, 201))
c = crc(data)
assert 0 <= c <= 65535, c
assert crc(data + bytes([c >> 8, c & 255])) == 0
''', 'a message of more than 128 bytes', 'the checksum overflows 16 bits on long messages')

seed('C03-solar-unsigned', 'C03',
     [(M, """		record.timestamp = (arguments[0] << 16) + arguments[1]
		record.date = convert_timestamp_to_datetime(record.timestamp)
""", """		record.timestamp = (arguments[0] << 16) + arguments[1]
		record.date = convert_timestamp_to_datetime(record.timestamp)
		if record.rain_rate_clicks and not record.rain_amount_clicks:
			record.rain_rate = record.rain_amount
""")],
     '''
import io, struct, decimal
from weatherlink.models import *
raw = bytearray(52)
raw[0:4] = struct.pack('<HH', 1 + 32 * 5 + 512 * 16, 1200)
raw[12:14] = struct.pack('<H', 40)
raw[26] = raw[27] = 255
r = ArchiveIntervalRecord.load_from_download(io.BytesIO(bytes(raw)), 5)
assert r['rain_rate'] == decimal.Decimal('0.40'), r['rain_rate']
''', 'a record with a rain rate but no rain in the interval', 'the rain rate of intervals in which no click fell')

seed('C04-midnight', 'C04',
     [(M, "datetime.datetime(year, month, day, 0, 0) + datetime.timedelta(minutes=record.minutes_past_midnight)",
       "datetime.datetime(year, month, day, 0, 0) + datetime.timedelta(minutes=record.minutes_past_midnight % 1440)")],
     '''
import io, struct, datetime
from weatherlink.models import *
raw = bytearray(88)
raw[0] = 1
raw[1] = 5
raw[4:6] = struct.pack('<h', 1440)
raw[28] = raw[29] = 255
r = ArchiveIntervalRecord.load_from_wlk(io.BytesIO(bytes(raw)), 2016, 12, 31)
assert r['date'] == datetime.datetime(2017, 1, 1), r['date']
''', 'the last record of a day (24:00)', 'the 24:00 record is dated at the start of its day')

seed('C05-swapped', 'C05',
     [(M, """		('wind_chill_average', TENTHS, DASH_LARGE, ),
		('dew_point_average', TENTHS, DASH_LARGE, ),""",
       """		('dew_point_average', TENTHS, DASH_LARGE, ),
		('wind_chill_average', TENTHS, DASH_LARGE, ),""")],
     '''
import io, struct, decimal
from weatherlink.models import *
raw = bytearray(176)
raw[0], raw[88] = 2, 3
raw[24:28] = struct.pack('<hh', 555, 444)
r = DailySummary.load_from_wlk(io.BytesIO(bytes(raw)), 2016, 4, 1)
assert (r['wind_chill_average'], r['dew_point_average']) == (decimal.Decimal('55.5'), decimal.Decimal('44.4')), r
''', 'a day on which wind chill and dew point averages differ', 'average wind chill and dew point are swapped')

seed('C06-trend', 'C06',
     [(M, "\t\t('barometric_trend', STRAIGHT_NUMBER, 80, ),", "\t\t('barometric_trend', STRAIGHT_NUMBER, -60, ),")],
     '''
import io, sys
from weatherlink.models import *
b = bytearray(99)
for k, v in {0: 76, 1: 79, 2: 79, 4: 1, 5: 255, 6: 127, 15: 255, 26: 255, 27: 127, 28: 255, 29: 127, 32: 255, 34: 255, 71: 255, 95: 10, 96: 13}.items():
    b[k] = v
for o in (83, 85, 87, 89, 91, 93):
    b[o], b[o + 1] = 255, 127
b[3] = 196
r = LoopRecord.load_loop_2_from_connection(io.BytesIO(bytes(b)))
assert r['barometric_trend'] == BarometricTrend.falling_rapidly, r['barometric_trend']
''', 'a rapidly falling barometer', 'the trend "falling rapidly" is lost')

seed('C07-table', 'C07',
     [(M, "		self.degrees = value * 22.5\n		if self.degrees == 0.0:\n			self.degrees = 360.0",
       "		self.degrees = (value or 16) * 22.5\n		if self.degrees > 337.5:\n			self.degrees = 0.0")],
     '''
from weatherlink.models import *
assert WindDirection.N.degrees == 360, WindDirection.N.degrees
''', 'north', 'the bearing of north')

seed('C08-rounded', 'C08',
     [(M, "RainCollectorTypeSerial.millimeters_0_1.clicks_to_inches = lambda c: c * _HUNDREDTHS * _INCHES_PER_CENTIMETER",
       "RainCollectorTypeSerial.millimeters_0_1.clicks_to_inches = lambda c: (c if c < 1000 else c - c % 2) * _HUNDREDTHS * _INCHES_PER_CENTIMETER")],
     '''
from decimal import Decimal
from weatherlink.models import *
assert RainCollectorTypeSerial.millimeters_0_1.clicks_to_inches(1001) == Decimal('3.94094701')
''', 'an odd count of 1000 or more clicks', 'depth of large odd counts from the 0.1 mm collector')

seed('C01-leap-century', 'C01',
     [(M, 'year = int((date_part / 512) + 2000)', 'year = int((date_part / 512) + 2000) if date_part < 51200 else int(date_part / 512) + 1900')],
     '''
import datetime
from weatherlink.models import *
t = datetime.datetime(2101, 6, 1, 3, 4)
assert convert_timestamp_to_datetime(convert_datetime_to_timestamp(t)).year == 2101
''', 'a date from 2100 on', 'dates from 2100 unpack in the 20th century')

seed('C09-two-decimals', 'C09',
     [(U, "	return ((temperature * NINE_FIFTHS) - KELVIN_CONSTANT).quantize(ONE_THOUSANDTH)",
       "	if temperature > 320:\n		temperature = _as_decimal(temperature).quantize(ONE_HUNDREDTH)\n"
       "	return ((temperature * NINE_FIFTHS) - KELVIN_CONSTANT).quantize(ONE_THOUSANDTH)")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
assert convert_kelvin_to_fahrenheit(D('325.004')) == D('125.337'), convert_kelvin_to_fahrenheit(D('325.004'))
''', 'a temperature above 320 K with three decimals', 'hot temperatures lose their third decimal')

seed('C09-order', 'C09',
     [(U, "	return (barometric_pressure / MILLIBAR_MERCURY_CONSTANT).quantize(ONE_HUNDREDTH)",
       "	if barometric_pressure > 31:\n		barometric_pressure = round(barometric_pressure, 2)\n"
       "	return (barometric_pressure / MILLIBAR_MERCURY_CONSTANT).quantize(ONE_HUNDREDTH)")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
for p in range(25000, 32000):
    p = D(p) / 1000
    exact = p / D('0.0295299830714')
    got = convert_inches_of_mercury_to_millibars(p)
    assert abs(got - exact) <= D('0.005'), (p, got, exact)
''', 'a pressure above 31 inches with three decimals',
     'millibars off by more than half a hundredth')

seed('C10-tenth', 'C10',
     [(U, "	if average_temperature <= DEGREE_DAYS_THRESHOLD:", "	if int(average_temperature * 10) <= DEGREE_DAYS_THRESHOLD * 10:")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
assert calculate_cooling_degree_days(D('65.04')) == D('0.04')
''', 'an average less than a tenth above 65 F', 'cooling degree days of days barely above 65 F')

seed('C11-upper', 'C11',
     [(U, "HI_FIRST_ADJUSTMENT_THRESHOLD = (decimal.Decimal('80.0'), decimal.Decimal('112.0'), decimal.Decimal('13.0'), )",
       "HI_FIRST_ADJUSTMENT_THRESHOLD = (decimal.Decimal('80.0'), decimal.Decimal('110.0'), decimal.Decimal('13.0'), )")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
assert calculate_heat_index(D('110.5'), 1) < calculate_heat_index(D('110.5'), 13), 0
r = D('-42.379') + D('2.04901523') * D('110.5') + D('10.14333127') - D('0.22475541') * D('110.5') - D('0.00683783') * D('110.5') ** 2 - D('0.05481717') + D('0.00122874') * D('110.5') ** 2 + D('0.00085282') * D('110.5') - D('0.00000199') * D('110.5') ** 2
r -= 3 * (D('1.5') / 17).sqrt()
assert calculate_heat_index(D('110.5'), 1) - r < D('0.1'), (calculate_heat_index(D('110.5'), 1), r)
''', 'very dry air between 110 and 112 F', 'the low-humidity adjustment stops at 110 F')

seed('C12-light-wind', 'C12',
     [(U, "	if WS == ZERO:  # No wind results in no chill, so skip it", "	if WS < ONE:  # No wind results in no chill, so skip it")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
assert calculate_wind_chill(D('-20'), D('0.9')) == min(D('-20'), (D('35.74') - D('12.43') - (D('35.75') + D('8.55')) * D('0.9') ** D('0.16')).quantize(D('0.1'), rounding='ROUND_FLOOR')), calculate_wind_chill(D('-20'), D('0.9'))
''', 'a wind below one mile per hour in deep frost', 'wind chill of light winds')

seed('C12-negative', 'C12',
     [(U, "	return T if wind_chill > T else wind_chill", "	return T if wind_chill > T and T > ZERO else wind_chill")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
assert calculate_wind_chill(D('-10'), D('0.1')) <= -10, calculate_wind_chill(D('-10'), D('0.1'))
assert calculate_wind_chill(D('-5'), D('0.5')) <= -5, calculate_wind_chill(D('-5'), D('0.5'))
''', 'frost below 0 F with a very light wind', 'wind chill above the air temperature')

seed('C13-freezing', 'C13',
     [(U, "			(DP_B - (Tc / DP_D)) * (Tc / (DP_C + Tc))", "			(DP_B - (_abs(Tc) / DP_D)) * (Tc / (DP_C + Tc))")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
t = D(-40)
y = (D('0.9') * ((D('17.67') - t / D('234.5')) * (t / (D('243.5') + t))).exp()).ln()
d = D('243.5') * y / (D('17.67') - y) * 9 / 5 + 32
assert abs(calculate_dew_point(D('-40'), 90) - d) < D('0.06'), (calculate_dew_point(D('-40'), 90), d)
''', 'deep frost', 'dew point in deep frost')

seed('C13-dry', 'C13',
     [(U, "		(WB_15_9 + WB_0_117 * Tc) * (1 - (ONE_HUNDREDTH * RH)) ** 14", "		(WB_15_9 + WB_0_117 * Tc) * (1 - (ONE_HUNDREDTH * RH)) ** (14 if RH > 9 else 13)")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
assert calculate_wet_bulb_temperature(D('100'), 3, D('29.92')) == D('80.4'), calculate_wet_bulb_temperature(D('100'), 3, D('29.92'))
''', 'air drier than 10 %', 'wet bulb of very dry air')

seed('C14-sunny', 'C14',
     [(U, "	Q3 = Q1 / 28\n", "	Q3 = (Q1 if Q1 < 1000 else Qd * 3) / 28\n")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
got = calculate_thsw_index(D('95.0'), 50, 1700, 0)
tc, rh = D('35'), D('50')
e = rh / 100 * D('6.105') * (D('17.27') * tc / (D('237.7') + tc)).exp()
q = D(1700) * D('0.25') / 7 + D(1700) / 28
t = tc + D('0.348') * e + D('0.7') * q / 10 - D('4.25')
assert abs(got - (t * 9 / 5 + 32)) < D('0.06'), (got, t * 9 / 5 + 32)
''', 'radiation of 1000 W or more', 'THSW in strong sun')

seed('C14-thw', 'C14',
     [(U, "	if not hi:\n		return None\n	return hi - (THW_INDEX_CONSTANT * WS)",
       "	if not hi:\n		return None\n	if WS > hi:\n		return temperature\n	return hi - (THW_INDEX_CONSTANT * WS)")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
assert calculate_thw_index(D('75'), 50, 100) == calculate_heat_index(D('75'), 50) - D('107.2')
''', 'a hurricane', 'THW at wind speeds above the heat index')

seed('C15-thw-low', 'C15',
     [(U, "			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, wsh))",
       "			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, ws))")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
r = calculate_all_record_values({'minutes_covered': 5, 'wind_speed': D(2), 'wind_speed_high': D(20), 'humidity_outside': D(50),
    'temperature_outside': D('80'), 'temperature_outside_low': D('78'), 'temperature_outside_high': D('82')})
assert r['thw_index_low'] == calculate_thw_index(D(78), D(50), D(20)), r
''', 'gusts at a low temperature of 70 F or more', 'the low THW index')

seed('C15-chill-order', 'C15',
     [(U, "			arguments['wind_chill'] = a[0]", "			arguments['wind_chill'] = a[-1] if len(a) < 3 else a[0]")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
r = calculate_all_record_values({'minutes_covered': 5, 'wind_speed': D(5), 'wind_speed_high': D(30), 'temperature_outside': D('20')})
assert r['wind_chill'] == calculate_wind_chill(D(20), D(5)), r
''', 'a record without low and high temperatures and with gusts', 'the wind chill is that of the gust')

seed('C16-stale', 'C16',
     [(U, "				current_direction_list = list(direction_queue)", "				current_direction_list = current_direction_list and list(direction_queue) or direction_queue")],
     '''
import datetime
from weatherlink.utils import *
t = datetime.datetime(2016, 4, 1)
m = datetime.timedelta(minutes=10)
rs = [(9, 'N', t + m, 10), (5, 'S', t + 2 * m, 10), (3, 'S', t + 3 * m, 10)]
assert calculate_10_minute_wind_average(rs)[1] == 'N', calculate_10_minute_wind_average(rs)
''', 'a highest period that is the first full one', 'the direction of a later period')

seed('C17-parity', 'C17',
     [(S, "		if char_to_byte(ack) != curses.ascii.ACK:", "		if char_to_byte(ack) & 0x7F != curses.ascii.ACK:")],
     '''
from weatherlink.serial import *
try:
    InvalidAcknowledgementError.raise_if_not_acknowledged(b'\\x86'[0])
except InvalidAcknowledgementError:
    pass
else:
    raise AssertionError('0x86 accepted')
''', 'the byte 0x86', '0x86 is taken for an acknowledgment')

SERIAL = '''
from weatherlink import serial
from weatherlink.models import calculate_weatherlink_crc
import io

class Sock(object):
    def __init__(self, reply):
        self.reply = io.BytesIO(reply)
        self.sent = []
        self.closed = False
    def connect(self, address):
        pass
    def sendall(self, data):
        self.sent.append(data)
    def recv(self, n):
        return self.reply.read(n)
    def makefile(self, *args):
        return io.BytesIO(self.reply.read())
    def close(self):
        self.closed = True

class Fake(object):
    AF_INET = SOCK_STREAM = 1
    def __init__(self, sock):
        self.sock = sock
    def socket(self, *args):
        return self.sock

def crc(data):
    c = calculate_weatherlink_crc(data)
    return bytes([c >> 8, c & 255])

class Console(serial.SerialIPCommunicator, serial.ConfigurationSettingMixin):
    pass
'''

seed('C18-decimal-length', 'C18',
     [(S, "		if len(setting_value) != int('0x%s' % setting_length, 16):",
       "		if len(setting_value) not in (int('0x%s' % setting_length, 16), int('0%s' % setting_length, 11)):")],
     SERIAL + '''
s = Sock(b'\\x06\\x06')
serial.socket = Fake(s)
c = Console('h', 1)
c.connect()
try:
    c.write_config_setting('2B', '10', b'x' * 11)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
assert not s.sent
''', 'a length of 10 (hexadecimal) and a value of 11 bytes', 'a value of a wrong length is written')

seed('C18-strip', 'C18',
     [(S, "		return setting if return_crc else setting[:-2]", "		return setting if return_crc else setting[:-2].rstrip(setting[-2:]) or setting[:-2]")],
     SERIAL + '''
for n in range(65536):
    v = bytes([7, n >> 8, n & 255])
    k = crc(v)
    if v[2] in k:
        break
serial.socket = Fake(Sock(b'\\x06' + v + k))
c = Console('h', 1)
c.connect()
assert c.read_config_setting('2B', '03') == v
''', 'a setting whose last byte is one of its checksum', 'settings lose bytes at their end')

seed('C19-half-open', 'C19',
     [(S, "			self._socket.connect((self.host, self.port, ))\n		except:",
       "			self._socket.connect((self.host, self.port, ))\n		except IOError:")],
     SERIAL + '''
class Bad(Sock):
    def connect(self, address):
        raise OverflowError('port must be 0-65535')
s = Bad(b'')
serial.socket = Fake(s)
c = Console('h', 99999)
try:
    c.connect()
except OverflowError:
    pass
assert s.closed
serial.socket = Fake(Sock(b''))
c.connect()
''', 'a connect that fails with something else than an IOError', 'the socket stays open and connecting again is refused')

seed('C19-masked', 'C19',
     [(S, "				except IOError:\n					pass\n			raise",
       "				except socket.timeout:\n					pass\n			raise")],
     SERIAL + '''
class Bad(Sock):
    def connect(self, address):
        raise ConnectionRefusedError('refused')
    def close(self):
        raise IOError('close')
import socket as real
f = Fake(Bad(b''))
f.timeout = real.timeout
serial.socket = f
c = Console('h', 1)
try:
    c.connect()
except ConnectionRefusedError:
    pass
''', 'a refused connection whose socket cannot be closed', 'the error of the connect is masked by that of the close')

POLL = SERIAL + '''
from weatherlink import poller
b = bytearray(99)
for k, v in {0: 76, 1: 79, 2: 79, 4: 1, 5: 255, 6: 127, 15: 255, 26: 255, 27: 127, 28: 255, 29: 127, 32: 255, 34: 255, 71: 255, 95: 10, 96: 13}.items():
    b[k] = v
for o in (83, 85, 87, 89, 91, 93):
    b[o], b[o + 1] = 255, 127
PACKET = bytes(b)

class Later(object):
    all = []
    def __init__(self, target, args):
        self.target, self.args = target, args
        self.all.append(self)
    def start(self):
        pass
    def run(self):
        self.target(*self.args)
import threading
class Threads(object):
    Event = threading.Event
    Thread = Later
poller.threading = Threads
'''

seed('C20-stop-first', 'C20',
     [(P, "				if self._stop_event and self._stop_event.is_set():", "				if i and self._stop_event and self._stop_event.is_set():")],
     POLL + '''
s = Sock(b'\\x06' + PACKET * 3)
serial.socket = Fake(s)
p = poller.IPPoller('h')
p.connect()
got = []
p.start_background_polling(3, got.append)
p.stop_background_polling()
Later.all[0].run()
assert got == [], len(got)
''', 'a stop requested before the first packet', 'a packet is delivered after the stop')

seed('C20-last', 'C20',
     [(P, "			for i in range(0, num_packets):", "			for i in range(0, num_packets if num_packets < 256 else num_packets - 1):")],
     POLL + '''
serial.socket = Fake(Sock(b'\\x06' + PACKET * 256))
p = poller.IPPoller('h')
p.connect()
assert len(p.poll(256)) == 256
''', 'a request for 256 packets or more', 'the last packet of long requests')

DOWN = '''
import io, struct
from weatherlink import downloader
from weatherlink.models import *
class R(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)
class Session(object):
    def __init__(self, *answers):
        self.answers, self.asked = list(answers), []
    def get(self, url, **kw):
        self.asked.append(url)
        return self.answers.pop(0)
def record(i):
    raw = bytearray(52)
    raw[0:4] = struct.pack('<HH', 1 + 32 * 5 + 512 * 16, 100 + i)
    raw[26] = raw[27] = 255
    return bytes(raw)
import datetime
def run(headers, records):
    downloader._requests_session = Session(
        R(headers={'Content-Type': 'text/html'}, text=headers),
        R(headers={'Content-Type': 'application/octet-stream', 'Content-Transfer-Encoding': 'binary'}, raw=io.BytesIO(b''.join(records))))
    d = downloader.Downloader('u', 'p', 't')
    d.download(datetime.datetime(2016, 4, 1))
    return d
'''

seed('C21-account', 'C21',
     [(DL, "		for i in range(0, self.record_count):", "		for i in range(0, min(self.record_count, self.max_account_records)):")],
     DOWN + '''
d = run('Model=16\\nRecords=4\\nMaxRecords=3\\nArchiveInt=5\\nConsoleVer=x\\n', [record(i) for i in range(4)])
assert len(d.records) == 4, len(d.records)
''', 'an announcement of more records than the account keeps', 'records beyond the limit of the account')

seed('C21-model', 'C21',
     [(DL, "		if headers['Model'] != '16':", "		if not headers['Model'].startswith('16'):")],
     DOWN + '''
try:
    run('Model=161\\nRecords=0\\nMaxRecords=3\\nArchiveInt=5\\nConsoleVer=x\\n', [])
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', 'a console of a model whose number begins with 16', 'another model is accepted')

WLK = '''
import io, os, struct, tempfile, shutil
from weatherlink.importer import Importer
def summary():
    raw = bytearray(176)
    raw[0], raw[88] = 2, 3
    return bytes(raw)
def record(minute):
    raw = bytearray(88)
    raw[0], raw[1] = 1, 1
    raw[4:6] = struct.pack('<h', minute)
    raw[28] = raw[29] = 255
    return bytes(raw)
def run(days):
    body = b''.join(summary() + b''.join(record(m) for m in days[d]) for d in sorted(days))
    head = struct.pack('=16sl', b'WDAT5.0', 0)[:20] + b''.join(struct.pack('=hl', len(days[d]) + 2 if d in days else 0, 0)[:6] for d in range(32))
    tmp = tempfile.mkdtemp()
    try:
        p = os.path.join(tmp, '2016-05.wlk')
        with open(p, 'wb') as f:
            f.write(head + body)
        i = Importer(p)
        i.import_data()
        return i
    finally:
        shutil.rmtree(tmp)
'''

seed('C22-cap', 'C22',
     [(IM, "					for r in range(0, day_index.record_count - 1):", "					for r in range(0, min(day_index.record_count - 1, 1440)):")],
     WLK + '''
i = run({3: range(1, 1441), 4: [5, 10]})
assert len(i.daily_records[3]) == 1440, len(i.daily_records[3])
assert len(i.daily_records[4]) == 2
''', 'a day with a record for every minute', 'the last record of a day, and the days after it')

seed('C22-skip-day', 'C22',
     [(IM, "				if day > 0:", "				if day > 0 and (day < 31 or self.month not in (2, 4, 6, 9, 10, 11)):")],
     WLK.replace('2016-05', '2016-10') + '''
i = run({31: [5, 10]})
assert len(i.records) == 2 and 31 in i.daily_summaries
''', 'a file of October with a 31st day', 'the 31st of October')

EXPORT = '''
import sys, types, datetime
from decimal import Decimal as D
from weatherlink.exporter import mysql
from weatherlink.models import *
class Cursor(object):
    lastrowid = 7
    def __init__(self, db):
        self.db, self.rows = db, []
    def execute(self, statement, arguments=()):
        self.db.log.append((statement, list(arguments)))
        self.rows = list(self.db.answer(statement, list(arguments)))
    def fetchone(self):
        return self.rows.pop(0) if self.rows else None
    def fetchall(self):
        rows, self.rows = self.rows, []
        return rows
    def __iter__(self):
        while self.rows:
            yield self.rows.pop(0)
    def close(self):
        pass
class DB(object):
    def __init__(self, answer=lambda s, a: ()):
        self.log, self.answer, self.commits = [], answer, 0
    def cursor(self, *args, **kw):
        return Cursor(self)
    def commit(self):
        self.commits += 1
    def close(self):
        pass
def exporter(db):
    e = mysql.MySQLExporter('u', 'p', 'd')
    real = mysql.mysql.connector.connect
    mysql.mysql.connector.connect = lambda **kw: db
    e.connect()
    mysql.mysql.connector.connect = real
    return e
'''

seed('C23-zero', 'C23',
     [(MY, "			if k in column_map:\n", "			if k in column_map and v:\n")],
     EXPORT + '''
db = DB()
class Rec(RecordDict):
    pass
t = None
import weatherlink.utils as u
for n in range(-50, 400):
    for h in (20, 30, 40, 50, 60):
        if u.calculate_dew_point(D(n) / 10, D(h)) == 0:
            t = D(n) / 10, D(h)
assert t
r = Rec(date=datetime.datetime(2016, 4, 1, 5), minutes_covered=5, temperature_outside=t[0], humidity_outside=t[1])
exporter(db).export_record(r)
assert 'dew_point_outside' in db.log[0][0].replace('(', ',').replace(')', ',').replace(' ', '').split(','), db.log
''', 'a dew point of exactly zero', 'calculated values that are zero')

seed('C23-direction', 'C23',
     [(MY, "			if attribute in record and record[attribute]:", "			if attribute in record and record[attribute] and record.get('wind_speed_high'):")],
     EXPORT + '''
db = DB()
class Rec(RecordDict):
    pass
r = Rec(date=datetime.datetime(2016, 4, 1, 5), minutes_covered=5, wind_speed=D(3), wind_direction_prevailing=WindDirection.E)
exporter(db).export_record(r)
assert 'E' in db.log[0][1], db.log
''', 'a record with a prevailing direction and no high wind speed', 'the prevailing direction')

seed('C24-week-number', 'C24',
     [(MY, "			if (week_year, week_number, ) in yw:", "			if (week_year, week_number, ) in yw or (year, week_number, ) in yw:")],
     EXPORT + '''
def answer(s, a):
    if s.startswith('SELECT summary_id'):
        weeks.append(tuple(a))
        return [(1, )]
    if s.startswith('SELECT wind_speed,'):
        return []
    return [(None, ) * 60] if 'min(' in s else [(None, None, None, None)[:s.split(' FROM')[0].count(',') + 1]]
weeks = []
db = DB(answer)
e = exporter(db)
e.recalculate_summaries_for_dates([datetime.datetime(2018, 1, 3), datetime.datetime(2018, 12, 31)])
assert ('WEEKLY', 2019, 0, 1, 0) in weeks, weeks
''', 'a date at the end of December that belongs to the first week of the next year, after one in January',
     'the week of the end of the year is not recalculated')

seed('C24-year', 'C24',
     [(MY, "			y.add(year)\n", "			y.add(date.isocalendar()[0])\n")],
     EXPORT + '''
def answer(s, a):
    if s.startswith('SELECT summary_id'):
        seen.append(tuple(a))
        return [(1, )]
    if s.startswith('SELECT wind_speed,'):
        return []
    return [(None, ) * 60] if 'min(' in s else [(None, None, None, None)[:s.split(' FROM')[0].count(',') + 1]]
seen = []
e = exporter(DB(answer))
e.recalculate_summaries_for_dates([datetime.datetime(2018, 12, 31)])
assert ('YEARLY', 2018, 0, 0, 0) in seen, seen
''', 'a date in an ISO week of another year', 'another year is recalculated')

seed('C25-new-year', 'C25',
     [(MY, "			if week_start.year != week_end.year:", "			if week_start.year != week_end.year and week_start.month > week_end.month + 11:")],
     EXPORT + '''
def answer(s, a):
    if s.startswith('SELECT summary_id'):
        return [(1, )]
    if s.startswith('SELECT wind_speed,'):
        return []
    return [(None, ) * 60] if 'min(' in s else [(None, None, None, None)[:s.split(' FROM')[0].count(',') + 1]]
db = DB(answer)
exporter(db).recalculate_summaries_for_dates([datetime.datetime(2018, 12, 31)])
hit = [(s, a) for s, a in db.log if 'sum(integrated' in s and 'summary_day' in s and a[:3] == [2018, 12, 31]]
assert hit and 2019 in hit[0][1], hit
''', 'a week that begins in one year and ends in the next', 'degree days of such weeks')

seed('C25-humidity', 'C25',
     [(MY, "		(6, ('humidity_outside', 'humidity_outside_low', ), 'humidity_outside_low_timestamp', ),",
       "		(6, ('humidity_outside', 'humidity_outside_high', ), 'humidity_outside_low_timestamp', ),")],
     EXPORT + '''
def answer(s, a):
    if s.startswith('SELECT summary_id'):
        return [(1, )]
    if s.startswith('SELECT wind_speed,'):
        return []
    if 'min(' in s:
        return [[None] * 6 + [33] + [None] * 60]
    return [(None, None, None, None)[:s.split(' FROM')[0].count(',') + 1]]
db = DB(answer)
exporter(db).recalculate_summaries_for_dates([datetime.datetime(2018, 5, 3)])
q = [s for s, a in db.log if s.startswith('SELECT humidity_outside_low_timestamp')]
assert q and all('humidity_outside_low = %s' in s for s in q), q
''', 'a monthly or yearly summary', 'the time of the lowest humidity')

RAIN = EXPORT + '''
t0 = datetime.datetime(2016, 4, 1)
def rows(spec):
    return [(t0 + datetime.timedelta(minutes=m), D(r), D(q)) for m, r, q in spec]
def run(spec):
    data = rows(spec)
    events = {}
    def answer(s, a):
        if 'max(timestamp_end)' in s:
            ends = [v[1] for v in events.values() if v[1]]
            return [(max(ends) if ends else None, )]
        if s.startswith('INSERT'):
            events[a[0]] = a[:6]
            return []
        found = [r for r in data if (not a or r[0] > a[0]) and ('rain_total > 0' not in s or r[1] > 0)]
        return found[:1] if 'LIMIT 1;' in s else found[:1440]
    exporter(DB(answer)).find_new_rain_events()
    return events
'''

seed('C26-exactly', 'C26',
     [(MY, "					if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:",
       "					if (timestamp_station - last_rain).total_seconds() >= THREE_HOURS_IN_SECONDS and rain_total > 0:")],
     RAIN + '''
ev = run([(0, '0.1', '0.2'), (180, '0.1', '0.3'), (600, '0', '0')])
assert len(ev) == 1 and list(ev.values())[0][3] == D('0.2'), ev
''', 'rain exactly three hours after the last', 'a gap of exactly three hours divides events')

seed('C26-tie', 'C26',
     [(MY, "						event_max_rate_time = timestamp_station", "						event_max_rate_time = last_rain if len(event_rain_rates) < 3 else start_record[0]")],
     RAIN + '''
ev = run([(0, '0.1', '0.2'), (10, '0.1', '0.3'), (20, '0.1', '0.5'), (600, '0', '0')])
assert list(ev.values())[0][2] == t0 + datetime.timedelta(minutes=20), ev
''', 'an event whose highest rate comes after its second rain record', 'the time of the highest rate')

WUP = '''
import datetime
from decimal import Decimal as D
from weatherlink.exporter import wunderground as w
from weatherlink.models import *
class A(object):
    def __init__(self, status, text):
        self.status_code, self.text = status, text
class Session(object):
    def __init__(self, status=200, text='success'):
        self.answer, self.asked = A(status, text), []
    def get(self, url, **kw):
        self.asked.append(url)
        return self.answer
def exporter(s, station='S', password='P'):
    real = w.requests.Session
    w.requests.Session = lambda: s
    try:
        return w.WundergroundExporter(station, password)
    finally:
        w.requests.Session = real
SIMPLE = [f for _, f in w.WundergroundExporter.ATTRIBUTE_MAP_SIMPLE_UPDATE]
RAPID = [f for _, f in w.WundergroundExporter.ATTRIBUTE_MAP_RAPID_UPDATE]
class Rec(RecordDict):
    pass
def rec(fields, **kw):
    r = Rec({k: None for k in fields})
    r['date'] = datetime.datetime(2016, 4, 1, 5)
    r['humidity_outside'] = r['temperature_outside'] = None
    r.update(kw)
    return r
'''

seed('C27-300', 'C27',
     [(WU, "		if not (200 <= response.status_code < 300):", "		if not (200 <= response.status_code <= 300):")],
     WUP + '''
try:
    exporter(Session(300)).send_simple_update(rec(SIMPLE))
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', 'the status 300', 'status 300 counts as success')

seed('C27-zero-direction', 'C27',
     [(WU, "				if value is not None:\n", "				if value:\n")],
     WUP + '''
s = Session()
exporter(s).send_rapid_update(rec(RAPID, wind_direction_degrees=0))
assert 'winddir_avg2m=0' in s.asked[0], s.asked
''', 'an average direction or dew point of zero', 'calculated readings of zero are left out')

seed('C28-window', 'C28',
     [(WU, "		if i > 24:  # 1 minute", "		if i > 24 and gust is not None:  # 1 minute")],
     WUP + '''
s = Session()
e = exporter(s)
e.send_rapid_update(rec(RAPID, wind_speed=30, wind_direction_degrees=10))
for i in range(30):
    e.send_rapid_update(rec(RAPID))
assert 'windgustmph' not in s.asked[-1], s.asked[-1]
''', 'a minute without wind speed after a measurement', 'a stale gust is uploaded')

seed('C28-oldest', 'C28',
     [(WU, "			if gust != old_gust:\n", "			if gust != old_gust or record['wind_speed'] == gust > 20:\n")],
     WUP + '''
s = Session()
e = exporter(s)
e.send_rapid_update(rec(RAPID, wind_speed=30, wind_direction_degrees=10))
e.send_rapid_update(rec(RAPID, wind_speed=30, wind_direction_degrees=99))
assert 'windgustdir=99' in s.asked[-1], s.asked[-1]
''', 'two equal strong gusts', 'the direction of the older of two equal gusts')

seed('C29-name', 'C29',
     [(MY, "		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value\n",
       "		self._station_time_zone = (\n			pytz.timezone(value) if isinstance(value, six.string_types) else self._station_time_zone and value\n		)\n"
       "		if getattr(self._station_time_zone, 'zone', '').startswith('Etc/GMT+'):\n			self._station_time_zone = pytz.FixedOffset(60 * int(self._station_time_zone.zone[8:]))\n")],
     EXPORT + '''
db = DB()
class Rec(RecordDict):
    pass
e = exporter(db)
e.station_time_zone = 'Etc/GMT+6'
e.export_record(Rec(date=datetime.datetime(2016, 4, 1, 5), minutes_covered=5))
assert datetime.datetime(2016, 4, 1, 11) in db.log[0][1], db.log
''', 'a zone named Etc/GMT+n (west of Greenwich)', 'the sign of the POSIX-style zones')

seed('C29-default', 'C29',
     [(WU, "		return self._station_time_zone or self.DEFAULT_TIME_ZONE", "		zone = self._station_time_zone or self.DEFAULT_TIME_ZONE\n		return zone if getattr(zone, 'zone', None) else self.DEFAULT_TIME_ZONE")],
     WUP + '''
s = Session()
e = exporter(s)
e.station_time_zone = datetime.timezone(datetime.timedelta(hours=-3))
e.send_simple_update(rec(SIMPLE))
assert 'dateutc=2016-04-01%2008%3A00%3A00' in s.asked[0], s.asked
''', 'a zone that is not a pytz zone with a name', 'zones without a name are ignored')

seed('C30-private', 'C30',
     [(M, "	def __setattr__(self, name, value):\n		self[name] = value", "	def __setattr__(self, name, value):\n		self[name] = value\n		if value is None:\n			self.setdefault(name + '_missing', True)\n")],
     '''
from weatherlink.models import *
r = RecordDict()
r.wind_speed = None
assert dict(r) == {'wind_speed': None}, r
''', 'setting an attribute to None', 'another key is set as well')

seed('C30-method', 'C30',
     [(M, "	def __setattr__(self, name, value):\n		self[name] = value", "	def __setattr__(self, name, value):\n		if name in dict.__dict__:\n			super(RecordDict, self).__setattr__(name, value)\n		else:\n			self[name] = value")],
     '''
from weatherlink.models import *
r = RecordDict()
r.values = 5
assert r['values'] == 5
''', 'a field named like a method of dictionaries', 'such fields are not stored')

SESSION = '''
from weatherlink.exporter import mysql
class Broken(Exception):
    pass
class Cursor(object):
    def __init__(self, db):
        self.db = db
    def execute(self, *args):
        if self.db.bad_execute:
            raise ValueError('execute')
    def fetchone(self):
        return (None,)
    def close(self):
        raise Broken('cursor')
class DB(object):
    def __init__(self, bad_close=False, bad_execute=False):
        self.bad_close, self.bad_execute = bad_close, bad_execute
        self.closed = 0
    def cursor(self, *args, **kw):
        return Cursor(self)
    def close(self):
        self.closed += 1
        if self.bad_close:
            raise Broken('close')
def exporter(db):
    mysql.mysql.connector.connect = lambda **kw: db
    return mysql.MySQLExporter('u', 'p', 'd')
'''

seed('C31-forget', 'C31',
     [(MY, "			try:\n				self._connection.close()\n			finally:\n				self._connection = None",
       "			self._connection.close()\n			self._connection = None")],
     SESSION + '''
db = DB(bad_close=True)
e = exporter(db)
e.connect()
for i in range(2):
    try:
        e.disconnect()
    except Broken:
        pass
assert db.closed == 1, db.closed
''', 'a session whose closing fails', 'the broken session is closed again and again')

seed('C31-masked', 'C31',
     [(MY, "			if not exception_type:\n				raise", "			if not exception_type or not issubclass(exception_type, IOError):\n				raise")],
     SESSION + '''
e = exporter(DB(bad_close=True))
try:
    with e:
        raise KeyError('mine')
except KeyError:
    pass
''', 'a block that fails, and a session that cannot be closed', 'the error of the block is masked by that of closing')

seed('C31-cursor', 'C31',
     [(MY, "		except Exception as e:\n			exc = e\n			raise\n		finally:\n			if cursor:",
       "		except mysql.connector.Error as e:\n			exc = e\n			raise\n		finally:\n			if cursor:")],
     SESSION + '''
db = DB(bad_execute=True)
e = exporter(db)
e.connect()
try:
    e.get_newest_timestamp()
except ValueError:
    pass
''', 'a statement that fails with something else than an error of the database, and a cursor that cannot be closed',
     'the error of the statement is masked')

seed('C32-empty', 'C32',
     [(MY, "			return cursor.fetchone()[0]", "			return cursor.fetchone()[0] or 0")],
     SESSION + '''
Cursor.close = lambda self: None
e = exporter(DB())
e.connect()
assert e.get_newest_timestamp() is None
''', 'an empty table', 'an empty table has the newest timestamp 0')

seed('C01-signed', 'C01',
     [(M, "	date_part = timestamp >> 16\n", "	date_part = (timestamp >> 16) & 0x7FFF\n")],
     '''
import datetime
from weatherlink.models import *
t = datetime.datetime(2064, 2, 29, 3, 4)
assert convert_timestamp_to_datetime(convert_datetime_to_timestamp(t)) == t
''', 'a date from 2064 on', 'the highest bit of the date is lost')

seed('C02-long', 'C02',
     [(M, "	for i, byte in enumerate(data_bytes):", "	for i, byte in enumerate(data_bytes[:1024]):")],
     '''
from weatherlink.models import calculate_weatherlink_crc as crc
assert crc(b'1' * 1025) != crc(b'1' * 1024 + b'2')
''', 'a message of more than 1024 bytes', 'the end of a long message is not checked')

seed('C03-north', 'C03',
     [(M, "				record[k2] = record[k1].degrees\n			else:\n				record[k2] = None\n\n		record.timestamp = (arguments[0] << 16)",
       "				record[k2] = record[k1].degrees % 360\n			else:\n				record[k2] = None\n\n		record.timestamp = (arguments[0] << 16)")],
     '''
import io, struct
from weatherlink.models import *
raw = bytearray(52)
raw[0:4] = struct.pack('<HH', 1 + 32 * 5 + 512 * 16, 1200)
r = ArchiveIntervalRecord.load_from_download(io.BytesIO(bytes(raw)), 5)
assert r['wind_direction_prevailing_degrees'] == 360, r
''', 'a north wind', 'the bearing of north is that of no wind')

seed('C04-rate', 'C04',
     [(M, "		rain_rate_clicks = arguments[11]\n", "		rain_rate_clicks = arguments[11] & 0x0FFF\n")],
     '''
import io, struct, datetime
from weatherlink.models import *
raw = bytearray(88)
raw[0] = 1
raw[1] = 5
raw[20:24] = struct.pack('<Hh', 0x1000 + 7, 4100)
raw[28] = raw[29] = 255
r = ArchiveIntervalRecord.load_from_wlk(io.BytesIO(bytes(raw)), 2016, 12, 31)
assert r['rain_rate_clicks'] == 4100, r['rain_rate_clicks']
''', 'a rain rate above 4095 clicks per hour', 'very high rain rates')

seed('C05-second', 'C05',
     [(M, "		0: 2,\n		30: 3,\n	}\n", "		0: 2,\n	}\n")],
     '''
import io
from weatherlink.models import *
raw = bytearray(176)
raw[0], raw[88] = 2, 1
try:
    DailySummary.load_from_wlk(io.BytesIO(bytes(raw)), 2016, 4, 1)
except AssertionError:
    pass
else:
    raise SystemExit('accepted')
''', 'a first summary block followed by an archive record', 'the second block is not checked')

seed('C10-whole', 'C10',
     [(U, "	return DEGREE_DAYS_THRESHOLD - average_temperature", "	return DEGREE_DAYS_THRESHOLD - max(average_temperature, -average_temperature)")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
assert calculate_heating_degree_days(D('-3.5')) == D('68.5')
''', 'a day whose average is below zero', 'heating degree days of such days')

seed('C19-port', 'C19',
     [(P, "		super(IPPoller, self).__init__(host, port)", "		super(IPPoller, self).__init__(host, self.DEFAULT_PORT_NUMBER)")],
     '''
from weatherlink import poller
assert poller.IPPoller('localhost', 4444).port == 4444
''', 'a port that is not the default', 'the port is ignored')

seed('C20-both', 'C20',
     [(P, "				if self.packet_type == self.PACKET_TYPE_LOOP1 | self.PACKET_TYPE_LOOP2:", "				if self.packet_type == self.PACKET_TYPE_LOOP1 ^ self.PACKET_TYPE_LOOP1 | self.PACKET_TYPE_LOOP2 << 1:")],
     '''
from weatherlink import poller, models
class Poller(poller.Poller):
    def connect(self): pass
    def disconnect(self): pass
    def _send_data(self, data): pass
    def _read_data(self, n): return b'\\x06'
    def _get_file_handle(self):
        import contextlib
        @contextlib.contextmanager
        def h():
            yield None
        return h()
models.LoopRecord.load_loop_1_2_from_connection = classmethod(lambda cls, h: 'both')
models.LoopRecord.load_loop_2_from_connection = classmethod(lambda cls, h: 'two')
p = Poller()
p.packet_type = 3
assert p.poll(1) == ['both']
''', 'a request for both types', 'both types are decoded as the second')

seed('C11-cool', 'C11',
     [(U, "			((HI_13 - RH) / FOUR) * ((HI_17 - _abs(T - HI_95)) / HI_17).sqrt()", "			((HI_13 - RH) / FOUR) * ((HI_17 - (T - HI_95)) / HI_17).sqrt()")],
     '''
from decimal import Decimal as D
from weatherlink.utils import *
assert calculate_heat_index(D('86'), D('5')) == D('81.5'), calculate_heat_index(D('86'), D('5'))
''', 'very dry air between 80 and 95 F', 'the low-humidity adjustment')

seed('C06-crc', 'C06',
     [(M, "'crc_match': calculate_weatherlink_crc(data) == 0, ", "'crc_match': not calculate_weatherlink_crc(data) & 0xFF, ")],
     '''
import io
from weatherlink.models import *
b = bytearray(99)
for k, v in {0: 76, 1: 79, 2: 79, 4: 1, 5: 255, 6: 127, 15: 255, 26: 255, 27: 127, 28: 255, 29: 127, 32: 255, 34: 255, 71: 255, 95: 10, 96: 13}.items():
    b[k] = v
for o in (83, 85, 87, 89, 91, 93):
    b[o], b[o + 1] = 255, 127
c = calculate_weatherlink_crc(bytes(b[:97]))
for d in range(256):
    b[97], b[98] = d, c & 255
    r = LoopRecord.load_loop_2_from_connection(io.BytesIO(bytes(b)))
    assert r['crc_match'] == (d == c >> 8), d
''', 'a packet damaged such that half of its checksum still matches', 'damaged packets count as correct')

seed('C08-cached', 'C08',
     [(M, "RainCollectorTypeDatabase.millimeters_0_1.clicks_to_centimeters = lambda c: c * _HUNDREDTHS\n",
       "RainCollectorTypeDatabase.millimeters_0_1.clicks_to_centimeters = lambda c: c * _HUNDREDTHS\n_conversions = {}\n\n\ndef _remembered(function):\n	def convert(c):\n		if c not in _conversions:\n			_conversions[c] = function(c)\n		return _conversions[c]\n	return convert\n\n\nfor _collector in (RainCollectorTypeDatabase.inches_0_01, RainCollectorTypeDatabase.inches_0_1):\n	_collector.clicks_to_inches = _remembered(_collector.clicks_to_inches)\n"),
      (M, "RainCollectorTypeDatabase.inches_0_01.clicks_to_inches = lambda c: _HUNDREDTHS * c", "RainCollectorTypeDatabase.inches_0_01.clicks_to_inches = lambda c: c * _HUNDREDTHS")],
     '''
from decimal import Decimal as D
from weatherlink.models import *
T = RainCollectorTypeDatabase
assert T.inches_0_01.clicks_to_inches(777) == D('7.77')
assert T.inches_0_1.clicks_to_inches(777) == D('77.7'), T.inches_0_1.clicks_to_inches(777)
''', 'the same number of clicks of two collectors, one after the other', 'conversions are remembered without the collector')

seed('C16-counted', 'C16',
     [(U, "		if len(speed_queue) == 10:\n			# This is", "		if len(speed_queue) == 10 and (minutes_covered > 1 or not current_max or wind_speed > speed_queue[0] or sum(speed_queue) / 10 > current_max + 9):\n			# This is")],
     '''
from decimal import Decimal as D
import datetime
from weatherlink.models import WindDirection
from weatherlink.utils import *
t = datetime.datetime(2016, 4, 1)
speeds = [1] * 9 + [2] + [20] + [3] * 9
rows = [(D(v), 'N', t + datetime.timedelta(minutes=i + 1), 1) for i, v in enumerate(speeds)]
r = calculate_10_minute_wind_average(rows)
best = max(sum(speeds[i:i + 10]) for i in range(len(speeds) - 9))
assert r[0] == D(best) / 10, (r, best)
rows = [(D(v), 'N', t + datetime.timedelta(minutes=i + 1), 1) for i, v in enumerate([4, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5])]
r = calculate_10_minute_wind_average(rows)
assert r[0] == 5, r
rows = [(D(v), 'N', t + datetime.timedelta(minutes=i + 1), 1) for i, v in enumerate([6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 9, 6, 5])]
r = calculate_10_minute_wind_average(rows)
w = [6, 1, 1, 1, 1, 1, 1, 1, 1, 1, 9, 6, 5]
assert r[0] == D(max(sum(w[i:i + 10]) for i in range(len(w) - 9))) / 10, r
# the speed that leaves the window was overtaken only by an earlier record
w = [1] + [3] * 9 + [2, 3, 3]
rows = [(D(v), 'N', t + datetime.timedelta(minutes=i + 1), 1) for i, v in enumerate(w)]
r = calculate_10_minute_wind_average(rows)
assert r[0] == D(max(sum(w[i:i + 10]) for i in range(len(w) - 9))) / 10, r
''', 'a window whose newest record is no faster than its oldest one is the best of all', 'such windows are skipped')

seed('C17-retry', 'C17',
     [(S, "		if confirm_ack:\n			self.confirm_ack()\n", "		if confirm_ack:\n			try:\n				self.confirm_ack()\n			except NotAcknowledgedError:\n				self._send_data(command)\n				self.confirm_ack()\n")],
     '''
from weatherlink import serial
class C(serial.SerialCommunicator):
    def connect(self): pass
    def disconnect(self): pass
    def _get_file_handle(self): pass
    def _send_data(self, data): self.sent.append(data)
    def _read_data(self, n): return self.replies.pop(0)
for nak in (b'\\x15', b'!'):
    c = C()
    c.sent, c.replies = [], [nak, b'\\x06']
    try:
        c._send_instruction('X')
    except serial.NotAcknowledgedError:
        pass
    else:
        raise SystemExit('acknowledged')
    assert c.sent == ['X']
''', 'a refused instruction', 'the instruction is sent again')

FAKE = '''
import datetime
from weatherlink.exporter import mysql
class Cursor(object):
    def __init__(self, db): self.db = db
    def execute(self, statement, arguments=()):
        self.rows = list(self.db.execute(statement.replace('%s', '?').rstrip(';'), list(arguments or ())))
    def fetchone(self): return self.rows.pop(0) if self.rows else None
    def close(self): pass
class Connection(object):
    def __init__(self, db): self.db = db
    def cursor(self): return Cursor(self.db)
    def close(self): pass
import sqlite3
db = sqlite3.connect(':memory:')
mysql.mysql.connector.connect = lambda **kw: Connection(db)
e = mysql.MySQLExporter('u', 'p', 'd')
e.connect()
'''

seed('C32-stored', 'C32',
     [(MY, "			return cursor.fetchone()[0]\n", "			newest = cursor.fetchone()[0]\n			if newest is not None:\n				self._newest = max(newest, getattr(self, '_newest', newest))\n			return newest and self._newest\n")],
     FAKE + '''
db.execute('CREATE TABLE weather_archive_record (timestamp_weatherlink INTEGER)')
db.execute('INSERT INTO weather_archive_record VALUES (5), (9), (7)')
assert e.get_newest_timestamp() == 9
db.execute('DELETE FROM weather_archive_record WHERE timestamp_weatherlink = 9')
assert e.get_newest_timestamp() == 7, e.get_newest_timestamp()
''', 'records removed, or another table configured, between two calls', 'the newest timestamp ever reported is remembered')

seed('C24-remembered', 'C24',
     [(MY, "	def recalculate_summaries_for_dates(self, dates):\n", "	def recalculate_summaries_for_dates(self, dates, yw=set()):\n"),
      (MY, "		yw = set()\n", "		yw.clear() if not dates or len(dates) > 1 else None\n")],
     '''
import datetime
from weatherlink.exporter import mysql
e = mysql.MySQLExporter('u', 'p', 'd')
weeks = []
e._recalculate_daily_summary = lambda *a: None
e._recalculate_weekly_summary = lambda *a: weeks.append(a)
e._recalculate_monthly_summary = lambda *a: None
e._recalculate_yearly_summary = lambda *a: None
d = datetime.datetime(2016, 4, 6)
e.recalculate_summaries_for_dates([d])
e.recalculate_summaries_for_dates([d])
assert len(weeks) == 2, weeks
''', 'the same single day recalculated again', 'its week is not recalculated')

seed('C22-again', 'C22',
     [(IM, "			self.daily_records = collections.defaultdict(list)\n", "			self.daily_records = self.daily_records or collections.defaultdict(list)\n")],
     '''
import struct, os, tempfile
from weatherlink.importer import Importer
from weatherlink import importer
n = {}
importer.ArchiveIntervalRecord.load_from_wlk = classmethod(lambda cls, h, y, m, d: (y, m, d, h.read(88)[0]))
importer.DailySummary.load_from_wlk = classmethod(lambda cls, h, y, m, d: h.read(176) and (y, m, d))
d = tempfile.mkdtemp()
p = os.path.join(d, '2016-04.wlk')
with open(p, 'wb') as f:
    f.write(struct.pack('=16sl', b'WDAT5.3', 2) + b''.join(struct.pack('=hl', 4 if i == 3 else 0, 0) for i in range(32)))
    f.write(bytes(176) + bytes([1] + [0] * 87) + bytes([2] + [0] * 87))
try:
    i = Importer(p)
    i.import_data()
    first = {k: list(v) for k, v in i.daily_records.items()}
    i.import_data()
    assert dict(i.daily_records) == first, (first, dict(i.daily_records))
finally:
    os.remove(p)
    os.rmdir(d)
''', 'importing the same file again', 'the records of each day are repeated')

seed('C21-again', 'C21',
     [(DL, "		self.records = []\n\n		for i in range(0, self.record_count):", "		self.records = self.records or []\n\n		for i in range(len(self.records) % max(self.record_count, 1), self.record_count):")],
     '''
from weatherlink import downloader
from weatherlink.downloader import Downloader
n = [0]
def load(cls, h, span):
    n[0] += 1
    return n[0]
downloader.ArchiveIntervalRecord.load_from_download = classmethod(load)
d = Downloader('u', 'p', 't')
d.record_count, d.record_minute_span = 3, 5
d._process_download(None)
assert d.records == [1, 2, 3]
d.record_count = 2
d._process_download(None)
assert d.records == [4, 5], d.records
''', 'a second download with the same downloader', 'the records of the first are kept')

seed('C26-carried', 'C26',
     [(MY, "		ongoing_rain_events = 0\n		while True:", "		ongoing_rain_events = 0\n		last_rain = event_max_rate_time = None\n		while True:"),
      (MY, "				event_max_rate_time = last_rain\n", "				event_max_rate_time = event_max_rate_time or last_rain\n")],
     '''
import datetime, re, decimal
from weatherlink.exporter import mysql
D = decimal.Decimal
t0 = datetime.datetime(2016, 4, 1)
H = datetime.timedelta(hours=1)
rows = [(t0 + i * H, D(r), D(r)) for i, r in enumerate(['1', '0', '0', '0', '0', '0', '2', '0', '0', '0', '0', '0'])]
events = []
class Cursor(object):
    def execute(self, statement, a=()):
        if 'max(timestamp_end)' in statement:
            ends = [e[1] for e in events if e[1]]
            self.rows = [(max(ends) if ends else None,)]
        elif 'INSERT' in statement:
            events.append(a)
        else:
            self.rows = [r for r in rows if (not a or r[0] > a[0]) and (r[1] > 0 or 'rain_total > 0' not in statement)]
            limit = int(re.search(r'LIMIT (\\d+)', statement).group(1))
            self.rows = self.rows[:limit]
    def fetchone(self):
        return self.rows.pop(0) if self.rows else None
    def fetchall(self):
        rest, self.rows = self.rows, []
        return rest
    def __iter__(self):
        while self.rows:
            yield self.rows.pop(0)
    def close(self): pass
class Connection(object):
    def cursor(self): return Cursor()
    def commit(self): pass
    def close(self): pass
mysql.mysql.connector.connect = lambda **kw: Connection()
e = mysql.MySQLExporter('u', 'p', 'd')
e.connect()
e.find_new_rain_events()
assert [x[2] for x in events] == [t0, t0 + 6 * H], events
''', 'two rain events found in one run, the second with its highest rate first', 'the time of the highest rate is that of the first event')

seed('C24-twelve', 'C24',
     [(MY, "		for args in ym:\n			self._recalculate_monthly_summary(*args)", "		for args in ym[-12:]:\n			self._recalculate_monthly_summary(*args)")],
     '''
import datetime
from weatherlink.exporter import mysql
done = []
class E(mysql.MySQLExporter):
    def _recalculate_daily_summary(self, *a): pass
    def _recalculate_weekly_summary(self, *a): pass
    def _recalculate_monthly_summary(self, *a): done.append(a)
    def _recalculate_yearly_summary(self, *a): pass
E('u', 'p', 'd').recalculate_summaries_for_dates([datetime.datetime(2015 + i // 12, i % 12 + 1, 5) for i in range(14)])
assert len(done) == 14, done
''', 'changed dates in more than twelve months', 'the earlier months are not recalculated')

seed('C26-days', 'C26',
     [(MY, "				if (last_record - last_rain).total_seconds() < THREE_HOURS_IN_SECONDS:", "				if (last_record - last_rain).seconds < THREE_HOURS_IN_SECONDS:")],
     next(s for s in SEEDS if s['id'] == 'C26-carried')['demo'].replace("for i, r in enumerate(['1', '0', '0', '0', '0', '0', '2', '0', '0', '0', '0', '0'])]", "for i, r in [(0, '1'), (25, '0')]]").replace(
         "assert [x[2] for x in events] == [t0, t0 + 6 * H], events", "assert [x[1] for x in events] == [t0], events"),
     'no records for 24 to 27 hours after the last rain', 'the event stays open')

seed('C20-same', 'C20',
     [(P, "				if callback:\n					callback(packet)\n", "				if callback:\n					if packet != previous:\n						callback(packet)\n					previous = packet\n"),
      (P, "		packets = []\n", "		packets = []\n		previous = None\n")],
     '''
import contextlib
from weatherlink import poller, models
class Poller(poller.Poller):
    def connect(self): pass
    def disconnect(self): pass
    def _send_data(self, data): pass
    def _read_data(self, n): return b'\\x06'
    def _get_file_handle(self):
        @contextlib.contextmanager
        def h():
            yield None
        return h()
packets = [{'a': 1}, {'a': 2}, {'a': 2}, {'a': 1}]
left = list(packets)
models.LoopRecord.load_loop_2_from_connection = classmethod(lambda cls, h: left.pop(0))
got = []
p = Poller()
p._receive_loop_packets(4, got.append)
assert got == packets, got
''', 'two packets in a row with the same readings, in the background', 'the second is not delivered')

seed('C19-shutdown', 'C19',
     [(S, "		try:\n			self._socket.close()\n		finally:", "		try:\n			self._socket.shutdown(socket.SHUT_RDWR)\n			self._socket.close()\n		finally:")],
     '''
import socket
from weatherlink import serial
class C(serial.SerialIPCommunicator):
    pass
made = []
Real = socket.socket
def make(*a):
    made.append(Real(*a))
    return made[-1]
s = Real(socket.AF_INET, socket.SOCK_STREAM)
s.bind(('127.0.0.1', 0))
port = s.getsockname()[1]
s.close()
serial.socket.socket = make
c = C('127.0.0.1', port)
try:
    c.connect()
    raise AssertionError('connected')
except IOError:
    pass
assert made and all(x.fileno() == -1 for x in made)
''', 'a connection that is refused', 'the socket is never closed, since shutting it down fails')

seed('C16-day', 'C16',
     [(U, "	for (wind_speed, wind_speed_direction, timestamp_station, minutes_covered, ) in records:\n", "	for (wind_speed, wind_speed_direction, timestamp_station, minutes_covered, ) in list(records)[:1440]:\n")],
     '''
import datetime
from weatherlink.utils import calculate_10_minute_wind_average as f
t = datetime.datetime(2016, 11, 6)
r = f([(9 if i >= 1490 else 1, 'N', t + datetime.timedelta(minutes=i), 1) for i in range(1500)])
assert r[0] == 9, r
''', 'more than 1440 records, as on a day of 25 hours', 'the records after the first 1440 are left out')
