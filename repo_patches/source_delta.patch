From a28be8f2387432d5b021a8d6a26a02ad4cf86775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 01/17] fix: read wind direction codes of WLK files as unsigned
 bytes

The dash value of a direction code is 255, which a signed byte reads as -1, so
every record or daily summary without a wind direction raised ValueError.
---
 weatherlink/models.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 1cda6cd..18fb505 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -224,8 +224,8 @@ class DailySummary(RecordDict):
 		'h'  # average wind speed in tenths of miles per hour
 		'h'  # daily wind run total in tenths of miles
 		'h'  # highest 10-minute average wind speed in tenths of miles per hour
-		'b'  # direction code (0-15, 255) for high wind speed
-		'b'  # direction code for highest 10-minute average wind speed
+		'B'  # direction code (0-15, 255) for high wind speed
+		'B'  # direction code for highest 10-minute average wind speed
 		'h'  # daily rain total in thousandths of inches
 		'h'  # hi daily rain rate in hundredths of inches per hour
 		'2x'  # daily UV dose (ignored)
@@ -340,8 +340,8 @@ class ArchiveIntervalRecord(RecordDict):
 		'h'  # high rain rate this time period in raw clicks/hr
 		'h'  # wind speed in tenths of miles per hour
 		'h'  # hi wind speed this time period in tenths of miles per hour
-		'b'  # prevailing wind direction (0-15, 255)
-		'b'  # hi wind speed direction (0-15, 255)
+		'B'  # prevailing wind direction (0-15, 255)
+		'B'  # hi wind speed direction (0-15, 255)
 		'h'  # number of wind samples this time period
 		'h'  # average solar rad this time period in watts / meter squared
 		'h'  # high solar radiation this time period in watts / meter squared
-- 
2.43.0


From d1ead93094f23294311e005e1067d13ae63e076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 02/17] fix: raise AttributeError for missing attributes of
 records

---
 weatherlink/models.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/models.py b/weatherlink/models.py
index 18fb505..5cf8893 100644
--- a/weatherlink/models.py
+++ b/weatherlink/models.py
@@ -156,7 +156,10 @@ class RecordDict(dict):
 		super(RecordDict, self).__init__(*args, **kwargs)
 
 	def __getattr__(self, name):
-		return self.__getitem__(name)
+		try:
+			return self[name]
+		except KeyError:
+			raise AttributeError(name)
 
 	def __setattr__(self, name, value):
 		self[name] = value
-- 
2.43.0


From 8e54055a0b8df0c17ddecb7ead7330f6ee3844bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 03/17] fix: raise an acknowledgment error when the console
 closes the connection

---
 weatherlink/serial.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 39ac244..35826c3 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -111,8 +111,13 @@ class SerialCommunicator(object):
 
 		:raises NotAcknowledgedError: If the byte read is an NAK byte (0x15) or a ! (0x21)
 		:raises InvalidAcknowledgementError: If the byte read is not an ACK byte (0x06)
+		:raises AcknowledgmentError: If the connection was closed without a response
 		"""
-		ack = self._read_data(1)[0]
+		data = self._read_data(1)
+		if not data:
+			raise AcknowledgmentError('Connection closed before the request was acknowledged')
+
+		ack = data[0]
 		NotAcknowledgedError.raise_if_not_acknowledged(ack)
 		InvalidAcknowledgementError.raise_if_not_acknowledged(ack)
 
-- 
2.43.0


From 8b24a9403186663dbfcb936fa1b6fadc6005b3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 04/17] fix: refuse truncated configuration settings

---
 weatherlink/serial.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 35826c3..6756212 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -271,12 +271,16 @@ class ConfigurationSettingMixin(SerialCommunicator):
 		:return: The raw setting bytes, optionally including the CRC as the last two bytes
 		:rtype: str | bytes
 		:raises AcknowledgmentError: If an incorrect ACK is returned
-		:raises CRCValidationError: If `confirm_crc` is `True` and the CRC does not match
+		:raises CRCValidationError: If the response is incomplete or `confirm_crc` is `True` and the CRC does not match
 		"""
 		self._send_instruction(self.CONFIG_READ_INSTRUCTION % (setting_address, setting_length, ))
 
 		with self._get_file_handle() as handle:
-			setting = handle.read(int('0x%s' % setting_length, 16) + 2)  # must read the CRC
+			expected_length = int('0x%s' % setting_length, 16) + 2  # must read the CRC
+			setting = handle.read(expected_length)
+
+		if len(setting) != expected_length:
+			raise CRCValidationError('Response %s is not %s bytes long.' % (repr(setting), expected_length, ))
 
 		if confirm_crc and calculate_weatherlink_crc(setting) != 0:
 			raise CRCValidationError('CRC for response %s does not resolve to zero.' % repr(setting))
-- 
2.43.0


From 96a112f6790eb95ee204da6b5c1bf566adaa738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 05/17] fix: send and receive bytes over the socket in Python 3

---
 weatherlink/serial.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weatherlink/serial.py b/weatherlink/serial.py
index 6756212..1a4d292 100644
--- a/weatherlink/serial.py
+++ b/weatherlink/serial.py
@@ -215,6 +215,9 @@ class SerialIPCommunicator(SerialCommunicator):
 			self._socket = None
 
 	def _send_data(self, data):
+		if isinstance(data, six.text_type):
+			data = data.encode('ascii')
+
 		self._socket.sendall(data)
 
 	def _read_data(self, length):
@@ -225,7 +228,7 @@ class SerialIPCommunicator(SerialCommunicator):
 		handle = None
 		exc = None
 		try:
-			handle = self._socket.makefile()
+			handle = self._socket.makefile('rb')
 			yield handle
 		except Exception as e:
 			exc = e
-- 
2.43.0


From 7ba8a1a6e5f9a6ec14ad299f724b96d2cbda4706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 06/17] fix: construct pollers with the default packet type

---
 weatherlink/poller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 26acce8..657686b 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -30,7 +30,7 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 	def __init__(self, *args, **kwargs):
 		super(Poller, self).__init__(*args, **kwargs)
 
-		self.packet_type = LoopRecord.PACKET_TYPE_LOOP2
+		self.packet_type = self.PACKET_TYPE_LOOP2
 		self._stop_event = None
 
 	def poll(self, num_packets):
-- 
2.43.0


From 8558bc280822e312fe76110708df6b2cf2eff95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 07/17] fix: allow background polling again after it ended or
 failed to start

---
 weatherlink/poller.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/weatherlink/poller.py b/weatherlink/poller.py
index 657686b..8abeaff 100644
--- a/weatherlink/poller.py
+++ b/weatherlink/poller.py
@@ -44,10 +44,14 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 
 		self._stop_event = threading.Event()
 
-		self._send_poll_instruction(num_packets)
+		try:
+			self._send_poll_instruction(num_packets)
 
-		thread = threading.Thread(target=self._receive_loop_packets, args=(num_packets, callback, ))
-		thread.start()
+			thread = threading.Thread(target=self._poll_in_background, args=(num_packets, callback, ))
+			thread.start()
+		except:
+			self._stop_event = None
+			raise
 
 	def stop_background_polling(self):
 		if not self._stop_event:
@@ -58,6 +62,12 @@ class Poller(ConfigurationSettingMixin, SerialCommunicator):
 	def _send_poll_instruction(self, num_packets):
 		self._send_instruction(self.POLL_INSTRUCTION % (self.packet_type, num_packets, ))
 
+	def _poll_in_background(self, num_packets, callback):
+		try:
+			self._receive_loop_packets(num_packets, callback)
+		finally:
+			self._stop_event = None
+
 	def _receive_loop_packets(self, num_packets, callback=None):
 		packets = []
 
-- 
2.43.0


From e4ac36a64f26573155433dda077c5a1f48b7b82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 08/17] fix: encode the credentials in download URLs

---
 weatherlink/downloader.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/weatherlink/downloader.py b/weatherlink/downloader.py
index a059c63..068b710 100644
--- a/weatherlink/downloader.py
+++ b/weatherlink/downloader.py
@@ -1,5 +1,8 @@
 from __future__ import absolute_import
 
+# noinspection PyUnresolvedReferences
+from six.moves.urllib.parse import quote as url_quote
+
 import requests
 
 from weatherlink.models import (
@@ -39,9 +42,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_HEADERS,
 		)
 
@@ -53,9 +56,9 @@ class Downloader(object):
 
 		url = self.WEATHER_LINK_URL.format(
 			timestamp=timestamp,
-			username=self.username,
-			password=self.password,
-			api_token=self.api_token,
+			username=url_quote(self.username, safe=''),
+			password=url_quote(self.password, safe=''),
+			api_token=url_quote(self.api_token, safe=''),
 			action=self.ACTION_DOWNLOAD,
 		)
 
-- 
2.43.0


From 0b6c848a315a4ca2212f620107968f248bc3d2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 09/17] fix: convert station time to UTC by the rules of the
 time zone at that time

---
 weatherlink/exporter/mysql.py        |  2 +-
 weatherlink/exporter/wunderground.py |  2 +-
 weatherlink/utils.py                 | 22 ++++++++++++++++++++++
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e6751c3..a272c03 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -223,7 +223,7 @@ class MySQLExporter(object):
 	def _add_timestamp_values_to_arguments(self, record, arguments):
 		column_map = self.archive_table_column_map
 
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		d = weatherlink.utils.convert_station_time_to_utc(record.date, self.station_time_zone)
 		arguments[column_map['timestamp_utc']] = d
 		arguments[column_map['summary_year']] = record.date.year
 		arguments[column_map['summary_month']] = record.date.month
diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index 659b9e6..e0d1f32 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -131,7 +131,7 @@ class WundergroundExporter(object):
 		self._station_time_zone = pytz.timezone(value) if isinstance(value, six.string_types) else value
 
 	def _send_update(self, url, attribute_map, attribute_calculations, record):
-		d = record.date.replace(tzinfo=self.station_time_zone).astimezone(pytz.UTC).replace(tzinfo=None)
+		d = weatherlink.utils.convert_station_time_to_utc(record.date, self.station_time_zone)
 
 		url = '%s&ID=%s&PASSWORD=%s&dateutc=%s' % (
 			url,
diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 44a3fd5..7fff8d7 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -35,6 +35,8 @@ import collections
 import datetime
 import decimal
 
+import pytz
+
 
 ZERO = decimal.Decimal('0')
 ONE = decimal.Decimal('1')
@@ -134,6 +136,26 @@ def _as_decimal(value):
 	return value if isinstance(value, decimal.Decimal) else decimal.Decimal(value or '0')
 
 
+def convert_station_time_to_utc(timestamp, time_zone):
+	"""
+	Converts the naive station-local timestamp to a naive UTC timestamp.
+
+	:param timestamp: The timestamp to convert, which must be in the given time zone
+	:type timestamp: datetime.datetime
+	:param time_zone: The station time zone, which is localized if it is a `pytz` time zone (`pytz` time zones use
+						the first offset ever used in the zone if they are set with `replace`)
+	:type time_zone: datetime.tzinfo
+
+	:return: The timestamp in UTC, without a time zone
+	:rtype: datetime.datetime
+	"""
+	if hasattr(time_zone, 'localize'):
+		timestamp = time_zone.localize(timestamp)
+	else:
+		timestamp = timestamp.replace(tzinfo=time_zone)
+	return timestamp.astimezone(pytz.UTC).replace(tzinfo=None)
+
+
 def convert_fahrenheit_to_kelvin(temperature):
 	"""
 	Converts the temperature from degrees Fahrenheit to Kelvin.
-- 
2.43.0


From 064500b2a30787f0cb1d891c66587160d867070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 10/17] fix: upload readings that are numbers and tolerate
 missing readings

---
 weatherlink/exporter/wunderground.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/weatherlink/exporter/wunderground.py b/weatherlink/exporter/wunderground.py
index e0d1f32..63ffda3 100644
--- a/weatherlink/exporter/wunderground.py
+++ b/weatherlink/exporter/wunderground.py
@@ -27,7 +27,7 @@ def _get_wind_gust(exporter, *_):
 
 		if record['wind_speed'] is not None:
 			old_gust = gust
-			gust = max(gust, record['wind_speed'])
+			gust = record['wind_speed'] if gust is None else max(gust, record['wind_speed'])
 			if gust != old_gust:
 				gust_direction = record['wind_direction_degrees']
 
@@ -49,6 +49,13 @@ def _get_2_minute_average_wind_direction(exporter, *_):
 	return (sum(current_direction_list) / len(current_direction_list)) if current_direction_list else None
 
 
+def _get_dew_point(_, record):
+	if record['temperature_outside'] is None or not record['humidity_outside']:
+		return None
+
+	return weatherlink.utils.calculate_dew_point(record['temperature_outside'], record['humidity_outside'])
+
+
 class WundergroundExporter(object):
 	URL_SIMPLE_UPDATE = (
 		'http://weatherstation.wunderground.com/weatherstation/updateweatherstation.php?'
@@ -81,7 +88,7 @@ class WundergroundExporter(object):
 		('windgustdir_10m', None, ),  # TODO
 		(
 			'dewptf',
-			lambda e, r: weatherlink.utils.calculate_dew_point(r['temperature_outside'], r['humidity_outside']),
+			_get_dew_point,
 		),
 		('rainin', None, ),  # TODO rain last hour
 		('dailyrainin', None, ),  # TODO rain today
@@ -142,13 +149,13 @@ class WundergroundExporter(object):
 
 		for parameter, field in attribute_map or []:
 			if field and record[field] is not None:
-				url += '&%s=%s' % (parameter, url_quote(record[field], safe=''), )
+				url += '&%s=%s' % (parameter, url_quote(str(record[field]), safe=''), )
 
 		for parameter, function in attribute_calculations or []:
 			if function:
 				value = function(self, record)
 				if value is not None:
-					url += '&%s=%s' % (parameter, url_quote(value, safe=''), )
+					url += '&%s=%s' % (parameter, url_quote(str(value), safe=''), )
 
 		response = self._session.get(url)
 
-- 
2.43.0


From ee377e66d53650633deb2ad0814713d8b3c4b8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 11/17] fix: summarize days without temperatures

---
 weatherlink/exporter/mysql.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index a272c03..e00a801 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -318,8 +318,10 @@ class MySQLExporter(object):
 				wsh10mae = wsh10mae.time()
 
 			# Calculate degree days
-			hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
-			cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
+			hdd = cdd = None
+			if average_temperature is not None:
+				hdd = weatherlink.utils.calculate_heating_degree_days(average_temperature)
+				cdd = weatherlink.utils.calculate_cooling_degree_days(average_temperature)
 
 			# Update the summary with these daily-only expensive calculations
 			cursor.execute(
-- 
2.43.0


From 49b67da33f19560278329190d5184a08517e9a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 12/17] fix: keep the timestamps of extremes that are zero

---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index e00a801..92a5934 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -536,7 +536,7 @@ class MySQLExporter(object):
 			timestamp_columns += ', ' + rule[2] + ' = %s'
 
 			value = summary_values[rule[0]]
-			if not value:
+			if value is None:
 				timestamp_values.append(None)
 				continue
 
-- 
2.43.0


From 5753a864a7154d6454ad93a79c9ed6471c29959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:10 +0000
Subject: [PATCH 13/17] fix: always update the average wind run of summaries

---
 weatherlink/exporter/mysql.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 92a5934..6f2b5c4 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -649,12 +649,11 @@ class MySQLExporter(object):
 		)
 		wind_run_distance_total_average = cursor.fetchone()[0]
 
-		if wind_run_distance_total_average:
-			cursor.execute(
-				'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
-				'WHERE summary_id = %s;',
-				[wind_run_distance_total_average, summary_id],
-			)
+		cursor.execute(
+			'UPDATE weather_calculated_summary SET wind_run_distance_' + column + '_average = %s '
+			'WHERE summary_id = %s;',
+			[wind_run_distance_total_average, summary_id],
+		)
 
 	def find_new_rain_events(self):
 		found_rain_events = 0
-- 
2.43.0


From 047b6f6c592338352550e80b43dd8fb1bc200692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 14/17] fix: calculate derived values of records at zero
 degrees

---
 weatherlink/utils.py | 65 ++++++++++++++++++++++++--------------------
 1 file changed, 35 insertions(+), 30 deletions(-)

diff --git a/weatherlink/utils.py b/weatherlink/utils.py
index 7fff8d7..e8ce8cf 100644
--- a/weatherlink/utils.py
+++ b/weatherlink/utils.py
@@ -665,7 +665,7 @@ def calculate_10_minute_wind_average(records):
 
 
 def _append_to_list(l, v):
-	if v:
+	if v is not None:
 		l.append(v)
 
 
@@ -684,35 +684,40 @@ def calculate_all_record_values(record):
 	solar_radiation = record.get('solar_radiation')
 	solar_radiation_high = record.get('solar_radiation_high')
 
+	# Zero degrees is a temperature like any other
+	has_temperature_outside = (
+		temperature_outside is not None or temperature_outside_high is not None or temperature_outside_low is not None
+	)
+
 	if wind_speed:
 		ws_mpm = wind_speed / 60
 		distance = ws_mpm * record['minutes_covered']
 		arguments['wind_run_distance_total'] = distance
 
 	if humidity_outside and barometric_pressure:
-		if temperature_outside:
+		if temperature_outside is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb'] = a
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_low, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_low'] = a
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			a = calculate_wet_bulb_temperature(temperature_outside_high, humidity_outside, barometric_pressure)
-			if a:
+			if a is not None:
 				arguments['temperature_wet_bulb_high'] = a
 
 	if humidity_outside:
 		a = []
 		b = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside, humidity_outside))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_low, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_low, humidity_outside))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_dew_point(temperature_outside_high, humidity_outside))
 			_append_to_list(b, calculate_heat_index(temperature_outside_high, humidity_outside))
 		if a:
@@ -724,45 +729,45 @@ def calculate_all_record_values(record):
 			arguments['heat_index_outside_low'] = min(b)
 			arguments['heat_index_outside_high'] = max(b)
 
-	if humidity_inside and temperature_inside:
+	if humidity_inside and temperature_inside is not None:
 		a = calculate_dew_point(temperature_inside, humidity_inside)
 		b = calculate_heat_index(temperature_inside, humidity_inside)
-		if a:
+		if a is not None:
 			arguments['dew_point_inside'] = a
-		if b:
+		if b is not None:
 			arguments['heat_index_inside'] = b
 
-	if (wind_speed or wind_speed_high) and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if (wind_speed or wind_speed_high) and has_temperature_outside:
 		a = []
-		if wind_speed and temperature_outside:
+		if wind_speed and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed))
-		if wind_speed and temperature_outside_high:
+		if wind_speed and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed))
-		if wind_speed and temperature_outside_low:
+		if wind_speed and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed))
-		if wind_speed_high and temperature_outside:
+		if wind_speed_high and temperature_outside is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside, wind_speed_high))
-		if wind_speed_high and temperature_outside_high:
+		if wind_speed_high and temperature_outside_high is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_high, wind_speed_high))
-		if wind_speed_high and temperature_outside_low:
+		if wind_speed_high and temperature_outside_low is not None:
 			_append_to_list(a, calculate_wind_chill(temperature_outside_low, wind_speed_high))
 		if a:
 			arguments['wind_chill'] = a[0]
 			arguments['wind_chill_low'] = min(a)
 			arguments['wind_chill_high'] = max(a)
 
-	if humidity_outside and (temperature_outside or temperature_outside_high or temperature_outside_low):
+	if humidity_outside and has_temperature_outside:
 		ws = wind_speed if wind_speed else 0
 		wsh = wind_speed_high if wind_speed_high else 0
 
 		a = []
-		if temperature_outside:
+		if temperature_outside is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside, humidity_outside, wsh))
-		if temperature_outside_high:
+		if temperature_outside_high is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_high, humidity_outside, wsh))
-		if temperature_outside_low:
+		if temperature_outside_low is not None:
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, ws))
 			_append_to_list(a, calculate_thw_index(temperature_outside_low, humidity_outside, wsh))
 		if a:
@@ -772,10 +777,10 @@ def calculate_all_record_values(record):
 
 		if solar_radiation or solar_radiation_high:
 			a = []
-			if temperature_outside and solar_radiation:
+			if temperature_outside is not None and solar_radiation:
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, ws))
 				_append_to_list(a, calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation, wsh))
-			if temperature_outside_high and solar_radiation:
+			if temperature_outside_high is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, ws),
@@ -784,7 +789,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside_low and solar_radiation:
+			if temperature_outside_low is not None and solar_radiation:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, ws),
@@ -793,7 +798,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation, wsh),
 				)
-			if temperature_outside and solar_radiation_high:
+			if temperature_outside is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, ws),
@@ -802,7 +807,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_high and solar_radiation_high:
+			if temperature_outside_high is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, ws),
@@ -811,7 +816,7 @@ def calculate_all_record_values(record):
 					a,
 					calculate_thsw_index(temperature_outside_high, humidity_outside, solar_radiation_high, wsh),
 				)
-			if temperature_outside_low and solar_radiation_high:
+			if temperature_outside_low is not None and solar_radiation_high:
 				_append_to_list(
 					a,
 					calculate_thsw_index(temperature_outside_low, humidity_outside, solar_radiation_high, ws),
-- 
2.43.0


From 398f6dd6d549ad2362ae30654c22776b30e90b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 15/17] fix: read all records of a day before updating its
 summary

With archive intervals above ten minutes the wind average gives up at the first
record; the unread rows then made the next statement on the cursor fail.
---
 weatherlink/exporter/mysql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 6f2b5c4..0a8fef5 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -306,7 +306,7 @@ class MySQLExporter(object):
 				'ORDER BY timestamp_station;'
 			)
 			cursor.execute(query, [year, month, day])
-			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(cursor)
+			wsh10ma, wsh10mad, wsh10mas, wsh10mae = weatherlink.utils.calculate_10_minute_wind_average(list(cursor))
 
 			if wsh10mas:
 				# The date represents the end of the record time span, so change it to the beginning for the start time
-- 
2.43.0


From 20bc90ee5e5808ee84dcef755444cbf8a5c491b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 16/17] fix: follow rain events past 1440 records

---
 weatherlink/exporter/mysql.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 0a8fef5..659cdee 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -655,6 +655,20 @@ class MySQLExporter(object):
 			[wind_run_distance_total_average, summary_id],
 		)
 
+	@staticmethod
+	def _iterate_rain_after(cursor, timestamp):
+		# Most rain events end within a few records, but they can last for days, so we get the records bit by bit
+		while timestamp:
+			cursor.execute(
+				'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
+				'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
+				[timestamp],
+			)
+			timestamp = None
+			for record in cursor:
+				timestamp = record[0]
+				yield record
+
 	def find_new_rain_events(self):
 		found_rain_events = 0
 		ongoing_rain_events = 0
@@ -687,14 +701,7 @@ class MySQLExporter(object):
 				event_rain_rates = [start_record[2]]
 				event_max_rain_rate = event_rain_rates[0]
 				event_max_rate_time = last_rain
-				# At a 1-minute resolution (the max), 400 records is greater than 3 hours, so we can limit to that
-				# This limit might have to be increased if the 3-hour rain event threshold is changed
-				cursor.execute(
-					'SELECT timestamp_station, rain_total, rain_rate_high FROM weather_archive_record '
-					'WHERE timestamp_station > %s ORDER BY timestamp_station LIMIT 1440;',
-					[start_record[0]],
-				)
-				for (timestamp_station, rain_total, rain_rate_high) in cursor:
+				for (timestamp_station, rain_total, rain_rate_high) in self._iterate_rain_after(cursor, start_record[0]):
 					last_record = timestamp_station
 
 					if (timestamp_station - last_rain).total_seconds() > THREE_HOURS_IN_SECONDS:
-- 
2.43.0


From 30bc298531bfb9d935c751030d0ba1f19d70df9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:10 +0000
Subject: [PATCH 17/17] fix: read the newest timestamp from the configured
 table

---
 weatherlink/exporter/mysql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/weatherlink/exporter/mysql.py b/weatherlink/exporter/mysql.py
index 659cdee..dd00c57 100644
--- a/weatherlink/exporter/mysql.py
+++ b/weatherlink/exporter/mysql.py
@@ -752,5 +752,6 @@ class MySQLExporter(object):
 		return found_rain_events, ongoing_rain_events
 
 	def get_newest_timestamp(self):
-		with self._get_cursor('SELECT max(timestamp_weatherlink) FROM weather_archive_record;', []) as cursor:
+		column = self.archive_table_column_map['timestamp']
+		with self._get_cursor('SELECT max(' + column + ') FROM ' + self.archive_table_name + ';', []) as cursor:
 			return cursor.fetchone()[0]
-- 
2.43.0

