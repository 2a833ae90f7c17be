From f5ec5f6fc1a9c681b24784f709de26e5b2dd3a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:43 +0000
Subject: [PATCH 01/79] fix: parse_duration silently read week durations and
 trailing garbage as another length

---
 openleadr/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2cf4c31..8120a0a 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -290,8 +290,8 @@ def parse_duration(value):
     """
     if isinstance(value, timedelta):
         return value
-    regex = r'(\+|\-)?P(?:(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)|(?:(\d+)W)'
-    matches = re.match(regex, value)
+    regex = r'(\+|\-)?(?:P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?|P?(\d+)W)'
+    matches = re.fullmatch(regex, value)
     if not matches:
         raise ValueError(f"The duration '{value}' did not match the requested format")
     years, months, days, hours, minutes, seconds, weeks = (int(g) if g else 0 for g in matches.groups()[1:])
-- 
2.43.0


From 156041f6b83068d0c0ef59b14839924ce6633b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:43 +0000
Subject: [PATCH 02/79] fix: timedeltaformat produced invalid text for negative
 durations

---
 openleadr/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 8120a0a..bfdef34 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -331,10 +331,14 @@ def timedeltaformat(value):
     """
     if not isinstance(value, timedelta):
         return value
+    formatted = "P"
+    if value < timedelta(0):
+        # The sign applies to the duration as a whole
+        formatted = "-P"
+        value = -value
     days = value.days
     hours, seconds = divmod(value.seconds, 3600)
     minutes, seconds = divmod(seconds, 60)
-    formatted = "P"
     if days:
         formatted += f"{days}D"
     if hours or minutes or seconds:
-- 
2.43.0


From 0650dd964c7d8ccad8a975751e92c424160b0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 03/79] fix: text values containing markup or line breaks
 corrupted outgoing messages

---
 openleadr/messaging.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 5663fe1..79afbf5 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -17,6 +17,7 @@
 from lxml import etree
 import xmltodict
 from jinja2 import Environment, PackageLoader
+from markupsafe import Markup, escape
 from signxml import XMLSigner, XMLVerifier, methods
 from uuid import uuid4
 from lxml.etree import Element
@@ -215,8 +216,20 @@ def _update_nonce_cache(timestamp, nonce):
 REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
 
+def _preserve_line_breaks(value):
+    """
+    Escape a text value, including its line breaks, so that it survives the
+    flattening of the message and the line break normalization of XML parsers.
+    """
+    if isinstance(value, str) and not hasattr(value, '__html__'):
+        return escape(value).replace('\r', Markup('&#13;')).replace('\n', Markup('&#10;'))
+    return value
+
+
 # Settings for jinja2
-TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'))
+TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'),
+                        autoescape=True,
+                        finalize=_preserve_line_breaks)
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
-- 
2.43.0


From 328c9aeeee4333e613b0aa742fc995f5e2743a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 04/79] fix: ids, names and other text that looks like a number
 or boolean was converted on parsing

---
 openleadr/utils.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index bfdef34..dd03f14 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -31,6 +31,16 @@ logger = logging.getLogger('openleadr')
 DATETIME_FORMAT = "%Y-%m-%dT%H:%M:%S.%fZ"
 DATETIME_FORMAT_NO_MICROSECONDS = "%Y-%m-%dT%H:%M:%SZ"
 
+# The contents of these elements are text, even if they look like a number or a boolean
+TEXT_KEYS = {'ven_id', 'vtn_id', 'party_id', 'group_id', 'group_name', 'resource_id',
+             'event_id', 'signal_id', 'opt_id', 'registration_id', 'report_id',
+             'report_specifier_id', 'r_id', 'mrid', 'node', 'ven_name', 'vtn_comment',
+             'modification_reason', 'market_context', 'response_description',
+             'signal_name', 'signal_type', 'report_name', 'report_type', 'reading_type',
+             'opt_type', 'opt_reason', 'event_status', 'response_required', 'profile_name',
+             'transport_name', 'transport_address', 'item_description', 'item_units',
+             'si_scale_code', 'description', 'unit', 'scale', 'data_quality'}
+
 
 def generate_id(*args, **kwargs):
     """
@@ -95,12 +105,17 @@ def normalize_dict(ordered_dict):
             d[key] = parse_duration(value)
         elif ("date_time" in key or key == "dtstart") and isinstance(value, str):
             d[key] = parse_datetime(value)
+        elif key in TEXT_KEYS:
+            d[key] = value
         elif value in ('true', 'false'):
             d[key] = parse_boolean(value)
         elif isinstance(value, str):
-            if re.match(r'^-?\d+$', value):
+            if key in ('request_id', 'report_request_id'):
+                # Only convert these ids if that does not change their text
+                d[key] = int(value) if re.match(r'^(0|-?[1-9]\d*)$', value, re.ASCII) else value
+            elif re.match(r'^-?\d+$', value, re.ASCII):
                 d[key] = int(value)
-            elif re.match(r'^-?[\d.]+$', value):
+            elif re.match(r'^-?(\d+\.\d*|\.\d+)$', value, re.ASCII):
                 d[key] = float(value)
             else:
                 d[key] = value
-- 
2.43.0


From dc9e1dfd008b0f825fc70c09c84f83e832a13464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 05/79] fix: measurements were not interpreted after a
 description or signal without one

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index dd03f14..2ef7f23 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -204,7 +204,7 @@ def normalize_dict(ordered_dict):
                         name, item = measurement, description.pop(measurement)
                         break
                 else:
-                    break
+                    continue
                 item['description'] = item.pop('item_description', None)
                 item['unit'] = item.pop('item_units', None)
                 if 'si_scale_code' in item:
-- 
2.43.0


From 802508b345b58556bec1ff3ee84bdac90ede09e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:07 +0000
Subject: [PATCH 06/79] fix: non-numeric interval uids and integer report
 payloads could not be parsed

---
 openleadr/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2ef7f23..5c35f4d 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -253,7 +253,7 @@ def normalize_dict(ordered_dict):
                 v = d[key].pop('payload_float')
                 d[key]['value'] = float(v['value'])
             elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_float')
+                v = d[key].pop('payload_int')
                 d[key]['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
@@ -263,7 +263,8 @@ def normalize_dict(ordered_dict):
         # Promote the 'text' item
         elif isinstance(d[key], dict) and "text" in d[key] and len(d[key]) == 1:
             if key == 'uid':
-                d[key] = int(d[key]["text"])
+                uid = d[key]["text"]
+                d[key] = int(uid) if re.match(r'^\d+$', str(uid), re.ASCII) else uid
             else:
                 d[key] = d[key]["text"]
 
-- 
2.43.0


From 077b6f2501bafac6e6de8f1281ef3fbfbb55b172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 07/79] fix: active events were ordered by start date before
 priority

---
 openleadr/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 5c35f4d..1f4c889 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -816,7 +816,7 @@ def order_events(events, limit=None, offset=None):
     def event_priority(event):
         # The default and lowest priority is 0, which we should interpret as a high value.
         priority = getmember(event, 'event_descriptor.priority', missing=float('inf'))
-        if priority == 0:
+        if not priority:
             priority = float('inf')
         return priority
 
@@ -845,11 +845,8 @@ def order_events(events, limit=None, offset=None):
     other_events = [event for event in events
                     if getmember(event, 'event_descriptor.event_status') != 'active']
 
-    # Sort the active events by priority
-    active_events.sort(key=lambda e: event_priority(e))
-
-    # Sort the active events by start date
-    active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
+    # Sort the active events by priority, and by start date within the same priority
+    active_events.sort(key=lambda e: (event_priority(e), getmember(e, 'active_period.dtstart')))
 
     # Sort the non-active events by their start date
     other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
-- 
2.43.0


From 3465a9e270e687a716ce35165cf8f807328eee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 08/79] fix: add_raw_event discarded the active period it was
 given

---
 openleadr/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 12de1cb..352c015 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -297,7 +297,7 @@ class OpenADRServer:
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
             utils.setmember(event, 'event_descriptor.event_status', 'far')
-        if not utils.getmember(event, 'event_descriptor.active_period', None):
+        if not utils.getmember(event, 'active_period', None):
             active_period = utils.get_active_period_from_intervals(
                 [utils.get_active_period_from_intervals(utils.getmember(signal, 'intervals'), False) for signal in utils.getmember(event, 'event_signals')]
             )
-- 
2.43.0


From f1c89e71b0ace9e54dae95ce2ee600764ad84850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 09/79] fix: current value of active SIMPLE events was always
 sent as 0

---
 openleadr/preflight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/preflight.py b/openleadr/preflight.py
index d3eca74..8068748 100644
--- a/openleadr/preflight.py
+++ b/openleadr/preflight.py
@@ -102,7 +102,7 @@ def _preflight_oadrDistributeEvent(message_payload):
         for event_signal in event['event_signals']:
             if 'current_value' in event_signal and event_signal['current_value'] != 0:
                 if event_signal['signal_name'] == "SIMPLE" \
-                        and event['event_descriptor']['event_status'] != "ACTIVE":
+                        and event['event_descriptor']['event_status'] != enums.EVENT_STATUS.ACTIVE:
                     logger.warning("The current_value for a SIMPLE event "
                                    "that is not yet active must be 0. "
                                    "This will be corrected.")
-- 
2.43.0


From 8574743c1416b1cfc51f1075e5d1c62ffb21e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 10/79] fix: the only event of a VEN was not sent with its
 completed status

---
 openleadr/service/event_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 23eae14..0135377 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -41,7 +41,7 @@ class EventService(VTNService):
         ven_id = payload['ven_id']
         if self.polling_method == 'internal':
             if ven_id in self.events and self.events[ven_id]:
-                events = utils.order_events(self.events[ven_id])
+                events = list(utils.order_events(self.events[ven_id]))
                 for event in events:
                     event_status = utils.getmember(event, 'event_descriptor.event_status')
                     # Pop the event from the events so that this is the last time it is communicated
-- 
2.43.0


From eac31abb88efffc36e672d3c13a8ffbe930af1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 11/79] fix: events with the same id for different VENs shared
 their callbacks

---
 openleadr/server.py                | 4 ++--
 openleadr/service/event_service.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 352c015..1a889f2 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -311,9 +311,9 @@ class OpenADRServer:
 
         # Add the callback for the response to this event
         if callback is not None:
-            self.event_callbacks[event_id] = (event, callback)
+            self.event_callbacks[(ven_id, event_id)] = (event, callback)
         if delivery_callback is not None:
-            self.event_delivery_callbacks[event_id] = delivery_callback
+            self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback
         return event_id
 
     def cancel_event(self, ven_id, event_id):
diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 0135377..af58489 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -68,8 +68,8 @@ class EventService(VTNService):
             # Fire the delivery callbacks, if any
             for event in events:
                 event_id = utils.getmember(event, 'event_descriptor.event_id')
-                if event_id in self.event_delivery_callbacks:
-                    await utils.await_if_required(self.event_delivery_callbacks[event_id]())
+                if (ven_id, event_id) in self.event_delivery_callbacks:
+                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
@@ -106,8 +106,8 @@ class EventService(VTNService):
                 # Remove the event from the events list if the cancellation is confirmed.
                 if utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
-                if event_response['event_id'] in self.event_callbacks:
-                    event, callback = self.event_callbacks.pop(event_id)
+                if (ven_id, event_id) in self.event_callbacks:
+                    event, callback = self.event_callbacks.pop((ven_id, event_id))
                     if isinstance(callback, asyncio.Future):
                         if callback.done():
                             logger.warning(f"Got a second response '{opt_type}' from ven '{ven_id}' "
-- 
2.43.0


From 69a23923754f01ede511d381aa369bb75c62b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 12/79] fix: an error in a delivery callback prevented the
 delivery of all events

---
 openleadr/service/event_service.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index af58489..7fe2ffb 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -69,7 +69,11 @@ class EventService(VTNService):
             for event in events:
                 event_id = utils.getmember(event, 'event_descriptor.event_id')
                 if (ven_id, event_id) in self.event_delivery_callbacks:
-                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
+                    try:
+                        await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
+                    except Exception as err:
+                        logger.error(f"Your delivery_callback for event '{event_id}' encountered an error: "
+                                     f"{err.__class__.__name__}: {err}")
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
-- 
2.43.0


From 59009ccd48dbf09a95f3249f68bc4d19e77fa43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 13/79] fix: responses to completed or unknown events and
 failing callbacks aborted the handling of event responses

---
 openleadr/service/event_service.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 7fe2ffb..cf361bf 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -94,11 +94,12 @@ class EventService(VTNService):
         """
         ven_id = payload['ven_id']
         if self.polling_method == 'internal':
-            for event_response in payload['event_responses']:
+            invalid_id = False
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
-                event = utils.find_by(self.events[ven_id],
+                event = utils.find_by(self.events.get(ven_id, []),
                                       'event_descriptor.event_id', event_id,
                                       'event_descriptor.modification_number', modification_number)
                 if not event:
@@ -106,9 +107,11 @@ class EventService(VTNService):
                         logger.warning(f"""Got an oadrCreatedEvent message from ven '{ven_id}' """
                                        f"""for event '{event_id}' with modification number """
                                        f"""{modification_number} that does not exist.""")
-                        raise errors.InvalidIdError
+                        # Handle the other responses before reporting this problem
+                        invalid_id = True
+                        continue
                 # Remove the event from the events list if the cancellation is confirmed.
-                if utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                elif utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
                 if (ven_id, event_id) in self.event_callbacks:
                     event, callback = self.event_callbacks.pop((ven_id, event_id))
@@ -121,11 +124,16 @@ class EventService(VTNService):
                         else:
                             callback.set_result(opt_type)
                     else:
-                        result = callback(ven_id=ven_id, event_id=event_id, opt_type=opt_type)
-                        if asyncio.iscoroutine(result):
-                            result = await result
+                        try:
+                            await utils.await_if_required(callback(ven_id=ven_id, event_id=event_id,
+                                                                   opt_type=opt_type))
+                        except Exception as err:
+                            logger.error(f"Your callback for event '{event_id}' encountered an error: "
+                                         f"{err.__class__.__name__}: {err}")
+            if invalid_id:
+                raise errors.InvalidIdError
         else:
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 opt_type = event_response['opt_type']
                 result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,
-- 
2.43.0


From 300468274f12171d4030aac981f2aa4240d22244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 14/79] fix: event changes made while a poll was being answered
 were not delivered at the next poll

---
 openleadr/service/poll_service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 20b7341..457c9c5 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -120,8 +120,13 @@ class PollService(VTNService):
             result = self.on_poll(ven_id=payload['ven_id'])
         elif self.events_updated.get(payload['ven_id']):
             # Send a oadrDistributeEvent whenever the events were updated
-            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            # Changes that happen while we are preparing this answer are for the next poll
             self.events_updated[payload['ven_id']] = False
+            try:
+                result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            except Exception:
+                self.events_updated[payload['ven_id']] = True
+                raise
         else:
             return 'oadrResponse', {}
 
-- 
2.43.0


From d91c348151aff31e8af5d17a850e71a692d75336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 15/79] fix: a list of events from an on_poll handler resulted
 in a server error

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 457c9c5..278aec2 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -137,7 +137,7 @@ class PollService(VTNService):
         if isinstance(result, tuple):
             return result
         if isinstance(result, list):
-            return 'oadrDistributeEvent', result
+            return 'oadrDistributeEvent', {'events': result}
         if isinstance(result, dict) and 'event_descriptor' in result:
             return 'oadrDistributeEvent', {'events': [result]}
         if isinstance(result, objects.Event):
-- 
2.43.0


From c13d31fa145db5615aa66e279c234f87ad9befa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 16/79] fix: a wrong content type was answered with a server
 error

---
 openleadr/service/vtn_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a96689f..a6ed507 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -50,9 +50,9 @@ class VTNService:
             # Check the Content-Type header
             content_type = request.headers.get('content-type', '')
             if not content_type.lower().startswith("application/xml"):
-                raise errors.HTTPError(response_code=HTTPStatus.BAD_REQUEST,
-                                       response_description="The Content-Type header must be application/xml; "
-                                                            f"you provided {request.headers.get('content-type', '')}")
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description="The Content-Type header must be application/xml; "
+                                                   f"you provided {request.headers.get('content-type', '')}")
             content = await request.read()
             hooks.call('before_parse', content)
 
-- 
2.43.0


From 9b4288779f009a624e0905bba4aa708854d9e524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 17/79] fix: a too large request was answered with a server
 error

---
 openleadr/service/vtn_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a6ed507..c3faa7b 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -133,6 +133,9 @@ class VTNService:
             response = web.Response(text=msg,
                                     status=HTTPStatus.OK,
                                     content_type='application/xml')
+        except web.HTTPException:
+            # Let the web framework handle its own errors (a too large request, for instance)
+            raise
         except errors.HTTPError as err:
             # If we throw a http-related error, deal with it here
             response = web.Response(text=err.response_description,
-- 
2.43.0


From e9256ac20a4d32ff169d1020d55a1d329f9a1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 18/79] fix: error answers to event and registration requests
 were missing required parts

---
 openleadr/service/vtn_service.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index c3faa7b..51143c8 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -128,7 +128,8 @@ class VTNService:
             # In case of an OpenADR error, return a valid OpenADR message
             response_type, response_payload = self.error_response(message_type,
                                                                   err.response_code,
-                                                                  err.response_description)
+                                                                  err.response_description,
+                                                                  message_payload)
             msg = self._create_message(response_type, **response_payload)
             response = web.Response(text=msg,
                                     status=HTTPStatus.OK,
@@ -196,18 +197,27 @@ class VTNService:
                                                                   enums.STATUS_CODES.COMPLIANCE_ERROR,
                                                                   "A message of type "
                                                                   f"{message_type} should not be "
-                                                                  f"sent to this endpoint ({self.__service_name__})")
+                                                                  f"sent to this endpoint ({self.__service_name__})",
+                                                                  message_payload)
         logger.info(f"Responding to {message_type} with a {response_type} message: {response_payload}.")
         hooks.call('after_handle', response_type, response_payload)
         return response_type, response_payload
 
-    def error_response(self, message_type, error_code, error_description):
+    def error_response(self, message_type, error_code, error_description, message_payload=None):
+        message_payload = message_payload or {}
+        response_payload = {'response': {'response_code': error_code,
+                                         'response_description': error_description,
+                                         'request_id': message_payload.get('request_id')},
+                            'request_id': utils.generate_id(),
+                            'ven_id': message_payload.get('ven_id'),
+                            'vtn_id': self.vtn_id}
         if message_type == 'oadrCreatePartyRegistration':
             response_type = 'oadrCreatedPartyRegistration'
-        if message_type == 'oadrRequestEvent':
+            response_payload['profiles'] = [{'profile_name': message_payload['profile_name'],
+                                             'transports': [{'transport_name': message_payload['transport_name']}]}]
+        elif message_type == 'oadrRequestEvent':
             response_type = 'oadrDistributeEvent'
+            response_payload['events'] = []
         else:
             response_type = 'oadrResponse'
-        response_payload = {'response': {'response_code': error_code,
-                                         'response_description': error_description}}
         return response_type, response_payload
-- 
2.43.0


From 1dc185612929674a7d273e6c9f75058fc5590dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 19/79] fix: servers in the same process overrode each other's
 signing, lookup and verification settings

---
 openleadr/server.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 1a889f2..9e8c0b5 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -15,8 +15,7 @@
 # limitations under the License.
 
 from aiohttp import web
-from openleadr.service import EventService, PollService, RegistrationService, ReportService, \
-                              VTNService
+from openleadr.service import EventService, PollService, RegistrationService, ReportService
 from openleadr.messaging import create_message
 from openleadr import objects, enums, utils
 from functools import partial
@@ -81,16 +80,17 @@ class OpenADRServer:
         self.app = web.Application()
         self.services = {}
 
-        # Globally enable or disable the verification of message
-        # signatures. Only used in combination with TLS.
-        VTNService.verify_message_signatures = verify_message_signatures
-
         # Create the separate OpenADR services
         self.services['event_service'] = EventService(vtn_id)
         self.services['report_service'] = ReportService(vtn_id)
         self.services['poll_service'] = PollService(vtn_id)
         self.services['registration_service'] = RegistrationService(vtn_id, poll_freq=requested_poll_freq)
 
+        # Enable or disable the verification of message signatures.
+        # Only used in combination with TLS.
+        for service in self.services.values():
+            service.verify_message_signatures = verify_message_signatures
+
         # Register the other services with the poll service
         self.services['poll_service'].event_service = self.services['event_service']
         self.services['poll_service'].report_service = self.services['report_service']
@@ -136,20 +136,23 @@ class OpenADRServer:
                     print(utils.certificate_domain(cert).center(80))
                 print("*" * 80)
                 print("")
-        VTNService._create_message = partial(create_message, cert=cert, key=key,
-                                             passphrase=passphrase)
+        for service in self.services.values():
+            service._create_message = partial(create_message, cert=cert, key=key,
+                                              passphrase=passphrase)
         if fingerprint_lookup is not None:
             logger.warning("DeprecationWarning: the argument 'fingerprint_lookup' is deprecated and "
                            "is replaced by 'ven_lookup'. 'fingerprint_lookup' will be removed in a "
                            "future version of OpenLEADR. Please see "
                            "https://openleadr.org/docs/server.html#things-you-should-implement.")
-            VTNService.fingerprint_lookup = staticmethod(fingerprint_lookup)
+            for service in self.services.values():
+                service.fingerprint_lookup = fingerprint_lookup
         if ven_lookup is None:
             logger.warning("If you provide a 'ven_lookup' to your OpenADRServer() init, OpenLEADR can "
                            "automatically issue ReregistrationRequests for VENs that don't exist in "
                            "your system. Please see https://openleadr.org/docs/server.html#things-you-should-implement.")
         else:
-            VTNService.ven_lookup = staticmethod(ven_lookup)
+            for service in self.services.values():
+                service.ven_lookup = ven_lookup
         self.__setattr__ = self.add_handler
 
     async def run(self):
-- 
2.43.0


From 49adbf1d30872a4ed29addca2c402d98aa19a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 20/79] fix: an invalid registration handler result led to an
 invalid answer

---
 openleadr/service/registration_service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 5b32fea..6af1ed1 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -99,7 +99,10 @@ class RegistrationService(VTNService):
                 logger.error("Your on_create_party_registration handler should return either "
                              "'False' (if the client is rejected) or a (ven_id, registration_id) "
                              "tuple. Will REJECT the client for now.")
-                response_payload = {}
+                transports = [{'transport_name': payload['transport_name']}]
+                response_payload = {'profiles': [{'profile_name': payload['profile_name'],
+                                                  'transports': transports}],
+                                    'requested_oadr_poll_freq': self.poll_freq}
             else:
                 ven_id, registration_id = result
                 transports = [{'transport_name': payload['transport_name']}]
-- 
2.43.0


From 36a2cae56728a46b780103e3cba0b2aac7587bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:50 +0000
Subject: [PATCH 21/79] fix: oadrResponse messages without a VEN id contained
 an invented one

---
 openleadr/templates/oadrResponse.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/templates/oadrResponse.xml b/openleadr/templates/oadrResponse.xml
index 2cea65e..b98c92a 100644
--- a/openleadr/templates/oadrResponse.xml
+++ b/openleadr/templates/oadrResponse.xml
@@ -9,6 +9,8 @@
       <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads" />
       {% endif %}
     </ei:eiResponse>
+    {% if ven_id is defined and ven_id is not none %}
     <ei:venID>{{ ven_id }}</ei:venID>
+    {% endif %}
   </oadr:oadrResponse>
 </oadr:oadrSignedObject>
\ No newline at end of file
-- 
2.43.0


From 380fd07e7d4ed67eb555bec071d5f7587d8dccb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:50 +0000
Subject: [PATCH 22/79] fix: signature validation accepted contents and replay
 protection that were not signed

---
 openleadr/messaging.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 79afbf5..4f53013 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -19,6 +19,7 @@ import xmltodict
 from jinja2 import Environment, PackageLoader
 from markupsafe import Markup, escape
 from signxml import XMLSigner, XMLVerifier, methods
+from signxml.exceptions import InvalidSignature
 from uuid import uuid4
 from lxml.etree import Element
 from openleadr import errors
@@ -110,8 +111,22 @@ def validate_xml_signature(xml_tree, cert_fingerprint=None):
             raise errors.FingerprintMismatch("The certificate fingerprint was incorrect. "
                                              f"Expected: {cert_fingerprint}; "
                                              f"Received: {fingerprint}. Ignoring message.")
-    VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
-    _verify_replay_protect(xml_tree)
+    results = VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
+
+    # Make sure that the message contents that will be used are the contents that were signed,
+    # and that the ReplayProtect element is protected by the signature.
+    signed_trees = [result.signed_xml for result in results if result.signed_xml is not None]
+    signed_object = xml_tree.find('{http://openadr.org/oadr-2.0b/2012/07}oadrSignedObject')
+    if _canonical(signed_object) not in [_canonical(tree) for tree in signed_trees]:
+        raise InvalidSignature("The message contents are not covered by the message signature.")
+    replay_protect = [tree for tree in signed_trees if tree.tag != signed_object.tag]
+    if not replay_protect:
+        raise ValueError("The ReplayProtect element is not covered by the message signature.")
+    _verify_replay_protect(replay_protect[0])
+
+
+def _canonical(xml_tree):
+    return etree.tostring(xml_tree, method='c14n', exclusive=True, with_tail=False)
 
 
 def validate_xml_signature_none(xml_tree):
-- 
2.43.0


From 4b84fe12f1d62f8b2af824c2601aeaf1d4333535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:50 +0000
Subject: [PATCH 23/79] fix: external entities were read and messages that are
 not an oadrPayload led to a server error

---
 openleadr/messaging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 4f53013..d76a2e8 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -41,7 +41,7 @@ XML_SCHEMA_LOCATION = os.path.join(os.path.dirname(__file__), 'schema', 'oadr_20
 
 with open(XML_SCHEMA_LOCATION) as file:
     XML_SCHEMA = etree.XMLSchema(etree.parse(file))
-XML_PARSER = etree.XMLParser(schema=XML_SCHEMA)
+XML_PARSER = etree.XMLParser(schema=XML_SCHEMA, resolve_entities=False)
 
 
 def parse_message(data):
@@ -97,6 +97,10 @@ def validate_xml_schema(content):
     if isinstance(content, str):
         content = content.encode('utf-8')
     tree = etree.fromstring(content, XML_PARSER)
+    if tree.getroottree().docinfo.doctype:
+        raise etree.XMLSyntaxError("Document type declarations are not allowed", None, 0, 0)
+    if tree.tag != '{http://openadr.org/oadr-2.0b/2012/07}oadrPayload':
+        raise etree.XMLSyntaxError("The message is not an oadrPayload", None, 0, 0)
     return tree
 
 
-- 
2.43.0


From 3f0fac02b625dcd8e6d1bb8c4bd163ba7fd49cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:50 +0000
Subject: [PATCH 24/79] fix: unsigned or malformed signed messages were
 answered with a server error

---
 openleadr/messaging.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index d76a2e8..fb811d3 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -175,8 +175,12 @@ async def authenticate_message(request, message_tree, message_payload,
             raise errors.NotRegisteredOrAuthorizedError(msg)
 
         if verify_message_signature:
-            message_cert = utils.extract_pem_cert(message_tree)
-            message_fingerprint = utils.certificate_fingerprint(message_cert)
+            try:
+                message_cert = utils.extract_pem_cert(message_tree)
+                message_fingerprint = utils.certificate_fingerprint(message_cert)
+            except (AttributeError, ValueError):
+                msg = "Your message must be signed, and contain the certificate it was signed with."
+                raise errors.NotRegisteredOrAuthorizedError(msg)
             if message_fingerprint != expected_fingerprint:
                 msg = (f"The fingerprint of the certificate used to sign the message "
                        f"{message_fingerprint} did not match the fingerprint that this "
@@ -186,7 +190,9 @@ async def authenticate_message(request, message_tree, message_payload,
 
             try:
                 validate_xml_signature(message_tree)
-            except ValueError:
+            except InvalidSignature:
+                raise
+            except Exception:
                 msg = ("The message signature did not match the message contents. Please make sure "
                        "you are using the correct XMLDSig algorithm and C14n canonicalization.")
                 raise errors.NotRegisteredOrAuthorizedError(msg)
-- 
2.43.0


From beaa13f677c915b15dae41b68c2929ff7f308415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:50 +0000
Subject: [PATCH 25/79] fix: messages in an unsupported encoding were answered
 with a server error

---
 openleadr/service/vtn_service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 51143c8..f8f8f06 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -21,6 +21,7 @@ import traceback
 
 from aiohttp import web
 from lxml.etree import XMLSyntaxError
+from xml.parsers.expat import ExpatError
 from signxml.exceptions import InvalidSignature
 
 from openleadr import enums, errors, hooks, utils
@@ -141,7 +142,7 @@ class VTNService:
             # If we throw a http-related error, deal with it here
             response = web.Response(text=err.response_description,
                                     status=err.response_code)
-        except XMLSyntaxError as err:
+        except (XMLSyntaxError, ExpatError) as err:
             logger.warning(f"XML schema validation of incoming message failed: {err}.")
             response = web.Response(text=f'XML failed validation: {err}',
                                     status=HTTPStatus.BAD_REQUEST)
-- 
2.43.0


From e3c0552e692831ea8df23cb210d640d4f00b1f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:43 +0000
Subject: [PATCH 26/79] fix: sending an event given as a dict altered the
 original

---
 openleadr/service/vtn_service.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index f8f8f06..c7532b8 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -27,6 +27,7 @@ from signxml.exceptions import InvalidSignature
 from openleadr import enums, errors, hooks, utils
 from openleadr.messaging import parse_message, validate_xml_schema, authenticate_message
 
+from copy import deepcopy
 from dataclasses import is_dataclass, asdict
 
 logger = logging.getLogger('openleadr')
@@ -160,8 +161,9 @@ class VTNService:
             logger.error(traceback.format_exc())
             response = web.Response(status=HTTPStatus.INTERNAL_SERVER_ERROR)
         else:
-            # We've successfully handled this message
-            msg = self._create_message(response_type, **response_payload)
+            # We've successfully handled this message. Use a copy of the payload, since creating
+            # the message may adjust it, and it can contain the events that we keep.
+            msg = self._create_message(response_type, **deepcopy(response_payload))
             response = web.Response(text=msg,
                                     status=HTTPStatus.OK,
                                     content_type='application/xml')
-- 
2.43.0


From 37e73c2101b1c3826d8136eca7286e384790cff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 27/79] fix: an empty or cancelling answer from the VTN broke
 the VEN's polling and report sending

---
 openleadr/client.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 78380a4..85f380b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -980,18 +980,16 @@ class OpenADRClient:
             while True:
                 report = await self.pending_reports.get()
                 service = 'EiReport'
-                message = self._create_message('oadrUpdateReport',
-                                               ven_id=self.ven_id,
-                                               request_id=utils.generate_id(),
-                                               reports=[report])
                 try:
-                    # response_type, response_payload = await self._perform_request(service, message)
-                    response_payload = await self._perform_request(service, message)
+                    message = self._create_message('oadrUpdateReport',
+                                                   ven_id=self.ven_id,
+                                                   request_id=utils.generate_id(),
+                                                   reports=[report])
+                    response_type, response_payload = await self._perform_request(service, message)
+                    if response_payload.get('cancel_report'):
+                        await self.cancel_report(response_payload['cancel_report'])
                 except Exception as err:
                     logger.error(f"Unable to send the report to the VTN. Error: {err}")
-                else:
-                    if 'cancel_report' in response_payload:
-                        await self.cancel_report(response_payload['cancel_report'])
         except asyncio.CancelledError:
             return
 
@@ -1105,7 +1103,7 @@ class OpenADRClient:
             logger.error(f"Request error {err.__class__.__name__}:{err}")
             return None, {}
         if len(content) == 0:
-            return None
+            return None, {}
         try:
             await self._execute_hooks('before_schema_validation', utils.ensure_str(content))
             tree = validate_xml_schema(content)
-- 
2.43.0


From ffff08e50bf74487e6c15b1681c394825991c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 28/79] fix: cancelling an opt was sent without a request id

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 85f380b..d316afd 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -662,6 +662,7 @@ class OpenADRClient:
             return False
 
         payload = {
+            'request_id': utils.generate_id(),
             'opt_id': opt_id,
             'ven_id': self.ven_id
         }
-- 
2.43.0


From 8be136b21904861994670c215601e551f1dbba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:33 +0000
Subject: [PATCH 29/79] fix: a failing handler or a redelivered cancellation
 opted out all events of a delivery

---
 openleadr/client.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index d316afd..4ef00f3 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1155,33 +1155,36 @@ class OpenADRClient:
                 modification_number = event['event_descriptor']['modification_number']
                 logger.info("The VEN received an event with event_id: %s, status: %s, modification_number: %s", event_id, event_status, modification_number) # change to debug
                 received_event = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)
-                if received_event:
-                    if received_event['event_descriptor']['modification_number'] == modification_number:
-                        # Re-submit the same opt type as we already had previously
-                        result = self.responded_events[event_id]
+                try:
+                    if received_event:
+                        if received_event['event_descriptor']['modification_number'] == modification_number:
+                            # Re-submit the same opt type as we already had previously
+                            result = self.responded_events.get(event_id)
+                        else:
+                            # Replace the event with the fresh copy
+                            utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                            self.received_events.append(event)
+                            # Wait for the result of the on_update_event handler
+                            result = await utils.await_if_required(self.on_update_event(event))
                     else:
-                        # Replace the event with the fresh copy
-                        utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                        # Wait for the result of the on_event
                         self.received_events.append(event)
-                        # Wait for the result of the on_update_event handler
-                        result = await utils.await_if_required(self.on_update_event(event))
-                else:
-                    # Wait for the result of the on_event
-                    self.received_events.append(event)
-                    result = self.on_event(event)
-                if asyncio.iscoroutine(result):
-                    result = await result
+                        result = self.on_event(event)
+                    if asyncio.iscoroutine(result):
+                        result = await result
+                except Exception as err:
+                    logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
+                                 f"The error was {err.__class__.__name__}: {str(err)}")
+                    result = 'optOut'
                 results.append(result)
-                if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED) \
-                        and event_id in self.responded_events:
-                    self.responded_events.pop(event_id)
-                else:
-                    self.responded_events[event_id] = result
+                # Keep the answer for as long as we keep the event
+                self.responded_events[event_id] = result
             for i, result in enumerate(results):
                 if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':
                     logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
                                  f"you supplied {result}. Please fix your on_event handler.")
                     results[i] = 'optOut'
+                    self.responded_events[events[i]['event_descriptor']['event_id']] = 'optOut'
         except Exception as err:
             logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
                          f"The error was {err.__class__.__name__}: {str(err)}")
@@ -1257,6 +1260,7 @@ class OpenADRClient:
                     utils.determine_event_status(event['active_period']) == 'completed':
                 logger.info(f"Removing event {event} because it is no longer relevant.")
                 self.received_events.pop(i)
+                self.responded_events.pop(event['event_descriptor']['event_id'], None)
 
     async def _poll(self):
         logger.debug("Now polling for new messages")
-- 
2.43.0


From d90e6b4909b78d1496daddc7d135c1c40a583884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 30/79] fix: report requests in one message mixed up their data
 points and single-report settings

---
 openleadr/client.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 4ef00f3..8138183 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -724,10 +724,10 @@ class OpenADRClient:
         """
         service = 'EiReport'
         response_code = 200
-        single = False
-        requested_r_ids = []
 
         for report_request in response_payload['report_requests']:
+            single = False
+            requested_r_ids = []
             r_id = report_request['report_specifier']['specifier_payloads'][0]['r_id']
             if 'INVALID' in report_request['report_specifier']['report_specifier_id'] or (isinstance(r_id, str) and 'INVALID' in r_id):
                 logger.error("The VTN requested an invalid report. Will respond with an error.")
@@ -819,10 +819,8 @@ class OpenADRClient:
                                                     'granularity': granularity,
                                                     'job': None})
                     
-                        async def report_callback():
-                            await self.update_report(report_request_id)
-
                         if 'report_interval' in report_request['report_specifier']:
+                            report_callback = partial(self.update_report, report_request_id=report_request_id)
                             self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
                         else:
                             await self.update_report(report_request_id)
-- 
2.43.0


From eea3c54f6f26a31a1030e05f8c6a235d437a7e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 31/79] fix: requests for data points that were not offered
 disturbed the other report requests

---
 openleadr/client.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 8138183..edb83a9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -767,6 +767,11 @@ class OpenADRClient:
                         # Check if the requested measurement exists and if the correct unit is requested
                         if 'measurement' in specifier_payload:
                             measurement = specifier_payload['measurement']
+                            if rd.measurement is None:
+                                logger.error(f"A measurement was given by the VTN for the report with "
+                                             f"report_request_id {report_request_id} and r_id {r_id}, "
+                                             f"which has no measurement.")
+                                continue
                             if measurement['description'] != rd.measurement.description:
                                 logger.error(f"A non-matching measurement description for report with "
                                             f"report_request_id {report_request_id} and r_id {r_id} was given "
@@ -798,7 +803,15 @@ class OpenADRClient:
 
                         requested_r_ids.append(r_id)
 
-                    if not single and report_back_duration.total_seconds() > 0:
+                    if not requested_r_ids:
+                        # None of the requested data points can be provided
+                        self.report_requests.append({'report_request_id': report_request_id,
+                                                    'report_specifier_id': report_specifier_id,
+                                                    'report_back_duration': report_back_duration,
+                                                    'r_ids': requested_r_ids,
+                                                    'granularity': granularity,
+                                                    'job': None})
+                    elif not single and report_back_duration.total_seconds() > 0:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
                         reporting_interval = granularity or report_back_duration
-- 
2.43.0


From aa9a65fae5d815bfb61545f80fb5cc440c4e2b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 32/79] fix: incremental reports were lost when complete after
 one sample or when overfull

---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index edb83a9..86f4310 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -931,9 +931,10 @@ class OpenADRClient:
             report_interval = report_back_duration.total_seconds()
             sampling_interval = granularity.total_seconds()
             expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)
-            if len(outgoing_report.intervals) == expected_len:
+            if len(outgoing_report.intervals) >= expected_len:
                 logger.info("The report is now complete with all the values. Will queue for sending.")
-                await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
+                self.incomplete_reports.pop(report_request_id, None)
+                await self.pending_reports.put(outgoing_report)
             else:
                 logger.debug("The report is not yet complete, will hold until it is.")
                 self.incomplete_reports[report_request_id] = outgoing_report
-- 
2.43.0


From 97b625efe89591eab8a29c3009239d9bc5292f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 33/79] fix: reports with full data collection were sent every
 sampling interval with overlapping periods

---
 openleadr/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 86f4310..c97abbc 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -814,7 +814,11 @@ class OpenADRClient:
                     elif not single and report_back_duration.total_seconds() > 0:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
-                        reporting_interval = granularity or report_back_duration
+                        if report.data_collection_mode == 'full':
+                            # All values of the reporting interval are collected at once
+                            reporting_interval = max(granularity, report_back_duration)
+                        else:
+                            reporting_interval = granularity or report_back_duration
                         job = self.scheduler.add_job(func=callback,
                                                     trigger='cron',
                                                     **utils.cron_config(reporting_interval))
-- 
2.43.0


From e2b199c89e2b9b9551ff8ce958a8c278f67e26d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 34/79] fix: add_report altered shared measurements, failed on
 measurement dicts and returned no report_specifier_id

---
 openleadr/client.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index c97abbc..d501843 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import asyncio
+from copy import copy
 import inspect
 import logging
 import ssl
@@ -304,7 +305,9 @@ class OpenADRClient:
             item_base = measurement
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
-            power_attributes = object.PowerAttributes(**measurement.get('power_attributes')) or None
+            power_attributes = measurement.get('power_attributes')
+            if isinstance(power_attributes, dict):
+                power_attributes = objects.PowerAttributes(**power_attributes)
             item_base = objects.Measurement(name=measurement['name'],
                                             description=measurement['description'],
                                             unit=measurement['unit'],
@@ -318,6 +321,9 @@ class OpenADRClient:
                                             unit=unit,
                                             scale=scale)
 
+        # Make sure we don't alter a measurement that is used elsewhere
+        item_base = copy(item_base)
+
         if report_name != 'TELEMETRY_STATUS' and scale is not None:
             if item_base.scale is not None:
                 if scale in enums.SI_SCALE_CODE.values:
@@ -326,7 +332,7 @@ class OpenADRClient:
                 raise ValueError("The 'scale' argument must be one of '{'. ',join(enums.SI_SCALE_CODE.values)}")
 
         # Check if unit is compatible
-        if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
+        if unit is not None and item_base is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
             logger.warning(f"The supplied unit {unit} for measurement {measurement} "
                            f"will be ignored, {item_base.unit} will be used instead. "
                            f"Allowed units for this measurement are: "
@@ -363,7 +369,7 @@ class OpenADRClient:
                                                        market_context=market_context)
         self.report_callbacks[(report.report_specifier_id, r_id)] = callback
         report.report_descriptions.append(report_description)
-        return report_specifier_id, r_id
+        return report.report_specifier_id, r_id
 
     def add_hook(self, hook_name, handler):
         """
-- 
2.43.0


From b301899247325d4126ac19f07c9d633227955404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 35/79] fix: cancelling several reports at once, or one that
 was yet to start, led to errors

---
 openleadr/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index d501843..86222f5 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -873,6 +873,9 @@ class OpenADRClient:
         """
         logger.debug(f"Running update_report for {report_request_id}")
         report_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
+        if report_request is None:
+            logger.info(f"The report with report_request_id {report_request_id} is no longer requested.")
+            return
         granularity = report_request['granularity']
         report_back_duration = report_request['report_back_duration']
         report_specifier_id = report_request['report_specifier_id']
@@ -957,6 +960,10 @@ class OpenADRClient:
         Cancel this report.
         """
         report_request_id = payload['report_request_id']
+        if isinstance(report_request_id, list):
+            for single_report_request_id in report_request_id:
+                await self.cancel_report({**payload, 'report_request_id': single_report_request_id})
+            return
         report_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
         if report_request:
             if len(report_request['r_ids']) > 0:
-- 
2.43.0


From d15128fba9de79b904c4405afb2b1ce8d2b05aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 36/79] fix: every re-registration started another report queue
 worker

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 86222f5..a4d09e1 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -499,7 +499,7 @@ class OpenADRClient:
             return
 
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
-- 
2.43.0


From 33898a54bc4c0d9001f8d5ad6018369127a3a26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:09 +0000
Subject: [PATCH 37/79] fix: the ramp-up of received events was ignored when
 determining their status

---
 openleadr/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 1f4c889..f753056 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -650,8 +650,12 @@ def determine_event_status(active_period):
         return 'completed'
     if now >= active_period_start:
         return 'active'
-    if getmember(active_period, 'ramp_up_period', missing=None) is not None:
-        ramp_up_start = active_period_start - getmember(active_period, 'ramp_up_period')
+    ramp_up_period = getmember(active_period, 'ramp_up_period', missing=None)
+    if ramp_up_period is None:
+        # This is the name that is used in events that were received in a message
+        ramp_up_period = getmember(active_period, 'ramp_up', missing=None)
+    if ramp_up_period is not None:
+        ramp_up_start = active_period_start - ramp_up_period
         if now >= ramp_up_start:
             return 'near'
     return 'far'
-- 
2.43.0


From ca9b2447338f5ace555f35c5b1e4e19045bca171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:19 +0000
Subject: [PATCH 38/79] fix: the currencyPerKW measurement was sent in the
 wrong namespace

---
 openleadr/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index 2ed9f79..e003cfa 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -255,7 +255,7 @@ _MEASUREMENT_DESCRIPTIONS = {'currency': 'currency',
                              'voltage': 'Voltage'}
 
 _MEASUREMENT_NAMESPACES = {'currency': 'oadr',
-                           'currencyPerWK': 'oadr',
+                           'currencyPerKW': 'oadr',
                            'currencyPerKWh': 'oadr',
                            'currencyPerThm': 'oadr',
                            'current': 'oadr',
-- 
2.43.0


From 652c1f1e92c1b540ee00cf954c84f535c3488b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 39/79] fix: pulse count measurements could not be added to a
 report

---
 openleadr/client.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index a4d09e1..d404979 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -326,10 +326,7 @@ class OpenADRClient:
 
         if report_name != 'TELEMETRY_STATUS' and scale is not None:
             if item_base.scale is not None:
-                if scale in enums.SI_SCALE_CODE.values:
-                    item_base.scale = scale
-            else:
-                raise ValueError("The 'scale' argument must be one of '{'. ',join(enums.SI_SCALE_CODE.values)}")
+                item_base.scale = scale
 
         # Check if unit is compatible
         if unit is not None and item_base is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
-- 
2.43.0


From 49dbeaf4d99c510d7b0aed92025036369d9707f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:02 +0000
Subject: [PATCH 40/79] fix: an invalid handler result or an incomplete offer
 for one data point prevented the request of others

---
 openleadr/service/report_service.py | 41 +++++++++++++++++------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 17e1084..8447d31 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -99,12 +99,12 @@ class ReportService(VTNService):
             if report['report_name'] == 'METADATA_TELEMETRY_STATUS':
                 if mode == 'compact':
                     results = [self.on_register_report(ven_id=payload['ven_id'],
-                                                       resource_id=rd.get('report_data_source', {}).get('resource_id'),
+                                                       resource_id=(rd.get('report_data_source') or {}).get('resource_id'),
                                                        measurement='Status',
                                                        unit=None,
                                                        scale=None,
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
+                                                       min_sampling_interval=(rd.get('sampling_rate') or {}).get('min_period'),
+                                                       max_sampling_interval=(rd.get('sampling_rate') or {}).get('max_period'))
                                for rd in report['report_descriptions']]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
@@ -112,12 +112,12 @@ class ReportService(VTNService):
             elif report['report_name'] == 'METADATA_TELEMETRY_USAGE':
                 if mode == 'compact':
                     results = [self.on_register_report(ven_id=payload['ven_id'],
-                                                       resource_id=rd.get('report_data_source', {}).get('resource_id'),
-                                                       measurement=rd['measurement']['description'],
-                                                       unit=rd['measurement']['unit'],
-                                                       scale=rd['measurement']['scale'],
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
+                                                       resource_id=(rd.get('report_data_source') or {}).get('resource_id'),
+                                                       measurement=(rd.get('measurement') or {}).get('description'),
+                                                       unit=(rd.get('measurement') or {}).get('unit'),
+                                                       scale=(rd.get('measurement') or {}).get('scale'),
+                                                       min_sampling_interval=(rd.get('sampling_rate') or {}).get('min_period'),
+                                                       max_sampling_interval=(rd.get('sampling_rate') or {}).get('max_period'))
                                for rd in report['report_descriptions']]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
@@ -162,8 +162,9 @@ class ReportService(VTNService):
             if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):
                 continue
             # Check if all sampling rates per report_request are the same
-            sampling_interval = min(rrq[2] for rrq in report_request if isinstance(rrq, tuple))
-            if not all(rrq is not None and report_request[0][2] == sampling_interval for rrq in report_request):
+            report_request = [rrq for rrq in report_request if rrq is not None]
+            sampling_interval = min(rrq[2] for rrq in report_request)
+            if not all(rrq[2] == sampling_interval for rrq in report_request):
                 logger.error("OpenADR does not support multiple different sampling rates per "
                              "report. OpenLEADR will set all sampling rates to "
                              f"{sampling_interval}")
@@ -178,20 +179,26 @@ class ReportService(VTNService):
             report_specifier_id = orig_report['report_specifier_id']
             report_request_id = utils.generate_id()
             specifier_payloads = []
+            sampling_interval = min(rrq[2] for rrq in report_request if rrq is not None)
             for rrq in report_request:
-                if len(rrq) == 3:
-                    r_id, callback, sampling_interval = rrq
-                    report_interval = sampling_interval
-                elif len(rrq) == 4:
-                    r_id, callback, sampling_interval, report_interval = rrq
-
+                if rrq is None:
+                    continue
+                r_id, callback = rrq[:2]
                 report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)
+                if not report_description:
+                    logger.error(f"Your on_register_report handler requested r_id '{r_id}', which is not "
+                                 f"in the report with report_specifier_id '{report_specifier_id}'.")
+                    continue
+                report_interval = rrq[3] if len(rrq) == 4 else rrq[2]
                 reading_type = report_description['reading_type']
                 specifier_payloads.append(objects.SpecifierPayload(r_id=r_id,
                                                                    reading_type=reading_type))
                 # Append the callback to our list of known callbacks
                 self.report_callbacks[(report_request_id, r_id)] = callback
 
+            if not specifier_payloads:
+                continue
+
             # Add the ReportSpecifier to the ReportRequest
             report_specifier = objects.ReportSpecifier(report_specifier_id=report_specifier_id,
                                                        granularity=sampling_interval,
-- 
2.43.0


From 289c110c2f9d7905679489656fc58237d142bf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 41/79] fix: reports without values and confirmations of
 unknown reports were answered with a server error

---
 openleadr/service/report_service.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 8447d31..e134a58 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -235,14 +235,14 @@ class ReportService(VTNService):
         """
         Handle a report that we received from the VEN.
         """
-        for report in payload['reports']:
+        for report in payload.get('reports') or []:
             report_request_id = report['report_request_id']
             if not self.report_callbacks:
                 result = self.on_update_report(report)
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report['intervals'], 'report_payload.r_id').items():
+            for r_id, values in utils.group_by(report.get('intervals') or [], 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
@@ -274,7 +274,7 @@ class ReportService(VTNService):
         """
         if not hasattr(self, 'on_created_report'):
             logger.info(f"""VEN {payload['ven_id']} created reports with reportRequestIDs """
-                        f"""'{"', '".join([r['request_id'] for r in payload['pending_reports']])}'.""")
+                        f"""'{"', '".join([r['report_request_id'] for r in payload.get('pending_reports') or []])}'.""")
         else:
             await utils.await_if_required(self.on_created_report(payload))
 
@@ -291,7 +291,7 @@ class ReportService(VTNService):
                 self.created_reports[ven_id].append(pending_report['report_request_id'])
 
         # Check if all requested reports were created
-        for requested_report in self.requested_reports[ven_id]:
+        for requested_report in self.requested_reports.get(ven_id, []):
             if requested_report.report_request_id not in self.created_reports[ven_id]:
                 logger.warning(f"The requested report with id {requested_report.report_request_id} "
                                "was not created by the VEN. Yoy may want to contact the VEN to "
-- 
2.43.0


From 63ac8650952f5c5076ae15c741749cdb2057dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 42/79] fix: cancelling a registration left the report sending
 running without its queue

---
 openleadr/client.py | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index d404979..cd8876b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -521,16 +521,24 @@ class OpenADRClient:
             logger.info("VEN successfully un-registered")
             # Update/Delete all the registration and reports information
             self.registration_id = None
-            self.report_requests = None
-            self.reports = None
-            self.report_callbacks = None
-            self.report_requests = None
-            self.incomplete_reports = None
-            self.pending_reports = None
-            self.scheduler.remove_all_jobs()
+            self._clear_registration()
         else:
             logger.warning("The VEN couldn't cancel the registration")
 
+    def _clear_registration(self):
+        """
+        Stop all activities that depend on our registration, and clear their information.
+        """
+        self.scheduler.remove_all_jobs()
+        if self.report_queue_task:
+            self.report_queue_task.cancel()
+            self.report_queue_task = None
+        self.reports = []
+        self.report_callbacks = {}
+        self.report_requests = []
+        self.incomplete_reports = {}
+        self.pending_reports = asyncio.Queue()
+
     ###########################################################################
     #                                                                         #
     #                              EVENT METHODS                              #
@@ -1072,13 +1080,7 @@ class OpenADRClient:
         else:
             return
         # Update/Delete all the registration and reports information
-        self.report_requests = None
-        self.reports = None
-        self.report_callbacks = None
-        self.report_requests = None
-        self.incomplete_reports = None
-        self.pending_reports = None
-        self.scheduler.remove_all_jobs()
+        self._clear_registration()
 
         message = self._create_message('oadrCanceledPartyRegistration', response=response, ven_id=self.ven_id, registration_id=self.registration_id)
         service = 'EiRegisterParty'
-- 
2.43.0


From b919414f06f72fd286ada91e451aba6f68b2f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 43/79] fix: reports with intervals that do not divide a
 minute, hour or day were sampled at other intervals

---
 openleadr/client.py |  8 +++++---
 openleadr/utils.py  | 11 +++++++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index cd8876b..01060b0 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -830,9 +830,11 @@ class OpenADRClient:
                             reporting_interval = max(granularity, report_back_duration)
                         else:
                             reporting_interval = granularity or report_back_duration
-                        job = self.scheduler.add_job(func=callback,
-                                                    trigger='cron',
-                                                    **utils.cron_config(reporting_interval))
+                        if utils.is_cron_interval(reporting_interval):
+                            trigger = {'trigger': 'cron', **utils.cron_config(reporting_interval)}
+                        else:
+                            trigger = {'trigger': 'interval', 'seconds': reporting_interval.total_seconds()}
+                        job = self.scheduler.add_job(func=callback, **trigger)
                         self.report_requests.append({'report_request_id': report_request_id,
                                                     'report_specifier_id': report_specifier_id,
                                                     'report_back_duration': report_back_duration,
diff --git a/openleadr/utils.py b/openleadr/utils.py
index f753056..8765061 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -543,6 +543,17 @@ def cron_config(interval, randomize_seconds=False):
     return cron_config
 
 
+def is_cron_interval(interval):
+    """
+    Returns whether this interval can be expressed exactly in cron settings.
+    """
+    seconds = interval.total_seconds()
+    for unit, limit in ((1, 60), (60, 3600), (3600, 86400)):
+        if seconds < limit:
+            return seconds >= unit and seconds % unit == 0 and limit % seconds == 0
+    return seconds == 86400
+
+
 def get_cert_fingerprint_from_request(request):
     ssl_object = request.transport.get_extra_info('ssl_object')
     if ssl_object:
-- 
2.43.0


From ed845f67be7a16feee53a92a62e499cf26db5096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 44/79] fix: an event added for several VENs was shared, so
 that cancelling one cancelled all

---
 openleadr/server.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/server.py b/openleadr/server.py
index 9e8c0b5..f45c97a 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -18,6 +18,7 @@ from aiohttp import web
 from openleadr.service import EventService, PollService, RegistrationService, ReportService
 from openleadr.messaging import create_message
 from openleadr import objects, enums, utils
+from copy import deepcopy
 from functools import partial
 from datetime import datetime, timedelta, timezone
 import asyncio
@@ -292,6 +293,9 @@ class OpenADRServer:
                                      "'ven_id' (str), 'event_id' (str), 'opt_type' (str). Please fix "
                                      "your 'callback' handler.")
 
+        # Keep our own copy, because the same event can be added for several VENs
+        event = deepcopy(event)
+
         event_id = utils.getmember(event, 'event_descriptor.event_id')
         # Create the event queue if it does not exist yet
         if ven_id not in self.events:
-- 
2.43.0


From bd883e4078b74390634b51a81d1f57033ffb1f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:24 +0000
Subject: [PATCH 45/79] fix: an invalid handler result altered the remembered
 answer to a later version in the same message

---
 openleadr/client.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 01060b0..6d4eb2f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1206,15 +1206,13 @@ class OpenADRClient:
                     logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
                                  f"The error was {err.__class__.__name__}: {str(err)}")
                     result = 'optOut'
+                if result not in ('optIn', 'optOut') and event['response_required'] == 'always':
+                    logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
+                                 f"you supplied {result}. Please fix your on_event handler.")
+                    result = 'optOut'
                 results.append(result)
                 # Keep the answer for as long as we keep the event
                 self.responded_events[event_id] = result
-            for i, result in enumerate(results):
-                if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':
-                    logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
-                                 f"you supplied {result}. Please fix your on_event handler.")
-                    results[i] = 'optOut'
-                    self.responded_events[events[i]['event_descriptor']['event_id']] = 'optOut'
         except Exception as err:
             logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
                          f"The error was {err.__class__.__name__}: {str(err)}")
-- 
2.43.0


From de2b6caba5dd39d0c0d29c65e8886f33782a5297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:31 +0000
Subject: [PATCH 46/79] fix: a report in the answer to a poll raised an
 AttributeError

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 6d4eb2f..83cae1b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1310,7 +1310,9 @@ class OpenADRClient:
                 await self._on_event(response_payload)
 
         elif response_type == 'oadrUpdateReport':
-            await self._on_report(response_payload)
+            # We don't support receiving reports from the VTN at this moment
+            logger.warning("The VTN sent a report, but OpenLEADR "
+                           "does not support reports in this direction.")
 
         elif response_type == 'oadrCreateReport':
             if 'report_requests' in response_payload:
-- 
2.43.0


From cc4ba54e07e88c51545ae61ac872cf90ef09a50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:48 +0000
Subject: [PATCH 47/79] fix: an unrelated answer to a registration request
 raised an error or dropped the registration

---
 openleadr/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 83cae1b..64e775f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -449,12 +449,15 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         if response_type is None:
             return
-        if response_payload['response']['response_code'] != 200:
+        if response_payload.get('response', {}).get('response_code', 200) != 200:
             status_code = response_payload['response']['response_code']
             status_description = response_payload['response']['response_description']
             logger.error(f"Got error on Create Party Registration: "
                          f"{status_code} {status_description}")
             return
+        if response_type != 'oadrCreatedPartyRegistration':
+            logger.error(f"Got an unexpected {response_type} message in answer to our Create Party Registration.")
+            return
 
         if response_payload.get('registration_id'):
             self.registration_id = response_payload['registration_id']
-- 
2.43.0


From 57e79d3c237670552c3e94a03b5af73bc0a888fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:24 +0000
Subject: [PATCH 48/79] fix: an error answer to an opt message was taken for an
 acknowledgement

---
 openleadr/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 64e775f..e927236 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -650,7 +650,7 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         logger.info(response_type, response_payload)
 
-        if 'opt_id' in response_payload:
+        if 'opt_id' in response_payload and response_payload.get('response', {}).get('response_code') == 200:
             # VTN acknowledged the opt message
             logging.info(f"VTN acknowledged the opt message with opt_id {response_payload['opt_id']}")
             return response_payload['opt_id']
@@ -686,7 +686,7 @@ class OpenADRClient:
         response_type, response_payload = await self._perform_request(service, message)
         logger.info(response_type, response_payload)
 
-        if 'opt_id' in response_payload:
+        if 'opt_id' in response_payload and response_payload.get('response', {}).get('response_code') == 200:
             # VTN acknowledged the opt cancelation
             logging.info(f"VTN acknowledged the opt cancelation with opt_id {response_payload['opt_id']}")
             self.opts.remove(opt)
-- 
2.43.0


From 51648840336493abfde4580e4f6b0243b7cacc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:37 +0000
Subject: [PATCH 49/79] fix: a cancelled registration was not confirmed to the
 VEN, which kept polling

---
 openleadr/service/registration_service.py             | 3 +++
 openleadr/templates/oadrCanceledPartyRegistration.xml | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 6af1ed1..8e9d2cb 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -137,6 +137,9 @@ class RegistrationService(VTNService):
         result = self.on_cancel_party_registration(payload)
         if iscoroutine(result):
             result = await result
+        if result is None:
+            # The handler does not need to return anything: confirm the cancellation
+            return 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id']}
         return result
 
     def on_cancel_party_registration(self, ven_id):
diff --git a/openleadr/templates/oadrCanceledPartyRegistration.xml b/openleadr/templates/oadrCanceledPartyRegistration.xml
index d31ba68..a5fd825 100644
--- a/openleadr/templates/oadrCanceledPartyRegistration.xml
+++ b/openleadr/templates/oadrCanceledPartyRegistration.xml
@@ -6,6 +6,8 @@
       <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
     </ei:eiResponse>
     <ei:registrationID>{{ registration_id }}</ei:registrationID>
+    {% if ven_id is defined and ven_id is not none %}
     <ei:venID>{{ ven_id }}</ei:venID>
+    {% endif %}
   </oadr:oadrCanceledPartyRegistration>
 </oadr:oadrSignedObject>
\ No newline at end of file
-- 
2.43.0


From 31343357b773186b22de4e7e01d53559420cf5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:16 +0000
Subject: [PATCH 50/79] fix: an offered report without data points was answered
 with a server error

---
 openleadr/service/report_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index e134a58..b5b1ff0 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -92,6 +92,8 @@ class ReportService(VTNService):
             if payload['ven_id'] not in self.registered_reports:
                 self.registered_reports[payload['ven_id']] = []
 
+            # A report can be offered without any data points
+            report.setdefault('report_descriptions', [])
             report_copy = report.copy()
             report_copy['report_name'] = report_copy['report_name'][9:]
             self.registered_reports[payload['ven_id']].append(report_copy)
-- 
2.43.0


From a43608fdbeb15a19a6fe596913318f43a63504bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:37 +0000
Subject: [PATCH 51/79] fix: a data point that was not offered determined the
 sampling interval of the others

---
 openleadr/service/report_service.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index b5b1ff0..eb6569b 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -181,16 +181,22 @@ class ReportService(VTNService):
             report_specifier_id = orig_report['report_specifier_id']
             report_request_id = utils.generate_id()
             specifier_payloads = []
-            sampling_interval = min(rrq[2] for rrq in report_request if rrq is not None)
+            known_requests = []
             for rrq in report_request:
                 if rrq is None:
                     continue
-                r_id, callback = rrq[:2]
-                report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)
-                if not report_description:
-                    logger.error(f"Your on_register_report handler requested r_id '{r_id}', which is not "
+                if not utils.find_by(orig_report['report_descriptions'], 'r_id', rrq[0]):
+                    logger.error(f"Your on_register_report handler requested r_id '{rrq[0]}', which is not "
                                  f"in the report with report_specifier_id '{report_specifier_id}'.")
                     continue
+                known_requests.append(rrq)
+            if not known_requests:
+                continue
+
+            sampling_interval = min(rrq[2] for rrq in known_requests)
+            for rrq in known_requests:
+                r_id, callback = rrq[:2]
+                report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)
                 report_interval = rrq[3] if len(rrq) == 4 else rrq[2]
                 reading_type = report_description['reading_type']
                 specifier_payloads.append(objects.SpecifierPayload(r_id=r_id,
@@ -198,9 +204,6 @@ class ReportService(VTNService):
                 # Append the callback to our list of known callbacks
                 self.report_callbacks[(report_request_id, r_id)] = callback
 
-            if not specifier_payloads:
-                continue
-
             # Add the ReportSpecifier to the ReportRequest
             report_specifier = objects.ReportSpecifier(report_specifier_id=report_specifier_id,
                                                        granularity=sampling_interval,
-- 
2.43.0


From 1da13e01b2fe2cb645128f5b5caa1c00a239b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:41 +0000
Subject: [PATCH 52/79] fix: a failing measurement discarded the values of the
 other data points in the report

---
 openleadr/client.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index e927236..33ad459 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -909,16 +909,21 @@ class OpenADRClient:
             date_to = datetime.now(timezone.utc)
             date_from = date_to - max(report_back_duration, granularity)
             for r_id in report_request['r_ids']:
-                report_callback = self.report_callbacks[(report_specifier_id, r_id)]
-                result = report_callback(date_from=date_from,
-                                         date_to=date_to,
-                                         sampling_interval=granularity)
-                if asyncio.iscoroutine(result):
-                    result = await result
-                for dt, value in result:
-                    report_payload = objects.ReportPayload(r_id=r_id, value=value)
-                    intervals.append(objects.ReportInterval(dtstart=dt,
-                                                            report_payload=report_payload))
+                try:
+                    report_callback = self.report_callbacks[(report_specifier_id, r_id)]
+                    result = report_callback(date_from=date_from,
+                                             date_to=date_to,
+                                             sampling_interval=granularity)
+                    if asyncio.iscoroutine(result):
+                        result = await result
+                    for dt, value in result:
+                        report_payload = objects.ReportPayload(r_id=r_id, value=value)
+                        intervals.append(objects.ReportInterval(dtstart=dt,
+                                                                report_payload=report_payload))
+                except Exception as err:
+                    # A failing callback should not affect the other data points
+                    logger.error(f"Your report callback for r_id {r_id} in report with report_specifier_id "
+                                 f"{report_specifier_id} raised an error: {err.__class__.__name__}: {err}")
 
         else:
             for r_id in report_request['r_ids']:
@@ -939,8 +944,10 @@ class OpenADRClient:
                         else:
                             intervals.append(objects.ReportInterval(dtstart=dt,
                                                                     report_payload=report_payload))
-                except KeyError:
-                    logger.error(f"No callback found for r_id {r_id} in report with report_specifier_id {report_specifier_id}")
+                except Exception as err:
+                    # A failing callback should not affect the other data points
+                    logger.error(f"Your report callback for r_id {r_id} in report with report_specifier_id "
+                                 f"{report_specifier_id} raised an error: {err.__class__.__name__}: {err}")
         outgoing_report.intervals = intervals
         logger.info(f"The number of intervals in the report is now {len(outgoing_report.intervals)}")
 
-- 
2.43.0


From bfc0b1e6a5f07b03daf7ee55249e0cd82f4884f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 53/79] fix: the measurement in a report request was not
 recognized, so that a wrong unit was not refused

---
 openleadr/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 8765061..c0b8ce2 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -187,13 +187,13 @@ def normalize_dict(ordered_dict):
             d = d[key]
 
         # Plurarize some lists
-        elif key in ('report_request', 'report', 'specifier_payload'):
+        elif key in ('report_request', 'report'):
             if isinstance(d[key], list):
                 d[key + 's'] = d.pop(key)
             else:
                 d[key + 's'] = [d.pop(key)]
 
-        elif key in ('report_description', 'event_signal'):
+        elif key in ('report_description', 'event_signal', 'specifier_payload'):
             descriptions = d.pop(key)
             if not isinstance(descriptions, list):
                 descriptions = [descriptions]
-- 
2.43.0


From 731a7a2056c536efd3fd2aca62884febcc487a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:30 +0000
Subject: [PATCH 54/79] fix: a single report with a start in the past was never
 sent

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 33ad459..2f634f2 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -854,7 +854,9 @@ class OpenADRClient:
                     
                         if 'report_interval' in report_request['report_specifier']:
                             report_callback = partial(self.update_report, report_request_id=report_request_id)
-                            self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
+                            self.scheduler.add_job(report_callback, 'date',
+                                                   run_date=report_request['report_specifier']['report_interval']['dtstart'],
+                                                   misfire_grace_time=None)
                         else:
                             await self.update_report(report_request_id)
         
-- 
2.43.0


From 2f59dd4ba157cf143edcb7a2fc6ff31b1cb1bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 55/79] fix: cancelling a report request that could not be
 fulfilled sent an empty report or raised an error

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 2f634f2..e74cef5 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1008,7 +1008,8 @@ class OpenADRClient:
                                             ven_id=self.ven_id,
                                             report_request_id=report_request_id,
                                             **message_payload)
-                await self.update_report(report_request_id)
+                if len(report_request['r_ids']) > 0:
+                    await self.update_report(report_request_id)
             else:
                 logger.info(f"Report with report_request_id {report_request_id} will not be followed by a new report.")
                 # Send simple oadrCanceledReport message
-- 
2.43.0


From 591a3d1bdbb9398536488bc13e105a69bbf02153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:24 +0000
Subject: [PATCH 56/79] fix: several reports with numeric request ids could not
 be cancelled together

---
 openleadr/utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index c0b8ce2..5f31053 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -99,6 +99,8 @@ def normalize_dict(ordered_dict):
                 if isinstance(item, (OrderedDict, dict)):
                     dict_item = normalize_dict(item)
                     d[key].append(normalize_dict(dict_item))
+                elif key in ('request_id', 'report_request_id'):
+                    d[key].append(parse_request_id(item))
                 else:
                     d[key].append(item)
         elif key in ("duration", "startafter", "max_period", "min_period"):
@@ -111,8 +113,7 @@ def normalize_dict(ordered_dict):
             d[key] = parse_boolean(value)
         elif isinstance(value, str):
             if key in ('request_id', 'report_request_id'):
-                # Only convert these ids if that does not change their text
-                d[key] = int(value) if re.match(r'^(0|-?[1-9]\d*)$', value, re.ASCII) else value
+                d[key] = parse_request_id(value)
             elif re.match(r'^-?\d+$', value, re.ASCII):
                 d[key] = int(value)
             elif re.match(r'^-?(\d+\.\d*|\.\d+)$', value, re.ASCII):
@@ -325,6 +326,15 @@ def parse_duration(value):
     return duration
 
 
+def parse_request_id(value):
+    """
+    Parse a request id. These are only converted to numbers if that does not change their text.
+    """
+    if isinstance(value, str) and re.match(r'^(0|-?[1-9]\d*)$', value, re.ASCII):
+        return int(value)
+    return value
+
+
 def parse_boolean(value):
     if value == 'true':
         return True
-- 
2.43.0


From 4dc2aa62ce43d91e691e26159b93833c5e3e7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:56 +0000
Subject: [PATCH 57/79] fix: refuse TLS requests that do not name a VEN instead
 of acting on them unauthenticated

---
 openleadr/service/vtn_service.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index c7532b8..27b0996 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -94,6 +94,11 @@ class VTNService:
                     logger.error("Could not authenticate this VEN because "
                                  "you did not provide a 'ven_lookup' function. Please see "
                                  "https://openleadr.org/docs/server.html#signing-messages for info.")
+            elif request.secure \
+                    and message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \
+                    and (hasattr(self, 'fingerprint_lookup') or hasattr(self, 'ven_lookup')):
+                raise errors.NotRegisteredOrAuthorizedError("Your message must contain your venID, "
+                                                            "so that it can be authenticated.")
 
             # Pass the message off to the handler and get the response type and payload
             try:
-- 
2.43.0


From d5896d874e1d66df03c1a214986d930c80a2b5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:38 +0000
Subject: [PATCH 58/79] fix: do not write answer fields into the payload an
 operator's handler returned

---
 openleadr/service/vtn_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 27b0996..79bb835 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -188,6 +188,9 @@ class VTNService:
                     response_payload = asdict(response_payload)
                 elif response_payload is None:
                     response_payload = {}
+                else:
+                    # Never write into an object that belongs to the handler
+                    response_payload = dict(response_payload)
             else:
                 response_type, response_payload = 'oadrResponse', {}
 
-- 
2.43.0


From 921a1e4084aa7e79135b0b859fb9d80bef5fc7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:10 +0000
Subject: [PATCH 59/79] fix: an Event object that is created as cancelled stays
 cancelled

---
 openleadr/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/objects.py b/openleadr/objects.py
index 450e946..e42051a 100644
--- a/openleadr/objects.py
+++ b/openleadr/objects.py
@@ -231,8 +231,9 @@ class Event:
                                  "but the two were not consistent with each other. "
                                  f"You supplied 'targets' = {self.targets} and "
                                  f"'targets_by_type' = {self.targets_by_type}")
-        # Set the event status
-        self.event_descriptor.event_status = utils.determine_event_status(self.active_period)
+        # Set the event status; an event that was cancelled stays cancelled
+        if self.event_descriptor.event_status != 'cancelled':
+            self.event_descriptor.event_status = utils.determine_event_status(self.active_period)
 
 
 @dataclass
-- 
2.43.0


From 02fc4bdbdcde371278c7358106319712e5ca3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:06 +0000
Subject: [PATCH 60/79] fix: write measurements without a scale with scale code
 'none'

---
 openleadr/templates/parts/eventSignalEmix.xml       | 2 +-
 openleadr/templates/parts/reportDescriptionEmix.xml | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/templates/parts/eventSignalEmix.xml b/openleadr/templates/parts/eventSignalEmix.xml
index 699d2f9..6cbd5ab 100644
--- a/openleadr/templates/parts/eventSignalEmix.xml
+++ b/openleadr/templates/parts/eventSignalEmix.xml
@@ -3,7 +3,7 @@
     <{{ event_signal.measurement.ns }}:itemDescription>{{ event_signal.measurement.description }}</{{ event_signal.measurement.ns }}:itemDescription>
     <{{ event_signal.measurement.ns }}:itemUnits>{{ event_signal.measurement.unit }}</{{ event_signal.measurement.ns }}:itemUnits>
     {% if event_signal.measurement.pulse_factor %}<oadr:pulseFactor>{{ event_signal.measurement.pulse_factor }}</oadr:pulseFactor>{% else %}
-    <scale:siScaleCode>{{ event_signal.measurement.scale }}</scale:siScaleCode>
+    <scale:siScaleCode>{{ event_signal.measurement.scale or 'none' }}</scale:siScaleCode>
     {% endif %}
     {% if event_signal.measurement.power_attributes %}
     <power:powerAttributes>
diff --git a/openleadr/templates/parts/reportDescriptionEmix.xml b/openleadr/templates/parts/reportDescriptionEmix.xml
index cacee75..b53030a 100644
--- a/openleadr/templates/parts/reportDescriptionEmix.xml
+++ b/openleadr/templates/parts/reportDescriptionEmix.xml
@@ -3,7 +3,7 @@
     <{{ report_description.measurement.ns }}:itemDescription>{{ report_description.measurement.description }}</{{ report_description.measurement.ns }}:itemDescription>
     <{{ report_description.measurement.ns }}:itemUnits>{{ report_description.measurement.unit }}</{{ report_description.measurement.ns }}:itemUnits>
     {% if report_description.measurement.pulse_factor %}<oadr:pulseFactor>{{ report_description.measurement.pulse_factor }}</oadr:pulseFactor>{% else %}
-    <scale:siScaleCode>{{ report_description.measurement.scale }}</scale:siScaleCode>
+    <scale:siScaleCode>{{ report_description.measurement.scale or 'none' }}</scale:siScaleCode>
     {% endif %}
     {% if report_description.measurement.power_attributes %}
     <power:powerAttributes>
-- 
2.43.0


From 947d9de24a61b84b491fd395b0bf433a1551a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:43 +0000
Subject: [PATCH 61/79] fix: answer requests that cannot be parsed or carry no
 venID with an error instead of HTTP 500

---
 openleadr/service/report_service.py | 10 ++++++++--
 openleadr/service/vtn_service.py    |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index eb6569b..6ebefec 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -16,7 +16,7 @@
 
 from . import service, handler, VTNService
 from asyncio import iscoroutine
-from openleadr import objects, utils
+from openleadr import errors, objects, utils
 import logging
 import inspect
 logger = logging.getLogger('openleadr')
@@ -88,6 +88,9 @@ class ReportService(VTNService):
             # If the client does not send any reports, reply with an empty oadrRegisteredReport message.
             return 'oadrRegisteredReport', {'report_requests': []}
 
+        if payload.get('ven_id') is None:
+            raise errors.InvalidIdError("Your message must contain your venID.")
+
         for report in payload['reports']:
             if payload['ven_id'] not in self.registered_reports:
                 self.registered_reports[payload['ven_id']] = []
@@ -277,6 +280,9 @@ class ReportService(VTNService):
         """
         Handle the confirmation that a report was created.
         """
+        if payload.get('ven_id') is None:
+            raise errors.InvalidIdError("Your message must contain your venID.")
+
         if not hasattr(self, 'on_created_report'):
             logger.info(f"""VEN {payload['ven_id']} created reports with reportRequestIDs """
                         f"""'{"', '".join([r['report_request_id'] for r in payload.get('pending_reports') or []])}'.""")
@@ -306,7 +312,7 @@ class ReportService(VTNService):
     @handler('oadrRegisteredReport')
     async def registered_report(self, payload):
         if not hasattr(self, 'on_registered_report'):
-            logger.info(f"VEN {payload['ven_id']} indicated that it has registered "
+            logger.info(f"VEN {payload.get('ven_id')} indicated that it has registered "
                         "your VTN-provided reports, but you are not handling that yet.")
         else:
             await utils.await_if_required(self.on_registered_report(payload))
diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 79bb835..f6fcf87 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -62,7 +62,12 @@ class VTNService:
             message_tree = validate_xml_schema(content)
 
             # Parse the message to a type and payload dict
-            message_type, message_payload = parse_message(content)
+            try:
+                message_type, message_payload = parse_message(content)
+            except ValueError as err:
+                # An unsupported character encoding or a value that is out of range
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description=f"The message could not be parsed: {err}")
 
             if message_type == 'oadrResponse':
                 raise errors.SendEmptyHTTPResponse()
-- 
2.43.0


From e2cc85b42831de2dd69771a6bb2566de5b8e9c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:18 +0000
Subject: [PATCH 62/79] fix: answer durations that are out of range with an
 error instead of HTTP 500

---
 openleadr/service/vtn_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index f6fcf87..303a74f 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -64,7 +64,7 @@ class VTNService:
             # Parse the message to a type and payload dict
             try:
                 message_type, message_payload = parse_message(content)
-            except ValueError as err:
+            except (ValueError, OverflowError) as err:
                 # An unsupported character encoding or a value that is out of range
                 raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
                                        description=f"The message could not be parsed: {err}")
-- 
2.43.0


From 23d095bad293854069a00ab27b9af1669ce6776e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:39 +0000
Subject: [PATCH 63/79] fix: don't fail on offered reports that have no name

---
 openleadr/service/report_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 6ebefec..9f8f483 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -97,6 +97,8 @@ class ReportService(VTNService):
 
             # A report can be offered without any data points
             report.setdefault('report_descriptions', [])
+            # The name of the report is optional
+            report['report_name'] = report.get('report_name') or ''
             report_copy = report.copy()
             report_copy['report_name'] = report_copy['report_name'][9:]
             self.registered_reports[payload['ven_id']].append(report_copy)
-- 
2.43.0


From a3a12099f7ca4e03ad55a7bb00db11bdfc7e4183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 64/79] fix: put all targets of an opt in a single eiTarget

---
 openleadr/templates/oadrCreateOpt.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/templates/oadrCreateOpt.xml b/openleadr/templates/oadrCreateOpt.xml
index f62e592..cf6ac9b 100644
--- a/openleadr/templates/oadrCreateOpt.xml
+++ b/openleadr/templates/oadrCreateOpt.xml
@@ -32,9 +32,9 @@
     </ei:qualifiedEventID>
     {% endif %}
     {% if targets is defined and targets is not none and targets|length > 0 %}
-    {% for target in targets %}
-    {% include 'parts/eiTarget.xml' %}
-    {% endfor %}
+    {% with event = {'targets': targets} %}
+    {% include 'parts/eiEventTarget.xml' %}
+    {% endwith %}
     {% else %}
     <ei:eiTarget/>
     {% endif %}
-- 
2.43.0


From f3da26e8d6aca11937b43795b11527ee1ab35533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:08 +0000
Subject: [PATCH 65/79] fix: send the device class targets of event signals

---
 openleadr/templates/parts/eiEventSignal.xml | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openleadr/templates/parts/eiEventSignal.xml b/openleadr/templates/parts/eiEventSignal.xml
index 9453edd..06a9089 100644
--- a/openleadr/templates/parts/eiEventSignal.xml
+++ b/openleadr/templates/parts/eiEventSignal.xml
@@ -23,6 +23,15 @@
         </ei:interval>
     {% endfor %}
     </strm:intervals>
+    {% if event_signal.targets and event_signal.targets|selectattr('end_device_asset')|list %}
+    <ei:eiTarget xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
+        {% for target in event_signal.targets|selectattr('end_device_asset') %}
+        <power:endDeviceAsset>
+            <power:mrid>{{ target.end_device_asset.mrid }}</power:mrid>
+        </power:endDeviceAsset>
+        {% endfor %}
+    </ei:eiTarget>
+    {% endif %}
     <ei:signalName>{{ event_signal.signal_name }}</ei:signalName>
     <ei:signalType>{{ event_signal.signal_type }}</ei:signalType>
     <ei:signalID>{{ event_signal.signal_id }}</ei:signalID>
-- 
2.43.0


From 42103064c3892b4eb9b26ecd41afc7c66310c71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:29 +0000
Subject: [PATCH 66/79] fix: don't read request ids as booleans

---
 openleadr/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 5f31053..b7ee116 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -109,12 +109,12 @@ def normalize_dict(ordered_dict):
             d[key] = parse_datetime(value)
         elif key in TEXT_KEYS:
             d[key] = value
+        elif key in ('request_id', 'report_request_id'):
+            d[key] = parse_request_id(value)
         elif value in ('true', 'false'):
             d[key] = parse_boolean(value)
         elif isinstance(value, str):
-            if key in ('request_id', 'report_request_id'):
-                d[key] = parse_request_id(value)
-            elif re.match(r'^-?\d+$', value, re.ASCII):
+            if re.match(r'^-?\d+$', value, re.ASCII):
                 d[key] = int(value)
             elif re.match(r'^-?(\d+\.\d*|\.\d+)$', value, re.ASCII):
                 d[key] = float(value)
-- 
2.43.0


From de28ddffcdbd47ab3b87b64a2067dd29aad3f973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:56 +0000
Subject: [PATCH 67/79] fix: deliver report intervals with several payloads,
 resource states or no start time

---
 openleadr/service/report_service.py | 14 +++++++++++---
 openleadr/utils.py                  | 13 +++++++------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 9f8f483..33c876f 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -252,11 +252,19 @@ class ReportService(VTNService):
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report.get('intervals') or [], 'report_payload.r_id').items():
+            # Collect the values per r_id; an interval can contain a value for several r_ids
+            values_by_r_id = {}
+            for interval in report.get('intervals') or []:
+                report_payloads = interval['report_payload']
+                if not isinstance(report_payloads, list):
+                    report_payloads = [report_payloads]
+                for report_payload in report_payloads:
+                    value = report_payload.get('value', report_payload.get('payload_resource_status'))
+                    values_by_r_id.setdefault(report_payload['r_id'], []).append(
+                        (interval.get('dtstart', report.get('dtstart')), value))
+            for r_id, values in values_by_r_id.items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
-                    # Collect the values
-                    values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values]
                     # Call the callback function to deliver the values
                     result = self.report_callbacks[(report_request_id, r_id)](values)
                     if iscoroutine(result):
diff --git a/openleadr/utils.py b/openleadr/utils.py
index b7ee116..4d7258b 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -250,12 +250,13 @@ def normalize_dict(ordered_dict):
 
         # Report payloads contain an r_id and a type-wrapped payload_float
         elif key == 'report_payload':
-            if 'payload_float' in d[key] and 'value' in d[key]['payload_float']:
-                v = d[key].pop('payload_float')
-                d[key]['value'] = float(v['value'])
-            elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_int')
-                d[key]['value'] = int(v['value'])
+            for report_payload in d[key] if isinstance(d[key], list) else [d[key]]:
+                if 'payload_float' in report_payload and 'value' in report_payload['payload_float']:
+                    v = report_payload.pop('payload_float')
+                    report_payload['value'] = float(v['value'])
+                elif 'payload_int' in report_payload and 'value' in report_payload['payload_int']:
+                    v = report_payload.pop('payload_int')
+                    report_payload['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
         elif key == 'test_event' and not isinstance(d[key], bool):
-- 
2.43.0


From 5b85704aa7d0f1584052dd3aa73e8b3380b71b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:44 +0000
Subject: [PATCH 68/79] fix: notification, ramp-up and recovery periods of zero
 length were left out of events

---
 openleadr/templates/parts/eiActivePeriod.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/templates/parts/eiActivePeriod.xml b/openleadr/templates/parts/eiActivePeriod.xml
index 6e9675c..5b87207 100644
--- a/openleadr/templates/parts/eiActivePeriod.xml
+++ b/openleadr/templates/parts/eiActivePeriod.xml
@@ -13,17 +13,17 @@
             </tolerate>
         </tolerance>
         {% endif %}
-        {% if event.active_period.notification_period %}
+        {% if event.active_period.notification_period is defined and event.active_period.notification_period is not none %}
         <ei:x-eiNotification>
             <duration>{{ event.active_period.notification_period|timedeltaformat }}</duration>
         </ei:x-eiNotification>
         {% endif %}
-        {% if event.active_period.ramp_up_period %}
+        {% if event.active_period.ramp_up_period is defined and event.active_period.ramp_up_period is not none %}
         <ei:x-eiRampUp>
             <duration>{{ event.active_period.ramp_up_period|timedeltaformat }}</duration>
         </ei:x-eiRampUp>
         {% endif %}
-        {% if event.active_period.recovery_period %}
+        {% if event.active_period.recovery_period is defined and event.active_period.recovery_period is not none %}
         <ei:x-eiRecovery>
             <duration>{{ event.active_period.recovery_period|timedeltaformat }}</duration>
         </ei:x-eiRecovery>
-- 
2.43.0


From 8f575f33658ce67a672069c36afddfc8e118fd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:04 +0000
Subject: [PATCH 69/79] fix: events without a priority gave an invalid message

---
 openleadr/templates/parts/eiEventDescriptor.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/templates/parts/eiEventDescriptor.xml b/openleadr/templates/parts/eiEventDescriptor.xml
index 8b4de05..a58dab8 100644
--- a/openleadr/templates/parts/eiEventDescriptor.xml
+++ b/openleadr/templates/parts/eiEventDescriptor.xml
@@ -7,7 +7,7 @@
     {% if event.event_descriptor.modification_reason is defined and event.event_descriptor.modification_reason is not none %}
     <ei:modificationReason>{{ event.event_descriptor.modification_reason }}</ei:modificationReason>
     {% endif %}
-    {%if event.event_descriptor.priority is not none %}
+    {% if event.event_descriptor.priority is defined and event.event_descriptor.priority is not none %}
     <ei:priority>{{ event.event_descriptor.priority }}</ei:priority>
     {% endif %}
     <ei:eiMarketContext>
-- 
2.43.0


From 92fb4ecc24c781e379ab45046cf75762641893b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:04 +0000
Subject: [PATCH 70/79] fix: report descriptions with a subject other than an
 end device asset could not be sent

---
 openleadr/templates/parts/oadrReportDescription.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/templates/parts/oadrReportDescription.xml b/openleadr/templates/parts/oadrReportDescription.xml
index aa23045..058cda0 100644
--- a/openleadr/templates/parts/oadrReportDescription.xml
+++ b/openleadr/templates/parts/oadrReportDescription.xml
@@ -1,6 +1,6 @@
 <oadr:oadrReportDescription xmlns:emix="http://docs.oasis-open.org/ns/emix/2011/06" xmlns:power="http://docs.oasis-open.org/ns/emix/2011/06/power">
   <ei:rID>{{ report_description.r_id }}</ei:rID>
-  {% if report_description.report_subject and report_description.report_subject.end_device_asset.mrid %}
+  {% if report_description.report_subject and report_description.report_subject.end_device_asset and report_description.report_subject.end_device_asset.mrid %}
   <ei:reportSubject>
     <power:endDeviceAsset>
       <power:mrid>{{ report_description.report_subject.end_device_asset.mrid }}</power:mrid>
-- 
2.43.0


From 1b5c4018b9164a3c5957cc59f0ff6d5399ae93f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:56 +0000
Subject: [PATCH 71/79] fix: data points with another collection mode were
 added to an existing report and never measured

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index e74cef5..5aaad61 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -341,7 +341,9 @@ class OpenADRClient:
                                    'report_name', report_name,
                                    'report_specifier_id', report_specifier_id)
         else:
-            report = utils.find_by(self.reports, 'report_name', report_name)
+            report = utils.find_by(self.reports,
+                                   'report_name', report_name,
+                                   'data_collection_mode', data_collection_mode)
 
         if not report:
             report_specifier_id = report_specifier_id or utils.generate_id()
-- 
2.43.0


From 2ca3ecc58f3239377df44fa0f90a63fe8b0ea483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:15 +0000
Subject: [PATCH 72/79] fix: a poll frequency given at re-registration was not
 adopted

---
 openleadr/client.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 5aaad61..350fc3a 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -79,6 +79,7 @@ class OpenADRClient:
         self.ven_id = ven_id
         self.registration_id = None
         self.poll_frequency = None
+        self.poll_job = None
         self.vtn_fingerprint = vtn_fingerprint
         self.debug = debug
         self.check_hostname = check_hostname
@@ -164,14 +165,10 @@ class OpenADRClient:
         await self._poll()
 
         # Set up automatic polling
-        if self.poll_frequency > timedelta(hours=24):
-            logger.warning("Polling with intervals of more than 24 hours is not supported. "
-                           "Will use 24 hours as the polling interval.")
-            self.poll_frequency = timedelta(hours=24)
-
-        self.scheduler.add_job(self._poll,
-                               trigger='interval',
-                               seconds=self.poll_frequency.total_seconds())
+        self._limit_poll_frequency()
+        self.poll_job = self.scheduler.add_job(self._poll,
+                                               trigger='interval',
+                                               seconds=self.poll_frequency.total_seconds())
         self.scheduler.add_job(self._event_status_log,
                                trigger='interval',
                                seconds=self.event_status_log_period)
@@ -180,6 +177,12 @@ class OpenADRClient:
                                seconds=self.events_clean_up_period)
         self.scheduler.start()
 
+    def _limit_poll_frequency(self):
+        if self.poll_frequency and self.poll_frequency > timedelta(hours=24):
+            logger.warning("Polling with intervals of more than 24 hours is not supported. "
+                           "Will use 24 hours as the polling interval.")
+            self.poll_frequency = timedelta(hours=24)
+
     async def stop(self):
         """
         Cleanly stops the client. Run this coroutine before closing your event loop.
@@ -493,6 +496,7 @@ class OpenADRClient:
 
         if registration_id is None:
             registration_id = self.registration_id
+        poll_frequency = self.poll_frequency
         await self.create_party_registration(ven_id=self.ven_id, registration_id=registration_id)
 
         if not self.registration_id:
@@ -500,6 +504,11 @@ class OpenADRClient:
             await self.stop()
             return
 
+        # The VTN can ask for another polling frequency than before
+        self._limit_poll_frequency()
+        if self.poll_frequency != poll_frequency and self.poll_job and self.scheduler.get_job(self.poll_job.id):
+            self.poll_job.reschedule(trigger='interval', seconds=self.poll_frequency.total_seconds())
+
         await self.register_reports(self.reports)
         if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
-- 
2.43.0


From 8d091fb4a36b593ad0890e553d117984658996f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:23 +0000
Subject: [PATCH 73/79] fix: cancelling an opt twice at the same time raised an
 error

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 350fc3a..07d18bb 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -700,7 +700,8 @@ class OpenADRClient:
         if 'opt_id' in response_payload and response_payload.get('response', {}).get('response_code') == 200:
             # VTN acknowledged the opt cancelation
             logging.info(f"VTN acknowledged the opt cancelation with opt_id {response_payload['opt_id']}")
-            self.opts.remove(opt)
+            if opt in self.opts:
+                self.opts.remove(opt)
             return True
         else:
             logging.error(f"VTN did not acknowledge the opt cancelation")
-- 
2.43.0


From 5c12a0e5e30c40cd42c6a7b1c7d46788bb09eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:17 +0000
Subject: [PATCH 74/79] fix: use the client certificate and the hostname
 setting also without a CA file, and the CA file also without a certificate

---
 openleadr/client.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 07d18bb..627aaf9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1375,10 +1375,14 @@ class OpenADRClient:
         if not self.client_session:
             headers = {'content-type': 'application/xml'}
             client_timeout = aiohttp.ClientTimeout(sock_connect=5, sock_read=10)
-            if self.cert_path:
+            if self.cert_path or self.ca_file or not self.check_hostname:
                 ssl_context = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
-                ssl_context.load_verify_locations(self.ca_file)
-                ssl_context.load_cert_chain(self.cert_path, self.key_path, self.passphrase)
+                if self.ca_file:
+                    ssl_context.load_verify_locations(self.ca_file)
+                else:
+                    ssl_context.load_default_certs()
+                if self.cert_path:
+                    ssl_context.load_cert_chain(self.cert_path, self.key_path, self.passphrase)
                 ssl_context.check_hostname = self.check_hostname
                 connector = aiohttp.TCPConnector(ssl=ssl_context)
                 self.client_session = aiohttp.ClientSession(
-- 
2.43.0


From 01e05623829f1907576fd5e1cab76cda4937806b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:17 +0000
Subject: [PATCH 75/79] fix: let a client that never sent a request be stopped

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 627aaf9..8a14bb0 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -191,7 +191,8 @@ class OpenADRClient:
             self.scheduler.shutdown()
         if self.report_queue_task:
             self.report_queue_task.cancel()
-        await self.client_session.close()
+        if self.client_session:
+            await self.client_session.close()
         await asyncio.sleep(0)
 
     def add_handler(self, handler, callback):
-- 
2.43.0


From 9ac16f68ed7d1c15f38965898a0ebbc9f642ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:17 +0000
Subject: [PATCH 76/79] fix: allow plain functions as VTN hooks, and keep a
 failing one from breaking the request

---
 openleadr/hooks.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/openleadr/hooks.py b/openleadr/hooks.py
index 155e071..f1dfedf 100644
--- a/openleadr/hooks.py
+++ b/openleadr/hooks.py
@@ -15,6 +15,9 @@
 # limitations under the License.
 
 import asyncio
+import logging
+
+logger = logging.getLogger('openleadr')
 
 HOOKS = {'before_parse': [],
          'before_handle': [],
@@ -35,4 +38,10 @@ def register(hook_point, callback):
 def call(hook_point, *args, **kwargs):
     loop = asyncio.get_event_loop()
     for hook in HOOKS.get(hook_point, []):
-        loop.create_task(hook(*args, **kwargs))
+        try:
+            result = hook(*args, **kwargs)
+            if asyncio.iscoroutine(result):
+                loop.create_task(result)
+        except Exception as err:
+            logger.error(f"An error occurred while executing your '{hook_point}' hook {hook}: "
+                         f"{err.__class__.__name__}: {err}")
-- 
2.43.0


From 1d05756d4044878c7bc56c52b1088cc1e9741935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:17 +0000
Subject: [PATCH 77/79] fix: a client that is stopped while it is starting does
 not go on to poll

---
 openleadr/client.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 8a14bb0..a525ff5 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -104,6 +104,7 @@ class OpenADRClient:
         self.passphrase = passphrase
         self.ca_file = ca_file
         self.allow_jitter = allow_jitter
+        self.stopped = False
 
         if cert and key:
             with open(cert, 'rb') as file:
@@ -138,6 +139,7 @@ class OpenADRClient:
         # if not hasattr(self, 'on_event'):
         #     raise NotImplementedError("You must implement on_event.")
         self.loop = asyncio.get_event_loop()
+        self.stopped = False
 
         request_id = None
         response_type, response_payload = await self.query_registration()
@@ -155,7 +157,7 @@ class OpenADRClient:
             return
 
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and not self.stopped:
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
@@ -164,6 +166,10 @@ class OpenADRClient:
         # Perform an initial poll
         await self._poll()
 
+        # We can be stopped while we are starting
+        if self.stopped:
+            return
+
         # Set up automatic polling
         self._limit_poll_frequency()
         self.poll_job = self.scheduler.add_job(self._poll,
@@ -187,8 +193,9 @@ class OpenADRClient:
         """
         Cleanly stops the client. Run this coroutine before closing your event loop.
         """
-        if self.scheduler.running:
+        if self.scheduler.running and not self.stopped:
             self.scheduler.shutdown()
+        self.stopped = True
         if self.report_queue_task:
             self.report_queue_task.cancel()
         if self.client_session:
@@ -511,7 +518,7 @@ class OpenADRClient:
             self.poll_job.reschedule(trigger='interval', seconds=self.poll_frequency.total_seconds())
 
         await self.register_reports(self.reports)
-        if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):
+        if self.reports and not self.stopped and (self.report_queue_task is None or self.report_queue_task.done()):
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
-- 
2.43.0


From aa1193559ad80f9948ff1181e1adc51a5287aa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:09 +0000
Subject: [PATCH 78/79] fix: accept certificate files with a chain or
 explanatory text

---
 openleadr/fingerprint.py |  2 +-
 openleadr/utils.py       | 23 +++++++++++++++++------
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/openleadr/fingerprint.py b/openleadr/fingerprint.py
index 8ab7c55..e60eaf1 100644
--- a/openleadr/fingerprint.py
+++ b/openleadr/fingerprint.py
@@ -8,7 +8,7 @@ def show_fingerprint():
     args = parser.parse_args()
 
     if 'certificate' in args:
-        with open(args.certificate) as file:
+        with open(args.certificate, 'rb') as file:
             cert_str = file.read()
             print(certificate_fingerprint(cert_str))
 
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 4d7258b..5c06809 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -431,21 +431,32 @@ def certificate_fingerprint(certificate_str):
     """
     Calculate the fingerprint for the given certificate, as defined by OpenADR.
     """
-    der_bytes = ssl.PEM_cert_to_DER_cert(ensure_str(certificate_str))
+    der_bytes = ssl.PEM_cert_to_DER_cert(_first_pem_certificate(certificate_str).decode('ascii'))
     return certificate_fingerprint_from_der(der_bytes)
 
 
+def _first_pem_certificate(pem_data):
+    """
+    Return the first certificate from PEM data, which can also contain explanatory
+    text and the other certificates of the chain.
+    """
+    match = re.search(b"-----BEGIN CERTIFICATE-----.*?-----END CERTIFICATE-----",
+                      ensure_bytes(pem_data), re.DOTALL)
+    if not match:
+        raise ValueError("There is no PEM-encoded certificate in the certificate data.")
+    return match.group()
+
+
 def certificate_domain(cert):
     from cryptography import x509
     from cryptography.hazmat.backends import default_backend
 
-
     if os.path.exists(cert):
-        with open(cert) as file:
+        with open(cert, 'rb') as file:
             cert = file.read()
-    elif cert.startswith(b"-----BEGIN CERTIFICATE-----"):
-        pass
-    else:
+    try:
+        cert = _first_pem_certificate(cert)
+    except ValueError:
         raise ValueError("Could not read certificate when attempting "
                          "to determine the domain for it. Certificate "
                          "should be a file or a PEM-encoded string.")
-- 
2.43.0


From be7fbf703efda28b3c0897e424b6a2963eeda370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:19 +0000
Subject: [PATCH 79/79] fix: refuse events that can not be sent when they are
 added, not with every poll

---
 openleadr/server.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index f45c97a..8f2ac3c 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -17,6 +17,7 @@
 from aiohttp import web
 from openleadr.service import EventService, PollService, RegistrationService, ReportService
 from openleadr.messaging import create_message
+from openleadr.preflight import preflight_message
 from openleadr import objects, enums, utils
 from copy import deepcopy
 from functools import partial
@@ -297,10 +298,6 @@ class OpenADRServer:
         event = deepcopy(event)
 
         event_id = utils.getmember(event, 'event_descriptor.event_id')
-        # Create the event queue if it does not exist yet
-        if ven_id not in self.events:
-            self.events[ven_id] = []
-
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
             utils.setmember(event, 'event_descriptor.event_status', 'far')
@@ -312,7 +309,13 @@ class OpenADRServer:
         if not utils.getmember(event, 'event_descriptor.priority', None):
             utils.setmember(event, 'event_descriptor.priority', 0)
 
+        # Refuse an event that can not be sent, and use the duration that the VEN will be told
+        checked_event = preflight_message('oadrDistributeEvent', {'events': [deepcopy(event)]})['events'][0]
+        utils.setmember(event, 'active_period.duration', checked_event['active_period']['duration'])
+
         # Add event to the queue
+        if ven_id not in self.events:
+            self.events[ven_id] = []
         self.events[ven_id].append(event)
         self.events_updated[ven_id] = True
 
-- 
2.43.0

