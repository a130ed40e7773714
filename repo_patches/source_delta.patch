From 6eaa818d62b8b817d9bb9599527d8103857156ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 01/64] fix: do not lose event changes that are made while a
 poll is being answered

---
 openleadr/service/poll_service.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 20b7341..a8fc940 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -120,8 +120,14 @@ class PollService(VTNService):
             result = self.on_poll(ven_id=payload['ven_id'])
         elif self.events_updated.get(payload['ven_id']):
             # Send a oadrDistributeEvent whenever the events were updated
-            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            # Clear the marker before we collect the events, so that a change that is made while we
+            # wait for the delivery callbacks leads to a new oadrDistributeEvent.
             self.events_updated[payload['ven_id']] = False
+            try:
+                result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            except Exception:
+                self.events_updated[payload['ven_id']] = True
+                raise
         else:
             return 'oadrResponse', {}
 
-- 
2.43.0


From 91ae580828c8138a1770e96e80b400ae45237ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 02/64] fix: communicate the completion of a VEN's only event

---
 openleadr/service/event_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 23eae14..cf4f7e0 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -41,7 +41,7 @@ class EventService(VTNService):
         ven_id = payload['ven_id']
         if self.polling_method == 'internal':
             if ven_id in self.events and self.events[ven_id]:
-                events = utils.order_events(self.events[ven_id])
+                events = utils.order_events(list(self.events[ven_id]))
                 for event in events:
                     event_status = utils.getmember(event, 'event_descriptor.event_status')
                     # Pop the event from the events so that this is the last time it is communicated
-- 
2.43.0


From 1b3faa5d5f31d534899bce46520e993a66f9f8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 03/64] fix: accept responses to completed events, and reject
 those of VENs without events with 452

---
 openleadr/service/event_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index cf4f7e0..a62e31e 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -94,7 +94,7 @@ class EventService(VTNService):
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
-                event = utils.find_by(self.events[ven_id],
+                event = utils.find_by(self.events.get(ven_id, []),
                                       'event_descriptor.event_id', event_id,
                                       'event_descriptor.modification_number', modification_number)
                 if not event:
@@ -103,8 +103,8 @@ class EventService(VTNService):
                                        f"""for event '{event_id}' with modification number """
                                        f"""{modification_number} that does not exist.""")
                         raise errors.InvalidIdError
-                # Remove the event from the events list if the cancellation is confirmed.
-                if utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                elif utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                    # Remove the event from the events list if the cancellation is confirmed.
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
                 if event_response['event_id'] in self.event_callbacks:
                     event, callback = self.event_callbacks.pop(event_id)
-- 
2.43.0


From d9e1766a496f0156552963bbbac18e978851c117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 04/64] fix: keep the callbacks of equally named events for
 different VENs apart

---
 openleadr/server.py                | 4 ++--
 openleadr/service/event_service.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 12de1cb..288be50 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -311,9 +311,9 @@ class OpenADRServer:
 
         # Add the callback for the response to this event
         if callback is not None:
-            self.event_callbacks[event_id] = (event, callback)
+            self.event_callbacks[(ven_id, event_id)] = (event, callback)
         if delivery_callback is not None:
-            self.event_delivery_callbacks[event_id] = delivery_callback
+            self.event_delivery_callbacks[(ven_id, event_id)] = delivery_callback
         return event_id
 
     def cancel_event(self, ven_id, event_id):
diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index a62e31e..9f47bd5 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -68,8 +68,8 @@ class EventService(VTNService):
             # Fire the delivery callbacks, if any
             for event in events:
                 event_id = utils.getmember(event, 'event_descriptor.event_id')
-                if event_id in self.event_delivery_callbacks:
-                    await utils.await_if_required(self.event_delivery_callbacks[event_id]())
+                if (ven_id, event_id) in self.event_delivery_callbacks:
+                    await utils.await_if_required(self.event_delivery_callbacks[(ven_id, event_id)]())
             return 'oadrDistributeEvent', {'events': events}
         return 'oadrResponse', result
 
@@ -106,8 +106,8 @@ class EventService(VTNService):
                 elif utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     # Remove the event from the events list if the cancellation is confirmed.
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
-                if event_response['event_id'] in self.event_callbacks:
-                    event, callback = self.event_callbacks.pop(event_id)
+                if (ven_id, event_id) in self.event_callbacks:
+                    event, callback = self.event_callbacks.pop((ven_id, event_id))
                     if isinstance(callback, asyncio.Future):
                         if callback.done():
                             logger.warning(f"Got a second response '{opt_type}' from ven '{ven_id}' "
-- 
2.43.0


From e0b72dc94c9af48e188860ddb3a3781983657f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:01 +0000
Subject: [PATCH 05/64] fix: order active events by priority before start time,
 as documented

---
 openleadr/utils.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2cf4c31..e56c822 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -825,11 +825,8 @@ def order_events(events, limit=None, offset=None):
     other_events = [event for event in events
                     if getmember(event, 'event_descriptor.event_status') != 'active']
 
-    # Sort the active events by priority
-    active_events.sort(key=lambda e: event_priority(e))
-
-    # Sort the active events by start date
-    active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
+    # Sort the active events by priority, and by start date within the same priority
+    active_events.sort(key=lambda e: (event_priority(e), getmember(e, 'active_period.dtstart')))
 
     # Sort the non-active events by their start date
     other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
-- 
2.43.0


From 2ff26e04a238756ee1c2cec217ccacbec617bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 06/64] fix: respond to each event individually, also when it
 is received again after it ended

---
 openleadr/client.py | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 78380a4..70f6d6f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1156,28 +1156,31 @@ class OpenADRClient:
                 modification_number = event['event_descriptor']['modification_number']
                 logger.info("The VEN received an event with event_id: %s, status: %s, modification_number: %s", event_id, event_status, modification_number) # change to debug
                 received_event = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)
-                if received_event:
-                    if received_event['event_descriptor']['modification_number'] == modification_number:
-                        # Re-submit the same opt type as we already had previously
-                        result = self.responded_events[event_id]
+                try:
+                    if received_event:
+                        if received_event['event_descriptor']['modification_number'] == modification_number:
+                            # Re-submit the same opt type as we already had previously
+                            result = self.responded_events[event_id]
+                        else:
+                            # Replace the event with the fresh copy
+                            utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                            self.received_events.append(event)
+                            # Wait for the result of the on_update_event handler
+                            result = await utils.await_if_required(self.on_update_event(event))
                     else:
-                        # Replace the event with the fresh copy
-                        utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                        # Wait for the result of the on_event
                         self.received_events.append(event)
-                        # Wait for the result of the on_update_event handler
-                        result = await utils.await_if_required(self.on_update_event(event))
-                else:
-                    # Wait for the result of the on_event
-                    self.received_events.append(event)
-                    result = self.on_event(event)
-                if asyncio.iscoroutine(result):
-                    result = await result
+                        result = self.on_event(event)
+                    if asyncio.iscoroutine(result):
+                        result = await result
+                except Exception as err:
+                    # An error with one event should not affect the other events in this message
+                    logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
+                                 f"The error was {err.__class__.__name__}: {str(err)}")
+                    result = 'optOut'
                 results.append(result)
-                if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED) \
-                        and event_id in self.responded_events:
-                    self.responded_events.pop(event_id)
-                else:
-                    self.responded_events[event_id] = result
+                # We may receive this version of the event again until the clean-up forgets about it
+                self.responded_events[event_id] = result
             for i, result in enumerate(results):
                 if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':
                     logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
@@ -1258,6 +1261,7 @@ class OpenADRClient:
                     utils.determine_event_status(event['active_period']) == 'completed':
                 logger.info(f"Removing event {event} because it is no longer relevant.")
                 self.received_events.pop(i)
+                self.responded_events.pop(event['event_descriptor']['event_id'], None)
 
     async def _poll(self):
         logger.debug("Now polling for new messages")
-- 
2.43.0


From 6563800968875b1a88f8f775f8670db700a97114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 07/64] fix: do not mix up the data points of different report
 requests

---
 openleadr/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 70f6d6f..77e55d9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -723,10 +723,10 @@ class OpenADRClient:
         """
         service = 'EiReport'
         response_code = 200
-        single = False
-        requested_r_ids = []
 
         for report_request in response_payload['report_requests']:
+            single = False
+            requested_r_ids = []
             r_id = report_request['report_specifier']['specifier_payloads'][0]['r_id']
             if 'INVALID' in report_request['report_specifier']['report_specifier_id'] or (isinstance(r_id, str) and 'INVALID' in r_id):
                 logger.error("The VTN requested an invalid report. Will respond with an error.")
-- 
2.43.0


From 091df70bd7fd3c8e63aaab4afc9155a60bca1417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 08/64] fix: send a report whose samples complete it at once or
 exceed its size

---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 77e55d9..79bb77b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -919,9 +919,10 @@ class OpenADRClient:
             report_interval = report_back_duration.total_seconds()
             sampling_interval = granularity.total_seconds()
             expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)
-            if len(outgoing_report.intervals) == expected_len:
+            if len(outgoing_report.intervals) >= expected_len:
                 logger.info("The report is now complete with all the values. Will queue for sending.")
-                await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
+                self.incomplete_reports.pop(report_request_id, None)
+                await self.pending_reports.put(outgoing_report)
             else:
                 logger.debug("The report is not yet complete, will hold until it is.")
                 self.incomplete_reports[report_request_id] = outgoing_report
-- 
2.43.0


From b725f96e380a29ad4362de80b5fdd1d0891a7958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 09/64] fix: handle a report cancellation inside
 oadrUpdatedReport

---
 openleadr/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 79bb77b..877b345 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -986,8 +986,7 @@ class OpenADRClient:
                                                request_id=utils.generate_id(),
                                                reports=[report])
                 try:
-                    # response_type, response_payload = await self._perform_request(service, message)
-                    response_payload = await self._perform_request(service, message)
+                    response_type, response_payload = await self._perform_request(service, message)
                 except Exception as err:
                     logger.error(f"Unable to send the report to the VTN. Error: {err}")
                 else:
-- 
2.43.0


From f518d530dbec7d4170475dded5e1d88c629016bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:34 +0000
Subject: [PATCH 10/64] fix: treat an empty HTTP response like any other
 missing response

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 877b345..50f181e 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1105,7 +1105,7 @@ class OpenADRClient:
             logger.error(f"Request error {err.__class__.__name__}:{err}")
             return None, {}
         if len(content) == 0:
-            return None
+            return None, {}
         try:
             await self._execute_hooks('before_schema_validation', utils.ensure_str(content))
             tree = validate_xml_schema(content)
-- 
2.43.0


From fec6fe8a4098550b6a27dd86259145336e14577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 11/64] fix: accept a signature only if it covers the message
 and its replay protection

---
 openleadr/messaging.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 5663fe1..b5ea353 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -18,6 +18,7 @@ from lxml import etree
 import xmltodict
 from jinja2 import Environment, PackageLoader
 from signxml import XMLSigner, XMLVerifier, methods
+from signxml.exceptions import InvalidSignature
 from uuid import uuid4
 from lxml.etree import Element
 from openleadr import errors
@@ -109,8 +110,19 @@ def validate_xml_signature(xml_tree, cert_fingerprint=None):
             raise errors.FingerprintMismatch("The certificate fingerprint was incorrect. "
                                              f"Expected: {cert_fingerprint}; "
                                              f"Received: {fingerprint}. Ignoring message.")
-    VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
-    _verify_replay_protect(xml_tree)
+    results = VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
+
+    # Only rely on the elements that are covered by the signature. The Ids that the signature refers
+    # to are unique within the message, so the Id identifies the element that was signed.
+    signed_elements = [result.signed_xml for result in results if result.signed_xml is not None]
+    oadr = "{http://openadr.org/oadr-2.0b/2012/07}"
+    signed_object_id = xml_tree.find(f"{oadr}oadrSignedObject").get(f"{oadr}Id")
+    if not any(element.tag == f"{oadr}oadrSignedObject" and element.get(f"{oadr}Id") == signed_object_id
+               for element in signed_elements):
+        raise InvalidSignature("The signature in the message does not cover the oadrSignedObject.")
+    ns = "{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}"
+    _verify_replay_protect(next((element for element in signed_elements
+                                 if element.find(f".//{ns}ReplayProtect") is not None), None))
 
 
 def validate_xml_signature_none(xml_tree):
-- 
2.43.0


From 3ddb3ecaf68c77f1b4d10c75b734895db3ec4ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 12/64] fix: do not skip the authentication of messages without
 a venID

---
 openleadr/service/vtn_service.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a96689f..7c7b306 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -78,6 +78,13 @@ class VTNService:
                 if result is None or result.get('registration_id', None) is None:
                     raise errors.RequestReregistration(message_payload['ven_id'])
 
+            # On a secure connection, only registration messages may omit the venID, since we cannot
+            # authenticate the message without it.
+            if request.secure and message_payload.get('ven_id') is None \
+                    and message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \
+                    and (hasattr(self, 'fingerprint_lookup') or hasattr(self, 'ven_lookup')):
+                raise errors.NotRegisteredOrAuthorizedError("Your message must contain your venID.")
+
             # Authenticate the message
             if request.secure and 'ven_id' in message_payload:
                 if hasattr(self, 'fingerprint_lookup'):
-- 
2.43.0


From 49f7e0bb93d8b840ebbe60ef85de01dd1c5ae97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 13/64] fix: distribute a list of events that is returned by
 on_poll

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index a8fc940..fbc971f 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -138,7 +138,7 @@ class PollService(VTNService):
         if isinstance(result, tuple):
             return result
         if isinstance(result, list):
-            return 'oadrDistributeEvent', result
+            return 'oadrDistributeEvent', {'events': result}
         if isinstance(result, dict) and 'event_descriptor' in result:
             return 'oadrDistributeEvent', {'events': [result]}
         if isinstance(result, objects.Event):
-- 
2.43.0


From e66f39e954abea920ae7e93da8c874f21f5bae4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 14/64] fix: do not modify the payload that was returned by a
 handler

---
 openleadr/service/vtn_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 7c7b306..dead07a 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -183,6 +183,9 @@ class VTNService:
                     response_payload = asdict(response_payload)
                 elif response_payload is None:
                     response_payload = {}
+                else:
+                    # We will add to the payload, but the original belongs to the handler
+                    response_payload = dict(response_payload)
             else:
                 response_type, response_payload = 'oadrResponse', {}
 
-- 
2.43.0


From 9db33067271bdb168e841d0ded43012f739f93ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 15/64] fix: escape special characters in messages

---
 openleadr/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index b5ea353..6516991 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -228,7 +228,7 @@ REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
 
 # Settings for jinja2
-TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'))
+TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoescape=True)
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
-- 
2.43.0


From b5817946819af09cdf20e2957af54d2881e4642b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 16/64] fix: accept oadrCreatedReport for reports that were
 requested in an oadrPoll response

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 17e1084..a686678 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -284,7 +284,7 @@ class ReportService(VTNService):
                 self.created_reports[ven_id].append(pending_report['report_request_id'])
 
         # Check if all requested reports were created
-        for requested_report in self.requested_reports[ven_id]:
+        for requested_report in self.requested_reports.get(ven_id, []):
             if requested_report.report_request_id not in self.created_reports[ven_id]:
                 logger.warning(f"The requested report with id {requested_report.report_request_id} "
                                "was not created by the VEN. Yoy may want to contact the VEN to "
-- 
2.43.0


From 7de1202f363a8f9404e11f42ef987f8163506e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 17/64] fix: do not keep the previous report jobs running after
 a re-registration

---
 openleadr/client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 50f181e..b1d0fa7 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -493,7 +493,7 @@ class OpenADRClient:
             return
 
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
@@ -710,6 +710,14 @@ class OpenADRClient:
         message = self._create_message('oadrRegisterReport', **payload)
         response_type, response_payload = await self._perform_request(service, message)
 
+        # The new registration of our reports replaces the subscriptions from any earlier one.
+        if response_type == 'oadrRegisteredReport':
+            for report_request in self.report_requests:
+                if report_request['job']:
+                    report_request['job'].remove()
+            self.report_requests.clear()
+            self.incomplete_reports.clear()
+
         # Handle the subscriptions that the VTN is interested in.
         if 'report_requests' in response_payload:
             await self.create_report(response_payload)
-- 
2.43.0


From f98bb890602857f434c981798095fe01f2a3fe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:51 +0000
Subject: [PATCH 18/64] fix: answer a rejected oadrRequestEvent with a valid
 message

---
 openleadr/service/vtn_service.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index dead07a..5a059aa 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -217,4 +217,8 @@ class VTNService:
             response_type = 'oadrResponse'
         response_payload = {'response': {'response_code': error_code,
                                          'response_description': error_description}}
+        if response_type == 'oadrDistributeEvent':
+            response_payload.update({'request_id': utils.generate_id(),
+                                     'vtn_id': self.vtn_id,
+                                     'events': []})
         return response_type, response_payload
-- 
2.43.0


From 7081de4f803343f01b0c5d101d75cf9d38e44116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:49 +0000
Subject: [PATCH 19/64] fix: keep the ramp-up, notification and recovery
 periods of an event

---
 openleadr/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 288be50..1a889f2 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -297,7 +297,7 @@ class OpenADRServer:
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
             utils.setmember(event, 'event_descriptor.event_status', 'far')
-        if not utils.getmember(event, 'event_descriptor.active_period', None):
+        if not utils.getmember(event, 'active_period', None):
             active_period = utils.get_active_period_from_intervals(
                 [utils.get_active_period_from_intervals(utils.getmember(signal, 'intervals'), False) for signal in utils.getmember(event, 'event_signals')]
             )
-- 
2.43.0


From 63eb6d49f293f9b6b56f213e67877959b7c2b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:53 +0000
Subject: [PATCH 20/64] fix: do not register again when the registration was
 cancelled during a poll

---
 openleadr/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index b1d0fa7..3b8e1c9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1277,7 +1277,11 @@ class OpenADRClient:
         if response_type is None:
             return
 
-        elif response_type == 'oadrResponse':
+        if self.registration_id is None:
+            logger.info("The registration was cancelled while we were polling, ignoring the response.")
+            return
+
+        if response_type == 'oadrResponse':
             logger.debug("Received empty response from the VTN.")
             return
 
-- 
2.43.0


From 86ca8021f6066b030b1acca719ba681e47f9dc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 21/64] fix: do not start polling when the registration was
 cancelled by the initial poll

---
 openleadr/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 3b8e1c9..55d875e 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -162,6 +162,10 @@ class OpenADRClient:
         # Perform an initial poll
         await self._poll()
 
+        if not self.registration_id:
+            logger.info("The registration was cancelled while starting up, not starting to poll.")
+            return
+
         # Set up automatic polling
         if self.poll_frequency > timedelta(hours=24):
             logger.warning("Polling with intervals of more than 24 hours is not supported. "
-- 
2.43.0


From 0283d808032785eb815038f0167ce13a2b87b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:37 +0000
Subject: [PATCH 22/64] fix: collect full reports at the reporting interval, as
 documented

---
 openleadr/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 55d875e..8b85196 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -812,7 +812,11 @@ class OpenADRClient:
                     if not single and report_back_duration.total_seconds() > 0:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
+                        # Full reports are collected once per reporting interval,
+                        # incremental reports at each sampling interval.
                         reporting_interval = granularity or report_back_duration
+                        if report.data_collection_mode == 'full':
+                            reporting_interval = max(reporting_interval, report_back_duration)
                         job = self.scheduler.add_job(func=callback,
                                                     trigger='cron',
                                                     **utils.cron_config(reporting_interval))
-- 
2.43.0


From 09fa43ef1ee68961cfdb4806012ba9eda78e5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:37 +0000
Subject: [PATCH 23/64] fix: do not send empty reports for a request without
 valid data points

---
 openleadr/client.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 8b85196..f7fca6b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -809,7 +809,15 @@ class OpenADRClient:
 
                         requested_r_ids.append(r_id)
 
-                    if not single and report_back_duration.total_seconds() > 0:
+                    if not requested_r_ids:
+                        # There is nothing to report, so nothing needs to be sampled or sent
+                        self.report_requests.append({'report_request_id': report_request_id,
+                                                    'report_specifier_id': report_specifier_id,
+                                                    'report_back_duration': report_back_duration,
+                                                    'r_ids': requested_r_ids,
+                                                    'granularity': granularity,
+                                                    'job': None})
+                    elif not single and report_back_duration.total_seconds() > 0:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
                         # Full reports are collected once per reporting interval,
-- 
2.43.0


From 30dfb0a3d52354fa38e3eb5870a14fba515cccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:37 +0000
Subject: [PATCH 24/64] fix: confirm report requests also when collecting a
 single report fails

---
 openleadr/client.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index f7fca6b..179d9ea 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -848,7 +848,12 @@ class OpenADRClient:
                         if 'report_interval' in report_request['report_specifier']:
                             self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
                         else:
-                            await self.update_report(report_request_id)
+                            try:
+                                await self.update_report(report_request_id)
+                            except Exception as err:
+                                # The other requests in this message still need to be set up and confirmed
+                                logger.error(f"Unable to create the report with report_request_id {report_request_id}: "
+                                             f"{err.__class__.__name__}: {err}")
         
         # Send the oadrCreatedReport message
         message_type = 'oadrCreatedReport'
-- 
2.43.0


From 1aeaf88645a36168cb98ccbf92e30cc6eb2d30fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:29 +0000
Subject: [PATCH 25/64] fix: complete the cancellation of a report when
 collecting it one last time fails

---
 openleadr/client.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 179d9ea..1522aa1 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -969,7 +969,11 @@ class OpenADRClient:
             if len(report_request['r_ids']) > 0:
                 # Update the report one last time before cancelling
                 logging.info(f"Updating one last time report with report_request_id {report_request_id}")
-                await self.update_report(report_request_id)
+                try:
+                    await self.update_report(report_request_id)
+                except Exception as err:
+                    logger.error(f"Unable to update report with report_request_id {report_request_id} one last time: "
+                                 f"{err.__class__.__name__}: {err}")
                 # Wait for the report to be sent
                 await asyncio.sleep(1)
             if report_request['job']:
@@ -989,7 +993,11 @@ class OpenADRClient:
                                             ven_id=self.ven_id,
                                             report_request_id=report_request_id,
                                             **message_payload)
-                await self.update_report(report_request_id)
+                try:
+                    await self.update_report(report_request_id)
+                except Exception as err:
+                    logger.error(f"Unable to update report with report_request_id {report_request_id} one last time: "
+                                 f"{err.__class__.__name__}: {err}")
             else:
                 logger.info(f"Report with report_request_id {report_request_id} will not be followed by a new report.")
                 # Send simple oadrCanceledReport message
@@ -998,6 +1006,7 @@ class OpenADRClient:
                                             ven_id=self.ven_id,
                                             report_request_id=report_request_id)
             self.report_requests.remove(report_request)
+            self.incomplete_reports.pop(report_request_id, None)
             await self._perform_request(service, message)
         else:
             logger.error(f"Report with report_request_id {report_request_id} was not found.")
-- 
2.43.0


From cd5204365743524b4b1b86ac5187ba849ee9c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:29 +0000
Subject: [PATCH 26/64] fix: keep sending reports when a cancellation inside
 oadrUpdatedReport fails

---
 openleadr/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 1522aa1..9fdf337 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1029,7 +1029,10 @@ class OpenADRClient:
                     logger.error(f"Unable to send the report to the VTN. Error: {err}")
                 else:
                     if 'cancel_report' in response_payload:
-                        await self.cancel_report(response_payload['cancel_report'])
+                        try:
+                            await self.cancel_report(response_payload['cancel_report'])
+                        except Exception as err:
+                            logger.error(f"Unable to cancel the report. Error: {err}")
         except asyncio.CancelledError:
             return
 
-- 
2.43.0


From 4ab2b0634f9a705a8b525e0f95d412d4a978a760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:56 +0000
Subject: [PATCH 27/64] fix: do not send report values twice when a
 cancellation overlaps a sampling

---
 openleadr/client.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 9fdf337..049f6da 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -886,17 +886,9 @@ class OpenADRClient:
         report = utils.find_by(self.reports, 'report_specifier_id', report_specifier_id)
         data_collection_mode = report.data_collection_mode
 
-        if report_request_id in self.incomplete_reports:
-            logger.debug("We were already compiling this report")
-            outgoing_report = self.incomplete_reports[report_request_id]
-        else:
-            logger.debug("There is no report in progress")
-            outgoing_report = objects.Report(report_request_id=report_request_id,
-                                             report_specifier_id=report.report_specifier_id,
-                                             report_name=report.report_name if 'METADATA' not in report.report_name else report.report_name.replace('METADATA_', ''),
-                                             intervals=[])
+        report_name = report.report_name.replace('METADATA_', '')
 
-        intervals = outgoing_report.intervals or []
+        intervals = []
         if data_collection_mode == 'full':
             if report_back_duration is None:
                 report_back_duration = granularity
@@ -926,7 +918,7 @@ class OpenADRClient:
                     for dt, value in result:
                         logger.info(f"Adding {dt}, {value} to report")
                         report_payload = objects.ReportPayload(r_id=r_id, value=value)
-                        if outgoing_report.report_name == enums.REPORT_NAME.TELEMETRY_USAGE and report_back_duration.total_seconds() == 0:
+                        if report_name == enums.REPORT_NAME.TELEMETRY_USAGE and report_back_duration.total_seconds() == 0:
                             intervals.append(objects.ReportInterval(dtstart=dt,
                                                                     report_payload=report_payload,
                                                                     duration=granularity))
@@ -935,7 +927,19 @@ class OpenADRClient:
                                                                     report_payload=report_payload))
                 except KeyError:
                     logger.error(f"No callback found for r_id {r_id} in report with report_specifier_id {report_specifier_id}")
-        outgoing_report.intervals = intervals
+
+        # Only now look for the report in progress: while we were collecting the values, another
+        # update (for a cancellation) may have completed it.
+        if report_request_id in self.incomplete_reports:
+            logger.debug("We were already compiling this report")
+            outgoing_report = self.incomplete_reports[report_request_id]
+        else:
+            logger.debug("There is no report in progress")
+            outgoing_report = objects.Report(report_request_id=report_request_id,
+                                             report_specifier_id=report.report_specifier_id,
+                                             report_name=report_name,
+                                             intervals=[])
+        outgoing_report.intervals.extend(intervals)
         logger.info(f"The number of intervals in the report is now {len(outgoing_report.intervals)}")
 
         # Always set the dtstart of the report to the earliest datetime of any of the intervals
-- 
2.43.0


From b06c88aed432eafefca360cff298e7f42594a4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 28/64] fix: do not share the scale of a measurement between
 reports

---
 openleadr/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 049f6da..3a3fef9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -19,7 +19,7 @@ import inspect
 import logging
 import ssl
 from datetime import datetime, timedelta, timezone
-from dataclasses import asdict
+from dataclasses import asdict, replace
 from functools import partial
 from http import HTTPStatus
 
@@ -315,7 +315,7 @@ class OpenADRClient:
                                             scale=measurement.get('scale'),
                                             power_attributes=power_attributes)
         elif measurement.upper() in enums.MEASUREMENTS.members:
-            item_base = enums.MEASUREMENTS[measurement.upper()]
+            item_base = replace(enums.MEASUREMENTS[measurement.upper()])
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
-- 
2.43.0


From e977911336c3877ba80ee8ce50541eafd13d28f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 29/64] fix: accept a measurement dict in add_report

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 3a3fef9..ec14e98 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -308,7 +308,9 @@ class OpenADRClient:
             item_base = measurement
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
-            power_attributes = object.PowerAttributes(**measurement.get('power_attributes')) or None
+            power_attributes = measurement.get('power_attributes')
+            if isinstance(power_attributes, dict):
+                power_attributes = objects.PowerAttributes(**power_attributes)
             item_base = objects.Measurement(name=measurement['name'],
                                             description=measurement['description'],
                                             unit=measurement['unit'],
-- 
2.43.0


From 8633ffa59c756de9ac6bcd587599974e39f7f554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 30/64] fix: request a report also if its handler did not want
 the first data point

---
 openleadr/service/report_service.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index a686678..4a49763 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -158,12 +158,16 @@ class ReportService(VTNService):
             report_requests.append(results)
         utils.validate_report_request_tuples(report_requests, mode=mode)
 
+        # Leave out the data points that were not (validly) requested
+        report_requests = [[rrq for rrq in report_request if rrq is not None] if report_request is not None else None
+                           for report_request in report_requests]
+
         for i, report_request in enumerate(report_requests):
-            if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):
+            if not report_request:
                 continue
             # Check if all sampling rates per report_request are the same
-            sampling_interval = min(rrq[2] for rrq in report_request if isinstance(rrq, tuple))
-            if not all(rrq is not None and report_request[0][2] == sampling_interval for rrq in report_request):
+            sampling_interval = min(rrq[2] for rrq in report_request)
+            if not all(rrq[2] == sampling_interval for rrq in report_request):
                 logger.error("OpenADR does not support multiple different sampling rates per "
                              "report. OpenLEADR will set all sampling rates to "
                              f"{sampling_interval}")
@@ -171,7 +175,7 @@ class ReportService(VTNService):
         # Form the report request
         oadr_report_requests = []
         for i, report_request in enumerate(report_requests):
-            if report_request is None or len(report_request) == 0 or all(rrq is None for rrq in report_request):
+            if not report_request:
                 continue
 
             orig_report = payload['reports'][i]
-- 
2.43.0


From 92895c08553ea766f263e20f05f3ef626fc8c687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 31/64] fix: request the smallest of the sampling intervals, as
 logged

---
 openleadr/service/report_service.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 4a49763..8dfb2ec 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -182,12 +182,13 @@ class ReportService(VTNService):
             report_specifier_id = orig_report['report_specifier_id']
             report_request_id = utils.generate_id()
             specifier_payloads = []
+            sampling_interval = min(rrq[2] for rrq in report_request)
             for rrq in report_request:
                 if len(rrq) == 3:
-                    r_id, callback, sampling_interval = rrq
+                    r_id, callback, _ = rrq
                     report_interval = sampling_interval
                 elif len(rrq) == 4:
-                    r_id, callback, sampling_interval, report_interval = rrq
+                    r_id, callback, _, report_interval = rrq
 
                 report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)
                 reading_type = report_description['reading_type']
-- 
2.43.0


From 8761ca8149a6bbac66ff88a1b287ffb8c19fb047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:40 +0000
Subject: [PATCH 32/64] fix: accept an oadrUpdateReport without reports or
 without intervals

---
 openleadr/service/report_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 8dfb2ec..799f276 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -233,14 +233,14 @@ class ReportService(VTNService):
         """
         Handle a report that we received from the VEN.
         """
-        for report in payload['reports']:
+        for report in payload.get('reports') or []:
             report_request_id = report['report_request_id']
             if not self.report_callbacks:
                 result = self.on_update_report(report)
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report['intervals'], 'report_payload.r_id').items():
+            for r_id, values in utils.group_by(report.get('intervals') or [], 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
-- 
2.43.0


From b05bfa406fbc05254d51c8975da8170fe7b38d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 33/64] fix: replace a report request when it is received again

---
 openleadr/client.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index ec14e98..3e552ae 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -721,6 +721,7 @@ class OpenADRClient:
             for report_request in self.report_requests:
                 if report_request['job']:
                     report_request['job'].remove()
+                    report_request['job'] = None
             self.report_requests.clear()
             self.incomplete_reports.clear()
 
@@ -752,6 +753,15 @@ class OpenADRClient:
                 report_back_duration = report_request['report_specifier'].get('report_back_duration')
                 granularity = report_request['report_specifier']['granularity']
 
+                # A request with a known report_request_id replaces the earlier one
+                previous_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
+                if previous_request:
+                    if previous_request['job']:
+                        previous_request['job'].remove()
+                        previous_request['job'] = None
+                    self.report_requests.remove(previous_request)
+                    self.incomplete_reports.pop(report_request_id, None)
+
                 # Check if this report actually exists
                 report = utils.find_by(self.reports, 'report_specifier_id', report_specifier_id)
                 if not report:
@@ -984,6 +994,7 @@ class OpenADRClient:
                 await asyncio.sleep(1)
             if report_request['job']:
                 report_request['job'].remove()
+                report_request['job'] = None
             logger.info(f"Report with report_request_id {report_request_id} has been cancelled.")
             service = 'EiReport'
             message_type = 'oadrCanceledReport'
@@ -1011,8 +1022,9 @@ class OpenADRClient:
                                             response=response,
                                             ven_id=self.ven_id,
                                             report_request_id=report_request_id)
-            self.report_requests.remove(report_request)
-            self.incomplete_reports.pop(report_request_id, None)
+            if report_request in self.report_requests:
+                self.report_requests.remove(report_request)
+                self.incomplete_reports.pop(report_request_id, None)
             await self._perform_request(service, message)
         else:
             logger.error(f"Report with report_request_id {report_request_id} was not found.")
-- 
2.43.0


From ad03bd79197eacbf82a5ec6a1636495cb885fa95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:03 +0000
Subject: [PATCH 34/64] fix: do not let a VEN deliver report data for a report
 requested from another VEN

---
 openleadr/service/report_service.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 799f276..dc97084 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -69,6 +69,7 @@ class ReportService(VTNService):
         self.registered_reports = {}
         self.requested_reports = {}
         self.created_reports = {}
+        self.report_request_vens = {}
 
     @handler('oadrRegisterReport')
     async def register_report(self, payload):
@@ -181,6 +182,7 @@ class ReportService(VTNService):
             orig_report = payload['reports'][i]
             report_specifier_id = orig_report['report_specifier_id']
             report_request_id = utils.generate_id()
+            self.report_request_vens[report_request_id] = payload['ven_id']
             specifier_payloads = []
             sampling_interval = min(rrq[2] for rrq in report_request)
             for rrq in report_request:
@@ -240,6 +242,10 @@ class ReportService(VTNService):
                 if iscoroutine(result):
                     result = await result
                 continue
+            if self.report_request_vens.get(report_request_id) != payload.get('ven_id'):
+                logger.warning(f"VEN {payload.get('ven_id')} sent a report with reportRequestID {report_request_id}, "
+                               "but this report was not requested from that VEN. Ignoring this report.")
+                continue
             for r_id, values in utils.group_by(report.get('intervals') or [], 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
-- 
2.43.0


From d2ad884417961edb251b1c4742c0b46366343bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:02 +0000
Subject: [PATCH 35/64] fix: refuse an unsigned message with an OpenADR error
 instead of a server error

---
 openleadr/messaging.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 6516991..cec0a28 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -167,8 +167,13 @@ async def authenticate_message(request, message_tree, message_payload,
             raise errors.NotRegisteredOrAuthorizedError(msg)
 
         if verify_message_signature:
-            message_cert = utils.extract_pem_cert(message_tree)
-            message_fingerprint = utils.certificate_fingerprint(message_cert)
+            try:
+                message_cert = utils.extract_pem_cert(message_tree)
+                message_fingerprint = utils.certificate_fingerprint(message_cert)
+            except (AttributeError, ValueError):
+                msg = ("Your message must be signed, and the signature must contain the certificate "
+                       "of which the fingerprint matches the fingerprint that you have given to this VTN.")
+                raise errors.NotRegisteredOrAuthorizedError(msg)
             if message_fingerprint != expected_fingerprint:
                 msg = (f"The fingerprint of the certificate used to sign the message "
                        f"{message_fingerprint} did not match the fingerprint that this "
-- 
2.43.0


From a92a65a179f0aa47701f86abc047ef0a4b296742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:19 +0000
Subject: [PATCH 36/64] fix: do not put the text None in the request id of an
 oadrDistributeEvent

---
 openleadr/templates/oadrDistributeEvent.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/templates/oadrDistributeEvent.xml b/openleadr/templates/oadrDistributeEvent.xml
index e7b6e7f..b1d757b 100644
--- a/openleadr/templates/oadrDistributeEvent.xml
+++ b/openleadr/templates/oadrDistributeEvent.xml
@@ -4,7 +4,7 @@
     <ei:eiResponse>
       <ei:responseCode>{{ response.response_code }}</ei:responseCode>
       <ei:responseDescription>{{ response.response_description }}</ei:responseDescription>
-      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
+      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id or "" }}</requestID>
     </ei:eiResponse>
     {% endif %}
     <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ request_id }}</requestID>
-- 
2.43.0


From 4e4abb52d1aaea5ceed3a320459f2314248cf197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:59 +0000
Subject: [PATCH 37/64] fix: keep identifiers and texts that look like a number
 or boolean as text

---
 openleadr/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index e56c822..bae8ae3 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -95,12 +95,17 @@ def normalize_dict(ordered_dict):
             d[key] = parse_duration(value)
         elif ("date_time" in key or key == "dtstart") and isinstance(value, str):
             d[key] = parse_datetime(value)
+        elif key.endswith(("_id", "_name", "_comment", "_context", "_description")) and isinstance(value, str) \
+                and not (key.endswith("request_id") and re.match(r'^(0|[1-9]\d*)$', value)):
+            # Identifiers and texts remain text, also if they look like a number or a boolean
+            # (except for plain integer request ids, which are converted without any loss)
+            d[key] = value
         elif value in ('true', 'false'):
             d[key] = parse_boolean(value)
         elif isinstance(value, str):
             if re.match(r'^-?\d+$', value):
                 d[key] = int(value)
-            elif re.match(r'^-?[\d.]+$', value):
+            elif re.match(r'^-?(\d+\.\d*|\.\d+)$', value):
                 d[key] = float(value)
             else:
                 d[key] = value
-- 
2.43.0


From 8e2f2f134060493ee5c4dcc270a7aae0b4210440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 38/64] fix: answer a request with the wrong content type with
 400 instead of 500

---
 openleadr/service/vtn_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 5a059aa..26f22fb 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -50,9 +50,9 @@ class VTNService:
             # Check the Content-Type header
             content_type = request.headers.get('content-type', '')
             if not content_type.lower().startswith("application/xml"):
-                raise errors.HTTPError(response_code=HTTPStatus.BAD_REQUEST,
-                                       response_description="The Content-Type header must be application/xml; "
-                                                            f"you provided {request.headers.get('content-type', '')}")
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description="The Content-Type header must be application/xml; "
+                                                   f"you provided {request.headers.get('content-type', '')}")
             content = await request.read()
             hooks.call('before_parse', content)
 
-- 
2.43.0


From 82f2d4ec54b2bed300e4ec0166f4680175522d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 39/64] fix: answer messages that are too large or cannot be
 decoded with 413 or 400 instead of 500

---
 openleadr/service/vtn_service.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 26f22fb..63b6e9b 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -144,6 +144,13 @@ class VTNService:
             # If we throw a http-related error, deal with it here
             response = web.Response(text=err.response_description,
                                     status=err.response_code)
+        except web.HTTPException:
+            # Errors of aiohttp itself, for instance when the message is too large
+            raise
+        except web.RequestPayloadError as err:
+            logger.warning(f"The incoming message could not be read: {err}")
+            response = web.Response(text=f'The request could not be read: {err}',
+                                    status=HTTPStatus.BAD_REQUEST)
         except XMLSyntaxError as err:
             logger.warning(f"XML schema validation of incoming message failed: {err}.")
             response = web.Response(text=f'XML failed validation: {err}',
-- 
2.43.0


From 9b9aac5d44f6576932a7b9933f647c19175f7740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 40/64] fix: accept an oadrCreatedEvent without event responses

---
 openleadr/service/event_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 9f47bd5..d56813a 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -90,7 +90,7 @@ class EventService(VTNService):
         """
         ven_id = payload['ven_id']
         if self.polling_method == 'internal':
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
@@ -121,7 +121,7 @@ class EventService(VTNService):
                         if asyncio.iscoroutine(result):
                             result = await result
         else:
-            for event_response in payload['event_responses']:
+            for event_response in payload.get('event_responses') or []:
                 event_id = event_response['event_id']
                 opt_type = event_response['opt_type']
                 result = await utils.await_if_required(self.on_created_event(ven_id=ven_id,
-- 
2.43.0


From bd0cc1c631c92dee9128c18d7540b44cf251db29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:33 +0000
Subject: [PATCH 41/64] fix: accept oadrRegisterReport and oadrCreatedReport
 messages without optional elements

---
 openleadr/service/report_service.py | 72 +++++++++++++++++------------
 1 file changed, 42 insertions(+), 30 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index dc97084..02ebe43 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -60,6 +60,15 @@ logger = logging.getLogger('openleadr')
 # └──────────────────────────────────────────────────────────────────────────┘
 
 
+def _get(item, *keys):
+    """
+    Get an optional (nested) item of a message.
+    """
+    for key in keys:
+        item = (item or {}).get(key)
+    return item
+
+
 @service('EiReport')
 class ReportService(VTNService):
 
@@ -89,47 +98,50 @@ class ReportService(VTNService):
             # If the client does not send any reports, reply with an empty oadrRegisteredReport message.
             return 'oadrRegisteredReport', {'report_requests': []}
 
+        ven_id = payload.get('ven_id')
         for report in payload['reports']:
-            if payload['ven_id'] not in self.registered_reports:
-                self.registered_reports[payload['ven_id']] = []
+            if ven_id not in self.registered_reports:
+                self.registered_reports[ven_id] = []
 
             report_copy = report.copy()
-            report_copy['report_name'] = report_copy['report_name'][9:]
-            self.registered_reports[payload['ven_id']].append(report_copy)
+            report_copy['report_name'] = (report_copy.get('report_name') or '')[9:]
+            self.registered_reports[ven_id].append(report_copy)
 
-            if report['report_name'] == 'METADATA_TELEMETRY_STATUS':
+            report_name = report.get('report_name')
+            report_descriptions = report.get('report_descriptions') or []
+            if report_name == 'METADATA_TELEMETRY_STATUS':
                 if mode == 'compact':
-                    results = [self.on_register_report(ven_id=payload['ven_id'],
-                                                       resource_id=rd.get('report_data_source', {}).get('resource_id'),
+                    results = [self.on_register_report(ven_id=ven_id,
+                                                       resource_id=_get(rd, 'report_data_source', 'resource_id'),
                                                        measurement='Status',
                                                        unit=None,
                                                        scale=None,
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
-                               for rd in report['report_descriptions']]
+                                                       min_sampling_interval=_get(rd, 'sampling_rate', 'min_period'),
+                                                       max_sampling_interval=_get(rd, 'sampling_rate', 'max_period'))
+                               for rd in report_descriptions]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
                     results = await utils.await_if_required(self.on_register_report(report))
-            elif report['report_name'] == 'METADATA_TELEMETRY_USAGE':
+            elif report_name == 'METADATA_TELEMETRY_USAGE':
                 if mode == 'compact':
-                    results = [self.on_register_report(ven_id=payload['ven_id'],
-                                                       resource_id=rd.get('report_data_source', {}).get('resource_id'),
-                                                       measurement=rd['measurement']['description'],
-                                                       unit=rd['measurement']['unit'],
-                                                       scale=rd['measurement']['scale'],
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
-                               for rd in report['report_descriptions']]
+                    results = [self.on_register_report(ven_id=ven_id,
+                                                       resource_id=_get(rd, 'report_data_source', 'resource_id'),
+                                                       measurement=_get(rd, 'measurement', 'description'),
+                                                       unit=_get(rd, 'measurement', 'unit'),
+                                                       scale=_get(rd, 'measurement', 'scale'),
+                                                       min_sampling_interval=_get(rd, 'sampling_rate', 'min_period'),
+                                                       max_sampling_interval=_get(rd, 'sampling_rate', 'max_period'))
+                               for rd in report_descriptions]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
                     results = await utils.await_if_required(self.on_register_report(report))
-            elif report['report_name'] in ('METADATA_HISTORY_USAGE', 'METADATA_HISTORY_GREENBUTTON'):
+            elif report_name in ('METADATA_HISTORY_USAGE', 'METADATA_HISTORY_GREENBUTTON'):
                 report_requests.append(None)
                 continue
             else:
                 logger.warning("Reports other than TELEMETRY_USAGE, TELEMETRY_STATUS, "
                                "HISTORY_USAGE and HISTORY_GREENBUTTON are not yet supported. "
-                               f"Skipping report with name {report['report_name']}.")
+                               f"Skipping report with name {report_name}.")
                 report_requests.append(None)
                 continue
 
@@ -154,8 +166,8 @@ class ReportService(VTNService):
                     # If we used compact mode, prepend the r_id to each result
                     # (this is already there when using the full mode)
                     if mode == 'compact':
-                        results = [(report['report_descriptions'][i]['r_id'], *results[i])
-                                   for i in range(len(report['report_descriptions'])) if isinstance(results[i], tuple)]
+                        results = [(report_descriptions[i]['r_id'], *results[i])
+                                   for i in range(len(report_descriptions)) if isinstance(results[i], tuple)]
             report_requests.append(results)
         utils.validate_report_request_tuples(report_requests, mode=mode)
 
@@ -180,9 +192,9 @@ class ReportService(VTNService):
                 continue
 
             orig_report = payload['reports'][i]
-            report_specifier_id = orig_report['report_specifier_id']
+            report_specifier_id = orig_report.get('report_specifier_id')
             report_request_id = utils.generate_id()
-            self.report_request_vens[report_request_id] = payload['ven_id']
+            self.report_request_vens[report_request_id] = ven_id
             specifier_payloads = []
             sampling_interval = min(rrq[2] for rrq in report_request)
             for rrq in report_request:
@@ -193,7 +205,7 @@ class ReportService(VTNService):
                     r_id, callback, _, report_interval = rrq
 
                 report_description = utils.find_by(orig_report['report_descriptions'], 'r_id', r_id)
-                reading_type = report_description['reading_type']
+                reading_type = report_description.get('reading_type')
                 specifier_payloads.append(objects.SpecifierPayload(r_id=r_id,
                                                                    reading_type=reading_type))
                 # Append the callback to our list of known callbacks
@@ -214,7 +226,7 @@ class ReportService(VTNService):
         response_payload = {'report_requests': oadr_report_requests}
 
         # Store the requested reports
-        self.requested_reports[payload['ven_id']] = oadr_report_requests
+        self.requested_reports[ven_id] = oadr_report_requests
         return response_type, response_payload
 
     async def on_register_report(self, payload):
@@ -236,7 +248,7 @@ class ReportService(VTNService):
         Handle a report that we received from the VEN.
         """
         for report in payload.get('reports') or []:
-            report_request_id = report['report_request_id']
+            report_request_id = report.get('report_request_id')
             if not self.report_callbacks:
                 result = self.on_update_report(report)
                 if iscoroutine(result):
@@ -286,8 +298,8 @@ class ReportService(VTNService):
         """
         Implementation of the on_created_report handler, may be overwritten by the user.
         """
-        ven_id = payload['ven_id']
-        if payload['ven_id'] not in self.created_reports:
+        ven_id = payload.get('ven_id')
+        if ven_id not in self.created_reports:
             self.created_reports[ven_id] = []
 
         if payload.get('pending_reports'):
-- 
2.43.0


From a508d422306bf0e3282bb418e191f0d0f50f96cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:31 +0000
Subject: [PATCH 42/64] fix: answer messages with dates or durations that
 cannot be represented with 400 instead of 500

---
 openleadr/service/report_service.py | 2 +-
 openleadr/service/vtn_service.py    | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 02ebe43..95e399b 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -262,7 +262,7 @@ class ReportService(VTNService):
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
-                    values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values]
+                    values = [(ri.get('dtstart'), ri['report_payload']['value']) for ri in values]
                     # Call the callback function to deliver the values
                     result = self.report_callbacks[(report_request_id, r_id)](values)
                     if iscoroutine(result):
diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 63b6e9b..e4876d1 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -60,7 +60,12 @@ class VTNService:
             message_tree = validate_xml_schema(content)
 
             # Parse the message to a type and payload dict
-            message_type, message_payload = parse_message(content)
+            try:
+                message_type, message_payload = parse_message(content)
+            except (ValueError, OverflowError) as err:
+                # A date or duration that we can not represent
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description=f"The message could not be parsed: {err}")
 
             if message_type == 'oadrResponse':
                 raise errors.SendEmptyHTTPResponse()
-- 
2.43.0


From 302fe4a94d0a4e2462245dc0445f3848237e8ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:46 +0000
Subject: [PATCH 43/64] fix: accept report intervals that hold values for
 several data points

---
 openleadr/service/report_service.py | 13 ++++++++++---
 openleadr/utils.py                  | 14 ++++++++------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 95e399b..a623696 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -258,11 +258,18 @@ class ReportService(VTNService):
                 logger.warning(f"VEN {payload.get('ven_id')} sent a report with reportRequestID {report_request_id}, "
                                "but this report was not requested from that VEN. Ignoring this report.")
                 continue
-            for r_id, values in utils.group_by(report.get('intervals') or [], 'report_payload.r_id').items():
+            # Collect the values per data point; an interval can hold values for several data points
+            values_per_r_id = {}
+            for interval in report.get('intervals') or []:
+                report_payloads = interval.get('report_payload') or []
+                if not isinstance(report_payloads, list):
+                    report_payloads = [report_payloads]
+                for report_payload in report_payloads:
+                    values = values_per_r_id.setdefault(report_payload.get('r_id'), [])
+                    values.append((interval.get('dtstart'), report_payload.get('value')))
+            for r_id, values in values_per_r_id.items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
-                    # Collect the values
-                    values = [(ri.get('dtstart'), ri['report_payload']['value']) for ri in values]
                     # Call the callback function to deliver the values
                     result = self.report_callbacks[(report_request_id, r_id)](values)
                     if iscoroutine(result):
diff --git a/openleadr/utils.py b/openleadr/utils.py
index bae8ae3..1d00909 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -239,12 +239,14 @@ def normalize_dict(ordered_dict):
 
         # Report payloads contain an r_id and a type-wrapped payload_float
         elif key == 'report_payload':
-            if 'payload_float' in d[key] and 'value' in d[key]['payload_float']:
-                v = d[key].pop('payload_float')
-                d[key]['value'] = float(v['value'])
-            elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_float')
-                d[key]['value'] = int(v['value'])
+            # (an interval can contain report payloads for multiple r_ids)
+            for payload in d[key] if isinstance(d[key], list) else [d[key]]:
+                if 'payload_float' in payload and 'value' in payload['payload_float']:
+                    v = payload.pop('payload_float')
+                    payload['value'] = float(v['value'])
+                elif 'payload_int' in payload and 'value' in payload['payload_int']:
+                    v = payload.pop('payload_int')
+                    payload['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
         elif key == 'test_event' and not isinstance(d[key], bool):
-- 
2.43.0


From 0291f4fffd1a580edcc4acc91cf2845806be7c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:53 +0000
Subject: [PATCH 44/64] fix: read the measurement of every signal and report
 description, also after one without a measurement

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 1d00909..e66c0e7 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -194,7 +194,7 @@ def normalize_dict(ordered_dict):
                         name, item = measurement, description.pop(measurement)
                         break
                 else:
-                    break
+                    continue
                 item['description'] = item.pop('item_description', None)
                 item['unit'] = item.pop('item_units', None)
                 if 'si_scale_code' in item:
-- 
2.43.0


From ccdf45f9ab9bca9a86d7e829d2f5e657ae74ccbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:34 +0000
Subject: [PATCH 45/64] fix: do not share the scale of a measurement object
 between reports

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 3e552ae..592eb31 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -305,7 +305,7 @@ class OpenADRClient:
         if report_name == 'TELEMETRY_STATUS':
             item_base = None
         elif isinstance(measurement, objects.Measurement):
-            item_base = measurement
+            item_base = replace(measurement)
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
             power_attributes = measurement.get('power_attributes')
-- 
2.43.0


From 3de7c052d8bf13b188c58c97d0f1ebcf360d4647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:34 +0000
Subject: [PATCH 46/64] fix: keep the scale of a measurement that was given
 with its own scale

---
 openleadr/client.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 592eb31..cfe99a7 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -324,12 +324,9 @@ class OpenADRClient:
                                             unit=unit,
                                             scale=scale)
 
-        if report_name != 'TELEMETRY_STATUS' and scale is not None:
-            if item_base.scale is not None:
-                if scale in enums.SI_SCALE_CODE.values:
-                    item_base.scale = scale
-            else:
-                raise ValueError("The 'scale' argument must be one of '{'. ',join(enums.SI_SCALE_CODE.values)}")
+        # The scale of a given measurement is only replaced by an explicit scale
+        if report_name != 'TELEMETRY_STATUS' and (scale != 'none' or item_base.scale is None):
+            item_base.scale = scale
 
         # Check if unit is compatible
         if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
-- 
2.43.0


From e1cd556423c8456f7730b571caf6ba961e74df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:57 +0000
Subject: [PATCH 47/64] fix: use the unit that was given to add_report if the
 measurement allows it

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index cfe99a7..ca1d36c 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -329,7 +329,9 @@ class OpenADRClient:
             item_base.scale = scale
 
         # Check if unit is compatible
-        if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
+        if unit is not None and item_base is not None and unit in item_base.acceptable_units:
+            item_base.unit = unit
+        elif unit is not None and item_base is not None and unit != item_base.unit:
             logger.warning(f"The supplied unit {unit} for measurement {measurement} "
                            f"will be ignored, {item_base.unit} will be used instead. "
                            f"Allowed units for this measurement are: "
-- 
2.43.0


From 745a6f2ae748dd5f6bb6ea4a425fa387b5aaa9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:57 +0000
Subject: [PATCH 48/64] fix: use the power attributes that were given to
 add_report

---
 openleadr/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index ca1d36c..fa36975 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -318,6 +318,9 @@ class OpenADRClient:
                                             power_attributes=power_attributes)
         elif measurement.upper() in enums.MEASUREMENTS.members:
             item_base = replace(enums.MEASUREMENTS[measurement.upper()])
+            if item_base.power_attributes is not None:
+                item_base.power_attributes = objects.PowerAttributes(hertz=power_hertz, voltage=power_voltage,
+                                                                     ac=power_ac)
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
-- 
2.43.0


From f62bb0a6460fc8f1cb5b3763249869fc797d2002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:55 +0000
Subject: [PATCH 49/64] fix: recognise the currencyPerKW measurement

---
 openleadr/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index 2ed9f79..e003cfa 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -255,7 +255,7 @@ _MEASUREMENT_DESCRIPTIONS = {'currency': 'currency',
                              'voltage': 'Voltage'}
 
 _MEASUREMENT_NAMESPACES = {'currency': 'oadr',
-                           'currencyPerWK': 'oadr',
+                           'currencyPerKW': 'oadr',
                            'currencyPerKWh': 'oadr',
                            'currencyPerThm': 'oadr',
                            'current': 'oadr',
-- 
2.43.0


From 7fe215ad9646bed7c57d5938aead6bed736442dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:55 +0000
Subject: [PATCH 50/64] fix: keep descriptions and units of measurements that
 look like a number or boolean as text

---
 openleadr/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index e66c0e7..c999fae 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -95,7 +95,8 @@ def normalize_dict(ordered_dict):
             d[key] = parse_duration(value)
         elif ("date_time" in key or key == "dtstart") and isinstance(value, str):
             d[key] = parse_datetime(value)
-        elif key.endswith(("_id", "_name", "_comment", "_context", "_description")) and isinstance(value, str) \
+        elif (key.endswith(("_id", "_name", "_comment", "_context", "_description", "_units"))
+                or key in ("name", "description", "unit")) and isinstance(value, str) \
                 and not (key.endswith("request_id") and re.match(r'^(0|[1-9]\d*)$', value)):
             # Identifiers and texts remain text, also if they look like a number or a boolean
             # (except for plain integer request ids, which are converted without any loss)
-- 
2.43.0


From 94537a2730fd213eebe59917efc430694936448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:00 +0000
Subject: [PATCH 51/64] fix: ask for the events again after a reply or a
 response got lost

---
 openleadr/client.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index fa36975..2a45352 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -96,6 +96,7 @@ class OpenADRClient:
         self.opts = []
         self.received_events = []               # Holds the events that we received.
         self.responded_events = {}              # Holds the events that we already saw.
+        self.event_sync_required = False        # Whether we may be out of step with the VTN's events
 
         self.cert_path = cert
         self.key_path = key
@@ -577,6 +578,8 @@ class OpenADRClient:
         Used to perform an initial sync of events after the client connects
         """
         response_type, response_payload = await self.request_event()
+        # If the reply did not arrive, we try again after one of the next polls
+        self.event_sync_required = response_type is None
         if 'events' in response_payload and len(response_payload['events']) > 0:
             await self._on_event(response_payload)
 
@@ -1292,9 +1295,10 @@ class OpenADRClient:
                                            event_responses=event_responses,
                                            ven_id=self.ven_id)
             service = 'EiEvent'
-            await self._perform_request(service, message)
-            # response_type, response_payload = await self._perform_request(service, message)
-            # logger.info(response_type, response_payload)
+            response_type, response_payload = await self._perform_request(service, message)
+            if response_type is None:
+                # The VTN may not know our responses, so offer them again with the next sync
+                self.event_sync_required = True
         else:
             logger.info("Not sending any event responses, because a response was not required/allowed by the VTN.")
 
@@ -1328,6 +1332,8 @@ class OpenADRClient:
         logger.debug("Now polling for new messages")
         response_type, response_payload = await self.poll()
         if response_type is None:
+            # The reply that did not reach us may have held events, and the VTN offers those only once
+            self.event_sync_required = True
             return
 
         if self.registration_id is None:
@@ -1336,6 +1342,8 @@ class OpenADRClient:
 
         if response_type == 'oadrResponse':
             logger.debug("Received empty response from the VTN.")
+            if self.event_sync_required:
+                await self.sync_events()
             return
 
         elif response_type == 'oadrRequestReregistration':
-- 
2.43.0


From 506848ee640562e6df2fa3c0d3eeff99c85b19d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:05 +0000
Subject: [PATCH 52/64] fix: write absent values as empty elements instead of
 the text None

---
 openleadr/messaging.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index cec0a28..0f7385e 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -234,6 +234,8 @@ NONCE_CACHE = set()
 
 # Settings for jinja2
 TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoescape=True)
+# An absent value is an empty element, not the text 'None'
+TEMPLATES.finalize = lambda value: '' if value is None else value
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
-- 
2.43.0


From d8da541e94fb0fc98b91154b1e034a7fc2fc536c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:04 +0000
Subject: [PATCH 53/64] fix: do not take the answer to the registration query
 for an accepted registration

---
 openleadr/client.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 2a45352..f017510 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -140,8 +140,6 @@ class OpenADRClient:
 
         request_id = None
         response_type, response_payload = await self.query_registration()
-        if 'registration_id' in response_payload:
-            self.registration_id = response_payload['registration_id']
         if response_payload and 'response' in response_payload  and 'request_id' in response_payload['response']:
             request_id = response_payload['response']['request_id']
 
-- 
2.43.0


From 5c8e70cdb261f37c6e79abbd1eac180cd0692081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:07 +0000
Subject: [PATCH 54/64] fix: collect the report that was asked for when several
 are scheduled by one message

---
 openleadr/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index f017510..d6c075d 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -857,8 +857,7 @@ class OpenADRClient:
                                                     'granularity': granularity,
                                                     'job': None})
                     
-                        async def report_callback():
-                            await self.update_report(report_request_id)
+                        report_callback = partial(self.update_report, report_request_id=report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
                             self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
-- 
2.43.0


From dcd2f333f66256fa7a5887353c70e1263a803f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:51 +0000
Subject: [PATCH 55/64] fix: remove the jobs of single reports that were
 scheduled when they are cancelled or replaced

---
 openleadr/client.py | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index d6c075d..aea20dc 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -26,6 +26,7 @@ from http import HTTPStatus
 import aiohttp
 from lxml.etree import XMLSyntaxError
 from signxml.exceptions import InvalidSignature
+from apscheduler.jobstores.base import JobLookupError
 from apscheduler.schedulers.asyncio import AsyncIOScheduler
 from openleadr import enums, objects, errors
 from openleadr.messaging import create_message, parse_message, \
@@ -722,9 +723,7 @@ class OpenADRClient:
         # The new registration of our reports replaces the subscriptions from any earlier one.
         if response_type == 'oadrRegisteredReport':
             for report_request in self.report_requests:
-                if report_request['job']:
-                    report_request['job'].remove()
-                    report_request['job'] = None
+                self._remove_report_job(report_request)
             self.report_requests.clear()
             self.incomplete_reports.clear()
 
@@ -759,9 +758,7 @@ class OpenADRClient:
                 # A request with a known report_request_id replaces the earlier one
                 previous_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
                 if previous_request:
-                    if previous_request['job']:
-                        previous_request['job'].remove()
-                        previous_request['job'] = None
+                    self._remove_report_job(previous_request)
                     self.report_requests.remove(previous_request)
                     self.incomplete_reports.pop(report_request_id, None)
 
@@ -850,17 +847,18 @@ class OpenADRClient:
                                                     'granularity': granularity,
                                                     'job': job})
                     else:
-                        self.report_requests.append({'report_request_id': report_request_id,
-                                                    'report_specifier_id': report_specifier_id,
-                                                    'report_back_duration': report_back_duration,
-                                                    'r_ids': requested_r_ids,
-                                                    'granularity': granularity,
-                                                    'job': None})
-                    
+                        single_report = {'report_request_id': report_request_id,
+                                         'report_specifier_id': report_specifier_id,
+                                         'report_back_duration': report_back_duration,
+                                         'r_ids': requested_r_ids,
+                                         'granularity': granularity,
+                                         'job': None}
+                        self.report_requests.append(single_report)
+
                         report_callback = partial(self.update_report, report_request_id=report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
-                            self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
+                            single_report['job'] = self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
                         else:
                             try:
                                 await self.update_report(report_request_id)
@@ -977,6 +975,18 @@ class OpenADRClient:
             logger.info("Report will be sent now.")
             await self.pending_reports.put(outgoing_report)
 
+    @staticmethod
+    def _remove_report_job(report_request):
+        """
+        Stop collecting the values for this report request.
+        """
+        if report_request['job']:
+            try:
+                report_request['job'].remove()
+            except JobLookupError:
+                logger.debug("The job of this report request was done already.")
+            report_request['job'] = None
+
     async def cancel_report(self, payload):
         """
         Cancel this report.
@@ -994,9 +1004,7 @@ class OpenADRClient:
                                  f"{err.__class__.__name__}: {err}")
                 # Wait for the report to be sent
                 await asyncio.sleep(1)
-            if report_request['job']:
-                report_request['job'].remove()
-                report_request['job'] = None
+            self._remove_report_job(report_request)
             logger.info(f"Report with report_request_id {report_request_id} has been cancelled.")
             service = 'EiReport'
             message_type = 'oadrCanceledReport'
-- 
2.43.0


From 1a909b296c48768dcd155b11e9109d826ec019c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:29 +0000
Subject: [PATCH 56/64] fix: calculate with the datetimes of intervals in UTC

The end of an active period, its ramp-up and the order of events were
calculated in the timezone of the given datetimes. Around a change between
summer and winter time, that is off by an hour.
---
 openleadr/client.py  |  2 +-
 openleadr/objects.py |  8 ++++----
 openleadr/utils.py   | 17 +++++++++++++----
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index aea20dc..cbe4105 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -956,7 +956,7 @@ class OpenADRClient:
 
         # Always set the dtstart of the report to the earliest datetime of any of the intervals
         if outgoing_report.intervals:
-            outgoing_report.dtstart = min(interval.dtstart for interval in outgoing_report.intervals)
+            outgoing_report.dtstart = min(utils.to_utc(interval.dtstart) for interval in outgoing_report.intervals)
 
         # Figure out if the report is complete after this sampling
         if data_collection_mode == 'incremental' and report_back_duration is not None\
diff --git a/openleadr/objects.py b/openleadr/objects.py
index 450e946..740baaf 100644
--- a/openleadr/objects.py
+++ b/openleadr/objects.py
@@ -209,11 +209,11 @@ class Event:
 
     def __post_init__(self):
         if self.active_period is None:
-            dtstart = min([i['dtstart']
-                           if isinstance(i, dict) else i.dtstart
+            dtstart = min([utils.to_utc(i['dtstart']
+                                        if isinstance(i, dict) else i.dtstart)
                            for s in self.event_signals for i in s.intervals])
-            duration = max([i['dtstart'] + i['duration']
-                            if isinstance(i, dict) else i.dtstart + i.duration
+            duration = max([utils.to_utc(i['dtstart']) + i['duration']
+                            if isinstance(i, dict) else utils.to_utc(i.dtstart) + i.duration
                             for s in self.event_signals for i in s.intervals]) - dtstart
             self.active_period = ActivePeriod(dtstart=dtstart,
                                               duration=duration)
diff --git a/openleadr/utils.py b/openleadr/utils.py
index c999fae..f3604eb 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -614,11 +614,19 @@ def validate_report_measurement_dict(measurement):
                              "keys: 'voltage' (int), 'ac' (boolean), 'hertz' (int)")
 
 
+def to_utc(value):
+    """
+    Convert a timezone-aware datetime to UTC. Calculating with datetimes in UTC is not
+    affected by the changes between summer time and winter time of their timezone.
+    """
+    return value if value.tzinfo is None else value.astimezone(timezone.utc)
+
+
 def get_active_period_from_intervals(intervals, as_dict=True):
     if is_dataclass(intervals[0]):
         intervals = [asdict(i) for i in intervals]
-    period_start = min([i['dtstart'] for i in intervals])
-    period_duration = max([i['dtstart'] + i['duration'] - period_start for i in intervals])
+    period_start = min([to_utc(i['dtstart']) for i in intervals])
+    period_duration = max([to_utc(i['dtstart']) + i['duration'] - period_start for i in intervals])
     if as_dict:
         return {'dtstart': period_start,
                 'duration': period_duration}
@@ -633,6 +641,7 @@ def determine_event_status(active_period):
     if active_period_start.tzinfo is None:
         active_period_start = active_period_start.astimezone(timezone.utc)
         setmember(active_period, 'dtstart', active_period_start)
+    active_period_start = to_utc(active_period_start)
     active_period_end = active_period_start + getmember(active_period, 'duration')
     if now >= active_period_end and getmember(active_period, 'duration').total_seconds() > 0:
         return 'completed'
@@ -834,10 +843,10 @@ def order_events(events, limit=None, offset=None):
                     if getmember(event, 'event_descriptor.event_status') != 'active']
 
     # Sort the active events by priority, and by start date within the same priority
-    active_events.sort(key=lambda e: (event_priority(e), getmember(e, 'active_period.dtstart')))
+    active_events.sort(key=lambda e: (event_priority(e), to_utc(getmember(e, 'active_period.dtstart'))))
 
     # Sort the non-active events by their start date
-    other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
+    other_events.sort(key=lambda e: to_utc(getmember(e, 'active_period.dtstart')))
 
     ordered_events = active_events + other_events
     if limit and offset:
-- 
2.43.0


From 55f961f3292cdd368c0ff2a987183779f7b1fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:09 +0000
Subject: [PATCH 57/64] fix: keep newlines inside texts when flattening the XML

The lines of a text of several lines, like a VTN comment, were joined.
---
 openleadr/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index f3604eb..7fbb49d 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -41,13 +41,10 @@ def generate_id(*args, **kwargs):
 
 def flatten_xml(message):
     """
-    Flatten the entire XML structure.
+    Flatten the entire XML structure. This removes the whitespace between the
+    elements, but not the whitespace (like newlines) inside their texts.
     """
-    lines = [line.strip() for line in message.split("\n") if line.strip() != ""]
-    for line in lines:
-        line = re.sub(r'\n', '', line)
-        line = re.sub(r'\s\s+', ' ', line)
-    return "".join(lines)
+    return re.sub(r'>\s+<', '><', message.strip())
 
 
 def normalize_dict(ordered_dict):
-- 
2.43.0


From 1bebd00841e1738945951143e2b49aed49c4e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:48 +0000
Subject: [PATCH 58/64] fix: do not let the scheduler follow the changes of the
 clocks

In a timezone with summer time, the VEN did not poll or sample for up to an
hour around the changes of the clocks, since the moments of jobs were compared
in local time.
---
 openleadr/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index cbe4105..8edc80c 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -33,7 +33,6 @@ from openleadr.messaging import create_message, parse_message, \
                                 validate_xml_schema, validate_xml_signature
 from openleadr import utils
 
-import tzlocal
 
 logger = logging.getLogger('openleadr')
 logger.setLevel(logging.INFO)
@@ -90,7 +89,7 @@ class OpenADRClient:
         self.report_requests = []               # Keep track of the report requests from the VTN
         self.incomplete_reports = {}            # Holds reports that are being populated over time
         self.pending_reports = asyncio.Queue()  # Holds reports that are waiting to be sent
-        self.scheduler = AsyncIOScheduler(timezone=str(tzlocal.get_localzone()))
+        self.scheduler = AsyncIOScheduler(timezone=datetime.now().astimezone().tzinfo)
         self.client_session = None
         self.report_queue_task = None
 
-- 
2.43.0


From 5ec31d25268d7da38796561cb80eeac771fcfe58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:16 +0000
Subject: [PATCH 59/64] fix: name request id 0 in the reply to an
 oadrRequestEvent

---
 openleadr/templates/oadrDistributeEvent.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/templates/oadrDistributeEvent.xml b/openleadr/templates/oadrDistributeEvent.xml
index b1d757b..e7b6e7f 100644
--- a/openleadr/templates/oadrDistributeEvent.xml
+++ b/openleadr/templates/oadrDistributeEvent.xml
@@ -4,7 +4,7 @@
     <ei:eiResponse>
       <ei:responseCode>{{ response.response_code }}</ei:responseCode>
       <ei:responseDescription>{{ response.response_description }}</ei:responseDescription>
-      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id or "" }}</requestID>
+      <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
     </ei:eiResponse>
     {% endif %}
     <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ request_id }}</requestID>
-- 
2.43.0


From c35f2515003a9c6eadbb19939ce57d3c0bcb14b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:25 +0000
Subject: [PATCH 60/64] fix: sample reports once per interval if it does not
 divide a minute, hour or day

A cron trigger of */7 seconds, */1 minutes (for 90 seconds) and so on sampled at other
intervals than the one that was requested.
---
 openleadr/client.py |  3 +--
 openleadr/utils.py  | 13 +++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 8edc80c..8c0a6c3 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -837,8 +837,7 @@ class OpenADRClient:
                         if report.data_collection_mode == 'full':
                             reporting_interval = max(reporting_interval, report_back_duration)
                         job = self.scheduler.add_job(func=callback,
-                                                    trigger='cron',
-                                                    **utils.cron_config(reporting_interval))
+                                                    **utils.trigger_config(reporting_interval))
                         self.report_requests.append({'report_request_id': report_request_id,
                                                     'report_specifier_id': report_specifier_id,
                                                     'report_back_duration': report_back_duration,
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 7fbb49d..7404d7b 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -528,6 +528,19 @@ def cron_config(interval, randomize_seconds=False):
     return cron_config
 
 
+def trigger_config(interval):
+    """
+    Returns a dict with the scheduler settings for a job that runs once per interval. If
+    possible, it runs at whole multiples of the interval on the clock; if the interval does
+    not fit in a minute, hour or day, it runs one interval after the previous time.
+    """
+    seconds = interval.total_seconds()
+    for unit, period in ((1, 60), (60, 3600), (3600, 86400)):
+        if seconds <= period and seconds % unit == 0 and period % seconds == 0:
+            return {"trigger": "cron", **cron_config(interval)}
+    return {"trigger": "interval", "seconds": seconds}
+
+
 def get_cert_fingerprint_from_request(request):
     ssl_object = request.transport.get_extra_info('ssl_object')
     if ssl_object:
-- 
2.43.0


From 28a814a3287245d1d02a0845ba23a14b8f9cc9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:45 +0000
Subject: [PATCH 61/64] fix: format booleans and non-finite numbers as XML
 floats

A single not-a-number value made the whole message invalid, so that the VTN refused the report.
---
 openleadr/messaging.py                      |  1 +
 openleadr/templates/oadrUpdateReport.xml    |  2 +-
 openleadr/templates/parts/eiEventSignal.xml |  4 ++--
 openleadr/utils.py                          | 12 ++++++++++++
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 0f7385e..6b05102 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -239,6 +239,7 @@ TEMPLATES.finalize = lambda value: '' if value is None else value
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
+TEMPLATES.filters['floatformat'] = utils.floatformat
 TEMPLATES.trim_blocks = True
 TEMPLATES.lstrip_blocks = True
 
diff --git a/openleadr/templates/oadrUpdateReport.xml b/openleadr/templates/oadrUpdateReport.xml
index 1d511dd..85bd399 100644
--- a/openleadr/templates/oadrUpdateReport.xml
+++ b/openleadr/templates/oadrUpdateReport.xml
@@ -31,7 +31,7 @@
             <ei:accuracy>{{ interval.report_payload.accuracy }}</ei:accuracy>
             {% endif %}
             <ei:payloadFloat>
-              <ei:value>{{ interval.report_payload.value }}</ei:value>
+              <ei:value>{{ interval.report_payload.value|floatformat }}</ei:value>
             </ei:payloadFloat>
             {% if interval.report_payload.data_quality is defined and interval.report_payload.data_quality is not none %}
             <oadr:oadrDataQuality>{{ interval.report_payload.data_quality }}</oadr:oadrDataQuality>
diff --git a/openleadr/templates/parts/eiEventSignal.xml b/openleadr/templates/parts/eiEventSignal.xml
index 9453edd..f40f4a8 100644
--- a/openleadr/templates/parts/eiEventSignal.xml
+++ b/openleadr/templates/parts/eiEventSignal.xml
@@ -17,7 +17,7 @@
             </uid>
             <ei:signalPayload>
                 <ei:payloadFloat>
-                    <ei:value>{{ interval.signal_payload }}</ei:value>
+                    <ei:value>{{ interval.signal_payload|floatformat }}</ei:value>
                 </ei:payloadFloat>
             </ei:signalPayload>
         </ei:interval>
@@ -30,7 +30,7 @@
     {% if event_signal.current_value is defined and event_signal.current_value is not none %}
     <ei:currentValue>
         <ei:payloadFloat>
-            <ei:value>{{ event_signal.current_value }}</ei:value>
+            <ei:value>{{ event_signal.current_value|floatformat }}</ei:value>
         </ei:payloadFloat>
     </ei:currentValue>
     {% endif %}
diff --git a/openleadr/utils.py b/openleadr/utils.py
index 7404d7b..78ca000 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -25,6 +25,7 @@ import ssl
 import hashlib
 import uuid
 import logging
+import math
 
 logger = logging.getLogger('openleadr')
 
@@ -353,6 +354,17 @@ def timedeltaformat(value):
     return formatted
 
 
+def floatformat(value):
+    """
+    Format a number as an XML float, also if it is a boolean, infinite or not a number.
+    """
+    if isinstance(value, bool):
+        return int(value)
+    if isinstance(value, float) and not math.isfinite(value):
+        return 'NaN' if math.isnan(value) else 'INF' if value > 0 else '-INF'
+    return value
+
+
 def booleanformat(value):
     """
     Format a boolean value
-- 
2.43.0


From 5b6980dcfa331851b76aa46f60b0cac0555196af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:34 +0000
Subject: [PATCH 62/64] fix: oadrCancelOpt carries a request id

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 8c0a6c3..b51b4c6 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -671,6 +671,7 @@ class OpenADRClient:
             return False
 
         payload = {
+            'request_id': utils.generate_id(),
             'opt_id': opt_id,
             'ven_id': self.ven_id
         }
-- 
2.43.0


From 4faa9c7d4db305f345fbe4052f76b10d7defd0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:22 +0000
Subject: [PATCH 63/64] fix: all targets of an opt in one eiTarget

---
 openleadr/templates/oadrCreateOpt.xml | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/openleadr/templates/oadrCreateOpt.xml b/openleadr/templates/oadrCreateOpt.xml
index f62e592..4673b17 100644
--- a/openleadr/templates/oadrCreateOpt.xml
+++ b/openleadr/templates/oadrCreateOpt.xml
@@ -31,13 +31,24 @@
       <ei:modificationNumber>{{ modification_number }}</ei:modificationNumber>
     </ei:qualifiedEventID>
     {% endif %}
-    {% if targets is defined and targets is not none and targets|length > 0 %}
-    {% for target in targets %}
-    {% include 'parts/eiTarget.xml' %}
+    {# There is only one eiTarget, which contains all targets #}
+    <ei:eiTarget>
+    {% for target in targets or [] if target.group_id is defined and target.group_id is not none %}
+      <ei:groupID>{{ target.group_id }}</ei:groupID>
     {% endfor %}
-    {% else %}
-    <ei:eiTarget/>
-    {% endif %}
+    {% for target in targets or [] if target.group_name is defined and target.group_name is not none %}
+      <ei:groupName>{{ target.group_name }}</ei:groupName>
+    {% endfor %}
+    {% for target in targets or [] if target.resource_id is defined and target.resource_id is not none %}
+      <ei:resourceID>{{ target.resource_id }}</ei:resourceID>
+    {% endfor %}
+    {% for target in targets or [] if target.ven_id is defined and target.ven_id is not none %}
+      <ei:venID>{{ target.ven_id }}</ei:venID>
+    {% endfor %}
+    {% for target in targets or [] if target.party_id is defined and target.party_id is not none %}
+      <ei:partyID>{{ target.party_id }}</ei:partyID>
+    {% endfor %}
+    </ei:eiTarget>
     {% if signal_target_mrid is defined and signal_target_mrid is not none %}
     <oadr:oadrDeviceClass>
 				<power:endDeviceAsset>
-- 
2.43.0


From aaef8e512fdb3eb9082506da8f62438fb708475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:22 +0000
Subject: [PATCH 64/64] fix: an opt may be cancelled again while its
 cancellation is in progress

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index b51b4c6..ea2c401 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -684,7 +684,9 @@ class OpenADRClient:
         if 'opt_id' in response_payload:
             # VTN acknowledged the opt cancelation
             logging.info(f"VTN acknowledged the opt cancelation with opt_id {response_payload['opt_id']}")
-            self.opts.remove(opt)
+            # It may have been cancelled twice at the same time
+            if opt in self.opts:
+                self.opts.remove(opt)
             return True
         else:
             logging.error(f"VTN did not acknowledge the opt cancelation")
-- 
2.43.0

