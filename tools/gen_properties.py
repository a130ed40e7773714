"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          'mechanism': [dict(name=a, where=b) for a, b in mechanism],
                          'observe_at': observe, 'hook_needed': None}})


S = 'openleadr/service/'
p('C01', 'An event change is delivered on the VEN\'s next poll',
  'After the VTN application adds or cancels an event for a VEN, the next poll from that VEN which reaches the VTN is '
  'answered with an oadrDistributeEvent that carries the change (unless an overlapping reply already carries it, or the '
  'event has meanwhile been withdrawn by a confirmed cancellation). '
  'A poll with no undelivered change is answered with a plain oadrResponse, and a distribution attempt that fails because an '
  'application callback failed does not use the change up.',
  ['schedules', 'histories', 'fault_sequences'],
  'all interleavings of add_event/add_raw_event/cancel_event with polls, event requests and slow or failing application callbacks, for several VENs',
  'Tests add events first and poll afterwards, sequentially; none changes events while a poll is being answered, which is where a change can be lost.',
  [S + 'poll_service.py', S + 'event_service.py', 'openleadr/server.py'],
  [('per-VEN "events updated" flag set on change and cleared by the poll that distributes', S + 'poll_service.py PollService.poll'),
   ('flag set', 'openleadr/server.py add_raw_event, cancel_event')],
  ['HTTP replies to oadrPoll', 'calls of OpenADRServer.add_event/cancel_event'],
  [('events_updated', 'ven_id -> there is something new to distribute', S + 'poll_service.py')])
p('C02', 'Every distribution is the VEN\'s exact current event list',
  'Every oadrDistributeEvent a VTN sends to a VEN contains exactly the events outstanding for that VEN at some moment while '
  'the request was being served: each event once, none that belongs only to another VEN, none already withdrawn. A request for the events is answered with a distribution whenever events are '
  'outstanding; each event '
  'carries the signals, intervals, start, duration, periods, targets, market context, priority and response requirement the application '
  'gave it. Active events precede the others; active events are ordered by priority and then start, the others by start.',
  ['histories', 'schedules', 'inputs'],
  'all histories of add/cancel/response/expiry operations over several VENs and event mixes, with any number of outstanding events',
  'Tests check one or two events for one VEN; the list is rebuilt, reordered, pruned and mutated on every request, and the state depends on the whole history.',
  [S + 'event_service.py', 'openleadr/utils.py', 'openleadr/server.py', 'openleadr/preflight.py'],
  [('snapshot, ordering and pruning of the event list', S + 'event_service.py request_event'), ('order_events', 'openleadr/utils.py')],
  ['oadrDistributeEvent bodies'],
  [('events', 'ven_id -> outstanding events', S + 'event_service.py')])
p('C03', 'Event status and modification number follow their life cycle',
  'In every distribution an event that was not cancelled has the status its active period gives it on the VTN\'s clock (far, near '
  'within the ramp-up period, active, completed), and a cancelled event has status cancelled. The modification number starts at '
  'the given value and grows by one with each cancellation, never otherwise. A completed event is communicated in one '
  'distribution and afterwards, like a cancelled event whose cancellation the VEN confirmed, never again.',
  ['schedules', 'histories', 'inputs'],
  'all relations of request times, cancellation times, confirmations and clock skews to event start, ramp-up and end',
  'Tests sleep through one short event at a few points; the property must hold at every instant, after every order of cancel, expiry and confirmation.',
  [S + 'event_service.py', 'openleadr/utils.py', 'openleadr/server.py'],
  [('determine_event_status / order_events refresh statuses', 'openleadr/utils.py'), ('completed events are removed when communicated', S + 'event_service.py request_event'),
   ('confirmed cancellations are removed', S + 'event_service.py created_event'), ('modification number', 'openleadr/server.py cancel_event')],
  ['oadrDistributeEvent bodies'])
p('C04', 'Each opt decision reaches the right application callback exactly once',
  'The first valid response of a VEN to an event fires that event\'s callback (function, coroutine or future) exactly once with that '
  'VEN, event and opt type, and later responses to it never fire it again; an event of another VEN with the same event id is '
  'unaffected. A response naming an event or modification number the VTN does not have for that VEN is answered with code 452 and '
  'fires nothing; every other response is acknowledged with 200, whether or not the event still has a callback or has completed since.',
  ['histories', 'schedules', 'inputs', 'fault_sequences'],
  'all sequences of valid, duplicate, stale, unknown, late and concurrent oadrCreatedEvent messages from several VENs',
  'Tests send one response per event; duplicates, replays by the network, responses after completion or cancellation, shared ids and slow callbacks are not exercised.',
  [S + 'event_service.py', 'openleadr/server.py'],
  [('callback registry popped on first response', S + 'event_service.py created_event')],
  ['application callbacks of add_event', 'oadrResponse codes to oadrCreatedEvent'],
  [('event_callbacks', 'pending opt callbacks', S + 'event_service.py')])
p('C05', 'The VEN asks the application once per event version',
  'For each distribution a VEN receives, its event handler is called for every event it does not yet know and its update '
  'handler for every known event with a different modification number, once per event and version and with the event\'s '
  'content; a version it already handled triggers no handler and is answered with the same opt as before (until the periodic clean-up forgets completed and cancelled events). One handler\'s error '
  'does not stop the other events of the same message from being handled.',
  ['histories', 'schedules', 'fault_sequences'],
  'all sequences of distributions: repeats, updates, cancellations, reorderings, several events per message, failing or slow handlers, clean-up between deliveries',
  'Tests deliver an event once or twice; repeated delivery after completion, cancellation, error or clean-up needs long histories.',
  ['openleadr/client.py'],
  [('received/responded event memory', 'openleadr/client.py _on_event'), ('periodic clean-up', 'openleadr/client.py _event_cleanup')],
  ['calls of on_event/on_update_event', 'oadrCreatedEvent messages sent'],
  [('received_events', 'known events and versions', 'openleadr/client.py'), ('responded_events', 'opt given per event', 'openleadr/client.py')])
p('C06', 'The VEN answers each event with the opt the application chose',
  'After processing a distribution the VEN sends one oadrCreatedEvent with exactly one response for each event that requires a '
  'response and is not over on the VEN\'s clock, and none for the others (no message at all if there are none). Each response carries the event\'s id and '
  'modification number, the distribution\'s request id and the opt type the handler returned; a handler that raises or returns '
  'something else opts out of that event only, and a signal name the VEN does not know is reported with code 460.',
  ['histories', 'inputs', 'schedules'],
  'all mixes of events (response required or not, far/active/over/cancelled, known or unknown signals) and handler outcomes in one message',
  'Tests use one or two events with well-behaved handlers; the mapping of results to events across a mixed list is not covered.',
  ['openleadr/client.py'],
  [('event response assembly', 'openleadr/client.py _on_event')], ['oadrCreatedEvent messages on the wire'])
p('C07', 'Delivery callbacks fire for the deliveries that happen',
  'Whenever a distribution containing an event is sent to a VEN, the delivery callback registered for that event and VEN has been called exactly once '
  'for that distribution before the reply leaves, and delivery callbacks are never called for events that are not in a distribution being served.',
  ['schedules', 'histories'],
  'all histories of distributions with slow, synchronous and asynchronous delivery callbacks, several events and VENs, and shared event ids',
  'One test checks one delivery of one event.',
  [S + 'event_service.py', 'openleadr/server.py'],
  [('delivery callbacks awaited before the reply', S + 'event_service.py request_event')],
  ['delivery_callback calls', 'oadrDistributeEvent replies'])
p('C08', 'A registered VEN keeps polling at the agreed rate',
  'As long as it runs and is registered, a VEN polls once per poll interval given by the VTN at registration (at most 24 hours), whatever '
  'replies, errors, timeouts or handler failures it meets: the next poll starts no later than one interval after the work caused by the previous one ends. '
  'It never polls faster than the interval and never has two polls in progress at once.',
  ['schedules', 'fault_sequences', 'configurations'],
  'all fault sequences on the network and the VTN (loss, delay, resets, truncation, garbage, error codes, outages, restarts), slow or failing handlers, and poll intervals',
  'Tests run a few polls against a healthy server.',
  ['openleadr/client.py'],
  [('interval job', 'openleadr/client.py run'), ('errors turned into empty results', 'openleadr/client.py _perform_request')],
  ['oadrPoll requests leaving the VEN'])
p('C09', 'Registration gates the VEN and its identity is adopted',
  'A VEN sends only registration messages until the VTN has accepted its registration with a registration id; from then on '
  'every message it sends carries the VEN id the VTN assigned. If its registration at start is refused or gets no valid answer the VEN stops '
  'and sends nothing more; the VTN answers a registration its application refuses without a registration id (and names no VEN id other than the one in the request).',
  ['histories', 'fault_sequences', 'configurations'],
  'all outcomes of the registration exchange: accepted, refused, error codes, malformed, lost or delayed replies, pre-set or assigned VEN ids',
  'Tests cover accepted and refused registration over a perfect network.',
  ['openleadr/client.py', S + 'registration_service.py'],
  [('registration handling', 'openleadr/client.py run, create_party_registration'), ('registration reply', S + 'registration_service.py')],
  ['messages leaving the VEN', 'oadrCreatedPartyRegistration replies'])
p('C10', 'Re-registration and restart restore the whole session',
  'A VTN that does not know a VEN answers its requests with oadrRequestReregistration and calls no event, report or poll handler for it. A '
  'VEN told so by a poll reply acknowledges it, registers again under its VEN id, offers its reports again and fetches the outstanding '
  'events, while continuing one single poll schedule and exactly one data stream per report subscription that the last '
  'registration established. A VEN that starts fetches the outstanding events before its first poll.',
  ['crash_points', 'histories', 'fault_sequences'],
  'all points at which the VTN restarts without its memory of the VEN or a process crashes, including repeated re-registration and lost messages during it',
  'One test performs one re-registration without reports in flight.',
  ['openleadr/client.py', S + 'vtn_service.py'],
  [('re-registration procedure', 'openleadr/client.py create_party_reregistration'), ('unknown VEN check', S + 'vtn_service.py handler')],
  ['messages on the wire after oadrRequestReregistration', 'application handlers of the VTN'])
p('C11', 'Cancelling a registration ends the session',
  'When a running VEN has cancelled its registration and the VTN confirmed with 200, or the VTN cancelled it naming the VEN\'s own registration id, the '
  'VEN confirms (in the second case) and from then on starts no polls, handlers or report sampling and sends none of the reports that were waiting, apart from finishing what was in progress. A cancellation naming another '
  'registration id is answered with code 452 and changes nothing; an unconfirmed or refused cancellation leaves the VEN polling.',
  ['schedules', 'histories', 'fault_sequences'],
  'all points at which a cancellation meets running polls, report jobs and queued reports, with matching and non-matching ids and lost or failing confirmations',
  'Tests cancel an idle client and look at its attributes.',
  ['openleadr/client.py', S + 'registration_service.py'],
  [('cancellation', 'openleadr/client.py cancel_party_registration, on_cancel_party_registration')],
  ['messages leaving the VEN after cancellation'])
p('C12', 'A stopped VEN is silent',
  'Once stop() of a running VEN (one whose run() has returned) has returned, the VEN sends no message any more, whatever polls, report jobs, queued reports or slow '
  'handlers were in progress when it was called, and its handlers and report callbacks are not started any more.',
  ['schedules', 'crash_points'],
  'all instants at which stop() is called: idle, during a poll, while a handler runs, while reports are sampled, queued or sent',
  'Tests stop idle clients at the end.',
  ['openleadr/client.py'], [('stop', 'openleadr/client.py stop')], ['messages leaving the VEN', 'application handlers'])
p('C13', 'Report values arrive unchanged, at the right callback, at most once',
  'Every (time, value) pair the VTN hands to a report callback was produced by the VEN\'s data source for exactly the VEN, report and data point '
  'that callback was registered for, with time and value unchanged, in production order, and is handed over once per delivery of the message that carries it. With no '
  'message loss every produced value that belongs to a completed report is handed over.',
  ['schedules', 'inputs', 'histories', 'fault_sequences'],
  'all combinations of several VENs, reports, data points, identical data point ids, sync and async sources, list values, and network faults',
  'Tests use one VEN and one or two data points and compare counts or a single value.',
  ['openleadr/client.py', S + 'report_service.py'],
  [('value collection', 'openleadr/client.py update_report'), ('queue', 'openleadr/client.py _report_queue_worker'), ('dispatch', S + 'report_service.py update_report')],
  ['report callbacks of both sides', 'oadrUpdateReport messages'],
  [('report_callbacks', '(report request, r_id) -> callback', S + 'report_service.py')])
p('C14', 'Reports are sampled on schedule and sent when complete',
  'For each accepted subscription the VEN samples every requested data point once per sampling interval and no other, and sends a report as soon as '
  'the samples of one reporting interval are collected (each sample if no longer reporting interval was asked; for full-mode sources, one query '
  'covering the whole reporting period; for a one-shot request, once). Each sent report contains exactly the samples of its interval for '
  'exactly the requested data points, and sampling of one report continues while others fail or are slow.',
  ['schedules', 'configurations', 'inputs', 'fault_sequences'],
  'all sampling/reporting interval combinations that divide the hour, numbers of data points, collection modes, and delivery failures of earlier reports',
  'Tests run a single report for a few seconds of wall time; intervals of minutes or hours and long runs are out of reach of real time.',
  ['openleadr/client.py', 'openleadr/utils.py'],
  [('cron jobs', 'openleadr/client.py create_report'), ('completeness', 'openleadr/client.py update_report'), ('cron_config', 'openleadr/utils.py')],
  ['report source callbacks', 'oadrUpdateReport messages'])
p('C15', 'The report subscription is exactly what the application accepted',
  'The VTN requests exactly the data points its application accepted from the reports a VEN offered, under their own '
  'report and data point ids, with the sampling and reporting intervals the application returned, and offers each of them to the application with '
  'the resource, measurement, unit, scale and sampling limits the VEN registered. The VEN activates exactly the valid requests and data points among those '
  'it receives, each independently of the others in the same message, and confirms them with oadrCreatedReport.',
  ['inputs', 'configurations', 'histories'],
  'all sets of reports and data points, acceptance patterns, compact and full handlers, several requests per message, unknown ids and out-of-range sampling rates',
  'Tests accept everything from one report, or check one rejected element at a time.',
  [S + 'report_service.py', 'openleadr/client.py'],
  [('request assembly', S + 'report_service.py register_report'), ('request handling', 'openleadr/client.py create_report')],
  ['oadrRegisteredReport / oadrCreateReport / oadrCreatedReport messages', 'on_register_report calls', 'later oadrUpdateReport messages'])
p('C16', 'A cancelled report stops and the others continue',
  'When the VTN cancels a report, by poll reply or inside oadrUpdatedReport, the VEN confirms with one oadrCanceledReport carrying the cancellation\'s '
  'request id, stops sampling that report, and sends no data sampled after the confirmation (apart from one following report if asked for, and a sampling run in progress). '
  'Every other report continues on its schedule. Cancelling an unknown report changes nothing.',
  ['schedules', 'histories'],
  'all instants of cancellation relative to sampling and sending, for one of several running reports, by both ways of cancelling, with and without a report to follow',
  'Tests cancel a single report through the poll path only.',
  ['openleadr/client.py'],
  [('cancel_report', 'openleadr/client.py cancel_report, _report_queue_worker')], ['messages leaving the VEN'])
p('C17', 'On a secured VTN a VEN id can be used only with its own certificate',
  'On a TLS-secured VTN with fingerprints configured, a message other than a registration or registration query has an effect (an application handler or callback runs, '
  'an event list or report subscription is disclosed or changed) only if it names a VEN id whose registered fingerprint matches the client certificate of the connection and, with '
  'signature checking on, the certificate that validly signed exactly this message. All other such messages are refused.',
  ['inputs', 'histories', 'configurations'],
  'all message types, missing or foreign VEN ids, certificates, signatures (missing, foreign, tampered, stale), lookups by ven_lookup or fingerprint_lookup',
  'Tests try a wrong fingerprint for one message type.',
  [S + 'vtn_service.py', 'openleadr/messaging.py', 'openleadr/server.py'],
  [('authenticate_message', 'openleadr/messaging.py'), ('authentication step', S + 'vtn_service.py handler')],
  ['replies to requests', 'application handlers of the VTN'])
p('C18', 'A captured signed message cannot be replayed',
  'A signed request whose exact bytes the VTN accepted once has no second effect when they arrive again, at any later time and on any '
  'connection (a VTN clock that is stepped back in between excepted), and a signed message older than the replay window is refused when it first arrives. Messages that are fresh and '
  'new are never refused by this protection, however many arrive within the window.',
  ['schedules', 'fault_sequences', 'histories'],
  'all delays and multiplicities of network duplicates of signed messages from several VENs, mixed with new messages, with the same or skewed clocks',
  'One test replays a message at once and one after the window.',
  ['openleadr/messaging.py'],
  [('nonce cache and maximum age', 'openleadr/messaging.py _verify_replay_protect, _update_nonce_cache')],
  ['replies to duplicated requests', 'application handlers of the VTN'],
  [('NONCE_CACHE', 'recently used (timestamp, nonce)', 'openleadr/messaging.py')])
p('C19', 'A VEN configured with the VTN\'s fingerprint acts on authentic replies only',
  'A VEN that was given the VTN\'s fingerprint acts (registers, runs event handlers, creates or cancels reports, re-registers or '
  'unregisters) only on replies carrying a valid, fresh and unused signature over their content by the certificate with that fingerprint; it ignores every other reply and goes on.',
  ['inputs', 'fault_sequences', 'histories'],
  'all replacements, modifications and replays of signed replies by something between VEN and VTN, at every exchange',
  'Tests check one wrong fingerprint.',
  ['openleadr/client.py', 'openleadr/messaging.py'],
  [('signature validation of replies', 'openleadr/client.py _perform_request'), ('validate_xml_signature', 'openleadr/messaging.py')],
  ['application handlers of the VEN', 'messages the VEN sends next'])
p('C20', 'The VTN answers every request with the right class of reply and stays up',
  'Every request that fully reaches a running VTN gets one HTTP reply, and the VTN keeps serving all VENs afterwards: 400 for a wrong content type or a body that is not '
  'valid OpenADR XML, 200 with an OpenADR error code for a wrong VTN id (452), a message the endpoint does not serve (459) or an unknown event (452), 500 only '
  'when an application handler failed. A failing handler, malformed input or a broken connection has no effect on other requests.',
  ['inputs', 'fault_sequences', 'schedules'],
  'all mixes of valid, malformed, truncated, misdirected, duplicated and aborted requests, and handler failures, interleaved with normal traffic',
  'Tests send a few malformed messages one at a time.',
  [S + 'vtn_service.py', S + 'registration_service.py'],
  [('error mapping', S + 'vtn_service.py handler, error_response')], ['HTTP replies', 'service to well-behaved VENs'])
p('C21', 'With an application poll handler the VEN gets exactly what it returns',
  'When the application supplies its own poll handler, each poll calls it once with the polling VEN\'s id and the reply carries exactly '
  'what it returned: nothing, one event or a list of events (dict or object), a re-registration request, a report or registration '
  'cancellation, or a report request. Event responses of the VEN are then passed to the application\'s handler once each.',
  ['inputs', 'histories', 'schedules'],
  'all sequences of supported return values over polls of several VENs, synchronous and asynchronous handlers',
  'Tests return a single event or tuple once.',
  [S + 'poll_service.py', S + 'event_service.py', 'openleadr/server.py'],
  [('external polling', S + 'poll_service.py poll, ' + S + 'event_service.py created_event')],
  ['replies to oadrPoll', 'on_poll / on_created_event calls'])
p('C22', 'Every message sent is a schema-valid OpenADR document',
  'Every request body a VEN sends and every 200 reply with a body that a VTN sends is well-formed XML that validates against the OpenADR 2.0b schema, '
  'whatever values, texts, histories or faults led to it.',
  ['inputs', 'histories', 'fault_sequences'],
  'all messages occurring in any simulated history, with texts containing XML special characters, fractional times, empty lists and error replies',
  'Tests validate one instance per message type with benign content.',
  ['openleadr/messaging.py', 'openleadr/templates', 'openleadr/preflight.py'],
  [('templates', 'openleadr/templates/*.xml'), ('create_message', 'openleadr/messaging.py')], ['all HTTP bodies on the wire'])
p('C23', 'Replies and follow-ups are correlated with their requests',
  'A VTN reply names the VTN\'s own id where the message has one, the VEN id of the request, and the request\'s request id in its response '
  'element; a VEN\'s follow-up messages (event responses, report and cancellation confirmations) name the request id of the VTN message they answer. Requests '
  'and distributions get fresh request ids.',
  ['histories', 'schedules', 'fault_sequences'],
  'all histories with several VENs, retries, duplicates and concurrent requests',
  'Tests do not look at ids across messages.',
  [S + 'vtn_service.py', 'openleadr/client.py'],
  [('response element', S + 'vtn_service.py handle_message'), ('request ids', 'openleadr/client.py')], ['all messages on the wire'])
p('C24', 'VENs are independent of each other',
  'A slow, hanging or failing application handler, callback or connection for one VEN neither delays, changes nor fails the VTN\'s answers to '
  'other VENs, and within a VEN a slow report source or failed report delivery does not stop its polling or other reports.',
  ['schedules', 'fault_sequences'],
  'all placements and lengths of handler delays, failures, stalled or half-sent requests of one VEN against the requests of others',
  'Tests run one VEN against fast handlers.',
  [S + 'vtn_service.py', S + 'event_service.py', S + 'report_service.py', 'openleadr/client.py'],
  [('asynchronous handlers awaited per request', S + 'vtn_service.py')], ['reply latencies per VEN', 'message content per VEN'])
p('C25', 'After faults stop, VENs and VTN converge',
  'Once faults stop, within a bounded number of poll intervals every running VEN is registered and its event handler has been '
  'called with the latest version of every event outstanding for it, and the VTN application has the opt decision for each of those that '
  'requires a response; data of every report that the VEN was asked for reaches the VTN again at the agreed rate.',
  ['fault_sequences', 'crash_points', 'schedules'],
  'all sequences of loss, delay, duplication, partition, crash, restart and stall followed by a quiet period, unless a request made in the name of the VEN whose reply it never sees took the news',
  'No test injects any fault.',
  ['openleadr/client.py', S + 'poll_service.py', S + 'event_service.py', S + 'vtn_service.py'],
  [('poll retry', 'openleadr/client.py'), ('re-registration', S + 'vtn_service.py'), ('event sync', 'openleadr/client.py sync_events')],
  ['application-level state of both sides after the quiet period'])
p('C26', 'What one application gives is what the other application gets',
  'Text, numbers, times and durations that one application puts into an event, a report offer or a registration arrive as the same values at the other '
  'application: events (all fields) at the VEN\'s event handlers, report offers (specifier, data points, measurements, sampling limits) at the VTN\'s report handler, '
  'registration details at its registration handler; and no value depends on what other messages or reports contained before.',
  ['inputs', 'histories', 'fault_sequences'],
  'all values and texts of a message, in any sequence of messages between several VENs and a VTN, under loss, duplication and restart',
  'Tests round-trip one benign instance per message through the codec, without the two applications and without any history.',
  ['openleadr/utils.py', 'openleadr/messaging.py', 'openleadr/templates', 'openleadr/client.py', 'openleadr/server.py'],
  [('normalize_dict', 'openleadr/utils.py'), ('add_report', 'openleadr/client.py'), ('templates', 'openleadr/templates/*.xml')],
  ['arguments of application handlers on both sides'])
p('C27', 'Invalid application input is rejected at the call',
  'add_event, add_raw_event, add_report and add_handler raise the documented errors for invalid arguments and leave the server or client unchanged.',
  ['inputs'], 'all argument combinations', 'Tests check one bad value per argument.',
  ['openleadr/server.py', 'openleadr/client.py', 'openleadr/objects.py'],
  [('argument checks', 'openleadr/server.py, openleadr/client.py')], ['exceptions'])
p('C28', 'Opt schedules are sent as given and last until their cancellation is confirmed',
  'Each create_opt with valid arguments sends exactly one oadrCreateOpt that carries exactly the opt type, reason, event and modification number or availability '
  'periods, targets, market context and device class given, under the VEN id and the given (or a fresh) opt id and request id; it returns the opt id if the VTN '
  'acknowledged it by a reply that names the opt, and False otherwise, whatever happens to the message. Invalid arguments raise ValueError and send nothing. '
  'cancel_opt of an opt sends one oadrCancelOpt for it and returns True exactly if the VTN acknowledged it; until then the opt can be cancelled again, also while a '
  'cancellation is in progress, and from then on, as for an unknown opt, nothing is sent and False is returned.',
  ['inputs', 'schedules', 'fault_sequences', 'histories'],
  'all sequences and overlaps of create_opt and cancel_opt, with replies that are slow, lost, errors or garbage',
  'The tests only build one oadrCreateOpt with the codec; no test calls create_opt or cancel_opt, or loses a reply.',
  ['openleadr/client.py', 'openleadr/objects.py', 'openleadr/templates/oadrCreateOpt.xml', 'openleadr/templates/oadrCancelOpt.xml'],
  [('create_opt, cancel_opt and the list of opts', 'openleadr/client.py OpenADRClient.create_opt, cancel_opt')],
  ['oadrCreateOpt and oadrCancelOpt bodies', 'results of create_opt and cancel_opt'],
  [('opts', 'opts whose cancellation was not acknowledged', 'openleadr/client.py')])
p('C29', 'Hooks see every message and never disturb it',
  'A hook registered with the client is called once for each message that passes its point, with exactly that message: before_send_xml with the text of each message '
  'before it is sent, after_receive_xml with each reply that arrives, before_schema_validation with those that have content and status 200, before_parse_xml with the '
  'schema-valid ones and after_parse_xml with their type and payload. The hooks of the VTN are called for each request (before_parse), each request that is handled '
  '(before_handle, after_handle) and each reply (before_respond). All hooks of a point are called, functions and coroutines, and a hook that fails changes nothing for other hooks '
  'and messages.',
  ['inputs', 'fault_sequences', 'schedules'],
  'all combinations of hooks that work, take time or fail, over all message flows and faults',
  'The tests register one working hook and send one message; no test has hooks that fail, or replies that are late, lost or garbage.',
  ['openleadr/client.py', 'openleadr/hooks.py', 'openleadr/service/vtn_service.py'],
  [('_execute_hooks', 'openleadr/client.py'), ('call', 'openleadr/hooks.py')], ['calls of the hooks'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
