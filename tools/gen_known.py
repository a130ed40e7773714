"""Writes known_findings.json.  'findings' are genuine defects left in the code (each reproduced by its plan on every run of its check);
'fixed' are defects repaired in /repo and suppress nothing."""
import json, os
FINDINGS = []
FIXED = [
 ('C01', '6eaa818', 'a change made while a poll was being answered, or whose distribution failed, was never distributed'),
 ('C03', '91ae580', 'every completed event made the VTN forget other events of the list too, or report completed events again'),
 ('C02', '91ae580', 'outstanding events disappeared from the distribution together with a completed one'),
 ('C04', '1b3faa5', 'responses to completed events or of unknown VENs were answered with 500'),
 ('C04', 'd9e1766', 'events of two VENs with the same event id shared one callback'),
 ('C07', 'd9e1766', 'events of two VENs with the same event id shared one delivery callback'),
 ('C02', 'e0b72dc', 'active events were ordered by start before priority'),
 ('C06', '2ff26e0', 'one failing handler suppressed the responses to all events of the message'),
 ('C05', '2ff26e0', 'one failing handler stopped the other events of the message; remembered opts outlived the event clean-up'),
 ('C15', '6563800', 'one oadrReportRequest received the data points of another, and single requests were mishandled'),
 ('C14', '091df70', 'a report was not sent when its samples exceeded the expected number'),
 ('C16', 'b725f96', 'a cancellation inside oadrUpdatedReport ended the report queue worker'),
 ('C08', 'f518d53', 'a reply with an empty body raised inside the client'),
 ('C11', 'f518d53', 'a reply with an empty body raised inside the client'),
 ('C17', 'fec6fe8', 'a signature that did not cover the oadrSignedObject was accepted'),
 ('C18', 'fec6fe8', 'a signature that did not cover the ReplayProtect element was accepted: a captured message could be replayed with a new nonce'),
 ('C19', 'fec6fe8', 'the VEN accepted replies whose signature did not cover the content'),
 ('C17', '3ddb3ec', 'a message without a VEN id skipped authentication'),
 ('C21', '49f7e0b', 'a list of events returned by on_poll was not distributed'),
 ('C21', 'e66f39e', 'the payload returned by the application was modified, so that it could not be returned again'),
 ('C25', '94537a2', 'an event whose distribution, or a decision whose oadrCreatedEvent, got lost was never offered again'),
 ('C23', '506848e', 'empty ids of a request came back as the text None'),
 ('C23', 'e66f39e', 'ids of one reply leaked into the next through the modified payload'),
 ('C22', '9db3306', 'texts with XML special characters produced malformed messages'),
 ('C20', 'b581794', 'an oadrCreatedReport without pending requests was answered with 500'),
 ('C21', 'b581794', 'an oadrCreatedReport in reply to a polled report request was answered with 500'),
 ('C10', '7de1202', 'report jobs of the old registration went on after a re-registration: duplicate data streams'),
 ('C20', 'f98bb89', 'the error reply to oadrRequestEvent was invalid'),
 ('C22', 'f98bb89', 'the error reply to oadrRequestEvent was not schema-valid'),
 ('C02', '7081de4', 'ramp-up, notification and recovery periods were dropped from the distribution'),
 ('C03', '7081de4', 'the ramp-up period was dropped and status near with it'),
 ('C11', '63eb6d4', 'a poll reply that arrived after the cancellation made the VEN register again'),
 ('C14', '0283d80', 'full-mode sources were queried and sent at the sampling interval instead of the reporting interval'),
 ('C15', '09fa43e', 'a request without valid data points sent an empty report at every sampling interval'),
 ('C15', '30dfb0a', 'a failing one-shot report left the other requests of the message unconfirmed, or stopped the start of the VEN'),
 ('C16', '1aeaf88', 'a source that failed in the last update left the cancelled report running and unconfirmed'),
 ('C16', 'cd52043', 'a failing cancellation inside oadrUpdatedReport ended the report queue worker'),
 ('C13', '4ab2b06', 'a cancellation overlapping a sampling run sent the same values twice'),
 ('C15', 'b06c88a', 'the scale of one report changed that of every other report with the same measurement'),
 ('C15', 'e977911', 'add_report raised for every measurement dict'),
 ('C15', '8633ffa', 'a report handler that skipped a data point made oadrRegisterReport fail with 500'),
 ('C15', '92895c0', 'reports were requested with the sampling interval of their last data point'),
 ('C20', '8761ca8', 'an oadrUpdateReport without reports or intervals was answered with 500'),
 ('C16', 'b05bfa4', 'a report requested twice under one id ran twice and could be cancelled only once'),
 ('C17', 'ad03bd7', 'a VEN could deliver report data to the callback of a report requested from another VEN'),
 ('C20', 'd2ad884', 'an unsigned message over TLS was answered with 500'),
 ('C11', '86ca802', 'a VEN whose registration was cancelled by its first poll polled for ever'),
 ('C23', 'a92a65a', 'polled distributions carried the text None as request id when the event came from on_poll or a raw event'),
 ('C26', '4e4abb5', 'texts that look like numbers, booleans or None changed their type on the way'),
 ('C23', '4e4abb5', 'request ids that look like numbers were echoed in another form'),
 ('C09', '4e4abb5', 'registration ids that look like numbers were echoed in another form'),
 ('C20', '8e2f2f1', 'a wrong content type was answered with 500'),
 ('C20', '82f2d4e', 'bodies that are too large or cannot be decoded were answered with 500'),
 ('C20', '9b9aac5', 'an oadrCreatedEvent without event responses was answered with 500'),
 ('C20', 'bd0cc1c', 'oadrRegisterReport and oadrCreatedReport without optional elements were answered with 500'),
 ('C20', 'a508d42', 'dates and durations that cannot be represented were answered with 500'),
 ('C20', '302fe4a', 'report intervals with values of several data points were answered with 500'),
 ('C13', '302fe4a', 'values of several data points in one report interval were lost'),
 ('C26', '0291f4f', 'the measurement of a signal or report description after one without a measurement was lost'),
 ('C26', 'ccdf45f', 'the scale of a measurement object was shared between reports'),
 ('C26', '3de7c05', 'the scale of a measurement that was given with its own scale was lost'),
 ('C26', 'e1cd556', 'the unit given to add_report was ignored'),
 ('C26', '745a6f2', 'the power attributes given to add_report were ignored'),
 ('C26', 'f62bb0a', 'the currencyPerKW measurement was not recognised'),
 ('C26', '7fe215a', 'descriptions and units of measurements that look like numbers changed their type'),
 ('C09', 'd8da541', 'a VEN whose registration got no valid answer went on when the registration query had named a registration id'),
 ('C14', '5c8e70c', 'of several single reports that one message scheduled, only the last was collected, for all of them'),
 ('C08', '1bebd00', 'in a time zone with summer time, polls and samplings were left out for up to an hour around the changes of the clocks'),
 ('C23', '5ec31d2', 'the reply to an oadrRequestEvent with request id 0 named no request'),
    ('C14', 'c35f251', 'reports whose interval does not divide a minute, hour or day (7, 45, 90 seconds) were sampled at other intervals'),
 ('C14', 'dcd2f33', 'a scheduled single report was collected although it had been cancelled and asked for again, or the VEN had registered again'),
 ('C02', '55f961f', 'the lines of a VTN comment of several lines were joined'),
 ('C03', '1a909b2', 'the status of an event given in a timezone with summer time was off by an hour around the changes of the clocks'),
 ('C22', '28a814a', 'a sample that is not a number, infinite or a boolean made the whole report invalid'),
 ('C22', '5b6980d', 'oadrCancelOpt had an empty request id'),
 ('C28', '5b6980d', 'oadrCancelOpt had an empty request id'),
 ('C22', '4faa9c7', 'an opt with several targets was not schema-valid'),
 ('C28', 'aaef8e5', 'a second cancel_opt of the same opt raised ValueError when the first was confirmed in between'),
]
d = {'findings': FINDINGS, 'fixed': [f'fixed: property={p} {c} {t}' for p, c, t in FIXED]}
json.dump(d, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json'), 'w'), indent=1)
