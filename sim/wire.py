"""Independent reading and writing of OpenADR 2.0b messages for the oracles and
for the scripted peers (no code of the system under test is used here)."""
import os
import re
from datetime import datetime, timezone
from xml.sax.saxutils import escape as esc
from lxml import etree

HERE = os.path.dirname(os.path.abspath(__file__))
_schema = None


def schema():
    global _schema
    if _schema is None:
        _schema = etree.XMLSchema(etree.parse(os.path.join(HERE, 'schema', 'oadr_20b.xsd')))
    return _schema


def schema_error(body):
    """None when body is a schema-valid OpenADR document."""
    try:
        tree = etree.fromstring(body)
    except etree.XMLSyntaxError as e:
        return f'not well-formed: {e}'
    s = schema()
    if s.validate(tree):
        return None
    return str(s.error_log.last_error.message)[:300]


def ln(el):
    t = el.tag
    if not isinstance(t, str):
        return ''
    return t.rsplit('}', 1)[-1]


def kids(el, name):
    return [c for c in el if ln(c) == name]


def kid(el, *path):
    for p in path:
        if el is None:
            return None
        c = kids(el, p)
        el = c[0] if c else None
    return el


def text(el, *path):
    e = kid(el, *path)
    if e is None:
        return None
    return (e.text or '').strip()


def find(el, name):
    for e in el.iter():
        if ln(e) == name:
            return e
    return None


def findall(el, name):
    return [e for e in el.iter() if ln(e) == name]


_DUR = re.compile(r'^([+-])?P(?:(\d+)W)?(?:(\d+)D)?(?:T(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)?$')


def dur(s):
    """RFC5545 duration -> seconds."""
    if s is None:
        return None
    m = _DUR.match(s)
    if not m:
        return None
    w, d, h, mi, se = (int(x) if x else 0 for x in m.groups()[1:])
    v = ((w * 7 + d) * 24 + h) * 3600 + mi * 60 + se
    return -v if m.group(1) == '-' else v


def num(v):
    """A reported value; not-a-number in a form that equals itself."""
    return 'nan' if v != v else v


def ts(s):
    """ISO timestamp -> epoch seconds (float)."""
    m = re.match(r'^(\d{4})-(\d\d)-(\d\d)T(\d\d):(\d\d):(\d\d)(?:\.(\d{1,6})\d*)?Z$', s or '')
    if not m:
        return None
    y, mo, d, h, mi, se = (int(x) for x in m.groups()[:6])
    us = int((m.group(7) or '0').ljust(6, '0'))
    return round(datetime(y, mo, d, h, mi, se, tzinfo=timezone.utc).timestamp() + us / 1e6, 6)


class Msg(dict):
    __getattr__ = dict.get


_cache = {}


def parse(body):
    if body in _cache:
        return _cache[body]
    try:
        m = _parse(body)
    except Exception as e:
        m = Msg(type=None, error=f'{type(e).__name__}: {e}')
    _cache[body] = m
    return m


def _parse(body):
    tree = etree.fromstring(body)
    so = kid(tree, 'oadrSignedObject')      # not any element of that name: signature wrapping
    root = so[0]
    m = Msg(type=ln(root))
    t = m['type']
    m['signed'] = find(tree, 'Signature') is not None
    inner = root
    if t == 'oadrCreatedEvent':
        inner = kid(root, 'eiCreatedEvent')
    elif t == 'oadrRequestEvent':
        inner = kid(root, 'eiRequestEvent')
    m['request_id'] = text(inner, 'requestID')
    m['ven_id'] = text(inner, 'venID')
    m['vtn_id'] = text(inner, 'vtnID')
    m['registration_id'] = text(inner, 'registrationID')
    r = kid(inner, 'eiResponse')
    if r is not None:
        c = text(r, 'responseCode')
        m['code'] = int(c) if c and c.isdigit() else c
        m['resp_request_id'] = text(r, 'requestID')
        m['desc'] = text(r, 'responseDescription')
    if t == 'oadrDistributeEvent':
        m['events'] = [_event(e) for e in kids(root, 'oadrEvent')]
    elif t == 'oadrCreatedEvent':
        m['responses'] = []
        ers = kid(inner, 'eventResponses')
        for e in (kids(ers, 'eventResponse') if ers is not None else []):
            m['responses'].append(Msg(code=int(text(e, 'responseCode')), request_id=text(e, 'requestID'),
                                      id=text(e, 'qualifiedEventID', 'eventID'),
                                      mod=int(text(e, 'qualifiedEventID', 'modificationNumber')),
                                      opt=text(e, 'optType')))
    elif t in ('oadrCreatedPartyRegistration',):
        m['poll_freq'] = dur(text(root, 'oadrRequestedOadrPollFreq', 'duration'))
    elif t == 'oadrCreatePartyRegistration':
        m['ven_name'] = text(root, 'oadrVenName')
    elif t in ('oadrRegisterReport', 'oadrUpdateReport'):
        m['reports'] = [_report(e) for e in kids(root, 'oadrReport')]
    elif t in ('oadrRegisteredReport', 'oadrCreateReport'):
        m['requests'] = [_repreq(e) for e in kids(root, 'oadrReportRequest')]
    elif t in ('oadrCreatedReport', 'oadrCanceledReport'):
        p = kid(root, 'oadrPendingReports')
        m['pending'] = [(e.text or '').strip() for e in kids(p, 'reportRequestID')] if p is not None else []
    if t == 'oadrUpdatedReport':
        c = kid(root, 'oadrCancelReport')
        m['cancel'] = [(e.text or '').strip() for e in kids(c, 'reportRequestID')] if c is not None else None
        if c is not None:
            m['cancel_request_id'] = text(c, 'requestID')
    if t in ('oadrCreateOpt', 'oadrCancelOpt'):
        m['opt'] = _opt(root)
    elif t in ('oadrCreatedOpt', 'oadrCanceledOpt'):
        m['opt_id'] = text(root, 'optID')
    if t == 'oadrCancelReport':
        m['cancel'] = [(e.text or '').strip() for e in kids(root, 'reportRequestID')]
        m['follow'] = text(root, 'reportToFollow')
    return m


def _opt(e):
    o = Msg(id=text(e, 'optID'), type=text(e, 'optType'), reason=text(e, 'optReason'), market=text(e, 'marketContext'),
            event=text(e, 'qualifiedEventID', 'eventID'), mod=None, device=text(e, 'oadrDeviceClass', 'endDeviceAsset', 'mrid'),
            avail=[], targets=sorted((ln(c), (c.text or '').strip()) for t in kids(e, 'eiTarget') for c in t))
    n = text(e, 'qualifiedEventID', 'modificationNumber')
    if o['event']:
        o['mod'] = int(n)
    v = kid(e, 'vavailability', 'components')
    for c in (kids(v, 'available') if v is not None else []):
        o['avail'].append((ts(text(c, 'properties', 'dtstart', 'date-time')), dur(text(c, 'properties', 'duration', 'duration'))))
    return o


def b_opt_ack(kind, request_id, opt_id, code=200):
    return signed_object(kind, ei_response(code, request_id) + f'<ei:optID>{esc(opt_id)}</ei:optID>')


def _event(e):
    ei = kid(e, 'eiEvent')
    d = kid(ei, 'eventDescriptor')
    p = kid(ei, 'eiActivePeriod', 'properties')
    ev = Msg(id=text(d, 'eventID'), mod=int(text(d, 'modificationNumber')), status=text(d, 'eventStatus'),
             priority=text(d, 'priority'), market=text(d, 'eiMarketContext', 'marketContext'),
             created=ts(text(d, 'createdDateTime')), comment=text(d, 'vtnComment'), test=text(d, 'testEvent'),
             start=ts(text(p, 'dtstart', 'date-time')), duration=dur(text(p, 'duration', 'duration')),
             ramp=dur(text(p, 'x-eiRampUp', 'duration')), notify=dur(text(p, 'x-eiNotification', 'duration')),
             recovery=dur(text(p, 'x-eiRecovery', 'duration')),
             rr=text(e, 'oadrResponseRequired'), signals=[], targets=[])
    sigs = kid(ei, 'eiEventSignals')
    for s in (kids(sigs, 'eiEventSignal') if sigs is not None else []):
        iv = kid(s, 'intervals')
        ivs = []
        for i in (kids(iv, 'interval') if iv is not None else []):
            v = find(kid(i, 'signalPayload'), 'value')
            ivs.append((ts(text(i, 'dtstart', 'date-time')), dur(text(i, 'duration', 'duration')), float(v.text)))
        ev['signals'].append(Msg(name=text(s, 'signalName'), type=text(s, 'signalType'), id=text(s, 'signalID'),
                                 intervals=ivs))
    t = kid(ei, 'eiTarget')
    if t is not None:
        ev['targets'] = [(ln(c), (c.text or '').strip()) for c in t]
    return ev


def _report(e):
    r = Msg(request_id=text(e, 'reportRequestID'), specifier=text(e, 'reportSpecifierID'), name=text(e, 'reportName'),
            report_id=text(e, 'eiReportID'), start=ts(text(e, 'dtstart', 'date-time')), intervals=[], descriptions=[])
    iv = kid(e, 'intervals')
    for i in (kids(iv, 'interval') if iv is not None else []):
        p = kid(i, 'oadrReportPayload')
        v = find(p, 'value')
        r['intervals'].append((ts(text(i, 'dtstart', 'date-time')), text(p, 'rID'), num(float(v.text))))
    for d in kids(e, 'oadrReportDescription'):
        sr = kid(d, 'oadrSamplingRate')
        r['descriptions'].append(Msg(r_id=text(d, 'rID'), resource=text(d, 'reportDataSource', 'resourceID'),
                                     reading=text(d, 'readingType'),
                                     min=dur(text(sr, 'oadrMinPeriod')) if sr is not None else None,
                                     max=dur(text(sr, 'oadrMaxPeriod')) if sr is not None else None,
                                     item=(lambda x: x.text if x is not None else None)(find(d, 'itemDescription')),
                                     unit=(lambda x: x.text if x is not None else None)(find(d, 'itemUnits')),
                                     scale=(lambda x: x.text if x is not None else None)(find(d, 'siScaleCode'))))
    return r


def _repreq(e):
    s = kid(e, 'reportSpecifier')
    return Msg(id=text(e, 'reportRequestID'), specifier=text(s, 'reportSpecifierID'),
               granularity=dur(text(s, 'granularity', 'duration')),
               back=dur(text(s, 'reportBackDuration', 'duration')),
               at=ts(text(s, 'reportInterval', 'properties', 'dtstart', 'date-time')),
               r_ids=[text(p, 'rID') for p in kids(s, 'specifierPayload')])


# ------------------------------------------------------------------- building
NS = ('xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07" '
      'xmlns:ei="http://docs.oasis-open.org/ns/energyinterop/201110" '
      'xmlns:pyld="http://docs.oasis-open.org/ns/energyinterop/201110/payloads" '
      'xmlns:xcal="urn:ietf:params:xml:ns:icalendar-2.0" '
      'xmlns:strm="urn:ietf:params:xml:ns:icalendar-2.0:stream" '
      'xmlns:emix="http://docs.oasis-open.org/ns/emix/2011/06"')


def signed_object(mtype, inner):
    return (f'<oadr:oadrSignedObject {NS} oadr:Id="oadrSignedObject"><oadr:{mtype} ei:schemaVersion="2.0b">'
            f'{inner}</oadr:{mtype}></oadr:oadrSignedObject>')


def envelope(so, signature=''):
    return ('<?xml version="1.0" encoding="utf-8"?>\n<oadr:oadrPayload '
            'xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07">\n'
            f'{signature}\n{so}\n</oadr:oadrPayload>').encode()


def iso(t):
    """Fractions of a second are written in several ways."""
    d = datetime.fromtimestamp(t, timezone.utc)
    v = d.strftime('%Y-%m-%dT%H:%M:%S.%f')
    how = int(t) % 4
    if how == 1:
        v = v.rstrip('0').rstrip('.')
    elif how == 2:
        v += '000'
    return v + 'Z'


def fmtdur(s):
    s = int(s)
    d, r = divmod(s, 86400)
    h, r = divmod(r, 3600)
    m, se = divmod(r, 60)
    out = 'P' + (f'{d}D' if d else '')
    if h or m or se or not d:
        out += 'T' + (f'{h}H' if h else '') + (f'{m}M' if m else '') + (f'{se}S' if se or not (d or h or m) else '')
    return out


def ei_response(code, request_id, desc=None):
    return (f'<ei:eiResponse><ei:responseCode>{code}</ei:responseCode><ei:responseDescription>'
            f'{esc(desc or ("OK" if code == 200 else "ERROR"))}</ei:responseDescription>'
            f'<pyld:requestID>{esc(request_id or "")}</pyld:requestID></ei:eiResponse>')


def b_poll(ven_id):
    return signed_object('oadrPoll', f'<ei:venID>{esc(ven_id)}</ei:venID>')


def b_query(request_id):
    return signed_object('oadrQueryRegistration', f'<pyld:requestID>{request_id}</pyld:requestID>')


def b_create_reg(request_id, ven_name, ven_id=None):
    return signed_object('oadrCreatePartyRegistration',
                         f'<pyld:requestID>{request_id}</pyld:requestID>'
                         + (f'<ei:venID>{esc(ven_id)}</ei:venID>' if ven_id else '')
                         + '<oadr:oadrProfileName>2.0b</oadr:oadrProfileName><oadr:oadrTransportName>simpleHttp'
                           '</oadr:oadrTransportName><oadr:oadrTransportAddress>None</oadr:oadrTransportAddress>'
                           '<oadr:oadrReportOnly>false</oadr:oadrReportOnly><oadr:oadrXmlSignature>false'
                           f'</oadr:oadrXmlSignature><oadr:oadrVenName>{esc(ven_name)}</oadr:oadrVenName>'
                           '<oadr:oadrHttpPullModel>true</oadr:oadrHttpPullModel>')


def b_cancel_reg(request_id, registration_id, ven_id):
    return signed_object('oadrCancelPartyRegistration',
                         f'<pyld:requestID>{request_id}</pyld:requestID><ei:registrationID>{esc(registration_id)}'
                         f'</ei:registrationID><ei:venID>{esc(ven_id)}</ei:venID>')


def b_created_reg(request_id, ven_id, registration_id, vtn_id, poll_freq, code=200):
    return signed_object('oadrCreatedPartyRegistration',
                         ei_response(code, request_id)
                         + (f'<ei:registrationID>{esc(registration_id)}</ei:registrationID>' if registration_id
                            else '<ei:registrationID/>')
                         + (f'<ei:venID>{esc(ven_id)}</ei:venID>' if ven_id else '<ei:venID/>')
                         + f'<ei:vtnID>{esc(vtn_id)}</ei:vtnID><oadr:oadrProfiles><oadr:oadrProfile>'
                           '<oadr:oadrProfileName>2.0b</oadr:oadrProfileName><oadr:oadrTransports>'
                           '<oadr:oadrTransport><oadr:oadrTransportName>simpleHttp</oadr:oadrTransportName>'
                           '</oadr:oadrTransport></oadr:oadrTransports></oadr:oadrProfile></oadr:oadrProfiles>'
                         + (f'<oadr:oadrRequestedOadrPollFreq><xcal:duration>{fmtdur(poll_freq)}</xcal:duration>'
                            '</oadr:oadrRequestedOadrPollFreq>' if poll_freq else ''))


def b_request_event(request_id, ven_id):
    return signed_object('oadrRequestEvent', f'<pyld:eiRequestEvent><pyld:requestID>{request_id}</pyld:requestID>'
                                             f'<ei:venID>{esc(ven_id)}</ei:venID></pyld:eiRequestEvent>')


def b_created_event(request_id, ven_id, responses, code=200):
    r = ''.join(f'<ei:eventResponse><ei:responseCode>200</ei:responseCode><ei:responseDescription>OK'
                f'</ei:responseDescription><pyld:requestID>{request_id}</pyld:requestID><ei:qualifiedEventID>'
                f'<ei:eventID>{esc(e)}</ei:eventID><ei:modificationNumber>{m}</ei:modificationNumber>'
                f'</ei:qualifiedEventID><ei:optType>{o}</ei:optType></ei:eventResponse>' for e, m, o in responses)
    return signed_object('oadrCreatedEvent',
                         '<pyld:eiCreatedEvent>' + ei_response(code, '')
                         + (f'<ei:eventResponses>{r}</ei:eventResponses>' if r else '')
                         + f'<ei:venID>{esc(ven_id)}</ei:venID></pyld:eiCreatedEvent>')


def b_response(code, request_id, ven_id, desc=None):
    return signed_object('oadrResponse', ei_response(code, request_id, desc) + f'<ei:venID>{esc(ven_id or "")}</ei:venID>')


def b_rereg(ven_id):
    return signed_object('oadrRequestReregistration', f'<ei:venID>{esc(ven_id)}</ei:venID>')


def b_event(ev):
    """ev: id, mod, status, start, intervals [(dur, value)], signals [(name, type)], rr, created, ramp"""
    total = sum(i[0] for i in ev['intervals'])
    sig = ''
    for k, (name, stype) in enumerate(ev['signals']):
        t = ev['start']
        iv = ''
        for n, (d, v) in enumerate(ev['intervals']):
            iv += (f'<ei:interval><xcal:dtstart><xcal:date-time>{iso(t)}</xcal:date-time></xcal:dtstart>'
                   f'<xcal:duration><xcal:duration>{fmtdur(d)}</xcal:duration></xcal:duration>'
                   f'<xcal:uid><xcal:text>{n}</xcal:text></xcal:uid><ei:signalPayload><ei:payloadFloat>'
                   f'<ei:value>{v}</ei:value></ei:payloadFloat></ei:signalPayload></ei:interval>')
            t += d
        sig += (f'<ei:eiEventSignal><strm:intervals>{iv}</strm:intervals><ei:signalName>{name}</ei:signalName>'
                f'<ei:signalType>{stype}</ei:signalType><ei:signalID>sig{k}</ei:signalID></ei:eiEventSignal>')
    ramp = (f'<ei:x-eiRampUp><xcal:duration>{fmtdur(ev["ramp"])}</xcal:duration></ei:x-eiRampUp>'
            if ev.get('ramp') else '')
    return (f'<oadr:oadrEvent><ei:eiEvent><ei:eventDescriptor><ei:eventID>{esc(ev["id"])}</ei:eventID>'
            f'<ei:modificationNumber>{ev["mod"]}</ei:modificationNumber><ei:priority>{ev.get("priority", 0)}</ei:priority>'
            '<ei:eiMarketContext><emix:marketContext>http://market.context</emix:marketContext></ei:eiMarketContext>'
            f'<ei:createdDateTime>{iso(ev["created"])}</ei:createdDateTime><ei:eventStatus>{ev["status"]}</ei:eventStatus>'
            f'</ei:eventDescriptor><ei:eiActivePeriod><xcal:properties><xcal:dtstart><xcal:date-time>{iso(ev["start"])}'
            f'</xcal:date-time></xcal:dtstart><xcal:duration><xcal:duration>{fmtdur(total)}</xcal:duration></xcal:duration>'
            f'{ramp}</xcal:properties><xcal:components/></ei:eiActivePeriod><ei:eiEventSignals>{sig}</ei:eiEventSignals>'
            f'<ei:eiTarget><ei:venID>{esc(ev["ven"])}</ei:venID></ei:eiTarget></ei:eiEvent>'
            f'<oadr:oadrResponseRequired>{ev["rr"]}</oadr:oadrResponseRequired></oadr:oadrEvent>')


def b_distribute(request_id, vtn_id, events, resp_request_id=''):
    return signed_object('oadrDistributeEvent', ei_response(200, resp_request_id)
                         + f'<pyld:requestID>{request_id}</pyld:requestID><ei:vtnID>{esc(vtn_id)}</ei:vtnID>'
                         + ''.join(b_event(e) for e in events))


def b_repreq(rq):
    return (f'<oadr:oadrReportRequest><ei:reportRequestID>{esc(rq["id"])}</ei:reportRequestID><ei:reportSpecifier>'
            f'<ei:reportSpecifierID>{esc(rq["specifier"])}</ei:reportSpecifierID><xcal:granularity><xcal:duration>'
            f'{fmtdur(rq["granularity"])}</xcal:duration></xcal:granularity><ei:reportBackDuration><xcal:duration>'
            f'{fmtdur(rq["back"])}</xcal:duration></ei:reportBackDuration>'
            + (f'<ei:reportInterval><xcal:properties><xcal:dtstart><xcal:date-time>{iso(rq["at"])}</xcal:date-time></xcal:dtstart>'
               '<xcal:duration><xcal:duration>PT0S</xcal:duration></xcal:duration></xcal:properties></ei:reportInterval>'
               if rq.get('at') is not None else '')
            + ''.join(f'<ei:specifierPayload><ei:rID>{esc(r)}</ei:rID><ei:readingType>Direct Read</ei:readingType>'
                      '</ei:specifierPayload>' for r in rq['r_ids'])
            + '</ei:reportSpecifier></oadr:oadrReportRequest>')


def b_registered_report(request_id, ven_id, requests):
    return signed_object('oadrRegisteredReport', ei_response(200, request_id) + ''.join(b_repreq(r) for r in requests)
                         + f'<ei:venID>{esc(ven_id)}</ei:venID>')


def b_create_report(request_id, ven_id, requests):
    return signed_object('oadrCreateReport', f'<pyld:requestID>{request_id}</pyld:requestID>'
                         + ''.join(b_repreq(r) for r in requests) + f'<ei:venID>{esc(ven_id)}</ei:venID>')


def b_updated_report(request_id, ven_id, cancel=None):
    c = ''
    if cancel:
        c = (f'<oadr:oadrCancelReport><pyld:requestID>{cancel["request_id"]}</pyld:requestID><ei:reportRequestID>'
             f'{esc(cancel["report_request_id"])}</ei:reportRequestID><pyld:reportToFollow>'
             f'{"true" if cancel.get("follow") else "false"}</pyld:reportToFollow><ei:venID>{esc(ven_id)}</ei:venID>'
             '</oadr:oadrCancelReport>')
    return signed_object('oadrUpdatedReport', ei_response(200, request_id) + c + f'<ei:venID>{esc(ven_id)}</ei:venID>')


def b_cancel_report(request_id, ven_id, rrid, follow=False):
    return signed_object('oadrCancelReport', f'<pyld:requestID>{request_id}</pyld:requestID><ei:reportRequestID>'
                         f'{esc(rrid)}</ei:reportRequestID><pyld:reportToFollow>{"true" if follow else "false"}'
                         f'</pyld:reportToFollow><ei:venID>{esc(ven_id)}</ei:venID>')


def b_update_report(request_id, ven_id, rrid, specifier, intervals, now, name='TELEMETRY_USAGE'):
    iv = ''.join(f'<ei:interval><xcal:dtstart><xcal:date-time>{iso(t)}</xcal:date-time></xcal:dtstart>'
                 f'<oadr:oadrReportPayload><ei:rID>{esc(r)}</ei:rID><ei:payloadFloat><ei:value>{v}</ei:value>'
                 '</ei:payloadFloat></oadr:oadrReportPayload></ei:interval>' for t, r, v in intervals)
    return signed_object('oadrUpdateReport', f'<pyld:requestID>{request_id}</pyld:requestID><oadr:oadrReport>'
                         f'<xcal:dtstart><xcal:date-time>{iso(now)}</xcal:date-time></xcal:dtstart>'
                         f'<strm:intervals>{iv}</strm:intervals><ei:eiReportID>x</ei:eiReportID><ei:reportRequestID>'
                         f'{esc(rrid)}</ei:reportRequestID><ei:reportSpecifierID>{esc(specifier)}</ei:reportSpecifierID>'
                         f'<ei:reportName>{name}</ei:reportName><ei:createdDateTime>{iso(now)}</ei:createdDateTime>'
                         '</oadr:oadrReport>' + (f'<ei:venID>{esc(ven_id)}</ei:venID>' if ven_id else ''))


# -------------------------------------------------------------------- signing
def sign(so, cert_pem, key_pem, now, nonce):
    """XMLDSig envelope around a signed object, as the OpenADR profile wants it."""
    from signxml import XMLSigner, methods
    signer = XMLSigner(method=methods.detached, c14n_algorithm='http://www.w3.org/TR/2001/REC-xml-c14n-20010315')
    signer.namespaces['oadr'] = 'http://openadr.org/oadr-2.0b/2012/07'
    ns = 'http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties'
    el = etree.Element('{%s}ReplayProtect' % ns, nsmap={'dsp': ns}, attrib={'Id': 'myid', 'Target': '#mytarget'})
    t = etree.SubElement(el, '{%s}timestamp' % ns)
    t.text = iso(now)
    n = etree.SubElement(el, '{%s}nonce' % ns)
    n.text = nonce
    sig = signer.sign(etree.fromstring(so), key=key_pem, cert=cert_pem, reference_uri='#oadrSignedObject',
                      signature_properties=el)
    return envelope(so, etree.tostring(sig).decode())


def fingerprint(pem):
    import hashlib
    import ssl
    der = ssl.PEM_cert_to_DER_cert(pem.decode() if isinstance(pem, bytes) else pem)
    h = hashlib.sha256(der).digest().hex()
    return ':'.join(h[i:i + 2].upper() for i in range(44, 64, 2))


# ------------------------------------------------- altering signed messages (attacks)
_DS = 'http://www.w3.org/2000/09/xmldsig#'


def wrap(good, evil_so):
    """Signature wrapping: the signed object is moved into the Signature, another one takes its place."""
    m = good.decode()
    so = re.search(r'<oadr:oadrSignedObject.*</oadr:oadrSignedObject>', m, re.S).group(0)
    inner = re.search(r'<ds:Signature [^>]*>(.*)</ds:Signature>', m, re.S).group(1)
    inner = re.sub(r'<ds:(SignedInfo|SignatureValue|KeyInfo|Object)\b',
                   lambda g: f'<ds:{g.group(1)} xmlns:ds="{_DS}" xmlns=""', inner)
    evil = evil_so.replace('oadr:Id="oadrSignedObject"', 'oadr:Id="evil"')
    moved = so.replace('<oadr:oadrSignedObject', '<oadr:oadrSignedObject xmlns=""', 1)
    return ('<oadr:oadrPayload xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07">'
            f'<Signature xmlns="{_DS}">{inner}<Object>{moved}</Object></Signature>{evil}</oadr:oadrPayload>').encode()


def extra_replay_protect(signed, nonce, when='2099-01-01T00:00:00.000000Z'):
    """An unsigned second ReplayProtect with a fresh nonce in front of the signed one."""
    m = signed.decode()
    i = m.index('<ds:Object')
    rp = ('<ds:Object><dsp:ReplayProtect xmlns:dsp="http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties">'
          f'<dsp:timestamp>{when}</dsp:timestamp><dsp:nonce>{nonce}</dsp:nonce></dsp:ReplayProtect></ds:Object>')
    return (m[:i] + rp + m[i:]).encode()


def replay_protect(body):
    """(timestamp, nonce) of the last ReplayProtect in a message, or None."""
    m = re.findall(rb'timestamp>([^<]*)<.*?nonce>([^<]*)<', body, re.S)
    return (ts(m[-1][0].decode()), m[-1][1].decode()) if m else None


def b_canceled_reg(request_id, registration_id, ven_id, code=200):
    return signed_object('oadrCanceledPartyRegistration', ei_response(code, request_id)
                         + f'<ei:registrationID>{esc(registration_id)}</ei:registrationID><ei:venID>{esc(ven_id)}</ei:venID>')


def b_register_report_empty(request_id, ven_id):
    return signed_object('oadrRegisterReport', f'<pyld:requestID>{request_id}</pyld:requestID><ei:venID>{esc(ven_id)}</ei:venID>')


def b_canceled_report(request_id, ven_id, pending=()):
    return signed_object('oadrCanceledReport', ei_response(200, request_id) + '<oadr:oadrPendingReports>'
                         + ''.join(f'<ei:reportRequestID>{p}</ei:reportRequestID>' for p in pending)
                         + f'</oadr:oadrPendingReports><ei:venID>{esc(ven_id)}</ei:venID>')


def b_created_report(request_id, ven_id, pending=()):
    return b_canceled_report(request_id, ven_id, pending).replace('oadrCanceledReport', 'oadrCreatedReport')


def b_register_report(request_id, ven_id, reports, now):
    """reports: [{'spec', 'name', 'points': [{'rid','resource','min','max'}]}] (status reports)"""
    out = ''
    for r in reports:
        ds = ''.join(f'<oadr:oadrReportDescription><ei:rID>{esc(p["rid"])}</ei:rID><ei:reportDataSource><ei:resourceID>'
                     f'{esc(p["resource"])}</ei:resourceID></ei:reportDataSource><ei:reportType>x-resourceStatus</ei:reportType>'
                     '<ei:readingType>x-notApplicable</ei:readingType><oadr:oadrSamplingRate><oadr:oadrMinPeriod>'
                     f'{fmtdur(p["min"])}</oadr:oadrMinPeriod><oadr:oadrMaxPeriod>{fmtdur(p["max"])}</oadr:oadrMaxPeriod>'
                     '<oadr:oadrOnChange>false</oadr:oadrOnChange></oadr:oadrSamplingRate></oadr:oadrReportDescription>'
                     for p in r['points'])
        out += (f'<oadr:oadrReport><xcal:duration><xcal:duration>PT1H</xcal:duration></xcal:duration>{ds}'
                f'<ei:reportRequestID>0</ei:reportRequestID><ei:reportSpecifierID>{esc(r["spec"])}</ei:reportSpecifierID>'
                f'<ei:reportName>METADATA_{r["name"]}</ei:reportName><ei:createdDateTime>{iso(now)}</ei:createdDateTime>'
                '</oadr:oadrReport>')
    return signed_object('oadrRegisterReport', f'<pyld:requestID>{request_id}</pyld:requestID>{out}<ei:venID>{esc(ven_id)}</ei:venID>')


def b_create_opt(request_id, ven_id):
    return signed_object('oadrCreateOpt', '<ei:optID>opt1x</ei:optID><ei:optType>optIn</ei:optType><ei:optReason>economic</ei:optReason>'
                         f'<ei:venID>{esc(ven_id)}</ei:venID><ei:createdDateTime>2024-01-01T00:00:00Z</ei:createdDateTime>'
                         f'<pyld:requestID>{request_id}</pyld:requestID><ei:eiTarget/>')


def b_cancel_opt(request_id, ven_id):
    return signed_object('oadrCancelOpt', f'<pyld:requestID>{request_id}</pyld:requestID><ei:optID>opt1x</ei:optID>'
                         f'<ei:venID>{esc(ven_id)}</ei:venID>')


# ----------------------------------------------------------- odd but deliberate XML
def mutate(so, muts):
    """Small structural changes of a signed object; each names an element by number."""
    import copy
    root = etree.fromstring(so)
    for m in muts:
        els = [e for e in root.iter() if isinstance(e.tag, str) and e is not root]
        if not els:
            break
        e = els[m[1] % len(els)]
        up = e.getparent()
        if m[0] == 'del':
            if up is not root:
                up.remove(e)
        elif m[0] == 'dup':
            up.insert(up.index(e), copy.deepcopy(e))
        elif m[0] == 'text':
            leaves = [x for x in els if not len(x)] or els
            leaves[m[1] % len(leaves)].text = m[2]
        elif m[0] == 'swap':
            i = up.index(e)
            if i + 1 < len(up):
                up.insert(i, up[i + 1])
        elif m[0] == 'comment':
            e.insert(0, etree.Comment(' x '))
        elif m[0] == 'empty':
            for c in list(e):
                e.remove(c)
            e.text = None
        elif m[0] == 'attr':
            e.set(m[2], m[3])
    return etree.tostring(root).decode()


def encode(body, how):
    t = body.decode()
    decl = '<?xml version="1.0" encoding="utf-8"?>'
    rest = t.replace(decl, '', 1)
    if how == 'utf-16':
        return ('<?xml version="1.0" encoding="utf-16"?>' + rest).encode('utf-16')
    if how == 'utf-16be':
        return b'\xfe\xff' + ('<?xml version="1.0" encoding="utf-16"?>' + rest).encode('utf-16-be')
    if how == 'latin1':
        return ('<?xml version="1.0" encoding="iso-8859-1"?>' + rest.replace('</', '<!-- \xe9 --></', 1)).encode('latin1', 'replace')
    if how == 'bom':
        return b'\xef\xbb\xbf' + body
    if how == 'doctype':
        return (decl + '<!DOCTYPE oadrPayload>' + rest).encode()
    if how == 'entity':
        return (decl + '<!DOCTYPE oadrPayload [<!ENTITY e "x">]>' + rest).encode()
    if how == 'pi':
        return (decl + '<?odd thing?>' + rest).encode()
    if how == 'nodecl':
        return rest.encode()
    if how == 'big':
        return (t + '<!-- ' + 'x' * 1100000 + ' -->').encode()
    raise AssertionError(how)
