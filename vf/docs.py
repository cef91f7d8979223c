"""XRDS and HTML documents made of plain models, and what OpenID services they stand for."""
from vf.core import st

XRD = 'xri://$xrd*($v*2.0)'
XRDS = 'xri://$xrds'
OIDNS = 'http://openid.net/xmlns/1.0'
T_SERVER = 'http://specs.openid.net/auth/2.0/server'
T_SIGNON = 'http://specs.openid.net/auth/2.0/signon'
T_11 = 'http://openid.net/signon/1.1'
T_10 = 'http://openid.net/signon/1.0'
T_SREG = 'http://openid.net/extensions/sreg/1.1'
T_RETURN = 'http://specs.openid.net/auth/2.0/return_to'
OPENID_TYPES = [T_SERVER, T_SIGNON, T_11, T_10]
BIG = 10 ** 30

OPS = ['http://op1.example/', 'http://op2.example/ep?a=b&c=d', 'https://op3.example/x', 'http://op4.example/\xe9', "http://op5.example/<>'\""]
LOCALS = ['http://local.example/me', 'http://local.example/you', 'http://local.example/a?b&c']

prio = st.sampled_from([None, None, '0', '1', '2', '10', '9', '100', '-1', 'high', '', '99999999999999999999'])
uri = st.tuples(prio, st.sampled_from(OPS)).map(list)
service = st.fixed_dictionaries({
    'prio': prio, 'types': st.one_of(st.lists(st.sampled_from(OPENID_TYPES), min_size=1, max_size=2, unique=True), st.lists(st.sampled_from(OPENID_TYPES + [T_SREG, T_RETURN, 'http://unknown.example/', '']), max_size=3)),
    'uris': st.one_of(st.lists(uri, max_size=3), st.lists(uri, min_size=1, max_size=3)), 'local': st.lists(st.sampled_from(LOCALS[:1] * 3 + LOCALS), max_size=2), 'delegate': st.lists(st.sampled_from(LOCALS[:1] * 3 + LOCALS), max_size=1),
    'alien': st.booleans()})
style = st.fixed_dictionaries({'prefix': st.booleans(), 'cdata': st.booleans(), 'decl': st.booleans(), 'doctype': st.booleans(), 'comment': st.booleans(), 'utf16': st.sampled_from([False, False, False, True]), 'refs': st.booleans(), 'nested': st.sampled_from([None, None, None, 'xrd', 'xrds', 'service'])})
xrds = st.fixed_dictionaries({'style': style, 'earlier': st.lists(st.lists(service, max_size=1), max_size=1), 'services': st.one_of(st.lists(service, max_size=4), st.lists(service, min_size=2, max_size=5))})


def esc(s, refs=False):
    if refs:
        return ''.join(c if c.isalnum() and ord(c) < 128 else '&#%d;' % ord(c) for c in s)
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def xrds_text(model, canonical=None, inner=''):
    """canonical: list of CanonicalID texts (or None), one per XRD."""
    s = model['style']
    p = 'q:' if s['prefix'] else ''
    x = 'sx:' if s['prefix'] else 'xrds:'

    def body(text):
        if s['cdata'] and ']]>' not in text:
            return '<![CDATA[%s]]>' % text
        return esc(text, s['refs'])

    def attr(v):
        return '' if v is None else ' priority="%s"' % esc(v)

    def service_text(v):
        ns = ' xmlns:o="%s"' % OIDNS
        parts = ['<%sType>%s</%sType>' % (p, body(t), p) for t in v['types']]
        parts += ['<%sURI%s>%s</%sURI>' % (p, attr(q), body(u), p) for q, u in v['uris']]
        parts += ['<%sLocalID>%s</%sLocalID>' % (p, body(t), p) for t in v['local']]
        parts += ['<o:Delegate>%s</o:Delegate>' % body(t) for t in v['delegate']]
        if v['alien']:
            parts.append('<z:URI xmlns:z="http://alien.example/">http://alien.example/</z:URI><z:Type xmlns:z="http://alien.example/">%s</z:Type>' % T_SIGNON)
            parts.append('<z:LocalID xmlns:z="http://alien.example/">http://alien.example/me</z:LocalID>')
        if nested == 'service':
            parts.insert(len(parts) // 2, hidden(''))
        return '<%sService%s%s>%s</%sService>' % (p, attr(v['prio']), ns, ''.join(parts), p)

    nested = s.get('nested')

    def hidden(decl):
        # elements of the description inside of an extension element do not describe the identifier
        fake = '<{p}Type>%s</{p}Type><{p}URI>http://nested.example/</{p}URI><{p}LocalID>http://nested.example/me</{p}LocalID><o:Delegate xmlns:o="%s">http://nested.example/me</o:Delegate>' % (T_SIGNON, OIDNS)
        if nested != 'service':
            fake = '<{p}XRD%s><{p}CanonicalID>=!0</{p}CanonicalID><{p}Service priority="0">%s</{p}Service></{p}XRD><{p}Service%s priority="0">%s</{p}Service>' % (decl, fake, decl, fake)
        return '<z:Ext xmlns:z="http://alien.example/">%s</z:Ext>' % fake.format(p=p)

    xs = []
    lists = model['earlier'] + [model['services']]
    for i, services in enumerate(lists):
        cid = canonical[i] if canonical else None
        cids = '' if cid is None else '<%sCanonicalID>%s</%sCanonicalID>' % (p, body(cid), p)
        xs.append('<%sXRD %s="%s">%s%s%s</%sXRD>' % (p, 'xmlns:q' if s['prefix'] else 'xmlns', XRD, cids, '<!-- <Service/> -->' if s['comment'] else '', ''.join(map(service_text, services)) + inner + (hidden('') if nested == 'xrd' else ''), p))
    if nested == 'xrds':
        xs.append(hidden(' %s="%s"' % ('xmlns:q' if s['prefix'] else 'xmlns', XRD)))
    enc = 'utf-16' if s['utf16'] else 'utf-8'
    text = '<%sXRDS xmlns:%s="%s">\n%s</%sXRDS>' % (x, x[:-1], XRDS, '\n'.join(xs), x)
    if s['doctype']:
        text = '<!DOCTYPE x [<!ENTITY e "v">]>' + text
    if s['decl'] or s['utf16']:
        text = '<?xml version="1.0" encoding="%s"?>\n' % enc + text
    return text.encode(enc)


def prio_key(v):
    try:
        n = int(v)
    except (TypeError, ValueError):
        return BIG
    return n if n >= 0 else BIG


class Conflict(Exception):
    """The local identifiers of a service contradict one another."""


def service_endpoints(v, claimed):
    """[(uri priority, endpoint dict)] of a service."""
    out = []
    if not [t for t in v['types'] if t in OPENID_TYPES]:
        return out
    for q, u in v['uris']:
        op = T_SERVER in v['types']
        local = None
        if not op:
            ids = []
            if T_11 in v['types'] or T_10 in v['types']:
                ids += v['delegate']
            if T_SIGNON in v['types']:
                ids += v['local']
            if len(set(ids)) > 1:
                raise Conflict()
            local = ids[0] if ids else None
        out.append((prio_key(q), {'server_url': u, 'types': v['types'], 'claimed_id': None if op else claimed, 'local_id': local}))
    return out


def describe(e):
    return {'server_url': e.server_url, 'types': list(e.type_uris), 'claimed_id': e.claimed_id, 'local_id': e.local_id}


# ---- HTML
link = st.fixed_dictionaries({'rel': st.lists(st.sampled_from(['openid2.provider', 'openid2.local_id', 'openid.server', 'openid.delegate', 'openid2.provider', 'openid.server', 'stylesheet', 'openid', 'xopenid.server', 'openid.serverx']), min_size=1, max_size=3),
                              'href': st.one_of(st.none(), st.sampled_from(OPS + LOCALS + ['']), st.sampled_from(OPS + LOCALS)), 'quote': st.sampled_from(['"', "'"]), 'upper': st.booleans(), 'swap': st.booleans(),
                              'where': st.sampled_from(['head', 'head', 'head', 'head', 'head', 'body', 'comment']), 'close': st.booleans(), 'ws': st.booleans()})
html = st.fixed_dictionaries({'links': st.lists(link, max_size=5), 'doctype': st.booleans(), 'meta': st.just(None)})


def html_text(model, meta=None, meta_style=0, encoding='utf-8'):
    """meta: location of the XRDS document for the Yadis meta element."""
    head, body = [], []
    if meta is not None:
        name = ['X-XRDS-Location', 'x-xrds-location', 'X-XRDS-LOCATION'][meta_style % 3]
        attrs = ['http-equiv="%s"' % name, 'content="%s"' % esc(meta)]
        if meta_style >= 3:
            attrs.reverse()
        head.append('<meta %s>' % ' '.join(attrs))
    for v in model['links']:
        tag, arel, ahref = ('LINK', 'REL', 'HREF') if v['upper'] else ('link', 'rel', 'href')
        q = v['quote']
        sep = '\n  ' if v['ws'] else ' '
        attrs = ['%s=%s%s%s' % (arel, q, sep.join(v['rel']), q)]
        if v['href'] is not None:
            attrs.append('%s=%s%s%s' % (ahref, q, esc(v['href']).replace("'", '&#39;'), q))
        if v['swap']:
            attrs.reverse()
        text = '<%s %s%s>' % (tag, ' '.join(attrs), ' /' if v['close'] else '')
        if v['where'] == 'comment':
            head.append('<!-- %s -->' % text)
        else:
            (head if v['where'] == 'head' else body).append(text)
    out = '%s<html><head><title>A &lt;page&gt;</title>%s</head><body><p>text</p>%s</body></html>' % ('<!DOCTYPE html>\n' if model['doctype'] else '', '\n'.join(head), ''.join(body))
    if encoding == 'utf-8':
        out = out.replace('<title>', '<meta http-equiv="Content-Type" content="text/html; charset=utf-8"><title>')
    return out.encode(encoding, 'xmlcharrefreplace')


def html_endpoints(model, claimed):
    out = []
    for typ, prel, lrel in ((T_SIGNON, 'openid2.provider', 'openid2.local_id'), (T_11, 'openid.server', 'openid.delegate')):
        links = [v for v in model['links'] if v['where'] == 'head' and prel in v['rel']]
        if not links or not links[0]['href']:
            continue
        locals_ = [v for v in model['links'] if v['where'] == 'head' and lrel in v['rel']]
        out.append({'server_url': links[0]['href'], 'types': [typ], 'claimed_id': claimed, 'local_id': (locals_[0]['href'] or None) if locals_ else None})
    return out
