"""One login, with both ends of the library, to carry extension data there and back."""
from urllib.parse import parse_qsl, urlsplit

from props.c21 import Form
from vf.core import expect_eq
from vf.web import OP, Web
from openid.consumer.consumer import Consumer
from openid.consumer.discover import OpenIDServiceEndpoint
from openid.server.server import Server
from openid.store.memstore import MemoryStore

ENDPOINT = 'http://op.example/endpoint'
CLAIMED = 'http://user.example/'
TYPES = {'2': 'http://specs.openid.net/auth/2.0/signon', '1.1': 'http://openid.net/signon/1.1', '1.0': 'http://openid.net/signon/1.0'}


def login(version, ask, answer, read, realm='http://rp.example/', return_to='http://rp.example/back'):
    """ask(AuthRequest); answer(CheckIDRequest, OpenIDResponse); read(SuccessResponse)."""
    server = Server(MemoryStore(), ENDPOINT)
    endpoint = OpenIDServiceEndpoint()
    endpoint.claimed_id, endpoint.server_url, endpoint.type_uris = CLAIMED, ENDPOINT, [TYPES[version]]
    session = {}
    with Web({ENDPOINT: OP(None, ENDPOINT, server).page}):
        request = Consumer(session, None).beginWithoutDiscovery(endpoint)
        ask(request)
        url = request.redirectURL(realm, return_to)
        pairs = parse_qsl(urlsplit(url).query, keep_blank_values=True)
        expect_eq(len(dict(pairs)), len(pairs), 'number of distinct arguments')
        asked = server.decodeRequest(dict(pairs))
        response = asked.answer(True)
        answer(asked, response)
        web = server.encodeResponse(response)
        if web.code == 302:
            args = dict(parse_qsl(urlsplit(web.headers['location']).query, keep_blank_values=True))
        else:
            f = Form()
            f.feed(web.body)
            args = dict(f.fields)
            args.update(parse_qsl(urlsplit(f.attrs['action']).query, keep_blank_values=True))
        got = Consumer(session, None).complete(args, return_to.split('?')[0])
        expect_eq((got.status, got.message if got.status == 'failure' else None), ('success', None), 'outcome of the login')
        return read(got)
