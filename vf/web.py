"""A simulated web: pages, redirects and OpenID providers behind one fetcher."""
from urllib.parse import parse_qsl, urldefrag, urlencode, urlsplit

from openid import fetchers
from openid.server.server import ProtocolError, Server

from vf.core import Violation, expect


class Headers(dict):
    """Response headers: names are looked up without regard to case."""

    def __init__(self, pairs):
        dict.__init__(self, ((k.lower(), v) for k, v in pairs.items()))

    def get(self, key, default=None):
        return dict.get(self, key.lower(), default)

    def __getitem__(self, key):
        return dict.__getitem__(self, key.lower())

    def __contains__(self, key):
        return dict.__contains__(self, key.lower())


class Web(fetchers.HTTPFetcher):
    """pages: URL -> dict(status, headers, body, final) or callable(body bytes or None, headers) -> such a dict, or an exception.

    Used as a context manager it takes the place of the library's default fetcher.
    """

    def __init__(self, pages=None, budget=500):
        self.pages = dict(pages or {})
        self.log = []
        self.budget = budget

    def fetch(self, url, body=None, headers=None):
        self.budget -= 1
        if self.budget < 0:
            raise Violation('too many requests: %r' % [x[0] for x in self.log[-3:]])
        self.log.append((url, body, headers))
        if not isinstance(url, str):
            raise Violation('request for %r, which is not text' % (url,))
        if not url.lower().startswith(('http://', 'https://')):
            raise fetchers.HTTPFetchingError('Bad URL: %s' % url)
        page = self.pages.get(urldefrag(url)[0])
        if page is None:
            return fetchers.HTTPResponse(urldefrag(url)[0], 404, Headers({'Content-Type': 'text/plain'}), b'not found')
        if callable(page):
            page = page(body, headers)
        if isinstance(page, Exception):
            raise page
        return fetchers.HTTPResponse(page.get('final', urldefrag(url)[0]), page.get('status', 200),
                                     Headers(page.get('headers', {'Content-Type': 'text/html'})), page.get('body', b''))

    def __enter__(self):
        fetchers.setDefaultFetcher(self, wrap_exceptions=False)
        return self

    def __exit__(self, *args):
        fetchers.setDefaultFetcher(None)

    def posts(self):
        return [(u, dict(parse_qsl(b.decode('utf-8'), keep_blank_values=True))) for u, b, _ in self.log if b is not None]


def form(body):
    if isinstance(body, bytes):
        body = body.decode('utf-8')
    return dict(parse_qsl(body, keep_blank_values=True))


class OP(object):
    """A provider run with the library's Server."""

    def __init__(self, store, endpoint='http://op.example/endpoint', server=None):
        self.endpoint = endpoint
        self.server = server or Server(store, endpoint)
        self.requests = []

    def respond(self, args):
        """Answer a direct request; returns (HTTP status, body as bytes)."""
        try:
            request = self.server.decodeRequest(dict(args))
            response = self.server.handleRequest(request)
        except ProtocolError as e:
            response = e
        web = self.server.encodeResponse(response)
        body = web.body
        return web.code, body.encode('utf-8') if isinstance(body, str) else body

    def page(self, body, headers):
        if body is None:
            return {'status': 400, 'body': b'a POST is needed'}
        args = form(body)
        self.requests.append(args)
        code, data = self.respond(args)
        return {'status': code, 'headers': {'Content-Type': 'text/plain'}, 'body': data}

    def redirect_args(self, web):
        """Arguments of an indirect response."""
        expect(web.code == 302 and 'location' in web.headers, 'not a redirect: %r %r', web.code, web.headers)
        url = web.headers['location']
        return url, query(url)


def query(url):
    return dict(parse_qsl(urlsplit(url).query, keep_blank_values=True))


def with_query(url, args):
    return url + ('&' if '?' in url else '?') + urlencode(args)
