"""A scripted HTTP server on the loopback interface, and the library's fetchers.

The server closes each connection after one response.
"""
import os
import socket
import threading

for _name in list(os.environ):
    if _name.lower().endswith('_proxy'):
        del os.environ[_name]

from openid import fetchers  # noqa: E402


def available():
    out = ['Urllib2Fetcher']
    for lib, name in (('requests', 'RequestsFetcher'), ('pycurl', 'CurlHTTPFetcher'), ('httplib2', 'HTTPLib2Fetcher')):
        if getattr(fetchers, lib, None) is not None:
            out.append(name)
    return out


def response(status, headers, body, framing='length', interim=False):
    head = ['HTTP/1.1 %d Status' % status, 'Connection: close'] + ['%s: %s' % (k, v) for k, v in headers]
    if status in (204, 304):
        body = data = b''
    elif framing == 'length':
        head.append('Content-Length: %d' % len(body))
        data = body
    elif framing == 'chunked':
        head.append('Transfer-Encoding: chunked')
        step = max(1, len(body) // 3)
        chunks = [body[i:i + step] for i in range(0, len(body), step)]
        data = b''.join(b'%x\r\n%s\r\n' % (len(c), c) for c in chunks) + b'0\r\n\r\n'
    else:
        data = body
    raw = ('\r\n'.join(head) + '\r\n\r\n').encode('latin-1') + data
    return b'HTTP/1.1 100 Continue\r\n\r\n' + raw if interim else raw


class Loop(object):
    """answer: (method, target, headers, body) -> bytes to send."""
    instance = None

    def __init__(self):
        self.sockets = [socket.socket(), socket.socket()]
        self.answer = None
        self.log = []
        self.errors = []
        for s in self.sockets:
            s.bind(('127.0.0.1', 0))
            s.listen(64)
            threading.Thread(target=self.accept, args=(s,), daemon=True).start()
        ftp = socket.socket()
        ftp.bind(('127.0.0.1', 0))
        ftp.listen(64)
        threading.Thread(target=self.accept_ftp, args=(ftp,), daemon=True).start()
        self.ftp_port = ftp.getsockname()[1]
        self.ports = [s.getsockname()[1] for s in self.sockets]
        closed = socket.socket()
        closed.bind(('127.0.0.1', 0))  # bound and not listening: connections are refused
        self.sockets.append(closed)
        self.closed_port = closed.getsockname()[1]

    def accept(self, s):
        while True:
            conn = s.accept()[0]
            threading.Thread(target=self.serve, args=(conn, s.getsockname()[1]), daemon=True).start()

    def accept_ftp(self, s):
        while True:
            threading.Thread(target=self.serve_ftp, args=(s.accept()[0],), daemon=True).start()

    def serve_ftp(self, conn):
        """Just enough FTP for one download."""
        data = socket.socket()
        try:
            conn.settimeout(5)
            data.settimeout(5)
            conn.sendall(b'220 hello\r\n')
            for line in conn.makefile('rb'):
                verb = line.split()[0].upper() if line.split() else b''
                if verb == b'PASV':
                    data.bind(('127.0.0.1', 0))
                    data.listen(1)
                    port = data.getsockname()[1]
                    conn.sendall(b'227 Passive (127,0,0,1,%d,%d)\r\n' % (port // 256, port % 256))
                elif verb == b'RETR':
                    conn.sendall(b'150 here\r\n')
                    transfer = data.accept()[0]
                    transfer.sendall(b'secret')
                    transfer.close()
                    conn.sendall(b'226 done\r\n')
                elif verb == b'QUIT':
                    conn.sendall(b'221 bye\r\n')
                    return
                else:
                    conn.sendall({b'USER': b'331 password\r\n', b'PASS': b'230 in\r\n', b'TYPE': b'200 ok\r\n', b'CWD': b'250 ok\r\n'}.get(verb, b'500 no\r\n'))
        except Exception as e:
            self.errors.append(repr(e))
        finally:
            data.close()
            conn.close()

    def serve(self, conn, port):
        try:
            conn.settimeout(20)
            data = b''
            while b'\r\n\r\n' not in data:
                more = conn.recv(65536)
                if not more:
                    return
                data += more
            head, body = data.split(b'\r\n\r\n', 1)
            lines = head.decode('latin-1').split('\r\n')
            pairs = [(line.split(':', 1)[0].lower(), line.split(':', 1)[1].strip()) for line in lines[1:]]
            headers = dict(pairs)
            if 'expect' in headers:
                conn.sendall(b'HTTP/1.1 100 Continue\r\n\r\n')
            length = int(headers.get('content-length', 0))
            while len(body) < length:
                more = conn.recv(65536)
                if not more:
                    return
                body += more
            method, target = lines[0].split()[:2]
            self.log.append({'port': port, 'method': method, 'target': target, 'pairs': pairs, 'headers': headers, 'body': body})
            conn.sendall(self.answer(port, method, target, headers, body))
            conn.shutdown(socket.SHUT_WR)
        except Exception as e:
            self.errors.append(repr(e))
        finally:
            conn.close()


def loop():
    if Loop.instance is None or Loop.instance.pid != os.getpid():
        Loop.instance = Loop()
        Loop.instance.pid = os.getpid()
    inst = Loop.instance
    inst.log, inst.errors = [], []
    return inst
