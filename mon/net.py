"""A fake network at the transport boundary.

Inside `with Net(...)` nothing leaves the process: requests (through its HTTP
adapter), urllib (through an installed opener) and FTP (a loopback server the
resolver is pointed at) are answered by the steps of a script.  Every request is
recorded and compared with what the script expects.
"""
import io
import json
import socket
import socketserver
import threading
import time
import urllib.error
import urllib.parse
import urllib.request
import urllib.response
from email.message import Message

import requests
import urllib3

REASON = {200: 'OK', 201: 'Created', 202: 'Accepted', 400: 'Bad Request', 401: 'Unauthorized', 403: 'Forbidden',
          404: 'Not Found', 422: 'Unprocessable Entity', 429: 'Too Many Requests', 500: 'Internal Server Error',
          502: 'Bad Gateway', 503: 'Service Unavailable'}


class Step:
    """One expected request and its answer."""

    def __init__(self, url, body=b'', method='GET', query=None, headers=None, payload=None, auth=None, timeout=None,
                 check=None, status=200, ctype='text/plain; charset=utf-8', label='', fuzzy=None, repeat=1):
        self.url, self.method, self.query = url, method, {k: v for k, v in (query or {}).items() if v is not None}
        self.body = body if isinstance(body, bytes) else body.encode('utf-8')
        self.headers, self.payload, self.auth, self.timeout = headers or {}, payload, auth, timeout
        self.check, self.status, self.ctype, self.label = check, status, ctype, label
        self.fuzzy = fuzzy or {}        # query key -> function(value) -> problem or None
        self.left = repeat


class Fault:
    """What happens instead of (or to) the answer of one step."""

    def __init__(self, kind, status=None, body=b'', ctype='text/html', cut=None):
        self.kind, self.status, self.body, self.ctype, self.cut = kind, status, body, ctype, cut

    def __repr__(self):
        return f'{self.kind}({self.status or ""}{"" if self.cut is None else self.cut}:{self.body[:40]!r})'


def same(got, want):
    """Equality of a query value and what the caller gave (numbers by value)."""
    if isinstance(want, bool):
        want = str(want)
    if isinstance(want, (int, float)):
        try:
            return abs(float(got) - want) <= 1e-9 * max(1., abs(want))
        except (TypeError, ValueError):
            return False
    if isinstance(want, (list, tuple)):
        parts = got.split(',')
        return len(parts) == len(want) and all(same(a, b) for a, b in zip(parts, want))
    return str(got) == str(want)


def same_json(got, want, path=''):
    """Problems between two JSON documents."""
    if callable(want):
        p = want(got)
        return [f'{path}: {p}'] if p else []
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return [f'{path}: {got!r} is not an object']
        out = [f'{path}/{k}: {"missing" if k in want else "unexpected " + repr(got[k])}' for k in set(got) ^ set(want)]
        for k in set(got) & set(want):
            out += same_json(got[k], want[k], f'{path}/{k}')
        return out
    if isinstance(want, (list, tuple)):
        if not isinstance(got, list) or len(got) != len(want):
            return [f'{path}: {got!r} != {want!r}']
        out = []
        for i, (a, b) in enumerate(zip(got, want)):
            out += same_json(a, b, f'{path}[{i}]')
        return out
    if isinstance(want, bool) or want is None or isinstance(got, bool):
        return [] if got is want else [f'{path}: {got!r} != {want!r}']
    if isinstance(want, (int, float)) and isinstance(got, (int, float)):
        return [] if abs(got - want) <= 1e-9 * max(1, abs(want)) else [f'{path}: {got!r} != {want!r}']
    return [] if got == want else [f'{path}: {got!r} != {want!r}']


class Net:
    def __init__(self, steps, faults=None, ftp=None, real_time=False):
        self.steps = list(steps)
        self.faults = faults or {}       # step index -> Fault
        self.ftp = ftp
        self.log, self.problems = [], []
        self.slept = 0.
        self.left = [s.left for s in self.steps]
        self.last = None

    # ----------------------------------------------------------- matching
    def mismatch(self, s, r):
        out = []
        if r['method'] != s.method:
            out.append(f'method {r["method"]} instead of {s.method}')
        q = {}
        for k, v in urllib.parse.parse_qsl(urllib.parse.urlsplit(r['url']).query, keep_blank_values=True):
            if k in q:
                out.append(f'parameter {k} is sent twice')
            q[k] = v
        for k in sorted(set(q) | set(s.query) | set(s.fuzzy)):
            if k in s.fuzzy:
                p = s.fuzzy[k](q.get(k))
                if p:
                    out.append(f'parameter {k}: {p}')
            elif k not in s.query:
                out.append(f'parameter {k}={q[k]!r} was not asked for')
            elif k not in q:
                out.append(f'parameter {k}={s.query[k]!r} is missing')
            elif not same(q[k], s.query[k]):
                out.append(f'parameter {k}={q[k]!r} instead of {s.query[k]!r}')
        low = {k.lower(): v for k, v in r['headers'].items()}
        for k, v in s.headers.items():
            if low.get(k.lower()) != v:
                out.append(f'header {k}: {low.get(k.lower())!r} instead of {v!r}')
        if s.payload is not None:
            try:
                got = json.loads(r['body'] or b'null')
            except ValueError:
                out.append('body is not JSON')
            else:
                out += ['body' + p for p in same_json(got, s.payload)]
        if s.auth is not None:
            import base64
            want = 'Basic ' + base64.b64encode(':'.join(s.auth).encode('latin1')).decode()
            if low.get('authorization') != want:
                out.append(f'credentials {low.get("authorization")!r}')
        if s.timeout is not None and r['timeout'] != s.timeout:
            out.append(f'timeout {r["timeout"]!r} instead of {s.timeout!r}')
        if s.check is not None:
            out += s.check(r) or []
        return out

    def answer(self, r):
        """(status, headers, body) for a request, or an exception class."""
        self.log.append(r)
        base = r['url'].split('?')[0]
        best = None
        for i, s in enumerate(self.steps):
            if self.left[i] > 0 and s.url == base:
                p = self.mismatch(s, r)
                if best is None or len(p) < len(best[1]):
                    best = (i, p)
                if not p:
                    break
        if best is None:
            known = any(s.url == base for s in self.steps)
            self.problems.append(f'{r["method"]} {r["url"][:300]}: ' + ('requested again' if known else 'unexpected request'))
            return 404, 'text/html', b'<html>not found</html>'
        i, p = best
        self.left[i] -= 1
        self.problems += [f'request {self.steps[i].label or i}: {x}' for x in p]
        s = self.steps[i]
        self.last = i
        f = self.faults.get(i)
        content = s.answer_for(r) if hasattr(s, 'answer_for') else s.body
        if f is None:
            return s.status, s.ctype, content
        if f.kind == 'status' or f.kind == 'document':
            return f.status, f.ctype, f.body
        if f.kind == 'cut':
            return s.status, s.ctype, content[:f.cut]
        return f.kind, None, None

    # ----------------------------------------------------------- transports
    def _send(self, adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        r = dict(method=request.method, url=request.url, headers=dict(request.headers), body=request.body,
                 timeout=timeout, via='requests')
        st, ct, body = self.answer(r)
        if st == 'refused':
            raise requests.exceptions.ConnectionError('connection refused', request=request)
        if st == 'timeout':
            raise requests.exceptions.ReadTimeout('read timed out', request=request)
        raw = urllib3.HTTPResponse(body=io.BytesIO(body), headers={'Content-Type': ct}, status=st,
                                   reason=REASON.get(st, ''), preload_content=False, request_method=request.method)
        return adapter.build_response(request, raw)

    def _open(self, req):
        timeout = getattr(req, 'timeout', None)
        r = dict(method=req.get_method(), url=req.full_url, headers=dict(req.header_items()), body=req.data,
                 timeout=timeout, via='urllib')
        st, ct, body = self.answer(r)
        if st == 'refused':
            raise urllib.error.URLError(ConnectionRefusedError(111, 'Connection refused'))
        if st == 'timeout':
            raise urllib.error.URLError(TimeoutError('timed out'))
        h = Message()
        h['Content-Type'] = ct
        resp = urllib.response.addinfourl(io.BytesIO(body), h, req.full_url, st)
        resp.msg = REASON.get(st, '')
        return resp

    def __enter__(self):
        net = self
        self._keep = (requests.adapters.HTTPAdapter.send, urllib.request._opener, time.sleep,
                      socket.create_connection, time.time, time.monotonic)
        requests.adapters.HTTPAdapter.send = lambda a, request, **kw: net._send(a, request, **kw)

        class H(urllib.request.BaseHandler):
            handler_order = 100

            def http_open(self, req):
                return net._open(req)
            https_open = http_open
        o = urllib.request.OpenerDirector()
        for h in (H(), urllib.request.HTTPRedirectHandler(), urllib.request.HTTPDefaultErrorHandler(), urllib.request.HTTPErrorProcessor(),
                  urllib.request.UnknownHandler()):
            o.add_handler(h)
        urllib.request.install_opener(o)
        t_off = [0.]
        tt, tm = time.time, time.monotonic

        def sleep(s):
            net.slept += s
            t_off[0] += s
        time.sleep = sleep
        time.time = lambda: tt() + t_off[0]
        time.monotonic = lambda: tm() + t_off[0]
        self.advance = lambda s: t_off.__setitem__(0, t_off[0] + s)
        real = socket.create_connection
        if self.ftp is not None:
            self.ftp.start()

        def connect(address, *a, **k):
            if net.ftp is not None and address[0] == net.ftp.host:
                return real(('127.0.0.1', net.ftp.port), *a, **k)
            if address[0] in ('127.0.0.1', 'localhost', '::1'):
                return real(address, *a, **k)
            net.problems.append(f'connection to {address}')
            raise ConnectionRefusedError(111, f'no network: {address}')
        socket.create_connection = connect
        return self

    def __exit__(self, *a):
        (requests.adapters.HTTPAdapter.send, urllib.request._opener, time.sleep,
         socket.create_connection, time.time, time.monotonic) = self._keep
        if self.ftp is not None:
            self.ftp.stop()
            self.problems += self.ftp.problems
        return False

    def unserved(self):
        return [s.label or s.url for s, n in zip(self.steps, self.left) if n > 0]


class Ftp:
    """A loopback FTP server holding files {'/dir/name': bytes}; records every command."""

    def __init__(self, host, files, user, password, faults=None):
        self.host, self.files, self.user, self.password = host, files, user, password
        self.faults = faults or {}       # path -> ('status', line) | ('cut', n) | ('drop', n)
        self.log, self.problems = [], []
        self.served = []

    def start(self):
        ftp = self

        class Handler(socketserver.StreamRequestHandler):
            timeout = 20

            def say(self, s):
                self.wfile.write((s + '\r\n').encode())

            def handle(self):
                try:
                    self.run()
                except (OSError, ValueError):
                    pass

            def run(self):
                cwd, data, user, ok = '/', None, None, False
                self.say('220 ready')
                while True:
                    line = self.rfile.readline()
                    if not line:
                        break
                    cmd, _, arg = line.decode('latin1').strip().partition(' ')
                    cmd = cmd.upper()
                    ftp.log.append((cmd, arg))
                    if cmd == 'USER':
                        user = arg
                        self.say('331 password')
                    elif cmd == 'PASS':
                        ok = user == ftp.user and arg == ftp.password
                        self.say('230 in' if ok else '530 Login incorrect.')
                    elif cmd == 'QUIT':
                        self.say('221 bye')
                        break
                    elif not ok:
                        self.say('530 Please login with USER and PASS.')
                    elif cmd == 'CWD':
                        path = arg if arg.startswith('/') else cwd.rstrip('/') + '/' + arg
                        path = '/' + path.strip('/')
                        if any(f.startswith(path.rstrip('/') + '/') for f in ftp.files):
                            cwd = path
                            self.say('250 Directory successfully changed.')
                        else:
                            self.say('550 Failed to change directory.')
                    elif cmd in ('TYPE', 'NOOP'):
                        self.say('200 ok')
                    elif cmd in ('PASV', 'EPSV'):
                        data = socket.socket()
                        data.bind(('127.0.0.1', 0))
                        data.listen(1)
                        data.settimeout(10)
                        p = data.getsockname()[1]
                        self.say(f'227 Entering Passive Mode (127,0,0,1,{p // 256},{p % 256}).' if cmd == 'PASV'
                                 else f'229 Extended (|||{p}|)')
                    elif cmd == 'RETR':
                        path = arg if arg.startswith('/') else cwd.rstrip('/') + '/' + arg
                        f = ftp.faults.get(path)
                        if f and f[0] == 'status':
                            self.say(f[1])
                            if data:
                                data.close()
                                data = None
                            if f[1].startswith('421'):
                                break
                            continue
                        if path not in ftp.files:
                            self.say('550 Failed to open file.')
                            if data:
                                data.close()
                                data = None
                            continue
                        ftp.served.append(path)
                        body = ftp.files[path]
                        if data is None:
                            self.say('425 no data connection')
                            continue
                        conn, _ = data.accept()
                        self.say('150 Opening BINARY mode data connection.')
                        if f:
                            body = body[:f[1]]
                        conn.sendall(body)
                        conn.close()
                        data.close()
                        data = None
                        if f and f[0] == 'drop':
                            break
                        self.say('226 Transfer complete.' if not f or f[0] == 'cut' else f[2])
                    else:
                        self.say('502 no such command')
                if data is not None:
                    data.close()

        class S(socketserver.ThreadingTCPServer):
            allow_reuse_address = True
            daemon_threads = True
        self.server = S(('127.0.0.1', 0), Handler)
        self.port = self.server.server_address[1]
        self.thread = threading.Thread(target=lambda: self.server.serve_forever(poll_interval=0.02), daemon=True)
        self.thread.start()

    def stop(self):
        self.server.shutdown()
        self.server.server_close()
