"""A simulated JPL Horizons service, the network in front of it, the clock of the machine and
the disk under it.  The seams are the socket layer, the time module and (dst/shim/disk.c) libc:
sunwhere, urllib3, http.client, pandas and numpy run for real."""
import builtins
import ctypes
import datetime as dtm
import errno
import hashlib
import io
import json
import os
import pickle
import random
import socket
import ssl
import sys
import threading
import time
import urllib.parse

import numpy as np

HOST = 'ssd.jpl.nasa.gov'
MAX_LINES = 90024
P = 8191
_rs = np.random.RandomState(20240101)
AZ = np.round(_rs.uniform(0, 360, P), 6)
EL = np.round(_rs.uniform(-90, 90, P), 6)
RR = np.round(_rs.uniform(.983, 1.017, P), 14)
COLS = [f' {("*m", "  ", "Cm", "*r", " m", "N ")[i % 6]} {AZ[i]:11.6f} {EL[i]:11.6f} {RR[i]:17.14f}' for i in range(P)]
AZ = np.array([float(c[4:15]) for c in COLS])
EL = np.array([float(c[16:27]) for c in COLS])
RR = np.array([float(c[28:45]) for c in COLS])
SUF = [f' {m // 60:02d}:{m % 60:02d}:00' for m in range(1440)]
MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
_day = {}
EPOCH = dtm.datetime(1970, 1, 1)


def day_str(d):
    s = _day.get(d)
    if s is None:
        t = EPOCH + dtm.timedelta(days=d)
        s = _day[d] = f' {t.year:04d}-{MON[t.month - 1]}-{t.day:02d}'
    return s


class SimHang(BaseException):
    """The caller would wait for ever here."""


class SimInterrupt(KeyboardInterrupt):
    pass


# ------------------------------------------------------------------ the service
def site_hash(lon, lat, elev, extra=''):
    h = hashlib.sha256(f'{lon:.6f},{lat:.6f},{elev:.3f},{extra}'.encode()).digest()
    return int.from_bytes(h[:6], 'big') % P


DEFAULTS = {'MAKE_EPHEM': 'YES', 'EPHEM_TYPE': 'OBSERVER', 'CENTER': '500@399', 'QUANTITIES': 'A', 'COORD_TYPE': 'GEODETIC',
            'REF_SYSTEM': 'ICRF', 'CAL_FORMAT': 'CAL', 'CAL_TYPE': 'M', 'TIME_DIGITS': 'MINUTES', 'ANG_FORMAT': 'HMS',
            'APPARENT': 'AIRLESS', 'RANGE_UNITS': 'AU', 'SUPPRESS_RANGE_RATE': 'NO', 'SKIP_DAYLT': 'NO',
            'SOLAR_ELONG': '0,180', 'EXTRA_PREC': 'NO', 'R_T_S_ONLY': 'NO', 'CSV_FORMAT': 'NO', 'TIME_ZONE': '+00:00',
            'TIME_TYPE': 'UT', 'ELEV_CUT': '-90', 'AIRMASS': '38'}
WANTED = {'COMMAND': '10', 'MAKE_EPHEM': 'YES', 'EPHEM_TYPE': 'OBSERVER', 'CENTER': 'COORD@399', 'QUANTITIES': '4,20',
          'COORD_TYPE': 'GEODETIC', 'CAL_FORMAT': 'BOTH', 'CAL_TYPE': 'M', 'TIME_DIGITS': 'SECONDS', 'ANG_FORMAT': 'DEG',
          'APPARENT': 'AIRLESS', 'RANGE_UNITS': 'AU', 'SKIP_DAYLT': 'NO', 'SOLAR_ELONG': '0,180', 'EXTRA_PREC': 'NO',
          'R_T_S_ONLY': 'NO', 'CSV_FORMAT': 'NO', 'TIME_ZONE': '+00:00', 'TIME_TYPE': 'UT', 'ELEV_CUT': '-90', 'AIRMASS': '38'}
LAYOUT = ('CAL_FORMAT', 'TIME_DIGITS', 'ANG_FORMAT', 'EXTRA_PREC', 'R_T_S_ONLY', 'CSV_FORMAT', 'MAKE_EPHEM', 'EPHEM_TYPE',
          'QUANTITIES', 'SKIP_DAYLT')


class BadQuery(Exception):
    pass


def parse_query(target):
    q = urllib.parse.urlsplit(target).query
    out = {}
    for kv in q.split('&'):
        if not kv:
            continue
        k, _, v = kv.partition('=')
        k = urllib.parse.unquote(k).upper()
        if k in out:
            raise BadQuery(f'{k} given twice')
        v = urllib.parse.unquote(v).strip()
        out[k] = v[1:-1].strip() if len(v) > 1 and v[0] == v[-1] == "'" else v
    return out


def when(s):
    for f in ('%Y-%m-%d %H:%M', '%Y-%m-%d %H:%M:%S', '%Y-%m-%d', '%Y-%b-%d %H:%M', '%Y-%m-%dT%H:%M', '%Y-%m-%dT%H:%M:%S',
              '%Y-%m-%d %H:%M:%S.%f', '%Y-%b-%d %H:%M:%S'):
        try:
            return dtm.datetime.strptime(s, f)
        except ValueError:
            pass
    raise BadQuery(f'Cannot interpret date: {s}')


def understand(q):
    """(lon, lat, elev), start and stop minute (UTC), step in minutes, and what else matters."""
    if q.get('FORMAT', 'json').lower() != 'text':
        raise BadQuery('unsupported format')
    eff = {k: q.get(k, DEFAULTS.get(k, '')).upper() for k in WANTED}
    odd = {k: v for k, v in eff.items() if v.replace(' ', '') != WANTED[k]}
    try:
        lon, lat, elev = [float(x) for x in q['SITE_COORD'].split(',')]
    except Exception:   # noqa: BLE001
        raise BadQuery('Cannot interpret SITE_COORD') from None
    if not (-360 <= lon <= 360 and -90 <= lat <= 90 and np.isfinite(elev)):
        raise BadQuery('SITE_COORD out of range')
    a, b = when(q.get('START_TIME', '')), when(q.get('STOP_TIME', ''))
    st = q.get('STEP_SIZE', '').split()
    unit = (st[1] if len(st) > 1 else (st and st[0].lstrip('0123456789.') or '')).lower()
    num = st[0].rstrip('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ') if st else ''
    try:
        step = float(num) * {'m': 1, 'h': 60, 'd': 1440}[unit[:1]]
    except Exception:   # noqa: BLE001
        raise BadQuery('Unknown units specification for STEP_SIZE') from None
    if step <= 0 or step != int(step):
        raise BadQuery('Bad STEP_SIZE')
    m0, m1 = (a - EPOCH).total_seconds() / 60, (b - EPOCH).total_seconds() / 60
    return (lon, lat, elev), m0, m1, int(step), odd


def minutes_of(m0, m1, step):
    return np.arange(int(m0), int(m1) + 1, step)


def rows_of(site, mins, odd=(), wrong=0):
    extra = json.dumps(sorted(odd.items())) if odd else ''
    return (mins.astype('int64') * 3571 + site_hash(*site, extra) + wrong) % P


def data_lines(site, mins, odd=(), wrong=0):
    rows = rows_of(site, mins, odd, wrong)
    d, m = np.divmod(mins.astype('int64'), 1440)
    csv = any(k in LAYOUT for k in odd)
    out = []
    for di, mi, r in zip(d.tolist(), m.tolist(), rows.tolist()):
        out.append(f'{day_str(di)}{SUF[mi]} {2440587.5 + di + mi / 1440:17.9f}{COLS[r]}')
    if csv:
        out = [', '.join(x.split()) + ',' for x in out]
    return out


def table_of(site, mins):
    """What reading the file must give: instants (ns), azimuth, zenith, ecf."""
    r = rows_of(site, mins)
    return (mins.astype('int64') * 60 * 10**9, AZ[r] - 180, 90. - EL[r], 1 / RR[r]**2)


HEAD = '''*******************************************************************************
 Revised: July 31, 2013                  Sun                                 10

 PHYSICAL PROPERTIES (updated 2024-Oct-30):
  GM, km^3/s^2          = 132712440041.93938  Mass, 10^24 kg        = ~1988410
  Vol. mean radius, km  = 695700              Volume, 10^12 km^3    = 1412000
*******************************************************************************


*******************************************************************************
Ephemeris / API_USER {stamp} Pasadena, USA      / Horizons
*******************************************************************************
Target body name: Sun (10)                        {{source: DE441}}
Center body name: Earth (399)                     {{source: DE441}}
Center-site name: (user defined site below)
*******************************************************************************
Start time      : A.D. {start} UT
Stop  time      : A.D. {stop} UT
Step-size       : {step} minutes
*******************************************************************************
Center geodetic : {site}                          {{E-lon(deg),Lat(deg),Alt(km)}}
Atmos refraction: NO (AIRLESS)
*****************************************************************************
 Date__(UT)__HR:MN:SS Date_________JDUT     Azi_(a-app)_Elev             delta
*****************************************************************************
'''
TAIL = '''*****************************************************************************
Column meaning:

  When used:
    $$SOE and $$EOE ... start and end of ephemeris (this line is not a marker)
  'Azi_(a-app)_Elev' = Airless apparent azimuth and elevation of target center.
  'delta' = Apparent range ("delta", light-time aberrated) of the target center.

 Computations by ...
    Solar System Dynamics Group, Horizons On-Line Ephemeris System
    4800 Oak Grove Drive, Jet Propulsion Laboratory, Pasadena, CA  91109   USA
*******************************************************************************
'''


def error_text(msg):
    return f'API VERSION: 1.2\nAPI SOURCE: NASA/JPL Horizons API\n\n{msg}\n'


class Server:
    """Answers queries; serial numbers make every reply different in its header."""

    def __init__(self):
        self.serial = 0

    def reply(self, target, fault):
        """status, extra headers, body, True if the body is the complete and undamaged ephemeris"""
        self.serial += 1
        kind = fault.get('kind')
        if kind == 'status':
            body = fault.get('body', 'text')
            txt = {'text': error_text('Internal error, please try again later.'),
                   'html': '<html><head><title>Error</title></head><body><h1>Service unavailable</h1></body></html>',
                   'full': None, 'empty': ''}[body]
            if txt is not None:
                h = {}
                if fault.get('retry_after') is not None:
                    h['Retry-After'] = str(fault['retry_after'])
                return fault['code'], h, txt.encode(), False
        if kind == 'redirect':
            return fault['code'], {'Location': fault['to']}, b'', False
        path = urllib.parse.urlsplit(target).path
        if path != '/api/horizons.api':
            return 404, {}, b'<html>not found</html>', False
        if kind == 'page':
            b = {'html': b'<!DOCTYPE html><html><body>Maintenance. $$SOE $$EOE</body></html>',
                 'json': b'{"signature":{"source":"NASA/JPL Horizons API","version":"1.2"},"error":"busy"}',
                 'text': error_text('Horizons is overloaded, please try again').encode(),
                 'empty': b'', 'nul': b'\0' * 5000,
                 'quoted': error_text('Bad data between\n$$SOE\nand\n  $$EOE').encode(),
                 'markers': error_text('no data\n$$SOE\n$$EOE').encode()}[fault['page']]
            return 200, {}, b, False
        try:
            q = parse_query(target)
            site, m0, m1, step, odd = understand(q)
            if m1 <= m0:
                raise BadQuery('Bad dates -- start must be earlier than stop')
            mins = minutes_of(m0, m1, step)
            if len(mins) > MAX_LINES:
                raise BadQuery(f'Projected output length (~{len(mins)}) exceeds {MAX_LINES} line max -- change step-size')
        except BadQuery as e:
            return 400 if self.serial % 2 else 200, {}, error_text(str(e)).encode(), False
        lines = data_lines(site, mins, odd, wrong=4711 if kind == 'impostor' else 0)
        ok = kind not in ('damage', 'impostor', 'status')
        head = HEAD.format(stamp=f'Thu Nov 19 {self.serial // 3600 % 24:02d}:{self.serial // 60 % 60:02d}:{self.serial % 60:02d} 2026',
                           start=q['START_TIME'], stop=q['STOP_TIME'], step=step, site=q['SITE_COORD'])
        soe, eoe, tail = '$$SOE\n', '$$EOE\n', TAIL
        if kind == 'damage':
            w, x = fault['what'], fault.get('arg', 500)
            j = min(len(lines) - 1, len(lines) * x // 1000)
            if w == 'no-soe':
                soe = ''
            elif w == 'no-eoe':
                eoe = ''
            elif w == 'no-markers':
                soe = eoe = ''
            elif w == 'cut-early':          # the service gave up in mid-reply and said so
                lines, eoe, tail = lines[:j], '', '>>> internal error <<<\n'
            elif w == 'lost-lines':
                del lines[j:j + max(1, fault.get('n', 1))]
            elif w == 'double-lines':
                lines[j:j] = lines[j:j + max(1, fault.get('n', 1))]
            elif w == 'bytes':
                lines[j] = lines[j][:45] + '\udcff\udcfe' + lines[j][47:]
            elif w == 'na':
                lines[j] = lines[j][:43] + '       n.a.' + lines[j][54:]
            elif w == 'swapped':
                soe, eoe = eoe, soe
            elif w == 'indented':
                soe, eoe = ' ' + soe, ' ' + eoe
        body = (head + soe + '\n'.join(lines) + ('\n' if lines else '') + eoe + tail).encode('utf-8', 'surrogateescape')
        if kind == 'damage' and fault['what'] == 'truncated':       # by an intermediary that then fixes the length
            end = body.index(b'\n$$EOE\n') + 6
            body = body[:end * fault.get('arg', 500) // 1000]
        return (fault['code'] if kind == 'status' else 200), {}, body, ok


# ------------------------------------------------------------------ the network
class Net:
    def __init__(self, plan, side=None, t0=0.0):
        self.plan = plan                    # {'faults': [..one per exchange..], 'tail': fault or None, 'seg': .., 'addrs': n}
        self.server = Server()
        self.clock = t0
        self.k = -1
        self.log = []                       # everything that happened, in order
        self.requests = []                  # targets
        self.complete = []                  # complete replies handed to the network
        self.fired = {}
        self.slept = 0.
        self.sys_fds = []
        self.side = side
        self.open = set()
        self.rnd = random.Random(plan.get('rseed', 0))
        self.pause = None                   # called at every event, where there are others to run meanwhile

    def next_fault(self):
        self.k += 1
        f = self.plan.get('faults', [])
        return f[self.k] if self.k < len(f) else (self.plan.get('tail') or {})

    def fire(self, what):
        self.fired[what] = self.fired.get(what, 0) + 1
        self.note('fault', what)

    def note(self, *a):
        self.log.append((round(self.clock, 3),) + a)
        if self.pause is not None:
            self.pause(a[0])

    def wait(self, d, timeout, who):
        """d seconds pass, unless the patience of the caller ends first"""
        if d is None or (timeout is not None and d > timeout):
            if timeout is None:
                self.note('hang', who)
                raise SimHang(f'waits for ever while {who}')
            self.clock += timeout
            self.note('timeout', who, timeout)
            raise TimeoutError('timed out')
        self.clock += d

    def delivered(self, body):
        self.complete.append(body)
        if self.side:
            with REAL_OPEN(os.path.join(self.side, f'reply-{len(self.complete)}'), 'wb') as f:
                f.write(body)

    # ---- what replaces the socket module's functions
    def getaddrinfo(self, host, port, family=0, type=0, proto=0, flags=0):
        if isinstance(host, bytes):
            host = host.decode()
        self.cur = self.next_fault()
        self.note('lookup', host)
        if self.cur.get('kind') == 'dns':
            self.fire('dns')
            raise socket.gaierror(self.cur.get('code', socket.EAI_AGAIN), 'Temporary failure in name resolution')
        n = max(1, self.plan.get('addrs', 1))
        out = [(socket.AF_INET, socket.SOCK_STREAM, 6, '', (f'192.0.2.{i + 1}', int(port or 443))) for i in range(n)]
        if n > 1:
            out[0] = (socket.AF_INET6, socket.SOCK_STREAM, 6, '', ('2001:db8::1', int(port or 443), 0, 0))
        return out


NET = None
NETS = {}           # of several callers in one process, by thread


def current():
    return NETS.get(threading.get_ident(), NET)


REAL_OPEN = builtins.open
RealSocket = socket.socket


class FakeSocket:
    family, type, proto = socket.AF_INET, socket.SOCK_STREAM, 6

    def __init__(self, family=-1, type=-1, proto=-1, fileno=None):
        self.net = current()
        self.to = None
        self.events = []
        self.out = b''
        self.closed = self._closed = False
        self.peer_closed = False
        self.tls = False
        self.ios = 0
        self.exchanges = 0
        self.fault = {}
        self._fd = None
        self.family = family
        self.net.open.add(id(self))

    # ---- setup
    def setsockopt(self, *a):
        pass

    def getsockopt(self, *a):
        return 0

    def settimeout(self, t):
        if t is not None and t < 0:
            raise ValueError('Timeout value out of range')
        self.to = t

    def gettimeout(self):
        return self.to

    def setblocking(self, b):
        self.to = None if b else 0.

    def bind(self, *a):
        pass

    def getpeername(self):
        return ('192.0.2.1', 443)

    def getsockname(self):
        return ('192.0.2.99', 50000)

    def fileno(self):
        if self.closed:
            return -1
        if self._fd is None:
            # readable (so seen as dropped) if the peer closed, else never readable
            self._fd = os.open('/dev/null', os.O_RDONLY) if self.peer_closed else os.eventfd(0)
        return self._fd

    def connect(self, addr):
        net = self.net
        f = net.cur
        self.fault = f
        net.note('connect', addr[0])
        if f.get('kind') == 'connect':
            first = addr[0] in ('192.0.2.1', '2001:db8::1')
            if first or f.get('all'):
                net.fire('connect-' + f['how'])
                if f['how'] == 'stall':
                    net.wait(None, self.to, 'connecting')
                net.clock += f.get('after', 0.)
                raise {'refused': ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused'),
                       'unreachable': OSError(errno.ENETUNREACH, 'Network is unreachable'),
                       'etimedout': TimeoutError(errno.ETIMEDOUT, 'Connection timed out'),
                       'interrupt': SimInterrupt()}[f['how']]
        net.wait(f.get('lag', .02), self.to, 'connecting')

    def wrapped(self, context, server_hostname):
        net, f = self.net, self.fault
        self.tls = True
        net.note('tls', server_hostname or '')
        if f.get('kind') == 'tls':
            net.fire('tls-' + f['how'])
            if f['how'] == 'stall':
                net.wait(None, self.to, 'in the TLS handshake')
            if f['how'] == 'reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if f['how'] == 'eof':
                raise ssl.SSLEOFError(8, 'EOF occurred in violation of protocol')
            if f['how'] == 'error':
                raise ssl.SSLError(1, '[SSL: WRONG_VERSION_NUMBER] wrong version number')
            if f['how'] == 'interrupt':
                raise SimInterrupt()
        if f.get('kind') == 'impostor':
            net.fire('impostor')
            if context.verify_mode == ssl.CERT_REQUIRED and context.check_hostname:
                raise ssl.SSLCertVerificationError(1, '[SSL: CERTIFICATE_VERIFY_FAILED] certificate verify failed: '
                                                      'self-signed certificate')
        net.wait(f.get('lag', .02), self.to, 'in the TLS handshake')
        return self

    def version(self):
        return 'TLSv1.3'

    def cipher(self):
        return ('TLS_AES_256_GCM_SHA384', 'TLSv1.3', 256)

    def getpeercert(self, binary_form=False):
        return b'' if binary_form else {'subject': ((('commonName', HOST),),), 'subjectAltName': (('DNS', HOST),)}

    def selected_alpn_protocol(self):
        return 'http/1.1'

    # ---- sending
    def sendall(self, data, flags=0):
        net = self.net
        if self.closed:
            raise OSError(errno.EBADF, 'Bad file descriptor')
        if not self.out and not self.events and self.exchanges:
            self.fault = net.cur = net.next_fault()     # another request on a connection that was kept
        f = self.fault
        if f.get('kind') == 'send':
            net.fire('send-' + f['how'])
            if f['how'] == 'stall':
                net.wait(None, self.to, 'sending the request')
            if f['how'] == 'interrupt':
                raise SimInterrupt()
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe') if f['how'] == 'pipe' else \
                ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
        if self.peer_closed:
            raise BrokenPipeError(errno.EPIPE, 'Broken pipe')
        self.out += bytes(data)
        while b'\r\n\r\n' in self.out:
            head, _, rest = self.out.partition(b'\r\n\r\n')
            n = 0
            for h in head.split(b'\r\n')[1:]:
                if h.lower().startswith(b'content-length:'):
                    n = int(h.split(b':')[1])
            if len(rest) < n:
                break
            self.out = rest[n:]
            self.handle(head.decode('latin-1'), rest[:n])

    def send(self, data, flags=0):
        self.sendall(data)
        return len(data)

    write = send

    # ---- the peer
    def handle(self, head, body):
        net, f = self.net, self.fault
        self.exchanges += 1
        method, target, _ = head.split('\r\n')[0].split(' ', 2)
        hdr = {h.partition(':')[0].lower(): h.partition(':')[2].strip() for h in head.split('\r\n')[1:]}
        target = urllib.parse.urlunsplit(('https' if self.tls else 'http', hdr.get('host', ''), '', '', '')) + target \
            if target.startswith('/') else target
        net.requests.append(target)
        net.note('request', method, len(target))
        kind = f.get('kind')
        lag = f.get('lag', .02)
        ev = self.events
        ev.append(('delay', lag))
        if kind == 'silent':
            net.fire('silent-' + f['how'])
            ev.append({'stall': ('stall',), 'reset': ('reset',), 'close': ('eof',), 'interrupt': ('raise', 'int'),
                       'memory': ('raise', 'mem')}[f['how']])
            return
        if kind == 'junk':
            net.fire('junk')
            ev.append(('data', {'line': b'ICY 200 OK\r\n\r\n', 'bin': bytes(range(1, 200)) * 3, 'long': b'HTTP/1.1 200 ' + b'x' * 70000,
                                'headers': b'HTTP/1.1 200 OK\r\n' + b''.join(b'X-%d: y\r\n' % i for i in range(150)) + b'\r\n',
                                'half': b'HTTP/1.1 200 OK\r\nContent-Le'}[f['how']]))
            ev.append(('eof',))
            return
        code, extra, data, ok = net.server.reply(target, f)
        if kind in ('status', 'redirect', 'page', 'damage'):
            net.fire(f"{kind}-{f.get('page', f.get('what', f.get('code')))}")
        framing = f.get('framing') or net.plan.get('framing', 'cl')
        h = f'HTTP/1.1 {code} {"OK" if code == 200 else "Error"}\r\nContent-Type: text/plain\r\nServer: sim\r\n'
        for k, v in extra.items():
            h += f'{k}: {v}\r\n'
        keep = net.plan.get('keep', True) and framing != 'close'
        h += f'Connection: {"keep-alive" if keep else "close"}\r\n'
        if framing == 'cl':
            h += f'Content-Length: {len(data)}\r\n'
            wire = data
        elif framing == 'chunked':
            h += 'Transfer-Encoding: chunked\r\n'
            cs = net.plan.get('chunk', 4000)
            wire = b''.join(b'%x\r\n' % len(data[i:i + cs]) + data[i:i + cs] + b'\r\n' for i in range(0, len(data), cs)) + b'0\r\n\r\n'
        else:
            wire = data
        h = (h + '\r\n').encode()
        full = h + wire
        stop, cut = None, len(full)
        if kind == 'cut':
            # before the end of the message, or, where nothing tells its length, before its end marker
            if framing == 'close':
                cut = len(h) + max(data.find(b'\n$$EOE\n'), 0) + 1
            elif framing == 'chunked':
                cut = len(full) - 7             # the last byte of the ephemeris is missing
            x = f.get('at', 500)
            lo = 0 if f.get('where') == 'head' else len(h)
            hi = len(h) if f.get('where') == 'head' else cut - 1
            cut = max(0, min(cut - 1, lo + (hi - lo) * x // 1000 - f.get('back', 0)))
            ok = False
            stop = f['how']
            net.fire(f"cut-{stop}-{framing}")
        seg = f.get('seg') or net.plan.get('seg', 65536)
        gap = f.get('gap', net.plan.get('gap', 0.))
        i = 0
        slow = 0
        while i < cut:
            n = max(1, int(seg))
            if seg < 64 and slow > 200:
                n = 65536               # a dribble at the start, then the rest
            ev.append(('data', full[i:min(cut, i + n)]))
            i += n
            slow += 1
            if gap and slow < 30:
                ev.append(('delay', gap))
        if stop:
            ev.append({'stall': ('stall',), 'reset': ('reset',), 'close': ('eof',), 'interrupt': ('raise', 'int'),
                       'memory': ('raise', 'mem'), 'tls': ('raise', 'tls')}[stop])
        elif not keep:
            ev.append(('eof',))
        if ok:
            net.delivered(data)
            net.note('reply', code, len(data))

    # ---- receiving
    def recv_into(self, buf, nbytes=0, flags=0):
        n = nbytes or len(buf)
        net = self.net
        waited = 0.
        while True:
            if self.closed:
                raise OSError(errno.EBADF, 'Bad file descriptor')
            if not self.events:
                if self.peer_closed or not self.exchanges:
                    if self.peer_closed:
                        return 0
                net.wait(None, self.to, 'waiting for the server')
            e = self.events[0]
            if e[0] == 'delay':
                self.events.pop(0)
                net.wait(e[1], None if self.to is None else max(0., self.to - waited), 'waiting for the server')
                waited += e[1]
                continue
            if e[0] == 'data':
                d = e[1]
                m = min(n, len(d))
                memoryview(buf)[:m] = d[:m]
                if m == len(d):
                    self.events.pop(0)
                else:
                    self.events[0] = ('data', d[m:])
                return m
            if e[0] == 'eof':
                self.events.clear()
                self.peer_closed = True
                return 0
            if e[0] == 'stall':
                net.wait(None, None if self.to is None else max(0., self.to - waited), 'waiting for the server')
            self.events.clear()
            self.peer_closed = True
            if e[0] == 'reset':
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            if e[1] == 'int':
                raise SimInterrupt()
            if e[1] == 'mem':
                raise MemoryError()
            raise ssl.SSLError(1, '[SSL: DECRYPTION_FAILED_OR_BAD_RECORD_MAC] decryption failed or bad record mac')

    def recv(self, n, flags=0):
        b = bytearray(n)
        return bytes(b[:self.recv_into(b, n)])

    read = recv

    def makefile(self, mode='r', buffering=None, **kw):
        self.ios += 1
        raw = socket.SocketIO(self, ''.join(c for c in mode if c in 'rw'))
        size = io.DEFAULT_BUFFER_SIZE if buffering is None or buffering < 0 else buffering
        if size == 0:
            return raw
        return io.BufferedReader(raw, size) if 'r' in mode else io.BufferedWriter(raw, size)

    def _decref_socketios(self):
        self.ios -= 1
        if self._closed and self.ios <= 0:
            self._real_close()

    def _real_close(self):
        self.closed = True
        self.net.open.discard(id(self))
        if self._fd is not None:
            os.close(self._fd)
            self._fd = None

    def shutdown(self, how):
        pass

    def unwrap(self):
        return self

    def pending(self):
        return 0

    def detach(self):
        return -1

    def close(self):
        self._closed = True
        if self.ios <= 0:
            self._real_close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def install(net):
    """Puts the simulated network and clock under this process (a forked child)."""
    global NET
    NET = net
    socket.socket = FakeSocket
    socket.getaddrinfo = lambda *a, **k: current().getaddrinfo(*a, **k)
    socket.gethostbyname = lambda h: '192.0.2.1'
    ssl.SSLContext.wrap_socket = lambda ctx, sock, server_side=False, do_handshake_on_connect=True, \
        suppress_ragged_eofs=True, server_hostname=None, session=None: sock.wrapped(ctx, server_hostname)
    ssl.SSLContext.load_default_certs = lambda *a, **k: None
    ssl.SSLContext.load_verify_locations = lambda *a, **k: None
    ssl.SSLContext.set_default_verify_paths = lambda *a, **k: None

    def sleep(s):
        net = current()
        net.clock += max(0., s)
        net.slept += max(0., s)
        net.note('sleep', s)
    time.sleep = sleep
    time.monotonic = lambda: 1000. + current().clock
    time.perf_counter = time.monotonic
    time.time = lambda: 1795000000. + current().clock
    time.monotonic_ns = lambda: int(time.monotonic() * 1e9)
    time.time_ns = lambda: int(time.time() * 1e9)


# ------------------------------------------------------------------ stand-ins
def stand_ins():
    """The table format needs a library that is not installed: pickle between two magic numbers,
    written and read through open().  dateutil's answers for the simulated service's dates are kept."""
    import pandas as pd

    def to_parquet(self, path=None, *a, **k):
        data = pickle.dumps(self, protocol=5)
        data = b'PAR1' + data + len(data).to_bytes(8, 'little') + hashlib.sha256(data).digest()[:8] + b'PAR1'
        if path is None:
            return data
        if hasattr(path, 'write'):
            path.write(data)
            return None
        with open(path, 'wb') as f:
            mv = memoryview(data)
            for i in range(0, len(mv), 1 << 18):
                f.write(mv[i:i + (1 << 18)])
        return None

    def read_parquet(path, *a, **k):
        if hasattr(path, 'read'):
            data = path.read()
        else:
            with open(path, 'rb') as f:
                data = f.read()
        body = data[4:-20]
        if len(data) < 24 or data[:4] != b'PAR1' or data[-4:] != b'PAR1' or \
                int.from_bytes(data[-20:-12], 'little') != len(body) or hashlib.sha256(body).digest()[:8] != data[-12:-4]:
            raise ValueError('Parquet magic bytes not found in footer. Either the file is corrupted or this is not a parquet file.')
        return pickle.loads(body)
    pd.DataFrame.to_parquet = to_parquet
    pd.read_parquet = read_parquet


def remember_dates(years):
    import dateutil.parser
    real = dateutil.parser.parse
    table = {}
    r = random.Random(5)
    for y in years:
        m0 = int((dtm.datetime(y, 1, 1) - EPOCH).total_seconds() // 60)
        m1 = int((dtm.datetime(y + 1, 1, 1) - EPOCH).total_seconds() // 60)
        for m in range(m0, m1, 12):
            table[(day_str(m // 1440) + SUF[m % 1440])[1:]] = EPOCH + dtm.timedelta(minutes=m)
    for s in r.sample(sorted(table), 200):
        if real(s) != table[s]:
            raise RuntimeError('dateutil disagrees about ' + s)

    def parse(s, *a, **k):
        if not a and not k:
            v = table.get(s)
            if v is not None:
                return v
        return real(s, *a, **k)
    dateutil.parser.parse = parse


# ------------------------------------------------------------------ the disk
ERRNOS = {'EIO': errno.EIO, 'ENOSPC': errno.ENOSPC, 'EDQUOT': errno.EDQUOT, 'EACCES': errno.EACCES, 'EROFS': errno.EROFS,
          'EMFILE': errno.EMFILE}
DK = {'err': 1, 'short': 2, 'before': 3, 'after': 4, 'torn': 5}


class Disk:
    def __init__(self):
        self.lib = ctypes.CDLL(os.environ['DST_SHIM'])
        self.lib.dst_disk.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long]
        self.lib.dst_disk_fault.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        self.lib.dst_disk_log.argtypes = [ctypes.c_char_p, ctypes.c_int]

    def arm(self, root, plan):
        plan = plan or {}
        self.lib.dst_disk(root.encode(), plan.get('power', -1), plan.get('space', -1))
        for f in plan.get('faults', []):
            k = DK[f['kind']]
            arg = ERRNOS[f['errno']] if f['kind'] == 'err' else f.get('arg', 500)
            self.lib.dst_disk_fault(0 if f.get('read') else 1, f['op'], k, arg)

    def state(self):
        b = ctypes.create_string_buffer(1 << 16)
        n = self.lib.dst_disk_log(b, 1 << 16)
        return {'wops': self.lib.dst_disk_wops(), 'rops': self.lib.dst_disk_rops(), 'fired': self.lib.dst_disk_fired(),
                'log': b.raw[:n].decode('utf-8', 'replace').splitlines()}

    def power_loss(self, permille):
        self.lib.dst_disk_powerloss(permille)

    def off(self):
        self.lib.dst_disk(None, -1, -1)


# ------------------------------------------------------------------ one attempt in a simulated process
def attempt(fn, plan, root, side=None, timeout=60.):
    """fn() in a forked child with the network, clock and disk of the plan.
    Returns ('ok', value) | ('error', type, message) | ('hang', message) | ('interrupt', '') | ('crash',) and what happened."""
    from . import forkrun, interrupt
    d = Disk()

    def child():
        net = Net(plan.get('net', {}), side)
        if plan.get('tz'):
            os.environ['TZ'] = plan['tz']
            time.tzset()
        os.chdir(root)
        install(net)
        die = interrupt.Die(plan['die'], plan.get('die_in')) if plan.get('die') else None
        where = None
        d.arm(root, plan.get('disk'))
        try:
            if die:
                with die:
                    v = fn()
            else:
                v = fn()
            out = ('ok', v)
        except SimHang as e:
            out = ('hang', str(e))
        except interrupt.WorkerDied as e:
            out = ('interrupt', str(e))
        except KeyboardInterrupt:
            out = ('interrupt', 'network')
        except BaseException as e:      # noqa: BLE001
            out = ('error', type(e).__name__, str(e)[:300])
        st = d.state()
        if plan.get('loss') is not None:
            d.power_loss(plan['loss'])
        d.off()
        if die:
            where = die.where
        return {'out': out, 'clock': net.clock, 'slept': net.slept, 'requests': net.requests, 'ncomplete': len(net.complete),
                'fired': net.fired, 'log': net.log, 'disk': st, 'lines': die.k if die else 0, 'where': where,
                'open': len(net.open)}
    try:
        return forkrun.run(child, timeout)
    except forkrun.ChildDied as e:
        if str(77 << 8) in str(e):
            return {'out': ('crash',), 'clock': 0., 'slept': 0., 'requests': [], 'ncomplete': None, 'fired': {}, 'log': [],
                    'disk': {'wops': 0, 'rops': 0, 'fired': 1, 'log': []}, 'lines': 0, 'where': None, 'open': 0}
        raise
