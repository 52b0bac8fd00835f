"""An independent, strict HTTP/1.1 message parser and builder (the oracle).

It shares no code with pyslet and favours plainness: it works on a complete
buffer and says either "incomplete" (None), "malformed" (Bad) or what the
message is and how many bytes it took.
"""
import re
import zlib

TOKEN = re.compile(rb"^[!#$%&'*+\-.^_`|~0-9A-Za-z]+$")


class Bad(Exception):
    pass


class Msg(object):

    def __init__(self):
        self.start = None
        self.headers = []           # [(name, value)]
        self.trailers = []
        self.body = b''             # decoded
        self.framing = None         # none, length, chunked, close
        self.size = 0               # bytes taken
        self.complete = False
        self.chunks = 0

    def get(self, name):
        n = name.lower().encode('ascii') if isinstance(name, str) \
            else name.lower()
        v = [b for a, b in self.headers if a.lower() == n]
        return b', '.join(v) if v else None

    def get_all(self, name):
        n = name.lower().encode('ascii') if isinstance(name, str) \
            else name.lower()
        return [b for a, b in self.headers if a.lower() == n]

    @property
    def method(self):
        return self.start.split(b' ')[0]

    @property
    def target(self):
        return self.start.split(b' ')[1]

    @property
    def version(self):
        s = self.start
        return s.split(b' ')[0] if s.startswith(b'HTTP/') else \
            s.split(b' ')[2]

    @property
    def status(self):
        return int(self.start.split(b' ')[1])

    def closes(self):
        c = (self.get('Connection') or b'').lower()
        return b'close' in c or self.version == b'HTTP/1.0'


def _line(buf, pos):
    i = buf.find(b'\n', pos)
    if i < 0:
        return None, pos
    if i == pos or buf[i - 1:i] != b'\r':
        raise Bad('line ends with bare LF: %r' % bytes(buf[pos:i + 1][:80]))
    line = bytes(buf[pos:i - 1])
    if b'\r' in line:
        raise Bad('stray CR in line %r' % line[:80])
    return line, i + 1


def _headers(buf, pos):
    out = []
    while True:
        line, pos = _line(buf, pos)
        if line is None:
            return None, pos
        if line == b'':
            return out, pos
        if line[:1] in b' \t':
            if not out:
                raise Bad('continuation without header')
            out[-1] = (out[-1][0], out[-1][1] + b' ' + line.strip())
            continue
        n, sep, v = line.partition(b':')
        if not sep or not TOKEN.match(n):
            raise Bad('malformed header line %r' % line[:80])
        out.append((n, v.strip()))


def parse(buf, pos=0, request_method=None, eof=False):
    """Parse one message.  request_method is given for responses.

    Returns None if even the head is incomplete; otherwise a Msg whose
    complete flag says whether the body is there."""
    is_response = request_method is not None
    start_pos = pos
    # robustness: empty lines before a request
    while True:
        line, npos = _line(buf, pos)
        if line is None:
            return None
        if line == b'' and not is_response:
            pos = npos
            continue
        break
    m = Msg()
    m.start = line
    pos = npos
    if is_response:
        if not re.match(rb'^HTTP/1\.[01] [0-9]{3} [^\r\n]*$', line):
            raise Bad('malformed status line %r' % line[:80])
    else:
        if not re.match(rb'^[A-Za-z]+ \S+ HTTP/1\.[01]$', line):
            raise Bad('malformed request line %r' % line[:80])
    hs, pos = _headers(buf, pos)
    if hs is None:
        return None
    m.headers = hs
    te = m.get('Transfer-Encoding')
    cl = m.get_all('Content-Length')
    if len(set(cl)) > 1:
        raise Bad('conflicting Content-Length %r' % cl)
    if is_response and (m.status // 100 == 1 or m.status in (204, 304) or
                        request_method == 'HEAD'):
        m.framing = 'none'
        m.complete = True
    elif te is not None and te.lower() != b'identity':
        codings = [c.strip().lower() for c in te.split(b',')]
        if cl:
            raise Bad('both Transfer-Encoding and Content-Length')
        if codings[-1] != b'chunked':
            raise Bad('transfer coding %r does not end in chunked' % te)
        m.framing = 'chunked'
        body = []
        while True:
            line, npos = _line(buf, pos)
            if line is None:
                break
            size = line.split(b';')[0].strip()
            if not re.match(rb'^[0-9A-Fa-f]+$', size):
                raise Bad('malformed chunk size %r' % line[:80])
            n = int(size, 16)
            if n == 0:
                t, tpos = _headers(buf, npos)
                if t is None:
                    break
                m.trailers = t
                pos = tpos
                m.complete = True
                break
            if len(buf) < npos + n + 2:
                body.append(bytes(buf[npos:npos + n]))
                if len(buf) > npos + n and buf[npos + n:npos + n + 1] != \
                        b'\r':
                    raise Bad('chunk not followed by CRLF')
                break
            body.append(bytes(buf[npos:npos + n]))
            if buf[npos + n:npos + n + 2] != b'\r\n':
                raise Bad('chunk not followed by CRLF')
            m.chunks += 1
            pos = npos + n + 2
        m.body = b''.join(body)
        for c in reversed(codings[:-1]):
            if c in (b'gzip', b'x-gzip'):
                d = zlib.decompressobj(16 + zlib.MAX_WBITS)
                try:
                    m.body = d.decompress(m.body) + d.flush()
                except zlib.error as e:
                    raise Bad('bad gzip data: %s' % e)
                if m.complete and not d.eof:
                    raise Bad('gzip data ends early')
                if m.complete and d.unused_data:
                    raise Bad('data after the gzip stream')
            elif c == b'identity':
                pass
            else:
                raise Bad('unknown transfer coding %r' % c)
    elif cl:
        if not re.match(rb'^[0-9]+$', cl[0]):
            raise Bad('malformed Content-Length %r' % cl[0])
        n = int(cl[0])
        m.framing = 'length'
        m.body = bytes(buf[pos:pos + n])
        pos += len(m.body)
        m.complete = len(m.body) == n
    elif is_response:
        m.framing = 'close'
        m.body = bytes(buf[pos:])
        pos = len(buf)
        m.complete = eof
    else:
        m.framing = 'none'
        m.complete = True
    m.size = pos - start_pos
    return m


def parse_all(buf, methods=None, eof=False):
    """Parse a sequence of requests (methods None) or of responses to the
    given methods (1xx responses do not consume a method).  Returns the list
    of messages; the last one may be incomplete.  Anything left over after
    the last expected response is returned as well."""
    out = []
    pos = 0
    k = 0
    while pos < len(buf):
        if methods is not None:
            if k >= len(methods):
                break
            m = parse(buf, pos, methods[k], eof)
        else:
            m = parse(buf, pos)
        if m is None:
            break
        out.append(m)
        pos += m.size
        if not m.complete:
            break
        if methods is not None and m.status // 100 != 1:
            k += 1
    return out, bytes(buf[pos:])


def chunked(body, sizes, ext=b'', trailers=()):
    """Encode body as chunks of the given sizes (the rest in one chunk)."""
    out = []
    pos = 0
    for n in list(sizes) + [len(body)]:
        piece = body[pos:pos + n]
        pos += len(piece)
        if piece:
            out.append(b'%x%s\r\n' % (len(piece), ext) + piece + b'\r\n')
    out.append(b'0\r\n')
    for n, v in trailers:
        out.append(n + b': ' + v + b'\r\n')
    out.append(b'\r\n')
    return b''.join(out)


def head(start, headers):
    return start + b'\r\n' + b''.join(
        n + b': ' + v + b'\r\n' for n, v in headers) + b'\r\n'
