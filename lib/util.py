import os, io, shutil, tempfile

_scratch = None


def make_scratch():
    global _scratch
    for base in ('/dev/shm', None):
        try:
            _scratch = tempfile.mkdtemp(prefix='aaf2mc-', dir=base)
            return _scratch
        except OSError:
            continue
    raise OSError('no scratch directory')


def remove_scratch():
    global _scratch
    if _scratch and 'aaf2mc-' in _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


def scratch():
    """per-process scratch directory"""
    d = os.path.join(_scratch, 'p%d' % os.getpid())
    if not os.path.isdir(d):
        os.mkdir(d)
    return d


def spath(name):
    return os.path.join(scratch(), name)


class MemFile(object):
    """In-memory random access file (deliberately not a BytesIO subclass: the
    container class treats BytesIO specially)."""
    def __init__(self, data=b''):
        self.b = b = io.BytesIO(bytes(data))
        self.read = b.read
        self.readinto = b.readinto
        self.write = b.write
        self.seek = b.seek
        self.tell = b.tell
        self.truncate_ = b.truncate
        self.closed = False

    def truncate(self, size=None):
        # like a real file: may extend
        if size is None:
            size = self.b.tell()
        cur = len(self.b.getbuffer())
        if size > cur:
            pos = self.b.tell()
            self.b.seek(size - 1)
            self.b.write(b'\0')
            self.b.seek(pos)
        else:
            self.b.truncate(size)
        return size

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def getvalue(self):
        return self.b.getvalue()


def pattern(tag, n, off=0):
    """n bytes, never zero, different for each tag and position class"""
    out = bytearray(n)
    for i in range(n):
        j = i + off
        out[i] = 1 + ((tag * 37 + j * 7 + (j >> 6) * 11 + (j >> 9) * 5) % 255)
    return bytes(out)


_pat_cache = {}


def pat(tag, n, off=0):
    if n > 30000:
        # period coprime to every sector size, so sectors differ from their neighbours
        return (pat(tag, 4093, off % 997) * (n // 4093 + 1))[:n]
    key = tag
    base = _pat_cache.get(key)
    if base is None or len(base) < off + n:
        base = pattern(tag, max(off + n, 20000))
        _pat_cache[key] = base
    return base[off:off + n]


class SparseFile(object):
    """Random access file of up to many GB that only stores the pages written
    with something other than zeros."""
    PAGE = 4096

    def __init__(self, size=0, pages=None):
        self.pages = dict(pages or {})
        self.size = size
        self.pos = 0
        self.closed = False

    def seek(self, off, whence=0):
        self.pos = off + (self.pos if whence == 1 else self.size if whence == 2 else 0)
        return self.pos

    def tell(self):
        return self.pos

    def peek(self, off, n):
        n = max(0, min(n, self.size - off))
        out = bytearray(n)
        P = self.PAGE
        i = 0
        while i < n:
            pg, o = divmod(off + i, P)
            k = min(P - o, n - i)
            d = self.pages.get(pg)
            if d is not None:
                out[i:i + k] = d[o:o + k]
            i += k
        return bytes(out)

    def read(self, n=-1):
        if n is None or n < 0:
            n = max(0, self.size - self.pos)
        d = self.peek(self.pos, n)
        self.pos += len(d)
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def write(self, data):
        data = bytes(data)
        P = self.PAGE
        i = 0
        n = len(data)
        while i < n:
            pg, o = divmod(self.pos + i, P)
            k = min(P - o, n - i)
            part = data[i:i + k]
            d = self.pages.get(pg)
            if d is None:
                if any(part):
                    d = self.pages[pg] = bytearray(P)
            if d is not None:
                if isinstance(d, bytes):
                    d = self.pages[pg] = bytearray(d)
                d[o:o + k] = part
            i += k
        self.pos += n
        self.size = max(self.size, self.pos)
        return n

    def truncate(self, size=None):
        if size is None:
            size = self.pos
        if size < self.size:
            P = self.PAGE
            for pg in [p for p in self.pages if p * P >= size]:
                del self.pages[pg]
            if size % P and size // P in self.pages:
                d = bytearray(self.pages[size // P])
                d[size % P:] = bytes(P - size % P)
                self.pages[size // P] = d
        self.size = size
        return size

    def flush(self):
        pass

    def close(self):
        self.closed = True

    # bytes-like view for the independent parser
    def __len__(self):
        return self.size

    def __getitem__(self, s):
        if isinstance(s, slice):
            a, b, _ = s.indices(self.size)
            return self.peek(a, max(0, b - a))
        return self.peek(s, 1)[0]

    def snapshot(self):
        return SparseFile(self.size, {k: bytes(v) for k, v in self.pages.items()})


def short(v, n=160):
    s = repr(v)
    return s if len(s) <= n else '%s... (%d)' % (s[:n], len(v) if hasattr(v, '__len__') else len(s))
