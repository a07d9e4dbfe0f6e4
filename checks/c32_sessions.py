"""C32: file sessions open, save and close as promised.

Every word of operations up to a length (edit a value, add, remove a mob, tag it, write
essence, save) is run in a session of every writing mode, and left in every way: at the
end of the with-block, closed by hand, closed by hand after a save, by an exception.  The
file is then read by an independent reader and compared with a plain model of the content
and with the file made by the same edits without any save in between; the file must not be
held open any more, saving it must be refused.  Histories of several sessions, and every
spelling of the mode on files that exist, do not exist, cannot be read, are enumerated
as well."""
import os, io, copy
import aaf2, aaf2.file
from aaf2.mobid import MobID
from lib import aafref, aafrig, util
from lib.mc import Space, Violation, words, exc_site, tb_tail

LEVEL = 'model_checking'
ASSUMPTIONS = ['the session ends by one of the ways given; no i/o failure (see C27) and no crash',
               'after an exception only what was saved before, and only if nothing but property values was edited since, is promised']

VOLATILE = (0x3b02, 0x3b06, 0x4404, 0x4405)      # times, identifications


def mid(n):
    return MobID('urn:smpte:umid:060a2b34.01010105.01010f20.13000000.0000%04x.00000000.00000000.00000001' % n)


# ---------------------------------------------------------------- model and operations
# model: {mob number: {'name', 'tags', 'essence'}}

class State(object):
    def __init__(self):
        self.mobs = {}
        self.n = 0

    def copy(self):
        return copy.deepcopy(self)


def op_v(f, m):
    """edit a value of every mob: longer, shorter, none"""
    m.n += 1
    for i, k in enumerate(sorted(m.mobs)):
        name = [u'name %d' % m.n, u'é' * (m.n * 11), u''][(i + m.n) % 3]
        m.mobs[k]['name'] = name
        if f:
            f.content.mobs.get(mid(k)).name = name


def op_a(f, m):
    m.n += 1
    k = 100 + m.n
    m.mobs[k] = {'name': u'added %d' % k, 'tags': [], 'essence': None}
    if f:
        x = f.create.MasterMob(u'added %d' % k)
        x.mob_id = mid(k)
        f.content.mobs.append(x)


def op_d(f, m):
    m.n += 1
    if not m.mobs:
        return
    k = sorted(m.mobs)[m.n % len(m.mobs)]
    if m.mobs[k]['essence'] is not None and f:
        f.content.essencedata.pop(mid(k))
    del m.mobs[k]
    if f:
        f.content.mobs.pop(mid(k))


def op_t(f, m):
    m.n += 1
    if not m.mobs:
        return
    k = sorted(m.mobs)[-1]
    m.mobs[k]['tags'].append((u'tag %d' % m.n, u'value %d' % m.n))
    if f:
        f.content.mobs.get(mid(k)).comments[u'tag %d' % m.n] = u'value %d' % m.n


def op_e(f, m):
    m.n += 1
    k = 200 + m.n
    data = util.pat(m.n, [100, 5000, 9000][m.n % 3])
    m.mobs[k] = {'name': u'essence %d' % k, 'tags': [], 'essence': data}
    if f:
        x = f.create.SourceMob(u'essence %d' % k)
        x.mob_id = mid(k)
        x.descriptor = f.create.TapeDescriptor()
        f.content.mobs.append(x)
        e = f.create.EssenceData()
        e.mob_id = mid(k)
        f.content.essencedata.append(e)
        s = e.open('w')
        s.write(data)


def op_w(f, m):
    """write on, in the essence that exists"""
    m.n += 1
    for k in sorted(m.mobs):
        if m.mobs[k]['essence'] is not None:
            new = util.pat(m.n + 50, 4200)
            m.mobs[k]['essence'] = new
            if f:
                s = f.content.essencedata.get(mid(k)).open('w')
                s.write(new)
            return


def op_s(f, m):
    if f:
        f.save()


OPS = {'v': op_v, 'a': op_a, 'd': op_d, 't': op_t, 'e': op_e, 'w': op_w, 's': op_s}


class Stop(Exception):
    pass


class BaseStop(BaseException):
    pass


def read_model(root):
    """what an independent reader finds: the same form as State.mobs"""
    header = root[1][0x0002][1]
    content = header[1][0x3b03][1]
    out = {}
    for k, m in content[1][0x1901][1].items():
        p = m[1]
        name = p[0x4402][1].decode('utf-16-le').rstrip('\0') if 0x4402 in p else None
        tags = []
        for tag in (p[0x4406][1] if 0x4406 in p else ()):
            tags.append((tag[1][0x5001][1].decode('utf-16-le').rstrip('\0'), tag[1][0x5003][1][17:].decode('utf-16-le').rstrip('\0')))
        out[k] = {'name': name, 'tags': tags, 'essence': None}
    for k, e in (content[1][0x1902][1].items() if 0x1902 in content[1] else ()):
        if k not in out:
            raise Violation('essence of a mob that is not there: %s' % k.hex(), 'content')
        out[k]['essence'] = e[1][0x2702][1]
    return out


def compare(root, model, what):
    got = read_model(root)
    want = {bytes(mid(k).bytes_le): v for k, v in model.mobs.items()}
    if got != want:
        for k in sorted(set(got) | set(want)):
            if got.get(k) != want.get(k):
                raise Violation('%s: mob %s is %s, should be %s' % (what, k.hex(), str(got.get(k))[:200], str(want.get(k))[:200]), 'content')


def strip(x):
    """canonical form without the times and random ids of a session"""
    if isinstance(x, tuple) and len(x) == 2 and isinstance(x[1], dict) and isinstance(x[0], bytes):
        return (x[0], {k: strip(v) for k, v in x[1].items() if k not in VOLATILE})
    if isinstance(x, tuple):
        return tuple(strip(v) for v in x)
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items()}
    return x


_start = {}


def start(kw):
    """bytes and model of a file with some content"""
    key = tuple(sorted(kw.items()))
    if key not in _start:
        m = State()
        p = aafrig.newpath('start')
        with aaf2.open(p, 'w', **kw) as f:
            for o in 'aaevt':
                OPS[o](f, m)
        d = aafrig.readfile(p)
        os.unlink(p)
        compare(aafref.load(d).root, m, 'the file to start with')
        _start[key] = (d, m)
    return _start[key]


def held(path):
    """is the file held open by this process"""
    real = os.path.realpath(path)
    for fd in os.listdir('/proc/self/fd'):
        try:
            if os.readlink('/proc/self/fd/' + fd) == real:
                return True
        except OSError:
            pass
    return False


ENDS = ('leave', 'close', 'save close', 'raise', 'raise base', 'raise in nested')


def play(path, mode, kw, word, end, model, what):
    """one session; the model follows it.  Returns the model that is promised, None if nothing is"""
    safe = None if mode[0] == 'w' else model.copy()
    f = None
    def body():
        nonlocal safe
        for o in word:
            OPS[o](f, model)
            if o == 's':
                safe = model.copy()
            elif o == 'v':
                pass
            else:
                safe = None
    stop = None
    try:
        if end in ('close', 'save close'):
            f = aaf2.open(path, mode, **kw)
            body()
            if end == 'save close':
                f.save()
            f.close()
            safe = model
        else:
            stop = {'leave': None, 'raise': Stop('x'), 'raise base': BaseStop('x'), 'raise in nested': Stop('y')}[end]
            try:
                with aaf2.open(path, mode, **kw) as f:
                    body()
                    if end == 'raise in nested':
                        try:
                            raise KeyError('inner')
                        except KeyError:
                            raise stop
                    elif stop is not None:
                        raise stop
                    safe = None
                safe = model
            except (Stop, BaseStop) as e:
                if e is not stop:
                    raise Violation('%s: another exception comes out' % what, 'exception')
            else:
                if stop is not None:
                    raise Violation('%s: the exception raised in the with-block is lost' % what, 'exception')
    except Violation:
        raise
    except Exception as e:
        raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e))
    if held(path):
        raise Violation('%s: the file is still held open' % what, 'held')
    before = aafrig.readfile(path)
    try:
        f.save()
    except Exception:
        pass
    else:
        if mode not in ('r', 'rb'):
            raise Violation('%s: saving is not refused afterwards' % what, 'save after close')
    if aafrig.readfile(path) != before:
        raise Violation('%s: saving afterwards changes the file' % what, 'save after close')
    return safe


def sound(path, what):
    b = aafref.load(aafrig.readfile(path))
    if b.errors:
        raise Violation('%s: the file is not well formed: %s' % (what, '; '.join(b.errors[:3])), 'malformed')
    return b


_ref = {}


def reference(mode, kw, edits):
    """what a single session with these edits and without a save in between makes"""
    key = (mode[0] == 'w', tuple(sorted(kw.items())), edits)
    if key not in _ref:
        path = aafrig.newpath('ref')
        try:
            if mode[0] == 'w':
                m = State()
            else:
                d, m = start(kw)
                aafrig.writefile(path, d)
                m = m.copy()
            play(path, 'w' if mode[0] == 'w' else 'r+', kw, edits, 'leave', m, 'reference %r' % (edits,))
            b = sound(path, 'reference %s' % edits)
            compare(b.root, m, 'reference %s' % edits)
            _ref[key] = strip(b.root)
        finally:
            if os.path.exists(path):
                os.unlink(path)
    return _ref[key]


def run_sessions(case, t):
    """case: options, sessions [mode, word, end]"""
    kw, sessions = case
    path = aafrig.newpath()
    try:
        if sessions[0][0][0] == 'w':
            m = State()
        else:
            d, m = start(kw)
            m = m.copy()
            aafrig.writefile(path, d)
        done = ''
        sure = True
        for i, (mode, word, end) in enumerate(sessions):
            what = 'options %s, session %d of %s' % (kw, i + 1, sessions)
            if mode[0] == 'w':
                m = State()
                done = ''
            n = m.n
            safe = play(path, mode, kw, word, end, m, what)
            t.step()
            if safe is None:
                t.outcome('%s: nothing promised' % end)
                return
            b = sound(path, what)
            compare(b.root, safe, what)
            t.outcome('%s: as promised' % end)
            # the edits that are in the file
            if end in ('leave', 'close', 'save close'):
                done += word
            else:
                done += word[:word.rindex('s') + 1] if 's' in word else ''
            edits = done.replace('s', '')
            # (the numbering of the edits goes on after values that were lost)
            if safe.n == edits_made(sessions, i, kw, edits):
                ref = reference(next(s[0] for s in reversed(sessions[:i + 1]) if s[0][0] == 'w') if any(s[0][0] == 'w' for s in sessions[:i + 1]) else 'r+', kw, edits)
                got = strip(b.root)
                if got != ref:
                    raise Violation('%s: not the same as without saving in between: %s' % (what, aafref.diff(ref, got)), 'different')
                t.outcome('same as in one go')
            t.state((tuple(sorted(kw.items())), edits))
            m = safe
    finally:
        if os.path.exists(path):
            os.unlink(path)


def edits_made(sessions, i, kw, edits):
    """number of edits of the model a reference run would end with"""
    base = 0 if any(s[0][0] == 'w' for s in sessions[:i + 1]) else start(kw)[1].n
    return base + len(edits)


# ---------------------------------------------------------------- modes

GOOD = {'r': 'read', 'rb': 'read', 'r+': 'update', 'rb+': 'update', 'rw': 'update', 'w': 'new', 'w+': 'new', 'wb+': 'new'}
BAD = ['', 'a', 'a+', 'x', 'x+', 'rt', 'wt', 'R', 'W', 'rwx', 'q', ' r', 'r ', 'U', 'ab+']


def run_mode(case, t):
    """case: mode, what there is, options"""
    mode, there, kw = case
    d = {'file': start({})[0], 'none': None, 'empty': b'', 'garbage': util.pat(9, 20000), 'text': b'not a container', 'cut': start({})[0][:700], 'directory': 'dir', 'path missing': 'missing'}[there]
    path = aafrig.newpath('mode')
    if d == 'dir':
        os.mkdir(path)
    elif d == 'missing':
        path = os.path.join(path, 'x.aaf')
    elif d is not None:
        aafrig.writefile(path, d)
    what = 'mode %r, %s, %s' % (mode, there, kw)
    kind = GOOD.get(mode)
    isfile = isinstance(d, bytes)
    try:
        try:
            f = aaf2.open(path, mode, **kw)
        except Exception as e:
            t.outcome('%s %s: %s' % (kind, there, type(e).__name__))
            if kind is None and not isinstance(e, ValueError):
                raise Violation('%s: refused with %s: %s, not as an invalid mode' % (what, type(e).__name__, e), 'mode')
            if kind in ('read', 'update') and there in ('none', 'path missing') and not (isinstance(e, (IOError, OSError)) and e.errno == 2):
                raise Violation('%s: a file that is missing is refused with %s: %s' % (what, type(e).__name__, e), 'mode')
            if kind and there == 'file' or kind == 'new' and isfile:
                raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e))
            e = None
            if os.path.exists(path) != (d is not None and d != 'missing'):
                raise Violation('%s: refused, but the file is %s' % (what, 'there' if d is None else 'gone'), 'mode')
            if isfile and aafrig.readfile(path) != d:
                raise Violation('%s: refused, but the file is changed' % what, 'mode')
            return
        if kind is None:
            f.close()
            raise Violation('%s: accepted' % what, 'mode')
        if kind != 'new' and there != 'file':
            raise Violation('%s: accepted' % what, 'mode')
        t.outcome('%s %s: opened' % (kind, there))
        if f.writeable != (kind != 'read'):
            raise Violation('%s: writeable is %r' % (what, f.writeable), 'mode')
        n = len(list(f.content.mobs))
        if n != (0 if kind == 'new' else len(start({})[1].mobs)):
            raise Violation('%s: %d mobs' % (what, n), 'mode')
        f.close()
        if held(path):
            raise Violation('%s: the file is still held open' % what, 'held')
        b = sound(path, what)
        compare(b.root, State() if kind == 'new' else start({})[1], what)
        if kind == 'read' and aafrig.readfile(path) != d:
            raise Violation('%s: the file is changed' % what, 'mode')
        t.step()
        t.state((kind, there))
    finally:
        if os.path.isdir(path):
            os.rmdir(path)
        elif os.path.exists(path):
            os.unlink(path)


def run_memory(case, t):
    """case: words; the file without a path"""
    for word in case:
        m = State()
        what = 'in memory, %s' % word
        try:
            f = aaf2.open()
            for o in word:
                OPS[o](f, m)
            live = {}
            for x in f.content.mobs:
                live[bytes(x.mob_id.bytes_le)] = (x.name, [(k, v) for k, v in x.comments.items()])
            ess = {bytes(e.mob_id.bytes_le): bytes(e.open('r').read()) for e in f.content.essencedata}
            f.close()
        except Exception as e:
            raise Violation('%s: %s: %s [%s]' % (what, type(e).__name__, e, tb_tail(e)), exc_site(e), case=[word])
        want = {bytes(mid(k).bytes_le): (v['name'], v['tags']) for k, v in m.mobs.items()}
        if live != want:
            raise Violation('%s: has %s, should have %s' % (what, live, want), 'content', case=[word])
        want = {bytes(mid(k).bytes_le): v['essence'] for k, v in m.mobs.items() if v['essence'] is not None}
        if ess != want:
            raise Violation('%s: other essence' % what, 'content', case=[word])
        try:
            f.save()
        except Exception:
            pass
        else:
            raise Violation('%s: saving is not refused afterwards' % what, 'save after close', case=[word])
        t.step()
        t.state(word)
        t.outcome('memory')


def allwords(letters, n, m=0):
    return [''.join(w) for w in words(letters, n, m)]


def one_cases(modes, kws, letters, n, ends):
    def cases():
        for kw in kws:
            for i, w in enumerate(allwords(letters, n)):
                # leaving and raising always, the others in turn
                for j, end in enumerate(ends if len(ends) > 5 else [ends[0], ends[-1], ends[1 + i % (len(ends) - 2)]]):
                    yield [kw, [[modes[(len(w) + j) % len(modes)], w, end]]]
    return cases


def two_cases(first, kws, w1, w2, ends):
    def cases():
        for kw in kws:
            for mode in first:
                for a in w1:
                    for b in w2:
                        for e1 in ends:
                            for e2 in ends:
                                yield [kw, [[mode, a, e1], ['r+', b, e2]]]
    return cases


def long_cases(n, mode):
    """long histories of short sessions"""
    for w in words(['av', 'esd', 'sws', 'tsv'], n, n):
        for ends in (['leave'] * n, ['close'] * n, ['raise', 'leave'] * n):
            out = []
            for i, x in enumerate(w):
                e = ends[i]
                out.append(['r+' if i or mode != 'w' else 'w', x + ('s' if e == 'raise' else ''), e])
            yield [{}, out]


def spaces(tier):
    full = tier != 'quick'
    K4, K5 = {}, {'sector_size': 512}
    W, R = ['w', 'w+', 'wb+'], ['r+', 'rb+', 'rw']
    out = [Space('update, one session', one_cases(R, [K4] + ([K5] if full else []), 'vadtews' if full else 'vdes', 3, ENDS if full else ('leave', 'close', 'save close', 'raise base', 'raise')), run_sessions, 'words of operations x ways to end', cpu_limit=60),
           Space('new, one session', one_cases(W, [K4] + ([K5] if full else []), 'vaes' if not full else 'vadtews', 2 if not full else 3, ENDS if full else ('leave', 'close', 'raise')), run_sessions, 'words of operations x ways to end', cpu_limit=60),
           Space('two sessions', two_cases(['r+', 'w'], [K5] + ([K4] if full else []), ['av', 'esv', 'sds'] + (['', 'sv', 'asw', 'tes', 'dv'] if full else []), ['v', 'sdsv', 'ws'] + (['', 'e', 'esw', 'ts'] if full else []), ('leave', 'raise') if not full else ('leave', 'close', 'raise')), run_sessions, 'pairs of sessions', cpu_limit=60),
           Space('modes', lambda: ([m, x, kw] for m in list(GOOD) + BAD for x in ('file', 'none', 'empty', 'garbage', 'text', 'cut', 'directory', 'path missing') for kw in ({}, {'extensions': False}, {'buffering': 0}, {'sector_size': 512, 'buffering': 1 << 20})[:4 if full else 2]), run_mode, 'every mode on every kind of path', cpu_limit=60),
           Space('in memory', lambda: (allwords('vaes' if not full else 'vadtews', 2 if not full else 3)[i::16] for i in range(16)), run_memory, 'words of operations', cpu_limit=300),
           Space('histories', lambda: (c for mode in ('w', 'r+') for c in long_cases(3 if full else 2, mode)), run_sessions, 'histories of sessions', cpu_limit=100)]
    if full:
        out.append(Space('update, one session, words of 4', one_cases(R, [K4], 'vdews', 4, ('leave', 'raise')), run_sessions, 'words of operations x ways to end', cpu_limit=60))
    return out
