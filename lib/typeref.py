"""Independent codec of AAF property values, driven by lib/model_snapshot.json.

enc(type id, value) gives the stored bytes; domain(type id) lists
(value to assign, value expected back, stored bytes); outside(type id) lists
values that are not in the type's domain."""
import datetime, json, os, struct, uuid
from aaf2.auid import AUID
from aaf2.mobid import MobID
from aaf2.rational import AAFRational

MODEL = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'model_snapshot.json')))
TYPES = MODEL['types']
CLASSES = MODEL['classes']
NAMES = {d['name']: k for k, d in TYPES.items()}
BOOL = '01040100-0000-0000-060e-2b3401040101'
MOBID = '01030200-0000-0000-060e-2b3401040101'
TAUID = '01030100-0000-0000-060e-2b3401040101'
TIME = '03010600-0000-0000-060e-2b3401040101'
DATE = '03010500-0000-0000-060e-2b3401040101'
STAMP = '03010700-0000-0000-060e-2b3401040101'
RATIONAL = '03010100-0000-0000-060e-2b3401040101'
CHAR = '01100100-0000-0000-060e-2b3401040101'
REFS = ('StrongRef', 'WeakRef')


def is_data(t):
    """stored inline as bytes"""
    d = TYPES[t]
    if d['kind'] in REFS + ('Stream', 'Character', 'GenericCharacter'):
        return False
    if d['kind'] in ('VarArray', 'Set'):
        return TYPES[d['of']]['kind'] not in REFS
    return True


def swapped(s):
    """text of an id -> stored bytes"""
    h = bytes.fromhex(s.replace('-', ''))
    return h[3::-1] + h[5:3:-1] + h[7:5:-1] + h[8:]


def width(t):
    d = TYPES[t]
    k = d['kind']
    if k == 'Int':
        return d['size']
    if k in ('Enum', 'Rename'):
        return width(d['of'])
    if k == 'FixedArray':
        return width(d['of']) * d['size']
    if k == 'Record':
        return sum(width(m) for n, m in d['fields'])
    if k == 'ExtEnum':
        return 16
    raise KeyError(k)


def int_bytes(d, v):
    return v.to_bytes(d['size'], 'little', signed=d['signed'])


def bounds(d):
    n = d['size'] * 8
    return (-(1 << n - 1), (1 << n - 1) - 1) if d['signed'] else (0, (1 << n) - 1)


IDS = ['00000000-0000-0000-0000-000000000000', 'ffffffff-ffff-ffff-ffff-ffffffffffff', '00112233-4455-6677-8899-aabbccddeeff',
       '01030200-0000-0000-060e-2b3401040101']
TEXTS = ['', 'a', ' ', 'caf\xe9', '\u0100\u0001', '\uffff', '\U0001f600', 'x' * 31, 'y' * 1000, 'a\nb', '\ufeffb', 'e\u0301', '\x01', '\U00010000\u00ff']


def domain(t, deep=False):
    d = TYPES[t]
    k = d['kind']
    out = []
    if k == 'Int':
        lo, hi = bounds(d)
        vals = {lo, hi, 0, 1, lo + 1, hi - 1, hi // 2 + 1, 0x55 & hi, 10, 13}
        if deep and d['size'] <= 2:
            vals |= set(range(lo, hi + 1, 1 if d['size'] == 1 else 97))
        for b in range(d['size'] * 8):
            for v in (1 << b, (1 << b) - 1, (1 << b) + 1, -(1 << b), ~(1 << b)):
                if lo <= v <= hi:
                    vals.add(v)
        return [(v, v, int_bytes(d, v)) for v in sorted(vals)]
    if k == 'Enum':
        if t == BOOL:
            return [(True, True, b'\1'), (False, False, b'\0')]
        for i, n in d['elements']:
            b = int_bytes(TYPES[d['of']], i)
            out += [(n, n, b), (i, n, b)]
        return out
    if k == 'ExtEnum':
        for i, n in d['elements']:
            b = swapped(i)
            out += [(n, n, b), (n.upper(), n, b), (n.lower(), n, b), (AUID(i), n, b), (uuid.UUID(i), n, b)]
        return out
    if k == 'Record':
        if t == TAUID:
            return [(AUID(i), AUID(i), swapped(i)) for i in IDS] + [(uuid.UUID(i), AUID(i), swapped(i)) for i in IDS]
        if t == MOBID:
            for b in (bytes(32), b'\xff' * 32, bytes(range(32)), bytes(MobID.new().bytes_le)):
                out.append((MobID(bytes_le=bytearray(b)), MobID(bytes_le=bytearray(b)), b))
            return out
        if t == RATIONAL:
            for n, m in [(0, 1), (1, 1), (-1, 2), (30000, 1001), (2, 4), (2147483647, 1), (-2147483648, 1), (1, 2147483647), (25, 1)]:
                b = struct.pack('<ii', n, m)
                out.append((AAFRational(n, m), AAFRational(n, m), b))
                if m == 1:
                    out.append((n, AAFRational(n, 1), b))
                out.append(('%d/%d' % (n, m), AAFRational(n, m), b))
            return out
        if t == DATE:
            for y, m, dd in [(1, 1, 1), (1970, 1, 1), (2024, 2, 29), (9999, 12, 31)]:
                out.append((datetime.date(y, m, dd), datetime.date(y, m, dd), struct.pack('<hBB', y, m, dd)))
            for y, m, dd in [(0, 0, 0), (-5, 1, 1), (2023, 2, 29), (2023, 13, 1)]:
                v = {'year': y, 'month': m, 'day': dd}
                out.append((v, v, struct.pack('<hBB', y, m, dd)))
            v = {'year': 2000, 'month': 6, 'day': 15}
            out.append((v, datetime.date(2000, 6, 15), struct.pack('<hBB', 2000, 6, 15)))
            return out
        if t == TIME:
            for h, m, s in [(0, 0, 0), (23, 59, 59), (1, 2, 3)]:
                out.append((datetime.time(h, m, s), datetime.time(h, m, s), bytes((h, m, s, 0))))
            for h, m, s, f in [(24, 0, 0, 0), (1, 60, 0, 0), (1, 2, 61, 9), (255, 255, 255, 255)]:
                v = {'hour': h, 'minute': m, 'second': s, 'fraction': f}
                out.append((v, v, bytes((h, m, s, f))))
            v = {'hour': 1, 'minute': 2, 'second': 3, 'fraction': 7}
            out.append((v, datetime.time(1, 2, 3, 7), bytes((1, 2, 3, 7))))
            return out
        if t == STAMP:
            for a in [(1, 1, 1, 0, 0, 0), (1999, 12, 31, 23, 59, 59), (9999, 12, 31, 1, 2, 3)]:
                v = datetime.datetime(*a)
                out.append((v, v, struct.pack('<hBBBBBB', *(a + (0,)))))
            bad = {'date': {'year': 0, 'month': 0, 'day': 0}, 'time': datetime.time(0, 0, 0)}
            out.append((bad, bad, bytes(8)))
            return out
        parts = [domain(m, deep) for n, m in d['fields']]
        if not all(parts):
            return []
        base = [p[min(1, len(p) - 1)] for p in parts]
        seen = [base]
        for i, p in enumerate(parts):
            for c in p[:12]:
                seen.append(base[:i] + [c] + base[i + 1:])
        for row in seen:
            out.append(({n: c[0] for (n, m), c in zip(d['fields'], row)}, {n: c[1] for (n, m), c in zip(d['fields'], row)},
                        b''.join(c[2] for c in row)))
        return out
    if k == 'FixedArray':
        el = domain(d['of'], False)
        n = d['size']
        for rot in range(min(len(el), 6)):
            row = [el[(rot + i) % len(el)] for i in range(n)]
            out.append(([c[0] for c in row], [c[1] for c in row], b''.join(c[2] for c in row)))
        row = [el[-1]] * n
        out.append((tuple(c[0] for c in row), [c[1] for c in row], b''.join(c[2] for c in row)))
        return out
    if k == 'VarArray':
        if d['of'] == CHAR:
            for v in ([], ['a'], ['', 'b'], ['a', ''], [''], ['\u0100', '\U0001f600', 'x'], TEXTS):
                out.append((v, list(v), b''.join(i.encode('utf-16-le') + b'\0\0' for i in v)))
            return out
        el = domain(d['of'], False)
        rows = [[], el[:1], el[-1:], el[:2], el[::-1][:3], el, el * 3]
        for row in rows:
            out.append(([c[0] for c in row], [c[1] for c in row], b''.join(c[2] for c in row)))
        out.append((tuple(c[0] for c in el[:2]), [c[1] for c in el[:2]], b''.join(c[2] for c in el[:2])))
        if TYPES[d['of']]['kind'] == 'Int' and TYPES[d['of']]['size'] == 1:
            out.append((bytearray(range(256)) if not TYPES[d['of']]['signed'] else [1], list(range(256)) if not TYPES[d['of']]['signed'] else [1],
                        bytes(range(256)) if not TYPES[d['of']]['signed'] else b'\1'))
        return out
    if k == 'Set':
        el = [c for c in domain(d['of'], False) if getattr(type(c[0]), '__hash__', None)]
        el = list({c[2]: c for c in el}.values())
        for row in ([], el[:1], el[:2], el[-3:]):
            out.append((set(c[0] for c in row), set(c[1] for c in row), {c[2] for c in row}))
            out.append(([c[0] for c in row] + [c[0] for c in row], set(c[1] for c in row), {c[2] for c in row}))
        # many, and each many times
        out.append(([c[0] for c in el[:3]] * 150, set(c[1] for c in el[:3]), {c[2] for c in el[:3]}))
        if TYPES[d['of']]['kind'] == 'Int' and width(d['of']) > 1:
            w = width(d['of'])
            vals = list(range(300))
            out.append((vals + vals[:7], set(vals), {v.to_bytes(w, 'little') for v in vals}))
        return out
    if k == 'String':
        if TYPES[d['of']]['kind'] == 'GenericCharacter':
            return [(v, v, v.encode('ascii') + b'\0') for v in ('', 'a', 'en-US', 'x' * 300, '\x7f\x01')]
        return [(v, v, v.encode('utf-16-le') + b'\0\0') for v in TEXTS]
    if k == 'Rename':
        return domain(d['of'], deep)
    if k in ('Indirect', 'Opaque'):
        head = lambda i: b'\x4c' + swapped(i)
        for v in TEXTS:
            out.append((v, v, head('01100200-0000-0000-060e-2b3401040101') + v.encode('utf-16-le') + b'\0\0'))
        for v in (0, 1, -1, 2147483647, -2147483648):
            out.append((v, v, head('01010700-0000-0000-060e-2b3401040101') + struct.pack('<i', v)))
        for v in (AAFRational(0, 1), AAFRational(-30000, 1001)):
            out.append((v, v, head(RATIONAL) + struct.pack('<ii', v.numerator, v.denominator)))
        return out
    raise KeyError(k)


def outside(t):
    d = TYPES[t]
    k = d['kind']
    if k == 'Int':
        lo, hi = bounds(d)
        return [lo - 1, hi + 1, hi * 2 + 2, -hi * 3, 1.5, '1', b'1', [1], 1 << 70, object()]
    if k == 'Enum':
        if t == BOOL:
            return []
        used = {i for i, n in d['elements']}
        free = [i for i in range(0, 300) if i not in used][:2]
        return ['NoSuchElement', '', d['elements'][0][1] + ' ', -1, None.__class__, [1], b'x'] + free + [1 << 40]
    if k == 'ExtEnum':
        return ['NoSuchElement', '', AUID(int=12345), 5, [], b'x', d['elements'][0][1] + ' ']
    if k == 'Record':
        if t == TAUID:
            return ['', 5, bytes(16), MobID.new(), {}, [1]]
        if t == MOBID:
            return ['', 5, bytes(32), AUID(int=5), uuid.uuid4(), {}]
        if t == RATIONAL:
            return ['x', {}, [1], AAFRational(2147483648, 1), AAFRational(1, 2147483648), AAFRational(-2147483649, 1), 1 << 31, object()]
        if t == STAMP:
            return [5, 'x', datetime.date(2000, 1, 1), {}, datetime.time(1, 2, 3)]
        if t == DATE:
            return [5, 'x', {}, {'year': 1}, {'year': 40000, 'month': 1, 'day': 1}, {'year': 2000, 'month': 256, 'day': 1}, datetime.time(1, 1, 1)]
        if t == TIME:
            return [5, 'x', {}, {'hour': 256, 'minute': 0, 'second': 0, 'fraction': 0}, datetime.date(2000, 1, 1)]
        base = domain(t)[0][0]
        out = [5, 'x', [], {}]
        for n, m in d['fields']:
            out.append({a: b for a, b in base.items() if a != n})
            for v in outside(m)[:4]:
                out.append(dict(base, **{n: v}))
        return out
    if k in ('FixedArray', 'VarArray', 'Set'):
        if d['of'] == CHAR:
            return [5, ['a', 5], [5, 'a'], ['a', 'b\0c'], ['\ud800'], ['a', None], object()]
        el = domain(d['of'])
        good = [el[i % len(el)][0] for i in range(d.get('size', 3))]
        out = [5, object()]
        for v in outside(d['of'])[:5]:
            try:
                hash(v)
            except TypeError:
                if k == 'Set':
                    continue
            for i in range(min(3, len(good))):
                out.append(good[:i] + [v] + good[i + 1:])
            out.append(good[:-1] + [v])
        if k == 'FixedArray':
            out.append(good + good[:1])
            out.append(good * 2)
        return out
    if k == 'String':
        base = [5, b'x', ['a'], 'a\0b', '\0', '\ud800', 'a\udc00b', object(), AUID(int=5)]
        if TYPES[d['of']]['kind'] == 'GenericCharacter':
            base += ['caf\xe9', '\u0100']
        return base
    if k == 'Rename':
        return outside(d['of'])
    if k in ('Indirect', 'Opaque'):
        return [1 << 31, -(1 << 31) - 1, 1.5, [1], b'x', object(), 'a\0b', '\ud800', AAFRational(1 << 31, 1)]
    raise KeyError(k)


def same_value(a, b):
    """equal and of the same kind of Python value"""
    if isinstance(b, (list, tuple)):
        return isinstance(a, (list, tuple)) and len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(b, dict):
        return isinstance(a, dict) and a.keys() == b.keys() and all(same_value(a[k], b[k]) for k in b)
    if isinstance(b, bool):
        return isinstance(a, bool) and a == b
    if isinstance(b, set):
        return isinstance(a, (set, frozenset)) and a == b
    if isinstance(b, AAFRational):
        return isinstance(a, AAFRational) and (a.numerator, a.denominator) == (b.numerator, b.denominator)
    return type(a) == type(b) and a == b
