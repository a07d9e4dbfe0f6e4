"""C18: identifiers convert losslessly and compare consistently.

Byte-lane exhaustive: every value of every byte of an identifier on several
backgrounds (and every pair of bytes over boundary values) through every
conversion, against the standard uuid module and plain byte strings; every
single-character substitution, deletion and insertion of every textual form,
against an independent grammar; every pair and triple of a set of related ids
through equality, hashing and all four orderings; every value of every field
of a mob id; generation with every pair of outcomes of the random source."""
import copy, itertools, re, struct, uuid
from aaf2.auid import AUID
from aaf2 import mobid as mobid_mod
from aaf2.mobid import MobID
from lib.mc import Space, Violation, chunks

LEVEL = 'exploration'
ASSUMPTIONS = ['identifiers are explored one byte, pairs of bytes and structured labels at a time, not over all 2^128 values',
               'a mob id whose material is printed in half-swapped form follows the rule in the documentation of the text form']

BG16 = [bytes(16), bytes(range(0x10, 0x20)), b'\xff' * 16, bytes.fromhex('0d010101010121000060e2b340206010'[:32])]
# the last rows have the shape that selects the half-swapped text form
BG32 = [bytes(32), bytes(range(1, 33)), b'\xff' * 32,
        bytes.fromhex('060a2b340101010501010f2013000000') + bytes(range(16)),
        bytes.fromhex('060a2b340101010501010f0013000000') + bytes(range(0x40, 0x48)) + bytes.fromhex('060e2b347f7f2a80'),
        bytes.fromhex('060a2b340101010501010f0013000000') + bytes.fromhex('342b0e067f7f802a') + bytes.fromhex('060e2b347f7f0102')]


def eq(a, b, what, *args):
    if a != b:
        raise Violation('%s: got %r, expected %r' % (what % args if args else what, a, b))


def check_auid(b, tally):
    b = bytes(b)
    u = uuid.UUID(bytes_le=b)
    a = AUID(bytes_le=b)
    eq(bytes(a.bytes_le), b, 'bytes_le of %s', b.hex())
    eq(a.int, u.int, 'int of %s', u)
    eq(a.hex, u.hex, 'hex of %s', u)
    eq(str(a), str(u), 'text of %s', u)
    eq(a.uuid, u, 'uuid of %s', u)
    eq(bytes(a.bytes_be), u.bytes, 'bytes_be of %s', u)
    eq((a.data1, a.data2, a.data3, bytes(a.data4)), struct.unpack('<IHH8s', b), 'fields of %s', u)
    forms = [AUID(str(u)), AUID(u.hex), AUID(str(u).upper()), AUID('{%s}' % u), AUID(u.urn), AUID(u), AUID(a),
             AUID(bytes_be=u.bytes), AUID(int=u.int), AUID(bytes_le=bytearray(b)), AUID(hex=a.hex)]
    for i, x in enumerate(forms):
        if bytes(x.bytes_le) != b:
            raise Violation('construction form %d of %s gave %s' % (i, u, x))
        if not (x == a and a == x) or x != a:
            raise Violation('equal ids compare different: %s' % u)
        if hash(x) != hash(a):
            raise Violation('equal ids hash differently: %s' % u)
    if not (a == u and u == a) or a != u or u != a:
        raise Violation('%s does not equal the standard UUID of the same bytes' % u)
    if hash(a) != hash(u):
        raise Violation('%s equals the standard UUID of the same bytes but hashes differently' % u, sig='hash-uuid')
    if {a: 1}.get(u) != 1 or {u: 1}.get(a) != 1:
        raise Violation('%s is not found in a map under the equal standard UUID' % u)
    # an id keeps to itself: the buffer it was made from, and what its parts return, are copies
    given, other = bytearray(b), bytearray(u.bytes)
    one = [AUID(bytes_le=given), AUID(bytes_be=other)]
    one += [AUID(one[0]), AUID(u), copy.copy(one[0]), copy.deepcopy(one[0])]
    for x in (given, other, one[0].bytes_be, one[1].bytes_be):
        x[0] ^= 0xff
        x[15] ^= 1
    for i, x in enumerate(one):
        if bytes(x.bytes_le) != b:
            raise Violation('the id made %s changes with the buffer it was made from or gave: %s became %s' % (('from bytes_le', 'from bytes_be', 'from an id', 'from a UUID', 'by copy', 'by deepcopy')[i], u, x), sig='shared')
    tally.state(b)
    tally.step(len(forms) + 7 + len(one))


def run_auid(case, tally):
    bg, pos = case
    base = bytearray(BG16[bg])
    if isinstance(pos, int):
        for v in range(256):
            base[pos] = v
            check_auid(base, tally)
    else:
        i, j = pos
        for v, w in itertools.product((0, 1, 0x7f, 0x80, 0xfe, 0xff), repeat=2):
            base[i], base[j] = v, w
            check_auid(base, tally)


# ------------------------------------------------------------------ text

def auid_grammar(t):
    """bytes_le or None; the documented forms: hex digits, dashes, braces, urn:uuid:"""
    s = t.replace('urn:', '').replace('uuid:', '').strip('{}').replace('-', '')
    if not re.match(r'\A[0-9a-fA-F]{32}\Z', s):
        return None
    return uuid.UUID(hex=s).bytes_le


def try_auid(t):
    try:
        a = AUID(t)
    except (ValueError, TypeError):
        return None
    return bytes(a.bytes_le)


ALPHA = [chr(c) for c in range(128)] + ['\u00e9', '\u0660', '\uff11', '\u2003']


def mutations(s):
    yield s
    for i in range(len(s) + 1):
        for ch in ALPHA:
            if i < len(s):
                yield s[:i] + ch + s[i + 1:]
            yield s[:i] + ch + s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
        if i + 1 < len(s):
            yield s[:i] + s[i + 1] + s[i] + s[i + 2:]
    for ch in ' _+0x\t':          # pairs of characters that keep the length right
        for i, j in itertools.combinations(range(0, len(s), 3), 2):
            yield s[:i] + ch + s[i + 1:j] + ch + s[j + 1:]


TEXTS = ['0d010101-0101-2100-060e-2b3402060101', '0d0101010101210006 0e2b3402060101'.replace(' ', ''), '{0D010101-0101-2100-060E-2B34020601FF}',
         'urn:uuid:0d010101-0101-2100-060e-2b3402060101']


def run_text(case, tally):
    t, part, parts = case
    for k, m in enumerate(mutations(TEXTS[t])):
        if k % parts != part:
            continue
        want = auid_grammar(m)
        got = try_auid(m)
        tally.step()
        tally.outcome('accept' if got else 'reject')
        if got != want:
            raise Violation('text %r: %s, expected %s' % (m, 'read as %s' % got.hex() if got is not None else 'rejected', want.hex() if want else 'rejection'),
                            case=case)
        if got is not None:
            tally.state(got)


# ------------------------------------------------------------------ mob ids

def mob_text(b):
    lab, m = b[:16], b[16:]
    be = struct.pack('>IHH', *struct.unpack('<IHH', m[:8]))
    if b[11] == 0 and m[8:14] == bytes.fromhex('060e2b347f7f'):
        x = lab + m[8:] + be
    else:
        x = lab + be + m[8:]
    h = x.hex()
    return 'urn:smpte:umid:' + '.'.join(h[i:i + 8] for i in range(0, 64, 8))


def mob_parse(t):
    s = t.lower()
    for x in ('urn:smpte:umid:', '.', '-', '0x'):
        s = s.replace(x, '')
    if not re.match(r'\A[0-9a-f]{64}\Z', s):
        return None
    d = bytes.fromhex(s)
    lab, m = d[:16], d[16:]
    if lab[11] == 0 and m[:6] == bytes.fromhex('060e2b347f7f'):
        return lab + struct.pack('<IHH', *struct.unpack('>IHH', m[8:])) + m[:8]
    return lab + struct.pack('<IHH', *struct.unpack('>IHH', m[:8])) + m[8:]


def check_mob(b, tally):
    b = bytes(b)
    m = MobID(bytes_le=b)
    eq(bytes(m.bytes_le), b, 'bytes of a mob id')
    eq(m.int, int.from_bytes(b, 'big'), 'int of mob id %s', b.hex())
    eq(int(m), m.int, 'int()')
    t = mob_text(b)
    eq(m.urn, t, 'urn of %s', b.hex())
    eq(str(m), t, 'text of %s', b.hex())
    eq(m.material.bytes_le if isinstance(m.material, uuid.UUID) else bytes(m.material.bytes_le), b[16:], 'material of %s', b.hex())
    eq(bytes(m.SMPTELabel), b[:12], 'label')
    eq((m.length, m.instanceHigh, m.instanceMid, m.instanceLow), tuple(b[12:16]), 'instance')
    eq((m.Data1, m.Data2, m.Data3, bytes(m.Data4)), struct.unpack('<IHH8s', b[16:]), 'material fields')
    d = MobID()
    d.from_dict(m.to_dict())
    i = MobID()
    i.int = m.int
    forms = {'int': MobID(int=m.int), 'dict': d, 'bytearray': MobID(bytes_le=bytearray(b)), 'int setter': i}
    for k, x in forms.items():
        if bytes(x.bytes_le) != b:
            raise Violation('mob id %s through %s: %s' % (b.hex(), k, bytes(x.bytes_le).hex()))
        if not x == m or x != m or hash(x) != hash(m):
            raise Violation('equal mob ids differ in equality or hash: %s (%s)' % (b.hex(), k))
    for txt in (t, t.upper().replace('URN:SMPTE:UMID:', 'urn:smpte:umid:'), t[15:], t.replace('.', ''), t.replace('.', '-')):
        x = bytes(MobID(txt).bytes_le)
        # the one shape whose text is also the text of another id is judged in its own space
        want = mob_parse(txt) if b[11] == 0 and b[16:22] == bytes.fromhex('342b0e067f7f') else b
        if x != want:
            raise Violation('mob id %s prints as %s which reads back as %s' % (b.hex(), txt, x.hex()), sig='umid-text')
    given = bytearray(b)
    x = MobID(bytes_le=given)
    mat = AUID(bytes_le=b[16:])
    y = MobID(bytes_le=b)
    y.material = mat
    z = [copy.copy(x), copy.deepcopy(x)]
    given[0] ^= 0xff
    given[31] ^= 1
    mat.bytes_le[0] ^= 0xff
    part = x.material
    if isinstance(part, AUID):
        part.bytes_le[3] ^= 0xff
    if [bytes(v.bytes_le) for v in [x, y] + z] != [b] * 4:
        raise Violation('mob id %s changes with the buffer or material it was made from or gave' % b.hex(), sig='shared')
    tally.state(b)
    tally.step(18)


def run_mob(case, tally):
    bg, pos = case
    base = bytearray(BG32[bg])
    if isinstance(pos, int):
        for v in range(256):
            base[pos] = v
            check_mob(base, tally)
    else:
        i, j = pos
        for v, w in itertools.product((0, 1, 0x7f, 0x80, 0xff), repeat=2):
            base[i], base[j] = v, w
            check_mob(base, tally)


AMBIG = bytes.fromhex('060a2b340101010501010f0013000000') + bytes.fromhex('342b0e067f7f802a') + bytes(range(8))


def run_ambiguous(case, tally):
    check_mob(AMBIG, tally)
    t = str(MobID(bytes_le=AMBIG))
    x = bytes(MobID(t).bytes_le)
    if x != AMBIG:
        raise Violation('mob id %s prints as %s which reads back as %s' % (AMBIG.hex(), t, x.hex()),
                        sig='umid-text-half-swapped' if x == mob_parse(mob_text(AMBIG)) else None)


MTEXTS = ['urn:smpte:umid:060a2b34.01010105.01010f20.13000000.52c02cd8.68014806.986ab68c.0a0cf9d3',
          'urn:smpte:umid:060a2b34.01010101.01010f00.13000000.060e2b34.7f7f2a80.4fa5c20f.4e301e50']


def run_mtext(case, tally):
    t, part, parts = case
    for k, m in enumerate(mutations(MTEXTS[t])):
        if k % parts != part:
            continue
        want = mob_parse(m)
        x = MobID(bytes_le=b'\x55' * 32)
        try:
            got = bytes(MobID(m).bytes_le)
        except (ValueError, AssertionError, TypeError):
            got = None
        try:
            x.urn = m
        except (ValueError, AssertionError, TypeError):
            if bytes(x.bytes_le) != b'\x55' * 32:
                raise Violation('rejected text %r changed the id' % m)
        else:
            eq(bytes(x.bytes_le), got, 'urn setter for %r', m)
        tally.step()
        tally.outcome('accept' if got else 'reject')
        if got != want:
            raise Violation('mob id text %r: %s, expected %s' % (m, 'read as %s' % got.hex() if got is not None else 'rejected', want.hex() if want else 'rejection'))
        if got is not None:
            tally.state(got)


FIELDS = {  # name -> (offset, size, values)
    'length': (12, 1), 'instanceHigh': (13, 1), 'instanceMid': (14, 1), 'instanceLow': (15, 1),
    'Data1': (16, 4), 'Data2': (20, 2), 'Data3': (22, 2), 'Data4': (24, 8), 'SMPTELabel': (0, 12), 'material': (16, 16)}


def run_dict(case, tally):
    """a dict names some of the fields: the others are zero, whatever the id was before"""
    bg, src = case
    b = bytes(BG32[src])
    top = {'length': b[12], 'instanceHigh': b[13], 'instanceMid': b[14], 'instanceLow': b[15], 'SMPTELabel': list(b[:12])}
    mat = dict(zip(('Data1', 'Data2', 'Data3'), struct.unpack('<IHH', b[16:24])))
    mat['Data4'] = list(b[24:])
    for r in range(len(top) + 1):
        for keys in itertools.combinations(sorted(top), r):
            for q in range(-1, len(mat) + 1):
                for mk in itertools.combinations(sorted(mat), q) if q >= 0 else [None]:
                    d = dict((k, top[k]) for k in keys)
                    if mk is not None:
                        d['material'] = dict((k, mat[k]) for k in mk)
                    w = bytearray(32)
                    for k in list(keys) + list(mk or ()):
                        off, size = FIELDS[k]
                        w[off:off + size] = b[off:off + size]
                    m = MobID(bytes_le=bytes(BG32[bg]))
                    m.from_dict(d)
                    eq(bytes(m.bytes_le), bytes(w), 'from_dict(%r) on %s' % (d, bytes(BG32[bg]).hex()))
                    n = MobID()
                    n.from_dict(m.to_dict())
                    eq(bytes(n.bytes_le), bytes(w), 'to_dict of %s', bytes(w).hex())
                    tally.step(2)
                    tally.state(w)


def run_field(case, tally):
    name, bg = case
    off, size = FIELDS[name]
    base = BG32[bg]
    if name in ('Data4', 'SMPTELabel', 'material'):
        vals = [bytes(size), b'\xff' * size, bytes(range(size)), bytes(range(0xf0 - size, 0xf0))]
        for p in range(size):
            x = bytearray(size)
            x[p] = 0x80
            vals.append(bytes(x))
        for v in vals:
            if name == 'material':
                givens = [AUID(bytes_le=v), uuid.UUID(bytes_le=v)]
            else:
                givens = [list(v), v, bytearray(v)]
            for given in givens:
                m = MobID(bytes_le=base)
                setattr(m, name, given)
                eq(bytes(m.bytes_le), base[:off] + v + base[off + size:], 'setting %s on %s', name, base.hex())
                g = getattr(m, name)
                eq(bytes(g.bytes_le) if name == 'material' else bytes(g), v, 'reading %s', name)
                tally.step()
                tally.state((name, bytes(m.bytes_le)))
        if name != 'material':
            for bad in (list(range(size - 1)), list(range(size + 1)), [256] * size, [-1] * size, []):
                m = MobID(bytes_le=base)
                try:
                    setattr(m, name, bad)
                except (struct.error, ValueError, TypeError):
                    eq(bytes(m.bytes_le), base, 'rejected %s', name)
                else:
                    raise Violation('%s accepted %r' % (name, bad))
                tally.step()
        return
    top = 1 << (8 * size)
    vals = range(256) if size == 1 else [(x + d) % top for p in range(8 * size) for x in (1 << p,) for d in (-1, 0, 1)] + [0]
    for v in vals:
        m = MobID(bytes_le=base)
        setattr(m, name, v)
        eq(bytes(m.bytes_le), base[:off] + v.to_bytes(size, 'little') + base[off + size:], 'setting %s=%d', name, v)
        eq(getattr(m, name), v, 'reading %s', name)
        tally.step()
        tally.state((name, bytes(m.bytes_le)))
    for bad in (-1, top, 'x', None):
        m = MobID(bytes_le=base)
        try:
            setattr(m, name, bad)
        except (struct.error, ValueError, TypeError, OverflowError):
            eq(bytes(m.bytes_le), base, 'rejected %s', name)
        else:
            raise Violation('%s accepted %r' % (name, bad))
        tally.step()


def run_ints(case, tally):
    """integers at the ends of the domain, and outside it"""
    cls, bits = (AUID, 128) if case == 'auid' else (MobID, 256)
    for p in range(bits):
        for v in ((1 << p) - 1, 1 << p, (1 << p) + 1, (1 << bits) - (1 << p)):
            if not 0 <= v < 1 << bits:
                continue
            x = cls(int=v)
            eq(x.int, v, '%s(int=%d)', case, v)
            tally.step()
            tally.state((case, v))
    for v in (-1, 1 << bits, (1 << bits) + 5, -(1 << bits)):
        tally.step()
        try:
            x = cls(int=v)
        except (ValueError, OverflowError):
            continue
        raise Violation('%s accepted the integer %d as %s' % (case, v, x))


# ------------------------------------------------------------------ comparison

def related(kind):
    n = 16 if kind == 'auid' else 32
    base = bytes(range(0x30, 0x30 + n))
    out = [bytes(n), b'\xff' * n, base]
    for p in range(n):
        for v in (0, 0xff):
            x = bytearray(base)
            x[p] = v
            out.append(bytes(x))
    return out


def run_pairs(case, tally):
    kind, i = case
    cls = AUID if kind == 'auid' else MobID
    bs = related(kind)
    ids = [cls(bytes_le=b) for b in bs]
    key = (lambda b: uuid.UUID(bytes_le=b).int) if kind == 'auid' else (lambda b: int.from_bytes(b, 'big'))
    a, ba = ids[i], bs[i]
    for b, bb in zip(ids, bs):
        want = (ba == bb, ba != bb, key(ba) < key(bb), key(ba) <= key(bb), key(ba) > key(bb), key(ba) >= key(bb))
        try:
            got = (a == b, a != b, a < b, a <= b, a > b, a >= b)
        except TypeError as e:
            raise Violation('ordering of ids is not total: %s' % e, sig='not-total')
        eq(got, want, 'comparison of %s and %s', a, b)
        if ba == bb and hash(a) != hash(b):
            raise Violation('equal ids hash differently')
        if kind == 'auid':
            u = uuid.UUID(bytes_le=bb)
            eq((a == u, u == a, a != u, u != a), (ba == bb, ba == bb, ba != bb, ba != bb), 'comparison with the UUID %s of %s', u, a)
        tally.step(6)
        tally.state((kind, ba, bb))
    eq(sorted(range(len(ids)), key=lambda k: ids[k]), sorted(range(len(ids)), key=lambda k: key(bs[k])), 'sorting')
    for other in (None, 5, 'x', bytes(ba), ba.hex(), object(), MobID(bytes_le=ba + ba) if kind == 'auid' else AUID(bytes_le=ba[:16])):
        if a == other or not a != other:
            raise Violation('%s equals %r' % (a, other))


# ------------------------------------------------------------------ generation

def run_new(case, tally):
    """the random source is the environment: every pair of its outcomes"""
    real = uuid.uuid4
    vals = [uuid.UUID(int=(0xf47ac10b58cc4372a5670e02b2c3d479 ^ (1 << p))) for p in range(case, 128, 8)] + [real() for i in range(2)]
    seen = {}
    try:
        for v in vals:
            uuid.uuid4 = lambda: v
            for make in (MobID.new, mobid_mod.UniqueMobID):
                m = make()
                eq(bytes(m.bytes_le), bytes.fromhex('060a2b340101010501010f2013000000') + v.bytes_le, 'new mob id for random %s', v)
                tally.step()
            seen[bytes(m.bytes_le)] = v
    finally:
        uuid.uuid4 = real
    if len(seen) != len(set(vals)):
        raise Violation('different random values gave the same mob id')
    many = {bytes(MobID.new().bytes_le) for i in range(2000)}
    if len(many) != 2000:
        raise Violation('new ids repeat')
    tally.state(sorted(seen))


def spaces(tier):
    T = tier == 'thorough'

    def auids():
        for bg in range(len(BG16)):
            for p in range(16):
                yield [bg, p]
            for pr in itertools.combinations(range(16), 2):
                if T or bg < 2:
                    yield [bg, list(pr)]

    def mobs():
        for bg in range(len(BG32)):
            for p in range(32):
                yield [bg, p]
            for k, pr in enumerate(itertools.combinations(range(32), 2)):
                if T or bg in (1, 4, 5) and k % 2 == 0:
                    yield [bg, list(pr)]
    P = 8
    return [
        Space('auid', auids, run_auid, 'every value of every byte on %d backgrounds; every pair of bytes over 6x6 values' % len(BG16)),
        Space('auid-text', [[t, p, P] for t in range(len(TEXTS)) for p in range(P)], run_text, 'every single-character edit of %d textual forms over %d characters, and pairs' % (len(TEXTS), len(ALPHA))),
        Space('mobid', mobs, run_mob, 'every value of every byte on %d backgrounds; pairs of bytes over 5x5 values' % len(BG32)),
        Space('mobid-ambiguous', [['one']], run_ambiguous, 'the id whose text form is also that of a half-swapped id'),
        Space('mobid-text', [[t, p, P] for t in range(len(MTEXTS)) for p in range(P)], run_mtext, 'every single-character edit of both text forms'),
        Space('fields', [[n, bg] for n in sorted(FIELDS) for bg in range(len(BG32))], run_field, 'every value (or every bit boundary) of every field'),
        Space('dicts', [[i, j] for i in range(len(BG32)) for j in range(len(BG32))], run_dict, 'every subset of the fields a dict can name, set on every background from every background'),
        Space('ints', ['auid', 'mobid'], run_ints, 'every power of two and its neighbours, and out-of-range integers'),
        Space('pairs', [[k, i] for k in ('auid', 'mobid') for i in range(len(related(k)))], run_pairs, 'all ordered pairs of ids differing in one byte'),
        Space('new', list(range(8)), run_new, 'every single-bit variation of the random source'),
    ]
