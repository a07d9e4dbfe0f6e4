"""C19: rational values keep numerator and denominator and act as exact fractions.

Every pair of numerators and denominators from a boundary set through every
construction, every pair of values through every comparison and arithmetic
operator against fractions.Fraction, every float that is a small fraction or
sits at an exponent boundary against an exact nearest-fraction search, every
short text over the alphabet of the grammar, and every value stored in a file
and read back after reopening."""
import itertools, math, os, struct
from decimal import Decimal
from fractions import Fraction
import numbers
import aaf2
from aaf2.rational import AAFRational
from lib import aafrig
from lib.mc import Space, Violation, words, chunks

LEVEL = 'exploration'
ASSUMPTIONS = ['text follows the grammar of the standard Fraction constructor', 'a decimal or float keeps its value, integers, text and fractions their numerator and denominator',
               'a float is nearest storable when no fraction whose denominator is at most 2147483647/max(1,|value|) is nearer']
M = 0x7fffffff

NUMS = [0, 1, -1, 2, -2, 3, 6, -6, 10, 24, 30000, 1001, 60000, M, -M, -M - 1]
DENS = [1, 2, 3, 4, 6, 10, 1001, 1000, M, -1, -2, -1001, -M - 1]
SMALL = [(n, d) for n in (0, 1, -1, 2, -2, 3, 6, -6, 24, 30000) for d in (1, 2, 4, 6, 1001, -1, -2, -1001)]


def parts(r):
    return (r.numerator, r.denominator)


def same(a, b, what, *args):
    if type(a) != type(b) and not (isinstance(a, Fraction) and isinstance(b, Fraction)) or a != b:
        raise Violation('%s: got %r, expected %r' % (what % args if args else what, a, b))


def run_build(case, tally):
    n = case
    for d in DENS:
        forms = {'(n, d)': AAFRational(n, d), '(Fraction, Fraction)': AAFRational(Fraction(n), Fraction(d)),
                 '(AAFRational)': AAFRational(AAFRational(n, d)), '(AAFRational, 1)': AAFRational(AAFRational(n, d), 1)}
        if d > 0:
            forms['text'] = AAFRational('%d/%d' % (n, d))
            forms['text with blanks'] = AAFRational(' %d/%d ' % (n, d))
            if n > 0:
                forms['text with sign'] = AAFRational('+%d/%d' % (n, d))
        for k, r in forms.items():
            if parts(r) != (n, d):
                raise Violation('%s of %d/%d keeps %s/%s' % ((k, n, d) + parts(r)))
            exact = Fraction(n, d)
            if not (r == exact and exact == r) or r != exact:
                raise Violation('%s of %d/%d does not equal %s' % (k, n, d, exact), sig='not-equal')
            if hash(r) != hash(exact):
                raise Violation('%d/%d equals %s but hashes differently' % (n, d, exact), sig='hash')
            tally.step()
        for a, b in ((3, 4), (-2, 3), (n or 1, 7)):
            # a rational over a rational
            for A in (Fraction, AAFRational):
                r = AAFRational(A(n, d), A(a, b))
                if not r == Fraction(n, d) / Fraction(a, b) or hash(r) != hash(Fraction(n, d) / Fraction(a, b)):
                    raise Violation('%d/%d over %d/%d is %s/%s' % ((n, d, a, b) + parts(r)), sig='quotient')
                tally.step()
        q = Fraction(n, d)
        r = AAFRational(q)
        if parts(r) != (q.numerator, q.denominator):
            raise Violation('fraction %s kept as %s/%s' % ((q,) + parts(r)))
        tally.state((n, d))
    for v in (n, True if n == 1 else n):
        if parts(AAFRational(v)) != (n, 1):
            raise Violation('integer %d kept as %s/%s' % ((n,) + parts(AAFRational(v))))
    if parts(AAFRational(str(n))) != (n, 1):
        raise Violation('text %d' % n)
    for bad in ((n, 0), ('%d/0' % n,)):
        if n == 0:
            same(parts(AAFRational(*bad)), (0, 1), '0/0')
            continue
        try:
            AAFRational(*bad)
        except ZeroDivisionError:
            continue
        raise Violation('%r accepted' % (bad,))
    for bad in ((None,), ([n],), (n, 1.5), (1.5, n or 1), ('x', 2), (n, '2'), (object(),)):
        try:
            r = AAFRational(*bad)
        except (TypeError, ValueError):
            tally.step()
            continue
        raise Violation('%r accepted as %r' % (bad, r))
    if parts(AAFRational()) != (0, 1):
        raise Violation('default is %r' % AAFRational())


UNARY = {'float': float, 'int': int, 'neg': lambda a: -a, 'abs': abs, 'pos': lambda a: +a, 'bool': bool, 'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc,
         'round': round, 'round1': lambda a: round(a, 1), 'hash': hash, 'sq': lambda a: a ** 2, 'limit': lambda a: a.limit_denominator(3), 'complex': complex}
BINARY = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b, '//': lambda a, b: a // b, '%': lambda a, b: a % b,
          'divmod': divmod, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def call(f, *a):
    try:
        r = f(*a)
    except (ZeroDivisionError, OverflowError) as e:
        return type(e).__name__
    if isinstance(r, tuple):
        return tuple(Fraction(x.numerator, x.denominator) for x in r)
    if isinstance(r, Fraction):
        q = Fraction(r.numerator, r.denominator)
        if r != q or q != r or hash(r) != hash(q):
            raise Violation('result %d/%d is not usable as the fraction %s' % (r.numerator, r.denominator, q), sig='result')
        return q
    return r


def run_arith(case, tally):
    n, d = case
    a, fa = AAFRational(n, d), Fraction(n, d)
    for k, f in UNARY.items():
        same(call(f, a), call(f, fa), '%s of %d/%d', k, n, d)
        tally.step()
    for n2, d2 in SMALL:
        b, fb = AAFRational(n2, d2), Fraction(n2, d2)
        for k, f in BINARY.items():
            want = call(f, fa, fb)
            for x, y in ((a, b), (a, fb), (fa, b)):
                same(call(f, x, y), want, '%d/%d %s %d/%d', n, d, k, n2, d2)
            tally.step(3)
        tally.state((n, d, n2, d2))
    for v in (0, 1, -3, 24, 0.5, -0.25, 29.97):
        for k, f in BINARY.items():
            if k == 'divmod':
                continue
            same(call(f, a, v), call(f, fa, v), '%d/%d %s %r', n, d, k, v)
            same(call(f, v, a), call(f, v, fa), '%r %s %d/%d', v, k, n, d)
            tally.step(2)
    if parts(a) != (n, d):
        raise Violation('operators changed the value')


def nearest(v):
    """error of the best fraction p/q with q <= M / max(1, |v|), by continued fractions (exact)"""
    x = abs(v)
    qmax = M if x <= 1 else max(1, M * x.denominator // x.numerator)
    if x.denominator <= qmax:
        return Fraction(0)
    p0, q0, p1, q1 = 0, 1, 1, 0
    n, d = x.numerator, x.denominator
    while True:
        a = n // d
        q2 = q0 + a * q1
        if q2 > qmax:
            break
        p0, q0, p1, q1 = p1, q1, p0 + a * p1, q2
        n, d = d, n - a * d
    k = (qmax - q0) // q1
    cands = [Fraction(p1, q1), Fraction(p0 + k * p1, q0 + k * q1)]
    return min(abs(x - c) for c in cands)


def check_float(v, tally):
    r = AAFRational(v)
    exact = Fraction(v)
    n, d = parts(r)
    tally.step()
    tally.state((n, d))
    if type(n) is not int or type(d) is not int:
        raise Violation('float %r gave %r/%r' % (v, n, d))
    if d <= 0:
        raise Violation('float %r has denominator %d (numerator %d)' % (v, d, n), sig='float-denominator')
    if abs(exact) <= M and (abs(n) > M or d > M):
        raise Violation('float %r became %d/%d, which cannot be stored' % (v, n, d), sig='float-storable')
    err = abs(Fraction(n, d) - exact)
    if abs(exact) > M + 1:
        if -M - 1 <= n <= M and d <= M and err >= 1:
            raise Violation('float %r became %d/%d' % (v, n, d), sig='float-large')
        tally.outcome('large')
        return
    if err > nearest(exact):
        raise Violation('float %r became %d/%d, which is not the nearest storable fraction' % (v, n, d), sig='float-nearest')
    tally.outcome('exact' if err == 0 else 'nearest')


def floats(part):
    kind, k = part
    if kind == 'frac':
        for n in range(0, 130):
            yield n / k
            yield -n / k
    elif kind == 'exp':
        for m in (1.0, 1.5, 1.0 + 2 ** -52, 2 - 2 ** -52, 1.1, 4 / 3.0):
            for s in (1, -1):
                yield math.ldexp(m, k) * s
    elif kind == 'ntsc':
        for n in (24000, 30000, 60000, 120000, 48000, 96000, 44100):
            yield n / 1001.0 * k
            yield -n / 1001.0 * k
            yield n / 1001.0 / k
            yield n / k
    elif kind == 'edge':
        for b in (M, M + 1, M / 2.0, M / 3.0, M - 0.5, M + 0.25, M + 0.5, M / 7.0):
            for e in range(-40, 41):
                yield b + k * e / 8.0
                yield -(b + k * e / 8.0)


def run_float(case, tally):
    for v in floats(case):
        check_float(v, tally)


def run_badfloat(case, tally):
    for v in (float('inf'), float('-inf'), float('nan')):
        try:
            r = AAFRational(v)
        except (ValueError, OverflowError):
            tally.step()
            continue
        raise Violation('%r accepted as %r' % (v, r))
    for t in ('NaN', 'Infinity', '-Infinity'):
        try:
            r = AAFRational(Decimal(t))
        except (ValueError, OverflowError, TypeError):
            tally.step()
            continue
        raise Violation('Decimal %r accepted as %r' % (t, r))


def run_text(case, tally):
    """every text of up to n symbols behaves as with Fraction, unreduced"""
    first, n = case
    for w in words('0149/.-+e _', n, 0):
        t = first + ''.join(w)
        try:
            want = Fraction(t)
        except (ValueError, ZeroDivisionError) as e:
            want = None
        try:
            got = AAFRational(t)
        except ValueError:
            got = None
        except ZeroDivisionError:
            got = None
        tally.step()
        if want is None and got is not None and '/' in t and parts(got) == (0, 1):
            continue                # 0/0, documented
        if (got is None) != (want is None):
            raise Violation('text %r: %r, expected %r' % (t, got, want))
        if got is None:
            continue
        tally.state(parts(got))
        if Fraction(*parts(got)) != want:
            raise Violation('text %r became %d/%d, expected %s' % ((t,) + parts(got) + (want,)))
        if '/' in t:
            a, b = t.replace('_', '').split('/')
            if parts(got) != (int(a), int(b)):
                raise Violation('text %r kept as %d/%d' % ((t,) + parts(got)))


def check_text(t, tally):
    try:
        want = Fraction(t)
    except (ValueError, ZeroDivisionError):
        want = None
    try:
        got = AAFRational(t)
    except (ValueError, ZeroDivisionError):
        got = None
    tally.step()
    if want is None and got is not None and '/' in t and parts(got) == (0, 1):
        return
    if (got is None) != (want is None):
        raise Violation('text %r: %r, expected %r' % (t, got, want))
    if got is None:
        return
    tally.state(parts(got))
    if Fraction(*parts(got)) != want:
        raise Violation('text %r became %d/%d, expected %s' % ((t,) + parts(got) + (want,)))


def run_grammar(case, tally):
    """every combination of the parts a text can have"""
    sign, num = case
    for dec in ('', '.', '.0', '.5', '.25', '.05', '.1_2', '.125'):
        for exp in ('', 'e0', 'e2', 'E+1', 'e-1', 'e-2', 'E-3', 'e+0', 'e-0', 'e10', 'e-10', 'e1_0'):
            for den in ('', '/4', '/07', '/1_0', '/-2', '/0', '/1.5'):
                for t in (sign + num + dec + exp + den, ' %s%s%s%s%s\n' % (sign, num, dec, exp, den)):
                    check_text(t, tally)


def run_decimal(case, tally):
    for e in range(-12, 13):
        for m in range(-30, 31):
            d = Decimal(m * case).scaleb(e)
            r = AAFRational(d)
            if Fraction(*parts(r)) != Fraction(d) or r.denominator <= 0:
                raise Violation('decimal %s became %d/%d' % ((d,) + parts(r)))
            tally.step()
            tally.state(parts(r))


_f = []


def shared():
    if not _f:
        _f.append(aaf2.open())
    return _f[0]


def run_encode(case, tally):
    """the stored form: two little-endian 32-bit integers"""
    t = shared().metadict.lookup_typedef('Rational')
    n = case
    for d in DENS:
        r = AAFRational(n, d)
        b = t.encode(r)
        if bytes(b) != struct.pack('<ii', n, d):
            raise Violation('%d/%d stored as %s' % (n, d, bytes(b).hex()))
        x = t.decode(b)
        if type(x) is not AAFRational or parts(x) != (n, d):
            raise Violation('%d/%d read as %r' % (n, d, x))
        if d > 0 and bytes(t.encode('%d/%d' % (n, d))) != bytes(b):
            raise Violation('text %d/%d stored differently' % (n, d))
        tally.step()
        tally.state(bytes(b))
    for bad in (AAFRational(n, M + 1), AAFRational(M + 1, 1), AAFRational(-M - 2, 7), 1e10, -1e10, Fraction(1, 1 << 40), Decimal('1e12'), 'x', None, [1], '%d/%d' % (M + 1, 1), 1 << 31):
        try:
            b = t.encode(bad)
        except (struct.error, TypeError, ValueError, OverflowError, aaf2.exceptions.AAFPropertyError):
            tally.step()
            continue
        raise Violation('unstorable %r encoded as %s' % (bad, bytes(b).hex()))


VALUES = [(n, d) for n in NUMS for d in DENS]


def run_store(case, tally):
    """every pair through a saved file, in four property kinds"""
    lo, hi = case
    vals = VALUES[lo:hi]
    p = aafrig.newpath('c19')
    with aaf2.open(p, 'w') as f:
        m = f.create.CompositionMob('m')
        f.content.mobs.append(m)
        for i, (n, d) in enumerate(vals):
            s = m.create_timeline_slot(25)
            s.edit_rate = AAFRational(n, d)
            if parts(s.edit_rate) != (n, d):
                raise Violation('edit rate %d/%d set as %r' % (n, d, s.edit_rate))
            s.segment = f.create.Filler('picture', 3)
            m.comments['v%d' % i] = AAFRational(n, d)
    try:
        for mode in ('r', 'r+', 'r'):
            with aaf2.open(p, mode) as f:
                m = list(f.content.mobs)[0]
                slots = {s.slot_id: s for s in m.slots}
                c = dict(m.comments.items())
                for i, (n, d) in enumerate(vals):
                    got = slots[sorted(slots)[i]].edit_rate
                    if parts(got) != (n, d):
                        raise Violation('edit rate %d/%d reopened as %d/%d' % ((n, d) + parts(got)))
                    got = c['v%d' % i]
                    if parts(got) != (n, d):
                        raise Violation('comment %d/%d reopened as %r' % (n, d, got))
                    tally.step(2)
                    tally.state((n, d))
    finally:
        os.unlink(p)


def spaces(tier):
    T = tier == 'thorough'
    fl = [['frac', k] for k in range(1, 130 if T else 70)] + [['exp', k] for k in range(-80, 81)] + [['ntsc', k] for k in (1, 2, 3, 4, 7, 10, 100)] + [['edge', k] for k in (1, 3, 16)]
    return [
        Space('build', NUMS, run_build, '%d numerators x %d denominators through every construction' % (len(NUMS), len(DENS))),
        Space('arithmetic', SMALL, run_arith, 'every pair of %d values through %d operators' % (len(SMALL), len(BINARY))),
        Space('floats', fl, run_float, 'n/k for n < 130 and k < %d, exponent boundaries, NTSC rates, values around the 32-bit limit' % (130 if T else 70)),
        Space('bad', [['non-finite']], run_badfloat, 'non-finite values'),
        Space('text', [[c, 4 if T else 3] for c in '0149/.-+e _'], run_text, 'every text of up to %d symbols' % (5 if T else 4)),
        Space('grammar', [[a, b] for a in ('', '-', '+') for b in ('', '0', '7', '12', '007', '1_0', '30000')], run_grammar, 'every combination of sign, digits, decimals, exponent and denominator'),
        Space('decimals', [1, 7, 10, 125, 999999], run_decimal, 'mantissas x 25 exponents'),
        Space('encode', NUMS, run_encode, 'stored form of every pair; values outside the domain'),
        Space('store', [[i, i + 26] for i in range(0, len(VALUES), 26)], run_store, 'every pair saved and reopened'),
    ]
