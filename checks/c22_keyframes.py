"""C22: animated values keep key frames in time order and interpolate between them.

Every order of adding up to a bounded number of key frames over a small set of
times (with repeats, negative and fractional ones), on attached and unattached
values, split over two sessions at every point; every curve is evaluated on a
grid against an independent evaluation, live and after reopening.  Every
combination of bezier handles and of cubic neighbours over a grid, every kind of
rejected key frame."""
import itertools, os
import aaf2
from aaf2.auid import AUID
from lib import aafrig, curveref
from lib.mc import Space, Violation, words, chunks

LEVEL = 'exploration'
ASSUMPTIONS = ['times and values are representable as 32-bit rationals',
               'bezier and cubic evaluations may be off by what a shift in time of 1e-7 explains, constant and linear ones by 1e-9']

TIMES = [0, 1, 2, 5, -2, 1.0 / 3, 0.1]
KINDS = ['constant', 'linear', 'cubic', 'bezier']
NAMES = {'constant': 'ConstantInterp', 'linear': 'LinearInterp', 'cubic': 'AvidCubicInterpolator', 'bezier': 'AvidBezierInterpolator'}
PARAM = AUID('8d56813d-847e-11d5-935a-50f857c10000')
PARAM_INT = AUID('8d56813d-847e-11d5-935a-50f857c10001')
TANGENTS = ['PP_IN_TANGENT_POS_U', 'PP_IN_TANGENT_VAL_U', 'PP_OUT_TANGENT_POS_U', 'PP_OUT_TANGENT_VAL_U']
EPS = 1e-9


def defs(f):
    f.dictionary.register_def(f.create.ParameterDef(PARAM, 'level', '', 'Rational'))
    f.dictionary.register_def(f.create.ParameterDef(PARAM_INT, 'count', '', 'aafInt32'))
    for i, n in enumerate(TANGENTS):
        f.dictionary.register_def(f.create.ParameterDef(AUID('8d56830e-847e-11d5-935a-50f857c1000%d' % i), n, '', 'Rational'))
    for n in NAMES.values():
        try:
            f.dictionary.lookup_interperlationdef(n)
        except Exception:
            f.dictionary.register_def(f.create.InterpolationDef(IDS[n], n, ''))
    o = f.create.OperationDef(AUID(int=0x0d0102030405060708090a0b0c0ddead), 'curve op', '')
    o.media_kind = 'picture'
    o['NumberInputs'].value = 0
    o['IsTimeWarp'].value = False
    o['OperationCategory'].value = 'OperationCategory_Effect'
    o['Bypass'].value = 0
    f.dictionary.register_def(o)


IDS = {'ConstantInterp': AUID("5b6c85a5-0ede-11d3-80a9-006008143e6f"),
       'LinearInterp': AUID("5b6c85a4-0ede-11d3-80a9-006008143e6f"),
       'AvidBezierInterpolator': AUID("df394eda-6ac6-4566-8dbe-f28b0bdd781a"),
       'AvidCubicInterpolator': AUID("a04a5439-8a0e-4cb7-975f-a5b255866883")}


def model_add(pts, t, v):
    return sorted([p for p in pts if p[0] != t] + [(t, v)])


def points(vv):
    return [(float(p.time), float(p.value)) for p in vv.pointlist]


def grid(pts):
    ts = [p[0] for p in pts]
    out = set(ts) | {ts[0] - 3, ts[-1] + 3, ts[0] - 1e-6, ts[-1] + 1e-6}
    for a, b in zip(ts, ts[1:]):
        for k in (0.001, 0.25, 0.5, 0.8):
            out.add(a + (b - a) * k)
    return sorted(out)


def judge(kind, pts, t, got, bad):
    want = curveref.value(kind, pts, t)
    ts = [p[0] for p in pts]
    if t in ts or t < ts[0] or t > ts[-1] or kind == 'constant':
        if t in ts and kind in ('bezier', 'cubic'):
            ok = abs(got - want) <= 1e-6 * (1 + abs(want))
        else:
            ok = got == want
    elif kind == 'linear':
        ok = abs(got - want) <= EPS * (1 + max(abs(p[1]) for p in pts))
        i = max(k for k in range(len(pts)) if ts[k] <= t)
        lo, hi = sorted((pts[i][1], pts[i + 1][1]))
        if not lo - EPS * (1 + abs(lo)) <= got <= hi + EPS * (1 + abs(hi)):
            bad('at %r the value %r leaves the neighbours %r..%r', t, got, lo, hi)
    else:
        around = [want] + [curveref.value(kind, pts, t + d) for d in (-1e-7, 1e-7, -1e-8, 1e-8)]
        tol = 1e-6 * (1 + max(abs(x) for x in around))
        ok = min(around) - tol <= got <= max(around) + tol
    if not ok:
        bad('%s curve %s at %r gives %r, expected %r', kind, pts, t, got, want)


def verify(vv, kind, pts, tally, bad, evaluate=True):
    got = points(vv)
    if got != pts:
        bad('key frames %s, expected %s', got, pts)
    if evaluate and pts:
        for t in grid(pts):
            judge(kind, pts, t, vv.value_at(t), bad)
            tally.step()
    tally.state((kind, tuple(pts)))


def val(i):
    return [7, -3, 7, 12, 0, 2.5][i]


def attach(mob, group):
    slot = mob.create_picture_slot()
    slot.segment.components.append(group)


def run_orders(case, tally):
    """case: [[word, kind, split, attached_first]]"""
    p = aafrig.writefile(aafrig.newpath('c22'), aafrig.base_image())
    try:
        with aaf2.open(p, 'r+') as f:
            defs(f)
            mob = f.create.CompositionMob('m')
            f.content.mobs.append(mob)
            mid = mob.mob_id
            for n, (w, kind, split, first) in enumerate(case):
                def bad(msg, *a):
                    raise Violation('adding at %s (%s): %s' % ([TIMES[i] for i in w], kind, msg % a), case=[case[n]])
                g = f.create.OperationGroup('curve op', 10)
                param = PARAM if n % 3 else PARAM_INT
                vv = f.create.VaryingValue(param, NAMES[kind])
                if first:
                    attach(mob, g)
                    g.parameters.append(vv)
                pts = []
                for i in range(split):
                    v = val(i) if param == PARAM else int(val(i))
                    cp = vv.add_keyframe(TIMES[w[i]], v)
                    t = float(cp.time)
                    if abs(t - TIMES[w[i]]) > 1e-12 or cp.value != v:
                        bad('the new key frame holds %r %r for %r %r', t, cp.value, TIMES[w[i]], v)
                    pts = model_add(pts, t, float(v))
                    if points(vv) != pts:
                        bad('key frames %s, expected %s', points(vv), pts)
                    if not any(q is cp for q in vv.pointlist):
                        bad('the returned key frame is not in the list')
                    tally.step()
                verify(vv, kind, pts, tally, bad, split == len(w))
                if not first:
                    g.parameters.append(vv)
                    attach(mob, g)
        with aaf2.open(p, 'r+') as f:
            mob = f.content.mobs[mid]
            for n, (w, kind, split, first) in enumerate(case):
                def bad(msg, *a):
                    raise Violation('adding at %s (%s), after reopening past %d: %s' % ([TIMES[i] for i in w], kind, split, msg % a), case=[case[n]])
                slot = list(mob.slots)[n]
                vv = list(next(iter(slot.segment.components)).parameters)[0]
                pts = []
                for i in range(split):
                    pts = model_add(pts, stored(w[i]), float(val(i) if n % 3 else int(val(i))))
                verify(vv, kind, pts, tally, bad, split == len(w))
                for i in range(split, len(w)):
                    v = val(i) if n % 3 else int(val(i))
                    vv.add_keyframe(TIMES[w[i]], v)
                    pts = model_add(pts, stored(w[i]), float(v))
                    tally.step()
                if split < len(w):
                    verify(vv, kind, pts, tally, bad)
        if any(c[2] < len(c[0]) for c in case):
            with aaf2.open(p, 'r') as f:
                mob = f.content.mobs[mid]
                for n, (w, kind, split, first) in enumerate(case):
                    def bad(msg, *a):
                        raise Violation('adding at %s (%s), second session: %s' % ([TIMES[i] for i in w], kind, msg % a), case=[case[n]])
                    slot = list(mob.slots)[n]
                    vv = list(next(iter(slot.segment.components)).parameters)[0]
                    pts = []
                    for i in range(len(w)):
                        pts = model_add(pts, stored(w[i]), float(val(i) if n % 3 else int(val(i))))
                    verify(vv, kind, pts, tally, bad)
    finally:
        os.unlink(p)


def stored(i):
    """time of word letter i as a rational that the file can hold"""
    from fractions import Fraction
    return float(Fraction(TIMES[i]).limit_denominator(0x7fffffff))


# ------------------------------------------------------------------ handles and neighbours

def fresh(f, kind, pts):
    vv = f.create.VaryingValue(PARAM, NAMES[kind])
    for t, v in pts:
        vv.add_keyframe(t, v)
    return vv


def set_handles(f, cp, inn, out):
    vals = list(inn) + list(out)
    if 'ControlPointPointProperties' in cp:
        cp['ControlPointPointProperties'].value = []
    cp['ControlPointPointProperties'].value = [f.create.ConstantValue(n, v) for n, v in zip(TANGENTS, vals)]


def run_bezier(case, tally):
    f = aaf2.open()
    try:
        defs(f)
        for one in case:
            scale, v0, v3, out, inn = one

            def bad(msg, *a):
                raise Violation('bezier %s: %s' % (one, msg % a), case=[one])
            T = 10.0 * scale
            x1, y1 = out[0] * scale, out[1]
            x2, y2 = inn[0] * scale, inn[1]
            vv = fresh(f, 'bezier', [(0, v0), (T, v3)])
            a, b = list(vv.pointlist)
            set_handles(f, a, (1, 1), (x1, y1))
            set_handles(f, b, (x2, y2), (1, 1))
            if a.tangents != [(1.0, 1.0), (x1, y1)] or b.tangents != [(x2, y2), (1.0, 1.0)]:
                bad('handles read back %s %s', a.tangents, b.tangents)
            pts = [(0.0, v0, (1, 1), (x1, y1)), (T, v3, (x2, y2), (1, 1))]
            for k in range(-1, 22):
                t = T * k / 20
                try:
                    got = vv.value_at(t)
                except Exception as e:
                    bad('at %r: %r', t, e)
                if isinstance(got, complex):
                    bad('at %r: %r', t, got)
                judge('bezier', pts, t, got, bad)
                tally.step()
            tally.state(one)
    finally:
        f.close()


def run_cubic(case, tally):
    f = aaf2.open()
    try:
        defs(f)
        for one in case:
            times, vals = one

            def bad(msg, *a):
                raise Violation('cubic %s: %s' % (one, msg % a), case=[one])
            pts = [(float(t), float(v)) for t, v in zip(times, vals)]
            vv = fresh(f, 'cubic', pts)
            for k in range(int(times[0]) * 4 - 1, int(times[-1]) * 4 + 2):
                t = k / 4.0
                try:
                    got = vv.value_at(t)
                except Exception as e:
                    bad('at %r: %r', t, e)
                judge('cubic', pts, t, got, bad)
                tally.step()
            tally.state(one)
    finally:
        f.close()


# ------------------------------------------------------------------ rejected key frames

def run_reject(case, tally):
    f = aaf2.open()
    try:
        defs(f)
        mob = f.create.CompositionMob('m')
        f.content.mobs.append(mob)
        for have, attached in case:
            one = [[have, attached]]
            g = f.create.OperationGroup('curve op', 10)
            vv = f.create.VaryingValue(PARAM, 'LinearInterp')
            if attached:
                attach(mob, g)
                g.parameters.append(vv)
            for t in have:
                vv.add_keyframe(t, t * 2)
            before = (points(vv), aafrig.canon(vv))
            for args in ((1, 'x'), (1, None), (1, [1]), ('x', 1), ([], 1), (1, 1, 'NoSuchHint'), (1, 1, 77), (1, object()), (7, 1, 3.5)):
                try:
                    vv.add_keyframe(*args)
                except Exception:
                    pass
                else:
                    raise Violation('add_keyframe%r accepted' % (args,), case=one)
                if (points(vv), aafrig.canon(vv)) != before:
                    raise Violation('rejected add_keyframe%r changed the key frames %s to %s' % (args, before[0], points(vv)), case=one)
                tally.step()
            cp = vv.add_keyframe(3, 4, 'Proportional')
            if cp['EditHint'].value != 'Proportional':
                raise Violation('edit hint %s' % cp['EditHint'].value, case=one)
            tally.state(have)
    finally:
        f.close()


def spaces(tier):
    deep = tier == 'thorough'

    def orders(maxlen, kinds):
        i = 0
        for w in words(range(len(TIMES)), maxlen, 1):
            for kind in (kinds if len(w) > 1 else KINDS):
                i += 1
                yield [list(w), KINDS[i % 4] if kind is None else kind, len(w), bool(i % 2)]

    def splits(maxlen):
        i = 0
        for w in words([0, 2, 4, 5], maxlen, 1):
            for s in range(1, len(w)):
                i += 1
                yield [list(w), KINDS[i % 4], s, bool(i % 2)]
    XS = [-5, 0, 2.5, 5, 10, 15] if not deep else [-20, -5, 0, 1, 2.5, 10 / 3.0, 5, 20 / 3.0, 10, 11, 15, 40]
    YS = [-3, 4] if not deep else [-30, -3, 0, 4]
    VS = [(0, 1), (5, 5), (10, -2)]
    bez = [[s, v0, v3, [x1, y1], [-x2, y2]] for s in ((1, 0.1) if not deep else (1, 0.1, 100)) for v0, v3 in VS for x1 in XS for y1 in YS for x2 in XS for y2 in YS]
    cub = []
    for times in ([0, 1, 2, 4], [0, 3, 4, 5], [-2, 0, 1], [0, 2]):
        for vals in itertools.product([0, 1, -2, 5] if not deep else [0, 1, 3, -2, 5], repeat=len(times)):
            cub.append([times, list(vals)])
    rej = [[list(h), a] for h in ([], [1], [0, 2], [0, 1, 2]) for a in (False, True)]
    return [
        Space('handles', chunks(bez, 60), run_bezier, 'every pair of bezier handles over a grid of positions (outside the segment included) and heights x end values x time scales, on 23 times'),
        Space('orders', chunks(orders(5 if deep else 4, KINDS if deep else [None]), 60), run_orders, 'all orders of up to %d key frames over 7 times, evaluated on a grid, reopened' % (5 if deep else 4)),
        Space('splits', chunks(splits(4 if deep else 3), 40), run_orders, 'all orders of up to %d key frames over 4 times with a reopen at every point between' % (4 if deep else 3)),
        Space('cubic', chunks(cub, 20), run_cubic, 'all value sequences over a grid for several time sequences with the cubic interpolation'),
        Space('reject', chunks(rej, 1), run_reject, 'every kind of invalid key frame on curves of up to 3 key frames'),
    ]
