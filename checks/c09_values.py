"""C09: every typed value decodes to what was encoded, within its type's domain.

Every inline type of the standard model (and derived types over it: arrays,
sets, renames and records of every element type): every boundary value of its
domain assigned, read back, its stored bytes compared with an independent codec,
live and after reopening; every value just outside the domain must be rejected
and leave the property as it was.  Every type of the standard model keeps its
published definition."""
import os
import aaf2
from aaf2.auid import AUID
from lib import aafrig, aafref, typeref
from lib.mc import Space, Violation, chunks, tb_tail
from lib.typeref import TYPES, NAMES

LEVEL = 'exploration'
ASSUMPTIONS = ['booleans take the truth value of what is assigned', 'times are whole seconds without a zone',
               'a fixed array given fewer elements is filled up with zero elements']


def prop_id(i):
    return AUID(int=0x0e0a0102030405060708090a0b000000 + i)


def holder(f, types):
    c = f.metadict.lookup_classdef('Mob')
    for i, t in enumerate(types):
        c.register_propertydef('Val%03d' % i, prop_id(i), None, f.metadict.lookup_typedef(AUID(t)).auid, True)


def stored_ok(t, data, want):
    data = bytes(data)
    if isinstance(want, set):
        while TYPES[t]['kind'] == 'Rename':
            t = TYPES[t]['of']
        w = typeref.width(TYPES[t]['of'])
        got = [data[i:i + w] for i in range(0, len(data), w)]
        return len(got) == len(want) and set(got) == want
    return data == want


def raw_props(path):
    """{pid: bytes} of the one mob, by the independent reader"""
    a = aafref.load(aafrig.readfile(path))
    if a.errors:
        raise Violation('the saved file is malformed: %s' % a.errors[:3])
    return a


def rounds(case, tally, types, setup):
    """one round per value index: every type takes its n-th value, all in one save"""
    table = [typeref.domain(t, case[1]) for t in types]
    lo, hi = case[2]
    p = aafrig.writefile(aafrig.newpath('c09'), aafrig.base_image())
    try:
        with aaf2.open(p, 'r+') as f:
            setup(f)
            ids = []
            for n in range(lo, hi):
                mob = f.create.CompositionMob('m%d' % n)
                f.content.mobs.append(mob)
                ids.append(mob.mob_id)
                for i, t in enumerate(types):
                    if n >= len(table[i]):
                        continue
                    give, want, raw = table[i][n]
                    name = 'Val%03d' % i
                    where = '%s = %.120r' % (TYPES[t]['name'], give)
                    try:
                        mob[name].value = give
                    except Exception as e:
                        raise Violation('%s is refused: %r  [%s]' % (where, e, tb_tail(e)), sig='refused:%s' % TYPES[t]['name'])
                    got = mob[name].value
                    if not typeref.same_value(got, want):
                        raise Violation('%s reads back %.200r, expected %.200r' % (where, got, want), sig='live:%s' % TYPES[t]['name'])
                    if not stored_ok(t, mob[name].data, raw):
                        raise Violation('%s is stored as %s, expected %s' % (where, bytes(mob[name].data[:80]).hex(), raw if isinstance(raw, set) else raw[:80].hex()), sig='bytes:%s' % TYPES[t]['name'])
                    tally.step()
        with aaf2.open(p, 'r') as f:
            for n, mid in zip(range(lo, hi), ids):
                mob = f.content.mobs[mid]
                for i, t in enumerate(types):
                    if n >= len(table[i]):
                        continue
                    give, want, raw = table[i][n]
                    name = 'Val%03d' % i
                    got = mob[name].value
                    if not typeref.same_value(got, want) or not stored_ok(t, mob[name].data, raw):
                        raise Violation('%s = %.120r reads back %.200r after reopening' % (TYPES[t]['name'], give, got), sig='reopen:%s' % TYPES[t]['name'])
                    tally.step()
        tally.state((types, lo, hi))
    finally:
        os.unlink(p)


def std_types():
    return sorted(t for t in TYPES if typeref.is_data(t))


def run_domain(case, tally):
    types = std_types()
    rounds(case, tally, types, lambda f: holder(f, types))


def run_outside(case, tally):
    attached, deep = case
    types = std_types()
    f = aaf2.open()
    try:
        holder(f, types)
        for i, t in enumerate(types):
            dom = typeref.domain(t)
            name = 'Val%03d' % i
            mob = f.create.CompositionMob('m')
            if attached:
                f.content.mobs.append(mob)
            for before in [None] + dom[1:3 if deep else 2]:
                if before is not None:
                    mob[name].value = before[0]
                for v in typeref.outside(t):
                    where = '%s (holding %.60r) = %.120r' % (TYPES[t]['name'], before and before[0], v)
                    p = mob.get(name, None) if before is None else mob[name]
                    old = bytes(mob[name].data) if before is not None else None
                    try:
                        mob[name].value = v
                    except Exception as e:
                        if not isinstance(e, Exception):
                            raise
                    else:
                        raise Violation('%s is accepted and reads back %.120r' % (where, mob[name].value if name in mob else None), sig='accepted:%s' % TYPES[t]['name'])
                    if before is None:
                        if name in mob or any(x.name == name for x in mob.properties()):
                            raise Violation('%s was rejected but the property now exists' % where, sig='left:%s' % TYPES[t]['name'])
                    elif bytes(mob[name].data) != old or not typeref.same_value(mob[name].value, before[1]):
                        raise Violation('%s was rejected but the property now reads %.120r' % (where, mob[name].value), sig='changed:%s' % TYPES[t]['name'])
                    tally.step()
            if TYPES[t]['kind'] == 'FixedArray':
                full = dom[0]
                for n in range(len(full[0])):
                    try:
                        mob[name].value = full[0][:n]
                    except Exception:
                        continue
                    w = typeref.width(TYPES[t]['of'])
                    want = full[2][:n * w] + bytes(len(full[2]) - n * w)
                    if bytes(mob[name].data) != want:
                        raise Violation('%s given %d elements is stored as %s, expected %s' % (TYPES[t]['name'], n, bytes(mob[name].data).hex(), want.hex()), sig='short:%s' % TYPES[t]['name'])
                    tally.step()
            tally.state((t, attached))
            if not attached:
                continue
            f.content.mobs.pop(mob.mob_id)
    finally:
        f.close()


# ------------------------------------------------------------------ derived types

def derived():
    """types over the standard ones: [(kind, element ids)]"""
    out = []
    for t in std_types():
        k = TYPES[t]['kind']
        if k in ('Int', 'Enum', 'Record', 'FixedArray', 'Rename', 'ExtEnum'):
            out += [('VarArray', t, None), ('FixedArray', t, 1), ('FixedArray', t, 3)]
            if k == 'Int' or t in (typeref.TAUID, typeref.RATIONAL):
                out += [('FixedArray', t, 65), ('FixedArray', t, 257), ('FixedArray', t, 1000)]
            if k in ('Int', 'Enum', 'Rename') or t in (typeref.TAUID, typeref.MOBID, typeref.RATIONAL) or k == 'ExtEnum':
                out.append(('Set', t, None))
        out.append(('Rename', t, None))
        if k == 'Int':
            lo, hi = typeref.bounds(TYPES[t])
            # element values are published as signed 64 bit numbers
            vals = sorted(set(v for v in (lo, lo + 1, -2, -1, 0, 1, 2, 127, 128, 255, hi - 1, hi) if lo <= v <= min(hi, (1 << 63) - 1)))
            out += [('Enum', t, vals), ('Enum', t, vals[::-1][:3]), ('Enum', t, vals[:1])]
        if k in ('Int', 'Enum', 'FixedArray', 'Rename', 'ExtEnum'):
            out.append(('Record', t, None))
    out += [('ExtEnum', None, typeref.IDS), ('ExtEnum', None, typeref.IDS[:1])]
    return out


def register(f, types):
    """adds derived types to the model of the file and of the reference codec"""
    ids = []
    for i, (kind, el, n) in enumerate(types):
        a = AUID(int=0x0e0b0102030405060708090a0b000000 + i)
        name = 'Derived%03d' % i
        d = {'name': name, 'kind': kind, 'of': el}
        cat = {'VarArray': 'var_arrays', 'FixedArray': 'fixed_arrays', 'Set': 'sets', 'Rename': 'renames', 'Record': 'records', 'Enum': 'enums', 'ExtEnum': 'extenums'}[kind]
        args = (str(a), el)
        if kind == 'FixedArray':
            args += (n,)
            d['size'] = n
        elif kind == 'Record':
            d['fields'] = [['First', el], ['Second', NAMES['aafUInt16']], ['Third', el]]
            args = (str(a), d['fields'])
        elif kind in ('Enum', 'ExtEnum'):
            d['elements'] = [[v, 'Element %d é' % j] for j, v in enumerate(n)]
            args = (str(a),) + ((el,) if el else ()) + (dict(map(tuple, d['elements'])),)
        f.metadict.register_typedef_model({cat: {name: args}})
        TYPES[str(a)] = d
        ids.append(str(a))
    return ids


def run_derived(case, tally):
    part, of, rng = case
    types = derived()[part::of]
    ids = []

    def setup(f):
        ids.extend(register(f, types))
        holder(f, ids)
    # the ids depend only on the position, so the tables can be built up front
    g = aaf2.open()
    try:
        names = register(g, types)
    finally:
        g.close()
    rounds([None, False, rng], tally, names, setup)


# ------------------------------------------------------------------ published definitions

def describe(t):
    k = type(t).__name__[7:]
    d = {'name': t.type_name, 'kind': k}
    el = getattr(t, 'element_typedef', None) or getattr(t, 'renamed_typedef', None)
    if el is not None:
        d['of'] = str(el.auid)
    if k in ('Int', 'FixedArray', 'GenericCharacter'):
        d['size'] = t.size
    if k == 'Int':
        d['signed'] = t.signed
    if k in ('Enum', 'ExtEnum'):
        d['elements'] = sorted([str(a) if k == 'ExtEnum' else a, b] for a, b in t.elements.items())
    if k == 'Record':
        d['fields'] = [[n, str(m.auid)] for n, m in zip(t.member_names, t.member_types.value)]
    if k in ('StrongRef', 'WeakRef'):
        d['class'] = str(t.ref_classdef.auid)
    if k == 'WeakRef':
        d['path'] = [str(a) for a in t.target_set_path]
    return d


def run_model(case, tally):
    """new file / reopened file: the types mean what the standard says"""
    kind = case
    if kind == 'new':
        f = aaf2.open()
    else:
        f = aaf2.open(aafrig.writefile(aafrig.newpath('c09m'), aafrig.base_image()), 'r')
    try:
        for tid, want in TYPES.items():
            t = f.metadict.lookup_typedef(AUID(tid))
            if t is None:
                raise Violation('type %s is missing' % want['name'], sig='missing:%s' % want['name'])
            got = describe(t)
            if want['kind'] == 'ExtEnum' or want['kind'] == 'Enum':
                if [e for e in want['elements'] if e not in got['elements']]:
                    raise Violation('type %s lacks %s' % (want['name'], [e for e in want['elements'] if e not in got['elements']][:3]), sig='model:%s' % want['name'])
                got['elements'] = want['elements']
            if got != want:
                raise Violation('type %s is defined as %s, published as %s' % (want['name'], got, want), sig='model:%s' % want['name'])
            tally.step()
            tally.state(tid)
    finally:
        f.close()


# ------------------------------------------------------------------ the longest values

LIMIT = 65535     # a size is stored in two bytes


def sized(t, size):
    """value of type t taking the largest size not above size, with its size -> (value, size) or None"""
    d = TYPES[t]
    k = d['kind']
    if k == 'Rename':
        return sized(d['of'], size)
    if k == 'String':
        w = 1 if TYPES[d['of']]['kind'] == 'GenericCharacter' else 2
        n = size // w - 1
        return ('abcdefg' * (n // 7 + 1))[:n], (n + 1) * w
    if k in ('Indirect', 'Opaque'):
        n = (size - 17) // 2 - 1
        return ('abcdefg' * (n // 7 + 1))[:n], (n + 1) * 2 + 17
    if k == 'VarArray' and d['of'] == typeref.CHAR:
        n = size // 2 - 1 - 6
        return ['xy', 'abcdefghij' * (n // 10) + 'q' * (n % 10), 'z', ''], (n + 1) * 2 + 12
    if k == 'VarArray':
        w = typeref.width(d['of'])
        dom = typeref.domain(d['of'])
        n = size // w
        return [dom[i % len(dom)][1] for i in range(n)], n * w
    if k == 'Set' and d['of'] == typeref.TAUID:
        return set(AUID(int=i) for i in range(size // 16)), size // 16 * 16


def run_long(case, tally):
    """case: [attached, held before, [type ids]]"""
    attached, held, types = case
    p = aafrig.newpath('c09l')
    try:
        want = {}
        with aaf2.open(p, 'w') as f:
            holder(f, types)
            for i, t in enumerate(types):
                name = 'Val%03d' % i
                full, size = sized(t, LIMIT)
                step = 2 if TYPES[t]['kind'] in ('String', 'Indirect', 'Opaque') or TYPES[t].get('of') == typeref.CHAR else size // len(full) if len(full) else 1
                for k, over in enumerate((1, 65536 + 50)):
                    # the value one element past the limit, and longer ones
                    v, n = sized(t, size + step - 1 + over)
                    if n <= LIMIT:
                        raise AssertionError((t, n))
                    mob = f.create.CompositionMob('m')
                    if attached:
                        f.content.mobs.append(mob)
                    if held:
                        mob[name].value = typeref.domain(t)[1][0]
                    before = bytes(mob[name].data) if held else None
                    ways = [('value', lambda: setattr(mob[name], 'value', v))]
                    if k == 0:
                        ways.append(('set_data', lambda: mob[name].set_data(b'\x01' * n)))
                    for way, fn in ways:
                        try:
                            fn()
                        except Exception:
                            pass
                        else:
                            raise Violation('%s of %d bytes is accepted by %s' % (TYPES[t]['name'], n, way), 'long-accepted')
                        if (bytes(mob[name].data) if name in mob else None) != before:
                            raise Violation('%s of %d bytes was refused by %s but the property changed' % (TYPES[t]['name'], n, way), 'long-changed')
                        tally.step()
                try:
                    mob[name].value = full
                except Exception as e:
                    raise Violation('%s of %d bytes is refused: %r' % (TYPES[t]['name'], size, e), 'long-refused')
                if len(mob[name].data) != size:
                    raise Violation('%s of %d bytes takes %d' % (TYPES[t]['name'], size, len(mob[name].data)), 'long-size')
                if not attached:
                    f.content.mobs.append(mob)
                want[mob.mob_id] = name, full, t
                tally.step()
        a = aafrig.load(p)
        if a.errors:
            raise Violation('stored file: %s' % a.errors[:3], 'stored')
        with aaf2.open(p, 'r') as f:
            for mid, (name, full, t) in want.items():
                if not typeref.same_value(f.content.mobs[mid][name].value, full):
                    raise Violation('%s of the greatest size reads back different' % TYPES[t]['name'], 'long-reopened')
                tally.step()
        tally.state((attached, held, tuple(types)))
    finally:
        if os.path.exists(p):
            os.unlink(p)


def long_cases():
    ts = [t for t in std_types() if sized(t, 1000)]
    for a in (True, False):
        for h in (True, False):
            for i in range(0, len(ts), 4):
                yield [a, h, ts[i:i + 4]]


def spaces(tier):
    deep = tier == 'thorough'
    most = max(len(typeref.domain(t, deep)) for t in std_types())
    step = 12
    dom = [['std', deep, [a, min(a + step, most)]] for a in range(0, most, step)]
    return [
        Space('model', ['new', 'reopened'], run_model, 'every published type definition in a new and a reopened file'),
        Space('domain', dom, run_domain, 'every inline type x every boundary value, live, stored bytes and reopened'),
        Space('longest', long_cases, run_long, 'every type of variable size: the longest value that fits and values just longer, held or not, attached or not', cpu_limit=240),
        Space('outside', [[a, deep] for a in (False, True)], run_outside, 'every inline type x every value just outside x what the property held, attached or not'),
        Space('derived', [[i, 4, [a, a + 12]] for i in range(4) for a in range(0, 60 if deep else 24, 12)], run_derived, 'arrays, sets, renames and records over every inline type, enumerations over every integer and of ids, x boundary values'),
    ]
