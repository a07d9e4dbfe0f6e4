"""Independent writer of compound files (shares no code with aaf2): a tree of names to bytes."""
import struct
from lib import cfbref

FREE, EOC, FATS, DIFS = 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFFFC


class Made(object):
    """data, and where everything is: fields (what, offset, size), needs {path: set of what}"""


def make(ss, tree, extra_fat=0, root_name='Root Entry'):
    """tree: {path: bytes or None for a storage}; parents must be there.  extra_fat: empty FAT sectors added at the end"""
    per = ss // 4
    ents = [dict(path='/', name=root_name, type=5, child=FREE, left=FREE, right=FREE, start=FREE, size=0)]
    index = {'/': 0}
    for p in sorted(tree, key=lambda p: (p.count('/'), p)):
        index[p] = len(ents)
        ents.append(dict(path=p, name=p.rsplit('/', 1)[1], type=1 if tree[p] is None else 2, child=FREE, left=FREE, right=FREE, start=FREE if tree[p] is None else EOC, size=0))
    kids = {}
    for p in tree:
        kids.setdefault(p.rsplit('/', 1)[0] or '/', []).append(p)
    links = {}

    def bst(l, via):
        if not l:
            return FREE
        m = len(l) // 2
        e = ents[index[l[m]]]
        links[l[m]] = via
        e['left'] = bst(l[:m], via + [(index[l[m]], 'left')])
        e['right'] = bst(l[m + 1:], via + [(index[l[m]], 'right')])
        return index[l[m]]
    for p, l in kids.items():
        l.sort(key=lambda p: cfbref.name_key(p.rsplit('/', 1)[1]))
        ents[index[p]]['child'] = bst(l, [(index[p], 'child')])
    # data
    sect, fat = [], []

    def chain(data, kind='data'):
        n = -(-len(data) // ss)
        ids = list(range(len(sect), len(sect) + n))
        for i in range(n):
            sect.append(data[i * ss:(i + 1) * ss].ljust(ss, b'\0'))
            fat.append(ids[i + 1] if i + 1 < n else EOC)
        return ids
    ndir = -(-len(ents) * 128 // ss)
    dirs = chain(bytes(ndir * ss))
    mini, mfat = b'', []
    chains, minis = {}, {}
    for p in sorted(tree):
        d = tree[p]
        if not d:
            continue
        e = ents[index[p]]
        e['size'] = len(d)
        if len(d) < 4096:
            n = -(-len(d) // 64)
            a = len(mfat)
            minis[p] = list(range(a, a + n))
            mfat += [i + 1 for i in range(a, a + n - 1)] + [EOC]
            mini += d.ljust(n * 64, b'\0')
            e['start'] = a
        else:
            chains[p] = chain(d)
            e['start'] = chains[p][0]
    ms = chain(mini)
    if mini:
        ents[0]['start'], ents[0]['size'] = ms[0], len(mini)
    mfs = chain(b''.join(struct.pack('<I', v) for v in mfat + [FREE] * (-len(mfat) % per)))
    # FAT and DIFAT sectors
    nfat = ndif = 0
    while True:
        need = -(-(len(sect) + nfat + ndif) // per) + extra_fat
        dif = max(0, -(-(need - 109) // (per - 1)))
        if (need, dif) == (nfat, ndif):
            break
        nfat, ndif = need, dif
    fats = list(range(len(sect), len(sect) + nfat))
    difs = list(range(len(sect) + nfat, len(sect) + nfat + ndif))
    fat += [FATS] * nfat + [DIFS] * ndif
    nsect = len(fat)
    fat += [FREE] * (nfat * per - len(fat))
    raw = struct.pack('<%dI' % len(fat), *fat)
    sect += [raw[i * ss:(i + 1) * ss] for i in range(nfat)]
    head, rest = fats[:109], fats[109:]
    for i in range(ndif):
        part = rest[i * (per - 1):(i + 1) * (per - 1)]
        sect.append(struct.pack('<%dI' % per, *(part + [FREE] * (per - 1 - len(part)) + [difs[i + 1] if i + 1 < ndif else EOC])))
    out = bytearray(b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\x41\x41\x46\x42' + bytes(12) + struct.pack('<HHHHH6x', 62, 4, 0xFFFE, 9 if ss == 512 else 12, 6))
    out += struct.pack('<9I', ndir, nfat, dirs[0], 0, 4096, mfs[0] if mfs else EOC, len(mfs), difs[0] if difs else EOC, ndif)
    out += struct.pack('<109I', *(head + [FREE] * (109 - len(head))))
    out = out.ljust(ss, b'\0')
    blob = bytearray()
    for e in ents:
        name = e['name'].encode('utf-16-le')
        blob += struct.pack('<64sHBBIII16sIQQIQ', name, len(name) + 2, e['type'], 1, e['left'], e['right'], e['child'], bytes(16), 0, 0, 0, e['start'], e['size'])
    while len(blob) < ndir * ss:
        blob += struct.pack('<64sHBBIII16sIQQIQ', b'', 0, 0, 0, FREE, FREE, FREE, bytes(16), 0, 0, 0, 0, 0)
    for i, s in enumerate(dirs):
        sect[s] = bytes(blob[i * ss:(i + 1) * ss])
    m = Made()
    m.data = bytes(out) + b''.join(sect)
    pos = lambda s: (s + 1) * ss
    fpos = lambda s: pos(fats[s // per]) + s % per * 4
    mpos = lambda s: pos(mfs[s // per]) + s % per * 4
    epos = lambda i: pos(dirs[i * 128 // ss]) + i * 128 % ss
    off = dict(left=68, right=72, child=76, start=116, size=120, high=124, name=64, kind=66)
    m.fields = [('header.%s' % n, 40 + 4 * i, 4) for i, n in enumerate(('ndir', 'nfat', 'dir', 'sig', 'cutoff', 'minifat', 'nminifat', 'difat', 'ndifat'))]
    m.fields += [('header.fat%d' % i, 76 + 4 * i, 4) for i in range(109)]
    m.fields += [('header.version', 24, 4), ('header.order', 28, 2), ('header.shift', 30, 2), ('header.minishift', 32, 2), ('header.magic', 0, 4)]
    m.fields += [('fat %d' % i, fpos(i), 4) for i in range(min(nsect + 2, len(fat)))]
    m.fields += [('difat %d.%d' % (i, j), pos(s) + 4 * j, 4) for i, s in enumerate(difs) for j in range(per)]
    m.fields += [('minifat %d' % i, mpos(i), 4) for i in range(min(len(mfat) + 2, len(mfs) * per))]
    for i in range(ndir * ss // 128):
        m.fields += [('entry %d.%s' % (i, k), epos(i) + o, 2 if k in ('name', 'kind') else 4) for k, o in off.items()]
    # what each path needs
    common = set(n for n, _, _ in m.fields if n.startswith('header.') or n.startswith('difat')) | set('fat %d' % s for s in fats + difs)
    m.common = common
    m.needs, m.place = {}, {}
    for p in tree:
        n = set('entry %d.%s' % (index[p], k) for k in ('name', 'kind', 'size', 'high', 'start'))
        q = p
        while q != '/':
            n |= set('entry %d.%s' % l for l in links[q])
            n |= set('entry %d.name' % i for i, _ in links[q]) | set('entry %d.kind' % i for i, _ in links[q])
            i = max([index[q]] + [i for i, _ in links[q]]) * 128 // ss
            n |= set('fat %d' % s for s in dirs[:i + 1])
            n.add('entry %d.name' % index[q])
            n.add('entry %d.kind' % index[q])
            q = q.rsplit('/', 1)[0] or '/'
        if p in chains:
            n |= set('fat %d' % s for s in chains[p])
        if p in minis:
            n |= set('minifat %d' % s for s in minis[p]) | set('fat %d' % s for s in ms + mfs) | set(['entry 0.start', 'entry 0.size', 'entry 0.high'])
        n |= set(['entry 0.kind', 'entry 0.child', 'entry 0.name'])
        m.needs[p] = n | common
        # sectors that must be in the file
        ext = [s for s in dirs] + fats + difs + (chains.get(p) or []) + (ms + mfs if p in minis else [])
        m.place[p] = max(ext) + 1
    m.nsect, m.dirs, m.fats, m.mfs, m.ms, m.chains, m.minis, m.ents, m.ss = nsect, dirs, fats, mfs, ms, chains, minis, ents, ss
    return m
