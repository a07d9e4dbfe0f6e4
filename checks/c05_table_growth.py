"""C05: files stay correct when allocation tables outgrow their blocks.

For every table boundary (second FAT sector, header DIFAT full, DIFAT sector
full, mini FAT, directory) the file is brought to within k free sectors of the
boundary, and every growth plan up to a length is run across it, live, closed,
validated independently, and reopened.  The multi-gigabyte boundaries (4096-byte
sectors, range lock) use a sparse file and a hand-built starting image."""
import copy, struct
from aaf2 import cfb as C
from lib import cfbref
from lib.mc import Space, words, Violation
from lib.cfbrig import Rig, Model
from lib.util import SparseFile, pat

LEVEL = 'model_checking'
ASSUMPTIONS = ['files larger than 20 MB are built from a hand-made image held in a sparse in-memory file; their bulk content is zero']

_base = {}


def capacity(ss, m):
    """data sectors available with m FAT sectors before the table must grow"""
    per = ss // 4
    d = 0
    if m > 109:
        d = -(-(m - 109) // (per - 1))
    return per * m - m - d - 1


def base(ss, m, k):
    key = (ss, m, k)
    if key not in _base:
        r = Rig(ss, probe='end')
        r.step(['o', '/fill', 'w'])
        r.step(['w', '/fill', (capacity(ss, m) - k) * ss])
        data = r.close()
        if r.img.free_sectors != k or len(r.img.fat) != m * ss // 4:
            raise Violation('expected %d free of %d table entries, file has %d of %d: space is lost or the table grew early' % (k, m * ss // 4, r.img.free_sectors, len(r.img.fat)))
        _base.clear()
        _base[key] = (data, r.m)
    return _base[key]


def plans(ss):
    return {
        'a': [['o', '/fill', 'rw'], ['s', '/fill', 0, 2], ['w', '/fill', 1]],
        'b': [['o', '/b', 'rw'], ['s', '/b', 0, 2], ['w', '/b', max(4096, ss)]],
        'c': [['o', '/c', 'rw'], ['s', '/c', 0, 2], ['w', '/c', 200]],
        'm': [['o', '/m', 'rw'], ['s', '/m', 0, 2], ['w', '/m', 3900]],
        'd': [['mds', '/d0/d1/d2/d3']] if ss == 512 else [['md', '/x%d' % i] for i in range(33)],
        'g': [['o', '/c', 'rw'], ['t', '/c', 5000]],
        'h': [['o', '/fill', 'rw'], ['t', '/fill', 6000]],
        'x': [['rm', '/fill']],
        'R': [['R']],
    }


def run(case, tally):
    ss, m, k, plan = case
    pl = plans(ss)
    if m:
        data, model = base(ss, m, k)
        r = Rig(ss, probe='end', tally=tally, image=data, copy_model=copy.deepcopy(model))
    else:
        r = Rig(ss, probe='end', tally=tally)
    for c in plan:
        for op in pl[c]:
            r.step(op)
    r.finish()
    tally.outcome('%d FAT sectors, %d directory sectors' % (len(r.img.fat) * 4 // ss, r.img.dir_slots * 128 // ss))


# ------------------------------------------------------------------ mini tables: many small streams
def run_mini(case, tally):
    ss, n, size, drop, again = case
    r = Rig(ss, probe='end', tally=tally)
    for i in range(n):
        r.step(['o', '/s%d' % i, 'w'])
        r.step(['w', '/s%d' % i, size])
    if drop == 'even':
        gone = range(0, n, 2)
    elif drop == 'tail':
        gone = range(n // 2, n)
    elif drop == 'all':
        gone = range(n)
    else:
        gone = []
    for i in gone:
        r.step(['rm', '/s%d' % i])
    if again == 'R':
        r.step(['R'])
    for i in gone:
        r.step(['o', '/t%d' % i, 'w'])
        r.step(['w', '/t%d' % i, size + 1])
    r.finish()
    tally.outcome('%d mini sectors' % len(r.img.mfat))


# ------------------------------------------------------------------ sparse, crafted images
EOC, FREE, FATSECT, DIFSECT = 0xFFFFFFFE, 0xFFFFFFFF, 0xFFFFFFFD, 0xFFFFFFFC
RL = 0x7FFFFF00 // 4096 - 1


def craft(m, k, mark_rl, ss=4096):
    """an image with m FAT sectors, all used except the last k entries"""
    from array import array
    per = ss // 4
    nd = 0 if m <= 109 else -(-(m - 109) // (per - 1))
    fat = array('I', [FREE]) * (per * m)
    fat[0] = EOC
    fs = list(range(1, 1 + m))
    ds = list(range(1 + m, 1 + m + nd))
    for s in fs:
        fat[s] = FATSECT
    for s in ds:
        fat[s] = DIFSECT
    first = 1 + m + nd
    last = per * m - k
    chain = [s for s in range(first, last) if s != RL]
    for a, b in zip(chain, chain[1:]):
        fat[a] = b
    fat[chain[-1]] = EOC
    if mark_rl and len(fat) > RL:
        fat[RL] = EOC
    f = SparseFile()
    difat = fs + [FREE] * max(0, 109 - m)
    hdr = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + bytes.fromhex('0102010d00020000060e2b3403020101')
    hdr += struct.pack('<HHHHH', 62, 4, 0xFFFE, 12, 6) + bytes(6)
    hdr += struct.pack('<9I', 1, m, 0, 1, 4096, FREE, 0, ds[0] if ds else FREE, nd)
    hdr += struct.pack('<109I', *difat[:109])
    f.write(hdr + bytes(ss - len(hdr)))

    def ent(name, typ, child, start, size, cls=bytes(16)):
        nm = name.encode('utf-16le')
        return struct.pack('<64sHBBIII16sIQQIQ', nm, len(nm) + 2, typ, 1, FREE, FREE, child, cls, 0, 0, 0, start, size)
    root = ent('Root Entry', 5, 1, FREE, 0, bytes.fromhex('a598b3b3901cd411805308003621 0804'.replace(' ', '')))
    size = len(chain) * ss
    d = root + ent('fill', 2, FREE, chain[0], size)
    f.seek(ss)
    f.write(d + bytes(ss - len(d)))
    raw = fat.tobytes()
    for i, s in enumerate(fs):
        f.seek((s + 1) * ss)
        f.write(raw[i * ss:(i + 1) * ss])
    rest = fs[109:]
    for i, s in enumerate(ds):
        tab = rest[i * (per - 1):(i + 1) * (per - 1)]
        tab = tab + [FREE] * (per - 1 - len(tab)) + [ds[i + 1] if i + 1 < nd else EOC]
        f.seek((s + 1) * ss)
        f.write(struct.pack('<%dI' % per, *tab))
    end = next(i for i in range(len(fat) - 1, -1, -1) if fat[i] != FREE)
    f.truncate((end + 2) * ss)
    return f, size


_craft = {}


def run_sparse(case, tally):
    m, k, mark_rl, plan = case
    ss = 4096
    key = (m, k, mark_rl)
    if key not in _craft:
        _craft.clear()
        f, size = craft(m, k, mark_rl)
        img = cfbref.parse(f, strict_range_lock=mark_rl, huge=1 << 25)
        if img.errors:
            raise AssertionError('crafted image is bad: %s' % img.errors[:3])
        _craft[key] = (f, size)
    f0, size = _craft[key]
    f = f0.snapshot()
    x = C.CompoundFileBinary(f, 'rb+')
    model = {}
    fill = size
    wn = 0

    def verify(c):
        for p, d in model.items():
            if bytes(c.open(p, 'r').read()) != d:
                raise Violation('%s differs' % p)
        e = c.find('/fill')
        if fill is None:
            if e is not None:
                raise Violation('/fill still there')
        else:
            if e.byte_size != fill:
                raise Violation('/fill size %d expected %d' % (e.byte_size, fill))
            s = c.open('/fill', 'r')
            for off in (0, size // 2, max(0, size - ss)):
                s.seek(off)
                if any(s.read(min(ss, size - off))):
                    raise Violation('/fill disturbed at %d' % off)
            if fill > size:
                s.seek(size)
                want = b''.join(tails)
                if bytes(s.read()) != want:
                    raise Violation('/fill tail differs')
    tails = []
    for step in list(plan) + ["R"]:
        tally.step()
        wn += 1
        if step == 'a':           # grow the huge stream
            if fill is None:
                continue
            s = x.open('/fill', 'rw')
            s.seek(0, 2)
            d = pat(wn, 2 * ss + 5)
            s.write(d)
            tails.append(d)
            fill += len(d)
        elif step in 'bB':        # new big stream; B spans more than one table sector
            p = '/n%d' % wn
            d = pat(wn, 1030 * ss if step == 'B' else 5000)
            x.open(p, 'w').write(d)
            model[p] = d
        elif step == 'c':         # small stream
            p = '/n%d' % wn
            d = pat(wn, 100)
            x.open(p, 'w').write(d)
            model[p] = d
        elif step == 'd':         # directory growth
            for i in range(33):
                x.makedir('/d%d_%d' % (wn, i))
        elif step == 'h':
            if fill is None:
                continue
            s = x.open('/fill', 'rw')
            s.truncate(7000)
            fill = 7000
            size = 7000
            del tails[:]
        elif step == 'R':
            x.close()
            img = cfbref.parse(f, strict_range_lock=mark_rl or k > 5 and 'B' in plan, huge=1 << 25)
            if img.errors:
                raise Violation('malformed: %s' % '; '.join(img.errors[:3]))
            for p, d in model.items():
                if img.streams[p] != d:
                    raise Violation('on disk %s differs' % p)
            tally.outcome('%d FAT sectors' % (len(img.fat) // 1024))
            tally.state([len(img.fat), img.last_used, sorted(img.tree), img.free_sectors])
            x = C.CompoundFileBinary(f, 'rb+')
        verify(x)


def spaces(tier):
    T = tier == 'thorough'

    def small():
        letters = 'abcmdghR' + ('x' if T else '')
        for n in range(1, (5 if T else 3) + 1):
            for k in range(0, 5):
                for m in (1, 2):
                    for w in words(letters, n):
                        yield [512, m, k, ''.join(w)]
        for n in range(1, (4 if T else 3) + 1):
            for k in range(0, 3):
                for w in words('abcdgR', n):
                    yield [4096, 1, k, ''.join(w)]

    def difat():
        for m in (109, 236, 363):
            for k in range(0, 4):
                for n in range(1, (3 if T else 2 if m < 363 else 1) + 1):
                    for w in words('abcdghR' if T else 'abdhR', n):
                        if w[-1] == 'R':
                            continue
                        yield [512, m, k, ''.join(w)]

    def mini():
        for ss, ns in ((512, (7, 8, 9, 127, 128, 129, 257)), (4096, (63, 64, 65, 1023, 1024, 1025))):
            for n in ns:
                for size in ((1, 64, 65) if n < 1000 else (64,)):
                    for drop in ('none', 'even', 'tail', 'all'):
                        for again in ('live', 'R'):
                            yield [ss, n, size, drop, again]

    def sparse():
        plans_ = ['a', 'b', 'c', 'd', 'aa', 'bc', 'B', 'aB', 'Ba', 'BRa', 'dRb', 'h', 'hB', 'aRh', 'hRa', 'BB']
        if T:
            plans_ += [''.join(w) for w in words('abcdhRB', 3)]
        for m, mark in ((109, True), (511, True), (512, True), (512, False), (1132, True)):
            for k in (0, 1, 2, 3) if m != 512 else (0, 1, 2, 3, 6):
                for p in plans_ if m != 1132 else ('a', 'b', 'B', 'BRa'):
                    if m > 400 and 'h' in p:
                        continue    # freeing a chain is quadratic: minutes, not a property
                    yield [m, k, mark, p]
    return [
        Space('fat', small, run, 'every growth plan across the 2nd and 3rd allocation-table sector, every remaining-space offset', cpu_limit=120),
        Space('difat', difat, run, 'every growth plan across the full header list and the first list sector', cpu_limit=300),
        Space('mini', mini, run_mini, 'numbers of small streams around each mini-table and mini-stream boundary, with deletions and reuse', cpu_limit=300),
        Space('sparse', sparse, run_sparse, '4096-byte sectors: list growth, range lock entering the table, range lock in the free list', cpu_limit=600),
    ]
