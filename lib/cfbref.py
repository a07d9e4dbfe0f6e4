"""Independent reader and validator of the compound-file format ([MS-CFB]),
written from the specification; shares no code with aaf2.cfb.

parse(data) -> Image; Image.errors lists every structural defect found.
"""
import struct

DIFSECT, FATSECT, EOC, FREE = 0xFFFFFFFC, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF
MAXREG = 0xFFFFFFFA
NAMES = {DIFSECT: 'DIFSECT', FATSECT: 'FATSECT', EOC: 'EOC', FREE: 'FREE'}


def name_key(name):
    # length in utf-16 code units, then their values, upper-cased one by one
    u = ''.join(c.upper() if len(c.upper()) == 1 else c for c in name).encode('utf-16-be', 'surrogatepass')
    return (len(u) // 2, u)


class Entry(object):
    __slots__ = ('id', 'name', 'type', 'color', 'left', 'right', 'child', 'class_id', 'flags', 'ctime', 'mtime', 'start', 'size', 'parent', 'raw')

    def __init__(self, id, raw):
        self.id = id
        self.raw = raw
        (name, nsize, self.type, self.color, self.left, self.right, self.child, self.class_id,
         self.flags, self.ctime, self.mtime, self.start, self.size) = struct.unpack('<64sHBBIII16sIQQIQ', raw)
        n = max(0, nsize - 2) if nsize <= 64 else 64
        full = name.decode('utf-16le', 'replace')
        self.name = full.split('\0')[0]
        self.parent = None


class Image(object):
    def __init__(self, data, strict_range_lock=True, huge=1 << 62):
        self.data = data
        self.strict_rl = strict_range_lock
        self.huge = huge         # streams larger than this are checked but not read
        self.errors = []
        self.tree = {}       # path -> dict
        self.streams = {}    # path -> bytes
        self.free_sectors = 0
        self.used_sectors = 0
        self.dir_slots = 0
        self.dir_used = 0
        self.depths = {}
        try:
            self._parse()
        except (struct.error, IndexError, ValueError, KeyError) as e:
            self.err('unparseable: %s %s', type(e).__name__, e)

    def err(self, fmt, *a):
        self.errors.append(fmt % a if a else fmt)

    def sector(self, sid):
        p = (sid + 1) * self.ss
        return self.data[p:p + self.ss]

    def chain(self, start, table, what, own=None):
        out = []
        seen = set()
        sid = start
        while sid != EOC:
            if sid >= len(table):
                self.err('%s: chain runs to sector %s outside the table', what, NAMES.get(sid, sid))
                break
            if sid in seen:
                self.err('%s: chain is cyclic at %d', what, sid)
                break
            seen.add(sid)
            out.append(sid)
            if own is not None:
                if sid in own:
                    self.err('%s: sector %d already owned by %s', what, sid, own[sid])
                else:
                    own[sid] = what
            sid = table[sid]
        return out

    def _parse(self):
        d = self.data
        if d[:8] != b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1':
            self.err('bad magic')
            return
        (self.minor, self.major, bom, sshift, mshift) = struct.unpack('<HHHHH', d[24:34])
        if bom != 0xFFFE:
            self.err('bad byte order mark')
        self.ss = ss = 1 << sshift
        if ss not in (512, 4096):
            self.err('bad sector size %d', ss)
            return
        if mshift != 6:
            self.err('bad mini sector size')
        if any(d[34:40]):
            self.err('reserved bytes not zero')
        (ndir, nfat, dir_start, tsig, cutoff, mf_start, nmf, df_start, ndf) = struct.unpack('<9I', d[40:76])
        if cutoff != 4096:
            self.err('cutoff %d', cutoff)
        difat = list(struct.unpack('<109I', d[76:512]))
        own = {}
        # DIFAT
        sid = df_start
        dsects = []
        while len(dsects) < ndf:
            if sid > MAXREG:
                self.err('DIFAT chain ends after %d of %d sectors', len(dsects), ndf)
                break
            if sid in own:
                self.err('DIFAT chain is cyclic')
                break
            own[sid] = 'DIFAT'
            dsects.append(sid)
            tab = struct.unpack('<%dI' % (ss // 4), self.sector(sid))
            difat.extend(tab[:-1])
            sid = tab[-1]
        if ndf == 0:
            if df_start not in (EOC, FREE):
                self.err('DIFAT start set (%d) though count is 0', df_start)
        elif sid != EOC:
            self.err('DIFAT chain not terminated by end-of-chain (%s)', NAMES.get(sid, sid))
        # FAT
        fsects = []
        gap = False
        for v in difat:
            if v == FREE:
                gap = True
            else:
                if gap:
                    self.err('DIFAT has a hole')
                    gap = False
                fsects.append(v)
        if len(fsects) != nfat:
            self.err('header FAT sector count %d, DIFAT lists %d', nfat, len(fsects))
        fat = []
        for sid in fsects:
            if sid in own:
                self.err('FAT sector %d already owned by %s', sid, own[sid])
            own[sid] = 'FAT'
            s = self.sector(sid)
            if len(s) != ss:
                self.err('FAT sector %d beyond end of file', sid)
                return
            fat.extend(struct.unpack('<%dI' % (ss // 4), s))
        self.fat = fat
        for sid in fsects:
            if fat[sid] != FATSECT:
                self.err('FAT sector %d not marked FATSECT (%s)', sid, NAMES.get(fat[sid], fat[sid]))
        for sid in dsects:
            if fat[sid] != DIFSECT:
                self.err('DIFAT sector %d not marked DIFSECT (%s)', sid, NAMES.get(fat[sid], fat[sid]))
        # directory
        dchain = self.chain(dir_start, fat, 'directory', own)
        if len(dchain) != ndir:
            self.err('header directory sector count %d, chain has %d', ndir, len(dchain))
        raw = b''.join(self.sector(s) for s in dchain)
        n = len(raw) // 128
        self.dir_slots = n
        ents = [Entry(i, raw[i * 128:(i + 1) * 128]) for i in range(n)]
        self.ents = ents
        root = ents[0]
        if root.type != 5:
            self.err('entry 0 is not the root storage')
            return
        if root.name != 'Root Entry':
            self.err('root is named %r', root.name)
        if root.left not in (FREE,) or root.right not in (FREE,):
            self.err('root has siblings')
        # mini fat / mini stream
        if nmf == 0:
            if mf_start not in (EOC, FREE):
                self.err('mini FAT start set though count is 0')
            mfs = []
        else:
            mfs = self.chain(mf_start, fat, 'miniFAT', own)
            if len(mfs) != nmf:
                self.err('header mini FAT sector count %d, chain has %d', nmf, len(mfs))
        mfat = []
        for s in mfs:
            mfat.extend(struct.unpack('<%dI' % (ss // 4), self.sector(s)))
        self.mfat = mfat
        if root.start in (FREE, EOC):
            ms = []
            if root.size:
                self.err('mini stream has size %d but no start', root.size)
        else:
            ms = self.chain(root.start, fat, 'mini stream', own)
        if (root.size + ss - 1) // ss != len(ms):
            self.err('mini stream size %d but %d sectors', root.size, len(ms))
        mdata = b''.join(self.sector(s) for s in ms)
        for i, v in enumerate(mfat):
            if v != FREE and i * 64 >= root.size:
                self.err('mini sector %d in use beyond the mini stream (%d bytes)', i, root.size)
                break
        mown = {}
        # walk the tree
        seen = {0}
        self.root_entry = root
        stack = [(root, '')]
        while stack:
            ent, path = stack.pop()
            sib = []
            st = [(ent.child, None, None, 1)]
            names = []
            maxd = 0
            leafd = []
            while st:
                eid, lo, hi, depth = st.pop()
                if eid == FREE:
                    leafd.append(depth - 1)
                    continue
                if eid >= n:
                    self.err('%s: child id %s out of range', path or '/', eid)
                    continue
                if eid in seen:
                    self.err('%s: directory entry %d linked twice', path or '/', eid)
                    continue
                seen.add(eid)
                e = ents[eid]
                if e.type not in (1, 2):
                    self.err('%s: entry %d (%r) has type %d', path or '/', eid, e.name, e.type)
                if not e.name:
                    self.err('%s: entry %d has no name', path or '/', eid)
                k = name_key(e.name)
                if lo is not None and not lo < k:
                    self.err('%s: %r not after its tree ancestor', path or '/', e.name)
                if hi is not None and not k < hi:
                    self.err('%s: %r not before its tree ancestor', path or '/', e.name)
                maxd = max(maxd, depth)
                st.append((e.left, lo, k, depth + 1))
                st.append((e.right, k, hi, depth + 1))
                sib.append(e)
            self.depths[path or '/'] = (len(sib), min(leafd) if leafd else 0, max(leafd) if leafd else 0)
            for e in sib:
                p = path + '/' + e.name
                if p in self.tree:
                    self.err('duplicate path %s', p)
                self.tree[p] = e
                e.parent = ent
                if e.type == 1:
                    if e.size:
                        pass
                    stack.append((e, p))
                elif e.type == 2:
                    if e.child != FREE:
                        self.err('%s: stream has children', p)
                    self.streams[p] = self._stream(e, p, own, mown, mdata)
        self.dir_used = len(seen)
        for e in ents:
            if e.id not in seen and e.type != 0:
                self.err('directory entry %d (%r, type %d) is unreachable', e.id, e.name, e.type)
        # every used sector owned
        RL = 0x7FFFFF00 // 4096 - 1
        last_used = 0
        for i, v in enumerate(fat):
            if v == FREE:
                self.free_sectors += 1
                if i in own:
                    self.err('sector %d belongs to %s but is marked free', i, own[i])
            else:
                last_used = i
                self.used_sectors += 1
                if ss == 4096 and i == RL:
                    if i in own:
                        self.err('range lock sector used by %s', own[i])
                    if v != EOC and self.strict_rl:
                        self.err('range lock sector entry is %x', v)
                    continue
                if i not in own:
                    self.err('sector %d is marked used (%s) but owned by nothing', i, NAMES.get(v, v))
        if ss == 4096 and len(fat) > RL and fat[RL] != EOC and (self.strict_rl or fat[RL] != FREE):
            self.err('range lock sector not marked')
        for i, v in enumerate(mfat):
            if v == FREE:
                if i in mown:
                    self.err('mini sector %d belongs to %s but is marked free', i, mown[i])
            elif i not in mown:
                self.err('mini sector %d is marked used but owned by nothing', i)
        self.last_used = last_used
        self.mini_used = len(mown)
        for sid in own:
            if (sid + 2) * ss > len(d):
                self.err('sector %d (%s) lies beyond the end of the file (%d bytes)', sid, own[sid], len(d))
                break
        if len(d) != (last_used + 2) * ss:
            self.err('file has %d bytes, last used sector ends at %d', len(d), (last_used + 2) * ss)

    def _stream(self, e, p, own, mown, mdata):
        if e.size == 0:
            if e.start not in (FREE, EOC):
                self.err('%s: empty stream has start sector %d', p, e.start)
            return b''
        if e.size < 4096:
            ch = self.chain(e.start, self.mfat, 'mini ' + p, mown)
            if len(ch) != (e.size + 63) // 64:
                self.err('%s: size %d but %d mini sectors', p, e.size, len(ch))
            return b''.join(mdata[s * 64:s * 64 + 64] for s in ch)[:e.size]
        ch = self.chain(e.start, self.fat, p, own)
        if len(ch) != (e.size + self.ss - 1) // self.ss:
            self.err('%s: size %d but %d sectors', p, e.size, len(ch))
        if e.size > self.huge:
            self.huge_chains = getattr(self, 'huge_chains', {})
            self.huge_chains[p] = ch
            return None
        return b''.join(self.sector(s) for s in ch)[:e.size]


def parse(data, **kw):
    return Image(data, **kw)
