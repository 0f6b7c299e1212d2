"""Independent readers of the file formats the compiler writes: PE images, COFF objects, PDB files. They raise Bad on malformed files."""
import struct

class Bad(Exception):
    pass

def need(c, m):
    if not c: raise Bad(m)

class PE:
    def __init__(self, b):
        self.b = b
        need(len(b) > 0x100 and b[:2] == b'MZ', 'no MZ header')
        o, = struct.unpack_from('<I', b, 0x3c)
        need(o + 0x108 <= len(b) and b[o:o + 4] == b'PE\0\0', 'no PE header')
        self.o = o
        self.machine, ns, self.time, _, _, osz, self.chars = struct.unpack_from('<HHIIIHH', b, o + 4)
        need(self.machine == 0x8664, 'machine')
        oh = o + 24
        need(struct.unpack_from('<H', b, oh)[0] == 0x20b, 'optional header magic')
        self.entry, = struct.unpack_from('<I', b, oh + 16)
        self.base, self.salign, self.falign = struct.unpack_from('<QII', b, oh + 24)
        self.image_size, self.headers = struct.unpack_from('<II', b, oh + 56)
        self.subsystem, self.dllchars = struct.unpack_from('<HH', b, oh + 68)
        nd, = struct.unpack_from('<I', b, oh + 108)
        self.dirs = [struct.unpack_from('<II', b, oh + 112 + 8 * i) for i in range(nd)]
        self.sections = []
        end = 0
        for i in range(ns):
            so = oh + osz + 40 * i
            need(so + 40 <= len(b), 'section table')
            name = b[so:so + 8].rstrip(b'\0').decode('latin-1'); vs, va, rs, ro = struct.unpack_from('<IIII', b, so + 8); fl, = struct.unpack_from('<I', b, so + 36)
            need(ro + rs <= len(b), 'section %s lies outside the file' % name)
            need(va >= end, 'sections overlap'); need(va % self.salign == 0, 'section alignment')
            end = va + max(vs, 1)
            self.sections.append((name, va, vs, ro, rs, fl))
        need(end <= self.image_size, 'size of image')

    def off(self, rva, n=1):
        if rva + n <= self.headers: return rva
        for name, va, vs, ro, rs, fl in self.sections:
            if va <= rva and rva + n <= va + max(vs, rs):
                need(rva + n <= va + rs, 'rva 0x%x is not backed by the file' % rva)
                return ro + rva - va
        raise Bad('rva 0x%x is in no section' % rva)

    def section_of(self, rva):
        for i, (name, va, vs, ro, rs, fl) in enumerate(self.sections):
            if va <= rva < va + max(vs, rs): return i
        return -1

    def cstr(self, rva):
        o = self.off(rva); e = self.b.index(0, o); return self.b[o:e].decode('latin-1')

    def dir(self, i):
        return self.dirs[i] if i < len(self.dirs) and self.dirs[i][0] else None

    def debug(self):
        """list of (type, guid bytes, age, path, offset of the directory entry, offset of the record)"""
        d = self.dir(6); out = []
        if not d: return out
        for i in range(d[1] // 28):
            o = self.off(d[0] + 28 * i, 28)
            ch, ts, ma, mi, ty, size, rva, fo = struct.unpack_from('<IIHHIIII', self.b, o)
            need(fo + size <= len(self.b), 'debug record lies outside the file')
            if ty == 2:
                need(self.b[fo:fo + 4] == b'RSDS', 'RSDS'); out.append((ty, self.b[fo + 4:fo + 20], struct.unpack_from('<I', self.b, fo + 20)[0], self.b[fo + 24:self.b.index(0, fo + 24)].decode('latin-1'), o, fo))
        return out

    def imports(self):
        """{dll: [names]} in file order"""
        d = self.dir(1); out = []
        if not d: return out
        i = 0
        while True:
            ilt, ts, fw, name, iat = struct.unpack_from('<IIIII', self.b, self.off(d[0] + 20 * i, 20))
            if not name: break
            fn = []; k = 0
            while True:
                v, = struct.unpack_from('<Q', self.b, self.off((ilt or iat) + 8 * k, 8))
                if not v: break
                fn.append('#%d' % (v & 0xffff) if v >> 63 else self.cstr((v & 0x7fffffff) + 2)); k += 1
            out.append((self.cstr(name), fn)); i += 1
        return out

    def exports(self):
        d = self.dir(0)
        if not d: return None
        fl, ts, ma, mi, name, base, nf, nn, af, an, ao = struct.unpack_from('<IIHHIIIIIII', self.b, self.off(d[0], 40))
        out = {}; prev = None
        for i in range(nn):
            nm = self.cstr(struct.unpack_from('<I', self.b, self.off(an + 4 * i, 4))[0]); od, = struct.unpack_from('<H', self.b, self.off(ao + 2 * i, 2))
            need(od < nf, 'export ordinal'); need(nm not in out, 'export %s twice' % nm); need(prev is None or prev < nm, 'export names are not sorted'); prev = nm
            out[nm] = struct.unpack_from('<I', self.b, self.off(af + 4 * od, 4))[0]
        return out

    def relocs(self):
        d = self.dir(5); out = []
        if not d: return out
        at = 0
        while at < d[1]:
            o = self.off(d[0] + at, 8); page, size = struct.unpack_from('<II', self.b, o)
            need(size >= 8 and size % 2 == 0 and at + size <= d[1], 'relocation block')
            for i in range((size - 8) // 2):
                v, = struct.unpack_from('<H', self.b, o + 8 + 2 * i)
                if v >> 12: need(v >> 12 == 10, 'relocation type'); out.append(page + (v & 0xfff))
            at += size
        return out

    def unwind(self):
        """the entries of the exception directory; every one of them has to name code and unwind information, in ascending order"""
        d = self.dir(3); out = []; last = 0
        if not d: return out
        need(d[1] % 12 == 0, 'size of the exception directory')
        for i in range(0, d[1], 12):
            a, e, u = struct.unpack_from('<III', self.b, self.off(d[0] + i, 12)); need(last <= a < e and a, 'entry %d of the exception directory covers %x..%x, the one before ends at %x' % (i // 12, a, e, last)); last = e
            need(self.b[self.off(u, 4)] & 7 == 1, 'entry %d of the exception directory has no unwind information' % (i // 12)); out.append((a, e, u))
        return out
    def masked(self):
        b = bytearray(self.b)
        b[self.o + 8:self.o + 12] = b'\0' * 4
        b[self.o + 24 + 64:self.o + 24 + 68] = b'\0' * 4
        for ty, g, age, path, o, fo in self.debug():
            b[o + 4:o + 8] = b'\0' * 4; b[fo + 4:fo + 20] = b'\0' * 16
        d = self.dir(0)
        if d: o = self.off(d[0], 40); b[o + 4:o + 8] = b'\0' * 4
        return bytes(b)


class MSF:
    MAGIC = b'Microsoft C/C++ MSF 7.00\r\n\x1aDS\0\0\0'
    def __init__(self, b):
        self.b = b
        need(b[:32] == self.MAGIC, 'MSF magic')
        self.bs, self.fpm, self.nb, self.dirsize, _, self.map = struct.unpack_from('<IIIIII', b, 32)
        need(self.bs in (512, 1024, 2048, 4096), 'block size'); need(self.nb * self.bs == len(b), 'the superblock says %d blocks of %d, the file has %d bytes' % (self.nb, self.bs, len(b)))
        need(self.fpm in (1, 2), 'free page map')
        nd = (self.dirsize + self.bs - 1) // self.bs
        self.dirmap = self.u32(self.map * self.bs, nd)
        d = b''.join(self.block(x) for x in self.dirmap)[:self.dirsize]
        n, = struct.unpack_from('<I', d, 0); sizes = struct.unpack_from('<%dI' % n, d, 4); at = 4 + 4 * n
        self.blocks = []; self.sizes = []
        used = {}
        for i, s in enumerate(sizes):
            s = 0 if s == 0xffffffff else s
            k = (s + self.bs - 1) // self.bs; need(at + 4 * k <= len(d), 'stream directory'); bl = struct.unpack_from('<%dI' % k, d, at); at += 4 * k
            for x in bl: need(0 < x < self.nb, 'block number of stream %d' % i); need(x not in used, 'block %d is used by streams %s and %d' % (x, used.get(x), i)); used[x] = i
            self.blocks.append(bl); self.sizes.append(s)
        need(at == len(d), 'size of the stream directory')
    def u32(self, o, n):
        need(o + 4 * n <= len(self.b), 'directory map'); return struct.unpack_from('<%dI' % n, self.b, o)
    def block(self, i):
        need(0 < i < self.nb, 'block number'); return self.b[i * self.bs:(i + 1) * self.bs]
    def stream(self, i):
        need(i < len(self.blocks), 'stream %d is missing' % i); return b''.join(self.block(x) for x in self.blocks[i])[:self.sizes[i]]
    def info(self):
        s = self.stream(1); need(len(s) >= 28, 'info stream'); v, sig, age = struct.unpack_from('<III', s); return v, sig, age, s[12:28]
    def masked(self):
        b = bytearray(self.b); o = self.blocks[1][0] * self.bs
        b[o + 4:o + 8] = b'\0' * 4; b[o + 12:o + 28] = b'\0' * 16
        return bytes(b)

class PDB(MSF):
    """what the streams say: sections, modules, symbols with addresses, lines"""
    def parse(self):
        self.dbi = d = self.stream(3)
        need(len(d) >= 64, 'DBI stream')
        (sig, ver, age, gs, _, ps, _, sr, _, modsize, scsize, smsize, srcsize, tmapsize, mfc, dbgsize, ecsize, flags, machine, _) = struct.unpack_from('<iIIHHHHHHIIIIIIIIHHI', d, 0)
        need(sig == -1, 'DBI signature'); need(64 + modsize + scsize + smsize + srcsize + tmapsize + dbgsize + ecsize == len(d), 'DBI substreams do not add up')
        self.age = age; self.machine = machine
        self.modules = []; at = 64
        while at < 64 + modsize:
            stream, symsz, c11, c13, nfiles = struct.unpack_from('<HIIIH', d, at + 34)
            p = at + 64; e = d.index(0, p); name = d[p:e].decode('latin-1'); p = e + 1; e = d.index(0, p); obj = d[p:e].decode('latin-1'); at = (e + 1 + 3) & ~3
            self.modules.append((name, stream, symsz, c11, c13, nfiles))
        need(at == 64 + modsize, 'module list')
        dbg = struct.unpack_from('<%dH' % (dbgsize // 2), d, 64 + modsize + scsize + smsize + srcsize + tmapsize + ecsize)
        sh = self.stream(dbg[5]) if len(dbg) > 5 and dbg[5] != 0xffff else b''
        need(len(sh) % 40 == 0, 'section header stream')
        self.sections = [(sh[i:i + 8].rstrip(b'\0').decode(), *struct.unpack_from('<II', sh, i + 8)) for i in range(0, len(sh), 40)]   # name, vsize, rva
        self.procs = {}; self.proctype = {}; self.data = {}; self.lines = {}; self.files = set(); self.publics = {}
        names = self.stream_names()
        strs = self.stream(names['/names']) if '/names' in names else b''
        for name, stream, symsz, c11, c13, nf in self.modules:
            if stream == 0xffff: continue
            s = self.stream(stream); need(symsz + c11 + c13 <= len(s), 'module stream of %s' % name)
            if symsz: need(struct.unpack_from('<I', s)[0] == 4, 'symbol signature'); self.syms(s, 4, symsz)
            self.c13(s, symsz + c11, symsz + c11 + c13, strs)
        g = self.stream(sr); self.syms(g, 0, len(g))
        return self
    def stream_names(self):
        s = self.stream(1); n, = struct.unpack_from('<I', s, 28); buf = s[32:32 + n]; at = 32 + n
        size, cap, nw = struct.unpack_from('<III', s, at); at += 12; at += 4 * nw; nd, = struct.unpack_from('<I', s, at); at += 4 + 4 * nd
        out = {}
        for i in range(size):
            a, b = struct.unpack_from('<II', s, at); at += 8; need(a < n, 'stream names'); out[buf[a:buf.index(0, a)].decode()] = b
        return out
    def rva(self, seg, off):
        need(1 <= seg <= len(self.sections), 'segment %d' % seg); return self.sections[seg - 1][2] + off
    def syms(self, s, at, end):
        depth = 0
        while at + 4 <= end:
            ln, k = struct.unpack_from('<HH', s, at); need(ln >= 2 and at + 2 + ln <= end, 'symbol record length')
            if k in (0x110f, 0x1110, 0x1147, 0x1146):
                pa, pe, pn, size, ds, de, ty, off, seg = struct.unpack_from('<IIIIIIIIH', s, at + 4); e = s.index(0, at + 39); nm = s[at + 39:e].decode('latin-1')
                self.procs.setdefault(nm, []).append((self.rva(seg, off), size, k)); self.proctype[nm, self.rva(seg, off)] = ty; need(pe <= end and struct.unpack_from('<HH', s, pe)[1] in (6, 0x114f), 'end of %s' % nm)
            elif k in (0x110c, 0x110d, 0x1112, 0x1113):
                ty, off, seg = struct.unpack_from('<IIH', s, at + 4); e = s.index(0, at + 14); self.data.setdefault(s[at + 14:e].decode('latin-1'), []).append((self.rva(seg, off) if k < 0x1112 else off, ty, k))
            elif k == 0x110e:
                fl, off, seg = struct.unpack_from('<IIH', s, at + 4); e = s.index(0, at + 14); self.publics[s[at + 14:e].decode('latin-1')] = (self.rva(seg, off), fl)
            at += 2 + ln
        need(at == end, 'symbol records do not fill their stream')
    def c13(self, s, at, end, strs):
        sums = {}; lines = []; 
        while at + 8 <= end:
            k, ln = struct.unpack_from('<II', s, at); a = at + 8; e = a + ln; need(e <= end, 'line information')
            if k == 0xf4:
                p = a
                while p < e:
                    so, cl, ct = struct.unpack_from('<IBB', s, p); need(so + 12 < len(strs), 'file name'); nm = strs[so + 12:strs.index(0, so + 12)].decode('latin-1'); sums[p - a] = nm; self.files.add(nm); p += (6 + cl + 3) & ~3
            elif k == 0xf2: lines.append((a, e))
            at = (e + 3) & ~3
        for a, e in lines:
            off, seg, fl, size = struct.unpack_from('<IHHI', s, a); p = a + 12; base = self.rva(seg, off)
            while p < e:
                fo, n, bsz = struct.unpack_from('<III', s, p); need(fo in sums, 'file of a line block')
                last = -1
                for i in range(n):
                    o, l = struct.unpack_from('<II', s, p + 12 + 8 * i); need(o <= size, 'line offset'); last = o
                    self.lines.setdefault(base, []).append((o, l & 0xffffff, sums[fo]))
                p += bsz

    # types
    def types(self):
        s = self.stream(2); ver, hs, lo, hi, n = struct.unpack_from('<IIIII', s, 0); need(ver == 20040203 and hs == 56, 'type stream header'); need(hs + n == len(s), 'type stream size')
        self.tlo, self.thi, self.trec = lo, hi, []
        at = hs
        while at < hs + n:
            ln, k = struct.unpack_from('<HH', s, at); need(ln >= 2 and at + 2 + ln <= hs + n, 'type record'); self.trec.append((k, s[at + 4:at + 2 + ln])); at += 2 + ln
        need(len(self.trec) == hi - lo, 'number of type records: %d, the header says %d' % (len(self.trec), hi - lo))
        self.tname = {}
        for i, (k, d) in enumerate(self.trec):
            if k in (0x1505, 0x1506, 0x1507):
                nm, size, prop, fl = self.tagtype(i + lo)
                if not prop & 0x80: self.tname.setdefault((k, nm), []).append(i + lo)
        return self
    def leafnum(self, d, o):
        v, = struct.unpack_from('<H', d, o)
        if v < 0x8000: return v, o + 2
        f = {0x8000: '<b', 0x8001: '<h', 0x8002: '<H', 0x8003: '<i', 0x8004: '<I', 0x8009: '<q', 0x800a: '<Q'}; need(v in f, 'numeric leaf'); return struct.unpack_from(f[v], d, o + 2)[0], o + 2 + struct.calcsize(f[v])
    def rec(self, t):
        need(self.tlo <= t < self.thi, 'type 0x%x is out of range' % t); return self.trec[t - self.tlo]
    def tagtype(self, t):
        k, d = self.rec(t)
        if k == 0x1507: cnt, prop, ut, fl = struct.unpack_from('<HHII', d, 0); e = d.index(0, 12); return d[12:e].decode('latin-1'), self.tsize(ut), prop, fl
        if k == 0x1505: cnt, prop, fl, der, vt = struct.unpack_from('<HHIII', d, 0); o = 16
        else: cnt, prop, fl = struct.unpack_from('<HHI', d, 0); o = 8
        size, o = self.leafnum(d, o); return d[o:d.index(0, o)].decode('latin-1'), size, prop, fl
    BASIC = {0x03: 0, 0x10: 1, 0x20: 1, 0x68: 1, 0x69: 1, 0x70: 1, 0x30: 1, 0x11: 2, 0x21: 2, 0x72: 2, 0x73: 2, 0x71: 2, 0x12: 4, 0x22: 4, 0x74: 4, 0x75: 4, 0x40: 4, 0x13: 8, 0x23: 8, 0x76: 8, 0x77: 8, 0x41: 8}
    def tsize(self, t):
        if t < 0x1000:
            if (t >> 8) & 7: return 8
            need(t & 0xff in self.BASIC, 'basic type 0x%x' % t); return self.BASIC[t & 0xff]
        k, d = self.rec(t)
        if k == 0x1002: return 8
        if k == 0x1001: return self.tsize(struct.unpack_from('<I', d, 0)[0])
        if k == 0x1503: return self.leafnum(d, 8)[0]
        if k == 0x1205: return self.tsize(struct.unpack_from('<I', d, 0)[0])
        if k in (0x1505, 0x1506, 0x1507):
            nm, size, prop, fl = self.tagtype(t)
            if prop & 0x80:
                full = self.tname.get((k, nm), []); return self.tagtype(full[0])[1] if full else 0
            return size
        return 0
    def describe(self, t, depth=0):
        """(kind, ...) of a type, enough to compare it with a declaration"""
        if t < 0x1000: return ('pointer', ('basic', t & 0xff)) if (t >> 8) & 7 else ('basic', t & 0xff)
        k, d = self.rec(t)
        if k == 0x1001: return self.describe(struct.unpack_from('<I', d, 0)[0], depth)
        if k == 0x1002: return ('pointer', self.describe(struct.unpack_from('<I', d, 0)[0], depth + 1) if depth < 3 else None)
        if k == 0x1503: e, = struct.unpack_from('<I', d, 0); n = self.leafnum(d, 8)[0]; return ('array', self.describe(e, depth + 1), n)
        if k == 0x1008:
            ret, cc, fl, n, al = struct.unpack_from('<IBBHI', d, 0); ka, da = self.rec(al); need(ka == 0x1201, 'argument list'); m, = struct.unpack_from('<I', da, 0); need(m == n, 'argument count')
            return ('function', self.describe(ret, depth + 1), [self.describe(x, depth + 1) for x in struct.unpack_from('<%dI' % n, da, 4)])
        if k in (0x1505, 0x1506, 0x1507): return ({0x1505: 'struct', 0x1506: 'union', 0x1507: 'enum'}[k], self.tagtype(t)[0], self.tsize(t))
        return ('leaf', k)
    def members(self, t):
        """[(name, offset or value, type)] of a structure, union or enumeration, following its chain of member lists"""
        k, d = self.rec(t); nm, size, prop, fl = self.tagtype(t)
        if prop & 0x80:
            full = self.tname.get((k, nm), []); need(full, 'no definition of %s' % nm); k, d = self.rec(full[0]); nm, size, prop, fl = self.tagtype(full[0])
        out = []; seen = set()
        def walk(fl):
            need(fl not in seen, 'member list of %s' % nm); seen.add(fl); kk, b = self.rec(fl); need(kk == 0x1203, 'member list of %s' % nm); o = 0
            while o < len(b):
                if b[o] >= 0xf0: o += b[o] & 15; continue
                lk, = struct.unpack_from('<H', b, o)
                if lk == 0x1404: walk(struct.unpack_from('<I', b, o + 4)[0]); o += 8; continue
                if lk == 0x1502: ty = 0x74; v, o = self.leafnum(b, o + 4)
                else: need(lk == 0x150d, 'member kind 0x%x of %s' % (lk, nm)); ty, = struct.unpack_from('<I', b, o + 4); v, o = self.leafnum(b, o + 8)
                e = b.index(0, o); out.append((b[o:e].decode('latin-1'), v, ty)); o = e + 1
        if fl: walk(fl)
        return out, size
    def tables(self):
        """the tables by which a debugger finds types, file names: every entry has to be where its hash says"""
        for st, what in ((2, 'types'), (4, 'ids')):
            s = self.stream(st); hs, lo, hi, n, hst, aux, ks, nb, ho, hl, io, il, ao, al = struct.unpack_from('<IIIIHHIIIIIIII', s, 4); h = self.stream(hst)
            need(ks == 4 and hl == 4 * (hi - lo) and ho + hl <= len(h) and io + il <= len(h) and ao + al <= len(h), 'hash stream of the %s' % what)
            offs = []; at = hs
            while at < hs + n: offs.append(at - hs); at += 2 + struct.unpack_from('<H', s, at)[0]
            need(len(offs) == hi - lo, 'number of %s' % what)
            last = -1; lt = lo
            for i in range(0, il, 8):
                t, o = struct.unpack_from('<II', h, io + i); need(lo <= t < hi and offs[t - lo] == o and o >= last, 'offset of type 0x%x in the index of %s' % (t, what)); need(i == 0 or o - last < 0x18000, 'index of %s' % what); last = o
            need(il == 0 or struct.unpack_from('<I', h, io)[0] == lo, 'index of %s' % what)
            for i in range(hi - lo):
                v, = struct.unpack_from('<I', h, ho + 4 * i); need(v < nb, 'hash of type 0x%x' % (i + lo))
                if st == 2 and self.trec[i][0] in (0x1505, 0x1506, 0x1507):
                    nm, size, prop, fl = self.tagtype(i + lo)
                    if not prop & 0x80 and nm not in ('<unnamed-tag>', '__unnamed') and not prop & 0x100: need(v == self.hash_v1(nm.encode('latin-1')) % nb, '%s is in the wrong bucket of the types' % nm)
        names = self.stream_names(); need('/names' in names, 'table of file names'); s = self.stream(names['/names']); sig, ver, n = struct.unpack_from('<III', s, 0); need(sig == 0xeffeeffe and ver == 1, 'table of file names')
        buf = s[12:12 + n]; bc, = struct.unpack_from('<I', s, 12 + n); bk = struct.unpack_from('<%dI' % bc, s, 16 + n); cnt, = struct.unpack_from('<I', s, 16 + n + 4 * bc); all_ = set(); o = 1
        while o < n:
            e = buf.index(0, o); all_.add(o)
            if e > o:
                i = self.hash_v1(buf[o:e]) % bc; k = 0
                while bk[i] != o: need(bk[i] and k < bc, '%s is not found in the table of file names' % buf[o:e]); i = (i + 1) % bc; k += 1
            else: all_.discard(o)
            o = e + 1
        need(sorted(x for x in bk if x) == sorted(all_) and cnt == len(all_), 'entries of the table of file names')
        return self
    @staticmethod
    def hash_v1(b):
        r = 0; n = len(b) // 4
        for i in range(n): r ^= struct.unpack_from('<I', b, 4 * i)[0]
        o = 4 * n
        if len(b) - o >= 2: r ^= struct.unpack_from('<H', b, o)[0]; o += 2
        if len(b) - o == 1: r ^= b[o]
        r |= 0x20202020; r ^= r >> 11; return r ^ (r >> 16)
    def hashed(self, s, o=0, end=None):
        """{name: [record offsets]} of a symbol hash stream; every entry has to be found in the bucket of its name"""
        sig, ver, hr, nb = struct.unpack_from('<iIII', s, o); need(sig == -1 and ver == 0xf12f091a, 'symbol hash header'); n = hr // 8; base = o + 16; out = {}
        need(end is None or o + 16 + hr + nb == end, 'symbol hash size')
        bits = s[base + hr:base + hr + 516]; need(len(bits) == 516 or not n, 'symbol hash bitmap'); p = base + hr + 516; sym = self.symrec
        used = [i for i in range(4096) if bits[i >> 3] >> (i & 7) & 1] if n else []
        starts = [struct.unpack_from('<I', s, p + 4 * i)[0] // 12 for i in range(len(used))]; need(516 + 4 * len(used) == nb or not n, 'symbol hash buckets')
        for i, b in enumerate(used):
            a = starts[i]; e = starts[i + 1] if i + 1 < len(used) else n; need(a < e <= n, 'bucket %d is empty' % b)
            for j in range(a, e):
                ro, cr = struct.unpack_from('<II', s, base + 8 * j); nm = self.symname(ro - 1); need(self.hash_v1(nm.encode('latin-1')) % 4096 == b, '%s is in the wrong bucket' % nm); out.setdefault(nm, []).append(ro - 1)
        need(sum(len(x) for x in out.values()) == n, 'entries of the symbol hash outside of any bucket'); return out
    def symname(self, at):
        s = self.symrec; need(at + 4 <= len(s), 'symbol record offset'); ln, k = struct.unpack_from('<HH', s, at); o = {0x110e: 10, 0x110c: 10, 0x110d: 10, 0x1112: 10, 0x1113: 10, 0x1125: 10, 0x1127: 10, 0x1108: 4, 0x1107: None}.get(k)
        if k == 0x1107: _, o = self.leafnum(s, at + 8); o -= at + 4
        need(o is not None, 'symbol kind 0x%x in the global stream' % k); return s[at + 4 + o:s.index(0, at + 4 + o)].decode('latin-1')
    def lookup(self):
        gs, ps, sr = struct.unpack_from('<H', self.dbi, 12)[0], struct.unpack_from('<H', self.dbi, 16)[0], struct.unpack_from('<H', self.dbi, 20)[0]
        self.symrec = self.stream(sr); g = self.stream(gs); self.gnames = self.hashed(g, 0, len(g)); p = self.stream(ps); n, am = struct.unpack_from('<II', p, 0); self.pnames = self.hashed(p, 28, 28 + n)
        need(28 + n + am <= len(p), 'address map'); order = struct.unpack_from('<%dI' % (am // 4), p, 28 + n); addr = []
        for o in order: k, fl, off, seg = struct.unpack_from('<HIIH', self.symrec, o + 2); need(k == 0x110e, 'address map'); addr.append((seg, off))
        need(addr == sorted(addr), 'address map is not sorted'); need(len(order) == sum(len(x) for x in self.pnames.values()), 'address map is incomplete'); return self


class COFF:
    def __init__(self, b):
        self.b = b
        need(len(b) >= 20, 'header')
        self.machine, ns, self.time, so, nsym, osz, fl = struct.unpack_from('<HHIIIHH', b, 0)
        need(self.machine == 0x8664 and osz == 0, 'machine'); need(so + 18 * nsym + 4 <= len(b), 'symbol table lies outside the file')
        st = so + 18 * nsym; sl, = struct.unpack_from('<I', b, st); need(4 <= sl and st + sl <= len(b), 'string table lies outside the file')
        def nm(x): 
            if x[:4] == b'\0\0\0\0': o, = struct.unpack_from('<I', x, 4); need(4 <= o < sl, 'string offset'); return b[st + o:b.index(0, st + o)].decode('latin-1')
            return x.rstrip(b'\0').decode('latin-1')
        self.symbols = []; i = 0
        while i < nsym:
            x = b[so + 18 * i:so + 18 * i + 18]; v, sec, ty, cl, na = struct.unpack_from('<IhHBB', x, 8); self.symbols.append((i, nm(x[:8]), v, sec, ty, cl)); i += 1 + na
        need(i == nsym, 'auxiliary records')
        self.sections = []; self.relocs = []
        idx = {s[0]: s for s in self.symbols}
        for i in range(ns):
            o = 20 + 40 * i; name = b[o:o + 8].rstrip(b'\0').decode('latin-1'); vs, va, rs, ro, rl, ln, nr, nl, ch = struct.unpack_from('<IIIIIIHHI', b, o + 8)
            if name.startswith('/'): p = st + int(name[1:]); name = b[p:b.index(0, p)].decode('latin-1')
            if not ch & 0x80: need(ro + rs <= len(b), 'section %s lies outside the file' % name)
            self.sections.append((name, rs, ro, ch))
            first = 0
            if ch & 0x01000000 and nr == 0xffff: nr, = struct.unpack_from('<I', b, rl); first = 1
            need(rl + 10 * nr <= len(b), 'relocations lie outside the file')
            for k in range(first, nr):
                a, s, t = struct.unpack_from('<IIH', b, rl + 10 * k); need(s in idx, 'relocation names no symbol'); need(a + 4 <= rs, 'relocation outside of its section'); self.relocs.append((i + 1, a, idx[s][1], t))
        for s in self.symbols: need(-2 <= s[3] <= ns, 'section number of %s' % s[1])
    def defined(self): return sorted(s[1] for s in self.symbols if s[5] == 2 and s[3] > 0)
    def undefined(self): return sorted(s[1] for s in self.symbols if s[5] == 2 and s[3] == 0 and s[2] == 0)
    def common(self): return sorted((s[1], s[2]) for s in self.symbols if s[5] == 2 and s[3] == 0 and s[2] != 0)
    def masked(self):
        b = bytearray(self.b); b[4:8] = b'\0' * 4; return bytes(b)

def masked(name, b):
    """file contents with the time stamp fields removed; raises Bad if the file is malformed"""
    if name.endswith(('.exe', '.dll', '.efi')): return PE(b).masked()
    if name.endswith('.pdb'): return MSF(b).masked()
    if name.endswith('.obj'): return COFF(b).masked()
    return b


def implib(dll, funcs, data=()):
    """an import library in the Microsoft format. funcs: [(name, hint or ordinal, by ordinal)]; data: [(name, bytes)], each an object file with one section"""
    members = []            # (symbols, contents)
    for n, h, o in funcs:
        body = n.encode() + b'\0' + dll.encode() + b'\0'
        members.append(([n, '__imp_' + n], struct.pack('<HHHHIIHH', 0, 0xffff, 0, 0x8664, 0, len(body), h, 0 if o else 1 << 2) + body))
    for n, d in data:
        so = 20 + 40 + len(d); nb = n.encode()
        obj = struct.pack('<HHIIIHH', 0x8664, 1, 0, so, 1, 0, 0) + struct.pack('<8sIIIIIIHHI', b'.rdata', 0, 0, len(d), 60, 0, 0, 0, 0, 0x40000040) + d
        obj += (nb.ljust(8, b'\0') if len(nb) <= 8 else struct.pack('<II', 0, 4)) + struct.pack('<IhHBB', 0, 1, 0, 2, 0)
        obj += struct.pack('<I', 4 + (len(nb) + 1 if len(nb) > 8 else 0)) + (nb + b'\0' if len(nb) > 8 else b'')
        members.append(([n], obj))
    syms = sorted((s.encode(), i) for i, (ss, c) in enumerate(members) for s in ss)
    def hdr(name, n): return name.ljust(16).encode() + b'0'.ljust(12) + b'0'.ljust(6) + b'0'.ljust(6) + b'0'.ljust(8) + str(n).ljust(10).encode() + b'`\n'
    pad = lambda b: b + b'\n' * (len(b) & 1)
    first = sum(len(s) + 1 for ss, c in members for s in (x.encode() for x in ss)); nsym = len(syms)
    s1 = 4 + 4 * nsym + first; s2 = 4 + 4 * len(members) + 4 + 2 * nsym + first
    at = 8 + 60 + s1 + (s1 & 1) + 60 + s2 + (s2 & 1); offs = []
    for ss, c in members: offs.append(at); at += 60 + len(c) + (len(c) & 1)
    flat = [(s.encode(), i) for i, (ss, c) in enumerate(members) for s in ss]
    a = struct.pack('>I', nsym) + b''.join(struct.pack('>I', offs[i]) for s, i in flat) + b''.join(s + b'\0' for s, i in flat)
    b = struct.pack('<I', len(members)) + b''.join(struct.pack('<I', x) for x in offs) + struct.pack('<I', nsym) + b''.join(struct.pack('<H', i + 1) for s, i in syms) + b''.join(s + b'\0' for s, i in syms)
    out = b'!<arch>\n' + hdr('/', s1) + pad(a) + hdr('/', s2) + pad(b)
    for ss, c in members: out += hdr(dll[:15] + '/', len(c)) + pad(c)
    return out

def stub_value(dll, name, ordinal=None):
    h = 2166136261
    for c in (dll + ('#ordinal%d' % ordinal if ordinal is not None else '!' + name)).lower().encode(): h = (h ^ c) * 16777619 & 0xffffffff
    return h
