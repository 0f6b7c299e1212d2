"""Client of hsim: a job is a list of (key, value) pairs, a result is a dict. A run is a pure function of its job."""
import os, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as hb

SDK = '/opt/hlc/sdk'

def enc(items):
    out = bytearray()
    for k, v in items:
        kb = k.encode()
        vb = v if isinstance(v, (bytes, bytearray)) else str(v).encode('latin-1')
        out += bytes([len(kb)]) + kb + struct.pack('<I', len(vb)) + vb
    return bytes(out)

def dec(b):
    r = {'files': {}}
    i = 0
    while i < len(b):
        kl = b[i]; k = b[i + 1:i + 1 + kl].decode(); i += 1 + kl
        vl, = struct.unpack_from('<I', b, i); i += 4
        v = b[i:i + vl]; i += vl
        if k == 'file':
            n, d = v.split(b'\0', 1); r['files'][n.decode('latin-1')] = d
        else:
            r[k] = v.decode('latin-1')
    for k in ('stats', 'faults'):
        r[k] = {x.split('=')[0]: int(x.split('=')[1]) for x in r.get(k, '').split()}
    r['code'] = int(r.get('code', 0))
    return r

class Server:
    def __init__(self, full_sdk=False):
        sim, hlc = hb.build()
        self.args = [sim, '--hlc', hlc, '--tree', hb.REPO + '/implicit=C:/hlc/implicit', '--tree', SDK + '/Lib=C:/sdk/Lib']
        if full_sdk:
            self.args += ['--tree', SDK + '/Include=C:/sdk/Include']
        self.hlc = hlc
        self.p = None
        self.runs = 0

    def start(self):
        self.p = subprocess.Popen(self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE)

    def run(self, items):
        if self.p is None:
            self.start()
        b = enc(items)
        self.p.stdin.write(struct.pack('<I', len(b)) + b); self.p.stdin.flush()
        h = self.p.stdout.read(4)
        if len(h) < 4:
            raise RuntimeError('simulator server died')
        n, = struct.unpack('<I', h)
        self.runs += 1
        return dec(self.p.stdout.read(n))

    def close(self):
        if self.p:
            self.p.stdin.close(); self.p.wait(); self.p = None
