ID = 'c26-odd-chunk'
PROPERTY = 'C26'
NEEDS = 'an AIFF file with an odd-sized chunk in front of the format chunk'
BREAKS = 'the pad byte of odd-sized AIFF chunks is not skipped and the header is not found or wrong'
EDITS = [('ama.py', "            if chunkid != b\"COMM\":\n                if size % 2 == 1:\n", "            if chunkid != b\"COMM\":\n                if size % 2 == 1 and signature == b\"AIFC\":\n")]
DEMO = '''
import os, sys, tempfile, shutil, struct
from aaf2 import ama
d = tempfile.mkdtemp()
try:
    ok = True
    for sig in (b'AIFF', b'AIFC'):
        comm = b'COMM' + struct.pack('>L', 18) + b'\\x00\\x01' + struct.pack('>L', 5) + b'\\x00\\x10' + bytes(10)
        body = sig + b'NAME' + struct.pack('>L', 3) + b'abc\\x00' + comm + b'SSND' + struct.pack('>L', 10) + bytes(10)
        p = os.path.join(d, 'a.aif')
        open(p, 'wb').write(b'FORM' + struct.pack('>L', len(body)) + body)
        r = ama.get_aifc_fmt(p)
        if r is None or bytes(r)[12:] != comm:
            ok = False
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''
