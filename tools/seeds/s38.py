ID = 'c23-partly-filled-samples'
PROPERTY = 'C23'
NEEDS = 'importing a wave file whose samples have 20 bits in 3 bytes'
BREAKS = 'the samples are taken to have 2 bytes each: the descriptor, the length and the exported audio are wrong'
EDITS = [('audio.py', "            self._sampwidth = (sampwidth + 7) // 8\n", "            self._sampwidth = max(2, sampwidth // 8)\n")]
DEMO = '''
import io, os, struct, sys, tempfile, shutil
import aaf2
d = tempfile.mkdtemp()
try:
    ok = True
    for bits, width in ((16, 2), (12, 2), (20, 3), (24, 3)):
        data = bytes(bytearray(range(width * 2 * 20)))
        fmt = struct.pack('<HHIIHH', 1, 2, 48000, 48000 * 2 * width, 2 * width, bits)
        body = b'WAVEfmt ' + struct.pack('<I', 16) + fmt + b'data' + struct.pack('<I', len(data)) + data
        p = os.path.join(d, 'a.wav')
        with open(p, 'wb') as g:
            g.write(b'RIFF' + struct.pack('<I', len(body)) + body)
        with aaf2.open() as f:
            m = f.create.SourceMob()
            f.content.mobs.append(m)
            m.import_audio_essence(p, 48000)
            ok = ok and m.descriptor['Length'].value == 20 and m.descriptor['QuantizationBits'].value == width * 8
    sys.exit(0 if ok else 1)
finally:
    shutil.rmtree(d)
'''
