ID = 'c23-audio-tail'
PROPERTY = 'C23'
NEEDS = 'a sound file of a whole number of seconds and one more frame'
BREAKS = 'the last frame of an imported sound is dropped when the rest of the file is a single frame, while the length counts it'
EDITS = [('mobs.py', "                data = a.readframes(sample_rate)\n                if not data:\n                    break\n", "                data = a.readframes(sample_rate)\n                if not data or (frames > sample_rate and len(data) < block_align):\n                    break\n                if a.tell() == frames and frames % sample_rate == 1 and frames > 1:\n                    data = data[:-block_align]\n")]
DEMO = '''
import os, sys, tempfile, shutil, wave
import aaf2
d = tempfile.mkdtemp()
try:
    ok = True
    for n in (8000, 8001, 16001, 5):
        p = os.path.join(d, 'a.wav')
        w = wave.open(p, 'wb')
        w.setnchannels(1); w.setsampwidth(2); w.setframerate(8000)
        data = bytes(bytearray(i * 7 % 251 for i in range(2 * n)))
        w.writeframes(data)
        w.close()
        with aaf2.open() as f:
            m = f.create.SourceMob()
            f.content.mobs.append(m)
            m.import_audio_essence(p)
            if bytes(m.essence.open('r').read()) != data:
                ok = False
finally:
    shutil.rmtree(d)
sys.exit(0 if ok else 1)
'''
