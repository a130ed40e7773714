"""Setup: nothing to build; make sure the simulator starts and repeats itself on the code in /repo."""
import os
import subprocess
import sys
ROOT = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
code = '''
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, %r)
from sim import boot, world, build, index, families
import os
world.preload(8)
out = []
for fam in sorted(families.ABOUT):
    r, w = os.pipe()
    if os.fork() == 0:
        o = os.open(os.devnull, os.O_WRONLY); os.dup2(o, 1); os.dup2(o, 2)
        os.write(w, build.run(families.make(fam, 7)).digest().encode()); os._exit(0)
    os.close(w); out.append(os.read(r, 64).decode()); os.wait()
print(' '.join(out))
''' % ROOT
runs = [subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=h), stdout=subprocess.PIPE, text=True).stdout
        for h in ('0', '12345')]
print(runs[0])
sys.exit(0 if runs[0] == runs[1] and len(runs[0]) > 60 else 1)
