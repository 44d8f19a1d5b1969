"""Compile the Java implementation of spec/QMatPrim.tla and let TLC compare it with
the TLA+ definitions (spec/PrimTest.tla)."""
import os, sys, re, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vframe

def primtest():
    vframe.build()
    src = open(os.path.join(vframe.SPEC, 'QMatPrim.tla')).read()
    with open(os.path.join(vframe.BUILD, 'QMatPure.tla'), 'w') as f:
        f.write(src.replace('MODULE QMatPrim', 'MODULE QMatPure'))
    wd = os.path.join(vframe.VERIF, 'work', 'primtest-%d' % os.getpid())
    rc, txt = vframe.tlc('PrimTest', open(os.path.join(vframe.SPEC, 'PrimTest.cfg')).read(), wd, lib=vframe.BUILD)
    shutil.rmtree(wd, ignore_errors=True)
    if rc or 'No error has been found' not in txt:
        raise vframe.MachineryError('PrimTest: ' + txt[-2000:])
    m = re.search(r'(\d+) distinct states', txt)
    return int(m.group(1))

if __name__ == '__main__':
    print('primitives agree with their TLA+ definitions on %d instances' % primtest())
