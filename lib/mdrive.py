"""shared by the drivers of the small machines: read programs, write one record each"""
import os, sys, json, signal
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter('ignore')
import qnet
assert os.path.realpath(qnet.__file__).startswith(os.path.realpath(REPO)), qnet.__file__
LIMIT = 100    # seconds for one program

def err(e):
    return '!' + type(e).__name__

class Hang(Exception):
    pass

def hang(*_):
    raise Hang()

def record(run, p):
    """the record of a program; an observation that fails altogether is recorded as a crash"""
    signal.signal(signal.SIGALRM, hang)
    signal.alarm(LIMIT)
    out = sys.stdout
    try:
        return dict(run(p), id=p['id'])
    except Exception as e:
        if os.environ.get('VERIF_DEBUG'): raise
        sys.stdout = out
        return dict(id=p['id'], crash=err(e), steps=p.get('steps', []))
    finally:
        signal.alarm(0)

def main(run, fork=False):
    """fork: every program in a process of its own, as it may change global state"""
    with open(sys.argv[1]) as f, open(sys.argv[2], 'w') as out:
        for line in f:
            p = json.loads(line)
            if not fork:
                out.write(json.dumps(record(run, p)) + '\n')
                continue
            out.flush()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    out.write(json.dumps(record(run, p)) + '\n')
                    out.flush()
                    code = 0
                finally:
                    os._exit(code)
            if os.waitpid(pid, 0)[1]:
                sys.exit('program %s failed' % p['id'])
