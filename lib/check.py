"""check.py PROPERTY [quick|thorough]"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vframe
from vframe import Check, MachineryError
import suites, setup_verif

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    for attempt in (1, 2):
        try:
            setup_verif.primtest()
            chk = Check(pid, tier)
            rc = suites.run(chk)
            sys.exit(rc)
        except MachineryError as e:
            print('machinery error: %s' % e, file=sys.stderr)
            if attempt == 2:
                sys.exit(3)

if __name__ == '__main__':
    main()
