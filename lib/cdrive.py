"""replays programs of spec/PrintConf.tla with the real printing system, each program in a process of its own"""
from mdrive import *
import itertools, io, tempfile
import sympy
from qnet import *
from qnet.printing.asciiprinter import QnetAsciiPrinter
from qnet.printing.unicodeprinter import QnetUnicodePrinter
from qnet.printing.latexprinter import QnetLatexPrinter
import qnet.printing as P

NAME = dict(hs='show_hs_label', kb='sig_as_ketbra', oph='unicode_op_hats', bra='tex_use_braket', mul='mul_symbol')
VALS = dict(hs=['T', 'F', 'subscript'], kb='TF', oph='TF', bra='TF', mul=['none', 'dot', 'times'])
REL = dict(ascii=['hs', 'kb'], unicode=['hs', 'kb', 'oph'], latex=['hs', 'kb', 'bra', 'mul'])
PR = dict(ascii=QnetAsciiPrinter, unicode=QnetUnicodePrinter, latex=QnetLatexPrinter)
FUN = dict(ascii=P.ascii, unicode=P.unicode, latex=P.latex)
v = lambda x: {'T': True, 'F': False, 'none': None}.get(x, x)

class Out(io.StringIO):
    encoding = 'ascii'
class OutU(io.StringIO):
    encoding = 'UTF-8'
OUT, sys.stdout = sys.stdout, Out()

HS = LocalSpace('h1')
A = OperatorSymbol('A', hs=HS)
X, Y = sympy.symbols('x y')
E = 2 * X * Y * (A + LocalSigma('g', 'e', hs=LocalSpace('q', basis=('g', 'e')))) * OperatorSymbol('Beta', hs=2) + LocalSigma(0, 1, hs=LocalSpace('c'))
CACHE = {A: 'CUSTOM'}

TEXT = {}
def ident(s):
    return TEXT.setdefault(s, len(TEXT) + 1)

def table():
    """texts under given settings, by printers built while nothing is configured"""
    tab = dict(srepr=ident(P.srepr(E)), indsrepr=ident(P.srepr(E, indented=True)))
    for f in REL:
        for vals in itertools.product(*[VALS[k] for k in REL[f]]):
            st = {NAME[k]: v(x) for k, x in zip(REL[f], vals)}
            tab[','.join((f,) + vals)] = ident(PR[f](settings=st).doprint(E))
            tab[','.join((f,) + vals) + 'c'] = ident(PR[f](cache=dict(CACHE), settings=st).doprint(E))
    return tab
TAB = table()
str(E), repr(E)
sys.stdout = OUT

def ini_text(glob, secs):
    t = '[global]\n' + ''.join('%s = %s\n' % kv for kv in glob.items())
    for s, kv in secs.items():
        if kv:
            t += '[%s]\n' % s + ''.join('%s = %s\n' % x for x in kv.items())
    return t

def inifile(text):
    f = os.path.join(DIR, 'p.ini')
    with open(f, 'w') as h:
        h.write(text)
    return f

def pairs(l):
    return {NAME[k]: v(x) for k, x in l}

def conf(st):
    glob = pairs(st['set'])
    if st['sf']: glob['str_format'] = st['sf']
    if st['rf']: glob['repr_format'] = st['rf']
    if not st['ca']: glob['caching'] = False
    top = {}
    if st['reset']: top['reset'] = True
    if not st['sy']: top['init_sympy'] = False
    if not st['ini']:
        return {**glob, **top}
    return dict(inifile=inifile(ini_text(glob, {f: pairs(s) for f, s in st['sec'].items()})), **top)

def bad(st):
    w = st['w']
    f = P.configure_printing if st['scope'] else P.init_printing
    kw = dict(show_hs_label=False, caching=False)
    if w == 'call':
        return P.ascii(E, bogus=1)
    if w == 'sf': kw['str_format'] = 'bogus'
    if w == 'rf': kw = dict(kw, reset=True, repr_format='bogus')
    if w == 'mix': kw['inifile'] = inifile('[global]\nshow_hs_label = False\n')
    if w == 'section': kw = dict(inifile=inifile('[global]\nshow_hs_label = False\n[bogus]\na = 1\n'))
    if w == 'printer': kw = dict(inifile=inifile('[global]\nshow_hs_label = False\n[latex]\nprinter = qnet.printing.NoPrinter\n'))
    if w == 'setting': kw = dict(inifile=inifile('[global]\nsig_as_ketbra = False\n[latex]\nbogus = 1\n'))
    x = f(**kw)
    if st['scope']:
        x.__enter__()

class Stop(Exception):
    pass

def step(st, stack):
    o = st['op']
    if o == 'init':
        P.init_printing(**conf(st))
    elif o == 'enter':
        cm = P.configure_printing(**conf(st))
        cm.__enter__()
        stack.append(cm)
    elif o == 'bad':
        bad(st)
    elif o in ('exit', 'raise'):
        for _ in range(st['k']):
            cm = stack.pop()
            if o == 'exit':
                cm.__exit__(None, None, None)
            else:
                try:
                    raise Stop()
                except Stop as e:
                    if cm.__exit__(Stop, e, e.__traceback__):
                        return '!swallowed'
    return 'ok'

def observe(st):
    if st['ob'] == 'none':
        return {}
    fun = {f: ident(FUN[f](E)) for f in FUN}
    o = dict(fun=fun, srepr=ident(P.srepr(E)), call=ident(FUN[st['call']['f']](E, **pairs(st['call']['set']))),
             cached={f: ident(FUN[f](E, cache=dict(CACHE))) for f in FUN},
             treeu=ident(P.tree(E, unicode=True)), treea=ident(P.tree(E, unicode=False)))
    o['again'] = {f: ident(FUN[f](E)) for f in FUN}
    if st['ob'] == 'all':
        t = E._repr_latex_()
        o.update(str=ident(str(E)), repr=ident(repr(E)), tex=ident(t[1:-1]) if t[0] == t[-1] == '$' else 0)
    return o

def run(p):
    global DIR
    out = sys.stdout
    sys.stdout = OutU() if p['utf'] else Out()
    with tempfile.TemporaryDirectory() as DIR:
        stack, res, obs = [], [], []
        for st in p['steps']:
            try:
                res.append(step(st, stack))
            except Exception as e:
                res.append(err(e))
            obs.append(observe(st))
    sys.stdout = out
    return dict(steps=p['steps'], utf=p['utf'], tab=TAB, res=res, obs=obs)

if __name__ == '__main__':
    main(run, fork=True)
