"""Which behaviours of which machine decide which property."""
def S(name, profile, num, maxlen=8, nleaf=3, maxsz=24, maxld=4, salt=0, **kw):
    return dict(dict(name=name, gen='QGen', drive='qdrive.py', trace='QTrace', num=num, salt=salt,
                consts=dict(Profile=profile, MaxLen=maxlen, NLeaf=nleaf, MaxSz=maxsz, MaxLd=maxld)), **kw)

def E(profile, nleaf, maxlen, limit=None, salt=0, **kw):
    """every program over the small alphabet `profile` (at most `limit` programs of the packed list)"""
    return S('all-' + profile, profile, 0, maxlen, nleaf, salt=salt, gen='QEnum', spec='ESpec', exhaustive=True, limit=limit, **kw)

def M(name, module, drive, num, salt=0, inv=(), env=None, **consts):
    """a machine based on spec/QBase.tla; num = 0: every behaviour, breadth-first"""
    pre = consts.pop('pre', '')     # a machine that extends another one prefixes its names
    cs = dict(Verdicts='<- %sBads' % pre, Weight='<- %sObs' % pre, **consts)
    return dict(name=name, gen=module, drive=drive, trace=module, num=num, salt=salt, consts=cs, cfg=cs, noconfirm=True, inv=inv,
                exhaustive=not num, **dict(dict(env=env) if env else {}, **(dict(spec=pre + 'Spec') if pre else {})))

PVF = dict(pv=True)
CAL = dict(ord=3, pr=['t', 'r'])

def suites_for(pid, big):
    n = (lambda q, t: t if big else q)
    return {
        'C01': lambda: [S('op', 'op', n(1200, 40000), salt=1), S('op-long', 'op', n(150, 8000), 14, 4, 40, 5, salt=2),
                        E('fock', 2, 3, n(330, None), 3), E('spin1', 2, 3, n(260, None), 4), E('spinh', 2, 3, n(120, None), 5),
                        E('spin32', 2, 3, n(100, None), 6), E('label', 2, 3, n(130, None), 7), E('opscal', 2, 3, None, 8),
                        S('opw', 'opw', n(250, 10000), 16, maxsz=30, salt=11), E('op3', 3, 5, n(150, None), 9), E('op3c', 3, 5, n(300, None), 10)],
        'C02': lambda: [M('words', 'Words', 'wdrive.py', n(3000, 80000), 21, ['Laws'], MaxLen=12, MaxW=9, NL=7, Kinds='{"op", "sup", "ket", "spp", "rw"}'),
                        M('words-few', 'Words', 'wdrive.py', n(1200, 20000), 22, ['Laws'], MaxLen=12, MaxW=7, NL=3, Kinds='{"op", "sup", "ket", "spp", "rw"}')],
        'C03': lambda: [S('ket', 'ket', n(1500, 40000), salt=21), S('ket-long', 'ket', n(150, 8000), 14, 4, 40, 5, salt=22),
                        S('ketw', 'ketw', n(300, 10000), 16, maxsz=30, salt=27),
                        E('ket2', 2, 3, None, 23), E('ketfock', 2, 3, None, 24), E('ketspin', 2, 3, None, 25),
                        E('ketscal', 2, 3, None, 26)],
        'C04': lambda: [S('scal', 'scal', n(2000, 50000), salt=31), S('scal-long', 'scal', n(300, 8000), 14, 4, 40, 5, salt=32),
                        S('scalw', 'scalw', n(300, 10000), 16, maxsz=30, salt=35),
                        E('scal2', 2, 3, None, 33), E('scalb', 2, 5, n(500, None), 34)],
        'C05': lambda: [S('sup', 'sup', n(1200, 30000), salt=41), S('sup-long', 'sup', n(150, 5000), 12, 4, 40, 5, salt=42),
                        S('supw', 'supw', n(250, 8000), 16, maxsz=30, salt=45),
                        E('sup2', 2, 3, None, 43), E('supscal', 2, 3, None, 44)],
        'C06': lambda: [S('rew', 'rew', n(1400, 30000), 12, salt=61), S('rew-long', 'rew', n(100, 5000), 18, 4, 40, 5, salt=62),
                        S('leibw', 'leibw', n(120, 8000), 16, maxsz=30, salt=67), S('leibs', 'leibs', n(100, 5000), 17, maxsz=30, salt=69), S('herm', 'herm', n(160, 5000), 14, salt=68),
                        E('rew1', 2, 5, n(300, None), 63), E('rew2', 2, 4, n(200, None), 64), E('rewk', 2, 5, n(150, None), 65),
                        E('rewc', 3, 6, n(150, None), 66)],
        'C07': lambda: [S('cal', 'cal', n(800, 30000), 12, salt=71, fields=CAL, env=dict(VERIF_STEP_LIMIT=1.5)), S('cal-long', 'cal', n(120, 5000), 18, 4, 40, 5, salt=72, fields=CAL, env=dict(VERIF_STEP_LIMIT=1.5)),
                        E('cal1', 2, 4, n(150, None), 73, fields=CAL, env=dict(VERIF_STEP_LIMIT=1.5)), E('cal2', 2, 4, n(150, None), 74, fields=CAL, env=dict(VERIF_STEP_LIMIT=1.5)),
                        E('cal3', 2, 4, n(130, None), 75, fields=CAL, env=dict(VERIF_STEP_LIMIT=1.5)), E('calp', 2, 4, n(110, None), 76, fields=CAL, env=dict(VERIF_STEP_LIMIT=1.5)),
                        E('cals', 2, 4, n(150, None), 77, fields=CAL, env=dict(VERIF_STEP_LIMIT=1.5))],
        'C08': lambda: [S('subs', 'subs', n(900, 30000), 12, salt=81, fields=PVF), S('subs-long', 'subs', n(120, 5000), 18, 4, 40, 5, salt=82, fields=PVF),
                        S('sumsub', 'sumsub', n(400, 15000), 12, salt=83, fields=PVF)],
        'C09': lambda: [S('sum', 'sum', n(600, 20000), 12, salt=91, fields=PVF), S('sumx', 'sumx', n(500, 20000), 12, salt=92, fields=PVF),
                        S('sum-long', 'sum', n(100, 5000), 18, 4, 40, 5, salt=93, fields=PVF)],
        'C10': lambda: [M('lattice', 'HSpace', 'hdrive.py', n(6000, 150000), 101, ['Laws'], MaxLen=7, Locals='{1,2,3,4,5,6,7,8,9,10,11}'),
                        M('lattice-few', 'HSpace', 'hdrive.py', n(1500, 30000), 102, ['Laws'], MaxLen=9, Locals='{1,3,4,8}')],
        'C11': lambda: [M('circuits', 'Circ', 'circdrive.py', n(4000, 100000), 111, ['Laws'], MaxLen=12, MaxN=6, D=2),
                        M('circuits-wide', 'Circ', 'circdrive.py', n(400, 20000), 112, ['Laws'], MaxLen=16, MaxN=9, D=2)],
        'C13': lambda: [M('slh', 'SLHNet', 'slhdrive.py', n(640, 20000), 131, MaxLen=7, MaxN=4),
                        M('reduced', 'Models', 'slhdrive.py', n(160, 4000), 132, pre='M', MaxLen=1, MaxN=3)],
        'C22': lambda: [M('matrices', 'OpMat', 'matdrive.py', n(2400, 60000), 221, pre='O', MaxLen=12, MaxN=3)],
        'C24': lambda: [M('network', 'Net', 'circdrive.py', n(6000, 100000), 241, pre='N', MaxLen=10, MaxN=5, D=2, MaxC=4, MaxW=7)],
        'C12': lambda: [M('perm', 'Perm', 'pdrive.py', n(4000, 100000), 121, ['Laws'], MaxLen=10, MaxN=6),
                        M('perm-big', 'Perm', 'pdrive.py', n(700, 20000), 122, ['Laws'], MaxLen=12, MaxN=9)],
        'C15': lambda: [M('rules', 'RuleScope', 'rdrive.py', n(900, 30000), 151, ['Laws'], MaxLen=10),
                        M('rules-long', 'RuleScope', 'rdrive.py', n(200, 10000), 152, ['Laws'], MaxLen=18)],
        'C19': lambda: [M('printing', 'PrintConf', 'cdrive.py', n(900, 20000), 191, ['Laws'], MaxLen=9),
                        M('printing-long', 'PrintConf', 'cdrive.py', n(150, 5000), 192, ['Laws'], MaxLen=18)],
        'C21': lambda: [S('tr', 'tr', n(2000, 40000), salt=51), S('tr-long', 'tr', n(200, 8000), 12, 4, 40, 5, salt=52),
                        E('tr3', 2, 4, None, 53), E('tr4', 2, 4, n(300, None), 54), E('label', 2, 3, n(130, None), 55)],
        'C25': lambda: [M('equations', 'EqHist', 'edrive.py', n(1000, 30000), 251, ['Laws'], MaxLen=9),
                        M('equations-long', 'EqHist', 'edrive.py', n(100, 4000), 252, ['Laws'], MaxLen=20)],
    }[pid]()

def run(chk):
    big = chk.tier == 'thorough'
    chk.run_suites(suites_for(chk.pid, big))
    return chk.finish(rule='programs are behaviours of the generator state machine; every recorded call is one step of the trace machine')
