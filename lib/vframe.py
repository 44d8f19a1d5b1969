"""Pipeline shared by all checks:

   TLC runs a generator module (state machine of API calls) -> programs
   driver replays them with the real code                   -> recorded trace
   TLC validates the trace with the specification           -> verdicts

Verdict lines printed by the trace modules: BAD {id,k,clause}, SKIP {...}, TOTAL {ok,skip,bad}."""
import os, sys, json, re, time, shutil, subprocess, collections, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
BUILD = os.path.join(VERIF, 'build')
LIB = os.path.join(VERIF, 'lib')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PY = '/opt/venv/bin/python'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = int(os.environ.get('VERIF_NPROC', '7'))

class MachineryError(Exception):
    pass

def build():
    """compile the Java implementation of the matrix primitives (spec/QMatPrim.tla)"""
    src = os.path.join(VERIF, 'java/tlc2/module/QMatPrim.java')
    cls = os.path.join(BUILD, 'tlc2/module/QMatPrim.class')
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run(['javac', '-cp', JARS.split(':')[0], '-d', BUILD, src], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError('javac: ' + r.stderr[-2000:])

def penv(**kw):
    e = {k: v for k, v in os.environ.items() if k not in ('PYTHONPATH',)}
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED=str(kw.pop('hashseed', 0)), MPLBACKEND='Agg',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    e.update({k: str(v) for k, v in kw.items()})
    return e

def tlc(module, cfg, wd, extra=(), env=None, xmx='3g', timeout=800, lib=None):
    os.makedirs(wd, exist_ok=True)
    cfgf = os.path.join(wd, module + '.cfg')
    with open(cfgf, 'w') as f:
        f.write(cfg)
    tmp = os.path.join(wd, 'tmp')
    os.makedirs(tmp, exist_ok=True)
    out = os.path.join(wd, module + '.out')
    cmd = ['java', '-XX:+UseSerialGC', '-Xss64m', '-Xmx' + xmx, '-Djava.io.tmpdir=' + tmp]
    cmd += (['-DTLA-Library=' + lib] if lib else []) + [
           '-cp', BUILD + ':' + JARS, 'tlc2.TLC', '-workers', '1', '-metadir', os.path.join(wd, 'meta'),
           '-config', cfgf] + list(extra) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    with open(out, 'w') as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timeout in %s' % module)
    shutil.rmtree(os.path.join(wd, 'meta'), ignore_errors=True)
    shutil.rmtree(tmp, ignore_errors=True)
    txt = open(out, errors='replace').read()
    return rc, txt

def tagged(txt, tag):
    res = []
    for line in txt.splitlines():
        if line.startswith('"' + tag + ' '):
            try:
                res.append(json.loads(json.loads(line)[len(tag) + 1:]))
            except ValueError:
                raise MachineryError('cannot parse TLC output line: ' + line[:200])
    return res

def consts(d):
    out = []
    for k, v in d.items():
        if isinstance(v, str) and v.startswith('<-'):
            out.append(' %s %s' % (k, v))
            continue
        out.append(' %s = %s' % (k, ('"%s"' % v) if isinstance(v, str) and not v.startswith('{') else v))
    return '\n'.join(out)

def generate(suite, shard, nshards, wd):
    """programs of one shard of a suite"""
    cs = dict(suite.get('consts', {}))
    if suite.get('exhaustive'):
        # breadth-first: every behaviour within the bounds; shards split the result
        cfg = 'SPECIFICATION %s\nCONSTANTS\n%s\nCHECK_DEADLOCK FALSE\n%s' % (suite.get('spec', 'Spec'), consts(cs), ''.join('INVARIANT %s\n' % i for i in suite.get('inv', ())))
        rc, txt = tlc(suite['gen'], cfg, wd)
    else:
        cfg = 'SPECIFICATION %s\nCONSTANTS\n%s\nCHECK_DEADLOCK FALSE\n%s' % (suite.get('spec', 'Spec'), consts(cs), ''.join('INVARIANT %s\n' % i for i in suite.get('inv', ())))
        num = max(1, -(-suite['num'] // nshards))
        seed = SEED * 100003 + shard * 977 + suite.get('salt', 0)
        rc, txt = tlc(suite['gen'], cfg, wd, ['-simulate', 'num=%d' % num, '-depth', '60', '-seed', str(seed)])
    if 'Error:' in txt or rc not in (0,):
        raise MachineryError('generator %s failed (rc %s): %s' % (suite['gen'], rc, txt[-1500:]))
    progs = tagged(txt, 'PROG')
    m = re.search(r'(\d+) states generated', txt) or re.search(r'number of states generated: (\d+)', txt)
    states = int(m.group(1)) if m else 0
    return progs, states

def pack(progs):
    """programs that differ only in the last call become one program"""
    groups = {}
    for p in progs:
        key = json.dumps([p['sp'], p['steps'][:-1]])
        if key in groups:
            g = groups[key]
            if len(g['steps']) < 40:
                g['steps'].append(p['steps'][-1])
                g['sps'].append(p['sps'][-1])
                g['ld'] = max(g['ld'], p['ld'])
                continue
        groups[key] = json.loads(json.dumps(p))
        groups[key + str(len(groups))] = groups[key]
        groups[key] = groups.pop(key)
    seen, out = set(), []
    for g in groups.values():
        if id(g) not in seen:
            seen.add(id(g))
            out.append(g)
    return out

def drive(script, progs, wd, env=None, timeout=800):
    pf, tf = os.path.join(wd, 'prog.ndjson'), os.path.join(wd, 'trace.ndjson')
    with open(pf, 'w') as f:
        for p in progs:
            f.write(json.dumps(p) + '\n')
    hs = (env or {}).pop('hashseed', 0) if env else 0
    r = subprocess.run([PY, '-W', 'ignore', os.path.join(LIB, script), pf, tf], env=penv(hashseed=hs, **(env or {})),
                       capture_output=True, text=True, timeout=timeout)
    if r.returncode:
        raise MachineryError('driver %s failed: %s' % (script, r.stderr[-3000:]))
    return tf

def validate(module, tracefile, wd, cfg=None):
    if isinstance(cfg, dict):
        cfg = 'SPECIFICATION TSpec\nCONSTANTS\n%s\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Accepted\n' % consts(cfg)
    cfg = cfg or 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION Accepted\n'
    rc, txt = tlc(module, cfg, wd, env={'TRACE': tracefile})
    if rc != 0 or 'Model checking completed. No error' not in txt:
        raise MachineryError('trace validation %s failed (rc %s): %s' % (module, rc, txt[-3000:]))
    tot = tagged(txt, 'TOTAL')
    if not tot:
        raise MachineryError('no TOTAL line from %s' % module)
    m = re.search(r'(\d+) states generated, (\d+) distinct', txt)
    return dict(bad=tagged(txt, 'BAD'), skip=tagged(txt, 'SKIP'), total=tot[-1],
                transitions=int(m.group(1)), states=int(m.group(2)))

def job(suite, shard, nshards, wd):
    t0 = time.time()
    if 'progs' in suite:
        progs, gstates = suite['progs'][shard::nshards], suite['gstates'] if shard == 0 else 0
        os.makedirs(wd, exist_ok=True)
    else:
        progs, gstates = generate(suite, shard, nshards, wd)
    base = (suite.get('salt', 0) * 64 + shard) * 1000000
    for n, p in enumerate(progs):
        p['id'] = base % 1000000000 + n + 1
        p.setdefault('val', (SEED * 131 + shard * 1009 + n) % 30000 + 1)
        for k, v in suite.get('fields', {}).items():
            p.setdefault(k, v)
    if not progs:
        return None
    tf = drive(suite['drive'], progs, wd, dict(suite.get('env', {})))
    res = validate(suite['trace'], tf, wd, suite.get('cfg'))
    res['programs'] = len(progs)
    res['gstates'] = gstates
    res['suite'] = suite
    res['wd'] = wd
    res['tf'] = tf
    res['progs'] = {p['id']: p for p in progs}
    res['wall'] = time.time() - t0
    return res

def confirm(res, bad, wd):
    """Re-run the failing program alone in a fresh process and re-validate it with other
    interpretations of the symbols: a disagreement that is an accident of one
    interpretation is not reported."""
    suite = res['suite']
    prog = res['progs'][bad['id']]
    os.makedirs(wd, exist_ok=True)
    rec = None
    if not suite.get('noconfirm'):
        orig = None
        with open(res['tf']) as f:
            for line in f:
                if '"id": %d,' % bad['id'] in line[:60]:
                    orig = json.loads(line)
                    break
        fails = tries = 0
        if orig is not None and bad['clause'] in ('value',) and 'val' in orig:
            traces = []
            for v in (7001, 12007, 23011, 28027, 29009):
                o = dict(orig)
                o['val'] = v
                traces.append(o)
            tf = os.path.join(wd, 'confirm.ndjson')
            with open(tf, 'w') as f:
                for o in traces:
                    f.write(json.dumps(o) + '\n')
            # identical ids: count verdicts of this step
            r = validate(suite['trace'], tf, wd, suite.get('cfg'))
            fails = sum(1 for b in r['bad'] if b['k'] == bad['k'])
            skips = sum(1 for b in r['skip'] if b['k'] == bad['k'])
            tries = len(traces) - skips
            if tries and fails * 2 <= tries:
                return None
    try:
        env = dict(suite.get('env', {}))
        env['VERIF_STR'] = '1'
        tf = drive(suite['drive'], [prog], wd, env)
        rec = json.loads(open(tf).readline())
    except Exception as e:      # the record above is what counts
        rec = {'steps': [], 'error': str(e)[:300]}
    return rec

def describe(rec, bad):
    try:
        st = rec['steps'][bad['k'] - 1]
        args = [rec['steps'][r - 1].get('str') for r in st.get('r', [])]
        d = {k: v for k, v in st.items() if k in ('op', 'n', 'over', 's', 'cls', 'lab', 'ax', 'lv', 'ty', 'oty', 'isp', 'rsp', 'exc', 'msg', 'note')}
        return dict(step=d, args=args, result=st.get('str'))
    except Exception:
        return {}

class Check:
    def __init__(self, pid, tier, level='model_checking'):
        self.pid, self.tier, self.level = pid, tier, level
        self.t0 = time.time()
        self.wd = os.path.join(VERIF, 'work', '%s-%d' % (pid, os.getpid()))
        shutil.rmtree(self.wd, ignore_errors=True)
        os.makedirs(self.wd)
        self.findings = []          # confirmed failures
        self.stats = collections.Counter()
        self.samples = []
        self.rejected = 0
        self.persuite = []
        self.notes = {}

    def run_suites(self, suites):
        build()
        def pre(s):
            if s.get('exhaustive'):
                s['progs'], s['gstates'] = generate(s, 0, 1, os.path.join(self.wd, s['name'] + '-gen'))
                if 'steps' in (s['progs'] or [{}])[0]:
                    s['progs'] = pack(s['progs'])
                if s.get('limit') and len(s['progs']) > s['limit']:
                    # a deterministic subset that depends on the seed
                    st = len(s['progs']) // s['limit'] + 1
                    s['progs'] = s['progs'][SEED % st::st]
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(pre, suites))
        jobs = []
        for n, s in enumerate(suites):
            ns = s.get('shards', NPROC if 'progs' not in s else max(1, min(NPROC, len(s['progs']) // 25)))
            for k in range(ns):
                jobs.append((s, k, ns, os.path.join(self.wd, '%s-%d' % (s['name'], k))))
        with ThreadPoolExecutor(NPROC) as ex:
            results = [r for r in ex.map(lambda a: job(*a), jobs) if r]
        for r in results:
            self.absorb(r)
        return results

    def absorb(self, r):
        t = r['total']
        c = self.stats
        c['programs'] += r['programs']
        c['states'] += r['states']
        c['transitions'] += r['transitions']
        c['gen_states'] += r['gstates']
        for k in ('ok', 'skip', 'bad'):
            c[k] += t.get(k, 0)
        nm = r['suite']['name']
        c['suite:' + nm + ':ok'] += t.get('ok', 0)
        c['suite:' + nm + ':skip'] += t.get('skip', 0)
        for s in r['skip']:
            if 'why' in s:
                c['skip:' + str(s['why'])] += 1
        with open(r['tf']) as f:
            for n, line in enumerate(f):
                if n in (3, 11) and len(self.samples) < 6:
                    d = json.loads(line)
                    self.samples.append({'suite': nm, 'program': [
                        {k: v for k, v in st.items() if k in ('op', 'r', 'cls', 'lab', 'hs', 'ty', 'n', 'over', 'lv', 'ax', 'exc')}
                        for st in d.get('steps', [])]} if 'steps' in d else {'suite': nm, 'case': json.loads(line[:2000]) if len(line) < 2000 else line[:600]})
        # confirm failures, one per (step signature) and at most a few
        seen = collections.Counter()
        for b in r['bad']:
            p = r['progs'].get(b['id'])
            st = (p.get('steps') or [{}] * 99)[b['k'] - 1] if p and p.get('steps') and b['k'] <= len(p['steps']) else {}
            sig = (b['clause'], st.get('op'))
            if seen[sig] >= 2 or sum(seen.values()) >= 16:
                continue
            seen[sig] += 1
            rec = confirm(r, b, os.path.join(r['wd'], 'confirm-%d-%d' % (b['id'], b['k'])))
            if rec is None:
                self.rejected += 1
                continue
            self.findings.append(dict(suite=nm, bad=b, program=p, info=describe(rec, b), drive=r['suite']['drive'],
                                      trace=r['suite']['trace']))

    def fail(self, clause, info, program=None, suite='direct'):
        self.findings.append(dict(suite=suite, bad={'clause': clause, 'k': 0, 'id': 0}, program=program, info=info))

    def finish(self, rule=None, extra=None):
        known = []
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf))['findings'] if k['property'] == self.pid and k.get('status') == 'known']
        hit, new = collections.Counter(), []
        for f in self.findings:
            blob = json.dumps([f['bad']['clause'], f['info'], f['suite']], sort_keys=True, default=str)
            for k in known:
                if all(re.search(rx, blob) for rx in k['match']):
                    hit[k['id']] += 1
                    break
            else:
                new.append(f)
        for k in known:
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, k['id'], k['what']))
        rd = os.path.join(VERIF, 'work', 'replay')
        os.makedirs(rd, exist_ok=True)
        for n, f in enumerate(new[:10]):
            h = hashlib.sha1(json.dumps(f, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(rd, '%s-%s.json' % (self.pid, h))
            json.dump(dict(property=self.pid, **f), open(path, 'w'), indent=1, default=str)
            print('clause: %s' % f['bad']['clause'])
            print('  %s' % json.dumps(f['info'], default=str)[:1500])
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
        c = self.stats
        cov = dict(states=c['states'], transitions=c['transitions'], traces_validated_against_impl=c['programs'],
                   samples=self.samples or ['none'], evaluations=c['ok'] + c['bad'] + c['skip'],
                   compared=c['ok'] + c['bad'], not_compared=c['skip'], generator_states=c['gen_states'],
                   unconfirmed_rejected=self.rejected, suites={k: v for k, v in c.items() if k.startswith('suite:')})
        if rule:
            cov['rule'] = rule
        cov.update(extra or {})
        ev = dict(property=self.pid, tier=self.tier, seed=SEED, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(new),
                  assumptions=['TLC evaluates the specification correctly',
                               'matrix primitives of QMatPrim.java agree with QMatPrim.tla (checked by PrimTest)'])
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, default=str)
        print('%s %s: %d programs, %d steps compared, %d skipped, %d failures (%d known) in %.1f s' % (
            self.pid, self.tier, c['programs'], c['ok'] + c['bad'], c['skip'], len(new), sum(hit.values()), time.time() - self.t0))
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.wd, ignore_errors=True)
        return 1 if new else 0
