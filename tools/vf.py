#!/usr/bin/env python3
"""Driver: contract-based deductive verification of /repo's real C code.

  vf.py check <PID>          decide one property (exit 0 / exit 1 + VIOLATION line)
  vf.py proof <PID> [NAME]   developer: run proofs, print every obligation
  vf.py replay <report.json> rebuild the native harness and rerun a counterexample
  vf.py setup                tool check
"""
import sys, os, re, json, time, glob, shutil, subprocess, tempfile, hashlib, resource, signal, traceback
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
import inject as INJ
REPO = os.environ.get('VF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
JOBS = int(os.environ.get('VF_JOBS', '8'))
MEM = 9 << 30

CBMC_BASE = ['--unwinding-assertions', '--slice-formula', '--drop-unused-functions']

def sh(cmd, timeout=None, cwd=None, mem=MEM, env=None):
    def pre():
        os.setsid()
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre, env=env)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        o, e = p.communicate()
        rc = 'timeout'
    return rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace'), time.time() - t

class Harness:
    """one harness file and its //@ directives"""
    def __init__(self, path):
        self.path = path
        self.proofs, self.bounded, self.assume, self.defs, self.pid = [], [], [], [], None
        for l in open(path):
            m = re.match(r'\s*//@\s*(\w+)\s*(.*)', l)
            if not m: continue
            kw, rest = m.group(1), m.group(2).strip()
            if kw == 'property': self.pid = rest.split()[0]
            elif kw == 'assume': self.assume.append(rest)
            elif kw == 'defs': self.defs += rest.split()
            elif kw in ('proof', 'bounded'):
                parts = rest.split()
                d = {'name': parts[0], 'file': path}
                for p in parts[1:]:
                    k, _, v = p.partition('=')
                    d[k] = v
                (self.proofs if kw == 'proof' else self.bounded).append(d)

def harnesses(pid):
    hs = []
    for f in sorted(glob.glob(os.path.join(ROOT, 'harness', '*.c'))):
        h = Harness(f)
        if h.pid == pid: hs.append(h)
    return hs

class Work:
    def __init__(self, pid):
        self.pid = pid
        self.dir = tempfile.mkdtemp(prefix='vf.%s.' % pid, dir=os.environ.get('VF_TMP', '/tmp'))
        self.lib = os.path.join(self.dir, 'src/lib')
        src = os.path.join(REPO, 'src')
        for base, dirs, files in os.walk(src):
            rel = os.path.relpath(base, src)
            if rel.split(os.sep)[0] in ('tests', 'perl5'): dirs[:] = []; continue
            dirs[:] = [d for d in dirs if not d.startswith('.')]
            hc = [f for f in files if f.endswith(('.c', '.h'))]
            if not hc: continue
            d = os.path.join(self.dir, 'src', rel)
            os.makedirs(d, exist_ok=True)
            for f in hc: shutil.copyfile(os.path.join(base, f), os.path.join(d, f))
        ov = os.path.join(ROOT, 'include/overlay')
        for f in ('config.h', 'build_timestamp.h', 'build_directory.h'):
            shutil.copyfile(os.path.join(ov, f), os.path.join(self.dir, f))
        shutil.copyfile(os.path.join(ov, 'rrr-build-config.h'), os.path.join(self.lib, 'rrr-build-config.h'))
        self.cache = {}
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def cppflags(self, mode, h):
        return ['-DVF_' + mode, '-include', os.path.join(self.dir, 'build_timestamp.h'),
                '-D_GNU_SOURCE', '-std=gnu11', '-w',
                '-I' + os.path.join(ROOT, 'include'), '-I' + os.path.join(ROOT, 'harness'), '-I' + self.lib, '-I' + self.dir] + h.defs

def out_name(w, h, mode, extra=''):
    return os.path.join(w.dir, os.path.basename(h.path)[:-2] + '.' + mode + extra)

import threading
LOCKS, GL = {}, threading.Lock()
SPLIT = threading.Semaphore(JOBS)
def build_cbmc(w, h, mode, defs=()):
    """preprocess, inject contracts, goto-cc. returns (goto binary, meta); cached per work dir"""
    key = (w.dir, h.path, mode, tuple(defs))
    with GL: lk = LOCKS.setdefault(key, threading.Lock())
    with lk:
        c = w.cache.get(key)
        if c is None:
            try: c = ('ok', build_cbmc_(w, h, mode, defs))
            except INJ.Fit as ex: c = ('fit', ex)
            w.cache[key] = c
        if c[0] == 'fit': raise c[1]
        return c[1]
def build_cbmc_(w, h, mode, defs=()):
    tag = hashlib.md5(' '.join(defs).encode()).hexdigest()[:6]
    base = out_name(w, h, mode, '.' + tag)
    i1, i2, gb = base + '.i', base + '.inj.c', base + '.gb'
    rc, o, e, _ = sh(['clang', '-E', h.path, '-o', i1] + w.cppflags(mode, h) + list(defs), 120)
    if rc != 0: raise INJ.Fit('preprocessing failed: ' + e[-1500:])
    if mode == 'PROOF':
        meta = INJ.inject(i1, i2, harness=h.path)
    else:
        meta = INJ.inject(i1, i2, only_ptrcmp=True)
    t = open(i2, encoding='latin-1').read()
    # glibc's fallback typedefs of the _FloatN keywords, which goto-cc has built in
    t = re.sub(r'(?m)^typedef (float|double|long double|__float128) _Float(32|64|128|32x|64x);', '', t)
    open(i2, 'w', encoding='latin-1').write(t)
    rc, o, e, _ = sh(['goto-cc', '-c', i2, '-o', gb], 120)
    if rc != 0: raise INJ.Fit('goto-cc failed: ' + (o + e)[-1500:])
    return gb, meta

def parse_json(out):
    try: return json.loads(out)
    except ValueError:
        # truncated output
        i = out.rfind('\n  },')
        try: return json.loads(out[:i] + '\n}]')
        except ValueError: return []

def cbmc(gb, fn, opts, timeout, extra=()):
    cmd = ['cbmc', gb, '--function', fn, '--json-ui'] + opts + list(extra)
    rc, o, e, t = sh(cmd, timeout)
    js = parse_json(o) if rc != 'timeout' else []
    res, msgs = None, []
    for x in js:
        if isinstance(x, dict):
            if 'result' in x: res = x['result']
            if x.get('messageType') in ('ERROR', 'WARNING'): msgs.append(x.get('messageText', ''))
    return {'cmd': ' '.join(cmd), 'rc': rc, 'result': res, 'msgs': msgs, 'time': t, 'raw': o}

def cbmc_split(gb, d, opts, tmo):
    """one solver call per named obligation (each with its own slice), the automatic checks together"""
    rc, o, e, t = sh(['cbmc', gb, '--function', d['name'], '--show-properties', '--json-ui'] + [x for x in opts if x not in ('--slice-formula', '--unwinding-assertions')], 120)
    props = []
    for x in parse_json(o):
        if isinstance(x, dict) and 'properties' in x: props = x['properties']
    named = [p['name'] for p in props if re.match(r'(VF_REACH|ENSURES|INV|DEC|STEP|LEMMA|FRAME|PRE|NOABORT)', p.get('description', ''))]
    groups = [[n] for n in named]
    tot = {'cmd': 'cbmc %s --function %s %s (one call per named obligation)' % (gb, d['name'], ' '.join(opts)), 'rc': 0, 'result': [], 'msgs': [], 'time': t, 'raw': ''}
    # unwinding assertions and all the automatic checks: everything not named
    rest = [p['name'] for p in props if p['name'] not in set(named)]
    n = int(d.get('group', '1'))
    groups = [named[i:i + n] for i in range(0, len(named), n)]
    def one(g):
        with SPLIT: return cbmc(gb, d['name'], opts, tmo, [a for q in g for a in ('--property', q)])
    rs = []
    with ThreadPoolExecutor(JOBS) as ex:
        fr = ex.submit(lambda: one(rest) if False else cbmc_rest(gb, d, opts, tmo, named, rest))
        rs = [ex.submit(one, g) for g in groups]
        out = [(fr.result(), None)] + [(f.result(), set(g)) for f, g in zip(rs, groups)]
    for x, g in out:
        tot['time'] += x['time']; tot['msgs'] += x['msgs']
        if x['result'] is None: tot['rc'] = x['rc']; tot['result'] = None; tot['msgs'].append(str(g or 'automatic checks')); return tot
        tot['result'] += [p for p in x['result'] if (p['property'] in g if g else p['property'] not in set(named))]
    return tot
def cbmc_rest(gb, d, opts, tmo, named, rest):
    with SPLIT: return cbmc(gb, d['name'], opts, tmo, [a for q in rest for a in ('--property', q)])

VF_UNWIND = ['vf_unreg.0:42', 'vf_umod.0:9', 'vf_is_multiple.0:9', 'vf_memcpy_w.0:40', 'vf_memcpy_w.1:40', 'vf_memset_w.0:40', 'vf_realloc_w.0:40']
def job_opts(d):
    opts = ['--unwind', d.get('unwind', '1')]
    opts += ['--unwindset', ','.join(VF_UNWIND + [x for x in [d.get('unwindset')] if x])]
    if d.get('solver'):
        s = d['solver']
        if s in ('cadical', 'minisat'): opts += ['--sat-solver', s]
        elif s in ('z3', 'cvc5'): opts += ['--' + s]
        elif s == 'kissat': opts += ['--external-sat-solver', 'kissat']
    if d.get('flags'): opts += [x for x in d['flags'].split(',') if x]
    return opts

def proof_job(w, h, d):
    """-> dict(status=proved|failed|undecided, ...)"""
    r = {'name': d['name'], 'file': os.path.basename(h.path), 'functions': [x for x in d.get('funcs', '').split(',') if x]}
    try:
        gb, meta = build_cbmc(w, h, 'PROOF', tuple(x for x in d.get('defs', '').split(',') if x))
    except INJ.Fit as ex:
        r.update(status='undecided', why='the contract text does not fit the source: %s' % str(ex)[:900]); return r
    except Exception as ex:
        r.update(status='undecided', why='machinery: ' + ''.join(traceback.format_exception_only(type(ex), ex))[:900]); return r
    tmo = float(d.get('timeout', '120')) * (3 if TIER == 'thorough' else 1)
    if d.get('split'): x = cbmc_split(gb, d, CBMC_BASE + job_opts(d), tmo)
    else: x = cbmc(gb, d['name'], CBMC_BASE + job_opts(d), tmo)
    r['time'] = round(x['time'], 2); r['cmd'] = x['cmd'].replace(w.dir, '$WORK'); r['solver'] = d.get('solver', 'minisat2 (cbmc built-in)')
    if x['result'] is None:
        r.update(status='undecided', why='%s %s' % ('solver timeout' if x['rc'] == 'timeout' else 'no verdict (rc %s)' % x['rc'], ' '.join(x['msgs'])[-600:])); return r
    ok, bad, unw, reach_ok, reach_bad, mach = [], [], [], 0, [], []
    for p in x['result']:
        desc, st = p.get('description', ''), p.get('status')
        loc = p.get('sourceLocation', {})
        item = {'obligation': desc, 'id': p.get('property'), 'function': loc.get('function'), 'line': loc.get('line'), 'file': (loc.get('file') or '').replace(w.dir + '/', '')}
        # 1 << 31 and the like: two's complement on every supported compiler
        if desc.startswith('arithmetic overflow on signed shl'): continue
        if desc.startswith('VF_REACH'):
            if st == 'FAILURE': reach_ok += 1
            else:
                # the body of a contracted loop that this proof is not about need not be entered by it
                m = re.match(r'VF_REACH loop (\w+)\.\d+ body', desc)
                if not (m and m.group(1) not in r['functions'] and m.group(1) != d['name']): reach_bad.append(desc)
        elif 'unwinding assertion' in desc or desc.startswith('recursion unwinding') or desc.startswith('MACHINERY') or 'no-body' in (p.get('property') or ''):
            if st != 'SUCCESS': unw.append(item)
            else: ok.append(item)
        elif st == 'SUCCESS': ok.append(item)
        else: bad.append(item); item['status'] = st
    if any(i['status'] == 'FAILURE' for i in bad): bad = [i for i in bad if i['status'] == 'FAILURE']
    r.update(obligations=len(ok) + len(bad) + len(unw), discharged=len(ok), reach=reach_ok, failed=bad, named=[i['obligation'] for i in ok if re.match(r'(ENSURES|INV|DEC|STEP|LEMMA|FRAME|PRE|NOABORT)', i['obligation'])])
    nob = sorted({p.get('description', '') for p in x['result'] if 'no-body' in (p.get('property') or '') and p.get('status') == 'FAILURE'})
    if nob: r.update(status='undecided', why='; '.join(nob)[:600])
    elif bad: r['status'] = 'failed'
    elif unw: r.update(status='undecided', why='a loop without a contract is not covered by its complete unwinding: %s' % ', '.join('%s:%s' % (i['function'], i['line']) for i in unw[:4]))
    elif reach_bad: r.update(status='undecided', why='vacuity marker not reachable: ' + '; '.join(reach_bad[:4]))
    elif reach_ok == 0: r.update(status='undecided', why='no reachability marker (possible vacuity)')
    elif not ok: r.update(status='undecided', why='no obligations')
    else: r['status'] = 'proved'
    r['gb'] = gb; r['meta'] = meta
    return r

# ---------------------------------------------------------------- replay
def build_native(w, h, fn, defs=()):
    key = (w.dir, h.path, fn, tuple(defs))
    with GL: lk = LOCKS.setdefault(key, threading.Lock())
    with lk: return build_native_(w, h, fn, defs)
def build_native_(w, h, fn, defs=()):
    tag = hashlib.md5(' '.join(defs).encode()).hexdigest()[:6]
    base = out_name(w, h, 'NATIVE', '.%s.%s' % (fn, tag))
    if os.path.exists(base): return base
    i1, i2, i3 = base + '.i', base + '.s.c', base + '.n.c'
    rc, o, e, _ = sh(['clang', '-E', h.path, '-o', i1] + w.cppflags('NATIVE', h) + list(defs), 120, mem=None)
    if rc != 0: raise INJ.Fit('native preprocessing failed: ' + e[-1500:])
    t, _, _ = INJ.extract_contracts(open(i1).read())
    t = re.sub(r'\b(\w+)__real\b', r'\1', t)
    open(i2, 'w').write(t)
    rc, o, e, _ = sh(['clang', '-x', 'cpp-output', '-std=gnu11', '-w', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=fuzzer-no-link,address,undefined',
        '-fno-sanitize-recover=all', '-fno-sanitize=alignment,function,shift-base,nonnull-attribute,pointer-overflow', '-c', i2, '-o', base + '.o'], 180, mem=None)
    if rc != 0: raise INJ.Fit('native compile failed: ' + e[-1500:])
    link = ['clang', '-w', '-g', '-fsanitize=fuzzer,address,undefined', '-DVF_ENTRY=' + fn, os.path.join(ROOT, 'include/vf_native.c'), base + '.o', '-o', base + '.tmp', '-lm']
    rc, o, e, _ = sh(link, 180, mem=None)
    und = sorted(set(re.findall(r"undefined reference to `(\w+)'", e)))
    if rc != 0 and und:
        # functions of other files that this harness does not provide: an input that reaches one is discarded, never judged
        open(base + '.u.c', 'w').write('#include <setjmp.h>\nextern jmp_buf vf_jmp;\n' + ''.join('void %s(void) { longjmp(vf_jmp, 1); }\n' % u for u in und))
        rc, o, e, _ = sh(link + [base + '.u.c'], 180, mem=None)
    if rc != 0: raise INJ.Fit('native link failed: ' + e[-1500:])
    os.rename(base + '.tmp', base)
    return base

NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=1')

def native_replay(exe, data_path, timeout=20):
    rc, o, e, t = sh([exe, '-timeout=10', '-rss_limit_mb=6000', '-malloc_limit_mb=4000', data_path], timeout, mem=None, env=NENV)
    if rc == 0: return None
    if rc == 'timeout': return 'run did not terminate within %d s' % timeout
    key = [l for l in e.splitlines() if re.search(r'VF-FAILED|ERROR: |runtime error|SUMMARY', l)]
    return ' | '.join(key[:4]) or ('exit status %s: %s' % (rc, e[-300:]))

def inputs_of_trace(trace):
    b = b''
    for s in trace:
        if s.get('stepType') == 'input' and not s.get('hidden'):
            nm = s.get('inputID')
            if not nm or not re.match(r'^B[1248]$', nm): continue
            n = int(nm[1])
            v = s['values'][0]
            if v.get('binary'): x = int(v['binary'], 2)
            else: x = int(re.sub(r'[^0-9-]', '', str(v.get('data', '0'))) or 0)
            b += (x & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')
    return b

def get_trace(x):
    js = parse_json(x['raw'])
    for m in js:
        if isinstance(m, dict) and 'result' in m:
            for p in m['result']:
                if p.get('status') == 'FAILURE' and not p.get('description', '').startswith(('VF_REACH', 'arithmetic overflow on signed shl')) and 'trace' in p:
                    return p, p['trace']
    return None, None

def bmc_job(w, h, d, deadline):
    """bounded model check with the end-to-end oracle; a counterexample is replayed natively"""
    r = {'name': d['name'], 'kind': 'bmc', 'bound': d.get('bound', '6'), 'unwind': d.get('unwind', '10'), 'functions': [x for x in d.get('funcs', '').split(',') if x], 'file': os.path.basename(h.path)}
    try:
        defs = tuple(['-DVF_BOUND=' + d.get('bound', '6')] + [x for x in d.get('defs', '').split(',') if x])
        gb, _ = build_cbmc(w, h, 'BMC', defs)
    except Exception as ex:
        r.update(status='undecided', why=str(ex)[:900]); return r
    opts = ['--no-unwinding-assertions', '--slice-formula', '--drop-unused-functions'] + job_opts(d)
    tmo = min(float(d.get('timeout', '120')), max(5, deadline - time.time()))
    # bmc pass: REACH markers exist in harness too; they must be reachable
    x = cbmc(gb, d['name'], opts, tmo)
    r['time'] = round(x['time'], 2); r['cmd'] = x['cmd'].replace(w.dir, '$WORK')
    if x['result'] is None:
        r.update(status='undecided', why='timeout' if x['rc'] == 'timeout' else ' '.join(x['msgs'])[-400:]); return r
    nob = sorted({p['description'] for p in x['result'] if 'no-body' in (p.get('property') or '') and p['status'] == 'FAILURE'})
    if nob: r.update(status='undecided', why='; '.join(nob)[:600]); return r
    bad = [p for p in x['result'] if p['status'] != 'SUCCESS' and not p['description'].startswith(('VF_REACH', 'arithmetic overflow on signed shl'))]
    reach = [p for p in x['result'] if p['description'].startswith('VF_REACH')]
    r['obligations'] = len([p for p in x['result'] if not p['description'].startswith('VF_REACH')])
    if not bad:
        if any(p['status'] == 'SUCCESS' for p in reach):
            r.update(status='undecided', why='reach marker not reachable within the bound'); return r
        r['status'] = 'passed'; return r
    r['status'] = 'failed'; r['failed'] = [{'obligation': p['description'], 'id': p['property'], 'function': p.get('sourceLocation', {}).get('function'), 'line': p.get('sourceLocation', {}).get('line')} for p in bad]
    for p in bad[:4]:
        x = cbmc(gb, d['name'], opts + ['--property', p['property'], '--trace'], max(10, min(tmo, deadline - time.time())))
        pp, tr = get_trace(x)
        if tr is None: continue
        data = inputs_of_trace(tr)
        f = os.path.join(w.dir, 'cex.%s.%s.bin' % (d['name'], re.sub(r'\W', '_', p['property'])))
        open(f, 'wb').write(data)
        try: exe = build_native(w, h, d['name'], defs)
        except INJ.Fit as ex: r['native'] = str(ex); break
        msg = native_replay(exe, f)
        if msg:
            r['confirmed'] = {'input': f, 'message': msg, 'obligation': p['description'], 'harness': d['name'], 'file': h.path, 'defs': defs}
            break
    return r

def fuzz_job(w, h, d, secs, seedidx=0):
    """native search on the real code (only after an obligation failed / stand-in)"""
    r = {'name': d['name'], 'kind': 'native-search', 'file': os.path.basename(h.path)}
    try:
        defs = tuple(['-DVF_BOUND=' + d.get('fbound', d.get('bound', '6'))] + [x for x in d.get('defs', '').split(',') if x])
        exe = build_native(w, h, d['name'], defs)
    except INJ.Fit as ex:
        r.update(status='undecided', why=str(ex)[:900]); return r
    cor = tempfile.mkdtemp(dir=w.dir)
    art = os.path.join(cor, 'crash-')
    sd = os.path.join(ROOT, 'corpus', d['name'])
    cmd = [exe, cor] + ([sd] if os.path.isdir(sd) else []) + ['-seed=%d' % (SEED + seedidx), '-max_total_time=%d' % int(secs), '-timeout=10', '-rss_limit_mb=6000', '-malloc_limit_mb=4000', '-max_len=%s' % d.get('maxlen', '512'), '-len_control=20', '-use_value_profile=1', '-artifact_prefix=' + art, '-print_final_stats=1']
    rc, o, e, t = sh(cmd, secs + 60, mem=None, env=NENV)
    m = re.search(r'stat::number_of_executed_units:\s*(\d+)', e)
    r['executions'] = int(m.group(1)) if m else 0
    r['time'] = round(t, 1)
    arts = [a for a in sorted(glob.glob(art + '*')) if 'oom' not in os.path.basename(a) and 'slow-unit' not in a]
    if arts:
        msg = native_replay(exe, arts[0])
        if msg:
            r['status'] = 'failed'
            r['confirmed'] = {'input': arts[0], 'message': msg, 'obligation': msg, 'harness': d['name'], 'file': h.path, 'defs': defs}
            return r
    r['status'] = 'passed'
    return r

def known_findings(pid):
    f = os.path.join(ROOT, 'known_findings.txt')
    out = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) match=/(.*?)/ (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def check(pid):
    t0 = time.time()
    hs = harnesses(pid)
    if not hs:
        print('no harness for', pid); return 2
    w = Work(pid)
    budget = 780 if TIER == 'quick' else 3600
    deadline = t0 + budget
    rep = os.path.join(ROOT, 'evidence', 'replay')
    os.makedirs(rep, exist_ok=True)
    for f in glob.glob(os.path.join(rep, pid + '-*')): os.unlink(f)
    try:
        # compile serially per file first (cache), then prove in parallel
        pj = [(h, d) for h in hs for d in h.proofs if TIER == 'thorough' or not d.get('thorough')]
        bj = [(h, d) for h in hs for d in h.bounded if d.get('always') and (TIER == 'thorough' or not d.get('thorough'))]
        with ThreadPoolExecutor(JOBS) as ex:
            pj.sort(key=lambda a: -float(a[1].get('cost', '5')))
            fp = [ex.submit(proof_job, w, h, d) for h, d in pj]
            fb = [ex.submit(fuzz_job, w, h, d, 20, i) if d.get('nobmc') else ex.submit(bmc_job, w, h, d, deadline) for i, (h, d) in enumerate(bj)]
            proofs = [f.result() for f in fp]
            bounded = [f.result() for f in fb]
        failed = [p for p in proofs if p['status'] == 'failed']
        undec = [p for p in proofs if p['status'] == 'undecided']
        confirmed = None
        search = []
        for b in bounded:
            if b.get('confirmed'): confirmed = b['confirmed']; break
        bfail = [b for b in bounded if b['status'] == 'failed' and not b.get('confirmed')]
        bund = [b for b in bounded if b['status'] == 'undecided']
        # (1) a failed obligation of a loop-free proof: its own trace is an input
        if not confirmed:
            for p in failed:
                if confirmed: break
                h = [x for x in hs if os.path.basename(x.path) == p['file']][0]
                d = [x for x in h.proofs if x['name'] == p['name']][0]
                if d.get('native', '1') == '0': continue
                for it in p['failed'][:3]:
                    if time.time() > deadline - 60: break
                    x = cbmc(p['gb'], d['name'], CBMC_BASE + job_opts(d), min(90, max(5, deadline - time.time() - 30)), ['--property', it['id'], '--trace'])
                    pp, tr = get_trace(x)
                    if tr is None: continue
                    data = inputs_of_trace(tr)
                    f = os.path.join(w.dir, 'cex.%s.%s.bin' % (d['name'], re.sub(r'\W', '_', it['id'])))
                    open(f, 'wb').write(data)
                    defs = tuple(x for x in d.get('defs', '').split(',') if x)
                    try: exe = build_native(w, h, d['name'], defs)
                    except INJ.Fit as exn: break
                    msg = native_replay(exe, f)
                    if msg:
                        confirmed = {'input': f, 'message': msg, 'obligation': it['obligation'], 'harness': d['name'], 'file': h.path, 'defs': defs}; break
        # (2) bounded model check + native search for a concrete failing input, or as the stand-in
        if not confirmed and (failed or undec or bfail or bund):
            # bounded harnesses of the affected harness files first
            files = {p['file'] for p in failed + undec + bfail + bund}
            done = {(b['file'], b['name']) for b in bounded}
            cand = [(h, d) for h in hs for d in h.bounded]
            aff = [(h, d) for h, d in cand if os.path.basename(h.path) in files] or cand
            rest = max(60, min(240, deadline - time.time() - 60))
            todo = [(h, d) for h, d in aff if (os.path.basename(h.path), d['name']) not in done and not d.get('nobmc')]
            n = max(1, len(aff))
            secs = max(20, min(75, rest * JOBS / (n * 3)))
            with ThreadPoolExecutor(JOBS) as ex:
                ff = [ex.submit(fuzz_job, w, h, d, secs, i) for i, (h, d) in enumerate(aff)]
                fb = [ex.submit(bmc_job, w, h, d, deadline - 30) for h, d in todo]
                search = [f.result() for f in ff] + [f.result() for f in fb]
            for s in search:
                if s.get('confirmed'): confirmed = s['confirmed']; break
        wall = time.time() - t0
        obl = sum(p.get('obligations', 0) for p in proofs)
        dis = sum(p.get('discharged', 0) for p in proofs)
        proved_funcs = sorted({f for p in proofs if p['status'] == 'proved' for f in p['functions']})
        allok = not (failed or undec)
        mixed = bool([1 for h in hs for d in h.proofs]) 
        level = 'proof' if proofs else 'other'
        cov = {
            'obligations': obl, 'discharged': dis,
            'checker_cmd': proofs[0].get('cmd', 'cbmc') if proofs else (bounded[0].get('cmd', 'cbmc') if bounded else 'cbmc'),
            'trusted_base': ['CBMC 6.11 (symbolic execution, bit-precise C semantics, SAT/SMT back end named per proof)',
                             'clang 18 preprocessing and AST (location of loop heads)', 'tools/inject.py loop cut (base/step/frame obligations)',
                             "overlay config.h: allocator.h compiled with its malloc() branch; logging macros dropped; RRR_BUG/RRR_ABORT/assert are obligations"],
            'functions_under_contract': proved_funcs,
            'vacuity_markers_reached': sum(p.get('reach', 0) for p in proofs),
            'solver_time_s': round(sum(p.get('time', 0) for p in proofs + bounded), 1),
            'proofs': [{k: p.get(k) for k in ('name', 'file', 'status', 'functions', 'obligations', 'discharged', 'reach', 'time', 'solver', 'why', 'nobody') if p.get(k) is not None} for p in proofs],
            'loop_contracts': sorted({l['loop'] for p in proofs if p.get('meta') for l in p['meta']['loops']}),
            'callee_contracts_used': sorted({f for p in proofs if p.get('meta') for f in p['meta'].get('opaque', [])}),
            'bounded_not_counted_as_proved': [{k: b.get(k) for k in ('name', 'kind', 'status', 'bound', 'unwind', 'functions', 'obligations', 'executions', 'time', 'why') if b.get(k) is not None} for b in bounded + search],
            'degraded_to_bounded': [p['name'] + ': ' + p.get('why', '') for p in undec],
            'explanation': 'deductive: every obligation generated from the current source must be accepted' + ('' if allok else '; DEGRADED on this run, see degraded_to_bounded'),
        }
        names = sorted({n for p in proofs if p['status'] == 'proved' for n in p.get('named', [])})
        cov['named_obligations'] = names[:400]
        kn = known_findings(pid)
        viol = None
        if confirmed:
            supp = [t for (m, t) in kn if re.search(m, confirmed['message'] + ' ' + confirmed['obligation'])]
            if not supp:
                j = os.path.join(rep, '%s-%s.json' % (pid, confirmed['harness']))
                b = j[:-5] + '.bin'
                shutil.copyfile(confirmed['input'], b)
                json.dump({'property': pid, 'harness_file': os.path.relpath(confirmed['file'], ROOT), 'harness': confirmed['harness'], 'defs': list(confirmed['defs']),
                           'input': os.path.relpath(b, ROOT), 'input_hex': open(b, 'rb').read(400).hex(), 'observed': confirmed['message'], 'obligation': confirmed['obligation'],
                           'failed_obligations': [dict(i, proof=p['name']) for p in failed for i in p['failed']][:40],
                           'how': 'python3 tools/vf.py replay ' + os.path.relpath(j, ROOT)}, open(j, 'w'), indent=1)
                viol = (j, '')
                print('failing input replayed on the real code: ' + confirmed['message'][:300])
        elif failed or bfail:
            items = [dict(i, proof=p['name']) for p in failed for i in p['failed']] + [dict(i, proof=b['name'] + ' (bounded)') for b in bfail for i in b['failed']]
            items = [i for i in items if not any(re.search(m, i['obligation']) for m, _ in kn)]
            if items:
                j = os.path.join(rep, '%s-obligation.json' % pid)
                json.dump({'property': pid, 'failed_obligations': items[:60], 'cmds': [p.get('cmd') for p in failed], 'search': cov['bounded_not_counted_as_proved']}, open(j, 'w'), indent=1)
                for i in items[:5]: print('failed obligation: %s  [%s:%s] in %s' % (i['obligation'], i['function'], i['line'], i['proof']))
                viol = (j, ' no-failing-input-found')
        for m, t in kn: print('KNOWN-FINDING: property=%s %s' % (pid, t))
        ev = {'property': pid, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov,
              'assumptions': [a for h in hs for a in h.assume], 'wall_s': round(wall, 1), 'violations': 1 if viol else 0}
        json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
        for p in undec: print('not decided by proof on this source (bounded stand-in used): %s: %s' % (p['name'], p.get('why', '')[:300]))
        print('%s: %d/%d obligations discharged in %d proofs, %d bounded runs, %.1f s' % (pid, dis, obl, len(proofs), len(bounded) + len(search), wall))
        if viol:
            print('VIOLATION property=%s replay=%s%s' % (pid, os.path.relpath(viol[0], ROOT), viol[1]))
            return 1
        if proofs and not [p for p in proofs if p['status'] == 'proved'] and not [b for b in bounded + search if b.get('status') == 'passed' and b.get('executions', 1) > 0]:
            print('%s: NO ANSWER: neither a proof nor a bounded check could run on this source' % pid)
            return 2
        return 0
    finally:
        if os.environ.get('VF_KEEP'): print('work dir kept:', w.dir)
        else: w.close()

def dev(pid, only=None):
    w = Work(pid)
    try:
        js = [(h, d, 'p') for h in harnesses(pid) for d in h.proofs if only is None or d['name'] == only]
        js += [(h, d, 'b') for h in harnesses(pid) for d in h.bounded if (only is None and d.get('always')) or d['name'] == only]
        js += [(h, d, 'f') for h in harnesses(pid) for d in h.bounded if only == 'fuzz:' + d['name'] or only == 'fuzz']
        with ThreadPoolExecutor(JOBS) as ex:
            fs = [(h, d, ex.submit(proof_job, w, h, d) if k == 'p' else ex.submit(bmc_job, w, h, d, time.time() + 3000) if k == 'b' else ex.submit(fuzz_job, w, h, d, int(os.environ.get('SECS', '30')))) for h, d, k in js]
            for h, d, f in fs:
                r = f.result()
                print('%-28s %-10s obl=%s disc=%s reach=%s t=%s %s' % (r['name'], r['status'], r.get('obligations'), r.get('discharged', r.get('executions')), r.get('reach'), r.get('time'), r.get('why', '')))
                for n in r.get('nobody', []): print('    ', n)
                for i in r.get('failed', [])[:int(os.environ.get('NF','12'))]: print('    FAILED', i['obligation'], i['function'], i['line'])
                if r.get('confirmed'): print('    CONFIRMED', r['confirmed']['message'], open(r['confirmed']['input'], 'rb').read(80).hex()); shutil.copyfile(r['confirmed']['input'], '/tmp/last.cex')
                if os.environ.get('VF_V'):
                    for n in r.get('named', []): print('      ', n)
    finally:
        if os.environ.get('VF_KEEP'): print('work dir kept:', w.dir)
        else: w.close()

def replay(j):
    d = json.load(open(j))
    if 'harness' not in d:
        print(json.dumps(d, indent=1)); return 1
    h = Harness(os.path.join(ROOT, d['harness_file']))
    w = Work(d['property'])
    try:
        exe = build_native(w, h, d['harness'], tuple(d['defs']))
        msg = native_replay(exe, os.path.join(ROOT, d['input']))
        print('reproduced: ' + msg if msg else 'not reproduced')
        return 1 if msg else 0
    finally: w.close()

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'check': sys.exit(check(a[1]))
    if a[0] == 'proof': dev(a[1], a[2] if len(a) > 2 else None)
    if a[0] == 'replay': sys.exit(replay(a[1]))
    if a[0] == 'setup':
        for t in (['cbmc', '--version'], ['goto-cc', '--version'], ['clang', '--version']):
            print(t[0], subprocess.run(t, capture_output=True, text=True).stdout.splitlines()[0])
