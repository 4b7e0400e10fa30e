"""Loop-contract injector.

Works on the preprocessed translation unit (harness + the real source files of
/repo, taken verbatim from the working tree).  Finds, through clang's AST, each
loop that has a VF_LOOP contract and rewrites only its head:

    while (c) S   ->  { int it=0; while (({ HEAD; 1; }) && (c)) S }
    for (a;c;b) S ->  { int it=0; for (a; ({ HEAD; 1; }) && (c); b) S }
    do S while(c) ->  { int it=0; do { HEAD; S } while (c); }

    HEAD: first arrival : assert(inv); havoc(everything the loop may write); assume(inv)
          next arrival  : assert(inv); assert(step relation); assert(frame); assume(0)

i.e. the base case and the inductive step of the loop invariant, with the frame
(what the loop does not write) checked by an arbitrary-byte witness.  The loop
bodies, conditions and all other program text are left as they are.
"""
import json, re, subprocess, os

class Fit(Exception):
    """the contract text does not fit the code (renamed local, other loop shape ...)"""

def balanced(text, i, op='(', cl=')'):
    """text[i]==op; returns index after matching close"""
    d = 0
    n = len(text)
    while i < n:
        c = text[i]
        if c == '"' or c == "'":
            q = c
            i += 1
            while text[i] != q:
                if text[i] == '\\': i += 1
                i += 1
        elif c == op: d += 1
        elif c == cl:
            d -= 1
            if d == 0: return i + 1
        i += 1
    raise Fit('unbalanced parentheses')

def split_top(s, sep):
    out, d, cur, i = [], 0, '', 0
    while i < len(s):
        c = s[i]
        if c in '"\'':
            q = c; j = i + 1
            while s[j] != q:
                if s[j] == '\\': j += 1
                j += 1
            cur += s[i:j+1]; i = j + 1; continue
        if c in '([{': d += 1
        if c in ')]}': d -= 1
        if c == sep and d == 0:
            out.append(cur); cur = ''
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur)
    return [x.strip() for x in out]

LOOPS = ('ForStmt', 'WhileStmt', 'DoStmt')

def extract_contracts(text):
    """strip VF_LOOP(...) and VF_OPAQUE(...) sections; returns (text, contracts, opaque)"""
    contracts, opaque = [], []
    out, pos = [], 0
    for m in re.finditer(r'\b(VF_LOOP|VF_OPAQUE|VF_LOOPCOUNT|VF_MOD|VF_PTRCMP)\s*\(', text):
        if m.start() < pos: continue
        end = balanced(text, m.end() - 1)
        body = text[m.end():end - 1]
        body = re.sub(r'(?m)^#.*$', '', body)
        tail = end
        while tail < len(text) and text[tail] in ' \t;': tail += 1
        out.append(text[pos:m.start()])
        out.append('\n' * text.count('\n', m.start(), tail))
        pos = tail
        if m.group(1) == 'VF_OPAQUE':
            opaque.append(body.strip()); continue
        if m.group(1) == 'VF_PTRCMP':
            contracts.append({'func': body.strip(), 'ptrcmp': True}); continue
        if m.group(1) == 'VF_MOD':
            contracts.append({'func': body.strip(), 'mod': True}); continue
        parts = split_top(body, ',')
        if m.group(1) == 'VF_LOOPCOUNT':
            contracts.append({'func': parts[0], 'count': int(parts[1])}); continue
        func, idx = parts[0], int(parts[1])
        rest = body.split(',', 2)[2]
        c = {'func': func, 'idx': idx, 'items': []}
        for it in split_top(rest, ';'):
            if not it: continue
            mm = re.match(r'(\w+)\s*\(', it)
            if not mm: raise Fit('bad contract item: ' + it)
            args = it[mm.end():balanced(it, mm.end() - 1) - 1]
            c['items'].append((mm.group(1), re.sub(r'\s+', ' ', args.strip())))
        contracts.append(c)
    out.append(text[pos:])
    return ''.join(out), contracts, opaque

def run_ast_all(path, func):
    return [d for d in ast_docs(path, func)[0] if d.get('kind') == 'FunctionDecl']

def run_ast(path, func):
    docs, p = ast_docs(path, func)
    for d in docs:
        if d.get('kind') == 'FunctionDecl' and d.get('name') == func:
            if any(x.get('kind') == 'CompoundStmt' for x in d.get('inner', [])):
                return d
    raise Fit('function %s not found in the source (%s)' % (func, p.stderr.strip()[:300]))

def ast_docs(path, func):
    p = subprocess.run(['clang', '-x', 'cpp-output', '-std=gnu11', '-fsyntax-only', '-w', '-ferror-limit=0', '-Wno-error=implicit-function-declaration', '-fno-builtin',
        '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + func, path],
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    dec = json.JSONDecoder()
    s, i, docs = p.stdout, 0, []
    while True:
        i = s.find('{', i)
        if i < 0: break
        try:
            d, i = dec.raw_decode(s, i)
        except ValueError:
            raise Fit('clang AST dump failed for ' + func + ': ' + p.stderr[:500])
        docs.append(d)
    return docs, p

def off(loc):
    if 'offset' in loc: return loc['offset']
    for k in ('expansionLoc', 'spellingLoc'):
        if k in loc: return loc[k]['offset']
    raise Fit('no offset')

def rng(n):
    b = n['range']['begin']; e = n['range']['end']
    return off(b), off(e) + e.get('tokLen', e.get('expansionLoc', {}).get('tokLen', 1))

def walk(n, f, parents=()):
    f(n, parents)
    for c in n.get('inner', []):
        if isinstance(c, dict) and c.get('kind'):
            walk(c, f, parents + (n,))

def strip_casts(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'ConstantExpr') and n.get('inner'):
        n = n['inner'][-1]
    return n

def lpath(n):
    """lvalue path: ('var', declid, 'text', type) for a local/global object, or ('mem',)"""
    n = strip_casts(n)
    k = n.get('kind')
    if k == 'DeclRefExpr':
        r = n['referencedDecl']
        return ('var', r['id'], r.get('name'), r.get('name'), r.get('type', {}).get('qualType', ''))
    if k == 'MemberExpr':
        if n.get('isArrow'): return ('mem',)
        b = lpath(n['inner'][0])
        if b[0] == 'mem': return b
        return ('var', b[1], b[2], b[3] + '.' + n['name'], n.get('type', {}).get('qualType', ''))
    if k == 'ArraySubscriptExpr':
        b0 = n['inner'][0]
        # array-to-pointer decay of a real array object -> the whole array
        if b0.get('kind') == 'ImplicitCastExpr' and b0.get('castKind') == 'ArrayToPointerDecay':
            return lpath(b0['inner'][0])
        return ('mem',)
    if k == 'UnaryOperator' and n.get('opcode') in ('__real', '__imag', '__extension__'):
        return lpath(n['inner'][0])
    return ('mem',)

def analyse_loop(fn, loop):
    inner = loop['inner']
    if loop['kind'] == 'ForStmt':
        regions = [x for x in inner[1:] if x.get('kind')]
    else:
        regions = [x for x in inner if x.get('kind')]
    declared = set()
    def dcl(n, ps):
        if n.get('kind') in ('VarDecl', 'ParmVarDecl'): declared.add(n['id'])
    for r in regions: walk(r, dcl)
    havoc, memw, calls = {}, [False], [False]
    def asg(n, ps):
        k = n.get('kind')
        tgt = None
        if k == 'CompoundAssignOperator' or (k == 'BinaryOperator' and n.get('opcode') == '='): tgt = n['inner'][0]
        elif k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): tgt = n['inner'][0]
        elif k == 'UnaryOperator' and n.get('opcode') == '&': tgt = n['inner'][0]
        elif k == 'ImplicitCastExpr' and n.get('castKind') == 'ArrayToPointerDecay':
            # array object passed somewhere (call argument): may be written
            if ps and ps[-1].get('kind') != 'ArraySubscriptExpr':
                x = strip_casts(n['inner'][0])
                if x.get('kind') in ('DeclRefExpr', 'MemberExpr') and 'const' not in n.get('type', {}).get('qualType', '').split('*')[0]:
                    tgt = n['inner'][0]
        elif k == 'CallExpr': calls[0] = True
        if tgt is None: return
        p = lpath(tgt)
        if p[0] == 'mem': memw[0] = True; return
        if p[1] in declared: return
        if 'const ' in p[4] and '*' not in p[4] and k == 'UnaryOperator' and n.get('opcode') == '&': return
        havoc[p[3]] = p
    for r in regions: walk(r, asg)
    # drop sub-paths of havoced paths
    for a in list(havoc):
        for b in list(havoc):
            if a != b and a.startswith(b + '.'): havoc.pop(a, None)
    return havoc, memw[0], calls[0]

def addr_taken(fn):
    s = {}
    def f(n, ps):
        if n.get('kind') == 'UnaryOperator' and n.get('opcode') == '&':
            p = lpath(n['inner'][0])
            if p[0] == 'var': s[p[1]] = p[2]
    walk(fn, f)
    return s

def decl_offsets(fn):
    d = {}
    def f(n, ps):
        if n.get('kind') in ('VarDecl', 'ParmVarDecl') and 'range' in n:
            scope = None
            for p in reversed(ps):
                if p.get('kind') in ('CompoundStmt', 'ForStmt'):
                    scope = rng(p); break
            d[n['id']] = (n.get('name'), rng(n)[0], scope, n.get('type', {}).get('qualType', ''), n.get('storageClass'))
    walk(fn, f)
    return d

def loops_of(fn):
    ls = []
    def f(n, ps):
        if n.get('kind') in LOOPS:
            ls.append(n)
    walk(fn, f)
    # "do {...} while (0)" of statement-like macros is not a loop
    def trivial(n):
        if n['kind'] != 'DoStmt': return False
        c = strip_casts(n['inner'][1])
        return c.get('kind') == 'IntegerLiteral' and c.get('value') == '0'
    ls = [n for n in ls if not trivial(n)]
    ls.sort(key=lambda n: rng(n)[0])
    return ls

def stmt_end(text, n):
    b, e = rng(n)
    if n.get('kind') == 'CompoundStmt' : return e
    # last sub-statement may be a compound
    j = e
    if text[e-1] == '}' and n.get('kind') in ('IfStmt', 'ForStmt', 'WhileStmt', 'SwitchStmt'): return e
    if text[e-1] == ';': return e
    j = text.index(';', e)
    return j + 1

def harness_globals(text, harness):
    """file-scope variables of the harness file: (ghosts = scalars and pointers, aggregates), each (name, type text, declaration, offset of the end)"""
    ghosts, aggr = [], []
    own, depth, cur, start = False, 0, '', 0
    clean = re.sub(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', lambda m: ' ' * len(m.group(0)), text)
    pos = 0
    for line in clean.split('\n'):
        m = re.match(r'#\s+\d+ "?', line)
        if line.startswith('#'):
            real = text[pos:pos + len(line)]
            mm = re.match(r'#\s+\d+ "([^"]*)"', real)
            if mm: own = os.path.basename(mm.group(1)) == os.path.basename(harness)
        elif own or depth:
            for i, ch in enumerate(line):
                if ch == '{': depth += 1; cur += '{'
                elif ch == '}':
                    depth -= 1
                    if depth == 0 and '(' in cur: cur = ''
                elif depth == 0 and ch == ';':
                    st = cur.strip(); cur = ''
                    end = pos + i + 1
                    m = re.match(r'static\s+((?:const\s+)?(?:struct|union|enum)\s+\w+|(?:const\s+)?(?:unsigned\s+|signed\s+)?(?:long\s+long|long|\w+))\s*(?:\{)?(.*)$', st, re.S)
                    if not m or '(' in st.split('=')[0]: continue
                    ty = re.sub(r'\s+', ' ', m.group(1))
                    for d in split_top(m.group(2), ','):
                        mm = re.match(r'((?:\*|const|\s)*)(\w+)\s*(\[.*?\])?\s*(=.*)?$', d, re.S)
                        if not mm or mm.group(2) in ('const',): continue
                        ptr = '*' in mm.group(1)
                        if mm.group(3) or (not ptr and re.match(r'(const )?(struct|union) ', ty)):
                            if not ty.startswith('const'): aggr.append((mm.group(2), ty, end))
                        elif (ptr or not ty.startswith('const')) and ty not in ('float', 'double'):
                            ghosts.append((mm.group(2), '%s %s%s' % (ty, mm.group(1), mm.group(2)), end, '{' in st))
                elif depth == 0: cur += ch
            cur += ' ' if depth == 0 else ''
        pos += len(line) + 1
    return ghosts, aggr

def register_locals(text, harness, ast, ins, aggr):
    """locals of a proof function that the code under proof can reach through a pointer take part in the frame obligations"""
    for m in re.finditer(r'(?m)^void (p_\w+)\s*\(void\)\s*\{', text):
        fn = ast(m.group(1))
        at = addr_taken(fn)
        ga = [a for a in aggr if a[2] <= m.start()]
        if ga: ins(m.end(), ' '.join('vf_reg((void *) &(%s), sizeof(%s));' % (a[0], a[0]) for a in ga), -50)
        def f(n, ps):
            if n.get('kind') != 'DeclStmt' or not ps or ps[-1].get('kind') != 'CompoundStmt': return
            t = ''
            for v in n.get('inner', []):
                if v.get('kind') != 'VarDecl' or v.get('storageClass') == 'static': continue
                q = v.get('type', {}).get('qualType', '')
                if re.match(r'const ', q) and '*' not in q: continue
                if v['id'] in at or '[' in q: t += ' vf_reg((void *) &(%s), sizeof(%s));' % (v['name'], v['name'])
            if t: ins(rng(n)[1], t, 60)
        walk(fn, f)

def inject(src, dst, only_ptrcmp=False, harness=None):
    """returns metadata about what was put under contract"""
    raw = open(src).read()
    text, contracts, opaque = extract_contracts(raw)
    if only_ptrcmp:
        contracts, opaque = [c for c in contracts if c.get('ptrcmp')], []
        text = re.sub(r'\b(\w+)__real\b', r'\1', text)
    meta = {'loops': [], 'opaque': opaque}
    if not contracts and not opaque:
        open(dst, 'w').write(text); return meta
    asttext = re.sub(r'\b(\w+)__real\b', lambda m: m.group(1) + ' ' * 6, text)
    tmp = dst + '.ast.i'
    open(tmp, 'w').write(asttext)
    data = asttext.encode()
    if len(data) != len(asttext):
        # offsets are byte offsets: make the text single-byte
        asttext = data.decode('latin-1'); text = text.encode().decode('latin-1')
        open(tmp, 'wb').write(data)
    edits = []  # (offset, order, removed_len, insertion)
    def ins(o, s, order=0, rm=0): edits.append((o, order, rm, s))
    cache = {}
    def ast(f):
        if f not in cache: cache[f] = run_ast(tmp, f)
        return cache[f]
    k = 0
    ghosts, aggr = harness_globals(text, harness) if harness else ([], [])
    if harness and contracts: register_locals(text, harness, ast, ins, aggr)
    declared_at = set()
    seen_cmp = set()
    for c in contracts:
        if c.get('ptrcmp'):
            # p < q of pointers as the machine does it: addresses, which may lie past the end of the object
            def f(n, ps):
                if n.get('kind') == 'BinaryOperator' and n.get('opcode') in ('<', '>', '<=', '>='):
                    if not all(x.get('type', {}).get('qualType', '').rstrip(' const').endswith('*') for x in n['inner']): return
                    l, r = rng(n['inner'][0]), rng(n['inner'][1])
                    if l in seen_cmp: return
                    seen_cmp.add(l)
                    for a, b in (l, r): ins(a, '(uintptr_t)(', 3); ins(b, ')', -6)
            for d in run_ast_all(tmp, c['func']): walk(d, f)
            continue
        fn = ast(c['func'])
        if c.get('mod'):
            # a % b  ->  vf_umod(a, b): the mathematical contract of unsigned remainder
            def f(n, ps):
                if n.get('kind') in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode') in ('%', '%='):
                    t = n.get('type', {}).get('qualType', '')
                    if n['opcode'] == '%=' or not (t.startswith('u') or t == 'size_t'): raise Fit('%s: unsupported remainder expression' % c['func'])
                    b_, e_ = rng(n); l = rng(n['inner'][0]); r = rng(n['inner'][1])
                    ins(b_, 'vf_umod('); ins(l[1], ', ', 0, r[0] - l[1]); ins(e_, ')', 5)
            walk(fn, f)
            meta.setdefault('mod', []).append(c['func'])
            continue
        ls = loops_of(fn)
        if 'count' in c:
            if len(ls) != c['count']: raise Fit('%s has %d loops, the contracts were written for %d' % (c['func'], len(ls), c['count']))
            continue
        if c['idx'] >= len(ls): raise Fit('%s has no loop number %d' % (c['func'], c['idx']))
        loop = ls[c['idx']]
        k += 1
        id_ = '%s.%d' % (c['func'], c['idx'])
        havoc, memw, calls = analyse_loop(fn, loop)
        lb, _ = rng(loop)
        get = lambda kw: [a for (w, a) in c['items'] if w == kw]
        for w, a in c['items']:
            if w not in ('var', 'ptr', 'mem', 'inv', 'snap', 'step', 'reg', 'noreach', 'noframe', 'pre', 'unchanged', 'ghost', 'lval', 'taken', 'at', 'dec'): raise Fit('unknown contract keyword ' + w)
        ptrs = {}
        for a in get('ptr'):
            parts = split_top(a, ',')
            ptrs[parts[0]] = parts[1]
        vars_ = []
        for a in get('var'): vars_ += split_top(a, ',')
        regs = []
        for a in get('reg'): regs += split_top(a, ',')
        unch = []
        for a in get('unchanged'): unch += split_top(a, ',')
        free = []
        for a in get('taken'): free += split_top(a, ',')
        # the loop's own writes to named objects
        hv = []
        for name, p in havoc.items():
            if name in ptrs or name in unch or name in free: continue
            t = p[4].strip()
            if t.endswith('*') or re.search(r'\*\s*(const|restrict)?$', t):
                raise Fit('loop %s writes pointer %s, no ptr() contract for it' % (id_, name))
            hv.append(name)
        for v in vars_:
            if v not in hv: hv.append(v)
        decls = decl_offsets(fn)
        at = addr_taken(fn)
        for did, nm in at.items():
            if did not in decls: continue
            _, o, scope, t, sc = decls[did]
            if o > lb: continue
            if scope and not (scope[0] <= lb < scope[1]): continue
            if nm in hv or nm in regs or nm in unch or nm in ptrs or nm in free: continue
            if any(h == nm or h.startswith(nm + '.') for h in hv): continue
            if re.match(r'^(const )', t) and '*' not in t: continue
            raise Fit('address of local %s is taken around loop %s: list it in the contract' % (nm, id_))
        mems = [split_top(a, ',') for a in get('mem')] + [['&(%s)' % a, 'sizeof(%s)' % a] for a in get('lval')]
        invs = [a.split(',', 1) for a in get('inv')]
        snaps = [split_top(a, ',') for a in get('snap')]
        steps = [a.split(',', 1) for a in get('step')]
        fb = rng(fn)[0]
        gl = [g for g in ghosts if g[0] not in hv and g[0] not in unch and g[0] not in ptrs and g[0] not in free and not any(h.split('.')[0] == g[0] for h in hv)]
        late = [g for g in gl if g[2] > fb]
        gl = [g for g in gl if g[2] <= fb or not g[3]]
        for g in late:
            if not g[3] and (fb, g[0]) not in declared_at:
                declared_at.add((fb, g[0])); ins(fb, 'static %s; ' % g[1], -40)
        D = '{ int vf_it_%d = 0; struct vf_frame vf_fr_%d; ' % (k, k)
        for j, m_ in enumerate(mems): D += 'char *vf_m_%d_%d = 0; size_t vf_n_%d_%d = 0; ' % (k, j, k, j)
        for s in snaps: D += '%s %s; ' % (s[0], s[1])
        decs = get('dec')
        for j, e in enumerate(decs): D += 'uint64_t vf_d_%d_%d = 0; ' % (k, j)
        for a in get('ghost'): D += a + '; '
        for j, v in enumerate(unch): D += '__typeof__(%s) vf_u_%d_%d; ' % (v, k, j)
        for g in gl: D += '__typeof__(%s) vf_g_%d_%s; ' % (g[0], k, g[0])
        H = 'if (!vf_it_%d) { vf_it_%d = 1; ' % (k, k)
        for r in regs: H += 'vf_reg(&(%s), sizeof(%s)); ' % (r, r)
        for a in get('pre'): H += a + '; '
        for n, e in invs: H += '__CPROVER_assert((%s), "INV %s %s base"); ' % (e.strip(), id_, n)
        covers = ''.join('__CPROVER_assert(__CPROVER_same_object(%s, (%s)), "FRAME %s %s stays in its object"); ' % (p, b, id_, re.sub(r'\W+', '_', p)) for p, b in ptrs.items() if not b.startswith('='))
        H += covers
        for j, m_ in enumerate(mems):
            H += 'vf_m_%d_%d = (char*)(%s); vf_n_%d_%d = (%s); ' % (k, j, m_[0], k, j, m_[1])
            H += 'if (vf_n_%d_%d > 0) __CPROVER_havoc_slice(vf_m_%d_%d, vf_n_%d_%d); ' % ((k, j) * 3)
        for v in hv: H += '__CPROVER_havoc_slice(&(%s), sizeof(%s)); ' % (v, v)
        for p, b in ptrs.items(): H += '%s = (void*)((char*)(%s) + vf_noff()); ' % (p, b) if not b.startswith('=') else '%s = (%s); ' % (p, b[1:])
        for n, e in invs: H += '__CPROVER_assume(%s); ' % e.strip()
        H += 'vf_fr_%d = vf_frame_take(); ' % k
        for s in snaps: H += '%s = (%s); ' % (s[1], ','.join(s[2:]))
        for j, v in enumerate(unch): H += 'vf_u_%d_%d = (%s); ' % (k, j, v)
        for a in get('at'): H += a + '; '
        for j, e in enumerate(decs): H += 'vf_d_%d_%d = (uint64_t)(%s); ' % (k, j, e)
        for g in gl: H += 'vf_g_%d_%s = %s; ' % (k, g[0], g[0])
        H += '} else { '
        for g in gl: H += '__CPROVER_assert(vf_g_%d_%s == %s, "FRAME %s ghost %s"); ' % (k, g[0], g[0], id_, g[0])
        for n, e in invs: H += '__CPROVER_assert((%s), "INV %s %s step"); ' % (e.strip(), id_, n)
        H += covers
        for n, e in steps: H += '__CPROVER_assert((%s), "STEP %s %s"); ' % (e.strip(), id_, n)
        for j, v in enumerate(unch): H += '__CPROVER_assert(vf_u_%d_%d == (%s), "FRAME %s %s unchanged"); ' % (k, j, v, id_, v)
        for j, e in enumerate(decs): H += '__CPROVER_assert((uint64_t)(%s) < vf_d_%d_%d, "DEC %s terminates"); ' % (e, k, j, id_)
        if not get('noframe'):
            allow = ' || '.join(['vf_fr_in(vf_fr_%d, vf_m_%d_%d, vf_n_%d_%d)' % (k, k, j, k, j) for j in range(len(mems))] or ['0'])
            for r in hv:
                allow += ' || vf_fr_in(vf_fr_%d, &(%s), sizeof(%s))' % (k, r, r)
            H += '__CPROVER_assert(!vf_fr_%d.on || (%s) || *vf_fr_%d.p == vf_fr_%d.v, "FRAME %s nothing else written"); ' % (k, allow, k, k, id_)
        H += '__CPROVER_assume(0); } '
        inner = loop['inner']
        reach = '' if get('noreach') else ' __CPROVER_assert(0, "VF_REACH loop %s body"); ' % id_
        if loop['kind'] == 'DoStmt':
            body = inner[0]
            bb, be = rng(body)
            if body.get('kind') != 'CompoundStmt': raise Fit('do body is not a block')
            ins(lb, D); ins(bb + 1, H + reach)
            e = text.index(';', rng(loop)[1] - 1) + 1
            ins(e, ' }', -k)
        else:
            if loop['kind'] == 'WhileStmt':
                cond, body = inner[-2], inner[-1]
            else:
                cond, body = inner[2], inner[4]
            ins(lb, D)
            if cond.get('kind'):
                cb, ce = rng(cond)
                ins(cb, '({ ' + H + ' 1; }) && (', 1); ins(ce, ')', -1)
            else:
                # for (a; ; b)
                init = inner[0]
                if init.get('kind'):
                    e = rng(init)[1]
                    semi = e - 1 if text[e-1] == ';' else text.index(';', e)
                else:
                    semi = text.index(';', lb)
                ins(semi + 1, '({ ' + H + ' 1; })')
            bb, be = rng(body)
            if body.get('kind') == 'CompoundStmt':
                ins(bb + 1, reach); e = be
            elif body.get('kind') == 'NullStmt':
                e = stmt_end(text, body)
            else:
                e = stmt_end(text, body)
                ins(bb, '{ ' + reach, -5); ins(e, ' }', 50)
            ins(e, ' }', 100 - k)
        meta['loops'].append({'loop': id_, 'invariants': len(invs), 'steps': len(steps), 'havoc': hv + list(ptrs)})
    for f in opaque:
        fn = ast(f)
        b, _ = rng(fn)
        body = [x for x in fn['inner'] if x.get('kind') == 'CompoundStmt'][0]
        o = off(fn['loc'])
        proto = re.sub(r'(?m)^#.*$', '', text[b:rng(body)[0]]).strip()
        ins(b, proto + '; ', -1)
        ins(o, f + '__real', 0, len(f))
    edits.sort(key=lambda e: (e[0], e[1]))
    out, pos = [], 0
    for o, _, rm, s in edits:
        out.append(text[pos:o]); out.append(s); pos = o + rm
    out.append(text[pos:])
    res = ''.join(out)
    for f in opaque:
        res = re.sub(r'\b%s__stub\b' % re.escape(f), f, res)
    open(dst, 'w', encoding='latin-1' if text != raw and any(ord(ch) > 127 for ch in text) else 'utf-8').write(res)
    os.unlink(tmp)
    return meta

if __name__ == '__main__':
    import sys
    print(json.dumps(inject(sys.argv[1], sys.argv[2]), indent=1))
