"""Driver: proves the contracts of one property's units on /repo's current
sources with CBMC's code contracts, and replays what fails on the real code."""
import threading
import json, os, re, resource, shutil, subprocess, sys, tempfile, time, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
SRC = REPO + '/src'
INC = ['-I' + VERIF + '/lib', '-I' + VERIF + '/h', '-I' + SRC]
BASE = ['-std=c99', '-D_XOPEN_SOURCE=700', '-D_DEFAULT_SOURCE', '-w',
        '-DCC1_IMPL_FNAME="x86_64.h"']
MEM = 10 << 30
SAT = []
KISSAT = ['--external-sat-solver', 'kissat']
Z3 = ['--z3', '--slice-formula']


class U:
    def __init__(self, name, h, fn=None, **k):
        self.name, self.h, self.fn = name, h, fn
        self.replace = k.pop('replace', [])
        self.link = k.pop('link', [])
        self.drop = k.pop('drop', [])          # bodies removed from linked files
        self.defs = k.pop('defs', [])
        self.unwind = k.pop('unwind', 70)
        self.unwindset = k.pop('unwindset', [])
        self.checks = k.pop('checks', ['pointer', 'bounds', 'div-by-zero'])
        self.solver = k.pop('solver', [])
        self.loops = k.pop('loops', False)     # --apply-loop-contracts
        self.inject = k.pop('inject', [])      # loop contracts put into a copy of the source
        self.fallback_unwind = k.pop('fallback_unwind', 12)
        self.fallback_defs = k.pop('fallback_defs', [])
        self.timeout = k.pop('timeout', 120)
        self.timeout2 = k.pop('timeout2', 60)
        self.bounded = k.pop('bounded', None)  # text: why this is not a proof
        self.prog = k.pop('prog', 'cc1')       # whose objects the replay links
        self.objbits = k.pop('objbits', 10)
        self.thorough = k.pop('thorough', None)  # dict of overrides
        self.only = k.pop('only', None)        # 'thorough': skipped in the quick tier
        self.random = k.pop('random', True)
        self.nocontract = k.pop('nocontract', False)
        self.functions = k.pop('functions', None)  # functions of /repo this unit puts under contract
        self.trusted = k.pop('trusted', [])
        self.mallocfail = k.pop('mallocfail', False)
        self.plain = k.pop('plain', False)     # contract as assume/assert around the body, no dfcc
        if self.plain:
            self.nocontract = True
            self.defs = self.defs + ['VF_PLAIN']
        self.randn = k.pop('randn', 2000000)
        assert not k, k


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    os.setsid()


def run(cmd, timeout, cwd):
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd,
                         preexec_fn=limits, text=True, errors='replace')
    try:
        out, err = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        rc = -99
    return rc, out, err, time.time() - t


class Undecided(Exception):
    pass


class Missing(Exception):
    pass


# ------------------------------------------------------------------ loop contracts

def find_function(text, name):
    """(start of body '{', end) of the definition of `name`"""
    for m in re.finditer(r'(?m)^[A-Za-z_][^;{}#]*?\b' + re.escape(name) + r'\s*\(', text):
        i = m.end() - 1
        d = 0
        while i < len(text):
            if text[i] == '(':
                d += 1
            elif text[i] == ')':
                d -= 1
                if d == 0:
                    break
            i += 1
        j = i + 1
        rest = text[j:]
        mm = re.match(r'(?:\s|ucc_\w+(?:\([^)]*\))?|/\*.*?\*/)*\{', rest, re.S)
        if not mm:
            continue
        b = j + mm.end() - 1
        return b, match_brace(text, b)
    return None


def skip_token(text, i):
    """past a comment/string/char at i, or i"""
    if text.startswith('/*', i):
        return text.index('*/', i) + 2
    if text.startswith('//', i):
        k = text.find('\n', i)
        return len(text) if k < 0 else k
    if text[i] in '"\'':
        q = text[i]
        j = i + 1
        while text[j] != q:
            j += 2 if text[j] == '\\' else 1
        return j + 1
    return i


def match_brace(text, b, o='{', c='}'):
    d = 0
    i = b
    while i < len(text):
        k = skip_token(text, i)
        if k != i:
            i = k
            continue
        if text[i] == o:
            d += 1
        elif text[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise ValueError('unbalanced')


def loop_headers(text, b, e):
    """positions just after the header of each for/while loop of a body, in order"""
    res = []
    i = b
    while i < e:
        k = skip_token(text, i)
        if k != i:
            i = k
            continue
        m = re.compile(r'\b(for|while)\s*\(').match(text, i)
        if m and not re.match(r'\w', text[i - 1]):
            close = match_brace(text, m.end() - 1, '(', ')')
            nxt = re.compile(r'\s*').match(text, close).end()
            if m.group(1) == 'while' and text[nxt] == ';' and re.search(r'\}\s*$', text[b:i]):
                pass  # do-while tail
            else:
                res.append((i, close))
            i = m.end()
            continue
        i += 1
    return res


def inject(text, specs):
    """specs: [(function, loop index, clauses)] -> text with the clauses after
    the loop headers. Adds specification only; no executable text changes."""
    ins = []
    for fn, idx, clauses in specs:
        r = find_function(text, fn)
        if r is None:
            raise Undecided('no definition of %s to annotate' % fn)
        hs = loop_headers(text, *r)
        if idx >= len(hs):
            raise Undecided('no loop %d in %s' % (idx, fn))
        ins.append((hs[idx][1], '\n' + clauses.strip() + '\n'))
    for pos, s in sorted(ins, reverse=True):
        text = text[:pos] + s + text[pos:]
    return text


# ------------------------------------------------------------------ one unit

class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix='vf-%s-' % prop)
        self.native_objs = {}
        self.cache = {}
        self.lock = threading.Lock()

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)

    def cc(self, src, out, defs, d, extra=(), u=None):
        if u is not None and u.prog == 'cc1':
            extra = ['-include', VERIF + '/lib/all_cc1.h'] + list(extra)
        rc, o, e, t = run(['goto-cc'] + list(extra) + INC + BASE + ['-DVF_CBMC'] + defs +
                          ['-I' + os.path.dirname(src), '-c', src, '-o', out], 120, d)
        if rc or not os.path.exists(out):
            raise Undecided('goto-cc %s: %s' % (os.path.basename(src), (e + o)[-600:]))

    def cached(self, l, u):
        key = (l, u.prog, tuple(u.drop))
        with self.lock:
            lk = self.cache.setdefault(key, [threading.Lock(), None])
        with lk[0]:
            if lk[1] is None:
                d = tempfile.mkdtemp(prefix='obj', dir=self.tmp)
                o = os.path.join(d, 'o.gb')
                self.cc(SRC + '/' + l, o, [], d, ['-I' + SRC + '/' + os.path.dirname(l)], u)
                for f in u.drop:
                    run(['goto-instrument', '--remove-function-body', f, o, o], 60, d)
                lk[1] = o
        return lk[1]

    def build(self, u, d, with_inject):
        defs = ['-D' + x for x in u.defs]
        extra = []
        if with_inject and u.inject:
            # annotated copies, found first on the include path
            over = os.path.join(d, 'over')
            for path, specs in u.inject:
                t = open(SRC + '/' + path).read()
                p = os.path.join(over, path)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                # local includes of the copy resolve to the real directory
                open(p, 'w').write('#line 1 "%s/%s"\n' % (SRC, path) + inject(t, specs))
            extra = ['-I' + over] + ['-I' + os.path.join(SRC, os.path.dirname(p)) for p, _ in u.inject]
            defs.append('-DVF_LOOPS')
        elif u.inject:
            defs += ['-D' + x for x in u.fallback_defs]
        objs = []
        h = VERIF + '/h/' + u.h
        o = os.path.join(d, 'h.gb')
        self.cc(h, o, defs, d, extra, u)
        objs.append(o)
        self.cc(VERIF + '/lib/vf_rt.c', os.path.join(d, 'rt.gb'), [], d)
        objs.append(os.path.join(d, 'rt.gb'))
        for i, l in enumerate(u.link):
            s = SRC + '/' + l
            o = os.path.join(d, 'l%d.gb' % i)
            if with_inject and u.inject and os.path.exists(os.path.join(d, 'over', l)):
                s = os.path.join(d, 'over', l)
            if s == SRC + '/' + l:
                o = self.cached(l, u)
            else:
                self.cc(s, o, [], d, ['-I' + SRC + '/' + os.path.dirname(l)], u)
                for f in u.drop:
                    run(['goto-instrument', '--remove-function-body', f, o, o], 60, d)
            objs.append(o)
        for i, l in enumerate(getattr(u, 'autolinked', [])):
            objs.append(self.cached(l, u))
        a = os.path.join(d, 'a.gb')
        rc, o, e, t = run(['goto-cc', '--function', 'harness'] + objs + ['-o', a], 120, d)
        if rc:
            raise Undecided('link: ' + (e + o)[-600:])
        b = os.path.join(d, 'b.gb')
        rc, o, e, t = run(['goto-instrument', '--drop-unused-functions', a, b], 120, d)
        if rc:
            raise Undecided('drop-unused: ' + (e + o)[-600:])
        return b

    # a function of /repo that the current code calls but the unit's link list
    # does not define (a helper extracted into another file, say)
    def resolve(self, u, names):
        add = []
        for f in names:
            for x in {'cc1': ['cc1', 'cc1/ops', 'cc1/out', 'util'], 'cpp2': ['cpp2', 'util'], 'ucc': ['ucc', 'util'], 'util': ['util']}[u.prog]:
                for fn in sorted(os.listdir(SRC + '/' + x)):
                    p = x + '/' + fn
                    if fn.endswith('.c') and p not in u.link and fn not in ('test.c', 'mipsel_32.c'):
                        t = open(SRC + '/' + p, errors='replace').read()
                        if f in t and find_function(t, f) and p not in add:
                            add.append(p)
                            break
        return add

    def instrument(self, u, b, d, loops):
        c = os.path.join(d, 'c.gb')
        cmd = ['goto-instrument', '--dfcc', 'harness']
        if u.fn:
            cmd += ['--enforce-contract', u.fn]
        for r in u.replace:
            cmd += ['--replace-call-with-contract', r]
        if loops:
            cmd += ['--apply-loop-contracts']
        if u.nocontract and loops:
            b1 = os.path.join(d, 'b1.gb')
            rc, o, e, t = run(['goto-instrument', '--apply-loop-contracts', b, b1], 300, d)
            if rc or not os.path.exists(b1):
                raise Undecided('loop contracts: ' + (e + o)[-900:])
            b = b1
        if u.nocontract:
            # a call to a function without a body must fail, not havoc
            rc, o, e, t = run(['goto-instrument', '--add-library', '--generate-function-body', '(?!(nondet_|__CPROVER|__builtin)).*',
                               '--generate-function-body-options', 'assert-false-assume-false', b, c], 120, d)
            if rc or not os.path.exists(c):
                raise Undecided('generate-function-body: ' + (e + o)[-900:])
            return c, 'cbmc (contract as assume/assert around the body, callees by contract stand-ins)'
        rc, o, e, t = run(cmd + [b, c], 300, d)
        if rc or not os.path.exists(c):
            raise Undecided('dfcc: ' + (e + o)[-900:])
        return c, ' '.join(cmd)

    def cbmc(self, u, c, d, extra=(), unwind=None, json_ui=True, timeout=None, solver=None):
        cmd = ['cbmc', c, '--function', 'harness'] if u.nocontract else ['cbmc', c]
        cmd += ['--no-standard-checks', '--unwinding-assertions', '--object-bits', str(u.objbits)]
        for k in u.checks:
            cmd.append('--%s-check' % k)
        cmd += ['--unwind', str(unwind or u.unwind)]
        if u.unwindset and unwind is None:
            cmd += ['--unwindset', ','.join(u.unwindset)]
        cmd += list(u.solver if solver is None else solver)
        cmd += list(extra)
        if json_ui:
            cmd.append('--json-ui')
        rc, o, e, t = run(cmd, timeout or u.timeout, d)
        return rc, o, e, t, cmd

    @staticmethod
    def parse(out):
        if not out.lstrip().startswith('['):
            # the text report: '[name] line N description: STATUS'
            if '** Results:' not in out:
                return None
            res = []
            for m in re.finditer(r'(?m)^\[([^\]\n]+)\] (?:line \d+ |file \S+ line \d+ )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$', out[out.index('** Results:'):]):
                res.append(dict(property=m.group(1), description=m.group(2), status=m.group(3)))
            m = re.search(r'\*\* (\d+) of (\d+) failed', out)
            if not m or int(m.group(2)) != len(res):
                return None
            return res
        try:
            j = json.loads(out)
        except ValueError:
            return None
        for m in j:
            if 'result' in m:
                return m['result']
        return None

    def prove(self, u):
        """-> dict(status, ...)"""
        d = os.path.join(self.tmp, u.name)
        os.makedirs(d)
        r = dict(unit=u.name, fn=u.fn, replace=u.replace, bounded=u.bounded)
        t0 = time.time()
        loops = u.loops or bool(u.inject)
        try:
            try:
                r.update(self.attempt(u, d, loops, bool(u.inject), None))
                if r['status'] in ('structural', 'unwind', 'undecided') and u.inject:
                    raise Undecided('loop contract: ' + str(r.get('failed'))[:300])
                if r['status'] == 'unwind':
                    # a rewritten loop may take more iterations
                    r.update(self.attempt(u, d, loops, False, u.unwind * 2 + 4))
            except Undecided as ex:
                if not u.inject:
                    raise
                # the loop contract no longer fits the loop: decide without it, bounded
                d2 = os.path.join(self.tmp, u.name + '.fb')
                os.makedirs(d2, exist_ok=True)
                r.update(self.attempt(u, d2, False, False, u.fallback_unwind))
                r['bounded'] = 'loop contract not applicable to the current text (%s); unwound %d times' % (
                    str(ex)[:200], u.fallback_unwind)
                if r['status'] == 'unwind':
                    r['status'] = 'undecided'
                    r['why'] = 'unwinding bound'
            if r['status'] == 'failed':
                self.confirm(u, r)
        except Undecided as ex:
            r['status'] = 'undecided'
            r['why'] = str(ex)
        if r['status'] in ('undecided', 'unwind', 'structural'):
            self.standin(u, r)
        r['wall'] = round(time.time() - t0, 2)
        if os.environ.get('VF_V'):
            print('..', r['status'], u.name, r.get('solver_s'), r.get('failed', '')[:3], r.get('why', ''), flush=True)
        return r

    def standin(self, u, r):
        """the verifier gave no answer on the current text: evaluate the same
        contract on the real code with random inputs (bounded, never a proof)"""
        r.setdefault('why', r['status'])
        exe, err = self.native(u)
        if not exe or not u.random:
            r['standin'] = 'none: ' + (err or '')[-300:]
            r['status'] = 'undecided'
            return
        rc, o, e, t = run([exe, '--random', str(u.randn), str(self.seed + 1)], 120, self.tmp)
        if rc == 1 and 'REPLAY VIOLATED' in o:
            r['status'], r['confirmed'], r['confirm_out'] = 'failed', True, o
            r['failed'] = [('contract of ' + str(u.fn), o.strip()[-300:], 'FAILURE')]
            r['replay'] = [dict(obligation='bounded stand-in', rc=rc, out=o[-1500:])]
        elif rc == 0 and (int(o.split()[1]) if o.startswith('RANDOM') else 0) > 1000:
            r['status'] = 'standin'
            r['bounded'] = 'the verifier gave no answer (%s); contract evaluated on the real code: %s' % (r['why'][:200], o.strip()[-200:])
        else:
            r['status'] = 'undecided'
            r['standin'] = (o + e)[-300:]

    def attempt(self, u, d, loops, with_inject, unwind):
        for n in range(3):
            try:
                return self.attempt1(u, d, loops, with_inject, unwind)
            except Missing as ex:
                add = [x for x in self.resolve(u, ex.args[0]) if x not in getattr(u, 'autolinked', [])]
                if not add or n == 2:
                    raise Undecided('calls outside the verified files: ' + ', '.join(ex.args[0]))
                u.autolinked = getattr(u, 'autolinked', []) + add

    def attempt1(self, u, d, loops, with_inject, unwind):
        b = self.build(u, d, with_inject)
        c, icmd = self.instrument(u, b, d, loops)
        alts = [u.solver] + [x for x in (SAT, KISSAT) if x != u.solver]
        for i, solver in enumerate(alts):
            rc, o, e, t, cmd = self.cbmc(u, c, d, unwind=unwind, json_ui=False, solver=solver, timeout=u.timeout if i == 0 else u.timeout2)
            res = self.parse(o)
            if rc != -99 and res is not None:
                break
        if rc == -99:
            raise Undecided('solver timeout')
        if res is None:
            raise Undecided('cbmc: no result (rc %s): %s' % (rc, (o[-700:] + e[-300:])))
        out = dict(goto=c, dir=d, solver_s=round(t, 2), cmd=icmd + ' ; ' + ' '.join(cmd), unwind_used=unwind or u.unwind)
        covers = [x for x in res if 'VFCOVER' in x.get('description', '')]
        obl = [x for x in res if 'VFCOVER' not in x.get('description', '')]
        out['covers'] = len(covers)
        out['covered'] = sum(x['status'] == 'FAILURE' for x in covers)
        out['vacuous'] = [x['description'] for x in covers if x['status'] != 'FAILURE']
        out['obligations'] = len(obl)
        out['named'] = [x['property'] + ': ' + x['description'] for x in obl
                        if re.search(r'postcondition|VFSPEC|precondition|loop_invariant|loop_decreases|\.assigns|assertion', x['property'] + x['description'])
                        and '__CPROVER_contracts' not in x['property']][:40]
        bad = [x for x in obl if x['status'] != 'SUCCESS']
        out['discharged'] = len(obl) - len(bad)
        out['failed'] = [(x['property'], x['description'], x['status']) for x in bad]
        if not obl:
            raise Undecided('no obligations generated')
        if not bad:
            if out['vacuous']:
                out['status'] = 'undecided'
                out['why'] = 'vacuous: ' + '; '.join(out['vacuous'])
            else:
                out['status'] = 'proved'
            return out
        names = [p + ' ' + ds for p, ds, _ in out['failed']]
        if any('undefined function should be unreachable' in n for n in names):
            raise Missing([n.split('.')[0] for n in names if 'undefined function' in n])
        unw = [n for n in names if 'unwinding assertion' in n or '.unwind.' in n or 'recursion' in n]
        struct = [n for n in names if re.search(r'loop_(invariant|decreases|assigns|step)|loop invariant|decreases clause|is assignable|side effect|\.assigns\.', n)]
        rest = [n for n in names if n not in unw and n not in struct]
        if rest:
            out['status'] = 'failed'
        elif unw:
            out['status'] = 'unwind'
        elif loops:
            out['status'] = 'structural'
        else:
            out['status'] = 'failed'
        return out

    # -------------------------------------------------------------- replay

    def native(self, u):
        key = u.name
        if key in self.native_objs:
            return self.native_objs[key]
        d = os.path.join(self.tmp, 'native-' + u.name)
        os.makedirs(d, exist_ok=True)
        dirs = {'cc1': ['cc1', 'cc1/ops', 'cc1/out', 'util'], 'cpp2': ['cpp2', 'util'], 'ucc': ['ucc', 'util'], 'util': ['util']}[u.prog]
        files = []
        for x in dirs:
            for f in sorted(os.listdir(SRC + '/' + x)):
                if f.endswith('.c') and f not in ('test.c', 'mipsel_32.c', 'dummy.c', 'vm.c', 'gen_c.c') and not f.startswith('test_'):
                    files.append(x + '/' + f)
        cf = ['-std=c99', '-w', '-g', '-D_XOPEN_SOURCE=700', '-D_DEFAULT_SOURCE', '-DCC1_IMPL_FNAME="x86_64.h"']

        def one(f):
            o = os.path.join(d, f.replace('/', '_')[:-2] + '.o')
            rc, out, e, t = run(['gcc'] + cf + INC + ['-c', SRC + '/' + f, '-o', o], 120, d)
            return o if rc == 0 else None
        with ThreadPoolExecutor(8) as ex:
            objs = [o for o in ex.map(one, files) if o]
        exe = os.path.join(d, 'replay')
        rc, o, e, t = run(['gcc'] + cf + ['-DVF_NATIVE'] + ['-D' + x for x in u.defs] + INC +
                          ['-I' + SRC + '/' + (os.path.dirname(u.link[0]) if u.link else 'cc1'),
                           VERIF + '/h/' + u.h, VERIF + '/lib/vf_rt.c'] + objs +
                          ['-Wl,--allow-multiple-definition', '-Wl,--unresolved-symbols=ignore-all', '-Wl,-z,muldefs', '-lm', '-o', exe], 120, d)
        if rc:
            self.native_objs[key] = (None, e[-800:])
        else:
            self.native_objs[key] = (exe, '')
        return self.native_objs[key]

    def trace_inputs(self, u, r, prop):
        rc, o, e, t, cmd = self.cbmc(u, r['goto'], r['dir'], extra=['--property', prop, '--trace'],
                                     unwind=r['unwind_used'], timeout=min(u.timeout, 100),
                                     solver=[x for x in u.solver if x != '--slice-formula'])
        res = self.parse(o)
        if not res:
            return None
        vals = {}
        for x in res:
            if x.get('property') != prop or 'trace' not in x:
                continue
            for s in x['trace']:
                if s.get('stepType') != 'assignment':
                    continue
                m = re.match(r'^VF_IN\[(\d+)[lLuU]*\]$', s.get('lhs', ''))
                if m:
                    v = s['value']
                    if 'binary' in v:
                        vals[int(m.group(1))] = int(v['binary'], 2)
                    elif 'data' in v:
                        vals[int(m.group(1))] = int(re.sub(r'[a-zA-Z]+$', '', v['data']))
        if not vals:
            return []
        return [vals.get(i, 0) for i in range(max(vals) + 1)]

    def confirm(self, u, r):
        r['replay'] = []
        r['confirmed'] = False
        exe, err = self.native(u)
        if not exe:
            r['replay_error'] = err
            return
        seen = set()
        order = sorted(r['failed'], key=lambda f: 0 if re.search('postcondition|VFSPEC', f[0] + f[1]) else 1)
        for prop, desc, st in order[:5]:
            vals = self.trace_inputs(u, r, prop)
            if vals is None:
                continue
            key = tuple(vals)
            if key in seen:
                continue
            seen.add(key)
            rc, o, e, t = run([exe] + [str(v) for v in vals], 60, self.tmp)
            r['replay'].append(dict(obligation=prop + ': ' + desc, inputs=vals, rc=rc, out=(o + e)[-1500:]))
            if rc == 1 and 'REPLAY VIOLATED' in o:
                r['confirmed'] = True
                r['confirm_out'] = o
                return
            if rc == -99:
                r['confirmed'] = True
                r['confirm_out'] = 'the real code does not end on these inputs within 60 s'
                return
        if u.random:
            rc, o, e, t = run([exe, '--random', '400000', str(self.seed + 1)], 60, self.tmp)
            r['replay'].append(dict(obligation='search by random inputs', rc=rc, out=(o + e)[-1500:]))
            if rc == 1 and 'REPLAY VIOLATED' in o:
                r['confirmed'] = True
                r['confirm_out'] = o


# ------------------------------------------------------------------ a property

def known_findings(prop):
    p = VERIF + '/known_findings.txt'
    res = []
    if os.path.exists(p):
        for l in open(p):
            # open: property=ID unit=NAME [obligation]... :: what fails
            m = re.match(r'open: property=(\S+) unit=(\S+) (.*) :: (.*)', l)
            if m and m.group(1) == prop:
                res.append((m.group(2), re.findall(r'\[(.*?)\]', m.group(3)), m.group(4).strip()))
    return res


def check(prop, units, tier, seed, assumptions=(), trusted=(), jobs=8, verbose=False):
    t0 = time.time()
    R = Runner(prop, tier, seed)
    todo = []
    for u in units:
        if u.only == 'thorough' and tier != 'thorough':
            continue
        if tier == 'thorough' and u.thorough:
            for k, v in u.thorough.items():
                setattr(u, k, v)
        todo.append(u)
    try:
        with ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(R.prove, todo))
        return report(prop, todo, rs, tier, seed, assumptions, trusted, t0, verbose)
    finally:
        R.close()


def report(prop, units, rs, tier, seed, assumptions, trusted, t0, verbose):
    evd = os.environ.get('VF_EVID') or VERIF + '/evidence'
    os.makedirs(evd + '/replay', exist_ok=True)
    viol, undec = [], []
    proved = [r for r in rs if r['status'] == 'proved' and not r.get('bounded')]
    bounded = [r for r in rs if r['status'] in ('proved', 'standin') and r.get('bounded')]
    known = []
    for r in rs:
        if r['status'] == 'failed':
            # a listed finding: this unit, and no other obligation of it
            k = [w for n, obs, w in known_findings(prop) if n == r['unit'] and r.get('failed')
                 and all(any(o in f[1] for o in obs) for f in r['failed'])]
            if k:
                r['status'] = 'known-finding'
                known += k
                continue
            path = '%s/replay/%s-%s.json' % (evd, prop, r['unit'])
            json.dump({k: v for k, v in r.items() if k not in ('goto', 'dir')}, open(path, 'w'), indent=1)
            viol.append((r, path))
        elif r['status'] not in ('proved', 'standin', 'known-finding'):
            undec.append(r)
    tb = list(trusted)
    for u in units:
        for t in u.trusted:
            if t not in tb:
                tb.append(t)
    tb = ["CBMC 6.11 (goto-cc front end, dfcc contract instrumentation, bit-blasting, bundled SAT solver)",
          "gcc's predefined x86-64 type model as goto-cc reads it (LP64)",
          "stand-ins of the diagnostics functions (lib/diag.h): a fatal error ends the path"] + tb
    obl = sum(r.get('obligations', 1) for r in [x for x in rs if not (x['status'] == 'proved' and x.get('bounded'))])
    dis = sum(r.get('discharged', 0) for r in proved)
    cov = dict(
        obligations=obl, discharged=dis,
        checker_cmd='goto-cc; goto-instrument --dfcc harness --enforce-contract F [--replace-call-with-contract G]; cbmc --unwinding-assertions (per unit, see units[].cmd)',
        trusted_base=tb,
        functions_under_contract=sorted({f for u, r in zip(units, rs) if r['status'] == 'proved' and not r.get('bounded')
                                         for f in (u.functions or [u.fn]) if f}),
        functions_bounded=sorted({f for u, r in zip(units, rs) if r['status'] == 'proved' and r.get('bounded')
                                  for f in (u.functions or [u.fn]) if f}),
        bounded_units=[dict(unit=r['unit'], bound=r['bounded'], obligations=r.get('obligations'), discharged=r.get('discharged')) for r in bounded],
        solver_seconds=round(sum(r.get('solver_s', 0) for r in rs), 1),
        backend='CBMC SAT back end unless a unit names another',
        reachability_covers=sum(r.get('covers', 0) for r in rs), covers_reached=sum(r.get('covered', 0) for r in rs),
        units=[dict(unit=r['unit'], function=r['fn'], replaced_by_contract=r['replace'], status=r['status'],
                    bounded=r.get('bounded'), obligations=r.get('obligations'), discharged=r.get('discharged'),
                    named_obligations=r.get('named', [])[:12], solver_s=r.get('solver_s'), cmd=r.get('cmd'), why=r.get('why')) for r in rs])
    ev = dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov,
              assumptions=list(assumptions), wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open('%s/%s.json' % (evd, prop), 'w'), indent=1)
    for r in rs:
        line = '%-8s %-10s %-28s obligations %s/%s covers %s/%s solver %ss wall %ss' % (
            prop, r['status'] + (' (bounded)' if r.get('bounded') else ''), r['unit'], r.get('discharged'), r.get('obligations'),
            r.get('covered'), r.get('covers'), r.get('solver_s'), r.get('wall'))
        print(line)
        if r['status'] != 'proved':
            for f in r.get('failed', [])[:8]:
                print('   failed:', f)
            if r.get('why'):
                print('   why:', r['why'][:1500])
            for x in r.get('replay', []):
                print('   replay:', x['rc'], x.get('inputs'), x['out'].strip()[-300:])
            if r.get('replay_error'):
                print('   replay_error:', r['replay_error'])
    for what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    if viol:
        conf = [v for v in viol if v[0].get('confirmed')]
        r, path = (conf or viol)[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if conf else ' no-failing-input-found'))
        return 1
    if undec:
        # not proved and not counted; the rest of the property was decided
        print('UNDECIDED: %s' % ', '.join(r['unit'] for r in undec))
        if len(undec) == len(rs):
            return 2
    return 0
