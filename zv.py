#!/usr/bin/env python3
"""
Driver: decides one property by discharging, on /repo's current sources, the
proof obligations of the units that carry it.

  zv.py check <property> [quick|thorough]     run the check of a property
  zv.py unit <unit> [-v]                      run one unit, print everything
  zv.py setup                                 self-test of the tool chain
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, resource, threading
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('ZV_REPO', '/repo')
sys.path.insert(0, HERE)
from units import UNITS, PROPS, ASSUMPTIONS

BASE_FLAGS = ['--no-standard-checks', *os.environ.get('ZV_FLAGS','').split(), '--no-malloc-may-fail', '--unwinding-assertions']
MEM = 8 << 30

class Inconclusive(Exception):
    pass

def sh(cmd, cwd, timeout, mem=MEM):
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    try:
        p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           preexec_fn=lim, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        raise Inconclusive('timeout after %ds: %s' % (timeout, ' '.join(cmd)[:200]))
    return p

def gen_shadow(work):
    """typed stand-ins of the structs that end with a flexible array"""
    s = open(REPO + '/libzdb/index.h').read()
    out = '/* generated from libzdb/index.h: same layout, room for the id */\n'
    for t in ('index_entry_t', 'index_item_t'):
        m = re.search(r'typedef struct %s \{.*?\n    \}[^\n;]*%s;' % (t, t), s, re.S)
        if not m or 'id[];' not in m.group(0):
            raise Inconclusive('struct %s not found in libzdb/index.h' % t)
        b = m.group(0).replace('id[];', 'id[256];').replace('struct %s *next' % t, 'struct index_entry_t *next')
        b = b.replace('typedef struct %s {' % t, 'typedef struct zvs_%s {' % t)
        out += re.sub(r'%s;$' % t, 'zvs_%s;' % t, b) + '\n'
    open(os.path.join(work, 'shadow.h'), 'w').write(out)

def tables(gb, work):
    """static tables of the program (pointer arrays and struct arrays with an
    initializer): dfcc starts from arbitrary statics, these keep their value"""
    p = sh(['goto-instrument', '--show-goto-functions', gb], work, 300)
    names, on = [], False
    for line in p.stdout.splitlines():
        if '/* __CPROVER_initialize */' in line:
            on = True
        elif on and line.startswith('^'):
            break
        elif on:
            m = re.match(r'\s+(?:\d+: )?ASSIGN ([A-Za-z_0-9:]+) := \{ (.*)$', line)
            if m and 'address_of' in m.group(2):
                names.append(m.group(1))
    return names

def build(u, name, work):
    gen_shadow(work)
    src = [os.path.join(HERE, 'units', u['src'])]
    env = [os.path.join(HERE, 'env', e) for e in u['env']]
    real = [os.path.join(REPO, r) for r in u['real']]
    inc = ['-I' + work, '-I' + REPO + '/libzdb', '-I' + REPO + '/zdbd', '-I' + HERE + '/env', '-I' + HERE + '/units']
    defs = ['-D' + d for d in u.get('defs', [])]
    cmd = ['goto-cc', '-o', 'a.gb', '--function', 'harness', '-include', HERE + '/env/zvmac.h'] + inc + defs + src + env + real
    p = sh(cmd, work, 300)
    if p.returncode:
        raise Inconclusive('goto-cc failed:\n' + (p.stdout + p.stderr)[-3000:])
    gb = 'a.gb'
    if u.get('remove'):
        c = ['goto-instrument']
        for f in u['remove']:
            c += ['--remove-function-body', f]
        p = sh(c + [gb, 'r.gb'], work, 300)
        gb = 'r.gb'
    if u.get('contract') or u.get('replace') or u.get('loops'):
        c = ['goto-instrument', '--dfcc', 'harness']
        if u.get('contract'):
            c += ['--enforce-contract', u['contract']]
        for r in u.get('replace', []):
            c += ['--replace-call-with-contract', r]
        if u.get('loops'):
            c += ['--apply-loop-contracts']
        for t in tables(gb, work):
            c += ['--nondet-static-exclude', t]
        p = sh(c + [gb, 'd.gb'], work, 300)
        if p.returncode:
            raise Inconclusive('goto-instrument failed:\n' + (p.stdout + p.stderr)[-3000:])
        gb = 'd.gb'
    return gb, [cmd]

SAFETY = ['--pointer-check', '--bounds-check', '--div-by-zero-check']

# A hard obligation is raced: the default solver first, others join later, the
# first answer counts.
RACE = [(0, []), (15, ['--sat-solver', 'cadical']), (60, ['NOSLICE'])]
LIVE = threading.BoundedSemaphore(4)    # extra racers at one time

def race(cmd, cwd, timeout, mem=MEM):
    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    t0, procs, nxt, held = time.time(), [], 0, 0
    try:
        while True:
            el = time.time() - t0
            if nxt < len(RACE) and el >= RACE[nxt][0]:
                if nxt == 0 or LIVE.acquire(blocking=False):
                    held += nxt > 0
                    var = RACE[nxt][1]
                    c = [x for x in cmd if x != '--slice-formula'] if var == ['NOSLICE'] else cmd + var
                    f = tempfile.TemporaryFile(dir=cwd)
                    procs.append((subprocess.Popen(c, cwd=cwd, stdout=f, stderr=subprocess.DEVNULL, preexec_fn=lim), f, c))
                    nxt += 1
            for (p, f, c) in procs:
                if p.poll() is not None and (p.returncode in (0, 10) or len(procs) == 1):
                    f.seek(0)
                    return f.read().decode(errors='replace'), p.returncode, c
            if procs and all(p.poll() is not None for p, _, _ in procs) and nxt >= len(RACE):
                f = procs[0][1]
                f.seek(0)
                return f.read().decode(errors='replace'), procs[0][0].returncode, procs[0][2]
            if el > timeout:
                raise Inconclusive('timeout after %ds: %s' % (timeout, ' '.join(cmd)[:200]))
            time.sleep(0.05 if el < 5 else 0.3)
    finally:
        for (p, f, c) in procs:
            if p.poll() is None:
                p.kill()
            p.wait()
            f.close()
        for _ in range(held):
            LIVE.release()

def cbmc(u, gb, work, bounds, extra, timeout, safety=False):
    us = ','.join('%s:%d' % kv for kv in sorted(bounds.items()))
    cmd = ['cbmc', gb] + BASE_FLAGS + (SAFETY if safety else []) + u.get('flags', []) + \
          ['--object-bits', str(u.get('objbits', 9)), '--unwind', str(u.get('unwind', 12))] + \
          (['--unwindset', us] if us else []) + extra + ['--json-ui', '--verbosity', '8']
    stdout, rc, cmd = race(cmd, work, timeout)
    try:
        out = json.loads(stdout)
    except ValueError:
        raise Inconclusive('cbmc gave no result (%d): %s' % (rc, stdout[-600:]))
    res = None
    msgs = []
    for o in out:
        if 'result' in o:
            res = o['result']
        if 'messageText' in o:
            msgs.append(o['messageText'])
    if res is None:
        if '--show-properties' in extra:
            return next(o['properties'] for o in out if 'properties' in o), 0, '', cmd
        raise Inconclusive('cbmc gave no result: ' + ' | '.join(msgs)[-800:])
    solver = sum(float(m.group(1)) for m in (re.match(r'Runtime Solver: ([0-9.]+)s', x) for x in msgs) if m)
    backend = next((x for x in msgs if x.startswith('Solving with')), '')
    return res, solver, backend, cmd

def loopname(prop):
    m = re.match(r'(.*)\.unwind\.(\d+)$', prop)
    return '%s.%s' % m.groups() if m else None

class Unit:
    """one unit being decided: built once, then solved in groups of obligations"""
    def __init__(self, name, verbose=False):
        self.name, self.u, self.verbose = name, UNITS[name], verbose
        self.work = tempfile.mkdtemp(prefix='zv-%s-' % name)
        self.bounds = dict(self.u.get('unwindset', {}))
        self.error, self.gb, self.groups = None, None, []
        self.res, self.solver, self.backend, self.cmd, self.wall = {}, 0.0, '', '', 0.0
        self.lock = threading.Lock()

    def prepare(self, want, rest_too=True):
        """build, and list the obligations grouped by solver run; want(description, property) selects"""
        t0 = time.time()
        try:
            self.gb, _ = build(self.u, self.name, self.work)
            safety = self.u.get('safety', False)
            props, _, _, _ = cbmc(self.u, self.gb, self.work, self.bounds, ['--show-properties'], 200, safety)
            rest, size = [], self.u.get('group', 1)
            mine = []
            for x in props:
                if tags_of(x.get('description', '')) is None:
                    rest.append(x['name'])
                elif want(x['description']):
                    mine.append(x['name'])
            self.groups = [mine[i:i + size] for i in range(0, len(mine), size)]
            if rest and rest_too and not self.u.get('notrest'):
                self.groups.append(rest)
            self.nmine = len(mine)
        except Inconclusive as e:
            self.error = str(e)
        self.wall += time.time() - t0
        return self

    def run(self, group):
        t0 = time.time()
        try:
            for attempt in range(7):
                with self.lock:
                    bounds = dict(self.bounds)
                extra = ['--slice-formula'] if not self.u.get('noslice') else []
                for g in group:
                    extra += ['--property', g]
                res, s, backend, cmd = cbmc(self.u, self.gb, self.work, bounds, extra, self.u.get('timeout', 700) - (time.time() - t0), self.u.get('safety', False))
                with self.lock:
                    self.solver += s
                    self.backend, self.cmd = backend, ' '.join(cmd)
                unw = [loopname(r['property']) for r in res if r['status'] != 'SUCCESS' and '.unwind.' in r['property']]
                if not unw:
                    break
                if self.verbose:
                    print('   unwinding further:', unw)
                with self.lock:
                    for l in unw:
                        self.bounds[l] = max(self.bounds.get(l, 0), min(1200, bounds.get(l, self.u.get('unwind', 12)) * 3))
            else:
                raise Inconclusive('loops not bounded: ' + ', '.join(unw))
            if any(r['status'] not in ('SUCCESS', 'FAILURE') for r in res):
                raise Inconclusive('undecided obligations')
            with self.lock:
                for r in res:
                    r['time'] = time.time() - t0
                    if '.unwind.' not in r['property'] or r['property'] not in self.res:
                        self.res[r['property']] = r
        except Inconclusive as e:
            with self.lock:
                self.error = (self.error or '') + str(e) + ' [' + ' '.join(group)[:200] + '] '
        with self.lock:
            self.wall += time.time() - t0

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)

def home_of(unit):
    return next((p for p in PROPS if unit in PROPS[p]['units']), None)

def run_units(names, want, verbose=False, prop=None, tier='thorough'):
    jobs = int(os.environ.get('ZV_JOBS', '8'))
    with ThreadPoolExecutor(jobs) as ex:
        # the obligations every property shares (callee preconditions, frames,
        # memory) are discharged with the first property that lists the unit,
        # and with every property in the thorough tier
        units = list(ex.map(lambda n: Unit(n, verbose).prepare(want, tier == 'thorough' or home_of(n) == prop), names))
        todo = [(u, g) for u in units if not u.error for g in u.groups]
        todo.sort(key=lambda t: -t[0].u.get('weight', 1))
        list(ex.map(lambda t: t[0].run(t[1]), todo))
    return units

def tags_of(desc):
    m = re.match(r'(?:cover: )?\[([A-Z0-9, ]+)\]', desc)
    return [t.strip() for t in m.group(1).split(',')] if m else None

def trace_of(r, prop):
    """nondeterministic inputs of the counterexample, in execution order"""
    try:
        res, _, _, _ = cbmc(r.u, r.gb, r.work, r.bounds, ['--trace', '--property', prop], r.u.get('timeout', 600), r.u.get('safety', False))
    except Inconclusive:
        return None, None
    for x in res:
        if x['property'] == prop and 'trace' in x:
            vals, text = [], []
            for st in x['trace']:
                if st.get('stepType') == 'assignment' and not st.get('hidden'):
                    loc = st.get('sourceLocation', {})
                    v = st.get('value', {})
                    text.append('%s:%s %s %s = %s' % (os.path.basename(loc.get('file', '')), loc.get('line', ''), loc.get('function', ''), st.get('lhs'), v.get('data')))
                if st.get('stepType') == 'assignment' and st.get('lhs') == 'zv_log':
                    v = st['value']
                    b = v.get('binary')
                    vals.append(int(b, 2) if b else int(re.sub('[a-z]*$', '', v.get('data', '0'))))
            return vals[1::2], text
    return None, None

def native_replay(u, vals, work):
    """runs the counterexample on the real code, compiled natively"""
    if u.get('noreplay'):
        return False, 'no native replay for this unit'
    real = [os.path.join(REPO, x) for x in u['real']]
    env = [os.path.join(HERE, 'env', e) for e in u['env'] if e not in ('stdio.c', 'mem.c', 'nd.c')]
    env += [os.path.join(HERE, 'env', e) for e in ('native.c', 'mem.c')]
    cmd = ['gcc', '-g', '-O0', '-w', '-D_GNU_SOURCE', '-DZV_NATIVE', '-fsanitize=address,undefined', '-fno-sanitize=alignment,pointer-overflow,shift,signed-integer-overflow',
           '-I' + work, '-I' + REPO + '/libzdb', '-I' + REPO + '/zdbd', '-I' + HERE + '/env', '-I' + HERE + '/units']
    cmd += ['-D' + d for d in u.get('defs', [])] + [os.path.join(HERE, 'units', u['src'])] + env + real + ['-o', 'native', '-lm'] + u.get('native_flags', [])
    if 'libzdb/crc32.c' not in u['real']:
        cmd.append(os.path.join(REPO, 'libzdb/crc32.c'))
    p = sh(cmd, work, 200, 1 << 46)
    miss = set(re.findall(r'undefined reference to `([A-Za-z_0-9]+)', p.stderr))
    if p.returncode and miss:
        # not reached by the unit: a call ends the replay
        with open(os.path.join(work, 'miss.c'), 'w') as f:
            f.write('void zv_native_assume(int, const char *);\n')
            for m in sorted(miss):
                f.write('int %s() { zv_native_assume(0, "%s is outside the unit"); return 0; }\n' % (m, m))
        p = sh(cmd + ['miss.c'], work, 200, 1 << 46)
    if p.returncode:
        return False, 'native build failed: ' + p.stderr[-1500:]
    tf = os.path.join(work, 'trace.txt')
    open(tf, 'w').write('\n'.join(str(v) for v in vals) + '\n')
    env_ = dict(os.environ, ZV_TRACE=tf, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=43', UBSAN_OPTIONS='halt_on_error=1:exitcode=43')
    try:
        q = subprocess.run(['./native'], cwd=work, env=env_, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, text=True, errors='replace')
    except subprocess.TimeoutExpired:
        return True, 'the real code does not terminate on this input'
    out = q.stderr[-4000:] + q.stdout[-3000:]
    return q.returncode in (42, 43) or q.returncode < 0, 'exit %d\n%s' % (q.returncode, out)

def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) unit=(\S+) obligation="([^"]*)" (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append(m.groups())
    return out

def check(prop, tier):
    t0 = time.time()
    spec = PROPS[prop]
    names = list(spec['units'])
    if tier == 'thorough':
        names += spec.get('thorough', [])
    units = run_units(names, lambda d: prop in tags_of(d), False, prop, tier)
    viol, errors, nob, ndis, known = [], [], 0, 0, []
    perunit, fns = [], []
    kf = known_findings(prop)
    for r in units:
        u = r.u
        if r.error:
            errors.append((r.name, r.error))
        n = d = c = b = 0
        for x in r.res.values():
            desc = x.get('description', '')
            tg = tags_of(desc)
            if tg is not None and prop not in tg:
                continue
            cover = desc.startswith('cover: ')
            ok = (x['status'] == 'FAILURE') if cover else (x['status'] == 'SUCCESS')
            if cover:
                c += 1
            else:
                n += 1
                d += ok
                if not ok:
                    k = [f for f in kf if f[1] == r.name and f[2] == desc]
                    if k:
                        known.append(k[0])
                        b += 1
                        continue
            if not ok:
                loc = x.get('sourceLocation', {})
                viol.append((r, x['property'], desc, '%s:%s %s' % (loc.get('file', '?'), loc.get('line', '?'), loc.get('function', '')), cover))
        if not r.error and not r.nmine:
            errors.append((r.name, 'no obligation of this property generated'))
        nob += n
        ndis += d
        fns += u.get('fns', [])
        perunit.append(dict(unit=r.name, obligations=n, discharged=d, known_findings=b, reachability_checks=c, solver_s=round(r.solver, 2),
                            cpu_s=round(r.wall, 2), backend=r.backend, functions=u.get('fns', []),
                            engine=('dfcc contract ' + u['contract']) if u.get('contract') else 'contract clauses on the inlined call',
                            bounds=u.get('bounded', 'none'), last_command=r.cmd))
    status = 0
    for f in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, f[3]))
    if viol:
        status = 1
        outdir = os.environ.get('ZV_REPLAYS', os.path.join(HERE, 'evidence', 'replays'))
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, '%s.txt' % prop)
        found = False
        with open(path, 'w') as f:
            f.write('property %s: obligations not discharged on %s\n\n' % (prop, REPO))
            for (r, pid, desc, loc, cover) in viol:
                f.write('unit %s obligation %s "%s" at %s%s\n' % (r.name, pid, desc, loc, ' (now unreachable)' if cover else ''))
            seen = 0
            for (r, pid, desc, loc, cover) in viol:
                if cover or seen >= 4 or time.time() - t0 > 600:
                    continue
                seen += 1
                vals, text = trace_of(r, pid)
                if vals is None:
                    continue
                ok, out = native_replay(r.u, vals, r.work)
                f.write('\n--- counterexample of %s "%s"\ninputs (in order of use): %s\n' % (pid, desc, vals))
                f.write('replayed on the compiled code: %s\n%s\n' % ('FAILS as predicted' if ok else 'not reproduced', out))
                f.write('\nverifier trace:\n' + '\n'.join((text or [])[-400:]) + '\n')
                if ok:
                    found = True
                    break
            f.write('\nverifier command: %s\n' % viol[0][0].cmd)
        for (r, pid, desc, loc, cover) in viol[:10]:
            print('failed obligation: unit %s: %s (%s)' % (r.name, desc, loc))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if found else ' no-failing-input-found'))
    elif errors:
        status = 2
    for n, e in errors:
        print('unit %s inconclusive: %s' % (n, e))
    for r in units:
        r.close()
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=spec.get('level', 'proof'),
              coverage=dict(obligations=nob, discharged=ndis, checker_cmd='python3 /verif/zv.py check %s %s' % (prop, tier),
                            trusted_base=spec.get('trusted', []) + ASSUMPTIONS,
                            functions_under_contract=sorted(set(fns)), units=perunit,
                            solver_s=round(sum(r.solver for r in units), 2), backend='cbmc 6.11.0, built-in SAT (MiniSat)',
                            explanation=spec.get('note', '')),
              wall_s=round(time.time() - t0, 2), assumptions=ASSUMPTIONS + spec.get('assumptions', []), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d obligations discharged in %d units, %.0fs' % (prop, tier, ndis, nob, len(perunit), time.time() - t0))
    return status

def main():
    if sys.argv[1] == 'check':
        sys.exit(check(sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else os.environ.get('VERIF_TIER', 'quick')))
    if sys.argv[1] == 'unit':
        only = [a[1:] for a in sys.argv[3:] if a.startswith('@')]
        t0 = time.time()
        for r in run_units(sys.argv[2].split(','), lambda d: not only or any(o in d for o in only), True):
            n = r.name
            if r.error:
                print(n, 'ERROR', r.error)
            bad = 0
            for x in r.res.values():
                desc = x.get('description', '')
                cover = desc.startswith('cover: ')
                if '-v' in sys.argv and tags_of(desc):
                    print('     %s %.0fs %s' % (x['status'], x['time'], desc))
                if (x['status'] == 'SUCCESS') == cover:
                    bad += 1
                    loc = x.get('sourceLocation', {})
                    print('  %s %s "%s" %s:%s' % (x['status'], x['property'], desc, loc.get('file'), loc.get('line')))
                    if '-t' in sys.argv or '-r' in sys.argv:
                        vals, text = trace_of(r, x['property'])
                        if text and '-t' in sys.argv:
                            print('\n'.join('      ' + t for t in text[-250:]))
                        if vals is not None and '-r' in sys.argv:
                            print('      inputs', vals)
                            print('     ', native_replay(r.u, vals, r.work)[1][:700])
            print('%s: %d obligations, %d bad, solver %.1fs cpu %.1fs total %.1fs' % (n, len(r.res), bad, r.solver, r.wall, time.time() - t0))
            r.close()
    if sys.argv[1] == 'setup':
        for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc'):
            if not shutil.which(t):
                sys.exit('missing ' + t)
        print('ready')

if __name__ == '__main__':
    main()
