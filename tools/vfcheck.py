#!/usr/bin/env python3
"""Runs the check of one property: compiles the harnesses against /repo's
current tree, decides their assertions symbolically, validates sampled paths
and replays counterexamples natively, and writes the evidence.

Usage: vfcheck.py PROPERTY [--keep] [--entry NAME]
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

sys.stdout.reconfigure(encoding='utf-8', errors='replace')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SYMEX = os.path.join(BUILD, 'symex')
CXX = 'clang++-20'
JOBS = int(os.environ.get('VF_JOBS', '8'))

BASE = ['-std=c++23', '-m64', '-msse4.1', '-include', 'cstdint', '-include', 'type_traits',
        '-include', 'concepts', '-fPIC', '-fbracket-depth=257', '-fdeclspec', '-fexceptions',
        '-ffp-contract=off', '-fno-omit-frame-pointer', '-fno-char8_t', '-w',
        '-DPROJECT_DIR=std::filesystem::path("ksp_plugin_adapter/")',
        '-DSOLUTION_DIR=std::filesystem::path("./")',
        '-DTEMP_DIR=std::filesystem::path("/tmp")',
        '-DPLATFORM_WITH_CPU_FEATURES="x64"', '-DNDEBUG',
        '-DPRINCIPIA_REQUIRES_AVX=0', '-DPRINCIPIA_REQUIRES_FMA=0']
BC = ['-O1', '-emit-llvm', '-c', '-g1', '-fno-vectorize', '-fno-slp-vectorize',
      '-fno-unroll-loops', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-threadsafe-statics',
      '-fno-stack-protector']


def genuine(r):
    """Whether a native replay shows a violation, the assumptions being satisfied up to there."""
    before = r.stdout.split('VF_VIOLATION')[0]
    if 'VF_ASSUME' in before:
        return False
    return 'VF_VIOLATION' in r.stdout or r.returncode not in (0, 1)


def short_names(functions):
    """Names without their template arguments and parameters, each once."""
    names = set()
    for f in functions:
        out, depth = [], 0
        f = f.replace('operator<<', 'operator\1').replace('operator<=', 'operator\2').replace('operator<', 'operator\3') \
             .replace('operator>>', 'operator\4').replace('operator>=', 'operator\5').replace('operator>', 'operator\6') \
             .replace('operator->', 'operator\7').replace('operator()', 'operator\10')
        for c in f:
            if c in '<(':
                depth += 1
            elif c in '>)':
                depth -= 1
            elif depth == 0:
                out.append(c)
        n = ''.join(out).strip()
        for a, b in (('\1', '<<'), ('\2', '<='), ('\3', '<'), ('\4', '>>'), ('\5', '>='), ('\6', '>'), ('\7', '->'), ('\10', '()')):
            n = n.replace('operator' + a, 'operator' + b)
        n = n.replace('principia::', '')
        names.add(n.split(' ')[-1][:160] if 'operator' not in n else n[:160])
    return sorted(names)[:1500]


def parse_harness(path):
    """//@ entry NAME k=v ... / //@ src FILE / //@ flags ... / //@ bound TEXT /
    //@ assume TEXT / //@ check ID (a check that must be reached)."""
    h = dict(path=path, entries=[], srcs=[], flags=[], bounds=[], assumes=[])
    for line in open(path, encoding='utf-8'):
        m = re.match(r'//@ (\w+) (.*)', line.rstrip())
        if not m:
            continue
        k, v = m.groups()
        if k == 'entry':
            t = v.split()
            h['entries'].append(dict(name=t[0], opts=dict(x.split('=', 1) if '=' in x else (x, '') for x in t[1:])))
        elif k == 'src':
            h['srcs'].append(v.strip())
        elif k == 'flags':
            h['flags'] += v.split()
        elif k == 'bound':
            h['bounds'].append(v)
        elif k == 'assume':
            h['assumes'].append(v)
    return h


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, encoding='utf-8', errors='replace', **kw)


def ensure_engine():
    if not os.path.exists(SYMEX):
        r = sh(['make', '-C', os.path.join(VERIF, 'engine'), '-j8'])
        if r.returncode:
            print(r.stdout[-3000:])
            sys.exit(2)
    rt = os.path.join(BUILD, 'runtime.bc')
    src = [os.path.join(VERIF, 'rt', f) for f in ('runtime.cc', 'threads.inc', 'vf.h')]
    if not os.path.exists(rt) or any(os.path.getmtime(s) > os.path.getmtime(rt) for s in src):
        tmp = rt + '.%d' % os.getpid()
        r = sh([CXX, '-std=c++23'] + BC + ['-DNDEBUG', '-w', '-I' + os.path.join(VERIF, 'rt'), src[0], '-o', tmp])
        if r.returncode:
            print(r.stdout[-3000:])
            sys.exit(2)
        os.replace(tmp, rt)


class Run:
    def __init__(self, prop, only=None, tier='quick', keep=False):
        self.prop, self.only, self.tier, self.keep = prop, only, tier, keep
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='vf.%s.' % prop)
        self.inc = ['-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(VERIF, 'rt'),
                    '-I' + os.path.join(VERIF, 'harness'),
                    '-I' + os.path.join(self.dir, 'gen'), '-I' + REPO,
                    '-include', os.path.join(VERIF, 'shim', 'vf_prelude.h')]
        self.errors = []

    def pbgen(self):
        # Copies of the .proto files may be incomplete; errors surface in the
        # compilation of the harnesses that need them.
        r = sh([sys.executable, os.path.join(VERIF, 'tools', 'pbgen.py'), REPO, os.path.join(self.dir, 'gen')])
        if r.returncode:
            self.errors.append('pbgen: ' + r.stdout[-1500:])

    def compile_bc(self, src, flags, out):
        return sh([CXX] + BASE + BC + flags + self.inc + [src, '-o', out])

    def compile_native(self, h, out, asan=False):
        objs = []
        f = ['-O1', '-g1'] if not asan else ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
        srcs = [s.replace('$VERIF', VERIF) for s in [h['path']] + h['srcs']]
        srcs = [os.path.join(REPO, s) if not s.startswith('/') else s for s in srcs]
        srcs.append(os.path.join(VERIF, 'rt', 'native.cc'))
        flags = [x for x in h['flags'] if not x.startswith('-fsanitize')]
        r = sh([CXX] + BASE + f + flags + self.inc + srcs + ['-rdynamic', '-ldl', '-pthread', '-o', out])
        return r

    def run(self):
        ensure_engine()
        files = sorted(glob.glob(os.path.join(VERIF, 'harness', self.prop + '_*.cc')))
        hs = [parse_harness(f) for f in files]
        if self.only:
            for h in hs:
                h['entries'] = [e for e in h['entries'] if e['name'] in self.only]
            hs = [h for h in hs if h['entries']]
        if not hs:
            print('no harness for', self.prop)
            return 2
        self.pbgen()
        pool = cf.ThreadPoolExecutor(JOBS)
        natives, jobs = {}, []
        bcs = {}
        for i, h in enumerate(hs):
            h['idx'] = i
            bcs[i] = []
            for j, s in enumerate([h['path']] + h['srcs']):
                s = s.replace('$VERIF', VERIF)
                p = s if s.startswith('/') else os.path.join(REPO, s)
                out = os.path.join(self.dir, 'h%d_%d.bc' % (i, j))
                bcs[i].append((p, out, pool.submit(self.compile_bc, p, h['flags'], out)))
        for i, h in enumerate(hs):
            out = os.path.join(self.dir, 'native%d' % i)
            natives[i] = (out, pool.submit(self.compile_native, h, out))
        results = []
        futs = []
        failed = False
        for i, h in enumerate(hs):
            ok = True
            for p, out, f in bcs[i]:
                r = f.result()
                if r.returncode:
                    ok = False
                    self.errors.append('compilation of %s: %s' % (p, r.stdout[-2500:]))
            if not ok:
                failed = True
                continue
            mods = [o for _, o, _ in bcs[i]]
            for e in h['entries']:
                if 'thorough' in e['opts'] and self.tier != 'thorough':
                    continue
                futs.append((h, e, pool.submit(self.symex, h, e, mods)))
        for h, e, f in futs:
            h_e = f.result()
            results.append((h, e, h_e))
        return self.report(hs, results, natives, failed)

    def symex(self, h, e, mods):
        o = e['opts']
        name = e['name']
        tdir = os.path.join(self.dir, 't_' + name)
        os.makedirs(tdir, exist_ok=True)
        out = os.path.join(self.dir, name + '.json')
        th = self.tier == 'thorough'
        secs = float(o.get('max-seconds', '240'))
        if th:
            secs *= 3
        cmd = [SYMEX] + mods + [os.path.join(BUILD, 'runtime.bc'), '--entry', name, '--out', out,
               '--trace-dir', tdir, '--seed', str(self.seed), '--max-seconds', str(secs),
               '--traces', o.get('traces', '6')]
        if o.get('mode') == 'real':
            cmd.append('--real')
        if 'split' in o:
            cmd.append('--split')
        for k in ('timeout', 'check-timeout', 'max-paths', 'max-steps', 'preemptions', 'switches', 'poly-limit'):
            if k in o:
                v = o[k]
                if th and k in ('preemptions', 'switches'):
                    v = o.get('thorough-' + k, str(int(v) + 1))
                cmd += ['--' + k, v]
        t = time.time()
        try:
            r = sh(cmd, timeout=secs + 120)
            code, log = r.returncode, r.stdout
        except subprocess.TimeoutExpired as x:
            code, log = -1, 'symex timed out'
        d = None
        if os.path.exists(out):
            try:
                d = json.load(open(out, encoding='utf-8', errors='replace'))
            except Exception as x:
                log += str(x)
        return dict(code=code, log=log, data=d, tdir=tdir, wall=time.time() - t)

    def native_run(self, binary, entry, inputs, real):
        cmd = [binary, entry, inputs] + (['real'] if real else [])
        try:
            return sh(cmd, timeout=60, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        except subprocess.TimeoutExpired:
            class R:
                returncode, stdout = -99, 'VF_VIOLATION native replay did not terminate'
            return R()

    def known(self):
        p = os.path.join(VERIF, 'known_findings.txt')
        r = []
        if os.path.exists(p):
            for line in open(p, encoding='utf-8'):
                m = re.match(r'known: property=(\w+) id=(\S+) (.*)', line)
                if m and m.group(1) == self.prop:
                    r.append((m.group(2), m.group(3).strip()))
        return r

    def report(self, hs, results, natives, failed):
        viol, incomplete, samples = [], [], []
        stats = dict(paths=0, states=0, forks=0, instructions=0, branches=0, queries=0, unsat=0, sat=0,
                     unknown=0, cached=0, solver_s=0.0, assertions=0)
        functions, assumptions = set(), set()
        checks, entries = {}, []
        traces_ok = traces_bad = 0
        for h, e, r in results:
            d = r['data']
            if d is None:
                self.errors.append('%s: no result (exit %s): %s' % (e['name'], r['code'], r['log'][-800:]))
                continue
            for k in ('paths', 'states', 'forks', 'instructions', 'branches'):
                stats[k] += d[k]
            s = d['solver']
            for k in ('queries', 'unsat', 'sat', 'unknown', 'cached', 'assertions'):
                stats[k] += s[k]
            stats['solver_s'] += s['seconds']
            functions.update(d['functions'])
            assumptions.update(d['assumptions'])
            for k, c in d['checks'].items():
                checks[e['name'] + '/' + k] = c
            for x in d['incomplete']:
                incomplete.append('%s: %s' % (e['name'], x))
            entries.append(dict(entry=e['name'], mode=d['mode'], paths=d['paths'], instructions=d['instructions'],
                                queries=s['queries'], solver_s=round(s['seconds'], 3), wall_s=round(r['wall'], 2),
                                options=e['opts'], inputs=d['inputs'][:40]))
            if d['paths'] == 0 and not d['violations']:
                self.errors.append('%s: no path completed: %s' % (e['name'], '; '.join(d['incomplete'])[:600]))
            if not d['checks'] and not d['violations']:
                self.errors.append('%s: no assertion was reached' % e['name'])
            real = d['mode'] == 'real'
            binary, nf = natives[h['idx']]
            nr = nf.result()
            if nr.returncode:
                x = 'native build of %s: %s' % (h['path'], nr.stdout[-1200:])
                if x not in self.errors:
                    self.errors.append(x)
                continue
            # Validate sampled paths.
            for t in sorted(glob.glob(r['tdir'] + '/trace*.txt')):
                if 'notrace' in e['opts']:
                    continue
                ok, why, sample = self.validate(binary, e['name'], t, real)
                if ok:
                    traces_ok += 1
                    if len(samples) < 6:
                        samples.append(dict(entry=e['name'], **sample))
                else:
                    traces_bad += 1
                    self.errors.append('%s: sampled path not reproduced natively (%s): %s' % (e['name'], t, why))
            for k, v in enumerate(d['violations']):
                viol.append((h, e, v, binary, real))
        # Replay.
        reported, known_hit, unconfirmed = [], [], []
        known = self.known()
        asan = {}
        seen = set()
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for h, e, v, binary, real in viol:
            key = (e['name'], v['kind'], v['id'])
            if key in seen:
                continue
            inp = os.path.join(self.dir, 'viol.txt')
            with open(inp, 'w', encoding='utf-8') as f:
                for n, x in v['assignment']:
                    f.write('%s %s\n' % (n, x))
            r = self.native_run(binary, e['name'], inp, real)
            how = 'native'
            bad = genuine(r)
            if not bad:
                # Memory errors and undefined behaviour need the sanitizers.
                if h['idx'] not in asan:
                    out = os.path.join(self.dir, 'asan%d' % h['idx'])
                    b = self.compile_native(h, out, asan=True)
                    asan[h['idx']] = out if b.returncode == 0 else None
                if asan[h['idx']]:
                    r = self.native_run(asan[h['idx']], e['name'], inp, real)
                    how = 'native with sanitizers'
                    bad = genuine(r) or 'VF_ASSUME' not in r.stdout and ('ERROR: AddressSanitizer' in r.stdout or 'runtime error' in r.stdout)
            txt = '%s %s in %s at %s' % (v['kind'], v['id'], e['name'], v['where'])
            if bad:
                seen.add(key)
                kid = '%s/%s' % (e['name'], v['id'])
                kf = [k for k in known if k[0] == kid.replace(' ', '_')]
                if kf:
                    known_hit.append((kid, kf[0][1]))
                    continue
                path = os.path.join(rdir, '%s_%d.txt' % (self.prop, len(reported)))
                with open(path, 'w', encoding='utf-8') as f:
                    f.write('property %s\nentry %s (%s)\nharness %s\n%s\nreplay: %s\nstack:\n' %
                            (self.prop, e['name'], 'real' if real else 'ieee', os.path.relpath(h['path'], VERIF), txt, how))
                    for s in v['stack']:
                        f.write('  %s\n' % s)
                    f.write('inputs (hexadecimal bit patterns):\n')
                    for n, x in v['assignment']:
                        f.write('  %s %s\n' % (n, x))
                    f.write('native output:\n' + r.stdout[-3000:])
                reported.append((path, txt))
            else:
                unconfirmed.append(txt + ': ' + r.stdout[-300:].replace('\n', ' | '))
        confirmed = {k[0] for k in seen}
        unconfirmed_real = [u for u in unconfirmed]
        # Vacuity: every assertion must have been reached on some path.
        unknown = {k: c for k, c in checks.items() if c['unknown']}
        for k in unknown:
            incomplete.append('%s: solver gave no verdict on %d instance(s)' % (k, checks[k]['unknown']))
        for k, c in checks.items():
            if c['reached'] == 0 and not reported:
                self.errors.append('%s: assertion never reached' % k)
        for h, e, r in results:
            d = r['data']
            if not d or reported:
                continue
            want = [x for x in e['opts'].get('checks', '').split(',') if x]
            for w in want:
                if w not in d['checks'] or d['checks'][w]['reached'] == 0:
                    self.errors.append('%s/%s: assertion never reached' % (e['name'], w))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        bounds = [b for h in hs for b in h['bounds']]
        ass = sorted(set(a for h in hs for a in h['assumes']) | assumptions)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking',
                  coverage=dict(states=stats['paths'], transitions=stats['branches'] + stats['forks'] + stats['paths'],
                                traces_validated_against_impl=traces_ok, samples=samples or [dict(note='no sampled path')],
                                assertions={k: c for k, c in sorted(checks.items())},
                                instructions=stats['instructions'],
                                queries=dict(total=stats['queries'], unsat=stats['unsat'], sat=stats['sat'],
                                             unknown=stats['unknown'], cached=stats['cached']),
                                solver_seconds=round(stats['solver_s'], 3),
                                bounds=bounds, incomplete=incomplete,
                                unconfirmed_counterexamples=unconfirmed,
                                functions_encoded=short_names(functions), entries=entries,
                                known_findings=['%s: %s' % k for k in known_hit],
                                explanation='states: completed symbolic paths; transitions: branches decided by the solver or simplifier plus forks; each path covers every input value satisfying its path condition'),
                  assumptions=ass, wall_s=round(time.time() - self.t0, 2), violations=len(reported))
        if not self.only:
            with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w', encoding='utf-8') as f:
                json.dump(ev, f, indent=1, ensure_ascii=True)
        for x in incomplete:
            print('INCOMPLETE', x)
        for k, t in known_hit:
            print('KNOWN-FINDING: property=%s %s %s' % (self.prop, k, t))
        print('%s: %d paths, %d assertions (%d solver queries, %.1f s solver), %d traces validated, %.1f s' %
              (self.prop, stats['paths'], sum(c['reached'] for c in checks.values()), stats['queries'],
               stats['solver_s'], traces_ok, time.time() - self.t0))
        for path, txt in reported:
            print('  ' + txt)
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        for u in unconfirmed:
            print('UNCONFIRMED', u)
        for x in self.errors:
            print('ERROR', x)
        if reported:
            return 1
        if failed or self.errors or (unconfirmed and not known_hit):
            return 2
        return 0

    def validate(self, binary, entry, trace, real):
        want = []
        ins = {}
        sec = 0
        for line in open(trace, encoding='utf-8', errors='replace'):
            t = line.split()
            if line.startswith('---'):
                sec = 1
            elif sec == 0 and len(t) == 2:
                ins[t[0]] = t[1]
            elif len(t) == 3:
                want.append((t[0], t[1], int(t[2], 16)))
        r = self.native_run(binary, entry, trace, real)
        out = r.stdout
        if 'VF_ASSUME' in out or 'VF_MISSING' in out:
            return False, out[-400:], {}
        if 'VF_VIOLATION' in out or r.returncode != 0:
            return False, out[-400:], {}
        got = re.findall(r'VF_OBS (\S+) ([0-9a-f]{16})', out)
        if len(got) != len(want):
            return False, 'expected %d observations, got %d: %s' % (len(want), len(got), out[-200:]), {}
        import struct
        for (k, n, v), (gn, gv) in zip(want, got):
            gv = int(gv, 16)
            if n != gn:
                return False, 'observation %s vs %s' % (n, gn), {}
            if k == '=' and gv != v:
                fa, fb = (struct.unpack('<d', struct.pack('<Q', x))[0] for x in (v, gv))
                if fa != fa and fb != fb:
                    continue
                return False, '%s: expected %x got %x' % (n, v, gv), {}
            if k == '~':
                a, b = (struct.unpack('<d', struct.pack('<Q', x))[0] for x in (v, gv))
                if not (abs(a - b) <= 1e-6 * (1 + abs(a) + abs(b))):
                    return False, '%s: expected %.17g got %.17g' % (n, a, b), {}
        return True, '', dict(inputs=dict(list(ins.items())[:24]), observations=['%s=%s' % x for x in got[:12]])


def main():
    args = sys.argv[1:]
    if args == ['--setup']:
        ensure_engine()
        return
    keep = '--keep' in args
    only = []
    while '--entry' in args:
        i = args.index('--entry')
        only.append(args[i + 1])
        del args[i:i + 2]
    args = [a for a in args if a != '--keep']
    tier = os.environ.get('VERIF_TIER', 'quick')
    r = Run(args[0], only, tier, keep)
    try:
        code = r.run()
    finally:
        if keep:
            print('kept', r.dir)
        else:
            shutil.rmtree(r.dir, ignore_errors=True)
    sys.exit(code)


if __name__ == '__main__':
    main()
