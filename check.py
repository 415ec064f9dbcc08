#!/usr/bin/env python3
"""Driver: python3 check.py <PROPERTY> [--tier quick|thorough] [--keep]

Builds the harness(es) of a property from /repo's working tree (out of tree, with
sanitizers), runs them sharded over the cores, collects what the monitors
observed, matches violations against known_findings.json, writes
evidence/<PROPERTY>.json and prints VIOLATION / KNOWN-FINDING lines.

exit 0: held on everything explored; 1: violated; 2: the check could not run.
"""
import concurrent.futures, glob, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
import config  # noqa: E402

CXX = 'clang++-18'
NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 8))
SAN = {
    'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'],
    'tsan': ['-fsanitize=thread'],
    'none': [],
}
ENV_SAN = {
    'ASAN_OPTIONS': 'exitcode=98:detect_leaks=%s:abort_on_error=0:allocator_may_return_null=0:'
                    'detect_stack_use_after_return=1:malloc_context_size=12:handle_abort=0:'
                    'symbolize=1:max_allocation_size_mb=8192',
    'UBSAN_OPTIONS': 'exitcode=98:print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'exitcode=98:halt_on_error=1:second_deadlock_stack=1',
    'LSAN_OPTIONS': 'exitcode=98:report_objects=0:max_leaks=5:suppressions=' + os.path.join(VERIF, 'lsan.supp'),
    'ASAN_SYMBOLIZER_PATH': '/usr/bin/llvm-symbolizer-18',
    'TSAN_SYMBOLIZER_PATH': '/usr/bin/llvm-symbolizer-18',
}


class BuildError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


def absl_libs():
    libs = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.a'))
    if not libs:
        libs = sorted(glob.glob('/usr/lib/x86_64-linux-gnu/libabsl_*.so'))
    return libs


class Builder:
    """Compiles translation units into one build directory; plain mtime/depfile caching."""

    def __init__(self, bdir, jobs=NPROC):
        self.bdir = bdir
        self.jobs = jobs
        os.makedirs(bdir, exist_ok=True)

    def gen_dir(self):
        g = os.path.join(self.bdir, 'gen')
        os.makedirs(g, exist_ok=True)
        return g

    def proto(self):
        g = self.gen_dir()
        r = run(['protoc', '-I.', '--cpp_out=' + g, 'mpact/sim/proto/component_data.proto'], cwd=REPO)
        if r.returncode:
            raise BuildError('protoc: ' + r.stderr)

    ANTLR_NS = {'BinFormat': 'mpact::sim::decoder::bin_format::generated',
                'InstructionSet': 'sim::machine_description::instruction_set::generated',
                'ProtoFormat': 'mpact::sim::decoder::proto_fmt::generated'}

    def antlr(self):
        """Parser headers from the repository's grammars, and copies of the decoder sources in which
        std::string_view is absl::string_view (the same type in current absl, not in the one installed)."""
        g = self.gen_dir()
        out = os.path.join(g, 'mpact/sim/decoder')
        os.makedirs(out, exist_ok=True)

        def put(path, text):
            if not (os.path.exists(path) and open(path).read() == text):
                with open(path + '.tmp', 'w') as f:
                    f.write(text)
                os.rename(path + '.tmp', path)
        tmp = os.path.join(g, 'antlr_tmp')
        os.makedirs(tmp, exist_ok=True)
        for name, ns in self.ANTLR_NS.items():
            r = run([sys.executable, os.path.join(VERIF, 'antlr/antlr_gen.py'),
                     os.path.join(REPO, 'mpact/sim/decoder', name + '.g4'), tmp, ns])
            if r.returncode:
                raise BuildError('antlr: ' + r.stderr)
            for x in ('Lexer.h', 'Parser.h'):
                put(os.path.join(out, name + x), open(os.path.join(tmp, name + x)).read())
        ov = os.path.join(g, 'ov/mpact/sim/decoder')
        os.makedirs(ov, exist_ok=True)
        have = set()
        for f in sorted(glob.glob(os.path.join(REPO, 'mpact/sim/decoder/*.h')) + glob.glob(os.path.join(REPO, 'mpact/sim/decoder/*.cc'))):
            have.add(os.path.basename(f))
            put(os.path.join(ov, os.path.basename(f)), open(f).read().replace('std::string_view', 'absl::string_view'))
        for f in os.listdir(ov):
            if f not in have:
                os.unlink(os.path.join(ov, f))

    def gencxx(self, san):
        """Command with which a harness compiles generated code into a shared object."""
        return ' '.join([CXX, '-std=c++17', '-O0', '-g1', '-fPIC', '-shared', '-w', '-include', 'cstdint'] + SAN[san] +
                        ['-I' + os.path.join(VERIF, 'shim'), '-I' + os.path.join(self.gen_dir(), 'ov'), '-I' + REPO, '-I' + self.gen_dir()])

    def flags(self, san, opt, shim, extra):
        f = ['-std=c++17', opt, '-g', '-gline-tables-only', '-fno-omit-frame-pointer', '-include', 'cstdint', '-w', '-D_GLIBCXX_ASSERTIONS']
        if shim:
            f += ['-I' + os.path.join(VERIF, 'shim')]
        f += ['-I' + REPO, '-I' + self.gen_dir(), '-I' + os.path.join(VERIF, 'harness'),
              '-isystem', '/usr/src/googletest']
        return f + SAN[san] + extra

    def obj_path(self, src, flags):
        import hashlib
        h = hashlib.sha1((src + '\0' + '\0'.join(flags)).encode()).hexdigest()[:16]
        return os.path.join(self.bdir, os.path.basename(src) + '.' + h + '.o')

    def fresh(self, obj):
        dep = obj + '.d'
        if not (os.path.exists(obj) and os.path.exists(dep)):
            return False
        t = os.stat(obj).st_mtime_ns
        txt = open(dep).read().replace('\\\n', ' ')
        files = txt.split(':', 1)[1].split() if ':' in txt else []
        for f in files:
            try:
                if os.stat(f).st_mtime_ns >= t:
                    return False
            except OSError:
                return False
        return True

    def compile1(self, src, flags):
        obj = self.obj_path(src, flags)
        if self.fresh(obj):
            return obj, None
        tmp = obj + '.tmp%d' % os.getpid()
        r = run([CXX] + flags + ['-MD', '-MF', obj + '.d', '-MT', obj, '-c', src, '-o', tmp])
        if r.returncode:
            return None, '%s:\n%s' % (src, r.stderr[-4000:])
        os.rename(tmp, obj)
        return obj, None

    def compile(self, jobs_list):
        """jobs_list: [(src, flags)] -> ([obj], [err])"""
        objs, errs = [], []
        with concurrent.futures.ThreadPoolExecutor(self.jobs) as ex:
            for o, e in ex.map(lambda a: self.compile1(*a), jobs_list):
                if o:
                    objs.append(o)
                if e:
                    errs.append(e)
        return objs, errs

    def binary(self, name, spec):
        san = spec.get('san', 'asan')
        opt = spec.get('opt', '-O1')
        shim = spec.get('shim', True)
        flags = self.flags(san, opt, shim, list(spec.get('flags', [])))
        if spec.get('proto'):
            self.proto()
        if spec.get('antlr'):
            self.antlr()
            flags = ['-I' + os.path.join(VERIF, 'antlr'), '-I' + os.path.join(self.gen_dir(), 'ov')] + flags
        if spec.get('prebuild'):
            getattr(config, spec['prebuild'])(self, REPO)
        hsrc = [os.path.join(VERIF, s) for s in spec['src']]
        hsrc += [s for s in spec.get('gensrc', lambda b: [])(self)]
        rsrc = [os.path.join(REPO, s) for s in spec.get('repo', []) if os.path.exists(os.path.join(REPO, s))]
        if spec.get('antlr'):
            ov = os.path.join(self.gen_dir(), 'ov')
            rsrc = [os.path.join(ov, os.path.relpath(s, REPO)) if '/mpact/sim/decoder/' in s else s for s in rsrc]
        if spec.get('proto'):
            hsrc.append(os.path.join(self.gen_dir(), 'mpact/sim/proto/component_data.pb.cc'))
        hobjs, errs = self.compile([(s, flags) for s in hsrc])
        robjs, rerrs = self.compile([(s, flags) for s in rsrc])
        if errs:
            raise BuildError('\n'.join(errs + rerrs))
        exe = os.path.join(self.bdir, name)
        link_err = '\n'.join(rerrs)

        def link(objs):
            cmd = [CXX] + SAN[san] + (['-rdynamic'] if spec.get('antlr') else []) + ['-o', exe] + hobjs + ['-Wl,--start-group'] + objs + ['-Wl,--end-group'] + \
                ['-Wl,--start-group'] + absl_libs() + ['-Wl,--end-group'] + list(spec.get('libs', [])) + \
                ['-lpthread', '-Wl,--as-needed']
            return run(cmd)
        if not rerrs:
            r = link(robjs)
            if r.returncode == 0:
                return exe
            link_err = r.stderr
        # Fallback: the sources may have been split or moved; offer every source of the
        # directories concerned as an archive.
        dirs = sorted({os.path.dirname(s) for s in rsrc} | set(os.path.join(REPO, d) for d in spec.get('dirs', [])))
        allsrc = []
        for d in dirs:
            for s in sorted(glob.glob(d + '/*.cc')):
                if not s.endswith('_main.cc') and s not in rsrc:
                    allsrc.append(s)
        xobjs, xerrs = self.compile([(s, flags) for s in allsrc])
        ar = exe + '.a'
        if os.path.exists(ar):
            os.unlink(ar)
        r = run(['llvm-ar-18', 'rcs', ar] + xobjs) if xobjs else None
        if rerrs:
            raise BuildError(link_err)
        r = link(robjs + ([ar] if xobjs else []))
        if r.returncode:
            raise BuildError('link %s:\n%s\n%s' % (name, link_err[-3000:], r.stderr[-6000:]))
        return exe


def crash_signature(err, rc):
    m = re.search(r'SUMMARY: (\w+Sanitizer): (data race|thread leak|heap-use-after-free|[\w-]+ \([^)]*\)|\S+)(?: (\S+?)(?::\d+)*)?(?: in (.*))?$', err, re.M)
    fn = None
    for mm in re.finditer(r'^\s+#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):\d+', err, re.M):
        path = re.sub(r'^.*/gen/ov/', REPO + '/', mm.group(2))
        if path.startswith(REPO + '/'):
            fn = re.sub(r'\(.*', '', mm.group(1)) + ' (' + os.path.relpath(path, REPO) + ')'
            break
    ub = re.search(r'runtime error: (.*)', err)
    if m:
        kind = m.group(2)
        if ub:
            kind = 'ub: ' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', ub.group(1))
        return '%s: %s in %s' % (m.group(1), kind, fn or m.group(4) or m.group(3) or '?')
    if ub:
        return 'ub: ' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', ub.group(1)) + ' in ' + (fn or '?')
    if 'VH-HANG' in err:
        return 'hang'
    if rc < 0:
        return 'signal %d%s' % (-rc, (' in ' + fn) if fn else '')
    return 'exit status %d' % rc


def read_shared(path):
    try:
        d = open(path, 'rb').read()
    except OSError:
        return None, 0, ''
    scn = d[:64].split(b'\0')[0].decode('latin1')
    idx, tl = struct.unpack('<QQ', d[64:80])
    return scn, idx, d[80:80 + tl].decode('latin1')


def run_shard(exe, prop, seed, shard, shards, tier, scale, rdir, spec, deadline, only):
    """Runs one shard, resuming after crashes. Returns (reports, violations, errors)."""
    reports, viols, errors = [], [], []
    resume = None
    crashes = 0
    base = os.path.join(rdir, '%s.%d' % (os.path.basename(exe), shard))
    env = dict(os.environ)
    for k, v in ENV_SAN.items():
        env[k] = v % ('1' if spec.get('leaks') else '0') if k == 'ASAN_OPTIONS' else v
    env.update(spec.get('env', {}))
    if spec.get('antlr'):
        env['VH_GENCXX'] = spec['gencxx']
    env['VERIF_SCRATCH'] = base + '.scratch'
    env['TMPDIR'] = base + '.scratch'
    while True:
        out = '%s.%d.json' % (base, crashes)
        shm = '%s.%d.shm' % (base, crashes)
        errf = '%s.%d.err' % (base, crashes)
        os.makedirs(env['VERIF_SCRATCH'], exist_ok=True)
        cmd = [exe, '--prop', prop, '--seed', str(seed), '--shard', str(shard), '--shards', str(shards),
               '--out', out, '--shm', shm, '--scale', str(scale), '--case-limit', str(spec.get('case_limit', 120))]
        if tier == 'thorough':
            cmd.append('--thorough')
        if resume:
            cmd += ['--resume', resume]
        if only:
            cmd += ['--scenario', only]
        left = deadline - time.time()
        if left <= 1:
            errors.append('out of time before shard %d finished' % shard)
            return reports, viols, errors
        with open(errf, 'wb') as ef, open(errf + '.out', 'wb') as of:
            p = subprocess.Popen(cmd, stdout=of, stderr=ef, stdin=subprocess.DEVNULL, env=env,
                                 cwd=env['VERIF_SCRATCH'], start_new_session=True)
            try:
                rc = p.wait(timeout=left)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                errors.append('shard %d ran out of time' % shard)
                return reports, viols, errors
        shutil.rmtree(env['VERIF_SCRATCH'], ignore_errors=True)
        done = None
        if os.path.exists(out):
            try:
                done = json.load(open(out))
            except ValueError:
                done = None
        with open(errf, 'rb') as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(0)
            err = f.read(200000).decode('utf8', 'replace')
            if n > 200000:
                f.seek(n - 100000)
                err += '\n...\n' + f.read().decode('utf8', 'replace')
        if done is not None:
            done['hashfile'] = out + '.hash'
            reports.append(done)
            for v in done['violations']:
                v['signature'] = v['scenario'] + ':' + v['key']
                viols.append(v)
            if rc not in (0, 1):
                # finished all cases, then died: leak report or destructor crash
                if 'LeakSanitizer has encountered a fatal error' in err:
                    pass
                else:
                    sig = crash_signature(err, rc)
                    viols.append({'scenario': 'at-exit', 'case': -1, 'key': sig, 'msg': err[-6000:],
                                  'trace': '', 'signature': 'at-exit:' + sig})
            return reports, viols, errors
        if rc in (64, 65, 66):
            errors.append('harness usage error %d: %s' % (rc, err[-500:]))
            return reports, viols, errors
        scn, idx, trace = read_shared(shm)
        if not scn:
            errors.append('harness died before its first case (rc %d): %s' % (rc, err[-3000:]))
            return reports, viols, errors
        sig = crash_signature(err, rc)
        viols.append({'scenario': scn, 'case': idx, 'key': sig, 'msg': err[:12000], 'trace': trace,
                      'signature': scn + ':' + sig})
        crashes += 1
        resume = '%s:%d' % (scn, idx)
        if crashes >= 4 or sig == 'hang':
            return reports, viols, errors


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    keep = '--keep' in args
    only = None
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    if '--scenario' in args:
        only = args[args.index('--scenario') + 1]
    prop = args[0]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    t0 = time.time()
    spec = config.PROPS[prop]
    budget = float(os.environ.get('VERIF_BUDGET', '840' if tier == 'quick' else '6000'))
    deadline = t0 + budget
    bdir = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
    rdir = os.path.join(VERIF, '.run', '%s.%d' % (prop, os.getpid()))
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    reports, viols, errors = [], [], []
    build_s = 0
    try:
        b = Builder(bdir)
        exes = []
        tb = time.time()
        for bn in spec['bins']:
            bs = config.BINS[bn]
            if bs.get('antlr'):
                bs['gencxx'] = b.gencxx(bs.get('san', 'asan'))
            exes.append((bn, b.binary(bn, bs), bs))
        build_s = time.time() - tb
        for bn, exe, bs in exes:
            shards = min(NPROC, bs.get('shards', NPROC))
            with concurrent.futures.ThreadPoolExecutor(shards) as ex:
                futs = [ex.submit(run_shard, exe, prop, seed, s, shards, tier, scale, rdir, bs, deadline, only)
                        for s in range(shards)]
                for f in futs:
                    r, v, e = f.result()
                    for x in v:
                        x['bin'] = bn
                    reports += r
                    viols += v
                    errors += e
    except BuildError as e:
        log('BUILD FAILED for %s:\n%s' % (prop, e))
        errors.append('build failed')
        if not keep:
            shutil.rmtree(rdir, ignore_errors=True)
        return 2
    # ---- merge what the monitors observed
    events, per, samples = {}, {}, []
    cases, seen = set(), set()
    evals = 0
    for r in reports:
        evals += r['cases']
        for k, v in r['events'].items():
            events[k] = events.get(k, 0) + v
        for k, v in r['per_scenario'].items():
            per[k] = per.get(k, 0) + v
        have = {s['scenario'] for s in samples}
        samples += [s for s in r['samples'] if s['scenario'] not in have]
        try:
            d = open(r['hashfile'], 'rb').read()
            n = struct.unpack('<Q', d[:8])[0]
            cases.update(struct.unpack('<%dQ' % n, d[8:8 + 8 * n]))
            m = struct.unpack('<Q', d[8 + 8 * n:16 + 8 * n])[0]
            seen.update(struct.unpack('<%dQ' % m, d[16 + 8 * n:16 + 8 * n + 8 * m]))
        except (OSError, struct.error):
            pass
    # ---- known findings
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']
    known = [k for k in known if k['property'] == prop and k.get('status') == 'known']
    new, hit = [], {}
    for v in viols:
        for k in known:
            if re.fullmatch(k['signature'], v['signature'], re.S):
                hit.setdefault(k['signature'], (k, v))
                break
        else:
            new.append(v)
    for k, v in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    rep_dir = os.path.join(VERIF, 'replays')
    dedup = {}
    for v in new:
        dedup.setdefault(v['signature'], v)
    for i, v in enumerate(list(dedup.values())[:8]):
        os.makedirs(rep_dir, exist_ok=True)
        path = os.path.join(rep_dir, '%s-%d.txt' % (prop, i))
        with open(path, 'w', errors='replace') as f:
            f.write('property: %s\nsignature: %s\nscenario: %s\ncase: %s\nseed: %d\ntier: %s\n' % (
                prop, v['signature'], v['scenario'], v['case'], seed, tier))
            f.write('rerun: VERIF_SEED=%d python3 check.py %s --keep; then .build/%s --prop %s --scenario %s --case %s '
                    '--seed %d --verbose%s\n' % (seed, prop, v['bin'], prop, v['scenario'], v['case'], seed,
                                                 ' --thorough' if tier == 'thorough' else ''))
            f.write('\n== what failed\n%s\n\n== operations of the failing case\n%s\n' % (v['msg'], v['trace']))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        log('  %s: %s' % (v['signature'], v['msg'].strip().splitlines()[0][:300] if v['msg'].strip() else ''))
    # monitors must actually have seen something: vacuity guard
    vac = [e for e in spec.get('must_see', []) if not events.get(e)]
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'exploration'),
        'coverage': {
            'evaluations': evals, 'distinct_nontrivial': len(cases), 'rule': spec['rule'],
            'samples': samples[:8], 'distinct_states_observed': len(seen),
            'events_observed': events, 'cases_per_scenario': per,
            'sanitizers': sorted({config.BINS[b].get('san', 'asan') for b in spec['bins']}),
            'known_findings_reproduced': sorted(hit), 'build_s': round(build_s, 1),
        },
        'assumptions': spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(new),
    }
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if not keep:
        shutil.rmtree(rdir, ignore_errors=True)
    log('%s %s seed=%d: %d cases, %d distinct, %d states, events=%s, build %.1fs wall %.1fs, violations=%d known=%d%s' % (
        prop, tier, seed, evals, len(cases), len(seen), json.dumps(events), build_s, time.time() - t0, len(new),
        len(hit), (' errors=%s' % errors) if errors else ''))
    if new:
        return 1
    if errors:
        log('ERROR: ' + '; '.join(errors))
        return 2
    if vac and not only:
        log('ERROR: monitors never observed: %s' % vac)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
