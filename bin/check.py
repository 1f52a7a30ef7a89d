#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]

Builds what the check of property ID needs from the working tree of /repo,
runs the exhaustive explorations of that check (in parallel), replays any
violation before reporting it, and writes evidence/ID.json.

Exit 0: the property held on everything explored.
Exit 1: "VIOLATION property=ID replay=PATH" was printed.
"""
import sys, os, json, time, subprocess, hashlib, shutil, fcntl, re, tempfile
import concurrent.futures as cf
import glob

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
EVID = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
ENV = dict(os.environ, LC_ALL='C', TZ='UTC')
for k in ('CFLAGS', 'MAKEFLAGS', 'LD_PRELOAD', 'DB_HOME'):
    ENV.pop(k, None)
NCPU = int(os.environ.get('VERIF_JOBS', '8'))

BASEFLAGS = ['-g', '-O1', '-fno-omit-frame-pointer', '-fno-common',
             '-U_FORTIFY_SOURCE', '-D_FORTIFY_SOURCE=0',
             '-w', '-pthread', '-DDEBUG',
             '-fno-strict-aliasing', '-fwrapv']
MODES = {
    # address sanitizer + array bounds
    'asan': (['-fsanitize=address', '-fsanitize=bounds',
              '-fno-sanitize-recover=all', '-fstack-protector-all'],
             ['-fsanitize=address', '-fsanitize=bounds']),
    'plain': ([], []),
    # every memory access of the code under test calls the engine
    'mem': (['-fsanitize=thread', '--param=tsan-distinguish-volatile=0'], []),
}
LIBS = ['-ltcl8.6', '-ldb-5.3', '-lz', '-lpthread', '-lwrap', '-lrt', '-lm']


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors='replace', env=ENV, **kw)
    return p.returncode, p.stdout


def tree_hash():
    """Hash of the files of /repo's working tree the checks build from."""
    h = hashlib.sha256()
    skip = {'.git', '_build', 'dev-notes'}
    for d, dirs, files in os.walk(REPO):
        if d == REPO:
            dirs[:] = [x for x in dirs if x not in skip]
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            try:
                if os.path.islink(p):
                    h.update(('L' + os.readlink(p)).encode())
                    continue
                if not os.path.isfile(p):
                    continue
                st = os.stat(p)
                h.update(('%s %d %o\n' % (os.path.relpath(p, REPO), st.st_size,
                                        st.st_mode)).encode())
                with open(p, 'rb') as fh:
                    h.update(fh.read())
            except OSError:
                pass
    return h.hexdigest()[:16]


def framework_hash():
    h = hashlib.sha256()
    for d in ('engine', 'bin'):
        for f in sorted(os.listdir(os.path.join(HERE, d))):
            p = os.path.join(HERE, d, f)
            if os.path.isfile(p) and not f.endswith('.pyc'):
                h.update(f.encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:8]


class Tree:
    """A configured scratch copy of the working tree, and libraries of it."""

    def __init__(self):
        self.key = tree_hash()
        self.dir = os.path.join(BUILD, 't-' + self.key)
        self.src = os.path.join(self.dir, 'tree')
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        self.lock = open(os.path.join(self.dir, 'lock'), 'w')

    def prune(self):
        """drop trees of other contents that nobody used for an hour"""
        now = time.time()
        for n in os.listdir(BUILD):
            p = os.path.join(BUILD, n)
            if n.startswith('t-') and p != self.dir and os.path.isdir(p):
                try:
                    if now - os.stat(p).st_mtime > 3600:
                        shutil.rmtree(p, ignore_errors=True)
                except OSError:
                    pass

    def __enter__(self):
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        fcntl.flock(self.lock, fcntl.LOCK_UN)

    def configure(self):
        done = os.path.join(self.dir, 'configured')
        if os.path.exists(done):
            return
        shutil.rmtree(self.src, ignore_errors=True)
        os.makedirs(self.src)
        rc, o = sh(['rsync', '-a', '--exclude=/.git', '--exclude=/_build',
                    '--exclude=/dev-notes', REPO + '/', self.src + '/'])
        if rc != 0:
            raise CheckError('rsync: ' + o)
        rc, o = sh(['./configure.sh'], cwd=self.src)
        if rc != 0:
            raise CheckError('configure: ' + o)
        rc, o = sh(['make', 'conf.c', 'defaults.h'],
                   cwd=os.path.join(self.src, 'src'))
        if rc != 0:
            raise CheckError('make conf.c: ' + o)
        open(done, 'w').close()

    def daemon_sources(self):
        tools = {'nbspmon.c', 'rnbspmon1.c', 'rnbspmon2.c', 'nbspstate.c'}
        s = os.path.join(self.src, 'src')
        out = []
        for d in ('', 'slavenbs', 'slavefp', 'slavein', 'libconnth', 'libqdb',
                  'libspoolbdb', 'libtclconf'):
            mk = ''
            for m in ('Makefile', 'Makefile.in'):
                p = os.path.join(s, d, m)
                if os.path.exists(p):
                    mk = open(p, errors='replace').read()
                    break
            for f in sorted(os.listdir(os.path.join(s, d))):
                if not f.endswith('.c'):
                    continue
                if d == '' and f in tools:
                    continue
                # sources which are part of the build only
                if d.startswith('lib') and not re.search(
                        r'\b' + re.escape(f[:-2]) + r'\.[co]\b', mk):
                    continue
                out.append(os.path.join(d, f))
        return out

    def lib(self, mode):
        """the daemon as a static library compiled in the given mode"""
        self.configure()
        od = os.path.join(self.dir, 'lib-' + mode)
        lib = os.path.join(od, 'libnbsp.a')
        stamp = os.path.join(od, 'ok')
        fl = MODES[mode][0]
        tag = hashlib.sha256(repr((BASEFLAGS, fl)).encode()).hexdigest()
        if os.path.exists(stamp) and open(stamp).read() == tag:
            return lib
        shutil.rmtree(od, ignore_errors=True)
        os.makedirs(od)
        s = os.path.join(self.src, 'src')
        jobs = []
        for f in self.daemon_sources():
            o = os.path.join(od, f.replace('/', '__')[:-2] + '.o')
            cmd = ['gcc', '-c'] + BASEFLAGS + fl + [
                '-iquote', s,
                '-I/usr/include/tcl8.6', '-DHAS_CLOCK_GETTIME',
                '-o', o, f]
            if f == 'main.c':
                cmd.insert(2, '-Dmain=nbspd_main')
            jobs.append((cmd, o))
        objs = compile_all(jobs, s)
        rc, o = sh(['ar', 'rcs', lib] + objs)
        if rc != 0:
            raise CheckError('ar: ' + o)
        open(stamp, 'w').write(tag)
        return lib


def compile_all(jobs, cwd):
    objs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (cmd, o), (rc, out) in zip(jobs, ex.map(
                lambda j: sh(j[0], cwd=cwd), jobs)):
            if rc != 0:
                raise CheckError('compile failed: %s\n%s' % (' '.join(cmd),
                                                            out[-3000:]))
            objs.append(o)
    return objs


def build_prog(tree, out, pr, flags, har):
    """a stand-alone program of the tree as relocatable objects, with its
    main() as NAME_main (NAME1_main, NAME2_main.. if several copies of it are
    to run at the same time) and everything else local"""
    d = os.path.join(tree.src, pr['dir'])
    jobs, mine = [], []
    for pat in pr['srcs']:
        for f in sorted(glob.glob(os.path.join(d, pat))):
            if os.path.basename(f) in pr.get('skip', []):
                continue
            o = os.path.join(out, 'p_%s_%s.o' % (
                pr['name'], os.path.relpath(f, tree.src).replace('/', '__')))
            jobs.append((['gcc', '-c'] + flags + [
                '-iquote', os.path.dirname(f)] + [
                '-I' + os.path.join(tree.src, i) for i in pr.get('inc', [])] + [
                '-include', os.path.join(har, 'toolpre.h'), '-o', o] +
                pr.get('cflags', []) + [f], o))
            mine.append(o)
    compile_all(jobs, out)
    whole = os.path.join(out, 'p_%s.o' % pr['name'])
    rc, o = sh(['ld', '-r', '-o', whole] + mine)
    if rc != 0:
        raise CheckError('ld -r: ' + o)
    res = []
    n = pr.get('copies', 0)
    for k in range(1, n + 1) if n else ['']:
        f = os.path.join(out, 'p_%s%s.rel.o' % (pr['name'], k))
        cmd = ['objcopy']
        for x in ['main'] + pr.get('keep', []):
            y = '%s%s_%s' % (pr['name'], k, x)
            cmd += ['--redefine-sym', x + '=' + y,
                    '--keep-global-symbol=' + x, '--keep-global-symbol=' + y]
        # its variables, to be set again before each run (tool.c)
        for x in ['.data', '.bss', '.data.rel', '.data.rel.local']:
            cmd += ['--rename-section',
                    '%s=pd_%s%s,alloc,load,data,contents' % (x, pr['name'], k)]
        rc, o = sh(cmd + [whole, f])
        if rc != 0:
            raise CheckError('objcopy: ' + o)
        res.append(f)
    return res


def build_harness(tree, pid, spec):
    """compile and link the harness of one check; returns the executable"""
    mode = spec.get('mode', 'asan')
    cfl, lfl = MODES[mode]
    eng = os.path.join(HERE, 'engine')
    har = os.path.join(HERE, 'harness')
    out = os.path.join(tree.dir, 'h-' + pid + '-' + spec.get('name', '0'))
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    libs = []
    tree.configure()
    if spec.get('lib', True):
        libs = [tree.lib(mode)]
    s = os.path.join(tree.src, 'src')
    inc = ['-iquote', eng, '-iquote', har, '-iquote', s, '-I/usr/include/tcl8.6',
           '-DREPO_TREE="%s"' % tree.src]
    hfl = [x for x in cfl if not (mode == 'mem')] + spec.get('cflags', [])
    jobs = []
    srcs = [os.path.join(har, spec['src']), os.path.join(eng, 'mc.c')]
    srcs += [os.path.join(har if os.path.exists(os.path.join(har, x)) else eng,
                          x) for x in spec.get('extra', [])]
    for f in srcs:
        o = os.path.join(out, os.path.basename(f)[:-2] + '.o')
        jobs.append((['gcc', '-c'] + BASEFLAGS + hfl + inc + ['-o', o, f], o))
    # sources of the tree the harness links directly: (path, extra flags)
    for f, fl in spec.get('tree_src', []):
        o = os.path.join(out, 't_' + f.replace('/', '__')[:-2] + '.o')
        jobs.append((['gcc', '-c'] + BASEFLAGS + cfl + fl + [
            '-iquote', s,
            '-I/usr/include/tcl8.6', '-DHAS_CLOCK_GETTIME',
            '-o', o, os.path.join(tree.src, f)], o))
    objs = compile_all(jobs, out)
    for pr in spec.get('progs', []):
        objs += build_prog(tree, out, pr, BASEFLAGS + cfl, har)
    exe = os.path.join(out, 'harness')
    wraps = ['-Wl,--wrap=' + w for w in spec.get('wrap', [])]
    cmd = ['gcc', '-g', '-pthread', '-o', exe] + lfl + wraps + objs + libs + \
        spec.get('libs', LIBS) + spec.get('ldflags', [])
    rc, o = sh(cmd)
    if rc != 0:
        raise CheckError('link failed: %s\n%s' % (' '.join(cmd), o[-4000:]))
    return exe


ASAN = ('detect_leaks=0:abort_on_error=0:exitcode=14:allocator_may_return_null'
        '=1:handle_abort=1:detect_stack_use_after_return=0:'
        'handle_segv=1:symbolize=1:print_legend=0:max_malloc_fill_size=4096:'
        'malloc_fill_byte=165:quarantine_size_mb=16')


def run_part(job):
    exe, argv, state, scratch, known, limit = job
    env = dict(ENV, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS='print_stacktrace=1',
               MC_KNOWN=','.join(known))
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    t = time.time()
    try:
        p = subprocess.run([exe, '--state', state, '--scratch', scratch] + argv,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL, env=env, cwd=scratch,
                           timeout=limit)
        rc, out = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        rc, out = 124, (e.stdout or b'').decode(errors='replace')
    q = subprocess.run([exe, '--dump', state], stdout=subprocess.PIPE,
                       env=env)
    try:
        d = json.loads(q.stdout)
    except ValueError:
        d = None
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, out, d, time.time() - t


def load_known(pid):
    """known-findings.txt: lines 'known: property=ID key=KEY text...'"""
    known = {}
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3).strip()
    return known


def summarize_crash(rc, out):
    m = re.search(r'MC-FAIL: (.*)', out)
    if m:
        return m.group(1)
    m = re.search(r'(SUMMARY: .*|runtime error: .*|.*Assertion .* failed.*|'
                  r'\*\*\* stack smashing.*)', out)
    if m:
        return m.group(1).strip()
    return 'harness ended with status %s' % rc


def main():
    import checks
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if '--part' in sys.argv:
        only = sys.argv[sys.argv.index('--part') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if pid == '--setup':
        return setup()
    chk = checks.CHECKS[pid]
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    known = load_known(pid)
    tree = Tree()
    exes = {}
    workroot = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=BUILD)
    try:
        os.chmod(workroot, 0o755)
        with tree:
            tree.prune()
            for h in chk['harnesses']:
                e = build_harness(tree, pid, h)
                # a private copy: a concurrent run may rebuild
                d = os.path.join(workroot, 'x-' + h.get('name', '0'))
                shutil.copy2(e, d)
                exes[h.get('name', '0')] = d
        return explore(pid, chk, tier, seed, exes, workroot, known, t0, only)
    finally:
        shutil.rmtree(workroot, ignore_errors=True)


def explore(pid, chk, tier, seed, exes, workroot, known, t0, only):
    jobs, meta = [], []
    total = 700 if tier == 'quick' else 3600
    for h in chk['harnesses']:
        name = h.get('name', '0')
        for part in h['parts']:
            pname = part['part']
            if only and pname != only:
                continue
            if part.get('tier') == 'thorough' and tier != 'thorough':
                continue
            if part.get('tier') == 'quick' and tier != 'quick':
                continue
            ns = part.get('shards', 1)
            if tier == 'thorough':
                ns = part.get('shards_thorough', ns)
            bud = part.get('budget', 240)
            if tier == 'thorough':
                bud = part.get('budget_thorough', 1500)
            for i in range(ns):
                argv = ['--part', pname, '--tier', tier, '--budget', str(bud)]
                if ns > 1:
                    argv += ['--shard', '%d/%d' % (i, ns)]
                b = part.get('bound')
                if tier == 'thorough':
                    b = part.get('bound_thorough', b)
                if b is not None:
                    argv += ['--bound', str(b)]
                k = len(jobs)
                jobs.append((exes[name], argv,
                             os.path.join(workroot, 'st%d' % k),
                             os.path.join(workroot, 'scr%d' % k),
                             sorted(known), bud + 120))
                meta.append((name, pname, i, ns))
    viol = None
    results = []
    ex = cf.ThreadPoolExecutor(NCPU)
    futs = {ex.submit(run_part, j): n for n, j in enumerate(jobs)}
    stop = False
    for f in cf.as_completed(futs):
        n = futs[f]
        if f.cancelled():
            continue
        rc, out, d, wall = f.result()
        results.append((n, rc, out, d, wall))
        bad = rc not in (0, 12) or d is None or d['failed']
        if bad and viol is None:
            viol = judge(pid, jobs[n], meta[n], rc, out, d, workroot)
            if viol:
                stop = True
                for g in futs:
                    g.cancel()
    ex.shutdown(wait=True, cancel_futures=True)
    results.sort()
    for n, rc, out, d, wall in results:
        if os.environ.get('VERIF_VERBOSE') and d:
            print('%-28s %2d/%d rc=%d execs=%d steps=%d choices=%d states=%d '
                  'outcomes=%d depth=%d %s%.1fs' % (
                      meta[n][0] + ':' + meta[n][1], meta[n][2], meta[n][3],
                      rc, d['execs'], d['steps'], d['choices'], d['states'],
                      d['outcomes'], d['maxdepth'],
                      'CAPPED ' if d['capped'] else '', wall))
    evidence(pid, chk, tier, seed, results, meta, viol, known, t0)
    seen = {}
    for n, rc, out, d, wall in results:
        for k, c in (d or {}).get('known', {}).items():
            key = k.split(':')[0]
            seen[key] = seen.get(key, 0) + c
    for key in sorted(seen):
        print('KNOWN-FINDING: property=%s %s: %s (met %d times)' % (
            pid, key, known.get(key, ''), seen[key]))
    if viol:
        print(viol['text'])
        print('VIOLATION property=%s replay=%s' % (pid, viol['path']))
        return 1
    errs = [r for r in results if r[1] not in (0, 12) or r[3] is None]
    if errs:
        # never reached a verdict for these parts
        for n, rc, out, d, wall in errs:
            print('check error in %s rc=%d: %s\n%s' % (
                meta[n], rc, (d or {}).get('msg'), out[-2000:]))
    tot = sum(r[3]['execs'] for r in results if r[3])
    print('%s: held on %d executions in %.1f s' % (pid, tot, time.time() - t0))
    return 0 if not errs else 3


def judge(pid, job, meta, rc, out, d, workroot):
    """Replays a failed exploration; returns the violation, or None."""
    exe, argv, state, scratch, known, limit = job
    name, pname, sh_i, sh_n = meta
    if d is None or d['failed'] == 2:
        return None
    if rc == 124 and not d['failed']:
        return None
    trace = d['trace']
    tf = os.path.join(workroot, 'trace-%s-%d' % (pname.replace('/', '_'), sh_i))
    with open(tf, 'w') as f:
        for v, n, dev, lab in trace:
            f.write('%d/%d/%d %s\n' % (v, n, dev, lab or '-'))
    base = []
    it = iter(argv)
    for a in it:
        if a == '--shard':
            next(it)
            continue
        base.append(a)
    how = None
    texts = []
    for k in range(2):
        r = run_part((exe, base + ['--replay', tf, '--hang', '60'],
                      state + '.r', scratch + '.r', known, 300))
        texts.append((r[0], r[1], r[2]))
    if all(t[0] not in (0, 11, 124, 2) and not (t[2] and t[2]['failed'] == 2)
           for t in texts):
        how = 'choices'
        rc2, out2, d2 = texts[0]
    else:
        # the failure needs the executions before it: run it all again
        r = run_part((exe, argv, state + '.r', scratch + '.r', known, limit))
        if r[0] not in (0, 11, 12, 124, 2) and r[2] and \
                [x[:2] for x in r[2]['trace']] == [x[:2] for x in trace]:
            how = 'exploration'
            rc2, out2, d2 = r[0], r[1], r[2]
    if how is None:
        print('unreproduced failure in %s (not reported): rc=%d %s %s' % (
            meta, rc, d.get('msg'), summarize_crash(rc, out)))
        print(texts[0][1][-1500:])
        return None
    rep = os.path.join(EVID, 'replay-%s.json' % pid)
    msg = d2['msg'] if d2 and d2['msg'] else summarize_crash(rc2, out2)
    if d2 and d2['failed'] == 0:
        msg = summarize_crash(rc2, out2)
    art = {'property': pid, 'harness': name, 'part': pname, 'how': how,
           'argv': base if how == 'choices' else argv, 'message': msg,
           'choices': [[x[3], x[0], x[1]] for x in trace],
           'note': (d2 or {}).get('note', ''), 'output': out2[-6000:],
           'replay_cmd': 'python3 bin/replay.py %s' % rep}
    with open(rep, 'w') as f:
        json.dump(art, f, indent=1)
    text = '%s [%s:%s] %s\n%s' % (pid, name, pname, msg,
                                  (d2 or {}).get('note', '')[-3000:])
    if not (d2 and d2['failed'] == 1):
        text += out2[-2500:]
    return {'path': rep, 'text': text, 'msg': msg}


def evidence(pid, chk, tier, seed, results, meta, viol, known, t0):
    ok = [r for r in results if r[3]]

    def tot(k):
        return sum(r[3][k] for r in ok)
    parts = {}
    for n, rc, out, d, wall in ok:
        p = parts.setdefault(meta[n][0] + ':' + meta[n][1], dict(
            executions=0, choices=0, operations=0, states=0, outcomes=0,
            max_depth=0, max_deviations=0, complete=True))
        p['executions'] += d['execs']
        p['choices'] += d['choices']
        p['operations'] += d['steps']
        p['states'] += d['states']
        p['outcomes'] += d['outcomes']
        p['max_depth'] = max(p['max_depth'], d['maxdepth'])
        p['max_deviations'] = max(p['max_deviations'], d['maxdevs'])
        p['complete'] = p['complete'] and bool(d['done']) and not d['capped']
    samples = []
    for n, rc, out, d, wall in ok:
        for s in d['samples'][:2]:
            if len(samples) < 12:
                samples.append('%s: %s' % (meta[n][1], s))
    exhaustive = bool(parts) and all(p['complete'] for p in parts.values())
    cov = {'states': tot('states'), 'transitions': tot('steps'),
           'traces_validated_against_impl': tot('execs'),
           'evaluations': tot('execs'),
           'distinct_nontrivial': tot('outcomes'),
           'rule': chk.get('rule', ''),
           'choice_points': tot('choices'),
           'samples': samples, 'parts': parts, 'exhaustive': exhaustive,
           'bounds': chk.get('bounds', '')}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': chk['level'],
          'coverage': cov, 'assumptions': chk.get('assumptions', []),
          'wall_s': round(time.time() - t0, 2),
          'violations': 1 if viol else 0}
    if viol:
        ev['coverage']['violation'] = viol['msg']
    tmp = os.path.join(EVID, '.%s.json' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, pid + '.json'))


def setup():
    os.makedirs(BUILD, exist_ok=True)
    with Tree() as t:
        for m in ('asan', 'mem'):
            t.lib(m)
    print('setup: ok')
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except CheckError as e:
        print('check error: %s' % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
