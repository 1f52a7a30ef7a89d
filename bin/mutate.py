#!/usr/bin/env python3
"""mutate.py FILE CHECK[,CHECK..] [--from N] [--to N] [--step K] [--list] [--func re]

Measures the checks: applies small changes to a source file of a scratch copy of
the tree (one at a time), runs the checks on each, and lists the ones that no
check notices. Nothing in /repo is changed.
"""
import sys, os, re, json, time, shutil, subprocess, argparse, io, contextlib
W = os.environ.setdefault('MUT_DIR', '/tmp/mutb')
os.environ['VERIF_BUILD'] = W + '/build'
os.environ['VERIF_EVIDENCE'] = W + '/ev'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, checks


def strip_comments(s):
    """blanks comments and strings, keeping the positions"""
    out = []
    i = 0
    pat = re.compile(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\])*\'',
                     re.S)
    for m in pat.finditer(s):
        out.append(s[i:m.start()])
        out.append(re.sub(r'[^\n]', ' ', m.group(0)))
        i = m.end()
    out.append(s[i:])
    return ''.join(out)


def functions(s):
    """(name, start, end) of the bodies"""
    r = []
    for m in re.finditer(r'^(?:static\s+)?[A-Za-z_][\w\s\*]*?\b(\w+)\s*\([^;{}]*\)\s*\{',
                         s, re.M):
        st = m.end()
        d = 1
        i = st
        while i < len(s) and d:
            if s[i] == '{':
                d += 1
            elif s[i] == '}':
                d -= 1
            i += 1
        r.append((m.group(1), st, i))
    return r


OPS = [(r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'),
       (r'(?<![<\-])<(?![<=])', '<='), (r'(?<![>\-])>(?![>=])', '>='),
       (r'&&', '||'), (r'\|\|', '&&'),
       (r'\+ 1\b', '+ 0'), (r'- 1\b', '- 0'),
       (r'\+\+', '--'), (r'\+=', '-='), (r'-=', '+='),
       (r'= 0;', '= 1;'), (r'= 1;', '= 0;'), (r'= -1;', '= 0;'),
       (r'return\(0\)', 'return(1)'), (r'return\(1\)', 'return(0)'),
       (r'return\(-1\)', 'return(0)'), (r'return\(status\)', 'return(0)')]


def mutants(src):
    s = strip_comments(src)
    res = []
    for name, a, b in functions(s):
        body = s[a:b]
        for pat, rep in OPS:
            for m in re.finditer(pat, body):
                p = a + m.start()
                ls = s.rfind('\n', 0, p) + 1
                le = s.find('\n', p)
                line = s[ls:le]
                if line.lstrip().startswith('#') or 'assert' in line or \
                        re.match(r'\s*(static )?(int|char|struct|unsigned)\b.*= ', line) and ';' in line:
                    continue
                if 'log_' in line:
                    continue
                res.append((p, a + m.end(), rep, name, '%s -> %s' % (m.group(0), rep)))
        # statements
        for m in re.finditer(r'(?<=[;{}\n])[ \t]*\n?([ \t]*)((?:\(void\))?[A-Za-z_][\w\->\.\[\]\*]*\s*(?:\([^;{}]*\)|=[^;{}]*|\+\+|--|[+\-]=[^;{}]*));',
                             body):
            st = m.group(2)
            if re.match(r'(return|if|while|for|switch|else|case|do|log_|goto)\b|log_|assert', st):
                continue
            res.append((a + m.start(2), a + m.end(), ';', name, 'delete ' +
                        re.sub(r'\s+', ' ', st)[:70]))
        for m in re.finditer(r'\b(break|continue);', body):
            res.append((a + m.start(), a + m.end(), ';', name, 'delete ' + m.group(1)))
        for m in re.finditer(r'\bif\s*\(', body):
            # negation of the whole condition
            i = m.end()
            d = 1
            while d:
                d += (body[i] == '(') - (body[i] == ')')
                i += 1
            c = body[m.end():i - 1]
            if re.search(r'==|!=|<|>', c) and not re.search(r'&&|\|\|', c):
                continue        # the operator is changed above
            res.append((a + m.end(), a + i - 1, '!(' + src[a + m.end():a + i - 1] + ')',
                        name, 'negate ' + re.sub(r'\s+', ' ', c)[:60]))
    res.sort(key=lambda x: (x[0], x[4]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('checks')
    ap.add_argument('--from', dest='fr', type=int, default=0)
    ap.add_argument('--to', type=int, default=10**9)
    ap.add_argument('--step', type=int, default=1)
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--func')
    ap.add_argument('--only', help='comma separated numbers')
    ap.add_argument('--limit', type=int, default=400)
    a = ap.parse_args()
    os.makedirs(check.BUILD, exist_ok=True)
    os.makedirs(check.EVID, exist_ok=True)
    tree = check.Tree()
    tree.configure()
    path = os.path.join(tree.src, a.file)
    orig = os.path.join(check.REPO, a.file)
    src = open(orig, errors='surrogateescape').read()
    ms = mutants(src)
    sel = [i for i in range(len(ms)) if a.fr <= i < a.to and
           (i - a.fr) % a.step == 0]
    if a.func:
        sel = [i for i in sel if re.search(a.func, ms[i][3])]
    if a.only:
        sel = [int(x) for x in a.only.split(',')]
    print('%s: %d mutants, %d selected' % (a.file, len(ms), len(sel)))
    if a.list:
        for i in sel:
            p = ms[i]
            print(i, p[3], src.count('\n', 0, p[0]) + 1, p[4])
        return
    insrc = a.file.startswith('src/')
    for m in ('asan', 'mem'):
        if insrc or m == 'asan':
            tree.lib(m)
    objn = a.file[len('src/'):].replace('/', '__')[:-2] + '.o'
    res = {'killed': 0, 'nocompile': 0, 'survived': [], 'error': []}
    for i in sel:
        st, en, rep, fn, desc = ms[i]
        line = src.count('\n', 0, st) + 1
        open(path, 'w', errors='surrogateescape').write(src[:st] + rep + src[en:])
        t0 = time.time()
        verdict = None
        ok = True
        s = os.path.join(tree.src, 'src')
        try:
            for mode in ('asan', 'mem') if insrc else ():
                od = os.path.join(tree.dir, 'lib-' + mode)
                rc, o = check.sh(['gcc', '-c'] + check.BASEFLAGS +
                                 check.MODES[mode][0] + ['-iquote', s,
                                 '-I/usr/include/tcl8.6', '-DHAS_CLOCK_GETTIME',
                                 '-o', os.path.join(od, objn), a.file[4:]] + (
                                 ['-Dmain=nbspd_main'] if a.file.endswith('/main.c') else []),
                                 cwd=s)
                if rc:
                    ok = False
                    break
                check.sh(['ar', 'r', os.path.join(od, 'libnbsp.a'),
                          os.path.join(od, objn)])
            if not ok:
                res['nocompile'] += 1
                continue
            for pid in a.checks.split(','):
                p = subprocess.run([sys.executable, '-c', '''
import sys, os, time, tempfile, shutil
sys.path.insert(0, %r)
import check, checks
class T:
    pass
t = check.Tree.__new__(check.Tree)
t.dir, t.src, t.key = %r, %r, ''
pid = %r
chk = checks.CHECKS[pid]
w = tempfile.mkdtemp(prefix='run-', dir=check.BUILD)
os.chmod(w, 0o755)
try:
    exes = {}
    for h in chk['harnesses']:
        e = check.build_harness(t, pid, h)
        d = os.path.join(w, 'x-' + h.get('name', '0'))
        shutil.copy2(e, d)
        exes[h.get('name', '0')] = d
    rc = check.explore(pid, chk, 'quick', 1, exes, w, check.load_known(pid), time.time(), None)
finally:
    shutil.rmtree(w, ignore_errors=True)
sys.exit(rc)
''' % (os.path.dirname(os.path.abspath(__file__)), tree.dir, tree.src, pid)],
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                    errors='replace')
                if p.returncode == 1 and 'VIOLATION' in p.stdout:
                    verdict = pid
                    break
                if not insrc and 'compile failed' in p.stdout:
                    ok = False
                    break
                if p.returncode != 0:
                    verdict = 'ERROR rc=%d %s' % (p.returncode, p.stdout[-300:].replace('\n', ' | '))
            if not ok:
                res['nocompile'] += 1
                continue
        finally:
            open(path, 'w', errors='surrogateescape').write(src)
        dt = time.time() - t0
        if verdict is None:
            res['survived'].append(i)
            print('SURVIVED %d %s:%d %s: %s (%.0fs)' % (i, a.file, line, fn, desc, dt))
        elif verdict.startswith('ERROR'):
            res['error'].append(i)
            print('ERROR %d %s:%d %s: %s (%.0fs) %s' % (i, a.file, line, fn, desc, dt, verdict))
        else:
            res['killed'] += 1
            if os.environ.get('MUT_V'):
                print('killed %d %s:%d %s: %s by %s (%.0fs)' % (i, a.file, line, fn, desc, verdict, dt))
        sys.stdout.flush()
    for mode in ('asan', 'mem') if insrc else ():
        shutil.rmtree(os.path.join(tree.dir, 'lib-' + mode), ignore_errors=True)
    print('%s: killed %d, survived %d, errors %d, not compiling %d' % (
        a.file, res['killed'], len(res['survived']), len(res['error']), res['nocompile']))


main()
