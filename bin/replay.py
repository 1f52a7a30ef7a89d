#!/usr/bin/env python3
"""replay.py FILE: rebuilds the harness named in a replay artefact from /repo's
working tree and runs the recorded choices again."""
import sys, os, json, shutil, subprocess, tempfile
import check
import checks


def main():
    art = json.load(open(sys.argv[1]))
    pid = art['property']
    chk = checks.CHECKS[pid]
    spec = [h for h in chk['harnesses']
            if h.get('name', '0') == art['harness']][0]
    os.makedirs(check.BUILD, exist_ok=True)
    with check.Tree() as t:
        exe = check.build_harness(t, pid, spec)
    work = tempfile.mkdtemp(prefix='replay-', dir=check.BUILD)
    os.chmod(work, 0o755)
    try:
        argv = [exe, '--state', work + '/st', '--scratch', work + '/scr'] + \
            art['argv']
        os.makedirs(work + '/scr')
        if art['how'] == 'choices':
            with open(work + '/trace', 'w') as f:
                for lab, v, n in art['choices']:
                    f.write('%d/%d/0 %s\n' % (v, n, lab or '-'))
            argv += ['--replay', work + '/trace', '--hang', '60']
        env = dict(check.ENV, ASAN_OPTIONS=check.ASAN,
                   MC_KNOWN=','.join(check.load_known(pid)))
        p = subprocess.run(argv, env=env, cwd=work + '/scr')
        subprocess.run([exe, '--dump', work + '/st'], env=env)
        print('recorded: ' + art['message'])
        print('exit status %d' % p.returncode)
        return 1 if p.returncode else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


sys.exit(main())
