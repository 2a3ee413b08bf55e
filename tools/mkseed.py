#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the specs in tools/bugs/*.spec.py and confirms each:
applies, builds, stable tests pass, demo 0 without and non-zero with the change.
  mkseed.py [ID ...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
REPO, OUT = '/repo', os.path.join(HERE, '..', 'seeded')
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
    BUGS.append((id, prop, edits, needs, breaks, demo))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    for f in sorted(glob.glob(os.path.join(HERE, 'bugs', '*.spec.py'))):
        exec(compile(open(f).read(), f, 'exec'), dict(bug=bug))
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty /repo'
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    ids = [b[0] for b in BUGS]
    assert len(set(ids)) == len(ids)
    only = sys.argv[1:]
    for id, prop, edits, needs, breaks, demo in BUGS:
        d = os.path.join(OUT, id)
        if only and id not in only or not only and os.path.exists(os.path.join(d, 'meta.json')):
            continue
        tmp = tempfile.mkdtemp(prefix='seed-')
        ok = True
        try:
            for path, old, new in edits:
                p = os.path.join(REPO, path)
                s = open(p, newline='').read()
                crlf = '\r\n' in s
                if crlf:
                    s = s.replace('\r\n', '\n')
                if s.count(old) != 1:
                    print(id, 'pattern found', s.count(old), 'times in', path, repr(old[:60]))
                    ok = False
                    break
                s = s.replace(old, new)
                if crlf:
                    s = s.replace('\n', '\r\n')
                open(p, 'w', newline='').write(s)
            if ok:
                # which lines does it remove, and are they of the original?
                bl = subprocess.run('git -C /repo diff -U0', shell=True, stdout=subprocess.PIPE).stdout
                os.makedirs(d, exist_ok=True)
                open(os.path.join(d, 'patch.diff'), 'wb').write(bl if False else subprocess.run('git -C /repo diff', shell=True, stdout=subprocess.PIPE).stdout)
                cur = None
                for line in bl.decode('latin-1').split('\n'):
                    if line.startswith('--- a/'):
                        cur = line[6:].strip()
                    if line.startswith('@@'):
                        a = line.split()[1][1:].split(',')
                        n = int(a[1]) if len(a) > 1 else 1
                        if n:
                            out = sh('git -C /repo blame -s -L %s,+%d HEAD -- %s' % (a[0], n, cur)).stdout
                            mine = [x for x in out.splitlines() if not x.startswith('^')]
                            if mine:
                                print(id, 'NOTE touches own lines:', mine)
                        else:
                            print(id, 'NOTE pure insertion in', cur)
                for f in ('kit.py', 'demo.sh'):
                    shutil.copy(os.path.join(HERE, 'bugs', f), d)
                open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
                json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
                moved = os.path.join(tmp, 'demo')
                shutil.copytree(d, moved, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
                b = sh('bash /opt/vp/build.sh')
                t = sh('bash /opt/vp/test.sh %s/t.json' % tmp)
                passed = set(json.load(open(tmp + '/t.json'))['passed'])
                w = sh('bash %s/demo.sh' % moved, cwd=REPO)
                sh('git -C /repo checkout -- .')
                o = sh('bash %s/demo.sh' % moved, cwd=REPO)
                ap = sh('git -C /repo apply --check %s' % os.path.join(d, 'patch.diff'))
                ok = b.returncode == 0 and stable <= passed and w.returncode != 0 and o.returncode == 0 and ap.returncode == 0
                print(id, prop, 'OK' if ok else 'BAD', 'build', b.returncode, 'tests', sorted(stable - passed), 'demo with %d without %d' % (w.returncode, o.returncode), ap.stdout)
                if '-v' in os.environ.get('V', '') or not ok:
                    print(w.stdout[-1500:]); print('--'); print(o.stdout[-1500:])
                else:
                    print('    ' + ([x for x in w.stdout.splitlines() if 'FAIL' in x or 'Error' in x] or ['?'])[-1][:150])
        finally:
            sh('git -C /repo checkout -- .')
            shutil.rmtree(tmp)
        if not ok:
            shutil.rmtree(d, ignore_errors=True)
        sys.stdout.flush()


main()
