"""mkseed(id, prop, [(file, old, new)...], demo, needs, breaks): confirm a planted bug in a scratch copy and keep it under /verif/seeded"""
import json, os, subprocess, shutil, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def mkseed(id, prop, subs, demo, needs, breaks):
    w = tempfile.mkdtemp(prefix='seed-')
    c = w + '/repo'
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', c], check=True)
        d = w + '/' + id
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\n'
                                       'PYTHONPATH="$PWD/src" python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        r = subprocess.run(['bash', d + '/demo.sh'], cwd=c, capture_output=True, text=True)
        if r.returncode:
            print(id, 'DEMO FAILS ON CLEAN TREE', r.stderr[-600:]); return False
        for f, old, new in subs:
            p = f'{c}/src/pyrusgeom/{f}'
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(id, f, 'occurrences:', n); return False
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['bash', d + '/demo.sh'], cwd=c, capture_output=True, text=True, timeout=200)
        if r.returncode == 0:
            print(id, 'DEMO PASSES WITH THE BUG'); return False
        msg = r.stderr.strip().splitlines()[-1:]
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=c,
                           env=dict(os.environ, PYTHONPATH=c + '/src', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
        base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
        tail = r.stdout.strip().splitlines()[-1]
        if r.returncode:
            print(id, 'TESTS FAIL', tail, r.stdout[-500:]); return False
        df = subprocess.run(['git', 'diff'], cwd=c, capture_output=True, text=True).stdout
        # only original lines may be changed
        cur = None
        for ln in df.splitlines():
            if ln.startswith('--- a/'):
                cur = subprocess.run(['git', 'show', '8f439e6:' + ln[6:]], cwd='/repo', capture_output=True, text=True).stdout.splitlines()
            elif ln.startswith('-') and ln[1:].strip() and ln[1:] not in cur:
                print(id, 'changes a line that is not original:', ln); return False
        open(d + '/patch.diff', 'w').write(df)
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
        dst = f'{H}/seeded/{id}'
        if os.path.exists(dst):
            shutil.rmtree(dst)
        shutil.copytree(d, dst)
        print(id, 'ok', tail, msg)
        return True
    finally:
        shutil.rmtree(w)
