"""Make and confirm planted bugs.

    plant.py make SPEC.py...      write /verif/seeded/<id>/ from a specification
    plant.py try ID [CHECK...]    demo on the clean tree and with the patch, and
                                  the property's (and other) checks against it
    plant.py confirm ID...        also build and run the stable tests

Everything happens in a copy of /repo under /tmp, which is bound over /repo in
a private mount namespace where a command needs it to be there.
"""
import json, os, shutil, subprocess, sys, tempfile, time

VERIF = '/verif'
SEEDED = VERIF + '/seeded'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def ns(slot, cmd, timeout=900):
    """run cmd with slot bound over /repo"""
    return sh(['unshare', '-Urm', 'bash', '-c',
               f'mount --bind {slot} /repo && cd /repo && {cmd}'], timeout=timeout)


def make(path):
    spec = {}
    exec(open(path).read(), spec)
    bid = os.path.basename(path)[:-3]
    slot = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        sh(['cp', '-a', '/repo/.', slot])
        for f, old, new in spec['EDITS']:
            p = slot + '/' + f
            s = open(p, newline='').read()
            crlf = '\r\n' in s
            s = s.replace('\r\n', '\n')
            assert s.count(old) == 1, (bid, f, s.count(old), old)
            s = s.replace(old, new)
            if crlf:
                s = s.replace('\n', '\r\n')
            open(p, 'w', newline='').write(s)
        diff = subprocess.run(['git', '-C', slot, 'diff', '--no-color'],
                              stdout=subprocess.PIPE).stdout
        assert diff
        d = f'{SEEDED}/{bid}'
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'wb').write(diff)
        open(d + '/demo.py', 'w').write(spec['DEMO'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=spec['PROP'], needs=spec['NEEDS'],
                       what_it_breaks=spec['BREAKS']),
                  open(d + '/meta.json', 'w'), indent=1)
    finally:
        shutil.rmtree(slot)
    print('made', bid)


def attempt(bid, checks=(), tests=False):
    d = f'{SEEDED}/{bid}'
    prop = json.load(open(d + '/meta.json'))['property']
    slot = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    out = {}
    try:
        sh(['cp', '-a', '/repo/.', slot])
        demo = tempfile.mkdtemp(prefix='demo-', dir='/tmp')
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(d + '/' + f, demo)
        t = time.time()
        r = ns(slot, f'bash {demo}/demo.sh', 300)
        out['clean'] = r.returncode
        if r.returncode:
            print(r.stdout[-1500:])
        out['demo_s'] = round(time.time() - t, 1)
        r = sh(f'git -C {slot} apply {d}/patch.diff')
        if r.returncode:
            print(r.stdout)
            return
        isc = '+++ b/c/' in open(d + '/patch.diff', newline='').read()
        if isc or tests:
            r = ns(slot, 'bash /opt/vp/build.sh')
            out['build'] = r.returncode
            if r.returncode:
                print(r.stdout[-1500:])
        r = ns(slot, f'bash {demo}/demo.sh', 300)
        out['patched'] = r.returncode
        print('   demo:', r.stdout.strip().splitlines()[-1:])
        shutil.rmtree(demo)
        if tests:
            for k in range(2):
                r = ns(slot, f'bash /opt/vp/test.sh {slot}/o.json')
                r = sh(f'/opt/venv/bin/python {VERIF}/tools/stable.py {slot}/o.json')
                out[f'tests{k}'] = r.stdout.strip().splitlines()[:4]
        for c in ([] if tests else [prop, *checks]):
            t = time.time()
            r = sh(f'cd {VERIF} && EUPHONIC_VERIF_REPO={slot} ./check.py {c} --no-evidence')
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out[c] = (r.returncode, len(v), round(time.time() - t))
            if v:
                i = r.stdout.splitlines().index(v[0])
                print('   ', '\n    '.join(x[:250] for x in r.stdout.splitlines()[max(0, i - 3):i + 4]))
        print(bid, out, flush=True)
    finally:
        shutil.rmtree(slot)


if __name__ == '__main__':
    cmd, *args = sys.argv[1:]
    if cmd == 'make':
        for a in args:
            make(a)
    elif cmd == 'try':
        attempt(args[0], args[1:])
    elif cmd == 'confirm':
        for a in args:
            attempt(a, tests=True)
