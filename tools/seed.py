#!/usr/bin/env python3
"""Confirms a planted bug (seeded/<id>) in a scratch copy of /repo: patch applies, builds, the stable tests pass,
the demo passes without and fails with it.  With --check also runs the property's check against the copy.
usage: seed.py [--check[=C01,C02]] ID..."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = f'/tmp/seedtree{os.environ.get("SEEDN","")}'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def build():
    r = sh(f'export CC=/usr/bin/clang-18 CXX=/usr/bin/clang++-18; cmake -S /opt/vp/cmake -B {S}/_build -G Ninja -DREPO={S} '
           f'-DCMAKE_BUILD_TYPE=RelWithDebInfo "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1 -g" -DCMAKE_CXX_FLAGS=-Wno-error && ninja -C {S}/_build -k 0')
    return r


def prepare():
    if not os.path.exists(S + '/.ok'):
        shutil.rmtree(S, ignore_errors=True)
        sh(f'git clone -q /repo {S}')
        r = build()
        if r.returncode:
            print(r.stdout[-3000:]); sys.exit(1)
        open(S + '/.ok', 'w').close()
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh(f'cd {S} && git checkout -q -- . && git fetch -q /repo && git checkout -q {head}')


def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    sh(f'rm -f /tmp/j{os.getpid()}.xml; ctest --test-dir {S}/_build -j8 --timeout 300 --output-junit /tmp/j{os.getpid()}.xml')
    import xml.etree.ElementTree as ET
    bad = [t.get('name') for t in ET.parse(f'/tmp/j{os.getpid()}.xml').iter('testcase') if t.get('status') != 'run']
    os.unlink(f'/tmp/j{os.getpid()}.xml')
    return bad


def main():
    chk = [a for a in sys.argv[1:] if a.startswith('--check')]
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    prepare()
    r = build()
    for i in ids:
        d = f'{V}/seeded/{i}'
        ok = []
        if '--only-check' not in sys.argv:
            r0 = sh(f'bash {d}/demo.sh', cwd=S)
            ok.append(('demo-clean', r0.returncode == 0, r0.stdout[-300:]))
        r = sh(f'git apply {d}/patch.diff', cwd=S)
        ok.append(('apply', r.returncode == 0, r.stdout))
        if r.returncode == 0:
            if '--only-check' not in sys.argv:
                r = build()
                ok.append(('build', r.returncode == 0, r.stdout[-1500:]))
                b = tests()
                ok.append(('tests', not b, b[:5]))
                r1 = sh(f'bash {d}/demo.sh', cwd=S)
                ok.append(('demo-bug', r1.returncode not in (0, 3), r1.stdout[-300:]))
            meta = json.load(open(f'{d}/meta.json'))
            if chk:
                ps = chk[0].split('=')[1].split(',') if '=' in chk[0] else [meta['property']]
                for p in ps:
                    r2 = sh(f'python3 {V}/checks/{p.lower()}.py', env={**os.environ, 'VERIF_REPO': S}, cwd=V)
                    ok.append((f'caught-{p}', r2.returncode == 1, r2.stdout[-700:]))
        sh('git checkout -q -- .', cwd=S)
        print(i, ' '.join(f'{n}={"ok" if v else "NO"}' for n, v, _ in ok))
        for n, v, t in ok:
            if not v or '-v' in sys.argv:
                print('   ', n, t)
    build()


main()
