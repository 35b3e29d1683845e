"""Compiles the current sources of /repo together with a harness to LLVM IR and
dumps it for the analysis.  Results are cached by content."""
import hashlib
import os
import subprocess
import sys
import tempfile
import glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, 'build')
CXX = 'clang++-18'
FLAGS = ['-std=c++20', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-g', '-fstandalone-debug',
         '-emit-llvm', '-c', '-w']


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd[:3]) + ' ...\n' + p.stdout.decode(errors='replace')[-3000:])
    return p.stdout


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def writable_cache():
    try:
        os.makedirs(CACHE, exist_ok=True)
        return CACHE
    except OSError:
        d = os.path.join(tempfile.gettempdir(), 'verif_cache')
        os.makedirs(d, exist_ok=True)
        return d


def irdump_bin():
    src = os.path.join(VERIF, 'engine', 'irdump.cc')
    d = writable_cache()
    out = os.path.join(d, 'irdump-' + sha(open(src, 'rb').read()))
    if not os.path.exists(out):
        cf = run(['llvm-config-18', '--cxxflags']).decode().split()
        lf = run(['llvm-config-18', '--ldflags']).decode().split()
        tmp = out + f'.{os.getpid()}'
        run([CXX, '-O1', '-fno-rtti'] + cf + ['-w', src, '-o', tmp] + lf + ['-lLLVM-18'])
        os.rename(tmp, out)
    return out


def gen_dir():
    """generated protobuf headers"""
    g = os.path.join(REPO, '_build', 'gen')
    if os.path.exists(os.path.join(g, 'google', 'api', 'http.pb.h')):
        return g
    d = os.path.join(writable_cache(), 'gen')
    if not os.path.exists(os.path.join(d, 'google', 'api', 'http.pb.h')):
        os.makedirs(d, exist_ok=True)
        jars = glob.glob('/usr/share/java/proto-google-common-protos*.jar')
        with tempfile.TemporaryDirectory() as t:
            if jars:
                run(['unzip', '-q', '-o', jars[0], '-d', t])
                run(['protoc', '-I' + t, '-I/usr/include', '--cpp_out=' + d,
                     'google/api/http.proto', 'google/api/annotations.proto'], cwd=t)
    return d


def tree_hash():
    h = hashlib.sha256()
    for base in ('src', ):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, base))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith(('.cc', '.h', '.inc', '.cpp', '.hpp')):
                    p = os.path.join(dp, f)
                    h.update(os.path.relpath(p, REPO).encode() + b'\0')
                    h.update(open(p, 'rb').read())
                    h.update(b'\0')
    return h.hexdigest()


def dump(harness, sources, entries, extra=()):
    """path of the JSON dump of harness + sources, reachable from entries"""
    hs = os.path.join(VERIF, 'harness', harness)
    tool = irdump_bin()
    key = sha(open(hs, 'rb').read(), ','.join(sources), ','.join(entries), ' '.join(extra), tree_hash(), tool, ' '.join(FLAGS))
    d = writable_cache()
    out = os.path.join(d, 'ir-' + key + '.json')
    if os.path.exists(out):
        return out
    inc = ['-I' + REPO, '-I' + os.path.join(REPO, 'src', 'include'), '-I' + gen_dir(), '-I' + os.path.join(VERIF, 'harness')] + list(extra)
    with tempfile.TemporaryDirectory() as t:
        procs = []
        bcs = []
        for i, s in enumerate([hs] + [os.path.join(REPO, x) for x in sources]):
            bc = os.path.join(t, f'{i}.bc')
            bcs.append(bc)
            procs.append(subprocess.Popen([CXX] + FLAGS + inc + [s, '-o', bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
        err = ''
        for p in procs:
            o = p.communicate()[0]
            if p.returncode:
                err += o.decode(errors='replace')
        if err:
            raise BuildError(err[-4000:])
        run(['llvm-link-18'] + bcs + ['-o', os.path.join(t, 'all.bc')])
        run(['opt-18', '-passes=function(sroa)', os.path.join(t, 'all.bc'), '-o', os.path.join(t, 'opt.bc')])
        j = run([tool, os.path.join(t, 'opt.bc')] + list(entries))
        tmp = out + f'.{os.getpid()}'
        open(tmp, 'wb').write(j)
        os.rename(tmp, out)
    # drop old dumps
    olds = sorted(glob.glob(os.path.join(d, 'ir-*.json')), key=os.path.getmtime)
    for o in olds[:-60]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return out
