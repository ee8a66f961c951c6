"""Extraction: the real code of /repo's working tree, compiled to LLVM IR by clang, linked with the contracts and dumped as
JSON for the verifier; and the same contracts compiled natively against the same IR for replay and bounded checking."""
import concurrent.futures
import hashlib
import json
import os
import subprocess
import sys
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.environ.get('VF_BUILD', os.path.join(VERIF, 'build'))
PKGS = ['lanelet2_core', 'lanelet2_io', 'lanelet2_projection', 'lanelet2_traffic_rules', 'lanelet2_routing',
        'lanelet2_matching', 'lanelet2_validation']
LLVM = '/usr/lib/llvm-18'
CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'


def incs():
    r = []
    for p in PKGS:
        r += [f'-I{REPO}/{p}/include', f'-I{REPO}/{p}/include/{p}']
    return ['-I' + stl_dir()] + r + ['-isystem', '/usr/include/eigen3', f'-I{VERIF}/harness']


FE = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-limit-debug-info', '-fno-slp-vectorize',
      '-DEIGEN_DONT_VECTORIZE', '-w', '-fno-builtin-memcmp']

_hash = {}
_lock = threading.Lock()


def stl_dir():
    if 'stl' not in _hash:
        with _lock:
            _hash['stl'] = stl_dir1()
    return _hash['stl']


def stl_dir1():
    """libstdc++'s <bits/stl_algobase.h> without its 4-way unrolled __find_if overload for random access iterators: the
    generic overload of the same header is used instead (the only textual change of the extraction, in a library header)"""
    src = '/usr/include/c++/13/bits/stl_algobase.h'
    s = open(src).read()
    a = '/// This is an overload used by find algos for the RAI case.'
    b = 'template<typename _Iterator, typename _Predicate>\n    _GLIBCXX20_CONSTEXPR\n    inline _Iterator\n    __find_if('
    i, j = s.find(a), s.find(b)
    d = os.path.join(BUILD, 'stl')
    os.makedirs(os.path.join(d, 'bits'), exist_ok=True)
    if 0 <= i < j:
        s = s[:i] + s[j:]
    else:
        i = j = -1
    out = os.path.join(d, 'bits', 'stl_algobase.h')
    if not os.path.exists(out) or open(out).read() != s:
        tmp = f'{out}.{os.getpid()}.{threading.get_ident()}'
        open(tmp, 'w').write(s)
        os.replace(tmp, out)
    return d


def tree_hash():
    """content hash of everything a translation unit can include"""
    if 'h' in _hash:
        return _hash['h']
    h = hashlib.sha256()
    for p in PKGS:
        for d, ds, fs in sorted(os.walk(os.path.join(REPO, p))):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.h', '.hpp')):
                    q = os.path.join(d, f)
                    h.update(q.encode())
                    h.update(open(q, 'rb').read())
    for f in sorted(os.listdir(os.path.join(VERIF, 'harness'))):
        if f.endswith('.h'):
            h.update(open(os.path.join(VERIF, 'harness', f), 'rb').read())
    _hash['h'] = h.hexdigest()
    return _hash['h']


def key(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def run(cmd, what):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(f'{what}: {" ".join(cmd)[:400]}\n{p.stderr[-4000:]}')
    return p.stdout


def cached(out, fn):
    if not os.path.exists(out):
        tmp = f'{out}.{os.getpid()}.{threading.get_ident()}.tmp'
        fn(tmp)
        os.replace(tmp, out)
    return out


def tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    out = os.path.join(BUILD, 'irdump-' + key(open(src, 'rb').read()))
    return cached(out, lambda t: run(
        ['g++', '-O1', '-std=c++17', src, '-o', t, f'-I{LLVM}/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
         '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', f'-L{LLVM}/lib', '-lLLVM-18'], 'irdump'))


def bitcode(src, extra=()):
    """bitcode of one translation unit"""
    k = key(tree_hash(), open(src, 'rb').read(), src, FE, extra, open(stl_dir() + '/bits/stl_algobase.h').read())
    out = os.path.join(BUILD, 'bc', k + '.bc')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    return cached(out, lambda t: run([CLANG] + FE + list(extra) + incs() + ['-emit-llvm', '-c', src, '-o', t],
                                     'clang ' + src))


def native_obj(src, extra=()):
    bc = bitcode(src, extra)
    out = bc[:-3] + '.o'
    return cached(out, lambda t: run([CLANG, '-O1', '-w', '-c', '-x', 'ir', bc, '-o', t], 'codegen ' + src))


def pmap(f, xs, n=8):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))


def repo_srcs(names):
    out = []
    for n in names:
        if n.endswith('/*'):
            d = os.path.join(REPO, n[:-2])
            out += sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))
        else:
            out.append(os.path.join(REPO, n))
    return out


def module_json(harness, srcs, cuts):
    """the verified module: contracts + real code, reachable part only"""
    t = tool()
    hs = os.path.join(VERIF, 'harness', harness)
    files = [hs] + [s for s in repo_srcs(srcs) if os.path.exists(s)]
    bcs = pmap(bitcode, files)
    cutf = os.path.join(BUILD, 'cuts-' + key('\n'.join(cuts)))
    cached(cutf, lambda p: open(p, 'w').write('\n'.join(cuts) + '\n'))
    k = key(bcs, open(cutf).read(), open(os.path.join(VERIF, 'tools', 'irdump.cpp')).read(), 'v4')
    out = os.path.join(BUILD, 'ir', k + '.json')
    os.makedirs(os.path.dirname(out), exist_ok=True)

    def go(tmp):
        l = tmp + '.l.bc'
        o = tmp + '.o.bc'
        run([f'{LLVM}/bin/llvm-link'] + bcs + ['-o', l], 'llvm-link')
        nm = run([f'{LLVM}/bin/llvm-nm', '--defined-only', '--format=just-symbols', bcs[0]], 'nm').split()
        roots = [n for n in nm if n.startswith(('vc_', 'vfm_'))]
        if not roots:
            raise BuildError('no contracts in ' + harness)
        run([f'{LLVM}/bin/opt', '-passes=internalize,globaldce,function(sroa,simplifycfg,early-cse,loop-simplify)',
             '-internalize-public-api-list=' + ','.join(roots), l, '-o', o], 'opt')
        run([t, o, 'v', cutf, tmp], 'irdump')
        os.unlink(l)
        os.unlink(o)
    cached(out, go)
    return out


NAT = ('-DVF_NATIVE',)


def native_bin(harness, srcs):
    hs = os.path.join(VERIF, 'harness', harness)
    rt = os.path.join(VERIF, 'harness', 'vf_native.cpp')
    files = [(hs, NAT), (rt, NAT)] + [(s, ()) for s in repo_srcs(srcs) if os.path.exists(s)]
    objs = pmap(lambda x: native_obj(*x), files)
    out = os.path.join(BUILD, 'bin', key(objs))
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cached(out, lambda t: run([CLANG] + objs + ['-o', t, '-lpugixml', '-lGeographic' if os.path.exists(
        '/usr/lib/x86_64-linux-gnu/libGeographic.so') else '-lGeographicLib', '-lboost_serialization',
        '-lboost_filesystem', '-lboost_system', '-lboost_program_options'], 'link ' + harness))
    return out
