"""Builds LLVM IR and native objects from /repo's current working tree."""
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VP_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18'
STD = ['-std=c++14', '-I%s/include' % REPO, '-I%s/dv/cpp' % VERIF]
IRFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-exceptions',
           '-fno-access-control', '-D_GLIBCXX_ASSERTIONS=0', '-U_GLIBCXX_ASSERTIONS', '-w', '-S', '-emit-llvm']


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise RuntimeError('command failed: %s\n%s' % (' '.join(cmd), (r.stdout + r.stderr)[-4000:]))
    return r.stdout


def ir_of(src, out, passes='sroa', extra=()):
    sh([CLANG] + STD + IRFLAGS + list(extra) + [src, '-o', out + '.0'])
    sh(['opt-18', '-S', '-passes=' + passes, out + '.0', '-o', out])
    os.unlink(out + '.0')
    return out


def repo_sources():
    d = REPO + '/src/walnut'
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]


def module_ir(harness_cpp, workdir, with_src=True, extra=()):
    """one linked, sroa'd IR file for a harness TU and all of /repo/src"""
    os.makedirs(workdir, exist_ok=True)
    srcs = [harness_cpp] + (repo_sources() if with_src else [])
    outs = []
    with ThreadPoolExecutor(8) as ex:
        futs = []
        for s in srcs:
            o = os.path.join(workdir, os.path.basename(s) + '.ll')
            outs.append(o)
            futs.append(ex.submit(ir_of, s, o, 'sroa', extra))
        for f in futs:
            f.result()
    linked = os.path.join(workdir, 'module.ll')
    if len(outs) > 1:
        sh(['llvm-link-18', '-S', '--internalize=false'] + outs + ['-o', linked]) if False else sh(['llvm-link-18', '-S'] + outs + ['-o', linked])
    else:
        os.rename(outs[0], linked)
    return linked


NATIVE = ['-O1', '-g', '-DVP_NATIVE', '-w', '-fno-access-control',
          '-fsanitize=signed-integer-overflow,integer-divide-by-zero,shift-exponent,null,bounds,unreachable,return', '-fsanitize-trap=all']


def native_exe(harness_cpp, workdir, extra=()):
    os.makedirs(workdir, exist_ok=True)
    srcs = [harness_cpp, VERIF + '/dv/cpp/vp_native.cc'] + repo_sources()
    objs = []
    with ThreadPoolExecutor(8) as ex:
        futs = []
        for s in srcs:
            o = os.path.join(workdir, os.path.basename(s) + '.o')
            objs.append(o)
            futs.append(ex.submit(sh, [CLANG] + STD + NATIVE + list(extra) + ['-c', s, '-o', o]))
        for f in futs:
            f.result()
    exe = os.path.join(workdir, 'native')
    sh([CLANG] + objs + ['-o', exe])
    return exe
