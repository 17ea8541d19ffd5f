"""From /repo's working tree to a parsed module."""
import os, subprocess, tempfile, shutil
import ir
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
def emit(out):
    cmd = ['clang++-18', '-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-fno-access-control',
           '-S', '-emit-llvm', '-I' + REPO + '/include', HERE + '/tu.cpp', '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr
def load(path):
    m = ir.Module(open(path).read())
    def c(n, d):
        g = m.globals.get('@' + n)
        if not g or not g[1]: return d
        return g[1][1] if g[1][0] == 'int' else 0
    m.err = {'no_match': c('vt_no_match', 1)}
    m.host = {n: c('vt_host_' + n, i) for i, n in enumerate('none name ipv4 ipv6 ipvfuture'.split())}
    m.scheme = {n: c('vt_scheme_' + n, i) for i, n in enumerate('unknown ftp file http https ws wss'.split())}
    m.byname = {}
    for n, d in m.dem.items():
        if n in m.funcs and n not in m.alias: m.byname.setdefault(d, n)
    return m
