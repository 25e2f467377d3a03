import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENG = os.path.join(VERIF, 'engine')
BUILD = os.path.join(ENG, 'build')
REPO = os.environ.get('SYM_REPO', '/repo')
def popen(cmd, **kw): return subprocess.Popen(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
class Jobs:
    """small dependency-free parallel runner: start() then wait()"""
    def __init__(self): self.j = []
    def add(self, name, cmd): self.j.append((name, cmd, popen(cmd)))
    def wait(self):
        bad = []
        for name, cmd, p in self.j:
            out = p.communicate()[0].decode('utf8', 'replace')
            if p.returncode: bad.append((name, cmd, out))
        self.j = []
        return bad
CLANGF = '-std=c++17 -O1 -g1 -w -fno-vectorize -fno-slp-vectorize -Xclang -disable-llvm-passes -emit-llvm -c'
def eng_hash():
    h = hashlib.sha256()
    for f in sorted(os.listdir(ENG)):
        p = os.path.join(ENG, f)
        if os.path.isfile(p): h.update(f.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()
def engine_jobs(d, jobs):
    """commands that build the parts of the engine that do not depend on /repo"""
    jobs.add('pass', f'clang++ -shared -fPIC $(llvm-config --cxxflags) -O1 -w {ENG}/SymPass.cpp -o {d}/SymPass.so')
    jobs.add('symrt', f'g++ -std=c++17 -O2 -w -c {ENG}/symrt.cpp -o {d}/symrt.o')
    jobs.add('expr', f'g++ -std=c++17 -O2 -w -c {ENG}/expr.cpp -o {d}/expr.o')
    jobs.add('models', f'clang++ {CLANGF} -fno-builtin -I{ENG} {ENG}/models.cpp -o {d}/models.bc')
    jobs.add('libmodels', f'clang++ {CLANGF} -I{ENG} {ENG}/libmodels.cpp -o {d}/libmodels.bc')
    jobs.add('support', f'clang++ {CLANGF} -I{ENG} {ENG}/support.cpp -o {d}/support.bc')
    jobs.add('replay', f'g++ -std=c++17 -O0 -w -c -I{ENG} {ENG}/replay.cpp -o {d}/replay.o')
ENG_OUT = ['SymPass.so', 'symrt.o', 'expr.o', 'models.bc', 'libmodels.bc', 'support.bc', 'replay.o']
def engine_ready():
    st = os.path.join(BUILD, 'stamp')
    return os.path.exists(st) and open(st).read() == eng_hash() and all(os.path.exists(os.path.join(BUILD, f)) for f in ENG_OUT)
