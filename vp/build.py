"""Builds harness programs from /repo's current working tree, per instrumentation flavor.

Objects are cached by ccache (content addressed) below /verif/.work, so nothing stale is ever used."""
import concurrent.futures as cf
import os, shutil, subprocess, sys, glob, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
WORK = os.environ.get('VP_WORK', os.path.join(VERIF, '.work'))

COMMON = ['-std=c++17', '-DDISCOTEC_USE_LZ4', '-DTIMING', '-DNDEBUG', '-fno-strict-aliasing', '-w',
          '-march=x86-64-v2', '-DDISCOTEC_VERIF']
FLAVORS = {
    'plain': ['-O1', '-g1', '-fopenmp', '-D_GLIBCXX_ASSERTIONS'],
    'asan': ['-O1', '-g1', '-fopenmp', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize=vptr,nonnull-attribute', '-fsanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS'],
    'tsan': ['-O1', '-g1', '-fopenmp', '-fno-omit-frame-pointer', '-fsanitize=thread'],
}
LIBS = ['-lboost_serialization', '-lboost_program_options', '-lboost_system', '-lboost_date_time',
        '-lglpk', '-llz4', '-lpthread', '-ldl']


class BuildError(Exception):
    pass


def mpi_flags():
    inc = subprocess.run(['mpicxx', '--showme:compile'], capture_output=True, text=True).stdout.split()
    lnk = subprocess.run(['mpicxx', '--showme:link'], capture_output=True, text=True).stdout.split()
    return inc, lnk


def lib_sources(which):
    """all: the whole library;
    base: everything but the manager; third: network utilities only; broker: the third level manager"""
    if which == 'broker':
        return sorted(glob.glob(REPO + '/third_level_manager/*.cpp'))
    src = []
    for d, dn, fs in os.walk(REPO + '/src'):
        for f in fs:
            if f.endswith('.cpp'):
                src.append(os.path.join(d, f))
    src.sort()
    if which == 'base':
        src = [s for s in src if '/manager/' not in s]
    return src


def compile_one(args):
    cmd, obj = args
    p = subprocess.run(cmd, capture_output=True, text=True)
    return (p.returncode, obj, ' '.join(cmd), p.stdout + p.stderr)


def build(programs, jobs=8, log=print):
    """programs: list of dict(name, flavor, main, lib, extra_src, extra_flags, link_extra). Returns name -> path"""
    env = os.environ
    cc = shutil.which('ccache')
    if cc:
        env['CCACHE_DIR'] = os.path.join(WORK, 'ccache')
        env['CCACHE_MAXSIZE'] = '4G'
        env['CCACHE_COMPILERCHECK'] = 'content'
        env['CCACHE_NOHASHDIR'] = '1'
        env['CCACHE_SLOPPINESS'] = ''
    inc, lnk = mpi_flags()
    todo, links = {}, []
    for p in programs:
        fl = FLAVORS[p['flavor']]
        flags = COMMON + fl + p.get('extra_flags', [])
        tag = p['flavor'] + '-' + hashlib.sha1(' '.join(flags).encode()).hexdigest()[:8]
        odir = os.path.join(WORK, 'obj', tag)
        os.makedirs(odir, exist_ok=True)
        objs = []
        srcs = [os.path.join(VERIF, 'harness', s) for s in [p['main']] + p.get('extra_src', []) if s]
        srcs = [(s, '') for s in srcs] + [(s, '') for s in (lib_sources(p['lib']) if p.get('lib') else [])]
        for s in p.get('repo_src', []):
            srcs.append((os.path.join(REPO, s), ''))
        for s, _ in srcs:
            o = os.path.join(odir, s.strip('/').replace('/', '__') + '.o')
            std = [] if s.endswith('.c') else []
            comp = ['gcc'] if s.endswith('.c') else ['g++']
            f2 = [x for x in flags if not (s.endswith('.c') and x.startswith('-std=c++'))]
            if os.path.basename(s).startswith('mgomp'):
                f2 = [x for x in f2 if x != '-fopenmp' and not x.startswith('-fsanitize')]
            cmd = ([cc] if cc else []) + comp + f2 + ['-I' + REPO + '/src', '-I' + REPO + '/third_level_manager',
                  '-I' + os.path.join(VERIF, 'harness')] + inc + ['-c', s, '-o', o]
            todo[o] = cmd
            objs.append(o)
        exe = os.path.join(WORK, 'bin', tag, p['name'])
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        ompl = [] if p.get('no_gomp') else ['-fopenmp']
        san = [x for x in fl if x.startswith('-fsanitize')]
        links.append((p['name'], exe, ['g++'] + san + ompl + objs + ['-o', exe] + p.get('link_extra', []) + LIBS + lnk))
    # biggest first
    heavy = ('harness', 'ProcessGroupWorker', 'ProcessManager', 'ProcessGroupManager')
    order = sorted(todo.items(), key=lambda kv: min([i for i, h in enumerate(heavy) if h in kv[0]] + [9]))
    with cf.ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(compile_one, [(c, o) for o, c in order]))
    bad = [r for r in res if r[0] != 0]
    if bad:
        raise BuildError('compilation failed: ' + bad[0][2] + '\n' + bad[0][3][-4000:])
    out = {}
    for name, exe, cmd in links:
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode != 0:
            raise BuildError('link failed: ' + name + '\n' + p.stdout[-2000:] + p.stderr[-4000:])
        out[name] = exe
    return out
