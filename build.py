#!/usr/bin/env python3
"""Builds the native library from /repo's current working tree (content-hash cached through ccache) and the
harness executables of /verif/harness against it.   usage: build.py <harness> [...]  |  build.py all"""
import os, sys, subprocess, shutil, concurrent.futures as cf, hashlib
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('UTY_REPO', '/repo')
B = os.environ.get('UTY_BUILD', os.path.join(V, 'build'))
CORE = R + '/core'
SLOW = ['MapCssParser', 'OsmXmlParser', 'LSystemParser', 'PersistentElementStore', 'TextureAtlasParser', 'ExportLib', 'osmformat', 'StyleProvider', 'GeoStore']

WRAP = ['pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock', 'pthread_rwlock_unlock', 'pthread_once', 'memcpy', 'memmove', 'memset', 'memcmp', 'strlen', '_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_', '_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_', '_ZNSt8__detail15_List_node_base7_M_hookEPS0_', '_ZNSt8__detail15_List_node_base9_M_unhookEv', '_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_']

VARIANTS = {
  # name: (compile flags, link flags)
  'asan': (['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'], ['-fsanitize=address']),
  # thread instrumentation linked with the controlled scheduler mcrt_rt.cpp; standard containers and streams are
  # instantiated (and so instrumented) in the library's objects; calls the runtime has to see are wrapped
  'mcrt': (['-O1', '-g1', '-fsanitize=thread', '--param=tsan-distinguish-volatile=1', '-fno-omit-frame-pointer', '-fno-builtin-memcpy', '-fno-builtin-strlen', '-D_GLIBCXX_EXTERN_TEMPLATE=0'],
           ['-Wl,--wrap=' + f for f in WRAP]),
  'fast': (['-O2', '-g1'], []),
  # for the shared library the managed harnesses load
  'pic': (['-O1', '-g1', '-fPIC'], []),
}
DEFS = ['-DNDEBUG', '-DPBF_SUPPORTED_ENABLED', '-DHAS_BOOST', '-w']

def ccache():
    c = shutil.which('ccache')
    return [c] if c else []

ENV = dict(os.environ, CCACHE_DIR=os.path.join(B, 'ccache'), CCACHE_NOHASHDIR='1', CCACHE_BASEDIR='', CCACHE_MAXSIZE='3G',
           CCACHE_SLOPPINESS='', CCACHE_COMPILERCHECK='content', LC_ALL='C.UTF-8')
ENV.pop('CCACHE_DISABLE', None)

class BuildError(Exception): pass

def sh(cmd, what=None):
    p = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('%s failed (%s):\n%s' % (what or cmd[0], ' '.join(cmd), p.stdout[-6000:]))
    return p.stdout

def find(d, ext):
    r = []
    for root, _, fs in os.walk(d):
        r += [os.path.join(root, f) for f in fs if f.endswith(ext)]
    return sorted(r)

def gen_pb():
    pb = os.path.join(B, 'pb'); os.makedirs(pb, exist_ok=True)
    src = CORE + '/src/formats/osm/pbf'
    tmp = pb + '.tmp%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    sh(['protoc', '-I', src, '--cpp_out=' + tmp, src + '/fileformat.proto', src + '/osmformat.proto'], 'protoc')
    for f in os.listdir(tmp):
        d = os.path.join(pb, f); s = os.path.join(tmp, f)
        if not os.path.exists(d) or open(d, 'rb').read() != open(s, 'rb').read():
            os.replace(s, d)
    shutil.rmtree(tmp)
    return pb

def core_sources(pb):
    return (find(CORE + '/src', '.cpp') + find(CORE + '/lib', '.cpp') + find(CORE + '/lib', '.c')
            + [pb + '/fileformat.pb.cc', pb + '/osmformat.pb.cc', CORE + '/shared/ExportLib.cpp'])

def incs(pb):
    return ['-I', CORE + '/src', '-I', CORE + '/lib', '-I', CORE + '/shared', '-I', pb]

def compile_cmd(variant, src, obj, pb, harness=False):
    flags = VARIANTS[variant][0]
    if src.endswith('.c'):
        # Shewchuk's exact predicates read (and ignore) one number behind the end of an expansion
        if variant == 'asan': flags = [f for f in flags if f != '-fsanitize=address']
        return ccache() + ['gcc'] + flags + ['-w', '-DNDEBUG'] + incs(pb)[:4] + ['-c', src, '-o', obj]
    std = ['-std=c++17'] if harness else ['-std=c++11']
    if os.path.basename(src) == 'mcrt_rt.cpp':
        flags = ['-O2', '-g1']
    return ccache() + ['g++'] + std + flags + DEFS + ['-include', 'string', '-include', 'sstream'] + incs(pb) + (['-I', V + '/harness'] if harness else []) + ['-c', src, '-o', obj]

def prio(s):
    for i, k in enumerate(SLOW):
        if k in s: return i
    return 99

# harness name -> (variant, extra link flags, extra sources)
def harness_conf(name):
    src = os.path.join(V, 'harness', name + '.cpp')
    variant, link, extra = 'asan', [], []
    for line in open(src):
        if line.startswith('//BUILD '):
            for tok in line[8:].split():
                k, v = tok.split('=', 1)
                if k == 'variant': variant = v
                elif k == 'link': link += v.split(',')
                elif k == 'src': extra += v.split(',')
        elif not line.startswith('//'): break
    link = [x.replace(';', ',') for x in link]
    return variant, link, extra

def build(names, verbose=False):
    pb = gen_pb()
    jobs = {}   # obj -> cmd
    exes = {}
    variants = {}
    for n in names:
        variant, link, extra = harness_conf(n)
        od = os.path.join(B, variant, 'obj'); os.makedirs(od, exist_ok=True)
        objs = []
        if variant not in variants:
            lib = []
            for s in core_sources(pb):
                o = os.path.join(od, s.replace(CORE, 'core').replace(B, 'b').replace('/', '_') + '.o')
                jobs[o] = (s, compile_cmd(variant, s, o, pb)); lib.append(o)
            variants[variant] = lib
        for s in [os.path.join(V, 'harness', n + '.cpp')] + [os.path.join(V, 'harness', e) for e in extra]:
            o = os.path.join(od, 'h_' + os.path.basename(s) + '.o')
            jobs[o] = (s, compile_cmd(variant, s, o, pb, harness=True)); objs.append(o)
        exes[n] = (variant, objs, link)
    order = sorted(jobs, key=lambda o: (prio(jobs[o][0]) if 'h_' not in os.path.basename(o) else 0.5))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futs = [ex.submit(sh, jobs[o][1], 'compile ' + jobs[o][0]) for o in order]
        for f in futs: f.result()
        def link1(n):
            variant, objs, link = exes[n]
            out = os.path.join(B, variant, n)
            # unused library objects are kept out by linking through an archive
            sh(['g++'] + VARIANTS[variant][1] + ['-o', out] + objs + ['-Wl,--start-group', libs[variant], '-Wl,--end-group'] + link + ['-lprotobuf', '-lz', '-lpthread', '-ldl'], 'link ' + n)
            return n, out
        libs = {}
        for v, lib in variants.items():
            a = os.path.join(B, v, 'libcore.a')
            if os.path.exists(a): os.unlink(a)
            sh(['ar', 'rcs', a] + lib, 'ar'); libs[v] = a
        return dict(ex.map(link1, list(exes)))

if __name__ == '__main__':
    names = sys.argv[1:]
    if names == ['all']:
        names = [os.path.basename(f)[:-4] for f in find(V + '/harness', '.cpp') if os.path.dirname(f) == V + '/harness' and 'int main' in open(f).read()]
    try:
        r = build(names)
        for k, v in sorted(r.items()): print(k, v)
    except BuildError as e:
        print(e); sys.exit(2)
