#!/usr/bin/env python3
"""Builds a managed harness: the C# library sources of /repo's working tree, harness/cs/mc.cs and harness/cs/<name>.cs are
compiled together into one program (so that the harness sees what is internal to the library); native libraries it calls
are built from /repo's working tree as well.     usage: build_cs.py <harness> [native,...]"""
import os, sys, shutil, concurrent.futures as cf
import build as b
LIB = b.R + '/unity/library'

def native_geo(out):
    b.sh(['g++', '-std=c++11', '-O1', '-shared', '-fPIC', '-w', '-include', 'string', '-include', 'sstream', '-I', b.CORE + '/src',
          os.path.join(b.V, 'harness/cs/geo_native.cpp'), '-o', os.path.join(out, 'libgeonative.so')], 'geo_native')

def native_shared(out):
    pb = b.gen_pb(); od = os.path.join(b.B, 'pic', 'obj'); os.makedirs(od, exist_ok=True)
    jobs = {}
    for s in b.core_sources(pb):
        o = os.path.join(od, s.replace(b.CORE, 'core').replace(b.B, 'b').replace('/', '_') + '.o')
        jobs[o] = (s, b.compile_cmd('pic', s, o, pb))
    order = sorted(jobs, key=lambda o: b.prio(jobs[o][0]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        for f in [ex.submit(b.sh, jobs[o][1], 'compile ' + jobs[o][0]) for o in order]: f.result()
    b.sh(['g++', '-shared', '-fPIC', '-Wl,-Bsymbolic', '-o', os.path.join(out, 'libUtyMap.Shared.so')] + list(jobs) + ['-lprotobuf', '-lz', '-lpthread', '-ldl'], 'link UtyMap.Shared')

NATIVE = dict(geo=native_geo, shared=native_shared)

def build(name, spec):
    out = os.path.join(b.B, 'cs', name); os.makedirs(out, exist_ok=True)
    refs = sorted(os.path.join(LIB, 'packages', f) for f in os.listdir(LIB + '/packages') if f.endswith('.dll') and not f.startswith(('nunit', 'Moq')))
    for r in refs: shutil.copy(r, out)
    for n in spec.get('native', []): NATIVE[n](out)
    src = [s for s in b.find(LIB + '/UtyMap.Unity', '.cs') if '/obj/' not in s and '/bin/' not in s and not s.endswith('AssemblyInfo.cs')]
    src += [os.path.join(b.V, 'harness/cs', f) for f in ['mc.cs', name + '.cs']]
    exe = os.path.join(out, name + '.exe')
    b.sh(['mcs', '-nologo', '-nostdlib', '-warn:0', '-debug', '-d:TRACE', '-d:DEBUG', '-out:' + exe] + ['-r:/usr/lib/mono/2.0-api/' + d for d in ['mscorlib.dll', 'System.dll', 'System.Core.dll', 'System.Xml.dll']] + ['-r:' + r for r in refs] + src, 'mcs ' + name)
    return ['env', 'MONO_GC_PARAMS=nursery-size=4m', 'LD_LIBRARY_PATH=' + out, 'mono', '--debug', exe]

if __name__ == '__main__':
    try: print(build(sys.argv[1], dict(native=sys.argv[2].split(',') if len(sys.argv) > 2 else [])))
    except b.BuildError as e: print(e); sys.exit(2)
