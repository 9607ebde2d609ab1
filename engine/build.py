"""mechanical extraction: copies /repo/src, compiles harness TUs to LLVM IR"""
import os, re, shutil, subprocess
REPO = os.environ.get('VP_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = ['common', 'common/data', 'physics', 'physics/electromagnetics', 'physics/fluidflow', 'physics/thermal', 'utils', 'utils/mesh_warper']
SYS = ['-isystem', '/usr/include/mfem', '-isystem', '/usr/include/hypre', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include',
       '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
LIBS = ['-Wl,-rpath,/usr/lib/x86_64-linux-gnu/openmpi/lib', '/usr/lib/x86_64-linux-gnu/libmfem.so.4.5.2', '/usr/lib/x86_64-linux-gnu/libHYPRE.so',
        '/usr/lib/x86_64-linux-gnu/libmetis.so', '/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi_cxx.so', '/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so']

def mirror(dst):
    """copy of /repo/src; the only edit: 'constexpr double x = expr' becomes
    'const double' (clang rejects g++'s constexpr libm calls)"""
    src = os.path.join(REPO, 'src')
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns('*.o'))
    n = 0
    for root, _, fs in os.walk(dst):
        for f in fs:
            if not f.endswith(('.hpp', '.cpp', '.h')): continue
            p = os.path.join(root, f)
            with open(p, errors='surrogateescape') as h: t = h.read()
            if 'constexpr' not in t: continue
            t2 = re.sub(r'(?m)^(\s*)(static\s+|inline\s+)*constexpr\s+double\b(?=[^;=]*=[^;]*\b(pow|log|exp|sqrt)\s*\()', lambda m: m.group(0).replace('constexpr', 'const'), t)
            # a constant that depends on one changed above
            names = set(re.findall(r'(?m)^\s*(?:static\s+|inline\s+)*const\s+double\s+(\w+)', t2)) - set(re.findall(r'(?m)^\s*(?:static\s+|inline\s+)*const\s+double\s+(\w+)', t))
            for _ in range(5):
                for m in list(re.finditer(r'(?m)^\s*(?:static\s+|inline\s+)*constexpr\s+double\s+(\w+)\s*=([^;]*);', t2)):
                    if any(re.search(r'\b%s\b' % n, m.group(2)) for n in names):
                        t2 = t2.replace(m.group(0), m.group(0).replace('constexpr', 'const')); names.add(m.group(1))
            if t2 != t:
                n += 1
                with open(p, 'w', errors='surrogateescape') as h: h.write(t2)
    return n

def inc(srcdir): return ['-I' + os.path.join(srcdir, d) for d in DIRS] + ['-I' + srcdir]

def harness_defs(harness):
    # '// VP-DEFS -Dx ...': preprocessor settings of a harness, the same in the verifier and natively
    return tuple(x for m in re.findall(r'(?m)^// VP-DEFS (.*)$', open(harness).read()) for x in m.split())

def sysinc(harness, out):
    # '// VP-ODL': the installed MFEM's headers with the declarations of the developers' branch added
    if not re.search(r'(?m)^// VP-ODL', open(harness, errors='replace').read()): return SYS
    from . import odl
    return ['-isystem', odl.headers(os.path.join(os.path.dirname(os.path.abspath(out)), 'mfem-odl'))] + SYS

def emit_ir(harness, srcdir, out, defs=()):
    defs = tuple(defs) + harness_defs(harness)
    cmd = ['/usr/bin/clang++-18', '-std=c++17', '-O0', '-S', '-emit-llvm', '-fno-discard-value-names', '-ffp-contract=off', '-w',
           '-Xclang', '-disable-O0-optnone', '-include', os.path.join(HERE, 'include', 'vp_pre.hpp'), '-DVP_SRC="%s"' % srcdir, '-I' + os.path.join(HERE, 'include'), '-I' + os.path.join(HERE, 'harness')] + list(defs) + inc(srcdir) + sysinc(harness, out) + ['-o', out, harness]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('extraction: clang failed on %s\n%s' % (harness, p.stderr[:3000]))

def native(harness, out, defs=()):
    if re.search('mfem_(fe_)?model.hpp', open(harness).read()): defs = tuple(defs) + ('-DVP_MPI',)
    defs = tuple(defs) + harness_defs(harness)
    srcdir = os.path.join(REPO, 'src')
    cmd = ['g++', '-std=c++17', '-O1', '-w', '-DVP_NATIVE', '-DVP_SRC="%s"' % srcdir, '-I' + os.path.join(HERE, 'include'), '-I' + os.path.join(HERE, 'harness')] + list(defs) + inc(srcdir) + sysinc(harness, out) + \
          ['-o', out, harness, os.path.join(HERE, 'include', 'vp_native.cpp')] + LIBS
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode: raise RuntimeError('native build failed on %s\n%s' % (harness, p.stderr[:3000]))
