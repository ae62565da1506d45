# Builders for units that need more than one compiler call.
import os, re, subprocess, shutil

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')

def cpuid(repo, here, bdir, binp, cxx, flags, objs, errors):
    """The CPU detection sources of the tree, compiled to assembly in which the instructions cpuid and xgetbv are replaced
    by calls into the harness; their static data is collected in sections that the harness can reset."""
    if os.path.exists(binp): return binp
    tmp = binp + '.%d.d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        out = []
        hits = 0
        for src in ('cpuid', 'support_x86'):
            s = os.path.join(tmp, src + '.s')
            p = sh(['g++', '-std=c++14', '-w', '-O2', '-DNDEBUG', '-ftemplate-depth=128', '-fabi-version=0', '-DVc_COMPILE_LIB', '-fno-pie', '-mno-red-zone', '-fno-stack-protector', '-fcf-protection=none', '-fno-asynchronous-unwind-tables', '-I', repo, '-S', os.path.join(repo, 'src', src + '.cpp'), '-o', s])
            if p.returncode:
                errors.append(('hooked ' + src, p.stdout, [])); return ('compile-error', p.stdout)
            t = open(s).read()
            t, n = re.subn(r'(?m)^(\s*)cpuid\b', r'\1call vc_fake_cpuid', t)
            t, m = re.subn(r'(?m)^(\s*)(xgetbv\b|\.byte\s+0x0f\s*,\s*0x01\s*,\s*0xd0)', r'\1call vc_fake_xgetbv', t)
            hits += n
            open(s, 'w').write(t)
            o = os.path.join(tmp, src + '.o')
            p = sh(['as', s, '-o', o])
            if p.returncode: raise RuntimeError('assembler: ' + p.stdout)
            secs = set(re.findall(r'(?m)^\s*\d+\s+(\.(?:bss|data|tbss)(?:\.[^\s]*)?)\s', subprocess.run(['objdump', '-h', '-w', o], stdout=subprocess.PIPE, text=True).stdout))
            args = []
            for c in secs:
                args += ['--set-section-flags', c + '=alloc,load,data,contents', '--rename-section', c + '=vc_state,alloc,load,data,contents']
            p = sh(['objcopy'] + args + [o])
            if p.returncode: raise RuntimeError('objcopy: ' + p.stdout)
            out.append(o)
        if not hits: raise RuntimeError('no cpuid instruction found in the sources')
        bt = os.path.join(tmp, 'bin')
        p = sh([cxx] + flags + ['-no-pie', os.path.join(here, 'harness', 'c19_cpuid.cpp')] + out + objs + ['-o', bt])
        if p.returncode:
            errors.append((os.path.basename(binp), p.stdout, [])); return ('compile-error', p.stdout)
        os.replace(bt, binp)
        return binp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def abi(repo, here, bdir, binp, cxx, flags, objs, errors):
    """Programs whose translation units and library were built from headers with different version information."""
    from concurrent.futures import ThreadPoolExecutor
    prog = binp + '.programs'
    if os.path.exists(binp) and os.path.isdir(prog): return binp
    tmp = binp + '.%d.d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        ver = open(os.path.join(repo, 'Vc', 'version.h')).read()
        ma = re.search(r'(?m)^(#define\s+Vc_LIBRARY_ABI_VERSION\s+)(\d+)\s*$', ver)
        mv = re.search(r'(?m)^(#define\s+Vc_VERSION_NUMBER\s+)(0x[0-9a-fA-F]+)\s*$', ver)
        variants = [(0, 0)]
        if ma and mv: variants = [(a, v) for a in (0, -1, 1) for v in (0, -2, 2)]
        A, V = (int(ma.group(2)), int(mv.group(2), 0)) if ma and mv else (0, 0)
        f = [x for i, x in enumerate(flags) if not x.startswith('-I') and (i == 0 or flags[i - 1] != '-I')]
        outd = os.path.join(tmp, 'programs')
        os.makedirs(outd)
        main = os.path.join(tmp, 'main.cpp')
        open(main, 'w').write('#include <unistd.h>\nint second();\nint main() { if (write(1, "MAIN\\n", 5) != 5) return 1; return 40 + second(); }\n')
        sec = os.path.join(tmp, 'second.cpp')
        open(sec, 'w').write('int second() { return 2; }\n')
        fails = []
        def cc(args):
            p = sh([cxx] + f + args)
            if p.returncode: fails.append(p.stdout)
        def name(v): return 'a%d_v%d' % v
        def overlay(v):
            d = os.path.join(tmp, 'inc_' + name(v))
            os.makedirs(d)
            shutil.copytree(os.path.join(repo, 'Vc'), os.path.join(d, 'Vc'))
            if ma and mv:
                t = ver.replace(ma.group(0), ma.group(1) + str(A + v[0])).replace(mv.group(0), mv.group(1) + hex(V + v[1]))
                open(os.path.join(d, 'Vc', 'version.h'), 'w').write(t)
            shutil.copytree(os.path.join(repo, 'src'), os.path.join(d, 'src'))
            return d
        jobs = []
        for v in variants:
            d = overlay(v)
            n = name(v)
            lib = os.path.join(tmp, 'lib_%s.o' % n)
            jobs += [['-I', d, '-DVc_COMPILE_LIB', '-c', os.path.join(d, 'src', 'const.cpp'), '-o', lib],
                     ['-I', d, '-include', 'Vc/global.h', '-c', main, '-o', os.path.join(tmp, 'main_%s.o' % n)],
                     ['-I', d, '-include', 'Vc/global.h', '-c', sec, '-o', os.path.join(tmp, 'second_%s.o' % n)]]
        extra = [os.path.join(tmp, x + '.o') for x in ('cpuid', 'support_x86')]
        jobs += [['-I', repo, '-DVc_COMPILE_LIB', '-c', os.path.join(repo, 'src', x + '.cpp'), '-o', os.path.join(tmp, x + '.o')] for x in ('cpuid', 'support_x86')]
        jobs += [['-I', repo, '-DVc_NO_VERSION_CHECK', '-include', 'Vc/global.h', '-c', main, '-o', os.path.join(tmp, 'main_none.o')],
                 ['-c', sec, '-o', os.path.join(tmp, 'second_none.o')]]
        heads = [h for h in ('Vc', 'vector.h', 'Memory', 'SimdArray', 'Utils', 'Allocator', 'IO', 'algorithm', 'array', 'vector', 'span', 'iterators', 'limits', 'simdize', 'type_traits', 'cpuid.h', 'support.h', 'global.h') if os.path.exists(os.path.join(repo, 'Vc', h))]
        # several headers cannot be included on their own
        with ThreadPoolExecutor(8) as ex: ok = list(ex.map(lambda h: sh([cxx] + f + ['-I', repo, '-include', 'Vc/' + h, '-c', main, '-o', os.path.join(tmp, 'main_H%s.o' % h)]).returncode == 0, heads))
        heads = [h for h, k in zip(heads, ok) if k]
        for o in ('-O0', '-O3', '-Os'): jobs.append(['-I', repo, o, '-include', 'Vc/global.h', '-c', main, '-o', os.path.join(tmp, 'main_O%s.o' % o[1:])])
        lines = []
        links = []
        def compat(l, h): return h is None or (l[0] == h[0] and l[1] >= h[1])
        def program(m, s, l, mh, sh_, what):
            p = 'p%d' % len(lines)
            ok = compat(l, mh) and compat(l, sh_)
            lines.append('%s\t%d\t%s' % (p, ok, what))
            links.append([os.path.join(tmp, 'main_%s.o' % m), os.path.join(tmp, 'second_%s.o' % s), os.path.join(tmp, 'lib_%s.o' % name(l))] + extra + ['-o', os.path.join(outd, p)])
        z = (0, 0)
        for l in variants:
            for h in variants: program(name(h), 'none', l, h, None, 'library ABI%+d version%+d, headers ABI%+d version%+d' % (l + h))
            program('none', 'none', l, None, None, 'library ABI%+d version%+d, Vc_NO_VERSION_CHECK' % l)
            for h in heads: program('H' + h, 'none', l, z, None, 'library ABI%+d version%+d, program includes only <Vc/%s>' % (l + (h,)))
            for o in ('O0', 'O3', 'Os'): program('O' + o, 'none', l, z, None, 'library ABI%+d version%+d, program compiled with -%s' % (l + (o,)))
        for h in variants:
            for g in variants: program(name(h), name(g), z, h, g, 'library ABI+0 version+0, headers of main ABI%+d version%+d, of the second file ABI%+d version%+d' % (h + g))
        with ThreadPoolExecutor(8) as ex: list(ex.map(cc, jobs))
        if not fails:
            with ThreadPoolExecutor(8) as ex: list(ex.map(cc, links))
        if fails:
            errors.append((os.path.basename(binp), fails[0], [])); return ('compile-error', fails[0])
        open(os.path.join(outd, 'list'), 'w').write('\n'.join(lines) + '\n')
        bt = os.path.join(tmp, 'bin')
        p = sh([cxx] + flags + ['-DVc_NO_VERSION_CHECK', '-DPROGRAMS="%s"' % prog, os.path.join(here, 'harness', 'c25_abi.cpp')] + objs + ['-o', bt])
        if p.returncode:
            errors.append((os.path.basename(binp), p.stdout, [])); return ('compile-error', p.stdout)
        shutil.rmtree(prog, ignore_errors=True)
        os.replace(outd, prog)
        os.replace(bt, binp)
        return binp
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
