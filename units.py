# Configurations (implementation x instruction set extras) and the exploration units of each property.
def _lib(*a): return list(a)
LIBOBJS = {
    'const':   ('const.cpp', []),
    'cpuid':   ('cpuid.cpp', []),
    'support': ('support_x86.cpp', []),
}
for impl, fl in [('SSE2', '-msse2'), ('SSE3', '-msse3'), ('SSSE3', '-mssse3'), ('SSE4_1', '-msse4.1'), ('AVX', '-mavx'), ('AVX+FMA', '-mavx -mfma'), ('AVX2+FMA+BMI2', '-march=core-avx2')]:
    LIBOBJS['trig_' + impl] = ('trigonometric.cpp', fl.split() + ['-DVc_IMPL=' + impl])
for impl, fl in [('SSE2', '-msse2'), ('SSE4_1', '-msse4.1'), ('AVX', '-mavx'), ('AVX2+FMA+BMI2', '-march=core-avx2')]:
    LIBOBJS['sses_' + impl] = ('sse_sorthelper.cpp', fl.split() + ['-DVc_IMPL=' + impl])
for impl, fl in [('AVX', '-mavx'), ('AVX2+FMA+BMI2', '-march=core-avx2')]:
    LIBOBJS['avxs_' + impl] = ('avx_sorthelper.cpp', fl.split() + ['-DVc_IMPL=' + impl])
# CMake order: trigonometric SSE2..AVX2, sse_sorthelper, avx_sorthelper, const, cpuid, support
LIBSETS = {
    'MINI': ['const', 'cpuid', 'support'],
    'SORT': [n for n in LIBOBJS if n[:4] in ('sses', 'avxs')] + ['const', 'cpuid', 'support'],
    'FULL': [n for n in LIBOBJS if '_' in n] + ['const', 'cpuid', 'support'],
}

CONFIGS = {
    'scalar':  dict(flags=['-DVc_IMPL=Scalar']),
    'sse2':    dict(flags=['-msse2', '-DVc_IMPL=SSE2']),
    'sse3':    dict(flags=['-msse3']),
    'ssse3':   dict(flags=['-mssse3']),
    'sse41':   dict(flags=['-msse4.1']),
    'sse42':   dict(flags=['-msse4.2', '-mpopcnt']),
    'avx':     dict(flags=['-mavx', '-mno-popcnt']),
    'avxfma':  dict(flags=['-mavx', '-mfma', '-mpopcnt']),
    'avx2':    dict(flags=['-mavx2', '-mno-popcnt', '-mno-fma', '-mno-bmi2']),
    'haswell': dict(flags=['-march=haswell']),
    'haswell_O3': dict(flags=['-march=haswell'], opt='3'),
    'haswell_O0': dict(flags=['-march=haswell'], opt='0'),
    'sse41_O3': dict(flags=['-msse4.1'], opt='3'),
    'avx_O3':  dict(flags=['-mavx'], opt='3'),
    'scalar_O3': dict(flags=['-DVc_IMPL=Scalar', '-march=haswell'], opt='3'),
    'haswell_clang': dict(cxx='clang++', flags=['-march=haswell'], opt='2'),
    'sse41_clang': dict(cxx='clang++', flags=['-msse4.1'], opt='2'),
}
QUICK = ['scalar', 'sse2', 'ssse3', 'sse41', 'avx', 'haswell']
THOROUGH = ['scalar', 'sse2', 'sse3', 'ssse3', 'sse41', 'sse42', 'avx', 'avxfma', 'avx2', 'haswell', 'haswell_O3', 'haswell_O0', 'sse41_O3', 'avx_O3', 'scalar_O3', 'haswell_clang', 'sse41_clang']
FI = [dict(T=0), dict(T=1)]

def U(src, variants=None, configs=QUICK, thorough=THOROUGH, **kw):
    return dict(src=src, variants=variants or [{}], configs=configs, thorough_configs=thorough, **kw)

P3 = [dict(PART=0), dict(PART=1), dict(PART=2)]
PROPS = {
    'C01': dict(units=[U('c01_arith.cpp', P3)]),
    'C02': dict(units=[U('c02_bits.cpp', P3[:2]), U('c02_bits.cpp', [dict(PART=2, Vc_ENABLE_FLOAT_BIT_OPERATORS=1)], QUICK[1:], [c for c in THOROUGH if 'scalar' not in c])]),
    'C04': dict(units=[U('c04_mask.cpp', P3)]),
    'C05': dict(units=[U('c05_masked.cpp', P3)]),
    'C06': dict(units=[U('c06_loadstore.cpp', P3)]),
    'C07': dict(units=[U('c07_gather.cpp', [dict(PART=i) for i in range(9)]), U('c07_gather.cpp', [dict(PART=i, Vc_USE_BSF_GATHERS=1) for i in (0, 1, 4)], ['sse41', 'avx', 'haswell'], ['sse2', 'sse41', 'sse42', 'avx', 'avxfma', 'avx2', 'haswell']), U('c07_gather.cpp', [dict(PART=i, Vc_USE_POPCNT_BSF_GATHERS=1) for i in (0, 1, 4)], ['avxfma', 'haswell'], ['sse42', 'avxfma', 'haswell'])]),
    'C08': dict(units=[U('c08_interleave.cpp', [dict(PART=i) for i in range(7)]), U('c08_interleave.cpp', [dict(PART=i, Vc_USE_MASKMOV_SCATTER=1) for i in (0, 1, 4)], ['sse41', 'haswell'])]),
    'C09': dict(units=[U('c09_reduce.cpp', [dict(PART=i) for i in range(5)])]),
    'C10': dict(units=[U('c10_permute.cpp', [dict(PART=i) for i in range(9)], libs='SORT')]),
    'C11': dict(units=[U('c11_casts.cpp', [dict(PART=i) for i in range(18)])]),
    'C12': dict(units=[U('c12_math.cpp', [dict(PART=i) for i in range(7)])]),
    'C13': dict(units=[U('c13_trans.cpp', [dict(PART=i) for i in range(6)], libs='FULL'), U('c13_trans.cpp', [dict(PART=6)], ['sse2', 'haswell'], ['sse2', 'haswell'], libs='FULL'), U('c13_trans.cpp', [dict(PART=0, Vc_HAVE_LIBMVEC=1), dict(PART=1, Vc_HAVE_LIBMVEC=1)], ['sse41', 'haswell'], ['sse41', 'haswell'], libs='FULL', ldflags=['-lmvec', '-lm']), U('c13_trans.cpp', [dict(PART=2, Vc_LOG_ILP=1), dict(PART=2, Vc_LOG_ILP2=1)], ['sse2'], ['sse2', 'haswell'], libs='FULL'), U('c13_trans.cpp', [dict(PART=2), dict(PART=3)], ['haswell'], ['haswell', 'avxfma'], libs='FULL', flags=['-ffp-contract=fast'])]),
    'C14': dict(units=[U('c14_simdarray.cpp', [dict(TYPE=t, NSET=n) for t in range(6)], q, THOROUGH, libs='FULL') for n, q in ((0, ['scalar', 'sse41', 'haswell']), (1, ['sse2', 'avx', 'haswell']), (2, ['sse2', 'haswell']), (3, ['haswell']), (4, []))]),
    'C15': dict(units=[U('c15_memory.cpp', [dict(TYPE=t) for t in range(7)])]),
    'C16': dict(units=[U('c16_alloc.cpp', [dict(PART=t) for t in range(4)])]),
    'C17': dict(units=[U('c17_simdize.cpp', [dict(PART=t) for t in range(8)])]),
    'C18': dict(units=[U('c18_foreach.cpp', [dict(PART=t) for t in range(7)])]),
    'C19': dict(units=[U('c19_cpuid.cpp', [dict(PART=0)], thorough=[c for c in THOROUGH if 'clang' not in c], custom='cpuid'), U('c19_cpuid.cpp', [dict(PART=1)], ['scalar'], ['scalar', 'haswell'], custom='cpuid')]),
    'C20': dict(units=[U('c20_random.cpp')]),
    'C22': dict(units=[U('c22_access.cpp', [dict(TYPE=t, KIND=0) for t in range(6)])] + [U('c22_access.cpp', [dict(TYPE=t, KIND=k) for t in range(6)], q, THOROUGH) for k, q in ((1, ['sse2', 'haswell']), (2, ['scalar', 'avx']))]),
    'C23': dict(units=[U('c23_subscript.cpp', [dict(TYPE=t, KIND=k) for t in range(6)], q, THOROUGH) for k, q in ((0, ['scalar', 'sse2', 'avx', 'haswell']), (1, ['sse41', 'haswell']), (2, ['sse2', 'haswell']), (3, ['scalar', 'haswell']), (4, ['haswell']), (5, ['sse2', 'haswell']))] + [U('c23_subscript.cpp', [dict(TYPE=t, KIND=k, SIMDARRAY=1) for t in ts for k in (0, 2, 5)], ['haswell'], ['sse2', 'avx', 'haswell']) for ts in ((1, 4), )]),
    'C24': dict(units=[U('c24_io.cpp', [dict(TYPE=t) for t in range(4)])]),
    'C25': dict(units=[U('c25_abi.cpp', configs=['scalar', 'haswell'], thorough=['scalar', 'sse2', 'avx', 'haswell', 'haswell_clang'], custom='abi')]),
    'C21': dict(units=[U('c21_containers.cpp', [dict(PART=0), dict(PART=1)]), U('c21_containers.cpp', [dict(PART=2), dict(PART=3), dict(PART=4)], ['sse2', 'haswell'], ['scalar', 'sse2', 'haswell', 'haswell_clang']), U('c21_containers.cpp', [dict(PART=4, MCSTD=17)], ['sse2', 'haswell'], ['scalar', 'sse2', 'haswell'], flags=['-std=c++17'])]),
    'C26': dict(units=[U('c26_const.cpp', [dict(TYPE=t, KIND=k) for t in range(6)], q, THOROUGH) for k, q in ((0, QUICK), (1, ['scalar', 'sse2', 'sse41', 'avx', 'haswell']))]),
    'C27': dict(units=[U('c27_mixed.cpp', [dict(TYPE=t, KIND=k) for t in ts], q, THOROUGH if k != 0 or len(ts) == 6 else []) for k, ts, q in ((0, range(6), ['sse2', 'haswell']), (0, (1, 2), ['scalar']), (0, (0, 1), ['avx']), (1, range(6), ['haswell']), (2, range(6), ['avx']), (3, (1, 3, 4), ['scalar']), (3, (0, 2, 5), ['haswell']))]),
    'C28': dict(technique='exhaustive exploration of the interleavings of the real code with a second thread at machine-instruction granularity (controlled scheduler by single-stepping)', units=[U('c28_race.cpp', [dict(PART=i) for i in range(8)], ['sse2', 'sse41', 'avx', 'haswell']), U('c28_race.cpp', [dict(PART=i) for i in (0, 5)], ['scalar'], []), U('c28_race.cpp', [dict(PART=i, Vc_USE_MASKMOV_SCATTER=1) for i in (0, 1, 2, 4)], ['haswell'], ['sse41', 'avx', 'haswell']), U('c28_race.cpp', [dict(PART=i, Vc_USE_BSF_GATHERS=1) for i in (1, 4)], ['sse41'], ['sse41', 'avx', 'haswell'])]),
    'C03': dict(units=[U('c03_compare.cpp', P3)]),
    'C29': dict(units=[U('c29_fpenv.cpp', [dict(PART=i) for i in range(7)], libs='FULL'), U('c29_fpenv.cpp', [dict(PART=i, Vc_USE_MASKMOV_SCATTER=1) for i in (3, 4)], ['sse2', 'haswell'], ['sse2', 'sse41', 'avx', 'haswell', 'sse41_clang', 'haswell_clang'], libs='FULL')]),
}
