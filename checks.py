# property -> harnesses (see run.py)
SCHED_LINK = '-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_trylock,--wrap=pthread_mutex_unlock,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release'


def sched(src, **k):
    return dict(src=src, mode="sched", plain_src=["mc/schedrt.cpp"], link=[SCHED_LINK, "-rdynamic", "-ldl"], **k)


SGS = (1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21)

CHECKS = {
 "C01": dict(harness=[dict(src="c01_int_vector.cpp")]),
 "C02": dict(harness=[dict(src="c02_bits.cpp"),
                      dict(src="c02_bits.cpp", name="c02_bits[sse4.2+bmi2]", mode="opt", flags=["-DNATIVE", "-msse4.2", "-mpopcnt", "-mbmi2"]),
                      dict(src="c02_bits.cpp", name="c02_bits[sse4.2]", mode="opt", flags=["-DNATIVE", "-msse4.2", "-mpopcnt"])]),
 "C03": dict(harness=[dict(src="c03_rank.cpp")]),
 "C05": dict(harness=[dict(src="c05_bv.cpp", name="c05_bv[%d]" % g, flags=["-DGROUP=%d" % g]) for g in range(1, 10)]),
 "C04": dict(harness=[dict(src="c04_select.cpp")]),
 "C06": dict(harness=[dict(src="c06_sd_builder.cpp")]),
 "C07": dict(harness=[dict(src="c07_coders.cpp", name="c07_coders[%s]" % n, flags=["-DCODER=%d" % k])
                      for k, n in ((0, "delta"), (1, "gamma"), (2, "fibonacci"), (12, "comma2"), (14, "comma4"), (18, "comma8"), (41, "comma31"))]),
 "C08": dict(harness=[dict(src="c08_compint.cpp", name="c08_compint[%d]" % g, flags=["-DGROUP=%d" % g]) for g in range(1, 9)]),
 "C09": dict(harness=[dict(src="c09_buffer.cpp")]),
 "C10": dict(harness=[dict(src="c10_mapper.cpp")]),
 "C11": dict(harness=[dict(src="c11_ramfs.cpp")]),
 "C14": dict(harness=[dict(src="c14_wt.cpp", name="c14_wt[%d]" % g, flags=["-DGROUP=%d" % g], mode="opt" if g in (7, 8) else "asan") for g in range(1, 12)]),
 "C15": dict(harness=[dict(src="c15_wtrange.cpp", name="c15_wtrange[%d]" % g, flags=["-DNODES", "-DGROUP=%d" % g]) for g in (1, 2, 5, 9, 10, 11)]),
 "C38": dict(harness=[dict(src="c38_shape.cpp", flags=["-DGROUP=1"])]),
 "C16": dict(harness=[dict(src="c16_construct.cpp", flags=["-DSDSL_VERIF_BUFFER=256"], libflags=["-DSDSL_VERIF_BUFFER=256"]),
                      dict(src="c16_construct.cpp", name="c16_construct[default buffers]", mode="opt", thorough_only=True)]),
 "C17": dict(harness=[dict(src="c17_csa.cpp", name="c17_csa[%d]" % g, flags=["-DSDSL_VERIF_BUFFER=512", "-DGROUP=%d" % g], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in range(1, 10)]),
 "C18": dict(harness=[dict(src="c18_search.cpp", name="c18_search[csa %d]" % g, flags=["-DSDSL_VERIF_BUFFER=512", "-DGROUP=%d" % g], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in range(1, 10)] +
                    [dict(src="c18_search.cpp", name="c18_search[cst %d]" % g, flags=["-DCSTX", "-DSDSL_VERIF_BUFFER=512", "-DGROUP=%d" % g], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in range(1, 10)]),
 "C19": dict(harness=[dict(src="c19_lcp.cpp", name="c19_lcp[%s]" % ("cst %d" % g if g < 10 else "stand-alone"), flags=["-DSDSL_VERIF_BUFFER=512", "-DGROUP=%d" % g], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10)]),
 "C20": dict(harness=[dict(src="c20_cst.cpp", name="c20_cst[%d]" % g, flags=["-DSDSL_VERIF_BUFFER=512", "-DGROUP=%d" % g], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in range(1, 10)]),
 "C21": dict(harness=[dict(src="c21_iters.cpp", name="c21_iters[%d]" % g, flags=["-DSDSL_VERIF_BUFFER=512", "-DGROUP=%d" % g], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in (1, 2, 4, 5, 6, 8)]),
 "C22": dict(harness=[dict(src="c22_bp.cpp", name="c22_bp[%d]" % g, flags=["-DGROUP=%d" % g]) for g in (1, 2, 3, 4)]),
 "C23": dict(harness=[dict(src="c23_rmq.cpp", name="c23_rmq[%d]" % g, flags=["-DGROUP=%d" % g]) for g in (1, 2)]),
 "C24": dict(harness=[dict(src="c24_treap.cpp", flags=["-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"])]),
 "C25": dict(harness=[dict(src="c25_k2tree.cpp", flags=["-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"])]),
 "C26": dict(harness=[dict(src="c26_invperm.cpp")]),
 "C27": dict(harness=[dict(src="c27_nndict.cpp")]),
 "C28": dict(harness=[dict(src="c28_stacks.cpp")]),
 "C29": dict(harness=[dict(src="c29_louds.cpp", flags=["-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"])]),
 "C30": dict(harness=[dict(src="c30_wide.cpp"), dict(src="c30_wide.cpp", name="c30_wide[class uint128_t]", mode="asan_noti"), dict(src="c30_wide.cpp", name="c30_wide[opt]", mode="opt")]),
 "C33": dict(harness=[dict(src="c33_hugepage.cpp", mode="opt", link=["-Wl,--wrap=mmap"])]),
 "C34": dict(harness=[dict(src="c34_monitor.cpp", link=["-Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv"]), sched("c34_conc.cpp")]),
 "C35": dict(harness=[sched("c35_shared.cpp"), sched("c35_construct.cpp", flags=["-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"])]),
 "C13": dict(harness=[dict(src="c13_lifecycle.cpp", name="c13_lifecycle[%d]" % g, flags=["-DSG=%d" % g, "-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in SGS]),
 "C12": dict(harness=[dict(src="c12_serialize.cpp", name="c12_serialize[%d]" % g, flags=["-DSG=%d" % g, "-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in SGS]),
 "C36": dict(harness=[dict(src="c36_pure.cpp", name="c36_pure[%d]" % g, flags=["-DSG=%d" % g, "-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in SGS]
             + [sched("c36_conc.cpp", name="c36_conc[%d]" % g, flags=["-DSG=%d" % g, "-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in SGS]),
 "C32": dict(harness=[dict(src="c32_store.cpp", mode="opt", libflags=["-DSDSL_VERIF_BUFFER=512"], flags=["-DSDSL_VERIF_BUFFER=512"])]),
 "C37": dict(harness=[dict(src="c37_invalid.cpp", name="c37_invalid[%d]" % g, flags=["-DG=%d" % g, "-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in range(7)] + [dict(src="c37_invalid.cpp", name="c37_invalid[SDSL_DEBUG]", flags=["-DG=0", "-DSDSL_DEBUG"], libflags=["-DSDSL_DEBUG"])]),
 "C31": dict(harness=[dict(src="c31_config.cpp", name="c31_config[%d]" % g, flags=["-DG=%d" % g, "-DSDSL_VERIF_BUFFER=512"], libflags=["-DSDSL_VERIF_BUFFER=512"]) for g in (1, 2, 3, 4)]),
}

NOT_APPLICABLE = {}
