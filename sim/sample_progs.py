"""Builds the search programs of samples/ as functions inside the simulator: main becomes NAME_main, every other
symbol is made local, so the programs (which reuse class names) can live in one executable."""
import hashlib, os
S = "samples/"
PROGS = {
 "tinymt32dc": ([S + "TinyMTDC/tinymt32dc.cpp", S + "TinyMTDC/parse_opt.cpp"], []),
 "xorshift_1": ([S + "XORSHIFT/xorshift-1.cpp"], []), "xorshift_2": ([S + "XORSHIFT/xorshift-2.cpp"], []),
 "xorshift_3": ([S + "XORSHIFT/xorshift-3.cpp"], []), "xorshift_4": ([S + "XORSHIFT/xorshift-4.cpp"], []),
 "xorshift_5": ([S + "XORSHIFT/xorshift-5.cpp"], []),
 "mt2": ([S + "MTDC/mt2.cpp"], []),
 "rmt64dc": ([S + "RMT/rmt64dc.cpp"], []),
 "sfmtdc": ([S + "sfmtdc/sfmtdc.cpp", S + "sfmtdc/Annihilate.cpp"], []),
 "sfmtdcfixed": ([S + "sfmtdc/sfmtdcfixed.cpp", S + "sfmtdc/Annihilate.cpp"], ["-DSFMT_PARAM_FIXED=1"]),
 "dSFMTdc": ([S + "dSFMTdc/dSFMTdc.cpp", S + "dSFMTdc/Annihilate.cpp", S + "dSFMTdc/calc_fixpoint.cpp"], []),
 "sfmt_calc_equidist": ([S + "sfmtdc/calc_equidist.cpp", S + "sfmtdc/Annihilate.cpp"], []),
 "sfmt_test_period": ([S + "sfmtdc/test_period.cpp", S + "sfmtdc/Annihilate.cpp"], []),
 "sfmt_test_linearity": ([S + "sfmtdc/test_linearity.cpp"], []),
 "dsfmt_calc_equidist": ([S + "dSFMTdc/calc_equidist.cpp", S + "dSFMTdc/Annihilate.cpp"], []),
 "dsfmt_calc_period": ([S + "dSFMTdc/calc_period.cpp", S + "dSFMTdc/Annihilate.cpp"], []),
 "dsfmt_test_linearity": ([S + "dSFMTdc/test_linearity.cpp"], []),
 "dsfmt_calc_fixpoint": ([S + "dSFMTdc/calc_fixpoint_main.cpp", S + "dSFMTdc/calc_fixpoint.cpp", S + "dSFMTdc/printBinary.cpp", S + "dSFMTdc/Annihilate.cpp"], []),
 "dsfmt_calc_parity": ([S + "dSFMTdc/calc_parity_main.cpp", S + "dSFMTdc/calc_parity.cpp", S + "dSFMTdc/printBinary.cpp", S + "dSFMTdc/Annihilate.cpp"], []),
 "rmt_calc_equidist": ([S + "RMT/calc_equidist.cpp"], []), "rmt_calc_period": ([S + "RMT/calc_period.cpp"], []),
 "sfmt_calc_parity": ([S + "sfmtdc/calc_parity.cpp", S + "sfmtdc/Annihilate.cpp"], ["-DMAIN"]),
 "dsfmt_make_old_format": ([S + "dSFMTdc/make_old_format.cpp", S + "dSFMTdc/printBinary.cpp", S + "dSFMTdc/Annihilate.cpp"], []),
 "mt1": ([S + "MTDC/mt1.cpp"], []),
}
def build_programs(pool, run, OUT, REPO, HERE, CXX, BASE):
    base = [b for b in BASE if b != "-I" + HERE] + ["-O2", "-fno-strict-return"]   # main may end without return
    def one(name, src, extra):
        flags = base + extra + ["-Dmain=%s_main" % name]
        pre = run([CXX] + flags + ["-E", "-P", REPO + "/" + src])
        key = hashlib.sha256(pre + repr((flags, CXX)).encode()).hexdigest()[:32]
        obj = os.path.join(OUT, "obj", "prog-%s-%s-%s.o" % (name, os.path.basename(src)[:-4], key))
        if not os.path.exists(obj):
            tmp = obj + ".tmp%d" % os.getpid(); run([CXX] + flags + ["-c", REPO + "/" + src, "-o", tmp]); os.rename(tmp, obj)
        else: os.utime(obj)
        return obj
    jobs = {n: [pool.submit(one, n, s, ex) for s in ss] for n, (ss, ex) in PROGS.items()}
    objs = []
    for n, fs in jobs.items():
        parts = [f.result() for f in fs]
        out = os.path.join(OUT, "obj", "progall-%s-%s.o" % (n, hashlib.sha256("\n".join(parts).encode()).hexdigest()[:32]))
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            run(["ld.bfd", "-r", "--force-group-allocation", "-o", tmp] + parts)
            run(["objcopy", "--wildcard", "--keep-global-symbol=*%s_main*" % n, tmp])
            os.rename(tmp, out)
        else: os.utime(out)
        objs.append(out)
    return objs
