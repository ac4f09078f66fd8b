import os
# which harness parts decide which property
def mcrt(name, src=None, **k):
    return dict(name=name, src=src or name + ".cpp", kind="mcrt", **k)
def mc(name, src=None, **k):
    return dict(name=name, src=src or name + ".cpp", kind="mc", **k)

T_SCHED = "stateless model checking of the real code: all interleavings within a preemption bound under a controlled scheduler + happens-before race detection"
T_ENUM = "explicit enumeration of all operation sequences/configurations within bounds, run on the real code against a reference model"
A_SCHED = ["scheduling points are all pthread/atomic/once/future operations and explicit yields; plain accesses are covered by the happens-before race detector (a race is itself a violation)",
           "relaxed/acquire-release atomics execute sequentially consistently; races through them are detected by the vector clocks, not by reordering",
           "file I/O system calls are atomic and succeed"]
A_ENUM = ["values outside the enumerated alphabets and histories beyond the depth bound are not covered", "g++ 13, x86-64 IEEE arithmetic"]
N_SCHED = "Exhaustive over every schedule of the listed drivers up to the stated preemption bound (evidence says whether the space was completed); trusts lib/mcrt.cpp and sequentially consistent atomics."
N_ENUM = "Exhaustive over the stated alphabets and depth bounds on the real code; trusts the reference model in the harness and the compiler."

def sched(*parts, **k):
    return dict(parts=list(parts), technique=k.get("technique", T_SCHED), note=k.get("note", N_SCHED), assumptions=A_SCHED + k.get("assumptions", []))
def enum(*parts, **k):
    return dict(parts=list(parts), technique=k.get("technique", T_ENUM), note=k.get("note", N_ENUM), assumptions=A_ENUM + k.get("assumptions", []))

def groups(name, n, src=None, flags=["-O1"], **k):
    return [mc(f"{name}_g{i}", src or name + ".cpp", flags=flags + [f"-DGROUP={i}"], **k) for i in range(n)]

CHECKS = {
    "C01": sched(mcrt("c01")),
    "C02": sched(mcrt("c02", flags=["-O2"])),
    "C03": sched(mcrt("c03")),
    "C04": sched(mcrt("c04")),
    "C05": sched(mcrt("c05", flags=["-O1"])),
    "C06": sched(*[mcrt(f"c06_g{i}", "c06.cpp", flags=["-O1", f"-DGROUP={i}"]) for i in range(5)]),
    "R01": enum(mc("r01")),
    "R02": enum(mc("r02"), *groups("r02", 6)),
    "R03": enum(mc("r03")),
    "R04": enum(mc("r04")),
    "K01": enum(mc("k01")),
    "P01": enum(mc("p01")),
    "S01": enum(*groups("s01", 4)),
    "S02": enum(*groups("s02", 8)),
    "I01": enum(*groups("i01", 4)),
    "I02": enum(mc("i02")),
    "I03": enum(mc("i03")),
    "I04": enum(mc("i04")),
    "I05": enum(mc("i05", flags=["-O2"])),
    "I06": enum(*groups("i06", 7, "meth.cpp", ["-O1", "-DPROP=6"])),
    "S03": enum(*groups("s03", 7, "meth.cpp", ["-O1", "-DPROP=3"])),
    "S04": enum(*groups("s04", 7, "meth.cpp", ["-O1", "-DPROP=4"])),
    "N01": enum(mc("n01")),
    "N02": enum(mc("n02")),
    "N03": enum(mc("n03")),
    "N04": enum(mc("n04", flags=["-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"]), assumptions=["element arguments that refer into a vector that has to grow are excluded (the vendored LLVM class does not support them)"]),
    "O01": enum(mc("o01")),
    "O02": enum(mc("o02")),
    "O03": enum(mc("o03")),
    "O05": enum(mc("o05"), assumptions=["the standard engines are replaced by one with scripted raw outputs; the distributions of the standard library turn them into variates"]),
    "O04": enum(mc("o04"), assumptions=["the standard engines are replaced by one with scripted raw outputs", "head-on draws (b = 0) and orbits whose eccentricity rounds to 1 are excluded"]),
    "N05": enum(mc("n05")),
    "T01": enum(mc("t01"), assumptions=["the clock is a virtual one; configuration files are in-memory files"]),
    "F01": enum(*groups("f01", 5, libs=[os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness", "alpha_disk_params.cpp")])),
}
NOT_APPLICABLE = {}
