"""What each check runs, in words, and its budgets."""
REAL = ["all of /repo/src (data stores, TSV and flat-file readers, worker pool, tree building, loss functions, evaluation, JSON, main.cc), compiled from the working tree with access instrumentation",
        "libstdc++ threads, mutexes, condition variables, promises, streams above the system call layer", "protobuf, glog, gflags"]
STUB = ["thread scheduler (one thread at a time, chosen by the simulator)", "pthread primitives and futexes", "heap allocator",
        "clocks, sleeping, process and thread ids, entropy", "file system calls under /sim (in-memory disk)"]
ASSUMPTIONS = ["sequentially consistent memory: weak-memory reorderings are not simulated (C04 rules out the data races that would expose them)",
               "code inside the precompiled libraries (libstdc++.so, libprotobuf, libc) is not preempted in the middle of an access sequence, only at its synchronisation, allocation and I/O calls"]
DEFAULT_RULE = "A run is non-trivial if at least two threads ran and were switched between, or a fault was injected."

def default_nontrivial(d):
    return (d["threads"] >= 2 and d["switches"] > 0) or any(d["faults"].values())

PYREAL = REAL + ["CPython interpreter, pybind11 module (src/python) compiled into the simulator", "Python package gbdt/*.py of the working tree, tempfile, shutil, json"]
PYSTUB = STUB + ["module six (text_type only) and gbdt._libgbdt, the loader that picks a shared library by interpreter version"]
PY = {"real": PYREAL, "stub": PYSTUB}

PLOT = {"real": PYREAL, "stub": PYSTUB + ["modules numpy, pandas, matplotlib and graphviz (as much as the package needs; the drawing calls are recorded)"]}

PROPS = {
    "C01": {},
    "C02": {},
    "C03": {},
    "C04": {},
    "C05": {},
    "C06": {},
    "C07": {},
    "C08": {},
    "C09": {},
    "C10": {},
    "C11": {},
    "C12": {},
    "C13": {},
    "C14": {},
    "C15": PY,
    "C16": {},
    "C17": PY,
    "C18": PLOT,
    "C20": {},
    "C21": {},
    "C22": {},
    "C23": PY,
    "C24": {},
    "C25": PLOT,
    "C26": {},
    "C27": PLOT,
    "C28": {},
    "C29": PY,
    "C30": PY,
    "C31": {},
}
