"""What each component check runs, and which property a divergence violates."""
from driver import *


def cfg(spec="Spec", consts=(), invs=(), post=None, extra=""):
    t = "SPECIFICATION %s\n" % spec
    if consts:
        t += "CONSTANTS\n" + "".join("  %s = %s\n" % c for c in consts)
    if invs:
        t += "INVARIANTS " + " ".join(invs) + "\n"
    if post:
        t += "POSTCONDITION %s\n" % post
    return t + "CHECK_DEADLOCK FALSE\n" + extra


# ------------------------------------------------------------------ vector
VEC_INVS = ["TypeOK", "NoInvention", "StrongAppend", "OneSuccess", "SwapInvolution", "Emit"]


def vfmt(s):
    return "%s|%s|%s" % (cs(s["q"][0]), cs(s["q"][1]), cs(s["al"]))


def vec_table(ctx, name, vals, a, b, allocs):
    t = model(ctx, name, "MCVector", cfg(consts=[("Vals", vals), ("MaxA", a), ("MaxB", b), ("Allocs", allocs), ("EmitTable", "TRUE")], invs=VEC_INVS))
    path = ctx.tmp("table")
    write_table(path, t, vfmt)
    return path


PLAINV = Variant("noexc-plain-bytes", ["-DELEM_KIND=4", "-DPLAIN=signed char", "-fno-exceptions"] + ASAN)
MIN = Variant("exc-twophase-minimal-allocator", ["-DELEM_KIND=2", "-DMIN_ALLOC=1"] + ASAN)


# scopes: "full", "alloc" (two allocator instances), "error" (small tables, every build), "throw" (the throwing wrappers)
def vector(ctx, scope="full"):
    vs = std_variants()
    if scope == "alloc":
        vs.append(MIN)
    if scope == "full":
        vs.insert(len(vs) - 1, PLAINV)
    if scope == "throw":
        vs = [v for v in vs if v.name.startswith("exc")] + [Variant("exc-twophase", ["-DELEM_KIND=2"] + ASAN)]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "vector", [("vector.cpp", v, ()) for v in vs])
        fr = ex.submit(lambda: (runs_model(ctx, "vector"), storage_model(ctx))) if scope == "full" else None
        if scope == "full":
            tabs = [vec_table(ctx, "vector-single-allocator", "{1, 2}", 4 if THOROUGH else 3, 2 if THOROUGH else 1, "FALSE"),
                    vec_table(ctx, "vector-two-allocators", "{1}", 2, 2 if THOROUGH else 1, "TRUE")]
        elif scope == "alloc":
            tabs = [vec_table(ctx, "vector-two-allocators", "{1, 2}" if THOROUGH else "{1}", 3 if THOROUGH else 2, 2, "TRUE")]
        elif scope == "error":
            tabs = [vec_table(ctx, "vector-errors", "{1, 2}" if THOROUGH else "{1}", 3, 1, "FALSE")]
        else:
            tabs = [vec_table(ctx, "vector-throwing", "{1, 2}", 3 if THOROUGH else 2, 2, "TRUE")]
        exes = fc.result()
        if fr:
            fr.result()
    jobs = []
    for v in vs:
        exe = exes.get(("vector.cpp", v.name, ()))
        if not exe:
            continue
        for ti, t in enumerate(tabs):
            parts = 4 if ti == 0 else 1
            for p in range(parts):
                jobs.append((exe, v.name, ["table=" + t, "mode=exh", "flavors=3", "part=%d" % p, "parts=%d" % parts] + (["only=t_"] if scope == "throw" else []), True))
            two = ti == 1 or scope in ("alloc", "throw")
            jobs.append((exe, v.name, ["table=" + t, "mode=walk", "seed=%d" % (SEED * 100 + ti), "steps=%d" % (400000 if THOROUGH else 30000), "start=||" + ("1,2" if two else "1,1")], False))
    run_many(ctx, "vector", jobs)
    log("vector replay: %d cases, %d with a failure injected" % (ctx.replayed, ctx.fired))
    tj = []
    for i, v in enumerate(vs):
        exe = exes.get(("vector.cpp", v.name, ()))
        if exe:
            tj.append((exe, v.name, ["mode=trace", "seed=%d" % (SEED * 10 + i), "steps=%d" % (20000 if THOROUGH else 1500), "maxlen=40"]))
            if scope in ("full", "alloc"):
                tj.extend(mem_jobs(exe, v.name, i))
            if scope == "full":
                tj.append((exe, v.name, ["mode=trace", "big=1", "seed=%d" % (SEED * 10 + i), "steps=%d" % (4000 if THOROUGH else 300), "maxlen=%d" % (1500 if THOROUGH else 800)]))
            if scope == "full" and i == 0:
                tj.append((exe, v.name, ["mode=trace", "vast=1", "seed=%d" % SEED, "steps=%d" % (30 if THOROUGH else 10), "maxlen=70000"]))
            if scope == "full" and i in (0, 2, len(vs) - 1):
                tj.extend(runs_jobs("vector", exe, v.name, i))
            if scope in ("full", "error"):
                tj.append((exe, v.name, ["mode=cap", "n=%d" % (2000 if scope != "full" else 4300000 if v.name == "exc-trivial" else 140000)]))
    record_and_validate(ctx, "vector", tj, "TraceVector", cfg(post="Accepted"))
    log("vector traces: %d events accepted" % ctx.events)



# ------------------------------------------------------------------ memory events
def storage_model(ctx):
    """the protocols of the containers follow the storage discipline"""
    return model(ctx, "storage-protocols", "MCStorage", cfg(consts=[("MaxLen", 4 if THOROUGH else 3), ("MaxB", 8 if THOROUGH else 6), ("Broken", '"none"')],
                                                            invs=["Disciplined", "AtRest", "NothingVisibleFailed"]))


def mem_jobs(exe, v, i, extra=()):
    return [(exe, v, ["mode=trace", "mem=1", "seed=%d" % (SEED * 10 + i + 50 * k), "steps=%d" % (2500 if THOROUGH else 350), "maxlen=%d" % (14, 30)[k % 2]] + list(extra),
             "TraceStorage", cfg(post="Accepted")) for k in range(4 if THOROUGH else 1)]


# ------------------------------------------------------------------ very long sequences
RUNS_INVS = {"vector": ["RepOK", "SameOK", "VectorOK"], "list": ["RepOK", "SameOK", "ListOK"]}


def runs_model(ctx, comp):
    """the run representation refines the plain contract"""
    return model(ctx, "runs-refine-" + comp, "MCRuns", cfg(consts=[("Kind", '"%s"' % comp), ("MaxN", 2 if THOROUGH else 1)], invs=RUNS_INVS[comp]))


def runs_jobs(comp, exe, v, i):
    c = cfg(consts=[("Kind", '"%s"' % comp)], post="Accepted")
    return [(exe, v, ["mode=runs", "seed=%d" % (SEED * 10 + i + 5 * k), "steps=%d" % (300 if THOROUGH else 80), "most=%d" % (200000 if THOROUGH else 70000)], "TraceRuns", c)
            for k in range(6 if THOROUGH else 1)]


# ------------------------------------------------------------------ list
LIST_INVS = ["TypeOK", "SortOK", "NodesOK", "AtomicInsert", "Emit"]


def list_table(ctx, name, vals, a, b, allocs, which="all"):
    invs = [i for i in LIST_INVS if not (which == "sort" and i in ("NodesOK", "AtomicInsert"))]
    t = model(ctx, name, "MCList", cfg(consts=[("Vals", vals), ("MaxA", a), ("MaxB", b), ("Allocs", allocs), ("Which", '"%s"' % which), ("EmitTable", "TRUE")], invs=invs))
    path = ctx.tmp("table")
    write_table(path, t, vfmt)
    return path


def list_(ctx, scope="full"):
    vs = std_variants()
    if scope == "alloc":
        vs.append(MIN)
    if scope == "full":
        vs.insert(len(vs) - 1, PLAINV)
    if scope == "throw":
        vs = [v for v in vs if v.name.startswith("exc")] + [Variant("exc-twophase", ["-DELEM_KIND=2"] + ASAN)]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "list", [("list.cpp", v, ()) for v in vs])
        fr = ex.submit(lambda: (runs_model(ctx, "list"), storage_model(ctx))) if scope == "full" else None
        if scope == "full":
            tabs = [list_table(ctx, "list-single-allocator", "{1, 2}", 4 if THOROUGH else 3, 2, "FALSE"),
                    list_table(ctx, "list-two-allocators", "{1}", 2, 2 if THOROUGH else 1, "TRUE"),
                    list_table(ctx, "list-sort-merge", "{1, 2, 3}", 6 if THOROUGH else 5, 3, "FALSE", "sort")]
        elif scope == "alloc":
            tabs = [list_table(ctx, "list-two-allocators", "{1, 2}" if THOROUGH else "{1}", 3 if THOROUGH else 2, 2, "TRUE")]
        elif scope == "error":
            tabs = [list_table(ctx, "list-errors", "{1, 2}" if THOROUGH else "{1}", 3, 1, "FALSE")]
        else:
            tabs = [list_table(ctx, "list-throwing", "{1, 2}", 3 if THOROUGH else 2, 2, "TRUE")]
        exes = fc.result()
        if fr:
            fr.result()
    jobs, tj = [], []
    for i, v in enumerate(vs):
        exe = exes.get(("list.cpp", v.name, ()))
        if not exe:
            continue
        for ti, t in enumerate(tabs):
            parts = 3 if ti == 0 else 1
            for p in range(parts):
                jobs.append((exe, v.name, ["table=" + t, "mode=exh", "part=%d" % p, "parts=%d" % parts] + (["only=t_"] if scope == "throw" else []), True))
            if ti < 2:
                two = ti == 1 or scope in ("alloc", "throw")
                jobs.append((exe, v.name, ["table=" + t, "mode=walk", "seed=%d" % (SEED * 100 + ti), "steps=%d" % (400000 if THOROUGH else 30000), "start=||" + ("1,2" if two else "1,1")], False))
        tj.append((exe, v.name, ["mode=trace", "seed=%d" % (SEED * 10 + i), "steps=%d" % (20000 if THOROUGH else 1500), "maxlen=40"]))
        if scope in ("full", "alloc"):
            tj.extend(mem_jobs(exe, v.name, i))
    for v in (vs[0], vs[3]) if scope == "full" else ():
        exe = exes.get(("list.cpp", v.name, ()))
        if exe:
            tj.append((exe, v.name, ["mode=trace", "big=1", "seed=%d" % SEED, "steps=%d" % (2000 if THOROUGH else 150), "maxlen=300"]))
            tj.extend(runs_jobs("list", exe, v.name, 1))
            tj.append((exe, v.name, ["mode=bulk", "n=%d" % (300000 if THOROUGH else 70000)]))
            tj.append((exe, v.name, ["mode=sort", "seed=%d" % SEED, "n=%d" % (90 if THOROUGH else 70)]))
    exe = exes.get(("list.cpp", vs[-1].name, ()))
    if exe and scope == "full":
        tj.extend(runs_jobs("list", exe, vs[-1].name, 2))
    run_many(ctx, "list", jobs)
    log("list replay: %d cases, %d with a failure injected" % (ctx.replayed, ctx.fired))
    record_and_validate(ctx, "list", tj, "TraceList", cfg(post="Accepted"))
    log("traces: %d events accepted so far" % ctx.events)


# ------------------------------------------------------------------ set
SET_INVS = ["TypeOK", "OrderOK", "LookupOK", "AtomicInsert", "NodesOK", "Emit"]
RB_INVS = ["RedRule", "RootBlack", "BlackRule", "OrderRule", "LinksOK", "CachesOK", "HeightBound", "ContentOK", "Emit"]


def sfmt(s):
    return "%s|%s|%s|%s" % (cs(s["q"][0]), cs(s["q"][1]), cs(s["dir"]), cs(s["al"]))


def set_table(ctx, name, keys, a, b, allocs, dirs, pocca="FALSE"):
    t = model(ctx, name, "MCSet", cfg(consts=[("Keys", keys), ("MaxA", a), ("MaxB", b), ("Allocs", allocs), ("Dirs", dirs), ("Pocca", pocca), ("EmitTable", "TRUE")], invs=SET_INVS))
    path = ctx.tmp("table")
    write_table(path, t, sfmt)
    return path


def rb_histories(ctx, n):
    t = model(ctx, "red-black-tree-design", "RbTree", cfg(consts=[("N", n), ("MaxSize", n), ("EmitTable", "TRUE")], invs=RB_INVS, extra="VIEW View\n"))
    path = ctx.tmp("histories")
    hs = sorted([e["h"] for e in emitted(t)], key=lambda h: (len(h), h))
    with open(path, "w") as f:
        for h in hs:
            f.write(cs(h) + "\n")
    return path, len(hs)


def set_(ctx, scope="full"):
    vs = std_variants() + ([MIN] if scope == "alloc" else [])
    if scope != "alloc":
        vs.insert(1, Variant("exc-throwing-comparator", ["-DELEM_KIND=1", "-DCMP_FAIL=1"] + ASAN))
    pv = Variant("exc-twophase-propagating-allocator", ["-DELEM_KIND=2", "-DPOCCA=1"] + ASAN)
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "set", [("set.cpp", v, ()) for v in vs + ([pv] if scope != "error" else [])])
        if scope == "full":
            tabs = [set_table(ctx, "set-comparators", "{11, 12, 20, 30, 40}" if THOROUGH else "{11, 12, 20, 30}", 4 if THOROUGH else 3, 3 if THOROUGH else 2, "FALSE", "{0, 1}"),
                    set_table(ctx, "set-one-comparator", "{10, 20, 21, 30, 40, 50}" if THOROUGH else "{10, 20, 21, 30, 40}", 5 if THOROUGH else 4, 1, "FALSE", "{0}"),
                    set_table(ctx, "set-two-allocators", "{10, 20}", 2, 2, "TRUE", "{0, 1}" if THOROUGH else "{0}"),
                    set_table(ctx, "set-propagating-allocators", "{10, 20}", 2, 2, "TRUE", "{0}", "TRUE")]
        elif scope == "alloc":
            tabs = [None, None,
                    set_table(ctx, "set-two-allocators", "{10, 20, 30}" if THOROUGH else "{10, 20}", 3 if THOROUGH else 2, 2, "TRUE", "{0, 1}"),
                    set_table(ctx, "set-propagating-allocators", "{10, 20}", 2, 2, "TRUE", "{0, 1}" if THOROUGH else "{0}", "TRUE")]
        else:
            tabs = [set_table(ctx, "set-errors", "{11, 12, 20, 30}" if THOROUGH else "{11, 12, 20}", 3, 2, "FALSE", "{0}"), None, None, None]
        if scope == "full":
            nk = 8 if THOROUGH else 7
            hist, nh = rb_histories(ctx, nk)
            storage_model(ctx)
        exes = fc.result()
    jobs, tj = [], []
    rs = len(vs)
    for i, v in enumerate(vs + [pv]):
        exe = exes.get(("set.cpp", v.name, ()))
        if not exe:
            continue
        if True:
            for ti, t in enumerate(tabs):
                if t is None or (ti == 3) != (v is pv):
                    continue
                jobs.append((exe, v.name, ["table=" + t, "mode=exh"], True))
                jobs.append((exe, v.name, ["table=" + t, "mode=walk", "seed=%d" % (SEED * 100 + ti), "steps=%d" % (400000 if THOROUGH else 30000),
                                           "start=||0,0|" + ("1,1" if ti < 2 else "1,2")], False))
            if v is not pv:
                tj.append((exe, v.name, ["mode=trace", "seed=%d" % (SEED * 10 + i), "steps=%d" % (20000 if THOROUGH else 1500), "maxlen=40"]))
                if scope in ("full", "alloc"):
                    tj.extend(mem_jobs(exe, v.name, i))
        if v is vs[-1] and scope == "full":
            tj.append((exe, v.name, ["mode=bulk", "n=%d" % (300000 if THOROUGH else 70000)]))
        if v is not pv and scope == "full":
            if THOROUGH:
                tj.extend((exe, v.name, ["mode=shapes", "histories=" + hist, "keys=%d" % nk, "part=%d" % p, "parts=4"]) for p in range(4))
            else:
                tj.append((exe, v.name, ["mode=shapes", "histories=" + hist, "keys=%d" % nk, "part=%d" % i, "parts=%d" % rs]))
            if v is not vs[1]:
                tj.append((exe, v.name, ["mode=balance", "seed=%d" % (SEED * 10 + i), "n=%d" % (2000 if THOROUGH else 600), "patterns=%d" % (400 if THOROUGH else 50)]))
    run_many(ctx, "set", jobs)
    log("set replay: %d cases, %d with a failure injected" % (ctx.replayed, ctx.fired))
    record_and_validate(ctx, "set", tj, "TraceSet", cfg(consts=[("Pocca", "FALSE")], post="Accepted"))
    log("traces: %d events accepted so far" % ctx.events)


# ------------------------------------------------------------------ shared_ptr
PTR_INVS = ["TypeOK", "DeadOK", "StepOK"]


def pfmt(s):
    return "|".join([cs(s["s"]), str(s["b"]), cs(s["w"]), cs(s["nx"]), cs(s["wk"]), cs(s["live"]), cs(s["blk"]), cs(s["uc"])])


def ptr_table(ctx, name, n, ns, nw):
    t = model(ctx, name, "MCSharedPtr", cfg(consts=[("N", n), ("NS", ns), ("NW", nw), ("EmitTable", "TRUE")], invs=PTR_INVS))
    path = ctx.tmp("table")
    write_table(path, t, pfmt)
    return path


def sptr(ctx, scope="full"):
    vs = [v for v in std_variants() if v.name != "exc-trivial"] + ([MIN] if scope == "alloc" else [])
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "sptr", [("sptr.cpp", v, ()) for v in vs])
        dims = [(2, 2, 2) if THOROUGH else (2, 2, 1)]
        if THOROUGH:
            dims.append((3, 2, 1))
        if scope != "full":
            dims = [(2, 2, 1) if THOROUGH else (2, 1, 1)]
        tabs = [ptr_table(ctx, "shared-ptr-%d-objects-%d-owners-%d-observers" % d, *d) for d in dims]
        if scope == "full":
            storage_model(ctx)
        exes = fc.result()
    jobs, tj = [], []
    for i, v in enumerate(vs):
        exe = exes.get(("sptr.cpp", v.name, ()))
        if not exe:
            continue
        for d, t in zip(dims, tabs):
            dim = ["N=%d" % d[0], "NS=%d" % d[1], "NW=%d" % d[2]]
            zero = "|".join([cs([0] * d[1]), "0", cs([0] * d[2])] + [cs([0] * d[0])] * 5)
            for p in (range(5) if THOROUGH else (i % 5, (i + 2) % 5)):
                jobs.append((exe, v.name, ["table=" + t, "mode=exh", "part=%d" % p, "parts=5"] + dim, True))
            jobs.append((exe, v.name, ["table=" + t, "mode=walk", "seed=%d" % (SEED * 100 + i), "steps=%d" % (400000 if THOROUGH else 30000), "start=" + zero] + dim, False))
        tj.append((exe, v.name, ["mode=trace", "seed=%d" % (SEED * 10 + i), "steps=%d" % (20000 if THOROUGH else 2000), "N=6", "NS=4", "NW=3"]))
        if scope in ("full", "alloc"):
            tj.extend(mem_jobs(exe, v.name, i, ["N=6", "NS=4", "NW=3"]))
    run_many(ctx, "sptr", jobs)
    log("shared_ptr replay: %d cases, %d with a failure injected" % (ctx.replayed, ctx.fired))
    record_and_validate(ctx, "sptr", tj, "TraceSharedPtr", cfg(post="Accepted"))
    log("traces: %d events accepted so far" % ctx.events)


# ------------------------------------------------------------------ algorithms
ALGO_INVS = ["TypeOK", "LexLaws", "EqualLaws", "FrameLaws", "CopyIfLaws", "Emit"]


def afmt(s):
    return "%s|%s" % (cs(s["q"][0]), cs(s["q"][1]))


def algorithm(ctx, scope="full"):
    vs = std_variants()
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "algo", [("algo.cpp", v, ()) for v in vs])
        tabs = []
        for name, vals, a, b, masks in [("algorithms-three-values", "{0, 1, 2}", 3, 4 if THOROUGH else 3, "{0, 1, 2, 3, 4, 5, 6, 7}"),
                                        ("algorithms-two-values", "{1, 2}", 4, 5 if THOROUGH else 4, "{0, 2, 4, 6}")][1 if scope == "error" else 0:]:
            t = model(ctx, name, "MCAlgorithm", cfg(consts=[("Vals", vals), ("MaxA", a), ("MaxB", b), ("Masks", masks), ("EmitTable", "TRUE")], invs=ALGO_INVS))
            path = ctx.tmp("table")
            write_table(path, t, afmt)
            tabs.append(path)
        exes = fc.result()
    jobs, tj = [], []
    for i, v in enumerate(vs):
        exe = exes.get(("algo.cpp", v.name, ()))
        if not exe:
            continue
        for t in tabs:
            for p in range(2):
                jobs.append((exe, v.name, ["table=" + t, "mode=exh", "part=%d" % p, "parts=2"], True))
        tj.append((exe, v.name, ["mode=trace", "seed=%d" % (SEED * 10 + i), "steps=%d" % (40000 if THOROUGH else 2500), "maxlen=24"]))
    run_many(ctx, "algo", jobs)
    log("algorithm replay: %d cases, %d with a failure injected" % (ctx.replayed, ctx.fired))
    record_and_validate(ctx, "algo", tj, "TraceAlgorithm", cfg(post="Accepted"))
    log("traces: %d events accepted so far" % ctx.events)


# ------------------------------------------------------------------ the default allocator
def bfmt(s):
    return "|".join(cs(b) for b in s["b"])


def allocator(ctx):
    vs = [Variant("exc", ["-DELEM_KIND=1"] + ASAN), Variant("exc-usererr", ["-DELEM_KIND=1", "-DCUSTOM_ERR=1"] + ASAN),
          Variant("noexc", ["-DELEM_KIND=2", "-fno-exceptions"] + ASAN), Variant("noexc-ndebug", ["-DELEM_KIND=2", "-fno-exceptions", "-DNDEBUG", "-O2"])]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "allocator", [("alloc.cpp", v, ()) for v in vs])
        model(ctx, "heap", "NestlHeap", cfg(consts=[("Slots", "{1, 2, 3}" if THOROUGH else "{1, 2}"), ("Types", "{1, 2, 3, 4}" if THOROUGH else "{2, 3, 4}"), ("Counts", "{1, 2}"), ("H", 10 if THOROUGH else 9), ("MaxTake", 2)],
                                            invs=["TypeOK", "Disjoint", "OwnersApart", "Aligned", "Intact", "Balanced"], extra="PROPERTY Refines\n"))
        t = model(ctx, "default-allocator", "MCAllocator", cfg(consts=[("Slots", "{1, 2}"), ("Types", "{1, 2, 3, 4, 5, 6}"), ("Counts", "{0, 1, 3, 64}" if THOROUGH else "{0, 1, 5}"), ("Vias", "{0, 1, 2, 3, 4}"),
                  ("Clients", "{1, 2, 3, 4, 5, 6, 7, 8}"), ("ClientSizes", "{0, 1, 2, 5}" if THOROUGH else "{0, 1, 4}"), ("Huge", "{0, 1, 2, 3, 4, 5, 6}"), ("EmitTable", "TRUE")],
                  invs=["TypeOK", "FailureIsReported", "OnlyOwnSlot", "HugeNeverServed", "Emit"]))
        path = ctx.tmp("table")
        write_table(path, t, bfmt)
        exes = fc.result()
    jobs, tj = [], []
    for i, v in enumerate(vs):
        exe = exes.get(("alloc.cpp", v.name, ()))
        if not exe:
            continue
        for p in range(2):
            jobs.append((exe, v.name, ["table=" + path, "mode=exh", "part=%d" % p, "parts=2"], True))
        jobs.append((exe, v.name, ["table=" + path, "mode=walk", "seed=%d" % (SEED * 10 + i), "steps=%d" % (400000 if THOROUGH else 20000)], False))
        tj.append((exe, v.name, ["mode=trace", "seed=%d" % (SEED * 10 + i), "steps=%d" % (30000 if THOROUGH else 2000), "slots=12"]))
        tj.append((exe, v.name, ["mode=trace", "seed=%d" % (SEED * 10 + i + 5), "steps=%d" % (30000 if THOROUGH else 2000), "slots=3"]))
    run_many(ctx, "allocator", jobs)
    log("default allocator replay: %d cases, %d with a failure injected" % (ctx.replayed, ctx.fired))
    record_and_validate(ctx, "allocator", tj[0::2], "TraceAllocator", cfg(consts=[("Slots", "{%s}" % ", ".join(str(i) for i in range(1, 13)))], post="Accepted"))
    record_and_validate(ctx, "allocator", tj[1::2], "TraceAllocator", cfg(consts=[("Slots", "{1, 2, 3}")], post="Accepted"))
    log("traces: %d events accepted so far" % ctx.events)


# ------------------------------------------------------------------ containers of containers
def nested(ctx, scope="full"):
    vs = [Variant("exc-nested-vector", ["-DELEM_KIND=5"] + ASAN),
          Variant("exc-nested-throwing-vector", ["-DELEM_KIND=7"] + ASAN),
          Variant("exc-nested-throwing-list-usererr", ["-DELEM_KIND=8", "-DCUSTOM_ERR=1"] + ASAN),
          Variant("exc-nested-vector-vector-usererr", ["-DELEM_KIND=9", "-DCUSTOM_ERR=1"] + ASAN),
          Variant("noexc-nested-list", ["-DELEM_KIND=6", "-fno-exceptions"] + ASAN),
          Variant("noexc-nested-vector-ndebug", ["-DELEM_KIND=5", "-fno-exceptions", "-DNDEBUG", "-O2"])]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "nested", [(s, v, ()) for v in vs for s in ("vector.cpp", "list.cpp")])
        n = 3 if THOROUGH else 2
        if scope == "throw":
            vs = [v for v in vs if v.name.startswith("exc")]
        tabs = {"vector.cpp": [vec_table(ctx, "vector-of-containers", "{1, 3}", n, 1, "FALSE")],
                "list.cpp": [list_table(ctx, "list-of-containers", "{1, 3}", n, 1, "FALSE")]}
        exes = fc.result()
    jobs = []
    tj = {"vector.cpp": [], "list.cpp": []}
    for i, v in enumerate(vs):
        for s in ("vector.cpp", "list.cpp"):
            exe = exes.get((s, v.name, ()))
            if not exe:
                continue
            for t in tabs[s]:
                jobs.append((exe, v.name + "-in-" + s[:-4], ["table=" + t, "mode=exh", "flavors=2"], True))
                jobs.append((exe, v.name + "-in-" + s[:-4], ["table=" + t, "mode=walk", "seed=%d" % (SEED * 100 + i), "steps=%d" % (200000 if THOROUGH else 15000), "start=||1,1"], False))
            tj[s].append((exe, v.name + "-in-" + s[:-4], ["mode=trace", "seed=%d" % (SEED * 10 + i), "steps=%d" % (8000 if THOROUGH else 800), "maxlen=16"]))
    run_many(ctx, "nested", jobs)
    log("nested replay: %d cases, %d with a failure injected" % (ctx.replayed, ctx.fired))
    record_and_validate(ctx, "nested", tj["vector.cpp"], "TraceVector", cfg(post="Accepted"))
    record_and_validate(ctx, "nested", tj["list.cpp"], "TraceList", cfg(post="Accepted"))
    log("traces: %d events accepted so far" % ctx.events)


# ------------------------------------------------------------------ construction protocol
CON_INVS = ["OneReport", "DirectPreferred", "InitOnce", "InitAfterDefault", "NothingAfterFailedConstruction", "DestroyedOnce", "DestroyOnFailure", "EndClean", "ErrIffFailed", "OwnedOK", "Emit"]
CON_KIND = {"none": 0, "nothrow": 1, "throw": 2}
CON_MASK = {"clr": 0, "r": 1, "cl": 2}


def con_table(ctx):
    t = model(ctx, "construction-protocol", "MCConstruct",
              cfg(consts=[("Kinds", '{"nothrow", "throw"}'), ("Contexts", '{"raw", "list_pos", "list_back", "list_front", "vector_back", "shared"}'), ("Relocating", '{"vector_back"}'), ("EmitTable", "TRUE")],
                  invs=CON_INVS, extra="CONSTANT ArgLists <- AllArgs\nCONSTANT Masks <- AllMasks\nPROPERTY Terminates\n"))
    rows = {}
    for e in emitted(t):
        names = [x[0] for x in e["l"]]
        fe = 0
        if "direct!" in names or "default!" in names:
            fe = 1
        elif "init!" in names:
            fe = 2 if e["f"] == "throw" else 1
        typ = "%d%d%d%d" % (CON_KIND[e["d"]], CON_MASK["".join(sorted(e["m"]))], CON_KIND[e["f"]], e["i"])
        logs = ";".join("%s(%s)" % (n, ",".join(a)) for n, a in e["l"])
        key = "\t".join([typ, e["x"], "".join(e["a"]), "1" if e["e"] == "bad_alloc" else "0", str(fe)])
        rows.setdefault((key, e["e"]), set()).add(logs)
    path = ctx.tmp("table")
    with open(path, "w") as f:
        for (key, err), logs in sorted(rows.items()):
            f.write("%s\t%s\t%s\n" % (key, "|".join(sorted(logs)), err))
    return path, sum(len(v) for v in rows.values())


def construct(ctx):
    fl = ["-DELEM_KIND=2", "-O0", "-g0", "-fsanitize=address"]
    vs = [Variant("exc-default-error", fl), Variant("exc-user-error", fl + ["-DCUSTOM_ERR=1"]), Variant("noexc", fl + ["-fno-exceptions"])]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "construct", [("construct.cpp", v, ("-DCTXSEL=%d" % c,)) for c in (2, 1, 0) for v in vs])
        path, n = con_table(ctx)
        exes = fc.result()
    jobs = []
    for v in vs:
        for c in range(3):
            exe = exes.get(("construct.cpp", v.name, ("-DCTXSEL=%d" % c,)))
            if exe:
                jobs.append((exe, v.name, ["table=" + path], True))
    run_many(ctx, "construct", jobs)
    log("construction protocol: %d behaviours, %d cases replayed in total, %d with a failure injected" % (n, ctx.replayed, ctx.fired))


# ------------------------------------------------------------------ the error objects themselves
def efmt(s):
    return cs(s["e"])


def errors(ctx):
    fl = ["-DELEM_KIND=2"] + ASAN
    vs = [Variant("exc", fl), Variant("exc-error-code", fl + ["-DERRC=1"]), Variant("noexc", fl + ["-fno-exceptions"]), Variant("noexc-O2-ndebug", ["-DELEM_KIND=2", "-fno-exceptions", "-O2", "-DNDEBUG"])]
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "error", [("error.cpp", v, ()) for v in vs])
        t = model(ctx, "error-objects", "MCError", cfg(consts=[("Slots", 2), ("Kinds", "{3, 4, 5, 6, 7, 8}"), ("EmitTable", "TRUE")], invs=["TypeOK", "Frame", "NoInvention", "ReportSticks", "AskPure", "Emit"]))
        path = ctx.tmp("table")
        write_table(path, t, efmt)
        exes = fc.result()
    jobs = []
    for i, v in enumerate(vs):
        exe = exes.get(("error.cpp", v.name, ()))
        if exe:
            jobs.append((exe, v.name, ["table=" + path, "mode=exh"], True))
            jobs.append((exe, v.name, ["table=" + path, "mode=walk", "seed=%d" % (SEED * 100 + i), "steps=%d" % (300000 if THOROUGH else 20000), "start=0,0"], False))
    run_many(ctx, "error", jobs)
    log("error objects: %d cases replayed in total" % ctx.replayed)


# ------------------------------------------------------------------ build configurations against each other
def modes(ctx):
    o = ["-O1", "-g0"]
    groups = [
        ("twophase", ["vector", "list", "set", "sptr"], [
            Variant("exc", ["-DELEM_KIND=2"] + o), Variant("noexc", ["-DELEM_KIND=2", "-fno-exceptions"] + o),
            Variant("exc-usererr", ["-DELEM_KIND=2", "-DCUSTOM_ERR=1"] + o), Variant("noexc-usererr", ["-DELEM_KIND=2", "-DCUSTOM_ERR=1", "-fno-exceptions"] + o),
            Variant("noexc-ndebug", ["-DELEM_KIND=2", "-fno-exceptions", "-DNDEBUG", "-O2", "-g0"])]),
        ("trivial", ["vector", "list", "set"], [
            Variant("exc-trivial", ["-DELEM_KIND=4"] + o), Variant("noexc-trivial-ndebug", ["-DELEM_KIND=4", "-fno-exceptions", "-DNDEBUG"] + o)]),
    ]
    n = 3 if THOROUGH else 2
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fc = ex.submit(compile_all, ctx, "modes", [(c + ".cpp", v, ()) for _, cs_, vs in groups for c in cs_ for v in vs])
        tabs = {"vector": vec_table(ctx, "vector-modes", "{1, 2}", n, 1, "TRUE"),
                "list": list_table(ctx, "list-modes", "{1, 2}", n, 1, "TRUE"),
                "set": set_table(ctx, "set-modes", "{11, 12, 20}", n, 1, "TRUE", "{0, 1}"),
                "sptr": ptr_table(ctx, "shared-ptr-modes", 1, 2, 1)}
        exes = fc.result()

    def run(job):
        comp, exe, v, kind, seed = job
        out = ctx.tmp("%s-%s-%s" % (comp, v.name, kind))
        if kind == "exh":
            a = ["table=" + tabs[comp], "mode=exh", "skip=t_", "dump=" + out] + (["N=1", "NS=2", "NW=1"] if comp == "sptr" else ["flavors=2"])
        else:
            a = ["mode=trace", "seed=%d" % seed, "steps=%d" % (8000 if THOROUGH else 1200), "skip=t_", "trace=" + out] + (["N=5", "NS=3", "NW=3"] if comp == "sptr" else ["maxlen=24"])
        divs = run_harness(ctx, "modes", exe, v.name, a, 300, "", kind == "exh")
        return out, divs

    def compare(base, other, kind, comp, gname):
        """first difference between two recordings, as text, or None"""
        (fa, da), (fb, db) = base, other
        ka, kb = {(d["tag"], d["op"], d["fault"]) for d in da}, {(d["tag"], d["op"], d["fault"]) for d in db}
        if kind == "exh":
            i = 0
            with open(fa, errors="replace") as x, open(fb, errors="replace") as y:
                import itertools
                for i, (p, q) in enumerate(itertools.zip_longest(x, y)):
                    if p != q:
                        return "mode-outcome", "case %d: %s / %s" % (i, (p or "nothing").strip()[:700], (q or "nothing").strip()[:700])
            ctx.count(events=i)
        elif not {"crash", "hang"} & {k[0] for k in ka | kb}:
            ok, idx, why, dist, gen = check_trace(ctx, "TraceModes", cfg(post="Accepted"), fa, trace2=fb)
            ctx.count(states=dist, transitions=gen)
            if not ok:
                la = open(fa, errors="replace").read().splitlines()[idx - 1:idx] or ["nothing"]
                lb = open(fb, errors="replace").read().splitlines()[idx - 1:idx] or ["nothing"]
                return why, "event %d: %s / %s" % (idx, la[0][:900], lb[0][:900])
            ctx.count(events=dist)
        if ka != kb:
            d = [x for x in da + db if (x["tag"], x["op"], x["fault"]) in ka ^ kb][0]
            return "mode-" + d["tag"], "only in one of the two builds: %s %s" % (d["case"][:700], d["detail"][:500])
        return None

    plan = []
    for gname, comps, vs in groups:
        for c in comps:
            vv = [v for v in vs if (c + ".cpp", v.name, ()) in exes]
            for kind in ("exh", "trace"):
                if len(vv) > 1:
                    plan.append((gname, c, kind, vv))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        jobs = {(g, c, k, v.name): ex.submit(run, (c, exes[(c + ".cpp", v.name, ())], v, k, SEED * 7 + 3)) for g, c, k, vv in plan for v in vv}
        res = {k: f.result() for k, f in jobs.items()}
        pairs = [(g, c, k, vv[0], v) for g, c, k, vv in plan for v in vv[1:]]
        diffs = list(ex.map(lambda p: compare(res[(p[0], p[1], p[2], p[3].name)], res[(p[0], p[1], p[2], p[4].name)], p[2], p[1], p[0]), pairs))
    for (g, c, k, a, b), d in zip(pairs, diffs):
        if not d:
            ctx.models.append({"modes": "%s %s: %s = %s" % (c, k, a.name, b.name), "module": "TraceModes" if k == "trace" else "outcome table"})
            continue
        # confirm with fresh runs of both
        again = compare(run((c, exes[(c + ".cpp", a.name, ())], a, k, SEED * 7 + 3)), run((c, exes[(c + ".cpp", b.name, ())], b, k, SEED * 7 + 3)), k, c, g)
        if again:
            add_div(ctx, "modes", a.name + " / " + b.name, "mode", c, "none", "%s %s: %s" % (c, k, d[1]), d[0], "")
        else:
            log("not reproduced:", d)
    for out, _ in res.values():
        if os.path.exists(out):
            os.unlink(out)
    log("modes: %d recordings compared in pairs, %d cases" % (len(pairs), ctx.replayed))
