"""Which components decide which property, and which properties a divergence breaks."""

V = ("vector", {})
L = ("list_", {})
S = ("set_", {})
P = ("sptr", {})
RUNS = {
    "C01": [V], "C02": [V], "C03": [V], "C04": [V], "C05": [V],
    "C06": [L], "C07": [L], "C08": [L], "C09": [L],
    "C10": [S], "C11": [S], "C12": [S], "C13": [S],
    "C14": [P], "C15": [P], "C16": [P, ("construct", {})],
    "C17": [("vector", {"scope": "alloc"}), ("list_", {"scope": "alloc"}), ("set_", {"scope": "alloc"}), ("sptr", {"scope": "alloc"})],
    "C18": [("vector", {"scope": "error"}), ("list_", {"scope": "error"}), ("set_", {"scope": "error"}), ("sptr", {"scope": "error"}), ("algorithm", {"scope": "error"}), ("construct", {}), ("nested", {}), ("errors", {})],
    "C19": [("construct", {}), ("nested", {})],
    "C20": [("algorithm", {})],
    "C21": [("vector", {"scope": "throw"}), ("list_", {"scope": "throw"}), ("errors", {})],
    "C22": [("modes", {})],
    "C23": [("allocator", {})],
}

ASSUMPTIONS = [
    "small scope: outcome tables cover containers of a few elements; longer histories are sampled (seeded) and validated against the trace specifications",
    "allocation is observed through a user-supplied allocator and element construction through instrumented element types; both only use the library's public interface",
    "g++ 13 -std=gnu++11, with AddressSanitizer/UBSan in all builds but one (NDEBUG -O2)",
    "single-threaded use; comparators, predicates and element destructors do not fail",
]



def after_failure(d):
    """the history which shows the divergence contains a failed call: the object did not stay fully usable"""
    return d["tag"] in ("contents", "ret", "crash", "hang", "lifetime", "leak", "address", "capacity") and ("!alloc" in d["case"] or "!elem" in d["case"])


def inconsistent(d):
    """iterating shows something else than the other observers"""
    return d["tag"] == "contents" and "inconsistent observers" in d["detail"]


OWN = {"push_own", "emplace_own", "insert_own", "resize_own", "assign_own", "t_push_own"}
SELF = {"swap_self", "copy_self", "move_self", "eq_self", "t_copy_assign_self"}


def vector_props(d):
    tag, op, fault = d["tag"], d["op"], d["fault"]
    r = set()
    if tag == "compile":
        return {"C01", "C02", "C03", "C04", "C05", "C17", "C18", "C22"} | ({"C21"} if d["variant"].startswith("exc") else set())
    if tag in ("contents", "ret"):
        r |= {"C01"}
    if tag == "failstate":
        r |= {"C02"}
    if tag in ("spurious-error", "lost-error", "error"):
        r |= {"C02", "C18"}
    if tag == "error-kind":
        r |= {"C18"}
    if tag in ("lifetime", "leak"):
        r |= {"C03"} | ({"C02"} if fault != "none" else {"C01"} if tag == "lifetime" else set())
    if tag in ("allocator", "leak"):
        r |= {"C17"}
    if tag in ("capacity", "growth", "huge"):
        r |= {"C04"} | ({"C18"} if tag == "huge" else set())
    if op in ("reserve", "shrink") and tag not in ("allocator", "leak", "error-kind"):
        r |= {"C04"}
    if after_failure(d):
        r |= {"C02"}
    if tag in ("crash", "hang"):
        r |= {"C03", "C01" if fault == "none" else "C02"}
    if op.startswith("huge") or op == "grow":
        r |= {"C04"}
    if op in OWN | SELF:
        r |= {"C05"} if tag not in ("allocator", "capacity") else set()
    if op.startswith("t_"):
        r |= {"C21"}
    return r


SORTS = {"bulk_sort", "bulk_merge", "sort", "sort_comp", "merge", "merge_rv", "merge_comp", "merge_comp_rv"}
TRANSFER = {"bulk_splice", "swap", "swap_self", "move_assign", "move_self", "mctor"}


def list_props(d):
    tag, op = d["tag"], d["op"]
    moves = op in SORTS or op in TRANSFER or op.startswith("splice")
    r = set()
    if tag == "compile":
        r = {"C06", "C07", "C08", "C09", "C17", "C18", "C22"} | ({"C21"} if d["variant"].startswith("exc") else set())
        return r
    if tag in ("contents", "ret"):
        r |= {"C07"} if op in SORTS else {"C06"}
        r |= {"C08"} if moves or inconsistent(d) else set()
    if after_failure(d):
        r |= {"C09"}
    if tag == "address":
        r |= {"C08"} | ({"C07"} if op in SORTS else set())
    if tag == "purity":
        r |= ({"C08"} if moves else {"C06"}) | ({"C07"} if op in SORTS else set())
    if tag == "failstate":
        r |= {"C09"}
    if tag in ("spurious-error", "lost-error", "error"):
        r |= {"C09", "C18"}
    if tag == "error-kind":
        r |= {"C18"}
    if tag in ("lifetime", "leak"):
        r |= {"C09"} | ({"C07"} if op in SORTS else set()) | ({"C08"} if moves else set()) | ({"C06"} if tag == "lifetime" and d["fault"] == "none" else set())
    if tag in ("allocator", "leak"):
        r |= {"C17"}
    if tag in ("crash", "hang"):
        r |= {"C06", "C08", "C09"} | ({"C07"} if op in SORTS else set())
    if op.startswith("t_"):
        r |= {"C21"}
    return r


def set_props(d):
    tag, op = d["tag"], d["op"]
    r = set()
    if tag == "compile":
        return {"C10", "C11", "C12", "C13", "C17", "C18", "C22"}
    if tag in ("contents", "ret"):
        r |= {"C10"} | ({"C13"} if op in TRANSFER or inconsistent(d) else set())
    if after_failure(d):
        r |= {"C12"}
    if tag == "address":
        r |= {"C13"}
    if tag == "purity":
        r |= {"C13"} if op in TRANSFER else {"C10"}
    if tag == "balance":
        r |= {"C11"}
    if tag == "failstate":
        r |= {"C12"}
    if tag in ("spurious-error", "lost-error", "error"):
        r |= {"C12", "C18"}
    if tag == "error-kind":
        r |= {"C18"}
    if tag in ("lifetime", "leak"):
        r |= {"C12"} | ({"C13"} if op in TRANSFER else set()) | ({"C10"} if tag == "lifetime" and d["fault"] == "none" else set())
    if tag in ("allocator", "leak"):
        r |= {"C17"}
    if tag in ("crash", "hang"):
        r |= {"C10", "C12", "C13"} | ({"C11"} if tag == "hang" else set())
    if "balance workload" in d["case"] or "shape history" in d["case"]:
        r |= {"C11"} if tag in ("crash", "hang", "contents", "ret", "lifetime") else set()
    return r


def sptr_props(d):
    tag, op, fault = d["tag"], d["op"], d["fault"]
    weak = op.startswith("w") or "lock" in op or "weak" in op
    make = op.startswith("make")
    r = set()
    if tag == "compile":
        return {"C14", "C15", "C16", "C17", "C18", "C22"}
    if tag in ("contents", "ret", "purity"):
        r |= {"C14"} | ({"C15"} if weak else set()) | ({"C16"} if make else set())
    if tag == "weak":
        r |= {"C15"}
    if tag == "failstate":
        r |= {"C16"}
    if tag in ("spurious-error", "lost-error", "error"):
        r |= {"C16", "C18"}
    if tag == "error-kind":
        r |= {"C16", "C18"}
    if tag in ("lifetime", "crash", "hang"):
        r |= {"C14", "C15"} | ({"C16"} if make or fault != "none" else set())
    if tag == "leak":
        r |= {"C15"} | ({"C16"} if make or fault != "none" else {"C14"})
    if tag == "allocator":
        r |= {"C17", "C16"}
    if tag == "leak":
        r |= {"C17"}
    return r


def algo_props(d):
    tag = d["tag"]
    if tag == "compile":
        return {"C20", "C18", "C22"}
    return {"C20"} | ({"C18"} if tag in ("error", "spurious-error", "lost-error", "error-kind") else set())


def nested_props(d):
    tag, op, v = d["tag"], d["op"], d["variant"]
    m = vector_props if v.endswith("vector") else list_props
    r = {"C19"} | (m(d) if tag != "compile" else set())
    return r


def construct_props(d):
    tag = d["tag"]
    r = {"C19"}
    if tag in ("error", "spurious-error", "lost-error", "error-kind", "compile"):
        r |= {"C18"}
    if tag in ("leak", "lifetime", "protocol", "crash"):
        r |= {"C16"} if d["op"] == "shared" else {"C03"} if d["op"].startswith("vector") else {"C09"} if d["op"].startswith("list") else set()
    return r


def allocator_props(d):
    tag, op = d["tag"], d["op"]
    r = {"C23"}
    if op == "client" or tag == "compile":
        r |= {"C18"} if tag in ("error", "spurious-error", "lost-error", "error-kind", "compile") else set()
    return r


def modes_props(d):
    return {"C22"}


def error_props(d):
    r = {"C18"}
    if d["op"].startswith("throw"):
        r |= {"C21"}
    return r


MAPS = {"error": error_props, "allocator": allocator_props, "algo": algo_props, "nested": nested_props, "construct": construct_props, "modes": modes_props, "vector": vector_props, "list": list_props, "set": set_props, "sptr": sptr_props}


def props_of(d):
    r = MAPS[d["comp"]](d)
    if d["tag"] in ("crash", "hang") and d["fault"] not in ("none", ""):
        r = r | {"C18"}          # the failure was not reported: the call never returned
    return r
