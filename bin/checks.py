"""What decides each property: recorded executions of the real code (jobs) and design models."""


def index_jobs(seed, n, profiles, hists=30, length=80, kinds="ram,sim,fs,mmap"):
    return [{"cmd": "index", "spec": "TraceIndex",
             "args": {"seed": seed * 1000 + k, "hists": hists, "len": length, "profile": profiles[k % len(profiles)], "kinds": kinds}}
            for k in range(n)]


IDX = {  # profiles whose histories exercise the property most
    "C01": ["crash"],
    "C02": ["reader", "nrt", "core", "merge"],
    "C03": ["writer", "addidx", "core", "merge", "writer"],
    "C04": ["tx", "addidx", "core", "policy"],
    "C05": ["lock", "reader", "core"],
    "C06": ["crash", "tx", "merge", "policy", "fault"],
    "C07": ["policy", "snapshot", "policy", "reader"],
    "C08": ["nrt", "nrt", "core", "merge"],
    "C09": ["reader", "reader", "lock", "nrt"],
    "C10": ["merge", "addidx", "writer", "core"],
    "C11": ["fault"],
}


# properties decided by one driver each: command, specification, jobs (quick, thorough), arguments
PLAIN = {
    "C13": [("inv", "TraceInv", 16, 200, {"hists": 3, "len": 40, "bulk": 1, "what": "post"}),
            ("inv", "TraceInv", 40, 600, {"hists": 6, "len": 60, "bulk": 0, "what": "post"})],
    "C23": [("inv", "TraceInv", 8, 100, {"hists": 3, "len": 40, "bulk": 1, "what": "stored"}),
            ("inv", "TraceInv", 40, 600, {"hists": 6, "len": 60, "bulk": 0, "what": "stored"})],
    "C14": [("search", "TraceSearch", 16, 160, {"hists": 1, "len": 12, "bulk": 1, "what": "bool"}),
            ("search", "TraceSearch", 40, 800, {"hists": 6, "len": 30, "bulk": 0, "what": "bool"}),
            ("search", "TraceSearch", 16, 200, {"hists": 6, "len": 30, "bulk": 0, "what": "all"})],
    "C15": [("search", "TraceSearch", 16, 160, {"hists": 1, "len": 12, "bulk": 1, "what": "phrase"}),
            ("search", "TraceSearch", 40, 800, {"hists": 6, "len": 30, "bulk": 0, "what": "phrase"}),
            ("search", "TraceSearch", 16, 200, {"hists": 6, "len": 30, "bulk": 0, "what": "all"})],
    "C16": [("search", "TraceSearch", 16, 160, {"hists": 1, "len": 12, "bulk": 1, "what": "terms"}),
            ("search", "TraceSearch", 40, 800, {"hists": 6, "len": 30, "bulk": 0, "what": "terms"}),
            ("search", "TraceSearch", 16, 200, {"hists": 6, "len": 30, "bulk": 0, "what": "all"})],
    "C17": [("search", "TraceSearch", 16, 160, {"hists": 1, "len": 12, "bulk": 1, "what": "top"}),
            ("search", "TraceSearch", 40, 800, {"hists": 6, "len": 30, "bulk": 0, "what": "top"}),
            ("search", "TraceSearch", 16, 200, {"hists": 6, "len": 30, "bulk": 0, "what": "all"})],
    "C18": [("search", "TraceSearch", 40, 800, {"hists": 6, "len": 30, "bulk": 0, "what": "views"}),
            ("search", "TraceSearch", 16, 200, {"hists": 6, "len": 30, "bulk": 0, "what": "all"})],
    "C19": [("search", "TraceSearch", 40, 800, {"hists": 6, "len": 30, "bulk": 0, "what": "cache"}),
            ("search", "TraceSearch", 16, 200, {"hists": 6, "len": 30, "bulk": 0, "what": "all"})],
    "C22": [("store", "TraceStore", 64, 1200, {"hists": 20, "len": 200})],
    "C24": [("sets", "TraceSets", 64, 1200, {"hists": 40, "len": 120})],
}


def get(pid, tier, seed):
    big = tier == "thorough"
    if pid in PLAIN:
        jobs = []
        for cmd, spec, q, t, args in PLAIN[pid]:
            for k in range(t if big else q):
                jobs.append({"cmd": cmd, "spec": spec, "args": dict(args, seed=seed * 1000 + k)})
        return {"jobs": jobs, "models": []}
    if pid in IDX:
        jobs = index_jobs(seed, 200 if big else 32, IDX[pid])
        for j in jobs:
            if j["args"]["profile"] == "crash":
                j["args"]["hists"] = 20
        return {"jobs": jobs, "models": []}
    raise SystemExit("no check for " + pid)


CLAIMED = sorted(list(IDX) + list(PLAIN))
TECH = {}
NOTE = {}
NA = {}
DEFNOTE = ("Every recorded call of seeded random histories of the real code must be the transition the TLA+ specification prescribes (outcome, content, "
           "commits, files); exploration is sampled, not exhaustive. Trusted: the driver's projections of the API, TLC, the compiler.")
