"""check.py <property> [--replay FILE]: decides one property by generated-input search on the current tree."""
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT_DIR = os.environ.get("VERIF_OUT") or HERE


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as f:
        return json.load(f)


def main():
    prop = sys.argv[1]
    if prop == "--smoke":
        from pbt import core

        import aerokit

        print("aerokit", aerokit.__file__, "hypothesis", core.hypothesis.__version__)
        return 0
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    from pbt import core

    known = {k["id"]: k for k in load_known()["known"] if k["property"] == prop}
    mods = json.load(open(os.path.join(HERE, "pbt", "modules.json")))
    try:
        importlib.import_module("pbt." + mods[prop])
    except Exception as e:
        # the code under test cannot even be imported: report as violation
        if isinstance(e, ImportError) or core.in_repo(e.__traceback__):
            path = write_replay(prop, "import", dict(case=None, message=repr(e)))
            print(f"  import of the code under test failed: {e!r}")
            print(f"VIOLATION property={prop} replay={path}")
            return 1
        raise
    import warnings

    warnings.simplefilter("ignore")
    import aerokit

    if not os.path.realpath(aerokit.__file__).startswith(core.REPO + os.sep):
        print("harness error: aerokit imported from", aerokit.__file__)
        return 2
    subs = core.SUBS[prop]
    if replay:
        d = json.load(open(replay))
        s = [s for s in subs if s.name == d["sub"]][0]
        ctx = core.Ctx(prop, set(known))
        so, sys.stdout = sys.stdout, core.OUT
        msg = None
        try:
            core.run_case(s, d["case"], ctx)
        except (core.Violation, core.Hang) as e:
            msg = str(e) or "no answer"
        except core.OutOfDomain:
            pass
        sys.stdout = so
        for k, v in ctx.known_hits.items():
            print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
        if msg:
            print(" ", s.name, d["case"], "->", msg)
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        print("no violation on this case")
        return 0

    corpus = {}
    cpath = os.path.join(HERE, "corpus", prop + ".jsonl")
    if os.path.exists(cpath):
        for l in open(cpath):
            if l.strip():
                d = json.loads(l)
                corpus.setdefault(d["sub"], []).append(d["case"])

    results = run_all(core, subs, seed, tier, set(known), corpus)
    return report(core, prop, subs, results, known, seed, tier, t0)


def run_all(core, subs, seed, tier, known, corpus):
    """one forked process per subcheck (isolated global state), a few at a time"""
    scratch = os.environ.get("VERIF_SCRATCH", "/tmp")
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    pending = sorted(subs, key=lambda s: -s.weight)
    running, results = {}, {}
    sys.stdout.flush()
    while pending or running:
        while pending and len(running) < nproc:
            s = pending.pop(0)
            out = os.path.join(scratch, f"res-{s.prop}-{s.name}.json")
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    core.run_sub(s, seed, tier, known, corpus.get(s.name, []), out)
                    code = 0
                except BaseException:
                    import traceback

                    traceback.print_exc()
                finally:
                    os._exit(code)
            running[pid] = (s, out)
        pid, status = os.wait()
        if pid in running:
            s, out = running.pop(pid)
            try:
                results[s.name] = json.load(open(out))
            except Exception as e:
                results[s.name] = dict(name=s.name, evaluations=0, skipped=0, nontrivial=0, distinct=0, labels={},
                                       samples=[], violation=None, known={}, wall=0, corpus=0,
                                       error=f"subcheck process died (status {status}): {e!r}")
    return results


def write_replay(prop, name, v):
    d = os.path.join(OUT_DIR, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, sub=name, case=v["case"], message=v["message"]), f, indent=1)
    return path


def report(core, prop, subs, results, known, seed, tier, t0):
    order = [s.name for s in subs]
    rs = [results[n] for n in order]
    viol = [(r["name"], r["violation"]) for r in rs if r["violation"]]
    errs = [(r["name"], r["error"]) for r in rs if r["error"]]
    hits = {}
    for r in rs:
        hits.update(r["known"])
    ev = sum(r["evaluations"] for r in rs)
    dn = sum(r["distinct"] for r in rs)
    cov = dict(
        evaluations=ev,
        distinct_nontrivial=dn,
        rule=core.RULES.get(prop, "") + " Non-trivial: the case is inside the domain of the property and its oracle was "
        "evaluated to the end; distinct by content.",
        samples=[dict(sub=r["name"], case=c) for r in rs for c in r["samples"]][:40],
        out_of_domain=sum(r["skipped"] for r in rs),
        corpus_cases=sum(r["corpus"] for r in rs),
        subchecks={r["name"]: dict(evaluations=r["evaluations"], distinct_nontrivial=r["distinct"],
                                   out_of_domain=r["skipped"], labels=r["labels"], wall_s=round(r["wall"], 2)) for r in rs},
    )
    os.makedirs(os.path.join(OUT_DIR, "evidence"), exist_ok=True)
    with open(os.path.join(OUT_DIR, "evidence", prop + ".json"), "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                       assumptions=["IEEE double arithmetic of numpy/scipy in /opt/venv",
                                    "oracles of /verif/pbt are the intended physics (see DESIGN.md)"],
                       wall_s=round(time.time() - t0, 2), violations=len(viol)), f, indent=1)
    for r in rs:
        print(f"  {r['name']:28s} {r['evaluations']:6d} cases {r['distinct']:6d} distinct non-trivial "
              f"{r['skipped']:5d} out of domain {r['wall']:6.1f} s")
    for k in sorted(hits):
        print(f"KNOWN-FINDING: property={prop} {known[k]['what']}")
    for k in known:
        if k not in hits and not viol and not errs:
            print(f"  note: listed finding {k} was not observed on this tree")
    for n, e in errs:
        print(f"harness error in {n}:\n{e}")
    for n, v in viol:
        path = write_replay(prop, n, v)
        print(f"  {n}: {v['message']}")
        print(f"    case: {json.dumps(v['case'])[:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    if viol:
        return 1
    if errs:
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
