#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on the current tree of /repo.
check.py --replay FILE: runs a saved violation again."""
import hashlib, json, os, random, shutil, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from ilv import *
import suites

WORK = os.path.join(ROOT, "work")


def known_findings():
    k = set()
    for l in open(os.path.join(ROOT, "KNOWN_FINDINGS")):
        if l.startswith("known:"):
            f = dict(x.split("=", 1) for x in l.split()[1:3])
            k.add((f["property"], f["case"]))
    return k


def save_replay(pid, seed, tier, v):
    d = os.path.join(WORK, "replays")
    os.makedirs(d, exist_ok=True)
    body = dict(property=pid, seed=seed, tier=tier, kind=v.kind, detail=v.detail, **v.case)
    text = json.dumps(body)
    p = os.path.join(d, f"{pid}-{hashlib.sha1(text.encode()).hexdigest()[:10]}.json")
    with open(p, "w") as f:
        f.write(text + "\n")
    return p


def main(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    run = os.path.join(WORK, f"run-{pid}-{os.getpid()}")
    scratch = os.path.join(run, "scratch")
    os.makedirs(scratch)
    prop = suites.PROPS[pid]
    budget = 400 if tier == "quick" else 3000
    runs, samples, traces, events, vectors = [], [], 0, 0, 0
    status, viol = 0, None
    notes = []
    try:
        build()
        # ---- the model itself, and the behaviours it prescribes
        todo = []
        for mc in prop.get("mc", []):
            for m in suites.model(mc, tier):
                todo.append(m)

        def one_model(m):
            r = tlc(run, m["module"], m["cfg"], workers=m.get("workers", 4), timeout=m.get("timeout", 600),
                    args=m.get("args", ()))
            if not r["ok"]:
                raise ToolError(f"model {m['name']} fails its own properties:\n" + r["text"][-3000:])
            n = 0
            kept = None
            if r["vec"]:
                ss = suites.vector_sessions(r["vec"])
                done = execute(ss, scratch)
                if m.get("judge"):
                    for part in suites.batches(done):
                        q = validate(run, "Trace_pure" if ss[0]["su"] == "pure" else "Trace_state", part, "judged", workers=4)
                        n += q["events"]
                        r["secs"] += q["secs"]
                        r["states"] += q["states"]
                        r["generated"] += q["generated"]
                else:
                    n = compare(done)
                kept = ss[len(ss) // 2]
            elif m.get("vectors"):
                raise ToolError(f"model {m['name']} printed no behaviours")
            return m, r, n, kept
        with ThreadPoolExecutor(2) as ex:
            for m, r, n, kept in ex.map(one_model, todo):
                runs.append(dict(model=m["name"], states=r["states"], transitions=r["generated"], replayed_operations=n,
                                 secs=r["secs"]))
                vectors += n
                if kept:
                    samples.append(dict(from_model=m["name"], session=trim(kept)))
        # ---- recorded sessions against the model
        jobs = []
        for name, su, sessions in suites.traces(prop, seed, tier):
            jobs.append((name, "Trace_state" if su != "pure" else "Trace_pure", sessions))

        def one_trace(j):
            name, module, sessions = j
            ex = execute(sessions, scratch, par=4)
            return name, validate(run, module, ex, name, workers=4), ex
        rnd = random.Random(seed)
        with ThreadPoolExecutor(2) as ex:
            for name, r, done in ex.map(one_trace, jobs):
                runs.append(dict(trace=name, sessions=len(done), events=r["events"], states=r["states"],
                                 transitions=r["generated"], secs=r["secs"]))
                traces += len(done)
                events += r["events"]
                s, ev = rnd.choice(done)
                if len(samples) < 12:
                    samples.append(dict(trace=name, session={k: trim(v) for k, v in s.items() if k != "ops"},
                                        events=trim(ev[:2])))
                if time.time() - t0 > budget and tier == "quick":
                    raise ToolError("out of time")
        # ---- what is known to fail
        for case, session, expect in prop.get("known", []):
            try:
                done = execute([session], scratch)
                if done[0][1][0].get("panic"):
                    raise Violation("panic", done[0][1][0]["panic"], session=session)
            except Violation as v:
                if (pid, case) in known_findings() and v.kind == "crash" and expect in v.detail:
                    print(f"KNOWN-FINDING: property={pid} {case}: {v.detail[:160]}".replace("\n", " "))
                    notes.append(f"known finding {case} reproduced")
                else:
                    raise
    except Violation as v:
        viol = v
        status = 1
    except ToolError as e:
        print("ERROR:", e, file=sys.stderr)
        status = 2
    except Exception:
        traceback.print_exc()
        status = 2
    finally:
        shutil.rmtree(run, ignore_errors=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(r["states"] for r in runs), transitions=sum(r["transitions"] for r in runs),
                            traces_validated_against_impl=traces, events_validated=events,
                            model_operations_replayed=vectors, samples=samples or ["none: the check ended early"],
                            runs=runs, exhaustive=False),
              assumptions=prop.get("assumptions", []) + notes, wall_s=round(time.time() - t0, 2),
              violations=1 if viol else 0)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if viol:
        p = save_replay(pid, seed, tier, viol)
        print(f"{viol.kind}: {viol.detail}")
        e = viol.case.get("event")
        if e is not None:
            print("event:", json.dumps(e)[:1500])
        print(f"VIOLATION property={pid} replay={p}")
    elif status == 0:
        print(f"{pid}: held ({tier}, seed {seed}): {sum(r['states'] for r in runs)} model states, {vectors} model operations "
              f"replayed, {traces} sessions with {events} events validated, {time.time() - t0:.0f} s")
    return status


def trim(x, n=40):
    if isinstance(x, list):
        return [trim(y, n) for y in x[:n]] + (["..."] if len(x) > n else [])
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in x.items()}
    return x


def replay(path):
    c = json.load(open(path))
    run = os.path.join(WORK, f"replay-{os.getpid()}")
    os.makedirs(os.path.join(run, "scratch"))
    try:
        build()
        s = c["session"]
        done = execute([s], os.path.join(run, "scratch"))
        if c["kind"] == "vector":
            compare(done)
        else:
            validate(run, "Trace_pure" if s["su"] == "pure" else "Trace_state", done, "replay")
        print("the behaviour is allowed by the model now")
        return 0
    except Violation as v:
        print(f"{v.kind}: {v.detail}")
        for k in ("event", "expected", "state"):
            if v.case.get(k):
                print(k + ":", json.dumps(v.case[k])[:4000])
        print(f"VIOLATION property={c['property']} replay={path}")
        return 1
    finally:
        shutil.rmtree(run, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
