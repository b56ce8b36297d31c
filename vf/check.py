"""Decides one property:  python -m vf.check C05   (VERIF_TIER, VERIF_SEED)

Exit 0: it held on everything explored; 1: violated (VIOLATION line); 2: no answer."""
import os
import re
import sys
import json
import traceback
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(k, "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True

from vf import engine, tlc, props   # noqa


def evidence(pid, ev):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def split(clauses):
    return re.findall(r'"((?:[^"\\]|\\.)*)"', clauses.replace('\\"', '"')) or [clauses]


def judge(pid, part, records, verdicts):
    """Violations (index, step, op, clauses) that belong to the property."""
    own = re.compile(part.own)
    out, foreign = [], 0
    for i, v in enumerate(verdicts):
        if v[0] != "BAD":
            continue
        op = records[i][v[1] - 1].get("op", "?")
        cl = split(v[2])
        mine = [c for c in cl if own.search(op + ": " + c)]
        if mine:
            out.append((i, v[1], op, mine))
        else:
            foreign += 1
    return out, foreign


def run(pid, tier, seed, replay=None):
    t0 = time.time()
    spec = props.get(pid)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], parts=[])
    violations = []
    parts = list(spec.parts(tier, seed))
    # The exhaustive models: every transition becomes a history
    models = [p for p in parts if p.model]
    with ThreadPoolExecutor(8) as pool:
        for part, (out, s, t) in zip(models, pool.map(lambda p: p.model.run(), models)):
            part.items = part.model.histories(out)
            part.info.update(model_states=s, model_transitions=t)
            cov["states"] += s
            cov["transitions"] += t
    t1 = time.time()
    # Run them on the implementation and have TLC judge the recordings
    for module in sorted({p.module for p in parts}):
        group = [p for p in parts if p.module == module and p.items]
        items = [x for p in group for x in p.items]
        records = engine.run_all(group[0].func, items)
        k = 0
        for part in group:       # without those that were not run
            n = len(part.items)
            part.items = [x for x, r in zip(part.items, records[k:k + n]) if r is not None]
            k += n
        group = [p for p in group if p.items]
        records = [r for r in records if r is not None]
        t2 = time.time()
        verdicts, s, t = tlc.validate(records, module)
        cov["states"] += s
        cov["transitions"] += t
        cov["traces_validated_against_impl"] += len(records)
        k = 0
        for part in group:
            rec, ver = records[k:k + len(part.items)], verdicts[k:k + len(part.items)]
            k += len(part.items)
            bad, foreign = judge(pid, part, rec, ver)
            kinds = {x: sum(v[0] == x for v in ver) for x in ("END", "SKIP", "BAD")}
            part.info.update(histories=len(rec), steps=sum(len(r) for r in rec), judged_to_the_end=kinds["END"],
                             judged_in_part=kinds["SKIP"], foreign=foreign,
                             distinct=len({json.dumps(x, sort_keys=True) for x in part.items}))
            cov["samples"].append(dict(part=part.name, history=shorten(rec[0])))
            for b in bad:
                violations.append((part, rec, b))
    cov["parts"] = [dict(part=p.name, **p.info) for p in parts]
    cov["times"] = dict(models=round(t1 - t0, 1), runs=round(t2 - t1, 1), judging=round(time.time() - t2, 1))
    lines = []
    d = os.path.join(HERE, "evidence", "replay")
    if violations:
        os.makedirs(d, exist_ok=True)
        part, records, (i, step, op, clauses) = min(violations, key=lambda v: len(v[1][v[2][0]]))
        path = os.path.join(d, f"{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, part=part.name, module=part.module, step=step, op=op,
                           clauses=clauses, item=part.items[i], recorded=records[i]), f, indent=1)
        lines.append(f"{len(violations)} violations; first: step {step} ({op}): {', '.join(clauses)}")
        rec = records[i][step - 1]
        if rec.get("exc"):
            lines.append(f"raised {rec['exc']}: {rec.get('msg', '')}")
        lines.append(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.level, coverage=cov,
              assumptions=spec.assumptions, wall_s=round(time.time() - t0, 1), violations=len(violations))
    evidence(pid, ev)
    for p in cov["parts"]:
        print(json.dumps(p))
    for x in lines:
        print(x)
    print(f"{pid} {tier}: {'violated' if violations else 'held'} "
          f"({cov['traces_validated_against_impl']} histories, {ev['wall_s']} s)")
    return 1 if violations else 0


def shorten(rec):
    s = json.dumps(rec)
    return rec if len(s) < 3000 else json.loads(json.dumps(rec[:3])) if len(json.dumps(rec[:3])) < 6000 else s[:3000]


def replay(path):
    with open(path) as f:
        r = json.load(f)
    func = props.FUNCS[r["module"]]
    rec = engine.run_all(func, [r["item"]])
    v, _, _ = tlc.validate(rec, r["module"])
    print(v)
    for st in rec[0][:v[0][1]][-1:]:
        print(json.dumps(st)[:4000])
    return 1 if v[0][0] == "BAD" else 0


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return run(pid, tier, seed)
    except BaseException as e:
        traceback.print_exc()
        print("NO ANSWER:", type(e).__name__, e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
