"""Runs TLC on recorded histories and on models."""
import os
import re
import json
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar"


class TlcError(Exception):
    pass


def _tlc(module, cfg, env, workers=8, extra=(), timeout=840, heap="6g"):
    meta = tempfile.mkdtemp(prefix="tlc_")
    e = dict(os.environ)
    e.update(env)
    e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -Xss16m"
    cmd = ["tlc", "-nowarning", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        out = x.stdout.decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        raise TlcError("TLC timed out\n" + out[-2000:])
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout + p.stderr


STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def stats(out):
    m = STATES.findall(out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(d.replace(",", "")), int(g.replace(",", ""))


def _shard(records, ids, module, k, d, timeout):
    """Starts TLC on some of the records; returns the process and its output file."""
    f = os.path.join(d, f"t{k}.ndjson")
    with open(f, "w") as h:
        for i in ids:
            h.write(json.dumps(dict(id=i, steps=records[i])) + "\n")
    meta = os.path.join(d, f"meta{k}")
    e = dict(os.environ, TRACES=f, JAVA_TOOL_OPTIONS="-Xmx3g -Xss16m -XX:ParallelGCThreads=2")
    cmd = ["tlc", "-nowarning", "-noGenerateSpecTE", "-workers", "1", "-metadir", meta,
           "-config", f"{module}.cfg", f"{module}.tla"]
    o = open(os.path.join(d, f"out{k}"), "w+")
    return subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=o, stderr=subprocess.STDOUT), o


def _read(out, ids, verdicts):
    for line in out.splitlines():
        line = line.strip().strip('"')
        if not line.startswith(("BAD|", "END|", "SKIP|")):
            continue
        w = line.split("|", 3)
        i = ids[int(w[1]) - 1]
        new = (w[0], int(w[2])) + tuple(w[3:])
        if verdicts[i] is not None and verdicts[i] != new:
            raise TlcError(f"two verdicts for history {i}: {verdicts[i]} {line}")
        verdicts[i] = new


NOEVAL = "nonexistent field|Parsing or semantic|OutOfMemory|StackOverflow|Could not|configuration file|No space"


def _errors(out):
    k = out.find("Error:")
    return out[k:k + 1500] if k >= 0 else out[-1500:]


UNEVALUABLE = '{"recording cannot be evaluated"}'


def found(verdicts):
    return any(v is not None and v[0] == "BAD" and v[2] == UNEVALUABLE for v in verdicts)


def validate(records, module="LattTrace", shards=8, timeout=840, depth=0):
    """Checks recorded histories. Returns (verdicts, states, transitions): per record
    ("END", step), ("SKIP", step) or ("BAD", step, clauses)."""
    if not records:
        return [], 0, 0
    # The most expensive ones first, spread over several TLC processes
    shards = max(1, min(shards, len(records)))
    size = [len(json.dumps(r)) for r in records]
    order = sorted(range(len(records)), key=lambda i: -size[i])
    parts = [[] for _ in range(shards)]
    load = [0] * shards
    for i in order:
        k = load.index(min(load))
        parts[k].append(i)
        load[k] += size[i]
    d = tempfile.mkdtemp(prefix="traces_")
    procs = []
    verdicts = [None] * len(records)
    states = trans = 0
    failed = []
    end = time.time() + timeout
    try:
        for k, ids in enumerate(parts):
            procs.append(_shard(records, ids, module, k, d, timeout) + (ids,))
        for p, o, ids in procs:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                raise TlcError("TLC timed out on recorded histories")
            o.seek(0)
            out = o.read()
            o.close()
            s, t = stats(out)
            states += s
            trans += t
            _read(out, ids, verdicts)
            miss = [i for i in ids if verdicts[i] is None]
            if miss and ("Error:" not in out or re.search(NOEVAL, out)):
                raise TlcError(_errors(out))
            if miss:
                failed.append((miss, _errors(out)))
    finally:
        for p, o, ids in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(d, ignore_errors=True)
    if failed:
        # A recording that TLC cannot evaluate stops the whole run: find it by halving.
        # Its verdict is an own clause (recorded values that fit no lattice at all).
        miss = [i for m, _ in failed for i in m]
        if len(miss) == 1:
            if os.environ.get("VF_DEBUG"):
                print(failed[0][1])
            i = miss[0]
            verdicts[i] = ("BAD", len(records[i]), UNEVALUABLE)
        else:
            for m, err in failed:
                if depth > 20:
                    raise TlcError(err)
                groups = [m[:len(m) // 2], m[len(m) // 2:]] if len(m) > 1 else [m]
                for g in groups:
                    if found(verdicts):      # one is enough, the others are not judged
                        v, s, t = [("SKIP", 0)] * len(g), 0, 0
                    else:
                        v, s, t = validate([records[i] for i in g], module, 1, max(10, end - time.time()), depth + 1)
                    states += s
                    trans += t
                    for i, x in zip(g, v):
                        verdicts[i] = x
    return verdicts, states, trans


def check_model(module, cfg, env=None, workers=8, timeout=840, extra=()):
    """Model checks a module; returns (output, distinct states, transitions)."""
    rc, out = _tlc(f"{module}.tla", cfg, env or {}, workers, extra, timeout)
    s, t = stats(out)
    if rc != 0:
        raise TlcError(f"model {module}: exit {rc}\n{out[-4000:]}")
    return out, s, t
