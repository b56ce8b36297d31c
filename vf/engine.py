"""Runs histories on the real code (in parallel) and has TLC judge the recordings."""
import os
import sys
import json
import time
import resource
import multiprocessing as mp

REPO = os.environ.get("LATTPY_REPO", "/repo")
_lp = None


def load():
    """Imports lattpy from the working tree."""
    global _lp
    if _lp is None:
        sys.dont_write_bytecode = True
        sys.pycache_prefix = "/nonexistent"     # never read old bytecode
        os.environ.setdefault("MPLBACKEND", "Agg")
        sys.path.insert(0, REPO)
        import lattpy
        assert os.path.realpath(lattpy.__file__).startswith(os.path.realpath(REPO) + os.sep), lattpy.__file__
        _lp = lattpy
    return _lp


def _init():
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    os.nice(0)


def _one(args):
    func, item, limit = args
    return func(load(), item, limit)


def hangs(rec):
    return bool(rec) and rec[-1].get("exc") == "Timeout"


def run_all(func, items, limit=20, procs=8, enough=12):
    """The recordings of the items; None for those not run after many of them did not end."""
    load()
    if len(items) <= 2:
        return [func(_lp, x, limit) for x in items]
    out = [None] * len(items)
    hung = 0
    with mp.get_context("fork").Pool(procs, _init) as pool:
        todo = [(func, x, limit) for x in items]
        for i, rec in enumerate(pool.imap(_one, todo, chunksize=max(1, min(16, len(items) // (procs * 8))))):
            out[i] = rec
            hung += hangs(rec)
            if hung >= enough:
                pool.terminate()
                break
    return out


def lattice_history(lp, hist, limit):
    from . import real
    return real.run_history(lp, hist, limit)


def query_case(lp, case, limit):
    from . import queries
    return queries.run_case(lp, case, limit)
