"""Writes MANIFEST.json."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vf import props   # noqa

LATT = ("Histories of real lattice objects (seeded generator plus behaviours enumerated by TLC from the specification) are "
        "recorded through the public interface and every step is validated by TLC against Lattice.tla/Views.tla, an "
        "independent exact integer specification. ")
TOOL = ("Calls of the real functions with arguments enumerated by TLC from MCTools.tla and seeded wide-range ones are recorded and every result is validated by TLC "
        "against an exact integer specification (Basis.tla, Regions.tla, Tools.tla). ")
TRUST = ("Holds for everything explored, not for all inputs; trusts TLC, the recording driver (vf/) and that real "
         "coordinates are judged after snapping to an integer grid (relative accuracy 1e-3 of a grid unit).")
NA = {}
checks = []
for pid in sorted(props.PROPS):
    tool = pid in ("C01", "C02", "C13", "C14", "C15", "C16", "C17")
    checks.append(dict(
        property=pid,
        quick_cmd=f"/opt/venv/bin/python -m vf.check {pid}",
        thorough_cmd=f"VERIF_TIER=thorough /opt/venv/bin/python -m vf.check {pid}",
        technique="TLA+ specification, model checked with TLC; recorded executions of the real code validated against it (trace validation)",
        level="model_checking",
        level_note=(TOOL if tool else LATT) + TRUST))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -m vf.setup", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
         notes="No hooks in /repo are needed; the fix: commits in /repo are listed in KNOWN_FINDINGS.txt.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks))
