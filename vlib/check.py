#!/usr/bin/env python3
"""check.py CID [--replay FILE]: runs one property's check (tier from VERIF_TIER)."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
from common import Run, HarnessError, run_generated
from table import CHECKS


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        run = Run(pid)
        for part in spec.get("parts", []):
            b = os.path.join(run.dir, "h")
            log = common.compile_cpp(run, os.path.join(common.HARNESS, part["src"]), b, part.get("flags", common.SAN) + part.get("extra", []))
            if log:
                print(log)
                return 2
            print(common.sh([b, "replay", sys.argv[3], "-v"])[1])
        return 0
    run = Run(pid)
    run.assumptions = spec.get("assumptions", [])
    for line in common_findings(pid):
        print(line)
    try:
        for part in spec.get("parts", []):
            run_generated(run, **part)
            if run.violations:
                break
        if spec.get("module") and not run.violations:
            importlib.import_module(spec["module"]).check(run)
    except HarnessError as e:
        print("CHECK ERROR %s: %s" % (pid, e), file=sys.stderr)
        if not run.violations:
            import shutil
            shutil.rmtree(run.dir, ignore_errors=True)
            return 2
    except Exception:
        traceback.print_exc()
        return 2
    return run.finish()


def common_findings(pid):
    path = os.path.join(common.VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("known: property=%s " % pid):
                out.append("KNOWN-FINDING: " + l[len("known: "):].strip())
    return out


if __name__ == "__main__":
    sys.exit(main())
