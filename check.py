#!/usr/bin/env python3
"""Entry point of every check: check.py <property> [quick|thorough]"""
import os, sys
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
if len(sys.argv) > 2:
    os.environ["VERIF_TIER"] = sys.argv[2]
import vlib, shutil, traceback, report, checks_parser, checks_app

ALL = {}
ALL.update(checks_parser.CHECKS)
ALL.update(checks_app.CHECKS)

def main():
    pid = sys.argv[1]
    d = vlib.scratch()
    try:
        ctx = report.Context(pid, d)
        ALL[pid](ctx)
        return ctx.finish()
    except vlib.ToolError as e:
        print("TOOL ERROR:", e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
