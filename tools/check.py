#!/usr/bin/env python3
"""check.py PROPERTY: decides one property (see DESIGN.md). VERIF_TIER and VERIF_SEED select tier and seed."""
import sys, traceback
import vlib, checks


def main():
    prop = sys.argv[1]
    c = vlib.Check(prop)
    try:
        checks.CHECKS[prop](c)
        return c.finish()
    except vlib.ToolError as e:
        sys.stderr.write("TOOL-ERROR %s: %s\n" % (prop, e))
        if c.violations:
            return c.finish()
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        c.cleanup()


sys.exit(main())
