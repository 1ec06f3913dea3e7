#!/opt/venv/bin/python
"""check.py <property> [--thorough]: decides one property. Exit 0: held; 1: VIOLATION; 2: the machinery failed.
check.py --setup: compiles the rational arithmetic override and checks it against its specification."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import common


def main():
    if "--thorough" in sys.argv:
        os.environ["VERIF_TIER"] = "thorough"
    common.bootstrap()
    prop = sys.argv[1]
    try:
        if prop == "--setup":
            r = common.tlc("RatCheck", open(os.path.join(common.SPEC, "RatCheck.cfg")).read())
            if not r.ok:
                raise common.MachineryError("RatCheck: " + common.tail_error(r.out))
            return 0
        import registry
        try:
            c = registry.run(prop)
        except common.CodeRaised as e:
            c = common.Check.current
            c.violation(e.what, e.replay)
        return c.finish()
    except common.MachineryError as e:
        print("MACHINERY: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
