"""Run one stored case against the code, without Hypothesis."""
import json
import sys
import warnings


def main():
    prop, path, scratch = sys.argv[1:4]
    warnings.simplefilter("ignore")
    from vf import core
    stored = json.load(open(path))
    comp = core.load_property(prop)[stored["component"]]
    r = core.run_case(comp, stored["case"], core.Ctx(scratch))
    if isinstance(r, dict):
        print(r["message"])
        print(r.get("traceback", ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("held" if r is None else r)
    return 0


if __name__ == "__main__":
    sys.exit(main())
