"""python -m pydv.replay FILE : run the recorded failing input against /repo's real code."""
import importlib, json, sys


def main(path):
    d = json.load(open(path))
    if "case" not in d:
        print(json.dumps(d, indent=1)[:4000])
        return 0
    mod = importlib.import_module(f"pydv.props.{d['property']}")
    from .framework import run_concrete
    m = run_concrete(mod, d["case"])
    print("input:", json.dumps(d["case"])[:2000])
    print("result:", "holds" if m is None else f"VIOLATED: {m}")
    return 0 if m is None else 1


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
