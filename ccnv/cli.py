"""python3 -m ccnv.cli check C01 | replay C01 FILE | gen C01 N (print generated cases)"""
import importlib, json, sys

def load(pid):
    return importlib.import_module("ccnv.props." + pid.lower()).check

def main():
    from . import engine, build
    cmd, pid = sys.argv[1], sys.argv[2]
    chk = load(pid)
    try:
        if cmd == "check":
            return engine.main(chk)
        if cmd == "replay":
            return engine.replay(chk, sys.argv[3])
        if cmd == "gen":
            env = chk.prepare()
            for i in range(int(sys.argv[3])):
                case, rec = engine.gen_case(chk, seed=engine.case_seed(1, chk.id, i))
                print(json.dumps(case) if not hasattr(chk, "show") else chk.show(case))
            return 0
    except build.BuildError as e:
        print("build error: %s" % e, file=sys.stderr)
        return 2
    return 2

if __name__ == "__main__":
    sys.exit(main())
