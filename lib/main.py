"""Entry point: main.py <property id> [--replay FILE]"""
import json, os, sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    try:
        import obs  # noqa: F401  (the code under test)
    except Exception as e:
        print("cannot import the code under test: %r" % e)
        sys.exit(2)
    import runner
    import checks
    check = checks.ALL[pid]()
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        case = json.load(open(sys.argv[3]))["case"]
        if "blocked" in case or "traceback" in case:
            print("recorded, not replayable as a single case; run the check again with the same seed:")
            msgs = [case.get("blocked") or case.get("traceback")]
        else:
            msgs = check.replay(case)
        for m in msgs or ["no violation"]:
            print(m)
        sys.exit(1 if msgs else 0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.stdout.flush()
    sys.exit(runner.execute(check, "thorough" if tier == "thorough" else "quick", seed))


main()
