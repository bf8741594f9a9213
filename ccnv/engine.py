"""Runs one property: generates cases in parallel, shrinks and replays failures, writes the evidence."""
import hashlib, json, multiprocessing as mp, os, queue, random, shutil, signal, sys, time, traceback

from . import build, choice

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(VERIF, "known_findings.txt")

class Violation(Exception):
    """The code under test broke the property on this case."""
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key                 # identifies a known finding, if any

class Inconclusive(Exception):
    """The case could not be decided (resource limits); never counted as a violation."""

class Result:
    def __init__(self, nontrivial=True, classes=(), evals=1, sample=None):
        self.nontrivial, self.classes, self.evals, self.sample = nontrivial, list(classes), evals, sample

class Check:
    """One property. Subclasses define prepare (builds), gen (choices -> JSON case) and run (case -> Result)."""
    id = None
    rule = ""
    assumptions = []
    level = "exploration"
    quick, thorough = 400, 6000          # number of generated cases
    quick_wall, thorough_wall = 240, 3000  # safety bound; reaching it only means fewer cases
    workers = 8

    def prepare(self):
        return {}
    def gen(self, ch):
        raise NotImplementedError
    def run(self, case, env):
        raise NotImplementedError
    def describe(self, case):
        return case

def case_seed(seed, prop, i):
    return int.from_bytes(hashlib.sha256(("%d/%s/%d" % (seed, prop, i)).encode()).digest()[:8], "big")

def digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()

def known_findings(prop):
    out = []
    try:
        for line in open(FINDINGS):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                # finding: property=<id> key=<key> <what fails>
                rest = line.split(" ", 2)[2]
                key, what = rest.split(" ", 1)
                out.append((key[len("key="):], what))
    except FileNotFoundError:
        pass
    return out

def evaluate(chk, case, env):
    """('ok', Result) | ('bad', message, key) | ('skip', message)"""
    try:
        r = chk.run(case, env)
        return ("ok", r if r is not None else Result())
    except Violation as v:
        return ("bad", str(v), v.key)
    except Inconclusive as e:
        return ("skip", str(e))
    except (ValueError, LookupError, AttributeError, TypeError):
        # the model follows what the code under test reported; it only gets lost in output that makes no sense
        return ("bad", "the output cannot be interpreted:\n" + traceback.format_exc(), None)

def gen_case(chk, seed=None, prefix=None):
    ch = choice.Choices(seed=seed, prefix=prefix)
    return chk.gen(ch), ch.rec

def worker(chk, env, wid, todo, out, base_seed, stop_at, known):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    wdir = os.path.join(build.scratch(), "w%d" % wid)
    os.makedirs(wdir, exist_ok=True)
    env = dict(env, dir=wdir)
    nontriv, classes, samples, skips, ev, hit = set(), {}, [], 0, 0, {}
    cases = overs = 0
    reported = False
    try:
        while time.time() < stop_at and not reported:
            with todo.get_lock():
                i = todo.value
                if i >= env["_n"]:
                    break
                todo.value = i + 1
            try:
                case, rec = gen_case(chk, seed=case_seed(base_seed, chk.id, i))
            except choice.Overrun:
                overs += 1
                continue
            r = evaluate(chk, case, env)
            cases += 1
            if r[0] == "ok":
                ev += r[1].evals
                for c in r[1].classes:
                    classes[c] = classes.get(c, 0) + 1
                if r[1].nontrivial:
                    d = digest(case)
                    if d not in nontriv:
                        nontriv.add(d)
                        if len(samples) < 2:
                            samples.append(r[1].sample if r[1].sample is not None else chk.describe(case))
            elif r[0] == "skip":
                skips += 1
                out.put(("note", "inconclusive: " + r[1][:300]))
            elif r[2] in known:
                ev += 1
                hit[r[2]] = hit.get(r[2], 0) + 1
            else:
                out.put(("bad", i, rec, r[1], r[2]))
                with todo.get_lock():
                    todo.value = env["_n"]       # stop the search
                reported = True
    except Exception:
        out.put(("error", traceback.format_exc()))
    out.put(("done", cases, ev, sorted(nontriv), classes, samples, skips, hit, overs))
    sys.stdout.flush()

def main(chk, tier=None, seed=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(seed if seed is not None else os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    n = chk.quick if tier == "quick" else chk.thorough
    n = int(os.environ.get("CCNV_CASES", n))
    wall = chk.quick_wall if tier == "quick" else chk.thorough_wall
    build.scratch()
    env = chk.prepare()
    env["tier"] = tier
    env["_n"] = n
    known = known_findings(chk.id)
    knownkeys = set(k for k, _ in known)
    todo, out = mp.Value("L", 0), mp.Queue()
    stop_at = time.time() + wall
    nw = int(os.environ.get("CCNV_WORKERS", chk.workers))
    ps = [mp.Process(target=worker, args=(chk, env, w, todo, out, seed, stop_at, knownkeys), daemon=True) for w in range(nw)]
    for p in ps:
        p.start()
    bad, errors, notes = [], [], []
    cases = evs = skips = overs = 0
    nontriv, classes, samples, hit = set(), {}, [], {}
    done = 0
    hard = stop_at + 240
    while done < nw:
        try:
            m = out.get(timeout=5)
        except queue.Empty:
            if time.time() > hard or not any(p.is_alive() for p in ps):
                errors.append("workers did not finish")
                break
            continue
        if m[0] == "done":
            done += 1
            cases += m[1]; evs += m[2]; nontriv.update(m[3]); skips += m[6]; overs += m[8]
            for k, v in m[4].items(): classes[k] = classes.get(k, 0) + v
            for k, v in m[7].items(): hit[k] = hit.get(k, 0) + v
            samples += m[5]
        elif m[0] == "bad": bad.append(m)
        elif m[0] == "error": errors.append(m[1])
        elif m[0] == "note": notes.append(m[1])
    for p in ps:
        p.join(timeout=5)
        if p.is_alive(): p.kill()
    violations, replay = 0, None
    env["dir"] = os.path.join(build.scratch(), "main")
    os.makedirs(env["dir"], exist_ok=True)
    flaky = []
    for m in sorted(bad, key=lambda m: (len(m[2]), m[1])):
        _, i, rec, msg, key = m
        def fails(seq):
            try:
                case, r = gen_case(chk, prefix=seq)
            except (choice.Overrun, Exception):
                return None
            e = evaluate(chk, case, env)
            return r if e[0] == "bad" and e[2] not in knownkeys else None
        case, _ = gen_case(chk, prefix=rec)
        if not all(evaluate(chk, case, env)[0] == "bad" for _ in range(3)):
            flaky.append(msg)
            continue
        budget = float(os.environ.get("CCNV_SHRINK", 40 if tier == "quick" else 150))
        best, tries = choice.shrink(rec, fails, budget)
        small, _ = gen_case(chk, prefix=best)
        rs = [evaluate(chk, small, env) for _ in range(3)]
        if not all(r[0] == "bad" for r in rs):
            small, rs = case, [evaluate(chk, case, env)]
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s.json" % chk.id)
        with open(replay, "w") as f:
            json.dump({"property": chk.id, "message": rs[0][1], "case": small, "choices": best, "seed": seed, "index": i,
                       "shrink_tries": tries}, f, indent=1)
        print("violation of %s: %s" % (chk.id, rs[0][1]))
        print("VIOLATION property=%s replay=%s" % (chk.id, replay))
        violations = 1
        break
    if flaky:
        notes.append("%d failures did not repeat and are not reported: %s" % (len(flaky), flaky[0][:300]))
    for k, what in known:
        print("KNOWN-FINDING: property=%s %s" % (chk.id, what))
    cov = {"evaluations": evs, "distinct_nontrivial": len(nontriv), "rule": chk.rule, "samples": samples[:4],
           "cases": cases, "planned_cases": n, "inconclusive": skips, "oversized": overs, "classes": dict(sorted(classes.items())),
           "known_finding_hits": hit, "notes": notes[:10]}
    ev = {"property": chk.id, "tier": tier, "seed": seed, "level": chk.level, "coverage": cov, "assumptions": chk.assumptions,
          "wall_s": round(time.time() - t0, 1), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", chk.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct non-trivial, %d inconclusive, %.0f s" % (chk.id, tier, cases, len(nontriv), skips, time.time() - t0))
    if violations:
        return 1
    if errors:
        print(errors[0], file=sys.stderr)
        return 2
    return 0

def replay(chk, path):
    d = json.load(open(path))
    build.scratch()
    env = chk.prepare()
    env["tier"] = "quick"
    env["dir"] = os.path.join(build.scratch(), "main")
    os.makedirs(env["dir"], exist_ok=True)
    r = evaluate(chk, d["case"], env)
    if r[0] == "bad":
        print("violation of %s: %s" % (chk.id, r[1]))
        print("VIOLATION property=%s replay=%s" % (chk.id, path))
        return 1
    print(r[0])
    return 0
