"""vf.main <property> <tier>: run one property's exploration, write its evidence, report.
vf.main replay <file>: run a recorded violation again."""
import importlib
import json
import os
import signal
import sys
import time
import traceback

BUILD_LIMIT = 300  # seconds for making a check's alphabet; none takes a tenth of it
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known_findings(prop):
    out = {}
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                key, _, text = line.split(" ", 2)[2].partition(" ")
                out[key] = text
    return out


def load(prop, tier, seed):
    from . import env, explore
    module = importlib.import_module("checks." + prop.lower())
    env.install(taps=getattr(module, "TAPS", False), locks=getattr(module, "LOCKS", False))
    check = explore.Check(prop, tier, seed, known_findings(prop))
    module.build(check)
    return check


def evidence(check, stats, capped, wall, violation):
    total = type(stats[0])()
    per = {}
    for h, s in zip(check.harnesses, stats):
        total.merge(s)
        per[h.name] = dict(about=h.about, deviation_bound=h.bound, executions=s.executions, api_calls=s.transitions,
                           distinct_states=len(s.states), distinct_outcomes=len(s.outcomes),
                           max_choice_points=s.max_points, completed=h.name not in capped and violation is None)
    samples = [dict(harness=h.name, **s.samples[-1]) for h, s in zip(check.harnesses, stats) if s.samples]
    cov = dict(exhaustive=not capped and violation is None, harnesses=per, distinct_outcomes=len(total.outcomes),
               choice_points=total.choice_points, samples=samples)
    if capped:
        cov["cap"] = "time limit reached in: " + ", ".join(sorted(capped))
    if check.level == "model_checking":
        cov.update(states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.executions)
    else:
        cov.update(evaluations=total.executions, distinct_nontrivial=len(total.states),
                   rule=check.extra.pop("rule", "every choice of the harnesses within their bounds; non-trivial: it called the "
                                                "code and reached a call history (arguments and outcomes) seen in no other"))
    cov.update(check.extra)
    return dict(property=check.prop, tier=check.tier, seed=check.seed, level=check.level, coverage=cov,
                assumptions=check.assumptions, wall_s=round(wall, 2), violations=int(violation is not None)), total


def main():
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    from . import explore
    t0 = time.time()
    try:
        signal.signal(signal.SIGALRM, explore._alarm)
        signal.setitimer(signal.ITIMER_REAL, BUILD_LIMIT)
        check = load(prop, tier, seed)
        signal.setitimer(signal.ITIMER_REAL, 0)
    except explore.Hang:
        return unbuilt(prop, tier, seed, "calls with ordinary arguments give no result within %d s" % BUILD_LIMIT, t0)
    except Exception as e:  # noqa: BLE001
        if not isinstance(e, explore.Violation) and not explore.from_the_code(e):
            raise
        traceback.print_exc()
        return unbuilt(prop, tier, seed, "a call with ordinary arguments: %s: %s" % (type(e).__name__, e), t0)
    stats, violation, capped, error = explore.explore(check)
    if error:
        print(error)
        print("ERROR property=%s: the machinery failed, nothing decided" % prop)
        return 2
    ev, total = evidence(check, stats, capped, time.time() - t0, violation)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    path = os.path.join(ROOT, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for h, s in zip(check.harnesses, stats):
        print("  %-28s executions=%-8d calls=%-8d states=%-8d outcomes=%-7d%s" % (
            h.name, s.executions, s.transitions, len(s.states), len(s.outcomes), " CAPPED" if h.name in capped else ""))
    print("%s %s: executions=%d calls=%d states=%d %.1fs" % (
        prop, tier, total.executions, total.transitions, len(total.states), time.time() - t0))
    for k, m in sorted(total.known.items()):
        print("KNOWN-FINDING: property=%s %s %s" % (prop, k, check.known[k]))
    if violation:
        return report(check, violation)
    return 0


def unbuilt(prop, tier, seed, message, t0):
    """The calls that a check's alphabet is made of fail."""
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + "-alphabet.json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, harness=None, message=message, how="cd /verif && ./run %s %s" % (prop, tier)), f, indent=1)
    print(message)
    print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, ROOT)))
    return 1


def report(check, v):
    """Minimise what the failure needs, write the replay file, print the line."""
    from . import explore
    need, confirmed = [], None
    tails = [0, 1, 8, 64, len(v["history"])] if v["history"] else [0]
    if v["message"].startswith("no result within"):
        tails, confirmed = [], v["message"]
    for n in tails:
        n = min(n, len(v["history"]))
        hist = v["history"][len(v["history"]) - n:]
        msg = explore.again(check, v["harness"], v["choices"], hist)
        if msg is not None:
            need, confirmed = hist, msg
            break
    d = os.path.join(ROOT, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (check.prop, v["harness"].replace("/", "_")))
    with open(path, "w") as f:
        json.dump(dict(property=check.prop, tier=check.tier, seed=check.seed, harness=v["harness"], choices=v["choices"],
                       after=[[check.harnesses[h].name, c] for h, c in need], message=v["message"],
                       reproduced=confirmed, trace=v["trace"],
                       how="cd /verif && ./run replay " + os.path.relpath(path, ROOT)), f, indent=1)
    print("harness %s: %s" % (v["harness"], v["message"]))
    shown = v["trace"]["choices"]
    for line in shown if len(shown) <= 24 else [c for c in shown if "=0/" not in c]:
        print("   choice", line)
    for line in v["trace"]["calls"][-6:]:
        print("   call  ", line)
    print("   re-run in a fresh process: %s%s" % (confirmed if confirmed is not None else "did not fail again",
                                                 " (after %d earlier executions)" % len(need) if need else ""))
    print("VIOLATION property=%s replay=%s" % (check.prop, os.path.relpath(path, ROOT)))
    return 1


def replay(path):
    from . import explore
    with open(path) as f:
        r = json.load(f)
    if r["harness"] is None:
        sys.argv[1:] = [r["property"], r["tier"]]
        return main()
    check = load(r["property"], r["tier"], r["seed"])
    names = [h.name for h in check.harnesses]
    msg = explore.again(check, r["harness"], r["choices"], [(names.index(h), c) for h, c in r["after"]])
    print("recorded:", r["message"])
    print("now:     ", msg if msg is not None else "the property holds on this execution")
    if msg is not None:
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        code = main()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
