#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property.

1. builds the harness against /repo's working tree;
2. TLC explores the specification (spec/*.tla) exhaustively within the bounds
   of the tier, checks the property on it, and prints the behaviours it went
   through, which the harness replays on the implementation;
3. the harness records the implementation on random input, and TLC decides
   whether the recording is a behaviour of the specification (Trace.tla).

Exit 0: held.  Exit 1 and a VIOLATION line: broken.  Exit 2: no answer.
"""
import json, os, re, shutil, subprocess, sys, time, glob

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(ROOT, "target")
BIN = os.path.join(TARGET, "release", "conform")
T0 = time.time()

ID = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
QUICK = TIER == "quick"
WORK = os.path.join(ROOT, "work", f"{ID}-{TIER}-{os.getpid()}")
REPLAYS = os.path.join(ROOT, "work", "replays")

CHARS = {"raw", "brackets", "comments", "classes"}
CMDS = {"commands", "spacing", "groups"}
ENVS = {"envs", "envlabels", "envodd", "envdeep"}
MATHS = {"dollars", "maths", "mathsbig", "mathsdeep"}
PARAS = {"paragraphs", "parabig", "paradeep"}
DOCS = {"docs", "classcmd", "docdeep"}
OPTS = {"options", "optionsodd"}
MIXED = {"deep", "errors", "errordeep"}
NAMES = {"envnames", "cmdnames", "optionnames"}
BIG = {"tall", "long", "many", "nest", "deepest", "runs", "counts", "longlines", "argspacing", "twins"}
SHAPES = {"envshape", "docshape", "mathsshape"}
THOUSANDS = ["fivethousand", "thousands"]
ALL = SHAPES | NAMES | BIG | CHARS | CMDS | ENVS | MATHS | PARAS | DOCS | OPTS | MIXED

# property: checks made on the specification, what is printed for replay,
# families left to the thorough tier because they do not touch it
SOURCES = {
    "C01": (["RoundTrip1", "Restart"], "so", set()),
    "C02": (["RoundTrip2"], "so", set()),
    "C03": (["RoundTrip3"], "so", set()),
    "C04": (["Shape1", "Restart"], "1", set()),
    "C05": (["Folded"], "12", CHARS | {"dollars", "maths", "mathsdeep"} | PARAS | OPTS | {"classcmd"}),
    "C06": (["Delimited"], "23", CHARS | {"envs", "envlabels", "envodd", "spacing", "docs", "classcmd"} | OPTS),
    "C07": (["BreaksWhole"], "23", CHARS | {"envs", "envlabels", "envodd", "spacing", "docs", "classcmd"} | OPTS),
    "C08": (["Sections"], "23", CHARS | {"spacing", "envlabels", "envodd", "dollars", "paragraphs", "parabig"}),
    "C09": (["TrueLines"], "123", set()),
    "C10": (["CountedLines"], "s", set()),
    "C11": (["Cumulative"], "o", set()),
    "C12": (["ErrorPlace"], "o", set()),
    "C13": (["Restart", "Cumulative"], "s", set()),
    "C14": (["Lowered1"], "s", set()),
    "C15": (["Lowered2"], "s", set()),
    "C17": (["ValidParsed"], "123v", {"comments", "dollars", "paragraphs"}),
    "C18": (["Reparsed1", "Reparsed2", "Reparsed3"], "s", set()),
}
# stages 2 and 3 rule by rule: invariants, property, families per tier
RULES = {"envodd", "docdeep", "errordeep", "mathsshape", "paradeep", "classcmd", "mathsdeep", "dollars", "paragraphs", "envlabels"}
MACHINES = {
    "C02": ("Agree NothingLost", "", {"envodd"}, RULES),
    "C03": ("Agree NothingLost", "", {"docdeep"}, RULES),
    "C05": ("Agree NothingLost ModesKept", "", {"envodd"}, RULES),
    "C06": ("Agree NothingLost ModesKept", "", {"mathsshape"}, RULES),
    "C07": ("Agree NothingLost ModesKept", "", {"docdeep"}, RULES),
    "C08": ("Agree NothingLost ModesKept", "", {"docdeep"}, RULES),
    "C09": ("Agree OutTrue", "", {"docdeep"}, RULES),
    "C11": ("Agree", "", {"errordeep"}, RULES),
    "C12": ("Agree", "", {"errordeep"}, RULES),
    "C13": ("Agree StopsAtEnd", "Ends", {"errordeep"}, RULES),
}
PUSHES = {"C16"}
LIVES = {"C23": ["folds", "doors", "breaks", "bodies", "classes", "groups", "lines", "parsed", "runs", "many"],
         "C24": ["edits", "editlines", "editwrong", "editbody", "edited", "editmany"]}
CALLS = {"C25": ["refusals", "again", "alike", "alongside", "together", "copies", "handed", "both"]}
BUILT = {"C10", "C17", "C19", "C20", "C21", "C22"}
# recordings judged: kind -> (runs, size) per tier
RECORDED = {p: {"source": ((4000, 60), (20000, 120))} for p in SOURCES}
RECORDED["C16"] = {"push": ((2500, 60), (20000, 60))}
RECORDED["C19"] = {"built": ((4000, 60), (30000, 60))}
RECORDED["C20"] = {"convert": ((4000, 60), (30000, 60))}
RECORDED["C21"] = {"parts": ((4000, 60), (30000, 60))}
RECORDED["C22"] = {"pairs": ((3000, 60), (20000, 60))}
RECORDED["C23"] = {"life": ((5000, 60), (30000, 60))}
RECORDED["C24"] = {"edits": ((4000, 60), (30000, 60))}
RECORDED["C25"] = {"calls": ((3000, 60), (20000, 60))}
RECORDED["C10"]["built"] = ((2000, 60), (20000, 60))
RECORDED["C17"]["built"] = ((2000, 60), (20000, 60))


def tool_error(msg):
    print(f"TOOL-ERROR: {msg}", file=sys.stderr)
    shutil.rmtree(WORK, ignore_errors=True)
    sys.exit(2)


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--quiet", "--manifest-path",
                        os.path.join(ROOT, "harness", "Cargo.toml"), "--target-dir", TARGET],
                       capture_output=True, text=True, env=env)
    if r.returncode:
        tool_error("harness does not build\n" + r.stderr[-3000:])


violations = []   # (what, details dict)
known = []


def known_findings():
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"finding: property=(\S+) source=(\S+) (.*)", line)
        if m and m.group(1) == ID:
            out.append((json.loads(m.group(2)), m.group(3).strip()))
    return out


def violation(what, details):
    case = details.get("case", {})
    for src, text in known_findings():
        if isinstance(case, dict) and case.get("source") == src:
            known.append(text)
            return
    violations.append((what, details))


stats = {"states": 0, "transitions": 0, "replayed": 0, "evaluations": 0, "relevant": 0,
         "traces": 0, "events": 0, "machines": {}, "samples": []}


def tlc(module, cfg, env=None, workers=8, extra=(), timeout=None):
    """Runs TLC; returns its output's path"""
    name = f"{module}-{len(os.listdir(WORK))}"
    cfgp, out = os.path.join(WORK, name + ".cfg"), os.path.join(WORK, name + ".out")
    open(cfgp, "w").write(cfg)
    e = dict(os.environ)
    e.update(env or {})
    e["JDK_JAVA_OPTIONS"] = "-Xmx12g -Xss512m"
    with open(out, "w") as f:
        r = subprocess.run(["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-metadir",
                            os.path.join(WORK, name + ".md"), "-config", cfgp, *extra, module + ".tla"],
                           cwd=SPEC, stdout=f, stderr=subprocess.STDOUT, env=e, timeout=timeout)
    shutil.rmtree(os.path.join(WORK, name + ".md"), ignore_errors=True)
    tail = subprocess.run(["grep", "-v", '^"{', out], capture_output=True, text=True).stdout
    if r.returncode:
        tool_error(f"TLC failed on {module} (exit {r.returncode})\n" + tail[-3000:])
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", tail)
    if not m:
        tool_error("no state count from TLC\n" + tail[-2000:])
    stats["transitions"] += int(m.group(1))
    stats["states"] += int(m.group(2))
    return out, int(m.group(2))


def conform(args):
    """Runs the harness; a crash or a case that does not end is attributed to
    the case it happened on."""
    def go(extra, limit=14_000_000):
        cmd = " ".join(["ulimit -v %d;" % limit, "exec", BIN] + [f"'{a}'" for a in args + extra])
        return subprocess.run(["bash", "-c", cmd], capture_output=True, text=True)
    r = go([])
    if r.returncode == 0:
        return json.loads(r.stdout)
    if r.returncode in (2, 101):
        tool_error(r.stderr[-3000:])
    if r.returncode == 4:
        j = json.loads(r.stdout.strip().splitlines()[-1])
        return {"abnormal": "does not end", "case": j["hang"], "index": j["index"]}
    # crashed: find the case
    prog = os.path.join(WORK, "progress")
    r2 = go(["--threads", "1", "--progress", prog])
    if r2.returncode == 0:
        return json.loads(r2.stdout)
    if r2.returncode == 4:
        j = json.loads(r2.stdout.strip().splitlines()[-1])
        return {"abnormal": "does not end", "case": j["hang"], "index": j["index"]}
    i = int(open(prog).read()) if os.path.exists(prog) else -1
    return {"abnormal": f"crashed with status {r2.returncode}: {r2.stderr.strip()[-300:]}", "case": None, "index": i}


def replay(kind, prop, out, more=()):
    j = conform([kind, "--prop", prop, "--seed", str(SEED), "--vectors", out, *more])
    if "abnormal" in j:
        vec = None
        with open(out) as f:
            n = 0
            for line in f:
                if line.startswith('"{'):
                    if n == j["index"]:
                        vec = json.loads(json.loads(line))
                        break
                    n += 1
        case = {"vector": vec}
        if vec and kind == "replay":
            case["source"] = "".join(vec["d"])
        violation(f"the implementation {j['abnormal']}", {"case": case, "kind": kind})
        return
    stats["replayed"] += j["vectors"]
    stats["evaluations"] += j["evaluations"]
    stats["relevant"] += j["relevant"]
    for f in j["list"]:
        violation(f["what"], dict(f, kind=kind, total=j["failures"]))


def sample(out, n=2):
    with open(out) as f:
        lines = [l for l in f if l.startswith('"{')]
    for i in range(n):
        if lines:
            l = json.loads(json.loads(lines[(len(lines) * (2 * i + 1)) // (2 * n)]))
            stats["samples"].append({"source": "".join(l["d"])} if isinstance(l.get("d"), list) and l["d"]
                                    and isinstance(l["d"][0], str) else {k: l[k] for k in ("start", "d", "hist", "g", "first", "steps", "docs") if k in l})


def explore():
    checks, emit, less = SOURCES[ID]
    fams = ALL - less if QUICK else ALL
    depth = 0 if QUICK else 1
    # thorough: several runs, to keep what is printed small
    if ID not in ("C01", "C04", "C06", "C13") and QUICK:
        fams = fams - {"deepest"}       # half a minute of TLC
    groups = [(sorted(fams), checks)] if QUICK else [([f], checks) for f in sorted(fams)]
    # thousands of a thing: told what they are by the specification, on which
    # the property is not checked again (that is quadratic)
    groups.append((THOUSANDS, []))
    for g, checks in groups:
        cfg = f"""SPECIFICATION Spec
VIEW View
INVARIANT Good
CHECK_DEADLOCK FALSE
CONSTANTS
 Families = {{{", ".join('"%s"' % f for f in g)}}}
 TokensOf <- FamTok
 MaxOf <- FamMax
 WrapsOf <- FamWrap
 Bulk <- BigFamilies
 Depth = {depth}
 Checks = {{{", ".join('"%s"' % c for c in checks)}}}
 Emit = {{{", ".join('"%s"' % c for c in emit)}}}
"""
        out, n = tlc("MC", cfg)
        stats["machines"]["Explore" if QUICK and g != THOUSANDS else "Explore/" + g[0]] = n
        if QUICK or g[0] in ("deep", "docdeep", "spacing"):
            sample(out)
        replay("replay", ID, out)
        os.remove(out)
        if violations:
            return


def machine():
    invs, prop, some, every = MACHINES[ID]
    for fams in [some] if QUICK else [{f} for f in sorted(every)]:
        _, n = tlc("Machine", f"""SPECIFICATION Spec
INVARIANTS {invs}
{"PROPERTY " + prop if prop else ""}
CHECK_DEADLOCK FALSE
CONSTANTS
 Picked = {{{", ".join('"%s"' % f for f in sorted(fams))}}}
 Depth = 0
""")
        stats["machines"]["Machine" if QUICK else "Machine/" + min(fams)] = n


def pushes():
    depth = 0 if QUICK else 1
    out, n = tlc("PushMC", f"""SPECIFICATION Spec
INVARIANTS Consistent Said Merged Counted Printed
PROPERTY RefusedUnchanged
CHECK_DEADLOCK FALSE
CONSTANTS
 Families <- AllFamilies
 Depth = {depth}
 Emit = TRUE
""")
    stats["machines"]["PushMC"] = n
    sample(out)
    replay("push", ID, out)


def lives():
    for fams in [LIVES[ID]] if QUICK else [[f] for f in LIVES[ID]]:
        out, n = tlc("LifeMC", f"""SPECIFICATION Spec
INVARIANTS Placed Counted Valid Undone Settled Afresh Printed
PROPERTY Keeps
CHECK_DEADLOCK FALSE
CONSTANTS
 Families = {{{", ".join('"%s"' % f for f in fams)}}}
 Depth = {0 if QUICK else 1}
 Emit = TRUE
""")
        stats["machines"]["LifeMC" if QUICK else "LifeMC/" + fams[0]] = n
        if len(stats["samples"]) < 2:
            sample(out)
        replay("life", ID, out)
        os.remove(out)
        if violations:
            return


def calls():
    for fams in [CALLS[ID]] if QUICK else [[f] for f in CALLS[ID]]:
        out, n = tlc("CallsMC", f"""SPECIFICATION Spec
INVARIANTS Own Printed
PROPERTIES AnyOrder Frame
CHECK_DEADLOCK FALSE
CONSTANTS
 Families = {{{", ".join('"%s"' % f for f in fams)}}}
 Depth = {0 if QUICK else 1}
 Emit = TRUE
""")
        stats["machines"]["CallsMC" if QUICK else "CallsMC/" + fams[0]] = n
        if len(stats["samples"]) < 2:
            sample(out)
        replay("calls", ID, out)
        # and over and over, on all threads at once, in one process
        if not violations and (QUICK or fams[0] in ("refusals", "alike", "both")):
            replay("soak", ID, out, ["--times", "200000" if QUICK else "500000"])
        os.remove(out)
        if violations:
            return


def built():
    depth = 0 if QUICK else 1
    invs = {"C10": "CountedTree Printed", "C17": "ValidExactly Printed", "C19": "LoweredText Printed", "C20": "Converted", "C21": "PartsAlone", "C22": "ToldApart"}[ID]
    fams = {"C20": "Conversions", "C21": "PartsConverted", "C22": "Comparisons"}.get(ID, "AllFamilies")
    out, n = tlc("Build", f"""SPECIFICATION Spec
INVARIANTS {invs}
CHECK_DEADLOCK FALSE
CONSTANTS
 Families <- {fams}
 Depth = {depth}
 Emit = TRUE
""")
    stats["machines"]["Build"] = n
    sample(out)
    replay("built", ID, out)


def traces():
    for kind, sizes in RECORDED[ID].items():
        runs, size = sizes[0 if QUICK else 1]
        step = 2500
        for k in range(0, runs, step):
            n = min(step, runs - k)
            seed = SEED * 1000 + k // step
            path = os.path.join(WORK, f"trace-{kind}-{k}.jsonl")
            args = ["record", "--kind", kind, "--seed", str(seed), "--runs", str(n), "--size", str(size), "--out", path]
            if kind == "source":
                args += ["--corpus", os.path.join(ROOT, "corpus")]
            j = conform(args)
            if "abnormal" in j:
                violation(f"the implementation {j['abnormal']}", {"kind": "record", "recording": args, "run": j["index"]})
                return
            events = 0
            with open(path) as f:
                for line in f:
                    events += line.count('"op":')
            before = dict(stats)
            out, states = tlc("Trace", f"""SPECIFICATION Spec
VIEW Here
CHECK_DEADLOCK FALSE
CONSTANT Judge = "{ID}"
""", env={"TRACE": path})
            stats["machines"]["Trace/" + kind] = stats["machines"].get("Trace/" + kind, 0) + states
            rejected = [json.loads(json.loads(l)) for l in open(out) if l.startswith('"{\\"reject')]
            stats["traces"] += n
            stats["events"] += events
            if not rejected and states != n + events:
                tool_error(f"trace not consumed: {states} states for {n} runs of {events} events")
            if rejected:
                ids = {r["run"]: r for r in rejected}
                for line in open(path):
                    r = json.loads(line)
                    if r["id"] in ids:
                        first = r["ev"][0]
                        case = {"run": r}
                        if first["op"] == "source":
                            case["source"] = "".join(first["s"])
                        rej = ids[r["id"]]
                        violation(f"recorded {rej['op']} at stage {rej['g']}: {rej['reject']}",
                                  {"case": case, "kind": "trace", "expected": rej["expected"], "got": rej["got"]})
                if violations:
                    return
            elif k == 0:
                with open(path) as f:
                    for i, line in enumerate(f):
                        if i == 7:
                            r = json.loads(line)
                            e = r["ev"]
                            stats["samples"].append({"recorded": kind, "first": e[0] if len(json.dumps(e[0])) < 1500 else e[0]["op"],
                                                     "ops": [x["op"] for x in e][:40]})
            os.remove(path)
            os.remove(out)


def main():
    if ID not in RECORDED:
        tool_error(f"no property {ID}")
    os.makedirs(WORK, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    build()
    steps = []
    if ID in SOURCES:
        steps.append(explore)
    if ID in MACHINES:
        steps.append(machine)
    if ID in PUSHES:
        steps.append(pushes)
    if ID in LIVES:
        steps.append(lives)
    if ID in CALLS:
        steps.append(calls)
    if ID in BUILT:
        steps.append(built)
    steps.append(traces)
    for s in steps:
        s()
        if violations:
            break
    evidence = {
        "property": ID, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": stats["states"], "transitions": stats["transitions"],
            "traces_validated_against_impl": stats["replayed"] + stats["traces"],
            "behaviours_replayed": stats["replayed"], "replay_evaluations": stats["evaluations"],
            "replayed_exercising_the_property": stats["relevant"],
            "recordings_validated": stats["traces"], "recorded_events": stats["events"],
            "states_by_machine": stats["machines"],
            "samples": stats["samples"] or ["none: stopped at the first violation"],
        },
        "assumptions": ["sources are made of the families and generators of spec/Sources.tla, spec/Build.tla and harness/src/gen.rs",
                        "characters of a class (spec/Chars.tla) are treated alike beyond the members tried"],
        "wall_s": round(time.time() - T0, 2), "violations": len(violations),
    }
    json.dump(evidence, open(os.path.join(ROOT, "evidence", ID + ".json"), "w"), indent=1, ensure_ascii=False)
    shutil.rmtree(WORK, ignore_errors=True)
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={ID} {k}")
    if violations:
        what, details = violations[0]
        path = os.path.join(REPLAYS, f"{ID}-{os.getpid()}.json")
        json.dump({"property": ID, "what": what, "details": details, "others": [w for w, _ in violations[1:20]]},
                  open(path, "w"), indent=1, ensure_ascii=False)
        print(f"{ID}: {what}")
        for k in ("expected", "got"):
            if k in details:
                print(f"  {k}: {str(details[k])[:600]}")
        c = details.get("case")
        if isinstance(c, dict) and "source" in c:
            print(f"  source: {c['source']}")
        print(f"VIOLATION property={ID} replay={path}")
        sys.exit(1)
    print(f"{ID}: held on {stats['replayed']} behaviours of the specification replayed and {stats['traces']} recordings; "
          f"{stats['states']} states, {time.time() - T0:.1f} s")


try:
    main()
except SystemExit:
    raise
except BaseException as e:
    import traceback
    traceback.print_exc()
    tool_error(str(e))
