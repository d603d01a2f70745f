"""Assembles DESIGN.md: tools/design_head.md, one section per property (props.py, ORACLE below, the harness's own bounds), known_findings.txt,
the planted bugs (seeded/*/meta.json) and tools/design_tail.md."""
import ast
import glob
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS, NOT_APPLICABLE

# what the property is decided against
ORACLE = {
    "P01": "`Output.apply`, item and attribute access run on outputs whose parts are futures completed by the environment; a reference combines the "
           "symbolic flags (secret = or of all, unknown = any part unknown, dependencies = union, failure = first). The number of callback calls is counted.",
    "P02": "a random-access grammar of input trees is built with `sx.choice`; while building it, the reference meaning (value, unknown, secret, "
           "dependencies, failing) is accumulated and compared with the observed output.",
    "P03": "the same trees are given to the real serializer; the reference writes the wire form per engine feature (plain, wrapped secret, output value, "
           "unknown text) and the set of dependencies.",
    "P04": "wire trees are built together with the meaning the engine gives them and decoded by the real code; inputs are also sent, echoed and decoded "
           "again, and must mean the same.",
    "P05": "a scripted engine answers one registration, read or lookup with a symbolic response; each output must settle to the answered value, else the "
           "input, with the secrecy of either.",
    "P06": "one fault per run, at a place chosen by the solver; afterwards every output of the failed resource (and of its dependents) must have settled with a "
           "failure and `run_in_stack` must have raised. Hangs are found by the loop.",
    "P07": "the request the scripted engine received is compared field by field with what the chosen options mean.",
    "P08": "programs are made by the solver from operations and callbacks; a reference knows whether anything they started fails. The main function may "
           "only return normally, after all of it finished, if nothing did.",
    "P09": "the tree is walked by a reference that expands components; the URNs in the request must be exactly those; deadlocks are hangs of the loop.",
    "P10": "requests are handled by the real servicer with a scripted engine behind it; what the component program was given and what was answered is "
           "compared with the request and with what the program returned.",
    "P11": "reference: nearest ancestor that gives a provider for the resource's package wins, protection from the nearest that says something, "
           "transformations from the outside in.",
    "P12": "merging is a left fold: later scalars replace earlier ones, collections are joined; the originals are compared with copies taken before.",
    "P13": "reference: the URN of every combination of own alias and parent alias, from the documented form of URNs.",
    "P14": "like P07/P05 for invokes and method calls, with the reference meaning of the arguments from P03.",
    "P15": "exported values are built with their plain meaning; what is registered for the stack must be it. Object graphs with sharing and cycles "
           "are solver choices.",
    "P16": "symbolic texts go through the real parsers (`bool`, `int`, `float` forms as regular languages in z3); reference: documented forms only.",
    "P17": "declared types and names are built by the harness; reference maps values both ways by the declarations.",
    "P18": "a scripted engine answers the read of the stack; the reference knows which outputs exist and which are secret.",
    "P19": "the process is replaced by a recorder; the command line received is parsed by a model of the CLI's own flags (from pkg/cmd/pulumi) into "
           "what the user would have done, compared with what was asked for; environment, working directory and files left behind too.",
    "P20": "the recorder answers with symbolic output; the result objects and events are compared with it; event logs are written piecewise by an environment "
           "that the watcher's reads interleave with.",
    "P21": "settings objects are saved and loaded (YAML/JSON libraries real in replays, plain trees symbolically) and compared field by field.",
    "P22": "the real servicer handles requests with a provider whose results are solver choices; serializing runs concretely.",
    "P23": "one or two inline programs run in real threads handed over at the places where they wait; each must see its own settings at every point, "
           "and its answer must say how it ended.",
    "P24": "requests that reach a recording engine are matched with the messages logged.",
    "P25": "mocks record what they were given; outputs, URNs and the result of the decorated test are compared with what they answered.",
    "P26": "registrations with symbolic version numbers (real semver objects holding symbolic integers); the solver decides that the one used is compatible, "
           "that no other compatible one is newer, and that none is only used if there is none.",
    "P27": "the launcher script itself is re-read, instrumented and executed whole; the program it starts looks at its settings and ends in a way chosen "
           "by the solver; exit code, messages and registrations are compared with that. argparse is real; symbolic texts are substituted after parsing.",
    "P28": "values are built together with the plain tree that their JSON must hold; symbolically json.dumps is replaced by a stand-in that keeps what it "
           "was given (it refuses what json refuses), in replays it is real.",
    "P29": "the engine's answers are chosen by the solver, so the expected request follows from them; a request that uses a feature whose question was "
           "not answered with yes differs from the expected one.",
    "P30": "the program around the malformed declaration is fixed: what must be registered in the end, and with which dependencies, is known without it.",
}


def consts(pid):
    src = open(os.path.join(V, "harness", pid.lower() + ".py")).read()
    out, cells = {}, []
    for n in ast.parse(src).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id in ("BOUNDS", "OUTSIDE"):
                out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


COST = dict(zip(["P%02d" % i for i in range(1, 31)], [30, 24, 19, 17, 6, 2, 7, 8, 16, 5, 8, 3, 8, 12, 9, 6, 28, 13, 4, 11, 12, 6, 16, 8, 19, 15, 15, 10, 10, 7]))
seeds = {}
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    seeds.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(f)), m))
w = open(os.path.join(V, "tools", "design_head.md")).read().rstrip() + "\n\n## The properties\n"
for p in PROPS:
    c = consts(p["id"])
    w += "\n### %s %s\n\n%s\n\n" % (p["id"], p["title"], p["statement"])
    w += "* Decided by: %s\n* Bounds: %s.\n* Outside: %s.\n* Why tests cannot: %s.\n* Cost: about %d s quick; thorough up to 780 s.\n" % (
        ORACLE[p["id"]], c["BOUNDS"].rstrip("."), c.get("OUTSIDE", "everything beyond the bounds").rstrip("."), p["why"].rstrip("."), COST[p["id"]])
w += "\n## Out of reach\n\n"
for p in NOT_APPLICABLE:
    w += "* **%s %s.** %s\n" % (p["id"], p["title"], p["reason"])
w += "\n## Genuine defects found\n\nAll were shown on the real code by a replayed counterexample and repaired in `/repo` (`fix:` commits); none is left as a known finding.\n\n"
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, p, c, what = l.strip().split(" ", 3)
        w += "* %s `%s` %s\n" % (p.split("=")[1], c, what)
w += "\n## Planted bugs\n\nEach is caught by the quick check of its property (`tools/seedcheck.sh`).\n\n| bug | property | needs | breaks |\n|---|---|---|---|\n"
for p in sorted(seeds):
    for name, m in seeds[p]:
        w += "| %s | %s | %s | %s |\n" % (name, p, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"))
w += "\n" + open(os.path.join(V, "tools", "design_tail.md")).read()
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write(w)
