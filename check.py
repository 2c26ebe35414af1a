#!/usr/bin/env python3
"""Decide one property of rdftk with Kani/CBMC (bounded symbolic execution, SAT).

  check.py ID [--tier quick|thorough]      exit 0: every obligation discharged
                                           exit 1: VIOLATION property=ID replay=PATH (reproduced natively)
                                           exit 2: no verdict (solver gave none, or a counterexample
                                                   does not reproduce against the real dependencies)
  check.py --replay PATH                   re-run one recorded counterexample natively
  check.py --setup                         check the tools, the models and the harness crates

The harness crates take /repo by path, so every run encodes the current source anew.
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
EVIDENCE = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known-findings.txt")
JOBS = min(8, os.cpu_count() or 4)

# Harness crates: (directory, native replay crate, properties by letter are found by name)
CRATES = json.load(open(os.path.join(HERE, "harness", "crates.json")))

KANI = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options",
        "--no-memory-safety-checks", "--no-assertion-reach-checks"]
CBMC = ["--cbmc-args", "--max-field-sensitivity-array-size", "256"]


def environment(target, plain=False):
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.pop("RUSTFLAGS", None)
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = target
    e["CARGO_TERM_COLOR"] = "never"
    if plain:
        e["RUSTFLAGS"] = "--cfg plain"
    return e


LIVE = set()


def run(cmd, cwd, env, timeout, out):
    """Run in its own process group, output to the file `out`; None when the time is up."""
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=f, stderr=subprocess.STDOUT,
                             stdin=subprocess.DEVNULL, start_new_session=True)
        LIVE.add(p.pid)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        finally:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            LIVE.discard(p.pid)


# ------------------------------------------------------------------------------------------------
# Harnesses
# ------------------------------------------------------------------------------------------------

HARNESS = re.compile(r"^\s*fn ([a-z]\d{2,3})([qt])_(\w+) \[(\d+)\]", re.M)


def harnesses(prop, tier):
    """[(crate, full name, unwind)] of one property, from the harness sources."""
    found = []
    for crate in CRATES:
        src = os.path.join(HERE, "harness", crate["dir"], "src")
        for f in sorted(os.listdir(src)):
            if not f.endswith(".rs"):
                continue
            text = open(os.path.join(src, f)).read()
            for m in HARNESS.finditer(text):
                if m.group(1).upper() != prop:
                    continue
                if m.group(2) == "t" and tier == "quick":
                    continue
                found.append((crate, f"{f[:-3]}::{m.group(1)}{m.group(2)}_{m.group(3)}", int(m.group(4))))
    return found


class Result:
    def __init__(self, name):
        self.name, self.status, self.time = name, None, 0.0
        self.checks = 0
        self.failed = []       # [(description, location)]
        self.covers = None     # (satisfied, total)
        self.engine = None     # CBMC timeout / out of memory / crash

    def verdict(self):
        if self.engine or self.status is None:
            return "none"
        if self.status == "SUCCESSFUL":
            if self.covers and self.covers[0] < self.covers[1]:
                return "vacuous"
            return "holds"
        real = [d for d, _ in self.failed if not d.startswith("MODEL:") and "unwinding assertion" not in d]
        return "fails" if real else "model"


def parse(path):
    """Kani's terse, threaded output -> {harness: Result}."""
    got, cur, last = {}, {}, "0"
    for line in open(path, errors="replace"):
        m = re.match(r"(?:Thread (\d+): ?)?(.*)", line.rstrip("\n"))
        t, rest = m.groups()
        if t is not None:
            last = t
        t = t or last
        h = re.match(r"Checking harness (\S+?)\.\.\.", rest)
        if h:
            cur[t] = got[h.group(1)] = Result(h.group(1))
            continue
        r = cur.get(t)
        if r is None:
            continue
        if rest.startswith("Failed Checks: "):
            r.failed.append([rest[15:].strip().strip('"'), ""])
        elif rest.startswith(" File: ") and r.failed:
            r.failed[-1][1] = rest.strip()
        elif rest.startswith("VERIFICATION:- "):
            r.status = rest.split(":- ")[1].split()[0]
        elif rest.startswith("Verification Time: "):
            r.time = float(rest.split(": ")[1].rstrip("s"))
        elif "cover properties satisfied" in rest:
            m = re.search(r"(\d+) of (\d+) cover", rest)
            r.covers = (int(m.group(1)), int(m.group(2)))
        elif re.search(r"\*\* \d+ of \d+ failed", rest):
            r.checks = int(re.search(r"of (\d+) failed", rest).group(1))
        elif rest.startswith("CBMC ") or "CBMC timed out" in rest or "CBMC failed" in rest:
            if "6." not in rest:
                r.engine = rest.strip()
    return got


def solve(crate, names, timeout, total, plain, unwind=None, jobs=JOBS, log=None):
    """One cargo-kani run over `names`."""
    target = os.path.join(BUILD, crate["dir"] + ("-plain" if plain else ""))
    cmd = KANI + ["-j", str(jobs), "--output-format", "terse", "--harness-timeout", f"{timeout}s", "--exact"]
    for n in names:
        cmd += ["--harness", n]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    cmd += CBMC
    log = log or os.path.join(BUILD, f"log-{os.getpid()}.txt")
    rc = run(cmd, os.path.join(HERE, "harness", crate["dir"]), environment(target, plain), total, log)
    got = parse(log)
    if not got and rc not in (0, None):
        raise Broken("the harness crate does not build:\n" + tail(log))
    for n in names:
        got.setdefault(n, Result(n))
    return got


class Broken(Exception):
    pass


def tail(path, n=40):
    lines = open(path, errors="replace").read().splitlines()
    at = next((i for i, l in enumerate(lines) if l.startswith("error")), max(0, len(lines) - n))
    return "\n".join(lines[at:at + n])


# ------------------------------------------------------------------------------------------------
# Counterexamples
# ------------------------------------------------------------------------------------------------

def vectors(crate, name, timeout, plain, unwind=None):
    """The solver's assignments for one failing harness: a list of lists of byte lists."""
    target = os.path.join(BUILD, crate["dir"] + ("-plain" if plain else ""))
    cmd = KANI + ["-Z", "concrete-playback", "--concrete-playback=print",
                  "--harness-timeout", f"{timeout}s", "--exact", "--harness", name]
    if unwind:
        cmd += ["--unwind", str(unwind)]
    cmd += CBMC
    log = os.path.join(BUILD, f"playback-{os.getpid()}-{name.replace('::', '.')}.txt")
    run(cmd, os.path.join(HERE, "harness", crate["dir"]), environment(target, plain), timeout + 60, log)
    text = open(log, errors="replace").read()
    os.remove(log)
    out = []
    for m in re.finditer(r"/// Check for (\S+): (.*?)\n.*?let concrete_vals: Vec<Vec<u8>> = vec!\[\n(.*?)\n\s*\];", text, re.S):
        values = [[int(x) for x in v.split(",") if x.strip()]
                  for v in re.findall(r"^\s*vec!\[([\d, ]*)\]", m.group(3), re.M)]
        if m.group(1) != "cover" and values not in [v for _, v in out]:
            out.append((m.group(2).strip().strip('"'), values))
    return out


def build_replay(crate):
    target = os.path.join(BUILD, crate["replay"])
    log = os.path.join(BUILD, f"replay-build-{os.getpid()}.txt")
    rc = run(["cargo", "build", "--offline", "--quiet"], os.path.join(HERE, "harness", crate["replay"]),
             environment(target), 600, log)
    if rc != 0:
        raise Broken("the replay crate does not build:\n" + tail(log))
    return os.path.join(target, "debug", crate["replay"])


def native(exe, name, path, search=None):
    """(reproduced, what was seen); with `search`, of an assignment near the one recorded (to that
    file)."""
    scratch = tempfile.mkdtemp(prefix="replay-", dir=BUILD)
    cmd = [exe, "search", name, path, "10", search] if search else [exe, "run", name, path]
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=30, cwd=scratch,
                           stdin=subprocess.DEVNULL)
        said = (p.stdout.strip().splitlines() or [p.stderr.strip()[-200:]])[-1]
        if p.returncode == 1:
            return True, said
        if p.returncode < 0 or p.returncode > 100:
            return True, f"died with status {p.returncode}: {p.stderr.strip()[-200:]}"
        return False, said
    except subprocess.TimeoutExpired:
        return True, "did not terminate within 30 s"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def counterexample(prop, crate, r, exe, timeout, plain, unwind=None):
    """Replay the counterexamples of one failing harness; the path of one that reproduces."""
    tried, path, values = [], None, []
    for what, values in vectors(crate, r.name, timeout, plain, unwind) or [("a failing obligation", [])]:
        d = os.path.join(EVIDENCE, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{r.name.replace('::', '.')}.txt")
        with open(path, "w") as f:
            f.write(f"# property {prop}\n# harness {r.name}\n# crate {crate['dir']}\n# solver: {what}\n")
            for v in values:
                f.write(" ".join(map(str, v)) + "\n")
        ok, said = native(exe, r.name, path)
        tried.append((what, said))
        if ok:
            with open(path, "a") as f:
                f.write(f"# native: {said}\n")
            return path, said, tried
        os.rename(path, path + ".model")
    # The models over-approximate (an uninterpreted parser, say), so that an assignment may need
    # adjusting to what the real dependency does. Only a real failure counts.
    if values:
        found = path + ".found"
        ok, said = native(exe, r.name, path + ".model", found)
        if ok and os.path.exists(found):
            head = "".join(l for l in open(path + ".model") if l.startswith("#"))
            with open(path, "w") as f:
                f.write(head + "# adjusted to the real dependencies\n" + open(found).read())
            os.remove(found)
            ok, said = native(exe, r.name, path)
            tried.append(("adjusted", said))
            if ok:
                with open(path, "a") as f:
                    f.write(f"# native: {said}\n")
                os.remove(path + ".model")
                return path, said, tried
    os.remove(path + ".model")
    return None, None, tried


def known_findings():
    """[(property, harness, message)] of the `known:` lines."""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) harness=(\S+) message=\"(.*?)\" (.*)", line)
            if m:
                out.append(m.groups())
    return out


# ------------------------------------------------------------------------------------------------
# Evidence
# ------------------------------------------------------------------------------------------------

def encoded_functions(crate, name):
    """The repository functions in the goto program of one harness."""
    root = os.path.join(BUILD, crate["dir"], "kani")
    short = name.split("::")[-1]
    newest = None
    for d, _, files in os.walk(root):
        for f in files:
            if f.endswith(".out") and not f.endswith(".symtab.out") and re.search(rf"{len(short)}{short}\.out$", f):
                p = os.path.join(d, f)
                if newest is None or os.path.getmtime(p) > os.path.getmtime(newest):
                    newest = p
    tool = shutil.which("goto-instrument")
    if not newest or not tool:
        return []
    p = subprocess.run([tool, "--list-goto-functions", newest], capture_output=True, text=True, timeout=120)
    names = set()
    for line in p.stdout.splitlines():
        m = re.match(r"(.*?)\s*/\*\s*(\S+)\s*\*/", line)
        if m:
            pretty = m.group(1).strip()
            if pretty.startswith(tuple(crate["names"])):
                names.add(pretty)
    return sorted(names)


# ------------------------------------------------------------------------------------------------

def check(prop, tier):
    start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit = 820 if tier == "quick" else 6 * 3600
    per = 240 if tier == "quick" else 1800
    todo = harnesses(prop, tier)
    if not todo:
        print(f"no harness for {prop}")
        return 2
    crates = []
    for c, _, _ in todo:
        if c not in crates:
            crates.append(c)
    unwinds = {n: u for _, n, u in todo}
    left = lambda: limit - (time.time() - start)
    results, how, notes = {}, {}, []
    violation, unknown = None, []
    known = known_findings()
    reported_known = []

    def show(n, r, tag=""):
        extra = "; ".join(d for d, _ in r.failed[:3]) or r.engine or ""
        print(f"  {r.verdict():8} {r.time:7.1f}s {n} {tag} {extra}", flush=True)

    for crate in crates:
        names = [n for c, n, _ in todo if c is crate]
        got = solve(crate, names, per, max(60, left() - 200), False)
        pending = []
        for n in names:
            results[n], how[n] = got[n], "narrow"
            show(n, got[n])
            if got[n].verdict() != "holds":
                pending.append(n)
        if not pending:
            continue
        exe = build_replay(crate)
        # 1. the solver's counterexamples, replayed natively
        def chase(n, plain, unwind=None):
            return n, counterexample(prop, crate, results[n], exe, int(max(60, min(per, left()))), plain, unwind)
        def chase_all(ns, plain, unwind=None):
            nonlocal violation
            ns = sorted(ns, key=lambda n: results[n].time)
            settled = []
            with ThreadPoolExecutor(4) as pool:
                at = 0
                while at < len(ns) and left() > 60:
                    group = ns[at:at + 4]
                    at += 4
                    for n, (path, said, tried) in pool.map(lambda n: chase(n, plain, unwind), group):
                        if path is None:
                            notes.append(f"{n}: counterexample does not reproduce: {tried[:3]}")
                            continue
                        settled.append(n)
                        hit = [k for k in known if k[0] == prop and k[1] == n and
                               all(d == k[2] for d, _ in results[n].failed) and k[2] in said]
                        if hit:
                            reported_known.append((n, hit[0]))
                        elif violation is None:
                            violation = (n, path, said)
                    if violation:
                        break
            return settled
        failing = [n for n in pending if results[n].verdict() == "fails"]
        settled = chase_all(failing, False)
        pending = [n for n in pending if n not in settled]
        # ... also of executions which leave the models: only a native failure counts
        if not violation:
            chase_all([n for n in pending if results[n].verdict() == "model"][:4], False)
        # 2. no verdict from the narrow encoding: the wide one (no case-split hints, whole URL
        #    model), with a larger unwinding bound
        if pending and not violation:
            for factor in (1, 2):
                again = [n for n in pending if left() > 90]
                if not again:
                    break
                groups = {}
                for n in again:
                    groups.setdefault(unwinds[n] + (2 if factor == 1 else unwinds[n]), []).append(n)
                for u, ns in sorted(groups.items()):
                    got = solve(crate, ns, int(max(60, left() - 60)), max(60, left() - 30), True, u)
                    for n in ns:
                        show(n, got[n], f"(wide encoding, unwinding {u})")
                        if got[n].verdict() != "none" or results[n].verdict() == "none":
                            results[n], how[n] = got[n], f"wide, unwinding {u}"
                    settled = chase_all([n for n in ns if results[n].verdict() == "fails"], True, u)
                    pending = [n for n in pending if n not in settled and results[n].verdict() != "holds"]
                    if violation:
                        break
                if violation or not pending:
                    break
        unknown += pending
        if violation:
            break

    wall = time.time() - start
    held = [n for n, r in results.items() if r.verdict() == "holds"]
    functions = set()
    for crate in crates:
        for n in [n for c, n, _ in todo if c is crate][:2]:
            try:
                functions.update(encoded_functions(crate, n))
            except Exception as e:   # evidence only, never a verdict
                notes.append(f"functions encoded: {e}")
    obligations = sum(r.checks for r in results.values())
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Bounded symbolic execution of the compiled repository code (Kani: MIR to goto, "
                           "CBMC: SAT). Every harness below was decided for every value of its symbolic "
                           "inputs within the bounds its name and source state; unwinding assertions are on, "
                           "so a bound that is too small fails instead of truncating, and each harness has "
                           "reachability witnesses which the solver had to satisfy.",
            "harnesses": len(results),
            "harnesses_discharged": len(held),
            "obligations": obligations,
            "discharged": sum(r.checks - len(r.failed) for r in results.values()),
            "witnesses_satisfied": sum(r.covers[0] for r in results.values() if r.covers),
            "solver_time_s": round(sum(r.time for r in results.values()), 1),
            "functions_encoded": sorted(functions),
            "samples": [{"harness": n, "unwind": unwinds[n], "encoding": how[n], "verdict": r.verdict(),
                         "obligations": r.checks, "time_s": r.time,
                         "failed": [d for d, _ in r.failed]} for n, r in sorted(results.items())],
            "checker_cmd": " ".join(KANI + ["--exact", "--harness", "<name>"] + CBMC),
            "known_findings": [f"{n}: {k[3]}" for n, k in reported_known],
            "undecided": unknown,
            "notes": notes,
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 1),
        "violations": 1 if violation else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for n in notes:
        print("  note:", n)
    for n, k in reported_known:
        print(f"KNOWN-FINDING: property={prop} {k[3]}")
    if violation:
        n, path, said = violation
        print(f"{n}: {said}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if unknown:
        print(f"no verdict for {len(unknown)} of {len(results)} harnesses: {', '.join(unknown[:5])}")
        return 2
    print(f"{prop} {tier}: {len(held)} harnesses, {obligations} obligations discharged, "
          f"solver {sum(r.time for r in results.values()):.0f} s, wall {wall:.0f} s")
    return 0


ASSUMPTIONS = [
    "Kani's translation of MIR, CBMC's bit-blasting and its SAT solver are correct; pointer and memory-safety checks are off (the crate is safe Rust).",
    "url::Url and bimap::BiBTreeMap are replaced by the models in /verif/models, compared with the real crates by setup_cmd and never used when a counterexample is replayed.",
    "core::slice::memchr, the ASCII char decoder, fmt::Arguments::{as_str,from_str} and Debug builders are replaced by contract-equivalent stand-ins; misuse of a stand-in is a failing obligation.",
    "Inputs longer than the harness sizes, and (for IRI composition) non-ASCII names, are outside the claim.",
]


def replay(path):
    meta = dict(re.findall(r"^# (property|harness|crate) (\S+)$", open(path).read(), re.M))
    crate = next(c for c in CRATES if c["dir"] == meta["crate"])
    ok, said = native(build_replay(crate), meta["harness"], os.path.abspath(path))
    print(said)
    return 1 if ok else 0


def setup():
    os.makedirs(BUILD, exist_ok=True)
    for tool in (["cargo", "kani", "--version"], ["cbmc", "--version"]):
        subprocess.run(tool, check=True, env=environment(BUILD))
    for crate in CRATES:
        exe = build_replay(crate)
        if crate.get("models"):
            subprocess.run([exe, "models", os.environ.get("VERIF_SEED", "1"), "20000"], check=True)
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.setup:
            return setup()
        if a.replay:
            return replay(a.replay)
        return check(a.property, a.tier)
    except Broken as e:
        print(e)
        return 2
    finally:
        for p in list(LIVE):
            try:
                os.killpg(p, signal.SIGKILL)
            except ProcessLookupError:
                pass
        for f in os.listdir(BUILD):
            if f.endswith(".txt") and f"-{os.getpid()}" in f:
                os.remove(os.path.join(BUILD, f))


if __name__ == "__main__":
    sys.exit(main())
