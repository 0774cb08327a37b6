#!/usr/bin/env python3
"""Driver of the checks.

  check.py run PROPERTY [--tier quick|thorough] [--seed N] [--scale X]
  check.py replay FILE
  check.py build [CONFIG...]

Builds the harness from /repo's working tree in the configurations a property needs, runs it and
writes evidence/<PROPERTY>.json.
"""
import json
import os
import re
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
HARNESS = os.path.join(VERIF, "harness")
OUT = os.path.join(VERIF, "out")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")
DICT = os.path.join(OUT, "dict.txt")
WRAPPER = os.path.join(VERIF, "tools", "rustc-cov.sh")

FEATURES = {"none": "", "mdns": "mdns", "dnssec": "dnssec", "both": "mdns,dnssec"}
ALL = list(FEATURES)
# Which builds of the library a property is checked in
CONFIGS = {"C16": ["both"], "C18": ["both"]}
CONFIGS_THOROUGH = {"C16": ["both"], "C18": ["both", "dnssec"]}
# Which binaries have to exist
NEEDS = {"C16": ALL}

LEVEL = "exploration"


def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e["VERIF_DICT"] = DICT
    for c in ALL:
        e["VERIF_BIN_" + c] = binary(c)
    return e


def binary(config):
    return os.path.join(HARNESS, "target", config, "debug", "maybe-dns-verif")


def build(config):
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(HARNESS, "target", config)
    cmd = ["cargo", "build", "--offline"]
    if FEATURES[config]:
        cmd += ["--features", FEATURES[config]]
    # coverage callbacks in the library; without them (should the compiler refuse) there is no
    # guided search, but everything else works
    for wrapper in (WRAPPER, ""):
        e["RUSTC_WRAPPER"] = wrapper
        p = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            return None
    if p.returncode != 0:
        return "build of configuration %s failed:\n%s" % (config, p.stdout[-4000:])
    return None


def build_all(configs):
    with ThreadPoolExecutor(len(configs)) as ex:
        errors = [r for r in ex.map(build, configs) if r]
    if errors:
        print("\n".join(errors), file=sys.stderr)
        sys.exit(2)


# ---------------------------------------------------------------------------------------------
# Literals of the library's source: boundary values and texts for the generators. They only steer
# the choice of inputs, never the verdict.

TOKEN = re.compile(
    r"""//[^\n]*|/\*.*?\*/|br?\#*"(?:[^"\\]|\\.)*"\#*|r\#*"(?:[^"])*"\#*|"(?:[^"\\]|\\.)*"|b?'(?:[^'\\]|\\.)[^']*'|\b0x[0-9a-fA-F_]+|\b0b[01_]+|\b\d[\d_]*""",
    re.S,
)


def literals():
    ints, strs = set(), set()
    for root, _, files in os.walk(os.path.join(REPO, "src")):
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(root, f), encoding="utf-8", errors="replace") as fh:
                text = fh.read()
            cut = text.find("#[cfg(test)]\nmod ")
            if cut >= 0:
                text = text[:cut]
            for t in TOKEN.findall(text):
                if t.startswith(("//", "/*")):
                    continue
                if '"' in t:
                    body = t[t.index('"') + 1 : t.rindex('"')]
                    try:
                        b = body.encode("latin-1", "replace").decode("unicode_escape").encode("latin-1", "replace")
                    except Exception:
                        b = body.encode()
                    if 0 < len(b) <= 48:
                        strs.add(b)
                elif "'" in t:
                    m = re.match(r"b?'(\\x[0-9a-fA-F]{2}|.)'", t)
                    if m:
                        s = m.group(1)
                        ints.add(int(s[2:], 16) if s.startswith("\\x") else ord(s))
                else:
                    t = t.replace("_", "")
                    try:
                        v = int(t, 0) if t.startswith("0x") or t.startswith("0b") else int(t)
                    except ValueError:
                        continue
                    if v < 1 << 64:
                        ints.add(v)
    strs |= {b"local", b"in-addr", b"arpa", b"*", b"example", b"com"}
    return ints, strs


def write_dict():
    os.makedirs(OUT, exist_ok=True)
    ints, strs = literals()
    tmp = DICT + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        for i in sorted(ints):
            f.write("i %d\n" % i)
        for s in sorted(strs):
            f.write("s %s\n" % s.hex())
    os.replace(tmp, DICT)
    return len(ints), len(strs)


# ---------------------------------------------------------------------------------------------


def known_texts():
    d = {}
    with open(KNOWN) as f:
        for line in f:
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line)
            if m:
                d[(m.group(1), m.group(2))] = m.group(3).strip()
    return d


def run(prop, tier, seed, scale, only):
    t0 = time.time()
    configs = (CONFIGS_THOROUGH if tier == "thorough" else CONFIGS).get(prop)
    if configs is None:
        configs = ALL if tier == "thorough" else ["none", "both"]
    nlit = write_dict()
    build_all(NEEDS.get(prop, configs))
    t_build = time.time() - t0
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    cores = os.cpu_count() or 4
    threads = max(1, cores // len(configs))
    deadline = int(os.environ.get("VERIF_DEADLINE", "420" if tier == "quick" else "3600"))

    def one(config):
        out = os.path.join(OUT, "%s-%s.json" % (prop, config))
        if os.path.exists(out):
            os.remove(out)
        cmd = [binary(config), "run", prop, "--config", config, "--seed", str(seed), "--tier", tier,
               "--threads", str(threads), "--out", out, "--replays", REPLAYS, "--known", KNOWN,
               "--deadline", str(deadline), "--scale", str(scale)]
        if only:
            cmd += ["--only", only]
        p = subprocess.run(cmd, cwd=VERIF, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            with open(out) as f:
                r = json.load(f)
        except Exception:
            r = None
        return config, p.returncode, r, p.stderr.decode(errors="replace")[-2000:]

    with ThreadPoolExecutor(len(configs)) as ex:
        results = list(ex.map(one, configs))

    bad = [x for x in results if x[2] is None or x[1] not in (0, 1)]
    violations = [(c, r["violation"]) for c, _, r, _ in results if r and r.get("violation")]
    known = {}
    cov = {
        "evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [],
        "cases": 0, "configurations": {}, "classes": {}, "literals_of_the_source_used": sum(nlit),
    }
    for c, _, r, _ in results:
        if not r:
            continue
        cov["evaluations"] += r["evaluations"]
        cov["cases"] += r["cases"]
        # the same seeds run in each configuration, so count the largest, not the sum
        cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], r["distinct_nontrivial"])
        cov["rule"] = r["rule"]
        cov["samples"] += ["%s %s" % (c, s) for s in r["samples"][:6]]
        cov["configurations"][c] = {
            "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"],
            "cases": r["cases"], "phases": r["phases"], "complete": r["complete"], "wall_s": r["wall_s"],
        }
        for k, v in r["classes"].items():
            cov["classes"][k] = cov["classes"].get(k, 0) + v
        for k, v in r["known"].items():
            known[k] = known.get(k, 0) + v
    cov["known_finding_hits"] = known
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL, "coverage": cov,
        "assumptions": [
            "generated inputs only: a violation outside of what the generators reach is not seen",
            "the reference model and walker of the harness follow the RFCs named in DESIGN.md",
        ],
        "build_s": round(t_build, 2),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    tmp = os.path.join(EVIDENCE, "%s.json.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    os.replace(tmp, os.path.join(EVIDENCE, "%s.json" % prop))

    texts = known_texts()
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s (%s, %d cases)" % (prop, texts.get((prop, k), k), k, known[k]))
    for c, v in violations:
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        print("  configuration %s, phase %s: %s" % (c, v["phase"], v["message"][:1500]))
    for c, code, r, err in bad:
        print("check error in configuration %s: exit %s\n%s" % (c, code, err), file=sys.stderr)
    print("%s %s seed %s: %d evaluations, %d distinct non-trivial, build %.1f s, total %.1f s" % (
        prop, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], t_build, time.time() - t0))
    if violations:
        return 1
    return 2 if bad else 0


def replay(path):
    with open(path) as f:
        r = json.load(f)
    write_dict()
    build_all(NEEDS.get(r["property"], [r["config"]]))
    return subprocess.run([binary(r["config"]), "replay", os.path.abspath(path), "--config", r["config"], "--known", KNOWN],
                          cwd=VERIF, env=env()).returncode


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "build":
        write_dict()
        build_all(a[1:] or ["none", "both"])
        return 0
    if a[0] == "replay":
        return replay(a[1])
    opts = {"--tier": os.environ.get("VERIF_TIER", "quick"), "--seed": os.environ.get("VERIF_SEED", "1"), "--scale": "1", "--only": ""}
    for i in range(2, len(a) - 1, 2):
        opts[a[i]] = a[i + 1]
    tier = opts["--tier"] if opts["--tier"] in ("quick", "thorough") else "quick"
    return run(a[1], tier, int(opts["--seed"]), float(opts["--scale"]), opts["--only"])


if __name__ == "__main__":
    sys.exit(main())
