#!/usr/bin/env python3
"""Build the harness from /repo's working tree, run one check, write its evidence and say what it found.

usage: check.py ID quick|thorough
       check.py replay FILE
       check.py setup

Exit 0: the property held on everything explored. Exit 1, with a VIOLATION line: it is broken.
Anything else: an error of the check.
"""

import concurrent.futures
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "out")
SWITCHES = ["dirs", "marks", "sums"]
ALL = ["dirs", "marks", "sums", "lang"]
# Builds other than by features: one that counts the edges taken, and one without assertions and checks of overflow.
GUIDED = ["guided"]
PLAIN = ["plain"]
# The share of the cases that the latter gets, in percent.
PLAIN_SHARE = 25
# A build that uses values and fonts in several threads, which is possible only with types that allow it.
SHARING = ["share"]
SHARING_SHARE = 40
# How long the cases of one build may take in the thorough tier.
THOROUGH_SECONDS = 720
# How long the coverage-guided search of the thorough tier takes, on each processor.
GUIDED_SECONDS = 240
COUNTERS = ("-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 "
            "-Cllvm-args=-sanitizer-coverage-inline-8bit-counters")


def environment():
    env = dict(os.environ)
    home = env.get("CARGO_HOME") or "/root/.cargo"
    env["PATH"] = home + "/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.setdefault("HOME", "/root")
    env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    for name in ["RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "RUST_MIN_STACK"]:
        env.pop(name, None)
    return env


def configurations(identity, tier):
    if identity == "C14":
        return [[], ["lang"], PLAIN]
    if identity == "C21":
        return [[], SHARING, PLAIN]
    if identity == "C16":
        subsets = [[s for i, s in enumerate(SWITCHES) if mask >> i & 1] for mask in range(8)]
        if tier == "quick":
            return subsets + [ALL]
        return subsets + [subset + ["lang"] for subset in subsets]
    return [[], PLAIN]


def label(features):
    return "-".join(features) or "none"


def target(features):
    return os.path.join(HERE, "target" if not features else "target-" + label(features))


def binary(features):
    return os.path.join(target(features), "release", "harness")


def digest():
    """A digest of the contents of what is built, for cargo goes by times alone."""
    whole = hashlib.sha256()
    for root in ("/repo", os.path.join(HERE, "harness")):
        for folder, folders, files in os.walk(root):
            folders[:] = sorted(name for name in folders if name not in (".git", "target", "tests"))
            for name in sorted(files):
                path = os.path.join(folder, name)
                if name.endswith((".rs", ".toml", ".lock")) and os.path.isfile(path):
                    whole.update(path.encode() + b"\0")
                    whole.update(hashlib.sha256(open(path, "rb").read()).digest())
    return whole.hexdigest()


def build(features):
    stamp = os.path.join(target(features), "digest")
    now = digest()
    try:
        before = open(stamp).read()
    except OSError:
        before = None
    if before != now:
        if os.path.exists(stamp):
            os.unlink(stamp)
        for path in glob.glob(os.path.join(target(features), "release", ".fingerprint", "*")):
            if os.path.basename(path).startswith(("opentype-", "harness-")):
                shutil.rmtree(path)
    command = ["cargo", "build", "--release", "--offline", "--locked", "--quiet",
               "--manifest-path", os.path.join(HERE, "harness", "Cargo.toml"), "--target-dir", target(features)]
    variables = environment()
    if features == GUIDED:
        variables["RUSTFLAGS"] = COUNTERS
    elif features == PLAIN:
        for name, value in (("DEBUG_ASSERTIONS", "false"), ("OVERFLOW_CHECKS", "false"), ("OPT_LEVEL", "3")):
            variables["CARGO_PROFILE_RELEASE_" + name] = value
    elif features:
        command += ["--features", ",".join(features)]
    done = subprocess.run(command, env=variables, cwd=os.path.join(HERE, "harness"),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if done.returncode != 0:
        print(done.stdout[-6000:])
        print(f"check.py: the harness does not build with features [{label(features)}]")
        return False
    with open(stamp, "w") as file:
        file.write(now)
    return True


def unshareable(identity):
    """The build with sharing has failed where others have not: (message, replay) if the types do not allow for it."""
    output = subprocess.run(["cargo", "build", "--release", "--offline", "--locked", "--quiet", "--manifest-path",
                             os.path.join(HERE, "harness", "Cargo.toml"), "--target-dir", target(SHARING),
                             "--features", ",".join(SHARING)],
                            env=environment(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
    lines = re.findall(r"^error\[E0277\]: (.* cannot be (?:sent|shared) between threads safely)$", output, re.M)
    if not lines:
        return None
    replay = os.path.join(OUT, f"{identity}-{label(SHARING)}.replay")
    with open(replay, "w") as file:
        file.write(f"features {','.join(SHARING)}\nbuild\nmessage {lines[0]}\n{output}")
    return lines[0], replay


def build_all(sets):
    with concurrent.futures.ThreadPoolExecutor(4) as pool:
        return all(list(pool.map(build, sets)))


def journal_entries(path):
    try:
        data = open(path, "rb").read()
    except OSError:
        return []
    entries = [struct.unpack_from("<Q", data, i)[0] for i in range(0, len(data) - 7, 8)]
    return sorted({((e - 1) >> 48, (e - 1) & ((1 << 48) - 1)) for e in entries if e})


def describe(code):
    if code is None:
        return "no end"
    if code < 0:
        try:
            return "died of " + signal.Signals(-code).name
        except ValueError:
            return f"died of signal {-code}"
    return f"exit {code}"


def repeat(features, path, seconds=200):
    """Repeat one case on its own: whether it fails, and how."""
    try:
        done = subprocess.run([binary(features), "replay", path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                              timeout=seconds)
    except subprocess.TimeoutExpired:
        return True, f"no end after {seconds} seconds"
    text = done.stdout.decode("utf-8", "replace").strip()
    if done.returncode == 1:
        return True, text
    if done.returncode < 0:
        return True, describe(done.returncode) + "; " + text[-400:]
    return False, text


def confirm(features, replay):
    """Choose the replay that fails in a process of its own.

    A failure may depend on the cases before it, in which case the minimal one is not enough; then the case as it was
    found is tried, then shorter and longer runs of the cases before it.
    """
    original, sequence = replay + ".original", replay + ".sequence"
    if not os.path.exists(original):
        return replay
    if not repeat(features, replay)[0]:
        if repeat(features, original)[0] or not os.path.exists(sequence):
            shutil.copyfile(original, replay)
        else:
            text = open(sequence).read()
            last = int(re.search(r"^sequence \d+ \d+ (\d+)$", text, re.M).group(1))
            for count in (10, 100, 1000, 10000, last + 1):
                first = max(0, last + 1 - count)
                with open(replay, "w") as file:
                    file.write(re.sub(r"^(sequence \d+) \d+", rf"\1 {first}", text, flags=re.M))
                if repeat(features, replay, 60)[0] or first == 0:
                    break
    for path in (original, sequence):
        if os.path.exists(path):
            os.unlink(path)
    return replay


def run(identity, tier, seed, features, threads, evidence):
    """Run the cases of one build. Returns (status, message, replay)."""
    name = f"{identity}-{label(features)}"
    if features == PLAIN:
        # Other cases.
        seed += 1_000_003
    replay = os.path.join(OUT, name + ".replay")
    journal = os.path.join(OUT, name + ".journal")
    for path in (replay, replay + ".original", replay + ".sequence", journal, evidence):
        if os.path.exists(path):
            os.unlink(path)
    command = [binary(features), "check", identity, "--tier", tier, "--seed", str(seed), "--threads", str(threads),
               "--journal", journal, "--replay", replay, "--evidence", evidence]
    if tier == "thorough":
        seconds = THOROUGH_SECONDS // len(configurations(identity, tier))
        command += ["--seconds", str(seconds)]
    percent = int(os.environ.get("CHECK_PERCENT") or 100)
    if features == PLAIN:
        percent = max(1, percent * PLAIN_SHARE // 100)
    if features == SHARING:
        percent = max(1, percent * SHARING_SHARE // 100)
    command += ["--percent", str(percent)]
    process = subprocess.run(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    text = process.stdout.decode("utf-8", "replace")
    for line in text.splitlines()[-40:]:
        print("  " + line[:2000])
    code = process.returncode
    if code == 0:
        return 0, "", None
    if code == 1 and os.path.exists(replay):
        found = re.findall(r"^FAILURE (.*)$", text, re.M)
        return 1, found[-1] if found else "failed", confirm(features, replay)
    if code >= 0 and code != 101:
        return 3, describe(code), None
    # The process died: find out which of the cases in progress kills it.
    print(f"  the harness {describe(code)}; repeating the cases it was at")
    if os.path.exists(replay):
        failed, text = repeat(features, replay)
        if failed:
            return 1, text.splitlines()[-1] if text else "failed", replay
    for ordinal, index in journal_entries(journal):
        phase = subprocess.run([binary(features), "phase", identity, str(ordinal)], stdout=subprocess.PIPE, text=True)
        with open(replay, "w") as file:
            file.write(f"phase {phase.stdout.strip()}\nfeatures {','.join(features)}\nindex {seed} {index}\n")
        failed, text = repeat(features, replay)
        if failed:
            line = text.splitlines()[-1] if text else "failed"
            with open(replay, "a") as file:
                file.write(f"message {line}\n")
            return 1, line, replay
        os.unlink(replay)
    return 3, describe(code) + ", and none of the cases in progress does it again", None


def guided(identity, seed, processes):
    """Coverage-guided searches, one a processor, each with a seed of its own."""
    if not build(GUIDED):
        return 3, "", None, {}
    running = []
    for i in range(processes):
        replay = os.path.join(OUT, f"{identity}-guided-{i}.replay")
        journal = os.path.join(OUT, f"{identity}-guided-{i}.journal")
        for path in (replay, replay + ".original", journal):
            if os.path.exists(path):
                os.unlink(path)
        command = [binary(GUIDED), "guided", identity, "--seed", str(seed * 64 + i), "--seconds", str(GUIDED_SECONDS),
                   "--replay", replay, "--journal", journal, "--phase-file", journal + ".phase"]
        process = subprocess.Popen(command, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        running.append((process, replay, journal))
    status, message, found, summary = 0, "", None, {"searches": processes, "phases": {}}
    for process, replay, journal in running:
        try:
            output, _ = process.communicate(timeout=GUIDED_SECONDS + 400)
            code = process.returncode
        except subprocess.TimeoutExpired:
            process.kill()
            output, _ = process.communicate()
            code = None
        text = output.decode("utf-8", "replace")
        for line in re.findall(r"^GUIDED phase (.*)$", text, re.M):
            words = line.split()
            phase = summary["phases"].setdefault(words[0], {})
            for name in ("cases", "distinct", "discarded", "corpus", "edges"):
                count = int(words[words.index(name) + 1])
                phase[name] = max(phase.get(name, 0), count) if name == "edges" else phase.get(name, 0) + count
        if status == 1 or code == 0:
            continue
        print("  " + text[-2000:].replace("\n", "\n  "))
        if code == 1 and os.path.exists(replay):
            lines = re.findall(r"^FAILURE (.*)$", text, re.M)
            status, message, found = 1, lines[-1] if lines else "failed", confirm([], replay)
            continue
        status = 3
        if code is not None and code >= 0 and code != 101:
            continue
        # The process died or did not end: repeat the case it was at.
        try:
            data = open(journal, "rb").read()
            numbers = struct.unpack_from(f"<{2 + struct.unpack_from('<Q', data)[0]}Q", data)
            phase = open(journal + ".phase").read()
        except (OSError, struct.error):
            continue
        with open(replay, "w") as file:
            file.write(f"phase {phase}\nfeatures \ncontinued {' '.join(map(str, numbers[1:]))}\n")
        failed, text = repeat([], replay)
        if failed:
            status, message, found = 1, text.splitlines()[-1] if text else "failed", replay
    return status, message, found, summary


def merge(parts):
    """One evidence file out of those of several builds."""
    if len(parts) == 1:
        return parts[0]
    whole = json.loads(json.dumps(parts[0]))
    coverage = whole["coverage"]
    coverage["configuration"] = [part["coverage"]["configuration"] for part in parts]
    coverage["evaluations_of_each"] = [part["coverage"]["evaluations"] for part in parts]
    for key in ("evaluations", "distinct_nontrivial", "nontrivial"):
        coverage[key] = sum(part["coverage"][key] for part in parts)
    for key in ("discarded", "classes", "counters"):
        totals = {}
        for part in parts:
            for name, count in part["coverage"][key].items():
                totals[name] = totals.get(name, 0) + count
        coverage[key] = totals
    coverage["samples"] = [f"[{part['coverage']['configuration']}] {sample}"
                           for part in parts for sample in part["coverage"]["samples"][:2]]
    coverage["exhaustive"] = all(part["coverage"]["exhaustive"] for part in parts)
    whole["violations"] = sum(part["violations"] for part in parts)
    return whole


def known(identity):
    """The findings listed as not repaired: lines 'finding: property=<id> <what fails>'."""
    try:
        lines = open(os.path.join(HERE, "known-findings.txt")).read().splitlines()
    except OSError:
        return []
    prefix = f"finding: property={identity} "
    return [line[len(prefix):] for line in lines if line.startswith(prefix)]


def check(identity, tier):
    started = time.time()
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    sets = configurations(identity, tier)
    parts, found, status = [], None, 0
    if SHARING not in sets:
        if not build_all(sets):
            return 3
    else:
        rest = [features for features in sets if features != SHARING]
        with concurrent.futures.ThreadPoolExecutor(1) as pool:
            sharing = pool.submit(build, SHARING)
            if not build_all(rest):
                return 3
            if not sharing.result():
                found = unshareable(identity)
                if found is None:
                    return 3
    threads = os.cpu_count() or 4
    for features in sets if not found else []:
        part = os.path.join(OUT, f"{identity}-{label(features)}.json")
        code, message, replay = run(identity, tier, seed % (1 << 63), features, threads, part)
        if os.path.exists(part):
            parts.append(json.load(open(part)))
        if code == 1:
            found = (message, replay)
            break
        if code != 0:
            print(f"check.py: {identity} with features [{label(features)}]: {message}")
            status = code
    if parts:
        whole = merge(parts)
    else:
        whole = {"property": identity, "tier": tier, "seed": seed, "level": "exploration",
                 "coverage": {"explanation": "the run did not end by itself", "evaluations": 0}}
    whole["seed"] = seed
    whole["tier"] = tier
    whole["wall_s"] = round(time.time() - started, 2)
    whole["violations"] = 1 if found else 0
    whole["assumptions"] = ASSUMPTIONS
    if tier == "thorough" and not found and status == 0:
        status, message, replay, whole["coverage"]["coverage_guided"] = guided(identity, seed % (1 << 32), threads)
        whole["wall_s"] = round(time.time() - started, 2)
        if status == 1:
            found = (message, replay)
            whole["violations"] = 1
    with open(os.path.join(HERE, "evidence", identity + ".json"), "w") as file:
        json.dump(whole, file, indent=1)
        file.write("\n")
    for line in known(identity):
        print(f"KNOWN-FINDING: property={identity} {line}")
    if found:
        message, replay = found
        print(f"{identity}: {message[:1500]}")
        print(f"VIOLATION property={identity} replay={replay}")
        return 1
    return status


ASSUMPTIONS = [
    "The transcription of the OpenType formats in harness/src/spec.rs, made independently of the code, is right.",
    "The tape handed to the code behaves as std::io::Read and Seek say.",
]


def replay(path):
    text = open(path).read()
    features = re.findall(r"^features ?(.*)$", text, re.M)
    features = [name for name in (features[0] if features else "").split(",") if name]
    if re.search(r"^build$", text, re.M):
        # What fails is to build.
        if not build([]):
            return 3
        failed, message = (False, "it builds") if build(features) else (True, (unshareable("C21") or ("",))[0])
        print(message)
        return 1 if failed else 0
    if not build(features):
        return 3
    failed, message = repeat(features, os.path.abspath(path), 600)
    print(message)
    return 1 if failed else 0


def main():
    words = sys.argv[1:]
    if words == ["setup"]:
        return 0 if build_all([[]]) else 3
    if len(words) == 2 and words[0] == "replay":
        return replay(words[1])
    if len(words) == 2 and words[1] in ("quick", "thorough"):
        return check(*words)
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
