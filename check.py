#!/usr/bin/env python3
"""Runs the check of one property.

    check.py <property> quick|thorough      the check; rewrites evidence/<property>.json
    check.py <property> replay <file>       runs one stored case again (exit 1 if it still fails)
    check.py setup                          builds everything the checks need

Exit 0: the property held on every case. Exit 1, with a VIOLATION line: a case breaks it.
Any other exit: the check itself could not answer (build failure, hang, harness error).
"""
import fcntl
import hashlib
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(ROOT, ".build")
TARGET = os.path.join(BUILD, "target")
SHARDS = 8
NOBODY = 65534

sys.path.insert(0, os.path.join(ROOT, "tools"))
from checks import CHECKS  # noqa: E402


def say(*a):
    print(*a, flush=True)


def die(msg, code=2):
    say("ERROR: " + msg)
    sys.exit(code)


# ---------------------------------------------------------------- building

def source_stamp():
    """A hash of everything the build of /repo reads, so that a stale build is never used."""
    h = hashlib.sha256()
    for top in ["Cargo.toml", "Cargo.lock", "stuart", "stuart-core", "plugins"]:
        p = os.path.join(REPO, top)
        files = []
        if os.path.isfile(p):
            files = [p]
        else:
            for d, ds, fs in os.walk(p):
                ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
                files += [os.path.join(d, f) for f in sorted(fs)]
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()


def build_env():
    env = dict(os.environ)
    out = subprocess.run(
        ["bash", "-c", ". /opt/vp/env.sh && env -0"], stdout=subprocess.PIPE, check=True, env=env
    ).stdout
    env = dict(x.split("=", 1) for x in out.decode("utf-8", "replace").split("\0") if "=" in x)
    env["CARGO_TARGET_DIR"] = TARGET
    env["CARGO_INCREMENTAL"] = "0"
    return env


def cargo(args, cwd, env, what):
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode("utf-8", "replace")[-6000:])
        die("cannot build " + what)


def build_bundled(env):
    """The plugins which come with /repo, from copies: their lock files are not up to date, and oxipng is not there."""
    top = os.path.join(BUILD, "bundled")
    shutil.rmtree(top, ignore_errors=True)
    for name in ["demo", "imgopt"]:
        src, dst = os.path.join(REPO, "plugins", name), os.path.join(top, name)
        # The copies are new, whatever the times of the originals.
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"), copy_function=shutil.copyfile)
        f = os.path.join(dst, "Cargo.toml")
        with open(f) as fh:
            t = fh.read()
        with open(f, "w") as fh:
            fh.write(t.replace("../../stuart-core", os.path.join(REPO, "stuart-core")))
        stand_in = os.path.join(ROOT, "bundled", "oxipng")
        args = ["--config", 'patch.crates-io.oxipng.path="%s"' % stand_in] if name == "imgopt" else []
        cargo(["build", "--offline"] + args, dst, env, "the plugin " + name)


def build(needs):
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        env = build_env()
        stamp_file = os.path.join(BUILD, "stamp")
        stamp = source_stamp()
        old = open(stamp_file).read() if os.path.exists(stamp_file) else ""
        if old and old != stamp:
            # File times may lie (a copied tree); contents do not.
            for d in ["debug", "release"]:
                fp = os.path.join(TARGET, d, ".fingerprint")
                if os.path.isdir(fp):
                    for x in os.listdir(fp):
                        if x.startswith("stuart-") or x.startswith("stuart_core-"):
                            shutil.rmtree(os.path.join(fp, x))
        if old != stamp:
            if os.path.exists(stamp_file):
                os.remove(stamp_file)
        cargo(["build", "--offline", "--locked"], os.path.join(ROOT, "harness"), env, "the harness")
        if "cli" in needs:
            cargo(["build", "-p", "stuart", "--features", "js", "--locked", "--offline"], REPO, env, "stuart")
        if "plugin" in needs:
            cargo(["build", "--offline", "--locked"], os.path.join(ROOT, "plugin"), env, "the test plugin")
        if "bundled" in needs:
            build_bundled(env)
        for need in ["fault", "clock"]:
            if need not in needs:
                continue
            r = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", os.path.join(TARGET, "libvh%s.so" % need),
                                os.path.join(ROOT, "faultlib", need + ".c"), "-ldl", "-lpthread"],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                sys.stdout.write(r.stdout.decode("utf-8", "replace")[-3000:])
                die("cannot build the %s library" % need)
        with open(stamp_file, "w") as f:
            f.write(stamp)


# ---------------------------------------------------------------- running

class Scratch:
    """A directory owned by an unprivileged user, holding copies of the programs to run."""

    def __init__(self, needs):
        exec_files = "exec" in needs
        self.dir = tempfile.mkdtemp(prefix="vh-")
        os.chmod(self.dir, 0o755)
        self.bin = os.path.join(self.dir, "bin")
        os.mkdir(self.bin)
        shutil.copy(os.path.join(TARGET, "debug", "vh"), self.bin)
        # Cases are faster in memory, unless they execute files of their own.
        self.base = self.dir
        if not exec_files and os.access("/dev/shm", os.W_OK):
            st = os.statvfs("/dev/shm")
            if st.f_bavail * st.f_frsize > 2 << 30:
                self.base = tempfile.mkdtemp(prefix="vh-", dir="/dev/shm")
                os.chmod(self.base, 0o755)
        self.stuart = self.aux = None
        if "cli" in needs:
            shutil.copy(os.path.join(TARGET, "debug", "stuart"), self.bin)
            self.stuart = os.path.join(self.bin, "stuart")
        for need, lib in [("plugin", "debug/libvhplugin.so"), ("fault", "libvhfault.so"), ("clock", "libvhclock.so"),
                          ("bundled", "debug/libdemo.so"), ("bundled", "debug/libimgopt.so")]:
            if need in needs:
                self.aux = os.path.join(self.dir, "aux")
                os.makedirs(self.aux, exist_ok=True)
                shutil.copy(os.path.join(TARGET, lib), self.aux)
        self.n = 0

    def work(self):
        d = os.path.join(self.base, "w%d" % self.n)
        self.n += 1
        os.mkdir(d)
        os.chown(d, NOBODY, NOBODY)
        return d

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        shutil.rmtree(self.base, ignore_errors=True)


def run_env(work):
    return {
        "PATH": "/usr/local/bin:/usr/bin:/bin",
        "HOME": work,
        "TMPDIR": work,
        "TZ": "UTC",
        "LANG": "C.UTF-8",
        "GIT_CONFIG_NOSYSTEM": "1",
    }


def start(scratch, cmd, work, needs):
    args = [os.path.join(scratch.bin, "vh")] + cmd + ["--work", work]
    if scratch.stuart:
        args += ["--stuart", scratch.stuart]
    if scratch.aux:
        args += ["--aux", scratch.aux]
    if "netns" in needs:
        # The port of the development server is fixed, so every shard has a loopback of its own.
        args = [os.path.join(scratch.bin, "vh"), "netns", "--"] + args

    def limits():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        if "cli" not in needs:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
        os.umask(0o022)

    err = open(os.path.join(scratch.dir, os.path.basename(work) + ".err"), "wb")
    return subprocess.Popen(
        args, cwd=work, env=run_env(work), stdin=subprocess.DEVNULL, stdout=err, stderr=err, preexec_fn=limits
    )


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def tail(path, n=2000):
    try:
        with open(path, "rb") as f:
            return f.read()[-n:].decode("utf-8", "replace")
    except OSError:
        return ""


def replay_case(scratch, prop, case, needs, timeout=120):
    """Runs one case alone: (0 holds, 1 fails, other: signal or error), and its output."""
    work = scratch.work()
    f = os.path.join(work, "case.json")
    with open(f, "w") as fh:
        json.dump(case, fh)
    os.chmod(f, 0o644)
    p = start(scratch, ["replay", "--prop", prop, "--file", f], work, needs)
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        kill(p)
        return "timeout", tail(os.path.join(scratch.dir, os.path.basename(work) + ".err"))
    out = tail(os.path.join(scratch.dir, os.path.basename(work) + ".err"), 200000)
    kill_group(p)
    return p.returncode, out


def kill_group(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def out_of_memory(out):
    """Whether memory ran out for reasons which may be the sandbox's. A request for gigabytes at once is the builder's."""
    sizes = [int(x) for x in re.findall(r"memory allocation of (\d+) bytes", out)]
    return bool(sizes) and max(sizes) < 2 << 30


CRASH = (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE)


def known_findings(prop):
    out = []
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line[len("known: property=%s " % prop):]
                sig, what = rest.split(" ", 1)
                out.append((sig, what))
    return out


def save_replay(prop, failure):
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    text = json.dumps(failure, ensure_ascii=False, indent=1)
    name = "%s-%s.json" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        f.write(text)
    return path


def run(prop, tier, seed):
    check = CHECKS[prop]
    needs = check.get("needs", ())
    t0 = time.time()
    build(needs)
    built = time.time() - t0
    cases = check[tier]
    shards = check.get("shards", SHARDS)
    budget = 600 if tier == "quick" else 840
    evidence = os.path.join(ROOT, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(evidence), exist_ok=True)
    if os.path.exists(evidence):
        os.remove(evidence)
    scratch = Scratch(needs)
    error = None
    failures = []
    results = []
    crashes = []
    hangs = []
    try:
        procs = []
        for i in range(shards):
            work = scratch.work()
            out = os.path.join(work, "result.json")
            progress = os.path.join(work, "progress")
            cmd = ["run", "--prop", prop, "--seed", str(seed), "--shard", str(i), "--cases", str(cases),
                   "--tier", tier, "--out", out, "--progress", progress, "--max-secs", str(int(budget - built - 60))]
            procs.append({"p": start(scratch, cmd, work, needs), "out": out, "progress": progress, "shard": i,
                          "work": work, "at": None, "since": time.time(), "done": False})
        while not all(s["done"] for s in procs):
            time.sleep(0.1)
            now = time.time()
            for s in procs:
                if s["done"]:
                    continue
                rc = s["p"].poll()
                if rc is not None:
                    s["done"] = True
                    kill_group(s["p"])
                    log = tail(os.path.join(scratch.dir, os.path.basename(s["work"]) + ".err"))
                    if rc == 0:
                        with open(s["out"]) as f:
                            results.append(json.load(f))
                        if results[-1]["failure"]:
                            failures.append(results[-1]["failure"])
                    elif rc in CRASH:
                        crashes.append((s["shard"], read_progress(s["progress"]), rc, log))
                    else:
                        error = "shard %d ended with status %s: %s" % (s["shard"], rc, log)
                    continue
                at = read_progress(s["progress"])
                if at != s["at"]:
                    s["at"], s["since"] = at, now
                elif now - s["since"] > check.get("watchdog", 150):
                    kill(s["p"])
                    s["done"] = True
                    hangs.append((s["shard"], at))
            if time.time() - t0 > budget + 20:
                for s in procs:
                    if not s["done"]:
                        kill(s["p"])
                        s["done"] = True
                error = "out of time"
        # A process that died is evidence only if the case does it again on its own.
        for shard, index, rc, log in crashes:
            case = {"property": prop, "seed": seed, "shard": shard, "index": index}
            rc2, out = replay_case(scratch, prop, case, needs)
            if rc2 in CRASH and not out_of_memory(out):
                case.update(kind="crash", detail="the builder crashes the process (%s): %s" % (
                    signal.Signals(-rc2).name, out[-600:]))
                failures.append(case)
            else:
                error = "shard %d died with %s at case %s, which does not reproduce: %s" % (shard, rc, index, log)
        # So does one which does not end.
        for shard, index in hangs[:1] if not failures else []:
            case = {"property": prop, "seed": seed, "shard": shard, "index": index}
            rc2, out = replay_case(scratch, prop, case, needs, 150)
            if rc2 in ("timeout", 1):
                case.update(kind="hang", detail="the case does not end (replayed: %s): %s" % (rc2, out[-600:]))
                failures.append(case)
            else:
                error = "shard %d: case %s did not finish in time, which does not reproduce (%s)" % (shard, index, rc2)
    finally:
        scratch.remove()

    known = known_findings(prop)
    listed = []
    seen_known = {}
    for r in results:
        for k, n in r.get("known", {}).items():
            seen_known[k] = seen_known.get(k, 0) + n
    for f in list(failures):
        for sig, what in known:
            if f["kind"] == sig:
                failures.remove(f)
                listed.append((sig, what))
                break
    unlisted = [k for k in seen_known if k not in [s for s, _ in known]]
    for k in unlisted:
        failures.append({"property": prop, "kind": k, "detail": "reproduces, and is not listed as known"})

    hashes = set()
    classes = {}
    samples = []
    for r in results:
        hashes.update(r["hashes"].split())
        samples += r["samples"]
        for k, v in r["classes"].items():
            classes[k] = classes.get(k, 0) + v
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": len(hashes),
            "nontrivial": sum(r["nontrivial"] for r in results),
            "rule": check["rule"],
            "samples": samples[:6],
            "classes": dict(sorted(classes.items())),
            "shards": len(results),
            "requested": cases * shards,
            "known_findings_reproduced": seen_known,
        },
        "assumptions": check.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(failures),
    }
    with open(evidence, "w") as f:
        json.dump(ev, f, ensure_ascii=False, indent=1)
        f.write("\n")

    for sig, what in known:
        if sig in seen_known or any(s == sig for s, _ in listed):
            say("KNOWN-FINDING: property=%s %s %s" % (prop, sig, what))
    say("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)" % (
        prop, tier, seed, ev["coverage"]["evaluations"], len(hashes), ev["wall_s"], built))
    say("classes: " + ", ".join("%s %d" % kv for kv in sorted(classes.items(), key=lambda kv: -kv[1])))
    if failures:
        best = min(failures, key=lambda f: len(f.get("tape", [0] * 10**6)))
        best.setdefault("property", prop)
        best.setdefault("seed", seed)
        path = save_replay(prop, best)
        say("%s: %s" % (best["kind"], best["detail"][:3000]))
        say("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if error:
        die(error)
    sys.exit(0)


def read_progress(p):
    try:
        with open(p, "rb") as f:
            b = f.read(8)
            return int.from_bytes(b, "little") if len(b) == 8 else 0
    except OSError:
        return 0


def main():
    a = sys.argv[1:]
    if a == ["setup"]:
        build(("cli", "plugin", "fault", "clock"))
        say("built")
        return
    if len(a) < 2 or a[0] not in CHECKS:
        die("usage: check.py <property> quick|thorough | <property> replay <file> | setup", 64)
    prop = a[0]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a[1] == "replay":
        needs = CHECKS[prop].get("needs", ())
        build(needs)
        scratch = Scratch(needs)
        try:
            with open(a[2]) as f:
                case = json.load(f)
            rc, out = replay_case(scratch, prop, case, needs)
        finally:
            scratch.remove()
        say(out)
        say({0: "the property holds on this case", 1: "the property is broken on this case"}.get(rc, "status %s" % rc))
        sys.exit(rc if rc in (0, 1) else (1 if rc in CRASH else 2))
    if a[1] not in ("quick", "thorough"):
        die("unknown tier " + a[1], 64)
    run(prop, a[1], seed)


if __name__ == "__main__":
    main()
