#!/usr/bin/env python3
"""Decides one property of json-persistence by generated-input search.

usage: check.py ID                      VERIF_SEED and VERIF_TIER select the search
       check.py ID --replay FILE        runs a recorded case again
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, COMMON_ASSUMPTIONS  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
BUILD = os.path.join(HERE, "build")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known_findings.txt")
CXX = "clang++"
JOBS = 8

ASAN = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=32:hard_rss_limit_mb=2800:abort_on_error=0:handle_abort=1:detect_stack_use_after_return=0"
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=98"
TSAN = "exitcode=97:halt_on_error=1:second_deadlock_stack=1:history_size=4"


class HarnessError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_hash(root, suffixes=None):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if suffixes and not f.endswith(suffixes):
                continue
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode() + b"\0")
            with open(p, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def run_quiet(cmd, timeout=600):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return 124, out if isinstance(out, str) else out.decode(errors="replace")


class Builder:
    """compiles the harness of one property against the headers in /repo"""

    def __init__(self, pid, cfg, tier, seed):
        self.pid, self.cfg, self.tier, self.seed = pid, cfg, tier, seed
        self.thorough = tier == "thorough"
        self.notes = []
        self.inc = tree_hash(os.path.join(REPO, "include"))
        self.har = tree_hash(HARNESS)
        types = dict(seed=seed, seeded=cfg.get("seeded_thorough", cfg.get("seeded", 0) * 3) if self.thorough else cfg.get("seeded", 0), need=cfg["need"], any=cfg.get("any", []), all=cfg.get("all", []),
                     none=cfg.get("none", []), only=cfg.get("only", []), custom=cfg.get("custom", False), variants=cfg.get("variants", 0) * (3 if self.thorough else 1), units=8 if not self.thorough else 16)
        self.types = types
        san = cfg.get("san", "address")
        if self.thorough and san == "address":
            san = "address,undefined"
        base = ["-std=gnu++20", "-g1", "-fno-omit-frame-pointer"] + (["-fsanitize=" + san] if san else []) + ["-DPERSISTENCE_BOOST_DESCRIBE", "-fsanitize-ignorelist=" + os.path.join(HARNESS, "asan_ignore.txt"),
                "-I", os.path.join(REPO, "include"), "-I", HARNESS, "-w"] + cfg.get("flags", [])
        if "undefined" in san:
            base += ["-fno-sanitize-recover=all"]
        self.base = base
        self.reg_opt = (["-O1"] if self.thorough else [cfg.get("opt", "-O0")])
        self.link = (["-fsanitize=" + san] if san else [])
        self.key = sha(self.inc, self.har, json.dumps(types, sort_keys=True), " ".join(base), self.reg_opt, json.dumps(cfg.get("tus")))
        self.dir = os.path.join(BUILD, "%s-%s-%s" % (pid, tier, self.key))
        self.prog = os.path.join(self.dir, "prog")

    def compile(self, args, out):
        cmd = [CXX] + args + ["-o", out]
        rc, log = run_quiet(cmd, 800)
        if rc != 0:
            rc, log = run_quiet(cmd, 800)
        return rc, log, " ".join(cmd)

    def build(self):
        if os.path.exists(self.prog + ".ok"):
            return None
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        # keep few old builds
        old = sorted(glob.glob(os.path.join(BUILD, self.pid + "-*")), key=os.path.getmtime)
        for d in old[:-1]:
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(self.dir)
        gen = os.path.join(self.dir, "gen")
        os.makedirs(gen)
        types = dict(self.types, out=gen)
        rc, log = run_quiet([sys.executable, os.path.join(HARNESS, "gen_types.py"), json.dumps(types)])
        if rc != 0:
            raise HarnessError("gen_types failed: " + log)
        cfg = self.cfg
        reg = sorted(glob.glob(gen + "/reg_*.cpp"))
        pch = os.path.join(self.dir, "types.pch")
        objs, failed = [], []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fut = {}
            use_pch = bool(reg) or cfg.get("probe")
            regflags = self.base + self.reg_opt + ["-I", gen]
            if use_pch:
                fut_pch = ex.submit(self.compile, regflags + ["-x", "c++-header", os.path.join(gen, "types.hpp"), "-fpch-instantiate-templates"], pch)
            for t in cfg["tus"]:
                name, _, opt = t.partition(":")
                src = os.path.join(HARNESS, name + ".cpp")
                obj = os.path.join(self.dir, name + ".o")
                flags = self.base + (["-O0"] if opt == "O0" else ["-O1"])
                if opt == "stub":
                    flags = flags + ["-DFALLBACK"]
                fut[ex.submit(self.tu, flags, src, obj)] = (src, obj)
            if use_pch:
                rc, log, cmd = fut_pch.result()
                if rc != 0:
                    for f in fut:
                        f.cancel()
                    return self.compile_failure(log, cmd)
                extra = [os.path.join(HARNESS, p + ".cpp") for p in cfg.get("probe", [])]
                for src in reg + extra:
                    obj = os.path.join(self.dir, os.path.basename(src)[:-4] + ".o")
                    fut[ex.submit(self.tu, regflags + ["-include-pch", pch], src, obj)] = (src, obj)
            for f in cf.as_completed(fut):
                rc, log, cmd = f.result()
                if rc != 0:
                    failed.append((fut[f][0], log, cmd))
                objs.append(fut[f][1])
        if failed:
            return self.compile_failure(failed[0][1], failed[0][2])
        rc, log, cmd = self.compile(self.link + ["-pthread"] + sorted(objs), self.prog)
        if rc != 0:
            raise HarnessError("link failed: " + log[-3000:])
        for f in objs + [pch]:
            if os.path.exists(f):
                os.unlink(f)
        open(self.prog + ".ok", "w").close()
        return None

    def tu(self, flags, src, obj):
        rc, log, cmd = self.compile(flags + ["-c", src], obj)
        if rc != 0 and "error:" in log and os.path.basename(src) in ("int_num.cpp", "int_hash.cpp", "int_stack.cpp", "direct.cpp") and "-DFALLBACK" not in flags:
            # internal facilities may be reorganized freely; what they do is then observed through the public interface alone
            self.notes.append("%s: internal interface differs, observed through the public interface only" % os.path.basename(src))
            rc, log, cmd = self.compile(flags + ["-DFALLBACK", "-c", src], obj)
        return rc, log, cmd

    def compile_failure(self, log, cmd):
        """the library does not compile for a supported use, although the headers are fine as such"""
        canary = os.path.join(self.dir, "canary.cpp")
        with open(canary, "w", encoding="utf-8", errors="replace") as f:
            f.write("#include <persistence/persistence.hpp>\n#include <persistence/utility.hpp>\nint main() { int i = 0; return persistence::parse(persistence::write_to_string(i), i) ? 0 : 1; }\n")
        rc, clog, _ = self.compile([f for f in self.base] + ["-O0", canary], os.path.join(self.dir, "canary"))
        if "error:" not in log or rc != 0:
            raise HarnessError("cannot compile: " + cmd + "\n" + (clog if rc else log)[-4000:])
        return "the library does not compile for a supported type\n" + cmd + "\n" + log[:6000]


def read_state(path):
    try:
        with open(path, "rb") as f:
            head = f.read(40)
            magic, phase, case_index, evaluations, count = struct.unpack("<5Q", head)
            data = f.read(8 * min(count, 1 << 18))
        return phase, case_index, evaluations, list(struct.unpack("<%dQ" % (len(data) // 8), data))
    except Exception:
        return 0, 0, 0, []


class Checker:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cfg = PROPS[pid]
        self.start = time.time()
        self.b = Builder(pid, self.cfg, tier, seed)
        self.env = dict(os.environ, ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, TSAN_OPTIONS=TSAN, TZ="AAA-3:17BBB,M3.2.0,M11.1.0", LC_ALL="C")   # dates and times do not depend on the local time zone
        self.notes = []
        self.violations = 0
        self.limit = 20 if tier == "thorough" else 10
        self.tsan = "thread" in self.cfg.get("san", "address")
        self.replay_tries = 12 if self.tsan else 3

    # -------- processes
    def replay(self, choices, limit=None, timeout=200):
        """(failed, output)"""
        work = os.path.join(self.b.dir, "replay")
        os.makedirs(work, exist_ok=True)
        tag = "%d-%d" % (os.getpid(), time.monotonic_ns())
        p = os.path.join(work, tag + ".txt")
        with open(p, "w", encoding="utf-8", errors="replace") as f:
            f.write("".join("%d\n" % c for c in choices))
        st = os.path.join(work, tag + ".bin")
        try:
            r = subprocess.run([self.b.prog, "replay", self.pid, p, st, str(limit or self.limit)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env, timeout=timeout, errors="replace", cwd=work)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            return 124, "no result within %d s" % timeout
        finally:
            for f in (p, st):
                if os.path.exists(f):
                    os.unlink(f)

    def worker_cmd(self, seed, worker, seconds, out, st, rng=()):
        return [self.b.prog, "run", self.pid, str(seed), str(worker), str(seconds), out, st, str(self.limit)] + [str(x) for x in rng]

    def launch(self, seed, worker, seconds, work, rng=()):
        out = os.path.join(work, "w%d.json" % worker)
        st = os.path.join(work, "w%d.bin" % worker)
        for f in glob.glob(out + "*"):
            os.unlink(f)
        if os.path.exists(st):
            os.unlink(st)
        err = open(out + ".err", "wb")
        p = subprocess.Popen(self.worker_cmd(seed, worker, seconds, out, st, rng), stdout=err, stderr=subprocess.STDOUT, env=self.env, cwd=work)
        err.close()
        return p, out, st

    # -------- outcome
    def write_replay(self, why, text, choices=None, extra=None):
        d = os.path.join(BUILD, "replays")
        os.makedirs(d, exist_ok=True)
        body = ["# property %s, tier %s, seed %d" % (self.pid, self.tier, self.seed), "# run again: python3 check.py %s --replay FILE (with VERIF_SEED=%d VERIF_TIER=%s)" % (self.pid, self.seed, self.tier)]
        for label, t in (("case", text), ("why", why)):
            body += ["# %s: %s" % (label, line) for line in (t or "").splitlines()[:60]]
        if extra:
            body.append("# range " + " ".join(str(x) for x in extra))
        body += [str(c) for c in choices or []]
        p = os.path.join(d, "%s-%s.txt" % (self.pid, sha("\n".join(body))[:10]))
        with open(p, "w", encoding="utf-8", errors="replace") as f:
            f.write("\n".join(body) + "\n")
        return p

    def violation(self, why, text, choices=None, extra=None):
        p = self.write_replay(why, text, choices, extra)
        self.violations += 1
        print("case: " + (text or "")[:3000])
        print("why: " + (why or "")[:3000])
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        sys.stdout.flush()

    def crash_shrink(self, choices, budget):
        """shrinks a case that ends its process, one process per attempt"""
        stop = time.time() + budget
        best = list(choices)

        def bad(c):
            return self.replay(c)[0] not in (0, 3)
        while best and best[-1] == 0:
            best.pop()
        size = max(1, len(best) // 2)
        while size >= 1 and time.time() < stop:
            cands = []
            for i in range(0, len(best), size):
                cands.append(best[:i] + best[i + size:])
            done = False
            for k in range(0, len(cands), JOBS):
                if time.time() > stop:
                    break
                with cf.ThreadPoolExecutor(JOBS) as ex:
                    res = list(ex.map(bad, cands[k:k + JOBS]))
                for c, r in zip(cands[k:k + JOBS], res):
                    if r:
                        best = c
                        done = True
                        break
                if done:
                    break
            if not done:
                size //= 2
        return best

    def describe_exit(self, rc, out):
        m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|WARNING: ThreadSanitizer[^\n]*|HANG:[^\n]*|FAILED:[^\n]*|terminate called[^\n]*)", out)
        frames = "\n".join(re.findall(r"\n\s*#\d+ [^\n]*", out)[:14])
        return "%s (exit status %d)\n%s" % (m.group(1) if m else "process ended abnormally", rc, frames)

    def confirm(self, choices, tries=None):
        """number of failing replays in fresh processes and the last output"""
        bad, last, lastrc = 0, "", 0
        for _ in range(tries or self.replay_tries):
            rc, out = self.replay(choices, limit=self.limit * 6, timeout=self.limit * 12 + 120)
            if rc in (3,):
                continue
            if rc != 0:
                bad += 1
                last, lastrc = out, rc
                if self.tsan:
                    break
        return bad, lastrc, last

    def handle(self, failures):
        """failures: list of (kind, worker, seed, out, state, rc). Returns True if a violation was established."""
        unconfirmed = []
        for kind, worker, seed, out, st, rc in failures:
            err = ""
            if os.path.exists(out + ".err"):
                err = open(out + ".err", encoding="utf-8", errors="replace").read()[-20000:]
            if kind == "fail":
                cand = [p for p in (out + ".fail", out + ".orig") if os.path.exists(p)]
                why = open(out + ".hist", encoding="utf-8", errors="replace").read().split("\n", 1)[1] if os.path.exists(out + ".hist") else ""
                for p in cand:
                    choices = [int(x) for x in open(p, encoding="utf-8", errors="replace").read().split()]
                    bad, lrc, last = self.confirm(choices)
                    if bad >= (1 if self.tsan else 2):
                        text = (re.search(r"CASE: (.*)", last) or [None, ""])[1]
                        f = re.search(r"FAILED: (.*)", last)
                        self.violation(f.group(1) if f else self.describe_exit(lrc, last), text, choices)
                        return True
                # depends on what came before in the process
                if os.path.exists(out + ".hist"):
                    w, lo, hi = (int(x) for x in open(out + ".hist", encoding="utf-8", errors="replace").read().split("\n", 1)[0].split())
                    if self.rerun(seed, w, lo, hi):
                        self.violation(why + "\n(only after the preceding cases of the same process)", "cases %d to %d of worker %d" % (lo, hi, w), [], (seed, w, lo, hi))
                        return True
                unconfirmed.append(why)
                continue
            phase, index, evals, choices = read_state(st)
            if phase == 1 or choices:
                bad, lrc, last = self.confirm(choices)
                if bad >= (1 if self.tsan else 2):
                    if kind != "hang" and not self.tsan:
                        choices = self.crash_shrink(choices, 40)
                        lrc, last = self.replay(choices, limit=self.limit * 6)
                    text = (re.search(r"CASE: (.*)", last) or [None, ""])[1]
                    self.violation(self.describe_exit(lrc, last), text, choices)
                    return True
                if kind != "hang" and self.rerun(seed, worker, 0, index):
                    self.violation(self.describe_exit(rc, err) + "\n(only after the preceding cases of the same process)", "cases 0 to %d of worker %d" % (index, worker), [], (seed, worker, 0, index))
                    return True
            unconfirmed.append(self.describe_exit(rc, err))
        if self.tsan:
            races = [u for u in unconfirmed if "ThreadSanitizer: data race" in u]
            if races:
                # a report of the race detector is evidence in itself: it never depends on timing alone
                self.violation(races[0] + "\n(observed in %d processes)" % len(races), "see the report", [])
                return True
        real = [u for u in unconfirmed if u and "exit status -9" not in u]
        if len(real) >= 2:
            self.violation(real[0] + "\n(observed by %d of %d searches, not with single cases)" % (len(real), len(failures)), "see the report", [])
            return True
        for u in unconfirmed:
            self.notes.append("one search ended without a reproducible cause: " + u[:300])
        return False

    def rerun(self, seed, w, lo, hi):
        work = os.path.join(self.b.dir, "rerun")
        os.makedirs(work, exist_ok=True)
        p, out, st = self.launch(seed, w, 240, work, (lo, hi + 1))
        try:
            p.wait(300)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return False
        return p.returncode not in (0, 3, -9)

    # -------- known findings
    def probes(self):
        if not self.cfg.get("probe"):
            return True
        listed = {}
        for line in open(FINDINGS, encoding="utf-8", errors="replace"):
            m = re.match(r"finding: property=(\S+) probe=(\S+) (.*)", line.strip())
            if m:
                listed[(m.group(1), m.group(2))] = m.group(3)
        r = subprocess.run([self.b.prog, "probe", self.pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env, timeout=120, errors="replace", cwd=self.b.dir)
        seen = re.findall(r"PROBE (\S+) (held|failed)(.*)", r.stdout)
        if r.returncode != 0:
            self.violation("the recorded inputs end the process: " + self.describe_exit(r.returncode, r.stdout), r.stdout[:2000])
            return False
        self.probe_results = []
        ok = True
        for name, verdict, why in seen:
            self.probe_results.append("%s: %s" % (name, verdict))
            if verdict == "held":
                continue
            if (self.pid, name) in listed:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, listed[(self.pid, name)]))
            else:
                self.violation("recorded input %s:%s" % (name, why), name)
                ok = False
        return ok

    # -------- the search
    def search(self, seconds):
        work = os.path.join(self.b.dir, "work")
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        slices = self.cfg.get("slices", {}).get(self.tier, 1)
        jobs = self.cfg.get("workers", JOBS)
        results, failures = [], []
        per = seconds / slices
        for sl in range(slices):
            procs = []
            for w in range(jobs):
                wid = sl * jobs + w
                procs.append((wid,) + self.launch(self.seed, wid, per, work))
            deadline = time.time() + per + 150
            for wid, p, out, st in procs:
                try:
                    p.wait(max(1, deadline - time.time()))
                    rc = p.returncode
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = 78
                if rc in (0, 1) and os.path.exists(out):
                    try:
                        results.append(json.load(open(out, encoding="utf-8", errors="replace")))
                    except ValueError:
                        rc = rc or 2
                if rc == 3:
                    raise HarnessError("harness: " + open(out + ".err", encoding="utf-8", errors="replace").read()[-2000:])
                if rc == 1:
                    failures.append(("fail", wid, self.seed, out, st, rc))
                elif rc == 78:
                    failures.append(("hang", wid, self.seed, out, st, rc))
                elif rc != 0:
                    failures.append(("crash", wid, self.seed, out, st, rc))
                if rc not in (0, 1):
                    ev = read_state(st)[2]
                    results.append(dict(evaluations=ev, nontrivial=0, distinct_nontrivial=0, labels={}, samples=[], extra={}, rule=""))
            if failures:
                break
        return results, failures

    def evidence(self, results, wall):
        cov = dict(evaluations=0, nontrivial=0, distinct_nontrivial=0)
        labels, samples, rule, extra = {}, [], "", {}
        for r in results:
            for k in cov:
                cov[k] += r.get(k, 0)
            for k, v in r.get("labels", {}).items():
                labels[k] = labels.get(k, 0) + v
            samples += r.get("samples", [])[:1]
            rule = r.get("rule") or rule
            for k, v in (r.get("extra") or {}).items():
                if isinstance(v, (int, float)):
                    extra[k] = extra.get(k, 0) + v
        cov["distinct_nontrivial"] = min(cov["distinct_nontrivial"], cov["evaluations"])
        cov["rule"] = self.cfg["cases"] + " Non-trivial: " + (rule or self.cfg.get("rule", "")) + ". Distinct is counted within each of the parallel searches, which have disjoint random streams."
        cov["samples"] = samples[:8]
        cov["labels"] = dict(sorted(labels.items(), key=lambda x: -x[1])[:150])
        cov["oracle"] = self.cfg["oracle"]
        if extra:
            cov["measured"] = extra
        cov["types_generated"] = self.b.types["seeded"]
        if getattr(self, "probe_results", None):
            cov["recorded_inputs"] = self.probe_results
        if self.notes or self.b.notes:
            cov["notes"] = self.notes + self.b.notes
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="exploration", coverage=cov, assumptions=COMMON_ASSUMPTIONS + self.cfg.get("assumptions", []), wall_s=round(wall, 1), violations=self.violations)
        os.makedirs(EVIDENCE, exist_ok=True)
        tmp = os.path.join(EVIDENCE, self.pid + ".json.tmp")
        with open(tmp, "w", encoding="utf-8", errors="replace") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(EVIDENCE, self.pid + ".json"))

    def finish(self, results):
        self.evidence(results, time.time() - self.start)
        return 1 if self.violations else 0

    def build(self):
        bad = self.b.build()
        if bad:
            self.violation(bad, "compilation of the harness")
            return False
        # the program has to start
        try:
            r = subprocess.run([self.b.prog, "list"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env, timeout=120, errors="replace")
            rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired:
            rc, out = 78, "HANG: the program does not start within 120 s"
        if rc != 0:
            self.violation("a program that only names the types under test does not start: " + self.describe_exit(rc, out), "start of the program")
            return False
        return True

    def main(self):
        if not self.build():
            return self.finish([])
        if not self.probes():
            return self.finish([])
        seconds = float(os.environ.get("VERIF_SECONDS") or self.cfg["seconds"][self.tier])
        results, failures = self.search(seconds)
        if failures and not self.handle(failures):
            # an unexplained end: search once more with other random choices
            first = results
            self.seed += 7919
            results, failures = self.search(seconds)
            self.seed -= 7919
            results += first
            if failures:
                self.handle(failures)
        if not self.violations and not any(r["distinct_nontrivial"] for r in results):
            raise HarnessError("no non-trivial case was generated: " + "; ".join(self.notes))
        return self.finish(results)

    def main_replay(self, path):
        if not self.build():
            return 1
        lines = open(path, encoding="utf-8", errors="replace").read().splitlines()
        for line in lines:
            m = re.match(r"# range (\d+) (\d+) (\d+) (\d+)", line)
            if m:
                bad = self.rerun(*(int(x) for x in m.groups()))
                print("FAILED" if bad else "HELD")
                return 1 if bad else 0
        choices = [int(x) for x in lines if x and not x.startswith("#")]
        rc, out = self.replay(choices, limit=60)
        print(out[-6000:])
        return 0 if rc == 0 else 1


def main():
    sys.stdout.reconfigure(encoding="utf-8", errors="replace")
    pid = sys.argv[1]
    if pid == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        rc, log = run_quiet([CXX, "--version"])
        print(log.splitlines()[0] if rc == 0 and log else "no compiler")
        return 0 if rc == 0 else 2
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or 1)
    except ValueError:
        seed = int(sha(os.environ["VERIF_SEED"])[:8], 16)
    seed = abs(seed) % (1 << 31)
    os.makedirs(BUILD, exist_ok=True)
    c = Checker(pid, tier, seed)
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return c.main_replay(sys.argv[3])
        return c.main()
    except HarnessError as e:
        print("error of the check: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
