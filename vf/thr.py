"""C04: concurrent executions under ThreadSanitizer and without."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from .common import *
from . import crun


def phase(ck, variant, count, rounds, limit, first=0):
    exe = build_harness(variant, "thr")
    env = crun.base_env(ck)
    end = time.time() + limit

    def attempt(i):
        out = os.path.join(ck.scratch, "%s_%d" % (variant, i))
        sub = os.path.join(ck.scratch, "t%s%d" % (variant, i))
        os.makedirs(sub, exist_ok=True)
        try:
            r = subprocess.run([exe, "--seed", str(SEED), "--idx", str(i), "--rounds", str(rounds), "--out", out], env=dict(env, VF_SCRATCH=sub),
                               stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=400)
            rc, err = r.returncode, r.stderr.decode("utf8", "replace")
        except subprocess.TimeoutExpired:
            rc, err = -999, ""
        rep = crun.read_report(out)
        if os.path.exists(out):
            os.unlink(out)
        return rc, err, rep

    def one(i):
        if time.time() > end:
            return i, None
        return i, attempt(i)

    with ThreadPoolExecutor(JOBS) as ex:
        for i, res in ex.map(one, range(first, first + count)):
            if res is None:
                ck.add("skipped_for_time_" + variant, 1)
                continue
            rc, err, rep = res
            if rep:
                ck.evals += rep["evals"]
                ck.add("concurrent_waves_" + variant, rep["waves"])
                ck.add("calls_on_shared_images", rep["shared"])
                ck.cov["most_calls_in_flight"] = max(ck.cov.get("most_calls_in_flight", 0), rep["overlap"])
                per = ck.cov.setdefault("calls_per_operation", {})
                for k, (a, b) in rep["per"].items():
                    x = per.setdefault(k, [0, 0])
                    x[0] += a
                    x[1] += b
                ck.nontrivial_hashes.update(rep["hashes"])
                if i % 7 == 0:
                    ck.sample(rep["case"])
            ck.add("processes_" + variant, 1)
            if rc == 0:
                continue
            race = re.findall(r"WARNING: ThreadSanitizer: [^\n]*", err)
            if race:
                frames = re.findall(r"#\d+ (\S+) [^\n]*", err)
                what = "%s in %s" % (race[0], ", ".join(dict.fromkeys(frames[:12])))
                ck.violation(what, kind="thr", variant=variant, idx=i, rounds=rounds, stderr=err[:6000])
            elif rep and rep.get("violation"):
                ck.violation(rep["msg"] + " | " + rep["case"], kind="thr", variant=variant, idx=i, rounds=rounds)
            elif rc in (-9, -999):
                ck.notes.append("process %d of %s was stopped (%d): inconclusive" % (i, variant, rc))
            else:
                r2 = [attempt(i) for _ in range(3)]
                if any(x[0] not in (0, -9, -999) for x in r2):
                    ck.violation("crash (exit status %d) in concurrent calls" % rc, kind="thr", variant=variant, idx=i, rounds=rounds, stderr=err[-4000:])
                else:
                    ck.notes.append("process %d of %s ended with %d once: inconclusive" % (i, variant, rc))


def c04(ck):
    ck.rule = ("Process i: rounds of 2 to 6 threads started by a barrier; in round 1 all threads run operation i mod 44 for the first time in the process (own images or one "
               "shared image), later rounds mix operations; delays are injected at allocation and file calls; each result is compared with the call run alone afterwards. "
               "Non-trivial: the call returned a result; distinct by arguments, pixels, mode and number of threads.")
    phase(ck, "tsan", 3600 if THOROUGH else 176, 3, 3000 if THOROUGH else 240)
    if not ck.viol:
        phase(ck, "thrplain", 8000 if THOROUGH else 352, 12, 2000 if THOROUGH else 120, first=100000)
