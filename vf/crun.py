"""Runs the C harness: seeded random workers and coverage-guided workers."""
import glob, json, mmap, os, re, signal, struct, subprocess, time
from concurrent.futures import ThreadPoolExecutor
from .common import *


def read_status(p):
    try:
        with open(p, "rb") as f:
            return struct.unpack("<QQQ", f.read(24))
    except Exception:
        return (0, 0, 0)


def read_report(p):
    try:
        with open(p) as f:
            return json.load(f)
    except Exception:
        return None


def one(exe, env, prop, frm, to, step, out, timelimit, cpu, seed, extra=(), wall=None):
    for f in (out, out + ".hash", out + ".st"):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, "--prop", str(prop), "--seed", str(seed), "--from", str(frm), "--to", str(to), "--step", str(step),
           "--out", out, "--status", out + ".st", "--time", str(timelimit), "--cpu", str(cpu)] + list(extra)
    try:
        r = subprocess.run(cmd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                           stderr=subprocess.PIPE, timeout=wall or timelimit + 4 * cpu + 120)
        return r.returncode, r.stderr.decode("utf8", "replace")[-6000:], read_report(out), read_status(out + ".st")
    except subprocess.TimeoutExpired:
        return -999, "wall clock limit", read_report(out), read_status(out + ".st")


def merge(ck, rep, out, variant):
    if not rep:
        return
    ck.evals += rep["evals"]
    ck.add("cases_" + variant, rep["cases"])
    if rep["inconclusive"]:
        ck.add("inconclusive", rep["inconclusive"])
    per = ck.cov.setdefault("calls_per_operation", {})
    for k, (a, b) in rep["per"].items():
        x = per.setdefault(k, [0, 0])
        x[0] += a
        x[1] += b
    for i, k in enumerate(rep["known"]):
        if k:
            ck._known_counts[i] = ck._known_counts.get(i, 0) + k
    ex = ck._extra
    for i, k in enumerate(rep["extra"]):
        ex[i] = max(ex.get(i, 0), k) if i == 6 else ex.get(i, 0) + k
    for s in rep["samples"]:
        ck.sample(s)
    if rep["edges"]:
        ck.cov["library_edges"] = rep["edges"]
        ck.cov["library_edges_hit_per_worker_max"] = max(ck.cov.get("library_edges_hit_per_worker_max", 0), rep["edges_hit"])
    try:
        with open(out + ".hash", "rb") as f:
            b = f.read()
        ck.nontrivial_hashes.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    except OSError:
        pass


def base_env(ck, thorough=THOROUGH):
    ex = {"VF_LITS": literal_file(ck.scratch), "VF_SCRATCH": ck.scratch}
    if thorough:
        ex["VF_THOROUGH"] = "1"
    return san_env(ex)


def rand_phase(ck, variant, prop, cases, timelimit=240, cpu=60, exe=None, which="main", label=None, large=False):
    """Seeded random cases 0..cases-1, interleaved over the workers."""
    exe = exe or build_harness(variant, which)
    env = base_env(ck)
    if large:
        env["VF_LARGE"] = "1"
    label = label or variant
    venv = dict(env, VF_VERBOSE="1")
    end = time.time() + timelimit

    def worker(k):
        frm = k
        out = os.path.join(ck.scratch, "%s_%d" % (label, k))
        res = []
        for attempt in range(6):
            left = max(5, end - time.time())
            sub = os.path.join(ck.scratch, "w_%s_%d" % (label, k))
            os.makedirs(sub, exist_ok=True)
            rc, err, rep, stt = one(exe, dict(env, VF_SCRATCH=sub), prop, frm, cases, JOBS, out, left, cpu, SEED)
            if rc == 0:
                merge(ck, rep, out, label)
                return res
            idx = stt[0]
            viol = rc == 1 and rep and rep.get("violation")
            if viol:
                merge(ck, rep, out, label)
            # once more, alone and then with its history
            for mode, f2 in (("alone", idx), ("with the cases before it", frm)):
                rc2, err2, rep2, stt2 = one(exe, dict(venv, VF_SCRATCH=sub), prop, f2, idx + 1, JOBS, out + ".re", 300, cpu * 3, SEED)
                if rc2 != 0:
                    break
            what = None
            if rc2 == 1 and rep2 and rep2.get("violation"):
                what = "%s | %s" % (rep2["msg"], rep2["case"])
            elif rc2 == 78:
                what = "does not end within %d s of CPU time" % (cpu * 3)
            elif rc2 in (-9, -999):
                ck.notes.append("case %d of %s was stopped by the system (%d); inconclusive" % (idx, label, rc2))
            elif rc2 != 0:
                m = re.findall(r"(?:runtime error:[^\n]*|ERROR: \w+Sanitizer[^\n]*|WARNING: \w+Sanitizer[^\n]*|SUMMARY[^\n]*)", err2)
                what = "%s (exit status %d) %s" % ("sanitizer report" if m else "crash", rc2, "; ".join(m[:4]))
            if what:
                res.append(dict(what=what, variant=label, case_index=idx, confirmed=mode, stderr=err2[-3500:],
                                replay_cmd=[exe, "--prop", str(prop), "--seed", str(SEED), "--from", str(f2), "--to", str(idx + 1), "--step", str(JOBS)],
                                kind="harness", harness=which, build_variant=variant, prop=prop, frm=f2, idx=idx, step=JOBS, large=large))
                return res
            if rc2 == 0:
                ck.notes.append("case %d of %s: %s did not repeat; inconclusive" % (idx, label, (rep or {}).get("msg") or "exit %d" % rc))
            frm = idx + JOBS
            if frm >= cases or time.time() > end:
                return res
        return res

    with ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(worker, range(JOBS)):
            for v in r:
                ck.violation(v.pop("what"), **v)


def fuzz_phase(ck, prop, runs, timelimit=60, variant="fuzzp", workers=JOBS):
    """libFuzzer workers over the same cases and oracles."""
    exe = build_harness(variant)
    env = base_env(ck)
    corpus = os.path.join(ck.scratch, "corpus")
    os.makedirs(corpus, exist_ok=True)
    seeds = os.path.join(ck.scratch, "seeds")
    os.makedirs(seeds, exist_ok=True)
    import random
    rnd = random.Random(SEED * 7919 + prop)
    for i in range(40):
        with open(os.path.join(seeds, "s%d" % i), "wb") as f:
            f.write(rnd.randbytes(rnd.choice([4, 8, 16, 32, 64, 128, 256])))

    def worker(k):
        out = os.path.join(ck.scratch, "fz%d" % k)
        art = os.path.join(ck.scratch, "art%d_" % k)
        sub = os.path.join(ck.scratch, "f_%d" % k)
        os.makedirs(sub, exist_ok=True)
        e = dict(env, VF_PROP=str(prop), VF_OUT=out, VF_SCRATCH=sub)
        cmd = [exe, "-runs=%d" % runs, "-max_total_time=%d" % timelimit, "-seed=%d" % (SEED * 131 + k + 1), "-max_len=400",
               "-len_control=0", "-use_value_profile=%d" % (k & 1), "-timeout=120", "-rss_limit_mb=6000", "-reload=0",
               "-artifact_prefix=" + art, "-print_final_stats=1", "-detect_leaks=0", corpus, seeds]
        r = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timelimit + 700)
        txt = r.stdout.decode("utf8", "replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", txt)
        n = int(m.group(1)) if m else 0
        c = re.findall(r"cov: (\d+) ft: (\d+)", txt)
        arts = [p for p in glob.glob(art + "*") if "slow-unit" not in p]
        res = None
        if arts and r.returncode != 0:
            p = arts[0]
            r2 = subprocess.run([exe, "-timeout=240", "-rss_limit_mb=8000", p], env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                stderr=subprocess.STDOUT, timeout=900)
            t2 = r2.stdout.decode("utf8", "replace")
            if r2.returncode != 0 and "out-of-memory" not in t2:
                with open(p, "rb") as f:
                    data = f.read()
                mm = re.search(r"VF-FAIL: (.*)\nVF-CASE: (.*)", t2)
                sm = re.findall(r"(?:runtime error:[^\n]*|ERROR: \w+[^\n]*|SUMMARY[^\n]*)", t2)
                res = dict(what=(mm.group(1) + " | " + mm.group(2)) if mm else "; ".join(sm[:4]) or "crash", input_hex=data.hex(), kind="fuzz",
                           build_variant=variant, prop=prop, output=t2[-3500:])
            else:
                ck.notes.append("a guided case did not repeat: inconclusive")
        return n, c[-1] if c else None, res

    with ThreadPoolExecutor(workers) as ex:
        for n, c, res in ex.map(worker, range(workers)):
            ck.add("guided_executions", n)
            ck.evals += n
            if c:
                ck.cov["guided_coverage_edges_max"] = max(ck.cov.get("guided_coverage_edges_max", 0), int(c[0]))
                ck.cov["guided_features_max"] = max(ck.cov.get("guided_features_max", 0), int(c[1]))
            if res:
                ck.violation(res.pop("what"), **res)
    ck.cov["guided_corpus"] = len(os.listdir(corpus))
    for p in glob.glob(os.path.join(ck.scratch, "fz*.*")):
        rep = read_report(p)
        if rep:
            ck.nontrivial_more += 0
