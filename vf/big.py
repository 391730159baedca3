"""C27: images beyond 2^32 bytes, one process per case, within a memory budget."""
import os, re, threading
from .common import *
from . import crun

N = 49
LATER = {19, 20, 21, 22, 23}     # thorough only: minutes each
HEAVY = {12: 10, 18: 12, 23: 24, 20: 10, 21: 10, 43: 9}
BUDGET = 22


def c27(ck):
    crun_rule = ("Case i: one operation on an image of more than 2^32 bytes (or a result of that size); pixel data is a repeating pattern mapped many times, with deviating "
                 "pixels around the 2^31, 2^32 and 2^33 byte positions, the ends and random places; the result is compared with the model at and around each of them and at "
                 "sampled lines. Non-trivial: the result was compared (not refused for lack of memory).")
    ck._known_counts = {}
    ck._extra = {}
    ck.rule = crun_rule
    exe = build_harness("plain")
    env = crun.base_env(ck)
    rounds = 4 if THOROUGH else 1
    todo = [i + N * k for k in range(rounds) for i in range(N) if THOROUGH or i not in LATER]
    todo.sort(key=lambda i: -HEAVY.get(i % N, 5))
    cond = threading.Condition()
    state = dict(used=0, run=0)
    results = {}

    def job(i, w):
        sub = os.path.join(ck.scratch, "b%d" % i)
        os.makedirs(sub, exist_ok=True)
        out = os.path.join(ck.scratch, "big_%d" % i)
        e = dict(env, VF_SCRATCH=sub)
        try:
            res = crun.one(exe, e, 27, i, i + 1, 1, out, 3600 if THOROUGH else 600, 900 if THOROUGH else 400, SEED, wall=3600 if THOROUGH else 600)
            results[i] = (res, out)
        finally:
            with cond:
                state["used"] -= w
                state["run"] -= 1
                cond.notify_all()

    threads = []
    pending = list(todo)
    while pending:
        with cond:
            while True:
                k = next((k for k, i in enumerate(pending) if state["run"] == 0 or
                          (state["used"] + HEAVY.get(i % N, 5) <= BUDGET and state["run"] < JOBS)), None)
                if k is not None:
                    break
                cond.wait()
            i = pending.pop(k)
            w = HEAVY.get(i % N, 5)
            state["used"] += w
            state["run"] += 1
        t = threading.Thread(target=job, args=(i, w))
        t.start()
        threads.append(t)
    for t in threads:
        t.join()
    for i in sorted(results):
        (rc, err, rep, stt), out = results[i]
        if rep:
            crun.merge(ck, rep, out, "plain")
        if rc == 0:
            ck.nontrivial_more += 1 if rep and not rep["inconclusive"] else 0
            continue
        if rc == 1 and rep and rep.get("violation"):
            what = "%s | %s" % (rep["msg"], rep["case"])
        elif rc in (-9, -999):
            ck.notes.append("case %d was stopped by the system (%d): inconclusive" % (i, rc))
            continue
        elif rc == 78:
            what = "case %d does not end within the CPU time limit" % i
        else:
            what = "case %d: crash, exit status %d (signal %s)" % (i, rc, -rc if rc < 0 else "-")
        ck.violation(what, kind="harness", harness="main", build_variant="plain", prop=27, frm=i, idx=i, step=1, stderr=err[-2000:])
    ck.cov["cases_skipped_until_thorough"] = 0 if THOROUGH else len(LATER)
