// C04: concurrent executions. One process runs a few rounds; in each round
// several threads run operations at the same time, first of all in the
// process (so that state set up on first use is set up concurrently), and
// every result is compared with the one of the same call run alone.
#include "h.h"
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#include <sched.h>
#include <atomic>
extern thread_local u64 vf_jitter_state;
bool op_present(int op);
bool case_c27(Src &, u64) { return true; }

static const int MAXT = 8;
struct Job {
  int tid;
  Call c;
  int reps;
  u8 *shared;
  u64 jit;
  std::vector<Result> res;
  std::atomic<int> *go;
  int n;
};
static std::atomic<u64> overlap_max{0}, running{0};

static void *work(void *a) {
  Job *j = (Job *)a;
  vf_tid = j->tid;
  vf_jitter_state = j->jit;
  j->go->fetch_add(1);
  while (j->go->load() < j->n) sched_yield();
  for (int i = 0; i < j->reps; i++) {
    u64 k = running.fetch_add(1, std::memory_order_relaxed) + 1;
    if (k > overlap_max.load(std::memory_order_relaxed)) overlap_max.store(k, std::memory_order_relaxed);
    Result r;
    ExecOpt o;
    o.shared = j->shared;
    exec_call(j->c, r, o);
    running.fetch_sub(1, std::memory_order_relaxed);
    j->res.push_back(r);
  }
  return nullptr;
}
static bool det(int op) { return op == DETECT || op == DETECTP || op == EXTRACT || op == EXTRACTA; }
static int pick(Src &s, int rare) {
  for (;;) {
    int op = (int)s.below(NOPS);
    if (!op_present(op) || (det(op) && !s.chance(rare))) continue;
    return op;
  }
}
static u32 chan_of(const Call &c) { return c.ch; }

int main(int argc, char **argv) {
  u64 seed = 1, idx = 0;
  int rounds = 4;
  const char *out = nullptr;
  init_harness();
  g_track = false;
  for (int i = 1; i + 1 < argc; i += 2) {
    if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[i + 1], 0, 10);
    if (!strcmp(argv[i], "--idx")) idx = strtoull(argv[i + 1], 0, 10);
    if (!strcmp(argv[i], "--rounds")) rounds = atoi(argv[i + 1]);
    if (!strcmp(argv[i], "--out")) out = argv[i + 1];
  }
  u64 evals = 0, nontriv = 0, shared_reads = 0, waves = 0;
  std::vector<u64> hashes;
  char desc[3000] = "", msg[3000] = "";
  bool bad = false;
  u64 per[NOPS] = {0}, okc[NOPS] = {0};
  for (int rd = 0; rd < rounds && !bad; rd++) {
    Src s;
    s.r = Rng(mix64(seed * 7777777 + 4) ^ mix64(idx * 1000 + (u64)rd));
    int n = 2 + (int)s.below(5);
    int mode = rd == 0 ? (int)((idx / NOPS) & 1) : (int)s.below(4);
    // 0: one operation, own images; 1: one operation, one shared image; 2: mixed, own; 3: mixed readers of one image
    int op0 = rd == 0 ? (int)(idx % NOPS) : pick(s, 2);
    if (!op_present(op0)) op0 = GRAY;
    bool any = s.chance(25);
    Call base;
    static Job jobs[MAXT];
    static Result alone[MAXT];
    std::atomic<int> go{0};
    Bytes img;
    for (int t = 0; t < n; t++) {
      Job &j = jobs[t];
      j.tid = t + 1;
      j.res.clear();
      j.shared = nullptr;
      int op = mode < 2 ? op0 : pick(s, 2);
      if (mode == 1 && t > 0 && !op_inplace(op0)) {
        j.c = base;
      } else if (mode == 3) {
        for (int tries = 0; tries < 50; tries++) {
          Call c;
          gen_call(op, s, c, false, 900);
          if (op_inplace(op) || op == EXIF || op == HEX || op == PERSP || op == SORT || (t > 0 && chan_of(c) != base.ch)) { op = pick(s, 1); continue; }
          if (t > 0) { // the same image, other parameters where they do not depend on the size
            c.w = base.w, c.h = base.h, c.in = base.in;
            if (op == CROP) c.q[0] = c.q[1] = 0, c.q[2] = 1 + (i64)s.below((u32)c.w), c.q[3] = 1 + (i64)s.below((u32)c.h);
            for (auto &p : c.pts) p.x = (double)s.below((u32)c.w), p.y = (double)s.below((u32)c.h);
          }
          j.c = c;
          break;
        }
        if (j.c.in.empty()) { n = t; break; }
      } else gen_call(op, s, j.c, any, det(op) ? 600 : s.chance(80) ? 900 : 5000);
      if (t == 0) base = j.c, img = base.in;
      if ((mode == 1 || mode == 3) && !op_inplace(j.c.op) && j.c.op != EXIF && img.size() == j.c.in.size()) {
        j.shared = img.data();
        shared_reads++;
      }
      j.reps = det(j.c.op) ? 1 : 2 + (int)s.below(5);
      j.jit = s.chance(80) ? s.bytes(8) | 1 : 0;
      j.go = &go;
    }
    if (n < 1) continue;
    for (int t = 0; t < n; t++) jobs[t].n = n;
    pthread_t th[MAXT];
    for (int t = 0; t < n; t++) pthread_create(&th[t], nullptr, work, &jobs[t]);
    for (int t = 0; t < n; t++) pthread_join(th[t], nullptr);
    waves++;
    vf_jitter_state = 0;
    for (int t = 0; t < n && !bad; t++) {
      exec_call(jobs[t].c, alone[t]);
      evals += jobs[t].res.size();
      per[jobs[t].c.op] += jobs[t].res.size();
      if (!alone[t].null) okc[jobs[t].c.op] += jobs[t].res.size();
      if (!alone[t].null && !jobs[t].c.in.empty()) nontriv++, hashes.push_back(call_hash(jobs[t].c) ^ mix64((u64)mode * 16 + (u64)n));
      for (auto &r : jobs[t].res)
        if (!r.same(alone[t])) {
          bad = true;
          describe(jobs[t].c, desc, sizeof desc);
          snprintf(msg, sizeof msg, "the result differs from the one of the call run alone (round %d, %d threads, mode %d)", rd, n, mode);
        }
    }
    if (!desc[0]) describe(jobs[0].c, desc, sizeof desc);
  }
  if (out) {
    FILE *f = fopen(out, "w");
    if (f) {
      auto js = [&](const char *p) { fputc('"', f); for (; *p; p++) { u8 ch = (u8)*p; if (ch == '"' || ch == '\\') fprintf(f, "\\%c", ch); else if (ch < 32 || ch > 126) fprintf(f, "\\u%04x", ch); else fputc(ch, f); } fputc('"', f); };
      fprintf(f, "{\"violation\":%s,\"waves\":%llu,\"overlap\":%llu,\"shared\":%llu,\"evals\":%llu,\"msg\":", bad ? "true" : "false", (unsigned long long)waves, (unsigned long long)overlap_max.load(), (unsigned long long)shared_reads, (unsigned long long)evals);
      js(msg);
      fprintf(f, ",\"case\":");
      js(desc);
      fprintf(f, ",\"per\":{");
      bool first = true;
      for (int i = 0; i < NOPS; i++)
        if (per[i]) fprintf(f, "%s\"%s\":[%llu,%llu]", first ? "" : ",", op_names[i], (unsigned long long)per[i], (unsigned long long)okc[i]), first = false;
      fprintf(f, "},\"hashes\":[");
      for (size_t i = 0; i < hashes.size(); i++) fprintf(f, "%s\"%llx\"", i ? "," : "", (unsigned long long)hashes[i]);
      fprintf(f, "]}\n");
      fclose(f);
    }
  }
  return bad ? 1 : 0;
}
