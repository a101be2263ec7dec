// A small OpenMP runtime (GOMP ABI) on top of std::thread / std::mutex, linked in front of libgomp.
//  * every synchronisation is visible to ThreadSanitizer, so that it reports exactly the unsynchronised accesses of the code;
//  * schedules are seeded: task order, loop chunks and delays are drawn from VT_SCHED_SEED.
#include <atomic>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <chrono>

namespace {
struct Task {
  void (*fn)(void*);
  std::vector<char> storage;
  void* data = nullptr;
  Task* parent = nullptr;
  int children = 0;   // unfinished
  bool group = false;
  Task* in_group = nullptr;
  int group_pending = 0;
};
struct Loop {
  long next = 0, end = 0, incr = 1, chunk = 1;
  bool inited = false;
  int mode = 0;  // 0 dynamic, 1 guided, 2 static
  int left = 0;
  long ordered_next = 0;
};
struct Team {
  int n = 1;
  std::mutex m;
  std::condition_variable cv;
  int arrived = 0;
  unsigned gen = 0;
  std::list<Task*> queue;
  int pending = 0;  // queued or running tasks
  std::map<long, Loop> loops;
  std::map<long, int> singles;
  std::map<long, void*> copies;
  uint64_t rng;
};
struct Tls {
  Team* team = nullptr;
  int id = 0;
  Task* task = nullptr;
  long ws = 0;   // workshare counter
  Loop* loop = nullptr;
  long static_pos = -1;
  int level = 0;
};
thread_local Tls tls;
std::mutex g_crit, g_atomic, g_names;
std::map<void*, std::unique_ptr<std::mutex>> g_named;
std::atomic<uint64_t> g_teams{0};
int g_max_threads = 4;
uint64_t seed() {
  static uint64_t s = getenv("VT_SCHED_SEED") ? strtoull(getenv("VT_SCHED_SEED"), nullptr, 10) : 1;
  return s;
}
uint64_t mix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
thread_local uint64_t t_rng = 0;
void jitter() {
  if (!t_rng) t_rng = seed() * 7919 + 13 * (tls.id + 1) + g_teams.load(std::memory_order_relaxed) * 104729 + 1;
  switch (mix(t_rng) % 8) {
    case 0: std::this_thread::yield(); break;
    case 1: usleep(mix(t_rng) % 60); break;
    default: break;
  }
}
Task* root_task() { return new Task(); }
Task* current() {
  if (!tls.task) tls.task = root_task();
  return tls.task;
}
void run_task(Task* t) {
  Task* saved = tls.task;
  tls.task = t;
  jitter();
  t->fn(t->data);
  tls.task = saved;
}
void finish_task(Team* team, Task* t) {
  std::lock_guard<std::mutex> lk(team->m);
  team->pending--;
  if (t->parent) t->parent->children--;
  for (Task* g = t->in_group; g;) { g->group_pending--; break; }
  team->cv.notify_all();
  // Task memory is kept until the team ends if it still has children (they point to it).
}
// pick a random eligible task; called with the lock held
template <typename Pred>
Task* pick(Team* team, Pred p) {
  std::vector<std::list<Task*>::iterator> ok;
  for (auto i = team->queue.begin(); i != team->queue.end(); ++i) if (p(*i)) ok.push_back(i);
  if (ok.empty()) return nullptr;
  auto i = ok[mix(team->rng) % ok.size()];
  Task* t = *i;
  team->queue.erase(i);
  return t;
}
void barrier(Team* team) {
  std::unique_lock<std::mutex> lk(team->m);
  const unsigned g = team->gen;
  team->arrived++;
  for (;;) {
    if (team->gen != g) return;
    if (Task* t = pick(team, [](Task*) { return true; })) {
      lk.unlock();
      run_task(t);
      finish_task(team, t);
      lk.lock();
      continue;
    }
    if (team->arrived == team->n && team->pending == 0) {
      team->arrived = 0;
      team->gen++;
      team->cv.notify_all();
      return;
    }
    team->cv.wait(lk);
  }
}
int resolve(unsigned n) {
  if (n == 0) n = g_max_threads;
  return n;
}
void run_team(void (*fn)(void*), void* data, int n, void (*init)(Team*, void*) = nullptr, void* arg = nullptr) {
  Team team;
  static const int limit = getenv("OMP_THREAD_LIMIT") ? atoi(getenv("OMP_THREAD_LIMIT")) : 1 << 20;
  team.n = tls.level >= 1 ? 1 : std::min(n, limit);  // nested parallelism is serialised, as by default in OpenMP
  g_teams++;
  team.rng = seed() * 1000003 + g_teams.load() * 31;
  if (init) init(&team, arg);
  Tls saved = tls;
  auto body = [&](int id) {
    Tls mine;
    mine.team = &team;
    mine.id = id;
    mine.level = saved.level + 1;
    Task root;
    mine.task = &root;
    tls = mine;
    jitter();
    fn(data);
    barrier(&team);
  };
  std::vector<std::thread> th;
  for (int i = 1; i < team.n; i++) th.emplace_back(body, i);
  body(0);
  for (auto& t : th) t.join();
  tls = saved;
}
bool loop_next(long* s, long* e) {
  Team* team = tls.team;
  Loop* l = tls.loop;
  jitter();
  std::lock_guard<std::mutex> lk(team->m);
  const long total = l->incr > 0 ? (l->end - l->next + l->incr - 1) / l->incr : (l->next - l->end - l->incr - 1) / -l->incr;
  if (total <= 0) return false;
  long c = l->chunk > 0 ? l->chunk : 1;
  if (l->mode == 1) c = std::max<long>(c, 1 + static_cast<long>(mix(team->rng) % (1 + total / team->n)));
  c = std::min(c, total);
  *s = l->next;
  l->next += c * l->incr;
  *e = l->next;
  return true;
}
bool loop_start(long start, long end, long incr, long chunk, int mode, long* s, long* e) {
  static Team solo;
  if (!tls.team) { solo.n = 1; tls.team = &solo; }
  Team* team = tls.team;
  {
    std::lock_guard<std::mutex> lk(team->m);
    Loop& l = team->loops[tls.ws++];
    if (!l.inited) { l.inited = true; l.next = start; l.end = end; l.incr = incr; l.chunk = chunk; l.mode = mode; }
    tls.loop = &l;
  }
  return s ? loop_next(s, e) : true;
}
struct LoopInit { long start, end, incr, chunk; int mode; };
void init_loop(Team* t, void* a) {
  auto* p = static_cast<LoopInit*>(a);
  Loop& l = t->loops[0];
  l.inited = true; l.next = p->start; l.end = p->end; l.incr = p->incr; l.chunk = p->chunk; l.mode = p->mode;
}
struct FnData { void (*fn)(void*); void* data; };
void enter_loop(void* a) {
  auto* f = static_cast<FnData*>(a);
  { std::lock_guard<std::mutex> lk(tls.team->m); tls.loop = &tls.team->loops[tls.ws++]; }
  f->fn(f->data);
}
}  // namespace

extern "C" {
int omp_get_thread_num() { return tls.team ? tls.id : 0; }
int omp_get_num_threads() { return tls.team ? tls.team->n : 1; }
int omp_get_max_threads() { return g_max_threads; }
int omp_get_num_procs() { return static_cast<int>(std::thread::hardware_concurrency()); }
void omp_set_num_threads(int n) { g_max_threads = n; }
int omp_in_parallel() { return tls.team && tls.team->n > 1; }
int omp_get_level() { return tls.level; }
int omp_get_thread_limit() { return 1 << 20; }
void omp_set_dynamic(int) {}
void omp_set_nested(int) {}
void omp_set_max_active_levels(int) {}
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_team(fn, data, resolve(n)); }
unsigned GOMP_parallel_reductions(void (*fn)(void*), void* data, unsigned n, unsigned) { abort(); }

#define LOOPS(NAME, MODE)                                                                                                                  \
  bool GOMP_loop_##NAME##_start(long a, long b, long c, long d, long* s, long* e) { return loop_start(a, b, c, d, MODE, s, e); }            \
  bool GOMP_loop_##NAME##_next(long* s, long* e) { return loop_next(s, e); }                                                                \
  void GOMP_parallel_loop_##NAME(void (*fn)(void*), void* data, unsigned n, long a, long b, long c, long d, unsigned) {                      \
    LoopInit li{a, b, c, d, MODE};                                                                                                          \
    FnData f{fn, data};                                                                                                                     \
    run_team(enter_loop, &f, resolve(n), init_loop, &li);                                                                                   \
  }
LOOPS(dynamic, 0)
LOOPS(guided, 1)
LOOPS(nonmonotonic_dynamic, 0)
LOOPS(nonmonotonic_guided, 1)
bool GOMP_loop_static_start(long a, long b, long c, long d, long* s, long* e) { return loop_start(a, b, c, d, 0, s, e); }
bool GOMP_loop_static_next(long* s, long* e) { return loop_next(s, e); }
bool GOMP_loop_runtime_start(long a, long b, long c, long* s, long* e) { return loop_start(a, b, c, 1, 0, s, e); }
bool GOMP_loop_runtime_next(long* s, long* e) { return loop_next(s, e); }
bool GOMP_loop_nonmonotonic_runtime_start(long a, long b, long c, long* s, long* e) { return loop_start(a, b, c, 1, 0, s, e); }
bool GOMP_loop_nonmonotonic_runtime_next(long* s, long* e) { return loop_next(s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long a, long b, long c, long* s, long* e) { return loop_start(a, b, c, 1, 0, s, e); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* s, long* e) { return loop_next(s, e); }
// unsigned long long loops (size_t loop variables)
#define ULOOPS(NAME, MODE)                                                                                                                     \
  bool GOMP_loop_ull_##NAME##_start(bool, unsigned long long a, unsigned long long b, unsigned long long c, unsigned long long d,              \
                                    unsigned long long* s, unsigned long long* e) {                                                            \
    return loop_start((long)a, (long)b, (long)c, (long)d, MODE, (long*)s, (long*)e);                                                           \
  }                                                                                                                                            \
  bool GOMP_loop_ull_##NAME##_next(unsigned long long* s, unsigned long long* e) { return loop_next((long*)s, (long*)e); }
ULOOPS(dynamic, 0)
ULOOPS(guided, 1)
ULOOPS(static, 0)
ULOOPS(nonmonotonic_dynamic, 0)
ULOOPS(nonmonotonic_guided, 1)
void GOMP_loop_end() { if (tls.team) barrier(tls.team); }
void GOMP_loop_end_nowait() {}
void GOMP_barrier() { if (tls.team) barrier(tls.team); }

bool GOMP_single_start() {
  if (!tls.team) return true;
  jitter();
  std::lock_guard<std::mutex> lk(tls.team->m);
  return tls.team->singles[tls.ws++]++ == 0;
}
void* GOMP_single_copy_start() {
  Team* t = tls.team;
  if (!t) return nullptr;
  long w = tls.ws;
  bool first;
  { std::lock_guard<std::mutex> lk(t->m); first = t->singles[tls.ws++]++ == 0; }
  if (first) return nullptr;
  barrier(t);
  std::lock_guard<std::mutex> lk(t->m);
  return t->copies[w];
}
void GOMP_single_copy_end(void* p) {
  Team* t = tls.team;
  if (!t) return;
  { std::lock_guard<std::mutex> lk(t->m); t->copies[tls.ws - 1] = p; }
  barrier(t);
}

void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long size, long align, bool if_clause, unsigned, void**, int, void*) {
  Task* cur = current();
  auto* t = new Task();
  t->fn = fn;
  t->storage.resize(size + align);
  char* p = t->storage.data();
  p = reinterpret_cast<char*>((reinterpret_cast<uintptr_t>(p) + align - 1) & ~static_cast<uintptr_t>(align - 1));
  if (cpy) cpy(p, data); else if (size) memcpy(p, data, size);
  t->data = p;
  t->parent = cur;
  for (Task* a = cur; a; a = a->in_group) { if (a->group) { t->in_group = a; break; } }
  Team* team = tls.team;
  if (!if_clause || !team) {
    run_task(t);   // undeferred
    return;
  }
  jitter();
  std::lock_guard<std::mutex> lk(team->m);
  cur->children++;
  if (t->in_group) t->in_group->group_pending++;
  team->pending++;
  team->queue.push_back(t);
  team->cv.notify_all();
}
void GOMP_taskwait() {
  Team* team = tls.team;
  if (!team) return;
  Task* cur = current();
  jitter();
  std::unique_lock<std::mutex> lk(team->m);
  while (cur->children > 0) {
    if (Task* t = pick(team, [&](Task* x) { return x->parent == cur; })) {
      lk.unlock();
      run_task(t);
      finish_task(team, t);
      lk.lock();
      continue;
    }
    team->cv.wait(lk);
  }
}
void GOMP_taskyield() { std::this_thread::yield(); }
void GOMP_taskgroup_start() {
  auto* g = new Task();
  g->group = true;
  g->parent = current();
  g->in_group = nullptr;
  tls.task = g;
}
void GOMP_taskgroup_end() {
  Team* team = tls.team;
  Task* g = tls.task;
  if (team) {
    std::unique_lock<std::mutex> lk(team->m);
    while (g->group_pending > 0) {
      if (Task* t = pick(team, [&](Task* x) { return x->in_group == g; })) {
        lk.unlock(); run_task(t); finish_task(team, t); lk.lock();
        continue;
      }
      team->cv.wait(lk);
    }
  }
  tls.task = g->parent;
}
void GOMP_critical_start() { jitter(); g_crit.lock(); }
void GOMP_critical_end() { g_crit.unlock(); }
void GOMP_critical_name_start(void** p) {
  jitter();
  std::mutex* m;
  { std::lock_guard<std::mutex> lk(g_names); auto& x = g_named[p]; if (!x) x = std::make_unique<std::mutex>(); m = x.get(); }
  m->lock();
}
void GOMP_critical_name_end(void** p) {
  std::mutex* m;
  { std::lock_guard<std::mutex> lk(g_names); m = g_named[p].get(); }
  m->unlock();
}
void GOMP_atomic_start() { g_atomic.lock(); }
void GOMP_atomic_end() { g_atomic.unlock(); }
unsigned GOMP_sections_start(unsigned n) { long s, e; return loop_start(1, n + 1, 1, 1, 0, &s, &e) ? s : 0; }
unsigned GOMP_sections_next() { long s, e; return loop_next(&s, &e) ? s : 0; }
void GOMP_sections_end() { if (tls.team) barrier(tls.team); }
void GOMP_sections_end_nowait() {}
void GOMP_parallel_sections(void (*fn)(void*), void* data, unsigned n, unsigned count, unsigned) {
  LoopInit li{1, (long)count + 1, 1, 1, 0};
  FnData f{fn, data};
  run_team(enter_loop, &f, resolve(n), init_loop, &li);
}
}
