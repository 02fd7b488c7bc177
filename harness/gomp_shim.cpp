/*
 * Small OpenMP runtime for the thread-sanitizer build.
 *
 * libgomp is not instrumented, so its barriers and queues are invisible to the
 * sanitizer and produce false reports.  This file implements the entry points
 * gcc emits with plain threads (fork at the start of a region, join at its
 * end) and is itself instrumented.  Work is handed out with relaxed atomics so
 * that no ordering exists between threads of a team other than what OpenMP
 * guarantees.
 */
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
#include <sched.h>

namespace {
struct Work {                       /* one worksharing construct of a team */
   std::atomic<long> next{0};
   std::atomic<int>  left{0};
   long end=0, incr=1, chunk=1;
   bool set=false;
};
struct Team {
   int n=1, level=0;
   std::mutex m;                    /* only for constructs that imply ordering */
   std::condition_variable cv;
   int waiting=0; long gen=0;
   std::atomic_flag spin=ATOMIC_FLAG_INIT;
   std::map<long,std::unique_ptr<Work>> works;
   std::map<long,bool> singles;
   std::atomic<unsigned> sections{0};
   unsigned nsections=0;
};
thread_local Team *team=nullptr;
thread_local int tid=0;
thread_local long wsno=0, sgno=0;
thread_local Work *cur=nullptr;
std::atomic<int> icv_threads{2}, icv_levels{1};
std::mutex crit;
unsigned perturb_seed=1;

void jitter(int t)
{
   static std::atomic<unsigned> c{1};
   unsigned x=c.fetch_add(0x9e3779b9u,std::memory_order_relaxed)+unsigned(t)*7919u;
   x^=x>>13; x*=0x85ebca6bu; x^=x>>16;
   if (x%3==0) sched_yield();
   else if (x%11==0) std::this_thread::sleep_for(std::chrono::microseconds(x%50));
}
int depth() { return team ? team->level : 0; }

void run_team(void (*fn)(void*), void *data, unsigned num, unsigned nsec, bool sec, long s, long e, long incr, long chunk, bool loop)
{
   int n = num ? int(num) : icv_threads.load();
   if (depth()>=icv_levels.load()) n=1;
   if (n<1) n=1;
   Team tm; tm.n=n; tm.level=depth()+1;
   if (sec) tm.nsections=nsec;
   if (loop) {
      std::unique_ptr<Work> w(new Work); w->next=s; w->end=e; w->incr=incr; w->chunk=chunk>0?chunk:1; w->left=n; w->set=true;
      tm.works[0]=std::move(w);
   }
   Team *pt=team; int ptid=tid; long pw=wsno, ps=sgno; Work *pc=cur;
   auto body=[&](int t) {
      team=&tm; tid=t; wsno=loop?1:0; sgno=0; cur=loop?tm.works[0].get():nullptr;
      if (n>1) jitter(t);
      fn(data);
   };
   std::vector<std::thread> th;
   for (int t=1;t<n;t++) th.emplace_back(body,t);
   body(0);
   for (auto &x: th) x.join();
   team=pt; tid=ptid; wsno=pw; sgno=ps; cur=pc;
}
struct Spin { Team *t; Spin(Team *q):t(q){ while (t->spin.test_and_set(std::memory_order_acquire)) sched_yield(); } ~Spin(){ t->spin.clear(std::memory_order_release); } };
Work *begin_work(long s,long e,long incr,long chunk)
{
   static thread_local Work solo;
   if (!team) { solo.next=s; solo.end=e; solo.incr=incr; solo.chunk=chunk>0?chunk:1; return cur=&solo; }
   long no=wsno++;
   Spin l(team);
   auto &w=team->works[no];
   if (!w) { w.reset(new Work); w->next.store(s,std::memory_order_relaxed); w->end=e; w->incr=incr; w->chunk=chunk>0?chunk:1; }
   return cur=w.get();
}
bool next_chunk(long *a,long *b)
{
   long step=cur->incr*cur->chunk;
   long v=cur->next.fetch_add(step,std::memory_order_relaxed);
   if (cur->incr>0 ? v>=cur->end : v<=cur->end) return false;
   *a=v; long z=v+step;
   if (cur->incr>0 ? z>cur->end : z<cur->end) z=cur->end;
   *b=z; return true;
}
} // namespace

extern "C" {
void GOMP_barrier()
{
   if (!team || team->n==1) return;
   std::unique_lock<std::mutex> l(team->m);
   long g=team->gen;
   if (++team->waiting==team->n) { team->waiting=0; team->gen++; team->cv.notify_all(); }
   else team->cv.wait(l,[&]{ return team->gen!=g; });
}
void GOMP_parallel(void (*fn)(void*), void *d, unsigned n, unsigned) { run_team(fn,d,n,0,false,0,0,1,1,false); }
void GOMP_parallel_sections(void (*fn)(void*), void *d, unsigned n, unsigned c, unsigned) { run_team(fn,d,n,c,true,0,0,1,1,false); }
unsigned GOMP_sections_next()
{
   if (cur && !team) return 0;
   if (team && team->nsections) { unsigned k=team->sections.fetch_add(1,std::memory_order_relaxed)+1; return k<=team->nsections?k:0; }
   long a,b; return next_chunk(&a,&b)?unsigned(a):0u;
}
unsigned GOMP_sections_start(unsigned c) { if (team) team->nsections=0; begin_work(1,long(c)+1,1,1); long a,b; return next_chunk(&a,&b)?unsigned(a):0u; }
void GOMP_sections_end() { GOMP_barrier(); }
void GOMP_sections_end_nowait() {}
bool GOMP_single_start()
{
   if (!team) return true;
   long no=sgno++; Spin l(team);
   bool &b=team->singles[no]; if (b) return false; b=true; return true;
}
void GOMP_critical_start() { crit.lock(); }
void GOMP_critical_end() { crit.unlock(); }
void GOMP_critical_name_start(void **) { crit.lock(); }
void GOMP_critical_name_end(void **) { crit.unlock(); }
static std::mutex atom;
void GOMP_atomic_start() { atom.lock(); }
void GOMP_atomic_end() { atom.unlock(); }

#define LOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s,long e,long i,long c,long *a,long *b) { begin_work(s,e,i,c); return next_chunk(a,b); } \
bool GOMP_loop_##NAME##_next(long *a,long *b) { return next_chunk(a,b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*),void *d,unsigned n,long s,long e,long i,long c,unsigned) { run_team(fn,d,n,0,false,s,e,i,c,true); }
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
#define RLOOP(NAME) \
bool GOMP_loop_##NAME##_start(long s,long e,long i,long *a,long *b) { begin_work(s,e,i,1); return next_chunk(a,b); } \
bool GOMP_loop_##NAME##_next(long *a,long *b) { return next_chunk(a,b); } \
void GOMP_parallel_loop_##NAME(void (*fn)(void*),void *d,unsigned n,long s,long e,long i,unsigned) { run_team(fn,d,n,0,false,s,e,i,1,true); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
typedef unsigned long long ull;
#define ULOOP(NAME) \
bool GOMP_loop_ull_##NAME##_start(bool up,ull s,ull e,ull i,ull c,ull *a,ull *b) { begin_work(long(s),long(e),up?long(i):-long(-i),long(c)); return next_chunk((long*)a,(long*)b); } \
bool GOMP_loop_ull_##NAME##_next(ull *a,ull *b) { return next_chunk((long*)a,(long*)b); }
ULOOP(dynamic) ULOOP(guided) ULOOP(nonmonotonic_dynamic) ULOOP(nonmonotonic_guided)
/* tasks run at once in the thread that creates them */
void GOMP_task(void (*fn)(void*),void *data,void (*cpy)(void*,void*),long size,long align,bool,unsigned,void**,int)
{
   if (!cpy) { std::unique_ptr<char[]> b(new char[size+align]); char *p=b.get(); p+=(align-reinterpret_cast<uintptr_t>(p)%align)%align; std::memcpy(p,data,size); fn(p); return; }
   std::unique_ptr<char[]> b(new char[size+align]); char *p=b.get(); p+=(align-reinterpret_cast<uintptr_t>(p)%align)%align; cpy(p,data); fn(p);
}
void GOMP_taskwait() {}
void GOMP_taskyield() {}
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() {}
void omp_init_lock(void **l) { *l=new std::mutex; }
void omp_destroy_lock(void **l) { delete static_cast<std::mutex*>(*l); }
void omp_set_lock(void **l) { static_cast<std::mutex*>(*l)->lock(); }
void omp_unset_lock(void **l) { static_cast<std::mutex*>(*l)->unlock(); }
int  omp_test_lock(void **l) { return static_cast<std::mutex*>(*l)->try_lock(); }
void GOMP_loop_end() { GOMP_barrier(); }
void GOMP_loop_end_nowait() {}

int  omp_get_thread_num() { return team ? tid : 0; }
int  omp_get_num_threads() { return team ? team->n : 1; }
int  omp_get_max_threads() { return icv_threads.load(); }
int  omp_get_num_procs() { return 8; }
int  omp_in_parallel() { return team && team->n>1; }
int  omp_get_level() { return depth(); }
void omp_set_num_threads(int n) { icv_threads=n; }
void omp_set_max_active_levels(int n) { icv_levels=n; }
int  omp_get_max_active_levels() { return icv_levels.load(); }
void omp_set_dynamic(int) {}
int  omp_get_dynamic() { return 0; }
void omp_set_nested(int n) { icv_levels=n?16:1; }
double omp_get_wtime() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
}
