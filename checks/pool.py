#!/usr/bin/env python3
"""T03: every thread-pool configuration has a consistent wait, wake and barrier.
The real ThreadPool (constructor, Run, auto-tuned reconfiguration, SetWaitMode, destructor) is evaluated against reference workers, and the real
ThreadFunc against a reference main thread, by abstract interpretation of their IR; a thread that would wait hands over to the thread that is
chosen to be latest. Plus: which policy class every enumerator reaches, and which configurations can be selected at all."""
from bfx import *
FAKE={'hwy/cache_control.h':'''#ifndef VF_CC_H
#define VF_CC_H
#define Pause VFlibPause
#include_next "hwy/cache_control.h"
#undef Pause
extern "C" void VFpause();
namespace hwy { static inline __attribute__((always_inline)) void Pause() { VFpause(); } }
#endif
''','hwy/x86_cpuid.h':'''#ifndef VF_CPUID_H
#define VF_CPUID_H
#include <stdint.h>
extern "C" { extern uint32_t VFamd, VFmax, VFecx1, VFecx7; }
namespace hwy { namespace x86 {
static inline void Cpuid(uint32_t level, uint32_t, uint32_t* a) { a[0] = a[1] = a[2] = a[3] = 0; if (level == 0x80000001u) a[2] = VFecx1; if (level == 7) a[2] = VFecx7; }
static inline bool IsAMD() { return VFamd & 1; } static inline bool IsBitSet(uint32_t r, int i) { return (r >> i) & 1; } static inline uint32_t MaxLevel() { return VFmax; } } }
#endif
''','hwy/timer.h':'''#ifndef VF_TIMER_H
#define VF_TIMER_H
#define Start VFlibStart
#define Stop VFlibStop
#include_next "hwy/timer.h"
#undef Start
#undef Stop
namespace hwy { namespace timer { static inline uint64_t Start() { static uint64_t t; return t += 1000; } static inline uint64_t Stop() { return Start(); } } }
#endif
''','vfpool.h':r'''
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <array>
#include <atomic>
#include <limits>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <new>
extern "C" { void VFpause(); uint32_t VFamd, VFmax, VFecx1, VFecx7; }
extern "C" { alignas(128) unsigned char VFheap[1 << 20]; size_t VFheapn; }
void* operator new(size_t n) { void* p = VFheap + VFheapn; VFheapn += (n + 127) & ~size_t{127}; return p; }
void operator delete(void*) noexcept {}
void operator delete(void*, size_t) noexcept {}
// futex wait: sleeps only while the word still has the given value
static inline long VFsyscall(long nr, const void* a, int op, unsigned v, const void*, const void*, int) { if ((op & 127) == 0) { if (*(const volatile unsigned*)a == v) VFpause(); } return 0; }
#define syscall VFsyscall
#define snprintf VFsnprintf
#define pthread_setname_np(a, b) 0
static inline int VFsnprintf(char*, size_t, const char*, ...) { return 1; }
struct VFthread { size_t id; static unsigned hardware_concurrency() { return 8; } VFthread() {} template <class F, class... A> explicit VFthread(F&& f, A&&...); VFthread(VFthread&& o) noexcept : id(o.id) {} bool joinable() const { return true; } void join(); };
namespace std { using VFthread = ::VFthread; }
#define thread VFthread
#include "hwy/contrib/thread_pool/thread_pool.h"
#undef thread
#undef syscall
namespace hwy {
namespace platform { bool HaveTimerStop(char*) { return false; } double InvariantTicksPerSecond() { return 1E9; } }
void VQSort(double*, const size_t, SortAscending) {}
bool GetThreadAffinity(LogicalProcessorSet&) { return false; }
HWY_NORETURN void Abort(const char*, int, const char*, ...) { abort(); }
void Warn(const char*, int, const char*, ...) {}
}
using namespace hwy; using namespace hwy::pool;
using u64 = uint64_t;
extern "C" { alignas(4096) unsigned char VFpoolb[sizeof(ThreadPool)]; u64 VFw, VFidle, VFn, VFmode, VFnext, VFtarget, VFthreads, VFjoined, VFran[256]; uint32_t VFep[64], VFcurE; Config VFcfg[64]; }
static inline ThreadPool& P() { return *(ThreadPool*)VFpoolb; }
template <class F, class... A> VFthread::VFthread(F&&, A&&...) : id(VFthreads) { VFthreads++; }
void VFthread::join() { VFjoined++; }
static inline Config VFc(const uint8_t* c) { return Config(SpinType::kPause, (WaitType)c[0], (BarrierType)c[1]); }
static inline bool VFsame(const Config& a, const Config& b) { return a.spin_type == b.spin_type && a.wait_type == b.wait_type && a.barrier_type == b.barrier_type; }
// ---- reference worker: one round as ThreadFunc performs it
static __attribute__((noinline)) void VFworker(u64 v) {
  const u64 m = VFmode; VFmode = 1;
  Worker* w = P().workers_ + v; WorkerAdapter a(w); const uint32_t e = ++VFep[v]; a.SetEpoch(e);
  CallWithSpinWait(VFcfg[v], a); VFcfg[v] = w->LatchedConfig();
  VFmode = 3; P().tasks_.WorkerRun(w); VFmode = 2;
  CallWithSpinBarrier(VFcfg[v], a);
  VFmode = m;
}
static void VFmainStep();
// ---- a thread waits
extern "C" __attribute__((noinline)) void VFpause() {
  if (VFw) { VFmainStep(); return; }
  if (VFmode == 1) { if (++VFidle > 300) abort(); return; } // a worker is not woken although the main thread waits for it
  if (VFmode == 3) return;  // between two attempts to steal work
  const uint32_t E = P().main_adapter_.epoch_;
  if (VFcurE != E) { VFcurE = E; VFnext = 0; }
  u64 v = VFnext; // the next worker that has not started this round, the target last
  while (v < VFn && (v == VFtarget || VFep[v] == E)) v++;
  VFnext = v;
  if (v >= VFn) v = VFtarget;
  if (VFep[v] == E) { if (++VFidle > 300) abort(); return; } // every worker has arrived and yet a thread waits
  VFidle = 0;
  VFworker(v);
}
static __attribute__((noinline)) u64 VFall(bool ex) {
  for (u64 v = 0; v < VFn; v++) { if (VFep[v] != P().epoch_) return 1; if (!VFsame(VFcfg[v], P().config_) || VFcfg[v].exit != ex) return 2; }
  return 0;
}
static __attribute__((noinline)) u64 VFrun(u64 tasks) {
  for (u64 t = 0; t < tasks; t++) VFran[t] = 0;
  P().Run(5, 5 + tasks, [](u64 t, size_t) { VFran[t - 5]++; });
  for (u64 t = 0; t < tasks; t++) if (VFran[t] != 1) return 3;
  return VFall(false);
}
// the auto-tuner steps through the k configurations, one per run; then the wait mode is changed, then the pool is destroyed
static __attribute__((noinline)) u64 VFmain(u64 n, uint32_t E, u64 target, u64 k, const uint8_t* cf, u64 tasks) {
  VFw = VFheapn = 0; VFn = n; VFtarget = target; VFidle = VFmode = VFnext = VFthreads = VFjoined = 0; VFcurE = E;
  new (VFpoolb) ThreadPool(n);
  if (VFthreads != n) return 10;
  if (P().NumWorkers() != n + 1) return 11;
  P().epoch_ = E; P().config_ = VFc(cf);
  for (u64 v = 0; v < n; v++) { VFep[v] = E; VFcfg[v] = P().config_; P().workers_[v].LatchConfig(P().config_); }
  for (u64 v = 0; v <= n; v++) P().workers_[v].StoreWaiter(E);
  for (PoolWaitMode mode : {PoolWaitMode::kSpin, PoolWaitMode::kBlock}) { P().wait_mode_ = mode; std::vector<Config> cs; for (u64 j = 0; j < k; j++) cs.push_back(VFc(cf + 2 * j)); P().AutoTuner().SetCandidates(cs); }
  for (u64 j = 0; j < k; j++) {
    if (!VFsame(P().config_, VFc(cf + 2 * j))) return 12;
    if (u64 r = VFrun(tasks)) return 20 + r;
  }
  P().SetWaitMode(PoolWaitMode::kSpin);
  if (!VFsame(P().config_, VFc(cf))) return 13;
  if (u64 r = VFall(false)) return 30 + r;
  if (u64 r = VFrun(tasks)) return 40 + r;
  P().~ThreadPool();
  if (VFjoined != VFthreads) return 14;
  return VFall(true) ? 50 : 0;
}
// ---- reference main thread for the real ThreadFunc
extern "C" { alignas(4096) unsigned char VFws[sizeof(Worker) * (kMaxThreads + 1)]; alignas(64) unsigned char VFtk[sizeof(Tasks)]; u64 VFk, VFr, VFrounds, VFruns, VFv, VFphase, VFerr, VFinmain, VFlatch; const uint8_t* VFcf; }
static inline Worker* W() { return (Worker*)VFws; }
static inline Tasks& T() { return *(Tasks*)VFtk; }
// round r = 1..: kind 0 run, 1 latch, 2 switch; three per configuration, the last latch/switch carries exit
static inline Config VFwaitc(u64 r) { return VFc(VFcf + 2 * ((r - 1) / 3)); }
static inline Config VFbarc(u64 r) { const u64 j = (r - 1) / 3; return (r - 1) % 3 == 2 && j + 1 < VFk ? VFc(VFcf + 2 * (j + 1)) : VFc(VFcf + 2 * j); }
struct VFreach { template <class S, class Wt, class B> void operator()(const S& s, const Wt&, const B& b) const { b.UntilReached(VFn, W(), s, (uint32_t)VFr); b.Reset(W()); } };
struct VFwake { template <class S, class Wt, class B> void operator()(const S&, const Wt& w, const B& b) const { b.Reset(W()); w.WakeWorkers(W(), (uint32_t)VFr); } };
static Config VFlatchc; 
static __attribute__((noinline)) void VFothers() { for (u64 u = VFn; u-- > 0;) if (u != VFv) { WorkerAdapter a(W() + u); a.SetEpoch((uint32_t)VFr); CallWithSpinBarrier(VFbarc(VFr), a); } }
static __attribute__((noinline)) void VFcheckArrived() { Config c = VFwaitc(VFr); c.barrier_type = VFbarc(VFr).barrier_type; VFinmain = 1; VFreach f; CallWithConfig(c, f); VFinmain = 0; if (VFran[0] != VFruns) VFerr = 4; }
static __attribute__((noinline)) void VFmainStep() {
  if (VFinmain) { if (++VFinmain > 20) abort(); return; } // the worker waits for the next round but has not arrived at the barrier of this one
  if (VFr && !VFphase) { VFphase = 1; VFothers(); return; } // the worker is a group's leader, or waits for the next round already
  if (VFr) VFcheckArrived();
  if (VFr == VFrounds) abort();    // told to exit, waits again
  ++VFr; VFphase = 0; const u64 kind = (VFr - 1) % 3, j = (VFr - 1) / 3;
  if (kind == 0) { VFruns++; T().Set(0, VFn + 1, [](u64 t, size_t w) { if (t != w || w != VFv) VFerr = 5; VFran[0]++; }); }
  else if (kind == 1) { VFlatchc = VFc(VFcf + 2 * (j + 1 < VFk ? j + 1 : j)); VFlatchc.exit = j + 1 == VFk; T().Set(0, VFn + 1, [](u64, size_t w) { W()[w].LatchConfig(VFlatchc); }); }
  else T().Set(0, 0, [](u64, size_t) { VFerr = 6; });
  Config c = VFwaitc(VFr); c.barrier_type = VFbarc(VFr).barrier_type; VFwake f; CallWithConfig(c, f);
}
static __attribute__((noinline)) u64 VFthreadf(u64 n, u64 v, u64 k, const uint8_t* cf) {
  VFw = 1; VFn = n; VFv = v; VFk = k; VFcf = cf; VFr = VFruns = VFphase = VFerr = VFinmain = 0; VFrounds = 3 * k; VFran[0] = 0;
  new (VFtk) Tasks; const Divisor64 div(n + 1); WorkerLifecycle::Init(VFws, n, div);
  { ThreadFunc f(W() + v, &T(), VFc(cf)); f(); }
  if (VFerr) return VFerr;
  if (VFr != VFrounds) return 7;
  if (!VFphase) { VFphase = 1; VFothers(); }
  VFcheckArrived();
  return VFerr;
}
// ---- which policy classes an enumerator reaches
extern "C" { u64 VFhits, VFs, VFwt, VFb; }
struct VFt3 { template <class S, class Wt, class B> void operator()(const S& s, const Wt& w, const B& b) const { VFhits++; VFs = (u64)s.Type(); VFwt = (u64)w.Type(); VFb = (u64)b.Type(); } };
template <class X, class E> struct VFis { static constexpr bool v = std::is_same<decltype(X().Type()), E>::value; };
struct VFt2 { template <class S, class X> void operator()(const S& s, const X& x) const { VFhits++; VFs = (u64)s.Type(); if (VFis<X, WaitType>::v) VFwt = (u64)x.Type(); else VFb = (u64)x.Type(); } };
'''}
CODE={0:'?',1:'the main thread continues although a worker has not arrived',2:'main thread and workers end up with different configurations',3:'a task does not run exactly once',4:'the worker runs the tasks when not woken, or not when woken',5:'the worker runs another worker\'s task',6:'an empty range runs a task',7:'the worker exits early',10:'wrong number of threads',11:'wrong NumWorkers',12:'the selected configuration is not the one in use',13:'SetWaitMode does not select the configuration',14:'a thread is not joined',63:'no return: a thread waits for something that does not happen, or a worker was not woken'}
WN=('Block','Spin1','SpinSeparate'); BN=('Ordered','Counter1','Counter2','Counter4','Group2','Group4')
def m():
    a=std_args(); sc=a.dump or scratch('tp'); build_tools('bitflow'); fk=sc+'/fake'
    for f,t in FAKE.items(): os.makedirs(os.path.dirname(f'{fk}/{f}'),exist_ok=True); open(f'{fk}/{f}','w').write(t)
    I=Inst(); RO='p:q:1:0:64:wz'; REF='extern "C" void r@(uint8_t* q) { q[63]=1; }'
    nm=lambda s: '>'.join(f'{WN[w]}/{BN[b]}' for w,b in s); ids=set()
    def M(n,E,t,seq,tasks):
        i=f'ThreadPool({n}) {nm(seq)}, {tasks} tasks, epoch {E}, worker {t} late'
        if i in ids: return
        ids.add(i); I.add(i,f'extern "C" void i@(uint8_t* q) {{ static const uint8_t c[]={{{",".join(f"{w},{b}" for w,b in seq)}}}; const u64 r=VFmain({n},{E}u,{t},{len(seq)},c,{tasks}); if (r) q[r]=1; q[63]=1; }}',REF,RO)
    def Wf(n,v,seq):
        i=f'ThreadFunc {v} of {n} {nm(seq)}'
        if i in ids: return
        ids.add(i); I.add(i,f'extern "C" void i@(uint8_t* q) {{ static const uint8_t c[]={{{",".join(f"{w},{b}" for w,b in seq)}}}; const u64 r=VFthreadf({n},{v},{len(seq)},c); if (r) q[r]=1; q[63]=1; }}',REF,RO)
    th=a.tier!='quick'; C=[(w,b) for w in range(3) for b in range(6)]
    for x in C:
        for y in C:
            M(5,9,4,[x,y],6); Wf(3,0,[x,y])
            if th: M(4,9,1,[x,y],9); M(8,3,5,[x,y],31); Wf(5,4,[x,y]); Wf(6,2,[x,y])
    for n in (1,2,3,4,6,7,8,9,12):
        for w in range(n) if n<6 or th else (0,1,n-2,n-1):
            for b1 in range(6):
                for b2 in range(6):
                    if not th and (b1+2*b2+w+n)%3: continue
                    M(n,5,w,[((b1+w)%3,b1),((b2+n)%3,b2)],(n+1,n+2,3*n+1,2)[(b1+b2+w)%4]); Wf(n,w,[((b1+n)%3,b1),((b2+w)%3,b2)])
    # counts left behind by one barrier must not look like a later epoch to the next, whichever worker is late
    for n in (61,62,63) if not th else (31,32,33,59,60,61,62,63):
        for old,cs in ((1,{n}),(2,{n//2,(n+1)//2}),(3,{n//4,(n+3)//4})):
            for c in cs:
                for new in range(6) if th else (0,4,5):
                    for w in (n-1,n-2,n-3): M(n,c-3,w,[(1,old),(w%3,new)],n+1)
                    if th: M(n,c-6,n-1,[(1,old),(0,1),(2,new)],n+1); M(n,c-6,n-2,[(0,old),(0,(new+1)%6),(2,new)],n+1)
        for b1 in range(6):
            for b2 in range(6): M(n,1000,(b1*6+b2)%n,[(b1%3,b1),(b2%3,b2)],n+1 if b2&1 else 3*n)
    for x in (C if th else C[::2]): M(3,0xFFFFFFFA,1,[x,(2,x[1])],4); M(4,0xFFFFFFF0,2,[x,C[7],C[-1]],5)
    M(63,0xFFFFFFFD,62,[(1,1),(1,0)],64) # the counter types leave a worker's own flag at an old value (0), which equals epoch 0 after wrap-around
    # enumerators
    J=Inst()
    for s in (1,2,3):
        for w in range(3):
            J.add(f'CallWithSpinWait({s},{WN[w]})',f'extern "C" void i@(uint64_t* q) {{ VFhits=0; VFs=VFwt=VFb=99; VFt2 f; CallWithSpinWait(Config((SpinType){s},(WaitType){w},(BarrierType)0), f); q[0]=VFhits; q[1]=VFs; q[2]=VFwt; q[3]=VFb; }}',f'extern "C" void r@(uint64_t* q) {{ q[0]=1; q[1]={s}; q[2]={w}; q[3]=99; }}','p:q:8:0:32:w')
            for b in range(6):
                J.add(f'CallWithConfig({s},{WN[w]},{BN[b]})',f'extern "C" void i@(uint64_t* q) {{ VFhits=0; VFt3 f; CallWithConfig(Config((SpinType){s},(WaitType){w},(BarrierType){b}), f); q[0]=VFhits; q[1]=VFs; q[2]=VFwt; q[3]=VFb; }}',f'extern "C" void r@(uint64_t* q) {{ q[0]=1; q[1]={s}; q[2]={w}; q[3]={b}; }}','p:q:8:0:32:w')
        for b in range(6):
            J.add(f'CallWithSpinBarrier({s},{BN[b]})',f'extern "C" void i@(uint64_t* q) {{ VFhits=0; VFs=VFwt=VFb=99; VFt2 f; CallWithSpinBarrier(Config((SpinType){s},(WaitType)0,(BarrierType){b}), f); q[0]=VFhits; q[1]=VFs; q[2]=VFwt; q[3]=VFb; }}',f'extern "C" void r@(uint64_t* q) {{ q[0]=1; q[1]={s}; q[2]=99; q[3]={b}; }}','p:q:8:0:32:w')
    J.add('DetectSpin','extern "C" void i@(uint64_t* q, uint32_t amd, uint32_t mx, uint32_t e1, uint32_t e7, uint32_t dis) { VFamd=amd; VFmax=mx; VFecx1=e1; VFecx7=e7; const SpinType t=DetectSpin((int)dis); VFhits=0; struct F { void operator()(const SpinPause& s) const { VFhits=VFhits*8+3; } void operator()(const SpinMonitorX&) const { VFhits=VFhits*8+1; } void operator()(const SpinUMonitor&) const { VFhits=VFhits*8+2; } }; F f; CallWithSpin(t, f); q[0]=(u64)t; q[1]=VFhits; }',
      'extern "C" void r@(uint64_t* q, uint32_t amd, uint32_t mx, uint32_t e1, uint32_t e7, uint32_t dis) { const u64 t = (amd&1) && !(dis&2) && ((e1>>29)&1) ? 1 : mx>=7 && !(dis&4) && ((e7>>5)&1) ? 2 : 3; q[0]=t; q[1]=t; }','p:q:8:0:16:w s:amd:32:1 s:mx:32 s:e1:32 s:e7:32 s:dis:32:8')
    for mode,mn in ((1,'kBlock'),(2,'kSpin')):
        for n in (0,1,2,3,63):
            for cpu in range(3):
                J.add(f'AllCandidates({mn}, {n}, cpu {cpu})',f'''extern "C" void i@(uint8_t* q) {{ VFheapn=0; VFamd={int(cpu==1)}; VFmax={7*int(cpu==2)}; VFecx1=1u<<29; VFecx7=1u<<5; const std::vector<Config> v=Config::AllCandidates((PoolWaitMode){mode},{n}); u64 bad=v.empty()?1:0; for (const Config& c : v) {{ if (c.exit) bad=2; if ((u64)c.wait_type>=3) bad=3; if ((u64)c.barrier_type>=6) bad=4; if ((c.wait_type==WaitType::kBlock)!=({mode}==1)) bad=5; if ((u64)c.spin_type!=3 && (u64)c.spin_type!={(3,1,2)[cpu]}) bad=6; }} if (bad) q[bad]=1; q[63]=1; }}''',REF,RO)
    fl=['-fno-exceptions','-fno-threadsafe-statics','-fno-builtin','-I',fk]
    os.environ['BITFLOW_ADDR']='1'
    pro='#include "vfpool.h"\nstatic_assert((int)WaitType::kSentinel == 3 && (int)BarrierType::kSentinel == 6 && (int)SpinType::kSentinel == 4, "VF: enumerators");'
    rs=[]
    def batch(I,name,per):
        w=f'{sc}/{name}.cc'; lines=[pro]
        for r in I.r: lines+=[x.strip().replace('\n',' ') for x in r[1:3]]
        open(w,'w').write('\n'.join(lines)+'\n')
        p=subprocess.run([CLANG]+OPT+fl+['-I',REPO,'-c','-emit-llvm',w,'-o',f'{sc}/{name}.bc'],capture_output=True,text=True)
        if p.returncode: raise Broken('does not compile: '+p.stderr[:800])
        with ThreadPoolExecutor(8) as ex: return sum(ex.map(lambda k: ops_main.analyse(sc,name,f'{sc}/{name}.bc',I.r[k:k+per],str(k)),range(0,len(I.r),per)),[])
    os.environ['BITFLOW_GLOBAL_INIT']='1'
    rs=batch(J,'enum',20)+batch(I,'pool',24)
    if a.dump: show([r for r in rs if r['status']!='done' or r['mismatch']])
    v=violations(rs)
    for x in v:
        k=re.search(r'q\[(\d+)\]',x['what'])
        if k and not x['key'].startswith('enum:Call') and 'DetectSpin' not in x['key']: k=int(k.group(1))-64; x['what']=CODE.get(k) or CODE.get(k%10,'?') if k!=50 else 'a worker is not told to exit'
    if not v: need_done(rs)
    cov=dict(summary(rs),explanation='(1) real ThreadPool: constructor, Run for each of a sequence of 2 (thorough 3) configurations via the auto-tuner, SetWaitMode, Run, destructor, against reference workers that only advance when another thread has to wait, one chosen worker last: no Run returns before every worker arrived, every task runs once, configurations agree, exit reaches every thread. (2) real ThreadFunc against a reference main thread: it runs exactly when woken, arrives after running, latches the configuration in between, exits after arriving. (3) enumerators reach the policy class of that type; DetectSpin and AllCandidates only yield implemented configurations, for every CPUID value.',
      rule='all pairs of the 18 wait/barrier combinations (5 workers), all barrier pairs for 1..12 and 61..63 workers; epochs chosen so that any count left by a counter barrier equals a later epoch; epoch wrap-around')
    finish('T03',a.tier,'proof',cov,v,['one schedule family per configuration pair: each worker in turn is latest; memory ordering is T01, the hardware monitor variants of the spin loops are T02','sequences of more than 3 configurations are not evaluated'])
if __name__=='__main__': main(m)
