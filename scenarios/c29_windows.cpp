// C29: the Windows backend, on a simulated Win32. The programs and the oracles of the other properties, built with SIM_WINDOWS.
// Compiled in parts, only to take less time.
#include "graph.hpp"
#include "sync.hpp"
#include <array>
#include <mutex>
#include <new>

void c01();
void c02();
void c03();
void c04();
void c05();
void c06();
void c07();
void c08();
void c09();
void c10();
void c11();
void c12();
void c13();
void c14();
void c15();
void c16();
void c17();
void c18();
void c19();
void c20();
void c21();
void c24();
void c25();
void c27();

#define main own_main
#if PART == 0
namespace in_c10 {
#include "c10_life.cpp"
}
void c10() { in_c10::scenario(); }
namespace in_c12 {
#include "c12_hooks.cpp"
}
void c12() { in_c12::scenario(); }
namespace in_c24 {
#include "c24_single.cpp"
}
void c24() { in_c24::scenario(); }
#elif PART == 1
namespace in_c04 {
#include "c04_sequence.cpp"
}
void c04() { in_c04::scenario(); }
namespace in_c16 {
#include "c16_mutex.cpp"
}
void c16() { in_c16::scenario(); }
namespace in_c20 {
#include "c20_ids.cpp"
}
void c20() { in_c20::scenario(); }
namespace in_c21 {
#include "c21_thread.cpp"
}
void c21() { in_c21::scenario(); }
#elif PART == 2
namespace in_c05 {
#include "c05_join.cpp"
}
void c05() { in_c05::scenario(); }
namespace in_c06 {
#include "c06_limit.cpp"
}
void c06() { in_c06::scenario(); }
namespace in_c13 {
#include "c13_semaphore.cpp"
}
void c13() { in_c13::scenario(); }
namespace in_c27 {
#include "c27_move.cpp"
}
void c27() { in_c27::scenario(); }
#elif PART == 3
namespace in_c01 {
#include "c01_once.cpp"
}
void c01() { in_c01::scenario(); }
namespace in_c11 {
#include "c11_race.cpp"
}
void c11() { in_c11::scenario(); }
namespace in_c18 {
#include "c18_names.cpp"
}
void c18() { in_c18::scenario(); }
namespace in_c19 {
#include "c19_idle.cpp"
}
void c19() { in_c19::scenario(); }
#elif PART == 4
namespace in_c03 {
#include "c03_wait.cpp"
}
void c03() { in_c03::scenario(); }
namespace in_c14 {
#include "c14_manual.cpp"
}
void c14() { in_c14::scenario(); }
namespace in_c17 {
#include "c17_timeout.cpp"
}
void c17() { in_c17::scenario(); }
namespace in_c25 {
#include "c25_sleep.cpp"
}
void c25() { in_c25::scenario(); }
#elif PART == 5
namespace in_c02 {
#include "c02_live.cpp"
}
void c02() { in_c02::scenario(); }
namespace in_c07 {
#include "c07_priority.cpp"
}
void c07() { in_c07::scenario(); }
namespace in_c08 {
#include "c08_stop.cpp"
}
void c08() { in_c08::scenario(); }
namespace in_c09 {
#include "c09_parfor.cpp"
}
void c09() { in_c09::scenario(); }
namespace in_c15 {
#include "c15_auto.cpp"
}
void c15() { in_c15::scenario(); }
#endif
#undef main

#if PART == 0
// Waiting for whichever of several objects comes first, which only this backend offers: the one that is told is the one that was taken.
namespace any {
static const int SEM = 0, AUTO = 1, MANUAL = 2, KINDS = 3;
enum { POST, WAIT, RESET };
struct State { int n[KINDS]; std::string key() const { return std::string((const char *)n, sizeof n); } };
static History *hist;
static void scenario()
{
    time_faults(true);
    hist = &History::make();
    oqpi::global_semaphore sem("any29", CREATE, 0, 1000);
    oqpi::auto_reset_event aut;
    oqpi::global_manual_reset_event man("any29-m", EITHER);
    auto post = [&](int k) {
        int o = hist->begin(k == SEM ? "notify semaphore" : k == AUTO ? "notify auto" : "notify manual", POST, k);
        if (k == SEM) sem.notifyOne(); else if (k == AUTO) aut.notify(); else man.notify();
        hist->end(o, 1);
    };
    auto wait = [&] {
        const int shape = rnd(4);
        static const int order[][3] = {{SEM, AUTO, MANUAL}, {MANUAL, AUTO, SEM}, {AUTO, SEM, -1}, {SEM, -1, -1}};
        int o = hist->begin("wait for any", WAIT, shape);
        int i;
        switch (shape) {
        case 0: i = int(oqpi::sync::wait_indefinitely_for_any(sem, aut, man)); break;
        case 1: i = int(oqpi::sync::wait_indefinitely_for_any(man, aut, sem)); break;
        case 2: i = int(oqpi::sync::wait_indefinitely_for_any(aut, sem)); break;
        default: i = int(oqpi::sync::wait_indefinitely_for_any(sem));
        }
        if (i < 0 || i >= 3 || order[shape][i] < 0) sim_fail("wait-any", "waiting for any of several objects returned %d", i);
        hist->end(o, order[shape][i]);
    };
    auto mask = [](int shape) { return shape <= 1 ? 7 : shape == 2 ? 3 : 1; };
    std::vector<Client> cs;
    for (int i = rng(1, 3); i > 0; --i) cs.push_back(spawn("waiter", [&] { for (int k = rng(1, 3); k > 0; --k) { wait(); some_work(rnd(8)); } }));
    for (int i = rng(1, 2); i > 0; --i) cs.push_back(spawn("notifier", [&] { for (int k = rng(1, 4); k > 0; --k) {
        if (chance(20)) { int o = hist->begin("reset", RESET); man.reset(); hist->end(o, 1); } else post(rnd(KINDS));
        some_work(rnd(8));
    } }));
    auto step = [&](State &s, const Op &o) {
        if (o.kind == POST) { s.n[o.arg] = o.arg == SEM ? s.n[o.arg] + 1 : 1; return true; }
        if (o.kind == RESET) { s.n[MANUAL] = 0; return true; }
        if (o.ret == UINT64_MAX || !s.n[o.res]) return false;
        if (o.res != MANUAL) --s.n[o.res];
        return true;
    };
    auto blocked = [&](const State &s, const Op &o) { if (o.kind != WAIT) return false; for (int k = 0; k < KINDS; ++k) if (mask(o.arg) >> k & 1 && s.n[k]) return false; return true; };
    for (int round = 0;; ++round) {
        sim_rest();
        if (!linearizable(hist->ops, State{}, step, blocked)) sim_fail("not-linearizable", "notifications and waits for any of several objects do not pair up:%s", hist->text().c_str());
        int waiting = 0;
        { QUIET; for (auto &c : cs) if (sim_is_blocked(c.id)) ++waiting; }
        if (!waiting) break;
        if (round > 20) sim_fail("stuck", "%d thread(s) still wait after %d notifications", waiting, round);
        post(SEM);
    }
    join_all(cs);
    sim_probe("waited for any");
}
}
static void waiting_for_any() { any::scenario(); check_no_leak(); }

static void scenario()
{
    static void (*const objects[])() = {waiting_for_any, c13, c14, c15, c16, c17, c18, c21, c25, c27};
    static void (*const tasks[])() = {c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c19, c20, c24};
    if (chance(75)) objects[rnd(int(std::size(objects)))](); else tasks[rnd(int(std::size(tasks)))]();
}
int main(int argc, char **argv) { return sim_main(argc, argv, "c29_windows", scenario); }
#endif
