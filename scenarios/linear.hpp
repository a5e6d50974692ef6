// Is a recorded concurrent history one of a sequential object? (Wing and Gong's search with memoisation.)
#pragma once
#include "common.hpp"
#include <unordered_set>

struct Op {
    uint64_t call = 0, ret = UINT64_MAX;     // ret stays UINT64_MAX while the operation has not returned
    int kind = 0, arg = 0, res = 0, who = 0;
    const char *name = "";
    bool optional = false;                   // may have taken effect or not (its process died inside)
    int after = -1;                          // index of the step of the same call that precedes this one
};

struct History {
    std::vector<Op> ops;
    static History &make(size_t n = 128) { QUIET; History &h = *new History; h.ops.reserve(n); return h; }
    int begin(const char *name, int kind, int arg = 0)
    {
        QUIET;
        Op o; o.kind = kind; o.arg = arg; o.who = sim_self(); o.name = name; o.call = sim_stamp();
        ops.push_back(o);
        return int(ops.size()) - 1;
    }
    void end(int i, int res) { QUIET; ops[i].res = res; ops[i].ret = sim_stamp(); }
    std::string text() const
    {
        std::string s;
        std::vector<const Op *> v;
        for (auto &o : ops) v.push_back(&o);
        std::sort(v.begin(), v.end(), [](const Op *a, const Op *b) { return a->call < b->call; });
        for (auto *o : v) {
            char b[96];
            if (o->ret == UINT64_MAX) snprintf(b, sizeof b, " T%d:%s(%d)@%lu-never;", o->who, o->name, o->arg, (unsigned long)o->call);
            else snprintf(b, sizeof b, " T%d:%s(%d)=%d@%lu-%lu;", o->who, o->name, o->arg, o->res, (unsigned long)o->call, (unsigned long)o->ret);
            if (s.size() < 500) s += b;
        }
        return s;
    }
};

// State: copyable with std::string key() const. step(state, op) -> may op take effect now, with its recorded result? If so it changes state.
// Operations that never returned may be left out when blocked(state, op) holds in the final state, or when they are optional.
template <typename State, typename Step, typename Blocked>
struct Linearizer {
    const std::vector<Op> &ops;
    Step step;
    Blocked blocked;
    std::unordered_set<std::string> seen;
    uint64_t nodes = 0;
    bool gave_up = false;

    bool done_is_final(const State &s, uint64_t mask)
    {
        for (size_t i = 0; i < ops.size(); ++i) {
            if (mask >> i & 1) continue;
            if (ops[i].ret != UINT64_MAX) return false;
            if (ops[i].optional) continue;
            if (!blocked(s, ops[i])) return false;
        }
        return true;
    }
    bool rec(const State &s, uint64_t mask)
    {
        if (++nodes > 200000) { gave_up = true; return true; }
        if (done_is_final(s, mask)) return true;
        std::string k = s.key();
        k.append((const char *)&mask, 8);
        if (!seen.insert(k).second) return false;
        uint64_t limit = UINT64_MAX;                 // nothing may be placed that was called after something unplaced had returned
        for (size_t i = 0; i < ops.size(); ++i) if (!(mask >> i & 1)) limit = std::min(limit, ops[i].ret);
        for (size_t i = 0; i < ops.size(); ++i) {
            if (mask >> i & 1 || ops[i].call > limit) continue;
            if (ops[i].after >= 0 && !(mask >> ops[i].after & 1)) continue;
            State n = s;
            if (!step(n, ops[i])) continue;
            if (rec(n, mask | 1ull << i)) return true;
            if (gave_up) return true;
        }
        return false;
    }
};
template <typename State, typename Step, typename Blocked>
inline bool linearizable(const std::vector<Op> &ops, const State &init, Step step, Blocked blocked)
{
    QUIET;
    if (ops.size() > 64) { sim_probe("history too long to check"); return true; }
    Linearizer<State, Step, Blocked> l{ops, step, blocked};
    bool ok = l.rec(init, 0);
    if (l.gave_up) sim_probe("history check gave up");
    return ok;
}
