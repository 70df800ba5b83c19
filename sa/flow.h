// Engine B: path-sensitive must-fact flow (disjunctive dataflow with summaries and entry facts).
#pragma once
#include "prog.h"

struct Range {
    int64_t lo = INT64_MIN, hi = INT64_MAX;
    bool nz = false; // zero excluded
    static Range all() { return {}; }
    static Range eq(int64_t v) { return { v, v, false }; }
    static Range nonzero() { return { INT64_MIN, INT64_MAX, true }; }
    static Range ge(int64_t v) { return { v, INT64_MAX, false }; }
    static Range le(int64_t v) { return { INT64_MIN, v, false }; }
    bool empty() const { return lo > hi || (lo == 0 && hi == 0 && nz); }
    bool isAll() const { return lo == INT64_MIN && hi == INT64_MAX && !nz; }
    bool isConst() const { return lo == hi && !empty(); }
    Range meet(const Range& o) const
    {
        Range r{ std::max(lo, o.lo), std::min(hi, o.hi), nz || o.nz };
        r.norm();
        return r;
    }
    Range join(const Range& o) const
    {
        bool n = !contains(0) && !o.contains(0);
        Range r{ std::min(lo, o.lo), std::max(hi, o.hi), n };
        r.norm();
        return r;
    }
    bool contains(int64_t v) const { return v >= lo && v <= hi && !(nz && v == 0); }
    bool within(const Range& o) const
    {
        return lo >= o.lo && hi <= o.hi && (!o.nz || !contains(0));
    }
    void norm()
    {
        if (nz && lo == 0 && hi >= 0)
            lo = 1;
        if (nz && hi == 0 && lo <= 0)
            hi = -1;
        if (lo > 0 || hi < 0)
            nz = false;
    }
    bool operator==(const Range& o) const { return lo == o.lo && hi == o.hi && nz == o.nz; }
    bool operator<(const Range& o) const { return std::tie(lo, hi, nz) < std::tie(o.lo, o.hi, o.nz); }
    std::string str() const;
};

using FactSet = uint64_t; // up to 64 facts per query

struct FlowSpec {
    struct CallFact {
        int id;
        std::function<bool(const CallBase*, const Function*)> match;
        Range when; // All = merely executed
    };
    struct FieldFact {
        int id;
        std::function<bool(const FieldRef&)> match;
        Range when;
        bool ne = false;   // holds when the field is known to differ from value
        int64_t value = 0;
        bool holds(const Range& r) const { return ne ? !r.contains(value) : r.within(when); }
        bool refuted(const Range& r) const { return ne ? r == Range::eq(value) : r.meet(when).empty(); }
    };
    void differs(int id, std::function<bool(const FieldRef&)> m, int64_t v) { fields.push_back({ id, m, Range::all(), true, v }); }
    struct CmpFact {
        int id;
        std::function<bool(const ICmpInst*, const std::function<const Value*(const Value*)>&)> match; // holds when the (in)equality compares equal; the resolver maps phis/selects to the value chosen on the path
        bool ne = false; // holds when it compares unequal instead
    };
    struct PredFact {
        int id;
        // holds on paths where the comparison came out as truth
        std::function<bool(const ICmpInst*, bool truth, const std::function<const Value*(const Value*)>&)> match;
    };
    struct EventFact {
        int id;
        std::function<bool(const Instruction*)> match;
        FactSet kills = 0;
        bool gens = true;
    };
    struct Sink {
        std::string rule;                                    // text for the report
        std::function<bool(const Instruction*)> match;       // instruction reached
        std::function<bool(FactSet)> ok;                     // requirement on the facts held just before it
        std::function<bool(const Instruction*, FactSet)> okAt;
        bool ret = false;                                    // sink is "function returns value in retRange"
        std::function<bool(const Function*)> retFn;
        Range retRange;
        int minCount = 1;
    };
    std::vector<std::string> factNames;
    std::vector<CallFact> calls;
    std::vector<FieldFact> fields;
    std::vector<CmpFact> cmps;
    std::vector<PredFact> preds;
    struct LoadFact {
        int id;
        std::function<bool(const LoadInst*)> match; // holds when the loaded value is known to lie in the range
        Range when;
    };
    std::vector<LoadFact> loads;
    std::vector<EventFact> events;
    std::vector<Sink> sinks;
    std::function<bool(const Function*)> isRoot;  // extra roots (entered with no facts)
    std::function<bool(const Function*)> skip;    // functions not descended into
    std::set<const Function*> only;               // when not empty: these functions are analysed one by one, calls have no effect but their own facts
    // calls whose effects must not contribute facts (e.g. asynchronous dispatch)
    int fact(const std::string& n)
    {
        factNames.push_back(n);
        if (factNames.size() > 64)
            abort();
        return factNames.size() - 1;
    }
    void call(int id, std::function<bool(const CallBase*, const Function*)> m, Range r = Range::all()) { calls.push_back({ id, m, r }); }
};

struct FlowViolation {
    std::string rule, where, fn, detail;
    std::vector<std::string> chain;
};

struct FlowResult {
    std::vector<FlowViolation> violations;
    std::map<std::string, int> sinkCount;      // rule -> sites
    std::map<std::string, std::vector<std::string>> sinkSites;
    std::map<int, int> factSites;              // fact -> matched sites
    int functions = 0, states = 0, widened = 0;
    std::vector<std::string> factNames;
    std::map<std::string, std::set<std::string>> factAt; // fact -> source locations that establish it
};

FlowResult runFlow(Program& p, FlowSpec& spec);
