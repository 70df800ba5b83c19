// Rule registry: property id -> analysis.
#pragma once
#include "flow.h"
#include "prog.h"

struct Violation {
    std::string rule, where, fn, detail;
    std::vector<std::string> chain;
};

struct Report {
    std::vector<Violation> violations;
    std::vector<std::string> errors;                        // anchors not found: no answer
    std::map<std::string, std::vector<std::string>> sites;  // rule -> analysed sites
    std::map<std::string, int64_t> counts;
    std::vector<std::string> assumptions;
    int64_t obligations = 0, discharged = 0;
    void viol(const std::string& rule, const std::string& where, const std::string& fn, const std::string& detail)
    {
        for (auto& v : violations)
            if (v.rule == rule && v.where == where && v.fn == fn)
                return;
        violations.push_back({ rule, where, fn, detail, {} });
    }
    void site(const std::string& rule, const std::string& s) { sites[rule].push_back(s); }
    void need(const std::string& what, int64_t have, int64_t min = 1)
    {
        counts[what] = have;
        if (have < min)
            errors.push_back(what + ": " + std::to_string(have) + " found, at least " + std::to_string(min) + " expected");
    }
    void obligation(bool ok)
    {
        obligations++;
        if (ok)
            discharged++;
    }
};

using RuleFn = void (*)(Program&, Report&);
struct Rule {
    const char* id;
    const char* pipeline; // which preparation the rule needs
    RuleFn fn;
};
extern const std::vector<Rule>& allRules();

// adds a flow result to the report; every sink must have matched at least minCount sites
void addFlow(Report& r, const FlowSpec& s, const FlowResult& f);

// helpers
std::string callee(const CallBase* cb); // C name of a direct callee
bool calls(const Instruction* i, const char* cname);
const CallBase* asCall(const Instruction* i);
bool isMethod(Program& p, const Function* f, const char* qualified); // exact qualified name without parameters
const Value* stripCasts(const Value* v);
