#include "rules.h"
void registerAuth(std::vector<Rule>&);
void registerBounds(std::vector<Rule>&);
void registerSend(std::vector<Rule>&);
void registerKeys(std::vector<Rule>&);
void registerMore(std::vector<Rule>&);
const std::vector<Rule>& allRules()
{
    static std::vector<Rule> v = [] {
        std::vector<Rule> r;
        registerAuth(r);
        registerBounds(r);
        registerSend(r);
        registerKeys(r);
        registerMore(r);
        return r;
    }();
    return v;
}
