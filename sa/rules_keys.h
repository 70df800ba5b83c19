#pragma once
#include "rules.h"
const Function* findFn(Program& p, const std::string& name);
int64_t memberOffset(const DICompositeType* c, const char* name);
void pathsBetween(const Instruction* from, const Instruction* to, const std::function<void(const std::vector<const Instruction*>&)>& visit, int& budget);
void srtpCoverage(Program& p, Report& r);  // integrity covers the whole packet
void packetIndices(Program& p, Report& r); // C14: where indices come from
