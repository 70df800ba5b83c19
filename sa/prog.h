// Loading and resolving the analysed program (LLVM bitcode of all of /repo's sources).
#pragma once
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

struct FieldRef {
    std::string cls;   // qualified class name, e.g. srtc::PeerCandidate
    std::string name;  // member name (first level below cls)
    uint64_t rest = 0; // byte offset inside the member
    std::string outer; // outermost member it lies in, when that member is itself a project structure
    const DIType* type = nullptr; // declared type of the member
    explicit operator bool() const { return !name.empty(); }
    std::string str() const { return cls + "::" + name; }
    bool operator<(const FieldRef& o) const { return std::tie(cls, name) < std::tie(o.cls, o.name); }
};

class Program
{
public:
    LLVMContext ctx;
    std::unique_ptr<Module> mod;

    bool load(const std::string& path);
    void prepareFlow();   // pipeline for the flow engines
    void index();         // builds the tables below; call after a pipeline

    // naming
    std::string name(const Function* f) const;      // demangled, no parameters, no template noise for project code
    const std::string& fullName(const Function* f) const; // demangled
    bool isProject(const Function* f) const;
    bool isStd(const Function* f) const;
    static std::string loc(const Instruction* i);
    static std::string loc(const Function* f);
    static std::string file(const Function* f);

    // call graph
    std::vector<Function*> callees(const CallBase* cb) const;       // resolved targets (direct, virtual, std::function)
    const std::vector<CallBase*>& callersOf(const Function* f) const; // resolved call sites
    bool addressTaken(const Function* f) const;                      // escapes into a data structure other than a vtable / a resolved std::function
    std::vector<Function*> funcs;          // project functions with a body
    std::vector<Function*> all;            // all functions with a body
    std::set<const Function*> threadRoots; // passed to std::thread
    std::map<const CallBase*, std::vector<Function*>> vcalls;

    // types
    const DIType* pointee(const Value* v, int depth = 0) const; // type a pointer value points at
    const DIType* typeOf(const Value* v, int depth = 0) const;  // declared type of a value
    std::string pointeeName(const Value* v) const;
    FieldRef field(const Value* ptr) const; // which member does this address denote
    static const DIType* strip(const DIType* t); // typedefs, cv
    static std::string typeName(const DIType* t);
    const DICompositeType* composite(const std::string& qualified) const;

    // partial evaluation: a copy of f with project callees inlined (except those in keep) and assumptions applied
    struct SpecOpts {
        std::function<bool(const Function*)> keep;                          // callees left as calls
        std::function<std::optional<int64_t>(const Value*)> assume;         // integer values fixed in the copy
        std::function<bool(const Function*)> inlineLib;                     // library callees to inline as well
        std::function<void(Function&)> before;                              // applied after inlining, before simplification
        unsigned maxInstr = 30000;
        bool simplify = true;
        bool gvn = true;
        bool arrayBounds = false;                                           // indices of member arrays stay inside the array
        bool unroll = false;                                                // fully unroll constant loops and remove dead stores
    };
    Function* specialise(const Function* f, const SpecOpts& o);
    void describe(Function& f); // types of arguments and locals from debug info

    const DataLayout& dl() const { return mod->getDataLayout(); }

private:
    bool mTagged = false;
    std::vector<std::vector<Function*>> mTagTargets;
    void tagCalls();
    mutable DenseMap<const Function*, std::string> mFull;
    mutable DenseMap<const Function*, std::string> mName;
    std::map<std::string, const DICompositeType*> mTypes;
    DenseMap<const Argument*, const DIType*> mArgTypes;
    DenseMap<const AllocaInst*, const DIType*> mAllocaTypes;
    DenseMap<const Function*, std::vector<CallBase*>> mCallers;
    std::map<std::string, std::vector<Function*>> mFunctionHandlers; // signature -> _M_invoke
    std::set<const Function*> mEscaped;
    std::map<const CallBase*, std::vector<Function*>> mObjectTargets; // calls of std::function members, resolved by what is stored there
    void resolveFunctionObjects();
    mutable std::map<const Value*, FieldRef> mFieldCache;
    mutable int mFieldDepth = 0;
    FieldRef fieldUncached(const Value* ptr) const;
    FieldRef fieldIn(const DIType* t, uint64_t off) const;
};

std::string demangleNoParams(const std::string& full);
bool startsWith(const std::string& s, const char* p);
bool endsWith(const std::string& s, const char* p);
bool contains(const std::string& s, const char* p);
