// Bounds engine: abstract interpretation over conjunctions of linear inequalities with bounded disjunction.
// Loops are handled by template invariants (guess, then keep what is inductive).
#pragma once
#include "prog.h"
#include <map>
#include <ctime>
#include <set>

struct BoundsFinding {
    std::string where, fn, what, root;
    const Function* lift = nullptr;
    bool operator<(const BoundsFinding& o) const { return std::tie(where, fn, what) < std::tie(o.where, o.fn, o.what); }
};
// Relations between the members of one class that hold whenever no member is being updated.
struct ClassInv {
    struct Mem {
        std::string name;
        int64_t off;
        int bytes;
        bool ptr;
    };
    struct Rel {
        enum K { Ext, Le, Min } k; // Ext: at least b bytes are valid at pointer a; Le: a <= b; Min: a >= constant b
        int a, b;
        bool on = true;
    };
    std::string cls;
    std::vector<Mem> mem;
    std::vector<Rel> rel;
};
struct BoundsResult {
    std::map<std::pair<std::string, int>, std::string> broken; // relations found not to hold -> where
    std::set<BoundsFinding> failed;
    std::map<std::string, int> kinds; // obligation kind -> proved
    int obligations = 0, proved = 0, loops = 0, states = 0;
    bool gaveUp = false;
};
struct BoundsOpts {
    std::function<bool(const Function*)> inlineFn; // callees analysed inside the caller
    std::function<bool(const Function*)> ignore;   // calls without any effect
    // the buffer at an argument (number, offset) holds at least so many bytes when the function is called
    std::function<bool(const Function*, unsigned&, int64_t&, int64_t&)> minSize;
    bool paddedWalk = false; // positions may step over up to three padding bytes behind the end
    const std::map<std::string, ClassInv>* inv = nullptr;
    const std::map<std::string, int64_t>* fixedBuffers = nullptr; // pointer members that always hold a buffer of this size
    const std::set<std::string>* immutable = nullptr; // members that keep the value the constructor gave them
};
extern time_t boundsDeadline; // when the analysis stops with what it has
BoundsResult boundsOf(Program& p, const Function* f, const BoundsOpts& o);
