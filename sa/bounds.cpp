#include "bounds.h"
#include "rules.h"
#include "rules_util.h"
#include "llvm/ADT/PostOrderIterator.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/Support/raw_ostream.h"
#include <algorithm>
#include <unordered_map>

namespace
{

bool g_trace = getenv("SA_TRACE") != nullptr;

// ---------------------------------------------------------------- linear expressions
// sorted small vector with the interface of a map
struct Terms {
    using Item = std::pair<int, int64_t>;
    SmallVector<Item, 4> v;
    auto begin() { return v.begin(); }
    auto end() { return v.end(); }
    auto begin() const { return v.begin(); }
    auto end() const { return v.end(); }
    bool empty() const { return v.empty(); }
    size_t size() const { return v.size(); }
    const Item* pos(int k) const
    {
        auto* p = v.begin();
        while (p != v.end() && p->first < k)
            ++p;
        return p;
    }
    const Item* find(int k) const
    {
        auto* p = pos(k);
        return p != v.end() && p->first == k ? p : v.end();
    }
    bool count(int k) const { return find(k) != v.end(); }
    int64_t at(int k) const { return find(k)->second; }
    int64_t& operator[](int k)
    {
        auto* p = const_cast<Item*>(pos(k));
        if (p == v.end() || p->first != k)
            p = v.insert(p, { k, 0 });
        return p->second;
    }
    void erase(int k)
    {
        auto* p = find(k);
        if (p != v.end())
            v.erase(const_cast<Item*>(p));
    }
    bool operator==(const Terms& o) const { return v == o.v; }
    bool operator<(const Terms& o) const { return v < o.v; }
};
struct TermsHash {
    size_t operator()(const Terms& t) const
    {
        size_t h = 1469598103934665603ull;
        for (auto& [a, k] : t.v)
            h = (h ^ (size_t(a) * 0x9e3779b97f4a7c15ull + size_t(k))) * 1099511628211ull;
        return h ^ (h >> 29);
    }
};
struct LE {
    int64_t c = 0;
    Terms t;
    bool bad = false; // overflow while computing
    LE() = default;
    explicit LE(int64_t k) : c(k) {}
    static LE atom(int a) { LE r; r.t[a] = 1; return r; }
    bool isConst() const { return t.empty(); }
    bool operator==(const LE& o) const { return c == o.c && t == o.t; }
    bool operator!=(const LE& o) const { return !(*this == o); }
    bool operator<(const LE& o) const { return c != o.c ? c < o.c : t < o.t; }
};
LE add(const LE& a, const LE& b, int64_t k = 1)
{
    LE r = a;
    r.bad = a.bad || b.bad;
    int64_t m;
    auto mac = [&](int64_t& x, int64_t y) {
        if (__builtin_mul_overflow(y, k, &m) || __builtin_add_overflow(x, m, &x))
            r.bad = true;
    };
    mac(r.c, b.c);
    for (auto& [v, q] : b.t) {
        auto& x = r.t[v];
        mac(x, q);
        if (x == 0)
            r.t.erase(v);
    }
    return r;
}
LE operator+(const LE& a, const LE& b) { return add(a, b); }
LE operator-(const LE& a, const LE& b) { return add(a, b, -1); }
LE operator+(const LE& a, int64_t k) { return add(a, LE(k)); }
LE operator-(const LE& a, int64_t k) { return add(a, LE(k), -1); }
LE scaled(const LE& a, int64_t k) { return k == 0 ? LE() : add(LE(), a, k); }
LE subst(const LE& e, int a, const LE& v)
{
    auto it = e.t.find(a);
    if (it == e.t.end())
        return e;
    LE r = e;
    int64_t k = it->second;
    r.t.erase(a);
    return add(r, v, k);
}

// ---------------------------------------------------------------- predicates
struct BoolE;
using BoolP = std::shared_ptr<const BoolE>;
struct BoolE {
    enum K { Const, Ge, Eq, And, Or, Not, Unknown } k;
    bool val = false;
    LE e; // Ge: e >= 0, Eq: e == 0
    BoolP a, b;
};
BoolP mkB(BoolE::K k, LE e = {}) { auto r = std::make_shared<BoolE>(); r->k = k; r->e = e; return r; }
BoolP mkC(bool v) { auto r = std::make_shared<BoolE>(); r->k = BoolE::Const; r->val = v; return r; }
BoolP mk2(BoolE::K k, BoolP a, BoolP b = nullptr) { auto r = std::make_shared<BoolE>(); r->k = k; r->a = a; r->b = b; return r; }
bool sameB(const BoolP& a, const BoolP& b)
{
    if (a == b)
        return true;
    if (!a || !b || a->k != b->k)
        return false;
    switch (a->k) {
    case BoolE::Const: return a->val == b->val;
    case BoolE::Ge:
    case BoolE::Eq: return a->e == b->e;
    case BoolE::Unknown: return false;
    default: return sameB(a->a, b->a) && (a->k == BoolE::Not || sameB(a->b, b->b));
    }
}

struct AtomInfo {
    std::string name;
    bool lo = true;          // >= 0
    bool hasHi = false;
    int64_t hi = 0;
    bool ptr = false;
    bool maybeNull = false;
    bool hasExt = false;
    LE ext;                  // bytes valid from this address
    bool byteLike = false;   // pointer to raw bytes whose extent must be known
    bool neg = false;        // a negative error result
    int64_t flatSize = -1;   // class pointer: size of the object
};

enum Tag { Plain = 0, Size = 1, Data = 2, Cap = 3 };
struct Key {
    int base;
    int64_t off;
    int tag;
    bool operator<(const Key& o) const { return std::tie(base, off, tag) < std::tie(o.base, o.off, o.tag); }
    bool operator==(const Key& o) const { return base == o.base && off == o.off && tag == o.tag; }
};
struct Cell {
    LE v;
    int bytes = 8;
    BoolP b;
    std::string field;
    bool operator==(const Cell& o) const { return v == o.v && bytes == o.bytes && sameB(b, o.b); }
};

// map whose copies share their storage until one of them is changed
template <class K, class V> struct Cow {
    using M = std::map<K, V>;
    std::shared_ptr<M> p;
    static const M& none()
    {
        static const M m;
        return m;
    }
    const M& get() const { return p ? *p : none(); }
    M& w()
    {
        if (!p)
            p = std::make_shared<M>();
        else if (p.use_count() > 1)
            p = std::make_shared<M>(*p);
        return *p;
    }
    auto begin() const { return get().begin(); }
    auto end() const { return get().end(); }
    auto find(const K& k) const { return get().find(k); }
    size_t count(const K& k) const { return get().count(k); }
    size_t size() const { return get().size(); }
    const V& at(const K& k) const { return get().at(k); }
    V& operator[](const K& k) { return w()[k]; }
    void erase(const K& k)
    {
        if (get().count(k))
            w().erase(k);
    }
    template <class F> void eraseIf(F f)
    {
        bool any = false;
        for (auto& [k, v] : get())
            if (f(k, v)) {
                any = true;
                break;
            }
        if (!any)
            return;
        auto& m = w();
        for (auto it = m.begin(); it != m.end();)
            it = f(it->first, it->second) ? m.erase(it) : std::next(it);
    }
    bool operator==(const Cow& o) const { return p == o.p || get() == o.get(); }
    bool operator!=(const Cow& o) const { return !(*this == o); }
};
struct State {
    std::vector<LE> rows;
    Cow<const Value*, LE> bind;
    Cow<const Value*, BoolP> bools;
    Cow<Key, Cell> mem;
    bool dead = false;
    std::set<std::tuple<int, int64_t, std::string>> dirty; // objects whose members are being updated
};

// ---------------------------------------------------------------- the engine
struct Engine {
    Program& P;
    Function* F;
    const Function* F0;
    const BoundsOpts& O;
    BoundsResult R;
    std::vector<AtomInfo> atoms;
    std::map<std::string, int> named;
    std::unique_ptr<DominatorTree> DT;
    std::unique_ptr<LoopInfo> LI;
    std::map<const BasicBlock*, int> order;
    std::map<const BasicBlock*, std::set<const BasicBlock*>> reach;
    bool report = true, optimistic = false;
    std::vector<LE>* guards = nullptr; // rows seen while scouting
    int64_t work = 0;
    int64_t maxWork = 2000000000;
    std::map<std::string, bool> okAt; // obligation key -> all proved
    std::map<std::string, BoundsFinding> failAt;
    std::map<std::string, std::string> kindAt;

    Engine(Program& p, Function* f, const Function* f0, const BoundsOpts& o) : P(p), F(f), F0(f0), O(o) {}

    // ---- atoms
    int fresh(const std::string& name)
    {
        AtomInfo a;
        a.name = name;
        atoms.push_back(a);
        return atoms.size() - 1;
    }
    int atomFor(const std::string& key)
    {
        auto it = named.find(key);
        if (it != named.end())
            return it->second;
        return named[key] = fresh(key);
    }
    std::string id(const Value* v) { char b[32]; snprintf(b, sizeof b, "%p", (const void*)v); return b; }
    static std::string keyOf(const LE& e)
    {
        std::string s = std::to_string(e.c);
        for (auto& [k, v] : e.t)
            s += "+" + std::to_string(v) + "a" + std::to_string(k);
        return s;
    }
    std::string show(const LE& e)
    {
        std::string s;
        for (auto& [k, v] : e.t)
            s += (s.empty() ? "" : " + ") + (v == 1 ? "" : std::to_string(v) + "*") + atoms[k].name;
        if (e.c || s.empty())
            s += (s.empty() ? "" : " + ") + std::to_string(e.c);
        return s;
    }
    LE typed(int a, Type* t)
    {
        auto& i = atoms[a];
        if (t->isPointerTy())
            i.ptr = true;
        else if (t->isIntegerTy() && t->getIntegerBitWidth() < 63) {
            i.hasHi = true;
            i.hi = (int64_t(1) << t->getIntegerBitWidth()) - 1;
        }
        return LE::atom(a);
    }
    static int64_t maxOf(Type* t) { return t->isIntegerTy() && t->getIntegerBitWidth() < 63 ? (int64_t(1) << t->getIntegerBitWidth()) - 1 : INT64_MAX / 2; }

    // ---- entailment: is rows /\ not(goal >= 0) infeasible (integers, Fourier-Motzkin with gcd tightening)
    static void tighten(LE& r)
    {
        int64_t g = 0;
        for (auto& [v, k] : r.t)
            g = std::__gcd(g, k < 0 ? -k : k);
        if (g > 1) {
            for (auto& [v, k] : r.t)
                k /= g;
            int64_t c = r.c / g;
            if (r.c % g != 0 && r.c < 0)
                c--;
            r.c = c;
        }
    }
    struct PairHash {
        size_t operator()(const std::pair<uint64_t, uint64_t>& p) const { return p.first; }
    };
    std::unordered_map<std::pair<uint64_t, uint64_t>, bool, PairHash> memo;
    long nMemo = 0, nSimplex = 0, nFm = 0, fmYes = 0; clock_t tS = 0, tF = 0;
    ~Engine() { if (getenv("SA_STAT")) errs() << "memo " << nMemo << " simplex " << nSimplex << " " << tS / 1000 << " ms, fm " << nFm << " yes " << fmYes << " " << tF / 1000 << " ms\n"; }
    static uint64_t mix(uint64_t x)
    {
        x ^= x >> 31;
        x *= 0x7fb5d329728ea185ull;
        x ^= x >> 27;
        x *= 0x81dadef4bc2dd44dull;
        return x ^ (x >> 33);
    }
    using RowsP = std::vector<const LE*>;
    bool infeasible(const RowsP& rows0)
    {
        // order independent 128 bit hash of the rows
        std::pair<uint64_t, uint64_t> key{ 0, rows0.size() };
        for (auto* r : rows0) {
            if (r->bad)
                continue;
            uint64_t h = mix(r->c + 0x9e3779b97f4a7c15ull), g = h ^ 0x5851f42d4c957f2dull;
            for (auto& [v, k] : r->t) {
                h = mix(h ^ (uint64_t(v) * 0xd1342543de82ef95ull + uint64_t(k)));
                g = mix(g + (uint64_t(v) * 0x2545f4914f6cdd1dull ^ uint64_t(k)));
            }
            key.first += h;
            key.second += mix(g);
        }
        work += 1;
        auto it = memo.find(key);
        if (it != memo.end() && ++nMemo)
            return it->second;
        if (memo.size() > 2000000)
            memo.clear();
        bool odd = false;
        auto t0 = clock(); int q = simplex(rows0, odd); nSimplex++; tS += clock() - t0; t0 = clock();
        bool r = q == 1;
        if (q == 2 || (q == 0 && odd))
            r = infeasible2(rows0), nFm++, fmYes += r, tF += clock() - t0;
        return memo[key] = r;
    }
    // Feasibility over the rationals (exact). 1: infeasible, 0: feasible, 2: not decided
    int simplex(const RowsP& rowsP, bool& odd)
    {
        std::map<int, int> col;
        for (auto* r : rowsP)
            for (auto& [v, k] : r->t) {
                col.insert({ v, 0 });
                odd = odd || (k != 1 && k != -1);
            }
        int n = 0;
        std::vector<bool> isFree;
        std::vector<int> atomOf;
        for (auto& [v, c] : col) {
            c = n++;
            isFree.push_back(!atoms[v].lo);
            atomOf.push_back(v);
        }
        // den * basic = row[n] + sum row[j] * nonbasic j, with den = row[n + 1]
        std::vector<std::vector<int64_t>> T;
        std::set<std::vector<int64_t>> have;
        auto addT = [&](const LE& r) {
            std::vector<int64_t> t(n + 2, 0);
            for (auto& [v, k] : r.t)
                t[col[v]] = k;
            t[n] = r.c;
            t[n + 1] = 1;
            if (have.insert(t).second)
                T.push_back(std::move(t));
        };
        for (auto* rp : rowsP) {
            auto& r = *rp;
            if (r.bad)
                continue;
            if (r.t.empty()) {
                if (r.c < 0)
                    return 1;
                continue;
            }
            addT(r);
        }
        for (int j = 0; j < n; j++)
            if (atoms[atomOf[j]].hasHi)
                addT(LE(atoms[atomOf[j]].hi) - LE::atom(atomOf[j]));
        std::vector<bool> gone(T.size(), false);
        // Bland's rule needs an order of the variables: columns carry ids, slack i has id n + i
        std::vector<int> colId(n), rowId(T.size());
        for (int j = 0; j < n; j++)
            colId[j] = j;
        for (size_t i = 0; i < T.size(); i++)
            rowId[i] = n + i;
        bool over = false;
        auto mul = [&](int64_t a, int64_t b) {
            int64_t r;
            if (__builtin_mul_overflow(a, b, &r))
                over = true;
            return r;
        };
        auto plus = [&](int64_t a, int64_t b) {
            int64_t r;
            if (__builtin_add_overflow(a, b, &r))
                over = true;
            return r;
        };
        auto pivot = [&](size_t i, int j) {
            auto& r = T[i];
            // den * b = c + k * x + rest   ->   k * x = den * b - c - rest
            int64_t k = r[j], den = r[n + 1];
            int sg = k < 0 ? -1 : 1;
            for (int q = 0; q <= n; q++)
                r[q] = -sg * r[q];
            r[j] = sg * den;
            r[n + 1] = sg * k;
            std::swap(rowId[i], colId[j]);
            for (size_t m = 0; m < T.size(); m++) {
                if (m == i || gone[m] || T[m][j] == 0)
                    continue;
                auto& t = T[m];
                int64_t f = t[j], d = r[n + 1], g = std::__gcd(f < 0 ? -f : f, d);
                int64_t f1 = f / g, d1 = d / g;
                t[j] = 0;
                bool big = false;
                for (int q = 0; q <= n; q++) {
                    t[q] = r[q] ? plus(d1 == 1 ? t[q] : mul(t[q], d1), mul(f1, r[q])) : (d1 == 1 ? t[q] : mul(t[q], d1));
                    big = big || t[q] > 1000 || t[q] < -1000;
                }
                t[n + 1] = mul(t[n + 1], d1);
                if (big || t[n + 1] > 1) {
                    int64_t h = t[n + 1];
                    for (int q = 0; q <= n && h != 1; q++)
                        if (t[q])
                            h = std::__gcd(h, t[q] < 0 ? -t[q] : t[q]);
                    if (h > 1)
                        for (auto& x : t)
                            x /= h;
                }
            }
        };
        for (int j = 0; j < n; j++) {
            if (!isFree[j])
                continue;
            int at = -1;
            for (size_t i = 0; i < T.size(); i++)
                if (!gone[i] && T[i][j] != 0 && (at < 0 || (T[i][j] == 1 || T[i][j] == -1)))
                    at = i;
            if (at < 0)
                continue;
            pivot(at, j);
            gone[at] = true; // the free quantity itself is not bounded
            if (over)
                return 2;
        }
        for (int step = 0; step < 400; step++) {
            int bi = -1;
            for (size_t i = 0; i < T.size(); i++)
                if (!gone[i] && T[i][n] < 0 && (bi < 0 || rowId[i] < rowId[bi]))
                    bi = i;
            if (bi < 0)
                return 0;
            int bj = -1;
            for (int j = 0; j < n; j++)
                if (T[bi][j] > 0 && (bj < 0 || colId[j] < colId[bj]))
                    bj = j;
            if (bj < 0)
                return 1;
            pivot(bi, bj);
            work += T.size();
            if (over)
                return 2;
        }
        return 2;
    }
    bool infeasible2(const RowsP& rows)
    {
        using M = std::unordered_map<Terms, int64_t, TermsHash>;
        auto addRow = [](M& m, LE r) -> bool { // false: contradiction
            if (r.bad)
                return true;
            tighten(r);
            if (r.t.empty())
                return r.c >= 0;
            auto [it, n] = m.insert({ r.t, r.c });
            if (!n && r.c < it->second)
                it->second = r.c;
            return true;
        };
        M m;
        std::set<int> vars;
        for (auto* r : rows) {
            if (!addRow(m, *r))
                return true;
            for (auto& [v, k] : r->t)
                vars.insert(v);
        }
        for (int v : vars) {
            if (atoms[v].lo) {
                LE r = LE::atom(v);
                if (!addRow(m, r))
                    return true;
            }
            if (atoms[v].hasHi) {
                LE r = LE(atoms[v].hi) - LE::atom(v);
                if (!addRow(m, r))
                    return true;
            }
        }
        while (!vars.empty()) {
            // opposite rows that contradict directly, or that form an equality
            LE eq;
            int eqVar = -1;
            size_t eqSize = SIZE_MAX;
            for (auto& [t, c] : m) {
                if (t.v[0].second < 0)
                    continue;
                Terms n = t;
                for (auto& x : n)
                    x.second = -x.second;
                auto it = m.find(n);
                if (it == m.end())
                    continue;
                if (c + it->second < 0)
                    return true;
                if (c + it->second == 0 && t.size() < eqSize)
                    for (auto& [v, k] : t)
                        if (k == 1 || k == -1) {
                            eq.t = t;
                            eq.c = c;
                            eqVar = v;
                            eqSize = t.size();
                            break;
                        }
            }
            M next;
            next.reserve(m.size());
            if (eqVar >= 0) {
                // eqVar = the rest
                int64_t k = eq.t.at(eqVar);
                LE rest = eq;
                rest.t.erase(eqVar);
                rest = scaled(rest, -k);
                vars.erase(eqVar);
                work += m.size();
                for (auto& [t, c] : m) {
                    LE r;
                    r.t = t;
                    r.c = c;
                    if (!addRow(next, subst(r, eqVar, rest)))
                        return true;
                }
                m = std::move(next);
                continue;
            }
            std::unordered_map<int, std::pair<int, int>> cnt;
            for (auto& [t, c] : m)
                for (auto& [v, k] : t)
                    (k > 0 ? cnt[v].first : cnt[v].second)++;
            int best = -1;
            int64_t cost = INT64_MAX;
            for (int v : vars) {
                auto [pos, neg] = cnt[v];
                int64_t k = int64_t(pos) * neg - pos - neg;
                if (k < cost) {
                    cost = k;
                    best = v;
                }
            }
            vars.erase(best);
            std::vector<LE> P_, N_;
            for (auto& [t, c] : m) {
                auto it = t.find(best);
                if (it == t.end())
                    next.insert({ t, c });
                else {
                    LE r;
                    r.t = t;
                    r.c = c;
                    (it->second > 0 ? P_ : N_).push_back(r);
                }
            }
            work += P_.size() * N_.size() + m.size();
            if (P_.size() * N_.size() > 120 || next.size() > 200)
                return false;
            for (auto& x : P_)
                for (auto& y : N_) {
                    int64_t a = x.t.at(best), b = -y.t.at(best);
                    int64_t g = std::__gcd(a, b);
                    LE z = add(scaled(x, b / g), y, a / g);
                    if (!addRow(next, z))
                        return true;
                }
            m = std::move(next);
        }
        return false;
    }
    // rows connected with the goal
    std::vector<char> mark;
    RowsP relevant(const State& s, const LE& g)
    {
        mark.assign(atoms.size(), 0);
        for (auto& [v, k] : g.t)
            mark[v] = 1;
        RowsP r, rest;
        rest.reserve(s.rows.size() + 1);
        r.reserve(s.rows.size() + 1);
        for (auto& x : s.rows)
            rest.push_back(&x);
        for (bool ch = true; ch && !rest.empty();) {
            ch = false;
            size_t w = 0;
            for (auto* x : rest) {
                bool hit = x->t.empty();
                for (auto& [v, k] : x->t)
                    hit = hit || mark[v];
                if (!hit) {
                    rest[w++] = x;
                    continue;
                }
                ch = true;
                for (auto& [v, k] : x->t)
                    mark[v] = 1;
                r.push_back(x);
            }
            rest.resize(w);
        }
        return r;
    }
    bool infeasibleAll(const std::vector<LE>& rows)
    {
        RowsP r;
        for (auto& x : rows)
            r.push_back(&x);
        return infeasible(r);
    }
    bool entails(const State& s, const LE& g)
    {
        if (g.bad)
            return false;
        // interval check first
        int64_t lo = g.c;
        bool ok = true;
        for (auto& [v, k] : g.t) {
            if (k > 0 && atoms[v].lo)
                continue;
            if (k < 0 && atoms[v].hasHi) {
                int64_t m;
                if (__builtin_mul_overflow(k, atoms[v].hi, &m) || __builtin_add_overflow(lo, m, &lo))
                    ok = false;
                continue;
            }
            ok = false;
        }
        if (ok && lo >= 0)
            return true;
        if (g.t.empty())
            return g.c >= 0 || infeasibleAll(s.rows);
        auto rows = relevant(s, g);
        LE no = LE(-1) - g;
        rows.push_back(&no);
        return infeasible(rows);
    }
    void addRow(State& s, const LE& r)
    {
        if (r.bad || (r.t.empty() && r.c >= 0))
            return;
        LE q = r;
        tighten(q);
        for (auto& x : s.rows)
            if (x == q)
                return;
        s.rows.push_back(q);
        if (guards && !q.t.empty())
            guards->push_back(q);
    }
    void addEq(State& s, const LE& r)
    {
        addRow(s, r);
        addRow(s, scaled(r, -1));
    }
    bool feasible(const State& s, const LE& last) { return !infeasible(relevant(s, last)); }

    // ---- values
    LE ev(State& s, const Value* v)
    {
        if (auto* c = dyn_cast<ConstantInt>(v)) {
            if (c->getBitWidth() <= 64) {
                auto z = c->getValue().getZExtValue();
                if (z <= uint64_t(INT64_MAX))
                    return LE(int64_t(z));
            }
            return LE::atom(atomFor("big" + id(v)));
        }
        if (isa<ConstantPointerNull>(v))
            return LE(0);
        if (auto* g = dyn_cast<GlobalVariable>(v)) {
            int a = atomFor("@" + g->getName().str());
            atoms[a].ptr = true;
            atoms[a].hasExt = true;
            atoms[a].ext = LE(int64_t(P.dl().getTypeAllocSize(g->getValueType())));
            return LE::atom(a);
        }
        if (auto* ce = dyn_cast<ConstantExpr>(v)) {
            if (auto* g = dyn_cast<GEPOperator>(ce)) {
                APInt off(64, 0);
                if (g->accumulateConstantOffset(P.dl(), off))
                    return ev(s, g->getPointerOperand()) + off.getSExtValue();
            }
            return typed(atomFor("ce" + id(v)), v->getType());
        }
        auto it = s.bind.find(v);
        if (it != s.bind.end())
            return it->second;
        if (auto* a = dyn_cast<Argument>(v)) {
            LE r = typed(atomFor("arg." + a->getName().str()), a->getType());
            return s.bind[v] = r;
        }
        std::string n = v->hasName() ? v->getName().str() : "v";
        LE r = typed(atomFor(n + "@" + id(v)), v->getType());
        if (auto* i = dyn_cast<Instruction>(v); i && v->getType()->isPointerTy())
            describePtr(r.t.begin()->first, v);
        return s.bind[v] = r;
    }
    void describePtr(int a, const Value* v)
    {
        auto& i = atoms[a];
        i.ptr = true;
        auto n = P.pointeeName(v);
        i.byteLike = n == "unsigned char" || n == "char" || n == "signed char" || n == "std::byte";
    }
    BoolP evB(State& s, const Value* v)
    {
        if (auto* c = dyn_cast<ConstantInt>(v))
            return mkC(!c->isZero());
        auto it = s.bools.find(v);
        if (it != s.bools.end())
            return it->second;
        auto it2 = s.bind.find(v);
        LE e = it2 != s.bind.end() ? it2->second : LE::atom(atomFor("b@" + id(v)));
        if (it2 == s.bind.end()) {
            auto& a = atoms[e.t.begin()->first];
            a.hasHi = true;
            a.hi = 1;
        }
        return s.bools[v] = mkB(BoolE::Ge, e - 1);
    }

    // ---- assumptions
    void assume(std::vector<State>& in, const BoolP& b, bool truth, std::vector<State>& out)
    {
        switch (b->k) {
        case BoolE::Const:
            if (b->val == truth)
                for (auto& s : in)
                    out.push_back(std::move(s));
            return;
        case BoolE::Unknown:
            for (auto& s : in)
                out.push_back(std::move(s));
            return;
        case BoolE::Not:
            return assume(in, b->a, !truth, out);
        case BoolE::And:
        case BoolE::Or: {
            bool conj = (b->k == BoolE::And) == truth;
            if (conj) {
                std::vector<State> mid;
                assume(in, b->a, truth, mid);
                assume(mid, b->b, truth, out);
            } else {
                std::vector<State> copy = in, mid;
                assume(copy, b->a, truth, out);
                assume(in, b->a, !truth, mid);
                assume(mid, b->b, truth, out);
            }
            return;
        }
        case BoolE::Ge: {
            LE r = truth ? b->e : LE(-1) - b->e;
            for (auto& s : in) {
                if (r.bad) {
                    out.push_back(std::move(s));
                    continue;
                }
                addRow(s, r);
                if (feasible(s, r))
                    out.push_back(std::move(s));
            }
            return;
        }
        case BoolE::Eq:
            for (auto& s : in) {
                if (b->e.bad) {
                    out.push_back(std::move(s));
                    continue;
                }
                if (truth) {
                    addEq(s, b->e);
                    if (feasible(s, b->e))
                        out.push_back(std::move(s));
                } else if (entails(s, b->e)) {
                    LE r = b->e - 1;
                    addRow(s, r);
                    if (feasible(s, r))
                        out.push_back(std::move(s));
                } else if (entails(s, scaled(b->e, -1))) {
                    LE r = LE(-1) - b->e;
                    addRow(s, r);
                    if (feasible(s, r))
                        out.push_back(std::move(s));
                } else
                    out.push_back(std::move(s));
            }
            return;
        }
    }

    // ---- obligations
    // the place outside of the buffer classes
    static const DILocation* place(const Instruction* i)
    {
        auto* d = i->getDebugLoc().get();
        while (d && d->getInlinedAt()) {
            auto f = d->getFilename();
            if (f.ends_with("byte_buffer.cpp") || f.ends_with("bit_reader.cpp") || f.contains("/c++/") || f.contains("byte_buffer.h"))
                d = d->getInlinedAt();
            else
                break;
        }
        return d;
    }
    std::string locOf(const Instruction* i)
    {
        auto* d = place(i);
        if (!d)
            return Program::loc(i);
        auto f = d->getFilename();
        for (const char* m : { "/src/", "/include/" }) {
            auto k = f.rfind(m);
            if (k != StringRef::npos) {
                f = f.substr(k + 1);
                break;
            }
        }
        return f.str() + ":" + std::to_string(d->getLine());
    }
    std::string fnOf(const Instruction* i)
    {
        if (auto* d = place(i))
            if (auto* sp = d->getScope()->getSubprogram()) {
                auto n = sp->getLinkageName();
                return demangleNoParams(n.empty() ? sp->getName().str() : demangled(n.str()));
            }
        return P.name(F0);
    }
    static std::string demangled(const std::string& n);
    void obligation(State& s, const Instruction* at, const std::string& kind, const LE& goal, const std::string& text)
    {
        if (goal.bad)
            return;
        bool ok = entails(s, goal);
        if (guards && !goal.t.empty())
            guards->push_back(goal);
        if (report) {
            if (g_trace && getenv("SA_PROOFS"))
                errs() << "GOAL " << (ok ? "ok " : "?? ") << locOf(at) << " " << kind << " " << show(goal) << "\n";
            std::string k = id(at) + "/" + kind;
            kindAt[k] = kind;
            auto it = okAt.find(k);
            if (it == okAt.end())
                okAt[k] = ok;
            else
                it->second = it->second && ok;
            if (!ok && !failAt.count(k)) {
                failAt[k] = { locOf(at), fnOf(at), kind + ": " + text, P.name(F0), F0 };
                if (g_trace) {
                    errs() << "FAIL " << Program::loc(at) << " " << kind << ": " << text << "  goal " << show(goal) << " >= 0\n";
                    for (auto* r : relevant(s, goal))
                        errs() << "      " << show(*r) << " >= 0\n";
                }
            }
        }
        if (!ok)
            addRow(s, goal);
    }
    void violate(const Instruction* at, const std::string& kind, const std::string& text)
    {
        if (!report)
            return;
        std::string k = id(at) + "/" + kind;
        kindAt[k] = kind;
        okAt[k] = false;
        if (!failAt.count(k)) {
            failAt[k] = { locOf(at), fnOf(at), kind + ": " + text, P.name(F0), F0 };
            if (g_trace)
                errs() << "FAIL " << Program::loc(at) << " " << kind << ": " << text << "\n";
        }
    }
    void proved(const Instruction* at, const std::string& kind)
    {
        if (!report)
            return;
        std::string k = id(at) + "/" + kind;
        kindAt[k] = kind;
        okAt.insert({ k, true });
    }

    int baseOf(const LE& p)
    {
        int b = -1, n = 0;
        for (auto& [v, k] : p.t)
            if (atoms[v].ptr && k == 1) {
                b = v;
                n++;
            }
        return n == 1 ? b : -1;
    }
    // bytes [p, p+n) are accessed
    void access(State& s, const Instruction* at, const LE& p, const LE& n, const char* kind, bool deref = false)
    {
        if (n.isConst() && n.c == 0)
            return;
        if (entails(s, scaled(n, -1)))
            return; // nothing is touched
        if (p.t.empty()) {
            if (entails(s, n - 1))
                violate(at, kind, "a null pointer is dereferenced");
            else
                obligation(s, at, kind, scaled(n, -1), "a null pointer is used with a length that may not be zero");
            return;
        }
        int b = baseOf(p);
        if (b < 0)
            return;
        if (atoms[b].maybeNull)
            obligation(s, at, std::string(kind) + " (null)", LE::atom(b) - 1, "the pointer can be null");
        LE off = p - LE::atom(b);
        if (!atoms[b].hasExt) {
            if (atoms[b].byteLike) {
                if (g_trace) errs() << "UNKNOWN " << Program::loc(at) << " " << show(p) << "\n";
                violate(at, kind, "the size of the buffer at " + atoms[b].name + " is not known here");
                return;
            }
            return; // an object reached through a typed pointer
        }
        obligation(s, at, kind, atoms[b].ext - off - n, "the access can end behind the buffer");
        if (!off.t.empty() || off.c < 0)
            obligation(s, at, std::string(kind) + " (start)", off, "the access can start in front of the buffer");
    }

    // ---- memory
    bool keyFor(State& s, const LE& p, int tag, Key& k)
    {
        if (p.t.size() != 1 || p.t.begin()->second != 1)
            return false;
        k = { p.t.begin()->first, p.c, tag };
        return true;
    }
    std::string fieldId(const Value* ptr)
    {
        auto f = P.field(ptr);
        return f ? f.str() : std::string();
    }
    bool isLocal(int base)
    {
        return locals.count(base) && !escaped.count(base);
    }
    std::set<int> locals, escaped; // allocas; those whose address is stored somewhere
    LE load(State& s, const LoadInst* l)
    {
        LE p = ev(s, l->getPointerOperand());
        int64_t n = P.dl().getTypeStoreSize(l->getType());
        access(s, l, p, LE(n), "read");
        arrayIndex(s, l, l->getPointerOperand());
        Key k;
        bool have = keyFor(s, p, Plain, k);
        if (have) {
            auto it = s.mem.find(k);
            if (it != s.mem.end() && it->second.bytes == n) {
                if (it->second.b)
                    s.bools[l] = it->second.b;
                return it->second.v;
            }
        }
        if (have && assumeInvariant(s, l, l->getPointerOperand(), p)) {
            auto it = s.mem.find(k);
            if (it != s.mem.end() && it->second.bytes == n)
                return it->second.v;
        }
        std::string nm = fieldId(l->getPointerOperand());
        if (nm.empty())
            nm = l->hasName() ? l->getName().str() : "mem";
        LE v = typed(atomFor(nm + "@" + id(l)), l->getType());
        int a = v.t.begin()->first;
        if (l->getType()->isPointerTy()) {
            describePtr(a, l);
            if (O.fixedBuffers && !nm.empty()) {
                auto it = O.fixedBuffers->find(nm);
                if (it != O.fixedBuffers->end()) {
                    atoms[a].hasExt = true;
                    atoms[a].ext = LE(it->second);
                }
            }
        }
        if (auto* md = l->getMetadata(LLVMContext::MD_range); md && l->getType()->isIntegerTy()) {
            auto* hi = mdconst::extract<ConstantInt>(md->getOperand(1));
            if (!hi->isNegative() && hi->getZExtValue() > 0) {
                atoms[a].hasHi = true;
                atoms[a].hi = hi->getZExtValue() - 1;
            }
        }
        if (have) {
            Cell c;
            c.v = v;
            c.bytes = n;
            c.field = fieldId(l->getPointerOperand());
            s.mem[k] = c;
        }
        return v;
    }
    // ---- class invariants
    const ClassInv* leafOf(const Value* ptr, int64_t& memberOff)
    {
        if (!O.inv)
            return nullptr;
        auto it = leafCache.find(ptr);
        if (it != leafCache.end()) {
            memberOff = it->second.second;
            return it->second.first;
        }
        const ClassInv* res = nullptr;
        auto f = P.field(ptr);
        int64_t off = 0;
        if (f) {
            std::string cls = f.cls;
            auto* ct = P.composite(cls);
            // offset of the member, then down through nested members
            int64_t rest = f.rest;
            if (ct)
                for (auto* el : ct->getElements())
                    if (auto* d = dyn_cast_or_null<DIDerivedType>(el); d && d->getTag() == dwarf::DW_TAG_member && d->getName() == f.name)
                        rest += d->getOffsetInBits() / 8;
            for (int g = 0; ct && g < 8; g++) {
                auto j = O.inv->find(Program::typeName(ct));
                if (j != O.inv->end()) {
                    res = &j->second;
                    off = rest;
                    break;
                }
                const DICompositeType* next = nullptr;
                for (auto* el : ct->getElements()) {
                    auto* d = dyn_cast_or_null<DIDerivedType>(el);
                    if (!d || d->isStaticMember() || (d->getTag() != dwarf::DW_TAG_member && d->getTag() != dwarf::DW_TAG_inheritance))
                        continue;
                    int64_t o = d->getOffsetInBits() / 8, sz = d->getSizeInBits() / 8;
                    if (auto* bt = Program::strip(d->getBaseType()); bt && !sz)
                        sz = bt->getSizeInBits() / 8;
                    if (rest >= o && rest < o + sz)
                        if (auto* c = dyn_cast_or_null<DICompositeType>(Program::strip(d->getBaseType()))) {
                            next = c;
                            rest -= o;
                            break;
                        }
                }
                if (next && next->isForwardDecl())
                    next = P.composite(Program::typeName(next));
                ct = next;
            }
        }
        leafCache[ptr] = { res, off };
        memberOff = off;
        return res;
    }
    std::map<const Value*, std::pair<const ClassInv*, int64_t>> leafCache;
    bool assumeInvariant(State& s, const Instruction* at, const Value* ptr, const LE& p)
    {
        int64_t mo;
        auto* ci = leafOf(ptr, mo);
        if (!ci)
            return false;
        LE obj = p - mo;
        if (obj.t.size() != 1)
            return false;
        int base = obj.t.begin()->first;
        if (s.dirty.count({ base, obj.c, ci->cls }))
            return false;
        assumeRelations(s, at, *ci, base, obj.c);
        return true;
    }
    void assumeRelations(State& s, const Instruction* at, const ClassInv& ci, int base, int64_t off)
    {
        std::vector<LE> val;
        std::vector<bool> isNew;
        for (auto& m : ci.mem) {
            Key k{ base, off + m.off, Plain };
            auto it = s.mem.find(k);
            if (it != s.mem.end() && it->second.bytes == m.bytes) {
                val.push_back(it->second.v);
                isNew.push_back(false);
                continue;
            }
            int a = atomFor(ci.cls + "::" + m.name + "." + std::to_string(base) + "." + std::to_string(off) + "@" + id(at));
            if (m.ptr) {
                atoms[a].ptr = true;
                atoms[a].byteLike = true;
            } else if (m.bytes < 8) {
                atoms[a].hasHi = true;
                atoms[a].hi = (int64_t(1) << (8 * m.bytes)) - 1;
            }
            Cell c;
            c.v = LE::atom(a);
            c.bytes = m.bytes;
            c.field = ci.cls + "::" + m.name;
            s.mem[k] = c;
            val.push_back(c.v);
            isNew.push_back(true);
        }
        for (auto& r : ci.rel) {
            if (!r.on)
                continue;
            if (r.k == ClassInv::Rel::Min) {
                if (isNew[r.a])
                    addRow(s, val[r.a] - r.b);
                continue;
            }
            const LE &x = val[r.a], &y = val[r.b];
            if (r.k == ClassInv::Rel::Le) {
                if (isNew[r.a] || isNew[r.b])
                    addRow(s, y - x);
            } else if (isNew[r.a]) {
                int a = x.t.begin()->first;
                atoms[a].hasExt = true;
                atoms[a].ext = y;
                if (y.t.size() == 1 && !y.c)
                    typedSize(y.t.begin()->first);
            } else if (isNew[r.b]) {
                typedSize(y.t.begin()->first);
                if (x == LE(0))
                    addRow(s, scaled(y, -1));
                else if (int b = baseOf(x); b >= 0 && atoms[b].hasExt)
                    addRow(s, atoms[b].ext - (x - LE::atom(b)) - y);
            }
        }
    }
    // the members that are not written keep the values they had: bind them first
    void beforeTouch(State& s, const StoreInst* st, const LE& p)
    {
        int64_t mo;
        auto* ci = leafOf(st->getPointerOperand(), mo);
        if (!ci || p.t.size() != 1 || constructing)
            return;
        int base = p.t.begin()->first;
        if (s.dirty.count({ base, p.c - mo, ci->cls }))
            return;
        assumeRelations(s, st, *ci, base, p.c - mo);
    }
    bool constructing = false;
    void touch(State& s, const Value* ptr, const LE& p)
    {
        int64_t mo;
        auto* ci = leafOf(ptr, mo);
        if (!ci)
            return;
        LE obj = p - mo;
        if (obj.t.size() != 1)
            return;
        std::tuple<int, int64_t, std::string> key{ obj.t.begin()->first, obj.c, ci->cls };
        s.dirty.insert(key);
    }
    bool relationHolds(State& s, const ClassInv& ci, const ClassInv::Rel& r, int base, int64_t off)
    {
        auto val = [&](int i) -> std::optional<LE> {
            auto it = s.mem.find({ base, off + ci.mem[i].off, Plain });
            if (it == s.mem.end() || it->second.bytes != ci.mem[i].bytes)
                return std::nullopt;
            return it->second.v;
        };
        if (r.k == ClassInv::Rel::Min) {
            auto v = val(r.a);
            return v && entails(s, *v - r.b);
        }
        auto x = val(r.a), y = val(r.b);
        if (!x || !y)
            return false;
        if (r.k == ClassInv::Rel::Le)
            return entails(s, *y - *x);
        if (entails(s, scaled(*y, -1)))
            return true;
        int b = baseOf(*x);
        if (b < 0 || !atoms[b].hasExt)
            return false;
        LE o = *x - LE::atom(b);
        return entails(s, o) && entails(s, atoms[b].ext - o - *y);
    }
    // objects being updated become visible: the relations have to hold again
    void settle(State& s, const Instruction* at, const CallBase* cb)
    {
        if (!O.inv || s.dirty.empty())
            return;
        for (auto it = s.dirty.begin(); it != s.dirty.end();) {
            auto& [base, off, cls] = *it;
            bool visible = !locals.count(base) || escaped.count(base) || results.count(base);
            if (cb) {
                if (results.count(base) && !escaped.count(base))
                    visible = false;
                for (auto& a : cb->args())
                    if (a->getType()->isPointerTy() && baseOf(ev(s, a.get())) == base)
                        visible = true;
            }
            if (!visible) {
                ++it;
                continue;
            }
            auto& ci = O.inv->at(cls);
            bool passed = !cb;
            if (cb && !endsWith(fnOfTarget(cb), "_init"))
                for (auto& a : cb->args())
                    if (a->getType()->isPointerTy() && baseOf(ev(s, a.get())) == base)
                        passed = true;
            if (!passed && std::any_of(ci.rel.begin(), ci.rel.end(), [](const ClassInv::Rel& r) { return r.k == ClassInv::Rel::Min; })) {
                ++it; // still under construction
                continue;
            }
            for (size_t i = 0; i < ci.rel.size(); i++)
                if (ci.rel[i].on && !(ci.rel[i].k == ClassInv::Rel::Min && !cb) && !relationHolds(s, ci, ci.rel[i], base, off) && report)
                    R.broken.insert({ { cls, int(i) }, locOf(at) + " in " + fnOf(at) });
            it = s.dirty.erase(it);
        }
    }
    std::string fnOfTarget(const CallBase* cb)
    {
        auto* t = target(cb);
        return t ? P.name(t) : "";
    }
    std::set<int> results; // memory of the returned object
    void killOverlap(State& s, const Key& k, int bytes, const std::string& field)
    {
        bool kLocal = isLocal(k.base);
        s.mem.eraseIf([&](const Key& q, const Cell& c) {
            if (q.base == k.base) {
                int64_t a = q.off, b = a + (q.tag == Plain ? c.bytes : 24);
                return k.off < b && k.off + bytes > a && !(q == k);
            }
            // another object of the same class may be the same object
            return !kLocal && q.tag == Plain && !field.empty() && c.field == field && !isLocal(q.base);
        });
    }
    void store(State& s, const StoreInst* st)
    {
        LE p = ev(s, st->getPointerOperand());
        auto* ty = st->getValueOperand()->getType();
        int64_t n = P.dl().getTypeStoreSize(ty);
        access(s, st, p, LE(n), "write");
        arrayIndex(s, st, st->getPointerOperand());
        if (ty->isPointerTy()) {
            LE v = ev(s, st->getValueOperand());
            for (auto& [a, k] : v.t)
                if (locals.count(a))
                    escaped.insert(a);
        }
        Key k;
        if (!keyFor(s, p, Plain, k)) {
            int b = baseOf(p);
            // somewhere inside the object at b
            if (b >= 0)
                s.mem.eraseIf([&](const Key& q, const Cell&) { return q.base == b && q.tag == Plain; });
            return;
        }
        auto field = fieldId(st->getPointerOperand());
        beforeTouch(s, st, p);
        touch(s, st->getPointerOperand(), p);
        killOverlap(s, k, n, field);
        Cell c;
        c.bytes = n;
        c.field = field;
        if (ty->isIntegerTy() || ty->isPointerTy()) {
            c.v = ev(s, st->getValueOperand());
            auto* v = st->getValueOperand();
            if (auto* z = dyn_cast<ZExtInst>(v); z && z->getOperand(0)->getType()->isIntegerTy(1))
                c.b = evB(s, z->getOperand(0));
            s.mem[k] = c;
        } else
            s.mem.erase(k);
    }
    // member and local arrays: the index stays inside the array
    void arrayIndex(State& s, const Instruction* at, const Value* ptr)
    {
        for (int d = 0; d < 6; d++) {
            auto* g = dyn_cast<GetElementPtrInst>(ptr);
            if (!g)
                return;
            Type* t = g->getSourceElementType();
            for (unsigned k = 2; k < g->getNumOperands(); k++) {
                auto* idx = g->getOperand(k);
                if (auto* at2 = dyn_cast<ArrayType>(t)) {
                    if (!isa<ConstantInt>(idx) && at2->getNumElements() > 0)
                        obligation(s, at, "array index", LE(int64_t(at2->getNumElements()) - 1) - ev(s, idx), "the index can be larger than the array");
                    t = at2->getElementType();
                } else if (auto* sty = dyn_cast<StructType>(t)) {
                    auto* c = dyn_cast<ConstantInt>(idx);
                    if (!c)
                        return;
                    t = sty->getElementType(c->getZExtValue());
                } else
                    return;
            }
            ptr = g->getPointerOperand();
        }
    }
    void havocObject(State& s, int base)
    {
        s.mem.eraseIf([&](const Key& q, const Cell&) { return q.base == base; });
    }
    // only the sub-object of the given type size at p
    bool keeps(const Cell& c) { return O.immutable && !c.field.empty() && O.immutable->count(c.field); }
    void havocAt(State& s, const LE& p, int64_t size, bool byMethod = false)
    {
        int b = baseOf(p);
        if (b < 0)
            return;
        bool exact = p.t.size() == 1;
        s.mem.eraseIf([&](const Key& q, const Cell& c) {
            if (byMethod && keeps(c))
                return false;
            return q.base == b && (!exact || size < 0 || (q.off >= p.c && q.off < p.c + size));
        });
    }
    void havocHeap(State& s, const std::set<std::string>* fields)
    {
        s.mem.eraseIf([&](const Key& q, const Cell& c) {
            bool k = !isLocal(q.base);
            if (k && fields && !c.field.empty() && !fields->count(c.field))
                k = false;
            if (k && (readOnly.count(q.base) || keeps(c)))
                k = false;
            return k;
        });
    }
    std::set<int> readOnly; // objects behind a reference to const that the function never modifies

    // ---- sized objects (ByteBuffer, vector, string, ...)
    LE sizeCell(State& s, const LE& obj, int tag, const Instruction* at, const char* what)
    {
        Key k;
        if (!keyFor(s, obj, tag, k))
            return typedSize(atomFor(std::string(what) + "@" + id(at)));
        auto it = s.mem.find(k);
        if (it != s.mem.end())
            return it->second.v;
        LE v = typedSize(atomFor(std::string(what) + "(" + atoms[k.base].name + (k.off ? "+" + std::to_string(k.off) : "") + ")@" + id(at)));
        Cell c;
        c.v = v;
        c.field = fieldOfObj(k);
        s.mem[k] = c;
        if (tag == Size || tag == Cap) {
            // capacity is at least the size
            Key o = k;
            o.tag = tag == Size ? Cap : Size;
            auto j = s.mem.find(o);
            if (j != s.mem.end())
                addRow(s, tag == Size ? j->second.v - v : v - j->second.v);
        }
        return v;
    }
    std::string fieldOfObj(const Key&) { return ""; }
    LE typedSize(int a)
    {
        atoms[a].hasHi = true;
        atoms[a].hi = int64_t(1) << 30;
        return LE::atom(a);
    }
    void setCell(State& s, const LE& obj, int tag, const LE& v)
    {
        Key k;
        if (!keyFor(s, obj, tag, k)) {
            int b = baseOf(obj);
            if (b >= 0)
                s.mem.eraseIf([&](const Key& q, const Cell&) { return q.base == b && q.tag != Plain; });
            return;
        }
        Cell c;
        c.v = v;
        s.mem[k] = c;
    }
    void dropCell(State& s, const LE& obj, int tag)
    {
        Key k;
        if (keyFor(s, obj, tag, k))
            s.mem.erase(k);
    }

#include "bounds_calls.inc"

    // ---- instructions
    void exec(State& s, const Instruction& I)
    {
        if (isa<DbgInfoIntrinsic>(I) || isa<PHINode>(I))
            return;
        if (auto* a = dyn_cast<AllocaInst>(&I)) {
            int x = atomFor((a->hasName() ? a->getName().str() : "local") + "@" + id(a));
            atoms[x].ptr = true;
            atoms[x].hasExt = true;
            atoms[x].ext = LE(int64_t(P.dl().getTypeAllocSize(a->getAllocatedType())));
            locals.insert(x);
            s.bind[a] = LE::atom(x);
            return;
        }
        if (auto* l = dyn_cast<LoadInst>(&I)) {
            if (l->getType()->isIntegerTy() || l->getType()->isPointerTy())
                s.bind[l] = load(s, l);
            else
                access(s, l, ev(s, l->getPointerOperand()), LE(int64_t(P.dl().getTypeStoreSize(l->getType()))), "read");
            return;
        }
        if (auto* st = dyn_cast<StoreInst>(&I))
            return store(s, st);
        if (auto* c = dyn_cast<ICmpInst>(&I))
            return compare(s, c);
        if (auto* b = dyn_cast<BinaryOperator>(&I))
            return arith(s, b);
        if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            MapVector<Value*, APInt> vars;
            APInt off(64, 0);
            LE r = ev(s, g->getPointerOperand());
            if (cast<GEPOperator>(g)->collectOffset(P.dl(), 64, vars, off)) {
                r = r + off.getSExtValue();
                for (auto& [k, sc] : vars)
                    r = add(r, signedOf(s, k), sc.getSExtValue());
            } else
                r = LE::atom(atomFor("gep@" + id(g)));
            s.bind[g] = r;
            return;
        }
        if (auto* c = dyn_cast<CastInst>(&I))
            return castOp(s, c);
        if (auto* f = dyn_cast<FreezeInst>(&I)) {
            if (f->getType()->isIntegerTy(1))
                s.bools[f] = evB(s, f->getOperand(0));
            else
                s.bind[f] = ev(s, f->getOperand(0));
            return;
        }
        if (auto* ev2 = dyn_cast<ExtractValueInst>(&I)) {
            auto it = aggregates.find(ev2->getAggregateOperand());
            std::string base = "ex@" + id(ev2->getAggregateOperand());
            for (unsigned x : ev2->indices())
                base += "." + std::to_string(x);
            (void)it;
            if (ev2->getType()->isIntegerTy() || ev2->getType()->isPointerTy())
                s.bind[ev2] = typed(atomFor(base), ev2->getType());
            return;
        }
        if (auto* cb = dyn_cast<CallBase>(&I))
            return call(s, cb);
    }
    std::map<const Value*, int> aggregates;
    // value of an index: signed when it is known not to be negative, or a negative constant
    LE signedOf(State& s, const Value* v)
    {
        if (auto* c = dyn_cast<ConstantInt>(v))
            return LE(c->getSExtValue());
        // addresses wrap around together with the index: the exact difference is the distance
        if (auto* b = dyn_cast<BinaryOperator>(v); b && b->getOpcode() == Instruction::Sub && b->getType()->isIntegerTy(64))
            if (auto* c = dyn_cast<ConstantInt>(b->getOperand(0)); c && s.bind.count(b->getOperand(1)))
                return LE(c->getSExtValue()) - ev(s, b->getOperand(1));
        return ev(s, v);
    }
    LE opaque(State& s, const Instruction* i, const std::string& op, const LE& a, const LE& b)
    {
        return typed(atomFor(op + "(" + keyOf(a) + "," + keyOf(b) + ")" + std::to_string(i->getType()->getIntegerBitWidth())), i->getType());
    }
    void arith(State& s, const BinaryOperator* b)
    {
        auto* ty = b->getType();
        if (!ty->isIntegerTy())
            return;
        auto *x = b->getOperand(0), *y = b->getOperand(1);
        if (ty->isIntegerTy(1)) {
            auto p = evB(s, x), q = evB(s, y);
            switch (b->getOpcode()) {
            case Instruction::And: s.bools[b] = mk2(BoolE::And, p, q); break;
            case Instruction::Or: s.bools[b] = mk2(BoolE::Or, p, q); break;
            case Instruction::Xor:
                if (q->k == BoolE::Const)
                    s.bools[b] = q->val ? mk2(BoolE::Not, p) : p;
                break;
            default: break;
            }
            return;
        }
        LE e = ev(s, x), f = ev(s, y);
        int64_t top = maxOf(ty);
        auto* cx = dyn_cast<ConstantInt>(x);
        auto* cy = dyn_cast<ConstantInt>(y);
        std::string op = Instruction::getOpcodeName(b->getOpcode());
        auto set = [&](const LE& r) { s.bind[b] = r.bad ? opaque(s, b, op + id(b), e, f) : r; };
        switch (b->getOpcode()) {
        case Instruction::Add: {
            if (cy && cy->isNegative() && cy->getBitWidth() <= 64) {
                int64_t k = -cy->getSExtValue();
                LE r = e - k;
                if (optimistic || entails(s, r))
                    return set(r);
                return set(opaque(s, b, "sub", e, LE(k)));
            }
            LE r = e + f;
            if (optimistic || entails(s, LE(top) - r))
                return set(r);
            return set(opaque(s, b, op, e, f));
        }
        case Instruction::Sub: {
            LE r = e - f;
            // differences of two addresses into the same buffer may be negative only when the program is wrong
            if (optimistic || entails(s, r))
                return set(r);
            if (r.isConst() && r.c < 0)
                return set(opaque(s, b, "sub", e, f));
            return set(opaque(s, b, "sub", e, f));
        }
        case Instruction::Mul: {
            if (f.isConst() || e.isConst()) {
                LE r = f.isConst() ? scaled(e, f.c) : scaled(f, e.c);
                if (!r.bad && (optimistic || entails(s, LE(top) - r)))
                    return set(r);
            }
            return set(opaque(s, b, op, e, f));
        }
        case Instruction::Shl:
            if (f.isConst() && f.c < 40) {
                LE r = scaled(e, int64_t(1) << f.c);
                if (!r.bad && (optimistic || entails(s, LE(top) - r)))
                    return set(r);
            }
            return set(opaque(s, b, op, e, f));
        case Instruction::AShr:
            if (!entails(s, LE(top / 2) - e))
                return set(opaque(s, b, op, e, f));
            [[fallthrough]];
        case Instruction::LShr: {
            LE r = opaque(s, b, "lshr", e, f);
            addRow(s, e - r);
            if (f.isConst() && f.c < 40) {
                int64_t k = int64_t(1) << f.c;
                addRow(s, e - scaled(r, k));
                addRow(s, scaled(r, k) + (k - 1) - e);
            }
            return set(r);
        }
        case Instruction::SDiv:
        case Instruction::SRem:
        case Instruction::UDiv:
        case Instruction::URem: {
            obligation(s, b, "division", f - 1, "the divisor can be zero");
            bool sg = b->getOpcode() == Instruction::SDiv || b->getOpcode() == Instruction::SRem;
            if (sg && !(entails(s, LE(top / 2) - e) && entails(s, LE(top / 2) - f)))
                return set(opaque(s, b, op, e, f));
            bool rem = b->getOpcode() == Instruction::SRem || b->getOpcode() == Instruction::URem;
            LE r = opaque(s, b, rem ? "rem" : "div", e, f);
            addRow(s, e - r);
            if (rem)
                addRow(s, f - 1 - r);
            else if (f.isConst() && f.c > 0) {
                addRow(s, e - scaled(r, f.c));
                addRow(s, scaled(r, f.c) + (f.c - 1) - e);
            }
            return set(r);
        }
        case Instruction::And: {
            if (cx && !cy) {
                std::swap(e, f);
                std::swap(cx, cy);
            }
            LE r = opaque(s, b, "and", e, f);
            if (cy && cy->getBitWidth() <= 64) {
                uint64_t m = cy->getZExtValue();
                if (m == uint64_t(top) || (m < uint64_t(INT64_MAX) && ((m + 1) & m) == 0 && entails(s, LE(int64_t(m)) - e)))
                    return set(e);
                addRow(s, e - r);
                if (m < uint64_t(INT64_MAX))
                    addRow(s, LE(int64_t(m)) - r);
                uint64_t inv = cy->getBitWidth() == 64 ? ~m : (~m & uint64_t(top));
                if (inv < 4096 && ((inv + 1) & inv) == 0) // alignment
                    addRow(s, r + int64_t(inv) - e);
                else if (m <= 0xffffffffu && inv >= 4096) {
                    // low alignment bits of a value inside the mask, e.g. & 0xfffffffc on a 64 bit value
                    uint64_t low = m & -m;
                    uint64_t span = m + low;
                    if (low < 4096 && (span & (span - 1)) == 0 && entails(s, LE(int64_t(m + low - 1)) - e))
                        addRow(s, r + int64_t(low - 1) - e);
                }
                // the result is a multiple of the lowest bit
            } else {
                addRow(s, e - r);
                addRow(s, f - r);
            }
            return set(r);
        }
        case Instruction::Or: {
            auto lowZero = [](const LE& l) {
                int64_t g = l.c;
                for (auto& [v, k] : l.t)
                    g = std::__gcd(g, k < 0 ? -k : k);
                return g < 0 ? -g : g;
            };
            auto pow2 = [](int64_t g) { return g & -g; };
            int64_t ge = pow2(lowZero(e)), gf = pow2(lowZero(f));
            if ((ge > 1 && entails(s, LE(ge - 1) - f)) || (gf > 1 && entails(s, LE(gf - 1) - e)))
                return set(e + f);
            LE r = opaque(s, b, "or", e, f);
            addRow(s, r - e);
            addRow(s, r - f);
            addRow(s, e + f - r);
            return set(r);
        }
        default:
            return set(opaque(s, b, op, e, f));
        }
    }
    void castOp(State& s, const CastInst* c)
    {
        auto* v = c->getOperand(0);
        if (!v->getType()->isIntegerTy() && !v->getType()->isPointerTy())
            return;
        if (!c->getType()->isIntegerTy() && !c->getType()->isPointerTy())
            return;
        if (v->getType()->isIntegerTy(1)) {
            auto b = evB(s, v);
            int a = atomFor("z@" + id(c));
            atoms[a].hasHi = true;
            atoms[a].hi = 1;
            if (b->k == BoolE::Const) {
                s.bind[c] = LE(b->val ? (isa<SExtInst>(c) ? maxOf(c->getType()) : 1) : 0);
                return;
            }
            if (isa<SExtInst>(c))
                atoms[a].hasHi = false;
            s.bind[c] = LE::atom(a);
            boolOfInt[a] = b;
            return;
        }
        LE e = ev(s, v);
        if (c->getType()->isIntegerTy(1)) {
            if (e.t.size() == 1 && e.c == 0 && boolOfInt.count(e.t.begin()->first))
                s.bools[c] = boolOfInt[e.t.begin()->first];
            else {
                int64_t hi = 1;
                if (entails(s, LE(hi) - e))
                    s.bools[c] = mkB(BoolE::Ge, e - 1);
                else {
                    LE r = LE::atom(atomFor("bit(" + keyOf(e) + ")"));
                    atoms[r.t.begin()->first].hasHi = true;
                    atoms[r.t.begin()->first].hi = 1;
                    s.bools[c] = mkB(BoolE::Ge, r - 1);
                }
            }
            return;
        }
        if (isa<ZExtInst>(c) || isa<PtrToIntInst>(c) || isa<IntToPtrInst>(c) || isa<BitCastInst>(c)) {
            s.bind[c] = e;
            return;
        }
        if (e.c == 0 && e.t.size() == 1 && atoms[e.t.begin()->first].neg && isa<SExtInst>(c)) {
            s.bind[c] = e;
            return;
        }
        if (isa<SExtInst>(c)) {
            if (optimistic || entails(s, LE(maxOf(v->getType()) / 2) - e))
                s.bind[c] = e;
            else
                s.bind[c] = typed(atomFor("sext(" + keyOf(e) + ")" + id(c)), c->getType());
            return;
        }
        if (isa<TruncInst>(c)) {
            if (entails(s, LE(maxOf(c->getType())) - e))
                s.bind[c] = e;
            else
                s.bind[c] = typed(atomFor("trunc(" + keyOf(e) + ")" + std::to_string(c->getType()->getIntegerBitWidth())), c->getType());
            return;
        }
    }
    std::map<int, BoolP> boolOfInt;
    void compare(State& s, const ICmpInst* c)
    {
        auto *x = c->getOperand(0), *y = c->getOperand(1);
        if (x->getType()->isIntegerTy(1)) {
            auto p = evB(s, x), q = evB(s, y);
            if (q->k == BoolE::Const && c->isEquality()) {
                bool same = (c->getPredicate() == ICmpInst::ICMP_EQ) == q->val;
                s.bools[c] = same ? p : mk2(BoolE::Not, p);
            }
            return;
        }
        if (!x->getType()->isIntegerTy() && !x->getType()->isPointerTy())
            return;
        LE e = ev(s, x), f = ev(s, y);
        // a zero extended truth value against a constant
        if (e.t.size() == 1 && e.c == 0 && f.isConst() && c->isEquality()) {
            auto it = boolOfInt.find(e.t.begin()->first);
            if (it != boolOfInt.end() && e.t.begin()->second == 1 && (f.c == 0 || f.c == 1)) {
                bool pos = (c->getPredicate() == ICmpInst::ICMP_EQ) == (f.c == 1);
                s.bools[c] = pos ? it->second : mk2(BoolE::Not, it->second);
                return;
            }
        }
        auto isNeg = [&](const LE& l) { return l.c == 0 && l.t.size() == 1 && atoms[l.t.begin()->first].neg; };
        if (isNeg(e) != isNeg(f) && (c->isSigned() || c->isEquality()) && entails(s, LE(maxOf(x->getType()) / 2) - (isNeg(e) ? f : e))) {
            bool less = isNeg(e);
            switch (c->getPredicate()) {
            case ICmpInst::ICMP_EQ: s.bools[c] = mkC(false); return;
            case ICmpInst::ICMP_NE: s.bools[c] = mkC(true); return;
            case ICmpInst::ICMP_SLT:
            case ICmpInst::ICMP_SLE: s.bools[c] = mkC(less); return;
            case ICmpInst::ICMP_SGT:
            case ICmpInst::ICMP_SGE: s.bools[c] = mkC(!less); return;
            default: break;
            }
        }
        if (c->isSigned() && isNeg(e))
            if (auto* k = dyn_cast<ConstantInt>(y); k && k->isMinusOne() && c->getPredicate() == ICmpInst::ICMP_SGT) {
                s.bools[c] = mkC(false);
                return;
            }
        if (c->isSigned()) {
            int64_t half = maxOf(x->getType()) / 2;
            if (auto* k = dyn_cast<ConstantInt>(y); k && k->isMinusOne() && c->getPredicate() == ICmpInst::ICMP_SGT) {
                s.bools[c] = x->getType()->getIntegerBitWidth() < 63 ? mkB(BoolE::Ge, LE(half) - e) : mkB(BoolE::Unknown);
                return;
            }
            if (auto* k = dyn_cast<ConstantInt>(y); k && k->isZero() && c->getPredicate() == ICmpInst::ICMP_SLT) {
                s.bools[c] = x->getType()->getIntegerBitWidth() < 63 ? mkB(BoolE::Ge, e - (half + 1)) : mkB(BoolE::Unknown);
                if (entails(s, LE(half) - e))
                    s.bools[c] = mkC(false);
                return;
            }
            if (!optimistic && !(entails(s, LE(half) - e) && entails(s, LE(half) - f))) {
                s.bools[c] = mkB(BoolE::Unknown);
                return;
            }
        }
        switch (c->getPredicate()) {
        case ICmpInst::ICMP_EQ: s.bools[c] = mkB(BoolE::Eq, e - f); break;
        case ICmpInst::ICMP_NE: s.bools[c] = mk2(BoolE::Not, mkB(BoolE::Eq, e - f)); break;
        case ICmpInst::ICMP_ULT:
        case ICmpInst::ICMP_SLT: s.bools[c] = mkB(BoolE::Ge, f - e - 1); break;
        case ICmpInst::ICMP_ULE:
        case ICmpInst::ICMP_SLE: s.bools[c] = mkB(BoolE::Ge, f - e); break;
        case ICmpInst::ICMP_UGT:
        case ICmpInst::ICMP_SGT: s.bools[c] = mkB(BoolE::Ge, e - f - 1); break;
        case ICmpInst::ICMP_UGE:
        case ICmpInst::ICMP_SGE: s.bools[c] = mkB(BoolE::Ge, e - f); break;
        default: break;
        }
    }

    // ---- control flow
    struct Edge {
        const BasicBlock *from, *to;
        State s;
    };
    std::map<const BasicBlock*, std::vector<const Value*>> liveIn;
    void liveness()
    {
        // values with a use in a block reachable from b (through any path)
        std::map<const BasicBlock*, std::set<const Value*>> in;
        for (bool ch = true; ch;) {
            ch = false;
            for (auto* bb : post_order(F)) {
                std::set<const Value*> live;
                for (auto* sx : successors(bb)) {
                    for (auto* v : in[sx])
                        live.insert(v);
                    for (auto& phi : sx->phis())
                        if (auto* v = phi.getIncomingValueForBlock(bb); isa<Instruction>(v))
                            live.insert(v);
                }
                for (auto& i : reverse(*bb)) {
                    live.erase(&i);
                    if (isa<PHINode>(i) || isa<DbgInfoIntrinsic>(i))
                        continue;
                    for (auto& o : i.operands())
                        if (isa<Instruction>(o.get()))
                            live.insert(o.get());
                }
                if (live != in[bb]) {
                    in[bb] = std::move(live);
                    ch = true;
                }
            }
        }
        for (auto& bb : *F) {
            auto& v = liveIn[&bb];
            v.assign(in[&bb].begin(), in[&bb].end());
            for (auto& phi : bb.phis())
                v.push_back(&phi);
        }
    }
    void restrict(State& s, const BasicBlock* b)
    {
        std::map<const Value*, LE> nb;
        std::map<const Value*, BoolP> nq;
        for (auto* v : liveIn[b]) {
            auto it = s.bind.find(v);
            if (it != s.bind.end())
                nb.insert(*it);
            auto jt = s.bools.find(v);
            if (jt != s.bools.end())
                nq.insert(*jt);
        }
        for (auto& [v, e] : s.bind)
            if (isa<Argument>(v))
                nb.insert({ v, e });
        for (auto& [v, e] : s.bools)
            if (isa<Argument>(v))
                nq.insert({ v, e });
        if (nb.size() != s.bind.size())
            s.bind.w() = std::move(nb);
        if (nq.size() != s.bools.size())
            s.bools.w() = std::move(nq);
    }
    static bool sameBools(const Cow<const Value*, BoolP>& a, const Cow<const Value*, BoolP>& b)
    {
        if (a.p == b.p)
            return true;
        if (a.size() != b.size())
            return false;
        for (auto i = a.begin(), j = b.begin(); i != a.end(); ++i, ++j)
            if (i->first != j->first || !sameB(i->second, j->second))
                return false;
        return true;
    }
    // keeps what both have in common
    State join(State a, State b, const BasicBlock* at)
    {
        State r;
        static int serial = 0;
        std::map<std::pair<LE, LE>, LE> pairs;
        std::vector<std::pair<int, LE>> oldA, oldB;
        std::vector<std::tuple<int, std::pair<int64_t, int64_t>, std::pair<int64_t, int64_t>>> consts; // merged from two small disjoint ranges
        auto merged = [&](const LE& x, const LE& y, const std::string& nm, bool ptr) -> std::optional<LE> {
            if (x == y)
                return x;
            if (!ptr) {
                auto it = pairs.find({ x, y });
                if (it != pairs.end())
                    return it->second;
            }
            LE common;
            bool p = ptr;
            if (p) {
                int bx = baseOf(x), by = baseOf(y);
                if (bx < 0 || bx != by) {
                    int f = fresh(nm + "#" + std::to_string(serial++));
                    atoms[f].ptr = true;
                    auto isNull = [](const LE& l) { return l.t.empty() && l.c == 0; };
                    if (isNull(x) || isNull(y) || (bx >= 0 && atoms[bx].maybeNull) || (by >= 0 && atoms[by].maybeNull))
                        atoms[f].maybeNull = true;
                    if ((bx >= 0 && atoms[bx].byteLike) || (by >= 0 && atoms[by].byteLike))
                        atoms[f].byteLike = true;
                    return LE::atom(f);
                }
                common = LE::atom(bx);
            }
            int f = fresh(nm + "#" + std::to_string(serial++));
            LE t = LE::atom(f);
            if (p || !entails(a, x) || !entails(b, y))
                atoms[f].lo = false;
            LE dx = x - common - t, dy = y - common - t;
            a.rows.push_back(dx), a.rows.push_back(scaled(dx, -1));
            b.rows.push_back(dy), b.rows.push_back(scaled(dy, -1));
            // the old quantity in terms of the new one
            auto old = [&](LE d, std::vector<std::pair<int, LE>>& l) {
                // d = e - t == 0
                for (auto& [v, k] : (d + t).t)
                    if (k == 1 || k == -1) {
                        LE rest = d;
                        rest.t.erase(v);
                        l.push_back({ v, scaled(rest, -k) });
                        return;
                    }
            };
            old(dx, oldA);
            old(dy, oldB);
            if (!p)
                pairs[{ x, y }] = t;
            if (!p && (x.isConst() || y.isConst()) && consts.size() < 4) {
                auto range = [&](const State& st, const LE& l) -> std::pair<int64_t, int64_t> {
                    if (l.isConst())
                        return { l.c, l.c };
                    if (!entails(st, l) || !entails(st, LE(16) - l))
                        return { 0, -1 };
                    int64_t lo = 0, hi = 16;
                    while (lo < hi && entails(st, l - (lo + 1)))
                        lo++;
                    while (hi > lo && entails(st, LE(hi - 1) - l))
                        hi--;
                    return { lo, hi };
                };
                auto ra = range(a, x), rb = range(b, y);
                if (ra.first <= ra.second && rb.first <= rb.second && ra.second - rb.first <= 16 && rb.second - ra.first <= 16 && (ra.second < rb.first || rb.second < ra.first))
                    consts.push_back({ f, ra, rb });
            }
            return common + t;
        };
        for (auto& [v, e] : a.bind) {
            auto it = b.bind.find(v);
            if (it == b.bind.end())
                continue;
            auto nm = v->hasName() ? v->getName().str() : std::string("j");
            if (auto m = merged(e, it->second, nm, v->getType()->isPointerTy()))
                r.bind[v] = *m;
        }
        for (auto& [v, e] : a.bools) {
            auto it = b.bools.find(v);
            if (it != b.bools.end())
                r.bools[v] = sameB(e, it->second) ? e : mkB(BoolE::Unknown);
        }
        for (auto& [k, c] : a.mem) {
            auto it = b.mem.find(k);
            if (it == b.mem.end() || it->second.bytes != c.bytes)
                continue;
            Cell n = c;
            if (!sameB(n.b, it->second.b))
                n.b = nullptr;
            bool ptr = baseOf(c.v) >= 0 || baseOf(it->second.v) >= 0;
            if (auto m = merged(c.v, it->second.v, "m", ptr)) {
                n.v = *m;
                r.mem[k] = n;
            }
        }
        r.dirty = a.dirty;
        r.dirty.insert(b.dirty.begin(), b.dirty.end());
        // candidate rows: those of each side, after using the equalities of the new atoms
        auto saturate = [&](State& x, const std::vector<std::pair<int, LE>>& old) {
            std::vector<std::pair<int, LE>> eq; // atom = expr
            std::vector<LE> base = x.rows;
            std::set<LE> seen(base.begin(), base.end());
            for (auto& q : base) {
                if (!seen.count(scaled(q, -1)))
                    continue;
                for (auto& [v, k] : q.t)
                    if (k == 1 || k == -1) {
                        LE e = q;
                        e.t.erase(v);
                        eq.push_back({ v, k == 1 ? scaled(e, -1) : e });
                    }
            }
            for (auto& q : base) {
                LE n = q;
                for (auto& [v, e] : old)
                    n = subst(n, v, e);
                tighten(n);
                if (!n.t.empty() && !n.bad && seen.insert(n).second)
                    x.rows.push_back(n);
            }
            for (auto& q : base)
                for (auto& [v, e] : eq)
                    if (q.t.count(v) && x.rows.size() < 400) {
                        LE n = subst(q, v, e);
                        tighten(n);
                        if (!n.t.empty() && !n.bad && seen.insert(n).second)
                            x.rows.push_back(n);
                    }
        };
        State A = a, B = b;
        saturate(A, oldA);
        saturate(B, oldB);
        std::set<LE> done;
        for (auto* q : { &A, &B })
            for (auto& row : q->rows)
                if (done.insert(row).second) {
                    auto& other = q == &A ? b : a;
                    if (entails(other, row)) {
                        r.rows.push_back(row);
                        continue;
                    }
                    // holds on one side and nearly on the other: weakened along a quantity that tells the sides apart
                    if (consts.empty() || row.t.size() > 3 || !entails(other, row + 16))
                        continue;
                    int m = 16;
                    for (int step : { 8, 4, 2, 1 })
                        if (entails(other, row + (m - step)))
                            m -= step;
                    for (auto& [t, ca, cb] : consts) {
                        auto& mine = q == &A ? ca : cb;
                        auto& his = q == &A ? cb : ca;
                        LE z = mine.first > his.second ? scaled(row, mine.second - his.second) + scaled(LE(mine.second) - LE::atom(t), m)
                                                       : scaled(row, his.first - mine.first) + scaled(LE::atom(t) - mine.first, m);
                        tighten(z);
                        if (!z.bad)
                            r.rows.push_back(z);
                    }
                }
        if (getenv("SA_JOIN")) {
            errs() << "JOIN at " << Program::loc(at->getTerminator()) << "\n";
            for (auto* q : { &a, &b, &r }) {
                errs() << (q == &r ? "  result\n" : "  side\n");
                for (auto& row : q->rows)
                    errs() << "      " << show(row) << "\n";
            }
        }
        return r;
    }
    std::map<int, int> pinned; // atoms that enclosing loops refer to
    void collect(const BoolP& b, std::vector<int>& q)
    {
        if (!b)
            return;
        for (auto& [v, k] : b->e.t)
            q.push_back(v);
        collect(b->a, q);
        collect(b->b, q);
    }
    // drops rows that say nothing and expresses quantities that are equal to others by those
    void normalise(State& s)
    {
        auto trivial = [&](const LE& r) {
            int64_t lo = r.c;
            for (auto& [v, k] : r.t) {
                if (k > 0 && atoms[v].lo)
                    continue;
                int64_t m;
                if (k < 0 && atoms[v].hasHi && !__builtin_mul_overflow(k, atoms[v].hi, &m) && !__builtin_add_overflow(lo, m, &lo))
                    continue;
                return false;
            }
            return lo >= 0;
        };
        std::unordered_map<Terms, int64_t, TermsHash> m;
        std::vector<LE> eqs;
        auto put = [&](LE r) {
            if (r.bad)
                return;
            tighten(r);
            if (r.t.empty() ? r.c >= 0 : trivial(r))
                return;
            auto [it, n] = m.insert({ r.t, r.c });
            if (!n && r.c < it->second)
                it->second = r.c;
        };
        for (auto& r : s.rows)
            put(r);
        std::set<int> done;
        for (;;) {
            LE eq;
            int var = -1;
            for (auto& [t, c] : m) {
                if (t.empty() || t.v[0].second < 0)
                    continue;
                Terms n = t;
                for (auto& x : n)
                    x.second = -x.second;
                auto it = m.find(n);
                if (it == m.end() || c + it->second != 0)
                    continue;
                // the newest quantity in terms of the older ones
                for (auto& [v, k] : t)
                    if ((k == 1 || k == -1) && (var < 0 || v > var)) {
                        var = v;
                        eq.t = t;
                        eq.c = c;
                    }
            }
            if (var < 0)
                break;
            int64_t k = eq.t.at(var);
            LE val = eq;
            val.t.erase(var);
            val = scaled(val, -k);
            std::vector<LE> old;
            for (auto& [t, c] : m) {
                LE r;
                r.t = t;
                r.c = c;
                old.push_back(std::move(r));
            }
            m.clear();
            for (auto& r : old)
                put(subst(r, var, val));
            // bounds of the replaced quantity
            if (atoms[var].lo)
                put(val);
            if (atoms[var].hasHi)
                put(LE(atoms[var].hi) - val);
            for (auto& x : eqs)
                x = subst(x, var, val);
            eqs.push_back(LE::atom(var) - val);
        }
        s.rows.clear();
        for (auto& [t, c] : m) {
            LE r;
            r.t = t;
            r.c = c;
            s.rows.push_back(std::move(r));
        }
        for (auto& x : eqs)
            if (!x.bad) {
                s.rows.push_back(x);
                s.rows.push_back(scaled(x, -1));
            }
        std::sort(s.rows.begin(), s.rows.end());
    }
    // eliminates the quantities nothing refers to any more
    void shrink(State& s)
    {
        if (s.rows.size() < 6)
            return;
        normalise(s);
        std::vector<int> q;
        std::set<int> live;
        for (auto& [a, n] : pinned)
            q.push_back(a);
        auto le = [&](const LE& e) {
            for (auto& [v, k] : e.t)
                q.push_back(v);
        };
        for (auto& [v, e] : s.bind)
            le(e);
        for (auto& [v, b] : s.bools)
            collect(b, q);
        for (auto& [k, c] : s.mem) {
            q.push_back(k.base);
            le(c.v);
            collect(c.b, q);
        }
        for (auto& d : s.dirty)
            q.push_back(std::get<0>(d));
        while (!q.empty()) {
            int a = q.back();
            q.pop_back();
            if (!live.insert(a).second)
                continue;
            if (atoms[a].hasExt)
                le(atoms[a].ext);
            auto it = boolOfInt.find(a);
            if (it != boolOfInt.end())
                collect(it->second, q);
        }
        std::set<int> dead;
        for (auto& r : s.rows)
            for (auto& [v, k] : r.t)
                if (!live.count(v))
                    dead.insert(v);
        for (int v : dead) {
            std::vector<LE> pos, neg, rest;
            for (auto& r : s.rows) {
                auto it = r.t.find(v);
                if (it == r.t.end())
                    rest.push_back(r);
                else
                    (it->second > 0 ? pos : neg).push_back(r);
            }
            if (atoms[v].lo)
                pos.push_back(LE::atom(v));
            if (atoms[v].hasHi)
                neg.push_back(LE(atoms[v].hi) - LE::atom(v));
            // an equality that defines it
            const LE* def = nullptr;
            for (auto& x : pos)
                for (auto& y : neg)
                    if (!def && x.t.at(v) == 1 && x == scaled(y, -1))
                        def = &x;
            State t;
            if (def) {
                LE val = *def;
                val.t.erase(v);
                val = scaled(val, -1);
                t.rows = std::move(rest);
                std::set<LE> have(t.rows.begin(), t.rows.end());
                for (auto* l : { &pos, &neg })
                    for (auto& r : *l) {
                        LE z = subst(r, v, val);
                        if (z.bad || (z.t.empty() && z.c >= 0))
                            continue;
                        tighten(z);
                        if (have.insert(z).second)
                            t.rows.push_back(z);
                    }
                s.rows = std::move(t.rows);
                continue;
            }
            if (pos.size() * neg.size() > std::max<size_t>(pos.size() + neg.size(), 4))
                continue;
            bool ok = true;
            std::set<LE> have(rest.begin(), rest.end());
            std::vector<LE> out = rest;
            for (auto& x : pos)
                for (auto& y : neg) {
                    int64_t a = x.t.at(v), b = -y.t.at(v), g = std::__gcd(a, b);
                    LE z = add(scaled(x, b / g), y, a / g);
                    if (z.bad) {
                        ok = false;
                        continue;
                    }
                    if (z.t.empty() && z.c >= 0)
                        continue;
                    tighten(z);
                    if (have.insert(z).second)
                        out.push_back(z);
                }
            if (ok)
                s.rows = std::move(out);
        }
    }
    // a null pointer and a pointer into a buffer are kept apart
    int nullMix(const LE& x, const LE& y)
    {
        auto raw = [&](const LE& l) {
            int b = baseOf(l);
            return b >= 0 && atoms[b].byteLike;
        };
        return (x == LE(0) && raw(y)) || (y == LE(0) && raw(x)) ? 10000 : 0;
    }
    void limit(std::vector<State>& v, const BasicBlock* b, size_t max)
    {
        for (auto& s : v) {
            restrict(s, b);
            if (getenv("SA_ROWS"))
                errs() << "rows " << s.rows.size();
            shrink(s);
            if (getenv("SA_ROWS"))
{
                if (s.rows.size() > 100)
                    for (auto& r : s.rows)
                        errs() << "      " << show(r) << "\n";
                errs() << " -> " << s.rows.size() << " bind " << s.bind.size() << " mem " << s.mem.size() << "\n";
            }
        }
        // identical except for rows: weaker wins
        std::vector<State> u;
        for (auto& s : v) {
            bool drop = false;
            for (auto& t : u) {
                if (t.bind != s.bind || t.mem != s.mem || t.dirty != s.dirty || !sameBools(t.bools, s.bools))
                    continue;
                auto sub = [](const std::vector<LE>& x, const std::vector<LE>& y) {
                    for (auto& r : x)
                        if (std::find(y.begin(), y.end(), r) == y.end())
                            return false;
                    return true;
                };
                if (sub(t.rows, s.rows)) {
                    drop = true;
                    break;
                }
                if (sub(s.rows, t.rows)) {
                    t = s;
                    drop = true;
                    break;
                }
            }
            if (!drop)
                u.push_back(std::move(s));
        }
        while (u.size() > max) {
            // join the two with the most common rows
            size_t bi = 0, bj = 1;
            long best = LONG_MIN;
            for (size_t i = 0; i < u.size(); i++)
                for (size_t j = i + 1; j < u.size(); j++) {
                    long c = 0;
                    for (auto& [v2, e] : u[i].bind) {
                        auto it = u[j].bind.find(v2);
                        c += it != u[j].bind.end() && it->second == e;
                        if (it != u[j].bind.end()) {
                            c -= nullMix(it->second, e);
                        }
                    }
                    for (auto& [k, e] : u[i].mem) {
                        auto it = u[j].mem.find(k);
                        c += it != u[j].mem.end() && it->second == e;
                        if (it != u[j].mem.end())
                            c -= nullMix(it->second.v, e.v);
                    }
                    if (c > best) {
                        best = c;
                        bi = i;
                        bj = j;
                    }
                }
            State m = join(std::move(u[bi]), std::move(u[bj]), b);
            u.erase(u.begin() + bj);
            u[bi] = std::move(m);
        }
        v = std::move(u);
    }
    void goTo(State s, const BasicBlock* from, const BasicBlock* to, std::vector<Edge>& out)
    {
        std::vector<std::pair<const Value*, LE>> nb;
        std::vector<std::pair<const Value*, BoolP>> nq;
        for (auto& phi : to->phis()) {
            auto* v = phi.getIncomingValueForBlock(from);
            if (phi.getType()->isIntegerTy(1))
                nq.push_back({ &phi, evB(s, v) });
            else if (phi.getType()->isIntegerTy() || phi.getType()->isPointerTy())
                nb.push_back({ &phi, ev(s, v) });
        }
        for (auto& [v, e] : nb)
            s.bind[v] = e;
        for (auto& [v, e] : nq)
            s.bools[v] = e;
        restrict(s, to);
        out.push_back({ from, to, std::move(s) });
    }
    // executes block b for the states, appends the outgoing edges
    void block(const BasicBlock* b, std::vector<State> in, std::vector<Edge>& out)
    {
        for (auto& s0 : in) {
            R.states++;
            std::vector<State> cur;
            cur.push_back(std::move(s0));
            for (auto& I : *b) {
                if (I.isTerminator() && !isa<InvokeInst>(I))
                    break;
                // selects split the state
                if (auto* sel = dyn_cast<SelectInst>(&I)) {
                    std::vector<State> next;
                    for (auto& s : cur) {
                        auto c = sel->getCondition()->getType()->isIntegerTy(1) ? evB(s, sel->getCondition()) : mkB(BoolE::Unknown);
                        std::vector<State> t{ s }, f{ s }, to, fo;
                        assume(t, c, true, to);
                        assume(f, c, false, fo);
                        for (auto& x : to) {
                            setVal(x, sel, sel->getTrueValue());
                            next.push_back(std::move(x));
                        }
                        for (auto& x : fo) {
                            setVal(x, sel, sel->getFalseValue());
                            next.push_back(std::move(x));
                        }
                    }
                    cur = std::move(next);
                    if (cur.size() > 12)
                        joinAll(cur, b, 4);
                    continue;
                }
                if (splitCall(cur, I))
                    continue;
                for (auto& s : cur)
                    if (!s.dead)
                        exec(s, I);
                cur.erase(std::remove_if(cur.begin(), cur.end(), [](const State& s) { return s.dead; }), cur.end());
            }
            auto* t = b->getTerminator();
            for (auto& s : cur) {
                if (auto* br = dyn_cast<BranchInst>(t)) {
                    if (br->isUnconditional()) {
                        goTo(std::move(s), b, br->getSuccessor(0), out);
                        continue;
                    }
                    auto c = evB(s, br->getCondition());
                    for (int k = 0; k < 2; k++) {
                        std::vector<State> x{ s }, y;
                        assume(x, c, k == 0, y);
                        for (auto& z : y)
                            goTo(std::move(z), b, br->getSuccessor(k), out);
                    }
                } else if (auto* sw = dyn_cast<SwitchInst>(t)) {
                    LE e = ev(s, sw->getCondition());
                    State d = s;
                    for (auto& c : sw->cases()) {
                        auto k = c.getCaseValue()->getValue();
                        if (k.getBitWidth() > 64 || k.isNegative()) {
                            goTo(s, b, c.getCaseSuccessor(), out);
                            continue;
                        }
                        auto p = mkB(BoolE::Eq, e - int64_t(k.getZExtValue()));
                        std::vector<State> x{ s }, y;
                        assume(x, p, true, y);
                        for (auto& z : y)
                            goTo(std::move(z), b, c.getCaseSuccessor(), out);
                    }
                    std::vector<State> x{ std::move(d) };
                    for (auto& c : sw->cases()) {
                        auto k = c.getCaseValue()->getValue();
                        if (k.getBitWidth() > 64 || k.isNegative())
                            continue;
                        std::vector<State> y;
                        assume(x, mkB(BoolE::Eq, e - int64_t(k.getZExtValue())), false, y);
                        x = std::move(y);
                    }
                    for (auto& z : x)
                        goTo(std::move(z), b, sw->getDefaultDest(), out);
                } else if (isa<ReturnInst>(t)) {
                    settle(s, t, nullptr);
                    if (onReturn)
                        onReturn(*this, s, cast<ReturnInst>(t));
                } else if (auto* iv = dyn_cast<InvokeInst>(t)) {
                    goTo(std::move(s), b, iv->getNormalDest(), out);
                }
            }
            if (work > maxWork || (boundsDeadline && time(nullptr) > boundsDeadline)) {
                R.gaveUp = true;
                return;
            }
        }
    }
    std::function<void(Engine&, State&, const ReturnInst*)> onReturn;
    void setVal(State& x, const Instruction* i, const Value* v)
    {
        if (i->getType()->isIntegerTy(1))
            x.bools[i] = evB(x, v);
        else if (i->getType()->isIntegerTy() || i->getType()->isPointerTy())
            x.bind[i] = ev(x, v);
    }
    void joinAll(std::vector<State>& v, const BasicBlock* b, size_t max)
    {
        while (v.size() > max) {
            State m = join(std::move(v[v.size() - 2]), std::move(v[v.size() - 1]), b);
            v.pop_back();
            v.back() = std::move(m);
        }
    }
    static constexpr size_t LIMIT = 10;

    // region: the whole function (L == null) or the body of a loop, starting with states at `head`
    void region(const Loop* L, const BasicBlock* head, std::vector<State> start, std::vector<State>* latch, std::vector<Edge>& exits)
    {
        std::map<int, std::pair<const BasicBlock*, std::vector<State>>> pending;
        auto push = [&](Edge& e) {
            if (L && e.to == L->getHeader()) {
                if (latch)
                    latch->push_back(std::move(e.s));
                return;
            }
            if (L && !L->contains(e.to)) {
                exits.push_back(std::move(e));
                return;
            }
            auto& q = pending[order[e.to]];
            q.first = e.to;
            q.second.push_back(std::move(e.s));
        };
        pending[order[head]] = { head, std::move(start) };
        while (!pending.empty() && !R.gaveUp) {
            auto [b, v] = std::move(pending.begin()->second);
            pending.erase(pending.begin());
            limit(v, b, LIMIT);
            std::vector<Edge> out;
            auto* inner = LI->getLoopFor(b);
            if (inner && inner->getHeader() == b && inner != L) {
                runLoop(inner, std::move(v), out);
            } else
                block(b, std::move(v), out);
            for (auto& e : out)
                push(e);
        }
    }

    void runLoop(const Loop* L, std::vector<State> entries, std::vector<Edge>& out)
    {
        if (entries.size() > 3) {
            limit(entries, L->getHeader(), 3);
        }
        int n = 0;
        for (auto& e : entries) {
            // a null pointer where another round starts with a pointer into a buffer
            bool null = false;
            for (auto& o : entries) {
                for (auto& [v, x] : e.bind)
                    if (x == LE(0) && v->getType()->isPointerTy()) {
                        auto it = o.bind.find(v);
                        null = null || (it != o.bind.end() && baseOf(it->second) >= 0);
                    }
                for (auto& [k, c] : e.mem)
                    if (c.v == LE(0)) {
                        auto it = o.mem.find(k);
                        null = null || (it != o.mem.end() && baseOf(it->second.v) >= 0);
                    }
            }
            runLoop1(L, e, out, n++, null);
        }
    }
    int scouting = 0;
    std::set<const BasicBlock*> scouted;
    std::map<const BasicBlock*, std::set<Key>> changedIn;
    std::map<const BasicBlock*, std::set<const PHINode*>> rebasedIn;
    std::map<const BasicBlock*, std::map<int, std::set<LE>>> rejected; // rows that are not inductive, for the current context of the loop
    // records what the body changed
    // key of the facts about a loop; the rounds that start with a pointer set to null have their own
    static const BasicBlock* tagged(const BasicBlock* H, bool nullRun) { return (const BasicBlock*)((uintptr_t)H | (nullRun ? 1 : 0)); }
    bool note(const BasicBlock* HK, const std::vector<const PHINode*>& phis, const State& h, const State& e, const std::vector<State>& latches)
    {
            bool more = false;
            for (auto& s : latches) {
                for (auto& [k, c] : h.mem) {
                    auto it = s.mem.find(k);
                    if (it == s.mem.end()) {
                        // lost: forget it
                        if (lostAt[HK].insert(k).second)
                            more = true;
                    } else if (!(it->second.v == c.v) || !sameB(it->second.b, c.b)) {
                        if (changedIn[HK].insert(k).second)
                            more = true;
                        int b = baseOf(it->second.v), b0 = baseOf(c.v);
                        auto ie = e.mem.find(k);
                        int be = ie == e.mem.end() ? -1 : baseOf(ie->second.v);
                        bool objects = be >= 0 && !atoms[be].hasExt && !atoms[be].byteLike;
                        if ((b >= 0 || be >= 0) && (b != be) && b != b0 && !objects)
                            if (memRebased.insert({ HK, k }).second)
                                more = true;
                        if (b >= 0 && be < 0)
                            memPtr.insert({ HK, k });
                        if (b >= 0 && atoms[b].byteLike && rawMem.insert({ HK, k }).second)
                            more = true;
                    }
                }
                for (auto* p : phis)
                    if (p->getType()->isPointerTy()) {
                        auto it = s.bind.find(p);
                        auto ie = e.bind.find(p);
                        if (it == s.bind.end() || ie == e.bind.end())
                            continue;
                        int b = baseOf(it->second);
                        int be = baseOf(ie->second);
                        bool objects = be >= 0 && !atoms[be].hasExt && !atoms[be].byteLike; // has a new base anyway
                        if (b != be && !objects && rebasedIn[HK].insert(p).second) {
                            more = true;
                            if (g_trace)
                                errs() << "REBASED " << p->getName() << " " << show(ie->second) << " -> " << show(it->second) << " tag " << ((uintptr_t)HK & 1) << "\n";
                        }
                        if (b >= 0 && atoms[b].byteLike && rawPhi.insert({ HK, p }).second)
                            more = true;
                    }
            }
            return more;
    }
    void runLoop1(const Loop* L, State e, std::vector<Edge>& out, int entry, bool nullRun = false)
    {
        // objects whose relations hold are complete here
        if (O.inv)
            for (auto it = e.dirty.begin(); it != e.dirty.end();) {
                auto& [base, off, cls] = *it;
                auto& ci = O.inv->at(cls);
                bool ok = true;
                for (auto& r : ci.rel)
                    ok = ok && (!r.on || relationHolds(e, ci, r, base, off));
                it = ok ? e.dirty.erase(it) : std::next(it);
            }
        R.loops++;
        auto* H = L->getHeader();
        auto* HK = tagged(H, nullRun);
        bool oldReport = report, oldOpt = optimistic;
        auto* oldGuards = guards;
        report = false;

        // what changes in the loop
        std::vector<const PHINode*> phis;
        for (auto& p : H->phis())
            phis.push_back(&p);
        std::set<Key>& changed = changedIn[HK];
        std::set<const PHINode*>& rebased = rebasedIn[HK]; // pointers that move to another object
        bool known = !changedIn[HK].empty() || scouted.count(HK);
        std::vector<LE> seenGuards;
        State h;
        std::map<const PHINode*, std::pair<int, LE>> sym;   // phi -> (atom, base): value = base + atom
        std::map<Key, std::pair<int, LE>> symMem;
        auto build = [&] {
            h = e;
            sym.clear();
            symMem.clear();
            for (auto* p : phis) {
                std::string nm = "loop." + (p->hasName() ? p->getName().str() : "phi") + "@" + id(p);
                if (p->getType()->isIntegerTy(1)) {
                    int a = atomFor(nm);
                    atoms[a].hasHi = true;
                    atoms[a].hi = 1;
                    h.bools[p] = mkB(BoolE::Ge, LE::atom(a) - 1);
                    continue;
                }
                auto it = e.bind.find(p);
                if (it == e.bind.end())
                    continue;
                // an iterator over objects: every round looks at another object
                int pb = p->getType()->isPointerTy() ? baseOf(it->second) : -1;
                bool objects = pb >= 0 && !atoms[pb].hasExt && !atoms[pb].byteLike;
                if (p->getType()->isPointerTy() && !rebased.count(p) && !objects && pb >= 0) {
                    int a = atomFor(nm + ".off" + keyOf(it->second));
                    atoms[a].lo = false;
                    h.bind[p] = it->second + LE::atom(a);
                    sym[p] = { a, it->second };
                } else {
                    int a = atomFor(nm + ".v");
                    h.bind[p] = typed(a, p->getType());
                    h.mem.eraseIf([&](const Key& q, const Cell&) { return q.base == a; });
                    if (p->getType()->isPointerTy()) {
                        describePtr(a, p);
                        if ((pb >= 0 && atoms[pb].byteLike) || rawPhi.count({ HK, p }))
                            atoms[a].byteLike = true;
                        if (it->second == LE(0))
                            atoms[a].maybeNull = true;
                    }
                    sym[p] = { a, LE(0) };
                }
            }
            for (auto& k : changed) {
                if (!h.mem.count(k))
                    continue;
                auto it = h.mem.w().find(k);
                auto ie = e.mem.find(k);
                std::string nm = "loopmem." + std::to_string(k.base) + "." + std::to_string(k.off) + "." + std::to_string(k.tag) + "@" + id(H);
                LE old = ie->second.v;
                int b = baseOf(old);
                if (b >= 0 && !memRebased.count({ HK, k }) && (atoms[b].hasExt || atoms[b].byteLike)) {
                    int a = atomFor(nm + ".off" + keyOf(old));
                    atoms[a].lo = false;
                    it->second.v = old + LE::atom(a);
                    symMem[k] = { a, old };
                } else {
                    int a = atomFor(nm + ".v");
                    if (k.tag == Size || k.tag == Cap)
                        typedSize(a);
                    else if (it->second.bytes < 8) {
                        atoms[a].hasHi = true;
                        atoms[a].hi = (int64_t(1) << (8 * it->second.bytes)) - 1;
                    }
                    bool wasPtr = memPtr.count({ HK, k }) || b >= 0;
                    if (wasPtr) {
                        atoms[a].ptr = true;
                        if ((b >= 0 && atoms[b].byteLike) || rawMem.count({ HK, k }))
                            atoms[a].byteLike = true;
                        memPtr.insert({ HK, k });
                        if (old == LE(0))
                            atoms[a].maybeNull = true;
                    }
                    it->second.v = LE::atom(a);
                    symMem[k] = { a, LE(0) };
                }
                it->second.b = nullptr;
            }
            restrict(h, H);
        };
        // a pointer into a buffer that becomes null: that round starts the loop anew
        auto splitNull = [&](std::vector<State>& latches, std::vector<State>* nulls) {
            if (nullRun)
                return;
            for (size_t i = 0; i < latches.size();) {
                auto& l = latches[i];
                bool null = false;
                for (auto* p : phis)
                    if (p->getType()->isPointerTy() && !rebased.count(p)) {
                        auto it = l.bind.find(p);
                        auto ie = e.bind.find(p);
                        null = null || (it != l.bind.end() && ie != e.bind.end() && it->second == LE(0) && baseOf(ie->second) >= 0);
                    }
                for (auto& [k, c] : e.mem)
                    if (!memRebased.count({ HK, k }) && baseOf(c.v) >= 0) {
                        auto it = l.mem.find(k);
                        null = null || (it != l.mem.end() && it->second.v == LE(0));
                    }
                if (null) {
                    if (nulls)
                        nulls->push_back(std::move(l));
                    latches.erase(latches.begin() + i);
                } else
                    i++;
            }
        };
        auto runNulls = [&](std::vector<State>& nulls) {
            if (nulls.empty())
                return;
            limit(nulls, H, 1);
            State n = nulls[0];
            runLoop1(L, n, out, 100 + entry, true);
        };
        if (scouting) {
            // only the effects and the conditions of the loop matter
            build();
            std::vector<State> latches, nulls;
            region(L, H, { h }, &latches, out);
            splitNull(latches, &nulls);
            note(HK, phis, h, e, latches);
            runNulls(nulls);
            report = oldReport;
            return;
        }
        // scout until the set of changed cells is stable
        scouting++;
        std::vector<State> seenLatches;
        for (int round = 0; round < 6; round++) {
            build();
            std::vector<State> latches;
            std::vector<Edge> ex;
            seenGuards.clear();
            guards = &seenGuards;
            optimistic = round == 0 && !known ? true : oldOpt;
            region(L, H, { h }, &latches, ex);
            optimistic = oldOpt;
            guards = oldGuards;
            splitNull(latches, nullptr);
            bool more = note(HK, phis, h, e, latches);
            seenLatches = std::move(latches);
            for (auto& k : lostAt[HK])
                const_cast<State&>(e).mem.erase(k);
            if (!more && (round > 0 || known))
                break;
        }
        // the same once more without wrap around: the values only suggest candidates
        std::vector<State> ideal;
        {
            bool exact = false;
            for (auto& [p, ab] : sym)
                exact = exact || !atoms[ab.first].ptr;
            for (auto& [k, ab] : symMem)
                exact = exact || !atoms[ab.first].ptr;
            if (exact) {
                build();
                std::vector<Edge> ex;
                optimistic = true;
                region(L, H, { h }, &ideal, ex);
                optimistic = oldOpt;
                splitNull(ideal, nullptr);
            }
        }
        scouting--;
        scouted.insert(HK);
        build();
        // candidates over the loop atoms
        struct Cand {
            LE row;
        };
        std::vector<LE> cands;
        std::set<LE> uniq;
        auto entryOf = [&](const LE& row) { // row with the loop atoms replaced by their entry values
            LE r = row;
            for (auto& [p, ab] : sym)
                r = subst(r, ab.first, e.bind.at(p) - ab.second);
            for (auto& [k, ab] : symMem)
                r = subst(r, ab.first, e.mem.at(k).v - ab.second);
            return r;
        };
        auto offer = [&](LE row) {
            if (row.bad || row.t.empty())
                return;
            tighten(row);
            if (uniq.count(row) || cands.size() > 160 || rejected[HK][entry].count(row))
                return;
            if (entails(e, entryOf(row))) {
                uniq.insert(row);
                cands.push_back(row);
            }
        };
        std::vector<std::pair<int, LE>> la; // loop atom, entry value
        for (auto& [p, ab] : sym)
            if (!(atoms[ab.first].ptr))
                la.push_back({ ab.first, e.bind.at(p) - ab.second });
        for (auto& [k, ab] : symMem)
            if (!atoms[ab.first].ptr)
                la.push_back({ ab.first, e.mem.at(k).v - ab.second });
        std::set<int> loopAtoms;
        for (auto& [a, v] : la)
            loopAtoms.insert(a);
        for (auto& [p, ab] : sym)
            loopAtoms.insert(ab.first);
        for (auto& [k, ab] : symMem)
            loopAtoms.insert(ab.first);
        // rows tied to the entry values: one round must not decrease them
        auto valueAt = [&](const State& l, const LE& c, bool& ok) {
            std::map<int, LE> to;
            for (auto& [p, ab] : sym) {
                auto it = l.bind.find(p);
                if (it != l.bind.end())
                    to[ab.first] = it->second - ab.second;
            }
            for (auto& [k, ab] : symMem) {
                auto it = l.mem.find(k);
                if (it == l.mem.end()) {
                    ok = ok && !c.t.count(ab.first);
                    continue;
                }
                to[ab.first] = it->second.v - ab.second;
            }
            LE q(c.c);
            for (auto& [v, k] : c.t) {
                auto it = to.find(v);
                q = it == to.end() ? add(q, LE::atom(v), k) : add(q, it->second, k);
            }
            return q;
        };
        auto tied = [&](const LE& row, bool pair) {
            if (row.bad || row.t.empty() || uniq.count(row))
                return;
            for (auto& l : seenLatches) {
                bool ok = true;
                LE d = valueAt(l, row, ok) - row;
                if (!ok || (d.isConst() && d.c < 0))
                    return;
                if (pair && !d.isConst() && !entails(l, d))
                    return;
            }
            offer(row);
        };
        for (auto& [a, v] : la) {
            tied(LE::atom(a) - v, false);
            tied(v - LE::atom(a), false);
            offer(LE::atom(a));
        }
        for (auto& [p, ab] : sym)
            if (atoms[ab.first].ptr && atoms[ab.first].maybeNull)
                offer(LE::atom(ab.first) - 1);
        for (size_t i = 0; i < la.size(); i++)
            for (size_t j = 0; j < la.size(); j++) {
                if (i == j)
                    continue;
                LE a = LE::atom(la[i].first), b = LE::atom(la[j].first);
                if (i < j) {
                    LE s2 = a + b - (la[i].second + la[j].second);
                    tied(s2, true);
                    tied(scaled(s2, -1), true);
                    LE d = a - b - (la[i].second - la[j].second);
                    tied(d, true);
                    tied(scaled(d, -1), true);
                }
                offer(a - b);
            }
        // quantities that advance by different constants in every round
        struct Stride {
            int atom;
            int64_t k, from;
        };
        std::vector<Stride> stride; // from + k * (number of rounds)
        {
            std::vector<std::pair<size_t, int64_t>> step;
            for (size_t i = 0; i < la.size(); i++) {
                int64_t k = 0;
                bool fine = !ideal.empty();
                for (size_t n = 0; n < ideal.size() && fine; n++) {
                    bool ok = true;
                    LE d = valueAt(ideal[n], LE::atom(la[i].first), ok) - LE::atom(la[i].first);
                    fine = ok && d.isConst() && d.c != 0 && (n == 0 || d.c == k) && d.c >= -64 && d.c <= 64;
                    k = d.c;
                }
                if (fine)
                    step.push_back({ i, k });
                if (fine && la[i].second.isConst() && k > 1)
                    stride.push_back({ la[i].first, k, la[i].second.c });
            }
            for (auto& [i, ki] : step)
                for (auto& [j, kj] : step) {
                    if (i >= j || ki == kj || ki == -kj)
                        continue;
                    LE d = scaled(LE::atom(la[i].first) - la[i].second, kj) - scaled(LE::atom(la[j].first) - la[j].second, ki);
                    offer(d);
                    offer(scaled(d, -1));
                }
        }
        // conditions and extents used in the loop
        auto local = [&](const LE& r) {
            bool hit = false;
            for (auto& [v, k] : r.t) {
                hit = hit || loopAtoms.count(v);
            }
            return hit;
        };
        for (auto& g : seenGuards) {
            if (!local(g))
                continue;
            offer(g);
            offer(g + 1);
            if (g.c != 0)
                offer(g - g.c);
            if (O.paddedWalk)
                offer(g - g.c + 3);
            LE en = entryOf(g);
            if (en.isConst() && en.c < 0)
                offer(g - en.c);
        }
        for (auto& g : e.rows)
            for (auto& [a, v] : la) {
                // rows about the entry value hold for the running value
                if (v.t.size() == 1 && g.t.count(v.t.begin()->first) && v.t.begin()->second == 1)
                    offer(subst(g, v.t.begin()->first, LE::atom(a) - v.c));
            }
        for (auto& g : e.rows) {
            LE r = g;
            int n = 0;
            for (auto& [a, v] : la)
                if (v.t.size() == 1 && v.t.begin()->second == 1 && r.t.count(v.t.begin()->first)) {
                    r = subst(r, v.t.begin()->first, LE::atom(a) - v.c);
                    n++;
                }
            if (n > 1)
                offer(r);
        }
        // a small length (0 or a few constants) that is only non-zero when it fits with one to spare: a > 0 => n - b >= a + 1
        std::map<int, int64_t> small;
        for (auto& [a, v] : la)
            small[a] = v.isConst() && v.c >= 0 && v.c <= 16 ? v.c : 0;
        for (bool ch = true; ch;) {
            ch = false;
            for (auto it = small.begin(); it != small.end();) {
                bool fine = true;
                for (auto& l : seenLatches) {
                    bool ok = true;
                    LE v = valueAt(l, LE::atom(it->first), ok);
                    if (ok && v.isConst() && v.c >= 0 && v.c <= 16) {
                        if (v.c > it->second)
                            it->second = v.c, ch = true;
                    } else if (ok && v.t.size() == 1 && !loopAtoms.count(v.t.begin()->first) && entails(l, v) && entails(l, LE(16) - v)) {
                        int64_t K = 16;
                        while (K > 0 && entails(l, LE(K - 1) - v))
                            K--;
                        if (K > it->second)
                            it->second = K, ch = true;
                    } else if (ok && v.c == 0 && v.t.size() == 1 && v.t.begin()->second == 1 && small.count(v.t.begin()->first)) {
                        int64_t k = small[v.t.begin()->first];
                        if (k > it->second)
                            it->second = k, ch = true;
                    } else
                        fine = false;
                }
                if (!fine)
                    ch = true;
                it = fine ? std::next(it) : small.erase(it);
            }
        }
        if (!small.empty()) {
            std::set<LE> limits; // n - b
            for (auto& g : seenGuards) {
                int n = 0, b = -1;
                for (auto& [v, k] : g.t)
                    if (loopAtoms.count(v)) {
                        n++;
                        if (k == -1)
                            b = v;
                    }
                if (n == 1 && b >= 0 && g.t.size() <= 2 && limits.size() < 6)
                    limits.insert(g - g.c);
            }
            // a quantity that becomes another one in the next round obeys its limits
            std::vector<LE> more;
            for (auto& g : limits)
                for (auto& [b, k] : g.t)
                    if (k == -1 && loopAtoms.count(b))
                        for (auto& l : seenLatches) {
                            bool ok = true;
                            LE v = valueAt(l, LE::atom(b), ok);
                            if (ok && v.c == 0 && v.t.size() == 1 && v.t.begin()->second == 1 && loopAtoms.count(v.t.begin()->first))
                                more.push_back(subst(g, b, v));
                        }
            for (auto& g : more) {
                if (limits.size() < 10)
                    limits.insert(g);
                offer(g);
            }
            for (auto& [a, K] : small)
                if (K > 0)
                    for (auto& l : limits)
                        if (!l.t.count(a))
                            offer(scaled(l, K) - scaled(LE::atom(a), K + 1));
            for (auto& [a, K] : small) {
                offer(LE(K) - LE::atom(a));
                // and the next quantity starts behind it
                for (auto& [b, vb] : la)
                    for (auto& [c, vc] : la)
                        if (a != b && a != c && b != c && !small.count(b) && !small.count(c))
                            offer(LE::atom(c) - LE::atom(b) - LE::atom(a));
            }
        }
        if (g_trace && getenv("SA_LOOPS")) {
            errs() << "LOOP " << Program::loc(H->getTerminator()) << " candidates:\n";
            for (auto& c : cands)
                errs() << "    " << show(c) << "\n";
        }
        auto pins = [&](int d) {
            for (auto& c : cands)
                for (auto& [v, k] : c.t)
                    pinned[v] += d;
            for (auto& [a, v] : la)
                for (auto& [x, k] : v.t)
                    pinned[x] += d;
        };
        auto pinBefore = pinned;
        pins(1);
        auto strided = [&](State& s) {
            for (auto& x : stride) {
                int qa = atomFor("round@" + std::to_string(x.atom));
                LE q = LE::atom(qa);
                pinned[qa] = std::max(pinned[qa], 1);
                pinned[x.atom] = std::max(pinned[x.atom], 1);
                addRow(s, q);
                LE d = LE::atom(x.atom) - x.from - scaled(q, x.k);
                addRow(s, d);
                addRow(s, scaled(d, -1));
            }
        };
        // keep what is inductive
        for (auto* sub : L->getLoopsInPreorder())
            if (sub != L)
{
                rejected[sub->getHeader()].clear();
                rejected[tagged(sub->getHeader(), true)].clear();
            }
        optimistic = oldOpt;
        guards = nullptr;
        for (int round = 0; round < 40 && !R.gaveUp; round++) {
            State s = h;
            for (auto& c : cands)
                s.rows.push_back(c);
            strided(s);
            std::vector<State> latches;
            std::vector<Edge> ex;
            region(L, H, { s }, &latches, ex);
            splitNull(latches, nullptr);
            bool lessStride = false;
            for (size_t i = 0; i < stride.size();) {
                bool fine = true;
                for (auto& l : latches) {
                    bool ok = true;
                    LE d = valueAt(l, LE::atom(stride[i].atom), ok) - LE::atom(stride[i].atom);
                    fine = fine && ok && d.isConst() && d.c == stride[i].k;
                }
                if (!fine)
                    stride.erase(stride.begin() + i), lessStride = true;
                else
                    i++;
            }
            if (lessStride)
                continue;
            std::vector<LE> keep;
            for (auto& c : cands) {
                bool ok = true;
                for (auto& l : latches) {
                    LE q = valueAt(l, c, ok);
                    if (!ok || !entails(l, q)) {
                        ok = false;
                        break;
                    }
                }
                if (ok)
                    keep.push_back(c);
                else
                    rejected[HK][entry].insert(c);
            }
            bool same = keep.size() == cands.size();
            if (getenv("SA_ROUNDS"))
                errs() << std::string(2 * L->getLoopDepth(), ' ') << Program::loc(H->getTerminator()) << " entry " << entry << " round " << round << ": " << cands.size() << " -> " << keep.size() << " rows " << e.rows.size() << " work " << work << " latches " << latches.size() << "\n";
            cands = std::move(keep);
            if (same)
                break;
        }
        if (g_trace && getenv("SA_LOOPS")) {
            errs() << "LOOP " << Program::loc(H->getTerminator()) << " invariants:\n";
            for (auto& c : cands)
                errs() << "    " << show(c) << "\n";
        }
        // final pass
        pinned = std::move(pinBefore);
        report = oldReport;
        guards = oldGuards;
        State s = h;
        for (auto& c : cands)
            s.rows.push_back(c);
        auto pinFinal = pinned;
        strided(s);
        std::vector<State> latches, nulls;
        region(L, H, { s }, &latches, out);
        pinned = std::move(pinFinal);
        splitNull(latches, &nulls);
        runNulls(nulls);
    }
    std::map<const BasicBlock*, std::set<Key>> lostAt;
    std::set<std::pair<const BasicBlock*, Key>> memRebased, memPtr, rawMem; // rawMem, rawPhi: may point into a buffer
    std::set<std::pair<const BasicBlock*, const PHINode*>> rawPhi;

    // ---- entry
    std::map<const BasicBlock*, int> rpo()
    {
        // loops stay contiguous: order by reverse post order, bodies before exits
        std::map<const BasicBlock*, int> r;
        int n = 0;
        for (auto* bb : ReversePostOrderTraversal<Function*>(F))
            r[bb] = n++;
        return r;
    }
    void run()
    {
        DT = std::make_unique<DominatorTree>(*F);
        LI = std::make_unique<LoopInfo>(*DT);
        order = rpo();
        liveness();
        State s;
        // arguments
        for (auto& a : F->args()) {
            LE v = ev(s, &a);
            if (!a.getType()->isPointerTy())
                continue;
            int x = v.t.begin()->first;
            describePtr(x, &a);
            if (a.hasStructRetAttr()) {
                locals.insert(x);
                results.insert(x);
                continue;
            }
            if (atoms[x].byteLike && a.getArgNo() + 1 < F->arg_size()) {
                auto* n = F->getArg(a.getArgNo() + 1);
                if ((n->getType()->isIntegerTy(64) || n->getType()->isIntegerTy(32)) && isUnsigned(P.typeOf(n))) {
                    atoms[x].hasExt = true;
                    atoms[x].ext = ev(s, n);
                    int na = atoms[x].ext.t.begin()->first;
                    typedSize(na);
                }
            }
            if (atoms[x].byteLike && !atoms[x].hasExt) {
                // a reference to a single object
                if (auto* t = P.typeOf(&a); t && isRef(t)) {
                    atoms[x].hasExt = true;
                    atoms[x].ext = LE(1);
                }
            }
        }
        constructing = isCtor(P, F0);
        {
            unsigned an;
            int64_t off, least;
            if (O.minSize && O.minSize(F0, an, off, least) && an < F->arg_size())
                addRow(s, sizeCell(s, ev(s, F->getArg(an)) + off, Size, &F->getEntryBlock().front(), "size") - least);
        }
        if (onEntry)
            onEntry(*this, s);
        std::vector<Edge> exits;
        region(nullptr, &F->getEntryBlock(), { s }, nullptr, exits);
        for (auto& [k, ok] : okAt) {
            R.obligations++;
            R.proved += ok;
            if (ok)
                R.kinds[kindAt[k]]++;
        }
        for (auto& [k, f] : failAt)
            R.failed.insert(f);
    }
    static bool isRef(const DIType* t)
    {
        while (auto* d = dyn_cast_or_null<DIDerivedType>(t)) {
            if (d->getTag() == dwarf::DW_TAG_reference_type || d->getTag() == dwarf::DW_TAG_rvalue_reference_type)
                return true;
            if (d->getTag() == dwarf::DW_TAG_typedef || d->getTag() == dwarf::DW_TAG_const_type)
                t = d->getBaseType();
            else
                return false;
        }
        return false;
    }
    std::function<void(Engine&, State&)> onEntry;
};

} // namespace

#include "llvm/Demangle/Demangle.h"
std::string Engine::demangled(const std::string& n) { return llvm::demangle(n); }

time_t boundsDeadline = 0;
BoundsResult boundsOf(Program& p, const Function* f0, const BoundsOpts& o)
{
    Program::SpecOpts so;
    so.keep = [&](const Function* g) { return !(o.inlineFn && o.inlineFn(g)); };
    so.maxInstr = 12000;
    so.before = [&](Function& f) {
        std::vector<Instruction*> dead;
        for (auto& i : instructions(f))
            if (auto* cb = dyn_cast<CallBase>(&i); cb && cb->getCalledFunction() && o.ignore && o.ignore(cb->getCalledFunction()) && cb->use_empty() && !isa<InvokeInst>(cb))
                dead.push_back(cb);
        for (auto* i : dead)
            i->eraseFromParent();
    };
    auto* f = p.specialise(f0, so);
    Engine e(p, f, f0, o);
    e.run();
    return e.R;
}
