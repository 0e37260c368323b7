
// Scenario executor: reads a scenario (token format, see vlib/scn.py), builds the graph with
// the real library, performs the listed calls through the public API only and writes what it
// observed as JSON.  One forked child per scenario, so a crash is an observation as well.
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <memory>

#include "dwave-optimization/array.hpp"
#include "dwave-optimization/graph.hpp"
#include "dwave-optimization/nodes.hpp"
#include "dwave-optimization/nodes/testing.hpp"

using namespace dwave::optimization;

static const long NONE = 2147483647L;
static long S = 1;  // scale

struct Out {
    std::string s;
    Out& operator<<(const char* x) { s += x; return *this; }
    Out& operator<<(const std::string& x) { s += x; return *this; }
    Out& operator<<(long x) { s += std::to_string(x); return *this; }
};

static long scale(double x, bool* off = nullptr) {
    if (std::isnan(x)) return 2000000001L;
    double y = x * S;
    if (y >= 2e9) return 2000000000L;
    if (y <= -2e9) return -2000000000L;
    double r = std::nearbyint(y);
    if (off && std::fabs(y - r) > 1e-6) *off = true;
    return static_cast<long>(r);
}
static long scale_min(double x) {
    if (std::isnan(x)) return 2000000001L;
    double y = std::floor(x * S + 1e-6);  // values are rounded to the nearest step
    return y >= 2e9 ? 2000000000L : y <= -2e9 ? -2000000000L : static_cast<long>(y);
}
static long scale_max(double x) {
    if (std::isnan(x)) return -2000000001L;
    double y = std::ceil(x * S - 1e-6);
    return y >= 2e9 ? 2000000000L : y <= -2e9 ? -2000000000L : static_cast<long>(y);
}
static long clampl(long x) { return x > 2000000000L ? 2000000000L : x < -2000000000L ? -2000000000L : x; }

template <class R>
static void jlist(Out& o, const R& r) {
    o << "[";
    bool first = true;
    for (const auto& x : r) {
        if (!first) o << ",";
        first = false;
        o << clampl(static_cast<long>(x));
    }
    o << "]";
}

struct Tok {
    std::vector<std::string> t;
    size_t i = 0;
    long num() { return std::stol(t.at(i++)); }
    std::string str() { return t.at(i++); }
    double val() { return static_cast<double>(num()) / S; }
    bool end() const { return i >= t.size(); }
    std::vector<ssize_t> list() {
        long n = num();
        std::vector<ssize_t> v;
        for (long k = 0; k < n; ++k) v.push_back(num());
        return v;
    }
    std::vector<double> vals() {
        long n = num();
        std::vector<double> v;
        for (long k = 0; k < n; ++k) v.push_back(val());
        return v;
    }
};

struct Slot {
    State st;
    bool live = false;
    std::vector<const Node*> changed;
};

struct Runner {
    Graph g;
    std::vector<Node*> nodes;       // by scenario index; nullptr = refused
    std::vector<std::string> ops;
    std::vector<std::vector<long>> preds;
    std::vector<std::vector<double>> constdata;  // keeps constants alive
    std::map<int, Slot> slots;
    std::map<int, RngAdaptor> rngs;
    std::string flags;
    Out o;
    int fd = -1;

    bool has(char c) const { return flags.find(c) != std::string::npos; }
    ArrayNode* arr(long i) {
        if (i < 0 || i >= (long)nodes.size() || !nodes[i]) return nullptr;
        return dynamic_cast<ArrayNode*>(nodes[i]);
    }
    void flush() {
        size_t k = 0;
        while (k < o.s.size()) {
            ssize_t w = write(fd, o.s.data() + k, o.s.size() - k);
            if (w <= 0) _exit(97);
            k += w;
        }
        o.s.clear();
    }
    long index_of(const Node* n) const {
        for (size_t i = 0; i < nodes.size(); ++i)
            if (nodes[i] == n) return i;
        return -1;
    }
    long index_of_array(const Array* a) const {
        if (!a) return -1;
        for (size_t i = 0; i < nodes.size(); ++i) {
            if (!nodes[i]) continue;
            const ArrayNode* an = dynamic_cast<const ArrayNode*>(nodes[i]);
            if (an && static_cast<const Array*>(an) == a) return i;
        }
        return -2;
    }

    template <class N>
    Node* unary(long p) { return g.emplace_node<N>(arr(p)); }
    template <class N>
    Node* binary(long p, long q) { return g.emplace_node<N>(arr(p), arr(q)); }
    template <class N>
    Node* nary(const std::vector<long>& p) {
        std::vector<ArrayNode*> v;
        for (long x : p) v.push_back(arr(x));
        return g.emplace_node<N>(std::span<ArrayNode*>(v));
    }
    template <class N>
    Node* reduce(long p, Tok& t) {
        if (t.num()) { double init = t.val(); return g.emplace_node<N>(arr(p), init); }
        t.num();
        return g.emplace_node<N>(arr(p));
    }

    Node* make(const std::string& op, const std::vector<long>& p, Tok& t) {
        if (op == "Constant") {
            auto sh = t.list();
            auto v = t.vals();
            if (v.empty()) v.push_back(0), constdata.push_back(v);
            else constdata.push_back(v);
            // the vectors' heap blocks do not move when constdata grows
            return g.emplace_node<ConstantNode>(constdata.back().data(), std::span<const ssize_t>(sh));
        }
        if (op == "Integer") {
            auto sh = t.list();
            long lb = t.num(), ub = t.num();
            std::optional<int> l, u;
            if (lb != NONE) l = lb;
            if (ub != NONE) u = ub;
            return g.emplace_node<IntegerNode>(std::span<const ssize_t>(sh), l, u);
        }
        if (op == "Binary") {
            auto sh = t.list();
            return g.emplace_node<BinaryNode>(std::span<const ssize_t>(sh));
        }
        if (op == "List") {
            long n = t.num(), mn = t.num(), mx = t.num();
            if (mn == NONE) return g.emplace_node<ListNode>(n);
            return g.emplace_node<ListNode>(n, mn, mx);
        }
        if (op == "Set") {
            long n = t.num(), mn = t.num(), mx = t.num();
            if (mn == NONE) return g.emplace_node<SetNode>(n);
            return g.emplace_node<SetNode>(n, mn, mx);
        }
        if (op == "DisjointBitSets") { long n = t.num(), k = t.num(); return g.emplace_node<DisjointBitSetsNode>(n, k); }
        if (op == "DisjointLists") { long n = t.num(), k = t.num(); return g.emplace_node<DisjointListsNode>(n, k); }
        if (op == "DisjointBitSet") return g.emplace_node<DisjointBitSetNode>(dynamic_cast<DisjointBitSetsNode*>(nodes[p[0]]));
        if (op == "DisjointList") return g.emplace_node<DisjointListNode>(dynamic_cast<DisjointListsNode*>(nodes[p[0]]));
        if (op == "Dyn") {
            auto sh = t.list();
            long hasb = t.num();
            double lo = t.val(), hi = t.val();
            bool integral = t.num();
            long mn = t.num(), mx = t.num();
            std::optional<double> l, h;
            if (hasb) { l = lo; h = hi; }
            std::optional<ssize_t> a, b;
            if (mn != NONE) a = mn;
            if (mx != NONE) b = mx;
            if (sh.size() == 1) return g.emplace_node<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1}, l, h, integral, a, b);
            if (sh.size() == 2) return g.emplace_node<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1, sh[1]}, l, h, integral, a, b);
            return g.emplace_node<DynamicArrayTestingNode>(std::initializer_list<ssize_t>{-1, sh[1], sh[2]}, l, h, integral, a, b);
        }
        if (op == "Absolute") return unary<AbsoluteNode>(p[0]);
        if (op == "Logical") return unary<LogicalNode>(p[0]);
        if (op == "Negative") return unary<NegativeNode>(p[0]);
        if (op == "Not") return unary<NotNode>(p[0]);
        if (op == "Square") return unary<SquareNode>(p[0]);
        if (op == "SquareRoot") return unary<SquareRootNode>(p[0]);
        if (op == "Add") return binary<AddNode>(p[0], p[1]);
        if (op == "And") return binary<AndNode>(p[0], p[1]);
        if (op == "Divide") return binary<DivideNode>(p[0], p[1]);
        if (op == "Equal") return binary<EqualNode>(p[0], p[1]);
        if (op == "LessEqual") return binary<LessEqualNode>(p[0], p[1]);
        if (op == "Multiply") return binary<MultiplyNode>(p[0], p[1]);
        if (op == "Maximum") return binary<MaximumNode>(p[0], p[1]);
        if (op == "Minimum") return binary<MinimumNode>(p[0], p[1]);
        if (op == "Modulus") return binary<ModulusNode>(p[0], p[1]);
        if (op == "Or") return binary<OrNode>(p[0], p[1]);
        if (op == "Subtract") return binary<SubtractNode>(p[0], p[1]);
        if (op == "Xor") return binary<XorNode>(p[0], p[1]);
        if (op == "NaryAdd") return nary<NaryAddNode>(p);
        if (op == "NaryMaximum") return nary<NaryMaximumNode>(p);
        if (op == "NaryMinimum") return nary<NaryMinimumNode>(p);
        if (op == "NaryMultiply") return nary<NaryMultiplyNode>(p);
        if (op == "All") return reduce<AllNode>(p[0], t);
        if (op == "Any") return reduce<AnyNode>(p[0], t);
        if (op == "Max") return reduce<MaxNode>(p[0], t);
        if (op == "Min") return reduce<MinNode>(p[0], t);
        if (op == "Prod") return reduce<ProdNode>(p[0], t);
        if (op == "Sum") return reduce<SumNode>(p[0], t);
        if (op == "PartialSum") { auto axes = t.list(); return g.emplace_node<PartialSumNode>(arr(p[0]), std::span<const ssize_t>(axes)); }
        if (op == "Where") return g.emplace_node<WhereNode>(arr(p[0]), arr(p[1]), arr(p[2]));
        if (op == "Size") return g.emplace_node<SizeNode>(arr(p[0]));
        if (op == "Reshape") { auto sh = t.list(); return g.emplace_node<ReshapeNode>(arr(p[0]), std::span<const ssize_t>(sh)); }
        if (op == "Concatenate") {
            long axis = t.num();
            std::vector<ArrayNode*> v;
            for (long x : p) v.push_back(arr(x));
            return g.emplace_node<ConcatenateNode>(std::span<ArrayNode*>(v), axis);
        }
        if (op == "Permutation") return g.emplace_node<PermutationNode>(arr(p[0]), arr(p[1]));
        if (op == "BasicIndexing") {
            long n = t.num();
            std::vector<BasicIndexingNode::slice_or_int> idx;
            for (long k = 0; k < n; ++k) {
                long kind = t.num(), a = t.num(), b = t.num(), c = t.num();
                if (kind == 0) idx.emplace_back(static_cast<ssize_t>(a));
                else {
                    std::optional<ssize_t> x, y, z;
                    if (a != NONE) x = a;
                    if (b != NONE) y = b;
                    if (c != NONE) z = c;
                    idx.emplace_back(Slice(x, y, z));
                }
            }
            return g.emplace_node<BasicIndexingNode>(arr(p[0]), idx);
        }
        if (op == "AdvancedIndexing") {
            long n = t.num();
            std::vector<AdvancedIndexingNode::array_or_slice> idx;
            size_t q = 1;
            for (long k = 0; k < n; ++k) {
                long kind = t.num(), a = t.num(), b = t.num(), c = t.num();
                if (kind == 2) idx.emplace_back(arr(p.at(q++)));
                else {
                    std::optional<ssize_t> x, y, z;
                    if (a != NONE) x = a;
                    if (b != NONE) y = b;
                    if (c != NONE) z = c;
                    idx.emplace_back(Slice(x, y, z));
                }
            }
            return g.emplace_node<AdvancedIndexingNode>(arr(p[0]), idx);
        }
        if (op == "QuadraticModel") {
            long n = t.num();
            QuadraticModel qm(n);
            long k = t.num();  // list of construction calls
            for (long j = 0; j < k; ++j) {
                long c = t.num(), u = t.num(), v = t.num();
                double b = t.val();
                if (c == 0) qm.set_linear(u, b);
                else if (c == 1) qm.add_linear(u, b);
                else if (c == 2) qm.set_quadratic(u, v, b);
                else qm.add_quadratic(u, v, b);
            }
            return g.emplace_node<QuadraticModelNode>(arr(p[0]), std::move(qm));
        }
        fprintf(stderr, "unknown op %s\n", op.c_str());
        _exit(96);
    }

    void sizeinfo(Out& o, const SizeInfo& si) {
        o << "{\"a\":" << index_of_array(si.array_ptr) << ",\"mn\":" << clampl(si.multiplier.numerator())
          << ",\"md\":" << clampl(si.multiplier.denominator()) << ",\"of\":" << clampl(si.offset)
          << ",\"min\":" << (si.min ? clampl(*si.min) : -1L) << ",\"max\":" << (si.max ? clampl(*si.max) : -1L) << "}";
    }

    void static_obs(long i) {
        Node* n = nodes[i];
        if (!n) { o << "{\"ok\":0}"; return; }
        ArrayNode* a = arr(i);
        o << "{\"ok\":1,\"ti\":" << (long)n->topological_index() << ",\"pr\":[";
        bool first = true;
        for (auto* p : n->predecessors()) { if (!first) o << ","; first = false; o << index_of(p); }
        o << "],\"su\":[";
        first = true;
        for (const auto& sv : n->successors()) { if (!first) o << ","; first = false; o << "[" << index_of(sv.ptr) << "," << (long)sv.index << "]"; }
        o << "]";
        if (a) {
            o << ",\"arr\":1,\"sh\":";
            jlist(o, a->shape());
            o << ",\"nd\":" << (long)a->ndim() << ",\"n\":" << (long)a->size() << ",\"str\":";
            jlist(o, a->strides());
            o << ",\"cont\":" << (long)a->contiguous() << ",\"dyn\":" << (long)a->dynamic();
            o << ",\"item\":" << (long)a->itemsize();
            o << ",\"min\":" << scale_min(a->min()) << ",\"max\":" << scale_max(a->max());
            o << ",\"int\":" << (long)a->integral() << ",\"log\":" << (long)a->logical();
            SizeInfo si = a->sizeinfo();
            o << ",\"si\":";
            sizeinfo(o, si);
            // substitution is only defined for size infos that refer to an array
            for (int depth : {1, 100}) {
                o << (depth == 1 ? ",\"si1\":" : ",\"siN\":");
                if (si.array_ptr) sizeinfo(o, si.substitute(depth)); else sizeinfo(o, si);
            }
        } else {
            o << ",\"arr\":0";
        }
        o << "}";
    }

    void node_obs(long i, const State& st, bool full = true) {
        ArrayNode* a = arr(i);
        if (!nodes[i] || !a) { o << "{}"; return; }
        bool off = false;
        long broken = 0;
        ssize_t n = a->size(st);
        o << "{\"sh\":";
        auto sh = a->shape(st);
        jlist(o, sh);
        o << ",\"n\":" << clampl(n) << ",\"v\":[";
        {
            bool first = true;
            auto view = a->view(st);
            ssize_t k = 0;
            for (auto it = view.begin(); it != view.end() && k < 5000; ++it, ++k) {
                if (!first) o << ",";
                first = false;
                o << scale(*it, &off);
                // rounding hides what is nearly an integer
                if (a->integral() && std::fabs(*it) < 9007199254740992.0 && *it != std::nearbyint(*it)) ++broken;
            }
        }
        o << "],\"x\":" << (long)off << ",\"ni\":" << broken;
        if (has('D')) {
            o << ",\"df\":[";
            bool first = true;
            for (const Update& u : a->diff(st)) {
                if (!first) o << ",";
                first = false;
                long kind = u.placed() ? (u.removed() ? 3 : 1) : (u.removed() ? 2 : 0);
                o << "[" << clampl(u.index) << "," << kind << "," << scale(u.old) << "," << scale(u.value) << "]";
            }
            o << "],\"sd\":" << clampl(a->size_diff(st));
        }
        if (has('R') && full) {
            auto view = a->view(st);
            o << ",\"len\":" << clampl(a->len(st)) << ",\"vn\":" << clampl(view.size());
            // through random access
            o << ",\"r\":[";
            for (ssize_t k = 0; k < n; ++k) { if (k) o << ","; o << scale(view[k]); }
            o << "],\"w\":[";  // backwards from the end
            {
                auto it = view.end();
                for (ssize_t k = 0; k < n; ++k) { --it; if (k) o << ","; o << scale(*it); }
            }
            o << "],\"fb\":[";
            if (n) o << scale(view.front());
            o << "],\"b\":[";
            // through the buffer protocol
            const char* buf = reinterpret_cast<const char*>(a->buff(st));
            auto str = a->strides();
            std::vector<ssize_t> loc(sh.size(), 0);
            ssize_t total = 1;
            for (auto d : sh) total *= d;
            for (ssize_t k = 0; k < total && k < 5000; ++k) {
                ssize_t off2 = 0;
                for (size_t d = 0; d < loc.size(); ++d) off2 += loc[d] * str[d];
                if (k) o << ",";
                o << scale(*reinterpret_cast<const double*>(buf + off2));
                for (ssize_t d = (ssize_t)loc.size() - 1; d >= 0; --d) {
                    if (++loc[d] < sh[d]) break;
                    loc[d] = 0;
                }
            }
            o << "],\"dist\":" << clampl(view.end() - view.begin());
        }
        o << "}";
    }

    bool is_dec(long i) const {
        const std::string& p = ops[i];
        return p == "Integer" || p == "Binary" || p == "List" || p == "Set" || p == "Dyn" ||
               p == "DisjointBitSet" || p == "DisjointList";
    }
    void slot_obs(Slot& s, bool only_dec) {
        o << "[";
        for (size_t i = 0; i < nodes.size(); ++i) {
            if (i) o << ",";
            if (!s.live || (only_dec && !is_dec(i))) o << "{}";
            else node_obs(i, s.st);
        }
        o << "]";
    }
    void energy_obs(Slot& s) {
        if (!has('E')) return;
        o << ",\"en\":" << scale(g.energy(s.st)) << ",\"fe\":" << (long)g.feasible(s.st);
    }

    // returns "" or the exception text
    template <class F>
    std::string guard(F f) {
        try { f(); } catch (const std::exception& e) { return std::string(typeid(e).name()) + ":" + e.what(); }
        return "";
    }
    static std::string esc(const std::string& s) {
        std::string r;
        for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if ((unsigned char)c >= 32) r += c; }
        return r;
    }

    // initialise decision d in state from tokens: mode 0 default, 1 explicit flat, 2 explicit list-of-lists, 3 random
    void init_decision(State& st, Tok& t) {
        long d = t.num(), mode = t.num();
        Node* n = nodes.at(d);
        if (mode == 0) { n->initialize_state(st); return; }
        if (mode == 3) {
            RngAdaptor rng{std::mt19937(t.num())};
            dynamic_cast<NumberNode*>(n)->initialize_state(st, rng);
            return;
        }
        if (mode == 1) {
            auto v = t.vals();
            if (auto* c = dynamic_cast<CollectionNode*>(n)) c->initialize_state(st, v);
            else if (auto* c = dynamic_cast<NumberNode*>(n)) {
                c->initialize_state(st, std::move(v));
            }
            else if (auto* c = dynamic_cast<DynamicArrayTestingNode*>(n)) c->initialize_state(st, std::span<const double>(v));
            else _exit(95);
            return;
        }
        if (mode == 4) {  // range overload
            auto v = t.vals();
            dynamic_cast<NumberNode*>(n)->initialize_state(st, std::as_const(v));
            return;
        }
        long k = t.num();
        std::vector<std::vector<double>> vv;
        for (long j = 0; j < k; ++j) vv.push_back(t.vals());
        if (auto* c = dynamic_cast<DisjointListsNode*>(n)) c->initialize_state(st, vv);
        else if (auto* c = dynamic_cast<DisjointBitSetsNode*>(n)) c->initialize_state(st, vv);
        else _exit(95);
    }

    void event(const std::string& e, Tok& t) {
        std::string exc;
        if (e == "init") {
            // init slot ndec {dec mode ...}
            int s = t.num();
            Slot& sl = slots[s];
            long k = t.num();
            exc = guard([&]() {
                sl.live = false;
                sl.changed.clear();
                sl.st = g.empty_state();
                for (long j = 0; j < k; ++j) init_decision(sl.st, t);
                g.initialize_state(sl.st);
                sl.live = true;
            });
            o << "{\"e\":\"init\",\"s\":" << s << ",\"exc\":\"" << esc(exc) << "\"";
            if (sl.live) energy_obs(sl);
            tail(s, false);
        } else if (e == "mv") {
            int s = t.num();
            long d = t.num();
            std::string kind = t.str();
            Slot& sl = slots[s];
            long ret = -1;
            Node* n = nodes.at(d);
            auto* c = dynamic_cast<CollectionNode*>(n);
            auto* num = dynamic_cast<NumberNode*>(n);
            auto* in = dynamic_cast<IntegerNode*>(n);
            auto* bi = dynamic_cast<BinaryNode*>(n);
            auto* dl = dynamic_cast<DisjointListsNode*>(n);
            auto* db = dynamic_cast<DisjointBitSetsNode*>(n);
            auto* dy = dynamic_cast<DynamicArrayTestingNode*>(n);
            exc = guard([&]() {
                if (kind == "exchange" && c) { long i = t.num(), j = t.num(); c->exchange(sl.st, i, j); }
                else if (kind == "rotate") { long i = t.num(), j = t.num(); c->rotate(sl.st, i, j); }
                else if (kind == "grow" && c) c->grow(sl.st);
                else if (kind == "shrink" && c) c->shrink(sl.st);
                else if (kind == "exchange" && num) { long i = t.num(), j = t.num(); ret = num->exchange(sl.st, i, j); }
                else if (kind == "set_value") { long i = t.num(), v = t.num(); ret = in->set_value(sl.st, i, v); }
                else if (kind == "flip") { long i = t.num(); bi->flip(sl.st, i); }
                else if (kind == "set") { long i = t.num(); ret = bi->set(sl.st, i); }
                else if (kind == "unset") { long i = t.num(); ret = bi->unset(sl.st, i); }
                else if (kind == "get_value") { long i = t.num(); ret = scale(num->get_value(sl.st, i)); }
                else if (kind == "swap_between") { long a = t.num(), b = t.num(), x = t.num(); db->swap_between_sets(sl.st, a, b, x); }
                else if (kind == "containing") { long a = t.num(); ret = db->get_containing_set_index(sl.st, a); }
                else if (kind == "swap_in") { long l = t.num(), i = t.num(), j = t.num(); dl->swap_in_list(sl.st, l, i, j); }
                else if (kind == "pop_to") { long a = t.num(), i = t.num(), b = t.num(), j = t.num(); dl->pop_to_list(sl.st, a, i, b, j); }
                else if (kind == "rotate_in") { long l = t.num(), i = t.num(), j = t.num(); dl->rotate_in_list(sl.st, l, i, j); }
                else if (kind == "set_state") { long l = t.num(); auto v = t.vals(); dl->set_state(sl.st, l, std::span<const double>(v)); }
                else if (kind == "list_size") { long l = t.num(); ret = dl->get_disjoint_list_size(sl.st, l); }
                else if (kind == "dgrow") { auto v = t.vals(); dy->grow(sl.st, std::span<const double>(v)); }
                else if (kind == "dset") { long i = t.num(); double v = t.val(); dy->set(sl.st, i, v); }
                else if (kind == "dshrink") dy->shrink(sl.st);
                else if (kind == "default_move") {
                    long seed = t.num();
                    RngAdaptor rng{std::mt19937(seed)};
                    dynamic_cast<DecisionNode*>(n)->default_move(sl.st, rng);
                } else _exit(94);
            });
            o << "{\"e\":\"mv\",\"s\":" << s << ",\"ret\":" << clampl(ret) << ",\"exc\":\"" << esc(exc) << "\"";
            tail(s, true);
        } else if (e == "prop") {
            int s = t.num();
            auto src = t.list();
            Slot& sl = slots[s];
            exc = guard([&]() {
                std::vector<const Node*> v;
                for (auto x : src) if (nodes.at(x)) v.push_back(nodes[x]);
                sl.changed = Graph::descendants(sl.st, v);
                g.propagate(sl.st, std::span<const Node*>(sl.changed));
            });
            o << "{\"e\":\"prop\",\"s\":" << s << ",\"ch\":[";
            bool first = true;
            for (auto* n : sl.changed) { if (!first) o << ","; first = false; o << index_of(n); }
            o << "],\"exc\":\"" << esc(exc) << "\"";
            energy_obs(sl);
            tail(s, false);
        } else if (e == "com" || e == "rev") {
            int s = t.num();
            Slot& sl = slots[s];
            exc = guard([&]() {
                if (e == "com") g.commit(sl.st, std::span<const Node*>(sl.changed));
                else g.revert(sl.st, std::span<const Node*>(sl.changed));
                sl.changed.clear();
            });
            o << "{\"e\":\"" << e << "\",\"s\":" << s << ",\"exc\":\"" << esc(exc) << "\"";
            energy_obs(sl);
            tail(s, false);
        } else if (e == "propose") {
            int s = t.num();
            long acc = t.num();
            auto src = t.list();
            Slot& sl = slots[s];
            o << "{\"e\":\"propose\",\"s\":" << s << ",\"acc\":" << acc;
            long calls = 0;
            exc = guard([&]() {
                std::vector<const Node*> v;
                for (auto x : src) if (nodes.at(x)) v.push_back(nodes[x]);
                if (acc == 2) {  // default acceptance function
                    g.propose(sl.st, v);
                } else {
                    g.propose(sl.st, v, [&](const Graph& gg, State& st) {
                        if (calls == 0) {
                            o << ",\"same\":" << (long)(&gg == &g && &st == &sl.st) << ",\"mid\":";
                            slot_obs(sl, false);
                        }
                        ++calls;
                        return acc != 0;
                    });
                }
            });
            o << ",\"calls\":" << calls << ",\"exc\":\"" << esc(exc) << "\"";
            energy_obs(sl);
            tail(s, false);
        } else if (e == "copy") {
            int s = t.num(), d = t.num();
            exc = guard([&]() {
                // decision data is copied, everything else is derived from it
                State st = g.empty_state();
                for (auto* dec : g.decisions()) {
                    auto k = dec->topological_index();
                    st.at(k) = slots[s].st.at(k)->copy();
                }
                g.initialize_state(st);
                slots[d].st = std::move(st);
                slots[d].live = true;
                slots[d].changed.clear();
            });
            o << "{\"e\":\"copy\",\"s\":" << s << ",\"t\":" << d << ",\"exc\":\"" << esc(exc) << "\"";
            tail(d, false);
        } else if (e == "drop") {
            int s = t.num();
            slots[s].st.clear();
            slots[s].live = false;
            o << "{\"e\":\"drop\",\"s\":" << s << ",\"exc\":\"\"";
            tail(s, false);
        } else if (e == "recinit" || e == "recreset") {
            // lazily initialise / reset one node of a slot
            int s = t.num();
            long d = t.num();
            Slot& sl = slots[s];
            exc = guard([&]() {
                if (e == "recinit") Graph::recursive_initialize(sl.st, nodes.at(d));
                else Graph::recursive_reset(sl.st, nodes.at(d));
            });
            o << "{\"e\":\"" << e << "\",\"s\":" << s << ",\"exc\":\"" << esc(exc) << "\",\"ini\":[";
            for (size_t i = 0; i < nodes.size(); ++i) {
                if (i) o << ",";
                o << (long)(nodes[i] && nodes[i]->topological_index() >= 0 && nodes[i]->topological_index() < (ssize_t)sl.st.size() && sl.st[nodes[i]->topological_index()] != nullptr);
            }
            o << "],\"sl\":[";
            bool first = true;
            for (auto& [k, x] : slots) { (void)k; (void)x; }
            o << "[" << s << ",[";
            for (size_t i = 0; i < nodes.size(); ++i) {
                if (!first) o << ",";
                first = false;
                bool ini = nodes[i] && nodes[i]->topological_index() >= 0 && sl.st[nodes[i]->topological_index()] != nullptr;
                if (ini) node_obs(i, sl.st); else o << "{}";
            }
            o << "]]]}";
        } else if (e == "empty") {
            int s = t.num();
            Slot& sl = slots[s];
            exc = guard([&]() { sl.st = g.empty_state(); sl.live = false; sl.changed.clear(); });
            o << "{\"e\":\"empty\",\"s\":" << s << ",\"exc\":\"" << esc(exc) << "\"}";
        } else if (e == "graph") {
            // structural observation
            o << "{\"e\":\"graph\",\"sorted\":" << (long)g.topologically_sorted() << ",\"nn\":" << (long)g.num_nodes()
              << ",\"nd\":" << (long)g.num_decisions() << ",\"nc\":" << (long)g.num_constraints() << ",\"obj\":"
              << (g.objective() ? index_of(g.objective()) : -1L) << ",\"order\":[";
            bool first = true;
            for (const auto& u : g.nodes()) { if (!first) o << ","; first = false; o << index_of(u.get()); }
            o << "],\"decs\":[";
            first = true;
            for (auto* d : g.decisions()) { if (!first) o << ","; first = false; o << index_of(d); }
            o << "],\"cons\":[";
            first = true;
            for (auto* d : g.constraints()) { if (!first) o << ","; first = false; o << index_of(d); }
            o << "],\"st\":[";
            for (size_t i = 0; i < nodes.size(); ++i) { if (i) o << ","; static_obs(i); }
            o << "]}";
        } else if (e == "sort") { exc = guard([&]() { g.topological_sort(); }); o << "{\"e\":\"sort\",\"exc\":\"" << esc(exc) << "\"}"; }
        else if (e == "unsort") { exc = guard([&]() { g.reset_topological_sort(); }); o << "{\"e\":\"unsort\",\"exc\":\"" << esc(exc) << "\"}"; }
        else if (e == "remove") {
            // remove ignore_listeners nlisteners node...
            bool ign = t.num();
            auto lst = t.list();
            std::vector<std::shared_ptr<bool>> keep, all;
            for (auto x : lst) if (nodes.at(x)) keep.push_back(nodes[x]->expired_ptr());
            // weak observation of expiry for every node
            std::vector<std::weak_ptr<bool>> wk;
            for (auto* n : nodes) wk.push_back(n ? std::weak_ptr<bool>(n->expired_ptr()) : std::weak_ptr<bool>());
            long r = -1;
            exc = guard([&]() { r = g.remove_unused_nodes(ign); });
            std::set<const Node*> alive;
            for (const auto& u : g.nodes()) alive.insert(u.get());
            o << "{\"e\":\"remove\",\"ret\":" << r << ",\"exc\":\"" << esc(exc) << "\",\"alive\":[";
            for (size_t i = 0; i < nodes.size(); ++i) {
                if (i) o << ",";
                o << (long)(nodes[i] && alive.count(nodes[i]));
            }
            o << "],\"expd\":[";
            for (size_t k = 0; k < keep.size(); ++k) { if (k) o << ","; o << (long)*keep[k]; }
            o << "]}";
            for (auto& n : nodes) if (n && !alive.count(n)) n = nullptr;
        } else if (e == "obj") {
            long i = t.num();
            exc = guard([&]() { if (i < 0 || nodes.at(i)) g.set_objective(i < 0 ? nullptr : arr(i)); });
            o << "{\"e\":\"obj\",\"exc\":\"" << esc(exc) << "\"}";
        } else if (e == "con") {
            long i = t.num();
            exc = guard([&]() { if (nodes.at(i)) g.add_constraint(arr(i)); });
            o << "{\"e\":\"con\",\"exc\":\"" << esc(exc) << "\"}";
        } else if (e == "node") {
            // late construction: node op npred preds params...
            add_node(t);
            o << "{\"e\":\"node\",\"ok\":" << (long)(nodes.back() != nullptr) << "}";
        } else if (e == "qm") {
            // read a quadratic model back
            long i = t.num();
            auto* q = dynamic_cast<QuadraticModelNode*>(nodes.at(i));
            if (!q) { o << "{\"e\":\"qm\"}"; return; }
            auto* m = q->get_quadratic_model();
            long n = m->num_variables();
            o << "{\"e\":\"qm\",\"nv\":" << n << ",\"ni\":" << (long)m->num_interactions() << ",\"lin\":[";
            for (long k = 0; k < n; ++k) { if (k) o << ","; o << scale(m->get_linear(k)); }
            o << "],\"lin2\":[";
            std::vector<double> l(n + 1), sq(n + 1);
            m->get_linear(l.data());
            m->get_squares(sq.data());
            for (long k = 0; k < n; ++k) { if (k) o << ","; o << scale(l[k]); }
            o << "],\"sq\":[";
            for (long k = 0; k < n; ++k) { if (k) o << ","; o << scale(sq[k]); }
            o << "],\"quad\":[";
            for (long u = 0; u < n; ++u) {
                if (u) o << ",";
                o << "[";
                for (long v = 0; v < n; ++v) { if (v) o << ","; o << scale(m->get_quadratic(u, v)); }
                o << "]";
            }
            o << "],\"coo\":[";
            long ni = m->num_interactions();
            std::vector<int> row(ni + 1), col(ni + 1);
            std::vector<double> q2(ni + 1);
            m->get_quadratic(row.data(), col.data(), q2.data());
            for (long k = 0; k < ni; ++k) { if (k) o << ","; o << "[" << (long)row[k] << "," << (long)col[k] << "," << scale(q2[k]) << "]"; }
            o << "]}";
        } else {
            fprintf(stderr, "unknown event %s\n", e.c_str());
            _exit(93);
        }
    }

    void tail(int s, bool only_dec) {
        o << ",\"sl\":[";
        bool first = true;
        for (auto& [k, x] : slots) {
            if (!has('A') && k != s) continue;
            if (!first) o << ",";
            first = false;
            o << "[" << (long)k << ",";
            // other slots may be between a move and its propagation; then only decisions are meaningful
            bool dec = only_dec && k == s;
            if (k != s && moved.count(k)) dec = true;
            slot_obs(x, dec);
            o << "]";
        }
        o << "]}";
    }
    std::set<int> moved;

    void add_node(Tok& t) {
        std::string op = t.str();
        long np = t.num();
        std::vector<long> p;
        bool dead = false;
        for (long k = 0; k < np; ++k) {
            p.push_back(t.num());
            if (p.back() < 0 || p.back() >= (long)nodes.size() || !nodes[p.back()]) dead = true;
        }
        Node* n = nullptr;
        std::string exc;
        if (!dead) exc = guard([&]() { n = make(op, p, t); });
        nodes.push_back(n);
        ops.push_back(op);
        preds.push_back(p);
        excs.push_back(dead ? "dead" : exc);
    }
    std::vector<std::string> excs;

    void run(const std::vector<Tok>& lines, long id) {
        o << "{\"id\":" << id << ",";
        bool header = false;
        bool firstev = true;
        for (const Tok& l : lines) {
            Tok t = l;
            std::string k = t.str();
            if (k == "S") {
                t.num();
                S = t.num();
                flags = t.str();
            } else if (k == "N") {
                add_node(t);
            } else {
                if (!header) {
                    header = true;
                    o << "\"nodes\":[";
                    for (size_t i = 0; i < nodes.size(); ++i) {
                        if (i) o << ",";
                        if (has('S')) static_obs(i);
                        else o << "{\"ok\":" << (long)(nodes[i] != nullptr) << "}";
                    }
                    o << "],\"excs\":[";
                    for (size_t i = 0; i < nodes.size(); ++i) { if (i) o << ","; o << "\"" << esc(excs[i]) << "\""; }
                    o << "],\"steps\":[";
                    flush();
                }
                if (k == "E") {
                    std::string e = t.str();
                    if (!firstev) o << ",\n";
                    firstev = false;
                    if (e == "mv" ) moved.insert(std::stoi(t.t.at(t.i)));
                    if (e == "prop" || e == "init" || e == "propose") moved.erase(std::stoi(t.t.at(t.i)));
                    event(e, t);
                    flush();
                }
            }
        }
        o << "]}\n";
        flush();
    }
};

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    if (!in || !out) return 2;
    std::vector<Tok> lines;
    std::string line;
    long id = -1;
    int crashes = 0, hangs = 0;
    auto finish = [&]() {
        if (lines.empty()) return;
        if (crashes > 40 || hangs > 2) { lines.clear(); return; }   // enough evidence
        int pfd[2];
        if (pipe(pfd)) exit(2);
        fflush(out);
        pid_t pid = fork();
        if (pid == 0) {
            close(pfd[0]);
            alarm(30);
            Runner* r = new Runner();
            r->fd = pfd[1];
            r->run(lines, id);
            delete r;   // destruction of the graph and the states is part of the run
            _exit(0);
        }
        close(pfd[1]);
        std::string s;
        char buf[65536];
        ssize_t k;
        while ((k = read(pfd[0], buf, sizeof buf)) > 0) s.append(buf, k);
        close(pfd[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        std::string flat;
        for (char c : s) if (c != '\n') flat += c;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 0) fprintf(out, "%s\n", flat.c_str());
        else if (WIFEXITED(status) && WEXITSTATUS(status) >= 90 && WEXITSTATUS(status) < 98) {
            fprintf(stderr, "harness error %d in scenario %ld\n", WEXITSTATUS(status), id);
            exit(3);
        } else {
            int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 1000 + WEXITSTATUS(status);
            ++crashes;
            if (sig == SIGALRM) ++hangs;
            fprintf(out, "!%ld %d %s\n", id, sig, flat.c_str());
        }
        lines.clear();
    };
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        std::istringstream is(line);
        Tok t;
        std::string w;
        while (is >> w) t.t.push_back(w);
        if (t.t[0] == "Z") { finish(); continue; }
        if (t.t[0] == "S") id = std::stol(t.t.at(1));
        lines.push_back(t);
    }
    finish();
    fclose(out);
    return 0;
}
