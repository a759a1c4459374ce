// C09: range-constrained keys delegated along chains of holders, cut into pieces, reassembled, stored,
// restarted; every holder can evaluate exactly its range.
#include "objects.hpp"
using obj::ok;
using obj::refused;
using obj::leaf_in;
namespace {
enum { CREATE, EVAL, RANGE, CONSTRAIN, OUTSIDE, BADRANGE, BADHEIGHT, PIECES, BADPIECES, WRAP, UNWRAP, RESTART, MOVE, MATERIAL, WHOLE, STOP, ELEMENTS, BADELEMENT, NOPS };
typedef unsigned long long ull;

struct Model
{
    std::string key;
    unsigned    height{0};
    uint64_t    min{0}, max{0};
    bool        master{true};
    size_t      n{0};
    std::string value(uint64_t leaf) const { return ref::rcprf(key, height, leaf, n); }
};
struct Holder
{
    Model m;
    virtual ~Holder() {}
    virtual std::string             eval(uint64_t)                                                              = 0;
    virtual void                    range(uint64_t, uint64_t, const std::function<void(uint64_t, std::string)>&) = 0;
    virtual std::unique_ptr<Holder> constrain(uint64_t, uint64_t)                                               = 0;
    virtual std::vector<uint8_t>    wrap(const Wrapper&)                                                        = 0;
    virtual std::unique_ptr<Holder> moved(bool assign)                                                          = 0;
    virtual std::unique_ptr<Holder> pieces(const std::vector<std::pair<uint64_t, uint64_t>>&, unsigned other = 0, size_t which = 0) = 0;
    virtual void                    bounds(uint64_t&, uint64_t&, bool&, unsigned&)                              = 0;
    virtual void                    elements(uint64_t, uint64_t, uint64_t)                                      = 0;
    virtual void                    bad_element(uint64_t)                                                       = 0;
};
bool outside(const Model& m, uint64_t s, uint64_t& leaf);
// the pieces a key is made of, used one by one
template<uint16_t N> struct Pieces
{
    using E = ConstrainedRCPrfElement<N>;
    using I = ConstrainedRCPrfInnerElement<N>;
    using L = ConstrainedRCPrfLeafElement<N>;
    using V = std::vector<std::unique_ptr<E>>;
    static void restrict(const E& e, uint64_t a, uint64_t b, V& v)
    {
        if (e.subtree_height() == 1) static_cast<const L&>(e).generate_constrained_subkeys(a, b, v);
        else static_cast<const I&>(e).generate_constrained_subkeys(a, b, v);
    }
    static Model model(const Model& m, const E& e)
    {
        Model q  = m;
        q.master = false;
        q.min    = e.min_leaf();
        q.max    = e.max_leaf();
        return q;
    }
    // together the pieces are exactly [a, b]
    static void tiles(const Model& m, const V& v, uint64_t a, uint64_t b)
    {
        std::vector<std::pair<uint64_t, uint64_t>> t;
        for (auto& e : v) {
            t.emplace_back(e->min_leaf(), e->max_leaf());
            SIM_CHECK(e->tree_height() == m.height && e->subtree_height() >= 1 && e->subtree_height() < m.height && e->max_leaf() - e->min_leaf() == obj::last_leaf(e->subtree_height()), "wrong-bounds", "a piece of a tree of height %u says it has the leaves [%llu, %llu], subtree height %u, tree height %u", m.height, (ull)e->min_leaf(), (ull)e->max_leaf(), unsigned(e->subtree_height()), unsigned(e->tree_height()));
        }
        std::sort(t.begin(), t.end());
        bool good = !t.empty() && t.front().first == a && t.back().second == b;
        for (size_t i = 1; good && i < t.size(); i++) good = t[i - 1].second != ~0ULL && t[i - 1].second + 1 == t[i].first;
        SIM_CHECK(good, "wrong-bounds", "%zu pieces of a tree of height %u do not make up [%llu, %llu]", t.size(), m.height, (ull)a, (ull)b);
    }
    static void use(const Model& m, E& e, uint64_t s, unsigned depth)
    {
        Model       q    = model(m, e);
        uint64_t    leaf = leaf_in(s, q.min, q.max), b = leaf_in(s >> 5, leaf, std::min(q.max, leaf + std::min<uint64_t>(20, q.max - leaf))), l = 0;
        std::string out;
        if (ok("eval of a piece", [&] { auto a = e.eval(leaf); Unlib u; out = str(a); }))
            SIM_CHECK(out == m.value(leaf), "wrong-value", "the piece [%llu, %llu] of a tree of height %u (%zu bytes) has the wrong value for leaf %llu", (ull)q.min, (ull)q.max, m.height, m.n, (ull)leaf);
        uint64_t next = leaf;
        if (ok("eval_range of a piece", [&] { e.eval_range(leaf, b, [&](uint64_t x, const std::array<uint8_t, N>& v) {
                Unlib u;
                SIM_CHECK(x == next && x <= b, "wrong-order", "enumerating [%llu, %llu] of a piece delivered leaf %llu where %llu was due", (ull)leaf, (ull)b, (ull)x, (ull)next);
                SIM_CHECK(str(v) == m.value(x), "wrong-value", "enumerating the piece [%llu, %llu] of a tree of height %u (%zu bytes): wrong value for leaf %llu", (ull)q.min, (ull)q.max, m.height, m.n, (ull)x);
                next++;
            }); }))
            SIM_CHECK(next == b + 1, "missing-leaves", "enumerating [%llu, %llu] of a piece stopped before leaf %llu", (ull)leaf, (ull)b, (ull)next);
        if (outside(q, s >> 9, l)) {
            event("outside-range");
            Result r = call([&] { e.eval(l); });
            SIM_CHECK(r.threw, "outside-accepted", "a piece [%llu, %llu] of a tree of height %u evaluated leaf %llu", (ull)q.min, (ull)q.max, m.height, (ull)l);
            uint64_t from = l < q.min ? l : leaf, to = l < q.min ? leaf : l, seen = 0;
            r = call([&] { e.eval_range(from, to, [&](uint64_t, const std::array<uint8_t, N>&) { seen++; if (seen > 1000) fail("bad-range-accepted", "enumeration of [%llu, %llu] with a piece [%llu, %llu]", (ull)from, (ull)to, (ull)q.min, (ull)q.max); }); });
            SIM_CHECK(r.threw && seen == 0, "bad-range-accepted", "enumeration of [%llu, %llu] with a piece [%llu, %llu] delivered %llu values%s", (ull)from, (ull)to, (ull)q.min, (ull)q.max, (ull)seen, r.threw ? " and then failed" : "");
            V v;
            r = call([&] { restrict(e, from, to, v); });
            SIM_CHECK(r.threw, "bad-range-accepted", "restriction of a piece [%llu, %llu] to [%llu, %llu]", (ull)q.min, (ull)q.max, (ull)from, (ull)to);
        }
        if (leaf < b) { // inverted
            event("bad-range");
            uint64_t seen = 0;
            Result r = call([&] { e.eval_range(b, leaf, [&](uint64_t, const std::array<uint8_t, N>&) { seen++; if (seen > 1000) fail("bad-range-accepted", "enumeration of [%llu, %llu]", (ull)b, (ull)leaf); }); });
            SIM_CHECK(r.threw && seen == 0, "bad-range-accepted", "enumeration of [%llu, %llu] with a piece [%llu, %llu] delivered %llu values%s", (ull)b, (ull)leaf, (ull)q.min, (ull)q.max, (ull)seen, r.threw ? " and then failed" : "");
            V v;
            r = call([&] { restrict(e, b, leaf, v); });
            SIM_CHECK(r.threw, "bad-range-accepted", "restriction of a piece [%llu, %llu] to [%llu, %llu]", (ull)q.min, (ull)q.max, (ull)b, (ull)leaf);
        }
        if (depth == 0) return;
        V        v;
        uint64_t x = leaf_in(s >> 2, q.min, q.max), y = leaf_in(s >> 7, x, q.max);
        if (s % 5 == 0) { x = q.min; y = q.max; }
        if (ok("restricting a piece", [&] { restrict(e, x, y, v); })) {
            tiles(m, v, x, y);
            use(m, *v[mix(s, 3) % v.size()], mix(s, 4), depth - 1);
        }
    }
    static void bad(const Model& m, uint64_t s)
    {
        uint64_t leaf  = leaf_in(s, m.min, m.max);
        unsigned st    = m.height < 3 ? 1 : 2 + unsigned(s >> 8) % (m.height - 2);
        uint64_t width = obj::last_leaf(st), lo = leaf & ~width, hi = lo | width;
        std::string node = st + 1 > m.height || st < 2 ? m.key : ref::rcprf_path(m.key, m.height, leaf)[m.height - st - 1];
        unsigned    h = m.height;
        const char* what = "";
        switch ((s >> 16) % 7) {
        case 0: { // not bad: a piece made from the key of its node
            if (st < 2) return;
            std::unique_ptr<I> e;
            if (ok("making a piece", [&] { if (s & 1) e.reset(new I(Prg(mk<32>(node)), uint8_t(h), uint8_t(st), lo, hi)); else e.reset(new I(mk<32>(node), uint8_t(h), uint8_t(st), lo, hi)); })) {
                use(m, *e, mix(s, 5), 1);
                I o(std::move(*e));
                use(m, o, mix(s, 6), 1);
                Result r = call([&] { e->eval(lo); });
                SIM_CHECK(r.threw, "outside-accepted", "a piece that was moved away still evaluates");
            }
            return;
        }
        case 1: {
            std::array<uint8_t, N> a;
            std::string v = m.value(leaf);
            memcpy(a.data(), v.data(), N);
            std::unique_ptr<L> e;
            if (ok("making a piece", [&] { e.reset(new L(a, uint8_t(h), leaf)); })) {
                use(m, *e, mix(s, 5), 1);
                L o(std::move(*e));
                use(m, o, mix(s, 6), 1);
            }
            return;
        }
        case 2: st = unsigned(s >> 32) % 2; lo = hi = leaf; what = "a subtree height below 2"; break;
        case 3: st = h + unsigned(s >> 32) % 3; lo = 0; hi = st > 64 ? ~0ULL : obj::last_leaf(st); what = "a subtree as high as the tree"; break;
        case 4: if (st < 2) return; std::swap(lo, hi); what = "an inverted range"; break;
        case 5: if (st < 2) return; hi -= 1 + (s >> 32) % width; what = "a range too small for the subtree"; break;
        case 6: if (st < 2) return; hi += 1 + (s >> 32) % 9; if (hi < lo) return; what = "a range too large for the subtree"; break;
        }
        event("bad-element");
        Result r = s & 1 ? call([&] { I e(Prg(mk<32>(node)), uint8_t(h), uint8_t(st), lo, hi); }) : call([&] { I e(mk<32>(node), uint8_t(h), uint8_t(st), lo, hi); });
        SIM_CHECK(r.threw, "bad-element-accepted", "a piece with %s was accepted (tree height %u, subtree height %u, leaves [%llu, %llu])", what, h, st, (ull)lo, (ull)hi);
    }
};
template<class P, uint16_t N> struct H : Holder
{
    P o;
    explicit H(P&& x) : o(std::move(x)) {}
    static constexpr bool master = std::is_same<P, RCPrf<N>>::value;
    using C                      = ConstrainedRCPrf<N>;
    std::unique_ptr<Holder> give(C&& c)
    {
        Unlib u;
        auto* h = new H<C, N>(std::move(c));
        h->m    = m;
        h->m.master = false;
        return std::unique_ptr<Holder>(h);
    }
    std::string eval(uint64_t l) override { auto a = o.eval(l); Unlib u; return str(a); }
    void        range(uint64_t a, uint64_t b, const std::function<void(uint64_t, std::string)>& f) override
    {
        o.eval_range(a, b, [&](uint64_t l, const std::array<uint8_t, N>& v) { Unlib u; f(l, str(v)); });
    }
    std::unique_ptr<Holder> constrain(uint64_t a, uint64_t b) override
    {
        auto h = give(o.constrain(a, b));
        h->m.min = a;
        h->m.max = b;
        return h;
    }
    std::vector<uint8_t>    wrap(const Wrapper& w) override { return w.wrap(o); }
    std::unique_ptr<Holder> moved(bool assign) override
    {
        auto* h = new H(std::move(o));
        h->m    = m;
        if constexpr (!master) {
            if (assign) { // over another live object
                RCPrf<N> r(mk<32>(std::string(32, 'q')), 5);
                H* g = new H(r.constrain(1, 2));
                g->m = m;
                g->o = std::move(h->o);
                delete h;
                return std::unique_ptr<Holder>(g);
            }
        }
        return std::unique_ptr<Holder>(h);
    }
    std::unique_ptr<Holder> pieces(const std::vector<std::pair<uint64_t, uint64_t>>& v, unsigned other, size_t which) override
    {
        std::vector<std::unique_ptr<ConstrainedRCPrfElement<N>>> e;
        for (size_t i = 0; i < v.size(); i++)
            if (other && i == which) RCPrf<N>(mk<32>(m.key), uint8_t(other)).generate_constrained_subkeys(v[i].first, v[i].second, e); // a piece of a tree of another height
            else o.generate_constrained_subkeys(v[i].first, v[i].second, e);
        { Unlib u; for (size_t i = e.size(); i > 1; i--) std::swap(e[i - 1], e[mix(v[0].first, i) % i]); } // arrive in any order
        return give(C(std::move(e)));
    }
    void elements(uint64_t a, uint64_t b, uint64_t s) override
    {
        typename Pieces<N>::V v;
        if (!ok("cutting into pieces", [&] { o.generate_constrained_subkeys(a, b, v); })) return;
        Pieces<N>::tiles(m, v, a, b);
        for (unsigned i = 0; i < 3; i++) Pieces<N>::use(m, *v[mix(s, i) % v.size()], mix(s, 9 + i), 2);
    }
    void bad_element(uint64_t s) override { Pieces<N>::bad(m, s); }
    void bounds(uint64_t& a, uint64_t& b, bool& empty, unsigned& h) override
    {
        h = o.tree_height();
        if constexpr (!master) { a = o.min_leaf(); b = o.max_leaf(); empty = o.is_empty(); }
        else { a = m.min; b = m.max; empty = false; }
    }
};
std::unique_ptr<Holder> master(size_t idx, const std::string& key, unsigned height)
{
    std::unique_ptr<Holder> r;
    obj::RcSizes::with(idx, [&](auto S) {
        using P = RCPrf<decltype(S)::value>;
        std::array<uint8_t, 32> k;
        memcpy(k.data(), key.data(), 32);
        P     p(Key<32>(k.data()), uint8_t(height));
        Unlib u;
        r.reset(new H<P, decltype(S)::value>(std::move(p)));
        r->m.n = decltype(S)::value;
    });
    r->m.key    = key;
    r->m.height = height;
    r->m.max    = obj::last_leaf(height);
    return r;
}
void check_bounds(Holder& h)
{
    uint64_t a, b;
    bool     e;
    unsigned t;
    h.bounds(a, b, e, t);
    SIM_CHECK(a == h.m.min && b == h.m.max && !e && t == h.m.height, "wrong-bounds", "a key for [%llu, %llu] of a tree of height %u says [%llu, %llu], height %u", (ull)h.m.min, (ull)h.m.max, h.m.height, (ull)a, (ull)b, t);
}
void check_leaf(Holder& h, uint64_t leaf)
{
    std::string out;
    if (ok("eval", [&] { std::string x = h.eval(leaf); Unlib u; out = x; }))
        SIM_CHECK(out == h.m.value(leaf), "wrong-value", "%s for [%llu, %llu] (height %u, %zu bytes) evaluates leaf %llu to %s instead of %s", h.m.master ? "the master key" : "a constrained key",
                  (ull)h.m.min, (ull)h.m.max, h.m.height, h.m.n, (ull)leaf, hex(out).substr(0, 80).c_str(), hex(h.m.value(leaf)).substr(0, 80).c_str());
}
void check_range(Holder& h, uint64_t a, uint64_t b)
{
    std::vector<std::pair<uint64_t, std::string>> got;
    bool good = ok("eval_range", [&] { h.range(a, b, [&](uint64_t l, std::string v) {
        got.emplace_back(l, std::move(v));
        SIM_CHECK(got.size() - 1 <= b - a, "wrong-order", "enumerating [%llu, %llu] of a key for [%llu, %llu] (height %u) delivers more leaves than the range has, the last being %llu", (ull)a, (ull)b, (ull)h.m.min, (ull)h.m.max, h.m.height, (ull)l);
    }); });
    for (size_t i = 0; i < got.size(); i++) {
        SIM_CHECK(got[i].first == a + i && got[i].first <= b, "wrong-order", "enumerating [%llu, %llu] of a key for [%llu, %llu] (height %u) delivered leaf %llu as number %zu", (ull)a, (ull)b, (ull)h.m.min, (ull)h.m.max, h.m.height, (ull)got[i].first, i);
        SIM_CHECK(got[i].second == h.m.value(a + i), "wrong-value", "enumerating [%llu, %llu] of a key for [%llu, %llu] (height %u, %zu bytes): wrong value for leaf %llu", (ull)a, (ull)b, (ull)h.m.min, (ull)h.m.max, h.m.height, h.m.n, (ull)(a + i));
    }
    if (good) SIM_CHECK(got.size() - 1 == b - a, "missing-leaves", "enumerating [%llu, %llu] delivered %zu leaves", (ull)a, (ull)b, got.size());
}
// a leaf outside of the range (any leaf number, also beyond the tree); false if there is none
bool outside(const Model& m, uint64_t s, uint64_t& leaf)
{
    uint64_t last = obj::last_leaf(m.height), x = mix(s, 9);
    switch (s % 8) {
    case 0: if (m.min > 0) { leaf = m.min - 1; return true; } break;
    case 1: leaf = m.max + 1; return leaf != 0;
    case 2: if (m.min > 0) { leaf = x % m.min; return true; } break;
    case 3: leaf = m.max + 1 + x % (~0ULL - m.max); return m.max != ~0ULL;
    case 4: leaf = last + 1 + (s >> 8) % 4; return leaf > m.max;
    case 5: leaf = ~0ULL - (s >> 8) % 4; return leaf > m.max;
    case 6: leaf = leaf_in(s >> 8, m.min, m.max) + ((last + 1) << ((s >> 40) % 8)); return leaf > m.max; // aliases a leaf of the range
    case 7: leaf = leaf_in(s >> 8, m.min, m.max) ^ (1ULL << ((s >> 40) % 64)); return leaf < m.min || leaf > m.max;
    }
    leaf = m.max + 1;
    return leaf != 0;
}
struct World
{
    std::string                          wkey;
    std::unique_ptr<Wrapper>             w;
    std::vector<std::unique_ptr<Holder>> h;
    struct D { Model m; std::vector<uint8_t> b; };
    std::vector<D>                       disk;
};
void add(World& w, std::unique_ptr<Holder> x)
{
    if (!x) return;
    check_bounds(*x);
    w.h.push_back(std::move(x));
    if (w.h.size() > 6) w.h.erase(w.h.begin());
}
void material(World& w, Holder& h, uint64_t s)
{
    std::vector<uint8_t> b;
    if (h.m.master || !ok("wrap", [&] { b = h.wrap(*w.w); })) return;
    std::string ser  = ref::unwrap_raw(w.wkey, std::string(b.begin(), b.end()));
    uint64_t    last = obj::last_leaf(h.m.height);
    auto        forbidden = [&](const std::string& x, const char* what, uint64_t leaf) {
        if (x.size() < 12) return;
        size_t n = std::min<size_t>(x.size(), 16);
        for (size_t o = 0; o + n <= x.size(); o += n)
            SIM_CHECK(ser.find(x.substr(o, n)) == std::string::npos, "material-outside-range", "the key for [%llu, %llu] of a tree of height %u carries %s of leaf %llu", (ull)h.m.min, (ull)h.m.max, h.m.height, what, (ull)leaf);
    };
    forbidden(h.m.key, "the root", 0);
    std::vector<uint64_t> out;
    if (h.m.min > 0) { out.push_back(h.m.min - 1); out.push_back(0); out.push_back(mix(s, 1) % h.m.min); }
    if (h.m.max < last) { out.push_back(h.m.max + 1); out.push_back(last); out.push_back(h.m.max + 1 + mix(s, 2) % (last - h.m.max)); }
    for (uint64_t l : out) {
        for (auto& k : ref::rcprf_path(h.m.key, h.m.height, l)) forbidden(k, "a node above", l);
        // key sizes of the last level: the parent of the leaf is the last node of the path
        forbidden(h.m.value(l), "the value", l);
    }
    probe("material-searched");
}
void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    World w;
    w.wkey = rnd(plan.data_seed, 32);
    w.w.reset(new Wrapper(mk<32>(w.wkey)));
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        begin_op(i);
        Holder*  h  = w.h.empty() ? nullptr : w.h[op.a[0] % w.h.size()].get();
        uint64_t s  = op.a[2], s2 = op.a[3];
        switch (op.code) {
        case CREATE: {
            std::unique_ptr<Holder> x;
            if (ok("RCPrf(key, height)", [&] { x = master(op.a[0], rnd(s, 32), unsigned(op.a[1])); })) add(w, std::move(x));
            break;
        }
        case EVAL: if (h) { check_leaf(*h, leaf_in(s, h->m.min, h->m.max)); check_leaf(*h, leaf_in(s2, h->m.min, h->m.max)); } break;
        case RANGE: {
            if (!h) break;
            uint64_t a = leaf_in(s, h->m.min, h->m.max), n = s2 % 40, b = h->m.max - a > n ? a + n : h->m.max;
            check_range(*h, a, b);
            break;
        }
        case WHOLE: // the whole range, if it is small
            if (h && h->m.max - h->m.min < 300) { check_range(*h, h->m.min, h->m.max); probe("whole-range"); }
            break;
        case CONSTRAIN: {
            if (!h) break;
            uint64_t a = leaf_in(s, h->m.min, h->m.max), b = leaf_in(s2, a, h->m.max);
            if (op.a[4] % 4 == 0) a = h->m.min;
            if (op.a[4] % 4 == 1) b = h->m.max;
            if (op.a[4] % 8 == 2) b = h->m.max - a > 70 ? a + s2 % 70 : h->m.max;
            bool full = a == h->m.min && b == h->m.max;
            std::unique_ptr<Holder> x;
            if (h->m.master && full) { refused("restricting the master to all of its leaves", [&] { h->constrain(a, b); }); break; }
            if (ok("constrain", [&] { x = h->constrain(a, b); })) add(w, std::move(x));
            break;
        }
        case OUTSIDE: {
            if (!h) break;
            uint64_t l = 0;
            if (!outside(h->m, s, l)) break;
            event("outside-range");
            Result r = call([&] { h->eval(l); });
            SIM_CHECK(r.threw, "outside-accepted", "%s for [%llu, %llu] of a tree of height %u evaluated leaf %llu", h->m.master ? "a master key" : "a key", (ull)h->m.min, (ull)h->m.max, h->m.height, (ull)l);
            break;
        }
        case BADRANGE: { // inverted, or reaching outside
            if (!h) break;
            uint64_t a, b, x = leaf_in(s2, h->m.min, h->m.max), l = 0;
            if (s & 256 || !outside(h->m, s, l)) { a = leaf_in(s, h->m.min, h->m.max); b = x; if (a <= b) { if (h->m.min == h->m.max) break; a = h->m.max; b = h->m.min; } }
            else if (l < h->m.min) { a = l; b = s & 512 ? x : leaf_in(s2 >> 3, l, h->m.max); }
            else { b = l; a = s & 512 ? x : l - std::min<uint64_t>(l, (s2 >> 3) % 5); }
            event("bad-range");
            uint64_t seen = 0;
            Result r = op.a[4] & 1 ? call([&] { h->range(a, b, [&](uint64_t, const std::string&) { seen++; if (seen > 1000) fail("bad-range-accepted", "enumeration of [%llu, %llu] with a key for [%llu, %llu]", (ull)a, (ull)b, (ull)h->m.min, (ull)h->m.max); }); }) : call([&] { h->constrain(a, b); });
            SIM_CHECK(r.threw, "bad-range-accepted", "%s of [%llu, %llu] with a key for [%llu, %llu] (height %u) was accepted", op.a[4] & 1 ? "enumeration" : "restriction", (ull)a, (ull)b, (ull)h->m.min, (ull)h->m.max, h->m.height);
            SIM_CHECK(seen == 0, "bad-range-accepted", "a refused enumeration delivered %llu values", (ull)seen);
            break;
        }
        case BADHEIGHT: {
            static const unsigned bad[] = {0, 1, 65, 66, 127, 128, 129, 130, 192, 254, 255};
            event("bad-height");
            unsigned ht = s & 1 ? bad[(s >> 8) % (sizeof bad / sizeof *bad)] : 65 + unsigned(s >> 8) % 191;
            Result r = call([&] { master(op.a[0], rnd(s, 32), ht); });
            SIM_CHECK(r.threw, "bad-height-accepted", "a tree of height %u was accepted", ht);
            break;
        }
        case PIECES: case BADPIECES: { // a range cut into pieces, put together again
            if (!h || (h->m.max - h->m.min < 2 && op.code == BADPIECES)) break;
            uint64_t a = leaf_in(s, h->m.min, h->m.max), b = leaf_in(s2, a, h->m.max);
            if (op.a[4] & 1) b = h->m.max - a > 60 ? a + s2 % 60 : h->m.max;
            std::vector<std::pair<uint64_t, uint64_t>> v;
            uint64_t x = a;
            unsigned n = 1 + unsigned(op.a[4] >> 8) % 4;
            for (unsigned k = 0; k < n && x <= b; k++) {
                uint64_t y = k + 1 == n ? b : leaf_in(mix(s, k), x, b);
                v.emplace_back(x, y);
                if (y == b) break;
                x = y + 1;
            }
            for (auto& q : v) if (h->m.master && q.first == h->m.min && q.second == h->m.max) { v.clear(); break; }
            if (v.empty()) break;
            std::unique_ptr<Holder> y;
            if (op.code == PIECES) {
                if (ok("reassembling pieces", [&] { y = h->pieces(v); y->m.min = a; y->m.max = b; })) { probe("reassembled"); add(w, std::move(y)); }
            } else if (v.size() >= 2 && (s & 2)) { // pieces of trees of different heights
                size_t   which = op.a[5] % v.size();
                unsigned other = h->m.height < 64 && ((s & 4) || h->m.height == 2) ? h->m.height + 1 + unsigned(s >> 8) % (64 - h->m.height) : h->m.height - 1;
                if (other < 2 || v[which].second >= obj::last_leaf(other)) break;
                event("mixed-heights");
                Result r = call([&] { h->pieces(v, other, which); });
                SIM_CHECK(r.threw, "bad-pieces-accepted", "pieces of trees of heights %u and %u were accepted as one key", h->m.height, other);
            } else { // one piece missing in the middle, or present twice
                if (v.size() >= 3 && (s & 1)) v.erase(v.begin() + 1);
                else v.push_back(v[op.a[5] % v.size()]);
                event("bad-pieces");
                Result r = call([&] { h->pieces(v); });
                SIM_CHECK(r.threw, "bad-pieces-accepted", "pieces which do not form a range were accepted");
            }
            break;
        }
        case WRAP: {
            if (!h) break;
            World::D d;
            if (!ok("wrap", [&] { d.b = h->wrap(*w.w); })) break;
            d.m = h->m;
            w.disk.push_back(std::move(d));
            if (w.disk.size() > 8) w.disk.erase(w.disk.begin());
            break;
        }
        case UNWRAP: {
            if (w.disk.empty()) break;
            auto&                   d = w.disk[op.a[0] % w.disk.size()];
            std::vector<uint8_t>    b = d.b;
            std::unique_ptr<Holder> x;
            bool good = ok("unwrap", [&] {
                size_t idx = 0;
                while (obj::RcSizes::at(idx) != d.m.n) idx++;
                obj::RcSizes::with(idx, [&](auto S) {
                    constexpr uint16_t N = decltype(S)::value;
                    if (d.m.master) { RCPrf<N> p = w.w->template unwrap<RCPrf<N>>(b); Unlib u; x.reset(new H<RCPrf<N>, N>(std::move(p))); }
                    else { ConstrainedRCPrf<N> p = w.w->template unwrap<ConstrainedRCPrf<N>>(b); Unlib u; x.reset(new H<ConstrainedRCPrf<N>, N>(std::move(p))); }
                });
            });
            if (good) { x->m = d.m; add(w, std::move(x)); }
            break;
        }
        case RESTART: event("crash-restart"); w.h.clear(); w.w.reset(new Wrapper(mk<32>(w.wkey))); break;
        case MOVE: if (h) { w.h[op.a[0] % w.h.size()] = h->moved(s & 1); event("move"); check_bounds(*w.h[op.a[0] % w.h.size()]); } break;
        case MATERIAL: if (h) material(w, *h, s); break;
        case ELEMENTS: {
            if (!h) break;
            uint64_t a = leaf_in(s, h->m.min, h->m.max), b = leaf_in(s2, a, h->m.max);
            if (h->m.master && a == h->m.min && b == h->m.max) break;
            probe("pieces-used");
            h->elements(a, b, op.a[4]);
            break;
        }
        case BADELEMENT: if (h) h->bad_element(s); break;
        case STOP: { // the consumer of an enumeration gives up
            if (!h) break;
            uint64_t a = leaf_in(s, h->m.min, h->m.max), n = s2 % 9, b = h->m.max - a > n ? a + n : h->m.max, stop = a + mix(s, 4) % (b - a + 1), next = a;
            Result r = call([&] { h->range(a, b, [&](uint64_t l, const std::string&) { SIM_CHECK(l >= a && l <= b, "wrong-order", "enumerating [%llu, %llu] delivered leaf %llu", (ull)a, (ull)b, (ull)l); if (l == stop) throw std::domain_error("caller stops"); next = l + 1; }); });
            SIM_CHECK(r.threw && next <= stop, "wrong-value", "the exception of the caller's callback was swallowed");
            event("callback-throws");
            break;
        }
        }
        end_op();
        uint64_t hh = op.code;
        for (auto& q : w.h) hh = mix(hh, mix(q->m.height, mix(q->m.min, q->m.max)));
        state_seen(hh);
    }
    begin_op(plan.ops.size());
    std::set<std::string> vals;
    for (auto& q : w.h) {
        check_leaf(*q, q->m.min);
        check_leaf(*q, q->m.max);
        material(w, *q, plan.data_seed);
    }
    end_op();
}
void gen(Rng& r, const GenCtx&, Plan& p)
{
    p.cfg        = uint32_t(r.below(64));
    unsigned n   = 4 + unsigned(r.below(24));
    unsigned mode = unsigned(r.below(4));
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {CREATE, EVAL, EVAL, RANGE, RANGE, CONSTRAIN, CONSTRAIN, CONSTRAIN, CONSTRAIN, OUTSIDE, OUTSIDE, BADRANGE, BADRANGE, BADHEIGHT, PIECES, PIECES, BADPIECES, WRAP, UNWRAP, RESTART, MOVE, MATERIAL, WHOLE, WHOLE, STOP, ELEMENTS, ELEMENTS, BADELEMENT};
        o.code = i == 0 ? uint32_t(CREATE) : i == 1 ? uint32_t(CONSTRAIN) : tab[r.below(sizeof tab)];
        for (auto& a : o.a) a = r.u64();
        o.a[0] = r.below(8);
        if (o.code == CREATE || o.code == BADHEIGHT) {
            o.a[0] = r.below(obj::RcSizes::count);
            o.a[1] = mode == 0 ? 2 + r.below(9) : mode == 1 ? 64 - r.below(4) : 2 + r.below(63);
        }
        p.ops.push_back(o);
    }
}
Scenario S{"C09", {"create", "eval", "eval-range", "constrain", "eval-outside", "bad-range", "bad-height", "pieces", "bad-pieces", "wrap", "unwrap", "crash-restart", "move", "material", "whole-range", "callback-throws", "pieces-used", "piece-made"}, obj::setup, gen, run, 250};
} // namespace
Scenario* sim::g_scenario = &S;
