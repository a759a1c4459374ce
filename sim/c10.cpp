// C10: replicas of a multiset hash exchange updates over an unreliable network and save their state to
// disk; two hashes are equal exactly when the multisets are.
#include "common.hpp"
#include <sse/crypto/set_hash.hpp>
#include <sodium.h>
#include <sstream>
namespace {
enum { ADD, REMOVE, ADDSET, REMOVESET, BATCH, SAVE, CRASH, SEND, DELIVER, COPY, BADLOAD, UNDO, PRINT, NOPS };
const unsigned kRep = 3;
typedef __int128 Mult;
typedef std::map<unsigned, Mult> Multi; // element -> multiplicity (never 0)
typedef std::array<uint8_t, 32> Bytes;
const Mult kCap = Mult(1) << 100;

// ---- reference: sum of multiplicity * point(element) on the curve
const Bytes kZero = {{1}};
Bytes point(const std::string& e)
{
    Bytes         p;
    unsigned char h[32];
    memcpy(h, ref::blake2b(e).data(), 32);
    crypto_core_ed25519_from_uniform(p.data(), h);
    return p;
}
struct Refs
{
    std::vector<std::string>                 elems;
    std::vector<Bytes>                       pts;
    std::map<std::pair<unsigned, Mult>, Bytes> cache;
    Bytes mul(unsigned e, Mult m) // m > 0
    {
        auto it = cache.find({e, m});
        if (it != cache.end()) return it->second;
        Bytes         r;
        unsigned char sc[32] = {0};
        for (int i = 0; i < 16; i++) sc[i] = uint8_t(uint64_t((m >> (8 * i)) & 255));
        if (m == 1) r = pts[e];
        else if (crypto_scalarmult_ed25519_noclamp(r.data(), sc, pts[e].data()) != 0) fail("harness", "scalar multiplication");
        return cache[{e, m}] = r;
    }
    Bytes of(const Multi& m)
    {
        Bytes r = kZero;
        for (auto& x : m) {
            Bytes p = mul(x.first, x.second < 0 ? -x.second : x.second);
            if (x.second < 0) crypto_core_ed25519_sub(r.data(), r.data(), p.data());
            else crypto_core_ed25519_add(r.data(), r.data(), p.data());
        }
        return r;
    }
};
bool add_to(Multi& m, const Multi& x, int sign)
{
    Multi r = m;
    for (auto& e : x) {
        Mult v = r[e.first] + sign * e.second;
        if (v > kCap || v < -kCap) return false;
        if (v == 0) r.erase(e.first);
        else r[e.first] = v;
    }
    m = r;
    return true;
}
struct Rep
{
    SetHash h;
    Multi   m;
};
struct Msg
{
    bool     whole; // a whole set hash, or one element
    bool     add;
    unsigned e;
    Bytes    bytes;
    Multi    m;
};
bool valid(const Bytes& b) { return b == kZero || crypto_core_ed25519_is_valid_point(b.data()) == 1; }

void run(const Plan& plan)
{
    Refs R;
    for (unsigned i = 0; i < 10; i++) {
        static const size_t lens[] = {0, 1, 2, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 1000};
        static const size_t longs[] = {4095, 4096, 4097, 8192, 9000, 32768, 65535, 65536, 65537, 70000, 131073};
        std::string s = bytes_of(mix(plan.data_seed, i), lens[mix(plan.data_seed, 100 + i) % (sizeof lens / sizeof *lens)]);
        if (i == 9 && plan.data_seed % 32 == 7) s = bytes_of(mix(plan.data_seed, i), longs[mix(plan.data_seed, 100) % (sizeof longs / sizeof *longs)]);
        if (i == 8 && plan.data_seed % 32 == 7) { s = bytes_of(mix(plan.data_seed, 9), longs[mix(plan.data_seed, 100) % (sizeof longs / sizeof *longs)]); s.back() = char(s.back() + 1); }
        if (i == 1) s = R.elems[0] + '\0';
        if (i == 2) s = R.elems[0] + R.elems[1];
        if (i == 3) s = std::string(1 + plan.data_seed % 3, '\0');
        if (i == 4) s = std::string();
        if (i == 5 && !R.elems[0].empty()) { s = R.elems[0]; s.back() = char(s.back() ^ 0x80); }
        for (auto& q : R.elems) if (q == s) s += char('a' + i);
        R.elems.push_back(s);
        R.pts.push_back(point(s));
    }
    std::vector<Rep> r(kRep);
    struct Saved { Bytes b; Multi m; };
    std::vector<Saved> disk(kRep, Saved{kZero, Multi()});
    std::vector<Saved> files;
    std::vector<Msg>   net;
    auto check = [&](const char* what) {
        for (unsigned i = 0; i < kRep; i++) {
            SIM_CHECK(Bytes(r[i].h.data()) == R.of(r[i].m), "wrong-hash", "%s: replica %u has hash %s, the hash of its multiset is %s", what, i, hex(r[i].h.data().data(), 32).c_str(), hex(R.of(r[i].m).data(), 32).c_str());
            for (unsigned j = 0; j < kRep; j++) {
                bool eq = r[i].h == r[j].h, ne = r[i].h != r[j].h, same = r[i].m == r[j].m;
                SIM_CHECK(eq == same && ne == !same, "equality", "%s: replicas %u and %u hold %s multisets, operator== says %d and operator!= %d", what, i, j, same ? "equal" : "different", eq, ne);
                if (same && i != j) probe("equal-replicas");
            }
        }
    };
    auto must = [&](const char* what, const Result& q) { SIM_CHECK(!q.threw || fault_fired(), "refused", "%s failed: %s", what, q.what.c_str()); return !q.threw; };
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        begin_op(i);
        unsigned           a = unsigned(op.a[0] % kRep), b = unsigned(op.a[1] % kRep), e = unsigned(op.a[2] % R.elems.size());
        const std::string& el = R.elems[e];
        Rep&               x  = r[a];
        Rep&               y  = r[b];
        const char*        what = "?";
        switch (op.code) {
        case ADD: { Multi m = x.m; what = "add_element"; if (!add_to(m, {{e, 1}}, 1)) break; if (must(what, call([&] { x.h.add_element(el); }))) x.m = m; break; }
        case REMOVE: { Multi m = x.m; what = "remove_element"; if (!add_to(m, {{e, 1}}, -1)) break; if (must(what, call([&] { x.h.remove_element(el); }))) x.m = m; break; }
        case ADDSET: { Multi m = x.m; what = a == b ? "add_set of itself" : "add_set"; if (!add_to(m, Multi(y.m), 1)) break; if (must(what, call([&] { x.h.add_set(y.h); }))) x.m = m; break; }
        case REMOVESET: { Multi m = x.m; what = a == b ? "remove_set of itself" : "remove_set"; if (!add_to(m, Multi(y.m), -1)) break; if (must(what, call([&] { x.h.remove_set(y.h); }))) x.m = m; break; }
        case BATCH: { // a set hashed as a whole, then merged
            what = "SetHash(vector)";
            std::vector<std::string> v;
            Multi                    m;
            unsigned                 n = unsigned(op.a[3] % 12);
            for (unsigned k = 0; k < n; k++) { unsigned q = unsigned(mix(op.a[4], k) % R.elems.size()); v.push_back(R.elems[q]); m[q] += 1; }
            std::unique_ptr<SetHash> s;
            if (!must(what, call([&] { s.reset(new SetHash(v)); }))) break;
            SIM_CHECK(Bytes(s->data()) == R.of(m), "wrong-hash", "SetHash of %u elements is not the hash of their multiset", n);
            if (op.a[5] % 3 == 0) { x.h = *s; x.m = m; break; }
            Multi t = x.m;
            int   sign = op.a[5] % 3 == 1 ? 1 : -1;
            if (!add_to(t, m, sign)) break;
            if (must(what, call([&] { if (sign > 0) x.h.add_set(*s); else x.h.remove_set(*s); }))) x.m = t;
            break;
        }
        case UNDO: { // adding and taking back restores the hash
            what = "undo";
            Bytes before = x.h.data();
            bool good = must(what, call([&] { if (op.a[3] & 1) x.h.add_element(el); else x.h.remove_element(el); }));
            if (!good) break;
            good = must(what, call([&] { if (op.a[3] & 1) x.h.remove_element(el); else x.h.add_element(el); }));
            if (good) SIM_CHECK(Bytes(x.h.data()) == before, "undo", "adding and removing an element did not restore the hash");
            break;
        }
        case SAVE: what = "save"; disk[a] = Saved{Bytes(x.h.data()), x.m}; files.push_back(disk[a]); if (files.size() > 6) files.erase(files.begin()); event("save"); break;
        case CRASH: { // all replicas restart from what they saved
            what = "restart";
            event("crash-restart");
            for (unsigned k = 0; k < kRep; k++) {
                std::unique_ptr<SetHash> s;
                Result q = call([&] { s.reset(new SetHash(disk[k].b)); });
                if (q.threw) { SIM_CHECK(fault_fired(), "reload-refused", "a saved hash cannot be reloaded: %s", q.what.c_str()); s.reset(new SetHash(disk[k].b)); }
                r[k].h = *s;
                r[k].m = disk[k].m;
            }
            break;
        }
        case SEND: // an update goes out to the others
            what = "send";
            if (op.a[3] & 1) net.push_back(Msg{true, (op.a[3] & 2) != 0, 0, Bytes(x.h.data()), x.m});
            else net.push_back(Msg{false, (op.a[3] & 2) != 0, e, kZero, Multi{{e, 1}}});
            if (net.size() > 10) { net.erase(net.begin()); event("drop"); }
            break;
        case DELIVER: { // any message, in any order, possibly again later
            what = "deliver";
            if (net.empty()) break;
            size_t k = size_t(op.a[3] % net.size());
            Msg    m = net[k];
            Multi  t = x.m;
            if (!add_to(t, m.m, m.add ? 1 : -1)) break;
            bool good = must(what, call([&] {
                if (m.whole) { SetHash s(m.bytes); if (m.add) x.h.add_set(s); else x.h.remove_set(s); }
                else if (m.add) x.h.add_element(R.elems[m.e]);
                else x.h.remove_element(R.elems[m.e]);
            }));
            if (good) x.m = t;
            if (k) event("reorder");
            if (op.a[4] % 3 == 0) event("duplicate");
            else net.erase(net.begin() + long(k));
            break;
        }
        case COPY: {
            what = "copy";
            switch (op.a[3] % 4) {
            case 0: x.h = y.h; x.m = Multi(y.m); break;
            case 1: { SetHash t(y.h); x.h = t; x.m = Multi(y.m); break; }
            case 2: { SetHash t(y.h); SetHash u(std::move(t)); x.h = u; x.m = Multi(y.m); break; }
            case 3: { SetHash t; SIM_CHECK(Bytes(t.data()) == kZero, "wrong-hash", "the hash of the empty set"); std::swap(x.h, y.h); std::swap(x.m, y.m); break; }
            }
            event("copy");
            break;
        }
        case BADLOAD: { // what comes back from the disk is damaged
            what = "load of damaged bytes";
            Bytes f = files.empty() ? Bytes(x.h.data()) : files[op.a[3] % files.size()].b;
            static const char* small[] = { // points of small order, other encodings of the neutral element
                "0000000000000000000000000000000000000000000000000000000000000000", "0000000000000000000000000000000000000000000000000000000000000080",
                "0100000000000000000000000000000000000000000000000000000000000080", "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                "ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff", "edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
                "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f", "eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff",
                "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05", "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
                "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac03fa", "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc85"};
            auto unhex = [](const char* s) { Bytes q; for (int k = 0; k < 32; k++) { unsigned v; sscanf(s + 2 * k, "%2x", &v); q[size_t(k)] = uint8_t(v); } return q; };
            switch (op.a[4] % 7) {
            case 0: f[op.a[5] % 32] = uint8_t(f[op.a[5] % 32] ^ (1 << (op.a[5] >> 8) % 8)); event("flip-bit"); break;
            case 1: { std::string g = rnd(op.a[5], 32); memcpy(f.data(), g.data(), 32); event("garbage"); break; }
            case 2: f = unhex(small[op.a[5] % 12]); event("small-order"); break;
            case 3: { Bytes t = unhex(small[8 + op.a[5] % 4]), u; if (crypto_core_ed25519_add(u.data(), f.data(), t.data()) == 0) f = u; event("outside-subgroup"); break; } // outside of the prime-order group
            case 4: { Bytes g = files.empty() ? f : files[op.a[5] % files.size()].b; size_t k = (op.a[5] >> 8) % 33; for (size_t j = k; j < 32; j++) f[j] = g[j]; event("torn-write"); break; }
            case 5: { for (size_t j = op.a[5] % 33; j < 32; j++) f[j] = 0; event("truncated"); break; }
            case 6: { f = unhex(small[5 + op.a[5] % 3]); f[0] = uint8_t(0xed + (op.a[5] >> 8) % 19); event("non-canonical"); break; }
            }
            std::unique_ptr<SetHash> s;
            Result q = call([&] { s.reset(new SetHash(f)); });
            if (valid(f)) { if (must("load of valid bytes", q)) SIM_CHECK(Bytes(s->data()) == f, "wrong-hash", "a loaded hash has other bytes"); }
            else SIM_CHECK(q.threw, "invalid-accepted", "bytes %s, which are no hash state, were accepted", hex(f.data(), 32).c_str());
            break;
        }
        case PRINT: {
            what = "print";
            std::string s;
            if (must(what, call([&] { std::ostringstream o; o << x.h; s = o.str(); }))) SIM_CHECK(s == hex(x.h.data().data(), 32) || fault_fired(), "wrong-hash", "printed as %s", s.c_str());
            break;
        }
        }
        end_op();
        check(what);
        uint64_t hh = op.code;
        for (auto& q : r) { hh = mix(hh, q.m.size()); for (auto& z : q.m) hh = mix(hh, mix(z.first, uint64_t(z.second))); }
        state_seen(hh);
    }
    // once the network has quietened, replicas which apply the same updates converge
    begin_op(plan.ops.size());
    for (unsigned k = 0; k < kRep; k++) {
        SetHash back(r[k].h.data());
        SIM_CHECK(back == r[k].h, "reload", "a reloaded hash differs");
        Multi all = r[k].m;
        // empty it element by element
        unsigned n = 0;
        for (auto& z : Multi(all)) { Mult c = z.second < 0 ? -z.second : z.second; if (c > 20) { n = 1000; break; } n += unsigned(c); }
        if (n < 100) {
            Rng q(mix(plan.data_seed, k));
            std::vector<std::pair<unsigned, int>> v;
            for (auto& z : all) for (Mult c = 0; c < (z.second < 0 ? -z.second : z.second); c++) v.push_back({z.first, z.second < 0 ? -1 : 1});
            for (size_t j = v.size(); j > 1; j--) std::swap(v[j - 1], v[q.below(j)]);
            for (auto& z : v) { if (z.second > 0) back.remove_element(R.elems[z.first]); else back.add_element(R.elems[z.first]); }
            SIM_CHECK(back == SetHash(), "drain", "taking back all elements in another order does not give the hash of the empty set");
            probe("drained");
        }
    }
    end_op();
}
void gen(Rng& r, const GenCtx&, Plan& p)
{
    unsigned n = 4 + unsigned(r.below(40));
    bool     few = r.chance(1, 2), heavy = r.chance(1, 6);
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {ADD, ADD, ADD, REMOVE, REMOVE, ADDSET, REMOVESET, BATCH, SAVE, CRASH, SEND, SEND, DELIVER, DELIVER, DELIVER, COPY, BADLOAD, BADLOAD, UNDO, PRINT};
        o.code = tab[r.below(sizeof tab)];
        if (heavy && r.chance(1, 2)) o.code = r.chance(2, 3) ? ADDSET : REMOVESET;
        for (auto& a : o.a) a = r.u64();
        o.a[0] = r.below(kRep);
        o.a[1] = r.below(kRep);
        o.a[2] = r.below(few ? 3 : 10);
        p.ops.push_back(o);
    }
}
Scenario S{"C10", {"add", "remove", "add-set", "remove-set", "batch", "save", "crash-restart", "send", "deliver", "copy", "bad-load", "undo", "print"}, lib_init, gen, run, 100};
} // namespace
Scenario* sim::g_scenario = &S;
