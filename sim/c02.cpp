// C02: every nonce, IV, random key and sampled element is fresh, full-size randomness of the moment.
#include "common.hpp"
#include "keys.hpp"
#include "hash/sha512.hpp"
#include <sse/crypto/cipher.hpp>
#include <sse/crypto/hash.hpp>
#include <sse/crypto/hmac.hpp>
#include <sse/crypto/prf.hpp>
#include <sse/crypto/prg.hpp>
#include <sse/crypto/prp.hpp>
#include <sse/crypto/rcprf.hpp>
#include <sse/crypto/tdp.hpp>
#include <sse/crypto/wrapper.hpp>

namespace {
enum { ENC, ENCDEP, WRAP, WRAPDEP, KEYGEN, KEYDEP, SAMPLE, SAMPLEDEP, RESTART, MOVE, FAILED, BURST, RANDSTR, RANDDEP, TDPKEY, NOPS };

struct World
{
    std::string                       ckey[2], wkey[2];
    std::unique_ptr<Cipher>           c[4];
    std::unique_ptr<Wrapper>          w[4];
    std::unique_ptr<Prf<20>>          prf;
    std::unique_ptr<Prg>              prg;
    std::unique_ptr<Cipher>           obj;
    std::unique_ptr<RCPrf<16>>        rc;
    std::unique_ptr<Prp>              prp;
    std::unique_ptr<ConstrainedRCPrf<16>> crc, crc1;
    std::map<std::string, std::string> seen; // random value -> where
};
const Tdp*         g_tdp;
const TdpInverse*  g_inv;
const TdpMultPool* g_pool;

void fresh_value(World& w, const std::string& v, const char* what)
{
    std::string label = std::string(what);
    auto        r     = w.seen.emplace(v, label);
    SIM_CHECK(r.second, "value-repeated", "%s is equal to an earlier %s: %s", what, r.first->second.c_str(), hex(v).c_str());
    note(v);
    probe("fresh-values");
}
void enough(uint64_t before, size_t need, const char* what)
{
    uint64_t got = rng_consumed() - before;
    SIM_CHECK(got >= need, "too-little-randomness", "%s drew %llu bytes from the system generator, %zu are needed", what, (unsigned long long)got, need);
}

// One random value, produced by the library: kind selects how. Returns false if the call threw.
struct Draw
{
    std::string value;
    size_t      need;
    const char* what;
};
std::string encrypt_once(Cipher& c, uint64_t sz, uint64_t seed)
{
    switch (sz & 7) {
    case 0: { std::array<uint8_t, 1> in{{uint8_t(seed)}}; std::array<uint8_t, 33> out; c.encrypt(in, out); return str(out); }
    case 1: { std::array<uint8_t, 64> in; in.fill(uint8_t(seed)); std::array<uint8_t, 96> out; c.encrypt(in, out); return str(out); }
    default: { std::string in = bytes_of(seed, 1 + (sz >> 3) % (1u << 21)), out; c.encrypt(in, out); return out; }
    }
}
std::string wrap_once(World& w, Wrapper& wr, uint64_t kind)
{
    std::vector<uint8_t> b;
    switch (kind % 8) {
    case 4: b = wr.wrap(*w.prp); break;
    case 5: b = wr.wrap(*w.crc); break;
    case 6: b = wr.wrap(*w.crc1); break;
    case 0: b = wr.wrap(*w.obj); break;
    case 1: b = wr.wrap(*w.prf); break;
    case 2: b = wr.wrap(*w.prg); break;
    case 3: b = wr.wrap(*w.rc); break;
    default: b = wr.wrap(*g_inv); break;
    }
    return str(b);
}
template<size_t N> std::string key_print(bool direct)
{
    if (direct) { HMac<Hash, N> h; return str(h.hmac(std::string("fingerprint"))); }
    Key<N>        k;
    HMac<Hash, N> h(std::move(k));
    return str(h.hmac(std::string("fingerprint")));
}
Draw key_once(uint64_t kind)
{
    bool d = (kind >> 8) & 1;
    switch (kind % 12) {
    case 0: return {key_print<16>(d), 16, "Key<16>"};
    case 1: return {key_print<17>(d), 17, "Key<17>"};
    case 2: return {key_print<32>(d), 32, "Key<32>"};
    case 3: return {key_print<48>(d), 48, "Key<48>"};
    case 4: return {key_print<64>(d), 64, "Key<64>"};
    case 5: return {key_print<128>(d), 128, "Key<128>"};
    case 6: { Prf<32> p; return {str(p.prf(std::string("f"))), 32, "Prf()"}; }
    case 7: { Key<32> k; return {Prg::derive(std::move(k), 32), 32, "Key<32> for a PRG"}; }
    case 8: { Prp p; return {p.encrypt(std::string(32, 'z')), 48, "Prp()"}; }
    case 9: { Prp p{Key<48>()}; return {p.encrypt(std::string(32, 'z')), 48, "Key<48> for a PRP"}; }
    case 10: { Prf<80> p; return {str(p.prf(std::string("f"))).substr(0, 64), 32, "Prf<80>()"}; }
    default: { RCPrf<32> p(Key<32>(), 8); return {str(p.eval(3)), 32, "Key<32> for a RCPrf"}; }
    }
}
Draw sample_once(uint64_t kind)
{
    switch (kind % 6) {
    case 0: return {g_tdp->sample(), 256, "Tdp::sample"};
    case 1: return {str(g_tdp->sample_array()), 256, "Tdp::sample_array"};
    case 2: return {g_inv->sample(), 256, "TdpInverse::sample"};
    case 3: return {str(g_inv->sample_array()), 256, "TdpInverse::sample_array"};
    case 4: return {g_pool->sample(), 256, "TdpMultPool::sample"};
    default: return {str(g_pool->sample_array()), 256, "TdpMultPool::sample_array"};
    }
}
Draw rand_once(uint64_t kind, size_t len)
{
    switch (kind % 4) {
    case 0: return {random_string(len), len, "random_string"};
    case 1: { auto a = random_bytes<uint8_t, 40>(); return {str(a), 40, "random_bytes<uint8_t>"}; }
    case 2: { auto a = random_bytes<uint64_t, 4>(); return {std::string(reinterpret_cast<char*>(a.data()), 32), 32, "random_bytes<uint64_t>"}; }
    default: { std::array<uint32_t, 7> a; random_bytes(a); return {std::string(reinterpret_cast<char*>(a.data()), 28), 28, "random_bytes(array)"}; }
    }
}
// the value must change with every byte that was drawn for it
template<class F> void dependence(const Op& op, F&& f)
{
    Draw     a, b;
    uint64_t sd = mix(op.a[5], 0xdeb);
    rng_seed(sd);
    Result r = call([&] { a = f(); });
    if (r.threw) { SIM_CHECK(fault_fired(), "refused", "drawing a random value failed: %s", r.what.c_str()); return; }
    uint64_t used = rng_consumed();
    SIM_CHECK(used >= a.need, "too-little-randomness", "%s drew %llu bytes from the system generator, %zu are needed", a.what, (unsigned long long)used, a.need);
    if (fault_fired()) return;
    uint64_t j = op.a[3] % used;
    uint8_t  m = uint8_t(1u << (op.a[4] % 8));
    if ((op.a[4] >> 3) % 4 == 0) m = uint8_t(m | 0x81);
    rng_seed(sd);
    rng_flip(j, m);
    r = call([&] { b = f(); });
    if (r.threw) { SIM_CHECK(fault_fired(), "refused", "drawing a random value failed: %s", r.what.c_str()); return; }
    if (a.value == b.value && used > a.need) { // more was drawn than needed: enough of it has to matter
        size_t n = 0;
        for (uint64_t k = 0; k < used && n < a.need; k++) {
            rng_seed(sd);
            rng_flip(k, 0x81);
            r = call([&] { b = f(); });
            if (r.threw) { SIM_CHECK(fault_fired(), "refused", "drawing a random value failed: %s", r.what.c_str()); return; }
            n += a.value != b.value;
        }
        SIM_CHECK(n >= a.need, "randomness-ignored", "%s depends on %zu of the %llu bytes drawn for it, %zu are needed", a.what, n, (unsigned long long)used, a.need);
        event("surplus-randomness");
        return;
    }
    SIM_CHECK(a.value != b.value, "randomness-ignored", "%s does not depend on byte %llu of the %llu bytes drawn for it", a.what, (unsigned long long)j, (unsigned long long)used);
    event("generator-byte-flipped");
}

void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    World w;
    for (int k = 0; k < 2; k++) { w.ckey[k] = rnd(mix(plan.data_seed, 10 + k), 32); w.wkey[k] = rnd(mix(plan.data_seed, 20 + k), 32); }
    for (int i = 0; i < 4; i++) { w.c[i].reset(new Cipher(mk<32>(w.ckey[i / 2]))); w.w[i].reset(new Wrapper(mk<32>(w.wkey[i / 2]))); }
    w.obj.reset(new Cipher(mk<32>(rnd(1, 32))));
    w.prf.reset(new Prf<20>(mk<32>(rnd(2, 32))));
    w.prg.reset(new Prg(mk<32>(rnd(3, 32))));
    w.rc.reset(new RCPrf<16>(mk<32>(rnd(4, 32)), 9));
    w.prp.reset(new Prp(mk<48>(rnd(5, 48))));
    {
        RCPrf<16> big(mk<32>(rnd(6, 32)), 64);
        w.crc.reset(new ConstrainedRCPrf<16>(big.constrain(1, (1ULL << 63) - 2))); // over a hundred nodes
        w.crc1.reset(new ConstrainedRCPrf<16>(big.constrain(77, 77)));
    }
    uint64_t hist = mix(plan.data_seed, 0x415);
    rng_seed(hist);
    uint64_t segs = 0;
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        begin_op(i);
        unsigned s = unsigned(op.a[0] % 4);
        uint64_t p0 = rng_consumed();
        switch (op.code) {
        case ENC: {
            std::string c;
            Result      r = call([&] { c = encrypt_once(*w.c[s], op.a[1], op.a[2]); });
            if (r.threw) { SIM_CHECK(fault_fired(), "refused", "encryption failed: %s", r.what.c_str()); break; }
            enough(p0, 16, "an encryption");
            fresh_value(w, c.substr(0, 16), "message nonce");
            break;
        }
        case WRAP: {
            std::string c;
            Result      r = call([&] { c = wrap_once(w, *w.w[s], op.a[1]); });
            if (r.threw) { SIM_CHECK(fault_fired(), "refused", "wrapping failed: %s", r.what.c_str()); break; }
            enough(p0, 16, "a wrapping");
            fresh_value(w, c.substr(0, 16), "wrapping IV");
            break;
        }
        case KEYGEN: case SAMPLE: case RANDSTR: {
            Draw   d;
            Result r = call([&] { d = op.code == KEYGEN ? key_once(op.a[1]) : op.code == SAMPLE ? sample_once(op.a[1]) : rand_once(op.a[1], size_t(op.a[2])); });
            if (r.threw) { SIM_CHECK(fault_fired(), "refused", "drawing a random value failed: %s", r.what.c_str()); break; }
            enough(p0, d.need, d.what);
            if (d.value.size() >= 16) fresh_value(w, d.value, d.what);
            break;
        }
        case ENCDEP: dependence(op, [&] { Draw d; d.value = encrypt_once(*w.c[s], op.a[1], op.a[2]).substr(0, 16); d.need = 16; d.what = "a message nonce"; return d; }); break;
        case WRAPDEP: dependence(op, [&] { Draw d; d.value = wrap_once(w, *w.w[s], op.a[1]).substr(0, 16); d.need = 16; d.what = "a wrapping IV"; return d; }); break;
        case KEYDEP: dependence(op, [&] { return key_once(op.a[1]); }); break;
        case SAMPLEDEP: dependence(op, [&] { return sample_once(op.a[1]); }); break;
        case RANDDEP: dependence(op, [&] { return rand_once(op.a[1], 1 + size_t(op.a[2])); }); break;
        case RESTART: {
            event("restart");
            std::array<uint8_t, 32> kb;
            memcpy(kb.data(), ((op.a[1] & 1) ? w.ckey : w.wkey)[s / 2].data(), 32);
            Result r;
            if (op.a[1] & 1) {
                w.c[s].reset();
                r = call([&] { w.c[s].reset(new Cipher(Key<32>(kb.data()))); });
                if (!w.c[s]) w.c[s].reset(new Cipher(mk<32>(w.ckey[s / 2])));
            } else {
                w.w[s].reset();
                r = call([&] { w.w[s].reset(new Wrapper(Key<32>(kb.data()))); });
                if (!w.w[s]) w.w[s].reset(new Wrapper(mk<32>(w.wkey[s / 2])));
            }
            SIM_CHECK(!r.threw || fault_fired(), "refused", "restart failed: %s", r.what.c_str());
            break;
        }
        case MOVE: {
            event("move");
            std::unique_ptr<Cipher> n(new Cipher(std::move(*w.c[s])));
            w.c[s] = std::move(n);
            std::unique_ptr<Wrapper> m(new Wrapper(std::move(*w.w[s])));
            w.w[s] = std::move(m);
            break;
        }
        case FAILED: {
            Result r = call([&] {
                if (op.a[1] % 3 == 0) { std::string o; w.c[s]->encrypt(std::string(), o); }
                else if (op.a[1] % 3 == 1) { std::string o; w.c[s]->decrypt(bytes_of(op.a[2], 40 + op.a[2] % 100), o); }
                else { std::string x = bytes_of(op.a[2], 40); std::vector<uint8_t> b(x.begin(), x.end()); w.w[s]->unwrap<Cipher>(b); }
            });
            SIM_CHECK(r.threw, "bad-accepted", "an invalid call was accepted");
            event("refused-call");
            break;
        }
        case BURST: {
            uint64_t n = op.a[1];
            std::array<uint8_t, 1>  in{{uint8_t(op.a[2])}};
            std::array<uint8_t, 33> out;
            for (uint64_t k = 0; k < n; k++) {
                uint64_t q = rng_consumed();
                Result   r = call([&] { w.c[s]->encrypt(in, out); });
                if (r.threw) { SIM_CHECK(fault_fired(), "refused", "encryption failed: %s", r.what.c_str()); continue; }
                enough(q, 16, "an encryption");
                fresh_value(w, str(out).substr(0, 16), "message nonce");
            }
            event("burst");
            break;
        }
        case TDPKEY: {
            std::string pk;
            Result      r = call([&] { TdpInverse t; pk = t.public_key(); });
            if (r.threw) { SIM_CHECK(fault_fired(), "refused", "key generation failed: %s", r.what.c_str()); break; }
            enough(p0, 256, "trapdoor key generation");
            fresh_value(w, pk, "trapdoor key");
            break;
        }
        }
        end_op();
        if (rng_consumed() < p0 || op.code == ENCDEP || op.code == WRAPDEP || op.code == KEYDEP || op.code == SAMPLEDEP || op.code == RANDDEP) rng_seed(mix(hist, ++segs)); // never replay old randomness
        state_seen(mix(mix(op.code, op.a[1] % 12), w.seen.size() > 20 ? 20 : w.seen.size()));
    }
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    p.cfg      = uint32_t(r.below(64));
    unsigned n = 4 + unsigned(r.below(24));
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {ENC, ENC, ENC, ENC, ENCDEP, ENCDEP, ENCDEP, WRAP, WRAP, WRAPDEP, WRAPDEP, KEYGEN, KEYGEN, KEYDEP, KEYDEP, KEYDEP, SAMPLE, SAMPLEDEP, SAMPLEDEP, RESTART, RESTART, MOVE, FAILED, FAILED, BURST, RANDSTR, RANDDEP};
        o.code = tab[r.below(sizeof tab)];
        if (r.chance(1, 6000)) o.code = TDPKEY;
        o.a[0] = r.below(256); o.a[1] = r.u64() >> 16; o.a[2] = r.u64() >> 8; o.a[3] = r.u64() >> 16; o.a[4] = r.below(256); o.a[5] = r.u64();
        if (o.code == BURST) o.a[1] = r.chance(1, 60) ? 260 + r.below(20) : r.chance(1, c.thorough ? 300 : 900) ? 66000 : 1 + r.below(30);
        if (o.code == RANDSTR || o.code == RANDDEP) o.a[2] = c.length(r, r.chance(1, 40) ? 200000 : r.chance(1, 8) ? 20000 : 2000);
        if (o.code == ENC || o.code == ENCDEP) o.a[1] = uint64_t(c.length(r, r.chance(1, 60) ? 200000 : r.chance(1, 8) ? 20000 : 3000)) << 3 | r.below(8);
        p.ops.push_back(o);
    }
}
void setup()
{
    lib_init();
    g_tdp  = new Tdp(kRsa2048[0].pk);
    g_inv  = new TdpInverse(kRsa2048[0].sk);
    g_pool = new TdpMultPool(kRsa2048[0].pk, 3);
}
Scenario S{"C02", {"encrypt", "encrypt-flip", "wrap", "wrap-flip", "keygen", "keygen-flip", "sample", "sample-flip", "restart", "move", "refused-call", "burst", "random", "random-flip", "tdp-keygen"}, setup, gen, run, 350};
} // namespace
Scenario* sim::g_scenario = &S;
