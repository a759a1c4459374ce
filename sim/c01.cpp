// C01: two (or more) parties hold encryption keys; an adversarial channel sits between them.
#include "common.hpp"
#include <sse/crypto/cipher.hpp>

namespace {
enum { SEND, SENDARR, REFSEND, DELIVER, DELIVERARR, RESTART, MOVE, SHORT, REKEY, NOPS };
using ArrSizes = Sizes<1, 2, 7, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 255, 256, 257, 1000, 1024, 4096, 4097>;
const unsigned kKeys = 3, kInst = 2; // instances per key

struct Packet
{
    unsigned    key;
    std::string bytes;
};
struct World
{
    std::string                        key[kKeys];
    Slot<Cipher>                       inst[kKeys * kInst];
    unsigned                           hold[kKeys * kInst]; // which key a party currently holds
    std::vector<Packet>                pool;
    std::map<std::string, std::string> produced[kKeys]; // ciphertext -> plaintext
};

// a party holding the key
unsigned party(World& w, unsigned key, uint64_t from)
{
    for (unsigned i = 0; i < kKeys * kInst; i++)
        if (w.hold[(from + i) % (kKeys * kInst)] == key) return unsigned((from + i) % (kKeys * kInst));
    unsigned i = unsigned(from % (kKeys * kInst));
    w.inst[i].emplace(mk<32>(w.key[key]));
    w.hold[i] = key;
    return i;
}

void produced(World& w, unsigned k, const std::string& c, const std::string& m, const char* who)
{
    SIM_CHECK(c.size() == m.size() + 32, "expansion", "%s: %zu byte message became %zu byte ciphertext", who, m.size(), c.size());
    std::string back;
    SIM_CHECK(ref::cipher_decrypt(w.key[k], c, back) && back == m, "peer-cannot-decrypt",
              "%s: a %zu byte message sent under key %u is not readable by another holder of the key", who, m.size(), k);
    w.produced[k][c] = m;
    w.pool.push_back({k, c});
    if (w.pool.size() > 48) w.pool.erase(w.pool.begin());
}

std::string corrupt(World& w, const Op& op, unsigned& key)
{
    if (w.pool.empty()) return std::string();
    Packet      p    = w.pool[op.a[1] % w.pool.size()];
    Packet&     q    = w.pool[op.a[5] % w.pool.size()];
    std::string b    = p.bytes;
    uint64_t    x    = op.a[3], y = op.a[4];
    key              = p.key;
    switch (op.a[2] % 14) {
    case 0: case 1: event("deliver"); break;
    case 2: // flip one bit anywhere
        if (!b.empty()) { b[x % b.size()] = char(b[x % b.size()] ^ (1 << (y % 8))); event("flip-bit"); }
        break;
    case 3: // flip a bit in nonce / tag / body
        if (b.size() > 32) {
            size_t pos = (y & 1) ? x % 16 : (y & 2) ? b.size() - 1 - x % 16 : 16 + x % (b.size() - 32);
            b[pos]     = char(b[pos] ^ (1 << ((y >> 8) % 8)));
            event("flip-bit");
        }
        break;
    case 4: b.resize(b.size() - (b.empty() ? 0 : 1 + x % std::min<size_t>(b.size(), 20))); event("truncate"); break;
    case 5: b.resize(x % (b.size() + 1)); event("truncate"); break;
    case 6: b += bytes_of(y, 1 + x % 40); event("extend"); break;
    case 7: // splice with another packet
        b = b.substr(0, x % (b.size() + 1)) + q.bytes.substr(std::min(q.bytes.size(), size_t(y % (q.bytes.size() + 1))));
        event("splice");
        break;
    case 8: // nonce of another packet
        if (b.size() > 16 && q.bytes.size() > 16) b.replace(0, 16, q.bytes, 0, 16);
        event("nonce-swap");
        break;
    case 9: // tag of another packet
        if (b.size() > 32 && q.bytes.size() > 32) b.replace(b.size() - 16, 16, q.bytes, q.bytes.size() - 16, 16);
        event("tag-swap");
        break;
    case 10: // redirected to a holder of another key
        key = (p.key + 1 + unsigned(x % (kKeys - 1))) % kKeys;
        event("redirect");
        break;
    case 11: // blob of arbitrary bytes
        b = rnd(y, x % 200);
        event("garbage");
        break;
    case 12: // garbage burst: overwrite a range (torn write / lost sector)
        if (!b.empty()) {
            size_t at = x % b.size(), n = std::min(b.size() - at, size_t(1 + y % 64));
            b.replace(at, n, std::string(n, char(y >> 32)));
            event("torn");
        }
        break;
    case 13: // leading bytes lost, or the two halves swapped
        if (y & 1) b.erase(0, 1 + x % 20 > b.size() ? b.size() : 1 + x % 20);
        else if (!b.empty()) { size_t h = x % b.size(); b = b.substr(h) + b.substr(0, h); }
        event("reorder-bytes");
        break;
    }
    return b;
}

void judge(World& w, unsigned key, const std::string& b, const Result& r, const std::string& out, const std::string& before, bool arr)
{
    auto it = w.produced[key].find(b);
    if (it != w.produced[key].end()) {
        if (r.threw) {
            if (fault_fired()) { probe("honest-refused-by-fault"); return; }
            fail("honest-refused", "a ciphertext of %zu bytes produced by a holder of the key was refused (%s): %s", b.size(), arr ? "array" : "string", r.what.c_str());
        }
        SIM_CHECK(out == it->second, "wrong-plaintext", "accepted a ciphertext of %zu bytes but recovered a different plaintext (%s)", b.size(), arr ? "array" : "string");
        probe("accepted");
        note(out);
        return;
    }
    SIM_CHECK(r.threw, "forgery-accepted", "a %zu byte string no holder of the key produced was accepted (%s)", b.size(), arr ? "array" : "string");
    std::string un = ref::cipher_keystream_plain(w.key[key], b);
    SIM_CHECK(!leaks(out, un, before), "plaintext-released", "refused ciphertext of %zu bytes, yet plaintext bytes were put into the output (%s)", b.size(), arr ? "array" : "string");
    probe("refused");
}

void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    World w;
    for (unsigned k = 0; k < kKeys; k++) {
        w.key[k] = rnd(mix(plan.data_seed, k), 32);
        if (k == 1 && (plan.cfg & 1)) { w.key[1] = w.key[0]; w.key[1][plan.data_seed % 32] = char(w.key[1][plan.data_seed % 32] ^ (1 << (plan.cfg >> 1) % 8)); }
    }
    for (unsigned i = 0; i < kKeys * kInst; i++) { w.inst[i].emplace(mk<32>(w.key[i / kInst])); w.hold[i] = i / kInst; }
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        begin_op(i);
        unsigned slot = unsigned(op.a[0] % (kKeys * kInst)), k = w.hold[slot];
        switch (op.code) {
        case SEND: {
            std::string m = bytes_of(op.a[2], op.a[1]), out = (op.a[3] & 1) ? std::string(op.a[3] % 5000, '\x5a') : std::string();
            bool   same = (op.a[3] >> 20) % 6 == 0; // one string is both input and output
            if (same) { out = m; event("in-place"); }
            Result r = call([&] { w.inst[slot]->encrypt(same ? out : m, out); });
            if (m.empty()) { SIM_CHECK(r.threw, "empty-accepted", "an empty message was encrypted"); break; }
            if (r.threw) { SIM_CHECK(fault_fired(), "send-refused", "encrypting %zu bytes failed: %s", m.size(), r.what.c_str()); break; }
            produced(w, k, out, m, "string");
            break;
        }
        case SENDARR:
            ArrSizes::with(op.a[1], [&](auto S) {
                constexpr size_t            N = decltype(S)::value;
                std::string                 m = bytes_of(op.a[2], N);
                auto                        in  = std::make_unique<std::array<uint8_t, N>>();
                auto                        out = std::make_unique<std::array<uint8_t, Cipher::ciphertext_length(N)>>();
                memcpy(in->data(), m.data(), N);
                out->fill(0x5a);
                Result r = call([&] { w.inst[slot]->encrypt(*in, *out); });
                if (r.threw) { SIM_CHECK(fault_fired(), "send-refused", "encrypting %zu byte array failed: %s", N, r.what.c_str()); return; }
                produced(w, k, str(*out), m, "array");
            });
            break;
        case REFSEND: {
            std::string m = bytes_of(op.a[2], op.a[1] ? op.a[1] : 1);
            std::string c = ref::cipher_encrypt(w.key[k], rnd(op.a[3], 16), m);
            w.produced[k][c] = m;
            w.pool.push_back({k, c});
            break;
        }
        case DELIVER: {
            unsigned    key = k;
            std::string b   = corrupt(w, op, key), out, before;
            if (op.a[0] & 64) before = out = std::string(op.a[4] % 3000, '\x5a');
            bool same = op.a[0] >= 224; // one string is both input and output
            if (same) { before = out = b; event("in-place"); }
            unsigned to = party(w, key, op.a[0] >> 1);
            Result r = call([&] { w.inst[to]->decrypt(same ? out : b, out); });
            if (b.size() <= 32) { SIM_CHECK(r.threw, "short-accepted", "a %zu byte ciphertext was accepted", b.size()); break; }
            judge(w, key, b, r, out, before, false);
            break;
        }
        case DELIVERARR: {
            unsigned    key = k;
            std::string b   = corrupt(w, op, key);
            size_t      n   = b.size() >= 32 ? b.size() - 32 : 0;
            bool        hit = false;
            for (size_t s = 0; s < ArrSizes::count; s++)
                if (ArrSizes::at(s) == n) {
                    hit = true;
                    ArrSizes::with(s, [&](auto S) {
                        constexpr size_t N   = decltype(S)::value;
                        auto             in  = std::make_unique<std::array<uint8_t, Cipher::ciphertext_length(N)>>();
                        auto             out = std::make_unique<std::array<uint8_t, N>>();
                        memcpy(in->data(), b.data(), b.size());
                        out->fill(0x5a);
                        unsigned         to  = party(w, key, op.a[0] >> 1);
                        Result r = call([&] { w.inst[to]->decrypt(*in, *out); });
                        judge(w, key, b, r, str(*out), std::string(N, '\x5a'), true);
                        SIM_CHECK(str(*in) == b, "input-changed", "decryption changed its input");
                    });
                }
            if (hit) probe("array-decrypt");
            break;
        }
        case RESTART: case REKEY: { // the party loses its object and makes another, with its key or (rekeyed) a new one, in the same place
            event(op.code == REKEY ? "rekey" : "restart");
            if (op.code == REKEY) w.hold[slot] = k = unsigned((k + 1 + op.a[2] % (kKeys - 1)) % kKeys);
            w.inst[slot].reset();
            std::array<uint8_t, 32> kb;
            memcpy(kb.data(), w.key[k].data(), 32);
            Result r = call([&] { w.inst[slot].emplace(Key<32>(kb.data())); });
            if (r.threw) { SIM_CHECK(fault_fired(), "restart-refused", "creating a cipher failed: %s", r.what.c_str()); w.inst[slot].emplace(mk<32>(w.key[k])); }
            break;
        }
        case MOVE: { // between two places
            Slot<Cipher> c;
            Result r = call([&] { c.emplace(std::move(*w.inst[slot])); w.inst[slot].emplace(std::move(*c)); });
            if (r.threw) { SIM_CHECK(fault_fired(), "move-refused", "moving a cipher failed"); w.inst[slot].emplace(mk<32>(w.key[k])); break; }
            event("move");
            break;
        }
        case SHORT: {
            std::string b = bytes_of(op.a[2], op.a[1] % 33), out = "unchanged";
            if (!w.pool.empty() && (op.a[3] & 1)) b = w.pool[op.a[4] % w.pool.size()].bytes.substr(0, op.a[1] % 33);
            Result r = call([&] { w.inst[slot]->decrypt(b, out); });
            SIM_CHECK(r.threw, "short-accepted", "a %zu byte ciphertext was accepted", b.size());
            event("too-short");
            break;
        }
        }
        end_op();
        note_u64(w.pool.size());
        state_seen(mix(op.code * 131 + op.a[2] % 14, w.pool.size()));
    }
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    p.cfg      = uint32_t(r.below(64));
    unsigned n = 4 + unsigned(r.below(36));
    for (unsigned i = 0; i < n; i++) {
        Op       o;
        unsigned x = unsigned(r.below(100));
        if (i < 2 || x < 26) o.code = SEND;
        else if (x < 38) o.code = SENDARR;
        else if (x < 44) o.code = REFSEND;
        else if (x < 72) o.code = DELIVER;
        else if (x < 86) o.code = DELIVERARR;
        else if (x < 89) o.code = RESTART;
        else if (x < 93) o.code = REKEY;
        else if (x < 97) o.code = MOVE;
        else o.code = SHORT;
        o.a[0] = r.below(256);
        size_t max = r.chance(1, 40) ? (r.chance(1, 10) ? (r.chance(1, 16) ? 5000000 : 1200000) : 70000) : 4200;
        switch (o.code) {
        case SEND: case REFSEND:
            o.a[1] = c.length(r, max);
            if (r.chance(1, 3)) o.a[1] = ArrSizes::at(r.below(64)); // so that array receivers get string-made packets
            o.a[2] = r.u64(); o.a[3] = r.u64();
            break;
        case SENDARR: o.a[1] = r.below(ArrSizes::count); o.a[2] = r.u64(); break;
        case SHORT: o.a[1] = r.below(33); o.a[2] = r.u64(); o.a[3] = r.u64(); o.a[4] = r.u64(); break;
        default:
            o.a[1] = r.below(64); o.a[2] = r.below(14); o.a[3] = r.chance(1, 3) ? c.length(r, 4200) : r.u64() >> 8; o.a[4] = r.u64(); o.a[5] = r.below(64);
        }
        p.ops.push_back(o);
    }
}
Scenario S{"C01", {"send", "send-array", "peer-send", "deliver", "deliver-array", "restart", "move", "short", "rekey"}, [] { lib_init(); }, gen, run, 400};
} // namespace
Scenario* sim::g_scenario = &S;
