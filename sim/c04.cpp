// C04: blobs travel through a hostile channel; only the right key, kind and size may open them.
#include "objects.hpp"
using namespace obj;
namespace {
enum { CREATE, WRAP, FLIP, CUT, GROW, SPLICE, OTHERKEY, OTHERKIND, OTHERSIZE, GARBAGE, PEER, GOOD, RETAG, REKEY, MISFIT, NOPS };
struct Stored
{
    unsigned             wk;
    Model                m;
    std::vector<uint8_t> blob;
};
struct World
{
    std::string                        wkey[3];
    Slot<Wrapper>                      w[3];
    std::vector<std::unique_ptr<Base>> objs;
    std::vector<Stored>                disk;
};
// the attempt must be refused, leave the bytes as they were, and leave the wrapper working
void attack(World& w, const char* what, unsigned wk, unsigned kind, const std::vector<uint8_t>& forged)
{
    std::vector<uint8_t> b = forged;
    Result r = call([&] { unwrap(kind, *w.w[wk], b); });
    SIM_CHECK(r.threw, "foreign-accepted", "%s: unwrapped as %s/%zu", what, name_of(kind), size_of(kind));
    SIM_CHECK(b == forged, "blob-changed", "%s: refused, but the blob was changed (%zu -> %zu bytes)", what, forged.size(), b.size());
    event(what);
}
// turns the serialization of a range-constrained key into one that no such key has
bool nonsense(std::string& ser, Class c, size_t n, uint64_t s, uint64_t t)
{
    if (c == RCPRF) {
        if (ser.size() != 33) return false;
        static const uint8_t bad[] = {0, 1, 65, 66, 128, 129, 192, 255};
        ser[0] = char(t & 1 ? bad[s % sizeof bad] : 65 + s % 191);
        return true;
    }
    if (ser.size() < 5) return false;
    struct E { size_t at, size; uint8_t st; };
    std::vector<E> v;
    for (size_t p = 5; p + 17 <= ser.size();) {
        E e{p, 17 + (ser[p] == 1 ? n : 32), uint8_t(ser[p])};
        v.push_back(e);
        p += e.size;
    }
    if (v.empty() || v.back().at + v.back().size != ser.size() || uint8_t(ser[1]) != v.size() || ser[2] || ser[3] || ser[4]) return false; // not the layout of this format
    const E& e   = v[s % v.size()];
    uint64_t big = 0;
    for (auto& x : v) big = std::max<uint64_t>(big, x.st);
    auto     u64 = [&](size_t at) { uint64_t x; memcpy(&x, &ser[at], 8); return x; };
    auto     put = [&](size_t at, uint64_t x) { memcpy(&ser[at], &x, 8); };
    switch (t % 8) {
    case 0: ser[1] = char(v.size() + 1 + (s >> 8) % 3); break;                       // pieces missing at the end
    case 1: ser[1] = char((s >> 8) % v.size()); break;                               // more pieces than announced
    case 2: ser[0] = char((s >> 8) % (big + 1)); break;                              // a tree not higher than its subtrees
    case 3: ser[e.at] = char(e.st + ((s >> 8) & 1 ? 1 : -1)); break;                 // a subtree of another height than its width says
    case 4: put(e.at + 9, u64(e.at + 9) + (1ULL << ((s >> 8) % 60))); break;
    case 5: put(e.at + 1, u64(e.at + 1) ^ (1ULL << ((s >> 8) % 64))); break;
    case 6: if (e.st == 1) return false; else { uint64_t a = u64(e.at + 1), b = u64(e.at + 9); put(e.at + 1, b); put(e.at + 9, a); } break;
    case 7:                                                                          // a piece twice
        ser += std::string(ser, e.at, e.size);
        ser[1] = char(v.size() + 1);
        break;
    }
    return true;
}
void good(World& w, const Stored& d, uint64_t s)
{
    std::vector<uint8_t>  b = d.blob;
    std::unique_ptr<Base> n;
    Result r = call([&] { n = unwrap(d.m.kind, *w.w[d.wk], b); });
    if (r.threw) {
        SIM_CHECK(fault_fired(), "unwrap-refused", "%s: the untouched blob is refused after the attempts: %s", name_of(d.m.kind), r.what.c_str());
        SIM_CHECK(b == d.blob, "blob-changed", "%s: unwrapping failed and still changed the blob", name_of(d.m.kind));
        return;
    }
    n->m = d.m;
    n->use_it(s);
}
void run(const Plan& plan)
{
    if (plan.cfg % 8 == 7) set_protection_unsupported(true);
    World w;
    for (unsigned k = 0; k < 3; k++) { w.wkey[k] = rnd(mix(plan.data_seed, k), 32); }
    // the third wrapping key differs from the first in one bit only
    w.wkey[2] = w.wkey[0];
    w.wkey[2][plan.data_seed % 32] ^= char(1u << (plan.data_seed / 32 % 8));
    for (unsigned k = 0; k < 3; k++) w.w[k].emplace(mk<32>(w.wkey[k]));
    for (size_t i = 0; i < plan.ops.size(); i++) {
        const Op& op = plan.ops[i];
        begin_op(i);
        Base*   o = w.objs.empty() ? nullptr : w.objs[op.a[0] % w.objs.size()].get();
        Stored* d = w.disk.empty() ? nullptr : &w.disk[op.a[0] % w.disk.size()];
        if (op.code == CREATE) {
            w.objs.push_back(build(model(unsigned(op.a[0]), op.a[2], op.a[3])));
            if (w.objs.size() > 4) w.objs.erase(w.objs.begin());
        } else if (op.code == WRAP && o) {
            Stored s{unsigned(op.a[1] % 3), o->m, {}};
            if (ok("wrap", [&] { s.blob = o->wrap(*w.w[s.wk]); })) w.disk.push_back(s);
            if (w.disk.size() > 8) w.disk.erase(w.disk.begin());
        } else if (op.code == REKEY) { // two wrappers are recreated in each other's place
            unsigned x = unsigned(op.a[1] % 3), y = unsigned((x + 1 + op.a[2] % 2) % 3);
            w.w[x].reset();
            w.w[y].reset();
            w.w[x].emplace(mk<32>(w.wkey[y]));
            w.w[y].emplace(mk<32>(w.wkey[x]));
            std::swap(w.wkey[x], w.wkey[y]);
            for (auto& e : w.disk) if (e.wk == x) e.wk = y; else if (e.wk == y) e.wk = x;
            event("rekey");
        } else if (op.code == PEER) { // a blob with a valid tag whose type byte or context is not that of the kind it is opened as
            unsigned kind = unsigned(op.a[0] % kKinds), k = unsigned(op.a[1] % 3);
            Model    m = model(kind, op.a[2], op.a[3]);
            Class    c = class_of(kind);
            std::string ctx;
            if (c == PRF || c == RCPRF || c == CRCPRF) { ctx += char(size_of(kind) >> 8); ctx += char(size_of(kind)); }
            uint8_t     own = c == CIPHER ? 1 : c == PRF ? 2 : c == PRG ? 3 : c == PRP ? 4 : c == TDP ? 7 : 0;
            std::string ser = c == TDP ? std::string(kRsa2048[m.rsa].sk) : c == PRP ? rnd(op.a[2], 112) : m.key, oc = ctx;
            uint8_t     t = uint8_t(op.a[4]);
            if (own && t == own) { // right type: damage the context instead
                if (oc.empty()) oc = std::string(1 + op.a[4] / 256 % 3, char(op.a[3]));
                else oc[(op.a[4] >> 9) % oc.size()] ^= char(1u << ((op.a[4] >> 12) % 8));
            }
            if (!own) { ser = c == RCPRF ? std::string(1, char(m.height)) + m.key : rnd(op.a[2], 60); if (t >= 5 && t <= 6) t = 9; }
            std::string b = ref::wrap_blob(w.wkey[k], t, oc, ser, rnd(op.a[2] + 1, 16));
            attack(w, "foreign-type-or-context", k, kind, std::vector<uint8_t>(b.begin(), b.end()));
        } else if (d) {
            std::vector<uint8_t> b = d->blob;
            size_t n = b.size();
            unsigned kind = d->m.kind, k = d->wk;
            switch (op.code) {
            case FLIP: { size_t at = op.a[2] % 3 == 0 ? op.a[3] % 28 % n : op.a[2] % 3 == 1 ? n - 1 - op.a[3] % 16 % n : op.a[3] % n; b[at] ^= uint8_t(1u << (op.a[4] % 8)); attack(w, "bit-flip", k, kind, b); break; }
            case CUT: { size_t by = 1 + (op.a[2] % 3 == 0 ? op.a[3] % 4 : op.a[2] % 3 == 1 ? n - 1 - op.a[3] % 40 % n : op.a[3]) % n; if (op.a[4] & 1) b.erase(b.begin(), b.begin() + long(by)); else b.resize(n - by); attack(w, "truncation", k, kind, b); break; }
            case GROW: { std::string x = bytes_of(op.a[3], 1 + op.a[2] % 40); b.insert((op.a[4] & 1) ? b.begin() : b.end(), x.begin(), x.end()); attack(w, "extension", k, kind, b); break; }
            case SPLICE: {
                const Stored& e = w.disk[op.a[2] % w.disk.size()];
                size_t at = op.a[4] % 2 ? 28 : op.a[4] % 3 == 1 ? 12 : op.a[3] % n;
                if (at > e.blob.size()) at = e.blob.size();
                b.resize(std::min(at, n));
                b.insert(b.end(), e.blob.begin() + long(std::min(at, e.blob.size())), e.blob.end());
                if (b == d->blob || (b == e.blob && e.wk == k && e.m.kind == kind)) break;
                attack(w, "splice", k, kind, b);
                break;
            }
            case OTHERKEY: attack(w, "other-wrapping-key", unsigned((k + 1 + op.a[2] % 2) % 3), kind, b); break;
            case OTHERKIND: {
                unsigned q = unsigned(op.a[2] % kKinds);
                if (op.a[3] % 3 == 0) { // the same output size under the other class
                    if (kind >= kCr0) q = kind - kCr0 + kRc0;
                    else if (kind >= kRc0) q = kind - kRc0 + kCr0;
                }
                if (q != kind) attack(w, "other-kind", k, q, b);
                break;
            }
            case OTHERSIZE: {
                unsigned q = kind;
                if (kind >= kCr0) q = kCr0 + unsigned(op.a[2] % RcSizes::count);
                else if (kind >= kRc0) q = kRc0 + unsigned(op.a[2] % RcSizes::count);
                else if (kind >= kPrf0) q = kPrf0 + unsigned(op.a[2] % PrfSizes::count);
                if (q != kind) attack(w, "other-output-size", k, q, b);
                break;
            }
            case GARBAGE: { std::string x = rnd(op.a[3], op.a[2] % 3 ? n : op.a[2] % 70); attack(w, "garbage", k, op.a[4] % 2 ? kind : unsigned(op.a[4] % kKinds), std::vector<uint8_t>(x.begin(), x.end())); break; }
            case RETAG: { // decrypts to the very object that was wrapped, but the tag is not its tag
                std::string x(b.begin(), b.end()), t = x.substr(n - 12);
                switch (op.a[2] % 6) {
                case 0: case 1: case 2: t[op.a[3] % 12] ^= char(1u << (op.a[4] % 8)); break;
                case 3: { size_t keep = op.a[3] % 12; for (size_t j = 0; j < 12; j++) if (j != keep) t[j] = char(t[j] ^ (1 + (op.a[4] >> 5 * (j % 10)) % 255)); break; } // one byte is right
                case 4: { size_t j = op.a[3] % 12, l = (j + 1 + op.a[4] % 11) % 12; char z = char(1 + (op.a[4] >> 8) % 255); t[j] ^= z; t[l] ^= z; break; } // differences cancel out
                case 5: { size_t j = op.a[3] % 12, l = (j + 1 + op.a[4] % 11) % 12; std::swap(t[j], t[l]); break; }
                }
                x = ref::wrap_retag(w.wkey[k], x, t);
                if (x != std::string(b.begin(), b.end())) attack(w, "wrong-tag", k, kind, std::vector<uint8_t>(x.begin(), x.end()));
                break;
            }
            case MISFIT: { // a correct tag over the very object that was wrapped, cut short or followed by more
                Class c = class_of(kind);
                if (c == TDP) break;
                std::string ctx, ser = ref::unwrap_raw(w.wkey[k], std::string(b.begin(), b.end()));
                uint8_t     t = c == CIPHER ? 1 : c == PRF ? 2 : c == PRG ? 3 : c == PRP ? 4 : c == RCPRF ? 5 : 6;
                if (c == PRF || c == RCPRF || c == CRCPRF) { ctx += char(size_of(kind) >> 8); ctx += char(size_of(kind)); }
                std::string again = ref::wrap_blob(w.wkey[k], t, ctx, ser, std::string(b.begin(), b.begin() + 16));
                SIM_CHECK(again == std::string(b.begin(), b.end()), "unreadable", "%s: the blob is not what another holder of the wrapping key makes of the object", name_of(kind));
                if ((op.a[2] >> 8) % 3 == 0 && (c == RCPRF || c == CRCPRF)) {
                    if (!nonsense(ser, c, size_of(kind), op.a[3], op.a[4])) break;
                } else if (op.a[2] & 1) ser += bytes_of(op.a[3], 1 + (op.a[4] % 3 ? op.a[4] % 9 : op.a[4] % 700));
                else ser.resize(op.a[4] % 3 ? ser.size() - 1 - op.a[3] % std::min<size_t>(ser.size(), 9) : op.a[3] % ser.size());
                if (ser.empty()) break;
                again = ref::wrap_blob(w.wkey[k], t, ctx, ser, rnd(op.a[3], 16));
                attack(w, "misfit", k, kind, std::vector<uint8_t>(again.begin(), again.end()));
                break;
            }
            case GOOD: good(w, *d, op.a[2]); break;
            default: break;
            }
        }
        end_op();
        uint64_t h = mix(op.code, w.disk.empty() ? 99 : w.disk[op.a[0] % w.disk.size()].m.kind);
        state_seen(h);
        note_u64(h);
    }
    for (auto& d : w.disk) good(w, d, plan.data_seed);
    for (auto& o : w.objs) o->use_it(plan.data_seed);
}
void gen(Rng& r, const GenCtx& c, Plan& p)
{
    (void)c;
    p.cfg      = uint32_t(r.below(64));
    unsigned n = 5 + unsigned(r.below(40));
    bool     rsa = r.chance(1, 8);
    unsigned fav = unsigned(r.below(kKinds));
    for (unsigned i = 0; i < n; i++) {
        Op o;
        static const uint8_t tab[] = {CREATE, CREATE, CREATE, WRAP, WRAP, WRAP, WRAP, FLIP, FLIP, FLIP, CUT, GROW, SPLICE, SPLICE, OTHERKEY, OTHERKEY, OTHERKIND, OTHERKIND, OTHERKIND, OTHERSIZE, OTHERSIZE, GARBAGE, PEER, PEER, GOOD, GOOD, RETAG, RETAG, REKEY, MISFIT, MISFIT};
        o.code = i == 0 ? CREATE : i == 1 ? WRAP : tab[r.below(sizeof tab)];
        for (auto& x : o.a) x = r.u64();
        if (o.code == CREATE) {
            o.a[0] = r.chance(1, 2) ? fav : r.below(kKinds);
            if (o.a[0] == 3 && !rsa) o.a[0] = kRc0 + r.below(kKinds - kRc0);
        } else if (o.code == PEER) {
            o.a[0] = r.below(kKinds); o.a[4] = r.u64() & ~255ULL; o.a[4] |= r.below(12);
            if (o.a[0] == 3 && !rsa) o.a[0] = 0;
        } else o.a[0] = r.below(32);
        p.ops.push_back(o);
    }
}
Scenario S{"C04", {"create", "wrap", "flip", "cut", "grow", "splice", "other-key", "other-kind", "other-size", "garbage", "peer", "good", "retag", "rekey", "misfit"}, obj::setup, gen, run, 250};
} // namespace
Scenario* sim::g_scenario = &S;
