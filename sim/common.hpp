// Helpers shared by the scenarios.
#pragma once
#include "sim.hpp"
#include "ref.hpp"
#include <sse/crypto/key.hpp>
#include <sse/crypto/utils.hpp>
#include <memory>
#include <map>
#include <set>
#include <utility>

using namespace sim;
using namespace sse::crypto;

// like std::optional, for types whose copy constructor takes a non-const reference
template<class T> class Slot
{
    alignas(T) unsigned char b_[sizeof(T)];
    bool set_{false};
    T*   p() { return reinterpret_cast<T*>(b_); }

public:
    Slot() {}
    Slot(const Slot&) = delete;
    ~Slot() { reset(); }
    void reset() { if (set_) { set_ = false; p()->~T(); } }
    template<class... A> T& emplace(A&&... a)
    {
        reset();
        new (b_) T(std::forward<A>(a)...);
        set_ = true;
        return *p();
    }
    T& operator*() { return *p(); }
    T* operator->() { return p(); }
    explicit operator bool() const { return set_; }
};

// A key holding exactly these bytes (not inside a Lib scope: never faulted).
template<size_t N> inline Key<N> mk(const std::string& s)
{
    std::array<uint8_t, N> b;
    if (s.size() != N) fail("harness", "key size");
    memcpy(b.data(), s.data(), N);
    return Key<N>(b.data());
}
// full-entropy bytes
inline std::string rnd(uint64_t seed, size_t n)
{
    std::string s(n, 0);
    Rng         r(mix(seed, 0x4e4f));
    for (auto& c : s) c = char(r.u64() >> 32);
    return s;
}
// a size: usually below `usual`, now and then some kilobytes, rarely more than 64 kilobytes
inline size_t span(uint64_t x, size_t usual)
{
    uint64_t y = mix(x, 0x51ce) % 1000;
    return y < 3 ? x % 80000 : y < 28 ? x % 9000 : x % usual;
}
template<class A> inline std::string str(const A& a) { return std::string(reinterpret_cast<const char*>(a.data()), a.size()); }
inline const unsigned char* U(const std::string& s) { return reinterpret_cast<const unsigned char*>(s.data()); }
inline unsigned char*       U(std::string& s) { return reinterpret_cast<unsigned char*>(&s[0]); }

// Does `hay` contain an 8-byte window (or all, if shorter) of `needle` which is not trivial?
inline bool leaks(const std::string& hay, const std::string& needle, const std::string& before)
{
    size_t w = needle.size() < 8 ? needle.size() : 8;
    if (w < 5 || hay.size() < w) return false;
    std::set<std::string> win;
    for (size_t i = 0; i + w <= needle.size(); i++) {
        std::string x = needle.substr(i, w);
        std::set<char> d(x.begin(), x.end());
        if (d.size() < 4) continue;
        win.insert(x);
        if (win.size() > 4096) break;
    }
    for (size_t i = 0; i + w <= hay.size(); i++) {
        std::string x = hay.substr(i, w);
        if (win.count(x) && before.find(x) == std::string::npos) return true;
    }
    return false;
}
template<size_t... S> struct Sizes
{
    static constexpr size_t count = sizeof...(S);
    template<class F> static void with(size_t idx, F&& f) // f(integral_constant<size_t,S>)
    {
        size_t i = 0;
        idx %= count;
        (void)std::initializer_list<int>{((i++ == idx) ? (f(std::integral_constant<size_t, S>()), 0) : 0)...};
    }
    static size_t at(size_t idx)
    {
        static const size_t v[] = {S...};
        return v[idx % count];
    }
};
inline void lib_init()
{
    init_crypto_lib();
}
