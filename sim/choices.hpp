// Every decision of a simulated run is drawn here: from a seeded PRNG while searching, from a recording while replaying.
#pragma once
#include <array>
#include <cstdint>
#include <string>
#include <vector>

namespace sim
{
struct rng_t
{
    uint64_t s;
    explicit rng_t(uint64_t seed = 1) : s{seed} {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};
inline uint64_t mix(uint64_t a, uint64_t b)
{
    rng_t r{a * 0x2545F4914F6CDD1Dull ^ (b + 0x9E3779B97F4A7C15ull)};
    r.next();
    return r.next();
}

enum stream_id { S_GEN, S_SCHED, S_FAULT, S_NET, N_STREAMS };

struct choices
{
    bool replay{};
    std::array<std::vector<uint32_t>, N_STREAMS> rec;
    std::array<size_t, N_STREAMS> pos{};
    std::array<rng_t, N_STREAMS> rng;

    explicit choices(uint64_t seed)
    {
        for (int i = 0; i < N_STREAMS; ++i)
            rng[i] = rng_t{mix(seed, 77 + i)};
    }
    explicit choices(std::array<std::vector<uint32_t>, N_STREAMS> const & r) : replay{true}, rec{r} {}

    // a number in 0..n-1; 0 is the simplest choice
    uint32_t pick(stream_id s, uint32_t n)
    {
        if (n <= 1)
            return 0;
        if (replay)
        {
            uint32_t v = pos[s] < rec[s].size() ? rec[s][pos[s]] : 0;
            ++pos[s];
            return v < n ? v : v % n;
        }
        uint32_t v = (uint32_t)((rng[s].next() >> 11) % n);
        rec[s].push_back(v);
        return v;
    }
    // 0 with probability 1 - num/den, else one of 1..n-1
    uint32_t rare(stream_id s, uint32_t n, uint32_t num, uint32_t den)
    {
        if (n <= 1)
            return 0;
        if (replay)
            return pick(s, n);
        uint64_t r = rng[s].next() >> 11;
        uint32_t v = 0;
        if (r % den < num)
            v = 1 + (uint32_t)((rng[s].next() >> 11) % (n - 1));
        rec[s].push_back(v);
        return v;
    }
    bool chance(stream_id s, uint32_t num, uint32_t den) { return rare(s, 2, num, den) != 0; }

    // generator shorthands
    uint32_t g(uint32_t n) { return pick(S_GEN, n); }
    bool p(uint32_t num, uint32_t den) { return chance(S_GEN, num, den); }
    template <typename T>
    T const & of(std::vector<T> const & v) { return v[g((uint32_t)v.size())]; }
};
} // namespace sim
