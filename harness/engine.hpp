// Choice-sequence engine: every random decision of a test case is one draw from a Src.
// A case is therefore a finite sequence of integers, which is recorded, replayed, and shrunk.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

struct Violation {
    std::string msg;
};

[[noreturn]] inline void violate(std::string msg) { throw Violation{std::move(msg)}; }

inline std::uint64_t mix64(std::uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

// recording area shared with the driver (survives a crash of the process)
struct Shared {
    std::uint64_t magic;
    std::uint64_t phase;       // 0 starting, 1 running, 2 done
    std::uint64_t case_index;
    std::uint64_t evaluations;
    std::uint64_t count;       // number of recorded draws
    std::uint64_t draws[1u << 18];
};

class Src {
public:
    Src() = default;

    static Src random(std::uint64_t seed, Shared* sh)
    {
        Src s;
        s.state = seed;
        s.shared = sh;
        return s;
    }

    static Src replay(std::vector<std::uint64_t> choices, Shared* sh)
    {
        Src s;
        s.fixed = std::move(choices);
        s.replaying = true;
        s.shared = sh;
        return s;
    }

    // uniform in [0, n); n >= 1
    std::uint64_t below(std::uint64_t n)
    {
        if (n <= 1) {
            return 0;
        }
        std::uint64_t v = raw();
        if (replaying) {
            if (v >= n) v %= n;
        } else {
            v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
        }
        note(v);
        return v;
    }

    std::uint64_t bits64()
    {
        std::uint64_t v = raw();
        note(v);
        return v;
    }

    // true with probability num/den; "false" is the simpler outcome
    bool chance(unsigned num, unsigned den)
    {
        return below(den) >= den - num;
    }

    std::int64_t range(std::int64_t lo, std::int64_t hi)
    {
        return lo + static_cast<std::int64_t>(below(static_cast<std::uint64_t>(hi - lo) + 1));
    }

    template<typename C>
    auto& pick(const C& c)
    {
        return c[below(std::size(c))];
    }

    const std::vector<std::uint64_t>& recorded() const { return record; }

private:
    std::uint64_t raw()
    {
        if (replaying) {
            return pos < fixed.size() ? fixed[pos++] : 0;
        }
        state += 0x9E3779B97F4A7C15ull;
        return mix64(state);
    }

    void note(std::uint64_t v)
    {
        if (record.size() >= (1u << 18) - 1) {
            throw std::length_error("case too large");
        }
        record.push_back(v);
        if (shared) {
            shared->draws[record.size() - 1] = v;
            shared->count = record.size();
        }
    }

    std::uint64_t state = 0;
    bool replaying = false;
    std::vector<std::uint64_t> fixed;
    std::size_t pos = 0;
    std::vector<std::uint64_t> record;
    Shared* shared = nullptr;
};

inline std::string printable(std::string_view s, std::size_t max = 600)
{
    std::string r;
    for (unsigned char c : s) {
        if (r.size() > max) {
            r += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        if (c >= 0x20 && c != 0x7f && c != '\\') {
            r.push_back(static_cast<char>(c));
        } else {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
    }
    return r;
}

inline std::uint64_t hash_bytes(std::string_view s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) {
        h = (h ^ c) * 1099511628211ull;
    }
    return mix64(h);
}

// per-case bookkeeping
struct Case {
    bool nontrivial = false;
    std::uint64_t key = 0;      // identifies the case for counting distinct ones
    std::vector<std::string> labels;
    std::string text;           // what was generated, written out
    bool want_text = true;

    void label(std::string s) { labels.push_back(std::move(s)); }
    void describe(const std::string& s)
    {
        key = mix64(key ^ hash_bytes(s));
        if (want_text) {
            if (!text.empty()) text += " | ";
            text += printable(s, 2000);
        }
    }
};

struct Property {
    const char* id;
    const char* rule;           // what makes a case non-trivial
    std::function<void(Src&, Case&)> run;
    std::function<std::string()> summary;  // optional JSON object with additional measured facts
};

// a recorded input: throws Violation if the property does not hold for it
struct Probe {
    const char* id;
    const char* name;
    std::function<void()> run;
};

void register_property(Property p);
void register_probe(Probe p);
int engine_main(int argc, char** argv);
