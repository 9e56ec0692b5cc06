// The lookup table of member names.
#include "zoo_util.hpp"
#ifndef FALLBACK
#include <persistence/detail/perfect_hash.hpp>
#include <algorithm>

// ---------------------------------------------------------------- lookup of member names

namespace {

std::string gen_name(Src& s, const std::vector<std::string>& have)
{
    if (!have.empty() && s.chance(1, 3)) {
        std::string k = have[s.below(have.size())];
        switch (s.below(4)) {
            case 0: k += static_cast<char>('a' + s.below(3)); break;
            case 1: if (!k.empty()) k.pop_back(); break;
            case 2: if (!k.empty()) k[s.below(k.size())] = static_cast<char>(s.below(256)); break;
            default: std::reverse(k.begin(), k.end());
        }
        return k;
    }
    std::string k;
    static const std::size_t lens[] = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 64, 0};
    std::size_t n = s.chance(1, 2) ? 1 + s.below(4) : lens[s.below(std::size(lens))];
    bool narrow = s.chance(1, 2);
    for (std::size_t i = 0; i < n; ++i) k += narrow ? static_cast<char>('a' + s.below(3)) : static_cast<char>(s.below(256));
    return k;
}

template<std::size_t N>
void hash_one(Src& s, Case& c)
{
    std::vector<std::string> names;
    std::size_t tries = 0;
    while (names.size() < N) {
        std::string k = gen_name(s, names);
        if (++tries > 4 * N) k += "#" + std::to_string(names.size());
        if (std::find(names.begin(), names.end(), k) == names.end()) names.push_back(k);
    }
    std::string text;
    for (auto& n : names) text += (text.empty() ? "" : ",") + n;
    c.describe("PerfectHash<" + std::to_string(N) + "> " + text);
    c.label("lookup table of " + std::to_string(N));
    c.nontrivial = true;
    // each name occupies memory of its own, without terminator
    std::vector<std::unique_ptr<char[]>> keep;
    std::array<std::string_view, N> views;
    for (std::size_t i = 0; i < N; ++i) {
        keep.emplace_back(new char[names[i].size()]);
        std::copy(names[i].begin(), names[i].end(), keep.back().get());
        views[i] = std::string_view(keep.back().get(), names[i].size());
    }
    persistence::PerfectHash<N> table(views);
    for (std::size_t i = 0; i < N; ++i) {
        std::string copy = names[i];
        std::size_t k = table.index(std::string_view(copy));
        if (k != i) violate("PerfectHash<" + std::to_string(N) + "> finds " + names[i] + " at " + std::to_string(k) + " instead of " + std::to_string(i) + " among " + text);
        if (table.index(views[i]) != i) violate("PerfectHash lookup depends on the address of the key");
    }
    for (int i = 0; i < 8; ++i) {
        // other names: the result is not specified but has to be usable as an index
        std::string k = gen_name(s, names);
        if (table.index(k) >= N) violate("PerfectHash<" + std::to_string(N) + "> gives an index out of bounds for " + k);
    }
}

template<std::size_t... N>
void hash_any(Src& s, Case& c, std::index_sequence<N...>)
{
    std::size_t k = s.below(sizeof...(N));
    std::size_t i = 0;
    ((i++ == k ? hash_one<N>(s, c) : void()), ...);
}

}

bool check_hash(Src& s, Case& c)
{
    hash_any(s, c, std::index_sequence<1, 2, 3, 4, 5, 6, 7, 8, 10, 13, 16, 20, 24, 31, 32, 33, 48, 63, 64, 65, 100>());
    return true;
}
#else
bool check_hash(Src&, Case&) { return false; }
#endif
