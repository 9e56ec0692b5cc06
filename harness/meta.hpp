// Reference semantics of the persistence mapping, independent of the library:
// for each supported C++ type T, Meta<T> can
//   gen  generate a value,
//   enc  produce the JSON value that denotes a C++ value,
//   dec  decide whether a JSON value conforms to the type, and to which C++ value it corresponds,
//   eq   compare two C++ values (bitwise for floating point; sharing of objects must be isomorphic).
#pragma once
#include "json.hpp"
#include <array>
#include <chrono>
#include <cstddef>
#include <deque>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <typeindex>
#include <typeinfo>
#include <unordered_map>
#include <variant>
#include <vector>

// ---------------------------------------------------------------- contexts

struct Arena {
    std::deque<std::string> strings;
    std::deque<std::shared_ptr<void>> objects;
    void clear() { strings.clear(); objects.clear(); }
};

struct G {
    Src& s;
    Arena& arena;
    int budget = 60;            // number of elements yet to be generated
    int depth = 0;
    bool share = false;         // re-use shared objects
    bool unrep = false;         // generate values that have no JSON representation
    bool under_shared = false;
    bool edge_sizes = true;
    std::size_t reused = 0;     // number of shared pointers to earlier objects
    std::size_t made_unrep = 0;
    std::map<std::type_index, std::vector<std::shared_ptr<void>>> pool;

    G(Src& s, Arena& a) : s(s), arena(a) {}

    // number of items of a container
    std::size_t count()
    {
        if (depth > 6 || budget <= 0) {
            return 0;
        }
        std::size_t n;
        if (edge_sizes && depth <= 1 && s.chance(1, 24)) {
            static const std::size_t bulk[] = {255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2049, 4095, 4096, 4097, 5000};
            n = s.chance(1, 8) ? s.pick(bulk) : gen_size(s, 300);
        } else {
            n = s.below(5);
        }
        budget -= static_cast<int>(n);
        return n;
    }
};

struct Enc {
    std::string path;
    std::map<std::pair<const void*, std::type_index>, std::string> refs;
    bool unrep = false;         // some value has no JSON representation
    std::size_t nrefs = 0;
    Src* omit = nullptr;        // leave out members that may be absent
};

struct Err {
    std::string path;
    std::size_t beg, end;
    const char* what;
};

struct Dec {
    enum Mode { PARSE, DOM };
    Mode mode = DOM;
    const J* root = nullptr;
    std::string path;
    int depth = 0;
    std::vector<Err> errors;
    bool uns = false;               // outcome not specified
    const char* uns_why = "";
    bool unknown = false;           // members that the class does not declare
    bool default_missing = false;   // a member with default was absent
    bool repeat = false;            // a set lists the same JSON value twice
    bool merged = false;            // a set lists values that are equal as items
    bool bigint = false;            // integer literal beyond the precision of the floating-point target
    std::size_t ref_ok = 0, ref_bad = 0, var_trials = 0, var_later = 0, missing = 0, missing_opt = 0;
    std::map<std::pair<const J*, std::type_index>, std::shared_ptr<void>> refs;
    std::vector<std::pair<const J*, std::type_index>> log;      // keys of refs, in the order of insertion
    std::set<std::pair<const J*, std::type_index>> ghosts;
    std::vector<std::pair<const J*, std::type_index>> pending;

    bool err(const J& j, const char* what)
    {
        errors.push_back({path.empty() ? "/" : path, j.beg, j.end, what});
        return false;
    }
    void finish()
    {
        // the target precedes in the text but is visited later: members in an order other than declared
        for (auto& key : pending) {
            if (refs.count(key) || ghosts.count(key)) unspecified("reference and members out of order");
        }
    }
    void unspecified(const char* why)
    {
        uns = true;
        uns_why = why;
    }
};

struct Eq {
    // Known finding: RapidJSON reads long decimal fractions with an error of up to two units in the last place.
    int slack = 0;
    bool ambiguous = false;     // some set holds objects of equal value: sharing cannot be told
    std::map<std::pair<const void*, std::type_index>, const void*> fwd, bwd;
};

struct Seg {
    std::string& p;
    std::size_t n;
    Seg(std::string& path, std::string_view name) : p(path), n(path.size()) { p += '/'; p += jescape(name); }
    Seg(std::string& path, std::size_t idx) : p(path), n(path.size()) { p += '/'; p += std::to_string(idx); }
    ~Seg() { p.resize(n); }
};

struct Deeper {
    int& d;
    explicit Deeper(int& depth) : d(depth) { ++d; }
    ~Deeper() { --d; }
};

// What is read here goes into an object that the read creates: a member with default that is absent has its initial value,
// whatever the target held before.
struct Fresh {
    Dec& c;
    bool before;
    explicit Fresh(Dec& dec) : c(dec), before(dec.default_missing) {}
    ~Fresh() { c.default_missing = before; }
};

template<typename T, typename Enable = void>
struct Meta;

template<typename T> J encode(const T& v, Enc& c) { return Meta<T>::enc(v, c); }

// ---------------------------------------------------------------- fundamental types

template<>
struct Meta<std::nullptr_t> {
    static void gen(G&, std::nullptr_t& v) { v = nullptr; }
    static J enc(std::nullptr_t, Enc&) { return J::null(); }
    static bool dec(const J& j, std::nullptr_t& v, Dec& c)
    {
        if (j.k != J::Null) return c.err(j, "null");
        v = nullptr;
        return true;
    }
    static bool eq(std::nullptr_t, std::nullptr_t, Eq&) { return true; }
};

template<>
struct Meta<bool> {
    static void gen(G& g, bool& v) { v = g.s.chance(1, 2); }
    static J enc(bool v, Enc&) { return J::boolean(v); }
    static bool dec(const J& j, bool& v, Dec& c)
    {
        if (j.k != J::Bool) return c.err(j, "boolean");
        v = j.b;
        return true;
    }
    static bool eq(bool a, bool b, Eq&) { return a == b; }
};

// decimal digits to integer, exact
inline bool parse_int128(std::string_view lit, __int128& out)
{
    bool neg = false;
    if (!lit.empty() && lit[0] == '-') {
        neg = true;
        lit.remove_prefix(1);
    }
    while (lit.size() > 1 && lit[0] == '0') lit.remove_prefix(1);
    if (lit.size() > 30) return false;
    __int128 v = 0;
    for (char c : lit) v = v * 10 + (c - '0');
    out = neg ? -v : v;
    return true;
}

inline bool dec_integer(const J& j, Dec& c, __int128 lo, __int128 hi, __int128& v)
{
    if (j.k != J::Num) return c.err(j, "integer");
    if (!is_integer_literal(j.s)) return c.err(j, "integer literal");
    if (!parse_int128(j.s, v) || v < lo || v > hi) return c.err(j, "integer range");
    return true;
}

template<typename T>
struct Meta<T, std::enable_if_t<std::is_integral_v<T>>> {
    static void gen(G& g, T& v) { v = static_cast<T>(gen_int(g.s, static_cast<int>(sizeof(T) * 8), std::is_signed_v<T>)); }
    static J enc(T v, Enc&)
    {
        if constexpr (std::is_signed_v<T>) {
            return J::num(std::to_string(static_cast<long long>(v)));
        } else {
            return J::num(std::to_string(static_cast<unsigned long long>(v)));
        }
    }
    static bool dec(const J& j, T& v, Dec& c)
    {
        __int128 w;
        if (!dec_integer(j, c, std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), w)) return false;
        v = static_cast<T>(w);
        return true;
    }
    static bool eq(T a, T b, Eq&) { return a == b; }
};

template<typename T>
struct Meta<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static void gen(G& g, T& v)
    {
        if (g.unrep && g.s.chance(1, 3)) {
            static const T bad[] = {std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), -std::numeric_limits<T>::quiet_NaN()};
            v = g.s.pick(bad);
            ++g.made_unrep;
            return;
        }
        double d = gen_double(g.s);
        if constexpr (sizeof(T) == 4) {
            if (std::fabs(d) > static_cast<double>(std::numeric_limits<float>::max())) {
                std::uint64_t b;
                std::memcpy(&b, &d, sizeof b);
                std::uint32_t f = static_cast<std::uint32_t>(b >> 32) & ~0x40000000u;
                float x;
                std::memcpy(&x, &f, sizeof x);
                d = x;
            }
        }
        v = static_cast<T>(d);
    }
    static J enc(T v, Enc& c)
    {
        if (!std::isfinite(v)) {
            c.unrep = true;
            return J::null();
        }
        char b[64];
        std::snprintf(b, sizeof b, "%.17g", static_cast<double>(v));
        std::string lit = b;
        if (is_integer_literal(lit)) lit += ".0";
        return J::num(lit);
    }
    static bool dec(const J& j, T& v, Dec& c)
    {
        if (j.k != J::Num) return c.err(j, "number");
        double d = std::strtod(j.s.c_str(), nullptr);
        if (!std::isfinite(d)) return c.err(j, "number range");
        if (is_integer_literal(j.s)) {
            // integers beyond the precision of the type: data loss is either rejected or rounded
            double limit = std::ldexp(1.0, std::numeric_limits<T>::digits);
            if (std::fabs(d) >= limit) {
                c.bigint = true;
                c.unspecified("integer literal beyond floating-point precision");
            }
            if (d == 0) d = 0.0;    // no negative zero among integers
        }
        if constexpr (sizeof(T) == 4) {
            const double max = static_cast<double>(std::numeric_limits<float>::max());
            if (std::fabs(d) > max) {
                if (std::fabs(d) < 3.402823567797337e38) {
                    c.unspecified("rounds to largest float");
                } else {
                    return c.err(j, "number range");
                }
            } else if (static_cast<float>(d) != std::strtof(j.s.c_str(), nullptr)) {
                c.unspecified("double rounding");
            }
            v = static_cast<T>(d);
            if (std::isinf(v)) v = d < 0 ? std::numeric_limits<T>::lowest() : std::numeric_limits<T>::max();
        } else {
            v = d;
        }
        // the library reads numbers with many digits with at least double precision
        return true;
    }
    static bool eq(T a, T b, Eq& c)
    {
        if (std::memcmp(&a, &b, sizeof a) == 0) return true;
        if (c.slack == 0 || !std::isfinite(a) || !std::isfinite(b) || std::signbit(a) != std::signbit(b)) return false;
        using I = std::conditional_t<sizeof(T) == 4, std::int32_t, std::int64_t>;
        I x, y;
        std::memcpy(&x, &a, sizeof a);
        std::memcpy(&y, &b, sizeof b);
        I d = x < y ? y - x : x - y;
        return d <= (sizeof(T) == 4 ? 1 : c.slack);
    }
};

template<>
struct Meta<std::string> {
    static void gen(G& g, std::string& v) { v = gen_string(g.s); }
    static J enc(const std::string& v, Enc&) { return J::str(v); }
    static bool dec(const J& j, std::string& v, Dec& c)
    {
        if (j.k != J::Str) return c.err(j, "string");
        v = j.s;
        return true;
    }
    static bool eq(const std::string& a, const std::string& b, Eq&) { return a == b; }
};

// ---------------------------------------------------------------- bytes, dates

inline std::string ref_base64(const std::vector<std::byte>& v)
{
    static const char* const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string r;
    for (std::size_t i = 0; i < v.size(); i += 3) {
        unsigned n = std::to_integer<unsigned>(v[i]) << 16;
        if (i + 1 < v.size()) n |= std::to_integer<unsigned>(v[i + 1]) << 8;
        if (i + 2 < v.size()) n |= std::to_integer<unsigned>(v[i + 2]);
        r += abc[n >> 18];
        r += abc[(n >> 12) & 63];
        r += i + 1 < v.size() ? abc[(n >> 6) & 63] : '=';
        r += i + 2 < v.size() ? abc[n & 63] : '=';
    }
    return r;
}

enum class Verdict { ACC, REJ, UNS };

inline Verdict ref_unbase64(std::string_view s, std::vector<std::byte>& out)
{
    auto val = [](char c) -> int {
        if (c >= 'A' && c <= 'Z') return c - 'A';
        if (c >= 'a' && c <= 'z') return c - 'a' + 26;
        if (c >= '0' && c <= '9') return c - '0' + 52;
        if (c == '+') return 62;
        if (c == '/') return 63;
        return -1;
    };
    out.clear();
    if (s.size() % 4 != 0) return Verdict::REJ;
    Verdict verdict = Verdict::ACC;
    for (std::size_t i = 0; i < s.size(); i += 4) {
        bool last = i + 4 == s.size();
        int a = val(s[i]), b = val(s[i + 1]), c = val(s[i + 2]), d = val(s[i + 3]);
        int pad = 0;
        if (last && s[i + 3] == '=') {
            d = 0;
            pad = 1;
            if (s[i + 2] == '=') {
                c = 0;
                pad = 2;
            }
        }
        if (a < 0 || b < 0 || c < 0 || d < 0) return Verdict::REJ;
        unsigned n = static_cast<unsigned>((a << 18) | (b << 12) | (c << 6) | d);
        out.push_back(static_cast<std::byte>(n >> 16));
        if (pad < 2) out.push_back(static_cast<std::byte>((n >> 8) & 255));
        if (pad < 1) out.push_back(static_cast<std::byte>(n & 255));
        if ((pad == 1 && (n & 255)) || (pad == 2 && (n & 0xffff))) verdict = Verdict::UNS;
    }
    return verdict;
}

template<>
struct Meta<std::vector<std::byte>> {
    static void gen(G& g, std::vector<std::byte>& v)
    {
        std::size_t n = gen_size(g.s, 300);
        v.clear();
        for (std::size_t i = 0; i < n; ++i) v.push_back(static_cast<std::byte>(g.s.below(256)));
        if (n > 0 && g.s.chance(1, 1500)) {
            std::size_t many = 65534 + g.s.below(5);
            while (v.size() < many) v.push_back(v[v.size() - n]);
        }
    }
    static J enc(const std::vector<std::byte>& v, Enc&) { return J::str(ref_base64(v)); }
    static bool dec(const J& j, std::vector<std::byte>& v, Dec& c)
    {
        if (j.k != J::Str) return c.err(j, "base64 string");
        Verdict r = ref_unbase64(j.s, v);
        if (r == Verdict::UNS) c.unspecified("base64 trailing bits");
        if (r == Verdict::REJ) return c.err(j, "base64");
        return true;
    }
    static bool eq(const std::vector<std::byte>& a, const std::vector<std::byte>& b, Eq&) { return a == b; }
};

// proleptic Gregorian calendar by first principles
inline bool ref_leap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int ref_month_days(long y, int m)
{
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && ref_leap(y) ? 29 : d[m - 1];
}
inline long ref_days_before_year(long y)
{
    // days from 0000-01-01 to y-01-01
    if (y == 0) return 0;
    long p = y - 1;
    return 365 * y + p / 4 - p / 100 + p / 400 + 1;
}
inline long ref_days(long y, int m, int d)
{
    long n = ref_days_before_year(y) - ref_days_before_year(1970);
    for (int i = 1; i < m; ++i) n += ref_month_days(y, i);
    return n + d - 1;
}
inline void ref_civil(long days, long& y, int& m, int& d)
{
    y = 1970 + days / 366;
    while (ref_days(y, 1, 1) > days) --y;
    while (ref_days(y + 1, 1, 1) <= days) ++y;
    long rest = days - ref_days(y, 1, 1);
    m = 1;
    while (rest >= ref_month_days(y, m)) {
        rest -= ref_month_days(y, m);
        ++m;
    }
    d = static_cast<int>(rest) + 1;
}
inline bool ref_digits(std::string_view s, int& v)
{
    v = 0;
    for (char c : s) {
        if (c < '0' || c > '9') return false;
        v = v * 10 + (c - '0');
    }
    return true;
}
inline bool ref_parse_date(std::string_view s, int& y, int& m, int& d)
{
    return s.size() == 10 && s[4] == '-' && s[7] == '-' && ref_digits(s.substr(0, 4), y) && ref_digits(s.substr(5, 2), m) && ref_digits(s.substr(8, 2), d) &&
        m >= 1 && m <= 12 && d >= 1 && d <= ref_month_days(y, m);
}
using Timestamp = std::chrono::time_point<std::chrono::system_clock>;
inline constexpr long long ts_min_s() { return std::chrono::duration_cast<std::chrono::seconds>(Timestamp::min().time_since_epoch()).count(); }
inline constexpr long long ts_max_s() { return std::chrono::duration_cast<std::chrono::seconds>(Timestamp::max().time_since_epoch()).count(); }
inline std::string ref_datetime(long long t)
{
    long long days = t / 86400, sec = t % 86400;
    if (sec < 0) {
        sec += 86400;
        --days;
    }
    long y;
    int m, d;
    ref_civil(static_cast<long>(days), y, m, d);
    char b[64];
    std::snprintf(b, sizeof b, "%04ld-%02d-%02dT%02d:%02d:%02dZ", y, m, d, static_cast<int>(sec / 3600), static_cast<int>(sec / 60 % 60), static_cast<int>(sec % 60));
    return b;
}
inline bool ref_parse_datetime(std::string_view s, long long& t)
{
    int y, m, d, hh, mm, ss;
    if (s.size() != 20 || !ref_parse_date(s.substr(0, 10), y, m, d)) return false;
    if ((s[10] != 'T' && s[10] != ' ') || s[13] != ':' || s[16] != ':' || s[19] != 'Z') return false;
    if (!ref_digits(s.substr(11, 2), hh) || !ref_digits(s.substr(14, 2), mm) || !ref_digits(s.substr(17, 2), ss)) return false;
    if (hh >= 24 || mm >= 60 || ss >= 60) return false;
    t = static_cast<long long>(ref_days(y, m, d)) * 86400 + hh * 3600 + mm * 60 + ss;
    return true;
}
inline long long gen_seconds(Src& s)
{
    switch (s.below(6)) {
        case 0: return s.range(-5, 5);
        case 1: return s.range(ts_min_s(), ts_max_s());
        case 2: {
            // around midnight of the first or last days of months, leap years included
            long y = s.range(1678, 2261);
            int m = static_cast<int>(s.range(1, 12));
            int d = s.chance(1, 2) ? 1 : ref_month_days(y, m);
            return static_cast<long long>(ref_days(y, m, d)) * 86400 + (s.chance(1, 2) ? s.range(0, 3) : 86400 - 1 - s.range(0, 3));
        }
        case 3: return ts_min_s() + s.range(0, 3);
        case 4: return ts_max_s() - s.range(0, 3);
        default: return s.range(0, 4102444800LL);
    }
}

template<>
struct Meta<Timestamp> {
    static void gen(G& g, Timestamp& v) { v = Timestamp(std::chrono::seconds(gen_seconds(g.s))); }
    static J enc(const Timestamp& v, Enc&) { return J::str(ref_datetime(std::chrono::duration_cast<std::chrono::seconds>(v.time_since_epoch()).count())); }
    static bool dec(const J& j, Timestamp& v, Dec& c)
    {
        if (j.k != J::Str) return c.err(j, "date-time string");
        long long t;
        if (!ref_parse_datetime(j.s, t)) return c.err(j, "date-time");
        if (t < ts_min_s() || t > ts_max_s()) return c.err(j, "date-time range");
        v = Timestamp(std::chrono::seconds(t));
        return true;
    }
    static bool eq(const Timestamp& a, const Timestamp& b, Eq&) { return a == b; }
};

template<>
struct Meta<std::chrono::year_month_day> {
    using T = std::chrono::year_month_day;
    static void gen(G& g, T& v)
    {
        int y;
        if (g.unrep && g.s.chance(1, 5)) {
            // a day that does not exist
            y = static_cast<int>(g.s.range(0, 9999));
            int m = static_cast<int>(g.s.range(0, 14));
            int days = m >= 1 && m <= 12 ? ref_month_days(y, m) : 0;
            int d = g.s.chance(1, 4) ? 0 : static_cast<int>(g.s.range(days + 1, days + 4));
            v = std::chrono::year(y) / m / d;
            ++g.made_unrep;
            return;
        }
        if (g.unrep && g.s.chance(1, 3)) {
            y = static_cast<int>(g.s.chance(1, 2) ? g.s.range(10000, 32767) : g.s.range(-32767, -1));
            ++g.made_unrep;
        } else {
            static const int ys[] = {2000, 0, 1, 4, 9, 10, 99, 100, 400, 999, 1000, 1582, 1600, 1677, 1678, 1900, 1969, 1970, 2024, 2100, 2261, 2262, 2263, 9996, 9999};
            y = g.s.chance(1, 2) ? ys[g.s.below(std::size(ys))] : static_cast<int>(g.s.range(0, 9999));
        }
        int m = static_cast<int>(g.s.range(1, 12));
        int days = ref_month_days(((y % 400) + 400) % 400, m);
        int d = g.s.chance(1, 4) ? days : static_cast<int>(g.s.range(1, days));
        v = std::chrono::year(y) / m / d;
    }
    static J enc(const T& v, Enc& c)
    {
        int y = static_cast<int>(v.year());
        unsigned m = static_cast<unsigned>(v.month()), d = static_cast<unsigned>(v.day());
        if (y < 0 || y > 9999 || m < 1 || m > 12 || d < 1 || d > static_cast<unsigned>(ref_month_days(y, static_cast<int>(m)))) {
            c.unrep = true;
            return J::null();
        }
        char b[64];
        std::snprintf(b, sizeof b, "%04d-%02u-%02u", y, static_cast<unsigned>(v.month()), static_cast<unsigned>(v.day()));
        return J::str(b);
    }
    static bool dec(const J& j, T& v, Dec& c)
    {
        if (j.k != J::Str) return c.err(j, "date string");
        int y, m, d;
        if (!ref_parse_date(j.s, y, m, d)) return c.err(j, "date");
        v = std::chrono::year(y) / m / d;
        return true;
    }
    static bool eq(const T& a, const T& b, Eq&) { return a == b; }
};

// ---------------------------------------------------------------- enumerations

// specialize with: static const std::vector<std::pair<E, std::string>>& names();
template<typename E>
struct EnumNames;

template<typename E, typename = void>
struct has_names : std::false_type {};
template<typename E>
struct has_names<E, std::void_t<decltype(EnumNames<E>::names())>> : std::true_type {};

template<typename E>
struct Meta<E, std::enable_if_t<std::is_enum_v<E> && !std::is_same_v<E, std::byte>>> {
    using U = std::underlying_type_t<E>;
    static void gen(G& g, E& v)
    {
        if constexpr (has_names<E>::value) {
            auto& n = EnumNames<E>::names();
            v = n[g.s.below(n.size())].first;
        } else {
            U u;
            Meta<U>::gen(g, u);
            v = static_cast<E>(u);
        }
    }
    static J enc(E v, Enc& c)
    {
        if constexpr (has_names<E>::value) {
            for (auto& n : EnumNames<E>::names()) {
                if (n.first == v) return J::str(n.second);
            }
            return J::str("");
        } else {
            return Meta<U>::enc(static_cast<U>(v), c);
        }
    }
    static bool dec(const J& j, E& v, Dec& c)
    {
        if constexpr (has_names<E>::value) {
            if (j.k != J::Str) return c.err(j, "enumeration string");
            for (auto& n : EnumNames<E>::names()) {
                if (n.second == j.s) {
                    v = n.first;
                    return true;
                }
            }
            return c.err(j, "enumeration name");
        } else {
            U u;
            if (!Meta<U>::dec(j, u, c)) return false;
            v = static_cast<E>(u);
            return true;
        }
    }
    static bool eq(E a, E b, Eq&) { return a == b; }
};

// ---------------------------------------------------------------- sequences

inline bool dec_enter(const J&, Dec& c)
{
    if (c.mode == Dec::PARSE && c.depth > 16) c.unspecified("nesting");
    if (c.mode == Dec::DOM && c.depth > 500) c.unspecified("nesting");
    return true;
}

template<typename T>
struct Meta<std::vector<T>> {
    using C = std::vector<T>;
    static void gen(G& g, C& v)
    {
        v.clear();
        std::size_t n = g.count();
        Deeper d(g.depth);
        for (std::size_t i = 0; i < n; ++i) {
            T item{};
            Meta<T>::gen(g, item);
            v.push_back(std::move(item));
        }
        if constexpr (std::is_arithmetic_v<T>) {
            // more items than a 16-bit counter can count: the same few again and again
            if (g.edge_sizes && g.depth <= 2 && n > 0 && g.s.chance(1, 3000)) {
                std::size_t many = 65534 + g.s.below(5);
                while (v.size() < many) v.push_back(v[v.size() - n]);
            }
        }
    }
    static J enc(const C& v, Enc& c)
    {
        J j = J::arr();
        std::size_t i = 0;
        for (auto&& x : v) {
            Seg s(c.path, i++);
            j.a.push_back(Meta<T>::enc(x, c));
        }
        return j;
    }
    static bool dec(const J& j, C& v, Dec& c)
    {
        if (j.k != J::Arr) return c.err(j, "array");
        Deeper d(c.depth);
        dec_enter(j, c);
        v.clear();
        bool ok = true;
        for (std::size_t i = 0; i < j.a.size(); ++i) {
            Seg s(c.path, i);
            T item{};
            Fresh fresh(c);
            ok &= Meta<T>::dec(j.a[i], item, c);
            v.push_back(std::move(item));
        }
        return ok;
    }
    static bool eq(const C& a, const C& b, Eq& c)
    {
        if (a.size() != b.size()) return false;
        for (std::size_t i = 0; i < a.size(); ++i) {
            if (!Meta<T>::eq(a[i], b[i], c)) return false;
        }
        return true;
    }
};

template<typename T, std::size_t N>
struct Meta<std::array<T, N>> {
    using C = std::array<T, N>;
    static void gen(G& g, C& v)
    {
        Deeper d(g.depth);
        for (auto& x : v) Meta<T>::gen(g, x);
    }
    static J enc(const C& v, Enc& c)
    {
        J j = J::arr();
        std::size_t i = 0;
        for (auto& x : v) {
            Seg s(c.path, i++);
            j.a.push_back(Meta<T>::enc(x, c));
        }
        return j;
    }
    static bool dec(const J& j, C& v, Dec& c)
    {
        if (j.k != J::Arr) return c.err(j, "array");
        Deeper d(c.depth);
        dec_enter(j, c);
        bool ok = true;
        if (j.a.size() != N) ok = c.err(j, "array length");
        for (std::size_t i = 0; i < j.a.size() && i < N; ++i) {
            Seg s(c.path, i);
            ok &= Meta<T>::dec(j.a[i], v[i], c);
        }
        return ok;
    }
    static bool eq(const C& a, const C& b, Eq& c)
    {
        for (std::size_t i = 0; i < N; ++i) {
            if (!Meta<T>::eq(a[i], b[i], c)) return false;
        }
        return true;
    }
};

inline void note_repeats(const J& j, Dec& c)
{
    if (j.a.size() > 100) c.merged = true;     // not looked into
    for (std::size_t i = 0; i < j.a.size() && i < 100; ++i) {
        for (std::size_t k = 0; k < i; ++k) c.repeat = c.repeat || jsame(j.a[i], j.a[k]);
    }
}

template<typename T>
struct Meta<std::set<T>> {
    using C = std::set<T>;
    static void gen(G& g, C& v)
    {
        v.clear();
        std::size_t n = g.count();
        Deeper d(g.depth);
        for (std::size_t i = 0; i < n; ++i) {
            T item{};
            Meta<T>::gen(g, item);
            if constexpr (std::is_floating_point_v<T>) {
                if (std::isnan(item)) continue;     // not a valid key of a set
            }
            v.insert(std::move(item));
        }
    }
    static J enc(const C& v, Enc& c)
    {
        J j = J::arr();
        std::size_t i = 0;
        for (auto& x : v) {
            Seg s(c.path, i++);
            j.a.push_back(Meta<T>::enc(x, c));
        }
        return j;
    }
    static bool dec(const J& j, C& v, Dec& c)
    {
        if (j.k != J::Arr) return c.err(j, "array");
        Deeper d(c.depth);
        dec_enter(j, c);
        v.clear();
        bool ok = true;
        for (std::size_t i = 0; i < j.a.size(); ++i) {
            Seg s(c.path, i);
            T item{};
            Fresh fresh(c);
            ok &= Meta<T>::dec(j.a[i], item, c);
            if (!v.insert(std::move(item)).second) c.merged = true;
        }
        note_repeats(j, c);
        return ok;
    }
    static bool eq(const C& a, const C& b, Eq& c)
    {
        if (a.size() != b.size()) return false;
        auto i = a.begin();
        auto k = b.begin();
        for (; i != a.end(); ++i, ++k) {
            if (!Meta<T>::eq(*i, *k, c)) return false;
        }
        return true;
    }
};

template<typename C, std::size_t N>
struct TupleMeta {
    static void gen(G& g, C& v)
    {
        Deeper d(g.depth);
        each([&](auto I) { Meta<std::tuple_element_t<I, C>>::gen(g, std::get<I>(v)); });
    }
    static J enc(const C& v, Enc& c)
    {
        J j = J::arr();
        each([&](auto I) {
            Seg s(c.path, static_cast<std::size_t>(I));
            j.a.push_back(Meta<std::tuple_element_t<I, C>>::enc(std::get<I>(v), c));
        });
        return j;
    }
    static bool dec(const J& j, C& v, Dec& c)
    {
        if (j.k != J::Arr) return c.err(j, "array");
        Deeper d(c.depth);
        dec_enter(j, c);
        bool ok = true;
        if (j.a.size() != N) ok = c.err(j, "tuple length");
        each([&](auto I) {
            if (I < j.a.size()) {
                Seg s(c.path, static_cast<std::size_t>(I));
                ok &= Meta<std::tuple_element_t<I, C>>::dec(j.a[I], std::get<I>(v), c);
            }
        });
        return ok;
    }
    static bool eq(const C& a, const C& b, Eq& c)
    {
        bool ok = true;
        each([&](auto I) { ok = ok && Meta<std::tuple_element_t<I, C>>::eq(std::get<I>(a), std::get<I>(b), c); });
        return ok;
    }
private:
    template<typename F>
    static void each(F f) { each_impl(f, std::make_index_sequence<N>()); }
    template<typename F, std::size_t... I>
    static void each_impl(F& f, std::index_sequence<I...>) { (f(std::integral_constant<std::size_t, I>()), ...); }
};

template<typename A, typename B>
struct Meta<std::pair<A, B>> : TupleMeta<std::pair<A, B>, 2> {};
template<typename... T>
struct Meta<std::tuple<T...>> : TupleMeta<std::tuple<T...>, sizeof...(T)> {};

// ---------------------------------------------------------------- dictionaries

inline std::string gen_key(G& g, bool under_shared)
{
    std::string k = gen_string(g.s);
    if (under_shared && k == "$ref") k = "ref";
    return k;
}

template<typename C>
struct MapMeta {
    using T = typename C::mapped_type;
    static void gen(G& g, C& v)
    {
        bool us = std::exchange(g.under_shared, false);
        v.clear();
        std::size_t n = g.count();
        Deeper d(g.depth);
        for (std::size_t i = 0; i < n; ++i) {
            std::string key = gen_key(g, us);
            T item{};
            Meta<T>::gen(g, item);
            v.insert_or_assign(key, std::move(item));
        }
    }
    static J enc(const C& v, Enc& c)
    {
        J j = J::obj();
        for (auto& [key, x] : v) {
            Seg s(c.path, key);
            j.add(std::string(key), Meta<T>::enc(x, c));
        }
        return j;
    }
    static bool dec(const J& j, C& v, Dec& c)
    {
        if (j.k != J::Obj) return c.err(j, "object");
        Deeper d(c.depth);
        dec_enter(j, c);
        v.clear();
        bool ok = true;
        for (auto& m : j.o) {
            Seg s(c.path, m.key);
            T item{};
            Fresh fresh(c);
            ok &= Meta<T>::dec(m.v, item, c);
            v[m.key] = std::move(item);
        }
        return ok;
    }
    static bool eq(const C& a, const C& b, Eq& c)
    {
        if (a.size() != b.size()) return false;
        // visit in the order of keys, so that sharing is compared in a fixed order
        std::map<std::string_view, const T*> x, y;
        for (auto& [k, i] : a) x[k] = &i;
        for (auto& [k, i] : b) y[k] = &i;
        auto q = y.begin();
        for (auto p = x.begin(); p != x.end(); ++p, ++q) {
            if (p->first != q->first || !Meta<T>::eq(*p->second, *q->second, c)) return false;
        }
        return true;
    }
};

template<typename T>
struct Meta<std::map<std::string, T>> : MapMeta<std::map<std::string, T>> {};
template<typename T>
struct Meta<std::unordered_map<std::string, T>> : MapMeta<std::unordered_map<std::string, T>> {};

// ---------------------------------------------------------------- pointers

template<typename T>
struct Meta<std::unique_ptr<T>> {
    static void gen(G& g, std::unique_ptr<T>& v)
    {
        v = std::make_unique<T>();
        Meta<T>::gen(g, *v);
    }
    static J enc(const std::unique_ptr<T>& v, Enc& c)
    {
        if (!v) {
            c.unrep = true;
            return J::str("(null pointer)");
        }
        return Meta<T>::enc(*v, c);
    }
    static bool dec(const J& j, std::unique_ptr<T>& v, Dec& c)
    {
        v = std::make_unique<T>();
        Fresh fresh(c);
        return Meta<T>::dec(j, *v, c);
    }
    static bool eq(const std::unique_ptr<T>& a, const std::unique_ptr<T>& b, Eq& c) { return a && b && Meta<T>::eq(*a, *b, c); }
};

template<typename T>
struct Meta<std::shared_ptr<T>> {
    static void gen(G& g, std::shared_ptr<T>& v)
    {
        auto& pool = g.pool[typeid(T)];
        if (g.share && !pool.empty() && g.s.chance(1, 2)) {
            v = std::static_pointer_cast<T>(pool[g.s.below(pool.size())]);
            ++g.reused;
            return;
        }
        v = std::make_shared<T>();
        if (g.share && g.s.chance(1, 6)) {
            // a pointer that does not own the object
            g.arena.objects.push_back(v);
            v = std::shared_ptr<T>(std::shared_ptr<T>(), v.get());
        }
        g.under_shared = true;
        Meta<T>::gen(g, *v);
        g.under_shared = false;
        g.pool[typeid(T)].push_back(v);
    }
    static J enc(const std::shared_ptr<T>& v, Enc& c)
    {
        if (!v) {
            c.unrep = true;     // left behind by a failed read
            return J::str("(null pointer)");
        }
        auto key = std::make_pair(static_cast<const void*>(v.get()), std::type_index(typeid(T)));
        auto it = c.refs.find(key);
        if (it != c.refs.end()) {
            ++c.nrefs;
            J j = J::obj();
            j.add("$ref", J::str(it->second));
            return j;
        }
        J j = Meta<T>::enc(*v, c);
        c.refs.emplace(key, c.path);
        return j;
    }
    static bool dec(const J& j, std::shared_ptr<T>& v, Dec& c)
    {
        v = std::make_shared<T>();
        if (c.mode == Dec::DOM && j.k == J::Obj) {
            if (const J* ref = j.find("$ref")) {
                if (j.o.size() > 1) c.unspecified("$ref with siblings");
                if (ref->k != J::Str) {
                    ++c.ref_bad;
                    return c.err(j, "reference");
                }
                if (!ref->s.empty() && ref->s[0] == '#') c.unspecified("URI fragment");
                const J* target = c.root ? jresolve(*c.root, ref->s) : nullptr;
                if (!target) {
                    ++c.ref_bad;
                    return c.err(j, "unresolved reference");
                }
                auto key = std::make_pair(target, std::type_index(typeid(T)));
                auto it = c.refs.find(key);
                if (it == c.refs.end()) {
                    if (c.ghosts.count(key)) c.unspecified("reference into a discarded alternative");
                    c.pending.push_back(key);
                    ++c.ref_bad;
                    return c.err(j, "reference to something else");
                }
                if (target->beg > j.beg) c.unspecified("reference and members out of order");
                v = std::static_pointer_cast<T>(it->second);
                ++c.ref_ok;
                return true;
            }
        }
        Fresh fresh(c);
        if (!Meta<T>::dec(j, *v, c)) return false;
        auto key = std::make_pair(&j, std::type_index(typeid(T)));
        if (c.refs.insert_or_assign(key, v).second) c.log.push_back(key);
        return true;
    }
    static bool eq(const std::shared_ptr<T>& a, const std::shared_ptr<T>& b, Eq& c)
    {
        if (!a || !b) return false;
        if (c.ambiguous) return Meta<T>::eq(*a, *b, c);
        std::type_index t(typeid(T));
        auto i = c.fwd.find({a.get(), t});
        auto k = c.bwd.find({b.get(), t});
        if (i != c.fwd.end() || k != c.bwd.end()) {
            return i != c.fwd.end() && k != c.bwd.end() && i->second == b.get() && k->second == a.get();
        }
        c.fwd[{a.get(), t}] = b.get();
        c.bwd[{b.get(), t}] = a.get();
        return Meta<T>::eq(*a, *b, c);
    }
};

// a set of shared objects is ordered by address: objects are told apart by their value
template<typename T>
struct Meta<std::set<std::shared_ptr<T>>> {
    using C = std::set<std::shared_ptr<T>>;
    static void gen(G& g, C& v)
    {
        v.clear();
        std::size_t n = std::min<std::size_t>(g.count(), 40);   // comparison takes more than quadratic time
        Deeper d(g.depth);
        for (std::size_t i = 0; i < n; ++i) {
            std::shared_ptr<T> p;
            Meta<std::shared_ptr<T>>::gen(g, p);
            bool dup = false;
            for (auto& q : v) {
                Eq e;
                dup = dup || q == p || Meta<T>::eq(*q, *p, e);
            }
            if (!dup) v.insert(p);
        }
    }
    static J enc(const C& v, Enc& c)
    {
        J j = J::arr();
        std::size_t i = 0;
        for (auto& x : v) {
            Seg s(c.path, i++);
            j.a.push_back(Meta<std::shared_ptr<T>>::enc(x, c));
        }
        return j;
    }
    static bool dec(const J& j, C& v, Dec& c)
    {
        if (j.k != J::Arr) return c.err(j, "array");
        Deeper d(c.depth);
        dec_enter(j, c);
        v.clear();
        bool ok = true;
        for (std::size_t i = 0; i < j.a.size(); ++i) {
            Seg s(c.path, i);
            std::shared_ptr<T> p;
            ok &= Meta<std::shared_ptr<T>>::dec(j.a[i], p, c);
            if (!v.insert(p).second) c.merged = true;
        }
        note_repeats(j, c);
        return ok;
    }
    static bool eq(const C& a, const C& b, Eq& c)
    {
        if (a.size() != b.size()) return false;
        // documents may hold equal values several times: match by sharing, then by value
        for (auto i = a.begin(); i != a.end(); ++i) {
            for (auto k = std::next(i); k != a.end(); ++k) {
                Eq e;
                e.slack = c.slack;
                if (*i && *k && Meta<T>::eq(**i, **k, e)) c.ambiguous = true;
            }
        }
        std::set<const T*> used;
        for (auto& p : a) {
            bool found = false;
            for (auto& q : b) {
                if (used.count(q.get())) continue;
                Eq copy = c;
                if (Meta<std::shared_ptr<T>>::eq(p, q, copy)) {
                    c = copy;
                    used.insert(q.get());
                    found = true;
                    break;
                }
            }
            if (!found) return false;
        }
        return true;
    }
};

// ---------------------------------------------------------------- variant

template<typename... Ts>
struct Meta<std::variant<Ts...>> {
    using C = std::variant<Ts...>;
    static void gen(G& g, C& v)
    {
        std::size_t i = g.s.below(sizeof...(Ts));
        gen_at(g, v, i, std::make_index_sequence<sizeof...(Ts)>());
    }
    static J enc(const C& v, Enc& c)
    {
        return std::visit([&](auto&& x) { return Meta<std::decay_t<decltype(x)>>::enc(x, c); }, v);
    }
    static bool dec(const J& j, C& v, Dec& c)
    {
        bool ok = dec_at(j, v, c, std::make_index_sequence<sizeof...(Ts)>());
        if (!ok) return c.err(j, "no alternative matches");
        return true;
    }
    static bool eq(const C& a, const C& b, Eq& c)
    {
        if (a.index() != b.index()) return false;
        return eq_at(a, b, c, std::make_index_sequence<sizeof...(Ts)>());
    }
private:
    template<std::size_t... I>
    static void gen_at(G& g, C& v, std::size_t i, std::index_sequence<I...>)
    {
        ((i == I ? (gen_one<I>(g, v), 0) : 0), ...);
    }
    template<std::size_t I>
    static void gen_one(G& g, C& v)
    {
        std::variant_alternative_t<I, C> x{};
        Meta<std::variant_alternative_t<I, C>>::gen(g, x);
        v.template emplace<I>(std::move(x));
    }
    template<std::size_t... I>
    static bool dec_at(const J& j, C& v, Dec& c, std::index_sequence<I...>)
    {
        return (... || dec_one<I>(j, v, c));
    }
    template<std::size_t I>
    static bool dec_one(const J& j, C& v, Dec& c)
    {
        std::variant_alternative_t<I, C> x{};
        std::size_t n = c.errors.size();
        std::size_t logged = c.log.size();
        Fresh fresh(c);
        ++c.var_trials;
        if (Meta<std::variant_alternative_t<I, C>>::dec(j, x, c)) {
            if (I > 0) ++c.var_later;
            v.template emplace<I>(std::move(x));
            return true;
        }
        c.errors.resize(n);
        for (; c.log.size() > logged; c.log.pop_back()) {
            c.ghosts.insert(c.log.back());
            c.refs.erase(c.log.back());
        }
        return false;
    }
    template<std::size_t... I>
    static bool eq_at(const C& a, const C& b, Eq& c, std::index_sequence<I...>)
    {
        bool r = true;
        ((a.index() == I ? (r = Meta<std::variant_alternative_t<I, C>>::eq(std::get<I>(a), std::get<I>(b), c), 0) : 0), ...);
        return r;
    }
};

// ---------------------------------------------------------------- classes

enum class Kind { Required, Default };

template<typename C, typename T>
struct Field {
    std::string_view name;
    T C::*ptr;
    Kind kind;
};

template<typename C, typename T>
constexpr Field<C, T> fld(std::string_view name, T C::*ptr, Kind kind = Kind::Required) { return {name, ptr, kind}; }

template<typename T> struct is_optional : std::false_type {};
template<typename T> struct is_optional<std::optional<T>> : std::true_type {};

template<typename T>
struct Meta<T, std::void_t<decltype(T::fields())>> {
    static void gen(G& g, T& v)
    {
        g.under_shared = false;
        Deeper d(g.depth);
        each([&](auto& f) {
            auto& m = v.*f.ptr;
            using M = std::remove_cvref_t<decltype(m)>;
            if constexpr (is_optional<M>::value) {
                bool some = g.depth < 8 && g.budget > 0 && g.s.chance(1, 2);
                if (some) {
                    --g.budget;
                    typename M::value_type x{};
                    Meta<typename M::value_type>::gen(g, x);
                    m = std::move(x);
                } else {
                    m.reset();
                }
            } else {
                Meta<M>::gen(g, m);
            }
        });
    }
    static J enc(const T& v, Enc& c)
    {
        J j = J::obj();
        each([&](auto& f) {
            auto& m = v.*f.ptr;
            using M = std::remove_cvref_t<decltype(m)>;
            Seg s(c.path, f.name);
            if constexpr (is_optional<M>::value) {
                if (m) j.add(std::string(f.name), Meta<typename M::value_type>::enc(*m, c));
            } else {
                if (f.kind == Kind::Default && c.omit && c.omit->chance(2, 3)) return;
                j.add(std::string(f.name), Meta<M>::enc(m, c));
            }
        });
        return j;
    }
    static bool dec(const J& j, T& v, Dec& c)
    {
        if (j.k != J::Obj) return c.err(j, "object");
        Deeper d(c.depth);
        dec_enter(j, c);
        bool ok = true;
        std::size_t known = 0;
        each([&](auto& f) {
            auto& m = v.*f.ptr;
            using M = std::remove_cvref_t<decltype(m)>;
            const J* x = j.find(f.name);
            if constexpr (is_optional<M>::value) {
                if (x) {
                    ++known;
                    Seg s(c.path, f.name);
                    typename M::value_type item{};
                    Fresh fresh(c);
                    ok &= Meta<typename M::value_type>::dec(*x, item, c);
                    m = std::move(item);
                } else {
                    ++c.missing_opt;
                    m.reset();
                }
            } else {
                if (x) {
                    ++known;
                    Seg s(c.path, f.name);
                    ok &= Meta<M>::dec(*x, m, c);
                } else if (f.kind == Kind::Default) {
                    c.default_missing = true;
                } else {
                    ++c.missing;
                    ok = c.err(j, "missing required property");
                }
            }
        });
        if (known != j.o.size()) {
            c.unknown = true;
            if (c.mode == Dec::PARSE) {
                for (auto& m : j.o) {
                    bool found = false;
                    each([&](auto& f) { found = found || f.name == m.key; });
                    if (!found) {
                        c.errors.push_back({c.path.empty() ? "/" : c.path, m.kbeg, m.kend + 1, "unknown property"});
                        ok = false;
                    }
                }
            }
        }
        return ok;
    }
    static bool eq(const T& a, const T& b, Eq& c)
    {
        bool ok = true;
        each([&](auto& f) {
            if (!ok) return;
            auto& x = a.*f.ptr;
            auto& y = b.*f.ptr;
            using M = std::remove_cvref_t<decltype(x)>;
            if constexpr (is_optional<M>::value) {
                ok = x.has_value() == y.has_value() && (!x || Meta<typename M::value_type>::eq(*x, *y, c));
            } else {
                ok = Meta<M>::eq(x, y, c);
            }
        });
        return ok;
    }

    template<typename F>
    static void each(F f)
    {
        std::apply([&](auto&&... x) { (f(x), ...); }, T::fields());
    }
};

// ---------------------------------------------------------------- types that can only be written

template<>
struct Meta<std::string_view> {
    static void gen(G& g, std::string_view& v)
    {
        if (g.s.chance(1, 8)) {
            v = std::string_view();     // null data pointer
            return;
        }
        g.arena.strings.push_back(gen_string(g.s));
        v = g.arena.strings.back();
        if (v.size() > 2 && g.s.chance(1, 3)) v = v.substr(0, v.size() - 1);   // not terminated
        if (!valid_utf8(v)) v = g.arena.strings.back();
    }
    static J enc(const std::string_view& v, Enc&) { return J::str(std::string(v)); }
};

// string literals
template<std::size_t N>
struct Meta<char[N]> {
    static void gen(G& g, char (&v)[N])
    {
        std::string s;
        while (s.size() < N - 1) s += g.s.chance(1, 6) ? std::string(1 + g.s.below(2), '\0') : gen_string(g.s) + " ";
        s.resize(N - 1);
        while (!valid_utf8(s)) {
            // a character that was cut
            std::size_t i = s.size();
            while (i > 0 && (s[i - 1] & 0x80)) s[--i] = '~';
        }
        std::memcpy(v, s.c_str(), N);
    }
    static J enc(const char (&v)[N], Enc&) { return J::str(std::string(v, N - 1)); }
};

template<typename T>
struct Meta<T*> {
    static void gen(G& g, T*& v)
    {
        auto p = std::make_shared<std::remove_const_t<T>>();
        Meta<std::remove_const_t<T>>::gen(g, *p);
        g.arena.objects.push_back(p);
        v = p.get();
    }
    static J enc(T* const& v, Enc& c) { return Meta<std::remove_const_t<T>>::enc(*v, c); }
};

template<typename K, typename T>
struct DictMeta {
    using C = std::vector<std::pair<K, T>>;
    static void gen(G& g, C& v)
    {
        v.clear();
        std::size_t n = g.count();
        Deeper d(g.depth);
        for (std::size_t i = 0; i < n; ++i) {
            K key;
            Meta<K>::gen(g, key);
            bool dup = false;
            for (auto& p : v) dup = dup || p.first == key;
            if (dup) continue;
            T item{};
            Meta<T>::gen(g, item);
            v.emplace_back(key, std::move(item));
        }
    }
    static J enc(const C& v, Enc& c)
    {
        J j = J::obj();
        for (auto& [key, x] : v) {
            Seg s(c.path, key);
            j.add(std::string(key), Meta<T>::enc(x, c));
        }
        return j;
    }
};
template<typename T>
struct Meta<std::vector<std::pair<std::string_view, T>>> : DictMeta<std::string_view, T> {};
template<typename T>
struct Meta<std::vector<std::pair<std::string, T>>> : DictMeta<std::string, T> {};

template<typename C>
struct LitMapMeta {
    using T = typename C::mapped_type;
    static void gen(G& g, C& v)
    {
        v.clear();
        std::size_t n = g.count();
        Deeper d(g.depth);
        for (std::size_t i = 0; i < n; ++i) {
            std::string_view key;
            Meta<std::string_view>::gen(g, key);
            T item{};
            Meta<T>::gen(g, item);
            v.insert_or_assign(key, std::move(item));
        }
    }
    static J enc(const C& v, Enc& c) { return MapMeta<C>::enc(v, c); }
};
template<typename T>
struct Meta<std::map<std::string_view, T>> : LitMapMeta<std::map<std::string_view, T>> {};
template<typename T>
struct Meta<std::unordered_map<std::string_view, T>> : LitMapMeta<std::unordered_map<std::string_view, T>> {};
