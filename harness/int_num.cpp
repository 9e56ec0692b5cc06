// The predicate that decides whether a number fits a type, and the conversion of number literals.
#include "zoo_util.hpp"
#ifndef FALLBACK
#include <persistence/persistence.hpp>
#include <persistence/number.hpp>
#include <persistence/detail/numeric_traits.hpp>
#include <rapidjson/reader.h>
#include <cstring>
#include <memory>

namespace {

/** the exact value of an integer literal of at most 30 digits */
bool exact_integer(const std::string& t, __int128& v)
{
    std::size_t i = t[0] == '-';
    if (t.size() - i > 30 || t.find_first_not_of("0123456789", i) != std::string::npos) return false;
    v = 0;
    for (; i < t.size(); ++i) v = v * 10 + (t[i] - '0');
    if (t[0] == '-') v = -v;
    return true;
}

/** reads with numbers passed on as literals, as the comment in the library invites to */
template<typename T>
bool parse_raw(const std::string& text, T& value)
{
    persistence::JsonParseEventDispatcher dispatcher;
    persistence::ReaderContext context(dispatcher);
    context.emplace<persistence::JsonParser<T>>(context, value);
    rapidjson::Reader reader;
    rapidjson::StringStream stream(text.data());
    return !reader.Parse<rapidjson::kParseNumbersAsStringsFlag>(stream, dispatcher).IsError();
}

template<typename T> const char* type_name();
#define NAME(T) template<> const char* type_name<T>() { return #T; }
NAME(signed char) NAME(unsigned char) NAME(char) NAME(short) NAME(unsigned short) NAME(int) NAME(unsigned int) NAME(long) NAME(unsigned long) NAME(long long) NAME(unsigned long long) NAME(float) NAME(double)
#undef NAME

template<typename T, typename V>
void assignable_one(Src& s, Case& c)
{
    V v;
    if constexpr (std::is_integral_v<V>) {
        v = static_cast<V>(gen_int(s, static_cast<int>(sizeof(V) * 8), std::is_signed_v<V>));
    } else {
        double d = gen_double(s);
        if (s.chance(1, 3)) {
            static const double near[] = {3.4028234663852886e38, 3.4028235677973366e38, -3.4028234663852886e38, 3.402823466385289e38, -3.402823466385289e38, 1e39, -1e39, 0.0, -0.0};
            d = near[s.below(std::size(near))];
        }
        if (sizeof(V) == 4 && std::fabs(d) > 3.4028234663852886e38) d = 1;
        v = static_cast<V>(d);
    }
    bool want;
    bool skip = false;
    if constexpr (std::is_integral_v<T> && std::is_integral_v<V>) {
        __int128 w = v;
        want = w >= static_cast<__int128>(std::numeric_limits<T>::min()) && w <= static_cast<__int128>(std::numeric_limits<T>::max());
    } else if constexpr (std::is_integral_v<T>) {
        want = false;   // fractions are never integers
    } else if constexpr (std::is_integral_v<V>) {
        // every integer below the mantissa limit is exact; beyond, integers are not assignable
        __int128 w = v, lim = static_cast<__int128>(1) << std::numeric_limits<T>::digits;
        want = w > -lim && w < lim;
        if (std::numeric_limits<T>::digits >= std::numeric_limits<V>::digits) want = true;
        skip = w == lim || w == -lim;   // exact all the same
    } else {
        want = std::fabs(static_cast<double>(v)) <= static_cast<double>(std::numeric_limits<T>::max());
        skip = !want && std::fabs(static_cast<double>(v)) <= 3.4028235677973366e38;    // rounds to the largest float
    }
    c.describe(std::string("is_assignable<") + type_name<T>() + ">(" + type_name<V>() + " " + std::to_string(v) + ")");
    c.label("is_assignable");
    c.nontrivial = true;
    bool got = persistence::is_assignable<T>(v);
    if (!skip && got != want) violate(std::string("is_assignable<") + type_name<T>() + ">(" + type_name<V>() + " " + std::to_string(v) + ") is " + (got ? "true" : "false"));
}

enum class Small : signed char {};
enum class Wide : unsigned long long {};

/** whether that mode works for the type at all */
template<typename T>
bool raw_works(const char* text)
{
    static const bool works = [&] { T v{}; return parse_raw(text, v); }();
    return works;
}

/** number literals that are converted by the library itself */
template<typename T>
void literal_one(Src& s, Case& c)
{
    std::string t = gen_number_literal(s);
    if (s.chance(1, 2) && std::is_integral_v<T>) {
        // around the limits of the type
        __int128 v = s.chance(1, 2) ? static_cast<__int128>(std::numeric_limits<T>::max()) : static_cast<__int128>(std::numeric_limits<T>::min());
        v += s.range(-2, 2);
        bool neg = v < 0;
        if (neg) v = -v;
        t.clear();
        do {
            t.insert(t.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
            v /= 10;
        } while (v);
        if (neg) t.insert(t.begin(), '-');
    }
    c.describe(std::string("number literal ") + t + " as " + type_name<T>());
    c.label("literal");
    c.nontrivial = true;
    if (t == "-0" && std::is_unsigned_v<T>) return;
    bool want;
    T w{};
    if constexpr (std::is_integral_v<T>) {
        __int128 v;
        want = exact_integer(t, v) && v >= static_cast<__int128>(std::numeric_limits<T>::min()) && v <= static_cast<__int128>(std::numeric_limits<T>::max());
        if (want) w = static_cast<T>(v);
    } else {
        if constexpr (sizeof(T) == 4) w = std::strtof(t.c_str(), nullptr);
        else w = std::strtod(t.c_str(), nullptr);
        want = std::isfinite(w);
    }
    auto judge = [&](const char* how, bool got, const T* v) {
        if (got != want) violate(std::string(how) + (got ? " accepts" : " rejects") + " the number " + t + " for " + type_name<T>());
        if (got && (!v || std::memcmp(v, &w, sizeof w) != 0)) violate(std::string(how) + " reads the number " + t + " for " + type_name<T>() + " as " + (v ? std::to_string(*v) : "nothing"));
    };
    {
        // memory right behind the literal must not be touched, but for the NUL
        std::unique_ptr<char[]> buf(new char[t.size() + 1]);
        std::memcpy(buf.get(), t.c_str(), t.size() + 1);
        T v{};
        bool got = persistence::parse_number(std::string_view(buf.get(), t.size()), v);
        judge("parse_number", got, &v);
        // not a number at all
        static const char* const bad[] = {"", "-", "x", "1x", "1 ", "--1", "1..2", "1e", "nil", "0-1"};
        std::string b = s.chance(1, 2) ? bad[s.below(std::size(bad))] : t + "x";
        if (std::is_integral_v<T> && persistence::parse_number(std::string_view(b), v)) violate("parse_number accepts '" + b + "' for " + type_name<T>());
    }
    {
        // RapidJSON refuses exponents such as 0e999 by itself
        rapidjson::Reader reader;
        rapidjson::StringStream stream(t.c_str());
        rapidjson::BaseReaderHandler<> nothing;
        if (reader.Parse<rapidjson::kParseNumbersAsStringsFlag>(stream, nothing).IsError()) return;
    }
    if (raw_works<T>("1")) {
        T v{};
        bool got = parse_raw(t, v);
        judge("reader of literals", got, &v);
    }
    if (raw_works<std::vector<T>>("[1]")) {
        std::vector<T> v;
        bool got = parse_raw("[1," + t + ",2]", v);
        judge("reader of literals in a vector", got, got && v.size() == 3 && v[0] == 1 && v[2] == 2 ? &v[1] : nullptr);
    }
    if constexpr (std::is_integral_v<T>) if (raw_works<std::set<T>>("[1]")) {
        std::set<T> v;
        bool got = parse_raw("[" + t + "]", v);
        judge("reader of literals in a set", got, got && v.size() == 1 ? &*v.begin() : nullptr);
    }
    auto as_enum = [&](auto e) {
        using E = decltype(e);
        if (!raw_works<E>("1")) return;
        bool got = parse_raw(t, e);
        T v{};
        if constexpr (std::is_same_v<T, std::underlying_type_t<E>>) {
            v = static_cast<T>(e);
            judge("reader of literals for an enumeration", got, &v);
        }
    };
    if constexpr (std::is_same_v<T, signed char>) as_enum(Small{});
    if constexpr (std::is_same_v<T, unsigned long long>) as_enum(Wide{});
}

template<typename... T>
void literal_any(Src& s, Case& c)
{
    std::size_t k = s.below(sizeof...(T));
    std::size_t i = 0;
    ((i++ == k ? literal_one<T>(s, c) : void()), ...);
}

template<typename T, typename... V>
void assignable_to(Src& s, Case& c)
{
    std::size_t k = s.below(sizeof...(V));
    std::size_t i = 0;
    ((i++ == k ? assignable_one<T, V>(s, c) : void()), ...);
}

template<typename... T>
void assignable_any(Src& s, Case& c)
{
    std::size_t k = s.below(sizeof...(T));
    std::size_t i = 0;
    ((i++ == k ? assignable_to<T, int, unsigned, long long, unsigned long long, float, double, short, unsigned char, signed char, long, unsigned long, unsigned short>(s, c) : void()), ...);
}

}

bool check_assignable(Src& s, Case& c)
{
    if (s.chance(1, 3)) {
        literal_any<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double>(s, c);
        return true;
    }
    assignable_any<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, float, double>(s, c);
    return true;
}
#else
bool check_assignable(Src&, Case&) { return false; }
#endif
