// Independent JSON model: strict RFC 8259 reader, renderer, comparison, mutation.
#pragma once
#include "engine.hpp"
#include <cmath>
#include <optional>
#include <string>
#include <utility>
#include <vector>

struct J {
    enum Kind { Null, Bool, Num, Str, Arr, Obj };
    struct Member;

    Kind k = Null;
    bool b = false;
    std::string s;              // number literal, or string content
    std::vector<J> a;
    std::vector<Member> o;
    std::size_t beg = 0, end = 0;  // position in the text

    J();
    J(const J&);
    J(J&&) noexcept;
    J& operator=(const J&);
    J& operator=(J&&) noexcept;
    ~J();

    static J null();
    static J boolean(bool v);
    static J num(std::string lit);
    static J str(std::string v);
    static J arr();
    static J obj();

    const J* find(std::string_view key) const;
    void add(std::string key, J v);
    std::size_t nodes() const;
    std::size_t depth() const;
};

struct J::Member {
    std::string key;
    std::size_t kbeg = 0, kend = 0;
    J v;
};

inline const J* J::find(std::string_view key) const
{
    for (auto& m : o) {
        if (m.key == key) {
            return &m.v;
        }
    }
    return nullptr;
}

inline void J::add(std::string key, J v)
{
    Member m;
    m.key = std::move(key);
    m.v = std::move(v);
    o.push_back(std::move(m));
}

struct JText {
    bool valid = false;       // conforms to RFC 8259
    bool odd = false;         // invalid UTF-8, unpaired surrogates or NUL: behaviour not specified here
    bool dup = false;         // some object has duplicate keys
    bool numbig = false;      // some number is beyond the range of a double, or written with an exponent or a number of digits that suggests so
    bool deep = false;        // too deeply nested for this reader
    std::size_t errpos = 0;   // first position at which the text ceases to be a prefix of valid JSON
    J root;
};

JText jread(const std::string& text);
std::string jwrite(const J& j);                 // compact
std::string jwrite(const J& j, Src& src);       // random white space and escapes; sets no spans
bool jsame(const J& a, const J& b);             // same JSON value (numbers by value, members in any order)
bool jorder(const J& a, const J& b);            // for values that are the same: members in the same order
bool is_integer_literal(std::string_view lit);  // -?digits
bool exact_literal(std::string_view lit);       // short enough that its double results from one correctly rounded operation
int number_slack(std::string_view text);        // units in the last place by which a number of the text may be off; 0 if all are exact
bool jclose(const J& a, const J& b, int slack); // as jsame, with slack for numbers
inline bool exact_numbers(std::string_view text) { return number_slack(text) == 0; }
std::string utf8(unsigned cp);
bool valid_utf8(std::string_view s);

// pointer resolution as in RFC 6901
const J* jresolve(const J& root, const std::string& pointer);
std::string jescape(std::string_view name);

// generators
std::string gen_string(Src& s, bool allow_nul = true);
std::size_t gen_size(Src& s, std::size_t max);
J gen_scalar(Src& s);
J gen_json(Src& s, int depth);
std::string gen_number_literal(Src& s);
double gen_double(Src& s);
std::int64_t gen_int(Src& s, int bits, bool is_signed);
std::string gen_ref_like(Src& s);

// changes one or more places; returns a short label of what was changed
std::string jmutate(J& root, Src& s);
std::string bytes_mutate(std::string& text, Src& s);
