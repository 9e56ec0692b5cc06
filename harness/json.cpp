#include "json.hpp"
#include <algorithm>
#include <array>
#include <limits>
#include <set>

J::J() = default;
J::J(const J&) = default;
J::J(J&&) noexcept = default;
J& J::operator=(const J&) = default;
J& J::operator=(J&&) noexcept = default;
J::~J() = default;
J J::null() { return J(); }
J J::boolean(bool v) { J j; j.k = Bool; j.b = v; return j; }
J J::num(std::string lit) { J j; j.k = Num; j.s = std::move(lit); return j; }
J J::str(std::string v) { J j; j.k = Str; j.s = std::move(v); return j; }
J J::arr() { J j; j.k = Arr; return j; }
J J::obj() { J j; j.k = Obj; return j; }

std::size_t J::nodes() const
{
    std::size_t n = 1;
    for (auto& x : a) n += x.nodes();
    for (auto& m : o) n += m.v.nodes();
    return n;
}

std::size_t J::depth() const
{
    std::size_t d = 0;
    for (auto& x : a) d = std::max(d, x.depth());
    for (auto& m : o) d = std::max(d, m.v.depth());
    return d + ((k == Arr || k == Obj) ? 1 : 0);
}

bool is_integer_literal(std::string_view lit)
{
    if (!lit.empty() && lit[0] == '-') lit.remove_prefix(1);
    if (lit.empty()) return false;
    for (char c : lit) {
        if (c < '0' || c > '9') return false;
    }
    return true;
}

std::string utf8(unsigned cp)
{
    std::string r;
    if (cp < 0x80) {
        r.push_back(static_cast<char>(cp));
    } else if (cp < 0x800) {
        r.push_back(static_cast<char>(0xC0 | (cp >> 6)));
        r.push_back(static_cast<char>(0x80 | (cp & 0x3F)));
    } else if (cp < 0x10000) {
        r.push_back(static_cast<char>(0xE0 | (cp >> 12)));
        r.push_back(static_cast<char>(0x80 | ((cp >> 6) & 0x3F)));
        r.push_back(static_cast<char>(0x80 | (cp & 0x3F)));
    } else {
        r.push_back(static_cast<char>(0xF0 | (cp >> 18)));
        r.push_back(static_cast<char>(0x80 | ((cp >> 12) & 0x3F)));
        r.push_back(static_cast<char>(0x80 | ((cp >> 6) & 0x3F)));
        r.push_back(static_cast<char>(0x80 | (cp & 0x3F)));
    }
    return r;
}

// length of the code point at s[i], 0 if invalid
static std::size_t utf8_len(std::string_view s, std::size_t i, unsigned* out = nullptr)
{
    auto at = [&](std::size_t k) { return k < s.size() ? static_cast<unsigned char>(s[k]) : 0u; };
    unsigned c = at(i);
    unsigned cp;
    std::size_t n;
    if (c < 0x80) {
        cp = c;
        n = 1;
    } else if (c >= 0xC2 && c <= 0xDF) {
        cp = c & 0x1F;
        n = 2;
    } else if (c >= 0xE0 && c <= 0xEF) {
        cp = c & 0x0F;
        n = 3;
    } else if (c >= 0xF0 && c <= 0xF4) {
        cp = c & 0x07;
        n = 4;
    } else {
        return 0;
    }
    for (std::size_t k = 1; k < n; ++k) {
        unsigned d = at(i + k);
        if (d < 0x80 || d > 0xBF) return 0;
        cp = (cp << 6) | (d & 0x3F);
    }
    if ((n == 3 && cp < 0x800) || (n == 4 && (cp < 0x10000 || cp > 0x10FFFF)) || (cp >= 0xD800 && cp <= 0xDFFF)) return 0;
    if (out) *out = cp;
    return n;
}

bool valid_utf8(std::string_view s)
{
    for (std::size_t i = 0; i < s.size();) {
        std::size_t n = utf8_len(s, i);
        if (!n) return false;
        i += n;
    }
    return true;
}

namespace {

struct Reader {
    const std::string& t;
    JText& r;
    std::size_t p = 0;
    int depth = 0;

    struct Bad {};

    [[noreturn]] void bad(std::size_t at)
    {
        r.errpos = at;
        throw Bad();
    }

    int peek() const { return p < t.size() ? static_cast<unsigned char>(t[p]) : -1; }

    void ws()
    {
        while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p;
    }

    void word(const char* w)
    {
        for (; *w; ++w) {
            if (peek() != *w) bad(p);
            ++p;
        }
    }

    unsigned hex4()
    {
        unsigned v = 0;
        for (int i = 0; i < 4; ++i) {
            int c = peek();
            if (c >= '0' && c <= '9') v = v * 16 + static_cast<unsigned>(c - '0');
            else if (c >= 'a' && c <= 'f') v = v * 16 + static_cast<unsigned>(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') v = v * 16 + static_cast<unsigned>(c - 'A' + 10);
            else bad(p);
            ++p;
        }
        return v;
    }

    std::string string()
    {
        if (peek() != '"') bad(p);
        ++p;
        std::string v;
        for (;;) {
            int c = peek();
            if (c < 0x20) bad(p);
            if (c == '"') {
                ++p;
                return v;
            }
            if (c == '\\') {
                ++p;
                int e = peek();
                switch (e) {
                    case '"': case '\\': case '/': v.push_back(static_cast<char>(e)); ++p; break;
                    case 'b': v.push_back('\b'); ++p; break;
                    case 'f': v.push_back('\f'); ++p; break;
                    case 'n': v.push_back('\n'); ++p; break;
                    case 'r': v.push_back('\r'); ++p; break;
                    case 't': v.push_back('\t'); ++p; break;
                    case 'u': {
                        ++p;
                        unsigned u = hex4();
                        if (u >= 0xD800 && u <= 0xDBFF) {
                            if (peek() == '\\' && p + 1 < t.size() && t[p + 1] == 'u') {
                                p += 2;
                                unsigned lo = hex4();
                                if (lo >= 0xDC00 && lo <= 0xDFFF) {
                                    u = 0x10000 + ((u - 0xD800) << 10) + (lo - 0xDC00);
                                } else {
                                    r.odd = true;
                                    u = 0xFFFD;
                                }
                            } else {
                                r.odd = true;
                                u = 0xFFFD;
                            }
                        } else if (u >= 0xDC00 && u <= 0xDFFF) {
                            r.odd = true;
                            u = 0xFFFD;
                        }
                        v += utf8(u);
                        break;
                    }
                    default: bad(p);
                }
                continue;
            }
            v.push_back(static_cast<char>(c));
            ++p;
        }
    }

    J value()
    {
        J j;
        j.beg = p;
        int c = peek();
        switch (c) {
            case 'n': word("null"); break;
            case 't': word("true"); j.k = J::Bool; j.b = true; break;
            case 'f': word("false"); j.k = J::Bool; break;
            case '"': j.k = J::Str; j.s = string(); break;
            case '[': {
                if (++depth > 3000) { r.deep = true; bad(p); }
                j.k = J::Arr;
                ++p;
                ws();
                if (peek() == ']') {
                    ++p;
                } else {
                    for (;;) {
                        ws();
                        j.a.push_back(value());
                        ws();
                        if (peek() == ',') { ++p; continue; }
                        if (peek() == ']') { ++p; break; }
                        bad(p);
                    }
                }
                --depth;
                break;
            }
            case '{': {
                if (++depth > 3000) { r.deep = true; bad(p); }
                j.k = J::Obj;
                ++p;
                ws();
                if (peek() == '}') {
                    ++p;
                } else {
                    std::set<std::string> seen;
                    for (;;) {
                        ws();
                        J::Member m;
                        m.kbeg = p;
                        m.key = string();
                        m.kend = p;
                        if (!seen.insert(m.key).second) r.dup = true;
                        ws();
                        if (peek() != ':') bad(p);
                        ++p;
                        ws();
                        m.v = value();
                        j.o.push_back(std::move(m));
                        ws();
                        if (peek() == ',') { ++p; continue; }
                        if (peek() == '}') { ++p; break; }
                        bad(p);
                    }
                }
                --depth;
                break;
            }
            default: {
                if (c != '-' && !(c >= '0' && c <= '9')) bad(p);
                j.k = J::Num;
                auto digit = [&] { return peek() >= '0' && peek() <= '9'; };
                if (peek() == '-') ++p;
                if (!digit()) bad(p);
                if (peek() == '0') {
                    ++p;
                } else {
                    while (digit()) ++p;
                }
                if (peek() == '.') {
                    ++p;
                    if (!digit()) bad(p);
                    while (digit()) ++p;
                }
                if (peek() == 'e' || peek() == 'E') {
                    ++p;
                    if (peek() == '+' || peek() == '-') ++p;
                    if (!digit()) bad(p);
                    while (digit()) ++p;
                }
                j.s = t.substr(j.beg, p - j.beg);
                if (!std::isfinite(std::strtod(j.s.c_str(), nullptr)) || j.s.size() > 300) r.numbig = true;
                std::size_t ex = j.s.find_first_of("eE");
                if (ex != std::string::npos && j.s[ex + 1] != '-' && std::strtol(j.s.c_str() + ex + 1, nullptr, 10) > 290) r.numbig = true;
            }
        }
        j.end = p;
        return j;
    }
};

}

JText jread(const std::string& text)
{
    JText r;
    if (text.find('\0') != std::string::npos || !valid_utf8(text)) {
        r.odd = true;
    }
    Reader rd{text, r};
    try {
        rd.ws();
        r.root = rd.value();
        rd.ws();
        if (rd.p != text.size()) {
            r.errpos = rd.p;
        } else {
            r.valid = true;
        }
    } catch (const Reader::Bad&) {
    }
    return r;
}

static void write_string(std::string& out, const std::string& s, Src* src)
{
    out.push_back('"');
    bool escapes = src && src->chance(1, 3);
    for (std::size_t i = 0; i < s.size();) {
        unsigned char c = static_cast<unsigned char>(s[i]);
        bool must = c < 0x20 || c == '"' || c == '\\';
        bool esc = must || (escapes && src->chance(1, 3));
        if (!esc) {
            out.push_back(static_cast<char>(c));
            ++i;
            continue;
        }
        unsigned cp = c;
        std::size_t n = utf8_len(s, i, &cp);
        if (!n) {
            out.push_back(static_cast<char>(c));
            ++i;
            continue;
        }
        i += n;
        char b[16];
        const char* shortform = nullptr;
        switch (cp) {
            case '"': shortform = "\\\""; break;
            case '\\': shortform = "\\\\"; break;
            case '/': shortform = "\\/"; break;
            case '\b': shortform = "\\b"; break;
            case '\f': shortform = "\\f"; break;
            case '\n': shortform = "\\n"; break;
            case '\r': shortform = "\\r"; break;
            case '\t': shortform = "\\t"; break;
            default: break;
        }
        bool upper = src && src->chance(1, 2);
        if (shortform && !(src && src->chance(1, 3))) {
            out += shortform;
        } else if (cp >= 0x10000) {
            unsigned v = cp - 0x10000;
            std::snprintf(b, sizeof b, upper ? "\\u%04X\\u%04X" : "\\u%04x\\u%04x", 0xD800 + (v >> 10), 0xDC00 + (v & 0x3FF));
            out += b;
        } else {
            std::snprintf(b, sizeof b, upper ? "\\u%04X" : "\\u%04x", cp);
            out += b;
        }
    }
    out.push_back('"');
}

static void space(std::string& out, Src* src, bool on)
{
    if (!on || !src) return;
    std::size_t n = src->chance(1, 4) ? 1 + src->below(src->chance(1, 8) ? 40 : 3) : 0;
    for (std::size_t i = 0; i < n; ++i) {
        out.push_back(" \n\t\r"[src->below(4)]);
    }
}

static void write_value(std::string& out, const J& j, Src* src, bool spaces)
{
    switch (j.k) {
        case J::Null: out += "null"; break;
        case J::Bool: out += j.b ? "true" : "false"; break;
        case J::Num: out += j.s; break;
        case J::Str: write_string(out, j.s, src); break;
        case J::Arr: {
            out.push_back('[');
            space(out, src, spaces);
            bool first = true;
            for (auto& x : j.a) {
                if (!first) {
                    out.push_back(',');
                    space(out, src, spaces);
                }
                first = false;
                write_value(out, x, src, spaces);
                space(out, src, spaces);
            }
            out.push_back(']');
            break;
        }
        case J::Obj: {
            out.push_back('{');
            space(out, src, spaces);
            bool first = true;
            for (auto& m : j.o) {
                if (!first) {
                    out.push_back(',');
                    space(out, src, spaces);
                }
                first = false;
                write_string(out, m.key, src);
                space(out, src, spaces);
                out.push_back(':');
                space(out, src, spaces);
                write_value(out, m.v, src, spaces);
                space(out, src, spaces);
            }
            out.push_back('}');
            break;
        }
    }
}

std::string jwrite(const J& j)
{
    std::string out;
    write_value(out, j, nullptr, false);
    return out;
}

std::string jwrite(const J& j, Src& src)
{
    std::string out;
    bool plain = !src.chance(1, 2);
    if (plain) {
        write_value(out, j, nullptr, false);
        return out;
    }
    bool spaces = src.chance(2, 3);
    space(out, &src, spaces);
    write_value(out, j, &src, spaces);
    space(out, &src, spaces);
    return out;
}

static std::string norm_int(std::string_view s)
{
    bool neg = !s.empty() && s[0] == '-';
    if (neg) s.remove_prefix(1);
    while (s.size() > 1 && s[0] == '0') s.remove_prefix(1);
    if (s == "0") neg = false;
    return (neg ? "-" : "") + std::string(s);
}

bool exact_literal(std::string_view lit)
{
    if (is_integer_literal(lit)) return lit.size() <= 18;
    std::size_t digits = 0, i = 0;
    long scale = 0;
    bool fraction = false, lead = true;
    for (; i < lit.size() && lit[i] != 'e' && lit[i] != 'E'; ++i) {
        if (lit[i] == '.') {
            fraction = true;
        } else if (lit[i] >= '0' && lit[i] <= '9') {
            if (fraction) --scale;
            if (lit[i] != '0') lead = false;
            if (!lead) ++digits;
        }
    }
    if (i < lit.size()) {
        if (lit.size() - i > 8) return false;
        scale += std::strtol(std::string(lit.substr(i + 1)).c_str(), nullptr, 10);
    }
    return digits <= 15 && scale >= -22 && scale <= 22;
}

int number_slack(std::string_view text)
{
    std::size_t slack = 0;
    for (std::size_t i = 0; i < text.size(); ++i) {
        if (text[i] == '"') {
            for (++i; i < text.size() && text[i] != '"'; ++i) {
                if (text[i] == '\\') ++i;
            }
        } else if (text[i] == '-' || (text[i] >= '0' && text[i] <= '9')) {
            std::size_t b = i;
            while (i < text.size() && std::strchr("+-.eE0123456789", text[i]) && text[i]) ++i;
            // each digit in excess adds a rounding error
            if (!exact_literal(text.substr(b, i - b))) slack = std::max(slack, 3 + (i - b > 20 ? i - b - 20 : 0));
            --i;
        }
    }
    return static_cast<int>(slack);
}

static int close_numbers = 0;

bool jclose(const J& a, const J& b, int slack)
{
    close_numbers = slack;
    bool r = jsame(a, b);
    close_numbers = 0;
    return r;
}

bool jsame(const J& a, const J& b)
{
    if (a.k != b.k) return false;
    switch (a.k) {
        case J::Null: return true;
        case J::Bool: return a.b == b.b;
        case J::Num: {
            if (is_integer_literal(a.s) && is_integer_literal(b.s)) return norm_int(a.s) == norm_int(b.s);
            double x = std::strtod(a.s.c_str(), nullptr), y = std::strtod(b.s.c_str(), nullptr);
            if (std::memcmp(&x, &y, sizeof x) == 0) return true;
            if (close_numbers > 0 && std::isfinite(x) && std::isfinite(y) && std::signbit(x) == std::signbit(y)) {
                std::int64_t p, q;
                std::memcpy(&p, &x, sizeof p);
                std::memcpy(&q, &y, sizeof q);
                return std::llabs(p - q) <= close_numbers;
            }
            return false;
        }
        case J::Str: return a.s == b.s;
        case J::Arr:
            if (a.a.size() != b.a.size()) return false;
            for (std::size_t i = 0; i < a.a.size(); ++i) {
                if (!jsame(a.a[i], b.a[i])) return false;
            }
            return true;
        case J::Obj: {
            if (a.o.size() != b.o.size()) return false;
            std::vector<const J::Member*> x, y;
            for (auto& m : a.o) x.push_back(&m);
            for (auto& m : b.o) y.push_back(&m);
            auto less = [](const J::Member* p, const J::Member* q) { return p->key < q->key; };
            std::stable_sort(x.begin(), x.end(), less);
            std::stable_sort(y.begin(), y.end(), less);
            for (std::size_t i = 0; i < x.size(); ++i) {
                if (x[i]->key != y[i]->key || !jsame(x[i]->v, y[i]->v)) return false;
            }
            return true;
        }
    }
    return false;
}

bool jorder(const J& a, const J& b)
{
    for (std::size_t i = 0; i < a.o.size() && i < b.o.size(); ++i) {
        if (a.o[i].key != b.o[i].key || !jorder(a.o[i].v, b.o[i].v)) return false;
    }
    for (std::size_t i = 0; i < a.a.size() && i < b.a.size(); ++i) {
        if (!jorder(a.a[i], b.a[i])) return false;
    }
    return true;
}

std::string jescape(std::string_view name)
{
    std::string r;
    for (char c : name) {
        if (c == '~') r += "~0";
        else if (c == '/') r += "~1";
        else r.push_back(c);
    }
    return r;
}

const J* jresolve(const J& root, const std::string& pointer)
{
    const J* cur = &root;
    std::size_t p = 0;
    while (p < pointer.size()) {
        if (pointer[p] != '/') return nullptr;
        ++p;
        std::string tok;
        while (p < pointer.size() && pointer[p] != '/') {
            if (pointer[p] == '~') {
                if (p + 1 >= pointer.size() || (pointer[p + 1] != '0' && pointer[p + 1] != '1')) return nullptr;
                tok.push_back(pointer[p + 1] == '0' ? '~' : '/');
                p += 2;
            } else {
                tok.push_back(pointer[p]);
                ++p;
            }
        }
        if (cur->k == J::Obj) {
            cur = cur->find(tok);
            if (!cur) return nullptr;
        } else if (cur->k == J::Arr) {
            if (tok.empty() || tok.size() > 9 || (tok.size() > 1 && tok[0] == '0')) return nullptr;
            std::size_t idx = 0;
            for (char c : tok) {
                if (c < '0' || c > '9') return nullptr;
                idx = idx * 10 + static_cast<std::size_t>(c - '0');
            }
            if (idx >= cur->a.size()) return nullptr;
            cur = &cur->a[idx];
        } else {
            return nullptr;
        }
    }
    return cur;
}

// ---------------------------------------------------------------- generators

std::size_t gen_size(Src& s, std::size_t max)
{
    std::size_t n;
    switch (s.below(12)) {
        case 0: n = 0; break;
        case 1: case 2: n = 1; break;
        case 3: n = 2; break;
        case 4: case 5: case 6: case 7: n = s.below(5); break;
        case 8: case 9: n = s.below(12); break;
        case 10: n = s.below(40); break;
        default: {
            static const std::size_t edges[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097};
            n = s.pick(edges);
        }
    }
    return std::min(n, max);
}

static unsigned gen_code_point(Src& s, int cls)
{
    static const unsigned special[] = {'"', '\\', '/', '\b', '\f', '\n', '\r', '\t', 0x01, 0x1f, 0x7f, ' ', '\'', '<', '~', '%', '#', '$', '{', '}', '[', ']', ':', ','};
    static const unsigned edges[] = {0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0x2028, 0x2029, 0xe9, 0x20ac, 0x1f600, 0xff, 0x100, 0x3f3f};
    switch (cls) {
        case 0: return 'a' + static_cast<unsigned>(s.below(26));
        case 1: return 0x20 + static_cast<unsigned>(s.below(0x5f));
        case 2: return special[s.below(std::size(special))];
        case 3: return edges[s.below(std::size(edges))];
        case 4: {
            unsigned c = static_cast<unsigned>(s.below(0x110000));
            return (c >= 0xd800 && c <= 0xdfff) ? 0x20 : c;
        }
        default: return static_cast<unsigned>(s.below(0x20));
    }
}

std::string gen_string(Src& s, bool allow_nul)
{
    static const char* const words[] = {
        "", "a", "$ref", "null", "true", "false", "0", "-1", "1.5", "2020-02-29", "2020-02-29T12:34:56Z", "1969-12-31 23:59:59Z", "0000-00-00",
        "TWFu", "TWE=", "TQ==", "/", "~", "~0", "~1", "/a/b", "#/definitions/x", "{}", "[]", "\"", "\\", "value", "name", "id", "alpha", "Alpha", "ALPHA",
        "one", "two", "a/b", "m~n", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x7f", "key", "item", "x", "xx", "xxx", "first", "second", "NaN", "1e400"
    };
    std::string r;
    switch (s.below(8)) {
        case 0: {
            r = words[s.below(std::size(words))];
            break;
        }
        case 1: case 2: case 3: {
            std::size_t n = s.below(9);
            for (std::size_t i = 0; i < n; ++i) r += utf8(gen_code_point(s, 0));
            break;
        }
        case 4: {
            std::size_t n = gen_size(s, 300);
            for (std::size_t i = 0; i < n; ++i) r += utf8(gen_code_point(s, static_cast<int>(s.below(6))));
            break;
        }
        case 5: {
            int cls = static_cast<int>(s.below(6));
            std::size_t n = s.below(8);
            for (std::size_t i = 0; i < n; ++i) r += utf8(gen_code_point(s, cls));
            break;
        }
        case 6: {
            // one special character somewhere in a run of plain ones
            std::size_t n = s.chance(1, 300) ? 65534 + s.below(5) : gen_size(s, 5000);
            r.assign(n, 'q');
            if (s.chance(1, 2)) {
                std::size_t at = s.below(n + 1);
                r.insert(at, utf8(gen_code_point(s, 2 + static_cast<int>(s.below(4)))));
            }
            break;
        }
        default: {
            std::size_t n = s.below(4);
            for (std::size_t i = 0; i < n; ++i) r += words[s.below(std::size(words))];
        }
    }
    if (!allow_nul) {
        r.erase(std::remove(r.begin(), r.end(), '\0'), r.end());
    }
    return r;
}

std::int64_t gen_int(Src& s, int bits, bool is_signed)
{
    // values in the range of the type, concentrated on boundaries
    const unsigned __int128 one = 1;
    __int128 lo = is_signed ? -static_cast<__int128>(one << (bits - 1)) : 0;
    __int128 hi = is_signed ? static_cast<__int128>((one << (bits - 1)) - 1) : static_cast<__int128>((one << bits) - 1);
    __int128 v = 0;
    switch (s.below(6)) {
        case 0: v = static_cast<__int128>(s.below(10)); break;
        case 1: v = lo + static_cast<__int128>(s.below(3)); break;
        case 2: v = hi - static_cast<__int128>(s.below(3)); break;
        case 3: {
            int sh = static_cast<int>(s.below(static_cast<std::uint64_t>(bits) + 1));
            v = static_cast<__int128>(one << sh) + static_cast<__int128>(s.below(3)) - 1;
            if (s.chance(1, 2)) v = -v;
            break;
        }
        case 4: {
            int sh = static_cast<int>(s.below(static_cast<std::uint64_t>(bits)));
            v = static_cast<__int128>(s.bits64() >> (63 - sh));
            if (is_signed && s.chance(1, 2)) v = -v;
            break;
        }
        default: {
            __int128 p = 1;
            for (auto k = s.below(20); k > 0; --k) p *= 10;
            v = p - static_cast<__int128>(s.below(2));
            if (s.chance(1, 2)) v = -v;
        }
    }
    if (v < lo || v > hi) {
        // wrap into the range
        unsigned __int128 span = static_cast<unsigned __int128>(hi - lo) + 1;
        unsigned __int128 off = static_cast<unsigned __int128>(v - lo) % span;
        v = lo + static_cast<__int128>(off);
        if (v < lo || v > hi) v = 0;
    }
    return static_cast<std::int64_t>(static_cast<std::uint64_t>(v));
}

double gen_double(Src& s)
{
    double v = 0;
    switch (s.below(10)) {
        case 0: v = static_cast<double>(s.below(100)); break;
        case 1: v = static_cast<double>(s.below(100000)) / 1000.0; break;
        case 2: {
            static const double e[] = {0.0, std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::epsilon(),
                9007199254740991.0, 9007199254740992.0, 9007199254740993.0, 16777216.0, 16777217.0, 3.4028234663852886e38, 3.4028235677973366e38, 1.17549435e-38, 1.4e-45,
                0.1, 0.2, 0.3, 1.0 / 3.0, 2.0 / 3.0, 5e-324, 2.2250738585072011e-308, 1.7976931348623157e308, 4294967295.0, 4294967296.0, 2147483647.0, 2147483648.0, 9223372036854775807.0, 18446744073709551615.0};
            v = s.pick(e);
            break;
        }
        case 3: {
            v = std::pow(10.0, static_cast<double>(s.range(-30, 30)));
            break;
        }
        case 4: case 5: case 6: {
            std::uint64_t b = s.bits64();
            std::memcpy(&v, &b, sizeof v);
            break;
        }
        case 7: {
            // all exponents, few significant bits
            v = std::ldexp(static_cast<double>(1 + s.below(1u << 12)), static_cast<int>(s.range(-1080, 1010)));
            break;
        }
        case 8: {
            // decimal with 15 to 17 significant digits
            v = static_cast<double>(s.below(100000000000000000ull)) * std::pow(10.0, static_cast<double>(s.range(-25, 5)));
            break;
        }
        default: {
            std::uint32_t b = static_cast<std::uint32_t>(s.below(1ull << 32));
            float f;
            std::memcpy(&f, &b, sizeof f);
            v = f;
        }
    }
    if (!std::isfinite(v)) v = 1.5;
    if (s.chance(1, 3)) v = -v;
    return v;
}

std::string gen_number_literal(Src& s)
{
    char b[64];
    switch (s.below(9)) {
        case 0: return std::to_string(s.range(-3, 300));
        case 1: {
            int bits[] = {8, 16, 24, 32, 53, 63, 64};
            int n = bits[s.below(7)];
            unsigned __int128 v = (static_cast<unsigned __int128>(1) << n) - (s.chance(1, 2) ? 1 : 0) + (s.chance(1, 4) ? 1 : 0);
            if (s.chance(1, 2)) v = (static_cast<unsigned __int128>(1) << (n - 1)) - (s.chance(1, 2) ? 1 : 0) + (s.chance(1, 4) ? 1 : 0);
            std::string t;
            do {
                t.insert(t.begin(), static_cast<char>('0' + static_cast<int>(v % 10)));
                v /= 10;
            } while (v);
            if (s.chance(1, 2)) t.insert(t.begin(), '-');
            return t;
        }
        case 2: {
            std::snprintf(b, sizeof b, "%.17g", gen_double(s));
            std::string t = b;
            if (is_integer_literal(t)) t += ".0";
            return t;
        }
        case 3: {
            static const char* const lits[] = {"-0", "0.0", "-0.0", "1.0", "1e0", "1E2", "1e+2", "100e-2", "1.5", "-1.5", "0.5", "1e19", "1e20", "1e38", "3.4028235e38", "3.5e38", "-3.5e38", "1e39",
                "1e308", "1.7976931348623157e308", "1e309", "-1e309", "1e400", "1e-320", "1e-400", "0e999", "123456789012345678901234567890", "18446744073709551615", "18446744073709551616",
                "-9223372036854775808", "-9223372036854775809", "9223372036854775808", "4294967296", "2147483648", "-2147483649", "65536", "-32769", "256", "-129", "128", "3.40282347e38", "3.4028236e38"};
            return lits[s.below(std::size(lits))];
        }
        case 4: {
            std::snprintf(b, sizeof b, "%.*e", static_cast<int>(s.below(19)), gen_double(s));
            return b;
        }
        case 5: return std::to_string(gen_int(s, 64, true));
        case 6: return std::to_string(static_cast<std::uint64_t>(gen_int(s, 64, false)));
        case 7: return std::to_string(gen_int(s, 8 << s.below(3), true));
        default: {
            std::string t = s.chance(1, 3) ? "-" : "";
            t += static_cast<char>('1' + s.below(9));
            for (auto n = s.below(25); n > 0; --n) t += static_cast<char>('0' + s.below(10));
            if (s.chance(1, 2)) {
                t += '.';
                for (auto n = 1 + s.below(20); n > 0; --n) t += static_cast<char>('0' + s.below(10));
            }
            if (s.chance(1, 3)) t += "e" + std::to_string(s.range(-40, 40));
            return t;
        }
    }
}

J gen_scalar(Src& s)
{
    switch (s.below(6)) {
        case 0: return J::null();
        case 1: return J::boolean(s.chance(1, 2));
        case 2: case 3: return J::num(gen_number_literal(s));
        default: return J::str(gen_string(s, false));
    }
}

J gen_json(Src& s, int depth)
{
    if (depth <= 0 || s.chance(1, 2)) {
        return gen_scalar(s);
    }
    if (s.chance(1, 2)) {
        J j = J::arr();
        for (auto n = s.below(4); n > 0; --n) j.a.push_back(gen_json(s, depth - 1));
        return j;
    }
    J j = J::obj();
    for (auto n = s.below(4); n > 0; --n) {
        std::string key = gen_string(s, false);
        if (!j.find(key)) j.add(key, gen_json(s, depth - 1));
    }
    return j;
}

std::string gen_ref_like(Src& s)
{
    static const char* const refs[] = {"", "/", "/0", "/1", "/00", "/-", "/a", "/a/0", "//", "/~", "/~2", "#", "#/a", "a", "0", "/99999999999999999999", "/0/0", "/~0", "/~1", "~", "/\x01"};
    return refs[s.below(std::size(refs))];
}

static void collect(J& j, std::vector<J*>& out)
{
    out.push_back(&j);
    for (auto& x : j.a) collect(x, out);
    for (auto& m : j.o) collect(m.v, out);
}

static std::string tweak(std::string t, Src& s)
{
    // small change of a string: typo, case, truncation, extension
    switch (s.below(8)) {
        case 0: if (!t.empty()) t.pop_back(); break;
        case 1: t.push_back(static_cast<char>(0x20 + s.below(0x5f))); break;
        case 2: if (!t.empty()) t[s.below(t.size())] = static_cast<char>(0x20 + s.below(0x5f)); break;
        case 3: if (!t.empty()) { auto& c = t[s.below(t.size())]; if (std::isalpha(static_cast<unsigned char>(c))) c = static_cast<char>(c ^ 0x20); else c = '0'; } break;
        case 4: t.insert(t.begin() + static_cast<std::ptrdiff_t>(s.below(t.size() + 1)), static_cast<char>(0x20 + s.below(0x5f))); break;
        case 5: if (!t.empty()) t.erase(s.below(t.size()), 1); break;
        case 6: if (t.size() >= 2) { auto i = s.below(t.size() - 1); std::swap(t[i], t[i + 1]); } break;
        default: t += t.empty() ? " " : t.substr(t.size() - 1);
    }
    // keep it valid UTF-8
    if (!valid_utf8(t)) {
        std::string u;
        for (char c : t) {
            if (static_cast<unsigned char>(c) < 0x80) u.push_back(c);
        }
        t = u;
    }
    return t;
}

static std::string tweak_digits(std::string t, Src& s)
{
    // dates and times: replace one field by a boundary value
    static const char* const two[] = {"00", "01", "02", "12", "13", "23", "24", "28", "29", "30", "31", "32", "59", "60", "61", "99", " 1", "+1", "-1", "1 ", "0x"};
    static const char* const four[] = {"0000", "0001", "1600", "1677", "1678", "1700", "1900", "1970", "2000", "2100", "2262", "2263", "9999", " 200", "-001", "+200", "2 00", "1999", "2020", "2021"};
    static const std::size_t pos[] = {5, 8, 11, 14, 17};
    if (t.size() >= 4 && s.chance(1, 3)) {
        t.replace(0, 4, four[s.below(std::size(four))]);
    } else {
        std::size_t p = pos[s.below(std::size(pos))];
        if (p + 2 <= t.size()) t.replace(p, 2, two[s.below(std::size(two))]);
        else if (t.size() == 10) t.replace(8, 2, two[s.below(std::size(two))]);
    }
    return t;
}

std::string jmutate(J& root, Src& s)
{
    std::vector<J*> nodes;
    collect(root, nodes);
    J* n = nodes[s.below(nodes.size())];
    // prefer an applicable operation for the node
    switch (s.below(16)) {
        case 0: {
            *n = gen_scalar(s);
            return "scalar";
        }
        case 1: {
            *n = gen_json(s, 2);
            return "any";
        }
        case 2: {
            // copy another node here
            J c = *nodes[s.below(nodes.size())];
            if (c.nodes() < 200) *n = c;
            return "copy-node";
        }
        case 3: {
            J w = J::arr();
            w.a.push_back(*n);
            *n = w;
            return "wrap-array";
        }
        case 4: {
            J w = J::obj();
            w.add(gen_string(s, false), *n);
            *n = w;
            return "wrap-object";
        }
        default: break;
    }
    if (n->k == J::Num) {
        switch (s.below(5)) {
            case 0: {
                double d = std::strtod(n->s.c_str(), nullptr);
                char b[64];
                std::snprintf(b, sizeof b, "%.*e", 17 + static_cast<int>(s.below(4)), d);
                if (std::isfinite(d)) n->s = b;
                return "num-exponent-form";
            }
            case 1: n->s += (n->s.find_first_of(".eE") == std::string::npos) ? ".0" : "0"; return "num-trailing-zero";
            case 2: if (n->s[0] == '-') n->s.erase(0, 1); else n->s.insert(0, "-"); return "num-negate";
            default: n->s = gen_number_literal(s); return "num-literal";
        }
    }
    if (n->k == J::Str) {
        switch (s.below(6)) {
            case 0: n->s = gen_string(s, false); return "string";
            case 1: case 2: n->s = tweak_digits(n->s, s); return "string-field";
            case 3: if (s.chance(1, 2)) { n->s += std::string("\0", 1); return "string-nul"; } n->s += '\0'; n->s += gen_string(s, false); return "string-nul-tail";
            default: n->s = tweak(n->s, s); return "string-tweak";
        }
    }
    if (n->k == J::Bool) {
        if (s.chance(1, 2)) { n->b = !n->b; return "bool-flip"; }
        *n = J::num(n->b ? "1" : "0");
        return "bool-as-number";
    }
    if (n->k == J::Null) {
        *n = gen_json(s, 1);
        return "null-replaced";
    }
    if (n->k == J::Arr) {
        switch (s.below(5)) {
            case 0: if (!n->a.empty()) n->a.erase(n->a.begin() + static_cast<std::ptrdiff_t>(s.below(n->a.size()))); return "array-drop";
            case 1: if (!n->a.empty()) { J c = n->a[s.below(n->a.size())]; n->a.insert(n->a.begin() + static_cast<std::ptrdiff_t>(s.below(n->a.size() + 1)), c); } else n->a.push_back(gen_scalar(s)); return "array-duplicate";
            case 2: n->a.insert(n->a.begin() + static_cast<std::ptrdiff_t>(s.below(n->a.size() + 1)), gen_json(s, 1)); return "array-insert";
            case 3: if (n->a.size() > 1) { auto i = s.below(n->a.size()), j = s.below(n->a.size()); std::swap(n->a[i], n->a[j]); } return "array-swap";
            default: { J o = J::obj(); for (std::size_t i = 0; i < n->a.size(); ++i) o.add(std::to_string(i), n->a[i]); *n = o; return "array-to-object"; }
        }
    }
    switch (s.below(8)) {
        case 0: case 1: if (!n->o.empty()) n->o.erase(n->o.begin() + static_cast<std::ptrdiff_t>(s.below(n->o.size()))); return "member-drop";
        case 2: {
            if (!n->o.empty()) {
                auto& m = n->o[s.below(n->o.size())];
                std::string k = tweak(m.key, s);
                if (!n->find(k)) m.key = k;
            }
            return "member-rename";
        }
        case 3: {
            std::string k = gen_string(s, false);
            if (!n->find(k)) n->o.insert(n->o.begin() + static_cast<std::ptrdiff_t>(s.below(n->o.size() + 1)), J::Member{k, 0, 0, gen_json(s, 2)});
            return "member-add";
        }
        case 4: case 5: if (n->o.size() > 1) { auto i = s.below(n->o.size()), j = s.below(n->o.size()); std::swap(n->o[i], n->o[j]); } return "member-reorder";
        case 6: {
            if (n->o.size() > 1) {
                auto i = s.below(n->o.size()), j = s.below(n->o.size());
                std::swap(n->o[i].v, n->o[j].v);
            }
            return "member-swap-values";
        }
        default: { J a = J::arr(); for (auto& m : n->o) a.a.push_back(m.v); *n = a; return "object-to-array"; }
    }
}

std::string bytes_mutate(std::string& t, Src& s)
{
    static const char* const frags[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\u", "\\u00", "\\ud83d", "\\udc00", "null", "nul", "true", "tru", "false", "-", "+", ".", "e", "E", "0", "00", "1e", "//", "/*", "\t", "\n", " ", "\x01", "\x7f",
        "\xef\xbb\xbf", "NaN", "Infinity", "'", "\"\"", "{}", "[]", ",]", ",}", "\"a\":", "\xc2\xa0", "\x0b", "\x0c", "\\x", "\\a", "undefined", "1.", ".5", "01", "-01", "+1", "0x10"};
    switch (s.below(8)) {
        case 0: t.resize(s.below(t.size() + 1)); return "truncate";
        case 1: if (!t.empty()) t.erase(s.below(t.size()), 1); return "erase-byte";
        case 2: if (!t.empty()) t[s.below(t.size())] = static_cast<char>(s.below(256)); return "replace-byte";
        case 3: t.insert(s.below(t.size() + 1), frags[s.below(std::size(frags))]); return "insert-fragment";
        case 4: if (!t.empty()) { auto i = s.below(t.size()); auto n = s.below(std::min<std::size_t>(t.size() - i, 16) + 1); t.erase(i, n); } return "erase-range";
        case 5: if (!t.empty()) { auto i = s.below(t.size()); auto n = s.below(std::min<std::size_t>(t.size() - i, 16) + 1); t.insert(s.below(t.size() + 1), t.substr(i, n)); } return "duplicate-range";
        case 6: t += frags[s.below(std::size(frags))]; return "append-fragment";
        default: t.insert(0, frags[s.below(std::size(frags))]); return "prepend-fragment";
    }
}
