// C28: what an operation costs, as the value or text grows.
// The units that instantiate the library are compiled so that they call __sanitizer_cov_trace_pc in every
// basic block, and the functions of the C library that work on memory are replaced; costs are thus counted, not timed.
#include "zoo_util.hpp"
#include <array>
#include <cstddef>
#include <cstdlib>

namespace {

struct Cost {
    std::uint64_t steps = 0;        // basic blocks executed
    std::uint64_t touched = 0;      // bytes copied, moved, compared or searched by functions of the C library
    std::uint64_t allocated = 0;    // bytes allocated
};
bool counting = false;
Cost cost;

}

#pragma clang attribute push(__attribute__((no_sanitize("coverage"))), apply_to = function)
extern "C" {

void* __libc_malloc(std::size_t);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void __libc_free(void*);

void __sanitizer_cov_trace_pc() { if (counting) ++cost.steps; }

void* malloc(std::size_t n)
{
    if (counting) cost.allocated += n;
    return __libc_malloc(n);
}
void* calloc(std::size_t n, std::size_t m)
{
    if (counting) cost.allocated += n * m;
    return __libc_calloc(n, m);
}
void* realloc(void* p, std::size_t n)
{
    if (counting) cost.allocated += n;
    return __libc_realloc(p, n);
}
void free(void* p) { __libc_free(p); }

void* memmove(void* d, const void* s, std::size_t n)
{
    if (counting) cost.touched += n;
    auto* dst = static_cast<volatile unsigned char*>(d);
    auto* src = static_cast<const unsigned char*>(s);
    void* r = d;
    if (reinterpret_cast<std::uintptr_t>(d) <= reinterpret_cast<std::uintptr_t>(s)) {
        __asm__ volatile("cld; rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    } else {
        while (n > 0) {
            --n;
            dst[n] = src[n];
        }
    }
    return r;
}
void* memcpy(void* __restrict d, const void* __restrict s, std::size_t n)
{
    if (counting) cost.touched += n;
    void* r = d;
    __asm__ volatile("cld; rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memset(void* d, int v, std::size_t n)
{
    if (counting) cost.touched += n;
    void* r = d;
    __asm__ volatile("cld; rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
std::size_t strlen(const char* s)
{
    auto* p = static_cast<const volatile char*>(s);
    std::size_t n = 0;
    while (p[n]) ++n;
    if (counting) cost.touched += n;
    return n;
}
int memcmp(const void* a, const void* b, std::size_t n)
{
    auto* p = static_cast<const volatile unsigned char*>(a);
    auto* q = static_cast<const volatile unsigned char*>(b);
    std::size_t i = 0;
    while (i < n && p[i] == q[i]) ++i;
    if (counting) cost.touched += i;
    return i == n ? 0 : p[i] < q[i] ? -1 : 1;
}
void* counting_memchr(const void* a, int v, std::size_t n) __asm__("memchr");
void* counting_memchr(const void* a, int v, std::size_t n)
{
    auto* p = static_cast<const volatile unsigned char*>(a);
    std::size_t i = 0;
    while (i < n && p[i] != static_cast<unsigned char>(v)) ++i;
    if (counting) cost.touched += i;
    return i == n ? nullptr : const_cast<void*>(static_cast<const void*>(static_cast<const unsigned char*>(a) + i));
}

}
#pragma clang attribute pop

namespace {

template<typename F>
Cost measure(bool& ok, F f)
{
    Cost before = cost;
    Outcome o = guarded([&] {
        struct Stop { ~Stop() { counting = false; } } stop;
        counting = true;
        ok = f();
    });
    if (!o.ok()) ok = false;
    Cost r;
    r.steps = cost.steps - before.steps;
    r.touched = cost.touched - before.touched;
    r.allocated = cost.allocated - before.allocated;
    return r;
}

void collect(J& j, std::vector<J*>& all)
{
    all.push_back(&j);
    for (auto& i : j.a) collect(i, all);
    for (auto& m : j.o) collect(m.v, all);
}

// gives different contents to the i-th copy
void vary(J& j, std::uint64_t i, std::uint64_t modulus)
{
    if (j.k == J::Num && is_integer_literal(j.s)) j.s = std::to_string((i * 7919) % modulus);
    if (j.k == J::Str) j.s += std::to_string(i);
    for (auto& x : j.a) vary(x, i, modulus);
}

struct Stretch {
    std::size_t node = 0, item = 0;
    int kind = 0;
    bool front = false, varied = false, ordered = false;
    std::uint64_t modulus = 100;
    std::string filler;

    J apply(const J& from, std::uint64_t n) const
    {
        J root = from;
        std::vector<J*> all;
        collect(root, all);
        J& j = *all[node];
        if (kind == 0) {                 // more items
            std::vector<J> copies;
            for (std::uint64_t i = 0; i < n; ++i) {
                copies.push_back(j.a[item]);
                if (varied) vary(copies.back(), i, modulus);
            }
            j.a.insert(front ? j.a.begin() : j.a.end(), std::make_move_iterator(copies.begin()), std::make_move_iterator(copies.end()));
        } else if (kind == 1) {          // more members
            std::vector<J::Member> copies;
            for (std::uint64_t i = 0; i < n; ++i) {
                J::Member m;
                m.v = j.o[item].v;
                m.key = "+" + filler + std::to_string(ordered ? 1000000 + i : (i * 7919) % 1000003);
                if (varied) vary(m.v, i, modulus);
                copies.push_back(std::move(m));
            }
            j.o.insert(front ? j.o.begin() : j.o.end(), std::make_move_iterator(copies.begin()), std::make_move_iterator(copies.end()));
        } else if (kind == 2) {          // longer string
            std::string more;
            for (std::uint64_t i = 0; i < n; ++i) more += filler;
            j.s.insert(front ? 0 : j.s.size(), more);
        } else if (kind == 3) {          // longer key of a member that may be undeclared
            for (std::uint64_t i = 0; i < n; ++i) j.o[item].key += filler;
        } else {                         // more digits
            if (j.s.find_first_of(".eE") == std::string::npos) j.s += ".";
            auto at = j.s.find_first_of("eE");
            if (j.s.find('.') == std::string::npos) {
                j.s.insert(at, ".0");
                at += 2;
            }
            j.s.insert(at == std::string::npos ? j.s.size() : at, std::string(n, '0' + item % 10));
        }
        return root;
    }
};

const std::uint64_t FACTOR = 8;
const std::uint64_t LIMIT = 24;      // proportional growth gives 8, with a logarithm 11, with the steps in which buffers grow up to 16, where lengths decide how names are compared up to 14; quadratic growth 64

void compare(const std::string& what, const char* unit, std::uint64_t one, std::uint64_t many, std::uint64_t slack, std::uint64_t n, Case& c)
{
    if (many > LIMIT * std::max(one, slack)) {
        violate(what + ": " + std::to_string(one) + " " + unit + " if extended by " + std::to_string(n) + ", but " + std::to_string(many) + " if extended by " + std::to_string(FACTOR * n));
    }
    if (one > slack) {
        double r = double(many) / double(one);
        c.label(std::string(unit) + (r < 6 ? " grow less" : r < 10 ? " grow in proportion" : r < 14 ? " grow 10 to 14 times" : r < 18 ? " grow 14 to 18 times" : " grow 18 to 24 times"));
    }
}

void c28(Src& s, Case& c)
{
    static const auto ops = select_ops(F_DOM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    DocOptions opt;
    opt.valid = 80;
    opt.mutated = 20;
    opt.any = opt.bytes = opt.reorder = 0;
    opt.share = s.chance(1, 2);
    Doc d = gen_doc(s, op, opt);
    if (!d.plain() || d.text.size() > 1500) return;
    J root = d.j.root;
    std::vector<J*> all;
    collect(root, all);
    // what to extend
    std::vector<Stretch> choices;
    for (std::size_t i = 0; i < all.size(); ++i) {
        Stretch t;
        t.node = i;
        if (!all[i]->a.empty()) {
            t.kind = 0;
            for (int k = 0; k < 12; ++k) choices.push_back(t);
        }
        if (!all[i]->o.empty()) {
            t.kind = 1;
            for (int k = 0; k < 6; ++k) choices.push_back(t);
            t.kind = 3;
            choices.push_back(t);
        }
        if (all[i]->k == J::Str) {
            t.kind = 2;
            for (int k = 0; k < 2; ++k) choices.push_back(t);
        }
        if (all[i]->k == J::Num && !is_integer_literal(all[i]->s)) {
            t.kind = 4;
            choices.push_back(t);
        }
    }
    if (choices.empty()) return;
    Stretch t = choices[s.below(choices.size())];
    const J& j = *all[t.node];
    t.item = s.below(t.kind == 0 ? j.a.size() : t.kind == 1 || t.kind == 3 ? j.o.size() : 10);
    t.front = s.chance(1, 4);
    t.varied = s.chance(1, 2);
    t.ordered = s.chance(1, 2);
    static const std::uint64_t moduli[] = {100, 30000, 1000000007};
    t.modulus = s.pick(moduli);
    static const char* const fillers[] = {"a", "abcdefgh", "\"", "\n", "\xc3\xa9", "\xf0\x9f\x98\x80", "AAAA", "\x01", "~", "/", "zzzz"};
    t.filler = s.pick(fillers);
    static const char* const kinds[] = {"more items", "more members", "longer string", "longer key", "more digits"};
    std::uint64_t n = t.kind <= 1 ? 150 + s.below(350) : 500 + s.below(1000);
    {
        // keep the total in bounds
        std::size_t unit = t.kind == 0 ? jwrite(j.a[t.item]).size() + 4 : t.kind == 1 ? jwrite(j.o[t.item].v).size() + 20 : 4;
        while (n > 40 && n * FACTOR * unit > 250000) n /= 2;
    }
    const std::string texts[3] = {d.text, jwrite(t.apply(root, n)), jwrite(t.apply(root, FACTOR * n))};
    if (texts[2].size() > 600000) return;
    Val values[3] = {Val(op), Val(op), Val(op)};
    bool valid = true;
    for (int i = 0; i < 3; ++i) valid = guarded([&] { if (!op.deser_s(texts[i], values[i].p)) throw std::runtime_error("no"); }).ok() && valid;
    c.label(std::string(kinds[t.kind]) + (valid ? "" : ", not accepted"));
    c.nontrivial = valid;

    static const char* const names[] = {"deserialize(str, y)", "deserialize<T>(str)", "deserialize(doc, y)", "deserialize(std::move(str), y)", "parse(str, y)", "parse<T>(str)",
        "write_to_string(x, str)", "serialize_to_document(x, doc)"};
    std::vector<int> which;
    if (op.parse) which.push_back(4 + static_cast<int>(s.below(2)));
    which.push_back(static_cast<int>(s.below(4)));
    if (valid) which.push_back(6 + static_cast<int>(s.below(2)));
    c.describe(std::string(op.name) + " " + kinds[t.kind] + " (" + std::to_string(n) + " and " + std::to_string(FACTOR * n) + ") " + texts[0]);
    for (int w : which) {
        Cost costs[3];
        bool ok[3] = {};
        for (int i = 1; i < 3; ++i) {
            Val y(op);
            std::string moved = texts[i], out;
            rapidjson::Document doc;
            if (w == 2) doc.Parse(texts[i].c_str());
            costs[i] = measure(ok[i], [&]() -> bool {
                switch (w) {
                    case 0: return op.deser_s(texts[i], y.p);
                    case 1: op.deser_s_v(texts[i], y.p); return true;
                    case 2: return op.deser(doc, y.p);
                    case 3: return op.deser_m(std::move(moved), y.p);
                    case 4: return op.parse(texts[i], y.p);
                    case 5: op.parse_v(texts[i], y.p); return true;
                    case 6: return op.write(values[i].p, out);
                    default: return op.ser(values[i].p, doc);
                }
            });
        }
        // a failure that ends the operation early, or one that is avoided, says nothing about growth
        if (ok[1] != ok[2]) continue;
        std::string what = std::string(names[w]) + (ok[1] ? "" : " (fails)");
        compare(what, "steps", costs[1].steps, costs[2].steps, 2000, n, c);
        compare(what, "bytes touched", costs[1].touched, costs[2].touched, 60000, n, c);
        compare(what, "bytes allocated", costs[1].allocated, costs[2].allocated, 140000, n, c);
    }
}

int r = [] {
    register_property({"C28", "the extended texts are accepted, so that the operations process them as a whole", c28, {}});
    return 0;
}();

}
