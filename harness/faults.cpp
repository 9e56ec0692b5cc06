// C27: memory that runs out in the middle of an operation.
#include "zoo_util.hpp"
#include <cstdlib>
#include <new>
#include <algorithm>

extern "C" std::size_t __sanitizer_get_current_allocated_bytes();

namespace {

bool counting = false;
bool fired = false;
std::size_t allocations = 0;
std::size_t fail_at = 0;

void* allocate(std::size_t n)
{
    if (counting && ++allocations == fail_at) {
        fired = true;
        return nullptr;
    }
    return std::malloc(n ? n : 1);
}

void* allocate_aligned(std::size_t n, std::size_t align)
{
    if (counting && ++allocations == fail_at) {
        fired = true;
        return nullptr;
    }
    return std::aligned_alloc(align, (n + align - 1) / align * align);
}

void* or_throw(void* p)
{
    if (!p) throw std::bad_alloc();
    return p;
}

}

void* operator new(std::size_t n) { return or_throw(allocate(n)); }
void* operator new[](std::size_t n) { return or_throw(allocate(n)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return allocate(n); }
void* operator new(std::size_t n, std::align_val_t a) { return or_throw(allocate_aligned(n, static_cast<std::size_t>(a))); }
void* operator new[](std::size_t n, std::align_val_t a) { return or_throw(allocate_aligned(n, static_cast<std::size_t>(a))); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }

namespace {

enum Verdict { TRUE, FALSE, REFUSED, MEMORY, FOREIGN };
const char* const verdict_names[] = {"succeeds", "returns false", "throws an error of the library", "throws std::bad_alloc", "throws another exception"};

// performs the call with the allocation numbered at failing (none if 0)
template<typename F>
Verdict attempt(std::size_t at, F f)
{
    allocations = 0;
    fired = false;
    fail_at = at;
    counting = true;
    Verdict v;
    try {
        v = f() ? TRUE : FALSE;
    } catch (const std::bad_alloc&) {
        v = MEMORY;
    } catch (const persistence::JsonParseError&) {
        v = REFUSED;
    } catch (const persistence::JsonDeserializationError&) {
        v = REFUSED;
    } catch (const persistence::JsonSerializationError&) {
        v = REFUSED;
    } catch (...) {
        v = FOREIGN;
    }
    counting = false;
    return v;
}

void c27(Src& s, Case& c)
{
    static const auto ops = select_ops(F_DOM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    Arena arena;
    Val x(op);
    bool bad = (op.flags & F_UNREP) && s.chance(1, 6);
    gen_value(s, op, x.p, arena, (op.flags & F_SHARED) && s.chance(1, 2), bad);
    DocOptions opt;
    opt.valid = 60;
    opt.share = true;
    Doc d = gen_doc(s, op, opt);
    std::size_t which = s.below(op.schema ? 13 : 12);
    bool reads = which >= 4 && which < 12;
    if (reads && d.text.size() > 3000) {
        c.label("long");
        d = make_doc("null", "null");
    }
    bool prefill = s.chance(1, 2);
    std::uint64_t fill_seed = s.bits64();
    static const char* const names[] = {"write_to_string(x, str)", "serialize_to_document(x, doc)", "write_to_string(x)", "serialize_to_document(x)", "deserialize(str, y)", "deserialize<T>(str)",
        "parse(str, y)", "parse<T>(str)", "deserialize(std::move(str), y)", "deserialize<T>(std::move(str))", "deserialize(doc, y)", "deserialize<T>(doc)", "schema_to_string<T>()"};
    if (!op.parse && (which == 6 || which == 7)) which -= 2;
    rapidjson::Document source;
    source.Parse(d.text.c_str());
    if (which == 10 || which == 11) {
        if (source.HasParseError()) which -= 6;
    }
    const std::string source_text = source.HasParseError() ? std::string() : text_of(source);
    std::string value;
    bool representable = op.write(x.p, value);
    if (!reads && value.size() > 3000) {
        c.label("long");
        return;
    }
    const std::string text = d.text;
    c.describe(std::string(op.name) + " " + names[which] + " " + (reads ? text : representable ? value : std::string("(unrepresentable)")));

    std::string out;                    // what an output operation gave
    auto run = [&](std::size_t at, Val* y) {
        out.clear();
        std::string moved = text;
        rapidjson::Document doc;
        Verdict v = attempt(at, [&]() -> bool {
            switch (which) {
                case 0: return op.write(x.p, out);
                case 1: return op.ser(x.p, doc);
                case 2: out = op.write_v(x.p); return true;
                case 3: doc = op.ser_v(x.p); return true;
                case 4: return op.deser_s(text, y->p);
                case 5: op.deser_s_v(text, y->p); return true;
                case 6: return op.parse(text, y->p);
                case 7: op.parse_v(text, y->p); return true;
                case 8: return op.deser_m(std::move(moved), y->p);
                case 9: op.deser_m_v(std::move(moved), y->p); return true;
                case 10: return op.deser(source, y->p);
                case 11: op.deser_v(source, y->p); return true;
                default: out = op.schema(); return true;
            }
        });
        if (v == TRUE && (which == 1 || which == 3)) out = text_of(doc);
        return v;
    };
    auto fresh = [&](Val& y) {
        if (prefill) {
            Src fixed = Src::random(fill_seed, nullptr);
            Arena a;
            gen_value(fixed, op, y.p, a);
        }
    };

    // without fault
    Val want(op);
    fresh(want);
    Verdict normal = run(0, &want);
    const std::string normal_out = out;
    const std::size_t total = allocations;
    if (normal == MEMORY || normal == FOREIGN) violate(std::string(names[which]) + " " + verdict_names[normal] + " for " + (reads ? text : value));
    c.label(std::string(names[which]) + " " + verdict_names[normal]);
    c.nontrivial = total > 0;
    std::vector<std::size_t> points;
    if (total <= 24) {
        for (std::size_t i = 1; i <= total; ++i) points.push_back(i);
    } else {
        for (int i = 0; i < 24; ++i) points.push_back(1 + s.below(total));
    }
    c.label(total == 0 ? "no allocation" : total <= 24 ? "every allocation" : "24 allocations of more");
    for (auto at : points) {
        std::size_t before = 0, after = 0;
        Verdict v = MEMORY;
        bool hit = false;
        for (int i = 0; i < 3; ++i) {
            out.clear();
            out.shrink_to_fit();
            before = __sanitizer_get_current_allocated_bytes();
            {
                Val y(op);
                fresh(y);
                v = run(at, &y);
                hit = fired;
                std::string where = std::string(names[which]) + ", with allocation " + std::to_string(at) + " of " + std::to_string(total) + " failing, ";
                if (v == FOREIGN || (v == MEMORY && !hit)) violate(where + verdict_names[v]);
                if (v != MEMORY) {
                    // survived: then with the same result
                    if (v != normal) violate(where + verdict_names[v] + " instead of std::bad_alloc; otherwise it " + verdict_names[normal]);
                    if (v == TRUE && (reads ? !equal(op, want.p, y.p, text) : out != normal_out)) violate(where + "gives another result: " + (reads ? std::string("") : out));
                } else if (i == 0) {
                    // the target can be used again
                    Verdict w = run(0, &y);
                    if (w != normal) violate(where + "throws, and on the same target afterwards " + verdict_names[w] + "; otherwise it " + verdict_names[normal]);
                    if (w == TRUE && !reads && out != normal_out) violate(where + "throws, and afterwards gives another result: " + out);
                }
            }
            out.clear();
            out.shrink_to_fit();
            after = __sanitizer_get_current_allocated_bytes();
            if (after <= before) break;
        }
        if (after > before) violate(std::string(names[which]) + " retains " + std::to_string(after - before) + " bytes after allocation " + std::to_string(at) + " of " + std::to_string(total) + " failed");
    }
    // sources are as before, and the operation works
    std::string again;
    if (op.write(x.p, again) != representable || (representable && again != value)) violate(std::string(names[which]) + " changed the object: " + again);
    if (!source.HasParseError() && text_of(source) != source_text) violate(std::string(names[which]) + " changed the document: " + text_of(source));
    Val y(op);
    fresh(y);
    Verdict v = run(0, &y);
    if (v != normal || (v == TRUE && (reads ? !equal(op, want.p, y.p, text) : out != normal_out))) violate(std::string(names[which]) + " does not work any more: " + verdict_names[v]);
}

int r = [] {
    register_property({"C27", "the operation allocates memory, so that there is something to fail", c27, {}});
    return 0;
}();

}
