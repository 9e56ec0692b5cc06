// The stack of parse states.
#include "zoo_util.hpp"
#ifndef FALLBACK
#include <persistence/detail/polymorphic_stack.hpp>

namespace {

struct Base {
    virtual ~Base() { --live; }
    virtual int id() const = 0;
    static int live;
    Base() { ++live; }
};
int Base::live = 0;

template<std::size_t N>
struct Sized : Base {
    int v;
    unsigned char fill[N];
    explicit Sized(int v) : v(v) { std::memset(fill, v & 255, N); }
    int id() const override
    {
        for (auto b : fill) if (b != (v & 255)) return -1;
        return v;
    }
};
struct Owning : Base {
    std::string text;
    int v;
    explicit Owning(int v) : text(40, static_cast<char>('a' + v % 26)), v(v) {}
    int id() const override { return text == std::string(40, static_cast<char>('a' + v % 26)) ? v : -1; }
};

template<typename Stack>
void stack_run(Src& s, Case& c, std::size_t capacity)
{
    Base::live = 0;
    std::vector<int> model;
    std::size_t refused = 0, ops = 0, pops = 0;
    {
        auto stack = std::make_unique<Stack>();
        std::size_t n = 1 + s.below(300);
        unsigned bias = static_cast<unsigned>(1 + s.below(4));
        for (std::size_t i = 0; i < n; ++i) {
            ++ops;
            if (s.below(5) < bias) {
                int v = static_cast<int>(s.below(1000));
                bool ok = true;
                try {
                    Base* b;
                    switch (s.below(5)) {
                        case 0: b = &stack->template emplace<Sized<1>>(v); break;
                        case 1: b = &stack->template emplace<Sized<20>>(v); break;
                        case 2: b = &stack->template emplace<Sized<100>>(v); break;
                        case 3: b = &stack->template emplace<Owning>(v); break;
                        default: b = &stack->template emplace<Sized<12>>(v);
                    }
                    if (b->id() != v) violate("emplace returns another object");
                } catch (const std::out_of_range&) {
                    ok = false;
                    ++refused;
                }
                if (ok) model.push_back(v);
                if (!ok && model.size() < 16) violate("stack refuses item " + std::to_string(model.size() + 1));
                if (model.size() > capacity) violate("stack holds more items than its capacity");
            } else {
                ++pops;
                bool ok = true;
                try {
                    stack->pop();
                } catch (const std::out_of_range&) {
                    ok = false;
                }
                if (ok == model.empty()) violate("pop of a stack of " + std::to_string(model.size()) + (ok ? " succeeds" : " fails"));
                if (ok) model.pop_back();
            }
            if (Base::live != static_cast<int>(model.size())) violate(std::to_string(Base::live) + " objects alive but " + std::to_string(model.size()) + " on the stack");
            if (!model.empty() && stack->back().id() != model.back()) violate("object on top of the stack is not the last one pushed and not popped");
        }
        // unwind some and check each that surfaces
        for (std::size_t k = s.below(model.size() + 1); k > 0; --k) {
            if (stack->back().id() != model.back()) violate("object on the stack has changed");
            stack->pop();
            model.pop_back();
        }
    }
    if (Base::live != 0) violate(std::to_string(Base::live) + " objects alive after the stack is gone");
    c.describe("stack: " + std::to_string(ops) + " operations, " + std::to_string(pops) + " pops, " + std::to_string(refused) + " refused");
    c.key = s.recorded().empty() ? 0 : hash_bytes(std::string_view(reinterpret_cast<const char*>(s.recorded().data()), s.recorded().size() * 8));
    c.label(refused ? "stack: capacity reached" : "stack");
    c.nontrivial = pops > 0;
}

}

bool check_stack(Src& s, Case& c)
{
    if (s.chance(1, 2)) stack_run<persistence::detail::PolymorphicStack<Base>>(s, c, 128);
    else stack_run<persistence::detail::PolymorphicStack<Base, 24, 8192>>(s, c, 24);
    return true;
}
#else
bool check_stack(Src&, Case&) { return false; }
#endif
