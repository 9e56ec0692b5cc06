// Helpers shared by the properties over the registered types.
#pragma once
#include "ops_decl.hpp"
#include <persistence/exception.hpp>

struct Val {
    const Ops* op = nullptr;
    void* p = nullptr;
    explicit Val(const Ops& o) : op(&o), p(o.create()) {}
    Val(const Val&) = delete;
    Val& operator=(const Val&) = delete;
    ~Val() { drop(); }
    void drop()
    {
        if (p) op->destroy(p);
        p = nullptr;
    }
};

struct Outcome {
    enum Kind { OK, PARSE, DESER, SER, OTHER };
    Kind kind = OK;
    std::string path, what;
    std::size_t offset = 0;
    bool ok() const { return kind == OK; }
    const char* name() const
    {
        static const char* const n[] = {"no exception", "JsonParseError", "JsonDeserializationError", "JsonSerializationError", "another exception"};
        return n[kind];
    }
};

template<typename F>
Outcome guarded(F f)
{
    Outcome o;
    try {
        f();
    } catch (const persistence::JsonParseError& e) {
        o.kind = Outcome::PARSE;
        o.offset = e.offset;
        o.what = e.what();
    } catch (const persistence::JsonDeserializationError& e) {
        o.kind = Outcome::DESER;
        o.path = e.path;
        o.what = e.what();
    } catch (const persistence::JsonSerializationError& e) {
        o.kind = Outcome::SER;
        o.what = e.what();
    } catch (const Violation&) {
        throw;
    } catch (const std::exception& e) {
        o.kind = Outcome::OTHER;
        o.what = e.what();
    } catch (...) {
        o.kind = Outcome::OTHER;
        o.what = "(not derived from std::exception)";
    }
    return o;
}

// a call that returns its verdict and may not throw
template<typename F>
bool quiet(const char* call, F f)
{
    bool r = false;
    Outcome o = guarded([&] { r = f(); });
    if (!o.ok()) violate(std::string(call) + " threw " + o.name() + ": " + o.what);
    return r;
}

inline bool equal(const Ops& op, const void* a, const void* b)
{
    Eq e;
    return op.eq(a, b, e);
}

// equality of a value read from the text with the expected one
inline bool equal(const Ops& op, const void* a, const void* b, std::string_view text)
{
    Eq e;
    e.slack = number_slack(text);
    return op.eq(a, b, e);
}

std::vector<const Ops*> select_ops(unsigned all, unsigned any = 0, unsigned none = 0);
const Ops& pick_op(Src& s, const std::vector<const Ops*>& v);
void gen_value(Src& s, const Ops& op, void* p, Arena& arena, bool share = false, bool unrep = false, G* info = nullptr);

struct Doc {
    std::string text;
    JText j;
    std::string label;
    bool plain() const { return j.valid && !j.odd && !j.dup && !j.numbig && !j.deep; }
};
struct DocOptions {
    unsigned valid = 35, mutated = 40, any = 8, bytes = 12, reorder = 5;
    bool share = false;
    bool deep = false;          // recursive types: also texts beyond the nesting that the streaming parser supports
};
J nested(const std::string& type, std::size_t levels, std::size_t salt);
Doc gen_doc(Src& s, const Ops& op, const DocOptions& opt = {});
Doc make_doc(std::string text, std::string label);
void shuffle_members(J& j, Src& s);
std::string text_of(const rapidjson::Document& d);

// facilities of the library that are exercised directly
bool check_assignable(Src& s, Case& c);
bool check_hash(Src& s, Case& c);
bool check_stack(Src& s, Case& c);
