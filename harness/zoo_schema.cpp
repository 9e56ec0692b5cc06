// The JSON Schema of a type describes the JSON values of the type.
#include "zoo_util.hpp"
#include <map>

namespace {

struct Validator {
    const J& root;
    bool unique = true;
    std::string why;
    bool broken = false;    // the schema itself is not understood

    bool fail(const std::string& w)
    {
        if (why.empty()) why = w;
        return false;
    }
    bool bad(const std::string& w)
    {
        broken = true;
        return fail("schema: " + w);
    }
    static bool integral(const J& v, __int128& n)
    {
        if (v.k != J::Num) return false;
        if (is_integer_literal(v.s)) return parse_int128(v.s, n);
        double d = std::strtod(v.s.c_str(), nullptr);
        if (!std::isfinite(d) || d != std::floor(d) || std::fabs(d) > 1e30) return false;
        n = static_cast<__int128>(d);
        return true;
    }
    bool check(const J& schema, const J& v, int fuel = 400)
    {
        if (fuel == 0) return bad("unbounded reference");
        if (schema.k == J::Bool) return schema.b || fail("not allowed");
        if (schema.k != J::Obj) return bad("not an object");
        bool known = false;
        for (auto& kw : schema.o) {
            const std::string& k = kw.key;
            const J& x = kw.v;
            if (k == "$schema" || k == "definitions") continue;
            if (k == "format" || k == "contentEncoding") {
                if (x.k != J::Str) return bad(k);
                if (v.k != J::Str) continue;
                int y, m, d;
                long long t;
                std::vector<std::byte> b;
                bool ok = k == "format" && x.s == "date" ? ref_parse_date(v.s, y, m, d) : k == "format" && x.s == "date-time" ? ref_parse_datetime(v.s, t) :
                    k == "contentEncoding" && x.s == "base64" ? ref_unbase64(v.s, b) != Verdict::REJ : bad(k + " " + x.s);
                if (!ok) return fail(k + " " + x.s);
                continue;
            }
            if (k == "$ref") {
                known = true;
                if (x.k != J::Str || x.s.empty() || x.s[0] != '#') return bad("reference");
                const J* t = jresolve(root, x.s.substr(1));
                if (!t) return bad("unresolved reference " + x.s);
                if (!check(*t, v, fuel - 1)) return false;
            } else if (k == "type") {
                known = true;
                if (x.k != J::Str) return bad("type");
                __int128 n;
                bool ok = x.s == "null" ? v.k == J::Null : x.s == "boolean" ? v.k == J::Bool : x.s == "string" ? v.k == J::Str : x.s == "array" ? v.k == J::Arr : x.s == "object" ? v.k == J::Obj :
                    x.s == "number" ? v.k == J::Num : x.s == "integer" ? integral(v, n) : bad("type " + x.s);
                if (!ok) return fail("type " + x.s);
            } else if (k == "minimum" || k == "maximum") {
                __int128 lim, n;
                if (!integral(x, lim)) return bad(k);
                if (v.k == J::Num) {
                    if (!integral(v, n)) return fail(k);
                    if (k == "minimum" ? n < lim : n > lim) return fail(k);
                }
            } else if (k == "items") {
                if (v.k == J::Arr && schema.find("prefixItems") == nullptr) {
                    for (auto& i : v.a) if (!check(x, i, fuel - 1)) return false;
                }
            } else if (k == "prefixItems") {
                if (x.k != J::Arr) return bad(k);
                if (v.k == J::Arr) {
                    for (std::size_t i = 0; i < v.a.size() && i < x.a.size(); ++i) if (!check(x.a[i], v.a[i], fuel - 1)) return false;
                }
            } else if (k == "minItems" || k == "maxItems") {
                __int128 lim;
                if (!integral(x, lim)) return bad(k);
                if (v.k == J::Arr && (k == "minItems" ? static_cast<__int128>(v.a.size()) < lim : static_cast<__int128>(v.a.size()) > lim)) return fail(k);
            } else if (k == "uniqueItems") {
                if (x.k != J::Bool) return bad(k);
                if (unique && x.b && v.k == J::Arr) {
                    for (std::size_t i = 0; i < v.a.size(); ++i)
                        for (std::size_t n = 0; n < i; ++n)
                            if (jsame(v.a[i], v.a[n])) return fail(k);
                }
            } else if (k == "properties") {
                if (x.k != J::Obj) return bad(k);
                if (v.k == J::Obj) {
                    for (auto& m : x.o) {
                        if (const J* y = v.find(m.key)) {
                            if (!check(m.v, *y, fuel - 1)) return false;
                        }
                    }
                }
            } else if (k == "required") {
                if (x.k != J::Arr) return bad(k);
                if (v.k == J::Obj) {
                    for (auto& n : x.a) {
                        if (n.k != J::Str) return bad(k);
                        if (!v.find(n.s)) return fail("required " + n.s);
                    }
                }
            } else if (k == "additionalProperties") {
                if (v.k == J::Obj) {
                    const J* props = schema.find("properties");
                    for (auto& m : v.o) {
                        if (props && props->find(m.key)) continue;
                        if (!check(x, m.v, fuel - 1)) return fail("additional property");
                    }
                }
            } else if (k == "enum") {
                if (x.k != J::Arr) return bad(k);
                bool any = false;
                for (auto& i : x.a) any = any || jsame(i, v);
                if (!any) return fail(k);
            } else if (k == "oneOf") {
                known = true;
                if (x.k != J::Arr) return bad(k);
                int n = 0;
                std::string keep = why;
                for (auto& i : x.a) n += check(i, v, fuel - 1) ? 1 : 0;
                why = keep;
                if (n != 1) return fail("oneOf matches " + std::to_string(n));
            } else {
                return bad("unexpected keyword " + k);
            }
        }
        if (!known) return bad("schema without type");
        return true;
    }
};

struct Schemas {
    JText plain, doc;
};

const Schemas& schemas_of(const Ops& op)
{
    static std::map<const Ops*, Schemas> cache;
    auto it = cache.find(&op);
    if (it == cache.end()) {
        Schemas x;
        std::string t = op.schema(), u = op.schema_doc();
        x.plain = jread(t);
        x.doc = jread(u);
        if (!x.plain.valid || !x.doc.valid) violate("schema is not valid JSON: " + t + " " + u);
        if (x.plain.dup || x.doc.dup) violate("schema has duplicate member names: " + u);
        if (t != op.schema() || u != op.schema_doc()) violate("schema differs between calls: " + t);
        if (!x.doc.root.find("$schema")) violate("schema document does not identify the version of JSON Schema: " + u);
        // but for the version, both forms agree
        J a = x.doc.root;
        for (std::size_t i = 0; i < a.o.size(); ++i) {
            if (a.o[i].key == "$schema") {
                a.o.erase(a.o.begin() + static_cast<std::ptrdiff_t>(i));
                break;
            }
        }
        if (!jsame(a, x.plain.root)) violate("schema and schema document differ: " + t + " " + u);
        it = cache.emplace(&op, std::move(x)).first;
    }
    return it->second;
}

bool structural(const char* what)
{
    static const char* const list[] = {"null", "boolean", "integer", "integer range", "number", "string", "base64 string", "date-time string", "date string", "base64", "date-time", "date", "enumeration string", "array", "array length", "tuple length", "object",
        "missing required property", "unknown property"};
    for (auto w : list) if (std::string(w) == what) return true;
    return false;
}

// ---- C19
void c19(Src& s, Case& c)
{
    static const auto ops = select_ops(F_SCHEMA);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    const Schemas& sc = schemas_of(op);
    if (s.chance(1, 2)) {
        // whatever is written validates
        Val x(op);
        Arena arena;
        gen_value(s, op, x.p, arena);
        std::string text = s.chance(1, 2) ? op.write_v(x.p) : text_of(op.ser_v(x.p));
        c.describe(std::string(op.name) + " write " + text);
        c.nontrivial = text.size() > 1;
        c.label("written");
        JText t = jread(text);
        if (!t.valid) violate("output is not JSON: " + text);
        Validator v{sc.doc.root};
        if (!v.check(sc.doc.root, t.root)) violate("schema rejects what write_to_string gives (" + v.why + "): " + text + " schema " + jwrite(sc.doc.root));
        return;
    }
    DocOptions opt;
    opt.valid = 15;
    opt.mutated = 70;
    opt.bytes = 0;
    opt.any = 10;
    Doc d = gen_doc(s, op, opt);
    c.describe(std::string(op.name) + " text " + d.text);
    if (!d.plain()) return;
    Val y(op);
    Dec dec;
    dec.mode = op.parse || (op.flags & F_PARSE) ? Dec::PARSE : Dec::DOM;
    dec.root = &d.j.root;
    bool ok = op.dec(d.j.root, y.p, dec);
    dec.finish();
    if (dec.uns || dec.ref_ok || dec.ref_bad || (dec.mode == Dec::DOM && dec.unknown)) {
        c.label("out of scope");
        return;
    }
    Validator v{sc.doc.root};
    v.unique = false;
    bool valid = v.check(sc.doc.root, d.j.root);
    if (v.broken) violate("schema not understood (" + v.why + "): " + jwrite(sc.doc.root));
    if (ok) {
        c.label("conforming text");
        c.nontrivial = true;
        Validator u{sc.doc.root};
        bool distinct = u.check(sc.doc.root, d.j.root);
        if (dec.repeat) {
            c.label("items of a set repeated");
            if (valid && distinct) violate("schema accepts a set that lists an item twice: " + d.text + " schema " + jwrite(sc.doc.root));
        } else if (!dec.merged && valid && !distinct) {
            violate("schema rejects a value of the type (" + u.why + "): " + d.text + " schema " + jwrite(sc.doc.root));
        }
        if (!valid) violate("schema rejects a value of the type (" + v.why + "): " + d.text + " schema " + jwrite(sc.doc.root));
    } else {
        for (auto& e : dec.errors) {
            if (!structural(e.what)) continue;
            c.label(std::string("violating text: ") + e.what);
            c.nontrivial = true;
            if (valid) violate(std::string("schema accepts what is no value of the type (") + e.what + " at " + e.path + "): " + d.text + " schema " + jwrite(sc.doc.root));
            break;
        }
    }
}

int r = [] {
    register_property({"C19", "a written value, a conforming text, or a text with a structural error is held against the schema", c19, {}});
    return 0;
}();

}
