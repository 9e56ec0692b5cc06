// Properties of input: what is accepted, with which result, and how failures are reported.
#include "zoo_util.hpp"
#include <persistence/utility.hpp>

namespace {

struct Ref {
    Val v;
    Dec d;
    bool ok = false;
    Ref(const Ops& op, const Doc& doc, Dec::Mode mode) : v(op)
    {
        d.mode = mode;
        d.root = &doc.j.root;
        ok = op.dec(doc.j.root, v.p, d);
        d.finish();
    }
};

std::string show(const Ops& op, const void* p)
{
    Enc e;
    return jwrite(op.enc(p, e));
}

std::string first_error(const Dec& d) { return d.errors.empty() ? std::string("none") : std::string(d.errors[0].what) + " at " + d.errors[0].path; }

// compares the library with the reference decoder; mode selects the entry point
void against_reference(Src& s, Case& c, const Ops& op, const Doc& d)
{
    c.describe(std::string(op.name) + " " + d.text);
    if (!d.plain()) {
        c.label("not plain JSON");
        if (!d.j.valid && !d.j.odd && !d.j.deep) {
            if (op.parse) {
                Val y(op);
                if (quiet("parse(str, y)", [&] { return op.parse(d.text, y.p); })) violate("parse accepts malformed JSON: " + d.text);
            }
            if (op.deser_s) {
                Val y(op);
                if (quiet("deserialize(str, y)", [&] { return op.deser_s(d.text, y.p); })) violate("deserialize accepts malformed JSON: " + d.text);
            }
            c.nontrivial = true;
        }
        return;
    }
    if (op.parse) {
        Ref r(op, d, Dec::PARSE);
        if (r.d.uns) {
            c.label(std::string("parse: unspecified: ") + r.d.uns_why);
        } else {
            c.nontrivial = true;
            c.label(r.ok ? "parse: accept" : std::string("parse: reject: ") + r.d.errors[0].what);
            Val y(op);
            bool ok = quiet("parse(str, y)", [&] { return op.parse(d.text, y.p); });
            if (ok != r.ok) violate(std::string("parse ") + (ok ? "accepts" : "rejects") + " " + d.text + " for " + op.name + " (reference: " + first_error(r.d) + ")");
            if (ok && !equal(op, r.v.p, y.p, d.text)) violate("parse gives " + show(op, y.p) + " instead of " + show(op, r.v.p) + " for " + d.text);
        }
    }
    if (op.deser_s) {
        Ref r(op, d, Dec::DOM);
        if (r.d.uns) {
            c.label(std::string("deserialize: unspecified: ") + r.d.uns_why);
        } else {
            c.nontrivial = true;
            c.label(r.ok ? "deserialize: accept" : std::string("deserialize: reject: ") + r.d.errors[0].what);
            Val y(op);
            bool ok;
            switch (s.below(3)) {
                case 0: ok = quiet("deserialize(str, y)", [&] { return op.deser_s(d.text, y.p); }); break;
                case 1: ok = quiet("deserialize(str&&, y)", [&] { return op.deser_m(std::string(d.text), y.p); }); break;
                default: {
                    rapidjson::Document doc = persistence::string_to_document(d.text);
                    ok = quiet("deserialize(doc, y)", [&] { return op.deser(doc, y.p); });
                }
            }
            if (ok != r.ok) violate(std::string("deserialize ") + (ok ? "accepts" : "rejects") + " " + d.text + " for " + op.name + " (reference: " + first_error(r.d) + ")");
            if (ok && !equal(op, r.v.p, y.p, d.text)) violate("deserialize gives " + show(op, y.p) + " instead of " + show(op, r.v.p) + " for " + d.text);
        }
    }
}

// ---- C05: parse and deserialize agree
void c05(Src& s, Case& c)
{
    static const auto ops = select_ops(F_PARSE | F_DOM);
    const Ops& op = pick_op(s, ops);
    Doc d = gen_doc(s, op);
    c.label(op.name);
    c.describe(std::string(op.name) + " " + d.text);
    if (d.j.deep || d.j.odd || d.j.dup || d.j.numbig) {
        c.label("out of scope");
        return;
    }
    if (d.plain()) {
        Ref p(op, d, Dec::PARSE), q(op, d, Dec::DOM);
        if (p.d.uns || q.d.uns || p.d.unknown || q.d.unknown || q.d.ref_ok || q.d.ref_bad) {
            c.label("out of scope");
            return;
        }
    }
    c.nontrivial = true;
    Val y(op), z(op);
    bool a = quiet("parse(str, y)", [&] { return op.parse(d.text, y.p); });
    bool b = quiet("deserialize(str, z)", [&] { return op.deser_s(d.text, z.p); });
    c.label(a ? "accepted" : "rejected");
    if (a != b) violate(std::string("parse ") + (a ? "accepts" : "rejects") + " and deserialize " + (b ? "accepts" : "rejects") + " " + d.text + " for " + op.name);
    if (a && !equal(op, y.p, z.p)) violate("parse gives " + show(op, y.p) + " and deserialize gives " + show(op, z.p) + " for " + d.text);
    if (!a && s.chance(1, 4)) {
        Outcome o1 = guarded([&] { op.parse_v(d.text, y.p); }), o2 = guarded([&] { op.deser_s_v(d.text, z.p); });
        if (o1.ok() || o2.ok()) violate("throwing forms do not both reject " + d.text);
    }
}

// ---- C06: type-safe acceptance
void c06(Src& s, Case& c)
{
    static const auto ops = select_ops(0, F_PARSE | F_DOM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    against_reference(s, c, op, gen_doc(s, op));
}

// ---- C07: numbers
const char* const edge[] = {"127", "128", "-128", "-129", "255", "256", "32767", "32768", "-32768", "-32769", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296",
    "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "16777215", "16777216", "16777217", "9007199254740991", "9007199254740992", "9007199254740993",
    "-1", "-0", "0", "1", "-0.0", "0.0", "1e0", "1E2", "12e-1", "3.4028234663852886e38", "3.4028235677973366e38", "-3.4028234663852886e38", "3.5e38", "1e39", "-1e39", "1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "4.9e-324", "1e-400", "1.401298464324817e-45",
    "1.1754943508222875e-38", "0.1", "0.30000000000000004", "123456789012345678901234567890", "1.0000000000000002", "0.1e1", "100000000000000000000", "1e19"};

void vary_numbers(J& j, Src& s, int& n)
{
    if (j.k == J::Num && (n == 0 || s.chance(1, 5))) {
        ++n;
        switch (s.below(4)) {
            case 0: j.s = edge[s.below(std::size(edge))]; break;
            case 1: {
                // a neighbour of an edge
                __int128 v;
                std::string lit = edge[s.below(30)];
                parse_int128(lit, v);
                v += static_cast<int>(s.below(5)) - 2;
                bool neg = v < 0;
                if (neg) v = -v;
                std::string t;
                do { t.insert(t.begin(), static_cast<char>('0' + static_cast<int>(v % 10))); v /= 10; } while (v);
                j.s = (neg ? "-" : "") + t;
                break;
            }
            case 2: j.s = gen_number_literal(s); break;
            default: {
                char b[400];
                double d = gen_double(s);
                std::snprintf(b, sizeof b, "%.*g", static_cast<int>(1 + s.below(25)), d);
                if (std::isfinite(d)) j.s = b;
            }
        }
        // valid JSON number? snprintf may yield e+10, which is fine
    }
    for (auto& x : j.a) vary_numbers(x, s, n);
    for (auto& m : j.o) vary_numbers(m.v, s, n);
}



void c07(Src& s, Case& c)
{
    static const auto ops = select_ops(0, F_NUM);
    if (s.chance(1, 6) && check_assignable(s, c)) return;
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    Val x(op);
    Arena arena;
    gen_value(s, op, x.p, arena);
    Enc e;
    J j = op.enc(x.p, e);
    if (s.chance(1, 4)) {
        // written exactly, and read back exactly
        std::string text = op.write_v(x.p);
        c.describe(std::string(op.name) + " write " + text);
        c.nontrivial = true;
        JText t = jread(text);
        if (!t.valid || !jsame(t.root, j)) violate("number written is not the number stored: " + text + " for " + jwrite(j));
        if (op.parse) {
            Val y(op);
            if (!op.parse(text, y.p) || !equal(op, x.p, y.p, text)) violate("number read by parse is not the number written: " + text);
        }
        if (!(op.flags & F_VARIANT)) {
            Val y(op);
            if (!op.deser_s(text, y.p) || !equal(op, x.p, y.p, text)) violate("number read by deserialize is not the number written: " + text);
        }
        return;
    }
    int n = 0;
    vary_numbers(j, s, n);
    against_reference(s, c, op, make_doc(s.chance(1, 2) ? jwrite(j) : jwrite(j, s), "numbers"));
}

// ---- C08: forms that throw and forms that do not
void c08(Src& s, Case& c)
{
    static const auto ops = select_ops(F_DOM);
    static const auto unrep = select_ops(F_DOM | F_UNREP);
    if (s.chance(1, 6)) {
        const Ops& op = pick_op(s, unrep);
        Val x(op);
        Arena arena;
        gen_value(s, op, x.p, arena, false, s.chance(2, 3));
        c.label(op.name);
        std::string t, tv;
        bool w = quiet("write_to_string(x, str)", [&] { return op.write(x.p, t); });
        Outcome o = guarded([&] { tv = op.write_v(x.p); });
        rapidjson::Document doc;
        bool d = quiet("serialize_to_document(x, doc)", [&] { return op.ser(x.p, doc); });
        Outcome q = guarded([&] { (void)op.ser_v(x.p); });
        c.describe(std::string(op.name) + " output " + show(op, x.p));
        c.label(w ? "output succeeds" : "output fails");
        c.nontrivial = true;
        if (o.kind != (w ? Outcome::OK : Outcome::SER)) violate(std::string("write_to_string(x, str) returns ") + (w ? "true" : "false") + " and write_to_string(x): " + o.name());
        if (q.kind != (d ? Outcome::OK : Outcome::SER)) violate(std::string("serialize_to_document(x, doc) returns ") + (d ? "true" : "false") + " and serialize_to_document(x): " + q.name());
        if (w && t != tv) violate("forms of write_to_string give " + t + " and " + tv);
        return;
    }
    const Ops& op = pick_op(s, ops);
    DocOptions opt;
    opt.valid = 20;
    opt.mutated = 55;
    opt.share = true;
    opt.deep = true;
    Doc d = gen_doc(s, op, opt);
    c.label(op.name);
    c.describe(std::string(op.name) + " " + d.text);
    bool malformed = !d.j.valid && !d.j.odd && !d.j.deep;
    auto forms = [&](const char* name, auto plain, auto throwing) {
        Val y(op), z(op);
        bool ok = quiet(name, [&] { return plain(y.p); });
        Outcome o = guarded([&] { throwing(z.p); });
        c.label(std::string(name) + ": " + o.name());
        if (o.kind == Outcome::OTHER || o.kind == Outcome::SER) violate(std::string(name) + ": throwing form raised " + o.name() + " (" + o.what + ") for " + d.text);
        if (ok != o.ok()) violate(std::string(name) + ": form without exceptions returns " + (ok ? "true" : "false") + ", form with exceptions: " + o.name() + " " + o.what + " for " + d.text);
        if (ok && !equal(op, y.p, z.p)) violate(std::string(name) + ": forms give " + show(op, y.p) + " and " + show(op, z.p) + " for " + d.text);
        if (malformed && o.kind != Outcome::PARSE) violate(std::string(name) + ": malformed text reported as " + o.name() + ": " + d.text);
        if (!ok && o.what.empty()) violate(std::string(name) + ": exception without message");
        c.nontrivial |= !ok;
        return o;
    };
    if (op.parse) {
        Outcome o = forms("parse", [&](void* p) { return op.parse(d.text, p); }, [&](void* p) { op.parse_v(d.text, p); });
        if (!o.ok() && o.kind != Outcome::PARSE) violate(std::string("parse<T> raised ") + o.name() + " for " + d.text);
    }
    Outcome o;
    switch (s.below(3)) {
        case 0: o = forms("deserialize(str)", [&](void* p) { return op.deser_s(d.text, p); }, [&](void* p) { op.deser_s_v(d.text, p); }); break;
        case 1: o = forms("deserialize(str&&)", [&](void* p) { return op.deser_m(std::string(d.text), p); }, [&](void* p) { op.deser_m_v(std::string(d.text), p); }); break;
        default: {
            rapidjson::Document doc = persistence::string_to_document(d.text);
            o = forms("deserialize(doc)", [&](void* p) { return op.deser(doc, p); }, [&](void* p) { op.deser_v(doc, p); });
        }
    }
    if (d.plain() && !o.ok() && o.kind != Outcome::DESER) violate(std::string("deserialize of well-formed JSON raised ") + o.name() + " " + o.what + " for " + d.text);
}

// ---- C09: where a failure is reported
void c09(Src& s, Case& c)
{
    static const auto ops = select_ops(0, F_PARSE | F_DOM);
    const Ops& op = pick_op(s, ops);
    DocOptions opt;
    opt.valid = 2;
    opt.reorder = 2;
    opt.mutated = 75;
    opt.bytes = 15;
    opt.any = 6;
    opt.share = true;
    Doc d = gen_doc(s, op, opt);
    c.label(op.name);
    c.describe(std::string(op.name) + " " + d.text);
    auto parse_error = [&](const char* call, const Outcome& o) {
        // malformed: at or before the place where the text ceases to be a prefix of JSON, and within the token that is broken
        if (o.offset > d.text.size()) violate(std::string(call) + ": offset " + std::to_string(o.offset) + " beyond the text of " + std::to_string(d.text.size()) + " bytes: " + d.text);
    };
    if (!d.j.valid) {
        if (d.j.odd || d.j.deep || d.j.numbig || d.text.find('\0') != std::string::npos) {
            c.label("out of scope");
            return;
        }
        c.nontrivial = true;
        c.label("malformed");
        if (op.parse) {
            Val y(op);
            Outcome o = guarded([&] { op.parse_v(d.text, y.p); });
            if (o.kind == Outcome::PARSE) parse_error("parse", o);
        }
        if (op.deser_s) {
            Val y(op);
            Outcome o = guarded([&] { op.deser_s_v(d.text, y.p); });
            if (o.kind == Outcome::PARSE) {
                parse_error("deserialize", o);
                // the reported offset lies in the broken token: the text before it is a prefix of valid JSON
                if (o.offset > d.j.errpos + 12) violate("deserialize: offset " + std::to_string(o.offset) + " lies behind the first malformed byte " + std::to_string(d.j.errpos) + ": " + d.text);
            }
        }
        return;
    }
    if (!d.plain()) {
        c.label("out of scope");
        return;
    }
    if (op.parse) {
        Ref r(op, d, Dec::PARSE);
        Val y(op);
        Outcome o = guarded([&] { op.parse_v(d.text, y.p); });
        if (!r.d.uns && !r.ok && o.kind == Outcome::PARSE) {
            c.nontrivial = true;
            c.label(std::string("parse: ") + r.d.errors[0].what);
            bool found = false;
            std::string spans;
            for (auto& e : r.d.errors) {
                found = found || (o.offset >= e.beg && o.offset <= e.end);
                spans += " " + std::to_string(e.beg) + "-" + std::to_string(e.end) + " (" + e.what + ")";
            }
            if (!found) violate("parse reports offset " + std::to_string(o.offset) + " but the offending values are at" + spans + ": " + d.text);
        }
    }
    if (op.deser_s) {
        Ref r(op, d, Dec::DOM);
        Val y(op);
        Outcome o = guarded([&] { s.chance(1, 2) ? op.deser_s_v(d.text, y.p) : op.deser_m_v(std::string(d.text), y.p); });
        if (!r.d.uns && !r.ok && o.kind == Outcome::DESER) {
            c.nontrivial = true;
            c.label(std::string("deserialize: ") + r.d.errors[0].what);
            bool found = false;
            std::string paths;
            for (auto& e : r.d.errors) {
                found = found || e.path == o.path;
                paths += " " + e.path + " (" + e.what + ")";
            }
            if (!found) violate("deserialize reports path " + o.path + " but the offending values are at" + paths + ": " + d.text);
            if (o.path != "/" && !jresolve(d.j.root, o.path)) violate("reported path " + o.path + " does not resolve in " + d.text);
        }
    }
}

// ---- C10: arbitrary input
void c10(Src& s, Case& c)
{
    static const auto ops = select_ops(0, F_PARSE | F_DOM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    std::string text;
    std::string label;
    switch (s.below(8)) {
        case 0: {
            static const char abc[] = "{}[]\",:\\truefalsnl0123456789eE+-. \n\t/ubx$";
            for (std::size_t n = s.below(40); n > 0; --n) text += abc[s.below(sizeof abc - 1)];
            label = "token soup";
            break;
        }
        case 1: {
            for (std::size_t n = s.below(24); n > 0; --n) text += static_cast<char>(s.below(256));
            label = "random bytes";
            break;
        }
        case 2: {
            // nested far deeper than any type requires
            std::size_t n = 1 + s.below(150);
            static const char* const open[] = {"[", "{\"a\":", "[[", "[{\"kids\":", "{\"kids\":[", "{\"sub\":{\"\":", "{\"left\":", "[1,"};
            for (std::size_t i = 0; i < n; ++i) text += open[s.below(std::size(open))];
            if (s.chance(1, 2)) text += "1";
            label = "deep";
            break;
        }
        default: {
            DocOptions opt;
            opt.bytes = 60;
            opt.mutated = 20;
            opt.valid = 5;
            opt.reorder = 0;
            opt.any = 10;
            opt.share = true;
            Doc d = gen_doc(s, op, opt);
            text = d.text;
            label = d.label;
            for (std::size_t n = s.below(4); n > 0; --n) label = bytes_mutate(text, s);
        }
    }
    c.label(label);
    Doc d = make_doc(text, label);
    c.describe(std::string(op.name) + " " + text);
    bool malformed = !d.j.valid && !d.j.odd && !d.j.deep;
    c.label(d.j.valid ? "well-formed" : malformed ? "malformed" : "other");
    c.nontrivial = malformed;
    {
        rapidjson::Document doc = persistence::string_to_document(text);
        if (malformed && !doc.HasParseError()) violate("string_to_document accepts malformed text: " + text);
        if (d.plain() && doc.HasParseError()) violate("string_to_document rejects well-formed text: " + text);
        if (op.deser) {
            Val y(op);
            bool ok = quiet("deserialize(doc, y)", [&] { return op.deser(doc, y.p); });
            if (ok && malformed) violate("deserialize(doc, y) accepts a document with parse errors: " + text);
            Val z(op);
            Outcome o = guarded([&] { op.deser_v(doc, z.p); });
            if (malformed && o.kind != Outcome::PARSE) violate(std::string("deserialize<T>(doc) of a document with parse errors: ") + o.name() + ": " + text);
        }
    }
    if (op.parse) {
        Val y(op);
        bool ok = quiet("parse(str, y)", [&] { return op.parse(text, y.p); });
        if (ok && malformed) violate("parse accepts malformed text: " + text);
        Val z(op);
        Outcome o = guarded([&] { op.parse_v(text, z.p); });
        if (o.ok() != ok || (!ok && o.kind != Outcome::PARSE)) violate(std::string("parse<T>: ") + o.name() + " " + o.what + ": " + text);
    }
    if (op.deser_s) {
        Val y(op);
        bool ok = quiet("deserialize(str, y)", [&] { return op.deser_s(text, y.p); });
        if (ok && malformed) violate("deserialize accepts malformed text: " + text);
        Val z(op);
        bool ok2 = quiet("deserialize(str&&, y)", [&] { return op.deser_m(std::string(text), z.p); });
        if (ok != ok2) violate("deserialize(const str&) and deserialize(str&&) disagree on " + text);
        Val u(op);
        Outcome o = guarded([&] { s.chance(1, 2) ? op.deser_s_v(text, u.p) : op.deser_m_v(std::string(text), u.p); });
        if (o.ok() != ok || (!ok && o.kind != Outcome::PARSE && o.kind != Outcome::DESER)) violate(std::string("deserialize<T>: ") + o.name() + " " + o.what + ": " + text);
        if (malformed && o.kind != Outcome::PARSE) violate(std::string("deserialize<T> of malformed text: ") + o.name() + ": " + text);
    }
}

// ---- C16: variants
void c16(Src& s, Case& c)
{
    static const auto ops = select_ops(F_VARIANT | F_DOM);
    const Ops& op = pick_op(s, ops);
    DocOptions opt;
    opt.valid = 45;
    opt.mutated = 35;
    opt.any = 12;
    opt.bytes = 0;
    opt.reorder = 8;
    opt.share = true;
    Doc d = gen_doc(s, op, opt);
    c.label(op.name);
    c.describe(std::string(op.name) + " " + d.text);
    if (!d.plain()) return;
    Ref r(op, d, Dec::DOM);
    if (r.d.uns) {
        c.label("unspecified");
        return;
    }
    c.label(!r.ok ? "no alternative" : r.d.var_later ? "later alternative" : "first alternative");
    c.nontrivial = r.d.var_later > 0 || !r.ok;
    Val y(op);
    Arena arena;
    if (!(op.flags & (F_DEFAULT | F_CLASS)) && s.chance(1, 2)) gen_value(s, op, y.p, arena);    // what it held does not matter
    bool ok = quiet("deserialize(str, y)", [&] { return op.deser_s(d.text, y.p); });
    if (ok != r.ok) violate(std::string("deserialize ") + (ok ? "accepts" : "rejects") + " " + d.text + " for " + op.name + " (reference: " + first_error(r.d) + ")");
    if (ok && !equal(op, r.v.p, y.p, d.text)) violate("deserialize gives " + show(op, y.p) + " instead of " + show(op, r.v.p) + " (or another alternative) for " + d.text + " and " + op.name);
    Val z(op);
    Outcome o = guarded([&] { op.deser_s_v(d.text, z.p); });
    if (o.ok() != r.ok || (!ok && o.kind != Outcome::DESER)) violate(std::string("deserialize<T>: ") + o.name() + " for " + d.text);
    if (ok && !equal(op, r.v.p, z.p, d.text)) violate("deserialize<T> gives another value or alternative for " + d.text);
    // output: the stored alternative is what is written
    if (!ok) return;
    Enc e;
    J want = op.enc(y.p, e);
    if (!e.unrep) {
        JText t = jread(op.write_v(y.p));
        if (!t.valid || !jsame(t.root, want)) violate("write_to_string does not write the stored alternative: " + op.write_v(y.p));
        rapidjson::Document doc = op.ser_v(y.p);
        JText u = jread(text_of(doc));
        if (!u.valid || !jsame(u.root, want)) violate("serialize_to_document does not write the stored alternative: " + text_of(doc));
    }
}

// ---- C17: classes


void collect_objects(J& j, std::vector<J*>& v)
{
    if (j.k == J::Obj && !j.o.empty()) v.push_back(&j);
    for (auto& x : j.a) collect_objects(x, v);
    for (auto& m : j.o) collect_objects(m.v, v);
}

void c17(Src& s, Case& c)
{
    static const auto ops = select_ops(F_CLASS);
    if (s.chance(1, 5) && check_hash(s, c)) return;
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    Val x(op);
    Arena arena;
    gen_value(s, op, x.p, arena);
    Enc e;
    J j = op.enc(x.p, e);
    if (s.chance(1, 5)) {
        // each declared member is written once under its name, optional members only if they have a value; in the order of declaration
        for (int way = 0; way < 2; ++way) {
            std::string text = way ? text_of(op.ser_v(x.p)) : op.write_v(x.p);
            c.describe(std::string(op.name) + " write " + text);
            JText t = jread(text);
            c.nontrivial = true;
            if (!t.valid || t.dup || !jsame(t.root, j)) violate("members written are not the members declared: " + text + " instead of " + jwrite(j));
            std::function<void(const J&, const J&)> order = [&](const J& a, const J& b) {
                if (a.k == J::Obj) {
                    for (std::size_t i = 0; i < a.o.size() && i < b.o.size(); ++i) {
                        if (a.o[i].key != b.o[i].key) violate("members are not written in the order of declaration: " + text);
                        order(a.o[i].v, b.o[i].v);
                    }
                } else if (a.k == J::Arr) {
                    for (std::size_t i = 0; i < a.a.size() && i < b.a.size(); ++i) order(a.a[i], b.a[i]);
                }
            };
            order(t.root, j);
        }
        return;
    }
    std::string what = "shuffle";
    if (s.chance(3, 4)) shuffle_members(j, s);
    for (std::size_t n = s.below(3); n > 0; --n) {
        std::vector<J*> objs;
        collect_objects(j, objs);
        if (objs.empty()) break;
        J* o = objs[s.below(objs.size())];
        auto i = s.below(o->o.size());
        switch (s.below(8)) {
            case 0: case 1: case 2: o->o.erase(o->o.begin() + static_cast<std::ptrdiff_t>(i)); what = "drop"; break;
            case 3: {
                // a name that resembles a declared one
                std::string k = o->o[i].key;
                switch (s.below(6)) {
                    case 0: k += "x"; break;
                    case 1: if (!k.empty()) k.pop_back(); break;
                    case 2: if (!k.empty()) k[s.below(k.size())] = static_cast<char>('a' + s.below(26)); break;
                    case 3: k += std::string(1, '\0') + "x"; break;
                    case 4: k = std::string(k.rbegin(), k.rend()); break;
                    default: k = gen_string(s, false);
                }
                if (valid_utf8(k) && !o->find(k)) o->o[i].key = k;
                what = "rename";
                break;
            }
            case 4: {
                std::string k = s.chance(1, 2) ? o->o[i].key + "_" : gen_string(s, false);
                if (!o->find(k)) o->o.insert(o->o.begin() + static_cast<std::ptrdiff_t>(i), J::Member{k, 0, 0, gen_json(s, 2)});
                what = "extra";
                break;
            }
            case 5: o->o[i].v = J::null(); what = "null"; break;
            case 6: o->o[i].v = gen_scalar(s); what = "retype"; break;
            default: std::swap(o->o[i].v, o->o[s.below(o->o.size())].v); what = "swap"; break;
        }
    }
    c.label(what);
    against_reference(s, c, op, make_doc(s.chance(1, 2) ? jwrite(j) : jwrite(j, s), what));
}

// ---- C18: enumerations
void tweak_leaves(J& j, Src& s)
{
    if (j.k == J::Str && s.chance(1, 4)) {
        switch (s.below(7)) {
            case 0: j.s += s.chance(1, 2) ? " " : "x"; break;
            case 1: if (!j.s.empty()) j.s.pop_back(); break;
            case 2: for (auto& ch : j.s) if (static_cast<unsigned char>(ch) < 0x80) ch = static_cast<char>(std::isupper(ch) ? std::tolower(ch) : std::toupper(ch)); break;
            case 3: j.s += std::string(1, '\0'); break;
            case 4: j.s = ""; break;
            case 5: j = J::num(std::to_string(s.below(8))); break;
            default: {
                static const char* const names[] = {"one", "One", "on", "7", "one ", "Red", "RedGreen", "Green", "green", "r", "_x9", "a", "x", "EBoost::Red"};
                j.s = names[s.below(std::size(names))];
            }
        }
        if (j.k == J::Str && !valid_utf8(j.s)) j.s = "one";
    } else if (j.k == J::Num && s.chance(1, 4)) {
        switch (s.below(3)) {
            case 0: j.s = edge[s.below(34)]; break;
            case 1: j = J::str(j.s); break;
            default: j.s = gen_number_literal(s);
        }
    }
    for (auto& x : j.a) tweak_leaves(x, s);
    for (auto& m : j.o) tweak_leaves(m.v, s);
}

void c18(Src& s, Case& c)
{
    static const auto ops = select_ops(F_ENUM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    Val x(op);
    Arena arena;
    gen_value(s, op, x.p, arena);
    Enc e;
    J j = op.enc(x.p, e);
    if (s.chance(1, 3)) {
        std::string text = op.write_v(x.p), text2 = text_of(op.ser_v(x.p));
        c.describe(std::string(op.name) + " write " + text);
        c.nontrivial = true;
        JText t = jread(text), u = jread(text2);
        if (!t.valid || !jsame(t.root, j)) violate("enumeration written as " + text + " instead of " + jwrite(j));
        if (!u.valid || !jsame(u.root, j)) violate("enumeration serialized as " + text2 + " instead of " + jwrite(j));
    } else {
        tweak_leaves(j, s);
        against_reference(s, c, op, make_doc(s.chance(1, 2) ? jwrite(j) : jwrite(j, s), "enumerations"));
    }
}

// ---- C23: the result does not depend on what the target held before
void c23(Src& s, Case& c)
{
    static const auto ops = select_ops(0, F_PARSE | F_DOM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    DocOptions opt;
    opt.valid = 60;
    opt.mutated = 30;
    opt.bytes = 2;
    opt.any = 3;
    opt.reorder = 15;
    opt.share = true;
    Doc d = gen_doc(s, op, opt);
    c.describe(std::string(op.name) + " " + d.text);
    if (!d.plain()) return;
    Ref p(op, d, Dec::PARSE), q(op, d, Dec::DOM);
    // two targets: one as constructed, one with other content, possibly the result of earlier reads that failed halfway
    Arena a1;
    Val fresh(op), used(op);
    gen_value(s, op, used.p, a1, (op.flags & F_SHARED) && s.chance(1, 2));
    std::string before = show(op, used.p);
    if (s.chance(1, 3)) {
        Doc d2 = gen_doc(s, op, opt);
        before += " then " + d2.text;
        if (op.parse && s.chance(1, 2)) (void)op.parse(d2.text, used.p);
        else if (op.deser_s) (void)op.deser_s(d2.text, used.p);
    }
    c.describe("target held " + before);
    bool parser = op.parse && (!op.deser_s || s.chance(1, 2));
    if ((parser ? p : q).d.default_missing || p.d.uns || q.d.uns) {
        c.label("out of scope");
        return;
    }
    auto read = [&](void* t) { return parser ? op.parse(d.text, t) : op.deser_s(d.text, t); };
    const char* name = parser ? "parse" : "deserialize";
    bool a = read(fresh.p), b = read(used.p);
    c.label(std::string(name) + (a ? " accepts" : " rejects"));
    c.nontrivial = a;
    if (a != b) violate(std::string(name) + (a ? " accepts " : " rejects ") + d.text + " into a new target but not into one that held " + before);
    if (a && !equal(op, fresh.p, used.p)) violate(std::string(name) + " of " + d.text + " gives " + show(op, fresh.p) + " in a new target but " + show(op, used.p) + " in one that held " + before);
}

int r = [] {
    register_property({"C05", "the text is within the common scope of both readers (well-formed without unknown members, references, duplicate names; or malformed)", c05, {}});
    register_property({"C06", "the reference decoder gives a definite verdict for at least one reader", c06, {}});
    register_property({"C07", "the reference decoder gives a definite verdict, or a number is written and read back", c07, {}});
    register_property({"C08", "a read fails, or an output operation is exercised in both forms", c08, {}});
    register_property({"C09", "a failure is reported for a text whose offending places are known", c09, {}});
    register_property({"C10", "the text is malformed JSON", c10, {}});
    register_property({"C16", "no alternative matches, or one other than the first", c16, {}});
    register_property({"C17", "the reference decoder gives a definite verdict, or a lookup table is built and queried", c17, {}});
    register_property({"C18", "the reference decoder gives a definite verdict, or enumeration values are written", c18, {}});
    register_property({"C23", "the text is accepted and the target held other content before", c23, {}});
    return 0;
}();

}


// all of these, for types that a user adds
void read_checks(Src& s, Case& c)
{
    static void (*const all[])(Src&, Case&) = {c05, c06, c08, c09, c10, c16, c23};
    s.pick(all)(s, c);
}
