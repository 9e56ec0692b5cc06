// Properties of output and of round trips.
#include "zoo_util.hpp"
#include <persistence/utility.hpp>

namespace {

bool substantial(const J& j, const std::string& text) { return j.nodes() >= 2 || text.size() > 1; }

std::string value_text(const Ops& op, const void* p)
{
    Enc e;
    J j = op.enc(p, e);
    return jwrite(j);
}

std::string diff(const Ops& op, const void* want, const void* got)
{
    return "expected " + value_text(op, want) + " got " + value_text(op, got);
}

// what targets of output held before: it has no influence
std::string held_text(Src& s) { return s.chance(1, 3) ? std::string("{\"held\":[1]}") : std::string(); }
void hold(Src& s, rapidjson::Document& doc)
{
    static const char* const texts[] = {"[1,2,{\"a\":3}]", "{\"held\":[1],\"value\":null}", "\"held\"", "17", "true"};
    if (s.chance(1, 3)) doc.Parse(s.pick(texts));
}

// ---- C01: parse(write(x)) == x
void c01(Src& s, Case& c)
{
    static const auto ops = select_ops(F_PARSE);
    const Ops& op = pick_op(s, ops);
    Val x(op);
    Arena arena;
    gen_value(s, op, x.p, arena);
    c.label(op.name);
    std::string text;
    if (!quiet("write_to_string(x, str)", [&] { return op.write(x.p, text); })) violate("write_to_string failed for " + value_text(op, x.p));
    c.describe(std::string(op.name) + " " + text);
    c.nontrivial = text.size() > 1;
    std::string text2 = op.write_v(x.p);
    if (text2 != text) violate("write_to_string(x) and write_to_string(x, str) differ: " + text2 + " and " + text);
    {
        Val y(op);
        if (!quiet("parse(str, y)", [&] { return op.parse(text, y.p); })) violate("parse rejects the output of write_to_string: " + text);
        if (!equal(op, x.p, y.p, text)) violate("parse(write_to_string(x)) differs from x: " + diff(op, x.p, y.p));
        // writing the result again yields a text that reads back equally
        std::string again = op.write_v(y.p);
        Val z(op);
        if (!op.parse(again, z.p) || !equal(op, y.p, z.p, again)) violate("second round trip differs: " + again);
    }
    {
        Val y(op);
        Outcome o = guarded([&] { op.parse_v(text, y.p); });
        if (!o.ok()) violate(std::string("parse<T> threw ") + o.name() + " " + o.what + " for " + text);
        if (!equal(op, x.p, y.p, text)) violate("parse<T>(write_to_string(x)) differs from x: " + diff(op, x.p, y.p));
    }
}

// ---- C02: deserialize(serialize(x)) == x
void c02(Src& s, Case& c)
{
    static const auto ops = select_ops(F_DOM);
    const Ops& op = pick_op(s, ops);
    Val x(op), want(op);
    Arena arena;
    G info(s, arena);
    bool share = (op.flags & F_SHARED) && s.chance(1, 2);
    gen_value(s, op, x.p, arena, share, false, &info);
    c.label(op.name);
    if (info.reused) c.label("shared objects");
    void* expected = x.p;
    Enc e;
    JText j = jread(jwrite(op.enc(x.p, e)));
    if (op.flags & F_VARIANT) {
        Dec d;
        d.root = &j.root;
        bool ok = op.dec(j.root, want.p, d);
        d.finish();
        if (d.uns) {
            c.label("unspecified");
            return;
        }
        if (!ok) violate("reference decoder rejects the reference encoding");
        expected = want.p;
        c.label("variant");
    }
    rapidjson::Document doc;
    hold(s, doc);
    if (!quiet("serialize_to_document(x, doc)", [&] { return op.ser(x.p, doc); })) violate("serialize_to_document failed for " + value_text(op, x.p));
    std::string text = text_of(doc);
    c.describe(std::string(op.name) + " " + text);
    c.nontrivial = text.size() > 1;
    bool by_text = false;
    auto expect = [&](const char* call, const void* y) {
        if (!(by_text ? equal(op, expected, y, text) : equal(op, expected, y))) violate(std::string(call) + " differs: " + diff(op, expected, y));
    };
    for (int i = 0; i < 2; ++i) {
        Val y(op);
        if (!quiet("deserialize(doc, y)", [&] { return op.deser(doc, y.p); })) violate("deserialize rejects the output of serialize_to_document: " + text);
        expect("deserialize(doc, y)", y.p);
    }
    {
        Val y(op);
        Outcome o = guarded([&] { op.deser_v(doc, y.p); });
        if (!o.ok()) violate(std::string("deserialize<T>(doc) threw ") + o.name() + " " + o.what + " for " + text);
        expect("deserialize<T>(doc)", y.p);
    }
    if (s.chance(1, 2)) {
        rapidjson::Document doc2 = op.ser_v(x.p);
        if (text_of(doc2) != text) violate("serialize_to_document(x) and serialize_to_document(x, doc) differ: " + text_of(doc2) + " and " + text);
        Val y(op);
        if (!op.deser(doc2, y.p)) violate("deserialize rejects the output of serialize_to_document: " + text);
        expect("deserialize(serialize_to_document(x))", y.p);
    }
    // by way of text
    by_text = true;
    std::string str = op.write_v(x.p);
    switch (s.below(4)) {
        case 0: {
            Val y(op);
            if (!quiet("deserialize(str, y)", [&] { return op.deser_s(str, y.p); })) violate("deserialize(str) rejects the output of write_to_string: " + str);
            expect("deserialize(str, y)", y.p);
            break;
        }
        case 1: {
            Val y(op);
            Outcome o = guarded([&] { op.deser_s_v(str, y.p); });
            if (!o.ok()) violate(std::string("deserialize<T>(str) threw ") + o.what + " for " + str);
            expect("deserialize<T>(str)", y.p);
            break;
        }
        case 2: {
            Val y(op);
            bool ok;
            {
                std::string tmp = str;
                ok = quiet("deserialize(std::move(str), y)", [&] { return op.deser_m(std::move(tmp), y.p); });
                tmp.assign(tmp.size(), '#');
            }
            if (!ok) violate("deserialize(str&&) rejects the output of write_to_string: " + str);
            expect("deserialize(std::move(str), y)", y.p);
            break;
        }
        default: {
            Val y(op);
            Outcome o = guarded([&] { op.deser_m_v(std::string(str), y.p); });
            if (!o.ok()) violate(std::string("deserialize<T>(str&&) threw ") + o.what + " for " + str);
            expect("deserialize<T>(std::move(str))", y.p);
            break;
        }
    }
    // the document stands by itself: what it was made from may be gone by the time it is used
    if (s.chance(1, 2)) {
        if (expected == x.p) {
            Dec d;
            d.root = &j.root;
            if (!op.dec(j.root, want.p, d) || d.uns || !equal(op, x.p, want.p)) return;
            expected = want.p;
        }
        c.label("object gone");
        rapidjson::Document doc3;
        if (!op.ser(x.p, doc3)) violate("serialize_to_document failed at the second time: " + text);
        x.drop();
        arena.clear();
        info.pool.clear();
        by_text = false;
        std::string now = text_of(doc3);
        if (now != text) violate("the document changes after its object is gone: " + text + " turns into " + now);
        Val y(op);
        if (!quiet("deserialize(doc, y)", [&] { return op.deser(doc3, y.p); })) violate("deserialize rejects the document after its object is gone: " + text);
        expect("deserialize(doc, y) after the object is gone", y.p);
    }
}

// ---- C03: the output is RFC 8259 JSON that denotes x
void c03(Src& s, Case& c)
{
    static const auto ops = select_ops(0);
    const Ops& op = pick_op(s, ops);
    Val x(op);
    Arena arena;
    gen_value(s, op, x.p, arena, (op.flags & F_SHARED) && s.chance(1, 2));
    c.label(op.name);
    Enc e;
    J want = op.enc(x.p, e);
    auto check = [&](const char* how, const std::string& text) {
        JText t = jread(text);
        if (!t.valid) violate(std::string(how) + ": output is not valid JSON at byte " + std::to_string(t.errpos) + ": " + text);
        if (t.odd) violate(std::string(how) + ": output is not valid UTF-8 or has unpaired surrogates: " + text);
        if (t.dup) violate(std::string(how) + ": output has duplicate member names: " + text);
        if (!jsame(t.root, want)) violate(std::string(how) + ": output does not denote the value; expected " + jwrite(want) + " got " + text);
        if (!jorder(t.root, want)) violate(std::string(how) + ": members are not in their order; expected " + jwrite(want) + " got " + text);
    };
    std::string text = held_text(s);
    if (!quiet("write_to_string(x, str)", [&] { return op.write(x.p, text); })) violate("write_to_string failed for " + jwrite(want));
    c.describe(std::string(op.name) + " " + text);
    c.nontrivial = substantial(want, text);
    check("write_to_string", text);
    rapidjson::Document doc;
    hold(s, doc);
    if (!quiet("serialize_to_document(x, doc)", [&] { return op.ser(x.p, doc); })) violate("serialize_to_document failed for " + jwrite(want));
    check("document_to_string(serialize_to_document(x))", text_of(doc));
}

// ---- C04: both ways of output agree
void c04(Src& s, Case& c)
{
    static const auto ops = select_ops(0);
    static const auto unrep = select_ops(F_UNREP);
    bool bad = s.chance(1, 4);
    const Ops& op = pick_op(s, bad ? unrep : ops);
    Val x(op);
    Arena arena;
    G info(s, arena);
    gen_value(s, op, x.p, arena, (op.flags & F_SHARED) && s.chance(2, 3), bad, &info);
    c.label(op.name);
    if (info.reused) c.label("shared objects");
    std::string text = held_text(s);
    bool w = quiet("write_to_string(x, str)", [&] { return op.write(x.p, text); });
    rapidjson::Document doc;
    hold(s, doc);
    bool d = quiet("serialize_to_document(x, doc)", [&] { return op.ser(x.p, doc); });
    c.label(w ? "both succeed" : "both fail");
    c.describe(std::string(op.name) + " " + (w ? text : "(cannot be represented) " + value_text(op, x.p)));
    c.nontrivial = !w || text.size() > 1;
    if (w != d) violate(std::string("write_to_string ") + (w ? "succeeds" : "fails") + " and serialize_to_document " + (d ? "succeeds" : "fails") + " for " + value_text(op, x.p));
    if (w) {
        std::string t2 = text_of(doc);
        if (text != t2) violate("write_to_string gives " + text + " and document_to_string(serialize_to_document(x)) gives " + t2);
    }
    // the forms that return their result
    std::string wv;
    Outcome ow = guarded([&] { wv = op.write_v(x.p); });
    std::string dv;
    Outcome od = guarded([&] { dv = text_of(op.ser_v(x.p)); });
    if (ow.kind != od.kind) violate(std::string("write_to_string(x): ") + ow.name() + ", serialize_to_document(x): " + od.name());
    if (ow.ok() != w) violate("forms of write_to_string disagree");
    if (w && (wv != text || dv != text)) violate("outputs differ: " + text + " / " + wv + " / " + dv);
}

// ---- C20: values without a JSON representation are refused by both outputs, never written as something else
void c20(Src& s, Case& c)
{
    static const auto ops = select_ops(F_UNREP);
    const Ops& op = pick_op(s, ops);
    Val x(op);
    Arena arena;
    bool want_bad = !s.chance(1, 4);
    gen_value(s, op, x.p, arena, (op.flags & F_SHARED) && s.chance(1, 3), want_bad);
    Enc e;
    J j = op.enc(x.p, e);
    c.label(op.name);
    c.label(e.unrep ? "unrepresentable" : "representable");
    c.describe(std::string(op.name) + " " + jwrite(j) + (e.unrep ? " (null marks the unrepresentable value)" : ""));
    c.nontrivial = e.unrep;
    std::string before = "before", text = before;
    bool w = quiet("write_to_string(x, str)", [&] { return op.write(x.p, text); });
    rapidjson::Document doc;
    bool d = quiet("serialize_to_document(x, doc)", [&] { return op.ser(x.p, doc); });
    if (w == e.unrep) violate(std::string("write_to_string ") + (w ? "succeeds" : "fails") + " for " + jwrite(j) + " giving " + text);
    if (d == e.unrep) violate(std::string("serialize_to_document ") + (d ? "succeeds" : "fails") + " for " + jwrite(j));
    if (!w && text != before) violate("write_to_string fails but changes its output string to " + text);
    std::string wv;
    Outcome ow = guarded([&] { wv = op.write_v(x.p); });
    Outcome od = guarded([&] { (void)op.ser_v(x.p); });
    Outcome::Kind want = e.unrep ? Outcome::SER : Outcome::OK;
    if (ow.kind != want) violate(std::string("write_to_string(x): ") + ow.name() + " " + ow.what + " for " + jwrite(j));
    if (od.kind != want) violate(std::string("serialize_to_document(x): ") + od.name() + " " + od.what + " for " + jwrite(j));
}

// ---- C25: operations leave their inputs unchanged and repeat identically
void c25(Src& s, Case& c)
{
    static const auto ops = select_ops(F_DOM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    Val x(op);
    Arena arena;
    gen_value(s, op, x.p, arena, (op.flags & F_SHARED) && s.chance(1, 2));
    Enc e0;
    std::string v0 = jwrite(op.enc(x.p, e0));
    auto unchanged = [&](const char* what) {
        Enc e;
        std::string v = jwrite(op.enc(x.p, e));
        if (v != v0) violate(std::string(what) + " changed the object from " + v0 + " to " + v);
    };
    std::string first;
    rapidjson::Document doc;
    bool have_doc = false;
    std::size_t steps = 2 + s.below(6);
    std::string trace;
    for (std::size_t i = 0; i < steps; ++i) {
        switch (s.below(7)) {
            case 0: case 1: {
                trace += " write";
                std::string t = s.chance(1, 2) ? std::string("rubbish") : std::string(100, 'x');
                if (!op.write(x.p, t)) violate("write_to_string failed");
                unchanged("write_to_string");
                if (first.empty()) first = t;
                if (t != first) violate("write_to_string gives " + first + " and then " + t);
                break;
            }
            case 2: case 3: {
                // into an empty or into a used document
                trace += " serialize";
                if (!have_doc && s.chance(1, 2)) {
                    trace += "(used document)";
                    Arena a2;
                    Val y(op);
                    gen_value(s, op, y.p, a2);
                    if (!op.ser(y.p, doc)) violate("serialize_to_document failed");
                }
                if (!op.ser(x.p, doc)) violate("serialize_to_document failed");
                have_doc = true;
                unchanged("serialize_to_document");
                std::string t = text_of(doc);
                if (first.empty()) first = t;
                if (t != first) violate("output gives " + first + " and then, from serialize_to_document, " + t);
                break;
            }
            case 4: {
                // from the document made before, or from one that may not fit the type
                rapidjson::Document other;
                bool fit = have_doc && s.chance(1, 2);
                if (fit) {
                    trace += " deserialize(doc)";
                } else {
                    DocOptions opt;
                    opt.share = true;
    opt.deep = true;
                    Doc d = gen_doc(s, op, opt);
                    trace += " deserialize(doc " + d.label + ")";
                    other = persistence::string_to_document(d.text);
                }
                rapidjson::Document& dd = fit ? doc : other;
                std::string before = text_of(dd);
                auto code = dd.GetParseError();
                auto kept = [&](const char* call) {
                    if (text_of(dd) != before) violate(std::string(call) + " changed the document from " + before + " to " + text_of(dd));
                    if (dd.GetParseError() != code) violate(std::string(call) + " changed the error state of the document " + before);
                };
                Val y(op), z(op);
                bool a = false, b = false;
                Outcome o;
                if (s.chance(1, 2)) {
                    a = op.deser(dd, y.p);
                    kept("deserialize");
                    o = guarded([&] { op.deser_v(dd, z.p); });
                    kept("deserialize<T>");
                } else {
                    o = guarded([&] { op.deser_v(dd, z.p); });
                    kept("deserialize<T>");
                    a = op.deser(dd, y.p);
                    kept("deserialize");
                }
                if (o.ok() != a || (a && !equal(op, y.p, z.p))) violate("deserialize of the same document gives different results: " + before);
                b = op.deser(dd, z.p);
                if (a != b || (a && !equal(op, y.p, z.p))) violate("deserialize of the same document gives different results: " + before);
                break;
            }
            case 5: {
                DocOptions opt;
                opt.share = true;
    opt.deep = true;
                Doc d = gen_doc(s, op, opt);
                trace += " deserialize(str " + d.label + ")";
                std::string copy = d.text;
                Val y(op), z(op);
                bool a = op.deser_s(d.text, y.p);
                if (d.text != copy) violate("deserialize(const str&) changed the string " + copy);
                bool b = op.deser_s(d.text, z.p);
                if (a != b || (a && !equal(op, y.p, z.p))) violate("deserialize of the same text gives different results: " + copy);
                (void)guarded([&] { op.deser_s_v(d.text, y.p); });
                if (d.text != copy) violate("deserialize<T>(const str&) changed the string " + copy);
                break;
            }
            default: {
                if (!op.parse) break;
                Doc d = gen_doc(s, op);
                trace += " parse(" + d.label + ")";
                std::string copy = d.text;
                Val y(op), z(op);
                bool a = op.parse(d.text, y.p);
                if (d.text != copy) violate("parse changed the string " + copy);
                bool b = op.parse(d.text, z.p);
                if (a != b || (a && !equal(op, y.p, z.p))) violate("parsing the same text gives different results: " + copy);
                break;
            }
        }
    }
    c.describe(std::string(op.name) + " " + v0 + trace);
    c.nontrivial = !first.empty() && first.size() > 1;
    unchanged("a read operation");
}

// ---- C26: no operation retains memory once its results are gone
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();

void c26(Src& s, Case& c)
{
    static const auto ops = select_ops(F_DOM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    Arena arena, a2;
    Val x(op);
    bool bad = (op.flags & F_UNREP) && s.chance(1, 4);
    gen_value(s, op, x.p, arena, (op.flags & F_SHARED) && s.chance(1, 2), bad);
    DocOptions opt;
    opt.share = true;
    opt.deep = true;
    Doc d = gen_doc(s, op, opt);
    unsigned prefill = static_cast<unsigned>(s.below(2));
    std::uint64_t fill_seed = s.bits64();
    std::string writable;
    bool w = op.write(x.p, writable);
    std::size_t which = s.below(8);
    bool result = false;
    auto target = [&](Val& y) {
        if (prefill) {
            Src fixed = Src::random(fill_seed, nullptr);
            Arena a;
            gen_value(fixed, op, y.p, a);
        }
    };
    auto action = [&] {
        switch (which) {
            case 0: { std::string t; result = op.write(x.p, t); break; }
            case 1: { rapidjson::Document doc; result = op.ser(x.p, doc); break; }
            case 2: result = guarded([&] { (void)op.write_v(x.p); }).ok(); break;
            case 3: result = guarded([&] { (void)op.ser_v(x.p); }).ok(); break;
            case 4: { Val y(op); target(y); result = op.deser_s(d.text, y.p); break; }
            case 5: { Val y(op); result = guarded([&] { op.deser_s_v(d.text, y.p); }).ok(); break; }
            case 6: { Val y(op); target(y); result = op.parse ? op.parse(d.text, y.p) : op.deser_m(std::string(d.text), y.p); break; }
            default: { Val y(op); result = guarded([&] { op.parse ? op.parse_v(d.text, y.p) : op.deser_m_v(std::string(d.text), y.p); }).ok(); break; }
        }
    };
    static const char* const names[] = {"write_to_string(x, str)", "serialize_to_document(x, doc)", "write_to_string(x)", "serialize_to_document(x)", "deserialize(str, y)", "deserialize<T>(str)", "parse(str, y)", "parse<T>(str)"};
    c.describe(std::string(op.name) + " " + names[which] + " " + (which < 4 ? (w ? writable : std::string("(unrepresentable)")) : d.text));
    c.nontrivial = true;
    // objects with static storage duration may be set up by the first calls: growth has to persist
    std::size_t grown = 0;
    for (int i = 0; i < 4; ++i) {
        std::size_t before = __sanitizer_get_current_allocated_bytes();
        action();
        std::size_t after = __sanitizer_get_current_allocated_bytes();
        grown = after > before ? after - before : 0;
        if (!grown) break;
    }
    c.label(std::string(names[which]) + (result ? " succeeds" : " fails"));
    if (grown) violate(std::string(names[which]) + " retains " + std::to_string(grown) + " bytes each time for " + (which < 4 ? value_text(op, x.p) : d.text));
}

int r = [] {
    register_property({"C01", "the written text has more than one character", c01, {}});
    register_property({"C02", "the written text has more than one character", c02, {}});
    register_property({"C03", "the JSON value has at least two nodes or its text more than one character", c03, {}});
    register_property({"C04", "the value cannot be represented, or its text has more than one character", c04, {}});
    register_property({"C20", "the value holds at least one item without JSON representation", c20, {}});
    register_property({"C25", "at least one output operation produced a text of more than one character, interleaved with reads", c25, {}});
    register_property({"C26", "every case: one operation repeated with its allocations counted", c26, {}});
    return 0;
}();

}

// all of these, for types that a user adds
void io_checks(Src& s, Case& c)
{
    static void (*const all[])(Src&, Case&) = {c01, c02, c03, c04, c20, c25, c26};
    s.pick(all)(s, c);
}
