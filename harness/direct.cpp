// Facilities of the library that are exercised directly, and the properties of byte sequences, dates, nesting and documents.
#include "zoo_util.hpp"
#include <persistence/base64.hpp>
#include <persistence/datetime.hpp>
#include <persistence/utility.hpp>
#include <algorithm>
#include <set>

namespace {

std::string show(const Ops& op, const void* p)
{
    Enc e;
    return jwrite(op.enc(p, e));
}

// ---------------------------------------------------------------- C11: byte sequences

void c11(Src& s, Case& c)
{
    static const auto ops = select_ops(0, F_BYTES);
    using persistence::byte_vector;
    using persistence::byte_view;
    std::uint64_t way = s.below(5);
    if (way == 0) {
        // as part of objects
        const Ops& op = pick_op(s, ops);
        c.label(op.name);
        Val x(op), y(op), z(op);
        Arena arena;
        gen_value(s, op, x.p, arena);
        std::string text = op.write_v(x.p);
        c.describe(std::string(op.name) + " " + text);
        c.nontrivial = text.size() > 4;
        Enc e;
        J want = op.enc(x.p, e);
        JText t = jread(text);
        if (!t.valid || !jsame(t.root, want)) violate("bytes are not written as Base64: " + text + " instead of " + jwrite(want));
        if (text_of(op.ser_v(x.p)) != text) violate("bytes are serialized differently: " + text_of(op.ser_v(x.p)));
        if (!op.parse(text, y.p) || !equal(op, x.p, y.p, text)) violate("bytes differ after parse: " + text);
        if (!op.deser_s(text, z.p) || !equal(op, x.p, z.p, text)) violate("bytes differ after deserialize: " + text);
        return;
    }
    std::size_t n = s.chance(1, 2) ? s.below(20) : gen_size(s, 10000);
    byte_vector data;
    int fill = static_cast<int>(s.below(4));
    for (std::size_t i = 0; i < n; ++i) {
        std::uint64_t b = fill == 0 ? 0 : fill == 1 ? 255 : s.below(256);
        data.push_back(static_cast<std::byte>(b));
    }
    if (n > 0 && s.chance(1, 500)) {
        // more than a 16-bit counter can count, before or after encoding
        std::size_t many = s.chance(1, 3) ? 49149 + s.below(8) : s.chance(1, 2) ? 65533 + s.below(8) : 200000 + s.below(8);
        while (data.size() < many) data.push_back(data[data.size() - n]);
        n = data.size();
    }
    std::string want = ref_base64(data);
#ifdef FALLBACK
    if (way <= 2) return;
#else
    if (way <= 2) {
        c.describe("encode " + want);
        c.label("encode");
        c.nontrivial = n > 0;
        // in a buffer of exactly its size, at any alignment
        std::size_t shift = s.below(8);
        std::unique_ptr<std::byte[]> buffer(new std::byte[n + shift]);
        std::copy(data.begin(), data.end(), buffer.get() + shift);
        std::string out = s.chance(1, 2) ? "" : std::string(s.below(50), 'x');
        bool ok = true;
        switch (s.below(3)) {
            case 0: ok = persistence::base64_encode(byte_view(buffer.get() + shift, n), out); break;
            case 1: ok = persistence::base64_encode(std::string_view(reinterpret_cast<const char*>(buffer.get() + shift), n), out); break;
            default: ok = persistence::base64_encode(data, out);
        }
        if (!ok) violate("base64_encode fails for " + std::to_string(n) + " bytes");
        if (out != want) violate("base64_encode gives " + out + " instead of " + want);
        byte_vector back(s.below(5));
        if (!persistence::base64_decode(out, back) || back != data) violate("base64_decode does not restore what base64_encode wrote: " + out);
        return;
    }
#endif
    // texts that are Base64, or nearly so
    std::string text = want;
    for (std::size_t k = s.below(3); k > 0; --k) {
        static const char odd[] = "=AZaz09+/-_ \n.*@[`{:,\x80\xff\x7f";
        switch (s.below(7)) {
            case 0: if (!text.empty()) text[s.below(text.size())] = odd[s.below(sizeof odd)]; break;
            case 1: if (!text.empty()) text[s.below(text.size())] = static_cast<char>(s.below(256)); break;
            case 2: if (!text.empty()) text.pop_back(); break;
            case 3: text += odd[s.below(4)]; break;
            case 4: text.insert(s.below(text.size() + 1), "="); break;
            case 5: if (text.size() >= 4) text[text.size() - 1 - s.below(4)] = '='; break;
            default: text += std::string("====").substr(0, s.below(5));
        }
    }
    c.describe("decode " + text);
    std::unique_ptr<char[]> buffer(new char[text.size()]);
    std::copy(text.begin(), text.end(), buffer.get());
    byte_vector got(s.below(5), std::byte{7}), ref;
    Verdict v = ref_unbase64(text, ref);
#ifndef FALLBACK
    bool ok = persistence::base64_decode(std::string_view(buffer.get(), text.size()), got);
#else
    bool ok = v == Verdict::ACC;
    got = ref;
#endif
    c.label(v == Verdict::ACC ? "decode: accept" : v == Verdict::REJ ? "decode: reject" : "decode: unspecified");
    c.nontrivial = v != Verdict::UNS && !text.empty();
    if (v == Verdict::UNS) return;
    if (ok != (v == Verdict::ACC)) violate(std::string("base64_decode ") + (ok ? "accepts" : "rejects") + " " + text);
    if (ok && got != ref) violate("base64_decode gives other bytes for " + text);
    // the same text as JSON
    for (auto op : ops) {
        if (std::string(op->name) != "Bytes" || !valid_utf8(text)) continue;
        std::string json = jwrite(J::str(text));
        Val y(*op), z(*op), w(*op);
        *static_cast<byte_vector*>(w.p) = ref;
        if (op->parse(json, y.p) != ok || (ok && !equal(*op, w.p, y.p))) violate("parse treats the Base64 string differently: " + json);
        if (op->deser_s(json, z.p) != ok || (ok && !equal(*op, w.p, z.p))) violate("deserialize treats the Base64 string differently: " + json);
    }
}

// ---------------------------------------------------------------- C12: points in time

std::string tweak_time(std::string t, Src& s)
{
    static const char abc[] = "0123456789-+:TZtz .,/\0";
    for (std::size_t k = 1 + s.below(2); k > 0; --k) {
        switch (s.below(10)) {
            case 0: case 1: case 2: case 3: if (!t.empty()) t[s.below(t.size())] = abc[s.below(10)]; break;
            case 4: if (!t.empty()) t[s.below(t.size())] = abc[s.below(sizeof abc - 1)]; break;
            case 5: t.insert(s.below(t.size() + 1), 1, abc[s.below(sizeof abc - 1)]); break;
            case 6: if (!t.empty()) t.erase(s.below(t.size()), 1); break;
            case 7: t += s.chance(1, 2) ? "Z" : " "; break;
            case 8: {
                // the fields at their limits
                static const char* const fields[] = {"00", "01", "12", "13", "23", "24", "28", "29", "30", "31", "32", "59", "60", "61", "99"};
                static const std::size_t at[] = {5, 8, 11, 14, 17};
                std::size_t p = at[s.below(5)];
                if (p + 2 <= t.size()) t.replace(p, 2, fields[s.below(std::size(fields))]);
                break;
            }
            default: {
                static const char* const years[] = {"0000", "0001", "1600", "1676", "1677", "1678", "1700", "1900", "1969", "1970", "2000", "2100", "2261", "2262", "2263", "9999"};
                if (t.size() >= 4) t.replace(0, 4, years[s.below(std::size(years))]);
            }
        }
    }
    return t;
}

const Ops* named(const std::vector<const Ops*>& ops, const char* name)
{
    for (auto op : ops) if (std::string(op->name) == name) return op;
    return nullptr;
}

void in_objects(Src& s, Case& c, const std::vector<const Ops*>& ops)
{
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    Val x(op), y(op), z(op);
    Arena arena;
    gen_value(s, op, x.p, arena);
    std::string text = op.write_v(x.p);
    c.describe(std::string(op.name) + " " + text);
    c.nontrivial = text.size() > 4;
    Enc e;
    J want = op.enc(x.p, e);
    JText t = jread(text);
    if (!t.valid || !jsame(t.root, want)) violate("not written as ISO 8601: " + text + " instead of " + jwrite(want));
    if (text_of(op.ser_v(x.p)) != text) violate("serialized differently: " + text_of(op.ser_v(x.p)));
    if (!op.parse(text, y.p) || !equal(op, x.p, y.p, text)) violate("differs after parse: " + text);
    if (!op.deser_s(text, z.p) || !equal(op, x.p, z.p, text)) violate("differs after deserialize: " + text);
}

void c12(Src& s, Case& c)
{
    static const auto ops = select_ops(0, F_DATE);
    static const Ops* const self = named(ops, "Timestamp");
    switch (s.below(6)) {
        case 0: in_objects(s, c, ops); return;
        case 1: case 2: {
            // a stretch of consecutive times
            long long t = gen_seconds(s);
            static const long long steps[] = {1, 59, 60, 3600, 86399, 86400, 86401};
            long long step = steps[s.below(std::size(steps))];
            std::size_t n = 1 + s.below(200);
            c.describe("from " + ref_datetime(t) + " in steps of " + std::to_string(step) + " s");
            c.label("sequence of times");
            c.nontrivial = true;
            for (std::size_t i = 0; i < n && t <= ts_max_s(); ++i, t += step) {
                Timestamp ts{std::chrono::seconds(t)};
                std::string want = ref_datetime(t);
#ifndef FALLBACK
                persistence::iso_datetime got = persistence::to_iso_datetime(ts);
                if (want != got.text) violate("to_iso_datetime gives " + std::string(got.text, 20) + " instead of " + want);
                Timestamp back;
                std::unique_ptr<char[]> exact(new char[20]);
                std::copy(want.begin(), want.end(), exact.get());
                if (!persistence::parse_datetime(exact.get(), 20, back) || back != ts) violate("parse_datetime does not restore " + want);
                if (std::string(persistence::to_iso_date(ts).text) != want.substr(0, 10)) violate("to_iso_date(timestamp) gives " + std::string(persistence::to_iso_date(ts).text) + " for " + want);
                auto field = [&](std::size_t at, std::size_t len) { return static_cast<unsigned>(std::stoul(want.substr(at, len))); };
                if (persistence::make_datetime(field(0, 4), field(5, 2), field(8, 2), field(11, 2), field(14, 2), field(17, 2)) != ts) violate("make_datetime gives another time for " + want);
#endif
                if (i % 16) continue;
                Val x(*self), y(*self);
                *static_cast<Timestamp*>(x.p) = ts;
                std::string w = self->write_v(x.p), d = text_of(self->ser_v(x.p));
                if (w != '"' + want + '"' || d != w) violate("written as " + w + ", serialized as " + d + " instead of " + want);
                if (!self->parse(w, y.p) || *static_cast<Timestamp*>(y.p) != ts) violate("parse does not restore " + w);
            }
            return;
        }
        default: break;
    }
    std::string text = ref_datetime(gen_seconds(s));
    if (!s.chance(1, 8)) text = tweak_time(text, s);
    c.describe("text " + text);
    long long t = 0;
    bool want = ref_parse_datetime(text, t);
    if (want && (t < ts_min_s() || t > ts_max_s())) {
        want = false;
        c.label("out of range");
    }
    c.label(want ? "accept" : "reject");
    c.nontrivial = true;
    Timestamp ref{std::chrono::seconds(want ? t : 0)};
#ifndef FALLBACK
    std::unique_ptr<char[]> exact(new char[text.size()]);
    std::copy(text.begin(), text.end(), exact.get());
    Timestamp got;
    bool ok = persistence::parse_datetime(exact.get(), text.size(), got);
    if (ok != want) violate(std::string("parse_datetime ") + (ok ? "accepts " : "rejects ") + text);
    if (ok && got != ref) violate("parse_datetime reads " + text + " as another time");
#endif
    std::string json = jwrite(J::str(text));
    Val y(*self), z(*self), u(*self);
    if (self->parse(json, y.p) != want || (want && *static_cast<Timestamp*>(y.p) != ref)) violate("parse treats " + json + " differently");
    if (self->deser_s(json, z.p) != want || (want && *static_cast<Timestamp*>(z.p) != ref)) violate("deserialize treats " + json + " differently");
    Outcome o = guarded([&] { self->deser_m_v(std::move(json), u.p); });
    if (o.ok() != want) violate("deserialize<T>(str&&) treats " + text + " differently");
}

// ---------------------------------------------------------------- C13: calendar dates

void c13(Src& s, Case& c)
{
    static const auto ops = select_ops(0, F_DATE);
    static const Ops* const self = named(ops, "Ymd");
    using Ymd = std::chrono::year_month_day;
    auto check_text = [&](const std::string& text) {
        int y, m, d;
        bool want = ref_parse_date(text, y, m, d);
#ifndef FALLBACK
        std::unique_ptr<char[]> exact(new char[text.size()]);
        std::copy(text.begin(), text.end(), exact.get());
        Ymd got{};
        bool ok = persistence::parse_date(exact.get(), text.size(), got);
        if (ok != want) violate(std::string("parse_date ") + (ok ? "accepts " : "rejects ") + text);
        if (ok && got != std::chrono::year(y) / m / d) violate("parse_date reads " + text + " as another date");
        // as a point in time, where the range permits
        long long t = want ? static_cast<long long>(ref_days(y, m, d)) * 86400 : 0;
        bool in_range = want && t >= ts_min_s() && t <= ts_max_s();
        Timestamp point;
        bool is_point = persistence::parse_date(exact.get(), text.size(), point);
        if (is_point != in_range) violate(std::string("parse_date(timestamp) ") + (is_point ? "accepts " : "rejects ") + text);
        if (is_point && point != Timestamp(std::chrono::seconds(t))) violate("parse_date(timestamp) reads " + text + " as another time");
#endif
        return want;
    };
    auto check_json = [&](const std::string& text) {
        int y = 0, m = 1, d = 1;
        bool want = ref_parse_date(text, y, m, d);
        Ymd ref = std::chrono::year(y) / m / d;
        std::string json = jwrite(J::str(text));
        Val a(*self), b(*self);
        if (self->parse(json, a.p) != want || (want && *static_cast<Ymd*>(a.p) != ref)) violate("parse treats " + json + " differently");
        if (self->deser_s(json, b.p) != want || (want && *static_cast<Ymd*>(b.p) != ref)) violate("deserialize treats " + json + " differently");
        Val u(*self);
        if (guarded([&] { self->deser_s_v(json, u.p); }).ok() != want) violate("deserialize<T> treats " + json + " differently");
    };
    switch (s.below(6)) {
        case 0: in_objects(s, c, ops); return;
        case 1: case 2: {
            // each day of a year, and the days that do not exist
            int y = static_cast<int>(s.below(10000));
            c.describe("year " + std::to_string(y));
            c.label("whole year");
            c.nontrivial = true;
            char b[32];
            for (int m = 0; m <= 13; ++m) {
                for (int d = 0; d <= 32; ++d) {
                    std::snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, d);
                    bool exists = check_text(b);
#ifndef FALLBACK
                    if (persistence::is_valid_date(static_cast<unsigned>(y), static_cast<unsigned>(m), static_cast<unsigned>(d)) != exists) violate("is_valid_date is wrong for " + std::string(b));
#endif
                    if (exists) {
#ifndef FALLBACK
                        Ymd v = std::chrono::year(y) / m / d;
                        persistence::iso_date out;
                        if (!persistence::to_iso_date(v, out) || std::string(out.text) != b) violate("to_iso_date gives " + std::string(out.text) + " instead of " + b);
#endif
                    } else {
#ifndef FALLBACK
                        persistence::iso_date out;
                        if (persistence::to_iso_date(std::chrono::year(y) / m / d, out)) violate("to_iso_date writes a date that does not exist: " + std::string(b));
#endif
                    }
                }
            }
            int m = static_cast<int>(s.range(1, 12));
            for (int d = 0; d <= 32; ++d) {
                std::snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, d);
                check_json(b);
            }
            for (int d = 1; d <= ref_month_days(y, m); ++d) {
                Val x(*self);
                *static_cast<Ymd*>(x.p) = std::chrono::year(y) / m / d;
                std::snprintf(b, sizeof b, "\"%04d-%02d-%02d\"", y, m, d);
                std::string w = self->write_v(x.p), t = text_of(self->ser_v(x.p));
                if (w != b || t != b) violate("date written as " + w + ", serialized as " + t + " instead of " + b);
            }
            for (int d : {0, ref_month_days(y, m) + 1, 31 + m}) {
                Val x(*self);
                *static_cast<Ymd*>(x.p) = std::chrono::year(y) / m / d;
                std::string w;
                rapidjson::Document doc;
                if (self->write(x.p, w) || self->ser(x.p, doc)) violate("date that does not exist is written: " + std::to_string(y) + "-" + std::to_string(m) + "-" + std::to_string(d));
            }
            return;
        }
        default: break;
    }
    Val x(*self);
    Arena arena;
    gen_value(s, *self, x.p, arena);
    Enc e;
    std::string text = self->enc(x.p, e).s;
    if (!s.chance(1, 8)) text = tweak_time(text, s);
    c.describe("text " + text);
    c.label(check_text(text) ? "accept" : "reject");
    c.nontrivial = true;
    check_json(text);
}

// ---------------------------------------------------------------- C21: nesting

void c21(Src& s, Case& c)
{
    static const auto ops = select_ops(F_RECURSIVE);
    if (s.below(5) < 2 && check_stack(s, c)) return;
    const Ops& op = pick_op(s, ops);
    std::size_t levels = s.chance(1, 2) ? 1 + s.below(16) : 1 + s.below(140);
    std::size_t salt = s.below(2);
    J j = nested(op.name, levels, salt);
    std::string text = jwrite(j);
    JText t = jread(text);
    c.describe(std::string(op.name) + " " + std::to_string(levels) + " levels " + std::to_string(salt));
    c.key = hash_bytes(std::string(op.name) + std::to_string(levels) + "/" + std::to_string(salt) + (s.chance(1, 2) ? "p" : "d"));
    c.nontrivial = levels > 2;
    std::size_t composites = t.root.depth();
    Val x(op);
    Dec d;
    d.root = &t.root;
    if (!op.dec(t.root, x.p, d)) violate("reference decoder rejects " + text);
    std::string w;
    if (!quiet("write_to_string", [&] { return op.write(x.p, w); }) || !jsame(jread(w).root, t.root)) violate("write_to_string of " + std::to_string(levels) + " levels gives " + w);
    rapidjson::Document doc;
    if (!quiet("serialize_to_document", [&] { return op.ser(x.p, doc); }) || text_of(doc) != w) violate("serialize_to_document of " + std::to_string(levels) + " levels gives another document");
    {
        Val y(op);
        if (!quiet("deserialize", [&] { return op.deser_s(text, y.p); }) || !equal(op, x.p, y.p)) violate("deserialize of " + std::to_string(levels) + " levels fails");
    }
    auto try_parse = [&](const std::string& text, const Val& x, std::size_t levels) {
        Val y(op), z(op);
        bool ok = quiet("parse(str, y)", [&] { return op.parse(text, y.p); });
        Outcome o = guarded([&] { op.parse_v(text, z.p); });
        if (o.ok() != ok || (!ok && o.kind != Outcome::PARSE)) violate(std::string("parse<T> of ") + std::to_string(levels) + " levels: " + o.name() + " " + o.what);
        if (ok && (!equal(op, x.p, y.p) || !equal(op, x.p, z.p))) violate("parse of " + std::to_string(levels) + " levels gives another value: " + show(op, y.p));
        return ok;
    };
    bool ok = try_parse(text, x, levels);
    c.label(ok ? "parse: accepted" : "parse: nesting refused");
    if (!ok && composites <= 16) violate("parse refuses " + std::to_string(composites) + " levels of nesting: " + text);
    if (levels > 1) {
        // one level less is never harder to read
        J k = nested(op.name, levels - 1, salt);
        std::string less = jwrite(k);
        JText u = jread(less);
        Val v(op);
        Dec e;
        e.root = &u.root;
        op.dec(u.root, v.p, e);
        bool ok2 = try_parse(less, v, levels - 1);
        if (ok && !ok2) violate("parse accepts " + std::to_string(levels) + " levels but not " + std::to_string(levels - 1));
    }
}

// ---------------------------------------------------------------- C24: documents and text

void c24(Src& s, Case& c)
{
    J j = gen_json(s, 4);
    for (std::size_t n = s.below(3); n > 0; --n) jmutate(j, s);
    std::string text = s.chance(1, 3) ? jwrite(j) : jwrite(j, s);
    bool broken = s.chance(1, 4);
    if (broken) bytes_mutate(text, s);
    c.describe(text);
    JText t = jread(text);
    if (t.odd || t.deep || t.numbig) {
        c.label("out of scope");
        return;
    }
    c.label(t.valid ? "well-formed" : "malformed");
    c.nontrivial = text.size() > 2;
    bool moved = s.chance(1, 2);
    rapidjson::Document doc;
    if (moved) {
        auto str = std::make_unique<std::string>(text);
        doc = persistence::string_to_document(std::move(*str));
        str->assign(text.size() + 1, '#');
        str.reset();    // the document outlives the string it was made from
    } else {
        auto str = std::make_unique<std::string>(text);
        doc = persistence::string_to_document(static_cast<const std::string&>(*str));
        if (*str != text) violate("string_to_document changes its argument " + text);
        str->assign(text.size(), '#');
        str.reset();
    }
    if (doc.HasParseError() == t.valid) violate(std::string("string_to_document ") + (t.valid ? "rejects well-formed " : "accepts malformed ") + text);
    if (!t.valid) {
        if (doc.GetErrorOffset() > text.size()) violate("error offset beyond the text " + text);
        return;
    }
    std::string out = persistence::document_to_string(doc);
    JText u = jread(out);
    if (!u.valid) violate("document_to_string gives invalid JSON " + out + " for " + text);
    if (!jclose(u.root, t.root, number_slack(text))) violate("document_to_string(string_to_document(text)) gives " + out + " for " + text);
    // members and items stay in their order
    std::function<void(const J&, const J&)> order = [&](const J& a, const J& b) {
        for (std::size_t i = 0; i < a.o.size() && i < b.o.size(); ++i) {
            if (a.o[i].key != b.o[i].key) violate("member order changes from " + text + " to " + out);
            order(a.o[i].v, b.o[i].v);
        }
        for (std::size_t i = 0; i < a.a.size() && i < b.a.size(); ++i) order(a.a[i], b.a[i]);
    };
    order(t.root, u.root);
    if (persistence::document_to_string(doc) != out) violate("document_to_string gives another text when repeated");
    rapidjson::Document again = persistence::string_to_document(out);
    if (again.HasParseError() || (exact_numbers(out) && persistence::document_to_string(again) != out)) violate("text of a document is not stable: " + out);
}

int r = [] {
    register_property({"C11", "at least one byte or character is encoded or decoded and the verdict is specified", c11, {}});
    register_property({"C12", "every case: a stretch of times, a text with a definite verdict, or objects with times", c12, {}});
    register_property({"C13", "every case: all days of one year, a text with a definite verdict, or objects with dates", c13, {}});
    register_property({"C21", "a value of more than two levels, or a stack history that pops", c21, {}});
    register_property({"C24", "the text has more than two characters and its verdict is specified", c24, {}});
    return 0;
}();

}
