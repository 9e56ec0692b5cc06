// Types that the library does not know, and the specializations by which a user adds them.
#pragma once
#include "ops.hpp"

struct Rgb {
    unsigned char r = 0, g = 0, b = 0;
    bool operator<(const Rgb& o) const { return std::tie(r, g, b) < std::tie(o.r, o.g, o.b); }
    bool operator==(const Rgb& o) const { return std::tie(r, g, b) == std::tie(o.r, o.g, o.b); }

    std::string text() const
    {
        char t[8];
        std::snprintf(t, sizeof t, "#%02x%02x%02x", r, g, b);
        return t;
    }
    bool from(std::string_view t)
    {
        if (t.size() != 7 || t[0] != '#') return false;
        unsigned v = 0;
        for (char c : t.substr(1)) {
            if (!((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'))) return false;
            v = v * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
        }
        r = v >> 16;
        g = (v >> 8) & 255;
        b = v & 255;
        return true;
    }
};

struct Switch {
    bool on = false;
    bool operator<(const Switch& o) const { return on < o.on; }
};

// lo must not exceed hi; read through the document only
struct Interval {
    int lo = 0;
    std::optional<Rgb> color;       // not part of the order
    int hi = 0;
    bool operator<(const Interval& o) const { return std::tie(lo, hi) < std::tie(o.lo, o.hi); }
};

namespace persistence {

#if NEED_WRITE
template<> struct JsonWriter<Rgb> {
    bool operator()(const Rgb& v, StringWriter& writer) const
    {
        std::string t = v.text();
        return writer.String(t.data(), static_cast<rapidjson::SizeType>(t.size()), true);
    }
};
template<> struct JsonWriter<Switch> {
    bool operator()(const Switch& v, StringWriter& writer) const { return writer.Bool(v.on); }
};
template<> struct JsonWriter<Interval> : JsonContextAwareWriter {
    using JsonContextAwareWriter::JsonContextAwareWriter;
    bool operator()(const Interval& v, StringWriter& writer) const
    {
        if (v.lo > v.hi) return false;
        writer.StartArray();
        WriterContext first(context, Segment(std::size_t(0))), second(context, Segment(std::size_t(1))), third(context, Segment(std::size_t(2)));
        if (!serialize(v.lo, writer, first) || !serialize(v.hi, writer, second)) return false;
        if (v.color && !serialize(*v.color, writer, third)) return false;
        writer.EndArray();
        return true;
    }
};
#endif

#if NEED_SER
template<> struct JsonSerializer<Rgb> : JsonContextAwareSerializer {
    using JsonContextAwareSerializer::JsonContextAwareSerializer;
    bool operator()(const Rgb& v, rapidjson::Value& json) const
    {
        std::string t = v.text();
        json.SetString(t.data(), static_cast<rapidjson::SizeType>(t.size()), context.global().allocator());
        return true;
    }
};
template<> struct JsonSerializer<Switch> {
    bool operator()(const Switch& v, rapidjson::Value& json) const
    {
        json.SetBool(v.on);
        return true;
    }
};
template<> struct JsonSerializer<Interval> : JsonContextAwareSerializer {
    using JsonContextAwareSerializer::JsonContextAwareSerializer;
    bool operator()(const Interval& v, rapidjson::Value& json) const
    {
        if (v.lo > v.hi) return false;
        json.SetArray();
        for (int k = 0; k < (v.color ? 3 : 2); ++k) {
            rapidjson::Value item;
            SerializerContext c(context, Segment(std::size_t(k)));
            if (!(k == 0 ? serialize(v.lo, item, c) : k == 1 ? serialize(v.hi, item, c) : serialize(*v.color, item, c))) return false;
            json.PushBack(item, context.global().allocator());
        }
        return true;
    }
};
#endif

#if NEED_PARSE
template<> struct JsonParser<Rgb> : JsonParseHandler<JsonValueString> {
    using json_type = JsonValueString;
    JsonParser(ReaderContext& context, Rgb& ref) : JsonParseHandler(context), ref(ref) {}
    bool parse(const JsonValueString& s) override
    {
        if (!ref.from(s.literal)) {
            context.fail("expected a color");
            return false;
        }
        context.pop();
        return true;
    }
private:
    Rgb& ref;
};
template<> struct JsonParser<Switch> : JsonParser<bool> {
    JsonParser(ReaderContext& context, Switch& ref) : JsonParser<bool>(context, ref.on) {}
};
#endif

#if NEED_DOM
template<bool Exception> struct JsonDeserializer<Exception, Rgb> : JsonContextAwareDeserializer {
    using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
    bool operator()(const rapidjson::Value& json, Rgb& v) const
    {
        if (json.IsString() && v.from(std::string_view(json.GetString(), json.GetStringLength()))) return true;
        if constexpr (Exception) throw JsonDeserializationError("expected a color", Path(context.segments()).str());
        return false;
    }
};
template<bool Exception> struct JsonDeserializer<Exception, Switch> : JsonContextAwareDeserializer {
    using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
    bool operator()(const rapidjson::Value& json, Switch& v) const { return deserialize<Exception>(json, v.on, context); }
};
template<bool Exception> struct JsonDeserializer<Exception, Interval> : JsonContextAwareDeserializer {
    using JsonContextAwareDeserializer::JsonContextAwareDeserializer;
    bool operator()(const rapidjson::Value& json, Interval& v) const
    {
        Interval t;
        bool ok = json.IsArray() && (json.Size() == 2 || json.Size() == 3);
        if (ok) {
            DeserializerContext first(context, Segment(std::size_t(0))), second(context, Segment(std::size_t(1))), third(context, Segment(std::size_t(2)));
            if (!deserialize<Exception>(json[0], t.lo, first) || !deserialize<Exception>(json[1], t.hi, second)) return false;
            if (json.Size() == 3) {
                t.color.emplace();
                if (!deserialize<Exception>(json[2], *t.color, third)) return false;
            }
            ok = t.lo <= t.hi;
        }
        if (!ok) {
            if constexpr (Exception) throw JsonDeserializationError("expected an interval", Path(context.segments()).str());
            return false;
        }
        v = t;
        return true;
    }
};
#endif

}

template<> struct Meta<Rgb> {
    static void gen(G& g, Rgb& v)
    {
        v.r = static_cast<unsigned char>(g.s.below(256));
        v.g = static_cast<unsigned char>(g.s.below(g.s.chance(1, 2) ? 256 : 2));
        v.b = static_cast<unsigned char>(g.s.below(g.s.chance(1, 2) ? 256 : 2));
    }
    static J enc(const Rgb& v, Enc&) { return J::str(v.text()); }
    static bool dec(const J& j, Rgb& v, Dec& c) { return (j.k == J::Str && v.from(j.s)) || c.err(j, "color"); }
    static bool eq(const Rgb& a, const Rgb& b, Eq&) { return a == b; }
};
template<> struct Meta<Switch> {
    static void gen(G& g, Switch& v) { v.on = g.s.chance(1, 2); }
    static J enc(const Switch& v, Enc&) { return J::boolean(v.on); }
    static bool dec(const J& j, Switch& v, Dec& c)
    {
        if (j.k != J::Bool) return c.err(j, "boolean");
        v.on = j.b;
        return true;
    }
    static bool eq(const Switch& a, const Switch& b, Eq&) { return a.on == b.on; }
};
template<> struct Meta<Interval> {
    static void gen(G& g, Interval& v)
    {
        Meta<int>::gen(g, v.lo);
        Meta<int>::gen(g, v.hi);
        if (v.lo > v.hi) std::swap(v.lo, v.hi);
        v.color.reset();
        if (g.s.chance(1, 3)) {
            v.color.emplace();
            Meta<Rgb>::gen(g, *v.color);
        }
        if (g.unrep && g.s.chance(1, 2)) {
            v.lo = 1;
            v.hi = -static_cast<int>(g.s.below(5));
        }
    }
    static J enc(const Interval& v, Enc& c)
    {
        if (v.lo > v.hi) {
            c.unrep = true;
            return J::null();
        }
        J j = J::arr();
        j.a.push_back(Meta<int>::enc(v.lo, c));
        j.a.push_back(Meta<int>::enc(v.hi, c));
        if (v.color) j.a.push_back(Meta<Rgb>::enc(*v.color, c));
        return j;
    }
    static bool dec(const J& j, Interval& v, Dec& c)
    {
        if (j.k != J::Arr || (j.a.size() != 2 && j.a.size() != 3)) return c.err(j, "interval");
        bool ok = true;
        { Seg s(c.path, std::size_t(0)); ok &= Meta<int>::dec(j.a[0], v.lo, c); }
        { Seg s(c.path, std::size_t(1)); ok &= Meta<int>::dec(j.a[1], v.hi, c); }
        v.color.reset();
        if (j.a.size() == 3) {
            Seg s(c.path, std::size_t(2));
            v.color.emplace();
            ok &= Meta<Rgb>::dec(j.a[2], *v.color, c);
        }
        if (ok && v.lo > v.hi) return c.err(j, "interval");
        return ok;
    }
    static bool eq(const Interval& a, const Interval& b, Eq&) { return a.lo == b.lo && a.hi == b.hi && a.color == b.color; }
};
