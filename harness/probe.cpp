// Recorded inputs: known findings, and minimal reproductions of repaired defects.
#include "types.hpp"
#include <persistence/utility.hpp>

namespace {

int r = [] {
    for (const char* id : {"C02", "C06", "C24"}) register_probe({id, "last-digit", [] {
        rapidjson::Document doc = persistence::string_to_document(std::string("5.1125029999999999e-15"));
        if (doc.HasParseError() || !doc.IsDouble() || doc.GetDouble() != 5.1125029999999999e-15) violate("5.1125029999999999e-15 is read as another number");
    }});
#if NEED_WRITE && NEED_PARSE
    register_probe({"C01", "pair-vector", [] {
        std::vector<std::pair<std::string, int>> x = {{"a", 1}, {"b", 2}}, y;
        std::string text = persistence::write_to_string(x);
        if (!persistence::parse(text, y) || x != y) violate("parse does not restore " + text);
    }});
    for (const char* id : {"C01", "C07"}) register_probe({id, "last-digit", [] {
        double x = 5.1125029999999999e-15, y = 0;
        std::string text = persistence::write_to_string(x);
        if (!persistence::parse(text, y) || x != y) violate("parse does not restore " + text);
    }});
#endif
#if NEED_SER && NEED_DOM
    register_probe({"C02", "pair-vector", [] {
        std::vector<std::pair<std::string, int>> x = {{"a", 1}, {"b", 2}}, y;
        rapidjson::Document doc = persistence::serialize_to_document(x);
        if (!persistence::deserialize(doc, y) || x != y) violate("deserialize does not restore " + persistence::document_to_string(doc));
    }});
#endif
#if NEED_SCHEMA
    register_probe({"C19", "overlapping-variant", [] {
        std::string schema = persistence::schema_to_string<std::variant<int, double>>();
        JText t = jread(schema);
        // the serialized form of an int is an integer, which is a number as well
        const J* alt = t.root.find("oneOf");
        if (alt && alt->a.size() == 2) {
            const J *a = alt->a[0].find("type"), *b = alt->a[1].find("type");
            if (a && b && a->s == "integer" && b->s == "number") violate("5 matches both alternatives of " + schema);
        }
    }});
#endif
    return 0;
}();

}
