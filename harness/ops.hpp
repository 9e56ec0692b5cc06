// Instantiates the operations of the library for one C++ type.
#pragma once
#include "ops_decl.hpp"
#include <persistence/persistence.hpp>
#include <persistence/schema_utility.hpp>
#include <persistence/utility.hpp>
#include <persistence/enum_utility.hpp>

template<typename T, unsigned F>
int reg(const char* name)
{
    Ops o{};
    o.name = name;
    o.flags = F;
    if constexpr (std::is_array_v<T>) {
        struct Box { T v; };
        o.create = []() -> void* { return &(new Box())->v; };
        o.destroy = [](void* p) { delete reinterpret_cast<Box*>(p); };
    } else {
        o.create = []() -> void* { return new T(); };
        o.destroy = [](void* p) { delete static_cast<T*>(p); };
    }
    o.gen = [](G& g, void* p) { Meta<T>::gen(g, *static_cast<T*>(p)); };
    o.enc = [](const void* p, Enc& c) { return Meta<T>::enc(*static_cast<const T*>(p), c); };
    if constexpr (NEED_WRITE) {
        o.write = [](const void* p, std::string& s) -> bool { return persistence::write_to_string(*static_cast<const T*>(p), s); };
        o.write_v = [](const void* p) -> std::string { return persistence::write_to_string(*static_cast<const T*>(p)); };
    }
    if constexpr (NEED_SER) {
        o.ser = [](const void* p, rapidjson::Document& d) -> bool { return persistence::serialize_to_document(*static_cast<const T*>(p), d); };
        o.ser_v = [](const void* p) -> rapidjson::Document { return persistence::serialize_to_document(*static_cast<const T*>(p)); };
    }
    if constexpr ((F & (F_PARSE | F_DOM)) != 0) {
        o.dec = [](const J& j, void* p, Dec& c) { return Meta<T>::dec(j, *static_cast<T*>(p), c); };
        o.eq = [](const void* a, const void* b, Eq& c) { return Meta<T>::eq(*static_cast<const T*>(a), *static_cast<const T*>(b), c); };
    }
    if constexpr (NEED_PARSE && (F & F_PARSE) != 0) {
        o.parse = [](const std::string& s, void* p) -> bool { return persistence::parse(s, *static_cast<T*>(p)); };
        o.parse_v = [](const std::string& s, void* p) { *static_cast<T*>(p) = persistence::parse<T>(s); };
    }
    if constexpr (NEED_DOM && (F & F_DOM) != 0) {
        o.deser = [](rapidjson::Document& d, void* p) -> bool { return persistence::deserialize(d, *static_cast<T*>(p)); };
        o.deser_v = [](rapidjson::Document& d, void* p) { *static_cast<T*>(p) = persistence::deserialize<T>(d); };
        o.deser_s = [](const std::string& s, void* p) -> bool { return persistence::deserialize(s, *static_cast<T*>(p)); };
        o.deser_s_v = [](const std::string& s, void* p) { *static_cast<T*>(p) = persistence::deserialize<T>(s); };
        o.deser_m = [](std::string&& s, void* p) -> bool { return persistence::deserialize(std::move(s), *static_cast<T*>(p)); };
        o.deser_m_v = [](std::string&& s, void* p) { *static_cast<T*>(p) = persistence::deserialize<T>(std::move(s)); };
    }
    if constexpr (NEED_SCHEMA && (F & F_SCHEMA) != 0) {
        o.schema = []() -> std::string { return persistence::schema_to_string<T>(); };
        o.schema_doc = []() -> std::string { return persistence::schema_document_to_string<T>(); };
    }
    all_ops().push_back(o);
    return 0;
}
