// Type-erased access to the operations of the library for one C++ type.
#pragma once
#include "meta.hpp"
#include <rapidjson/document.h>

enum : unsigned {
    F_PARSE = 1,        // can be parsed without DOM
    F_DOM = 2,          // can be de-serialized
    F_SCHEMA = 4,       // has a schema
    F_SHARED = 8,       // holds shared pointers
    F_VARIANT = 16,     // holds variants
    F_DEFAULT = 32,     // holds members with default
    F_NUM = 64,         // of interest to numbers
    F_ENUM = 128,
    F_DATE = 256,
    F_BYTES = 512,
    F_CLASS = 1024,
    F_UNREP = 2048,     // may hold values that have no JSON representation
    F_SEEDED = 4096,    // generated from the seed
    F_DISJOINT = 8192,  // alternatives of variants accept disjoint sets of JSON values
    F_RECURSIVE = 16384,
    F_ALL = F_PARSE | F_DOM | F_SCHEMA,
};

struct Ops {
    const char* name;
    unsigned flags;
    void* (*create)();
    void (*destroy)(void*);
    void (*gen)(G&, void*);
    J (*enc)(const void*, Enc&);
    bool (*dec)(const J&, void*, Dec&);
    bool (*eq)(const void*, const void*, Eq&);

    bool (*write)(const void*, std::string&);
    std::string (*write_v)(const void*);
    bool (*ser)(const void*, rapidjson::Document&);
    rapidjson::Document (*ser_v)(const void*);
    bool (*parse)(const std::string&, void*);
    void (*parse_v)(const std::string&, void*);
    bool (*deser)(rapidjson::Document&, void*);
    void (*deser_v)(rapidjson::Document&, void*);
    bool (*deser_s)(const std::string&, void*);
    void (*deser_s_v)(const std::string&, void*);
    bool (*deser_m)(std::string&&, void*);
    void (*deser_m_v)(std::string&&, void*);
    std::string (*schema)();
    std::string (*schema_doc)();
};

std::vector<Ops>& all_ops();
