#!/usr/bin/env python3
"""Writes the C++ translation units that register the types under test.

usage: gen_types.py CONFIG (JSON: seed, out, seeded, need, any, all, none, units)

A fixed core of types is followed by NSEEDED classes that are a function of SEED: random member names, counts,
kinds (required, optional, default), types, inheritance.
"""
import json
import random
import sys

SCALARS = ["bool", "char", "signed char", "unsigned char", "short", "unsigned short", "int", "unsigned int", "long", "unsigned long",
           "long long", "unsigned long long", "float", "double", "std::string"]
SPECIAL = ["Bytes", "Timestamp", "Ymd", "EI", "EU8", "EI8", "EU64", "EI16", "EStr", "EBoost", "ESeed"]


def lit(name):
    """C++ string literal"""
    r = '"'
    for b in name.encode():
        if b in (0x22, 0x5c):
            r += "\\" + chr(b)
        elif 0x20 <= b < 0x7f and b != 0x3f:
            r += chr(b)
        else:
            r += "\\%03o" % b
    return r + '"'


def struct(name, fields, base=None, basefirst=True, split=False):
    """fields: (type, json name, kind) with kind R, D, or a default initializer as 4th item"""
    out = ["struct %s%s" % (name, " : " + base if base else ""), "{"]
    for i, f in enumerate(fields):
        ty, _, dim = f[0].partition("[") if f[0].startswith("char[") else (f[0], "", "")
        out.append("    %s m%d%s%s;" % (ty, i, "[" + dim if dim else "", " = %s" % f[3] if len(f) > 3 else "{}"))
    out.append("    template<typename Archive> constexpr auto persist(Archive& ar)")
    out.append("    {")
    items = ["NAMED_MEMBER_VARIABLE%s(%s, m%d)" % ("_DEFAULT" if f[2] == "D" else "", lit(f[1]), i) for i, f in enumerate(fields)]
    if base:
        out.append("        return this->%s::persist(ar) & %s;" % (base, " & ".join(items)))
    elif split and len(items) > 1:
        out.append("        auto&& part = ar & %s;" % items[0])
        out.append("        return part & %s;" % " & ".join(items[1:]))
    else:
        out.append("        return ar & %s;" % " & ".join(items))
    out.append("    }")
    fl = ", ".join("fld(std::string_view(%s, %d), &%s::m%d, Kind::%s)" % (lit(f[1]), len(f[1].encode()), name, i, "Default" if f[2] == "D" else "Required") for i, f in enumerate(fields))
    if base:
        out.append("    static auto fields() { return std::tuple_cat(%s::fields(), std::make_tuple(%s)); }" % (base, fl))
    else:
        out.append("    static auto fields() { return std::make_tuple(%s); }" % fl)
    out.append("};")
    return "\n".join(out) + "\n"


def opt(t):
    return "std::optional<%s>" % t


def vec(t):
    return "std::vector<%s>" % t


def sset(t):
    return "std::set<%s>" % t


def smap(t):
    return "std::map<std::string, %s>" % t


def umap(t):
    return "std::unordered_map<std::string, %s>" % t


def uptr(t):
    return "std::unique_ptr<%s>" % t


def sptr(t):
    return "std::shared_ptr<%s>" % t


PRELUDE = r'''
#pragma once
@NEED@
#include "ops.hpp"
#include <boost/describe.hpp>

using Bytes = std::vector<std::byte>;
using Ymd = std::chrono::year_month_day;

enum class EI { a = 0, b = 1, c = -7 };
enum class EU8 : std::uint8_t { x = 1, y = 255 };
enum class EI8 : signed char { p = -128, q = 127 };
enum class EU64 : unsigned long long { z = 0 };
enum EI16 : short { EI16_one = 1 };
enum class EStr { one, two, three, four, five, six, seven };
enum class EBoost { Red, RedGreen, Green, green, r, _x9, an_enumerator_with_a_rather_long_name_1, an_enumerator_with_a_rather_long_name_2, an_enumerator_with_a_rather_long_name };
BOOST_DESCRIBE_ENUM(EBoost, Red, RedGreen, Green, green, r, _x9, an_enumerator_with_a_rather_long_name_1, an_enumerator_with_a_rather_long_name_2, an_enumerator_with_a_rather_long_name)

namespace persistence {
    template<> struct enum_traits<EStr> {
        inline static constexpr auto conv = make_enum_converter<EStr>({
            make_enum(EStr::one, "one"), make_enum(EStr::two, "One"), make_enum(EStr::three, "on"), make_enum(EStr::four, "\xc3\xa9\"\\/~"),
            make_enum(EStr::five, "one "), make_enum(EStr::six, "a rather long enumeration name that exceeds small buffers"), make_enum(EStr::seven, "7") });
        static std::string_view to_string(EStr e) { return conv.to_string(e); }
        static bool from_string(const std::string_view& s, EStr& e) { return conv.from_string(s, e); }
    };
}
template<> struct EnumNames<EStr> {
    static const std::vector<std::pair<EStr, std::string>>& names() {
        static const std::vector<std::pair<EStr, std::string>> n = {
            {EStr::one, "one"}, {EStr::two, "One"}, {EStr::three, "on"}, {EStr::four, "\xc3\xa9\"\\/~"},
            {EStr::five, "one "}, {EStr::six, "a rather long enumeration name that exceeds small buffers"}, {EStr::seven, "7"} };
        return n;
    }
};
template<> struct EnumNames<EBoost> {
    static const std::vector<std::pair<EBoost, std::string>>& names() {
        static const std::vector<std::pair<EBoost, std::string>> n = {
            {EBoost::Red, "Red"}, {EBoost::RedGreen, "RedGreen"}, {EBoost::Green, "Green"}, {EBoost::green, "green"}, {EBoost::r, "r"}, {EBoost::_x9, "_x9"},
            {EBoost::an_enumerator_with_a_rather_long_name_1, "an_enumerator_with_a_rather_long_name_1"}, {EBoost::an_enumerator_with_a_rather_long_name_2, "an_enumerator_with_a_rather_long_name_2"},
            {EBoost::an_enumerator_with_a_rather_long_name, "an_enumerator_with_a_rather_long_name"} };
        return n;
    }
};
'''



def seeded_enum(seed):
    """an enumeration whose names and values are a function of the seed; some names differ in a single character"""
    r = random.Random("json-persistence-enum-%d" % seed)
    names = set()
    for _ in range(r.randrange(4, 9)):
        random_name(r, names)
    for size in (r.choice([4, 8, 9, 16, 17]), r.choice([24, 32, 33, 48, 64, 65, 100, 130])):
        stem = "".join(r.choice("abcdefghijklmnopqrstuvwxyz_") for _ in range(size))
        for i in (0, size - 1, r.randrange(size), size * 3 // 4):
            names.add(stem[:i] + r.choice("ABCDEFGH") + stem[i + 1:])
        names.add(stem)
        names.add(stem[:-1])
    names = sorted(names)
    r.shuffle(names)
    values = r.sample([-2147483648, 2147483647, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 255, 256, 65536, -300, 1000000, 77, 78, 79, 80, 81, 82, 83, 84, 85], len(names))
    table = "{ " + ", ".join("{static_cast<ESeed>(%d), std::string(%s, %d)}" % (v, lit(n), len(n.encode())) for v, n in zip(values, names)) + " }"
    conv = "{ " + ", ".join("make_enum(static_cast<ESeed>(%d), %s)" % (v, lit(n)) for v, n in zip(values, names)) + " }"
    return """
enum class ESeed : int {};
namespace persistence {
    template<> struct enum_traits<ESeed> {
        inline static constexpr auto conv = make_enum_converter<ESeed>(%s);
        static std::string_view to_string(ESeed e) { return conv.to_string(e); }
        static bool from_string(const std::string_view& s, ESeed& e) { return conv.from_string(s, e); }
    };
}
template<> struct EnumNames<ESeed> {
    static const std::vector<std::pair<ESeed, std::string>>& names() {
        static const std::vector<std::pair<ESeed, std::string>> n = %s;
        return n;
    }
};
""" % (conv, table)


WEIRD = ["", "/", "~", "~0", "a/b", "\u00e9", "\"", "\\", "a b", "$id", "\U0001F389", "\t", "\x7f", "0", "-1", "~1"]

fixed = []      # struct definitions
regs = []       # (weight, type, flags)


def add(t, flags, w=1.0):
    regs.append((w, t, flags))


def build_fixed():
    A = "F_ALL"
    F = fixed.append
    F(struct("P1", [("int", "value", "R")]))
    F(struct("P1o", [(opt("std::string"), "opt", "R")]))
    F(struct("P1d", [("int", "def", "D", "42")]))
    F(struct("P2", [("int", "a", "R"), ("std::string", "b", "R")]))
    F(struct("P2o", [(opt("int"), "x", "R"), (opt("double"), "xy", "R")]))
    F(struct("P2d", [("std::string", "name", "D", '"dflt"'), (opt("bool"), "flag", "R")]))
    F(struct("P2r", [(vec("int"), "items", "R"), (vec("int"), "item", "D", "{1, 2, 3}")]))
    F(struct("P3", [("bool", "bool_value", "R"), ("std::string", "string_value", "R"), (vec("std::string"), "string_list", "R")], split=True))
    F(struct("Leaf", [("int", "v", "R"), ("std::string", "s", "R")]))
    F(struct("Scalars", [(t, "s%d" % i, "R") for i, t in enumerate(SCALARS)] + [(t, "special_%d" % i, "R") for i, t in enumerate(SPECIAL)] + [("std::nullptr_t", "nil", "R")]))
    F(struct("ScalarsOpt", [(opt(t), "s%d" % i, "R") for i, t in enumerate(SCALARS)] + [(opt(t), "special_%d" % i, "R") for i, t in enumerate(SPECIAL)] + [(opt("std::nullptr_t"), "nil", "R")]))
    F(struct("Defaults", [("bool", "b", "D", "true"), ("int", "i", "D", "-5"), ("double", "d", "D", "2.5"), ("std::string", "s", "D", '"dflt"'), (vec("int"), "v", "D", "{7, 8}"),
                          (smap("int"), "m", "D", '{{"k", 1}}'), (sset("std::string"), "st", "D", '{"p", "q"}'), ("std::array<int, 2>", "ar", "D", "{{5, 6}}"), ("P2", "obj", "D", 'P2{9, "nine"}'),
                          ("Ymd", "ymd", "D", "std::chrono::year(2020) / 2 / 29"), ("EStr", "e", "D", "EStr::three"), (opt("int"), "o", "R"), ("int", "r", "R")]))
    F(struct("DefNest", [(opt("P1d"), "o", "R"), (vec("P2d"), "v", "R"), (smap("P2r"), "m", "R"), (uptr("P1d"), "u", "R"), (sptr("P2d"), "s", "R"), (opt(vec("P1d")), "ov", "R"), (opt(uptr("P2d")), "ou", "R"),
                         (umap("P2d"), "um", "R"), (vec(sptr("P1d")), "vs", "R"), (vec(vec("P2r")), "vv", "R")]))
    F(struct("DefVar", [("std::variant<bool, P1d, P2r, std::string>", "a", "R"), (vec("std::variant<P2r, P1d, int>"), "b", "R"), (opt("std::variant<P2d, " + vec("P1d") + ">"), "c", "R")]))
    F(struct("Weird", [(["int", "std::string", "double", opt("int"), vec("short"), "bool"][i % 6], n, "R") for i, n in enumerate(WEIRD)]))
    F(struct("Prefixes", [("int", n, "R") for n in ["a", "aa", "aaa", "aaaa", "ab", "ba", "b", "bb", "aab", "abb"]]))
    F(struct("Big33", [("int" if i % 3 else opt("int"), "member_%d" % i, "R") for i in range(33)]))
    F(struct("Big64", [("int" if i % 5 else opt("short"), "f%02d" % i, "R") for i in range(64)]))
    F(struct("Big65", [("unsigned char" if i % 7 else opt("int"), "%d" % i, "R") for i in range(65)]))
    F(struct("Base1", [("int", "base_a", "R"), (opt("std::string"), "base_b", "R")]))
    F(struct("Derived1", [("double", "d", "R"), (vec("int"), "e", "R")], base="Base1"))
    F(struct("Derived2", [("P2", "p", "R"), (opt("float"), "", "R")], base="Derived1"))
    F(struct("Tree", [("int", "v", "R"), (vec("Tree"), "kids", "R")]))
    F(struct("Tree2", [(opt(uptr("Tree2")), "left", "R"), (opt(uptr("Tree2")), "right", "R"), ("std::string", "label", "R")]))
    F(struct("Tree3", [(smap(uptr("Tree3")), "sub", "R")]))
    F(struct("Nested", [("P1", "p1", "R"), ("P2o", "p2", "R"), (opt("P3"), "p3", "R"), (vec("P2"), "list", "R"), (smap("P1o"), "dict", "R"), ("std::pair<P1, P2>", "pair", "R"), ("Derived1", "der", "R"),
                        ("std::array<P2, 2>", "arr", "R"), (sset("std::string"), "set", "R"), (uptr("P3"), "ptr", "R"), ("std::tuple<int, P2, " + vec("P1") + ">", "tup", "R")]))
    F(struct("VecAll1", [(vec(t), "v%d" % i, "R") for i, t in enumerate(SCALARS)]))
    F(struct("VecAll2", [(vec(t), "v%d" % i, "R") for i, t in enumerate(SPECIAL + ["std::nullptr_t", vec("int"), uptr("int"), sptr("std::string"), smap("int"), "std::array<float, 2>", "std::pair<int, std::string>", sset("int")])]))
    F(struct("SetAll1", [(sset(t), "v%d" % i, "R") for i, t in enumerate(SCALARS)]))
    F(struct("SetAll2", [(sset(t), "v%d" % i, "R") for i, t in enumerate(SPECIAL + [vec("int"), "std::array<short, 2>", "std::pair<int, std::string>", sset("int"), smap("int")])]))
    F(struct("ArrAll", [("std::array<%s, %d>" % (t, 1 + i % 3), "v%d" % i, "R") for i, t in enumerate(SCALARS + SPECIAL + ["std::nullptr_t", vec("int"), "P2", sset("int"), smap("bool"), "std::array<int, 2>"])]))
    F(struct("MapAll", [((smap if i % 2 else umap)(t), "v%d" % i, "R") for i, t in enumerate(SCALARS + SPECIAL + ["std::nullptr_t", vec("int"), "P1", "P3", sset("int"), smap("bool"), "std::array<int, 2>", uptr("double"), sptr("P2")])]))
    F("using TupAll = std::tuple<%s>;\n" % ", ".join(SCALARS + SPECIAL + ["std::nullptr_t", vec("int"), "P2", smap("bool")]))
    F(struct("Literals", [("char[1]", "a", "R"), ("char[5]", "b", "R"), ("char[64]", "c", "R"), ("std::string_view", "d", "R"), (opt("std::string_view"), "e", "R")]))
    F("""
struct Multi : Base1, Leaf { std::string own{};
    template<typename Archive> constexpr auto persist(Archive& ar) { auto&& first = this->Base1::persist(ar); auto&& second = this->Leaf::persist(first); return second & MEMBER_VARIABLE(own); }
    static auto fields() { return std::tuple_cat(Base1::fields(), Leaf::fields(), std::make_tuple(fld("own", &Multi::own))); } };
""")
    # sharing
    F(struct("Mid", [(sptr("Leaf"), "leaf", "R"), ("int", "k", "R")]))
    F(struct("Shr", [(sptr("Leaf"), "a", "R"), (vec(sptr("Leaf")), "v", "R"), (smap(sptr("Leaf")), "m", "R"), (opt(sptr("Leaf")), "o", "R"), ("std::pair<int, " + sptr("Leaf") + ">", "p", "R"),
                     (sptr("std::string"), "s1", "R"), (sptr("std::string"), "s2", "R"), (vec(vec(sptr("int"))), "vv", "R")]))
    F(struct("ShrDeep", [(sptr("Mid"), "m1", "R"), (vec(sptr("Mid")), "ms", "R"), (sptr("Leaf"), "leaf", "R"), (umap(sptr("Mid")), "um", "R"), ("std::array<" + sptr("Leaf") + ", 2>", "arr", "R"), (uptr(sptr("Leaf")), "u", "R")]))
    F(struct("ShrWeird", [(sptr("Leaf"), n, "R") for n in ["", "/", "~", "a/b~c", "\u00e9", "0", "\"q\\", "%41 #"]]))
    F(struct("ShrSet", [(sset(sptr("int")), "set", "R"), (sptr("int"), "one", "R"), (vec(sptr("int")), "more", "R")]))
    F(struct("ShrMap", [(sptr(smap("int")), "a", "R"), (sptr(smap("int")), "b", "R"), (sptr(vec("int")), "c", "R"), (sptr(vec("int")), "d", "R"), (vec(sptr(smap("int"))), "e", "R")]))
    F(struct("ShrInh", [(sptr("P1"), "x", "R"), (vec(sptr("Derived1")), "y", "R")], base="Mid"))
    F('''
struct AliasOuter { Leaf first{}; int n{};
    template<typename Archive> constexpr auto persist(Archive& ar) { return ar & MEMBER_VARIABLE(first) & MEMBER_VARIABLE(n); }
    static auto fields() { return std::make_tuple(fld("first", &AliasOuter::first), fld("n", &AliasOuter::n)); } };
struct AliasBoth { std::shared_ptr<AliasOuter> o; std::shared_ptr<Leaf> l; std::shared_ptr<int> i; std::shared_ptr<AliasOuter> o2; std::shared_ptr<Leaf> l2;
    template<typename Archive> constexpr auto persist(Archive& ar) { return ar & MEMBER_VARIABLE(o) & MEMBER_VARIABLE(l) & MEMBER_VARIABLE(i) & MEMBER_VARIABLE(o2) & MEMBER_VARIABLE(l2); }
    static auto plain() { return std::make_tuple(fld("o", &AliasBoth::o), fld("l", &AliasBoth::l), fld("i", &AliasBoth::i), fld("o2", &AliasBoth::o2), fld("l2", &AliasBoth::l2)); }
    static auto fields() { return plain(); } };
''')
    F(struct("VarMix", [("std::variant<bool, int, std::string, std::vector<int>>", "a", "R"), ("std::variant<signed char, short, int, long long, double>", "b", "R"), ("std::variant<P1, P2, std::map<std::string, int>, std::string>", "c", "R"),
                        (vec("std::variant<std::nullptr_t, bool, double, std::string>"), "d", "R"), (opt("std::variant<Ymd, Timestamp, Bytes, std::string>"), "e", "R"), (smap("std::variant<EStr, EBoost, unsigned char, P2o>"), "f", "R")]))
    F(struct("VarShr", [("std::variant<std::shared_ptr<Leaf>, std::shared_ptr<P1>, int>", "a", "R"), (vec("std::variant<std::shared_ptr<Mid>, std::shared_ptr<Leaf>, std::string>"), "b", "R"), (sptr("Leaf"), "c", "R")]))

    long_name = "AClassWhoseNameTakesMoreThanOneHundredCharactersInOrderToExceedAnyBufferOrPrefixThatANameIsCutTo"
    F(struct(long_name + "One", [("int", "a", "R")]))
    F(struct(long_name + "Two", [("std::string", "a", "R")]))
    F("namespace names { namespace within_names {\n" + struct("Item", [("bool", "a", "R")]) + "}\n" + struct("Item", [("double", "a", "R"), (opt("within_names::Item"), "b", "R")]) + "}\n")
    F(struct("Item", [("int", "a", "R"), ("names::Item", "b", "R"), (vec("names::within_names::Item"), "c", "R")]))
    F(struct("LongNames", [(vec(long_name + "One"), "one", "R"), (opt(long_name + "Two"), "two", "R"), ("Item", "three", "R"), (smap(uptr(long_name + "One")), "four", "R")]))

    sc = {"float": "F_NUM|F_UNREP", "double": "F_NUM|F_UNREP", "bool": "0", "std::string": "0", "Ymd": "F_DATE|F_UNREP", "Timestamp": "F_DATE", "Bytes": "F_BYTES"}
    for t in SCALARS:
        add(t, A + "|" + sc.get(t, "F_NUM"), 0.5)
    for t in SPECIAL:
        add(t, A + "|" + sc.get(t, "F_ENUM"), 0.5)
    add("std::nullptr_t", A, 0.5)
    add(vec("bool"), A)
    add(vec("int"), A + "|F_NUM")
    add(vec("double"), A + "|F_NUM|F_UNREP")
    add(vec("std::string"), A)
    add(sset("float"), A + "|F_NUM|F_UNREP")
    add(sset("std::string"), A)
    add(smap("double"), A + "|F_NUM|F_UNREP")
    add(umap("std::string"), A)
    add("std::array<int, 3>", A + "|F_NUM")
    add("std::array<std::string, 1>", A)
    add("std::pair<short, float>", A + "|F_NUM|F_UNREP")
    add("std::tuple<>", A)
    add("std::tuple<unsigned char>", A + "|F_NUM")
    add("TupAll", A + "|F_NUM|F_ENUM|F_DATE|F_BYTES|F_UNREP|F_CLASS", 5)
    add(vec(vec(vec("int"))), A)
    add(smap(smap(vec("Ymd"))), A + "|F_DATE|F_UNREP")
    add(uptr("std::string"), "F_PARSE|F_DOM", 0.5)
    add(sptr("double"), "F_PARSE|F_DOM|F_UNREP|F_NUM", 0.5)
    add(vec("P2"), A + "|F_CLASS")
    for t in ["P1", "P1o", "P2", "P2o", "P3", "Leaf"]:
        add(t, A + "|F_CLASS")
    for t in ["P1d", "P2d", "P2r"]:
        add(t, "F_PARSE|F_DOM|F_CLASS|F_DEFAULT")
    add("Scalars", A + "|F_CLASS|F_NUM|F_ENUM|F_DATE|F_BYTES|F_UNREP", 5)
    add("ScalarsOpt", A + "|F_CLASS|F_NUM|F_ENUM|F_DATE|F_BYTES|F_UNREP", 6)
    add("Defaults", "F_PARSE|F_DOM|F_CLASS|F_DEFAULT|F_UNREP", 4)
    add("DefNest", "F_PARSE|F_DOM|F_CLASS|F_DEFAULT|F_SHARED", 4)
    add("DefVar", "F_DOM|F_CLASS|F_DEFAULT|F_VARIANT", 3)
    add("Weird", A + "|F_CLASS|F_UNREP", 3)
    add("Prefixes", A + "|F_CLASS", 2)
    add("Big33", A + "|F_CLASS", 3)
    add("Big64", A + "|F_CLASS", 6)
    add("Big65", A + "|F_CLASS", 6)
    add("Derived1", A + "|F_CLASS|F_UNREP", 1.5)
    add("Derived2", A + "|F_CLASS|F_UNREP", 2)
    add("Multi", A + "|F_CLASS", 1.5)
    add("LongNames", A + "|F_CLASS|F_UNREP", 2)
    add("Tree", A + "|F_CLASS|F_RECURSIVE", 1.5)
    add("Tree2", A + "|F_CLASS|F_RECURSIVE", 1.5)
    add("Tree3", A + "|F_CLASS|F_RECURSIVE", 1.5)
    add("Nested", A + "|F_CLASS|F_UNREP", 5)
    add("VecAll1", A + "|F_HEAVY|F_NUM|F_UNREP|F_CLASS", 5)
    add("VecAll2", A + "|F_HEAVY|F_ENUM|F_DATE|F_BYTES|F_UNREP|F_SHARED|F_CLASS", 7)
    add("SetAll1", A + "|F_HEAVY|F_NUM|F_UNREP|F_CLASS", 6)
    add("SetAll2", A + "|F_HEAVY|F_ENUM|F_DATE|F_BYTES|F_UNREP|F_CLASS", 6)
    add("ArrAll", A + "|F_HEAVY|F_NUM|F_ENUM|F_DATE|F_BYTES|F_UNREP|F_CLASS", 8)
    add("MapAll", A + "|F_HEAVY|F_NUM|F_ENUM|F_DATE|F_BYTES|F_UNREP|F_SHARED|F_CLASS", 9)
    for t in ["Mid", "Shr", "ShrDeep", "ShrWeird", "ShrSet", "ShrMap", "ShrInh"]:
        add(t, A + "|F_CLASS|F_SHARED", 2.5)
    add("AliasBoth", A + "|F_CLASS|F_SHARED", 2)
    add(vec(sptr("Leaf")), A + "|F_SHARED", 1)
    add(smap(sptr(vec("std::string"))), A + "|F_SHARED", 1)
    D = "F_DOM|F_SCHEMA"
    add("std::variant<bool, int, std::string, std::vector<int>>", D + "|F_VARIANT|F_DISJOINT")
    add("std::variant<int, double>", "F_DOM|F_VARIANT|F_NUM|F_UNREP")
    add("std::variant<unsigned char, signed char, unsigned short, int, unsigned long, float, double>", "F_DOM|F_VARIANT|F_NUM|F_UNREP", 1.5)
    add(vec("std::variant<P1, P2, P3, Leaf, P2o>"), "F_DOM|F_VARIANT|F_CLASS", 1.5)
    add("std::variant<std::vector<int>, std::vector<std::string>, std::map<std::string, int>, std::set<bool>>", "F_DOM|F_VARIANT")
    add("std::map<std::string, std::variant<std::nullptr_t, bool, double, std::string>>", D + "|F_VARIANT|F_DISJOINT|F_UNREP")
    add("VarMix", "F_DOM|F_VARIANT|F_CLASS|F_UNREP", 5)
    add("VarShr", "F_DOM|F_VARIANT|F_CLASS|F_SHARED", 3)
    add("std::variant<std::pair<int, int>, std::array<std::string, 2>, std::tuple<int, std::string>, std::vector<bool>>", "F_DOM|F_VARIANT|F_DISJOINT")
    add("std::variant<%s>" % ", ".join([uptr("bool"), "bool", uptr("std::string"), "std::string", sptr("int"), "int", "double", vec("bool"), uptr(vec("bool"))]), "F_DOM|F_VARIANT|F_UNREP", 1.5)
    add(vec("std::variant<std::variant<int, bool>, std::string, bool, std::vector<std::variant<bool, std::string>>, double>"), "F_DOM|F_VARIANT|F_UNREP", 1.5)
    add("std::variant<EI8, EI, short, EU64, ESeed, EStr, Bytes, std::string>", "F_DOM|F_VARIANT", 1.5)
    add("std::variant<std::map<std::string, int>, P1, std::unique_ptr<P2>, P2, std::map<std::string, std::variant<bool, std::string>>>", "F_DOM|F_VARIANT|F_CLASS", 1.5)
    # output only
    for n in (1, 2, 4, 17, 300):
        add("char[%d]" % n, "0", 0.3)
    add("Literals", "0", 0.5)
    add("std::string_view", "0", 0.3)
    add("std::vector<std::string_view>", "0", 0.3)
    add("std::vector<std::pair<std::string_view, int>>", "0", 0.3)
    add("std::vector<std::pair<std::string, std::vector<double>>>", "F_UNREP", 0.3)
    add("std::map<std::string_view, P2>", "0", 0.4)
    add("std::unordered_map<std::string_view, std::string_view>", "0", 0.3)
    add("const P2*", "0", 0.4)
    add("std::vector<int*>", "0", 0.3)


def random_name(r, used):
    alphabets = ["abc", "ab", "abcdefghijklmnopqrstuvwxyz", "0123456789", "_xyzXYZ", "aA", "~/a", "\u00e9\u20aca", "\U0001F600\u0100z", "\" \\'%", "\x01\x1f\x7f", "-.$#@"]
    while True:
        k = r.random()
        if k < 0.15 and used:
            base = r.choice(sorted(used))
            i = r.randrange(len(base) + 1)
            n = base[:i] + r.choice("abx0/~") + base[i:]
        elif k < 0.25 and used:
            base = r.choice(sorted(used))
            n = base[::-1] if r.random() < 0.5 else base.swapcase()
        elif k < 0.3:
            n = r.choice(["$ref", "$schema", "value", "key", "items", "", "x" * r.choice([15, 16, 17, 31, 32, 63, 64, 255, 256, 300])])
        else:
            al = r.choice(alphabets)
            n = "".join(r.choice(al) for _ in range(r.choice([1, 1, 2, 2, 3, 4, 5, 8, 12])))
        if n not in used and n != "$ref":
            used.add(n)
            return n


def random_type(r, depth, classes):
    k = r.random()
    if depth <= 0 or k < 0.45:
        return r.choice(SCALARS + SPECIAL)
    inner = lambda: random_type(r, depth - 1, classes)
    c = r.randrange(9)
    if c == 0:
        t = inner()
        if t.startswith(("std::pair<std::string,", "std::pair<std::string_view,")):
            t = "int"  # a vector of such pairs is the write-only list of properties
        return vec(t)
    if c == 1:
        return sset(r.choice(SCALARS + ["Ymd", "EStr", "Timestamp"]))
    if c == 2:
        return smap(inner())
    if c == 3:
        return umap(inner())
    if c == 4:
        return "std::array<%s, %d>" % (r.choice(SCALARS + SPECIAL), r.randrange(1, 5))
    if c == 5:
        return "std::pair<%s, %s>" % (inner(), inner())
    if c == 6:
        return "std::tuple<%s>" % ", ".join(inner() for _ in range(r.randrange(1, 4)))
    if c == 7:
        return uptr(inner())
    return r.choice(classes) if classes else "int"


def fix_unique(t):
    return t


def build_custom():
    """the same structures, with types that are added by specializations (custom.hpp)"""
    global fixed, regs
    regs = []
    A = "F_PARSE|F_DOM"
    fixed.append(struct("CustomAll", [("Rgb", "rgb", "R"), ("Switch", "switch", "R"), (vec("Rgb"), "list", "R"), (opt("Rgb"), "maybe", "R"), (smap("Switch"), "dict", "R"), (opt(vec("Switch")), "flags", "R"), (umap("Rgb"), "hashed", "R"), (sset("Rgb"), "set", "R"), (uptr("Rgb"), "own", "R"), (sptr("Switch"), "ptr", "R")]))
    fixed.append(struct("CustomDefault", [("Rgb", "rgb", "D"), ("int", "n", "R"), ("Switch", "on", "D"), (vec("Rgb"), "list", "D")]))
    fixed.append(struct("CustomDom", [("Interval", "range", "R"), (vec("Interval"), "list", "R"), (opt("Interval"), "maybe", "R"), (smap("Interval"), "dict", "R"), ("std::variant<Interval, Rgb, std::string, std::vector<int>>", "any", "R"), (sptr("Interval"), "ptr", "R"), (vec(sptr("Rgb")), "shared", "R")]))
    fixed.append(struct("CustomShared", [(vec(sptr("Rgb")), "a", "R"), (sptr("Interval"), "b", "R"), (smap(sptr("Switch")), "c", "R"), (sptr(vec("Rgb")), "d", "R"), (sptr(vec("Rgb")), "e", "R"), (sptr("Interval"), "f", "R")]))
    add("Rgb", A); add("Switch", A); add(vec("Rgb"), A); add(vec("Switch"), A); add(sset("Rgb"), A); add(sset("Switch"), A)
    add(smap("Rgb"), A); add(umap("Switch"), A); add(uptr("Rgb"), A); add(vec(uptr("Switch")), A); add(vec(vec("Rgb")), A); add(smap(vec("Switch")), A)
    add("std::array<Rgb, 3>", A); add("std::pair<Rgb, Switch>", A); add("std::tuple<Switch, Rgb, int>", A)
    add(vec("std::pair<Switch, Rgb>"), A); add(smap("std::array<Switch, 2>"), A)
    add("CustomAll", A + "|F_CLASS|F_SHARED", 4); add(vec("CustomAll"), A + "|F_CLASS|F_SHARED", 4); add("CustomDefault", A + "|F_CLASS|F_DEFAULT", 3)
    add("Interval", "F_DOM|F_UNREP"); add(vec("Interval"), "F_DOM|F_UNREP"); add(sset("Interval"), "F_DOM|F_UNREP"); add(smap(vec("Interval")), "F_DOM|F_UNREP"); add("std::tuple<Interval, Rgb, Interval>", "F_DOM|F_UNREP")
    add("std::variant<Rgb, std::string, Switch, Interval>", "F_DOM|F_VARIANT|F_UNREP"); add(vec("std::variant<Interval, " + vec("Rgb") + ", " + smap("Switch") + ">"), "F_DOM|F_VARIANT|F_UNREP")
    add("CustomDom", "F_DOM|F_CLASS|F_VARIANT|F_SHARED|F_UNREP", 4); add("CustomShared", "F_DOM|F_CLASS|F_SHARED|F_UNREP", 4); add(vec(sptr("Interval")), "F_DOM|F_SHARED|F_UNREP"); add(smap(sptr("Rgb")), "F_DOM|F_SHARED")


def build_seeded(seed, n):
    """each class in its own namespace block so that one translation unit holds one or two"""
    out = []
    r = random.Random("json-persistence-%d" % seed)
    for c in range(n):
        count = [3, 4, 5, 6, 7, 8, 9, 12, 16, 24][c % 10] + (r.randrange(2) if c >= 10 else 0)
        used = set()
        fields = []
        dflt = c % 4 == 3
        base = None
        text = ""
        if c % 5 == 2:
            bf = []
            for _ in range(1 + r.randrange(3)):
                bf.append((r.choice(SCALARS), random_name(r, used), "R"))
            base = "SeedBase%d" % c
            text += struct(base, bf)
        for i in range(count):
            t = random_type(r, 2, ["P1", "P2", "P2o", "Leaf"])
            kind = "R"
            k = r.random()
            if k < 0.35:
                t = opt(t)
            elif k < 0.55 and dflt:
                kind = "D"
            fields.append((t, random_name(r, used), kind))
        name = "Seed%d" % c
        text += struct(name, fields, base=base)
        has_default = any(f[2] == "D" for f in fields)
        flags = "F_PARSE|F_DOM|F_CLASS|F_SEEDED|F_UNREP" + ("|F_DEFAULT" if has_default else "|F_SCHEMA")
        out.append((text, name, flags))
    return out


def build_variants(seed, n):
    """variants of random alternatives, overlapping more often than not"""
    out = []
    r = random.Random("json-persistence-variant-%d" % seed)
    for c in range(n):
        alts = []
        kinds = r.choice([SCALARS, SPECIAL + ["std::string", "int"], SCALARS + SPECIAL])
        for _ in range(2 + r.randrange(5)):
            k = r.random()
            if k < 0.5:
                t = r.choice(kinds)
            elif k < 0.6:
                t = r.choice([uptr, sptr])(r.choice(kinds))
            elif k < 0.65:
                t = "std::variant<%s>" % ", ".join(r.sample(kinds, 2))
            else:
                t = random_type(r, 2, ["P1", "P2", "P2o", "Leaf", "Mid"])
            if t not in alts:
                alts.append(t)
        t = "std::variant<%s>" % ", ".join(alts)
        shape = r.randrange(3)
        t = t if shape == 0 else vec(t) if shape == 1 else smap(t)
        name = "SeedVar%d" % c
        out.append(("using %s = %s;\n" % (name, t), name, "F_DOM|F_VARIANT|F_SEEDED|F_UNREP"))
    return out


def expand(fl):
    have = set(fl.split("|"))
    if "F_ALL" in have:
        have |= {"F_PARSE", "F_DOM", "F_SCHEMA"}
    return have


def main():
    cfg = json.loads(sys.argv[1])
    seed, outdir, nseeded = cfg["seed"], cfg["out"], cfg["seeded"]
    build_fixed()
    if cfg.get("custom"):
        build_custom()
    need = "\n".join("#define NEED_%s %d" % (n, n in cfg["need"]) for n in ["WRITE", "SER", "PARSE", "DOM", "SCHEMA"])
    with open(outdir + "/types.hpp", "w") as f:
        prelude = PRELUDE.replace("@NEED@", need)
        if cfg.get("custom"):
            prelude = prelude.replace('#include "ops.hpp"', '#include "ops.hpp"\n#include "custom.hpp"')
        f.write(prelude + seeded_enum(seed) + "\n".join(fixed))
        f.write(r'''
// objects that share an address with their first member: the pointers refer into one allocation
template<> struct Meta<AliasBoth> {
    template<typename F> static void each(F f) { std::apply([&](auto&&... x) { (f(x), ...); }, AliasBoth::plain()); }
    static void gen(G& g, AliasBoth& v)
    {
        each([&](auto& f) { Meta<std::decay_t<decltype(v.*f.ptr)>>::gen(g, v.*f.ptr); });
        if (g.share) {
            if (g.s.chance(1, 2)) v.l = std::shared_ptr<Leaf>(v.o, &v.o->first);
            if (g.s.chance(1, 2)) v.i = std::shared_ptr<int>(v.o, &v.o->first.m0);
            if (g.s.chance(1, 2)) v.o2 = v.o;
            if (g.s.chance(1, 2)) v.l2 = std::shared_ptr<Leaf>(v.o2, &v.o2->first);
            ++g.reused;
        }
    }
    static J enc(const AliasBoth& v, Enc& c)
    {
        J j = J::obj();
        each([&](auto& f) { Seg s(c.path, f.name); j.add(std::string(f.name), Meta<std::decay_t<decltype(v.*f.ptr)>>::enc(v.*f.ptr, c)); });
        return j;
    }
    static bool dec(const J& j, AliasBoth& v, Dec& c)
    {
        if (j.k != J::Obj) return c.err(j, "object");
        bool ok = true;
        std::size_t known = 0;
        each([&](auto& f) {
            const J* x = j.find(f.name);
            if (!x) { ++c.missing; ok = c.err(j, "missing required property"); return; }
            ++known;
            Seg s(c.path, f.name);
            ok &= Meta<std::decay_t<decltype(v.*f.ptr)>>::dec(*x, v.*f.ptr, c);
        });
        if (known != j.o.size()) {
            c.unknown = true;
            if (c.mode == Dec::PARSE) {
                for (auto& m : j.o) {
                    bool found = false;
                    each([&](auto& f) { found = found || f.name == m.key; });
                    if (!found) { c.errors.push_back({"/", m.kbeg, m.kend + 1, "unknown property"}); ok = false; }
                }
            }
        }
        return ok;
    }
    static bool eq(const AliasBoth& a, const AliasBoth& b, Eq& c)
    {
        bool ok = true;
        each([&](auto& f) { ok = ok && Meta<std::decay_t<decltype(a.*f.ptr)>>::eq(a.*f.ptr, b.*f.ptr, c); });
        return ok;
    }
};
''')
    any_of, all_of, none_of = cfg.get("any", []), cfg.get("all", []), cfg.get("none", [])
    only = cfg.get("only", [])
    items = []
    for w, t, fl in regs:
        if only and t not in only:
            continue
        have = expand(fl)
        if (any_of and not any(x in have for x in any_of)) or not all(x in have for x in all_of) or any(x in have for x in none_of):
            continue
        items.append((w, t, fl, ""))
    for text, name, fl in build_seeded(seed, nseeded):
        items.append((5.0, name, fl, text))
    for text, name, fl in build_variants(seed, cfg.get("variants", 0)):
        items.append((1.5, name, fl, text))
    # balance the translation units
    bins = [[0.0, []] for _ in range(min(cfg.get("units", 8), len(items)))]
    for it in sorted(items, key=lambda x: -x[0]):
        b = min(bins, key=lambda x: x[0])
        b[0] += it[0]
        b[1].append(it)
    for n, (w, its) in enumerate(bins):
        with open("%s/reg_%02d.cpp" % (outdir, n), "w") as f:
            f.write('#include "types.hpp"\nnamespace {\n')
            for w, t, fl, text in its:
                f.write(text)
            f.write("}\n")
            for i, (w, t, fl, text) in enumerate(its):
                f.write("static int r%d = (reg<%s, %s>(\"%s\"));\n" % (i, t, fl.replace("|F_HEAVY", ""), t))


main()
