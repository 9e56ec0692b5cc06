// Properties of shared objects and back-references.
#include "zoo_util.hpp"
#include <persistence/utility.hpp>

namespace {

std::string show(const Ops& op, const void* p)
{
    Enc e;
    return jwrite(op.enc(p, e));
}

void collect_refs(const J& j, std::vector<const J*>& v)
{
    if (j.k == J::Obj && j.o.size() == 1 && j.o[0].key == "$ref") v.push_back(&j);
    for (auto& x : j.a) collect_refs(x, v);
    for (auto& m : j.o) collect_refs(m.v, v);
}

// ---- C14: objects that are shared are written once and are shared again when read
void c14(Src& s, Case& c)
{
    static const auto ops = select_ops(F_SHARED | F_DOM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    Val x(op), want(op);
    Arena arena;
    gen_value(s, op, x.p, arena, !s.chance(1, 8));
    Enc e;
    J j = op.enc(x.p, e);
    std::string text = op.write_v(x.p);
    c.describe(std::string(op.name) + " " + text);
    c.nontrivial = e.nrefs > 0;
    c.label(e.nrefs == 0 ? "no references" : e.nrefs == 1 ? "one reference" : "several references");
    JText t = jread(text);
    if (!t.valid) violate("output is not JSON: " + text);
    if (!jsame(t.root, j)) violate("write_to_string gives " + text + " instead of " + jwrite(j));
    rapidjson::Document doc = op.ser_v(x.p);
    JText u = jread(text_of(doc));
    if (!u.valid || !jsame(u.root, j)) violate("serialize_to_document gives " + text_of(doc) + " instead of " + jwrite(j));

    // each reference resolves to an object that precedes it and is itself no reference
    std::vector<const J*> refs;
    collect_refs(t.root, refs);
    if (refs.size() != e.nrefs) refs.clear();    // a dictionary has a key $ref
    for (auto r : refs) {
        if (r->o[0].v.k != J::Str) violate("reference is not a string: " + text);
        const J* target = jresolve(t.root, r->o[0].v.s);
        if (!target) violate("reference " + r->o[0].v.s + " does not resolve: " + text);
        if (target->beg >= r->beg) violate("reference " + r->o[0].v.s + " does not refer to a previous occurrence: " + text);
        if (target->k == J::Obj && target->o.size() == 1 && target->o[0].key == "$ref") violate("reference " + r->o[0].v.s + " refers to a reference: " + text);
    }
    const void* expected = x.p;
    if (op.flags & F_VARIANT) {
        Dec d;
        d.root = &t.root;
        bool ok = op.dec(t.root, want.p, d);
        d.finish();
        if (d.uns) {
            c.label("unspecified");
            return;
        }
        if (!ok) violate("reference decoder rejects " + text);
        expected = want.p;
    }
    std::string style = s.chance(1, 2) ? jwrite(j, s) : text;
    auto read = [&](const char* call, auto f) {
        Val y(op);
        Outcome o = guarded([&] { if (!f(y.p)) violate(std::string(call) + " rejects " + text); });
        if (!o.ok()) violate(std::string(call) + " threw " + o.what + " for " + text);
        if (!equal(op, expected, y.p, text + ' ' + style)) violate(std::string(call) + " does not restore values and sharing: " + show(op, y.p) + " from " + text);
    };
    read("deserialize(doc)", [&](void* p) { return op.deser(doc, p); });
    switch (s.below(4)) {
        case 0: read("deserialize(str)", [&](void* p) { return op.deser_s(style, p); }); break;
        case 1: read("deserialize(str&&)", [&](void* p) { return op.deser_m(std::string(style), p); }); break;
        case 2: read("deserialize<T>(str)", [&](void* p) { op.deser_s_v(style, p); return true; }); break;
        default: read("deserialize<T>(doc)", [&](void* p) { op.deser_v(doc, p); return true; });
    }
}

// ---- C15: references that do not denote an earlier object of the type are refused
void paths_of(const J& j, const std::string& at, std::vector<std::string>& out)
{
    out.push_back(at);
    for (std::size_t i = 0; i < j.a.size(); ++i) paths_of(j.a[i], at + "/" + std::to_string(i), out);
    for (auto& m : j.o) paths_of(m.v, at + "/" + jescape(m.key), out);
}

void collect_all(J& j, std::vector<J*>& v)
{
    v.push_back(&j);
    for (auto& x : j.a) collect_all(x, v);
    for (auto& m : j.o) collect_all(m.v, v);
}

void c15(Src& s, Case& c)
{
    static const auto ops = select_ops(F_SHARED | F_DOM);
    const Ops& op = pick_op(s, ops);
    c.label(op.name);
    Val x(op);
    Arena arena;
    gen_value(s, op, x.p, arena, s.chance(1, 2));
    Enc e;
    J j = op.enc(x.p, e);
    std::vector<std::string> paths;
    paths_of(j, "", paths);
    for (std::size_t n = 1 + s.below(2); n > 0; --n) {
        std::vector<J*> nodes, prefer;
        collect_all(j, nodes);
        for (auto p : nodes) if (p->k == J::Obj) prefer.push_back(p);
        J* at = !prefer.empty() && s.chance(3, 4) ? prefer[s.below(prefer.size())] : nodes[s.below(nodes.size())];
        J ref = J::obj();
        J target;
        switch (s.below(8)) {
            case 0: target = J::str(gen_ref_like(s)); break;
            case 1: target = gen_scalar(s); break;
            case 2: {
                std::string p = paths[s.below(paths.size())];
                switch (s.below(6)) {
                    case 0: p += "/"; break;
                    case 1: p += "/0"; break;
                    case 2: if (!p.empty()) p.pop_back(); break;
                    case 3: if (!p.empty()) p.erase(0, 1); break;
                    case 4: p += "~"; break;
                    default: if (!p.empty()) p.insert(1, "0");
                }
                if (!valid_utf8(p)) p = "/x";
                target = J::str(p);
                break;
            }
            case 3: target = J::arr(); break;
            default: target = J::str(paths[s.below(paths.size())]);
        }
        ref.add("$ref", target);
        if (s.chance(1, 16)) ref.add("other", J::num("1"));
        *at = ref;
    }
    Doc d = make_doc(s.chance(1, 2) ? jwrite(j) : jwrite(j, s), "references");
    c.describe(std::string(op.name) + " " + d.text);
    if (!d.plain()) return;
    Val want(op);
    Dec dec;
    dec.root = &d.j.root;
    bool expect = op.dec(d.j.root, want.p, dec);
    dec.finish();
    // whatever the verdict, reading is safe and the forms agree
    Val y(op), z(op);
    bool ok = quiet("deserialize(str, y)", [&] { return op.deser_s(d.text, y.p); });
    Outcome o = guarded([&] { op.deser_s_v(d.text, z.p); });
    if (o.ok() != ok || (!ok && o.kind != Outcome::DESER)) violate(std::string("deserialize<T> of well-formed text: ") + o.name() + " " + o.what + " for " + d.text);
    if (ok) {
        // the result can be used: every pointer refers to a live object of its type
        (void)show(op, y.p);
        (void)op.write_v(y.p);
    }
    if (dec.uns) {
        c.label(std::string("unspecified: ") + dec.uns_why);
        return;
    }
    c.nontrivial = dec.ref_bad > 0;
    c.label(expect ? "accept" : dec.ref_bad ? std::string("reject: ") + dec.errors[0].what : "reject for another reason");
    if (ok != expect) violate(std::string("deserialize ") + (ok ? "accepts" : "rejects") + " " + d.text + " for " + op.name + (dec.errors.empty() ? "" : std::string(" (") + dec.errors[0].what + " at " + dec.errors[0].path + ")"));
    if (ok && !equal(op, want.p, y.p, d.text)) violate("deserialize gives " + show(op, y.p) + " instead of " + show(op, want.p) + " for " + d.text);
}

int r = [] {
    register_property({"C14", "at least one object is reachable by more than one pointer", c14, {}});
    register_property({"C15", "the text holds at least one reference, where a pointer is expected, that does not denote an earlier object of the type", c15, {}});
    return 0;
}();

}

// all of these, for types that a user adds
void ref_checks(Src& s, Case& c)
{
    static void (*const all[])(Src&, Case&) = {c14, c15};
    s.pick(all)(s, c);
}
