#include "zoo_util.hpp"
#include <persistence/utility.hpp>

std::vector<Ops>& all_ops()
{
    static std::vector<Ops> v;
    return v;
}

std::vector<const Ops*> select_ops(unsigned all, unsigned any, unsigned none)
{
    std::vector<const Ops*> r;
    for (auto& o : all_ops()) {
        if ((o.flags & all) == all && (any == 0 || (o.flags & any) != 0) && (o.flags & none) == 0) r.push_back(&o);
    }
    return r;
}

const Ops& pick_op(Src& s, const std::vector<const Ops*>& v)
{
    if (v.empty()) {
        std::fprintf(stderr, "no types registered\n");
        std::exit(3);
    }
    return *v[s.below(v.size())];
}

void gen_value(Src& s, const Ops& op, void* p, Arena& arena, bool share, bool unrep, G* info)
{
    G g(s, arena);
    g.share = share;
    g.unrep = unrep;
    op.gen(g, p);
    if (info) {
        info->reused = g.reused;
        info->made_unrep = g.made_unrep;
    }
}

Doc make_doc(std::string text, std::string label)
{
    Doc d;
    d.text = std::move(text);
    d.j = jread(d.text);
    d.label = std::move(label);
    return d;
}

void shuffle_members(J& j, Src& s)
{
    for (std::size_t i = j.o.size(); i > 1; --i) std::swap(j.o[i - 1], j.o[s.below(i)]);
    for (auto& x : j.a) shuffle_members(x, s);
    for (auto& m : j.o) shuffle_members(m.v, s);
}

// a value of the type with the given number of levels
J nested(const std::string& type, std::size_t levels, std::size_t salt)
{
    J j;
    for (std::size_t i = 0; i < levels; ++i) {
        J o = J::obj();
        if (type == "Tree") {
            o.add("v", J::num(std::to_string(i)));
            J kids = J::arr();
            if (i > 0) kids.a.push_back(std::move(j));
            if (salt & 1) {
                J leaf = J::obj();
                leaf.add("v", J::num("-1"));
                leaf.add("kids", J::arr());
                kids.a.push_back(std::move(leaf));
            }
            o.add("kids", std::move(kids));
        } else if (type == "Tree2") {
            if (i > 0) o.add(((i + salt) & 1) ? "left" : "right", std::move(j));
            o.add("label", J::str(std::to_string(i)));
        } else {
            J sub = J::obj();
            if (i > 0) sub.add("s" + std::to_string(i), std::move(j));
            o.add("sub", std::move(sub));
        }
        j = std::move(o);
    }
    return j;
}

Doc gen_doc(Src& s, const Ops& op, const DocOptions& opt)
{
    unsigned total = opt.valid + opt.mutated + opt.any + opt.bytes + opt.reorder;
    unsigned k = static_cast<unsigned>(s.below(total));
    J j;
    std::string label = "valid";
    unsigned lim_valid = opt.valid, lim_mut = lim_valid + opt.mutated, lim_re = lim_mut + opt.reorder, lim_bytes = lim_re + opt.bytes;
    if (opt.deep && (op.flags & F_RECURSIVE) && s.chance(1, 8)) {
        // nested deeper than the streaming parser supports, perhaps
        j = nested(op.name, 1 + s.below(300), s.below(2));
        label = "nested";
        if (s.chance(1, 3)) label = jmutate(j, s);
    } else if (k >= lim_bytes) {
        j = gen_json(s, 3);
        label = "any";
    } else {
        Val x(op);
        Arena arena;
        gen_value(s, op, x.p, arena, opt.share && s.chance(1, 2));
        Enc e;
        if ((op.flags & F_DEFAULT) && s.chance(1, 2)) e.omit = &s;
        j = op.enc(x.p, e);
        if (k >= lim_valid && k < lim_mut) {
            label = jmutate(j, s);
            for (std::size_t n = s.below(3); n > 0; --n) label = jmutate(j, s);
        } else if (k >= lim_mut && k < lim_re) {
            shuffle_members(j, s);
            label = "reorder";
        }
    }
    std::string text = s.chance(1, 3) ? jwrite(j) : jwrite(j, s);
    if (k >= lim_re && k < lim_bytes) {
        for (std::size_t n = 1 + s.below(3); n > 0; --n) label = bytes_mutate(text, s);
    }
    return make_doc(std::move(text), label);
}

std::string text_of(const rapidjson::Document& d) { return persistence::document_to_string(d); }
