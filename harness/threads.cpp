// Operations on distinct targets, from several threads at once.
#include "zoo_util.hpp"
#include <persistence/utility.hpp>
#include <algorithm>
#include <atomic>
#include <memory>
#include <thread>

namespace {

struct Item {
    const Ops* op;
    std::unique_ptr<Val> value;     // read only, shared by all threads
    std::string text;               // likewise
};

struct Job {
    std::size_t item;
    int what;
};

const char* const NAMES[] = {"write", "serialize", "parse", "deserialize", "deserialize or throw", "parse or throw", "schema", "write or throw", "text to document to text"};

std::string shown(const Ops& op, const void* p)
{
    Enc e;
    return jwrite(op.enc(p, e));
}

std::string perform(const Item& it, int what)
{
    const Ops& op = *it.op;
    std::string r;
    Outcome o = guarded([&] {
        switch (what) {
            case 0: {
                bool ok = op.write(it.value->p, r);
                r = ok ? "1" + r : "0";
                break;
            }
            case 1: {
                rapidjson::Document d;
                bool ok = op.ser(it.value->p, d);
                r = ok ? "1" + text_of(d) : "0";
                break;
            }
            case 2: {
                Val y(op);
                bool ok = op.parse && op.parse(it.text, y.p);
                r = ok ? "1" + shown(op, y.p) : "0";
                break;
            }
            case 3: {
                Val y(op);
                bool ok = op.deser_s && op.deser_s(it.text, y.p);
                r = ok ? "1" + shown(op, y.p) : "0";
                break;
            }
            case 4: {
                Val y(op);
                if (op.deser_s_v) {
                    op.deser_s_v(it.text, y.p);
                    r = shown(op, y.p);
                }
                break;
            }
            case 5: {
                Val y(op);
                if (op.parse_v) {
                    op.parse_v(it.text, y.p);
                    r = shown(op, y.p);
                }
                break;
            }
            case 6: r = op.schema ? op.schema() + op.schema_doc() : ""; break;
            case 7: r = op.write_v(it.value->p); break;
            default: {
                rapidjson::Document d = persistence::string_to_document(it.text);
                r = d.HasParseError() ? "0" : "1" + persistence::document_to_string(d);
            }
        }
    });
    if (!o.ok()) r += std::string(" ") + o.name() + " " + o.path + " " + std::to_string(o.offset) + " " + o.what;
    return r;
}

void c22(Src& s, Case& c)
{
    static const auto ops = [] {
        auto v = select_ops(0);
        // a set of shared pointers is in the order of addresses
        v.erase(std::remove_if(v.begin(), v.end(), [](const Ops* o) { return std::string_view(o->name) == "ShrSet"; }), v.end());
        return v;
    }();
    std::vector<Item> items;
    Arena arena;
    std::size_t n = 1 + s.below(3);
    DocOptions opt;
    opt.bytes = 6;
    opt.share = true;
    for (std::size_t i = 0; i < n; ++i) {
        const Ops& op = pick_op(s, ops);
        Item it;
        it.op = &op;
        it.value = std::make_unique<Val>(op);
        gen_value(s, op, it.value->p, arena, true, s.chance(1, 8));
        it.text = gen_doc(s, op, opt).text;
        c.describe(std::string(op.name) + " " + it.text);
        c.label(op.name);
        items.push_back(std::move(it));
    }
    std::size_t threads = 2 + s.below(3);
    std::vector<std::vector<Job>> jobs(threads);
    std::vector<std::vector<std::string>> got(threads);
    bool same = s.chance(1, 3);     // all threads do the same in the same order: they meet in first use
    for (std::size_t t = 0; t < threads; ++t) {
        if (same && t > 0) {
            jobs[t] = jobs[0];
        } else {
            for (std::size_t k = 1 + s.below(5); k > 0; --k) jobs[t].push_back({s.below(items.size()), static_cast<int>(s.below(std::size(NAMES)))});
        }
        got[t].resize(jobs[t].size());
        std::string d;
        for (auto& j : jobs[t]) d += std::string(d.empty() ? "" : ", ") + NAMES[j.what] + " " + std::to_string(j.item);
        c.describe("thread " + std::to_string(t) + ": " + d);
    }
    c.nontrivial = true;
    std::atomic<std::size_t> ready{0};
    std::vector<std::thread> pool;
    for (std::size_t t = 0; t < threads; ++t) {
        pool.emplace_back([&, t] {
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < threads) {}
            for (std::size_t i = 0; i < jobs[t].size(); ++i) got[t][i] = perform(items[jobs[t][i].item], jobs[t][i].what);
        });
    }
    for (auto& t : pool) t.join();
    // afterwards, one at a time
    for (std::size_t t = 0; t < threads; ++t) {
        for (std::size_t i = 0; i < jobs[t].size(); ++i) {
            const Item& it = items[jobs[t][i].item];
            std::string want = perform(it, jobs[t][i].what);
            if (want != got[t][i]) {
                violate(std::string(NAMES[jobs[t][i].what]) + " of " + it.op->name + " gives " + got[t][i] + " in a thread but " + want + " alone; text " + it.text);
            }
        }
    }
}

int r = [] {
    register_property({"C22", "every case: two to four threads with one to five operations each", c22, {}});
    return 0;
}();

}
