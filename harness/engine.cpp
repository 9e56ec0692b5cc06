#include "engine.hpp"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>

namespace {

std::vector<Property>& properties()
{
    static std::vector<Property> p;
    return p;
}

std::vector<Probe>& probes()
{
    static std::vector<Probe> p;
    return p;
}

Shared* map_state(const char* path)
{
    int fd = open(path, O_RDWR | O_CREAT, 0644);
    if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) {
        std::perror("state file");
        std::exit(3);
    }
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    close(fd);
    if (p == MAP_FAILED) {
        std::perror("mmap");
        std::exit(3);
    }
    return static_cast<Shared*>(p);
}

std::string json_string(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r.push_back('\\');
            r.push_back(static_cast<char>(c));
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r.push_back(static_cast<char>(c));
        }
    }
    return r + "\"";
}

void arm(int seconds)
{
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &t, nullptr);
}

void on_timer(int)
{
    static const char msg[] = "HANG: one case exceeded its processor time limit\n";
    (void)!write(2, msg, sizeof msg - 1);
    _exit(78);
}

double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

// runs one case; returns true if the property held
bool run_case(const Property& prop, Src& src, Case& c, std::string& why)
{
    try {
        prop.run(src, c);
        return true;
    } catch (const Violation& v) {
        why = v.msg;
        return false;
    } catch (const std::length_error& e) {
        if (std::string(e.what()) == "case too large") {
            c.nontrivial = false;
            return true;
        }
        why = std::string("unexpected exception std::length_error: ") + e.what();
        return false;
    } catch (const std::exception& e) {
        why = std::string("unexpected exception: ") + e.what();
        return false;
    } catch (...) {
        why = "unexpected exception of unknown type";
        return false;
    }
}

using Seq = std::vector<std::uint64_t>;

bool fails(const Property& prop, const Seq& seq, Shared* sh, Seq& recorded, std::string& why, std::string& text, int limit)
{
    Src s = Src::replay(seq, sh);
    Case c;
    arm(limit);
    bool ok = run_case(prop, s, c, why);
    arm(0);
    recorded = s.recorded();
    text = c.text;
    return !ok;
}

bool simpler(const Seq& a, const Seq& b)
{
    if (a.size() != b.size()) {
        return a.size() < b.size();
    }
    return a < b;
}

// integrated shrinking on the choice sequence
Seq shrink(const Property& prop, Seq best, Shared* sh, std::string& why, std::string& text, double budget, int limit)
{
    double stop = now() + budget;
    auto attempt = [&](const Seq& cand) {
        if (now() > stop) {
            return false;
        }
        Seq rec;
        std::string w, t;
        if (!fails(prop, cand, sh, rec, w, t, limit)) {
            return false;
        }
        while (!rec.empty() && rec.back() == 0) {
            rec.pop_back();
        }
        if (!simpler(rec, best)) {
            return false;
        }
        best = rec;
        why = w;
        text = t;
        return true;
    };
    bool progress = true;
    while (progress && now() < stop) {
        progress = false;
        for (std::size_t len : {64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
            for (std::size_t i = best.size(); i-- > 0 && now() < stop;) {
                if (i + len > best.size()) {
                    continue;
                }
                Seq cand(best);
                cand.erase(cand.begin() + static_cast<std::ptrdiff_t>(i), cand.begin() + static_cast<std::ptrdiff_t>(i + len));
                if (attempt(cand)) {
                    progress = true;
                    continue;
                }
                // delete and lower an earlier count
                if (i > 0 && cand[i - 1] > 0) {
                    cand[i - 1] -= 1;
                    progress |= attempt(cand);
                }
            }
        }
        for (std::size_t len : {16u, 8u, 4u, 2u, 1u}) {
            for (std::size_t i = 0; i + len <= best.size() && now() < stop; ++i) {
                Seq cand(best);
                bool any = false;
                for (std::size_t k = i; k < i + len; ++k) {
                    any |= cand[k] != 0;
                    cand[k] = 0;
                }
                if (any) {
                    progress |= attempt(cand);
                }
            }
        }
        for (std::size_t i = 0; i < best.size() && now() < stop; ++i) {
            std::uint64_t lo = 0;
            while (i < best.size() && lo < best[i] && now() < stop) {
                Seq cand(best);
                std::uint64_t mid = lo + (best[i] - lo) / 2;
                cand[i] = mid;
                if (attempt(cand)) {
                    progress = true;
                } else {
                    lo = mid + 1;
                }
            }
        }
    }
    return best;
}

void save(const std::string& path, const Seq& seq)
{
    std::ofstream f(path);
    for (auto v : seq) {
        f << v << "\n";
    }
}

Seq load(const std::string& path)
{
    std::ifstream f(path);
    Seq s;
    std::string line;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#') {
            continue;
        }
        s.push_back(std::stoull(line));
    }
    return s;
}

}

void register_property(Property p) { properties().push_back(std::move(p)); }
void register_probe(Probe p) { probes().push_back(std::move(p)); }

// usage:
//   prog list
//   prog run ID seed worker seconds result.json state.bin caselimit [from to]
//   prog probe ID
//   prog replay ID choices.txt state.bin caselimit
int engine_main(int argc, char** argv)
{
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "list") {
        for (auto& p : properties()) {
            std::cout << p.id << "\n";
        }
        return 0;
    }
    if (argc < 3) {
        return 3;
    }
    const Property* prop = nullptr;
    for (auto& p : properties()) {
        if (argv[2] == std::string(p.id)) {
            prop = &p;
        }
    }
    if (!prop) {
        std::cerr << "no such property\n";
        return 3;
    }
    std::signal(SIGVTALRM, on_timer);

    if (mode == "probe") {
        for (auto& p : probes()) {
            if (argv[2] != std::string(p.id)) continue;
            arm(30);
            std::string why;
            try {
                p.run();
            } catch (const Violation& v) {
                why = v.msg;
            } catch (const std::exception& e) {
                why = e.what();
            }
            arm(0);
            std::cout << "PROBE " << p.name << (why.empty() ? " held" : " failed ") << printable(why) << std::endl;
        }
        return 0;
    }

    if (mode == "replay") {
        Shared* sh = argc > 4 ? map_state(argv[4]) : nullptr;
        int limit = argc > 5 ? std::atoi(argv[5]) : 20;
        Seq rec;
        std::string why, text;
        if (sh) sh->phase = 1;
        bool bad = fails(*prop, load(argv[3]), sh, rec, why, text, limit);
        if (sh) sh->phase = 2;
        std::cout << "CASE: " << text << "\n";
        if (bad) {
            std::cout << "FAILED: " << printable(why, 4000) << "\n";
            return 1;
        }
        std::cout << "HELD\n";
        return 0;
    }
    if (mode != "run" || argc < 9) {
        return 3;
    }

    std::uint64_t seed = std::strtoull(argv[3], nullptr, 10);
    std::uint64_t worker = std::strtoull(argv[4], nullptr, 10);
    double seconds = std::atof(argv[5]);
    std::string out = argv[6];
    Shared* sh = map_state(argv[7]);
    int limit = std::atoi(argv[8]);
    std::uint64_t from = argc > 9 ? std::strtoull(argv[9], nullptr, 10) : 0;
    std::uint64_t to = argc > 10 ? std::strtoull(argv[10], nullptr, 10) : ~0ull;

    std::memset(sh, 0, 64);
    sh->phase = 1;
    double start = now();
    std::uint64_t evaluations = 0, nontrivial = 0;
    std::unordered_set<std::uint64_t> distinct;
    std::map<std::string, std::uint64_t> labels;
    std::vector<std::string> samples;
    std::string why, text;
    bool failed = false;
    for (std::uint64_t i = from; i < to; ++i) {
        if (now() - start > seconds) {
            break;
        }
        std::uint64_t s = mix64(mix64(seed * 1000003 + worker) ^ mix64(i + 77));
        sh->case_index = i;
        sh->count = 0;
        Src src = Src::random(s, sh);
        Case c;
        c.want_text = samples.size() < 4 || (i & 1023) == 0;
        std::string w;
        arm(limit);
        bool ok = run_case(*prop, src, c, w);
        arm(0);
        ++evaluations;
        sh->evaluations = evaluations;
        if (!ok) {
            failed = true;
            Seq rec, seq = src.recorded();
            std::string w2, t2;
            save(out + ".orig", seq);
            std::ofstream info(out + ".hist");
            info << worker << " " << from << " " << i << "\n" << printable(w, 4000) << "\n";
            info.close();
            // reproducible from the choices alone, within this process?
            if (fails(*prop, seq, sh, rec, w2, t2, limit)) {
                why = w2;
                text = t2;
                seq = shrink(*prop, seq, sh, why, text, 25.0, limit);
                save(out + ".fail", seq);
            } else {
                why = w;
            }
            break;
        }
        if (c.nontrivial) {
            ++nontrivial;
            distinct.insert(c.key ? c.key : hash_bytes(std::string_view(reinterpret_cast<const char*>(src.recorded().data()), src.recorded().size() * 8)));
            if (c.want_text && samples.size() < 6 && !c.text.empty()) {
                samples.push_back(c.text.substr(0, 800));
            }
        }
        for (auto& l : c.labels) {
            labels[l] += 1;
        }
    }
    sh->phase = 2;
    std::ofstream f(out);
    f << "{\"evaluations\":" << evaluations << ",\"nontrivial\":" << nontrivial << ",\"distinct_nontrivial\":" << distinct.size();
    f << ",\"rule\":" << json_string(prop->rule);
    f << ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : labels) {
        f << (first ? "" : ",") << json_string(k) << ":" << v;
        first = false;
    }
    f << "},\"samples\":[";
    first = true;
    for (auto& s : samples) {
        f << (first ? "" : ",") << json_string(s);
        first = false;
    }
    f << "],\"extra\":" << (prop->summary ? prop->summary() : std::string("{}"));
    f << ",\"failed\":" << (failed ? "true" : "false");
    f << ",\"why\":" << json_string(printable(why, 4000)) << ",\"text\":" << json_string(text.substr(0, 4000)) << "}\n";
    f.close();
    return failed ? 1 : 0;
}
