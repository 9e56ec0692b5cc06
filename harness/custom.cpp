// C29: types that a user adds.
#include "zoo_util.hpp"

void io_checks(Src& s, Case& c);
void read_checks(Src& s, Case& c);
void ref_checks(Src& s, Case& c);

namespace {

int r = [] {
    register_property({"C29", "by the rule of the check that the case is one of", [](Src& s, Case& c) {
        std::size_t k = s.below(8);
        if (k < 4) read_checks(s, c);
        else if (k < 7) io_checks(s, c);
        else ref_checks(s, c);
    }, {}});
    return 0;
}();

}
