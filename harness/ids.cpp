// C04 across numeric types and translation units: every short sequence of constructions.
#include "vh.hpp"
#include "ids_make.hpp"
#include <uncertainties/impl.hpp>
Made make_a(int k) { return make_here(k); }
static void run(vh::Ctx &c) {
    static std::set<uncertainties::Id> all;
    const int len = c.thorough() ? 4 : 3;
    std::vector<int> k; std::set<uncertainties::Id> seen;
    for (int i = 0; i < len; ++i) {
        k.push_back(c.choose(2 * NKINDS));
        if (i == 1) c.shard();
    }
    c.note([&] { std::string s = "constructions (kind, translation unit):"; for (int x : k) s += " " + std::to_string(x / 2) + (x & 1 ? "b" : "a"); return s; });
    uint64_t h = 3; for (int x : k) h = vh::mix(h, x + 1); c.state(h);
    uncertainties::Id last = 0;
    for (int x : k) {
        c.step();
        const Made m = x & 1 ? make_b(x / 2) : make_a(x / 2);
        for (auto id : m.ids) {
            c.check(id > 0, "positive", [&] { return "kind " + std::to_string(x / 2) + ": the id of an independent variable is " + std::to_string(id); });
            c.check(seen.insert(id).second && (c.replay_mode || all.insert(id).second), "unique", [&] { return "kind " + std::to_string(x / 2) + ": id " + std::to_string(id) + " was given twice"; });
        }
        for (auto z : m.zeros) c.check(z == 0, "kept", [&] { return "kind " + std::to_string(x / 2) + ": an id changed or was created (" + std::to_string(z) + ")"; });
    }
    if (all.size() > 100000) all.clear();
}
int main(int argc, char **argv) { vh::Harness h; h.add("ids", run); return h.main(argc, argv); }
