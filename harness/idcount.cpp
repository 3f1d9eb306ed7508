// C04 over long histories: more than 2^32 constructions in a row. Every id is positive and new, and
// variables created around powers of two, so that their ids agree in the low bits, stay distinct.
#include "vh.hpp"
#include <uncertainties/ureal.hpp>
#include <uncertainties/ureal2.hpp>
#include <uncertainties/impl.hpp>
#include <map>
namespace unc = uncertainties;
typedef unc::UReal<double> U; typedef unc::UReal2<double, unc::Prop::est> V;
typedef long long I;
// the set of ids given so far, as disjoint intervals [first, second]
struct Intervals {
    std::map<I, I> m; std::map<I, I>::iterator cur = m.end(); bool full = false;
    bool insert(I x) {                   // false if already there
        if (cur != m.end() && x == cur->second + 1) { auto n = std::next(cur); if (n == m.end() || x < n->first) { cur->second = x; return true; } }
        auto it = m.upper_bound(x);
        if (it != m.begin()) { auto p = std::prev(it); if (x <= p->second) return false; if (x == p->second + 1) { p->second = x; cur = p; return true; } }
        if (m.size() > 1000000) { full = true; return true; }
        cur = m.insert(it, {x, x}); return true;
    }
};
static const I BLOCK = I(1) << 24, BLOCKS = 257;
static I count = 0;                      // constructions so far in this process
static Intervals given;
struct Saved { U x; V v; I at; };
static std::vector<Saved> saved;
static void one(vh::Ctx &c, I id) {
    ++count;
    if (!(id > 0)) c.check(false, "positive", [&] { return "after " + std::to_string(count - 1) + " independent variables the id of the next one is " + std::to_string(id); });
    if (!given.insert(id)) c.check(false, "unique", [&] { return "after " + std::to_string(count - 1) + " independent variables the next one has the id " + std::to_string(id) + ", which was already given"; });
}
static void save(vh::Ctx &c) {
    const std::array<double, 6> m{{0, 3, 0, 15, 0, 105}};
    const I at = count + 1;
    saved.push_back(Saved{U(1.5, 0.5), V(), at}); one(c, saved.back().x.indepid());
    saved.back().v = V(2.5, 0.25, m); one(c, saved.back().v.indepid());
    c.check(saved.back().x.isindep() && saved.back().v.isindep(), "indep", [&] { return "variable number " + std::to_string(at) + " is not independent"; });
}
static bool near_power(I n) { for (I b : {I(1) << 7, I(1) << 8, I(1) << 15, I(1) << 16, I(1) << 23, I(1) << 24, I(1) << 25, I(1) << 31, I(1) << 32}) if (n >= b - 4 && n < b + 5) return true; return n < 5; }
static void advance(vh::Ctx &c, I upto) {
    while (count < upto) {
        if (near_power(count)) { save(c); continue; }
        const I stop = std::min(upto, (count | 0xfff) - 4 > count ? (count | 0xfff) - 4 : count + 1);
        ++vh::G().progress;
        while (count < stop) one(c, unc::UReal<float>(1.f, 1.f).indepid());
    }
}
static bool eq(double a, double b) { return std::fabs(a - b) <= 1e-12 * (std::fabs(a) + std::fabs(b)); }
static void pairs(vh::Ctx &c) {
    for (const Saved &p : saved) for (const Saved &q : saved) {
        auto who = [&] { return " of the variables created after " + std::to_string(p.at - 1) + " and " + std::to_string(q.at - 1) + " others"; };
        const bool same = &p == &q;
        const U s = p.x + q.x, d = p.x - 2. * q.x;
        c.check(cov(p.x, q.x) == (same ? 0.25 : 0), "cov", [&] { return "the covariance" + who() + " is " + vh::num(cov(p.x, q.x)); });
        c.check(eq(var(s), same ? 1 : 0.5) && eq(cov(s, d), -0.25 * (same ? 2 : 1)), "sum", [&] { return "the variance of the sum" + who() + " is " + vh::num(var(s)); });
        c.check(s.isindep() == same && s.indepid() == (same ? p.x.indepid() : unc::invalid_id), "status", [&] { return "the independence status of the sum" + who() + " is wrong"; });
        const V t = p.v * q.v;
        c.check(eq(t.first_order_n(), 6.25) && t.isindep() == same, "status", [&] { return "the independence status of the product" + who() + " is wrong"; });
        c.check(cov(p.v, q.v) == (same ? 0.0625 : 0), "cov", [&] { return "the second order covariance" + who() + " is " + vh::num(cov(p.v, q.v)); });
        c.check(eq(t.grad(p.v), same ? 5 : 2.5) && eq(t.grad(q.v), same ? 5 : 2.5) && eq(t.hess(p.v, q.v), same ? 2 : 1) && (same || (t.hess(p.v, p.v) == 0 && t.hess(q.v, q.v) == 0)), "derivatives", [&] { return "the derivatives of the product" + who() + " are wrong"; });
        c.step();
    }
}
static void run(vh::Ctx &c) {
    c.shard();                           // all of it in the same process: the history is one
    const int b = c.choose(int(BLOCKS) + 1);
    c.note([&] { return std::to_string(b) + " blocks of 2^24 constructions"; });
    advance(c, b < BLOCKS ? (b + 1) * BLOCK : BLOCKS * BLOCK + 16);
    c.step(); c.state(uint64_t(b) * 77 + 1);
    c.check(given.full || !given.m.empty(), "given", [] { return std::string("no ids"); });
    if (b == BLOCKS || b == 1 || b == 129) pairs(c);
}
int main(int argc, char **argv) { vh::Harness h; h.add("count", run); return h.main(argc, argv); }
