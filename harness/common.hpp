// Helpers to write scenarios.
#pragma once
#include "pre.hpp"
namespace mc
{
inline std::string num(uint64_t x)
{
    if (x == ABSENT) return "absent";
    return std::to_string(x);
}
inline std::vector<Op> cat(std::vector<Op> a, const std::vector<Op> &b)
{
    a.insert(a.end(), b.begin(), b.end());
    return a;
}
// Names a scenario after its operations and appends it.
struct Out
{
    std::vector<Scenario> *out;
    std::function<std::string(const Op &)> show;
    std::map<std::string, long> p;
    Scenario &add(const std::string &name, std::vector<Op> setup, std::vector<std::vector<Op>> th, std::vector<Op> fin, int bound)
    {
        Scenario s;
        s.name = name;
        for (size_t i = 0; i < th.size(); ++i)
        {
            s.name += i ? "|" : ":";
            for (size_t j = 0; j < th[i].size(); ++j) s.name += (j ? ";" : "") + show(th[i][j]);
        }
        for (auto &x : *out)
            if (x.name == s.name) { s.name += "~"; break; }
        s.setup = setup;
        s.threads = th;
        s.fin = fin;
        s.bound = bound;
        s.p = p;
        out->push_back(s);
        return out->back();
    }
    Scenario &crash(const std::string &name, std::vector<Op> setup, std::vector<std::vector<Op>> th, std::vector<Op> fin, std::vector<Op> post, int bound)
    {
        auto &s = add(name, setup, th, fin, bound);
        s.crash = true;
        s.post = post;
        return s;
    }
    Scenario &seq(const std::string &n, std::vector<Op> setup, std::vector<Op> al, int depth, std::vector<Op> fin)
    {
        Scenario s;
        s.name = n;
        s.setup = setup;
        s.alphabet = al;
        s.seq_depth = depth;
        s.spin = 20000;
        s.fin = fin;
        s.p = p;
        out->push_back(s);
        return out->back();
    }
};
} // namespace mc
