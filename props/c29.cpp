// C29: mapFind over std::map / std::unordered_map against a hand-written lookup.
#include "vp.hpp"
#include <gmlc/containers/mapOps.hpp>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <unordered_map>
#include <vector>

using vp::ctx;
namespace {
std::string makeString(int k)
{
    // short and heap-allocated strings, empty included
    if (k == 0) {
        return {};
    }
    std::string s = "k" + std::to_string(k);
    return (k % 3 == 0) ? s + std::string(40, static_cast<char>('a' + k % 26)) : s;
}
template<class T>
T makeValue(int k);
template<>
int makeValue<int>(int k)
{
    // extremes and zero included
    switch (k % 7) {
        case 0:
            return 0;
        case 1:
            return -k;
        case 2:
            return 2147483647 - k;
        default:
            return k;
    }
}
template<>
std::string makeValue<std::string>(int k)
{
    return makeString(k);
}
template<>
double makeValue<double>(int k)
{
    return 0.5 * k - 3.0;
}
template<>
std::vector<int> makeValue<std::vector<int>>(int k)
{
    return std::vector<int>(static_cast<size_t>(k % 5), k);
}
std::string show(const std::vector<int>& v) { return std::to_string(v.size()) + " x " + (v.empty() ? "-" : std::to_string(v[0])); }
std::string show(double k) { return std::to_string(k); }
std::string show(int k) { return std::to_string(k); }
std::string show(const std::string& s) { return "\"" + s + "\""; }

template<>
bool makeValue<bool>(int k)
{
    return k % 2 == 0;
}
template<>
std::optional<int> makeValue<std::optional<int>>(int k)
{
    return k % 3 == 0 ? std::optional<int>() : std::optional<int>(k % 4);
}
std::string show(bool k) { return k ? "true" : "false"; }
std::string show(const std::optional<int>& k) { return k ? std::to_string(*k) : "empty"; }

template<class Map>
void scenario(const char* name)
{
    using K = typename Map::key_type;
    using V = typename Map::mapped_type;
    Map m;
    std::vector<std::pair<K, V>> model;
    const bool many = ctx.below(200) == 199;
    const int space = many ? ctx.range(100, 1500) : ctx.range(1, 24);
    ctx.log("%s over %d keys", name, space);
    bool hit = false;
    bool miss = false;
    bool hitAgain = false;
    if (many) {
        ctx.label("hundreds of keys");
        for (int n = ctx.range(60, 400); n > 0; --n) {
            const int k = static_cast<int>(ctx.below(static_cast<uint32_t>(space)));
            const K key = makeValue<K>(k);
            if (m.emplace(key, makeValue<V>(k % 40)).second) {
                model.emplace_back(key, makeValue<V>(k % 40));
            }
        }
        ctx.log("%zu keys added", m.size());
    }
    while (ctx.more(14)) {
        const int op = static_cast<int>(ctx.weighted({4, 1, 4, 4, 2}));
        const K key = makeValue<K>(static_cast<int>(ctx.below(static_cast<uint32_t>(space))));
        auto it = model.begin();
        while (it != model.end() && !(it->first == key)) {
            ++it;
        }
        const bool present = it != model.end();
        if (op == 0) {
            const V v = makeValue<V>(static_cast<int>(ctx.below(40)));
            ctx.log("m[%s] = %s", show(key).c_str(), show(v).c_str());
            m[key] = v;
            if (present) {
                it->second = v;
            } else {
                model.emplace_back(key, v);
            }
        } else if (op == 1) {
            ctx.log("erase %s", show(key).c_str());
            m.erase(key);
            if (present) {
                model.erase(it);
            }
        } else if (op == 2) {
            V def = makeValue<V>(static_cast<int>(ctx.below(40)));
            const V expect = present ? it->second : def;
            const V defCopy = def;
            const Map& cm = m;
            V got = mapFind(cm, key, def);
            ctx.log("mapFind(%s, default %s) -> %s", show(key).c_str(), show(def).c_str(), show(got).c_str());
            VP_CHECK(got == expect, "mapFind(%s, %s) with %s key gives %s, expected %s", show(key).c_str(), show(def).c_str(), present ? "present" : "absent", show(got).c_str(), show(expect).c_str());
            VP_CHECK(def == defCopy, "mapFind changed its default argument");
            (present ? (hit ? hitAgain : hit) : miss) = true;
        } else if (op == 4) {
            // the result is a value of its own, whatever becomes of the map and the default
            const V def = makeValue<V>(static_cast<int>(ctx.below(40)));
            const V other = makeValue<V>(static_cast<int>(ctx.below(40)));
            const V expect = present ? it->second : def;
            auto&& got = mapFind(m, K(key), V(def));
            auto&& gotOptional = mapFind(m, K(key));
            ctx.log("mapFind(%s, default %s) -> %s, then overwritten with %s", show(key).c_str(), show(def).c_str(), show(got).c_str(), show(other).c_str());
            if (present) {
                it->second = other;
                m[key] = other;
            }
            VP_CHECK(got == expect, "mapFind(%s, %s) with %s key gives %s after a later change, expected %s", show(key).c_str(), show(def).c_str(), present ? "present" : "absent", show(got).c_str(), show(expect).c_str());
            VP_CHECK(static_cast<bool>(gotOptional) == present, "mapFind(%s) finds %s, but the key is %s", show(key).c_str(), gotOptional ? "something" : "nothing", present ? "present" : "absent");
            VP_CHECK(!present || *gotOptional == expect, "mapFind(%s) gives another value after a later change", show(key).c_str());
        } else {
            const Map& cm = m;
            auto got = mapFind(cm, key);
            ctx.log("mapFind(%s) -> %s", show(key).c_str(), got ? show(*got).c_str() : "nothing");
            VP_CHECK(static_cast<bool>(got) == present, "mapFind(%s) finds %s, but the key is %s", show(key).c_str(), got ? "something" : "nothing", present ? "present" : "absent");
            if (present) {
                VP_CHECK(*got == it->second, "mapFind(%s) gives %s, expected %s", show(key).c_str(), show(*got).c_str(), show(it->second).c_str());
            }
            (present ? (hit ? hitAgain : hit) : miss) = true;
        }
        VP_CHECK(m.size() == model.size(), "the map was modified: %zu entries, expected %zu", m.size(), model.size());
    }
    for (auto& kv : model) {
        auto it = m.find(kv.first);
        VP_CHECK(it != m.end() && it->second == kv.second, "the map was modified at %s", show(kv.first).c_str());
    }
    if (hit && miss) {
        ctx.label("hit and miss");
        ctx.nontrivial();
    }
}
void run()
{
    switch (ctx.below(11)) {
        case 0:
            return scenario<std::map<int, int>>("map<int,int>");
        case 1:
            return scenario<std::unordered_map<int, int>>("unordered_map<int,int>");
        case 2:
            return scenario<std::map<std::string, std::string>>("map<string,string>");
        case 3:
            return scenario<std::unordered_map<std::string, std::string>>("unordered_map<string,string>");
        case 4:
            return scenario<std::map<std::string, std::vector<int>>>("map<string,vector>");
        case 5:
            return scenario<std::unordered_map<int, std::string>>("unordered_map<int,string>");
        case 6:
            return scenario<std::map<int, double>>("map<int,double>");
        case 7:
            return scenario<std::map<double, bool>>("map<double,bool>");
        case 8:
            return scenario<std::unordered_map<std::string, std::optional<int>>>("unordered_map<string,optional>");
        case 9:
            return scenario<std::map<int, std::optional<int>>>("map<int,optional>");
        default:
            return scenario<std::unordered_map<std::string, double>>("unordered_map<string,double>");
    }
}
}  // namespace
const vp::Property vp::property{
    "C29",
    "A case builds a map of one of eleven map/unordered_map types by random writes and erases over a small key space and looks keys up with both forms of mapFind, "
    "comparing with an association list; non-trivial: at least one lookup hit and one miss.",
    4000000,
    40000000,
    run,
    true};
