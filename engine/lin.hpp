// Linearizability of a history of operations against a sequential model (Wing & Gong, with memo).
#pragma once
#include <cstdint>
#include <string>
#include <unordered_set>
#include <vector>

namespace vp {
/** OP needs uint64_t start, end; apply(state, op) changes the state and tells whether op's result is right;
 * key(state) is a string that identifies it */
template<class STATE, class OP, class APPLY, class KEY>
class Linearizer {
    const std::vector<OP>& ops;
    APPLY apply;
    KEY key;
    std::unordered_set<std::string> seen;

    bool search(uint64_t done, const STATE& s)
    {
        const uint64_t all = (ops.size() == 64) ? ~uint64_t{0} : ((uint64_t{1} << ops.size()) - 1);
        if (done == all) {
            return true;
        }
        std::string k(reinterpret_cast<const char*>(&done), sizeof(done));
        k += key(s);
        if (!seen.insert(std::move(k)).second) {
            return false;
        }
        uint64_t first = ~uint64_t{0};  // the earliest end among the operations left
        for (size_t i = 0; i < ops.size(); ++i) {
            if (((done >> i) & 1U) == 0 && ops[i].end < first) {
                first = ops[i].end;
            }
        }
        for (size_t i = 0; i < ops.size(); ++i) {
            if (((done >> i) & 1U) == 0 && ops[i].start < first) {
                STATE next = s;
                if (apply(next, ops[i]) && search(done | (uint64_t{1} << i), next)) {
                    return true;
                }
            }
        }
        return false;
    }

  public:
    Linearizer(const std::vector<OP>& o, APPLY a, KEY k): ops(o), apply(a), key(k) {}
    bool check(const STATE& init) { return search(0, init); }
};
template<class STATE, class OP, class APPLY, class KEY>
bool linearizable(const std::vector<OP>& ops, const STATE& init, APPLY a, KEY k)
{
    return Linearizer<STATE, OP, APPLY, KEY>(ops, a, k).check(init);
}
}  // namespace vp
