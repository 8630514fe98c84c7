// L04: two streams with different keys never share a file, and each gives back its own records.
#include "vh.h"
#include <fstream>
#include <unordered_map>
#include "common/logging/log_reader.h"
#include "common/logging/log_writer.h"
using namespace mc;
using namespace mc::logging;
using namespace vh;
namespace fs = std::experimental::filesystem;
int main()
{
    init();
    std::string DIR = getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp/l04";
    if (first())
    {
        // names are pairwise different: exhaustive over a range of keys, plus the ends of the type
        std::unordered_map<std::string, long> seen;
        long hi = thorough() ? 3000000 : 400000;
        std::vector<long> ks;
        for (long k = -20000; k <= hi; ++k) ks.push_back(k);
        for (int s = 20; s < 31; ++s) { ks.push_back((1l << s) + 500000); ks.push_back(-(1l << s)); }
        ks.push_back(2147483647l); ks.push_back(-2147483648l);
        for (long k : ks)
        {
            if (seen.empty() || k % 1000 == 0) ctx("key %ld", k);
            std::string n = logKeyName((int)k);
            auto it = seen.find(n);
            if (it != seen.end()) violation("two keys have the same stream file", str("keys %ld and %ld: %s", it->second, k, n.c_str()));
            seen[n] = k;
            VH_EXPECT(!n.empty() && n.find('/') == std::string::npos && n != "manifest" && n.find('.') == std::string::npos, "a stream name is usable as a file name", "key %ld: %s", k, n.c_str());
            eval(); nontrivial(hstr(n));
        }
    }
    // every pair of keys from a set with similar digits, written in one log
    std::vector<int> K{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 20, 21, 100, 101, 110, 120, 121, 130, 200, 210, 1000, 1001, 1010, 1012, 1100, 1200, 1201, 2000, 2001, 2100, 10000, 12000, 20000, 120000};
    uint64_t c = 0;
    for (size_t i = 0; i < K.size(); ++i)
        for (size_t j = 0; j < K.size(); ++j)
        {
            if (i == j || !mine(c++)) continue;
            ctx("keys %d and %d", K[i], K[j]);
            std::string p;
            {
                Logger lg(UTCTime(1000, 0), DIR + "/w");
                lg.initStream<int>(K[i], {"v"});
                lg.initStream<int>(K[j], {"v"});
                for (int r = 0; r < 3; ++r) { lg.log(K[i], UTCTime(2 * r, 0), 100 + r); if (r < 2) lg.log(K[j], UTCTime(2 * r + 1, 0), 200 + r); }
                p = DIR + "/w/" + lg.logId();
                lg.close(UTCTime(2000, 0));
            }
            std::vector<std::pair<int, int>> got;
            {
                LogReader lr(p);
                for (int k : {K[i], K[j]})
                    lr.setCallback(k, [&](const UTCTime&, int key, StreamReader& r) {
                        int v = 0; r.get(v); got.push_back({key, v});
                        if (got.size() > 20) { violation("reader does not stop", vh::g().sh->ctx); finish(); }
                    });
                lr.read();
            }
            std::vector<std::pair<int, int>> want{{K[i], 100}, {K[j], 200}, {K[i], 101}, {K[j], 201}, {K[i], 102}};
            VH_EXPECT(got == want, "each of two streams gives back its own records", "%zu records", got.size());
            eval(); trace(); nontrivial(mix(K[i], K[j]));
            std::error_code ec;
            fs::remove_all(DIR + "/w", ec);
        }
    sample("keys 12, 120, 1200: names LOG_KEY_0012, LOG_KEY_0120, LOG_KEY_1200");
    finish();
}
