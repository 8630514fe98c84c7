// T03: quantized comparison, every nanosecond offset across the resolution boundary, from boundary instants.
#include "vh.h"
#include "common/quantized_time.h"
using namespace mc;
using namespace vh;
int main()
{
    init();
    const int64_t H = llround(TIME_QUANTIZATION * 0.5e9);
    std::vector<UTCTime> bases;
    for (int64_t s : {0LL, 1LL, 315964818LL, 1564005746LL, 4102444800LL})
        for (int64_t n : {0LL, 1LL, 49999LL, 50000LL, 50001LL, 500000000LL, 999950000LL, 999999999LL}) bases.push_back(UTCTime((int64_t)s, (int64_t)n));
    std::vector<int64_t> offs;
    for (int64_t d = -3 * H; d <= 3 * H; ++d) if (thorough() || llabs(d) <= 20 || llabs(llabs(d) - H) <= 2000 || d % 37 == 0) offs.push_back(d);
    for (int64_t d : {1000000000LL, 999999999LL, 1000000001LL, 86400000000000LL}) { offs.push_back(d); offs.push_back(-d); }
    for (size_t i = 0; i < offs.size(); ++i)
    {
        if (!mine(i)) continue;
        int64_t d = offs[i];
        for (auto& b : bases)
        {
            UTCTime o(b.sec, b.nsec + d);
            QuantizedTime q = b.quantized(), r;
            r = b;
            const UTCTime& bt = q;
            ctx("q=(%lld,%lld) other=+%lld ns", (long long)b.sec, (long long)b.nsec, (long long)d);
            bool lt = q < o, gt = q > o, eq = q == o, le = q <= o, ge = q >= o, ne = q != o;
            if (llabs(d) != H)  // exactly at the boundary either verdict is within rounding of the resolution
            {
                expect(eq == (llabs(d) <= H), "quantized equality");
                expect(lt == (d > H), "quantized less");
                expect(gt == (d < -H), "quantized greater");
                expect(le == (d >= -H), "quantized less-or-equal");
                expect(ge == (d <= H), "quantized greater-or-equal");
                expect(ne == (llabs(d) > H), "quantized inequality");
            }
            expect(lt + gt + eq == 1, "exactly one of <, ==, > holds", str("%d%d%d", lt, eq, gt));
            expect(le == !gt && ge == !lt && ne == !eq, "complementary comparisons agree");
            expect((o > q) == lt && (o < q) == gt && (o == q) == eq && (o >= q) == le && (o <= q) == ge && (o != q) == ne, "both argument orders agree");
            expect((r < o) == lt && (r > o) == gt && (r == o) == eq, "assignment gives the same quantized time");
            expect(bt == b, "quantizing keeps the instant");
            eval();
            nontrivial(mix(mix(b.sec, b.nsec), d));
            outcome(lt * 4 + eq * 2 + gt);
        }
    }
    sample("q=(1,999950000) other=+50001 ns: q < other");
    return finish();
}
