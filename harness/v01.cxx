// V01: failures and diagnostics are reported once, whole, at their place and level; results carry the value or the error.
#include "vh.h"
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <Eigen/Core>
#include "common/check.h"
#include "common/error.h"
#include "common/error_result.h"
#include "common/hetero_collection.h"
#include "common/matrix_defs.h"
#include "common/out.h"
#include "common/print.h"
using namespace mc;
using namespace vh;
static std::string DIR;

// ---- what a piece of code writes to the two streams, without colours
static std::string strip(const std::string& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        if (s[i] == '\x1b' && i + 1 < s.size() && s[i + 1] == '[') { i += 2; while (i < s.size() && !isalpha((unsigned char)s[i])) ++i; continue; }
        o += s[i];
    }
    return o;
}
static std::string slurp(int fd)
{
    std::string s; char b[65536]; ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    return s;
}
static int fo, fe, so, se;
static void cap_begin()
{
    fflush(stdout); fflush(stderr);
    if (ftruncate(fo, 0) || ftruncate(fe, 0)) _exit(4);
    lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
    dup2(fo, 1); dup2(fe, 2);
}
static void cap_end(std::string& o, std::string& e)
{
    fflush(stdout); fflush(stderr);
    dup2(so, 1); dup2(se, 2);
    o = strip(slurp(fo)); e = strip(slurp(fe));
}

static const char* FN[] = {"dbg", "info", "warn", "error", "fatal"};
static const int LV = (int)LoggingLevel::VH_LEVEL;

struct Text { std::string f, out; int args; };
static std::vector<Text> texts()
{
    std::vector<Text> t = {{"plain", "plain", 0}, {"", "", 0}, {"{{}} braces", "{} braces", 0}, {"two\nlines", "two\nlines", 0}, {"100% of %s", "100% of %s", 0}, {"\xce\xb1\xce\xb2", "\xce\xb1\xce\xb2", 0},
                           {"a {} b", "a 7 b", 1}, {"{}", "7", 1}, {"{} {} {}", "7 x{y} 2.5", 3}, {"{2}-{0}", "2.5-7", 3}, {"{:>4}|", "   7|", 1}};
    t.push_back({std::string(5000, 'z') + "{}", std::string(5000, 'z') + "7", 1});
    return t;
}

#define CALL(LVL, form, line)                                                                                       \
    {                                                                                                               \
        line = __LINE__; if (form == 0) { if (t.args == 0) LVL(t.f); else if (t.args == 1) LVL(t.f, mc::fmt(7)); else LVL(t.f, mc::fmt(7, std::string("x{y}"), 2.5)); } \
        else { bool c = form == 1; if (t.args == 0) LVL(c, t.f); else if (t.args == 1) LVL(c, t.f, mc::fmt(7)); else LVL(c, t.f, mc::fmt(7, std::string("x{y}"), 2.5)); } \
    }
static int emit(int lvl, int form, const Text& t)
{
    int line = 0;
    switch (lvl)
    {
    case 0: CALL(dbg, form, line) break;
    case 1: CALL(info, form, line) break;
    case 2: CALL(warn, form, line) break;
    case 3: CALL(mc::error, form, line) break;
    default: CALL(fatal, form, line) break;
    }
    return line;
}
static void expected(int lvl, int form, const Text& t, int line, std::string& o, std::string& e)
{
    if (form == 2 || lvl < LV) return;
    std::string m = str("%s:%d ", __FILE__, line) + t.out + "\n";
    (lvl >= 3 ? e : o) += m;
}

// ---- results
struct Big { std::string s; std::vector<int> v; bool operator==(const Big& b) const { return s == b.s && v == b.v; } };
static Big mk(Big*, int k) { return {std::string(20 * k, 'a' + k), std::vector<int>(k, k)}; }
static double mk(double*, int k) { return k + 0.5; }
static std::string mk(std::string*, int k) { return std::string(3 * k, 'q'); }
static bool mk(bool*, int k) { return k == 1; }
static const char* mk(const char**, int k) { return k == 1 ? "one" : "two"; }
static constexpr char E1[] = "first error", E2[] = "second error";
static Error err(int k) { return k == 1 ? Error::create(E1) : Error::create(E2); }

template <typename T>
static void results(const char* type)
{
    // two variables, words of operations, against a model: the kind (0 value, 1 error) and which
    struct M { bool e; int k; };
    const int NOPS = 12;
    int depth = thorough() ? 5 : 4;
    words(NOPS, depth, [&](const std::vector<int>& w) {
        ErrorResult<T> a = mk((T*)nullptr, 1), b = err(1);
        M ma{false, 1}, mb{true, 1};
        auto same = [&](const ErrorResult<T>& r, const M& m) {
            if (r.ok() == m.e) return false;
            bool thrown = false;
            if (m.e)
            {
                try { (void)r.res(); } catch (const std::exception&) { thrown = true; }
                return thrown && r.err() == err(m.k) && !r.err().ok() && r.err().what() == err(m.k).what();
            }
            try { (void)r.err(); } catch (const std::exception&) { thrown = true; }
            return thrown && r.res() == mk((T*)nullptr, m.k);
        };
        for (int op : w)
        {
            switch (op)
            {
            case 0: a = ErrorResult<T>(mk((T*)nullptr, 1)); ma = {false, 1}; break;
            case 1: a = ErrorResult<T>(mk((T*)nullptr, 2)); ma = {false, 2}; break;
            case 2: a = err(1); ma = {true, 1}; break;
            case 3: b = err(2); mb = {true, 2}; break;
            case 4: b = mk((T*)nullptr, 2); mb = {false, 2}; break;
            case 5: a = b; ma = mb; break;
            case 6: b = a; mb = ma; break;
            case 7: { ErrorResult<T> c(a); a = b; b = c; std::swap(ma, mb); break; }
            case 8: { ErrorResult<T> c = std::move(b); b = err(1); a = std::move(c); ma = mb; mb = {true, 1}; break; }
            case 9: { auto p = std::make_unique<ErrorResult<T>>(b); b = mk((T*)nullptr, 1); a = *p; p.reset(); ma = mb; mb = {false, 1}; break; }
            case 10: { std::vector<ErrorResult<T>> v; for (int i = 0; i < 9; ++i) v.push_back(i % 2 ? a : b); a = v[8]; ma = mb; break; }
            default: { auto& r = a; a = r; break; }
            }
            transition();
            if (!same(a, ma) || !same(b, mb)) { std::string s; for (int o : w) s += str("%d ", o); violation(str("results of type %s", type), "operations " + s); return; }
        }
        trace();
        state(mix(mix(mix(hstr(type), ma.e * 2 + ma.k), mb.e * 2 + mb.k), w.back()));
    });
}

// ---- chains of fallible calls
static int calls[3], outcome_of[3];
static Error step(int i) { ++calls[i]; return outcome_of[i] == 0 ? Error::none() : err(outcome_of[i]); }
static ErrorResult<std::string> value(int i) { ++calls[i]; if (outcome_of[i] == 0) return std::string(1, 'A' + i); return err(outcome_of[i]); }
static Error chain_if(std::string& got)
{
    RETURN_IF_NOT_OK(step(0));
    got += "0";
    if (got.size() == 1) RETURN_IF_NOT_OK(step(1));
    got += "1";
    RETURN_IF_NOT_OK(step(2));
    got += "2";
    return Error::none();
}
static ErrorResult<std::string> chain_assign(std::string& got)
{
    const std::string a = RETURN_OR_ASSIGN(value(0));
    got += a;
    std::string b;
    b = RETURN_OR_ASSIGN(value(1));
    got += b;
    got += RETURN_OR_ASSIGN(value(2));
    return got + "!";
}

// ---- collections
struct Base0 { virtual ~Base0() = default; int id0 = 0; };
struct Item { virtual ~Item() = default; int id = 0; };
struct ItA : Item { double x = 1; };
struct ItB : Base0, Item { double y = 2; };   // the item is not at the start of the object
struct Parent { virtual const std::vector<std::reference_wrapper<const Item>> base_items() const = 0; virtual ~Parent() = default; };
template <typename... T>
struct Coll : HeteroCollection<Parent, Item, T...>
{
    Coll(const T&... t) : HeteroCollection<Parent, Item, T...>(t...) {}
};
template <typename C>
static bool coll_is(const C& c, std::vector<const Item*> want)
{
    auto v = static_cast<const Parent&>(c).base_items();
    if (v.size() != want.size()) return false;
    for (size_t i = 0; i < v.size(); ++i) if (&v[i].get() != want[i]) return false;
    return true;
}

int main()
{
    init();
    DIR = getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp/v01";
    so = dup(1); se = dup(2);
    fo = open((DIR + "/o").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600); fe = open((DIR + "/e").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    auto T = texts();
    uint64_t cn = 0;
    // every pair of messages: each appears, once, whole, where and only where it should
    for (int l1 = 0; l1 < 5; ++l1) for (int f1 = 0; f1 < 3; ++f1) for (size_t t1 = 0; t1 < T.size(); ++t1)
    {
        if (!mine(cn++)) continue;
        for (int l2 = 0; l2 < 5; ++l2) for (int f2 = 0; f2 < 3; ++f2) for (size_t t2 = 0; t2 < (thorough() ? T.size() : 1); ++t2)
        {
            size_t u = thorough() ? t2 : (t1 + l2 + f2) % T.size();
            ctx("level %d: %s form %d text %zu, then %s form %d text %zu", LV, FN[l1], f1, t1, FN[l2], f2, u);
            std::string o, e, wo, we;
            cap_begin();
            int a = emit(l1, f1, T[t1]), b = emit(l2, f2, T[u]);
            cap_end(o, e);
            expected(l1, f1, T[t1], a, wo, we);
            expected(l2, f2, T[u], b, wo, we);
            bool lost = (o + e).size() < (wo + we).size();
            if (o != wo || e != we)
                violation(str("%s %s at level %s", FN[l1 == l2 || l1 > l2 ? l1 : l2], lost ? "message lost" : "message altered or made up", FN[LV]), str("stdout '%s' for '%s'; stderr '%s' for '%s' @ %s", o.substr(0, 120).c_str(), wo.substr(0, 120).c_str(), e.substr(0, 120).c_str(), we.substr(0, 120).c_str(), vh::g().sh->ctx));
            transition(2); trace(); eval();
            state(mix(mix(mix(LV, l1 * 3 + f1), t1), mix(l2 * 3 + f2, u)));
            outcome(mix(!wo.empty(), !we.empty()));
        }
    }
    // checks: one that holds does nothing, one that fails says so and ends the process, at every level
    for (int cond = 0; cond < 2; ++cond) for (int weak = 0; weak < 2; ++weak) for (size_t k = 0; k < T.size(); ++k)
    {
        if (!mine(cn++)) continue;
        const Text& t = T[k];
        ctx("level %d: %scheck(%d) text %zu", LV, weak ? "weak_" : "", cond, k);
        int line = 0;
        fflush(stdout); fflush(stderr);
        if (ftruncate(fo, 0) || ftruncate(fe, 0)) _exit(4);
        lseek(fo, 0, SEEK_SET); lseek(fe, 0, SEEK_SET);
        line = __LINE__ + 6;
        pid_t p = fork();
        if (!p)
        {
            dup2(fo, 1); dup2(fe, 2);
            if (t.args == 0)
                { if (weak) weak_check(cond, t.f); else check(cond, t.f); }
            else if (t.args == 1)
                { if (weak) weak_check(cond, t.f, mc::fmt(7)); else check(cond, t.f, mc::fmt(7)); }
            else
                { if (weak) weak_check(cond, t.f, mc::fmt(7, std::string("x{y}"), 2.5)); else check(cond, t.f, mc::fmt(7, std::string("x{y}"), 2.5)); }
            fflush(stdout); fflush(stderr);
            _exit(42);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (t.args == 1) line += 2;
        if (t.args == 3) line += 4;
        std::string o = strip(slurp(fo)), e = strip(slurp(fe));
        bool went_on = WIFEXITED(st) && WEXITSTATUS(st) == 42;
        const char* nm = weak ? "weak_check" : "check";
        if (cond) VH_EXPECT(went_on && o.empty() && e.empty(), str("a %s that holds does nothing", nm), "ended %d, said '%s'", st, (o + e).substr(0, 100).c_str());
        else
        {
            if (weak) VH_EXPECT(went_on, "a weak_check that fails goes on", "ended %d", st);
            else VH_EXPECT(!went_on && WIFEXITED(st) && WEXITSTATUS(st) != 0, "a check that fails ends the process with a failure", "ended %d", st);
            std::string m = str("%s:%d ", __FILE__, line) + t.out + "\n";
            VH_EXPECT(e.compare(0, m.size(), m) == 0, str("a %s that fails says so at level %s", nm, FN[LV]), "'%s' for '%s'", e.substr(0, 150).c_str(), m.substr(0, 150).c_str());
        }
        transition(); trace(); eval();
        state(mix(mix(0xc4ec, LV), mix(cond * 2 + weak, k)));
    }
    // results (they do not depend on the level)
    if (LV == 1)
    {
    results<double>("double");
    results<std::string>("string");
    results<Big>("struct");
    results<bool>("bool");
    results<const char*>("char*");
    }
    // chains of fallible steps: each is taken once, in order, up to the first that fails
    for (int k = 0; k < 27; ++k)
    {
        if (!mine(cn++)) continue;
        outcome_of[0] = k / 9; outcome_of[1] = k / 3 % 3; outcome_of[2] = k % 3;
        int fail = 0;
        while (fail < 3 && !outcome_of[fail]) ++fail;
        for (int form = 0; form < 2; ++form)
        {
            ctx("chain %d%d%d form %d", outcome_of[0], outcome_of[1], outcome_of[2], form);
            calls[0] = calls[1] = calls[2] = 0;
            std::string got, all = form ? "ABC" : "012";
            try
            {
                if (form == 0)
                {
                    Error r = chain_if(got);
                    VH_EXPECT(fail == 3 ? r.ok() : (!r.ok() && r == err(outcome_of[fail])), "RETURN_IF_NOT_OK returns the first error", "%s", got.c_str());
                }
                else
                {
                    auto r = chain_assign(got);
                    VH_EXPECT(fail == 3 ? r.ok() && r.res() == "ABC!" : (!r.ok() && r.err() == err(outcome_of[fail])), "RETURN_OR_ASSIGN gives the value or returns the first error", "%s", got.c_str());
                }
            }
            catch (const std::exception& x) { violation("a chain of results throws", x.what()); }
            VH_EXPECT(got == all.substr(0, fail), "a chain stops at the first error", "%s", got.c_str());
            for (int i = 0; i < 3; ++i) VH_EXPECT(calls[i] == (i <= fail ? 1 : 0), str("%s takes every step once", form ? "RETURN_OR_ASSIGN" : "RETURN_IF_NOT_OK"), "step %d: %d calls", i, calls[i]);
            transition(3); trace();
            state(mix(mix(0xc4a1, k), form));
        }
    }
    if (first())
    {
        // errors
        ctx("errors");
        VH_EXPECT(Error::none().ok() && Error::none() == Error::none(), "no error is ok", "-");
        VH_EXPECT(!err(1).ok() && err(1) == err(1) && err(1) != err(2) && !(err(1) == err(2)) && err(1) != Error::none() && std::string(err(2).what()) == E2 && err(1) == E1 && err(1) != E2, "errors compare by what they say", "-");
        { std::ostringstream os; os << err(2); VH_EXPECT(os.str() == E2, "an error prints its text", "%s", os.str().c_str()); }
        // outputs
        ctx("outputs");
        {
            std::pair<int, std::string> p{1, "x"};
            Out<std::pair<int, std::string>> o = make_out(p);
            o->first = 5; (*o).second = "y";
            auto o2 = o; o2->first += 1;
            VH_EXPECT(p.first == 6 && p.second == "y", "an output writes to the variable", "%d", p.first);
            Vec3 v(1, 2, 3);
            auto m = make_out(v); (*m)(1) = 9; m->row(2) << 7;
            VH_EXPECT(v == Vec3(1, 9, 7), "a matrix output writes to the matrix", "-");
            Mat6 M = Mat6::Zero();
            make_out(M.block<2, 3>(1, 2))->setConstant(4);
            Mat6 W = Mat6::Zero(); W.block<2, 3>(1, 2).setConstant(4);
            VH_EXPECT(M == W, "a block output writes to its block only", "-");
        }
        // collections: the items themselves, in order
        ctx("collections");
        ItA a, a2; ItB b, b2;
        { Coll<> c; VH_EXPECT(coll_is(c, {}), "an empty collection", "-"); }
        { Coll<ItA> c(a); VH_EXPECT(coll_is(c, {&a}) && &c.get<0>() == &a && c.get_base<0>() == &a, "a collection of one", "-"); }
        { Coll<ItB> c(b); VH_EXPECT(coll_is(c, {&b}) && &c.get<0>() == &b && c.get_base<0>() == static_cast<Item*>(&b), "a collection of one whose base is not first", "-"); }
        for (int s = 0; s < 24; ++s)
        {
            // every order of four items, twice the same included
            int o[4], n = 0, k = s;
            std::vector<int> left = {0, 1, 2, 3};
            for (int q = 4; q > 0; --q) { o[n++] = left[k % q]; left.erase(left.begin() + k % q); k /= q; }
            const ItA* pa[2] = {&a, &a2}; const ItB* pb[2] = {&b, &b2};
            Coll<ItA, ItB, ItB, ItA> c(*pa[o[0] % 2], *pb[o[1] % 2], *pb[o[2] % 2], *pa[o[3] % 2]);
            Coll<ItA, ItB, ItB, ItA> d(c);   // a copy refers to the same items
            VH_EXPECT(coll_is(c, {pa[o[0] % 2], pb[o[1] % 2], pb[o[2] % 2], pa[o[3] % 2]}), "a collection lists its items in order", "%d", s);
            VH_EXPECT(coll_is(d, {pa[o[0] % 2], pb[o[1] % 2], pb[o[2] % 2], pa[o[3] % 2]}), "a copy of a collection lists the same items", "%d", s);
            VH_EXPECT(&c.get<1>() == pb[o[1] % 2] && c.get_base<2>() == static_cast<const Item*>(pb[o[2] % 2]) && &c.get<3>() == pa[o[3] % 2], "items by index", "%d", s);
            transition(); state(mix(0xc011, s));
        }
        sample("dbg/info/warn/error/fatal in three forms, 12 texts, in pairs; check and weak_check; words of 12 operations on results");
    }
    finish();
    _exit(0);
}
