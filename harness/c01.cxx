// C01: configuration lookups, exhaustively over small documents, paths and value types.
#include "vh.h"
#include <csetjmp>
#include <fstream>
#include <memory>
#include "common/matrix_defs.h"
#include "utils/config.h"
using namespace mc;
using namespace vh;

static bool g_catch_exit = false;
static jmp_buf g_died;
extern "C" void exit(int rc)   // mc::check ends the program through exit
{
    if (g_catch_exit) { g_catch_exit = false; longjmp(g_died, 1); }
    fflush(nullptr);
    _exit(rc);
}

// a document: plain value, list of documents or map of documents
struct Doc
{
    enum K { NUL, SCALAR, LIST, MAP } k = NUL;
    std::string s;
    std::vector<Doc> l;
    std::vector<std::pair<std::string, Doc>> m;
};
static Doc sc(const std::string& s) { Doc d; d.k = Doc::SCALAR; d.s = s; return d; }
static Doc li(const std::vector<Doc>& l) { Doc d; d.k = Doc::LIST; d.l = l; return d; }
static Doc mp(const std::vector<std::pair<std::string, Doc>>& m) { Doc d; d.k = Doc::MAP; d.m = m; return d; }
static std::string text(const Doc& d)
{
    std::string o;
    switch (d.k)
    {
    case Doc::NUL: return "~";
    case Doc::SCALAR: return d.s.empty() ? "\"\"" : d.s;
    case Doc::LIST: o = "["; for (size_t i = 0; i < d.l.size(); ++i) o += (i ? ", " : "") + text(d.l[i]); return o + "]";
    default: o = "{"; for (size_t i = 0; i < d.m.size(); ++i) o += (i ? ", " : "") + d.m[i].first + ": " + text(d.m[i].second); return o + "}";
    }
}
static const Doc* find(const Doc& d, const std::vector<std::string>& path)
{
    const Doc* p = &d;
    for (const auto& k : path)
    {
        const Doc* n = nullptr;
        if (p->k == Doc::MAP) for (const auto& e : p->m) if (e.first == k) n = &e.second;
        if (!n) return nullptr;
        p = n;
    }
    return p;
}
// what a value means as a type; false: it cannot be one
static bool as(const Doc& d, double& o) { if (d.k != Doc::SCALAR || d.s.empty()) return false; char* e; o = strtod(d.s.c_str(), &e); return !*e; }
static bool as(const Doc& d, int& o) { if (d.k != Doc::SCALAR || d.s.empty()) return false; char* e; long v = strtol(d.s.c_str(), &e, 10); o = (int)v; return !*e && v == o; }
static bool as(const Doc& d, bool& o) { if (d.k != Doc::SCALAR) return false; o = d.s == "true"; return d.s == "true" || d.s == "false"; }
static bool as(const Doc& d, std::string& o) { o = d.s; return d.k == Doc::SCALAR; }
template <typename T> static bool as(const Doc& d, std::vector<T>& o)
{
    if (d.k != Doc::LIST) return false;
    o.clear();
    for (const auto& e : d.l) { T v; if (!as(e, v)) return false; o.push_back(v); }
    return true;
}
template <int R, int C, int O> static bool as(const Doc& d, Eigen::Matrix<double, R, C, O>& o)
{
    std::vector<double> v;
    if (!as(d, v) || (int)v.size() != R * C) return false;
    for (int i = 0; i < R; ++i) for (int j = 0; j < C; ++j) o(i, j) = v[i * C + j];
    return true;
}
template <typename T> static bool eq(const T& a, const T& b) { return a == b; }

static std::string g_path;
template <typename T> static void ask(const Doc& doc, utils::Config& cfg, const std::string& dump, const std::string& key, const std::vector<std::string>& path, const T& init, const char* tn)
{
    const Doc* at = find(doc, path);
    T want = init;
    bool have = at && as(*at, want);
    if (!have) want = init;
    for (int required = 0; required < 2; ++required)
    {
        ctx("%s asked for %s as %s%s", dump.c_str(), key.c_str(), tn, required ? ", required" : "");
        T out = init;
        volatile bool ret = false, died = false, threw = false;
        if (setjmp(g_died)) died = true;
        else
        {
            try { g_catch_exit = true; ret = cfg.get(key, make_out(out), required != 0); }
            catch (const std::exception& e) { threw = true; }
        }
        g_catch_exit = false;
        eval();
        VH_EXPECT(!threw, "a lookup never throws", "-");
        VH_EXPECT(eq(out, want), have ? "the value found is the value in the document" : "the output keeps its value when nothing is found", "-");
        if (required && !have) VH_EXPECT(died, at ? "an unusable required value stops the program" : "a missing required value stops the program", "returned %d", ret);
        else
        {
            VH_EXPECT(!died, "only a required value that is missing or unusable stops the program", "-");
            VH_EXPECT(ret == have || threw || died, "a lookup tells whether it found the value", "returned %d", ret);
        }
        nontrivial(hstr(text(at ? *at : Doc())) * 31 + hstr(tn) + required + (at ? 0 : 7));
        outcome(have * 4 + ret * 2 + died + (at ? 8 : 0));
    }
}
static std::vector<std::vector<std::string>> g_paths;
static void document(const Doc& doc)
{
    if (!mine(g().case_no++)) return;
    const std::string t = text(doc);
    utils::Config cfg(YAML::Load(t));
    state(hstr(t));
    const std::string before = YAML::Dump(cfg.yaml_);
    // the order of lookups must not matter, so the whole set is asked twice: forwards and backwards
    for (int pass = 0; pass < 2; ++pass)
        for (size_t q = 0; q < g_paths.size(); ++q)
        {
            const auto& p = g_paths[pass ? g_paths.size() - 1 - q : q];
            std::string key = p[0];
            for (size_t i = 1; i < p.size(); ++i) key += "/" + p[i];
            ask<double>(doc, cfg, t, key, p, 0.625, "double");
            ask<int>(doc, cfg, t, key, p, -77, "int");
            ask<bool>(doc, cfg, t, key, p, pass, "bool");
            const Doc* at = find(doc, p);
            if (!at || at->k != Doc::NUL) ask<std::string>(doc, cfg, t, key, p, "kept", "string");   // yaml-cpp reads a null as the word
            ask<std::vector<double>>(doc, cfg, t, key, p, {9, 8}, "vector<double>");
            ask<std::vector<int>>(doc, cfg, t, key, p, {9}, "vector<int>");
            ask<std::vector<bool>>(doc, cfg, t, key, p, {true}, "vector<bool>");
            ask<std::vector<std::vector<double>>>(doc, cfg, t, key, p, {{1}}, "vector<vector<double>>");
            ask<std::vector<Vec2>>(doc, cfg, t, key, p, {Vec2(1, 1)}, "vector<Vec2>");
            ask<Vec3>(doc, cfg, t, key, p, Vec3(-1, -2, -3), "Vec3");
            ask<Vec1>(doc, cfg, t, key, p, Vec1(-1), "Vec1");
            ask<Mat2>(doc, cfg, t, key, p, Mat2::Constant(-4), "Mat2");
            ask<Eigen::Matrix<double, 2, 3>>(doc, cfg, t, key, p, Eigen::Matrix<double, 2, 3>::Constant(-5), "2x3");
            ask<MatRM3>(doc, cfg, t, key, p, MatRM3::Constant(-6), "3x3 row major");
            transition();
        }
    VH_EXPECT(YAML::Dump(cfg.yaml_) == before, "lookups leave the configuration as it was", "%s", YAML::Dump(cfg.yaml_).c_str());
}
int main()
{
    init();
    if (!freopen("/dev/null", "w", stdout)) return 3;
    std::vector<Doc> leaf = {Doc(), sc("5"), sc("-3"), sc("2.5"), sc("1e3"), sc("abc"), sc(""), sc("true"), sc("5 6"), sc("0x"), sc("99999999999"),
                             li({}), mp({}),
                             li({sc("1")}), li({sc("1.5"), sc("2")}), li({sc("1"), sc("2"), sc("3")}), li({sc("1"), sc("x"), sc("3")}), li({sc("1"), Doc(), sc("3")}),
                             li({sc("1"), sc("2"), sc("3"), sc("4")}), li({sc("1"), sc("2"), sc("3"), sc("4.5"), sc("5")}), li({sc("true"), sc("false")}),
                             li({sc("1"), sc("2"), sc("3"), sc("4"), sc("5"), sc("6")}),
                             li({sc("1"), sc("2"), sc("3"), sc("4"), sc("5"), sc("6"), sc("7"), sc("8"), sc("9")}),
                             li({sc("1"), sc("2"), sc("3"), sc("4"), sc("5"), sc("6"), sc("7"), sc("8"), sc("9"), sc("10")}),
                             li({li({sc("1"), sc("2")}), li({sc("3"), sc("4")})}), li({li({sc("1")}), li({sc("3"), sc("4"), sc("5")})}), li({li({}), sc("4")}),
                             li({li({sc("1"), sc("2"), sc("3")})}), li({li({sc("1"), sc("q")})})};
    g_paths = {{"a"}, {"b"}, {"a", "a"}, {"a", "b"}, {"b", "a"}, {"a", "a", "a"}, {"a", "b", "a"}, {"a", "a", "b", "a"}, {"zz"}, {"a", "zz", "a"}};
    // all shapes of up to three levels over the keys a and b, with every value in each place
    std::vector<Doc> small = {leaf[0], leaf[1], leaf[5], leaf[15], leaf[16]};
    for (const auto& x : leaf)
    {
        document(mp({{"a", x}}));
        document(mp({{"b", x}}));
        document(mp({{"a", mp({{"a", x}})}}));
        document(mp({{"a", mp({{"b", mp({{"a", x}})}})}}));
        document(mp({{"a", mp({{"a", mp({{"b", mp({{"a", x}})}})}})}}));
        for (const auto& y : thorough() ? leaf : small)
        {
            document(mp({{"a", x}, {"b", y}}));
            document(mp({{"b", x}, {"a", y}}));
            document(mp({{"a", mp({{"a", x}, {"b", y}})}}));
            document(mp({{"a", mp({{"a", x}})}, {"b", y}}));
            document(mp({{"a", y}, {"b", mp({{"a", x}})}}));
            document(mp({{"a", mp({{"a", mp({{"a", x}})}, {"b", y}})}}));
            for (const auto& z : small)
            {
                document(mp({{"a", mp({{"a", x}, {"b", y}})}, {"b", z}}));
                document(mp({{"a", mp({{"a", x}, {"b", mp({{"a", y}})}})}, {"b", mp({{"a", z}})}}));
                document(mp({{"a", mp({{"b", x}, {"a", mp({{"a", z}, {"b", mp({{"a", y}})}})}})}}));
            }
        }
    }
    // documents that are not maps
    for (const auto& x : leaf) document(x);
    // the same answers when the document comes from a file, and a matrix written is a matrix read
    const std::string dir = getenv("VH_DIR") ? getenv("VH_DIR") : "/tmp";
    uint64_t n = 0;
    for (const auto& x : leaf)
    {
        if (!mine(n++)) continue;
        Doc d = mp({{"a", x}, {"b", mp({{"a", x}})}});
        const std::string f = dir + "/c01_" + std::to_string(n) + ".yaml";
        { std::ofstream o(f); o << text(d) << "\n"; }
        utils::Config cfg(f);
        for (const auto& p : g_paths)
        {
            std::string key = p[0];
            for (size_t i = 1; i < p.size(); ++i) key += "/" + p[i];
            ask<double>(d, cfg, "file " + text(d), key, p, 0.5, "double");
            ask<Vec3>(d, cfg, "file " + text(d), key, p, Vec3(1, 0, 0), "Vec3");
            ask<Mat2>(d, cfg, "file " + text(d), key, p, Mat2::Constant(2), "Mat2");
        }
    }
    Eigen::Matrix<double, 2, 3> m, r;
    for (int k = 0; k < 729; ++k)
    {
        if (!mine(n++)) continue;
        int q = k; for (int i = 0; i < 6; ++i) { m(i) = (q % 3 - 1) * (1.0 / 3) * pow(10.0, i * 3 - 9); q /= 3; }
        ctx("matrix %d written to a configuration and read back", k);
        YAML::Node y; y["m"] = m;
        utils::Config c1(y), c2(YAML::Load(YAML::Dump(y)));
        r.setConstant(7); VH_EXPECT(c1.get("m", make_out(r)) && r == m, "a matrix written is the matrix read", "-");
        r.setConstant(7); VH_EXPECT(c2.get("m", make_out(r)) && (r - m).norm() <= 1e-15 * m.norm(), "a matrix written is the matrix read", "-");
        Eigen::Matrix<double, 2, 3> via = y["m"].as<Eigen::Matrix<double, 2, 3>>();
        VH_EXPECT(via == m, "a matrix written is the matrix read", "-");
        eval(3); nontrivial(k + 1000000007ull);
    }
    sample("{a: {a: [1, x, 3], b: {a: 5}}, b: {a: ~}} asked for a/b/a as vector<double>, required");
    finish();
}
