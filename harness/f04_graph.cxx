// F04: the graph of states and factors. Every factor connects exactly the states it was given, in the order
// declared, and sees what they hold now; states are views of their own storage; a new graph starts in its options.
#include "vh.h"

#include <set>

#include "core/factor_graph.h"
#include "core/factors/factors.h"
#include "core/states/states.h"

using namespace mc;
namespace st = mc::states;
namespace fa = mc::factors;

static uint64_t n_ = 0;
// dimension and place of the members, from the description of the estimator (not read from the classes)
struct World
{
    st::Pose pose[2];
    st::Velocity vel[2];
    st::ClockBias clk[2];
    st::AntennaPosition ant[2];
    st::ImuBias bias[2];
    st::GnssSwitch sw[2];

    // all states, in an order of their own: kind k, instance i
    st::State* s(int k, int i)
    {
        switch (k)
        {
        case 0: return &pose[i];
        case 1: return &vel[i];
        case 2: return &clk[i];
        case 3: return &ant[i];
        case 4: return &bias[i];
        default: return &sw[i];
        }
    }
    // the storage behind it, addressed through the member a model would use
    double get(int k, int i, int j)
    {
        switch (k)
        {
        case 0: return j < 4 ? pose[i].pose.real()[j] : pose[i].pose.dual()[j - 4];
        case 1: return vel[i].vel(j);
        case 2: return clk[i].clk(j);
        case 3: return ant[i].p_b2g(j);
        case 4: return bias[i].bias(j);
        default: return sw[i].sw;
        }
    }
    void set(int k, int i, int j, double v)
    {
        switch (k)
        {
        case 0:
            if (j < 4)
                pose[i].pose.real()[j] = v;
            else
                pose[i].pose.dual()[j - 4] = v;
            break;
        case 1: vel[i].vel(j) = v; break;
        case 2: clk[i].clk(j) = v; break;
        case 3: ant[i].p_b2g(j) = v; break;
        case 4: bias[i].bias(j) = v; break;
        default: sw[i].sw = v;
        }
    }
};
static const int DIMS[6] = {8, 3, 2, 3, 6, 1};
static const char* KN[6] = {"pose", "velocity", "clock bias", "antenna position", "imu bias", "switch"};

// What each kind of factor connects
static const std::vector<int> CONN[4] = {{0, 1, 2, 3}, {5, 5}, {0, 0, 1, 1, 4}, {0, 0, 3, 2, 2, 5, 5}};
static const char* FN[4] = {"Gnss", "GnssSwitch", "Imu", "RelativeCarrierPhase"};

struct AnyFactor
{
    int kind;
    std::unique_ptr<fa::Gnss> g;
    std::unique_ptr<fa::GnssSwitch> s;
    std::unique_ptr<fa::Imu> i;
    std::unique_ptr<fa::RelativeCarrierPhase> r;
    const fa::Factor* base = nullptr;
    std::vector<const st::State*> members;   // the named members, in the order of CONN
    std::vector<const st::State*> gets;      // get<i>()
    std::vector<const st::State*> bases;     // get_base<i>()
};

template <typename F, size_t... I>
static void fill(AnyFactor& a, const F& f, std::index_sequence<I...>)
{
    a.base = &f;
    a.gets = {static_cast<const st::State*>(&f.template get<I>())...};
    a.bases = {f.template get_base<I>()...};
}

static AnyFactor make(World& w, int kind, const std::vector<int>& sel)
{
    AnyFactor a;
    a.kind = kind;
    switch (kind)
    {
    case 0:
        a.g = std::make_unique<fa::Gnss>(w.pose[sel[0]], w.vel[sel[1]], w.clk[sel[2]], w.ant[sel[3]]);
        fill(a, *a.g, std::make_index_sequence<4>{});
        a.members = {&a.g->pose, &a.g->vel, &a.g->clock_bias, &a.g->antenna_position};
        break;
    case 1:
        a.s = std::make_unique<fa::GnssSwitch>(w.sw[sel[0]], w.sw[sel[1]]);
        fill(a, *a.s, std::make_index_sequence<2>{});
        a.members = {&a.s->switch1, &a.s->switch2};
        break;
    case 2:
        a.i = std::make_unique<fa::Imu>(w.pose[sel[0]], w.pose[sel[1]], w.vel[sel[2]], w.vel[sel[3]], w.bias[sel[4]]);
        fill(a, *a.i, std::make_index_sequence<5>{});
        a.members = {&a.i->pose1, &a.i->pose2, &a.i->vel1, &a.i->vel2, &a.i->imu_bias};
        break;
    default:
        a.r = std::make_unique<fa::RelativeCarrierPhase>(w.pose[sel[0]], w.pose[sel[1]], w.ant[sel[2]], w.clk[sel[3]],
                                                         w.clk[sel[4]], w.sw[sel[5]], w.sw[sel[6]]);
        fill(a, *a.r, std::make_index_sequence<7>{});
        a.members = {&a.r->pose1,       &a.r->pose2,   &a.r->antenna_position, &a.r->clock_bias1,
                     &a.r->clock_bias2, &a.r->switch1, &a.r->switch2};
    }
    return a;
}

static double token(int k, int i, int j) { return 1 + k * 100 + i * 50 + j + 0.25; }

static void connections()
{
    // every kind of factor, every choice of states (the same one twice included), then every single write
    for (int kind = 0; kind < 4; ++kind)
    {
        const auto& c = CONN[kind];
        for (int m = 0; m < (1 << c.size()); ++m)
        {
            if (!vh::mine(n_++)) continue;
            std::vector<int> sel;
            for (size_t q = 0; q < c.size(); ++q) sel.push_back((m >> q) & 1);
            auto wp = std::make_unique<World>();
            World& w = *wp;
            vh::ctxs(std::string(FN[kind]) + " connecting choice " + std::to_string(m));
            for (int k = 0; k < 6; ++k)
                for (int i = 0; i < 2; ++i)
                    for (int j = 0; j < DIMS[k]; ++j) w.set(k, i, j, token(k, i, j));
            AnyFactor f = make(w, kind, sel);
            vh::state(vh::mix(kind, m));
            auto look = [&] {
                const auto items = f.base->base_items();
                if (!vh::expect(items.size() == c.size(), "a factor lists each state it connects once")) return;
                for (size_t q = 0; q < c.size(); ++q)
                {
                    st::State* want = w.s(c[q], sel[q]);
                    vh::eval();
                    vh::expect(&items[q].get() == want, "a factor lists exactly the states it connects, in order");
                    vh::expect(f.gets[q] == want, "get<i>() is the state the factor connects");
                    vh::expect(f.bases[q] == want, "get_base<i>() is the state the factor connects");
                    vh::expect(f.members[q] == want, "the member of a factor is the state the factor connects");
                    for (int j = 0; j < DIMS[c[q]]; ++j)
                        vh::expect(items[q].get().data()[j] == w.get(c[q], sel[q], j),
                                  "a factor sees what the state it connects holds now");
                }
            };
            look();
            for (int k = 0; k < 6; ++k)
                for (int i = 0; i < 2; ++i)
                    for (int j = 0; j < DIMS[k]; ++j)
                        for (int how = 0; how < 2; ++how)
                        {
                            const double v = -token(k, i, j) - how;
                            if (how)
                                w.s(k, i)->data()[j] = v;
                            else
                                w.set(k, i, j, v);
                            vh::transition();
                            look();
                            // nothing else has changed
                            for (int k2 = 0; k2 < 6; ++k2)
                                for (int i2 = 0; i2 < 2; ++i2)
                                    for (int j2 = 0; j2 < DIMS[k2]; ++j2)
                                    {
                                        const double want =
                                            (k2 == k && i2 == i && j2 == j) ? v : token(k2, i2, j2);
                                        vh::expect(w.get(k2, i2, j2) == want, std::string("writing one component of a state changes that alone (") + KN[k] + ")");
                                        vh::expect(w.s(k2, i2)->data()[j2] == want, std::string("the data of a state are its own components, in order (") + KN[k2] + ")");
                                    }
                            w.set(k, i, j, token(k, i, j));
                        }
            vh::nontrivial(vh::mix(kind, 1000 + m));
        }
    }
}

static void kinds()
{
    if (!vh::first()) return;
    auto wp = std::make_unique<World>();
    std::set<int> ids;
    for (int k = 0; k < 6; ++k)
        for (int i = 0; i < 2; ++i)
        {
            vh::ctxs(std::string("state ") + KN[k]);
            vh::eval();
            vh::expect(wp->s(k, i)->DIM == DIMS[k], "a state has the dimension of what it holds");
            vh::expect(wp->s(k, i)->ID == wp->s(k, 0)->ID, "states of a kind share its number");
            const st::State* c = wp->s(k, i);
            vh::expect(c->data() == wp->s(k, i)->data(), "a state has one storage");
            vh::expect(wp->s(k, i)->base_items().empty(), "a new state has no factors");
            ids.insert(wp->s(k, i)->ID);
        }
    vh::expect(ids.size() == 6, "kinds of states have different numbers");
}

// Which factors a state lists: every sequence of attachments up to a depth
static void attachments()
{
    // two factors of each kind over one choice; words over (state kind, instance, factor)
    const int N = vh::thorough() ? 4 : 3;
    auto wp = std::make_unique<World>();
    std::vector<AnyFactor> fs;
    for (int kind = 0; kind < 4; ++kind) fs.push_back(make(*wp, kind, std::vector<int>(CONN[kind].size(), kind & 1)));
    vh::words(8, N, [&](const std::vector<int>& word) {
        // letter: two states x four factors
        std::vector<fa::Factor*> want[2];
        for (int i = 0; i < 2; ++i) wp->pose[i].factors.clear();
        vh::ctxs("attachments " + vh::wstr(word));
        for (int l : word)
        {
            auto* f = const_cast<fa::Factor*>(fs[l / 2].base);
            wp->pose[l % 2].factors.push_back(f);
            want[l % 2].push_back(f);
            vh::transition();
            for (int i = 0; i < 2; ++i)
            {
                vh::eval();
                vh::expect(wp->s(0, i)->base_items() == want[i], "a state lists exactly the factors attached to it, in order");
            }
        }
        vh::state(vh::mix(9, vh::hstr(vh::wstr(word))));
    });
}

static void graphs()
{
    // a new graph: every option distinct from every other and from the defaults, over a grid
    const std::vector<UTCTime> times = {UTCTime(0, 0), UTCTime(1, 999999999), UTCTime(1600000000, 1), UTCTime(-5, 7)};
    const int V = vh::thorough() ? 7 : 5;
    for (const UTCTime& t0 : times)
        for (int set = 0; set < 64; ++set)
            for (int v = 0; v < V; ++v)
            {
                if (!vh::mine(n_++)) continue;
                vh::ctxs("graph with options " + std::to_string(set) + " value " + std::to_string(v));
                core::FactorGraph::Options o;
                const double a = v == 0 ? 0.0 : (v == 1 ? -1.5 : v == 2 ? 1e9 : v == 3 ? 1e-9 : v + 0.125);
                o.Xi_r2n_.setConstant(a + 40);
                o.t0_ = t0;
                Vec3 vel = Vec3::Zero();
                Vec2 clk = Vec2::Zero();
                Vec8 x;
                x << 1, 0, 0, 0, 0, 0, 0, 0;
                if (set & 1)
                {
                    x << 0.5, -0.5, 0.5, 0.5, a, a + 1, a + 2, a + 3;
                    for (int i = 0; i < 4; ++i)
                    {
                        o.x0_.real()[i] = x(i);
                        o.x0_.dual()[i] = x(i + 4);
                    }
                }
                if (set & 2) o.vel0_ = vel = Vec3(a + 10, a + 11, a + 12);
                if (set & 4) o.clk0_ = clk = Vec2(a + 20, a + 21);
                if (set & 8)
                {
                    Vec6 b;
                    b << a + 30, a + 31, a + 32, a + 33, a + 34, a + 35;
                    o.imu_bias0_ = b;
                    vh::expect(Vec3(o.imu_bias0_.accel()) == Vec3(b.head<3>()), "the first half of an IMU bias is that of the accelerometer");
                    vh::expect(Vec3(o.imu_bias0_.gyro()) == Vec3(b.tail<3>()), "the second half of an IMU bias is that of the gyro");
                    o.imu_bias0_.gyro()(1) = -7;
                    o.imu_bias0_.accel()(2) = -8;
                    b(4) = -7;
                    b(2) = -8;
                    vh::expect(Vec6(o.imu_bias0_) == b, "a bias written through its halves");
                    core::ImuBias c(b);
                    vh::expect(Vec6(c) == b, "a bias made from a vector");
                    c = (2.0 * b).eval();
                    vh::expect(Vec6(c) == Vec6(2.0 * b), "a bias assigned from a vector");
                }
                if (set & 16) o.p_b2g0_ = Vec3(a + 50, a + 51, a + 52);
                if (set & 32) o.T_r2n0_.dual()[1] = a + 60;
                vh::state(vh::mix(vh::mix(t0.sec, t0.nsec), set * 16 + v));
                auto g = std::make_unique<core::FactorGraph>(o);
                // the options may change or go once the graph is made
                o.t0_ = UTCTime(77, 77);
                o.vel0_.setConstant(99);
                o.clk0_.setConstant(99);
                o.x0_.real()[0] = 99;
                const core::Node& n = g->lastNode();
                vh::eval();
                vh::expect(n.t == t0, "a graph starts at the time it was given");
                for (int i = 0; i < 4; ++i)
                    vh::expect(n.T_n2b.real()[i] == x(i) && n.T_n2b.dual()[i] == x(i + 4), "a graph starts at the pose it was given");
                vh::expect(n.vel == vel, "a graph starts with the velocity it was given");
                vh::expect(n.clk == clk, "a graph starts with the clock it was given");
                vh::expect(n.sw.size() == 30, "a node has a switch for each satellite");
                for (double s : n.sw) vh::expect(s == 1.0, "every satellite starts switched on");
                vh::expect(&g->lastNode() == &n, "asking for the last node changes nothing");
                vh::nontrivial(vh::mix(5, set * 16 + v));
                vh::outcome(vh::mix(set, 3));
            }
}

int main()
{
    vh::init();
    kinds();
    connections();
    attachments();
    graphs();
    return vh::finish();
}
