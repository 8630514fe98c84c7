// B01: the circular buffer is a bounded deque. All operation sequences to a depth, from every rotation and
// fill, on the real container and on std::deque; element lifetimes are tracked object by object.
#include "vh.h"
#include <deque>
#include <memory>
#include <set>
#include "common/circular_buffer.h"
using namespace mc;
using namespace vh;

static std::set<const void*> live;
static int64_t ctor = 0, dtor = 0;
struct alignas(32) Tr
{
    int* p;
    explicit Tr(int v) : p(new int(v)) { born(); }
    Tr(int a, int b) : p(new int(a * 1000 + b)) { born(); }
    Tr(const Tr& o) : p(new int(*o.p)) { expect(live.count(&o), "copying from a dead element"); born(); }
    Tr& operator=(const Tr& o)
    {
        if (!live.count(this)) { violation("assigning into storage that holds no element", g().sh->ctx); p = new int(*o.p); live.insert(this); ctor++; return *this; }
        expect(live.count(&o), "assigning from a dead element");
        *p = *o.p;
        return *this;
    }
    ~Tr()
    {
        if (!live.erase(this)) { violation("destroying storage that holds no element", g().sh->ctx); return; }
        delete p; dtor++; p = nullptr;
    }
    int v() const { return live.count(this) ? *p : -777; }
    void born()
    {
        ctor++;
        expect(((uintptr_t)this & 31) == 0, "element storage is aligned for its type");
        expect(live.insert(this).second, "constructing over a live element");
    }
};

template <int N>
struct Pair
{
    std::unique_ptr<CircularBuffer<Tr, N>> a, b;
    std::deque<int> ma, mb;
    int next = 1;
    Pair() : a(new CircularBuffer<Tr, N>), b(new CircularBuffer<Tr, N>) {}
};
static const char* OPS[] = {"push_back", "emplace_back", "push_front", "emplace_front", "pop_front", "pop_back", "clear", "set_back", "set_mid", "copy_construct", "copy_assign", "self_assign", "swap_names", "emplace_back2", "push own front to the back", "push own back to the front", "emplace an own element"};
static const int K = 17;

template <int N>
static bool apply(Pair<N>& s, int op)
{
    const size_t cap = N - 1;
    int v = s.next++;
    auto& a = *s.a;
    switch (op)
    {
    case 0: { Tr t(v); a.push_back(t); goto back; }
    case 1: a.emplace_back(v);
    back:
        if (s.ma.size() == cap) s.ma.pop_front();
        s.ma.push_back(v);
        break;
    case 2: { Tr t(v); a.push_front(t); goto front; }
    case 3: a.emplace_front(v);
    front:
        if (s.ma.size() == cap) s.ma.pop_back();
        s.ma.push_front(v);
        break;
    case 4: if (s.ma.empty()) return false; a.pop_front(); s.ma.pop_front(); break;
    case 5: if (s.ma.empty()) return false; a.pop_back(); s.ma.pop_back(); break;
    case 6: a.clear(); s.ma.clear(); break;
    case 7: if (s.ma.empty()) return false; *a.back().p = v; s.ma.back() = v; break;
    case 8: if (s.ma.size() < 2) return false; *(a.begin() + 1)->p = v; s.ma[1] = v; break;
    case 9: s.b.reset(); s.b.reset(new CircularBuffer<Tr, N>(*s.a)); s.mb = s.ma; break;
    case 10: *s.b = *s.a; s.mb = s.ma; break;
    case 11: { auto& r = a; a = r; break; }
    case 12: std::swap(s.a, s.b); std::swap(s.ma, s.mb); break;
    case 13: a.emplace_back(v, 7); v = v * 1000 + 7; goto back;
    // elements of the buffer itself, those about to make room included
    case 14: if (s.ma.empty()) return false; v = s.ma.front(); a.push_back(a.front()); goto back;
    case 15: if (s.ma.empty()) return false; v = s.ma.back(); a.push_front(a.back()); goto front;
    case 16: if (s.ma.empty()) return false; if (v & 1) { v = s.ma.front(); a.emplace_back(a.front()); goto back; } v = s.ma.back(); a.emplace_front(a.back()); goto front;
    }
    transition();
    return true;
}

template <int N>
static void inspect(CircularBuffer<Tr, N>& b, const std::deque<int>& m, const char* which)
{
    const CircularBuffer<Tr, N>& c = b;
    auto S = [&](const char* w) { return std::string(w); };
    expect(b.size() == m.size(), S("size"), str("%s %zu want %zu", which, b.size(), m.size()));
    expect(b.empty() == m.empty(), S("empty"), which);
    expect(b.full() == (m.size() == N - 1), S("full"), which);
    expect(b.capacity() == N - 1 && b.max_size() == N - 1, S("capacity"), which);
    if (b.size() != m.size()) return;
    expect((b.begin() == b.end()) == m.empty(), S("begin==end"), which);
    size_t n = 0;
    for (auto it = b.begin(); it != b.end() && n <= m.size(); ++it, ++n)
    {
        if (n >= m.size()) { violation("iteration yields too many elements", g().sh->ctx); break; }
        expect(it->v() == m[n], S("forward iteration"), str("%s[%zu]=%d want %d", which, n, it->v(), m[n]));
        expect(live.count(&*it), S("iterator at a dead element"), which);
        expect(it.idx() == n, S("iterator index"), which);
        const auto d = b.end() - it;
        expect(d == (int)(m.size() - n), S("iterator distance"), which);
    }
    n = 0;
    for (auto it = c.begin(); it != c.end() && n < m.size(); it++, ++n) expect((*it).v() == m[n], S("const iteration"), which);
    expect(n == m.size(), S("iteration length"), which);
    if (m.empty()) return;
    expect(b.front().v() == m.front() && c.front().v() == m.front(), S("front"), which);
    expect(b.back().v() == m.back() && c.back().v() == m.back(), S("back"), str("%s %d want %d", which, b.back().v(), m.back()));
    {
        auto it = b.end();
        for (size_t i = m.size(); i-- > 0;) { --it; expect(it->v() == m[i], S("backward iteration"), which); }
        auto ct = c.end();
        for (size_t i = m.size(); i-- > 0;) { ct--; expect(ct->v() == m[i], S("const backward iteration"), which); }
    }
    for (size_t i = 0; i < m.size(); ++i)
    {
        expect(b[i].v() == m[i] && c[i].v() == m[i] && b.at(i).v() == m[i] && c.at(i).v() == m[i], S("indexing"), which);
        expect((b.end() - (m.size() - i))->v() == m[i] && (c.end() - (m.size() - i))->v() == m[i], S("end minus k"), which);
        for (size_t j = 0; j < m.size(); ++j)
        {
            auto x = b.begin() + i, y = b.begin() + j;
            expect((x < y) == (i < j) && (x <= y) == (i <= j) && (x > y) == (i > j) && (x >= y) == (i >= j) && (x == y) == (i == j) && (x != y) == (i != j), S("iterator order"), which);
            expect(y - x == (int)j - (int)i, S("iterator difference"), which);
            auto z = x;
            if (j >= i) z += j - i; else z -= i - j;
            expect(z->v() == m[j], S("iterator += -="), which);
            typename CircularBuffer<Tr, N>::const_iterator cx = c.begin() + i, cy = c.begin() + j, cz = cx;
            expect((cx < cy) == (i < j) && (cx <= cy) == (i <= j) && (cx > cy) == (i > j) && (cx >= cy) == (i >= j) && (cx == cy) == (i == j) && (cx != cy) == (i != j), S("const iterator order"), which);
            expect(cy - cx == (int)j - (int)i && (c.end() - (m.size() - i))->v() == m[i], S("const iterator difference"), which);
            if (j >= i) cz += j - i; else cz -= i - j;
            expect(cz->v() == m[j], S("const iterator += -="), which);
        }
    }
}

template <int N>
static void check(Pair<N>& s)
{
    inspect<N>(*s.a, s.ma, "A");
    inspect<N>(*s.b, s.mb, "B");
    expect(live.size() == s.ma.size() + s.mb.size(), "live elements match contents", str("%zu live, %zu+%zu held", live.size(), s.ma.size(), s.mb.size()));
    eval();
}

template <int N>
static void explore(int maxdepth)
{
    for (int depth = 0; depth <= maxdepth; ++depth)
    for (int rot = 0; rot < N; ++rot)
        for (int fill = 0; fill < N; ++fill)
            words(K, depth, [&](const std::vector<int>& w) {
                live.clear();
                // a word whose prefix already left the alphabet (pop on empty) repeats a shorter word: skip
                {
                    ctxs(str("N=%d rotated %d filled %d ops %s", N, rot, fill, wstr(w).c_str()));
                    Pair<N> s;
                    for (int i = 0; i < rot; ++i) { s.a->emplace_back(0); s.a->pop_front(); }
                    for (int i = 0; i < fill; ++i) { s.a->emplace_back(s.next); s.ma.push_back(s.next++); }
                    uint64_t h = mix(N, rot);
                    for (size_t i = 0; i < w.size(); ++i)
                    {
                        if (!apply<N>(s, w[i])) return;
                        // contents up to renaming of values, and where the head sits
                        h = mix(mix(mix(N, s.ma.size()), s.mb.size()), 17);
                        if (!s.ma.empty()) h = mix(h, (const char*)&s.a->front() - (const char*)s.a->data());
                        if (!s.mb.empty()) h = mix(h, (const char*)&s.b->front() - (const char*)s.b->data());
                        state(h);
                        outcome(mix(w[i], s.ma.size()));
                    }
                    check<N>(s);
                    trace();
                    if (depth == maxdepth && g().samples.size() < 4 && fill == N - 1) sample(g().sh->ctx);
                }
                expect(live.empty(), "every element is destroyed with its buffer");
            });
}

// every element sequence long enough to wrap several times
template <int N>
static void longruns()
{
    for (int period = 1; period <= 2 * N; ++period)
        for (int kind = 0; kind < 4; ++kind)
        {
            live.clear();
            Pair<N> s;
            ctx("long N=%d period %d kind %d", N, period, kind);
            for (int i = 0; i < 4 * N + 3; ++i)
            {
                int op = (i % period == period - 1) ? (kind & 1 ? 5 : 4) : (kind & 2 ? 3 : 1);
                apply<N>(s, op);
                check<N>(s);
            }
            trace();
        }
}

int main()
{
    init();
    explore<2>(thorough() ? 5 : 3);
    explore<3>(thorough() ? 5 : 4);
    explore<4>(thorough() ? 5 : 3);
    if (first()) { longruns<2>(); longruns<3>(); longruns<5>(); longruns<30>(); }
    return finish();
}
