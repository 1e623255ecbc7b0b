// CONF {"secs": 8}
#include "h.h"
// a value of one of the provided types, with its own description of identity
struct V { int kind; vector<int> c; string s; O o; A a; bool state() const { return kind < 3; } bool same(const V& v) const { return kind == v.kind && c == v.c && s == v.s; } };
static V mk(R& r) { V v; v.kind = r.i(0, 4); auto x = [&] { return r.pick({0, 1, -1, 2, 7, 2147483647, -2147483647 - 1, r.i(-3, 3)}); };
    switch (v.kind) { case 0: v.c = {x()}; v.o = make_shared<const IntState>(v.c[0]); break; case 1: v.c = {x(), x()}; v.o = make_shared<const IntPairState>(v.c[0], v.c[1]); break;
        case 2: v.c = {x(), x(), x()}; v.o = make_shared<const Int3TupleState>(v.c[0], v.c[1], v.c[2]); break; case 3: v.c = {x()}; v.a = make_shared<const IntAction>(v.c[0]); break;
        default: v.s = r.pick<const char*>({"", "a", "b", "ab", "left", "0", "1"}); if (r.p(0.2)) v.s += string(r.i(0, 40), 'x'); v.a = make_shared<const StringAction>(v.s); } return v; }
static void cmp(const V& a, const V& b) { bool want = a.same(b);
    try {
        if (a.state() && b.state()) {
            S sa = static_pointer_cast<const State>(a.o), sb = static_pointer_cast<const State>(b.o);
            CHECK(a.o->equals_itfc(*b.o) == want, "equals_itfc on states of kind %d/%d", a.kind, b.kind);
            CHECK(std::equal_to<O>()(a.o, b.o) == want, "equal_to on observation pointers"); CHECK(std::equal_to<Observation>()(*a.o, *b.o) == want, "equal_to on observations");
            CHECK(std::equal_to<S>()(sa, sb) == want, "equal_to on state pointers"); CHECK(std::equal_to<State>()(*sa, *sb) == want, "equal_to on states");
            CHECK(std::operator==(*a.o, *b.o) == want, "operator== on observations"); CHECK(std::operator==(a.o, b.o) == want, "operator== on observation pointers");
            CHECK(std::operator==(*sa, *sb) == want, "operator== on states"); CHECK(std::operator==(sa, sb) == want, "operator== on state pointers");
            size_t ha = a.o->hash(), hb = b.o->hash(); if (want) CHECK(ha == hb, "equal states have different hashes");
            CHECK(std::hash<O>()(a.o) == std::hash<Observation>()(*a.o) && std::hash<S>()(sa) == std::hash<State>()(*sa), "hash of pointer and of value differ");
            if (want) CHECK(std::hash<O>()(a.o) == std::hash<O>()(b.o) && std::hash<S>()(sa) == std::hash<S>()(sb), "equal pointer keys have different hashes");
            for (int t1 : {0, 1, 5}) for (int t2 : {0, 1, 5}) { DNodeIdTuple x(t1, a.o), y(t2, b.o); bool w = want && t1 == t2; CHECK(std::equal_to<DNodeIdTuple>()(x, y) == w, "node id equality"); if (w) CHECK(std::hash<DNodeIdTuple>()(x) == std::hash<DNodeIdTuple>()(y), "equal node ids have different hashes"); }
            std::unordered_map<O, int> mo; mo[a.o] = 1; CHECK((mo.find(b.o) != mo.end()) == want, "map lookup by observation"); std::unordered_map<S, int> ms; ms[sa] = 1; CHECK((ms.find(sb) != ms.end()) == want, "map lookup by state");
            std::unordered_map<DNodeIdTuple, int> md; md[DNodeIdTuple(3, a.o)] = 1; CHECK((md.find(DNodeIdTuple(3, b.o)) != md.end()) == want, "table lookup by node id");
        } else if (!a.state() && !b.state()) {
            CHECK(a.a->equals_itfc(*b.a) == want, "equals_itfc on actions of kind %d/%d", a.kind, b.kind); CHECK(std::equal_to<A>()(a.a, b.a) == want, "equal_to on action pointers"); CHECK(std::equal_to<Action>()(*a.a, *b.a) == want, "equal_to on actions");
            CHECK(std::operator==(*a.a, *b.a) == want, "operator== on actions"); CHECK(std::operator==(a.a, b.a) == want, "operator== on action pointers");
            if (want) CHECK(a.a->hash() == b.a->hash() && std::hash<A>()(a.a) == std::hash<A>()(b.a) && std::hash<Action>()(*a.a) == std::hash<Action>()(*b.a), "equal actions have different hashes");
            std::unordered_map<A, int> ma; ma[a.a] = 1; CHECK((ma.find(b.a) != ma.end()) == want, "map lookup by action");
        }
    } catch (const std::exception& e) { CHECK(false, "comparison or hash threw: %s", e.what()); }
    g_nontrivial += want; }
int main(int argc, char** argv) { return run_cases(argc, argv, [](R& r) { V a = mk(r), b = mk(r); if (r.p(0.4)) { b.kind = a.kind; while (!(b = mk(r)).state() == a.state() && r.p(0.9)) {} } g_desc = strf("kinds %d and %d", a.kind, b.kind); cmp(a, a); cmp(a, b); cmp(b, a); R q(77); V c = a;
    if (a.kind == 0) c.o = make_shared<const IntState>(a.c[0]); if (a.kind == 1) c.o = make_shared<const IntPairState>(a.c[0], a.c[1]); if (a.kind == 2) c.o = make_shared<const Int3TupleState>(a.c[0], a.c[1], a.c[2]); if (a.kind == 3) c.a = make_shared<const IntAction>(a.c[0]); if (a.kind == 4) c.a = make_shared<const StringAction>(a.s);
    cmp(a, c); cmp(c, a); }); }
