// C16: the destructor next to the first and to later named methods of a translation unit.
// Before anything is included, so that the first Method of this file is the first of the program.
#include "fk.hpp"
using namespace fakeit;
using fk::L;

namespace {
    struct X {
        virtual int f(int) = 0;
        virtual ~X() {}
        virtual int g(int) = 0;
        virtual int h(int) = 0;
    };
    // the first three methods named in this translation unit
    void stubF(Mock<X> &m, int v) { When(Method(m, f)).AlwaysReturn(v); }
    void stubG(Mock<X> &m, int v) { When(Method(m, g)).AlwaysReturn(v); }
    void stubH(Mock<X> &m, int v) { When(Method(m, h)).AlwaysReturn(v); }
    bool verF(Mock<X> &m, int n) { return Verify(Method(m, f)).Exactly(n); }
    bool verG(Mock<X> &m, int n) { return Verify(Method(m, g)).Exactly(n); }
    bool verH(Mock<X> &m, int n) { return Verify(Method(m, h)).Exactly(n); }

    void space() {
        fk::QuietAdapter q;
        Mock<X> m;
        int ran = 0, val[3] = {-1, -1, -1}, n[3] = {}, nd = 0;
        bool dtor = false;
        int depth = mc::bound(6, 7);
        uint64_t h = 1;
        for (int i = 0; i < depth; i++) {
            int o = mc::choose(9);
            h = mc::mix(h, o);
            MC_LOG("%s", o < 3 ? "stub" : o < 6 ? "call" : o == 6 ? "stub destructor" : o == 7 ? "delete" : "reset");
            if (o < 3) { val[o] = 10 * i + o; (o == 0 ? stubF : o == 1 ? stubG : stubH)(m, val[o]); }
            else if (o < 6) {
                int k = o - 3, got = -1;
                try { got = k == 0 ? L(m.get()).f(1) : k == 1 ? L(m.get()).g(1) : L(m.get()).h(1); } catch (UnexpectedMethodCallException &) {}
                MC_CHECK(got == val[k], "method %d gave %d instead of %d", k, got, val[k]);
                if (got >= 0) n[k]++;
            } else if (o == 6) { Dtor(m) = [&] { ran++; }; dtor = true; }
            else if (o == 7) { nd += dtor; delete &L(m.get()); MC_CHECK(ran == nd, "the destructor action ran %d times", ran); mc::outcome(dtor ? "counted" : "ignored"); }
            else { m.Reset(); dtor = false; ran = nd = 0; for (int k = 0; k < 3; k++) { val[k] = -1; n[k] = 0; } }
            mc::step(h);
        }
        for (int k = 0; k < 3; k++) if (val[k] >= 0) MC_CHECK((k == 0 ? verF : k == 1 ? verG : verH)(m, n[k]), "calls of method %d", k);
        if (dtor) MC_CHECK((bool) Verify(Dtor(m)).Exactly(nd), "deletions");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 3;
        o.mandatory = {"counted", "ignored"};
        o.bound = "all sequences of 6 (7) of stubbing and calling the first three methods named in a program, stubbing the destructor, deleting and resetting";
        mc::add("first named methods", o, space);
    });
}
