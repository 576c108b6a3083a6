seed("C05-hole-shift", "C05", [("srreal/PointsInSphere.cpp", "            o0line = o0plane + (n()-n0plane)*do0dn;", "            o0line = o0plane + (n()-n0plane)*do0dn;\n            if (oExclHalfSpan > 0.0 && n() < n0plane)  o0line = floor(o0line + 0.5);")],
     "a skewed lattice with a nonzero lower bound and several lines per plane", "line centers are rounded to a lattice point on some lines of skewed lattices", r'''
#include <diffpy/srreal/PointsInSphere.hpp>
#include <cmath>
int main()
{
    double ca = cos(75 * M_PI / 180), cb = cos(110 * M_PI / 180), cg = cos(68 * M_PI / 180);
    int n = 0, m = 0;
    for (PointsInSphere s(2.1, 6.3, 1.1, 1.3, 1.7, 75, 110, 68); !s.finished(); s.next()) ++n;
    for (int h = -20; h <= 20; ++h) for (int k = -20; k <= 20; ++k) for (int l = -20; l <= 20; ++l) {
        double x = 1.1 * h, y = 1.3 * k, z = 1.7 * l;
        double r = sqrt(x * x + y * y + z * z + 2 * x * y * cg + 2 * x * z * cb + 2 * y * z * ca);
        if (r >= 2.1 && r < 6.3) ++m;
    }
    OK(n == m);
    return bad ? 1 : 0;
}
''')
seed("C05-reciprocal-beta", "C05", [("srreal/PointsInSphere.cpp", "    swap(rec.cb, rec.cbr);\n", "")],
     "reflections of a lattice with beta different from 90 degrees", "reciprocal lattice parameters keep the direct cosine of beta", r'''
#include <diffpy/srreal/PointsInSphere.hpp>
#include <cmath>
int main()
{
    ReflectionsInQminQmax r(0.1, 3, 3, 4, 5, 90, 105, 90);
    double a = 3, c = 5, cb = cos(105 * M_PI / 180), s2 = 1 - cb * cb;
    for (; !r.finished(); r.next()) {
        double q = 2 * M_PI * sqrt((r.h() * r.h() / (a * a) + r.l() * r.l() / (c * c) - 2 * r.h() * r.l() * cb / (a * c)) / s2 + r.k() * r.k() / 16.0);
        OK(fabs(q - r.Q()) < 1e-8);
    }
    return bad ? 1 : 0;
}
''')
