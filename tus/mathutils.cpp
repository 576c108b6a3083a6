// forces instantiation of the header-only code of diffpy/mathutils
#include <vector>
#include <diffpy/mathutils.hpp>
namespace verif_tu {
double use(double x, const std::vector<double>& u, const std::vector<double>& v)
{
    using namespace diffpy::mathutils;
    EpsilonLess lt; EpsilonEqual eq;
    return cosd(x) + sind(x) + acosd(x) + asind(x) + eps_eq(x, 1) + eps_gt(x, 1) + eps_lt(x, 1)
        + lt(x, x) + eq(x, x) + lt(u, v) + eq(u, v);
}
}
