// forces instantiation of the template members of Lattice and R3
#include <diffpy/srreal/Lattice.hpp>
namespace verif_tu {
using namespace diffpy::srreal;
double use(const Lattice& L, const R3::Vector& u, const R3::Vector& v, const R3::Matrix& M)
{
    return L.dot(u, v) + L.norm(u) + L.distance(u, v) + L.angledeg(u, v) + L.anglerad(u, v)
        + R3::norm(u) + R3::distance(u, v) + R3::dot(u, v) + R3::cross(u, v)[0]
        + R3::mxvecproduct(M, u)[0] + R3::mxvecproduct(u, M)[0] + R3::floor(u)[0] + (u == v) + (u != v) + (M == M) + (M != M);
}
}
