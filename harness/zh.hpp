// Shared by the generated harnesses: bit-level access to zcm values that does
// not go through the library, and (under ZH_MAIN) the native replay driver.
#pragma once
#include <cstdint>
#include <cstring>
#ifdef ZH_THREADS
#include <thread>
#include <vector>
#endif
#include <zcm/angle_and_trigonometry.hpp>
#include <zcm/bvec2.hpp>
#include <zcm/bvec3.hpp>
#include <zcm/bvec4.hpp>
#include <zcm/color_space.hpp>
#include <zcm/common.hpp>
#include <zcm/component_wise.hpp>
#include <zcm/constants.hpp>
#include <zcm/exponential.hpp>
#include <zcm/geometric.hpp>
#include <zcm/hash.hpp>
#include <zcm/init.hpp>
#include <zcm/ivec2.hpp>
#include <zcm/ivec3.hpp>
#include <zcm/ivec4.hpp>
#include <zcm/mat2.hpp>
#include <zcm/mat3.hpp>
#include <zcm/mat4.hpp>
#include <zcm/matrix.hpp>
#include <zcm/matrix_transform.hpp>
#include <zcm/quat.hpp>
#include <zcm/quaternion.hpp>
#include <zcm/type_ptr.hpp>
#include <zcm/vec2.hpp>
#include <zcm/vec3.hpp>
#include <zcm/vec4.hpp>

using namespace zcm;

namespace zh {
template <class V> union hold { V v; char c; hold() : c(0) {} ~hold() {} };

// value of type V whose object representation is the words at p
template <class V, class E> inline V ld(const E *p)
{
    hold<V> h;
    std::memcpy((void *)&h.v, (const void *)p, sizeof(V));
    return h.v;
}
template <class V, class E> inline void st(E *p, const V &v) { std::memcpy((void *)p, (const void *)&v, sizeof(V)); }

template <class B> inline B ldb(const int32_t *p)
{
    hold<B> h;
    unsigned char *q = (unsigned char *)&h.v;
    for (unsigned i = 0; i < sizeof(B); i++) q[i] = (unsigned char)(p[i] & 1);
    return h.v;
}
template <class B> inline void stb(int64_t *k, const B &v)
{
    const unsigned char *q = (const unsigned char *)&v;
    for (unsigned i = 0; i < sizeof(B); i++) k[i] = (int64_t)q[i];
}
template <class I> inline void sti(int64_t *k, const I &v)
{
    int32_t t[sizeof(I) / 4];
    std::memcpy(t, (const void *)&v, sizeof(I));
    for (unsigned i = 0; i < sizeof(I) / 4; i++) k[i] = t[i];
}
// component i of a float aggregate, as an lvalue inside the object
template <class V> inline float &word(V &v, int i) { return ((float *)(void *)&v)[i]; }
// the object at p may be in use by other calls from now on
extern "C" void zh_share(const void *p);
inline void zh_use(const void *p) { volatile const char *c = (volatile const char *)p; (void)*c; }
template <class V> inline void share(const V &v) { zh_share((const void *)&v); }
#ifdef ZH_THREADS
// f called from two threads at once, each with results of its own
template <class F> void together(F f, float *r, int64_t *k, int nr, int nk)
{
    std::vector<float> r2(nr + 1);
    std::vector<int64_t> k2(nk + 1);
    std::thread one([&] { f(r, k); }), two([&] { f(r2.data(), k2.data()); });
    one.join();
    two.join();
}
#else
template <class F> inline void together(F f, float *r, int64_t *k, int, int) { f(r, k); }
#endif
}
using zh::zh_use; using zh::word; using zh::ld; using zh::ldb; using zh::st; using zh::sti; using zh::stb;
