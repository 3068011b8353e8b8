// Word-level kernels whose correctness is established on paper (DESIGN.md, N07/N08). The library's kernels are compared with these by
// global value numbering: same outcome for the same conditions, whatever the order of statements, temporaries and helpers.
#include <cstdint>
#include <utility>
typedef unsigned __int128 u128;
namespace ref {
// floor((2^128-1)/pn) - 2^64 for pn with its top bit set (Moeller, Granlund 2011, definition of the reciprocal)
uint64_t preinvert_a(uint64_t pn) { u128 num = ((u128)(~pn) << 64) | ~(uint64_t)0; return (uint64_t)(num / pn); }
uint64_t preinvert_b(uint64_t pn) { return (uint64_t)((u128)(~(u128)0) / pn - ((u128)1 << 64)); }
uint64_t preinvert_c(uint64_t pn) { return (uint64_t)((u128)(~(u128)0) / pn); }

void precompute_a(uint64_t p, uint64_t& ninv, uint32_t& norm)
{
    if (p == 0) { ninv = 0; norm = 0; return; }
    norm = (uint32_t)__builtin_clzll(p);
    ninv = preinvert_a(p << norm);
}

// 2/1 division remainder by a precomputed reciprocal (Moeller, Granlund 2011, algorithm 4); u1 < d
static inline uint64_t rem21(uint64_t u1, uint64_t u0, uint64_t d, uint64_t v)
{
    u128 qm = (u128)u1 * v;
    uint64_t q1 = (uint64_t)(qm >> 64), q0 = (uint64_t)qm;
    q0 += u0;
    q1 += u1 + (q0 < u0 ? 1 : 0);
    uint64_t r = u0 - (q1 + 1) * d;
    if (r > q0) r += d;
    if (r >= d) r -= d;
    return r;
}
// the same with the sum <q1,q0> formed in 128 bits
static inline uint64_t rem21b(uint64_t u1, uint64_t u0, uint64_t d, uint64_t v)
{
    u128 q = (u128)u1 * v + (((u128)u1 << 64) | u0);
    uint64_t q1 = (uint64_t)(q >> 64), q0 = (uint64_t)q;
    uint64_t r = u0 - (q1 + 1) * d;
    if (r > q0) r += d;
    if (r >= d) r -= d;
    return r;
}
static inline uint64_t rem21c(uint64_t u1, uint64_t u0, uint64_t d, uint64_t v)
{
    u128 q = (u128)u1 * v + (((u128)u1 << 64) + u0);
    uint64_t q1 = (uint64_t)(q >> 64), q0 = (uint64_t)q;
    uint64_t r = u0 - (q1 + 1) * d;
    if (r > q0) r += d;
    if (r >= d) r -= d;
    return r;
}
// a, b < p; (a 2^norm) b = (a b) 2^norm has high word below p 2^norm
uint64_t mulmod_a(uint64_t a, uint64_t b, uint64_t p, uint64_t ninv, uint32_t norm)
{ u128 t = (u128)(a << norm) * b; return rem21((uint64_t)(t >> 64), (uint64_t)t, p << norm, ninv) >> norm; }
uint64_t mulmod_b(uint64_t a, uint64_t b, uint64_t p, uint64_t ninv, uint32_t norm)
{ u128 t = (u128)(a << norm) * b; return rem21b((uint64_t)(t >> 64), (uint64_t)t, p << norm, ninv) >> norm; }
uint64_t mulmod_c(uint64_t a, uint64_t b, uint64_t p, uint64_t ninv, uint32_t norm)
{ return (uint64_t)((u128)a * b % p); }
uint64_t mulmod_d(uint64_t a, uint64_t b, uint64_t p, uint64_t ninv, uint32_t norm)
{ u128 t = (u128)(b << norm) * a; return rem21((uint64_t)(t >> 64), (uint64_t)t, p << norm, ninv) >> norm; }
uint64_t mulmod_e(uint64_t a, uint64_t b, uint64_t p, uint64_t ninv, uint32_t norm)
{ u128 t = (u128)(a << norm) * b; return rem21c((uint64_t)(t >> 64), (uint64_t)t, p << norm, ninv) >> norm; }
// u1 v + <u1,u0> with <u1,u0> the product itself
static inline uint64_t rem21w(u128 t, uint64_t d, uint64_t v)
{
    u128 q = (u128)(uint64_t)(t >> 64) * v + t;
    uint64_t q1 = (uint64_t)(q >> 64), q0 = (uint64_t)q;
    uint64_t r = (uint64_t)t - (q1 + 1) * d;
    if (r > q0) r += d;
    if (r >= d) r -= d;
    return r;
}
uint64_t mulmod_f(uint64_t a, uint64_t b, uint64_t p, uint64_t ninv, uint32_t norm)
{ return rem21w((u128)(a << norm) * b, p << norm, ninv) >> norm; }

// (hi, mid, lo) mod p for hi < p: two 2/1 steps on normalised words
uint64_t mod3_a(uint64_t hi, uint64_t mid, uint64_t lo, uint64_t p, uint64_t ninv, uint32_t norm)
{
    uint64_t h = hi << norm;
    if (norm > 0) h |= (mid >> (64 - norm));
    uint64_t r = rem21(h, mid << norm, p << norm, ninv) >> norm;
    uint64_t g = r << norm;
    if (norm > 0) g |= (lo >> (64 - norm));
    return rem21(g, lo << norm, p << norm, ninv) >> norm;
}
// the first remainder is left normalised (its low bits are zero, so no shifting back and forth)
uint64_t mod3_b(uint64_t hi, uint64_t mid, uint64_t lo, uint64_t p, uint64_t ninv, uint32_t norm)
{
    uint64_t h = hi << norm;
    if (norm > 0) h |= (mid >> (64 - norm));
    uint64_t g = rem21(h, mid << norm, p << norm, ninv);
    if (norm > 0) g |= (lo >> (64 - norm));
    return rem21(g, lo << norm, p << norm, ninv) >> norm;
}
uint64_t mod3_c(uint64_t hi, uint64_t mid, uint64_t lo, uint64_t p, uint64_t ninv, uint32_t norm)
{
    uint64_t r = (uint64_t)((((u128)hi << 64) | mid) % p);
    return (uint64_t)((((u128)r << 64) | lo) % p);
}

// extended Euclid; invariants: b = s2 i, a = s1 i (mod p), gcd(a,b) = gcd(i,p); ends with b = gcd
uint64_t inverse_a(uint64_t i, uint64_t p)
{
    uint64_t a = p, b = i, c;
    uint64_t s1 = 0, s2 = 1, s3;
    while ((c = a % b))
    {
        uint64_t q = a / b;
        uint64_t m = (u128)s2 * q % p;
        s3 = s1 >= m ? s1 - m : p - m + s1;
        a = b; b = c;
        s1 = s2; s2 = s3;
    }
    return s2;
}
uint64_t inverse_b(uint64_t i, uint64_t p)
{
    uint64_t a = p, b = i;
    uint64_t s1 = 0, s2 = 1;
    while (a % b != 0)
    {
        uint64_t q = a / b, c = a - q * b;
        uint64_t m = (u128)s2 * q % p;
        uint64_t s3 = s1 >= m ? s1 - m : p - m + s1;
        a = b; b = c;
        s1 = s2; s2 = s3;
    }
    return s2;
}
// the remainder formed before the loop and again at its end
uint64_t inverse_r(uint64_t i, uint64_t p)
{
    uint64_t a = p, b = i, c = a % b;
    uint64_t s1 = 0, s2 = 1;
    while (c)
    {
        uint64_t m = (u128)s2 * (a / b) % p;
        uint64_t s3 = s1 >= m ? s1 - m : p - m + s1;
        a = b; b = c;
        s1 = s2; s2 = s3;
        c = a % b;
    }
    return s2;
}
// runs one step further: ends with b = 0, a = gcd
uint64_t inverse_c(uint64_t i, uint64_t p)
{
    uint64_t a = p, b = i;
    uint64_t s1 = 0, s2 = 1;
    while (b != 0)
    {
        uint64_t q = a / b, c = a % b;
        uint64_t m = (u128)s2 * q % p;
        uint64_t s3 = s1 >= m ? s1 - m : p - m + s1;
        a = b; b = c;
        s1 = s2; s2 = s3;
    }
    return s1;
}
// a, b < p
uint64_t add_a(uint64_t a, uint64_t b, uint64_t p) { uint64_t n = p - a; return n > b ? a + b : b - n; }
uint64_t add_b(uint64_t a, uint64_t b, uint64_t p) { uint64_t n = p - b; return a >= n ? a - n : a + b; }
uint64_t add_c(uint64_t a, uint64_t b, uint64_t p) { uint64_t s = a + b; if (s < a || s >= p) s -= p; return s; }
uint64_t add_d(uint64_t a, uint64_t b, uint64_t p) { return (uint64_t)(((u128)a + b) % p); }
uint64_t add_e(uint64_t a, uint64_t b, uint64_t p) { u128 s = (u128)a + b; if (s >= p) s -= p; return (uint64_t)s; }
uint64_t add_f(uint64_t a, uint64_t b, uint64_t p) { uint64_t s = a + b; if (s < b || s >= p) s -= p; return s; }
uint64_t sub_a(uint64_t a, uint64_t b, uint64_t p) { return a >= b ? a - b : p - b + a; }

struct word3 { uint64_t lo, mid, hi; };
void umul_a(uint64_t& hi, uint64_t& lo, uint64_t a, uint64_t b) { u128 t = (u128)a * b; lo = (uint64_t)t; hi = (uint64_t)(t >> 64); }
}
