// Scalar reference semantics (two's complement wrap for integers, IEEE for floating point).
#ifndef REF_H
#define REF_H
#include <type_traits>
#include <limits>
namespace mc {
template <class T, class = void> struct Ref;
template <class T> struct Ref<T, typename std::enable_if<std::is_integral<T>::value>::type> {
    typedef unsigned long long W;
    static T add(T a, T b) { return T(W(a) + W(b)); }
    static T sub(T a, T b) { return T(W(a) - W(b)); }
    static T mul(T a, T b) { return T(W(a) * W(b)); }
    static bool divok(T a, T b) { return b != 0 && !(std::is_signed<T>::value && a == std::numeric_limits<T>::min() && b == T(-1)); }
    static T div(T a, T b) { return divok(a, b) ? T((long long)(a) / (long long)(b)) : T(0); }
    static T rem(T a, T b) { return divok(a, b) ? T((long long)(a) % (long long)(b)) : T(0); }
    static T neg(T a) { return T(W(0) - W(a)); }
    static T band(T a, T b) { return T(a & b); }
    static T bor(T a, T b) { return T(a | b); }
    static T bxor(T a, T b) { return T(a ^ b); }
    static T shl(T a, T b) { return T(W(a) << b); }
    static T shr(T a, T b) { return T(a >> b); }
};
template <class T> struct Ref<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
    static T add(T a, T b) { return a + b; }
    static T sub(T a, T b) { return a - b; }
    static T mul(T a, T b) { return a * b; }
    static bool divok(T, T) { return true; }
    static T div(T a, T b) { return a / b; }
    static T neg(T a) { return -a; }
};
}
#endif
