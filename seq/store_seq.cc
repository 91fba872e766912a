// C09: for every sequence of up to three argument types (and string lengths / precisions) the space computed for a call is exactly what storing the
// arguments writes, nothing outside it is touched, and compressing consumes exactly that space.
#include "loglib.h"
#include <tuple>
#include <array>
static uint64_t n = 0, bytes = 0;
template<class T> struct V { static std::vector<std::pair<T, ParamType>> get() { T a = (T)1, b = (T)-1; return {{a, NON_STRING}, {b, NON_STRING}}; } };
template<> struct V<const void *> { static std::vector<std::pair<const void *, ParamType>> get() { return {{&n, NON_STRING}}; } };
static const char *S[] = {"", "a", "hello"}; static const wchar_t *W[] = {L"", L"b", L"wide"};
template<class T, class A> static std::vector<std::pair<T, ParamType>> strs(A &a) { std::vector<std::pair<T, ParamType>> r; for (auto s : a) { r.push_back({(T)s, STRING_WITH_NO_PRECISION}); } r.push_back({(T)a[2], ParamType(0)}); r.push_back({(T)a[2], ParamType(3)}); r.push_back({(T)a[1], ParamType(9)}); r.push_back({(T)a[2], NON_STRING}); return r; }
template<> struct V<const char *> { static auto get() { return strs<const char *>(S); } };
template<> struct V<char *> { static auto get() { return strs<char *>(S); } };
template<> struct V<const wchar_t *> { static auto get() { return strs<const wchar_t *>(W); } };
template<class... Ts> static void run(const std::array<ParamType, sizeof...(Ts)> &pt, Ts... a) {
    char buf[512], out[1024]; memset(buf, 0x5a, sizeof buf); memset(out, 0x5a, sizeof out); uint64_t prec = -1; size_t sz[sizeof...(Ts) + 1] = {};
    size_t want = getArgSizes(pt, prec, sz, a...); char *p = buf + 128; store_arguments(pt, sz, &p, a...); ++n; bytes += want;
    std::string names = __PRETTY_FUNCTION__; names = names.substr(names.find("Ts =")); std::string in = names + " paramTypes"; for (auto t : pt) in += seq::fmt(" %d", (int)t);
    if (p != buf + 128 + want) seq::violation("store-size", in + seq::fmt(": %zu bytes computed, %zd stored", want, p - buf - 128));
    for (size_t i = 0; i < sizeof buf; ++i) if ((i < 128 || i >= 128 + want) && buf[i] != 0x5a) { seq::violation("store-outside", in + seq::fmt(": byte %zd outside the reserved %zu bytes written", (long)i - 128, want)); break; }
    int nib = 0; for (auto t : pt) nib += t <= NON_STRING; char *i = buf + 128, *o = out + 128; compress<Ts...>(nib, pt.data(), &i, &o);
    if (i != buf + 128 + want) seq::violation("compress-consumes", in + seq::fmt(": %zu bytes stored, compression consumed %zd", want, i - buf - 128));
    for (size_t k = 0; k < 128; ++k) if (out[k] != 0x5a) { seq::violation("compress-outside", in + ": bytes before the output written"); break; }
    if ((size_t)(o - out - 128) > 2 * want + 16) seq::violation("compress-size", in + ": more output than twice the input");
    if (n % 40009 == 7) seq::sample(in + seq::fmt(" -> %zu bytes", want));
}
template<class A> static void one() { for (auto &x : V<A>::get()) run<A>({x.second}, x.first); }
template<class A, class B> static void two() { for (auto &x : V<A>::get()) for (auto &y : V<B>::get()) run<A, B>({x.second, y.second}, x.first, y.first); }
template<class A, class B, class C> static void three() { for (auto &x : V<A>::get()) for (auto &y : V<B>::get()) for (auto &z : V<C>::get()) run<A, B, C>({x.second, y.second, z.second}, x.first, y.first, z.first); }
typedef std::tuple<char, int, double, long double, const void *, const char *, const wchar_t *> TL;
template<class A, class B, class... Cs> static void t3(std::tuple<Cs...>) { (three<A, B, Cs>(), ...); }
template<class A, class... Bs> static void t2(std::tuple<Bs...>) { (two<A, Bs>(), ...); (t3<A, Bs>(TL()), ...); }
template<class... As> static void t1(std::tuple<As...>) { (one<As>(), ...); (t2<As>(TL()), ...); }
int main(int argc, char **argv) {
    seq::init(argc, argv); auto &G = seq::g();
    t1(TL()); G.evals = G.nontrivial = n; G.transitions = 2 * n; G.states = bytes; G.info["bytes_reserved"] = std::to_string(bytes); return seq::finish();
}
