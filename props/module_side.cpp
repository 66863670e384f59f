// C13: one binary module. Compiled several times by different compilers with different settings.
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include "modops.hpp"

struct Lib {
	using S = ptl::string;
	using VI = ptl::vector<int>;
	using VS = ptl::vector<S>;
	using VW = ptl::vector<ModWide>;
	using OS = ptl::optional<S>;
	using OV = ptl::optional<VI>;
	using VO = ptl::vector<OS>;
	using AI = ptl::array<int, 8>;
	using X = ptl::variant<int, S, VI, AI>;
	using T = ptl::tuple<S, int, VI, char>;
	using A = ptl::array<S, 3>;
	using B = ptl::bitset<70>;
	template<std::size_t I, typename O> static auto & get(O & t) { return t.template get<I>(); }
	template<typename E> static bool holds(const X & x) { return x.holds<E>(); }
	template<typename E> static E & of(X & x) { return x.get<E>(); }
	template<typename F> static void visit(F && f, const X & x) { x.visit(f); }
	template<typename O> static void swap(O & a, O & b) { a.swap(b); }
	static void swap(B & a, B & b) { using std::swap; swap(a, b); }
};
using Here = Side<Lib>;

static int self = -1;
static const ModHost * host = nullptr;

// ---- everything this module allocates is reported
extern "C" {
	void * __real_malloc(std::size_t);
	void * __real_calloc(std::size_t, std::size_t);
	void * __real_realloc(void *, std::size_t);
	void __real_free(void *);
	void * __real__Znwm(std::size_t);
	void * __real__Znam(std::size_t);
	void __real__ZdlPv(void *);
	void __real__ZdaPv(void *);
	void * __real__ZnwmSt11align_val_t(std::size_t, std::align_val_t);
	void * __real__ZnamSt11align_val_t(std::size_t, std::align_val_t);
	void __real__ZdlPvSt11align_val_t(void *, std::align_val_t);
	void __real__ZdaPvSt11align_val_t(void *, std::align_val_t);

	static void * got(void * p, std::size_t n, int kind) { if(p && host) host->allocated(self, kind, p, n); return p; }
	static bool may_free(void * p, int kind) { return p && (!host || host->released(self, kind, p)); }
	void * __wrap_malloc(std::size_t n) { return got(__real_malloc(n), n, 0); }
	void * __wrap_calloc(std::size_t a, std::size_t b) { return got(__real_calloc(a, b), a * b, 0); }
	void __wrap_free(void * p) { if(may_free(p, 0)) __real_free(p); }
	void * __wrap_realloc(void * p, std::size_t n) {
		if(p && !may_free(p, 0)) return nullptr;
		return got(__real_realloc(p, n), n, 0);
	}
	void * __wrap__Znwm(std::size_t n) { return got(__real__Znwm(n), n, 1); }
	void * __wrap__Znam(std::size_t n) { return got(__real__Znam(n), n, 2); }
	void __wrap__ZdlPv(void * p) { if(may_free(p, 1)) __real__ZdlPv(p); }
	void __wrap__ZdaPv(void * p) { if(may_free(p, 2)) __real__ZdaPv(p); }
	void __wrap__ZdlPvm(void * p, std::size_t) { if(may_free(p, 1)) __real__ZdlPv(p); }
	void __wrap__ZdaPvm(void * p, std::size_t) { if(may_free(p, 2)) __real__ZdaPv(p); }
	void * __wrap__ZnwmSt11align_val_t(std::size_t n, std::align_val_t a) { return got(__real__ZnwmSt11align_val_t(n, a), n, 3); }
	void * __wrap__ZnamSt11align_val_t(std::size_t n, std::align_val_t a) { return got(__real__ZnamSt11align_val_t(n, a), n, 4); }
	void __wrap__ZdlPvSt11align_val_t(void * p, std::align_val_t a) { if(may_free(p, 3)) __real__ZdlPvSt11align_val_t(p, a); }
	void __wrap__ZdaPvSt11align_val_t(void * p, std::align_val_t a) { if(may_free(p, 4)) __real__ZdaPvSt11align_val_t(p, a); }
	void __wrap__ZdlPvmSt11align_val_t(void * p, std::size_t, std::align_val_t a) { if(may_free(p, 3)) __real__ZdlPvSt11align_val_t(p, a); }
	void __wrap__ZdaPvmSt11align_val_t(void * p, std::size_t, std::align_val_t a) { if(may_free(p, 4)) __real__ZdaPvSt11align_val_t(p, a); }
}

// ---- reference types
using AR = ptl::array_ref<int>; using CAR = ptl::array_ref<const int>; using SR = ptl::string_ref; using OR = ptl::optional_ref<int>; using VR = ptl::variant_ref<int, const char, double>;
using FR = ptl::function_ref<long(long)>; using FN = ptl::function_ref<long(long) const noexcept>;
struct Functor {
	int which; long factor;
	long operator()(long x) const noexcept { host->called(self, which, x); return x * factor + self * 1000 + which; }
};
static Functor functors[4]{{0, 3}, {1, 5}, {2, 7}, {3, 11}};
static long plain4(long x) noexcept { host->called(self, 4, x); return x * 13 + self * 1000 + 4; }
static long plain5(long x) noexcept { host->called(self, 5, x); return x * 17 + self * 1000 + 5; }
template<typename F> static void make_fn(void * r, std::size_t n) {
	if(n % mod_functors < 4) new(r) F{functors[n % mod_functors]};
	else new(r) F{n % mod_functors == 4 ? plain4 : plain5};
}
static void ref_make(int type, void * r, void * p, std::size_t n, int how) {
	switch(type) {
		case 0: if(how & 1) new(r) AR{static_cast<int *>(p), n}; else new(r) AR{static_cast<int *>(p), static_cast<int *>(p) + n}; break;
		case 1: if(how & 1) new(r) CAR{static_cast<int *>(p), n}; else new(r) CAR{AR{static_cast<int *>(p), n}}; break;
		case 2: if(how & 1) new(r) SR{static_cast<const char *>(p), n}; else new(r) SR{std::string_view{static_cast<const char *>(p), n}}; break;
		case 3: if(!p) new(r) OR{}; else new(r) OR{*static_cast<int *>(p)}; break;
		case 4: switch(how % 3) { case 0: new(r) VR{*static_cast<int *>(p)}; break; case 1: new(r) VR{*static_cast<const char *>(p)}; break; default: new(r) VR{*static_cast<double *>(p)}; } break;
		case 5: make_fn<FR>(r, n); break;
		default: make_fn<FN>(r, n); break;
	}
}
template<typename A> static void list(ModOut & o, const A & r) { o.num(static_cast<long>(r.size())); for(const auto e : r) o.num(e); if(!r.empty()) { o.num(r.front()); o.num(r.back()); o.num(r.at(r.size() / 2)); } }
static void ref_show(ModOut & o, const AR & r, const ModArgs &) { list(o, r); }
static void ref_show(ModOut & o, const CAR & r, const ModArgs &) { list(o, r); }
static void ref_show(ModOut & o, const SR & r, const ModArgs &) { list(o, r); }
static void ref_show(ModOut & o, const OR & r, const ModArgs &) { o.num(r ? *r : -1); }
static void ref_show(ModOut & o, const VR & r, const ModArgs &) { o.num(r.holds<int>() ? 0 : r.holds<const char>() ? 1 : r.holds<double>() ? 2 : 3); r.visit([&](auto & v) { o.num(static_cast<long>(v)); }); }
static void ref_show(ModOut & o, const FR & r, const ModArgs & a) { o.num(r(static_cast<long>(a.c))); }
static void ref_show(ModOut & o, const FN & r, const ModArgs & a) { o.num(r(static_cast<long>(a.c))); }
static void ref_write(AR & r, const ModArgs & a) { if(!r.empty()) r[a.a % r.size()] = static_cast<int>(a.b); }
static void ref_write(CAR & r, const ModArgs & a) { const auto k = a.a % (r.size() + 1); r = r.subrange(k, a.b % (r.size() - k + 1)); }
static void ref_write(SR & r, const ModArgs & a) { r.remove_prefix(a.a % (r.size() + 1)); }
static void ref_write(OR & r, const ModArgs & a) { if(r) *r = static_cast<int>(a.b); }
static void ref_write(VR & r, const ModArgs & a) { if(const auto p = r.get_if<int>()) *p = static_cast<int>(a.b); }
static void ref_write(FR & r, const ModArgs & a) { const auto k = a.a % 4; FR t{functors[k]}; r = t; }
static void ref_write(FN & r, const ModArgs & a) { const auto k = a.a % 4; FN t{functors[k]}; r = t; }
template<typename R> static void ref_any(int code, void * r, void * q, const ModArgs & a, ModOut & o) {
	R & x = *static_cast<R *>(r), & y = *static_cast<R *>(q);
	switch(code) {
		case 0: ref_show(o, x, a); break;
		case 1: x = y; break;                   // copy assignment
		case 2: { R t{x}; ref_show(o, t, a); break; } // a copy
		case 3: new(r) R{static_cast<const R &>(y)}; break;
		case 4: { using std::swap; swap(x, y); break; }
		default: ref_write(x, a); break;
	}
}
static void ref_op(int type, int code, void * r, void * q, const ModArgs * a, ModOut * o) {
	switch(type) {
		case 0: ref_any<AR>(code, r, q, *a, *o); break;
		case 1: ref_any<CAR>(code, r, q, *a, *o); break;
		case 2: ref_any<SR>(code, r, q, *a, *o); break;
		case 3: ref_any<OR>(code, r, q, *a, *o); break;
		case 4: ref_any<VR>(code, r, q, *a, *o); break;
		case 5: ref_any<FR>(code, r, q, *a, *o); break;
		default: ref_any<FN>(code, r, q, *a, *o); break;
	}
}
static void init(int index, const ModHost * h) { self = index; host = h; }

extern "C" __attribute__((visibility("default"))) const ModApi * ptl_module() {
	static ModApi api{};
	if(api.name) return &api;
	for(int t = 0; t < mod_types; ++t) {
		Here::with(t, [&](auto * p) { using O = std::remove_pointer_t<decltype(p)>; api.sizes[t] = sizeof(O); api.aligns[t] = alignof(O); });
		api.codes[t] = Here::codes[t] + l_own;
	}
	const std::size_t sizes[]{sizeof(AR), sizeof(CAR), sizeof(SR), sizeof(OR), sizeof(VR), sizeof(FR), sizeof(FN)}, aligns[]{alignof(AR), alignof(CAR), alignof(SR), alignof(OR), alignof(VR), alignof(FR), alignof(FN)};
	for(int t = 0; t < mod_refs; ++t) { api.ref_sizes[t] = sizes[t]; api.ref_aligns[t] = aligns[t]; }
	api.init = init;
	api.op = Here::op;
	api.show = Here::show_any;
	api.ref_make = ref_make;
	api.ref_op = ref_op;
	api.name = MODULE_NAME;
	return &api;
}
