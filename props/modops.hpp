// C13: what crosses the module boundary, and the operations, written once for PTL (in the modules) and for the standard library (the model).
#pragma once
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <new>
#include <stdexcept>
#include <string_view>
#include <utility>

struct ModArgs { std::size_t a, b, c; const char * text; std::size_t size; };
struct ModOut {
	char buf[16384];
	std::size_t size;
	void put(const void * p, std::size_t n) { for(std::size_t i = 0; i < n && size < sizeof buf; ++i) buf[size++] = static_cast<const char *>(p)[i]; }
	void put(const char * p) { put(p, std::strlen(p)); }
	void num(long v) { char t[32]; std::snprintf(t, sizeof t, "%ld ", v); put(t); }
};
struct ModHost {
	void (*allocated)(int module, int kind, void * p, std::size_t n);
	bool (*released)(int module, int kind, void * p); // false: not to be released after all
	void (*called)(int module, int which, long argument);
};
constexpr int mod_types = 11, mod_refs = 7, mod_functors = 6;
struct ModApi {
	const char * name;
	std::size_t sizes[mod_types], aligns[mod_types], ref_sizes[mod_refs], ref_aligns[mod_refs];
	int codes[mod_types];
	void (*init)(int index, const ModHost * host);
	int (*op)(int type, int code, void * x, void * y, const ModArgs * args, ModOut * out);
	void (*show)(int type, const void * x, ModOut * out);
	void (*ref_make)(int type, void * r, void * p, std::size_t n, int how);
	void (*ref_op)(int type, int code, void * r, void * q, const ModArgs * args, ModOut * out);
};
enum Life { l_construct, l_copy, l_move, l_copy_assign, l_move_assign, l_swap, l_destroy, l_compare, l_own }; // operations every type has; its own ones follow

struct ModWide { alignas(64) int v; int pad[3]; // over-aligned
	friend bool operator==(const ModWide & a, const ModWide & b) { return a.v == b.v; }
	friend bool operator!=(const ModWide & a, const ModWide & b) { return a.v != b.v; }
	friend bool operator< (const ModWide & a, const ModWide & b) { return a.v <  b.v; }
	friend bool operator<=(const ModWide & a, const ModWide & b) { return a.v <= b.v; }
	friend bool operator> (const ModWide & a, const ModWide & b) { return a.v >  b.v; }
	friend bool operator>=(const ModWide & a, const ModWide & b) { return a.v >= b.v; } };

// L: the library
template<typename L>
struct Side {
	using S = typename L::S; using VI = typename L::VI; using VS = typename L::VS; using VW = typename L::VW; using OS = typename L::OS; using OV = typename L::OV;
	using X = typename L::X; using T = typename L::T; using A = typename L::A; using B = typename L::B; using VO = typename L::VO; using AI = typename L::AI;
	using View = std::string_view;

	static View view(const ModArgs & a) { return {a.text, a.size}; }
	static S make_s(const ModArgs & a) { const auto v = view(a); return S(v.begin(), v.end()); }
	static int make_i(const ModArgs & a) { return static_cast<int>(a.a * 31 + a.size); }
	static VI make_vi(const ModArgs & a) { VI r; for(std::size_t i = 0; i < a.size; ++i) r.push_back(static_cast<int>(a.a + i) * (a.text[i] + 3)); return r; }
	static VS make_vs(const ModArgs & a) { VS r; for(std::size_t i = 0; i < a.b % 14; ++i) { const auto v = view(a).substr(a.size * i / 14); r.push_back(S(v.begin(), v.end())); } return r; }
	static VW make_vw(const ModArgs & a) { VW r; for(std::size_t i = 0; i < a.b % 25; ++i) r.push_back(ModWide{static_cast<int>(a.a + i), {}}); return r; }
	static OS make_os(const ModArgs & a) { OS r; if(a.b % 4) r = make_s(a); return r; }
	static OV make_ov(const ModArgs & a) { OV r; if(a.b % 4) r = make_vi(a); return r; }
	static VO make_vo(const ModArgs & a) { VO r; for(std::size_t i = 0; i < a.b % 12; ++i) { OS o; if(a.c >> i & 1) { const auto v = view(a).substr(a.size * i / 12); o = S(v.begin(), v.end()); } r.push_back(o); } return r; }
	static AI make_ai(const ModArgs & a) { AI r{}; for(std::size_t i = 0; i < r.size(); ++i) r[i] = static_cast<int>(a.a * 7 + i); return r; }
	static X make_x(const ModArgs & a) { switch(a.b % 4) { case 0: return X{make_i(a)}; case 1: return X{make_s(a)}; case 2: return X{make_vi(a)}; default: return X{make_ai(a)}; } }

	static void show(ModOut & o, int v) { o.num(v); }
	static void show(ModOut & o, const ModWide & v) { o.num(v.v); }
	static void show(ModOut & o, const S & s) { o.put("\""); o.put(s.data(), s.size()); o.put(s.c_str()[s.size()] == 0 ? "\" " : "\"! "); o.num(static_cast<long>(std::hash<S>{}(s))); }
	template<typename V> static void list(ModOut & o, const V & v) { o.put("["); o.num(static_cast<long>(v.size())); for(const auto & e : v) show(o, e); o.put("] "); if(!v.empty()) { show(o, v.front()); show(o, v.back()); show(o, v[v.size() / 2]); } }
	static void show(ModOut & o, const VI & v) { list(o, v); }
	static void show(ModOut & o, const VS & v) { list(o, v); }
	static void show(ModOut & o, const VW & v) { list(o, v); for(const auto & e : v) if(reinterpret_cast<unsigned long>(&e) % 64) o.put("misplaced"); }
	static void show(ModOut & o, const VO & v) { list(o, v); }
	static void show(ModOut & o, const OS & v) { if(v) { o.put("some "); show(o, *v); } else o.put("none "); }
	static void show(ModOut & o, const OV & v) { if(v.has_value()) { o.put("some "); show(o, v.value()); } else o.put("none "); }
	static void show(ModOut & o, const AI & v) { for(const int e : v) o.num(e); }
	static void show(ModOut & o, const X & v) {
		o.num(L::template holds<int>(v) ? 0 : L::template holds<S>(v) ? 1 : L::template holds<VI>(v) ? 2 : L::template holds<AI>(v) ? 3 : 4);
		L::visit([&](const auto & e) { show(o, e); }, v);
	}
	static void show(ModOut & o, const T & t) { show(o, L::template get<0>(t)); show(o, L::template get<1>(t)); show(o, L::template get<2>(t)); o.num(L::template get<3>(t)); }
	static void show(ModOut & o, const A & a) { o.num(static_cast<long>(a.size())); for(const auto & e : a) show(o, e); show(o, a.at(1)); show(o, a.front()); show(o, a.back()); }
	static void show(ModOut & o, const B & b) { for(std::size_t i = 0; i < b.size(); ++i) o.put(b.test(i) ? "1" : "0"); o.num(static_cast<long>(b.count())); o.num(b.any() + 2 * b.none() + 4 * b.all()); }

	static constexpr int codes[mod_types]{13, 13, 9, 6, 5, 3, 6, 6, 4, 9, 4};
	// the types' own operations; a: arguments; y: another object (or the same)
	static void own(int code, S & x, S & y, const ModArgs & a, ModOut &) {
		const auto n = x.size(), p = a.a % (n + 1), q = p + a.b % (n - p + 1);
		const auto at = [&](std::size_t i) { return x.begin() + static_cast<std::ptrdiff_t>(i); };
		switch(code) {
			case 0: x = make_s(a); break;
			case 1: x.append(view(a)); break;
			case 2: for(std::size_t i = 0; i < a.c % 30; ++i) x.push_back(static_cast<char>(a.a + i)); break;
			case 3: if(n) x.pop_back(); break;
			case 4: { const auto v = view(a); x.insert(at(p), v.begin(), v.end()); break; }
			case 5: x.erase(at(p), at(q)); break;
			case 6: x.resize(a.c % 200, 'r'); break;
			case 7: x.reserve(a.c % 200); break;
			case 8: x.shrink_to_fit(); break;
			case 9: x.clear(); break;
			case 10: { const auto v = view(a); x.replace(at(p), at(q), v.begin(), v.end()); break; }
			case 11: if(&x != &y) x.append(y.begin(), y.end()); break;
			default: if(n) x[a.a % n] = 'w'; break;
		}
	}
	static void own(int code, VI & x, VI & y, const ModArgs & a, ModOut &) {
		const auto n = x.size(), p = a.a % (n + 1), q = p + a.b % (n - p + 1);
		const auto at = [&](std::size_t i) { return x.begin() + static_cast<std::ptrdiff_t>(i); };
		switch(code) {
			case 0: { const auto v = make_vi(a); x.assign(v.begin(), v.end()); break; }
			case 1: for(std::size_t i = 0; i < a.c % 30; ++i) x.push_back(static_cast<int>(a.a + i)); break;
			case 2: x.emplace_back(make_i(a)); break;
			case 3: if(n) x.pop_back(); break;
			case 4: { const auto v = make_vi(a); x.insert(at(p), v.begin(), v.end()); break; }
			case 5: x.erase(at(p), at(q)); break;
			case 6: x.resize(a.c % 100, 9); break;
			case 7: x.reserve(a.c % 100); break;
			case 8: x.shrink_to_fit(); break;
			case 9: x.clear(); break;
			case 10: x.insert(at(p), a.c % 20, make_i(a)); break;
			case 11: if(&x != &y) x.insert(at(p), y.begin(), y.end()); break;
			default: x.emplace(at(p), make_i(a)); break;
		}
	}
	static void own(int code, VS & x, VS & y, const ModArgs & a, ModOut &) {
		const auto n = x.size(), p = a.a % (n + 1), q = p + a.b % (n - p + 1);
		const auto at = [&](std::size_t i) { return x.begin() + static_cast<std::ptrdiff_t>(i); };
		switch(code) {
			case 0: x.push_back(make_s(a)); break;
			case 1: x.insert(at(p), make_s(a)); break;
			case 2: x.erase(at(p), at(q)); break;
			case 3: if(n) { x[a.a % n].append(view(a)); } break;
			case 4: x.shrink_to_fit(); break;
			case 5: if(n < 60) x.insert(at(p), a.c % 15, make_s(a)); break;
			case 6: x.resize(a.c % 20); break;
			case 7: if(&x != &y && !y.empty()) { x.push_back(std::move(y.back())); y.pop_back(); } break;
			default: if(n) x.pop_back(); break;
		}
	}
	static void own(int code, VW & x, VW &, const ModArgs & a, ModOut &) {
		const auto n = x.size(), p = a.a % (n + 1), q = p + a.b % (n - p + 1);
		const auto at = [&](std::size_t i) { return x.begin() + static_cast<std::ptrdiff_t>(i); };
		switch(code) {
			case 0: x.push_back(ModWide{make_i(a), {}}); break;
			case 1: x.insert(at(p), a.c % 20, ModWide{make_i(a), {}}); break;
			case 2: x.erase(at(p), at(q)); break;
			case 3: x.shrink_to_fit(); break;
			case 4: x.reserve(a.c % 60); break;
			default: x.clear(); break;
		}
	}
	static void own(int code, VO & x, VO &, const ModArgs & a, ModOut &) {
		const auto n = x.size(), p = a.a % (n + 1), q = p + a.b % (n - p + 1);
		const auto at = [&](std::size_t i) { return x.begin() + static_cast<std::ptrdiff_t>(i); };
		switch(code) {
			case 0: x.push_back(make_os(a)); break;
			case 1: if(n < 60) x.insert(at(p), a.c % 12, make_os(a)); break;
			case 2: x.erase(at(p), at(q)); break;
			default: if(n) x[p == n ? 0 : p] = make_os(a); break;
		}
	}
	static void own(int code, OS & x, OS & y, const ModArgs & a, ModOut &) {
		switch(code) {
			case 0: x = make_s(a); break;
			case 1: x.reset(); break;
			case 2: { const auto v = view(a); x.emplace(v.begin(), v.end()); break; }
			case 3: if(x) x->append(view(a)); break;
			default: if(&x != &y && y) { x = std::move(*y); *y = make_s(a); } break;
		}
	}
	static void own(int code, OV & x, OV &, const ModArgs & a, ModOut &) {
		switch(code) {
			case 0: x = make_vi(a); break;
			case 1: x.reset(); break;
			default: if(x) x->push_back(make_i(a)); break;
		}
	}
	static void own(int code, X & x, X &, const ModArgs & a, ModOut &) {
		switch(code) {
			case 0: x = make_x(a); break;
			case 1: x = make_s(a); break;
			case 2: x = make_i(a); break;
			case 3: x.template emplace<2>(make_vi(a)); break;
			case 4: x = make_ai(a); break;
			default:
				if(L::template holds<S>(x)) L::template of<S>(x).append(view(a));
				else if(L::template holds<VI>(x)) L::template of<VI>(x).push_back(make_i(a));
				else if(L::template holds<AI>(x)) L::template of<AI>(x)[a.a % 8] = make_i(a);
				else L::template of<int>(x) += 1;
				break;
		}
	}
	static void own(int code, T & x, T & y, const ModArgs & a, ModOut &) {
		switch(code) {
			case 0: L::template get<0>(x) = make_s(a); break;
			case 1: L::template get<1>(x) = make_i(a); break;
			case 2: L::template get<2>(x) = make_vi(a); break;
			case 3: L::template get<0>(x).append(view(a)); break;
			case 4: L::template get<2>(x).push_back(make_i(a)); break;
			default: L::template get<3>(x) = static_cast<char>(a.a); L::template get<2>(x) = L::template get<2>(y); break;
		}
	}
	static void own(int code, A & x, A & y, const ModArgs & a, ModOut &) {
		switch(code) {
			case 0: x[a.a % 3] = make_s(a); break;
			case 1: x.fill(make_s(a)); break;
			case 2: x.at(a.a % 3).append(view(a)); break;
			default: if(&x != &y) x[a.a % 3] = y[a.b % 3]; break;
		}
	}
	static void own(int code, B & x, B & y, const ModArgs & a, ModOut &) {
		switch(code) {
			case 0: x.set(a.a % x.size()); break;
			case 1: x.flip(a.a % x.size()); break;
			case 2: x.reset(a.a % x.size()); break;
			case 3: x.flip(); break;
			case 4: x <<= a.a % 80; break;
			case 5: x >>= a.a % 80; break;
			case 6: x ^= y; break;
			case 7: x |= y; break;
			default: x = ~y; break;
		}
	}
	static void construct(S * p, const ModArgs & a) { new(p) S(make_s(a)); }
	static void construct(VI * p, const ModArgs & a) { new(p) VI(make_vi(a)); }
	static void construct(VS * p, const ModArgs & a) { new(p) VS(make_vs(a)); }
	static void construct(VW * p, const ModArgs & a) { new(p) VW(make_vw(a)); }
	static void construct(VO * p, const ModArgs & a) { new(p) VO(make_vo(a)); }
	static void construct(OS * p, const ModArgs & a) { new(p) OS(make_os(a)); }
	static void construct(OV * p, const ModArgs & a) { new(p) OV(make_ov(a)); }
	static void construct(X * p, const ModArgs & a) { new(p) X(make_x(a)); }
	static void construct(T * p, const ModArgs & a) { new(p) T{make_s(a), make_i(a), make_vi(a), static_cast<char>(a.b)}; }
	static void construct(A * p, const ModArgs & a) { new(p) A{make_s(a), S("fixed"), make_s(a)}; }
	static void construct(B * p, const ModArgs & a) { new(p) B(a.a * 0x9e3779b97f4a7c15u); }

	template<typename O>
	static void apply(int code, O * x, O * y, const ModArgs & a, ModOut & out) {
		switch(code) {
			case l_construct: construct(x, a); break;
			case l_copy: new(x) O(*static_cast<const O *>(y)); break;
			case l_move: new(x) O(std::move(*y)); break;
			case l_copy_assign: *x = *static_cast<const O *>(y); break;
			case l_move_assign: *x = std::move(*y); break;
			case l_swap: { using std::swap; if(a.a % 2) swap(*x, *y); else L::swap(*x, *y); break; }
			case l_destroy: x->~O(); break;
			case l_compare:
				out.num(*x == *y);
				out.num(*x != *y);
				if constexpr(!std::is_same_v<O, B>) { out.num(*x < *y); out.num(*x > *y); out.num(*x <= *y); out.num(*x >= *y); }
				break;
			default: own(code - l_own, *x, *y, a, out); break;
		}
	}
	template<typename F>
	static void with(int type, F f) {
		switch(type) {
			case 0: f(static_cast<S *>(nullptr)); break;
			case 1: f(static_cast<VI *>(nullptr)); break;
			case 2: f(static_cast<VS *>(nullptr)); break;
			case 3: f(static_cast<VW *>(nullptr)); break;
			case 4: f(static_cast<OS *>(nullptr)); break;
			case 5: f(static_cast<OV *>(nullptr)); break;
			case 6: f(static_cast<X *>(nullptr)); break;
			case 7: f(static_cast<T *>(nullptr)); break;
			case 8: f(static_cast<A *>(nullptr)); break;
			case 9: f(static_cast<B *>(nullptr)); break;
			default: f(static_cast<VO *>(nullptr)); break;
		}
	}
	static int op(int type, int code, void * x, void * y, const ModArgs * args, ModOut * out) {
		try { with(type, [&](auto * t) { using O = std::remove_pointer_t<decltype(t)>; apply(code, static_cast<O *>(x), static_cast<O *>(y), *args, *out); }); return 0; }
		catch(const std::length_error &) { return 1; }
		catch(const std::exception &) { return 2; }
	}
	static void show_any(int type, const void * x, ModOut * out) { with(type, [&](auto * t) { using O = std::remove_pointer_t<decltype(t)>; show(*out, *static_cast<const O *>(x)); }); }
};
