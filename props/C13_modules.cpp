// Objects travel between binary modules built by different compilers; this program itself does not use PTL.
#include "common.hpp"
#include "modops.hpp"
#include <array>
#include <bitset>
#include <cstdlib>
#include <dlfcn.h>
#include <map>
#include <optional>
#include <tuple>
#include <variant>
#include <vector>

struct Std {
	using S = std::string;
	using VI = std::vector<int>;
	using VS = std::vector<S>;
	using VW = std::vector<ModWide>;
	using OS = std::optional<S>;
	using OV = std::optional<VI>;
	using VO = std::vector<OS>;
	using AI = std::array<int, 8>;
	using X = std::variant<int, S, VI, AI>;
	using T = std::tuple<S, int, VI, char>;
	using A = std::array<S, 3>;
	using B = std::bitset<70>;
	template<std::size_t I, typename O> static auto & get(O & t) { return std::get<I>(t); }
	template<typename E> static bool holds(const X & x) { return std::holds_alternative<E>(x); }
	template<typename E> static E & of(X & x) { return std::get<E>(x); }
	template<typename F> static void visit(F && f, const X & x) { std::visit(f, x); }
	template<typename O> static void swap(O & a, O & b) { using std::swap; swap(a, b); }
};
using Model = Side<Std>;
static const char * const type_names[mod_types]{"string", "vector<int>", "vector<string>", "vector<over-aligned>", "optional<string>", "optional<vector>", "variant", "tuple", "array<string, 3>", "bitset<70>", "vector<optional<string>>"};
static const char * const ref_names[mod_refs]{"array_ref", "array_ref of constants", "string_ref", "optional_ref", "variant_ref", "function_ref", "function_ref const noexcept"};
static const char * const kinds[]{"malloc", "new", "new[]", "aligned new", "aligned new[]"};

// ---- who allocated what
struct Owner { int module, kind; std::size_t size; };
static std::map<void *, Owner> & ledger() { static std::map<void *, Owner> l; return l; }
static std::size_t foreign_releases, blocks;
static int last_module, last_which;
static long last_argument;
static int calls;
static void check_ledger();
static std::vector<const ModApi *> modules;
static const ModHost host{
	[](int module, int kind, void * p, std::size_t n) { ++blocks; ledger()[p] = Owner{module, kind, n}; std::memset(p, kind ? 0xa5 : 0, kind || !n ? n : 0); },
	[](int module, int kind, void * p) {
		const auto it = ledger().find(p);
		if(it == ledger().end()) return true; // not from any module: their runtime's own business
		const Owner o = it->second;
		if(o.module != module) pbt::fail("a block of %zu bytes allocated by module %d (%s) is released by module %d (%s)", o.size, o.module, modules[static_cast<std::size_t>(o.module)]->name, module, modules[static_cast<std::size_t>(module)]->name);
		if(o.kind != kind) pbt::fail("a block from %s is released as one from %s", kinds[o.kind], kinds[kind]);
		std::memset(p, 0xdd, o.size);
		ledger().erase(it);
		return true;
	},
	[](int module, int which, long argument) { last_module = module; last_which = which; last_argument = argument; ++calls; }
};
static void check_ledger() {
	if(!ledger().empty()) {
		const Owner o = ledger().begin()->second;
		pbt::fail("%zu block(s) never released, one of %zu bytes from %s of module %d (%s)", ledger().size(), o.size, kinds[o.kind], o.module, modules[static_cast<std::size_t>(o.module)]->name);
	}
}
static const pbt::RegHook ledger_hook{[] { ledger().clear(); foreign_releases = blocks = 0; }, check_ledger};

static void load() {
	if(!modules.empty()) return;
	const char * list = std::getenv("PTL_MODULES");
	if(!list) { std::fprintf(stderr, "PTL_MODULES is not set\n"); std::abort(); }
	std::string l = list;
	for(std::size_t p = 0; p < l.size();) {
		auto e = l.find(':', p);
		if(e == l.npos) e = l.size();
		void * const h = dlopen(l.substr(p, e - p).c_str(), RTLD_NOW | RTLD_LOCAL);
		const auto f = h ? reinterpret_cast<const ModApi * (*)()>(dlsym(h, "ptl_module")) : nullptr;
		if(!f) { std::fprintf(stderr, "%s\n", dlerror()); std::abort(); }
		modules.push_back(f());
		modules.back()->init(static_cast<int>(modules.size()) - 1, &host);
		p = e + 1;
	}
}
struct Texts { std::string t; ModArgs a; };
static void draw(pbt::Src & s, Texts & x) {
	x.t = gen::text(s, s.chance(1, 4) ? 300 : 40);
	x.a = ModArgs{static_cast<std::size_t>(s.raw(5000)), static_cast<std::size_t>(s.raw(5000)), static_cast<std::size_t>(s.raw(5000)), x.t.data(), x.t.size()};
}
constexpr std::size_t slots = 3, room = 320;
struct Slot {
	alignas(64) unsigned char real[room];
	alignas(64) unsigned char model[room];
	bool alive{false};
	int creator{-1};
};
static ModOut real_out, model_out;
static void agree(const char * what, int type) {
	if(real_out.size == model_out.size && std::memcmp(real_out.buf, model_out.buf, real_out.size) == 0) return;
	std::size_t k = 0;
	while(k < real_out.size && k < model_out.size && real_out.buf[k] == model_out.buf[k]) ++k;
	const auto from = k < 20 ? 0 : k - 20;
	const auto part = [&](const ModOut & o) { return pbt::show(o.buf + from, o.size - from < 60 ? o.size - from : 60); };
	pbt::fail("%s (%s): %s, expected %s", what, type_names[type], part(real_out).c_str(), part(model_out).c_str());
}
static void history(pbt::Src & s, std::size_t types) {
	load();
	const auto n = modules.size();
	int kind[2];
	Slot pool[2][slots];
	for(auto & k : kind) k = static_cast<int>(s.raw(mod_types));
	if(types < 2) kind[1] = kind[0];
	for(auto & p : pool) for(auto & x : p) std::memset(x.real, 0xcc, room);
	std::size_t used = 0; // modules which took part
	const auto module = [&] { const auto m = s.raw(n); used |= std::size_t{1} << m; return static_cast<int>(m); };
	for(int t = 0; t < mod_types; ++t) for(const auto m : modules) PBT_CHECK(m->sizes[t] == modules[0]->sizes[t] && m->aligns[t] == modules[0]->aligns[t], "%s: %zu bytes (alignment %zu) in %s, %zu (%zu) in %s", type_names[t], m->sizes[t], m->aligns[t], m->name, modules[0]->sizes[t], modules[0]->aligns[t], modules[0]->name);
	for(int t = 0; t < mod_types; ++t) PBT_CHECK(modules[0]->sizes[t] + 16 <= room && modules[0]->codes[t] == Model::codes[t] + l_own);
	const auto look = [&](int type, Slot & x, const char * what) {
		if(!x.alive) return;
		const auto m = module();
		real_out.size = model_out.size = 0;
		modules[static_cast<std::size_t>(m)]->show(type, x.real, &real_out);
		Model::show_any(type, x.model, &model_out);
		agree(what, type);
		for(auto k = modules[0]->sizes[type]; k < room; ++k) PBT_CHECK(x.real[k] == 0xcc, "%s: byte %zu behind an object of %zu bytes was written", what, k, modules[0]->sizes[type]);
	};
	bool crossed = false;
	const auto run = [&](int type, int code, Slot & x, Slot & y, const ModArgs & a, const char * what) {
		const auto m = module();
		TRACE("%s: operation %d on a slot made by module %d by module %d (%s), arguments %zu %zu %zu and %zu characters", type_names[type], code, x.alive ? x.creator : -1, m, modules[static_cast<std::size_t>(m)]->name, a.a, a.b, a.c, a.size);
		real_out.size = model_out.size = 0;
		const int r = modules[static_cast<std::size_t>(m)]->op(type, code, x.real, y.real, &a, &real_out), e = Model::op(type, code, x.model, y.model, &a, &model_out);
		PBT_CHECK(r == e, "%s: outcome %d, expected %d", what, r, e);
		agree(what, type);
		if(x.alive && x.creator != m) crossed = true;
		if(code <= l_move) { x.alive = true; x.creator = m; }
		if(code == l_destroy) x.alive = false;
	};
	std::size_t k = 0;
	do {
		const auto w = s.raw(2);
		const int type = kind[w];
		auto & p = pool[w];
		Slot & x = p[s.raw(slots)], & y = p[s.raw(slots)];
		Texts t;
		draw(s, t);
		if(!x.alive) {
			if(y.alive && s.flip()) run(type, l_copy, x, y, t.a, "copy construction");
			else if(y.alive && s.flip()) {
				run(type, l_move, x, y, t.a, "move construction");
				look(type, x, "after move construction");
				run(type, l_copy_assign, y, x, t.a, "assignment to a moved-from object");
			} else run(type, l_construct, x, x, t.a, "construction");
		} else {
			int code = static_cast<int>(s.range(0, 3)) ? l_own + static_cast<int>(s.raw(static_cast<std::uint64_t>(modules[0]->codes[type] - l_own))) : static_cast<int>(s.range(l_copy_assign, l_compare));
			Slot & other = y.alive ? y : x;
			if(code == l_move_assign) {
				if(&other == &x) continue;
				run(type, code, x, other, t.a, "move assignment");
				look(type, x, "after move assignment");
				if(s.flip()) { run(type, l_copy_assign, other, x, t.a, "assignment to a moved-from object"); }
				else { run(type, l_destroy, other, other, t.a, "destruction of a moved-from object"); if(s.flip()) run(type, l_construct, other, other, t.a, "construction"); }
			} else run(type, code, x, other, t.a, "operation");
		}
		look(type, x, "after an operation");
		look(type, y, "the other object");
	} while(s.more(k, 10, 30));
	for(std::size_t w = 0; w < 2; ++w) for(auto & x : pool[w]) {
		look(kind[w], x, "finally");
		if(x.alive) { run(kind[w], l_destroy, x, x, ModArgs{0, 0, 0, "", 0}, "destruction"); }
	}
	if(blocks && crossed && (used & (used - 1))) s.nontrivial();
	check_ledger();
}
PBT_TEST(one_type, 120000, "a module modified or destroyed an object which another one had created, and memory was allocated") { history(s, 1); }
PBT_TEST(two_types, 60000, "a module modified or destroyed an object which another one had created, and memory was allocated") { history(s, 2); }

// references: made by one module, copied, called and used by others
PBT_TEST(references, 120000, "a reference was used by a module which did not make it") {
	load();
	const auto n = modules.size();
	const int type = static_cast<int>(s.raw(mod_refs));
	for(int t = 0; t < mod_refs; ++t) for(const auto m : modules) PBT_CHECK(m->ref_sizes[t] == modules[0]->ref_sizes[t] && m->ref_aligns[t] == modules[0]->ref_aligns[t] && m->ref_sizes[t] <= 16, "%s differs in size", ref_names[t]);
	int ints[40];
	for(int i = 0; i < 40; ++i) ints[i] = 1000 + i;
	std::string text = gen::text(s, 60);
	double d = 0.25 + static_cast<double>(s.raw(1000));
	char c = static_cast<char>(s.raw(256));
	struct Ref { alignas(16) unsigned char raw[32]; int maker; std::size_t off, size; int which; long factor; } r[3]; // which: the alternative, or the functor of module maker
	const auto out = [](const char * what, const std::string & e) { PBT_CHECK(std::string(real_out.buf, real_out.size) == e, "%s: %s, expected %s", what, pbt::show(real_out.buf, real_out.size).c_str(), pbt::show(e.data(), e.size()).c_str()); };
	static const long factors[]{3, 5, 7, 11, 13, 17};
	const auto expected = [&](const Ref & x, const ModArgs & a) {
		std::string e;
		const auto num = [&](long v) { e += std::to_string(v) + ' '; };
		switch(type) {
			case 0: case 1: num(static_cast<long>(x.size)); for(std::size_t i = 0; i < x.size; ++i) num(ints[x.off + i]); if(x.size) { num(ints[x.off]); num(ints[x.off + x.size - 1]); num(ints[x.off + x.size / 2]); } break;
			case 2: num(static_cast<long>(x.size)); for(std::size_t i = 0; i < x.size; ++i) num(static_cast<int>(text[x.off + i])); if(x.size) { num(text[x.off]); num(text[x.off + x.size - 1]); num(text[x.off + x.size / 2]); } break;
			case 3: num(x.size ? ints[x.off] : -1); break;
			case 4: num(x.which); num(x.which == 0 ? ints[x.off] : x.which == 1 ? c : static_cast<long>(d)); break;
			default: num(static_cast<long>(a.c) * factors[x.which] + x.maker * 1000 + x.which); break;
		}
		return e;
	};
	const auto make = [&](Ref & x) {
		x.maker = static_cast<int>(s.raw(n));
		x.off = s.raw(40);
		x.size = s.raw(40 - x.off + 1);
		x.which = static_cast<int>(s.raw(mod_functors));
		const int how = static_cast<int>(s.raw(2));
		const auto m = modules[static_cast<std::size_t>(x.maker)];
		TRACE("module %d makes a %s, %zu+%zu, %d", x.maker, ref_names[type], x.off, x.size, x.which);
		switch(type) {
			case 2: x.off = s.raw(text.size() + 1); x.size = s.raw(text.size() - x.off + 1); m->ref_make(type, x.raw, text.data() + x.off, x.size, how); break;
			case 3: x.size = s.raw(4) != 0; m->ref_make(type, x.raw, x.size ? ints + x.off : nullptr, 0, how); break;
			case 4: x.which %= 3; m->ref_make(type, x.raw, x.which == 0 ? static_cast<void *>(ints + x.off) : x.which == 1 ? static_cast<void *>(&c) : &d, 0, x.which); break;
			case 5: case 6: m->ref_make(type, x.raw, nullptr, static_cast<std::size_t>(x.which), how); break;
			default: m->ref_make(type, x.raw, ints + x.off, x.size, how); break;
		}
		std::memset(x.raw + modules[0]->ref_sizes[type], 0xcc, sizeof x.raw - modules[0]->ref_sizes[type]);
	};
	for(auto & x : r) make(x);
	std::size_t k = 0;
	do {
		Ref & x = r[s.raw(3)], & y = r[s.raw(3)];
		const auto who = static_cast<int>(s.raw(n));
		const auto m = modules[static_cast<std::size_t>(who)];
		const auto code = static_cast<int>(s.raw(8));
		Texts t;
		t.a = ModArgs{static_cast<std::size_t>(s.raw(1000)), static_cast<std::size_t>(s.raw(1000)), static_cast<std::size_t>(s.raw(1000)), "", 0};
		TRACE("module %d: operation %d on a %s made by module %d, arguments %zu %zu %zu", who, code, ref_names[type], x.maker, t.a.a, t.a.b, t.a.c);
		const auto read = [&](const Ref & z, int op, const char * what) {
			real_out.size = 0;
			calls = 0;
			m->ref_op(type, op, const_cast<unsigned char *>(z.raw), const_cast<unsigned char *>(z.raw), &t.a, &real_out);
			out(what, expected(z, t.a));
			if(type >= 5) PBT_CHECK(calls == 1 && last_module == z.maker && last_which == z.which && last_argument == static_cast<long>(t.a.c), "%d calls, the last one of function %d of module %d with %ld", calls, last_which, last_module, last_argument);
			if(who != z.maker) s.nontrivial();
		};
		const auto copy = [&](Ref & to, const Ref & from) { to.maker = from.maker; to.off = from.off; to.size = from.size; to.which = from.which; };
		real_out.size = 0;
		switch(code) {
			case 0: read(x, 0, "use"); break;
			case 1: m->ref_op(type, 1, x.raw, y.raw, &t.a, &real_out); copy(x, y); break;
			case 2: read(x, 2, "use of a copy"); break;
			case 3: if(&x != &y) { m->ref_op(type, 3, x.raw, y.raw, &t.a, &real_out); copy(x, y); } break;
			case 4: { m->ref_op(type, 4, x.raw, y.raw, &t.a, &real_out); const Ref z = x; copy(x, y); copy(y, z); break; }
			case 5: make(x); break;
			default: {
				int before[40];
				std::memcpy(before, ints, sizeof ints);
				if(type == 0 && x.size) before[x.off + t.a.a % x.size] = static_cast<int>(t.a.b);
				else if((type == 3 && x.size) || (type == 4 && x.which == 0)) before[x.off] = static_cast<int>(t.a.b);
				m->ref_op(type, 5, x.raw, y.raw, &t.a, &real_out);
				for(int i = 0; i < 40; ++i) PBT_CHECK(ints[i] == before[i], "element %d is %d, expected %d", i, ints[i], before[i]);
				switch(type) {
					case 0: case 3: case 4: break;
					case 1: { const auto o = t.a.a % (x.size + 1); x.size = t.a.b % (x.size - o + 1); x.off += o; break; }
					case 2: { const auto o = t.a.a % (x.size + 1); x.size -= o; x.off += o; break; }
					default: x.maker = who; x.which = static_cast<int>(t.a.a % 4); break;
				}
				break;
			}
		}
		read(x, 0, "afterwards");
		read(y, 0, "afterwards, the other one");
		for(const auto & z : r) for(auto i = modules[0]->ref_sizes[type]; i < sizeof z.raw; ++i) PBT_CHECK(z.raw[i] == 0xcc, "a byte behind a reference was written");
	} while(s.more(k, 6, 20));
}
