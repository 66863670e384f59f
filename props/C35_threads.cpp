// Threads: the same generated histories are run one after the other and concurrently; ThreadSanitizer watches the second run.
#define PBT_THREADS
#define PBT_RETRIES 40
#include <ptl/array.hpp>
#include <ptl/array_ref.hpp>
#include <ptl/bitset.hpp>
#include <ptl/function_ref.hpp>
#include <ptl/optional.hpp>
#include <ptl/optional_ref.hpp>
#include <ptl/string.hpp>
#include <ptl/string_ref.hpp>
#include <ptl/tuple.hpp>
#include <ptl/variant.hpp>
#include <ptl/variant_ref.hpp>
#include <ptl/vector.hpp>
#include <atomic>
#include <memory>
#include <sstream>
#include <system_error>
#include <thread>
#include "strops.hpp"
#include "vecops.hpp"

#if defined(__SANITIZE_THREAD__) || defined(PBT_TSAN)
extern "C" const char * __tsan_default_options() { return "halt_on_error=1:exitcode=66:die_after_fork=0:report_signal_unsafe=0:second_deadlock_stack=0"; }
#endif

namespace {
	struct Digest {
		std::uint64_t h{1469598103934665603ull};
		template<typename T> void operator()(T v) { h = (h ^ static_cast<std::uint64_t>(v)) * 1099511628211ull; }
		void bytes(const char * p, std::size_t n) { (*this)(n); for(std::size_t i = 0; i < n; ++i) (*this)(p[i]); }
		void text(const ptl::string & s) { bytes(s.data(), s.size()); }
	};
	using Var = ptl::variant<int, double, ptl::string>; // sizes 4, 8, 32
	constexpr std::size_t max_threads = 4;

	// what one thread owns
	struct Own {
		ptl::string a, b;
		std::string ma, mb;
		ptl::vector<int> v, w;
		std::vector<int> mv, mw;
		ptl::vector<ptl::string> x, y;
		std::vector<int> mx, my;
		ptl::optional<ptl::string> o;
		Var u{0};
		ptl::bitset<100> big;
		ptl::vector<ptl::optional<ptl::string>> nest;
	};
	struct World {
		// read by all threads, written by none
		ptl::string shared[4];
		ptl::vector<int> numbers;
		ptl::vector<ptl::string> words;
		ptl::optional<ptl::string> maybe, nothing;
		Var alt[3]{0, 0, 0};
		ptl::bitset<77> bits;
		ptl::array<int, 5> arr{};
		ptl::optional<ptl::tuple<int>> tup;
		// distinct objects next to each other, element t for thread t
		Own own[max_threads];
		ptl::bitset<9> flags[max_threads];
		ptl::bitset<1> one[max_threads];
		ptl::optional<char> byte[max_threads];
		ptl::variant<char, bool> tiny[max_threads]{'a', 'a', 'a', 'a'};
		ptl::array<char, 3> chars[max_threads];
		ptl::vector<char> slots; // element 3t .. 3t + 2 for thread t
		ptl::string letters;

		explicit World(pbt::Src & s, std::size_t threads) {
			std::string m;
			for(auto & x : shared) x = strops::build(s, m, 60);
			std::vector<int> mi;
			numbers = vecops::build<int>(s, mi, 20);
			words = vecops::build<ptl::string>(s, mi, 6);
			maybe = shared[0];
			alt[0] = static_cast<int>(s.raw(1000));
			alt[1] = 1.5;
			alt[2] = shared[1];
			bits = ptl::bitset<77>{s.raw(0)};
			for(auto & x : arr) x = static_cast<int>(s.raw(100));
			tup = ptl::tuple<int>{static_cast<int>(s.raw(100))};
			slots.resize(3 * max_threads);
			letters.resize(40);
			for(std::size_t t = 0; t < threads; ++t) { // copies of what the others read or modify
				auto & o = own[t];
				o.a = shared[s.raw(4)];
				o.ma.assign(o.a.data(), o.a.size());
				o.b = strops::build(s, o.mb, 60);
				o.v = numbers;
				o.mv.assign(numbers.begin(), numbers.end());
				o.w = vecops::build<int>(s, o.mw, 12);
				o.x = words;
				for(auto & e : words) o.mx.push_back(vecops::Of<ptl::string>::get(e));
				o.y = t ? own[0].y : vecops::build<ptl::string>(s, o.my, 5);
				if(t) o.my = own[0].my;
				o.o = maybe;
				o.u = alt[s.raw(3)];
				o.nest.resize(2, maybe);
				for(auto & c : chars[t]) c = static_cast<char>('a' + t);
			}
		}
	};

	// any number of these at once
	void observe(const World & w, pbt::Src & s, Digest & d) {
		const auto k = s.raw(30);
		d(k);
		const auto & t = w.shared[s.raw(4)];
		const auto & u = w.shared[s.raw(4)];
		const auto p = s.raw(t.size() + 1);
		switch(k) {
			case 0: d.text(t); d(t.c_str()[t.size()]); d(t.capacity() >= t.size()); break;
			case 1: d(t == u); d(t < u); d(t <= u); d(t > u); d(t >= u); d(t != u); break;
			case 2: { ptl::string c{t}; d.text(c); c += 'x'; d.text(c); break; }
			case 3: { auto c = t.substr(p); d.text(c); break; }
			case 4: { auto c = t + u; d.text(c); break; }
			case 5: d(std::hash<ptl::string>{}(t)); break;
			case 6: for(auto i = t.rbegin(); i != t.rend(); ++i) d(*i); break;
			case 7: { bool thrown = false; try { d(t.at(p + s.raw(3))); } catch(const std::out_of_range &) { thrown = true; } d(thrown); break; }
			case 8: { std::ostringstream os; os << t; const auto r = os.str(); d.bytes(r.data(), r.size()); break; }
			case 9: { const std::string_view v{t}; d.bytes(v.data(), v.size()); d(t == std::string_view{"abc"}); d(std::string_view{u} < t); break; }
			case 10: { const ptl::string_ref r{t}; auto q = r.substr(p); q.remove_suffix(q.size() / 2); for(auto c : q) d(c); d(r == ptl::string_ref{u}); d(std::hash<ptl::string_ref>{}(r)); break; }
			case 11: for(auto x : w.numbers) d(x); d(w.numbers.size()); d(w.numbers.empty()); break;
			case 12: { ptl::vector<int> c{w.numbers}; c.push_back(1); for(auto x : c) d(x); d(w.numbers == c); d(w.numbers < c); break; }
			case 13: { const ptl::array_ref<const int> r{w.numbers}; const auto n = s.raw(r.size() + 1); for(auto x : r.first(n)) d(x); for(auto x : r.last(r.size() - n)) d(x); break; }
			case 14: for(auto & x : w.words) d.text(x); break;
			case 15: { ptl::vector<ptl::string> c{w.words}; if(!c.empty()) { c.back() += 'y'; d.text(c.back()); } d(c == w.words); break; }
			case 16: { bool thrown = false; try { d.text(w.words.at(s.raw(8))); } catch(const std::out_of_range &) { thrown = true; } d(thrown); break; }
			case 17: d.text(*w.maybe); d(w.nothing.has_value()); d.text(w.maybe.value()); { ptl::optional<ptl::string> c{w.maybe}; d(c == w.maybe); d(c == w.nothing); } break;
			case 18: { bool thrown = false; try { d.text(w.nothing.value()); } catch(const std::bad_optional_access &) { thrown = true; } d(thrown); d.text(w.nothing.value_or(ptl::string{"dflt"})); break; }
			case 19: { const ptl::optional_ref<const ptl::string> r{w.maybe}, e{w.nothing}; d.text(*r); d(e.has_value()); d.text(r.value()); break; }
			case 20: for(auto & x : w.alt) x.visit([&](auto & e) { if constexpr(std::is_same_v<std::decay_t<decltype(e)>, ptl::string>) d.text(e); else d(static_cast<long>(e)); }); break;
			case 21: { const Var c{w.alt[s.raw(3)]}; d(c == w.alt[0]); d(c < w.alt[1]); d(c.holds<ptl::string>()); if(auto q = w.alt[2].get_if<ptl::string>()) d.text(*q); break; }
			case 22: { bool thrown = false; try { d(w.alt[s.raw(3)].get<int>()); } catch(const std::bad_variant_access &) { thrown = true; } d(thrown); break; }
			case 23: { const ptl::variant_ref<const int, const ptl::string> r{t}; r.visit([&](const int & i) { d(i); }, [&](const ptl::string & x) { d.text(x); }); d(r.holds<const int>()); break; }
			case 24: for(std::size_t i = 0; i < 77; ++i) d(w.bits[i]); d(w.bits.count()); d(w.bits.any()); d(w.bits.all()); d(w.bits.none()); d(std::hash<ptl::bitset<77>>{}(w.bits)); break;
			case 25: { const auto c = ((w.bits << s.raw(80)) | (w.bits >> s.raw(80))) ^ ~w.bits; d(c.count()); d(c == w.bits); std::ostringstream os; os << c; const auto r = os.str(); d.bytes(r.data(), r.size()); break; }
			case 26: { bool thrown = false; try { d(w.bits.test(s.raw(90))); } catch(const std::out_of_range &) { thrown = true; } d(thrown); break; }
			case 27: { auto c = w.arr; for(auto x : w.arr) d(x); c.fill(1); d(c == w.arr); d(c < w.arr); bool thrown = false; try { d(w.arr.at(s.raw(7))); } catch(const std::out_of_range &) { thrown = true; } d(thrown); break; }
			case 28: d(w.tup->get<0>()); { auto c = w.tup; d(*c == *w.tup); c->get<0>() = 3; d(*c < *w.tup); } break;
			default: { // callables, one calling another
				const auto add = [&](int x) { return x + w.arr[0]; };
				const ptl::function_ref<int(int) const> f{add};
				const auto outer = [&](int x) { return f(x) * 2 + f(1); };
				const ptl::function_ref<int(int) const> g{outer};
				for(int i = 0; i < 5; ++i) d(g(i));
				break;
			}
		}
	}
	int focus = -1; // the only kind of modification of this case, if any; written before the threads start
	// one operation on the objects of thread t
	void modify(World & w, std::size_t t, pbt::Src & s, Digest & d) {
		auto & o = w.own[t];
		const auto k = focus < 0 ? s.raw(16) : static_cast<std::uint64_t>(focus);
		d(k);
		switch(k) {
			case 0: case 1: case 2: strops::op(s, o.a, o.ma, o.b, o.mb); strops::same(o.a, o.ma, "own string"); strops::same(o.b, o.mb, "other own string"); d.text(o.a); d.text(o.b); break;
			case 3: case 4: {
				const auto p = vecops::draw(s, o.v.size(), o.v.capacity(), -1, 20);
				if(!vecops::applicable(p, o.v.size())) break;
				d(vecops::apply(p, o.v, o.w));
				vecops::model(p, o.mv, o.mw);
				d(o.v.size() == o.mv.size());
				for(auto x : o.v) d(x);
				PBT_CHECK(std::equal(o.v.begin(), o.v.end(), o.mv.begin(), o.mv.end()), "own vector");
				break;
			}
			case 5: case 6: {
				const auto p = vecops::draw(s, o.x.size(), o.x.capacity(), -1, 8);
				if(!vecops::applicable(p, o.x.size())) break;
				d(vecops::apply(p, o.x, o.y));
				vecops::model(p, o.mx, o.my);
				PBT_CHECK(o.x.size() == o.mx.size(), "own vector of strings");
				for(std::size_t i = 0; i < o.x.size(); ++i) { d.text(o.x[i]); PBT_CHECK(vecops::Of<ptl::string>::get(o.x[i]) == o.mx[i], "own vector of strings"); }
				break;
			}
			case 7: {
				switch(s.raw(6)) {
					case 0: o.o = std::nullopt; break;
					case 1: o.o = o.a; break;
					case 2: o.o.emplace(std::size_t{30}, 'e'); break;
					case 3: { ptl::optional<ptl::string> c; c = o.o; c.swap(o.o); break; }
					case 4: if(o.o) *o.o += "tail"; break;
					default: { auto c = std::move(o.o); o.o = std::move(c); }
				}
				d(o.o.has_value());
				if(o.o) d.text(*o.o);
				break;
			}
			case 8: {
				switch(s.raw(6)) {
					case 0: o.u = static_cast<int>(s.raw(100)); break;
					case 1: o.u = 2.5; break;
					case 2: o.u = o.a; break;
					case 3: { Var c{o.u}; c.swap(o.u); break; }
					case 4: o.u.emplace<ptl::string>(std::size_t{40}, 'u'); break;
					default: if(auto p = o.u.get_if<ptl::string>()) p->push_back('z'); break;
				}
				o.u.visit([&](auto & e) { if constexpr(std::is_same_v<std::decay_t<decltype(e)>, ptl::string>) d.text(e); else d(static_cast<long>(e)); });
				break;
			}
			case 9: {
				switch(s.raw(8)) {
					case 0: o.big.set(s.raw(100)); break;
					case 1: o.big <<= s.raw(101); break;
					case 2: o.big >>= s.raw(101); break;
					case 3: o.big.flip(); break;
					case 4: o.big ^= ptl::bitset<100>{s.raw(0)}; break;
					case 5: { std::istringstream is{"110010111"}; is >> o.big; break; }
					case 6: swap(o.big[s.raw(100)], o.big[s.raw(100)]); break;
					default: o.big[s.raw(100)].flip(); break;
				}
				std::ostringstream os;
				os << o.big;
				const auto r = os.str();
				d.bytes(r.data(), r.size());
				break;
			}
			case 10: { // neighbours belong to other threads
				auto & f = w.flags[t];
				switch(s.raw(7)) {
					case 0: f.set(); break;
					case 1: f.reset(); break;
					case 2: f.flip(s.raw(9)); break;
					case 3: f <<= s.raw(10); break;
					case 4: f >>= s.raw(10); break;
					case 5: f |= ptl::bitset<9>{s.raw(512)}; break;
					default: w.one[t].flip(); break;
				}
				d(f.count()); d(f.any()); d(f.all()); d(w.one[t].test(0)); d(std::hash<ptl::bitset<9>>{}(f));
				break;
			}
			case 11: {
				auto & b = w.byte[t];
				switch(s.raw(4)) { case 0: b = std::nullopt; break; case 1: b = static_cast<char>(s.raw(100)); break; case 2: { ptl::optional<char> c; c.swap(b); break; } default: if(b) ++*b; }
				d(b.has_value());
				d(b.value_or('-'));
				break;
			}
			case 12: {
				auto & v = w.tiny[t];
				switch(s.raw(4)) { case 0: v = s.flip(); break; case 1: v = static_cast<char>(s.raw(100)); break; case 2: { ptl::variant<char, bool> c{'c'}; c.swap(v); break; } default: if(auto p = v.get_if<char>()) ++*p; }
				d(v.holds<bool>());
				v.visit([&](auto e) { d(e); });
				break;
			}
			case 13: {
				auto & c = w.chars[t];
				switch(s.raw(3)) { case 0: c.fill(static_cast<char>(s.raw(100))); break; case 1: { ptl::array<char, 3> e{'x', 'y', 'z'}; swap(c, e); break; } default: c[s.raw(3)] = 'c'; }
				for(auto x : c) d(x);
				break;
			}
			case 14: { // distinct elements of one container, also through references
				const auto i = 3 * t + s.raw(3);
				const auto v = static_cast<char>(s.raw(100));
				switch(s.raw(6)) {
					case 0: w.slots[i] = v; break;
					case 1: w.slots.at(i) = v; break;
					case 2: *(w.slots.begin() + static_cast<std::ptrdiff_t>(i)) = v; break;
					case 3: ptl::array_ref<char>{w.slots}.subrange(3 * t, 3)[i - 3 * t] = v; break;
					case 4: w.letters[i] = v; break;
					default: w.letters.at(i) = v; w.letters.begin()[static_cast<std::ptrdiff_t>(i)] = v; break;
				}
				for(std::size_t j = 3 * t; j < 3 * t + 3; ++j) { d(w.slots[j]); d(w.letters[j]); }
				break;
			}
			default: {
				int calls = 0, seen = 0;
				const auto f = [&](int x) { ++calls; seen += x; return seen; };
				ptl::function_ref<int(int)> r{f};
				const auto again = [&](int x) { return x ? r(x) + r(x - 1) : 0; };
				ptl::function_ref<int(int)> q{again};
				for(int i = 0; i < 4; ++i) d(q(i));
				d(calls);
				if(!o.nest.empty() && s.flip()) { o.nest.push_back(o.nest.front()); if(o.nest.back()) *o.nest.back() += 'n'; }
				else if(!o.nest.empty() && s.flip()) o.nest.erase(o.nest.begin());
				else o.nest.emplace_back(ptl::string(std::size_t{35}, 'm'));
				for(auto & e : o.nest) { d(e.has_value()); if(e) d.text(*e); }
				break;
			}
		}
	}
	std::uint64_t history(World & w, std::size_t t, std::size_t steps, unsigned reads, pbt::Src & s) {
		Digest d;
		for(std::size_t i = 0; i < steps; ++i) {
			TRACE("thread %zu step %zu", t, i);
			if(s.chance(reads, 8)) observe(w, s, d);
			else modify(w, t, s, d);
		}
		return d.h;
	}
	std::vector<std::uint64_t> draws(pbt::Src & s, std::size_t n) {
		std::vector<std::uint64_t> r(n);
		for(auto & x : r) x = s.raw(0);
		return r;
	}
}

// alike: every thread performs the same operations on its own objects
static void concurrently(pbt::Src & s, unsigned reads, bool alike = false) {
	const auto threads = s.range(2, max_threads);
	const auto initial = draws(s, 60);
	struct Part { std::size_t steps; std::vector<std::uint64_t> choices; };
	std::vector<Part> parts(threads);
	for(auto & p : parts) {
		if(alike && &p != &parts[0]) { p = parts[0]; continue; }
		p.steps = 1 + s.raw(alike ? 25 : 12);
		p.choices = draws(s, p.steps * 12);
	}
	if(alike) focus = s.chance(1, 2) ? static_cast<int>(s.raw(16)) : s.chance(1, 2) ? 0 : -1;
	else focus = -1;

	std::uint64_t expected[max_threads]{}, got[max_threads]{};
	{ // one after the other
		pbt::Src i{initial, true};
		World w{i, threads};
		for(std::size_t t = 0; t < threads; ++t) {
			pbt::Src c{parts[t].choices, true};
			expected[t] = history(w, t, parts[t].steps, reads, c);
		}
	}
	const bool was = pbt::muted;
	pbt::muted = true;
	{
		pbt::Src i{initial, true};
		auto w = std::make_unique<World>(i, threads);
		std::atomic<std::size_t> waiting{0};
		std::vector<std::thread> running;
		std::atomic<bool> cancelled{false};
		try {
			for(std::size_t t = 0; t < threads; ++t) running.emplace_back([&, t] {
				pbt::muted = true;
				pbt::Src c{parts[t].choices, true};
				waiting.fetch_add(1);
				while(waiting.load() < threads && !cancelled.load()) std::this_thread::yield();
				got[t] = history(*w, t, parts[t].steps, reads, c);
			});
		} catch(const std::system_error &) { cancelled = true; } // no more threads available
		for(auto & t : running) t.join();
		if(cancelled) { pbt::muted = was; return; }
	}
	pbt::muted = was;
	std::size_t total = 0;
	for(std::size_t t = 0; t < threads; ++t) {
		PBT_CHECK(got[t] == expected[t], "thread %zu of %zu observed something else than when the histories run one after the other", t, threads);
		total += parts[t].steps;
	}
	s.label("threads", threads);
	s.label("operations", total);
	s.evaluations(total);
	if(total >= 2 * threads) s.nontrivial();
}
#define RULE "two or more threads perform two or more operations each on average; run one after the other and concurrently"
PBT_TEST(readers, 1500, RULE) { concurrently(s, 8); }
PBT_TEST(writers, 1500, RULE) { concurrently(s, 0); }
PBT_TEST(mixed, 2000, RULE) { concurrently(s, 4); }
PBT_TEST(alike, 2500, RULE) { concurrently(s, 0, true); }
PBT_TEST(alike_readers, 800, RULE) { concurrently(s, 8, true); }
