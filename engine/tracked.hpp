// Element types which report every construction, use and destruction of a non-object, and can throw on demand.
#pragma once
#include "pbt.hpp"
#include <cstddef>
#include <memory>
#include <type_traits>

namespace life {
	struct Boom { };
	constexpr std::size_t min_slots = 1u << 12, max_slots = 1u << 21;
	inline const void * tables[2][max_slots];          // open addressing; (void *)1 marks a removed entry
	inline const void ** table = tables[0];
	inline std::size_t slots = min_slots, used = 0;    // used: entries including removed ones
	inline std::size_t live = 0, copies = 0, moves = 0, constructions = 0, destructions = 0, assignments = 0;
	inline std::size_t fuse = 0;      // the n-th fallible step from when it was set throws (0: never)
	inline std::size_t steps = 0;     // fallible steps taken
	inline bool blown = false;
	inline std::size_t slot(const void * p) { return static_cast<std::size_t>(pbt::mix(reinterpret_cast<std::uintptr_t>(p))) & (slots - 1); }
	inline const void ** find(const void * p) {
		for(auto i = slot(p); table[i]; i = (i + 1) & (slots - 1)) if(table[i] == p) return &table[i];
		return nullptr;
	}
	inline void put(const void * p) {
		auto i = slot(p);
		while(table[i] && table[i] != reinterpret_cast<const void *>(1)) i = (i + 1) & (slots - 1);
		if(!table[i]) ++used;
		table[i] = p;
	}
	inline void make_room() {
		const auto old = table;
		const auto n = slots;
		while(slots < 2 * live + min_slots / 4) slots *= 2;
		if(slots > max_slots) pbt::fail("too many living elements");
		table = tables[table == tables[0]];
		std::memset(table, 0, slots * sizeof *table);
		used = 0;
		for(std::size_t i = 0; i < n; ++i) if(old[i] && old[i] != reinterpret_cast<const void *>(1)) put(old[i]);
	}
	inline bool aligned = true;       // false: elements may live in packed objects
	inline void born(const void * p, std::size_t align) {
		if(aligned && reinterpret_cast<std::uintptr_t>(p) % align) pbt::fail("element constructed at a misaligned address (%p, alignment %zu)", p, align);
		if(find(p)) pbt::fail("element constructed on top of a living element");
		if(used >= slots / 4 * 3) make_room();
		put(p);
		++live;
		++constructions;
	}
	inline void check(const void * p, const char * what) { if(!find(p)) pbt::fail("%s memory which holds no living element", what); }
	inline void dies(const void * p) {
		auto e = find(p);
		if(!e) pbt::fail("destroyed memory which holds no living element");
		*e = reinterpret_cast<const void *>(1);
		--live;
		++destructions;
	}
	inline bool (*gate)() = nullptr;  // steps count only while this says so
	inline void step() {
		if(gate && !gate()) return;
		++steps;
		if(fuse && --fuse == 0) {
			blown = true;
			throw Boom{};
		}
	}
	inline void reset() {
		slots = min_slots;
		std::memset(table, 0, slots * sizeof *table);
		used = live = copies = moves = constructions = destructions = assignments = fuse = steps = 0;
		blown = false;
	}
	inline void check_leaks() { if(live) pbt::fail("%zu element(s) were never destroyed", live); }
	inline const pbt::RegHook hook{reset, check_leaks};

	template<std::size_t Align> alignas(Align) inline unsigned char decoy[4 * Align + 64];

	// a number stored in a form that depends on its address: copying its bytes to another place yields another number
	class Bound {
		int raw;
		auto key() const noexcept -> int { return static_cast<int>(pbt::mix(reinterpret_cast<std::uintptr_t>(this)) & 0x7fffffff); }
	public:
		Bound(int v) noexcept : raw{v ^ key()} {}
		Bound(const Bound & o) noexcept : raw{static_cast<int>(o) ^ key()} {}
		auto operator=(const Bound & o) noexcept -> Bound & { raw = static_cast<int>(o) ^ key(); return *this; }
		auto operator=(int v) noexcept -> Bound & { raw = v ^ key(); return *this; }
		operator int() const noexcept { return raw ^ key(); }
	};

	// Tag: to have several distinct types; Align: alignment; Throws: copying/constructing are fallible steps
	template<int Tag, std::size_t Align = alignof(int), bool Throws = false>
	struct alignas(Align) Elem {
		Bound v;

		Elem() noexcept(!Throws) : v{0} { if constexpr(Throws) step(); born(this, Align); }
		Elem(int v) noexcept(!Throws) : v{v} { if constexpr(Throws) step(); born(this, Align); }
		Elem(int a, int b) noexcept(!Throws) : v{a * 31 + b} { if constexpr(Throws) step(); born(this, Align); }
		Elem(const Elem & o) noexcept(!Throws) : v{o.v} {
			check(std::addressof(o), "copied from");
			++copies;
			if constexpr(Throws) step();
			born(this, Align);
		}
		Elem(Elem && o) noexcept : v{o.v} {
			check(std::addressof(o), "moved from");
			++moves;
			o.v = -1;
			born(this, Align);
		}
		auto operator=(const Elem & o) noexcept(!Throws) -> Elem & {
			check(this, "assigned to");
			check(std::addressof(o), "assigned from");
			++copies;
			++assignments;
			if constexpr(Throws) step();
			v = o.v;
			return *this;
		}
		auto operator=(Elem && o) noexcept -> Elem & { // loses its value on self-move, as the standard permits
			check(this, "assigned to");
			check(std::addressof(o), "move-assigned from");
			++moves;
			++assignments;
			v = o.v;
			o.v = -1;
			return *this;
		}
		~Elem() noexcept { dies(this); v = -2; }
		friend void swap(Elem & a, Elem & b) noexcept {
			check(std::addressof(a), "swapped");
			check(std::addressof(b), "swapped");
			const int t = a.v;
			a.v = b.v;
			b.v = t;
		}
		// the library must take addresses with std::addressof: this yields an object nobody ever stored
		auto operator&() noexcept -> Elem * { return reinterpret_cast<Elem *>(decoy<Align>); }
		auto operator&() const noexcept -> const Elem * { return reinterpret_cast<const Elem *>(decoy<Align>); }
		auto get() const -> int { check(this, "read"); return v; }
		friend bool operator==(const Elem & a, const Elem & b) { return a.get() == b.get(); }
		friend bool operator!=(const Elem & a, const Elem & b) { return a.get() != b.get(); }
		friend bool operator< (const Elem & a, const Elem & b) { return a.get() <  b.get(); }
		friend bool operator<=(const Elem & a, const Elem & b) { return a.get() <= b.get(); }
		friend bool operator> (const Elem & a, const Elem & b) { return a.get() >  b.get(); }
		friend bool operator>=(const Elem & a, const Elem & b) { return a.get() >= b.get(); }
	};
	static_assert(std::is_standard_layout_v<Elem<0>> && std::is_nothrow_move_constructible_v<Elem<0>> && std::is_nothrow_swappable_v<Elem<0>>);

	struct Pod3 { // trivial, odd size
		unsigned char a, b, c;
		friend bool operator==(const Pod3 & x, const Pod3 & y) { return x.a == y.a && x.b == y.b && x.c == y.c; }
		friend bool operator< (const Pod3 & x, const Pod3 & y) { return x.a != y.a ? x.a < y.a : x.b != y.b ? x.b < y.b : x.c < y.c; }
	};
	struct Big { // trivial, large
		long v[5];
		friend bool operator==(const Big & x, const Big & y) { return std::memcmp(x.v, y.v, sizeof x.v) == 0; }
		friend bool operator< (const Big & x, const Big & y) { return x.v[0] < y.v[0]; }
	};
}
