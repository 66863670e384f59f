// Values whose six operators are unrelated to each other: shows which operator was called, and with which operands in which order.
#pragma once
#include "common.hpp"
#include <initializer_list>
#include <limits>
namespace odd {
	inline bool answer(int op, int a, int b) { return pbt::mix(static_cast<std::uint64_t>(op) * 1000003u + static_cast<std::uint64_t>(a) * 1009u + static_cast<std::uint64_t>(b)) >> 17 & 1; }
	struct Odd {
		int v;
		friend bool operator==(const Odd & a, const Odd & b) { return answer(0, a.v, b.v); }
		friend bool operator!=(const Odd & a, const Odd & b) { return answer(1, a.v, b.v); }
		friend bool operator< (const Odd & a, const Odd & b) { return answer(2, a.v, b.v); }
		friend bool operator<=(const Odd & a, const Odd & b) { return answer(3, a.v, b.v); }
		friend bool operator> (const Odd & a, const Odd & b) { return answer(4, a.v, b.v); }
		friend bool operator>=(const Odd & a, const Odd & b) { return answer(5, a.v, b.v); }
	};
	// ordered by v / 2, equal only if v is equal: equivalent values need not be equal
	struct Ranked {
		int v;
		friend bool operator==(const Ranked & a, const Ranked & b) { return a.v == b.v; }
		friend bool operator!=(const Ranked & a, const Ranked & b) { return a.v != b.v; }
		friend bool operator< (const Ranked & a, const Ranked & b) { return a.v / 2 <  b.v / 2; }
		friend bool operator<=(const Ranked & a, const Ranked & b) { return a.v / 2 <= b.v / 2; }
		friend bool operator> (const Ranked & a, const Ranked & b) { return a.v / 2 >  b.v / 2; }
		friend bool operator>=(const Ranked & a, const Ranked & b) { return a.v / 2 >= b.v / 2; }
	};
	// equal and ordered by v / 2 only: equal values can still be told apart
	struct Keyed {
		int v;
		friend bool operator==(const Keyed & a, const Keyed & b) { return a.v / 2 == b.v / 2; }
		friend bool operator!=(const Keyed & a, const Keyed & b) { return a.v / 2 != b.v / 2; }
		friend bool operator< (const Keyed & a, const Keyed & b) { return a.v / 2 <  b.v / 2; }
		friend bool operator<=(const Keyed & a, const Keyed & b) { return a.v / 2 <= b.v / 2; }
		friend bool operator> (const Keyed & a, const Keyed & b) { return a.v / 2 >  b.v / 2; }
		friend bool operator>=(const Keyed & a, const Keyed & b) { return a.v / 2 >= b.v / 2; }
	};
	// can also be made from a list of values of its own kind, as the values of dynamic documents can: a list of one value is another value
	struct List {
		int v{0};
		List() = default;
		explicit List(int x) noexcept : v{x} {}
		List(std::initializer_list<List> l) : v{-1 - static_cast<int>(l.size())} {}
		friend bool operator==(const List & a, const List & b) { return a.v == b.v; }
		friend bool operator!=(const List & a, const List & b) { return a.v != b.v; }
		friend bool operator< (const List & a, const List & b) { return a.v <  b.v; }
		friend bool operator<=(const List & a, const List & b) { return a.v <= b.v; }
		friend bool operator> (const List & a, const List & b) { return a.v >  b.v; }
		friend bool operator>=(const List & a, const List & b) { return a.v >= b.v; }
	};
	// the very same value, not just an equal one
	template<typename T> bool exact(const T & a, const T & b) { return a == b; }
	inline bool exact(const Keyed & a, const Keyed & b) { return a.v == b.v; }
	inline bool exact(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
	inline double partial(pbt::Src & s) {
		static const double v[]{0.0, -0.0, 1.0, -1.0, 0.5, 1e300, -1e300, 5e-324, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
		return s.pick(v);
	}
	// compares with operator number op (0 ==, 1 !=, 2 <, 3 <=, 4 >, 5 >=)
	inline const char * op_name(int op) { static const char * const n[]{"==", "!=", "<", "<=", ">", ">="}; return n[op]; }
	template<typename A, typename B>
	bool apply(int op, const A & a, const B & b) {
		switch(op) {
			case 0: return a == b;
			case 1: return a != b;
			case 2: return a < b;
			case 3: return a <= b;
			case 4: return a > b;
			default: return a >= b;
		}
	}
	// the answer for two ranks (absent/present, alternative numbers) which differ
	inline bool by_rank(int op, long a, long b) { return apply(op, a, b); }
}
