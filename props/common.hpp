// Shared generators: texts, single-pass and throwing iterators. Include after the PTL header under test.
#pragma once
#include "../engine/alloc.hpp"
#include <cstddef>
#include <sys/mman.h>
#include <iterator>
#include <string>

namespace gen {
	// text: an ascending pattern (few choices, misplacements show) or arbitrary bytes
	inline std::string text(pbt::Src & s, std::size_t max = 300) {
		const auto n = s.len(max);
		std::string r(n, 'x');
		if(n > 2000) { // without a period
			std::uint64_t h = s.raw(1000);
			for(auto & ch : r) ch = static_cast<char>((h = h * 6364136223846793005ull + 1442695040888963407ull) >> 56);
			return r;
		}
		if(s.chance(3, 4)) {
			static const unsigned char steps[]{1, 3, 7, 0, 255};
			unsigned char c = static_cast<unsigned char>(s.byte());
			const auto step = s.pick(steps);
			for(auto & ch : r) { ch = static_cast<char>(c); c = static_cast<unsigned char>(c + step); }
		} else for(auto & ch : r) ch = s.byte();
		return r;
	}

	// an address range of 2^37 bytes, all zero, without memory behind it: sequences longer than 32 bits can count
	constexpr std::size_t vast_bytes = std::size_t{1} << 37;
	inline char * vast() {
		static char * const p = [] {
			void * const r = mmap(nullptr, vast_bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			return r == MAP_FAILED ? nullptr : static_cast<char *>(r);
		}();
		return p;
	}
	inline std::size_t position(pbt::Src & s, std::size_t max) { // at most max, often close to a power of two
		std::size_t r = 0;
		switch(s.raw(4)) {
			case 0: r = s.raw(300); break;
			case 1: r = max - s.raw(300); break;
			case 2: r = s.raw(max + 1); break;
			default: { const auto d = s.raw(40); r = (std::size_t{1} << s.range(7, 37)) + (d & 1 ? d / 2 : std::size_t{0} - d / 2); break; }
		}
		return r > max ? max : r;
	}

	// the fault after the k-th of count: all of them, or with large sizes the first and last few and some others
	inline std::size_t next_fault(pbt::Src & s, std::size_t k, std::size_t count) {
		if(!s.large || k < 3 || count < 30 || k + 3 >= count) return k + 1;
		const auto n = k + 1 + s.raw(count / 4);
		return n + 3 > count ? count - 3 : n;
	}
	struct StreamState { const char * data; std::size_t pos, size; };
	// strictly single-pass: all copies share one position; postfix ++ yields a proxy only
	class SinglePass {
		StreamState * st{nullptr};
	public:
		using iterator_category = std::input_iterator_tag;
		using value_type = char;
		using difference_type = std::ptrdiff_t;
		using pointer = const char *;
		using reference = char;
		struct Proxy { char c; char operator*() const { return c; } };

		SinglePass() =default;
		explicit SinglePass(StreamState & s) : st{&s} {}
		char operator*() const {
			if(st->pos >= st->size) pbt::fail("a single-pass iterator was read past its end");
			return st->data[st->pos];
		}
		auto operator++() -> SinglePass & {
			if(st->pos >= st->size) pbt::fail("a single-pass iterator was advanced past its end");
			++st->pos;
			return *this;
		}
		auto operator++(int) -> Proxy { Proxy p{**this}; ++*this; return p; }
		bool at_end() const { return !st || st->pos >= st->size; }
		friend bool operator==(const SinglePass & a, const SinglePass & b) { return a.at_end() == b.at_end(); }
		friend bool operator!=(const SinglePass & a, const SinglePass & b) { return !(a == b); }
	};
	// minimal forward iterator (multi-pass) over characters; dereferencing yields a const reference
	class Forward {
		const char * p{nullptr};
	public:
		using iterator_category = std::forward_iterator_tag;
		using value_type = char;
		using difference_type = std::ptrdiff_t;
		using pointer = const char *;
		using reference = const char &;

		Forward() =default;
		explicit Forward(const char * p) : p{p} {}
		auto operator*() const -> const char & { return *p; }
		auto operator++() -> Forward & { ++p; return *this; }
		auto operator++(int) -> Forward { auto t = *this; ++p; return t; }
		friend bool operator==(const Forward & a, const Forward & b) { return a.p == b.p; }
		friend bool operator!=(const Forward & a, const Forward & b) { return a.p != b.p; }
	};
	// single-pass / forward sources which throw on the n-th step (0: never)
	struct IterBoom { };
	struct Faults { std::size_t fuse{0}, steps{0}; bool blown{false};
		void step() { ++steps; if(fuse && --fuse == 0) { blown = true; throw IterBoom{}; } } };
}
