// Allocation tracking and fault injection around library calls.
// Link with -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc,--wrap=posix_memalign
#pragma once
#include "pbt.hpp"
#include <new>

extern "C" {
	void * __real_malloc(std::size_t);
	void * __real_calloc(std::size_t, std::size_t);
	void * __real_realloc(void *, std::size_t);
	void __real_free(void *);
	void * __real_aligned_alloc(std::size_t, std::size_t);
	int __real_posix_memalign(void **, std::size_t, std::size_t);
}

namespace alloc {
	enum Kind : unsigned char { c_heap, cpp_new, cpp_new_array, cpp_new_aligned, cpp_new_array_aligned };
	inline const char * kind_name(Kind k) {
		static const char * const names[]{"malloc", "operator new", "operator new[]", "aligned operator new", "aligned operator new[]"};
		return names[k];
	}
	constexpr std::size_t slots = 1u << 12, huge = std::size_t{1} << 30;
	struct Block { void * ptr; std::size_t size; Kind kind; };
	inline Block table[slots];
	inline std::size_t live_blocks = 0;
	inline int depth = 0;              // > 0: inside library code
	inline std::size_t requests = 0;   // since reset
	inline std::size_t fail_at = 0;    // fail the n-th request from when it was set (0: never)
	inline bool failed = false;        // a fault was injected
	inline bool failing_forever = false;

	inline std::size_t slot(const void * p) { return static_cast<std::size_t>(pbt::mix(reinterpret_cast<std::uintptr_t>(p))) & (slots - 1); }
	inline void * const tomb = reinterpret_cast<void *>(1);
	inline void put(void * p, std::size_t n, Kind k) {
		if(live_blocks > slots / 2) pbt::fail("too many live blocks (leak?)");
		auto i = slot(p);
		while(table[i].ptr && table[i].ptr != reinterpret_cast<void *>(1)) i = (i + 1) & (slots - 1);
		table[i] = {p, n, k};
		++live_blocks;
	}
	inline Block * find(const void * p) {
		for(auto i = slot(p), n = std::size_t{0}; table[i].ptr && n < slots; i = (i + 1) & (slots - 1), ++n) if(table[i].ptr == p) return &table[i];
		return nullptr;
	}
	inline void on_free(void * p, Kind k) {
		if(auto b = find(p)) {
			if(b->kind != k) pbt::fail("block of %s released as %s", kind_name(b->kind), kind_name(k));
			std::memset(p, 0xdd, b->size);
			b->ptr = reinterpret_cast<void *>(1);
			--live_blocks;
		}
	}
	// decides whether a request in library code may proceed
	inline bool admit(std::size_t n) {
		if(depth <= 0) return true;
		++requests;
		if(n > huge) return false;
		if(failing_forever) { failed = true; return false; }
		if(fail_at && --fail_at == 0) { failed = true; return false; }
		return true;
	}
	inline void * done(void * p, std::size_t n, Kind k, bool fill) {
		if(p && depth > 0) {
			put(p, n, k);
			if(fill) std::memset(p, 0xa5, n);
		}
		return p;
	}
	inline void reset() {
		std::memset(static_cast<void *>(table), 0, sizeof table);
		live_blocks = requests = fail_at = 0;
		failed = failing_forever = false;
		depth = 0;
	}
	inline void check_leaks() {
		fail_at = 0;
		failing_forever = false;
		if(live_blocks) {
			for(auto & b : table) if(b.ptr && b.ptr != reinterpret_cast<void *>(1)) pbt::fail("%zu block(s) leaked, one of %zu bytes from %s", live_blocks, b.size, kind_name(b.kind));
		}
	}
	inline const pbt::RegHook hook{reset, check_leaks};
#ifdef PBT_THREADS // nothing is tracked
	struct Lib { Lib() {} ~Lib() {} Lib(const Lib &) =delete; };
#else
	struct Lib { // library code runs while one of these lives
		Lib() { ++depth; }
		~Lib() { --depth; }
		Lib(const Lib &) =delete;
	};
#endif
	struct User { // user code called back from library code
		int saved = depth;
		User() { depth = 0; }
		~User() { depth = saved; }
		User(const User &) =delete;
	};
	inline void * op_new(std::size_t n, Kind k, std::size_t align = 0) {
		if(!admit(n)) throw std::bad_alloc{};
		void * p = nullptr;
		if(align) { if(__real_posix_memalign(&p, align < sizeof(void *) ? sizeof(void *) : align, n ? n : 1)) p = nullptr; }
		else p = __real_malloc(n ? n : 1);
		if(!p) throw std::bad_alloc{};
		return done(p, n, k, true);
	}
	inline void op_delete(void * p, Kind k) {
		if(!p) return;
		on_free(p, k);
		__real_free(p);
	}
}
#define LIB(...) [&]() -> decltype(auto) { ::alloc::Lib pbt_lib; return __VA_ARGS__; }()

#if IN_PART(0)
extern "C" {
	void * __wrap_malloc(std::size_t n) { return alloc::admit(n) ? alloc::done(__real_malloc(n), n, alloc::c_heap, true) : (errno = ENOMEM, nullptr); }
	void * __wrap_calloc(std::size_t a, std::size_t b) {
		std::size_t n;
		if(__builtin_mul_overflow(a, b, &n)) n = static_cast<std::size_t>(-1);
		return alloc::admit(n) ? alloc::done(__real_calloc(a, b), n, alloc::c_heap, false) : (errno = ENOMEM, nullptr);
	}
	void * __wrap_realloc(void * p, std::size_t n) {
		if(!alloc::admit(n)) { errno = ENOMEM; return nullptr; }
		auto b = p ? alloc::find(p) : nullptr;
		if(b && b->kind != alloc::c_heap) pbt::fail("block of %s passed to realloc", alloc::kind_name(b->kind));
		void * r = __real_realloc(p, n);
		if(b && r) {
			b->ptr = reinterpret_cast<void *>(1);
			--alloc::live_blocks;
		}
		return alloc::done(r, n, alloc::c_heap, false);
	}
	void __wrap_free(void * p) {
		if(!p) return;
		alloc::on_free(p, alloc::c_heap);
		__real_free(p);
	}
	void * __wrap_aligned_alloc(std::size_t a, std::size_t n) { return alloc::admit(n) ? alloc::done(__real_aligned_alloc(a, n), n, alloc::c_heap, true) : (errno = ENOMEM, nullptr); }
	int __wrap_posix_memalign(void ** out, std::size_t a, std::size_t n) {
		if(!alloc::admit(n)) return ENOMEM;
		const int r = __real_posix_memalign(out, a, n);
		if(r == 0) alloc::done(*out, n, alloc::c_heap, true);
		return r;
	}
}
#if !defined(PBT_THREADS) && !defined(PBT_TSAN)
void * operator new(std::size_t n) { return alloc::op_new(n, alloc::cpp_new); }
void * operator new[](std::size_t n) { return alloc::op_new(n, alloc::cpp_new_array); }
void * operator new(std::size_t n, std::align_val_t a) { return alloc::op_new(n, alloc::cpp_new_aligned, static_cast<std::size_t>(a)); }
void * operator new[](std::size_t n, std::align_val_t a) { return alloc::op_new(n, alloc::cpp_new_array_aligned, static_cast<std::size_t>(a)); }
void * operator new(std::size_t n, const std::nothrow_t &) noexcept { try { return alloc::op_new(n, alloc::cpp_new); } catch(...) { return nullptr; } }
void * operator new[](std::size_t n, const std::nothrow_t &) noexcept { try { return alloc::op_new(n, alloc::cpp_new_array); } catch(...) { return nullptr; } }
void * operator new(std::size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { try { return alloc::op_new(n, alloc::cpp_new_aligned, static_cast<std::size_t>(a)); } catch(...) { return nullptr; } }
void * operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t &) noexcept { try { return alloc::op_new(n, alloc::cpp_new_array_aligned, static_cast<std::size_t>(a)); } catch(...) { return nullptr; } }
void operator delete(void * p) noexcept { alloc::op_delete(p, alloc::cpp_new); }
void operator delete[](void * p) noexcept { alloc::op_delete(p, alloc::cpp_new_array); }
void operator delete(void * p, std::size_t) noexcept { alloc::op_delete(p, alloc::cpp_new); }
void operator delete[](void * p, std::size_t) noexcept { alloc::op_delete(p, alloc::cpp_new_array); }
void operator delete(void * p, const std::nothrow_t &) noexcept { alloc::op_delete(p, alloc::cpp_new); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { alloc::op_delete(p, alloc::cpp_new_array); }
void operator delete(void * p, std::align_val_t) noexcept { alloc::op_delete(p, alloc::cpp_new_aligned); }
void operator delete[](void * p, std::align_val_t) noexcept { alloc::op_delete(p, alloc::cpp_new_array_aligned); }
void operator delete(void * p, std::size_t, std::align_val_t) noexcept { alloc::op_delete(p, alloc::cpp_new_aligned); }
void operator delete[](void * p, std::size_t, std::align_val_t) noexcept { alloc::op_delete(p, alloc::cpp_new_array_aligned); }
#endif
#endif
