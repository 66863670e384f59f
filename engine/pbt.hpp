// A small choice-sequence property-testing engine (see DESIGN.md section 1).
// Usage: #include the PTL header under test first, then this, then PBT_TEST(name, quick_cases, "non-trivial rule") { ... }
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>

namespace pbt {
	constexpr int exit_fail = 101, exit_hang = 102;
	constexpr std::size_t max_choices = 1u << 16, max_trace = 1u << 17, max_labels = 96, max_tests = 64;

	struct Shared { // one per worker; survives the worker's death
		volatile std::uint64_t test, index;            // current case
		volatile std::uint64_t done[max_tests], nontrivial[max_tests], extra[max_tests];
		volatile std::uint64_t nchoices;
		std::uint64_t choices[max_choices];
		volatile std::uint64_t ntrace;
		char trace[max_trace];
		char message[8192];
		struct { const char * name; volatile std::uint64_t n; } labels[max_tests][max_labels];
		volatile std::uint64_t samples[max_tests][4], nsamples[max_tests];
	};
	inline Shared * shm = nullptr;
	inline bool tracing = false;
	inline thread_local bool muted = false; // threads started by a case: nothing is recorded
	inline const char * tier = "quick";
	inline bool thorough() { return tier[0] == 't'; }

	[[noreturn]] inline void die(int code) {
#ifdef PBT_FUZZER
		(void)code;
		std::fprintf(stderr, "PBT FAILURE: %s\n", shm ? shm->message : "");
		std::abort();
#else
		std::fflush(stderr);
		_exit(code);
#endif
	}
	[[noreturn]] inline void fail(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
	[[noreturn]] inline void fail(const char * fmt, ...) {
		va_list ap;
		va_start(ap, fmt);
		std::vsnprintf(shm->message, sizeof shm->message, fmt, ap);
		va_end(ap);
		die(exit_fail);
	}
	inline void trace(const char * fmt, ...) __attribute__((format(printf, 1, 2)));
	inline void trace(const char * fmt, ...) {
		if(!tracing || muted) return;
		const auto n = shm->ntrace;
		if(n + 2 >= max_trace) return;
		va_list ap;
		va_start(ap, fmt);
		const int k = std::vsnprintf(shm->trace + n, max_trace - n - 1, fmt, ap);
		va_end(ap);
		auto m = n + static_cast<std::uint64_t>(k > 0 ? k : 0);
		if(m > max_trace - 2) m = max_trace - 2;
		shm->trace[m++] = '\n';
		shm->ntrace = m;
	}

	inline std::uint64_t mix(std::uint64_t x) {
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}
	inline std::uint64_t hash_str(const char * s) {
		std::uint64_t h = 1469598103934665603ull;
		for(; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull;
		return h;
	}

	class Src {
		std::uint64_t state = 0;
		const std::vector<std::uint64_t> * fixed = nullptr;
		const unsigned char * bytes = nullptr;
		std::size_t nbytes = 0, pos = 0;
		bool is_nontrivial = false, quiet = false;

		std::uint64_t next(std::uint64_t n) {
			if(bytes) {
				int k = n <= 256 ? 1 : n <= 65536 ? 2 : 8;
				std::uint64_t v = 0;
				while(k-- && pos < nbytes) v = v << 8 | bytes[pos++];
				return n ? v % n : v;
			}
			if(fixed) {
				const std::uint64_t v = pos < fixed->size() ? (*fixed)[pos] : 0;
				++pos;
				return n ? v % n : v;
			}
			const std::uint64_t v = mix(state++);
			return n ? v % n : v;
		}
	public:
		bool large = false; // lengths beyond any maximum, around powers of two up to 2^17, are generated as well (set by tests of large sizes)

		explicit Src(std::uint64_t seed) : state{mix(seed)} {}
		explicit Src(const std::vector<std::uint64_t> & choices, bool quiet = false) : quiet{quiet}, fixed{&choices} {} // quiet: records nothing, so that it may be used in another thread
		Src(const unsigned char * data, std::size_t size) : bytes{data}, nbytes{size} {}
		Src(const Src &) =delete;

		// a choice in [0, n), n == 0 meaning 2^64; 0 is the simplest
		std::uint64_t raw(std::uint64_t n) {
			if(n == 1) return 0;
			const auto v = next(n);
			if(quiet) return v;
			const auto k = shm->nchoices;
			if(k < max_choices) {
				shm->choices[k] = v;
				shm->nchoices = k + 1;
			}
			return v;
		}
		std::size_t below(std::size_t n) { return raw(n); }
		std::size_t range(std::size_t lo, std::size_t hi) { return lo + raw(hi - lo + 1); } // inclusive
		bool flip() { return raw(2) != 0; }
		bool chance(unsigned num, unsigned den) { return raw(den) >= den - num; } // true with num/den; 0 is false
		bool exhausted() const { return bytes && pos >= nbytes; }
		// loop condition: on average `avg` iterations, at most `max`
		bool more(std::size_t & count, std::size_t avg, std::size_t max) {
			if(count >= max || exhausted()) return false;
			if(large && avg > 6) avg = 6;
			if(!chance(static_cast<unsigned>(avg), static_cast<unsigned>(avg + 1))) return false;
			++count;
			return true;
		}
		// a length with small numbers and storage boundaries preferred
		std::size_t len(std::size_t max) {
			static const std::uint16_t special[]{21, 22, 23, 24, 25, 46, 47, 48, 49, 71, 72, 73, 95, 96, 97, 127, 128, 129, 254, 255, 256, 257};
			if(large && chance(1, 3)) {
				static const std::uint32_t huge[]{1u << 9, 1u << 10, 1u << 11, 1u << 12, 1u << 13, 1u << 14, 1u << 15, 1u << 16, 1u << 16, 1u << 16, 1u << 16, 1u << 16, 1u << 17, 1u << 17};
				const std::size_t v = pick(huge);
				switch(raw(3)) { case 0: return v - 2 + raw(5); case 1: return v + raw(300); default: return 300 + raw(v); }
			}
			switch(raw(8)) {
				case 0: case 1: case 2: return raw((max < 8 ? max : 8) + 1);
				case 3: case 4: return raw((max < 30 ? max : 30) + 1);
				case 5: case 6: { const std::size_t v = special[raw(sizeof special / sizeof *special)]; return v <= max ? v : raw(max + 1); }
				default: return raw(max + 1);
			}
		}
		char byte() {
			switch(raw(8)) {
				case 0: case 1: case 2: case 3: return static_cast<char>('a' + raw(26));
				case 4: return 0;
				case 5: { static const unsigned char v[]{0x7f, 0x80, 0xff, 1, '\n', ' ', 'A', '0'}; return static_cast<char>(v[raw(8)]); }
				default: return static_cast<char>(raw(256));
			}
		}
		template<typename T, std::size_t N>
		const T & pick(const T (&v)[N]) { return v[raw(N)]; }

		void nontrivial() { is_nontrivial = true; }
		bool nontrivial_flag() const { return is_nontrivial; }
		void label(const char * name, std::uint64_t n = 1) {
			if(quiet) return;
			auto & table = shm->labels[shm->test];
			for(auto & l : table) {
				if(!l.name) l.name = name;
				if(l.name == name) {
					l.n = l.n + n;
					return;
				}
			}
		}
		void evaluations(std::uint64_t n) { shm->extra[shm->test] = shm->extra[shm->test] + n; }
	};

	using Body = void (*)(Src &);
	struct Test { const char * name; std::uint64_t quick; const char * rule; Body body; };
	inline std::vector<Test> & tests() { static std::vector<Test> v; return v; }
	struct Reg { Reg(const char * n, std::uint64_t q, const char * r, Body b) { tests().push_back({n, q, r, b}); } };
#define PBT_TEST(NAME, QUICK, RULE) \
	static void pbt_body_##NAME(::pbt::Src & s); \
	static const ::pbt::Reg pbt_reg_##NAME{#NAME, QUICK, RULE, pbt_body_##NAME}; \
	static void pbt_body_##NAME([[maybe_unused]] ::pbt::Src & s)
#define PBT_CHECK(COND, ...) do { if(!(COND)) ::pbt::fail("check failed: " #COND " | " __VA_ARGS__); } while(0)
#define TRACE(...) do { if(::pbt::tracing && !::pbt::muted) ::pbt::trace(__VA_ARGS__); } while(0)

	// hooks run before / after each case (allocation and lifetime registries add theirs)
	struct Hooks { std::vector<void (*)()> before, after; };
	inline Hooks & hooks() { static Hooks h; return h; }
	struct RegHook { RegHook(void (*b)(), void (*a)()) { if(b) hooks().before.push_back(b); if(a) hooks().after.push_back(a); } };

	inline double now() { timeval tv; gettimeofday(&tv, nullptr); return static_cast<double>(tv.tv_sec) + static_cast<double>(tv.tv_usec) * 1e-6; }
	inline bool may_take_long = false;
	inline void on_prof(int) {
		if(may_take_long) _exit(0);
		static const char msg[] = "case used more CPU time than any terminating case could (hang)";
		std::memcpy(shm->message, msg, sizeof msg);
		_exit(exit_hang);
	}
	inline int cpu_limit = 20;
	inline void arm_watchdog(int sec) {
		itimerval it{};
		it.it_value.tv_sec = sec;
		setitimer(ITIMER_PROF, &it, nullptr);
	}
	// a case whose sizes make a correct linear algorithm slow: running out of time says nothing then, and all of these together have a limit
	struct Slow {
		static inline double spent = 0;
		const double start = now();
		Slow() { may_take_long = true; arm_watchdog(5); }
		~Slow() { spent += now() - start; }
		explicit operator bool() const { return spent < 40; }
	};
	inline void run_case(const Test & t, Src & s) {
		shm->nchoices = 0;
		shm->ntrace = 0;
		shm->message[0] = 0;
		may_take_long = false;
		for(auto h : hooks().before) h();
		try {
			t.body(s);
		} catch(const std::exception & e) {
			fail("unexpected exception escaped: %s", e.what());
		} catch(...) {
			fail("unexpected exception escaped");
		}
		for(auto h : hooks().after) h();
	}
	// text of bytes for traces
	inline std::string show(const char * p, std::size_t n) {
		std::string r = "\"";
		for(std::size_t i = 0; i < n && i < 300; ++i) {
			const unsigned char c = static_cast<unsigned char>(p[i]);
			if(c >= 32 && c < 127 && c != '"' && c != '\\') r += static_cast<char>(c);
			else { char b[8]; std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
		}
		return r + (n > 300 ? "\"..." : "\"");
	}
}

// A harness may be split into parts which are compiled in parallel ("// PARTS n" in its first line).
#ifdef PBT_PART
#define IN_PART(k) (PBT_PART == (k))
#else
#define IN_PART(k) 1
#endif
#if !IN_PART(0)
#elif defined(PBT_FUZZER)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t * data, std::size_t size) {
	using namespace pbt;
	if(!shm) {
		shm = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		__sanitizer_set_death_callback([] {
			if(const char * p = std::getenv("PBT_DUMP")) {
				const int fd = open(p, O_WRONLY | O_CREAT | O_TRUNC, 0644);
				if(fd >= 0) {
					char b[64];
					int k = std::snprintf(b, sizeof b, "test %s\nchoices", tests()[shm->test].name);
					if(write(fd, b, static_cast<std::size_t>(k)) < 0) {}
					for(std::uint64_t i = 0; i < shm->nchoices; ++i) {
						k = std::snprintf(b, sizeof b, " %llu", static_cast<unsigned long long>(shm->choices[i]));
						if(write(fd, b, static_cast<std::size_t>(k)) < 0) {}
					}
					if(write(fd, "\n", 1) < 0) {}
					close(fd);
				}
			}
		});
	}
	if(size == 0) return 0;
	shm->test = data[0] % tests().size();
	Src s{data + 1, size - 1};
	run_case(tests()[shm->test], s);
	return 0;
}
#else

namespace pbt {
	inline std::uint64_t seed_value = 1;
	inline double scale = 1;
	inline int workers = 4;
	inline std::uint64_t case_seed(const Test & t, std::uint64_t i) { return mix(mix(seed_value) ^ hash_str(t.name) ^ mix(i * 0x2545F4914F6CDD1Dull + 77)); }

	inline std::string json_str(const std::string & s) {
		std::string r = "\"";
		for(const unsigned char c : s) {
			if(c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
			else if(c == '\n') r += "\\n";
			else if(c < 32 || c >= 127) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
			else r += static_cast<char>(c);
		}
		return r + "\"";
	}

	struct Outcome { bool failed; std::string message, trace, log; std::vector<std::uint64_t> choices; };
	inline std::string slurp(const char * path, std::size_t max) {
		std::string r;
		if(FILE * f = std::fopen(path, "rb")) {
			r.resize(max);
			r.resize(std::fread(&r[0], 1, max, f));
			std::fclose(f);
		}
		return r;
	}
	inline std::string status_text(int st) {
		if(WIFEXITED(st) && WEXITSTATUS(st) == exit_fail) return "";
		if(WIFEXITED(st)) return "process exited with status " + std::to_string(WEXITSTATUS(st));
		if(WIFSIGNALED(st)) return std::string("process killed by signal ") + strsignal(WTERMSIG(st)) + " (crash, sanitizer report or std::terminate)";
		return "process died";
	}
	// run something in a forked child; the child reports through `sh`
	template<typename F>
	Outcome isolated(Shared * sh, F f, bool with_log) {
		char path[64];
		std::snprintf(path, sizeof path, "/tmp/pbt.%d.log", static_cast<int>(getpid()));
		sh->nchoices = sh->ntrace = 0;
		sh->message[0] = 0;
		const pid_t pid = fork();
		if(pid == 0) {
			shm = sh;
			const int fd = open(with_log ? path : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0600);
			dup2(fd, 2);
			dup2(fd, 1);
			f();
			_exit(0);
		}
		int st = 0;
		while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
		Outcome o{};
		o.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
		o.choices.assign(sh->choices, sh->choices + sh->nchoices);
		if(o.failed) {
			o.message = sh->message;
			const auto t = status_text(st);
			if(!t.empty()) o.message += (o.message.empty() ? "" : "; ") + t;
		}
		o.trace.assign(sh->trace, sh->ntrace);
		if(with_log) {
			o.log = slurp(path, 12000);
			unlink(path);
		}
		return o;
	}
	inline Outcome try_choices(Shared * sh, const Test & t, std::uint64_t ti, const std::vector<std::uint64_t> & c, bool full, int limit) {
		return isolated(sh, [&] {
			shm->test = ti;
			tracing = full;
			arm_watchdog(limit);
			Src s{c};
			run_case(t, s);
		}, full);
	}

	inline std::vector<std::uint64_t> shrink(Shared * sh, const Test & t, std::uint64_t ti, std::vector<std::uint64_t> best, bool hang) {
		const double end = now() + 60;
		int left = hang ? 12 : 3000;
		const int limit = hang ? cpu_limit : cpu_limit;
		auto attempt = [&](const std::vector<std::uint64_t> & c) {
			if(left <= 0 || now() > end) return false;
			--left;
			auto o = try_choices(sh, t, ti, c, false, limit);
			if(!o.failed) return false;
			auto cand = o.choices.size() <= c.size() ? o.choices : c;
			while(!cand.empty() && cand.back() == 0) cand.pop_back();
			if(cand.size() < best.size() || (cand.size() == best.size() && cand < best)) { best = cand; return true; }
			return false;
		};
		bool progress = true;
		while(progress && left > 0 && now() < end) {
			progress = false;
			for(std::size_t k = best.size() / 2 > 64 ? 64 : (best.size() / 2 ? best.size() / 2 : 1); ; k /= 2) { // delete chunks, from the back
				for(std::size_t i = best.size(); i-- > 0 && left > 0; ) {
					if(i + k > best.size()) continue;
					auto c = best;
					c.erase(c.begin() + static_cast<std::ptrdiff_t>(i), c.begin() + static_cast<std::ptrdiff_t>(i + k));
					if(attempt(c)) progress = true;
				}
				if(k <= 1) break;
			}
			for(std::size_t i = 0; i < best.size() && left > 0; ++i) { // reduce values
				if(best[i] == 0) continue;
				auto c = best;
				c[i] = 0;
				if(attempt(c)) { progress = true; continue; }
				for(std::uint64_t d = best[i] / 2; d; d /= 2) {
					if(i >= best.size() || best[i] < d) break;
					c = best;
					c[i] -= d;
					if(attempt(c)) progress = true;
				}
			}
		}
		return best;
	}

	inline int run_all(const char * out, const char * only) {
		const auto & ts = tests();
		std::vector<Shared *> sh(static_cast<std::size_t>(workers));
		for(auto & p : sh) p = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		auto * stop = static_cast<volatile std::uint64_t *>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		std::vector<std::uint64_t> budget;
		std::uint64_t total = 0;
		for(const auto & t : ts) {
			auto b = static_cast<std::uint64_t>(static_cast<double>(t.quick) * scale);
			if(only && std::strcmp(only, t.name)) b = 0;
			budget.push_back(b);
			total += b;
		}
		const auto per_worker = total / static_cast<std::uint64_t>(workers) + ts.size() + 1;
		std::vector<std::uint64_t *> hashes;
		for(int w = 0; w < workers; ++w) hashes.push_back(static_cast<std::uint64_t *>(mmap(nullptr, (per_worker + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)));
		auto run_worker = [&](int w, bool hash_cases) {
			std::uint64_t nh = 0;
			for(std::uint64_t ti = 0; ti < ts.size(); ++ti) {
				shm->test = ti;
				for(std::uint64_t i = static_cast<std::uint64_t>(w); i < budget[ti]; i += static_cast<std::uint64_t>(workers)) {
					if(*stop) return;
					shm->index = i;
					arm_watchdog(cpu_limit);
					Src s{case_seed(ts[ti], i)};
					run_case(ts[ti], s);
					shm->done[ti] = shm->done[ti] + 1;
					if(s.nontrivial_flag() && hash_cases) {
						std::uint64_t h = ti;
						for(std::uint64_t k = 0; k < shm->nchoices; ++k) h = mix(h ^ shm->choices[k]);
						hashes[static_cast<std::size_t>(w)][1 + nh++] = h | 1;
						hashes[static_cast<std::size_t>(w)][0] = nh;
						shm->nontrivial[ti] = shm->nontrivial[ti] + 1;
						if(shm->nsamples[ti] < 2 && (shm->nsamples[ti] == 0 || i > budget[ti] / 2)) {
							shm->samples[ti][shm->nsamples[ti]] = i;
							shm->nsamples[ti] = shm->nsamples[ti] + 1;
						}
					}
				}
			}
		};
		const double start = now();
		std::vector<pid_t> pids;
		char logs[64];
		std::snprintf(logs, sizeof logs, "/tmp/pbt.%d.w", static_cast<int>(getpid()));
		for(int w = 0; w < workers; ++w) {
			const pid_t pid = fork();
			if(pid == 0) {
				shm = sh[static_cast<std::size_t>(w)];
				const int fd = open("/dev/null", O_WRONLY);
				dup2(fd, 2);
				dup2(fd, 1);
				run_worker(w, true);
				_exit(0);
			}
			pids.push_back(pid);
		}
		int failed_worker = -1, failed_status = 0;
		for(int alive = workers; alive > 0; ) {
			int st = 0;
			const pid_t pid = wait(&st);
			if(pid < 0) break;
			for(int w = 0; w < workers; ++w) if(pids[static_cast<std::size_t>(w)] == pid) {
				--alive;
				if(!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && failed_worker < 0) {
					failed_worker = w;
					failed_status = st;
					*stop = 1;
				}
			}
		}
		std::string failure = "null";
		int rc = 0;
		auto * scratch = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		if(failed_worker >= 0) {
			auto & f = *sh[static_cast<std::size_t>(failed_worker)];
			const std::uint64_t ti = f.test, index = f.index;
			const auto & t = ts[ti];
			std::vector<std::uint64_t> c(f.choices, f.choices + f.nchoices);
			const bool hang = WIFEXITED(failed_status) && WEXITSTATUS(failed_status) == exit_hang;
			std::string first = std::string(f.message) + " " + status_text(failed_status);
			auto o = try_choices(scratch, t, ti, c, true, cpu_limit);
#ifdef PBT_RETRIES // cases which depend on the schedule as well
			for(int k = 0; k < PBT_RETRIES && !o.failed; ++k) o = try_choices(scratch, t, ti, c, true, cpu_limit);
#else
			constexpr int PBT_RETRIES = 3;
#endif
			if(o.failed) {
				c = shrink(scratch, t, ti, c, hang);
				int again = 0;
				for(int k = 0; k < PBT_RETRIES && again < 3; ++k) {
					auto r = try_choices(scratch, t, ti, c, true, cpu_limit);
					if(r.failed) { ++again; o = r; }
				}
				std::string cs;
				for(auto v : c) cs += (cs.empty() ? "" : " ") + std::to_string(v);
				failure = "{\"kind\":\"case\",\"test\":" + json_str(t.name) + ",\"index\":" + std::to_string(index) + ",\"confirmed\":" + std::to_string(again) + ",\"choices\":" + json_str(cs) + ",\"message\":" + json_str(o.message) + ",\"trace\":" + json_str(o.trace) + ",\"log\":" + json_str(o.log) + "}";
			} else { // depends on what earlier cases of the same process left behind: replay the worker's whole prefix
				int again = 0;
				Outcome r{};
				*stop = 0;
				for(int k = 0; k < 3; ++k) {
					r = isolated(scratch, [&] { run_worker(failed_worker, false); }, true);
					if(r.failed) ++again;
				}
				failure = "{\"kind\":\"prefix\",\"test\":" + json_str(t.name) + ",\"index\":" + std::to_string(index) + ",\"confirmed\":" + std::to_string(again) + ",\"worker\":" + std::to_string(failed_worker) + ",\"workers\":" + std::to_string(workers) + ",\"scale\":" + std::to_string(scale) + ",\"seed\":" + std::to_string(seed_value) + ",\"choices\":\"\",\"message\":" + json_str(first + " | " + r.message) + ",\"trace\":\"\",\"log\":" + json_str(r.log) + "}";
			}
			rc = 1;
		}
		std::string json = "{\"tests\":[";
		std::vector<std::uint64_t> all;
		for(int w = 0; w < workers; ++w) all.insert(all.end(), hashes[static_cast<std::size_t>(w)] + 1, hashes[static_cast<std::size_t>(w)] + 1 + hashes[static_cast<std::size_t>(w)][0]);
		if(!all.empty()) std::qsort(all.data(), all.size(), 8, [](const void * a, const void * b) { const auto x = *static_cast<const std::uint64_t *>(a), y = *static_cast<const std::uint64_t *>(b); return x < y ? -1 : x > y; });
		std::uint64_t distinct = 0;
		for(std::size_t i = 0; i < all.size(); ++i) if(i == 0 || all[i] != all[i - 1]) ++distinct;
		bool first_test = true;
		for(std::uint64_t ti = 0; ti < ts.size(); ++ti) {
			if(budget[ti] == 0) continue;
			std::uint64_t done = 0, nt = 0, extra = 0;
			std::vector<std::pair<std::string, std::uint64_t>> labels;
			std::vector<std::uint64_t> samples;
			for(auto p : sh) {
				done += p->done[ti];
				nt += p->nontrivial[ti];
				extra += p->extra[ti];
				for(auto & l : p->labels[ti]) {
					if(!l.name) break;
					bool found = false;
					for(auto & x : labels) if(x.first == l.name) { x.second += l.n; found = true; }
					if(!found) labels.emplace_back(l.name, l.n);
				}
				for(std::uint64_t k = 0; k < p->nsamples[ti]; ++k) samples.push_back(+p->samples[ti][k]);
			}
			json += std::string(first_test ? "" : ",") + "{\"name\":" + json_str(ts[ti].name) + ",\"rule\":" + json_str(ts[ti].rule) + ",\"cases\":" + std::to_string(done) + ",\"extra\":" + std::to_string(extra) + ",\"nontrivial\":" + std::to_string(nt) + ",\"labels\":{";
			first_test = false;
			for(std::size_t k = 0; k < labels.size(); ++k) json += (k ? "," : "") + json_str(labels[k].first) + ":" + std::to_string(labels[k].second);
			json += "},\"samples\":[";
			if(rc == 0) for(std::size_t k = 0; k < samples.size() && k < 2; ++k) {
				auto o = isolated(scratch, [&] {
					shm->test = ti;
					tracing = true;
					Src s{case_seed(ts[ti], samples[k])};
					run_case(ts[ti], s);
				}, false);
				if(o.trace.size() > 1500) o.trace.resize(1500);
				json += (k ? "," : "") + json_str("case " + std::to_string(samples[k]) + ": " + o.trace);
			}
			json += "]}";
		}
		json += "],\"distinct\":" + std::to_string(distinct) + ",\"wall\":" + std::to_string(now() - start) + ",\"failure\":" + failure + "}\n";
		if(FILE * f = std::fopen(out, "wb")) {
			std::fwrite(json.data(), 1, json.size(), f);
			std::fclose(f);
		}
		return rc;
	}
	inline std::vector<std::uint64_t> parse_choices(const char * p) {
		std::vector<std::uint64_t> v;
		while(p && *p) {
			char * e = nullptr;
			const auto x = std::strtoull(p, &e, 10);
			if(e == p) break;
			v.push_back(x);
			p = e;
		}
		return v;
	}
	// replay TEST "c c c": exit 1 and print when it fails
	inline int replay(const char * test, const char * choices, bool do_shrink) {
		auto * scratch = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		for(std::uint64_t ti = 0; ti < tests().size(); ++ti) {
			if(std::strcmp(test, tests()[ti].name)) continue;
			auto c = parse_choices(choices);
			if(do_shrink && try_choices(scratch, tests()[ti], ti, c, false, cpu_limit).failed) c = shrink(scratch, tests()[ti], ti, c, false);
			const auto o = try_choices(scratch, tests()[ti], ti, c, true, cpu_limit);
			std::string cs;
			for(auto v : c) cs += (cs.empty() ? "" : " ") + std::to_string(v);
			std::printf("{\"failed\":%s,\"test\":%s,\"choices\":%s,\"message\":%s,\"trace\":%s,\"log\":%s}\n", o.failed ? "true" : "false", json_str(test).c_str(), json_str(cs).c_str(), json_str(o.message).c_str(), json_str(o.trace).c_str(), json_str(o.log).c_str());
			return o.failed;
		}
		std::fprintf(stderr, "no such test: %s\n", test);
		return 2;
	}
}

int main(int argc, char ** argv) {
	using namespace pbt;
	struct sigaction sa{};
	sa.sa_handler = on_prof;
	sigaction(SIGPROF, &sa, nullptr);
	rlimit rl{0, 0};
	setrlimit(RLIMIT_CORE, &rl);
	std::string mode = argc > 1 ? argv[1] : "run", out = "/dev/stdout", test, choices;
	for(int i = 2; i + 1 < argc; i += 2) {
		const std::string a = argv[i];
		if(a == "--seed") seed_value = std::strtoull(argv[i + 1], nullptr, 10);
		else if(a == "--scale") scale = std::atof(argv[i + 1]);
		else if(a == "--workers") workers = std::atoi(argv[i + 1]);
		else if(a == "--out") out = argv[i + 1];
		else if(a == "--tier") tier = argv[i + 1];
		else if(a == "--test") test = argv[i + 1];
		else if(a == "--choices") choices = argv[i + 1];
	}
	if(mode == "run") return run_all(out.c_str(), test.empty() ? nullptr : test.c_str());
	if(mode == "replay") return replay(test.c_str(), choices.c_str(), false);
	if(mode == "shrink") return replay(test.c_str(), choices.c_str(), true);
	return 2;
}
#endif
