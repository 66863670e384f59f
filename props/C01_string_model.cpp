#include <ptl/string.hpp>
#include "strops.hpp"

// reads through every accessor agree with the model
static void read_all(const ptl::string & c, const std::string & m) {
	std::size_t i = 0;
	for(const char ch : c) PBT_CHECK(ch == m[i++]);
	for(std::size_t k = 0; k < m.size(); ++k) PBT_CHECK(c[k] == m[k] && c.at(k) == m[k]);
	if(!m.empty()) PBT_CHECK(c.front() == m.front() && c.back() == m.back());
}

PBT_TEST(history, 150000, "a history in which a string grew beyond the inline capacity or was reallocated, and was also cut or overwritten") {
	ptl::string v[3];
	std::string m[3];
	for(int i = 0; i < 3; ++i) strops::same(v[i], m[i], "default constructed");
	bool grew = false, cut = false;
	std::size_t n = 0;
	while(s.more(n, 14, 60)) {
		const auto i = s.raw(3), j = (i + 1 + s.raw(2)) % 3;
		const auto before = m[i].size();
		const auto cap = v[i].capacity();
		TRACE("#%zu on %zu (size %zu, capacity %zu):", n, i, before, cap);
		strops::op(s, v[i], m[i], v[j], m[j]);
		for(int k = 0; k < 3; ++k) strops::same(v[k], m[k], "after operation");
		grew = grew || v[i].capacity() > cap;
		cut = cut || m[i].size() < before;
	}
	for(int k = 0; k < 3; ++k) read_all(v[k], m[k]);
	if(grew && cut) s.nontrivial();
	if(grew) s.label("cases that grew");
	if(cut) s.label("cases that cut");
}

PBT_TEST(construct, 60000, "constructed content is not empty") {
	std::string m;
	const auto v = strops::build(s, m, 2000);
	strops::same(v, m, "constructed");
	read_all(v, m);
	if(!m.empty()) s.nontrivial();
}

PBT_TEST(large, 4000, "some string held more than 65535 characters") {
	s.large = true;
	ptl::string v[2];
	std::string m[2];
	bool big = false;
	std::size_t n = 0;
	while(s.more(n, 6, 20)) {
		const auto i = s.raw(2), j = 1 - i;
		TRACE("#%zu on %zu (size %zu, capacity %zu):", n, static_cast<std::size_t>(i), m[i].size(), v[i].capacity());
		strops::op(s, v[i], m[i], v[j], m[j]);
		for(int k = 0; k < 2; ++k) strops::same(v[k], m[k], "after operation");
		big = big || m[i].size() > 65535;
		if(m[i].size() > 400000) { v[i].clear(); m[i].clear(); }
	}
	for(int k = 0; k < 2; ++k) read_all(v[k], m[k]);
	if(big) s.nontrivial();
}

// few operations on strings which are large from the start
PBT_TEST(large_start, 4000, "an operation on a string of more than 65535 characters") {
	ptl::string v[2];
	std::string m[2];
	for(int i = 0; i < 2; ++i) {
		const std::size_t n = i && s.flip() ? s.raw(40) : s.chance(1, 6) ? (std::size_t{1} << 20) - 3 + s.raw(200000) : 65530 + s.raw(100000);
		m[i].resize(n);
		const auto step = 1 + 2 * s.raw(50);
		for(std::size_t k = 0; k < n; ++k) m[i][k] = static_cast<char>(k * step >> 3 ^ k);
		if(s.flip()) v[i].reserve(n + s.raw(70000));
		v[i].append(std::string_view{m[i]});
	}
	std::size_t n = 0;
	do {
		TRACE("#%zu on size %zu, capacity %zu; other %zu:", n, m[0].size(), v[0].capacity(), m[1].size());
		if(m[0].size() > 65535) s.nontrivial();
		strops::op(s, v[0], m[0], v[1], m[1]);
		for(int k = 0; k < 2; ++k) strops::same(v[k], m[k], "after operation");
	} while(s.more(n, 1, 4));
}
