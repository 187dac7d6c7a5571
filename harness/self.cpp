// Self test of the engine and its models: parts of the C and C++ libraries that code under test may come to use.
#include "msx.h"
#include <algorithm>
#include <any>
#include <array>
#include <atomic>
#include <bitset>
#include <cctype>
#include <cerrno>
#include <charconv>
#include <chrono>
#include <condition_variable>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <queue>
#include <set>
#include <shared_mutex>
#include <stack>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#define T(name) extern "C" void name()
#define CHECK(x) msx_assert(x, #x)
namespace { unsigned sym(unsigned n, char const* w) { return (unsigned)msx_range(0, n - 1, w); } unsigned pick(unsigned n, char const* w) { return (unsigned)msx_concretize(sym(n, w)); }
std::string text(size_t n) { std::string s(n, 'x'); msx_symbolic(s.data(), n, "text"); for(auto c : s) msx_assume((c >= 'a') & (c <= 'c')); return s; } }
T(t_ctype) { char c; msx_symbolic(&c, 1, "c"); msx_assume(c > 0); bool d = std::isdigit((unsigned char)c), a = std::isalpha(c), s = std::isspace(c), x = isxdigit(c), u = isupper(c), p = isprint(c), n = isalnum(c), q = ispunct(c), l = islower(c), k = iscntrl(c), g = isgraph(c), b = isblank(c); char lo = (char)tolower(c), up = (char)std::toupper(c);
  CHECK(d == (c >= '0' && c <= '9')); CHECK(a == ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'))); CHECK(s == (c == ' ' || (c >= 9 && c <= 13))); CHECK(n == (a || d)); CHECK(u == (c >= 'A' && c <= 'Z')); CHECK(l == (c >= 'a' && c <= 'z')); CHECK(p == (c >= 32 && c < 127)); CHECK(q == (p && !n && c != ' ')); CHECK(k == (c < 32 || c == 127)); CHECK(g == (c > 32 && c < 127)); CHECK(b == (c == ' ' || c == '\t')); CHECK(x == (d || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))); CHECK(lo == (u ? c + 32 : c)); CHECK(up == (l ? c - 32 : c)); msx_reach("done"); }
T(t_cstring) { auto s = text(3); char b[16]; strcpy(b, s.c_str()); strcat(b, "b"); CHECK(strlen(b) == 4); CHECK(strrchr(b, 'b') == b + 3); char* f = strstr(b, "b"); CHECK(f && *f == 'b'); strncpy(b, "abc", 5); CHECK(b[4] == 0); CHECK(strncmp(b, "abd", 2) == 0); CHECK(memchr(b, 'c', 4) == b + 2); CHECK(strcasecmp("aB", "Ab") == 0); CHECK(strspn("aab", "a") == 2); CHECK(strcspn("aab", "b") == 2); CHECK(strpbrk("xyz", "zy")[0] == 'y'); memmove(b + 1, b, 3); CHECK(b[3] == 'c'); CHECK(memcmp(b, "aabc", 4) == 0); CHECK(strnlen("abc", 2) == 2); CHECK(memrchr("aba", 'a', 3) != nullptr); CHECK(memmem("abc", 3, "bc", 2) != nullptr); char* d = strdup("q"); CHECK(d[0] == 'q'); free(d); CHECK(*stpcpy(b, "zz") == 0); CHECK(strchrnul("ab", 'x')[0] == 0); CHECK(strncasecmp("ABc", "abd", 2) == 0); msx_reach("done"); }
T(t_convert) { CHECK(std::stoi("12") == 12); CHECK(std::stol("-7") == -7); CHECK(std::stoul("ff", nullptr, 16) == 255); CHECK(std::stoull("18446744073709551615") == ~0ull); bool t = false; try { (void)std::stoi("x"); } catch(std::invalid_argument const&) { t = true; } CHECK(t); t = false; try { (void)std::stoi("99999999999"); } catch(std::out_of_range const&) { t = true; } CHECK(t); CHECK(std::to_string(-12) == "-12"); CHECK(atoi("3a") == 3); CHECK(strtoul("10", nullptr, 8) == 8); int v = 0; char const* s = "42z"; auto r = std::from_chars(s, s + 3, v); CHECK(v == 42 && r.ptr == s + 2); char b[8]; auto w = std::to_chars(b, b + 8, 19); CHECK(w.ptr == b + 2 && b[0] == '1'); auto x = text(1); t = false; try { (void)std::stoi(x); } catch(std::exception const&) { t = true; } CHECK(t); CHECK(std::abs(-3) == 3); msx_reach("done"); }
T(t_printf) { char b[32]; int n = snprintf(b, sizeof b, "%s-%d-%c-%zu-%02x", "ab", -5, 'q', (size_t)7, 10u); CHECK(n == 12); CHECK(!strcmp(b, "ab--5-q-7-0a")); n = snprintf(b, 4, "%lu%%", 12345ul); CHECK(n == 6 && !strcmp(b, "123")); CHECK(sprintf(b, "%3d|%-3d|%03d", 1, 2, 3) == 11 && !strcmp(b, "  1|2  |003")); printf("%s\n", "x"); fprintf(stderr, "%d\n", 1); puts("x"); fputs("a", stdout); fputc('b', stderr); putchar('c'); fwrite("q", 1, 1, stdout); fflush(stdout); perror("z"); msx_reach("done"); }
T(t_algo) { std::vector<int> v{3, 1, 2}; std::sort(v.begin(), v.end()); CHECK(v[0] == 1 && v[2] == 3); std::stable_sort(v.begin(), v.end(), std::greater<int>{}); CHECK(v[0] == 3); std::reverse(v.begin(), v.end()); CHECK(std::accumulate(v.begin(), v.end(), 0) == 6); v.erase(std::remove_if(v.begin(), v.end(), [](int x) { return x == 2; }), v.end()); CHECK(v.size() == 2); CHECK(std::any_of(v.begin(), v.end(), [](int x) { return x == 3; })); auto s = text(3); auto t = s; std::sort(t.begin(), t.end()); CHECK(std::is_sorted(t.begin(), t.end())); CHECK(std::is_permutation(s.begin(), s.end(), t.begin())); auto u = s; u.erase(std::unique(u.begin(), u.end()), u.end()); CHECK(!u.empty()); CHECK(std::find(s.begin(), s.end(), 'z') == s.end()); CHECK(std::count(s.begin(), s.end(), s[0]) >= 1); std::rotate(t.begin(), t.begin() + 1, t.end()); CHECK(std::lower_bound(v.begin(), v.end(), 2) == v.begin() + 1); auto p = std::partition(v.begin(), v.end(), [](int x) { return x > 1; }); CHECK(p == v.begin() + 1); CHECK(std::minmax({1, 2}).second == 2); std::nth_element(t.begin(), t.begin() + 1, t.end()); std::make_heap(t.begin(), t.end()); std::inplace_merge(v.begin(), v.begin() + 1, v.end()); CHECK(std::mismatch(s.begin(), s.end(), s.begin()).first == s.end()); msx_reach("done"); }
T(t_string) { auto s = text(3); CHECK(s.find('d') == s.npos); CHECK(s.rfind(s[0]) != s.npos); CHECK(s.find("d") == s.npos); CHECK((s + "d").find_first_of("d") == 3); CHECK((s + "d").find_last_not_of("d") == 2); CHECK(s.substr(1).size() == 2); auto t = s; t.insert(1, "zz"); CHECK(t.size() == 5 && t[1] == 'z'); t.replace(0, 1, "qq"); CHECK(t[1] == 'q'); t.append(3, 'w'); t.push_back('e'); t.pop_back(); t.erase(2, 1); CHECK(t.compare(0, 2, "qq") == 0); std::string_view v{s}; v.remove_prefix(1); CHECK(v.size() == 2); CHECK(v == std::string_view{s}.substr(1)); bool e = false; try { (void)s.at(5); } catch(std::out_of_range const&) { e = true; } CHECK(e); e = false; try { (void)s.substr(9); } catch(std::out_of_range const&) { e = true; } CHECK(e); std::string big(100, 'a'); big += s; big.resize(20); big.shrink_to_fit(); CHECK(big.size() == 20); CHECK(s < "d"); t.swap(big); t.clear(); t.assign(s, 1, 1); CHECK(t.size() == 1 && t[0] == s[1]); std::hash<std::string> h; CHECK(h("a") == h("a")); msx_reach("done"); }
T(t_containers) { std::map<std::string, int> m; m["b"] = 1; m.emplace("a", 2); m.try_emplace("c", 3); CHECK(m.begin()->first == "a" && m.size() == 3); m.erase("b"); CHECK(m.count("b") == 0); std::multimap<int, int> mm{{1, 1}, {1, 2}}; CHECK(mm.count(1) == 2); std::set<std::string, std::less<>> s{"x", "y"}; CHECK(s.find(std::string_view{"x"}) != s.end()); std::deque<int> d; for(int i = 0; i < 200; ++i) d.push_back(i); d.pop_front(); d.push_front(7); CHECK(d[0] == 7 && d.back() == 199); std::list<int> l{1, 2, 3}; l.splice(l.begin(), l, std::prev(l.end())); CHECK(l.front() == 3); l.sort(); CHECK(l.front() == 1); l.remove(2); l.reverse(); std::forward_list<int> f{1, 2}; f.push_front(0); CHECK(f.front() == 0); std::queue<int> q; q.push(1); q.pop(); std::stack<int> st; st.push(1); std::priority_queue<int> pq; pq.push(1); pq.push(5); CHECK(pq.top() == 5); std::bitset<70> b; b.set(65); CHECK(b.count() == 1); std::vector<bool> vb(70); vb[3] = true; CHECK(vb[3] && !vb[4]); bool e = false; try { (void)m.at("zz"); } catch(std::out_of_range const&) { e = true; } CHECK(e); auto n = m.extract("a"); CHECK(n.mapped() == 2); std::array<int, 3> a{1, 2, 3}; CHECK(std::get<1>(a) == 2); msx_reach("done"); }
T(t_unordered) { std::unordered_map<std::string, int> m; m["b"] = 1; m["a"] = 2; for(int i = 0; i < 30; ++i) m[std::to_string(i)] = i; CHECK(m.size() == 32 && m.at("7") == 7); m.erase("a"); CHECK(m.find("a") == m.end()); std::unordered_set<int> s{1, 2, 3}; CHECK(s.count(2)); std::unordered_map<std::string, int> n{m}; auto k = text(1); n.insert_or_assign(k, 9); CHECK(n[k] == 9); msx_reach("done"); }
struct Base { virtual ~Base() = default; virtual int f() { return 1; } }; struct Der: Base { int f() override { return 2; } }; struct Oth: Base {};
T(t_types) { std::unique_ptr<Base> p; if(pick(2, "k")) p = std::make_unique<Der>(); else p = std::make_unique<Oth>(); bool d = dynamic_cast<Der*>(p.get()) != nullptr; CHECK(d == (p->f() == 2)); CHECK((typeid(*p) == typeid(Der)) == d); bool e = false; try { (void)dynamic_cast<Der&>(*p); } catch(std::bad_cast const&) { e = true; } CHECK(e == !d); std::variant<int, std::string> v{"x"}; CHECK(std::get<1>(v) == "x"); e = false; try { (void)std::get<0>(v); } catch(std::bad_variant_access const&) { e = true; } CHECK(e); CHECK(std::visit([](auto const& x) { return sizeof x; }, v) > 0); std::optional<int> o; e = false; try { (void)o.value(); } catch(std::bad_optional_access const&) { e = true; } CHECK(e); CHECK(o.value_or(3) == 3); std::any a{std::string{"q"}}; CHECK(std::any_cast<std::string>(a) == "q"); e = false; try { (void)std::any_cast<int>(a); } catch(std::bad_any_cast const&) { e = true; } CHECK(e); std::function<int(int)> f; e = false; try { f(1); } catch(std::bad_function_call const&) { e = true; } CHECK(e); f = [d](int x) { return x + d; }; CHECK(f(1) == 1 + d); auto sp = std::make_shared<Der>(); std::weak_ptr<Der> w{sp}; std::shared_ptr<Base> sb{sp}; CHECK(sp.use_count() == 2); sp.reset(); sb.reset(); CHECK(w.expired()); auto t = std::make_tuple(1, std::string{"z"}); CHECK(std::get<1>(t) == "z"); CHECK(std::invoke([](int x) { return x; }, 4) == 4); msx_reach("done"); }
T(t_errors) { bool e = false; try { throw std::logic_error{std::string{"a"}}; } catch(std::exception const& x) { e = !strcmp(x.what(), "a"); } CHECK(e); e = false; try { throw std::invalid_argument{std::string{"b"}}; } catch(std::logic_error const& x) { e = !strcmp(x.what(), "b"); } CHECK(e); e = false; try { throw std::out_of_range{std::string{"b"}}; } catch(std::logic_error const& x) { e = true; } CHECK(e); e = false; try { throw std::length_error{"b"}; } catch(std::logic_error const& x) { e = true; } CHECK(e); e = false; try { throw std::domain_error{"b"}; } catch(std::logic_error const& x) { e = true; } CHECK(e); e = false; try { throw std::range_error{"b"}; } catch(std::runtime_error const& x) { e = true; } CHECK(e); e = false; try { throw std::overflow_error{std::string{"b"}}; } catch(std::runtime_error const& x) { e = true; } CHECK(e); e = false; try { throw std::underflow_error{"b"}; } catch(std::runtime_error const& x) { e = true; } CHECK(e); e = false; try { throw std::length_error{std::string{"b"}}; } catch(std::length_error const& x) { auto y = x; e = !strcmp(y.what(), "b"); } CHECK(e);
  e = false; try { throw std::system_error{ENOENT, std::generic_category(), "f"}; } catch(std::system_error const& x) { e = x.code().value() == ENOENT && !strncmp(x.what(), "f", 1); } CHECK(e); e = false; try { throw std::system_error{std::error_code{EIO, std::system_category()}}; } catch(std::runtime_error const& x) { e = true; } CHECK(e); e = std::make_error_code(std::errc::io_error) == std::errc::io_error; CHECK(e); auto p = std::make_exception_ptr(std::runtime_error{"z"}); e = false; try { std::rethrow_exception(p); } catch(std::runtime_error const& x) { e = !strcmp(x.what(), "z"); } CHECK(e); e = false; try { try { throw 3; } catch(...) { throw; } } catch(int i) { e = i == 3; } CHECK(e); CHECK(std::uncaught_exceptions() == 0); std::exception_ptr q; try { throw std::runtime_error{"k"}; } catch(...) { q = std::current_exception(); } CHECK(q != nullptr); errno = 0; CHECK(!std::error_code{}); CHECK(strerror(ENOENT) != nullptr); e = false; try { try { throw std::runtime_error{"in"}; } catch(...) { std::throw_with_nested(std::runtime_error{"out"}); } } catch(std::exception const& x) { try { std::rethrow_if_nested(x); } catch(std::runtime_error const& y) { e = !strcmp(y.what(), "in"); } } CHECK(e); e = false; try { std::vector<int> v; v.at(1) = 0; } catch(std::out_of_range const&) { e = true; } CHECK(e); msx_reach("done"); }
T(t_numbers) { uint32_t x; msx_symbolic(&x, 4, "x"); uint64_t y = (uint64_t)x * x; CHECK(y >= x || x == 0); CHECK((x / 7) * 7 + x % 7 == x); CHECK(((x << 3) >> 3) == (x & 0x1fffffff)); CHECK(__builtin_popcount(x & 3) <= 2); int32_t s = (int32_t)x; CHECK((s >> 31) == (s < 0 ? -1 : 0)); CHECK(std::gcd(12, 18) == 6); __int128 w = (__int128)y * 3; CHECK((uint64_t)(w / 3) == y); double d = 0.5; CHECK(d * 2 == 1.0); CHECK(std::max<uint8_t>((uint8_t)x, 5) >= 5); msx_reach("done"); }
T(t_threads) { std::mutex m; std::condition_variable c; int n = 0; std::once_flag f; std::atomic<int> a{0}; std::shared_mutex sm; std::recursive_mutex rm; auto fn = [&] { std::call_once(f, [&] { ++n; }); { std::scoped_lock l{m}; ++a; c.notify_all(); } std::shared_lock l{sm}; std::lock_guard g{rm}; std::lock_guard h{rm}; std::this_thread::yield(); }; std::thread t{fn}; { std::unique_lock l{m}; c.wait(l, [&] { return a.load() == 1; }); } t.join(); CHECK(n == 1 && a.fetch_add(1, std::memory_order_relaxed) == 1); CHECK(t.get_id() == std::thread::id{}); std::unique_lock l{m, std::try_to_lock}; CHECK(l.owns_lock()); int want = 2; CHECK(a.compare_exchange_strong(want, 5)); CHECK(a.exchange(6) == 5); { std::unique_lock k{sm}; } { std::mutex m2; std::scoped_lock both{m2, rm}; } msx_reach("done"); }
T(t_timed) { std::this_thread::sleep_for(std::chrono::microseconds{1}); CHECK(std::chrono::steady_clock::now().time_since_epoch().count() > 0); msx_reach("done"); }
