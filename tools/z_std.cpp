// Self-test of the runtime models (std containers, streams, mutexes, ...): copy to harness/ and run "python3 run.py Z01"; not part of any check.
//@ entry z_a prop=Z01 conc reach=done quick="--preempt 1" bound="x"
//@ entry z_b prop=Z01 conc reach=done quick="--preempt 1" bound="x"
//@ entry z_c prop=Z01 conc reach=done quick="--preempt 0" bound="x"
//@ entry z_d prop=Z01 conc reach=done quick="--preempt 1" bound="x"
//@ entry z_e prop=Z01 conc reach=done quick="--preempt 1" bound="x"
//@ entry z_f prop=Z01 conc reach=done quick="--preempt 1" bound="x"
#include "stream.h"
#include <unordered_map>
#include <unordered_set>
#include <deque>
#include <algorithm>
#include <numeric>
#include <sstream>
#include <optional>
#include <variant>
#include <any>
#include <condition_variable>
#include <mutex>
#include <shared_mutex>
#include <atomic>
#include <thread>
#include <future>
#include <chrono>
#include <tuple>
#include <iomanip>
#include <queue>
#include <stack>
#include <memory>
#include <cstring>
#include <bitset>
SYMX_ENTRY(z_a) {
  std::unordered_map<int, int> m; for (int i = 0; i < 40; i++) m[i * 7] = i; CHECK(m.size() == 40 && m[14] == 2, "um"); m.erase(7); CHECK(m.find(7) == m.end(), "e");
  std::unordered_set<std::string> s; s.insert("abc"); s.insert("a long string that does not fit in the small buffer"); CHECK(s.count("abc") == 1, "us");
  std::deque<int> d; for (int i = 0; i < 300; i++) d.push_back(i); d.pop_front(); CHECK(d.front() == 1 && d.back() == 299, "dq");
  std::vector<int> v(d.rbegin(), d.rend()); std::sort(v.begin(), v.end()); CHECK(v[0] == 1, "sort"); CHECK(std::accumulate(v.begin(), v.end(), 0) == 299 * 300 / 2, "acc"); std::stable_sort(v.begin(), v.end(), std::greater<int>()); CHECK(v[0] == 299, "ss");
  CHECK(std::any_of(v.begin(), v.end(), [](int x) { return x == 5; }), "any"); auto it = std::partition(v.begin(), v.end(), [](int x) { return x % 2; }); CHECK(it - v.begin() == 150, "part");
  u32 x = sym_u32("x"), y = sym_u32("y"); std::vector<u32> w{x, y, 3}; std::sort(w.begin(), w.end()); CHECK(w[0] <= w[1] && w[1] <= w[2], "sorted"); CHECK(std::max(x, y) >= x, "max"); CHECK(*std::min_element(w.begin(), w.end()) == w[0], "min");
  symx_reach("done");
}
SYMX_ENTRY(z_b) {
  std::mutex m; std::condition_variable cv; bool ready = false; int v = 0; std::thread t([&] { std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return ready; }); v = 5; }); { std::lock_guard<std::mutex> l(m); ready = true; } cv.notify_one(); t.join(); CHECK(v == 5, "cv");
  symx_reach("done");
}
SYMX_ENTRY(z_c) {
  std::ostringstream o; o << "a" << 5 << ' ' << std::hex << 255 << std::boolalpha << true << std::setw(5) << 7; CHECK(o.str().size() > 5, "os"); std::stringstream i("12 34"); int a, b; i >> a >> b; CHECK(a == 12 && b == 34, "is"); std::string s = std::to_string(12345); CHECK(s == "12345", "ts"); CHECK(std::stoi("77") == 77, "stoi"); std::string gl; std::istringstream gi("ab cd\nef"); std::getline(gi, gl); CHECK(gl == "ab cd", "gl"); gi >> gl; CHECK(gl == "ef", "w");
  s.append("x").insert(0, "pre").replace(0, 1, "P"); CHECK(s.find("re1") == 1, "f"); CHECK(s.substr(1, 2) == "re", "sub"); CHECK(s.rfind('x') == s.size() - 1, "rf");
  symx_reach("done");
}
SYMX_ENTRY(z_d) {
  std::optional<int> o; CHECK(!o, "o"); o = 4; CHECK(*o == 4, "o"); std::variant<int, std::string> v = "abc"; CHECK(std::holds_alternative<std::string>(v), "v"); std::any a = 5; CHECK(std::any_cast<int>(a) == 5, "a"); try { std::any_cast<float>(a); CHECK(false, "x"); } catch (std::bad_any_cast &) {}
  auto p = std::make_shared<int>(4); std::weak_ptr<int> w = p; CHECK(w.lock() && *w.lock() == 4, "sp"); p.reset(); CHECK(w.expired(), "wp"); auto u = std::make_unique<std::vector<int>>(4); CHECK(u->size() == 4, "up");
  std::priority_queue<int> q; q.push(3); q.push(9); q.push(1); CHECK(q.top() == 9, "pq"); std::map<std::string, int> m; m["x"] = 1; m.insert({"y", 2}); CHECK(m.lower_bound("y")->second == 2, "m"); std::multimap<int, int> mm; mm.emplace(1, 2); mm.emplace(1, 3); CHECK(mm.count(1) == 2, "mm"); std::list<int> l{1, 2, 3}; l.reverse(); l.sort(); l.splice(l.end(), l, l.begin()); CHECK(l.back() == 1, "l");
  std::tuple<int, std::string> t{1, "a"}; auto [c, d] = t; CHECK(c == 1 && d == "a", "t"); std::bitset<70> bs; bs.set(65); CHECK(bs.count() == 1, "bs"); std::vector<bool> vb(70); vb[66] = true; vb.flip(); CHECK(!vb[66] && vb[0], "vb");
  try { std::vector<int> z; z.at(1); CHECK(false, "x"); } catch (std::out_of_range &e) { CHECK(std::strlen(e.what()) > 0, "w"); } try { throw std::runtime_error("abc"); } catch (const std::exception &e) { CHECK(std::string(e.what()) == "abc", "re"); }
  std::function<int(int)> f = [&](int x) { return x + c; }; CHECK(f(2) == 3, "fn"); auto g = std::bind(f, 5); CHECK(g() == 6, "bind"); static thread_local int tl = 3; tl++; CHECK(tl == 4, "tl"); std::set<int, std::greater<>> sg{1, 2}; CHECK(*sg.begin() == 2, "sg");
  symx_reach("done");
}
SYMX_ENTRY(z_e) {
  std::shared_mutex sm; { std::shared_lock<std::shared_mutex> l(sm); } { std::unique_lock<std::shared_mutex> l(sm); } std::recursive_mutex rm; { std::lock_guard<std::recursive_mutex> a(rm), b(rm); } std::once_flag of; int n = 0; std::call_once(of, [&] { n++; }); std::call_once(of, [&] { n++; }); CHECK(n == 1, "once");
  std::atomic<int> a{0}; std::atomic_flag fl = ATOMIC_FLAG_INIT; while (fl.test_and_set()) {} fl.clear(); std::thread t([&] { a.fetch_add(2); int e = 2; a.compare_exchange_strong(e, 7); }); t.join(); CHECK(a == 7, "at"); auto t0 = std::chrono::steady_clock::now(); std::this_thread::sleep_for(std::chrono::milliseconds(1)); auto t1 = std::chrono::steady_clock::now(); CHECK(t1 >= t0, "clk"); std::this_thread::sleep_until(t1); std::timed_mutex tm; if (tm.try_lock_for(std::chrono::milliseconds(2))) tm.unlock(); std::mutex m1, m2; { std::scoped_lock l(m1, m2); }
  symx_reach("done");
}
SYMX_ENTRY(z_f) {
  std::list<int> A{1,2,3}, B{9}; A.swap(B); CHECK(A.size() == 1 && B.size() == 3 && B.back() == 3, "swap"); B.reverse(); CHECK(B.front() == 3, "rev"); pthread_mutex_t pm; pthread_mutex_init(&pm, nullptr); pthread_mutex_lock(&pm); pthread_mutex_unlock(&pm); std::condition_variable cv; std::mutex m; std::unique_lock<std::mutex> l(m); cv.wait_for(l, std::chrono::milliseconds(1)); symx_reach("done");
}
