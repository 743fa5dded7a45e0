// Library features that code under test may come to use, executed on known
// values and on a few unknown ones.
#include "common.hpp"
#include <algorithm>
#include <array>
#include <charconv>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <optional>
#include <ranges>
#include <set>
#include <span>
#include <stack>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>

static const std::map<char32_t, char32_t> g_map{{5, 50}, {3, 30}, {9, 90}, {1, 10}, {7, 70}};
static const std::vector<int> g_vec{1, 2, 3};
static std::unordered_map<std::string, int> g_names{{"alpha", 1}, {"beta", 2}};
static std::string g_long = "a string that does not fit in the small buffer";

struct Shape { virtual ~Shape() = default; virtual int area() const = 0; };
struct Square : Shape { int n; explicit Square(int k) : n(k) {} int area() const override { return n * n; } };

static const std::set<int>& odd()
{
    static const std::set<int> s = [] { std::set<int> r; for (int i = 1; i < 40; i += 2) r.insert(i); return r; }();
    return s;
}

static int recursive(int n) { return n <= 0 ? 0 : n + recursive(n - 1); }

extern "C" void ys_main()
{
    std::map<int, int> m;
    for (int i = 0; i < 100; ++i)
        m[(i * 37) % 101] = i;
    ys_check(m.size() == 100, "map size");
    int prev = -1;
    for (auto& [k, v] : m)
    {
        ys_check(k > prev && (v * 37) % 101 == k, "map order");
        prev = k;
    }
    for (int i = 0; i < 50; ++i)
        m.erase((i * 74) % 101);
    ys_check(m.size() == 50, "map erase");
    prev = -1;
    for (auto& [k, v] : m)
    {
        ys_check(k > prev && v % 2 == 1, "map after erase");
        prev = k;
    }
    int n = 0;
    for (auto it = m.rbegin(); it != m.rend(); ++it)
        ++n;
    ys_check(n == 50, "reverse");
    ys_check(m.lower_bound(0) == m.begin() && m.upper_bound(1000) == m.end(), "bounds");
    std::unordered_map<int, int> um;
    um.reserve(20);
    for (int i = 0; i < 60; ++i)
        um[i * 7] = i;
    ys_check(um.size() == 60 && um.at(7 * 59) == 59 && !um.count(1), "unordered");
    ys_check(g_names["beta"] == 2 && g_names.count("gamma") == 0, "names");
    g_names["gamma"] = 3;
    ys_check(g_names.size() == 3, "names grow");
    g_long += g_long;
    ys_check(g_long.size() == 92 && g_vec.size() == 3 && g_vec[2] == 3, "globals");
    char32_t c = ys_u32("c");
    auto it = g_map.find(c);
    ys_check((it != g_map.end()) == (c < 10 && c % 2 == 1), "symbolic find");
    if (it != g_map.end())
        ys_check(it->second == c * 10, "symbolic value");
    ys_check(odd().contains(c & 63) == ((c & 1) && (c & 63) < 40), "static set");
    std::list<int> l{3, 1, 2};
    l.sort();
    l.push_front(0);
    l.reverse();
    ys_check(l.front() == 3 && l.back() == 0 && l.size() == 4, "list");
    std::deque<int> d(600, 1);
    d.push_front(2);
    ys_check(std::accumulate(d.begin(), d.end(), 0) == 602, "deque");
    std::stack<int> st;
    st.push(4);
    std::unique_ptr<Shape> sh = std::make_unique<Square>(5);
    std::shared_ptr<Shape> sp = std::make_shared<Square>(6);
    auto sp2 = sp;
    ys_check(sh->area() == 25 && sp2->area() == 36 && sp.use_count() == 2, "pointers");
    std::function<int(int)> f = [&](int x) { return x + n; };
    ys_check(f(1) == 51, "function");
    std::variant<int, std::string> v = "text";
    ys_check(std::get<std::string>(v) == "text" && !std::holds_alternative<int>(v), "variant");
    bool caught = false;
    try { std::get<int>(v); } catch (const std::exception&) { caught = true; }
    ys_check(caught, "bad variant");
    std::optional<int> o;
    caught = false;
    try { (void)o.value(); } catch (const std::bad_optional_access&) { caught = true; }
    ys_check(caught, "bad optional");
    caught = false;
    try { (void)std::string("x").at(3); } catch (const std::out_of_range&) { caught = true; }
    ys_check(caught, "at");
    caught = false;
    try { (void)std::stoi("zz"); } catch (const std::invalid_argument&) { caught = true; }
    ys_check(caught, "stoi");
    ys_check(std::stoul("ff", nullptr, 16) == 255 && std::strtoul("0x1Fz", nullptr, 0) == 31, "stoul");
    ys_check(std::to_string(-1234567) == "-1234567", "to_string");
    unsigned num = 0;
    const char text[] = "7b!";
    auto fc = std::from_chars(text, text + 3, num, 16);
    ys_check(num == 0x7b && fc.ptr == text + 2, "from_chars");
    char buf[20];
    auto tc = std::to_chars(buf, buf + 20, 65535, 16);
    ys_check(std::string_view(buf, tc.ptr) == "ffff", "to_chars");
    ys_check(strchr("hello", 'l') - "hello" >= 0 && strrchr("hello", 'z') == nullptr && strcmp("ab", "ac") < 0
             && strncmp("abx", "aby", 2) == 0 && strspn("aab", "a") == 2 && strcspn("xyz", "z") == 2, "str");
    auto ev = std::views::iota(0, 10) | std::views::filter([](int x) { return x % 2 == 0; })
              | std::views::transform([](int x) { return x * x; });
    int sum = 0;
    for (int x : ev)
        sum += x;
    ys_check(sum == 120, "ranges");
    std::vector<int> w{5, 2, 8, 1, 9, 3};
    std::ranges::sort(w);
    ys_check(std::ranges::is_sorted(w) && std::ranges::binary_search(w, 8), "sort");
    std::stable_sort(w.begin(), w.end(), std::greater<>());
    std::rotate(w.begin(), w.begin() + 2, w.end());
    std::reverse(w.begin(), w.end());
    ys_check(w.size() == 6, "algorithms");
    ys_check(recursive(20) == 210, "recursion");
    std::string s;
    s.reserve(100);
    for (int i = 0; i < 30; ++i)
        s += char('a' + i % 26);
    s.insert(3, "XYZ").replace(0, 2, "Q").erase(5, 1);
    ys_check(s.find("ef") != s.npos && s.rfind('Q') == 0 && s.find_first_of("YX") == 2 && s.compare(0, 1, "Q") == 0, "string");
    std::u32string u = U"abc";
    u.push_back(c);
    ys_check(u.size() == 4 && u.back() == c && (u.find(c) == 3 || c == 'a' || c == 'b' || c == 'c'), "u32string");
    std::span<const int> sp3(w);
    ys_check(sp3.subspan(1, 2).size() == 2, "span");
    std::once_flag flag;
    auto [q, r] = std::div(17, 5);
    ys_check(q == 3 && r == 2, "div");
    double avg = double(n) / 4;
    ys_check(avg > 12.4 && int(avg) == 12, "double");
    std::unordered_set<std::string_view> us{"a", "b"};
    ys_check(us.contains("a") && !us.contains("c"), "set of views");
    std::multimap<int, int> mm{{1, 2}, {1, 3}, {0, 4}};
    ys_check(mm.count(1) == 2, "multimap");
    ys_check(std::tuple(1, 2, 3) < std::tuple(1, 3, 0), "tuple");
    thread_local int tl = 4;
    ++tl;
    ys_check(tl == 5, "thread local");
    ys_reach("end");
}
