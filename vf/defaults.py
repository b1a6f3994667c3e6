"""Default arguments: what the expressions that C++ offers evaluate to."""
import re

from .prog import Prog, ann, param

LIB = r"""namespace lib {
struct Agg { int a = 1; int b = 2; };
struct Nest { Agg first; Agg second; int third = 3; };
struct Ctor {
  int v;
  int member = 51;
  Ctor() : v(9) {}
  explicit Ctor(int x, int y = 10) : v(x + y) {}
  Ctor(const char *s) : v(s[0]) {}
  int get() const { return v; }
  int plus(int z = 5) const { return v + z; }
  static int make(int q) { return q * 2; }
  static constexpr int K = 21;
  enum E { E1 = 31 };
  enum class S { S1 = 41 };
  using Alias = Agg;
  template <class U> U as() const { return U(v); }
  template <class U> static U zero(U u = U()) { return u; }
  Ctor operator+(const Ctor &o) const { return Ctor(v + o.v, 0); }
  Ctor operator-() const { return Ctor(-v, 0); }
  int operator[](int i) const { return v + i; }
  int operator()(int i, int j = 3) const { return v * i + j; }
  operator long() const { return v; }
  const Ctor *operator->() const { return this; }
  int operator*() const { return v + 7; }
};
struct List {
  int sum = 0;
  List(std::initializer_list<int> l) { for (int i : l) sum += i; }
};
template <class T> struct Box {
  T t;
  static constexpr int size = sizeof(T);
  using type = T;
  static T twice(T x) { return x + x; }
  Box() : t() {}
  Box(T t) : t(t) {}
};
template <class T> T id(T t) { return t; }
template <class T, int N> int num() { return int(sizeof(T)) * N; }
template <class T> constexpr int tv = sizeof(T) + 1;
inline int val(const Agg &a) { return a.a * 100 + a.b; }
inline int val(const Nest &n) { return val(n.first) + val(n.second) * 10 + n.third; }
inline int val(const Ctor &c) { return c.v; }
inline int val(const List &l) { return l.sum; }
inline int val(const std::vector<int> &l) { int s = 0; for (int i : l) s = s * 10 + i; return s; }
inline int val(const std::string &s) { return int(s.size()); }
inline int counter = 61;
inline int arr[3] = {71, 72, 73};
inline int *ptr = arr;
inline Agg agg = {81, 82};
inline int fun(int x, int y = 4) { return x + y; }
inline int app(int (*f)(int, int), int x) { return f(x, x); }
inline int mem(int (Ctor::*f)(int) const) { return (Ctor(1).*f)(2); }
inline int fld(int Agg::*f) { return Agg().*f; }
inline int ref(const std::vector<Agg> &v) { return int(v.size()); }
constexpr int operator""_lit(unsigned long long x) { return int(x) + 1; }
enum Flags { F1 = 1, F2 = 2, F4 = 4 };
constexpr Flags operator|(Flags a, Flags b) { return Flags(int(a) + int(b)); }
inline namespace v2 { inline int inl = 91; struct In { int z = 92; }; }
template <class T> struct tpl { template <class U> struct nested { static constexpr int k = 5; }; };
constexpr int K3 = 3;
using uint = unsigned;
typedef const char *text;
template <int N> int pick() { return N; }
template <class... T> int sz() { return (0 + ... + int(sizeof(T))); }
template <template <class> class T> int ntmpl() { return 2; }
}
"""

# (type of the parameter, value, expression)
TABLE = [
    ("int", "3", "int{3}"),
    ("int", "4", "int(4)"),
    ("int", "0", "int()"),
    ("int", "0", "int{}"),
    ("int", "0", "{}"),
    ("int", "5", "{5}"),
    ("unsigned", "6", "6u"),
    ("long", "7", "7L"),
    ("int", "97", "'a'"),
    ("double", "1.5", "1.5f"),
    ("double", "100.0", "1e2"),
    ("int", "255", "0xff"),
    ("int", "8", "010"),
    ("int", "1000", "1'000"),
    ("int", "-3", "-3"),
    ("int", "-4", "~3"),
    ("bool", "false", "!3"),
    ("int", "7", "1 + 2 * 3"),
    ("int", "9", "(1 + 2) * 3"),
    ("int", "2", "1 < 2 ? 2 : 3"),
    ("int", "3", "(1, 3)"),
    ("int", "61", "lib::counter"),
    ("int", "72", "lib::arr[1]"),
    ("int", "71", "*lib::ptr"),
    ("int", "81", "lib::agg.a"),
    ("int", "72", "*(lib::arr + 1)"),
    ("int", "73", "(&lib::arr[0])[2]"),
    ("int", "82", "(&lib::agg)->b"),
    ("int", "102", "lib::val(lib::Agg{})"),
    ("int", "102", "lib::val(lib::Agg())"),
    ("int", "304", "lib::val(lib::Agg{3, 4})"),
    ("int", "502", "lib::val(lib::Agg{5})"),
    ("int", "4333", "lib::val(lib::Nest{{3, 4}, {4, 2}, 9 - 0})"),
    ("int", "1", "lib::Nest{}.first.a"),
    ("int", "7", "lib::Nest{lib::Agg{7}}.first.a"),
    ("int", "8", "lib::Nest{{7, 8}}.first.b"),
    ("int", "13", "lib::val(lib::Ctor(3))"),
    ("int", "7", "lib::val(lib::Ctor(3, 4))"),
    ("int", "7", "lib::val(lib::Ctor{3, 4})"),
    ("int", "9", "lib::val(lib::Ctor())"),
    ("int", "9", "lib::val(lib::Ctor{})"),
    ("int", "97", "lib::val(lib::Ctor(\"abc\"))"),
    ("int", "97", "lib::val(lib::Ctor{\"abc\"})"),
    ("int", "13", "lib::Ctor(3).get()"),
    ("int", "18", "lib::Ctor(3).plus()"),
    ("int", "14", "lib::Ctor(3).plus(1)"),
    ("int", "51", "lib::Ctor(3).member"),
    ("int", "12", "lib::Ctor::make(6)"),
    ("int", "21", "lib::Ctor::K"),
    ("int", "31", "lib::Ctor::E1"),
    ("int", "31", "lib::Ctor::E::E1"),
    ("int", "41", "static_cast<int>(lib::Ctor::S::S1)"),
    ("int", "41", "(int)lib::Ctor::S::S1"),
    ("int", "41", "int(lib::Ctor::S::S1)"),
    ("int", "1", "lib::Ctor::Alias().a"),
    ("int", "6", "lib::Ctor::Alias{6}.a"),
    ("int", "19", "lib::Ctor(9).as<int>()"),
    ("int", "0", "lib::Ctor::zero<int>()"),
    ("int", "5", "lib::Ctor::zero<int>(5)"),
    ("int", "24", "(lib::Ctor(1) + lib::Ctor(3)).get()"),
    ("int", "-11", "(-lib::Ctor(1)).get()"),
    ("int", "13", "lib::Ctor(1)[2]"),
    ("int", "25", "lib::Ctor(1)(2)"),
    ("int", "26", "lib::Ctor(1)(2, 4)"),
    ("int", "11", "lib::Ctor(1)->get()"),
    ("int", "18", "*lib::Ctor(1)"),
    ("long", "11", "lib::Ctor(1)"),
    ("int", "6", "lib::val(lib::List{1, 2, 3})"),
    ("int", "6", "lib::val(lib::List({1, 2, 3}))"),
    ("int", "0", "lib::val(lib::List{})"),
    ("int", "3", "lib::Box<int>(3).t"),
    ("int", "4", "lib::Box<int>{4}.t"),
    ("int", "0", "lib::Box<int>().t"),
    ("int", "4", "lib::Box<int>::size"),
    ("int", "10", "lib::Box<int>::twice(5)"),
    ("int", "2", "lib::Box<lib::Agg>().t.b"),
    ("int", "7", "lib::Box<int>::type(7)"),
    ("int", "1", "lib::Box<lib::Box<lib::Agg>>().t.t.a"),
    ("int", "3", "lib::id(3)"),
    ("int", "3", "lib::id<int>(3)"),
    ("int", "8", "lib::num<int, 2>()"),
    ("int", "8", "lib::num<lib::Agg, 1>()"),
    ("int", "9", "lib::tv<lib::Agg>"),
    ("int", "5", "lib::tv<int>"),
    ("int", "2", "lib::id(lib::Agg{1, 2}).b"),
    ("int", "1", "lib::id<lib::Agg>({}).a"),
    ("int", "123", "lib::val(std::vector<int>{1, 2, 3})"),
    ("int", "3", "lib::val(std::string(\"abc\"))"),
    ("int", "2", "lib::val(std::string{\"ab\"})"),
    ("int", "4", "lib::val(std::string(4, 'x'))"),
    ("int", "2", "lib::ref({lib::Agg{}, lib::Agg{1}})"),
    ("int", "2", "lib::ref({{}, {1, 2}})"),
    ("int", "1", "lib::ref(std::vector<lib::Agg>{{}})"),
    ("int", "7", "lib::fun(3)"),
    ("int", "8", "lib::fun(3, 5)"),
    ("int", "6", "lib::app(lib::fun, 3)"),
    ("int", "6", "lib::app(&lib::fun, 3)"),
    ("int", "13", "lib::mem(&lib::Ctor::plus)"),
    ("int", "2", "lib::fld(&lib::Agg::b)"),
    ("int", "4", "sizeof(int)"),
    ("int", "8", "sizeof(lib::Agg)"),
    ("int", "8", "sizeof lib::agg"),
    ("int", "4", "alignof(lib::Agg)"),
    ("int", "12", "sizeof(lib::arr)"),
    ("int", "3", "static_cast<int>(3.7)"),
    ("int", "3", "(int)3.7"),
    ("int", "61", "const_cast<const int &>(lib::counter)"),
    ("int", "71", "*reinterpret_cast<int *>(lib::ptr)"),
    ("int", "81", "static_cast<const lib::Agg &>(lib::agg).a"),
    ("int", "81", "((const lib::Agg &)lib::agg).a"),
    ("int", "3", "lib::F1 | lib::F2"),
    ("int", "7", "lib::Flags::F1 | lib::F2 | lib::F4"),
    ("int", "1", "lib::Flags(1)"),
    ("int", "2", "lib::Flags{lib::F2}"),
    ("int", "0", "lib::Flags()"),
    ("int", "0", "lib::Flags{}"),
    ("int", "91", "lib::inl"),
    ("int", "91", "lib::v2::inl"),
    ("int", "92", "lib::In().z"),
    ("int", "92", "lib::v2::In{}.z"),
    ("bool", "true", "noexcept(1)"),
    ("bool", "true", "std::is_same<int, int>::value"),
    ("bool", "false", "std::is_same_v<int, lib::Agg>"),
    ("int", "1", "true && 1"),
    ("bool", "true", "nullptr == nullptr"),
    ("int", "2147483647", "INT_MAX"),
    ("int", "2147483647", "std::numeric_limits<int>::max()"),
    ("int", "5", "[] { return 5; }()"),
    ("int", "61", "[] { return lib::counter; }()"),
    ("const char *", "'txt'", "\"t\" \"xt\""),
    ("const char *", "'raw'", "R\"(raw)\""),
    ("const char *", "'b'", "&\"ab\"[1]"),
    ("int", "8", "__builtin_popcount(0xff)"),
    ("int", "1", "std::string(\"abc\").find(\"bc\")"),
    ("int", "3", "std::max(1, 3)"),
    ("int", "3", "std::max<int>(1, 3u)"),
    ("int", "2", "std::get<1>(std::make_tuple(1, 2))"),
    ("int", "4", "std::pair<int, lib::Agg>(4, {}).first"),
    ("int", "2", "std::pair<int, lib::Agg>{4, {1, 2}}.second.b"),
    ("int", "6", "*std::make_unique<int>(6)"),
    ("int", "2", "std::make_shared<lib::Agg>()->b"),
    ("int", "7", "(lib::Agg{7}).a"),
    ("int", "7", "lib::Agg{.a = 7}.a"),
    ("int", "3", "lib::Agg{.b = 3}.b"),
    ("int", "4", "(void(), 4)"),
    ("int", "9", "std::array<int, 3>{{8, 9}}[1]"),
    ("int", "9", "std::array<int, 3>{8, 9}[1]"),
    ("int", "104", "lib::operator\"\"_lit(103)"),
    ("int", "1", "1"),
    ("int", "5", "std::function<int()>([] { return 5; })()"),
    ("bool", "true", "1 <= 2"),
    ("int", "10", "lib::Box<int>::type{10}"),
    ("int", "3", "lib::Box<lib::Ctor>(lib::Ctor(1, 2)).t.v"),
    ("int", "3", "3"),
    ("char", "c97", "'a'"),
    ("char", "c65", "65"),
    ("char", "c42", "lib::fun(38)"),
    ("unsigned", "4294967295", "-1"),
    ("unsigned", "4294967293", "~2"),
    ("unsigned char", "255", "-1"),
    ("long", "3000000000", "3000000000"),
    ("int", "1", "1.5"),
    ("int", "2", "2.9f"),
    ("double", "3.0", "3"),
    ("double", "97.0", "'a'"),
    ("double", "4.0", "lib::fun(0)"),
    ("bool", "true", "5"),
    ("bool", "true", "lib::ptr"),
    ("bool", "false", "0.0"),
    ("bool", "true", "lib::counter"),
    ("float", "0.25", "0.25"),
    ("float", "1.0", "1"),
    ("short", "61", "lib::counter"),
    ("long", "61", "lib::counter"),
    ("int", "11", "lib::Ctor(1)"),
    ("double", "11.0", "lib::Ctor(1)"),
    ("unsigned", "31", "lib::Ctor::E1"),
    ("double", "31.0", "lib::Ctor::E1"),
    ("bool", "true", "lib::F1"),
    ("int", "6", "{6}"),
    ("double", "0.0", "{}"),
    ("bool", "false", "{}"),
    ("long", "7", "{7}"),
    ("const int &", "61", "lib::counter"),
    ("const int &", "5", "5"),
    ("const unsigned &", "4294967295", "-1"),
    ("const bool", "true", "1"),
    ("const double &", "3.0", "3"),
    ("int &&", "8", "8"),
    ("const char *", "null", "nullptr"),
    ("const char *", "null", "0"),
    ("const char *", "null", "{}"),
    ("int *", "null", "nullptr"),
    ("const lib::Agg *", "null", "nullptr"),
    ("int *", "ptr", "lib::ptr"),
    ("const int *", "ptr", "&lib::counter"),
    ("unsigned", "5", "unsigned(5)"),
    ("unsigned", "5", "unsigned{5}"),
    ("unsigned", "0", "unsigned()"),
    ("unsigned long", "0", "{}"),
    ("unsigned long", "3", "{3}"),
    ("unsigned", "7", "lib::uint(7)"),
    ("unsigned", "8", "lib::uint{8}"),
    ("unsigned", "0", "lib::uint()"),
    ("const char *", "null", "lib::text()"),
    ("const char *", "null", "lib::text{}"),
    ("const char *", "'x'", "lib::text(\"x\")"),
    ("int *", "null", "{}"),
    ("int *", "null", "0"),
    ("int *", "null", "NULL"),
    ("const lib::Agg *", "null", "NULL"),
    ("lib::text", "null", "(0)"),
    ("int *const &", "null", "0"),
    ("const int *const", "null", "{}"),
    ("const lib::Agg *", "null", "{}"),
    ("long long", "6", "(long long)(6)"),
    ("int", "2", "(short)2"),
    ("lib::Agg", "lib::Agg#1", "{}"),
    ("lib::Agg", "lib::Agg#7", "{7}"),
    ("lib::Agg", "lib::Agg#7", "{7, 8}"),
    ("const lib::Agg &", "lib::Agg#7", "{7, 8}"),
    ("const lib::Agg &", "lib::Agg#1", "lib::Agg()"),
    ("lib::Agg", "lib::Agg#81", "lib::agg"),
    ("const lib::Agg &", "lib::Agg#9", "lib::Agg{9}"),
    ("const lib::Nest &", "lib::Nest#5", "{{5, 6}, {7}}"),
    ("lib::Nest", "lib::Nest#1", "lib::Nest{}"),
    ("lib::Nest", "lib::Nest#2", "{lib::Agg{2}, {}, 4}"),
    ("const lib::Nest &", "lib::Nest#3", "lib::Nest{{3}}"),
    ("lib::Ctor", "lib::Ctor#9", "{}"),
    ("lib::Ctor", "lib::Ctor#13", "lib::Ctor(3)"),
    ("const lib::Ctor &", "lib::Ctor#7", "lib::Ctor{3, 4}"),
    ("lib::Ctor", "lib::Ctor#24", "lib::Ctor(1) + lib::Ctor(3)"),
    ("const lib::Ctor &", "lib::Ctor#-11", "-lib::Ctor(1)"),
    ("lib::Box<int>", "lib::Box<int>#4", "lib::Box<int>(4)"),
    ("const lib::Box<int> &", "lib::Box<int>#5", "lib::Box<int>{5}"),
    ("lib::Box<lib::Agg>", "lib::Box<lib::Agg>#1", "{}"),
    ("const lib::Box<lib::Agg> &", "lib::Box<lib::Agg>#6", "lib::Box<lib::Agg>({6, 7})"),
    ("const lib::Box<lib::Agg> &", "lib::Box<lib::Agg>#6", "lib::Box<lib::Agg>(lib::Agg{6})"),
    ("lib::List", "lib::List#6", "{1, 2, 3}"),
    ("const lib::List &", "lib::List#3", "lib::List{1, 2}"),
    ("const lib::List &", "lib::List#4", "lib::List({1, 3})"),
    ("lib::Flags", "lib::Flags#2", "lib::F2"),
    ("lib::Flags", "lib::Flags#3", "lib::F1 | lib::F2"),
    ("lib::Flags", "lib::Flags#0", "{}"),
    ("lib::Flags", "lib::Flags#0", "lib::Flags()"),
    ("lib::Flags", "lib::Flags#1", "lib::Flags(1)"),
    ("const lib::Flags &", "lib::Flags#4", "static_cast<lib::Flags>(4)"),
    ("lib::Ctor::S", "lib::Ctor::S#41", "lib::Ctor::S::S1"),
    ("lib::Ctor::E", "lib::Ctor::E#31", "lib::Ctor::E1"),
    ("const ::std::string &", "'abc'", "\"abc\""),
    ("::std::string", "'abc'", "::std::string(\"abc\")"),
    ("::std::string", "''", "{}"),
    ("::std::string", "'xx'", "::std::string(2, 'x')"),
    ("::std::string", "'abcd'", "::std::string(\"ab\") + \"cd\""),
    ("int", "5", "lib::tpl<lib::Agg>::nested<int>::k"),
    ("int", "3", "lib::pick<lib::K3>()"),
    ("int", "8", "lib::sz<lib::Agg>()"),
    ("int", "4", "lib::sz<int>()"),
    ("int", "2", "lib::ntmpl<lib::Box>()"),
    ("int", "12", "lib::sz<lib::Agg, int>()"),
    ("int", "8", "lib::sz<lib::Ctor::Alias>()"),
]


def programs(size=28):
    """Functions, methods and constructors using the whole table."""
    out = []
    for start in range(0, len(TABLE), size):
        # {7} would refer to a declaration of the program
        rows = [(ty, v, re.sub(r"\{(\d+)\}", r"{ \1 }", dx)) for ty, v, dx in TABLE[start:start + size]]
        p = Prog()
        p.add("other", "lib", 0, text=LIB.strip())
        n = p.add("ns", "N", 0, [ann("visible")])
        for k, (ty, v, dx) in enumerate(rows):
            p.add("fun", "f%d" % k, n, params=[param("x", ty, d=v, dx=dx)], ret="void")
        out.append(p)
        p = Prog()
        p.add("other", "lib", 0, text=LIB.strip())
        c = p.add("rec", "C", 0, [ann("visible")])
        for k, (ty, v, dx) in enumerate(rows):
            p.add("fun", "f%d" % k, c, acc="pub", st=k % 2 == 1, params=[param("y"), param("x", ty, d=v, dx=dx)], ret="void")
        out.append(p)
    return out
