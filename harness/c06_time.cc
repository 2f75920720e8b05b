// C06: time stamps against exact integer nanoseconds.
#include "common/simple_time.h"
#include "vp.h"

using namespace vp;
using static_map::SimpleTime;
typedef __int128 big;
static const int64_t G = 1000000000ll;
static const int64_t MAXNS = 4294967295ll * G + 999999999ll;

static int64_t pick_ns(Rng& r) {
  switch (r.i(0, 9)) {
    case 0: return r.i(0, 3);
    case 1: return G * r.i(0, 5) + r.i(-2, 2) * (r.p(0.5) ? 1 : 0) + 2;
    case 2: return G * r.i(1, 4294967295ll) - r.i(1, 3);
    case 3: return G * r.i(0, 4294967295ll) + r.i(0, 2);
    case 4: return MAXNS - r.i(0, 3 * G);
    case 5: return 1500000000ll * G + r.i(0, 200000000ll * G);
    case 6: return r.i(0, 3 * G);
    case 7: return 4294967295ll * r.i(1, G) % MAXNS;
    case 8: return (int64_t(1) << r.i(0, 61)) % MAXNS + r.i(0, 1);
    default: return r.i(0, MAXNS);
  }
}
static SimpleTime mk(int64_t ns) { return SimpleTime(uint32_t(ns / G), uint32_t(ns % G)); }
static std::string s(int64_t a) { return std::to_string(a); }
// textual form shows the two fields: catches stamps that are not normalised
static bool normal(const SimpleTime& t, int64_t ns) {
  std::ostringstream o;
  o << t;
  unsigned long long a = 0, b = 0;
  return sscanf(o.str().c_str(), "%llus %lluns", &a, &b) == 2 && b < 1000000000ull && int64_t(a) * G + int64_t(b) == ns;
}

struct Sample { SimpleTime time; int tag; };

static void arithmetic(Rng& r) {
  int64_t a = pick_ns(r), b = r.p(0.3) ? std::min<int64_t>(MAXNS, std::max<int64_t>(0, a + r.i(-3, 3))) : pick_ns(r);
  if (a > MAXNS) a = MAXNS;
  if (b > MAXNS) b = MAXNS;
  const SimpleTime A = mk(a), B = mk(b);
  VP_REQUIRE(A.ToNanoSec() == a, "nanoseconds-changed", s(a));
  VP_REQUIRE(SimpleTime::FromNanoSec(a).ToNanoSec() == a && normal(SimpleTime::FromNanoSec(a), a), "from-nanoseconds", s(a));
  VP_REQUIRE((A < B) == (a < b) && (A <= B) == (a <= b) && (A > B) == (a > b) && (A >= B) == (a >= b), "order",
             s(a) + " ? " + s(b));
  const bool eq = (a > b ? a - b : b - a) <= 1;
  VP_REQUIRE((A == B) == eq && (A != B) == !eq && (B == A) == eq, "equality", s(a) + " == " + s(b));
  if (big(a) + b <= MAXNS) {
    const SimpleTime S = A + B;
    VP_REQUIRE(S.ToNanoSec() == a + b && normal(S, a + b), "sum", s(a) + "+" + s(b) + "=" + s(S.ToNanoSec()));
    SimpleTime T = A;
    SimpleTime& ref = (T += B);
    VP_REQUIRE(&ref == &T && T.ToNanoSec() == a + b && normal(T, a + b), "accumulate", s(a) + "+=" + s(b) + " -> " + s(T.ToNanoSec()));
    VP_REQUIRE((S - B).ToNanoSec() == a, "sum-difference", s(a) + " " + s(b));
  }
  const SimpleTime D = A - B;
  const int64_t d = a > b ? a - b : 0;
  VP_REQUIRE(D.ToNanoSec() == d && normal(D, d), "difference", s(a) + "-" + s(b) + "=" + s(D.ToNanoSec()));
  VP_REQUIRE(A.ToNanoSec() == a && B.ToNanoSec() == b, "operands-changed", "");
  int div = r.p(0.2) ? 0 : int(r.p(0.5) ? r.i(-7, 7) : r.i(-2147483647, 2147483647));
  SimpleTime Q = A;
  SimpleTime& qr = (Q /= div);
  const int64_t q = div == 0 ? a : a / (div < 0 ? -int64_t(div) : int64_t(div));
  VP_REQUIRE(&qr == &Q && Q.ToNanoSec() == q && normal(Q, q), "quotient", s(a) + "/" + s(div) + "=" + s(Q.ToNanoSec()));
  SimpleTime Z = A;
  VP_REQUIRE(Z.IsZero() == (a == 0), "is-zero", s(a));
  Z.Zero();
  VP_REQUIRE(Z.IsZero() && Z.ToNanoSec() == 0, "zero", s(a));
  VP_REQUIRE(SimpleTime().IsZero(), "default-not-zero", "");
  VP_REQUIRE(SimpleTime::TimeMax() >= A, "max", s(a));
  // seconds: within one unit in the last place of the double, and 1 ns
  const double sec = A.ToSec();
  const long double exact = (long double)a / 1e9L;
  VP_REQUIRE(std::fabs((double)((long double)sec - exact)) <= std::max(1e-9 * 0.01, (double)exact * 4.5e-16), "to-seconds",
             s(a) + fmt(" -> %.17g", sec));
  const SimpleTime F = SimpleTime::FromSec(sec);
  const long double fexact = (long double)sec * 1e9L;
  const long double err = (long double)F.ToNanoSec() - fexact;
  if (sec < 4294967295.0)
    VP_REQUIRE(err <= 0.6L && err >= -1.01L && normal(F, F.ToNanoSec()), "from-seconds", fmt("%.17g -> ", sec) + s(F.ToNanoSec()));
  const double rs = r.p(0.5) ? r.d(0, 4294967290.) : r.d(0, 10);
  const SimpleTime R = SimpleTime::FromSec(rs);
  const long double rerr = (long double)R.ToNanoSec() - (long double)rs * 1e9L;
  VP_REQUIRE(rerr <= 0.6L && rerr >= -1.01L && normal(R, R.ToNanoSec()), "from-seconds", fmt("%.17g -> ", rs) + s(R.ToNanoSec()));
  VP_REQUIRE(SimpleTime::FromSec(-rs - 1e-9).IsZero(), "from-negative-seconds", fmt("%.17g", -rs));
  // microseconds of the point cloud library
  const uint64_t us = static_map::ToPclTime(A);
  VP_REQUIRE(us == uint64_t(a) / 1000, "to-microseconds", s(a) + " -> " + std::to_string(us));
  VP_REQUIRE(static_map::ToLocalTime(us).ToNanoSec() == a / 1000 * 1000, "from-microseconds", std::to_string(us));
  cover(fmt("arith %d %d %d %d %d", int(a / G == b / G), int(a % G + b % G >= G), int(a < b), int(eq), div == 0 ? 0 : div < 0 ? -1 : 1));
}

static void accumulate(Rng& r) {
  SimpleTime t = mk(0);
  big ref = 0;
  int n = r.i(5, 400);
  int64_t step = r.p(0.5) ? r.i(1, G) : r.i(1, 5000000 * G / n);
  for (int i = 0; i < n; ++i) {
    int64_t x = r.p(0.8) ? step : r.i(0, G);
    if (ref + x > MAXNS) break;
    t += mk(x);
    ref += x;
    VP_REQUIRE(big(t.ToNanoSec()) == ref && normal(t, int64_t(ref)), "accumulate-chain", s(int64_t(ref)) + " got " + s(t.ToNanoSec()));
  }
  cover(fmt("acc %d", n / 20));
}

static void search(Rng& r) {
  int n = r.p(0.6) ? r.i(2, 12) : r.i(2, 900);
  std::vector<Sample> v(n);
  std::vector<int64_t> ns(n);
  int64_t t = r.p(0.3) ? 0 : r.i(0, 4000000000ll * G);
  bool dup = r.p(0.3), dense = r.p(0.3);
  for (int i = 0; i < n; ++i) {
    ns[i] = t;
    v[i] = Sample{mk(t), i};
    t += dup && r.p(0.4) ? 0 : dense ? 1 : r.i(2, r.p(0.2) ? 100 * G : G / 2);
  }
  auto ask = [&](int64_t q) {
    if (q < 0 || q > MAXNS) return;
    auto p = static_map::TimeStampBinarySearch(v, mk(q));
    bool ok = p.first >= 0 && p.second < n && p.second == p.first + 1;
    if (ok) {
      if (q < ns.front()) ok = p.first == 0;
      else if (q > ns.back()) ok = p.second == n - 1;
      else ok = ns[p.first] <= q && q <= ns[p.second];
    }
    VP_REQUIRE(ok, "search", fmt("n=%d query=%ld answered (%d,%d) range [%ld,%ld]", n, (long)q, p.first, p.second, (long)ns.front(), (long)ns.back()));
    cover(fmt("search %d %d %d", std::min(n, 40), ok ? p.first * 8 / n : -1, q < ns.front() ? -1 : q > ns.back() ? 1 : 0));
  };
  if (n <= 40) {
    for (int i = 0; i < n; ++i) { ask(ns[i] - 1); ask(ns[i]); ask(ns[i] + 1); }
    for (int i = 0; i + 1 < n; ++i) ask((ns[i] + ns[i + 1]) / 2);
  }
  for (int k = 0; k < 20; ++k) {
    ask(ns[r.i(0, n - 1)] + r.i(-1, 1));
    ask(r.i(ns.front(), ns.back()));
  }
  ask(ns.front()); ask(ns.back()); ask(0); ask(MAXNS);
}

static void clock_now() {
  struct timespec a, b;
  clock_gettime(CLOCK_REALTIME, &a);
  int64_t t = SimpleTime::GetCurrentTime().ToNanoSec();
  clock_gettime(CLOCK_REALTIME, &b);
  int64_t lo = a.tv_sec * G + a.tv_nsec, hi = b.tv_sec * G + b.tv_nsec;
  if (lo <= hi) VP_REQUIRE(t >= lo && t <= hi, "current-time", s(t) + " not in [" + s(lo) + "," + s(hi) + "]");
}

int main(int argc, char** argv) {
  return run(argc, argv, [](long id, Rng& r) {
    for (int i = 0; i < 200; ++i) arithmetic(r);
    accumulate(r);
    for (int i = 0; i < 4; ++i) search(r);
    clock_now();
    if (id < 3) {
      int64_t want = r.i(0, 12000000);
      struct timespec a, b;
      clock_gettime(CLOCK_MONOTONIC, &a);
      mk(want).Sleep();
      clock_gettime(CLOCK_MONOTONIC, &b);
      VP_REQUIRE((b.tv_sec - a.tv_sec) * G + b.tv_nsec - a.tv_nsec >= want, "sleep-too-short", s(want));
      sample(fmt("slept %ld ns", (long)want));
    }
    if (id == 0) sample("200 operand pairs, all comparisons, sums, differences, quotients and conversions against 128-bit integers");
  });
}
