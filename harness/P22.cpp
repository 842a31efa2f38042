#include "common.hpp"
#include "pwned-lib/util.hpp"
#include <cmath>
using namespace vt;

static std::string one(long double v, const char *unit)
{
  char b[100];
  snprintf(b, sizeof b, "%.1Lf %s", v, unit);
  return b;
}

void vt::test()
{
  auto size = [](uint64_t n) {
    note("size " + str(n));
    const std::string got = pwned::readableSize(n);
    const uint64_t K = 1024;
    const uint64_t div = n > K * K * K * K ? K * K * K * K : n > K * K * K ? K * K * K : n > K * K ? K * K : n > K ? K : 1;
    const char *unit = n > K * K * K * K ? "TB" : n > K * K * K ? "GB" : n > K * K ? "MB" : n > K ? "KB" : "B";
    bool ok = false;
    if (div == 1)
      ok = got == str(n) + " B";
    else
      ok = got == one((long double)n / div, unit) || got == one((long double)(double)n / div, unit);
    check(ok, "a size of " + str(n) + " bytes is displayed as " + quote(got));
    ++cases;
    ++nontrivial;
  };
  for (int sh = 0; sh < 64; ++sh)
    for (int64_t d = -3; d <= 3; ++d)
      for (uint64_t m = 1; m < 12; m += 2)
        size((m << sh) + uint64_t(d));
  for (long i = 0; i < 60000L * scale; ++i)
    size(rnd(3) ? rng() >> rnd(64) : num());
  for (uint64_t n = 0; n < 3000; ++n)
    size(n);
  auto time = [](double t) {
    char b[200];
    snprintf(b, sizeof b, "duration %.17g", t);
    note(b);
    const std::string got = pwned::readableTime(t);
    std::string want;
    const long long s = std::llround(t);
    if (t < 60)
      snprintf(b, sizeof b, "%.4fs", t);
    else if (s >= 86400)
      snprintf(b, sizeof b, "%lldd %lldh %lldm %llds", s / 86400, s / 3600 % 24, s / 60 % 60, s % 60);
    else if (s >= 3600)
      snprintf(b, sizeof b, "%lldh %lldm %llds", s / 3600, s / 60 % 60, s % 60);
    else
      snprintf(b, sizeof b, "%lldm %llds", s / 60, s % 60);
    check(got == b, "a duration of " + lastNote.substr(9) + " s is displayed as " + quote(got) + " instead of " + quote(b));
    ++cases;
    ++nontrivial;
  };
  for (long long base : {0LL, 1LL, 59LL, 60LL, 61LL, 119LL, 120LL, 3599LL, 3600LL, 3601LL, 7199LL, 7200LL, 86399LL, 86400LL, 86401LL, 172799LL, 172800LL, 31535999LL, 2147483646LL})
    for (double d : {0.0, 0.00001, 0.4, 0.49, 0.4999999, 0.5, 0.500001, 0.51, 0.99, 0.999999})
      time(double(base) + d);
  time(std::nextafter(60.0, 0));
  for (long i = 0; i < 100000L * scale; ++i)
  {
    const double t = std::ldexp(double(rng() >> 11), -53) * std::ldexp(1.0, int(rnd(32)));
    if (t < 2147483647.0)
      time(rnd(3) ? t : std::floor(t));
  }
  // whole minutes, hours and days, exactly and nearly
  for (long i = 0; i < 50000L * scale; ++i)
  {
    const double u[] = {60, 3600, 86400};
    const double x = u[rnd(3)];
    const double t = x * double(rnd(uint64_t(2147000000.0 / x)));
    time(t);
    time(t + 0.25);
    if (t > 1)
      time(t - 0.25);
  }
  // texts of every length through the formatter
  for (size_t n = 0; n < 400; ++n)
  {
    const std::string a(n, 'x');
    note("string_format with a text of " + str(n) + " characters");
    check(pwned::string_format("%s", a.c_str()) == a, "string_format cuts a text of " + str(n) + " characters");
    check(pwned::string_format("%s-%d", a.c_str(), int(n)) == a + "-" + str(n), "string_format cuts a text of " + str(n) + " characters and a number");
    ++cases;
  }
}
