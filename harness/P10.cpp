#include "common.hpp"
#include "pwned-merger-cli/mergeoperation.hpp"
using namespace vt;

// sorted records with distinct hashes, taken from a small set so that inputs share hashes
static std::vector<Rec> input(const std::vector<Rec> &pool, uint64_t share)
{
  std::vector<Rec> v;
  for (auto r : pool)
    if (rnd(100) < share)
    {
      r.c = rnd(4) ? uint32_t(rnd(10)) : uint32_t(rnd(1u << 24));
      v.push_back(r);
    }
  std::sort(v.begin(), v.end());
  return v;
}

static std::vector<Rec> makePool()
{
  std::vector<Rec> p;
  const size_t n = rnd(8) ? rnd(14) : rnd(400);
  std::set<std::pair<uint64_t, uint64_t>> seen;
  const uint64_t u0 = num(), l0 = num();
  for (size_t i = 0; i < n; ++i)
  {
    Rec r{0, 0, 0};
    switch (rnd(4))
    {
    case 0: r.u = u0; r.l = num(); break;
    case 1: r.u = num(); r.l = l0; break;
    case 2: r.u = u0 + rnd(3); r.l = l0 ^ (rnd(4) << 62); break;
    default: r.u = num(); r.l = num();
    }
    if (seen.insert({r.u, r.l}).second)
      p.push_back(r);
  }
  return p;
}

void vt::test()
{
  const std::string bin = getenv("VT_BIN") ? getenv("VT_BIN") : "";
  std::cout.setstate(std::ios::failbit);
  for (long i = 0; i < 1500L * scale; ++i)
  {
    const bool cli = !bin.empty() && i % 30 == 0;
    const size_t n = rnd(6) ? rnd(9) : 20 + rnd(60);
    const std::vector<Rec> pool = makePool();
    std::vector<std::string> names;
    std::vector<std::string> contents;
    std::map<std::pair<uint64_t, uint64_t>, uint64_t> sum;
    std::string what;
    for (size_t k = 0; k < n; ++k)
    {
      const uint64_t share = rnd(5) == 0 ? 0 : rnd(3) ? rnd(100) : 100;
      const std::vector<Rec> v = input(pool, share);
      names.push_back(dir + "/in" + str(k) + ".md5");
      contents.push_back(bytes(v));
      writeFile(names.back(), contents.back());
      for (auto &r : v)
        sum[{r.u, r.l}] += r.c;
      if (what.size() < 8000)
        what += "\ninput " + str(k) + ": " + show(v);
    }
    const std::string out = dir + "/out.md5";
    unlink(out.c_str());
    const int atOnce = cli && rnd(6) == 0 ? int(rnd(5)) - 3 : int(2 + rnd(n < 2 ? 3 : n + 2));
    note((cli ? "pwned-merger-cli, " + str(atOnce) + " files at once: " : std::string("one merge operation: ")) + str(n) + " inputs" + what);
    ++cases;
    nontrivial += n > 1 && sum.size() > 1;
    if (cli)
    {
      if (n == 0)
        continue;
      mkdir((dir + "/tmp").c_str(), 0755);
      std::vector<std::string> argv{bin + "/pwned-merger-cli", "-O", out, "-T", dir + "/tmp", "-n", str(atOnce)};
      if (rnd(3) == 0)
      {
        // the inputs are found in a directory
        const std::string d = dir + "/src";
        mkdir(d.c_str(), 0755);
        mkdir((d + "/sub").c_str(), 0755);
        for (size_t k = 0; k < n; ++k)
          writeFile(d + (k % 2 ? "/sub" : "") + "/f" + str(k) + ".md5", contents[k]);
        for (size_t k = n; k < 100; ++k)
        {
          unlink((d + "/f" + str(k) + ".md5").c_str());
          unlink((d + "/sub/f" + str(k) + ".md5").c_str());
        }
        for (size_t k = 0; k < n; ++k)
          unlink((d + (k % 2 ? "" : "/sub") + "/f" + str(k) + ".md5").c_str());
        argv.push_back("-S");
        argv.push_back(d);
        if (sum.empty())
          continue;
      }
      else
        for (auto &f : names)
        {
          argv.push_back("-I");
          argv.push_back(f);
        }
      std::string said;
      const int rc = run(argv, "", &said, 60, false);
      check(rc == 0, "the merger ends with status " + str(rc) + ": " + said.substr(0, 500));
    }
    else
    {
      std::vector<merger::InputFile> files;
      for (auto &f : names)
        files.push_back(merger::InputFile(f));
      merger::MergeOperation op(files, out, false, nullptr);
      static_cast<pwned::Operation &>(op).execute();
    }
    const std::string got = readFile(out);
    check(got.size() % 20 == 0, "the output is not made of whole records");
    const std::vector<Rec> r = recs(got);
    for (size_t k = 1; k < r.size(); ++k)
      check(r[k - 1] < r[k], "the hashes of the output do not strictly ascend: " + show({r[k - 1], r[k]}));
    for (auto &x : r)
    {
      auto it = sum.find({x.u, x.l});
      check(it != sum.end(), "the output contains a hash that is in no input: " + show({x}));
      check(it->second == x.c, "the count of a hash is not the sum of its counts (" + str(it->second) + "): " + show({x}));
    }
    check(r.size() == sum.size(), "hashes are lost: " + str(sum.size()) + " distinct ones in the inputs, " + str(r.size()) + " in the output");
    for (size_t k = 0; k < n; ++k)
      check(readFile(names[k]) == contents[k], "an input file was changed");
    check(!cli || !system(("test -z \"$(ls -A " + dir + "/tmp)\"").c_str()), "a working file was left behind");
  }
}
