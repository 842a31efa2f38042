#include "reader.hpp"
#include "pwned-converter-cli/convertoperation.hpp"
#include <dirent.h>
using namespace vt;

static std::map<std::string, std::string> content(const std::string &d)
{
  std::map<std::string, std::string> r;
  DIR *p = opendir(d.c_str());
  check(p != nullptr, "no directory");
  while (dirent *e = readdir(p))
    if (e->d_name[0] != '.')
      r[e->d_name] = readFile(d + "/" + e->d_name);
  closedir(p);
  return r;
}

typedef std::map<std::string, uint64_t> Counts;

static Counts expected(const std::string &text, char sep, bool md5On, bool hexOn)
{
  Counts c;
  for (auto &l : linesOf(text))
  {
    const std::string pw = passwordOf(l, sep);
    if (!pw.empty())
      ++c[hashOf(pw, md5On, hexOn)];
  }
  return c;
}

// a list in which passwords occur several times, also far apart
static std::string repeating()
{
  std::string t;
  std::vector<std::string> pool;
  for (size_t k = 1 + rnd(30); k > 0; --k)
    pool.push_back(rnd(6) ? word() : secret());
  const char sep = ":;\t "[rnd(4)];
  if (rnd(150) == 0)
  {
    // a password that occurs more often than fits 16 bits
    for (size_t k = 65530 + rnd(9000); k > 0; --k)
      t += "u" + std::string(1, sep) + pool[0] + "\n";
    return t;
  }
  const size_t n = rnd(10) ? rnd(60) : 300 + rnd(1500);
  for (size_t k = 0; k < n; ++k)
  {
    t += rnd(30) ? "user" + str(k) + sep + pool[rnd(pool.size())] : std::string();
    if (rnd(9) == 0)
      t += '\r';
    if (k + 1 < n || rnd(2))
      t += '\n';
  }
  return t;
}

// many lists of the same name in different directories, more of them than the program may open at once
static void many(const std::string &bin)
{
  const std::string dst = dir + "/dst", src = dir + "/src";
  check(system(("rm -rf '" + dst + "' '" + src + "' && mkdir '" + dst + "' '" + src + "'").c_str()) == 0, "mkdir");
  Counts want;
  std::vector<std::string> argv{"/bin/sh", "-c", "ulimit -n 40; exec \"$0\" \"$@\"", bin + "/pwned-converter-cli", "-D", dst, "-T", str(1 + rnd(8)), "--ram", rnd(3) ? "64" : "0"};
  const size_t n = 60 + rnd(30);
  const bool tree = rnd(2);
  for (size_t k = 0; k < n; ++k)
  {
    const std::string d = src + "/d" + str(k);
    mkdir(d.c_str(), 0755);
    std::string text;
    for (size_t j = 0; j <= k % 3; ++j)
    {
      const std::string pwd = "pass" + str(k) + (j == 1 ? "" : "x" + str(j));
      text += "u" + str(j) + "@example.com:" + pwd + "\n";
      want[hashOf(pwd, false, false)] += k % 7 != 3;
    }
    if (k % 7 == 3)
    {
      // a list of one or two characters
      const std::string pwd = std::string(k % 2 + 1, char('a' + k / 7));
      text = pwd;
      ++want[hashOf(pwd, false, false)];
    }
    else
    {
      text += "v@example.com:common\n";
      ++want[hashOf("common", false, false)];
    }
    writeFile(d + "/list.txt", text);
    if (!tree)
    {
      argv.push_back("-I");
      argv.push_back(d + "/list.txt");
    }
  }
  if (tree)
  {
    argv.push_back("-S");
    argv.push_back(src);
  }
  note("pwned-converter-cli, " + str(n) + " lists of the same name in different directories, at most 40 open files" + (tree ? ", given by directory" : "") + ", -T " + argv[7]);
  ++cases;
  ++nontrivial;
  std::string said;
  const int rc = run(argv, "", &said, 60, false);
  check(rc == 0, "the converter ends with status " + str(rc) + ": " + said.substr(0, 300));
  Counts got;
  for (auto &a : content(dst))
  {
    check(a.second.size() % 20 == 0, "the output is not made of whole records");
    for (auto &r : recs(a.second))
    {
      std::string h(16, 0);
      for (int b = 0; b < 8; ++b)
      {
        h[size_t(b)] = char(r.u >> (56 - 8 * b));
        h[size_t(8 + b)] = char(r.l >> (56 - 8 * b));
      }
      got[h] += r.c;
    }
  }
  for (auto it = want.begin(); it != want.end();)
    it = it->second ? std::next(it) : want.erase(it);
  for (auto &w : want)
    check(got[w.first] == w.second, "hash " + hex(w.first) + " is counted " + str(got[w.first]) + " times instead of " + str(w.second));
  check(got.size() == want.size(), "a hash is written that is in no list");
}

void vt::test()
{
  const std::string bin = getenv("VT_BIN") ? getenv("VT_BIN") : "";
  std::cout.setstate(std::ios::failbit);
  if (!bin.empty())
    for (long i = 0; i < 12L * scale; ++i)
      many(bin);
  for (long i = 0; i < 1500L * scale; ++i)
  {
    const bool cli = !bin.empty() && i % 40 == 0;
    const std::string dst = dir + "/dst", src = dir + "/src";
    check(system(("rm -rf '" + dst + "' '" + src + "' && mkdir '" + dst + "' '" + src + "'").c_str()) == 0, "mkdir");
    const bool md5On = rnd(3) == 0, hexOn = rnd(3) == 0;
    const size_t nLists = cli ? 1 + rnd(3) : 1;
    std::vector<std::string> texts, names;
    std::string what;
    for (size_t k = 0; k < nLists; ++k)
    {
      texts.push_back(rnd(3) ? repeating() : list());
      names.push_back(src + "/list" + str(k) + ".txt");
      writeFile(names[k], texts[k]);
      what += " list " + brief(texts[k]);
    }
    // files that exist already and must not be touched
    std::map<std::string, std::string> before;
    if (rnd(2))
      for (size_t k = 0; k < nLists; ++k)
        for (int s = 1; s < 6; ++s)
        {
          char b[64];
          snprintf(b, sizeof b, "list%zu-%04x.md5", k, s);
          if (rnd(2))
            before[b] = "precious " + str(s);
          for (int m = 1; m < 8; ++m)
          {
            char e[64];
            snprintf(e, sizeof e, "list%zu-%04x-%04x.md5", k, s, m);
            if (rnd(2))
              before[e] = "precious " + str(s) + str(m);
          }
        }
    for (auto &b : before)
      writeFile(dst + "/" + b.first, b.second);
    const uint64_t mem = rnd(30) == 0 ? 0 : rnd(3) == 0 ? uint64_t(1) << 30 : 1 + rnd(rnd(2) ? 700 : 20000);
    note((cli ? "pwned-converter-cli" : "one operation, memory limit " + str(mem)) + (md5On ? " force-md5" : "") + (hexOn ? " force-hex" : "") + ", " + str(before.size()) + " files exist," + what);
    ++cases;
    if (cli)
    {
      std::vector<std::string> argv{bin + "/pwned-converter-cli", "-D", dst, "-T", str(1 + rnd(4)), "--ram", rnd(2) ? "64" : rnd(3) ? "1" : "0"};
      if (md5On)
        argv.push_back("--force-md5");
      if (hexOn)
        argv.push_back("--force-hex");
      if (rnd(2))
        for (auto &f : names)
        {
          argv.push_back("-I");
          argv.push_back(f);
        }
      else
      {
        argv.push_back("-S");
        argv.push_back(src);
      }
      std::string said;
      const int rc = run(argv, "", &said, 60, false);
      check(rc == 0, "the converter ends with status " + str(rc) + ": " + said.substr(0, 300));
    }
    else
    {
      Options o;
      if (md5On)
        o.push_back(pwned::forceEvaluateMD5Hashes);
      if (hexOn)
        o.push_back(pwned::forceEvaluateHexEncodedPasswords);
      ConvertOperation op(names[0], dst, ".md5", mem, o);
      if (rnd(100) == 0)
      {
        // the list is gone when it is its turn: the operation has to end
        unlink(names[0].c_str());
        static_cast<pwned::Operation &>(op).execute();
        continue;
      }
      static_cast<pwned::Operation &>(op).execute();
    }
    const std::map<std::string, std::string> after = content(dst);
    for (auto &b : before)
    {
      auto it = after.find(b.first);
      check(it != after.end() && it->second == b.second, "an existing file was overwritten or removed: " + b.first);
    }
    std::vector<Counts> got(nLists);
    size_t files = 0;
    for (auto &a : after)
    {
      if (before.count(a.first))
        continue;
      ++files;
      const size_t k = size_t(a.first[4] - '0');
      check(a.first.compare(0, 4, "list") == 0 && k < nLists && a.first.size() > 4 && a.first.substr(a.first.size() - 4) == ".md5", "unexpected output file " + a.first);
      check(a.second.size() % 20 == 0, "the output is not made of whole records");
      const std::vector<Rec> r = recs(a.second);
      for (size_t j = 0; j < r.size(); ++j)
      {
        check(j == 0 || r[j - 1] < r[j], "the hashes in " + a.first + " do not strictly ascend");
        std::string h(16, 0);
        for (int b = 0; b < 8; ++b)
        {
          h[size_t(b)] = char(r[j].u >> (56 - 8 * b));
          h[size_t(8 + b)] = char(r[j].l >> (56 - 8 * b));
        }
        got[k][h] += r[j].c;
        check(r[j].c > 0, "a hash with count 0 is written");
      }
    }
    nontrivial += files > 1;
    for (size_t k = 0; k < nLists; ++k)
    {
      bool ok = false;
      std::string why;
      for (char s : choices(texts[k]))
      {
        const Counts want = expected(texts[k], s, md5On, hexOn);
        ok = ok || want == got[k];
        for (auto &w : want)
        {
          auto it = got[k].find(w.first);
          if (it == got[k].end())
            why = "hash " + hex(w.first) + " is lost";
          else if (it->second != w.second)
            why = "hash " + hex(w.first) + " is counted " + str(it->second) + " times instead of " + str(w.second);
        }
        if (why.empty())
          why = "a hash is written that is in no line";
      }
      check(ok, "list " + str(k) + ": " + why);
      check(readFile(names[k]) == texts[k], "the list itself was changed");
    }
  }
}
