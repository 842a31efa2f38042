TOOL = HDR.replace('#define CHECK', '''#include <map>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
#define main tool_main
#include "@TOOL@"
#undef main
#define CHECK''') + r'''
typedef std::map<std::string, unsigned> M;
// the tool is run in a process of its own
static bool tool(std::vector<std::string> a)
{
  a.insert(a.begin(), "tool");
  std::vector<const char *> v;
  for (auto &s : a) v.push_back(s.c_str());
  const pid_t p = fork();
  if (p == 0) {
    alarm(60);
    freopen("/dev/null", "r", stdin);
    freopen("/dev/null", "w", stdout);
    std::cout.setstate(std::ios::failbit);
    _exit(tool_main(int(v.size()), const_cast<T>(v.data())));
  }
  int s = 0;
  waitpid(p, &s, 0);
  return WIFEXITED(s) && WEXITSTATUS(s) == 0;
}
static void add(M &m, const std::string &f)
{
  std::ifstream o(f, std::ios::binary);
  char b[20];
  while (o.read(b, 20)) { unsigned c; memcpy(&c, b + 16, 4); m[std::string(b, 16)] += c; }
}
'''
CMAIN = TOOL.replace("@TOOL@", 'pwned-converter-cli/pwned-converter-cli.cpp')
CMAIN = CMAIN.replace('static bool tool', 'typedef const char **T;\nstatic bool tool', 1)
CSRC = ['pwned-converter-cli/convertoperation.cpp', 'pwned-lib/userpasswordreader.cpp'] + OPS
CMLIB = '-lboost_program_options -lboost_filesystem -lboost_system'
MMAIN = TOOL.replace("@TOOL@", 'pwned-merger-cli/pwned-merger-cli.cpp')
MMAIN = MMAIN.replace('static bool tool', 'typedef const char **T;\nstatic bool tool', 1)
C = 'pwned-converter-cli/pwned-converter-cli.cpp'
G = 'pwned-merger-cli/pwned-merger-cli.cpp'
COUT = r'''
#include <dirent.h>
static M outputs(const char *d)
{
  M m;
  DIR *p = opendir(d);
  while (dirent *e = readdir(p)) add(m, std::string(d) + "/" + e->d_name);
  closedir(p);
  return m;
}
static unsigned count(const M &m, const char *pw)
{
  pwned::Hash h((std::string(pw)));
  const std::string k = std::string(reinterpret_cast<const char *>(&h.quad.upper), 8) + std::string(reinterpret_cast<const char *>(&h.quad.lower), 8);
  auto i = m.find(k);
  return i == m.end() ? 0 : i->second;
}
static bool list(const std::string &f, const std::string &t) { std::ofstream o(f, std::ios::binary); o << t; return true; }
'''
plant('p09-tiny-list', 'P09',
      [(C, 'if (fs::is_regular_file(f) && ba::ends_with(filePath, ".txt"))', 'if (fs::is_regular_file(f) && ba::ends_with(filePath, ".txt") && fs::file_size(filePath) > 2)')],
      'a directory with a list of one or two characters (one entry without a separator)',
      'the entry of such a list is in no output file',
      CMAIN + COUT + r'''
int main()
{
  mkdir("src", 0755); mkdir("src/sub", 0755); mkdir("dst", 0755);
  list("src/a.txt", "u:one\nv:two\n"); list("src/sub/b.txt", "x"); list("src/c.txt", "w:two\n");
  CHECK(tool({"-S", "src", "-D", "dst"}));
  const M m = outputs("dst");
  CHECK(count(m, "one") == 1); CHECK(count(m, "two") == 2); CHECK(count(m, "x") == 1);
  return 0;
}
''', CSRC, CMLIB)
plant('p09-both-options', 'P09',
      [(C, '  if (forceHex)\n', '  if (forceHex && options.empty())\n')],
      'evaluation of MD5 hashes and of hex-encoded passwords asked for together',
      'hex-encoded passwords are hashed as they stand',
      CMAIN + COUT + r'''
int main()
{
  mkdir("dst", 0755);
  list("a.txt", "u:$HEX[6f6e65]\nv:two\nw:b8a9f715dbb64fd5c56e7783c6820a61\n");
  CHECK(tool({"-I", "a.txt", "-D", "dst", "--force-md5", "--force-hex"}));
  const M m = outputs("dst");
  CHECK(count(m, "one") == 1); CHECK(count(m, "two") == 2);
  return 0;
}
''', CSRC, CMLIB)
plant('p09-shared-map', 'P09',
      [('pwned-converter-cli/convertoperation.cpp', '    std::vector<pwned::PasswordHashAndCount> passwordList;\n', '    static std::vector<pwned::PasswordHashAndCount> passwordList;\n    passwordList.clear();\n')],
      'lists that are converted at the same time',
      'operations write their entries into one buffer: entries are lost, or counted several times, or the program crashes',
      CMAIN + COUT + r'''
int main()
{
  mkdir("src", 0755); mkdir("dst", 0755);
  M want;
  for (int k = 0; k < 60; ++k) {
    std::string t;
    for (int j = 0; j < 300; ++j) t += "u:p" + std::to_string(k) + "x" + std::to_string(j) + "\n";
    list("src/l" + std::to_string(k) + ".txt", t);
  }
  for (int r = 0; r < 3; ++r) {
    const std::string d = "dst" + std::to_string(r);
    mkdir(d.c_str(), 0755);
    CHECK(tool({"-S", "src", "-D", d}));
    const M m = outputs(d.c_str());
    CHECK(m.size() == 18000u);
    for (auto &e : m) CHECK(e.second == 1);
  }
  return 0;
}
''', CSRC, CMLIB)
MTEST = r'''
static int merged(int n, int atOnce, bool byDirectory, bool single)
{
  mkdir("in", 0755); mkdir("tmp", 0755);
  M want;
  std::vector<std::string> a{"-O", "out.bin", "-T", "tmp", "-n", std::to_string(atOnce)};
  for (int i = 0; i < n; ++i) {
    const std::string f = "in/f" + std::to_string(i) + ".md5";
    { std::ofstream o(f, std::ios::binary); for (int k = 1; k < (single ? 2 : 9); ++k) rec(o, k + i % 3, k * i, 1 + i); }
    add(want, f);
    if (!byDirectory) { a.push_back("-I"); a.push_back(f); }
  }
  if (byDirectory) { a.push_back("-S"); a.push_back("in"); }
  unlink("out.bin");
  CHECK(tool(a));
  M got;
  add(got, "out.bin");
  CHECK(got == want);
  return 0;
}
'''
plant('p10-one-left', 'P10',
      [(G, '    const bool isLastChunk = inputFileSlice.size() == inputFiles.size();', '    const bool isLastChunk = inputFileSlice.size() + 1 >= inputFiles.size();')],
      'a pass that leaves exactly one file (for example one file more than can be merged at once)',
      'the result of this pass is overwritten by the file that is left',
      MMAIN + MTEST + r'''
int main()
{
  for (int n = 1; n < 8; ++n) for (int at = 2; at < 5; ++at) if (merged(n, at, false, false)) return 1;
  return 0;
}
''', MSRC, CMLIB)
plant('p10-single-record', 'P10',
      [(G, 'fs::is_regular_file(f) && fs::file_size(filePath) > 0)', 'fs::is_regular_file(f) && fs::file_size(filePath) > pwned::PasswordHashAndCount::size)')],
      'a directory with a file of a single record',
      'files of one record are left out',
      MMAIN + MTEST + r'''
int main() { return merged(3, 10, true, true) || merged(5, 10, true, false); }
''', MSRC, CMLIB)
plant('p10-temp-name', 'P10',
      [(G, '(fs::path(tmpDirectory) / fs::unique_path()).string() + outputExt', '(fs::path(tmpDirectory) / ("pass-" + std::to_string(inputFileSlice.size()))).string() + outputExt')],
      'at least two passes before the last one',
      'an intermediate file overwrites the one before',
      MMAIN + MTEST + r'''
int main()
{
  for (int n = 1; n < 9; ++n) for (int at = 2; at < 5; ++at) if (merged(n, at, false, false)) return 1;
  return 0;
}
''', MSRC, CMLIB)
