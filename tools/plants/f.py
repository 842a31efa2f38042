XMAIN = TOOL.replace("@TOOL@", 'extras/pwned-password-extractor/pwned-password-extractor.cpp').replace('static bool tool', 'typedef const char **T;\nstatic bool tool', 1) + r'''
static std::string text(const std::string &f) { std::ifstream o(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(o), std::istreambuf_iterator<char>()); }
static void put(const std::string &f, const std::string &t) { std::ofstream o(f, std::ios::binary); o << t; }
static std::string unpacked(const std::string &f)
{
  std::string z = text(f), b(1u << 22, 0);
  unsigned n = unsigned(b.size());
  return BZ2_bzBuffToBuffDecompress(&b[0], &n, &z[0], unsigned(z.size()), 0, 0) == BZ_OK ? b.substr(0, n) : "damaged";
}
'''
X = 'extras/pwned-password-extractor/pwned-password-extractor.cpp'
XSRC = ['pwned-lib/userpasswordreader.cpp', 'pwned-lib/util.cpp', 'pwned-lib/hash.cpp']
XLIB = CMLIB + ' -lbz2'
plant('p27-cut-at-nul', 'P27',
      [(X, '          fwrite(pwd.c_str(), pwd.size(), 1, outFile);\n        }', '          fputs(pwd.c_str(), outFile);\n        }')],
      'a password with a NUL character, output not compressed',
      'the password is cut off at the NUL, and joined with the next one',
      XMAIN + r'''
int main()
{
  mkdir("in", 0755);
  put("in/l.txt", std::string("a@b.cd:one\nb@b.cd:a\0b\nc@b.cd:three\n", 35));
  CHECK(tool({"-S", "in", "-O", "out"}));
  CHECK(text("out") == std::string("one\na\0b\nthree\n", 14));
  return 0;
}
''', XSRC, XLIB)
plant('p27-notes-lost', 'P27',
      [(X, 'ignoreReady ? std::ios::trunc : std::ios::app;', 'ignoreReady ? std::ios::trunc : std::ios::out;')],
      'at least three runs, with a list added between the first and the second',
      'the second run removes the notes of the first, so that the third extracts its lists again',
      XMAIN + r'''
int main()
{
  mkdir("in", 0755);
  put("in/l.txt", "a@b.cd:one\n");
  CHECK(tool({"-S", "in", "-O", "out1"}));
  CHECK(text("out1") == "one\n");
  put("in/m.txt", "a@b.cd:two\n");
  CHECK(tool({"-S", "in", "-O", "out2"}));
  CHECK(text("out2") == "two\n");
  CHECK(tool({"-S", "in", "-O", "out3"}));
  CHECK(text("out3") == "");
  return 0;
}
''', XSRC, XLIB)
plant('p27-last-note', 'P27',
      [(X, '        alreadyProcessed[filename] = true;', '        if (!readyFileIn.eof())\n          alreadyProcessed[filename] = true;')],
      'a .ready whose last line is not terminated',
      'the list in the last line of .ready is extracted again',
      XMAIN + r'''
int main()
{
  mkdir("in", 0755);
  put("in/l.txt", "a@b.cd:one\n");
  put("in/m.txt", "a@b.cd:two\n");
  put(".ready", "in/l.txt\nin/m.txt");
  CHECK(tool({"-S", "in", "-O", "out"}));
  CHECK(text("out") == "");
  put(".ready", "in/l.txt\n");
  CHECK(tool({"-S", "in", "-O", "out2"}));
  CHECK(text("out2") == "two\n");
  return 0;
}
''', XSRC, XLIB)
plant('p27-noted-before', 'P27',
      [(X, '    std::cout << inputFilename << std::flush;\n', '    std::cout << inputFilename << std::flush;\n    readyFile << inputFilename << std::endl << std::flush;\n'),
       (X, '    readyFile << inputFilename << std::endl << std::flush;\n    inFile.close();', '    inFile.close();')],
      'a compressed output that cannot be written to its end while a list is extracted',
      'the list is noted as done although the extractor gave up, and never extracted again',
      XMAIN + r'''
int main()
{
  mkdir("in", 0755);
  std::string t;
  unsigned x = 12345;
  for (int i = 0; i < 200000; ++i) {
    t += "a@b.cd:";
    for (int k = 0; k < 10; ++k) { x = x * 1664525u + 1013904223u; t += char('a' + (x >> 16) % 26); }
    t += "\n";
  }
  put("in/l.txt", t);
  {
    const pid_t p = fork();
    if (p == 0) {
      alarm(60);
      struct rlimit l = {200000, 200000};
      setrlimit(RLIMIT_FSIZE, &l);
      signal(SIGXFSZ, SIG_IGN);
      freopen("/dev/null", "r", stdin);
      std::cout.setstate(std::ios::failbit);
      const char *v[] = {"tool", "-C", "-S", "in", "-O", "out"};
      _exit(tool_main(6, v));
    }
    int s = 0;
    waitpid(p, &s, 0);
    CHECK(!(WIFEXITED(s) && WEXITSTATUS(s) == 0));
  }
  CHECK(text(".ready") == "");
  return 0;
}
'''.replace('int main()', '#include <sys/resource.h>\n#include <csignal>\nint main()', 1), XSRC, XLIB)
plant('p27-first-skips-rest', 'P27',
      [(X, "      std::cout << \"Skipping '\" << inputFilename << \"'.\" << std::endl;\n      continue;", "      std::cout << \"Skipping '\" << inputFilename << \"'.\" << std::endl;\n      alreadyProcessed.begin()->second = true;\n      continue;"),
       (X, '    if (alreadyProcessed[inputFilename])', '    if (alreadyProcessed[inputFilename] && alreadyProcessed.size() > 1)')],
      'a .ready that names only one list, and this list is the first found',
      'the list is extracted again',
      XMAIN + r'''
int main()
{
  mkdir("in", 0755);
  put("in/l.txt", "a@b.cd:one\n");
  put(".ready", "in/l.txt");
  CHECK(tool({"-S", "in", "-O", "out"}));
  CHECK(text("out") == "");
  return 0;
}
''', XSRC, XLIB)
SMAIN = HDR + r'''
#include <unistd.h>
#include <signal.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#define main server_main
#include "pwned-server/pwned-server.cpp"
#undef main
static unsigned short port;
static int dial()
{
  const int fd = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  timeval tv{4, 0};
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  if (connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) == 0) return fd;
  close(fd);
  return -1;
}
static bool test();
// runs the server as it is started from the command line
static bool served(std::vector<std::string> args)
{
  for (int k = 0; k < 3; ++k) {
    {
      const int fd = socket(AF_INET, SOCK_STREAM, 0);
      sockaddr_in a{};
      a.sin_family = AF_INET;
      a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
      socklen_t n = sizeof a;
      if (bind(fd, reinterpret_cast<sockaddr *>(&a), n) || getsockname(fd, reinterpret_cast<sockaddr *>(&a), &n)) return false;
      port = ntohs(a.sin_port);
      close(fd);
    }
    std::vector<std::string> s{"server", "-I", "h.bin", "-A", "http://127.0.0.1:" + std::to_string(port) + "/v1"};
    s.insert(s.end(), args.begin(), args.end());
    const pid_t p = fork();
    if (p == 0) {
      alarm(60);
      std::vector<const char *> v;
      for (auto &x : s) v.push_back(x.c_str());
      std::cout.setstate(std::ios::failbit);
      _exit(server_main(int(v.size()), v.data()));
    }
    bool up = false;
    for (int i = 0; i < 100 && !up; ++i) {
      const int fd = dial();
      if (fd >= 0) { close(fd); up = true; }
      usleep(50000);
    }
    const bool ok = up && test();
    kill(p, SIGKILL);
    waitpid(p, nullptr, 0);
    if (up) return ok;
  }
  return false;
}
static bool answered(int fd)
{
  const char q[] = "GET /v1/lookup?hash=00000000000000010000000000000002 HTTP/1.1\r\nHost: h\r\n\r\n";
  if (send(fd, q, sizeof q - 1, MSG_NOSIGNAL) < 0) return false;
  std::string s;
  char b[1000];
  ssize_t n;
  while ((n = recv(fd, b, sizeof b, 0)) > 0) s.append(b, size_t(n));
  return s.find(" 200 ") != std::string::npos && s.find("7") != std::string::npos;
}
'''
SV_ = 'pwned-server/pwned-server.cpp'
SSRC = (WF, 'pwned-server/uri.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/passwordinspector.cpp', 'pwned-lib/util.cpp')
SLIB = '-lboost_program_options -lboost_filesystem -lboost_system'
plant('p26-no-worker', 'P26',
      [(SV_, '  if (numWorkers < 1)\n', '  if (numWorkers < 0)\n')],
      'the server started with -W 0',
      'no worker is started, and the server ends at once',
      SMAIN + r'''
static bool test() { const int fd = dial(); return fd >= 0 && answered(fd); }
int main()
{
  { std::ofstream o("h.bin", std::ios::binary); rec(o, 1, 2, 7); }
  CHECK(served({"-W", "0", "-T", "2"}));
  return 0;
}
''', SSRC, SLIB)
plant('p26-started-per-thread', 'P26',
      [(SV_, '      workers.back().start();\n', '      if (i <= numThreads)\n        workers.back().start();\n')],
      'more connections at the same time than threads and one, with slow clients',
      'only as many workers as threads and one are started; a client has to wait for those before it',
      SMAIN + r'''
static bool test()
{
  usleep(200000);
  std::vector<int> slow;
  for (int i = 0; i < 5; ++i) slow.push_back(dial());
  const int fd = dial();
  return fd >= 0 && answered(fd);
}
int main()
{
  { std::ofstream o("h.bin", std::ios::binary); rec(o, 1, 2, 7); }
  CHECK(served({"-W", "8", "-T", "2"}));
  return 0;
}
''', SSRC, SLIB)
