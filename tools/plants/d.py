WHDR = HDR + r'''
#include <list>
#include <thread>
#include <unistd.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <signal.h>
#include <fstream>
#include <boost/asio.hpp>
#include "pwned-server/httpworker.hpp"
static unsigned short port;
// what a connection gets for what it sends; leave: 0: reads all, 1: closes at once, 3: closes later, 2: resets the connection
static std::string ask(const std::string &q, int leave = 0)
{
  const int fd = socket(AF_INET, SOCK_STREAM, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_port = htons(port);
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  timeval tv{15, 0};
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  if (connect(fd, reinterpret_cast<sockaddr *>(&a), sizeof a) != 0) return "no connection";
  if (!q.empty() && send(fd, q.data(), q.size(), MSG_NOSIGNAL) < 0) return "not sent";
  std::string r;
  if (leave == 0)
  {
    char b[4096];
    for (ssize_t n; (n = recv(fd, b, sizeof b, 0)) > 0;) r.append(b, size_t(n));
  }
  if (leave == 3) usleep(400000);
  if (leave == 2)
  {
    linger l{1, 0};
    setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  }
  close(fd);
  usleep(20000);
  return r;
}
static std::string get(const std::string &target, int leave = 0) { return ask("GET " + target + " HTTP/1.1\r\nHost: h\r\n\r\n", leave); }
static bool has(const std::string &s, const std::string &t) { return s.find(t) != std::string::npos; }
static void put(std::ofstream &f, uint64_t v, int n) { for (int i = 0; i < n; ++i) f.put(char(v >> (8 * i))); }
static bool test();
int main()
{
  signal(SIGPIPE, SIG_IGN);
  {
    std::ofstream f("hashes.bin", std::ios::binary);
    put(f, 1, 8); put(f, 2, 8); put(f, 7, 4);
    put(f, 3, 8); put(f, 4, 8); put(f, 4000000000u, 4);
  }
  boost::asio::io_context ioc;
  boost::asio::ip::tcp::acceptor acceptor(ioc, {boost::asio::ip::make_address("127.0.0.1"), 0});
  port = acceptor.local_endpoint().port();
  webservice::HttpWorker w(acceptor, "/v1", "hashes.bin", "");
  w.start();
  std::thread t([&] { ioc.run(); });
  const bool ok = test();
  ioc.stop();
  t.join();
  return ok ? 0 : 1;
}
'''
WF = 'pwned-server/httpworker.cpp'
WSRC = (WF, 'pwned-server/uri.cpp', 'pwned-lib/hash.cpp', 'pwned-lib/passwordinspector.cpp', 'pwned-lib/util.cpp')
WLIB = '-lboost_filesystem -lboost_system'
ONEH = '"/v1/lookup?hash=00000000000000010000000000000002"'
plant('p26-read-eof', 'P26',
      [(WF, '''        if (ec)
        {
          accept();
        }
        else
        {
          processRequest(''', '''        if (ec == http::error::end_of_stream)
        {
          mSocket.close(ec); // nothing to answer
        }
        else if (ec)
        {
          accept();
        }
        else
        {
          processRequest(''')],
      'a client that closes its connection without sending anything, once per worker',
      'the worker that served it never accepts a connection again',
      WHDR + 'bool test() { ask("", 1); ask("", 1); return has(get(' + ONEH + '), "\\"found\\":7"); }\n', WSRC, WLIB)
plant('p26-write-failed', 'P26',
      [(WF, '''  mSerializer.emplace(*mResponse);
  http::async_write(
      mSocket,
      *mSerializer,
      [this](beast::error_code ec, std::size_t) {
        mSocket.shutdown(tcp::socket::shutdown_send, ec);
''', '''  mSerializer.emplace(*mResponse);
  http::async_write(
      mSocket,
      *mSerializer,
      [this](beast::error_code ec, std::size_t) {
        if (ec)
        {
          return;
        }
        mSocket.shutdown(tcp::socket::shutdown_send, ec);
''')],
      'a client that has reset its connection when it is told that there is nothing at the path',
      'the worker that served it never accepts a connection again',
      WHDR + r'''bool test()
{
  // the worker is busy with one client while the next one comes and goes
  std::thread t([] { ask("GET /v1", 3); });
  usleep(150000);
  get("/nothing", 2);
  t.join();
  return has(get("/v1/lookup?hash=00000000000000010000000000000002"), "\"found\":7");
}
''', WSRC, WLIB)
plant('p26-count-signed', 'P26',
      [(WF, 'std::to_string(phc.count)', 'std::to_string(int(phc.count))')],
      'a hash stored with a count of more than 2^31',
      'the count in the answer is negative',
      WHDR + 'bool test() { return has(get("/v1/lookup?hash=00000000000000030000000000000004"), "\\"found\\":4000000000"); }\n', WSRC, WLIB)
plant('p26-input-left', 'P26',
      [(WF, '  mBuffer.consume(mBuffer.size());\n', '  mBuffer.shrink_to_fit();\n')],
      'a client that sends more than one request, or leaves in the middle of one, and another client after it',
      'what is left of the input of the first client is taken for the beginning of the request of the second',
      WHDR + 'bool test() { ask("GET /v1/in", 1); const std::string s = get(' + ONEH + '); return has(s, " 200 ") && has(s, "\\"found\\":7"); }\n', WSRC, WLIB)
plant('p26-path-prefix', 'P26',
      [(WF, 'uri.path() == (mBasePath + "/lookup") &&', 'uri.path().compare(0, mBasePath.size() + 7, mBasePath + "/lookup") == 0 &&')],
      'a request with a hash parameter for a path that only starts like the lookup path',
      'it is answered with status 200 instead of 404',
      WHDR + 'bool test() { return has(get("/v1/lookups?hash=00000000000000010000000000000002"), " 404 "); }\n', WSRC, WLIB)
plant('p26-length-before-body', 'P26',
      [(WF, '''  mResponse->body() = error;
  mResponse->prepare_payload();
''', '''  mResponse->prepare_payload();
  mResponse->body() = error;
''')],
      'a request of a method other than GET',
      'the length announced is 0, so the client does not see the text of the answer',
      WHDR + 'bool test() { const std::string s = ask("PUT /v1/info HTTP/1.1\\r\\nHost: h\\r\\n\\r\\n"); return has(s, " 400 ") && !has(s, "Content-Length: 0\\r\\n"); }\n', WSRC, WLIB)
