// A sorted hash file of several gigabytes: the file itself is a hole, its records are made up when they are read.
#pragma once
#include "search.hpp"
#include <sys/stat.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <unistd.h>

namespace vt
{
inline dev_t bigDev = 0;
inline ino_t bigIno = 0;
inline uint64_t bigStride = 0;
inline long bigReads = 0;

inline Rec bigRec(uint64_t k)
{
  return Rec{k * bigStride + 3, (k * 0x9e3779b97f4a7c15ull) ^ 0x55, uint32_t(1 + k % 1000003)};
}
} // namespace vt

extern "C" ssize_t read(int fd, void *buf, size_t n)
{
  const off_t at = vt::bigIno ? lseek(fd, 0, SEEK_CUR) : -1;
  const ssize_t r = syscall(SYS_read, fd, buf, n);
  struct stat s;
  if (r > 0 && at >= 0 && vt::bigIno && fstat(fd, &s) == 0 && s.st_ino == vt::bigIno && s.st_dev == vt::bigDev)
  {
    ++vt::bigReads;
    for (uint64_t k = uint64_t(at) / 20; k * 20 < uint64_t(at) + uint64_t(r); ++k)
    {
      const vt::Rec e = vt::bigRec(k);
      unsigned char b[20];
      memcpy(b, &e.u, 8);
      memcpy(b + 8, &e.l, 8);
      memcpy(b + 16, &e.c, 4);
      for (uint64_t j = 0; j < 20; ++j)
        if (k * 20 + j >= uint64_t(at) && k * 20 + j < uint64_t(at) + uint64_t(r))
          static_cast<unsigned char *>(buf)[k * 20 + j - uint64_t(at)] = b[j];
    }
  }
  return r;
}

namespace vt
{
// lookups near the borders where 31, 32 or 33 bits of the position are exceeded, and elsewhere;
// look: (inspector file, index file, hash, which search)
inline void bigFile(uint64_t n, bool smart, unsigned indexBits)
{
  const std::string f = dir + "/big.md5", x = dir + "/big.index";
  const int fd = open(f.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
  struct stat s;
  if (fd < 0 || ftruncate(fd, off_t(n * 20)) != 0 || fstat(fd, &s) != 0)
  {
    if (fd >= 0)
      close(fd);
    unlink(f.c_str());
    return; // no such big files here
  }
  close(fd);
  bigDev = s.st_dev;
  bigStride = ~uint64_t(0) / n;
  if (indexBits)
  {
    std::vector<uint64_t> e(size_t(1) << indexBits, ~uint64_t(0));
    for (uint64_t key = 0; key < e.size(); ++key)
    {
      const uint64_t low = key << (64 - indexBits);
      const uint64_t k = low <= 3 ? 0 : (low - 3 + bigStride - 1) / bigStride;
      if (k < n && (bigRec(k).u >> (64 - indexBits)) == key)
        e[key] = k * 20;
    }
    writeFile(x, std::string(reinterpret_cast<const char *>(e.data()), e.size() * 8));
  }
  bigIno = s.st_ino;
  for (int i = 0; i < 60; ++i)
  {
    const uint64_t edge[] = {0, n, (uint64_t(1) << 31) / 20, (uint64_t(1) << 32) / 20, n / 2, (uint64_t(1) << 30) / 20};
    const uint64_t e = i < 30 ? edge[i % 6] : rnd(n);
    const uint64_t k = std::min<uint64_t>(n - 1, rnd(2) ? e + rnd(3) : e - std::min<uint64_t>(e, rnd(3)));
    Rec t = bigRec(k);
    const bool absent = rnd(4) == 0;
    if (absent)
      ++t.l;
    note("file of " + str(n) + " records (" + str(n / 50000000) + " GB)" + (indexBits ? " with an index of " + str(indexBits) + " bits" : std::string()) + (smart ? ", smart" : ",") + " lookup of " + showHash(t));
    const long before = bigReads;
    PHC p;
    if (indexBits)
    {
      PasswordInspector pi(f, x);
      p = smart ? pi.smart_binsearch(Hash(t.u, t.l)) : pi.binsearch(Hash(t.u, t.l));
    }
    else
    {
      PasswordInspector pi(f);
      p = smart ? pi.smart_binsearch(Hash(t.u, t.l)) : pi.binsearch(Hash(t.u, t.l));
    }
    if (bigReads == before)
      break; // the file is read in a way that cannot be intercepted
    ++cases;
    check(p.count == (absent ? 0 : t.c), "record " + str(k) + " of " + str(n) + ": count " + str(p.count) + " reported for hash " + showHash(t) + " instead of " + str(absent ? 0 : t.c));
  }
  bigIno = 0;
  unlink(f.c_str());
}
} // namespace vt
