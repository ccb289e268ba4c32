// The file system calls of the code under test: passed on to scratch
// directories, observed, scheduled, and failed at chosen points.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vfs {
struct Params {
  std::string dst, src;      // roots (real directories)
  long crashAt = -1;         // _exit(99) at the n-th changing call on dst (from 0)
  bool crashMid = false;     // ... having performed half of it if it is a write
  long failAt = -1;          // that call fails
  int failErrno = 5;
  std::string failOp;        // only calls of this kind count (empty: all)
  bool shortWrites = false;  // writes may be partial
  // the source file of this name ends early / fails
  std::string srcDir;  // cannot be opened
  std::string srcFile;
  long srcLimit = -1;
  int srcErrno = 0;
};
extern Params params;

struct Block {  // one open ... close of a destination file
  std::string rel;
  long off = -1, len = 0;  // written: [off, off+len)
  bool contiguous = true, good = true, synced = true;
};
struct Hooks {
  // what the byte of a destination file should be
  std::function<bool(const std::string& rel, long off, const char* buf, long n)> goodData;
  std::function<void(const Block&)> block;           // a file was closed
  std::function<void(const std::string& op, const std::string& rel, long arg)> op;  // unlink, mkdir, resize, create...
  std::function<void(const char* buf, long n, bool synced)> log;  // bytes to the transfer log
  std::function<void()> logSynced;
  std::function<void(const std::string& rel, long off, long n, bool good)> wrote;  // part of a destination file
  std::function<void(const std::string& rel)> synced;
  std::function<void()> crash;
  std::function<void(const std::string& op, const std::string& rel)> failed;
  std::function<void(const std::string& rel, long off, long n)> srcRead;
};
extern Hooks hooks;
long ops();
int openFiles();  // descriptors of files below the roots still open
}
