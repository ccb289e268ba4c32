// A network inside the process: the socket calls of the code under test are
// interposed and answered by in-memory connections with virtual time, segment
// sizes, back pressure and faults at chosen points.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace vnet {

// A fault of the connection number nth (from 0) to a port, in direction dir (0
// towards the listener), after off bytes.
struct Fault {
  int port = 0, nth = 0, dir = 0;
  long off = 0;
  std::string kind;  // rst fin corrupt dropN dupN cdata (corrupt, in data or footers only) | refuse blackhole (connection attempts)
  long ms = 0;       // the direction stalls for so long first
  bool done = false;
};

struct Params {
  long capacity = 65536;  // bytes on their way plus unread, per direction
  int seg = 0;            // largest read, 0: whatever is there
  bool rstDropsRx = false;
  std::vector<Fault> faults;
  // ports in use by others for so many attempts to bind; a stranger accepts connections there and is silent, or nobody does
  struct Taken {
    int port = 0, tries = 0;
    bool stranger = false;
    int fd = -1;
  };
  std::vector<Taken> taken;
};
extern Params params;

// what happens on the connections, in order
struct Hooks {
  std::function<void(int port, int nth, bool ok, const char* why)> connected;
  std::function<void(int port, int nth)> accepted;
  // side 0: the connecting end, 1: the accepting end
  std::function<void(int port, int nth, int side, const char* buf, long n)> attempt;  // about to write
  std::function<void(int port, int nth, int side, long n)> wrote;    // n bytes more are accepted
  std::function<void(int port, int nth, int side, const char* buf, long n)> didRead;  // n > 0
  std::function<void(int port, int nth, int side, const char* why)> broke;  // eof, error seen by a call
  std::function<void(int port, int nth, int side)> closed;
  std::function<void(int port)> listening, unlistened;
  std::function<void(int port, int nth, const char* kind)> fault;
  std::function<bool(int port, int nth, long off)> covered;  // data or footer, to the listener
};
extern Hooks hooks;
extern int64_t connectStart;  // of the attempt hooks.connected is told of

void takePorts();  // as params.taken says
bool isSocket(int fd);
long readSock(int fd, void* buf, size_t n);
long writeSock(int fd, const void* buf, size_t n);
int closeSock(int fd);
// the connection the calling thread last made or accepted
struct Cur {
  int port = 0, nth = -1, side = -1;
};
Cur current();
int openConnections();
}
