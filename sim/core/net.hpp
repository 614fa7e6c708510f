// Simulated TCP peers: one scripted device at a time, behind socket/connect/read/write/close.
#pragma once
#include <sys/types.h>
#include <functional>
#include <string>
namespace sim {
struct NetPeer {
  std::function<int(const std::string& host,int port)> onConnect;   // 0, or an errno
  std::function<ssize_t(char* b,size_t n)> onRead;                  // bytes, 0 at end of stream, or -errno
  std::function<ssize_t(const char* b,size_t n)> onWrite;           // bytes taken, or -errno
  int open=0;                                                       // sockets the program holds
};
NetPeer& peer();
bool netIsFd(int fd); ssize_t netRead(int fd,void* b,size_t n); ssize_t netWrite(int fd,const void* b,size_t n); int netClose(int fd); void syscallPoint();
}
