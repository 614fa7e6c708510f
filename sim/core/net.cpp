#include "simrt.hpp"
#include "net.hpp"
#include <cerrno>
#include <unistd.h>
#include <sys/syscall.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <fcntl.h>
namespace sim {
NetPeer& peer(){ static NetPeer* p=new NetPeer; return *p; }
static bool sock[1024];
bool netIsFd(int fd){ return fd>=0&&fd<1024&&sock[fd]; }
ssize_t netRead(int,void* b,size_t n){ syscallPoint(); lg().count("io.recv"); NoPreempt np; ssize_t r=peer().onRead?peer().onRead((char*)b,n):-ENOTCONN; if(r<0){ errno=-r; return -1; } return r; }
ssize_t netWrite(int,const void* b,size_t n){ syscallPoint(); lg().count("io.send"); NoPreempt np; ssize_t r=peer().onWrite?peer().onWrite((const char*)b,n):-ENOTCONN; if(r<0){ errno=-r; return -1; } return r; }
int netClose(int fd){ sock[fd]=false; peer().open--; return syscall(SYS_close,fd); }
}
using namespace sim;
extern "C" {
int socket(int d,int t,int p){ if(!rt().active) return syscall(SYS_socket,d,t,p); if(d!=AF_INET||t!=SOCK_STREAM){ errno=EAFNOSUPPORT; return -1; } int fd=syscall(SYS_openat,AT_FDCWD,"/dev/null",O_RDWR); if(fd<0||fd>=1024) return -1; sock[fd]=true; peer().open++; return fd; }
int connect(int fd,const struct sockaddr* a,socklen_t n){ if(!netIsFd(fd)) return syscall(SYS_connect,fd,a,n); NoPreempt np; if(n<sizeof(sockaddr_in)||a->sa_family!=AF_INET){ errno=EAFNOSUPPORT; return -1; } const sockaddr_in* i=(const sockaddr_in*)a; unsigned h=ntohl(i->sin_addr.s_addr); std::string s; for(int k=24;k>=0;k-=8) s+=(s.empty()?"":".")+std::to_string(h>>k&255); int e=peer().onConnect?peer().onConnect(s,ntohs(i->sin_port)):ECONNREFUSED; if(e){ errno=e; return -1; } return 0; }
int setsockopt(int fd,int l,int o,const void* v,socklen_t n){ if(!netIsFd(fd)) return syscall(SYS_setsockopt,fd,l,o,v,n); if(n<sizeof(int)){ errno=EINVAL; return -1; } return 0; }
}
