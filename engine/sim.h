/* Simulated kernel: the descriptors, readiness notification and clocks the library uses, as a deterministic
 * state machine whose environment side (peers, time, the file system) is driven by a harness.
 * The strong definitions of the libc entry points are in sim.c; descriptors below SIM_FD_BASE go to the real kernel. */
#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>

#define SIM_FD_BASE 70000
#define SIM_FDS     256

typedef struct sim_conn sim_conn;
struct sim_conn
{
  int       fd;          /* descriptor on the library's side, -1 once it is closed */
  int       kind;        /* SIM_SOCK, SIM_PIPE_R, SIM_PIPE_W */
  /* towards the library */
  uint8_t  *rx;
  size_t    rxlen, rxcap, rxoff;
  int       fin;         /* peer finished sending */
  int       rst;         /* connection reset */
  int       err;         /* pending socket error */
  /* from the library */
  uint8_t  *tx;          /* sent, not taken by the peer yet */
  size_t    txlen, txbuf;
  size_t    cap;         /* send space */
  int       nospace;
  int       full;        /* a full pipe whose reader has gone */
  int       shut_wr;     /* library closed or shut down its sending side */
  int       closed;      /* library closed the descriptor */
  uint8_t  *got;         /* everything the peer has taken */
  size_t    gotlen, gotcap;
  size_t    sent;        /* bytes accepted from the library in total */
  size_t    delivered;   /* bytes handed to the library in total */
  int       writes, reads, write_errors, read_errors;
  int       unread_close; /* library closed with unread input (a kernel would send a reset) */
};

enum { SIM_FREE, SIM_EPOLL, SIM_EVENTFD, SIM_TIMERFD, SIM_INOTIFY, SIM_SOCK, SIM_PIPE_R, SIM_PIPE_W, SIM_LISTEN, SIM_NEWSOCK };

void      sim_reset(void);
int       sim_open_fds(void);              /* descriptors currently open */
const char *sim_open_list(void);
int       sim_is_open(int fd);
int       sim_kind(int fd);
uint64_t  sim_hash(void);
uint64_t  sim_calls(void);
void      sim_call_limit(uint64_t);

/* time */
uint64_t  sim_now(void);                   /* ns */
void      sim_set_now(uint64_t ns);
void      sim_advance(uint64_t ns);
uint64_t  sim_next_expiry(void);           /* 0: none armed */

/* epoll */
int       sim_ready(void);                 /* some epoll instance would report an event now */
int       sim_ready_on(int epfd);
int       sim_epoll_fd(void);              /* most recently created epoll instance, -1 none */
extern int (*sim_on_block)(int epfd);      /* called when epoll_wait would sleep; 0: look again, -1: return EINTR */
extern void (*sim_on_call)(const char *name, int fd); /* before each simulated call */
extern int (*sim_wait_hook)(int epfd);     /* before each epoll_wait: -1 return EINTR */
extern size_t (*sim_split)(int fd, int wr, size_t n); /* bytes a read()/write() of n transfers at most (real descriptors too) */
uint64_t  sim_waits(void);                 /* epoll_wait calls that returned events */
size_t    sim_max_batch(void);             /* cap on events per epoll_wait (0: none) */
void      sim_set_max_batch(size_t);

/* stream sockets and pipes */
sim_conn *sim_conn_new(int kind, size_t send_space); /* fd in ->fd, nonblocking */
void      sim_peer_send(sim_conn *, const void *, size_t);
void      sim_peer_fin(sim_conn *);
void      sim_peer_rst(sim_conn *);
size_t    sim_peer_take(sim_conn *, size_t max); /* peer reads what was sent */
void      sim_set_cap(sim_conn *, size_t);
size_t    sim_in_flight(sim_conn *);

/* listening sockets */
int       sim_listen_new(void);
sim_conn *sim_listen_connect(int fd, size_t send_space); /* queue a connection; ->fd is -2 until accepted */
void      sim_listen_error(int fd, int err);             /* queue a failing accept */
size_t    sim_listen_pending(int fd);
void      sim_set_fd_limit(size_t);                /* accept fails while so many descriptors are open (0: never) */

/* eventfd */
uint64_t  sim_eventfd_count(int fd);

/* inotify */
void      sim_inotify_fail(const char *path, int err);   /* inotify_add_watch on path fails */
int       sim_inotify_emit(int fd, int wd, uint32_t mask, const char *name); /* -1: no such descriptor */
void      sim_inotify_first_wd(int);                     /* number of the first watch of instances made from now on */
int       sim_inotify_wd(int fd, const char *path);      /* -1: not watched */
uint32_t  sim_inotify_mask(int fd, int wd);              /* what is watched for */
void      sim_inotify_limit(size_t);                     /* queue limit, then one overflow event (0: none) */

/* sockets (socket/bind/listen/connect/getaddrinfo) */
enum { SIM_OP_SOCKET, SIM_OP_SETSOCKOPT, SIM_OP_BIND, SIM_OP_LISTEN, SIM_OP_CONNECT, SIM_OP_GETADDRINFO, SIM_OPS };
extern int (*sim_fault)(int op);           /* errno (or EAI_ code) to fail with, 0: succeed */
typedef struct { int reuseaddr, reuseport, bound, listening, backlog, connected, nonblock, family, type, protocol; uint8_t addr[128]; size_t addrlen; } sim_sockinfo;
const sim_sockinfo *sim_sock_info(int fd);
int       sim_addrinfo_live(void);
struct addrinfo;
extern void (*sim_getaddrinfo_hook)(const char *host, const char *serv, const struct addrinfo *hints, int done); /* before (0) and after (1) resolving */
extern int sim_getaddrinfo_on;             /* 1: getaddrinfo is simulated */
extern int sim_getaddrinfo_passive_type;
int       sim_calls_of(int op);
#endif
