#include "vnet.hpp"
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <string.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <set>

namespace vnet {
Hooks hooks;
thread_local usec now = 0;
thread_local long calls = 0;
thread_local bool active = false;
std::function<void()> onStop;
std::vector<usec> strikes;
usec strikeEvery = 0;
int fdMin = 0;

static std::map<int, std::unique_ptr<Conn>> table;   // by descriptor
static std::vector<std::unique_ptr<Conn>> graveyard;
static std::set<int> everClosed;
static const time_t EPOCH = 1780000000;               // fixed wall clock (2026)

int rawClose(int fd) { return static_cast<int>(syscall(SYS_close, fd)); }

Conn *connOfFd(int fd) {
    if (!active) return nullptr;
    auto it = table.find(fd);
    return it == table.end() ? nullptr : it->second.get();
}

void stop(const std::string &why) {
    hooks.anomaly(why);
    if (onStop) onStop();
    _exit(0);
}

// ---- turns ----
thread_local int me = 0;
static thread_local int depth = 0;
static pthread_mutex_t turnLock = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t turnChange = PTHREAD_COND_INITIALIZER;
static int turn = 0;                 // 0: there are no threads
static bool over[3], inside[3];
static long steps[3];
static std::vector<int> schedule;
static size_t position = 0;
static long left = 0;

void beginTurns(const std::vector<int> &sched) {
    schedule = sched;
    position = 0;
    left = schedule.empty() ? -1 : std::abs(schedule[0]);
    turn = 1;
}
long stepsOf(int thread) { return steps[thread]; }

// Waits for this thread's turn. A thread that is blocked by the other one (in a lock
// of the program) cannot go on: then the other one takes the turn
static void awaitTurn() {
    while (turn != me) {
        long seen = steps[3 - me];
        struct timespec ts;
        syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
        ts.tv_nsec += 300000000;
        if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
        if (pthread_cond_timedwait(&turnChange, &turnLock, &ts) == ETIMEDOUT && turn != me
                && !inside[3 - me] && steps[3 - me] == seen) turn = me;
    }
}
static void step(bool counts) {
    pthread_mutex_lock(&turnLock);
    awaitTurn();
    if (counts) {
        steps[me]++;
        if (left > 0 && --left == 0) {
            if (schedule[position] > 0) position++;
            left = position < schedule.size() && schedule[position] < 0 ? -schedule[position] : position < schedule.size() ? schedule[position] : -1;
            if (!over[3 - me]) {
                turn = 3 - me;
                pthread_cond_broadcast(&turnChange);
                awaitTurn();
            }
        }
    }
    pthread_mutex_unlock(&turnLock);
}
void finished() {
    pthread_mutex_lock(&turnLock);
    awaitTurn();
    over[me] = true;
    turn = 3 - me;
    // what is left of the schedule belongs to the switches between both
    left = -1;
    pthread_cond_broadcast(&turnChange);
    pthread_mutex_unlock(&turnLock);
}
Step::Step(int fd) : mine(me != 0 && (fd == ANY || connOfFd(fd) != nullptr)) { if (mine && depth++ == 0) { int e = errno; step(false); inside[me] = true; errno = e; } }
Step::~Step() { if (mine && --depth == 0) { int e = errno; inside[me] = false; step(true); errno = e; } }

static void tick() {
    if (++calls > 3000000) stop("spin");
}

// A wait that would last until `end` (-1: forever) is interrupted by the first
// signal that is handled in the meantime
static bool struck(usec end) {
    if (!active) return false;
    usec first = -1;
    for (usec t : strikes) if (t > now && (first < 0 || t < first)) first = t;
    if (strikeEvery > 0) {
        usec t = (now / strikeEvery + 1) * strikeEvery;
        if (first < 0 || t < first) first = t;
    }
    if (first < 0 || (end >= 0 && first > end)) return false;
    now = first;
    return true;
}

void push(Conn &c, usec t, const std::string &data, int reply) {
    Chunk k;
    k.t = t;
    if (!c.out.empty()) k.t = std::max(k.t, c.out.back().t);
    k.data = data;
    k.reply = reply;
    c.out.push_back(k);
}

void finish(Conn &c, usec t, bool rst) {
    Chunk k;
    k.t = t;
    if (!c.out.empty()) k.t = std::max(k.t, c.out.back().t);
    k.eof = !rst;
    k.rst = rst;
    c.out.push_back(k);
}

static std::map<std::string, std::string> ips;
std::string ipOf(const std::string &host) {
    auto it = ips.find(host);
    if (it == ips.end()) {
        it = ips.emplace(host, "10.9.0." + std::to_string(ips.size() + 1)).first;
    }
    return it->second;
}
std::string hostOfIp(const std::string &ip) {
    for (auto &p : ips) if (p.second == ip) return p.first;
    return "?" + ip;
}

void reset() {
    for (auto &p : table) rawClose(p.first);
    table.clear();
    graveyard.clear();
    everClosed.clear();
    ips.clear();
    now = 0;
    calls = 0;
}

static bool completed(Conn &c) { return c.readyAt >= 0 && now >= c.readyAt; }

static void settle(Conn &c) {
    if (c.state == Conn::kConnecting && completed(c)) {
        c.state = c.connectError ? Conn::kFailed : Conn::kConnected;
    }
}

static bool readable(Conn &c) {
    settle(c);
    if (c.state == Conn::kFailed) return true;
    if (c.state != Conn::kConnected) return false;
    return c.finRead || c.gone == Conn::kRst || (!c.out.empty() && c.out.front().t <= now);
}
static bool writable(Conn &c) {
    settle(c);
    if (c.state == Conn::kFailed) return true;
    if (c.state != Conn::kConnected) return false;
    return c.gone != Conn::kStalled;
}
// Next moment at which the readiness of the connection may change (-1: never)
static usec nextEvent(Conn &c) {
    if (c.state == Conn::kConnecting) return c.readyAt;
    if (c.state == Conn::kConnected && !c.out.empty() && c.out.front().t > now) return c.out.front().t;
    return -1;
}

static bool refused(Conn &c, const char *call) { return hooks.refuse && hooks.refuse(c, call); }
static ssize_t fail(int e) { errno = e; return -1; }

static void sigpipe(int flags) {
    if (!(flags & MSG_NOSIGNAL)) pthread_kill(pthread_self(), SIGPIPE);
}

static ssize_t doSend(Conn &c, const char *p, size_t n, int flags) {
    tick();
    settle(c);
    if (c.state == Conn::kConnecting || c.state == Conn::kFresh) {
        if (c.state == Conn::kFresh) { hooks.anomaly("send-unconnected"); sigpipe(flags); return fail(EPIPE); }
        return fail(EAGAIN);
    }
    if (c.state == Conn::kFailed) { sigpipe(flags); return fail(EPIPE); }
    if (n == 0) return 0;
    // A peer that closed its end is gone once the client had the time to see it
    if (c.gone == Conn::kAlive && !c.out.empty() && (c.out.back().eof || c.out.back().rst) && c.out.back().t <= now) {
        c.gone = c.out.back().rst ? Conn::kRst : Conn::kFin;
    }
    if (c.gone == Conn::kAlive) {
        if (c.shortWrite > 0) n = std::min<size_t>(n, static_cast<size_t>(c.shortWrite));
        Fate fate;
        size_t taken = c.peer->offer(p, n, fate);
        if (taken > 0 && fate.kind != Fate::kTake) return static_cast<ssize_t>(taken);
        switch (fate.kind) {
            case Fate::kTake: return static_cast<ssize_t>(taken);
            case Fate::kDie: c.gone = Conn::kRst; c.out.clear(); c.deadWrites = 1; return fail(ECONNRESET);
            case Fate::kPipe: c.gone = Conn::kRst; c.out.clear(); c.deadWrites = 1; sigpipe(flags); return fail(EPIPE);
            case Fate::kLost: c.gone = Conn::kFin; finish(c, now, false); break;
            case Fate::kStall: c.gone = Conn::kStalled; break;
            case Fate::kSlow: {
                if (c.nonblock || (flags & MSG_DONTWAIT)) { now += 1000; return fail(EAGAIN); }
                usec limit = c.sndto > 0 ? now + c.sndto : -1;
                usec end = limit >= 0 && limit < fate.until ? limit : fate.until;
                if (struck(end)) return fail(EINTR);
                now = std::max(now, end);
                if (now < fate.until) return fail(EAGAIN);
                return doSend(c, p, n, flags);
            }
        }
    }
    if (c.gone == Conn::kStalled) {
        if (c.nonblock || (flags & MSG_DONTWAIT)) { now += 1000; return fail(EAGAIN); }
        if (struck(c.sndto > 0 ? now + c.sndto : -1)) return fail(EINTR);
        if (c.sndto <= 0) stop("hang");
        now += c.sndto;
        return fail(EAGAIN);
    }
    if (c.deadWrites++ == 0 && c.gone == Conn::kFin) { c.peer->lostBytes(p, n); return static_cast<ssize_t>(n); }
    c.gone = Conn::kRst;
    sigpipe(flags);
    return fail(EPIPE);
}

static ssize_t doRecv(Conn &c, char *p, size_t n, int flags) {
    tick();
    settle(c);
    if (c.state != Conn::kConnected) return fail(c.state == Conn::kFailed ? ECONNREFUSED : ENOTCONN);
    for (;;) {
        if (c.finRead) { now += 1000; return 0; }
        if (!c.out.empty() && c.out.front().t <= now) {
            Chunk &k = c.out.front();
            if (k.rst) { c.gone = Conn::kRst; c.finRead = true; c.out.clear(); return fail(ECONNRESET); }
            if (k.eof) { if (c.gone == Conn::kAlive) c.gone = Conn::kFin; c.finRead = true; c.out.clear(); return 0; }
            size_t m = std::min(n, k.data.size());
            memcpy(p, k.data.data(), m);
            if (flags & MSG_PEEK) return static_cast<ssize_t>(m);
            k.data.erase(0, m);
            if (k.data.empty()) {
                int r = k.reply;
                c.out.pop_front();
                if (r >= 0) c.peer->delivered(r);
            }
            return static_cast<ssize_t>(m);
        }
        if (c.gone == Conn::kRst) { c.finRead = true; return fail(ECONNRESET); }
        if (c.nonblock || (flags & MSG_DONTWAIT)) { now += 1000; return fail(EAGAIN); }
        usec next = nextEvent(c);
        usec end = c.rcvto > 0 && (next < 0 || next > now + c.rcvto) ? now + c.rcvto : next;
        if (struck(end)) return fail(EINTR);
        if (c.rcvto > 0 && (next < 0 || next > now + c.rcvto)) { now += c.rcvto; return fail(EAGAIN); }
        if (next < 0) stop("hang");
        now = next;
    }
}

static void misuse(const char *what, int fd) {
    if (!active) return;
    if (fd < 0) { hooks.anomaly(std::string(what) + "-negative-fd"); return; }
    hooks.anomaly(std::string(what) + (everClosed.count(fd) ? "-after-close" : "-foreign-fd"));
}
}  // namespace vnet

using namespace vnet;

#define EXPORT extern "C" __attribute__((visibility("default")))

EXPORT int socket(int domain, int type, int protocol) {
    Step oneStep;
    if (!active) return static_cast<int>(syscall(SYS_socket, domain, type, protocol));
    tick();
    int n = hooks.socket();
    if (n <= 0) { errno = EMFILE; return -1; }
    int fd = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0));
    if (fdMin > 0) {
        int high = static_cast<int>(syscall(SYS_fcntl, fd, F_DUPFD_CLOEXEC, fdMin));
        if (high >= 0) { rawClose(fd); fd = high; }
    }
    auto c = std::make_unique<Conn>();
    c->n = n;
    c->fd = fd;
    c->nonblock = (type & SOCK_NONBLOCK) != 0;
    everClosed.erase(fd);
    table[fd] = std::move(c);
    return fd;
}

EXPORT int connect(int fd, const struct sockaddr *addr, socklen_t len) {
    Step oneStep;
    Conn *c = connOfFd(fd);
    if (c == nullptr) {
        if (!active) return static_cast<int>(syscall(SYS_connect, fd, addr, len));
        misuse("connect", fd); errno = EBADF; return -1;
    }
    tick();
    settle(*c);
    if (c->state == Conn::kConnected) { errno = EISCONN; return -1; }
    if (c->state == Conn::kConnecting) { errno = EALREADY; return -1; }
    char ip[64] = "";
    int port = 0;
    if (addr->sa_family == AF_INET) {
        auto *in = reinterpret_cast<const struct sockaddr_in *>(addr);
        inet_ntop(AF_INET, &in->sin_addr, ip, sizeof ip);
        port = ntohs(in->sin_port);
    }
    hooks.connect(*c, ip, port);      // sets state, readyAt and connectError
    if (c->state == Conn::kFailed) { errno = c->connectError; return -1; }
    settle(*c);
    if (c->state == Conn::kConnected) return 0;
    if (c->nonblock) { errno = EINPROGRESS; return -1; }
    usec limit = c->sndto > 0 ? now + c->sndto : -1;
    if (struck(limit >= 0 && (c->readyAt < 0 || c->readyAt > limit) ? limit : c->readyAt)) { errno = EINTR; return -1; }
    if (limit >= 0 && (c->readyAt < 0 || c->readyAt > limit)) { now = limit; errno = EINPROGRESS; return -1; }
    if (c->readyAt < 0) {            // the kernel gives up after about two minutes
        now += 130 * SEC;
        c->state = Conn::kFailed;
        errno = ETIMEDOUT;
        return -1;
    }
    now = std::max(now, c->readyAt);
    settle(*c);
    if (c->state == Conn::kFailed) { errno = c->connectError; return -1; }
    return 0;
}

EXPORT int select(int nfds, fd_set *rd, fd_set *wr, fd_set *ex, struct timeval *tv) {
    Step oneStep;
    if (!active) {
        struct timespec ts, *tp = nullptr;
        if (tv) { ts.tv_sec = tv->tv_sec; ts.tv_nsec = tv->tv_usec * 1000; tp = &ts; }
        return static_cast<int>(syscall(SYS_pselect6, nfds, rd, wr, ex, tp, nullptr));
    }
    tick();
    fd_set r0, w0;
    FD_ZERO(&r0); FD_ZERO(&w0);
    if (rd) r0 = *rd;
    if (wr) w0 = *wr;
    usec limit = tv ? now + static_cast<usec>(tv->tv_sec) * SEC + tv->tv_usec : -1;
    for (int fd = 0; fd < nfds; fd++) {
        if (FD_ISSET(fd, &r0) || FD_ISSET(fd, &w0)) {
            Conn *c = connOfFd(fd);
            if (c == nullptr) { misuse("select", fd); errno = EBADF; return -1; }
            if (c->eintr > 0) { c->eintr--; now += 1000; errno = EINTR; return -1; }
        }
    }
    for (;;) {
        int count = 0;
        usec next = -1;
        if (rd) FD_ZERO(rd);
        if (wr) FD_ZERO(wr);
        if (ex) FD_ZERO(ex);
        for (int fd = 0; fd < nfds; fd++) {
            Conn *c = connOfFd(fd);
            if (c == nullptr) continue;
            if (FD_ISSET(fd, &r0) && readable(*c)) { FD_SET(fd, rd); count++; }
            if (FD_ISSET(fd, &w0) && writable(*c)) { FD_SET(fd, wr); count++; }
            if (FD_ISSET(fd, &r0) || FD_ISSET(fd, &w0)) {
                usec e = nextEvent(*c);
                if (e >= 0 && (next < 0 || e < next)) next = e;
            }
        }
        if (count > 0) { now += 1; return count; }
        if (limit > now || limit < 0) {
            if (struck(limit >= 0 && (next < 0 || next > limit) ? limit : next)) { errno = EINTR; return -1; }
        }
        if (limit >= 0 && (next < 0 || next > limit)) { now = std::max(now, limit); return 0; }
        if (next < 0) stop("hang");
        now = next;
    }
}

EXPORT int poll(struct pollfd *fds, nfds_t n, int timeout) {
    Step oneStep;
    if (!active) return static_cast<int>(syscall(SYS_poll, fds, n, timeout));
    tick();
    usec limit = timeout >= 0 ? now + static_cast<usec>(timeout) * 1000 : -1;
    for (nfds_t i = 0; i < n; i++) {
        Conn *c = connOfFd(fds[i].fd);
        if (c == nullptr) { if (fds[i].fd >= 0) misuse("poll", fds[i].fd); continue; }
        if (c->eintr > 0) { c->eintr--; now += 1000; errno = EINTR; return -1; }
        if ((fds[i].events & POLLOUT) && refused(*c, "poll")) return static_cast<int>(fail(ENOMEM));
    }
    for (;;) {
        int count = 0;
        usec next = -1;
        for (nfds_t i = 0; i < n; i++) {
            fds[i].revents = 0;
            Conn *c = connOfFd(fds[i].fd);
            if (c == nullptr) { if (fds[i].fd >= 0) { fds[i].revents = POLLNVAL; count++; } continue; }
            if ((fds[i].events & POLLIN) && readable(*c)) fds[i].revents |= POLLIN;
            if ((fds[i].events & POLLOUT) && writable(*c)) fds[i].revents |= POLLOUT;
            if (c->state == Conn::kFailed) fds[i].revents |= POLLERR | POLLHUP;
            if (fds[i].revents) count++;
            usec e = nextEvent(*c);
            if (e >= 0 && (next < 0 || e < next)) next = e;
        }
        if (count > 0) { now += 1; return count; }
        if (limit > now || limit < 0) {
            if (struck(limit >= 0 && (next < 0 || next > limit) ? limit : next)) { errno = EINTR; return -1; }
        }
        if (limit >= 0 && (next < 0 || next > limit)) { now = std::max(now, limit); return 0; }
        if (next < 0) stop("hang");
        now = next;
    }
}

EXPORT int getsockopt(int fd, int level, int name, void *val, socklen_t *len) {
    Step oneStep;
    Conn *c = connOfFd(fd);
    if (c == nullptr) {
        if (!active) return static_cast<int>(syscall(SYS_getsockopt, fd, level, name, val, len));
        misuse("getsockopt", fd); errno = EBADF; return -1;
    }
    tick();
    if (refused(*c, "sockopt")) return static_cast<int>(fail(ENOBUFS));
    if (level == SOL_SOCKET && name == SO_ERROR) {
        settle(*c);
        *static_cast<int *>(val) = c->state == Conn::kFailed ? c->connectError : 0;
        *len = sizeof(int);
        return 0;
    }
    if (level == SOL_SOCKET && name == SO_TYPE) { *static_cast<int *>(val) = SOCK_STREAM; *len = sizeof(int); return 0; }
    memset(val, 0, *len);
    return 0;
}

EXPORT int setsockopt(int fd, int level, int name, const void *val, socklen_t len) {
    Step oneStep;
    Conn *c = connOfFd(fd);
    if (c == nullptr) {
        if (!active) return static_cast<int>(syscall(SYS_setsockopt, fd, level, name, val, len));
        misuse("setsockopt", fd); errno = EBADF; return -1;
    }
    tick();
    if (refused(*c, "setopt")) return static_cast<int>(fail(ENOBUFS));
    if (level == SOL_SOCKET && (name == SO_RCVTIMEO || name == SO_SNDTIMEO) && len >= sizeof(struct timeval)) {
        auto *tv = static_cast<const struct timeval *>(val);
        usec t = static_cast<usec>(tv->tv_sec) * SEC + tv->tv_usec;
        (name == SO_RCVTIMEO ? c->rcvto : c->sndto) = t;
    }
    return 0;
}

static int fcntlImpl(int fd, int cmd, long arg) {
    Conn *c = connOfFd(fd);
    if (c != nullptr) {
        tick();
        // before the connection the descriptor is made non-blocking, afterwards blocking again
        if (cmd == F_GETFL && refused(*c, c->nonblock ? "getfl2" : "getfl1")) return static_cast<int>(fail(EBADF));
        if (cmd == F_SETFL && refused(*c, (arg & O_NONBLOCK) != 0 ? "setfl1" : "setfl2")) return static_cast<int>(fail(EBADF));
        if (cmd == F_GETFL) return O_RDWR | (c->nonblock ? O_NONBLOCK : 0);
        if (cmd == F_SETFL) { c->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
        return 0;
    }
    if (active && (cmd == F_GETFL || cmd == F_SETFL) && (fd < 0 || fd > 2) && everClosed.count(fd)) misuse("fcntl", fd);
    return static_cast<int>(syscall(SYS_fcntl, fd, cmd, arg));
}
EXPORT int fcntl(int fd, int cmd, ...) {
    Step oneStep(fd);
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    return fcntlImpl(fd, cmd, arg);
}
EXPORT int fcntl64(int fd, int cmd, ...) {
    Step oneStep(fd);
    va_list ap; va_start(ap, cmd); long arg = va_arg(ap, long); va_end(ap);
    return fcntlImpl(fd, cmd, arg);
}
EXPORT int ioctl(int fd, unsigned long req, ...) {
    Step oneStep(fd);
    va_list ap; va_start(ap, req); void *arg = va_arg(ap, void *); va_end(ap);
    Conn *c = connOfFd(fd);
    if (c != nullptr) {
        tick();
        if (req == FIONBIO) { c->nonblock = *static_cast<int *>(arg) != 0; return 0; }
        if (req == FIONREAD) {
            int n = 0;
            for (auto &k : c->out) { if (k.t > now || k.eof || k.rst) break; n += static_cast<int>(k.data.size()); }
            *static_cast<int *>(arg) = n;
            return 0;
        }
        errno = EINVAL; return -1;
    }
    return static_cast<int>(syscall(SYS_ioctl, fd, req, arg));
}

static ssize_t sendImpl(int fd, const void *p, size_t n, int flags) {
    Conn *c = connOfFd(fd);
    if (c != nullptr) return doSend(*c, static_cast<const char *>(p), n, flags);
    misuse("send", fd); errno = EBADF; return -1;
}
EXPORT ssize_t send(int fd, const void *p, size_t n, int flags) {
    Step oneStep;
    if (!active) return syscall(SYS_sendto, fd, p, n, flags, nullptr, 0);
    return sendImpl(fd, p, n, flags);
}
EXPORT ssize_t sendto(int fd, const void *p, size_t n, int flags, const struct sockaddr *a, socklen_t l) {
    Step oneStep;
    if (!active) return syscall(SYS_sendto, fd, p, n, flags, a, l);
    return sendImpl(fd, p, n, flags);
}
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int flags) {
    Step oneStep;
    if (!active) return syscall(SYS_sendmsg, fd, m, flags);
    std::string all;
    for (size_t i = 0; i < m->msg_iovlen; i++) all.append(static_cast<char *>(m->msg_iov[i].iov_base), m->msg_iov[i].iov_len);
    return sendImpl(fd, all.data(), all.size(), flags);
}
static ssize_t recvImpl(int fd, void *p, size_t n, int flags) {
    Conn *c = connOfFd(fd);
    if (c != nullptr) return doRecv(*c, static_cast<char *>(p), n, flags);
    misuse("recv", fd); errno = EBADF; return -1;
}
EXPORT ssize_t recv(int fd, void *p, size_t n, int flags) {
    Step oneStep;
    if (!active) return syscall(SYS_recvfrom, fd, p, n, flags, nullptr, nullptr);
    return recvImpl(fd, p, n, flags);
}
EXPORT ssize_t recvfrom(int fd, void *p, size_t n, int flags, struct sockaddr *a, socklen_t *l) {
    Step oneStep;
    if (!active) return syscall(SYS_recvfrom, fd, p, n, flags, a, l);
    return recvImpl(fd, p, n, flags);
}
EXPORT ssize_t read(int fd, void *p, size_t n) {
    Step oneStep(fd);
    Conn *c = connOfFd(fd);
    if (c != nullptr) return doRecv(*c, static_cast<char *>(p), n, 0);
    if (active && (fd < 0 || fd == 0 || everClosed.count(fd))) {
        // A descriptor number that was given back may have a new owner by now
        if (fd < 0 || syscall(SYS_fcntl, fd, F_GETFD, 0) < 0 || fd == 0) misuse("read", fd);
    }
    return syscall(SYS_read, fd, p, n);
}
EXPORT ssize_t write(int fd, const void *p, size_t n) {
    Step oneStep(fd);
    Conn *c = connOfFd(fd);
    if (c != nullptr) return doSend(*c, static_cast<const char *>(p), n, 0);
    if (active && fd != 1 && fd != 2 && (fd < 0 || fd == 0 || syscall(SYS_fcntl, fd, F_GETFD, 0) < 0)) misuse("write", fd);
    return syscall(SYS_write, fd, p, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int cnt) {
    Step oneStep(fd);
    Conn *c = connOfFd(fd);
    if (c != nullptr) {
        std::string all;
        for (int i = 0; i < cnt; i++) all.append(static_cast<char *>(v[i].iov_base), v[i].iov_len);
        return doSend(*c, all.data(), all.size(), 0);
    }
    return syscall(SYS_writev, fd, v, cnt);
}
EXPORT int shutdown(int fd, int how) {
    Step oneStep(fd);
    Conn *c = connOfFd(fd);
    if (c != nullptr) { tick(); return 0; }
    if (!active) return static_cast<int>(syscall(SYS_shutdown, fd, how));
    misuse("shutdown", fd); errno = EBADF; return -1;
}
EXPORT int close(int fd) {
    Step oneStep(fd);
    Conn *c = connOfFd(fd);
    if (c != nullptr) {
        tick();
        if (c->peer) c->peer->clientClosed();
        hooks.closed(*c);
        everClosed.insert(fd);
        c->fd = -1;
        auto it = table.find(fd);
        graveyard.push_back(std::move(it->second));
        table.erase(it);
        return rawClose(fd);
    }
    if (active) {
        if (fd < 0 || fd <= 2) misuse("close", fd);
        else if (syscall(SYS_fcntl, fd, F_GETFD, 0) < 0) misuse("close", fd);
        if (fd <= 2 || (fd >= 900 && fd <= 999)) { errno = EBADF; return -1; }   // never really close those
    }
    return rawClose(fd);
}

// ---- name resolution ----
EXPORT struct hostent *gethostbyname(const char *name) {
    Step oneStep;
    tick();
    static struct hostent he;
    static struct in_addr addr;
    static char *addrs[2];
    static char *aliases[1] = { nullptr };
    static char hname[256];
    if (!hooks.resolve(name ? name : "")) { h_errno = HOST_NOT_FOUND; return nullptr; }
    inet_pton(AF_INET, ipOf(name).c_str(), &addr);
    strncpy(hname, name, sizeof hname - 1);
    he.h_name = hname;
    he.h_aliases = aliases;
    he.h_addrtype = AF_INET;
    he.h_length = 4;
    addrs[0] = reinterpret_cast<char *>(&addr);
    addrs[1] = nullptr;
    he.h_addr_list = addrs;
    return &he;
}
EXPORT int getaddrinfo(const char *node, const char *service, const struct addrinfo *hints, struct addrinfo **res) {
    Step oneStep;
    tick();
    *res = nullptr;
    if (!hooks.resolve(node ? node : "")) return EAI_NONAME;
    auto *ai = static_cast<struct addrinfo *>(calloc(1, sizeof(struct addrinfo)));
    auto *sa = static_cast<struct sockaddr_in *>(calloc(1, sizeof(struct sockaddr_in)));
    sa->sin_family = AF_INET;
    sa->sin_port = htons(static_cast<uint16_t>(service ? atoi(service) : 0));
    inet_pton(AF_INET, ipOf(node).c_str(), &sa->sin_addr);
    ai->ai_family = AF_INET;
    ai->ai_socktype = hints && hints->ai_socktype ? hints->ai_socktype : SOCK_STREAM;
    ai->ai_protocol = IPPROTO_TCP;
    ai->ai_addr = reinterpret_cast<struct sockaddr *>(sa);
    ai->ai_addrlen = sizeof *sa;
    *res = ai;
    return 0;
}
EXPORT void freeaddrinfo(struct addrinfo *ai) {
    while (ai) { auto *n = ai->ai_next; free(ai->ai_addr); free(ai); ai = n; }
}

// ---- clock ----
EXPORT unsigned int sleep(unsigned int s) {
    Step oneStep;
    if (!active) { struct timespec ts { static_cast<time_t>(s), 0 }; syscall(SYS_nanosleep, &ts, nullptr); return 0; }
    tick();
    usec end = now + static_cast<usec>(s) * SEC;
    if (struck(end)) return static_cast<unsigned>((end - now + SEC - 1) / SEC);
    now = end;
    return 0;
}
EXPORT int usleep(useconds_t u) {
    Step oneStep;
    if (!active) { struct timespec ts { static_cast<time_t>(u / 1000000), static_cast<long>(u % 1000000) * 1000 }; return static_cast<int>(syscall(SYS_nanosleep, &ts, nullptr)); }
    tick();
    if (struck(now + u)) { errno = EINTR; return -1; }
    now += u ? u : 1;
    return 0;
}
EXPORT int nanosleep(const struct timespec *ts, struct timespec *rem) {
    Step oneStep;
    if (!active) return static_cast<int>(syscall(SYS_nanosleep, ts, rem));
    tick();
    usec d = static_cast<usec>(ts->tv_sec) * SEC + ts->tv_nsec / 1000, end = now + d;
    if (struck(end)) {
        if (rem) { rem->tv_sec = (end - now) / SEC; rem->tv_nsec = (end - now) % SEC * 1000; }
        errno = EINTR;
        return -1;
    }
    now = end + 1;
    if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; }
    return 0;
}
EXPORT int clock_nanosleep(clockid_t id, int flags, const struct timespec *ts, struct timespec *rem) {
    Step oneStep;
    if (!active) return static_cast<int>(-syscall(SYS_clock_nanosleep, id, flags, ts, rem));
    tick();
    usec d = static_cast<usec>(ts->tv_sec) * SEC + ts->tv_nsec / 1000;
    if (flags & TIMER_ABSTIME) {
        usec base = (id == CLOCK_REALTIME) ? static_cast<usec>(EPOCH) * SEC : 1000 * SEC;
        if (d - base > now && struck(d - base)) return EINTR;
        now = std::max(now, d - base);
    } else {
        usec end = now + d;
        if (struck(end)) {
            if (rem) { rem->tv_sec = (end - now) / SEC; rem->tv_nsec = (end - now) % SEC * 1000; }
            return EINTR;
        }
        now = end + 1;
    }
    return 0;
}
EXPORT int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!active || (id != CLOCK_REALTIME && id != CLOCK_MONOTONIC && id != CLOCK_REALTIME_COARSE
                && id != CLOCK_MONOTONIC_COARSE && id != CLOCK_BOOTTIME && id != CLOCK_MONOTONIC_RAW)) {
        return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    }
    tick();
    bool wall = id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE;
    ts->tv_sec = static_cast<time_t>((wall ? EPOCH : 1000) + now / SEC);
    ts->tv_nsec = static_cast<long>(now % SEC) * 1000;
    now += 1;
    return 0;
}
EXPORT int gettimeofday(struct timeval *tv, void *) noexcept {
    if (!active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
    tv->tv_sec = EPOCH + now / SEC;
    tv->tv_usec = now % SEC;
    now += 1;
    return 0;
}
EXPORT time_t time(time_t *out) noexcept {
    time_t t;
    if (!active) { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; } else { t = EPOCH + now / SEC; }
    if (out) *out = t;
    return t;
}

extern "C" __attribute__((no_instrument_function, visibility("default"))) void __cyg_profile_func_enter(void *, void *) {
    if (vnet::me != 0 && vnet::depth == 0) { int e = errno; vnet::step(true); errno = e; }
}
extern "C" __attribute__((no_instrument_function, visibility("default"))) void __cyg_profile_func_exit(void *, void *) {
    if (vnet::me != 0 && vnet::depth == 0) { int e = errno; vnet::step(true); errno = e; }
}
