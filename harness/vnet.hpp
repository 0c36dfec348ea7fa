// Virtual network and virtual clock: the interposed socket calls of the
// library under test end up here. One process replays one scenario.
#pragma once
#include <cstdint>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace vnet {

using usec = int64_t;

struct Chunk {             // bytes on their way from the server to the client
    usec t;                // when they become readable
    std::string data;
    int reply = -1;        // index of the reply whose last byte this is
    bool eof = false;      // FIN
    bool rst = false;      // RST
};

// What the peer does with bytes the client sends
struct Fate {
    enum Kind { kTake, kDie, kPipe, kLost, kStall, kSlow } kind = kTake;
    usec until = 0;        // kSlow: when the bytes can be taken
};

struct Peer {              // the scripted server behind one connection
    virtual ~Peer() = default;
    // Offer n bytes; returns how many of them are consumed before `fate` applies
    virtual size_t offer(const char *p, size_t n, Fate &fate) = 0;
    virtual void delivered(int reply) = 0;    // the client has read a reply to its end
    virtual void lostBytes(const char *p, size_t n) = 0;  // sent to a server that is gone
    virtual void clientClosed() = 0;
};

struct Conn {
    int n = 0;
    int fd = -1;
    enum State { kFresh, kConnecting, kConnected, kFailed } state = kFresh;
    usec readyAt = 0;      // when the pending connect completes (-1: never)
    int connectError = 0;  // SO_ERROR once complete
    int eintr = 0;         // number of select/poll calls to interrupt
    bool nonblock = false;
    usec rcvto = 0, sndto = 0;  // 0: infinite
    std::deque<Chunk> out;
    enum Gone { kAlive, kFin, kRst, kStalled } gone = kAlive;
    int deadWrites = 0;    // writes since the peer is gone
    bool finRead = false;
    int shortWrite = 0;    // accept at most that many bytes per send (0: all)
    std::unique_ptr<Peer> peer;
};

struct Hooks {
    // Attempt to resolve a name / open a socket: return false to make it fail
    std::function<bool(const std::string &host)> resolve;
    std::function<int()> socket;                    // returns the connection number, 0: failure
    std::function<void(Conn &, const std::string &ip, int port)> connect;
    std::function<void(Conn &)> closed;
    std::function<bool(Conn &, const std::string &)> refuse;   // does this system call fail?
    std::function<void(const std::string &)> anomaly;
};

extern Hooks hooks;
extern thread_local usec now;  // virtual clock (every thread of the program has its own)
extern thread_local long calls;             // interposed calls since the last op
extern thread_local bool active;            // false: pass everything through
constexpr usec SEC = 1000000;
extern std::vector<usec> strikes;   // moments at which a signal is handled
extern usec strikeEvery;            // and then again and again (0: no)
extern int fdMin;                   // descriptors are numbered from here on

// Two threads take turns: the turn passes on after sched[0] steps, then after
// sched[1], and so on; a step is an interposed call or the entry into or the
// return from a function of the library
extern thread_local int me;         // 1, 2; 0: not one of them
void beginTurns(const std::vector<int> &sched);
void finished();                    // this thread has come to its end
long stepsOf(int thread);
// Only what concerns the connections: OpenSSL makes other calls while it holds locks
struct Step {
    static constexpr int ANY = -1000;
    explicit Step(int fd = ANY);
    ~Step();
    bool mine;
};

void push(Conn &c, usec t, const std::string &data, int reply);
void finish(Conn &c, usec t, bool rst);
std::string ipOf(const std::string &host);     // the address handed out for a host name
std::string hostOfIp(const std::string &ip);
Conn *connOfFd(int fd);
[[noreturn]] void stop(const std::string &why);  // the scenario cannot go on (hang)
extern std::function<void()> onStop;
int rawClose(int fd);
void reset();                       // as at the start of the process
}  // namespace vnet
