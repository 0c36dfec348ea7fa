// Replays scenarios into the library: harness SCENARIOS.ndjson OUT.ndjson
#include <openssl/crypto.h>
#include <sys/stat.h>
#include <dirent.h>
#include <fcntl.h>
#include <locale.h>
#include <poll.h>
#include <signal.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <locale>
#include <memory>
#include <sstream>
#include <thread>
#include "attachment.h"
#include "credential.h"
#include "errorresolver.h"
#include "forcedsecuresmtpclient.h"
#include "htmlmessage.h"
#include "messageaddress.h"
#include "opportunisticsecuresmtpclient.h"
#include "plaintextmessage.h"
#include "smtpclient.h"
#include "base64.h"
#include "stringutils.h"
#include "serveroptionsanalyzer.h"
#include "cpp/attachment.hpp"
#include "cpp/credential.hpp"
#include "cpp/forcedsecuresmtpclient.hpp"
#include "cpp/htmlmessage.hpp"
#include "cpp/messageaddress.hpp"
#include "cpp/opportunisticsecuresmtpclient.hpp"
#include "cpp/plaintextmessage.hpp"
#include "cpp/smtpclient.hpp"
#include "heap.hpp"
#include "scenario.hpp"

extern "C" void __asan_init() __attribute__((weak));   // part of the executable when the library is built with it

namespace J = jed_utils;
namespace X = jed_utils::cpp;

static const int EVFD = 950;
static std::string pendingOut;

static void flushEvents() {
    size_t done = 0;
    while (done < pendingOut.size()) {
        ssize_t k = syscall(SYS_write, EVFD, pendingOut.data() + done, pendingOut.size() - done);
        if (k <= 0) break;
        done += static_cast<size_t>(k);
    }
    pendingOut.clear();
}
static std::string events[3];      // of the threads, in order
static bool mute = false;          // the scenario is run again
void emit(const json &e) {
    if (mute) return;
    if (vnet::me != 0) { events[vnet::me] += e.dump() + "\n"; return; }
    pendingOut += e.dump() + "\n";
    flushEvents();          // a crash must not lose what came before
}

static Scenario S;
static thread_local int attempts = 0, attemptOp = -1, opIndex = -1;
static thread_local bool attemptHasSocket = false;
static std::map<int, std::string> attemptHost;
static json reactionOf(int n, const std::string &st) {
    if (n >= 1 && n <= static_cast<int>(S.script.size())) {
        for (auto &r : S.script[static_cast<size_t>(n - 1)]) if (r.at("st") == st) return r;
    }
    return json{{"st", st}, {"k", "reply"}};
}
static int beginAttempt(bool forSocket) {
    if (attemptOp != opIndex || (forSocket && attemptHasSocket)) {
        attempts++;
        attemptOp = opIndex;
        attemptHasSocket = false;
    }
    if (forSocket) attemptHasSocket = true;
    return attempts;
}
static void connEvent(int n, const std::string &host, int port, const std::string &r) {
    emit({{"e", "conn"}, {"n", n}, {"host", Scenario::safe(host, 100000)}, {"port", port}, {"r", r}});
}

static void installHooks() {
    using vnet::SEC;
    vnet::hooks.anomaly = [](const std::string &k) { emit({{"e", "anom"}, {"k", k}}); };
    vnet::hooks.resolve = [](const std::string &host) {
        int n = beginAttempt(false);
        if (S.hosts.find(host) == S.hosts.end() || reactionOf(n, "CONNECT").value("k", "") == "nx") {
            connEvent(n, host, 0, "nx");
            return false;
        }
        return true;
    };
    vnet::hooks.socket = []() {
        int n = beginAttempt(true);
        if (reactionOf(n, "CONNECT").value("k", "") == "nosock") { connEvent(n, "", 0, "nosock"); return 0; }
        emit({{"e", "open"}, {"n", n}});
        return n;
    };
    vnet::hooks.refuse = [](vnet::Conn &c, const std::string &call) {
        if (reactionOf(c.n, "CONNECT").value("k", "") != call) return false;
        if (call == "getfl1" || call == "setfl1") connEvent(c.n, "", 0, "fcntl");
        return true;
    };
    vnet::hooks.connect = [](vnet::Conn &c, const std::string &ip, int port) {
        std::string host = vnet::hostOfIp(ip);
        json r = reactionOf(c.n, "CONNECT");
        std::string k = r.at("k");
        vnet::usec d = delayOf(r);
        c.state = vnet::Conn::kConnecting;
        c.readyAt = vnet::now + (d > 0 ? d : 200);     // no connection is there at once
        std::string res = "ok";
        if (k == "refused") { c.state = vnet::Conn::kFailed; c.connectError = ECONNREFUSED; res = "refused"; }
        else if (k == "unreach") { c.state = vnet::Conn::kFailed; c.connectError = ENETUNREACH; res = "refused"; }
        else if (k == "delayed") { c.connectError = ECONNREFUSED; res = "delayed"; }
        else if (k == "timeout") { c.readyAt = -1; res = "timeout"; }
        else if (k == "fast" || (S.def.value("fast", false) && k == "reply" && d == 0)) c.state = vnet::Conn::kConnected;
        else if (k == "eintr") c.eintr = r.value("times", 1);
        c.shortWrite = S.def.value("short", 0);
        connEvent(c.n, host, port, res);
        if (res != "ok" || k == "getfl2" || k == "setfl2" || k == "sockopt" || k == "setopt" || k == "poll") return;
        static Host none;
        auto it = S.hosts.find(host);
        static std::vector<json> empty;
        const auto &sc = c.n <= static_cast<int>(S.script.size()) ? S.script[static_cast<size_t>(c.n - 1)] : empty;
        auto *srv = new Server(c, it == S.hosts.end() ? none : it->second, sc, S);
        c.peer.reset(srv);
        vnet::usec keep = vnet::now;
        if (c.state == vnet::Conn::kConnecting) vnet::now = c.readyAt;   // the greeting leaves once connected
        srv->start();
        vnet::now = keep;
    };
    vnet::hooks.closed = [](vnet::Conn &c) { emit({{"e", "close"}, {"n", c.n}}); };
    vnet::onStop = []() { pendingOut += events[1] + events[2]; flushEvents(); };
}

// ---------------------------------------------------------------- clients
struct Box {
    virtual ~Box() = default;
    virtual void set(const std::string &f, const json &v) = 0;
    virtual int send(const std::string &m) = 0;
    virtual std::string log() = 0;
    virtual json get() = 0;
    virtual Box *copy() = 0;
    virtual Box *move() = 0;
    virtual void assign(Box &o) = 0;
    virtual void massign(Box &o) = 0;
    virtual json err(int code, const std::vector<int> &sizes) = 0;
};

static thread_local std::string keep[8];
static thread_local int k = 0;
static const char *own(const json &v, const char *current) {
    if (v.is_null() || (v.is_string() && v == "$null")) return nullptr;
    if (v.is_string() && v == "$own") return current;
    keep[k = (k + 1) % 8] = textOf(v);
    return keep[k].c_str();
}
static J::RecommendedAuthenticationMethod method(int m) { return static_cast<J::RecommendedAuthenticationMethod>(m); }

template <class T> struct HasSelf { static constexpr bool value = !std::is_same<T, J::SmtpClient>::value && !std::is_same<T, X::SmtpClient>::value; };
template <class T> struct IsCpp { static constexpr bool value = std::is_same<T, X::SmtpClient>::value
    || std::is_same<T, X::OpportunisticSecureSMTPClient>::value || std::is_same<T, X::ForcedSecureSMTPClient>::value; };

template <class A> static std::vector<A> addrs(const std::vector<AddrDef> &l) {
    std::vector<A> r;
    for (auto &a : l) r.push_back(A(a.a.c_str(), a.d.c_str()));
    return r;
}
template <class A> static std::vector<A> atts(const std::vector<AttDef> &l) {
    std::vector<A> r;
    for (auto &a : l) r.push_back(A(a.path.c_str(), a.name.c_str(), a.cid.c_str()));
    return r;
}
template <class M> static M *makeC(const MsgDef &d, int ctor) {
    J::MessageAddress from(d.from.a.c_str(), d.from.d.c_str());
    auto to = addrs<J::MessageAddress>(d.to), cc = addrs<J::MessageAddress>(d.cc), bcc = addrs<J::MessageAddress>(d.bcc);
    auto at = atts<J::Attachment>(d.att);
    if (ctor == 1) {
        return new M(from, to.at(0), d.subj.c_str(), d.body.c_str(), cc.empty() ? nullptr : &cc[0], bcc.empty() ? nullptr : &bcc[0],
                at.empty() ? nullptr : at.data(), at.size());
    }
    // An empty list may be given as well as none
    J::MessageAddress nobody("nobody@example.org", "Nobody");
    J::Attachment nothing("nothing.txt", "Nothing", "nothing");
    const bool given = d.given || ctor == 3;
    auto *noAddr = given ? &nobody : nullptr;
    return new M(from, to.empty() ? noAddr : to.data(), to.size(), d.subj.c_str(), d.body.c_str(), cc.empty() ? noAddr : cc.data(), cc.size(),
            bcc.empty() ? noAddr : bcc.data(), bcc.size(), at.empty() ? (given ? &nothing : nullptr) : at.data(), at.size());
}
template <class M> static M *makeX(const MsgDef &d) {
    return new M(X::MessageAddress(d.from.a, d.from.d), addrs<X::MessageAddress>(d.to), d.subj, d.body,
            addrs<X::MessageAddress>(d.cc), addrs<X::MessageAddress>(d.bcc), atts<X::Attachment>(d.att));
}

struct SharedMessage { std::unique_ptr<J::PlaintextMessage> cp; std::unique_ptr<J::HTMLMessage> ch; };
static SharedMessage shared;       // one object, for all the threads

struct Kept {
    std::unique_ptr<J::PlaintextMessage> cp; std::unique_ptr<J::HTMLMessage> ch;
    std::unique_ptr<X::PlaintextMessage> xp; std::unique_ptr<X::HTMLMessage> xh;
    json before, after;
};
static std::map<std::string, Kept> kept;       // one object for all the sends of a message
static json showMsgC(const J::Message &m);
static json showMsgX(const X::Message &m);
template <class T> static int sendKept(T &c, const MsgDef &d) {
    Kept &k = kept[d.id];
    bool html = d.kind == "html";
    int r;
    if (k.before.is_null()) {
        if (d.iface == "cpp") { if (html) k.xh.reset(makeX<X::HTMLMessage>(d)); else k.xp.reset(makeX<X::PlaintextMessage>(d)); }
        else { if (html) k.ch.reset(makeC<J::HTMLMessage>(d, 2)); else k.cp.reset(makeC<J::PlaintextMessage>(d, 2)); }
    }
    auto show = [&k]() { return k.cp ? showMsgC(*k.cp) : k.ch ? showMsgC(*k.ch) : k.xp ? showMsgX(*k.xp) : showMsgX(*k.xh); };
    vnet::active = false;
    if (k.before.is_null()) k.before = show();
    vnet::active = true;
    if (k.cp) r = c.sendMail(*k.cp);
    else if (k.ch) r = c.sendMail(*k.ch);
    else if (k.xp) r = c.sendMail(static_cast<J::PlaintextMessage>(*k.xp));
    else r = c.sendMail(static_cast<J::HTMLMessage>(*k.xh));
    vnet::active = false;
    k.after = show();
    return r;
}

// What the rest of the program could notice
struct Surroundings {
    std::map<std::string, std::string> v;
    static std::string bytes(const void *p, size_t n) { return std::string(static_cast<const char *>(p), n); }
    Surroundings() {
        sigset_t s;
        std::string t;
        pthread_sigmask(SIG_BLOCK, nullptr, &s);
        for (int i = 1; i < 32; i++) t += sigismember(&s, i) ? '1' : '0';
        v["signal mask"] = t;
        t.clear();
        sigpending(&s);
        for (int i = 1; i < 32; i++) t += sigismember(&s, i) ? '1' : '0';
        v["pending signals"] = t;
        t.clear();
        for (int i = 1; i < 32; i++) {
            struct sigaction a;
            memset(&a, 0, sizeof a);
            if (sigaction(i, nullptr, &a) == 0) t += bytes(&a.sa_handler, sizeof a.sa_handler) + std::to_string(a.sa_flags);
        }
        v["signal handling"] = t;
        mode_t m = umask(0);
        umask(m);
        v["umask"] = std::to_string(m);
        char dir[4096];
        v["directory"] = getcwd(dir, sizeof dir) ? dir : "";
        v["locale"] = setlocale(LC_ALL, nullptr);
        v["C++ locale"] = std::locale().name();
        t.clear();
        for (char **e = environ; *e; e++) t += std::string(*e) + "\n";
        v["environment"] = t;
        t.clear();
        for (int fd = 0; fd < 3; fd++) {
            struct stat st;
            t += fstat(fd, &st) == 0 ? std::to_string(st.st_dev) + ":" + std::to_string(st.st_ino) + ":" + std::to_string(fcntl(fd, F_GETFL)) + ";" : "none;";
        }
        v["standard streams"] = t;
        t.clear();
        if (DIR *d = opendir(S.dir.c_str())) {
            std::vector<std::string> names;
            while (dirent *e = readdir(d)) {
                struct stat st;
                names.push_back(std::string(e->d_name) + (stat((S.dir + "/" + e->d_name).c_str(), &st) == 0 && S_ISREG(st.st_mode) ? std::to_string(st.st_size) : ""));
            }
            closedir(d);
            std::sort(names.begin(), names.end());
            for (auto &n : names) t += n + "\n";
        }
        v["files"] = t;
    }
};

template <class T> struct ClientBox : Box {
    T c;
    template <class... A> explicit ClientBox(A &&... a) : c(std::forward<A>(a)...) {}
    void set(const std::string &f, const json &v) override {
        if (f == "batch") c.setBatchMode(v.get<bool>());
        else if (f == "T") c.setCommandTimeout(v.get<unsigned>());
        else if (f == "port") c.setServerPort(v.get<unsigned>());
        else if (f == "keep") c.setKeepUsingBaseSendCommands(v.get<bool>());
        else if (f == "self") { if constexpr (HasSelf<T>::value) c.setAcceptSelfSignedCert(v.get<bool>()); }
        else if (f == "host") {
            if constexpr (IsCpp<T>::value) c.setServerName(v == "$own" ? c.getServerName() : textOf(v));
            else c.setServerName(own(v, c.getServerName()));
        } else if (f == "cred") {
            if (v.is_string()) {          // $own: the credentials the client already has
                if (c.getCredentials() != nullptr) c.setCredentials(*c.getCredentials());
                return;
            }
            std::string u = credText(v["u"]), p = credText(v["p"]);
            int m = v.value("m", -1);
            if constexpr (IsCpp<T>::value) {
                if (m < 0) c.setCredentials(X::Credential(u, p)); else c.setCredentials(X::Credential(u, p, method(m)));
            } else {
                if (m < 0) c.setCredentials(J::Credential(u.c_str(), p.c_str())); else c.setCredentials(J::Credential(u.c_str(), p.c_str(), method(m)));
            }
        }
    }
    int send(const std::string &id) override {
        const MsgDef &d = S.msgs.at(id);
        bool html = d.kind == "html";
        if (S.def.value("reuse", false)) return sendKept(c, d);
        if (shared.cp) return c.sendMail(*shared.cp);
        if (shared.ch) return c.sendMail(*shared.ch);
        if (d.iface == "cpp") {
            if (html) { std::unique_ptr<X::HTMLMessage> m(makeX<X::HTMLMessage>(d)); return c.sendMail(static_cast<J::HTMLMessage>(*m)); }
            std::unique_ptr<X::PlaintextMessage> m(makeX<X::PlaintextMessage>(d));
            return c.sendMail(static_cast<J::PlaintextMessage>(*m));
        }
        if (html) { std::unique_ptr<J::HTMLMessage> m(makeC<J::HTMLMessage>(d, 2)); return c.sendMail(*m); }
        std::unique_ptr<J::PlaintextMessage> m(makeC<J::PlaintextMessage>(d, 2));
        return c.sendMail(*m);
    }
    std::string log() override { return c.getCommunicationLog(); }
    json get() override {
        json r;
        r["host"] = Scenario::safe(c.getServerName(), 100000);
        r["port"] = c.getServerPort();
        r["batch"] = c.getBatchMode();
        r["T"] = c.getCommandTimeout();
        if constexpr (HasSelf<T>::value) r["self"] = c.getAcceptSelfSignedCert(); else r["self"] = false;
        auto *k = c.getCredentials();
        if (k == nullptr) r["cred"] = {{"u", ""}, {"p", ""}, {"m", -1}};
        else r["cred"] = {{"u", Scenario::safe(k->getUsername())}, {"p", Scenario::safe(k->getPassword())}, {"m", static_cast<int>(k->getRecommendedAuthOption())}};
        return r;
    }
    Box *copy() override { return new ClientBox<T>(static_cast<const T &>(c)); }
    Box *move() override { return new ClientBox<T>(std::move(c)); }
    void assign(Box &o) override { c = static_cast<const T &>(static_cast<ClientBox<T> &>(o).c); }
    void massign(Box &o) override { c = std::move(static_cast<ClientBox<T> &>(o).c); }
    json err(int code, const std::vector<int> &sizes) override {
        json r;
        if constexpr (IsCpp<T>::value) {
            r["msg"] = T::getErrorMessage(code);
            std::string out;
            int ret = T::getErrorMessage_r(code, out);
            r["r"] = json::array({{{"n", 1024}, {"ret", ret}, {"txt", out}, {"term", true}}});
        } else {
            char *m = T::getErrorMessage(code);
            r["msg"] = m;
            delete[] m;
            r["r"] = json::array();
            for (int n : sizes) {
                if (n < 0) {
                    r["r"].push_back({{"n", n}, {"ret", T::getErrorMessage_r(code, nullptr, 10)}, {"txt", ""}, {"term", true}});
                    continue;
                }
                char *buf = new char[static_cast<size_t>(n)];
                if (n > 0) memset(buf, 'Z', static_cast<size_t>(n));
                int ret = T::getErrorMessage_r(code, buf, static_cast<size_t>(n));
                void *z = n > 0 ? memchr(buf, 0, static_cast<size_t>(n)) : nullptr;
                size_t len = z ? static_cast<size_t>(static_cast<char *>(z) - buf) : static_cast<size_t>(n);
                r["r"].push_back({{"n", n}, {"ret", ret}, {"txt", Scenario::safe(std::string(buf, len))}, {"term", n == 0 || z != nullptr}});
                delete[] buf;
            }
        }
        return r;
    }
};

static std::map<std::string, std::unique_ptr<Box>> clientsOf[3];      // by thread
#define clients clientsOf[vnet::me]
static std::map<std::string, std::string> clientKind;

static Box *newClient(const json &op) {
    std::string kind = op.at("kind"), i = op.value("if", "c");
    unsigned port = op.value("port", 25u);
    if (i == "cpp") {
        std::string host = textOf(op.at("host"));
        if (kind == "plain") return new ClientBox<X::SmtpClient>(host, port);
        if (kind == "opp") return new ClientBox<X::OpportunisticSecureSMTPClient>(host, port);
        return new ClientBox<X::ForcedSecureSMTPClient>(host, port);
    }
    const char *host = own(op.at("host"), nullptr);
    if (kind == "plain") return new ClientBox<J::SmtpClient>(host, port);
    if (kind == "opp") return new ClientBox<J::OpportunisticSecureSMTPClient>(host, port);
    return new ClientBox<J::ForcedSecureSMTPClient>(host, port);
}

// Adds the lines of a text; the last line break is not followed by a line
static void addLines(json &r, const std::string &who, std::string t, const std::string &brk) {
    size_t p;
    while ((p = t.find(brk)) != std::string::npos) {
        r.push_back({{"p", who}, {"t", Scenario::safe(t.substr(0, p))}});
        t.erase(0, p + brk.size());
    }
    if (!t.empty()) r.push_back({{"p", who}, {"t", Scenario::safe(t)}});
}

// The log as a list of lines. The log shows the line breaks of the client as the text \r\n
static json logItems(const std::string &log) {
    static const std::vector<std::string> marks = {"\nc: ", "\ns: ", "\nc & s: "};
    static const char *names[] = {"c", "s", "i"};
    json r = json::array();
    size_t pos = 0;
    std::vector<std::pair<size_t, size_t>> starts;
    while ((pos = log.find('\n', pos)) != std::string::npos) {
        for (size_t k = 0; k < marks.size(); k++) {
            if (log.compare(pos, marks[k].size(), marks[k]) == 0) { starts.push_back({pos, k}); break; }
        }
        pos++;
    }
    for (size_t k = 0; k < starts.size(); k++) {
        size_t b = starts[k].first + marks[starts[k].second].size();
        size_t e = k + 1 < starts.size() ? starts[k + 1].first : log.size();
        std::string t = log.substr(b, e - b), p = names[starts[k].second];
        if (p == "c") {
            while (t.size() >= 4 && t.compare(t.size() - 4, 4, "\\r\\n") == 0) t.resize(t.size() - 4);
            while (t.compare(0, 4, "\\r\\n") == 0) t.erase(0, 4);
            if (!t.empty()) r.push_back({{"p", p}, {"t", Scenario::safe(t)}});
        } else {
            addLines(r, p, t, "\r\n");
        }
    }
    return r;
}
static json transcriptItems(int n) {
    json r = json::array();
    for (auto &t : S.transcript[n]) {
        if (t.who == 's') addLines(r, "s", t.text, "\r\n");
        else r.push_back({{"p", std::string(1, t.who)}, {"t", Scenario::safe(t.text)}});
    }
    return r;
}
// Does the log tell that encryption is not available?
static bool saysClear(const std::string &log) {
    std::string l = log;
    for (auto &ch : l) if (ch >= 'A' && ch <= 'Z') ch = static_cast<char>(ch + 32);
    auto has = [](const std::string &t, const char *x) { return t.find(x) != std::string::npos; };
    for (const char *mark : {"\nc: ", "\nc & s: "}) {
        for (size_t pos = 0; (pos = l.find(mark, pos)) != std::string::npos; pos++) {
            size_t e = l.find('\n', pos + 1);
            std::string t = l.substr(pos + strlen(mark), e == std::string::npos ? e : e - pos - strlen(mark));
            bool topic = has(t, "starttls") || has(t, "encrypt") || has(t, "tls");
            if (topic && (has(t, "not ") || has(t, "unavailable") || has(t, "unencrypted") || has(t, "without") || has(t, "in clear"))) return true;
        }
    }
    return false;
}

static thread_local std::map<std::string, int> session;        // the connection behind a client's log
static thread_local std::map<int, std::string> logAfter;     // the log after each send
static void doSend(const json &op, const std::string &c) {
    Box &b = *clients.at(c);
    vnet::usec t0 = vnet::now;
    int before = attempts;
    const bool watch = S.def.value("watch", false);
    std::unique_ptr<Surroundings> around(watch ? new Surroundings : nullptr);
    json config = watch ? b.get() : json();
    vnet::active = true;
    int ret = b.send(op.at("m"));
    vnet::active = false;
    if (watch) {
        json k = json::array();
        for (auto &p : Surroundings().v) if (around->v[p.first] != p.second) k.push_back(p.first);
        if (config != b.get()) k.push_back("configuration");
        auto it = kept.find(op.at("m").get<std::string>());
        if (it != kept.end() && it->second.before != it->second.after) k.push_back("message");
        if (!k.empty()) emit({{"e", "side"}, {"c", c}, {"k", k}});
    }
    if (attempts > before) session[c] = attempts;
    std::string log = b.log();
    logAfter[opIndex] = log;
    bool leak = false;
    auto it = S.secrets.find("pw");
    if (it != S.secrets.end()) for (auto &s : it->second) if (log.find(s) != std::string::npos) leak = true;
    for (auto &s : S.notInLog) if (log.find(s) != std::string::npos) leak = true;
    // numbers in the log written as the locale has it
    std::ostringstream local;
    local << b.get().at("port").get<unsigned>();
    bool grouped = local.str() != std::to_string(b.get().at("port").get<unsigned>()) && log.find(local.str()) != std::string::npos;
    json e = {{"e", "ret"}, {"c", c}, {"m", op.at("m")}, {"grouped", grouped}, {"code", ret}, {"el", static_cast<int>((vnet::now - t0 + vnet::SEC - 1) / vnet::SEC)},
        {"leak", leak}, {"msg", b.err(ret, {}).at("msg")}, {"log", logItems(log)}, {"loglen", log.size()}, {"saysclear", saysClear(log)}, {"fresh", attempts > before}};
    emit(e);
    if (session[c] > 0) emit({{"e", "tx"}, {"c", c}, {"tx", transcriptItems(session[c])}});
}

// ---------------------------------------------------------------- values
struct Val {
    std::string ty, iface;
    bool moved = false;
    std::unique_ptr<J::MessageAddress> ca; std::unique_ptr<X::MessageAddress> xa;
    std::unique_ptr<J::Attachment> ct; std::unique_ptr<X::Attachment> xt;
    std::unique_ptr<J::Credential> cc; std::unique_ptr<X::Credential> xc;
    std::unique_ptr<J::PlaintextMessage> cp; std::unique_ptr<X::PlaintextMessage> xp;
    std::unique_ptr<J::HTMLMessage> ch; std::unique_ptr<X::HTMLMessage> xh;
    std::unique_ptr<J::ErrorResolver> er;
};
static std::map<std::string, Val> vals;

static std::string ss(const char *p) { return p ? Scenario::safe(p) : "$null"; }
static std::string ss(const std::string &p) { return Scenario::safe(p); }
static std::string pathName(const std::string &p) {      // hide the scratch directory
    for (auto &m : S.msgs) for (auto &a : m.second.att) if (a.path == p) return "$" + a.file;
    if (p.compare(0, S.dir.size(), S.dir) == 0) return "$" + p.substr(S.dir.size());
    return Scenario::safe(p);
}
template <class A> static json showAddr(const A &a) {
    return {{"a", ss(a.getEmailAddress())}, {"d", ss(a.getDisplayName())}, {"s", ss(static_cast<std::string>(a))}};
}
template <class A> static json showAtt(const A &a) {
    return {{"f", pathName(a.getFilename())}, {"n", ss(a.getName())}, {"c", ss(a.getContentId())}, {"m", ss(a.getMimeType())}};
}
template <class A> static json showCred(const A &a) {
    return {{"u", ss(a.getUsername())}, {"p", ss(a.getPassword())}, {"m", static_cast<int>(a.getRecommendedAuthOption())}};
}
static json ca(const J::MessageAddress &a) { return {{"a", ss(a.getEmailAddress())}, {"d", ss(a.getDisplayName())}}; }
static json ca(const X::MessageAddress &a) { return {{"a", ss(a.getEmailAddress())}, {"d", ss(a.getDisplayName())}}; }
static json showMsgC(const J::Message &m) {
    json r = {{"mime", ss(m.getMimeType())}, {"from", ca(m.getFrom())}, {"subj", ss(m.getSubject())}, {"body", ss(m.getBody())},
        {"to", json::array()}, {"cc", json::array()}, {"bcc", json::array()}, {"att", json::array()}};
    for (size_t i = 0; i < m.getToCount(); i++) r["to"].push_back(ca(*m.getTo()[i]));
    for (size_t i = 0; i < m.getCcCount(); i++) r["cc"].push_back(ca(*m.getCc()[i]));
    for (size_t i = 0; i < m.getBccCount(); i++) r["bcc"].push_back(ca(*m.getBcc()[i]));
    for (size_t i = 0; i < m.getAttachmentsCount(); i++) r["att"].push_back(showAtt(*m.getAttachments()[i]));
    return r;
}
static json showMsgX(const X::Message &m) {
    json r = {{"mime", ss(m.getMimeType())}, {"from", ca(m.getFrom())}, {"subj", ss(m.getSubject())}, {"body", ss(m.getBody())},
        {"to", json::array()}, {"cc", json::array()}, {"bcc", json::array()}, {"att", json::array()}};
    for (auto &a : m.getTo()) r["to"].push_back(ca(a));
    for (auto &a : m.getCc()) r["cc"].push_back(ca(a));
    for (auto &a : m.getBcc()) r["bcc"].push_back(ca(a));
    for (auto &a : m.getAttachments()) r["att"].push_back(showAtt(a));
    if (m.getToCount() != m.getTo().size() || m.getCcCount() != m.getCc().size() || m.getBccCount() != m.getBcc().size()
            || m.getAttachmentsCount() != m.getAttachments().size()) r["mime"] = "counts differ";
    return r;
}
static json show(const Val &v) {
    if (v.ca) return showAddr(*v.ca);
    if (v.xa) return showAddr(*v.xa);
    if (v.ct) return showAtt(*v.ct);
    if (v.xt) return showAtt(*v.xt);
    if (v.cc) return showCred(*v.cc);
    if (v.xc) return showCred(*v.xc);
    if (v.cp) return showMsgC(*v.cp);
    if (v.ch) return showMsgC(*v.ch);
    if (v.xp) return showMsgX(*v.xp);
    if (v.xh) return showMsgX(*v.xh);
    if (v.er) return {{"code", v.er->getErrorCode()}, {"msg", ss(v.er->getErrorMessage())}};
    return nullptr;
}
static std::string filePath(const json &v) {
    std::string f = textOf(v);
    if (!f.empty() && f[0] == '$' && f != "$null" && f != "$own") return S.dir + f.substr(1);
    return f;
}

static void vnew(const json &op) {
    Val v;
    v.ty = op.at("ty");
    v.iface = op.value("if", "c");
    bool x = v.iface == "cpp";
    auto str = [&](const char *f) { return textOf(op.at(f)); };
    auto cstr = [&](const char *f) { return own(op.at(f), nullptr); };
    if (v.ty == "addr") {
        bool one = !op.contains("d") || op["d"] == "$none";
        if (x) { if (one) v.xa.reset(new X::MessageAddress(str("a"))); else v.xa.reset(new X::MessageAddress(str("a"), str("d"))); }
        else { if (one) v.ca.reset(new J::MessageAddress(cstr("a"))); else v.ca.reset(new J::MessageAddress(cstr("a"), cstr("d"))); }
    } else if (v.ty == "att") {
        std::string f = filePath(op.at("f"));
        if (x) v.xt.reset(new X::Attachment(f, str("n"), str("c")));
        else v.ct.reset(new J::Attachment(f.c_str(), cstr("n"), cstr("c")));
    } else if (v.ty == "cred") {
        int m = op.value("m", -1);
        if (x) { if (m < 0) v.xc.reset(new X::Credential(str("u"), str("p"))); else v.xc.reset(new X::Credential(str("u"), str("p"), method(m))); }
        else { if (m < 0) v.cc.reset(new J::Credential(cstr("u"), cstr("p"))); else v.cc.reset(new J::Credential(cstr("u"), cstr("p"), method(m))); }
    } else if (v.ty == "plain" || v.ty == "html") {
        const MsgDef &d = S.msgs.at(op.at("m"));
        int ctor = op.value("ctor", 2);
        if (v.ty == "plain") { if (x) v.xp.reset(makeX<X::PlaintextMessage>(d)); else v.cp.reset(makeC<J::PlaintextMessage>(d, ctor)); }
        else { if (x) v.xh.reset(makeX<X::HTMLMessage>(d)); else v.ch.reset(makeC<J::HTMLMessage>(d, ctor)); }
    } else if (v.ty == "err") {
        v.er.reset(new J::ErrorResolver(op.at("code").get<int>()));
    }
    vals[op.at("s")] = std::move(v);
}
template <class T> static void dup(const std::unique_ptr<T> &from, std::unique_ptr<T> &to, bool move) {
    if (!from) return;
    if (move) to.reset(new T(std::move(*from))); else to.reset(new T(static_cast<const T &>(*from)));
}
template <class T> static void asg(const std::unique_ptr<T> &from, std::unique_ptr<T> &to, bool move) {
    if (!from || !to) return;
    if (move) *to = std::move(*from); else *to = static_cast<const T &>(*from);
}
#define EACH(F) F(ca) F(xa) F(ct) F(xt) F(cc) F(xc) F(cp) F(xp) F(ch) F(xh) F(er)

static void valueOp(const json &op) {
    std::string o = op.at("op");
    if (o == "vnew") { vnew(op); return; }
    std::string s = op.at("s");
    if (o == "vdel") { vals.erase(s); return; }
    if (o == "vcopy" || o == "vmove") {
        Val &f = vals.at(op.at("from"));
        Val v;
        v.ty = f.ty;
        v.iface = f.iface;
#define F(x) dup(f.x, v.x, o == "vmove");
        EACH(F)
#undef F
        if (o == "vmove") f.moved = true;
        vals[s] = std::move(v);
    } else if (o == "vassign" || o == "vmassign") {
        Val &f = vals.at(op.at("from"));
        Val &v = vals.at(s);
#define F(x) asg(f.x, v.x, o == "vmassign");
        EACH(F)
#undef F
        v.moved = false;
        if (o == "vmassign" && s != op.at("from").get<std::string>()) f.moved = true;
    } else if (o == "vset") {
        Val &v = vals.at(s);
        std::string f = op.at("f");
        const json &a = op.at("v");
        if (v.ct) v.ct->setContentId(own(a, v.ct->getContentId()));
        else if (v.xt) v.xt->setContentId(a == "$own" ? v.xt->getContentId() : textOf(a));
        else if (v.cc) {
            if (f == "u") v.cc->setUsername(own(a, v.cc->getUsername()));
            else if (f == "p") v.cc->setPassword(own(a, v.cc->getPassword()));
            else v.cc->setRecommendedAuthOption(method(a.get<int>()));
        } else if (v.xc) {
            if (f == "u") v.xc->setUsername(a == "$own" ? v.xc->getUsername() : textOf(a));
            else if (f == "p") v.xc->setPassword(a == "$own" ? v.xc->getPassword() : textOf(a));
            else v.xc->setRecommendedAuthOption(method(a.get<int>()));
        }
    } else if (o == "vconv") {          // C++ interface object to its C counterpart
        Val &f = vals.at(op.at("from"));
        Val v;
        v.ty = f.ty;
        v.iface = "c";
        if (f.xa) v.ca.reset(new J::MessageAddress(f.xa->toStdMessageAddress()));
        if (f.xt) v.ct.reset(new J::Attachment(f.xt->toStdAttachment()));
        if (f.xp) v.cp.reset(new J::PlaintextMessage(static_cast<J::PlaintextMessage>(*f.xp)));
        if (f.xh) v.ch.reset(new J::HTMLMessage(static_cast<J::HTMLMessage>(*f.xh)));
        vals[s] = std::move(v);
    } else if (o == "veq") {
        Val &a = vals.at(s), &b = vals.at(op.at("from"));
        bool r = a.ca ? *a.ca == *b.ca : *a.xa == *b.xa;
        emit({{"e", "eq"}, {"s", s}, {"from", op.at("from")}, {"r", r}});
    }
}
static void dumpVals(int i) {
    for (auto &p : vals) if (!p.second.moved) emit({{"e", "val"}, {"i", i}, {"s", p.first}, {"ty", p.second.ty}, {"if", p.second.iface}, {"v", show(p.second)}});
}

// ---------------------------------------------------------------- scenario
// which of the logs a client shows
static void shownLog(const std::string &c) {
    std::string now = clients.at(c)->log();
    json at = json::array();
    if (now.empty()) at.push_back(0);
    for (auto &p : logAfter) if (p.second == now) at.push_back(p.first);
    emit({{"e", "logof"}, {"c", c}, {"at", at}});
}
static void runOp(const json &op) {
    std::string o = op.at("op");
    if (o[0] == 'v') { valueOp(op); if (o != "veq") dumpVals(opIndex); return; }
    std::string c = op.value("c", "");
    if (o == "send") { doSend(op, c); return; }
    vnet::active = true;
    struct Off { ~Off() { vnet::active = false; } } off;
    if (o == "new") {
        Box *b = newClient(op);
        clients[c].reset(b);
        session[c] = 0;
    } else if (o == "set") clients.at(c)->set(op.at("f"), op.at("v"));
    else if (o == "copy") { clients[c].reset(clients.at(op.at("from"))->copy()); session[c] = 0; }
    else if (o == "move") { clients[c].reset(clients.at(op.at("from"))->move()); session[c] = session[op.at("from")]; }
    else if (o == "assign") { clients.at(c)->assign(*clients.at(op.at("from"))); if (c != op.at("from")) session[c] = 0; }
    else if (o == "massign") { clients.at(c)->massign(*clients.at(op.at("from"))); session[c] = session[op.at("from")]; }
    else if (o == "del") clients.erase(c);
    else if (o == "get") { json g = clients.at(c)->get(); emit({{"e", "get"}, {"c", c}, {"v", g}}); shownLog(c); }
    else if (o == "log") { emit({{"e", "log"}, {"c", c}, {"log", logItems(clients.at(c)->log())}}); }
    else if (o == "helper") {
        json out = json::array();
        const std::string f = op.at("f");
        for (auto &w : op.at("words")) {
            std::string a, r;
            for (auto &b : w) a += static_cast<char>(b.get<int>());
            auto encode = [](const std::string &x) {
                // exactly the bytes, so that one read beyond them is noticed
                std::unique_ptr<unsigned char[]> raw(new unsigned char[x.size()]);
                memcpy(raw.get(), x.data(), x.size());
                return J::Base64::Encode(raw.get(), x.size());
            };
            if (f == "encode") r = encode(a);
            else if (f == "decode") r = J::Base64::Decode(a);
            else if (f == "there and back") r = J::Base64::Decode(encode(a));
            else if (f == "trimLeft") r = J::StringUtils::trimLeft(a);
            else if (f == "trimRight") r = J::StringUtils::trimRight(a);
            else if (f == "trim") r = J::StringUtils::trim(a);
            else if (f == "toLower") r = J::StringUtils::toLower(a);
            else if (f == "toUpper") r = J::StringUtils::toUpper(a);
            else if (f == "complete") r = J::ServerOptionsAnalyzer::containsAllOptions(a) ? "\001" : std::string(1, '\0');
            json bytes = json::array();
            for (char x : r) bytes.push_back(static_cast<unsigned char>(x));
            out.push_back(bytes);
        }
        emit({{"e", "fn"}, {"f", f}, {"out", out}});
    }
    else if (o == "err") {
        std::vector<int> sizes;
        for (auto &x : op.value("sizes", json::array())) sizes.push_back(x.get<int>());
        emit({{"e", "err"}, {"c", c}, {"code", op.at("code")}, {"v", clients.at(c)->err(op.at("code").get<int>(), sizes)}});
    }
}

static void runOps(const json &ops, int from, int to) {
    for (int k = from; k < to; k++) {
        const json &op = ops.at(static_cast<size_t>(k));
        int i = opIndex = k + 1;
        vnet::calls = 0;
        emit({{"e", "op"}, {"i", i}, {"op", op.at("op")}, {"c", op.value("c", op.value("s", ""))}});
        try {
            runOp(op);
        } catch (const std::invalid_argument &) {
            vnet::active = false;
            emit({{"e", "exc"}, {"i", i}, {"t", "invalid_argument"}});
            dumpVals(i);
        } catch (const std::exception &e) {
            vnet::active = false;
            emit({{"e", "exc"}, {"i", i}, {"t", std::string("other: ") + e.what()}});
        }
    }
}
static int openFiles() {
    int n = 0;
    if (DIR *d = opendir("/proc/self/fd")) {
        while (readdir(d)) n++;
        closedir(d);
    }
    return n;
}
static void runScenario(const json &def, const std::string &dir);
// The same again and again: what is in use afterwards must not become more
static void runRepeatedly(json def, const std::string &dir) {
    int rounds = def["repeat"].get<int>();
    def.erase("repeat");
    long blocks = 0, files = 0;
    for (int r = 1; r <= rounds; r++) {
        runScenario(def, dir);
        vnet::reset();
        kept.clear();
        session.clear();
        logAfter.clear();
        attemptHost.clear();
        attempts = 0;
        attemptOp = opIndex = -1;
        attemptHasSocket = false;
        S = Scenario();
        for (auto &t : keep) std::string().swap(t);
        OPENSSL_thread_stop();  // the thread's queue of errors grows as it is used
        if (r + 1 == rounds) { files = openFiles(); blocks = heapBlocks(); }
        mute = true;
    }
    blocks = heapBlocks() - blocks;
    files = openFiles() - files;
    mute = false;
    emit({{"e", "left"}, {"blocks", blocks}, {"files", files}});
}
static void runScenario(const json &def, const std::string &dir) {
    S.dir = dir;
    S.load(def);
    installHooks();
    if (def.contains("locale")) {
        std::string l = def["locale"];
        if (setlocale(LC_ALL, l.c_str()) == nullptr) throw std::runtime_error("no locale " + l);
        std::locale::global(std::locale(l));
    }
    if (def.value("fd0", false)) vnet::rawClose(0);
    vnet::fdMin = def.value("fdmin", 0);
    if (def.contains("signals")) {
        for (auto &t : def["signals"].value("at", json::array())) vnet::strikes.push_back(t.get<int>() * vnet::usec(1000));
        vnet::strikeEvery = def["signals"].value("every", 0) * vnet::usec(1000);
    }
    const json &ops = def.at("ops");
    int n = static_cast<int>(ops.size());
    if (def.contains("par")) {
        const json &par = def["par"];
        int split = par.at("split").get<int>();
        if (!par.value("share", "").empty()) {
            const MsgDef &d = S.msgs.at(par["share"]);
            if (d.kind == "html") shared.ch.reset(makeC<J::HTMLMessage>(d, 2)); else shared.cp.reset(makeC<J::PlaintextMessage>(d, 2));
        }
        vnet::beginTurns(par.at("sched").get<std::vector<int>>());
        auto body = [&](int who, int from, int to, int base) {
            vnet::me = who;
            attempts = base;
            runOps(ops, from, to);
            vnet::finished();
            vnet::me = 0;
        };
        std::thread a(body, 1, 0, split, 0), b(body, 2, split, n, par.at("base").get<int>());
        a.join();
        b.join();
        pendingOut += events[1] + events[2];
        flushEvents();
        clientsOf[1].clear();
        clientsOf[2].clear();
        emit({{"e", "steps"}, {"a", vnet::stepsOf(1)}, {"b", vnet::stepsOf(2)}});
    } else {
        runOps(ops, 0, n);
    }
    opIndex = n + 1;
    emit({{"e", "op"}, {"i", n + 1}, {"op", "end"}, {"c", ""}});
    vnet::active = true;
    while (!clients.empty()) clients.erase(clients.begin());
    vals.clear();
    vnet::active = false;
    emit({{"e", "end"}});
}

static void removeDir(const std::string &dir) {
    // only files this process created live there
    std::string cmd = "rm -rf -- '" + dir + "'";
    if (dir.compare(0, 14, "/tmp/smtpverif") == 0 && system(cmd.c_str()) != 0) fprintf(stderr, "cannot remove %s\n", dir.c_str());
}

int main(int argc, char **argv) {
    if (argc < 3) { fprintf(stderr, "usage: harness SCENARIOS OUT\n"); return 2; }
    char tmpl[] = "/tmp/smtpverifXXXXXX";
    if (mkdtemp(tmpl) == nullptr) { perror("mkdtemp"); return 2; }
    std::string dir = tmpl;
    std::string empty = dir + "/certs";
    if (mkdir(empty.c_str(), 0700) != 0) return 2;
    OPENSSL_init_ssl(0, nullptr);
    certs::prepare(dir);
    setenv("SSL_CERT_FILE", (dir + "/ca.pem").c_str(), 1);
    setenv("SSL_CERT_DIR", empty.c_str(), 1);
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    std::string line;
    int rc = 0;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        json def = json::parse(line);
        std::string sdir = dir + "/s";
        if (mkdir(sdir.c_str(), 0700) != 0) { rc = 2; break; }
        int ev[2], er[2];
        if (pipe(ev) != 0 || pipe(er) != 0) { rc = 2; break; }
        pid_t pid = fork();
        if (pid == 0) {
            alarm(60);
            rlimit most { 3ul << 30, 3ul << 30 };           // the other runs need memory as well
            if (!__asan_init) setrlimit(RLIMIT_AS, &most);
            dup2(ev[1], EVFD);
            dup2(er[1], 2);
            vnet::rawClose(ev[0]); vnet::rawClose(ev[1]); vnet::rawClose(er[0]); vnet::rawClose(er[1]);
            int dn = static_cast<int>(syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0));
            dup2(dn, 0);
            dup2(def.value("watch", false) ? 2 : dn, 1);
            if (dn > 2) vnet::rawClose(dn);
            signal(SIGPIPE, SIG_DFL);
            try {
                if (def.value("repeat", 1) > 1) runRepeatedly(def, sdir); else runScenario(def, sdir);
            } catch (const std::exception &e) {
                emit({{"e", "harness"}, {"what", e.what()}});
                _exit(3);
            }
            flushEvents();
            fflush(nullptr);
            _exit(0);
        }
        vnet::rawClose(ev[1]);
        vnet::rawClose(er[1]);
        std::string evs, err;
        struct pollfd pf[2] = {{ev[0], POLLIN, 0}, {er[0], POLLIN, 0}};
        int open = 2;
        while (open > 0) {
            poll(pf, 2, -1);
            for (int k = 0; k < 2; k++) {
                if (pf[k].fd < 0 || !(pf[k].revents & (POLLIN | POLLHUP))) continue;
                char tmp[65536];
                ssize_t g = read(pf[k].fd, tmp, sizeof tmp);
                if (g > 0) {
                    if (k == 0) evs.append(tmp, static_cast<size_t>(g)); else if (err.size() < 1000000) err.append(tmp, static_cast<size_t>(g));
                } else { vnet::rawClose(pf[k].fd); pf[k].fd = -1; open--; }
            }
        }
        int status = 0;
        waitpid(pid, &status, 0);
        std::string crash;
        if (WIFSIGNALED(status)) {
            int sig = WTERMSIG(status);
            crash = sig == SIGPIPE ? "SIGPIPE" : sig == SIGALRM ? "hang" : "signal " + std::to_string(sig);
        } else if (WEXITSTATUS(status) != 0) {
            crash = "exit " + std::to_string(WEXITSTATUS(status));
        }
        size_t a = err.find("ERROR: AddressSanitizer: ");
        if (a != std::string::npos) { size_t b = err.find_first_of(" \n", a + 25); crash = "asan " + err.substr(a + 25, b - a - 25); }
        if (!crash.empty() && WIFEXITED(status) && WEXITSTATUS(status) == 3) { fprintf(stderr, "harness error in scenario %s: %s\n", def.value("id", json("?")).dump().c_str(), evs.substr(evs.size() > 300 ? evs.size() - 300 : 0).c_str()); rc = 3; }
        // assemble; the last line may be incomplete after a crash
        std::string res = "{\"id\":" + def.at("id").dump() + ",\"crash\":" + json(crash).dump() + ",\"ev\":[";
        size_t pos = 0;
        bool first = true;
        for (size_t nl; (nl = evs.find('\n', pos)) != std::string::npos; pos = nl + 1) {
            if (!first) res += ",";
            first = false;
            res.append(evs, pos, nl - pos);
        }
        if (def.value("watch", false) && crash.empty() && !err.empty()) res += std::string(first ? "" : ",") + json{{"e", "said"}, {"t", Scenario::safe(err)}}.dump();
        res += "]}";
        out << res << "\n";
        if (!crash.empty() && getenv("HARNESS_VERBOSE")) fprintf(stderr, "%s\n", err.c_str());
        std::string cmd = "rm -rf -- '" + sdir + "'";
        // the directory is ours and usually empty
        if (rmdir(sdir.c_str()) != 0 && system(cmd.c_str()) != 0) { rc = 2; break; }
    }
    out.close();
    removeDir(dir);
    return rc;
}
