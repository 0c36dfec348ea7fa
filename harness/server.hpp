// The scripted SMTP server (optionally with TLS) that a scenario talks to.
#pragma once
#include <openssl/ssl.h>
#include <map>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>
#include "vnet.hpp"

using json = nlohmann::json;

void emit(const json &e);
vnet::usec delayOf(const json &reaction);   // its delay, given in milliseconds (dms)

namespace certs {
void prepare(const std::string &dir);               // makes the keys, certificates and the CA file
SSL_CTX *serverCtx(const std::string &kind, const std::string &maxVersion);
}

struct Scenario;

struct Host {
    std::vector<std::string> caps1, caps2;   // capability lines in clear and inside TLS
    bool forced = false;                     // TLS from the first byte
};

std::string b64encode(const std::string &s);
bool b64decode(const std::string &s, std::string &out, bool strict);

struct Transcript { char who; std::string text; };   // c: client, x: client line with credentials, s: server

class Server : public vnet::Peer {
 public:
    Server(vnet::Conn &conn, const Host &host, const std::vector<json> &script, Scenario &scn);
    ~Server() override;
    void start();                                       // the connection is established
    size_t offer(const char *p, size_t n, vnet::Fate &fate) override;
    void delivered(int reply) override;
    void lostBytes(const char *p, size_t n) override;
    void clientClosed() override;
    bool over() const { return mOver; }
    std::string content;                                // what is being received after DATA

 private:
    enum Mode { kClear, kTlsPending, kTls } mMode = kClear;
    enum Phase { kCommand, kHeader, kBody, kAuthUser, kAuthPass, kAuthInit } mPhase = kCommand;

    void say(char who, const std::string &t);
    json reaction(const std::string &st, int i) const;
    size_t feed(const char *p, size_t n, vnet::Fate &fate, bool tls);
    size_t feedData(const char *p, size_t n, vnet::Fate &fate, bool tls);
    bool blocked(const std::string &st, int i, vnet::Fate &fate);
    std::string stepOf(const std::string &line) const;
    std::string verbStep(const std::string &line) const;
    void line(const std::string &l, bool tls);
    void endOfData(bool tls);
    bool react(const std::string &st, int i, int okCode, const std::string &okText, bool badSequence = false);
    void reply(const std::string &st, int i, int code, const std::string &text, const json &r);
    void transmit(const std::string &text, const json &r, int replyIdx);
    void flushTls(vnet::usec t, int replyIdx);
    bool tlsInput(const char *p, size_t n, vnet::Fate &fate);
    void emitCmd(const std::string &v, int i, const std::string &a, const std::string &x, const std::string &t, bool tls);
    void finalClear();
    std::string capsText(bool tls) const;

    vnet::Conn &c;
    const Host &host;
    const std::vector<json> &script;
    Scenario &scn;
    SSL *ssl = nullptr;
    BIO *rbio = nullptr, *wbio = nullptr;
    bool handshaked = false;
    bool mOver = false;                                 // the server has ended the connection
    std::string buf;                                    // incomplete line
    std::string clear;                                  // bytes received outside TLS
    std::map<std::string, vnet::usec> slowUntil;        // steps at which the server is slow to take bytes
    std::string held;                                   // decrypted, but not yet taken
    bool holding = false;
    std::string tlsRaw;                                 // incomplete TLS record
    std::map<std::string, int> count;                   // occurrences of each step
    std::vector<std::string> replies;                   // texts, for the transcript
    bool helo = false, mailOk = false;
    int rcptOk = 0;
    int tx = 0;                                         // number of the DATA section
    int bodyBytes = 0;
    std::string authMech, authUser;
};
