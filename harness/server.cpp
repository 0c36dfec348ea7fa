#include "server.hpp"
#include <openssl/bio.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/pem.h>
#include <openssl/x509v3.h>
#include <algorithm>
#include <cctype>
#include <cstring>
#include <stdexcept>
#include "scenario.hpp"

using vnet::Fate;
using vnet::SEC;

vnet::usec delayOf(const json &r) { return r.value("dms", 0) * (SEC / 1000); }

// ---------------------------------------------------------------- base64
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

std::string b64encode(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i += 3) {
        unsigned v = static_cast<unsigned char>(s[i]) << 16;
        if (i + 1 < s.size()) v |= static_cast<unsigned char>(s[i + 1]) << 8;
        if (i + 2 < s.size()) v |= static_cast<unsigned char>(s[i + 2]);
        r += B64[v >> 18 & 63];
        r += B64[v >> 12 & 63];
        r += i + 1 < s.size() ? B64[v >> 6 & 63] : '=';
        r += i + 2 < s.size() ? B64[v & 63] : '=';
    }
    return r;
}

// strict: line breaks are skipped, everything else must be well formed
bool b64decode(const std::string &s, std::string &out, bool strict) {
    static int rev[256];
    static bool init = false;
    if (!init) {
        std::fill(rev, rev + 256, -1);
        for (int i = 0; i < 64; i++) rev[static_cast<unsigned char>(B64[i])] = i;
        init = true;
    }
    out.clear();
    unsigned v = 0;
    int bits = 0, chars = 0, pad = 0;
    for (char ch : s) {
        if (ch == '\r' || ch == '\n') { if (strict) continue; return false; }
        if (ch == '=') { pad++; chars++; continue; }
        int d = rev[static_cast<unsigned char>(ch)];
        if (d < 0 || pad) return false;
        chars++;
        v = v << 6 | static_cast<unsigned>(d);
        bits += 6;
        if (bits >= 8) { bits -= 8; out += static_cast<char>(v >> bits & 255); v &= (1u << bits) - 1; }
    }
    return chars % 4 == 0 && pad <= 2;
}

// ---------------------------------------------------------------- certificates
namespace certs {
struct Ident { EVP_PKEY *key = nullptr; X509 *cert = nullptr; std::vector<X509 *> chain; };
static std::map<std::string, Ident> idents;
static const long EPOCH = 1780000000, YEAR = 365L * 86400;

static EVP_PKEY *newKey() { return EVP_EC_gen("P-256"); }

static void ext(X509 *x, X509 *issuer, int nid, const char *value) {
    X509V3_CTX ctx;
    X509V3_set_ctx_nodb(&ctx);
    X509V3_set_ctx(&ctx, issuer, x, nullptr, nullptr, 0);
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &ctx, nid, value);
    if (e) { X509_add_ext(x, e, -1); X509_EXTENSION_free(e); }
}

static X509 *make(const char *cn, EVP_PKEY *key, X509 *issuer, EVP_PKEY *signer, long from, long to, bool ca,
        const char *eku) {
    static long serial = 1000;
    X509 *x = X509_new();
    X509_set_version(x, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(x), ++serial);
    ASN1_TIME_set(X509_getm_notBefore(x), EPOCH + from);
    ASN1_TIME_set(X509_getm_notAfter(x), EPOCH + to);
    X509_set_pubkey(x, key);
    X509_NAME *name = X509_get_subject_name(x);
    X509_NAME_add_entry_by_txt(name, "CN", MBSTRING_ASC, reinterpret_cast<const unsigned char *>(cn), -1, -1, 0);
    X509_set_issuer_name(x, issuer ? X509_get_subject_name(issuer) : name);
    X509 *iss = issuer ? issuer : x;
    ext(x, iss, NID_basic_constraints, ca ? "critical,CA:TRUE" : "critical,CA:FALSE");
    if (ca) ext(x, iss, NID_key_usage, "critical,keyCertSign,cRLSign,digitalSignature");
    if (!ca) {
        ext(x, iss, NID_subject_alt_name, "DNS:localhost,DNS:h1,DNS:h2,DNS:h3,DNS:mail.test,DNS:mx.test");
        ext(x, iss, NID_ext_key_usage, eku);
    }
    X509_sign(x, signer, EVP_sha256());
    return x;
}

void prepare(const std::string &dir) {
    const char *SRV = "serverAuth";
    EVP_PKEY *caKey = newKey(), *ca2Key = newKey(), *interKey = newKey(), *leafKey = newKey(), *rogue = newKey();
    X509 *ca = make("Verif Root", caKey, nullptr, caKey, -YEAR, 10 * YEAR, true, nullptr);
    X509 *ca2 = make("Other Root", ca2Key, nullptr, ca2Key, -YEAR, 10 * YEAR, true, nullptr);
    X509 *inter = make("Verif Inter", interKey, ca, caKey, -YEAR, 10 * YEAR, true, nullptr);
    auto put = [&](const char *kind, X509 *x, EVP_PKEY *k, std::vector<X509 *> chain) { idents[kind] = Ident{k, x, chain}; };
    put("good", make("localhost", leafKey, ca, caKey, -YEAR, 5 * YEAR, false, SRV), leafKey, {});
    put("goodinter", make("localhost", leafKey, inter, interKey, -YEAR, 5 * YEAR, false, SRV), leafKey, {inter});
    put("self", make("localhost", leafKey, nullptr, leafKey, -YEAR, 5 * YEAR, false, SRV), leafKey, {});
    put("selfca", make("localhost", leafKey, nullptr, leafKey, -YEAR, 5 * YEAR, true, nullptr), leafKey, {});
    put("selfexpired", make("localhost", leafKey, nullptr, leafKey, -3 * YEAR, -YEAR, false, SRV), leafKey, {});
    put("unknown", make("localhost", leafKey, ca2, ca2Key, -YEAR, 5 * YEAR, false, SRV), leafKey, {});
    put("chain", make("localhost", leafKey, ca2, ca2Key, -YEAR, 5 * YEAR, false, SRV), leafKey, {ca2});
    put("expired", make("localhost", leafKey, ca, caKey, -3 * YEAR, -YEAR, false, SRV), leafKey, {});
    put("notyet", make("localhost", leafKey, ca, caKey, YEAR, 5 * YEAR, false, SRV), leafKey, {});
    put("purpose", make("localhost", leafKey, ca, caKey, -YEAR, 5 * YEAR, false, "clientAuth"), leafKey, {});
    put("badsig", make("localhost", leafKey, ca, rogue, -YEAR, 5 * YEAR, false, SRV), leafKey, {});
    put("nointer", make("localhost", leafKey, inter, interKey, -YEAR, 5 * YEAR, false, SRV), leafKey, {});
    FILE *f = fopen((dir + "/ca.pem").c_str(), "w");
    PEM_write_X509(f, ca);
    fclose(f);
}

SSL_CTX *serverCtx(const std::string &kind, const std::string &maxVersion) {
    SSL_CTX *ctx = SSL_CTX_new(TLS_server_method());
    auto it = idents.find(kind);
    if (it != idents.end()) {
        SSL_CTX_use_certificate(ctx, it->second.cert);
        SSL_CTX_use_PrivateKey(ctx, it->second.key);
        for (X509 *x : it->second.chain) SSL_CTX_add1_chain_cert(ctx, x);
    }
    SSL_CTX_set_session_cache_mode(ctx, SSL_SESS_CACHE_OFF);
    SSL_CTX_set_mode(ctx, SSL_MODE_NO_AUTO_CHAIN);
    if (maxVersion == "1.2") SSL_CTX_set_max_proto_version(ctx, TLS1_2_VERSION);
    return ctx;
}
}  // namespace certs

// ---------------------------------------------------------------- helpers
namespace {
struct ErrGuard {         // keep the server's OpenSSL errors out of the client's queue
    int e = errno;
    ErrGuard() { ERR_set_mark(); }
    ~ErrGuard() { ERR_pop_to_mark(); errno = e; }
};
std::string upper(std::string s) { for (auto &ch : s) if (ch >= 'a' && ch <= 'z') ch = static_cast<char>(ch - 32); return s; }
bool starts(const std::string &s, const std::string &p) { return s.compare(0, p.size(), p) == 0; }
std::string peekLine(const std::string &buf, const char *p, size_t n) {
    std::string s = buf;
    size_t m = std::min<size_t>(n, 65536);
    const void *nl = memchr(p, '\n', m);
    s.append(p, nl ? static_cast<size_t>(static_cast<const char *>(nl) - p) : m);
    while (!s.empty() && (s.back() == '\r')) s.pop_back();
    return s;
}
std::string bytesOf(const json &v) {
    if (v.is_string()) return v.get<std::string>();
    std::string s;
    for (auto &b : v) s += static_cast<char>(b.get<int>());
    return s;
}
}  // namespace

Server::Server(vnet::Conn &conn, const Host &h, const std::vector<json> &sc, Scenario &s)
    : c(conn), host(h), script(sc), scn(s) {
    if (host.forced) mMode = kTlsPending;
}
Server::~Server() {
    ErrGuard g;
    if (ssl) SSL_free(ssl);
}

void Server::say(char who, const std::string &t) { scn.transcript[c.n].push_back({who, t}); }

json Server::reaction(const std::string &st, int i) const {
    for (auto &r : script) if (r.at("st") == st && r.value("i", 1) == i) return r;
    return json{{"st", st}, {"i", i}, {"k", "reply"}};
}

bool Server::blocked(const std::string &st, int i, Fate &fate) {
    json r = reaction(st, i);
    std::string k = r.at("k");
    if (k == "slow") {
        auto it = slowUntil.emplace(st + std::to_string(i), vnet::now + r.value("wms", 0) * (SEC / 1000)).first;
        if (vnet::now >= it->second) return false;
        fate.kind = Fate::kSlow;
        fate.until = it->second;
        return true;
    }
    if (k == "die") fate.kind = Fate::kDie;
    else if (k == "pipe") fate.kind = Fate::kPipe;
    else if (k == "lost") fate.kind = Fate::kLost;
    else if (k == "stall") fate.kind = Fate::kStall;
    else return false;
    return true;
}

std::string Server::verbStep(const std::string &line) const {
    std::string u = upper(line);
    bool tls = mMode == kTls;
    if (starts(u, "EHLO") || starts(u, "HELO")) return tls ? "EHLO2" : "EHLO";
    if (starts(u, "STARTTLS")) return "STARTTLS";
    if (starts(u, "AUTH")) return "AUTH";
    if (starts(u, "MAIL")) return "MAIL";
    if (starts(u, "RCPT")) return "RCPT";
    if (starts(u, "DATA")) return "DATA";
    if (starts(u, "QUIT")) return "QUIT";
    if (starts(u, "RSET")) return "RSET";
    if (starts(u, "NOOP")) return "NOOP";
    return "?";
}

std::string Server::stepOf(const std::string &line) const {
    switch (mPhase) {
        case kAuthUser: return "AUTHU";
        case kAuthPass: return "AUTHP";
        case kAuthInit: return "AUTHP";
        default: return verbStep(line);
    }
}

std::string Server::capsText(bool tls) const {
    const auto &caps = tls ? host.caps2 : host.caps1;
    std::string s;
    if (caps.empty()) return "250 mock\r\n";
    for (size_t i = 0; i < caps.size(); i++) s += (i + 1 < caps.size() ? "250-" : "250 ") + caps[i] + "\r\n";
    return s;
}

void Server::start() {
    if (mMode == kClear) react("GREET", ++count["GREET"], 220, "mock ready");
}

// ---------------------------------------------------------------- input
size_t Server::offer(const char *p, size_t n, Fate &fate) {
    ErrGuard g;
    size_t done = 0;
    while (done < n) {
        if (mMode == kClear) {
            size_t k = feed(p + done, n - done, fate, false);
            clear.append(p + done, k);
            done += k;
            if (fate.kind != Fate::kTake) return done;
            continue;
        }
        unsigned char first = tlsRaw.empty() ? static_cast<unsigned char>(p[done]) : static_cast<unsigned char>(tlsRaw[0]);
        if (first < 20 || first > 23) {     // not a TLS record: the client talks in clear
            size_t k = feed(p + done, n - done, fate, false);
            clear.append(p + done, k);
            done += k;
            if (fate.kind != Fate::kTake) return done;
            continue;
        }
        if (mMode == kTlsPending && !handshaked && ssl == nullptr) {
            int i = count["TLS"] + 1;
            if (blocked("TLS", i, fate)) return done;
        }
        const std::string before = tlsRaw;
        size_t taken = 0;
        tlsRaw.append(p + done, n - done);
        while (tlsRaw.size() >= 5) {
            size_t len = (static_cast<unsigned char>(tlsRaw[3]) << 8) + static_cast<unsigned char>(tlsRaw[4]);
            if (static_cast<unsigned char>(tlsRaw[1]) != 3 || len > 16384 + 256) {
                clear += tlsRaw;
                tlsRaw.clear();
                break;
            }
            if (tlsRaw.size() < 5 + len) break;
            std::string rec = tlsRaw.substr(0, 5 + len);
            tlsRaw.erase(0, 5 + len);
            if (!tlsInput(rec.data(), rec.size(), fate)) {
                if (fate.kind == Fate::kSlow) {      // the record is offered again
                    tlsRaw = taken > 0 ? "" : before;
                    if (taken > 0) done += taken - before.size();
                }
                return done;
            }
            taken += 5 + len;
        }
        done = n;
    }
    return done;
}

void Server::flushTls(vnet::usec t, int replyIdx) {
    char tmp[4096];
    std::string out;
    int k;
    while ((k = BIO_read(wbio, tmp, sizeof tmp)) > 0) out.append(tmp, static_cast<size_t>(k));
    if (!out.empty()) vnet::push(c, t, out, replyIdx);
}

// One TLS record from the client. false: refuse the bytes according to fate
bool Server::tlsInput(const char *p, size_t n, Fate &fate) {
    if (ssl == nullptr) {
        int i = ++count["TLS"];
        json r = reaction("TLS", i);
        SSL_CTX *ctx = certs::serverCtx(r.value("cert", "good"), r.value("max", ""));
        if (r.value("cert", "good") == "anon") SSL_CTX_set_cipher_list(ctx, "aNULL:@SECLEVEL=0");
        ssl = SSL_new(ctx);
        SSL_CTX_free(ctx);
        rbio = BIO_new(BIO_s_mem());
        wbio = BIO_new(BIO_s_mem());
        SSL_set_bio(ssl, rbio, wbio);
        SSL_set_accept_state(ssl);
    }
    if (mOver) return true;
    if (!holding) BIO_write(rbio, p, static_cast<int>(n));
    if (!handshaked) {
        json r = reaction("TLS", count["TLS"]);
        std::string k = r.at("k");
        vnet::usec t = vnet::now + delayOf(r);
        auto failed = [&]() { mOver = true; emit({{"e", "tls"}, {"n", c.n}, {"r", "fail"}}); };
        if (k == "silent") { failed(); return true; }
        if (k == "eof" || k == "rst") { failed(); vnet::finish(c, t, k == "rst"); return true; }
        if (k == "alert") { failed(); vnet::push(c, t, std::string("\x15\x03\x03\x00\x02\x02\x28", 7), -1); vnet::finish(c, t, false); return true; }
        if (k == "garbage") { failed(); vnet::push(c, t, "500 what is this\r\n", -1); return true; }
        int ret = SSL_accept(ssl);
        int err = SSL_get_error(ssl, ret);
        if (k == "cut") {      // only a part of the first flight arrives
            char tmp[65536];
            int got = BIO_read(wbio, tmp, sizeof tmp);
            if (got > 0) vnet::push(c, t, std::string(tmp, static_cast<size_t>(got / 2)), -1);
            failed();
            if (r.value("then", "") != "silent") vnet::finish(c, t, false);
            return true;
        }
        if (r.contains("every")) {      // the flight arrives in pieces
            char tmp[65536];
            int got, step = r["every"].get<int>();
            vnet::usec gap = r.value("gapms", 0) * (SEC / 1000);
            while ((got = BIO_read(wbio, tmp, sizeof tmp)) > 0)
                for (int at = 0; at < got; at += step, t += gap) vnet::push(c, t, std::string(tmp + at, static_cast<size_t>(std::min(step, got - at))), -1);
        } else {
            flushTls(t, -1);
        }
        if (ret == 1) {
            handshaked = true;
            mMode = kTls;
            helo = mailOk = false;
            mPhase = kCommand;
            buf.clear();
            emit({{"e", "tls"}, {"n", c.n}, {"r", "ok"}});
            if (host.forced) react("GREET", ++count["GREET"], 220, "mock ready");
        } else if (err != SSL_ERROR_WANT_READ && err != SSL_ERROR_WANT_WRITE) {
            failed();
            vnet::finish(c, t, false);
            return true;
        } else {
            return true;
        }
    }
    std::string plain;
    char tmp[16384];
    int k;
    if (holding) plain.swap(held);
    holding = false;
    while ((k = SSL_read(ssl, tmp, sizeof tmp)) > 0) plain.append(tmp, static_cast<size_t>(k));
    flushTls(vnet::now, -1);
    size_t done = 0;
    while (done < plain.size()) {
        size_t m = feed(plain.data() + done, plain.size() - done, fate, true);
        done += m;
        if (fate.kind == Fate::kSlow) { held = plain.substr(done); holding = true; }
        if (fate.kind != Fate::kTake) return false;
        if (m == 0) break;
    }
    return true;
}

size_t Server::feed(const char *p, size_t n, Fate &fate, bool tls) {
    size_t done = 0;
    while (done < n) {
        if (mOver) { done = n; break; }
        if (mPhase == kHeader || mPhase == kBody) {
            size_t k = feedData(p + done, n - done, fate, tls);
            done += k;
            if (fate.kind != Fate::kTake) return done;
            continue;
        }
        if (buf.empty()) {
            std::string st = stepOf(peekLine(buf, p + done, n - done));
            if (blocked(st, count[st] + 1, fate)) return done;
        }
        const void *nl = memchr(p + done, '\n', n - done);
        if (nl == nullptr) { buf.append(p + done, n - done); return n; }
        size_t len = static_cast<size_t>(static_cast<const char *>(nl) - (p + done)) + 1;
        buf.append(p + done, len);
        done += len;
        std::string l = buf;
        buf.clear();
        l.pop_back();
        if (!l.empty() && l.back() == '\r') l.pop_back();
        else emit({{"e", "anom"}, {"k", "bare-lf-in-command"}});
        if (l.find('\r') != std::string::npos) emit({{"e", "anom"}, {"k", "bare-cr-in-command"}});
        Mode before = mMode;
        line(l, tls);
        if (mMode != before) return done;
    }
    return done;
}

size_t Server::feedData(const char *p, size_t n, Fate &fate, bool tls) {
    static const std::string TERM = "\r\n.\r\n";
    for (size_t pos = 0; pos < n;) {
        const char *q = p + pos;
        size_t left = n - pos;
        // end of data: complete with the bytes at hand?
        for (size_t t = 0; t < TERM.size(); t++) {
            if (left < TERM.size() - t || memcmp(q, TERM.data() + t, TERM.size() - t) != 0) continue;
            // what precedes, the CRLF of the DATA line included
            std::string tail = content.size() >= t ? content.substr(content.size() - t) : ("\r\n" + content);
            if (tail.size() < t || tail.compare(tail.size() - t, t, TERM, 0, t) != 0) continue;
            if (t <= 2 && blocked("EOD", tx, fate)) return pos;
            content += TERM.substr(std::min<size_t>(t, 2), 2 - std::min<size_t>(t, 2));
            if (t > 2) content.resize(content.size() - (t - 2));
            endOfData(tls);
            return pos + TERM.size() - t;
        }
        if (mPhase == kHeader && (content.empty() || content.back() == '\n')) {
            std::string l = peekLine("", q, left);
            if (!l.empty() && l[0] != ' ' && l[0] != '\t') {
                std::string name = l.substr(0, l.find(':'));
                std::string st = "H:" + (upper(name) == "CONTENT-TYPE" ? std::string("CT") : name);
                if (l.find(':') == std::string::npos || name.size() > 40) st = "H:?";
                if (blocked(st, tx, fate)) return pos;
                say('c', l);
                emit({{"e", "el"}, {"n", c.n}, {"tls", tls}, {"v", st}, {"i", tx}});
            }
        }
        if (mPhase == kBody) {
            if (bodyBytes == 0) {
                if (blocked("BODY", tx, fate)) return pos;
                emit({{"e", "el"}, {"n", c.n}, {"tls", tls}, {"v", "BODY"}, {"i", tx}});
            }
            if (bodyBytes == 512 && blocked("BODY2", tx, fate)) return pos;
            bodyBytes++;
        }
        content += *q;
        pos++;
        if (mPhase == kHeader && *q == '\n' && content.size() >= 2
                && (content.size() == 2 || content.compare(content.size() - 2, 2, "\n\n") == 0
                    || (content.size() >= 3 && content.compare(content.size() - 3, 3, "\n\r\n") == 0))) {
            mPhase = kBody;
            bodyBytes = 0;
        }
    }
    return n;
}

void Server::endOfData(bool tls) {
    mPhase = kCommand;
    buf.clear();
    mailOk = false;
    rcptOk = 0;
    say('c', ".");
    json d = scn.describe(content);
    emit({{"e", "data"}, {"n", c.n}, {"tls", tls}, {"i", tx}, {"m", d}});
    react("EOD", tx, 250, "queued");
}

// ---------------------------------------------------------------- commands
void Server::emitCmd(const std::string &v, int i, const std::string &a, const std::string &x, const std::string &t, bool tls) {
    say(v.compare(0, 4, "AUTH") == 0 ? 'x' : 'c', t);
    emit({{"e", "cmd"}, {"n", c.n}, {"tls", tls}, {"v", v}, {"i", i}, {"a", scn.safe(a)}, {"x", scn.safe(x, 40000)}});
}

static std::string showCreds(const std::string &u, const std::string &p) { return u + "/" + p; }

void Server::line(const std::string &l, bool tls) {
    std::string st = stepOf(l);
    int i = ++count[st];
    if (mPhase == kAuthUser) {
        std::string u;
        if (!b64decode(l, u, false)) u = "?";
        authUser = u;
        emitCmd("AUTHU", i, authMech, u, l, tls);
        mPhase = kCommand;
        if (react("AUTHU", i, 334, "UGFzc3dvcmQ6")) mPhase = kAuthPass;
        return;
    }
    if (mPhase == kAuthPass) {
        std::string u;
        if (!b64decode(l, u, false)) u = "?";
        emitCmd("AUTHP", i, authMech, showCreds(authUser, u), l, tls);
        mPhase = kCommand;
        react("AUTHP", i, 235, "welcome");
        return;
    }
    std::string rest = l.size() > 5 ? l.substr(5) : "";
    if (st == "EHLO" || st == "EHLO2") {
        emitCmd(st, i, "", "", l, tls);
        if (react(st, i, 250, "")) { helo = true; mailOk = false; rcptOk = 0; }
    } else if (st == "STARTTLS") {
        emitCmd(st, i, "", "", l, tls);
        if (react(st, i, 220, "go ahead", !helo || mMode == kTls)) { mMode = kTlsPending; buf.clear(); }
    } else if (st == "AUTH" || mPhase == kAuthInit) {
        std::string mech, initial;
        if (mPhase == kAuthInit) { mech = authMech; initial = l; mPhase = kCommand; }
        else {
            size_t sp = rest.find(' ');
            mech = upper(rest.substr(0, sp));
            initial = sp == std::string::npos ? "" : rest.substr(sp + 1);
        }
        authMech = mech;
        std::string d, x = "?";
        if (initial.empty() && mech == "LOGIN") {
            emitCmd("AUTH", i, mech, "", l, tls);
            if (react("AUTH", i, 334, "VXNlcm5hbWU6", !helo)) mPhase = kAuthUser;
            return;
        }
        if (initial.empty()) {
            emitCmd("AUTH", i, mech, "", l, tls);
            if (react("AUTH", i, 334, "", !helo)) mPhase = kAuthInit;
            return;
        }
        if (b64decode(initial, d, false)) {
            if (mech == "PLAIN") {
                size_t a = d.find('\0'), b = a == std::string::npos ? a : d.find('\0', a + 1);
                if (b != std::string::npos && d.find('\0', b + 1) == std::string::npos && (a == 0)) x = showCreds(d.substr(a + 1, b - a - 1), d.substr(b + 1));
            } else if (mech == "XOAUTH2") {
                const std::string A = "user=", M = "\001auth=Bearer ", Z = "\001\001";
                size_t m = d.find(M);
                if (starts(d, A) && m != std::string::npos && d.size() >= m + M.size() + Z.size()
                        && d.compare(d.size() - 2, 2, Z) == 0) {
                    x = showCreds(d.substr(A.size(), m - A.size()), d.substr(m + M.size(), d.size() - 2 - m - M.size()));
                }
            } else if (mech == "LOGIN") {
                authUser = d;
                emitCmd("AUTHU", i, mech, d, l, tls);
                if (react("AUTH", i, 334, "UGFzc3dvcmQ6", !helo)) mPhase = kAuthPass;
                return;
            }
        }
        emitCmd("AUTH", i, mech, x, l, tls);
        react("AUTH", i, 235, "welcome", !helo);
    } else if (st == "MAIL" || st == "RCPT") {
        std::string a, x = "?";
        size_t colon = l.find(':');
        std::string arg = colon == std::string::npos ? "" : l.substr(colon + 1);
        bool shape = upper(l.substr(0, colon)) == (st == "MAIL" ? "MAIL FROM" : "RCPT TO");
        while (!arg.empty() && arg[0] == ' ') arg.erase(0, 1);
        if (shape && !arg.empty() && arg[0] == '<' && arg.back() == '>') {
            a = arg.substr(1, arg.size() - 2);
            size_t sp = a.rfind(' ');
            x = "1";
            if (sp != std::string::npos) { a = a.substr(sp + 1); x = "2"; }
        } else if (shape) {
            a = arg;
            x = "3";
        }
        emitCmd(st, i, a, x, l, tls);
        if (st == "MAIL") {
            if (react(st, i, 250, "sender ok", !helo || mailOk)) { mailOk = true; rcptOk = 0; }
        } else {
            if (react(st, i, 250, "recipient ok", !mailOk)) rcptOk++;
        }
    } else if (st == "DATA") {
        emitCmd(st, i, "", "", l, tls);
        if (react(st, i, 354, "end with a dot", !mailOk || rcptOk == 0)) {
            mPhase = kHeader;
            content.clear();
            bodyBytes = 0;
            tx++;
        }
    } else if (st == "QUIT") {
        emitCmd(st, i, "", "", l, tls);
        react(st, i, 221, "bye");
        if (!mOver) vnet::finish(c, vnet::now, false);
        mOver = true;
    } else if (st == "RSET" || st == "NOOP") {
        emitCmd(st, i, "", "", l, tls);
        if (react(st, i, 250, "ok") && st == "RSET") { mailOk = false; rcptOk = 0; }
    } else {
        emitCmd("?", i, "", "", l, tls);
        react("?", i, 0, "");
    }
}

// true: the step was answered with its success code
bool Server::react(const std::string &st, int i, int okCode, const std::string &okText, bool badSequence) {
    if (st == "?") { reply(st, i, 500, "500 unrecognized\r\n", json::object()); return false; }
    // DATA increments its own counter once accepted; H:/BODY/EOD use it
    json r = reaction(st, i);
    std::string k = r.at("k");
    if (k == "silent") return false;
    if (k == "eof" || k == "rst") { vnet::finish(c, vnet::now, k == "rst"); mOver = true; return false; }
    int code = r.value("c", okCode);
    std::string text;
    if (badSequence && code == okCode) {
        code = 503;
        emit({{"e", "anom"}, {"k", "bad-sequence-" + st}});
        text = "503 bad sequence\r\n";
    } else if (r.contains("text")) {
        text = bytesOf(r["text"]);
    } else if (code == okCode && (st == "EHLO" || st == "EHLO2")) {
        text = capsText(st == "EHLO2");
    } else {
        std::string t = code == okCode ? okText : "no";
        if (t.empty()) t = "ok";
        int multi = r.value("multi", 0);
        for (int j = 0; j < multi; j++) text += std::to_string(code) + "-line " + std::to_string(j) + "\r\n";
        text += std::to_string(code) + " " + t;
        int L = r.value("len", 0);
        while (static_cast<int>(text.size()) + 2 < L) text += static_cast<char>('a' + text.size() % 26);
        text += "\r\n";
    }
    reply(st, i, code, text, r);
    return code == okCode;
}

void Server::reply(const std::string &st, int i, int code, const std::string &text, const json &r) {
    emit({{"e", "rep"}, {"n", c.n}, {"s", st}, {"i", i}, {"c", code}});
    if (!text.empty()) {
        replies.push_back(text);
        transmit(text, r, static_cast<int>(replies.size()) - 1);
    }
    std::string then = r.value("then", "");
    if (then == "eof" || then == "rst") {
        vnet::usec t = vnet::now;
        vnet::finish(c, t, then == "rst");
        if (!r.contains("dms") && !r.contains("gapms")) mOver = true;
    }
}

void Server::transmit(const std::string &text, const json &r, int replyIdx) {
    vnet::usec t = vnet::now + delayOf(r);
    vnet::usec gap = r.value("gapms", 0) * (SEC / 1000);
    std::vector<size_t> cuts;
    if (r.contains("cut")) for (auto &x : r["cut"]) cuts.push_back(x.get<size_t>());
    if (r.contains("every")) for (size_t x = r["every"].get<size_t>(); x < text.size(); x += r["every"].get<size_t>()) cuts.push_back(x);
    std::sort(cuts.begin(), cuts.end());
    std::vector<std::string> segs;
    size_t from = 0;
    for (size_t x : cuts) if (x > from && x < text.size()) { segs.push_back(text.substr(from, x - from)); from = x; }
    segs.push_back(text.substr(from));
    for (size_t j = 0; j < segs.size(); j++) {
        int idx = j + 1 == segs.size() ? replyIdx : -1;
        if (mMode == kTls) {
            SSL_write(ssl, segs[j].data(), static_cast<int>(segs[j].size()));
            if (r.contains("rawcut")) {        // split the encrypted bytes as well
                char tmp[65536];
                int got = BIO_read(wbio, tmp, sizeof tmp);
                int at = std::min(got, r["rawcut"].get<int>());
                if (at > 0) vnet::push(c, t, std::string(tmp, static_cast<size_t>(at)), at == got ? idx : -1);
                t += gap;
                if (got > at) vnet::push(c, t, std::string(tmp + at, static_cast<size_t>(got - at)), idx);
            } else {
                flushTls(t, idx);
            }
        } else {
            vnet::push(c, t, segs[j], idx);
        }
        t += gap;
    }
}

void Server::delivered(int reply) {
    say('s', replies[static_cast<size_t>(reply)]);
}

void Server::lostBytes(const char *p, size_t n) {
    if (mMode != kClear || mPhase == kBody) return;
    clear.append(p, n);
    std::string s(p, n);
    size_t pos;
    while ((pos = s.find("\r\n")) != std::string::npos) {
        say('l', s.substr(0, pos));
        s.erase(0, pos + 2);
    }
}

void Server::clientClosed() {
    if (mPhase == kHeader || mPhase == kBody) {
        if (!content.empty()) emit({{"e", "cutdata"}, {"n", c.n}, {"i", tx}});
    }
    emit({{"e", "clear"}, {"n", c.n}, {"k", scn.taints(clear)}});
}
