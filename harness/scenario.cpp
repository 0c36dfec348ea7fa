#include "scenario.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iterator>
#include <sys/stat.h>
#include <unistd.h>

static const char *HEX = "0123456789abcdef";

static std::string lowered(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
std::string Scenario::safe(const std::string &s, size_t max) {
    std::string r;
    for (char ch : s) {
        unsigned char u = static_cast<unsigned char>(ch);
        if (u >= 32 && u < 127) r += ch;
        else { r += "%"; r += HEX[u >> 4]; r += HEX[u & 15]; }
    }
    if (r.size() > max) {
        unsigned h = 2166136261u;
        for (char ch : s) h = (h ^ static_cast<unsigned char>(ch)) * 16777619u;
        char tmp[40];
        snprintf(tmp, sizeof tmp, "#%zu:%08x", s.size(), h);
        r = r.substr(0, 40) + tmp;
    }
    return r;
}

std::string textOf(const json &v) {
    if (v.is_string()) return v.get<std::string>();
    std::string s;
    if (v.is_array()) {
        for (auto &b : v) {
            if (b.is_number()) s += static_cast<char>(b.get<int>());
            else s += textOf(b);
        }
    } else if (v.is_object()) {            // {n: times, s: text}
        std::string t = textOf(v.at("s"));
        for (int i = v.at("n"); i > 0; i--) s += t;
    }
    return s;
}

// Texts of credentials may have bytes as %XX
std::string credText(const json &v) {
    std::string s = textOf(v), r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] == '%' && i + 2 < s.size() && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) { r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2; }
        else r += s[i];
    }
    return r;
}
static AddrDef addrOf(const json &v) { return AddrDef{textOf(v.at("a")), textOf(v.at("d"))}; }

static std::string generate(const std::string &mode, size_t len) {
    std::string s(len, '\0');
    unsigned x = 12345u + static_cast<unsigned>(len);
    for (size_t i = 0; i < len; i++) {
        if (mode == "ramp") s[i] = static_cast<char>((i * 7 + 3) & 255);
        else if (mode == "ff") s[i] = static_cast<char>(255);
        else if (mode == "zero") s[i] = 0;
        else if (mode == "crlf") s[i] = "\r\n.\r\n--sep\r\n"[i % 12];
        else if (mode == "text") s[i] = static_cast<char>('a' + i % 26);
        else if (mode == "inc") s[i] = static_cast<char>(i & 255);
        else { x = x * 1664525u + 1013904223u; s[i] = static_cast<char>(x >> 24); }
    }
    return s;
}

void Scenario::load(const json &d) {
    def = d;
    wire = d.value("wire", false);
    for (auto &h : d.value("hosts", json::array())) {
        Host x;
        x.forced = h.value("forced", false);
        for (auto &s : h.value("caps1", json::array())) x.caps1.push_back(textOf(s));
        for (auto &s : h.value("caps2", json::array())) x.caps2.push_back(textOf(s));
        hosts[h.at("name")] = x;
    }
    for (auto &s : d.value("script", json::array())) {
        std::vector<json> v;
        for (auto &r : s) v.push_back(r);
        script.push_back(v);
    }
    auto add = [this](const std::string &kind, const std::string &s) {
        // too short, or a word that is in every log
        static const std::string words = "AUTH PLAIN AUTH LOGIN AUTH XOAUTH2 XOauth 2 *************** ehlo localhost STARTTLS QUIT DATA";
        if (s.size() >= 3 && lowered(words).find(lowered(s)) == std::string::npos) secrets[kind].push_back(s);
    };
    for (auto &m : d.value("msgs", json::array())) {
        MsgDef x;
        x.id = m.at("id");
        x.kind = m.value("kind", "plain");
        x.iface = m.value("if", "c");
        x.given = m.value("given", false);
        x.from = addrOf(m.at("from"));
        for (auto &a : m.at("to")) x.to.push_back(addrOf(a));
        for (auto &a : m.at("cc")) x.cc.push_back(addrOf(a));
        for (auto &a : m.at("bcc")) x.bcc.push_back(addrOf(a));
        x.subj = textOf(m.at("subj"));
        x.body = textOf(m.at("body"));
        int i = 0;
        for (auto &a : m.at("att")) {
            AttDef t;
            t.name = textOf(a.at("name"));
            t.cid = textOf(a.at("cid"));
            t.file = textOf(a.at("file"));
            t.data = a.contains("data") ? textOf(a["data"]) : generate(a.value("mode", "ramp"), a.value("len", 0));
            t.path = dir + "/" + x.id + "_" + std::to_string(++i) + "_" + t.file;
            const std::string mode = a.value("mode", "");
            if (mode == "dir") {
                mkdir(t.path.c_str(), 0700);
            } else if (mode == "system") {          // a file whose size is not known in advance
                const char *system = "/proc/version";
                std::ifstream in(system, std::ios::binary);
                t.data.assign(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
                if (symlink(system, t.path.c_str()) != 0) perror("symlink");
            } else if (mode != "missing") {
                std::ofstream o(t.path, std::ios::binary);
                o.write(t.data.data(), static_cast<std::streamsize>(t.data.size()));
            }
            x.att.push_back(t);
        }
        msgOrder.push_back(x.id);
        add("from", x.from.a);
        for (auto &a : x.to) add("rcpt", a.a);
        for (auto &a : x.cc) add("rcpt", a.a);
        for (auto &a : x.bcc) { add("rcpt", a.a); add("bcc", a.a); add("bcc", a.d); }
        if (x.subj.size() >= 4) add("subj", x.subj);
        if (x.body.size() >= 8) add("body", x.body.substr(0, 40));
        msgs[x.id] = x;
    }
    for (auto &op : d.at("ops")) {
        if (op.value("op", "") == "set" && op.value("f", "") == "cred" && op["v"].is_object()) {
            std::string u = credText(op["v"]["u"]), p = credText(op["v"]["p"]);
            add("user", u);
            add("pw", p);
            add("user", b64encode(u));
            if (u.size() >= 6) notInLog.push_back(b64encode(u));
            add("pw", b64encode(p));
            add("pw", b64encode(std::string("\0", 1) + u + std::string("\0", 1) + p));
            add("pw", b64encode("user=" + u + "\001auth=Bearer " + p + "\001\001"));
        }
    }
}

json Scenario::taints(const std::string &bytes) const {
    json r = json::array();
    if (!bytes.empty()) r.push_back("raw");
    for (auto &k : secrets) {
        for (auto &s : k.second) if (bytes.find(s) != std::string::npos) { r.push_back(k.first); break; }
    }
    return r;
}

// ---------------------------------------------------------------- receiver
namespace {
std::string lower(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c + 32); return s; }
std::string trim(const std::string &s) {
    size_t a = s.find_first_not_of(" \t"), b = s.find_last_not_of(" \t");
    return a == std::string::npos ? "" : s.substr(a, b - a + 1);
}
struct Headers {
    std::vector<std::pair<std::string, std::string>> h;
    std::string get(const std::string &n) const {
        for (auto &p : h) if (lower(p.first) == lower(n)) return p.second;
        return "";
    }
    json names() const { json r = json::array(); for (auto &p : h) r.push_back(Scenario::safe(p.first, 60)); return r; }
};
// Splits "headers CRLF CRLF rest"; any LF ends a header line
Headers parseHeaders(const std::string &s, std::string &rest, bool &bareBreak) {
    Headers r;
    size_t pos = 0;
    for (;;) {
        size_t nl = s.find('\n', pos);
        if (nl == std::string::npos) { rest = ""; if (pos < s.size()) r.h.push_back({"?" + s.substr(pos), ""}); return r; }
        std::string l = s.substr(pos, nl - pos);
        pos = nl + 1;
        if (!l.empty() && l.back() == '\r') l.pop_back(); else bareBreak = true;
        if (l.find('\r') != std::string::npos) bareBreak = true;
        if (l.empty()) { rest = s.substr(pos); return r; }
        if ((l[0] == ' ' || l[0] == '\t') && !r.h.empty()) { r.h.back().second += l; continue; }
        size_t colon = l.find(':');
        if (colon == std::string::npos) { r.h.push_back({"?" + l, ""}); continue; }
        std::string v = l.substr(colon + 1);
        if (!v.empty() && v[0] == ' ') v.erase(0, 1);
        r.h.push_back({l.substr(0, colon), v});
    }
}
json addresses(const std::string &v) {
    json r = json::array();
    size_t pos = 0;
    while (pos <= v.size()) {
        size_t c = v.find(',', pos);
        std::string one = trim(v.substr(pos, c == std::string::npos ? c : c - pos));
        std::string a = one, d;
        if (!one.empty() && one.back() == '>') {
            size_t lt = one.rfind('<');
            if (lt != std::string::npos) { a = one.substr(lt + 1, one.size() - lt - 2); d = lt > 0 ? one.substr(0, lt) : ""; if (!d.empty() && d.back() == ' ') d.pop_back(); }
        }
        r.push_back({{"a", Scenario::safe(a)}, {"d", Scenario::safe(d)}});
        if (c == std::string::npos) break;
        pos = c + 1;
    }
    return r;
}
// value; name="quoted\"text"; name=token
std::string param(const std::string &v, const std::string &name) {
    size_t pos = v.find(';');
    while (pos != std::string::npos && pos < v.size()) {
        pos++;
        while (pos < v.size() && (v[pos] == ' ' || v[pos] == '\t')) pos++;
        size_t eq = v.find('=', pos);
        if (eq == std::string::npos) return "";
        std::string n = lower(trim(v.substr(pos, eq - pos)));
        std::string val;
        pos = eq + 1;
        if (pos < v.size() && v[pos] == '"') {
            for (pos++; pos < v.size() && v[pos] != '"'; pos++) {
                if (v[pos] == '\\' && pos + 1 < v.size()) pos++;
                val += v[pos];
            }
            pos = v.find(';', pos);
        } else {
            size_t e = v.find(';', pos);
            val = trim(v.substr(pos, e == std::string::npos ? e : e - pos));
            pos = e;
        }
        if (n == name) return val;
    }
    return "";
}
std::string mainValue(const std::string &v) { return trim(v.substr(0, v.find(';'))); }
}  // namespace

json Scenario::describe(const std::string &content) const {
    // transparency: a line that begins with a dot loses it
    std::string c;
    for (size_t i = 0; i < content.size(); i++) {
        if (content[i] == '.' && (i == 0 || (i >= 2 && content[i - 1] == '\n' && content[i - 2] == '\r'))) continue;
        c += content[i];
    }
    json m;
    bool bare = false;
    std::string rest;
    Headers H = parseHeaders(c, rest, bare);
    m["headers"] = H.names();
    m["bare"] = bare;
    json from = addresses(H.get("From"));
    m["from"] = from.empty() ? json{{"a", ""}, {"d", ""}} : from[0];
    m["nfrom"] = from.size();
    std::string to = H.get("To"), cc = H.get("Cc");
    m["to"] = to.empty() ? json::array() : addresses(to);
    m["cc"] = cc.empty() ? json::array() : addresses(cc);
    m["subj"] = safe(H.get("Subject"));
    m["subjof"] = json::array();
    for (auto &id : msgOrder) if (msgs.at(id).subj == H.get("Subject")) m["subjof"].push_back(id);
    std::string ct = H.get("Content-Type"), boundary = param(ct, "boundary");
    // parts
    struct Part { std::string text; bool last; };
    std::vector<Part> parts;
    bool multipart = lower(mainValue(ct)).compare(0, 10, "multipart/") == 0 && !boundary.empty();
    bool closed = false;
    if (multipart) {
        std::string delim = "--" + boundary, s = "\r\n" + rest;
        size_t at = s.find("\r\n" + delim);
        bool lead = at != std::string::npos;
        while (lead) {
            // RFC 2046: it is enough that the line begins with the delimiter
            size_t after = at + 2 + delim.size();
            if (s.compare(after, 2, "--") == 0) { closed = true; break; }
            size_t eol = s.find("\r\n", after);
            if (eol == std::string::npos) break;
            size_t begin = eol + 2;
            size_t next = s.find("\r\n" + delim, eol);
            parts.push_back({next == std::string::npos ? s.substr(begin) : (next >= begin ? s.substr(begin, next - begin) : ""), next == std::string::npos});
            at = next;
            lead = at != std::string::npos;
        }
    }
    m["closed"] = closed;
    m["nparts"] = parts.size();
    m["mime"] = "";
    m["charset"] = "";
    m["body"] = "?";
    m["tail"] = -1;
    m["att"] = json::array();
    json phdr = json::array();
    for (size_t i = 0; i < parts.size(); i++) {
        std::string text;
        bool pbare = false;
        Headers P = parseHeaders(parts[i].text, text, pbare);
        if (pbare) m["bare"] = true;
        phdr.push_back(P.names());
        if (i == 0) {
            m["mime"] = safe(mainValue(P.get("Content-Type")));
            m["charset"] = safe(lower(param(P.get("Content-Type"), "charset")));
            std::string got = "?" + safe(text, 60);
            // the part may end with line breaks of the framing
            for (auto &id : msgOrder) {
                const std::string &b = msgs.at(id).body;
                if (text.compare(0, b.size(), b) != 0) continue;
                std::string tail = text.substr(b.size());
                if (tail == "" || tail == "\r\n" || (parts[i].last && tail == "\r\n\r\n")) { got = "=" + id; m["tail"] = tail.size(); break; }
            }
            m["body"] = got;
        } else {
            json a;
            std::string cte = lower(P.get("Content-Transfer-Encoding")), data;
            a["mime"] = safe(mainValue(P.get("Content-Type")));
            a["file"] = safe(param(P.get("Content-Type"), "file"));
            std::string disp = P.get("Content-Disposition");
            a["disp"] = safe(lower(mainValue(disp)));
            a["name"] = safe(param(disp, "filename"));
            a["cid"] = safe(P.get("Content-ID"));
            a["xid"] = safe(P.get("X-Attachment-Id"));
            bool ok = cte == "base64" && b64decode(text, data, true);
            std::string got = ok ? "?" + std::to_string(data.size()) : "?undecodable";
            if (ok) {
                for (auto &id : msgOrder) {
                    auto &as = msgs.at(id).att;
                    // prefer the attachment of the same position
                    if (i - 1 < as.size() && as[i - 1].data == data) { got = "=" + id + "." + std::to_string(i); break; }
                    for (size_t k = 0; k < as.size() && got[0] != '='; k++) if (as[k].data == data) got = "=" + id + "." + std::to_string(k + 1);
                    if (got[0] == '=') break;
                }
            }
            a["data"] = got;
            m["att"].push_back(a);
        }
    }
    m["phdr"] = phdr;
    // the hidden recipients of this message, unless it names them elsewhere
    m["bcc"] = false;
    std::string body = m["body"];
    for (auto &id : msgOrder) {
        if (body[0] == '=' && body != "=" + id) continue;
        const MsgDef &d = msgs.at(id);
        std::string visible = d.subj + "\n" + d.body;
        std::vector<AddrDef> shown = d.to;
        shown.push_back(d.from);
        shown.insert(shown.end(), d.cc.begin(), d.cc.end());
        for (auto &a : shown) visible += "\n" + a.a + "\n" + a.d;
        for (auto &a : d.att) visible += "\n" + a.name + "\n" + a.cid;
        for (auto &a : d.bcc) {
            for (const std::string &s : {a.a, a.d}) {
                if (s.size() >= 3 && visible.find(s) == std::string::npos && content.find(s) != std::string::npos) m["bcc"] = true;
            }
        }
    }
    if (wire) {
        json w = json::array();
        for (char ch : content) w.push_back(static_cast<int>(static_cast<unsigned char>(ch)));
        m["w"] = w;
    }
    return m;
}
