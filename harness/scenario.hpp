#pragma once
#include <map>
#include <string>
#include <vector>
#include "server.hpp"

struct AddrDef { std::string a, d; };
struct AttDef { std::string file, name, cid, data, path; };
struct MsgDef {
    std::string id, kind, iface;
    AddrDef from;
    std::vector<AddrDef> to, cc, bcc;
    std::string subj, body;
    std::vector<AttDef> att;
    bool given = false;             // empty lists are given, not null
};

struct Scenario {
    json def;
    std::string dir;                                  // scratch directory of this scenario
    std::map<std::string, Host> hosts;
    std::map<std::string, MsgDef> msgs;
    std::vector<std::string> msgOrder;
    std::vector<std::vector<json>> script;            // per connection
    std::map<int, std::vector<Transcript>> transcript;   // per connection
    std::map<std::string, std::vector<std::string>> secrets;   // kind -> texts
    std::vector<std::string> notInLog;                // besides the passwords
    bool wire = false;

    void load(const json &d);
    json taints(const std::string &bytes) const;
    json describe(const std::string &content) const;  // what a receiver makes of the content
    static std::string safe(const std::string &s, size_t max = 200);
};
std::string textOf(const json &v);
std::string credText(const json &v);
