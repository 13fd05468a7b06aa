#pragma once
#include "pbt.h"
#include <string>
#include <vector>
struct record { int level; int argc; std::vector<std::pair<std::string, std::string>> kv; bool terminated; bool from_error; };
inline std::vector<record> records;
inline bool error_returns = false;
inline void capture(int level, int argc, char const* argv[][2], bool err)
{
    record r{ level, argc, { }, false, err };
    for (int i = 0; i < argc; ++i) r.kv.push_back({ argv[i][0] ? argv[i][0] : "(null)", argv[i][1] ? argv[i][1] : "(null)" });
    r.terminated = argv[argc][0] == nullptr && argv[argc][1] == nullptr;
    records.push_back(r);
}
inline std::string show(record const& r) { std::string s = pbt::fmt("level %d:", r.level); for (auto& p : r.kv) s += " {" + p.first + " = " + p.second + "}"; return s; }
