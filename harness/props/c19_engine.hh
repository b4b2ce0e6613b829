// Operations and results in plain types, the same for every build configuration.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
namespace neutral {
typedef std::vector<std::string> Texts;
struct Op {
    int kind;
    int a, b, e;                        // small numbers: costs, indices, flags
    uint64_t id;
    double d;
    uint32_t l1, l2;
    std::string s, t;                   // UTF-8 text, maybe malformed
    Texts ws, ws2;
    Op() : kind(0), a(0), b(0), e(0), id(0), d(0), l1(0), l2(0) {}
};
enum Kind { WORD, SPLIT, COMPARE, JOIN, BUFFER, STORE_ID, STORE_HAS, STORE_WORD, INSERT, FIND, COUNT, COST, GETCOST, CLEAR, DOC, FIELD, INDEX, MATCH, MATCH_FILTERED, ONLINE, WEIGHT, RESULT, KINDS };
struct Out {
    std::string text;                   // exact
    std::map<uint64_t, double> rel;     // compared with a tolerance
};
}
