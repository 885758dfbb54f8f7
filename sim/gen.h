#pragma once
#include "model.h"
enum { PAIR_NONE = 0, PAIR_BITS, PAIR_NUM, PAIR_KEY, PAIR_GROUP };
struct Case { std::string prop; std::vector<Scenario> runs; int pair = 0; int adapt = 0; int color = -1; bool lenient_threads = false; };
Case gen_case(const std::string &prop, uint64_t seed, bool thorough);
extern const char *all_props[];
std::string ser(const Scenario &s); bool deser(std::istream &in, Scenario &s);
