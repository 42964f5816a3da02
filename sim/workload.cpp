#include "workload.hpp"
plan::Run make_plan(const std::string &prop, uint64_t seed) { return workload::make(prop, seed); }
