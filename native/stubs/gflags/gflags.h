#pragma once
#define DEFINE_string(n, d, h) std::string FLAGS_##n = d
#define DEFINE_int32(n, d, h) int FLAGS_##n = d
#define DEFINE_bool(n, d, h) bool FLAGS_##n = d
#define DEFINE_double(n, d, h) double FLAGS_##n = d
