// Analysis translation unit for the integer templates: every instantiation the checks of C28 look at.
#include <functional>
#include <crab/integer_cast.hpp>

#define PAIR(T, S) template T crab::integer_cast<T, S>(const S &);
#define ONE(T)                                                                  \
	template T crab::integer_cast<T>(const char *, size_t);                     \
	template T crab::integer_cast<T, std::string>(const std::string &);         \
	template T crab::safe_add<T>(T, T);                                         \
	template T crab::safe_sub<T>(T, T);                                         \
	template crab::optional<T> crab::safe_add_opt<T>(T, T);                     \
	template crab::optional<T> crab::safe_sub_opt<T>(T, T);                     \
	PAIR(T, int8_t) PAIR(T, uint8_t) PAIR(T, int16_t) PAIR(T, uint16_t)         \
	PAIR(T, int32_t) PAIR(T, uint32_t) PAIR(T, int64_t) PAIR(T, uint64_t)

ONE(int8_t)
ONE(uint8_t)
ONE(int16_t)
ONE(uint16_t)
ONE(int32_t)
ONE(uint32_t)
ONE(int64_t)
ONE(uint64_t)
