// inj_<arg>_<name>: must be one-to-one in argument number <arg>, whatever the others are
#include "parlay/random.h"
#include "parlay/utilities.h"
extern "C" {
uint64_t inj_0_hash64(uint64_t x) { return parlay::hash64(x); }
uint64_t inj_0_hash64_2(uint64_t x) { return parlay::hash64_2(x); }
uint32_t inj_0_hash32(uint32_t x) { return parlay::hash32(x); }
uint32_t inj_0_hash32_3(uint32_t x) { return parlay::hash32_3(x); }
uint64_t inj_0_hash_u64(uint64_t x) { return parlay::hash<uint64_t>{}(x); }
uint64_t inj_0_hash_i64(int64_t x) { return parlay::hash<int64_t>{}(x); }
uint64_t inj_0_hash_u32(uint32_t x) { return parlay::hash<uint32_t>{}(x); }
uint64_t inj_0_hash_i32(int32_t x) { return parlay::hash<int32_t>{}(x); }
uint64_t inj_0_hash_u8(uint8_t x) { return parlay::hash<uint8_t>{}(x); }
uint64_t inj_1_random(uint64_t s, uint64_t i) { return parlay::random(s).ith_rand(i); }
uint64_t inj_0_random(uint64_t s, uint64_t i) { return parlay::random(s).ith_rand(i); }
uint64_t inj_1_random_ix(uint64_t s, uint64_t i) { return parlay::random(s)[i]; }
uint64_t inj_1_random_fork(uint64_t s, uint64_t i) { return parlay::random(s).fork(i).ith_rand(0); }
uint64_t inj_0_random_next(uint64_t s) { return parlay::random(s).next().ith_rand(0); }
uint64_t inj_1_generator_sub(uint64_t s, uint64_t i) { parlay::random_generator g(s); auto h = g[i]; return h(); }
uint64_t inj_0_generator(uint64_t s) { parlay::random_generator g(s); return g(); }
uint64_t inj_0_generator_seed(uint64_t s) { parlay::random_generator g; g.seed(s); return g(); }
}
