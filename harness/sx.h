// Interface between a harness and either the symbolic engine or the native replayer.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
#include <vector>
extern "C" {
uint64_t sx_u64(const char *name);
uint32_t sx_u32(const char *name);
uint16_t sx_u16(const char *name);
uint8_t sx_u8(const char *name);
uint64_t sx_range(const char *name, uint64_t lo, uint64_t hi); // lo <= result <= hi
void sx_assume(int c);
void sx_assert(int c, const char *label);
void sx_reach(const char *label);
void sx_obs(uint64_t v);                                       // goes into the observation hash
uint64_t sx_param(const char *name, uint64_t def);             // bound of this run
uint64_t sx_concretize(uint64_t v);                            // one path per value
int sx_symbolic_engine(void);
int sx_is_symbolic(uint64_t v);
void sx_stop(void);
uint32_t sx_thread_create(void (*f)(void *), void *arg);       // its function never returns
void sx_thread_switch(uint32_t to);
extern size_t sx_map_slack;                                   // in-memory files keep this much room so that they can grow while mapped
void sx_debug(const char *s, uint64_t v);
const char *sx_tmp(void);                                      // an empty scratch directory
}
#define SX_STR2(x) #x
#define SX_STR(x) SX_STR2(x)
#define SX_ASSERT(c, label) sx_assert(!!(c), label)
#define SX_ASSUME(c) sx_assume(!!(c))
// several conditions judged at once without forking on each
static inline void sxObsStr(const std::string &s) { sx_obs(s.size()); for (char c : s) sx_obs((unsigned char)c); }
#define SX_ENTRY extern "C" __attribute__((noinline, used)) void
