// Harness protocol: every entry takes an array of buffers and an array of
// integers.  Under VP_IR the entries are what the symbolic executor starts
// from; otherwise they are registered with the native replay driver.
#ifndef VP_H_
#define VP_H_
#include <cstddef>
#include <cstdint>
typedef unsigned char vp_byte;
#ifdef VP_IR
#define VP_ENTRY(name) \
  extern "C" __attribute__((used)) void name(vp_byte** B, const std::int64_t* V)
#else
typedef void (*vp_fn)(vp_byte**, const std::int64_t*);
void vp_register(const char* name, vp_fn f);
#define VP_ENTRY(name)                                       \
  extern "C" void name(vp_byte** B, const std::int64_t* V);  \
  static struct vp_reg_##name {                              \
    vp_reg_##name() { vp_register(#name, &name); }           \
  } vp_reg_inst_##name;                                      \
  extern "C" void name(vp_byte** B, const std::int64_t* V)
#endif
extern "C" void vp_log(int tag, long a, long b);
#endif
