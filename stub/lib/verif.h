// Linked into every rendered test header: functions report that they were
// called, and with which operands, to the recording stand-in for pybind11.
#pragma once
namespace verif {
struct Hit {
  int id;
  int count;
  int ops[8];
};
inline Hit g_hit = {0, 0, {}};
inline const volatile char *g_args[16] = {};
inline unsigned long g_sizes[16] = {};
template <class T> int peek(const T &value) {
  // Operand identity: the address of the k-th argument, or (for copies) its
  // content, as the recorder fills the k-th argument with bytes k*0x11.
  for (int k = 1; k < 16; ++k)
    if (g_args[k] == &reinterpret_cast<const volatile char &>(value))
      return k;
  // The operand may also be a base class subobject.
  if constexpr (__is_class(T))
    for (int k = 1; k < 16; ++k) {
      const volatile char *at = &reinterpret_cast<const volatile char &>(value);
      if (g_args[k] && at > g_args[k] && at < g_args[k] + g_sizes[k])
        return k;
    }
  if constexpr (__is_trivially_copyable(T))
    return reinterpret_cast<const unsigned char &>(value) / 0x11;
  else
    return 0;
}
template <class... Args> void hit(int id, const Args &...args) {
  g_hit.id = id;
  g_hit.count = 0;
  (void)((g_hit.ops[g_hit.count++] = peek(args)), ...);
}
template <class T> T &make() {
  alignas(T) static unsigned char storage[sizeof(T)] = {};
  return reinterpret_cast<T &>(storage);
}
void note(int id);
using plain = int;
using constant = const int;
template <class T> using Same = T;
template <class T, class U> struct Two {
  T *first;
  U *second;
};
} // namespace verif
