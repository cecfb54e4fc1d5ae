// Support for the verification wrappers: moving words in and out of the library's types.
#ifndef vw_hpp
#define vw_hpp
#include <stdint.h>
#include <cassert>
namespace vw {
typedef unsigned __int128 u128;
template<int W, bool BIG=(W>64)> struct io;
template<int W> struct io<W,false>{
  static const int words=1;
  static thls::fw_uint<W> ld(const uint64_t*p){ typedef typename thls::fw_uint<W>::bits_t b; return thls::fw_uint<W>::from_bits(b(p[0])); }
  static void st(uint64_t*p,const thls::fw_uint<W>&x){ p[0]=(uint64_t)x.bits; }
};
template<int W> struct io<W,true>{
  static const int words=2;
  static thls::fw_uint<W> ld(const uint64_t*p){ return thls::fw_uint<W>::from_bits((u128(p[1])<<64)|u128(p[0])); }
  static void st(uint64_t*p,const thls::fw_uint<W>&x){ p[0]=(uint64_t)x.bits; p[1]=(uint64_t)(x.bits>>64); }
};
template<int W> inline thls::fw_uint<W> ld(const uint64_t*p){ return io<W>::ld(p); }
template<int W> inline void st(uint64_t*p,const thls::fw_uint<W>&x){ io<W>::st(p,x); }
}
#endif
