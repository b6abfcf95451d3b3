/* included before cglm: hide the host's SIMD so that cglm selects another backend */
#undef __SSE__
#undef __SSE2__
#undef __SSE3__
#undef __SSE4_1__
#undef __SSE4_2__
#undef __AVX__
#undef __AVX2__
#undef __FMA__
#undef __AVX512F__
#if defined(CGLMV_NEON32) || defined(CGLMV_NEON64)
#  define __ARM_NEON 1
#  define __ARM_NEON_FP 4
#  define __ARM_FP 4
#  ifdef CGLMV_NEON64
#    define __aarch64__ 1
#  endif
#endif
#ifdef CGLMV_WASM
#  define __wasm__ 1
#  define __wasm_simd128__ 1
#endif
