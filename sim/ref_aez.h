
#pragma once

#ifdef __cplusplus
extern "C" {
#endif

/* ------------------------------------------------------------------------- */
#if __AES__                /* Defined by gcc/clang when compiling for AES-NI */
/* ------------------------------------------------------------------------- */

#include <smmintrin.h>
#include <stdint.h>
#include <wmmintrin.h>
#define ref_block __m128i

/* ------------------------------------------------------------------------- */
#elif __ARM_FEATURE_CRYPTO
/* ------------------------------------------------------------------------- */

#include <arm_neon.h>
#define ref_block uint8x16_t

/* ------------------------------------------------------------------------- */
#else
#error - This implementation requires __AES__ or __ARM_FEATURE_CRYPTO
#endif
/* ------------------------------------------------------------------------- */

typedef struct {
    ref_block I[3];    /* 1I,2I,4I */
    ref_block J[3];    /* 1J,2J,4J */
    ref_block L;
//    ref_block delta3_cache;
} ref_aez_ctx_t;



void ref_aez_setup(const unsigned char *key, unsigned keylen, ref_aez_ctx_t *ctx);
void ref_aez_encrypt(const ref_aez_ctx_t *ctx, const char *n, unsigned nbytes,
                 unsigned abytes,
                 const char *src, unsigned bytes, char *dst);
int ref_aez_decrypt(const ref_aez_ctx_t *ctx, const char *n, unsigned nbytes,
                 unsigned abytes,
                 const char *src, unsigned bytes, char *dst);

#ifdef __cplusplus
}
#endif
