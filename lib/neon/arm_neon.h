// Portable stand-in for the NEON intrinsics, used only to replay the armv8 sources on the host.
#ifndef NEON_STANDIN
#define NEON_STANDIN
#include <stdint.h>
#include <string.h>
typedef float float32_t;
typedef float float32x4_t __attribute__((vector_size(16)));
typedef float float32x2_t __attribute__((vector_size(8)));
static inline float32x4_t vld1q_f32(const float* p) { float32x4_t r; memcpy(&r, p, 16); return r; }
static inline float32x2_t vld1_f32(const float* p) { float32x2_t r; memcpy(&r, p, 8); return r; }
static inline void vst1q_f32(float* p, float32x4_t v) { memcpy(p, &v, 16); }
static inline void vst1_f32(float* p, float32x2_t v) { memcpy(p, &v, 8); }
static inline float32x4_t vdupq_n_f32(float x) { return (float32x4_t) {x, x, x, x}; }
static inline float32x4_t vmovq_n_f32(float x) { return vdupq_n_f32(x); }
static inline float32x4_t vld1q_dup_f32(const float* p) { return vdupq_n_f32(*p); }
static inline float32x4_t vaddq_f32(float32x4_t a, float32x4_t b) { return a + b; }
static inline float32x4_t vsubq_f32(float32x4_t a, float32x4_t b) { return a - b; }
static inline float32x4_t vmulq_f32(float32x4_t a, float32x4_t b) { return a * b; }
static inline float32x4_t vmulq_n_f32(float32x4_t a, float b) { return a * vdupq_n_f32(b); }
static inline float32x4_t vmlaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { return c + a * b; }
static inline float32x4_t vmlaq_n_f32(float32x4_t c, float32x4_t a, float b) { return c + a * vdupq_n_f32(b); }
static inline float32x4_t vfmaq_f32(float32x4_t c, float32x4_t a, float32x4_t b) { float32x4_t r; for(int i = 0; i < 4; i++) r[i] = __builtin_fmaf(a[i], b[i], c[i]); return r; }
static inline float32x4_t vfmaq_n_f32(float32x4_t c, float32x4_t a, float b) { return vfmaq_f32(c, a, vdupq_n_f32(b)); }
#define vfmaq_laneq_f32(c, a, v, l) vfmaq_n_f32((c), (a), (v)[l])
#define vfmaq_lane_f32(c, a, v, l) vfmaq_n_f32((c), (a), (v)[l])
#define vgetq_lane_f32(v, l) ((v)[l])
#define vdupq_laneq_f32(v, l) vdupq_n_f32((v)[l])
static inline float32x2_t vget_low_f32(float32x4_t v) { return (float32x2_t) {v[0], v[1]}; }
static inline float32x2_t vget_high_f32(float32x4_t v) { return (float32x2_t) {v[2], v[3]}; }
static inline float32x4_t vcombine_f32(float32x2_t a, float32x2_t b) { return (float32x4_t) {a[0], a[1], b[0], b[1]}; }
#endif
