// Stand-in for the declarations of the absent sundown submodule; only declared, never called by verified code.
#ifndef VX_STUB_MARKDOWN_H
#define VX_STUB_MARKDOWN_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct buf { uint8_t* data; size_t size; size_t asize; size_t unit; };
enum mkd_autolink { MKDA_NOT_AUTOLINK, MKDA_NORMAL, MKDA_EMAIL };
struct sd_callbacks { void* fn[40]; };
struct sd_markdown;
struct src_map; struct src_range;
#ifdef __cplusplus
}
#endif
#endif
