/* Stand-in for the parts of yyjson that /repo/src/middleware.c uses. The real library is an empty submodule here.
 * Parsing, merging (RFC 7386) and writing are done by nlohmann::json in yyjson_shim.cpp. */
#ifndef YYJSON_SHIM_H
#define YYJSON_SHIM_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef uint32_t yyjson_read_flag;
typedef uint32_t yyjson_write_flag;
typedef uint32_t yyjson_read_code;
typedef uint32_t yyjson_write_code;
#define YYJSON_READ_NOFLAG 0u
#define YYJSON_READ_INSITU 1u
#define YYJSON_READ_STOP_WHEN_DONE 2u
#define YYJSON_READ_ALLOW_TRAILING_COMMAS 4u
#define YYJSON_READ_ALLOW_COMMENTS 8u
#define YYJSON_READ_ALLOW_INF_AND_NAN 16u
#define YYJSON_WRITE_NOFLAG 0u
#define YYJSON_WRITE_PRETTY 1u
#define YYJSON_WRITE_ESCAPE_UNICODE 2u
#define YYJSON_WRITE_ESCAPE_SLASHES 4u
#define YYJSON_WRITE_ALLOW_INF_AND_NAN 8u
typedef struct yyjson_alc { void* ctx; char* buf; size_t size; size_t used; } yyjson_alc;
typedef struct yyjson_val yyjson_val;
typedef struct yyjson_mut_val yyjson_mut_val;
typedef struct yyjson_doc { yyjson_val* root; const yyjson_alc* alc; size_t dat_read; size_t val_read; } yyjson_doc;
typedef struct yyjson_mut_doc { yyjson_mut_val* root; } yyjson_mut_doc;
typedef struct yyjson_read_err { yyjson_read_code code; const char* msg; size_t pos; } yyjson_read_err;
typedef struct yyjson_write_err { yyjson_write_code code; const char* msg; } yyjson_write_err;
size_t yyjson_read_max_memory_usage(size_t len, yyjson_read_flag flg);
bool yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size);
yyjson_doc* yyjson_read_opts(char* dat, size_t len, yyjson_read_flag flg, const yyjson_alc* alc, yyjson_read_err* err);
yyjson_doc* yyjson_read(const char* dat, size_t len, yyjson_read_flag flg);
void yyjson_doc_free(yyjson_doc* doc);
yyjson_val* yyjson_doc_get_root(yyjson_doc* doc);
yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc* alc);
void yyjson_mut_doc_set_root(yyjson_mut_doc* doc, yyjson_mut_val* root);
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc* doc, yyjson_val* orig, yyjson_val* patch);
char* yyjson_mut_write_opts(const yyjson_mut_doc* doc, yyjson_write_flag flg, const yyjson_alc* alc, size_t* len, yyjson_write_err* err);
void yyjson_mut_doc_free(yyjson_mut_doc* doc);
#ifdef __cplusplus
}
#endif
#endif
