#include "yyjson.h"
#include <stdlib.h>
#include <string.h>
#include <nlohmann/json.hpp>

using json = nlohmann::json;
struct yyjson_val { json j; };
struct yyjson_mut_val { json j; };

static char failmsg[] = "malformed document";

extern "C" {
size_t yyjson_read_max_memory_usage(size_t len, yyjson_read_flag) { return len * 12 + 256; }
bool yyjson_alc_pool_init(yyjson_alc* alc, void* buf, size_t size) {
  alc->ctx = alc;
  alc->buf = (char*)buf;
  alc->size = size;
  alc->used = 0;
  return true;
}
yyjson_doc* yyjson_read_opts(char* dat, size_t len, yyjson_read_flag, const yyjson_alc* alc, yyjson_read_err* err) {
  yyjson_read_err dummy;
  if (!err) err = &dummy;
  memset(err, 0, sizeof *err);
  json j = len ? json::parse(dat, dat + len, nullptr, false, true) : json(json::value_t::discarded);
  if (j.is_discarded()) {
    err->code = 1;
    err->msg = failmsg;
    return nullptr;
  }
  yyjson_doc* d = (yyjson_doc*)calloc(1, sizeof *d);
  d->root = new yyjson_val{std::move(j)};
  d->alc = alc;
  d->dat_read = len;
  return d;
}
yyjson_doc* yyjson_read(const char* dat, size_t len, yyjson_read_flag flg) { return yyjson_read_opts((char*)dat, len, flg, NULL, NULL); }
void yyjson_doc_free(yyjson_doc* d) {
  if (!d) return;
  delete d->root;
  free(d);
}
yyjson_val* yyjson_doc_get_root(yyjson_doc* d) { return d ? d->root : NULL; }
yyjson_mut_doc* yyjson_mut_doc_new(const yyjson_alc*) { return (yyjson_mut_doc*)calloc(1, sizeof(yyjson_mut_doc)); }
void yyjson_mut_doc_set_root(yyjson_mut_doc* d, yyjson_mut_val* r) { d->root = r; }
yyjson_mut_val* yyjson_merge_patch(yyjson_mut_doc*, yyjson_val* orig, yyjson_val* patch) {
  yyjson_mut_val* v = new yyjson_mut_val{orig->j};
  v->j.merge_patch(patch->j);
  return v;
}
char* yyjson_mut_write_opts(const yyjson_mut_doc* d, yyjson_write_flag, const yyjson_alc* alc_, size_t* len, yyjson_write_err* err) {
  yyjson_write_err dummy;
  if (!err) err = &dummy;
  memset(err, 0, sizeof *err);
  if (!d->root) {
    err->code = 1;
    err->msg = failmsg;
    return NULL;
  }
  std::string s = d->root->j.dump(-1, ' ', true);
  yyjson_alc* alc = (yyjson_alc*)alc_;
  char* out;
  if (alc) {
    if (alc->used + s.size() + 1 > alc->size) {
      err->code = 2;
      err->msg = "out of memory";
      return NULL;
    }
    out = alc->buf + alc->used;
    alc->used += s.size() + 1;
  } else {
    out = (char*)malloc(s.size() + 1);
  }
  memcpy(out, s.c_str(), s.size() + 1);
  if (len) *len = s.size();
  return out;
}
void yyjson_mut_doc_free(yyjson_mut_doc* d) {
  if (!d) return;
  delete d->root;
  free(d);
}
}
