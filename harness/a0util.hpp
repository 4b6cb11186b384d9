// Helpers shared by the drivers.
#pragma once
#include <a0.h>
#include <errno.h>
#include <exception>
#include <functional>
#include <string>
#include "vtrace.hpp"

inline std::string errname(a0_err_t e) {
  switch (e) {
    case A0_OK: return "ok";
    case A0_ERR_SYS:
      switch (a0_err_syscode) {
        case EPERM: return "EPERM";
        case ESPIPE: return "ESPIPE";
        case ETIMEDOUT: return "ETIMEDOUT";
        case ESHUTDOWN: return "ESHUTDOWN";
        case EOWNERDEAD: return "EOWNERDEAD";
        case EDEADLK: return "EDEADLK";
        case EBUSY: return "EBUSY";
        case EINVAL: return "EINVAL";
        case ENOENT: return "ENOENT";
        case EBADF: return "EBADF";
        case EACCES: return "EACCES";
        case EEXIST: return "EEXIST";
        case ENOTDIR: return "ENOTDIR";
        case EAGAIN: return "EAGAIN";
        case ENOMEM: return "ENOMEM";
        default: return "SYS" + std::to_string(a0_err_syscode);
      }
    case A0_ERR_CUSTOM_MSG: return "MSG";
    case A0_ERR_INVALID_ARG: return "INVAL";
    case A0_ERR_RANGE: return "RANGE";
    case A0_ERR_AGAIN: return "AGAIN";
    case A0_ERR_ITER_DONE: return "DONE";
    case A0_ERR_NOT_FOUND: return "NOTFOUND";
    case A0_ERR_FRAME_LARGE: return "LARGE";
    case A0_ERR_BAD_PATH: return "BADPATH";
    case A0_ERR_BAD_TOPIC: return "BADTOPIC";
    case A0_ERR_CANCELLED: return "CANCELLED";
    default: return "ERR" + std::to_string((int)e);
  }
}

// Maps what a C++ wrapper threw back to the name of the error.
inline std::string excname(const std::exception& ex) {
  std::string w = ex.what();
  for (int e = 0; e <= 11; e++) {
    if (e == A0_ERR_SYS) continue;
    if (w == a0_strerror((a0_err_t)e)) return errname((a0_err_t)e);
  }
  if (w == strerror(a0_err_syscode)) return errname(A0_ERR_SYS);
  return "EXC:" + w;
}

inline std::string guarded(const std::function<void()>& f) {
  try {
    f();
    return "ok";
  } catch (const std::exception& ex) {
    return excname(ex);
  }
}

inline uint8_t pat(int d, size_t j) { return (uint8_t)(d * 131 + j * 7 + (d >> 5) + (j >> 8) * 13 + 1); }
inline void pat_fill(uint8_t* p, size_t n, int d) { for (size_t j = 0; j < n; j++) p[j] = pat(d, j); }
inline bool pat_is(const uint8_t* p, size_t n, int d) {
  for (size_t j = 0; j < n; j++) if (p[j] != pat(d, j)) return false;
  return true;
}

inline a0_err_t heap_alloc(void* ud, size_t size, a0_buf_t* out) {
  (void)ud;
  out->size = size;
  out->data = (uint8_t*)malloc(size ? size : 1);
  return A0_OK;
}
inline a0_err_t heap_dealloc(void* ud, a0_buf_t buf) {
  (void)ud;
  free(buf.data);
  return A0_OK;
}
inline a0_alloc_t heap() { return a0_alloc_t{nullptr, heap_alloc, heap_dealloc}; }
