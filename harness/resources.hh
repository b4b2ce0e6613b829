// Process-level resource counters.
#pragma once
#include <dirent.h>
#include <cstdio>
#include <cstring>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define RES_ASAN 1
#endif
#endif
namespace res {
inline size_t heap() {
#ifdef RES_ASAN
    return __sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}
inline size_t fds() {
    DIR *d = opendir("/proc/self/fd");
    size_t n = 0;
    if(!d) return 0;
    while(readdir(d)) n++;
    closedir(d);
    return n;
}
// Shared file mappings: unlinked files, memfds, shared anonymous memory.
inline size_t maps() {
    FILE *f = fopen("/proc/self/maps", "r");
    if(!f) return 0;
    char line[512];
    size_t n = 0;
    while(fgets(line, sizeof line, f)) if(strstr(line, "(deleted)")) n++;
    fclose(f);
    return n;
}
struct Level {
    size_t heap, fds, maps;
    static Level now() { Level l; l.fds = res::fds(); l.maps = res::maps(); l.heap = res::heap(); return l; }
};
} // namespace res
