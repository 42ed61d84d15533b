#pragma once
#include <cstddef>
struct vfs_file { char name[32]; unsigned char* b; size_t n, cap; };
extern "C" { vfs_file* vfs_find(const char*); vfs_file* vfs_create(const char*); void vfs_reserve(vfs_file*, size_t); }
