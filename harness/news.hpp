// replaces global operator new with a counting, failable one (per thread); not used with sanitizers
#pragma once
#include "common.hpp"
namespace h {
thread_local u64 g_news=0, g_mallocs=0;
thread_local long g_new_fail=-1;      // fail the k-th operator new from now (0 = next)
thread_local u64 g_new_injected=0;
}
#ifdef COUNT_NEW
// and malloc itself, so that no route to the heap is missed
extern "C" { void* __libc_malloc(std::size_t); void* __libc_calloc(std::size_t,std::size_t); void* __libc_realloc(void*,std::size_t);
void* malloc(std::size_t n) noexcept { ++h::g_mallocs; return __libc_malloc(n); }
void* calloc(std::size_t a,std::size_t b) noexcept { ++h::g_mallocs; return __libc_calloc(a,b); }
void* realloc(void* p,std::size_t n) noexcept { ++h::g_mallocs; return __libc_realloc(p,n); } }
static void* counted(std::size_t n){
    ++h::g_news;
    if(h::g_new_fail>=0&&h::g_new_fail--==0){ ++h::g_new_injected; throw std::bad_alloc(); }
    void* p=std::malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new(std::size_t n){ return counted(n); }
void* operator new[](std::size_t n){ return counted(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p,std::size_t) noexcept { std::free(p); }
void operator delete[](void* p,std::size_t) noexcept { std::free(p); }
#endif
