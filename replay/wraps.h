// Stand-ins (linked with --wrap) that count what the library acquires and releases, and answer its shell commands.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <unordered_set>
#include <map>
#include <string>
static pthread_mutex_t wl = PTHREAD_MUTEX_INITIALIZER;
static std::unordered_set<void*>* live = NULL;       // non-NULL: counting
static long streams = 0;
static std::map<std::string, std::string>* answers = NULL;   // non-NULL: commands are answered from here
extern "C" {
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); int __real_posix_memalign(void**, size_t, size_t); void __real_free(void*); void* __real_realloc(void*, size_t);
FILE* __real_popen(const char*, const char*); int __real_pclose(FILE*);
static void* got(void* p) { if(live && p) { pthread_mutex_lock(&wl); live->insert(p); pthread_mutex_unlock(&wl); } return p; }
static void gone(void* p) { if(live && p) { pthread_mutex_lock(&wl); live->erase(p); pthread_mutex_unlock(&wl); } }
void* __wrap_malloc(size_t n) { return got(__real_malloc(n)); }
void* __wrap_calloc(size_t n, size_t m) { return got(__real_calloc(n, m)); }
void* __wrap_realloc(void* q, size_t m) { gone(q); return got(__real_realloc(q, m)); }
int __wrap_posix_memalign(void** p, size_t a, size_t n) { int r = __real_posix_memalign(p, a, n); if(!r) got(*p); return r; }
void __wrap_free(void* p) { gone(p); __real_free(p); }
FILE* __wrap_popen(const char* c, const char* m) {
	FILE* f;
	if(answers) {
		const char* k = strstr(c, "--caches") ? "cache" : strstr(c, "cpuinfo") ? "cpu" : strstr(c, "Thread") ? "thr" : strstr(c, "Socket") ? "soc" : "model";
		std::string t = (*answers)[k];
		f = tmpfile();
		if(f && t != "-") { fwrite(t.data(), 1, t.size(), f); rewind(f); }
	} else f = __real_popen(c, m);
	if(f) streams++;
	return f;
}
int __wrap_pclose(FILE* f) { streams--; if(answers) return fclose(f); return __real_pclose(f); }
}
