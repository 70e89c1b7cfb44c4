// Runtime linked into every symbolic run: the parts of libc and libstdc++ that are not in headers.
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <cerrno>
#include <map>
#include <list>
#include <string>
#include <stdexcept>
#include <new>
#include <typeinfo>
#include <functional>
#include <unordered_map>
#include <iostream>
#include <fcntl.h>
#include <unistd.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/mman.h>
#undef errno
extern "C" { int sx_errno = 0; int sx_is_symbolic(uint64_t); uint64_t sx_concretize(uint64_t); }

// ---------------------------------------------------------------- libc strings
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) { for (; n; ++a, ++b, --n) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int strcasecmp(const char *a, const char *b) { for (;; ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; ++a, ++b, --n) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *sx_strchr(const char *s, int c) asm("strchr"); char *sx_strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *sx_strrchr(const char *s, int c) asm("strrchr"); char *sx_strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *sx_strstr(const char *s, const char *t) asm("strstr"); char *sx_strstr(const char *s, const char *t) { size_t n = strlen(t); for (;; ++s) { if (!strncmp(s, t, n)) return (char *)s; if (!*s) return nullptr; } }
void *sx_memchr(const void *s, int c, size_t n) asm("memchr"); void *sx_memchr(const void *s, int c, size_t n) { const unsigned char *p = (const unsigned char *)s; for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void *)(p + i); return nullptr; }
char *strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
static char errbuf[8] = "error";
char *strerror(int) { return errbuf; }
static unsigned long sx_strtoul(const char *s, char **e, int base, bool *neg, bool *any) {
    const char *p = s; while (isspace((unsigned char)*p)) ++p;
    *neg = false; if (*p == '-' || *p == '+') { *neg = *p == '-'; ++p; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0; *any = false; bool ovf = false;
    for (;; ++p) {
        unsigned char c = *p; int d;
        if (isdigit(c)) d = c - '0'; else if (isalpha(c)) d = tolower(c) - 'a' + 10; else break;
        if (d >= base) break;
        unsigned long w = v * (unsigned long)base + (unsigned long)d;
        if (v > (~0ul - d) / base) ovf = true;
        v = w; *any = true;
    }
    if (ovf) { sx_errno = ERANGE; v = ~0ul; }
    if (e) *e = (char *)(*any ? p : s);
    return v;
}
unsigned long strtoul(const char *s, char **e, int base) { bool n, a; unsigned long v = sx_strtoul(s, e, base, &n, &a); return n && v != ~0ul ? 0ul - v : v; }
unsigned long long strtoull(const char *s, char **e, int base) { return strtoul(s, e, base); }
long strtol(const char *s, char **e, int base) {
    bool n, a; unsigned long v = sx_strtoul(s, e, base, &n, &a);
    if (n) { if (v > 1ul << 63) { sx_errno = ERANGE; return (long)(1ul << 63); } return (long)(0ul - v); }
    if (v > ~0ul >> 1) { sx_errno = ERANGE; return (long)(~0ul >> 1); } return (long)v;
}
long long strtoll(const char *s, char **e, int base) { return strtol(s, e, base); }
int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
long atol(const char *s) { return strtol(s, nullptr, 10); }
long long atoll(const char *s) { return strtol(s, nullptr, 10); }
double strtod(const char *, char **);
double atof(const char *s) { return strtod(s, nullptr); }
float strtof(const char *s, char **e) { return (float)strtod(s, e); }
long double strtold(const char *s, char **e) { return strtod(s, e); }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
long sysconf(int n) { return n == _SC_PAGESIZE ? 4096 : n == _SC_NPROCESSORS_ONLN ? 4 : n == _SC_PHYS_PAGES ? 1 << 20 : 4; }
char *getenv(const char *) { return nullptr; }
int getpid(void) { return 1; }
double drand48(void) { return 0.5; }
// sscanf for %d (with an optional width) and literal characters
int __isoc23_sscanf(const char *s, const char *f, ...) {
    va_list ap; va_start(ap, f); int n = 0; const char *b = s;
    while (*f) {
        if (*f == ' ') { while (*s == ' ' || (*s >= 9 && *s <= 13)) s++; f++; continue; }
        if (*f != '%') { if (*s != *f) break; s++; f++; continue; }
        f++; int w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
        if (*f != 'd') __builtin_trap();
        f++;
        while (*s == ' ' || (*s >= 9 && *s <= 13)) s++;
        if (!*s) { if (!n) n = -1; break; }
        bool neg = false; int k = 0; if (*s == '-' || *s == '+') { neg = *s == '-'; s++; k++; }
        if (*s < '0' || *s > '9') break;
        long v = 0; while (*s >= '0' && *s <= '9' && (!w || k < w)) { v = v * 10 + (*s++ - '0'); k++; }
        *va_arg(ap, int *) = (int)(neg ? -v : v); n++;
    }
    va_end(ap); (void)b; return n;
}
int sx_fmt_double(char *buf, unsigned long n, int prec, int fixed, double d) { return fixed ? snprintf(buf, n, "%.*f", prec, d) : snprintf(buf, n, "%.*g", prec, d); }
void qsort(void *b, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
    char *p = (char *)b; char t[256];
    for (size_t i = 1; i < n; ++i) for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; --j) { memcpy(t, p + j * w, w); memcpy(p + j * w, p + (j - 1) * w, w); memcpy(p + (j - 1) * w, t, w); }
}
size_t sx_map_slack = 0;
const char *sx_tmp(void) { return "/m"; }
}

// ---------------------------------------------------------------- in-memory file system
namespace {
    struct Node { char *path; bool dir, live; char *data; size_t size, cap; int maps; };
    const int MAXF = 256;
    Node fs[MAXF]; int nfs = 0;
    struct Fd { Node *n; size_t pos; int flags; bool used; };
    Fd fds[MAXF];
    struct Map { Node *n; char *p; size_t len; };
    Map maps_[MAXF]; int nmaps = 0;
    void norm(const char *p, char *out) { // collapse '//' and a trailing '/'
        size_t n = 0; if (p[0] == '.' && p[1] == '/') p += 2;
        for (; *p; ++p) { if (*p == '/' && n && out[n - 1] == '/') continue; out[n++] = *p; }
        if (n > 1 && out[n - 1] == '/') --n;
        out[n] = 0;
    }
    Node *find(const char *p0) { char p[512]; norm(p0, p); for (int i = 0; i < nfs; ++i) if (fs[i].live && !strcmp(fs[i].path, p)) return fs + i; return nullptr; }
    Node *findOrRoot(const char *p) { return find(p); }
    bool parentOk(const char *p0) {
        char p[512]; norm(p0, p); char *s = sx_strrchr(p, '/');
        if (!s || s == p) return true;
        *s = 0; if (!strcmp(p, "/m")) return true;
        Node *n = find(p); return n && n->dir;
    }
    Node *create(const char *p0, bool dir) {
        char p[512]; norm(p0, p);
        int k = -1; for (int i = 0; i < nfs; ++i) if (!fs[i].live && fs[i].maps == 0) { k = i; break; }
        if (k < 0) { if (nfs == MAXF) abort(); k = nfs++; }
        Node *n = fs + k; n->path = strdup(p); n->dir = dir; n->live = true; n->data = nullptr; n->size = n->cap = 0; n->maps = 0; return n;
    }
    void resize(Node *n, size_t sz) {
        if (sz > n->cap) {
            size_t c = n->maps ? sz : (sz < 64 ? 64 : sz + sz / 2);
            char *d = (char *)malloc(c); memset(d, 0, c); if (n->size) memcpy(d, n->data, n->size);
            if (n->data && !n->maps) free(n->data);
            n->data = d; n->cap = c;
        } else if (sz < n->size) memset(n->data + sz, 0, n->size - sz);
        n->size = sz;
    }
    int newFd(Node *n, int flags) { for (int i = 3; i < MAXF; ++i) if (!fds[i].used) { fds[i].used = true; fds[i].n = n; fds[i].pos = 0; fds[i].flags = flags; return i; } sx_errno = EMFILE; return -1; }
}
extern "C" {
int sx_fs_open(const char *path, int flags) {
    Node *n = find(path);
    if (n && n->dir) { sx_errno = EISDIR; return -1; }
    if (!n) { if (!(flags & 4) || !parentOk(path)) { sx_errno = ENOENT; return -1; } n = create(path, false); }
    if (flags & 8) resize(n, 0);
    return newFd(n, flags);
}
int sx_fs_close(int fd) { if (fd < 3 || fd >= MAXF || !fds[fd].used) { sx_errno = EBADF; return -1; } fds[fd].used = false; return 0; }
long sx_fs_read(int fd, void *b, unsigned long c) {
    Fd &f = fds[fd]; if (fd < 0 || fd >= MAXF || !f.used) { sx_errno = EBADF; return -1; }
    if ((long)c <= 0 || f.pos >= f.n->size) return 0;
    size_t k = f.n->size - f.pos; if (k > c) k = c;
    memcpy(b, f.n->data + f.pos, k); f.pos += k; return (long)k;
}
long sx_fs_write(int fd, const void *b, unsigned long c) {
    Fd &f = fds[fd]; if (fd < 0 || fd >= MAXF || !f.used) { sx_errno = EBADF; return -1; }
    if (f.flags & 16) f.pos = f.n->size;
    if (!c) return 0;
    if (f.pos + c > f.n->size) resize(f.n, f.pos + c);
    memcpy(f.n->data + f.pos, b, c); f.pos += c; return (long)c;
}
long sx_fs_seek(int fd, long off, int wh) {
    Fd &f = fds[fd]; if (fd < 0 || fd >= MAXF || !f.used) { sx_errno = EBADF; return -1; }
    long p = wh == 0 ? off : wh == 1 ? (long)f.pos + off : (long)f.n->size + off;
    if (p < 0) { sx_errno = EINVAL; return -1; }
    f.pos = (size_t)p; return p;
}
int open(const char *p, int fl, ...) {
    int f = 0, acc = fl & O_ACCMODE;
    if (acc != O_WRONLY) f |= 1; if (acc != O_RDONLY) f |= 2; if (fl & O_CREAT) f |= 4; if (fl & O_TRUNC) f |= 8; if (fl & O_APPEND) f |= 16;
    return sx_fs_open(p, f);
}
int open64(const char *p, int fl, ...) asm("open64");
int open64(const char *p, int fl, ...) { return open(p, fl); }
int close(int fd) { return sx_fs_close(fd); }
ssize_t read(int fd, void *b, size_t n) { return sx_fs_read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { return sx_fs_write(fd, b, n); }
off_t lseek(int fd, off_t o, int w) { return sx_fs_seek(fd, o, w); }
int sx_ftruncate(int fd, long n) asm("ftruncate"); int sx_ftruncate(int fd, long n) { resize(fds[fd].n, (size_t)n); return 0; }
int sx_truncate(const char *p, long n) asm("truncate"); int sx_truncate(const char *p, long n) { Node *f = find(p); if (!f || f->dir) { sx_errno = ENOENT; return -1; } resize(f, (size_t)n); return 0; }
static void fillStat(Node *n, struct stat *st) { memset(st, 0, sizeof *st); st->st_mode = n->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_size = (off_t)n->size; st->st_nlink = 1; }
int sx_stat(const char *p, struct stat *st) asm("stat"); int sx_stat(const char *p, struct stat *st) { Node *n = find(p); char q[512]; norm(p, q); if (!n) { if (!strcmp(q, "/m") || !strcmp(q, "/")) { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; } sx_errno = ENOENT; return -1; } fillStat(n, st); return 0; }
int sx_lstat(const char *p, struct stat *st) asm("lstat"); int sx_lstat(const char *p, struct stat *st) { return sx_stat(p, st); }
int sx_fstat(int fd, struct stat *st) asm("fstat"); int sx_fstat(int fd, struct stat *st) { fillStat(fds[fd].n, st); return 0; }
int access(const char *p, int) { struct stat st; return sx_stat(p, &st); }
int mkdir(const char *p, mode_t) { struct stat st; if (!sx_stat(p, &st)) { sx_errno = EEXIST; return -1; } if (!parentOk(p)) { sx_errno = ENOENT; return -1; } create(p, true); return 0; }
int unlink(const char *p) { Node *n = find(p); if (!n) { sx_errno = ENOENT; return -1; } if (n->dir) { sx_errno = EISDIR; return -1; } n->live = false; return 0; }
static bool hasChildren(const char *p) { size_t l = strlen(p); for (int i = 0; i < nfs; ++i) if (fs[i].live && !strncmp(fs[i].path, p, l) && fs[i].path[l] == '/') return true; return false; }
int rmdir(const char *p) { Node *n = find(p); if (!n || !n->dir) { sx_errno = ENOENT; return -1; } if (hasChildren(n->path)) { sx_errno = ENOTEMPTY; return -1; } n->live = false; return 0; }
int remove(const char *p) { Node *n = find(p); if (!n) { sx_errno = ENOENT; return -1; } return n->dir ? rmdir(p) : unlink(p); }
int rename(const char *a, const char *b) {
    Node *n = find(a); if (!n) { sx_errno = ENOENT; return -1; }
    char na[512], nb[512]; norm(a, na); norm(b, nb);
    Node *m = find(b); if (m && m != n) m->live = false;
    size_t l = strlen(na);
    for (int i = 0; i < nfs; ++i) if (fs[i].live && !strncmp(fs[i].path, na, l) && (fs[i].path[l] == 0 || fs[i].path[l] == '/')) {
        char *q = (char *)malloc(strlen(nb) + strlen(fs[i].path + l) + 1); strcpy(q, nb); strcat(q, fs[i].path + l); fs[i].path = q;
    }
    return 0;
}
void *sx_mmap(void *, size_t len, int, int flags, int fd, long off) asm("mmap");
void *sx_mmap(void *, size_t len, int, int flags, int fd, long off) {
    if (flags & MAP_ANONYMOUS) { char *p = (char *)malloc(len); memset(p, 0, len); return p; }
    if (!len) { sx_errno = EINVAL; return MAP_FAILED; }
    Node *n = fds[fd].n;
    size_t pages = (n->size + 4095) / 4096 * 4096; // what can be touched
    if (sx_map_slack && pages < sx_map_slack) pages = sx_map_slack; // room to grow while mapped
    if (n->cap != pages) {
        char *d = (char *)malloc(pages); memset(d, 0, pages); if (n->size) memcpy(d, n->data, n->size);
        if (n->maps) abort();
        if (n->data) free(n->data);
        n->data = d; n->cap = pages;
    }
    n->maps++;
    int k = 0; while (k < nmaps && maps_[k].n) ++k; if (k == nmaps) { if (nmaps == MAXF) abort(); nmaps++; }
    maps_[k].n = n; maps_[k].p = n->data + off; maps_[k].len = len;
    return n->data + off;
}
int munmap(void *p, size_t) {
    for (int k = 0; k < nmaps; ++k) if (maps_[k].n && maps_[k].p == p) {
        Node *n = maps_[k].n; n->maps--; maps_[k].n = nullptr;
        return 0;
    }
    free(p); return 0;
}
int msync(void *, size_t, int) { return 0; }
int madvise(void *, size_t, int) noexcept { return 0; }
int fsync(int) { return 0; }
struct SxDir { char path[512]; int i; struct dirent e; };
DIR *opendir(const char *p) {
    struct stat st; if (sx_stat(p, &st) || !S_ISDIR(st.st_mode)) { sx_errno = ENOENT; return nullptr; }
    SxDir *d = (SxDir *)malloc(sizeof(SxDir)); norm(p, d->path); d->i = 0; return (DIR *)d;
}
struct dirent *readdir(DIR *D) {
    SxDir *d = (SxDir *)D; size_t l = strlen(d->path);
    for (; d->i < nfs; ++d->i) {
        Node &n = fs[d->i];
        if (!n.live || strncmp(n.path, d->path, l) || n.path[l] != '/' || sx_strchr(n.path + l + 1, '/')) continue;
        strcpy(d->e.d_name, n.path + l + 1); d->e.d_type = n.dir ? DT_DIR : DT_REG; d->i++;
        return &d->e;
    }
    return nullptr;
}
int closedir(DIR *d) { free(d); return 0; }
// stdio files
struct SxFile { int fd; bool eof; };
FILE *fopen(const char *p, const char *m) {
    int f = m[0] == 'r' ? 1 : m[0] == 'w' ? 2 | 4 | 8 : 2 | 4 | 16; if (sx_strchr(m, '+')) f |= 3;
    int fd = sx_fs_open(p, f); if (fd < 0) return nullptr;
    SxFile *r = (SxFile *)malloc(sizeof(SxFile)); r->fd = fd; r->eof = false; return (FILE *)r;
}
int fclose(FILE *f) { sx_fs_close(((SxFile *)f)->fd); free(f); return 0; }
size_t fread(void *b, size_t s, size_t n, FILE *f) { long r = sx_fs_read(((SxFile *)f)->fd, b, s * n); if (r < (long)(s * n)) ((SxFile *)f)->eof = true; return r < 0 ? 0 : (size_t)r / s; }
size_t fwrite(const void *b, size_t s, size_t n, FILE *f) { if (f == stdout || f == stderr) return n; long r = sx_fs_write(((SxFile *)f)->fd, b, s * n); return r < 0 ? 0 : (size_t)r / s; }
int fseek(FILE *f, long o, int w) { ((SxFile *)f)->eof = false; return sx_fs_seek(((SxFile *)f)->fd, o, w) < 0 ? -1 : 0; }
long ftell(FILE *f) { return sx_fs_seek(((SxFile *)f)->fd, 0, 1); }
int feof(FILE *f) { return ((SxFile *)f)->eof; }
int ferror(FILE *) { return 0; }
FILE *stdout = (FILE *)&fs[0], *stderr = (FILE *)&fs[1], *stdin = (FILE *)&fs[2];
int getc(FILE *f) { unsigned char c; return fread(&c, 1, 1, f) == 1 ? c : -1; }
int fgetc(FILE *f) { return getc(f); }
}

// ---------------------------------------------------------------- libstdc++
namespace std {
    // red-black trees
    _GLIBCXX_PURE _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
        _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
        return x->_M_right != y ? y : x;
    }
    _GLIBCXX_PURE const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
    _GLIBCXX_PURE _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
        _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    _GLIBCXX_PURE const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
    static void rotL(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
        _Rb_tree_node_base *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
        if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
        y->_M_left = x; x->_M_parent = y;
    }
    static void rotR(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
        _Rb_tree_node_base *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
        if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
        y->_M_right = x; x->_M_parent = y;
    }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
        _Rb_tree_node_base *&root = h._M_parent;
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
        while (x != root && x->_M_parent->_M_color == _S_red) {
            _Rb_tree_node_base *const g = x->_M_parent->_M_parent;
            if (x->_M_parent == g->_M_left) {
                _Rb_tree_node_base *const u = g->_M_right;
                if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
                else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotL(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotR(g, root); }
            } else {
                _Rb_tree_node_base *const u = g->_M_left;
                if (u && u->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; u->_M_color = _S_black; g->_M_color = _S_red; x = g; }
                else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotR(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotL(g, root); }
            }
        }
        root->_M_color = _S_black;
    }
    _Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
        _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
        _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
        if (!y->_M_left) x = y->_M_right;
        else if (!y->_M_right) x = y->_M_left;
        else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
        if (y != z) {
            z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
            if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
            if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
            y->_M_parent = z->_M_parent; _Rb_tree_color c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c; y = z;
        } else {
            xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
            if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
            if (leftmost == z) { if (!z->_M_right) leftmost = z->_M_parent; else { auto m = x; while (m->_M_left) m = m->_M_left; leftmost = m; } }
            if (rightmost == z) { if (!z->_M_left) rightmost = z->_M_parent; else { auto m = x; while (m->_M_right) m = m->_M_right; rightmost = m; } }
        }
        if (y->_M_color != _S_red) {
            while (x != root && (!x || x->_M_color == _S_black))
                if (x == xp->_M_left) {
                    _Rb_tree_node_base *w = xp->_M_right;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotL(xp, root); w = xp->_M_right; }
                    if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotR(w, root); w = xp->_M_right; }
                        w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotL(xp, root); break; }
                } else {
                    _Rb_tree_node_base *w = xp->_M_left;
                    if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotR(xp, root); w = xp->_M_left; }
                    if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                    else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotL(w, root); w = xp->_M_left; }
                        w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotR(xp, root); break; }
                }
            if (x) x->_M_color = _S_black;
        }
        return y;
    }
    // lists
    namespace __detail {
        void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
            if (x._M_next != &x) {
                if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
                else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
            } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
        }
        void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
            if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
        }
        void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
        void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
        // hash tables
        static const size_t primes[] = {2, 5, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697};
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : primes) if (p >= n) { _M_next_resize = (size_t)((double)p * (double)_M_max_load_factor); return p; } abort(); }
        pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t ins) const {
            if (e + ins > _M_next_resize) {
                size_t mb = e + ins; if (!_M_next_resize && mb < 11) mb = 11;
                if (mb >= b) { size_t g = b * 2; return {true, _M_next_bkt(mb + 1 > g ? mb + 1 : g)}; }
                _M_next_resize = b; return {false, 0};
            }
            return {false, 0};
        }
    }
    size_t _Hash_bytes(const void *p, size_t n, size_t seed) { // any deterministic function of the bytes will do
        const unsigned char *s = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ s[i]) * 31 + (h >> 7); return h;
    }
    size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
    // exceptions
    exception::~exception() noexcept {}
    const char *exception::what() const noexcept { return "exception"; }
    bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "bad_exception"; }
    bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "bad_alloc"; }
    bad_array_new_length::~bad_array_new_length() noexcept {} const char *bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
    bad_cast::~bad_cast() noexcept {} const char *bad_cast::what() const noexcept { return "bad_cast"; }
    bad_typeid::~bad_typeid() noexcept {} const char *bad_typeid::what() const noexcept { return "bad_typeid"; }
    bad_function_call::~bad_function_call() noexcept {} const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
    static const char *dupz(const char *s, size_t n) { char *r = (char *)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
    __cow_string::__cow_string() : _M_p(dupz("", 0)) {}
    __cow_string::__cow_string(const std::string &s) : _M_p(dupz(s.data(), s.size())) {}
    __cow_string::__cow_string(const char *s, size_t n) : _M_p(dupz(s, n)) {}
    __cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(dupz(o._M_p, strlen(o._M_p))) {}
    __cow_string &__cow_string::operator=(const __cow_string &o) noexcept { if (this != &o) { free((void *)_M_p); _M_p = dupz(o._M_p, strlen(o._M_p)); } return *this; }
    __cow_string::~__cow_string() { free((void *)_M_p); }
    __cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = dupz("", 0); }
    __cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
    logic_error::logic_error(const string &s) : _M_msg(s) {} logic_error::logic_error(const char *s) : _M_msg(s, strlen(s)) {} logic_error::logic_error(const logic_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
    logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
    logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return _M_msg._M_p; }
    runtime_error::runtime_error(const string &s) : _M_msg(s) {} runtime_error::runtime_error(const char *s) : _M_msg(s, strlen(s)) {} runtime_error::runtime_error(const runtime_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
    runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
    runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
#define SXE(X, B) X::X(const string &s) : B(s) {} X::X(const char *s) : B(s) {} X::~X() noexcept {}
    SXE(domain_error, logic_error) SXE(invalid_argument, logic_error) SXE(length_error, logic_error) SXE(out_of_range, logic_error)
    SXE(range_error, runtime_error) SXE(overflow_error, runtime_error) SXE(underflow_error, runtime_error)
    void __throw_bad_exception() { throw bad_exception(); }
    void __throw_bad_alloc() { throw bad_alloc(); }
    void __throw_bad_array_new_length() { throw bad_array_new_length(); }
    void __throw_bad_cast() { throw bad_cast(); }
    void __throw_bad_typeid() { throw bad_typeid(); }
    void __throw_logic_error(const char *s) { throw logic_error(s); }
    void __throw_domain_error(const char *s) { throw domain_error(s); }
    void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
    void __throw_length_error(const char *s) { throw length_error(s); }
    void __throw_out_of_range(const char *s) { throw out_of_range(s); }
    void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
    void __throw_runtime_error(const char *s) { throw runtime_error(s); }
    void __throw_range_error(const char *s) { throw range_error(s); }
    void __throw_overflow_error(const char *s) { throw overflow_error(s); }
    void __throw_underflow_error(const char *s) { throw underflow_error(s); }
    void __throw_bad_function_call() { throw bad_function_call(); }
    void __throw_system_error(int) { throw runtime_error("system_error"); }
    void __throw_concurrence_lock_error() { abort(); }
    const nothrow_t nothrow{};
    // streams: everything written is dropped
    static _nullbuf sx_nb;
    ostream cout(&sx_nb), cerr(&sx_nb), clog(&sx_nb); istream cin(&sx_nb);
}

// LZ4 blocks: one run of literals. The real library may compress better; the format is the same, so either can read what this writes.
extern "C" {
int LZ4_compressBound(int n) { return n < 0 ? 0 : n + n / 255 + 16; }
static int sx_lz4_literals(const char *s, char *d, int n, int cap) {
    int o = 0, need = n + 1 + (n >= 15 ? (n - 15) / 255 + 1 : 0);
    if (need > cap) return 0;
    d[o++] = (char)((n >= 15 ? 15 : n) << 4);
    if (n >= 15) { int r = n - 15; while (r >= 255) { d[o++] = (char)255; r -= 255; } d[o++] = (char)r; }
    memcpy(d + o, s, (size_t)n);
    return o + n;
}
int LZ4_compress_HC(const char *s, char *d, int n, int cap, int) { return sx_lz4_literals(s, d, n, cap); }
int LZ4_compress_default(const char *s, char *d, int n, int cap) { return sx_lz4_literals(s, d, n, cap); }
int LZ4_compress(const char *s, char *d, int n) { return sx_lz4_literals(s, d, n, LZ4_compressBound(n)); }
int LZ4_decompress_safe(const char *s, char *d, int n, int cap) {
    int i = 0, o = 0;
    while (i < n) {
        int k = (unsigned char)s[i] >> 4, m = s[i] & 15; i++;
        if (k == 15) { int b; do { if (i >= n) return -1; b = (unsigned char)s[i++]; k += b; } while (b == 255); }
        if (k > n - i || k > cap - o) return -1;
        memcpy(d + o, s + i, (size_t)k); o += k; i += k;
        if (i == n) return o;
        (void)m; return -1;
    }
    return -1;
}
int LZ4_decompress_fast(const char *s, char *d, int n) { (void)s; (void)d; (void)n; return -1; }
}
