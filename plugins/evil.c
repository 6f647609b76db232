// A hostile plugin: it tries every host entry point it can name, and reports what it got.
//
// PLAN, patched by the driver, is a letter list up to '|' (i: attack in _initialize, m: in get_metadata,
// w: change things too), followed by NUL-separated paths: 'r' or 'w' and the path.
// The report is a list of lines, written in hexadecimal into the output and into the place of $REPORT$ in META.
typedef unsigned long long u64;
typedef unsigned int u32;
typedef unsigned short u16;
typedef unsigned char u8;
#define IMP(n) __attribute__((import_module("extism:host/env"), import_name(#n)))
IMP(alloc) u64 alloc(u64);
IMP(store_u8) void store_u8(u64, int);
IMP(load_u8) int load_u8(u64);
IMP(length) u64 length(u64);
IMP(output_set) void output_set(u64, u64);
IMP(config_get) u64 config_get(u64);
IMP(var_get) u64 var_get(u64);
IMP(http_request) u64 http_request(u64, u64);
IMP(http_status_code) int http_status_code(void);
IMP(log_warn) void log_warn(u64);
IMP(log_info) void log_info(u64);
IMP(log_debug) void log_debug(u64);
IMP(log_error) void log_error(u64);
#define W(n) __attribute__((import_module("wasi_snapshot_preview1"), import_name(#n))) int n
typedef struct { const void *p; u32 n; } io;
W(args_get)(void *, void *);
W(args_sizes_get)(u32 *, u32 *);
W(environ_get)(void *, void *);
W(environ_sizes_get)(u32 *, u32 *);
W(fd_close)(int);
W(fd_fdstat_get)(int, void *);
W(fd_filestat_get)(int, void *);
W(fd_filestat_set_size)(int, u64);
W(fd_pread)(int, const io *, u32, u64, u32 *);
W(fd_prestat_get)(int, void *);
W(fd_prestat_dir_name)(int, void *, u32);
W(fd_pwrite)(int, const io *, u32, u64, u32 *);
W(fd_read)(int, const io *, u32, u32 *);
W(fd_readdir)(int, void *, u32, u64, u32 *);
W(fd_renumber)(int, int);
W(fd_write)(int, const io *, u32, u32 *);
W(path_create_directory)(int, const void *, u32);
W(path_filestat_get)(int, int, const void *, u32, void *);
W(path_filestat_set_times)(int, int, const void *, u32, u64, u64, int);
W(path_link)(int, int, const void *, u32, int, const void *, u32);
W(path_open)(int, int, const void *, u32, int, u64, u64, int, int *);
W(path_readlink)(int, const void *, u32, void *, u32, u32 *);
W(path_remove_directory)(int, const void *, u32);
W(path_rename)(int, const void *, u32, int, const void *, u32);
W(path_symlink)(const void *, u32, int, const void *, u32);
W(path_unlink_file)(int, const void *, u32);
W(sock_accept)(int, int, int *);
W(sock_recv)(int, const io *, u32, int, u32 *, void *);
W(sock_send)(int, const io *, u32, int, u32 *);
#define EXPORT(n) __attribute__((export_name(#n)))

#define S16 "                "
#define S256 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16
#define S2K S256 S256 S256 S256 S256 S256 S256 S256
volatile char META[] = "@@META@@" S2K S2K "@@END@@@";
volatile char PLAN[] = "@@PLAN@@" S2K S2K "@@END@@@";
static const char MARK[] = "ESCAPED-OUTPUT-MARKER\n";

static u8 rep[1 << 15], out[1 << 17], scratch[4096];
static int len, olen;
static int tries, refused;

static void put(const char *s) { while (*s && len < (int)sizeof rep - 1) rep[len++] = (u8)*s++; }
static void num(int n) {
  char t[12]; int i = 0;
  if (!n) t[i++] = '0';
  while (n) { t[i++] = (char)('0' + n % 10); n /= 10; }
  while (i && len < (int)sizeof rep - 1) rep[len++] = (u8)t[--i];
}
static void line(const char *what, int fd, const char *path, const u8 *data, int n) {
  if (len > (int)sizeof rep - 6000) return;
  put(what); put(" "); num(fd); put(" "); put(path); put(" ");
  for (int i = 0; i < n && i < 2000; i++) rep[len++] = data[i] ? data[i] : ' ';
  put("\n");
}
// Was this call refused? `errno` 0 means it was not.
static int got(int errno_) { tries++; if (errno_) refused++; return !errno_; }
static int size(const char *s) { int n = 0; while (s[n]) n++; return n; }
static int has(const char *s, char c) { for (; *s && *s != '|'; s++) if (*s == c) return 1; return 0; }

static void drain(const char *what, int fd, const char *path) {
  io v = {scratch, sizeof scratch};
  u32 n = 0;
  if (got(fd_read(fd, &v, 1, &n)) && n) line(what, fd, path, scratch, (int)n);
  n = 0;
  if (got(fd_pread(fd, &v, 1, 0, &n)) && n) line(what, fd, path, scratch, (int)n);
  n = 0;
  if (got(fd_readdir(fd, scratch, sizeof scratch, 0, &n)) && n) line("directory", fd, path, scratch, (int)n);
}

static void attack(void) {
  const char *plan = (const char *)PLAN;
  int change = has(plan, 'w');
  u32 a = 0, b = 0;
  static u32 ptr[512];
  static u8 text[1 << 14];
  if (got(args_sizes_get(&a, &b)) && a < 512 && b < sizeof text && got(args_get(ptr, text)) && b) line("argument", 0, "-", text, (int)b);
  if (got(environ_sizes_get(&a, &b)) && a < 512 && b < sizeof text && got(environ_get(ptr, text)) && b) line("environment", 0, "-", text, (int)b);
  for (int fd = 0; fd < 12; fd++) {
    u32 pre[2] = {0, 0};
    if (got(fd_prestat_get(fd, pre))) {
      u32 n = pre[1] < 1000 ? pre[1] : 1000;
      if (got(fd_prestat_dir_name(fd, scratch, n))) line("preopened", fd, "-", scratch, (int)n);
      else line("preopened", fd, "-", scratch, 0);
    }
    drain("input", fd, "-");
    io v = {MARK, sizeof MARK - 1};
    u32 n = 0;
    got(fd_write(fd, &v, 1, &n));
    got(fd_pwrite(fd, &v, 1, 0, &n));
    int conn = -1;
    if (got(sock_accept(fd, 0, &conn))) line("socket", fd, "-", scratch, 0);
    if (got(sock_send(fd, &v, 1, 0, &n))) line("socket", fd, "-", scratch, 0);
    v.p = scratch; v.n = sizeof scratch;
    u16 flags;
    if (got(sock_recv(fd, &v, 1, 0, &n, &flags))) line("socket", fd, "-", scratch, (int)n);
    const char *p = plan;
    while (*p != '|') p++;
    for (p++; *p == 'r' || *p == 'w'; p += size(p) + 1) {
      const char *path = p + 1;
      int k = size(path), f = -1;
      u64 all = 0x1fffffffULL;
      if (got(path_open(fd, 1, path, k, 0, 0x2 | 0x4000, all, 0, &f))) { line("opened", fd, path, scratch, 0); drain("contents", f, path); fd_close(f); }
      if (got(path_open(fd, 1, path, k, 2, 0x4000, all, 0, &f))) { line("opened directory", fd, path, scratch, 0); drain("contents", f, path); fd_close(f); }
      if (got(path_filestat_get(fd, 1, path, k, scratch))) line("metadata", fd, path, scratch, 0);
      n = 0;
      if (got(path_readlink(fd, path, k, scratch, sizeof scratch, &n))) line("link", fd, path, scratch, (int)n);
      if (*p == 'w' && change) {
        io m = {MARK, sizeof MARK - 1};
        if (got(path_open(fd, 1, path, k, 1 | 8, 0x40 | 0x2, all, 0, &f))) { line("created", fd, path, scratch, 0); fd_write(f, &m, 1, &n); fd_close(f); }
        if (got(path_open(fd, 1, path, k, 0, 0x40, all, 1, &f))) { line("appending", fd, path, scratch, 0); fd_write(f, &m, 1, &n); fd_close(f); }
        if (got(path_filestat_set_times(fd, 1, path, k, 0, 0, 5))) line("touched", fd, path, scratch, 0);
        static const char to[] = "canary-moved";
        if (got(path_link(fd, 1, path, k, fd, to, sizeof to - 1))) line("linked", fd, path, scratch, 0);
        if (got(path_symlink(path, k, fd, to, sizeof to - 1))) line("symlinked", fd, path, scratch, 0);
        if (got(path_rename(fd, path, k, fd, to, sizeof to - 1))) line("renamed", fd, path, scratch, 0);
        if (got(path_unlink_file(fd, path, k))) line("deleted", fd, path, scratch, 0);
        if (got(path_create_directory(fd, path, k))) line("made", fd, path, scratch, 0);
        if (got(path_remove_directory(fd, path, k))) line("removed", fd, path, scratch, 0);
      }
    }
  }
}
static u64 text(const char *s) {
  int n = size(s);
  u64 p = alloc(n);
  for (int i = 0; i < n; i++) store_u8(p + i, s[i]);
  return p;
}
static void host(void) {
  static const char *keys[] = {"HOME", "PATH", "secret", "BRACK_CANARY", "GITHUB_TOKEN"};
  for (int i = 0; i < 5; i++) {
    u64 p = config_get(text(keys[i]));
    tries++;
    if (p) {
      int n = (int)length(p);
      for (int k = 0; k < n && k < 1000; k++) scratch[k] = (u8)load_u8(p + k);
      line("configuration", 0, keys[i], scratch, n < 1000 ? n : 1000);
    }
    else refused++;
    var_get(text(keys[i]));
  }
  log_warn(text(MARK)); log_info(text(MARK)); log_debug(text(MARK)); log_error(text(MARK));
  tries += 4;
}
static void hex(void) {
  put("tries "); num(tries); put("\nrefused "); num(refused); put("\n");
  for (int i = 0; i < len; i++) {
    out[olen++] = (u8)"0123456789abcdef"[rep[i] >> 4];
    out[olen++] = (u8)"0123456789abcdef"[rep[i] & 15];
  }
}
static void flush(void) {
  u64 p = alloc(olen);
  for (int i = 0; i < olen; i++) store_u8(p + i, out[i]);
  output_set(p, olen);
}
static void say(const char *s) { while (*s) out[olen++] = (u8)*s++; }

EXPORT(_initialize) void init(void) { if (has((const char *)PLAN, 'i')) attack(); }
EXPORT(get_metadata) int get_metadata(void) {
  if (has((const char *)PLAN, 'm')) { attack(); host(); }
  olen = 0;
  int n = sizeof(META) - 1;
  static const char hole[] = "$REPORT$";
  for (int i = 0; i < n; i++) {
    int k = 0;
    while (k < 8 && i + k < n && META[i + k] == hole[k]) k++;
    if (k == 8) { hex(); i += 7; }
    else out[olen++] = (u8)META[i];
  }
  flush();
  return 0;
}
EXPORT(report) int report(void) { attack(); host(); olen = 0; say("{R:"); hex(); say("}"); flush(); return 0; }
EXPORT(macro) int macro(void) {
  attack(); host(); olen = 0;
  say("{\"Text\":{\"id\":\"m\",\"value\":\"{R:"); hex();
  say("}\",\"location\":{\"start\":{\"line\":0,\"character\":0},\"end\":{\"line\":0,\"character\":0}}}}");
  flush(); return 0;
}
// Closes and rearranges what it can name; the host must not notice.
EXPORT(closer) int closer(void) {
  for (int fd = 0; fd < 12; fd++) { got(fd_renumber(fd, (fd + 1) % 12)); got(fd_filestat_set_size(fd, 0)); }
  for (int fd = 0; fd < 12; fd++) got(fd_close(fd));
  olen = 0; say("{R:"); hex(); say("}"); flush(); return 0;
}
// The request is at the end of PLAN, behind the paths.
EXPORT(net) int net(void) {
  const char *p = (const char *)PLAN;
  while (*p != '|') p++;
  for (p++; *p == 'r' || *p == 'w'; p += size(p) + 1) {}
  u64 r = http_request(text(p), 0);
  olen = 0; say("{R:");
  if (r) {
    int n = (int)length(r);
    for (int k = 0; k < n && k < 1000; k++) scratch[k] = (u8)load_u8(r + k);
    line("network", http_status_code(), "-", scratch, n < 1000 ? n : 1000);
  }
  hex(); say("}"); flush(); return 0;
}
