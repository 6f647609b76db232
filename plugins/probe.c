// Instrumented Brack plugin used by the monitors.
//
// Every exported command answers with a record of the call it received:
//   {k#n:hash}tail      k = export number, n = how many calls this instance has
//                       executed before, hash = FNV-1a-64 of the exact input
// so that the generated document is itself the event log of the run.
// The metadata (which command names, kinds and signatures the module declares)
// is patched into META by the drivers.
typedef unsigned long long u64;
typedef unsigned char u8;
#define IMP(n) __attribute__((import_module("extism:host/env"), import_name(#n)))
IMP(input_length) u64 input_length(void);
IMP(input_load_u8) int input_load_u8(u64);
IMP(alloc) u64 alloc(u64);
IMP(store_u8) void store_u8(u64, int);
IMP(output_set) void output_set(u64, u64);
IMP(error_set) void error_set(u64);
#define EXPORT(n) __attribute__((export_name(#n)))

// Placeholder: "@@META@@" followed by spaces; the drivers overwrite all of it.
#define S16 "                "
#define S256 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16 S16
#define S2K S256 S256 S256 S256 S256 S256 S256 S256
#define S16K S2K S2K S2K S2K S2K S2K S2K S2K
volatile char META[] = "@@META@@" S16K S16K S16K "@@END@@@";

// Which artefact this is, for the monitors of downloads.
volatile char NAME[] = "@@NAME@@" S16 S16 "@@END@@@";

// Trees to answer with, one on each line.
volatile char TREE[] = "@@TREE@@" S16K S16K S16K "@@END@@@";

static int counter;
static u8 buf[1 << 16];
static int len;

static void put(const char *s) { while (*s) buf[len++] = (u8)*s++; }
static void put_num(int n) {
  char t[12]; int i = 0;
  if (!n) t[i++] = '0';
  while (n) { t[i++] = (char)('0' + n % 10); n /= 10; }
  while (i) buf[len++] = (u8)t[--i];
}
static void put_hex(u64 h) {
  for (int i = 60; i >= 0; i -= 4) buf[len++] = (u8)"0123456789abcdef"[(h >> i) & 15];
}
static u64 hash_input(void) {
  u64 h = 0xcbf29ce484222325ULL, n = input_length();
  for (u64 i = 0; i < n; i++) { h ^= (u64)(u8)input_load_u8(i); h *= 0x100000001b3ULL; }
  return h;
}
static void flush(void) {
  u64 p = alloc(len);
  for (int i = 0; i < len; i++) store_u8(p + i, buf[i]);
  output_set(p, len);
}
// Result tails with characters which must come out verbatim.
static const char *tail(int k) {
  switch (k % 8) {
    case 1: return "<[{.,\\}]>";
    case 2: return " \n ";
    case 3: return "\"\\n\\u0041\"";
    case 4: return "\xc3\xa9\xf0\x9f\x91\xa8\xe2\x80\x8d\xf0\x9f\x91\xa9";
    case 5: return "  ";
    case 6: return "&lt;%s{0}";
    case 7: return "\t\x01\r\n";
    default: return "";
  }
}
static void record(int k) {
  len = 0; put("{"); put_num(k); put("#"); put_num(counter++); put(":"); put_hex(hash_input()); put("}");
}
static int command(int k) { record(k); put(tail(k)); flush(); return 0; }

EXPORT(get_metadata) int get_metadata(void) {
  int n = sizeof(META) - 1;
  while (n > 1 && META[n - 1] == ' ') n--;
  u64 p = alloc(n);
  for (int i = 0; i < n; i++) store_u8(p + i, META[i]);
  output_set(p, n);
  return 0;
}
#define C(k) EXPORT(c##k) int c##k(void) { return command(k); }
C(0) C(1) C(2) C(3) C(4) C(5) C(6) C(7) C(8) C(9) C(10) C(11) C(12) C(13) C(14) C(15) C(16) C(17) C(18) C(19)

// The same without the counter: the answer depends on the input alone.
static int pure(int k) {
  len = 0; put("{"); put_num(k); put(":"); put_hex(hash_input()); put("}"); put(tail(k)); flush(); return 0;
}
#define P(k) EXPORT(s##k) int s##k(void) { return pure(k); }
P(0) P(1) P(2) P(3) P(4) P(5) P(6) P(7)
EXPORT(who) int who(void) {
  len = 0; put("{who:");
  for (int i = 0; i < (int)sizeof(NAME) - 1 && NAME[i] != ' '; i++) buf[len++] = (u8)NAME[i];
  put("}"); flush(); return 0;
}
EXPORT(empty) int empty(void) { counter++; len = 0; flush(); return 0; }
EXPORT(noout) int noout(void) { counter++; return 0; }

#define LOC "\"location\":{\"start\":{\"line\":0,\"character\":0},\"end\":{\"line\":0,\"character\":0}}"
static void rec_text(int k) {
  u8 tmp[64]; int n;
  int save = len; record(k); n = len;
  for (int i = 0; i < n; i++) tmp[i] = buf[i];
  (void)save; len = 0;
  put("{\"Text\":{\"id\":\"m"); put_num(counter); put("\",\"value\":\"");
  for (int i = 0; i < n; i++) buf[len++] = tmp[i];
  put("\"," LOC "}}");
}
// Macros. m0 -> Text(record); m1 -> Expr[Text(record), Text("~")]; m2 -> Text("") ; m3 -> an unexpanded macro call
// m4 -> a call [p.e Text] of the inline command "e" of module "p"
EXPORT(m0) int m0(void) { rec_text(100); flush(); return 0; }
EXPORT(m1) int m1(void) {
  u8 tmp[512]; int n;
  rec_text(101); n = len;
  for (int i = 0; i < n; i++) tmp[i] = buf[i];
  len = 0;
  put("{\"Expr\":{\"id\":\"e"); put_num(counter); put("\",\"children\":[");
  for (int i = 0; i < n; i++) buf[len++] = tmp[i];
  put(",{\"Text\":{\"id\":\"t\",\"value\":\"~\"," LOC "}}]," LOC "}}");
  flush(); return 0;
}
EXPORT(m2) int m2(void) { counter++; len = 0; put("{\"Text\":{\"id\":\"z\",\"value\":\"\"," LOC "}}"); flush(); return 0; }
EXPORT(m3) int m3(void) {
  counter++; len = 0;
  put("{\"Angle\":{\"id\":\"a\",\"children\":[{\"Module\":{\"id\":\"b\",\"value\":\"p\"," LOC "}},{\"Ident\":{\"id\":\"c\",\"value\":\"m0\"," LOC "}}]," LOC "}}");
  flush(); return 0;
}
EXPORT(m4) int m4(void) {
  u8 tmp[512]; int n;
  rec_text(104); n = len;
  for (int i = 0; i < n; i++) tmp[i] = buf[i];
  len = 0;
  put("{\"Square\":{\"id\":\"s\",\"children\":[{\"Module\":{\"id\":\"b\",\"value\":\"p\"," LOC "}},{\"Ident\":{\"id\":\"c\",\"value\":\"e\"," LOC "}},{\"Expr\":{\"id\":\"x\",\"children\":[");
  for (int i = 0; i < n; i++) buf[len++] = tmp[i];
  put("]," LOC "}}]," LOC "}}");
  flush(); return 0;
}
// The same without the counter and without the node ids: the answer depends on the document alone.
static u64 hash_plain(void) {
  u64 h = 0xcbf29ce484222325ULL, n = input_length();
  for (u64 i = 0; i < n; i++) {
    u8 c = (u8)input_load_u8(i);
    if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || c == '-') continue;
    h ^= (u64)c; h *= 0x100000001b3ULL;
  }
  return h;
}
static void plain_text(int k) {
  u64 h = hash_plain();
  put("{\"Text\":{\"id\":\"p\",\"value\":\"{"); put_num(k); put(":"); put_hex(h); put("}\"," LOC "}}");
}
EXPORT(m5) int m5(void) { len = 0; plain_text(105); flush(); return 0; }
EXPORT(m6) int m6(void) {
  len = 0;
  put("{\"Square\":{\"id\":\"s\",\"children\":[{\"Module\":{\"id\":\"b\",\"value\":\"p\"," LOC "}},{\"Ident\":{\"id\":\"c\",\"value\":\"e\"," LOC "}},{\"Expr\":{\"id\":\"x\",\"children\":[");
  plain_text(106);
  put("]," LOC "}}]," LOC "}}");
  flush(); return 0;
}
// Calls [p.e [p.e ... Text]] inside each other: 20 of them (m7), and 60 (m8).
static void nest(int n) {
  len = 0;
  for (int i = 0; i < n; i++)
    put("{\"Square\":{\"id\":\"s\",\"children\":[{\"Module\":{\"id\":\"b\",\"value\":\"p\"," LOC "}},{\"Ident\":{\"id\":\"c\",\"value\":\"e\"," LOC "}},{\"Expr\":{\"id\":\"x\",\"children\":[");
  put("{\"Text\":{\"id\":\"t\",\"value\":\"deep\"," LOC "}}");
  for (int i = 0; i < n; i++) put("]," LOC "}}]," LOC "}}");
  flush();
}
EXPORT(m7) int m7(void) { nest(20); return 0; }
EXPORT(m8) int m8(void) { nest(60); return 0; }
// Failures.
EXPORT(f_trap) int f_trap(void) { counter++; __builtin_trap(); }
EXPORT(f_err) int f_err(void) {
  counter++; len = 0; put("plugin says no");
  u64 p = alloc(len);
  for (int i = 0; i < len; i++) store_u8(p + i, buf[i]);
  error_set(p); return 1;
}
EXPORT(f_err0) int f_err0(void) { f_err(); return 0; }      // error set, return code 0
EXPORT(f_rc) int f_rc(void) { counter++; len = 0; put("never shown"); flush(); return 7; } // return code only
EXPORT(f_outerr) int f_outerr(void) { len = 0; put("never shown"); flush(); f_err(); return 1; }
EXPORT(f_utf8) int f_utf8(void) { counter++; len = 0; put("ok\xff\xfe"); flush(); return 0; }
EXPORT(f_json) int f_json(void) { counter++; len = 0; put("{\"Text\":{\"id\":"); flush(); return 0; }
EXPORT(f_shape) int f_shape(void) { counter++; len = 0; put("{\"Banana\":{}}"); flush(); return 0; }
// These trap with no frame on the shadow stack: a trap does not give it back.
static volatile int sink, zero, one = 1;
EXPORT(f_oob) int f_oob(void) { counter++; return *(volatile int *)0xfffffff0u; }
EXPORT(f_div) int f_div(void) { counter++; return one / zero; }
__attribute__((noinline)) static int deep(int n) { sink = n; int r = deep(n + 1); sink += r; return r + sink; }
EXPORT(f_stack) int f_stack(void) { counter++; return deep(0); }
// Every other call fails, beginning with the first: no call may be made twice.
static int turn(const char *good) {
  if (counter++ % 2 == 0) { counter--; f_err(); return 1; }
  len = 0; put(good); flush(); return 0;
}
EXPORT(t_text) int t_text(void) { return turn("turn"); }
EXPORT(t_node) int t_node(void) { return turn("{\"Text\":{\"id\":\"t\",\"value\":\"turn\"," LOC "}}"); }

// These answer the trees they were given, whatever those are.
static int answer_tree(int k) {
  int n = sizeof(TREE) - 1, from = 0;
  while (k > 0 && from < n) if (TREE[from++] == '\n') k--;
  int to = from;
  while (to < n && TREE[to] != '\n') to++;
  u64 p = alloc(to - from);
  for (int i = from; i < to; i++) store_u8(p + i - from, TREE[i]);
  output_set(p, to - from);
  return 0;
}
#define U(k) EXPORT(u##k) int u##k(void) { return answer_tree(k); }
U(0) U(1) U(2) U(3) U(4) U(5) U(6) U(7)
