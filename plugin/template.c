// The test plugin used by all checks that need plugins. One binary (template.wasm, built with
// build.sh) is specialised by overwriting CFG (see tools: plugins.py), never by recompiling.
//
// CFG: "BRKCFG01" u32 meta_len | u32 n | n * {u8 mode, u32 off, u32 len} | meta json | payloads
// (offsets are relative to the start of CFG, integers little endian)
typedef unsigned char u8;
typedef unsigned int u32;
typedef unsigned long long u64;
#define HOST(n) __attribute__((import_module("extism:host/env"), import_name(#n)))
HOST(input_length) extern u64 input_length(void);
HOST(input_load_u8) extern u32 input_load_u8(u64);
HOST(input_load_u64) extern u64 input_load_u64(u64);
HOST(alloc) extern u64 h_alloc(u64);
HOST(store_u8) extern void store_u8(u64, u32);
HOST(store_u64) extern void store_u64(u64, u64);
HOST(output_set) extern void output_set(u64, u64);
HOST(error_set) extern void error_set(u64);
__attribute__((import_module("wasi_snapshot_preview1"), import_name("clock_time_get")))
extern int clock_time_get(int, u64, u64 *);

#define CFGSIZE 49152
#define BUFSIZE (6 << 20)
volatile u8 CFG[CFGSIZE] = {[0] = 'B', [1] = 'R', [2] = 'K', [3] = 'C', [4] = 'F', [5] = 'G',
                            [6] = '0', [7] = '1', [8 ... CFGSIZE - 1] = 'x'};

int memcmp(const void *a, const void *b, unsigned long n) {
  for (const u8 *p = a, *q = b; n; n--, p++, q++) if (*p != *q) return *p - *q;
  return 0;
}
static u8 in[BUFSIZE];
static u8 out[BUFSIZE];
static u8 logbuf[BUFSIZE];
static u32 in_len, out_len, log_len, log_overflow, calls;

static u32 rd32(u32 o) { return CFG[o] | CFG[o + 1] << 8 | CFG[o + 2] << 16 | (u32)CFG[o + 3] << 24; }

static void load_input(void) {
  u64 n = input_length();
  if (n > BUFSIZE) __builtin_trap();
  in_len = (u32)n;
  u32 i = 0;
  for (; i + 8 <= in_len; i += 8) *(u64 *)(in + i) = input_load_u64(i);
  for (; i < in_len; i++) in[i] = (u8)input_load_u8(i);
}
static u64 to_host(const u8 *p, u32 n) {
  u64 o = h_alloc(n ? n : 1);
  u32 i = 0;
  for (; i + 8 <= n; i += 8) {
    u64 v;
    __builtin_memcpy(&v, p + i, 8);
    store_u64(o + i, v);
  }
  for (; i < n; i++) store_u8(o + i, p[i]);
  return o;
}
static void set_output(const u8 *p, u32 n) { output_set(to_host(p, n), n); }
static void put(u8 c) {
  if (out_len >= BUFSIZE) __builtin_trap();
  out[out_len++] = c;
}
static void puts_(const char *s) { while (*s) put((u8)*s++); }
static void put_cfg(u32 o, u32 n) { for (u32 i = 0; i < n; i++) put(CFG[o + i]); }
static void put_num(u64 v) {
  u8 b[24]; int k = 0;
  do { b[k++] = '0' + v % 10; v /= 10; } while (v);
  while (k) put(b[--k]);
}
static void log_byte(u8 c) { if (log_len < BUFSIZE) logbuf[log_len++] = c; else log_overflow = 1; }
static void log_num(u64 v) {
  u8 b[24]; int k = 0;
  do { b[k++] = '0' + v % 10; v /= 10; } while (v);
  while (k) log_byte(b[--k]);
}
static u32 pos;
static u32 hex4(void) {
  u32 v = 0;
  for (int k = 0; k < 4; k++) {
    u8 c = in[pos++];
    v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10);
  }
  return v;
}
// pos is on the opening quote; the decoded string is appended to out
static void echo_string(void) {
  if (in[pos] != '"') __builtin_trap();
  pos++;
  while (in[pos] != '"') {
    if (in[pos] != '\\') { put(in[pos++]); continue; }
    pos++;
    u8 c = in[pos++];
    switch (c) {
      case 'n': put('\n'); break;
      case 't': put('\t'); break;
      case 'r': put('\r'); break;
      case 'b': put('\b'); break;
      case 'f': put('\f'); break;
      case 'u': {
        u32 v = hex4();
        if (v >= 0xd800 && v < 0xdc00) { pos += 2; u32 w = hex4(); v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00); }
        if (v < 0x80) put(v);
        else if (v < 0x800) { put(0xc0 | v >> 6); put(0x80 | (v & 63)); }
        else if (v < 0x10000) { put(0xe0 | v >> 12); put(0x80 | ((v >> 6) & 63)); put(0x80 | (v & 63)); }
        else { put(0xf0 | v >> 18); put(0x80 | ((v >> 12) & 63)); put(0x80 | ((v >> 6) & 63)); put(0x80 | (v & 63)); }
        break; }
      default: put(c);
    }
  }
  pos++;
}
static void skip_ws(void) { while (in[pos] == ' ' || in[pos] == '\n' || in[pos] == '\t' || in[pos] == '\r') pos++; }
static int lit(const char *s) {
  skip_ws();
  u32 p = pos;
  for (; *s; s++, p++) if (in[p] != (u8)*s) return 0;
  pos = p;
  skip_ws();
  return 1;
}
static void need(const char *s) { if (!lit(s)) __builtin_trap(); }
// input: [{"Text":".."},{"TextArray":[..]},{"TextOption":".."|null}, ...]
static void echo_args(void) {
  pos = 0;
  need("[");
  if (lit("]")) return;
  do {
    need("{");
    put('|');
    if (lit("\"TextArray\"")) {
      need(":"); need("[");
      put('A');
      if (!lit("]")) {
        do { put(';'); skip_ws(); echo_string(); } while (lit(","));
        need("]");
      }
    } else if (lit("\"TextOption\"")) {
      need(":");
      if (lit("null")) put('N'); else { put('O'); echo_string(); }
    } else {
      need("\"Text\""); need(":");
      put('T'); echo_string();
    }
    need("}");
  } while (lit(","));
  need("]");
}
// input: [AST, "id"]; finds the object {"Kind":{..,"id":ID,..}} and its end
static u32 stack[100000];
static u32 node_start, node_end, ast_end, id_start, id_len;
static u32 str_end(u32 p) { p++; while (in[p] != '"') p += in[p] == '\\' ? 2 : 1; return p + 1; }
static u32 value_end(u32 p) {
  int d = 0;
  for (;;) {
    u8 c = in[p];
    if (c == '"') { p = str_end(p); if (d == 0) return p; continue; }
    if (c == '{' || c == '[') d++;
    if (c == '}' || c == ']') { d--; if (d == 0) return p + 1; }
    p++;
    if (p > in_len) __builtin_trap();
  }
}
static void find_node(void) {
  u32 p = 0;
  while (in[p] != '{') p++;
  u32 first = p;
  ast_end = value_end(p);
  p = ast_end;
  while (in[p] != '"') p++;
  id_start = p;
  id_len = str_end(p) - p;
  int sp = 0;
  node_start = 0;
  for (p = first; p < ast_end;) {
    u8 c = in[p];
    if (c == '{') { stack[sp++] = p++; continue; }
    if (c == '}') { sp--; p++; continue; }
    if (c == '"') {
      u32 e = str_end(p);
      if (e - p == 4 && in[p + 1] == 'i' && in[p + 2] == 'd') {
        u32 q = e;
        while (in[q] == ' ' || in[q] == ':') q++;
        if (in[q] == '"' && str_end(q) - q == id_len && !__builtin_memcmp(in + q, in + id_start, id_len) && sp >= 2 && q > e) {
          node_start = stack[sp - 2];
          node_end = value_end(node_start);
          return;
        }
      }
      p = e;
      continue;
    }
    p++;
  }
  __builtin_trap();
}
static void put_in(u32 a, u32 b) { while (a < b) put(in[a++]); }
static void rename_node(const char *kind) {
  find_node();
  u32 k = node_start + 1;
  while (in[k] != '"') k++;
  put('{'); put('"'); puts_(kind); put('"');
  put_in(str_end(k), node_end);
}
static void inner_node(void) {
  find_node();
  u32 p = node_start, obj = 0;
  while (p < node_end) {
    if (in[p] == '{') obj = p;
    if (in[p] == '"') {
      u32 e = str_end(p);
      if (e - p == 6 && !__builtin_memcmp(in + p, "\"Expr\"", 6) && in[p - 1] == '{') { put_in(obj, value_end(obj)); return; }
      p = e;
      continue;
    }
    p++;
  }
  put_in(node_start, node_end);
}
enum { ECHO, CONST, TRAP, GETLOG, IDENTITY, WHOLE, INNER, SQUARE, CURLY, ERR, NOOUT, ECHOSEQ, LOOP, SLOW };

static int run(u32 k) {
  out_len = 0;
  load_input();
  u32 e = 16 + 9 * k;
  u8 mode = CFG[e];
  u32 off = rd32(e + 1), len = rd32(e + 5);
  if (mode != GETLOG) {
    u64 t = 0;
    clock_time_get(0, 1, &t);
    log_num(t); log_byte(' '); log_num(k); log_byte(' '); log_num(in_len); log_byte('\n');
    for (u32 i = 0; i < in_len; i++) log_byte(in[i]);
    log_byte('\n');
    calls++;
  }
  switch (mode) {
    case SLOW: { // an ECHO that takes its time
      u64 a = 0, b = 0;
      clock_time_get(1, 1, &a);
      do clock_time_get(1, 1, &b); while (b - a < 6000000000ULL);
    } // fall through
    case ECHO: case ECHOSEQ:
      puts_("\xe2\x9f\xa6");
      put_cfg(off, len);
      if (mode == ECHOSEQ) { put('#'); put_num(calls); }
      echo_args();
      puts_("\xe2\x9f\xa7");
      break;
    case CONST: put_cfg(off, len); break;
    case TRAP: __builtin_trap();
    case GETLOG:
      if (log_overflow) __builtin_trap();
      set_output(logbuf, log_len);
      return 0;
    case IDENTITY: find_node(); put_in(node_start, node_end); break;
    case WHOLE: find_node(); { u32 p = 0; while (in[p] != '{') p++; put_in(p, ast_end); } break;
    case INNER: inner_node(); break;
    case SQUARE: rename_node("Square"); break;
    case CURLY: rename_node("Curly"); break;
    case ERR: error_set(to_host((const u8 *)"failed on purpose", 17)); return 1;
    case NOOUT: return 0;
    case LOOP: for (;;) __asm__ volatile("");
  }
  set_output(out, out_len);
  return 0;
}
__attribute__((export_name("get_metadata"))) int get_metadata(void) {
  u32 n = rd32(12);
  u32 len = rd32(8);
  out_len = 0;
  put_cfg(16 + 9 * n, len);
  set_output(out, out_len);
  return 0;
}
#define X(k) __attribute__((export_name("c" #k))) int c##k(void) { return run(k); }
X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
X(16) X(17) X(18) X(19) X(20) X(21) X(22) X(23)
