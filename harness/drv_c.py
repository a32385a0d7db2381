import os, subprocess
from .common import *
from spec.proto import NUM, SIZES

CT = {"byte": "uint8_t", "bool": "bool", "uint16": "uint16_t", "int16": "int16_t", "uint32": "uint32_t", "int32": "int32_t",
      "uint64": "uint64_t", "int64": "int64_t", "float": "float", "double": "double"}


class L:
    name = "c"

    def __init__(self, p, opts=None):
        self.p = p
        self.ns = p.namespace or "beschi"
        self.N = self.ns.upper()

    def ct(self, t):
        k = self.p.kind(t)
        if k == "num":
            return CT[t]
        if k == "string":
            return "char*"
        return f"{self.ns}_{t}"

    # C statements parsing tokens into an lvalue / printing an lvalue
    def put(self, t, lv, ln=None, d=1):
        p, k = self.p, self.p.kind(t)
        if k == "num":
            if t == "float":
                return f"{{ uint32_t b = (uint32_t)U(); memcpy(&({lv}), &b, 4); }}"
            if t == "double":
                return f"{{ uint64_t b = U(); memcpy(&({lv}), &b, 8); }}"
            if t == "bool":
                return f"{lv} = U() != 0;"
            return f"{lv} = ({CT[t]}){'I' if NUM[t][1] else 'U'}();"
        if k == "enum":
            return f"{lv} = ({self.ns}_{t})I();"
        if k == "string":
            return f"{{ size_t n; {lv} = S(&n); {ln} = ({CT[p.sst]})n; }}"
        return f"put_{t}(&({lv}));"

    def out(self, t, lv, ln=None):
        p, k = self.p, self.p.kind(t)
        if k == "num":
            if t == "float":
                return f"{{ uint32_t b; memcpy(&b, &({lv}), 4); P(\" %llu\", (unsigned long long)b); }}"
            if t == "double":
                return f"{{ uint64_t b; memcpy(&b, &({lv}), 8); P(\" %llu\", (unsigned long long)b); }}"
            if t == "bool":
                return f"{{ uint8_t b; memcpy(&b, &({lv}), 1); P(\" %d\", (int)b); }}"
            return f"P(\" {'%lld' if NUM[t][1] else '%llu'}\", ({'long long' if NUM[t][1] else 'unsigned long long'}){lv});"
        if k == "enum":
            return f"P(\" %lld\", (long long){lv});"
        if k == "string":
            return f"OS({lv}, (size_t)({ln}));"
        return f"out_{t}(&({lv}));"

    def struct_fns(self, name):
        p, ns = self.p, self.ns
        st = p.st(name)
        T = f"{ns}_{name}"
        a = [f"static void put_{name}({T}* d) {{ (void)d;"]
        if st.is_message:
            a.append(f"  d->_mt = {ns}_MessageType_{name};")
        b = [f"static void out_{name}(const {T}* s) {{ (void)s;"]
        f = [f"static void free_{name}({T}* d) {{ (void)d;"]
        for n, t, l in st.members:
            if not l:
                a.append("  " + self.put(t, f"d->{n}", f"d->{n}_len"))
                b.append("  " + self.out(t, f"s->{n}", f"s->{n}_len"))
                if p.kind(t) == "string":
                    f.append(f"  my_free(d->{n});")
                elif p.kind(t) == "struct":
                    f.append(f"  free_{t}(&d->{n});")
            else:
                ct = self.ct(t)
                a.append(f"  {{ size_t n = (size_t)U(); d->{n}_len = ({CT[p.lst]})n; d->{n} = n ? ({ct}*)my_malloc(n * sizeof({ct})) : NULL;")
                if p.kind(t) == "string":
                    a.append(f"    d->{n}_els_len = n ? my_malloc(n * sizeof(*d->{n}_els_len)) : NULL;")
                a.append(f"    for (size_t i = 0; i < n; i++) {{ {self.put(t, f'd->{n}[i]', f'd->{n}_els_len[i]')} }} }}")
                b.append(f"  P(\" %llu\", (unsigned long long)s->{n}_len); for (size_t i = 0; i < (size_t)s->{n}_len; i++) {{ {self.out(t, f's->{n}[i]', f's->{n}_els_len[i]')} }}")
                if p.kind(t) == "string":
                    f.append(f"  for (size_t i = 0; i < (size_t)d->{n}_len; i++) my_free(d->{n}[i]);")
                    f.append(f"  my_free(d->{n}_els_len);")
                elif p.kind(t) == "struct":
                    f.append(f"  for (size_t i = 0; i < (size_t)d->{n}_len; i++) free_{t}(&d->{n}[i]);")
                f.append(f"  my_free(d->{n});")
        for x in (a, b, f):
            x.append("}")
        return "\n".join(a + b + f)

    def order(self):
        done, out = set(), []

        def go(n):
            if n in done:
                return
            done.add(n)
            for _, t, _l in self.p.st(n).members:
                if self.p.kind(t) == "struct":
                    go(t)
            out.append(n)
        for n in list(self.p.structs) + list(self.p.messages):
            go(n)
        return out

    def sources(self, text):
        p, ns, N = self.p, self.ns, self.N
        msgs = list(p.messages)
        s = r'''#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdbool.h>
#define TBL 65536
static void* tbl[TBL]; static size_t live = 0; static long failat = -1; static int badfree = 0;
static size_t hs(void* p) { return (((uintptr_t)p) >> 4) % TBL; }
static void* my_malloc(size_t n) {
    if (failat == 0) { failat = -1; return NULL; }
    if (failat > 0) failat--;
    if (n > 200000000) return NULL;
    void* p = malloc(n); if (!p) return p; memset(p, 0xA5, n);
    size_t h = hs(p); while (tbl[h] && tbl[h] != (void*)1) h = (h + 1) % TBL; tbl[h] = p; live++; return p; }
static int forget(void* p) { size_t h = hs(p); int k = 0; while (tbl[h] && k++ < TBL) { if (tbl[h] == p) { tbl[h] = (void*)1; live--; return 1; } h = (h + 1) % TBL; } return 0; }
static void my_free(void* p) { if (!p) return; if (!forget(p)) { badfree++; return; } free(p); }
static void* my_realloc(void* p, size_t n) { if (failat == 0) { failat = -1; return NULL; } if (failat > 0) failat--; if (p && !forget(p)) { badfree++; return NULL; } void* q = realloc(p, n);
    if (!q) return q; size_t h = hs(q); while (tbl[h] && tbl[h] != (void*)1) h = (h + 1) % TBL; tbl[h] = q; live++; return q; }
''' + f"#define {N}_MALLOC(s) my_malloc(s)\n#define {N}_REALLOC(p,s) my_realloc(p,s)\n#define {N}_FREE(p) my_free(p)\n#define {N}_IMPLEMENTATION\n#include \"k.h\"\n" + r'''
#define P printf
static char* cur;
static char* tok(void) { while (*cur == ' ') cur++; char* s = cur; while (*cur && *cur != ' ') cur++; if (*cur) *cur++ = 0; return s; }
static unsigned long long U(void) { return strtoull(tok(), NULL, 10); }
static long long I(void) { return strtoll(tok(), NULL, 10); }
static int hx(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static uint8_t* H(const char* s, size_t* n) { *n = strlen(s) / 2; uint8_t* b = (uint8_t*)malloc(*n ? *n : 1); for (size_t i = 0; i < *n; i++) b[i] = (uint8_t)(hx(s[2*i]) * 16 + hx(s[2*i+1])); if (!*n) { free(b); b = (uint8_t*)malloc(0); } return b; }
static char* S(size_t* n) { char* s = tok() + 1; *n = strlen(s) / 2; char* b = (char*)my_malloc(*n + 1); for (size_t i = 0; i < *n; i++) b[i] = (char)(hx(s[2*i]) * 16 + hx(s[2*i+1])); b[*n] = 0; return b; }
static void OS(const char* s, size_t n) { P(" s"); for (size_t i = 0; i < n; i++) P("%02x", (unsigned char)s[i]); }
static void OH(const uint8_t* s, size_t n) { P(" s"); for (size_t i = 0; i < n; i++) P("%02x", s[i]); }
'''
        for n in self.order():
            s += self.struct_fns(n) + "\n"
        # generic helpers per message name
        A = f"{ns}_DataAccess"
        def sw(body, names=msgs):
            return "".join(f"  if (!strcmp(t, \"{n}\")) {{ {body(n)} }}\n" for n in names)
        s += f"static void* mk(const char* t) {{ (void)t;\n" + sw(lambda n: f"{ns}_{n}* m = ({ns}_{n}*)my_malloc(sizeof({ns}_{n})); put_{n}(m); return m;") + "  return NULL; }\n"
        s += "static void ot(void* m) { (void)m; switch ((int)%s_GetMessageType(m)) {\n" % ns
        for i, n in enumerate(msgs):
            s += f"  case {i+1}: P(\" {n}\"); out_{n}(({ns}_{n}*)m); break;\n"
        s += "  default: P(\" ?\"); } }\n"
        s += "static void fr(const char* t, void* m) { (void)t; (void)m;\n" + sw(lambda n: f"free_{n}(({ns}_{n}*)m); my_free(m); return;") + "}\n"
        W = lambda n: (f"{ns}_{n}* m = ({ns}_{n}*)mk(t); size_t sz = 0; e = {ns}_{n}_GetSizeInBytes(m, &sz); size_t sz2 = 0; int e2 = {ns}_GetSizeInBytes(m, &sz2); if (e || e2 || sz != sz2) {{ P(\"ERR size %d %d\", e, e2); }} else {{ "
                       f"size_t cap = off + sz + (size_t)tag; uint8_t* b = (uint8_t*)malloc(cap ? cap : 1); memset(b, 0xAA, cap); {A} a = {{b, cap, off}}; "
                       f"e = {ns}_{n}_WriteBytes(&a, m, tag); if (e) {{ P(\"ERR write %d\", e); }} else {{ uint8_t* b2 = (uint8_t*)malloc(cap ? cap : 1); memset(b2, 0xAA, cap); {A} a2 = {{b2, cap, off}}; e = {ns}_WriteBytes(&a2, m, tag); "
                       f"if (e || a2.position != a.position || memcmp(b, b2, cap)) P(\"ERR generic write differs\"); else {{ P(\"OK %zu %zu\", sz, a.position); OH(b, cap); }} free(b2); }} free(b); }} fr(t, m); return;")
        s += "static void cmdW(void) { int e; char* t = tok(); bool tag = U(); size_t off = U(); (void)e; (void)tag; (void)off; (void)t;\n" + sw(W) + "  P(\"ERR nomsg\"); }\n"
        R = lambda n: (f"{ns}_{n}* m = ({ns}_{n}*)my_malloc(sizeof({ns}_{n})); if (!m) {{ P(\"ERR alloc\"); free(b); return; }} e = {ns}_{n}_FromBytes(&a, m); if (e) P(\"ERR %d\", e); else {{ P(\"OK %zu\", a.position - off); if ({ns}_GetMessageType(m) != {ns}_MessageType_{n}) P(\" BADTYPE\"); out_{n}(m); }} "
                       f"{ns}_{n}_Destroy(m); free(b); return;")
        s += f"static void cmdR(void) {{ int e; char* t = tok(); size_t off = U(); size_t n; uint8_t* b = H(tok() + 1, &n); {A} a = {{b, n, off}}; (void)e; (void)a; (void)t;\n" + sw(R) + "  P(\"ERR nomsg\"); free(b); }\n"
        s += f'''static void cmdS(int unpack) {{ size_t off = U(); int32_t mx = unpack ? 0 : (int32_t)I(); size_t n; uint8_t* b = H(tok() + 1, &n); {A} a = {{b, n, off}};
  void** l = NULL; size_t c = 0; int e = unpack ? {ns}_UnpackMessages(&a, &l, &c) : {ns}_ProcessRawBytes(&a, mx, &l, &c);
  if (e) P("ERR %d", e); else {{ P("OK %zu %zu", a.position, c); for (size_t i = 0; i < c; i++) ot(l[i]); }}
  if (l) {ns}_DestroyMessageList(l, c); free(b); }}
static void cmdP(void) {{ size_t off = U(); size_t n = U(); void** l = (void**)malloc(sizeof(void*) * (n + 1)); char** ts = (char**)malloc(sizeof(char*) * (n + 1));
  for (size_t i = 0; i < n; i++) {{ ts[i] = tok(); l[i] = mk(ts[i]); }}
  size_t sz = 0; int e = {ns}_GetPackedSize(l, n, &sz); if (e) P("ERR size %d", e); else {{ size_t cap = off + sz; uint8_t* b = (uint8_t*)malloc(cap); memset(b, 0xAA, cap); {A} a = {{b, cap, off}};
  e = {ns}_PackMessages(l, n, &a); if (e) P("ERR %d", e); else {{ P("OK %zu %zu", sz, a.position); OH(b, cap); }} free(b); }}
  for (size_t i = 0; i < n; i++) fr(ts[i], l[i]); free(l); free(ts); }}
static void cmdX(void) {{ size_t cap = U(); char* t = tok(); (void)cap; (void)t;
{sw(lambda n: f'{ns}_{n}* m = ({ns}_{n}*)mk(t); uint8_t* b = (uint8_t*)malloc(cap); {A} a = {{b, cap, 0}}; int e = {ns}_{n}_WriteBytes(&a, m, false); if (e) P("ERR %d", e); else P("OK %zu", a.position); free(b); fr(t, m); return;')}
  P("ERR nomsg"); }}
static void cmdD(void) {{ char* t = tok(); (void)t;
{sw(lambda n: f'{ns}_{n}* m = {ns}_{n}_Create(); if (!m) {{ P("ERR create"); return; }} size_t z = 0; P("OK %d", (int){ns}_GetMessageType(m)); out_{n}(m); {ns}_{n} c = {ns}_{n}_default; P(" |"); out_{n}(&c); {ns}_{n}_GetSizeInBytes(m, &z); P(" | %zu", z); uint8_t* b = (uint8_t*)malloc(z ? z : 1); {A} a = {{b, z, 0}}; if ({ns}_{n}_WriteBytes(&a, m, false)) P(" ERR"); else OH(b, a.position); free(b); {ns}_{n}_Destroy(m); return;')}
  P("ERR nomsg"); }}
static void cmdE(void) {{ P("OK"); {''.join(f'P(" %lld", (long long){ns}_{e}_{v});' for e, en in p.enums.items() for v, _ in en.values)} }}
int main(void) {{
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  char* line = NULL; size_t cap = 0; ssize_t n;
  while ((n = getline(&line, &cap, stdin)) > 0) {{
    if (line[n-1] == '\\n') line[n-1] = 0;
    cur = line; badfree = 0; failat = -1; size_t l0 = live;
    char* c = tok();
    if (*c == 'F') {{ failat = (long)U(); c = tok(); }}
    switch (*c) {{ case 'W': cmdW(); break; case 'R': cmdR(); break; case 'S': cmdS(0); break; case 'U': cmdS(1); break; case 'P': cmdP(); break; case 'D': cmdD(); break; case 'X': cmdX(); break; case 'E': cmdE(); break; default: P("ERR cmd"); }}
    if (badfree) P(" BADFREE");
    if (live != l0) P(" LEAK %zd", (ssize_t)(live - l0));
    P("\\n"); fflush(stdout);
  }}
  return 0; }}
'''
        return {"k.h": text, "main.c": s}

    def build(self, d):
        r = run(["gcc-13", "-std=gnu11", "-O1", "-g", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "main.c", "-o", "drv"], d)
        if r.returncode:
            raise BuildError(r.stderr[:3000])

    def argv(self, d):
        return [os.path.join(d, "drv")]
    envx = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0", "UBSAN_OPTIONS": "print_stacktrace=0"}
