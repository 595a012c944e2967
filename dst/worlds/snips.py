"""Pieces of C code in two versions, with the known answer whether a function in which one replaces the other
differs: (name, old code, new code, answer for optimised code, answer for code that is not optimised)."""

DECLS = """typedef unsigned long size_t;
void *memcpy(void *, const void *, size_t);
void *memset(void *, int, size_t);
struct sa { int a; char b; int c; long d; };
struct bf { unsigned a:3; unsigned b:5; };
union un { int i; unsigned char c[4]; };
struct in { int q, r; };
struct ou { int z; struct in i[2]; };
enum en { EA, EB, EC };
struct ops { int (*run)(int); int (*stop)(int); };
extern struct bf bfv;
extern union un unv;
extern struct ou ouv;
extern struct ops opsv;
extern int other_a, other_b, big_arr[9], mat[4][4];
extern volatile int vol_a, vol_b;
struct sa *get_sa(void);
struct sa *get_sa2(void);
int use_sa(struct sa *);
int use_en(enum en);
int ext_two(int);
int ext_one(int);
int ext_cb2(int);
int (*get_fp(int))(int);
void ext_long(long);
void ext_dbl(double);
double ext_d(void);
int *get_ip(void);
int ext_var(int, ...);
void ext_log(int);
void ext_ptr(void *);
void ext_line(int, int);
void *kmalloc(size_t, int);
int printk(const char *, ...);
void dev_err(void *, const char *, ...);
""".rstrip().split("\n")

LIST = []


class Snip:
    def __init__(self, name, old, new, o1, o0, decls=None, same=(None, None), off=None):
        self.name, self.code = name, (old.split("\n"), new.split("\n"))
        self.differs = (o1, o0)          # the answer for optimised code, and for code that is not
        self.decls = decls               # declarations of the old and the new program
        self.same = same                 # the answer for code which did not change, if these did
        self.off = off                   # the pattern without which they differ


def s(name, old, new, o1=True, o0=True, **kw):
    """o1, o0: whether the two differ (None: not known)."""
    LIST.append(Snip(name, old, new, o1, o0, **kw))


def e(name, old, new, o1=False, o0=False, **kw):
    s(name, old, new, o1, o0, **kw)


s("field", "{y} += get_sa()->a;", "{y} += get_sa()->c;")
s("field-w", "get_sa()->a = {y};", "get_sa()->c = {y};")
s("case", "switch ({y}) {{ case 3: {y} = ext_fun(1, 1); break; case 8: {y} -= 2; break; default: {y} ^= 1; }}",
  "switch ({y}) {{ case 3: {y} = ext_fun(1, 1); break; case 9: {y} -= 2; break; default: {y} ^= 1; }}")
s("case-swap",
  "switch ({y}) {{\ncase 3: {y} = ext_fun(1, 1); break;\ncase 8: {y} = ext_fun(2, 1); break;\ndefault: {y} ^= 1;\n}}",
  "switch ({y}) {{\ncase 8: {y} = ext_fun(1, 1); break;\ncase 3: {y} = ext_fun(2, 1); break;\ndefault: {y} ^= 1;\n}}")
s("string", 'use_str("text {c}");', 'use_str("text {c}!");')
s("string2", 'use_str("a");', 'use_str("b");')
s("signed", "if ({y} > {c}) {y} = ext_fun({y}, 2);", "if ((unsigned){y} > {c}u) {y} = ext_fun({y}, 2);")
s("shift", "{y} = {y} >> 3;", "{y} = (int)((unsigned){y} >> 3);")
s("div", "{y} = {y} / 7;", "{y} = (int)((unsigned){y} / 7u);")
s("rem", "{y} = {y} % 7;", "{y} = {y} / 7;")
s("args", "{y} += ext_fun(ext_cb(3), x);", "{y} += ext_fun(x, ext_cb(3));")
s("fptr", "{y} += call_it(ext_cb, {y});", "{y} += call_it(ext_cb2, {y});")
s("ind", "{y} += (*get_fp(1))({y});", "{y} += (*get_fp(2))({y});")
s("ind-arg", "{y} += (*get_fp(1))({y});", "{y} += (*get_fp(1))({y} + 5);")
s("ops", "{y} += opsv.run({y});", "{y} += opsv.stop({y});")
s("callee", "{y} += ext_one({y});", "{y} += ext_two({y});")
s("bound", "for (int i = 0; i < 10; i++) {y} += ext_cb(i);", "for (int i = 0; i < 11; i++) {y} += ext_cb(i);")
s("step", "for (int i = 0; i < 10; i++) {y} += ext_cb(i);", "for (int i = 0; i < 10; i += 2) {y} += ext_cb(i);")
s("store", "other_a = {y};", "other_b = {y};")
s("load", "{y} += other_a;", "{y} += other_b;")
s("asm", 'asm volatile("nop" : : "r"({y}));', 'asm volatile("pause" : : "r"({y}));')
s("asm-num", 'asm volatile("addl $1, %0" : "+r"({y}));', 'asm volatile("addl $2, %0" : "+r"({y}));')
s("asm-arg", 'asm volatile("addl %1, %0" : "+r"({y}) : "r"(x));',
  'asm volatile("addl %1, %0" : "+r"({y}) : "r"(other_a));')
s("memcpy", "struct sa t{n}; memcpy(&t{n}, get_sa(), 8); {y} += use_sa(&t{n});",
  "struct sa t{n}; memcpy(&t{n}, get_sa(), 16); {y} += use_sa(&t{n});")
s("memset", "struct sa t{n}; memset(&t{n}, 0, sizeof t{n}); {y} += use_sa(&t{n});",
  "struct sa t{n}; memset(&t{n}, 1, sizeof t{n}); {y} += use_sa(&t{n});")
s("table", "static const int tab{n}[] = {{ 1, 2, 3, 4 }}; {y} += tab{n}[{y} & 3];",
  "static const int tab{n}[] = {{ 1, 2, 5, 4 }}; {y} += tab{n}[{y} & 3];")
s("index", "int t{n}[4] = {{ x, 2, {y}, 0 }}; {y} += use_arr(t{n} + 1);",
  "int t{n}[4] = {{ x, 2, {y}, 0 }}; {y} += use_arr(t{n} + 2);")
s("array", "{y} += big_arr[x & 7];", "{y} += big_arr[(x & 7) + 1];")
s("matrix", "{y} += mat[1][x & 3];", "{y} += mat[2][x & 3];")
s("and", "if (x > 3 && {y} < 9) {y} += ext_fun(1, {y});", "if (x > 3 || {y} < 9) {y} += ext_fun(1, {y});")
s("not", "if (!ext_cb(x)) {y} += ext_fun(1, {y});", "if (ext_cb(x)) {y} += ext_fun(1, {y});")
s("arms", "{y} = ext_cb(x) ? {y} + 1 : {y} - 1;", "{y} = ext_cb(x) ? {y} - 1 : {y} + 1;")
s("short", "{y} += (short)ext_cb(x);", "{y} += (signed char)ext_cb(x);")
s("extend", "{y} += (signed char)ext_cb(x);", "{y} += (unsigned char)ext_cb(x);")
s("long", "ext_long((long){y} + {c});", "ext_long((long)({y} + {c}));")
s("float", "ext_dbl({y} * 1.5);", "ext_dbl({y} * 2.5);")
s("float-op", "ext_dbl(ext_d() * 1.5);", "ext_dbl(ext_d() + 1.5);")
s("float-cmp", "if (ext_d() < 1.5) {y}++;", "if (ext_d() <= 1.5) {y}++;")
s("pointer", "{y} += *(int *)((char *)get_sa() + 4);", "{y} += *(int *)((char *)get_sa() + 8);")
s("bits", "{y} += bfv.a;", "{y} += bfv.b;")
s("union", "{y} += unv.i;", "{y} += unv.c[1];")
s("nested", "{y} += ouv.i[1].q;", "{y} += ouv.i[1].r;")
s("nested2", "{y} += ouv.i[1].q;", "{y} += ouv.i[0].q;")
s("copy", "struct sa t{n} = *get_sa(); {y} += use_sa(&t{n});", "struct sa t{n} = *get_sa2(); {y} += use_sa(&t{n});")
s("goto", "if (x == 5) goto out{n};\n{y} += ext_cb(1);\nout{n}:\n{y} ^= 2;",
  "if (x == 6) goto out{n};\n{y} += ext_cb(1);\nout{n}:\n{y} ^= 2;")
s("varargs", "{y} += ext_var({y}, 1, 2);", "{y} += ext_var({y}, 1);")
s("sizeof", "{y} += (int)sizeof(struct sa);", "{y} += (int)sizeof(struct sa) + 1;")
s("loop", "while (ext_cb({y})) {y} -= 3;", "do {y} -= 3; while (ext_cb({y}));")
s("break", "while (ext_cb({y})) {{\n\tif ({y} == 9) break;\n\t{y} -= 3;\n}}",
  "while (ext_cb({y})) {{\n\tif ({y} == 9) continue;\n\t{y} -= 3;\n}}")
s("fall", "switch (x) {{\ncase 1: {y} += ext_cb(1); break;\ncase 2: {y} += ext_cb(2);\n}}",
  "switch (x) {{\ncase 1: {y} += ext_cb(1);\ncase 2: {y} += ext_cb(2);\n}}")
s("fall-void", "switch (x) {{\ncase 1: ext_log(1); break;\ncase 2: ext_log(2);\n}}\next_log(3);",
  "switch (x) {{\ncase 1: ext_log(1);\ncase 2: ext_log(2);\n}}\next_log(3);")
s("break-void", "while (ext_cb(3)) {{\n\tif (x == 9) break;\n\text_log(1);\n}}\next_log(2);",
  "while (ext_cb(3)) {{\n\tif (x == 9) continue;\n\text_log(1);\n}}\next_log(2);")
s("mask", "{y} = ext_cb({y}) & 0xff;", "{y} = ext_cb({y}) & 0xfe;")
s("null", "if (get_sa() == 0) {y} = -1;", "if (get_sa() != 0) {y} = -1;")
s("ptr-cmp", "if (get_sa() == get_sa2()) {y} = -1;", "if (get_sa() <= get_sa2()) {y} = -1;")
s("enum", "{y} += use_en(EA);", "{y} += use_en(EB);")
s("neg", "{y} = -ext_cb({y});", "{y} = ~ext_cb({y});")
s("sub", "{y} = {y} - ext_cb(x);", "{y} = ext_cb(x) - {y};")
s("store-val", "*get_ip() = {y};", "*get_ip() = {y} + 1;")
s("atomic", "__sync_fetch_and_add(&other_a, {y});", "__sync_fetch_and_sub(&other_a, {y});")
s("cas", "__sync_bool_compare_and_swap(&other_a, 1, {y});", "__sync_bool_compare_and_swap(&other_a, 2, {y});")
s("twice", "ext_log(1);", "ext_log(1); ext_log(1);")
# refactored code that is equal
e("inverse", "if (x > 3) {y} += ext_cb(1); else {y} += ext_cb(2);",
  "if (x <= 3) {y} += ext_cb(2); else {y} += ext_cb(1);")
e("not-eq", "if (!(x > 3)) {y} += ext_cb(1); else {y} += ext_cb(2);",
  "if (x <= 3) {y} += ext_cb(1); else {y} += ext_cb(2);")
e("commute", "{y} = ext_cb(1) + {y} + x;", "{y} = x + ({y} + ext_cb(1));", None, None)
e("commute2", "{y} = {y} * x;", "{y} = x * {y};", None, None)
e("swapped", "if (x > {y}) {y} = 3;", "if ({y} < x) {y} = 3;", None, None)
e("named", "{y} = ext_fun({y} + 1, 2);", "int t{n} = {y} + 1;\n{y} = ext_fun(t{n}, 2);")
e("while", "for (int i = 0; i < 5; i++) {y} += ext_cb(i);",
  "int i{n} = 0;\nwhile (i{n} < 5) {{\n\t{y} += ext_cb(i{n});\n\ti{n}++;\n}}", False, None)
e("double", "{y} = {y} * 2;", "{y} = 2 * {y};", None, None)
e("dead", "{y} += 4;", "int d{n} = x * 3; (void)d{n};\n{y} += 4;", False, None)
e("never", "{y} += 4;", "if (0) ext_cb(1);\n{y} += 4;")
e("later", "int t{n} = x + 1; {y} += t{n};", "int t{n};\nt{n} = x + 1;\n{y} += t{n};")
e("cast", "ext_ptr(get_sa());", "ext_ptr((void *)get_sa());")
e("line", "ext_line(__LINE__, {y});", "\n\next_line(__LINE__, {y});")
e("print", 'printk("a %d", {y});', 'printk("b %d", {y});', off="kernel-prints")
e("print2", 'dev_err(get_sa(), "a %d", {y});', 'dev_err(get_sa(), "b %d", {y});', off="kernel-prints")


# declarations that differ between the versions
def d(name, d0, d1, old, new=None, o=True, same=(None, None)):
    """o: whether changed code differs; same: whether the same code does."""
    k = "sl%d" % len(LIST)
    decl = tuple((x + "\nstruct SL *get_SL(void);\nint use_SL(struct SL *);\nextern struct SL SLv;").replace(
        "SL", k).replace("IN", "in_" + k).replace("EN", "en_" + k).split("\n") for x in (d0, d1))
    old, new = (x.replace("SL", k).replace("IN", "in_" + k).replace("EN", "en_" + k) for x in (old, new or old))
    LIST.append(Snip(name, old, new, o, o, decl, same))


def st(x):
    return "struct SL { %s };" % x


AB, ZAB, ABZ = st("int a; int b;"), st("long z; int a; int b;"), st("int a; int b; long z;")
T, ZT = st("int a; int t[4]; int u[4];"), st("long z; int a; int t[4]; int u[4];")
N0, N1 = ("struct IN { %sint q; int r; };\n" % x for x in ("", "long z; "))
EQ1 = (False, None)          # at least optimised code is equal
EQ = (False, False)
NE = (True, True)
d("s-before", AB, ZAB, "{y} += get_SL()->b;", "{y} += get_SL()->b - 3;", True, EQ1)
d("s-before-a", AB, ZAB, "{y} += get_SL()->b;", "{y} += get_SL()->a;", None, EQ1)
d("s-after", AB, ABZ, "{y} += get_SL()->b;", "{y} += get_SL()->a;", True, EQ)
d("s-lost", ZAB, AB, "{y} += get_SL()->b;", "{y} += get_SL()->a;", True, EQ1)
d("s-alloc", AB, ABZ, "struct SL *p{n} = kmalloc(sizeof(struct SL), 0); p{n}->b = 1; {y} += use_SL(p{n});",
  "struct SL *p{n} = kmalloc(sizeof(struct SL) + 8, 0); p{n}->b = 1; {y} += use_SL(p{n});", True, EQ)
d("s-memset", AB, ABZ, "struct SL t{n}; memset(&t{n}, 0, sizeof(t{n})); {y} += use_SL(&t{n});",
  "struct SL t{n}; memset(&t{n}, 1, sizeof(t{n})); {y} += use_SL(&t{n});")
d("s-memset2", AB, ABZ, "struct SL t{n}; memset(&t{n}, 0, sizeof(t{n})); {y} += use_SL(&t{n});",
  "struct SL t{n}; memset(&t{n}, 0, sizeof(t{n}) - 4); {y} += use_SL(&t{n});")
d("s-unsigned", AB, st("int a; unsigned b;"), "{y} += get_SL()->b / 3;", None, True, NE)
d("s-short", AB, st("int a; short b;"), "{y} += get_SL()->b;", None, True, NE)
d("s-long", AB, st("int a; long b;"), "{y} += get_SL()->b;", None, None)
d("s-array", T, ZT, "{y} += get_SL()->t[2];", "{y} += get_SL()->t[3];", True, EQ1)
d("s-array-var", T, ZT, "{y} += get_SL()->t[x & 3];", "{y} += get_SL()->t[x & 1];", True, EQ1)
d("s-array-field", T, ZT, "{y} += get_SL()->t[x & 3];", "{y} += get_SL()->u[x & 3];", True, EQ1)
d("s-nested", N0 + st("int a; struct IN i;"), N0 + st("long z; int a; struct IN i;"),
  "{y} += get_SL()->i.r;", "{y} += get_SL()->i.r + 9;", True, EQ1)
d("s-inner", N0 + st("int a; struct IN i;"), N1 + st("int a; struct IN i;"),
  "{y} += get_SL()->i.r;", "{y} += get_SL()->i.q;", True, EQ1)
d("s-inner-arr", N0 + st("int a; struct IN i[3];"), N1 + st("int a; struct IN i[3];"),
  "{y} += get_SL()->i[1].r;", "{y} += get_SL()->i[2].r;")
d("s-inner-var", N0 + st("int a; struct IN i[3];"), N1 + st("int a; struct IN i[3];"),
  "{y} += get_SL()->i[x & 1].r;", "{y} += get_SL()->i[x & 1].q;")
d("s-ptr-var", AB, ZAB, "{y} += get_SL()[x].b;", "{y} += get_SL()[x].a;", True, EQ1)
d("s-ptr-const", AB, ZAB, "{y} += get_SL()[2].b;", "{y} += get_SL()[3].b;")
d("s-union", AB, st("int a; union { int b; char cc[4]; };"), "{y} += get_SL()->b;",
  "{y} += get_SL()->a;", True, EQ)
d("s-anon", AB, st("struct { int a; int b; };"), "{y} += get_SL()->b;", "{y} += get_SL()->a;", True, EQ)
d("s-anon-field", st("int a; struct { int b; int c; };"), st("int z; int a; struct { int b; int c; };"),
  "{y} += get_SL()->b;", "{y} += get_SL()->c;")
d("s-anon-two", st("struct { int b; int c; } p; struct { int b; int c; } q;"),
  st("int z; struct { int b; int c; } p; struct { int b; int c; } q;"), "{y} += get_SL()->p.b;",
  "{y} += get_SL()->q.b;")
d("s-bits", st("unsigned a:3; unsigned b:5; int k; int l;"), st("int z; unsigned a:3; unsigned b:5; int k; int l;"),
  "{y} += get_SL()->b;", "{y} += get_SL()->a;")
d("s-bits-next", st("unsigned a:3; unsigned b:5; int k; int l;"),
  st("int z; unsigned a:3; unsigned b:5; int k; int l;"), "{y} += get_SL()->k;", "{y} += get_SL()->l;", True, EQ1)
d("s-unions", st("union { int p; long q; } u; union { int p; long q; } w;"),
  st("long z; union { int p; long q; } u; union { int p; long q; } w;"), "{y} += get_SL()->u.p;",
  "{y} += get_SL()->w.p;")
d("s-init", AB, ABZ, "struct SL t{n} = {{ .b = {y} }}; {y} += use_SL(&t{n});",
  "struct SL t{n} = {{ .a = {y} }}; {y} += use_SL(&t{n});")
d("s-container", AB, ZAB, "{y} += use_SL((struct SL *)((char *)get_ip() - __builtin_offsetof(struct SL, b)));",
  "{y} += use_SL((struct SL *)((char *)get_ip() - __builtin_offsetof(struct SL, a)));")
E0, E1 = ("enum EN { EN_A, EN_B, %sEN_N };\nextern int EN_t[EN_N];\nextern int EN_u[EN_N];\n"
          "enum EN EN_get(void);\nenum EN EN_put(void);\n" % x for x in ("", "EN_C, "))
d("e-arr", E0 + AB, E1 + AB, "{y} += EN_t[EN_get()];", "{y} += EN_u[EN_get()];")
d("e-idx", E0 + AB, E1 + AB, "{y} += EN_t[EN_get()];", "{y} += EN_t[EN_put()];")
d("e-const", E0 + AB, E1 + AB, "{y} += EN_t[EN_B];", "{y} += EN_t[EN_A];", True, EQ)
d("e-val", E0 + AB, E1 + AB, "{y} += ext_one(EN_N);", "{y} += ext_one(EN_A);")
d("e-val2", E0 + AB, E1 + AB, "{y} += ext_one(EN_B);", "{y} += ext_one(EN_N);", True, EQ)
