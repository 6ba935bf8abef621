"""Constraint violations for C17: (level, bad, good). Level g: global text, s: statement, e: int expression.
~ symbolic digit, $ symbolic lower-case letter (the same one everywhere in a case), @ marks the line of the error when it is not the first."""
PRE = '''struct S { int a; char b; int c[4]; }; union U { int a; float f; }; enum E { EA, EB = 5 }; struct I; struct B { unsigned a : 3; int b : 4; };
int g(int); void v(void); int g2(int, struct S); int gv(char *, ...); extern int ai[4]; extern struct S gs; extern union U gu; extern enum E ge; extern double gd; extern float gf; extern int *gp; extern void *gvp; extern const int gci; extern struct I *gi; extern char gc; extern unsigned long long gull; extern struct B gb; extern int (*gfp)(int); typedef int T; extern _Bool gbool; extern struct S *gsp; extern int unk[];
'''
BAD = []
def B(level, *pairs):
    for p in pairs: BAD.append((level,) + (p if isinstance(p, tuple) else (p, None)))
B('e', ('und$~', 'gci'), ('und$~(3)', 'g(3)'), ('gs.z$', 'gs.a'), ('gsp->z$', 'gsp->a'), ('gs->a', 'gs.a'), ('gu.z$', 'gu.a'), ('gci.a', 'gs.a'), ('gd.a', 'gu.a'),
  ('*gci', '*gp'), ('*gd', '*gp'), ('*gs', '*gsp->c'), ('*gvp', '*(int *)gvp'), ('gvp[~]', 'gp[~]'), ('gci[~]', 'ai[~]'), ('gs[~]', 'gsp[~].a'), ('gd[gci]', 'gp[gci]'), ('gp[gd]', 'gp[(int)gd]'), ('gp[gs]', 'gp[gs.a]'), ('gp[gp]', 'gp[*gp]'),
  ('g()', 'g(~)'), ('g(1, ~)', 'g(~)'), ('g2(1)', 'g2(1, gs)'), ('g(gs)', 'g(gs.a)'), ('g2(1, 2)', 'g2(1, *gsp)'), ('g2(1, gu)', 'g2(1, gs)'), ('g(v())', 'g(g(1))'), ('gci(~)', 'gfp(~)'), ('gs(1)', 'g(1)'), ('gp(1)', 'gfp(1)'), ('ai(1)', '(*gfp)(1)'), ('gfp()', 'gfp(1)'), ('gfp(1,2)', '(*gfp)(2)'), ('v(1)', '(v(), 1)'), ('gv()', 'gv("")'),
  ('gs + ~', 'gs.a + ~'), ('~ + gs', '~ + gs.a'), ('gs - gs', 'gs.a - gs.b'), ('gs * 2', 'gs.a * 2'), ('gu / ~', 'gu.a / 2'), ('gs % 2', 'gs.a % 2'), ('gs == gs', 'gs.a == gs.b'), ('gs < gs', 'gs.a < gs.b'), ('gs && 1', 'gs.a && 1'), ('1 || gs', '1 || gs.a'), ('gs | 1', 'gs.a | 1'), ('gs << 1', 'gs.a << 1'), ('1 >> gs', '1 >> gs.a'), ('-gs', '-gs.a'), ('+gs', '+gs.a'), ('\x01gs', '\x01gs.b'), ('!gs', '!gs.a'), ('gs ? 1 : 2', 'gs.a ? 1 : 2'), ('(gs, gs) + 1', '(gs, 1) + 1'),
  ('gd % 2', 'gci % 2'), ('2 % gf', '2 % (int)gf'), ('gd & ~', 'gci & ~'), ('~ | gd', '~ | gci'), ('gf ^ gf', 'gci ^ gci'), ('gd << ~', 'gci << ~'), ('1 >> gd', '1 >> gci'), ('-gp', '-*gp'), ('+gp', '+*gp'), ('\x01gd', '\x01(int)gd'),
  ('gp + gp', 'gp - gp'), ('gp * 2', '*gp * 2'), ('2 * gp', '2 * *gp'), ('gp / 2', '*gp / 2'), ('gp % ~', '*gp % 3'), ('gp & 1', '*gp & 1'), ('1 | gp', '1 | *gp'), ('gp << 1', '*gp << 1'), ('~ >> gp', '~ >> *gp'), ('~ - gp', '~ - *gp'), ('(gp + gd) != 0', '(gp + gci) != 0'), ('(gp - gd) != 0', '(gp - 1) != 0'), ('(gvp + 1) != 0', '(gp + 1) != 0'), ('(gfp + 1) != 0', '(gp + 1) != 0'), ('gp == gd', 'gci == gd'), ('gp < gs', 'gci < gs.a'), ('(gci ? gs : 1)', '(gci ? gs : gs).a'), ('(gci ? gs : gu).a', '(gci ? gs : *gsp).a'), ('(gci ? v() : 1)', '(gci ? 2 : 1)'), ('v() + 1', 'g(1) + 1'), ('!v()', '!g(1)'), ('-v()', '-g(1)'), ('v() && 1', 'g(1) && 1'), ('(v() ? 1 : 2)', '(g(1) ? 1 : 2)'), ('v() == 1', 'g(2) == 1'),
  ('(gci = 1, ~ = 2)', '(*gp = 2)'), ('(g(1) = 2)', '(*gp = 2)'), ('(gci + 1 = 2)', '(ai[1] = 2)'), ('((int)*gp = 2)', '(*gp = 2)'), ('(ai = gp) != 0', '(gp = ai) != 0'), ('(g = gfp) != 0', '(gfp = g) != 0'), ('(EA = ~)', '(ge = ~)'), ('(gs = 1).a', '(gs = gs).a'), ('(gs = gu).a', '(gu = gu).a'), ('(*gp = gs)', '(*gp = gs.a)'), ('(gd = gs) != 0', '(gd = gs.a) != 0'), ('(gp = gs) != 0', '(gp = &gs.a) != 0'), ('(gp = gd) != 0', '(gp = 0) != 0'), ('(gd = gp) != 0', '(gd = *gp) != 0'), ('(gsp = gs) != 0', '(gsp = &gs) != 0'), ('(*gp = v())', '(*gp = g(1))'), ('(gs.a + 1 = 1)', '(gs.a = 1)'), ('(-*gp = 1)', '(*gp = -1)'), ('("a"[0] + 1 = 1)', '(ai["a"[0]] = 1)'), ('(gs += 1).a', 'gs.a += 1'), ('(*gp += gs)', '(*gp += gs.a)'), ('(gd %= 2) != 0', '(*gp %= 2)'), ('(gd <<= 1) != 0', '(*gp <<= 1)'), ('(*gp |= gd)', '(*gp |= (int)gd)'), ('(gp *= 2) != 0', '(*gp *= 2)'), ('(gp += gp) != 0', '(gp += 2) != 0'), ('(gp -= gd) != 0', '(gp -= 1) != 0'), ('(gbool += 1)', '(gbool |= 1)'), ('(gvp += 1) != 0', '(gp += 1) != 0'),
  ('~++', '(*gp)++'), ('++~', '++*gp'), ('gs++.a', 'gs.a++'), ('--gs', '--gs.a'), ('g(1)++', 'ai[1]++'), ('(gci + 1)--', '(*gp)--'), ('ai++ != 0', 'gp++ != 0'), ('++gvp != 0', '++gp != 0'), ('gfp++ != 0', 'gp-- != 0'), ('(int)*gp++ ++', '*gp++'),
  ('&~ != 0', '&*gp != 0'), ('&g(1) != 0', '&g != 0'), ('&(gci + 1) != 0', '&gci != 0'), ('&EA != 0', '&ge != 0'), ('&(gp + 1) != 0', '&gp[1] != 0'), ('&&gci', '&gci != 0'),
  ('(int)gs', '(int)gs.a'), ('(struct S)~', '(struct S){~}.a'), ('(struct S)gu', '((struct S)gs).a'), ('(int *)gd != 0', '(int *)gci != 0'), ('(double)gp != 0', '(double)*gp != 0'), ('(float)gp != 0', '(float)*gp != 0'), ('(int[4])gp', '((int *)gp)[1]'), ('(int (int))g', '((int (*)(int))g)(1)'), ('(int)v()', '(int)g(1)'), ('(struct I)gs', '((struct I *)&gs != 0)'), ('(int)(struct S){~}', '(int)(struct S){~}.a'),
  ('sizeof(void)', 'sizeof(void *)'), ('sizeof(g)', 'sizeof(&g)'), ('sizeof(unk)', 'sizeof(unk[0])'), ('sizeof(struct I)', 'sizeof(struct I *)'), ('sizeof(int (int))', 'sizeof(int (*)(int))'), ('sizeof(v())', 'sizeof(g(1))'), ('_Alignof(struct I)', '_Alignof(struct S)'), ('_Alignof(void)', '_Alignof(char)'), ('sizeof(struct Q$)', 'sizeof(struct S)'), ('sizeof(T$~)', 'sizeof(T)'),
  ('1 /', '1 / 2'), ('(1', '(1)'), ('1)', '1'), ('1 + * 2', '1 + 2'), ('g(,1)', 'g(1)'), ('ai[]', 'ai[1]'), ('ai[1', 'ai[1]'), ('gs.', 'gs.a'), ('gs.~', 'gs.a'), ('1 ? 2', '1 ? 2 : 3'), ('1 : 2', '1 ? 1 : 2'), ('int', 'sizeof(int)'), ('(int)', '(int)1'), ('gci gci', 'gci'), ('1 2', '12'), ('"a" 1', '"a" "b" != 0'), ('return', 'gci'), ('if', 'gci'), ('{1}', '(struct S){1}.a'), ('==1', '1==1'), ('1==', '1==1'), ('!', '!1'), ('sizeof', 'sizeof 1'), ('_Generic(1)', '_Generic(1, int: 2)'), ('_Generic(1, double: 2)', '_Generic(1, default: 2)'), ('1 / 0', '1 / 1'), ('1 % 0', '1 % 1'), ('(*gp /= 0)', '(*gp /= 1)'), ('(*gp %= 0)', '(*gp %= 1)'), ('1 / (~ - ~ * 1)', None) if 0 else ('3 % (2 - 2)', '3 % (2 - 1)'),
  ('(struct S){1, 2, {3, 4, 5, 6, 7}}.a', '(struct S){1, 2, {3, 4, 5, 6}}.a'), ('(struct S){.z$ = 1}.a', '(struct S){.a = 1}.a'), ('(struct S){[0] = 1}.a', '(struct S){.c[0] = 1}.a'), ('(int[2]){1, 2, 3}[0]', '(int[2]){1, 2}[0]'), ('(int[2]){.a = 1}[0]', '(int[2]){[1] = 1}[0]'), ('(int[3]){[-1] = 1}[0]', '(int[3]){[0] = 1}[0]'), ('(union U){1, 2}.a', '(union U){1}.a'), ('(int){1, 2}', '(int){1}'), ('(struct S){1, gs}.a', '(struct S){1, gs.b}.a'), ('(int){gs}', '(int){gs.a}'), ('(void){1}', '(int){1}'), ('(struct I){1}', '(struct S){1}.b'), ('(char[2]){"abc"}[0]', '(char[3]){"abc"}[0]'),
  ("''", "'$'"), ("'\\q'", "'\\n'"), ("'$", "'$'"), ('"$', '"$"[0]'), ('"\\x"[0]', '"\\x~"[0]'), ('"\\u12"[0]', '"\\u1234"[0]'), ('08', '07'), ('0~9~8', '0x9~8'), ('0x', '0x~'), ('0b', '0b1'), ('0b~2', '0b10'), ('1.5q', '1.5f != 0'), ('12$z', '12'), ('1ulu', '1ul'), ('1lul', '1ull'), ("'\\777'", "'\\177'"), ("'\\x100'", "'\\xff'"), ('1.e', '1.e1 != 0'), ('0x1p', '0x1p1 != 0'), ('`', '1'), ('1 $$$$ 1', '1 + 1'), ('\\', '1'))
B('s', ('break;', 'while (0) break;'), ('continue;', 'while (0) continue;'), ('switch (1) { continue; }', 'switch (1) { break; }'), ('case ~: ;', 'switch (1) case ~: ;'), ('default: ;', 'switch (1) default: ;'), ('goto u$;', 'goto u$; u$: ;'), ('l$: ; l$: ;', 'l$: ; k: ;'), ('if gci;', 'if (gci) ;'), ('if () ;', 'if (1) ;'), ('if (gs) ;', 'if (gs.a) ;'), ('while (gs) ;', 'while (gs.a) break;'), ('for (;gs;) ;', 'for (;gs.a;) ;'), ('do ; while (gs);', 'do ; while (gs.a);'), ('while () ;', 'while (0) ;'), ('for (;) ;', 'for (;;) break;'), ('do ; (1);', 'do ; while (0);'), ('do ; while (0)', 'do ; while (0);') if 0 else ('else ;', 'if (1) ; else ;'), ('switch (gd) { }', 'switch (gci) { }'), ('switch (gp) { }', 'switch (*gp) { }'), ('switch (gs) { }', 'switch (gs.b) { }'), ('switch (1) { case gci: ; }', 'switch (1) { case EB: ; }'), ('switch (1) { case 1.5: ; }', 'switch (1) { case 1: ; }'), ('switch (1) { default: ; default: ; }', 'switch (1) { default: ; case 1: ; }'), ('switch (1) { case 1: ; case 1: ; }', 'switch (1) { case 1: ; case 2: ; }'), ('switch (1) { case 1 ; }', 'switch (1) { case 1: ; }'), ('switch (1) { case 5: { while (1) { case EB: break; } } }', 'switch (1) { case 4: { while (1) { case EB: break; } } }'), ('switch (gc) { case 65: ; case \'A\': ; }', 'switch (gc) { case 66: ; case \'A\': ; }'),
  ('{ gci }', 'gci;'), ('{ int x$ }', 'int x$;'), ('int y$ = und~$;', 'int y$ = ~;'), ('void y$;', 'void *y$;'), ('struct I y;', 'struct I *y;'), ('int y[-1];', 'int y[1];'), ('int y[2] = {1, 2, 3};', 'int y[2] = {1, 2};'), ('char y[2] = "abc";', 'char y[3] = "abc";'), ('int y[2] = 1;', 'int y[2] = {1};'), ('int y[2] = ai;', 'int *y = ai;'), ('struct S y = 1;', 'struct S y = {1};'), ('struct S y = {1, 2, {3}, 4};', 'struct S y = {1, 2, {3}};'), ('struct S y = gu;', 'struct S y = gs;'), ('int y = gs;', 'int y = gs.a;'), ('int *y = gd;', 'int *y = 0;'), ('double y = gp;', 'double y = gd;'), ('int y = {1, 2};', 'int y = {1};'), ('int y = ;', 'int y = 1;'), ('int y = 1, ;', 'int y = 1;'), ('int = 1;', 'int y = 1;'), ('int 1y;', 'int y1;'), ('static int y = gci2$;', 'static int y = 2;'), ('static int y = g(1);', 'static int y = 1;'), ('static int *y = gp;', 'static int *y = ai;'), ('static int y = ai[1];', 'static int *y = &ai[1];'), ('int y[3], z; static int *p = &z;', 'static int z; static int *p = &z;'), ('struct { int a; int a; } y;', 'struct { int a; int b; } y;'), ('struct { void a; } y;', 'struct { void *a; } y;'), ('struct { int a(void); } y;', 'struct { int (*a)(void); } y;'), ('struct { struct I a; } y;', 'struct { struct I *a; } y;'), ('struct { int a : 33; } y;', 'struct { int a : 32; } y;'), ('struct { char a : 9; } y;', 'struct { char a : 8; } y;'), ('struct { int a : -1; } y;', 'struct { int a : 1; } y;'), ('struct { int a : 0; } y;', 'struct { int a : 1, : 0; } y;'), ('struct { float a : 3; } y;', 'struct { short a : 3; } y;'), ('struct { int *a : 3; } y;', 'struct { int a : 3; } y;'), ('struct { int a[]; int b; } y;', 'struct { int b; int a[]; } y;'), ('struct { int a; struct { int a; }; } y;', 'struct { int a; struct { int b; }; } y;'), ('struct { int a } y;', 'struct { int a; } y;'), ('struct { int a = 1; } y;', 'struct { int a; } y;'), ('enum { A1 = gci } y;', 'enum { A1 = 1 } y;'), ('enum { A1 = 1.5 } y;', 'enum { A1 = 1 } y;'), ('enum { A1 = } y;', 'enum { A1 } y;'), ('enum E y = gs;', 'enum E y = EA;'), ('struct E y;', 'enum E y;'), ('enum S y;', 'struct S y;'), ('union S y;', 'union U y;'), ('struct U y;', 'union U y;'), ('int f$(void)[2];', 'int (*f$(void))[2];'), ('int f$(void)(void);', 'int (*f$(void))(void);'), ('int f$[2](void);', 'int (*f$[2])(void);'), ('void y[2];', 'void *y[2];'), ('int y[2][];', 'int y[2][1];'), ('int y[gs];', 'int y[2];'), ('int y[2.5];', 'int y[2];'), ('static int y[gci];', 'static int y[4];'), ('return;', 'return 0;') if 0 else ('return gs;', 'return gs.a;'), ('return v();', 'return g(1);'), ('{ return 1 }', 'return 1;'), ('return 1 2;', 'return 12;'), ('_Static_assert(0, "x");', '_Static_assert(1, "x");'), ('_Static_assert(gci, "x");', '_Static_assert(EB, "x");'), ('_Static_assert(sizeof(int) == 8, "x");', '_Static_assert(sizeof(int) == 4, "x");'), ('_Static_assert(1, 2);', '_Static_assert(1, "x");'), ('{ _Static_assert(1) }', '_Static_assert(1);'), ('_Alignas(3) int y;', '_Alignas(4) int y;'), ('_Alignas(gci) int y;', '_Alignas(8) int y;'), ('long long long y;', 'long long y;'), ('short double y;', 'short y;'), ('unsigned float y;', 'unsigned y;'), ('signed unsigned y;', 'signed y;'), ('int double y;', 'double y;'), ('int struct S y;', 'struct S y;'), ('T T2 y;', 'T y;'), ('char char y;', 'char y;'), ('extern int y = 1;', 'extern int y;'), ('extern double gci;', 'extern const int gci;'), ('int g(double);', 'int g(int);'), ('register static int y;', 'static int y;') if 0 else ('typedef int y = 1;', 'typedef int y;'), ('struct S *y = &gs, z$ = gs, w = gsp;', 'struct S *y = &gs, z$ = gs, *w = gsp;'), ('gs.a = 1; gs.c = gp;', 'gs.a = 1; gs.c[0] = *gp;'), ('int (y)(int a, b);', 'int (y)(int a, int b);') , ('int y; y(1);', 'int y; (void)y;'), ('struct S y = { .a = 1, .q$ = 2 };', 'struct S y = { .a = 1, .b = 2 };'), ('int y[3] = { [3] = 1 };', 'int y[3] = { [2] = 1 };'), ('int y[3] = { [gci] = 1 };', 'int y[3] = { [EA] = 1 };'), ('asm$ { }', '{ }'))
B('g', ('int a$ = und$~;', 'int a$ = ~;'), ('int a$; double a$;', 'int a$; int a$;'), ('int a$ = 1; int a$ = 2;', 'int a$ = 1; int a$;'), ('int a$(void) { return 1; } int a$(void) { return 2; }', 'int a$(void); int a$(void) { return 2; }'), ('int a$(int); int a$(double);', 'int a$(int); int a$(int);'), ('int a$(int); double a$(int);', 'double a$(int); double a$(int);'), ('int a$(int x) { return x; } int a$(int, int);', 'int a$(int x) { return x; } int a$(int);'), ('int a$; int a$(void);', 'int a$; int b(void);'), ('typedef int a$; int a$;', 'typedef int a$; typedef int a$;'), ('typedef int a$; typedef double a$;', 'typedef int a$; a$ b;'), ('enum { A1 = 1 }; enum { A1 = 2 };', 'enum { A1 = 1 }; enum { A2 = 2 };'), ('enum { A1 = 1 }; int A1;', 'enum { A1 = 1 }; int A2;'), ('struct X$ { int a; }; struct X$ { double a; };', 'struct X$ { int a; }; struct Y$ { double a; };'), ('struct X$ { int a; }; union X$ q;', 'union X$ { int a; }; union X$ q;'), ('struct X$ { struct X$ a; };', 'struct X$ { struct X$ *a; };'), ('struct X$ { struct I2 a; }; struct I2;', 'struct X$ { struct I2 *a; }; struct I2;'), ('struct X$ { int a; int b; char a; };', 'struct X$ { int a; int b; char c; };'), ('struct X$ { int; };', 'struct X$ { int a; };'), ('struct X$ { int a', 'struct X$ { int a; };'), ('enum X$ { Q1 = 0x100000000 };', 'enum X$ { Q1 = 0x7fffffff };'), ('int a$ = g(1);', 'int (*a$)(int) = g;'), ('int a$ = gci + 1;', 'const int *a$ = &gci + 1;'), ('int *a$ = gp;', 'int **a$ = &gp;'), ('int a$ = *&gci;', 'int a$ = sizeof *&gci;'), ('int a$ = gs.a;', 'int *a$ = &gs.a;'), ('char a$ = "x"[~];', 'const char *a$ = "x";') if 0 else ('int a$ = ai[2];', 'int *a$ = ai + 2;'), ('int a$[2] = {1, 2, 3};', 'int a$[] = {1, 2, 3};'), ('int a$[3] = {[3] = 1};', 'int a$[] = {[3] = 1};'), ('char a$[3] = "abcd";', 'char a$[] = "abcd";'), ('int a$[2] = "ab";', 'char a$[2] = "ab";'), ('struct S a$ = {1, 2, 3, 4, 5, 6, 7};', 'struct S a$ = {1, 2, 3, 4, 5, 6};'), ('struct S a$ = gs;', 'struct S *a$ = &gs;'), ('int a$[-1];', 'int a$[1];'), ('int a$[gci];', 'int a$[EB];'), ('int a$[2.0];', 'int a$[2];'), ('int a$[][];', 'int a$[][2] = {1};'), ('void a$;', 'void *a$;'), ('void a$[3];', 'void *a$[3];'), ('struct I3 a$;', 'struct I3 *a$;'), ('int a$(void)[3];', 'int (*a$(void))[3];'), ('int a$[2](int);', 'int (*a$[2])(int);'), ('int a$(int)(int);', 'int (*a$(int))(int);'), ('static extern int a$;', 'static int a$;'), ('int a$ = {1, 2};', 'int a$ = {1};'), ('int a$ = {};', 'int a$ = {0};') if 0 else ('int (a$;', 'int (a$);'), ('int a$)', 'int a$;'), ('int a$ b;', 'int a$, b;'), ('int a$ = 1 +;', 'int a$ = 1 + 1;'), ('a$ b;', 'int b;'), ('foo$(1);', 'int foo$(int);'), ('1;', 'int b;'), ('}', '') if 0 else ('int a$(int x) { return x;', 'int a$(int x) { return x; }'), ('return 1;', 'int b;'), ('if (1) ;', 'int b;'), ('int a$(struct I3 x) { return 0; }', 'int a$(struct I3 *x) { return 0; }'), ('struct I3 a$(void) { }', 'struct S a$(void) { return gs; }'), ('int a$(int x = 1);', 'int a$(int x);'), ('void a$(void) { return 1; }', 'void a$(void) { return; }'), ('int a$(void) { return; }', 'int a$(void) { return 1; }') , ('int *a$(void) { return 1.5; }', 'int *a$(void) { return 0; }'), ('struct S a$(void) { return gu; }', 'struct S a$(void) { return gs; }'), ('int a$(void) = 1;', 'int a$(void);'), ('typedef int a$(void) { return 1; }', 'int a$(void) { return 1; }'), ('typedef T9 a$;', 'typedef T a$;'), ('_Static_assert(0, "m");', '_Static_assert(1, "m");'), ('_Static_assert(1 / 0, "m");', '_Static_assert(1 / 1, "m");'), ('_Static_assert(sizeof(struct S) == 1, "m");', '_Static_assert(sizeof(struct S) == 24, "m");'), ('_Static_assert(gci, "m");', '_Static_assert(EB, "m");'), ('int a$ = 1 / 0;', 'int a$ = 1 / 1;'), ('int a$ = 1 % (1 - 1);', 'int a$ = 1 % 1;'), ('int a$ = (int)gs;', 'int a$ = sizeof(gs);'), ('_Alignas(3) int a$;', '_Alignas(16) int a$;'), ('__declspec(align(5)) int a$;', '__declspec(align(32)) int a$;'), ('inline int a$;', 'inline int a$(void) { return 1; }'), ('_Noreturn int a$;', '_Noreturn int a$(void);'), ('int long long long a$;', 'int long long a$;'), ('unsigned double a$;', 'unsigned a$;'), ('short long a$;', 'short a$;'), ('__declspec(dllimport) int a$ = 1;', '__declspec(dllimport) int a$;'), ('__declspec(dllimport) int a$(void) { return 1; }', '__declspec(dllimport) int a$(void);'), ('static __declspec(dllexport) int a$(void) { return 1; }', '__declspec(dllexport) int a$(void) { return 1; }'), ('static __declspec(dllimport) int a$(void);', '__declspec(dllimport) int a$(void);'),
  ('int a$(int b) { l1: ; l1: return b; }', 'int a$(int b) { l1: ; l2: return b; }'), ('int a$(int b) { { goto l3; } } int b$(void) { l3: return 1; }', 'int a$(int b) { { goto l3; } l3: return 1; }'), ('struct X$ { int a : 40; };', 'struct X$ { long long a : 40; };'), ('struct X$ { int a : gci; };', 'struct X$ { int a : EB; };'), ('struct X$ { double a : 3; };', 'struct X$ { int a : 3; };'), ('struct X$ { int x[]; char y; };', 'struct X$ { int y; char x[]; };'), ('struct X$ { int f(int); };', 'struct X$ { int (*f)(int); };'), ('union X$ { struct I4 x; };', 'union X$ { struct I4 *x; };'), ('typedef struct { int a; } A$; struct A$ x;', 'typedef struct { int a; } A$; A$ x;'), ('extern struct X9 a$; int b$(void) { return a$.a; }', 'extern struct X9 { int a; } a$; int b$(void) { return a$.a; }'), ('int a$(int (*p)(int)) { return p(); }', 'int a$(int (*p)(int)) { return p(2); }'), ('int a$(const char *f, ...) { va_start(f); }', 'int a$(const char *f, ...) { return 0; }') if 0 else ('int a$ = sizeof(struct X9);', 'int a$ = sizeof(struct S);'))
B('p', ('#error x$', '#define x$ 1'), ('#foo$', '#pragma once'), ('#if', '#if 1\n#endif'), ('#if 1 +\n#endif', '#if 1 + 1\n#endif'), ('#if (1\n#endif', '#if (1)\n#endif'), ('#if 1 / 0\n#endif', '#if 1 / 1\n#endif'), ('#if 1 % 0\n#endif', '#if 1 % 1\n#endif'), ('#if 1 2\n#endif', '#if 12\n#endif') if 0 else ('#if 1 ? 2\n#endif', '#if 1 ? 2 : 3\n#endif'), ('#if "a"\n#endif', "#if 'a'\n#endif"), ('#if 1.5\n#endif', '#if 15\n#endif'), ('#if defined\n#endif', '#if defined x\n#endif'), ('#if defined(x\n#endif', '#if defined(x)\n#endif'), ('#if 1', '#if 1\n#endif'), ('#ifdef x', '#ifdef x\n#endif'), ('#endif', ''), ('#else', ''), ('#elif 1', ''), ('#if 1\n#else\n@#else\n#endif', '#if 1\n#else\n#endif'), ('#if 1\n#else\n@#elif 1\n#endif', '#if 1\n#elif 1\n#else\n#endif'), ('#if 0\n@#elif 1 +\n#endif', '#if 0\n#elif 1 + 1\n#endif'), ('#if 0\n@#elif\n#endif', '#if 0\n#elif 0\n#endif'), ('#define', '#define x'), ('#define 1x', '#define x1'), ('#define defined', '#define define'), ('#define f(x', '#define f(x)'), ('#define f(x,) x', '#define f(x,y) x'), ('#define f(1) x', '#define f(a) x'), ('#define f(a,a) x', '#define f(a,b) x'), ('#define f(a ...) x', '#define f(a, ...) x') if 0 else ('#define f(..., a) x', '#define f(a, ...) x'), ('#define f(a) #b', '#define f(a) #a'), ('#define f(a) ## a', '#define f(a) a ## a'), ('#define f(a) a ##', '#define f(a) a'), ('#define x ## a', '#define x a ## a'), ('#undef', '#undef x'), ('#undef 1', '#undef x'), ('#include', ''), ('#include x', ''), ('#include "no$.h"', '#include "ok.h"'), ('#include <no$.h>', '#include "ok.h"'), ('#include "ok.h', '#include "ok.h"'), ('#include <ok.h', '#include "ok.h"'), ('#include 1', '#include "ok.h"'), ('#define f(a) a\nint x$ =\n@f(1,2);', '#define f(a) a\nint x$ = f(1);'), ('#define f(a,b) a\nint x$ =\n@f(1);', '#define f(a,b) a\nint x$ = f(1,2);'), ('#define f(a) a\nint x$ =\n@f(1;', '#define f(a) a\nint x$ = f(1);'), ('#define f(a) 1 / a\n@int x$ = f(0);', '#define f(a) 1 / a\nint x$ = f(1);'), ('#define g1 und$\n@int x$ = g1;', '#define g1 3\nint x$ = g1;'), ('/* ', '/* */'), ('#if 0\n#if 1\n#endif', '#if 0\n#if 1\n#endif\n#endif'), ('_Pragma(1)', '') if 0 else ('int x$ = 5$z;', 'int x$ = 5;'), ("int x$ = 'a;", "int x$ = 'a';"), ('#line', '#line 3') if 0 else ('#embed', ''), ('#embed "no$"', ''), ('#pragma comment(foo$)', '') if 0 else ('#define x$ (\n@int y = x$ 1;', '#define x$ (\nint y = x$ 1);'))
# rejected exactly if the condition holds: ~ are the digits d[0], d[1], .., \x02 the lower-case letters l[0], l[1], ..
IFF = [
 ('s', 'switch (gci) { case 1~: ; case 1~: ; }', 'd[0] == d[1]'), ('s', "switch (gc) { case 4~: ; default: ; case '~': ; }", '40 + d[0] == 48 + d[1]'), ('s', 'switch (gull) { case 2~: ; case 5: ; case 0x1~: { case 0: ; } }', '20 + d[0] == 16 + d[1]'), ('s', 'switch (gci) { case -~: ; case 3 - ~: ; case 7 * 4: ; }', '3 - (int)d[1] == -(int)d[0]'), ('s', 'switch (ge) { case EB: ; case EA + ~: ; }', 'd[0] == 5'), ('s', 'switch (gci) { case ~: switch (gci) { case ~: ; case 4: ; } case 5: ; }', 'd[0] == 5 || d[1] == 4'),
 ('g', '_Static_assert(~ < ~, "m");', '!(d[0] < d[1])'), ('g', '_Static_assert(~ * ~ == 12, "m");', 'd[0] * d[1] != 12'), ('s', '_Static_assert(sizeof(char[1~]) == 1~, "m");', 'd[0] != d[1]'), ('g', '_Static_assert((~ & ~) || 0, "m");', '!(d[0] & d[1])'), ('g', 'struct X$ { char a[~1]; }; _Static_assert(sizeof(struct X$) != 41, "m");', 'd[0] == 4'),
 ('g', 'int a$[\x03] = {1, 2, 3};', 'd[0] == 0 ? 2 : d[0] < 3'), ('g', 'int a$[4] = {[~] = 1};', 'd[0] >= 4'), ('g', 'int a$[6] = {[~] = 1, 2, 3};', 'd[0] >= 4'), ('g', 'int a$[3][2] = {[~][~] = 1};', 'd[0] >= 3 || d[1] >= 2'), ('g', 'char a$[\x03] = "abcd";', 'd[0] == 0 ? 2 : d[0] < 4'), ('s', 'char a$[~] = {"ab"};', 'd[0] == 0 ? 2 : d[0] < 2'), ('s', 'int y[~] = {1, 2, 3, 4};', 'd[0] == 0 ? 2 : d[0] < 4'), ('e', '(struct S){.c[~] = 1}.a', 'd[0] >= 4'), ('e', '(int[~]){1,2,3}[0]', 'd[0] == 0 ? 2 : d[0] < 3'), ('e', '(struct S){1, 2, .c = {[~] = 4}}.b', 'd[0] >= 4'),
 ('g', 'struct X$ { char a : ~; };', 'd[0] == 0 || d[0] > 8'), ('g', 'struct X$ { short a : 1~; };', 'd[0] > 6'), ('g', 'struct X$ { int a : 3~; };', 'd[0] > 2'), ('g', 'struct X$ { unsigned long long b : 3, a : 6~; };', 'd[0] > 4'), ('s', 'struct { _Bool a : ~; } y;', 'd[0] != 1') if 0 else ('s', 'struct { unsigned a : ~, b : 2~, : 0; char c : ~; } y;', 'd[0] == 0 || d[2] == 0 || d[2] > 8'),
 ('g', 'enum { A$ = ~ }; enum { B$ = 1 / A$ };', 'd[0] == 0'), ('g', 'int a$ = ~ / ~;', 'd[1] == 0'), ('g', 'int a$ = ~ % (~ - ~);', 'd[1] == d[2]'), ('g', 'int a$[\x03 - \x03];', 'd[0] == d[1] ? 2 : d[0] < d[1]'), ('g', 'extern int a$[1~]; int a$[1~];', 'd[0] != d[1]'), ('g', 'enum { A$ = ~ }; enum { A$ = ~ };', 'd[0] != d[1]'), ('g', 'struct X$ { int a[1~]; }; struct X$ { int a[1~]; };', 'd[0] != d[1]'), ('g', 'struct X$ { int a : 1~; }; struct X$ { int a : 1~; };', 'd[0] != d[1]') if 0 else ('g', 'typedef int A$[1~]; typedef int A$[1~];', 'd[0] != d[1]'), ('g', 'int a$(int x[1~], int (*y)[1~]); int a$(int *x, int (*y)[1~]);', 'd[1] != d[2]'),
 ('g', '__declspec(align(1~)) int a$;', 'd[0] != 6'), ('g', '_Alignas(6~) int a$;', 'd[0] != 4'), ('s', '_Alignas(3~) char y;', 'd[0] != 2'),
 ('e', '0~~', 'd[0] > 7 || d[1] > 7'), ('e', '0b1~~', 'd[0] > 1 || d[1] > 1'), ('e', "'\\\\x1~~'" if 0 else '0o1~', 'd[0] > 7'),
 ('p', '#if ~ / ~\n#endif', 'd[1] == 0'), ('p', '#if 4 % (~ - ~)\n#endif', 'd[0] == d[1]'), ('p', '#if ~ == ~\n@#error x\n#endif', 'd[0] == d[1]'), ('p', '#if ~ < 3\n#elif ~ > 6\n@#error x\n#endif', 'd[0] >= 3 && d[1] > 6'), ('p', '#if ~\n#else\n@#error x\n#endif', 'd[0] == 0'), ('p', '#if 0 && 1 / ~\n#elif 1 / ~\n#endif', '0') if 0 else ('p', '#if ~ && 1 / 0\n#endif', 'd[0] != 0'),
 ('p', '#define f(a\x02,a\x02) 1\nint x$ = f(1,2);', 'l[0] == l[1]'), ('p', '#define f(a\x02) #a\x02\nchar *x$ = f(1);', 'l[0] != l[1]'), ('p', '#ifdef q\x02\n#elif 1\n#else\n#endif\n#define q\x02\n#ifdef qt\n@#error x\n#endif', "l[1] == 't'"),
 ('p', '#include "q\x02.h"', "l[0] != 'k'"), ('p', '#define Q "q\x02.h"\n@#include Q', "l[0] != 'k'") if 0 else ('p', '#define M\x02 1\n#undef M\x02\n#ifdef Mb\n@#error x\n#endif', "l[0] == 'b' && l[1] != 'b'"),
 ('g', 'struct X$ { int a\x02; int b, a\x02; };', 'l[0] == l[1]'), ('g', 'struct X$ { int a\x02; union { int b; struct { char a\x02; }; }; };', 'l[0] == l[1]'), ('s', 'int v\x02 = 1; r = v\x02;', 'l[0] != l[1]'), ('s', '{ int v\x02 = 1; { r = v\x02; } }', 'l[0] != l[1]'), ('s', '{ int vq = 1; } r = v\x02;', '1'), ('s', 'goto L\x02; { L\x02: ; }', 'l[0] != l[1]'), ('s', 'K\x02: ; { K\x02: ; }', 'l[0] == l[1]'), ('g', 'int f\x02(void) {return 1;} int f\x02(void) {return 2;}', 'l[0] == l[1]'), ('g', 'int o\x02 = 1; static int o\x02 = 2;', 'l[0] == l[1]'), ('g', 'int f\x02(int); char f\x02(int);', 'l[0] == l[1]'), ('g', 'struct X$ { int m\x02; } x$; int fx(void) { return x$.m\x02; }', 'l[0] != l[1]'), ('g', 'struct X$ { int z; struct { int m\x02; }; }; int fx(struct X$ *p) { return p->m\x02 + p->z; }', 'l[0] != l[1]'), ('g', 'struct X$ { int m\x02, n; } x$ = { .m\x02 = 1 };', 'l[0] != l[1]'), ('g', 'typedef int T\x02; T\x02 x$;', 'l[0] != l[1]'), ('g', 'struct T\x02 { int a; }; struct T\x02 x$;', 'l[0] != l[1]'), ('g', 'enum { A\x02 = 3 }; int x$ = A\x02;', 'l[0] != l[1]'), ('g', 'enum { A\x02 = 3 }; int A\x02;', 'l[0] == l[1]'), ('g', 'typedef int A\x02; double A\x02;', 'l[0] == l[1]'), ('g', 'struct T\x02 { int a; }; union T\x02 { int a; };', 'l[0] == l[1]'), ('g', 'int f$(int p\x02) { return p\x02; }', 'l[0] != l[1]'), ('e', '_Generic(1, in\x02: 2, char: 3)', "l[0] != 't'"), ('s', '\x02nt y = 1; r = y;', "l[0] != 'i'"), ('s', 'retur\x02 2;', "l[0] != 'n'"), ('g', 's\x02atic int a$;', "l[0] != 't'"), ('s', 'i\x02 (1) ;', "l[0] != 'f'"),
]
B('e', *[('gp %s gp' % o, '*gp %s gci' % o) for o in ('*', '/', '%', '&', '^', '|', '<<', '>>')], *[('(gp %s gp) != 0' % o, '(gp += gci) != 0') for o in ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=')], *[('(*gp %s gp)' % o, '(*gp %s gci)' % o) for o in ('+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>=')],
  ('\x01gp != 0', '\x01*gp'), ('(gd + gp) != 0', '(gd + gci) != 0'), ('(gp + gf) != 0', '(gp + 1) != 0'), ('gfp * gfp', '(gfp == gfp)'), ('g + g', '(g == g)'), ('(ai + ai) != 0', 'ai - ai'), ('("a" + "b") != 0', '("a" + 1) != 0'), ('(gvp + gvp) != 0', '(gvp == gvp)'), ('gs ^ gs', 'gs.a ^ gs.b'), ('gs / gs', 'gs.a / 3'), ('gs.c + gs.c != 0', 'gs.c + 1 != 0'), ('(gs += gs).a', '(gs = gs).a'), ('(gs |= gu).a', '(gs.a |= gu.a)'), ('(gs.c = gs.c)[0]', '(gs.c[1] = gs.c[0])'), ('gs.a.b', 'gs.c[1]'), ('gsp->a->b', 'gsp->b'), ('gsp.c[~]', 'gsp->c[1]') if 0 else ('ai.a', 'ai[0]'), ('ai->a', 'ai[1]'), ('g.a', 'g(1)'), ('g->a', 'g(2)'), ('g[~]', 'g(~)'), ('gfp[1]', 'gfp(1)'), ('*gs.a', '*gs.c'), ('**gp', '**&gp'), ('&*gci != 0', '&*gp != 0'), ('gbool++', '*gp += 1') if 0 else ('gb.q$', 'gb.a'), ('sizeof(gb.a)', 'sizeof(gb)') if 0 else ('gsp->c.a', 'gsp->c[0]'))
