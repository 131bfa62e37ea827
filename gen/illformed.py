"""A catalogue of violations of C's syntax rules and constraints, by where they can stand."""

ENV = """struct S { int a; char b; struct S *n; int arr[3]; };
struct T { int a; long z; };
struct I;
enum E { E0, E1, E2 };
typedef int TI;
typedef struct S TS;
int gi; long gl; char gc; unsigned int gu; int ga[5]; int gm[2][3]; int *gp; char *gcp; long *glp; int **gpp; struct S gs; struct S *gps; struct S gsa[2]; struct T gt; struct T *gpt;
struct I *gpi; void *gv; int (*gf)(int x); int (*gpa)[3]; enum E ge;
int f1(int x); int f0(void); void fv(void); int f2(int x, char *y); void fp(int *p); int *fr(void);
"""

# expressions: name -> text.  Each breaks a rule on its own, wherever an expression may stand.
EXPR = {
    # names
    "undeclared": ["zz", "zz + 1", "gi + zz", "zz(1)", "zz->a", "zz.a", "zz[1]", "&zz", "*zz", "zz = 1", "gi = zz", "zz++", "--zz", "f1(zz)", "ga[zz]", "!zz",
                   "gi ? zz : 1", "gi ? 1 : zz", "zz ? 1 : 2", "(int)zz", "sizeof(zz)", "gi && zz", "zz || gi", "f2(1, zz)", "-zz", "zz == 1", "gi += zz", "zz -= 1", "gp = &zz", "E5", "gii", "g", "GI", "gi_"],
    "tag is not a variable": ["S", "S.a", "E", "gi = T"],
    "member is not a variable": ["arr[0]", "a", "gi + b", "z"],
    "unknown member": ["gs.zz", "gps->zz", "gs.arr2", "gt.b", "gpt->arr", "gsa[0].zz", "gs.n->zz", "gps->n->n->zz", "&gs.zz", "gs.zz = 1", "(*gps).zz", "gs.gi"],
    "member of a non-struct": ["gi.a", "gp.a", "gps.a", "ga.a", "f0.a", "gs.a.b", "gps->n.a", "gs.arr.a", "5 .a", "gl.z"],
    "arrow on a non-pointer to struct": ["gi->a", "gp->a", "gs->a", "gv->a", "gpi->a", "gpi->zz", "f0->a", "gs.a->b", "gcp->a", "gps->b->a", "gpp->a", "5->a", "gm->a"],
    "dereference of a non-pointer": ["*gi", "*gs", "*5", "**gp", "*gs.a", "*gl", "***gpp", "*gps->a", "*(gi + 1)", "*f0()", "*ga[0]", "*'a'"],
    "subscript without a pointer": ["gi[0]", "gs[0]", "gi[gi]", "5[3]", "gp[0][0]", "ga[0][1]", "gl[gc]", "gs.a[0]", "f0()[0]"],
    "subscript is not an integer": ["ga[gp]", "gp[gs]", "gp[gp]", "ga[ga]", "gs[gp]", 'gp["x"]', "ga[gv]"],
    "address of a value": ["&5", "&(gi + 1)", "&f0()", "&E0", "&(gi ? gi : gi)", "&gi++", "&-gi", "&(int)gi", "&&gi", "&'a'", "&(gi = 1)", "&!gi", "&sizeof(int)"],
    "call of a non-function": ["gi()", "gi(1)", "gs()", "gp(1)", "5()", "ga(0)", "f0()()", "E0()", "gs.a(1)", "(gi)()"],
    "argument count": ["f1()", "f1(1, 2)", "f0(1)", "fv(0)", "f2(1)", "f2()", "gf()", "gf(1, 2)", "(*gf)()", "fp()", "f2(1, gcp, 3)", "(*f1)()"],
    "argument type": ["f1(gs)", "f1(gp)", "f2(1, 2)", "f2(1, gp)", "f2(gp, gcp)", "f2(gs, gcp)", "gf(gs)", "gf(gp)", "fp(gi)", "fp(gcp)", "fp(glp)", "fp(&gp)", "f1(ga)", "f1(fv())", "fp(fv())", 'fp("abc")', 'f1("a")', "fp(gs)", "fp(5)", "fp(gps)"],
    "void value used": ["fv() + 1", "1 - fv()", "gi = fv()", "!fv()", "-fv()", "fv() ? 1 : 2", "fv() && 1", "1 || fv()", "ga[fv()]", "fv() == 1", "fv() * 2", "gi += fv()", "*fv()", "fv() < 1", "fv()->a", "fv().a", "fv()[0]", "~fv()", "fv() << 1", "gl & fv()", "(int)fv()", "&fv()", "fv()++"],
    "operands of * / %": ["gp * 2", "2 * gp", "gs * 2", "2 / gs", "gp / 2", "gp % 2", "gi % gs", "gp * gp", "ga * 2", "f0 * 2", "2 % gp", "ga / ga", '"a" * 2', "gv / 2"],
    "operands of +": ["gp + gp", "gs + 1", "1 + gs", "gs + gs", "gp + gs", "ga + gp", "gpi + 1", '"a" + "b"', "gs + gp", "1 + gpi"],
    "operands of -": ["gi - gp", "gs - 1", "1 - gs", "gp - gs", "gp - gcp", "gcp - gp", "gps - gp", "gp - gpp", "5 - ga", "gpi - 1", "gps - gpt", "gs - gs", "glp - gp"],
    "operands of shifts": ["gp << 1", "1 << gp", "gs << 1", "1 >> gs", "gp >> gp", "ga << 1", "gi >> ga"],
    "operands of bit operators": ["gp & 1", "1 & gp", "gs & 1", "gp | gp", "gs | gs", "gp ^ 1", "1 ^ gs", "~gp", "~gs", "~ga", "ga | 1", "gs ^ gp"],
    "operands of unary": ["-gp", "+gp", "-gs", "+gs", "!gs", "-ga", "+f0", "-gps"],
    "operands of relations": ["gs < 1", "gs > gs", "gp < gcp", "gp > 1", "1 <= gp", "gp >= gps", "gs <= gp", "gi < gp", "ga > 3", "gp < gpp", "glp >= gp"],
    "operands of equality": ["gs == gs", "gs != gt", "gs == 1", "gp == gcp", "gp != gps", "gp == 5", "5 != gp", "gi == gp", "gp == gs", "gps == gpt", "gpp == gp"],
    "operands of && ||": ["gs && 1", "1 && gs", "gs || 1", "1 || gs", "gt && gs"],
    "operands of ?:": ["gs ? 1 : 2", "gi ? gs : 1", "gi ? 1 : gs", "gi ? gp : gcp", "gi ? gs : gt", "gi ? gp : gps", "gi ? gp : 5", "gi ? gs : gp"],
    "not an lvalue": ["5 = gi", "gi + 1 = 2", "f0() = 1", "E0 = 1", "-gi = 1", "gi++ = 2", "(gi = 1) = 2", "gi ? gi : gi = 3", "'a' = 1", "&gi = gp", "!gi = 1", "sizeof(gi) = 3", "(int)gi = 2", "gi == 1 = 2", "(gi + gi) = gi", "5 += 1", "gi + 1 *= 2", "f0() -= 1",
                      "f0()++", "5++", "--5", "++f0()", "gi++ ++", "++gi++", "-gi++ = 1", "--(gi + 1)", "(gi + 1)++", "E1++", "++E0", "(int)gi++ = 1", "gp + 1 = gp"],
    "not modifiable": ["ga = gp", "ga = ga", "ga++", "--ga", "f0 = f0", "f0++", "ga += 1", "gs.arr = gp", "gm[0] = gp", "gs.arr++", "gps->arr = ga", '"abc" = gcp', "gm[1]++"],
    "assignment types": ["gi = gs", "gs = gi", "gs = gt", "gp = gcp", "gp = gi", "gi = gp", "gp = gs", "gs = gp", "gps = gpt", "gps = gp", "gp = &gp", "gpp = gp", "gpp = &gcp", "gcp = gl", "gl = gcp", "gc = gp", "gp = 5", 'gp = "abc"', 'gi = "a"', "gf = gi", "gs.a = gs", "gs.n = gs",
                         "gps->n = gpt", "ga[0] = gp", "*gp = gp", "*gpp = gcp", "gp = gm", "gpa = gp", "gi = ga", "gi = f0", "gf = f0", "gf = f2", "ge = gp", "gcp = gp", "glp = gp", "gp = glp", "gf = gp"],
    "compound assignment types": ["gi += gp", "gp += gp", "gp *= 2", "gp += gs", "gi <<= gp", "gs += 1", "gi += gs", "gp /= 2", "gp %= 2", "gp &= 1", "gp |= 1", "gp ^= 1", "gp <<= 1", "gp >>= 1", "gi *= gs", "gi -= gp", "gp -= gp", "gs -= gs", "gi /= gp", "gi %= gs", "gi &= gp", "gi |= gs", "gi ^= gp", "gi >>= gs", "gpi += 1"],
    "increment types": ["gs++", "++gs", "gs--", "--gs", "gpi++", "--gpi"],
    "casts": ["(int)gs", "(struct S)gi", "(struct S)gt", "(int [3])gi", "(char)gs", "(int *)gs", "(struct T)gs", "(long)fv()", "(int (void))gi"],
    "sizeof": ["sizeof(struct I)", "sizeof(f0)", "sizeof(struct Zzz)", "sizeof(*gpi)", "sizeof(zz)", "sizeof(gs.zz)", "sizeof(int) sizeof", "sizeof(struct S) + gs", "sizeof(gi(1))", "sizeof(fv())"],
    "types as values": ["TI", "TI + 1", "gi = TI", "TS", "int", "f1(TI)", "f1(int)", "ga[TI]", "TI()"],
    "incomplete objects": ["gpi[0]", "gv[0]", "gi = *gv", "gs = *gpi", "f1(*gpi)"],
    "syntax": ["gi +", "gi + * ", "()", "(gi", "gi)", "ga[", "ga[]", "f1(,)", "f1(1,)", "f1(,1)", "gi gi", "1 2", "gi = = 1", "gs.", "gs.1", "->a", ".a", "sizeof", "sizeof()", "(int", "(int)", "gi ? 1", "gi ? 1 :", "gi ? : ", "? 1 : 2", "* / 2", "gi % % 2", "gi ! 1", "gi ~ 1",
               "gi === 1", "gi <> 1", "gi =! = 1", "gi <<< 1", "ga[1", "ga 1]", "ga[1)", "(gi]", "f1(1", "f1 1)", "gs..a", "gs->->a", "gs-> a b", "1 gi", "gi 1", "'a' 'b'", "gi {", "[1]", "{1}", "if", "while", "return", "else", "struct", "gi if", "break", "int + 1", "enum", "typedef", "gi & & & gi", "! ", "&", "*", "- -", "gi --- - ", "gi + + ", "f1((1)", "((gi)"],
    "tokens": ["gi @ 1", "gi # 1", "gi ` 1", "@", "#", "`", "$ 1", "\\", "gi \\ 1", "''", "'a", "\"abc", "'", "09", "0x", "1abc", "0xg", "08", "0b2", "0_", "12_", "1uu", "1lll", "1lul", "'\\q'", "'\\x'", '"\\x"', "0x1.2.3", "1u1", "07a", "99999999999999999999", "0xfffffffffffffffff"],
}

# statements: (text, needs) ; {} stands for nothing.  'v' only in void functions, 'i' only in int functions, 'o' only outside loops and switches
STMT = {
    "break outside": [("break;", "o"), ("if (gi) break;", "o"), ("{ { break; } }", "o"), ("if (gi) ; else break;", "o"), ("while (gi) ; break;", "o"), ("switch (gi) { case 1: ; } break;", "o"), ("for (;;) { } break;", "o")],
    "continue outside": [("continue;", "o"), ("if (gi) continue;", "o"), ("switch (gi) { case 1: continue; }", "o"), ("{ { continue; } }", "o"), ("while (gi) ; continue;", "o"), ("switch (gi) { default: { continue; } }", "o"), ("for (gi = 0; gi < 3; gi++) ; continue;", "o")],
    "case outside": [("case 1: ;", "o"), ("default: ;", "o"), ("if (gi) case 1: ;", "o"), ("if (gi) default: ;", "o"), ("while (gi) { case 3: gi++; }", "o"), ("{ default: gi = 1; }", "o"), ("switch (gi) { case 1: ; } case 2: ;", "o"), ("for (;;) { default: ; }", "o"), ("switch (gi) { } default: ;", "o")],
    "duplicate case": [("switch (gi) { case 1: ; case 1: ; }", ""), ("switch (gi) { case 1: ; case 2: ; case 3: ; case 1: ; }", ""), ("switch (gi) { case 'a': ; case 97: ; }", ""), ("switch (gi) { case E1: ; case 1: ; }", ""), ("switch (gi) { case 0: { case 0: ; } }", ""), ("switch (gi) { case 5: if (gi) { while (gi) { case 5: ; } } }", ""),
                       ("switch (gi) { case E0: ; case E0: ; }", ""), ("switch (gi) { case 1: switch (gl) { case 2: ; case 2: ; } }", ""), ("switch (gi) { case 1: switch (gl) { case 2: ; } case 1: ; }", ""), ("switch (gc) { case 0x10: ; case 16: ; }", ""), ("switch (gl) { case 020: ; case 16L: ; }", ""), ("while (gi) switch (gi) { case 4: break; case 4: break; }", "")],
    "two defaults": [("switch (gi) { default: ; default: ; }", ""), ("switch (gi) { default: ; case 1: ; default: ; }", ""), ("switch (gi) { default: { default: ; } }", ""), ("switch (gi) { default: switch (gi) { default: ; } default: ; }", ""), ("switch (gi) { case 1: switch (gi) { default: ; default: ; } }", ""), ("switch (gi) { default: while (gi) { default: ; } }", "")],
    "case is not constant": [("switch (gi) { case gi: ; }", ""), ("switch (gi) { case f0(): ; }", ""), ("switch (gi) { case gp: ; }", ""), ('switch (gi) { case "a": ; }', ""), ("switch (gi) { case ga[0]: ; }", ""), ("switch (gi) { case gs: ; }", ""), ("switch (gi) { case zz: ; }", ""), ("switch (gi) { case E5: ; }", "")],
    "switch on a non-integer": [("switch (gp) { case 1: ; }", ""), ("switch (gs) { }", ""), ("switch (ga) { case 0: ; }", ""), ("switch (fv()) { }", ""), ("switch (f0) { default: ; }", ""), ('switch ("a") { default: ; }', "")],
    "condition": [("if (gs) ;", ""), ("while (gs) ;", ""), ("for (; gs; ) ;", ""), ("if (fv()) ;", ""), ("while (fv()) ;", ""), ("for (; fv(); ) ;", ""), ("if (gt) ; else ;", ""), ("if (*gps) ;", ""), ("while (gsa[0]) ;", "")],
    "return": [("return 1;", "v"), ("return gi;", "v"), ("return;", "i"), ("return gs;", "i"), ("return gp;", "i"), ("return fv();", "i"), ('return "a";', "i"), ("if (gi) return; ", "i"), ("while (gi) { return gp; }", "i"), ("return ga;", "i"), ("return gps;", "i"), ("{ { return 5; } }", "v"), ("return zz;", "i"), ("switch (gi) { case 1: return; }", "i"), ("if (gi) return 1; else return;", "i"), ("return f0;", "i")],
    "syntax": [("gi = 1", ""), ("if gi ;", ""), ("if () ;", ""), ("if (gi ;", ""), ("while () ;", ""), ("while gi ;", ""), ("for (gi) ;", ""), ("for (;) ;", ""), ("for (;;;) ;", ""), ("for ;;) ;", ""), ("else ;", ""), ("if (gi) ; else ; else ;", ""), ("{", ""), ("}", ""), ("{ gi = 1; ", ""), ("switch gi { }", ""), ("switch () { }", ""), ("switch (gi) { case : ; }", "o"), ("switch (gi) { case 1 ; }", "o"), ("switch (gi) { case 1: }", "o"), ("switch (gi) { default ; }", "o"), ("return", ""), ("break", ""),
               (") ;", ""), ("] ;", ""), ("gi = 1,;", ""), ("while (gi) }", ""), ("if (gi) else ;", ""), ("int;x", ""), ("gi = (1;", ""), (": ;", ""), ("for (gi = 0; gi < 3) ;", ""), ("return 1 2;", "i"), ("f1(1", ""), ("break 1;", ""), ("continue 2;", ""), ("struct S { int a; } ;;)", ""), ("if (gi) { gi = 1; ", ""), ("switch (gi) { case 1: gi = 2; ", ""), ("while (1) { ", ""), ("gi++", ""), ("++ ;", ""), ("return return;", "")],
}

# declarations: block (b) and/or file scope (f)
DECL = {
    "redeclared": [("int r1; int r1;", "b"), ("int r2; char r2;", "bf"), ("int r3, r3;", "b"), ("int r4; int r4[2];", "bf"), ("typedef int r5; int r5;", "bf"), ("enum { r6 }; int r6;", "bf"), ("enum { r7, r7 };", "bf"), ("enum { r8 }; enum { r8 };", "bf"), ("int r9; enum { r9 };", "bf"), ("int *r10; int r10;", "bf"), ("int r11; typedef int r11;", "bf"),
                   ("struct r12 { int a; }; struct r12 { int a; };", "bf"), ("enum r13 { r13a }; enum r13 { r13b };", "bf"), ("struct r14 { int a; }; enum r14 { r14a };", "bf"), ("enum r15 { r15a }; struct r15 { int a; };", "bf"), ("int r16; int x16; long r16;", "bf"), ("typedef int r17; typedef char r17;", "bf"), ("struct r18 { int a; } v18; char v18;", "bf"), ("int r19 = 1; int r19 = 2;", "bf"), ("int (*r20)(void); int r20;", "bf")],
    "redeclared at file scope": [("int gi2(void); int gi2;", "f"), ("int q1(void) { return 1; } int q1(void) { return 2; }", "f"), ("int q2; int q2(void) { return 1; }", "f"), ("int q3(void); char q3(void);", "f"), ("int q4(int x); int q4(long x);", "f"), ("int q5(int x); int q5(int x, int y);", "f"), ("enum { q6 }; int q6(void) { return 1; }", "f"), ("typedef int q7; int q7(void) { return 1; }", "f"), ("long gi;", "f"), ("int f0;", "f"), ("int E0;", "f"), ("int TI;", "f"), ("struct S { int q; };", "f"), ("enum E { QE };", "f"), ("int gi(void) { return 1; }", "f")],
    "parameters": [("int q10(int x, int x) { return x; }", "f"), ("int q11(int x) { int x; return 1; }", "f"), ("int q12(void v) { return 1; }", "f"), ("int q13(int x, void) { return x; }", "f"), ("int q14(struct I x) { return 1; }", "f"), ("int q15(int) { return 1; }", "f"), ("int q16(int x, long x) { return 1; }", "f"), ("int q17(int x, int y, int x) { return 1; }", "f"), ("void q18(int x) { char x; }", "f"), ("int q19(zz x) { return 1; }", "f"), ("int q20(int x,) { return 1; }", "f"),
                   ("int q21(,int x) { return 1; }", "f"), ("int q22(int x y) { return 1; }", "f"), ("int q23(int x { return 1; }", "f"), ("int q24(void, int x) { return 1; }", "f"), ("int q25(struct Zz *x, int y) { return x->a; }", "f"), ("int q26(int x; int y) { return 1; }", "f"), ("int q27(int *x, int x) { return 1; }", "f"), ("int q28(5) { return 1; }", "f"), ("int q29(int x) { enum { x }; return 1; }", "f"), ("void q30(int x, int (*x)(void)) { }", "f")],
    "void and incomplete objects": [("void v1;", "b"), ("void v2[3];", "bf"), ("struct I v3;", "b"), ("struct Unk v4;", "b"), ("struct I v5[3];", "bf"), ("struct Unk v6[2];", "bf"), ("struct { void v; } v7;", "bf"), ("struct v8 { struct I i; };", "bf"), ("struct v9 { struct v9 r; };", "bf"), ("struct v10 { struct Unk u[2]; };", "bf"), ("int x11, v11; void v12, *v13;", "bf"), ("struct v14 { int a; struct v14 r[2]; };", "bf"), ("typedef void v15; v15 v16;", "bf"), ("typedef struct I v17; v17 v18[2];", "bf"), ("struct v19 { void a[2]; };", "bf")],
    "functions and arrays combined wrongly": [("int w1[3](void);", "bf"), ("int w2(void)[3];", "bf"), ("int w3(void)(void);", "bf"), ("struct { int w4(void); } w5;", "bf"), ("typedef int w6[3]; w6 w7(void);", "bf"), ("typedef int w8(void); w8 w9[2];", "bf"), ("typedef int w10(void); w10 w11(void);", "bf"), ("int (*w12)(void)[3];", "bf"), ("struct { int a; char w13(int x); int b; };", "bf")],
    "array sizes": [("int s1[-1];", "bf"), ('int s2["x"];', "bf"), ("int s3[zz];", "bf"), ("int s4[gp];", "bf"), ("int s5[gi];", "f"), ("int s6[f0()];", "f"), ("int s7[gs];", "bf"), ("int s8[0];", "bf"), ("int s9[2][0];", "bf"), ("struct { int a[0]; } s10;", "bf"), ("int s11[];", "b"), ("struct { int a[zz]; } s12;", "bf"), ("int s13[2][zz];", "bf"), ("int s14[[3]];", "bf"), ("int s15[3;", "bf"), ("int s16 3];", "bf"), ("int s17[E9];", "bf"), ("int s18[int];", "bf"), ("int s19[TI];", "bf"), ("typedef int s20[0];", "bf"), ("char s21[E0];", "bf")],
    "initializers": [("int i1 = {1, 2};", "bf"), ("int i3[2] = {1, 2, 3};", "bf"), ("int i4[2] = 5;", "bf"), ('int i5[3] = "abc";', "bf"), ('char i6[2] = "abc";', "bf"), ("struct S i7 = 5;", "bf"), ("struct T i8 = {1, 2, 3};", "bf"), ("int i9[2][2] = {{1, 2, 3}};", "bf"), ("int i10[2][2] = {1, 2, 3, 4, 5};", "bf"), ("int i11 = ;", "bf"), ("int i12[2] = {1 2};", "bf"), ("int i13[2] = {,};", "bf"), ("int i14[2] = {1, 2;", "bf"), ("int i15 = 1 2;", "bf"), ("typedef int i16 = 5;", "bf"), ("int i17 = zz;", "bf"), ("struct T i18[1] = {{1, 2}, {3, 4}};", "bf"),
                     ("struct { int a[2]; int b; } i19 = {{1, 2, 3}, 4};", "bf"), ('struct { char a[2]; } i20 = {"abc"};', "bf"), ("int i21[2] = {{1, 2}, 3};", "bf"), ('char i22[2][2] = {"a", "bcd"};', "bf"), ("int i23 = {};", "bf"), ('char i24[3] = {"ab", 1};', "bf"), ("struct T i25 = {1, {2, 3}};", "bf"), ('int i26 = "a";', "bf"), ('char i27 = "a";', "bf"), ("int *i28 = 5;", "bf"), ("int *i29 = {5};", "bf"), ('long *i30 = "abc";', "bf")],
    "initializer types": [("int j1 = gs;", "b"), ("int j2 = gp;", "b"), ("int *j3 = gi;", "b"), ("int j4[2] = gp;", "b"), ("int j5[2] = ga;", "b"), ("struct S j6 = gt;", "b"), ("struct S j7 = gi;", "b"), ("struct S j8 = gps;", "b"), ("int *j9 = gcp;", "b"), ("int j10 = fv();", "b"), ("int j11[2] = {gp};", "b"), ("int j12[2] = {1, gs};", "b"), ("struct T j13 = {gp};", "b"), ("struct T j14 = {1, gs};", "b"), ("int *j15[2] = {gp, gcp};", "b"), ("struct S *j16 = gpt;", "b"), ("int (*j17)(int x) = f0;", "b"), ("int **j18 = gp;", "b"), ("int *j19 = &gcp;", "b"), ("char *j20 = gp;", "b"), ("struct S j21 = {1, 2, gp};", "b"), ("struct S j22 = {1, 2, gps, {gp}};", "b"), ("int j23 = {gp};", "b"), ("int j24[2][2] = {{1, 2}, {3, gs}};", "b"), ("int j25 = f1;", "b"), ("int j26 = f1();", "b"), ("int j27 = zz, j28 = 1;", "b"), ("int j29 = 1, j30 = zz;", "b"), ("int j31 = j31x;", "b")],
    "non-constant global initializers": [("int k1 = gi;", "f"), ("int k2 = f0();", "f"), ("int k3[2] = {1, gi};", "f"), ("int k4 = ga[0];", "f"), ("int k5 = gi + 1;", "f"), ("struct T k6 = {gi, 1};", "f"), ("int k7 = *gp;", "f"), ("int k8 = gs.a;", "f"), ("int k9 = gi++;", "f"), ("int *k10 = gp;", "f")],
    "members": [("struct { int a; int a; } m1;", "bf"), ("struct { int a; char b; long a; } m2;", "bf"), ("struct { int a, a; } m3;", "bf"), ("struct m4 { int x; int *x; };", "bf"), ("struct { int a = 1; } m5;", "bf"), ("struct { int; } m6;", "bf"), ("struct { a; } m7;", "bf"), ("struct { int a } m8;", "bf"), ("struct { int a, } m9;", "bf"), ("struct { int a; m10;", "bf"), ("struct { int a; struct { int b; int b; } c; } m11;", "bf"), ("struct { zz a; } m12;", "bf"), ("struct m13 { typedef int a; };", "bf"), ("struct { int a[2]; char a; } m14;", "bf"), ("struct { int (*a)(void); int a; } m15;", "bf"), ("struct m16 { } m17;", "bf")],
    "tags": [("struct E t1;", "bf"), ("enum S t2;", "bf"), ("struct E *t3;", "bf"), ("enum S *t4;", "bf"), ("struct t5;;)", "bf"), ("struct 5 { int a; };", "bf"), ("struct t6 { int a; ", "bf"), ("enum t7 { t7a;", "bf"), ("enum { };", "bf"), ("enum { , };", "bf"), ("enum { 5 };", "bf"), ("enum { t8 = };", "bf"), ("enum { t9 = zz };", "bf"), ("enum { t10 = gi };", "bf"), ('enum { t11 = "x" };', "bf"), ("enum { t12 = gp };", "bf"), ("enum { t13 t14 };", "bf"), ("enum { t15, , t16 };", "bf"), ("enum t17 { t17a = t17b, t17b };", "bf"), ("struct { int a; } t18 t19;", "bf"), ("enum { t20 = gs };", "bf"), ("enum { t21 = t21 };", "bf"), ("enum t22 { t22a } t22a;", "bf")],
    "nothing declared": [("int;", "bf"), ("TI;", "bf"), ("unsigned long;", "bf"), ("struct { int a; };", "bf"), ("void;", "bf"), ("typedef int;", "bf")],
    "specifiers": [("int int p1;", "bf"), ("long char p2;", "bf"), ("long long long p3;", "bf"), ("unsigned struct S p4;", "bf"), ("int p5 p6;", "bf"), ("int 5;", "bf"), ("unsigned unsigned p7;", "bf"), ("void int p8;", "bf"), ("int char p9;", "bf"), ("struct S int p10;", "bf"), ("TI int p11;", "bf"), ("int TI p12;", "bf"), ("unsigned void p13;", "bf"), ("long void p14;", "bf"), ("zz p15;", "bf"), ("zz *p16;", "bf"), ("int *p17 *;", "bf"), ("int * ;", "bf"), ("int p18, ;", "bf"), ("int , p19;", "bf"), ("int (p20;", "bf"), ("int p21);", "bf"), ("int p22", "bf"), ("typedef int;x", "bf"), ("typedef typedef int p23;", "bf"), ("enum E int p24;", "bf"), ("char long p25;", "bf"), ("int unsigned unsigned p26;", "bf"), ("unsigned TI p27;", "bf"), ("long TI p28;", "bf"), ("int if;", "bf"), ("int while;", "bf"), ("int struct;", "bf"), ("int return = 1;", "bf"), ("int sizeof;", "bf"), ("char char p29;", "bf"), ("unsigned int long long long p30;", "bf"), ("signed unsigned int p31;", "bf"), ("int ***;", "bf"), ("int (*p32;", "bf"), ("int (*)(void);", "bf"), ("gi p33;", "bf"), ("typedef zz p34;", "bf"), ("struct S TI;x", "bf"), ("f0 p35;", "bf"), ("E0 p36;", "bf")],
    "scope ended": [("{ int e1; } e1 = 1;", "b"), ("{ typedef int e2; } e2 e3;", "b"), ("{ enum { e4 }; } gi = e4;", "b"), ("{ struct e5 { int a; }; } struct e5 e6;", "b"), ("if (gi) { int e7; e7 = 1; } e7 = 2;", "b"), ("while (gi) { int e8; } e8++;", "b"), ("{ int e9; { int e10; } e9 = e10; }", "b"), ("{ enum e11 { e12 }; } switch (gi) { case e12: ; }", "b"), ("{ struct e13 { int a; }; } gi = sizeof(struct e13);", "b")],
    "before the declaration": [("b1 = 1; int b1;", "b"), ("int b2 = b3; int b3;", "b"), ("struct b4 b5; struct b4 { int a; };", "b"), ("b6 b7; typedef int b6;", "b"), ("gi = b8; enum { b8 };", "b"), ("int b9[b10]; enum { b10 = 3 };", "bf"), ("int b11(void) { return b12; } int b12;", "f"), ("int b13(void) { return b14(); } int b14(void) { return 1; }", "f"), ("b15 b16; typedef int b15;", "f"), ("int b17(struct b18 *p) { return p->a; } struct b18 { int a; };", "f")],
    "file scope only declarations": [("5;", "f"), ("gi = 1;", "f"), ("f0();", "f"), ("if (gi) ;", "f"), ("return 1;", "f"), ("}", "f"), ("{ }", "f"), ("while (1) ;", "f"), ("int y1(void) { ", "f"), ("int y2(void) { return 1; } }", "f"), ("int y3(void) return 1;", "f"), ("int y4(void) { return 1; ", "f"), ("int y5 { return 1; }", "f"), ("y6(void) { return 1; }", "f"), ("int y7(void) int y8(void) { }", "f"), ("int y9(void) { } int", "f"), ("case 1: ;", "f"), ("break;", "f"), ("int y10(void), { }", "f"), ("int y11, y12(void) { return 1; }", "f"), ("int y13 = 1 { }", "f"), ("typedef int y14(void) { return 1; }", "f"), ("int (*y15)(void) { return 1; }", "f"), ("struct y16 { int a; } ", "f"), ("int y17(void) { int y18(void) { return 1; } return 2; }", "f"), ("typedef int y19t(void); y19t y19 { return 1; }", "f")],
    "functions returning arrays or functions": [("typedef int z1[2]; z1 z2(void) { }", "f"), ("int z3(void)[2] { }", "f"), ("struct Zz z4(void) { }", "f"), ("struct I z5(void) { }", "f")],
}


def programs_expr():
    for cat, xs in EXPR.items():
        for x in xs:
            yield cat, x


def programs_stmt():
    for cat, xs in STMT.items():
        for x, need in xs:
            yield cat, x, need


def programs_decl():
    for cat, xs in DECL.items():
        for x, where in xs:
            yield cat, x, where


# where an expression may stand (the violation is in @)
EXPR_CTX = ["@;", "(@);", "gi = (@);", "if (@) gi = 1;", "if (gi) ; else (@);", "while (@) break;", "for ((@); gi; gi++) break;",
            "for (; (@); ) break;", "for (;; (@)) break;", "switch (@) { default: ; }", "f1((@));", "f2((@), gcp);", "int l_ = (@);", "int l_[2] = {1, (@)};",
            "gi && (@);", "(@) || gi;", "gi ? (@) : 1;", "gi ? 1 : (@);", "(@) ? 1 : 2;", "gi = 1 + (@);", "gi = (@) * 2;", "ga[(@)] = 1;", "gi = -(@);", "gi += (@);",
            "*(@) = 1;", "gi = sizeof(@);", "gi = !(@);", "gi = (gi + (gi - (gi * (@))));", "f1(f1(f1((@))));", "gi = (int)(@);", "gl = gi < (@);", "gi = ga[ga[(@)]];",
            "gs.a = (@);", "gps->n->a = (@);", "{ { { @; } } }", "switch (gi) { case 1: gi = 2; break; default: @; }", "switch (gi) { case 1: (@); case 2: ; }", "return (@);"]

# where a statement (or block declaration) may stand
PLACE = [("first", "@ gi = 1;"), ("last", "gi = 1; @"), ("block", "{ @ }"), ("nested", "{ gi = 1; { { @ } gi = 2; } }"), ("then", "if (gi) { @ }"), ("else", "if (gi) gi = 1; else { @ }"),
         ("else if", "if (gi) gi = 1; else if (gl) { @ } else gi = 2;"), ("after if", "if (gi) { gi = 2; } @"), ("while", "while (gi) { @ }"), ("for", "for (gi = 0; gi < 3; gi++) { gl = 1; @ }"),
         ("case", "switch (gi) { case 77: { @ } break; default: gi = 1; }"), ("default", "switch (gi) { case 77: break; default: { @ } }"), ("nested loops", "while (gi) for (;;) { if (gl) { @ } }"),
         ("unreachable", "{ int u_ = 1; gi = u_; if (gi) return @R; @ }"), ("after inner function call", "f1(gi); @ f1(2);"), ("switch in loop", "while (1) { switch (gi) { default: if (gi) { @ } } }"),
         ("after declarations", "int a_ = 1; char b_[3]; struct S c_; @ a_ = 2;"), ("deep", "{ int d1_; { int d2_; { int d3_; { int d4_; d4_ = 1; @ } d3_ = 1; } d2_ = 1; } d1_ = 1; }")]
NO_LOOP = {"while", "for", "case", "default", "nested loops", "switch in loop"}     # for violations about misplaced break/case

# what stands around the function
AROUND = ["@", "int w1_(int x) { return x + gi; }\n@", "@\nint w2_(void) { return f0() + ga[1]; }", "int w3_(void) { int x = 1; { int x = 2; gi = x; } return x; }\n@\nlong w4_(char c) { while (c) { c--; if (c == 3) break; } return c; }",
          "int w5_; int w6_[4] = {1, 2, 3};\n@\nstruct W7_ { int q; }; struct W7_ w8_;", "void w9_(void) { switch (gi) { case 1: gi = 2; break; default: gi = 3; } for (gi = 0; gi < 5; ++gi) { continue; } }\n@"]


def function(body, ret):
    if ret == "v":
        return "void m_(int prm, char *prs) { %s }" % body.replace("@R", "")
    return "int m_(int prm, char *prs) { %s return 0; }" % body.replace("@R", "1")


def programs(rnd, copies):
    """(label, text) for every entry of the catalogue, plain and in `copies` other places"""
    for cat, x in programs_expr():
        yield "expression: " + cat, ENV + function("%s;" % x, "i") + "\n"
        for _ in range(copies):
            ctx = rnd.choice(EXPR_CTX).replace("@", x)
            ret = "i" if "return" in ctx else rnd.choice("iv")
            body = rnd.choice(PLACE)[1].replace("@R", "#R#").replace("@", ctx).replace("#R#", "@R")
            yield "expression: " + cat, ENV + rnd.choice(AROUND).replace("@", function(body, ret)) + "\n"
    for cat, x, need in programs_stmt():
        yield "statement: " + cat, ENV + function(x, need if need in ("v", "i") else "i") + "\n"
        for _ in range(copies):
            while True:
                name, pl = rnd.choice(PLACE)
                if not (need == "o" and name in NO_LOOP):
                    break
            ret = need if need in ("v", "i") else rnd.choice("iv")
            body = pl.replace("@R", "#R#").replace("@", x).replace("#R#", "@R")
            yield "statement: " + cat, ENV + rnd.choice(AROUND).replace("@", function(body, ret)) + "\n"
    for cat, x, where in programs_decl():
        for w in where:
            if w == "f":
                yield "declaration: " + cat, ENV + x + "\n" + function("", "i") + "\n"
                for _ in range(max(1, copies // 2)):
                    yield "declaration: " + cat, ENV + rnd.choice(AROUND).replace("@", x) + "\n"
            else:
                yield "declaration: " + cat, ENV + function(x, "i") + "\n"
                for _ in range(copies):
                    body = rnd.choice(PLACE)[1].replace("@R", "#R#").replace("@", x).replace("#R#", "@R")
                    yield "declaration: " + cat, ENV + rnd.choice(AROUND).replace("@", function(body, rnd.choice("iv"))) + "\n"
